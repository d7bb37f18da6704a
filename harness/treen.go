package main

import (
	"fmt"
	"sort"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/gtree"
	"github.com/henderiw/idxtable/pkg/tree/tree16"
	"github.com/henderiw/idxtable/pkg/tree/tree32"
	"github.com/henderiw/idxtable/pkg/tree/tree64"
	"k8s.io/apimachinery/pkg/labels"
)

func newGTree(w, length uint8) (gtree.GTree, error) {
	switch w {
	case 16:
		return tree16.New("t", length)
	case 32:
		return tree32.New("t", length)
	}
	return tree64.New("t", length)
}

type gModel struct {
	l    *lib
	size uint64
	m    map[pfx]labels.Set
}

func (m *gModel) used() (out []pfx) {
	for p := range m.m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].less(out[j]) })
	return
}

func (m *gModel) clone() *gModel {
	n := &gModel{m.l, m.size, map[pfx]labels.Set{}}
	for k, v := range m.m {
		n.m[k] = v
	}
	return n
}

// free is the space without the claimed prefixes.
func (m *gModel) free() iv {
	var f iv
	f = f.add(0, m.size)
	for p := range m.m {
		f = f.remove(p.id, p.id|m.l.max()&^m.l.mask(p.l))
	}
	return f
}

// decompose lists the maximal prefixes of a range.
func (l *lib) decompose(a, b uint64) (out []pfx) {
	for {
		n := l.w
		for n > 0 && a&l.mask(n-1) == a && a|l.max()&^l.mask(n-1) <= b {
			n--
		}
		out = append(out, pfx{a, n})
		last := a | l.max()&^l.mask(n)
		if last >= b {
			return
		}
		a = last + 1
	}
}

func ents(es []tree.Entry) string {
	s := ""
	for _, e := range es {
		if e == nil {
			s += "nil "
			continue
		}
		s += fmt.Sprintf("%#x/%d%v ", e.ID().ID(), e.ID().Length(), e.Labels())
	}
	return s
}

// isSet checks that es are exactly the prefixes of the model that keep holds
// for, each once, with their labels.
func (m *gModel) isSet(c *ctx, name string, es []tree.Entry, keep func(pfx, labels.Set) bool) {
	seen := map[pfx]bool{}
	for _, e := range es {
		c.check(e != nil, "%s holds a nil entry", name)
		p := pfx{e.ID().ID(), e.ID().Length()}
		l, ok := m.m[p]
		c.check(ok && keep(p, l), "%s shows %v: %s", name, p, ents(es))
		c.check(!seen[p], "%s shows %v twice", name, p)
		c.check(sameLabels(l, e.Labels()), "%s shows %v with labels %v, want %v", name, p, e.Labels(), l)
		seen[p] = true
	}
	for p, l := range m.m {
		c.check(!keep(p, l) || seen[p], "%s lacks %v: %s", name, p, ents(es))
	}
}

func checkG(c *ctx, t gtree.GTree, m *gModel, probes []pfx) {
	l := m.l
	for i, p := range probes {
		if i > 12 || i > 3 && len(m.m) > 40 {
			break
		}
		e, err := t.Get(l.newID(p.id, p.l))
		lb, ok := m.m[p]
		c.check((err == nil) == ok, "Get(%v) gives error %v, claimed %v", p, err, ok)
		if ok {
			c.check(e != nil && e.ID().ID() == p.id && e.ID().Length() == p.l && sameLabels(e.Labels(), lb), "Get(%v) gives %v, want labels %v", p, e, lb)
		} else {
			c.check(e == nil, "Get(%v) fails but gives an entry", p)
		}
	}
	m.isSet(c, "GetAll", t.GetAll(), func(pfx, labels.Set) bool { return true })
}

func queriesG(c *ctx, t gtree.GTree, m *gModel, p pfx) {
	l := m.l
	id := l.newID(p.id, p.l)
	c.step("Children(%v)", p)
	m.isSet(c, fmt.Sprintf("Children(%v)", p), t.Children(id), func(q pfx, _ labels.Set) bool { return q != p && l.covers(p, q) })
	c.step("Parents(%v)", p)
	m.isSet(c, fmt.Sprintf("Parents(%v)", p), t.Parents(id), func(q pfx, _ labels.Set) bool { return q != p && l.covers(q, p) })
	s, txt := c.selector()
	c.step("GetByLabel(%q)", txt)
	m.isSet(c, "GetByLabel("+txt+")", t.GetByLabel(s), func(_ pfx, lb labels.Set) bool { return s.Matches(lb) })
	c.step("Size()")
	c.check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	c.step("Iterate()")
	var es []tree.Entry
	for it := t.Iterate(); it.Next() && len(es) <= len(m.m); {
		es = append(es, it.Entry())
	}
	m.isSet(c, "Iterate", es, func(pfx, labels.Set) bool { return true })
}

type gOpt struct {
	ops     []string
	queries int
	clones  bool
}

func runG(o gOpt) func(c *ctx) {
	return func(c *ctx) {
		for n := 0; c.left() || n < 12; n++ {
			l := libs[n%3]
			length := []uint8{0, 1, 3, 4, l.w, l.w - 1, uint8(c.Intn(int(l.w) + 1)), 6}[c.Intn(8)]
			c.begin(map[string]interface{}{"width": l.w, "length": length})
			t, err := newGTree(l.w, length)
			c.check(err == nil, "New(%d) fails: %v", length, err)
			_, err = newGTree(l.w, l.w+1+uint8(c.Intn(100)))
			c.check(err != nil, "New accepts a length beyond the width")
			m := &gModel{l: l, size: l.max() >> (l.w - length), m: map[pfx]labels.Set{}}
			if length == 0 {
				m.size = 0
			}
			type pair struct {
				t gtree.GTree
				m *gModel
			}
			var others []pair
			var all []pfx
			steps := 4 + c.Intn(40)
			if c.Intn(12) == 0 {
				steps += 120
			}
			for s := 0; s < steps; s++ {
				var p pfx
				for k := 0; ; k++ {
					p = l.prefix(c, all)
					if length < l.w && c.Intn(3) > 0 {
						// near the space, which is at the low end
						n := l.w - uint8(c.Intn(int(length)+2))
						if c.Intn(3) == 0 {
							n = l.w
						}
						p = pfx{c.Uint64() & (m.size<<1 | 1) & l.mask(n), n}
					}
					if p.id <= m.size || c.Intn(5) == 0 || k > 20 {
						break
					}
				}
				op := o.ops[c.Intn(len(o.ops))]
				if us := m.used(); len(us) > 0 && (op == "ReleaseID" || op == "Update" || op == "Children") && c.Intn(4) > 0 {
					p = us[c.Intn(len(us))]
				}
				all = append(all, p)
				id := l.newID(p.id, p.l)
				lb := c.labels()
				okID := p.id <= m.size
				switch op {
				case "ClaimID":
					c.step("ClaimID(%v, %v)", p, lb)
					err := t.ClaimID(id, lb)
					c.check((err == nil) == okID, "ClaimID(%v) gives %v", p, err)
					if okID {
						m.m[p] = lb
					}
				case "Update":
					c.step("Update(%v, %v)", p, lb)
					err := t.Update(id, lb)
					c.check((err == nil) == okID, "Update(%v) gives %v", p, err)
					if okID {
						m.m[p] = lb
					}
				case "ReleaseID":
					c.step("ReleaseID(%v)", p)
					err := t.ReleaseID(id)
					c.check((err == nil) == okID, "ReleaseID(%v) gives %v", p, err)
					if okID {
						delete(m.m, p)
					}
				case "ReleaseByLabel":
					sel, txt := c.selector()
					if txt == "" && c.Intn(3) > 0 {
						continue
					}
					c.step("ReleaseByLabel(%q)", txt)
					err := t.ReleaseByLabel(sel)
					c.check(err == nil, "ReleaseByLabel gives %v", err)
					for q, x := range m.m {
						if sel.Matches(x) {
							delete(m.m, q)
						}
					}
				case "ClaimFree":
					f := m.free()
					c.step("ClaimFree(%v)", lb)
					e, err := t.ClaimFree(lb)
					c.check((err == nil) == (len(f) > 0), "ClaimFree gives %v; free: %v", err, f)
					if len(f) == 0 {
						c.check(e == nil, "ClaimFree fails but gives an entry")
						break
					}
					v := e.ID().ID()
					in := false
					for _, r := range f {
						in = in || r[0] <= v && v <= r[1]
					}
					c.check(in && e.ID().Length() == l.w && sameLabels(e.Labels(), lb), "ClaimFree gives %#x/%d %v; free: %v", v, e.ID().Length(), e.Labels(), f)
					m.m[pfx{v, l.w}] = lb
				case "ClaimRange":
					a, b := l.prefix(c, all).id, l.prefix(c, all).id
					if c.Intn(3) > 0 {
						a, b = a&m.size, b&m.size
					}
					if c.Intn(3) > 0 && m.size > 0 {
						b = a + uint64(c.Intn(20))
					}
					if a > b && c.Intn(4) > 0 {
						a, b = b, a
					}
					txt := fmt.Sprintf("%d-%d", a, b)
					c.step("ClaimRange(%q, %v)", txt, lb)
					err := t.ClaimRange(txt, lb)
					ok := a <= b && b <= m.size
					c.check((err == nil) == ok, "ClaimRange(%q) gives %v; the space ends at %d", txt, err, m.size)
					if ok {
						for _, q := range l.decompose(a, b) {
							m.m[q] = lb
						}
					}
				case "ClaimBadRange":
					txt := []string{"", "-", "1", "1-", "-1", "a-b", "1-2-3", "1--2", " 1-2", "1-2 ", "+1-2", "0x1-2", "1-99999999999999999999999", "99999999999999999999999-1"}[c.Intn(14)]
					c.step("ClaimRange(%q, %v)", txt, lb)
					c.check(t.ClaimRange(txt, lb) != nil, "ClaimRange(%q) succeeds", txt)
				case "Clone":
					c.step("Clone(), and go on with the %d", len(others)+1)
					others = append(others, pair{t.Clone(), m.clone()})
					checkG(c, others[len(others)-1].t, m, all)
					if len(others) > 3 {
						others = others[1:]
					}
				case "Switch":
					if len(others) > 0 {
						k := c.Intn(len(others))
						c.step("Switch to clone %d", k)
						others[k], t, m = pair{t, m}, others[k].t, others[k].m
					}
				}
				checkG(c, t, m, append([]pfx{p}, all...))
				if o.queries > 0 && s%o.queries == 0 {
					queriesG(c, t, m, p)
				}
				for _, x := range others {
					checkG(c, x.t, x.m, nil)
				}
			}
			if o.queries > 0 {
				for _, p := range m.used() {
					queriesG(c, t, m, p)
				}
			}
		}
	}
}

func init() {
	b := "tree tables at widths 16, 32 and 64 over spaces of every kind of length, histories of up to 163 calls, nested and sibling prefixes"
	props["C17"] = propRun{what: "random histories of ClaimID, Update and ReleaseID against a map from prefix to labels", bound: b, run: runG(gOpt{ops: []string{"ClaimID", "ClaimID", "ClaimID", "Update", "ReleaseID", "ReleaseID", "ClaimFree"}})}
	props["C18"] = propRun{what: "ClaimFree after random histories against the set of free ids", bound: b, run: runG(gOpt{ops: []string{"ClaimID", "ClaimFree", "ClaimFree", "ReleaseID", "ClaimRange"}})}
	props["C19"] = propRun{what: "ClaimRange after random histories against a decomposition of the range", bound: b, run: runG(gOpt{ops: []string{"ClaimID", "ClaimRange", "ClaimRange", "ReleaseID", "ClaimBadRange"}})}
	props["C20"] = propRun{what: "queries after random histories against a map from prefix to labels", bound: b, run: runG(gOpt{ops: []string{"ClaimID", "ClaimID", "ClaimID", "Update", "ReleaseID", "ClaimRange", "ReleaseByLabel"}, queries: 4})}
	props["C21"] = propRun{what: "histories that go on with both sides of a clone against separate maps", bound: b, run: runG(gOpt{ops: []string{"ClaimID", "ClaimID", "ClaimID", "Update", "ReleaseID", "ReleaseID", "ClaimFree", "Clone", "Switch"}, clones: true})}
}
