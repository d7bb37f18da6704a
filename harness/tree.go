package main

import (
	"fmt"
	"sort"

	"github.com/henderiw/idxtable/pkg/tree"
)

type pfx struct {
	id uint64
	l  uint8
}

func (p pfx) String() string { return fmt.Sprintf("%#x/%d", p.id, p.l) }

// less orders prefixes the way a walk of the tree shows them: by bits, a
// shorter prefix before the longer ones it covers.
func (p pfx) less(q pfx) bool { return p.id < q.id || p.id == q.id && p.l < q.l }

func (l *lib) covers(p, q pfx) bool { return p.l <= q.l && (p.id^q.id)&l.mask(p.l) == 0 }

// prefix picks a prefix near the ones in use.
func (l *lib) prefix(c *ctx, used []pfx) pfx {
	canon := func(id uint64, n uint8) pfx { return pfx{id & l.mask(n), n} }
	if len(used) > 0 && c.Intn(4) > 0 {
		p := used[c.Intn(len(used))]
		switch c.Intn(5) {
		case 0:
			return p
		case 1: // shorter
			return canon(p.id, uint8(c.Intn(int(p.l)+1)))
		case 2: // longer
			n := p.l + uint8(c.Intn(int(l.w-p.l)+1))
			if c.Intn(2) == 0 && p.l+2 <= l.w {
				n = p.l + uint8(1+c.Intn(2))
			}
			return canon(p.id|(c.Uint64()&l.max()&^l.mask(p.l)), n)
		case 3: // sibling somewhere on the way
			if p.l > 0 {
				k := uint8(c.Intn(int(p.l)))
				return canon(p.id^(1<<(l.w-1-k)), p.l)
			}
		case 4:
			if p.l > 0 {
				k := uint8(c.Intn(int(p.l)))
				return canon(p.id^(1<<(l.w-1-k)), k+1)
			}
		}
	}
	if c.Intn(2) == 0 {
		return canon(c.Uint64()&l.max(), uint8(c.Intn(5)))
	}
	return canon(l.val(c), l.length(c))
}

type tval struct {
	p pfx
	n int // equality class
	u int // unique
}

type treeModel struct {
	l *lib
	m map[pfx][]tval
}

func (m *treeModel) used() (out []pfx) {
	for p, v := range m.m {
		if len(v) > 0 {
			out = append(out, p)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].less(out[j]) })
	return
}

func sameVals(a, b []tval) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[tval]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
		if n[x] < 0 {
			return false
		}
	}
	return true
}

// checkTree compares what an iteration shows with the model; order is checked
// when ordered is set.
func checkTree(c *ctx, t *tree.Tree[tval], m *treeModel, ordered bool) {
	var got []pfx
	it := t.Iterate()
	seen := map[pfx]bool{}
	total := 0
	for it.Next() {
		total++
		c.check(total <= len(m.m)+1, "the iteration shows more prefixes than were ever used: %v", got)
		vs := it.Vals()
		c.check(len(vs) > 0, "the iteration stops where there is no value")
		p := vs[0].p
		c.check(!seen[p], "the iteration shows %v twice", p)
		seen[p] = true
		got = append(got, p)
		c.check(sameVals(vs, m.m[p]), "prefix %v holds %v, want %v", p, vs, m.m[p])
	}
	c.check(!it.Next(), "Next answers true after the end")
	want := m.used()
	if !ordered {
		sort.Slice(got, func(i, j int) bool { return got[i].less(got[j]) })
	}
	c.check(fmt.Sprint(got) == fmt.Sprint(want), "the iteration shows %v, want %v", got, want)
}

func runTree(ordered bool) func(c *ctx) {
	return func(c *ctx) {
		eq := func(a, b tval) bool { return a.n == b.n }
		for n := 0; c.left() || n < 9; n++ {
			l := libs[n%3]
			c.begin(map[string]interface{}{"width": l.w})
			t := tree.NewTree[tval]("t", l.isLeft, l.w)
			m := &treeModel{l, map[pfx][]tval{}}
			type pair struct {
				t *tree.Tree[tval]
				m *treeModel
			}
			var clones []pair
			steps := 4 + c.Intn(40)
			if c.Intn(20) == 0 {
				steps += 300
			}
			u := 0
			var all []pfx
			multi := c.Intn(3) > 0
			for s := 0; s < steps; s++ {
				p := l.prefix(c, all)
				all = append(all, p)
				id := l.newID(p.id, p.l)
				u++
				v := tval{p, c.Intn(3), u}
				old := m.m[p]
				k := c.Intn(10)
				if !multi && k >= 3 && k < 5 {
					k = 0
				}
				if k >= 5 {
					if us := m.used(); len(us) > 0 && c.Intn(4) > 0 {
						p = us[c.Intn(len(us))]
						id, old, v.p = l.newID(p.id, p.l), m.m[p], p
					}
				}
				switch {
				case k < 3:
					c.step("Set(%v, %v)", p, v)
					inc, cnt := t.Set(id, v)
					if len(old) == 0 {
						m.m[p] = []tval{v}
					} else {
						// replaces one value, the first
						m.m[p] = append([]tval{v}, old[1:]...)
					}
					c.check(inc == (len(old) == 0) && cnt == len(m.m[p]), "Set(%v) = %v, %d; the prefix held %d values", p, inc, cnt, len(old))
				case k < 5:
					f := eq
					if c.Intn(2) == 0 {
						f = nil
					}
					c.step("Add(%v, %v, unique %v)", p, v, f != nil)
					dup := false
					for _, x := range old {
						dup = dup || f != nil && eq(x, v)
					}
					inc, cnt := t.Add(id, v, f)
					if !dup {
						m.m[p] = append(append([]tval{}, old...), v)
					}
					c.check(inc == !dup && cnt == len(m.m[p]), "Add(%v) = %v, %d; the prefix held %v", p, inc, cnt, old)
				default:
					var keep []tval
					for _, x := range old {
						if !eq(x, v) {
							keep = append(keep, x)
						}
					}
					var d int
					if c.Intn(2) == 0 {
						c.step("Delete(%v, %v)", p, v)
						d = t.Delete(id, eq, v)
					} else {
						c.step("DeleteWithBuffer(%v, %v)", p, v)
						d = t.DeleteWithBuffer(make([]tval, c.Intn(3)), id, eq, v)
					}
					c.check(d == len(old)-len(keep), "Delete(%v) = %d; the prefix held %v", p, d, old)
					m.m[p] = keep
				}
				if steps < 50 || s%16 == 0 {
					checkTree(c, t, m, ordered)
				}
				if c.Intn(25) == 0 {
					c.step("Clone()")
					cm := &treeModel{l, map[pfx][]tval{}}
					for k, v := range m.m {
						cm.m[k] = append([]tval{}, v...)
					}
					clones = append(clones, pair{t.Clone(), cm})
					if c.Intn(2) == 0 {
						p := &clones[len(clones)-1]
						t, p.t, m, p.m = p.t, t, p.m, m
					}
				}
			}
			checkTree(c, t, m, ordered)
			for _, p := range clones {
				checkTree(c, p.t, p.m, ordered)
			}
		}
	}
}

func init() {
	b := "histories of up to 343 calls on one tree at widths 16, 32 and 64, nested and sibling prefixes"
	props["C15"] = propRun{what: "random histories of Set, Add, Delete and DeleteWithBuffer against a map from prefix to values", bound: b, run: runTree(false)}
	props["C16"] = propRun{what: "iteration of trees after random histories against the sorted list of prefixes with values", bound: b, run: runTree(true)}
}
