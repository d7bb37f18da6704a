package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/henderiw/idxtable/pkg/table"
	"github.com/henderiw/idxtable/pkg/table/table16"
	"github.com/henderiw/idxtable/pkg/table/table32"
	"github.com/henderiw/idxtable/pkg/table/table64"
	"k8s.io/apimachinery/pkg/labels"
)

func newTab(w int, start, end uint64) table.Table {
	switch w {
	case 16:
		return table16.New(uint16(start), uint16(end))
	case 32:
		return table32.New(uint32(start), uint32(end))
	}
	return table64.New(start, end)
}

// label sets over a small alphabet, so that selectors are interesting
func (c *ctx) labels() labels.Set {
	s := labels.Set{}
	for _, k := range []string{"a", "b", "c"} {
		if v := c.Intn(4); v > 0 {
			s[k] = fmt.Sprint(v)
		}
	}
	if len(s) == 0 && c.Intn(2) == 0 {
		return nil
	}
	return s
}

func (c *ctx) selector() (labels.Selector, string) {
	t := []string{"", "a", "!a", "a=1", "a!=1", "a in (1,2)", "a=1,b=2", "b notin (1,3)", "a,!b", "c=3"}[c.Intn(10)]
	s, err := labels.Parse(t)
	if err != nil {
		c.fail("selector %q: %v", t, err)
	}
	return s, t
}

func sameLabels(a, b labels.Set) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

type tabModel struct {
	w          int
	start, end uint64
	m          map[uint64]labels.Set
}

func (m *tabModel) max() uint64 { return ^uint64(0) >> (64 - m.w) }

func (m *tabModel) in(id uint64) bool { return m.start <= id && id <= m.end }

func (m *tabModel) ids() (out []uint64) {
	for k := range m.m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

func (m *tabModel) lowest() (uint64, bool) {
	for id := m.start; ; id++ {
		if _, ok := m.m[id]; !ok {
			return id, true
		}
		if id == m.end {
			return 0, false
		}
	}
}

func checkTab(c *ctx, t table.Table, m *tabModel, views bool) {
	probe := map[uint64]bool{}
	if m.end-m.start <= 120 {
		for i := m.start - 2; i != m.end+3; i++ {
			probe[i] = true
		}
	}
	for k := range m.m {
		probe[k], probe[k+1], probe[k-1] = true, true, true
		if len(probe) > 400 {
			break
		}
	}
	for i := uint64(0); i < 3; i++ {
		probe[m.start+i], probe[m.start-i], probe[m.end+i], probe[m.end-i], probe[i], probe[m.max()+i] = true, true, true, true, true, true
	}
	for id := range probe {
		l, ok := m.m[id]
		c.check(t.Has(id) == ok, "Has(%d) = %v, want %v", id, !ok, ok)
		free := m.in(id) && !ok
		c.check(t.IsFree(id) == free, "IsFree(%d) = %v, want %v", id, !free, free)
		e, err := t.Get(id)
		c.check((err == nil) == ok, "Get(%d) error %v, claimed %v", id, err, ok)
		if ok {
			c.check(e != nil && e.ID() != nil && e.ID().ID() == id && int(e.ID().Length()) == m.w, "Get(%d) gives %v", id, e)
			c.check(sameLabels(e.Labels(), l), "Get(%d) has labels %v, want %v", id, e.Labels(), l)
		} else {
			c.check(e == nil, "Get(%d) fails but gives an entry", id)
		}
	}
	c.check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	if !views {
		return
	}
	listing := func(name string, es []entryI, keep func(labels.Set) bool) {
		var want []uint64
		for _, id := range m.ids() {
			if keep(m.m[id]) {
				want = append(want, id)
			}
		}
		c.check(len(es) == len(want), "%s has %d entries, want %d", name, len(es), len(want))
		for i, e := range es {
			c.check(e.id == want[i] && e.l == m.w, "%s[%d] is %d/%d, want %d/%d", name, i, e.id, e.l, want[i], m.w)
			c.check(sameLabels(e.labels, m.m[want[i]]), "%s: id %d has labels %v, want %v", name, e.id, e.labels, m.m[want[i]])
		}
	}
	c.step("GetAll()")
	listing("GetAll", entries(t.GetAll()), func(labels.Set) bool { return true })
	for i := 0; i < 3; i++ {
		s, txt := c.selector()
		c.step("GetByLabel(%q)", txt)
		listing("GetByLabel("+txt+")", entries(t.GetByLabel(s)), func(l labels.Set) bool { return s.Matches(l) })
	}
	c.step("FindFree()")
	got, err := t.FindFree()
	want, ok := m.lowest()
	c.check((err == nil) == ok, "FindFree gives %v, a free id exists: %v", err, ok)
	if ok {
		c.check(got == want, "FindFree = %d, lowest free id is %d", got, want)
	}
}

func tabRun(ops []string, views int) func(c *ctx) {
	return func(c *ctx) {
		for n := 0; c.left() || n < 12; n++ {
			w := []int{16, 32, 64}[n%3]
			m := &tabModel{w: w, m: map[uint64]labels.Set{}}
			max := m.max()
			switch c.Intn(6) {
			case 0:
				m.start, m.end = 0, max
				if w == 64 {
					m.end--
					if c.Intn(2) == 0 {
						m.start, m.end = 1, max
					}
				}
			case 1:
				m.start = max - uint64(c.Intn(20))
				m.end = max
			case 2:
				m.start, m.end = 0, uint64(c.Intn(20))
			case 3:
				m.start = c.Uint64() & max
				m.end = m.start + uint64(c.Intn(20))
				if m.end > max || m.end < m.start {
					m.end = max
				}
			case 4:
				m.start, m.end = c.Uint64()&max, c.Uint64()&max
				if m.start > m.end {
					m.start, m.end = m.end, m.start
				}
			case 5:
				m.start = c.Uint64() & max
				m.end = m.start
			}
			tabCase(c, m, ops, views)
		}
	}
}

func tabCase(c *ctx, m *tabModel, ops []string, views int) {
	c.begin(map[string]interface{}{"width": m.w, "start": m.start, "end": m.end})
	t := newTab(m.w, m.start, m.end)
	steps := 6 + c.Intn(30)
	pick := func() uint64 {
		switch c.Intn(8) {
		case 0:
			return m.start - 1 + uint64(c.Intn(3))
		case 1:
			return m.end - 1 + uint64(c.Intn(3))
		case 2:
			return []uint64{0, m.max(), m.max() + 1, math.MaxUint64, 1 << 32, 1 << 16, m.start + 1<<m.w, m.end + 1<<m.w, m.start + 1<<32}[c.Intn(9)]
		case 3:
			ids := m.ids()
			if len(ids) > 0 {
				return ids[c.Intn(len(ids))] + uint64(c.Intn(3)) - 1
			}
		}
		return m.start + c.Uint64()%(m.end-m.start+1|1)
	}
	for s := 0; s < steps; s++ {
		id := pick()
		l := c.labels()
		op := ops[c.Intn(len(ops))]
		_, used := m.m[id]
		switch op {
		case "Claim":
			c.step("Claim(%d,%v)", id, l)
			err := t.Claim(id, l)
			want := m.in(id) && !used
			c.check((err == nil) == want, "Claim(%d) gives %v, in range %v, claimed %v", id, err, m.in(id), used)
			if want {
				m.m[id] = l
			}
		case "Release", "Update":
			if c.Intn(3) > 0 && len(m.m) > 0 {
				ids := m.ids()
				id = ids[c.Intn(len(ids))]
				used = true
			}
			if op == "Release" {
				c.step("Release(%d)", id)
				err := t.Release(id)
				c.check((err == nil) == m.in(id), "Release(%d) gives %v, in range %v", id, err, m.in(id))
				delete(m.m, id)
				break
			}
			c.step("Update(%d,%v)", id, l)
			err := t.Update(id, l)
			c.check((err == nil) == used, "Update(%d) gives %v, claimed %v", id, err, used)
			if used {
				m.m[id] = l
			}
		case "ClaimFree":
			want, ok := m.lowest()
			c.step("ClaimFree(%v)", l)
			e, err := t.ClaimFree(l)
			c.check((err == nil) == ok, "ClaimFree gives %v, a free id exists: %v", err, ok)
			if ok {
				c.check(e.ID().ID() == want && int(e.ID().Length()) == m.w && sameLabels(e.Labels(), l), "ClaimFree = %v, want id %d labels %v", e, want, l)
				m.m[want] = l
			} else {
				c.check(e == nil, "ClaimFree fails but gives an entry")
			}
		}
		checkTab(c, t, m, views > 0 && s%views == 0)
	}
	checkTab(c, t, m, views > 0)
}

func init() {
	b := "ranges at widths 16, 32 and 64 (full, one id, at both ends, anywhere), histories of up to 36 calls"
	props["C06"] = propRun{what: "random histories of Claim/Release/Update on a range table against a map", bound: b, run: tabRun([]string{"Claim", "Claim", "Release", "Update"}, 0)}
	props["C07"] = propRun{what: "free search and listings of a range table after random histories against a map", bound: b, run: tabRun([]string{"Claim", "ClaimFree", "ClaimFree", "Release", "Update"}, 3)}
}
