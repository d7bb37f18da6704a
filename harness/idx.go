package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/henderiw/idxtable/pkg/idxtable"
)

// idxModel is the oracle: a map from id to data below a size.
type idxModel struct {
	size uint64
	m    map[uint64]string
}

func (m *idxModel) ids() []uint64 {
	var out []uint64
	for k := range m.m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (m *idxModel) free(max int) []uint64 {
	var out []uint64
	for i := uint64(0); i < m.size && len(out) < max; i++ {
		if _, ok := m.m[i]; !ok {
			out = append(out, i)
		}
	}
	return out
}

func (m *idxModel) nfree() uint64 { return m.size - uint64(len(m.m)) }

func (m *idxModel) rangeFree(start, size uint64) bool {
	if size == 0 || start >= m.size || size > m.size-start {
		return false
	}
	for k := range m.m {
		if k-start < size {
			return false
		}
	}
	return true
}

const bigSize = 1 << 16 // above this, free ids are not listed

func checkIdx(c *ctx, t idxtable.Table[string], m *idxModel, views bool) {
	probe := map[uint64]bool{}
	if m.size <= 300 {
		for i := uint64(0); i < m.size+3; i++ {
			probe[i] = true
		}
	} else {
		for k := range m.m {
			probe[k], probe[k+1], probe[k-1] = true, true, true
		}
		for i := uint64(0); i < 6; i++ {
			probe[i], probe[m.size-1-i], probe[m.size+i] = true, true, true
		}
	}
	for id := range probe {
		d, ok := m.m[id]
		c.check(t.Has(id) == ok, "Has(%d) = %v, want %v", id, !ok, ok)
		c.check(t.IsFree(id) == !ok, "IsFree(%d) = %v, want %v", id, ok, !ok)
		e, err := t.Get(id)
		c.check((err == nil) == ok, "Get(%d) error %v, used %v", id, err, ok)
		if ok {
			c.check(e.ID() == id && e.Data() == d, "Get(%d) = entry %d %q, want data %q", id, e.ID(), e.Data(), d)
		} else {
			c.check(e == nil, "Get(%d) fails but returns an entry", id)
		}
	}
	c.check(t.Size() == len(m.m), "Size() = %d, want %d", t.Size(), len(m.m))
	if !views {
		return
	}
	ids := m.ids()
	all := t.GetAll()
	c.check(len(all) == len(ids), "GetAll has %d entries, want %d", len(all), len(ids))
	for i, e := range all {
		c.check(e != nil && e.ID() == ids[i] && e.Data() == m.m[ids[i]], "GetAll[%d] is %v, want id %d", i, e, ids[i])
	}
	it := t.Iterate()
	i := 0
	for it.Next() {
		c.check(i < len(ids), "Iterate goes on after the last entry")
		c.check(it.ID() == ids[i], "Iterate %d: ID %d, want %d", i, it.ID(), ids[i])
		v := it.Value()
		c.check(v != nil && v.ID() == ids[i] && v.Data() == m.m[ids[i]], "Iterate %d: wrong value for id %d", i, ids[i])
		c.check(it.IsConsecutive() == (i > 0 && ids[i-1]+1 == ids[i]), "Iterate: IsConsecutive wrong at id %d", ids[i])
		i++
	}
	c.check(i == len(ids), "Iterate shows %d entries, want %d", i, len(ids))
	if m.size <= bigSize {
		free := m.free(math.MaxInt)
		fi := t.IterateFree()
		i = 0
		for fi.Next() {
			c.check(i < len(free), "IterateFree goes on after the last free id")
			c.check(fi.ID() == free[i], "IterateFree %d: ID %d, want %d", i, fi.ID(), free[i])
			c.check(fi.IsConsecutive() == (i > 0 && free[i-1]+1 == free[i]), "IterateFree: IsConsecutive wrong at id %d", free[i])
			i++
		}
		c.check(i == len(free), "IterateFree shows %d ids, want %d", i, len(free))
	}
}

func (c *ctx) pickID(m *idxModel) uint64 {
	switch c.Intn(8) {
	case 0:
		return m.size
	case 1:
		return m.size + uint64(c.Intn(3))
	case 2:
		return m.size - 1 - uint64(c.Intn(3))
	case 3:
		ids := m.ids()
		if len(ids) > 0 {
			return ids[c.Intn(len(ids))] + uint64(c.Intn(3)) - 1
		}
		return 0
	case 4:
		if c.Intn(8) == 0 {
			return math.MaxUint64 - uint64(c.Intn(2))
		}
		return uint64(c.Intn(4))
	}
	if m.size == 0 {
		return uint64(c.Intn(3))
	}
	return c.Uint64() % m.size
}

var idxSizes = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33, 64, 65, 100, 128, 255, 256, 257, 1000, 1 << 12, 1 << 16, 1 << 32, 1<<32 + 5, math.MaxInt64, 1 << 63, math.MaxUint64 - 1, math.MaxUint64}

func idxRun(ops []string, viewsEvery int) func(c *ctx) {
	return func(c *ctx) {
		for n := 0; c.left() || n < len(idxSizes); n++ {
			size := idxSizes[n%len(idxSizes)]
			if n >= len(idxSizes) && (size == 1<<12 || size == 1<<16 || c.Intn(3) > 0) {
				size = uint64(c.Intn(24))
			}
			idxCase(c, size, ops, viewsEvery)
		}
	}
}

func idxCase(c *ctx, size uint64, ops []string, viewsEvery int) {
	c.begin(map[string]interface{}{"size": size})
	t := idxtable.NewTable[string](size)
	m := &idxModel{size, map[uint64]string{}}
	steps := 6 + c.Intn(40)
	fill := c.Intn(3) == 0 && size < 300
	if fill {
		// a nearly full table
		for i := uint64(0); i < size; i++ {
			if c.Intn(5) > 0 {
				d := fmt.Sprint("f", i)
				c.step("Claim(%d,%q)", i, d)
				c.check(t.Claim(i, d) == nil, "Claim(%d) on a free id fails", i)
				m.m[i] = d
			}
		}
	}
	for s := 0; s < steps; s++ {
		op := ops[c.Intn(len(ops))]
		d := fmt.Sprintf("d%d", c.Intn(1000))
		id := c.pickID(m)
		n := uint64(c.Intn(6))
		switch c.Intn(8) {
		case 0:
			n = m.size - id + uint64(c.Intn(3)) - 1
		case 1:
			n = math.MaxUint64 - uint64(c.Intn(3)) - id
		case 2:
			n = m.nfree() + uint64(c.Intn(3)) - 1
		case 3:
			n = math.MaxUint64 - uint64(c.Intn(3))
		}
		_, used := m.m[id]
		switch op {
		case "Claim":
			c.step("Claim(%d,%q)", id, d)
			err := t.Claim(id, d)
			want := id < m.size && !used
			c.check((err == nil) == want, "Claim(%d) gives %v, size %d, used %v", id, err, m.size, used)
			if want {
				m.m[id] = d
			}
		case "Release":
			if c.Intn(2) == 0 && len(m.m) > 0 {
				ids := m.ids()
				id = ids[c.Intn(len(ids))]
			}
			c.step("Release(%d)", id)
			err := t.Release(id)
			c.check((err == nil) == (id < m.size), "Release(%d) gives %v, size %d", id, err, m.size)
			delete(m.m, id)
		case "Update":
			if c.Intn(2) == 0 && len(m.m) > 0 {
				ids := m.ids()
				id = ids[c.Intn(len(ids))]
				used = true
			}
			c.step("Update(%d,%q)", id, d)
			err := t.Update(id, d)
			c.check((err == nil) == used, "Update(%d) gives %v, used %v", id, err, used)
			if used {
				m.m[id] = d
			}
		case "FindFree", "ClaimDynamic":
			if m.size > bigSize && uint64(len(m.m)) >= m.size {
				continue
			}
			free := m.free(1)
			if op == "FindFree" {
				c.step("FindFree()")
				got, err := t.FindFree()
				c.check((err == nil) == (len(free) > 0), "FindFree gives %v, free ids %v", err, free)
				if err == nil {
					c.check(got == free[0], "FindFree = %d, lowest free id is %d", got, free[0])
				}
			} else {
				c.step("ClaimDynamic(%q)", d)
				e, err := t.ClaimDynamic(d)
				c.check((err == nil) == (len(free) > 0), "ClaimDynamic gives %v, free ids %v", err, free)
				if err == nil {
					c.check(e.ID() == free[0] && e.Data() == d, "ClaimDynamic = %d %q, want %d %q", e.ID(), e.Data(), free[0], d)
					m.m[free[0]] = d
				}
			}
		case "FindFreeRange", "ClaimRange":
			if m.rangeFree(id, n) && n > 1<<12 {
				n = uint64(c.Intn(9))
			}
			if id < m.size && n <= m.size-id {
				// a used id far up the range: the code walks up to it
				far := false
				for k := range m.m {
					if k >= id && k-id < n {
						far = true
					}
				}
				for i := uint64(0); far && i < 1<<12; i++ {
					if _, ok := m.m[id+i]; ok {
						far = false
					}
				}
				if far {
					continue
				}
			}
			want := m.rangeFree(id, n)
			if op == "FindFreeRange" {
				c.step("FindFreeRange(%d,%d)", id, n)
				ids, err := t.FindFreeRange(id, n)
				c.check((err == nil) == want, "FindFreeRange(%d,%d) gives %v, range free %v (size %d)", id, n, err, want, m.size)
				if err == nil {
					c.check(uint64(len(ids)) == n, "FindFreeRange(%d,%d) gives %d ids", id, n, len(ids))
					for i, x := range ids {
						c.check(x == id+uint64(i), "FindFreeRange(%d,%d)[%d] = %d", id, n, i, x)
					}
				}
			} else {
				c.step("ClaimRange(%d,%d,%q)", id, n, d)
				err := t.ClaimRange(id, n, d)
				c.check((err == nil) == want, "ClaimRange(%d,%d) gives %v, range free %v (size %d)", id, n, err, want, m.size)
				if err == nil {
					for i := uint64(0); i < n; i++ {
						m.m[id+i] = d
					}
				}
			}
		case "FindFreeSize", "ClaimSize":
			if m.size > bigSize {
				continue
			}
			want := n > 0 && n <= m.nfree()
			if want && n > 1<<12 {
				n = 1 + uint64(c.Intn(9))
				want = n <= m.nfree()
			}
			if op == "FindFreeSize" {
				c.step("FindFreeSize(%d)", n)
				ids, err := t.FindFreeSize(n)
				c.check((err == nil) == want, "FindFreeSize(%d) gives %v with %d free ids", n, err, m.nfree())
				if err == nil {
					free := m.free(int(n))
					c.check(len(ids) == len(free), "FindFreeSize(%d) gives %d ids", n, len(ids))
					for i := range ids {
						c.check(ids[i] == free[i], "FindFreeSize(%d)[%d] = %d, want %d", n, i, ids[i], free[i])
					}
				}
			} else {
				c.step("ClaimSize(%d,%q)", n, d)
				es, err := t.ClaimSize(n, d)
				c.check((err == nil) == want, "ClaimSize(%d) gives %v with %d free ids", n, err, m.nfree())
				if err == nil {
					free := m.free(int(n))
					c.check(len(es) == len(free), "ClaimSize(%d) gives %d entries", n, len(es))
					for i := range es {
						c.check(es[i] != nil && es[i].ID() == free[i] && es[i].Data() == d, "ClaimSize(%d)[%d] = %v, want id %d data %q", n, i, es[i], free[i], d)
						m.m[free[i]] = d
					}
				} else {
					c.check(len(es) == 0, "ClaimSize(%d) fails and returns entries", n)
				}
			}
		}
		checkIdx(c, t, m, viewsEvery > 0 && s%viewsEvery == 0 && size < 1000)
	}
	checkIdx(c, t, m, viewsEvery > 0)
}

func init() {
	b := "id tables of 0 .. 2^64-1 ids, histories of up to 46 calls plus up to 300 claims, ids biased to the edges"
	props["C01"] = propRun{what: "random histories of Claim/Release/Update against a map", bound: b, run: idxRun([]string{"Claim", "Claim", "Release", "Update"}, 0)}
	props["C02"] = propRun{what: "random histories with FindFree/ClaimDynamic against a map", bound: b, run: idxRun([]string{"Claim", "Release", "FindFree", "ClaimDynamic", "ClaimDynamic"}, 0)}
	props["C03"] = propRun{what: "random histories with FindFreeRange/ClaimRange against a map", bound: b, run: idxRun([]string{"Claim", "Release", "FindFreeRange", "ClaimRange", "ClaimRange"}, 0)}
	props["C04"] = propRun{what: "random histories with FindFreeSize/ClaimSize against a map", bound: b, run: idxRun([]string{"Claim", "Release", "FindFreeSize", "ClaimSize", "ClaimSize"}, 0)}
	props["C05"] = propRun{what: "all read views after random histories against a map", bound: b, run: idxRun([]string{"Claim", "Release", "Update", "ClaimDynamic", "ClaimRange", "ClaimSize"}, 2)}
}
