package main

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/henderiw/idxtable/pkg/tree"
	"github.com/henderiw/idxtable/pkg/tree/id16"
	"github.com/henderiw/idxtable/pkg/tree/id32"
	"github.com/henderiw/idxtable/pkg/tree/id64"
)

// setBuilder and idSet hide the width of an id set.
type setBuilder interface {
	AddId(tree.ID)
	RemoveId(tree.ID)
	AddRange(tree.Range)
	RemoveRange(tree.Range)
}

type idSet interface {
	Ranges() []tree.Range
	IDs() []tree.ID
}

// lib is the id library of one width.
type lib struct {
	w       uint8
	newID   func(v uint64, l uint8) tree.ID
	isLeft  func(v uint64) bool
	rng     func(a, b uint64) tree.Range
	parse   func(s string) (tree.Range, error)
	rangeOf func(tree.ID) tree.Range
	lastID  func(tree.ID) tree.ID
	builder func() setBuilder
	addSet  func(b setBuilder, s idSet)
	build   func(setBuilder) (idSet, error)
	take    func(idSet, uint8) (tree.ID, idSet, bool)
}

var libs = []*lib{
	{16, func(v uint64, l uint8) tree.ID { return id16.NewID(uint16(v), l) }, id16.IsLeftBitSet,
		func(a, b uint64) tree.Range { return id16.RangeFrom(uint16(a), uint16(b)) }, id16.ParseRange, id16.RangeOfID, id16.LastID,
		func() setBuilder { return &id16.IDSetBuilder{} },
		func(b setBuilder, s idSet) { x, _ := s.(*id16.IDSet); b.(*id16.IDSetBuilder).AddSet(x) },
		func(b setBuilder) (idSet, error) { s, err := b.(*id16.IDSetBuilder).IPSet(); return s, err },
		func(s idSet, l uint8) (tree.ID, idSet, bool) { return wrap3(s.(*id16.IDSet).RemoveFreePrefix(l)) }},
	{32, func(v uint64, l uint8) tree.ID { return id32.NewID(uint32(v), l) }, id32.IsLeftBitSet,
		func(a, b uint64) tree.Range { return id32.RangeFrom(uint32(a), uint32(b)) }, id32.ParseRange, id32.RangeOfID, id32.LastID,
		func() setBuilder { return &id32.IDSetBuilder{} },
		func(b setBuilder, s idSet) { x, _ := s.(*id32.IDSet); b.(*id32.IDSetBuilder).AddSet(x) },
		func(b setBuilder) (idSet, error) { s, err := b.(*id32.IDSetBuilder).IPSet(); return s, err },
		func(s idSet, l uint8) (tree.ID, idSet, bool) { return wrap3(s.(*id32.IDSet).RemoveFreePrefix(l)) }},
	{64, func(v uint64, l uint8) tree.ID { return id64.NewID(v, l) }, id64.IsLeftBitSet,
		func(a, b uint64) tree.Range { return id64.RangeFrom(a, b) }, id64.ParseRange, id64.RangeOfID, id64.LastID,
		func() setBuilder { return &id64.IDSetBuilder{} },
		func(b setBuilder, s idSet) { x, _ := s.(*id64.IDSet); b.(*id64.IDSetBuilder).AddSet(x) },
		func(b setBuilder) (idSet, error) { s, err := b.(*id64.IDSetBuilder).IPSet(); return s, err },
		func(s idSet, l uint8) (tree.ID, idSet, bool) { return wrap3(s.(*id64.IDSet).RemoveFreePrefix(l)) }},
}

func wrap3[S idSet](id tree.ID, s S, ok bool) (tree.ID, idSet, bool) { return id, s, ok }

func (l *lib) max() uint64 { return ^uint64(0) >> (64 - l.w) }

// mask is the mask of the n leading bits of the width.
func (l *lib) mask(n uint8) uint64 {
	if n == 0 {
		return 0
	}
	return l.max() &^ (l.max() >> n)
}

// val draws a value; boundary values and neighbours of seen ones are frequent.
func (l *lib) val(c *ctx, seen ...uint64) uint64 {
	m := l.max()
	switch c.Intn(9) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return (1 << c.Intn(int(l.w))) & m
	case 3:
		return ((1 << c.Intn(int(l.w))) - 1) & m
	case 4:
		return m - uint64(c.Intn(4))
	case 5:
		return uint64(c.Intn(40))
	case 6:
		return l.mask(uint8(c.Intn(int(l.w) + 1)))
	case 7:
		if len(seen) > 0 {
			s := seen[c.Intn(len(seen))]
			if c.Intn(2) == 0 {
				return (s ^ 1<<c.Intn(int(l.w))) & m
			}
			return (s + uint64(c.Intn(5)) - 2) & m
		}
	}
	return c.Uint64() & m
}

func (l *lib) length(c *ctx) uint8 {
	switch c.Intn(6) {
	case 0:
		return 0
	case 1:
		return l.w
	case 2:
		return l.w - 1
	}
	return uint8(c.Intn(int(l.w) + 1))
}

func idStr(i tree.ID) string {
	if i == nil {
		return "nil"
	}
	return fmt.Sprintf("%#x/%d", i.ID(), i.Length())
}

func (c *ctx) idIs(got tree.ID, v uint64, l uint8, what string, a ...interface{}) {
	c.check(got != nil && got.ID() == v && got.Length() == l, "%s = %s, want %#x/%d", fmt.Sprintf(what, a...), idStr(got), v, l)
}

func sign(a, b uint64) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func (l *lib) checkArith(c *ctx, v uint64, n uint8, v2 uint64, n2 uint8, q uint8) {
	m := l.max()
	a, b := l.newID(v, n), l.newID(v2, n2)
	c.idIs(a, v, n, "NewID")
	c.idIs(a.Copy(), v, n, "Copy")
	c.check(a.IsLeftBitSet() == (v>>(l.w-1) == 1), "%s.IsLeftBitSet() = %v", idStr(a), a.IsLeftBitSet())
	c.check(l.isLeft(v) == (v>>(l.w-1) == 1), "IsLeftBitSet(%#x) = %v", v, l.isLeft(v))
	if q <= n {
		c.idIs(a.ShiftLeft(q), v<<q&m, n-q, "%s.ShiftLeft(%d)", idStr(a), q)
	}
	common := uint8(bits.LeadingZeros64((v ^ v2) << (64 - l.w)))
	if v == v2 {
		common = l.w
	}
	c.check(a.Matches(v2) == common, "%s.Matches(%#x) = %d, want %d", idStr(a), v2, a.Matches(v2), common)
	mn := n
	if n2 < mn {
		mn = n2
	}
	over := common >= mn
	c.check(a.Overlaps(b) == over, "%s.Overlaps(%s) = %v", idStr(a), idStr(b), !over)
	cmp := sign(uint64(n), uint64(n2))
	if cmp == 0 {
		cmp = sign(v, v2)
	}
	c.check(a.Compare(b) == cmp, "%s.Compare(%s) = %d, want %d", idStr(a), idStr(b), a.Compare(b), cmp)
	c.check(a.Less(b) == (cmp < 0), "%s.Less(%s) = %v", idStr(a), idStr(b), cmp >= 0)
	if v != m {
		c.idIs(a.Next(), v+1, n, "%s.Next()", idStr(a))
	} else {
		c.idIs(a.Next(), 0, 0, "%s.Next()", idStr(a))
	}
	if v != 0 {
		c.idIs(a.Prev(), v-1, n, "%s.Prev()", idStr(a))
	} else {
		c.idIs(a.Prev(), 0, 0, "%s.Prev()", idStr(a))
	}
	x, err := a.Mask(q)
	c.check(err == nil, "%s.Mask(%d) fails: %v", idStr(a), q, err)
	c.idIs(x, v&l.mask(q), q, "%s.Mask(%d)", idStr(a), q)
	c.idIs(a.Masked(), v&l.mask(n), n, "%s.Masked()", idStr(a))
	_, err = a.Mask(l.w + 1 + q)
	c.check(err != nil, "%s.Mask(%d) succeeds", idStr(a), l.w+1+q)
	c.idIs(a, v, n, "the id itself after these calls")
}

func runC10(c *ctx) {
	for _, l := range libs {
		c.begin(map[string]interface{}{"width": l.w})
		for n := 0; n <= int(l.w); n++ {
			for n2 := 0; n2 <= int(l.w); n2++ {
				c.step("lengths %d %d", n, n2)
				v := l.mask(uint8(n2))
				l.checkArith(c, v, uint8(n), v^(1<<(l.w-1)>>uint8(n2)), uint8(n2), uint8(n2))
				v = c.Uint64() & l.max()
				l.checkArith(c, v, uint8(n), v^(1<<(l.w-1)>>uint8(n2)), uint8(c.Intn(int(l.w)+1)), uint8(n2))
			}
		}
	}
	for c.left() {
		l := libs[c.Intn(3)]
		c.begin(map[string]interface{}{"width": l.w})
		for i := 0; i < 50; i++ {
			v := l.val(c)
			v2 := l.val(c, v)
			n, n2, q := l.length(c), l.length(c), l.length(c)
			if c.Intn(8) == 0 {
				n2 = n
			}
			c.step("ids %#x/%d and %#x/%d, length %d", v, n, v2, n2, q)
			l.checkArith(c, v, n, v2, n2, q)
		}
	}
}

func rgStr(r tree.Range) string {
	if r == nil {
		return "nil"
	}
	return idStr(r.From()) + "-" + idStr(r.To())
}

func (l *lib) rangeIs(c *ctx, r tree.Range, a, b uint64, what string) {
	c.check(r != nil && r.From() != nil && r.To() != nil, "%s is %v", what, r)
	c.check(r.From().ID() == a && r.To().ID() == b && r.From().Length() == l.w && r.To().Length() == l.w, "%s = %s, want %#x-%#x", what, rgStr(r), a, b)
}

func runC11(c *ctx) {
	for c.left() {
		l := libs[c.Intn(3)]
		c.begin(map[string]interface{}{"width": l.w})
		for k := 0; k < 50; k++ {
			v, n := l.val(c), l.length(c)
			c.step("prefix %#x/%d", v, n)
			id := l.newID(v, n)
			lo, hi := v&l.mask(n), v|(l.max()&^l.mask(n))
			r := l.rangeOf(id)
			l.rangeIs(c, r, lo, hi, "RangeOfID")
			c.check(r.IsValid(), "the range of a prefix is invalid")
			c.idIs(l.lastID(id), hi, l.w, "LastID(%s)", idStr(id))
			a1, b1 := l.val(c), l.val(c)
			a2 := l.val(c, a1, b1)
			b2 := l.val(c, a1, b1, a2)
			if c.Intn(4) == 0 {
				a2 = a1
			}
			if c.Intn(4) == 0 {
				b2 = b1
			}
			c.step("ranges %#x-%#x and %#x-%#x", a1, b1, a2, b2)
			r1, r2 := l.rng(a1, b1), l.rng(a2, b2)
			l.rangeIs(c, r1, a1, b1, "RangeFrom")
			c.check(r1.IsValid() == (a1 <= b1), "IsValid() = %v", r1.IsValid())
			l.rangeIs(c, r1.SetTo(l.newID(a2, l.w)), a1, a2, "SetTo")
			l.rangeIs(c, r1.SetFrom(l.newID(a2, l.w)), a2, b1, "SetFrom")
			l.rangeIs(c, r1, a1, b1, "the range itself after SetTo and SetFrom")
			if a1 > b1 || a2 > b2 {
				continue
			}
			less := a1 < a2 || a1 == a2 && b1 > b2
			c.check(r1.Less(r2) == less, "Less = %v", !less)
			c.check(r1.EntirelyBefore(r2) == (b1 < a2), "EntirelyBefore = %v", b1 >= a2)
			c.check(r1.CoveredBy(r2) == (a2 <= a1 && b1 <= b2), "CoveredBy = %v", r1.CoveredBy(r2))
			c.check(r1.InMiddleOf(r2) == (a2 < a1 && b1 < b2), "InMiddleOf = %v", r1.InMiddleOf(r2))
			c.check(r1.OverlapsStartOf(r2) == (a1 <= a2 && b1 < b2), "OverlapsStartOf = %v", r1.OverlapsStartOf(r2))
			c.check(r1.OverlapsEndOf(r2) == (a2 < a1 && b2 <= b1), "OverlapsEndOf = %v", r1.OverlapsEndOf(r2))
		}
	}
}

// checkPrefixes: ids are canonical prefixes that cover a..b, each identifier
// once, in ascending order, and none could be one bit shorter.
func (l *lib) checkPrefixes(c *ctx, ids []tree.ID, a, b uint64) {
	c.check(len(ids) > 0, "no prefixes for %#x-%#x", a, b)
	next := a
	for k, id := range ids {
		c.check(id != nil && id.Length() <= l.w, "prefix %d is %s", k, idStr(id))
		n := id.Length()
		lo, hi := id.ID(), id.ID()|(l.max()&^l.mask(n))
		c.check(lo&^l.mask(n) == 0, "prefix %d %s has bits beyond its length", k, idStr(id))
		c.check(lo == next, "prefix %d is %s, but the next uncovered id is %#x", k, idStr(id), next)
		c.check(hi <= b, "prefix %d %s passes the end of %#x-%#x", k, idStr(id), a, b)
		if n > 0 {
			plo := lo & l.mask(n-1)
			phi := lo | (l.max() &^ l.mask(n-1))
			c.check(plo < a || phi > b, "prefix %d %s could be one bit shorter in %#x-%#x", k, idStr(id), a, b)
		}
		if k == len(ids)-1 {
			c.check(hi == b, "%#x-%#x is covered up to %#x only", a, b, hi)
		} else {
			c.check(hi < b, "prefix %d %s is not the last but reaches the end of %#x-%#x", k, idStr(id), a, b)
		}
		next = hi + 1
	}
}

func runC12(c *ctx) {
	for c.left() {
		l := libs[c.Intn(3)]
		c.begin(map[string]interface{}{"width": l.w})
		for k := 0; k < 40; k++ {
			a := l.val(c)
			b := l.val(c, a)
			if a > b {
				a, b = b, a
			}
			if c.Intn(5) == 0 {
				n := l.length(c)
				a, b = a&l.mask(n), a|(l.max()&^l.mask(n))
			}
			c.step("range %#x-%#x", a, b)
			r := l.rng(a, b)
			l.checkPrefixes(c, r.IDs(), a, b)
			d := []tree.ID{l.newID(7, 3), l.newID(9, 9)}
			got := r.AppendIDs(d)
			c.check(len(got) > 2, "AppendIDs yields %d ids", len(got))
			c.idIs(got[0], 7, 3, "first id handed to AppendIDs")
			c.idIs(got[1], 9, 9, "second id handed to AppendIDs")
			l.checkPrefixes(c, got[2:], a, b)
		}
	}
}

// iv is a set of ids as sorted disjoint non-touching intervals.
type iv [][2]uint64

func (s iv) add(a, b uint64) iv {
	var out iv
	for _, r := range s {
		if r[1] < a && r[1]+1 < a || b < r[0] && b+1 < r[0] {
			out = append(out, r)
			continue
		}
		if r[0] < a {
			a = r[0]
		}
		if r[1] > b {
			b = r[1]
		}
	}
	out = append(out, [2]uint64{a, b})
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func (s iv) remove(a, b uint64) iv {
	var out iv
	for _, r := range s {
		if r[1] < a || b < r[0] {
			out = append(out, r)
			continue
		}
		if r[0] < a {
			out = append(out, [2]uint64{r[0], a - 1})
		}
		if b < r[1] {
			out = append(out, [2]uint64{b + 1, r[1]})
		}
	}
	return out
}

func (s iv) String() string {
	t := ""
	for _, r := range s {
		t += fmt.Sprintf("[%#x-%#x]", r[0], r[1])
	}
	return t
}

func (l *lib) checkSet(c *ctx, s idSet, m iv) {
	rr := s.Ranges()
	txt := ""
	for _, r := range rr {
		txt += "[" + rgStr(r) + "]"
	}
	c.check(len(rr) == len(m), "the set is %s, want %s", txt, m)
	for i, r := range rr {
		c.check(r.IsValid() && r.From().ID() == m[i][0] && r.To().ID() == m[i][1] && r.From().Length() == l.w && r.To().Length() == l.w, "the set is %s, want %s", txt, m)
	}
	// what the caller does with the list must not reach the set
	for i := range rr {
		rr[i] = l.rng(1, 1)
	}
	rr = s.Ranges()
	for i, r := range rr {
		c.check(r.From().ID() == m[i][0] && r.To().ID() == m[i][1], "changing the list of ranges changed the set")
	}
	ids := s.IDs()
	for _, r := range m {
		n := 0
		for n < len(ids) && ids[n].ID() <= r[1] {
			n++
		}
		l.checkPrefixes(c, ids[:n], r[0], r[1])
		ids = ids[n:]
	}
	c.check(len(ids) == 0, "%d prefixes beyond the ranges", len(ids))
}

type namedSet struct {
	s idSet
	m iv
}

// bounds draws the bounds of a range, close to those of m.
func (l *lib) bounds(c *ctx, m iv) (uint64, uint64) {
	var seen []uint64
	for _, r := range m {
		seen = append(seen, r[0], r[1])
	}
	pick := func() uint64 {
		if len(seen) > 0 && c.Intn(2) == 0 {
			return (seen[c.Intn(len(seen))] + uint64(c.Intn(3)) - 1) & l.max()
		}
		if c.Intn(3) > 0 {
			return uint64(c.Intn(64))
		}
		return l.val(c, seen...)
	}
	a, b := pick(), pick()
	if a > b {
		a, b = b, a
	}
	return a, b
}

func (l *lib) ops(c *ctx, b setBuilder, m iv, n int, sets []namedSet) iv {
	for k := 0; k < n; k++ {
		x, y := l.bounds(c, m)
		switch c.Intn(11) {
		case 0, 1, 2:
			c.step("AddRange(%#x-%#x)", x, y)
			b.AddRange(l.rng(x, y))
			m = m.add(x, y)
		case 3, 4, 5:
			c.step("RemoveRange(%#x-%#x)", x, y)
			b.RemoveRange(l.rng(x, y))
			m = m.remove(x, y)
		case 6, 7:
			n := l.length(c)
			c.step("AddId(%#x/%d)", x, n)
			b.AddId(l.newID(x, n))
			m = m.add(x&l.mask(n), x|(l.max()&^l.mask(n)))
		case 8, 9:
			n := l.length(c)
			if n < l.w-6 && c.Intn(3) > 0 {
				n = l.w - uint8(c.Intn(6))
			}
			c.step("RemoveId(%#x/%d)", x, n)
			b.RemoveId(l.newID(x, n))
			m = m.remove(x&l.mask(n), x|(l.max()&^l.mask(n)))
		case 10:
			if len(sets) == 0 {
				continue
			}
			s := sets[c.Intn(len(sets))]
			c.step("AddSet(%s)", s.m)
			l.addSet(b, s.s)
			for _, r := range s.m {
				m = m.add(r[0], r[1])
			}
		}
	}
	return m
}

func runC13(c *ctx) {
	for c.left() {
		l := libs[c.Intn(3)]
		c.begin(map[string]interface{}{"width": l.w})
		var sets []namedSet
		for k := 0; k < 3; k++ {
			b := l.builder()
			var m iv
			bad := false
			for round := 0; round < 3; round++ {
				m = l.ops(c, b, m, 1+c.Intn(8), sets)
				if c.Intn(10) == 0 {
					x, y := l.bounds(c, m)
					if x != y {
						c.step("AddRange(%#x-%#x) and RemoveRange of it, both invalid", y, x)
						b.AddRange(l.rng(y, x))
						b.RemoveRange(l.rng(y, x))
						bad = true
					}
				}
				c.step("IPSet()")
				s, err := l.build(b)
				c.check((err != nil) == bad, "IPSet error %v, invalid range given: %v", err, bad)
				bad = false
				l.checkSet(c, s, m)
				sets = append(sets, namedSet{s, m})
			}
		}
		for _, s := range sets {
			l.checkSet(c, s.s, s.m)
		}
	}
}

func runC14(c *ctx) {
	for c.left() {
		l := libs[c.Intn(3)]
		c.begin(map[string]interface{}{"width": l.w})
		b := l.builder()
		m := l.ops(c, b, nil, 1+c.Intn(10), nil)
		c.step("IPSet()")
		s, _ := l.build(b)
		for k := 0; k < 4; k++ {
			n := l.length(c)
			if c.Intn(2) == 0 {
				n = l.w - uint8(c.Intn(6))
			}
			want := false
			for _, r := range m {
				// first block of length n at or after r[0]
				sz := l.max() &^ l.mask(n)
				lo := r[0]
				if lo&sz != 0 {
					lo |= sz
					if lo == l.max() {
						continue
					}
					lo++
				}
				if lo >= r[0] && lo <= r[1] && r[1]-lo >= sz {
					want = true
				}
			}
			c.step("RemoveFreePrefix(%d) of %s", n, m)
			id, s2, ok := l.take(s, n)
			c.check(ok == want, "RemoveFreePrefix(%d) of %s: ok = %v", n, m, ok)
			l.checkSet(c, s, m)
			if !ok {
				c.check(id == nil, "a failing RemoveFreePrefix returns %s", idStr(id))
				l.checkSet(c, s2, m)
				continue
			}
			c.check(id.Length() == n && id.ID()&^l.mask(n) == 0, "RemoveFreePrefix(%d) returns %s", n, idStr(id))
			lo, hi := id.ID(), id.ID()|(l.max()&^l.mask(n))
			in := false
			for _, r := range m {
				in = in || r[0] <= lo && hi <= r[1]
			}
			c.check(in, "RemoveFreePrefix(%d) of %s returns %s, not inside the set", n, m, idStr(id))
			m = m.remove(lo, hi)
			l.checkSet(c, s2, m)
			s = s2
		}
	}
}

func init() {
	const b = "random and boundary inputs at widths 16, 32 and 64"
	props["C10"] = propRun{what: "every operation on pairs of ids compared with direct bit arithmetic", bound: b + ", plus all pairs of lengths", run: runC10}
	props["C11"] = propRun{what: "bounds of prefixes and relations of pairs of ranges compared with arithmetic on their bounds", bound: b, run: runC11}
	props["C12"] = propRun{what: "prefixes of ranges checked for exact ascending cover", bound: b, run: runC12}
	props["C13"] = propRun{what: "set builder histories compared with an interval-set oracle", bound: b + ", up to 3 builders of 24 operations", run: runC13}
	props["C14"] = propRun{what: "chains of RemoveFreePrefix compared with an interval-set oracle", bound: b + ", sets of up to 10 operations", run: runC14}
}
