package main

// Models of net/netip, go4.org/netipx and math/big, per their documentation.
//
// An address is one 164-bit value: zone number (32), family (4: 0 none,
// 1 IPv4, 2 IPv6), number (128: an IPv4 address is held in its mapped form, as
// netip does). A big.Int is a signed 192-bit number; leaving that range is an
// obligation.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const addrW = 164

func addrNum(a *Term) *Term  { return Extract(a, 127, 0) }
func addrFam(a *Term) *Term  { return Extract(a, 131, 128) }
func addrZone(a *Term) *Term { return Extract(a, 163, 132) }
func mkAddr(fam int64, num *Term) *Term {
	return Concat(NumI(0, 32), Concat(NumI(fam, 4), num))
}

var tMapped = NumI(0xffff, 96)

func addrIs(a *Term, fam int64) *Term { return Eq(addrFam(a), NumI(fam, 4)) }
func addrIs4in6(a *Term) *Term {
	return And(addrIs(a, 2), Eq(Extract(a, 127, 32), tMapped))
}

// addrWF: what every netip.Addr value satisfies.
func addrWF(a *Term) *Term {
	return And(Ule(addrFam(a), NumI(2, 4)),
		Implies(addrIs(a, 0), Eq(a, NumI(0, addrW))),
		Implies(addrIs(a, 1), And(Eq(Extract(a, 127, 32), tMapped), Eq(addrZone(a), NumI(0, 32)))))
}

func addrLess(a, b *Term) *Term { // netip.Addr.Less
	la, lb := addrFam(a), addrFam(b) // ordered as the bit lengths are
	return Or(Ult(la, lb), And(Eq(la, lb), Or(Ult(addrNum(a), addrNum(b)),
		And(Eq(addrNum(a), addrNum(b)), addrIs(a, 2), Ult(addrZone(a), addrZone(b))))))
}

func bytesOf(num *Term) *ArrV {
	n := num.Sort.W / 8
	arr := ConstArr(ArrS(BVS(64), BVS(8)), NumI(0, 8))
	for i := 0; i < n; i++ {
		hi := num.Sort.W - 8*i - 1
		arr = Store(arr, NumI(int64(i), 64), Extract(num, hi, hi-7))
	}
	return &ArrV{Leaves: []*Term{arr}, N: int64(n), Elem: types.Typ[types.Uint8]}
}

func numOf(leaf, off *Term, n int64) *Term {
	var r *Term
	for i := int64(0); i < n; i++ {
		b := Select(leaf, Add(off, NumI(i, 64)))
		if r == nil {
			r = b
		} else {
			r = Concat(r, b)
		}
	}
	return r
}

func (x *Exec) netModel(st *State, pkg, recv, name string, fn *ssa.Function, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	one := func(vs ...Value) ([]Outcome, bool) { return []Outcome{{st, vs}}, true }
	w := x.where(site)
	switch pkg {
	case "net/netip":
		x.trusted["net/netip as documented (addresses as family, 128-bit number, zone)"] = true
		switch recv + "." + name {
		case ".ParseAddr":
			s := args[0].(*Term)
			v := App("parseAddr", BVS(addrW), s)
			ok := App("parseAddrOK", BoolS, s)
			st.assume(addrWF(v), Implies(ok, Not(addrIs(v, 0))))
			x.trusted["netip.ParseAddr: a pure function of the text"] = true
			return one(Ite(ok, v, NumI(0, addrW)), &IfaceV{Nil: ok, Val: Fresh("err", UnS("Err"))})
		case ".AddrFrom4", ".AddrFrom16":
			a, ok := args[0].(*ArrV)
			if !ok {
				undec("%s of %T", name, args[0])
			}
			n := numOf(a.Leaves[0], NumI(0, 64), a.N)
			if a.N == 4 {
				return one(mkAddr(1, Concat(tMapped, n)))
			}
			return one(mkAddr(2, n))
		}
		if recv != "Addr" {
			return nil, false
		}
		a := args[0].(*Term)
		switch name {
		case "Is4":
			return one(addrIs(a, 1))
		case "Is6":
			return one(addrIs(a, 2))
		case "Is4In6":
			return one(addrIs4in6(a))
		case "IsValid":
			return one(Not(addrIs(a, 0)))
		case "BitLen":
			return one(Ite(addrIs(a, 0), NumI(0, 64), Ite(addrIs(a, 1), NumI(32, 64), NumI(128, 64))))
		case "As16":
			return one(bytesOf(addrNum(a)))
		case "As4":
			x.oblige(st, "safe", Or(addrIs(a, 1), addrIs4in6(a)), "As4 of an address that is not IPv4 at "+w)
			return one(bytesOf(Extract(a, 31, 0)))
		case "Unmap":
			return one(Ite(addrIs4in6(a), mkAddr(1, addrNum(a)), a))
		case "Less":
			return one(addrLess(a, args[1].(*Term)))
		case "Compare":
			b := args[1].(*Term)
			return one(Ite(addrLess(a, b), NumI(-1, 64), Ite(addrLess(b, a), NumI(1, 64), NumI(0, 64))))
		case "Next":
			n := Add(addrNum(a), NumI(1, 128))
			last := Or(addrIs(a, 0), And(addrIs(a, 1), Eq(Extract(n, 31, 0), NumI(0, 32))), Eq(n, NumI(0, 128)))
			return one(Ite(last, NumI(0, addrW), Concat(Extract(a, 163, 128), n)))
		case "Prev":
			n := Sub(addrNum(a), NumI(1, 128))
			first := Or(addrIs(a, 0), And(addrIs(a, 1), Eq(Extract(a, 31, 0), NumI(0, 32))), Eq(addrNum(a), NumI(0, 128)))
			return one(Ite(first, NumI(0, addrW), Concat(Extract(a, 163, 128), n)))
		case "String":
			return one(App("addrString", UnS("Str"), a))
		}
	case "go4.org/netipx":
		x.trusted["go4.org/netipx.IPRange as documented"] = true
		nozone := func(a *Term) *Term { return Ite(addrIs(a, 2), Concat(NumI(0, 32), Extract(a, 131, 0)), a) }
		if name == "IPRangeFrom" && recv == "" {
			return one(&StructV{F: []Value{nozone(args[0].(*Term)), nozone(args[1].(*Term))}})
		}
		if recv != "IPRange" {
			return nil, false
		}
		r := args[0].(*StructV)
		f, t := r.F[0].(*Term), r.F[1].(*Term)
		valid := And(Not(addrIs(f, 0)), Eq(addrFam(f), addrFam(t)), Eq(addrZone(f), addrZone(t)), Not(addrLess(t, f)))
		switch name {
		case "From":
			return one(f)
		case "To":
			return one(t)
		case "IsValid", "Valid":
			return one(valid)
		case "Contains":
			a := args[1].(*Term)
			return one(And(valid, Eq(addrZone(a), NumI(0, 32)), Not(addrLess(a, f)), Not(addrLess(t, a))))
		case "String":
			return one(App("rangeString", UnS("Str"), f, t))
		}
	case "github.com/hansthienpondt/nipam/pkg/table":
		if recv == "Route" && name == "Labels" {
			x.trusted["Route.Labels: a pure function of the route"] = true
			return one(App("routeLabels", UnS("Labels"), args[0].(*Term)))
		}
	case "math/big":
		return x.bigModel(st, strings.TrimPrefix(recv, "*"), name, fn, args, w)
	}
	return nil, false
}

func (x *Exec) bigModel(st *State, recv, name string, fn *ssa.Function, args []Value, w string) ([]Outcome, bool) {
	one := func(vs ...Value) ([]Outcome, bool) { return []Outcome{{st, vs}}, true }
	x.trusted["math/big.Int as documented (signed integers; leaving 192 bits is an obligation)"] = true
	const bw = bigW
	if recv == "" && name == "NewInt" {
		id := x.newObj(st, &Obj{Kind: OCell, Typ: fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), Val: SExt(args[0].(*Term), bw), Fresh: true, Name: "big"})
		return one(&PtrV{Nil: False, Obj: id})
	}
	if recv != "Int" {
		return nil, false
	}
	z := x.ptr(args[0])
	x.checkPtr(st, z, "big.Int at "+w)
	get := func(v Value) *Term {
		p := x.ptr(v)
		x.checkPtr(st, p, "big.Int at "+w)
		return x.load(st, p).(*Term)
	}
	set := func(v *Term) ([]Outcome, bool) {
		x.store(st, z, v)
		return one(z)
	}
	zero := NumI(0, bw)
	abs := func(v *Term) *Term { return Ite(Slt(v, zero), BVNeg(v), v) }
	exact := func(r, e *Term) {
		x.oblige(st, "model", Eq(SExt(r, e.Sort.W), e), "big.Int beyond 192 bits at "+w)
	}
	bytesVal := func(v Value) *Term {
		s := v.(*SliceV)
		if !s.Len.IsNum() || s.Len.Val.Int64() > 20 {
			undec("big.Int.SetBytes of unknown length")
		}
		n := s.Len.Val.Int64()
		if n == 0 {
			return zero
		}
		return ZExt(numOf(x.obj(st, s.Obj).Leaves[0], s.Off, n), bw)
	}
	switch name {
	case "Set":
		return set(get(args[1]))
	case "SetUint64":
		return set(ZExt(args[1].(*Term), bw))
	case "SetInt64":
		return set(SExt(args[1].(*Term), bw))
	case "SetBytes":
		return set(bytesVal(args[1]))
	case "Add", "Sub":
		a, b := get(args[1]), get(args[2])
		ea, eb := SExt(a, bw+1), SExt(b, bw+1)
		if name == "Add" {
			exact(Add(a, b), Add(ea, eb))
			return set(Add(a, b))
		}
		exact(Sub(a, b), Sub(ea, eb))
		return set(Sub(a, b))
	case "Neg":
		return set(BVNeg(get(args[1])))
	case "Abs":
		return set(abs(get(args[1])))
	case "Sign":
		v := get(z)
		return one(Ite(Slt(v, zero), NumI(-1, 64), Ite(Eq(v, zero), NumI(0, 64), NumI(1, 64))))
	case "Cmp", "CmpAbs":
		a, b := get(z), get(args[1])
		if name == "CmpAbs" {
			a, b = abs(a), abs(b)
		}
		return one(Ite(Slt(a, b), NumI(-1, 64), Ite(Eq(a, b), NumI(0, 64), NumI(1, 64))))
	case "IsUint64":
		return one(Eq(Extract(get(z), bw-1, 64), NumI(0, bw-64)))
	case "IsInt64":
		v := get(z)
		return one(Eq(v, SExt(Extract(v, 63, 0), bw)))
	case "Uint64":
		return one(Extract(abs(get(z)), 63, 0))
	case "Int64":
		return one(Extract(get(z), 63, 0))
	case "BitLen":
		v := abs(get(z))
		r := NumI(0, 64)
		for i := 0; i < bw; i++ {
			r = Ite(Eq(Extract(v, i, i), NumI(1, 1)), NumI(int64(i+1), 64), r)
		}
		return one(r)
	case "String":
		return one(App("bigString", UnS("Str"), get(z)))
	case "FillBytes":
		s := args[1].(*SliceV)
		if !s.Len.IsNum() || s.Len.Val.Int64() > 20 || s.Len.Val.Int64() == 0 {
			undec("big.Int.FillBytes of unknown length")
		}
		n := s.Len.Val.Int64()
		v := abs(get(z))
		x.oblige(st, "safe", Eq(Extract(v, bw-1, int(8*n)), NumI(0, bw-int(8*n))), "FillBytes: the buffer is too small at "+w)
		o := x.obj(st, s.Obj).clone()
		arr := o.Leaves[0]
		for i := int64(0); i < n; i++ {
			hi := int(8*(n-i)) - 1
			arr = Store(arr, Add(s.Off, NumI(i, 64)), Extract(v, hi, hi-7))
		}
		o.Leaves = []*Term{arr}
		st.heap[s.Obj] = o
		return one(s)
	case "Bytes":
		// the shortest big-endian form: one path per length
		v := abs(get(z))
		var outs []Outcome
		var longer []*Term // v needs more than n-1 bytes
		for n := 0; n <= bw/8; n++ {
			fits := True
			if 8*n < bw {
				fits = Eq(Extract(v, bw-1, 8*n), NumI(0, bw-8*n))
			}
			cs := append(append([]*Term(nil), longer...), fits)
			longer = append(longer, Not(fits))
			if c := And(cs...); c == False || !x.feasible(st, c) {
				continue
			}
			s2 := st.clone()
			for _, c := range cs {
				s2.branch(c)
			}
			r := nilSlice()
			if n > 0 {
				a := bytesOf(Extract(v, 8*n-1, 0))
				id := x.newObj(s2, &Obj{Kind: OBack, Typ: types.Typ[types.Uint8], Leaves: a.Leaves, N: NumI(int64(n), 64), Fresh: true, Name: "bytes"})
				r = &SliceV{Nil: False, Obj: id, Off: NumI(0, 64), Len: NumI(int64(n), 64), Cap: NumI(int64(n), 64)}
			} else {
				r.Nil = False
			}
			outs = append(outs, Outcome{s2, []Value{r}})
		}
		return outs, true
	}
	return nil, false
}
