package main

// Builtins and models of external functions (the trusted base).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, in *ssa.Call) []Outcome {
	one := func(v Value) []Outcome { return []Outcome{{st, []Value{v}}} }
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return one(v.Len)
		case *MapV:
			if v.Obj == 0 {
				return one(NumI(0, 64))
			}
			o := x.obj(st, v.Obj)
			x.guard(st, o, false, o.Name)
			return one(o.Card)
		case *ArrV:
			return one(NumI(v.N, 64))
		case *Term:
			if v.Sort == UnS("Str") {
				return one(App("strlen", BVS(64), v))
			}
		}
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			return one(v.Cap)
		}
	case "append":
		s := args[0].(*SliceV)
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		t, ok := args[1].(*SliceV)
		if !ok {
			undec("append of %T", args[1])
		}
		if t.Obj == 0 {
			return one(x.appendVals(st, elem, s, nil, NumI(0, 64), []Value{}, x.where(in)))
		}
		to := x.obj(st, t.Obj)
		if to.Poison {
			undec("read of an overwritten backing array")
		}
		x.guard(st, to, false, to.Name)
		if t.Len.IsNum() && t.Len.Val.Int64() <= 16 {
			var vs []Value
			for i := int64(0); i < t.Len.Val.Int64(); i++ {
				vs = append(vs, x.sliceGet(st, elem, t, NumI(i, 64)))
			}
			return one(x.appendVals(st, elem, s, nil, t.Len, vs, x.where(in)))
		}
		src := func(i *Term) []*Term {
			var out []*Term
			for _, l := range to.Leaves {
				out = append(out, Select(l, Add(t.Off, i)))
			}
			return out
		}
		return one(x.appendVals(st, elem, s, src, t.Len, nil, x.where(in)))
	case "copy":
		d := args[0].(*SliceV)
		s, ok := args[1].(*SliceV)
		if !ok {
			undec("copy from %T", args[1])
		}
		n := Ite(Slt(d.Len, s.Len), d.Len, s.Len)
		if d.Obj != 0 && s.Obj != 0 {
			do, so := x.obj(st, d.Obj), x.obj(st, s.Obj)
			x.guard(st, do, true, do.Name)
			x.guard(st, so, false, so.Name)
			if do.Frozen || so.Poison {
				undec("copy on shared backing arrays")
			}
			c := do.clone()
			c.Leaves = append([]*Term(nil), do.Leaves...)
			for i := range c.Leaves {
				if n.IsNum() && n.Val.Int64() <= 32 {
					for j := int64(0); j < n.Val.Int64(); j++ {
						c.Leaves[i] = Store(c.Leaves[i], Add(d.Off, NumI(j, 64)), Select(so.Leaves[i], Add(s.Off, NumI(j, 64))))
					}
					continue
				}
				na := Fresh("copy", c.Leaves[i].Sort)
				k := FreshBound("k", BVS(64))
				rel := Sub(k, d.Off)
				st.assume(Forall([]*Term{k}, Eq(Select(na, k), Ite(Ult(rel, n), Select(so.Leaves[i], Add(s.Off, rel)), Select(do.Leaves[i], k))), []*Term{Select(na, k)}))
				c.Leaves[i] = na
			}
			st.heap[d.Obj] = c
			x.poisonShared(st, do)
		}
		return one(n)
	case "delete":
		m := args[0].(*MapV)
		x.mapDel(st, m, x.mapKey(args[1], cc.Args[1].Type()))
		return []Outcome{{st, nil}}
	case "min", "max":
		v := args[0]
		t := cc.Args[0].Type()
		_, signed, _ := bvWidth(t)
		for _, a := range args[1:] {
			var lt *Term
			if signed {
				lt = Slt(a.(*Term), v.(*Term))
			} else {
				lt = Ult(a.(*Term), v.(*Term))
			}
			if b.Name() == "min" {
				v = Ite(lt, a.(*Term), v.(*Term))
			} else {
				v = Ite(lt, v.(*Term), a.(*Term))
			}
		}
		return one(v)
	case "print", "println":
		return []Outcome{{st, nil}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "clear":
		if m, ok := args[0].(*MapV); ok && m.Obj != 0 {
			o := x.obj(st, m.Obj)
			x.guard(st, o, true, o.Name)
			c := o.clone()
			c.Pres = ConstArr(o.Pres.Sort, False)
			c.Card = NumI(0, 64)
			st.heap[m.Obj] = c
			return []Outcome{{st, nil}}
		}
	}
	undec("builtin %s", b.Name())
	return nil
}

func freshErr() Value {
	return &IfaceV{Nil: False, Val: Fresh("err", UnS("Err"))}
}

// extern models functions outside the repository.
func (x *Exec) extern(st *State, key string, fn *ssa.Function, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	one := func(vs ...Value) ([]Outcome, bool) { return []Outcome{{st, vs}}, true }
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, strings.TrimSuffix(modPath, "/")) || pkg == "" {
		return nil, false
	}
	name := fn.Name()
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		recv = types.TypeString(r.Type(), func(*types.Package) string { return "" })
	}
	switch pkg {
	case "sync":
		p, ok := args[0].(*PtrV)
		if !ok {
			undec("mutex receiver %T", args[0])
		}
		x.checkPtr(st, p, "mutex")
		o := st.heap[p.Obj]
		if o == nil || o.Kind != OLock || len(p.Path) != 0 {
			undec("mutex is not a separate object")
		}
		x.trusted["sync.RWMutex: mutual exclusion per its documentation"] = true
		n := o.clone()
		w := x.where(site)
		switch name {
		case "Lock":
			x.oblige(st, "lock", Bool(o.Mode == 0), "Lock at "+w+" while this goroutine already holds the lock (self-deadlock)")
			n.Mode = 2
			st.crit++
		case "RLock":
			x.oblige(st, "lock", Bool(o.Mode == 0), "RLock at "+w+" while this goroutine already holds the lock (deadlock with a waiting writer)")
			n.Mode = 1
			st.crit++
		case "Unlock":
			x.oblige(st, "lock", Bool(o.Mode == 2), "Unlock at "+w+" without holding the write lock")
			n.Mode = 0
		case "RUnlock":
			x.oblige(st, "lock", Bool(o.Mode == 1), "RUnlock at "+w+" without holding the read lock")
			n.Mode = 0
		default:
			undec("sync %s", name)
		}
		st.heap[p.Obj] = n
		return one()
	case "fmt":
		switch name {
		case "Errorf":
			x.trusted["fmt.Errorf returns a non-nil error and has no side effects"] = true
			return one(freshErr())
		case "Sprintf", "Sprint", "Sprintln":
			return one(Fresh("sprintf", UnS("Str")))
		case "Println", "Printf", "Print":
			return one(NumI(0, 64), x.zero(fn.Signature.Results().At(1).Type()))
		}
	case "errors":
		switch name {
		case "New":
			return one(freshErr())
		case "Join":
			x.trusted["errors.Join is nil exactly when all its arguments are nil"] = true
			s := args[0].(*SliceV)
			nilAll := True
			if s.Obj != 0 {
				if !s.Len.IsNum() || s.Len.Val.Int64() > 8 {
					undec("errors.Join of unknown length")
				}
				et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := int64(0); i < s.Len.Val.Int64(); i++ {
					nilAll = And(nilAll, x.sliceGet(st, et, s, NumI(i, 64)).(*IfaceV).Nil)
				}
			}
			return one(&IfaceV{Nil: nilAll, Val: Fresh("err", UnS("Err"))})
		}
	case "math/bits":
		return x.bitsModel(st, name, args)
	case "sort":
		if name == "Slice" || name == "SliceStable" {
			a := args[0].(*IfaceV)
			_ = a
			return x.sortSlice(st, args, site)
		}
	case "k8s.io/apimachinery/pkg/labels":
		if strings.HasSuffix(recv, "Set") && name == "String" {
			x.trusted["labels.Set.String: pure function of the labels"] = true
			return one(App("labelsString", UnS("Str"), args[0].(*Term)))
		}
	case "strings":
		if name == "IndexByte" {
			x.trusted["strings.IndexByte returns -1 or an index below len(s)"] = true
			r := App("indexByte", BVS(64), args[0].(*Term), ZExt(args[1].(*Term), 64))
			l := App("strlen", BVS(64), args[0].(*Term))
			st.assume(Or(Eq(r, NumI(-1, 64)), Ult(r, l)), Ule(l, maxLen))
			return one(r)
		}
		if name == "Index" || name == "Cut" {
			undec("strings.%s", name)
		}
	case "strconv":
		if name == "ParseUint" {
			x.trusted["strconv.ParseUint(s, base, bits): pure; on success the value fits in bits"] = true
			ts := []*Term{args[0].(*Term), args[1].(*Term), args[2].(*Term)}
			v := App("parseUint", BVS(64), ts...)
			e := App("parseUintOK", BoolS, ts...)
			bs := args[2].(*Term)
			if bs.IsNum() && bs.Val.Int64() > 0 && bs.Val.Int64() < 64 {
				st.assume(Implies(e, Ult(v, NumI(1<<uint(bs.Val.Int64()), 64))))
			}
			return one(Ite(e, v, Fresh("parsefail", BVS(64))), &IfaceV{Nil: e, Val: Fresh("err", UnS("Err"))})
		}
	case "net/netip", "math/big", "go4.org/netipx", "github.com/hansthienpondt/nipam/pkg/table":
		if out, ok := x.netModel(st, pkg, recv, name, fn, args, site); ok {
			return out, true
		}
	case "maps":
		if strings.HasPrefix(name, "Clone") || strings.HasPrefix(name, "Copy") {
			return x.mapsModel(st, name, args)
		}
	}
	if fn.Parent() == nil && pkg != "" {
		undec("no model for external function %s.%s%s", pkg, recv, name)
	}
	return nil, false
}

func (x *Exec) mapsModel(st *State, name string, args []Value) ([]Outcome, bool) {
	if strings.HasPrefix(name, "Clone") {
		m := args[0].(*MapV)
		if m.Obj == 0 {
			return []Outcome{{st, []Value{m}}}, true
		}
		o := x.obj(st, m.Obj)
		x.guard(st, o, false, o.Name)
		n := o.clone()
		n.Fresh, n.Guard, n.Name = true, 0, "clone"
		return []Outcome{{st, []Value{&MapV{Nil: m.Nil, Obj: x.newObj(st, n)}}}}, true
	}
	undec("maps.%s", name)
	return nil, false
}

// clz builds leading-zero count of t as a w-bit term.
func clz(t *Term, outW int) *Term {
	w := t.Sort.W
	r := NumI(int64(w), outW)
	for i := 0; i < w; i++ { // i-th bit from the bottom: later (higher) bits take precedence
		r = Ite(Eq(Extract(t, i, i), NumI(1, 1)), NumI(int64(w-1-i), outW), r)
	}
	return r
}

func ctz(t *Term, outW int) *Term {
	w := t.Sort.W
	r := NumI(int64(w), outW)
	for i := w - 1; i >= 0; i-- {
		r = Ite(Eq(Extract(t, i, i), NumI(1, 1)), NumI(int64(i), outW), r)
	}
	return r
}

func (x *Exec) bitsModel(st *State, name string, args []Value) ([]Outcome, bool) {
	one := func(vs ...Value) ([]Outcome, bool) { return []Outcome{{st, vs}}, true }
	w := 64
	for _, s := range []int{8, 16, 32, 64} {
		if strings.HasSuffix(name, fmt.Sprint(s)) {
			w = s
		}
	}
	t := func(i int) *Term { return args[i].(*Term) }
	x.trusted["math/bits: "+name+" per its documentation"] = true
	switch strings.TrimRight(name, "0123456789") {
	case "LeadingZeros":
		return one(x.clzTerm(st, t(0)))
	case "TrailingZeros":
		return one(ctz(t(0), 64))
	case "Len":
		return one(Sub(NumI(int64(w), 64), x.clzTerm(st, t(0))))
	case "Add":
		s := BVBin("bvadd", BVBin("bvadd", ZExt(t(0), w+1), ZExt(t(1), w+1)), ZExt(t(2), w+1))
		return one(Extract(s, w-1, 0), ZExt(Extract(s, w, w), w))
	case "Sub":
		s := BVBin("bvsub", BVBin("bvsub", ZExt(t(0), w+1), ZExt(t(1), w+1)), ZExt(t(2), w+1))
		return one(Extract(s, w-1, 0), ZExt(Extract(s, w, w), w))
	case "OnesCount":
		r := NumI(0, 64)
		for i := 0; i < w; i++ {
			r = Add(r, ZExt(Extract(t(0), i, i), 64))
		}
		return one(r)
	}
	undec("math/bits.%s", name)
	return nil, false
}

// clzTerm returns the leading-zero count of t as an int (64 bit). It is kept
// as a defined symbol: f = clz(t), with its characterisation as facts.
func (x *Exec) clzTerm(st *State, t *Term) *Term {
	if t.IsNum() {
		return NumI(int64(t.Sort.W-t.Val.BitLen()), 64)
	}
	return ZExt(App(fmt.Sprintf("clz%d", t.Sort.W), BVS(8), t), 64)
}

// clzDef returns the defining facts of clz applications occurring in ts.
func clzAxiom(app *Term) *Term {
	t := app.Args[0]
	w := t.Sort.W
	n := ZExt(app, w)
	ones := NumI(-1, w)
	// n <= w; the top n bits are 0; bit w-1-n is 1 when n < w
	top := BVBin("bvand", t, BVNot(BVBin("bvlshr", ones, n)))
	var nw *Term
	nw = n
	next := BVBin("bvand", t, BVBin("bvlshr", NumI(1, w), NumI(0, w)))
	_ = next
	bit := BVBin("bvand", t, BVBin("bvlshr", BVBin("bvshl", NumI(1, w), NumI(int64(w-1), w)), nw))
	return And(Ule(app, NumI(int64(w), 8)), Eq(top, NumI(0, w)),
		Eq(Eq(app, NumI(int64(w), 8)), Eq(t, NumI(0, w))),
		Implies(Ult(app, NumI(int64(w), 8)), Not(Eq(bit, NumI(0, w)))))
}

// sortSlice models sort.Slice(s, less).
func (x *Exec) sortSlice(st *State, args []Value, site ssa.Instruction) ([]Outcome, bool) {
	iv := args[0].(*IfaceV)
	sl, ok := iv.Val.(*SliceV)
	if !ok {
		undec("sort.Slice of %T", iv.Val)
	}
	less := args[1].(*FuncV)
	x.trusted["sort.Slice permutes its argument into an order with no inversion of less (strict weak order proved)"] = true
	if sl.Obj == 0 {
		return []Outcome{{st, nil}}, true
	}
	o := x.obj(st, sl.Obj)
	if o.Frozen {
		undec("sort of a shared backing array")
	}
	x.guard(st, o, true, o.Name)
	n := o.clone()
	if x.alreadySorted(st, sl, o, less) {
		x.trusted["sort.Slice leaves a sequence alone that is already strictly ascending under less"] = true
		return []Outcome{{st, nil}}, true
	}
	perm := Fresh("perm", ArrS(BVS(64), BVS(64)))
	pinv := Fresh("pinv", ArrS(BVS(64), BVS(64)))
	n.Leaves = nil
	i := FreshBound("i", BVS(64))
	rel := Sub(i, sl.Off)
	inr := Ult(rel, sl.Len)
	var pats []*Term
	var eqs []*Term
	for _, l := range o.Leaves {
		na := Fresh("sorted", l.Sort)
		n.Leaves = append(n.Leaves, na)
		src := Add(sl.Off, Select(perm, rel))
		eqs = append(eqs, Eq(Select(na, i), Ite(inr, Select(l, src), Select(l, i))))
		pats = append(pats, Select(na, i))
	}
	j := FreshBound("j", BVS(64))
	for k := range eqs {
		st.assume(Forall([]*Term{i}, eqs[k], []*Term{pats[k]}))
	}
	st.assume(Forall([]*Term{j}, Implies(Ult(j, sl.Len), And(Ult(Select(perm, j), sl.Len), Eq(Select(pinv, Select(perm, j)), j))), []*Term{Select(perm, j)}))
	// inverse direction, triggered on reads of the old arrays
	backPats := [][]*Term{{Select(pinv, j)}}
	var back []*Term
	for k, l := range o.Leaves {
		if l.Op != "constarr" {
			// i is the absolute position in the old array
			backPats = append(backPats, []*Term{Select(l, j)})
		}
		back = append(back, Eq(Select(n.Leaves[k], Add(sl.Off, Select(pinv, Sub(j, sl.Off)))), Select(l, j)))
	}
	// every old element is found again at pinv
	jr := Sub(j, sl.Off)
	st.assume(Forall([]*Term{j}, Implies(Ult(jr, sl.Len), And(append(back, Ult(Select(pinv, jr), sl.Len), Eq(Select(perm, Select(pinv, jr)), jr))...)), backPats[1:]...))
	st.assume(Forall([]*Term{j}, Implies(Ult(j, sl.Len), And(Ult(Select(pinv, j), sl.Len), Eq(Select(perm, Select(pinv, j)), j))), []*Term{Select(pinv, j)}))
	st2 := st
	st2.heap[sl.Obj] = n
	x.poisonShared(st2, o)
	// less evaluated on the sorted contents
	callLess := func(a, b *Term) *Term {
		t := x.pureCall(st2, less, []Value{a, b})
		return t.(*Term)
	}
	// obligations: strict weak order over in-range elements
	if x.mute == 0 {
		ci, cj, ck := Fresh("si", BVS(64)), Fresh("sj", BVS(64)), Fresh("sk", BVS(64))
		s3 := st2.clone()
		s3.assume(Ult(ci, sl.Len), Ult(cj, sl.Len), Ult(ck, sl.Len))
		x.oblige(s3, "sort", Not(callLess(ci, ci)), "sort order is irreflexive at "+x.where(site))
		x.oblige(s3, "sort", Implies(And(callLess(ci, cj), callLess(cj, ck)), callLess(ci, ck)), "sort order is transitive at "+x.where(site))
		inc := func(a, b *Term) *Term { return And(Not(callLess(a, b)), Not(callLess(b, a))) }
		x.oblige(s3, "sort", Implies(And(inc(ci, cj), inc(cj, ck)), inc(ci, ck)), "incomparability is transitive at "+x.where(site))
	}
	a, b := FreshBound("a", BVS(64)), FreshBound("b", BVS(64))
	la := Select(n.Leaves[0], Add(sl.Off, a))
	lb := Select(n.Leaves[0], Add(sl.Off, b))
	for k, lf := range x.c.leaves(o.Typ) {
		if lf.Sort.K == SBV && lf.Sort.W >= 16 {
			la = Select(n.Leaves[k], Add(sl.Off, a))
			lb = Select(n.Leaves[k], Add(sl.Off, b))
			break
		}
	}
	st2.assume(Forall([]*Term{a, b}, Implies(And(Ult(a, b), Ult(b, sl.Len)), Not(callLess(b, a))), []*Term{la, lb}))
	x.lastPerm = append(x.lastPerm, [2]*Term{perm, pinv})
	return []Outcome{{st2, nil}}, true
}

// alreadySorted: the path condition proves less(s[a],s[b]) for all a < b.
func (x *Exec) alreadySorted(st *State, sl *SliceV, o *Obj, less *FuncV) bool {
	if x.specM > 0 {
		return false
	}
	a, b := Fresh("sa", BVS(64)), Fresh("sb", BVS(64))
	g := x.pureCall(st, less, []Value{a, b}).(*Term)
	ob := &Oblig{Assume: append(st.terms(), Ult(a, b), Ult(b, sl.Len)), Goal: g}
	qs := ob.queries()
	return x.sol.proveQs(qs, x.invSecs).Status == "unsat"
}

// pureCall evaluates a function value without side effects, merging all
// outcomes into one value.
func (x *Exec) pureCall(st *State, f *FuncV, args []Value) Value {
	if f.Fn == nil {
		r := x.opaqueCall(f.Name, f.Sig, args)
		return tupleOf(r)
	}
	s := st.clone()
	base := len(s.pc)
	x.specM++
	x.mute++
	saved := x.stack
	x.stack = nil
	outs := x.inline(s, f.Fn, append(append([]Value(nil), args...), f.Binds...), nil)
	x.stack = saved
	x.mute--
	x.specM--
	if len(outs) == 0 {
		undec("pure call has no outcome")
	}
	if len(outs) > 1 {
		outs = x.mergeOutcomes(st, base, outs)
	}
	if len(outs) != 1 {
		undec("pure call does not merge")
	}
	return tupleOf(outs[0].res)
}
