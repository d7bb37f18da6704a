package main

// Path-based symbolic execution over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PCItem struct {
	T      *Term
	Branch bool
}

type State struct {
	heap map[int]*Obj
	pc   []PCItem
	crit int // critical sections entered
	dead bool
}

func (s *State) clone() *State {
	h := make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, pc: append([]PCItem(nil), s.pc...), crit: s.crit}
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True {
			continue
		}
		s.pc = append(s.pc, PCItem{t, false})
	}
}
func (s *State) branch(t *Term) {
	if t == True {
		return
	}
	s.pc = append(s.pc, PCItem{t, true})
}
func (s *State) terms() []*Term {
	var out []*Term
	for _, p := range s.pc {
		out = append(out, p.T)
	}
	return out
}

type Oblig struct {
	Label  string // fn#label
	Kind   string
	Goal   *Term
	Assume []*Term
	Pos    string
	Msg    string // for undecided
	Status string // proved, failed, unknown
	Solver string
	Ms     int64
	Model  string
}

type deferred struct {
	call *ssa.CallCommon
	args []Value
	fn   Value
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	loop   *loopRun // innermost boundary when running a loop body
	inLoop map[*ssa.BasicBlock]bool
}

func (f *Frame) clone() *Frame {
	e := make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		e[k] = v
	}
	return &Frame{fn: f.fn, env: e, defers: append([]deferred(nil), f.defers...), loop: f.loop, inLoop: f.inLoop}
}

type Outcome struct {
	st  *State
	res []Value
}

type Exec struct {
	maskTab      map[*Term]int
	c            *Ctx
	sol          *Solver
	specs        *SpecSet
	root         *Contract
	rootSt       *State // entry state
	rootEnv      map[string]SV
	objSeq       int
	obls         []*Oblig
	mute         int // >0: do not record obligations (discovery, spec evaluation)
	specM        int // >0: pure evaluation inside a specification
	depth        int
	stack        []*ssa.Function
	used         map[string]bool // contracts used
	inlined      map[string]bool
	trusted      map[string]bool // extern models used
	noContract   map[*ssa.Function]bool
	globals      map[*ssa.Global]int
	paths        int
	loops        int
	hou          int
	recFn        *ssa.Function
	phiShape     map[*ssa.Phi]Value
	invSecs      float64
	assuming     bool // evaluating an assumption
	visited      map[*ssa.BasicBlock]bool
	someMemo     map[string]*Term
	locks        bool // only lock obligations are generated
	noCands      bool // loops without candidate invariants
	light        bool // candidate invariants get a short search
	discover     int
	concreteMode bool
	lastPerm     [][2]*Term
}

func (x *Exec) newObj(st *State, o *Obj) int {
	x.objSeq++
	st.heap[x.objSeq] = o
	return x.objSeq
}

func (x *Exec) fail(st *State, kind, msg string) {
	x.oblige(st, kind, False, msg)
}

// oblige records goal under the current path and assumes it afterwards.
// lockLabel are the obligations of the lock discipline.
var lockLabel = map[string]bool{"lock": true, "lf": true, "lockfree": true, "atomic": true}

func (x *Exec) oblige(st *State, label string, goal *Term, msg string) {
	if goal == True {
		if x.mute == 0 {
			x.obls = append(x.obls, &Oblig{Label: label, Goal: True, Status: "proved", Solver: "simplifier", Msg: msg})
		}
		return
	}
	if x.mute == 0 && !(x.locks && !lockLabel[label]) {
		x.obls = append(x.obls, &Oblig{Label: label, Goal: goal, Assume: st.terms(), Msg: msg})
	}
	if x.specM == 0 {
		st.assume(goal)
	}
}

func (x *Exec) where(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := x.c.prog.Fset.Position(in.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// feasible: false only when the quantifier-free path condition plus cond is
// refuted.
func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond == False {
		return false
	}
	if cond == True {
		return true
	}
	var as []*Term
	for _, p := range st.pc {
		if p.T == cond {
			return true
		}
		if p.T == Not(cond) {
			return false
		}
		if !p.T.quant {
			as = append(as, p.T)
		}
	}
	if cond.free {
		return true
	}
	if !cond.quant {
		as = append(as, cond)
	}
	return x.sol.quick(as) != "unsat"
}

// ---- value access ----

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{Nil: False, Fn: v, Sig: v.Signature}
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Builtin:
		return &FuncV{Nil: False, Name: "builtin " + v.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		undec("value %s of %s not available", v.Name(), fr.fn)
	}
	return r
}

func strConst(s string) *Term {
	if s == "" {
		return zeroTerm(UnS("Str"))
	}
	return Const(fmt.Sprintf("str_%x", s), UnS("Str"))
}

func (x *Exec) constVal(v *ssa.Const) Value {
	if v.Value == nil {
		return x.zero(v.Type())
	}
	if w, _, ok := bvWidth(v.Type()); ok {
		return Num(constInt(v.Value), w)
	}
	if v.Value.Kind() == constant.Bool {
		return Bool(constant.BoolVal(v.Value))
	}
	if v.Value.Kind() == constant.String {
		return strConst(constant.StringVal(v.Value))
	}
	undec("constant %v", v)
	return nil
}

func constInt(c constant.Value) *big.Int {
	c = constant.ToInt(c)
	b := new(big.Int)
	b.SetString(c.ExactString(), 10)
	return b
}

// fresh builds a fully symbolic value of a type; pointers get fresh objects.
func (x *Exec) fresh(st *State, base string, t types.Type) Value {
	c := x.c
	t = types.Unalias(t)
	if s := c.opaqueSort(t); s != nil {
		if isIface(t) {
			return &IfaceV{Nil: Fresh(base+".nil", BoolS), Val: Fresh(base, s)}
		}
		v := Fresh(base, s)
		if s.K == SBV && s.W == addrW {
			st.assume(addrWF(v))
		}
		return v
	}
	if d := c.closedDyn(t); d != nil {
		if isPtrType(d) {
			return &IfaceV{Nil: False, Val: x.fresh(st, base, d)}
		}
		i := &IfaceV{Nil: Fresh(base+".nil", BoolS), Val: x.fresh(st, base, d)}
		if hasPtrVariant(t) {
			i.Ptr = Fresh(base+".ptr", BoolS)
		}
		return i
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := bvWidth(t); ok {
			return Fresh(base, BVS(w))
		}
		if isBool(t) {
			return Fresh(base, BoolS)
		}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.fresh(st, base+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{N: u.Len(), Elem: u.Elem()}
		for _, l := range c.leaves(u.Elem()) {
			a.Leaves = append(a.Leaves, Fresh(base+"."+l.Name, ArrS(BVS(64), l.Sort)))
		}
		return a
	case *types.Pointer:
		return &PtrV{Nil: False, Obj: x.freshCell(st, base, u.Elem())}
	case *types.Slice:
		return x.freshSlice(st, base, u.Elem())
	case *types.Map:
		return &MapV{Nil: False, Obj: x.freshMap(st, base, u)}
	case *types.Signature:
		return &FuncV{Nil: Fresh(base+".nil", BoolS), Name: "fn_" + sanitize(base), Sig: u}
	case *types.Interface:
		return &IfaceV{Nil: Fresh(base+".nil", BoolS), Val: Fresh(base, UnS("Any"))}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.fresh(st, fmt.Sprintf("%s.%d", base, i), u.At(i).Type()))
		}
		return tv
	}
	undec("fresh value of %v", t)
	return nil
}

func isMutex(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "RWMutex" || n.Obj().Name() == "Mutex")
}

func (x *Exec) freshCell(st *State, base string, t types.Type) int {
	if isMutex(t) {
		return x.newObj(st, &Obj{Kind: OLock, Typ: t, Name: base})
	}
	x.objSeq++
	id := x.objSeq
	o := &Obj{Kind: OCell, Typ: t, Name: base}
	o.Val = x.fresh(st, base, t)
	st.heap[id] = o
	return id
}

var maxLen = NumI(1<<48, 64)

func (x *Exec) freshSlice(st *State, base string, elem types.Type) *SliceV {
	o := &Obj{Kind: OBack, Typ: elem, Name: base}
	for _, l := range x.c.leaves(elem) {
		o.Leaves = append(o.Leaves, Fresh(base+"."+l.Name, ArrS(BVS(64), l.Sort)))
	}
	l := Fresh(base+".len", BVS(64))
	cp := Fresh(base+".cap", BVS(64))
	nl := Fresh(base+".nil", BoolS)
	o.N = cp
	id := x.newObj(st, o)
	st.assume(Ule(l, cp), Ule(cp, maxLen), Implies(nl, Eq(cp, NumI(0, 64))))
	return &SliceV{Nil: nl, Obj: id, Off: NumI(0, 64), Len: l, Cap: cp}
}

func (x *Exec) freshMap(st *State, base string, m *types.Map) int {
	ks := x.keySort(m.Key())
	o := &Obj{Kind: OMap, Typ: m, Name: base}
	o.Pres = Fresh(base+".has", ArrS(ks, BoolS))
	for _, l := range x.c.leaves(m.Elem()) {
		o.Leaves = append(o.Leaves, Fresh(base+"."+l.Name, ArrS(ks, l.Sort)))
	}
	o.Card = Fresh(base+".card", BVS(64))
	st.assume(Ule(o.Card, maxLen))
	return x.newObj(st, o)
}

func (x *Exec) keySort(t types.Type) *Sort {
	ls := x.c.leaves(t)
	if len(ls) != 1 {
		undec("map key type %v", t)
	}
	return ls[0].Sort
}

// ---- memory ----

func (x *Exec) obj(st *State, id int) *Obj {
	o := st.heap[id]
	if o == nil {
		undec("object %d missing", id)
	}
	return o
}

func (x *Exec) checkPtr(st *State, p *PtrV, what string) bool {
	if p.Nil != False {
		x.oblige(st, "safe", Not(p.Nil), "nil dereference: "+what)
		if p.Obj == 0 {
			st.dead = true
			return false
		}
	}
	return true
}

// guard: ghost lock discipline.
func (x *Exec) guard(st *State, o *Obj, write bool, what string) {
	if o.Guard == 0 || x.specM > 0 {
		return
	}
	l := st.heap[o.Guard]
	if l == nil {
		return
	}
	if write {
		x.oblige(st, "lock", Bool(l.Mode == 2), "unlocked write of "+what)
	} else {
		x.oblige(st, "lock", Bool(l.Mode >= 1), "unlocked read of "+what)
	}
}

func (x *Exec) fieldGuard(st *State, p *PtrV, o *Obj, write bool) {
	if o.Kind == OCell && len(p.Path) > 0 && p.Path[0].Idx == nil {
		if n := namedOf(o.Typ); n != nil && x.specM == 0 {
			sname := n.Obj().Name()
			fn := o.Typ.Underlying().(*types.Struct).Field(p.Path[0].Field).Name()
			if x.specs.guardedField(sname, fn) && !o.Fresh {
				x.lockCheck(st, o, sname+"."+fn, write)
			}
		}
	}
}

// lockCheck finds the mutex field of cell o.
func (x *Exec) lockCheck(st *State, o *Obj, what string, write bool) {
	sv, ok := o.Val.(*StructV)
	if !ok {
		return
	}
	for _, f := range sv.F {
		if p, ok := f.(*PtrV); ok && p.Obj != 0 {
			if l := st.heap[p.Obj]; l != nil && l.Kind == OLock {
				need := 1
				if write {
					need = 2
				}
				x.oblige(st, "lock", Bool(l.Mode >= need), map[bool]string{true: "unlocked write of ", false: "unlocked read of "}[write]+what)
				return
			}
		}
	}
	x.oblige(st, "lock", False, "no mutex guards "+what+", which is written after construction")
}

func (x *Exec) load(st *State, p *PtrV) Value {
	if !x.checkPtr(st, p, "load") {
		return nil
	}
	o := x.obj(st, p.Obj)
	if o.Poison {
		undec("read of a backing array that an append may have overwritten")
	}
	x.guard(st, o, false, o.Name)
	x.fieldGuard(st, p, o, false)
	switch o.Kind {
	case OCell:
		return x.navLoad(st, o.Typ, o.Val, p.Path)
	case OBack:
		if len(p.Path) == 0 && constN(o.N) > 0 { // an array that was sliced
			return &ArrV{Leaves: append([]*Term(nil), o.Leaves...), N: constN(o.N), Elem: o.Typ}
		}
		if len(p.Path) == 0 || p.Path[0].Idx == nil {
			undec("pointer to a whole backing array")
		}
		return x.backLoadN(o.Typ, o.Leaves, p.Path[0].Idx, p.Path[1:], constN(o.N))
	case OLock:
		undec("mutex copied")
	}
	undec("load from object kind %d", o.Kind)
	return nil
}

// backLoad reads element idx then follows path.
func (x *Exec) backLoad(elem types.Type, leaves []*Term, idx *Term, path []PE) Value {
	return x.backLoadN(elem, leaves, idx, path, -1)
}

// backLoadN: n is the number of elements when it is a known constant.
func (x *Exec) backLoadN(elem types.Type, leaves []*Term, idx *Term, path []PE, size int64) Value {
	t, lo, n := x.subLeaves(elem, path)
	var ls []*Term
	for i := lo; i < lo+n; i++ {
		ls = append(ls, x.tableSelect(leaves[i], idx, size))
	}
	return x.c.unflat(t, ls)
}

// tableSelect reads a constant table. When the first 256 entries that the
// table stores are the left masks of its width (checked value by value), the
// symbolic read is replaced by the closed form inside the stored range.
func (x *Exec) tableSelect(a, idx *Term, size int64) *Term {
	if a.Op != "store" || idx.IsNum() || a.Sort.Elem.K != SBV {
		return Select(a, idx)
	}
	if f, ok := x.maskTab[a]; ok {
		if f < 0 {
			return Select(a, idx)
		}
		return maskRead(a, idx, f, size)
	}
	if x.maskTab == nil {
		x.maskTab = map[*Term]int{}
	}
	x.maskTab[a] = -1
	w := a.Sort.Elem.W
	vals := map[int64]*Term{}
	t := a
	for ; t.Op == "store"; t = t.Args[0] {
		if !t.Args[1].IsNum() || !t.Args[2].IsNum() {
			return Select(a, idx)
		}
		k := t.Args[1].Val.Int64()
		if _, ok := vals[k]; !ok {
			vals[k] = t.Args[2]
		}
	}
	if t.Op != "constarr" || len(vals) < w {
		return Select(a, idx)
	}
	ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	for i := 0; i <= w; i++ {
		m := new(big.Int).Xor(ones, new(big.Int).Rsh(ones, uint(i)))
		v := vals[int64(i)]
		if v == nil {
			v = t.Args[0]
		}
		if !v.IsNum() || v.Val.Cmp(m) != 0 {
			return Select(a, idx)
		}
	}
	x.maskTab[a] = w
	return maskRead(a, idx, w, size)
}

func maskRead(a, idx *Term, w int, size int64) *Term {
	ones := BVNot(NumI(0, w))
	sh := ZExt(Extract(idx, 7, 0), w)
	f := BVNot(BVBin("bvlshr", ones, sh))
	if size == int64(w)+1 {
		// a read past the end is an obligation of its own
		return f
	}
	return Ite(Ule(idx, NumI(int64(w), idx.Sort.W)), f, Select(a, idx))
}

// subLeaves returns the type at path inside elem and its leaf range.
func (x *Exec) subLeaves(t types.Type, path []PE) (types.Type, int, int) {
	lo := 0
	for _, e := range path {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || e.Idx != nil {
			undec("nested path in %v", t)
		}
		for i := 0; i < e.Field; i++ {
			lo += len(x.c.leaves(s.Field(i).Type()))
		}
		t = s.Field(e.Field).Type()
	}
	return t, lo, len(x.c.leaves(t))
}

func (x *Exec) navLoad(st *State, t types.Type, v Value, path []PE) Value {
	for k, e := range path {
		if e.Idx != nil {
			a, ok := v.(*ArrV)
			if !ok {
				undec("index into %T", v)
			}
			return x.backLoadN(a.Elem, a.Leaves, e.Idx, path[k+1:], a.N)
		}
		s, ok := v.(*StructV)
		if !ok {
			undec("field of %T (%v)", v, t)
		}
		v = s.F[e.Field]
		t = t.Underlying().(*types.Struct).Field(e.Field).Type()
	}
	return v
}

func (x *Exec) store(st *State, p *PtrV, v Value) {
	if !x.checkPtr(st, p, "store") {
		return
	}
	o := x.obj(st, p.Obj)
	if x.specM > 0 && !o.Fresh {
		undec("side effect inside a specification")
	}
	if o.Frozen {
		undec("write to a backing array that another slice may share")
	}
	x.guard(st, o, true, o.Name)
	x.fieldGuard(st, p, o, true)
	n := o.clone()
	switch o.Kind {
	case OCell:
		n.Val = x.navStore(o.Typ, o.Val, p.Path, v)
	case OBack:
		n.Leaves = x.backStore(o.Typ, o.Leaves, p.Path[0].Idx, p.Path[1:], v)
		x.poisonShared(st, o)
	default:
		undec("store to object kind %d", o.Kind)
	}
	st.heap[p.Obj] = n
}

func (x *Exec) poisonShared(st *State, o *Obj) {
	for s := o.Shared; s != 0; {
		so := st.heap[s]
		if so == nil {
			return
		}
		c := so.clone()
		c.Poison = true
		st.heap[s] = c
		s = so.Shared
	}
}

func (x *Exec) backStore(elem types.Type, leaves []*Term, idx *Term, path []PE, v Value) []*Term {
	t, lo, n := x.subLeaves(elem, path)
	ls := x.c.flatten(t, v)
	out := append([]*Term(nil), leaves...)
	for i := 0; i < n; i++ {
		out[lo+i] = Store(out[lo+i], idx, ls[i])
	}
	return out
}

func (x *Exec) navStore(t types.Type, cur Value, path []PE, v Value) Value {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	if e.Idx != nil {
		a := cur.(*ArrV)
		return &ArrV{N: a.N, Elem: a.Elem, Leaves: x.backStore(a.Elem, a.Leaves, e.Idx, path[1:], v)}
	}
	s, ok := cur.(*StructV)
	if !ok {
		undec("store into field of %T", cur)
	}
	n := &StructV{F: append([]Value(nil), s.F...)}
	n.F[e.Field] = x.navStore(t.Underlying().(*types.Struct).Field(e.Field).Type(), s.F[e.Field], path[1:], v)
	return n
}

// sliceGet reads s[i] without checks.
func (x *Exec) sliceGet(st *State, elem types.Type, s *SliceV, i *Term) Value {
	if s.Obj == 0 {
		return x.zero(elem)
	}
	o := x.obj(st, s.Obj)
	return x.backLoadN(elem, o.Leaves, Add(s.Off, i), nil, constN(o.N))
}

func constN(t *Term) int64 {
	if t != nil && t.IsNum() {
		return t.Val.Int64()
	}
	return -1
}

// ---- functions ----

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path() + "." + f.Name()
		}
		return f.String()
	}
	p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath)
	if f.Signature.Recv() != nil {
		rt := f.Signature.Recv().Type()
		star := ""
		if pt, ok := rt.(*types.Pointer); ok {
			star = "*"
			rt = pt.Elem()
		}
		if n := namedOf(rt); n != nil {
			return fmt.Sprintf("%s.(%s%s).%s", p, star, n.Obj().Name(), f.Name())
		}
	}
	return p + "." + f.Name()
}

func (x *Exec) call(st *State, fn *ssa.Function, args []Value, site ssa.Instruction) []Outcome {
	key := fnKey(fn)
	if out, ok := x.extern(st, key, fn, args, site); ok {
		return out
	}
	if ct := x.specs.byKey[key]; ct != nil && x.specM == 0 {
		isSelf := x.root != nil && ct == x.root && len(x.stack) == 0
		if !isSelf && !ct.Expand && !(x.root != nil && x.root.inlines(key)) && (!trivialFn(fn) || ct.Trusted || len(ct.Witness) > 0) {
			return x.applyContract(st, ct, fn, args, site)
		}
	}
	return x.inline(st, fn, args, site)
}

// trivialFn: one block, no calls. Its body is as good as a contract.
func trivialFn(fn *ssa.Function) bool {
	b := fn
	if len(b.Blocks) == 0 && fn.Origin() != nil {
		b = fn.Origin()
	}
	if len(b.Blocks) != 1 {
		return false
	}
	for _, in := range b.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			return false
		}
	}
	return true
}

func (x *Exec) inline(st *State, fn *ssa.Function, args []Value, site ssa.Instruction) []Outcome {
	body := fn
	if len(body.Blocks) == 0 && fn.Origin() != nil {
		body = fn.Origin()
	}
	if len(body.Blocks) == 0 {
		undec("no body for %s", fnKey(fn))
	}
	for _, s := range x.stack {
		if s == body {
			undec("recursive call of %s without a contract", fnKey(fn))
		}
	}
	if len(x.stack) > 24 {
		undec("call depth")
	}
	if body.Pkg != nil && !strings.HasPrefix(body.Pkg.Pkg.Path(), strings.TrimSuffix(modPath, "/")) && fn.Parent() == nil && fn.Synthetic == "" {
		undec("no model for external function %s", fnKey(fn))
	}
	if x.mute == 0 && len(x.stack) > 0 {
		x.inlined[fnKey(fn)] = true
	}
	fr := &Frame{fn: body, env: map[ssa.Value]Value{}}
	for i, p := range body.Params {
		fr.env[p] = args[i]
	}
	// closures: free variables are passed as extra args after params
	for i, fv := range body.FreeVars {
		fr.env[fv] = args[len(body.Params)+i]
	}
	x.stack = append(x.stack, body)
	base := len(st.pc)
	st0 := st.clone()
	outs := x.block(fr, st, body.Blocks[0], nil, 0)
	x.stack = x.stack[:len(x.stack)-1]
	if len(outs) > 1 && (len(x.stack) > 0 || x.specM > 0) {
		outs = x.mergeOutcomes(st0, base, outs)
	}
	return outs
}

// mergeOutcomes joins outcomes whose pre-existing heap is unchanged and whose
// results have compatible shapes.
func (x *Exec) mergeOutcomes(st0 *State, base int, outs []Outcome) []Outcome {
	// group outcomes that share heap
	type group struct{ os []Outcome }
	var groups []*group
next:
	for _, o := range outs {
		for _, g := range groups {
			if nilSig(g.os[0].res) != nilSig(o.res) {
				continue
			}
			if x.heapCompat(st0, g.os[0].st, o.st) && g.os[0].st.crit == o.st.crit {
				if _, ok := mergeVal(FreshBound("m", BoolS), TupleV(g.os[0].res), TupleV(o.res)); ok {
					g.os = append(g.os, o)
					continue next
				}
			}
		}
		groups = append(groups, &group{[]Outcome{o}})
	}
	var out []Outcome
	for _, g := range groups {
		if len(g.os) == 1 {
			out = append(out, g.os[0])
			continue
		}
		m := g.os[0].st.clone()
		common := append([]PCItem(nil), m.pc[:base]...)
		var conds []*Term
		var facts []PCItem
		seenFact := map[*Term]bool{}
		res := TupleV(g.os[len(g.os)-1].res)
		free := !exclusive(g.os, base)
		if free && x.specM > 0 {
			undec("the paths of a function in a specification are not told apart by their branches")
		}
		for _, o := range g.os {
			var br []*Term
			for _, p := range o.st.pc[base:] {
				if p.Branch {
					br = append(br, p.T)
				}
			}
			c := And(br...)
			if free {
				c = Fresh("path", BoolS) // one of the paths, whichever
			}
			conds = append(conds, c)
			for _, p := range o.st.pc[base:] {
				if !p.Branch || free {
					f := Implies(c, p.T)
					if !seenFact[f] {
						seenFact[f] = true
						facts = append(facts, PCItem{f, false})
					}
				}
			}
			for id, ob := range o.st.heap {
				if _, ok := m.heap[id]; !ok {
					m.heap[id] = ob
				}
			}
		}
		for i := len(g.os) - 2; i >= 0; i-- {
			v, ok := mergeVal(conds[i], TupleV(g.os[i].res), res)
			if !ok {
				undec("merge failed")
			}
			res = v.(TupleV)
		}
		m.pc = append(common, facts...)
		if d := Or(conds...); d != True {
			m.pc = append(m.pc, PCItem{d, true})
		}
		out = append(out, Outcome{m, res})
	}
	return out
}

// exclusive: any two of the outcomes differ in the way some branch went, so
// that what one of them assumes is never assumed of another.
func exclusive(os []Outcome, base int) bool {
	sets := make([]map[*Term]bool, len(os))
	for i, o := range os {
		sets[i] = map[*Term]bool{}
		for _, p := range o.st.pc[base:] {
			if p.Branch {
				sets[i][p.T] = true
			}
		}
	}
	for i := range os {
	pair:
		for j := 0; j < i; j++ {
			for t := range sets[i] {
				if sets[j][Not(t)] {
					continue pair
				}
			}
			if smoke {
				println("   paths not told apart by their branches")
			}
			return false
		}
	}
	return true
}

// nilSig tells outcomes apart that a caller will branch on: definite nil-ness
// of interface and pointer results, and definite boolean results.
func nilSig(res []Value) string {
	s := ""
	for _, r := range res {
		var n *Term
		switch v := r.(type) {
		case *IfaceV:
			n = v.Nil
		case *PtrV:
			n = v.Nil
		}
		switch n {
		case True:
			s += "n"
		case False:
			s += "p"
		default:
			s += "?"
		}
	}
	return s
}

func (x *Exec) heapCompat(st0, a, b *State) bool {
	for id := range st0.heap {
		if !sameObj(a.heap[id], b.heap[id]) {
			return false
		}
	}
	// objects allocated in both with different content cannot share an id
	for id, o := range a.heap {
		if _, pre := st0.heap[id]; pre {
			continue
		}
		if p, ok := b.heap[id]; ok && !sameObj(o, p) {
			return false
		}
	}
	return true
}

func (x *Exec) block(fr *Frame, st *State, b, prev *ssa.BasicBlock, idx int) []Outcome {
	for {
		if smoke && idx == 0 {
			if x.visited == nil {
				x.visited = map[*ssa.BasicBlock]bool{}
			}
			x.visited[b] = true
		}
		if os.Getenv("GOVER_TRACE") != "" && idx == 0 {
			fmt.Fprintf(os.Stderr, "%s[%d] block %d (%s) mute=%d\n", fr.fn.Name(), len(x.stack), b.Index, b.Comment, x.mute)
		}
		if idx == 0 {
			// phis are evaluated simultaneously (unless a loop header set them)
			if prev != nil {
				n, vals := x.phis(fr, b, prev)
				for i := 0; i < n; i++ {
					fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
				}
				idx = n
			}
		}
		var next *ssa.BasicBlock
		for ; idx < len(b.Instrs); idx++ {
			if st.dead {
				return nil
			}
			in := b.Instrs[idx]
			switch in := in.(type) {
			case *ssa.Phi:
				// set by loop entry
			case *ssa.If:
				c := x.val(fr, in.Cond).(*Term)
				tOK := x.feasible(st, c)
				fOK := x.feasible(st, Not(c))
				if tOK && fOK {
					x.paths++
					if x.paths > 20000 {
						undec("too many paths")
					}
					st2 := st.clone()
					fr2 := fr.clone()
					st.branch(c)
					st2.branch(Not(c))
					outs := x.jump(fr, st, b, b.Succs[0])
					return append(outs, x.jump(fr2, st2, b, b.Succs[1])...)
				}
				if tOK {
					st.branch(c)
					next = b.Succs[0]
				} else if fOK {
					st.branch(Not(c))
					next = b.Succs[1]
				} else {
					return nil
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var res []Value
				for _, r := range in.Results {
					res = append(res, x.val(fr, r))
				}
				return []Outcome{{st, res}}
			case *ssa.Panic:
				x.oblige(st, "safe", False, "panic at "+x.where(in))
				return nil
			case *ssa.Defer:
				d := deferred{call: &in.Call}
				if in.Call.IsInvoke() {
					undec("deferred interface call")
				}
				d.fn = x.val(fr, in.Call.Value)
				for _, a := range in.Call.Args {
					d.args = append(d.args, x.val(fr, a))
				}
				fr.defers = append(fr.defers, d)
			case *ssa.RunDefers:
				ds := fr.defers
				fr.defers = nil
				states := []*State{st}
				for i := len(ds) - 1; i >= 0; i-- {
					var ns []*State
					for _, s := range states {
						for _, o := range x.callValue(s, ds[i].fn, ds[i].args, in) {
							ns = append(ns, o.st)
						}
					}
					states = ns
				}
				if len(states) != 1 {
					undec("branching deferred call")
				}
				st = states[0]
			case *ssa.Call:
				outs := x.callInstr(fr, st, in)
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0].st
					fr.env[in] = tupleOf(outs[0].res)
					continue
				}
				var all []Outcome
				for i, o := range outs {
					f := fr
					if i < len(outs)-1 {
						f = fr.clone()
					}
					f.env[in] = tupleOf(o.res)
					all = append(all, x.block(f, o.st, b, nil, idx+1)...)
				}
				return all
			case *ssa.Go, *ssa.Send, *ssa.Select:
				undec("concurrency instruction %v", in)
			default:
				x.step(fr, st, in)
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			return nil
		}
		if st.dead {
			return nil
		}
		// jump
		if x.isHeader(next) || fr.loop != nil {
			return x.jump(fr, st, b, next)
		}
		prev, b, idx = b, next, 0
	}
}

func tupleOf(res []Value) Value {
	if len(res) == 1 {
		return res[0]
	}
	return TupleV(res)
}

func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock) (int, []Value) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(fr, phi.Edges[pi]))
		n++
	}
	return n, vals
}

// jump handles loop headers and loop boundaries.
func (x *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) []Outcome {
	if fr.loop != nil {
		lr := fr.loop
		if to == lr.head {
			_, vals := x.phis(fr, to, from)
			lr.backs = append(lr.backs, loopEdge{st: st, vals: vals})
			return nil
		}
		if !lr.body[to] {
			lr.exits = append(lr.exits, loopExit{fr: fr, st: st, from: from, to: to})
			return nil
		}
	}
	if x.isHeader(to) {
		return x.enterLoop(fr, st, from, to)
	}
	return x.block(fr, st, to, from, 0)
}

func (x *Exec) callInstr(fr *Frame, st *State, in *ssa.Call) []Outcome {
	cc := &in.Call
	if cc.IsInvoke() {
		return x.invoke(fr, st, in)
	}
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, cc, args, in)
	}
	return x.callValue(st, x.val(fr, cc.Value), args, in)
}

func (x *Exec) callValue(st *State, fv Value, args []Value, site ssa.Instruction) []Outcome {
	f, ok := fv.(*FuncV)
	if !ok {
		undec("call of %T", fv)
	}
	if f.Nil != False {
		x.oblige(st, "safe", Not(f.Nil), "call of a nil function at "+x.where(site))
		if f.Nil == True {
			st.dead = true
			return nil
		}
	}
	if f.Fn != nil {
		return x.call(st, f.Fn, append(append([]Value(nil), args...), f.Binds...), site)
	}
	// opaque function value: a pure deterministic function of its arguments
	return []Outcome{{st, x.opaqueCall(f.Name, f.Sig, args)}}
}

func (x *Exec) opaqueCall(name string, sig *types.Signature, args []Value) []Value {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.c.flatten(sig.Params().At(i).Type(), a)...)
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var ls []*Term
		for j, l := range x.c.leaves(t) {
			ls = append(ls, App(fmt.Sprintf("%s.%d.%d", name, i, j), l.Sort, ts...))
		}
		res = append(res, x.c.unflat(t, ls))
	}
	return res
}

func (x *Exec) methodOf(t types.Type, name string, pkg *types.Package) *ssa.Function {
	ms := x.c.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel == nil {
		undec("method %s of %v not found", name, t)
	}
	fo, ok := sel.Obj().(*types.Func)
	if ok {
		if f := x.c.prog.FuncValue(fo.Origin()); f != nil && hasTypeParam(t) {
			return f
		}
	}
	f := x.c.prog.MethodValue(sel)
	if f == nil {
		undec("no method value %s of %v", name, t)
	}
	return f
}

func hasTypeParam(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	if n == nil || n.TypeArgs() == nil {
		return n != nil && n.TypeParams() != nil && n.TypeParams().Len() > 0
	}
	for i := 0; i < n.TypeArgs().Len(); i++ {
		if _, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
			return true
		}
	}
	return false
}

func (x *Exec) invoke(fr *Frame, st *State, in *ssa.Call) []Outcome {
	cc := &in.Call
	recv := x.val(fr, cc.Value)
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	return x.invokeOn(st, cc.Value.Type(), recv, cc.Method, args, in)
}

func (x *Exec) invokeOn(st *State, it types.Type, recv Value, m *types.Func, args []Value, site ssa.Instruction) []Outcome {
	iv, ok := recv.(*IfaceV)
	if !ok {
		undec("invoke on %T", recv)
	}
	if iv.Nil != False {
		x.oblige(st, "safe", Not(iv.Nil), "method "+m.Name()+" on a nil interface at "+x.where(site))
		if iv.Nil == True {
			st.dead = true
			return nil
		}
	}
	if d := x.c.closedDyn(it); d != nil {
		f := x.methodOf(d, m.Name(), m.Pkg())
		return x.call(st, f, append([]Value{iv.Val}, args...), site)
	}
	key := ""
	if n := namedOf(it); n != nil {
		key = qualName(n) + "." + m.Name()
	}
	sig := m.Type().(*types.Signature)
	switch key {
	case "k8s.io/apimachinery/pkg/labels.Selector.Matches":
		// args[0] is an interface labels.Labels holding a labels.Set
		a := args[0].(*IfaceV)
		x.trusted["labels.Selector.Matches: pure function of selector and labels"] = true
		return []Outcome{{st, []Value{App("selMatches", BoolS, iv.Val.(*Term), a.Val.(*Term))}}}
	case "error.Error":
		return []Outcome{{st, []Value{App("errString", UnS("Str"), iv.Val.(*Term))}}}
	}
	_ = sig
	undec("invoke %s", key)
	return nil
}

// ---- instructions ----

func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		var id int
		if isMutex(t) {
			id = x.newObj(st, &Obj{Kind: OLock, Typ: t, Fresh: true, Name: "mutex"})
		} else {
			id = x.newObj(st, &Obj{Kind: OCell, Typ: t, Val: x.zero(t), Fresh: true, Name: in.Comment, Ghost: x.freshGhosts(in.Comment, t)})
		}
		fr.env[in] = &PtrV{Nil: False, Obj: id}
	case *ssa.UnOp:
		fr.env[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(st, in.Op, x.val(fr, in.X), x.val(fr, in.Y), in.X.Type(), in.Y.Type(), x.where(in))
	case *ssa.Store:
		x.store(st, x.ptr(x.val(fr, in.Addr)), x.val(fr, in.Val))
	case *ssa.FieldAddr:
		p := x.ptr(x.val(fr, in.X))
		if p.Nil != False {
			if !x.checkPtr(st, p, "field address at "+x.where(in)) {
				return
			}
		}
		fr.env[in] = &PtrV{Nil: False, Obj: p.Obj, Path: append(append([]PE(nil), p.Path...), PE{Field: in.Field})}
	case *ssa.Field:
		v := x.val(fr, in.X)
		s, ok := v.(*StructV)
		if !ok {
			undec("field of %T", v)
		}
		fr.env[in] = s.F[in.Field]
	case *ssa.IndexAddr:
		i := x.idx64(x.val(fr, in.Index).(*Term), in.Index.Type())
		switch b := x.val(fr, in.X).(type) {
		case *SliceV:
			x.oblige(st, "safe", Ult(i, b.Len), "index out of range at "+x.where(in))
			if b.Obj == 0 {
				st.dead = true
				return
			}
			fr.env[in] = &PtrV{Nil: False, Obj: b.Obj, Path: []PE{{Idx: Add(b.Off, i)}}}
		case *PtrV:
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			x.oblige(st, "safe", Ult(i, NumI(at.Len(), 64)), "index out of range at "+x.where(in))
			fr.env[in] = &PtrV{Nil: b.Nil, Obj: b.Obj, Path: append(append([]PE(nil), b.Path...), PE{Idx: i})}
		default:
			undec("IndexAddr of %T", b)
		}
	case *ssa.Index:
		i := x.idx64(x.val(fr, in.Index).(*Term), in.Index.Type())
		a, ok := x.val(fr, in.X).(*ArrV)
		if !ok {
			undec("Index of %T", x.val(fr, in.X))
		}
		x.oblige(st, "safe", Ult(i, NumI(a.N, 64)), "index out of range at "+x.where(in))
		fr.env[in] = x.backLoadN(a.Elem, a.Leaves, i, nil, a.N)
	case *ssa.Convert:
		fr.env[in] = x.convert(x.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		fr.env[in] = x.val(fr, in.X)
	case *ssa.MakeInterface:
		fr.env[in] = x.makeIface(st, x.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		v := x.val(fr, in.X).(*IfaceV)
		if x.c.closedDyn(in.X.Type()) != nil && x.c.closedDyn(in.Type()) == nil {
			fr.env[in] = &IfaceV{Nil: v.Nil, Val: Fresh("any", UnS("Any"))}
			return
		}
		fr.env[in] = v
	case *ssa.Extract:
		t := x.val(fr, in.Tuple).(TupleV)
		fr.env[in] = t[in.Index]
	case *ssa.MakeSlice:
		l := x.idx64(x.val(fr, in.Len).(*Term), in.Len.Type())
		c := x.idx64(x.val(fr, in.Cap).(*Term), in.Cap.Type())
		x.oblige(st, "safe", And(Sle(NumI(0, 64), l), Sle(l, c)), "makeslice: len out of range at "+x.where(in))
		et := in.Type().Underlying().(*types.Slice).Elem()
		st.assume(Ule(c, maxLen)) // allocation beyond 2^48 elements does not return
		o := &Obj{Kind: OBack, Typ: et, Fresh: true, N: c, Name: "make"}
		for _, z := range x.zeroLeaves(et) {
			o.Leaves = append(o.Leaves, ConstArr(ArrS(BVS(64), z.Sort), z))
		}
		fr.env[in] = &SliceV{Nil: False, Obj: x.newObj(st, o), Off: NumI(0, 64), Len: l, Cap: c}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.env[in] = &MapV{Nil: False, Obj: x.newMap(st, mt)}
	case *ssa.MapUpdate:
		m := x.val(fr, in.Map).(*MapV)
		x.oblige(st, "safe", Not(m.Nil), "assignment to a nil map at "+x.where(in))
		if m.Obj == 0 {
			st.dead = true
			return
		}
		x.mapSet(st, m, x.mapKey(x.val(fr, in.Key), in.Key.Type()), x.val(fr, in.Value))
	case *ssa.Lookup:
		fr.env[in] = x.lookup(st, x.val(fr, in.X), x.val(fr, in.Index), in)
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.MakeClosure:
		f := &FuncV{Nil: False, Fn: in.Fn.(*ssa.Function), Sig: in.Fn.(*ssa.Function).Signature}
		for _, b := range in.Bindings {
			f.Binds = append(f.Binds, x.val(fr, b))
		}
		fr.env[in] = f
	case *ssa.Range:
		fr.env[in] = x.rangeMap(st, x.val(fr, in.X), in)
	case *ssa.Next:
		fr.env[in] = x.nextMap(st, x.val(fr, in.Iter), in)
	case *ssa.TypeAssert:
		fr.env[in] = x.typeAssert(st, in, x.val(fr, in.X))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.MakeChan:
		undec("instruction %v", in)
	default:
		undec("instruction %T", in)
	}
}

func (x *Exec) ptr(v Value) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		undec("pointer expected, got %T", v)
	}
	return p
}

func (x *Exec) idx64(t *Term, typ types.Type) *Term {
	_, s, _ := bvWidth(typ)
	if s {
		return SExt(t, 64)
	}
	return ZExt(t, 64)
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Value {
	v := x.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok {
			if r := x.globalLoad(st, g); r != nil {
				return r
			}
		}
		return x.load(st, x.ptr(v))
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		return BVNeg(v.(*Term))
	case token.XOR:
		return BVNot(v.(*Term))
	}
	undec("unop %v", in)
	return nil
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type, pos string) Value {
	switch op {
	case token.EQL:
		return x.goEq(a, b, ta)
	case token.NEQ:
		return Not(x.goEq(a, b, ta))
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		undec("binop %v on %T,%T", op, a, b)
	}
	if p.Sort.K == SUn {
		if op == token.ADD {
			return App("strcat", p.Sort, p, q)
		}
		undec("binop %v on %v", op, p.Sort)
	}
	w, signed, _ := bvWidth(ta)
	_ = w
	switch op {
	case token.ADD:
		return Add(p, q)
	case token.SUB:
		return Sub(p, q)
	case token.MUL:
		return BVBin("bvmul", p, q)
	case token.QUO:
		if st != nil {
			x.oblige(st, "safe", Not(Eq(q, NumI(0, q.Sort.W))), "division by zero at "+pos)
		}
		if signed {
			return BVBin("bvsdiv", p, q)
		}
		return BVBin("bvudiv", p, q)
	case token.REM:
		if st != nil {
			x.oblige(st, "safe", Not(Eq(q, NumI(0, q.Sort.W))), "division by zero at "+pos)
		}
		if signed {
			return BVBin("bvsrem", p, q)
		}
		return BVBin("bvurem", p, q)
	case token.AND:
		return BVBin("bvand", p, q)
	case token.OR:
		return BVBin("bvor", p, q)
	case token.XOR:
		return BVBin("bvxor", p, q)
	case token.AND_NOT:
		return BVBin("bvand", p, BVNot(q))
	case token.SHL, token.SHR:
		return x.shift(st, op, p, q, signed, tb, pos)
	case token.LSS:
		if signed {
			return Slt(p, q)
		}
		return Ult(p, q)
	case token.LEQ:
		if signed {
			return Sle(p, q)
		}
		return Ule(p, q)
	case token.GTR:
		if signed {
			return Slt(q, p)
		}
		return Ult(q, p)
	case token.GEQ:
		if signed {
			return Sle(q, p)
		}
		return Ule(q, p)
	}
	undec("binop %v", op)
	return nil
}

func (x *Exec) shift(st *State, op token.Token, p, q *Term, signed bool, tq types.Type, pos string) *Term {
	w := p.Sort.W
	_, qs, _ := bvWidth(tq)
	if qs && st != nil {
		x.oblige(st, "safe", Sle(NumI(0, q.Sort.W), q), "negative shift at "+pos)
	}
	// bring q to width w, saturating
	var amt *Term
	if q.Sort.W <= w {
		amt = ZExt(q, w)
	} else {
		if q.IsNum() {
			if q.Val.Cmp(big.NewInt(int64(w))) >= 0 {
				amt = NumI(int64(w), w)
			} else {
				amt = Num(q.Val, w)
			}
		} else {
			amt = Ite(Ult(q, NumI(int64(w), q.Sort.W)), Extract(q, w-1, 0), NumI(int64(w), w))
		}
	}
	if op == token.SHL {
		return BVBin("bvshl", p, amt)
	}
	if signed {
		return BVBin("bvashr", p, amt)
	}
	return BVBin("bvlshr", p, amt)
}

// goEq is Go's == on two values of the same type.
func (x *Exec) goEq(a, b Value, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		return Eq(p, b.(*Term))
	case *PtrV:
		q := b.(*PtrV)
		if p.Nil == True {
			return q.Nil
		}
		if q.Nil == True {
			return p.Nil
		}
		if p.Obj != q.Obj {
			return And(p.Nil, q.Nil)
		}
		if len(p.Path) != len(q.Path) {
			return And(p.Nil, q.Nil)
		}
		e := True
		for i := range p.Path {
			if p.Path[i].Idx != nil && q.Path[i].Idx != nil {
				e = And(e, Eq(p.Path[i].Idx, q.Path[i].Idx))
			} else if p.Path[i].Field != q.Path[i].Field {
				e = False
			}
		}
		return Or(And(p.Nil, q.Nil), And(Not(p.Nil), Not(q.Nil), e))
	case *SliceV:
		q := b.(*SliceV)
		if q.Nil == True {
			return p.Nil
		}
		return q.Nil
	case *MapV:
		q := b.(*MapV)
		if q.Nil == True {
			return p.Nil
		}
		return q.Nil
	case *FuncV:
		q := b.(*FuncV)
		if q.Nil == True {
			return p.Nil
		}
		return q.Nil
	case *IfaceV:
		q := b.(*IfaceV)
		if q.Nil == True {
			return p.Nil
		}
		if p.Nil == True {
			return q.Nil
		}
		d := x.c.closedDyn(t)
		if d == nil || isPtrType(d) {
			undec("interface comparison of %v", t)
		}
		same := x.goEq(p.Val, q.Val, d)
		if p.Ptr != nil {
			// pointer identity is not modelled: two pointer variants compare
			// equal only if contents agree, otherwise unknown
			u := Fresh("ptreq", BoolS)
			same = And(Eq(p.Ptr, q.Ptr), same, Implies(p.Ptr, u))
		}
		return Or(And(p.Nil, q.Nil), And(Not(p.Nil), Not(q.Nil), same))
	case *StructV:
		q := b.(*StructV)
		st := t.Underlying().(*types.Struct)
		e := True
		for i := range p.F {
			e = And(e, x.goEq(p.F[i], q.F[i], st.Field(i).Type()))
		}
		return e
	}
	undec("== on %T", a)
	return nil
}

func (x *Exec) convert(v Value, from, to types.Type) Value {
	t, ok := v.(*Term)
	if !ok {
		undec("convert %v to %v", from, to)
	}
	_, fs, ok1 := bvWidth(from)
	tw, _, ok2 := bvWidth(to)
	if ok1 && ok2 {
		if fs {
			return SExt(t, tw)
		}
		return ZExt(t, tw)
	}
	if t.Sort == UnS("Str") {
		if _, ok := to.Underlying().(*types.Basic); ok {
			return t
		}
	}
	undec("convert %v to %v", from, to)
	return nil
}

func (x *Exec) makeIface(st *State, v Value, from, to types.Type) Value {
	if d := x.c.closedDyn(to); d != nil {
		if types.Identical(from, d) || sameOrigin(from, d) {
			i := &IfaceV{Nil: False, Val: v}
			if hasPtrVariant(to) {
				i.Ptr = False
			}
			return i
		}
		if pt, ok := from.(*types.Pointer); ok && hasPtrVariant(to) && types.Identical(pt.Elem(), d) {
			return &IfaceV{Nil: False, Ptr: True, Val: x.load(st, v.(*PtrV))}
		}
		undec("dynamic type %v stored in %v (outside the closed world of this proof)", from, to)
	}
	if s := x.c.opaqueSort(to); s != nil {
		return &IfaceV{Nil: False, Val: Fresh("iface", s)}
	}
	// labels.Labels holding a labels.Set keeps its value
	if t, ok := v.(*Term); ok && t.Sort.K == SUn && t.Sort != UnS("Str") {
		return &IfaceV{Nil: False, Val: t}
	}
	if sl, ok := v.(*SliceV); ok { // sort.Slice
		return &IfaceV{Nil: False, Val: sl}
	}
	return &IfaceV{Nil: False, Val: Fresh("any", UnS("Any"))}
}

func sameOrigin(a, b types.Type) bool {
	if pa, ok := a.(*types.Pointer); ok {
		pb, ok := b.(*types.Pointer)
		return ok && sameOrigin(pa.Elem(), pb.Elem())
	}
	na, nb := namedOf(a), namedOf(b)
	return na != nil && nb != nil && na.Origin() == nb.Origin()
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, v Value) Value {
	iv := v.(*IfaceV)
	d := x.c.closedDyn(in.X.Type())
	if d != nil && (types.Identical(d, in.AssertedType) || sameOrigin(d, in.AssertedType)) {
		ok := Not(iv.Nil)
		if iv.Ptr != nil {
			ok = And(ok, Not(iv.Ptr))
		}
		if in.CommaOk {
			z := x.zero(in.AssertedType)
			m, k := mergeVal(ok, iv.Val, z)
			if !k {
				undec("type assertion")
			}
			return TupleV{m, ok}
		}
		x.oblige(st, "safe", ok, "type assertion at "+x.where(in))
		return iv.Val
	}
	undec("type assertion to %v", in.AssertedType)
	return nil
}

// ---- maps ----

func (x *Exec) newMap(st *State, mt *types.Map) int {
	ks := x.keySort(mt.Key())
	o := &Obj{Kind: OMap, Typ: mt, Fresh: true, Name: "map"}
	o.Pres = ConstArr(ArrS(ks, BoolS), False)
	for _, z := range x.zeroLeaves(mt.Elem()) {
		o.Leaves = append(o.Leaves, ConstArr(ArrS(ks, z.Sort), z))
	}
	o.Card = NumI(0, 64)
	return x.newObj(st, o)
}

func (x *Exec) mapKey(v Value, t types.Type) *Term {
	ls := x.c.flatten(t, v)
	if len(ls) != 1 {
		undec("map key")
	}
	return ls[0]
}

func (x *Exec) mapSet(st *State, m *MapV, k *Term, v Value) {
	o := x.obj(st, m.Obj)
	if x.specM > 0 && !o.Fresh {
		undec("side effect inside a specification")
	}
	x.guard(st, o, true, o.Name)
	n := o.clone()
	mt := o.Typ.Underlying().(*types.Map)
	had := Select(o.Pres, k)
	n.Pres = Store(o.Pres, k, True)
	n.Card = Ite(had, o.Card, Add(o.Card, NumI(1, 64)))
	ls := x.c.flatten(mt.Elem(), v)
	n.Leaves = append([]*Term(nil), o.Leaves...)
	for i := range ls {
		n.Leaves[i] = Store(n.Leaves[i], k, ls[i])
	}
	st.assume(Ule(n.Card, maxLen))
	st.heap[m.Obj] = n
}

func (x *Exec) mapDel(st *State, m *MapV, k *Term) {
	if m.Obj == 0 {
		return
	}
	o := x.obj(st, m.Obj)
	if x.specM > 0 && !o.Fresh {
		undec("side effect inside a specification")
	}
	x.guard(st, o, true, o.Name)
	n := o.clone()
	had := Select(o.Pres, k)
	n.Pres = Store(o.Pres, k, False)
	n.Card = Ite(had, Sub(o.Card, NumI(1, 64)), o.Card)
	// a present key means the cardinality is positive
	st.assume(Implies(had, Not(Eq(o.Card, NumI(0, 64)))))
	st.heap[m.Obj] = n
}

func (x *Exec) mapGet(st *State, m *MapV, k *Term) (Value, *Term) {
	mt := m
	if mt.Obj == 0 {
		return nil, False
	}
	o := x.obj(st, m.Obj)
	x.guard(st, o, false, o.Name)
	et := o.Typ.Underlying().(*types.Map).Elem()
	has := Select(o.Pres, k)
	var ls []*Term
	for _, a := range o.Leaves {
		ls = append(ls, Select(a, k))
	}
	z := x.zeroLeaves(et)
	for i := range ls {
		ls[i] = Ite(has, ls[i], z[i])
	}
	return x.c.unflat(et, ls), has
}

func (x *Exec) lookup(st *State, mv, kv Value, in *ssa.Lookup) Value {
	m, ok := mv.(*MapV)
	if !ok {
		undec("lookup in %T", mv)
	}
	v, has := x.mapGet(st, m, x.mapKey(kv, in.Index.Type()))
	if v == nil {
		v = x.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return TupleV{v, has}
	}
	return v
}

func (x *Exec) rangeMap(st *State, v Value, in *ssa.Range) Value {
	m, ok := v.(*MapV)
	if !ok {
		undec("range over %T", v)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	it := &Obj{Kind: OMapIter, Fresh: true, Name: "mapiter", Pos: NumI(0, 64)}
	ks := x.keySort(mt.Key())
	if m.Obj == 0 {
		it.Cnt = NumI(0, 64)
		it.Enum = ConstArr(ArrS(BVS(64), ks), zeroTerm(ks))
	} else {
		o := x.obj(st, m.Obj)
		x.guard(st, o, false, o.Name)
		it.MapObj, it.MapSnap = m.Obj, o
		it.Cnt = o.Card
		it.Enum = Fresh("enum", ArrS(BVS(64), ks))
		inv := Fresh("enuminv", ArrS(ks, BVS(64)))
		it.EnumInv = inv
		i := FreshBound("i", BVS(64))
		e := Select(it.Enum, i)
		st.assume(Forall([]*Term{i}, Implies(Ult(i, it.Cnt), And(Select(o.Pres, e), Eq(Select(inv, e), i))), []*Term{e}))
		k := FreshBound("k", ks)
		st.assume(Forall([]*Term{k}, Implies(Select(o.Pres, k), And(Ult(Select(inv, k), it.Cnt), Eq(Select(it.Enum, Select(inv, k)), k))), []*Term{Select(o.Pres, k)}, []*Term{Select(inv, k)}))
		x.trusted["map iteration visits every present key exactly once (len(m) keys)"] = true
	}
	return &MapIterV{Obj: x.newObj(st, it), KeyT: mt.Key(), ValT: mt.Elem()}
}

func (x *Exec) nextMap(st *State, v Value, in *ssa.Next) Value {
	mi, ok := v.(*MapIterV)
	if !ok {
		undec("next on %T", v)
	}
	it := x.obj(st, mi.Obj)
	okT := Ult(it.Pos, it.Cnt)
	key := Select(it.Enum, it.Pos)
	var val Value
	if it.MapObj != 0 {
		cur := x.obj(st, it.MapObj)
		if cur.Pres != it.MapSnap.Pres {
			undec("map modified while ranging over it")
		}
		x.guard(st, cur, false, cur.Name)
		var ls []*Term
		for _, a := range cur.Leaves {
			ls = append(ls, Select(a, key))
		}
		val = x.c.unflat(mi.ValT, ls)
	} else {
		val = x.zero(mi.ValT)
	}
	n := it.clone()
	n.Pos = Ite(okT, Add(it.Pos, NumI(1, 64)), it.Pos)
	st.heap[mi.Obj] = n
	return TupleV{okT, x.c.unflat(mi.KeyT, []*Term{key}), val}
}

// ---- slices ----

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Value {
	v := x.val(fr, in.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.idx64(x.val(fr, e).(*Term), e.Type())
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = NumI(0, 64)
	}
	switch s := v.(type) {
	case *SliceV:
		if hi == nil {
			hi = s.Len
		}
		cp := s.Cap
		if mx != nil {
			x.oblige(st, "safe", Ule(mx, s.Cap), "slice bounds at "+x.where(in))
			cp = mx
		}
		x.oblige(st, "safe", And(Ule(lo, hi), Ule(hi, cp)), "slice bounds at "+x.where(in))
		// elements between len and cap of this slice are not modelled
		if hi != s.Len && x.specM == 0 {
			x.oblige(st, "model", Ule(hi, s.Len), "reslicing beyond len at "+x.where(in))
		}
		return &SliceV{Nil: s.Nil, Obj: s.Obj, Off: Add(s.Off, lo), Len: Sub(hi, lo), Cap: Sub(cp, lo)}
	case *PtrV: // pointer to array: view the array cell as a slice
		if o := x.obj(st, s.Obj); o.Kind == OCell && len(s.Path) == 0 {
			a, ok := o.Val.(*ArrV)
			if !ok {
				undec("slice of %T", o.Val)
			}
			// convert the cell into a backing array in place
			n := &Obj{Kind: OBack, Typ: a.Elem, Leaves: a.Leaves, N: NumI(a.N, 64), Fresh: o.Fresh, Name: o.Name}
			st.heap[s.Obj] = n
			if hi == nil {
				hi = NumI(a.N, 64)
			}
			x.oblige(st, "safe", And(Ule(lo, hi), Ule(hi, NumI(a.N, 64))), "slice bounds at "+x.where(in))
			return &SliceV{Nil: False, Obj: s.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(NumI(a.N, 64), lo)}
		} else if o.Kind == OBack && len(s.Path) == 0 {
			if hi == nil {
				hi = o.N
			}
			x.oblige(st, "safe", And(Ule(lo, hi), Ule(hi, o.N)), "slice bounds at "+x.where(in))
			return &SliceV{Nil: False, Obj: s.Obj, Off: lo, Len: Sub(hi, lo), Cap: Sub(o.N, lo)}
		}
		undec("slice of nested array")
	case *Term:
		if s.Sort == UnS("Str") {
			l := App("strlen", BVS(64), s)
			if hi == nil {
				hi = l
			}
			x.oblige(st, "safe", And(Ule(lo, hi), Ule(hi, l)), "string slice bounds at "+x.where(in))
			return App("substr", s.Sort, s, lo, hi)
		}
	}
	undec("slice of %T", v)
	return nil
}

// appendVals models append(s, src[0..n)).
func (x *Exec) appendVals(st *State, elem types.Type, s *SliceV, src func(i *Term) []*Term, n *Term, variadic []Value, site string) *SliceV {
	if n.IsNum() && n.Val.Sign() == 0 && s.Obj == 0 {
		return s
	}
	newLen := Add(s.Len, n)
	st.assume(Ule(newLen, maxLen), Ule(s.Len, newLen))
	write := func(leaves []*Term, off *Term) []*Term {
		out := append([]*Term(nil), leaves...)
		if variadic != nil {
			for j, v := range variadic {
				ls := x.c.flatten(elem, v)
				for i := range ls {
					out[i] = Store(out[i], Add(Add(off, s.Len), NumI(int64(j), 64)), ls[i])
				}
			}
			return out
		}
		for i := range out {
			na := Fresh("app", out[i].Sort)
			k := FreshBound("k", BVS(64))
			rel := Sub(k, Add(off, s.Len))
			inNew := Ult(rel, n)
			pats := [][]*Term{{Select(na, k)}}
			if p := Select(out[i], k); p.Op == "select" {
				pats = append(pats, []*Term{p})
			}
			st.assume(Forall([]*Term{k}, Eq(Select(na, k), Ite(inNew, src(rel)[i], Select(out[i], k))), pats...))
			// the same seen from the source
			if p := src(NumI(0, 64))[i]; p.Op == "select" {
				j := FreshBound("j", BVS(64))
				rj := Sub(j, p.Args[1])
				sj := Select(p.Args[0], j)
				st.assume(Forall([]*Term{j}, Implies(Ult(rj, n), Eq(Select(na, Add(Add(off, s.Len), rj)), sj)), []*Term{sj}))
			}
			out[i] = na
		}
		return out
	}
	fits := Ule(newLen, s.Cap)
	mustGrow := s.Obj == 0 || !x.feasible(st, fits)
	if !mustGrow && x.specM == 0 && !x.feasible(st, Not(fits)) {
		o := x.obj(st, s.Obj)
		x.guard(st, o, true, o.Name)
		if o.Frozen {
			undec("append into a shared backing array")
		}
		c := o.clone()
		c.Leaves = write(o.Leaves, s.Off)
		st.heap[s.Obj] = c
		st.assume(fits)
		return &SliceV{Nil: And(s.Nil, Eq(newLen, NumI(0, 64))), Obj: s.Obj, Off: s.Off, Len: newLen, Cap: s.Cap}
	}
	// copy model: the result lives in a new object; if the append may have
	// happened in place the old object is frozen and shares memory.
	o := &Obj{Kind: OBack, Typ: elem, Fresh: true, Name: "append"}
	off := NumI(0, 64)
	if s.Obj != 0 {
		old := x.obj(st, s.Obj)
		if old.Poison {
			undec("append to an overwritten backing array")
		}
		x.guard(st, old, false, old.Name)
		o.Leaves = old.Leaves
		off = s.Off
		if !mustGrow {
			o.Shared = s.Obj
			f := old.clone()
			f.Frozen = true
			st.heap[s.Obj] = f
		}
	} else {
		for _, z := range x.zeroLeaves(elem) {
			o.Leaves = append(o.Leaves, ConstArr(ArrS(BVS(64), z.Sort), z))
		}
	}
	o.Leaves = write(o.Leaves, off)
	cp := Fresh("cap", BVS(64))
	st.assume(Ule(newLen, cp), Ule(cp, maxLen))
	o.N = cp
	id := x.newObj(st, o)
	return &SliceV{Nil: And(s.Nil, Eq(newLen, NumI(0, 64))), Obj: id, Off: off, Len: newLen, Cap: cp}
}

// ---- globals ----

func (x *Exec) globalPtr(g *ssa.Global) Value {
	return &PtrV{Nil: False, Obj: -1000 - x.globalID(g)}
}

func (x *Exec) globalID(g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	x.globals[g] = len(x.globals) + 1
	return x.globals[g]
}
