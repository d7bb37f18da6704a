package main

// Loops: cut at the header with inferred frame and Houdini-pruned invariants.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopEdge struct {
	st   *State
	vals []Value
}
type loopExit struct {
	fr       *Frame
	st       *State
	from, to *ssa.BasicBlock
}
type loopRun struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	backs []loopEdge
	exits []loopExit
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := loopCache[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	loopCache[f] = l
	return l
}

func (x *Exec) isHeader(b *ssa.BasicBlock) bool {
	if x.concreteMode {
		return false
	}
	_, ok := loopsOf(b.Parent())[b]
	return ok
}

// modset describes what a loop changes.
type modset struct {
	phi   map[int]int            // phi -> 1 scalar/in-place, 2 abstract backing
	cells map[int]map[string]int // object -> leaf path -> 1 or 2
	objs  map[int]bool           // whole backing / map / iterator contents
	ghost map[int]bool           // ghost fields of a cell
}

func newModset() *modset {
	return &modset{map[int]int{}, map[int]map[string]int{}, map[int]bool{}, map[int]bool{}}
}

type cellDiff struct {
	path string
	abs  bool
}

// diffVal lists leaf paths that differ; abs is set when a slice changed its
// backing object.
func diffVal(a, b Value, path string, out *[]cellDiff) {
	if sameVal(a, b) {
		return
	}
	if p, ok := a.(*StructV); ok {
		if q, ok := b.(*StructV); ok && len(p.F) == len(q.F) {
			for i := range p.F {
				diffVal(p.F[i], q.F[i], fmt.Sprintf("%s.%d", path, i), out)
			}
			return
		}
	}
	abs := false
	if p, ok := a.(*SliceV); ok {
		if q, ok := b.(*SliceV); ok && p.Obj != q.Obj {
			abs = true
		}
	}
	if p, ok := a.(*MapV); ok {
		if q, ok := b.(*MapV); ok && p.Obj != q.Obj {
			abs = true
		}
	}
	if p, ok := a.(*PtrV); ok {
		if q, ok := b.(*PtrV); ok && p.Obj != q.Obj && p.Obj != 0 && q.Obj != 0 {
			undec("loop changes a pointer to a different object")
		}
	}
	*out = append(*out, cellDiff{path, abs})
}

// havocVal makes a fresh value of the same shape.
func (x *Exec) havocVal(st *State, v Value, mode int, base string) Value {
	switch v := v.(type) {
	case *Term:
		return Fresh(base, v.Sort)
	case *StructV:
		r := &StructV{}
		for i, f := range v.F {
			r.F = append(r.F, x.havocVal(st, f, mode, fmt.Sprintf("%s.%d", base, i)))
		}
		return r
	case *ArrV:
		r := &ArrV{N: v.N, Elem: v.Elem}
		for _, l := range v.Leaves {
			r.Leaves = append(r.Leaves, Fresh(base, l.Sort))
		}
		return r
	case *SliceV:
		l := Fresh(base+".len", BVS(64))
		cp := Fresh(base+".cap", BVS(64))
		off := Fresh(base+".off", BVS(64))
		nl := Fresh(base+".nil", BoolS)
		st.assume(Ule(l, cp), Ule(cp, maxLen), Ule(off, maxLen), Implies(nl, Eq(cp, NumI(0, 64))))
		if mode == 1 {
			return &SliceV{Nil: nl, Obj: v.Obj, Off: off, Len: l, Cap: cp}
		}
		undec("abstract slice without element type")
	case *IfaceV:
		r := &IfaceV{Nil: Fresh(base+".nil", BoolS), Val: x.havocVal(st, v.Val, mode, base)}
		if v.Ptr != nil {
			r.Ptr = Fresh(base+".ptr", BoolS)
		}
		return r
	case *PtrV:
		r := &PtrV{Nil: v.Nil, Obj: v.Obj}
		if v.Nil != False {
			r.Nil = Fresh(base+".nil", BoolS)
		}
		for _, p := range v.Path {
			if p.Idx != nil {
				p.Idx = Fresh(base+".idx", BVS(64))
			}
			r.Path = append(r.Path, p)
		}
		return r
	case *MapV:
		return &MapV{Nil: Fresh(base+".nil", BoolS), Obj: v.Obj}
	case TupleV:
		var r TupleV
		for i, f := range v {
			r = append(r, x.havocVal(st, f, mode, fmt.Sprintf("%s.%d", base, i)))
		}
		return r
	}
	undec("loop-modified value of kind %T", v)
	return nil
}

// abstractSlice gives a slice a fresh backing object standing for "whatever
// backing the slice has at this iteration".
func (x *Exec) abstractSlice(st *State, v *SliceV, elem types.Type, base string) *SliceV {
	o := &Obj{Kind: OBack, Typ: elem, Fresh: true, Name: base}
	for _, l := range x.c.leaves(elem) {
		o.Leaves = append(o.Leaves, Fresh(base+"."+l.Name, ArrS(BVS(64), l.Sort)))
	}
	if v.Obj != 0 {
		o.Shared = v.Obj
		if e := st.heap[v.Obj]; e != nil {
			f := e.clone()
			f.Frozen = true
			st.heap[v.Obj] = f
			o.Guard = e.Guard
		}
	}
	l := Fresh(base+".len", BVS(64))
	cp := Fresh(base+".cap", BVS(64))
	off := NumI(0, 64) // positions are counted from the start of the slice
	nl := Fresh(base+".nil", BoolS)
	o.N = cp
	st.assume(Ule(l, cp), Ule(cp, maxLen), Implies(nl, Eq(cp, NumI(0, 64))))
	return &SliceV{Nil: nl, Obj: x.newObj(st, o), Off: off, Len: l, Cap: cp}
}

func (x *Exec) havocObj(st *State, id int, base string) {
	o := st.heap[id].clone()
	switch o.Kind {
	case OBack, OMap:
		ls := make([]*Term, len(o.Leaves))
		for i, l := range o.Leaves {
			ls[i] = Fresh(base+".content", l.Sort)
		}
		o.Leaves = ls
		if o.Kind == OMap {
			o.Pres = Fresh(base+".has", o.Pres.Sort)
			o.Card = Fresh(base+".card", BVS(64))
			st.assume(Ule(o.Card, maxLen))
		}
	case OMapIter:
		o.Pos = Fresh(base+".pos", BVS(64))
		st.assume(Ule(o.Pos, o.Cnt))
	default:
		undec("havoc of object kind %d", o.Kind)
	}
	st.heap[id] = o
}

func typeAtPath(t types.Type, path string) types.Type {
	for _, p := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if p == "" {
			continue
		}
		var i int
		fmt.Sscan(p, &i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return t
}

func valAtPath(v Value, path string) Value {
	for _, p := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if p == "" {
			continue
		}
		var i int
		fmt.Sscan(p, &i)
		v = v.(*StructV).F[i]
	}
	return v
}

func setAtPath(v Value, path []string, n Value) Value {
	if len(path) == 0 {
		return n
	}
	var i int
	fmt.Sscan(path[0], &i)
	s := v.(*StructV)
	r := &StructV{F: append([]Value(nil), s.F...)}
	r.F[i] = setAtPath(s.F[i], path[1:], n)
	return r
}

func splitPath(p string) []string {
	p = strings.TrimPrefix(p, ".")
	if p == "" {
		return nil
	}
	return strings.Split(p, ".")
}

// headState builds the arbitrary-iteration state.
func (x *Exec) headState(fr *Frame, st *State, head *ssa.BasicBlock, entry []Value, ms *modset) (*Frame, *State, []Value) {
	f := fr.clone()
	s := st.clone()
	ids := make([]int, 0, len(ms.objs))
	for id := range ms.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		x.havocObj(s, id, fmt.Sprintf("lo%d", id))
	}
	cids := make([]int, 0, len(ms.cells))
	for id := range ms.cells {
		cids = append(cids, id)
	}
	sort.Ints(cids)
	for _, id := range cids {
		o := s.heap[id].clone()
		paths := make([]string, 0)
		for p := range ms.cells[id] {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			cur := valAtPath(o.Val, p)
			var nv Value
			if sl, ok := cur.(*SliceV); ok && ms.cells[id][p] == 2 {
				et := typeAtPath(o.Typ, p).Underlying().(*types.Slice).Elem()
				nv = x.abstractSlice(s, sl, et, fmt.Sprintf("lc%d%s", id, p))
			} else {
				nv = x.havocVal(s, cur, 1, fmt.Sprintf("lc%d%s", id, p))
			}
			o.Val = setAtPath(o.Val, splitPath(p), nv)
		}
		s.heap[id] = o
	}
	gids := make([]int, 0, len(ms.ghost))
	for id := range ms.ghost {
		gids = append(gids, id)
	}
	sort.Ints(gids)
	for _, id := range gids {
		o := s.heap[id].clone()
		o.Ghost = x.freshGhosts(fmt.Sprintf("lg%d", id), o.Typ)
		s.heap[id] = o
	}
	vals := append([]Value(nil), entry...)
	for i := range entry {
		m := ms.phi[i]
		if m == 0 {
			continue
		}
		phi := head.Instrs[i].(*ssa.Phi)
		base := "phi_" + phi.Comment
		if phi.Comment == "" {
			base = "phi_" + phi.Name()
		}
		if sl, ok := entry[i].(*SliceV); ok && m == 2 {
			et := phi.Type().Underlying().(*types.Slice).Elem()
			vals[i] = x.abstractSlice(s, sl, et, base)
		} else {
			if p, ok := entry[i].(*PtrV); ok && m >= 3 { // nil entry pointer that becomes &obj
				_ = p
				vals[i] = x.havocVal(s, x.phiShape[phi], 1, base)
				r := vals[i].(*PtrV)
				r.Nil = Fresh(base+".nil", BoolS)
			} else {
				vals[i] = x.havocVal(s, entry[i], 1, base)
			}
		}
	}
	for i := range entry {
		f.env[head.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	return f, s, vals
}

func (x *Exec) runBody(f *Frame, s *State, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) *loopRun {
	lr := &loopRun{head: head, body: body}
	f.loop = lr
	n := 0
	for _, in := range head.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		}
	}
	outs := x.block(f, s, head, nil, n)
	if len(outs) > 0 {
		undec("return inside a loop body")
	}
	return lr
}

// growMods adds differences between the head state and a back edge.
func (x *Exec) growMods(ms *modset, head *ssa.BasicBlock, hs *State, hvals []Value, be loopEdge, entryObjs int) bool {
	grew := false
	set := func(m map[int]int, k, v int) {
		if m[k] < v {
			m[k] = v
			grew = true
		}
	}
	for i := range hvals {
		a, b := hvals[i], be.vals[i]
		if sameVal(a, b) {
			continue
		}
		if p, ok := a.(*SliceV); ok {
			q := b.(*SliceV)
			if p.Obj != q.Obj {
				set(ms.phi, i, 2)
				continue
			}
		}
		if p, ok := a.(*PtrV); ok {
			q := b.(*PtrV)
			if p.Obj != q.Obj {
				if p.Obj == 0 {
					x.phiShape[head.Instrs[i].(*ssa.Phi)] = q
					set(ms.phi, i, 3)
					continue
				}
				if q.Obj != 0 {
					undec("loop pointer variable ranges over different objects")
				}
			}
			if len(p.Path) != len(q.Path) {
				undec("loop pointer variable changes depth")
			}
		}
		if p, ok := a.(*MapV); ok && p.Obj != b.(*MapV).Obj {
			undec("loop map variable ranges over different maps")
		}
		set(ms.phi, i, 1)
	}
	for id, o := range hs.heap {
		n := be.st.heap[id]
		if n == o || n == nil || id > entryObjs {
			continue // objects made for the head are arbitrary already
		}
		switch o.Kind {
		case OCell:
			if n.Kind != OCell {
				undec("loop changes the representation of a cell")
			}
			for g, v := range o.Ghost {
				if !sameVal(v, n.Ghost[g]) && !ms.ghost[id] {
					ms.ghost[id] = true
					grew = true
				}
			}
			var ds []cellDiff
			diffVal(o.Val, n.Val, "", &ds)
			for _, d := range ds {
				if ms.cells[id] == nil {
					ms.cells[id] = map[string]int{}
				}
				v := 1
				if d.abs {
					v = 2
				}
				if ms.cells[id][d.path] < v {
					ms.cells[id][d.path] = v
					grew = true
				}
			}
		case OBack, OMap, OMapIter:
			same := o.Pres == n.Pres && o.Card == n.Card && o.Pos == n.Pos
			for i := range o.Leaves {
				if o.Leaves[i] != n.Leaves[i] {
					same = false
				}
			}
			if !same && !ms.objs[id] {
				ms.objs[id] = true
				grew = true
			}
		case OLock:
			if o.Mode != n.Mode {
				undec("lock state changes across a loop iteration")
			}
		}
	}
	return grew
}

// cand is a candidate invariant.
type cand struct {
	label string
	src   string
	eval  func(st *State, vals []Value) *Term
	on    bool
}

func (x *Exec) enterLoop(fr *Frame, st *State, from, head *ssa.BasicBlock) []Outcome {
	body := loopsOf(fr.fn)[head]
	n, entry := x.phis(fr, head, from)
	_ = n
	x.loops++
	outer := fr.loop
	// 1. frame discovery
	ms := newModset()
	savedF, savedO := freshSeq, x.objSeq
	x.mute++
	x.discover++
	for it := 0; ; it++ {
		if it > 12 {
			undec("loop frame does not stabilise")
		}
		freshSeq, x.objSeq = savedF, savedO
		f, s, vals := x.headState(fr, st, head, entry, ms)
		hs := s.clone()
		lr := x.runBody(f, s, head, body)
		grew := false
		for _, be := range lr.backs {
			if x.growMods(ms, head, hs, vals, be, savedO) {
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	x.discover--
	x.mute--
	// 2. invariants
	var cands []*cand
	if x.discover == 0 && !x.noCands {
		cands = x.candidates(fr, st, head, body, entry, ms)
		x.houdini(fr, st, head, body, entry, ms, cands, savedF, savedO)
	}
	// 3. final run
	freshSeq, x.objSeq = savedF, savedO
	f, s, vals := x.headState(fr, st, head, entry, ms)
	for _, c := range cands {
		if c.on {
			s.assume(c.eval(s, vals))
			if x.mute == 0 {
				x.obls = append(x.obls, &Oblig{Label: "inv", Goal: True, Status: "proved", Solver: "houdini", Msg: fmt.Sprintf("loop invariant %s at %s: %s", c.label, x.blockPos(head), c.src)})
			}
		}
	}
	if x.mute == 0 {
		x.checkSharing(ms)
	}
	lr := x.runBody(f, s, head, body)
	var outs []Outcome
	for _, e := range lr.exits {
		e.fr.loop = outer
		outs = append(outs, x.jump(e.fr, e.st, e.from, e.to)...)
	}
	return outs
}

func (x *Exec) checkSharing(ms *modset) {}

func (x *Exec) blockPos(b *ssa.BasicBlock) string {
	for _, bb := range []*ssa.BasicBlock{b} {
		for _, in := range bb.Instrs {
			if in.Pos().IsValid() {
				return x.where(in)
			}
		}
	}
	for bb := range loopsOf(b.Parent())[b] {
		for _, in := range bb.Instrs {
			if in.Pos().IsValid() {
				return x.where(in)
			}
		}
	}
	return b.Parent().Name()
}

func (x *Exec) houdini(fr *Frame, st *State, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []Value, ms *modset, cands []*cand, savedF, savedO int) {
	if len(cands) == 0 {
		return
	}
	var path []string
	for _, f := range x.stack {
		path = append(path, f.Name())
	}
	lkey := fmt.Sprintf("%s|%d|%s|%d|%d", x.root.Key, x.c.W, strings.Join(path, ">"), head.Index, len(st.pc))
	if h := x.sol.hints; h != nil {
		if on, ok := h.loop(lkey); ok {
			var sub []*cand
			for _, c := range cands {
				for _, l := range on {
					if c.label == l {
						sub = append(sub, c)
					}
				}
			}
			if len(sub) == len(on) {
				lt := x.light
				x.light = false
				x.houdini1(fr, st, head, body, entry, ms, sub, savedF, savedO)
				x.light = lt
				all := true
				for _, c := range sub {
					all = all && c.on
				}
				if all {
					h.recordLoop(lkey, on)
					return
				}
				for _, c := range cands {
					c.on = false
				}
			}
		}
	}
	x.houdini1(fr, st, head, body, entry, ms, cands, savedF, savedO)
	if h := x.sol.hints; h != nil {
		var on []string
		for _, c := range cands {
			if c.on {
				on = append(on, c.label)
			}
		}
		h.recordLoop(lkey, on)
	}
}

func (x *Exec) houdini1(fr *Frame, st *State, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []Value, ms *modset, cands []*cand, savedF, savedO int) {
	dbg := os.Getenv("GOVER_HOUDINI") != ""
	// entry check
	var wg sync.WaitGroup
	secs := x.invSecs
	if x.light {
		secs = -secs
	}
	nOb := 0
	prove := func(label string, as []*Term, goal *Term) func() bool {
		if goal == True {
			return func() bool { return true }
		}
		ob := &Oblig{Assume: as, Goal: goal, Label: label}
		qs := ob.queries()
		return func() bool {
			r := x.sol.proveQs(qs, secs)
			if d := os.Getenv("GOVER_HDUMP"); d != "" && r.Status != "unsat" {
				for i, q := range qs {
					n := fmt.Sprintf("%s/%s_%d", d, sanitize(ob.Label), i)
					os.WriteFile(n+".smt2", []byte(q.body+"(check-sat)\n"), 0o644)
					os.WriteFile(n+".g.smt2", []byte(q.ground+"(check-sat)\n"), 0o644)
					os.WriteFile(n+".g1.smt2", []byte(q.ground1+"(check-sat)\n"), 0o644)
					os.WriteFile(n+".i1.smt2", []byte(q.int1+"(check-sat)\n"), 0o644)
					os.WriteFile(n+".i3.smt2", []byte(q.int3+"(check-sat)\n"), 0o644)
				}
			}
			return r.Status == "unsat"
		}
	}
	x.hou++
	for _, c := range cands {
		g := c.eval(st, entry)
		p := prove("entry_"+c.label, st.terms(), g)
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.on = p()
		}()
	}
	wg.Wait()
	if dbg {
		for _, c := range cands {
			if c.on {
				fmt.Fprintf(os.Stderr, "  [entry ok] %s %s\n", c.label, c.src)
			} else if os.Getenv("GOVER_HOUDINI") == "2" {
				fmt.Fprintf(os.Stderr, "  [entry NO] %s %s\n", c.label, c.src)
			}
		}
	}
	x.mute++
	defer func() { x.mute-- }()
	for round := 0; ; round++ {
		anyOn := false
		for _, c := range cands {
			if c.on {
				anyOn = true
			}
		}
		if !anyOn {
			break
		}
		freshSeq, x.objSeq = savedF, savedO
		f, s, vals := x.headState(fr, st, head, entry, ms)
		for _, c := range cands {
			if c.on {
				s.assume(c.eval(s, vals))
			}
		}
		lr := x.runBody(f, s, head, body)
		drop := false
		var mu sync.Mutex
		var wg sync.WaitGroup
		bad := map[*cand]bool{}
		for _, c := range cands {
			if !c.on {
				continue
			}
			for _, be := range lr.backs {
				g := c.eval(be.st, be.vals)
				nOb++
				p := prove(fmt.Sprintf("back%d_%s", nOb, c.label), be.st.terms(), g)
				c := c
				wg.Add(1)
				go func() {
					defer wg.Done()
					if !p() {
						mu.Lock()
						bad[c] = true
						drop = true
						mu.Unlock()
					}
				}()
			}
		}
		wg.Wait()
		for c := range bad {
			c.on = false
			if dbg {
				fmt.Fprintf(os.Stderr, "  [dropped round %d] %s %s\n", round, c.label, c.src)
			}
		}
		if !drop {
			break
		}
	}
	if dbg {
		for _, c := range cands {
			if c.on {
				fmt.Fprintf(os.Stderr, "  [KEPT] %s %s at %s\n", c.label, c.src, x.blockPos(head))
			}
		}
	}
}

// source of a metavariable value.
type source struct {
	name  string
	t     types.Type
	phi   int // >=0
	v     Value
	plus  int64
	cell  bool // deref a cell pointer
	mapit bool
}

func (s source) get(st *State, vals []Value) SV {
	v := s.v
	if s.phi >= 0 {
		v = vals[s.phi]
	}
	if s.cell {
		v = st.heap[v.(*PtrV).Obj].Val
	}
	if s.plus != 0 {
		v = Add(v.(*Term), NumI(s.plus, v.(*Term).Sort.W))
	}
	return SV{v: v, t: s.t}
}

func typeMatches(pt string, t types.Type) bool {
	if pt == "" || t == nil {
		return pt == ""
	}
	q := func(p *types.Package) string { return p.Name() }
	s := types.TypeString(t, q)
	norm := func(s string) string {
		// strip type arguments
		for {
			i := strings.Index(s, "[")
			if i < 0 {
				break
			}
			if strings.HasPrefix(s[i:], "[]") {
				rest := norm2(s[i+2:])
				return s[:i] + "[]" + rest
			}
			break
		}
		return norm2(s)
	}
	pt = strings.ReplaceAll(pt, " ", "")
	if _, ok := t.Underlying().(*types.Map); ok && pt == "map" {
		return true
	}
	if norm(s) == pt {
		return true
	}
	if a, ok := t.Underlying().(*types.Array); ok && pt == "bytes" {
		w, _, ok := bvWidth(a.Elem())
		return ok && w == 8
	}
	// bare type parameter
	if _, ok := t.(*types.TypeParam); ok && pt == "T" {
		return true
	}
	if sl, ok := t.(*types.Slice); ok && strings.HasPrefix(pt, "[]") {
		return typeMatches(pt[2:], sl.Elem())
	}
	u := t.Underlying()
	if _, named := types.Unalias(t).(*types.Named); named {
		if b, ok := u.(*types.Basic); ok && b.Name() == pt {
			return true
		}
		if sl, ok := u.(*types.Slice); ok && strings.HasPrefix(pt, "[]") {
			return typeMatches(pt[2:], sl.Elem())
		}
	}
	return false
}

func norm2(s string) string {
	if i := strings.Index(s, "["); i > 0 {
		return s[:i]
	}
	return s
}

func (x *Exec) candidates(fr *Frame, st *State, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []Value, ms *modset) []*cand {
	if x.root == nil {
		return nil
	}
	var srcs []source
	seen := map[ssa.Value]bool{}
	for i := range entry {
		phi := head.Instrs[i].(*ssa.Phi)
		seen[phi] = true
		name := phi.Comment
		if name == "" {
			name = phi.Name()
		}
		srcs = append(srcs, source{name: name, t: phi.Type(), phi: i})
		if _, ok := entry[i].(*Term); ok {
			if _, _, isbv := bvWidth(phi.Type()); isbv {
				srcs = append(srcs, source{name: name + "+1", t: phi.Type(), phi: i, plus: 1})
			}
		}
	}
	addOuter := func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		val, ok := fr.env[v]
		if !ok {
			return
		}
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return
		}
		seen[v] = true
		srcs = append(srcs, source{name: v.Name(), t: v.Type(), phi: -1, v: val})
		if p, ok := val.(*PtrV); ok && p.Obj != 0 && len(p.Path) == 0 {
			o := st.heap[p.Obj]
			if pt, ok := v.Type().Underlying().(*types.Pointer); ok && o != nil && o.Kind == OBack && constN(o.N) > 0 {
				srcs = append(srcs, source{name: "*" + v.Name(), t: pt.Elem(), phi: -1, v: val})
			}
			if o := st.heap[p.Obj]; o != nil && o.Kind == OCell {
				if _, isStruct := o.Typ.Underlying().(*types.Struct); !isStruct {
					srcs = append(srcs, source{name: "*" + v.Name(), t: o.Typ, phi: -1, v: val, cell: true})
				}
			}
		}
	}
	for _, b := range fr.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				addOuter(*op)
			}
		}
	}
	for _, p := range fr.fn.Params {
		addOuter(p)
	}
	for _, p := range fr.fn.FreeVars {
		addOuter(p)
	}
	// values defined before the loop in this frame (dominating), not used inside
	for _, b := range fr.fn.Blocks {
		if body[b] || !b.Dominates(head) {
			continue
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				switch v.(type) {
				case *ssa.Alloc, *ssa.Call, *ssa.MakeSlice, *ssa.Extract, *ssa.Range, *ssa.Phi, *ssa.Slice, *ssa.UnOp:
					if _, ok := fr.env[v]; ok {
						addOuter(v)
					}
				}
			}
		}
	}
	// one name per value
	var uniq []source
	for _, a := range srcs {
		dup := false
		for _, b := range uniq {
			if a.phi < 0 && b.phi < 0 && a.cell == b.cell && a.name[0] != '*' && b.name[0] != '*' && types.Identical(a.t, b.t) && sameVal(a.v, b.v) {
				dup = true
				break
			}
		}
		if !dup {
			uniq = append(uniq, a)
		}
	}
	srcs = uniq
	// templates
	var out []*cand
	dedup := map[string]bool{}
	tmpls := append(append([]Template(nil), x.root.Invs...), x.specs.globalInvs...)
	for _, f := range x.stack {
		// templates of a helper that is verified as part of its caller
		k := fnKey(f)
		c := x.specs.dropped[k]
		if c == nil {
			c = x.specs.byKey[k]
		}
		if c != nil && c != x.root {
			tmpls = append(tmpls, c.Invs...)
		}
	}
	for _, t := range tmpls {
		t := t
		var rec func(i int, bind []source)
		rec = func(i int, bind []source) {
			if i == len(t.Params) {
				usesLoop := false
				var names []string
				for _, b := range bind {
					names = append(names, b.name)
					_ = usesLoop
				}
				lab := t.Label + "(" + strings.Join(names, ",") + ")"
				ev := func(s *State, vals []Value) *Term {
					env := map[string]SV{}
					preE := map[string]SV{}
					for k, v := range x.rootEnv {
						env[k] = v
					}
					for j, b := range bind {
						env[t.Params[j].Name] = b.get(s, vals)
						preE[t.Params[j].Name] = b.get(st, entry)
					}
					ec := &evalCtx{x: x, st: s, old: x.rootSt, pre: st, preE: preE, env: env}
					return ec.boolean(t.Expr)
				}
				// a candidate must evaluate; shape mismatches drop it
				var probe *Term
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, ok := r.(undecided); ok {
								if os.Getenv("GOVER_HOUDINI") == "2" {
									fmt.Fprintf(os.Stderr, "  [no eval] %s: %s\n", lab, u.msg)
								}
								return
							}
							panic(r)
						}
					}()
					probe = ev(st, entry)
				}()
				if probe == nil {
					return
				}
				key := lab + t.Src
				if dedup[key] {
					return
				}
				dedup[key] = true
				safe := func(s *State, vals []Value) (r *Term) {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(undecided); ok {
								r = False
								return
							}
							panic(e)
						}
					}()
					return ev(s, vals)
				}
				out = append(out, &cand{label: lab, src: t.Src, eval: safe})
				return
			}
			for _, s := range srcs {
				pt := t.Params[i].Type
				if rest, ok := strings.CutPrefix(pt, "~"); ok {
					pt = rest
					if s.phi < 0 && !s.cell || s.phi >= 0 && ms.phi[s.phi] == 0 {
						continue
					}
				}
				if pt == "mapiter" {
					if _, ok := s.v.(*MapIterV); !ok || s.phi >= 0 {
						continue
					}
				} else {
					if _, ok := s.v.(*MapIterV); ok {
						continue
					}
					if !typeMatches(pt, s.t) {
						continue
					}
					if s.plus != 0 && (pt != "int" && pt != "uint64" && pt != "uint" && pt != "uint8") {
						continue
					}
				}
				dupl := false
				for _, b := range bind {
					if b.name == s.name {
						dupl = true
					}
				}
				if dupl {
					continue
				}
				rec(i+1, append(append([]source(nil), bind...), s))
			}
		}
		rec(0, nil)
	}
	// automatic range facts: loop counters bounded by what they are compared with
	out = append(out, x.autoCands(fr, head, body, entry, ms)...)
	if os.Getenv("GOVER_HOUDINI") != "" {
		fmt.Fprintf(os.Stderr, "loop %s: %d candidates, %d sources\n", x.blockPos(head), len(out), len(srcs))
	}
	if len(out) > 400 {
		out = out[:400]
	}
	return out
}

// autoCands: phi compared with a loop-invariant bound B in the header gives
// candidates phi<=B, phi+1<=B, phi<B; counters never go below their start.
func (x *Exec) autoCands(fr *Frame, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []Value, ms *modset) []*cand {
	var out []*cand
	phiIdx := map[ssa.Value]int{}
	for i := range entry {
		phiIdx[head.Instrs[i].(*ssa.Phi)] = i
	}
	add := func(lab string, ev func(st *State, vals []Value) *Term) {
		out = append(out, &cand{label: lab, src: "auto", eval: ev})
	}
	for i := range entry {
		i := i
		phi := head.Instrs[i].(*ssa.Phi)
		w, signed, ok := bvWidth(phi.Type())
		if !ok || ms.phi[i] == 0 {
			continue
		}
		et, ok := entry[i].(*Term)
		if !ok {
			continue
		}
		add("auto-lower("+phi.Comment+")", func(st *State, vals []Value) *Term {
			if signed {
				return Sle(et, vals[i].(*Term))
			}
			return Ule(et, vals[i].(*Term))
		})
		// bounds from comparisons
		for _, ref := range fr.fn.Blocks {
			if !body[ref] {
				continue
			}
			for _, in := range ref.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				var other ssa.Value
				if bo.X == ssa.Value(phi) || isInc(bo.X, phi) {
					other = bo.Y
				} else if bo.Y == ssa.Value(phi) || isInc(bo.Y, phi) {
					other = bo.X
				} else {
					continue
				}
				switch bo.Op.String() {
				case "<", "<=", ">", ">=", "!=", "==":
				default:
					continue
				}
				var bt *Term
				if c, ok := other.(*ssa.Const); ok {
					bt, _ = x.constVal(c).(*Term)
				} else if v, ok := fr.env[other]; ok {
					if oi, isI := other.(ssa.Instruction); isI && body[oi.Block()] {
						continue
					}
					bt, _ = v.(*Term)
				}
				if bt == nil || bt.Sort.W != w {
					continue
				}
				b := bt
				le := func(p, q *Term) *Term {
					if signed {
						return Sle(p, q)
					}
					return Ule(p, q)
				}
				add("auto-le("+phi.Comment+")", func(st *State, vals []Value) *Term { return le(vals[i].(*Term), b) })
				if signed {
					add("auto-lt("+phi.Comment+")", func(st *State, vals []Value) *Term { return Slt(vals[i].(*Term), b) })
				}
			}
		}
	}
	// nil-ness and lengths of loop slices: len >= entry len
	return out
}

func isInc(v ssa.Value, phi ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op.String() == "+" && b.X == phi
}

var _ = ast.NewIdent
