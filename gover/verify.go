package main

// Verifying a function against its contract; using a contract at a call.

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func NewExec(c *Ctx, specs *SpecSet, sol *Solver) *Exec {
	seq := 0
	if globalsMemo != nil {
		seq = globalsMemo.seq
	}
	return &Exec{objSeq: seq, c: c, specs: specs, sol: sol, used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, globals: map[*ssa.Global]int{}, phiShape: map[*ssa.Phi]Value{}, invSecs: 8, light: true, obls: nil}
}

// paramNames maps contract parameter names by position (receiver first).
func bindParams(ct *Contract, fn *ssa.Function, args []Value) map[string]SV {
	env := map[string]SV{}
	sig := fn.Signature
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) != len(ct.Params) {
		undec("%s: contract has %d parameters, function has %d", ct.Key, len(ct.Params), len(ts))
	}
	for i, n := range ct.Params {
		env[n] = SV{v: args[i], t: ts[i]}
	}
	return env
}

func bindResults(ct *Contract, fn *ssa.Function, env map[string]SV, res []Value) map[string]SV {
	out := map[string]SV{}
	for k, v := range env {
		out[k] = v
	}
	rs := fn.Signature.Results()
	if len(ct.Results) != rs.Len() {
		undec("%s: contract has %d results, function has %d", ct.Key, len(ct.Results), rs.Len())
	}
	for i, n := range ct.Results {
		out[n] = SV{v: res[i], t: rs.At(i).Type()}
	}
	return out
}

// place is something a modifies clause allows to change.
type places struct {
	objs  map[int]bool            // whole object
	cells map[int]map[string]bool // cell leaf-path prefixes
	ghost map[int]bool            // ghost fields of a cell
	ext   map[string]bool         // slices in cells that keep their backing array
}

func (x *Exec) modPlaces(ct *Contract, env map[string]SV, st *State) *places {
	p := &places{map[int]bool{}, map[int]map[string]bool{}, map[int]bool{}, nil}
	for _, m := range ct.Modifies {
		x.addPlace(p, m, env, st)
	}
	return p
}

func (x *Exec) addPlace(p *places, m Clause, env map[string]SV, st *State) {
	src := m.Src
	ec := &evalCtx{x: x, st: st, env: env}
	if c, ok := m.Expr.(*ast.CallExpr); ok && exprStr(c.Fun) == "ghosts" {
		if q, ok := ec.eval(c.Args[0]).v.(*PtrV); ok && q.Obj != 0 {
			p.ghost[q.Obj] = true
		}
		return
	}
	if c, ok := m.Expr.(*ast.CallExpr); ok && (exprStr(c.Fun) == "elems" || exprStr(c.Fun) == "extends") {
		// elems(s): what the slice holds; extends(s): also its length, in place
		sl := ec.eval(c.Args[0]).v.(*SliceV)
		if sl.Obj != 0 {
			p.objs[sl.Obj] = true
		}
		if exprStr(c.Fun) == "extends" {
			q := &places{map[int]bool{}, map[int]map[string]bool{}, map[int]bool{}, nil}
			x.addPlace(q, Clause{Expr: c.Args[0], Src: exprStr(c.Args[0])}, env, st)
			for id, m := range q.cells {
				if p.cells[id] == nil {
					p.cells[id] = map[string]bool{}
				}
				for k := range m {
					p.cells[id][k] = true
					if p.ext == nil {
						p.ext = map[string]bool{}
					}
					p.ext[fmt.Sprint(id, k)] = true
				}
			}
		}
		return
	}
	v := ec.eval(m.Expr)
	// the cell holding it, if the expression is a field selection
	if i := strings.LastIndex(src, "."); i > 0 {
		base := ec.eval(mustParse(src[:i]))
		bv, bt := base.v, base.t
		if iv, ok := bv.(*IfaceV); ok {
			bv, bt = iv.Val, x.c.closedDyn(bt)
		}
		if bp, ok := bv.(*PtrV); ok && bp.Obj != 0 {
			stt := bt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			for k := 0; k < stt.NumFields(); k++ {
				if stt.Field(k).Name() == src[i+1:] {
					if _, isMap := v.v.(*MapV); !isMap {
						if p.cells[bp.Obj] == nil {
							p.cells[bp.Obj] = map[string]bool{}
						}
						p.cells[bp.Obj][fmt.Sprintf(".%d", k)] = true
					}
				}
			}
		}
	}
	switch t := v.v.(type) {
	case *MapV:
		p.objs[t.Obj] = true
	case *SliceV:
		if t.Obj != 0 {
			p.objs[t.Obj] = true
		}
	case *PtrV:
		if len(t.Path) == 0 {
			p.objs[t.Obj] = true
		}
	case *IfaceV:
		if q, ok := t.Val.(*PtrV); ok {
			p.objs[q.Obj] = true
		}
	}
}

// reaches: id belongs to an object that modifies lists as a whole.
func (p *places) reaches(st *State, id int) bool {
	for o := range p.objs {
		if ob := st.heap[o]; ob != nil && ob.Kind == OCell {
			var l []int
			collectObjs(st, ob.Val, &l, map[int]bool{})
			for _, k := range l {
				if k == id {
					return true
				}
			}
		}
	}
	return false
}

func rootIdent(s string) string {
	i := strings.IndexAny(s, ".([")
	if i < 0 {
		return s
	}
	return s[:i]
}

func mustParse(s string) (e astExpr) {
	ex, err := parseE(s)
	if err != nil {
		undec("%v", err)
	}
	return ex
}

func (p *places) allowsCell(id int, path string) bool {
	if p.objs[id] {
		return true
	}
	for pre := range p.cells[id] {
		if path == pre || strings.HasPrefix(path, pre+".") {
			return true
		}
	}
	return false
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(st *State, ct *Contract, fn *ssa.Function, args []Value, site ssa.Instruction) []Outcome {
	if x.mute == 0 {
		x.used[ct.Key] = true
	}
	env := bindParams(ct, fn, args)
	short := ct.Key[strings.LastIndex(ct.Key, "/")+1:]
	ec := &evalCtx{x: x, st: st, env: env, old: st}
	for _, c := range ct.Points {
		p := ec.elemPtr(c.Expr)
		q, ok := env[c.Label].v.(*PtrV)
		if ok && q.Obj == 0 {
			p.Nil = True
			env[c.Label] = SV{v: p, t: env[c.Label].t}
			continue
		}
		if !ok || q.Obj != p.Obj || len(q.Path) != 1 || q.Path[0].Idx == nil {
			undec("%s: argument %s does not point to %s", short, c.Label, c.Src)
		}
		x.oblige(st, "pre:"+short+"#"+c.Label, Or(q.Nil, Eq(q.Path[0].Idx, p.Path[0].Idx)), "argument "+c.Src+" at "+x.where(site))
	}
	for i, r := range ct.Requires {
		if r.Local {
			x.trusted["taken for granted by "+ct.Key+": "+r.Src] = true
			continue
		}
		l := r.Label
		if l == "" {
			l = fmt.Sprint(i)
		}
		x.oblige(st, "pre:"+short+"#"+l, ec.boolean(r.Expr), "precondition of "+short+" at "+x.where(site)+": "+r.Src)
	}
	if ct == x.root {
		if ct.Decr == nil {
			undec("%s calls itself and has no decreases clause", ct.Key)
		}
		m0 := (&evalCtx{x: x, st: x.rootSt, env: x.rootEnv}).eval(ct.Decr.Expr).v.(*Term)
		x.oblige(st, "decreases", Ult(ec.eval(ct.Decr.Expr).v.(*Term), m0), "the recursive call at "+x.where(site)+" makes "+ct.Decr.Src+" smaller")
	}
	old := st.clone()
	if ct.Acquires != "" {
		lp := ec.eval(ct.AcqExpr).v.(*PtrV)
		l := st.heap[lp.Obj]
		x.oblige(st, "lock", Bool(l.Mode == 0), short+" called at "+x.where(site)+" while this goroutine holds the lock it acquires")
		st.crit++
	}
	if ct.Holds != "" {
		lp := ec.eval(ct.HoldExpr).v.(*PtrV)
		l := st.heap[lp.Obj]
		x.oblige(st, "lock", Bool(l.Mode >= map[string]int{"R": 1, "W": 2}[ct.Holds]), short+" called at "+x.where(site)+" without the lock it needs")
	}
	// havoc
	pl := x.modPlaces(ct, env, st)
	var ids []int
	for id := range pl.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		if o == nil {
			continue
		}
		switch o.Kind {
		case OBack, OMap:
			x.havocObj(st, id, short)
		case OCell:
			x.havocCell(st, id, short)
		}
	}
	var cids []int
	for id := range pl.cells {
		cids = append(cids, id)
	}
	sort.Ints(cids)
	for _, id := range cids {
		o := st.heap[id].clone()
		var ps []string
		for p := range pl.cells[id] {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			t := typeAtPath(o.Typ, p)
			if pl.ext[fmt.Sprint(id, p)] {
				s := *valAtPath(o.Val, p).(*SliceV)
				s.Len = Fresh(short+p+".len", BVS(64))
				st.assume(Ule(s.Len, s.Cap))
				if s.Nil != False {
					s.Nil = Fresh(short+p+".nil", BoolS)
					st.assume(Implies(s.Nil, Eq(s.Len, NumI(0, 64))))
				}
				o.Val = setAtPath(o.Val, splitPath(p), &s)
				continue
			}
			o.Val = setAtPath(o.Val, splitPath(p), x.fresh(st, short+p, t))
		}
		st.heap[id] = o
	}
	// ghost fields the callee redefines
	for id := range pl.ghost {
		o := st.heap[id].clone()
		o.Ghost = x.freshGhosts(short, o.Typ)
		st.heap[id] = o
	}
	for _, c := range ct.Witness {
		i := strings.LastIndex(c.Label, ".")
		if _, ok := env[rootIdent(c.Label)]; !ok {
			continue // of a result
		}
		p, ok := (&evalCtx{x: x, st: st, env: env}).eval(mustParse(c.Label[:i])).v.(*PtrV)
		if !ok || p.Obj == 0 {
			continue
		}
		o := st.heap[p.Obj].clone()
		f := x.freshGhosts(short, o.Typ)
		g := map[string]Value{}
		for k, v := range o.Ghost {
			g[k] = v
		}
		g[c.Label[i+1:]] = f[c.Label[i+1:]]
		o.Ghost = g
		st.heap[p.Obj] = o
	}
	var res []Value
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		v := x.fresh(st, short+"."+ct.Results[i], rs.At(i).Type())
		markFresh(st, v)
		x.addGhosts(st, map[int]bool{}, v, short+"."+ct.Results[i])
		res = append(res, v)
	}
	for p := range ct.Consumes {
		if s, ok := env[p].v.(*SliceV); ok && s.Obj != 0 {
			o := st.heap[s.Obj].clone()
			o.Poison = true
			st.heap[s.Obj] = o
		}
	}
	env2 := bindResults(ct, fn, env, res)
	ec2 := &evalCtx{x: x, st: st, env: env2, old: old}
	// ghost fields of modified cells
	x.assuming = true // see deepEq
	for _, e := range ct.Ensures {
		if e.Local {
			continue
		}
		st.assume(ec2.boolean(e.Expr))
	}
	x.assuming = false
	if !x.feasible(st, True) {
		return nil
	}
	return []Outcome{{st, res}}
}

func markFresh(st *State, v Value) {
	switch v := v.(type) {
	case *SliceV:
		if o := st.heap[v.Obj]; o != nil {
			c := o.clone()
			c.Fresh = true
			st.heap[v.Obj] = c
		}
	case *PtrV:
		if o := st.heap[v.Obj]; o != nil && o.Kind == OCell {
			c := o.clone()
			c.Fresh = true
			st.heap[v.Obj] = c
			markFresh(st, c.Val)
		}
	case *StructV:
		for _, f := range v.F {
			markFresh(st, f)
		}
	case *MapV:
		if o := st.heap[v.Obj]; o != nil {
			c := o.clone()
			c.Fresh = true
			st.heap[v.Obj] = c
		}
	}
}

// havocCell replaces the contents of a cell (deeply, keeping locks).
func (x *Exec) havocCell(st *State, id int, base string) {
	o := st.heap[id].clone()
	if s, ok := o.Val.(*StructV); ok {
		stt := o.Typ.Underlying().(*types.Struct)
		n := &StructV{}
		for i := range s.F {
			switch f := s.F[i].(type) {
			case *PtrV:
				n.F = append(n.F, f)
				if oo := st.heap[f.Obj]; oo != nil && oo.Kind == OCell {
					x.havocCell(st, f.Obj, base)
				}
			case *MapV:
				n.F = append(n.F, f)
				if f.Obj != 0 {
					x.havocObj(st, f.Obj, base)
				}
			default:
				n.F = append(n.F, x.fresh(st, base+"."+stt.Field(i).Name(), stt.Field(i).Type()))
			}
		}
		o.Val = n
	} else {
		o.Val = x.fresh(st, base, o.Typ)
	}
	if o.Ghost != nil {
		o.Ghost = x.freshGhosts(base, o.Typ)
	}
	st.heap[id] = o
}

// addGhosts attaches ghost fields to every cell reachable from v.
func (x *Exec) addGhosts(st *State, seen map[int]bool, v Value, base string) {
	switch v := v.(type) {
	case *PtrV:
		if v.Obj == 0 || seen[v.Obj] {
			return
		}
		seen[v.Obj] = true
		o := st.heap[v.Obj]
		if o == nil || o.Kind != OCell {
			return
		}
		if g := x.freshGhosts(base, o.Typ); g != nil && o.Ghost == nil {
			c := o.clone()
			c.Ghost = g
			st.heap[v.Obj] = c
		}
		x.addGhosts(st, seen, o.Val, base)
	case *StructV:
		for _, f := range v.F {
			x.addGhosts(st, seen, f, base)
		}
	case *IfaceV:
		x.addGhosts(st, seen, v.Val, base)
	}
}

// setGuards marks objects reachable through guarded fields.
func (x *Exec) setGuards(st *State, v Value) {
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		if iv, ok := v.(*IfaceV); ok {
			x.setGuards(st, iv.Val)
		}
		return
	}
	o := st.heap[p.Obj]
	if o == nil || o.Kind != OCell {
		return
	}
	s, ok := o.Val.(*StructV)
	if !ok {
		return
	}
	n := namedOf(o.Typ)
	lock := 0
	for _, f := range s.F {
		if q, ok := f.(*PtrV); ok {
			if l := st.heap[q.Obj]; l != nil && l.Kind == OLock {
				lock = q.Obj
			}
		}
	}
	for i, f := range s.F {
		if n != nil && lock != 0 && x.specs.guardedField(n.Obj().Name(), o.Typ.Underlying().(*types.Struct).Field(i).Name()) {
			x.guardAll(st, f, lock, map[int]bool{})
		} else {
			x.setGuards(st, f)
		}
	}
}

func (x *Exec) guardAll(st *State, v Value, lock int, seen map[int]bool) {
	mark := func(id int) *Obj {
		if id == 0 || seen[id] {
			return nil
		}
		seen[id] = true
		o := st.heap[id]
		if o == nil || o.Kind == OLock {
			return nil
		}
		c := o.clone()
		c.Guard = lock
		st.heap[id] = c
		return c
	}
	switch v := v.(type) {
	case *PtrV:
		if o := mark(v.Obj); o != nil {
			x.guardAll(st, o.Val, lock, seen)
		}
	case *MapV:
		mark(v.Obj)
	case *SliceV:
		mark(v.Obj)
	case *StructV:
		for _, f := range v.F {
			x.guardAll(st, f, lock, seen)
		}
	}
}

type FnResult struct {
	Key       string
	W         int
	Obls      []*Oblig
	Used      []string
	Inlined   []string
	Trusted   []string
	Paths     int
	Exits     int
	Undecided string
	Missing   bool
	Queries   int
	SolverMs  int64
	Loops     int
}

// Verify checks one contract.
func (x *Exec) Verify(ct *Contract, fn *ssa.Function, secs float64) (res *FnResult) {
	res = &FnResult{Key: ct.Key, W: x.c.W}
	x.root = ct
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			res.Undecided = u.msg
			var st []string
			for _, f := range x.stack {
				st = append(st, f.Name())
			}
			if len(st) > 0 {
				res.Undecided += " [in " + strings.Join(st, ">") + "]"
			}
		}
		res.Obls = x.obls
		res.Used = keys(x.used)
		res.Inlined = keys(x.inlined)
		res.Trusted = keys(x.trusted)
		res.Paths = x.paths
		res.Loops = x.loops
		res.Queries = x.sol.Queries
		res.SolverMs = x.sol.SolverMs
	}()
	st := &State{heap: map[int]*Obj{}}
	x.initGlobals(st)
	var args []Value
	sig := fn.Signature
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(ts) != len(ct.Params) {
		undec("%s: contract has %d parameters, function has %d", ct.Key, len(ct.Params), len(ts))
	}
	for i, t := range ts {
		v := x.fresh(st, ct.Params[i], t)
		if p, ok := v.(*PtrV); ok && i > 0 {
			p.Nil = Fresh(ct.Params[i]+".nil", BoolS)
		}
		args = append(args, v)
	}
	seen := map[int]bool{}
	for i, a := range args {
		x.addGhosts(st, seen, a, ct.Params[i])
	}
	for _, a := range args {
		x.setGuards(st, a)
	}
	env := bindParams(ct, fn, args)
	for _, c := range ct.Points {
		p := (&evalCtx{x: x, st: st, env: env}).elemPtr(c.Expr)
		p.Nil = Fresh(c.Label+".nil", BoolS)
		for i, n := range ct.Params {
			if n == c.Label {
				args[i] = p
			}
		}
		env[c.Label] = SV{v: p, t: env[c.Label].t}
	}
	ec := &evalCtx{x: x, st: st, env: env}
	for _, r := range ct.Axioms {
		st.assume(ec.boolean(r.Expr))
		x.trusted["definition "+ct.Key+"#"+r.Label+": "+r.Src] = true
	}
	x.assuming = true // see deepEq
	for _, r := range ct.Requires {
		st.assume(ec.boolean(r.Expr))
		if r.Local {
			x.trusted["taken for granted by "+ct.Key+": "+r.Src] = true
		}
	}
	x.assuming = false
	if ct.Holds != "" {
		lp := ec.eval(ct.HoldExpr).v.(*PtrV)
		l := st.heap[lp.Obj].clone()
		l.Mode = map[string]int{"R": 1, "W": 2}[ct.Holds]
		st.heap[lp.Obj] = l
	}
	x.rootSt = st.clone()
	x.rootEnv = env
	entryTerms := st.terms()
	var outs []Outcome
	if secs <= 0 {
		secs = 30
	}
	outs = x.inline(st, fn, args, nil)
	res.Exits = len(outs)
	if len(outs) == 0 {
		x.obls = append(x.obls, &Oblig{Label: "vacuity", Goal: False, Status: "failed", Msg: "no path reaches a return"})
	}
	if smoke {
		x.smokeTest(outs)
	}
	for _, o := range outs {
		x.checkExit(ct, fn, env, o)
	}
	if x.locks {
		var keep []*Oblig
		for _, o := range x.obls {
			if lockLabel[o.Label] {
				keep = append(keep, o)
			}
		}
		x.obls = keep
		x.sol.dischargeAll(x.obls, secs)
		return res
	}
	// vacuity: the precondition must not be contradictory, and some exit must
	// be reachable
	vac := &Oblig{Label: "vacuity", Goal: False, Assume: entryTerms}
	vq := vac.queries()
	if r := x.sol.refute(vq[0].body, vq[0].quant); r.Status == "unsat" {
		x.obls = append(x.obls, &Oblig{Label: "vacuity", Goal: False, Status: "failed", Msg: "the precondition is contradictory"})
	} else {
		reach := false
		for _, o := range outs {
			v := &Oblig{Label: "vacuity", Goal: False, Assume: o.st.terms()}
			vq := v.queries()
			if r := x.sol.refute(vq[0].body, vq[0].quant); r.Status != "unsat" {
				reach = true
				break
			}
		}
		if !reach && len(outs) > 0 {
			x.obls = append(x.obls, &Oblig{Label: "vacuity", Goal: False, Status: "failed", Msg: "no return is reachable under the precondition"})
		} else if len(outs) > 0 {
			x.obls = append(x.obls, &Oblig{Label: "vacuity", Goal: True, Status: "proved", Solver: "reachability check", Msg: "precondition satisfiable and some return reachable (not refuted)"})
		}
	}
	x.sol.dischargeAll(x.obls, secs)
	return res
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) checkExit(ct *Contract, fn *ssa.Function, env map[string]SV, o Outcome) {
	st := o.st
	x.stack = nil
	env2 := bindResults(ct, fn, env, o.res)
	x.applyWitness(ct, env2, st)
	ec := &evalCtx{x: x, st: st, env: env2, old: x.rootSt}
	for i, a := range ct.Asserts {
		l := a.Label
		if l == "" {
			l = fmt.Sprintf("assert%d", i)
		}
		x.oblige(st, l, ec.boolean(a.Expr), a.Src)
	}
	base := len(st.pc)
	for _, e := range ct.Ensures {
		x.oblige(st, e.Label, ec.boolean(e.Expr), e.Src)
		st.pc = st.pc[:base] // independent of each other
	}
	// locks are released
	for id, l := range st.heap {
		if l.Kind == OLock {
			want := 0
			if e := x.rootSt.heap[id]; e != nil {
				want = e.Mode
			}
			if l.Mode != want {
				x.oblige(st, "lock", False, "returns with the lock in a different state than at entry")
				st.pc = st.pc[:base]
			}
		}
	}
	if ct.Acquires != "" {
		x.obls = append(x.obls, boolObl("atomic", st.crit <= 1, "the operation uses one critical section"))
	}
	// ghost fields change only where a witness or a modified object says so
	wit := map[int]map[string]bool{}
	for _, c := range ct.Witness {
		i := strings.LastIndex(c.Label, ".")
		if _, ok := env[rootIdent(c.Label)]; !ok {
			continue
		}
		if p, ok := (&evalCtx{x: x, st: x.rootSt, env: env}).eval(mustParse(c.Label[:i])).v.(*PtrV); ok {
			if wit[p.Obj] == nil {
				wit[p.Obj] = map[string]bool{}
			}
			wit[p.Obj][c.Label[i+1:]] = true
		}
	}
	gpl := x.modPlaces(ct, env, x.rootSt)
	for id, a := range x.rootSt.heap {
		b := st.heap[id]
		if b == nil || gpl.objs[id] {
			continue
		}
		for n, v := range a.Ghost {
			if !sameVal(v, b.Ghost[n]) && !wit[id][n] && !gpl.ghost[id] && !gpl.reaches(x.rootSt, id) {
				x.obls = append(x.obls, boolObl("frame", false, "ghost "+n+" of "+a.Name+" is changed but not in modifies"))
			}
		}
	}
	// frame
	pl := x.modPlaces(ct, env, x.rootSt)
	for id, ps := range pl.cells {
		for p := range ps {
			if pl.ext[fmt.Sprint(id, p)] {
				a, ok1 := valAtPath(x.rootSt.heap[id].Val, p).(*SliceV)
				b, ok2 := valAtPath(st.heap[id].Val, p).(*SliceV)
				if !ok1 || !ok2 || a.Obj != b.Obj {
					x.oblige(st, "frame", False, "the slice moves to another array")
				} else {
					x.oblige(st, "frame", And(Eq(a.Off, b.Off), Eq(a.Cap, b.Cap)), "the slice moves within its array")
				}
				st.pc = st.pc[:base]
			}
		}
	}
	var ids []int
	for id := range x.rootSt.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		a, b := x.rootSt.heap[id], st.heap[id]
		if sameObj(a, b) || pl.objs[id] {
			continue
		}
		switch a.Kind {
		case OCell:
			if b.Kind != OCell {
				continue
			}
			var ds []cellDiff
			diffVal(a.Val, b.Val, "", &ds)
			for _, d := range ds {
				if pl.allowsCell(id, d.path) {
					continue
				}
				va, vb := valAtPath(a.Val, d.path), valAtPath(b.Val, d.path)
				g := False
				if ta, ok := va.(*Term); ok {
					if tb, ok := vb.(*Term); ok && ta.Sort == tb.Sort {
						g = Eq(ta, tb)
					}
				}
				x.oblige(st, "frame", g, fmt.Sprintf("%s%s is changed but not in modifies", a.Name, d.path))
				st.pc = st.pc[:base]
			}
		case OBack, OMap:
			g := True
			for i := range a.Leaves {
				g = And(g, Eq(a.Leaves[i], b.Leaves[i]))
			}
			if a.Kind == OMap {
				g = And(g, Eq(a.Pres, b.Pres))
			}
			if g != True {
				x.oblige(st, "frame", g, fmt.Sprintf("%s is changed but not in modifies", a.Name))
				st.pc = st.pc[:base]
			}
		}
	}
	x.obls = append(x.obls, boolObl("frame", true, "frame checked at return"))
	x.checkRetained(st, ids)
	// results must be fresh and not reachable from pre-existing objects
	if !ct.Aliases {
		var rids []int
		for _, r := range o.res {
			collectObjs(st, r, &rids, map[int]bool{})
		}
		pre := map[int]bool{}
		for _, id := range ids {
			pre[id] = true
		}
		reach := map[int]bool{}
		for _, id := range ids {
			if ob := st.heap[id]; ob != nil && ob.Kind == OCell {
				var l []int
				collectObjs(st, ob.Val, &l, map[int]bool{})
				for _, k := range l {
					reach[k] = true
				}
			}
		}
		for _, id := range rids {
			if pre[id] || reach[id] {
				x.obls = append(x.obls, boolObl("fresh", false, "a result shares memory with "+st.heap[id].Name))
			}
			for s := st.heap[id].Shared; s != 0; {
				if pre[s] {
					x.obls = append(x.obls, boolObl("fresh", false, "a result may share memory with "+st.heap[s].Name))
				}
				if st.heap[s] == nil {
					break
				}
				s = st.heap[s].Shared
			}
		}
	}
}

// checkRetained: what a call stores into a place that its caller can see is
// what was there before or memory of its own, and no two such places share
// memory (a caller assumes as much of the places a call may modify).
func (x *Exec) checkRetained(st *State, ids []int) {
	pre := map[int]bool{}
	for _, id := range ids {
		pre[id] = true
	}
	was := map[int]map[int]bool{} // pre-existing cell -> what it pointed to
	owner := map[int]int{}
	for _, id := range ids {
		a, b := x.rootSt.heap[id], st.heap[id]
		if a.Kind != OCell || b == nil || b.Kind != OCell {
			continue
		}
		was[id] = map[int]bool{}
		for _, k := range directObjs(a.Val) {
			was[id][k] = true
		}
	}
	changed := map[int]bool{}
	for _, id := range ids {
		a, b := x.rootSt.heap[id], st.heap[id]
		if a.Kind != OCell || b == nil || b.Kind != OCell {
			continue
		}
		for _, k := range directObjs(b.Val) {
			if !was[id][k] {
				changed[id] = true
				if pre[k] {
					x.obls = append(x.obls, boolObl("fresh", false, a.Name+" is made to share memory with "+st.heap[k].Name))
				}
				for s := st.heap[k].Shared; s != 0; s = st.heap[s].Shared {
					if pre[s] && !was[id][s] {
						x.obls = append(x.obls, boolObl("fresh", false, a.Name+" may be made to share memory with "+st.heap[s].Name))
					}
					if st.heap[s] == nil {
						break
					}
				}
			}
		}
	}
	for _, id := range ids {
		b := st.heap[id]
		if b == nil || b.Kind != OCell {
			continue
		}
		for _, k := range directObjs(b.Val) {
			if o, ok := owner[k]; ok && (changed[id] || changed[o]) {
				x.obls = append(x.obls, boolObl("fresh", false, b.Name+" and "+st.heap[o].Name+" are made to share memory"))
			}
			owner[k] = id
		}
	}
	x.obls = append(x.obls, boolObl("fresh", true, "no sharing is introduced"))
}

// directObjs lists the memory a value refers to, once per reference.
func directObjs(v Value) (out []int) {
	switch v := v.(type) {
	case *PtrV:
		if v.Obj > 0 {
			out = append(out, v.Obj)
		}
	case *SliceV:
		if v.Obj > 0 {
			out = append(out, v.Obj)
		}
	case *MapV:
		if v.Obj > 0 {
			out = append(out, v.Obj)
		}
	case *StructV:
		for _, f := range v.F {
			out = append(out, directObjs(f)...)
		}
	case *IfaceV:
		out = append(out, directObjs(v.Val)...)
	}
	return out
}

func boolObl(label string, ok bool, msg string) *Oblig {
	if ok {
		return &Oblig{Label: label, Goal: True, Status: "proved", Solver: "symbolic execution", Msg: msg}
	}
	return &Oblig{Label: label, Goal: False, Status: "failed", Solver: "symbolic execution", Msg: msg}
}

func collectObjs(st *State, v Value, out *[]int, seen map[int]bool) {
	add := func(id int) bool {
		if id == 0 || seen[id] {
			return false
		}
		seen[id] = true
		if o := st.heap[id]; o != nil && o.Kind != OLock {
			*out = append(*out, id)
			return true
		}
		return false
	}
	switch v := v.(type) {
	case *PtrV:
		if add(v.Obj) {
			collectObjs(st, st.heap[v.Obj].Val, out, seen)
		}
	case *SliceV:
		add(v.Obj)
	case *MapV:
		add(v.Obj)
	case *StructV:
		for _, f := range v.F {
			collectObjs(st, f, out, seen)
		}
	case *IfaceV:
		collectObjs(st, v.Val, out, seen)
	case TupleV:
		for _, f := range v {
			collectObjs(st, f, out, seen)
		}
	}
}

// elemPtr is the address of a slice element s[i].
func (e *evalCtx) elemPtr(ex ast.Expr) *PtrV {
	ix, ok := ex.(*ast.IndexExpr)
	if !ok {
		undec("points: not an element")
	}
	s := e.eval(ix.X).v.(*SliceV)
	i := e.concrete(e.eval(ix.Index), tU64).v.(*Term)
	return &PtrV{Nil: False, Obj: s.Obj, Path: []PE{{Idx: Add(s.Off, i)}}}
}

// applyWitness sets ghost fields at exit.
func (x *Exec) applyWitness(ct *Contract, env map[string]SV, st *State) {
	if len(ct.Witness) == 0 {
		return
	}
	old := x.rootSt
	ec := &evalCtx{x: x, st: st, env: env, old: old, wit: true}
	type w struct {
		obj  int
		name string
		v    Value
	}
	var ws []w
	for _, c := range ct.Witness {
		// label: target like r.P
		i := strings.LastIndex(c.Label, ".")
		base := ec.eval(mustParse(c.Label[:i]))
		p := base.v.(*PtrV)
		ws = append(ws, w{p.Obj, c.Label[i+1:], ec.eval(c.Expr).v})
	}
	for _, u := range ws {
		o := st.heap[u.obj].clone()
		g := map[string]Value{}
		for k, v := range o.Ghost {
			g[k] = v
		}
		g[u.name] = u.v
		o.Ghost = g
		st.heap[u.obj] = o
	}
}

// smoke: a development aid that lists code no path of the proof reaches.
var smoke = os.Getenv("GOVER_SMOKE") != ""

func (x *Exec) smokeTest(outs []Outcome) {
	fns := map[*ssa.Function]bool{}
	for b := range x.visited {
		fns[b.Parent()] = true
	}
	for f := range fns {
		for _, b := range f.Blocks {
			if x.visited[b] || b == f.Recover {
				continue
			}
			pan := false
			var at ssa.Instruction
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok {
					pan = true
				}
				if at == nil && in.Pos().IsValid() {
					at = in
				}
			}
			if !pan {
				fmt.Fprintf(os.Stderr, "   UNREACHED %s block %d (%s) %s\n", f.Name(), b.Index, b.Comment, x.where(at))
			}
		}
	}
	for i, o := range outs {
		v := &Oblig{Label: "smoke", Goal: False, Assume: o.st.terms()}
		if r := x.sol.proveQs(v.queries(), 5); r.Status == "unsat" {
			fmt.Fprintf(os.Stderr, "   DEAD exit %d of %d\n", i, len(outs))
			if os.Getenv("GOVER_SMOKE") == "2" {
				as := v.Assume
				for n := len(as) / 2; n >= 1; n /= 2 {
					for j := 0; j < len(as); {
						k := j + n
						if k > len(as) {
							k = len(as)
						}
						rest := append(append([]*Term{}, as[:j]...), as[k:]...)
						w := &Oblig{Label: "smoke", Goal: False, Assume: rest}
						if r := x.sol.proveQs(w.queries(), 5); r.Status == "unsat" {
							as = rest
						} else {
							j = k
						}
					}
				}
				for _, a := range as {
					fmt.Fprintf(os.Stderr, "     CORE %s\n", a)
				}
			}
		}
	}
}
