package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type astExpr = ast.Expr

type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	fns  map[string]*ssa.Function
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./pkg/...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	out := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{}}
	for _, p := range sp {
		if p == nil {
			continue
		}
		out.pkgs[strings.TrimPrefix(p.Pkg.Path(), modPath)] = p
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				out.fns[fnKey(m)] = m
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							out.fns[fnKey(f)] = f
						}
					}
				}
			}
		}
	}
	return out, nil
}

// ---- package-level variables ----

// initGlobals runs package initialisers concretely and installs the globals
// that the program never writes outside initialisation.
func (x *Exec) initGlobals(st *State) {
	for id, o := range x.c.globalObjs() {
		st.heap[id] = o
	}
}

type globalInfo struct {
	objs map[int]*Obj
	ids  map[*ssa.Global]int
	vals map[*ssa.Global]bool
	seq  int
}

var globalsMemo *globalInfo

func (c *Ctx) globalObjs() map[int]*Obj { return globalsMemo.objs }

func (x *Exec) globalLoad(st *State, g *ssa.Global) Value { return nil }

// setupGlobals evaluates initialisers. Global g lives in object
// -1000-id(g).
func setupGlobals(c *Ctx, specs *SpecSet, sol *Solver) (gi *globalInfo, globals map[*ssa.Global]int) {
	x := NewExec(c, specs, sol)
	x.concreteMode = true
	x.mute = 1
	st := &State{heap: map[int]*Obj{}}
	globals = x.globals
	// which globals are written outside initialisation
	written := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(c.prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), strings.TrimSuffix(modPath, "/")) {
			continue
		}
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Name() == "initBuildLeftMasks" || onlyFromInit(f)
		if isInit {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if !readOnlyUse(in, g) {
						written[g] = true
					}
				}
			}
		}
	}
	var order []string
	for k := range c.pkgs {
		order = append(order, k)
	}
	sortStrings(order)
	for _, k := range order {
		p := c.pkgs[k]
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(undecided); !ok {
								panic(r)
							}
						}
					}()
					t := g.Type().Underlying().(*types.Pointer).Elem()
					st.heap[-1000-x.globalID(g)] = &Obj{Kind: OCell, Typ: t, Val: x.zero(t), Fresh: true, Name: g.Name()}
				}()
			}
		}
	}
	for _, k := range order {
		p := c.pkgs[k]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						if os.Getenv("GOVER_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, "init", k, u.msg)
						}
						return
					}
					panic(r)
				}
			}()
			// run the stores of the synthetic init, skipping the guard and imports
			f := p.Func("init")
			fr := &Frame{fn: f, env: map[ssa.Value]Value{}}
			for _, b := range f.Blocks {
				if b.Comment == "init.start" {
					for _, in := range b.Instrs {
						switch in := in.(type) {
						case *ssa.Call:
							if cf := in.Call.StaticCallee(); cf != nil && cf.Pkg == p {
								outs := x.inline(st, cf, nil, in)
								if len(outs) != 1 {
									undec("init branches")
								}
								*st = *outs[0].st
							}
						case *ssa.Jump, *ssa.Return:
						case *ssa.Store:
							if g, ok := in.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
								continue
							}
							x.step(fr, st, in)
						default:
							x.step(fr, st, in)
						}
					}
				}
			}
		}()
	}
	gi = &globalInfo{objs: map[int]*Obj{}, seq: x.objSeq}
	for id, o := range st.heap {
		c := o.clone()
		c.Fresh = false
		gi.objs[id] = c
	}
	for g := range written {
		delete(gi.objs, -1000-x.globalID(g))
	}
	return gi, globals
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

func onlyFromInit(f *ssa.Function) bool { return false }

func readOnlyUse(in ssa.Instruction, g *ssa.Global) bool {
	switch in := in.(type) {
	case *ssa.UnOp:
		// load of the whole value; a slice value can be written through
		if sl, ok := in.Type().Underlying().(*types.Slice); ok {
			_ = sl
			for _, r := range *in.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if u, ok := r2.(*ssa.UnOp); !ok || u.Op.String() != "*" {
							return false
						}
					}
					continue
				}
				if c, ok := r.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
						continue
					}
				}
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				return false
			}
		}
		return true
	case *ssa.IndexAddr:
		for _, r2 := range *in.Referrers() {
			if u, ok := r2.(*ssa.UnOp); !ok || u.Op.String() != "*" {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		for _, r2 := range *in.Referrers() {
			if u, ok := r2.(*ssa.UnOp); !ok || u.Op.String() != "*" {
				return false
			}
		}
		return true
	}
	return false
}

// autoGuard adds to every struct under lock discipline the fields that the
// program writes (or whose map or slice it writes) after construction.
func autoGuard(c *Ctx, specs *SpecSet) {
	add := func(fa *ssa.FieldAddr) {
		switch fa.X.(type) { // under construction
		case *ssa.Alloc:
			return
		case *ssa.Call:
			return
		}
		pt, ok := fa.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		n := namedOf(pt.Elem())
		if n == nil || specs.guarded[n.Obj().Name()] == nil {
			return
		}
		s := n.Underlying().(*types.Struct)
		specs.guarded[n.Obj().Name()][s.Field(fa.Field).Name()] = true
	}
	var root func(v ssa.Value, depth int)
	root = func(v ssa.Value, depth int) {
		if depth > 8 {
			return
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			add(v)
			root(v.X, depth+1)
		case *ssa.IndexAddr:
			root(v.X, depth+1)
		case *ssa.UnOp:
			root(v.X, depth+1)
		case *ssa.Slice:
			root(v.X, depth+1)
		}
	}
	for f := range ssautil.AllFunctions(c.prog) {
		if f.Pkg == nil && f.Origin() == nil || !inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					root(in.Addr, 0)
				case *ssa.MapUpdate:
					root(in.Map, 0)
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						root(in.Call.Args[0], 0)
					}
				}
			}
		}
	}
}

func inModule(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), strings.TrimSuffix(modPath, "/"))
}
