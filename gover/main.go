package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover verify <specdir> <W> <key>...")
		os.Exit(2)
	}
	if f := os.Getenv("GOVER_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2], os.Args[3], os.Args[4:])
	case "worker":
		worker(os.Args[2], os.Args[3])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "learn":
		os.Exit(learn(os.Args[2:]))
	}
}

func dev(dir, ws string, ks []string) {
	var w int
	fmt.Sscan(ws, &w)
	repo := os.Getenv("GOVER_REPO")
	if repo == "" {
		repo = "/repo"
	}
	p, err := LoadProgram(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	specs, err := LoadSpecs(dir, w)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	c := &Ctx{W: w, prog: p.prog, pkgs: p.pkgs, leafTab: map[string][]Leaf{}}
	autoGuard(c, specs)
	gi, globals := setupGlobals(c, specs, NewSolver(8, 10))
	globalsMemo = gi
	if len(ks) == 0 {
		ks = specs.order
	}
	hf := os.Getenv("GOVER_HINTS")
	hints := LoadHints(hf)
	snap := snapshotTerms()
	for _, k := range ks {
		var match []string
		for _, o := range specs.order {
			if strings.Contains(o, k) {
				match = append(match, o)
			}
		}
		for _, key := range match {
			ct := specs.byKey[key]
			fn := p.fns[key]
			if ct.Trusted {
				continue
			}
			if fn == nil {
				fmt.Println("MISSING", key)
				continue
			}
			c.leafTab = map[string][]Leaf{}
			restoreTerms(snap)
			x := NewExec(c, specs, NewSolver(8, 10))
			for g, id := range globals {
				x.globals[g] = id
			}
			secs := 20.0
			if ct.Secs > 0 {
				secs = ct.Secs
			}
			x.sol.hints = hints
			t0 := time.Now()
			r := x.Verify(ct, fn, secs)
			fmt.Printf("%.1fs ", time.Since(t0).Seconds())
			printRes(r)
			if hf != "" && os.Getenv("GOVER_SAVE") != "" {
				hints.Save(hf)
			}
		}
	}
}

func printRes(r *FnResult) {
	tot, ok := 0, 0
	for _, o := range r.Obls {
		tot++
		if o.Status == "proved" {
			ok++
		}
	}
	fmt.Printf("%s W=%d: %d/%d obligations, %d exits, %d paths, %d loops, queries=%d solver=%dms", r.Key, r.W, ok, tot, r.Exits, r.Paths, r.Loops, r.Queries, r.SolverMs)
	if os.Getenv("GOVER_V") != "" {
		fmt.Printf(" ground=%v render=%v", groundT, renderT)
	}
	if r.Undecided != "" {
		fmt.Printf("  UNDECIDED: %s", r.Undecided)
	}
	fmt.Println()
	for _, o := range r.Obls {
		if o.Status != "proved" {
			fmt.Printf("   %-8s %s: %s (%s %dms)\n", o.Status, o.Label, o.Msg, o.Solver, o.Ms)
			if os.Getenv("GOVER_DUMP") != "" {
				bs := o.queries()
				for i, b := range bs {
					f := fmt.Sprintf("/tmp/fail_%s_%d.smt2", sanitize(o.Label), i)
					os.WriteFile(f, []byte(b.body+"(check-sat)\n"), 0o644)
					os.WriteFile(f+".g", []byte(b.ground+"(check-sat)\n"), 0o644)
					os.WriteFile(f+".i1", []byte(b.int1+"(check-sat)\n"), 0o644)
					os.WriteFile(f+".i3", []byte(b.int3+"(check-sat)\n"), 0o644)
					fmt.Println("     dumped", f, o.Solver)
				}
			}
		} else if os.Getenv("GOVER_V") != "" {
			fmt.Printf("   ok %s: %s (%s %dms)\n", o.Label, o.Msg, o.Solver, o.Ms)
		}
	}
}
