package main

// SMT solver portfolio.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Solver struct {
	quickMs  int
	cache    map[string]string
	mu       sync.Mutex
	Queries  int
	SolverMs int64
	timeoutS float64 // per obligation, full portfolio
	sem      chan struct{}
	deadline time.Time
	hints    *Hints
	srv      *server
}

func NewSolver(par int, timeoutS float64) *Solver {
	return &Solver{quickMs: 400, cache: map[string]string{}, timeoutS: timeoutS, sem: make(chan struct{}, par)}
}

type engine struct {
	name string
	args []string
	pre  string
	cmd  string
}

func runProc(ctx context.Context, script string, args []string) (string, string) {
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.WaitDelay = 100 * time.Millisecond
	_ = cmd.Run()
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "sat", "unsat", "unknown":
		return first, s
	}
	if strings.Contains(s, "error") || errb.Len() > 0 {
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", args[0], s, errb.String())
			os.WriteFile("/tmp/badquery.smt2", []byte(script), 0o644)
		}
		if strings.Contains(s, "error") && !strings.Contains(s, "interrupted") && !strings.Contains(s, "timeout") {
			return "error", s
		}
	}
	return "unknown", s
}

func withAxioms(as []*Term) []*Term {
	// defining facts of clz applications (ground ones)
	seen := map[*Term]bool{}
	var apps []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && strings.HasPrefix(t.Name, "clz") {
			if t.free {
				// applications under a quantifier: covered by the general axiom
			} else {
				apps = append(apps, t)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	free := map[string]*Term{}
	for t := range seen {
		if t.Op == "app" && strings.HasPrefix(t.Name, "clz") && t.free {
			free[t.Name] = t
		}
	}
	out := as
	ranks := map[*Term]bool{}
	for t := range seen {
		if t.Op == "app" && t.Name == "rank" && !t.Args[0].free {
			ranks[t.Args[0]] = true
		}
	}
	var rk []*Term
	for p := range ranks {
		rk = append(rk, p)
	}
	sort.Slice(rk, func(i, j int) bool { return rk[i].String() < rk[j].String() })
	for _, p := range rk {
		out = append(out, rankAxioms(p)...)
	}
	for _, a := range apps {
		out = append(out, clzAxiom(a))
	}
	for n, t := range free {
		b := FreshBound("z", t.Args[0].Sort)
		ap := App(n, t.Sort, b)
		out = append(out, Forall([]*Term{b}, clzAxiom(ap), []*Term{ap}))
	}
	return out
}

// rankAxioms define rank(p, i), the number of positions below i where p is
// false; the bound rank(p, i) <= i is its consequence by induction.
func rankAxioms(p *Term) []*Term {
	z := NumI(0, 64)
	i := FreshBound("i", BVS(64))
	r := func(t *Term) *Term { return App("rank", BVS(64), p, t) }
	def := Eq(r(Add(i, NumI(1, 64))), Add(r(i), Ite(Select(p, i), NumI(0, 64), NumI(1, 64))))
	return []*Term{Eq(r(z), z),
		Forall([]*Term{i}, Implies(Not(Eq(i, NumI(-1, 64))), def), []*Term{r(i), Select(p, i)}),
		Forall([]*Term{i}, Ule(r(i), i), []*Term{r(i)})}
}

// quick decides a small quantifier-free query; "unsat" is trusted.
func (s *Solver) quick(as []*Term) string {
	for _, a := range as {
		if a == False {
			return "unsat"
		}
	}
	sc := Script(withAxioms(as)) + "(check-sat)\n"
	h := fmt.Sprintf("q%x", sha256.Sum256([]byte(sc)))
	if r, ok := s.cache[h]; ok {
		return r
	}
	t0 := time.Now()
	r := s.ask(sc)
	s.Queries++
	s.SolverMs += time.Since(t0).Milliseconds()
	s.cache[h] = r
	return r
}

// server is a solver process that answers one query after the other, each from
// a reset state.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan string
}

func (s *Solver) ask(script string) string {
	for try := 0; try < 2; try++ {
		if s.srv == nil {
			c := exec.Command("z3-new", "-in", fmt.Sprintf("-t:%d", s.quickMs))
			in, e1 := c.StdinPipe()
			out, e2 := c.StdoutPipe()
			if e1 != nil || e2 != nil || c.Start() != nil {
				return "unknown"
			}
			v := &server{c, in, make(chan string, 16)}
			go func() {
				sc := bufio.NewScanner(out)
				sc.Buffer(make([]byte, 1<<16), 1<<24)
				for sc.Scan() {
					v.out <- sc.Text()
				}
				close(v.out)
				c.Wait()
			}()
			s.srv = v
		}
		v := s.srv
		if _, err := io.WriteString(v.in, script+"(reset)\n(echo \"=done\")\n"); err == nil {
			res := "unknown"
			tm := time.After(time.Duration(s.quickMs+2000) * time.Millisecond)
		read:
			for {
				select {
				case l, ok := <-v.out:
					if !ok {
						break read
					}
					switch strings.Trim(l, "\"") {
					case "=done":
						return res
					case "sat", "unsat":
						res = l
					}
				case <-tm:
					break read
				}
			}
		}
		v.in.Close()
		v.cmd.Process.Kill()
		go func() {
			for range v.out {
			}
		}()
		s.srv = nil
		if try == 1 {
			return "unknown"
		}
	}
	return "unknown"
}

type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Ms     int64
	Out    string
}

var engines = map[string]engine{
	"g-z3n":      {"z3-5.3.2(ground)", []string{"z3-new", "-in"}, "", ""},
	"g1-z3s":     {"z3-5.3.2(ground1,solve-eqs)", []string{"z3-new", "-in"}, "", "(check-sat-using (then simplify propagate-values solve-eqs smt))\n"},
	"g-z3s":      {"z3-5.3.2(ground,solve-eqs)", []string{"z3-new", "-in"}, "", "(check-sat-using (then simplify propagate-values solve-eqs smt))\n"},
	"p-z3":       {"z3-5.3.2(propositional)", []string{"z3-new", "-in"}, "", ""},
	"i1-z3":      {"z3-5.3.2(ground1,int)", []string{"z3-new", "-in"}, "", ""},
	"i-z3":       {"z3-5.3.2(ground,int)", []string{"z3-new", "-in"}, "", ""},
	"g-cvc5":     {"cvc5-1.1.2(ground)", []string{"cvc5", "--lang", "smt2", "-q"}, "(set-logic ALL)\n", ""},
	"z3n-ematch": {"z3-5.3.2(ematch)", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", ""},
	"z3n":        {"z3-5.3.2", []string{"z3-new", "-in"}, "", ""},
	"z3i":        {"z3-5.3.2(ematch,intblast)", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.bv.solver 2)\n", ""},
	"z3o":        {"z3-4.8.12(ematch)", []string{"z3", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", ""},
	"z3d":        {"z3-4.8.12", []string{"z3", "-in"}, "", ""},
	"q-z3":       {"z3-5.3.2(reduced,ematch)", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", ""},
	"q-z3o":      {"z3-4.8.12(reduced)", []string{"z3", "-in"}, "", ""},
	"cvc5":       {"cvc5-1.1.2", []string{"cvc5", "--lang", "smt2", "-q"}, "(set-logic ALL)\n", ""},
	"cvc5int":    {"cvc5-1.1.2(bv-as-int)", []string{"cvc5", "--lang", "smt2", "-q", "--solve-bv-as-int=sum"}, "(set-logic ALL)\n", ""},
	"cvc5fs":     {"cvc5-1.1.2(full-sat)", []string{"cvc5", "--lang", "smt2", "-q", "--full-saturate-quant"}, "(set-logic ALL)\n", ""},
}

// prove checks that as entails goal, with at most secs seconds per engine.
func (s *Solver) prove(q query, secs float64) Result {
	body := q.body
	h := fmt.Sprintf("p%g%x", secs, sha256.Sum256([]byte(body)))
	s.mu.Lock()
	if r, ok := s.cache[h]; ok {
		s.mu.Unlock()
		return Result{r, "cache", 0, ""}
	}
	s.mu.Unlock()
	r := s.prove0(q, secs)
	if os.Getenv("GOVER_SLOW") != "" && r.Ms > 1000 {
		f, _ := os.CreateTemp("/tmp/hd", "slow*.smt2")
		fmt.Fprintf(f, "; %s %s %d\n%s(check-sat)\n", r.Status, r.Solver, r.Ms, body)
		f.Close()
		if r.Status == "unknown" {
			for e, b := range map[string]string{"g": q.ground, "g1": q.ground1, "i": q.int3, "i1": q.int1, "p": q.prop} {
				os.WriteFile(f.Name()+"."+e, []byte(b+"(check-sat)\n"), 0o644)
			}
		}
		fmt.Fprintln(os.Stderr, "slow", f.Name(), r.Status, r.Solver, r.Ms)
	}
	s.mu.Lock()
	s.cache[h] = r.Status
	s.Queries++
	s.SolverMs += r.Ms
	s.mu.Unlock()
	return r
}

func (s *Solver) prove0(q0 query, secs float64) Result {
	body, hasQuant := q0.body, q0.quant
	hint := ""
	if s.hints != nil {
		hint = s.hints.engine(body)
	}
	run := func(ctx context.Context, n string, secs float64) Result {
		if !s.deadline.IsZero() {
			left := time.Until(s.deadline).Seconds()
			if left < 0.5 {
				return Result{Status: "unknown", Solver: "time budget"}
			}
			if left < secs {
				secs = left
			}
		}
		select {
		case s.sem <- struct{}{}:
		case <-ctx.Done():
			return Result{Status: "unknown", Solver: engines[n].name}
		}
		defer func() { <-s.sem }()
		e := engines[n]
		c, cancel := context.WithTimeout(ctx, time.Duration(secs*1000)*time.Millisecond)
		defer cancel()
		t0 := time.Now()
		b := body
		if strings.HasPrefix(n, "g-") {
			b = q0.ground
		}
		if strings.HasPrefix(n, "g1-") {
			b = q0.ground1
		}
		if strings.HasPrefix(n, "p-") {
			b = q0.prop
		}
		if strings.HasPrefix(n, "q-") {
			b = q0.reduced
		}
		if strings.HasPrefix(n, "i-") {
			b = q0.int3
		}
		if strings.HasPrefix(n, "i1-") {
			b = q0.int1
		}
		cmd := e.cmd
		if cmd == "" {
			cmd = "(check-sat)\n"
		}
		st, out := runProc(c, e.pre+b+cmd, e.args)
		if st == "sat" && (n[0] == 'g' || n[0] == 'i' || n[0] == 'p' || n[0] == 'q') {
			st = "unknown"
		}
		return Result{st, e.name, time.Since(t0).Milliseconds(), out}
	}
	light := secs < 0
	if light {
		secs = -secs
	}
	var total int64
	ok := func(n string, r Result) Result {
		r.Ms += total
		if s.hints != nil && r.Status == "unsat" {
			s.hints.record(body, n)
		}
		return r
	}
	bg := context.Background()
	if hint != "" {
		r := run(bg, hint, secs*2)
		if r.Status == "unsat" {
			return ok(hint, r)
		}
		total += r.Ms
	}
	first := "z3n-ematch"
	if !hasQuant {
		first = "z3n"
	}
	t1 := secs / 4
	if t1 > 3 || light {
		t1 = 3
	}
	var stage []string
	for _, n := range []string{"p-z3", "i1-z3", "i-z3"} {
		if hasQuant && hint != n {
			stage = append(stage, n)
		}
	}
	if hasQuant && hint != "z3i" {
		stage = append(stage, "z3i")
	}
	if hasQuant && hint != "g1-z3s" {
		stage = append(stage, "g1-z3s")
	}
	if hasQuant && hint != "g-z3s" {
		stage = append(stage, "g-z3s")
	}
	if hint != first {
		stage = append(stage, first)
	}
	if hasQuant && hint != "z3d" {
		stage = append(stage, "z3d")
	}
	if q0.reduced != "" && hint != "q-z3" {
		stage = append(stage, "q-z3")
	}
	if len(stage) > 0 {
		c1, cancel1 := context.WithCancel(bg)
		type nr1 struct {
			n string
			r Result
		}
		ch1 := make(chan nr1, len(stage))
		for _, n := range stage {
			go func() { ch1 <- nr1{n, run(c1, n, t1)} }()
		}
		for range stage {
			q := <-ch1
			if q.r.Status == "unsat" || !hasQuant && q.r.Status == "sat" {
				cancel1()
				return ok(q.n, q.r)
			}
			total += q.r.Ms
		}
		cancel1()
	}
	rest := []string{"i-z3", "g-z3n", "g-cvc5", "cvc5int", "z3d", "cvc5", "z3o", "z3n", "cvc5fs"}
	if q0.reduced != "" {
		rest = append(rest, "q-z3o")
	}
	if light {
		rest = rest[:5]
		secs = secs / 2
	} else if !hasQuant {
		rest = []string{"cvc5", "z3o", "z3n", "cvc5int"}
	}
	type nr struct {
		n string
		r Result
	}
	ch := make(chan nr, len(rest))
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	for _, n := range rest {
		go func() { ch <- nr{n, run(ctx, n, secs)} }()
	}
	best := Result{Status: "unknown", Solver: "portfolio"}
	for range rest {
		q := <-ch
		if q.r.Status == "unsat" {
			return ok(q.n, q.r)
		}
		if q.r.Status == "sat" {
			// on a quantified query this is only a candidate model, but no
			// engine that answers sat will be contradicted by waiting
			best = q.r
			break
		}
		if q.r.Status == "error" && best.Out == "" {
			best.Out = q.r.Out
		}
	}
	best.Ms += total
	return best
}

// refute gives one engine a short time to derive a contradiction.
func (s *Solver) refute(body string, hasQuant bool) Result {
	n := "z3n-ematch"
	if !hasQuant {
		n = "z3n"
	}
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	ctx, cancel := context.WithTimeout(context.Background(), 700*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	st, out := runProc(ctx, engines[n].pre+body+"(check-sat)\n", engines[n].args)
	s.mu.Lock()
	s.Queries++
	s.SolverMs += time.Since(t0).Milliseconds()
	s.mu.Unlock()
	return Result{st, engines[n].name, time.Since(t0).Milliseconds(), out}
}

func anyQuant(as []*Term) bool {
	for _, a := range as {
		if a.quant || a.free {
			return true
		}
	}
	return false
}

// pieces splits assumptions |= goal into simpler goals: conjuncts are proved
// separately, universally quantified variables become fresh constants, and
// antecedents become assumptions.
func pieces(as []*Term, goal *Term, depth int) [][]*Term {
	if goal == True || goal.Op == "app" && strings.HasPrefix(goal.Name, "trg.mark.") {
		return nil
	}
	switch goal.Op {
	case "and":
		if depth < 6 {
			var out [][]*Term
			for _, g := range goal.Args {
				out = append(out, pieces(as, g, depth+1)...)
			}
			if len(out) <= 80 {
				return out
			}
		}
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range goal.Bound {
			pre := "sk_"
			if len(goal.Pats) > 0 {
				pre = "skp_"
			}
			m[v] = Const(pre+strings.ReplaceAll(v.Name, "?", "_"), v.Sort)
		}
		// the terms a pattern speaks about stay visible to the solver
		as = append([]*Term(nil), as...)
		for _, p := range goal.Pats {
			for _, t := range p {
				u := Subst(t, m)
				if !u.free && len(u.Args) > 0 {
					as = append(as, App("trg."+sanitize(u.Sort.str), BoolS, u))
				}
			}
		}
		// assumptions quantified without a pattern are instantiated here
		for _, a := range as {
			if len(goal.Pats) > 0 {
				break
			}
			for _, v := range goal.Bound {
				if t := instAt(a, m[v]); t != True {
					as = append(as, t)
				}
			}
		}
		return pieces(as, Subst(goal.Args[0], m), depth+1)
	case "=>":
		if !goal.Args[0].free {
			return pieces(append(append([]*Term(nil), as...), goal.Args[0]), goal.Args[1], depth+1)
		}
	case "ite":
		if goal.Sort == BoolS && depth < 6 {
			c := goal.Args[0]
			out := pieces(append(append([]*Term(nil), as...), c), goal.Args[1], depth+1)
			return append(out, pieces(append(append([]*Term(nil), as...), Not(c)), goal.Args[2], depth+1)...)
		}
	case "=":
		if goal.Args[0].Sort == BoolS && depth < 6 && (goal.Args[0].quant || goal.Args[1].quant) {
			p, q := goal.Args[0], goal.Args[1]
			out := pieces(append(append([]*Term(nil), as...), p), q, depth+1)
			return append(out, pieces(append(append([]*Term(nil), as...), q), p, depth+1)...)
		}
	}
	as = append([]*Term(nil), as...)
	cs := scalars(goal)
	if len(cs) > 3 {
		cs = nil
	}
	for _, a := range as {
		if a.Op == "app" && strings.HasPrefix(a.Name, "trg.mark.") {
			cs = append(cs, a.Args[0])
		}
	}
	if len(cs) > 0 {
		for _, a := range as {
			for _, c := range cs {
				if t := instAt(a, c); t != True {
					as = append(as, t)
				}
			}
		}
	}
	return [][]*Term{append(as, Not(goal))}
}

// instAt is the consequence of a when its universally quantified parts that
// have one variable and no pattern are instantiated with c (True if none).
func instAt(a *Term, c *Term) *Term {
	if !a.quant {
		return True
	}
	switch a.Op {
	case "forall":
		if len(a.Pats) == 0 {
			if len(a.Bound) == 1 && a.Bound[0].Sort == c.Sort {
				return Subst(a.Args[0], map[*Term]*Term{a.Bound[0]: c})
			}
			return True
		}
		if t := instAt(a.Args[0], c); t != True {
			return Forall(a.Bound, t, a.Pats...)
		}
	case "=>":
		if t := instAt(a.Args[1], c); t != True {
			return Implies(a.Args[0], t)
		}
	case "and":
		var out []*Term
		for _, x := range a.Args {
			if t := instAt(x, c); t != True {
				out = append(out, t)
			}
		}
		return And(out...)
	}
	return True
}

// scalars are the bit-vector constants a goal speaks about.
func scalars(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "const" && t.Sort.K == SBV && !strings.HasPrefix(t.Name, "sk_") && !strings.HasPrefix(t.Name, "skp_") {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return
}

// queries are the scripts whose unsatisfiability proves the obligation.
func (o *Oblig) queries() (qs []query) {
	for _, as := range pieces(o.Assume, o.Goal, 0) {
		as = withAxioms(as)
		q := query{body: Script(as), quant: anyQuant(as)}
		if q.quant {
			t0 := time.Now()
			g1, g3 := ground(as)
			groundT += time.Since(t0)
			t0 = time.Now()
			q.ground1, q.ground = Script(g1), Script(g3)
			q.prop = Script(propAbs(as))
			if rs, ch := reduceAll(as); ch {
				q.reduced = Script(rs)
			}
			q.int1, q.int3 = IntScript(g1), IntScript(g3)
			renderT += time.Since(t0)
		}
		qs = append(qs, q)
	}
	return
}

var groundT, renderT time.Duration

// query is a script whose unsatisfiability is wanted, and a quantifier-free
// consequence of it.
type query struct {
	body, ground1, ground string
	prop                  string // quantified formulas as atoms
	reduced               string // without assumptions quantified without a pattern
	int1, int3            string // ground versions over integers
	quant                 bool
}

// proveOb discharges all the queries of an obligation.
func (s *Solver) proveQs(qs []query, secs float64) Result {
	res := Result{Status: "unsat", Solver: "simplifier"}
	if len(qs) == 1 {
		return s.prove(qs[0], secs)
	}
	if secs < 0 {
		// candidate invariants: stop at the first piece that fails
		for i := range qs {
			r := s.prove(qs[i], secs)
			if r.Status != "unsat" {
				return r
			}
		}
		return res
	}
	rs := make([]Result, len(qs))
	var wg sync.WaitGroup
	for i := range qs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i] = s.prove(qs[i], secs)
		}()
	}
	wg.Wait()
	names := map[string]bool{}
	for _, r := range rs {
		res.Ms += r.Ms
		names[r.Solver] = true
		if r.Status != "unsat" && res.Status == "unsat" {
			res.Status, res.Out = r.Status, r.Out
			res.Solver = r.Solver
		}
	}
	if res.Status == "unsat" {
		res.Solver = strings.Join(keys(names), "+")
	}
	return res
}

// slice keeps the assumptions connected to the goal by shared symbols.
func relevant(as []*Term, goal *Term) []*Term {
	syms := func(t *Term) map[string]bool {
		m := map[string]bool{}
		seen := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "const" && !strings.HasSuffix(t.Name, "_zero") {
				m[t.Name] = true
			}
			for _, a := range t.Args {
				w(a)
			}
		}
		w(t)
		return m
	}
	have := syms(goal)
	ss := make([]map[string]bool, len(as))
	in := make([]bool, len(as))
	for i, a := range as {
		ss[i] = syms(a)
	}
	for ch := true; ch; {
		ch = false
		for i := range as {
			if in[i] {
				continue
			}
			hit := len(ss[i]) == 0
			for n := range ss[i] {
				if have[n] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for n := range ss[i] {
					have[n] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if in[i] {
			out = append(out, a)
		}
	}
	return out
}

// dischargeAll proves obligations in parallel.
func (s *Solver) dischargeAll(obls []*Oblig, secs float64) {
	var wg sync.WaitGroup
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		qs := o.queries()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := s.proveQs(qs, secs)
			o.Solver, o.Ms = r.Solver, r.Ms
			switch r.Status {
			case "unsat":
				o.Status = "proved"
			case "sat":
				o.Status = "failed"
				o.Model = r.Out
			default:
				o.Status = "unknown"
				o.Model = r.Out
			}
		}()
	}
	wg.Wait()
	// what is left is tried for every merged path on its own
	for _, o := range obls {
		if o.Status != "unknown" {
			continue
		}
		ss := o.split(8)
		if len(ss) < 2 {
			continue
		}
		var qs []query
		for _, q := range ss {
			qs = append(qs, q.queries()...)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := s.proveQs(qs, secs)
			o.Ms += r.Ms
			if r.Status == "unsat" {
				o.Status, o.Solver, o.Model = "proved", r.Solver, ""
			}
		}()
	}
	wg.Wait()
}

// split undoes the merging of paths: one obligation per disjunct of a path
// condition, without the facts of the other paths.
func (o *Oblig) split(max int) []*Oblig {
	guards := map[*Term]bool{}
	for _, a := range o.Assume {
		if a.Op == "=>" {
			guards[a.Args[0]] = true
		}
	}
	for n, a := range o.Assume {
		if a.Op != "or" || len(a.Args) > max {
			continue
		}
		in := map[*Term]bool{}
		hit := false
		for _, d := range a.Args {
			in[d] = true
			hit = hit || guards[d]
		}
		if !hit {
			continue
		}
		var out []*Oblig
		for _, d := range a.Args {
			p := &Oblig{Label: o.Label, Goal: o.Goal}
			for m, b := range o.Assume {
				switch {
				case m == n:
					p.Assume = append(p.Assume, d)
				case b.Op == "=>" && b.Args[0] == d:
					p.Assume = append(p.Assume, b.Args[1])
				case b.Op == "=>" && in[b.Args[0]]:
				default:
					p.Assume = append(p.Assume, b)
				}
			}
			out = append(out, p.split(max/len(a.Args))...)
		}
		return out
	}
	return []*Oblig{o}
}

// reduceAll drops what is quantified without a pattern from assumptions: its
// instances at the goal's constants have been added by then.
func reduceAll(as []*Term) (out []*Term, changed bool) {
	for _, a := range as {
		r := reduce(a)
		changed = changed || r != a
		if r != True {
			out = append(out, r)
		}
	}
	return
}

func reduce(a *Term) *Term {
	if !a.quant {
		return a
	}
	switch a.Op {
	case "forall":
		if len(a.Pats) == 0 {
			return True
		}
		if b := reduce(a.Args[0]); b != a.Args[0] {
			return Forall(a.Bound, b, a.Pats...)
		}
	case "=>":
		if b := reduce(a.Args[1]); b != a.Args[1] {
			return Implies(a.Args[0], b)
		}
	case "and":
		var out []*Term
		ch := false
		for _, x := range a.Args {
			y := reduce(x)
			ch = ch || y != x
			out = append(out, y)
		}
		if ch {
			return And(out...)
		}
	}
	return a
}
