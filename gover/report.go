package main

// gover check <property>: decide one property and write its evidence.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type harnessOut struct {
	Ran        bool
	Violation  bool
	Cases      int64                  `json:"cases"`
	Distinct   int64                  `json:"distinct"`
	What       string                 `json:"what"`
	Failure    string                 `json:"failure"`
	Input      map[string]interface{} `json:"input"`
	History    []string               `json:"history"`
	Bound      string                 `json:"bound"`
	Err        string                 `json:"-"`
	WallS      float64                `json:"wall_s"`
	GoTestRace bool                   `json:"race"`
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod -buildvcs=false")
}

// runHarness runs the real code against the property's executable oracle.
func runHarness(verif, prop string, seed int64, secs float64, race bool) harnessOut {
	var h harnessOut
	dir, err := os.MkdirTemp("", "vh")
	if err != nil {
		h.Err = err.Error()
		return h
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "harness")
	args := []string{"build", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	b := exec.Command("go", append(args, ".")...)
	b.Dir = filepath.Join(verif, "harness")
	b.Env = goEnv()
	if out, err := b.CombinedOutput(); err != nil {
		h.Err = "harness build: " + string(out)
		return h
	}
	res := filepath.Join(dir, "out.json")
	t0 := time.Now()
	c := exec.Command("timeout", "-k", "5", fmt.Sprintf("%.0f", secs+60), bin, "-prop", prop, "-seed", strconv.FormatInt(seed, 10), "-secs", fmt.Sprint(secs), "-out", res)
	c.Env = append(goEnv(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB")
	out, err := c.CombinedOutput()
	h.WallS = time.Since(t0).Seconds()
	if j, e := os.ReadFile(res); e == nil {
		_ = json.Unmarshal(j, &h)
	}
	h.Ran = true
	code := c.ProcessState.ExitCode()
	switch {
	case code == 0:
	case code == 1 && h.Failure != "":
		h.Violation = true
	case code == 66:
		h.Violation = true
		h.Failure = "data race reported by the race detector:\n" + tail(string(out), 6000)
	default:
		// a crash of the code under test (panic, fatal error, hang) is a
		// finding when the harness says what it was doing
		h.Violation = true
		h.Failure = fmt.Sprintf("the run ended with status %d: %s", code, tail(string(out), 4000))
		if j, e := os.ReadFile(res + ".doing"); e == nil {
			h.History = strings.Split(string(j), "\n")
		}
	}
	return h
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type finding struct{ prop, obl, text string }

func knownFindings(verif string) []finding {
	var out []finding
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k finding
		for _, w := range strings.Fields(l[8:]) {
			if strings.HasPrefix(w, "property=") {
				k.prop = w[9:]
			} else if strings.HasPrefix(w, "obligation=") {
				k.obl = w[11:]
			} else {
				k.text += w + " "
			}
		}
		out = append(out, k)
	}
	return out
}

func oblName(t task, label string) string { return fmt.Sprintf("%s#%s", t, label) }

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	budget := fs.Float64("budget", 780, "seconds")
	fs.Parse(args)
	prop := fs.Arg(0)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	d, err := newDriver(*verif, *repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		return 3
	}
	defer d.close()
	roots := d.roots(prop)
	if len(roots) == 0 {
		fmt.Fprintln(os.Stderr, "no contract carries property", prop)
		return 3
	}
	d.stopOnFail = true
	d.locks = prop == "C22"
	d.deadline = t0.Add(time.Duration(*budget*0.5) * time.Second)
	replayDir := filepath.Join(*verif, "replay")
	os.MkdirAll(replayDir, 0o755)
	replay := filepath.Join(replayDir, prop+".json")
	os.Remove(replay)

	if tier == "thorough" {
		// no hints: every search from scratch, long candidate checks
		d.full = true
		d.deadline = t0.Add(3 * time.Hour)
	}
	hs := 4.0
	if tier == "thorough" {
		hs = 120
	}
	race := prop == "C22"
	h := runHarness(*verif, prop, seed, hs, race)
	if h.Violation && tier != "thorough" {
		// a failing input is at hand: the proof attempt only adds the failed obligations
		d.deadline = time.Now().Add(60 * time.Second)
	}
	failed, err := d.run(roots)
	if err != nil {
		// the tree does not load (does not compile)
		fmt.Fprintln(os.Stderr, "load:", err)
		return 3
	}
	if len(failed) > 0 && !h.Violation {
		h = runHarness(*verif, prop, seed+1000, 40, race)
	}
	if h.Err != "" {
		fmt.Fprintln(os.Stderr, h.Err)
	}
	if len(failed) > 0 && !h.Violation && tier == "quick" {
		// second attempt: full search for invariants, longer solver times
		fmt.Fprintln(os.Stderr, "  second attempt with full search")
		d.full = true
		d.deadline = t0.Add(time.Duration(*budget) * time.Second)
		for _, r := range failed {
			delete(d.results, task{r.Req.Key, r.Req.W})
		}
		failed, err = d.run(roots)
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			return 3
		}
	}

	// known findings
	violations := 0
	var unlisted []*response
	kf := knownFindings(*verif)
	for _, r := range failed {
		listed := len(r.Obls) > 0 && r.Undecided == ""
		for _, o := range r.Obls {
			if o.Status == "proved" {
				continue
			}
			hit := false
			for _, k := range kf {
				if k.prop == prop && k.obl == oblName(task{r.Req.Key, r.Req.W}, o.Label) {
					hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
				}
			}
			listed = listed && hit
		}
		if !listed {
			unlisted = append(unlisted, r)
		}
	}
	if len(unlisted) > 0 || h.Violation {
		violations = 1
		writeReplay(replay, prop, seed, unlisted, h)
	}
	writeEvidence(*verif, prop, tier, seed, d, roots, h, time.Since(t0).Seconds(), violations)
	if violations > 0 {
		if h.Violation {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
		return 1
	}
	n, ok := 0, 0
	for _, t := range d.closure(roots) {
		for _, o := range d.results[t].Obls {
			n++
			if o.Status == "proved" {
				ok++
			}
		}
	}
	fmt.Printf("property %s: %d/%d obligations discharged over %d functions in %.0fs; real-code runs: %d cases\n", prop, ok, n, len(d.closure(roots)), time.Since(t0).Seconds(), h.Cases)
	return 0
}

func writeReplay(path, prop string, seed int64, failed []*response, h harnessOut) {
	type fo struct {
		Obligation string `json:"obligation"`
		Status     string `json:"status"`
		Statement  string `json:"statement"`
		Solver     string `json:"solver"`
		Output     string `json:"verifier_output,omitempty"`
	}
	out := map[string]interface{}{"property": prop, "seed": seed}
	var fos []fo
	for _, r := range failed {
		t := task{r.Req.Key, r.Req.W}
		if r.Missing {
			fos = append(fos, fo{oblName(t, "exists"), "failed", "the function under contract is gone", "", ""})
		}
		if r.Undecided != "" {
			fos = append(fos, fo{oblName(t, "verifiable"), "undecided", r.Undecided, "", ""})
		}
		for _, o := range r.Obls {
			if o.Status != "proved" {
				fos = append(fos, fo{oblName(t, o.Label), o.Status, o.Msg, o.Solver, o.Model})
			}
		}
	}
	out["failed_obligations"] = fos
	if h.Violation {
		out["failing_input"] = map[string]interface{}{"what": h.What, "failure": h.Failure, "input": h.Input, "history": h.History}
		out["rerun"] = fmt.Sprintf("cd /verif/harness && go run . -prop %s -seed %d -secs 40", prop, seed)
	} else {
		out["failing_input"] = nil
		out["note"] = "no failing input found by the harness on the real code within its budget"
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func writeEvidence(verif, prop, tier string, seed int64, d *driver, roots []task, h harnessOut, wall float64, violations int) {
	n, ok, q, loops := 0, 0, 0, 0
	var ms int64
	by := map[string]int{}
	trusted := map[string]bool{}
	var fns []map[string]interface{}
	inl := map[string]bool{}
	for _, t := range d.closure(roots) {
		r := d.results[t]
		fok := 0
		for _, o := range r.Obls {
			n++
			if o.Status == "proved" {
				ok++
				fok++
				s := o.Solver
				by[s]++
			}
		}
		q += r.Queries
		ms += r.SolverMs
		loops += r.Loops
		for _, x := range r.Trusted {
			trusted[x] = true
		}
		for _, u := range r.Used {
			if c := d.specs[t.w].byKey[u]; c != nil && c.Trusted {
				trusted["assumed contract on "+u] = true
			}
		}
		for _, x := range r.Inlined {
			inl[x] = true
		}
		fns = append(fns, map[string]interface{}{"function": t.key, "id_width": t.w, "obligations": len(r.Obls), "discharged": fok, "queries": r.Queries, "solver_ms": r.SolverMs})
	}
	tb := []string{"the condition generator /verif/gover (symbolic execution of go/ssa of the real source)", "golang.org/x/tools/go/ssa and go/types as the reading of Go", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an answer 'unsat' of any one of them)"}
	tb = append(tb, keys(trusted)...)
	cov := map[string]interface{}{
		"obligations": n, "discharged": ok,
		"checker_cmd":                    "gover check " + prop,
		"trusted_base":                   tb,
		"functions_under_contract":       fns,
		"functions_verified_inside_them": keys(inl),
		"discharged_by":                  by,
		"solver_queries":                 q,
		"solver_ms":                      ms,
		"loops":                          loops,
		"bounded_runs_of_the_real_code":  map[string]interface{}{"label": "bounded, not counted as proof", "cases": h.Cases, "distinct": h.Distinct, "what": h.What, "bound": h.Bound, "wall_s": h.WallS, "error": tail(h.Err, 400)},
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": levelOf(verif, prop), "coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func levelOf(verif, prop string) string {
	b, err := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return c.Level
				}
			}
		}
	}
	return "proof"
}

var assumptions = []string{
	"partial correctness: termination is not proved",
	"machine integers are exact bit-vectors; slices and maps hold at most 2^48 elements",
	"an interface of this repository holds one of the implementations in this repository; function-valued arguments are pure",
	"parameters that are pointers to different objects do not alias unless the contract says so",
	"sequential contracts plus the lock discipline stand for concurrent behaviour (every operation is one critical section)",
	"the Go compiler and runtime implement the language as go/ssa reads it; out-of-memory is not modelled",
}

// learn verifies everything and records hints.
func learn(args []string) int {
	fs := flag.NewFlagSet("learn", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	full := fs.Bool("full", false, "")
	keep := fs.Bool("keep", false, "")
	fs.Parse(args)
	d, err := newDriver(*verif, *repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer d.close()
	d.learn = true
	d.full = *full
	var ts []task
	for _, w := range []int{16, 32, 64} {
		for _, k := range d.specs[w].order {
			c := d.specs[w].byKey[k]
			if c.Trusted {
				continue
			}
			hit := fs.NArg() == 0
			for _, a := range fs.Args() {
				if strings.Contains(k, a) {
					hit = true
				}
			}
			if !hit || d.canonical(task{k, w}).w != w {
				continue
			}
			ts = append(ts, task{k, w})
		}
	}
	os.MkdirAll(filepath.Join(*verif, "hints"), 0o755)
	hs := map[int]*Hints{}
	for _, w := range []int{16, 32, 64} {
		f := filepath.Join(*verif, "hints", fmt.Sprintf("w%d.json", w))
		hs[w] = LoadHints(f)
		if fs.NArg() == 0 && !*keep {
			hs[w] = LoadHints("")
		}
	}
	d.onResult = func(t task, r *response) {
		if r.Hints == nil || !r.proved() {
			return
		}
		h := hs[t.w]
		for k, v := range r.Hints.Engines {
			h.Engines[k] = v
		}
		for k, v := range r.Hints.Loops {
			h.Loops[k] = v
		}
		h.write(filepath.Join(*verif, "hints", fmt.Sprintf("w%d.json", t.w)))
	}
	failed, err := d.run(ts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, r := range failed {
		for _, o := range r.Obls {
			if o.Status != "proved" {
				fmt.Printf("FAILED %s: %s\n", oblName(task{r.Req.Key, r.Req.W}, o.Label), o.Msg)
			}
		}
		if r.Undecided != "" {
			fmt.Printf("UNDECIDED %s: %s\n", task{r.Req.Key, r.Req.W}, r.Undecided)
		}
	}
	var ks []string
	for t, r := range d.results {
		if r.WallMs > 15000 {
			ks = append(ks, fmt.Sprintf("%s %.0fs", t, float64(r.WallMs)/1000))
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("slow", k)
	}
	fmt.Println(len(d.results), "functions,", len(failed), "failed")
	return 0
}

var _ io.Writer
