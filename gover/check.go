package main

// The check of one property: verify every function under contract for it,
// and every contract those proofs use.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type request struct {
	Key      string   `json:"key"`
	W        int      `json:"w"`
	Drop     []string `json:"drop"`
	Full     bool     `json:"full"`
	Deadline int64    `json:"deadline"`
	Learn    bool     `json:"learn"`
	Locks    bool     `json:"locks"` // only the obligations of the lock discipline
	Par      int      `json:"par"`
}

type oblOut struct {
	Label, Status, Solver, Msg, Model string
	Ms                                int64
}

type response struct {
	Req       request
	Obls      []oblOut
	Used      []string
	Inlined   []string
	Trusted   []string
	Undecided string
	Missing   bool
	Queries   int
	SolverMs  int64
	WallMs    int64
	Exits     int
	Loops     int
	Hints     *Hints
	Failing   []string // SMT scripts of the obligations that failed
}

func (r *response) proved() bool {
	if r.Undecided != "" || r.Missing {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return len(r.Obls) > 0 || r.Req.Locks
}

// worker answers requests on stdin, one JSON object per line.
func worker(verif, repo string) {
	p, err := LoadProgram(repo)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	if err != nil {
		enc.Encode(map[string]string{"error": err.Error()})
		out.Flush()
		return
	}
	enc.Encode(map[string]string{"ready": "yes"})
	out.Flush()
	type wctx struct {
		c       *Ctx
		gi      *globalInfo
		globals map[string]int
		specs   *SpecSet
		snap    termState
		hints   *Hints
		x0      *Exec
	}
	var cur *wctx
	curW := -1
	pristine := snapshotTerms()
	in := json.NewDecoder(os.Stdin)
	for {
		var rq request
		if in.Decode(&rq) != nil {
			return
		}
		rs := response{Req: rq}
		if curW != rq.W {
			restoreTerms(pristine)
			specs, err := LoadSpecs(filepath.Join(verif, "contracts"), rq.W)
			if err != nil {
				rs.Undecided = err.Error()
				enc.Encode(rs)
				out.Flush()
				continue
			}
			c := &Ctx{W: rq.W, prog: p.prog, pkgs: p.pkgs, leafTab: map[string][]Leaf{}}
			autoGuard(c, specs)
			x0 := NewExec(c, specs, NewSolver(rq.Par, 10))
			_ = x0
			gi, globals := setupGlobals(c, specs, NewSolver(rq.Par, 10))
			globalsMemo = gi
			cur = &wctx{c: c, gi: gi, specs: specs, hints: LoadHints(filepath.Join(verif, "hints", fmt.Sprintf("w%d.json", rq.W)))}
			cur.x0 = &Exec{globals: globals}
			cur.snap = snapshotTerms()
			curW = rq.W
		}
		specs := cur.specs.without(rq.Drop)
		ct := specs.byKey[rq.Key]
		fn := p.fns[rq.Key]
		if ct == nil || fn == nil {
			rs.Missing = true
			enc.Encode(rs)
			out.Flush()
			continue
		}
		cur.c.leafTab = map[string][]Leaf{}
		restoreTerms(cur.snap)
		sol := NewSolver(rq.Par, 10)
		cur.hints.reset()
		sol.hints = cur.hints
		x := NewExec(cur.c, specs, sol)
		if rq.Deadline > 0 {
			sol.deadline = time.Unix(rq.Deadline, 0)
		}
		x.light = !rq.Full
		x.locks = rq.Locks
		x.noCands = rq.Locks && !rq.Full
		if rq.Full {
			x.invSecs = 12
		}
		for g, id := range cur.x0.globals {
			x.globals[g] = id
		}
		secs := 15.0
		if ct.Secs > 0 {
			secs = ct.Secs
		}
		t0 := time.Now()
		r := x.Verify(ct, fn, secs)
		rs.WallMs = time.Since(t0).Milliseconds()
		rs.Used, rs.Inlined, rs.Trusted, rs.Undecided = r.Used, r.Inlined, r.Trusted, r.Undecided
		rs.Queries, rs.SolverMs, rs.Exits, rs.Loops = r.Queries, r.SolverMs, r.Exits, r.Loops
		for _, o := range r.Obls {
			oo := oblOut{Label: o.Label, Status: o.Status, Solver: o.Solver, Msg: o.Msg, Ms: o.Ms}
			if o.Status != "proved" {
				oo.Model = o.Model
				if len(oo.Model) > 4000 {
					oo.Model = oo.Model[:4000]
				}
			}
			rs.Obls = append(rs.Obls, oo)
		}
		if rq.Learn {
			rs.Hints = cur.hints.learned()
		}
		enc.Encode(rs)
		out.Flush()
	}
}

func (s *SpecSet) without(drop []string) *SpecSet {
	if len(drop) == 0 {
		return s
	}
	n := *s
	n.byKey = map[string]*Contract{}
	for k, v := range s.byKey {
		n.byKey[k] = v
	}
	n.dropped = map[string]*Contract{}
	for _, d := range drop {
		if c := n.byKey[d]; c != nil {
			n.dropped[d] = c
		}
		delete(n.byKey, d)
	}
	return &n
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	dec *json.Decoder
}

func startWorker(verif, repo string) (*proc, error) {
	cmd := exec.Command(os.Args[0], "worker", verif, repo)
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &proc{cmd, in, json.NewDecoder(bufio.NewReaderSize(o, 1<<20))}
	var hello map[string]string
	if err := p.dec.Decode(&hello); err != nil {
		return nil, err
	}
	if e := hello["error"]; e != "" {
		return nil, fmt.Errorf("%s", e)
	}
	return p, nil
}

func (p *proc) ask(rq request) response {
	b, _ := json.Marshal(rq)
	p.in.Write(append(b, '\n'))
	var rs response
	if err := p.dec.Decode(&rs); err != nil {
		return response{Req: rq, Undecided: "verifier process ended: " + err.Error()}
	}
	return rs
}

type task struct {
	key string
	w   int
}

func (t task) String() string { return fmt.Sprintf("%s[%d]", t.key, t.w) }

// driver runs verification tasks over a pool of workers.
type driver struct {
	verif, repo string
	specs       map[int]*SpecSet
	results     map[task]*response
	dropped     map[int]map[string]bool
	deadline    time.Time
	full        bool
	learn       bool
	stopOnFail  bool
	locks       bool
	procs       int
	loadErr     error
	log         io.Writer
	pool        chan *proc
	onResult    func(task, *response)
}

func newDriver(verif, repo string) (*driver, error) {
	d := &driver{verif: verif, repo: repo, specs: map[int]*SpecSet{}, results: map[task]*response{}, dropped: map[int]map[string]bool{}, procs: 4, log: os.Stderr}
	for _, w := range []int{16, 32, 64} {
		s, err := LoadSpecs(filepath.Join(verif, "contracts"), w)
		if err != nil {
			return nil, err
		}
		d.specs[w] = s
		d.dropped[w] = map[string]bool{}
	}
	return d, nil
}

func (d *driver) widths(c *Contract) []int {
	if len(c.Widths) > 0 {
		return c.Widths
	}
	return []int{16, 32, 64}
}

// roots are the tasks that carry the property.
func (d *driver) roots(prop string) []task {
	var out []task
	for _, w := range []int{16, 32, 64} {
		s := d.specs[w]
		for _, k := range s.order {
			c := s.byKey[k]
			if c.Trusted || c.Optional || !contains(c.Props, prop) {
				continue
			}
			for _, cw := range d.widths(c) {
				if cw == w {
					out = append(out, task{k, w})
				}
			}
		}
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// canonical maps a task to the width its contract is verified at.
func (d *driver) canonical(t task) task {
	c := d.specs[t.w].byKey[t.key]
	ws := d.widths(c)
	for _, w := range ws {
		if w == t.w {
			return t
		}
	}
	return task{t.key, ws[0]}
}

// run verifies the tasks and everything they use. It returns the first task
// that fails for good, or nil.
func (d *driver) run(roots []task) (failed []*response, err error) {
	if d.pool == nil {
		d.pool = make(chan *proc, d.procs)
		for i := 0; i < d.procs; i++ {
			d.pool <- nil
		}
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []task{}
	state := map[task]int{} // 1 queued/running, 2 done
	running := 0
	enqueue := func(t task) {
		t = d.canonical(t)
		if state[t] == 0 {
			state[t] = 1
			queue = append(queue, t)
		}
	}
	for _, t := range roots {
		enqueue(t)
	}
	stop := false
	handle := func(t task, rs *response) {
		d.results[t] = rs
		if d.onResult != nil {
			d.onResult(t, rs)
		}
		state[t] = 2
		c := d.specs[t.w].byKey[t.key]
		if !rs.proved() {
			if rs.Missing && (c.Optional || unexported(t.key)) {
				return
			}
			if c.Optional && !d.learn {
				// the helper no longer meets its own contract: its callers are
				// verified with its body instead
				fmt.Fprintf(d.log, "  helper contract %s dropped (%s)\n", t, firstFailure(rs))
				d.dropped[t.w][t.key] = true
				for o, r := range d.results {
					if o.w == t.w && contains(r.Used, t.key) {
						state[o] = 0
						delete(d.results, o)
						enqueue(o)
					}
				}
				return
			}
			failed = append(failed, rs)
			if d.stopOnFail {
				stop = true
			}
			return
		}
		for _, u := range rs.Used {
			uc := d.specs[t.w].byKey[u]
			if uc == nil || uc.Trusted || d.dropped[t.w][u] || d.locks && strings.HasPrefix(u, "tree/id") {
				continue
			}
			enqueue(task{u, t.w})
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < d.procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := <-d.pool
			defer func() { d.pool <- p }()
			for {
				mu.Lock()
				for len(queue) == 0 && running > 0 && !stop {
					cond.Wait()
				}
				if len(queue) == 0 || stop {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				t := queue[0]
				queue = queue[1:]
				running++
				var drop []string
				for k := range d.dropped[t.w] {
					drop = append(drop, k)
				}
				sort.Strings(drop)
				mu.Unlock()
				var rs response
				var e error
				if p == nil {
					p, e = startWorker(d.verif, d.repo)
				}
				if e == nil {
					rq := request{Key: t.key, W: t.w, Drop: drop, Full: d.full, Learn: d.learn, Locks: d.locks, Par: 3}
					if !d.deadline.IsZero() {
						rq.Deadline = d.deadline.Unix()
					}
					rs = p.ask(rq)
				} else {
					p = nil
				}
				mu.Lock()
				running--
				if e != nil {
					err = e
					stop = true
				} else {
					fmt.Fprintf(d.log, "  %-60s %s\n", t, summary(&rs))
					// a helper dropped meanwhile
					stale := false
					for _, u := range rs.Used {
						if d.dropped[t.w][u] {
							stale = true
						}
					}
					if stale {
						state[t] = 0
						enqueue(t)
					} else {
						handle(t, &rs)
					}
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return failed, err
}

func (d *driver) close() {
	if d.pool == nil {
		return
	}
	for i := 0; i < d.procs; i++ {
		if p := <-d.pool; p != nil {
			p.in.Close()
			p.cmd.Process.Kill()
			p.cmd.Wait()
		}
	}
	d.pool = nil
}

func unexported(key string) bool {
	n := key[strings.LastIndex(key, ".")+1:]
	return n != "" && n[0] >= 'a' && n[0] <= 'z'
}

func firstFailure(r *response) string {
	if r.Missing {
		return "function not found"
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return o.Label + ": " + o.Msg
		}
	}
	return r.Undecided
}

func summary(r *response) string {
	if r.Missing {
		return "missing"
	}
	ok := 0
	for _, o := range r.Obls {
		if o.Status == "proved" {
			ok++
		}
	}
	s := fmt.Sprintf("%d/%d obligations, %d queries, %.1fs", ok, len(r.Obls), r.Queries, float64(r.WallMs)/1000)
	if !r.proved() {
		s += "  FAILED " + firstFailure(r)
	}
	return s
}

// closure of the results the property rests on.
func (d *driver) closure(roots []task) []task {
	seen := map[task]bool{}
	var out []task
	var walk func(t task)
	walk = func(t task) {
		if d.specs[t.w].byKey[t.key] == nil {
			return
		}
		t = d.canonical(t)
		if seen[t] || d.dropped[t.w][t.key] {
			return
		}
		r := d.results[t]
		if r == nil {
			return
		}
		seen[t] = true
		out = append(out, t)
		for _, u := range r.Used {
			walk(task{u, t.w})
		}
	}
	for _, t := range roots {
		walk(t)
	}
	return out
}
