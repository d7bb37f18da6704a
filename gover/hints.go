package main

// Hints speed up a re-run and never decide anything: for a query, the engine
// that answered it last time is tried first; for a loop, the invariant
// candidates that survived last time are tried first. Every query is still
// sent to a solver, and when a hint does not work out the full search runs.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"sync"
)

type Hints struct {
	mu      sync.Mutex
	Engines map[string]string   `json:"engines"` // query hash -> engine, when not the default
	Loops   map[string][]string `json:"loops"`   // loop key -> surviving candidates
	seenE   map[string]bool
	seenL   map[string]bool
}

func LoadHints(f string) *Hints {
	h := &Hints{Engines: map[string]string{}, Loops: map[string][]string{}, seenE: map[string]bool{}, seenL: map[string]bool{}}
	if b, err := os.ReadFile(f); err == nil {
		_ = json.Unmarshal(b, h)
	}
	return h
}

func hintKey(body string) string {
	s := sha256.Sum256([]byte(body))
	return fmt.Sprintf("%x", s[:6])
}

func (h *Hints) engine(body string) string {
	h.mu.Lock()
	defer h.mu.Unlock()
	e := h.Engines[hintKey(body)]
	if _, ok := engines[e]; !ok {
		return ""
	}
	return e
}

func (h *Hints) record(body, n string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	k := hintKey(body)
	h.seenE[k] = true
	if n == "z3i" || n == "z3n" && h.Engines[k] == "" {
		delete(h.Engines, k)
		return
	}
	h.Engines[k] = n
}

func (h *Hints) loop(key string) ([]string, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	l, ok := h.Loops[key]
	return l, ok
}

func (h *Hints) recordLoop(key string, on []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	sort.Strings(on)
	h.Loops[key] = on
	h.seenL[key] = true
}

func (h *Hints) reset() {
	h.mu.Lock()
	h.seenE, h.seenL = map[string]bool{}, map[string]bool{}
	h.mu.Unlock()
}

// learned are the hints of the run since reset.
func (h *Hints) learned() *Hints {
	h.mu.Lock()
	defer h.mu.Unlock()
	o := &Hints{Engines: map[string]string{}, Loops: map[string][]string{}}
	for k := range h.seenE {
		if e, ok := h.Engines[k]; ok {
			o.Engines[k] = e
		}
	}
	for k := range h.seenL {
		o.Loops[k] = h.Loops[k]
	}
	return o
}

// Save writes the hints used or learned by this run.
func (h *Hints) Save(f string) error {
	o := &Hints{Engines: map[string]string{}, Loops: map[string][]string{}}
	for k := range h.seenE {
		if e, ok := h.Engines[k]; ok {
			o.Engines[k] = e
		}
	}
	for k := range h.seenL {
		o.Loops[k] = h.Loops[k]
	}
	return o.write(f)
}

func (o *Hints) write(f string) error {
	b, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, append(b, '\n'), 0o644)
}
