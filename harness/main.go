// Command harness runs the real code of /repo against an executable oracle of
// one property. It stands behind the proofs: it looks for a failing input when
// an obligation fails, and cross-checks the contracts when none does. What it
// finds is bounded exploration, never counted as proof.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type ctx struct {
	*rand.Rand
	start, deadline time.Time
	secs            float64
	out             string

	mu       sync.Mutex
	hist     []string
	input    map[string]interface{}
	lastStep time.Time

	cases    int64
	distinct map[uint64]bool
	what     string
	bound    string
}

type failure struct{ msg string }

// left reports whether there is time for another case.
func (c *ctx) left() bool { return time.Now().Before(c.deadline) }

// begin starts a case.
func (c *ctx) begin(input map[string]interface{}) {
	c.mu.Lock()
	c.finish()
	c.hist = c.hist[:0]
	c.input = input
	c.lastStep = time.Now()
	c.cases++
	c.mu.Unlock()
}

func (c *ctx) finish() {
	if len(c.hist) > 0 && len(c.distinct) < 1<<20 {
		h := fnv.New64a()
		for _, s := range c.hist {
			h.Write([]byte(s))
			h.Write([]byte{0})
		}
		c.distinct[h.Sum64()] = true
	}
}

// step records one call about to be made on the real code.
func (c *ctx) step(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.mu.Lock()
	c.hist = append(c.hist, s)
	c.lastStep = time.Now()
	c.mu.Unlock()
}

func (c *ctx) fail(format string, a ...interface{}) { panic(failure{fmt.Sprintf(format, a...)}) }

func (c *ctx) check(ok bool, format string, a ...interface{}) {
	if !ok {
		c.fail(format, a...)
	}
}

func (c *ctx) report(fail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.finish()
	h := c.hist
	if len(h) > 400 {
		h = append([]string{fmt.Sprintf("... %d earlier steps", len(h)-400)}, h[len(h)-400:]...)
	}
	o := map[string]interface{}{"cases": c.cases, "distinct": len(c.distinct), "what": c.what, "bound": c.bound, "failure": fail}
	if fail != "" {
		o["input"] = c.input
		o["history"] = h
	} else if len(h) > 0 {
		o["sample"] = h
	}
	b, _ := json.MarshalIndent(o, "", " ")
	if c.out != "" {
		os.WriteFile(c.out, append(b, '\n'), 0o644)
	} else {
		fmt.Println(string(b))
	}
}

type propRun struct {
	what, bound string
	run         func(c *ctx)
	hang        time.Duration // longest time one recorded step may take
}

var props = map[string]propRun{}

func main() {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	secs := flag.Float64("secs", 4, "")
	out := flag.String("out", "", "")
	flag.Parse()
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		os.Exit(2)
	}
	debug.SetMemoryLimit(4 << 30)
	now := time.Now()
	c := &ctx{Rand: rand.New(rand.NewSource(*seed)), start: now, secs: *secs, deadline: now.Add(time.Duration(*secs * float64(time.Second))), out: *out, lastStep: now, distinct: map[uint64]bool{}, what: p.what, bound: p.bound}
	hang := p.hang
	if hang == 0 {
		hang = 20 * time.Second
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			c.mu.Lock()
			d := time.Since(c.lastStep)
			c.mu.Unlock()
			if d > hang {
				c.report(fmt.Sprintf("no answer: the last step of the history did not return within %.0fs", d.Seconds()))
				os.Exit(1)
			}
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				c.report(f.msg)
			} else {
				c.report(fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack()))))
			}
			os.Exit(1)
		}
	}()
	p.run(c)
	c.report("")
}

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// try runs f and turns a panic in it into a failure of the case.
func try(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(failure); ok {
				err = x.msg
				return
			}
			err = fmt.Sprintf("panic: %v\n%s", r, trim(string(debug.Stack())))
		}
	}()
	f()
	return ""
}
