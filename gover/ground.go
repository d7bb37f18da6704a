package main

import (
	"fmt"
	"strings"
)

// Ground instantiation: the quantified assumptions of a query are replaced by
// finitely many of their instances, chosen by the patterns of the quantifiers.
// Every instance follows from the assumptions, so a contradiction among the
// instances is a contradiction among the assumptions; nothing is concluded
// when there is none.

type quantifier struct {
	proxy *Term
	q     *Term
	pol   bool // true: q is a forall asserted; false: q is an exists denied
	done  map[[4]int]bool
	cands [][]*candSet
}

type grounder struct {
	out    []*Term
	qs     []*quantifier
	byQ    map[string]*Term
	pool   map[string][]*Term
	inPool map[string]bool
	sk     map[*Sort][]*Term
	fam    map[*Term]*Term
	seen   map[*Term]bool
	n      int
	size   int
}

const (
	groundMax  = 2500
	groundSize = 400000
)

func (g *grounder) find(a *Term) *Term {
	for g.fam[a] != nil {
		a = g.fam[a]
	}
	return a
}

func (g *grounder) union(a, b *Term) {
	a, b = g.base(a), g.base(b)
	if a != b {
		if a.ID > b.ID {
			a, b = b, a
		}
		g.fam[b] = a
	}
}

// base is the representative of the arrays connected with a.
func (g *grounder) base(a *Term) *Term {
	for {
		switch a.Op {
		case "store":
			a = a.Args[0]
			continue
		case "ite":
			x, y := g.base(a.Args[1]), g.base(a.Args[2])
			if x != y {
				g.union(x, y)
			}
			return g.find(x)
		case "select":
			return g.find(mkSortTerm(a.Sort))
		}
		return g.find(a)
	}
}

func mkSortTerm(s *Sort) *Term { return Const("fam_"+sanitize(s.str), BoolS) }

// families joins arrays that are equated anywhere.
func (g *grounder) families(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if (t.Op == "=" || t.Op == "ite") && t.Args[len(t.Args)-1].Sort.K == SArr {
		n := len(t.Args)
		g.union(t.Args[n-2], t.Args[n-1])
	}
	for _, a := range t.Args {
		g.families(a, seen)
	}
}

func (g *grounder) add(key string, t *Term) {
	k := fmt.Sprintf("%s|%d", key, t.ID)
	if !g.inPool[k] {
		g.inPool[k] = true
		g.pool[key] = append(g.pool[key], t)
	}
}

func (g *grounder) selKey(a *Term) string { return fmt.Sprintf("s%d", g.base(a).ID) }

// collect records the ground terms a pattern could match.
func (g *grounder) collect(t *Term) {
	if g.seen[t] || t.free {
		return
	}
	g.seen[t] = true
	switch t.Op {
	case "select":
		g.add(g.selKey(t.Args[0]), t.Args[1])
	case "store":
		g.add(g.selKey(t.Args[0]), t.Args[1])
	case "app":
		if strings.HasPrefix(t.Name, "trg.") {
			break
		}
		for i, a := range t.Args {
			g.add(fmt.Sprintf("a%s/%d", t.Name, i), a)
		}
	}
	for _, a := range t.Args {
		g.collect(a)
	}
}

// nnf turns t (or its negation) into a formula without quantifiers: those that
// act universally are named by a proxy, the others get witnesses.
func (g *grounder) nnf(t *Term, pol bool) *Term {
	if !t.quant {
		if t.free {
			return Bool(true)
		}
		g.collect(t)
		if pol {
			return t
		}
		return Not(t)
	}
	switch t.Op {
	case "not":
		return g.nnf(t.Args[0], !pol)
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, g.nnf(a, pol))
		}
		if (t.Op == "and") == pol {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		a, b := g.nnf(t.Args[0], !pol), g.nnf(t.Args[1], pol)
		if pol {
			return Or(a, b)
		}
		return And(a, b)
	case "ite":
		c, n := g.nnf(t.Args[0], true), g.nnf(t.Args[0], false)
		a, b := g.nnf(t.Args[1], pol), g.nnf(t.Args[2], pol)
		return And(Or(n, a), Or(c, b))
	case "=":
		if t.Args[0].Sort != BoolS {
			break
		}
		p, np := g.nnf(t.Args[0], true), g.nnf(t.Args[0], false)
		q, nq := g.nnf(t.Args[1], true), g.nnf(t.Args[1], false)
		if pol {
			return And(Or(np, q), Or(p, nq))
		}
		return And(Or(p, q), Or(np, nq))
	case "forall", "exists":
		if (t.Op == "forall") == pol {
			key := fmt.Sprintf("%d|%v", t.ID, pol)
			if p, ok := g.byQ[key]; ok {
				return p
			}
			p := Const(fmt.Sprintf("gq%d_%v", t.ID, pol), BoolS)
			g.byQ[key] = p
			g.qs = append(g.qs, &quantifier{proxy: p, q: t, pol: pol, done: map[[4]int]bool{}})
			return p
		}
		m := map[*Term]*Term{}
		for i, v := range t.Bound {
			c := Const(fmt.Sprintf("gs%d_%v_%d", t.ID, pol, i), v.Sort)
			m[v] = c
			if len(t.Pats) == 0 {
				g.skolem(c)
			}
		}
		for _, ps := range t.Pats {
			for _, p := range ps {
				g.collect(Subst(p, m))
			}
		}
		return g.nnf(Subst(t.Args[0], m), pol)
	}
	return Bool(true) // a quantifier below a term: nothing to say
}

func (g *grounder) skolem(c *Term) {
	for _, x := range g.sk[c.Sort] {
		if x == c {
			return
		}
	}
	g.sk[c.Sort] = append(g.sk[c.Sort], c)
}

// offset matches v, v+c; ok is false when u has another form.
func offset(u, v *Term) (*Term, bool) {
	if u == v {
		return nil, true
	}
	if u.Op == "bvadd" && len(u.Args) == 2 {
		if u.Args[0] == v && u.Args[1].IsNum() {
			return u.Args[1], true
		}
		if u.Args[1] == v && u.Args[0].IsNum() {
			return u.Args[0], true
		}
	}
	return nil, false
}

// candSet is the growing list of values for one variable of one pattern.
type candSet struct {
	vals []*Term
	has  map[*Term]bool
	upto map[string]int // how much of each pool was taken
	old  int
}

// occ finds the candidates of v from its occurrences in a pattern term.
func (g *grounder) occ(t, v *Term, cs *candSet) {
	use := func(key string, u *Term) {
		if u != v && u.Op != "bvadd" {
			return
		}
		if c, ok := offset(u, v); ok {
			pool := g.pool[key]
			k2 := key
			if c != nil {
				k2 = fmt.Sprintf("%s+%d", key, c.ID)
			}
			for _, x := range pool[cs.upto[k2]:] {
				if x.Sort != v.Sort {
					continue
				}
				if c != nil {
					x = Sub(x, c)
				}
				if !cs.has[x] {
					cs.has[x] = true
					cs.vals = append(cs.vals, x)
				}
			}
			cs.upto[k2] = len(pool)
		}
	}
	switch t.Op {
	case "select":
		use(g.selKey(t.Args[0]), t.Args[1])
	case "app":
		for i, a := range t.Args {
			use(fmt.Sprintf("a%s/%d", t.Name, i), a)
		}
	}
	for _, a := range t.Args {
		if a.free {
			g.occ(a, v, cs)
		}
	}
}

// tuples calls emit with the new instances of q.
func (g *grounder) tuples(q *quantifier, emit func([]*Term)) {
	n := len(q.q.Pats)
	if n == 0 {
		n = 1
	}
	if q.cands == nil {
		q.cands = make([][]*candSet, n)
		for i := range q.cands {
			for range q.q.Bound {
				q.cands[i] = append(q.cands[i], &candSet{has: map[*Term]bool{}, upto: map[string]int{}})
			}
		}
	}
	for pi, cands := range q.cands {
		total, fresh := 1, false
		for vi, v := range q.q.Bound {
			cs := cands[vi]
			if len(q.q.Pats) == 0 {
				cs.vals = g.sk[v.Sort]
			} else {
				for _, t := range q.q.Pats[pi] {
					g.occ(t, v, cs)
				}
			}
			total *= len(cs.vals)
			fresh = fresh || len(cs.vals) > cs.old
		}
		if total == 0 || total > 900 || !fresh {
			continue
		}
		cur := make([]*Term, len(cands))
		var rec func(i int, isNew bool)
		rec = func(i int, isNew bool) {
			if i == len(cands) {
				if isNew {
					emit(cur)
				}
				return
			}
			for k, t := range cands[i].vals {
				cur[i] = t
				rec(i+1, isNew || k >= cands[i].old)
			}
		}
		rec(0, false)
		for _, cs := range cands {
			cs.old = len(cs.vals)
		}
	}
}

// ground returns quantifier-free consequences of as: after one round of
// instantiation, and after three.
func ground(as []*Term) (first, all []*Term) {
	g := &grounder{byQ: map[string]*Term{}, pool: map[string][]*Term{}, inPool: map[string]bool{}, sk: map[*Sort][]*Term{}, fam: map[*Term]*Term{}, seen: map[*Term]bool{}}
	seen := map[*Term]bool{}
	for _, a := range as {
		g.families(a, seen)
	}
	var sks func(t *Term)
	seen2 := map[*Term]bool{}
	sks = func(t *Term) {
		if seen2[t] {
			return
		}
		seen2[t] = true
		if t.Op == "const" && strings.HasPrefix(t.Name, "sk_") {
			g.skolem(t)
		}
		for _, a := range t.Args {
			sks(a)
		}
	}
	for _, a := range as {
		sks(a)
	}
	for _, a := range as {
		if a.Op == "app" && strings.HasPrefix(a.Name, "trg.") {
			g.collect(a.Args[0])
			continue
		}
		if f := g.nnf(a, true); f != True {
			g.out = append(g.out, f)
		}
	}
	for round := 0; round < 3; round++ {
		type inst struct {
			q *quantifier
			t []*Term
		}
		var todo []inst
		for _, q := range g.qs {
			g.tuples(q, func(t []*Term) {
				var k [4]int
				if len(t) <= 4 {
					for i, x := range t {
						k[i] = x.ID
					}
					if q.done[k] {
						return
					}
					q.done[k] = true
				}
				todo = append(todo, inst{q, append([]*Term(nil), t...)})
			})
		}
		if len(todo) == 0 {
			break
		}
		for _, in := range todo {
			if g.n >= groundMax || g.size > groundSize {
				break
			}
			m := map[*Term]*Term{}
			for i, v := range in.q.q.Bound {
				m[v] = in.t[i]
			}
			b := g.nnf(Subst(in.q.q.Args[0], m), in.q.pol)
			f := Implies(in.q.proxy, b)
			if f != True {
				g.n++
				g.size += f.size
				g.out = append(g.out, f)
			}
		}
		if round == 0 {
			first = append([]*Term(nil), g.out...)
		}
		if g.n >= groundMax || g.size > groundSize {
			break
		}
	}
	return first, g.out
}
