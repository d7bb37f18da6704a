package main

import (
	"fmt"
	"strings"
)

// propAbs weakens assertions to quantifier-free ones in which every quantified
// subformula is one propositional atom, the same for formulas that differ only
// in the names of their bound variables and in their patterns. Assertions that
// hold for all values are instantiated with the constants that stand for the
// goal's variables. Chains of contracts that speak about the same formula
// ("x is in the set") are decided this way without looking inside it.
func propAbs(as []*Term) []*Term {
	p := &propAbser{canon: map[*Term]*Term{}, h: map[*Term]int{}, sk: map[*Sort][]*Term{}}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "const" && (strings.HasPrefix(t.Name, "sk_") || strings.HasPrefix(t.Name, "skp_")) {
			p.sk[t.Sort] = append(p.sk[t.Sort], t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	var out []*Term
	for _, a := range as {
		if a.Op == "app" && strings.HasPrefix(a.Name, "trg.") {
			continue
		}
		if f := p.abs(a, true, 0); f != True {
			out = append(out, f)
		}
	}
	return out
}

type propAbser struct {
	canon map[*Term]*Term
	h     map[*Term]int
	sk    map[*Sort][]*Term
}

// canonical renames bound variables by the height of their quantifier and
// drops patterns; it returns the height of t.
func (p *propAbser) canonical(t *Term) (*Term, int) {
	if !t.quant {
		return t, 0
	}
	if c, ok := p.canon[t]; ok {
		return c, p.h[t]
	}
	var args []*Term
	h := 0
	for _, a := range t.Args {
		c, ha := p.canonical(a)
		args = append(args, c)
		if ha > h {
			h = ha
		}
	}
	var r *Term
	if t.Op == "forall" || t.Op == "exists" {
		h++
		m := map[*Term]*Term{}
		var vs []*Term
		for i, v := range t.Bound {
			c := canonVar(fmt.Sprintf("cv%d_%d_%s", h, i, sanitize(v.Sort.str)), v.Sort)
			m[v] = c
			vs = append(vs, c)
		}
		r = quantT(t.Op, vs, Subst(args[0], m), nil)
	} else {
		r = rebuild(t, args)
	}
	p.canon[t], p.h[t] = r, h
	return r, h
}

func canonVar(name string, s *Sort) *Term {
	return intern("cvar|"+name, func() *Term { return &Term{Op: "bvar", Name: name, Sort: s, free: true} })
}

func (p *propAbser) abs(t *Term, pol bool, depth int) *Term {
	if !t.quant {
		if t.free {
			return True
		}
		if pol {
			return t
		}
		return Not(t)
	}
	switch t.Op {
	case "not":
		return p.abs(t.Args[0], !pol, depth)
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, p.abs(a, pol, depth))
		}
		if (t.Op == "and") == pol {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		a, b := p.abs(t.Args[0], !pol, depth), p.abs(t.Args[1], pol, depth)
		if pol {
			return Or(a, b)
		}
		return And(a, b)
	case "ite":
		c, n := p.abs(t.Args[0], true, depth), p.abs(t.Args[0], false, depth)
		a, b := p.abs(t.Args[1], pol, depth), p.abs(t.Args[2], pol, depth)
		return And(Or(n, a), Or(c, b))
	case "=":
		if t.Args[0].Sort != BoolS {
			break
		}
		a, na := p.abs(t.Args[0], true, depth), p.abs(t.Args[0], false, depth)
		b, nb := p.abs(t.Args[1], true, depth), p.abs(t.Args[1], false, depth)
		if pol {
			return And(Or(na, b), Or(a, nb))
		}
		return And(Or(a, b), Or(na, nb))
	case "forall", "exists":
		c, _ := p.canonical(t)
		if c == True || c == False {
			return Bool((c == True) == pol)
		}
		atom := Const(fmt.Sprintf("pa%d", c.ID), BoolS)
		if !pol {
			atom = Not(atom)
		}
		if (t.Op == "forall") != pol || len(t.Pats) > 0 || len(t.Bound) != 1 || depth > 2 {
			return atom
		}
		fs := []*Term{atom}
		for _, s := range p.sk[t.Bound[0].Sort] {
			fs = append(fs, p.abs(Subst(t.Args[0], map[*Term]*Term{t.Bound[0]: s}), pol, depth+1))
		}
		return And(fs...)
	}
	return True
}
