package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// IntScript renders quantifier-free assertions with bit-vectors as integers
// in [0, 2^w). Comparison, addition, subtraction, negation, extension and
// concatenation are exact; every other bit-vector operation becomes an
// uninterpreted function, so the rendering is a weakening: it can only be
// used to derive unsatisfiability.
func IntScript(asserts []*Term) string {
	r := &intR{names: map[*Term]string{}, decl: map[string]string{}, sorts: map[string]bool{}, cnt: map[*Term]int{}}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		r.cnt[t]++
		if r.cnt[t] > 1 {
			return
		}
		r.sort(t.Sort)
		if t.Op == "constarr" {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	for _, t := range order {
		if t.Op == "const" || t.Op == "num" || t.Op == "true" || t.Op == "false" {
			if t.Op == "const" {
				r.decl[symName(t.Name)] = fmt.Sprintf("(declare-fun %s () %s)", symName(t.Name), r.sort(t.Sort))
				r.rng(t, symName(t.Name))
			}
			continue
		}
		s := r.op(t)
		if (r.cnt[t] > 1 || t.Sort.K == SBV && t.Op != "select" && t.Op != "app" && t.Op != "zext") && t.Sort.K != SBool || r.cnt[t] > 1 && t.size > 3 {
			n := fmt.Sprintf("d%d", t.ID)
			fmt.Fprintf(&r.b, "(define-fun %s () %s %s)\n", n, r.sort(t.Sort), s)
			s = n
		}
		r.names[t] = s
		switch t.Op {
		case "bvadd", "bvsub", "bvnot", "zext", "sext", "ite", "concat", "=", "and", "or", "not", "=>", "bvult", "bvule", "bvslt", "bvsle", "store", "constarr", "bvneg":
		default:
			r.rng(t, s)
		}
		r.facts(t, s)
	}
	var out strings.Builder
	var sn, dn []string
	for s := range r.sorts {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", s)
	}
	for _, d := range r.decl {
		dn = append(dn, d)
	}
	sort.Strings(dn)
	for _, d := range dn {
		out.WriteString(d + "\n")
	}
	out.WriteString(r.b.String())
	for _, a := range asserts {
		fmt.Fprintf(&out, "(assert %s)\n", r.str(a))
	}
	return out.String()
}

type intR struct {
	b     strings.Builder
	names map[*Term]string
	decl  map[string]string
	sorts map[string]bool
	cnt   map[*Term]int
}

func (r *intR) sort(s *Sort) string {
	switch s.K {
	case SBV:
		return "Int"
	case SArr:
		return "(Array " + r.sort(s.Idx) + " " + r.sort(s.Elem) + ")"
	case SUn:
		r.sorts[s.Name] = true
	}
	return s.str
}

func pow2(w int) string { return new(big.Int).Lsh(big.NewInt(1), uint(w)).String() }

func (r *intR) rng(t *Term, s string) {
	if t.Sort.K == SBV {
		fmt.Fprintf(&r.b, "(assert (and (<= 0 %s) (< %s %s)))\n", s, s, pow2(t.Sort.W))
	}
}

// facts about operations left uninterpreted
func (r *intR) facts(t *Term, s string) {
	switch t.Op {
	case "bvand":
		fmt.Fprintf(&r.b, "(assert (and (<= %s %s) (<= %s %s)))\n", s, r.str(t.Args[0]), s, r.str(t.Args[1]))
	case "bvor":
		fmt.Fprintf(&r.b, "(assert (and (>= %s %s) (>= %s %s)))\n", s, r.str(t.Args[0]), s, r.str(t.Args[1]))
	case "bvlshr", "bvudiv", "bvurem":
		if t.Op != "bvudiv" {
			fmt.Fprintf(&r.b, "(assert (<= %s %s))\n", s, r.str(t.Args[0]))
		}
	}
}

func (r *intR) str(t *Term) string {
	if n, ok := r.names[t]; ok {
		return n
	}
	switch t.Op {
	case "const":
		return symName(t.Name)
	case "num":
		return t.Val.String()
	case "true", "false":
		return t.Op
	case "constarr":
		n := fmt.Sprintf("ca%d", t.ID)
		r.decl[n] = fmt.Sprintf("(declare-fun %s () %s)", n, r.sort(t.Sort))
		r.names[t] = n
		return n
	}
	panic("intscript: " + t.Op)
}

func (r *intR) op(t *Term) string {
	var a []string
	for _, x := range t.Args {
		if t.Op != "constarr" {
			a = append(a, r.str(x))
		}
	}
	m := ""
	if t.Sort.K == SBV {
		m = pow2(t.Sort.W)
	}
	list := func(op string) string { return "(" + op + " " + strings.Join(a, " ") + ")" }
	switch t.Op {
	case "=", "and", "or", "not", "=>", "ite", "select", "store":
		return list(t.Op)
	case "constarr":
		return r.str(t)
	case "bvadd":
		// a constant that is negative in two's complement subtracts
		s := list("+")
		return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", s, m, s, m, s)
	case "bvsub":
		return fmt.Sprintf("(ite (>= %s %s) (- %s %s) (+ (- %s %s) %s))", a[0], a[1], a[0], a[1], a[0], a[1], m)
	case "bvneg":
		return fmt.Sprintf("(ite (= %s 0) 0 (- %s %s))", a[0], m, a[0])
	case "bvnot":
		return fmt.Sprintf("(- (- %s 1) %s)", m, a[0])
	case "zext":
		return a[0]
	case "sext":
		w := t.Args[0].Sort.W
		return fmt.Sprintf("(ite (>= %s %s) (+ (- %s %s) %s) %s)", a[0], pow2(w-1), m, pow2(w), a[0], a[0])
	case "concat":
		return fmt.Sprintf("(+ (* %s %s) %s)", pow2(t.Args[1].Sort.W), a[0], a[1])
	case "bvult":
		return list("<")
	case "bvule":
		return list("<=")
	case "bvslt", "bvsle":
		w := t.Args[0].Sort.W
		f := func(s string) string {
			return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", s, pow2(w-1), s, pow2(w), s)
		}
		op := "<"
		if t.Op == "bvsle" {
			op = "<="
		}
		return "(" + op + " " + f(a[0]) + " " + f(a[1]) + ")"
	}
	name := t.Op
	if t.Op == "app" {
		name = t.Name
	} else {
		name = "op_" + sanitize(t.Op)
		for _, x := range t.Args {
			name += "_" + sanitize(x.Sort.str)
		}
		name += "_" + sanitize(t.Sort.str)
	}
	var ss []string
	for _, x := range t.Args {
		ss = append(ss, r.sort(x.Sort))
	}
	r.decl[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(ss, " "), r.sort(t.Sort))
	return "(" + name + " " + strings.Join(a, " ") + ")"
}
