package main

// Contract files: parsing and evaluation.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	Label string
	Expr  ast.Expr
	Src   string
	Local bool
}

type Param struct{ Name, Type string }

type Template struct {
	Label  string
	Params []Param
	Expr   ast.Expr
	Src    string
}

type Macro struct {
	Params []string
	Body   ast.Expr
	Opaque bool // a predicate over everything its arguments reach, unless revealed
}

type Contract struct {
	Key      string
	File     string
	Params   []string
	Results  []string
	Props    []string
	Requires []Clause
	Ensures  []Clause
	Modifies []Clause
	Points   []Clause // pointer parameters into slices
	Witness  []Clause // ghost updates at exit: target = expr
	Invs     []Template
	Acquires string // "", "R", "W" on the receiver's mutex
	AcqExpr  ast.Expr
	Holds    string // lock held at entry: "R" (at least) or "W"
	HoldExpr ast.Expr
	Trusted  bool
	Expand   bool // callers execute the body
	Aliases  bool // results may alias (not checked / assumed fresh)
	Consumes map[string]bool
	Inline   map[string]bool
	Widths   []int
	Ghosts   []Clause
	Optional bool
	Secs     float64
	Asserts  []Clause // intermediate lemmas proved at exit before the ensures
	Unroll   int
	Reveal   map[string]bool
	Axioms   []Clause
	Decr     *Clause // measure that recursive calls must make smaller
}

func (c *Contract) inlines(key string) bool { return c.Inline[key] || c.Inline["*"] }

type SpecSet struct {
	byKey      map[string]*Contract
	macros     map[string]*Macro
	guarded    map[string]map[string]bool // struct -> field
	ghosts     map[string][]Param         // struct -> ghost fields
	order      []string
	globalInvs []Template
	dropped    map[string]*Contract
	fileWidths []int
}

func (s *SpecSet) guardedField(st, f string) bool { return s.guarded[st][f] }

var clauseRe = regexp.MustCompile(`^(func|define|opaque|reveal|axiom|filewidths|guarded|ghost|props|requires|ensures|lemma|modifies|inv|ginv|acquires|holds|trusted|aliases|expand|consumes|inline|widths|witness|optional|secs|assert|unroll|points|reads|decreases|assumes)\b\s*(.*)$`)

func LoadSpecs(dir string, w int) (*SpecSet, error) {
	s := &SpecSet{byKey: map[string]*Contract{}, macros: map[string]*Macro{}, guarded: map[string]map[string]bool{}, ghosts: map[string][]Param{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := s.parseFile(filepath.Base(f), subst(string(b), w), w); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return s, nil
}

// subst: $W is the id width, $K the width of a prefix key (value, length), $V
// that of a value key (prefix key, number).
func subst(s string, w int) string {
	s = strings.ReplaceAll(s, "$W", fmt.Sprint(w))
	s = strings.ReplaceAll(s, "$K", fmt.Sprint(w+8))
	return strings.ReplaceAll(s, "$V", fmt.Sprint(w+40))
}

func (s *SpecSet) parseFile(name, text string, w int) error {
	var lines []string
	for _, ln := range strings.Split(text, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		if clauseRe.MatchString(t) {
			lines = append(lines, t)
		} else if len(lines) > 0 {
			lines[len(lines)-1] += " " + t
		} else {
			return fmt.Errorf("unexpected line %q", ln)
		}
	}
	var cur *Contract
	s.fileWidths = nil
	for _, ln := range lines {
		m := clauseRe.FindStringSubmatch(ln)
		kw, rest := m[1], strings.TrimSpace(m[2])
		if err := s.clause(&cur, name, kw, rest, w); err != nil {
			return fmt.Errorf("%s: %v", ln, err)
		}
	}
	return nil
}

func parseE(src string) (ast.Expr, error) {
	e, err := parser.ParseExpr(src)
	if err != nil {
		return nil, fmt.Errorf("parse %q: %v", src, err)
	}
	return e, nil
}

func splitLabel(rest string) (string, string) {
	i := strings.Index(rest, ":")
	if i > 0 && regexp.MustCompile(`^[A-Za-z0-9_\-]+$`).MatchString(strings.TrimSpace(rest[:i])) && !strings.HasPrefix(rest[i:], ":=") {
		return strings.TrimSpace(rest[:i]), strings.TrimSpace(rest[i+1:])
	}
	return "", rest
}

func splitList(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func parseParams(s string) []Param {
	var out []Param
	for _, p := range splitList(s) {
		f := strings.Fields(p)
		t := ""
		if len(f) > 1 {
			t = strings.Join(f[1:], " ")
		}
		out = append(out, Param{f[0], t})
	}
	return out
}

func (s *SpecSet) clause(cur **Contract, file, kw, rest string, w int) error {
	mkClause := func() (Clause, error) {
		l, src := splitLabel(rest)
		e, err := parseE(src)
		return Clause{l, e, src, false}, err
	}
	switch kw {
	case "func":
		// key(params) results
		re := regexp.MustCompile(`^(\S+?)\(([^()]*)\)\s*\(?([^()]*)\)?$`)
		m := re.FindStringSubmatch(rest)
		if m == nil {
			// method key contains parentheses: pkg.(*T).M(params) res
			re = regexp.MustCompile(`^(\S+?\(\*?\w+\)\.\w+)\(([^()]*)\)\s*\(?([^()]*)\)?$`)
			m = re.FindStringSubmatch(rest)
		}
		if m == nil {
			return fmt.Errorf("bad func header")
		}
		c := &Contract{Key: m[1], File: file, Params: splitList(m[2]), Results: splitList(m[3]), Consumes: map[string]bool{}, Inline: map[string]bool{}, Reveal: map[string]bool{}}
		if _, dup := s.byKey[c.Key]; dup {
			return fmt.Errorf("duplicate contract %s", c.Key)
		}
		c.Widths = append(c.Widths, s.fileWidths...)
		s.byKey[c.Key] = c
		s.order = append(s.order, c.Key)
		*cur = c
		return nil
	case "define", "opaque":
		i := strings.Index(rest, "=")
		j := strings.Index(rest, "(")
		if j >= 0 && j < i {
			k := strings.Index(rest, ")")
			eq := strings.Index(rest[k:], "=") + k
			e, err := parseE(strings.TrimSpace(rest[eq+1:]))
			if err != nil {
				return err
			}
			if s.macros[strings.TrimSpace(rest[:j])] != nil {
				return fmt.Errorf("macro defined twice")
			}
			s.macros[strings.TrimSpace(rest[:j])] = &Macro{splitList(rest[j+1 : k]), e, kw == "opaque"}
			return nil
		}
		e, err := parseE(strings.TrimSpace(rest[i+1:]))
		if err != nil {
			return err
		}
		s.macros[strings.TrimSpace(rest[:i])] = &Macro{nil, e, false}
		return nil
	case "guarded": // guarded table: f1, f2
		i := strings.Index(rest, ":")
		st := strings.TrimSpace(rest[:i])
		if s.guarded[st] == nil {
			s.guarded[st] = map[string]bool{}
		}
		for _, f := range splitList(rest[i+1:]) {
			s.guarded[st][f] = true
		}
		return nil
	case "ghost": // ghost Struct: name keytype elemtype, ...
		i := strings.Index(rest, ":")
		st := strings.TrimSpace(rest[:i])
		s.ghosts[st] = append(s.ghosts[st], parseParams(rest[i+1:])...)
		return nil
	case "filewidths":
		s.fileWidths = nil
		for _, p := range splitList(rest) {
			var n int
			fmt.Sscan(p, &n)
			s.fileWidths = append(s.fileWidths, n)
		}
		return nil
	case "ginv":
		t, err := parseTemplate(rest)
		if err != nil {
			return err
		}
		s.globalInvs = append(s.globalInvs, t)
		return nil
	}
	c := *cur
	if c == nil {
		return fmt.Errorf("clause outside func")
	}
	switch kw {
	case "props":
		c.Props = append(c.Props, splitList(rest)...)
	case "requires":
		cl, err := mkClause()
		if err != nil {
			return err
		}
		c.Requires = append(c.Requires, cl)
	case "assumes": // a bound on resources: taken for granted, at callers too
		cl, err := mkClause()
		if err != nil {
			return err
		}
		cl.Local = true
		c.Requires = append(c.Requires, cl)
	case "ensures", "lemma": // a lemma is proved but not handed to callers
		cl, err := mkClause()
		if err != nil {
			return err
		}
		if cl.Label == "" {
			cl.Label = fmt.Sprintf("ensures%d", len(c.Ensures))
		}
		cl.Local = kw == "lemma"
		c.Ensures = append(c.Ensures, cl)
	case "assert":
		cl, err := mkClause()
		if err != nil {
			return err
		}
		c.Asserts = append(c.Asserts, cl)
	case "reveal":
		for _, p := range splitList(rest) {
			c.Reveal[p] = true
		}
	case "axiom":
		cl, err := mkClause()
		if err != nil {
			return err
		}
		c.Axioms = append(c.Axioms, cl)
	case "modifies":
		for _, p := range splitList(rest) {
			e, err := parseE(p)
			if err != nil {
				return err
			}
			c.Modifies = append(c.Modifies, Clause{"", e, p, false})
		}
	case "points": // points p: s[i] - a parameter that is nil or points to the element
		i := strings.Index(rest, ":")
		e, err := parseE(strings.TrimSpace(rest[i+1:]))
		if err != nil {
			return err
		}
		c.Points = append(c.Points, Clause{strings.TrimSpace(rest[:i]), e, rest, false})
	case "witness": // gh(r,P) = expr
		i := strings.Index(rest, ":=")
		e, err := parseE(strings.TrimSpace(rest[i+2:]))
		if err != nil {
			return err
		}
		c.Witness = append(c.Witness, Clause{strings.TrimSpace(rest[:i]), e, rest, false})
	case "inv":
		t, err := parseTemplate(rest)
		if err != nil {
			return err
		}
		c.Invs = append(c.Invs, t)
	case "acquires":
		f := strings.Fields(rest)
		e, err := parseE(f[1])
		if err != nil {
			return err
		}
		c.Acquires, c.AcqExpr = f[0], e
	case "holds":
		f := strings.Fields(rest)
		e, err := parseE(f[1])
		if err != nil {
			return err
		}
		c.Holds, c.HoldExpr = f[0], e
	case "trusted":
		c.Trusted = true
	case "expand":
		c.Expand = true
	case "aliases":
		c.Aliases = true
	case "consumes":
		for _, p := range splitList(rest) {
			c.Consumes[p] = true
		}
	case "inline":
		for _, p := range splitList(rest) {
			c.Inline[p] = true
		}
	case "widths":
		c.Widths = nil
		for _, p := range splitList(rest) {
			var n int
			fmt.Sscan(p, &n)
			c.Widths = append(c.Widths, n)
		}
	case "optional":
		c.Optional = true
	case "secs":
		fmt.Sscan(rest, &c.Secs)
	case "decreases":
		cl, err := mkClause()
		if err != nil {
			return err
		}
		c.Decr = &cl
	case "unroll":
		fmt.Sscan(rest, &c.Unroll)
	}
	return nil
}

func parseTemplate(rest string) (Template, error) {
	// label(params): expr
	i := strings.Index(rest, "(")
	k := strings.Index(rest, "):")
	if i < 0 || k < 0 {
		return Template{}, fmt.Errorf("bad inv")
	}
	e, err := parseE(strings.TrimSpace(rest[k+2:]))
	if err != nil {
		return Template{}, err
	}
	return Template{strings.TrimSpace(rest[:i]), parseParams(rest[i+1 : k]), e, rest}, nil
}

// ---- evaluation ----

type SV struct {
	v  Value
	t  types.Type
	n  *big.Int // untyped constant
	st *State   // when not nil: the state references in v are read in (old, pre)
}

// in is the state in which a's references are followed.
func (e *evalCtx) in(a SV) *State {
	if a.st != nil {
		return a.st
	}
	return e.st
}

func pinned(a SV, st *State) SV {
	if a.st == nil {
		switch a.v.(type) {
		case *MapV, *SliceV, *PtrV, *IfaceV, *StructV:
			a.st = st
		}
	}
	return a
}

type evalCtx struct {
	x     *Exec
	st    *State
	old   *State
	pre   *State
	preE  map[string]SV
	env   map[string]SV
	oldE  map[string]SV
	depth int
	wit   bool // evaluating a witness
}

var (
	tU64  = types.Typ[types.Uint64]
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
	tU8   = types.Typ[types.Uint8]
)

func (e *evalCtx) with(name string, v SV) *evalCtx {
	n := *e
	n.env = map[string]SV{}
	for k, w := range e.env {
		n.env[k] = w
	}
	n.env[name] = v
	return &n
}

func (e *evalCtx) boolean(x ast.Expr) *Term {
	r := e.eval(x)
	t, ok := r.v.(*Term)
	if !ok || t.Sort != BoolS {
		undec("spec: boolean expected in %s", exprStr(x))
	}
	return t
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func basicByName(n string) types.Type {
	switch n {
	case "int":
		return tInt
	case "uint":
		return types.Typ[types.Uint]
	case "uint8", "byte":
		return tU8
	case "uint16":
		return types.Typ[types.Uint16]
	case "uint32":
		return types.Typ[types.Uint32]
	case "uint64":
		return tU64
	case "int64":
		return types.Typ[types.Int64]
	case "bool":
		return tBool
	}
	return nil
}

// bigType marks spec-only wide bit-vectors.
type bvType struct {
	types.Type
	w int
}

func specWidth(t types.Type) (int, bool, bool) {
	if b, ok := t.(*bvType); ok {
		return b.w, false, true
	}
	if t == nil {
		return 0, false, false
	}
	return bvWidth(t)
}

func mkBV(w int) types.Type {
	switch w {
	case 8:
		return tU8
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	case 64:
		return tU64
	}
	return &bvType{tU64, w}
}

func (e *evalCtx) typed(a, b SV) (SV, SV) {
	if a.n != nil && b.n != nil {
		return SV{v: Num(a.n, 64), t: tU64}, SV{v: Num(b.n, 64), t: tU64}
	}
	if a.n != nil {
		w, _, ok := specWidth(b.t)
		if !ok {
			undec("spec: constant against %v", b.t)
		}
		return SV{v: Num(a.n, w), t: b.t}, b
	}
	if b.n != nil {
		y, z := e.typed(b, a)
		return z, y
	}
	return a, b
}

func (e *evalCtx) concrete(a SV, t types.Type) SV {
	if a.n != nil {
		w, _, ok := specWidth(t)
		if !ok {
			undec("spec: constant as %v", t)
		}
		return SV{v: Num(a.n, w), t: t}
	}
	return a
}

func (e *evalCtx) eval(x ast.Expr) SV {
	if e.depth > 200 {
		undec("spec: macro recursion")
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.Ident:
		if v, ok := e.env[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return SV{v: True, t: tBool}
		case "false":
			return SV{v: False, t: tBool}
		case "nil":
			return SV{v: nil, t: types.Typ[types.UntypedNil]}
		case "W":
			return SV{n: big.NewInt(int64(e.x.c.W))}
		}
		if m, ok := e.x.specs.macros[x.Name]; ok && m.Params == nil {
			return e.eval(m.Body)
		}
		undec("spec: unknown name %s", x.Name)
	case *ast.BasicLit:
		c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		return SV{n: constInt(c)}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return SV{v: Not(e.boolean(x.X)), t: tBool}
		case token.SUB:
			a := e.eval(x.X)
			if a.n != nil {
				return SV{n: new(big.Int).Neg(a.n)}
			}
			return SV{v: BVNeg(a.v.(*Term)), t: a.t}
		case token.XOR:
			a := e.eval(x.X)
			return SV{v: BVNot(a.v.(*Term)), t: a.t}
		}
	case *ast.StarExpr:
		a := e.eval(x.X)
		return SV{v: e.x.specLoad(e.in(a), a.v.(*PtrV)), t: a.t.Underlying().(*types.Pointer).Elem(), st: a.st}
	case *ast.BinaryExpr:
		return e.binary(x)
	case *ast.SelectorExpr:
		return e.field(e.eval(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		return e.index(e.eval(x.X), e.eval(x.Index), exprStr(x))
	case *ast.CallExpr:
		return e.call(x)
	}
	undec("spec: cannot evaluate %s", exprStr(x))
	return SV{}
}

func (e *evalCtx) binary(x *ast.BinaryExpr) SV {
	switch x.Op {
	case token.LAND:
		return SV{v: And(e.boolean(x.X), e.boolean(x.Y)), t: tBool}
	case token.LOR:
		return SV{v: Or(e.boolean(x.X), e.boolean(x.Y)), t: tBool}
	}
	a, b := e.eval(x.X), e.eval(x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		t := e.specEq(a, b, exprStr(x))
		if x.Op == token.NEQ {
			t = Not(t)
		}
		return SV{v: t, t: tBool}
	}
	if a.n != nil && b.n != nil {
		r := new(big.Int)
		switch x.Op {
		case token.ADD:
			r.Add(a.n, b.n)
		case token.SUB:
			r.Sub(a.n, b.n)
		case token.MUL:
			r.Mul(a.n, b.n)
		case token.SHL:
			r.Lsh(a.n, uint(b.n.Int64()))
		default:
			undec("spec: constant op %v", x.Op)
		}
		return SV{n: r}
	}
	if x.Op == token.SHL || x.Op == token.SHR {
		if a.n != nil {
			undec("spec: shift of an untyped constant")
		}
		_, signed, _ := specWidth(a.t)
		if b.n != nil {
			b = SV{v: Num(b.n, 64), t: tU64}
		}
		return SV{v: e.x.shift(nil, x.Op, a.v.(*Term), b.v.(*Term), signed, b.t, ""), t: a.t}
	}
	a, b = e.typed(a, b)
	p, ok1 := a.v.(*Term)
	q, ok2 := b.v.(*Term)
	if !ok1 || !ok2 || p.Sort != q.Sort {
		undec("spec: operands of %s", exprStr(x))
	}
	_, signed, _ := specWidth(a.t)
	cmp := func(t *Term) SV { return SV{v: t, t: tBool} }
	switch x.Op {
	case token.ADD:
		return SV{v: Add(p, q), t: a.t}
	case token.SUB:
		return SV{v: Sub(p, q), t: a.t}
	case token.MUL:
		return SV{v: BVBin("bvmul", p, q), t: a.t}
	case token.AND:
		return SV{v: BVBin("bvand", p, q), t: a.t}
	case token.OR:
		return SV{v: BVBin("bvor", p, q), t: a.t}
	case token.XOR:
		return SV{v: BVBin("bvxor", p, q), t: a.t}
	case token.AND_NOT:
		return SV{v: BVBin("bvand", p, BVNot(q)), t: a.t}
	case token.LSS:
		if signed {
			return cmp(Slt(p, q))
		}
		return cmp(Ult(p, q))
	case token.LEQ:
		if signed {
			return cmp(Sle(p, q))
		}
		return cmp(Ule(p, q))
	case token.GTR:
		if signed {
			return cmp(Slt(q, p))
		}
		return cmp(Ult(q, p))
	case token.GEQ:
		if signed {
			return cmp(Sle(q, p))
		}
		return cmp(Ule(q, p))
	}
	undec("spec: operator %v", x.Op)
	return SV{}
}

func (e *evalCtx) specEq(a, b SV, src string) *Term {
	if b.v == nil && b.n == nil {
		return nilOf(a.v, src)
	}
	if a.v == nil && a.n == nil {
		return nilOf(b.v, src)
	}
	a, b = e.typed(a, b)
	return e.x.deepEq(a.v, b.v, src)
}

func nilOf(v Value, src string) *Term {
	switch p := v.(type) {
	case *IfaceV:
		return p.Nil
	case *PtrV:
		return p.Nil
	case *SliceV:
		return p.Nil
	case *MapV:
		return p.Nil
	case *FuncV:
		return p.Nil
	}
	undec("spec: nil comparison in %s", src)
	return nil
}

// deepEq is structural equality (interfaces by content, ignoring the pointer
// variant).
func (x *Exec) deepEq(a, b Value, src string) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.Sort != q.Sort {
			undec("spec: type mismatch in %s", src)
		}
		return Eq(p, q)
	case *IfaceV:
		q, ok := b.(*IfaceV)
		if !ok {
			undec("spec: type mismatch in %s", src)
		}
		return Or(And(p.Nil, q.Nil), And(Not(p.Nil), Not(q.Nil), x.deepEq(p.Val, q.Val, src)))
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			undec("spec: type mismatch in %s", src)
		}
		r := True
		for i := range p.F {
			r = And(r, x.deepEq(p.F[i], q.F[i], src))
		}
		return r
	case *GhostArr:
		q, ok := b.(*GhostArr)
		if !ok {
			undec("spec: type mismatch in %s", src)
		}
		r := True
		for i := range p.Leaves {
			r = And(r, Eq(p.Leaves[i], q.Leaves[i]))
		}
		return r
	case *PtrV:
		q, ok := b.(*PtrV)
		if ok {
			if x.assuming && p.Obj != 0 && q.Obj != 0 && p.Obj != q.Obj && p.Nil != True && q.Nil != True {
				undec("an assumption equates pointers: %s", src)
			}
			return x.goEq(p, q, nil)
		}
	}
	undec("spec: equality on %T in %s", a, src)
	return nil
}

func (x *Exec) specLoad(st *State, p *PtrV) Value {
	o := st.heap[p.Obj]
	if o == nil {
		undec("spec: dereference of nil")
	}
	switch o.Kind {
	case OCell:
		return x.navLoad(st, o.Typ, o.Val, p.Path)
	case OBack:
		if len(p.Path) > 0 && p.Path[0].Idx != nil {
			return x.backLoad(o.Typ, o.Leaves, p.Path[0].Idx, p.Path[1:])
		}
	}
	undec("spec: load")
	return nil
}

func (e *evalCtx) field(a SV, name string) SV {
	v, t := a.v, a.t
	for {
		if iv, ok := v.(*IfaceV); ok {
			d := e.x.c.closedDyn(t)
			if d == nil {
				undec("spec: field %s of opaque interface", name)
			}
			v, t = iv.Val, d
			continue
		}
		if p, ok := v.(*PtrV); ok {
			v = e.x.specLoad(e.in(a), p)
			t = t.Underlying().(*types.Pointer).Elem()
			continue
		}
		break
	}
	s, ok := v.(*StructV)
	if !ok {
		undec("spec: field %s of %T", name, v)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		undec("spec: field %s of %v", name, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return SV{v: s.F[i], t: st.Field(i).Type(), st: a.st}
		}
	}
	// embedded
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			return e.field(SV{v: s.F[i], t: st.Field(i).Type(), st: a.st}, name)
		}
	}
	undec("spec: no field %s in %v", name, t)
	return SV{}
}

func (e *evalCtx) index(a, i SV, src string) SV {
	switch s := a.v.(type) {
	case *SliceV:
		et := a.t.Underlying().(*types.Slice).Elem()
		i = e.concrete(i, tU64)
		it := i.v.(*Term)
		if it.Sort.W != 64 {
			it = e.x.idx64(it, i.t)
		}
		if s.Obj == 0 {
			return SV{v: e.x.zero(et), t: et}
		}
		o := e.in(a).heap[s.Obj]
		if o == nil {
			undec("spec: slice object missing in %s", src)
		}
		if o.Poison {
			undec("spec: read of an overwritten backing array in %s", src)
		}
		return SV{v: e.x.backLoad(et, o.Leaves, Add(s.Off, it), nil), t: et, st: a.st}
	case *MapV:
		mt := a.t.Underlying().(*types.Map)
		i = e.concrete(i, mt.Key())
		k := e.x.mapKey(i.v, mt.Key())
		o := e.in(a).heap[s.Obj]
		if o == nil {
			return SV{v: e.x.zero(mt.Elem()), t: mt.Elem()}
		}
		var ls []*Term
		for _, l := range o.Leaves {
			ls = append(ls, Select(l, k))
		}
		return SV{v: e.x.c.unflat(mt.Elem(), ls), t: mt.Elem(), st: a.st}
	case *ArrV:
		i = e.concrete(i, tU64)
		return SV{v: e.x.backLoad(s.Elem, s.Leaves, e.x.idx64(i.v.(*Term), i.t), nil), t: s.Elem}
	case *GhostArr:
		i = e.concrete(i, s.KeyT)
		var ls []*Term
		for _, l := range s.Leaves {
			ls = append(ls, Select(l, i.v.(*Term)))
		}
		return SV{v: e.x.c.unflat(s.ElT, ls), t: s.ElT}
	}
	undec("spec: index of %T in %s", a.v, src)
	return SV{}
}

func (e *evalCtx) call(x *ast.CallExpr) SV {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		if f, ok := e.eval(x.Fun).v.(*FuncV); ok {
			return e.callFn(f, x.Args)
		}
		undec("spec: call %s", exprStr(x))
	}
	b := func(t *Term) SV { return SV{v: t, t: tBool} }
	if bt := basicByName(id.Name); bt != nil && len(x.Args) == 1 {
		a := e.eval(x.Args[0])
		if a.n != nil {
			return e.concrete(a, bt)
		}
		_, signed, _ := specWidth(a.t)
		w, _, _ := bvWidth(bt)
		t := a.v.(*Term)
		if signed {
			return SV{v: SExt(t, w), t: bt}
		}
		return SV{v: ZExt(t, w), t: bt}
	}
	switch id.Name {
	case "old":
		if e.old == nil {
			undec("spec: old() has no meaning here")
		}
		n := *e
		n.st = e.old
		if e.oldE != nil {
			n.env = map[string]SV{}
			for k, v := range e.env {
				n.env[k] = v
			}
			for k, v := range e.oldE {
				n.env[k] = v
			}
		}
		return pinned(n.eval(x.Args[0]), e.old)
	case "pre":
		if e.pre == nil {
			undec("spec: pre() outside a loop invariant")
		}
		n := *e
		n.st = e.pre
		n.env = map[string]SV{}
		for k, v := range e.env {
			n.env[k] = v
		}
		for k, v := range e.preE {
			n.env[k] = v
		}
		return pinned(n.eval(x.Args[0]), e.pre)
	case "imp":
		p := e.boolean(x.Args[0])
		if p == False {
			return b(True)
		}
		return b(Implies(p, e.boolean(x.Args[1])))
	case "iff":
		return b(Eq(e.boolean(x.Args[0]), e.boolean(x.Args[1])))
	case "ite":
		c := e.boolean(x.Args[0])
		if c == True {
			return e.eval(x.Args[1])
		}
		if c == False {
			return e.eval(x.Args[2])
		}
		p, q := e.typed(e.eval(x.Args[1]), e.eval(x.Args[2]))
		v, ok := mergeVal(c, p.v, q.v)
		if !ok {
			undec("spec: ite shapes in %s", exprStr(x))
		}
		return SV{v: v, t: p.t}
	case "all", "ex":
		// all(k, type, [pat(...)], body)
		ctx := e
		var vars []*Term
		args := x.Args
		for len(args) >= 3 {
			n, ok1 := args[0].(*ast.Ident)
			if !ok1 {
				break
			}
			t := e.bvType(args[1])
			if t == nil {
				break
			}
			w, _, _ := specWidth(t)
			v := FreshBound(n.Name, BVS(w))
			if tb, ok := t.(*types.Basic); ok && tb.Kind() == types.Bool {
				v = FreshBound(n.Name, BoolS)
			}
			vars = append(vars, v)
			ctx = ctx.with(n.Name, SV{v: v, t: t})
			args = args[2:]
		}
		var pats [][]*Term
		for len(args) > 1 {
			c, ok := args[0].(*ast.CallExpr)
			if !ok || exprStr(c.Fun) != "pat" {
				undec("spec: quantifier syntax %s", exprStr(x))
			}
			alts := [][]*Term{nil}
			for _, a := range c.Args {
				v := ctx.eval(a)
				var opts []*Term
				switch y := v.v.(type) {
				case *Term:
					opts = []*Term{y}
				default:
					if iv, ok := y.(*IfaceV); ok && v.t == nil {
						opts = []*Term{iv.Nil}
						break
					}
					opts = e.x.c.flatten(v.t, v.v)
				}
				// any part of a composite value triggers
				var n [][]*Term
				for _, p := range alts {
					for _, o := range opts {
						n = append(n, append(append([]*Term(nil), p...), o))
					}
				}
				alts = n
			}
			for _, p := range alts {
				okp := true
				for _, t := range p {
					if !t.free || len(t.Args) == 0 {
						okp = false
					}
				}
				if okp {
					pats = append(pats, p)
				}
			}
			args = args[1:]
		}
		body := ctx.boolean(args[0])
		vars, body, pats = reindex(vars, body, pats)
		if id.Name == "all" {
			return b(Forall(vars, body, pats...))
		}
		return b(Exists(vars, body, pats...))
	case "len":
		a := e.eval(x.Args[0])
		switch s := a.v.(type) {
		case *SliceV:
			return SV{v: s.Len, t: tInt}
		case *MapV:
			if s.Obj == 0 {
				return SV{v: NumI(0, 64), t: tInt}
			}
			return SV{v: e.in(a).heap[s.Obj].Card, t: tInt}
		}
		undec("spec: len of %T", a.v)
	case "cap":
		return SV{v: e.eval(x.Args[0]).v.(*SliceV).Cap, t: tInt}
	case "off":
		return SV{v: e.eval(x.Args[0]).v.(*SliceV).Off, t: tInt}
	case "has":
		m := e.eval(x.Args[0])
		if g, ok := m.v.(*GhostArr); ok {
			k := e.concrete(e.eval(x.Args[1]), g.KeyT)
			return b(Select(g.Leaves[0], k.v.(*Term)))
		}
		mv, ok := m.v.(*MapV)
		if !ok {
			undec("spec: has() on %T", m.v)
		}
		if mv.Obj == 0 {
			return b(False)
		}
		mt := m.t.Underlying().(*types.Map)
		k := e.concrete(e.eval(x.Args[1]), mt.Key())
		return b(Select(e.in(m).heap[mv.Obj].Pres, e.x.mapKey(k.v, mt.Key())))
	case "gh": // ghost field
		a := e.eval(x.Args[0])
		return e.ghost(a, exprStr(x.Args[1]))
	case "rank": // rank(m, i): the number of ids below i that are not in m
		m := e.eval(x.Args[0])
		i := e.concrete(e.eval(x.Args[1]), tU64)
		return SV{v: App("rank", BVS(64), e.in(m).heap[m.v.(*MapV).Obj].Pres, i.v.(*Term)), t: tU64}
	case "upd": // upd(arr, i, v)
		a := e.eval(x.Args[0])
		g := a.v.(*GhostArr)
		i := e.concrete(e.eval(x.Args[1]), g.KeyT)
		v := e.concrete(e.eval(x.Args[2]), g.ElT)
		n := &GhostArr{KeyT: g.KeyT, ElT: g.ElT}
		for k, l := range e.x.c.flatten(g.ElT, v.v) {
			n.Leaves = append(n.Leaves, Store(g.Leaves[k], i.v.(*Term), l))
		}
		return SV{v: n, t: a.t}
	case "lam": // lam(k, keytype, arr, body): the array like arr (for its shape) that holds body at every k
		if !e.wit {
			undec("spec: lam() outside a witness")
		}
		kn := exprStr(x.Args[0])
		g := e.eval(x.Args[1]).v.(*GhostArr)
		kw, _, _ := specWidth(g.KeyT)
		bv := FreshBound(kn, BVS(kw))
		body := e.with(kn, SV{v: bv, t: g.KeyT}).eval(x.Args[2])
		body = e.concrete(body, g.ElT)
		n := &GhostArr{KeyT: g.KeyT, ElT: g.ElT}
		eq := True
		var pat []*Term
		for k, l := range e.x.c.flatten(g.ElT, body.v) {
			a := Fresh("lam", g.Leaves[k].Sort)
			n.Leaves = append(n.Leaves, a)
			eq = And(eq, Eq(Select(a, bv), l))
			pat = append(pat, Select(a, bv))
		}
		var pats [][]*Term
		for _, p := range pat {
			pats = append(pats, []*Term{p})
		}
		e.st.assume(Forall([]*Term{bv}, eq, pats...))
		return SV{v: n}
	case "some": // some(k, keytype, cond): a k with cond, if there is one
		if !e.wit {
			undec("spec: some() outside a witness")
		}
		kn := exprStr(x.Args[0])
		kt := e.bvType(x.Args[1])
		kw, _, _ := specWidth(kt)
		if e.x.someMemo == nil {
			e.x.someMemo = map[string]*Term{}
		}
		ck := fmt.Sprintf("%p %s", e.st, exprStr(x))
		c := e.x.someMemo[ck]
		if c == nil {
			c = Fresh("some", BVS(kw))
			e.x.someMemo[ck] = c
			q := e.eval(&ast.CallExpr{Fun: ast.NewIdent("ex"), Args: x.Args}).v.(*Term)
			e.st.assume(Or(Not(q), e.with(kn, SV{v: c, t: kt}).eval(x.Args[len(x.Args)-1]).v.(*Term)))
		}
		return SV{v: c, t: kt}
	case "leaf": // leaf(s, Field): the array of a field of the elements of a slice
		a := e.eval(x.Args[0])
		sl := a.v.(*SliceV)
		el := a.t.Underlying().(*types.Slice).Elem()
		var path []PE
		var ft types.Type = el
		if len(x.Args) > 1 {
			stt := el.Underlying().(*types.Struct)
			for k := 0; k < stt.NumFields(); k++ {
				if stt.Field(k).Name() == exprStr(x.Args[1]) {
					path = []PE{{Field: k}}
					ft = stt.Field(k).Type()
				}
			}
			if path == nil {
				undec("spec: no field %s", exprStr(x.Args[1]))
			}
		}
		if sl.Obj == 0 {
			undec("spec: leaf of a nil slice")
		}
		if sl.Off != NumI(0, 64) {
			undec("spec: leaf of a slice that does not start at its array")
		}
		_, lo, n := e.x.subLeaves(el, path)
		return SV{v: &GhostArr{Leaves: e.in(a).heap[sl.Obj].Leaves[lo : lo+n], KeyT: tU64, ElT: ft}}
	case "mapvals", "mappres": // the arrays of a map
		a := e.eval(x.Args[0])
		o := e.in(a).heap[a.v.(*MapV).Obj]
		mt := a.t.Underlying().(*types.Map)
		if id.Name == "mappres" {
			return SV{v: &GhostArr{Leaves: []*Term{o.Pres}, KeyT: mt.Key(), ElT: tBool}}
		}
		return SV{v: &GhostArr{Leaves: o.Leaves, KeyT: mt.Key(), ElT: mt.Elem()}}
	case "ptr": // pointer variant of a tree.ID
		a := e.eval(x.Args[0])
		iv := a.v.(*IfaceV)
		if iv.Ptr == nil {
			return b(False)
		}
		return b(iv.Ptr)
	case "idx": // index of a pointer into a slice
		a := e.eval(x.Args[0])
		p, ok := a.v.(*PtrV)
		if !ok || len(p.Path) == 0 || p.Path[0].Idx == nil {
			undec("spec: idx of a non-element pointer")
		}
		return SV{v: p.Path[0].Idx, t: types.Typ[types.Uint]}
	case "sameback":
		p, q := e.eval(x.Args[0]).v.(*SliceV), e.eval(x.Args[1]).v.(*SliceV)
		return b(Bool(p.Obj == q.Obj))
	case "pos":
		a := e.eval(x.Args[0])
		return SV{v: e.st.heap[a.v.(*MapIterV).Obj].Pos, t: tInt}
	case "cnt":
		a := e.eval(x.Args[0])
		return SV{v: e.st.heap[a.v.(*MapIterV).Obj].Cnt, t: tInt}
	case "enum":
		a := e.eval(x.Args[0])
		mi := a.v.(*MapIterV)
		i := e.concrete(e.eval(x.Args[1]), tU64)
		return SV{v: Select(e.st.heap[mi.Obj].Enum, e.x.idx64(i.v.(*Term), i.t)), t: mi.KeyT}
	case "enuminv": // position of a key in the enumeration
		a := e.eval(x.Args[0])
		mi := a.v.(*MapIterV)
		o := e.st.heap[mi.Obj]
		if o.EnumInv == nil {
			undec("spec: enumeration of a nil map")
		}
		k := e.concrete(e.eval(x.Args[1]), mi.KeyT)
		return SV{v: Select(o.EnumInv, e.x.mapKey(k.v, mi.KeyT)), t: tU64}
	case "dyn": // the dynamic value of a closed-world interface
		a := e.eval(x.Args[0])
		return SV{v: a.v.(*IfaceV).Val, t: e.x.c.closedDyn(a.t), st: a.st}
	case "uf": // uf("name", sortOf: uintN/bool/Str, args...)
		lit := x.Args[0].(*ast.BasicLit)
		name := strings.Trim(lit.Value, "\"")
		rt := basicByName(exprStr(x.Args[1]))
		var rs *Sort
		if rt == nil {
			rs = UnS(exprStr(x.Args[1]))
		} else if rt == tBool {
			rs = BoolS
		} else {
			w, _, _ := bvWidth(rt)
			rs = BVS(w)
		}
		var ts []*Term
		for _, a := range x.Args[2:] {
			v := e.eval(a)
			if v.n != nil {
				v = e.concrete(v, tInt)
			}
			if v.t != nil {
				if iv, ok := v.v.(*IfaceV); ok && e.x.c.closedDyn(v.t) == nil {
					ts = append(ts, iv.Val.(*Term))
					continue
				}
				ts = append(ts, e.x.c.flatten(v.t, v.v)...)
			} else if ga, ok := v.v.(*GhostArr); ok {
				ts = append(ts, ga.Leaves...)
			} else {
				ts = append(ts, v.v.(*Term))
			}
		}
		return SV{v: App(name, rs, ts...), t: rt}
	case "concat":
		p, q := e.eval(x.Args[0]).v.(*Term), e.eval(x.Args[1]).v.(*Term)
		r := Concat(p, q)
		return SV{v: r, t: mkBV(r.Sort.W)}
	case "bytes": // the big-endian number in a byte array
		bv := e.eval(x.Args[0])
		a, ok := bv.v.(*ArrV)
		if p, isP := bv.v.(*PtrV); isP {
			if o := e.in(bv).heap[p.Obj]; o != nil && o.Kind == OBack && constN(o.N) > 0 {
				a, ok = &ArrV{Leaves: o.Leaves, N: constN(o.N)}, true
			}
		}
		if !ok || len(a.Leaves) != 1 || a.Leaves[0].Sort.Elem != BVS(8) {
			undec("spec: bytes() of a non-array")
		}
		var r *Term
		for i := int64(0); i < a.N; i++ {
			c := Select(a.Leaves[0], NumI(i, 64))
			if r == nil {
				r = c
			} else {
				r = Concat(r, c)
			}
		}
		return SV{v: r, t: mkBV(r.Sort.W)}
	case "ipnum", "ipfam", "ipzone":
		a := e.eval(x.Args[0]).v.(*Term)
		switch x.Fun.(*ast.Ident).Name {
		case "ipnum":
			return SV{v: addrNum(a), t: mkBV(128)}
		case "ipfam":
			return SV{v: addrFam(a), t: mkBV(4)}
		}
		return SV{v: addrZone(a), t: mkBV(32)}
	case "parseAddr":
		return SV{v: App("parseAddr", BVS(addrW), e.eval(x.Args[0]).v.(*Term)), t: mkBV(addrW)}
	case "zx": // zx(e, width)
		p := e.eval(x.Args[0])
		w := int(e.eval(x.Args[1]).n.Int64())
		if p.n != nil {
			return SV{v: Num(p.n, w), t: mkBV(w)}
		}
		return SV{v: ZExt(p.v.(*Term), w), t: mkBV(w)}
	case "clz":
		a := e.eval(x.Args[0]).v.(*Term)
		return SV{v: ZExt(App(fmt.Sprintf("clz%d", a.Sort.W), BVS(8), a), 8), t: tU8}
	case "lockfree":
		a := e.eval(x.Args[0])
		return b(Bool(e.st.heap[a.v.(*PtrV).Obj].Mode == 0))
	case "crit":
		return SV{v: NumI(int64(e.st.crit), 64), t: tInt}
	case "mark": // always true; assumptions are also instantiated with e
		u := e.eval(x.Args[0]).v.(*Term)
		return b(App("trg.mark."+sanitize(u.Sort.str), BoolS, u))
	case "samemap":
		p, q := e.eval(x.Args[0]).v.(*MapV), e.eval(x.Args[1]).v.(*MapV)
		return b(Bool(p.Obj == q.Obj))
	}
	if v, ok := e.env[id.Name]; ok {
		if f, ok := v.v.(*FuncV); ok {
			return e.callFn(f, x.Args)
		}
	}
	if m, ok := e.x.specs.macros[id.Name]; ok {
		if len(m.Params) != len(x.Args) {
			undec("spec: macro %s arity", id.Name)
		}
		if m.Opaque && !(e.x.root != nil && e.x.root.Reveal[id.Name]) {
			var ls []*Term
			seen := map[int]bool{}
			for _, a := range x.Args {
				v := e.eval(a)
				ls = append(ls, e.x.reachLeaves(e.in(v), v.v, seen)...)
			}
			return b(App("opaque-"+id.Name, BoolS, ls...))
		}
		n := *e
		n.depth++
		n.env = map[string]SV{}
		for k, v := range e.env {
			n.env[k] = v
		}
		for i, p := range m.Params {
			n.env[p] = e.eval(x.Args[i])
		}
		return n.eval(m.Body)
	}
	undec("spec: unknown function %s", id.Name)
	return SV{}
}

func (e *evalCtx) bvType(a ast.Expr) types.Type {
	if tn, ok := a.(*ast.Ident); ok {
		if b := basicByName(tn.Name); b != nil {
			return b
		}
	} else if c, ok := a.(*ast.CallExpr); ok && exprStr(c.Fun) == "bv" {
		return mkBV(int(e.eval(c.Args[0]).n.Int64()))
	}
	return nil
}

func (e *evalCtx) callFn(f *FuncV, as []ast.Expr) SV {
	var args []Value
	for i, a := range as {
		args = append(args, e.concrete(e.eval(a), f.Sig.Params().At(i).Type()).v)
	}
	r := e.x.pureCall(e.st, f, args)
	return SV{v: r, t: f.Sig.Results().At(0).Type()}
}

// reachLeaves lists the terms that make up everything a value reaches.
func (x *Exec) reachLeaves(st *State, v Value, seen map[int]bool) (out []*Term) {
	obj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o := st.heap[id]
		if o == nil || o.Kind == OLock {
			return
		}
		if o.Val != nil {
			out = append(out, x.reachLeaves(st, o.Val, seen)...)
		}
		out = append(out, o.Leaves...)
		if o.Pres != nil {
			out = append(out, o.Pres, o.Card)
		}
		var gs []string
		for g := range o.Ghost {
			gs = append(gs, g)
		}
		sort.Strings(gs)
		for _, g := range gs {
			out = append(out, x.reachLeaves(st, o.Ghost[g], seen)...)
		}
	}
	switch v := v.(type) {
	case *Term:
		out = append(out, v)
	case *StructV:
		for _, f := range v.F {
			out = append(out, x.reachLeaves(st, f, seen)...)
		}
	case *PtrV:
		out = append(out, v.Nil)
		for _, p := range v.Path {
			if p.Idx != nil {
				out = append(out, p.Idx)
			}
		}
		obj(v.Obj)
	case *SliceV:
		out = append(out, v.Nil, v.Off, v.Len, v.Cap)
		obj(v.Obj)
	case *MapV:
		out = append(out, v.Nil)
		obj(v.Obj)
	case *IfaceV:
		out = append(out, v.Nil)
		out = append(out, x.reachLeaves(st, v.Val, seen)...)
	case *ArrV:
		out = append(out, v.Leaves...)
	case *GhostArr:
		out = append(out, v.Leaves...)
	case *FuncV:
		out = append(out, Const("fn-"+funcName(v), UnS("Fn")))
	case nil:
	default:
		undec("opaque predicate over %T", v)
	}
	return
}

func funcName(v *FuncV) string {
	if v.Fn != nil {
		return v.Fn.String()
	}
	return v.Name
}

func (e *evalCtx) ghost(a SV, name string) SV {
	v, t := a.v, a.t
	if iv, ok := v.(*IfaceV); ok {
		v, t = iv.Val, e.x.c.closedDyn(t)
	}
	p, ok := v.(*PtrV)
	if !ok || p.Obj == 0 {
		undec("spec: ghost field of %T", v)
	}
	o := e.in(a).heap[p.Obj]
	g, ok := o.Ghost[name]
	if !ok {
		undec("spec: no ghost field %s", name)
	}
	if ga, ok := g.(*GhostArr); ok {
		return SV{v: ga, t: nil}
	}
	sp := e.x.ghostDecl(t, name)
	return SV{v: g, t: sp}
}

func (x *Exec) ghostDecl(t types.Type, name string) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	if n == nil {
		return nil
	}
	for _, p := range x.specs.ghosts[n.Obj().Name()] {
		if p.Name == name {
			return ghostType(p.Type)
		}
	}
	return nil
}

func ghostType(s string) types.Type {
	if t := basicByName(s); t != nil {
		return t
	}
	var w int
	if _, err := fmt.Sscanf(s, "bv%d", &w); err == nil {
		return mkBV(w)
	}
	undec("ghost type %s", s)
	return nil
}

// freshGhosts creates ghost fields of a cell.
func (x *Exec) freshGhosts(base string, t types.Type) map[string]Value {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	ps := x.specs.ghosts[n.Obj().Name()]
	if len(ps) == 0 {
		return nil
	}
	m := map[string]Value{}
	for _, p := range ps {
		f := strings.Fields(p.Type)
		if len(f) == 2 {
			kt := ghostType(f[0])
			var et types.Type
			if f[1] == "T" { // the type argument of the struct
				if ta := n.TypeArgs(); ta != nil && ta.Len() > 0 {
					et = ta.At(0)
				} else {
					et = n.TypeParams().At(0)
				}
			} else {
				et = ghostType(f[1])
			}
			kw, _, _ := specWidth(kt)
			g := &GhostArr{KeyT: kt, ElT: et}
			for _, l := range x.c.leaves(et) {
				g.Leaves = append(g.Leaves, Fresh(base+"."+p.Name, ArrS(BVS(kw), l.Sort)))
			}
			m[p.Name] = g
			continue
		}
		t := ghostType(f[0])
		w, _, _ := specWidth(t)
		m[p.Name] = Fresh(base+"."+p.Name, BVS(w))
	}
	return m
}

// reindex rewrites a bound variable v whose pattern is select(A, v+c) into one
// whose pattern is select(A, j), so that instantiation does not depend on how
// a concrete index is written.
func reindex(vars []*Term, body *Term, pats [][]*Term) ([]*Term, *Term, [][]*Term) {
	for i, v := range vars {
		if v.Sort.K != SBV {
			continue
		}
		var off *Term
		var walk func(t *Term)
		seen := map[*Term]bool{}
		walk = func(t *Term) {
			if seen[t] || off != nil {
				return
			}
			seen[t] = true
			if t.Op == "select" && t.Args[1] != v && t.Args[1].Sort == v.Sort {
				c := Sub(t.Args[1], v)
				if !c.free {
					off = c
					return
				}
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, p := range pats {
			for _, t := range p {
				walk(t)
			}
		}
		if off == nil {
			continue
		}
		j := FreshBound(v.Name, v.Sort)
		m := map[*Term]*Term{v: Sub(j, off)}
		vars = append(append(append([]*Term(nil), vars[:i]...), j), vars[i+1:]...)
		body = Subst(body, m)
		var np [][]*Term
		for _, p := range pats {
			var q []*Term
			for _, t := range p {
				q = append(q, Subst(t, m))
			}
			np = append(np, q)
		}
		pats = np
	}
	return vars, body, pats
}
