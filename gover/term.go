package main

// Hash-consed SMT terms over Bool, bit-vectors, arrays and uninterpreted sorts.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SArr
	SUn
)

type Sort struct {
	K         SortKind
	W         int
	Name      string
	Idx, Elem *Sort
	str       string
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	if t, ok := sortTab[s.str]; ok {
		return t
	}
	n := s
	sortTab[s.str] = &n
	return &n
}

var BoolS = mkSort(Sort{K: SBool, str: "Bool"})

func BVS(w int) *Sort { return mkSort(Sort{K: SBV, W: w, str: fmt.Sprintf("(_ BitVec %d)", w)}) }
func ArrS(i, e *Sort) *Sort {
	return mkSort(Sort{K: SArr, Idx: i, Elem: e, str: "(Array " + i.str + " " + e.str + ")"})
}
func UnS(n string) *Sort {
	n = sanitize(n)
	return mkSort(Sort{K: SUn, Name: n, str: n})
}
func (s *Sort) String() string { return s.str }

func sanitize(n string) string {
	var b strings.Builder
	for _, c := range n {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

type Term struct {
	Op    string // "const","num","true","false","app" with Name, or an SMT operator
	Name  string
	Args  []*Term
	Sort  *Sort
	Val   *big.Int
	Bound []*Term
	Pats  [][]*Term
	ID    int
	free  bool // contains a bound variable (free occurrence or not: conservative)
	quant bool // contains a quantifier
	size  int
}

var (
	termTab  = map[string]*Term{}
	termSeq  = 0
	freshSeq = 0
	funTab   = map[string]*FunDecl{} // uninterpreted functions
)

type FunDecl struct {
	Name string
	Args []*Sort
	Res  *Sort
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.ID = termSeq
	for _, a := range t.Args {
		if a.free {
			t.free = true
		}
		if a.quant {
			t.quant = true
		}
		t.size += a.size
	}
	t.size++
	if t.Op == "bvar" {
		t.free = true
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.quant = true
	}
	termTab[key] = t
	return t
}

type termState struct {
	tab   map[string]*Term
	funs  map[string]*FunDecl
	seq   int
	fresh int
}

// snapshotTerms / restoreTerms make every verification start from the same
// numbering, so the queries it generates do not depend on what ran before.
func snapshotTerms() termState {
	s := termState{map[string]*Term{}, map[string]*FunDecl{}, termSeq, freshSeq}
	for k, v := range termTab {
		s.tab[k] = v
	}
	for k, v := range funTab {
		s.funs[k] = v
	}
	return s
}

func restoreTerms(s termState) {
	termTab = map[string]*Term{}
	funTab = map[string]*FunDecl{}
	for k, v := range s.tab {
		termTab[k] = v
	}
	for k, v := range s.funs {
		funTab[k] = v
	}
	termSeq, freshSeq = s.seq, s.fresh
}

func Const(name string, s *Sort) *Term {
	name = sanitize(name)
	return intern("c|"+name+"|"+s.str, func() *Term { return &Term{Op: "const", Name: name, Sort: s} })
}
func Fresh(base string, s *Sort) *Term {
	freshSeq++
	return Const(fmt.Sprintf("%s!%d", base, freshSeq), s)
}
func FreshBound(base string, s *Sort) *Term {
	freshSeq++
	name := sanitize(fmt.Sprintf("%s?%d", base, freshSeq))
	return intern("b|"+name+"|"+s.str, func() *Term { return &Term{Op: "bvar", Name: name, Sort: s} })
}

var True = intern("true", func() *Term { return &Term{Op: "true", Sort: BoolS} })
var False = intern("false", func() *Term { return &Term{Op: "false", Sort: BoolS} })

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Num(v *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v = new(big.Int).Mod(v, m)
	key := fmt.Sprintf("n|%s|%d", v.String(), w)
	return intern(key, func() *Term { return &Term{Op: "num", Val: v, Sort: BVS(w)} })
}
func NumI(v int64, w int) *Term { return Num(big.NewInt(v), w) }

func (t *Term) IsNum() bool { return t.Op == "num" }

func mk(op string, s *Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	b.WriteString("|" + s.str)
	return intern(b.String(), func() *Term { return &Term{Op: op, Args: args, Sort: s} })
}

// App is an uninterpreted function application.
func App(name string, res *Sort, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := funTab[name]; !ok {
		d := &FunDecl{Name: name, Res: res}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		funTab[name] = d
	}
	if len(args) == 0 {
		return Const(name, res)
	}
	var b strings.Builder
	b.WriteString("app|" + name)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	return intern(b.String(), func() *Term { return &Term{Op: "app", Name: name, Args: args, Sort: res} })
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", BoolS, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == True {
			return true
		}
		if x == False {
			return false
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		if seen[Not(x).ID] {
			return false
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", BoolS, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == False {
			return true
		}
		if x == True {
			return false
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.ID] {
			return true
		}
		if seen[Not(x).ID] {
			return false
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", BoolS, out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", BoolS, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Implies(c, a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %v %v", a.Sort, b.Sort))
	}
	return mk("ite", a.Sort, c, a, b)
}

// splitAdd views t as base + constant.
func splitAdd(t *Term) (*Term, *big.Int) {
	if t.Op == "num" {
		return nil, t.Val
	}
	if t.Op == "bvadd" && t.Args[1].Op == "num" {
		return t.Args[0], t.Args[1].Val
	}
	return t, big.NewInt(0)
}

func provablyDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Sort.K == SBV {
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb {
			m := new(big.Int).Lsh(big.NewInt(1), uint(a.Sort.W))
			d := new(big.Int).Sub(ac, bc)
			d.Mod(d, m)
			return d.Sign() != 0
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %v %v: %v %v", a.Sort, b.Sort, a, b))
	}
	if a.Sort == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if provablyDistinct(a, b) {
		return False
	}
	if a.Sort.K == SBV {
		// x + c1 = c2  ->  x = c2 - c1
		if b.IsNum() && a.Op == "bvadd" && a.Args[1].IsNum() {
			return Eq(a.Args[0], Num(new(big.Int).Sub(b.Val, a.Args[1].Val), a.Sort.W))
		}
		if a.IsNum() && b.Op == "bvadd" && b.Args[1].IsNum() {
			return Eq(b.Args[0], Num(new(big.Int).Sub(a.Val, b.Args[1].Val), a.Sort.W))
		}
		if b.IsNum() && a.Op == "zext" {
			aw := a.Args[0].Sort.W
			if b.Val.BitLen() > aw {
				return False
			}
			return Eq(a.Args[0], Num(b.Val, aw))
		}
		if a.IsNum() && b.Op == "zext" {
			return Eq(b, a)
		}
		if a.Op == "zext" && b.Op == "zext" && a.Args[0].Sort == b.Args[0].Sort {
			return Eq(a.Args[0], b.Args[0])
		}
	}
	if b.ID < a.ID {
		a, b = b, a
	}
	return mk("=", BoolS, a, b)
}

func toSigned(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

// linear builds the canonical form of a sum or difference: positive terms in
// id order, minus negative terms in id order, plus a constant.
func linear(op string, a, b *Term, w int) *Term {
	if op == "bvadd" && b.IsNum() && b.Val.Sign() == 0 {
		return a
	}
	if b.IsNum() && b.Val.Sign() == 0 {
		return a
	}
	coef := map[*Term]*big.Int{}
	var order []*Term
	cst := new(big.Int)
	var walk func(t *Term, k *big.Int)
	walk = func(t *Term, k *big.Int) {
		switch {
		case t.IsNum():
			cst.Add(cst, new(big.Int).Mul(k, t.Val))
		case t.Op == "bvadd":
			walk(t.Args[0], k)
			walk(t.Args[1], k)
		case t.Op == "bvsub":
			walk(t.Args[0], k)
			walk(t.Args[1], new(big.Int).Neg(k))
		case t.Op == "bvmul" && t.Args[1].IsNum():
			walk(t.Args[0], new(big.Int).Mul(k, t.Args[1].Val))
		default:
			if c, ok := coef[t]; ok {
				c.Add(c, k)
			} else {
				coef[t] = new(big.Int).Set(k)
				order = append(order, t)
			}
		}
	}
	one := big.NewInt(1)
	walk(a, one)
	if op == "bvadd" {
		walk(b, one)
	} else {
		walk(b, big.NewInt(-1))
	}
	mod := new(big.Int).Lsh(one, uint(w))
	half := new(big.Int).Rsh(mod, 1)
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	var pos, neg *Term
	for _, t := range order {
		c := coef[t]
		c.Mod(c, mod)
		if c.Cmp(half) > 0 {
			c.Sub(c, mod)
		}
		if c.Sign() == 0 {
			continue
		}
		abs := new(big.Int).Abs(c)
		u := t
		if abs.Cmp(one) != 0 {
			u = mk("bvmul", t.Sort, t, Num(abs, w))
		}
		if c.Sign() > 0 {
			if pos == nil {
				pos = u
			} else {
				pos = mk("bvadd", u.Sort, pos, u)
			}
		} else {
			if neg == nil {
				neg = u
			} else {
				neg = mk("bvadd", u.Sort, neg, u)
			}
		}
	}
	k := Num(cst, w)
	if neg != nil {
		if pos == nil {
			return mk("bvsub", neg.Sort, k, neg)
		}
		pos = mk("bvsub", neg.Sort, pos, neg)
	}
	if pos == nil {
		return k
	}
	if k.Val.Sign() == 0 {
		return pos
	}
	return mk("bvadd", pos.Sort, pos, k)
}

func BVBin(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("%s sorts %v %v", op, a.Sort, b.Sort))
	}
	w := a.Sort.W
	if a.IsNum() && b.IsNum() {
		r := new(big.Int)
		x, y := a.Val, b.Val
		switch op {
		case "bvadd":
			return Num(r.Add(x, y), w)
		case "bvsub":
			return Num(r.Sub(x, y), w)
		case "bvmul":
			return Num(r.Mul(x, y), w)
		case "bvand":
			return Num(r.And(x, y), w)
		case "bvor":
			return Num(r.Or(x, y), w)
		case "bvxor":
			return Num(r.Xor(x, y), w)
		case "bvshl":
			if y.BitLen() > 20 || y.Int64() >= int64(w) {
				return NumI(0, w)
			}
			return Num(r.Lsh(x, uint(y.Int64())), w)
		case "bvlshr":
			if y.BitLen() > 20 || y.Int64() >= int64(w) {
				return NumI(0, w)
			}
			return Num(r.Rsh(x, uint(y.Int64())), w)
		case "bvudiv":
			if y.Sign() != 0 {
				return Num(r.Div(x, y), w)
			}
		case "bvurem":
			if y.Sign() != 0 {
				return Num(r.Mod(x, y), w)
			}
		}
	}
	switch op {
	case "bvadd", "bvsub":
		return linear(op, a, b, w)
	case "bvand":
		if a == b {
			return a
		}
		if a.IsNum() {
			a, b = b, a
		}
		if b.IsNum() {
			if b.Val.Sign() == 0 {
				return b
			}
			if b == Num(big.NewInt(-1), w) {
				return a
			}
		}
	case "bvor":
		if a == b {
			return a
		}
		if a.IsNum() {
			a, b = b, a
		}
		if b.IsNum() {
			if b.Val.Sign() == 0 {
				return a
			}
			if b == Num(big.NewInt(-1), w) {
				return b
			}
		}
	case "bvxor":
		if a == b {
			return NumI(0, w)
		}
		if a.IsNum() {
			a, b = b, a
		}
		if b.IsNum() && b.Val.Sign() == 0 {
			return a
		}
	case "bvshl", "bvlshr":
		if b.IsNum() && b.Val.Sign() == 0 {
			return a
		}
	case "bvmul":
		if a.IsNum() {
			a, b = b, a
		}
		if b.IsNum() && b.Val.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk(op, a.Sort, a, b)
}

func BVCmp(op string, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("%s sorts %v %v", op, a.Sort, b.Sort))
	}
	w := a.Sort.W
	if a.IsNum() && b.IsNum() {
		switch op {
		case "bvult":
			return Bool(a.Val.Cmp(b.Val) < 0)
		case "bvule":
			return Bool(a.Val.Cmp(b.Val) <= 0)
		case "bvslt":
			return Bool(toSigned(a.Val, w).Cmp(toSigned(b.Val, w)) < 0)
		case "bvsle":
			return Bool(toSigned(a.Val, w).Cmp(toSigned(b.Val, w)) <= 0)
		}
	}
	if a == b {
		return Bool(op == "bvule" || op == "bvsle")
	}
	if op == "bvult" && b.IsNum() && b.Val.Sign() == 0 {
		return False
	}
	if op == "bvule" && a.IsNum() && a.Val.Sign() == 0 {
		return True
	}
	if (op == "bvult" || op == "bvule") && a.Op == "zext" && b.Op == "zext" && a.Args[0].Sort == b.Args[0].Sort {
		return BVCmp(op, a.Args[0], b.Args[0])
	}
	if (op == "bvult" || op == "bvule") && a.Op == "zext" && b.IsNum() {
		aw := a.Args[0].Sort.W
		if b.Val.BitLen() > aw {
			return True
		}
		return BVCmp(op, a.Args[0], Num(b.Val, aw))
	}
	return mk(op, BoolS, a, b)
}

func Ult(a, b *Term) *Term { return BVCmp("bvult", a, b) }
func Ule(a, b *Term) *Term { return BVCmp("bvule", a, b) }
func Slt(a, b *Term) *Term { return BVCmp("bvslt", a, b) }
func Sle(a, b *Term) *Term { return BVCmp("bvsle", a, b) }
func Add(a, b *Term) *Term { return BVBin("bvadd", a, b) }
func Sub(a, b *Term) *Term { return BVBin("bvsub", a, b) }

func BVNot(a *Term) *Term {
	if a.IsNum() {
		return Num(new(big.Int).Not(a.Val), a.Sort.W)
	}
	if a.Op == "bvnot" {
		return a.Args[0]
	}
	return mk("bvnot", a.Sort, a)
}
func BVNeg(a *Term) *Term { return Sub(NumI(0, a.Sort.W), a) }

// ZExt / SExt / Trunc to width w.
func ZExt(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Sort.W > w {
		return Extract(a, w-1, 0)
	}
	if a.IsNum() {
		return Num(a.Val, w)
	}
	if a.Op == "zext" {
		return ZExt(a.Args[0], w)
	}
	if a.Op == "ite" && (a.Args[1].IsNum() || a.Args[2].IsNum()) {
		return Ite(a.Args[0], ZExt(a.Args[1], w), ZExt(a.Args[2], w))
	}
	return mk("zext", BVS(w), a)
}
func SExt(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Sort.W > w {
		return Extract(a, w-1, 0)
	}
	if a.IsNum() {
		return Num(toSigned(a.Val, a.Sort.W), w)
	}
	if a.Op == "zext" { // top bit is zero
		return ZExt(a.Args[0], w)
	}
	return mk("sext", BVS(w), a)
}
func Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.Sort.W-1 {
		return a
	}
	if a.IsNum() {
		v := new(big.Int).Rsh(a.Val, uint(lo))
		return Num(v, hi-lo+1)
	}
	if a.Op == "zext" || a.Op == "sext" {
		iw := a.Args[0].Sort.W
		if hi < iw {
			return Extract(a.Args[0], hi, lo)
		}
		if lo == 0 && a.Op == "zext" {
			return ZExt(a.Args[0], hi+1)
		}
		if lo >= iw && a.Op == "zext" {
			return NumI(0, hi-lo+1)
		}
	}
	return mk(fmt.Sprintf("(_ extract %d %d)", hi, lo), BVS(hi-lo+1), a)
}
func Concat(a, b *Term) *Term {
	w := a.Sort.W + b.Sort.W
	if a.IsNum() && b.IsNum() {
		v := new(big.Int).Lsh(a.Val, uint(b.Sort.W))
		return Num(v.Or(v, b.Val), w)
	}
	return mk("concat", BVS(w), a, b)
}

func Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if provablyDistinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		break
	}
	if a.Sort.K != SArr || a.Sort.Idx != i.Sort {
		panic(fmt.Sprintf("select sorts %v %v", a.Sort, i.Sort))
	}
	return mk("select", a.Sort.Elem, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.Sort.K != SArr || a.Sort.Idx != i.Sort || a.Sort.Elem != v.Sort {
		panic(fmt.Sprintf("store sorts %v %v %v", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, a, i, v)
}
func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", s, v) }

func quantT(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var b strings.Builder
	b.WriteString(op)
	for _, v := range vars {
		fmt.Fprintf(&b, "|%d", v.ID)
	}
	fmt.Fprintf(&b, "|b%d", body.ID)
	for _, p := range pats {
		b.WriteString("|p")
		for _, x := range p {
			fmt.Fprintf(&b, ",%d", x.ID)
		}
	}
	return intern(b.String(), func() *Term {
		return &Term{Op: op, Args: []*Term{body}, Bound: vars, Pats: pats, Sort: BoolS}
	})
}
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quantT("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quantT("exists", vars, body, pats)
}

// rebuild reapplies simplifying constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "bvadd", "bvsub", "bvmul", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "bvudiv", "bvurem", "bvsdiv", "bvsrem":
		return BVBin(t.Op, args[0], args[1])
	case "bvult", "bvule", "bvslt", "bvsle":
		return BVCmp(t.Op, args[0], args[1])
	case "bvnot":
		return BVNot(args[0])
	case "zext":
		return ZExt(args[0], t.Sort.W)
	case "sext":
		return SExt(args[0], t.Sort.W)
	case "concat":
		return Concat(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "constarr":
		return ConstArr(t.Sort, args[0])
	case "app":
		return App(t.Name, t.Sort, args...)
	}
	if strings.HasPrefix(t.Op, "(_ extract") {
		var hi, lo int
		fmt.Sscanf(t.Op, "(_ extract %d %d)", &hi, &lo)
		return Extract(args[0], hi, lo)
	}
	return mk(t.Op, t.Sort, args...)
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}
func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if t.Op == "forall" || t.Op == "exists" {
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				y := substMemo(x, m, memo)
				if y != x {
					ch = true
				}
				q = append(q, y)
			}
			pats = append(pats, q)
		}
		if ch {
			r = quantT(t.Op, t.Bound, args[0], pats)
		}
	} else if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string {
	p := &printer{names: map[*Term]string{}}
	s := p.str(t)
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

// ---------- SMT-LIB printing ----------

type printer struct {
	names map[*Term]string
}

func (p *printer) head(t *Term) string {
	switch t.Op {
	case "zext":
		return fmt.Sprintf("(_ zero_extend %d)", t.Sort.W-t.Args[0].Sort.W)
	case "sext":
		return fmt.Sprintf("(_ sign_extend %d)", t.Sort.W-t.Args[0].Sort.W)
	case "constarr":
		return "(as const " + t.Sort.str + ")"
	case "app":
		return t.Name
	}
	return t.Op
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.Op {
	case "const", "bvar":
		return symName(t.Name)
	case "num":
		return fmt.Sprintf("(_ bv%s %d)", t.Val.String(), t.Sort.W)
	case "true", "false":
		return t.Op
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Bound {
			fmt.Fprintf(&b, "(%s %s)", symName(v.Name), v.Sort.str)
		}
		b.WriteString(") ")
		body := p.bodyWithLets(t)
		if len(t.Pats) > 0 {
			b.WriteString("(! " + body)
			for _, pt := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						b.WriteString(" ")
					}
					b.WriteString(p.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	var b strings.Builder
	b.WriteString("(" + p.head(t))
	for _, a := range t.Args {
		b.WriteString(" ")
		b.WriteString(p.str(a))
	}
	b.WriteString(")")
	return b.String()
}

// bodyWithLets prints a quantifier body, let-binding shared non-ground subterms.
func (p *printer) bodyWithLets(q *Term) string {
	body := q.Args[0]
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if _, named := p.names[t]; named {
			return
		}
		if len(t.Args) == 0 {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if t.Op == "forall" || t.Op == "exists" {
			return // inner scopes handled separately
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	walk(body)
	var binds []string
	var added []*Term
	for _, t := range order {
		if cnt[t] > 1 && t.size > 3 && t != body {
			s := p.str(t)
			n := fmt.Sprintf("l%d", t.ID)
			binds = append(binds, "(("+n+" "+s+"))")
			p.names[t] = n
			added = append(added, t)
		}
	}
	s := p.str(body)
	for i := len(binds) - 1; i >= 0; i-- {
		s = "(let " + binds[i] + " " + s + ")"
	}
	for _, t := range added {
		delete(p.names, t)
	}
	return s
}

func symName(n string) string {
	return "|" + n + "|"
}

// Script renders assertions as an SMT-LIB script (no check-sat).
func Script(asserts []*Term) string {
	var b strings.Builder
	sorts := map[string]bool{}
	consts := map[*Term]bool{}
	funs := map[string]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		switch s.K {
		case SArr:
			addSort(s.Idx)
			addSort(s.Elem)
		case SUn:
			sorts[s.Name] = true
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		addSort(t.Sort)
		for _, v := range t.Bound {
			addSort(v.Sort)
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				walk(x)
			}
		}
		switch t.Op {
		case "const":
			consts[t] = true
		case "app":
			funs[t.Name] = true
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		walk(a)
	}
	var sn []string
	for s := range sorts {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	var fn []string
	for f := range funs {
		fn = append(fn, f)
	}
	sort.Strings(fn)
	for _, f := range fn {
		d := funTab[f]
		fmt.Fprintf(&b, "(declare-fun %s (", d.Name)
		for i, a := range d.Args {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(a.str)
		}
		fmt.Fprintf(&b, ") %s)\n", d.Res.str)
	}
	var cs []*Term
	for c := range consts {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	for _, c := range cs {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", symName(c.Name), c.Sort.str)
	}
	p := &printer{names: map[*Term]string{}}
	for _, t := range order {
		if !t.free && len(t.Args) > 0 && cnt[t] > 1 && t.size > 3 && !t.quant {
			s := p.str(t)
			n := fmt.Sprintf("d%d", t.ID)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.str, s)
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", p.str(a))
	}
	return b.String()
}
