package main

// Symbolic values, types as leaf vectors, and heap objects.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct{ F []Value }

// ArrV is a fixed-size array; leaves are (Array BV64 leaf).
type ArrV struct {
	Leaves []*Term
	N      int64
	Elem   types.Type
}

// PE is a path element of a pointer: a struct field or an element index.
type PE struct {
	Field int
	Idx   *Term // non-nil for an index step
}

type PtrV struct {
	Nil  *Term
	Obj  int // 0: nil pointer
	Path []PE
}

type SliceV struct {
	Nil           *Term
	Obj           int // 0: no backing (len 0)
	Off, Len, Cap *Term
}

type MapV struct {
	Nil *Term
	Obj int
}

// IfaceV: closed-world interface (Val is a value of the registered dynamic
// type) or an opaque one (Val is a term of an uninterpreted sort).
type IfaceV struct {
	Nil *Term
	Ptr *Term // dynamic type is the pointer variant (tree.ID only)
	Val Value
}

type FuncV struct {
	Nil   *Term
	Fn    *ssa.Function
	Binds []Value
	Name  string // opaque function symbol
	Sig   *types.Signature
}

type TupleV []Value

// MapIterV is the state of a range over a map.
type MapIterV struct {
	Obj  int // iterator cell
	KeyT types.Type
	ValT types.Type
}

// SeqV is a spec-level sequence view of leaf arrays (ghost).
type GhostArr struct {
	Leaves []*Term // one array per leaf of the element type
	KeyT   types.Type
	ElT    types.Type
}

type ObjKind int

const (
	OCell ObjKind = iota
	OBack
	OMap
	OLock
	OMapIter
)

// Obj is an immutable heap object; a write replaces it in State.heap.
type Obj struct {
	Kind   ObjKind
	Typ    types.Type // cell type / element type / map type
	Val    Value      // cell
	Leaves []*Term    // backing arrays or map value arrays
	Pres   *Term      // map presence array
	Card   *Term      // map cardinality
	N      *Term      // backing size (elements)
	Fresh  bool       // allocated during this verification run
	Name   string
	Ghost  map[string]Value
	Mode   int // lock: 0 free, 1 read, 2 write
	Shared int // backing that may share memory with this one
	Frozen bool
	Poison bool
	// map iterator
	MapObj   int
	MapSnap  *Obj
	Enum     *Term // Array BV64 key
	EnumInv  *Term // Array key BV64
	Cnt, Pos *Term
	Guard    int // lock object that guards this one (0: none)
}

func (o *Obj) clone() *Obj { n := *o; return &n }

type undecided struct{ msg string }

func undec(f string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(f, a...)})
}

// ---- type registry ----

type Ctx struct {
	W       int
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by short path after pkg/
	leafTab map[string][]Leaf
}

type Leaf struct {
	Name string
	Sort *Sort
}

const modPath = "github.com/henderiw/idxtable/pkg/"

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	n, _ := t.(*types.Named)
	return n
}

func qualName(n *types.Named) string {
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return strings.TrimPrefix(o.Pkg().Path(), modPath) + "." + o.Name()
}

// closedDyn returns the registered dynamic type of a closed-world interface.
func (c *Ctx) closedDyn(t types.Type) types.Type {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	w := fmt.Sprint(c.W)
	look := func(pkg, name string) types.Type {
		p := c.pkgs[pkg]
		if p == nil {
			undec("package %s not found", pkg)
		}
		o := p.Pkg.Scope().Lookup(name)
		if o == nil {
			undec("type %s.%s not found", pkg, name)
		}
		return o.Type()
	}
	inst := func(g types.Type, args *types.TypeList) types.Type {
		var ta []types.Type
		for i := 0; i < args.Len(); i++ {
			ta = append(ta, args.At(i))
		}
		r, err := types.Instantiate(nil, g, ta, false)
		if err != nil {
			undec("instantiate: %v", err)
		}
		return r
	}
	switch qualName(n) {
	case "tree.ID":
		return look("tree/id"+w, "myid"+w)
	case "tree.Range":
		return look("tree/id"+w, "r"+w)
	case "tree.Entry":
		return look("tree", "entry")
	case "tree/gtree.GTree":
		return types.NewPointer(look("tree/tree"+w, "tree"+w))
	case "idxtable.Entry":
		return inst(look("idxtable", "entry"), n.TypeArgs())
	case "idxtable.Table":
		return types.NewPointer(inst(look("idxtable", "table"), n.TypeArgs()))
	case "table.Table":
		return types.NewPointer(look("table/table"+w, "table"+w))
	case "iptable.IPTable":
		return types.NewPointer(look("iptable", "ipTable"))
	}
	return nil
}

func isPtrType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// opaqueSort returns the uninterpreted sort for types modelled opaquely.
func (c *Ctx) opaqueSort(t types.Type) *Sort {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return UnS("T")
	}
	if n := namedOf(t); n != nil {
		switch qualName(n) {
		case "k8s.io/apimachinery/pkg/labels.Set":
			return UnS("Labels")
		case "net/netip.Addr":
			return BVS(addrW)
		case "github.com/hansthienpondt/nipam/pkg/table.Route":
			return UnS("Route")
		case "net/netip.Prefix":
			return UnS("Prefix")
		case "error":
			return UnS("Err")
		case "k8s.io/apimachinery/pkg/labels.Selector":
			return UnS("Selector")
		case "math/big.Int":
			return BVS(bigW)
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return UnS("Str")
	}
	return nil
}

const bigW = 192

func bvWidth(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (c *Ctx) leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	key := t.String()
	if l, ok := c.leafTab[key]; ok {
		return l
	}
	l := c.leaves0(t)
	c.leafTab[key] = l
	return l
}

func (c *Ctx) leaves0(t types.Type) []Leaf {
	if s := c.opaqueSort(t); s != nil {
		if isIface(t) {
			return []Leaf{{"nil", BoolS}, {"v", s}}
		}
		return []Leaf{{"", s}}
	}
	if d := c.closedDyn(t); d != nil {
		out := []Leaf{{"nil", BoolS}}
		if isPtrType(d) {
			undec("pointer-valued interface %v inside an aggregate", t)
		}
		if hasPtrVariant(t) {
			out = append(out, Leaf{"ptr", BoolS})
		}
		out = append(out, c.leaves(d)...)
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := bvWidth(t); ok {
			return []Leaf{{"", BVS(w)}}
		}
		if isBool(t) {
			return []Leaf{{"", BoolS}}
		}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range c.leaves(u.Field(i).Type()) {
				out = append(out, Leaf{u.Field(i).Name() + "." + l.Name, l.Sort})
			}
		}
		return out
	case *types.Interface:
		return []Leaf{{"nil", BoolS}, {"v", UnS("Any")}}
	}
	undec("type %v cannot be stored in an aggregate", t)
	return nil
}

func isIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func hasPtrVariant(t types.Type) bool {
	n := namedOf(t)
	return n != nil && qualName(n) == "tree.ID"
}

func (c *Ctx) flatten(t types.Type, v Value) []*Term {
	t = types.Unalias(t)
	if c.opaqueSort(t) != nil {
		if i, ok := v.(*IfaceV); ok {
			return []*Term{i.Nil, i.Val.(*Term)}
		}
		return []*Term{v.(*Term)}
	}
	if d := c.closedDyn(t); d != nil {
		i := v.(*IfaceV)
		out := []*Term{i.Nil}
		if hasPtrVariant(t) {
			out = append(out, i.Ptr)
		}
		return append(out, c.flatten(d, i.Val)...)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(*StructV)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, c.flatten(u.Field(i).Type(), s.F[i])...)
		}
		return out
	case *types.Interface:
		i := v.(*IfaceV)
		if tv, ok := i.Val.(*Term); ok {
			return []*Term{i.Nil, tv}
		}
		return []*Term{i.Nil, Fresh("any", UnS("Any"))}
	}
	tm, ok := v.(*Term)
	if !ok {
		undec("flatten %v: %T", t, v)
	}
	return []*Term{tm}
}

func (c *Ctx) unflatten(t types.Type, ls []*Term) (Value, []*Term) {
	t = types.Unalias(t)
	if c.opaqueSort(t) != nil {
		if isIface(t) {
			return &IfaceV{Nil: ls[0], Val: ls[1]}, ls[2:]
		}
		return ls[0], ls[1:]
	}
	if d := c.closedDyn(t); d != nil {
		i := &IfaceV{Nil: ls[0]}
		ls = ls[1:]
		if hasPtrVariant(t) {
			i.Ptr = ls[0]
			ls = ls[1:]
		}
		i.Val, ls = c.unflatten(d, ls)
		return i, ls
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ls = c.unflatten(u.Field(i).Type(), ls)
			s.F = append(s.F, v)
		}
		return s, ls
	case *types.Interface:
		return &IfaceV{Nil: ls[0], Val: ls[1]}, ls[2:]
	}
	return ls[0], ls[1:]
}

func (c *Ctx) unflat(t types.Type, ls []*Term) Value {
	v, rest := c.unflatten(t, ls)
	if len(rest) != 0 {
		undec("unflatten leftover for %v", t)
	}
	return v
}

func zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return False
	case SBV:
		return NumI(0, s.W)
	case SUn:
		return Const(s.Name+"_zero", s)
	case SArr:
		return ConstArr(s, zeroTerm(s.Elem))
	}
	panic("zeroTerm")
}

// zero value of a type.
func (x *Exec) zero(t types.Type) Value {
	c := x.c
	t = types.Unalias(t)
	if s := c.opaqueSort(t); s != nil {
		if isIface(t) {
			return &IfaceV{Nil: True, Val: zeroTerm(s)}
		}
		return zeroTerm(s)
	}
	if d := c.closedDyn(t); d != nil {
		i := &IfaceV{Nil: True, Val: x.zero(d)}
		if hasPtrVariant(t) {
			i.Ptr = False
		}
		return i
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := bvWidth(t); ok {
			return NumI(0, w)
		}
		if isBool(t) {
			return False
		}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{N: u.Len(), Elem: u.Elem()}
		for _, l := range c.leaves(u.Elem()) {
			z := zeroTerm(l.Sort)
			if l.Name == "nil" {
				z = True
			}
			a.Leaves = append(a.Leaves, ConstArr(ArrS(BVS(64), l.Sort), z))
		}
		return a
	case *types.Pointer:
		return &PtrV{Nil: True}
	case *types.Slice:
		return nilSlice()
	case *types.Map:
		return &MapV{Nil: True}
	case *types.Signature:
		return &FuncV{Nil: True, Sig: u}
	case *types.Interface:
		return &IfaceV{Nil: True, Val: zeroTerm(UnS("Any"))}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	}
	undec("zero of %v", t)
	return nil
}

// zeroLeaf lists the zero leaves of a type (used to initialise backings).
func (x *Exec) zeroLeaves(t types.Type) []*Term { return x.c.flatten(t, x.zero(t)) }

func nilSlice() *SliceV {
	z := NumI(0, 64)
	return &SliceV{Nil: True, Off: z, Len: z, Cap: z}
}

// mergeVal builds ite(c, a, b) when shapes agree.
func mergeVal(c *Term, a, b Value) (Value, bool) {
	if a == nil && b == nil {
		return nil, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.Sort != y.Sort {
			return nil, false
		}
		return Ite(c, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		r := &StructV{}
		for i := range x.F {
			v, ok := mergeVal(c, x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			r.F = append(r.F, v)
		}
		return r, true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.Leaves) != len(y.Leaves) {
			return nil, false
		}
		r := &ArrV{N: x.N, Elem: x.Elem}
		for i := range x.Leaves {
			r.Leaves = append(r.Leaves, Ite(c, x.Leaves[i], y.Leaves[i]))
		}
		return r, true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			return nil, false
		}
		if x.Obj == y.Obj && len(x.Path) == len(y.Path) {
			r := &PtrV{Nil: Ite(c, x.Nil, y.Nil), Obj: x.Obj}
			for i := range x.Path {
				p, q := x.Path[i], y.Path[i]
				if (p.Idx == nil) != (q.Idx == nil) || p.Field != q.Field {
					return nil, false
				}
				if p.Idx != nil {
					p.Idx = Ite(c, p.Idx, q.Idx)
				}
				r.Path = append(r.Path, p)
			}
			return r, true
		}
		if x.Obj == 0 && y.Obj != 0 {
			return &PtrV{Nil: Ite(c, True, y.Nil), Obj: y.Obj, Path: y.Path}, true
		}
		if y.Obj == 0 && x.Obj != 0 {
			return &PtrV{Nil: Ite(c, x.Nil, True), Obj: x.Obj, Path: x.Path}, true
		}
		return nil, false
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return nil, false
		}
		obj := x.Obj
		if x.Obj != y.Obj {
			if x.Obj == 0 && x.Cap.IsNum() && x.Cap.Val.Sign() == 0 {
				obj = y.Obj
			} else if y.Obj == 0 && y.Cap.IsNum() && y.Cap.Val.Sign() == 0 {
				obj = x.Obj
			} else {
				return nil, false
			}
		}
		return &SliceV{Nil: Ite(c, x.Nil, y.Nil), Obj: obj, Off: Ite(c, x.Off, y.Off), Len: Ite(c, x.Len, y.Len), Cap: Ite(c, x.Cap, y.Cap)}, true
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || x.Obj != y.Obj {
			return nil, false
		}
		return &MapV{Nil: Ite(c, x.Nil, y.Nil), Obj: x.Obj}, true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return nil, false
		}
		v, ok := mergeVal(c, x.Val, y.Val)
		if !ok {
			return nil, false
		}
		r := &IfaceV{Nil: Ite(c, x.Nil, y.Nil), Val: v}
		if x.Ptr != nil && y.Ptr != nil {
			r.Ptr = Ite(c, x.Ptr, y.Ptr)
		}
		return r, true
	case *GhostArr:
		y, ok := b.(*GhostArr)
		if !ok || len(x.Leaves) != len(y.Leaves) {
			return nil, false
		}
		r := &GhostArr{KeyT: x.KeyT, ElT: x.ElT}
		for i := range x.Leaves {
			r.Leaves = append(r.Leaves, Ite(c, x.Leaves[i], y.Leaves[i]))
		}
		return r, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if ok && x == y {
			return x, true
		}
		return nil, false
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var r TupleV
		for i := range x {
			v, ok := mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	}
	return nil, false
}

// sameVal reports syntactic identity.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.Leaves) != len(y.Leaves) {
			return false
		}
		for i := range x.Leaves {
			if x.Leaves[i] != y.Leaves[i] {
				return false
			}
		}
		return true
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Obj != y.Obj || x.Nil != y.Nil || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && *x == *y
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.Nil == y.Nil && x.Ptr == y.Ptr && sameVal(x.Val, y.Val)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.Fn != y.Fn || x.Name != y.Name || x.Nil != y.Nil || len(x.Binds) != len(y.Binds) {
			return false
		}
		for i := range x.Binds {
			if !sameVal(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *MapIterV:
		y, ok := b.(*MapIterV)
		return ok && x.Obj == y.Obj
	case *GhostArr:
		y, ok := b.(*GhostArr)
		if !ok || len(x.Leaves) != len(y.Leaves) {
			return false
		}
		for i := range x.Leaves {
			if x.Leaves[i] != y.Leaves[i] {
				return false
			}
		}
		return true
	}
	return false
}

func sameObj(a, b *Obj) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Kind != b.Kind {
		return false
	}
	if !sameVal(a.Val, b.Val) || a.Pres != b.Pres || a.Card != b.Card || a.N != b.N || a.Mode != b.Mode || a.Pos != b.Pos || a.Poison != b.Poison || a.Frozen != b.Frozen {
		return false
	}
	if len(a.Leaves) != len(b.Leaves) || len(a.Ghost) != len(b.Ghost) {
		return false
	}
	for i := range a.Leaves {
		if a.Leaves[i] != b.Leaves[i] {
			return false
		}
	}
	for k, v := range a.Ghost {
		if !sameVal(v, b.Ghost[k]) {
			return false
		}
	}
	return true
}
