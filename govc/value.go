package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
//
//	*Term    scalars; pointers to whole objects, channels, maps, opaque values (Int)
//	*StructV, *IfaceV, *SliceV, *PtrV (interior pointer), *FuncV, *TupleV, *ArrV
type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}

type IfaceV struct {
	Tag, Val *Term
}

type SliceV struct {
	Ref, Off, Len, Cap *Term
}

// PtrV points inside an object: leaf paths start with Path.
type PtrV struct {
	Base  *Term
	Root  types.Type // type of the object, or element type when Elems
	Elems bool
	Idx   *Term
	Path  string
	T     types.Type // pointed-to type
	ID    int64
}

type FuncV struct {
	Fn    *ssa.Function
	Binds []Value
	Sub   map[string]types.Type
	Model string // trusted closure kind (e.g. cancel functions)
	Data  []Value
	Recv  Value // bound method receiver
	Has   bool
	ID    int64
	T     types.Type
}

type TupleV struct{ E []Value }

// ArrV is an array value: one SMT array per leaf of the element type.
type ArrV struct {
	T types.Type // array type
	L map[string]*Term
}

// references of new objects lie in a range no integer literal of the code falls into
const refBase = 1 << 61

func isRefID(i int64) bool { return i > refBase && i < refBase+1<<40 }

type typeInfo struct {
	T   types.Type
	Key string
}

// Exec-wide tables live in Exec (exec.go); encoding helpers here.

func typeKey(t types.Type) string {
	return byteName.ReplaceAllString(types.TypeString(t, func(p *types.Package) string { return qual(p) }), "uint8")
}

var byteName = regexp.MustCompile(`\bbyte\b`)

func (x *Exec) tag(t types.Type) *Term {
	t = types.Unalias(t)
	k := typeKey(t)
	if id, ok := x.tags[k]; ok {
		return x.c.Int(id)
	}
	id := int64(len(x.tags) + 1)
	x.tags[k] = id
	x.tagT[id] = t
	return x.c.Int(id)
}

func (x *Exec) newRef() int64 {
	x.next++
	return x.next
}

func zeroTerm(c *Ctx, s Sort) *Term {
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.Bool(false)
	case SString:
		return c.Str("")
	case SF32:
		return c.F32(0)
	case SF64:
		return c.F64(0)
	}
	if strings.HasPrefix(string(s), "(Array ") {
		_, v := arrParts(s)
		return c.ConstArr(s, zeroTerm(c, v))
	}
	panic("zero of " + string(s))
}

// zeroLeaf is the zero of a leaf; opaque external structs have a per-type zero.
func (x *Exec) zeroLeaf(l Leaf) *Term {
	if l.Kind == "opaque" && !isTimeLike(l.T) {
		return x.c.Int(0)
	}
	return zeroTerm(x.c, l.Sort)
}

func isTimeLike(t types.Type) bool {
	n := namedName(t)
	return n == "time.Time" || n == "time.Duration"
}

// flatten lists the leaf terms of v (of type t), in the order of leaves(t).
func (x *Exec) flatten(v Value, t types.Type) []*Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *IfaceV:
		return []*Term{v.Tag, v.Val}
	case *SliceV:
		return []*Term{v.Ref, v.Off, v.Len, v.Cap}
	case *StructV:
		st := structOf(v.T)
		var out []*Term
		for i, f := range v.F {
			out = append(out, x.flatten(f, st.Field(i).Type())...)
		}
		return out
	case *FuncV:
		return []*Term{x.funcID(v)}
	case *PtrV:
		return []*Term{x.ptrID(v)}
	case *TupleV:
		var out []*Term
		tt := t.(*types.Tuple)
		for i, e := range v.E {
			out = append(out, x.flatten(e, tt.At(i).Type())...)
		}
		return out
	case *ArrV:
		at := under(v.T).(*types.Array)
		var out []*Term
		for i := int64(0); i < at.Len(); i++ {
			for _, l := range leaves(at.Elem()) {
				out = append(out, c.Select(v.L[l.Path], c.Int(i)))
			}
		}
		return out
	case nil:
		// zero value
		var out []*Term
		for _, l := range leaves(t) {
			out = append(out, x.zeroLeaf(l))
		}
		return out
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func (x *Exec) funcID(f *FuncV) *Term {
	if f.ID == 0 {
		f.ID = x.newRef()
		x.funcTab[f.ID] = f
	}
	return x.c.Int(f.ID)
}

func (x *Exec) ptrID(p *PtrV) *Term {
	if p.ID == 0 {
		p.ID = x.newRef()
		x.ptrTab[p.ID] = p
	}
	return x.c.Int(p.ID)
}

// build makes a value of type t from leaf terms.
func (x *Exec) build(t types.Type, next func(Leaf) *Term) Value {
	v, _ := x.buildAt(t, "", next)
	return v
}

func (x *Exec) buildAt(t types.Type, prefix string, next func(Leaf) *Term) (Value, bool) {
	t = types.Unalias(t)
	leaf := func(suffix string, s Sort, lt types.Type, kind string) *Term {
		return next(Leaf{prefix + suffix, s, lt, kind})
	}
	if isTParam(t) {
		return leaf("", SInt, t, "tparam"), true
	}
	if isOpaque(t) {
		return leaf("", SInt, t, "opaque"), true
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return leaf("", basicSort(u), t, ""), true
	case *types.Pointer:
		id := leaf("", SInt, t, "ref")
		if id.Op == "int" {
			if p, ok := x.ptrTab[id.I]; ok {
				return p, true
			}
		}
		return id, true
	case *types.Signature:
		id := leaf("", SInt, t, "ref")
		return x.asFunc(id), true
	case *types.Chan, *types.Map:
		return leaf("", SInt, t, "ref"), true
	case *types.Interface:
		return &IfaceV{leaf(".tag", SInt, t, "tag"), leaf(".val", SInt, t, "val")}, true
	case *types.Slice:
		return &SliceV{leaf(".ref", SInt, t, "ref"), leaf(".off", SInt, t, "off"), leaf(".len", SInt, t, "len"), leaf(".cap", SInt, t, "cap")}, true
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fv, _ := x.buildAt(f.Type(), prefix+"."+f.Name(), next)
			s.F = append(s.F, fv)
		}
		return s, true
	case *types.Array:
		a := &ArrV{T: t, L: map[string]*Term{}}
		ls := leaves(u.Elem())
		for _, l := range ls {
			a.L[l.Path] = x.c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
		}
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range ls {
				v := next(Leaf{fmt.Sprintf("%s[%d]%s", prefix, i, l.Path), l.Sort, l.T, l.Kind})
				a.L[l.Path] = x.c.Store(a.L[l.Path], x.c.Int(i), v)
			}
		}
		return a, true
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			e, _ := x.buildAt(u.At(i).Type(), fmt.Sprintf("%s#%d", prefix, i), next)
			tv.E = append(tv.E, e)
		}
		return tv, true
	}
	return leaf("", SInt, t, "opaque"), true
}

func (x *Exec) asFunc(id *Term) Value {
	if id.Op == "int" {
		if f, ok := x.funcTab[id.I]; ok {
			return f
		}
	}
	return id
}

func (x *Exec) unflatten(t types.Type, ts []*Term) Value {
	i := 0
	v := x.build(t, func(Leaf) *Term { r := ts[i]; i++; return r })
	if i != len(ts) {
		panic(fmt.Sprintf("unflatten %s: %d of %d", t, i, len(ts)))
	}
	return v
}

func (x *Exec) zero(t types.Type) Value {
	return x.build(t, func(l Leaf) *Term { return x.zeroLeaf(l) })
}

// fresh makes an arbitrary value of type t; facts about it are added to st.
func (x *Exec) fresh(st *State, t types.Type, hint string) Value {
	v := x.build(t, func(l Leaf) *Term {
		return x.freshLeaf(st, l, hint+l.Path)
	})
	x.wellFormed(st, v)
	return v
}

func (x *Exec) freshLeaf(st *State, l Leaf, hint string) *Term {
	k := x.c.Fresh(hint, l.Sort)
	x.noteConst(k)
	x.leafFacts(st, l, k)
	return k
}

// leafFacts assumes type-level facts about a leaf.
func (x *Exec) leafFacts(st *State, l Leaf, k *Term) {
	c := x.c
	if k.isLit() {
		return
	}
	switch l.Kind {
	case "ref":
		st.assume(c.Le(c.Int(0), k))
		// what is allocated later is something else
		if b := c.maxRef(k); b < noBound {
			st.assume(c.Le(k, c.Int(b)))
		}
	case "tag", "off", "len", "cap":
		st.assume(c.Le(c.Int(0), k))
	case "":
		if l.Sort == SInt {
			if lo, hi, ok := intRange(l.T); ok && namedName(l.T) != "time.Duration" {
				st.assume(x.rangeTerm(k, lo, hi))
			}
		}
	}
}

func (x *Exec) rangeTerm(k *Term, lo, hi string) *Term {
	c := x.c
	l := c.mk(&Term{Op: "raw", Name: smtInt(lo), Sort: SInt})
	h := c.mk(&Term{Op: "raw", Name: smtInt(hi), Sort: SInt})
	if lo == "0" {
		l = c.Int(0)
	}
	return c.And(c.op("<=", SBool, l, k), c.op("<=", SBool, k, h))
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

// wellFormed assumes structural facts (slice lengths, nil interfaces).
func (x *Exec) wellFormed(st *State, v Value) {
	c := x.c
	switch v := v.(type) {
	case *SliceV:
		if v.Len.isLit() && v.Cap.isLit() {
			return
		}
		st.assume(c.Le(v.Len, v.Cap))
		st.assume(c.Implies(c.Eq(v.Ref, c.Int(0)), c.And(c.Eq(v.Len, c.Int(0)), c.Eq(v.Cap, c.Int(0)), c.Eq(v.Off, c.Int(0)))))
	case *IfaceV:
		if v.Tag.isLit() {
			return
		}
		st.assume(c.Implies(c.Eq(v.Tag, c.Int(0)), c.Eq(v.Val, c.Int(0))))
	case *StructV:
		for _, f := range v.F {
			x.wellFormed(st, f)
		}
	case *TupleV:
		for _, f := range v.E {
			x.wellFormed(st, f)
		}
	}
}

// noteConst records creation order and the reference bound of a constant.
func (x *Exec) noteConst(k *Term) {
	x.seq++
	x.c.seqOf[k] = x.seq
	x.c.bnd[k] = x.next
}

// ---- interfaces ----

func (x *Exec) nilIface() *IfaceV { return &IfaceV{x.c.Int(0), x.c.Int(0)} }

// ptrLike tells whether values of t are their own interface payload.
func ptrLike(t types.Type) bool {
	if isTParam(t) {
		return true
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return true
	}
	return false
}

// mkIface converts a value of concrete type t to an interface value.
func (x *Exec) mkIface(v Value, t types.Type) *IfaceV {
	t = types.Unalias(t)
	tag := x.tag(t)
	if ptrLike(t) {
		return &IfaceV{tag, x.flatten(v, t)[0]}
	}
	ls := x.flatten(v, t)
	return &IfaceV{tag, x.box(t, ls)}
}

func (x *Exec) box(t types.Type, ls []*Term) *Term {
	// box(unbox_0(v),…) = v
	n := "box$" + typeKey(t)
	if len(ls) == 0 {
		return x.c.Int(0) // a type with one value
	}
	if len(ls) > 0 && ls[0].Op == "app" && strings.HasPrefix(ls[0].Name, "|unbox$"+typeKey(t)+"#0|") {
		v := ls[0].Args[0]
		same := true
		for i, l := range ls {
			if l != x.unboxLeaf(t, i, l.Sort, v) {
				same = false
			}
		}
		if same {
			return v
		}
	}
	b := x.c.App(n, SInt, ls...)
	return b
}

func (x *Exec) unboxLeaf(t types.Type, i int, s Sort, v *Term) *Term {
	if v.Op == "ite" {
		return x.c.Ite(v.Args[0], x.unboxLeaf(t, i, s, v.Args[1]), x.unboxLeaf(t, i, s, v.Args[2]))
	}
	if v.Op == "app" && v.Name == "|box$"+strings.ReplaceAll(typeKey(t), "|", "_")+"|" {
		return v.Args[i]
	}
	return x.c.App(fmt.Sprintf("unbox$%s#%d", typeKey(t), i), s, v)
}

// unIface extracts the value of concrete type t (the dynamic type is known to be t).
func (x *Exec) unIface(st *State, i *IfaceV, t types.Type) Value {
	t = types.Unalias(t)
	if ptrLike(t) {
		if _, ok := under(t).(*types.Signature); ok && !isTParam(t) {
			return x.asFunc(i.Val)
		}
		if i.Val.Op == "int" {
			if p, ok := x.ptrTab[i.Val.I]; ok {
				return p
			}
		}
		return i.Val
	}
	n := 0
	ls := leaves(t)
	terms := make([]*Term, len(ls))
	known := i.Val.Op == "app" && strings.HasPrefix(i.Val.Name, "|box$")
	v := x.build(t, func(l Leaf) *Term {
		r := x.unboxLeaf(t, n, l.Sort, i.Val)
		terms[n] = r
		n++
		return r
	})
	if !known && st != nil {
		for k, l := range ls {
			x.leafFacts(st, l, terms[k])
			if l.Kind == "ref" && !terms[k].isLit() {
				if m := x.c.maxRef(terms[k]); m < noBound {
					st.assume(x.c.Le(terms[k], x.c.Int(m)))
				}
			}
		}
		x.wellFormed(st, v)
		if len(ls) > 0 {
			b := x.c.App("box$"+typeKey(t), SInt, terms...)
			st.assume(x.c.Implies(x.c.Eq(i.Tag, x.tag(t)), x.c.Eq(b, i.Val)))
		}
	}
	return v
}

// dynType is the statically known dynamic type of an interface value, or nil.
func (x *Exec) dynType(i *IfaceV) types.Type {
	if i.Tag.Op == "int" && i.Tag.I > 0 {
		return x.tagT[i.Tag.I]
	}
	return nil
}

// ---- equality ----

func (x *Exec) eq(a, b Value, t types.Type) *Term {
	c := x.c
	if bs, ok := b.(*SliceV); ok {
		// slices compare with nil only
		as := a.(*SliceV)
		if bs.Ref.Op == "int" && bs.Ref.I == 0 {
			return c.Eq(as.Ref, c.Int(0))
		}
		return c.Eq(bs.Ref, c.Int(0))
	}
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	if len(fa) != len(fb) {
		panic(fmt.Sprintf("eq of %T %T", a, b))
	}
	var out []*Term
	for i := range fa {
		if fa[i].Sort == SF32 || fa[i].Sort == SF64 {
			out = append(out, x.c.op("fp.eq", SBool, fa[i], fb[i]))
		} else {
			out = append(out, c.Eq(fa[i], fb[i]))
		}
	}
	return c.And(out...)
}

// ---- constants ----

func (x *Exec) constant(st *State, t types.Type, v constant.Value) Value {
	c := x.c
	t = types.Unalias(t)
	if v == nil {
		return x.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch basicSort(u) {
		case SBool:
			return c.Bool(constant.BoolVal(v))
		case SString:
			return c.Str(constant.StringVal(v))
		case SF32:
			f, _ := constant.Float64Val(v)
			return c.F32(f)
		case SF64:
			f, _ := constant.Float64Val(v)
			return c.F64(f)
		default:
			if i, ok := constInt(v); ok {
				return c.Int(i)
			}
			return c.mk(&Term{Op: "raw", Name: smtInt(constant.ToInt(v).ExactString()), Sort: SInt})
		}
	case *types.Interface:
		if isTParam(t) {
			break
		}
		// untyped constant to interface does not occur in SSA
	}
	if isTParam(t) {
		return x.zero(t)
	}
	_ = math.MaxInt64
	return x.zero(t)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
