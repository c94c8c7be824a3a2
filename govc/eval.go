package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed value.
type TV struct {
	V Value
	T types.Type
}

// GMap is a ghost map: total function from a scalar to V.
type GMapT struct {
	K, V types.Type
}

func (g *GMapT) Underlying() types.Type { return g }
func (g *GMapT) String() string         { return "gmap[" + g.K.String() + "]" + g.V.String() }

type GMapV struct {
	T *GMapT
	L []*Term // one array per leaf of V
}

type Env struct {
	x     *Exec
	st    *State
	old   *State
	vars  map[string]TV
	up    *Env
	ev    *Event
	tps   map[string]types.Type
	frame *Frame // local variables may be named
	loop  *loopRun
}

type evalErr struct{ msg string }

func (e *Env) fail(f string, a ...any) {
	panic(evalErr{fmt.Sprintf(f, a...)})
}

func (e *Env) lookup(n string) (TV, bool) {
	for c := e; c != nil; c = c.up {
		if v, ok := c.vars[n]; ok {
			return v, true
		}
	}
	if e.frame != nil {
		if v, ok := e.local(n); ok {
			return v, true
		}
	}
	if g, ok := e.st.ghosts[n]; ok {
		return TV{g, e.x.u.ghostT[n]}, true
	}
	if e.x.u.env != nil {
		if v, ok := e.x.u.env[n]; ok {
			return v, true
		}
	}
	return TV{}, false
}

// local finds a variable of the function that contains the loop.
func (e *Env) local(n string) (TV, bool) {
	x, f := e.x, e.frame
	if e.loop != nil {
		for _, p := range x.headerPhis(e.loop.head) {
			if p.Comment == n {
				if v, ok := f.regs[p]; ok {
					return TV{v, x.typ(f, p.Type())}, true
				}
			}
		}
	}
	for v, val := range f.regs {
		if a, ok := v.(*ssa.Alloc); ok && a.Comment == n {
			t := x.typ(f, derefType(a.Type()))
			return TV{e.st.load(val, t), t}, true
		}
	}
	for _, v := range f.fn.FreeVars {
		if v.Name() == n {
			t := x.typ(f, derefType(v.Type()))
			if _, isPtr := under(v.Type()).(*types.Pointer); isPtr {
				return TV{e.st.load(f.regs[v], t), t}, true
			}
			return TV{f.regs[v], x.typ(f, v.Type())}, true
		}
	}
	for _, p := range f.fn.Params {
		if p.Name() == n {
			return TV{f.regs[p], x.typ(f, p.Type())}, true
		}
	}
	return TV{}, false
}

func (e *Env) child() *Env {
	return &Env{x: e.x, st: e.st, old: e.old, vars: map[string]TV{}, up: e, ev: e.ev, tps: e.tps, frame: e.frame, loop: e.loop}
}

func (e *Env) Bool(ex ast.Expr) *Term {
	v := e.eval(ex)
	t, ok := v.V.(*Term)
	if !ok || t.Sort != SBool {
		e.fail("not a boolean: %s", exprStr(ex))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

var untypedNil = types.Typ[types.UntypedNil]

// coerce makes v usable as type t.
func (e *Env) coerce(v TV, t types.Type) TV {
	x := e.x
	if v.T == t || t == nil {
		return v
	}
	if b, ok := v.T.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 || v.T == nil {
		if v.T == untypedNil {
			return TV{x.zero(t), t}
		}
		tv := v.V.(*Term)
		if isIface(t) {
			return TV{x.mkIface(tv, types.Default(v.T)), t}
		}
		ls := leaves(t)
		if len(ls) == 1 {
			switch ls[0].Sort {
			case SF32:
				if tv.Op == "int" {
					return TV{x.c.F32(float64(tv.I)), t}
				}
				if tv.Sort == SF64 {
					return TV{x.c.op("to_fp32", SF32, tv), t}
				}
			case SF64:
				if tv.Op == "int" {
					return TV{x.c.F64(float64(tv.I)), t}
				}
			}
		}
		return TV{tv, t}
	}
	if isIface(t) && !isIface(v.T) {
		return TV{x.mkIface(v.V, v.T), t}
	}
	return TV{v.V, t}
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (e *Env) unify(a, b TV) (TV, TV) {
	if isUntyped(a.T) && !isUntyped(b.T) {
		return e.coerce(a, b.T), b
	}
	if isUntyped(b.T) && !isUntyped(a.T) {
		return a, e.coerce(b, a.T)
	}
	if isIface(a.T) && !isIface(b.T) {
		return a, e.coerce(b, a.T)
	}
	if isIface(b.T) && !isIface(a.T) {
		return e.coerce(a, b.T), b
	}
	return a, b
}

func (e *Env) pkg(name string) *types.Package {
	if l := e.x.P.byName[name]; len(l) > 0 {
		return l[0]
	}
	return nil
}

var basicNames = map[string]types.Type{}

func init() {
	for _, t := range types.Typ {
		basicNames[t.Name()] = t
	}
	basicNames["byte"] = types.Typ[types.Uint8]
	basicNames["error"] = types.Universe.Lookup("error").Type()
	basicNames["any"] = types.Universe.Lookup("any").Type().Underlying()
}

// typ resolves a type expression, nil when it is not one.
func (e *Env) typ(ex ast.Expr) types.Type {
	switch ex := ex.(type) {
	case *ast.Ident:
		if t, ok := e.tps[ex.Name]; ok {
			return t
		}
		return basicNames[ex.Name]
	case *ast.StarExpr:
		if t := e.typ(ex.X); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ParenExpr:
		return e.typ(ex.X)
	case *ast.ArrayType:
		if t := e.typ(ex.Elt); t != nil && ex.Len == nil {
			return types.NewSlice(t)
		}
	case *ast.MapType:
		k, v := e.typ(ex.Key), e.typ(ex.Value)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.ChanType:
		if t := e.typ(ex.Value); t != nil {
			return types.NewChan(types.SendRecv, t)
		}
	case *ast.InterfaceType:
		return basicNames["any"]
	case *ast.FuncType:
		vars := func(l *ast.FieldList) *types.Tuple {
			var vs []*types.Var
			if l != nil {
				for _, f := range l.List {
					t := e.typ(f.Type)
					if t == nil {
						return nil
					}
					for i := 0; i < max(1, len(f.Names)); i++ {
						vs = append(vs, types.NewVar(0, nil, "", t))
					}
				}
			}
			return types.NewTuple(vs...)
		}
		ps, rs := vars(ex.Params), vars(ex.Results)
		if ex.Params.NumFields() != ps.Len() || ex.Results.NumFields() != rs.Len() {
			return nil
		}
		return types.NewSignatureType(nil, nil, nil, ps, rs, false)
	case *ast.StructType:
		if ex.Fields == nil || len(ex.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.SelectorExpr:
		id, ok := ex.X.(*ast.Ident)
		if !ok {
			return nil
		}
		if _, shadow := e.lookup(id.Name); shadow {
			return nil
		}
		for _, p := range e.x.P.byName[id.Name] {
			if o := p.Scope().Lookup(ex.Sel.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.IndexExpr:
		if g := e.typ(ex.X); g != nil {
			if a := e.typ(ex.Index); a != nil {
				return instantiate(g, []types.Type{a})
			}
		}
	case *ast.IndexListExpr:
		if g := e.typ(ex.X); g != nil {
			var as []types.Type
			for _, i := range ex.Indices {
				a := e.typ(i)
				if a == nil {
					return nil
				}
				as = append(as, a)
			}
			return instantiate(g, as)
		}
	}
	return nil
}

func instantiate(g types.Type, as []types.Type) types.Type {
	n, ok := g.(*types.Named)
	if !ok || n.TypeParams().Len() != len(as) {
		return nil
	}
	t, err := types.Instantiate(nil, n.Origin(), as, false)
	if err != nil {
		return nil
	}
	return t
}

func (e *Env) typStr(s string) types.Type {
	if strings.HasPrefix(s, "gmap[") {
		i := strings.Index(s, "]")
		k, v := e.typStr(s[5:i]), e.typStr(s[i+1:])
		if k == nil || v == nil {
			return nil
		}
		return &GMapT{k, v}
	}
	ex := parseExpr(s, "type")
	return e.typ(ex.E)
}

func (e *Env) eval(ex ast.Expr) TV {
	x := e.x
	c := x.c
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			i, err := strconv.ParseInt(ex.Value, 0, 64)
			if err != nil {
				e.fail("bad int %s", ex.Value)
			}
			return TV{c.Int(i), types.Typ[types.UntypedInt]}
		case token.STRING:
			s, _ := strconv.Unquote(ex.Value)
			return TV{c.Str(s), types.Typ[types.UntypedString]}
		case token.FLOAT:
			f, _ := strconv.ParseFloat(ex.Value, 64)
			return TV{c.F64(f), types.Typ[types.UntypedFloat]}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(ex.Value[1:], '\'')
			return TV{c.Int(int64(r)), types.Typ[types.UntypedRune]}
		}
	case *ast.Ident:
		switch ex.Name {
		case "true":
			return TV{c.Bool(true), types.Typ[types.Bool]}
		case "false":
			return TV{c.Bool(false), types.Typ[types.Bool]}
		case "nil":
			return TV{nil, untypedNil}
		}
		if v, ok := e.lookup(ex.Name); ok {
			return v
		}
		if m, ok := x.u.specs.Macros[ex.Name]; ok && len(m.Params) == 0 {
			return e.eval(m.E.E)
		}
		e.fail("unknown name %s", ex.Name)
	case *ast.UnaryExpr:
		v := e.eval(ex.X)
		switch ex.Op {
		case token.NOT:
			return TV{c.Not(v.V.(*Term)), types.Typ[types.Bool]}
		case token.SUB:
			t := v.V.(*Term)
			if t.Sort == SInt {
				return TV{c.Neg(t), v.T}
			}
			return TV{c.op("fp.neg", t.Sort, t), v.T}
		case token.AND:
			return v
		}
	case *ast.StarExpr:
		v := e.eval(ex.X)
		t := derefType(v.T)
		return TV{e.st.load(v.V, t), t}
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.SelectorExpr:
		if id, ok := ex.X.(*ast.Ident); ok {
			if _, is := e.lookup(id.Name); !is {
				if v, ok := e.pkgMember(id.Name, ex.Sel.Name); ok {
					return v
				}
			}
		}
		return e.field(e.eval(ex.X), ex.Sel.Name)
	case *ast.IndexExpr:
		b := e.eval(ex.X)
		i := e.eval(ex.Index)
		return e.index(b, i)
	case *ast.SliceExpr:
		b := e.eval(ex.X)
		lo := c.Int(0)
		if ex.Low != nil {
			lo = e.eval(ex.Low).V.(*Term)
		}
		switch v := b.V.(type) {
		case *Term:
			hi := c.StrLen(v)
			if ex.High != nil {
				hi = e.eval(ex.High).V.(*Term)
			}
			return TV{c.Substr(v, lo, c.Sub(hi, lo)), b.T}
		}
	case *ast.CallExpr:
		return e.call(ex)
	case *ast.CompositeLit:
		t := e.typ(ex.Type)
		if t == nil || len(ex.Elts) > 0 {
			e.fail("cannot evaluate %s", exprStr(ex))
		}
		return TV{x.zero(t), t}
	case *ast.TypeAssertExpr:
		t := e.typ(ex.Type)
		if t == nil {
			e.fail("unknown type %s", exprStr(ex.Type))
		}
		v := e.eval(ex.X)
		if isIface(t) {
			return TV{v.V, t}
		}
		return TV{x.unIface(e.st, v.V.(*IfaceV), t), t}
	}
	e.fail("cannot evaluate %s", exprStr(ex))
	return TV{}
}

func (e *Env) pkgMember(pkg, name string) (TV, bool) {
	x := e.x
	for _, p := range x.P.byName[pkg] {
		o := p.Scope().Lookup(name)
		switch o := o.(type) {
		case *types.Const:
			return TV{x.constant(e.st, o.Type(), o.Val()), o.Type()}, true
		case *types.Var:
			sp := x.P.prog.Package(p)
			if sp == nil {
				return TV{x.externalGlobal(e.st, o), o.Type()}, true
			}
			g, _ := sp.Members[name].(*ssa.Global)
			if g == nil {
				return TV{}, false
			}
			return TV{x.loadGlobal(e.st, g, o.Type()), o.Type()}, true
		case *types.Func:
			sp := x.P.prog.Package(p)
			if sp == nil {
				return TV{}, false
			}
			f := sp.Func(name)
			if f == nil {
				return TV{}, false
			}
			return TV{&FuncV{Fn: f, T: f.Signature}, f.Signature}, true
		}
	}
	return TV{}, false
}

// field evaluates v.name, following embedded fields.
func (e *Env) field(v TV, name string) TV {
	x := e.x
	t := v.T
	var pkg *types.Package
	if n, ok := types.Unalias(derefType(t)).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		e.fail("no field %s in %s", name, t)
	}
	_ = fv
	for _, i := range idx {
		st := structOf(derefType(t))
		if st == nil {
			e.fail("field %s of %s", name, t)
		}
		f := st.Field(i)
		if _, isPtr := under(t).(*types.Pointer); isPtr {
			p := x.fieldPtr(v.V, derefType(t), i)
			v = TV{e.st.load(p, f.Type()), f.Type()}
			// keep the address for lock and fuse predicates
			if isOpaque(f.Type()) {
				v = TV{v.V, f.Type()}
			}
		} else if s, ok := v.V.(*StructV); ok {
			v = TV{s.F[i], f.Type()}
		} else {
			e.fail("field %s of opaque %s", name, t)
		}
		t = f.Type()
	}
	return v
}

// addr evaluates &v.name for a field expression.
func (e *Env) addr(ex ast.Expr) TV {
	x := e.x
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.addr(ex.X)
	case *ast.SelectorExpr:
		b := e.eval(ex.X)
		t := b.T
		var pkg *types.Package
		if n, ok := types.Unalias(derefType(t)).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
		_, idx, _ := types.LookupFieldOrMethod(t, true, pkg, ex.Sel.Name)
		if len(idx) == 0 {
			e.fail("no field %s in %s", ex.Sel.Name, t)
		}
		cur := b.V
		for k, i := range idx {
			st := structOf(derefType(t))
			f := st.Field(i)
			p := x.fieldPtr(cur, derefType(t), i)
			if k == len(idx)-1 {
				return TV{p, types.NewPointer(f.Type())}
			}
			if _, isPtr := under(f.Type()).(*types.Pointer); isPtr {
				cur = e.st.load(p, f.Type())
				t = f.Type()
			} else {
				cur = p
				t = types.NewPointer(f.Type())
			}
		}
	}
	return e.eval(ex)
}

func (e *Env) index(b, i TV) TV {
	x := e.x
	c := x.c
	switch u := under(b.T).(type) {
	case *GMapT:
		g := b.V.(*GMapV)
		k := x.flatten(e.coerce(i, u.K).V, u.K)
		kt := k[0]
		if len(k) > 1 {
			kt = x.mapKey(mapRep{kt: u.K}, e.coerce(i, u.K).V)
		}
		n := 0
		return TV{x.build(u.V, func(l Leaf) *Term { r := c.Select(g.L[n], kt); n++; return r }), u.V}
	case *types.Map:
		m := x.mapRep(b.T)
		v, _ := e.st.mapGet(m, b.V.(*Term), x.mapKey(m, e.coerce(i, m.kt).V))
		return TV{v, m.et}
	case *types.Slice:
		s := b.V.(*SliceV)
		it := i.V.(*Term)
		if isByte(u.Elem()) {
			return TV{c.StrAt(e.st.bytesOf(s), it), u.Elem()}
		}
		return TV{e.st.load(&PtrV{Base: s.Ref, Root: u.Elem(), Elems: true, Idx: c.Add(s.Off, it), T: u.Elem()}, u.Elem()), u.Elem()}
	case *types.Basic:
		return TV{c.StrAt(b.V.(*Term), i.V.(*Term)), types.Typ[types.Uint8]}
	case *types.Array:
		a := b.V.(*ArrV)
		return TV{x.build(u.Elem(), func(l Leaf) *Term { return c.Select(a.L[l.Path], i.V.(*Term)) }), u.Elem()}
	}
	e.fail("cannot index %s", b.T)
	return TV{}
}

func (e *Env) binary(ex *ast.BinaryExpr) TV {
	x := e.x
	c := x.c
	boolT := types.Typ[types.Bool]
	switch ex.Op {
	case token.LAND:
		return TV{c.And(e.Bool(ex.X), e.Bool(ex.Y)), boolT}
	case token.LOR:
		return TV{c.Or(e.Bool(ex.X), e.Bool(ex.Y)), boolT}
	}
	a, b := e.eval(ex.X), e.eval(ex.Y)
	switch ex.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if a.T == untypedNil && b.T == untypedNil {
			r = c.Bool(true)
		} else if b.T == untypedNil {
			r = ptrNil(x, a.V)
		} else if a.T == untypedNil {
			r = ptrNil(x, b.V)
		} else {
			a, b = e.unify(a, b)
			if g, ok := a.V.(*GMapV); ok {
				h := b.V.(*GMapV)
				r = c.Bool(true)
				for i := range g.L {
					r = c.And(r, c.Eq(g.L[i], h.L[i]))
				}
			} else if sa, ok := a.V.(*SliceV); ok {
				// same slice header
				sb := b.V.(*SliceV)
				r = c.And(c.Eq(sa.Ref, sb.Ref), c.Eq(sa.Off, sb.Off), c.Eq(sa.Len, sb.Len))
			} else {
				r = x.binop(e.st, token.EQL, a.V, b.V, a.T, b.T, boolT).(*Term)
			}
		}
		if ex.Op == token.NEQ {
			r = c.Not(r)
		}
		return TV{r, boolT}
	}
	a, b = e.unify(a, b)
	rt := a.T
	switch ex.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		rt = boolT
	}
	return TV{x.binop(e.st, ex.Op, a.V, b.V, a.T, b.T, rt), rt}
}

func (e *Env) call(ex *ast.CallExpr) TV {
	x := e.x
	c := x.c
	boolT := types.Typ[types.Bool]
	intT := types.Typ[types.Int]
	if id, ok := ex.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "implies":
			a := e.Bool(ex.Args[0])
			if a.IsFalse() {
				return TV{c.Bool(true), boolT}
			}
			return TV{c.Implies(a, e.Bool(ex.Args[1])), boolT}
		case "iff":
			return TV{c.Eq(e.Bool(ex.Args[0]), e.Bool(ex.Args[1])), boolT}
		case "ite":
			k := e.Bool(ex.Args[0])
			a, b := e.unify(e.eval(ex.Args[1]), e.eval(ex.Args[2]))
			return TV{x.iteValue(k, a.V, b.V, a.T), a.T}
		case "old":
			o := *e
			o.st = e.old
			if o.st == nil {
				e.fail("no old state")
			}
			if o.up != nil {
				u := *o.up
				u.st = e.old
				o.up = &u
			}
			return o.eval(ex.Args[0])
		case "len":
			v := e.eval(ex.Args[0])
			return TV{x.lenOf(e.st, v), intT}
		case "cap":
			v := e.eval(ex.Args[0])
			switch s := v.V.(type) {
			case *SliceV:
				return TV{s.Cap, intT}
			case *Term:
				return TV{c.Select(e.st.region("chan#cap", arr(SInt, SInt)), s), intT}
			}
		case "has":
			b := e.eval(ex.Args[0])
			k := e.eval(ex.Args[1])
			m := x.mapRep(b.T)
			return TV{e.st.mapHas(m, b.V.(*Term), x.mapKey(m, e.coerce(k, m.kt).V)), boolT}
		case "domof", "valof":
			// the contents of a map as a ghost map
			b := e.eval(ex.Args[0])
			m := x.mapRep(b.T)
			if id.Name == "domof" {
				return TV{&GMapV{&GMapT{m.kt, boolT}, []*Term{c.Ite(c.Eq(b.V.(*Term), c.Int(0)), c.ConstArr(arr(m.key, SBool), c.Bool(false)), c.Select(e.st.mapDom(m), b.V.(*Term)))}}, &GMapT{m.kt, boolT}}
			}
			g := &GMapV{T: &GMapT{m.kt, m.et}}
			for _, l := range m.ls {
				g.L = append(g.L, c.Select(e.st.mapVal(m, l), b.V.(*Term)))
			}
			return TV{g, g.T}
		case "elems":
			// the elements of a slice's array as a ghost map; s[i] is elems(s)[off(s)+i]
			b := e.eval(ex.Args[0])
			sl, ok := b.V.(*SliceV)
			if !ok {
				e.fail("elems of what is not a slice")
			}
			el := under(b.T).(*types.Slice).Elem()
			g := &GMapV{T: &GMapT{intT, el}}
			for _, l := range leaves(el) {
				g.L = append(g.L, c.Select(e.st.region(regionName(el, true, l.Path), regSort(true, l.Sort)), sl.Ref))
			}
			return TV{g, g.T}
		case "str":
			v := e.eval(ex.Args[0])
			return TV{e.st.bytesOf(v.V.(*SliceV)), types.Typ[types.String]}
		case "is":
			t := e.typ(ex.Args[1])
			if t == nil {
				e.fail("unknown type %s", exprStr(ex.Args[1]))
			}
			v := e.eval(ex.Args[0])
			if !isIface(v.T) {
				return TV{c.Bool(types.Identical(v.T, t)), boolT}
			}
			return TV{x.hasType(v.V.(*IfaceV), t), boolT}
		case "as":
			t := e.typ(ex.Args[1])
			if t == nil {
				e.fail("unknown type %s", exprStr(ex.Args[1]))
			}
			v := e.eval(ex.Args[0])
			if iv, ok := v.V.(*IfaceV); ok {
				if isIface(t) {
					return TV{iv, t}
				}
				return TV{x.unIface(e.st, iv, t), t}
			}
			return TV{v.V, t}
		case "iface":
			// iface(x): the value as an interface
			v := e.eval(ex.Args[0])
			if isIface(v.T) {
				return v
			}
			return TV{x.mkIface(v.V, v.T), basicNames["any"]}
		case "val":
			// val(i): identity of an interface value, val(p): of a reference
			v := e.eval(ex.Args[0])
			fl := x.flatten(v.V, v.T)
			return TV{fl[len(fl)-1], intT}
		case "asok", "asval":
			// what errors.As finds in an error for a target of type T
			iv := e.eval(ex.Args[0]).V.(*IfaceV)
			t := e.typ(ex.Args[1])
			if t == nil || !isIface(t) {
				e.fail("asok, asval: an interface type")
			}
			ok, v := x.errorsAsIs(iv, t)
			if id.Name == "asok" {
				return TV{ok, boolT}
			}
			return TV{v, t}
		case "statusok":
			iv := e.eval(ex.Args[0]).V.(*IfaceV)
			return TV{c.App("status_ok", SBool, iv.Tag, iv.Val), boolT}
		case "statusof":
			iv := e.eval(ex.Args[0]).V.(*IfaceV)
			t := e.typ(ex.Args[1])
			return TV{c.App("status_of", SInt, iv.Tag, iv.Val), t}
		case "ref":
			// the array a slice points to
			v := e.eval(ex.Args[0])
			return TV{v.V.(*SliceV).Ref, intT}
		case "foreign":
			// the map (or pointer) is none made by the function under contract
			v := e.eval(ex.Args[0])
			return TV{c.Lt(v.V.(*Term), c.Int(refBase)), boolT}
		case "off":
			// where in its array a slice begins
			v := e.eval(ex.Args[0])
			return TV{v.V.(*SliceV).Off, intT}
		case "tag":
			v := e.eval(ex.Args[0])
			return TV{v.V.(*IfaceV).Tag, intT}
		case "forall", "exists":
			return e.quant(id.Name, ex)
		case "closed":
			v := e.eval(ex.Args[0])
			return TV{c.Select(e.st.region("chan#closed", arr(SInt, SBool)), v.V.(*Term)), boolT}
		case "broken":
			p := e.addr(ex.Args[0])
			return TV{x.fuseBroken(e.st, p.V), boolT}
		case "fusechan":
			p := e.addr(ex.Args[0])
			return TV{x.fuseChan(p.V), intT}
		case "addr":
			return e.addr(ex.Args[0])
		case "held":
			p := e.addr(ex.Args[0])
			return TV{c.Bool(x.lockHeld(e.st, p.V, false)), boolT}
		case "nolocks":
			return TV{c.Bool(len(e.st.locks) == 0), boolT}
		case "now":
			return TV{x.nowTerm(e.st), intT}
		case "done":
			v := e.eval(ex.Args[0])
			return TV{x.ctxDone(e.st, v.V.(*IfaceV)), intT}
		case "hasdeadline":
			v := e.eval(ex.Args[0])
			return TV{x.ctxHasDL(v.V.(*IfaceV)), boolT}
		case "deadline":
			v := e.eval(ex.Args[0])
			return TV{x.ctxDL(v.V.(*IfaceV)), intT}
		case "nanos":
			return TV{e.eval(ex.Args[0]).V, types.Typ[types.Int64]}
		case "recvalt":
			// the enclosing select can also receive from ch
			v := e.eval(ex.Args[0])
			var alts []*Term
			if e.ev != nil {
				for _, a := range e.ev.Alts {
					if !a.send {
						alts = append(alts, c.Eq(a.ch, v.V.(*Term)))
					}
				}
			}
			return TV{c.Or(alts...), boolT}
		case "isdone", "canceled":
			// of a context, or of the channel of one
			v := e.eval(ex.Args[0])
			var k ctxKey
			switch t := v.V.(type) {
			case *IfaceV:
				k = ctxKey{t.Tag, t.Val}
			case *Term:
				q, ok := x.ctxOf[t]
				if !ok {
					return TV{c.Bool(false), boolT}
				}
				k = q
			}
			if id.Name == "canceled" {
				return TV{c.App("ctx_canceled", SBool, k.val), boolT}
			}
			return TV{c.Bool(x.ctxKnownDone(e.st, k)), boolT}
		case "readyby":
			// the enclosing select has a timer or a context that ends the wait at t or before
			lim := e.eval(ex.Args[0]).V.(*Term)
			var alts []*Term
			if e.ev != nil {
				for _, a := range e.ev.Alts {
					if a.send {
						continue
					}
					alts = append(alts, c.And(c.App("istimer", SBool, a.ch),
						c.Le(c.Add(c.App("timerat", SInt, a.ch), c.App("timerdur", SInt, a.ch)), lim)))
					if k, ok := x.ctxOf[a.ch]; ok {
						iv := &IfaceV{k.tag, k.val}
						alts = append(alts, c.And(x.ctxHasDL(iv), c.Le(x.ctxDL(iv), lim)))
					}
				}
			}
			return TV{c.Or(alts...), boolT}
		case "offered":
			// the select (or the send) of the event has the channel among those it would send on
			ch := e.eval(ex.Args[0]).V.(*Term)
			var alts []*Term
			if e.ev != nil {
				for _, a := range e.ev.Alts {
					if a.send {
						alts = append(alts, c.Eq(a.ch, ch))
					}
				}
			}
			return TV{c.Or(alts...), boolT}
		case "visited":
			// the keys the innermost running loop over the map has had so far, as a ghost map
			b := e.eval(ex.Args[0])
			m := x.mapRep(b.T)
			vis := c.ConstArr(arr(m.key, SBool), c.Bool(false))
			last := int64(-1 << 62)
			for _, f := range e.st.frames {
				for r, v := range f.regs {
					if it, ok := v.(*IterV); ok && it.str == nil && it.m == b.V.(*Term) && it.id > last && (e.loop == nil || advances(e.loop.head, r)) {
						if o := e.st.objs[it.id]; o != nil {
							vis, last = o.L["visited"], it.id
						}
					}
				}
			}
			if last == -1<<62 {
				e.fail("no loop over this map")
			}
			return TV{&GMapV{&GMapT{m.kt, boolT}, []*Term{vis}}, &GMapT{m.kt, boolT}}
		case "hasdefault":
			return TV{c.Bool(e.ev != nil && e.ev.Default), boolT}
		case "nalts":
			n := 0
			if e.ev != nil {
				n = len(e.ev.Alts)
			}
			return TV{c.Int(int64(n)), intT}
		case "timerchan":
			v := e.eval(ex.Args[0])
			return TV{c.App("timerdur", SInt, v.V.(*Term)), intT}
		case "fname":
			// canonical name of a known function value
			v := e.eval(ex.Args[0])
			if f, ok := v.V.(*FuncV); ok && f.Fn != nil {
				return TV{c.Str(funcName(f.Fn)), types.Typ[types.String]}
			}
			return TV{c.Str("?"), types.Typ[types.String]}
		case "same":
			a := e.eval(ex.Args[0])
			b := e.eval(ex.Args[1])
			a, b = e.unify(a, b)
			ta, tb := x.flatten(a.V, a.T), x.flatten(b.V, b.T)
			r := c.Bool(true)
			for i := range ta {
				r = c.And(r, c.Eq(ta[i], tb[i]))
			}
			return TV{r, boolT}
		case "allocated":
			// a reference to something that exists now
			v := e.eval(ex.Args[0])
			t, ok := v.V.(*Term)
			if !ok || t.Sort != SInt {
				e.fail("allocated: not a reference")
			}
			return TV{c.Le(t, c.Int(x.next)), boolT}
		case "upd":
			g := e.eval(ex.Args[0])
			return e.gmapSet(g, e.eval(ex.Args[1]), e.eval(ex.Args[2]))
		case "hasprefix":
			a, b := e.eval(ex.Args[0]), e.eval(ex.Args[1])
			return TV{c.op("str.prefixof", SBool, b.V.(*Term), a.V.(*Term)), boolT}
		case "chr":
			return TV{c.FromCode(e.eval(ex.Args[0]).V.(*Term)), types.Typ[types.String]}
		case "concat":
			var ts []*Term
			for _, a := range ex.Args {
				ts = append(ts, e.eval(a).V.(*Term))
			}
			return TV{c.Concat(ts...), types.Typ[types.String]}
		case "inre":
			a := e.eval(ex.Args[0])
			r := ex.Args[1].(*ast.BasicLit)
			s, _ := strconv.Unquote(r.Value)
			t, err := c.InRe(a.V.(*Term), s)
			if err != nil {
				e.fail("inre: %v", err)
			}
			return TV{t, boolT}
		case "wire":
			// wire(T{}, "Field"): the encoding and number a protobuf field travels under
			v := e.eval(ex.Args[0])
			fn, _ := strconv.Unquote(ex.Args[1].(*ast.BasicLit).Value)
			st := structOf(v.T)
			if st == nil {
				e.fail("wire: not a struct")
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fn {
					parts := strings.SplitN(reflect.StructTag(st.Tag(i)).Get("protobuf"), ",", 3)
					if len(parts) >= 2 {
						return TV{c.Str(parts[0] + "," + parts[1]), types.Typ[types.String]}
					}
				}
			}
			e.fail("wire: no protobuf field %s", fn)
		case "typeof":
			v := e.eval(ex.Args[0])
			return TV{x.tag(v.T), intT}
		}
		if id.Name == "applied" {
			// the zero value of a type after an option function ran on it
			fv := e.eval(ex.Args[0])
			t := e.typ(ex.Args[1])
			if t == nil {
				e.fail("applied: unknown type")
			}
			sig, ok := under(fv.T).(*types.Signature)
			if !ok || sig.Params().Len() != 1 {
				e.fail("applied: not an option function")
			}
			fn := fv.V
			if id, ok := fn.(*Term); ok {
				fn = x.asFunc(id)
			}
			if f, ok := fn.(*FuncV); !ok || f.Fn == nil {
				return TV{x.fresh(e.st, t, "applied"), t}
			}
			s := e.st.clone()
			ref := s.alloc(t)
			s.store(ref, t, x.zero(t))
			r := x.pureCallLoad(s, fn, []Value{ref}, sig, func(s *State) []Value { return []Value{s.load(ref, t)} }, []types.Type{t})
			return TV{r[0], t}
		}
		if m, ok := x.u.specs.Macros[id.Name]; ok {
			n := e.child()
			if len(ex.Args) != len(m.Params) {
				e.fail("macro %s: %d arguments", id.Name, len(ex.Args))
			}
			for i, p := range m.Params {
				n.vars[p] = e.eval(ex.Args[i])
			}
			return n.eval(m.E.E)
		}
		if sg, ok := x.u.specs.Uninterp[id.Name]; ok {
			var ts []*Term
			for _, a := range ex.Args {
				v := e.eval(a)
				if isUntyped(v.T) {
					v = e.coerce(v, types.Default(v.T))
				}
				ts = append(ts, x.flatten(v.V, v.T)...)
			}
			rt := e.typStr(sg[len(sg)-1])
			n := 0
			return TV{x.build(rt, func(l Leaf) *Term {
				n++
				return c.App(fmt.Sprintf("spec$%s#%d", id.Name, n), l.Sort, ts...)
			}), rt}
		}
	}
	// conversion
	if t := e.typ(ex.Fun); t != nil && len(ex.Args) == 1 {
		v := e.eval(ex.Args[0])
		if isUntyped(v.T) {
			return e.coerce(v, t)
		}
		if isIface(t) {
			return e.coerce(v, t)
		}
		return TV{x.convert(e.st, v.V, v.T, t), t}
	}
	// method or function of the program
	var fn Value
	var sig *types.Signature
	var args []Value
	fun := ex.Fun
	var targs []types.Type
	switch ix := fun.(type) {
	case *ast.IndexExpr:
		if t := e.typ(ix.Index); t != nil {
			targs = []types.Type{t}
			fun = ix.X
		}
	}
	if sel, ok := fun.(*ast.SelectorExpr); ok {
		isPkg := false
		if id, ok := sel.X.(*ast.Ident); ok {
			if _, is := e.lookup(id.Name); !is {
				if v, ok := e.pkgMember(id.Name, sel.Sel.Name); ok {
					fn = v.V
					sig, _ = under(v.T).(*types.Signature)
					isPkg = true
				} else if f := x.externalFunc(id.Name, sel.Sel.Name); f != nil {
					fn = f
					sig = f.T.(*types.Signature)
					isPkg = true
				}
			}
		}
		if !isPkg {
			recv := e.eval(sel.X)
			fn, sig, args = e.method(recv, sel.Sel.Name)
		}
	} else {
		v := e.eval(fun)
		fn = v.V
		sig, _ = under(v.T).(*types.Signature)
	}
	if sig == nil || fn == nil {
		e.fail("cannot call %s", exprStr(ex.Fun))
	}
	if f, ok := fn.(*FuncV); ok && f.Fn != nil && len(targs) > 0 {
		n := *f
		n.Sub = map[string]types.Type{}
		tp := f.Fn.TypeParams()
		for i := 0; i < tp.Len() && i < len(targs); i++ {
			n.Sub[tp.At(i).Obj().Name()] = targs[i]
		}
		fn = &n
	}
	for i, a := range ex.Args {
		v := e.eval(a)
		if i < sig.Params().Len() {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == sig.Params().Len()-1 {
				if isUntyped(v.T) && v.T != untypedNil {
					e.fail("variadic call in a contract: pass a slice")
				}
			}
			v = e.coerce(v, pt)
		}
		args = append(args, v.V)
	}
	res := x.pureCall(e.st, fn, args, sig)
	if len(res) != sig.Results().Len() {
		e.fail("call of %s yields no result", exprStr(ex.Fun))
	}
	if len(res) == 1 {
		rt := sig.Results().At(0).Type()
		if f, ok := fn.(*FuncV); ok && f.Sub != nil {
			rt = substType(rt, f.Sub)
		}
		return TV{res[0], rt}
	}
	return TV{&TupleV{res}, sig.Results()}
}

// method resolves recv.name to a callable and its leading arguments.
func (e *Env) method(recv TV, name string) (Value, *types.Signature, []Value) {
	x := e.x
	var pkg *types.Package
	if n, ok := types.Unalias(derefType(recv.T)).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, _, _ := types.LookupFieldOrMethod(recv.T, true, pkg, name)
	m, ok := obj.(*types.Func)
	if !ok {
		// function-typed field
		v := e.field(recv, name)
		s, _ := under(v.T).(*types.Signature)
		return v.V, s, nil
	}
	if isIface(recv.T) {
		iv := recv.V.(*IfaceV)
		return &InvokeV{iv, m, recv.T}, m.Type().(*types.Signature), nil
	}
	fn, args, ok := x.methodOf(e.st, recv.T, recv.V, m.Name(), m.Pkg())
	if !ok {
		e.fail("no method %s on %s", name, recv.T)
	}
	return fn, m.Type().(*types.Signature), args
}

func (e *Env) quant(kind string, ex *ast.CallExpr) TV {
	x := e.x
	c := x.c
	id := ex.Args[0].(*ast.Ident).Name
	n := e.child()
	boolT := types.Typ[types.Bool]
	if len(ex.Args) == 4 {
		lo, hi := e.eval(ex.Args[1]).V.(*Term), e.eval(ex.Args[2]).V.(*Term)
		if lo.Op == "int" && hi.Op == "int" && hi.I-lo.I <= 64 {
			var ts []*Term
			for i := lo.I; i < hi.I; i++ {
				m := e.child()
				m.vars[id] = TV{c.Int(i), types.Typ[types.Int]}
				ts = append(ts, m.Bool(ex.Args[3]))
			}
			if kind == "forall" {
				return TV{c.And(ts...), boolT}
			}
			return TV{c.Or(ts...), boolT}
		}
		b := c.BVar("q_"+id, SInt)
		n.vars[id] = TV{b, types.Typ[types.Int]}
		x.quiet = true
		body := n.Bool(ex.Args[3])
		x.quiet = false
		rng := c.And(c.Le(lo, b), c.Lt(b, hi))
		if kind == "forall" {
			return TV{c.Forall([]*Term{b}, c.Implies(rng, body)), boolT}
		}
		return TV{c.Exists([]*Term{b}, c.And(rng, body)), boolT}
	}
	t := e.typ(ex.Args[1])
	if t == nil {
		e.fail("unknown type %s", exprStr(ex.Args[1]))
	}
	var bs []*Term
	v := x.build(t, func(l Leaf) *Term {
		b := c.BVar("q_"+id+l.Path, l.Sort)
		bs = append(bs, b)
		return b
	})
	n.vars[id] = TV{v, t}
	x.quiet = true
	body := n.Bool(ex.Args[2])
	x.quiet = false
	if kind == "forall" {
		return TV{c.Forall(bs, body), boolT}
	}
	return TV{c.Exists(bs, body), boolT}
}

func (e *Env) gmapSet(g, k, v TV) TV {
	x := e.x
	gt := g.T.(*GMapT)
	gv := g.V.(*GMapV)
	kf := x.flatten(e.coerce(k, gt.K).V, gt.K)
	kt := kf[0]
	if len(kf) > 1 {
		kt = x.mapKey(mapRep{kt: gt.K}, e.coerce(k, gt.K).V)
	}
	fl := x.flatten(e.coerce(v, gt.V).V, gt.V)
	n := &GMapV{T: gt}
	for i := range gv.L {
		n.L = append(n.L, x.c.Store(gv.L[i], kt, fl[i]))
	}
	return TV{n, gt}
}

func (x *Exec) gmapFresh(t *GMapT, hint string) *GMapV {
	g := &GMapV{T: t}
	ks := leaves(t.K)[0].Sort
	if len(leaves(t.K)) > 1 {
		ks = SInt
	}
	for _, l := range leaves(t.V) {
		g.L = append(g.L, x.freshTerm(hint+l.Path, arr(ks, l.Sort)))
	}
	return g
}

func (x *Exec) gmapZero(t *GMapT) *GMapV {
	g := &GMapV{T: t}
	ks := leaves(t.K)[0].Sort
	if len(leaves(t.K)) > 1 {
		ks = SInt
	}
	for _, l := range leaves(t.V) {
		g.L = append(g.L, x.c.ConstArr(arr(ks, l.Sort), x.zeroLeaf(l)))
	}
	return g
}

// iteValue merges two values of type t.
func (x *Exec) iteValue(k *Term, a, b Value, t types.Type) Value {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if g, ok := a.(*GMapV); ok {
		h := b.(*GMapV)
		n := &GMapV{T: g.T}
		for i := range g.L {
			n.L = append(n.L, x.c.Ite(k, g.L[i], h.L[i]))
		}
		return n
	}
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	var out []*Term
	for i := range fa {
		out = append(out, x.c.Ite(k, fa[i], fb[i]))
	}
	return x.unflatten(t, out)
}

func (x *Exec) lenOf(st *State, v TV) *Term {
	c := x.c
	switch s := v.V.(type) {
	case *SliceV:
		return s.Len
	case *Term:
		switch u := under(v.T).(type) {
		case *types.Basic:
			return c.StrLen(s)
		case *types.Map:
			return st.mapLen(x.mapRep(v.T), s)
		case *types.Chan:
			return x.chanLen(st, s)
		case *types.Pointer:
			if a, ok := under(u.Elem()).(*types.Array); ok {
				return c.Int(a.Len())
			}
		case *types.Array:
			return c.Int(u.Len())
		}
	case *ArrV:
		return c.Int(under(s.T).(*types.Array).Len())
	}
	panic(evalErr{fmt.Sprintf("len of %T", v.V)})
}

var _ = constant.MakeInt64

// advances: the block takes the next entry of the range iterator r.
func advances(b *ssa.BasicBlock, r ssa.Value) bool {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.Iter == r {
			return true
		}
	}
	return false
}
