package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, ci *callInfo)

type ctxInfo struct {
	parent   *IfaceV
	key, val *IfaceV
}

var models map[string]modelFn

// pureExternals are functions of their arguments only.
var pureExternals = []string{
	"unicode....", "unicode/utf8....", "strings....", "strconv....",
	"reflect.ValueOf", "(reflect.Value).IsNil", "(reflect.Value).Interface", "(reflect.Value).IsValid",
	"(error).Error", "(psrpc.Error)....", "(*google.golang.org/grpc/internal/status.Status)....",
	"google.golang.org/grpc/status.FromProto", "google.golang.org/grpc/status.New", "google.golang.org/grpc/status.Newf",
	"google.golang.org/grpc/status.Code", "google.golang.org/grpc/status.Convert",
	"google.golang.org/protobuf/proto.Size", "(google.golang.org/protobuf/reflect/protoreflect....",
	"($T).ProtoReflect", "crypto/sha256.Sum256", "(*encoding/base64.Encoding).EncodeToString",
	"github.com/zeebo/xxh3....", "math....", "(time.Duration)....", "path....",
	"(github.com/twitchtv/twirp.Error)....", "(go.opentelemetry.io/otel/attribute.Key)....",
	"(google.golang.org/grpc/codes.Code)....", "hash/fnv....",
	"google.golang.org/protobuf/types/known/anypb.New",
}

func (x *Exec) model(ci *callInfo) modelFn {
	for _, n := range ci.names {
		if m, ok := models[n]; ok {
			x.modeled[n]++
			return m
		}
	}
	if m, ok := models[ci.name]; ok {
		x.modeled[ci.name]++
		return m
	}
	for _, p := range pureExternals {
		for _, n := range ci.names {
			if matchPat(p, n) {
				if fv, ok := ci.fn.(*FuncV); ok && fv.Fn != nil && inModule(fnPkg(bodyOf(fv.Fn))) {
					continue
				}
				nm := n
				x.modeled[n]++
				return func(x *Exec, st *State, ci *callInfo) { x.pureUF(st, ci, nm) }
			}
		}
	}
	return nil
}

func (x *Exec) runModel(st *State, ci *callInfo, m modelFn) {
	x.preEvent(st, ci)
	if st.dead {
		return
	}
	m(x, st, ci)
}

func (x *Exec) inlineExternal(full string) bool { return false }

// ---------------- helpers ----------------

// extType is a synthetic type standing for a concrete type of an external package.
func (x *Exec) extType(name string, isErr bool) types.Type {
	if t, ok := x.extTypes[name]; ok {
		return t
	}
	pkg := types.NewPackage("ext", "ext")
	obj := types.NewTypeName(token.NoPos, pkg, name, nil)
	n := types.NewNamed(obj, types.Typ[types.Int], nil)
	if isErr {
		recv := types.NewVar(token.NoPos, pkg, "e", n)
		sig := types.NewSignatureType(recv, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, pkg, "", types.Typ[types.String])), false)
		n.AddMethod(types.NewFunc(token.NoPos, pkg, "Error", sig))
	}
	x.extTypes[name] = n
	return n
}

func (x *Exec) extErr(name string) *IfaceV {
	if v, ok := x.extVals[name]; ok {
		return v
	}
	v := &IfaceV{x.tag(x.extType("error "+name, true)), x.c.Int(x.newRef())}
	x.extVals[name] = v
	return v
}

func (x *Exec) isSynthetic(iv *IfaceV) bool {
	t := x.dynType(iv)
	if t == nil {
		return false
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "ext"
}

// newErr is some error of an external package: not nil, not a psrpc error.
func (x *Exec) newErr(st *State, kind string) *IfaceV {
	return &IfaceV{x.tag(x.extType("error "+kind, true)), x.c.Int(x.newRef())}
}

// anyErr is an arbitrary non-nil error.
func (x *Exec) anyErr(st *State, hint string) *IfaceV {
	v := &IfaceV{x.freshTerm(hint+".tag", SInt), x.freshTerm(hint+".val", SInt)}
	st.assume(x.c.Lt(x.c.Int(0), v.Tag))
	return v
}

func (x *Exec) errString(iv *IfaceV) *Term {
	return x.c.App("fn$(error).Error#0.1", SString, iv.Tag, iv.Val)
}

// upLeaf reads a one-way state word that other threads may raise.
func (x *Exec) upLeaf(st *State, p Value, t types.Type) *Term {
	old := st.load(p, t).(*Term)
	pl := x.place(p, t)
	if isPrivate(st, pl.base) || x.pure > 0 {
		return old
	}
	if old.Op == "int" && old.I != 0 {
		return old
	}
	c := x.c
	k := x.freshTerm("state", SInt)
	st.assume(c.Le(c.Int(0), k))
	if old.Op != "int" {
		st.assume(c.Implies(c.Not(c.Eq(old, c.Int(0))), c.Not(c.Eq(k, c.Int(0)))))
	}
	st.store(p, t, k)
	return k
}

func (x *Exec) recvT(ci *callInfo) types.Type { return derefType(ci.argT[0]) }

func (x *Exec) fuseT() types.Type { return x.P.lookupExt("github.com/frostbyte73/core", "Fuse") }

func (P *Program) lookupExt(path, name string) types.Type {
	p := P.byPath[path]
	if p == nil {
		return types.Typ[types.Int]
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return types.Typ[types.Int]
	}
	return o.Type()
}

func (x *Exec) fuseBroken(st *State, p Value) *Term {
	return x.c.Not(x.c.Eq(st.load(p, x.fuseT()).(*Term), x.c.Int(0)))
}

func (x *Exec) fuseChan(p Value) *Term {
	pl := x.place(p, x.fuseT())
	t := x.c.App("fuse$"+rootName(pl.root)+pl.path, SInt, pl.base)
	x.fuseOf[t] = p
	return t
}

func (x *Exec) fuseMark(st *State, p Value) {
	st.store(p, x.fuseT(), x.c.Int(2))
}

func (x *Exec) nowTerm(st *State) *Term {
	if st.now == nil {
		st.now = x.freshTerm("now", SInt)
		st.assume(x.c.Le(x.c.Int(0), st.now))
	}
	return st.now
}

func (x *Exec) tick(st *State) *Term {
	old := x.nowTerm(st)
	n := x.freshTerm("now", SInt)
	st.assume(x.c.Le(old, n))
	st.now = n
	return n
}

func (x *Exec) ctxT() types.Type { return x.P.lookupExt("context", "Context") }

func (x *Exec) ctxDone(st *State, iv *IfaceV) *Term {
	t := x.c.App("ctx_done", SInt, iv.Val)
	x.ctxOf[t] = ctxKey{iv.Tag, iv.Val}
	return t
}

func (x *Exec) ctxHasDL(iv *IfaceV) *Term { return x.c.App("ctx_hasdl", SBool, iv.Val) }
func (x *Exec) ctxDL(iv *IfaceV) *Term    { return x.c.App("ctx_dl", SInt, iv.Val) }

func (x *Exec) newCtx(st *State, parent *IfaceV, kind string) *IfaceV {
	id := x.newRef()
	iv := &IfaceV{x.tag(x.extType("context", false)), x.c.Int(id)}
	st.ctxs[id] = &ctxInfo{parent: parent}
	c := x.c
	if parent != nil {
		// a context with a value shares its parent's channel; any other has its own
		if kind == "value" {
			st.assume(c.Eq(x.ctxDone(st, iv), x.ctxDone(st, parent)))
		} else {
			d := x.ctxDone(st, iv)
			st.assume(c.Not(c.Eq(d, c.Int(0))))
			for p := parent; p != nil; {
				st.assume(c.Not(c.Eq(d, x.ctxDone(st, p))))
				ci := st.ctxs[p.Val.I]
				if p.Val.Op != "int" || ci == nil {
					break
				}
				p = ci.parent
			}
		}
	}
	return iv
}

func (x *Exec) background() *IfaceV {
	if v, ok := x.extVals["ctx.Background"]; ok {
		return v
	}
	v := &IfaceV{x.tag(x.extType("context", false)), x.c.Int(x.newRef())}
	x.extVals["ctx.Background"] = v
	return v
}

func (x *Exec) ctxValue(st *State, iv, key *IfaceV) *IfaceV {
	c := x.c
	if iv.Val.Op == "ite" {
		a := x.ctxValue(st, &IfaceV{iv.Tag, iv.Val.Args[1]}, key)
		b := x.ctxValue(st, &IfaceV{iv.Tag, iv.Val.Args[2]}, key)
		return &IfaceV{c.Ite(iv.Val.Args[0], a.Tag, b.Tag), c.Ite(iv.Val.Args[0], a.Val, b.Val)}
	}
	if iv.Val.Op == "int" {
		if iv.Val == x.background().Val {
			return x.nilIface()
		}
		if inf, ok := st.ctxs[iv.Val.I]; ok {
			if inf.key == nil {
				return x.ctxValue(st, inf.parent, key)
			}
			e := x.ifaceEq(inf.key, key)
			if e.IsTrue() {
				return inf.val
			}
			p := x.ctxValue(st, inf.parent, key)
			if e.IsFalse() {
				return p
			}
			return &IfaceV{c.Ite(e, inf.val.Tag, p.Tag), c.Ite(e, inf.val.Val, p.Val)}
		}
	}
	r := &IfaceV{c.App("ctx_val.tag", SInt, iv.Val, key.Tag, key.Val), c.App("ctx_val.val", SInt, iv.Val, key.Tag, key.Val)}
	st.assume(c.Le(c.Int(0), r.Tag))
	x.wellFormed(st, r)
	return r
}

// instArr is the array of one leaf of a slice's backing store.
func (st *State) instArr(elem types.Type, ref *Term, l Leaf) *Term {
	x := st.x
	if ref.Op == "int" {
		if o, ok := st.objs[ref.I]; ok && o.Elems {
			if v := o.L[l.Path]; v != nil {
				return v
			}
			return x.c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
		}
	}
	return x.c.Select(st.region(regionName(elem, true, l.Path), regSort(true, l.Sort)), ref)
}

// ---------------- builtins ----------------

func (x *Exec) builtin(st *State, f *Frame, name string, ci *callInfo) {
	c := x.c
	switch name {
	case "len":
		if a, ok := ci.argT[0].Underlying().(*types.Map); ok && a != nil {
			x.u.mapAccess(st, ci.args[0].(*Term), false, ci.pos)
		}
		x.done(st, ci, x.lenOf(st, TV{ci.args[0], ci.argT[0]}))
	case "cap":
		switch s := ci.args[0].(type) {
		case *SliceV:
			x.done(st, ci, s.Cap)
		case *Term:
			x.done(st, ci, c.Select(st.region("chan#cap", arr(SInt, SInt)), s))
		default:
			x.done(st, ci, x.fresh(st, types.Typ[types.Int], "cap"))
		}
	case "append":
		x.appendModel(st, ci)
	case "copy":
		dst := ci.args[0].(*SliceV)
		var n *Term
		switch s := ci.args[1].(type) {
		case *SliceV:
			n = c.Ite(c.Le(dst.Len, s.Len), dst.Len, s.Len)
		case *Term:
			n = c.Ite(c.Le(dst.Len, c.StrLen(s)), dst.Len, c.StrLen(s))
		}
		el := under(ci.argT[0]).(*types.Slice).Elem()
		if isByte(el) {
			var src *Term
			switch s := ci.args[1].(type) {
			case *SliceV:
				src = st.bytesOf(s)
			case *Term:
				src = s
			}
			r := st.bytesRegion()
			whole := c.Select(r, dst.Ref)
			end := c.Add(dst.Off, n)
			w := c.Concat(c.Substr(whole, c.Int(0), dst.Off), c.Substr(src, c.Int(0), n), c.Substr(whole, end, c.Sub(c.StrLen(whole), end)))
			st.setMem("bytes", dst.Ref, c.Store(r, dst.Ref, w))
		} else {
			src := ci.args[1].(*SliceV)
			x.copyElems(st, el, dst.Ref, dst.Off, src.Ref, src.Off, n)
		}
		x.done(st, ci, n)
	case "delete":
		m := ci.args[0].(*Term)
		mt := ci.argT[0]
		rep := x.mapRep(mt)
		x.u.mapAccess(st, m, true, ci.pos)
		x.u.event(st, &Event{Kind: "mapdel", Name: typeName(mt), Names: []string{fullName(mt)}, Args: []TV{{m, mt}, {ci.args[1], rep.kt}}, in: ci.pos})
		if st.dead {
			return
		}
		if !(m.Op == "int" && m.I == 0) {
			st.mapDelete(rep, m, x.mapKey(rep, ci.args[1]))
		}
		x.done(st, ci)
	case "clear":
		if _, ok := under(ci.argT[0]).(*types.Map); ok {
			x.mapClear(st, ci.args[0].(*Term), ci.argT[0], ci.pos)
		} else {
			x.problem("clear of a slice")
		}
		x.done(st, ci)
	case "close":
		ch := ci.args[0].(*Term)
		ct := ci.argT[0]
		x.u.event(st, &Event{Kind: "close", Name: typeName(ct), Names: []string{shortName(typeName(ct))}, Args: []TV{{ch, ct}}, in: ci.pos})
		if st.dead {
			return
		}
		if ch.Op == "int" && ch.I == 0 {
			x.doPanic(st, "closenil", ci.pos, nil)
			return
		}
		r := st.region("chan#closed", arr(SInt, SBool))
		st.setMem("chan#closed", ch, c.Store(r, ch, c.Bool(true)))
		x.done(st, ci)
	case "recover":
		var v Value = x.nilIface()
		// only a deferred function called directly by the panicking sequence recovers
		if st.panic_ != nil && f.kind == "panicdefer" {
			v = st.panic_
			st.panic_ = nil
		}
		x.done(st, ci, v)
	case "min", "max":
		r := ci.args[0].(*Term)
		for _, a := range ci.args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = c.Ite(c.Le(t, r), t, r)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		x.done(st, ci, r)
	case "print", "println":
		x.done(st, ci)
	case "ssa:wrapnilchk":
		x.done(st, ci, ci.args[0])
	default:
		x.problem("builtin %s", name)
		var res []Value
		for _, t := range ci.resT {
			res = append(res, x.fresh(st, t, name))
		}
		x.done(st, ci, res...)
	}
}

func (x *Exec) mapClear(st *State, m *Term, mt types.Type, in ssa.Instruction) {
	c := x.c
	rep := x.mapRep(mt)
	x.u.mapAccess(st, m, true, in)
	x.u.event(st, &Event{Kind: "mapclear", Name: typeName(mt), Names: []string{fullName(mt)}, Args: []TV{{m, mt}}, in: in})
	st.setMem(rep.name+"#card", m, c.Store(st.mapCard(rep), m, c.Int(0)))
	st.setMem(rep.name+"#dom", m, c.Store(st.mapDom(rep), m, c.ConstArr(arr(rep.key, SBool), c.Bool(false))))
}

// copyElems writes src[soff..soff+n) over dst[doff..).
func (x *Exec) copyElems(st *State, el types.Type, dref, doff, sref, soff, n *Term) {
	c := x.c
	for _, l := range leaves(el) {
		src := st.instArr(el, sref, l)
		old := st.instArr(el, dref, l)
		var na *Term
		if n.Op == "int" && n.I <= 8 {
			na = old
			for i := int64(0); i < n.I; i++ {
				na = c.Store(na, c.Add(doff, c.Int(i)), c.Select(src, c.Add(soff, c.Int(i))))
			}
		} else {
			na = x.freshTerm("copy", arr(SInt, l.Sort))
			j := c.BVar("q_j", SInt)
			end := c.Add(doff, n)
			st.assume(c.Forall([]*Term{j}, c.Eq(c.Select(na, j), c.Ite(c.And(c.Le(doff, j), c.Lt(j, end)), c.Select(src, c.Add(soff, c.Sub(j, doff))), c.Select(old, j)))))
		}
		x.setArr(st, el, dref, l, na)
	}
}

func (x *Exec) setArr(st *State, el types.Type, ref *Term, l Leaf, v *Term) {
	if ref.Op == "int" {
		if o, ok := st.objs[ref.I]; ok && o.Elems {
			n := &Obj{T: o.T, Elems: true, L: make(map[string]*Term, len(o.L)+1)}
			for k, t := range o.L {
				n.L[k] = t
			}
			n.L[l.Path] = v
			st.objs[ref.I] = n
			x.noteObj(ref.I, l.Path, nil)
			return
		}
	}
	st.escTerm(v)
	name := regionName(el, true, l.Path)
	m := st.region(name, regSort(true, l.Sort))
	st.setMem(name, ref, x.c.Store(m, ref, v))
}

func (x *Exec) appendModel(st *State, ci *callInfo) {
	c := x.c
	s, ok := ci.args[0].(*SliceV)
	if !ok {
		panic("append to " + fmt.Sprintf("%T", ci.args[0]))
	}
	el := under(ci.argT[0]).(*types.Slice).Elem()
	if isByte(el) {
		var add *Term
		switch t := ci.args[1].(type) {
		case *SliceV:
			add = st.bytesOf(t)
		case *Term:
			add = t
		}
		r := st.newBytes(c.Concat(st.bytesOf(s), add))
		x.done(st, ci, r)
		return
	}
	t := ci.args[1].(*SliceV)
	if t.Len.Op == "int" && t.Len.I == 0 {
		x.done(st, ci, s)
		return
	}
	n := c.Add(s.Len, t.Len)
	inPlace := func(st *State) {
		x.copyElems(st, el, s.Ref, c.Add(s.Off, s.Len), t.Ref, t.Off, t.Len)
		x.done(st, ci, &SliceV{s.Ref, s.Off, n, s.Cap})
	}
	grow := func(st *State) {
		ref := st.allocElems(el)
		for _, l := range leaves(el) {
			src := st.instArr(el, s.Ref, l)
			var na *Term
			if s.Len.Op == "int" && s.Len.I <= 8 {
				na = c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
				for i := int64(0); i < s.Len.I; i++ {
					na = c.Store(na, c.Int(i), c.Select(src, c.Add(s.Off, c.Int(i))))
				}
			} else if s.Off.Op == "int" && s.Off.I == 0 {
				na = src
			} else {
				na = x.freshTerm("app", arr(SInt, l.Sort))
				j := c.BVar("q_j", SInt)
				st.assume(c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, s.Len)), c.Eq(c.Select(na, j), c.Select(src, c.Add(s.Off, j))))))
			}
			x.setArr(st, el, ref, l, na)
		}
		cp := x.freshTerm("cap", SInt)
		st.assume(c.Le(n, cp))
		x.copyElems(st, el, ref, s.Len, t.Ref, t.Off, t.Len)
		x.done(st, ci, &SliceV{ref, c.Int(0), n, cp})
	}
	cond := c.Le(n, s.Cap)
	if s.Ref.Op == "int" && s.Ref.I == 0 {
		cond = c.Bool(false)
	}
	if x.pure > 0 && !cond.IsTrue() {
		// contracts: value semantics
		grow(st)
		return
	}
	x.branch(st, cond, inPlace, grow)
}

// closureModel runs a trusted closure such as a cancel function.
func (x *Exec) closureModel(st *State, ci *callInfo, fv *FuncV) {
	switch fv.Model {
	case "cancel":
		iv := fv.Data[0].(*IfaceV)
		x.u.event(st, &Event{Kind: "call", Name: "context.cancel", Names: []string{"context.cancel"}, Args: []TV{{iv, x.ctxT()}}, in: ci.pos})
		st.known["done:"+ctxKey{iv.Tag, iv.Val}.key()] = true
		x.done(st, ci)
		return
	case "freshres":
		var res []Value
		for _, t := range ci.resT {
			res = append(res, x.fresh(st, t, "res"))
		}
		x.done(st, ci, res...)
		return
	}
	x.external(st, ci)
}

func noop(x *Exec, st *State, ci *callInfo) { x.done(st, ci) }

func freshRes(x *Exec, st *State, ci *callInfo) {
	var res []Value
	for i, t := range ci.resT {
		res = append(res, x.fresh(st, t, sanitize(lastPart(ci.name))+fmt.Sprint(i)))
	}
	x.done(st, ci, res...)
}

// runOnce runs a function inline in place of the current call, then after.
func (x *Exec) runNested(st *State, ci *callInfo, fn Value, after func(*State)) {
	if t, ok := fn.(*Term); ok && t.Op == "int" && t.I == 0 {
		if after != nil {
			after(st)
		}
		return
	}
	depth := len(st.frames)
	n := &callInfo{pos: ci.pos, fn: fn, mode: ci.mode, depth: depth, call: nil, sub: ci.sub}
	x.dispatch(st, n)
	if st.dead || after == nil {
		return
	}
	if len(st.frames) > depth {
		fr := st.top()
		prev := fr.after
		fr.after = func(s *State, res []Value) []*State {
			after(s)
			if prev != nil {
				return prev(s, res)
			}
			return nil
		}
		return
	}
	after(st)
}

func init() {
	lock := func(write bool) modelFn {
		return func(x *Exec, st *State, ci *callInfo) {
			x.doLock(st, ci.args[0], write, ci.pos)
			x.done(st, ci)
		}
	}
	unlock := func(write bool) modelFn {
		return func(x *Exec, st *State, ci *callInfo) {
			x.doUnlock(st, ci.args[0], write, ci.pos)
			x.done(st, ci)
		}
	}
	once := func(fuse bool) modelFn {
		return func(x *Exec, st *State, ci *callInfo) {
			c := x.c
			p := ci.args[0]
			t := x.recvT(ci)
			k := x.upLeaf(st, p, t)
			x.branch(st, c.Eq(k, c.Int(0)), func(s *State) {
				if !fuse {
					s.store(p, t, c.Int(2))
				}
				s.step("%s runs its function", shortName(ci.name))
				x.u.event(s, &Event{Kind: "once", Name: shortName(ci.name), Args: []TV{{p, ci.argT[0]}}, in: ci.pos})
				if s.dead {
					return
				}
				x.runNested(s, ci, ci.args[1], func(s *State) {
					if fuse {
						s.store(p, t, c.Int(2))
					}
				})
			}, func(s *State) {
				x.done(s, ci)
			})
		}
	}
	models = map[string]modelFn{
		"(*sync.Mutex).Lock":                       lock(true),
		"(*sync.Mutex).Unlock":                     unlock(true),
		"(*sync.RWMutex).Lock":                     lock(true),
		"(*sync.RWMutex).Unlock":                   unlock(true),
		"(*sync.RWMutex).RLock":                    lock(false),
		"(*sync.RWMutex).RUnlock":                  unlock(false),
		"(*sync.WaitGroup).Add":                    noop,
		"(*sync.WaitGroup).Done":                   noop,
		"(*sync.WaitGroup).Wait":                   noop,
		"(*sync.Once).Do":                          once(false),
		"(*github.com/frostbyte73/core.Fuse).Once": once(true),
		"(*github.com/frostbyte73/core.Fuse).IsBroken": func(x *Exec, st *State, ci *callInfo) {
			k := x.upLeaf(st, ci.args[0], x.recvT(ci))
			x.done(st, ci, x.c.Not(x.c.Eq(k, x.c.Int(0))))
		},
		"(*github.com/frostbyte73/core.Fuse).Break": func(x *Exec, st *State, ci *callInfo) {
			k := x.upLeaf(st, ci.args[0], x.recvT(ci))
			st.store(ci.args[0], x.recvT(ci), x.c.Int(2))
			if len(ci.resT) > 0 {
				x.done(st, ci, x.c.Eq(k, x.c.Int(0)))
			} else {
				x.done(st, ci)
			}
		},
		"(*github.com/frostbyte73/core.Fuse).Watch": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.fuseChan(ci.args[0]))
		},
		"(*go.uber.org/atomic.Bool).Load": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.freshTerm("atomicbool", SBool))
		},
		"(*go.uber.org/atomic.Bool).Store": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci)
		},
		"(*go.uber.org/atomic.Bool).Swap": func(x *Exec, st *State, ci *callInfo) {
			// a flag that is only ever raised: exactly one Swap(true) sees false
			p, t := ci.args[0], x.recvT(ci)
			k := x.upLeaf(st, p, t)
			x.c.Bool(true)
			nv := ci.args[1].(*Term)
			st.store(p, t, x.c.Ite(nv, x.c.Int(2), x.c.Int(0)))
			x.done(st, ci, x.c.Not(x.c.Eq(k, x.c.Int(0))))
		},
		"(*go.uber.org/atomic.Bool).CompareAndSwap": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.freshTerm("cas", SBool))
		},
		"(*sync.Pool).Get": func(x *Exec, st *State, ci *callInfo) {
			pt := x.recvT(ci)
			var nf Value
			if s := structOf(pt); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "New" {
						nf = st.load(x.fieldPtr(ci.args[0], pt, i), s.Field(i).Type())
					}
				}
			}
			if fv, ok := nf.(*FuncV); ok {
				res := x.pureCall(st, fv, nil, fv.Fn.Signature)
				if iv, ok := res[0].(*IfaceV); ok && iv.Tag.Op == "int" {
					v := x.freshTerm("pooled", SInt)
					st.assume(x.c.Lt(x.c.Int(0), v))
					x.done(st, ci, &IfaceV{iv.Tag, v})
					return
				}
			}
			x.external(st, ci)
		},
		"(*sync.Pool).Put": noop,
		"(*sync.Map).Load": freshRes,
		"(*sync.Map).Store": func(x *Exec, st *State, ci *callInfo) {
			for _, a := range ci.args {
				st.escape(a)
			}
			x.done(st, ci)
		},

		// time
		"time.Now": func(x *Exec, st *State, ci *callInfo) { x.done(st, ci, x.tick(st)) },
		"(time.Time).Add": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Add(ci.args[0].(*Term), ci.args[1].(*Term)))
		},
		"(time.Time).Sub": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Sub(ci.args[0].(*Term), ci.args[1].(*Term)))
		},
		"(time.Time).Before": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Lt(ci.args[0].(*Term), ci.args[1].(*Term)))
		},
		"(time.Time).After": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Lt(ci.args[1].(*Term), ci.args[0].(*Term)))
		},
		"(time.Time).Equal": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Eq(ci.args[0].(*Term), ci.args[1].(*Term)))
		},
		"(time.Time).Compare": func(x *Exec, st *State, ci *callInfo) {
			a, b := ci.args[0].(*Term), ci.args[1].(*Term)
			x.done(st, ci, x.c.Ite(x.c.Lt(a, b), x.c.Int(-1), x.c.Ite(x.c.Lt(b, a), x.c.Int(1), x.c.Int(0))))
		},
		"(time.Time).UnixNano": func(x *Exec, st *State, ci *callInfo) { x.done(st, ci, ci.args[0]) },
		"(time.Time).IsZero": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.App("time.IsZero", SBool, ci.args[0].(*Term)))
		},
		"time.Unix": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Add(x.c.Mul(ci.args[0].(*Term), x.c.Int(1000000000)), ci.args[1].(*Term)))
		},
		"time.Since": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Sub(x.tick(st), ci.args[0].(*Term)))
		},
		"time.Until": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.Sub(ci.args[0].(*Term), x.tick(st)))
		},
		"time.After": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.newTimerChan(st, ci.args[0].(*Term)))
		},
		"time.NewTimer": func(x *Exec, st *State, ci *callInfo) {
			c := x.c
			ref := c.Int(x.newRef())
			ch := x.newTimerChan(st, ci.args[0].(*Term))
			r := st.region("time.Timer#.C", arr(SInt, SInt))
			st.setMem("time.Timer#.C", ref, c.Store(r, ref, ch))
			x.done(st, ci, ref)
		},
		"time.AfterFunc": func(x *Exec, st *State, ci *callInfo) {
			st.escape(ci.args[1])
			if x.pure == 0 && x.dry == 0 {
				x.escapeCallbacks(st, ci.args[1], ci.argT[1], 0)
			}
			x.done(st, ci, x.c.Int(x.newRef()))
		},
		"time.Sleep":          noop,
		"(*time.Timer).Stop":  freshRes,
		"(*time.Timer).Reset": freshRes,
		"(*time.Ticker).Stop": noop,

		// contexts
		"context.Background": func(x *Exec, st *State, ci *callInfo) {
			iv := x.background()
			st.assume(x.c.Not(x.ctxHasDL(iv)))
			x.done(st, ci, iv)
		},
		"context.TODO": func(x *Exec, st *State, ci *callInfo) {
			iv := x.background()
			st.assume(x.c.Not(x.ctxHasDL(iv)))
			x.done(st, ci, iv)
		},
		"context.WithCancel": func(x *Exec, st *State, ci *callInfo) {
			p := ci.args[0].(*IfaceV)
			iv := x.newCtx(st, p, "cancel")
			st.assume(x.c.Eq(x.ctxHasDL(iv), x.ctxHasDL(p)))
			st.assume(x.c.Eq(x.ctxDL(iv), x.ctxDL(p)))
			x.done(st, ci, iv, &FuncV{Model: "cancel", Data: []Value{iv}, T: ci.resT[1]})
		},
		"context.WithTimeout": func(x *Exec, st *State, ci *callInfo) {
			x.ctxWithDL(st, ci, x.c.Add(x.tick(st), ci.args[1].(*Term)))
		},
		"context.WithDeadline": func(x *Exec, st *State, ci *callInfo) {
			x.ctxWithDL(st, ci, ci.args[1].(*Term))
		},
		"context.WithValue": func(x *Exec, st *State, ci *callInfo) {
			p := ci.args[0].(*IfaceV)
			iv := x.newCtx(st, p, "value")
			st.escape(ci.args[2])
			st.ctxs[iv.Val.I].key = ci.args[1].(*IfaceV)
			st.ctxs[iv.Val.I].val = ci.args[2].(*IfaceV)
			st.assume(x.c.Eq(x.ctxHasDL(iv), x.ctxHasDL(p)))
			st.assume(x.c.Eq(x.ctxDL(iv), x.ctxDL(p)))
			x.done(st, ci, iv)
		},
		"(context.Context).Value": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.ctxValue(st, ci.args[0].(*IfaceV), ci.args[1].(*IfaceV)))
		},
		"(context.Context).Done": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.ctxDone(st, ci.args[0].(*IfaceV)))
		},
		"(context.Context).Deadline": func(x *Exec, st *State, ci *callInfo) {
			iv := ci.args[0].(*IfaceV)
			x.done(st, ci, x.c.Ite(x.ctxHasDL(iv), x.ctxDL(iv), x.c.Int(0)), x.ctxHasDL(iv))
		},
		"(context.Context).Err": func(x *Exec, st *State, ci *callInfo) {
			iv := ci.args[0].(*IfaceV)
			c := x.c
			e := &IfaceV{c.App("ctx_err.tag", SInt, iv.Val), c.App("ctx_err.val", SInt, iv.Val)}
			can, dl := x.extErr("context.Canceled"), x.extErr("context.DeadlineExceeded")
			key := "done:" + ctxKey{iv.Tag, iv.Val}.key()
			isCan := c.App("ctx_canceled", SBool, iv.Val)
			_ = e
			if x.pure > 0 {
				d := c.Bool(st.known[key])
				if d.IsFalse() {
					d = x.freshTerm("ctxdone", SBool)
				}
				er := x.iteValue(isCan, can, dl, ci.resT[0])
				x.done(st, ci, x.iteValue(d, er, x.nilIface(), ci.resT[0]))
				return
			}
			set := func(s *State) {
				s.known[key] = true
				x.branch(s, isCan, func(s *State) { x.done(s, ci, can) }, func(s *State) { x.done(s, ci, dl) })
			}
			if st.known[key] {
				set(st)
				return
			}
			x.branch(st, x.freshTerm("ctxdone", SBool), set, func(s *State) { x.done(s, ci, x.nilIface()) })
		},

		// errors
		"errors.New": func(x *Exec, st *State, ci *callInfo) {
			e := x.newErr(st, "errors.New")
			st.assume(x.c.Eq(x.errString(e), ci.args[0].(*Term)))
			x.done(st, ci, e)
		},
		"fmt.Errorf": func(x *Exec, st *State, ci *callInfo) {
			// %w may wrap any argument: the dynamic type is not a module type
			e := x.newErr(st, "fmt.Errorf")
			st.assume(x.c.Eq(x.errString(e), x.formatted(st, ci)))
			x.done(st, ci, e)
		},
		"fmt.Sprintf": func(x *Exec, st *State, ci *callInfo) { x.done(st, ci, x.formatted(st, ci)) },
		"fmt.Sprint":  func(x *Exec, st *State, ci *callInfo) { x.done(st, ci, x.freshTerm("sprint", SString)) },
		"errors.Is": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.errorsIs(st, ci.args[0].(*IfaceV), ci.args[1].(*IfaceV)))
		},
		"errors.As":     func(x *Exec, st *State, ci *callInfo) { x.errorsAs(st, ci) },
		"errors.Unwrap": freshRes,

		// maps and slices
		"golang.org/x/exp/maps.Clear": func(x *Exec, st *State, ci *callInfo) {
			x.mapClear(st, ci.args[0].(*Term), ci.argT[0], ci.pos)
			x.done(st, ci)
		},
		"golang.org/x/exp/maps.Clone": mapClone, "maps.Clone": mapClone,
		"golang.org/x/exp/maps.Copy": mapCopy, "maps.Copy": mapCopy,
		"golang.org/x/exp/maps.Keys":   mapKeys,
		"golang.org/x/exp/maps.Values": mapValues,
		"golang.org/x/exp/slices.Grow": slicesGrow, "slices.Grow": slicesGrow,
		"golang.org/x/exp/slices.Clone": slicesClone, "slices.Clone": slicesClone,
		"golang.org/x/exp/slices.Index": slicesIndex, "slices.Index": slicesIndex,
		"golang.org/x/exp/slices.Contains": slicesContains, "slices.Contains": slicesContains,
		"golang.org/x/exp/slices.Delete": slicesDelete, "slices.Delete": slicesDelete,

		// strings
		"strings.HasPrefix": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.op("str.prefixof", SBool, ci.args[1].(*Term), ci.args[0].(*Term)))
		},
		"strings.HasSuffix": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.op("str.suffixof", SBool, ci.args[1].(*Term), ci.args[0].(*Term)))
		},
		"strings.Contains": func(x *Exec, st *State, ci *callInfo) {
			x.done(st, ci, x.c.op("str.contains", SBool, ci.args[0].(*Term), ci.args[1].(*Term)))
		},

		// gRPC status
		"google.golang.org/grpc/status.FromError": func(x *Exec, st *State, ci *callInfo) {
			c := x.c
			e := ci.args[0].(*IfaceV)
			ok := c.App("status_ok", SBool, e.Tag, e.Val)
			s := c.App("status_of", SInt, e.Tag, e.Val)
			st.assume(c.Lt(c.Int(0), s))
			st.assume(c.Implies(c.Eq(e.Tag, c.Int(0)), ok))
			x.done(st, ci, s, ok)
		},

		// protobuf
		"google.golang.org/protobuf/proto.Marshal":   pbMarshal,
		"google.golang.org/protobuf/proto.Unmarshal": pbUnmarshal,
		"(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal": func(x *Exec, st *State, ci *callInfo) {
			n := *ci
			n.args, n.argT = ci.args[1:], ci.argT[1:]
			pbUnmarshalRaw(x, st, ci, n.args)
		},
		"google.golang.org/protobuf/proto.Clone": freshRes,
	}
}

func (x *Exec) newTimerChan(st *State, d *Term) *Term {
	c := x.c
	ch := c.Int(x.newRef())
	x.timerChan[ch] = true
	st.assume(c.Eq(c.App("timerdur", SInt, ch), d))
	st.assume(c.App("istimer", SBool, ch))
	st.assume(c.Eq(c.App("timerat", SInt, ch), x.nowTerm(st)))
	return ch
}

func (x *Exec) ctxWithDL(st *State, ci *callInfo, dl *Term) {
	c := x.c
	p := ci.args[0].(*IfaceV)
	iv := x.newCtx(st, p, "deadline")
	st.assume(x.ctxHasDL(iv))
	st.assume(c.Eq(x.ctxDL(iv), c.Ite(c.And(x.ctxHasDL(p), c.Lt(x.ctxDL(p), dl)), x.ctxDL(p), dl)))
	x.done(st, ci, iv, &FuncV{Model: "cancel", Data: []Value{iv}, T: ci.resT[1]})
}

func (x *Exec) formatted(st *State, ci *callInfo) *Term {
	c := x.c
	ts := []*Term{ci.args[0].(*Term)}
	s := ci.args[1].(*SliceV)
	if !(s.Len.Op == "int" && s.Len.I <= 8) {
		return x.freshTerm("formatted", SString)
	}
	el := under(ci.argT[1]).(*types.Slice).Elem()
	for i := int64(0); i < s.Len.I; i++ {
		for _, l := range leaves(el) {
			ts = append(ts, c.Select(st.instArr(el, s.Ref, l), c.Add(s.Off, c.Int(i))))
		}
	}
	if len(ts) == 3 && ts[0].Op == "str" && ts[0].S == "%s" {
		if t := ts[1]; t.Op == "int" && x.tagT[t.I] != nil && typeName(x.tagT[t.I]) == "string" {
			return x.unboxLeaf(types.Typ[types.String], 0, SString, ts[2])
		}
	}
	return c.App(fmt.Sprintf("sprintf%d", len(ts)), SString, ts...)
}

func (x *Exec) errorsIs(st *State, e, target *IfaceV) *Term {
	c := x.c
	eq := x.ifaceEq(e, target)
	if eq.IsTrue() {
		return eq
	}
	if e.Tag.Op == "ite" || e.Val.Op == "ite" && e.Tag.Op == "int" {
		k := e.Val
		if e.Tag.Op == "ite" {
			k = e.Tag
		}
		cond := k.Args[0]
		pick := func(i int) *IfaceV {
			r := &IfaceV{e.Tag, e.Val}
			if e.Tag.Op == "ite" && e.Tag.Args[0] == cond {
				r.Tag = e.Tag.Args[i]
			}
			if e.Val.Op == "ite" && e.Val.Args[0] == cond {
				r.Val = e.Val.Args[i]
			}
			return r
		}
		return c.Ite(cond, x.errorsIs(st, pick(1), target), x.errorsIs(st, pick(2), target))
	}
	if e.Tag.Op == "int" && e.Tag.I == 0 {
		return c.Eq(target.Tag, c.Int(0))
	}
	if x.isSynthetic(e) && !strings.Contains(typeName(x.dynType(e)), "fmt.Errorf") {
		return eq
	}
	// a module error may define Is
	if dt := x.dynType(e); dt != nil && !isTParam(dt) && x.moduleDyn(e) {
		fn, pre, ok := x.methodOf(st, dt, x.unIface(st, e, dt), "Is", nil)
		un := func() *Term {
			uf, upre, ok := x.methodOf(st, dt, x.unIface(st, e, dt), "Unwrap", nil)
			if !ok {
				return c.Bool(false)
			}
			sig := uf.(*FuncV).Fn.Signature
			if sig.Results().Len() == 1 {
				if sl, ok := under(sig.Results().At(0).Type()).(*types.Slice); ok {
					rs := x.pureCall(st, uf, upre, sig)[0].(*SliceV)
					el := sl.Elem()
					if rs.Len.Op != "int" {
						return x.freshTerm("is", SBool)
					}
					r := c.Bool(false)
					for i := int64(0); i < rs.Len.I; i++ {
						ls := leaves(el)
						iv := &IfaceV{c.Select(st.instArr(el, rs.Ref, ls[0]), c.Add(rs.Off, c.Int(i))), c.Select(st.instArr(el, rs.Ref, ls[1]), c.Add(rs.Off, c.Int(i)))}
						r = c.Or(r, c.And(c.Not(c.Eq(iv.Tag, c.Int(0))), x.errorsIs(st, iv, target)))
					}
					return r
				}
				iv := x.pureCall(st, uf, upre, sig)[0].(*IfaceV)
				return c.And(c.Not(c.Eq(iv.Tag, c.Int(0))), x.errorsIs(st, iv, target))
			}
			return c.Bool(false)
		}
		if ok {
			if fv, is := fn.(*FuncV); is {
				r := x.pureCall(st, fv, append(pre, target), fv.Fn.Signature)
				return c.Or(eq, r[0].(*Term), un())
			}
		}
		return c.Or(eq, un())
	}
	r := c.App("errors_is", SBool, e.Tag, e.Val, target.Tag, target.Val)
	st.assume(c.Implies(c.Eq(e.Tag, c.Int(0)), c.Eq(r, c.Eq(target.Tag, c.Int(0)))))
	st.assume(c.Implies(eq, r))
	return r
}

func (x *Exec) errorsAs(st *State, ci *callInfo) {
	c := x.c
	e := ci.args[0].(*IfaceV)
	tgt := ci.args[1].(*IfaceV)
	dt := x.dynType(tgt)
	if dt == nil {
		x.external(st, ci)
		return
	}
	et := derefType(dt)
	ptr := x.unIface(st, tgt, dt)
	set := func(s *State, v *IfaceV) {
		var val Value = v
		if !isIface(et) {
			val = x.unIface(s, v, et)
		}
		s.store(ptr, et, val)
		x.done(s, ci, c.Bool(true))
	}
	direct := c.And(c.Not(c.Eq(e.Tag, c.Int(0))), x.hasType(e, et))
	x.branch(st, direct, func(s *State) { set(s, e) }, func(s *State) {
		if x.isSynthetic(e) && !strings.Contains(typeName(x.dynType(e)), "fmt.Errorf") || e.Tag.Op == "int" && e.Tag.I == 0 {
			x.done(s, ci, c.Bool(false))
			return
		}
		if x.moduleDyn(e) {
			// wrapped errors of module types: only through Unwrap; unknown here
			x.problem("errors.As through a module error")
		}
		k := typeKey(et)
		wrapped := c.And(c.Not(c.Eq(e.Tag, c.Int(0))), c.App("errors_as$"+k, SBool, e.Tag, e.Val))
		x.branch(s, wrapped, func(s *State) {
			v := &IfaceV{c.App("errors_as_tag$"+k, SInt, e.Tag, e.Val), c.App("errors_as_val$"+k, SInt, e.Tag, e.Val)}
			s.assume(c.Lt(c.Int(0), v.Tag))
			s.assume(x.hasType(v, et))
			set(s, v)
		}, func(s *State) { x.done(s, ci, c.Bool(false)) })
	})
}

// errorsAsIs tells what errors.As answers for a target of interface type et (see errorsAs).
func (x *Exec) errorsAsIs(e *IfaceV, et types.Type) (*Term, *IfaceV) {
	c := x.c
	direct := c.And(c.Not(c.Eq(e.Tag, c.Int(0))), x.hasType(e, et))
	k := typeKey(et)
	if x.isSynthetic(e) && !strings.Contains(typeName(x.dynType(e)), "fmt.Errorf") || e.Tag.Op == "int" && e.Tag.I == 0 {
		return direct, e
	}
	ok := c.And(c.Not(c.Eq(e.Tag, c.Int(0))), c.App("errors_as$"+k, SBool, e.Tag, e.Val))
	return c.Or(direct, ok), &IfaceV{
		c.Ite(direct, e.Tag, c.App("errors_as_tag$"+k, SInt, e.Tag, e.Val)),
		c.Ite(direct, e.Val, c.App("errors_as_val$"+k, SInt, e.Tag, e.Val))}
}

// ---------------- maps and slices ----------------

func mapClone(x *Exec, st *State, ci *callInfo) {
	c := x.c
	m := ci.args[0].(*Term)
	mt := ci.argT[0]
	rep := x.mapRep(mt)
	x.u.mapAccess(st, m, false, ci.pos)
	id := c.Int(x.newRef())
	st.mapInitEmpty(rep, id)
	st.mem[rep.name+"#dom"] = c.Store(st.mapDom(rep), id, c.Select(st.mapDom(rep), m))
	st.mem[rep.name+"#card"] = c.Store(st.mapCard(rep), id, c.Select(st.mapCard(rep), m))
	for _, l := range rep.ls {
		n := rep.name + "#val" + l.Path
		st.mem[n] = c.Store(st.mapVal(rep, l), id, c.Select(st.mapVal(rep, l), m))
	}
	x.done(st, ci, c.Ite(c.Eq(m, c.Int(0)), c.Int(0), id))
}

// mapCopy copies every entry of src into dst.
func mapCopy(x *Exec, st *State, ci *callInfo) {
	c := x.c
	dst, src := ci.args[0].(*Term), ci.args[1].(*Term)
	rep := x.mapRep(ci.argT[0])
	x.u.mapAccess(st, dst, true, ci.pos)
	x.u.mapAccess(st, src, false, ci.pos)
	x.u.event(st, &Event{Kind: "mapcopy", Name: typeName(ci.argT[0]), Names: []string{fullName(ci.argT[0])}, Args: []TV{{dst, ci.argT[0]}, {src, ci.argT[1]}}, in: ci.pos})
	k := c.BVar("q_k", rep.key)
	sd := c.Ite(c.Eq(src, c.Int(0)), c.ConstArr(arr(rep.key, SBool), c.Bool(false)), c.Select(st.mapDom(rep), src))
	dd := c.Select(st.mapDom(rep), dst)
	nd := x.freshTerm("dom", arr(rep.key, SBool))
	st.assume(c.Forall([]*Term{k}, c.Eq(c.Select(nd, k), c.Or(c.Select(dd, k), c.Select(sd, k)))))
	for _, l := range rep.ls {
		n := rep.name + "#val" + l.Path
		r := st.mapVal(rep, l)
		nv := x.freshTerm("val", arr(rep.key, l.Sort))
		st.assume(c.Forall([]*Term{k}, c.Eq(c.Select(nv, k), c.Ite(c.Select(sd, k), c.Select(c.Select(r, src), k), c.Select(c.Select(r, dst), k)))))
		st.setMem(n, dst, c.Store(r, dst, nv))
	}
	st.setMem(rep.name+"#dom", dst, c.Store(st.mapDom(rep), dst, nd))
	card := x.freshTerm("card", SInt)
	st.assume(c.Le(c.Select(st.mapCard(rep), dst), card))
	st.setMem(rep.name+"#card", dst, c.Store(st.mapCard(rep), dst, card))
	x.done(st, ci)
}

func (x *Exec) mapToSlice(st *State, ci *callInfo, keys bool) {
	c := x.c
	m := ci.args[0].(*Term)
	rep := x.mapRep(ci.argT[0])
	x.u.mapAccess(st, m, false, ci.pos)
	el := rep.et
	if keys {
		el = rep.kt
	}
	ref := c.Int(x.newRef())
	n := st.mapLen(rep, m)
	dom := c.Select(st.mapDom(rep), m)
	// order: an enumeration of the domain
	kf := x.freshTerm("keys", arr(SInt, rep.key))
	i := c.BVar("q_i", SInt)
	j := c.BVar("q_j", SInt)
	kb := c.BVar("q_k", rep.key)
	rng := c.And(c.Le(c.Int(0), i), c.Lt(i, n))
	st.assume(c.Forall([]*Term{i}, c.Implies(rng, c.Select(dom, c.Select(kf, i)))))
	inv := x.freshTerm("keypos", arr(rep.key, SInt))
	st.assume(c.Forall([]*Term{kb}, c.Implies(c.And(c.Select(dom, kb), c.Not(c.Eq(m, c.Int(0)))), c.And(c.Le(c.Int(0), c.Select(inv, kb)), c.Lt(c.Select(inv, kb), n), c.Eq(c.Select(kf, c.Select(inv, kb)), kb)))))
	st.assume(c.Forall([]*Term{i}, c.Implies(rng, c.Eq(c.Select(inv, c.Select(kf, i)), i))))
	_ = j
	for _, l := range leaves(el) {
		var a *Term
		if keys && len(leaves(el)) == 1 {
			a = kf
		} else if keys {
			a = x.freshTerm("keyleaf", arr(SInt, l.Sort))
		} else {
			a = x.freshTerm("vals", arr(SInt, l.Sort))
			v := c.Select(st.mapVal(rep, l), m)
			st.assume(c.Forall([]*Term{i}, c.Implies(rng, c.Eq(c.Select(a, i), c.Select(v, c.Select(kf, i))))))
		}
		name := regionName(el, true, l.Path)
		st.mem[name] = c.Store(st.region(name, regSort(true, l.Sort)), ref, a)
	}
	x.done(st, ci, &SliceV{ref, c.Int(0), n, n})
}

func mapKeys(x *Exec, st *State, ci *callInfo)   { x.mapToSlice(st, ci, true) }
func mapValues(x *Exec, st *State, ci *callInfo) { x.mapToSlice(st, ci, false) }

func slicesGrow(x *Exec, st *State, ci *callInfo) {
	// same contents, capacity for n more; always a fresh array here when it grows
	c := x.c
	s := ci.args[0].(*SliceV)
	el := under(ci.argT[0]).(*types.Slice).Elem()
	need := c.Add(s.Len, ci.args[1].(*Term))
	x.branch(st, c.Le(need, s.Cap), func(st *State) { x.done(st, ci, s) }, func(st *State) {
		ref := st.allocElems(el)
		x.copyElems(st, el, ref, c.Int(0), s.Ref, s.Off, s.Len)
		cp := x.freshTerm("cap", SInt)
		st.assume(c.Le(need, cp))
		x.done(st, ci, &SliceV{ref, c.Int(0), s.Len, cp})
	})
}

func slicesClone(x *Exec, st *State, ci *callInfo) {
	c := x.c
	s := ci.args[0].(*SliceV)
	el := under(ci.argT[0]).(*types.Slice).Elem()
	if isByte(el) {
		x.done(st, ci, st.newBytes(st.bytesOf(s)))
		return
	}
	ref := st.allocElems(el)
	x.copyElems(st, el, ref, c.Int(0), s.Ref, s.Off, s.Len)
	x.done(st, ci, &SliceV{c.Ite(c.Eq(s.Ref, c.Int(0)), c.Int(0), ref), c.Int(0), s.Len, s.Len})
}

func (x *Exec) indexOf(st *State, ci *callInfo) *Term {
	c := x.c
	s := ci.args[0].(*SliceV)
	el := under(ci.argT[0]).(*types.Slice).Elem()
	fl := x.flatten(ci.args[1], el)
	at := func(i *Term) *Term {
		var es []*Term
		for k, l := range leaves(el) {
			es = append(es, c.Eq(c.Select(st.instArr(el, s.Ref, l), c.Add(s.Off, i)), fl[k]))
		}
		return c.And(es...)
	}
	r := x.freshTerm("idx", SInt)
	j := c.BVar("q_j", SInt)
	st.assume(c.And(c.Le(c.Int(-1), r), c.Lt(r, s.Len)))
	st.assume(c.Implies(c.Le(c.Int(0), r), at(r)))
	bound := c.Ite(c.Eq(r, c.Int(-1)), s.Len, r)
	st.assume(c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, bound)), c.Not(at(j)))))
	return r
}

func slicesIndex(x *Exec, st *State, ci *callInfo) { x.done(st, ci, x.indexOf(st, ci)) }
func slicesContains(x *Exec, st *State, ci *callInfo) {
	x.done(st, ci, x.c.Le(x.c.Int(0), x.indexOf(st, ci)))
}

// slices.Delete(s, i, j) shifts in place.
func slicesDelete(x *Exec, st *State, ci *callInfo) {
	c := x.c
	s := ci.args[0].(*SliceV)
	i, j := ci.args[1].(*Term), ci.args[2].(*Term)
	el := under(ci.argT[0]).(*types.Slice).Elem()
	if !x.boundsCheck(st, c.And(c.Le(c.Int(0), i), c.Le(i, j), c.Le(j, s.Len)), ci.pos) {
		return
	}
	d := c.Sub(j, i)
	n := c.Sub(s.Len, d)
	for _, l := range leaves(el) {
		old := st.instArr(el, s.Ref, l)
		na := x.freshTerm("del", arr(SInt, l.Sort))
		q := c.BVar("q_j", SInt)
		rel := c.Sub(q, s.Off)
		st.assume(c.Forall([]*Term{q}, c.Implies(c.And(c.Le(s.Off, q), c.Lt(rel, n)), c.Eq(c.Select(na, q), c.Ite(c.Lt(rel, i), c.Select(old, q), c.Select(old, c.Add(q, d)))))))
		st.assume(c.Forall([]*Term{q}, c.Implies(c.Or(c.Lt(q, s.Off), c.Le(s.Len, rel)), c.Eq(c.Select(na, q), c.Select(old, q)))))
		x.setArr(st, el, s.Ref, l, na)
	}
	x.done(st, ci, &SliceV{s.Ref, s.Off, n, s.Cap})
}

// ---------------- protobuf ----------------

func pbSkip(n string) bool { return n == "state" || n == "sizeCache" || n == "unknownFields" }

// pbContent is the logical content of a message.
func (x *Exec) pbContent(st *State, iv *IfaceV) *Term {
	dt := x.dynType(iv)
	if dt != nil && !isTParam(dt) {
		if p, ok := under(dt).(*types.Pointer); ok {
			if n, ok := types.Unalias(p.Elem()).(*types.Named); ok && inModule(n.Obj().Pkg()) && structOf(n) != nil {
				return x.pbStruct(st, iv.Val, n)
			}
		}
	}
	return x.c.App("pbmsg", SInt, iv.Tag, iv.Val)
}

func (x *Exec) pbStruct(st *State, ref *Term, n *types.Named) *Term {
	c := x.c
	s := structOf(n)
	var ts []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if pbSkip(f.Name()) {
			continue
		}
		v := st.load(x.fieldPtr(ref, n, i), f.Type())
		switch fv := v.(type) {
		case *SliceV:
			if isByteSlice(f.Type()) {
				ts = append(ts, st.bytesOf(fv))
				continue
			}
		}
		ts = append(ts, x.flatten(v, f.Type())...)
	}
	return c.App("pb$"+typeName(n), SInt, ts...)
}

func (x *Exec) pbFill(st *State, ref *Term, n *types.Named, d *Term) {
	c := x.c
	s := structOf(n)
	name := "|pb$" + typeName(n) + "|"
	known := d.Op == "app" && d.Name == name
	k := 0
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if pbSkip(f.Name()) {
			continue
		}
		p := x.fieldPtr(ref, n, i)
		if isByteSlice(f.Type()) {
			var content *Term
			if known {
				content = d.Args[k]
			} else {
				content = c.App("pbf$"+typeName(n)+"."+f.Name(), SString, d)
			}
			k++
			st.store(p, f.Type(), st.newBytes(content))
			continue
		}
		v := x.build(f.Type(), func(l Leaf) *Term {
			var t *Term
			if known {
				t = d.Args[k]
			} else {
				t = c.App("pbf$"+typeName(n)+"."+f.Name()+l.Path, l.Sort, d)
				x.leafFacts(st, l, t)
			}
			k++
			return t
		})
		x.wellFormed(st, v)
		st.store(p, f.Type(), v)
	}
}

func pbMarshal(x *Exec, st *State, ci *callInfo) {
	c := x.c
	iv := ci.args[0].(*IfaceV)
	content := x.pbContent(st, iv)
	x.branch(st, x.freshTerm("marshal_ok", SBool), func(s *State) {
		enc := c.App("pbenc", SString, content)
		x.done(s, ci, s.newBytes(enc), x.nilIface())
	}, func(s *State) {
		x.done(s, ci, x.zero(ci.resT[0]), x.newErr(s, "proto.Marshal"))
	})
}

func (x *Exec) pbDec(b *Term) *Term {
	if b.Op == "app" && b.Name == "|pbenc|" || b.Op == "app" && b.Name == "pbenc" {
		return b.Args[0]
	}
	return x.c.App("pbdec", SInt, b)
}

func pbUnmarshal(x *Exec, st *State, ci *callInfo) { pbUnmarshalRaw(x, st, ci, ci.args) }

func pbUnmarshalRaw(x *Exec, st *State, ci *callInfo, args []Value) {
	c := x.c
	b := st.bytesOf(args[0].(*SliceV))
	iv := args[1].(*IfaceV)
	d := x.pbDec(b)
	ok := c.App("pbok", SBool, b, iv.Tag)
	if b.Op == "app" && strings.Contains(b.Name, "pbenc") {
		// what was marshalled from a message of this type can be read back
		ok = c.Or(ok, c.Bool(true))
	}
	x.branch(st, ok, func(s *State) {
		dt := x.dynType(iv)
		done := false
		if dt != nil && !isTParam(dt) {
			if p, isP := under(dt).(*types.Pointer); isP {
				if n, isN := types.Unalias(p.Elem()).(*types.Named); isN && inModule(n.Obj().Pkg()) && structOf(n) != nil {
					x.pbFill(s, iv.Val, n, d)
					done = true
				}
			}
		}
		if !done {
			s.assume(c.Eq(c.App("pbmsg", SInt, iv.Tag, iv.Val), d))
		}
		x.done(s, ci, x.nilIface())
	}, func(s *State) {
		x.done(s, ci, x.newErr(s, "proto.Unmarshal"))
	})
}

// ---------------- globals ----------------

func (x *Exec) globalAddr(st *State, g *ssa.Global) Value {
	k := g.String()
	if v, ok := x.globals[k]; ok {
		return v
	}
	t := derefType(g.Type())
	_ = t
	v := x.c.Int(x.newRef())
	x.globals[k] = v
	return v
}

// mutable tells whether a module global is written outside package initialisation.
func (P *Program) mutableGlobal(g *ssa.Global) bool {
	P.lockMu.Lock()
	defer P.lockMu.Unlock()
	if P.mutable == nil {
		P.mutable = map[*ssa.Global]bool{}
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						gl, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch in := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if !isInit && in.Addr == *op {
								P.mutable[gl] = true
							}
						}
					}
				}
			}
			for _, a := range f.AnonFuncs {
				scan(a)
			}
		}
		for _, f := range P.funcs {
			if f.Parent() == nil && inModule(fnPkg(f)) {
				scan(f)
			}
		}
	}
	return P.mutable[g]
}

func (x *Exec) loadGlobal(st *State, g *ssa.Global, t types.Type) Value {
	var pkg *types.Package
	if g.Pkg != nil {
		pkg = g.Pkg.Pkg
	}
	if !inModule(pkg) {
		if o, ok := g.Object().(*types.Var); ok {
			return x.externalGlobal(st, o)
		}
		return x.fresh(st, t, "global")
	}
	if g.Name() == "init$guard" {
		// the initialiser runs once
		return x.c.Bool(false)
	}
	if x.P.mutableGlobal(g) {
		return x.fresh(st, t, "global_"+g.Name())
	}
	return st.load(x.globalAddr(st, g), t)
}

func (x *Exec) externalGlobal(st *State, o *types.Var) Value {
	name := o.Name()
	if o.Pkg() != nil {
		name = qual(o.Pkg()) + "." + o.Name()
	}
	if isIface(o.Type()) && types.Implements(o.Type(), under(types.Universe.Lookup("error").Type()).(*types.Interface)) {
		return x.extErr(name)
	}
	return x.build(o.Type(), func(l Leaf) *Term {
		k := x.c.Const("G."+name+l.Path, l.Sort)
		if x.c.bnd[k] == 0 {
			x.c.bnd[k] = refBase
		}
		if l.Kind == "ref" {
			st.assume(x.c.Lt(x.c.Int(0), k))
		} else {
			x.leafFacts(st, l, k)
		}
		return k
	})
}

func (x *Exec) externalFunc(pkg, name string) *FuncV {
	for _, p := range x.P.byName[pkg] {
		if o, ok := p.Scope().Lookup(name).(*types.Func); ok {
			if fn := x.P.prog.FuncValue(o); fn != nil {
				return &FuncV{Fn: fn, T: fn.Signature}
			}
		}
	}
	return nil
}
