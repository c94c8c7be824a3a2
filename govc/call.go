package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// InvokeV is an interface method value.
type InvokeV struct {
	Recv *IfaceV
	M    *types.Func
	IT   types.Type
}

type callInfo struct {
	res    ssa.Value // register for the result, may be nil
	pos    ssa.Instruction
	name   string
	names  []string
	fn     Value
	args   []Value // receiver first
	argT   []types.Type
	resT   []types.Type
	mode   string
	depth  int
	nopost bool
	split  bool // the receiver is none of the module's types
	sub    map[string]types.Type
	call   *ssa.CallCommon
}

var pathRe = regexp.MustCompile(`([\w.\-]+/)+`)

func shortName(n string) string { return pathRe.ReplaceAllString(n, "") }

func (x *Exec) prepCall(st *State, f *Frame, call *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fn Value
	if call.IsInvoke() {
		rv := x.get(st, f, call.Value)
		it := x.typ(f, call.Value.Type())
		var iv *IfaceV
		switch r := rv.(type) {
		case *IfaceV:
			iv = r
		default:
			iv = x.mkIface(rv, it)
		}
		if iv.Tag.Op == "int" && iv.Tag.I == 0 {
			x.doPanic(st, "nilptr", nil, nil)
			st.dead = st.dead || len(st.frames) == 0
			return nil, nil
		}
		fn = &InvokeV{iv, call.Method, it}
	} else if b, ok := call.Value.(*ssa.Builtin); ok {
		fn = b
	} else {
		fn = x.get(st, f, call.Value)
	}
	for _, a := range call.Args {
		args = append(args, x.get(st, f, a))
	}
	return fn, args
}

// methodOf finds the implementation of a method of a concrete type.
func (x *Exec) methodOf(st *State, t types.Type, v Value, name string, pkg *types.Package) (Value, []Value, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	m, ok := obj.(*types.Func)
	if !ok {
		return nil, nil, false
	}
	// walk embedded fields
	cur := v
	ct := types.Unalias(t)
	for _, i := range idx[:len(idx)-1] {
		s := structOf(derefType(ct))
		if s == nil {
			return nil, nil, false
		}
		fl := s.Field(i)
		if _, isPtr := under(ct).(*types.Pointer); isPtr {
			p := x.fieldPtr(cur, derefType(ct), i)
			switch under(fl.Type()).(type) {
			case *types.Pointer, *types.Interface:
				cur = st.load(p, fl.Type())
				ct = fl.Type()
			default:
				cur = p
				ct = types.NewPointer(fl.Type())
			}
		} else if sv, ok := cur.(*StructV); ok {
			cur = sv.F[i]
			ct = fl.Type()
		} else {
			return nil, nil, false
		}
	}
	if isIface(ct) {
		iv, ok := cur.(*IfaceV)
		if !ok {
			return nil, nil, false
		}
		return &InvokeV{iv, m, ct}, nil, true
	}
	om := m.Origin()
	fn := x.P.prog.FuncValue(om)
	if fn == nil {
		return nil, nil, false
	}
	recv := om.Type().(*types.Signature).Recv().Type()
	_, wantPtr := under(recv).(*types.Pointer)
	_, havePtr := under(ct).(*types.Pointer)
	if wantPtr && !havePtr {
		// addressable copy
		ref := st.alloc(ct)
		st.store(ref, ct, cur)
		cur = ref
	} else if !wantPtr && havePtr {
		cur = st.load(cur, derefType(ct))
	}
	fv := &FuncV{Fn: fn, T: om.Type()}
	if n, ok := types.Unalias(derefType(ct)).(*types.Named); ok && n.TypeArgs().Len() > 0 {
		fv.Sub = map[string]types.Type{}
		rtp := om.Type().(*types.Signature).RecvTypeParams()
		for i := 0; i < rtp.Len() && i < n.TypeArgs().Len(); i++ {
			fv.Sub[rtp.At(i).Obj().Name()] = n.TypeArgs().At(i)
		}
	}
	return fv, []Value{cur}, true
}

func resultTypes(sig *types.Signature, sub map[string]types.Type) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, substType(sig.Results().At(i).Type(), sub))
	}
	return out
}

// callValue performs a call. mode: call, defer, panicdefer, pure.
func (x *Exec) callValue(st *State, f *Frame, res ssa.Value, pos ssa.Instruction, call *ssa.CallCommon, fn Value, args []Value, mode string) {
	if b, ok := fn.(*ssa.Builtin); ok {
		ci := &callInfo{res: res, pos: pos, name: "builtin." + b.Name(), args: args, mode: mode, depth: len(st.frames), call: call, sub: f.sub}
		for _, a := range call.Args {
			ci.argT = append(ci.argT, x.typ(f, a.Type()))
		}
		sig := call.Signature()
		ci.resT = resultTypes(sig, f.sub)
		x.builtin(st, f, b.Name(), ci)
		return
	}
	ci := &callInfo{res: res, pos: pos, fn: fn, args: args, mode: mode, depth: len(st.frames), call: call, sub: f.sub}
	if call != nil {
		sig := call.Signature()
		ci.resT = resultTypes(sig, f.sub)
		if call.IsInvoke() {
			ci.argT = []types.Type{x.typ(f, call.Value.Type())}
		}
		for _, a := range call.Args {
			ci.argT = append(ci.argT, x.typ(f, a.Type()))
		}
		if !call.IsInvoke() {
			if n, ok := types.Unalias(call.Value.Type()).(*types.Named); ok {
				ci.names = append(ci.names, typeName(n))
			}
		}
	}
	x.dispatch(st, ci)
}

// dispatch resolves the callee and runs it.
func (x *Exec) dispatch(st *State, ci *callInfo) {
	u := x.u
	if f, ok := ci.fn.(*FuncV); ok && f.Fn != nil && f.Fn.Synthetic == "package initializer" {
		x.done(st, ci) // packages are initialised one by one, in dependency order
		return
	}
	switch fn := ci.fn.(type) {
	case *InvokeV:
		nm := "(" + typeName(fn.IT) + ")." + fn.M.Name()
		if isTParam(fn.IT) {
			// name by the interface that declares the method
			if r := fn.M.Type().(*types.Signature).Recv(); r != nil {
				nm = "(" + typeName(r.Type()) + ")." + fn.M.Name()
			}
		}
		// embedded interface: also under the declaring interface's name
		if r := fn.M.Type().(*types.Signature).Recv(); r != nil {
			ci.names = append(ci.names, "("+typeName(r.Type())+")."+fn.M.Name())
		}
		ci.name = nm
		ci.args = append([]Value{fn.Recv}, ci.args...)
		if len(ci.argT) < len(ci.args) {
			ci.argT = append([]types.Type{fn.IT}, ci.argT...)
		}
		ci.names = append(ci.names, nm, shortName(nm))
		if x.dynType(fn.Recv) == nil && !ci.split && u.Flags["split"] != "" && matchAny(u.Flags["split"], nm) {
			x.splitRecv(st, ci, fn)
			return
		}
		if m := x.model(ci); m != nil && !x.moduleDyn(fn.Recv) {
			x.runModel(st, ci, m)
			return
		}
		if dt := x.dynType(fn.Recv); dt != nil && !isTParam(dt) {
			ci.names = append(ci.names, "("+typeName(dt)+")."+fn.M.Name())
			v := x.unIface(st, fn.Recv, dt)
			tgt, pre, ok := x.methodOf(st, dt, v, fn.M.Name(), fn.M.Pkg())
			if ok {
				if iv, is := tgt.(*InvokeV); is {
					n := *ci
					n.fn = iv
					n.args = ci.args[1:]
					n.argT = ci.argT[1:]
					x.dispatch(st, &n)
					return
				}
				n := *ci
				n.fn = tgt
				n.args = append(append([]Value{}, pre...), ci.args[1:]...)
				ft := tgt.(*FuncV)
				var rt types.Type = dt
				if r := ft.Fn.Signature.Recv(); r != nil {
					rt = substType(r.Type(), ft.Sub)
				}
				n.argT = append([]types.Type{rt}, ci.argT[1:]...)
				x.dispatch(st, &n)
				return
			}
		}
		x.preEvent(st, ci)
		if st.dead {
			return
		}
		for _, p := range u.PureUF {
			for _, n := range ci.names {
				if matchPat(p, n) {
					x.pureUF(st, ci, ci.name)
					return
				}
			}
		}
		x.external(st, ci)
	case *FuncV:
		if fn.Model != "" {
			ci.name = "model." + fn.Model
			ci.names = append(ci.names, ci.name)
			x.preEvent(st, ci)
			if st.dead {
				return
			}
			x.closureModel(st, ci, fn)
			return
		}
		full := funcName(fn.Fn)
		if ci.name == "" {
			ci.name = full
		}
		ci.names = append(ci.names, full, shortName(full))
		if m := x.model(ci); m != nil {
			x.runModel(st, ci, m)
			return
		}
		x.preEvent(st, ci)
		if st.dead {
			return
		}
		body := bodyOf(fn.Fn)
		directive := ""
		for _, p := range u.Havoc {
			for _, n := range ci.names {
				if matchPat(p, n) {
					directive = "havoc"
				}
			}
		}
		for _, p := range u.PureUF {
			if matchPat(p, full) || matchPat(p, shortName(full)) {
				directive = "pure"
			}
		}
		if directive == "pure" {
			x.pureUF(st, ci, full)
			return
		}
		if directive == "" && body.Blocks != nil && (inModule(fnPkg(body)) || fnPkg(body) == nil || x.inlineExternal(full)) {
			n := 0
			for _, fr := range st.frames {
				if fr.fn == body {
					n++
				}
			}
			if n < 4 && len(st.frames) < 60 {
				x.inline(st, ci, fn, body)
				return
			}
			x.problem("recursion of %s cut", full)
		}
		x.external(st, ci)
	case *Term:
		// unknown function value
		if fn.Op == "int" && fn.I == 0 {
			x.doPanic(st, "nilptr", ci.pos, nil)
			return
		}
		if fn.Op == "ite" {
			x.branch(st, fn.Args[0], func(s *State) {
				n := *ci
				n.fn = x.asFunc(fn.Args[1])
				x.dispatch(s, &n)
			}, func(s *State) {
				n := *ci
				n.fn = x.asFunc(fn.Args[2])
				x.dispatch(s, &n)
			})
			return
		}
		st.assume(x.c.Not(x.c.Eq(fn, x.c.Int(0))))
		if st.dead {
			return
		}
		if ci.name == "" {
			ci.name = "func"
			if len(ci.names) > 0 {
				ci.name = ci.names[0]
			}
		}
		ci.names = append(ci.names, ci.name)
		x.preEvent(st, ci)
		if st.dead {
			return
		}
		x.external(st, ci)
	default:
		panic(fmt.Sprintf("call of %T", ci.fn))
	}
}

func (x *Exec) moduleDyn(iv *IfaceV) bool {
	dt := x.dynType(iv)
	if dt == nil || isTParam(dt) {
		return false
	}
	n, ok := types.Unalias(derefType(dt)).(*types.Named)
	return ok && inModule(n.Obj().Pkg())
}

func (x *Exec) evArgs(ci *callInfo) []TV {
	var out []TV
	for i, a := range ci.args {
		if i < len(ci.argT) {
			out = append(out, TV{a, ci.argT[i]})
		}
	}
	return out
}

func (x *Exec) preEvent(st *State, ci *callInfo) {
	u := x.u
	if x.pure > 0 || ci.mode == "pure" {
		return
	}
	if x.dry == 0 {
		st.step("call %s", shortName(ci.name))
	}
	if !u.wants("call", ci.names) {
		return
	}
	ev := &Event{Kind: "call", Name: ci.name, Names: ci.names, Fn: ci.fn, Args: x.evArgs(ci), in: ci.pos}
	for _, cl := range u.Clauses {
		if u.evMatch(cl, ev, st) {
			u.runClause(st, cl, ev)
			if st.dead {
				return
			}
		}
	}
}

func (x *Exec) postEvent(st *State, ci *callInfo, res []Value) {
	u := x.u
	if x.pure > 0 || ci.mode == "pure" || !u.wants("after", ci.names) {
		return
	}
	ev := &Event{Kind: "after", Name: ci.name, Names: ci.names, Fn: ci.fn, Args: x.evArgs(ci), in: ci.pos}
	for i, r := range res {
		if i < len(ci.resT) {
			ev.Res = append(ev.Res, TV{r, ci.resT[i]})
		}
	}
	for _, cl := range u.Clauses {
		if u.evMatch(cl, ev, st) {
			u.runClause(st, cl, ev)
			if st.dead {
				return
			}
		}
	}
}

// done completes a call in st with results.
func (x *Exec) done(st *State, ci *callInfo, res ...Value) {
	if st.dead {
		return
	}
	x.postEvent(st, ci, res)
	if st.dead {
		return
	}
	f := st.top()
	if ci.res != nil {
		x.setResult(f, ci.res, res)
	}
	if ci.mode == "pure" {
		f.after(st, res)
		st.dead = true
	}
}

// fork completes a call in a cloned state.
func (x *Exec) doneFork(st *State, ci *callInfo, res ...Value) {
	if st.dead || !x.feasible(st) {
		return
	}
	x.done(st, ci, res...)
	if st.dead {
		return
	}
	if ci.mode == "panicdefer" {
		x.unwind(st, st.top())
	}
	x.push(st)
}

// inline pushes a frame for a known function.
func (x *Exec) inline(st *State, ci *callInfo, fn *FuncV, body *ssa.Function) {
	x.inlined[funcName(body)] = true
	fr := x.newFrame(st, fn, body, ci.args)
	fr.kind = map[string]string{"call": "call", "defer": "defer", "panicdefer": "panicdefer", "pure": "call"}[ci.mode]
	if v, ok := ci.res.(ssa.Instruction); ok && ci.res != nil {
		fr.call = v
	}
	c := *ci
	if ci.mode == "pure" {
		holder := st.top()
		fr.after = func(s *State, res []Value) []*State {
			holder.after(s, res)
			s.dead = true
			return nil
		}
	} else if x.u.wants("after", ci.names) {
		fr.after = func(s *State, res []Value) []*State {
			x.postEvent(s, &c, res)
			return nil
		}
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
}

func (x *Exec) newFrame(st *State, fn *FuncV, body *ssa.Function, args []Value) *Frame {
	fr := &Frame{fn: body, sub: fn.Sub, regs: map[ssa.Value]Value{}, block: body.Blocks[0], args: args}
	if fn.Has {
		args = append([]Value{fn.Recv}, args...)
	}
	if len(args) != len(body.Params) {
		panic(fmt.Sprintf("call of %s with %d args, want %d", body, len(args), len(body.Params)))
	}
	for i, p := range body.Params {
		fr.regs[p] = args[i]
	}
	for i, v := range body.FreeVars {
		fr.regs[v] = fn.Binds[i]
	}
	return fr
}

// external havocs the results of an unknown call.
func (x *Exec) external(st *State, ci *callInfo) {
	x.unknownCalls[shortName(ci.name)]++
	for _, a := range ci.args {
		st.escape(a)
	}
	if fv, ok := ci.fn.(*FuncV); ok {
		st.escape(fv)
	}
	if x.pure == 0 && x.dry == 0 {
		for i, a := range ci.args {
			if i < len(ci.argT) {
				x.escapeCallbacks(st, a, ci.argT[i], 0)
			}
		}
	}
	x.havocCells(st)
	x.havocOptionArg(st, ci)
	if fl := x.u.Flags["panics"]; fl != "" && x.pure == 0 {
		for _, n := range ci.names {
			if matchAny(fl, n) {
				bad := st.clone()
				bad.step("it panics")
				x.doPanic(bad, "external", ci.pos, nil)
				x.push(bad)
				break
			}
		}
	}
	var res []Value
	for i, t := range ci.resT {
		res = append(res, x.fresh(st, t, sanitize(lastPart(ci.name))+fmt.Sprint(i)))
	}
	if st.dead {
		return
	}
	x.done(st, ci, res...)
}

// havocOptionArg: an unknown function of type func(*T) without results is an option, it may
// write every field of its argument.
func (x *Exec) havocOptionArg(st *State, ci *callInfo) {
	if ci.fn == nil || len(ci.resT) != 0 || len(ci.args) != 1 || len(ci.argT) != 1 {
		return
	}
	p, ok := under(ci.argT[0]).(*types.Pointer)
	if !ok || structOf(p.Elem()) == nil {
		return
	}
	ref, ok := ci.args[0].(*Term)
	if !ok {
		return
	}
	for _, l := range leaves(p.Elem()) {
		st.storeLeaf(p.Elem(), false, ref, nil, l, x.freshLeaf(st, l, "opt"+l.Path))
	}
	x.wellFormed(st, st.load(ref, p.Elem()))
}

func lastPart(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// pureUF models a call as a function of its arguments.
func (x *Exec) pureUF(st *State, ci *callInfo, name string) {
	var ts []*Term
	for i, a := range ci.args {
		if i < len(ci.argT) {
			ts = append(ts, x.pureArg(st, a, ci.argT[i])...)
		}
	}
	var res []Value
	for i, t := range ci.resT {
		n := 0
		v := x.build(t, func(l Leaf) *Term {
			n++
			k := x.c.App(fmt.Sprintf("fn$%s#%d.%d", name, i, n), l.Sort, ts...)
			x.leafFacts(st, l, k)
			return k
		})
		x.wellFormed(st, v)
		res = append(res, v)
	}
	x.done(st, ci, res...)
}

func (x *Exec) pureArg(st *State, a Value, t types.Type) []*Term {
	if s, ok := a.(*SliceV); ok && isByteSlice(t) {
		return []*Term{st.bytesOf(s)}
	}
	return x.flatten(a, t)
}

// pureCall runs a function on a copy of the state and merges the outcomes.
func (x *Exec) pureCall(st *State, fn Value, args []Value, sig *types.Signature) []Value {
	return x.pureCallLoad(st, fn, args, sig, nil, nil)
}

// pureCallLoad is pureCall, followed by a look at the state it leaves.
func (x *Exec) pureCallLoad(st *State, fn Value, args []Value, sig *types.Signature, load func(*State) []Value, loadT []types.Type) []Value {
	s := st.clone()
	first := x.next
	type out struct {
		br   []*Term
		pc   []*Term
		res  []Value
		objs map[int64]*Obj
	}
	var outs []out
	nbr, npc := len(s.br), len(s.pc)
	var sub map[string]types.Type
	if f, ok := fn.(*FuncV); ok {
		sub = f.Sub
	}
	var anyFn *ssa.Function
	if len(st.frames) > 0 {
		anyFn = st.frames[0].fn
	} else {
		anyFn = x.u.fn
	}
	if anyFn == nil {
		for _, f := range x.P.funcs {
			if f.Blocks != nil {
				anyFn = f
				break
			}
		}
	}
	holder := &Frame{kind: "pure", fn: anyFn, regs: map[ssa.Value]Value{}, block: anyFn.Blocks[0], mark: &rootInfo{kind: "pure"}}
	holder.after = func(s *State, res []Value) []*State {
		if load != nil {
			res = load(s)
		}
		outs = append(outs, out{s.br[nbr:], s.pc[npc:], res, s.objs})
		return nil
	}
	s.frames = []*Frame{holder}
	ci := &callInfo{fn: fn, args: args, mode: "pure", resT: resultTypes(sig, sub), sub: sub}
	switch f := fn.(type) {
	case *InvokeV:
		ci.argT = append(ci.argT, f.IT)
	case *FuncV:
		if f.Fn != nil {
			if r := f.Fn.Signature.Recv(); r != nil && len(args) == sig.Params().Len()+1 {
				ci.argT = append(ci.argT, substType(r.Type(), sub))
			}
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ci.argT = append(ci.argT, substType(sig.Params().At(i).Type(), sub))
	}
	x.pure++
	savedRec := x.rec
	x.rec = nil
	saved := x.work
	x.work = nil
	q := x.quiet
	x.quiet = false
	x.dispatch(s, ci)
	x.push(s)
	for len(x.work) > 0 {
		w := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runState(w)
	}
	x.work = saved
	x.rec = savedRec
	x.pure--
	x.quiet = q
	if len(outs) == 0 {
		panic(evalErr{"pure call has no outcome"})
	}
	rts := ci.resT
	if load != nil {
		rts = loadT
	}
	res := outs[len(outs)-1].res
	c := x.c
	for _, o := range outs {
		// objects made by the call stay visible
		for id, ob := range o.objs {
			if _, ok := st.objs[id]; !ok && id > first {
				st.objs[id] = ob
			}
		}
	}
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		k := c.And(o.br...)
		inBr := map[*Term]bool{}
		for _, b := range o.br {
			inBr[b] = true
			if b.Op == "and" {
				for _, a := range b.Args {
					inBr[a] = true
				}
			}
		}
		if !q {
			for _, p := range o.pc {
				if !inBr[p] {
					st.assume(c.Implies(k, p))
				}
			}
		}
		if i < len(outs)-1 {
			var m []Value
			for j := range rts {
				m = append(m, x.iteValue(k, o.res[j], res[j], rts[j]))
			}
			res = m
		}
	}
	return res
}

// ---------------- callbacks and threads ----------------

// escapeCallbacks explores closures (and module objects behind module
// interfaces) that unknown code may call back.
func (x *Exec) escapeCallbacks(st *State, v Value, t types.Type, depth int) {
	if depth > 3 {
		return
	}
	switch v := v.(type) {
	case *FuncV:
		if v.Fn != nil && v.Model == "" && bodyOf(v.Fn).Blocks != nil && inModule(fnPkg(v.Fn)) {
			name := "func"
			if n, ok := types.Unalias(t).(*types.Named); ok {
				name = typeName(n)
			}
			x.callback(st, v, nil, name)
		}
	case *IfaceV:
		n, ok := types.Unalias(t).(*types.Named)
		if ok && inModule(n.Obj().Pkg()) && x.callbackIface(typeName(n)) && x.moduleDyn(v) {
			dt := x.dynType(v)
			it := under(n).(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				fn, pre, ok := x.methodOf(st, dt, x.unIface(st, v, dt), m.Name(), m.Pkg())
				if fv, is := fn.(*FuncV); ok && is {
					x.callback(st, fv, pre, "("+typeName(n)+")."+m.Name())
				}
			}
		}
	case *SliceV:
		if sl, ok := under(t).(*types.Slice); ok && v.Len != nil && v.Len.Op == "int" && v.Len.I <= 4 {
			if _, ok := under(sl.Elem()).(*types.Signature); ok {
				for i := int64(0); i < v.Len.I; i++ {
					x.escapeCallbacks(st, st.load(&PtrV{Base: v.Ref, Root: sl.Elem(), Elems: true, Idx: x.c.Add(v.Off, x.c.Int(i))}, sl.Elem()), sl.Elem(), depth+1)
				}
			}
		}
	case *StructV:
		s := structOf(v.T)
		for i, f := range v.F {
			x.escapeCallbacks(st, f, s.Field(i).Type(), depth+1)
		}
	}
}

func (x *Exec) callbackIface(n string) bool {
	switch n {
	case "psrpc.ClientMultiRPCHandler", "psrpc.StreamHandler":
		return true
	}
	return false
}

// callback explores a function that unknown code may run at any later time.
func (x *Exec) callback(st *State, fv *FuncV, pre []Value, name string) {
	if x.u.Flags["nocallbacks"] != "" && matchAny(x.u.Flags["nocallbacks"], name) {
		return
	}
	key := fmt.Sprintf("cb %s %s", name, funcName(fv.Fn))
	for _, f := range st.frames {
		if f.mark != nil && f.mark.kind == "callback" && f.mark.name == name && f.fn == bodyOf(fv.Fn) {
			return // already inside this very callback
		}
	}
	if st.depth > 4 {
		return
	}
	x.spawned[key]++
	if x.spawned[key] > 40 {
		x.u.specError("explore", "too many explorations of "+key)
		return
	}
	s := st.clone()
	s.step("--- callback %s (%s)", name, shortName(funcName(fv.Fn)))
	s.depth++
	s.escape(fv)
	for _, p := range pre {
		s.escape(p)
	}
	x.root(s, fv, pre, "callback", name, nil)
}

func matchAny(list, n string) bool {
	for _, p := range strings.Fields(list) {
		if p == "*" || matchPat(p, n) {
			return true
		}
	}
	return false
}

// root runs fn in s as a callback or thread, with fresh arguments where args is nil.
func (x *Exec) root(s *State, fv *FuncV, pre []Value, kind, name string, args []Value) {
	body := bodyOf(fv.Fn)
	x.havocLaterStores(s)
	x.havocCellsStart(s, fv)
	s.locks = nil
	s.frames = nil
	s.panic_ = nil
	all := append([]Value{}, pre...)
	var tvs []TV
	off := len(pre)
	if fv.Has {
		off++
	}
	if args != nil {
		all = args
		for i, a := range all {
			tvs = append(tvs, TV{a, substType(body.Params[i].Type(), fv.Sub)})
		}
	} else {
		for i, p := range body.Params {
			if i < off {
				continue
			}
			t := substType(p.Type(), fv.Sub)
			v := x.fresh(s, t, "cb_"+p.Name())
			all = append(all, v)
			tvs = append(tvs, TV{v, t})
		}
	}
	fr := x.newFrame(s, fv, body, all)
	fr.kind = "root"
	mark := &rootInfo{kind: kind, name: name}
	fr.mark = mark
	fr.after = func(st *State, res []Value) []*State {
		var rts []TV
		sig := body.Signature
		for i, r := range res {
			rts = append(rts, TV{r, substType(sig.Results().At(i).Type(), fv.Sub)})
		}
		if x.u.active() {
			x.u.reached[kind+" "+name] = true
		}
		x.u.event(st, &Event{Kind: "exit", Name: kind + " " + name, Names: []string{kind, name}, Args: tvs, Res: rts, Fn: fv})
		x.u.checkLocksAtExit(st)
		if kind == "callback" && (x.u.Flags["explore"] != "" || x.u.Flags["returned"] != "") && x.u.active() && !st.dead && x.feasible(st) {
			for _, r := range rts {
				st.frames = []*Frame{fr}
				x.escapeCallbacks(st, r.V, r.T, 0)
			}
			st.frames = nil
		}
		return nil
	}
	s.frames = []*Frame{fr}
	x.u.event(s, &Event{Kind: "enter", Name: kind + " " + name, Names: []string{kind, name}, Args: tvs, Fn: fv})
	if s.dead {
		return
	}
	x.runAll([]*State{s})
}

func (u *Unit) checkLocksAtExit(st *State) {
	if u.checks("locks") {
		for _, l := range st.locks {
			u.obligation(st, "released", "lock "+l.key+" is still held at exit", u.x.c.Bool(false), nil)
		}
		if len(st.locks) == 0 {
			u.obligation(st, "released", "", u.x.c.Bool(true), nil)
		}
	}
}

// spawn explores the body of a go statement.
func (x *Exec) spawn(st *State, f *Frame, in *ssa.Go, call *ssa.CallCommon, fn Value, args []Value) {
	ci := &callInfo{pos: in, fn: fn, args: args, call: call, sub: f.sub}
	if call.IsInvoke() {
		ci.argT = []types.Type{x.typ(f, call.Value.Type())}
	}
	for _, a := range call.Args {
		ci.argT = append(ci.argT, x.typ(f, a.Type()))
	}
	name := "func"
	var target *FuncV
	switch v := fn.(type) {
	case *FuncV:
		target = v
		if v.Fn != nil {
			name = funcName(v.Fn)
		}
	case *InvokeV:
		name = "(" + typeName(v.IT) + ")." + v.M.Name()
		if dt := x.dynType(v.Recv); dt != nil && !isTParam(dt) {
			if tgt, pre, ok := x.methodOf(st, dt, x.unIface(st, v.Recv, dt), v.M.Name(), v.M.Pkg()); ok {
				if t, is := tgt.(*FuncV); is {
					target = t
					args = append(append([]Value{}, pre...), args...)
				}
			}
		}
	}
	st.escape(fn)
	for _, a := range args {
		st.escape(a)
	}
	x.u.event(st, &Event{Kind: "go", Name: name, Names: []string{shortName(name)}, Fn: fn, Args: x.evArgs(ci), in: in})
	if st.dead || x.dry > 0 || x.pure > 0 {
		return
	}
	if target == nil || target.Fn == nil || bodyOf(target.Fn).Blocks == nil || !inModule(fnPkg(target.Fn)) {
		x.problem("go statement of unknown function %s", name)
		return
	}
	if matchAny(x.u.Flags["nothreads"], name) || matchAny(x.u.Flags["nothreads"], shortName(name)) {
		return
	}
	if st.depth > 4 {
		x.problem("thread nesting cut at %s", name)
		return
	}
	key := "go " + name
	x.spawned[key]++
	if x.spawned[key] > 40 {
		x.u.specError("explore", "too many explorations of "+key)
		return
	}
	s := st.clone()
	s.depth++
	s.step("--- goroutine %s", shortName(name))
	if args == nil {
		args = []Value{}
	}
	x.root(s, target, nil, "thread", shortName(name), args)
}

// ---------------- captured cells ----------------

// cellWrites lists leaf paths of a captured variable that closures write ("*" = all).
func (x *Exec) cellWrites(a *ssa.Alloc) map[string]bool {
	if w, ok := x.cellMut[a]; ok {
		return w
	}
	w := map[string]bool{}
	x.cellMut[a] = w
	seen := map[ssa.Value]bool{}
	var scan func(v ssa.Value, path string, inClosure bool)
	scan = func(v ssa.Value, path string, inClosure bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					if inClosure {
						w[path] = true
					}
				} else if inClosure {
					w["*"] = true
				}
			case *ssa.FieldAddr:
				st := structOf(derefType(r.X.Type()))
				scan(r, path+"."+st.Field(r.Field).Name(), inClosure)
			case *ssa.IndexAddr:
				scan(r, path+"[]", inClosure)
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						scan(fn.FreeVars[i], path, true)
					}
				}
			case ssa.CallInstruction:
				// address passed to a call: methods on the variable (mutexes etc.)
				if inClosure {
					w["call"+path] = true
				}
			}
		}
	}
	scan(a, "", false)
	return w
}

// cellStores counts stores by the function that declares the variable.
func cellStores(a *ssa.Alloc) int {
	n := 0
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					n++
				}
			case *ssa.FieldAddr:
				scan(r)
			}
		}
	}
	scan(a)
	return n
}

func (x *Exec) havocCell(st *State, id int64, paths func(string) bool) {
	a := x.allocOf[id]
	if a == nil {
		return
	}
	t := substType(derefType(a.Type()), x.allocSub[id])
	if _, ok := under(t).(*types.Array); ok && !isTParam(t) {
		return
	}
	ref := x.c.Int(id)
	for _, l := range leaves(t) {
		if paths(l.Path) {
			k := x.freshLeaf(st, l, "cell"+l.Path)
			st.storeLeaf(t, false, ref, nil, l, k)
		}
	}
	if structOf(t) == nil {
		x.wellFormed(st, st.load(ref, t))
	}
}

// havocCells forgets variables that escaped closures may have written meanwhile.
func (x *Exec) havocCells(st *State) {
	for _, id := range st.cells {
		a := x.allocOf[id]
		if a == nil {
			continue
		}
		w := x.cellWrites(a)
		x.havocCell(st, id, func(p string) bool { return writesPath(w, p) })
	}
}

func writesPath(w map[string]bool, p string) bool {
	if w["*"] {
		return true
	}
	for q := range w {
		if strings.HasPrefix(q, "call") {
			continue
		}
		if q == p || strings.HasPrefix(p, q) {
			return true
		}
	}
	return false
}

// havocCellsStart: at the start of a callback or thread, captured variables may
// have been changed by the parent or by other closures since the capture.
func (x *Exec) havocCellsStart(st *State, fv *FuncV) {
	seen := map[int64]bool{}
	var rec func(f *FuncV)
	rec = func(f *FuncV) {
		for _, b := range f.Binds {
			switch b := b.(type) {
			case *Term:
				if b.Op == "int" && x.allocOf[b.I] != nil && !seen[b.I] {
					seen[b.I] = true
					a := x.allocOf[b.I]
					w := x.cellWrites(a)
					multi := cellStores(a) > 1 && ownerStoresLater(st, a)
					x.havocCell(st, b.I, func(p string) bool { return multi || writesPath(w, p) })
				}
			case *FuncV:
				rec(b)
			}
		}
	}
	rec(fv)
	for _, id := range st.cells {
		if !seen[id] {
			a := x.allocOf[id]
			if a == nil {
				continue
			}
			w := x.cellWrites(a)
			multi := cellStores(a) > 1 && ownerStoresLater(st, a)
			x.havocCell(st, id, func(p string) bool { return multi || writesPath(w, p) })
		}
	}
}

// noteEscapedClosure remembers cells that an escaped closure can write.
func (st *State) noteEscapedClosure(f *FuncV) {
	x := st.x
	for _, b := range f.Binds {
		t, ok := b.(*Term)
		if !ok || t.Op != "int" {
			continue
		}
		a := x.allocOf[t.I]
		if a == nil {
			continue
		}
		has := false
		for _, id := range st.cells {
			if id == t.I {
				has = true
			}
		}
		if !has {
			st.cells = append(st.cells[:len(st.cells):len(st.cells)], t.I)
		}
	}
}

// havocLaterStores: a callback or thread runs at any later time, so it may see what
// the functions on the stack have yet to store into fields of objects they hold.
func (x *Exec) havocLaterStores(st *State) {
	type loc struct {
		p Value
		t types.Type
	}
	var locs []loc
	for _, f := range st.frames {
		if f.fn == nil || f.block == nil {
			continue
		}
		for _, s := range laterStores(f) {
			var chain []*ssa.FieldAddr
			v := s.Addr
			for {
				fa, ok := v.(*ssa.FieldAddr)
				if !ok {
					break
				}
				chain = append([]*ssa.FieldAddr{fa}, chain...)
				v = fa.X
			}
			if len(chain) == 0 {
				continue
			}
			base, ok := f.regs[v]
			if !ok {
				if par, isPar := v.(*ssa.Parameter); isPar {
					base = x.get(st, f, par)
				} else if fv, isFV := v.(*ssa.FreeVar); isFV {
					base = x.get(st, f, fv)
				} else {
					continue
				}
			}
			p := base
			for _, fa := range chain {
				p = x.fieldPtr(p, x.typ(f, derefType(fa.X.Type())), fa.Field)
			}
			locs = append(locs, loc{p, x.typ(f, s.Val.Type())})
		}
	}
	for _, l := range locs {
		st.store(l.p, l.t, x.fresh(st, l.t, "later"))
	}
}

// ownerStoresLater tells whether the function that declares a captured variable may
// still assign it. One that is not on the stack has returned, unless a goroutine or a
// callback is being explored already, which it may run beside.
func ownerStoresLater(st *State, a *ssa.Alloc) bool {
	found := false
	for _, f := range st.frames {
		if f.fn != a.Parent() || f.block == nil {
			continue
		}
		found = true
		for _, s := range laterStores(f) {
			v := s.Addr
			for {
				if fa, ok := v.(*ssa.FieldAddr); ok {
					v = fa.X
				} else if ia, ok := v.(*ssa.IndexAddr); ok {
					v = ia.X
				} else {
					break
				}
			}
			if v == a {
				return true
			}
		}
	}
	return !found && st.depth > 1
}

// laterStores lists the field stores the frame may still run; one that goes through
// an allocation that has to be run again first concerns a new object.
func laterStores(f *Frame) []*ssa.Store {
	var out []*ssa.Store
	taken := map[*ssa.Store]bool{}
	var visit func(b *ssa.BasicBlock, from int, gone map[ssa.Value]bool, seen map[*ssa.BasicBlock]bool)
	visit = func(b *ssa.BasicBlock, from int, gone map[ssa.Value]bool, seen map[*ssa.BasicBlock]bool) {
		for i := from; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Alloc:
				if !gone[in] {
					g := map[ssa.Value]bool{in: true}
					for k := range gone {
						g[k] = true
					}
					gone = g
				}
			case *ssa.Store:
				if taken[in] {
					continue
				}
				v := in.Addr
				for {
					if fa, ok := v.(*ssa.FieldAddr); ok {
						v = fa.X
					} else if ia, ok := v.(*ssa.IndexAddr); ok {
						v = ia.X
					} else {
						break
					}
				}
				if !gone[v] {
					taken[in] = true
					out = append(out, in)
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				visit(n, 0, gone, seen)
			}
		}
	}
	visit(f.block, f.idx, map[ssa.Value]bool{}, map[*ssa.BasicBlock]bool{})
	return out
}

// splitRecv runs a method of the module's own types, one case per type, and the
// unknown method for any other receiver.
func (x *Exec) splitRecv(st *State, ci *callInfo, fn *InvokeV) {
	it, _ := fn.IT.Underlying().(*types.Interface)
	var cases []types.Type
	for _, id := range x.moduleTags() {
		if t := x.tagT[id]; it != nil && types.Implements(t, it) {
			cases = append(cases, t)
		}
	}
	base := *ci
	base.args = ci.args[1:]
	if len(ci.argT) == len(ci.args) {
		base.argT = ci.argT[1:]
	}
	base.names, base.name = nil, ""
	var rec func(s *State, i int)
	rec = func(s *State, i int) {
		if i == len(cases) {
			n := base
			n.split = true
			x.dispatch(s, &n)
			return
		}
		tag := x.tag(cases[i])
		x.branch(s, x.c.Eq(fn.Recv.Tag, tag), func(s *State) {
			n := base
			n.fn = &InvokeV{&IfaceV{tag, fn.Recv.Val}, fn.M, fn.IT}
			x.dispatch(s, &n)
		}, func(s *State) { rec(s, i+1) })
	}
	rec(st, 0)
}
