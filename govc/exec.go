package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec explores one verification unit.
type Exec struct {
	P            *Program
	c            *Ctx
	s            *Solver
	u            *Unit
	tags         map[string]int64
	tagT         map[int64]types.Type
	next         int64
	seq          int
	funcTab      map[int64]*FuncV
	ptrTab       map[int64]*PtrV
	base         map[string]*Term
	norefs       map[*Term]bool
	quiet        bool
	dry          int
	pure         int
	rec          []*writeRec
	work         []*State
	start        time.Time
	limit        time.Duration
	steps        int
	maxSteps     int
	states       int
	problems     map[string]bool
	loopMemo     map[string]*loopMemo
	cellMut      map[*ssa.Alloc]map[string]bool
	rootStates   int
	unknownCalls map[string]int
	inlined      map[string]bool
	modeled      map[string]int
	globals      map[string]Value
	initing      map[*ssa.Package]bool
	inited       map[*ssa.Package]bool
	initMem      map[string]*Term
	spawned      map[string]int
	abort        string
	allocOf      map[int64]*ssa.Alloc
	allocSub     map[int64]map[string]types.Type
	fuseOf       map[*Term]Value
	ctxOf        map[*Term]ctxKey
	timerChan    map[*Term]bool
	extTypes     map[string]types.Type
	extVals      map[string]*IfaceV
}

type writeRec struct {
	mem   map[string]map[*Term]bool // region -> keys (nil key = unknown)
	objs  map[int64]map[string]bool
	gh    map[string]bool
	cmp   map[*Term]bool
	fills []*fill
	esc   map[int64]bool
	at    int64 // objects above this id are local to the recorded region
	locks bool
}

func newExec(P *Program, u *Unit, stats *SolverStats) *Exec {
	c := newCtx()
	x := &Exec{P: P, c: c, u: u, tags: map[string]int64{}, tagT: map[int64]types.Type{}, next: refBase,
		funcTab: map[int64]*FuncV{}, ptrTab: map[int64]*PtrV{}, base: map[string]*Term{}, norefs: map[*Term]bool{},
		problems: map[string]bool{}, loopMemo: map[string]*loopMemo{}, cellMut: map[*ssa.Alloc]map[string]bool{},
		unknownCalls: map[string]int{}, inlined: map[string]bool{}, modeled: map[string]int{}, globals: map[string]Value{},
		initing: map[*ssa.Package]bool{}, inited: map[*ssa.Package]bool{}, spawned: map[string]int{}, allocOf: map[int64]*ssa.Alloc{}, allocSub: map[int64]map[string]types.Type{},
		fuseOf: map[*Term]Value{}, ctxOf: map[*Term]ctxKey{}, timerChan: map[*Term]bool{}, extTypes: map[string]types.Type{}, extVals: map[string]*IfaceV{},
		limit: 10 * time.Minute, maxSteps: 3000000}
	x.s = newSolver(c, stats)
	return x
}

func (x *Exec) problem(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if !x.problems[m] {
		x.problems[m] = true
		if debug {
			fmt.Fprintf(os.Stderr, "problem[%s]: %s\n", x.u.Name, m)
		}
	}
}

var debug = os.Getenv("GOVC_DEBUG") != ""

func (x *Exec) noteMem(name string, key *Term) {
	for _, r := range x.rec {
		m := r.mem[name]
		if m == nil {
			m = map[*Term]bool{}
			r.mem[name] = m
		}
		m[key] = true
	}
}

func (x *Exec) noteObj(id int64, path string, idx *Term) {
	for _, r := range x.rec {
		if id > r.at {
			continue
		}
		m := r.objs[id]
		if m == nil {
			m = map[string]bool{}
			r.objs[id] = m
		}
		m[path] = true
	}
}

func (x *Exec) noteFill(reg string, key, idx, v *Term) {
	for _, r := range x.rec {
		if len(r.fills) < 12 {
			r.fills = append(r.fills, &fill{reg: reg, key: key, idx: idx, val: v})
		}
	}
}

func (x *Exec) noteEsc(id int64) {
	for _, r := range x.rec {
		if id <= r.at {
			r.esc[id] = true
		}
	}
}

func (x *Exec) noteGhost(n string) {
	for _, r := range x.rec {
		r.gh[n] = true
	}
}

// ---------------- running ----------------

type stopUnit struct{ msg string }

func (x *Exec) push(st *State) {
	if st != nil && !st.dead {
		x.work = append(x.work, st)
	}
}

// runAll explores the given states to the end.
func (x *Exec) runAll(init []*State) {
	saved := x.work
	x.work = nil
	for _, s := range init {
		x.push(s)
	}
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.states++
		x.runState(st)
	}
	x.work = saved
}

func (x *Exec) runState(st *State) {
	for !st.dead && len(st.frames) > 0 {
		x.steps++
		if x.steps&63 == 0 {
			if time.Since(x.start) > x.limit || outOfTime() {
				panic(stopUnit{"time limit of the unit reached"})
			}
			if x.steps > x.maxSteps {
				panic(stopUnit{"step limit of the unit reached"})
			}
		}
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			panic("fell off block in " + f.fn.String())
		}
		in := f.block.Instrs[f.idx]
		f.idx++
		x.step(st, f, in)
	}
}

func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	if st.hard {
		return !x.s.groundUnsat(st.pc, nil, 100)
	}
	r := x.s.check(st.pc, nil, 400)
	if r == Unknown {
		st.hard = true
	}
	return r != Unsat
}

// patience: on a path whose feasibility was beyond the solver once, what it does not
// see at once it will not see.
func (x *Exec) patience(st *State, ms int) int {
	if st.hard {
		return ms / 4
	}
	return ms
}

// branch continues st under cond and pushes the other side.
func (x *Exec) branch(st *State, cond *Term, then, els func(*State)) {
	if cond.IsTrue() || st.holds(cond) {
		then(st)
		return
	}
	if cond.IsFalse() || st.holds(x.c.Not(cond)) {
		els(st)
		return
	}
	o := st.clone()
	o.assume(x.c.Not(cond))
	o.br = append(o.br, x.c.Not(cond))
	if x.feasible(o) {
		els(o)
		x.push(o)
	} else {
		st.assume(cond)
		then(st)
		return
	}
	st.assume(cond)
	st.br = append(st.br[:len(st.br):len(st.br)], cond)
	if x.feasible(st) {
		then(st)
	} else {
		st.dead = true
	}
}

func (x *Exec) typ(f *Frame, t types.Type) types.Type { return substType(t, f.sub) }

func (x *Exec) get(st *State, f *Frame, v ssa.Value) Value {
	if r, ok := f.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(st, x.typ(f, v.Type()), v.Value)
	case *ssa.Function:
		return &FuncV{Fn: v, Sub: x.calleeSub(f, v), T: v.Signature}
	case *ssa.Global:
		return x.globalAddr(st, v)
	case *ssa.Builtin:
		return nil
	}
	panic(fmt.Sprintf("unbound value %s (%T) in %s", v.Name(), v, f.fn))
}

// calleeSub computes the type substitution for a (possibly generic) function mentioned in frame f.
func (x *Exec) calleeSub(f *Frame, fn *ssa.Function) map[string]types.Type {
	o := fn.Origin()
	if o == nil || o == fn {
		if fn.Parent() != nil {
			return f.sub
		}
		return nil
	}
	if !needsOrigin(fn) {
		return nil
	}
	tp := o.TypeParams()
	ta := fn.TypeArgs()
	m := map[string]types.Type{}
	for i := 0; i < tp.Len() && i < len(ta); i++ {
		m[tp.At(i).Obj().Name()] = substType(ta[i], f.sub)
	}
	return m
}

func needsOrigin(fn *ssa.Function) bool {
	o := fn.Origin()
	if o == nil || o == fn {
		return false
	}
	return fn.Blocks == nil || strings.HasPrefix(fn.Synthetic, "instantiation wrapper")
}

func bodyOf(fn *ssa.Function) *ssa.Function {
	if needsOrigin(fn) {
		return fn.Origin()
	}
	return fn
}

func (x *Exec) set(f *Frame, v ssa.Value, val Value) { f.regs[v] = val }

func (x *Exec) step(st *State, f *Frame, in ssa.Instruction) {
	c := x.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.typ(f, derefType(in.Type()))
		if a, ok := under(t).(*types.Array); ok && !isTParam(t) && !isOpaque(t) {
			x.set(f, in, st.allocElems(a.Elem()))
		} else if ok && isByte(a.Elem()) {
			id := c.Int(x.newRef())
			z := c.App("zerobytes", SString, c.Int(a.Len()))
			if a.Len() <= 64 {
				z = c.Str(strings.Repeat("\x00", int(a.Len())))
			}
			st.assume(c.Eq(c.StrLen(z), c.Int(a.Len())))
			st.mem["bytes"] = c.Store(st.bytesRegion(), id, z)
			x.set(f, in, id)
		} else {
			r := st.alloc(t)
			x.allocOf[r.I] = in
			x.allocSub[r.I] = f.sub
			x.set(f, in, r)
		}
	case *ssa.Phi:
		// handled on block entry
	case *ssa.UnOp:
		x.unop(st, f, in)
	case *ssa.BinOp:
		a, b := x.get(st, f, in.X), x.get(st, f, in.Y)
		x.set(f, in, x.binop(st, in.Op, a, b, x.typ(f, in.X.Type()), x.typ(f, in.Y.Type()), x.typ(f, in.Type())))
	case *ssa.Store:
		p := x.get(st, f, in.Addr)
		t := x.typ(f, in.Val.Type())
		v := x.get(st, f, in.Val)
		if x.nilDeref(st, p) {
			return
		}
		x.doStore(st, p, t, v, in)
	case *ssa.FieldAddr:
		x.u.visit(in)
		p := x.get(st, f, in.X)
		if x.nilDeref(st, p) {
			return
		}
		fp := x.fieldPtr(p, x.typ(f, derefType(in.X.Type())), in.Field)
		if pv, ok := fp.(*PtrV); ok && structOf(pv.T) != nil {
			x.u.access(st, pv, true, in) // its methods change it
		}
		x.set(f, in, fp)
	case *ssa.Field:
		v := x.get(st, f, in.X)
		if s, ok := v.(*StructV); ok {
			x.set(f, in, s.F[in.Field])
		} else {
			x.set(f, in, x.fresh(st, x.typ(f, in.Type()), "field"))
		}
	case *ssa.IndexAddr:
		x.indexAddr(st, f, in)
	case *ssa.Index:
		x.index(st, f, in)
	case *ssa.Lookup:
		x.lookup(st, f, in)
	case *ssa.Slice:
		x.slice(st, f, in)
	case *ssa.Extract:
		tv := x.get(st, f, in.Tuple)
		x.set(f, in, tv.(*TupleV).E[in.Index])
	case *ssa.MakeInterface:
		v := x.get(st, f, in.X)
		t := x.typ(f, in.X.Type())
		if isIface(t) {
			x.set(f, in, v)
		} else {
			x.set(f, in, x.mkIface(v, t))
		}
	case *ssa.ChangeInterface:
		x.set(f, in, x.get(st, f, in.X))
	case *ssa.ChangeType:
		v := x.get(st, f, in.X)
		from, to := x.typ(f, in.X.Type()), x.typ(f, in.Type())
		x.set(f, in, x.convType(st, v, from, to))
	case *ssa.Convert:
		x.set(f, in, x.convert(st, x.get(st, f, in.X), x.typ(f, in.X.Type()), x.typ(f, in.Type())))
	case *ssa.MultiConvert:
		x.set(f, in, x.convert(st, x.get(st, f, in.X), x.typ(f, in.X.Type()), x.typ(f, in.Type())))
	case *ssa.SliceToArrayPointer:
		x.problem("slice to array pointer in %s", funcName(f.fn))
		x.set(f, in, x.fresh(st, x.typ(f, in.Type()), "s2a"))
	case *ssa.TypeAssert:
		x.typeAssert(st, f, in)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		fv := &FuncV{Fn: fn, Sub: f.sub, T: fn.Signature}
		for _, b := range in.Bindings {
			fv.Binds = append(fv.Binds, x.get(st, f, b))
		}
		if fn.Parent() == nil || strings.HasPrefix(fn.Synthetic, "bound method") {
			fv.Sub = x.calleeSub(f, fn)
		}
		x.set(f, in, fv)
		if x.u != nil && x.u.hasKind("closure") {
			n := typeName(fv.T)
			x.u.event(st, &Event{Kind: "closure", Name: n, Args: []TV{{fv, fv.T}}, Fn: fv, in: in})
		}
	case *ssa.MakeMap:
		t := x.typ(f, in.Type())
		m := x.mapRep(t)
		id := c.Int(x.newRef())
		st.mapInitEmpty(m, id)
		x.set(f, in, id)
	case *ssa.MakeChan:
		n := x.get(st, f, in.Size).(*Term)
		id := c.Int(x.newRef())
		st.mem["chan#cap"] = c.Store(st.region("chan#cap", arr(SInt, SInt)), id, n)
		st.mem["chan#closed"] = c.Store(st.region("chan#closed", arr(SInt, SBool)), id, c.Bool(false))
		x.set(f, in, id)
		x.u.event(st, &Event{Kind: "makechan", Name: typeName(x.typ(f, in.Type())), Names: []string{fullName(x.typ(f, in.Type()))}, Args: []TV{{id, x.typ(f, in.Type())}, {n, types.Typ[types.Int]}}, in: in})
	case *ssa.MakeSlice:
		x.makeSlice(st, f, in)
	case *ssa.MapUpdate:
		m := x.get(st, f, in.Map).(*Term)
		mt := x.typ(f, in.Map.Type())
		rep := x.mapRep(mt)
		k, v := x.get(st, f, in.Key), x.get(st, f, in.Value)
		if m.Op == "int" && m.I == 0 {
			x.doPanic(st, "nilmap", in, nil)
			return
		}
		x.u.mapAccess(st, m, true, in)
		x.u.event(st, &Event{Kind: "mapset", Name: typeName(mt), Names: []string{fullName(mt)}, Args: []TV{{m, mt}, {k, rep.kt}, {v, rep.et}}, in: in})
		st.mapSet(rep, m, x.mapKey(rep, k), v)
	case *ssa.Range:
		x.rangeInit(st, f, in)
	case *ssa.Next:
		x.rangeNext(st, f, in)
	case *ssa.Jump:
		x.jump(st, f, f.block.Succs[0])
	case *ssa.If:
		cond := x.get(st, f, in.Cond).(*Term)
		b := f.block
		x.noteCond(cond)
		x.branch(st, cond, func(s *State) { x.jump(s, s.top(), b.Succs[0]) }, func(s *State) { x.jump(s, s.top(), b.Succs[1]) })
	case *ssa.Return:
		var res []Value
		for _, r := range in.Results {
			res = append(res, x.get(st, f, r))
		}
		x.ret(st, f, res)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.idx-- // come back until none is left
			x.callValue(st, f, nil, d.pos, d.call, d.fn, d.args, "defer")
		}
	case *ssa.Defer:
		x.u.visit(in)
		fn, args := x.prepCall(st, f, &in.Call)
		if st.dead {
			return
		}
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], Deferred{&in.Call, fn, args, in})
	case *ssa.Go:
		fn, args := x.prepCall(st, f, &in.Call)
		if st.dead {
			return
		}
		x.spawn(st, f, in, &in.Call, fn, args)
	case *ssa.Call:
		x.u.visit(in)
		fn, args := x.prepCall(st, f, &in.Call)
		if st.dead {
			return
		}
		x.callValue(st, f, in, in, &in.Call, fn, args, "call")
	case *ssa.Send:
		ch := x.get(st, f, in.Chan).(*Term)
		ct := x.typ(f, in.Chan.Type())
		v := x.get(st, f, in.X)
		x.doSend(st, f, in, ch, ct, v, nil)
	case *ssa.Select:
		x.doSelect(st, f, in)
	case *ssa.Panic:
		v := x.get(st, f, in.X)
		x.doPanic(st, "explicit", in, v)
	default:
		panic(fmt.Sprintf("unsupported instruction %T in %s", in, f.fn))
	}
}

// noteCond records comparisons against loop-invariant bounds.
func (x *Exec) noteCond(t *Term) {
	if len(x.rec) == 0 {
		return
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		switch t.Op {
		case "not", "and", "or":
			for _, a := range t.Args {
				rec(a)
			}
		case "<", "<=", "=":
			for _, r := range x.rec {
				r.cmp[t.Args[0]] = true
				r.cmp[t.Args[1]] = true
			}
		}
	}
	rec(t)
}

// nilDeref handles a dereference of p; true when the path ends.
func (x *Exec) nilDeref(st *State, p Value) bool {
	t, ok := p.(*Term)
	if !ok {
		return false
	}
	if t.Op == "int" {
		if t.I == 0 {
			x.doPanic(st, "nilptr", nil, nil)
			return true
		}
		return false
	}
	if x.u.checks("nilptr") && x.dry == 0 {
		x.u.obligation(st, "nilptr", "", x.c.Not(x.c.Eq(t, x.c.Int(0))), nil)
	}
	st.assume(x.c.Not(x.c.Eq(t, x.c.Int(0))))
	return st.dead
}

func (x *Exec) doStore(st *State, p Value, t types.Type, v Value, in ssa.Instruction) {
	if x.u != nil {
		if pp, ok := p.(*PtrV); ok && !pp.Elems {
			x.u.access(st, pp, true, in)
			x.u.event(st, &Event{Kind: "store", Name: rootName(pp.Root) + pp.Path, Args: []TV{{pp.Base, types.NewPointer(pp.Root)}, {v, t}}, in: in})
		}
	}
	if pl, ok := p.(*PtrV); ok && pl.Elems && isByte(pl.Root) {
		x.storeByte(st, pl, v.(*Term))
		return
	}
	st.store(p, t, v)
}

func (x *Exec) storeByte(st *State, p *PtrV, v *Term) {
	c := x.c
	r := st.bytesRegion()
	whole := c.Select(r, p.Base)
	w := c.ByteStore(whole, p.Idx, v)
	st.setMem("bytes", p.Base, c.Store(r, p.Base, w))
}

func (x *Exec) unop(st *State, f *Frame, in *ssa.UnOp) {
	c := x.c
	v := x.get(st, f, in.X)
	t := x.typ(f, in.Type())
	switch in.Op {
	case token.MUL:
		if x.nilDeref(st, v) {
			return
		}
		if g, ok := in.X.(*ssa.Global); ok {
			x.set(f, in, x.loadGlobal(st, g, t))
			return
		}
		if pp, ok := v.(*PtrV); ok && !pp.Elems {
			x.u.access(st, pp, false, in)
		}
		if pl, ok := v.(*PtrV); ok && pl.Elems && isByte(pl.Root) {
			r := c.StrAt(c.Select(st.bytesRegion(), pl.Base), pl.Idx)
			st.assume(c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255))))
			x.set(f, in, r)
			return
		}
		x.set(f, in, st.load(v, t))
	case token.NOT:
		x.set(f, in, c.Not(v.(*Term)))
	case token.SUB:
		tv := v.(*Term)
		if tv.Sort == SInt {
			x.set(f, in, c.Neg(tv))
		} else {
			x.set(f, in, c.op("fp.neg", tv.Sort, tv))
		}
	case token.XOR:
		x.set(f, in, x.fresh(st, t, "xor"))
	case token.ARROW:
		x.doRecv(st, f, in, v.(*Term), x.typ(f, in.X.Type()), in.CommaOk, in)
	default:
		panic("unop " + in.Op.String())
	}
}

func (x *Exec) isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type) Value {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		// interface vs concrete
		if isIface(ta) && !isIface(tb) {
			b = x.mkIface(b, tb)
			tb = ta
		} else if isIface(tb) && !isIface(ta) {
			a = x.mkIface(a, ta)
			ta = tb
		}
		_, fa := a.(*FuncV)
		_, fb := b.(*FuncV)
		_, pa := a.(*PtrV)
		_, pb := b.(*PtrV)
		if ia, ok := a.(*IfaceV); ok {
			ib := b.(*IfaceV)
			r = x.ifaceEq(ia, ib)
		} else if isOpaque(ta) {
			r = c.Eq(a.(*Term), b.(*Term))
		} else if (fa || fb) && !(fa && fb) {
			if t, ok := b.(*Term); ok && t.Op == "int" && t.I == 0 {
				r = c.Bool(false)
			} else if t, ok := a.(*Term); ok && t.Op == "int" && t.I == 0 {
				r = c.Bool(false)
			} else {
				r = x.eq(a, b, ta)
			}
		} else if pa && pb {
			p, q := a.(*PtrV), b.(*PtrV)
			r = c.And(c.Eq(p.Base, q.Base), c.Bool(p.Path == q.Path))
			if p.Elems && q.Elems {
				r = c.And(r, c.Eq(p.Idx, q.Idx))
			}
		} else if pa || pb {
			r = c.Bool(false)
			if t, ok := a.(*Term); ok && !t.isLit() {
				r = c.Eq(t, x.ptrID(b.(*PtrV)))
			} else if t, ok := b.(*Term); ok && !t.isLit() {
				r = c.Eq(t, x.ptrID(a.(*PtrV)))
			}
		} else {
			r = x.eq(a, b, ta)
		}
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x1, ok1 := a.(*Term)
	x2, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(fmt.Sprintf("binop %s on %T %T", op, a, b))
	}
	if x1.Sort == SBool {
		switch op {
		case token.LAND, token.AND:
			return c.And(x1, x2)
		case token.LOR, token.OR:
			return c.Or(x1, x2)
		}
	}
	if x1.Sort == SString {
		lt := func(a, b *Term) *Term { return c.op("str.<", SBool, a, b) }
		switch op {
		case token.ADD:
			return c.Concat(x1, x2)
		case token.LSS:
			return lt(x1, x2)
		case token.GTR:
			return lt(x2, x1)
		case token.LEQ:
			return c.Not(lt(x2, x1))
		case token.GEQ:
			return c.Not(lt(x1, x2))
		}
	}
	if x1.Sort == SF32 || x1.Sort == SF64 {
		rm := c.mk(&Term{Op: "raw", Name: "RNE", Sort: "RoundingMode"})
		switch op {
		case token.LSS:
			return c.op("fp.lt", SBool, x1, x2)
		case token.LEQ:
			return c.op("fp.leq", SBool, x1, x2)
		case token.GTR:
			return c.op("fp.lt", SBool, x2, x1)
		case token.GEQ:
			return c.op("fp.leq", SBool, x2, x1)
		case token.ADD:
			return c.op("fp.add", x1.Sort, rm, x1, x2)
		case token.SUB:
			return c.op("fp.sub", x1.Sort, rm, x1, x2)
		case token.MUL:
			return c.op("fp.mul", x1.Sort, rm, x1, x2)
		case token.QUO:
			return c.op("fp.div", x1.Sort, rm, x1, x2)
		}
	}
	var r *Term
	switch op {
	case token.LSS:
		return c.Lt(x1, x2)
	case token.LEQ:
		return c.Le(x1, x2)
	case token.GTR:
		return c.Gt(x1, x2)
	case token.GEQ:
		return c.Ge(x1, x2)
	case token.ADD:
		r = c.Add(x1, x2)
	case token.SUB:
		r = c.Sub(x1, x2)
	case token.MUL:
		r = c.Mul(x1, x2)
	case token.QUO:
		if x2.Op == "int" && x2.I > 0 {
			if x.isUnsigned(ta) {
				return c.Div(x1, x2)
			}
			q := c.Div(x1, x2)
			// truncation towards zero
			if st.holds(c.Le(c.Int(0), x1)) || x1.Op == "int" && x1.I >= 0 {
				return q
			}
			return c.Ite(c.Le(c.Int(0), x1), q, c.Neg(c.Div(c.Neg(x1), x2)))
		}
		return x.fresh(st, tr, "quo")
	case token.REM:
		if x2.Op == "int" && x2.I > 0 {
			if x.isUnsigned(ta) || st.holds(c.Le(c.Int(0), x1)) {
				return c.Mod(x1, x2)
			}
			return c.Ite(c.Le(c.Int(0), x1), c.Mod(x1, x2), c.Neg(c.Mod(c.Neg(x1), x2)))
		}
		v := x.fresh(st, tr, "rem").(*Term)
		st.assume(c.Implies(c.And(c.Lt(c.Int(0), x2), c.Le(c.Int(0), x1)), c.And(c.Le(c.Int(0), v), c.Lt(v, x2))))
		return v
	case token.AND:
		if x1.Op == "int" {
			x1, x2 = x2, x1
		}
		if x2.Op == "int" && x2.I >= 0 && (x2.I&(x2.I+1)) == 0 {
			// low-bit mask: euclidean remainder, also for negative two's complement
			return c.op("mod", SInt, x1, c.Int(x2.I+1))
		}
		if x1.Op == "int" && x2.Op == "int" {
			return c.Int(x1.I & x2.I)
		}
		v := c.App("bitand", SInt, x1, x2)
		st.assume(c.Implies(c.And(c.Le(c.Int(0), x1), c.Le(c.Int(0), x2)), c.And(c.Le(c.Int(0), v), c.Le(v, x1), c.Le(v, x2))))
		return v
	case token.SHR:
		if x2.Op == "int" && x2.I >= 0 && x2.I < 62 {
			return c.op("div", SInt, x1, c.Int(1<<uint(x2.I)))
		}
		v := c.App("shr", SInt, x1, x2)
		st.assume(c.Implies(c.Le(c.Int(0), x1), c.And(c.Le(c.Int(0), v), c.Le(v, x1))))
		return v
	case token.SHL:
		if x2.Op == "int" && x2.I >= 0 && x2.I < 62 {
			return c.Mul(x1, c.Int(1<<uint(x2.I)))
		}
		return c.App("shl", SInt, x1, x2)
	case token.OR:
		if x1.Op == "int" && x2.Op == "int" {
			return c.Int(x1.I | x2.I)
		}
		return c.App("bitor", SInt, x1, x2)
	case token.XOR:
		return c.App("bitxor", SInt, x1, x2)
	case token.AND_NOT:
		return c.App("bitandnot", SInt, x1, x2)
	default:
		panic("binop " + op.String())
	}
	return r
}

func (x *Exec) ifaceEq(a, b *IfaceV) *Term {
	c := x.c
	if a.Tag.Op == "int" && a.Tag.I == 0 {
		return c.Eq(b.Tag, a.Tag)
	}
	if b.Tag.Op == "int" && b.Tag.I == 0 {
		return c.Eq(a.Tag, b.Tag)
	}
	te := c.Eq(a.Tag, b.Tag)
	if te.IsFalse() {
		return te
	}
	return c.And(te, c.Eq(a.Val, b.Val))
}

func (x *Exec) convType(st *State, v Value, from, to types.Type) Value {
	if isTParam(from) && isIface(to) {
		return x.mkIface(v, from)
	}
	if isIface(to) && !isIface(from) {
		return x.mkIface(v, from)
	}
	switch s := v.(type) {
	case *StructV:
		return &StructV{T: to, F: s.F}
	case *ArrV:
		return &ArrV{T: to, L: s.L}
	case *FuncV:
		n := *s
		x.funcID(s)
		n.ID = s.ID
		n.T = to
		if _, ok := types.Unalias(to).(*types.Named); ok {
			x.funcTab[n.ID] = &n
		}
		return &n
	}
	return v
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	bf, okf := under(from).(*types.Basic)
	bt, okt := under(to).(*types.Basic)
	if okf && okt && !isTParam(from) && !isTParam(to) {
		t := v.(*Term)
		fs, ts := basicSort(bf), basicSort(bt)
		switch {
		case fs == SInt && ts == SInt:
			return x.convInt(st, t, from, to)
		case fs == ts:
			return t
		case fs == SInt && ts == SString:
			return c.App("runestr", SString, t)
		case fs == SInt && (ts == SF32 || ts == SF64):
			return c.App("i2f$"+string(bt.Name()), ts, t)
		default:
			return x.fresh(st, to, "conv")
		}
	}
	if okf && basicSort(bf) == SString && isByteSlice(to) {
		return st.newBytes(v.(*Term))
	}
	if isByteSlice(from) && okt && basicSort(bt) == SString {
		return st.bytesOf(v.(*SliceV))
	}
	if okf && bf.Kind() == types.UntypedNil {
		return x.zero(to)
	}
	if len(leaves(from)) == len(leaves(to)) {
		same := true
		lf, lt := leaves(from), leaves(to)
		for i := range lf {
			if lf[i].Sort != lt[i].Sort {
				same = false
			}
		}
		if same {
			return x.convType(st, v, from, to)
		}
	}
	x.problem("conversion %s to %s", from, to)
	return x.fresh(st, to, "conv")
}

func intBits(t types.Type) (bits int, unsigned, ok bool) {
	b, is := under(t).(*types.Basic)
	if !is {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, false, true
	case types.Int32:
		return 32, false, true
	case types.Int16:
		return 16, false, true
	case types.Int8:
		return 8, false, true
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	}
	return
}

func (x *Exec) convInt(st *State, t *Term, from, to types.Type) *Term {
	c := x.c
	fb, fu, ok1 := intBits(from)
	tb, tu, ok2 := intBits(to)
	if !ok1 || !ok2 {
		return t
	}
	if (fu == tu && tb >= fb) || (fu && !tu && tb > fb) {
		return t
	}
	if t.Op == "int" {
		if tu && t.I >= 0 && (tb >= 63 || t.I < 1<<uint(tb)) {
			return t
		}
		if !tu && t.I < 1<<uint(tb-1) && t.I >= -(1<<uint(tb-1)) {
			return t
		}
	}
	if tb < 62 {
		m := c.Int(1 << uint(tb))
		in := c.And(c.Le(c.Int(0), t), c.Lt(t, m))
		if !tu {
			h := c.Int(1 << uint(tb-1))
			in = c.And(c.Le(c.Neg(h), t), c.Lt(t, h))
			r := c.op("mod", SInt, t, m)
			return c.Ite(in, t, c.Ite(c.Lt(r, h), r, c.Sub(r, m)))
		}
		return c.Ite(in, t, c.op("mod", SInt, t, m))
	}
	// 64-bit sign change: exact when in range
	if tu {
		two := c.mk(&Term{Op: "raw", Name: "18446744073709551616", Sort: SInt})
		return c.Ite(c.Le(c.Int(0), t), t, c.op("+", SInt, t, two))
	}
	half := c.mk(&Term{Op: "raw", Name: "9223372036854775808", Sort: SInt})
	two := c.mk(&Term{Op: "raw", Name: "18446744073709551616", Sort: SInt})
	return c.Ite(c.op("<", SBool, t, half), t, c.op("-", SInt, t, two))
}

func (x *Exec) indexAddr(st *State, f *Frame, in *ssa.IndexAddr) {
	c := x.c
	base := x.get(st, f, in.X)
	i := x.get(st, f, in.Index).(*Term)
	bt := x.typ(f, in.X.Type())
	switch u := under(bt).(type) {
	case *types.Slice:
		s := base.(*SliceV)
		ok := c.And(c.Le(c.Int(0), i), c.Lt(i, s.Len))
		if !x.boundsCheck(st, ok, in) {
			return
		}
		x.set(f, in, &PtrV{Base: s.Ref, Root: u.Elem(), Elems: true, Idx: c.Add(s.Off, i), T: u.Elem()})
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := at.Len()
		if x.nilDeref(st, base) {
			return
		}
		ok := c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len())))
		if !x.boundsCheck(st, ok, in) {
			return
		}
		switch p := base.(type) {
		case *Term:
			x.set(f, in, &PtrV{Base: p, Root: at.Elem(), Elems: true, Idx: i, T: at.Elem()})
		case *PtrV:
			if i.Op == "int" {
				x.set(f, in, &PtrV{Base: p.Base, Root: p.Root, Elems: p.Elems, Idx: p.Idx, Path: fmt.Sprintf("%s[%d]", p.Path, i.I), T: at.Elem()})
			} else {
				// an element of an array field: one path per element
				elem := func(s *State, k int64) {
					x.set(s.top(), in, &PtrV{Base: p.Base, Root: p.Root, Elems: p.Elems, Idx: p.Idx, Path: fmt.Sprintf("%s[%d]", p.Path, k), T: at.Elem()})
				}
				var rec func(s *State, k int64)
				rec = func(s *State, k int64) {
					if k == n-1 {
						elem(s, k)
						return
					}
					x.branch(s, c.Eq(i, c.Int(k)), func(s *State) { elem(s, k) }, func(s *State) { rec(s, k+1) })
				}
				if n > 64 {
					x.problem("symbolic index into a long array field in %s", funcName(f.fn))
				}
				rec(st, 0)
			}
		}
	default:
		panic("indexaddr " + bt.String())
	}
}

func (x *Exec) boundsCheck(st *State, ok *Term, in ssa.Instruction) bool {
	if ok.IsTrue() {
		return true
	}
	if ok.IsFalse() {
		x.doPanic(st, "index", in, nil)
		return false
	}
	if x.u.checks("index") && x.dry == 0 {
		x.u.obligation(st, "index", "", ok, in)
	}
	st.assume(ok)
	return !st.dead
}

func (x *Exec) index(st *State, f *Frame, in *ssa.Index) {
	c := x.c
	v := x.get(st, f, in.X)
	i := x.get(st, f, in.Index).(*Term)
	switch v := v.(type) {
	case *Term:
		if v.Sort == SString {
			if !x.boundsCheck(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.StrLen(v))), in) {
				return
			}
			r := c.StrAt(v, i)
			if !r.isLit() {
				st.assume(c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255))))
			}
			x.set(f, in, r)
			return
		}
		x.set(f, in, x.fresh(st, x.typ(f, in.Type()), "index"))
	case *ArrV:
		at := under(v.T).(*types.Array)
		if !x.boundsCheck(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))), in) {
			return
		}
		x.set(f, in, x.build(at.Elem(), func(l Leaf) *Term { return c.Select(v.L[l.Path], i) }))
	default:
		panic(fmt.Sprintf("index %T", v))
	}
}

func (x *Exec) lookup(st *State, f *Frame, in *ssa.Lookup) {
	c := x.c
	v := x.get(st, f, in.X).(*Term)
	t := x.typ(f, in.X.Type())
	k := x.get(st, f, in.Index)
	if v.Sort == SString {
		i := k.(*Term)
		if !x.boundsCheck(st, c.And(c.Le(c.Int(0), i), c.Lt(i, c.StrLen(v))), in) {
			return
		}
		r := c.StrAt(v, i)
		if !r.isLit() {
			st.assume(c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255))))
		}
		x.set(f, in, r)
		return
	}
	m := x.mapRep(t)
	x.u.mapAccess(st, v, false, in)
	val, ok := st.mapGet(m, v, x.mapKey(m, k))
	x.u.event(st, &Event{Kind: "mapget", Name: typeName(t), Names: []string{fullName(t)}, Args: []TV{{v, t}, {k, m.kt}, {val, m.et}, {ok, types.Typ[types.Bool]}}, in: in})
	if in.CommaOk {
		x.set(f, in, &TupleV{[]Value{val, ok}})
	} else {
		x.set(f, in, val)
	}
}

func (x *Exec) slice(st *State, f *Frame, in *ssa.Slice) {
	c := x.c
	v := x.get(st, f, in.X)
	t := x.typ(f, in.X.Type())
	var lo, hi, max *Term
	if in.Low != nil {
		lo = x.get(st, f, in.Low).(*Term)
	} else {
		lo = c.Int(0)
	}
	if in.High != nil {
		hi = x.get(st, f, in.High).(*Term)
	}
	if in.Max != nil {
		max = x.get(st, f, in.Max).(*Term)
	}
	switch u := under(t).(type) {
	case *types.Basic: // string
		s := v.(*Term)
		n := c.StrLen(s)
		if hi == nil {
			hi = n
		}
		if !x.boundsCheck(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), in) {
			return
		}
		x.set(f, in, c.Substr(s, lo, c.Sub(hi, lo)))
	case *types.Slice:
		s := v.(*SliceV)
		if hi == nil {
			hi = s.Len
		}
		cp := s.Cap
		if max != nil {
			cp = max
		}
		if !x.boundsCheck(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, cp)), in) {
			return
		}
		x.set(f, in, &SliceV{s.Ref, c.Add(s.Off, lo), c.Sub(hi, lo), c.Sub(cp, lo)})
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		ref, ok := v.(*Term)
		if !ok {
			x.problem("slice of array field in %s", funcName(f.fn))
			x.set(f, in, x.fresh(st, x.typ(f, in.Type()), "slice"))
			return
		}
		if !x.boundsCheck(st, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), in) {
			return
		}
		x.set(f, in, &SliceV{ref, lo, c.Sub(hi, lo), c.Sub(n, lo)})
	default:
		panic("slice of " + t.String())
	}
}

func (x *Exec) makeSlice(st *State, f *Frame, in *ssa.MakeSlice) {
	c := x.c
	t := x.typ(f, in.Type())
	elem := under(t).(*types.Slice).Elem()
	n := x.get(st, f, in.Len).(*Term)
	cp := x.get(st, f, in.Cap).(*Term)
	if !x.boundsCheck(st, c.And(c.Le(c.Int(0), n), c.Le(n, cp)), in) {
		return
	}
	if isByte(elem) {
		id := c.Int(x.newRef())
		z := c.App("zerobytes", SString, cp)
		if cp.Op == "int" && cp.I >= 0 && cp.I <= 64 {
			z = c.Str(strings.Repeat("\x00", int(cp.I)))
		}
		st.assume(c.Eq(c.StrLen(z), cp))
		st.mem["bytes"] = c.Store(st.bytesRegion(), id, z)
		x.set(f, in, &SliceV{id, c.Int(0), n, cp})
		return
	}
	x.set(f, in, &SliceV{st.allocElems(elem), c.Int(0), n, cp})
}

func (x *Exec) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) {
	c := x.c
	iv, ok := x.get(st, f, in.X).(*IfaceV)
	to := x.typ(f, in.AssertedType)
	if !ok {
		// type parameter value asserted through any(): already an interface otherwise
		panic(fmt.Sprintf("type assert on %T", x.get(st, f, in.X)))
	}
	cond := x.hasType(iv, to)
	var val Value
	if isIface(to) {
		val = iv
	} else if !cond.IsFalse() {
		val = x.unIface(st, iv, to)
	} else {
		val = x.zero(to)
	}
	if in.CommaOk {
		// value is zero when the assertion fails
		fl := x.flatten(val, to)
		z := x.flatten(x.zero(to), to)
		if cond.IsTrue() {
		} else if cond.IsFalse() {
			val = x.zero(to)
		} else {
			// fork: keeps values simple
			x.branch(st, cond, func(s *State) {
				x.set(s.top(), in, &TupleV{[]Value{val, c.Bool(true)}})
			}, func(s *State) {
				x.set(s.top(), in, &TupleV{[]Value{x.unflatten(to, z), c.Bool(false)}})
			})
			return
		}
		_ = fl
		x.set(f, in, &TupleV{[]Value{val, cond}})
		return
	}
	if cond.IsTrue() || st.holds(cond) {
		x.set(f, in, val)
		return
	}
	bad := st.clone()
	bad.assume(c.Not(cond))
	if !bad.dead && x.feasible(bad) {
		x.doPanic(bad, "typeassert", in, nil)
		x.push(bad)
	}
	st.assume(cond)
	if st.dead {
		return
	}
	x.set(f, in, val)
}

// hasType tells whether the dynamic type of iv is (or implements) t.
func (x *Exec) hasType(iv *IfaceV, t types.Type) *Term {
	c := x.c
	if !isIface(t) {
		return c.Eq(iv.Tag, x.tag(t))
	}
	it := under(t).(*types.Interface)
	if it.NumMethods() == 0 {
		return c.Not(c.Eq(iv.Tag, c.Int(0)))
	}
	var rec func(tag *Term) *Term
	rec = func(tag *Term) *Term {
		if tag.Op == "int" {
			if tag.I == 0 {
				return c.Bool(false)
			}
			dt := x.tagT[tag.I]
			if dt == nil {
				return c.App("impl$"+typeKey(t), SBool, tag)
			}
			if isTParam(dt) {
				tp := types.Unalias(dt).(*types.TypeParam)
				if types.Implements(tp, it) || types.AssignableTo(tp, t) {
					return c.Bool(true)
				}
				return c.App("impl$"+typeKey(t), SBool, tag)
			}
			return c.Bool(types.Implements(dt, it))
		}
		if tag.Op == "ite" {
			return c.Ite(tag.Args[0], rec(tag.Args[1]), rec(tag.Args[2]))
		}
		r := c.App("impl$"+typeKey(t), SBool, tag)
		for _, id := range x.moduleTags() {
			r = c.Ite(c.Eq(tag, c.Int(id)), c.Bool(types.Implements(x.tagT[id], it)), r)
		}
		return c.And(c.Not(c.Eq(tag, c.Int(0))), r)
	}
	return rec(iv.Tag)
}

// ---------------- control flow ----------------

func (x *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	// leaving / re-entering loops
	if f.loops != nil {
		for h, lc := range f.loops {
			if !loopBody(h)[to] && !lc.final {
				st.dead = true // the rest of a dry run of an inner loop
				return
			}
		}
		if lc, ok := f.loops[to]; ok {
			x.backEdge(st, f, to, lc)
			return
		}
		for h := range f.loops {
			if !loopBody(h)[to] {
				f.loops = copyLoops(f.loops)
				delete(f.loops, h)
			}
		}
	}
	if isLoopHeader(to) {
		x.enterLoop(st, f, from, to)
		return
	}
	x.enter(st, f, from, to)
}

// enter moves to a block, evaluating its phis.
func (x *Exec) enter(st *State, f *Frame, from, to *ssa.BasicBlock) {
	var vals []Value
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.get(st, f, p.Edges[pi]))
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	f.prev = from
	f.block = to
	f.idx = len(phis)
}

func (x *Exec) ret(st *State, f *Frame, res []Value) {
	if f.kind == "defer" || f.kind == "panicdefer" {
		if f.after != nil {
			f.after(st, res)
		}
		st.frames = st.frames[:len(st.frames)-1]
		if f.kind == "panicdefer" && !st.dead {
			x.unwind(st, st.top())
		}
		return
	}
	if f.after != nil {
		after := f.after
		if f.mark != nil {
			// root of a thread, callback or unit: frame stays for the hooks
			sts := after(st, res)
			for _, s := range sts {
				x.push(s)
			}
			st.dead = true
			return
		}
		after(st, res)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.dead = true
		return
	}
	caller := st.top()
	if f.call != nil {
		if v, ok := f.call.(ssa.Value); ok {
			x.setResult(caller, v, res)
		}
	}
}

func (x *Exec) setResult(f *Frame, v ssa.Value, res []Value) {
	if t, ok := v.Type().(*types.Tuple); ok {
		if t.Len() == 0 {
			return
		}
		f.regs[v] = &TupleV{res}
		return
	}
	if len(res) == 1 {
		f.regs[v] = res[0]
	}
}

// doPanic starts panicking.
func (x *Exec) doPanic(st *State, kind string, in ssa.Instruction, v Value) {
	if x.u != nil {
		x.u.event(st, &Event{Kind: "panic", Name: kind, in: in})
	}
	if st.dead {
		return
	}
	st.panicKind = kind
	if v == nil {
		v = &IfaceV{x.c.Int(int64(1) << 40), x.freshTerm("panic", SInt)}
	}
	// unwind to a frame with deferred calls that can recover
	for len(st.frames) > 0 {
		f := st.top()
		for _, lc := range f.loops {
			if !lc.final {
				st.dead = true
				return
			}
		}
		if f.fn.Recover != nil && len(f.defers) > 0 {
			st.panic_ = v
			x.unwind(st, f)
			return
		}
		if len(f.defers) > 0 && x.u.hasRecover(st) {
			st.panic_ = v
			x.unwind(st, f)
			return
		}
		if f.mark != nil {
			x.escaped(st, f, in)
			break
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
	st.dead = true
}

// escaped reports a panic that leaves a root function.
func (x *Exec) escaped(st *State, f *Frame, in ssa.Instruction) {
	kind := st.panicKind
	if x.u != nil && f.mark.kind != "pure" {
		if x.u.active() && x.u.checks("panics") && kind != "external" {
			x.u.obligation(st, "no-panic", kind+" panic leaves "+f.mark.kind+" "+f.mark.name, x.c.Bool(false), in)
		}
		x.u.event(st, &Event{Kind: "escape", Name: f.mark.kind + " " + f.mark.name, Names: []string{f.mark.kind, f.mark.name}, in: in})
	}
}

// unwind runs the deferred calls of f one after the other while panicking.
func (x *Exec) unwind(st *State, f *Frame) {
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		depth := len(st.frames)
		x.callDeferredPanicking(st, f, d, depth)
		return
	}
	if st.panic_ == nil {
		// recovered: continue in the recover block
		if f.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fn.Recover
			f.idx = 0
			return
		}
		x.ret(st, f, nil)
		return
	}
	if f.mark != nil {
		x.escaped(st, f, nil)
		st.dead = true
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	for len(st.frames) > 0 {
		g := st.top()
		for _, lc := range g.loops {
			if !lc.final {
				st.dead = true
				return
			}
		}
		if len(g.defers) > 0 {
			x.unwind(st, g)
			return
		}
		if g.mark != nil {
			x.escaped(st, g, nil)
			break
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
	st.dead = true
}

func (x *Exec) callDeferredPanicking(st *State, f *Frame, d Deferred, depth int) {
	x.callValue(st, f, nil, d.pos, d.call, d.fn, d.args, "panicdefer")
	if !st.dead && len(st.frames) == depth {
		// completed without a frame (model); continue
		x.unwind(st, f)
	}
}

// moduleTags lists the known concrete module types that have methods.
func (x *Exec) moduleTags() []int64 {
	var out []int64
	for id, t := range x.tagT {
		if t == nil || isTParam(t) || isIface(t) {
			continue
		}
		n, ok := types.Unalias(derefType(t)).(*types.Named)
		if ok && inModule(n.Obj().Pkg()) && n.NumMethods() > 0 && n.TypeParams().Len() == 0 {
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
