package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) chanLen(st *State, ch *Term) *Term {
	n := x.freshTerm("chanlen", SInt)
	c := x.c
	st.assume(c.And(c.Le(c.Int(0), n), c.Le(n, c.Select(st.region("chan#cap", arr(SInt, SInt)), ch))))
	return n
}

func (x *Exec) sendEvent(st *State, in ssa.Instruction, ch *Term, ct types.Type, v Value, alts []Alt, def bool) {
	st.escape(v)
	et := under(ct).(*types.Chan).Elem()
	x.u.event(st, &Event{Kind: "send", Name: typeName(ct), Names: []string{shortName(typeName(ct))}, Args: []TV{{ch, ct}, {v, et}}, in: in, Alts: alts, Default: def})
}

func (x *Exec) doSend(st *State, f *Frame, in ssa.Instruction, ch *Term, ct types.Type, v Value, _ *Alt) {
	if ch.Op == "int" && ch.I == 0 {
		st.dead = true
		return
	}
	st.assume(x.c.Not(x.c.Eq(ch, x.c.Int(0))))
	x.sendEvent(st, in, ch, ct, v, nil, false)
}

// received makes the value of a receive; it may fork on whether the channel is closed.
func (x *Exec) received(st *State, in ssa.Instruction, ch *Term, ct types.Type, alts []Alt, def bool) (Value, *Term) {
	c := x.c
	et := substOpt(under(ct).(*types.Chan).Elem())
	st.assume(c.Not(c.Eq(ch, c.Int(0))))
	var v Value
	var ok *Term
	now := x.tick(st) // waiting takes time
	if p, isFuse := x.fuseOf[ch]; isFuse {
		x.fuseMark(st, p)
		ok = c.Bool(false)
		v = x.zero(et)
	} else if ref, isCtx := x.ctxOf[ch]; isCtx {
		defer func() { st.known["done:"+ref.key()] = true }()
		// canceled, or its deadline has passed
		iv := &IfaceV{ref.tag, ref.val}
		st.assume(c.Or(c.App("ctx_canceled", SBool, ref.val), c.And(x.ctxHasDL(iv), c.Le(x.ctxDL(iv), now))))
		ok = c.Bool(false)
		v = x.zero(et)
	} else if isStructEmpty(et) {
		ok = x.freshTerm("ok", SBool)
		v = x.zero(et)
	} else {
		ok = x.freshTerm("ok", SBool)
		fv := x.fresh(st, et, "recv")
		if _, isPtr := fv.(*PtrV); isPtr {
			v = fv
		} else {
			v = x.iteValue(ok, fv, x.zero(et), et)
		}
		x.wellFormed(st, v)
	}
	// a channel that was not closed delivers ok
	cl := c.Select(st.region("chan#closed", arr(SInt, SBool)), ch)
	_ = cl
	if x.timerChan[ch] {
		st.assume(ok)
	}
	if typeName(et) == "time.Time" {
		// a timer fires when its time has come
		st.assume(c.Implies(c.App("istimer", SBool, ch), c.Le(c.Add(c.App("timerat", SInt, ch), c.App("timerdur", SInt, ch)), now)))
	}
	x.havocCells(st)
	x.u.event(st, &Event{Kind: "recv", Name: typeName(ct), Names: []string{shortName(typeName(ct))}, Args: []TV{{ch, ct}, {v, et}, {ok, types.Typ[types.Bool]}}, in: in, Alts: alts, Default: def})
	return v, ok
}

func substOpt(t types.Type) types.Type { return t }

func isStructEmpty(t types.Type) bool {
	s := structOf(t)
	return s != nil && s.NumFields() == 0
}

func (x *Exec) doRecv(st *State, f *Frame, reg ssa.Value, ch *Term, ct types.Type, commaOk bool, in ssa.Instruction) {
	if ch.Op == "int" && ch.I == 0 {
		st.dead = true
		return
	}
	v, ok := x.received(st, in, ch, ct, nil, false)
	if st.dead {
		return
	}
	if commaOk {
		x.set(f, reg, &TupleV{[]Value{v, ok}})
	} else {
		x.set(f, reg, v)
	}
}

func (x *Exec) doSelect(st *State, f *Frame, in *ssa.Select) {
	c := x.c
	var alts []Alt
	for _, s := range in.States {
		ct := x.typ(f, s.Chan.Type())
		a := Alt{send: s.Dir == types.SendOnly, ch: x.get(st, f, s.Chan).(*Term), ct: ct}
		if a.send {
			a.val = x.get(st, f, s.Send)
		}
		alts = append(alts, a)
	}
	def := !in.Blocking
	// result tuple: index, recvOk, one value per receive
	mk := func(s *State, idx int, v Value, ok *Term) {
		tv := &TupleV{E: []Value{c.Int(int64(idx)), ok}}
		for i, a := range alts {
			if a.send {
				continue
			}
			et := under(a.ct).(*types.Chan).Elem()
			if i == idx {
				tv.E = append(tv.E, v)
			} else {
				tv.E = append(tv.E, x.zero(et))
			}
		}
		s.top().regs[in] = tv
	}
	n := len(alts)
	if def {
		n++
	}
	var states []*State
	for i := 0; i < n; i++ {
		states = append(states, st.clone())
	}
	st.dead = true
	for i := n - 1; i >= 0; i-- {
		s := states[i]
		if i == len(alts) {
			s.step("select default")
			x.u.event(s, &Event{Kind: "default", Name: "select", in: in, Alts: alts, Default: true})
			mk(s, -1, nil, c.Bool(false))
			x.push(s)
			continue
		}
		a := alts[i]
		if a.ch.Op == "int" && a.ch.I == 0 {
			continue
		}
		s.assume(c.Not(c.Eq(a.ch, c.Int(0))))
		if s.dead {
			continue
		}
		if a.send {
			x.sendEvent(s, in, a.ch, a.ct, a.val, alts, def)
			mk(s, i, nil, c.Bool(false))
		} else {
			v, ok := x.received(s, in, a.ch, a.ct, alts, def)
			if s.dead {
				continue
			}
			mk(s, i, v, ok)
		}
		x.push(s)
	}
}

// IterV is a range iterator.
type IterV struct {
	id  int64
	m   *Term
	mt  types.Type
	str *Term
	dom *Term
}

func (x *Exec) rangeInit(st *State, f *Frame, in *ssa.Range) {
	c := x.c
	v := x.get(st, f, in.X).(*Term)
	t := x.typ(f, in.X.Type())
	id := x.newRef()
	it := &IterV{id: id, m: v, mt: t}
	o := &Obj{L: map[string]*Term{}}
	if v.Sort == SString {
		it.str = v
		o.L["pos"] = c.Int(0)
	} else {
		rep := x.mapRep(t)
		x.u.mapAccess(st, v, false, in)
		o.L["visited"] = c.ConstArr(arr(rep.key, SBool), c.Bool(false))
		o.L["count"] = c.Int(0)
		it.dom = c.Select(st.mapDom(rep), v)
		x.u.event(st, &Event{Kind: "range", Name: typeName(t), Names: []string{fullName(t)}, Args: []TV{{v, t}}, in: in})
	}
	st.objs[id] = o
	f.regs[in] = it
}

func (x *Exec) iterSet(st *State, id int64, path string, v *Term) {
	o := st.objs[id]
	n := &Obj{T: o.T, L: map[string]*Term{}}
	for k, t := range o.L {
		n.L[k] = t
	}
	n.L[path] = v
	st.objs[id] = n
	x.noteObj(id, path, nil)
}

func (x *Exec) rangeNext(st *State, f *Frame, in *ssa.Next) {
	c := x.c
	it := x.get(st, f, in.Iter).(*IterV)
	o := st.objs[it.id]
	if it.str != nil {
		pos := o.L["pos"]
		n := c.StrLen(it.str)
		done := st.clone()
		done.assume(c.Le(n, pos))
		if !done.dead && x.feasible(done) {
			done.top().regs[in] = &TupleV{[]Value{c.Bool(false), c.Int(0), c.Int(0)}}
			x.push(done)
		}
		st.assume(c.Lt(pos, n))
		if st.dead || !x.feasible(st) {
			st.dead = true
			return
		}
		r := x.freshTerm("rune", SInt)
		w := x.freshTerm("width", SInt)
		st.assume(c.And(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Add(pos, w), n)))
		b := c.StrAt(it.str, pos)
		st.assume(c.And(c.Le(c.Int(0), b), c.Le(b, c.Int(255))))
		st.assume(c.Ite(c.Lt(b, c.Int(128)), c.And(c.Eq(r, b), c.Eq(w, c.Int(1))), c.And(c.Le(c.Int(128), r), c.Le(r, c.Int(0x10ffff)))))
		x.iterSet(st, it.id, "pos", c.Add(pos, w))
		x.u.event(st, &Event{Kind: "next", Name: "string", Names: []string{"string"}, Args: []TV{{it.str, types.Typ[types.String]}, {pos, types.Typ[types.Int]}, {r, types.Typ[types.Rune]}}, in: in})
		f.regs[in] = &TupleV{[]Value{c.Bool(true), pos, r}}
		return
	}
	rep := x.mapRep(it.mt)
	vis := o.L["visited"]
	if it.m.Op == "int" && it.m.I == 0 {
		f.regs[in] = &TupleV{[]Value{c.Bool(false), x.zero(rep.kt), x.zero(rep.et)}}
		return
	}
	x.u.mapAccess(st, it.m, false, in)
	nilMap := c.Eq(it.m, c.Int(0))
	dom := c.Select(st.mapDom(rep), it.m)
	// exhausted
	done := st.clone()
	k := c.BVar("q_k", rep.key)
	cover := c.Select(dom, k)
	if it.dom != dom {
		cover = c.And(cover, c.Select(it.dom, k))
	}
	done.assume(c.Or(nilMap, c.Forall([]*Term{k}, c.Implies(cover, c.Select(vis, k)))))
	done.assume(c.Implies(nilMap, c.Eq(o.L["count"], c.Int(0))))
	if it.dom == dom {
		done.assume(c.Or(nilMap, c.Eq(o.L["count"], c.Select(st.mapCard(rep), it.m))))
	}
	if !done.dead && x.feasible(done) {
		done.top().regs[in] = &TupleV{[]Value{c.Bool(false), x.zero(rep.kt), x.zero(rep.et)}}
		x.push(done)
	}
	// next entry
	kv := x.fresh(st, rep.kt, "key")
	kt := x.mapKey(rep, kv)
	st.assume(c.Not(nilMap))
	st.assume(c.Select(dom, kt))
	st.assume(c.Not(c.Select(vis, kt)))
	st.assume(c.Lt(c.Int(0), c.Select(st.mapCard(rep), it.m)))
	if st.dead || !x.feasible(st) {
		st.dead = true
		return
	}
	val, _ := st.mapGet(rep, it.m, kt)
	x.iterSet(st, it.id, "visited", c.Store(vis, kt, c.Bool(true)))
	x.iterSet(st, it.id, "count", c.Add(o.L["count"], c.Int(1)))
	x.u.event(st, &Event{Kind: "next", Name: typeName(it.mt), Names: []string{fullName(it.mt)}, Args: []TV{{it.m, it.mt}, {kv, rep.kt}, {val, rep.et}}, in: in})
	f.regs[in] = &TupleV{[]Value{c.Bool(true), kv, val}}
}

// ctxKnownDone: the context, or one it derives from, is known to be done.
func (x *Exec) ctxKnownDone(st *State, k ctxKey) bool {
	for i := 0; i < 16; i++ {
		if st.known["done:"+k.key()] {
			return true
		}
		if k.val.Op != "int" {
			return false
		}
		ci := st.ctxs[k.val.I]
		if ci == nil || ci.parent == nil {
			return false
		}
		k = ctxKey{ci.parent.Tag, ci.parent.Val}
	}
	return false
}

type ctxKey struct{ tag, val *Term }

func (k ctxKey) key() string { return fmt.Sprintf("%p.%p", k.tag, k.val) }
