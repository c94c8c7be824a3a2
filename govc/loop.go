package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var loopCache sync.Map // *ssa.BasicBlock -> map[*ssa.BasicBlock]bool (nil when not a header)

func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if v, ok := loopCache.Load(h); ok {
		return v.(map[*ssa.BasicBlock]bool)
	}
	var body map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		if body == nil {
			body = map[*ssa.BasicBlock]bool{h: true}
		}
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if body[b] {
				continue
			}
			body[b] = true
			work = append(work, b.Preds...)
		}
	}
	loopCache.Store(h, body)
	return body
}

func isLoopHeader(b *ssa.BasicBlock) bool { return loopOf(b) != nil }

func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool { return loopOf(h) }

type loopMemo struct {
	mods *modSet
}

// modSet is what a loop may change.
type modSet struct {
	objs  map[int64]map[string]bool
	mem   map[string]map[*Term]bool // nil key: whole region
	fresh map[string]bool           // regions written at new objects
	gh    map[string]bool
	esc   map[int64]bool
	cells map[int64]bool
	n     int
}

func newModSet() *modSet {
	return &modSet{objs: map[int64]map[string]bool{}, mem: map[string]map[*Term]bool{}, fresh: map[string]bool{}, gh: map[string]bool{}, esc: map[int64]bool{}, cells: map[int64]bool{}}
}

type hloc struct {
	name string
	h    *Term
	init *Term
	kind string
	get  func(st *State, f *Frame) *Term
	key  *Term
	reg  string
	phi  bool
}

// fill records a store to an element of an array inside a loop.
type fill struct {
	reg      string // "obj<ID><path>" or region name
	key      *Term
	idx, val *Term
	locs     []*hloc
}

type cand struct {
	name string
	t    *Term                           // over header constants
	ev   func(st *State, f *Frame) *Term // or evaluated in a state
	tev  func(st *State, f *Frame, sub map[*Term]*Term) *Term
	dead bool
	weak bool
}

type loopRun struct {
	head    *ssa.BasicBlock
	mods    *modSet
	rec     *writeRec
	locs    []*hloc
	cands   []*cand
	changed bool
	backs   int
	locks   int
	cells   int
	at      int64
	phase   string
	entry   *State
	le      *loopEntry
	want    map[string]bool
	whole   []string // regions of which everything may change
}

// loopEntry is shared by the runs of one loop entry.
type loopEntry struct {
	seq   int
	cmp   map[*Term]bool
	fills []*fill
}

func (x *Exec) headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func edgeIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// concreteHeader tells whether the condition of a loop header is decided.
func (x *Exec) concreteHeader(st *State, f *Frame, from, to *ssa.BasicBlock) bool {
	last, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	tested := to.Comment == "rangeint.body" // a constant number of rounds, tested at the end
	if !ok && !tested {
		return false
	}
	n := f.unroll[to]
	limit := 40
	if fl := x.u.Flags["unroll"]; fl != "" {
		limit, _ = strconv.Atoi(fl)
		limit--
	}
	if n > limit {
		return false
	}
	if tested {
		i := edgeIndex(from, to)
		for _, p := range x.headerPhis(to) {
			if p.Comment != "rangeint.iter" || i < 0 {
				continue
			}
			if t, ok := x.get(st, f, p.Edges[i]).(*Term); ok && t.Op == "int" {
				return true
			}
		}
		return false
	}
	for _, in := range to.Instrs[:len(to.Instrs)-1] {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op.String() == "<-" {
				return false
			}
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		case *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
		default:
			return false
		}
	}
	s := st.clone()
	g := s.top()
	x.dry++
	savedRec := x.rec
	x.rec = nil
	savedWork := x.work
	x.work = nil
	defer func() { x.dry--; x.rec = savedRec; x.work = savedWork }()
	x.enter(s, g, from, to)
	for g.idx < len(to.Instrs)-1 && !s.dead {
		in := to.Instrs[g.idx]
		g.idx++
		x.step(s, g, in)
		if len(s.frames) == 0 || s.top() != g {
			return false
		}
	}
	if s.dead {
		return false
	}
	cond := x.get(s, g, last.Cond).(*Term)
	return cond.IsTrue() || cond.IsFalse()
}

func (x *Exec) loopKey(st *State, to *ssa.BasicBlock) string {
	var fs []string
	for _, f := range st.frames {
		fs = append(fs, funcName(f.fn))
	}
	return fmt.Sprintf("%s#%d", strings.Join(fs, ">"), to.Index)
}

func (x *Exec) enterLoop(st *State, f *Frame, from, to *ssa.BasicBlock) {
	if x.concreteHeader(st, f, from, to) {
		u := map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			u[k] = v
		}
		u[to]++
		f.unroll = u
		x.enter(st, f, from, to)
		return
	}
	key := x.loopKey(st, to)
	memo := x.loopMemo[key]
	if memo == nil {
		memo = &loopMemo{mods: newModSet()}
		x.loopMemo[key] = memo
	}
	// mods mention object ids and terms of an entry state; ids that are not
	// objects here are ignored.
	mods := newModSet()
	for n := range memo.mods.gh {
		mods.gh[n] = true
	}
	le := &loopEntry{seq: x.seq, cmp: map[*Term]bool{}}
	loopDebug := os.Getenv("GOVC_LOOP") != ""
	// 1. what changes
	for round := 0; ; round++ {
		if round > 12 {
			x.u.specError("loop", "modified set of "+key+" does not stabilise")
			break
		}
		run := &loopRun{head: to, mods: mods, phase: "mods", locks: len(st.locks), entry: st, at: x.next, le: le}
		x.dryRun(st, f, from, to, run)
		if loopDebug {
			fmt.Fprintf(os.Stderr, "loop %s round %d changed=%v objs=%v gh=%v esc=%v mem=%d\n", key, round, run.changed, mods.objs, mods.gh, mods.esc, len(mods.mem))
		}
		if !run.changed {
			break
		}
	}
	for n := range mods.gh {
		memo.mods.gh[n] = true
	}
	// 2. candidate invariants
	run := &loopRun{head: to, mods: mods, phase: "check", locks: len(st.locks), entry: st, at: x.next, le: le}
	var keep map[string]bool
	for round := 0; round < 15; round++ {
		run = &loopRun{head: to, mods: mods, phase: "check", locks: len(st.locks), entry: st, at: x.next, le: le}
		run.want = keep
		x.dryRun(st, f, from, to, run)
		nk := map[string]bool{}
		dropped := 0
		for _, c := range run.cands {
			if c.dead {
				dropped++
			} else {
				nk[c.name] = true
			}
		}
		if loopDebug {
			var names []string
			for n := range nk {
				names = append(names, n)
			}
			sort.Strings(names)
			fmt.Fprintf(os.Stderr, "loop %s check round %d dropped=%d keep=%v\n", key, round, dropped, names)
		}
		keep = nk
		if dropped == 0 {
			break
		}
		if round == 14 {
			keep = map[string]bool{}
		}
	}
	// 3. the rest of the program
	fin := &loopRun{head: to, mods: mods, phase: "final", locks: len(st.locks), entry: st, at: x.next, le: le}
	fin.want = keep
	if fin.want == nil {
		fin.want = map[string]bool{}
	}
	x.atHeader(st, f, from, to, fin)
	if x.dry == 0 && x.pure == 0 {
		st.step("loop in %s", shortName(funcName(f.fn)))
	}
	f.loops = copyLoops(f.loops)
	f.loops[to] = &loopCtx{final: true, run: fin}
}

func copyLoops(m map[*ssa.BasicBlock]*loopCtx) map[*ssa.BasicBlock]*loopCtx {
	n := map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) dryRun(st *State, f *Frame, from, to *ssa.BasicBlock, run *loopRun) {
	s := st.clone()
	g := s.top()
	rec := &writeRec{mem: map[string]map[*Term]bool{}, objs: map[int64]map[string]bool{}, gh: map[string]bool{}, cmp: map[*Term]bool{}, esc: map[int64]bool{}}
	run.rec = rec
	next, seq := x.next, x.seq
	_ = seq
	x.atHeader(s, g, from, to, run)
	rec.at = run.at
	g.loops = copyLoops(g.loops)
	g.loops[to] = &loopCtx{run: run}
	x.dry++
	savedRec := x.rec
	x.rec = append(append([]*writeRec{}, savedRec...), rec)
	x.runAll([]*State{s})
	x.rec = savedRec
	x.dry--
	if run.phase == "mods" {
		run.le.fills = nil
		for _, fl := range rec.fills {
			fl.locs = run.locs
			run.le.fills = append(run.le.fills, fl)
		}
	}
	x.mergeRec(st, run, rec, next)
}

// mergeRec extends the modified set by what the run wrote.
func (x *Exec) mergeRec(st *State, run *loopRun, rec *writeRec, next int64) {
	m := run.mods
	for id, ps := range rec.objs {
		if _, ok := st.objs[id]; !ok {
			continue
		}
		if m.objs[id] == nil {
			m.objs[id] = map[string]bool{}
		}
		for p := range ps {
			if !m.objs[id][p] {
				m.objs[id][p] = true
				run.changed = true
			}
		}
	}
	for n := range rec.gh {
		if !m.gh[n] {
			m.gh[n] = true
			run.changed = true
		}
	}
	for id := range rec.esc {
		_, isObj := st.objs[id]
		if (isObj || x.funcTab[id] != nil) && id <= next && !m.esc[id] {
			m.esc[id] = true
			run.changed = true
		}
	}
	for n, keys := range rec.mem {
		if m.mem[n] == nil {
			m.mem[n] = map[*Term]bool{}
		}
		for k := range keys {
			if k != nil && x.c.maxRef(k) > run.at {
				// a new object of this iteration
				if k.Op == "int" {
					if !m.fresh[n] {
						m.fresh[n] = true
						run.changed = true
					}
					continue
				}
				k = nil
			}
			if k != nil && !x.oldTerm(k, run) {
				k = nil
			}
			if m.mem[n][nil] {
				continue
			}
			if !m.mem[n][k] {
				m.mem[n][k] = true
				run.changed = true
			}
		}
		if len(m.mem[n]) == 0 {
			delete(m.mem, n)
		}
	}
}

// oldTerm tells whether a term only mentions values that exist before the loop.
func (x *Exec) oldTerm(k *Term, run *loopRun) bool {
	return x.c.maxSeq(k) <= run.entrySeq()
}

func (r *loopRun) entrySeq() int { return r.le.seq }

// atHeader moves st to the loop header with everything the loop may change unknown.
func (x *Exec) atHeader(st *State, f *Frame, from, to *ssa.BasicBlock, run *loopRun) {
	c := x.c
	m := run.mods
	entry := st.clone()
	ef := entry.top()
	// escape what the loop lets escape
	var escs []int64
	for id := range m.esc {
		escs = append(escs, id)
	}
	sort.Slice(escs, func(i, j int) bool { return escs[i] < escs[j] })
	for _, id := range escs {
		st.escRef(id)
	}
	for id := range m.cells {
		has := false
		for _, o := range st.cells {
			has = has || o == id
		}
		if !has {
			st.cells = append(st.cells[:len(st.cells):len(st.cells)], id)
		}
	}
	x.next += 1000
	run.at = x.next
	phis := x.headerPhis(to)
	pi := edgeIndex(from, to)
	addLoc := func(name, kind string, h, init *Term, get func(*State, *Frame) *Term) {
		run.locs = append(run.locs, &hloc{name: name, h: h, init: init, kind: kind, get: get})
	}
	// phis
	vals := make([]Value, len(phis))
	for i, p := range phis {
		p := p
		t := x.typ(f, p.Type())
		iv := x.get(entry, ef, p.Edges[pi])
		il := x.flatten(iv, t)
		if fv, ok := iv.(*FuncV); ok {
			st.escape(fv)
		}
		n := 0
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		vals[i] = x.build(t, func(l Leaf) *Term {
			k := n
			n++
			h := x.freshLeaf(st, l, "L_"+name+l.Path)
			addLoc(fmt.Sprintf("phi%d.%d", i, k), leafKind(l), h, il[k], func(s *State, g *Frame) *Term {
				return x.flatten(x.get(s, g, p.Edges[edgeIndex(g.block, to)]), t)[k]
			})
			run.locs[len(run.locs)-1].phi = true
			return h
		})
		x.wellFormed(st, vals[i])
	}
	// private objects
	var ids []int64
	for id := range m.objs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		id := id
		o, ok := st.objs[id]
		if !ok {
			continue
		}
		no := &Obj{T: o.T, Elems: o.Elems, L: make(map[string]*Term, len(o.L)+1)}
		for k, t := range o.L {
			no.L[k] = t
		}
		kinds := map[string]Leaf{}
		if o.T != nil {
			for _, l := range leaves(o.T) {
				kinds[l.Path] = l
			}
		}
		for _, p := range sortedKeys(m.objs[id]) {
			p := p
			l, known := kinds[p]
			old := no.L[p]
			if old == nil {
				if !known {
					continue
				}
				if o.Elems {
					old = c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
				} else {
					old = x.zeroLeaf(l)
				}
			}
			var h *Term
			if o.Elems || !known {
				h = x.freshTerm("L_obj"+p, old.Sort)
			} else {
				h = x.freshLeaf(st, l, "L_obj"+p)
			}
			no.L[p] = h
			kind := "arr"
			if known && !o.Elems {
				kind = leafKind(l)
			}
			addLoc(fmt.Sprintf("obj%d%s", id, p), kind, h, old, func(s *State, g *Frame) *Term {
				if so, ok := s.objs[id]; ok {
					if v := so.L[p]; v != nil {
						return v
					}
					return old
				}
				if o.T == nil {
					return nil
				}
				name := regionName(o.T, o.Elems, p)
				return c.Select(s.region(name, regSort(o.Elems, l.Sort)), c.Int(id))
			})
		}
		st.objs[id] = no
		if o.T != nil && !o.Elems && structOf(o.T) == nil {
			x.wellFormed(st, st.load(c.Int(id), o.T))
		}
	}
	// shared memory
	names := map[string]bool{}
	for n := range m.mem {
		names[n] = true
	}
	for n := range m.fresh {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		n := n
		old, ok := st.mem[n]
		if !ok {
			old = x.base[n]
		}
		if old == nil {
			continue
		}
		keys := m.mem[n]
		_, vs := arrParts(old.Sort)
		if keys[nil] {
			st.mem[n] = x.freshRegion(n, old.Sort)
			if ks, _ := arrParts(old.Sort); ks == SInt && !strings.HasPrefix(n, "chan#") {
				run.whole = append(run.whole, n)
			}
			continue
		}
		cur := old
		if m.fresh[n] && vs == SInt && !strings.HasPrefix(n, "chan#") && !strings.HasSuffix(n, "#card") && !strings.HasSuffix(n, ".len") && !strings.HasSuffix(n, ".cap") && !strings.HasSuffix(n, ".off") {
			fr := x.freshRegion(n, old.Sort)
			b := c.BVar("q_k", SInt)
			st.assume(c.Forall([]*Term{b}, c.Implies(c.Le(b, c.Int(run.at-1000)), c.Eq(c.Select(fr, b), c.Select(old, b)))))
			cur = fr
		}
		var ks []*Term
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return c.Show(ks[i]) < c.Show(ks[j]) })
		for i, k := range ks {
			k := k
			kind := "mem"
			if vs == SInt {
				kind = "int"
				if strings.HasSuffix(n, ".ref") || strings.HasSuffix(n, ".tag") || strings.HasSuffix(n, ".val") {
					kind = "ref"
				}
			} else if vs == SBool {
				kind = "bool"
			}
			h := x.freshTerm("L_"+n, vs)
			init := c.Select(cur, k)
			cur = c.Store(cur, k, h)
			if strings.HasSuffix(n, "#card") {
				st.assume(c.Le(c.Int(0), h))
			}
			addLoc(fmt.Sprintf("mem %s %d", n, i), kind, h, init, func(s *State, g *Frame) *Term {
				return c.Select(s.region(n, old.Sort), k)
			})
			run.locs[len(run.locs)-1].key = k
			run.locs[len(run.locs)-1].reg = n
		}
		st.mem[n] = cur
	}
	// ghosts
	for _, n := range sortedKeys(m.gh) {
		n := n
		t := x.u.ghostT[n]
		cur, ok := st.ghosts[n]
		if !ok || t == nil {
			continue
		}
		il := x.flatten2(cur, t)
		var nv Value
		if gt, ok := t.(*GMapT); ok {
			nv = x.gmapFresh(gt, "L_"+n)
		} else {
			nv = x.fresh(st, t, "L_"+n)
		}
		hl := x.flatten2(nv, t)
		for k := range hl {
			k := k
			kind := "arr"
			if _, ok := t.(*GMapT); !ok {
				kind = leafKind(leaves(t)[k])
			}
			addLoc(fmt.Sprintf("ghost %s.%d", n, k), kind, hl[k], il[k], func(s *State, g *Frame) *Term {
				return x.flatten2(s.ghosts[n], t)[k]
			})
		}
		st.ghosts[n] = nv
	}
	if st.now != nil {
		nn := x.freshTerm("now", SInt)
		st.assume(c.Le(st.now, nn))
		addLoc("now", "now", nn, st.now, func(s *State, g *Frame) *Term { return x.nowTerm(s) })
		st.now = nn
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	f.prev = from
	f.block = to
	f.idx = len(phis)
	if run.phase == "mods" {
		return
	}
	// candidates
	x.makeCands(st, f, entry, run)
	for _, cd := range run.cands {
		if !cd.dead {
			st.assume(x.candTerm(cd, st, f, nil, run))
		}
	}
}

func (x *Exec) flatten2(v Value, t types.Type) []*Term {
	if g, ok := v.(*GMapV); ok {
		return g.L
	}
	return x.flatten(v, t)
}

func leafKind(l Leaf) string {
	switch l.Kind {
	case "":
		switch l.Sort {
		case SInt:
			return "int"
		case SBool:
			return "bool"
		case SString:
			return "string"
		}
		return "other"
	case "len", "off", "cap":
		return "int"
	case "opaque":
		if isTimeLike(l.T) {
			return "int"
		}
	}
	return "ref"
}

// candTerm is the candidate over the state; sub maps header constants to current values.
func (x *Exec) candTerm(cd *cand, st *State, f *Frame, sub map[*Term]*Term, run *loopRun) *Term {
	if cd.tev != nil {
		return cd.tev(st, f, sub)
	}
	if cd.ev != nil {
		return cd.ev(st, f)
	}
	if sub == nil {
		return cd.t
	}
	return x.c.Subst(cd.t, sub)
}

// makeCands generates candidate invariants that hold on entry.
func (x *Exec) makeCands(st *State, f *Frame, entry *State, run *loopRun) {
	c := x.c
	want := run.want
	restricted := want != nil
	var all []*cand
	add := func(name string, t *Term) {
		if restricted && !want[name] {
			return
		}
		if t.IsTrue() {
			return
		}
		all = append(all, &cand{name: name, t: t})
	}
	var ints []*hloc
	for _, l := range run.locs {
		l := l
		add(l.name+" = init", c.Eq(l.h, l.init))
		switch l.kind {
		case "int":
			ints = append(ints, l)
			add(l.name+" >= 0", c.Le(c.Int(0), l.h))
			add(l.name+" >= -1", c.Le(c.Int(-1), l.h))
			if !l.init.isLit() || l.init.Op == "raw" {
				add(l.name+" >= init", c.Le(l.init, l.h))
				add(l.name+" <= init", c.Le(l.h, l.init))
			} else if l.init.Op == "int" && l.init.I > 0 {
				add(l.name+" >= init", c.Le(l.init, l.h))
			}
		case "string", "mem":
			if l.h.Sort == SString {
				add(l.name+" len", c.Eq(c.StrLen(l.h), c.StrLen(l.init)))
			}
		case "ref":
			add(l.name+" != 0", c.Not(c.Eq(l.h, c.Int(0))))
			if l.init.Op == "int" && isRefID(l.init.I) {
				add(l.name+" new", c.Lt(c.Int(refBase), l.h))
			}
		case "bool":
			add(l.name+" true", l.h)
			add(l.name+" false", c.Not(l.h))
		}
	}
	// relations between changing values
	n := len(run.locs)
	if n <= 60 {
		for i, a := range run.locs {
			for j := i + 1; j < n; j++ {
				b := run.locs[j]
				if a.h.Sort != b.h.Sort {
					continue
				}
				if a.kind == "arr" && b.kind == "arr" || a.kind != "int" || b.kind != "int" {
					if a.kind == "bool" && b.kind == "bool" {
						add(fmt.Sprintf("%s = %s", a.name, b.name), c.Eq(a.h, b.h))
						if n <= 24 {
							add(fmt.Sprintf("%s => %s", a.name, b.name), c.Implies(a.h, b.h))
							add(fmt.Sprintf("%s => %s", b.name, a.name), c.Implies(b.h, a.h))
							add(fmt.Sprintf("!%s or !%s", b.name, a.name), c.Or(c.Not(b.h), c.Not(a.h)))
						}
						continue
					}
					add(fmt.Sprintf("%s = %s", a.name, b.name), c.Eq(a.h, b.h))
					continue
				}
				// difference
				add(fmt.Sprintf("%s - %s = init", a.name, b.name), c.Eq(c.Sub(a.h, b.h), c.Sub(a.init, b.init)))
				if n <= 30 {
					add(fmt.Sprintf("%s + %s = init", a.name, b.name), c.Eq(c.Add(a.h, b.h), c.Add(a.init, b.init)))
					add(fmt.Sprintf("%s <= %s", a.name, b.name), c.Le(a.h, b.h))
					add(fmt.Sprintf("%s <= %s", b.name, a.name), c.Le(b.h, a.h))
				}
			}
		}
	}
	// bounds from comparisons in the body
	var cmps []*Term
	for t := range x.loopCmps(run) {
		cmps = append(cmps, t)
	}
	sort.Slice(cmps, func(i, j int) bool { return c.Show(cmps[i]) < c.Show(cmps[j]) })
	for _, t := range cmps {
		for _, l := range ints {
			add(l.name+" <= "+c.Show(t), c.Le(l.h, t))
			add(l.name+" < "+c.Show(t), c.Lt(l.h, t))
			add(l.name+" >= "+c.Show(t), c.Le(t, l.h))
			add(l.name+" = "+c.Show(t), c.Eq(l.h, t))
		}
	}
	// objects that exist from outside keep their content
	for _, n := range run.whole {
		n := n
		old := run.entry.mem[n]
		if old == nil {
			old = x.base[n]
		}
		name := "frame " + n
		if restricted && !want[name] {
			continue
		}
		cd := &cand{name: name}
		cd.ev = func(s *State, g *Frame) *Term {
			b := c.BVar("q_f", SInt)
			return c.Forall([]*Term{b}, c.Implies(c.Lt(b, c.Int(refBase)), c.Eq(c.Select(s.region(n, old.Sort), b), c.Select(old, b))))
		}
		all = append(all, cd)
	}
	for i, fl := range run.le.fills {
		x.fillCand(fl, i, run, ints, add)
	}
	// contract candidates
	for i, e := range x.u.Loops {
		name := fmt.Sprintf("user %d", i)
		if restricted && !want[name] && !strings.Contains(e.Src, "_") {
			continue
		}
		e := e
		if tn := phiTemplate(e.Src); tn != "" {
			for pi, p := range x.headerPhis(run.head) {
				switch v := f.regs[p].(type) {
				case *SliceV:
					if tn != "_s" {
						continue
					}
				case *IfaceV:
					if tn != "_e" {
						continue
					}
				case *Term:
					if tn != "_t" || v.Sort != SBool {
						continue
					}
				default:
					continue
				}
				name := fmt.Sprintf("user %d phi%d", i, pi)
				if restricted && !want[name] && !tmplInt.MatchString(e.Src) {
					continue
				}
				// together with the integers of the loop
				idx := []*ssa.Phi{nil}
				if tmplInt.MatchString(e.Src) {
					idx = nil
					for _, q := range x.headerPhis(run.head) {
						if isInt(q.Type()) {
							idx = append(idx, q)
						}
					}
				}
				for qi, q := range idx {
					p, q := p, q
					cd := &cand{name: name}
					if q != nil {
						cd.name = fmt.Sprintf("%s int%d", name, qi)
					}
					if restricted && !want[cd.name] {
						continue
					}
					cd.ev = func(s *State, g *Frame) (r *Term) {
						defer func() {
							if p := recover(); p != nil {
								if _, ok := p.(evalErr); ok {
									r = nil
									return
								}
								panic(p)
							}
						}()
						env := x.u.mkEnv(s, nil)
						env.frame = g
						env.loop = run
						env.vars[tn] = TV{g.regs[p], x.typ(g, p.Type())}
						if q != nil {
							env.vars["_i"] = TV{g.regs[q], types.Typ[types.Int]}
						}
						return env.Bool(e.E)
					}
					if cd.ev(st, f) != nil {
						all = append(all, cd)
					}
				}
			}
			continue
		}
		if strings.Contains(e.Src, "_i") || strings.Contains(e.Src, "_b") || strings.Contains(e.Src, "_r") || mapTempl.MatchString(e.Src) {
			x.templates(e, i, st, f, run, func(cd *cand) {
				if restricted && !want[cd.name] {
					return
				}
				if t := cd.tev(st, f, nil); t != nil && !t.IsTrue() {
					all = append(all, cd)
				}
			})
			continue
		}
		if restricted && !want[name] {
			continue
		}
		cd := &cand{name: name}
		cd.ev = func(s *State, g *Frame) (r *Term) {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(evalErr); ok {
						r = nil
						return
					}
					panic(p)
				}
			}()
			env := x.u.mkEnv(s, nil)
			env.frame = g
			env.loop = run
			return env.Bool(e.E)
		}
		if cd.ev(st, f) == nil {
			continue
		}
		all = append(all, cd)
	}
	// entry check
	sub := map[*Term]*Term{}
	for _, l := range run.locs {
		sub[l.h] = l.init
	}
	ef := entry.top()
	// user candidates may mention phis: evaluate them with the entry values
	ee := entry
	phis := x.headerPhis(run.head)
	pi := edgeIndex(ef.block, run.head)
	var pv []Value
	for _, p := range phis {
		pv = append(pv, x.get(ee, ef, p.Edges[pi]))
	}
	for i, p := range phis {
		ef.regs[p] = pv[i]
	}
	for _, cd := range all {
		g := x.candTerm(cd, ee, ef, sub, run)
		if g == nil {
			continue
		}
		if g.IsTrue() || ee.holds(g) {
			run.cands = append(run.cands, cd)
			continue
		}
		if g.IsFalse() {
			continue
		}
		r := Unsat
		if !restricted {
			r = Unknown
			if ee.hard {
				r = x.s.ground(ee.pc, c.Not(g), 300)
			}
			if r == Unknown {
				r = x.s.check(ee.pc, c.Not(g), x.patience(ee, 500))
			}
			if r != Unsat && strings.HasPrefix(cd.name, "user") && x.s.quantified(g) {
				if os.Getenv("GOVC_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "  user candidate %s on entry (%v): %s\n", cd.name, r, c.Show(g))
				}
				if r == Unknown {
					r = x.s.ground(ee.pc, c.Not(g), 1500)
				}
			}
		}
		if r == Unsat {
			run.cands = append(run.cands, cd)
		}
	}
}

func (x *Exec) loopCmps(run *loopRun) map[*Term]bool {
	var all []*Term
	for t := range run.le.cmp {
		if t.Sort == SInt && x.c.maxSeq(t) <= run.entrySeq() && x.noRefs(t) && !t.isLit() {
			all = append(all, t)
		}
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := x.c.Show(all[i]), x.c.Show(all[j])
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	out := map[*Term]bool{}
	for i, t := range all {
		if i < 14 {
			out[t] = true
		}
	}
	return out
}

// backEdge ends an iteration.
func (x *Exec) backEdge(st *State, f *Frame, to *ssa.BasicBlock, lc *loopCtx) {
	run := lc.run
	if lc.final {
		// functions made in the loop may be called later under an unknown identity
		if x.dry == 0 && x.pure == 0 {
			ei := edgeIndex(f.block, to)
			var fs []*FuncV
			for _, p := range x.headerPhis(to) {
				if fv, ok := x.get(st, f, p.Edges[ei]).(*FuncV); ok && fv.Fn != nil {
					n := *fv
					x.funcID(fv)
					n.ID = fv.ID
					n.T = x.typ(f, p.Type())
					fs = append(fs, &n)
				}
			}
			for _, l := range run.locs {
				if l.phi {
					continue
				}
				if v := l.get(st, f); v != nil && v.Op == "int" && v != l.init {
					if fv := x.funcTab[v.I]; fv != nil {
						fs = append(fs, fv)
					}
				}
			}
			for _, fv := range fs {
				st.escape(fv)
				x.escapeCallbacks(st, fv, fv.T, 0)
			}
		}
		st.dead = true
		return
	}
	run.backs++
	defer func() { st.dead = true }()
	if len(st.locks) != run.locks && x.u.checks("locks") {
		x.u.specError("locks", "the set of locks held changes over a loop in "+funcName(f.fn))
	}
	for _, id := range st.cells {
		found := false
		for _, o := range run.entry.cells {
			found = found || o == id
		}
		if !found && id <= run.at-1000 && !run.mods.cells[id] {
			run.mods.cells[id] = true
			run.changed = true
		}
	}
	// objects referenced by carried values become shared
	if run.phase == "mods" {
		note := func(t *Term) {
			if t == nil || x.noRefs(t) {
				return
			}
			seen := map[*Term]bool{}
			var rec func(t *Term)
			rec = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.Op == "int" && isRefID(t.I) && t.I <= run.at-1000 {
					if o, ok := run.entry.objs[t.I]; ok && o.T != nil && !run.mods.esc[t.I] {
						run.mods.esc[t.I] = true
						run.changed = true
					}
				}
				for _, a := range t.Args {
					rec(a)
				}
			}
			rec(t)
		}
		for _, l := range run.locs {
			v := l.get(st, f)
			if v == nil || v == l.h {
				continue
			}
			if v == l.init {
				continue
			}
			note(v)
			note(l.init)
			if v.Op == "int" {
				if fv := x.funcTab[v.I]; fv != nil {
					for _, b := range fv.Binds {
						if t, ok := b.(*Term); ok {
							note(t)
						}
					}
				}
			}
		}
		for t := range run.rec.cmp {
			run.le.cmp[t] = true
		}
		return
	}
	sub := map[*Term]*Term{}
	for _, l := range run.locs {
		v := l.get(st, f)
		if v == nil {
			v = x.freshTerm("lost", l.h.Sort)
		}
		sub[l.h] = v
	}
	// bind phis for user candidates
	g := *f
	g.regs = map[ssa.Value]Value{}
	for k, v := range f.regs {
		g.regs[k] = v
	}
	phis := x.headerPhis(to)
	ei := edgeIndex(f.block, to)
	for _, p := range phis {
		g.regs[p] = x.get(st, f, p.Edges[ei])
	}
	var goals []*Term
	var live []*cand
	for _, cd := range run.cands {
		if cd.dead {
			continue
		}
		t := x.candTerm(cd, st, &g, sub, run)
		if t == nil || t.IsFalse() {
			cd.dead = true
			continue
		}
		if t.Op == "=" && t.Args[0].Sort == SString && hasOp(t, "ite") {
			t = x.s.decideItes(st.pc, t)
		}
		if t.IsTrue() || st.holds(t) {
			continue
		}
		goals = append(goals, t)
		live = append(live, cd)
	}
	if len(goals) == 0 {
		return
	}
	if !x.feasible(st) {
		return
	}
	goals, live = x.refuteFast(st.pc, goals, live)
	if len(goals) == 0 {
		return
	}
	if len(goals) > 1 {
		all := x.c.Not(x.c.And(goals...))
		if x.s.groundUnsat(st.pc, all, 1000) || x.s.check(st.pc, all, 1500) == Unsat {
			return
		}
	}
	for i, t := range goals {
		ms := 700
		if strings.HasPrefix(live[i].name, "user") {
			if live[i].tev != nil {
				// one of many instances of a template, most of them meant for other values
				neg := x.c.Not(t)
				r := x.s.ground(st.pc, neg, 1500)
				if r == Unknown {
					r = x.s.check(st.pc, neg, 1500)
				}
				if r == Unknown && !st.hard {
					r, _ = x.s.prove(st.pc, t)
				}
				if r == Unsat {
					continue
				}
			} else if r, _ := x.s.prove(st.pc, t); r == Unsat {
				continue
			}
			live[i].dead = true
			if os.Getenv("GOVC_LOOP") != "" {
				fmt.Fprintf(os.Stderr, "  user candidate %s dropped: %s\n", live[i].name, x.c.Show(t))
			}
			continue
		}
		if x.s.check(st.pc, x.c.Not(t), ms) != Unsat {
			live[i].dead = true
		}
	}
}

// phiTemplate is the template over loop-carried values in a declared invariant:
// _s slices, _e interfaces, _t truth values.
func phiTemplate(src string) string {
	for _, n := range []string{"_s", "_e", "_t"} {
		if tmplRE[n].MatchString(src) {
			return n
		}
	}
	return ""
}

var tmplRE = map[string]*regexp.Regexp{
	"_s": regexp.MustCompile(`(^|[^\w])_s\b`), "_e": regexp.MustCompile(`(^|[^\w])_e\b`), "_t": regexp.MustCompile(`(^|[^\w])_t\b`),
}

// refuteFast settles candidates without quantifiers against the path condition
// without its quantified parts: what holds there holds, and a simple candidate that
// fails there is given up.
func (x *Exec) refuteFast(pc []*Term, goals []*Term, live []*cand) ([]*Term, []*cand) {
	qf := x.s.noQuant(pc)
	var gs, rest []*Term
	var ls, restL []*cand
	for i, t := range goals {
		if x.s.quantified(t) || strings.HasPrefix(live[i].name, "user") && len(qf) != len(pc) {
			rest = append(rest, t)
			restL = append(restL, live[i])
		} else {
			gs = append(gs, t)
			ls = append(ls, live[i])
		}
	}
	if len(qf) == len(pc) && len(rest) == 0 && len(gs) < 4 {
		return goals, live
	}
	for round := 0; len(gs) > 0 && round < 40; round++ {
		neg := x.c.Not(x.c.And(gs...))
		r := x.s.check(qf, neg, 1000)
		if r == Unsat {
			return rest, restL
		}
		if r != Sat {
			break
		}
		vals := x.s.model(qf, neg, gs)
		if len(vals) != len(gs) {
			break
		}
		var g2 []*Term
		var l2 []*cand
		n := 0
		for i, v := range vals {
			if v == "false" {
				n++
				ls[i].dead = true
				if os.Getenv("GOVC_LOOP") != "" && strings.HasPrefix(ls[i].name, "user") {
					fmt.Fprintf(os.Stderr, "  user candidate %s dropped: %s\n", ls[i].name, x.c.Show(gs[i]))
				}
				continue
			}
			g2 = append(g2, gs[i])
			l2 = append(l2, ls[i])
		}
		if n == 0 {
			break
		}
		gs, ls = g2, l2
	}
	return append(rest, gs...), append(restL, ls...)
}

// fillCand: an array that is filled front to back holds the stored value at every index passed.
func (x *Exec) fillCand(fl *fill, n int, run *loopRun, ints []*hloc, add func(string, *Term)) {
	c := x.c
	var target *hloc
	for _, l := range run.locs {
		if l.name == fl.reg || l.reg == fl.reg && l.key != nil && l.key == fl.key {
			target = l
		}
	}
	if target == nil {
		return
	}
	sub := map[*Term]*Term{}
	for _, o := range fl.locs {
		for _, l := range run.locs {
			if l.name == o.name && l.h.Sort == o.h.Sort {
				sub[o.h] = l.h
			}
		}
	}
	idx, val := c.Subst(fl.idx, sub), c.Subst(fl.val, sub)
	hs := map[*Term]bool{}
	for _, l := range run.locs {
		hs[l.h] = true
	}
	ok := true
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if len(t.Args) == 0 && !hs[t] && c.maxSeq(t) > run.entrySeq() {
			ok = false
		}
		if t == target.h {
			ok = false
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(idx)
	rec(val)
	if !ok {
		return
	}
	for _, l := range ints {
		if !seen[l.h] {
			continue
		}
		d := c.Sub(idx, l.h)
		has := false
		chk := map[*Term]bool{}
		var occ func(t *Term)
		occ = func(t *Term) {
			if chk[t] || has {
				return
			}
			chk[t] = true
			has = has || t == l.h
			for _, a := range t.Args {
				occ(a)
			}
		}
		occ(d)
		if has {
			continue
		}
		q := c.BVar("q_f", SInt)
		lo := c.Subst(idx, map[*Term]*Term{l.h: l.init})
		body := c.Eq(c.Select(target.h, q), c.Subst(val, map[*Term]*Term{l.h: c.Sub(q, d)}))
		add(fmt.Sprintf("fill %d %s", n, l.name), c.Forall([]*Term{q}, c.Implies(c.And(c.Le(lo, q), c.Lt(q, idx)), body)))
	}
}

var tmplInt = regexp.MustCompile(`(^|[^\w])_i\b`)

var mapTempl = regexp.MustCompile(`\b_m\b`)

// templates instantiates a declared loop invariant for every changing value:
// _i ranges over integers, _b over byte contents, _r over references.
func (x *Exec) templates(e *Expr, n int, st *State, f *Frame, run *loopRun, add func(*cand)) {
	pick := map[string]func(l *hloc) bool{
		"_i": func(l *hloc) bool { return l.kind == "int" },
		"_b": func(l *hloc) bool { return l.h.Sort == SString },
		"_r": func(l *hloc) bool { return l.kind == "ref" },
	}
	typ := map[string]types.Type{"_i": types.Typ[types.Int], "_b": types.Typ[types.String], "_r": types.Typ[types.Int]}
	var names []string
	for _, k := range sortedKeys(pick) {
		if strings.Contains(e.Src, k) {
			names = append(names, k)
		}
	}
	// _o ranges over the integers of the enclosing loops
	var outer []TV
	if strings.Contains(e.Src, "_o") {
		names = append(names, "_o")
		for v, val := range f.regs {
			p, ok := v.(*ssa.Phi)
			if !ok || p.Block() == run.head || !p.Block().Dominates(run.head) {
				continue
			}
			if t, ok := val.(*Term); ok && t.Sort == SInt && isInt(p.Type()) {
				outer = append(outer, TV{t, p.Type()})
			}
		}
	}
	// _m ranges over the maps at hand that the loop does not exchange
	var maps []TV
	if mapTempl.MatchString(e.Src) {
		names = append(names, "_m")
		seen := map[*Term]bool{}
		for v, val := range f.regs {
			if _, ok := under(x.typ(f, v.Type())).(*types.Map); !ok {
				continue
			}
			if in, ok := v.(ssa.Instruction); ok && (in.Block() == run.head || !in.Block().Dominates(run.head)) {
				continue
			}
			if t, ok := val.(*Term); ok && !seen[t] {
				seen[t] = true
				maps = append(maps, TV{t, x.typ(f, v.Type())})
			}
		}
		sort.Slice(maps, func(i, j int) bool { return x.c.Show(maps[i].V.(*Term)) < x.c.Show(maps[j].V.(*Term)) })
	}
	var rec func(k int, vars map[string]TV, label string)
	rec = func(k int, vars map[string]TV, label string) {
		if k < len(names) && names[k] == "_m" {
			for j, o := range maps {
				v := map[string]TV{"_m": o}
				for a, b := range vars {
					v[a] = b
				}
				rec(k+1, v, fmt.Sprintf("%s _m%d", label, j))
			}
			return
		}
		if k < len(names) && names[k] == "_o" {
			sort.Slice(outer, func(i, j int) bool { return x.c.Show(outer[i].V.(*Term)) < x.c.Show(outer[j].V.(*Term)) })
			for j, o := range outer {
				v := map[string]TV{"_o": o}
				for a, b := range vars {
					v[a] = b
				}
				rec(k+1, v, fmt.Sprintf("%s _o%d", label, j))
			}
			return
		}
		if k == len(names) {
			// read in the state at hand, with the values the variables have there
			add(&cand{name: label, tev: func(s *State, g *Frame, sub map[*Term]*Term) (r *Term) {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(evalErr); !ok {
							panic(p)
						}
						if os.Getenv("GOVC_LOOP") != "" {
							fmt.Fprintln(os.Stderr, "  template", label, p)
						}
						r = nil
					}
				}()
				env := x.u.mkEnv(s, nil)
				env.frame = g
				env.loop = run
				for a, b := range vars {
					if t, ok := b.V.(*Term); ok && sub != nil {
						b = TV{x.c.Subst(t, sub), b.T}
					}
					env.vars[a] = b
				}
				return env.Bool(e.E)
			}})
			return
		}
		for _, l := range run.locs {
			if !pick[names[k]](l) {
				continue
			}
			v := map[string]TV{names[k]: {l.h, typ[names[k]]}}
			for a, b := range vars {
				v[a] = b
			}
			rec(k+1, v, label+" "+l.name)
		}
	}
	rec(0, map[string]TV{}, fmt.Sprintf("user %d", n))
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
