package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is a heap object no other thread can reach.
type Obj struct {
	T     types.Type
	Elems bool // backing array of a slice; T is the element type
	L     map[string]*Term
}

type Deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  ssa.Instruction
}

type Frame struct {
	fn      *ssa.Function
	sub     map[string]types.Type
	regs    map[ssa.Value]Value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	defers  []Deferred
	call    ssa.Instruction // instruction in the caller waiting for the result (nil at roots)
	kind    string          // "call", "root", "defer"
	after   func(st *State, res []Value) []*State
	loops   map[*ssa.BasicBlock]*loopCtx
	results []Value
	mark    *rootInfo
	panicV  Value
	args    []Value
	unroll  map[*ssa.BasicBlock]int
}

// rootInfo describes a unit entry, a spawned thread or a callback.
type rootInfo struct {
	kind   string // unit, thread, callback, method, pure
	name   string
	sig    *types.Signature
	typ    string
	args   []Value
	argT   []types.Type
	old    *State
	ghosts map[string]Value
	onDone func(st *State, res []Value)
	locks  int
	env    map[string]TV
}

type loopCtx struct {
	final bool
	run   *loopRun
}

type lockHeld struct {
	key   string // class name
	base  *Term
	write bool
	depth int
}

type State struct {
	x         *Exec
	objs      map[int64]*Obj
	mem       map[string]*Term
	pc        []*Term
	hard      bool // feasibility was beyond the solver
	frames    []*Frame
	ghosts    map[string]Value
	locks     []lockHeld
	now       *Term
	trace     []string
	known     map[string]bool // misc facts (e.g. context done)
	ctxs      map[int64]*ctxInfo
	dead      bool
	depth     int // thread nesting
	panic_    Value
	panicKind string
	br        []*Term // branch conditions taken
	cells     []int64 // captured variables of escaped closures
}

func (x *Exec) newState() *State {
	return &State{x: x, objs: map[int64]*Obj{}, mem: map[string]*Term{}, ghosts: map[string]Value{}, known: map[string]bool{}, ctxs: map[int64]*ctxInfo{}}
}

var forks map[string]int

func (st *State) clone() *State {
	if forks != nil && len(st.frames) > 0 {
		f := st.frames[len(st.frames)-1]
		if f.block != nil && f.idx > 0 && f.idx <= len(f.block.Instrs) {
			in := f.block.Instrs[f.idx-1]
			forks[fmt.Sprint(f.fn.Prog.Fset.Position(in.Pos()), " ", in)]++
		}
	}
	n := *st
	n.objs = make(map[int64]*Obj, len(st.objs))
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.mem = make(map[string]*Term, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.br = st.br[:len(st.br):len(st.br)]
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs)+4)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		if f.loops != nil {
			g.loops = make(map[*ssa.BasicBlock]*loopCtx, len(f.loops))
			for k, v := range f.loops {
				g.loops[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.ghosts = make(map[string]Value, len(st.ghosts))
	for k, v := range st.ghosts {
		n.ghosts[k] = v
	}
	n.locks = st.locks[:len(st.locks):len(st.locks)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.known = make(map[string]bool, len(st.known))
	for k, v := range st.known {
		n.known[k] = v
	}
	n.ctxs = make(map[int64]*ctxInfo, len(st.ctxs))
	for k, v := range st.ctxs {
		n.ctxs[k] = v
	}
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if t.IsFalse() {
		st.dead = true
	}
	for i := len(st.pc) - 1; i >= 0 && i >= len(st.pc)-40; i-- {
		if st.pc[i] == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

// holds is a cheap syntactic check.
func (st *State) holds(t *Term) bool {
	if t.IsTrue() {
		return true
	}
	for i := len(st.pc) - 1; i >= 0; i-- {
		if st.pc[i] == t {
			return true
		}
	}
	return false
}

func (st *State) step(format string, a ...any) {
	st.trace = append(st.trace, fmt.Sprintf(format, a...))
}

// ---------------- memory ----------------

func regionName(root types.Type, elems bool, path string) string {
	if elems {
		return "[]" + elemRoot(root) + "#" + path
	}
	return rootName(root) + "#" + path
}

func elemRoot(t types.Type) string {
	t = types.Unalias(t)
	if isTParam(t) {
		return "$"
	}
	if _, ok := t.(*types.Named); ok {
		return typeName(t)
	}
	return strings.ReplaceAll(typeName(t), "$", "")
}

func (st *State) region(name string, s Sort) *Term {
	if t, ok := st.mem[name]; ok {
		if t.Sort != s {
			panic("region sort " + name + " " + string(t.Sort) + " vs " + string(s))
		}
		return t
	}
	x := st.x
	if t, ok := x.base[name]; ok {
		return t
	}
	t := x.c.Const("M0."+name, s)
	x.c.bnd[t] = refBase
	x.c.seqOf[t] = 0
	x.base[name] = t
	return t
}

func regSort(elems bool, s Sort) Sort {
	if elems {
		return arr(SInt, arr(SInt, s))
	}
	return arr(SInt, s)
}

// escTerm makes every private object mentioned in t public.
func (st *State) escTerm(t *Term) {
	if t.Sort != SInt && !strings.HasPrefix(string(t.Sort), "(Array") {
		if len(t.Args) == 0 {
			return
		}
	}
	if st.x.noRefs(t) {
		return
	}
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "int" {
			if isRefID(t.I) {
				st.escRef(t.I)
			}
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// noRefs caches whether a term mentions fresh object ids.
func (x *Exec) noRefs(t *Term) bool {
	if t.Op == "int" {
		return !isRefID(t.I)
	}
	if len(t.Args) == 0 {
		return true
	}
	if r, ok := x.norefs[t]; ok {
		return r
	}
	r := true
	for _, a := range t.Args {
		if !x.noRefs(a) {
			r = false
			break
		}
	}
	x.norefs[t] = r
	return r
}

func (st *State) escRef(id int64) {
	x := st.x
	if o, ok := st.objs[id]; ok {
		if o.T == nil {
			return
		}
		x.noteEsc(id)
		delete(st.objs, id)
		ref := x.c.Int(id)
		var ls []Leaf
		ls = leaves(o.T)
		for _, l := range ls {
			v := o.L[l.Path]
			name := regionName(o.T, o.Elems, l.Path)
			s := regSort(o.Elems, l.Sort)
			if v == nil {
				if o.Elems {
					v = x.c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
				} else {
					v = x.zeroLeaf(l)
				}
			}
			st.mem[name] = x.c.Store(st.region(name, s), ref, v)
			st.escTerm(v)
		}
		return
	}
	if f, ok := x.funcTab[id]; ok {
		if !st.known[fmt.Sprintf("escf%d", id)] {
			st.known[fmt.Sprintf("escf%d", id)] = true
			st.noteEscapedClosure(f)
			for _, b := range f.Binds {
				st.escape(b)
			}
			for _, b := range f.Data {
				st.escape(b)
			}
			if f.Has {
				st.escape(f.Recv)
			}
		}
		return
	}
	if p, ok := x.ptrTab[id]; ok {
		st.escTerm(p.Base)
	}
}

// escape makes everything reachable from v public.
func (st *State) escape(v Value) {
	switch v := v.(type) {
	case *Term:
		st.escTerm(v)
	case *IfaceV:
		st.escTerm(v.Val)
	case *SliceV:
		st.escTerm(v.Ref)
	case *StructV:
		for _, f := range v.F {
			st.escape(f)
		}
	case *TupleV:
		for _, f := range v.E {
			st.escape(f)
		}
	case *PtrV:
		st.escTerm(v.Base)
	case *FuncV:
		st.noteEscapedClosure(v)
		for _, b := range v.Binds {
			st.escape(b)
		}
		for _, b := range v.Data {
			st.escape(b)
		}
		if v.Has {
			st.escape(v.Recv)
		}
	case *InvokeV:
		st.escape(v.Recv)
	case *GMapV:
		for _, t := range v.L {
			st.escTerm(t)
		}
	case *ArrV:
		for _, t := range v.L {
			st.escTerm(t)
		}
	}
}

// alloc makes a private object of type t with zero value.
func (st *State) alloc(t types.Type) *Term {
	id := st.x.newRef()
	st.objs[id] = &Obj{T: t, L: map[string]*Term{}}
	return st.x.c.Int(id)
}

func (st *State) allocElems(elem types.Type) *Term {
	id := st.x.newRef()
	st.objs[id] = &Obj{T: elem, Elems: true, L: map[string]*Term{}}
	return st.x.c.Int(id)
}

// loadLeaf reads one leaf of an object.
func (st *State) loadLeaf(root types.Type, elems bool, base, idx *Term, l Leaf) *Term {
	x := st.x
	if base.Op == "ite" && !x.noRefs(base) {
		return x.c.Ite(base.Args[0], st.loadLeaf(root, elems, base.Args[1], idx, l), st.loadLeaf(root, elems, base.Args[2], idx, l))
	}
	if base.Op == "int" {
		if o, ok := st.objs[base.I]; ok {
			v := o.L[l.Path]
			if v == nil {
				if elems {
					v = x.c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
				} else {
					v = x.zeroLeaf(l)
				}
			}
			if elems {
				r := x.c.Select(v, idx)
				if r.Op == "select" || r.Op == "ite" {
					st.escTerm(r)
				}
				return r
			}
			return v
		}
	}
	name := regionName(root, elems, l.Path)
	r := x.c.Select(st.region(name, regSort(elems, l.Sort)), base)
	if elems {
		r = x.c.Select(r, idx)
	}
	return r
}

func (st *State) storeLeaf(root types.Type, elems bool, base, idx *Term, l Leaf, v *Term) {
	x := st.x
	if v.Sort != l.Sort {
		panic(fmt.Sprintf("storeLeaf %s %s: %s into %s", rootName(root), l.Path, v.Sort, l.Sort))
	}
	if base.Op == "ite" && !x.noRefs(base) {
		st.escTerm(base)
	}
	if base.Op == "int" {
		if o, ok := st.objs[base.I]; ok {
			n := &Obj{T: o.T, Elems: o.Elems, L: make(map[string]*Term, len(o.L)+1)}
			for k, t := range o.L {
				n.L[k] = t
			}
			if elems {
				old := n.L[l.Path]
				if old == nil {
					old = x.c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
				}
				if !idx.isLit() {
					st.escTerm(v)
				}
				n.L[l.Path] = x.c.Store(old, idx, v)
				x.noteObj(base.I, l.Path, idx)
				x.noteFill(fmt.Sprintf("obj%d%s", base.I, l.Path), nil, idx, v)
			} else {
				n.L[l.Path] = v
				x.noteObj(base.I, l.Path, nil)
			}
			st.objs[base.I] = n
			return
		}
	}
	name := regionName(root, elems, l.Path)
	s := regSort(elems, l.Sort)
	m := st.region(name, s)
	st.escTerm(v)
	m = st.region(name, s)
	if elems {
		x.noteFill(name, base, idx, v)
		st.setMem(name, base, x.c.Store(m, base, x.c.Store(x.c.Select(m, base), idx, v)))
	} else {
		st.setMem(name, base, x.c.Store(m, base, v))
	}
}

func (st *State) setMem(name string, key *Term, v *Term) {
	st.mem[name] = v
	st.x.noteMem(name, key)
}

// place is a resolved memory location.
type place struct {
	root  types.Type
	elems bool
	base  *Term
	idx   *Term
	path  string
	t     types.Type
}

func (x *Exec) place(p Value, elemT types.Type) place {
	switch p := p.(type) {
	case *PtrV:
		return place{p.Root, p.Elems, p.Base, p.Idx, p.Path, p.T}
	case *Term:
		if p.Op == "int" {
			if q, ok := x.ptrTab[p.I]; ok {
				return x.place(q, elemT)
			}
		}
		if a, ok := under(elemT).(*types.Array); ok && !isOpaque(elemT) {
			return place{a.Elem(), true, p, nil, "", elemT}
		}
		return place{elemT, false, p, nil, "", elemT}
	}
	panic(fmt.Sprintf("place of %T", p))
}

func (st *State) load(p Value, t types.Type) Value {
	x := st.x
	pl := x.place(p, t)
	if pl.elems && pl.idx == nil {
		return st.loadArr(pl, t)
	}
	var terms []*Term
	var ls []Leaf
	v := x.build(t, func(l Leaf) *Term {
		full := l
		full.Path = pl.path + l.Path
		r := st.loadLeaf(pl.root, pl.elems, pl.base, pl.idx, full)
		terms = append(terms, r)
		ls = append(ls, l)
		return r
	})
	if !x.quiet {
		for i, r := range terms {
			if r.Op == "select" || r.Op == "app" {
				x.leafFacts(st, ls[i], r)
			}
		}
		x.wellFormedLoaded(st, v)
	}
	return v
}

func (x *Exec) wellFormedLoaded(st *State, v Value) {
	switch v := v.(type) {
	case *SliceV:
		if v.Len.Op == "select" {
			x.wellFormed(st, v)
		}
	case *IfaceV:
		if v.Tag.Op == "select" {
			x.wellFormed(st, v)
		}
	case *StructV:
		for _, f := range v.F {
			x.wellFormedLoaded(st, f)
		}
	}
}

func (st *State) loadArr(pl place, t types.Type) Value {
	x := st.x
	at := under(t).(*types.Array)
	a := &ArrV{T: t, L: map[string]*Term{}}
	for _, l := range leaves(at.Elem()) {
		if pl.base.Op == "int" {
			if o, ok := st.objs[pl.base.I]; ok {
				v := o.L[l.Path]
				if v == nil {
					v = x.c.ConstArr(arr(SInt, l.Sort), x.zeroLeaf(l))
				}
				a.L[l.Path] = v
				continue
			}
		}
		name := regionName(pl.root, true, l.Path)
		a.L[l.Path] = x.c.Select(st.region(name, regSort(true, l.Sort)), pl.base)
	}
	return a
}

func (st *State) store(p Value, t types.Type, v Value) {
	x := st.x
	pl := x.place(p, t)
	if pl.elems && pl.idx == nil {
		at := under(t).(*types.Array)
		fl := x.flatten(v, t)
		ls := leaves(at.Elem())
		k := 0
		for i := int64(0); i < at.Len(); i++ {
			for _, l := range ls {
				st.storeLeaf(pl.root, true, pl.base, x.c.Int(i), l, fl[k])
				k++
			}
		}
		return
	}
	fl := x.flatten(v, t)
	for i, l := range leaves(t) {
		l.Path = pl.path + l.Path
		st.storeLeaf(pl.root, pl.elems, pl.base, pl.idx, l, fl[i])
	}
}

// fieldPtr is &p.f
func (x *Exec) fieldPtr(p Value, st types.Type, i int) Value {
	f := structOf(st).Field(i)
	switch p := p.(type) {
	case *PtrV:
		return &PtrV{Base: p.Base, Root: p.Root, Elems: p.Elems, Idx: p.Idx, Path: p.Path + "." + f.Name(), T: f.Type()}
	case *Term:
		if p.Op == "int" {
			if q, ok := x.ptrTab[p.I]; ok {
				return x.fieldPtr(q, st, i)
			}
		}
		return &PtrV{Base: p, Root: st, Path: "." + f.Name(), T: f.Type()}
	}
	panic(fmt.Sprintf("fieldPtr of %T", p))
}

func ptrNil(x *Exec, p Value) *Term {
	switch p := p.(type) {
	case *PtrV:
		return x.c.Bool(false)
	case *FuncV:
		return x.c.Bool(false)
	case *Term:
		return x.c.Eq(p, x.c.Int(0))
	case *SliceV:
		return x.c.Eq(p.Ref, x.c.Int(0))
	case *IfaceV:
		return x.c.Eq(p.Tag, x.c.Int(0))
	}
	panic(fmt.Sprintf("ptrNil %T", p))
}

// ---------------- maps ----------------

type mapRep struct {
	name string
	key  Sort
	kt   types.Type
	et   types.Type
	ls   []Leaf
}

func (x *Exec) mapRep(t types.Type) mapRep {
	m := under(t).(*types.Map)
	kl := leaves(m.Key())
	ks := SInt
	if len(kl) == 1 {
		ks = kl[0].Sort
	}
	return mapRep{"map[" + elemRoot(m.Key()) + "]" + elemRoot(m.Elem()), ks, m.Key(), m.Elem(), leaves(m.Elem())}
}

func (x *Exec) mapKey(m mapRep, k Value) *Term {
	fl := x.flatten(k, m.kt)
	if len(fl) == 1 {
		return fl[0]
	}
	if i, ok := k.(*IfaceV); ok {
		return x.c.App("ifacekey", SInt, i.Tag, i.Val)
	}
	return x.c.App("box$"+typeKey(m.kt), SInt, fl...)
}

func (st *State) mapDom(m mapRep) *Term {
	return st.region(m.name+"#dom", arr(SInt, arr(m.key, SBool)))
}
func (st *State) mapCard(m mapRep) *Term {
	return st.region(m.name+"#card", arr(SInt, SInt))
}
func (st *State) mapVal(m mapRep, l Leaf) *Term {
	return st.region(m.name+"#val"+l.Path, arr(SInt, arr(m.key, l.Sort)))
}

func (st *State) mapHas(m mapRep, ref, k *Term) *Term {
	c := st.x.c
	return c.And(c.Not(c.Eq(ref, c.Int(0))), c.Select(c.Select(st.mapDom(m), ref), k))
}

func (st *State) mapGet(m mapRep, ref, k *Term) (Value, *Term) {
	x := st.x
	c := x.c
	has := st.mapHas(m, ref, k)
	v := x.build(m.et, func(l Leaf) *Term {
		r := c.Select(c.Select(st.mapVal(m, l), ref), k)
		return c.Ite(has, r, x.zeroLeaf(l))
	})
	if !x.quiet {
		fl := x.flatten(v, m.et)
		for i, l := range m.ls {
			x.leafFacts(st, l, fl[i])
		}
		x.wellFormed(st, v)
	}
	return v, has
}

func (st *State) mapSet(m mapRep, ref, k *Term, v Value) {
	x := st.x
	c := x.c
	st.escape(v)
	fl := x.flatten(v, m.et)
	dom := st.mapDom(m)
	inner := c.Select(dom, ref)
	had := c.Select(inner, k)
	card := st.mapCard(m)
	st.setMem(m.name+"#card", ref, c.Store(card, ref, c.Add(c.Select(card, ref), c.Ite(had, c.Int(0), c.Int(1)))))
	st.setMem(m.name+"#dom", ref, c.Store(dom, ref, c.Store(inner, k, c.Bool(true))))
	for i, l := range m.ls {
		a := st.mapVal(m, l)
		st.setMem(m.name+"#val"+l.Path, ref, c.Store(a, ref, c.Store(c.Select(a, ref), k, fl[i])))
	}
}

func (st *State) mapDelete(m mapRep, ref, k *Term) {
	c := st.x.c
	dom := st.mapDom(m)
	inner := c.Select(dom, ref)
	had := c.Select(inner, k)
	card := st.mapCard(m)
	st.setMem(m.name+"#card", ref, c.Store(card, ref, c.Add(c.Select(card, ref), c.Ite(had, c.Int(-1), c.Int(0)))))
	st.setMem(m.name+"#dom", ref, c.Store(dom, ref, c.Store(inner, k, c.Bool(false))))
}

// mapLen is the number of entries, with the facts that tie it to the domain.
func (st *State) mapLen(m mapRep, ref *Term) *Term {
	c := st.x.c
	n := c.Ite(c.Eq(ref, c.Int(0)), c.Int(0), c.Select(st.mapCard(m), ref))
	if n.isLit() {
		return n
	}
	st.assume(c.Le(c.Int(0), n))
	k := c.BVar("k?", m.key)
	dom := c.Select(st.mapDom(m), ref)
	in := c.Select(dom, k)
	// card = 0 iff empty
	st.assume(c.Implies(c.Eq(c.Select(st.mapCard(m), ref), c.Int(0)), c.Forall([]*Term{k}, c.Not(in))))
	w := c.App("mapwit$"+m.name, m.key, dom)
	st.assume(c.Implies(c.Lt(c.Int(0), c.Select(st.mapCard(m), ref)), c.Select(dom, w)))
	return n
}

func (st *State) mapInitEmpty(m mapRep, ref *Term) {
	c := st.x.c
	st.mem[m.name+"#card"] = c.Store(st.mapCard(m), ref, c.Int(0))
	st.mem[m.name+"#dom"] = c.Store(st.mapDom(m), ref, c.ConstArr(arr(m.key, SBool), c.Bool(false)))
}

// havocMap forgets the contents of one map.
func (st *State) havocMap(m mapRep, ref *Term) {
	x := st.x
	c := x.c
	d := x.freshTerm("dom", arr(m.key, SBool))
	n := x.freshTerm("card", SInt)
	st.setMem(m.name+"#dom", ref, c.Store(st.mapDom(m), ref, d))
	st.setMem(m.name+"#card", ref, c.Store(st.mapCard(m), ref, n))
	st.assume(c.Le(c.Int(0), n))
	for _, l := range m.ls {
		a := st.mapVal(m, l)
		v := x.freshTerm("val"+l.Path, arr(m.key, l.Sort))
		st.setMem(m.name+"#val"+l.Path, ref, c.Store(a, ref, v))
	}
}

func (x *Exec) freshTerm(hint string, s Sort) *Term {
	k := x.c.Fresh(hint, s)
	x.noteConst(k)
	return k
}

// ---------------- byte strings ----------------

func (st *State) bytesRegion() *Term { return st.region("bytes", arr(SInt, SString)) }

// bytesOf is the content of a byte slice as a string.
func (st *State) bytesOf(s *SliceV) *Term {
	x := st.x
	c := x.c
	if s.Ref.Op == "int" && s.Ref.I == 0 {
		return c.Str("")
	}
	if s.Ref.Op == "ite" {
		a := &SliceV{s.Ref.Args[1], s.Off, s.Len, s.Cap}
		b := &SliceV{s.Ref.Args[2], s.Off, s.Len, s.Cap}
		return c.Ite(s.Ref.Args[0], st.bytesOf(a), st.bytesOf(b))
	}
	whole := c.Select(st.bytesRegion(), s.Ref)
	if whole.Op == "str.++" && s.Off.Op == "int" {
		// prefix of a concatenation with matching length
		acc := c.Int(0)
		if s.Off.I == 0 {
			for i, p := range whole.Args {
				acc = c.Add(acc, c.StrLen(p))
				if acc == s.Len {
					return c.Concat(whole.Args[:i+1]...)
				}
			}
		}
	}
	return c.Substr(whole, s.Off, s.Len)
}

func (st *State) newBytes(content *Term) *SliceV {
	x := st.x
	c := x.c
	id := c.Int(x.newRef())
	st.mem["bytes"] = c.Store(st.bytesRegion(), id, content)
	n := c.StrLen(content)
	return &SliceV{id, c.Int(0), n, n}
}

// ---------------- misc ----------------

func (st *State) memNames() []string {
	ks := make([]string, 0, len(st.mem))
	for k := range st.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
