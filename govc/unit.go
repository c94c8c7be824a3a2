package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Alt struct {
	send bool
	ch   *Term
	ct   types.Type
	val  Value
}

// Event is something the code does that contracts can talk about.
type Event struct {
	Kind    string
	Name    string
	Names   []string
	Fn      Value
	Args    []TV
	Res     []TV
	in      ssa.Instruction
	Alts    []Alt
	Default bool
	Env     map[string]TV
}

type ObRes struct {
	Label   string
	N       int
	Proved  int
	Back    map[string]int
	Fails   []*Failure
	Unknown int
}

type Failure struct {
	Label  string
	Msg    string
	Pos    string
	Trace  []string
	Model  []string
	Result string
	Goal   string
}

type Unit struct {
	UnitSpec
	visited  map[token.Pos]bool
	specs    *SpecSet
	P        *Program
	fn       *ssa.Function
	x        *Exec
	env      map[string]TV
	ghostT   map[string]types.Type
	tps      map[string]types.Type
	old      *State
	obs      map[string]*ObRes
	order    []string
	errs     []string // contract errors: unresolvable anchors etc.
	fails    int
	exits    int
	assumed  map[string]bool
	depth    int
	maxFail  int
	start    time.Time
	wall     float64
	initOnly map[string]bool
	covered  map[*Clause]bool
	reached  map[string]bool
}

func (u *Unit) checks(kind string) bool { return u.Checks[kind] }

func (u *Unit) hasRecover(st *State) bool { return false }

func (u *Unit) hasKind(kind string) bool {
	for _, cl := range u.Clauses {
		if cl.Event == kind {
			return true
		}
	}
	return false
}

func (u *Unit) active() bool { return u.x.dry == 0 && u.x.pure == 0 }

// matches tells whether a pattern matches a name; "..." matches anything.
func matchPat(pat, name string) bool {
	if pat == name {
		return true
	}
	if !strings.Contains(pat, "...") {
		return false
	}
	parts := strings.Split(pat, "...")
	if !strings.HasPrefix(name, parts[0]) {
		return false
	}
	name = name[len(parts[0]):]
	for i, p := range parts[1:] {
		if i == len(parts)-2 {
			return strings.HasSuffix(name, p)
		}
		j := strings.Index(name, p)
		if j < 0 {
			return false
		}
		name = name[j+len(p):]
	}
	return true
}

func (u *Unit) evMatch(cl *Clause, ev *Event, st *State) bool {
	if cl.Event != ev.Kind {
		return false
	}
	if strings.HasPrefix(cl.Pat, "$") {
		// identity with a value of the unit
		tv, ok := u.env[cl.Pat[1:]]
		if !ok {
			return false
		}
		if ev.Fn == nil {
			return false
		}
		a, b := u.x.fnTerm(tv.V), u.x.fnTerm(ev.Fn)
		return a != nil && a == b
	}
	if matchPat(cl.Pat, ev.Name) {
		return true
	}
	for _, n := range ev.Names {
		if matchPat(cl.Pat, n) {
			return true
		}
	}
	return false
}

func (x *Exec) fnTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *FuncV:
		return x.funcID(v)
	}
	return nil
}

// wants tells whether any clause could match the event names (cheap prefilter).
func (u *Unit) wants(kind string, names []string) bool {
	for _, cl := range u.Clauses {
		if cl.Event != kind {
			continue
		}
		if strings.HasPrefix(cl.Pat, "$") {
			return true
		}
		for _, n := range names {
			if matchPat(cl.Pat, n) {
				return true
			}
		}
	}
	return false
}

func (u *Unit) mkEnv(st *State, ev *Event) *Env {
	return &Env{x: u.x, st: st, old: u.old, vars: map[string]TV{}, ev: ev, tps: u.tps}
}

func (u *Unit) event(st *State, ev *Event) {
	if u == nil || u.x.pure > 0 || st.dead {
		return
	}
	if u.x.dry == 0 {
		switch ev.Kind {
		case "call", "send", "recv", "close", "go", "mapset", "mapdel", "panic", "lock", "unlock":
			st.step("%s %s", ev.Kind, ev.Name)
		}
	}
	for _, cl := range u.Clauses {
		if !u.evMatch(cl, ev, st) {
			continue
		}
		u.runClause(st, cl, ev)
		if st.dead {
			return
		}
	}
}

func (u *Unit) runClause(st *State, cl *Clause, ev *Event) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				u.specError(cl.Line, ee.msg)
				return
			}
			panic(r)
		}
	}()
	env := u.mkEnv(st, ev)
	for i, b := range cl.Binders {
		if b != "_" && i < len(ev.Args) {
			env.vars[b] = ev.Args[i]
		}
	}
	if len(cl.Binders) > len(ev.Args) {
		u.specError(cl.Line, fmt.Sprintf("%d binders for %d arguments of %s", len(cl.Binders), len(ev.Args), ev.Name))
		return
	}
	for i, b := range cl.Res {
		if b != "_" && i < len(ev.Res) {
			env.vars[b] = ev.Res[i]
		}
	}
	for k, v := range ev.Env {
		env.vars[k] = v
	}
	if ev.Fn != nil {
		if t := u.x.fnTerm(ev.Fn); t != nil {
			env.vars["callee"] = TV{t, types.Typ[types.Int]}
		}
	}
	x := u.x
	cond := x.c.Bool(true)
	if cl.When != nil {
		cond = env.Bool(cl.When.E)
		if cond.IsFalse() || st.holds(x.c.Not(cond)) {
			return
		}
		if !cond.IsTrue() && !st.holds(cond) {
			if x.s.check(st.pc, cond, 2000) == Unsat {
				return
			}
		} else {
			cond = x.c.Bool(true)
		}
	}
	if u.active() {
		u.covered[cl] = true
	}
	u.acts(st, env, cond, cl.Acts, ev)
}

func (u *Unit) acts(st *State, env *Env, cond *Term, acts []*Act, ev *Event) {
	x := u.x
	for _, a := range acts {
		switch a.Kind {
		case "assert":
			g := env.Bool(a.E.E)
			var in ssa.Instruction
			if ev != nil {
				in = ev.in
			}
			u.obligation(st, a.Label, a.Line+": "+a.E.Src, x.c.Implies(cond, g), in)
		case "assume":
			u.assumed[a.Line+": "+a.E.Src] = true
			st.assume(x.c.Implies(cond, env.Bool(a.E.E)))
			if st.dead {
				return
			}
		case "set":
			u.setGhost(st, env, cond, a)
		}
	}
}

func (u *Unit) setGhost(st *State, env *Env, cond *Term, a *Act) {
	x := u.x
	t, ok := u.ghostT[a.Var]
	if !ok {
		env.fail("unknown ghost %s", a.Var)
	}
	old := st.ghosts[a.Var]
	var v Value
	if a.Idx != nil {
		v = env.gmapSet(TV{old, t}, env.eval(a.Idx.E), env.eval(a.E.E)).V
	} else {
		tv := env.eval(a.E.E)
		if isUntyped(tv.T) || tv.T == untypedNil {
			tv = env.coerce(tv, t)
		} else {
			tv = env.coerce(tv, t)
		}
		v = tv.V
	}
	st.ghosts[a.Var] = x.iteValue(cond, v, old, t)
	st.escape(st.ghosts[a.Var])
	x.noteGhost(a.Var)
}

func (u *Unit) specError(at, msg string) {
	m := at + ": " + msg
	for _, e := range u.errs {
		if e == m {
			return
		}
	}
	u.errs = append(u.errs, m)
}

func (u *Unit) ob(label string) *ObRes {
	o := u.obs[label]
	if o == nil {
		o = &ObRes{Label: label, Back: map[string]int{}}
		u.obs[label] = o
		u.order = append(u.order, label)
	}
	return o
}

func (u *Unit) pos(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := u.P.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok && v.Parent() != nil {
			p = u.P.prog.Fset.Position(v.Parent().Pos())
		}
	}
	f := p.Filename
	f = strings.TrimPrefix(f, u.P.dir+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// obligation proves goal in st and records the outcome.
func (u *Unit) obligation(st *State, label, msg string, goal *Term, in ssa.Instruction) bool {
	if !u.active() {
		if u.x.dry > 0 {
			st.assume(goal)
		}
		return true
	}
	x := u.x
	if label == "" {
		label = "anon"
	}
	o := u.ob(label)
	o.N++
	if goal.IsTrue() || st.holds(goal) {
		o.Proved++
		o.Back["simplifier"]++
		return true
	}
	res, back := x.s.prove(st.pc, goal)
	if res == Unsat {
		o.Proved++
		o.Back[back]++
		st.assume(goal)
		return true
	}
	if slowDir != "" {
		os.WriteFile(fmt.Sprintf("%s/fail-%s-%d.smt2", slowDir, label, o.N), []byte("; "+msg+"\n"+x.s.script(st.pc, x.c.Not(goal))), 0o644)
	}
	f := &Failure{Label: label, Msg: msg, Pos: u.pos(in), Trace: append([]string{}, st.trace...), Result: map[Result]string{Sat: "refuted", Unknown: "undecided"}[res], Goal: x.c.Show(goal)}
	if len(f.Goal) > 2000 {
		f.Goal = f.Goal[:2000] + "…"
	}
	if res == Unknown {
		o.Unknown++
	}
	if len(st.frames) > 0 {
		var fs []string
		for _, fr := range st.frames {
			fs = append(fs, funcName(fr.fn))
		}
		f.Trace = append(f.Trace, "in "+strings.Join(fs, " > "))
	}
	if len(o.Fails) < 3 {
		f.Model = x.failModel(st, goal)
		o.Fails = append(o.Fails, f)
	}
	u.fails++
	if u.fails >= u.maxFail {
		panic(stopUnit{"too many failed obligations"})
	}
	st.assume(goal)
	return false
}

func (x *Exec) failModel(st *State, goal *Term) []string {
	// show the free constants of the goal and of the latest path conditions
	var terms []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || len(terms) > 40 {
			return
		}
		seen[t] = true
		if t.Op == "const" && !strings.HasPrefix(string(t.Sort), "(Array") {
			terms = append(terms, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(goal)
	for i := len(st.pc) - 1; i >= 0 && i > len(st.pc)-25; i-- {
		rec(st.pc[i])
	}
	vals := x.s.model(st.pc, x.c.Not(goal), terms)
	var out []string
	for i, v := range vals {
		if i < len(terms) {
			out = append(out, terms[i].Name+" = "+v)
		}
	}
	return out
}

// ---------------- guards ----------------

func guardKey(g *Guard) string { return g.Type + g.Mu }

func isPrivate(st *State, base *Term) bool {
	if base.Op != "int" {
		return false
	}
	_, ok := st.objs[base.I]
	return ok
}

// access is called on every field access through a pointer.
func (u *Unit) access(st *State, p *PtrV, write bool, in ssa.Instruction) {
	if u == nil || !u.checks("guards") || !u.active() || isPrivate(st, p.Base) {
		return
	}
	root := rootName(p.Root)
	for _, g := range u.specs.Guards {
		for _, f := range g.Fields {
			if g.Type == root && (p.Path == f || strings.HasPrefix(p.Path, f+".")) {
				ft := x_fieldType(p.Root, f)
				if _, ok := under(ft).(*types.Map); ok && !write {
					continue // reading the map reference; its contents are checked on use
				}
				u.needLock(st, g, p.Base, write, root+f, in)
			}
		}
		for _, a := range g.All {
			if a == root+p.Path {
				// any object of the type: some lock of the class must be held
				u.needLockClass(st, g, write, a, in)
			}
		}
	}
}

func x_fieldType(root types.Type, path string) types.Type {
	t := root
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		s := structOf(t)
		if s == nil {
			return types.Typ[types.Invalid]
		}
		ok := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				t = s.Field(i).Type()
				ok = true
				break
			}
		}
		if !ok {
			return types.Typ[types.Invalid]
		}
	}
	return t
}

func (u *Unit) needLock(st *State, g *Guard, base *Term, write bool, what string, in ssa.Instruction) {
	x := u.x
	var alts []*Term
	for _, l := range st.locks {
		if l.key == guardKey(g) && (l.write || !write) {
			alts = append(alts, x.c.Eq(l.base, base))
		}
	}
	w := "read"
	if write {
		w = "write"
	}
	u.obligation(st, "guarded", fmt.Sprintf("%s of %s needs lock %s", w, what, guardKey(g)), x.c.Or(alts...), in)
}

func (u *Unit) needLockClass(st *State, g *Guard, write bool, what string, in ssa.Instruction) {
	for _, l := range st.locks {
		if l.key == guardKey(g) && (l.write || !write) {
			u.obligation(st, "guarded", what, u.x.c.Bool(true), in)
			return
		}
	}
	u.obligation(st, "guarded", fmt.Sprintf("access of %s needs a lock %s", what, guardKey(g)), u.x.c.Bool(false), in)
}

// originOf finds the field a map or slice reference was loaded from.
func (x *Exec) originOf(t *Term) (string, *Term) {
	for t.Op == "ite" {
		t = t.Args[1]
	}
	if t.Op != "select" {
		return "", nil
	}
	a := t.Args[0]
	for a.Op == "store" {
		a = a.Args[0]
	}
	if a.Op == "const" {
		n := strings.Trim(a.Name, "|")
		n = strings.TrimPrefix(n, "M0.")
		if i := strings.Index(n, "!"); i > 0 {
			n = n[:i]
		}
		return n, t.Args[1]
	}
	return "", nil
}

// mapAccess checks guarded map contents.
func (u *Unit) mapAccess(st *State, m *Term, write bool, in ssa.Instruction) {
	if !u.checks("guards") || !u.active() {
		return
	}
	n, base := u.x.originOf(m)
	if n == "" {
		return
	}
	root, path, ok := strings.Cut(n, "#")
	if !ok {
		return
	}
	if isPrivate(st, base) {
		return
	}
	for _, g := range u.specs.Guards {
		if g.Type != root {
			continue
		}
		for _, f := range g.Fields {
			if f == path {
				u.needLock(st, g, base, write, root+f+" contents", in)
			}
		}
	}
}

// lockPath splits a mutex address into its guard key and base.
func (x *Exec) lockPath(p Value) (string, *Term, types.Type) {
	switch p := p.(type) {
	case *PtrV:
		if p.Elems {
			return elemRoot(p.Root) + "[]" + p.Path, p.Base, nil
		}
		return rootName(p.Root) + p.Path, p.Base, p.Root
	case *Term:
		return "mutex", p, nil
	}
	return "?", x.c.Int(0), nil
}

func (x *Exec) lockHeld(st *State, p Value, write bool) bool {
	k, b, _ := x.lockPath(p)
	for _, l := range st.locks {
		if l.key == k && l.base == b && (l.write || !write) {
			return true
		}
	}
	return false
}

func (x *Exec) doLock(st *State, p Value, write bool, in ssa.Instruction) {
	u := x.u
	k, b, root := x.lockPath(p)
	var args []TV
	if root != nil {
		args = append(args, TV{b, types.NewPointer(root)})
	} else {
		args = append(args, TV{b, types.Typ[types.Int]})
	}
	args = append(args, TV{x.c.Bool(write), types.Typ[types.Bool]})
	u.event(st, &Event{Kind: "prelock", Name: k, Args: args, in: in})
	if u.checks("locks") && u.active() {
		var same []*Term
		for _, l := range st.locks {
			if l.key == k {
				same = append(same, x.c.Not(x.c.Eq(l.base, b)))
			}
		}
		u.obligation(st, "norelock", "lock "+k+" is acquired while it may be held", x.c.And(same...), in)
		for _, l := range st.locks {
			if l.key != k {
				x.P.noteLockOrder(u, l.key, k, u.pos(in))
			} else {
				x.P.noteLockOrder(u, l.key, k, u.pos(in))
			}
		}
	}
	st.locks = append(st.locks[:len(st.locks):len(st.locks)], lockHeld{k, b, write, len(st.frames)})
	x.havocGuarded(st, k, b, root)
	u.event(st, &Event{Kind: "lock", Name: k, Args: args, in: in})
}

func (x *Exec) stableBefore(st *State) []TV {
	u := x.u
	var out []TV
	env := u.mkEnv(st, nil)
	for _, s := range u.Stable {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if ee, ok := r.(evalErr); ok {
						u.specError("stable "+s.Src, ee.msg)
						out = append(out, TV{})
						return
					}
					panic(r)
				}
			}()
			x.quiet = true
			out = append(out, env.eval(s.E))
			x.quiet = false
		}()
		x.quiet = false
	}
	return out
}

func (x *Exec) stableAfter(st *State, before []TV) {
	u := x.u
	env := u.mkEnv(st, nil)
	for i, s := range u.Stable {
		if before[i].T == nil {
			continue
		}
		x.quiet = true
		v := env.eval(s.E)
		x.quiet = false
		fa, fb := x.flatten(before[i].V, v.T), x.flatten(v.V, v.T)
		for j := range fa {
			st.assume(x.c.Eq(fa[j], fb[j]))
		}
	}
}

// havocGuarded forgets everything the lock protects.
func (x *Exec) havocGuarded(st *State, key string, base *Term, root types.Type) {
	if x.pure > 0 {
		return
	}
	if isPrivate(st, base) {
		return
	}
	before := x.stableBefore(st)
	for _, g := range x.u.specs.Guards {
		if guardKey(g) != key {
			continue
		}
		for _, f := range g.Fields {
			if root == nil {
				continue
			}
			ft := x_fieldType(root, f)
			if b, ok := ft.(*types.Basic); ok && b.Kind() == types.Invalid {
				x.u.specError("guard "+key, "no field "+f)
				continue
			}
			ptr := &PtrV{Base: base, Root: root, Path: f, T: ft}
			switch under(ft).(type) {
			case *types.Map:
				ref := st.load(ptr, ft).(*Term)
				st.havocMap(x.mapRep(ft), ref)
			case *types.Slice:
				v := x.fresh(st, ft, "h"+f)
				st.store(ptr, ft, v)
				el := under(ft).(*types.Slice).Elem()
				if !isByte(el) {
					s := v.(*SliceV)
					for _, l := range leaves(el) {
						name := regionName(el, true, l.Path)
						srt := regSort(true, l.Sort)
						st.setMem(name, s.Ref, x.c.Store(st.region(name, srt), s.Ref, x.freshTerm("h"+f, arr(SInt, l.Sort))))
					}
				}
			default:
				st.store(ptr, ft, x.fresh(st, ft, "h"+f))
			}
		}
		for _, a := range g.All {
			i := strings.LastIndex(a, ".")
			tn, path := a[:i], a[i:]
			t := x.P.lookupType(tn)
			if t == nil {
				x.u.specError("guard "+key, "no type "+tn)
				continue
			}
			ft := x_fieldType(t, path)
			for _, l := range leaves(ft) {
				name := regionName(t, false, path+l.Path)
				st.region(name, regSort(false, l.Sort))
				st.setMem(name, nil, x.freshRegion(name, regSort(false, l.Sort)))
			}
			if sl, ok := under(ft).(*types.Slice); ok {
				el := sl.Elem()
				for _, l := range leaves(el) {
					name := regionName(el, true, l.Path)
					st.setMem(name, nil, x.freshRegion(name, regSort(true, l.Sort)))
				}
			}
		}
	}
	x.stableAfter(st, before)
	if root != nil {
		x.assumeInv(st, key, base, root)
	}
}

func (x *Exec) freshRegion(name string, s Sort) *Term {
	k := x.c.Const(fmt.Sprintf("M0.%s!%d", name, x.nextHavoc()), s)
	x.noteConst(k)
	return k
}

func (x *Exec) nextHavoc() int { x.c.fresh++; return x.c.fresh }

func (x *Exec) invEnv(st *State, self string, base *Term, root types.Type) *Env {
	e := x.u.mkEnv(st, nil)
	e.vars[self] = TV{base, types.NewPointer(root)}
	return e
}

func (x *Exec) assumeInv(st *State, key string, base *Term, root types.Type) {
	for _, g := range x.u.specs.Guards {
		if guardKey(g) != key {
			continue
		}
		for _, inv := range g.Inv {
			st.assume(x.invEnv(st, inv.Self, base, root).Bool(inv.E.E))
		}
	}
}

func (x *Exec) doUnlock(st *State, p Value, write bool, in ssa.Instruction) {
	u := x.u
	k, b, root := x.lockPath(p)
	idx := -1
	for i := len(st.locks) - 1; i >= 0; i-- {
		l := st.locks[i]
		if l.key == k && l.write == write && (l.base == b || x.s.check(st.pc, x.c.Not(x.c.Eq(l.base, b)), 2000) == Unsat) {
			idx = i
			break
		}
	}
	var args []TV
	if root != nil {
		args = append(args, TV{b, types.NewPointer(root)})
	} else {
		args = append(args, TV{b, types.Typ[types.Int]})
	}
	args = append(args, TV{x.c.Bool(write), types.Typ[types.Bool]})
	u.event(st, &Event{Kind: "unlock", Name: k, Args: args, in: in})
	if idx < 0 {
		if u.checks("locks") {
			u.obligation(st, "unlock-held", "unlock of "+k+" which is not held", x.c.Bool(false), in)
		}
		return
	}
	if root != nil && u.active() && (u.checks("invariants") || x.usesInv(k)) && !isPrivate(st, b) {
		for _, g := range u.specs.Guards {
			if guardKey(g) != k {
				continue
			}
			for _, inv := range g.Inv {
				if inv.Home != "common" && !strings.Contains(u.Property, inv.Home) {
					continue
				}
				goal := x.invEnv(st, inv.Self, b, root).Bool(inv.E.E)
				u.obligation(st, inv.Label, "monitor invariant "+inv.E.Src+" at unlock", goal, in)
			}
		}
	}
	st.locks = append(append([]lockHeld{}, st.locks[:idx]...), st.locks[idx+1:]...)
}

func (x *Exec) usesInv(string) bool { return true }

// ---------------- lookups ----------------

func (P *Program) lookupType(name string) types.Type {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	pk, tn := name[:i], name[i+1:]
	for path, p := range P.byPath {
		if qual(p) == pk || path == pk {
			if o, ok := p.Scope().Lookup(tn).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

type lockEdge struct{ a, b, unit, pos string }

func (P *Program) noteLockOrder(u *Unit, a, b, pos string) {
	P.lockMu.Lock()
	defer P.lockMu.Unlock()
	k := a + " < " + b
	if _, ok := P.lockOrder[k]; !ok {
		P.lockOrder[k] = lockEdge{a, b, u.Name, pos}
	}
}

// lockCycle finds a cycle in the recorded lock order.
func (P *Program) lockCycle(self map[string]bool) []lockEdge {
	adj := map[string][]lockEdge{}
	for _, k := range sortedKeys(P.lockOrder) {
		e := P.lockOrder[k]
		if e.a == e.b && self[e.a] {
			continue
		}
		adj[e.a] = append(adj[e.a], e)
	}
	var nodes []string
	for n := range adj {
		nodes = append(nodes, n)
	}
	sort.Strings(nodes)
	for _, n := range nodes {
		var path []lockEdge
		seen := map[string]bool{}
		var dfs func(m string) bool
		dfs = func(m string) bool {
			for _, e := range adj[m] {
				if e.b == n {
					path = append(path, e)
					return true
				}
				if !seen[e.b] {
					seen[e.b] = true
					path = append(path, e)
					if dfs(e.b) {
						return true
					}
					path = path[:len(path)-1]
				}
			}
			return false
		}
		if dfs(n) {
			return path
		}
	}
	return nil
}
