package main

import (
	"fmt"
	"go/types"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// runUnit discharges all obligations of one unit.
func runUnit(P *Program, specs *SpecSet, us *UnitSpec, stats *SolverStats) (u *Unit) {
	u = &Unit{UnitSpec: *us, specs: specs, P: P, env: map[string]TV{}, ghostT: map[string]types.Type{}, tps: map[string]types.Type{},
		obs: map[string]*ObRes{}, assumed: map[string]bool{}, covered: map[*Clause]bool{}, reached: map[string]bool{}, initOnly: map[string]bool{}, maxFail: 8, start: time.Now()}
	for _, n := range specs.InitOnly {
		u.initOnly[n] = true
	}
	x := newExec(P, u, stats)
	u.x = x
	x.start = time.Now()
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case stopUnit:
				u.specError(us.Line, r.msg)
			case evalErr:
				u.specError(us.Line, r.msg)
			default:
				u.specError(us.Line, fmt.Sprintf("engine: %v", r))
				if debugOn() {
					rdebug.PrintStack()
				}
			}
		}
		x.s.close()
		u.wall = time.Since(u.start).Seconds()
	}()
	if us.Lemma != nil {
		u.runLemma()
		return u
	}
	u.runFunc()
	return u
}

func debugOn() bool { return debugFlag }

var debugFlag bool

func (u *Unit) axioms(st *State) {
	env := u.mkEnv(st, nil)
	for _, a := range u.specs.Axioms {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(evalErr); !ok {
						panic(r)
					}
				}
			}()
			if u.usesAxiom(a) {
				st.assume(env.Bool(a.E))
			}
		}()
	}
}

// usesAxiom: an axiom is used when the unit mentions one of its uninterpreted functions.
func (u *Unit) usesAxiom(a *Expr) bool {
	for n := range u.specs.Uninterp {
		if strings.Contains(a.Src, n+"(") && u.mentions(n, map[string]bool{}) {
			return true
		}
	}
	return false
}

func (u *Unit) mentions(n string, seen map[string]bool) bool {
	var srcs []string
	add := func(es ...*Expr) {
		for _, e := range es {
			if e != nil {
				srcs = append(srcs, e.Src)
			}
		}
	}
	add(u.Requires...)
	add(u.Assumes...)
	add(u.Stable...)
	add(u.Loops...)
	add(u.Lemma)
	for _, a := range u.Ensures {
		add(a.E)
	}
	for _, c := range u.Clauses {
		add(c.When)
		for _, a := range c.Acts {
			add(a.E, a.Idx)
		}
	}
	for _, g := range u.Ghosts {
		add(g.Init)
	}
	for _, s := range srcs {
		if strings.Contains(s, n+"(") {
			return true
		}
		for m, mc := range u.specs.Macros {
			if !seen[m] && strings.Contains(s, m) {
				seen[m] = true
				if strings.Contains(mc.E.Src, n+"(") {
					return true
				}
			}
		}
	}
	return false
}

func (u *Unit) newState() *State {
	x := u.x
	st := x.newState()
	x.initPackages(st)
	return st
}

func (u *Unit) runLemma() {
	x := u.x
	st := u.newState()
	for _, v := range u.LemmaVars {
		n, t, _ := strings.Cut(v, " ")
		env := u.mkEnv(st, nil)
		ty := env.typStr(strings.TrimSpace(t))
		if ty == nil {
			u.specError(u.Line, "unknown type "+t)
			return
		}
		u.env[n] = TV{x.fresh(st, ty, n), ty}
	}
	u.axioms(st)
	env := u.mkEnv(st, nil)
	for _, r := range u.Requires {
		st.assume(env.Bool(r.E))
	}
	for _, r := range u.Assumes {
		u.assumed[r.Src] = true
		st.assume(env.Bool(r.E))
	}
	if st.dead || x.s.check(st.pc, nil, 3000) == Unsat {
		u.specError(u.Line, "lemma hypotheses are contradictory")
		return
	}
	u.exits++
	u.obligation(st, "lemma", u.Lemma.Src, env.Bool(u.Lemma.E), nil)
}

func (u *Unit) resolve() *ssa.Function {
	for _, n := range strings.Split(u.Func, "|") {
		n = strings.TrimSpace(n)
		if f := u.P.funcs[n]; f != nil && f.Blocks != nil {
			return f
		}
	}
	return nil
}

func (u *Unit) runFunc() {
	x := u.x
	u.fn = u.resolve()
	if u.fn == nil {
		u.specError(u.Line, "function "+u.Func+" not found")
		return
	}
	fn := u.fn
	st := u.newState()
	for f := fn; f != nil; f = f.Parent() {
		tp := f.TypeParams()
		for i := 0; i < tp.Len(); i++ {
			u.tps[tp.At(i).Obj().Name()] = tp.At(i)
		}
		if r := f.Signature.Recv(); r != nil {
			if n, ok := types.Unalias(derefType(r.Type())).(*types.Named); ok {
				for i := 0; i < n.TypeArgs().Len(); i++ {
					if t, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
						u.tps[t.Obj().Name()] = t
					}
				}
			}
		}
	}
	fv := &FuncV{Fn: fn, T: fn.Signature}
	var args []Value
	var tvs []TV
	for i, p := range fn.Params {
		t := p.Type()
		v := x.fresh(st, t, p.Name())
		fl := x.flatten(v, t)
		for k, l := range leaves(t) {
			if l.Kind == "ref" && k < len(fl) && !fl[k].isLit() {
				st.assume(x.c.Lt(fl[k], x.c.Int(refBase)))
			}
		}
		if i == 0 && fn.Signature.Recv() != nil {
			if k, ok := v.(*Term); ok && k.Sort == SInt && ptrLike(t) {
				st.assume(x.c.Lt(x.c.Int(0), k))
			}
		}
		args = append(args, v)
		tvs = append(tvs, TV{v, t})
		u.env[p.Name()] = TV{v, t}
		u.env[fmt.Sprintf("arg%d", i)] = TV{v, t}
	}
	if fn.Signature.Recv() != nil && len(tvs) > 0 {
		u.env["self"] = tvs[0]
	}
	for _, v := range fn.FreeVars {
		t := v.Type()
		p := x.fresh(st, t, v.Name())
		if k, ok := p.(*Term); ok && ptrLike(t) {
			st.assume(x.c.Lt(x.c.Int(0), k))
		}
		fv.Binds = append(fv.Binds, p)
		u.env["fv_"+v.Name()] = TV{p, t}
	}
	for _, g := range u.Ghosts {
		env := u.mkEnv(st, nil)
		t := env.typStr(g.Type)
		if t == nil {
			u.specError(g.Line, "unknown type "+g.Type)
			return
		}
		u.ghostT[g.Name] = t
		any := g.Init != nil && g.Init.Src == "any"
		if gt, ok := t.(*GMapT); ok && any {
			st.ghosts[g.Name] = x.gmapFresh(gt, "any"+g.Name)
		} else if ok {
			st.ghosts[g.Name] = x.gmapZero(gt)
		} else if any {
			st.ghosts[g.Name] = x.fresh(st, t, "any"+g.Name)
		} else {
			st.ghosts[g.Name] = x.zero(t)
		}
	}
	u.axioms(st)
	env := u.mkEnv(st, nil)
	for _, r := range u.Requires {
		st.assume(env.Bool(r.E))
	}
	for _, r := range u.Assumes {
		u.assumed[r.Src] = true
		st.assume(env.Bool(r.E))
	}
	for _, g := range u.Ghosts {
		if g.Init != nil && g.Init.Src == "any" {
			continue
		}
		if g.Init != nil {
			v := env.coerce(env.eval(g.Init.E), u.ghostT[g.Name])
			st.ghosts[g.Name] = v.V
		}
	}
	if st.dead || x.s.check(st.pc, nil, 3000) == Unsat {
		u.specError(u.Line, "precondition is contradictory")
		return
	}
	u.old = st.clone()
	if fn.Synthetic == "package initializer" {
		for _, m := range sortedKeys(fn.Pkg.Members) {
			if g, is := fn.Pkg.Members[m].(*ssa.Global); is {
				t := derefType(g.Type())
				st.store(x.globalAddr(st, g), t, x.zero(t))
			}
		}
	}
	fr := x.newFrame(st, fv, fn, args)
	fr.kind = "root"
	fr.mark = &rootInfo{kind: "unit", name: u.Func}
	fr.after = func(s *State, res []Value) []*State {
		u.exit(s, res, tvs)
		return nil
	}
	st.frames = []*Frame{fr}
	u.event(st, &Event{Kind: "enter", Name: "unit " + u.Func, Names: []string{"unit"}, Args: tvs})
	x.runAll([]*State{st})
	if u.exits == 0 && u.Flags["endless"] == "" {
		u.specError(u.Line, "no path of "+u.Func+" reaches its end")
	}
	for _, cl := range u.Clauses {
		if !cl.Opt && !u.covered[cl] {
			u.specError(cl.Line, "clause on "+cl.Event+" "+cl.Pat+" never applies")
		}
	}
}

func (u *Unit) exit(st *State, res []Value, tvs []TV) {
	x := u.x
	if st.dead || !x.feasible(st) {
		return
	}
	u.exits++
	env := u.mkEnv(st, nil)
	sig := u.fn.Signature
	var rts []TV
	for i, r := range res {
		tv := TV{r, sig.Results().At(i).Type()}
		rts = append(rts, tv)
		env.vars[fmt.Sprintf("result%d", i)] = tv
		if len(res) == 1 {
			env.vars["result"] = tv
		}
		if n := sig.Results().At(i).Name(); n != "" && n != "_" {
			env.vars[n] = tv
		}
	}
	u.event(st, &Event{Kind: "exit", Name: "unit " + u.Func, Names: []string{"unit"}, Args: tvs, Res: rts})
	if st.dead {
		return
	}
	for _, a := range u.Ensures {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if ee, ok := r.(evalErr); ok {
						u.specError("ensures "+a.Label, ee.msg)
						return
					}
					panic(r)
				}
			}()
			u.obligation(st, a.Label, "postcondition "+a.E.Src, env.Bool(a.E.E), nil)
		}()
	}
	u.checkLocksAtExit(st)
	if fl := u.Flags["explore"]; fl != "" {
		for _, n := range strings.Fields(fl) {
			tv, ok := env.vars[n]
			if !ok {
				if t, is := u.ghostT[n]; is {
					tv, ok = TV{st.ghosts[n], t}, true // where the ghost is still empty there is nothing to explore
				}
			}
			if !ok {
				u.specError(u.Line, "no value "+n)
				continue
			}
			if fv, ok := tv.V.(*FuncV); ok && fv.Fn != nil {
				s := st.clone()
				s.depth++
				s.escape(fv)
				x.root(s, fv, nil, "callback", n, nil)
			} else if iv, ok := tv.V.(*IfaceV); ok && x.moduleDyn(iv) {
				x.exploreMethods(st, iv, tv.T, n)
			}
		}
	}
}

// exploreMethods runs every method of a returned module object.
func (x *Exec) exploreMethods(st *State, v *IfaceV, t types.Type, name string) {
	it, ok := under(t).(*types.Interface)
	if !ok {
		return
	}
	dt := x.dynType(v)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		s := st.clone()
		fn, pre, ok := x.methodOf(s, dt, x.unIface(s, v, dt), m.Name(), m.Pkg())
		if fv, is := fn.(*FuncV); ok && is {
			s.depth++
			s.escape(fv)
			for _, p := range pre {
				s.escape(p)
			}
			x.root(s, fv, pre, "callback", name+"."+m.Name(), nil)
		}
	}
}

// ---------------- package initialisation ----------------

// initPackages executes the initialisers of the module's packages.
func (x *Exec) initPackages(st *State) {
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	byT := map[*types.Package]*ssa.Package{}
	for _, sp := range x.P.spkgs {
		byT[sp.Pkg] = sp
	}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if sp := byT[p]; sp != nil && inModule(p) {
			order = append(order, sp)
		}
	}
	var root *types.Package
	if x.u.fn != nil {
		root = fnPkg(x.u.fn)
	}
	if root != nil {
		visit(root)
	} else {
		for _, sp := range x.P.spkgs {
			visit(sp.Pkg)
		}
	}
	for _, sp := range order {
		if generated(sp) || x.u.fn != nil && sp.Func("init") == x.u.fn {
			continue
		}
		x.initPackage(st, sp)
	}
}

func generated(sp *ssa.Package) bool {
	for n := range sp.Members {
		if strings.HasPrefix(n, "file_") {
			return true
		}
	}
	p := sp.Pkg.Path()
	return strings.Contains(p, "/testutils") || strings.Contains(p, "/examples") || sp.Pkg.Name() == "main" || strings.HasSuffix(p, "/logger")
}

func (x *Exec) initPackage(st *State, sp *ssa.Package) {
	fn := sp.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	base := st.clone()
	ok := false
	var out *State
	n := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, is := r.(stopUnit); is {
					panic(s)
				}
				x.problem("initialiser of %s: %v", sp.Pkg.Path(), r)
				ok = false
				n = 2
			}
		}()
		s := st.clone()
		for _, m := range sortedKeys(sp.Members) {
			if g, is := sp.Members[m].(*ssa.Global); is {
				t := derefType(g.Type())
				s.store(x.globalAddr(s, g), t, x.zero(t))
			}
		}
		fr := x.newFrame(s, &FuncV{Fn: fn, T: fn.Signature}, fn, nil)
		fr.kind = "root"
		fr.mark = &rootInfo{kind: "pure"}
		fr.after = func(s *State, res []Value) []*State {
			n++
			out = s.clone()
			ok = true
			return nil
		}
		s.frames = []*Frame{fr}
		x.pure++
		saved := x.work
		defer func() { x.pure--; x.work = saved }()
		x.runAll([]*State{s})
	}()
	if !ok || n != 1 {
		x.problem("initialiser of %s not evaluated (%d outcomes)", sp.Pkg.Path(), n)
		*st = *base
		return
	}
	fr := st.frames
	*st = *out
	st.frames = fr
	st.br = nil
	st.trace = nil
}
