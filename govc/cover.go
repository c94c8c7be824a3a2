package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cover: the units of a property come past every place of the module at which a guarded
// field is reached or a lock taken.

func (u *Unit) visit(in ssa.Instruction) {
	if u == nil || !u.checks("guards") {
		return
	}
	if u.visited == nil {
		u.visited = map[token.Pos]bool{}
	}
	u.visited[in.Pos()] = true
}

func mutexOp(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f, ok := c.Common().Value.(*ssa.Function)
	if !ok || f.Pkg == nil && f.Signature.Recv() == nil {
		return false
	}
	n := f.RelString(nil)
	return strings.HasPrefix(n, "(*sync.Mutex).") || strings.HasPrefix(n, "(*sync.RWMutex).")
}

// uncovered lists the places no unit has come past.
func (P *Program) uncovered(specs *SpecSet, us []*Unit) (places int, missing []string) {
	guarded := map[string]bool{}
	for _, g := range specs.Guards {
		for _, f := range g.Fields {
			guarded[g.Type+f] = true
		}
		for _, f := range g.All {
			guarded[f] = true
		}
	}
	seen := map[token.Pos]bool{}
	for _, u := range us {
		for p := range u.visited {
			seen[p] = true
		}
	}
	done := map[*ssa.Function]bool{}
	at := map[token.Pos]string{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if done[f] || f.Synthetic != "" && f.Parent() == nil && f.Name() != "init" {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !in.Pos().IsValid() {
					continue
				}
				what := ""
				switch in := in.(type) {
				case *ssa.FieldAddr:
					t := derefType(in.X.Type())
					if s := structOf(t); s != nil {
						n := rootName(t) + "." + s.Field(in.Field).Name()
						if guarded[n] {
							what = n
						}
					}
				case *ssa.Call, *ssa.Defer:
					if mutexOp(in) {
						what = "a lock operation"
					}
				}
				if what != "" {
					at[in.Pos()] = what + " in " + funcName(f)
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range P.funcs {
		if f.Pkg != nil && specs.Uncovered[qual(f.Pkg.Pkg)] {
			continue
		}
		visit(f)
	}
	for p, what := range at {
		places++
		if !seen[p] {
			q := P.prog.Fset.Position(p)
			missing = append(missing, fmt.Sprintf("%s:%d: %s", strings.TrimPrefix(q.Filename, P.dir+"/"), q.Line, what))
		}
	}
	sort.Strings(missing)
	return places, missing
}
