package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/livekit/psrpc"

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(3)
}

type Program struct {
	mutable   map[*ssa.Global]bool
	prog      *ssa.Program
	pkgs      []*packages.Package
	spkgs     []*ssa.Package
	byPath    map[string]*types.Package
	byName    map[string][]*types.Package // last path element or package name
	funcs     map[string]*ssa.Function    // canonical name -> function (origin for generics)
	dir       string
	lockMu    sync.Mutex
	lockOrder map[string]lockEdge
}

// loadProgram loads the module at dir and builds SSA for all of it.
func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("source does not compile: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: pkgs, byPath: map[string]*types.Package{}, byName: map[string][]*types.Package{}, funcs: map[string]*ssa.Function{}, dir: dir, lockOrder: map[string]lockEdge{}}
	for _, sp := range spkgs {
		if sp != nil {
			sp.Build()
			P.spkgs = append(P.spkgs, sp)
		}
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		P.byPath[p.Path()] = p
		P.byName[p.Name()] = append(P.byName[p.Name()], p)
		for _, i := range p.Imports() {
			visit(i)
		}
	}
	for _, p := range pkgs {
		visit(p.Types)
	}
	for n := range P.byName {
		l := P.byName[n]
		sort.SliceStable(l, func(i, j int) bool {
			mi, mj := strings.HasPrefix(l[i].Path(), modulePath), strings.HasPrefix(l[j].Path(), modulePath)
			if mi != mj {
				return mi
			}
			if len(l[i].Path()) != len(l[j].Path()) {
				return len(l[i].Path()) < len(l[j].Path())
			}
			return l[i].Path() < l[j].Path()
		})
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		P.funcs[funcName(fn)] = fn
	}
	// generic functions are not reachable through AllFunctions when uninstantiated
	for _, sp := range P.spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				P.addFunc(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							P.addFunc(f)
						}
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) addFunc(f *ssa.Function) {
	P.funcs[funcName(f)] = f
	for _, a := range f.AnonFuncs {
		P.addFunc(a)
	}
}

// qual writes package names relative to the module.
func qual(p *types.Package) string {
	if p == nil {
		return ""
	}
	path := p.Path()
	if path == modulePath {
		return "psrpc"
	}
	if strings.HasPrefix(path, modulePath+"/") {
		return strings.TrimPrefix(path, modulePath+"/")
	}
	return path
}

// typeName is the canonical name of a type, with type arguments of named types dropped.
func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Named:
		o := t.Origin().Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return qual(o.Pkg()) + "." + o.Name()
	case *types.Pointer:
		return "*" + typeName(t.Elem())
	case *types.Slice:
		return "[]" + typeName(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), typeName(t.Elem()))
	case *types.Map:
		return "map[" + typeName(t.Key()) + "]" + typeName(t.Elem())
	case *types.Chan:
		switch t.Dir() {
		default:
			return "chan " + typeName(t.Elem())
		}
	case *types.TypeParam:
		return "$" + t.Obj().Name()
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "byte"
		case types.Int32:
			return "int32"
		}
		return t.Name()
	case *types.Interface:
		if t.NumMethods() == 0 && t.NumEmbeddeds() == 0 {
			return "any"
		}
		var ms []string
		for i := 0; i < t.NumMethods(); i++ {
			ms = append(ms, t.Method(i).Name())
		}
		return "interface{" + strings.Join(ms, ";") + "}"
	case *types.Signature:
		return "func" + sigName(t)
	case *types.Struct:
		var fs []string
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, t.Field(i).Name()+" "+typeName(t.Field(i).Type()))
		}
		return "struct{" + strings.Join(fs, ";") + "}"
	case *types.Tuple:
		var fs []string
		for i := 0; i < t.Len(); i++ {
			fs = append(fs, typeName(t.At(i).Type()))
		}
		return "(" + strings.Join(fs, ",") + ")"
	}
	return t.String()
}

// fullName is typeName with the arguments of generic types.
func fullName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		n := typeName(t)
		if t.TypeArgs() != nil && t.TypeArgs().Len() > 0 {
			var as []string
			for i := 0; i < t.TypeArgs().Len(); i++ {
				as = append(as, fullName(t.TypeArgs().At(i)))
			}
			n += "[" + strings.Join(as, ",") + "]"
		}
		return n
	case *types.Pointer:
		return "*" + fullName(t.Elem())
	case *types.Slice:
		return "[]" + fullName(t.Elem())
	case *types.Map:
		return "map[" + fullName(t.Key()) + "]" + fullName(t.Elem())
	case *types.Chan:
		return "chan " + fullName(t.Elem())
	}
	return typeName(t)
}

func sigName(s *types.Signature) string {
	return typeName(s.Params()) + typeName(s.Results())
}

// funcName is the canonical name: pkg.F, (pkg.T).M, (*pkg.T).M, parent$N for closures.
func funcName(f *ssa.Function) string {
	if f.Parent() != nil {
		return funcName(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if recv := o.Signature.Recv(); recv != nil {
		return "(" + typeName(recv.Type()) + ")." + o.Name()
	}
	if o.Pkg != nil {
		return qual(o.Pkg.Pkg) + "." + o.Name()
	}
	if o.Object() != nil && o.Object().Pkg() != nil {
		return qual(o.Object().Pkg()) + "." + o.Name()
	}
	return o.String()
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func constInt(v constant.Value) (int64, bool) {
	x := constant.ToInt(v)
	if x.Kind() != constant.Int {
		return 0, false
	}
	i, ok := constant.Int64Val(x)
	if !ok {
		if u, ok2 := constant.Uint64Val(x); ok2 {
			return int64(u), u < 1<<63
		}
	}
	return i, ok
}
