package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Leaf is one scalar component of a Go value.
type Leaf struct {
	Path string
	Sort Sort
	T    types.Type // Go type at (or above) the leaf
	Kind string     // "", "ref", "tag", "val", "len", ...
}

// Types that are represented by a single opaque integer.
func opaqueStruct(n *types.Named) bool {
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	if inModule(p) {
		return false
	}
	switch typeName(n) {
	case "google.golang.org/protobuf/types/known/anypb.Any",
		"google.golang.org/genproto/googleapis/rpc/status.Status",
		"github.com/nats-io/nats.go.Msg",
		"github.com/redis/go-redis/v9.Message",
		"unicode.RangeTable", "unicode.Range16", "unicode.Range32",
		"google.golang.org/protobuf/proto.UnmarshalOptions":
		return false
	}
	return true
}

func under(t types.Type) types.Type { return t.Underlying() }

func isTParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

func isIface(t types.Type) bool {
	if isTParam(t) {
		return false
	}
	_, ok := under(t).(*types.Interface)
	return ok
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	return isByte(s.Elem())
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// isOpaque tells whether values of t are a single uninterpreted leaf.
func isOpaque(t types.Type) bool {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return opaqueStruct(n)
		}
	}
	if a, ok := under(t).(*types.Array); ok {
		return a.Len() > 20 || isByte(a.Elem())
	}
	return false
}

func basicSort(b *types.Basic) Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.String, types.UntypedString:
		return SString
	case types.Float32:
		return SF32
	case types.Float64, types.UntypedFloat:
		return SF64
	}
	return SInt
}

// leaves lists the scalar components of t.
func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if isTParam(t) {
		return []Leaf{{"", SInt, t, "tparam"}}
	}
	if isOpaque(t) {
		return []Leaf{{"", SInt, t, "opaque"}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return []Leaf{{"", basicSort(u), t, ""}}
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Interface:
		return []Leaf{{".tag", SInt, t, "tag"}, {".val", SInt, t, "val"}}
	case *types.Slice:
		return []Leaf{{".ref", SInt, t, "ref"}, {".off", SInt, t, "off"}, {".len", SInt, t, "len"}, {".cap", SInt, t, "cap"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				l.Path = fmt.Sprintf("[%d]%s", i, l.Path)
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf("#%d%s", i, l.Path)
				out = append(out, l)
			}
		}
		return out
	}
	return []Leaf{{"", SInt, t, "opaque"}}
}

// integer range facts
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, is := under(t).(*types.Basic)
	if !is || isTParam(t) {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return
}

// substType applies a type-parameter substitution.
func substType(t types.Type, m map[string]types.Type) types.Type {
	if len(m) == 0 {
		return t
	}
	switch t := t.(type) {
	case *types.Alias:
		return substType(types.Unalias(t), m)
	case *types.TypeParam:
		if r, ok := m[t.Obj().Name()]; ok {
			return r
		}
		return t
	case *types.Pointer:
		if e := substType(t.Elem(), m); e != t.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := substType(t.Elem(), m); e != t.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := substType(t.Elem(), m); e != t.Elem() {
			return types.NewArray(e, t.Len())
		}
	case *types.Chan:
		if e := substType(t.Elem(), m); e != t.Elem() {
			return types.NewChan(t.Dir(), e)
		}
	case *types.Map:
		k, e := substType(t.Key(), m), substType(t.Elem(), m)
		if k != t.Key() || e != t.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Named:
		if t.TypeArgs().Len() > 0 {
			ch := false
			var as []types.Type
			for i := 0; i < t.TypeArgs().Len(); i++ {
				a := substType(t.TypeArgs().At(i), m)
				if a != t.TypeArgs().At(i) {
					ch = true
				}
				as = append(as, a)
			}
			if ch {
				if r, err := types.Instantiate(nil, t.Origin(), as, false); err == nil {
					return r
				}
			}
		}
	case *types.Tuple:
		ch := false
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			v := t.At(i)
			e := substType(v.Type(), m)
			if e != v.Type() {
				ch = true
			}
			vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), e))
		}
		if ch {
			return types.NewTuple(vs...)
		}
	case *types.Struct:
		ch := false
		var fs []*types.Var
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			e := substType(f.Type(), m)
			if e != f.Type() {
				ch = true
			}
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), e, f.Embedded()))
		}
		if ch {
			return types.NewStruct(fs, nil)
		}
	case *types.Signature:
		p := substType(t.Params(), m)
		r := substType(t.Results(), m)
		if p != types.Type(t.Params()) || r != types.Type(t.Results()) {
			return types.NewSignatureType(nil, nil, nil, p.(*types.Tuple), r.(*types.Tuple), t.Variadic())
		}
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	s, _ := under(types.Unalias(t)).(*types.Struct)
	return s
}

func derefType(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// rootName is the region root for objects of type t.
func rootName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return typeName(n)
	}
	if isTParam(t) {
		return "cell<$>"
	}
	switch u := under(t).(type) {
	case *types.Struct:
		return typeName(u)
	default:
		return "cell<" + strings.ReplaceAll(typeName(t), "$", "") + ">"
	}
}

func namedName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return typeName(n)
	}
	return ""
}
