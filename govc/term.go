package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT-LIB sort, printed as is.
type Sort string

const (
	SInt    Sort = "Int"
	SBool   Sort = "Bool"
	SString Sort = "String"
	SF32    Sort = "(_ FloatingPoint 8 24)"
	SF64    Sort = "(_ FloatingPoint 11 53)"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[len("(Array ") : len(str)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + str)
}

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "const" (Name), "int" (I), "str" (S), "bool" (B), "bvar", "app" (Name), "forall"/"exists", or a builtin
	Name string
	Args []*Term
	Sort Sort
	I    int64
	S    string
	B    bool
	id   int
	size int
	bv   bool // contains a bound variable
	pats []*Term
}

// Ctx owns terms. One per verification unit (not shared between goroutines).
type Ctx struct {
	tab   map[string]*Term
	n     int
	fresh int
	funs  map[string]string // declared function name -> signature text
	order []string          // declaration order (consts and functions)
	decls map[string]string
	seqOf map[*Term]int   // creation order of fresh constants
	bnd   map[*Term]int64 // largest reference a constant can hold
	mref  map[*Term]int64
}

func newCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, funs: map[string]string{}, decls: map[string]string{}, seqOf: map[*Term]int{}, bnd: map[*Term]int64{}, mref: map[*Term]int64{}}
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	switch t.Op {
	case "int":
		b.WriteString(strconv.FormatInt(t.I, 10))
	case "str":
		b.WriteString(t.S)
	case "bool":
		b.WriteString(strconv.FormatBool(t.B))
	}
	b.WriteByte('|')
	b.WriteString(string(t.Sort))
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if len(t.pats) > 0 {
		b.WriteByte('!')
		for _, a := range t.pats {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if e, ok := c.tab[k]; ok {
		return e
	}
	c.n++
	t.id = c.n
	t.size = 1
	for _, a := range t.Args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.bv {
			t.bv = true
		}
	}
	if t.Op == "bvar" {
		t.bv = true
	}
	c.tab[k] = t
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '#' || r == '-' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) declare(name, text string) {
	if _, ok := c.decls[name]; ok {
		return
	}
	c.decls[name] = text
	c.order = append(c.order, name)
}

// Const returns the named constant.
func (c *Ctx) Const(name string, s Sort) *Term {
	q := "|" + strings.ReplaceAll(name, "|", "_") + "|"
	c.declare(q, fmt.Sprintf("(declare-const %s %s)", q, s))
	return c.mk(&Term{Op: "const", Name: q, Sort: s})
}

// Fresh returns a new constant.
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Const(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}

func (c *Ctx) Int(i int64) *Term  { return c.mk(&Term{Op: "int", I: i, Sort: SInt}) }
func (c *Ctx) Str(s string) *Term { return c.mk(&Term{Op: "str", S: s, Sort: SString}) }
func (c *Ctx) Bool(b bool) *Term  { return c.mk(&Term{Op: "bool", B: b, Sort: SBool}) }
func (c *Ctx) BVar(name string, s Sort) *Term {
	return c.mk(&Term{Op: "bvar", Name: name, Sort: s})
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	q := "|" + strings.ReplaceAll(name, "|", "_") + "|"
	if len(args) == 0 {
		return c.Const(name, s)
	}
	ss := make([]string, len(args))
	for i, a := range args {
		ss[i] = string(a.Sort)
	}
	sig := fmt.Sprintf("(declare-fun %s (%s) %s)", q, strings.Join(ss, " "), s)
	if old, ok := c.decls[q]; ok && old != sig {
		// same name with another signature: disambiguate
		return c.App(name+"'"+strings.Join(ss, "_")+"'"+string(s), s, args...)
	}
	c.declare(q, sig)
	return c.mk(&Term{Op: "app", Name: q, Args: args, Sort: s})
}

func (c *Ctx) F32(f float64) *Term {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		panic("float literal")
	}
	bits := math.Float32bits(float32(f))
	return c.mk(&Term{Op: "raw", Name: fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", bits>>31, (bits>>23)&0xff, bits&0x7fffff), Sort: SF32})
}

func (c *Ctx) F64(f float64) *Term {
	bits := math.Float64bits(f)
	return c.mk(&Term{Op: "raw", Name: fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", bits>>63, (bits>>52)&0x7ff, bits&((1<<52)-1)), Sort: SF64})
}

func (t *Term) IsTrue() bool  { return t.Op == "bool" && t.B }
func (t *Term) IsFalse() bool { return t.Op == "bool" && !t.B }
func (t *Term) isLit() bool   { return t.Op == "int" || t.Op == "str" || t.Op == "bool" || t.Op == "raw" }

func (c *Ctx) op(op string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{Op: op, Args: args, Sort: s})
}

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.Op == "bool":
		return c.Bool(!a.B)
	case a.Op == "not":
		return a.Args[0]
	}
	return c.op("not", SBool, a)
}

func (c *Ctx) And(args ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range args {
		if a.IsTrue() || seen[a] {
			continue
		}
		if a.IsFalse() {
			return c.Bool(false)
		}
		if a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[c.Not(a)] {
			return c.Bool(false)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(true)
	case 1:
		return out[0]
	}
	return c.op("and", SBool, out...)
}

func (c *Ctx) Or(args ...*Term) *Term {
	n := make([]*Term, len(args))
	for i, a := range args {
		n[i] = c.Not(a)
	}
	r := c.And(n...)
	if r.Op == "and" {
		o := make([]*Term, len(r.Args))
		for i, a := range r.Args {
			o[i] = c.Not(a)
		}
		return c.op("or", SBool, o...)
	}
	return c.Not(r)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.IsTrue() {
		return b
	}
	if a.IsFalse() || b.IsTrue() || a == b {
		return c.Bool(true)
	}
	if b.IsFalse() {
		return c.Not(a)
	}
	return c.op("=>", SBool, a, b)
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.IsTrue() {
		return a
	}
	if k.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a.IsTrue() && b.IsFalse() {
			return k
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(k)
		}
		if a.IsTrue() {
			return c.Or(k, b)
		}
		if b.IsFalse() {
			return c.And(k, a)
		}
		if a.IsFalse() {
			return c.And(c.Not(k), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(k), a)
		}
	}
	if k.Op == "not" {
		return c.Ite(k.Args[0], b, a)
	}
	return c.op("ite", a.Sort, k, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		if a.Sort == SF32 || a.Sort == SF64 {
			return c.Bool(true) // SMT equality on bit-identical values
		}
		return c.Bool(true)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, c.Show(a), c.Show(b)))
	}
	if a.isLit() && b.isLit() {
		return c.Bool(false)
	}
	if a.Sort == SBool {
		if a.Op == "bool" {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	// (ite k x y) = lit with x,y lits
	if b.Op == "ite" && a.isLit() {
		a, b = b, a
	}
	if a.Op == "ite" && b.isLit() {
		x, y := a.Args[1], a.Args[2]
		if (x.isLit() || x.Op == "ite") && (y.isLit() || y.Op == "ite") {
			return c.Ite(a.Args[0], c.Eq(x, b), c.Eq(y, b))
		}
	}
	// x = (ite k u v) with fresh references
	if a.Op == "ite" && b.Op != "ite" {
		a, b = b, a
	}
	if b.Op == "ite" && a.Op != "ite" && a.Sort == SInt && !a.isLit() {
		u, v := b.Args[1], b.Args[2]
		fresh := func(t *Term) bool { return t.Op == "int" && isRefID(t.I) && c.maxRef(a) < t.I }
		if fresh(u) || fresh(v) {
			return c.Ite(b.Args[0], c.Eq(a, u), c.Eq(a, v))
		}
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" && isRefID(b.I) && c.maxRef(a) < b.I {
		return c.Bool(false)
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name && strings.HasPrefix(a.Name, "|box$") {
		var es []*Term
		for i := range a.Args {
			es = append(es, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(es...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.op("=", SBool, a, b)
}

// linear normal form helpers: keep + as n-ary with a literal tail.
func (c *Ctx) Add(args ...*Term) *Term {
	var k int64
	var out []*Term
	for _, a := range args {
		if a.Op == "int" {
			k += a.I
			continue
		}
		if a.Op == "+" {
			for _, b := range a.Args {
				if b.Op == "int" {
					k += b.I
				} else {
					out = append(out, b)
				}
			}
			continue
		}
		out = append(out, a)
	}
	// cancel x and (- x)
	for i := 0; i < len(out); i++ {
		for j := 0; j < len(out); j++ {
			if i != j && out[j].Op == "neg" && out[j].Args[0] == out[i] {
				hi, lo := i, j
				if hi < lo {
					hi, lo = lo, hi
				}
				out = append(out[:hi:hi], out[hi+1:]...)
				out = append(out[:lo:lo], out[lo+1:]...)
				i = -1
				break
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	if k != 0 || len(out) == 0 {
		out = append(out, c.Int(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.op("+", SInt, out...)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.Op == "int" {
		return c.Int(-a.I)
	}
	if a.Op == "neg" {
		return a.Args[0]
	}
	if a.Op == "+" {
		n := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			n[i] = c.Neg(x)
		}
		return c.Add(n...)
	}
	return c.op("neg", SInt, a)
}

func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.Neg(b)) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return c.Int(a.I * b.I)
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		if a.I == 0 {
			return a
		}
		if a.I == 1 {
			return b
		}
	}
	return c.op("*", SInt, a, b)
}

func (c *Ctx) cmp(op string, a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		if op == "<" {
			return c.Bool(a.I < b.I)
		}
		return c.Bool(a.I <= b.I)
	}
	if a == b {
		return c.Bool(op == "<=")
	}
	// lengths are never negative
	if op == "<" && b.Op == "int" && b.I <= 0 && a.Op == "str.len" {
		return c.Bool(false)
	}
	if op == "<=" && a.Op == "int" && a.I <= 0 && b.Op == "str.len" {
		return c.Bool(true)
	}
	return c.op(op, SBool, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.cmp("<", a, b) }
func (c *Ctx) Le(a, b *Term) *Term { return c.cmp("<=", a, b) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }

func (c *Ctx) Select(a, k *Term) *Term {
	_, v := arrParts(a.Sort)
	for {
		if a.Op == "store" {
			e := c.Eq(a.Args[1], k)
			if e.IsTrue() {
				return a.Args[2]
			}
			if e.IsFalse() {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "ite" {
			x := c.Select(a.Args[1], k)
			y := c.Select(a.Args[2], k)
			return c.Ite(a.Args[0], x, y)
		}
		break
	}
	return c.op("select", v, a, k)
}

func (c *Ctx) Store(a, k, v *Term) *Term {
	ks, vs := arrParts(a.Sort)
	if ks != k.Sort || vs != v.Sort {
		panic(fmt.Sprintf("store sorts: %s [%s]=%s", a.Sort, k.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == k {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == k {
		return a
	}
	return c.op("store", a.Sort, a, k, v)
}

func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s})
}

// strings
func (c *Ctx) Concat(args ...*Term) *Term {
	var out []*Term
	push := func(a *Term) {
		if a.Op == "str" && a.S == "" {
			return
		}
		if a.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
			out[len(out)-1] = c.Str(out[len(out)-1].S + a.S)
			return
		}
		out = append(out, a)
	}
	for _, a := range args {
		if a.Op == "str.++" {
			for _, b := range a.Args {
				push(b)
			}
		} else {
			push(a)
		}
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.op("str.++", SString, out...)
}

func (c *Ctx) StrLen(a *Term) *Term {
	if a.Op == "str" {
		return c.Int(int64(len(a.S)))
	}
	if a.Op == "str.++" {
		n := make([]*Term, len(a.Args))
		for i, x := range a.Args {
			n[i] = c.StrLen(x)
		}
		return c.Add(n...)
	}
	if a.Op == "bstore" {
		return c.StrLen(a.Args[0])
	}
	return c.op("str.len", SInt, a)
}

// ByteStore is the byte string b with byte i replaced by code k. It is only
// built where 0 <= i < len(b) is known, and simplifications rely on it.
func (c *Ctx) ByteStore(b, i, k *Term) *Term {
	return c.mk(&Term{Op: "bstore", Sort: SString, Args: []*Term{b, i, k}})
}

// InRe is membership in a regular language. The last byte of a word is split
// off where the language ends with a repeated character class: this is an
// equivalence, and turns a loop step into the loop's own invariant.
func (c *Ctx) InRe(a *Term, src string) (*Term, error) {
	re, err := reSMT(src)
	if err != nil {
		return nil, err
	}
	if a.Op == "str.++" {
		last := a.Args[len(a.Args)-1]
		if last.Op == "str.from_code" {
			if lit, cls, ok := reLitStar(src); ok {
				init := c.Concat(a.Args[:len(a.Args)-1]...)
				in, err := c.InRe(init, src)
				if err != nil {
					return nil, err
				}
				k := last.Args[0]
				var rs []*Term
				for i := 0; i+1 < len(cls); i += 2 {
					rs = append(rs, c.And(c.Le(c.Int(int64(cls[i])), k), c.Le(k, c.Int(int64(cls[i+1])))))
				}
				if lit == "" {
					return c.And(in, c.Or(rs...)), nil
				}
				return c.Or(c.And(in, c.Or(rs...)), c.Eq(a, c.Str(lit))), nil
			}
		}
	}
	return c.op("str.in_re", SBool, a, c.mk(&Term{Op: "raw", Name: re, S: src, Sort: "RegLan"})), nil
}

func (c *Ctx) Substr(a, off, n *Term) *Term {
	if a.Op == "bstore" {
		b, i, k := a.Args[0], a.Args[1], a.Args[2]
		end := c.Sub(c.Add(off, n), i)
		if end.Op == "int" && end.I <= 0 {
			return c.Substr(b, off, n)
		}
		if end.Op == "int" && end.I == 1 {
			return c.Concat(c.Substr(b, off, c.Sub(i, off)), c.FromCode(k))
		}
		if d := c.Sub(off, i); d.Op == "int" && d.I > 0 {
			return c.Substr(b, off, n)
		}
	}
	if off.Op == "int" && off.I == 0 && n == c.StrLen(a) {
		return a
	}
	if a.Op == "str" && off.Op == "int" && n.Op == "int" && off.I >= 0 && n.I >= 0 && off.I+n.I <= int64(len(a.S)) {
		return c.Str(a.S[off.I : off.I+n.I])
	}
	if n.Op == "int" && n.I == 0 {
		return c.Str("")
	}
	return c.op("str.substr", SString, a, off, n)
}

// byte at index, as Int code
func (c *Ctx) StrAt(a, i *Term) *Term {
	if a.Op == "str" && i.Op == "int" && i.I >= 0 && i.I < int64(len(a.S)) {
		return c.Int(int64(a.S[i.I]))
	}
	if a.Op == "str" && i.Op != "int" {
		// runs of consecutive codes
		var from []int
		for j := 0; j < len(a.S); j++ {
			if j == 0 || a.S[j] != a.S[j-1]+1 {
				from = append(from, j)
			}
		}
		if len(from) <= 8 {
			r := c.Int(-1)
			end := len(a.S)
			for k := len(from) - 1; k >= 0; k-- {
				j := from[k]
				r = c.Ite(c.And(c.Le(c.Int(int64(j)), i), c.Lt(i, c.Int(int64(end)))), c.Add(i, c.Int(int64(a.S[j])-int64(j))), r)
				end = j
			}
			return r
		}
	}
	return c.op("str.to_code", SInt, c.op("str.at", SString, a, i))
}

func (c *Ctx) FromCode(i *Term) *Term {
	if i.Op == "int" && i.I >= 0 && i.I < 128 {
		return c.Str(string(rune(i.I)))
	}
	return c.op("str.from_code", SString, i)
}

func (c *Ctx) Div(a, b *Term) *Term { // Euclidean for non-negative operands
	if a.Op == "int" && b.Op == "int" && a.I >= 0 && b.I > 0 {
		return c.Int(a.I / b.I)
	}
	return c.op("div", SInt, a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && a.I >= 0 && b.I > 0 {
		return c.Int(a.I % b.I)
	}
	return c.op("mod", SInt, a, b)
}

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body.IsTrue() || body.IsFalse() {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	t := c.mk(&Term{Op: "forall", Args: args, Sort: SBool, pats: pats})
	t.bv = c.freeBV(body, vars)
	return t
}

func (c *Ctx) Exists(vars []*Term, body *Term) *Term {
	return c.Not(c.Forall(vars, c.Not(body)))
}

func (c *Ctx) freeBV(t *Term, bound []*Term) bool {
	if !t.bv {
		return false
	}
	if t.Op == "bvar" {
		for _, b := range bound {
			if b == t {
				return false
			}
		}
		return true
	}
	if t.Op == "forall" {
		return c.freeBV(t.Args[len(t.Args)-1], append(append([]*Term{}, bound...), t.Args[:len(t.Args)-1]...))
	}
	for _, a := range t.Args {
		if c.freeBV(a, bound) {
			return true
		}
	}
	return false
}

// Subst replaces terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Implies(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "+":
		return c.Add(a...)
	case "neg":
		return c.Neg(a[0])
	case "*":
		return c.Mul(a[0], a[1])
	case "<", "<=":
		return c.cmp(t.Op, a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "str.++":
		return c.Concat(a...)
	case "bstore":
		return c.ByteStore(a[0], a[1], a[2])
	case "str.in_re":
		if r, err := c.InRe(a[0], a[1].S); err == nil && a[1].S != "" {
			return r
		}
	case "str.len":
		return c.StrLen(a[0])
	case "str.substr":
		return c.Substr(a[0], a[1], a[2])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case "forall":
		pats := t.pats
		return c.Forall(a[:len(a)-1], a[len(a)-1], pats...)
	}
	n := *t
	n.Args = a
	n.id = 0
	n.bv = false
	return c.mk(&n)
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch >= 32 && ch < 127 && ch != '\\':
			b.WriteByte(ch)
		default:
			fmt.Fprintf(&b, "\\u{%x}", ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// printer prints terms, sharing big subterms through define-fun.
type printer struct {
	c     *Ctx
	names map[*Term]string
	emit  func(string) // receives declarations/definitions, in order
	seen  map[string]bool
}

func newPrinter(c *Ctx, emit func(string)) *printer {
	return &printer{c: c, names: map[*Term]string{}, emit: emit, seen: map[string]bool{}}
}

func (p *printer) need(q string) {
	if !p.seen[q] {
		p.seen[q] = true
		p.emit(p.c.decls[q])
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.Op {
	case "const":
		p.need(t.Name)
		return t.Name
	case "bvar":
		return t.Name
	case "int":
		if t.I < 0 {
			return fmt.Sprintf("(- %d)", uint64(-t.I))
		}
		return strconv.FormatInt(t.I, 10)
	case "str":
		return smtStr(t.S)
	case "bool":
		return strconv.FormatBool(t.B)
	case "raw":
		return t.Name
	case "forall":
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.Args[:len(t.Args)-1] {
			fmt.Fprintf(&b, "(%s %s)", v.Name, v.Sort)
		}
		b.WriteString(") ")
		body := p.str(t.Args[len(t.Args)-1])
		if len(t.pats) > 0 {
			b.WriteString("(! ")
			b.WriteString(body)
			for _, q := range t.pats {
				b.WriteString(" :pattern (" + p.str(q) + ")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		s = b.String()
	case "constarr":
		s = fmt.Sprintf("((as const %s) %s)", t.Sort, p.str(t.Args[0]))
	case "bstore":
		b, i, k := p.str(t.Args[0]), p.str(t.Args[1]), p.str(t.Args[2])
		s = fmt.Sprintf("(str.++ (str.substr %s 0 %s) (str.from_code %s) (str.substr %s (+ 1 %s) (- (str.len %s) (+ 1 %s))))", b, i, k, b, i, b, i)
	default:
		op := t.Op
		if op == "app" {
			p.need(t.Name)
			op = t.Name
		}
		if op == "neg" {
			op = "-"
		}
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			b.WriteString(p.str(a))
		}
		b.WriteByte(')')
		s = b.String()
	}
	if !t.bv && len(s) > 160 {
		n := fmt.Sprintf("$d%d", t.id)
		p.emit(fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort, s))
		p.names[t] = n
		return n
	}
	if !t.bv {
		p.names[t] = s
	}
	return s
}

// Show prints a term for humans (tree form, truncated).
func (c *Ctx) Show(t *Term) string {
	var rec func(t *Term, d int) string
	rec = func(t *Term, d int) string {
		switch t.Op {
		case "const", "bvar", "raw":
			return strings.Trim(t.Name, "|")
		case "int":
			return strconv.FormatInt(t.I, 10)
		case "str":
			return strconv.Quote(t.S)
		case "bool":
			return strconv.FormatBool(t.B)
		}
		if d > 7 {
			return "…"
		}
		op := t.Op
		if op == "app" {
			op = strings.Trim(t.Name, "|")
		}
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, rec(a, d+1))
		}
		return op + "(" + strings.Join(ss, ", ") + ")"
	}
	s := rec(t, 0)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

const noBound = int64(1) << 62

// maxRef bounds the references (fresh object ids) that a term can denote.
func (c *Ctx) maxRef(t *Term) int64 {
	switch t.Op {
	case "int":
		return t.I
	case "const":
		if b, ok := c.bnd[t]; ok {
			return b
		}
		return noBound
	case "bvar", "+", "neg", "*", "div", "mod":
		return noBound
	}
	if r, ok := c.mref[t]; ok {
		return r
	}
	r := int64(refBase)
	max := func(u *Term) {
		if m := c.maxRef(u); m > r {
			r = m
		}
	}
	switch t.Op {
	case "select":
		max(t.Args[0])
	case "store":
		max(t.Args[0])
		max(t.Args[2])
	case "constarr":
		max(t.Args[0])
	case "ite":
		max(t.Args[1])
		max(t.Args[2])
	case "app":
		for _, a := range t.Args {
			if a.Sort == SInt && a.Op != "+" && a.Op != "neg" {
				max(a)
			}
		}
		if r >= noBound {
			r = refBase
		}
	}
	if !t.bv {
		c.mref[t] = r
	}
	return r
}

func (c *Ctx) maxSeq(t *Term) int {
	memo := map[*Term]int{}
	var rec func(*Term) int
	rec = func(t *Term) int {
		if t.Op == "const" {
			return c.seqOf[t]
		}
		if r, ok := memo[t]; ok {
			return r
		}
		m := 0
		for _, a := range t.Args {
			if r := rec(a); r > m {
				m = r
			}
		}
		memo[t] = m
		return m
	}
	return rec(t)
}
