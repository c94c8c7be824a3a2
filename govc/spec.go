package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Contract files are line based; see contracts/README.

type Expr struct {
	Src string
	E   ast.Expr
}

type Act struct {
	Kind  string // assert, set, assume
	Label string
	Var   string
	Idx   *Expr
	E     *Expr
	Line  string
}

type Clause struct {
	Event   string
	Pat     string
	Binders []string
	Res     []string
	When    *Expr
	Acts    []*Act
	covered bool
	Opt     bool // may stay uncovered
	Line    string
}

type GhostDecl struct {
	Name string
	Type string
	Init *Expr
	Line string
}

type Macro struct {
	Name   string
	Params []string
	E      *Expr
}

type Guard struct {
	Type   string
	Mu     string
	Fields []string // paths of the guarded fields
	All    []string // Type.path: the field of every object of that type
	Inv    []*GuardInv
}

type GuardInv struct {
	Label, Self string
	E           *Expr
	Home        string // the property whose units have to show it; the others rely on it
}

type UnitSpec struct {
	Name      string
	Property  string
	Func      string
	Requires  []*Expr
	Assumes   []*Expr
	Ensures   []*Act
	Ghosts    []*GhostDecl
	Clauses   []*Clause
	Stable    []*Expr
	Havoc     []string
	PureUF    []string
	Inline    []string
	Checks    map[string]bool
	Loops     []*Expr
	Flags     map[string]string
	File      string
	Line      string
	Lemma     *Expr
	LemmaVars []string
	Trusted   []string
}

type SpecSet struct {
	Units     []*UnitSpec
	Macros    map[string]*Macro
	Uncovered map[string]bool     // packages outside the product
	Cover     map[string]bool     // properties whose units are to come past every guarded access
	Uninterp  map[string][]string // name -> sorts, last is result
	Guards    []*Guard
	Axioms    []*Expr
	InitOnly  []string
	Groups    map[string][]string
}

func parseExpr(src, at string) *Expr {
	p := desugar(src)
	e, err := parser.ParseExpr(p)
	if err != nil {
		fatal("%s: cannot parse %q: %v", at, src, err)
	}
	return &Expr{strings.TrimSpace(src), e}
}

// desugar rewrites a ==> b to implies(a, b) and a <==> b to iff(a, b).
func desugar(s string) string {
	// split top-level pieces
	var out strings.Builder
	i := 0
	var body func(stop byte) string
	skipStr := func() {
		q := s[i]
		i++
		for i < len(s) && s[i] != q {
			if s[i] == '\\' && q == '"' {
				i++
			}
			i++
		}
		i++
	}
	body = func(stop byte) string {
		var pieces []string // separated by commas
		cur := ""
		start := i
		flush := func() {
			cur += s[start:i]
		}
		for i < len(s) && !(stop != 0 && s[i] == stop) {
			switch s[i] {
			case '"', '`':
				skipStr()
				continue
			case '\'':
				skipStr()
				continue
			case '(', '[', '{':
				cl := map[byte]byte{'(': ')', '[': ']', '{': '}'}[s[i]]
				flush()
				cur += string(s[i])
				i++
				cur += body(cl)
				if i < len(s) {
					cur += string(s[i])
					i++
				}
				start = i
				continue
			case ',':
				flush()
				pieces = append(pieces, arrows(cur))
				cur = ""
				i++
				start = i
				continue
			}
			i++
		}
		flush()
		pieces = append(pieces, arrows(cur))
		return strings.Join(pieces, ", ")
	}
	out.WriteString(body(0))
	return out.String()
}

func arrows(s string) string {
	// lowest precedence, right associative; nested parts were already rewritten
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case '"':
			i++
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
		case '<':
			if depth == 0 && strings.HasPrefix(s[i:], "<==>") {
				return "iff(" + s[:i] + ", " + arrows(s[i+4:]) + ")"
			}
		case '=':
			if depth == 0 && strings.HasPrefix(s[i:], "==>") {
				return "implies(" + s[:i] + ", " + arrows(s[i+3:]) + ")"
			}
		}
	}
	return s
}

// header splits "PAT(a, b) -> (r) when e".
func parseHeader(s, at string, cl *Clause) {
	if i := strings.Index(s, " when "); i >= 0 {
		cl.When = parseExpr(s[i+6:], at)
		s = strings.TrimSpace(s[:i])
	}
	if i := strings.LastIndex(s, " -> "); i >= 0 {
		r := strings.TrimSpace(s[i+4:])
		r = strings.TrimSuffix(strings.TrimPrefix(r, "("), ")")
		cl.Res = splitNames(r)
		s = strings.TrimSpace(s[:i])
	}
	if strings.HasSuffix(s, ")") {
		depth := 0
		for i := len(s) - 1; i >= 0; i-- {
			if s[i] == ')' {
				depth++
			} else if s[i] == '(' {
				depth--
				if depth == 0 {
					cl.Binders = splitNames(s[i+1 : len(s)-1])
					s = s[:i]
					break
				}
			}
		}
	}
	cl.Pat = strings.TrimSpace(s)
}

func splitNames(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			out = append(out, p)
		}
	}
	return out
}

func cutLabel(s string) (string, string) {
	if strings.HasPrefix(s, "[") {
		if i := strings.Index(s, "]"); i > 0 {
			return s[1:i], strings.TrimSpace(s[i+1:])
		}
	}
	return "", strings.TrimSpace(s)
}

func loadSpecs(dir string) *SpecSet {
	S := &SpecSet{Groups: map[string][]string{}, Macros: map[string]*Macro{}, Cover: map[string]bool{}, Uncovered: map[string]bool{}, Uninterp: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		S.parse(f, string(b))
	}
	expand := func(l []string) (out []string) {
		for _, p := range l {
			if strings.HasPrefix(p, "@") {
				g, ok := S.Groups[p[1:]]
				if !ok {
					fatal("no group %s", p)
				}
				out = append(out, g...)
			} else {
				out = append(out, p)
			}
		}
		return
	}
	for _, u := range S.Units {
		u.Havoc, u.PureUF = expand(u.Havoc), expand(u.PureUF)
	}
	return S
}

func (S *SpecSet) parse(file, text string) {
	var u *UnitSpec
	var cl *Clause
	lines := strings.Split(text, "\n")
	for n := 0; n < len(lines); n++ {
		at := fmt.Sprintf("%s:%d", filepath.Base(file), n+1)
		line := lines[n]
		for strings.HasSuffix(strings.TrimSpace(line), "\\") && n+1 < len(lines) {
			line = strings.TrimSuffix(strings.TrimSpace(line), "\\") + " " + strings.TrimSpace(lines[n+1])
			n++
		}
		if i := strings.Index(line, " # "); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") {
			continue
		}
		word, rest, _ := strings.Cut(line, " ")
		rest = strings.TrimSpace(rest)
		kw, label := word, ""
		if i := strings.Index(word, "["); i > 0 && strings.HasSuffix(word, "]") {
			kw, label = word[:i], word[i+1:len(word)-1]
		}
		act := func() *Act {
			return &Act{Kind: kw, Label: label, Line: at}
		}
		switch kw {
		case "unit":
			u = &UnitSpec{Name: rest, Checks: map[string]bool{}, Flags: map[string]string{}, File: file, Line: at}
			S.Units = append(S.Units, u)
			cl = nil
		case "property":
			u.Property = rest
		case "func":
			u.Func = rest
		case "requires":
			u.Requires = append(u.Requires, parseExpr(rest, at))
		case "given":
			// unchecked assumption, reported as such
			u.Assumes = append(u.Assumes, parseExpr(rest, at))
		case "trusted":
			u.Trusted = append(u.Trusted, rest)
		case "ghost":
			g := &GhostDecl{Line: at}
			decl, init, has := strings.Cut(rest, " = ")
			if has {
				g.Init = parseExpr(init, at)
			}
			g.Name, g.Type, _ = strings.Cut(strings.TrimSpace(decl), " ")
			g.Type = strings.TrimSpace(g.Type)
			u.Ghosts = append(u.Ghosts, g)
		case "stable":
			u.Stable = append(u.Stable, parseExpr(rest, at))
		case "havoc":
			u.Havoc = append(u.Havoc, strings.Fields(rest)...)
		case "pure":
			u.PureUF = append(u.PureUF, strings.Fields(rest)...)
		case "inline":
			u.Inline = append(u.Inline, strings.Fields(rest)...)
		case "check":
			for _, k := range splitNames(rest) {
				u.Checks[k] = true
			}
		case "loop":
			u.Loops = append(u.Loops, parseExpr(rest, at))
		case "flag":
			k, v, _ := strings.Cut(rest, " ")
			u.Flags[k] = v
		case "lemma":
			if i := strings.Index(rest, ":"); i > 0 && strings.HasPrefix(rest, "(") {
				u.LemmaVars = splitNames(strings.Trim(strings.TrimSpace(rest[:i]), "()"))
				rest = rest[i+1:]
			}
			u.Lemma = parseExpr(rest, at)
		case "ensures":
			a := act()
			a.Kind = "assert"
			a.E = parseExpr(rest, at)
			u.Ensures = append(u.Ensures, a)
			cl = nil
		case "on", "maybe":
			if kw == "maybe" {
				rest = strings.TrimPrefix(rest, "on ")
			}
			ev, h, _ := strings.Cut(rest, " ")
			cl = &Clause{Event: ev, Line: at, Opt: kw == "maybe"}
			parseHeader(strings.TrimSuffix(strings.TrimSpace(h), ":"), at, cl)
			u.Clauses = append(u.Clauses, cl)
		case "assert", "assume":
			if cl == nil {
				fatal("%s: %s outside a clause", at, kw)
			}
			a := act()
			a.E = parseExpr(rest, at)
			cl.Acts = append(cl.Acts, a)
		case "set":
			a := act()
			v, e, ok := strings.Cut(rest, " = ")
			if !ok {
				fatal("%s: bad set", at)
			}
			v = strings.TrimSpace(v)
			if i := strings.Index(v, "["); i > 0 {
				a.Idx = parseExpr(strings.TrimSuffix(v[i+1:], "]"), at)
				v = v[:i]
			}
			a.Var = v
			a.E = parseExpr(e, at)
			cl.Acts = append(cl.Acts, a)
		case "spec":
			h, e, ok := strings.Cut(rest, " = ")
			if !ok {
				fatal("%s: bad spec", at)
			}
			m := &Macro{E: parseExpr(e, at)}
			i := strings.Index(h, "(")
			if i < 0 {
				m.Name = strings.TrimSpace(h)
			} else {
				m.Name = strings.TrimSpace(h[:i])
				m.Params = splitNames(strings.TrimSuffix(strings.TrimSpace(h[i+1:]), ")"))
			}
			S.Macros[m.Name] = m
		case "uninterp":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			S.Uninterp[rest[:i]] = append(splitNames(rest[i+1:j]), strings.TrimSpace(rest[j+1:]))
		case "group":
			// a list of function patterns, used as @NAME
			h, e, _ := strings.Cut(rest, " ")
			S.Groups[h] = append(S.Groups[h], strings.Fields(e)...)
		case "cover":
			// cover PROPERTY [except PACKAGE...]
			w := strings.Fields(rest)
			S.Cover[w[0]] = true
			for _, p := range w[1:] {
				S.Uncovered[p] = true
			}
		case "axiom":
			S.Axioms = append(S.Axioms, parseExpr(rest, at))
		case "initonly":
			S.InitOnly = append(S.InitOnly, splitNames(rest)...)
		case "guard":
			h, fs, _ := strings.Cut(rest, ":")
			h = strings.TrimSpace(h)
			i := strings.LastIndex(h, ".")
			g := &Guard{Type: h[:i], Mu: h[i:]}
			for _, f := range splitNames(fs) {
				if strings.HasPrefix(f, "[") {
					g.All = append(g.All, strings.Trim(f, "[]"))
				} else {
					g.Fields = append(g.Fields, "."+f)
				}
			}
			S.Guards = append(S.Guards, g)
		case "invariant":
			// invariant[LABEL] Type.mu(self): expr
			h, e, _ := strings.Cut(rest, ": ")
			i := strings.Index(h, "(")
			name, self := h[:i], strings.TrimSuffix(strings.TrimSpace(h[i+1:]), ")")
			j := strings.LastIndex(name, ".")
			found := false
			for _, g := range S.Guards {
				if g.Type == name[:j] && g.Mu == name[j:] {
					g.Inv = append(g.Inv, &GuardInv{label, self, parseExpr(e, at), strings.TrimSuffix(filepath.Base(file), ".spec")})
					found = true
				}
			}
			if !found {
				fatal("%s: no guard %s", at, name)
			}
		default:
			fatal("%s: unknown keyword %q", at, kw)
		}
	}
}
