package main

import (
	"fmt"
	"regexp/syntax"
	"strings"
)

// reSMT translates a Go regular expression (no anchors, no captures needed) to
// an SMT-LIB RegLan term.
func reSMT(src string) (string, error) {
	r, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return "", err
	}
	return reTerm(r)
}

func reTerm(r *syntax.Regexp) (string, error) {
	ch := func(c rune) string { return fmt.Sprintf("\"\\u{%x}\"", c) }
	subs := func(op, empty string) (string, error) {
		var out []string
		for _, s := range r.Sub {
			t, err := reTerm(s)
			if err != nil {
				return "", err
			}
			out = append(out, t)
		}
		switch len(out) {
		case 0:
			return empty, nil
		case 1:
			return out[0], nil
		}
		return "(" + op + " " + strings.Join(out, " ") + ")", nil
	}
	sub := func() (string, error) { return reTerm(r.Sub[0]) }
	switch r.Op {
	case syntax.OpEmptyMatch:
		return `(str.to_re "")`, nil
	case syntax.OpLiteral:
		s := ""
		for _, c := range r.Rune {
			s += fmt.Sprintf("\\u{%x}", c)
		}
		return `(str.to_re "` + s + `")`, nil
	case syntax.OpCharClass:
		var out []string
		for i := 0; i+1 < len(r.Rune); i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			if lo == hi {
				out = append(out, "(str.to_re "+ch(lo)+")")
			} else {
				out = append(out, "(re.range "+ch(lo)+" "+ch(hi)+")")
			}
		}
		if len(out) == 1 {
			return out[0], nil
		}
		return "(re.union " + strings.Join(out, " ") + ")", nil
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return "re.allchar", nil
	case syntax.OpStar:
		t, err := sub()
		return "(re.* " + t + ")", err
	case syntax.OpPlus:
		t, err := sub()
		return "(re.+ " + t + ")", err
	case syntax.OpQuest:
		t, err := sub()
		return "(re.opt " + t + ")", err
	case syntax.OpRepeat:
		t, err := sub()
		if r.Max < 0 {
			return fmt.Sprintf("(re.++ ((_ re.^ %d) %s) (re.* %s))", r.Min, t, t), err
		}
		return fmt.Sprintf("((_ re.loop %d %d) %s)", r.Min, r.Max, t), err
	case syntax.OpCapture:
		return sub()
	case syntax.OpConcat:
		return subs("re.++", `(str.to_re "")`)
	case syntax.OpAlternate:
		return subs("re.union", "re.none")
	}
	return "", fmt.Errorf("regexp operator %v not supported", r.Op)
}

// reLitStar recognises lit[class]*.
func reLitStar(src string) (string, []rune, bool) {
	r, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return "", nil, false
	}
	lit := ""
	if r.Op == syntax.OpConcat && len(r.Sub) == 2 && r.Sub[0].Op == syntax.OpLiteral {
		lit = string(r.Sub[0].Rune)
		r = r.Sub[1]
	}
	if r.Op == syntax.OpStar && r.Sub[0].Op == syntax.OpCharClass {
		return lit, r.Sub[0].Rune, true
	}
	return "", nil, false
}
