package main

// A first attempt at goals under quantified assumptions: the negated goal is
// skolemized and the assumptions are replaced by their instances at the terms
// that come up as indices.  What is asserted follows from the original, so an
// unsatisfiable result settles the goal; any other result says nothing.

type grounder struct {
	c     *Ctx
	sk    map[*Term][]*Term // witnesses, one tuple per refuted universal
	terms map[Sort][]*Term
	seen  map[*Term]bool
	limit int
	part  bool
}

func (s *Solver) grounder() *grounder {
	if s.gsk == nil {
		s.gsk = map[*Term][]*Term{}
	}
	return &grounder{c: s.c, sk: s.gsk, terms: map[Sort][]*Term{}, seen: map[*Term]bool{}, limit: 24}
}

// collect notes the closed terms used as array indices.
func (g *grounder) collect(t *Term) {
	done := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if done[t] || t.Op == "forall" {
			return
		}
		done[t] = true
		if (t.Op == "select" || t.Op == "store") && !t.Args[1].bv {
			g.note(t.Args[1])
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

func (g *grounder) note(t *Term) {
	if g.seen[t] || t.Sort != SString && t.Sort != SInt || t.Op == "int" && t.I > 1<<60 {
		return
	}
	if len(g.terms[t.Sort]) >= g.limit {
		return
	}
	g.seen[t] = true
	g.terms[t.Sort] = append(g.terms[t.Sort], t)
	// an element of a slice: its position in the slice
	if t.Op == "+" && !g.part {
		g.part = true
		for i, a := range t.Args {
			if a.Op == "int" {
				continue
			}
			rest := g.c.Int(0)
			for j, b := range t.Args {
				if j != i {
					rest = g.c.Add(rest, b)
				}
			}
			g.note(rest)
		}
		g.part = false
	}
}

// witness skolemizes a refuted universal.
func (g *grounder) witness(t *Term) *Term {
	n := len(t.Args) - 1
	w := g.sk[t]
	if w == nil {
		for _, v := range t.Args[:n] {
			w = append(w, g.c.Fresh("sk", v.Sort))
		}
		g.sk[t] = w
	}
	m := map[*Term]*Term{}
	for i, v := range t.Args[:n] {
		m[v] = w[i]
		g.note(w[i])
	}
	if rebinds(t.Args[n], t.Args[:n]) {
		return nil
	}
	return g.c.Subst(t.Args[n], m)
}

// rebinds: a quantifier within uses one of the variables again.
func rebinds(t *Term, vars []*Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bv && t.Op != "forall" || seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "forall" {
			for _, v := range t.Args[:len(t.Args)-1] {
				for _, u := range vars {
					if u == v {
						return true
					}
				}
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// weaken gives a quantifier-free consequence of t (pos) or of its negation,
// with the universals instantiated at the noted terms if inst.
func (g *grounder) weaken(t *Term, pos, inst bool) *Term {
	c := g.c
	if !hasOp(t, "forall") {
		return t
	}
	switch t.Op {
	case "not":
		return c.Not(g.weaken(t.Args[0], !pos, inst))
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, g.weaken(a, pos, inst))
		}
		if t.Op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "=>":
		return c.Implies(g.weaken(t.Args[0], !pos, inst), g.weaken(t.Args[1], pos, inst))
	case "ite":
		if !hasOp(t.Args[0], "forall") {
			return c.Ite(t.Args[0], g.weaken(t.Args[1], pos, inst), g.weaken(t.Args[2], pos, inst))
		}
	case "forall":
		if !pos {
			b := g.witness(t)
			if b == nil {
				return c.Bool(false)
			}
			return g.weaken(b, pos, inst)
		}
		if !inst {
			return c.Bool(true)
		}
		n := len(t.Args) - 1
		vars, body := t.Args[:n], t.Args[n]
		if rebinds(body, vars) {
			return c.Bool(true)
		}
		var out []*Term
		var rec func(i int, m map[*Term]*Term)
		rec = func(i int, m map[*Term]*Term) {
			if len(out) > 150 {
				return
			}
			if i == n {
				out = append(out, g.weaken(c.Subst(body, m), true, inst))
				return
			}
			for _, k := range g.terms[vars[i].Sort] {
				m2 := map[*Term]*Term{vars[i]: k}
				for a, b := range m {
					m2[a] = b
				}
				rec(i+1, m2)
			}
		}
		rec(0, map[*Term]*Term{})
		return c.And(out...)
	}
	// undetermined polarity
	return c.Bool(pos)
}

// groundUnsat: the assumptions (and the negated goal) are unsatisfiable already
// in their relevant instances.
func (s *Solver) groundUnsat(pc []*Term, neg *Term, ms int) bool {
	return s.ground(pc, neg, ms) == Unsat
}

// ground: Unsat is an answer; Sat is that of the instances only.
func (s *Solver) ground(pc []*Term, neg *Term, ms int) Result {
	quant := neg != nil && s.quantified(neg)
	for _, t := range pc {
		if quant {
			break
		}
		quant = s.quantified(t)
	}
	if !quant {
		return Unknown
	}
	g := s.grounder()
	rounds := 3
	if neg == nil {
		g.limit, rounds = 8, 1
	}
	var first *Term
	if neg != nil {
		first = g.weaken(neg, true, false)
		g.collect(first)
	}
	var qs []*Term
	var asserts []*Term
	for _, t := range pc {
		if s.quantified(t) {
			qs = append(qs, t)
		} else {
			asserts = append(asserts, t)
		}
	}
	if neg == nil || len(g.terms[SString]) == 0 {
		for i := len(asserts) - 1; i >= 0 && i >= len(asserts)-60; i-- {
			g.collect(asserts[i])
		}
	}
	if neg != nil {
		qs = append(qs, neg)
	}
	var insts []*Term
	for round := 0; round < rounds; round++ {
		before := len(g.seen)
		insts = insts[:0]
		for _, q := range qs {
			insts = append(insts, g.weaken(q, true, true))
		}
		for _, t := range insts {
			g.collect(t)
		}
		if len(g.seen) == before {
			break
		}
	}
	if s.g == nil {
		s.g = newSolver(s.c, s.stats)
		s.g.Budget = s.Budget
	}
	all := append(append([]*Term{}, asserts...), insts...)
	return s.g.check(all, nil, ms)
}
