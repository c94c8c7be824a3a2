package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// stats are per solver back end.
type SolverStats struct {
	mu      sync.Mutex
	Queries map[string]int
	Time    map[string]float64
	Proved  map[string]int
}

func newSolverStats() *SolverStats {
	return &SolverStats{Queries: map[string]int{}, Time: map[string]float64{}, Proved: map[string]int{}}
}

func (s *SolverStats) add(backend string, d time.Duration, proved bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Queries[backend]++
	s.Time[backend] += d.Seconds()
	if proved {
		s.Proved[backend]++
	}
}

// Solver is an incremental z3 process with a stack of asserted terms.
type Solver struct {
	quant  map[*Term]bool
	gsk    map[*Term][]*Term // witnesses of refuted universals
	g      *Solver           // for the ground attempts
	c      *Ctx
	cmd    *exec.Cmd
	in     io.WriteCloser
	w      *bufio.Writer
	r      *bufio.Reader
	pr     *printer
	stack  []*Term
	stats  *SolverStats
	ms     int
	dead   bool
	cache  map[string]Result
	Budget time.Duration // fallback budget for one obligation
}

func newSolver(c *Ctx, stats *SolverStats) *Solver {
	s := &Solver{c: c, stats: stats, cache: map[string]Result{}, Budget: 20 * time.Second}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2", "-memory:6000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("z3 pipe: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("z3 pipe: %v", err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.r = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.ms = -1
	s.pr = newPrinter(s.c, func(d string) { s.send(d) })
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :print-success false)")
	s.send("(set-option :produce-models true)")
	s.send("(set-option :smt.random_seed 1)")
}

func (s *Solver) send(x string) {
	if smtTrace != nil {
		fmt.Fprintln(smtTrace, x)
	}
	s.w.WriteString(x)
	s.w.WriteByte('\n')
}

var smtTrace io.Writer
var slowDir = os.Getenv("GOVC_SLOW")

func (s *Solver) close() {
	if s.g != nil {
		s.g.close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) readAnswer() (string, error) {
	for {
		line, err := s.r.ReadString('\n')
		if err != nil {
			return "", err
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		return line, nil
	}
}

func (s *Solver) align(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		str := s.pr.str(t)
		s.send("(push 1)")
		s.send("(assert " + str + ")")
		s.stack = append(s.stack, t)
	}
}

// hardStop is when the run stops asking solvers: what is not discharged by then counts as failed, so
// that a check always answers.
var hardStop time.Time

func outOfTime() bool { return !hardStop.IsZero() && time.Now().After(hardStop) }

// check decides satisfiability of pc ∧ extra.
func (s *Solver) check(pc []*Term, extra *Term, ms int) Result {
	for _, t := range pc {
		if t.IsFalse() {
			return Unsat
		}
	}
	if extra != nil && extra.IsFalse() {
		return Unsat
	}
	if outOfTime() {
		return Unknown
	}
	s.align(pc)
	es := ""
	if extra != nil {
		es = s.pr.str(extra)
	}
	s.send("(push 1)")
	if extra != nil {
		s.send("(assert " + es + ")")
	}
	if ms != s.ms {
		s.send(fmt.Sprintf("(set-option :timeout %d)", ms))
		s.ms = ms
	}
	start := time.Now()
	s.send("(check-sat)")
	s.w.Flush()
	type ans struct {
		s   string
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		a, err := s.readAnswer()
		ch <- ans{a, err}
	}()
	var a ans
	select {
	case a = <-ch:
	case <-time.After(time.Duration(ms)*time.Millisecond + 15*time.Second):
		s.cmd.Process.Kill()
		a = <-ch
		if a.err == nil {
			a.err = fmt.Errorf("timeout")
		}
	}
	d := time.Since(start)
	if a.err != nil {
		s.stats.add("z3-new", d, false)
		if slowDir != "" {
			os.WriteFile(fmt.Sprintf("%s/k%d.smt2", slowDir, time.Now().UnixNano()), []byte(fmt.Sprintf("; %v killed\n", d)+s.script(pc, extra)), 0o644)
		}
		s.cmd.Wait()
		s.start()
		return Unknown
	}
	res := Unknown
	switch {
	case a.s == "sat":
		res = Sat
	case a.s == "unsat":
		res = Unsat
	case strings.HasPrefix(a.s, "(error"):
		fmt.Fprintf(os.Stderr, "z3: %s\n", a.s)
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "query: %s\n", es)
		}
		// the answer to check-sat may still follow; resynchronise by restarting
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.stats.add("z3-new", d, false)
		s.start()
		return Unknown
	}
	s.stats.add("z3-new", d, false)
	s.send("(pop 1)")
	if slowDir != "" {
		if f, err := os.OpenFile(slowDir+"/log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintln(f, d.Milliseconds(), ms, res, len(pc))
			f.Close()
		}
	}
	if slowDir != "" && d > time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", slowDir, time.Now().UnixNano()), []byte(fmt.Sprintf("; %v %v\n", d, res)+s.script(pc, extra)), 0o644)
	}
	return res
}

// model evaluates terms in a model of pc ∧ extra (best effort).
func (s *Solver) model(pc []*Term, extra *Term, terms []*Term) []string {
	s.align(pc)
	es := ""
	if extra != nil {
		es = s.pr.str(extra)
	}
	var ts []string
	for _, t := range terms {
		ts = append(ts, s.pr.str(t))
	}
	s.send("(push 1)")
	if extra != nil {
		s.send("(assert " + es + ")")
	}
	if s.ms != 1000 {
		s.send("(set-option :timeout 1000)")
		s.ms = 1000
	}
	s.send("(check-sat)")
	s.w.Flush()
	a, err := s.readAnswer()
	var out []string
	if err == nil && a == "sat" {
		for _, t := range ts {
			s.send("(eval " + t + ")")
			s.w.Flush()
			l, err := s.readAnswer()
			if err != nil {
				break
			}
			for strings.Count(l, "(") > strings.Count(l, ")") {
				m, err := s.readAnswer()
				if err != nil {
					break
				}
				l += " " + m
			}
			out = append(out, l)
		}
	}
	s.send("(pop 1)")
	return out
}

// noQuant drops the quantified parts of a path condition.
func (s *Solver) noQuant(pc []*Term) []*Term {
	var out []*Term
	for _, t := range pc {
		if !s.quantified(t) {
			out = append(out, t)
		}
	}
	return out
}

func (s *Solver) quantified(t *Term) bool {
	if s.quant == nil {
		s.quant = map[*Term]bool{}
	}
	if q, ok := s.quant[t]; ok {
		return q
	}
	q := hasOp(t, "forall") || hasOp(t, "exists")
	s.quant[t] = q
	return q
}

// script renders a standalone SMT-LIB script for pc ∧ extra.
func (s *Solver) script(pc []*Term, extra *Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	p := newPrinter(s.c, func(d string) { b.WriteString(d); b.WriteByte('\n') })
	all := append(append([]*Term{}, pc...), nil)
	all[len(all)-1] = extra
	for _, t := range all {
		if t == nil {
			continue
		}
		x := p.str(t)
		b.WriteString("(assert " + x + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// prove decides validity of pc ⇒ goal, trying all back ends.
func (s *Solver) prove(pc []*Term, goal *Term) (Result, string) {
	if hasOp(goal, "bstore") {
		pc, goal = s.c.propagate(pc, goal)
		if goal.IsTrue() {
			return Unsat, "simplifier"
		}
	}
	if goal.Op == "=" && goal.Args[0].Sort == SString && hasOp(goal, "ite") {
		if goal = s.decideItes(pc, goal); goal.IsTrue() {
			return Unsat, "simplifier"
		}
	}
	if outOfTime() {
		return Unknown, "none"
	}
	neg := s.c.Not(goal)
	if s.groundUnsat(pc, neg, 1500) {
		s.stats.mu.Lock()
		s.stats.Proved["z3-new"]++
		s.stats.mu.Unlock()
		return Unsat, "z3-new"
	}
	r := s.check(pc, neg, 3000)
	if r != Unknown {
		if r == Unsat {
			s.stats.mu.Lock()
			s.stats.Proved["z3-new"]++
			s.stats.mu.Unlock()
		}
		return r, "z3-new"
	}
	script := s.script(pc, neg)
	type res struct {
		r Result
		b string
		d time.Duration
	}
	cands := [][]string{
		{"cvc5", "cvc5", "--lang=smt2", "--strings-exp", "--arrays-exp", "--fp-exp"},
		{"z3-new", "z3-new", "-in", "-smt2"},
		{"z3", "z3", "-in", "-smt2"},
		{"cvc5-enum", "cvc5", "--lang=smt2", "--strings-exp", "--fp-exp", "--full-saturate-quant"},
	}
	ch := make(chan res, len(cands))
	var cmds []*exec.Cmd
	for _, cd := range cands {
		cmd := exec.Command(cd[1], cd[2:]...)
		cmd.Stdin = strings.NewReader(script)
		cmds = append(cmds, cmd)
		go func(name string) {
			st := time.Now()
			out, _ := cmd.Output()
			rr := Unknown
			for _, l := range strings.Split(string(out), "\n") {
				switch strings.TrimSpace(l) {
				case "unsat":
					rr = Unsat
				case "sat":
					rr = Sat
				}
			}
			ch <- res{rr, name, time.Since(st)}
		}(cd[0])
	}
	to := time.After(s.Budget)
	got := Unknown
	backend := "none"
	n := 0
loop:
	for n < len(cands) {
		select {
		case x := <-ch:
			n++
			s.stats.add(x.b, x.d, x.r == Unsat)
			if x.r == Unsat || (x.r == Sat && got == Unknown) {
				got, backend = x.r, x.b
				break loop
			}
		case <-to:
			break loop
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	return got, backend
}

// decideItes replaces the alternatives between strings whose condition is decided.
func (s *Solver) decideItes(pc []*Term, t *Term) *Term {
	var ints []*Term
	for _, p := range pc {
		if !hasSort(p, SString) && !hasOp(p, "forall") && !hasOp(p, "exists") {
			ints = append(ints, p)
		}
	}
	pc = ints
	for i := 0; i < 6; i++ {
		var cond *Term
		seen := map[*Term]bool{}
		sub := map[*Term]*Term{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] || cond != nil {
				return
			}
			seen[t] = true
			if t.Op == "forall" || t.Op == "exists" {
				return
			}
			if t.Op == "ite" && t.Sort == SString {
				if s.check(pc, s.c.Not(t.Args[0]), 300) == Unsat {
					cond, sub[t] = t.Args[0], t.Args[1]
				} else if s.check(pc, t.Args[0], 300) == Unsat {
					cond, sub[t] = t.Args[0], t.Args[2]
				}
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(t)
		if cond == nil {
			return t
		}
		t = s.c.Subst(t, sub)
	}
	return t
}

func hasSort(t *Term, so Sort) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Sort == so {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func hasOp(t *Term, op string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == op {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// propagate substitutes integer constants whose value the path condition
// states (k = x or k = x + d) in the path condition and the goal.
func (c *Ctx) propagate(pc []*Term, goal *Term) ([]*Term, *Term) {
	sub := map[*Term]*Term{}
	var keep []*Term
	for _, t := range pc {
		if t.Op != "=" || t.Args[0].Sort != SInt {
			continue
		}
		for i := 0; i < 2; i++ {
			v, e := t.Args[i], t.Args[1-i]
			if v.Op != "int" {
				continue
			}
			var k *Term
			for _, a := range append([]*Term{e}, e.Args...) {
				if a.Op == "const" {
					k = a
				}
			}
			if k == nil || sub[k] != nil {
				continue
			}
			// e - k must be a literal
			if d := c.Sub(e, k); d.Op == "int" {
				sub[k] = c.Sub(v, d)
				keep = append(keep, t)
			}
		}
	}
	if len(sub) == 0 {
		return pc, goal
	}
	var out []*Term
	for _, t := range pc {
		out = append(out, c.Subst(t, sub))
	}
	return append(out, keep...), c.Subst(goal, sub)
}
