package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var engineAssumptions = []string{
	"go/ssa (golang.org/x/tools v0.52.0) is the meaning of the source; the Go compiler implements it",
	"z3 5.3.2, z3 4.8.12 and cvc5 1.1.2 answer unsat only for unsatisfiable queries",
	"govc's translation of SSA instructions into SMT terms (symbolic execution, loops cut by inferred and declared invariants)",
	"external functions have the contracts of govc/models.go, or else arbitrary results and no effect on this module's memory",
	"memory not guarded by a declared lock is changed by other goroutines only through channels, fuses, atomics and escaped captured variables",
	"int and time.Duration arithmetic does not overflow unless converted",
}

func report(P *Program, specs *SpecSet, prop, tier string, us []*Unit, stats *SolverStats, out, knownFile, witness, repo string, partial bool, start time.Time) int {
	var funcs []jmap
	n, p := 0, 0
	back := map[string]int{}
	labels := map[string]int{}
	var assumed, trusted, problems []string
	type viol struct {
		u *Unit
		f *Failure
		e string
	}
	var viols []viol
	known := loadKnown(knownFile)
	hit := map[int]bool{}
	cycleUnits := false
	for _, u := range us {
		un, up := 0, 0
		for _, l := range u.order {
			o := u.obs[l]
			un += o.N
			up += o.Proved
			labels[u.Name+"/"+l] += o.N
			for b, k := range o.Back {
				back[b] += k
			}
			for _, f := range o.Fails {
				ki := -1
				for i, k := range known {
					if k.prop == prop && k.unit == u.Name && k.label == f.Label {
						ki = i
					}
				}
				if ki >= 0 {
					hit[ki] = true
					continue
				}
				viols = append(viols, viol{u, f, ""})
			}
		}
		n += un
		p += up
		for _, e := range u.errs {
			viols = append(viols, viol{u, nil, e})
		}
		fn := u.Func
		if u.Lemma != nil {
			fn = "(lemma)"
		}
		funcs = append(funcs, jmap{"unit": u.Name, "function": fn, "obligations": un, "discharged": up, "exits": u.exits, "paths": u.x.states,
			"inlined": len(u.x.inlined), "threads_and_callbacks": sortedKeys(u.reached), "wall_s": round(u.wall)})
		for a := range u.assumed {
			assumed = append(assumed, u.Name+": "+a)
		}
		for _, t := range u.Trusted {
			trusted = append(trusted, u.Name+": "+t)
		}
		for k := range u.x.unknownCalls {
			trusted = append(trusted, "no contract, arbitrary result: "+k)
		}
		for k := range u.x.modeled {
			trusted = append(trusted, "library contract: "+k)
		}
		for _, h := range u.Havoc {
			assumed = append(assumed, u.Name+": result of "+h+" is arbitrary")
		}
		for _, h := range u.PureUF {
			assumed = append(assumed, u.Name+": "+h+" is a function of its arguments")
		}
		for k := range u.x.problems {
			problems = append(problems, u.Name+": "+k)
		}
		if u.checks("lockorder") {
			cycleUnits = true
		}
	}
	if cycleUnits {
		n++
		if cyc := P.lockCycle(map[string]bool{}); cyc != nil {
			var s []string
			for _, e := range cyc {
				s = append(s, fmt.Sprintf("%s then %s in %s at %s", e.a, e.b, e.unit, e.pos))
			}
			viols = append(viols, viol{us[0], &Failure{Label: "lockorder", Msg: "the lock order has a cycle: " + strings.Join(s, "; "), Result: "refuted"}, ""})
		} else {
			p++
			back["graph"]++
		}
	}
	if specs.Cover[prop] && !partial {
		places, missing := P.uncovered(specs, us)
		n += places
		p += places - len(missing)
		back["coverage"] += places - len(missing)
		for _, m := range missing {
			viols = append(viols, viol{us[0], &Failure{Label: "covered", Pos: m, Msg: "no contract's paths come past this place, so what is done there is not known to be under the lock", Result: "undecided"}, ""})
		}
	}
	for i, k := range known {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}
	var rc int
	replay := ""
	if len(viols) > 0 {
		rc = 1
		os.MkdirAll(filepath.Join(out, "replay"), 0o755)
		replay = filepath.Join(out, "replay", prop+".txt")
		var b bytes.Buffer
		for _, v := range viols {
			if v.f == nil {
				fmt.Fprintf(&b, "unit %s: contract could not be checked: %s\n", v.u.Name, v.e)
				fmt.Printf("FAILED unit %s: %s\n", v.u.Name, v.e)
				continue
			}
			fmt.Fprintf(&b, "unit %s (%s)\nobligation [%s] %s: %s\n  at %s\n  goal: %s\n  path:\n", v.u.Name, v.u.Func, v.f.Label, v.f.Result, v.f.Msg, v.f.Pos, v.f.Goal)
			for _, t := range v.f.Trace {
				fmt.Fprintf(&b, "    %s\n", t)
			}
			fmt.Fprintf(&b, "  model:\n")
			for _, t := range v.f.Model {
				fmt.Fprintf(&b, "    %s\n", t)
			}
			fmt.Printf("FAILED unit %s obligation [%s] %s at %s: %s\n", v.u.Name, v.f.Label, v.f.Result, v.f.Pos, v.f.Msg)
		}
		found, wout := runWitness(repo, witness, prop)
		fmt.Fprintf(&b, "\n=== replay on the real code (go test -overlay) ===\n%s\n", wout)
		os.WriteFile(replay, b.Bytes(), 0o644)
		if found {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
		}
	}
	sort.Slice(funcs, func(i, j int) bool { return funcs[i]["unit"].(string) < funcs[j]["unit"].(string) })
	var samples []string
	for _, k := range sortedKeys(labels) {
		samples = append(samples, fmt.Sprintf("%s: %d", k, labels[k]))
	}
	tb := append(append([]string{}, engineAssumptions...), uniq(trusted)...)
	if partial {
		return rc
	}
	stats.mu.Lock()
	solver := jmap{}
	for k := range stats.Queries {
		solver[k] = jmap{"queries": stats.Queries[k], "seconds": round(stats.Time[k])}
	}
	stats.mu.Unlock()
	writeJSON(filepath.Join(out, prop+".json"), jmap{
		"property": prop, "tier": tier, "seed": seed(), "level": "proof",
		"coverage": jmap{
			"obligations": n, "discharged": p, "checker_cmd": "/verif/bin/govc -prop " + prop + " -tier " + tier,
			"trusted_base": tb, "functions_under_contract": funcs, "discharged_by": back, "solver": solver,
			"obligations_by_label": samples, "abstractions": uniq(problems),
		},
		"assumptions": uniq(assumed), "wall_s": round(time.Since(start).Seconds()), "violations": len(viols),
	})
	if rc == 0 {
		fmt.Printf("property %s: %d obligations discharged in %d units, %.1f s\n", prop, p, len(us), time.Since(start).Seconds())
	}
	return rc
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

// runWitness runs the property's replay tests on the real code. Files are
// DIR/ID/*_test.go; the first line is "// overlay: <package dir>".
func runWitness(repo, dir, prop string) (bool, string) {
	files, _ := filepath.Glob(filepath.Join(dir, prop, "*_test.go"))
	if len(files) == 0 {
		return false, "no replay harness for this property"
	}
	tmp, err := os.MkdirTemp("", "govc-witness")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	pk := map[string]bool{}
	for i, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		first, _, _ := strings.Cut(string(b), "\n")
		d := strings.TrimSpace(strings.TrimPrefix(first, "// overlay:"))
		repl[filepath.Join(repo, d, fmt.Sprintf("zz_verif%d_test.go", i))] = f
		pk["./"+d] = true
	}
	ov := filepath.Join(tmp, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	// first as they are, then under the race detector
	log := ""
	for _, race := range []bool{false, true} {
		args := []string{"test", "-overlay", ov, "-run", "^TestVerif", "-count=1", "-timeout", "100s", "-vet=off"}
		if race {
			args = append(args, "-race")
		}
		args = append(args, sortedKeys(pk)...)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
		cmd.WaitDelay = time.Second
		o, err := cmd.CombinedOutput()
		cancel()
		s := "go " + strings.Join(args, " ") + "\n" + string(o)
		if len(s) > 60000 {
			s = s[:60000]
		}
		log += s
		if err == nil {
			log += "\nthe replay tests pass\n"
			continue
		}
		return strings.Contains(s, "--- FAIL: TestVerif") || strings.Contains(s, "panic: ") && strings.Contains(s, "FAIL"), log
	}
	return false, log
}
