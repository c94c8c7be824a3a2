package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var debugUnit = flag.Bool("v", false, "verbose")

func main() {
	if os.Getenv("GOVC_FORKS") != "" {
		forks = map[string]int{} // with -j 1
	}
	repo := flag.String("repo", "/repo", "source tree")
	specDir := flag.String("specs", "/verif/contracts", "contracts")
	out := flag.String("evidence", "/verif/evidence", "evidence directory")
	known := flag.String("known", "/verif/known-findings.txt", "known findings")
	witness := flag.String("witness", "/verif/witness", "witness harnesses")
	tier := flag.String("tier", "quick", "tier")
	prop := flag.String("prop", "", "property to check")
	unit := flag.String("unit", "", "run only units whose name contains this (debugging)")
	jobs := flag.Int("j", 6, "units in parallel")
	dump := flag.String("dump", "", "dump SSA of functions")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	hardStop = time.Now().Add(9 * time.Minute)
	if *tier == "thorough" {
		hardStop = time.Now().Add(60 * time.Minute)
	}
	debugFlag = debug || *debugUnit
	start := time.Now()
	P, err := loadProgram(*repo)
	if err != nil {
		if *prop != "" {
			noAnswer(*prop, *out, *tier, err.Error())
		}
		fatal("%v", err)
	}
	if *dump != "" || *list {
		for _, n := range sortedKeys(P.funcs) {
			f := P.funcs[n]
			if *list {
				fmt.Println(n, len(f.Blocks))
			} else if strings.Contains(n, *dump) {
				fmt.Println("###", n)
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	specs := loadSpecs(*specDir)
	var units []*UnitSpec
	for _, u := range specs.Units {
		if *prop != "" && !hasProp(u, *prop) {
			continue
		}
		if *unit != "" && !strings.Contains(u.Name, *unit) {
			continue
		}
		units = append(units, u)
	}
	if len(units) == 0 {
		fatal("no units for %s", *prop)
	}
	P.mutableGlobal(nil)
	stats := newSolverStats()
	res := make([]*Unit, len(units))
	var wg sync.WaitGroup
	sem := make(chan struct{}, *jobs)
	for i := range units {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			res[i] = runUnit(P, specs, units[i], stats)
			if *unit != "" || debugFlag {
				show(res[i])
			}
		}()
	}
	wg.Wait()
	if *prop == "" {
		bad := 0
		for _, u := range res {
			if *unit == "" && !debugFlag {
				show(u)
			}
			if u.fails > 0 || len(u.errs) > 0 {
				bad++
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	os.Exit(report(P, specs, *prop, *tier, res, stats, *out, *known, *witness, *repo, *unit != "", start))
}

func hasProp(u *UnitSpec, p string) bool {
	for _, n := range strings.Fields(strings.ReplaceAll(u.Property, ",", " ")) {
		if n == p {
			return true
		}
	}
	return false
}

var showMu sync.Mutex

func show(u *Unit) {
	showMu.Lock()
	defer showMu.Unlock()
	n, p := 0, 0
	for _, l := range u.order {
		n += u.obs[l].N
		p += u.obs[l].Proved
	}
	if forks != nil {
		var l []string
		for k, n := range forks {
			l = append(l, fmt.Sprintf("%6d %s", n, k))
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	}
	fmt.Printf("unit %s: %d/%d obligations, %d exits, %d states, %d steps, %.1fs\n", u.Name, p, n, u.exits, u.x.states, u.x.steps, u.wall)
	for _, e := range u.errs {
		fmt.Println("  ERROR", e)
	}
	for _, l := range u.order {
		o := u.obs[l]
		if debugFlag || len(o.Fails) > 0 {
			fmt.Printf("  [%s] %d/%d %v\n", l, o.Proved, o.N, o.Back)
		}
		for _, f := range o.Fails {
			fmt.Printf("    FAIL %s %s: %s\n", f.Result, f.Pos, f.Msg)
			fmt.Printf("      goal %s\n", f.Goal)
			fmt.Printf("      trace %s\n", strings.Join(f.Trace, " | "))
			fmt.Printf("      model %s\n", strings.Join(f.Model, "; "))
		}
	}
	if debugFlag {
		for _, k := range sortedKeys(u.x.problems) {
			fmt.Println("  problem", k)
		}
		fmt.Println("  unknown calls", u.x.unknownCalls)
		fmt.Println("  reached", sortedKeys(u.reached))
	}
}

type jmap = map[string]any

func noAnswer(prop, out, tier, msg string) {
	os.MkdirAll(filepath.Join(out, "replay"), 0o755)
	rp := filepath.Join(out, "replay", prop+".txt")
	os.WriteFile(rp, []byte("the source could not be loaded, no obligation was generated:\n"+msg+"\n"), 0o644)
	writeJSON(filepath.Join(out, prop+".json"), jmap{"property": prop, "tier": tier, "seed": seed(), "level": "proof",
		"coverage":    jmap{"obligations": 0, "discharged": 0, "checker_cmd": "govc -prop " + prop, "trusted_base": []string{msg}},
		"assumptions": []string{}, "wall_s": 0, "violations": 1})
	fmt.Printf("govc: %s\n", msg)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	os.Exit(1)
}

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func writeJSON(p string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

// knownFinding is one line: KNOWN property=ID unit=U label=L | what fails
type knownFinding struct {
	prop, unit, label, what string
}

func loadKnown(p string) []knownFinding {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		head, what, _ := strings.Cut(l[6:], " | ")
		k := knownFinding{what: what}
		for _, f := range strings.Fields(head) {
			n, v, _ := strings.Cut(f, "=")
			switch n {
			case "property":
				k.prop = v
			case "unit":
				k.unit = v
			case "label":
				k.label = v
			}
		}
		out = append(out, k)
	}
	return out
}

var uniq = func(l []string) []string {
	sort.Strings(l)
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}
