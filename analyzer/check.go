package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The command line of a registered check: az check <property> <verif dir>.

type finding struct{ prop, id, text string }

func knownFindings(dir string) []finding {
	f, err := os.Open(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var l []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := sc.Text()
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		k := finding{}
		var rest []string
		for _, w := range strings.Fields(line[7:]) {
			switch {
			case strings.HasPrefix(w, "property=") && k.prop == "":
				k.prop = w[9:]
			case strings.HasPrefix(w, "id=") && k.id == "":
				k.id = w[3:]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		l = append(l, k)
	}
	return l
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func checkMain() int {
	t0 := time.Now()
	id, dir := os.Args[2], os.Args[3]
	p := load(repoDir())
	if len(p.errs) > 0 {
		fmt.Println("the tree does not type-check:", p.errs)
		return 2
	}
	c := newCheck(p)
	c.runSpecs(id)
	t := c.t(id)
	var rules []string
	for _, s := range specs {
		if contains(split(s.props), id) {
			rules = append(rules, s.name)
		}
	}
	if len(rules) == 0 {
		fmt.Println("no rule for property", id)
		return 2
	}

	ev := &evidence{Property: id, Tier: os.Getenv("VERIF_TIER"), Level: "other", Coverage: map[string]any{}}
	if ev.Tier != "thorough" {
		ev.Tier = "quick"
	}
	ev.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	funcs := map[string]bool{}
	paths, states, sites := 0, 0, 0
	var views []string
	for _, n := range sortedKeys(c.views) {
		v := c.views[n]
		if !t.Views[n] {
			continue
		}
		views = append(views, fmt.Sprintf("%s: %d paths, %d states", n, len(v.paths), v.e.nstates))
		paths += len(v.paths)
		states += v.e.nstates
		at := map[string]bool{}
		for _, q := range v.paths {
			for _, e := range q.evs {
				at[e.name+p.pos(e.pos)] = true
			}
		}
		sites += len(at)
		for f := range v.e.funcs {
			funcs[fnName(f)] = true
		}
	}
	cov := ev.Coverage
	cov["explanation"] = "Path-sensitive dataflow analysis of the SSA form of the current tree. Every way each entry point can end is enumerated over abstract values (with equal-outcome states merged); " +
		"each rule below states an obligation per path or call site, decided from the facts the path's branches establish. A violated obligation names the construct and the path."
	cov["rules"] = rules
	cov["obligations"] = t.Obligations
	cov["discharged"] = t.Discharged
	cov["obligations_by_rule"] = t.Rules
	cov["views"] = views
	cov["paths_analysed"] = paths
	cov["abstract_states"] = states
	cov["effect_call_sites"] = sites
	fl := sortedKeys(funcs)
	cov["functions_analysed"] = len(fl)
	cov["functions"] = fl
	cov["samples"] = t.Samples
	cov["exhaustive"] = false
	ev.Assumptions = assumptions

	known := map[string]finding{}
	for _, k := range knownFindings(dir) {
		if k.prop == id {
			known[k.id] = k
		}
	}
	rc := 0
	printed := map[string]bool{}
	sort.SliceStable(t.Viols, func(i, j int) bool { return t.Viols[i].Where < t.Viols[j].Where })
	var bad []*Viol
	for _, v := range t.Viols {
		if k, ok := known[v.Known]; ok && v.Known != "" {
			if !printed[v.Known] {
				printed[v.Known] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.id, k.text)
			}
			continue
		}
		bad = append(bad, v)
	}
	cov["known_findings"] = sortedKeys(printed)
	ev.Violations = len(bad)
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if len(bad) > 0 {
		rc = 1
		rel := filepath.Join("evidence", id+".violation.json")
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(filepath.Join(dir, rel), b, 0o644)
		for i, v := range bad {
			if i == 10 {
				fmt.Printf("... and %d more\n", len(bad)-i)
				break
			}
			fmt.Printf("%s: %s: %s: %s\n", v.Where, v.Func, v.Rule, v.What)
			for _, l := range v.Trace {
				fmt.Println("    " + l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rel)
	} else {
		os.Remove(filepath.Join(dir, "evidence", id+".violation.json"))
		fmt.Printf("property %s: %d obligations discharged over %d paths in %d functions\n", id, t.Discharged, paths, len(fl))
	}
	ev.Wall = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return rc
}

var assumptions = []string{
	"Go's type checker and the SSA construction of golang.org/x/tools represent the source faithfully",
	"the modelled behaviour of the standard library and of the JWT library is right",
	"an application's data interface and callbacks keep their own contracts: getters of one object are stable within a request, error types are the declared ones, and objects returned by callbacks without an error are usable",
	"memory is not corrupted and requests are not mutated by other goroutines while they are served",
}
