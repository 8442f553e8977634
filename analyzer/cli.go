package main

import (
	"fmt"
	"os"
	"slices"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// specsMain runs rules and prints everything they report (for development).
func specsMain() {
	t := time.Now()
	p := load(repoDir())
	if len(p.errs) > 0 {
		fmt.Println(p.errs)
		os.Exit(1)
	}
	c := newCheck(p)
	only := ""
	if len(os.Args) > 2 {
		only = os.Args[2]
	}
	if os.Getenv("VERIF_COVER") != "" {
		p.covered = map[*ssa.Function]bool{}
	}
	c.runSpecs(only)
	if p.covered != nil {
		for _, f := range p.allFuncs() {
			if !p.covered[f] && f.Synthetic == "" {
				fmt.Println("not analysed:", f)
			}
		}
	}
	var ids []string
	for id := range c.tally {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool {
		if (ids[i] == only) != (ids[j] == only) {
			return ids[i] == only
		}
		return ids[i] < ids[j]
	})
	seen := map[string]bool{}
	for _, id := range ids {
		t := c.tally[id]
		fmt.Printf("%s obligations %d discharged %d violations %d\n", id, t.Obligations, t.Discharged, len(t.Viols))
		for i, v := range t.Viols {
			k := v.Rule + v.Where + v.What
			if seen[k] {
				continue
			}
			seen[k] = true
			if i > 8 {
				break
			}
			if !slices.Contains(v.Props, id) {
				v.Props = append(slices.Clone(v.Props), id)
			}
			fmt.Printf("   %v %s: %s %s: %s\n", v.Props, v.Rule, v.Where, v.Func, v.What)
			if os.Getenv("VERIF_TRACE") != "" {
				for _, l := range v.Trace {
					fmt.Println("        " + l)
				}
			}
		}
	}
	fmt.Println("time", time.Since(t))
}
