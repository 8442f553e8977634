package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// run analyses fn with opaque arguments named by names.
func (e *Engine) entry(fn *ssa.Function, names ...string) []*Out {
	var args []*Term
	for i, p := range fn.Params {
		n := fmt.Sprintf("arg%d", i)
		if i < len(names) {
			n = names[i]
		}
		args = append(args, mkParam(n, p.Type()))
	}
	return e.entryArgs(fn, args, nil)
}

func (e *Engine) entryArgs(fn *ssa.Function, args, binds []*Term) []*Out {
	s := e.p.baseState()
	for o := range e.p.shared {
		e.shared[o] = true
	}
	return e.call(fn, args, binds, s, nil, "", fn.Pos())
}

func dumpOut(p *Program, o *Out, facts bool) {
	fmt.Printf("--- %s panic=%q\n", p.pos(o.pos), o.panic)
	for _, ev := range o.st.events() {
		var as []string
		for _, a := range ev.args {
			as = append(as, a.key)
		}
		fmt.Printf("   ev %s(%s)\n", ev.name, strings.Join(as, ", "))
	}
	for i, r := range o.ret {
		fmt.Printf("   ret%d %s\n", i, r.key)
	}
	if facts {
		var fs []string
		for a, f := range o.st.facts {
			fs = append(fs, fmt.Sprintf("%v %s @%d", f.val, a.key, f.at))
		}
		sort.Strings(fs)
		for _, f := range fs {
			fmt.Println("     ", f)
		}
	}
}

func debugMain() {
	t := time.Now()
	p := load(repoDir())
	if len(p.errs) > 0 {
		fmt.Println(p.errs)
		return
	}
	a := os.Args[2:]
	all, facts := false, false
	for len(a) > 0 && strings.HasPrefix(a[0], "-") {
		switch a[0] {
		case "-all":
			all = true
		case "-f":
			facts = true
		}
		a = a[1:]
	}
	var f *ssa.Function
	if strings.Contains(a[1], ".") {
		q := strings.SplitN(a[1], ".", 2)
		f = p.method(a[0], q[0], q[1])
	} else {
		f = p.fn(a[0], a[1])
	}
	if f == nil {
		fmt.Println("no such function")
		return
	}
	if len(a) > 2 && a[2] == "ssa" {
		f.WriteTo(os.Stdout)
		return
	}
	e := newEngine(p)
	e.inlineAll = all
	p.baseState()
	fmt.Println("init undecided:", p.initUndec)
	t1 := time.Now()
	outs := e.entry(f, a[2:]...)
	for _, o := range outs {
		dumpOut(p, o, facts)
	}
	fmt.Println("outs", len(outs), "states", e.nstates, "load", t1.Sub(t), "run", time.Since(t1))
	for _, u := range sortedKeys(e.undec) {
		fmt.Println("UNDECIDED", u)
	}
	for _, x := range e.panics {
		fmt.Println("PANIC", p.pos(x.pos), x.what)
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "specs" {
		specsMain()
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "check" {
		os.Exit(checkMain())
	}
	if len(os.Args) > 2 && os.Args[1] == "view" {
		viewMain()
		return
	}
}

// viewMain prints the paths of a view.
func viewMain() {
	p := load(repoDir())
	if len(p.errs) > 0 {
		fmt.Println(p.errs)
		return
	}
	c := newCheck(p)
	t := time.Now()
	v := c.view(os.Args[2])
	for _, q := range v.paths {
		dumpOut(p, q.o, len(os.Args) > 3)
	}
	for _, u := range v.undec {
		fmt.Println("UNDECIDED", u)
	}
	for _, x := range v.e.panics {
		fmt.Println("PANIC", p.pos(x.pos), x.what)
	}
	fmt.Println("paths", len(v.paths), "states", v.e.nstates, "time", time.Since(t))
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
