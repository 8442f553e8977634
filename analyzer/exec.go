package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"net/textproto"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func big64(n int64) *big.Int { return big.NewInt(n) }

// Out is one way a call can end.
type Out struct {
	st    *State
	ret   []*Term
	panic string
	pos   token.Pos
}

type Panic struct {
	what string
	pos  token.Pos
	fn   *ssa.Function
	st   *State
}

// Engine runs the dataflow for one entry point.
type Engine struct {
	p         *Program
	inlineAll bool             // utility views: nothing is opaque
	opaque    map[string]bool  // anchors that stay opaque in this view
	keep      func(*Term) bool // relevance of atoms (nil: everything)
	shared    map[*Term]bool   // objects that outlive the request
	undec     map[string]bool  // constructs the analysis cannot decide
	panics    []Panic
	leaks     map[string]token.Pos
	leakAt    map[token.Pos]bool
	logSites  map[token.Pos]bool
	logTo     map[*Term]token.Pos // loggers that are used
	secret    func(*Term) bool
	funcs     map[*ssa.Function]bool
	nstates   int
	ncalls    int
	sites     map[token.Pos]bool
	stack     []*ssa.Function
	outer     bool // executing set-up code, not a request
	disc      []*discovery
	limit     int
	logging   bool
	initing   bool
	ctxPkg    string
	topics    []*Topic
	dynamic   map[string]func(*Engine, *State, *Term, []*Term, token.Pos, *ssa.Function) []*Out
}

func newEngine(p *Program) *Engine {
	return &Engine{p: p, opaque: defaultOpaque(), shared: map[*Term]bool{}, undec: map[string]bool{},
		leaks: map[string]token.Pos{}, leakAt: map[token.Pos]bool{}, logSites: map[token.Pos]bool{}, logTo: map[*Term]token.Pos{}, funcs: map[*ssa.Function]bool{}, sites: map[token.Pos]bool{}, limit: 400000}
}

func (e *Engine) undecided(pos token.Pos, f string, a ...any) {
	e.undec[e.p.pos(pos)+": "+fmt.Sprintf(f, a...)] = true
}

// ---- function facts

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn     *ssa.Function
	rpo    []*ssa.BasicBlock
	num    map[*ssa.BasicBlock]int
	liveIn map[*ssa.BasicBlock][]ssa.Value
	loops  map[*ssa.BasicBlock]*loopInfo
	irred  bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi := fnInfos[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[*ssa.BasicBlock]int{}, liveIn: map[*ssa.BasicBlock][]ssa.Value{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.num[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.num[s] <= fi.num[b] { // back edge
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for _, b := range fi.rpo {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				var ops [8]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op != nil && *op != nil && isReg(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b], in[b] = u, d, map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			n := map[ssa.Value]bool{}
			for v := range use[b] {
				n[v] = true
			}
			for _, s := range b.Succs {
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					if !def[b][v] {
						n[v] = true
					}
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for j, p := range s.Preds {
						if p == b && isReg(ph.Edges[j]) && !def[b][ph.Edges[j]] {
							n[ph.Edges[j]] = true
						}
					}
				}
			}
			for _, ins := range b.Instrs { // phis of b are live into b
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				n[ph] = true
			}
			if len(n) != len(in[b]) {
				in[b] = n
				ch = true
			}
		}
	}
	for b, m := range in {
		var l []ssa.Value
		for v := range m {
			l = append(l, v)
		}
		sort.Slice(l, func(i, j int) bool {
			if l[i].Name() != l[j].Name() {
				return l[i].Name() < l[j].Name()
			}
			return l[i].Pos() < l[j].Pos()
		})
		fi.liveIn[b] = l
	}
	return fi
}

// ---- running a function

type run struct {
	e     *Engine
	fi    *fnInfo
	fn    *ssa.Function
	ctx   string
	roots []*Term
	pend  map[*ssa.BasicBlock][]*State
	seen  map[*ssa.BasicBlock]map[string]bool
	outs  []*Out
	only  map[*ssa.BasicBlock]bool // restrict to these blocks (loop discovery)
	disc  *discovery
	nall  int
}

func (e *Engine) call(fn *ssa.Function, args, binds []*Term, st *State, roots []*Term, ctx string, pos token.Pos) []*Out {
	if len(e.stack) > 40 {
		e.undecided(pos, "call depth exceeded at %s", fn)
		return nil
	}
	for _, f := range e.stack {
		if f == fn {
			e.undecided(pos, "recursive call of %s", fn)
			return nil
		}
	}
	fi := infoOf(fn)
	if fi.irred {
		e.undecided(fn.Pos(), "irreducible control flow in %s", fn)
		return nil
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	if !isShim(fn) {
		e.funcs[fn] = true
		if e.p.covered != nil {
			e.p.covered[fn] = true
		}
	}
	r := &run{e: e, fi: fi, fn: fn, ctx: ctx, roots: roots, pend: map[*ssa.BasicBlock][]*State{}, seen: map[*ssa.BasicBlock]map[string]bool{}}
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	sdefs := s.defs
	s.defs = nil
	for i, p := range fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		} else {
			s.env[p] = mkUnk(fmt.Sprintf("arg%d", i), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			s.env[fv] = binds[i]
		}
	}
	r.pend[fn.Blocks[0]] = []*State{s}
	r.loop()
	for _, o := range r.outs {
		o.st.env = nil
		o.st.defs = sdefs
	}
	return r.outs
}

func (r *run) loop() {
	for {
		var best *ssa.BasicBlock
		for b, l := range r.pend {
			if len(l) > 0 && (best == nil || r.fi.num[b] < r.fi.num[best]) {
				best = b
			}
		}
		if best == nil {
			return
		}
		l := r.pend[best]
		delete(r.pend, best)
		l = r.merge(best, l)
		for _, s := range l {
			r.e.nstates++
			r.nall++
			if r.e.nstates > r.e.limit {
				r.e.undec["state limit exceeded in "+r.fn.String()] = true
				return
			}
			r.block(best, s)
		}
	}
}

// block runs one state through a block.
func (r *run) block(b *ssa.BasicBlock, s *State) {
	type item struct {
		s *State
		i int
	}
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	work := []item{{s, start}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.s
		i := it.i
	instrs:
		for ; i < len(b.Instrs); i++ {
			switch ins := b.Instrs[i].(type) {
			case *ssa.If:
				c := r.cond(s, ins.Cond)
				t := r.e.condT(s, c)
				switch t {
				case yes:
					r.edge(b, b.Succs[0], s, c, 0)
				case no:
					r.edge(b, b.Succs[1], s, c.not(), 1)
				default:
					s2 := s.clone()
					if r.e.assume(s, c) {
						r.edge(b, b.Succs[0], s, c, 0)
					}
					if r.e.assume(s2, c.not()) {
						r.edge(b, b.Succs[1], s2, c.not(), 1)
					}
				}
				break instrs
			case *ssa.Jump:
				r.edge(b, b.Succs[0], s, constCond(true), 0)
				break instrs
			case *ssa.Return:
				if r.only != nil {
					break instrs
				}
				o := &Out{st: s, pos: ins.Pos()}
				for _, v := range ins.Results {
					o.ret = append(o.ret, r.val(s, v))
				}
				r.closeLoops(s, o)
				r.outs = append(r.outs, o)
				break instrs
			case *ssa.Panic:
				if r.only == nil {
					r.outs = append(r.outs, &Out{st: s, panic: "panic(" + r.val(s, ins.X).key + ")", pos: ins.Pos()})
				}
				break instrs
			default:
				outs := r.step(s, ins)
				if outs == nil {
					continue
				}
				for _, o := range outs {
					if o.panic != "" {
						if r.only == nil {
							r.outs = append(r.outs, o)
						}
						continue
					}
					work = append(work, item{o.st, i + 1})
				}
				break instrs
			}
		}
	}
}

func (r *run) queue(b *ssa.BasicBlock, s *State) {
	k := s.stateKey(r.fi.liveIn[b], r.roots)
	m := r.seen[b]
	if m == nil {
		m = map[string]bool{}
		r.seen[b] = m
	}
	if m[k] {
		return
	}
	m[k] = true
	r.pend[b] = append(r.pend[b], s)
}

// prune restricts the environment to what is live into b.
func (r *run) prune(b *ssa.BasicBlock, s *State) {
	n := make(map[ssa.Value]*Term, len(r.fi.liveIn[b]))
	for _, v := range r.fi.liveIn[b] {
		if t := s.env[v]; t != nil {
			n[v] = t
		}
	}
	s.env = n
}

func (r *run) edge(from, to *ssa.BasicBlock, s *State, c Cond, succ int) {
	// leaving loops
	exiting := []*loopInfo{}
	for h, l := range r.fi.loops {
		if l.blocks[from] && !l.blocks[to] {
			_ = h
			exiting = append(exiting, l)
		}
	}
	sort.Slice(exiting, func(i, j int) bool { return len(exiting[i].blocks) < len(exiting[j].blocks) })
	// phis
	var pv []*Term
	var ph []*ssa.Phi
	idx := -1
	for j, p := range to.Preds {
		if p == from {
			idx = j
			if from.Succs[0] == from.Succs[len(from.Succs)-1] && len(from.Succs) == 2 && succ == 1 {
				// both successors are the same block: second occurrence
				for k := j + 1; k < len(to.Preds); k++ {
					if to.Preds[k] == from {
						idx = k
					}
				}
			}
			break
		}
	}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		pv = append(pv, r.val(s, p.Edges[idx]))
	}
	for i, p := range ph {
		s.env[p] = pv[i]
	}
	for _, l := range exiting {
		if r.only != nil && l.header == r.disc.header {
			return // discovery ignores exits
		}
		if !r.exitLoop(l, from, to, s, c) {
			return
		}
	}
	if r.only != nil && !r.only[to] {
		return
	}
	r.prune(to, s)
	if l := r.fi.loops[to]; l != nil {
		if l.blocks[from] {
			r.again(l, s)
			return
		} else if !r.enterLoop(l, s) {
			return
		}
	}
	r.queue(to, s)
}

// again starts the next round of a loop.
func (r *run) again(l *loopInfo, s *State) {
	// a flag computed from the element is true or false in the next round
	ls := s.loops[r.loopID(l.header)]
	for _, i := range l.header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok || ls == nil || ls.unroll {
			break
		}
		v := s.env[p]
		if v == nil || v.op == OConst || !isBoolT(p.Type()) || !mentionsLoop(v, ls.id) {
			continue
		}
		c := termCond(v)
		s2 := s.clone()
		if r.e.assume(s2, c.not()) {
			s2.env[p] = tFalse
			r.again(l, s2)
		}
		if !r.e.assume(s, c) {
			return
		}
		s.env[p] = tTrue
	}
	if r.backEdge(l, s) {
		r.queue(l.header, s)
	}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- values

func (r *run) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		t := mk(OFunc, "func:"+fnName(v), "", v.Type())
		t.fn = v
		return t
	case *ssa.Builtin:
		return mk(OFunc, "builtin:"+v.Name(), "", v.Type())
	}
	if t := s.env[v]; t != nil {
		return t
	}
	r.e.undecided(v.Pos(), "value %s of %s has no abstract value", v.Name(), r.fn)
	return mkUnk("val", v.Type())
}

func fnName(f *ssa.Function) string { return f.RelString(nil) }

func mkGlobal(g *ssa.Global) *Term {
	t := mk(OGlobal, "&"+g.RelString(nil), g.Name(), g.Type())
	t.ex = g
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk(OConst, "f"+c.Value.ExactString(), "float", c.Type())
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return mkBig(n)
	}
	return mk(OConst, "f"+c.Value.ExactString(), "float", c.Type())
}

func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mk(OConst, "f0", "float", t)
		}
		return tNil
	case *types.Struct:
		var names []string
		var vals []*Term
		for i := 0; i < u.NumFields(); i++ {
			names = append(names, fieldName(u, i))
			vals = append(vals, zero(u.Field(i).Type()))
		}
		return mkStruct(typeName(t), names, t, vals)
	case *types.Array:
		if u.Len() <= 64 {
			var vals []*Term
			for i := int64(0); i < u.Len(); i++ {
				vals = append(vals, zero(u.Elem()))
			}
			return mkList(t, vals...)
		}
		return mkUnk("array", t)
	case *types.Tuple:
		return tNil
	}
	return tNil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// fieldName names a field. Unexported fields of the repository are named by their type where that is
// unambiguous, so that renaming one changes nothing.
func fieldName(st *types.Struct, i int) string {
	f := st.Field(i)
	if f.Exported() || f.Pkg() == nil || !ownPath(f.Pkg().Path()) {
		return f.Name()
	}
	n := 0
	for j := 0; j < st.NumFields(); j++ {
		if !st.Field(j).Exported() && types.Identical(st.Field(j).Type(), f.Type()) {
			n++
		}
	}
	if n == 1 {
		return "‹" + typeName(f.Type()) + "›"
	}
	return f.Name()
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mkFieldAddr(base *Term, f string, typ types.Type) *Term {
	return mk(OFieldAddr, "&"+base.key+"."+f, f, typ, base)
}

func mkIndexAddr(base, idx *Term, typ types.Type) *Term {
	return mk(OIndexAddr, "&"+base.key+"["+idx.key+"]", "", typ, base, idx)
}

// load reads memory at addr; T is the type of the value.
func (e *Engine) load(s *State, addr *Term, T types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch addr.op {
	case OObj, OFieldAddr, OIndexAddr:
		if st, ok := T.Underlying().(*types.Struct); ok && rootOf(addr).op == OObj && !e.havocked(s, addr) {
			var names []string
			var vals []*Term
			for i := 0; i < st.NumFields(); i++ {
				n := fieldName(st, i)
				names = append(names, n)
				vals = append(vals, e.load(s, mkFieldAddr(addr, n, types.NewPointer(st.Field(i).Type())), st.Field(i).Type()))
			}
			return mkStruct(typeName(T), names, T, vals)
		}
		if at, ok := T.Underlying().(*types.Array); ok && rootOf(addr).op == OObj && at.Len() <= 64 && !e.havocked(s, addr) {
			var vals []*Term
			for i := int64(0); i < at.Len(); i++ {
				vals = append(vals, e.load(s, mkIndexAddr(addr, mkInt(i), types.NewPointer(at.Elem())), at.Elem()))
			}
			return mkList(T, vals...)
		}
	}
	return e.loadWhole(s, addr, T)
}

// loadWhole is what was stored at addr as a whole, or as a part of something stored as a whole.
func (e *Engine) loadWhole(s *State, addr *Term, T types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch addr.op {
	case OObj:
		return zero(T)
	case OFieldAddr:
		base := addr.args[0]
		if bv, ok := s.mem[base]; ok && (base.op == OObj || base.op == OFieldAddr || base.op == OIndexAddr || base.op == OGlobal) {
			return e.selValue(s, bv, addr.s, T)
		}
		switch base.op {
		case OObj:
			return zero(T)
		case OFieldAddr, OIndexAddr:
			if rootOf(base).op == OObj {
				return e.selValue(s, e.loadWhole(s, base, deref(base.typ)), addr.s, T)
			}
			return e.selValue(s, e.load(s, base, deref(base.typ)), addr.s, T)
		case OGlobal:
			g := e.load(s, base, deref(base.typ))
			return e.selValue(s, g, addr.s, T)
		}
		return e.selValue(s, base, addr.s, T)
	case OIndexAddr:
		base, idx := addr.args[0], addr.args[1]
		if base.op == OObj {
			if bv, ok := s.mem[base]; ok {
				return e.index(s, bv, idx, T)
			}
			return zero(T)
		}
		if base.op == OSliceOf {
			if n, ok := idx.int(); ok {
				lo, _ := base.args[1].int()
				return e.load(s, mkIndexAddr(base.args[0], mkInt(n+lo), addr.typ), T)
			}
		}
		if base.op == OFieldAddr && rootOf(base).op == OObj {
			return e.index(s, e.loadWhole(s, base, deref(base.typ)), idx, T)
		}
		if base.op == OFieldAddr || base.op == OGlobal {
			return e.index(s, e.load(s, base, deref(base.typ)), idx, T)
		}
		return e.index(s, e.content(s, base), idx, T)
	case OGlobal:
		g := addr.ex.(*ssa.Global)
		if g.Pkg != nil && ownPath(g.Pkg.Pkg.Path()) && (e.initing || !e.p.mutableGlobals()[g]) {
			return zero(T)
		}
		return mk(OSel, g.RelString(nil), "global", T, addr)
	}
	// pointer to something opaque
	if addr.op == OCall || addr.op == OParam || addr.op == OExtract || addr.op == ORes || addr.op == OSel || addr.op == OAssert || addr.op == OLookup || addr.op == OInv || addr.op == OElem {
		return mk(OSel, "*"+addr.key, "*", T, addr)
	}
	return mkUnk("load("+addr.key+")", T)
}

func (e *Engine) havocked(s *State, addr *Term) bool { return false }

func (e *Engine) selValue(s *State, base *Term, f string, T types.Type) *Term {
	if base.op == OStruct {
		return mkSel(base, f, T)
	}
	if base.op == OSel && base.s == "*" { // (*p).f
		return mkSel(base.args[0], f, T)
	}
	return mkSel(base, f, T)
}

func (e *Engine) index(s *State, list, idx *Term, T types.Type) *Term {
	if list.op == OList {
		if n, ok := idx.int(); ok && n >= 0 && n < int64(len(list.args)) {
			return list.args[n]
		}
	}
	// the element at the position of a summarized loop
	if el := loopElem(s, list, idx); el != nil {
		el.typ = T
		return el
	}
	return mkIdx(list, idx, T)
}

// mkIdx is the element of an opaque list.
func mkIdx(list, idx *Term, T types.Type) *Term {
	if list.op == OCall && list.s == "strings.SplitN" {
		n, ok := list.args[2].int()
		k, ok2 := idx.int()
		switch {
		case !ok || !ok2 || list.args[1].key == `""`:
		case n < 0 || k < n-1:
			list = mkCall("strings.Split", list.typ, list.args[0], list.args[1])
		case n == 2 && k == 1:
			return mkCall("cut.after", tString, list.args[0], list.args[1])
		}
	}
	if list.op == OCall && list.s == "strings.Split" { // what is after the first separator starts with the second part
		if x := list.args[0]; x.op == OCall && x.s == "cut.after" && x.args[1] == list.args[1] {
			if k, ok := idx.int(); ok {
				return mkIdx(mkCall("strings.Split", list.typ, x.args[0], x.args[1]), mkInt(k+1), T)
			}
		}
	}
	if list.op == OCall && idx.key == "0" {
		if list.s == "strings.Split" && list.args[1].key == `"="` {
			if t := rawBase64(list.args[0]); t != nil {
				return t
			}
		}
	}
	return mk(OIdx, list.key+"["+idx.key+"]", "", T, list, idx)
}

// content resolves a slice or map value to what is known about its elements.
func (e *Engine) content(s *State, v *Term) *Term {
	for i := 0; i < 8; i++ {
		switch v.op {
		case OSliceOf:
			arr := v.args[0]
			lo, ok1 := v.args[1].int()
			hi, ok2 := v.args[2].int()
			at, ok3 := deref(arr.typ).Underlying().(*types.Array)
			if ok1 && ok2 && ok3 && hi-lo <= 64 {
				if w, ok := s.mem[arr]; ok && w.op != OList { // overwritten as a whole
					if lo == 0 && hi == at.Len() {
						return w
					}
					return mkSlice(w, v.args[1], v.args[2], v.typ)
				}
				var vals []*Term
				for j := lo; j < hi; j++ {
					vals = append(vals, e.load(s, mkIndexAddr(arr, mkInt(j), types.NewPointer(at.Elem())), at.Elem()))
				}
				return mkList(v.typ, vals...)
			}
			return v
		case OObj:
			if c, ok := s.mem[v]; ok {
				v = c
				continue
			}
			if isMapObj(v) {
				return mkMap(nil, nil, v.typ)
			}
			return v
		}
		if c, ok := s.mem[mkContent(v)]; ok {
			if c.op == OCall && strings.HasPrefix(c.s, "written") || c.op == OCall && c.s == "sorted" || c.op == OList {
				return c
			}
			v = c
			continue
		}
		if v.op == OCall && v.s == "fresh" {
			return v.args[0]
		}
		return v
	}
	return v
}

// mkContent is the address of the elements of an opaque slice, used when they are reordered in place.
func mkContent(v *Term) *Term { return mk(OIndexAddr, "&"+v.key+"[*]", "*", nil, v, tHole) }

func isMapObj(v *Term) bool {
	if v.typ == nil {
		return false
	}
	_, ok := v.typ.Underlying().(*types.Map)
	return ok
}

// snapshot renders a value together with the memory it refers to.
func (e *Engine) snapshot(s *State, v *Term) *Term { return e.snap(s, v, 0) }

func (e *Engine) snap(s *State, v *Term, d int) *Term {
	if d > 6 {
		return v
	}
	switch v.op {
	case OIface:
		x := e.snap(s, v.args[0], d+1)
		return x
	case OObj, OSliceOf:
		if v.op == OObj && !isMapObj(v) && v.typ != nil {
			el := deref(v.typ)
			switch el.Underlying().(type) {
			case *types.Struct:
				return e.snap(s, e.load(s, v, el), d+1)
			case *types.Array:
				if w, ok := s.mem[v]; ok {
					return w
				}
				return v
			default:
				if _, ok := v.typ.Underlying().(*types.Pointer); ok {
					return mkCall("&", v.typ, e.snap(s, e.load(s, v, el), d+1))
				}
			}
		}
		c := e.content(s, v)
		if c != v {
			return e.snap(s, c, d+1)
		}
		return v
	case OStruct:
		as := make([]*Term, len(v.args))
		ch := false
		for i, a := range v.args {
			as[i] = e.snap(s, a, d+1)
			ch = ch || as[i] != a
		}
		if ch {
			return mkStruct(v.s, v.ex.([]string), v.typ, as)
		}
	case OList:
		as := make([]*Term, len(v.args))
		for i, a := range v.args {
			as[i] = e.snap(s, a, d+1)
		}
		return mkList(v.typ, as...)
	case OMap:
		kv, base := v.mapParts()
		as := make([]*Term, len(kv))
		for i, a := range kv {
			as[i] = e.snap(s, a, d+1)
		}
		return mkMap(base, as, v.typ)
	case OConst, ONil, OParam:
	default:
		if c := e.content(s, v); c != v {
			return e.snap(s, c, d+1)
		}
		// opaque object with overwritten fields
		if v.typ != nil {
			if p, ok := v.typ.Underlying().(*types.Pointer); ok {
				if st, ok := p.Elem().Underlying().(*types.Struct); ok {
					hit := false
					for i := 0; i < st.NumFields(); i++ {
						if _, ok := s.mem[mkFieldAddr(v, fieldName(st, i), nil)]; ok {
							hit = true
						}
					}
					if hit {
						var names []string
						var vals []*Term
						for i := 0; i < st.NumFields(); i++ {
							n := fieldName(st, i)
							names = append(names, n)
							vals = append(vals, e.load(s, mkFieldAddr(v, n, nil), st.Field(i).Type()))
						}
						return mkStruct(typeName(p.Elem()), names, p.Elem(), vals)
					}
				}
			}
		}
	}
	return v
}

// wroteForeign: a write to what belongs to other packages (their variables, which say how tokens,
// forms and clocks are read) or to what the models of the library read a request from.
func (e *Engine) wroteForeign(addr *Term, pos token.Pos) {
	if addr.mentionsAny(func(x *Term) bool {
		g, ok := x.ex.(*ssa.Global)
		return x.op == OGlobal && ok && g.Pkg != nil && !ownPath(g.Pkg.Pkg.Path())
	}) {
		e.undecided(pos, "writes %s, which belongs to another package", trunc(addr.key, 160))
	}
	for a := addr; ; a = a.args[0] {
		switch {
		case a.op == OFieldAddr && a.args[0].op == OParam || a.op == OSel && a.args[0].op == OParam:
			if typeName(a.args[0].typ) == "*http.Request" && a.s != "Header" {
				e.undecided(pos, "changes %s of the request", a.s)
			}
			return
		case (a.op == OFieldAddr || a.op == OIndexAddr || a.op == OSel || a.op == OSliceOf) && len(a.args) > 0:
		default:
			return
		}
	}
}

// wroteCredential: request headers that other library functions read (BasicAuth, the form parsers)
// are not to be replaced.
func (e *Engine) wroteCredential(m, k *Term, pos token.Pos) {
	if m.op != OSel || m.s != "Header" || m.args[0].op != OParam {
		return
	}
	if n, ok := k.str(); !ok {
		e.undecided(pos, "changes the request header %s", trunc(k.key, 80))
	} else if n = textproto.CanonicalMIMEHeaderKey(n); n == "Authorization" || n == "Content-Type" || n == "Cookie" {
		e.undecided(pos, "changes the request header %s", n)
	}
}

// store writes memory. Writes to anything that this request did not allocate are effects.
func (e *Engine) store(s *State, addr, val *Term, pos token.Pos, fn *ssa.Function) {
	root := rootOf(addr)
	for root.op == OSliceOf {
		root = rootOf(root.args[0])
	}
	e.wroteForeign(addr, pos)
	if !e.outer && !ownBuffer(root) && (root.op != OObj || e.shared[root]) {
		s.emit("store", pos, fn, nil, addr, e.snapshot(s, val))
	}
	if addr.op == OIndexAddr && addr.args[0].op == OSliceOf {
		if n, ok := addr.args[1].int(); ok {
			lo, _ := addr.args[0].args[1].int()
			addr = mkIndexAddr(addr.args[0].args[0], mkInt(n+lo), addr.typ)
		}
	}
	// forget parts
	var del []*Term
	for a := range s.mem {
		if a != addr && within(a, addr) {
			del = append(del, a)
		}
	}
	for _, a := range del {
		s.delMem(a)
	}
	if val.op == OStruct && (addr.op == OObj || addr.op == OFieldAddr || addr.op == OIndexAddr) {
		s.delMem(addr)
		st, _ := val.typ.Underlying().(*types.Struct)
		for i, n := range val.ex.([]string) {
			var ft types.Type
			if st != nil {
				ft = types.NewPointer(st.Field(i).Type())
			}
			e.setDeep(s, mkFieldAddr(addr, n, ft), val.args[i])
		}
		return
	}
	e.split(s, addr)
	if addr.op == OIndexAddr && e.storeElem(s, addr, val) {
		return
	}
	s.setMem(addr, val)
}

// split prepares for writing addr, a part of something that may be stored as a whole.
func (e *Engine) split(s *State, addr *Term) {
	if addr.op != OFieldAddr {
		return
	}
	base := addr.args[0]
	e.split(s, base)
	bv, ok := s.mem[base]
	if !ok || base.op != OObj && base.op != OFieldAddr && base.op != OIndexAddr {
		return
	}
	if st := structOf(base.typ); st != nil {
		s.delMem(base)
		for i := 0; i < st.NumFields(); i++ {
			n := fieldName(st, i)
			s.setMem(mkFieldAddr(base, n, types.NewPointer(st.Field(i).Type())), e.selValue(s, bv, n, st.Field(i).Type()))
		}
	}
}

// mkFresh is a copy of an opaque list, made at pos.
func mkFresh(y *Term, pos token.Pos, T types.Type) *Term {
	if y.op == OCall && y.s == "fresh" {
		y = y.args[0]
	}
	return mkCall("fresh", T, y, mkInt(int64(pos)))
}

func (e *Engine) isOpaqueList(y *Term) bool {
	return y.op == OCall && (strings.HasPrefix(y.s, "strings.Split") || y.s == "strings.Fields" || y.s == "sorted" || y.s == "fresh") || y.op == OParam || y.op == OSel
}

// ownBuffer: a list that the running code made for itself.
func ownBuffer(x *Term) bool {
	if x.op == OSlice {
		return ownBuffer(x.args[0])
	}
	return x.op == OCall && (x.s == "fresh" || x.s == "strings.Split" || x.s == "strings.SplitN" || x.s == "strings.Fields")
}

// setContent replaces the elements of a list.
func (e *Engine) setContent(s *State, x, c *Term) {
	switch {
	case x.op == OObj:
		s.setMem(x, c)
		return
	case x.op == OSliceOf:
		arr := x.args[0]
		lo, ok1 := x.args[1].int()
		hi, ok2 := x.args[2].int()
		if at, ok := deref(arr.typ).Underlying().(*types.Array); !ok || !ok1 || !ok2 || lo != 0 || hi != at.Len() {
			c = mkCall("written:part", nil, c)
		}
		e.forget(s, arr)
		s.setMem(arr, c)
		return
	}
	s.setMem(mkContent(x), c)
}

// storeElem writes to an element of something whose contents are a value of their own, or to an element
// at an unknown position.
func (e *Engine) storeElem(s *State, addr, val *Term) bool {
	base, idx := addr.args[0], addr.args[1]
	_, known := idx.int()
	written := func(c *Term) *Term {
		if c.op == OCall && c.s == "written:elem" {
			return mkCall("written:elem", c.typ, c.args[0])
		}
		return mkCall("written:elem", c.typ, c, idx, val)
	}
	switch {
	case base.op == OSliceOf: // some element of an array
		arr := base.args[0]
		c := e.content(s, base)
		e.forget(s, arr)
		s.setMem(arr, written(c))
		return true
	case base.op == OObj || base.op == OFieldAddr || base.op == OGlobal || base.op == OIndexAddr:
		w, ok := s.mem[base]
		switch {
		case ok && w.op == OList:
			if n, isN := idx.int(); isN && n >= 0 && int(n) < len(w.args) {
				l := append([]*Term{}, w.args...)
				l[n] = val
				s.setMem(base, mkList(w.typ, l...))
				return true
			}
		case !ok:
			if known {
				return false
			}
			if base.typ == nil {
				return false
			}
			if at, isA := deref(base.typ).Underlying().(*types.Array); isA {
				w = e.load(s, base, at)
			} else {
				w = base
			}
		}
		if w == nil || isMapObj(w) {
			return false
		}
		e.forget(s, base)
		s.setMem(base, written(w))
		return true
	case base.op == OExtract || base.op == OCall || base.op == OIdx || base.op == OSlice || base.op == OElem || base.op == OSel || base.op == OInv:
		s.setMem(mkContent(base), written(e.content(s, base)))
		return true
	}
	return false
}

// forget drops what is stored in parts of base.
func (e *Engine) forget(s *State, base *Term) {
	var del []*Term
	for a := range s.mem {
		if a != base && within(a, base) && !(a.op == OFieldAddr && a.s == "#len") {
			del = append(del, a)
		}
	}
	for _, a := range del {
		s.delMem(a)
	}
}

func (e *Engine) setDeep(s *State, addr, val *Term) {
	if val.op == OStruct {
		st, _ := val.typ.Underlying().(*types.Struct)
		for i, n := range val.ex.([]string) {
			var ft types.Type
			if st != nil {
				ft = types.NewPointer(st.Field(i).Type())
			}
			e.setDeep(s, mkFieldAddr(addr, n, ft), val.args[i])
		}
		return
	}
	s.setMem(addr, val)
}

func within(a, base *Term) bool {
	for a.op == OFieldAddr || a.op == OIndexAddr {
		a = a.args[0]
		if a == base {
			return true
		}
	}
	return false
}

// ---- conditions

func (r *run) cond(s *State, v ssa.Value) Cond { return termCond(r.val(s, v)) }

func (e *Engine) condT(s *State, c Cond) tri { return s.cond(c) }

// assume adds a condition to the facts; false if it contradicts them.
func (e *Engine) assume(s *State, c Cond) bool {
	if c.atom == tTrue {
		return c.pos
	}
	switch s.cond(c) {
	case yes:
		return true
	case no:
		return false
	}
	if e.keep != nil && !e.keep(c.atom) {
		return true
	}
	s.addFact(c.atom, c.pos)
	if c.pos && c.atom.op == OEq && c.atom.args[1].op == OConst && joinedList(c.atom.args[0]) != nil {
		s.concrete()
	}
	return true
}

// ---- instructions. nil means: same state, go on.

func (r *run) step(s *State, ins ssa.Instruction) []*Out {
	e := r.e
	set := func(v ssa.Value, t *Term) { s.env[v] = t }
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		o := r.newObj(s, ins, ins.Type())
		set(ins, o)
		// a re-executed allocation is a new zeroed object
		var del []*Term
		for a := range s.mem {
			if a == o || within(a, o) {
				del = append(del, a)
			}
		}
		for _, a := range del {
			s.delMem(a)
		}
		if len(r.e.topics) > 0 {
			switch u := deref(ins.Type()).Underlying().(type) { // cells like any other for the topics
			case *types.Basic:
				s.setMem(o, zero(u))
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok {
						s.setMem(mkFieldAddr(o, fieldName(u, i), types.NewPointer(u.Field(i).Type())), zero(b))
					}
				}
			}
		}
		return nil
	case *ssa.BinOp:
		return r.binop(s, ins)
	case *ssa.UnOp:
		x := r.val(s, ins.X)
		switch ins.Op {
		case token.MUL:
			return r.guard(s, x, ins, "dereference", func(s *State) []*Out {
				s.env[ins] = e.load(s, x, ins.Type())
				return nil
			})
		case token.NOT:
			set(ins, condTerm(termCond(x).not()))
		case token.SUB:
			set(ins, mkAdd(mkInt(0), x, -1))
		case token.ARROW:
			s.emit("receive", ins.Pos(), r.fn, nil, x)
			set(ins, mkUnk("recv", ins.Type()))
		default:
			set(ins, mkCall("unop"+ins.Op.String(), ins.Type(), x))
		}
		return nil
	case *ssa.ChangeType:
		set(ins, r.retype(r.val(s, ins.X), ins.Type()))
		return nil
	case *ssa.ChangeInterface:
		set(ins, r.val(s, ins.X))
		return nil
	case *ssa.Convert:
		set(ins, convert(r.val(s, ins.X), ins.X.Type(), ins.Type(), s, e))
		return nil
	case *ssa.MultiConvert:
		set(ins, convert(r.val(s, ins.X), ins.X.Type(), ins.Type(), s, e))
		return nil
	case *ssa.SliceToArrayPointer:
		set(ins, mkCall("arrayptr", ins.Type(), r.val(s, ins.X)))
		return nil
	case *ssa.MakeInterface:
		x := r.val(s, ins.X)
		set(ins, mkIface(x, ins.X.Type()))
		return nil
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		var b []*Term
		for _, v := range ins.Bindings {
			b = append(b, r.val(s, v))
		}
		t := mk(OClosure, "closure:"+fnName(fn)+"("+keys(b)+")", "", ins.Type(), b...)
		t.fn = fn
		set(ins, t)
		return nil
	case *ssa.MakeMap:
		o := r.newObj(s, ins, ins.Type())
		s.setMem(o, mkMap(nil, nil, ins.Type()))
		set(ins, o)
		return nil
	case *ssa.MakeSlice:
		n := r.val(s, ins.Len)
		if k, ok := n.int(); ok && k == 0 {
			set(ins, mkList(ins.Type()))
		} else if ok && k <= 64 {
			el := ins.Type().Underlying().(*types.Slice).Elem()
			o := r.newObj(s, ins, types.NewPointer(types.NewArray(el, k)))
			set(ins, mkSliceOf(o, mkInt(0), n, ins.Type()))
		} else {
			o := r.newObj(s, ins, ins.Type())
			o.ex = n
			s.setMem(mkFieldAddr(o, "#len", nil), n)
			set(ins, o)
		}
		return nil
	case *ssa.MakeChan:
		set(ins, r.newObj(s, ins, ins.Type()))
		return nil
	case *ssa.FieldAddr:
		x := r.val(s, ins.X)
		return r.guard(s, x, ins, "field access", func(s *State) []*Out {
			st := structOf(ins.X.Type())
			s.env[ins] = mkFieldAddr(x, fieldName(st, ins.Field), ins.Type())
			return nil
		})
	case *ssa.Field:
		x := r.val(s, ins.X)
		st := structOf(ins.X.Type())
		set(ins, e.selValue(s, x, fieldName(st, ins.Field), ins.Type()))
		return nil
	case *ssa.IndexAddr:
		x, i := r.val(s, ins.X), r.val(s, ins.Index)
		if _, ok := ins.X.Type().Underlying().(*types.Pointer); ok { // array
			return r.guard(s, x, ins, "index", func(s *State) []*Out {
				s.env[ins] = mkIndexAddr(x, i, ins.Type())
				return nil
			})
		}
		if isTail(x) {
			x, i = x.args[0], mkAdd(x.args[1], i, 1)
		}
		return r.inRange(s, x, i, ins, func(s *State) {
			s.env[ins] = mkIndexAddr(x, i, ins.Type())
		})
	case *ssa.Index:
		x, i := r.val(s, ins.X), r.val(s, ins.Index)
		return r.inRange(s, x, i, ins, func(s *State) {
			s.env[ins] = e.index(s, e.content(s, x), i, ins.Type())
		})
	case *ssa.Slice:
		return r.slice(s, ins)
	case *ssa.Lookup:
		return r.lookup(s, ins)
	case *ssa.TypeAssert:
		return r.typeAssert(s, ins)
	case *ssa.Extract:
		t := r.val(s, ins.Tuple)
		if ph := t; ph.op == OTuple {
			set(ins, ph.args[ins.Index])
		} else {
			set(ins, mkExtract(t, ins.Index, ins.Type()))
		}
		return nil
	case *ssa.Store:
		a, v := r.val(s, ins.Addr), r.val(s, ins.Val)
		return r.guard(s, a, ins, "store", func(s *State) []*Out {
			e.store(s, a, v, ins.Pos(), r.fn)
			return nil
		})
	case *ssa.MapUpdate:
		if m := r.val(s, ins.Map); s.isNil(m) == yes {
			e.panicAt(s, "write to a nil map: "+m.key, ins.Pos(), r.fn)
			return []*Out{}
		}
		e.mapUpdate(s, r.val(s, ins.Map), r.val(s, ins.Key), r.val(s, ins.Value), ins.Pos(), r.fn)
		return nil
	case *ssa.Range:
		x := r.val(s, ins.X)
		it := mk(OIter, "iter:"+r.ctx+"/"+r.fn.Name()+":"+ins.Name(), "", nil)
		s.setMem(it, mkTuple(x, mkInt(0)))
		set(ins, it)
		return nil
	case *ssa.Next:
		return r.next(s, ins)
	case *ssa.Call:
		return r.callInstr(s, ins, &ins.Call)
	case *ssa.Defer:
		var args []*Term
		for _, a := range ins.Call.Args {
			args = append(args, r.val(s, a))
		}
		f := r.val(s, ins.Call.Value)
		s.defs = append(append([]deferred{}, s.defs...), deferred{&ins.Call, args, f})
		return nil
	case *ssa.RunDefers:
		if len(s.defs) == 0 {
			return nil
		}
		return r.runDefers(s, ins.Pos())
	case *ssa.Go:
		s.emit("go", ins.Pos(), r.fn, nil, r.val(s, ins.Call.Value))
		return nil
	case *ssa.Send:
		s.emit("send", ins.Pos(), r.fn, nil, r.val(s, ins.Chan), r.val(s, ins.X))
		return nil
	case *ssa.Select:
		e.undecided(ins.Pos(), "select statement")
		set(ins, mkUnk("select", ins.Type()))
		return nil
	}
	e.undecided(ins.Pos(), "instruction %T", ins)
	if v, ok := ins.(ssa.Value); ok {
		set(v, mkUnk("instr", v.Type()))
	}
	return nil
}

func (r *run) runDefers(s *State, pos token.Pos) []*Out {
	states := []*State{s}
	var outs []*Out
	for len(s.defs) > 0 {
		d := s.defs[len(s.defs)-1]
		var nx []*State
		for _, t := range states {
			t.defs = t.defs[:len(t.defs)-1]
			for _, o := range r.dispatch(t, d.call, d.fn, d.args, pos, nil) {
				if o.panic != "" {
					outs = append(outs, o)
				} else {
					nx = append(nx, o.st)
				}
			}
		}
		states = nx
		if len(states) == 0 {
			break
		}
		s = states[0]
	}
	for _, t := range states {
		outs = append(outs, &Out{st: t})
	}
	return outs
}

func (r *run) retype(t *Term, T types.Type) *Term { return t }

func (r *run) newObj(s *State, ins ssa.Value, typ types.Type) *Term {
	k := "obj:" + r.ctx + "/" + r.fn.RelString(nil) + ":" + ins.Name() + s.round()
	o := mk(OObj, k, "", typ)
	if r.e.outer {
		r.e.shared[o] = true
	}
	return o
}

func mkSliceOf(arr, lo, hi *Term, typ types.Type) *Term {
	return mk(OSliceOf, "slice("+arr.key+","+lo.key+","+hi.key+")", "", typ, arr, lo, hi)
}

func mkIface(x *Term, T types.Type) *Term {
	if x.op == OIface {
		return x
	}
	t := mk(OIface, "iface<"+typeName(T)+">("+x.key+")", typeName(T), T, x)
	t.ex = T
	return t
}

// guard runs f on the state in which x is not nil and reports the other one.
func (r *run) guard(s *State, x *Term, ins ssa.Instruction, what string, f func(*State) []*Out) []*Out {
	switch s.isNil(x) {
	case no:
		return f(s)
	case yes:
		r.e.panicAt(s, "nil "+what+": "+x.key, ins.Pos(), r.fn)
		return []*Out{}
	}
	r.e.panicAt(s, "possible nil "+what+": "+x.key, ins.Pos(), r.fn)
	s.addFact(mkEq(x, tNil).atom, false)
	return f(s)
}

func (e *Engine) panicAt(s *State, what string, pos token.Pos, fn *ssa.Function) {
	if len(e.disc) > 0 {
		return
	}
	for _, p := range e.panics {
		if p.what == what && p.pos == pos {
			return
		}
	}
	e.panics = append(e.panics, Panic{what, pos, fn, s.clone()})
}

func (r *run) inRange(s *State, x, i *Term, ins ssa.Instruction, f func(*State)) []*Out {
	l := r.e.content(s, x)
	n := mkLen(l)
	if x.op == OSliceOf {
		lo, ok1 := x.args[1].int()
		hi, ok2 := x.args[2].int()
		if ok1 && ok2 {
			n = mkInt(hi - lo)
		}
	}
	if k := s.mem[mkFieldAddr(x, "#len", nil)]; k != nil && x.op == OObj {
		n = k // made with that many elements
		if n.op == OLen && posInRange(s, n.args[0], i) {
			f(s)
			return nil
		}
	}
	ok := mkLess(i, n, false)
	nonneg := mkLess(i, mkInt(0), false).not()
	if posInRange(s, l, i) || (s.cond(ok) == yes && s.cond(nonneg) == yes) {
		f(s)
		return nil
	}
	r.e.panicAt(s, "index may be out of range: "+l.key+"["+i.key+"]", ins.Pos(), r.fn)
	if s.cond(ok) == no {
		return []*Out{}
	}
	f(s)
	return nil
}

func convert(x *Term, from, to types.Type, s *State, e *Engine) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			if intSize(tb) >= intSize(fb) && (fb.Info()&types.IsUnsigned != 0) == (tb.Info()&types.IsUnsigned != 0) {
				return x
			}
			if n, ok := x.int(); ok && n >= 0 && n < 128 {
				return x
			}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return x
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 && fb.Kind() == tb.Kind():
			return x
		}
		if x.op == OCall && x.s == "seconds" && tb.Kind() == types.Int64 {
			return x.args[0]
		}
		return mkCall(typeName(to.Underlying()), to, x)
	}
	// string <-> []byte
	if ok1 && fb.Info()&types.IsString != 0 || ok2 && tb.Info()&types.IsString != 0 {
		if isByteSlice(from) || isByteSlice(to) {
			if ok2 {
				return e.content(s, x)
			}
			return x
		}
		return mkCall("conv:"+typeName(to), to, x)
	}
	return x
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (r *run) binop(s *State, ins *ssa.BinOp) []*Out {
	x, y := r.val(s, ins.X), r.val(s, ins.Y)
	s.env[ins] = r.e.binopTerm(s, ins.Op, x, y, ins.X.Type(), ins.Type())
	return nil
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) binopTerm(s *State, op token.Token, x, y *Term, xt, T types.Type) *Term {
	switch op {
	case token.ADD:
		if isStringT(T) {
			return mkConcat(x, y)
		}
		return mkAdd(x, y, 1)
	case token.SUB:
		return mkAdd(x, y, -1)
	case token.MUL:
		if k, ok := x.int(); ok {
			x, y = y, x
			_ = k
		}
		if k, ok := y.int(); ok {
			m, c, ok := sumParts(x)
			if ok {
				for t := range m {
					m[t] *= k
				}
				return mkSum(m, c*k)
			}
		}
	case token.EQL, token.NEQ:
		if _, ok := xt.Underlying().(*types.Slice); ok {
			x = e.content(s, x)
		}
		c := e.eq(s, x, y, xt)
		if op == token.NEQ {
			c = c.not()
		}
		return condTerm(c)
	case token.LSS, token.GTR:
		if isStringT(xt) && x.op != OConst && y.op != OConst {
			if op == token.GTR {
				x, y = y, x
			}
			return mkStrLess(x, y)
		}
		if op == token.GTR && !isStringT(xt) {
			return condTerm(mkLess(y, x, false))
		}
		if op == token.LSS && !isStringT(xt) {
			return condTerm(mkLess(x, y, false))
		}
	case token.LEQ:
		if !isStringT(xt) {
			return condTerm(mkLess(x, y, true))
		}
	case token.GEQ:
		if !isStringT(xt) {
			return condTerm(mkLess(y, x, true))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR, token.QUO, token.REM:
		a, ok1 := x.int()
		b, ok2 := y.int()
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return mkInt(a & b)
			case token.OR:
				return mkInt(a | b)
			case token.XOR:
				return mkInt(a ^ b)
			case token.AND_NOT:
				return mkInt(a &^ b)
			case token.SHL:
				if b < 62 && b >= 0 {
					return mkInt(a << uint(b))
				}
			case token.SHR:
				if b >= 0 {
					return mkInt(a >> uint(b))
				}
			case token.QUO:
				if b != 0 {
					return mkInt(a / b)
				}
			case token.REM:
				if b != 0 {
					return mkInt(a % b)
				}
			}
		}
		if op == token.QUO && ok2 && b > 1 && isIntT(xt) {
			if q := dividedBy(x, b); q != nil {
				return q
			}
		}
		if (op == token.AND || op == token.OR) && x.op == OConst {
			x, y = y, x
		}
	}
	return mk(OBin, "("+x.key+op.String()+y.key+")", op.String(), T, x, y)
}

func (e *Engine) eq(s *State, x, y *Term, T types.Type) Cond {
	// single-bit tests
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		a, b := p[0], p[1]
		if a.op == OBin && a.s == "&" {
			if k, ok := a.args[1].int(); ok && k > 0 && k&(k-1) == 0 {
				if v, ok := b.int(); ok {
					at := mkCall("bit", types.Typ[types.Bool], a.args[0], a.args[1])
					switch v {
					case k:
						return Cond{at, true}
					case 0:
						return Cond{at, false}
					default:
						return constCond(false)
					}
				}
			}
		}
	}
	// slices and nil: an empty list made here is not nil
	return mkEq(x, y)
}

func (r *run) slice(s *State, ins *ssa.Slice) []*Out {
	x := r.val(s, ins.X)
	lo, hi := mkInt(0), (*Term)(nil)
	if ins.Low != nil {
		lo = r.val(s, ins.Low)
	}
	if ins.High != nil {
		hi = r.val(s, ins.High)
	}
	if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok { // array
		at := p.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = mkInt(at.Len())
		}
		if h, ok := hi.int(); ok && h == 0 {
			s.env[ins] = mkList(ins.Type())
			return nil
		}
		s.env[ins] = mkSliceOf(x, lo, hi, ins.Type())
		return nil
	}
	if n, ok := lo.int(); ok && n >= 0 && isTail(x) && hi == nil {
		if s.cond(mkLess(mkLen(x), lo, false)) != no {
			r.e.panicAt(s, "slice may be out of range: "+x.key, ins.Pos(), r.fn)
		}
		s.env[ins] = mkTail(x.args[0], mkAdd(x.args[1], lo, 1))
		return nil
	}
	if x.op == OSliceOf {
		l0, ok0 := x.args[1].int()
		l1, ok1 := lo.int()
		if hi == nil {
			if ok0 && ok1 {
				s.env[ins] = mkSliceOf(x.args[0], mkInt(l0+l1), x.args[2], ins.Type())
				return nil
			}
		} else if h, ok := hi.int(); ok && ok0 && ok1 {
			s.env[ins] = mkSliceOf(x.args[0], mkInt(l0+l1), mkInt(l0+h), ins.Type())
			return nil
		}
	}
	c := r.e.content(s, x)
	if t := cutSlice(s, c, lo, hi); t != nil {
		s.env[ins] = t
		return nil
	}
	if l0, ok := lo.int(); ok {
		if hi == nil {
			if l0 == 0 {
				s.env[ins] = x
				return nil
			}
		}
		if c.op == OList {
			h := int64(len(c.args))
			okh := true
			if hi != nil {
				h, okh = hi.int()
			}
			if okh && l0 >= 0 && l0 <= h && h <= int64(len(c.args)) {
				s.env[ins] = mkList(ins.Type(), c.args[l0:h]...)
				return nil
			}
		}
		if str, ok := c.str(); ok {
			h := int64(len(str))
			okh := true
			if hi != nil {
				h, okh = hi.int()
			}
			if okh && l0 >= 0 && l0 <= h && h <= int64(len(str)) {
				s.env[ins] = mkStr(str[l0:h])
				return nil
			}
		}
	}
	if l0, ok := lo.int(); ok && l0 == 0 && hi != nil && hi.key == "0" && !sharedOrigin(c) {
		s.env[ins] = mkList(ins.Type())
		return nil
	}
	// bounds
	h := hi
	if h == nil {
		h = mkLen(c)
	}
	if s.cond(mkLess(lo, h, true)) != yes || s.cond(mkLess(h, mkLen(c), true)) != yes && h != mkLen(c) || s.cond(mkLess(lo, mkInt(0), false)) != no {
		r.e.panicAt(s, "slice bounds may be out of range: "+c.key+"["+lo.key+":"+h.key+"]", ins.Pos(), r.fn)
	}
	s.env[ins] = mkSlice(c, lo, h, ins.Type())
	return nil
}

func mkSlice(c, lo, hi *Term, T types.Type) *Term {
	return mk(OSlice, c.key+"["+lo.key+":"+hi.key+"]", "", T, c, lo, hi)
}

func mkLookup(m, k *Term, typ types.Type) *Term {
	return mk(OLookup, m.key+"["+k.key+"]", "", typ, m, k)
}
func mkLookupOk(m, k *Term) *Term {
	return mk(OLookupOk, "has("+m.key+","+k.key+")", "", types.Typ[types.Bool], m, k)
}

func (r *run) lookup(s *State, ins *ssa.Lookup) []*Out {
	x, k := r.val(s, ins.X), r.val(s, ins.Index)
	if isStringT(ins.X.Type()) {
		return r.inRange(s, x, k, ins, func(s *State) {
			s.env[ins] = mk(OIdx, x.key+"["+k.key+"]", "", ins.Type(), x, k)
		})
	}
	mt := ins.X.Type().Underlying().(*types.Map)
	var outs []*Out
	for _, o := range r.e.mapGet(s, r.e.content(s, x), k, mt.Elem()) {
		if ins.CommaOk {
			o.st.env[ins] = mkTuple(o.ret[0], o.ret[1])
		} else {
			v := o.ret[0]
			if o.ret[1] == tFalse {
				v = zero(mt.Elem())
			}
			o.st.env[ins] = v
		}
		outs = append(outs, o)
	}
	return outs
}

// mapGet splits on which entry a key hits. Each outcome carries (value, ok).
func (e *Engine) mapGet(s *State, m, k *Term, T types.Type) []*Out {
	if m.op == OFold {
		return e.foldGet(s, m, k, T)
	}
	if m.op != OMap {
		if m.op == ONil {
			return []*Out{{st: s, ret: []*Term{zero(T), tFalse}}}
		}
		if k.op == OMKey && k.args[0] == m { // the entry a range over the map is at
			return []*Out{{st: s, ret: []*Term{mk(OMVal, "val("+m.key+")#"+k.s, k.s, T, m), tTrue}}}
		}
		ok := mkLookupOk(m, k)
		v := mkLookup(m, k, T)
		switch s.truth(ok) {
		case yes:
			return []*Out{{st: s, ret: []*Term{v, tTrue}}}
		case no:
			return []*Out{{st: s, ret: []*Term{zero(T), tFalse}}}
		}
		return []*Out{{st: s, ret: []*Term{v, ok}}}
	}
	kv, base := m.mapParts()
	var outs []*Out
	cur := s
	for i := 0; i+1 < len(kv); i += 2 {
		c := mkEq(kv[i], k)
		switch cur.cond(c) {
		case yes:
			return append(outs, &Out{st: cur, ret: []*Term{kv[i+1], tTrue}})
		case no:
			continue
		}
		hit := cur.clone()
		hit.addFact(c.atom, c.pos)
		outs = append(outs, &Out{st: hit, ret: []*Term{kv[i+1], tTrue}})
		cur = cur.clone()
		cur.addFact(c.atom, !c.pos)
	}
	if base != nil {
		return append(outs, e.mapGet(cur, base, k, T)...)
	}
	return append(outs, &Out{st: cur, ret: []*Term{zero(T), tFalse}})
}

func (e *Engine) mapUpdate(s *State, m, k, v *Term, pos token.Pos, fn *ssa.Function) {
	e.wroteForeign(m, pos)
	e.wroteCredential(m, k, pos)
	cur := e.content(s, m)
	addr := m
	if m.op != OObj {
		addr = mkContent(m)
	}
	if cur.op != OMap {
		if m.op == OInv && m.s == "Header" {
			cur = nil
		}
		cur = mkMap(cur, nil, m.typ)
	}
	if !e.outer && (m.op != OObj || e.shared[m]) {
		name := "store"
		if isHeaderTerm(m) {
			name = headerEvent(m)
		}
		if name == "store" {
			s.emit("store", pos, fn, nil, m, k, e.snapshot(s, v))
		} else if name != "" {
			s.emit(name, pos, fn, nil, k, e.snapshot(s, v))
		}
	}
	s.setMem(addr, mapSet(cur, k, v))
}

// assertTo is the value of x.(T), its success as a condition, and whether it succeeds.
func assertTo(s *State, x *Term, X, T types.Type) (*Term, *Term, tri) {
	v := mk(OAssert, x.key+".("+typeName(T)+")", typeName(T), T, x)
	v.ex = T
	if x.op == OIface {
		v = x.args[0]
		if types.IsInterface(T) {
			v = x
		}
	} else if types.IsInterface(T) {
		v = x
	}
	ok := mkAssertOk(x, T)
	t := s.truth(ok)
	if x.op == OIface {
		t = s.assertStatic(x, ok)
	}
	switch s.isNil(x) {
	case yes:
		t = no
	case no:
		if i, ok := T.Underlying().(*types.Interface); ok && types.Implements(X, i) {
			t = yes // only nil fails, as in a method value
		}
	}
	if !types.IsInterface(T) && types.IsInterface(X) && x.op != OIface && x.typ != nil && !types.IsInterface(x.typ) && t == unk {
		// a transparent term whose concrete type is known
		t = tb(types.Identical(x.typ, T))
		v = x
	}
	return v, ok, t
}

func (r *run) typeAssert(s *State, ins *ssa.TypeAssert) []*Out {
	x := r.val(s, ins.X)
	T := ins.AssertedType
	v, ok, t := assertTo(s, x, ins.X.Type(), T)
	if ins.CommaOk {
		switch t {
		case yes:
			s.env[ins] = mkTuple(v, tTrue)
		case no:
			s.env[ins] = mkTuple(zero(T), tFalse)
		default:
			// the value is the zero value when the assertion fails: split here
			s2 := s.clone()
			s.addFact(ok, true)
			s.env[ins] = mkTuple(v, tTrue)
			s2.addFact(ok, false)
			s2.env[ins] = mkTuple(zero(T), tFalse)
			return []*Out{{st: s}, {st: s2}}
		}
		return nil
	}
	if t != yes {
		r.e.panicAt(s, "type assertion may fail: "+v.key, ins.Pos(), r.fn)
		if t == no {
			return []*Out{}
		}
		s.addFact(ok, true)
	}
	s.env[ins] = v
	return nil
}

func mkAssertOk(x *Term, T types.Type) *Term {
	t := mk(OAssertOk, "is("+x.key+","+typeName(T)+")", typeName(T), types.Typ[types.Bool], x)
	t.ex = T
	return t
}

func assertOkAtom(v *Term) *Term { return mkAssertOk(v.args[0], v.ex.(types.Type)) }

func (s *State) assertStatic(x, ok *Term) tri {
	T := ok.ex.(types.Type)
	D := x.ex.(types.Type)
	if it, isI := T.Underlying().(*types.Interface); isI {
		return tb(types.Implements(D, it))
	}
	return tb(types.Identical(D, T))
}

// ---- calls

func (r *run) callInstr(s *State, ins *ssa.Call, c *ssa.CallCommon) []*Out {
	e := r.e
	e.ncalls++
	e.sites[ins.Pos()] = true
	var args []*Term
	for _, a := range c.Args {
		args = append(args, r.val(s, a))
	}
	f := r.val(s, c.Value)
	outs := r.dispatch(s, c, f, args, ins.Pos(), ins)
	var res []*Out
	seen := map[string]bool{}
	for _, o := range outs {
		if o.panic != "" {
			res = append(res, o)
			continue
		}
		switch len(o.ret) {
		case 0:
			o.st.env[ins] = tNil
		case 1:
			o.st.env[ins] = o.ret[0]
		default:
			o.st.env[ins] = mkTuple(o.ret...)
		}
		if len(outs) > 4 {
			var vals []ssa.Value
			for v := range o.st.env {
				vals = append(vals, v)
			}
			sort.Slice(vals, func(i, j int) bool { return vals[i].Name() < vals[j].Name() })
			k := o.st.stateKey(vals, r.roots)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		res = append(res, o)
	}
	if res == nil {
		res = []*Out{}
	}
	return res
}

// dispatch finds out what is called.
func (r *run) dispatch(s *State, c *ssa.CallCommon, f *Term, args []*Term, pos token.Pos, ins *ssa.Call) []*Out {
	e := r.e
	if c.IsInvoke() {
		return r.invoke(s, c, f, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return r.builtin(s, b.Name(), c, args, pos)
	}
	switch f.op {
	case OFunc:
		return r.callFn(s, f.fn, args, nil, pos)
	case OClosure:
		return r.callFn(s, f.fn, args, f.args, pos)
	}
	sig, _ := c.Value.Type().Underlying().(*types.Signature)
	switch s.isNil(f) {
	case yes:
		e.panicAt(s, "call of a nil function: "+f.key, pos, r.fn)
		return []*Out{}
	case unk:
		if !trustedFunc(f) {
			e.panicAt(s, "possible call of a nil function: "+f.key, pos, r.fn)
			s.addFact(mkEq(f, tNil).atom, false)
		}
	}
	return r.dynCall(s, f, args, sig, pos)
}

func (r *run) inlineRoots(s *State) []*Term {
	roots := append([]*Term{}, r.roots...)
	for _, t := range s.env {
		roots = append(roots, t)
	}
	for _, d := range s.defs {
		roots = append(roots, d.args...)
		roots = append(roots, d.fn)
	}
	return roots
}

func (r *run) callFn(s *State, fn *ssa.Function, args, binds []*Term, pos token.Pos) []*Out {
	e := r.e
	if outs, ok := r.anchor(s, fn, args, pos); ok {
		return outs
	}
	if len(fn.Blocks) == 0 {
		return r.external(s, fn, args, pos)
	}
	env, defs := s.env, s.defs
	roots := r.inlineRoots(s)
	ctx := r.ctx + "/" + r.e.p.off(pos)
	outs := e.call(fn, args, binds, s, roots, ctx, pos)
	for _, o := range outs {
		n := make(map[ssa.Value]*Term, len(env)+1)
		for k, v := range env {
			n[k] = v
		}
		o.st.env = n
		o.st.defs = defs
	}
	if outs == nil {
		outs = []*Out{}
	}
	return outs
}

func (r *run) builtin(s *State, name string, c *ssa.CallCommon, args []*Term, pos token.Pos) []*Out {
	e := r.e
	one := func(t *Term) []*Out { return []*Out{{st: s, ret: []*Term{t}}} }
	switch name {
	case "len":
		x := args[0]
		if x.op == OSliceOf {
			lo, ok1 := x.args[1].int()
			hi, ok2 := x.args[2].int()
			if ok1 && ok2 {
				return one(mkInt(hi - lo))
			}
		}
		if x.op == OObj && x.ex != nil {
			if n, ok := x.ex.(*Term); ok {
				return one(n)
			}
		}
		if at, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
			return one(mkInt(at.Len()))
		}
		t := e.content(s, x)
		if t.typ == nil {
			t.typ = c.Args[0].Type()
		}
		if t.op == OCall && (t.s == "sorted") {
			t = t.args[0]
		}
		return one(mkLen(t))
	case "cap":
		return one(mkCall("cap", types.Typ[types.Int], args[0]))
	case "append":
		x := e.content(s, args[0])
		y := e.content(s, args[1])
		if !e.outer && args[0].op != OList && args[0].op != ONil && args[0].op != OObj && args[0].op != OSliceOf && x.op != OList && sharedOrigin(x) {
			s.emit("append-shared", pos, r.fn, nil, x)
		}
		T := c.Args[0].Type()
		if x.op == ONil {
			x = mkList(T)
		}
		if y.op == ONil || y.op == OList && len(y.args) == 0 {
			return one(x)
		}
		if x.op == OList && y.op == OList {
			return one(mkList(T, append(append([]*Term{}, x.args...), y.args...)...))
		}
		if isByteSlice(T) {
			return one(mkConcat(bytesAsStr(x), bytesAsStr(y)))
		}
		if x.op == OList && len(x.args) == 0 && r.e.isOpaqueList(y) {
			return one(mkFresh(y, pos, T))
		}
		return one(mk(OCall, "append("+x.key+","+y.key+")", "append", T, x, y))
	case "copy":
		x, y := args[0], e.content(s, args[1])
		if x.op == OObj && !e.shared[x] {
			if n, ok := x.ex.(*Term); ok && n == mkLen(y) { // made for it
				s.setMem(x, y)
				return one(n)
			}
		}
		if rt := rootOf(x); rt.op == OSliceOf {
			x = rt
		}
		if o := rootOf(x); !e.outer && !ownBuffer(o) && (o.op != OSliceOf && o.op != OObj || o.op == OObj && e.shared[o] || o.op == OSliceOf && (rootOf(o.args[0]).op != OObj || e.shared[rootOf(o.args[0])])) {
			s.emit("store", pos, r.fn, nil, x, y)
		}
		if rootOf(x).op == OCall {
			e.setContent(s, rootOf(x), mkCall("written:copy", nil, e.content(s, x), y))
		} else {
			e.havoc(s, args[0], "copy", args[1:])
		}
		return one(mkUnk("copied", types.Typ[types.Int]))
	case "delete":
		m := e.content(s, args[0])
		addr := args[0]
		if addr.op != OObj {
			addr = mkContent(addr)
		}
		e.wroteForeign(args[0], pos)
		if !e.outer && (args[0].op != OObj || e.shared[args[0]]) {
			s.emit("store", pos, r.fn, nil, args[0], args[1])
		}
		if m.op == OMap {
			kv, base := m.mapParts()
			var n []*Term
			for i := 0; i+1 < len(kv); i += 2 {
				if kv[i] != args[1] {
					n = append(n, kv[i], kv[i+1])
				}
			}
			if base != nil {
				base = mkCall("delete", nil, base, args[1])
			}
			s.setMem(addr, mkMap(base, n, m.typ))
		} else {
			s.setMem(addr, mkCall("delete", nil, m, args[1]))
		}
		return []*Out{{st: s}}
	case "clear":
		if args[0].op == OObj && isMapObj(args[0]) {
			s.setMem(args[0], mkMap(nil, nil, args[0].typ))
			return []*Out{{st: s}}
		}
	case "min", "max":
		a, ok1 := args[0].int()
		b, ok2 := args[1].int()
		if ok1 && ok2 {
			if (a < b) == (name == "min") {
				return one(args[0])
			}
			return one(args[1])
		}
		s2 := s.clone()
		var outs []*Out
		cnd := mkLess(args[0], args[1], false)
		if e.assume(s, cnd) {
			x := args[0]
			if name == "max" {
				x = args[1]
			}
			outs = append(outs, &Out{st: s, ret: []*Term{x}})
		}
		if e.assume(s2, cnd.not()) {
			x := args[1]
			if name == "max" {
				x = args[0]
			}
			outs = append(outs, &Out{st: s2, ret: []*Term{x}})
		}
		return outs
	case "print", "println":
		s.emit("ext:print", pos, r.fn, nil, args...)
		e.checkLeak(s, args, pos)
		return []*Out{{st: s}}
	case "recover":
		e.undecided(pos, "recover")
		return one(mkUnk("recover", nil))
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	e.undecided(pos, "builtin %s", name)
	return one(mkUnk(name, nil))
}

// sharedOrigin: a slice whose backing array may be visible outside this request.
func sharedOrigin(x *Term) bool {
	switch x.op {
	case OSel, OParam, OLookup, OInv, ORes:
		return true
	case OExtract:
		return sharedOrigin(x.args[0])
	}
	return false
}

func bytesAsStr(x *Term) *Term {
	if x.op == OList {
		b := make([]byte, 0, len(x.args))
		for _, a := range x.args {
			n, ok := a.int()
			if !ok {
				return x
			}
			b = append(b, byte(n))
		}
		return mkStr(string(b))
	}
	return x
}

// havoc forgets the contents of an object that an unknown callee may have written.
func (e *Engine) havoc(s *State, x *Term, by string, with []*Term) {
	if x.op == OIface {
		x = x.args[0]
	}
	base := x
	if x.op == OSliceOf {
		base = x.args[0]
	}
	if rootOf(base).op != OObj {
		return
	}
	var del []*Term
	for a := range s.mem {
		if a == base || within(a, base) {
			del = append(del, a)
		}
	}
	for _, a := range del {
		s.delMem(a)
	}
	s.setMem(base, mkCall("written:"+by, deref(base.typ), with...))
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// cutSlice: a string up to, or from behind, the first occurrence of a separator.
func cutSlice(s *State, x, lo, hi *Term) *Term {
	sepOf := func(t *Term) *Term {
		if t.op == OCall && t.s == "strings.Index" && t.args[0] == x && s.cond(mkLess(t, mkInt(0), false)) == no {
			if k, ok := t.args[1].str(); ok && k != "" {
				return t.args[1]
			}
		}
		return nil
	}
	if hi != nil && lo.key == "0" {
		if sep := sepOf(hi); sep != nil {
			return mkIdx(mkCall("strings.Split", types.NewSlice(tString), x, sep), mkInt(0), tString)
		}
	}
	if hi == nil || hi == mkLen(x) {
		for a, f := range s.facts {
			if !f.val && a.op == OLE && a.args[0].op == OCall && a.args[0].s == "strings.Index" && a.args[0].args[0] == x {
				if sep := sepOf(a.args[0]); sep != nil && mkAdd(a.args[0], mkInt(int64(len(strVal0(sep)))), 1) == lo {
					return mkCall("cut.after", tString, x, sep)
				}
			}
		}
	}
	return nil
}
