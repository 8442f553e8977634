package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop over a collection of unknown size is not unrolled: its body is analysed once for an
// arbitrary element, to a fixpoint over the finite set of "kinds of elements" (letters: what the body
// found out about the element, and how it changed the loop-carried values). Loops over collections
// known from the source (tables, literals) are followed element by element.

type slot struct {
	key  string
	phi  *ssa.Phi
	addr *Term
	acc  *Term
	init *Term
}

type loopState struct {
	id     string
	unroll bool
	n      int
	list   *Term
	pos    *Term
	guard  Cond            // condition under which there is another element
	gblk   *ssa.BasicBlock // where it is tested
	ind    map[*ssa.Phi]indPhi
	slots  []slot
	seen   []*Letter
	all    []*Letter
	headEv *Ev // history at the head of the current iteration
	baseEv *Ev // history at loop entry
	head   map[*Term]*Term
	known  map[*Term]bool
	facts  map[*Term]fact
	occ    map[string]int
	entry  map[*ssa.Phi]*Term // values at loop entry
	flags  map[string]*Term   // constant flags at the head of the current iteration
	flags0 map[string]*Term   // at loop entry
}

// flagsAt: the flags, variables that are known to be true or false, at the head of a loop.
func flagsAt(h *ssa.BasicBlock, s *State) map[string]*Term {
	m := map[string]*Term{}
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if v := s.env[ph]; v == tTrue || v == tFalse {
			m["phi:"+ph.Name()] = v
		} else if v != nil {
			bitsOf(m, "phi:"+ph.Name(), v)
		}
	}
	for a, v := range s.mem {
		if v == tTrue || v == tFalse || a.op == OObj && v.typ != nil && types.Identical(v.typ, types.Typ[types.Bool]) {
			m["mem:"+a.key] = v
		} else {
			bitsOf(m, "mem:"+a.key, v)
		}
	}
	return m
}

// bitsOf: the bits of a small number are flags, too.
func bitsOf(m map[string]*Term, k string, v *Term) {
	if n, ok := v.int(); ok && v.op == OConst && n >= 0 && n < 8 {
		for b := 0; b < 3; b++ {
			m[k+"#"+strconv.Itoa(b)] = mkBool(n>>b&1 == 1)
		}
	}
}

// flagIn: the value of a flag; a variable nothing was stored in yet is false.
func flagIn(m map[string]*Term, k string) *Term {
	if v, ok := m[k]; ok {
		return v
	}
	if strings.HasPrefix(k, "mem:obj:") {
		return tFalse
	}
	return nil
}

// setFlags notes how this letter changes flags.
func (lt *Letter) setFlags(was, is map[string]*Term) {
	if lt.flags == nil {
		lt.flags = map[string]map[string]bool{}
	}
	ks := map[string]bool{}
	for k := range was {
		ks[k] = true
	}
	for k := range is {
		ks[k] = true
	}
	for k := range ks {
		v := flagIn(was, k)
		if v == nil {
			continue
		}
		to := "?"
		if w := is[k]; w != nil {
			to = w.key
		}
		if lt.flags[k] == nil {
			lt.flags[k] = map[string]bool{}
		}
		lt.flags[k][v.key+">"+to] = true
	}
}

// round tells apart the objects the iterations of unrolled loops allocate at one instruction.
func (s *State) round() string {
	var ks []string
	for id, l := range s.loops {
		if l.unroll && l.n > 0 {
			ks = append(ks, id+"#"+strconv.Itoa(l.n))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "")
}

type indPhi struct {
	init *Term
	step int64
	tail bool // the list itself advances
}

// mkTail is list[at:].
func mkTail(list, at *Term) *Term { return mkCall("tail", list.typ, list, at) }

func isTail(t *Term) bool { return t.op == OCall && t.s == "tail" }

func (l *loopState) key() string {
	k := strconv.FormatBool(l.unroll) + strconv.Itoa(l.n)
	for _, x := range l.seen {
		k += "|" + x.key
	}
	for _, x := range l.slots {
		k += "&" + x.key + "=" + x.init.key
	}
	if l.list != nil {
		k += "@" + l.list.key
	}
	return k
}

type discovery struct {
	header  *ssa.BasicBlock
	id      string
	gens    map[string]slot
	letters map[string]*Letter
	consts  map[string]map[*Term]bool
	restart bool
}

func (s *State) setLoop(id string, l *loopState) {
	n := make(map[string]*loopState, len(s.loops)+1)
	for k, v := range s.loops {
		n[k] = v
	}
	if l == nil {
		delete(n, id)
	} else {
		n[id] = l
	}
	s.loops = n
}

func (r *run) loopID(h *ssa.BasicBlock) string {
	return r.ctx + "/" + r.fn.RelString(nil) + "#" + strconv.Itoa(h.Index)
}

func mkPos(id string, list *Term) *Term {
	k := "pos:" + id
	var as []*Term
	if list != nil {
		k += "@" + list.key
		as = []*Term{list}
	}
	return mk(OPos, k, id, types.Typ[types.Int], as...)
}

func mkElem(id string, list *Term) *Term {
	return mk(OElem, "elem("+list.key+")#"+id, id, elemType(list), list)
}

func elemType(l *Term) types.Type {
	if l.typ == nil {
		return nil
	}
	switch u := l.typ.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Key()
	}
	return nil
}

// isLoopTerm: terms whose meaning changes with the iteration of loop id.
func isLoopTerm(t *Term, id string) bool {
	switch t.op {
	case OPos, OElem, OMKey, OMVal, OAcc:
		return t.s == id
	}
	return false
}

var loopMentions = map[string]bool{}

func mentionsLoop(t *Term, id string) bool {
	k := strconv.Itoa(t.id) + "|" + id
	if r, ok := loopMentions[k]; ok {
		return r
	}
	r := isLoopTerm(t, id)
	for _, a := range t.args {
		if r {
			break
		}
		r = mentionsLoop(a, id)
	}
	loopMentions[k] = r
	return r
}

// posOf recognises the index of the current element: counting up or down.
func posOf(list, idx *Term) *Term {
	if idx.op == OPos && len(idx.args) == 1 && stripSorted(idx.args[0]) == stripSorted(list) {
		return idx
	}
	if idx.op == OSum && len(idx.args) == 2 && idx.co[2] == -1 {
		var p, l *Term
		for i, a := range idx.args {
			if a.op == OPos && idx.co[i] == -1 {
				p = a
			}
			if a.op == OLen && idx.co[i] == 1 {
				l = a
			}
		}
		if p != nil && l != nil && len(p.args) == 1 && stripSorted(p.args[0]) == stripSorted(list) && stripSorted(l.args[0]) == stripSorted(list) {
			return p
		}
	}
	return nil
}

func loopElem(s *State, list, idx *Term) *Term {
	if p := posOf(list, idx); p != nil {
		return mkElem(p.s, list)
	}
	return nil
}

func posInRange(s *State, list, idx *Term) bool {
	p := posOf(list, idx)
	if p == nil && idx.op == OPos && len(idx.args) == 1 && s.cond(mkEq(mkLen(stripSorted(list)), mkLen(stripSorted(idx.args[0])))) == yes {
		// another list that is as long
		return s.cond(mkLess(idx, mkLen(stripSorted(idx.args[0])), false)) == yes
	}
	return p != nil && s.cond(mkLess(p, mkLen(stripSorted(list)), false)) == yes
}

func stripSorted(l *Term) *Term {
	for l.op == OCall && l.s == "sorted" {
		l = l.args[0]
	}
	return l
}

// parseGuard: pos < len(L), as a condition on the continue edge.
func parseGuard(c Cond, pos *Term) *Term {
	if c.atom.op == OCall && c.atom.s == "more" && c.pos {
		return c.atom.args[0]
	}
	if c.atom.op != OLE && c.atom.op != OEq {
		return nil
	}
	sum := c.atom.args[0]
	var n *Term
	var k int64
	if c.atom.op == OEq {
		// pos != n
		if c.pos {
			return nil
		}
		a, b := c.atom.args[0], c.atom.args[1]
		if a == pos {
			n = b
		} else if b == pos {
			n = a
		} else {
			return nil
		}
	} else {
		if sum.op != OSum || len(sum.args) != 2 {
			return nil
		}
		k = c.atom.k.Int64()
		sign := int64(1)
		if !c.pos {
			sign, k = -1, -k-1
		}
		okp := false
		for i, a := range sum.args {
			switch {
			case a == pos && sum.co[i]*sign == 1:
				okp = true
			case sum.co[i]*sign == -1:
				n = a
			}
		}
		if !okp || n == nil || k != -1 {
			return nil
		}
	}
	if n.op == OLen {
		return n.args[0]
	}
	return mkCall("upto", nil, n)
}

// concrete: a list whose elements, joined, are known to be a constant text is that list.
func (s *State) concrete() {
	repl := map[*Term]*Term{}
	for a, f := range s.facts {
		if !f.val || a.op != OEq || a.args[1].op != OConst {
			continue
		}
		txt, ok := a.args[1].str()
		if l := joinedList(a.args[0]); ok && l != nil {
			sep, _ := l.args[1].str()
			if sep == "" {
				continue
			}
			var ps []*Term
			for _, p := range strings.Split(txt, sep) {
				ps = append(ps, mkStr(p))
			}
			repl[a.args[0].args[0]] = mkList(a.args[0].args[0].typ, ps...)
			repl[mkLen(l)] = mkInt(int64(len(ps)))
		}
	}
	if len(repl) == 0 {
		return
	}
	f := func(t *Term) *Term { return repl[t] }
	for v, t := range s.env {
		s.env[v] = subst(t, f)
	}
	var as []*Term
	for a := range s.mem {
		as = append(as, a)
	}
	for _, a := range as {
		if v := subst(s.mem[a], f); v != s.mem[a] {
			s.setMem(a, v)
		}
	}
}

func (r *run) enterLoop(l *loopInfo, s *State) bool {
	id := r.loopID(l.header)
	s.concrete()
	s.dropFacts(func(a *Term) bool { return mentionsLoop(a, id) })
	var recs []*LoopRec
	for _, x := range s.recs {
		if x.id != id {
			recs = append(recs, x)
		}
	}
	s.recs = recs
	h := l.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		r.e.undecided(r.blockPos(h), "loop without a bound at its head in %s", r.fn)
		return false
	}
	// probe evaluates the tests at the head of the loop, up to the first that is not settled
	probe := func(s0 *State) (Cond, *ssa.BasicBlock, bool) {
		t := s0.clone()
		np := len(r.e.panics)
		defer func() { r.e.panics = r.e.panics[:np] }()
		c := constCond(true)
		for b, n := h, 0; ; n++ {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || n == 8 || n > 0 && len(b.Preds) != 1 || l.blocks[b.Succs[0]] == l.blocks[b.Succs[1]] {
				return c, b, n > 0
			}
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if ins == ssa.Instruction(iff) {
					break
				}
				if outs := r.step(t, ins); outs != nil {
					if len(outs) != 1 || outs[0].panic != "" {
						return c, b, n > 0
					}
					t = outs[0].st
				}
			}
			c = r.cond(t, iff.Cond)
			in := b.Succs[0]
			if !l.blocks[in] {
				c, in = c.not(), b.Succs[1]
			}
			if c.atom != tTrue || !c.pos {
				return c, b, true
			}
			b = in
		}
	}
	c, gblk, ok := probe(s)
	if ok && (c.atom == tTrue || c.atom == tFalse) {
		s.setLoop(id, &loopState{id: id, unroll: true})
		return true
	}
	ls := &loopState{id: id, ind: map[*ssa.Phi]indPhi{}, entry: map[*ssa.Phi]*Term{}, baseEv: s.ev, headEv: s.ev}
	// induction variables
	for _, ins := range h.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ls.entry[ph] = s.env[ph]
		step, ok := int64(0), true
		first := true
		for j, p := range h.Preds {
			if !l.blocks[p] {
				continue
			}
			d, isInd := stepOf(ph, ph.Edges[j])
			if !isInd || (!first && d != step) {
				ok = false
				break
			}
			step, first = d, false
		}
		if ok && !first && step != 0 {
			ls.ind[ph] = indPhi{init: s.env[ph], step: step}
		} else if v := s.env[ph]; v.op != OObj && v.op != OSliceOf && v.op != OList && advances(ph, l) {
			ls.ind[ph] = indPhi{init: v, step: 1, tail: true}
		}
	}
	pos := mkPos(id, nil)
	t := s.clone()
	ls.setInd(t, pos)
	first := gblk
	c, gblk, ok = probe(t)
	if !ok {
		r.e.undecided(r.blockPos(h), "loop head with several outcomes in %s", r.fn)
		return false
	}
	list := parseGuard(c, pos)
	if list == nil && first != h { // the head is settled for now
		s.setLoop(id, &loopState{id: id, unroll: true})
		return true
	}
	if list == nil {
		r.e.undecided(r.blockPos(h), "loop bound not recognised in %s: %s", r.fn, c)
		return false
	}
	ls.list = list
	ls.pos = mkPos(id, list)
	ls.setInd(s, ls.pos)
	ls.gblk = gblk
	ls.guard, _, _ = probe(s)
	for i := 0; ; i++ {
		if i == 24 {
			r.e.undecided(r.blockPos(h), "loop-carried values of %s do not stabilise", r.fn)
			return false
		}
		d := &discovery{header: h, id: id, gens: map[string]slot{}, letters: map[string]*Letter{}, consts: map[string]map[*Term]bool{}}
		for _, g := range ls.slots {
			d.gens[g.key] = g
		}
		t := s.clone()
		ds := *ls
		ls.setSlots(t)
		r.fillHead(&ds, t)
		ds.flags = flagsAt(h, t)
		ds.flags0 = ds.flags
		t.setLoop(id, &ds)
		sub := &run{e: r.e, fi: r.fi, fn: r.fn, ctx: r.ctx, roots: r.roots, pend: map[*ssa.BasicBlock][]*State{}, seen: map[*ssa.BasicBlock]map[string]bool{}, only: l.blocks, disc: d}
		r.e.disc = append(r.e.disc, d)
		sub.pend[h] = []*State{t}
		sub.loop()
		r.e.disc = r.e.disc[:len(r.e.disc)-1]
		if len(d.gens) == len(ls.slots) {
			for _, k := range sortedKeys(d.letters) {
				ls.all = append(ls.all, d.letters[k])
			}
			break
		}
		ls.slots = nil
		for _, k := range sortedKeys(d.gens) {
			ls.slots = append(ls.slots, d.gens[k])
		}
	}
	ls.setSlots(s)
	r.fillHead(ls, s)
	ls.flags = flagsAt(h, s)
	ls.flags0 = ls.flags
	s.setLoop(id, ls)
	return true
}

func (r *run) fillHead(ls *loopState, s *State) {
	ls.head = map[*Term]*Term{}
	ls.known = map[*Term]bool{}
	add := func(t *Term) {
		t.walk(func(x *Term) bool {
			if ls.known[x] {
				return false
			}
			ls.known[x] = true
			return true
		})
	}
	for a, v := range s.mem {
		ls.head[a] = v
		add(a)
		add(v)
	}
	for _, v := range s.env {
		add(v)
	}
	for _, v := range r.roots {
		add(v)
	}
	ls.facts = map[*Term]fact{}
	for a, f := range s.facts {
		ls.facts[a] = f
	}
	ls.occ = map[string]int{}
	for a, f := range s.occ {
		ls.occ[a] = f
	}
	ls.headEv = s.ev
}

func (ls *loopState) setInd(s *State, pos *Term) {
	for ph, ip := range ls.ind {
		if ip.tail {
			s.env[ph] = mkTail(ip.init, pos)
			continue
		}
		m, c, ok := sumParts(ip.init)
		if !ok {
			continue
		}
		m2 := map[*Term]int64{}
		for t, k := range m {
			m2[t] = k
		}
		m2[pos] += ip.step
		s.env[ph] = mkSum(m2, c)
	}
}

func (ls *loopState) setSlots(s *State) {
	for _, sl := range ls.slots {
		if sl.phi != nil {
			s.env[sl.phi] = sl.acc
		} else {
			s.setMem(sl.addr, sl.acc)
		}
	}
}

// advances: each round takes the first element off the list.
func advances(ph *ssa.Phi, l *loopInfo) bool {
	if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for j, p := range ph.Block().Preds {
		if !l.blocks[p] {
			continue
		}
		sl, ok := ph.Edges[j].(*ssa.Slice)
		if !ok || sl.X != ssa.Value(ph) || sl.High != nil || sl.Max != nil || sl.Low == nil {
			return false
		}
		if c, ok := sl.Low.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 {
			return false
		}
	}
	return true
}

func stepOf(ph *ssa.Phi, v ssa.Value) (int64, bool) {
	b, ok := v.(*ssa.BinOp)
	if !ok || (b.Op != token.ADD && b.Op != token.SUB) {
		return 0, false
	}
	if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	x := b.X
	if !ok {
		if c, ok = b.X.(*ssa.Const); !ok || b.Op == token.SUB {
			return 0, false
		}
		x = b.Y
	}
	if x != ssa.Value(ph) || c.Value == nil {
		return 0, false
	}
	n := c.Int64()
	if b.Op == token.SUB {
		n = -n
	}
	return n, true
}

func (r *run) blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return r.fn.Pos()
}

// letterOf: what this iteration found out about its element and did to the loop-carried values.
func (r *run) letterConds(ls *loopState, s *State) []Cond {
	var cs []Cond
	for a, f := range s.facts {
		if a == ls.guard.atom || !mentionsLoop(a, ls.id) {
			continue
		}
		cs = append(cs, termCond(ls.abstract(condTerm(Cond{a, f.val}))))
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
	return cs
}

func holeAt(n int) *Term {
	if n == 0 {
		return tHole
	}
	t := mk(OHole, "●"+strconv.Itoa(n), strconv.Itoa(n), nil)
	return t
}

func holeLevel(t *Term) int {
	n := 0
	t.walk(func(x *Term) bool {
		if x.op == OHole {
			k := 0
			if x.s != "" {
				k, _ = strconv.Atoi(x.s)
			}
			if k+1 > n {
				n = k + 1
			}
		}
		return true
	})
	return n
}

// abstract replaces the current element by a hole.
func (ls *loopState) abstract(t *Term) *Term {
	h := holeAt(holeLevel(t))
	hv := mk(OHole, "◆"+h.s, "v"+h.s, nil)
	var of *Term // elements of a list and of its sorted copy are not the same
	mixed := false
	t.walk(func(x *Term) bool {
		if x.op == OElem && x.s == ls.id {
			mixed = mixed || of != nil && of != x.args[0]
			of = x.args[0]
		}
		return true
	})
	return subst(t, func(x *Term) *Term {
		if isLoopTerm(x, ls.id) {
			switch x.op {
			case OElem, OMKey:
				if mixed && x.args[0] != ls.list {
					return nil
				}
				return h
			case OMVal:
				return hv
			}
		}
		return nil
	})
}

func (r *run) backEdge(l *loopInfo, s *State) bool {
	id := r.loopID(l.header)
	ls := s.loops[id]
	if ls == nil {
		return false
	}
	if ls.unroll {
		n := *ls
		n.n++
		if n.n > 80 {
			r.e.undecided(r.blockPos(l.header), "loop in %s runs for more than 80 known elements", r.fn)
			return false
		}
		s.setLoop(id, &n)
		return true
	}
	n := *ls
	lt := &Letter{sets: map[int]*Term{}}
	lt.conds = r.letterConds(ls, s)
	isSlot := map[string]bool{}
	for i, sl := range ls.slots {
		isSlot[sl.key] = true
		var v *Term
		if sl.phi != nil {
			v = s.env[sl.phi]
		} else {
			v = s.mem[sl.addr]
			if v == nil && sl.addr.typ != nil {
				v = r.e.load(s, sl.addr, deref(sl.addr.typ))
			}
		}
		if v == nil {
			v = sl.acc
		}
		if v != sl.acc {
			if v.op == OMap {
				v = r.e.snapshot(s, v)
			}
			lt.sets[i] = ls.abstract(v)
		}
	}
	lt.pairs = s.pairsAt(id, true)
	k := ""
	for _, c := range lt.conds {
		k += c.String() + "&"
	}
	for i := range ls.slots {
		if v, ok := lt.sets[i]; ok {
			k += fmt.Sprintf("|%d:=%s", i, v.key)
		}
	}
	lt.key = k
	first := map[int]tri{}
	for i := range lt.sets {
		first[i] = yes
		for _, x := range ls.seen {
			if _, ok := x.sets[i]; ok {
				first[i] = no
			}
		}
	}
	lt.setFirst(first)
	n.flags = flagsAt(l.header, s)
	lt.setFlags(ls.flags, n.flags)
	d := r.disc
	if d != nil && d.header != l.header {
		d = nil
	}
	// loop-carried values that are not yet slots
	for _, ins := range l.header.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := ls.ind[ph]; ok || isSlot["phi:"+ph.Name()] {
			continue
		}
		v := s.env[ph]
		if v == nil {
			continue
		}
		if v.op == OConst || v.op == ONil {
			if d != nil {
				d.constant("phi:"+ph.Name(), v)
				if len(d.consts["phi:"+ph.Name()]) <= 8 {
					continue
				}
			} else {
				continue
			}
		}
		if d != nil {
			if v == r.headPhi(ls, ph, s) && !mentionsLoop(v, id) {
				continue
			}
			d.add(slot{key: "phi:" + ph.Name(), phi: ph})
		}
	}
	if d != nil {
		for a, v := range s.mem {
			if isSlot["mem:"+a.key] || a.op == OIter {
				continue
			}
			hv, was := ls.head[a]
			if was && hv == v {
				continue
			}
			if !was {
				rt := rootOf(a)
				if rt.op == OObj && !ls.known[rt] {
					continue
				}
				hv = nil
			}
			if v.op == OConst {
				d.constant("mem:"+a.key, v)
				if len(d.consts["mem:"+a.key]) <= 8 {
					continue
				}
			}
			d.add(slot{key: "mem:" + a.key, addr: a, init: hv})
		}
		if o := d.letters[lt.key]; o != nil {
			lt.setFirst(o.first)
			for k, m := range o.flags {
				for c := range m {
					if lt.flags[k] == nil {
						lt.flags[k] = map[string]bool{}
					}
					lt.flags[k][c] = true
				}
			}
		}
		d.letters[lt.key] = lt
		if d.restart {
			// initial values come from the state at entry
			for k, g := range d.gens {
				if g.acc == nil {
					g.acc = mk(OAcc, "acc:"+k+"#"+id, id, nil)
					if g.phi != nil {
						g.acc.typ = g.phi.Type()
						g.init = ls.entryPhi(g.phi)
						if g.init.op == OSliceOf {
							g.init = r.e.content(&State{mem: ls.head}, g.init)
						}
					} else {
						if g.init == nil && g.addr.op == OFieldAddr && g.addr.s == "buf" && g.addr.typ == nil {
							g.init = mkStr("") // nothing written yet
						} else if g.init == nil && g.addr.typ == nil {
							g.init = mkUnk("init:"+g.addr.key, nil)
						} else if g.init == nil {
							g.init = r.e.load(&State{mem: ls.head}, g.addr, deref(g.addr.typ))
						}
						g.acc.typ = g.init.typ
					}
					d.gens[k] = g
				}
			}
			return false // start over with these values generalised
		}
	}
	// the next iteration
	found := false
	for _, x := range n.seen {
		if x.key == lt.key {
			found = true
		}
	}
	if !found {
		n.seen = append(append([]*Letter{}, n.seen...), lt)
		sort.Slice(n.seen, func(i, j int) bool { return n.seen[i].key < n.seen[j].key })
	}
	s.dropFacts(func(a *Term) bool {
		if mentionsLoop(a, id) {
			return true
		}
		if _, ok := ls.facts[a]; ok {
			return false
		}
		return a.mentionsAny(func(x *Term) bool { return x.op == ORes })
	})
	var recs []*LoopRec
	for _, x := range s.recs {
		if !recMentions(x, id) {
			recs = append(recs, x)
		}
	}
	s.recs = recs
	r.foldEvents(&n, s)
	ls.setInd(s, ls.pos)
	ls.setSlots(s)
	s.occ, s.occSh = ls.occ, true
	s.setLoop(id, &n)
	return true
}

func recMentions(x *LoopRec, id string) bool {
	if mentionsLoop(x.list, id) {
		return true
	}
	for _, l := range x.letters {
		for _, c := range l.conds {
			if mentionsLoop(c.atom, id) {
				return true
			}
		}
	}
	for _, c := range x.current {
		if mentionsLoop(c.atom, id) {
			return true
		}
	}
	return false
}

func (d *discovery) constant(k string, v *Term) {
	if d.consts[k] == nil {
		d.consts[k] = map[*Term]bool{}
	}
	d.consts[k][v] = true
}

func (d *discovery) add(s slot) {
	if _, ok := d.gens[s.key]; ok {
		return
	}
	d.gens[s.key] = s
	d.restart = true
}

// headPhi is the value a phi had at the head of this iteration; it is only known to be unchanged if
// the new value is the one from loop entry.
func (r *run) headPhi(ls *loopState, ph *ssa.Phi, s *State) *Term { return ls.entryPhi(ph) }

func (ls *loopState) entryPhi(ph *ssa.Phi) *Term {
	if v := ls.entry[ph]; v != nil {
		return v
	}
	return mkUnk("init", ph.Type())
}

// foldEvents: effects of one iteration happen once per element.
func (r *run) foldEvents(ls *loopState, s *State) {
	if s.ev == ls.headEv {
		return
	}
	var evs []*Ev
	for e := s.ev; e != ls.headEv && e != nil; e = e.prev {
		evs = append(evs, e)
	}
	have := map[string]bool{}
	for e := ls.headEv; e != ls.baseEv && e != nil; e = e.prev {
		have[e.name+"|"+keys(e.args)] = true
	}
	s.ev = ls.headEv
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		n := e.name
		if !strings.HasPrefix(n, "each:") {
			n = "each:" + n
		}
		if have[n+"|"+keys(e.args)] {
			continue
		}
		have[n+"|"+keys(e.args)] = true
		s.emit(n, e.pos, e.fn, e.res, e.args...)
	}
	ls.headEv = s.ev
}

func (r *run) exitLoop(l *loopInfo, from, to *ssa.BasicBlock, s *State, c Cond) bool {
	id := r.loopID(l.header)
	ls := s.loops[id]
	if ls == nil {
		return true
	}
	complete := from == ls.gblk && c.atom == ls.guard.atom && c.pos != ls.guard.pos
	return r.leave(ls, s, complete)
}

func (r *run) leave(ls *loopState, s *State, complete bool) bool {
	s.setLoop(ls.id, nil)
	if ls.unroll {
		return true
	}
	list := stripSorted(ls.list)
	rec := &LoopRec{id: ls.id, list: list, letters: ls.seen, complete: complete}
	if complete {
		empty := mkEq(mkLen(list), mkInt(0))
		if len(ls.seen) == 0 {
			switch s.cond(empty) {
			case no:
				return false
			case unk:
				s.addFact(empty.atom, empty.pos)
			}
		} else if s.cond(empty) == yes {
			return false
		}
	} else {
		rec.current = r.letterConds(ls, s)
	}
	// what is known about the elements as facts about the collection
	atoms := map[*Term][2]bool{}
	note := func(cs []Cond) {
		for _, c := range cs {
			x := atoms[c.atom]
			if c.pos {
				x[0] = true
			} else {
				x[1] = true
			}
			atoms[c.atom] = x
		}
	}
	for _, lt := range ls.seen {
		note(lt.conds)
	}
	note(rec.current)
	// a round that contradicts what is already known of the elements cannot have happened
	learn := func(x *Term, v bool) bool {
		if k := s.truth(x); k != unk {
			return k == tb(v)
		}
		s.addFact(x, v)
		return true
	}
	for a, x := range atoms {
		if a.mentionsAny(func(t *Term) bool { return t.op == OAcc || t.op == OPos }) {
			continue
		}
		for i, v := range x {
			if v && !learn(mkExists(list, condTerm(Cond{a, i == 0})), true) {
				return false
			}
		}
	}
	if complete {
		for _, lt := range ls.all {
			for _, c := range lt.conds {
				if c.atom.mentionsAny(func(t *Term) bool { return t.op == OAcc || t.op == OPos }) {
					continue
				}
				for _, p := range []bool{true, false} {
					q := Cond{c.atom, p}
					never := true
					for _, sl := range ls.seen {
						if implied(sl.conds, q.not()) != yes {
							never = false
						}
					}
					if never && !learn(mkExists(list, condTerm(q)), false) {
						return false
					}
				}
			}
		}
	}
	s.recs = append(append([]*LoopRec{}, s.recs...), rec)
	if !ls.comparePairs(s, complete) || !ls.repeats(s, rec, complete) || !ls.draws(s, rec, complete) {
		return false
	}
	// loop-carried values
	repl := map[*Term]*Term{}
	if complete && !(ls.list.op == OCall && ls.list.s == "upto") {
		repl[ls.pos] = mkLen(ls.list)
	}
	for i, sl := range ls.slots {
		v := mkFold(ls, i, complete)
		if k := ls.countOf(i); k != nil && complete {
			v = mkCount(list, k)
		}
		if isScalar(sl.acc.typ) {
			switch k, up := ls.counted(i); {
			case k == 0 && !up:
				v = sl.init
			case up:
				if n, ok := sl.init.int(); ok && n == 0 && complete {
					switch ls.always(i) {
					case yes:
						repl[sl.acc] = mkLen(list)
						continue
					case no:
						c := mkLess(v, mkLen(list), false)
						s.addFact(c.atom, c.pos)
						c = mkEq(v, mkLen(list))
						s.addFact(c.atom, !c.pos)
					}
				}
				if n, ok := sl.init.int(); ok {
					c := mkLess(v, mkInt(n+k), false)
					if s.cond(c) == yes {
						return false
					}
					s.addFact(c.atom, !c.pos)
				}
			}
		}
		if complete && v.op == OFold && sl.init.op == OMap && len(sl.init.args) == 0 {
			if lo, hi := ls.distinct(i); lo > 0 {
				n := mkLen(v)
				bounds := []Cond{mkLess(n, mkInt(lo), false).not()}
				if hi > 0 {
					bounds = append(bounds, mkLess(mkInt(hi), n, false).not())
				}
				for _, c := range bounds {
					if s.cond(c) == no {
						return false
					}
					s.addFact(c.atom, c.pos)
				}
			}
		}
		repl[sl.acc] = v
	}
	if len(repl) > 0 {
		f := func(t *Term) *Term { return repl[t] }
		for v, t := range s.env {
			s.env[v] = subst(t, f)
		}
		var as []*Term
		for a := range s.mem {
			as = append(as, a)
		}
		for _, a := range as {
			if v := subst(s.mem[a], f); v != s.mem[a] {
				s.setMem(a, v)
			}
		}
	}
	if complete {
		s.dropFacts(func(a *Term) bool { return mentionsLoop(a, ls.id) })
	}
	return true
}

func isScalar(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

// counted: how often the rounds seen so far must have counted the slot up; (0, false) if none of
// them touched it.
func (ls *loopState) counted(i int) (int64, bool) {
	acc := ls.slots[i].acc
	var n int64
	up := true
	touched := false
	for _, lt := range ls.seen {
		v, ok := lt.sets[i]
		if !ok {
			continue
		}
		touched = true
		k, ok := mkAdd(v, acc, -1).int()
		if !ok || k < 1 {
			up = false
		}
		n += k
	}
	if !touched {
		return 0, false
	}
	if !up {
		n = -1
	}
	return n, up
}

// always: did every round seen so far count the slot up by one (yes), or did some round certainly
// not (no)?
func (ls *loopState) always(i int) tri {
	acc := ls.slots[i].acc
	res := yes
	for _, lt := range ls.seen {
		v, ok := lt.sets[i]
		if !ok {
			res = no
			continue
		}
		if k, ok := mkAdd(v, acc, -1).int(); !ok || k != 1 {
			return unk
		}
	}
	return res
}

// distinct: bounds on the number of keys of a map that every round so far added its element to
// (0 for unknown).
func (ls *loopState) distinct(i int) (lo, hi int64) {
	acc := ls.slots[i].acc
	var only *Term
	lo, hi = 1, 1
	n := 0
	for _, lt := range ls.seen {
		v, ok := lt.sets[i]
		if !ok {
			return 0, 0
		}
		if v.op != OMap {
			return 0, 0
		}
		kv, base := v.mapParts()
		if base != acc || len(kv) != 2 || kv[0] != tHole {
			return 0, 0
		}
		n++
		var is *Term
		for _, c := range lt.conds {
			if c.pos && c.atom.op == OEq && c.atom.args[0] == tHole && c.atom.args[1].op == OConst {
				is = c.atom.args[1]
			}
		}
		switch {
		case is == nil:
			hi = 0
		case only == nil:
			only = is
		case only != is:
			lo, hi = 2, 0
		}
	}
	if n == 0 {
		return 0, 0
	}
	if hi == 0 && only != nil && lo < 2 { // some round was certainly for another key?
		for _, lt := range ls.seen {
			if implied(lt.conds, mkEq(tHole, only)) == no {
				lo = 2
			}
		}
	}
	return lo, hi
}

// pairsAt: the pairs of lists whose elements at the current position are known to be equal (or
// different).
func (s *State) pairsAt(id string, equal bool) [][2]*Term {
	var out [][2]*Term
	for a, f := range s.facts {
		if a.op != OEq || f.val != equal {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := a.args[i], a.args[1-i]
			if x.op == OElem && x.s == id && y.op == OIdx && y.args[1].op == OPos && y.args[1].s == id {
				out = append(out, [2]*Term{x.args[0], y.args[0]})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0].key+out[i][1].key < out[j][0].key+out[j][1].key })
	return out
}

// comparePairs: a loop that compared two lists element by element. False: this cannot happen.
func (ls *loopState) comparePairs(s *State, complete bool) bool {
	settle := func(p [2]*Term, eq bool) bool {
		c, ok := sameLists(p[0], p[1])
		if !ok {
			return true
		}
		if !eq {
			c = c.not()
		}
		switch s.cond(c) {
		case no:
			return false
		case unk:
			s.addFact(c.atom, c.pos)
		}
		return true
	}
	if !complete {
		for _, p := range s.pairsAt(ls.id, false) {
			if !settle(p, false) {
				return false
			}
		}
		return true
	}
	for i, lt := range ls.all {
		for _, p := range lt.pairs {
			ok := s.cond(mkEq(mkLen(stripSorted(p[0])), mkLen(stripSorted(p[1])))) == yes
			for _, l2 := range ls.seen {
				has := false
				for _, q := range l2.pairs {
					has = has || q == p
				}
				ok = ok && has
			}
			if ok && i >= 0 && !settle(p, true) {
				return false
			}
		}
	}
	return true
}

// sameLists: two lists are equal element by element.
func sameLists(x, y *Term) (Cond, bool) {
	a, b := stripSorted(x), stripSorted(y)
	if a.op == OCall && b.op == OCall && a.s == "strings.Split" && b.s == "strings.Split" && a.args[1] == b.args[1] && a.args[1].op == OConst {
		return mkEq(mkJoin(x, a.args[1]), mkJoin(y, a.args[1])), true
	}
	if a.op == OList {
		x, y, a, b = y, x, b, a
	}
	if sep, ok := splitSep(a); ok && b.op == OList && y == b {
		if len(b.args) == 0 {
			return constCond(false), true // a split text has a piece
		}
		parts := make([]string, len(b.args))
		for i, p := range b.args {
			if parts[i], ok = p.str(); !ok || strings.Contains(parts[i], sep) {
				return Cond{}, false
			}
		}
		return mkEq(mkJoin(x, a.args[1]), mkStr(strings.Join(parts, sep))), true
	}
	return Cond{}, false
}

// splitSep: the separator of a split text, when it is known and not empty.
func splitSep(l *Term) (string, bool) {
	if l.op != OCall || l.s != "strings.Split" {
		return "", false
	}
	sep, ok := l.args[1].str()
	return sep, ok && sep != ""
}

// implied: does the conjunction decide the condition?
func implied(cs []Cond, q Cond) tri {
	t := newState()
	for _, c := range cs {
		t.addFact(c.atom, c.pos)
	}
	return t.cond(q)
}

// mkFold is the value of a loop-carried slot after the loop.
func mkFold(ls *loopState, i int, complete bool) *Term {
	sl := ls.slots[i]
	acc := mk(OHole, "acc", "acc", nil)
	f := func(t *Term) *Term {
		if t == sl.acc {
			return acc
		}
		return nil
	}
	letters := ls.all
	type step struct {
		conds []Cond
		val   *Term
	}
	var steps []step
	for _, lt := range letters {
		v, ok := lt.sets[i]
		if !ok {
			v = sl.acc
		}
		steps = append(steps, step{lt.conds, subst(v, f)})
	}
	if complete {
		if t := filled(ls, i); t != nil {
			return t
		}
		if t := separated(ls, i, acc, f); t != nil {
			return t
		}
		if t := canonicalFold(ls.list, sl.init, acc, steps2(len(steps), func(i int) ([]Cond, *Term) { return steps[i].conds, steps[i].val })); t != nil {
			return t
		}
	}
	return mkFoldOf(sl.acc.typ, ls.list, sl.init, acc, steps2(len(steps), func(i int) ([]Cond, *Term) { return steps[i].conds, steps[i].val }), complete)
}

// setFirst notes, per value, whether this letter is only ever the first (yes) or never the first (no) to set it.
func (lt *Letter) setFirst(m map[int]tri) {
	n := map[int]tri{}
	for i, v := range lt.first {
		n[i] = v
	}
	for i, v := range m {
		if o, ok := n[i]; ok && o != v {
			v = unk
		}
		n[i] = v
	}
	lt.first = n
}

// filled recognises a list made with the length of another whose elements are set one by one.
func filled(ls *loopState, i int) *Term {
	sl := ls.slots[i]
	if sl.addr == nil || sl.addr.op != OObj {
		return nil
	}
	n := ls.head[mkFieldAddr(sl.addr, "#len", nil)]
	if n == nil || n.op != OLen || stripSorted(n.args[0]) != stripSorted(ls.list) {
		return nil
	}
	acc := mk(OHole, "acc", "acc", nil)
	var steps []foldStep
	for _, lt := range ls.all {
		v := lt.sets[i]
		if v == nil || v.op != OCall || v.s != "written:elem" || len(v.args) != 3 || v.args[0] != sl.acc || v.args[1] != ls.pos || v.args[2].mentionsAny(func(x *Term) bool { return x == sl.acc || x == ls.pos }) {
			return nil
		}
		steps = append(steps, foldStep{lt.conds, mkCall("append", nil, acc, mkList(nil, v.args[2]))})
	}
	if t := canonicalFold(ls.list, mkList(nil), acc, steps); t != nil {
		return t
	}
	return mkFoldOf(sl.acc.typ, ls.list, mkList(nil), acc, steps, true)
}

// separated recognises a text built piece by piece with a separator in front of all pieces but the first.
func separated(ls *loopState, i int, acc *Term, f func(*Term) *Term) *Term {
	init := ls.slots[i].init
	if _, ok := init.str(); !ok && init.op != OConcat {
		return nil
	}
	type piece struct {
		conds string
		val   *Term
	}
	pieces := func(v *Term) []*Term { // what is appended
		if v.op == OConcat && len(v.args) > 1 && v.args[0] == acc {
			return v.args[1:]
		}
		return nil
	}
	firsts := map[piece]bool{}
	var steps []foldStep
	for _, lt := range ls.all {
		v, ok := lt.sets[i]
		if !ok {
			steps = append(steps, foldStep{lt.conds, acc})
			continue
		}
		ps := pieces(subst(v, f))
		if len(ps) == 0 {
			return nil
		}
		if lt.first[i] == yes {
			x := mkConcat(ps...)
			firsts[piece{condsKey(lt.conds), x}] = true
			steps = append(steps, foldStep{lt.conds, mkCall("append", nil, acc, mkList(nil, x))})
		}
	}
	if len(firsts) == 0 {
		return nil
	}
	sep, n := "", 0
	for _, lt := range ls.all {
		v, ok := lt.sets[i]
		if !ok || lt.first[i] == yes {
			continue
		}
		ps := pieces(subst(v, f))
		k, isStr := ps[0].str()
		if lt.first[i] != no || !isStr || len(ps) < 2 || n > 0 && k != sep {
			return nil
		}
		sep = k
		n++
		if !firsts[piece{condsKey(lt.conds), mkConcat(ps[1:]...)}] {
			return nil
		}
	}
	if n != len(firsts) {
		return nil
	}
	list := canonicalFold(ls.list, mkList(nil), acc, steps)
	if list == nil {
		list = mkFoldOf(nil, ls.list, mkList(nil), acc, steps, true)
	}
	if k, ok := init.str(); ok && k == "" {
		return mkJoin(list, mkStr(sep))
	}
	return mkConcat(init, mkJoin(list, mkStr(sep)))
}

func condsKey(cs []Cond) string {
	k := ""
	for _, c := range cs {
		k += c.String() + "&"
	}
	return k
}

func mkFoldOf(typ types.Type, list, init, acc *Term, steps []foldStep, complete bool) *Term {
	name := "fold"
	if !complete {
		name = "pfold"
	}
	key := name + "(" + list.key + ";" + init.key
	args := []*Term{list, init}
	var ks []string
	for _, st := range steps {
		k := ";["
		for _, c := range st.conds {
			k += c.String() + "&"
		}
		k += "=>" + st.val.key + "]"
		ks = append(ks, k)
		args = append(args, st.val)
	}
	sort.Strings(ks)
	t := mk(OFold, key+strings.Join(ks, "")+")", name, typ, args...)
	if t.ex == nil {
		fi := foldInfo{list: list, init: init}
		for _, st := range steps {
			fi.steps = append(fi.steps, foldStep{st.conds, st.val})
		}
		t.ex = fi
	}
	return t
}

// unlist: in a map of lists of texts, a list of one is written as its element.
func unlist(t *Term) *Term {
	switch t.op {
	case OMap:
		kv, base := t.mapParts()
		n := append([]*Term{}, kv...)
		for i := 1; i < len(n); i += 2 {
			if n[i].op == OList && len(n[i].args) == 1 {
				n[i] = n[i].args[0]
			}
		}
		return mkMap(base, n, t.typ)
	case OFold:
		fi, ok := t.ex.(foldInfo)
		if !ok {
			return t
		}
		var steps []foldStep
		for _, st := range fi.steps {
			steps = append(steps, foldStep{st.conds, unlist(st.val)})
		}
		return mkFoldOf(t.typ, fi.list, unlist(fi.init), nil, steps, t.s == "fold")
	}
	return t
}

type foldStep struct {
	conds []Cond
	val   *Term
}
type foldInfo struct {
	list, init *Term
	steps      []foldStep
}

func steps2(n int, f func(int) ([]Cond, *Term)) []foldStep {
	var out []foldStep
	for i := 0; i < n; i++ {
		a, b := f(i)
		out = append(out, foldStep{a, b})
	}
	return out
}

// canonicalFold recognises filtering and copying.
func canonicalFold(list, init, acc *Term, steps []foldStep) *Term {
	if len(steps) == 0 {
		return init
	}
	isEmpty := init.op == OList && len(init.args) == 0 || init.op == ONil
	app := func(t *Term) bool {
		return t.op == OCall && t.s == "append" && len(t.args) == 2 && t.args[0] == acc && t.args[1].op == OList && len(t.args[1].args) == 1 && t.args[1].args[0] == tHole
	}
	if isEmpty {
		var keepC []Cond
		all, ok := true, true
		for _, st := range steps {
			switch {
			case app(st.val):
				if len(st.conds) == 1 {
					keepC = append(keepC, st.conds[0])
				} else if len(st.conds) > 1 {
					ok = false
				}
			case st.val == acc:
				all = false
			default:
				ok = false
			}
		}
		if ok && all {
			return mkCall("copy", list.typ, list)
		}
		if ok && len(keepC) == 1 && len(steps) == 2 {
			return mkFilter(list, condTerm(keepC[0]))
		}
	}
	return nil
}

func mkFilter(list, pred *Term) *Term {
	return mk(OCall, "filter("+list.key+":"+pred.key+")", "filter", list.typ, list, pred)
}

// foldGet looks a key up in a map filled by a loop.
func (e *Engine) foldGet(s *State, m, k *Term, T types.Type) []*Out {
	fi, ok := m.ex.(foldInfo)
	if ok {
		acc := mk(OHole, "acc", "acc", nil)
		if m.s == "fold" && k.op == OConst && countsUp(fi, acc, k) {
			l := stripSorted(fi.list)
			n := mkCount(l, k)
			has := mkExists(l, condTerm(mkEq(tHole, k)))
			s2 := s.clone()
			var outs []*Out
			if f, ok := s.facts[mkRepeats(l)]; ok && !f.val {
				n = mkInt(1)
			}
			if e.assume(s, Cond{has, true}) && e.assume(s, mkLess(mkInt(1), n, true)) {
				outs = append(outs, &Out{st: s, ret: []*Term{n, tTrue}})
			}
			if e.assume(s2, Cond{has, false}) {
				outs = append(outs, &Out{st: s2, ret: []*Term{mkInt(0), tFalse}})
			}
			return outs
		}
		var val *Term
		pred := []Cond{}
		n := 0
		good := fi.init.op == OMap && len(fi.init.args) == 0
		for _, st := range fi.steps {
			if st.val == acc {
				continue
			}
			if st.val.op == OMap {
				kv, base := st.val.mapParts()
				if base == acc && len(kv) == 2 && kv[0] == tHole && (val == nil || val == kv[1]) && !kv[1].mentions(tHole) {
					val = kv[1]
					pred = append(pred, st.conds...)
					n++
					continue
				}
			}
			good = false
		}
		if good && m.s == "fold" && val != nil && (n == 1 && len(pred) == 0 || k.op == OConst && addsAlways(fi, acc, k)) {
			x := mkExists(stripSorted(fi.list), condTerm(mkEq(tHole, k)))
			c := Cond{x, true}
			switch s.cond(c) {
			case yes:
				return []*Out{{st: s, ret: []*Term{val, tTrue}}}
			case no:
				return []*Out{{st: s, ret: []*Term{zero(T), tFalse}}}
			}
			s2 := s.clone()
			s.addFact(x, true)
			s2.addFact(x, false)
			return []*Out{{st: s, ret: []*Term{val, tTrue}}, {st: s2, ret: []*Term{zero(T), tFalse}}}
		}
	}
	return []*Out{{st: s, ret: []*Term{mkLookup(m, k, T), mkLookupOk(m, k)}}}
}

// countsUp: the loop counts its elements in a map, the constant k among them.
func countsUp(fi foldInfo, acc, k *Term) bool {
	if fi.init.op != OMap || len(fi.init.args) != 0 || !addsAlways(fi, acc, k) {
		return false
	}
	for _, st := range fi.steps {
		if st.val != acc && !countsOne(st.val, acc, st.conds) {
			return false
		}
	}
	return true
}

// countsOne: the map with the count of the element one higher.
func countsOne(v, acc *Term, conds []Cond) bool {
	if v.op != OMap {
		return false
	}
	kv, base := v.mapParts()
	if base != acc || len(kv) != 2 || kv[0] != tHole && kv[0] != elemConst(conds) {
		return false
	}
	for _, at := range []*Term{tHole, kv[0]} {
		if n, ok := mkAdd(kv[1], mkLookup(acc, at, types.Typ[types.Int]), -1).int(); ok && n == 1 {
			return true
		}
	}
	return false
}

// addsAlways: every round for an element equal to the constant k adds it to the map.
func addsAlways(fi foldInfo, acc, k *Term) bool {
	at := func(t *Term) *Term {
		if t == tHole {
			return k
		}
		return nil
	}
	adds := false
	for _, st := range fi.steps {
		possible := true
		for _, c := range st.conds {
			v := termCond(subst(condTerm(c), at))
			if v.atom == tTrue && !v.pos || v.atom == tFalse && v.pos {
				possible = false
			}
		}
		if !possible {
			continue
		}
		if st.val == acc {
			return false
		}
		adds = true
	}
	return adds
}

func (r *run) closeLoops(s *State, o *Out) {
	pre := r.ctx + "/" + r.fn.RelString(nil) + "#"
	for id, ls := range s.loops {
		if strings.HasPrefix(id, pre) {
			tmp := s.env
			s.env = map[ssa.Value]*Term{}
			r.leave(ls, s, false)
			s.env = tmp
		}
	}
}

// next advances a range over a map or string.
func (r *run) next(s *State, ins *ssa.Next) []*Out {
	it := r.val(s, ins.Iter)
	st := s.mem[it]
	if st == nil {
		r.e.undecided(ins.Pos(), "iterator without a collection")
		s.env[ins] = mkUnk("next", nil)
		return nil
	}
	x := r.e.content(s, st.args[0])
	n, _ := st.args[1].int()
	tt := ins.Type().(*types.Tuple)
	if x.op == OMap {
		kv, base := x.mapParts()
		if base == nil {
			if int(n)*2 < len(kv) {
				s.env[ins] = mkTuple(tTrue, kv[2*n], kv[2*n+1])
				s.setMem(it, mkTuple(st.args[0], mkInt(n+1)))
			} else {
				s.env[ins] = mkTuple(tFalse, tNil, tNil)
			}
			return nil
		}
	}
	if x.op == ONil {
		s.env[ins] = mkTuple(tFalse, tNil, tNil)
		return nil
	}
	if ins.IsString {
		if str, ok := x.str(); ok {
			i := 0
			for p, c := range str {
				if i == int(n) {
					s.env[ins] = mkTuple(tTrue, mkInt(int64(p)), mkInt(int64(c)))
					s.setMem(it, mkTuple(st.args[0], mkInt(n+1)))
					return nil
				}
				i++
			}
			s.env[ins] = mkTuple(tFalse, tNil, tNil)
			return nil
		}
		r.e.undecided(ins.Pos(), "range over the characters of a string")
	}
	id := r.loopID(ins.Block())
	kT, vT := tt.At(1).Type(), tt.At(2).Type()
	if rg, ok := ins.Iter.(*ssa.Range); ok {
		if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
			kT, vT = mt.Key(), mt.Elem()
		}
	}
	k := mk(OMKey, "key("+x.key+")#"+id, id, kT, x)
	v := mk(OMVal, "val("+x.key+")#"+id, id, vT, x)
	s.env[ins] = mkTuple(mkCall("more", types.Typ[types.Bool], x, mkPos(id, nil)), k, v)
	return nil
}

// existsByRecs decides "some element of list satisfies pred" from the loops that have run over it.
func (s *State) existsByRecs(list, pred *Term) tri {
	list = stripSorted(list)
	q := termCond(pred)
	for _, r := range s.recs {
		if r.list != list {
			continue
		}
		for _, l := range r.letters {
			if implied(l.conds, q) == yes {
				return yes
			}
		}
		if len(r.current) > 0 && implied(r.current, q) == yes {
			return yes
		}
		if r.complete {
			all := true
			for _, l := range r.letters {
				if implied(l.conds, q) != no {
					all = false
				}
			}
			if all {
				return no
			}
		}
	}
	return unk
}

// mkCount: how many elements of a list are the constant k.
func mkCount(list, k *Term) *Term { return mkCall("count", types.Typ[types.Int], list, k) }

// mkRepeats: some element of the list occurs more than once.
func mkRepeats(list *Term) *Term { return mkCall("repeats", types.Typ[types.Bool], list) }

// elemConst: the constant that the element is known to be.
func elemConst(cs []Cond) *Term {
	for _, c := range cs {
		if c.pos && c.atom.op == OEq && c.atom.args[0] == tHole && c.atom.args[1].op == OConst {
			return c.atom.args[1]
		}
	}
	return nil
}

// countOf: slot i counts the elements that are the constant k.
func (ls *loopState) countOf(i int) *Term {
	sl := ls.slots[i]
	if n, ok := sl.init.int(); !ok || n != 0 {
		return nil
	}
	var k *Term
	for _, lt := range ls.seen {
		v, ok := lt.sets[i]
		if !ok {
			continue
		}
		if n, ok := mkAdd(v, sl.acc, -1).int(); !ok || n != 1 {
			return nil
		}
		e := elemConst(lt.conds)
		if e == nil || k != nil && e != k {
			return nil
		}
		k = e
	}
	for _, lt := range ls.seen {
		if _, ok := lt.sets[i]; !ok && k != nil && implied(lt.conds, mkEq(tHole, k)) != no {
			return nil
		}
	}
	return k
}

// flagOf: the flag is set when the constant k is met, and stays set.
func (ls *loopState) flagOf(flag string) (k *Term) {
	for _, lt := range ls.all {
		for c := range lt.flags[flag] {
			switch c {
			case "true>true", "false>false":
			case "false>true":
				e := elemConst(lt.conds)
				if e == nil || k != nil && e != k {
					return nil
				}
				k = e
			default:
				return nil
			}
		}
	}
	return k
}

// seenSet: slot i is the set of the elements so far.
func (ls *loopState) seenSet(i int) bool {
	sl := ls.slots[i]
	if sl.init.op != OMap || len(sl.init.args) != 0 {
		return false
	}
	n := 0
	for _, lt := range ls.all {
		v, ok := lt.sets[i]
		if !ok {
			continue
		}
		if v.op != OMap {
			return false
		}
		kv, base := v.mapParts()
		if base != sl.acc || len(kv) != 2 || kv[0] != tHole && kv[0] != elemConst(lt.conds) {
			return false
		}
		n++
	}
	return n > 0
}

// tally: slot i counts the elements so far.
func (ls *loopState) tally(i int) bool {
	for _, lt := range ls.all {
		if v, ok := lt.sets[i]; ok && !countsOne(v, ls.slots[i].acc, lt.conds) {
			return false
		}
	}
	return true
}

// mkWithin: no element occurs more often in list a than in list b.
func mkWithin(a, b *Term) *Term { return mkCall("within", types.Typ[types.Bool], a, b) }

// draws: a map of counts from which this loop takes its elements, one each, tells whether all were there.
func (ls *loopState) draws(s *State, rec *LoopRec, complete bool) bool {
	for i, sl := range ls.slots {
		if sl.init == nil || len(ls.all) != 1 {
			continue
		}
		fi, ok := sl.init.ex.(foldInfo)
		if !ok || fi.init.op != OMap || len(fi.init.args) != 0 || len(fi.steps) != 1 || len(fi.steps[0].conds) != 0 ||
			!countsOne(fi.steps[0].val, mk(OHole, "acc", "acc", nil), nil) {
			continue
		}
		n := mkLookup(sl.acc, tHole, types.Typ[types.Int])
		v, ok := ls.all[0].sets[i]
		if !ok || v.op != OMap {
			continue
		}
		kv, base := v.mapParts()
		if base != sl.acc || len(kv) != 2 || kv[0] != tHole {
			continue
		}
		if d, ok := mkAdd(n, kv[1], -1).int(); !ok || d != 1 {
			continue
		}
		left := func(cs []Cond) tri { // is there one left?
			if len(cs) == 1 {
				for _, none := range []Cond{mkLess(n, mkInt(0), true), mkEq(n, mkInt(0))} {
					if cs[0].atom == none.atom {
						return tb(cs[0].pos != none.pos)
					}
				}
			}
			return unk
		}
		if left(ls.all[0].conds) != yes {
			continue
		}
		x := mkWithin(stripSorted(rec.list), stripSorted(fi.list))
		switch {
		case complete:
			s.addFact(x, true)
		case left(rec.current) == no:
			s.addFact(x, false)
		}
	}
	return true
}

// repeats: what this way out of the loop tells of elements that occur more than once.
func (ls *loopState) repeats(s *State, rec *LoopRec, complete bool) bool {
	again := func(cs []Cond, i int) (met, is bool) { // was the element among those before?
		if !ls.seenSet(i) {
			return false, false
		}
		for _, c := range cs {
			if (c.atom.op == OLookup || c.atom.op == OLookupOk) && c.atom.args[0] == ls.slots[i].acc && (c.atom.args[1] == tHole || c.atom.args[1] == elemConst(cs)) {
				return true, c.pos
			}
			if ls.tally(i) {
				for _, at := range []*Term{tHole, elemConst(cs)} {
					if at == nil {
						continue
					}
					n := mkLookup(ls.slots[i].acc, at, types.Typ[types.Int])
					if none := mkLess(n, mkInt(0), true); c.atom == none.atom {
						return true, c.pos != none.pos
					}
					if none := mkEq(n, mkInt(0)); c.atom == none.atom {
						return true, c.pos != none.pos
					}
				}
			}
		}
		return false, false
	}
	if !complete {
		for i := range ls.slots {
			if met, is := again(rec.current, i); met && is {
				s.addFact(mkRepeats(rec.list), true)
			}
		}
		for f, v := range ls.flags {
			if k := elemConst(rec.current); v == tTrue && k != nil && flagIn(ls.flags0, f) == tFalse && ls.flagOf(f) == k {
				s.addFact(mkRepeats(rec.list), true)
			}
		}
		return true
	}
	if len(ls.seen) == 0 {
		return true
	}
	ks := map[*Term]bool{}
	for _, lt := range ls.seen {
		once := false
		for i := range ls.slots {
			if met, is := again(lt.conds, i); met && !is {
				if _, ok := lt.sets[i]; ok {
					once = true
				}
			}
		}
		for _, x := range ls.all {
			if x.key != lt.key {
				continue
			}
			for f, m := range x.flags { // it changes a flag that stays
				if len(m) == 1 && m["false>true"] && ls.flagOf(f) != nil {
					once = true
				}
			}
		}
		if !once {
			return true
		}
		if k := elemConst(lt.conds); k != nil {
			ks[k] = true
		}
	}
	s.addFact(mkRepeats(rec.list), false)
	if len(ks) == len(ls.seen) { // every round happened once, each for an element of its own
		c := mkEq(mkLen(rec.list), mkInt(int64(len(ks))))
		if s.cond(c) == no {
			return false
		}
		s.addFact(c.atom, c.pos)
	}
	return true
}
