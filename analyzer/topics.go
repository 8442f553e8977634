package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Topics: a group of tests whose outcome amounts to one value or to one "passed" (the response mode that
// was negotiated, the scope after the offline_access rule, a length limit). Once a path has decided a
// topic the way the property demands, how it got there no longer matters: the topic's facts are
// replaced by a single fact, and the registers and fields that hold the topic's value by a symbol that
// stands for the value the property prescribes. Paths that decide it differently, or not at all, are
// left alone and are judged with all their facts.
//
// This is sound: facts are only forgotten, and the symbol replaces a value only in states where the two
// are equal by the topic's definition.
type Topic struct {
	id    string
	ok    func(*State) tri         // the rule is satisfied
	vals  func(*State) []*Term     // the terms that equal the prescribed value (nil: no value)
	spec  *Term                    // stands for the prescribed value
	owns  func(*State, *Term) bool // atoms that are only about this topic
	list  func(*State, *Term) bool // collections that are only about this topic
	ready func(*State) bool        // postpones the merge
	hold  func(*Term) bool         // terms whose presence in a live cell postpones the merge
}

func (t *Topic) fact() *Term { return mkCall("settled:"+t.id, nil) }

func (t *Topic) settled(s *State) bool {
	f, ok := s.facts[t.fact()]
	return ok && f.val
}

// satisfied is the rule's verdict on a state, merged or not.
func (t *Topic) satisfied(s *State) tri {
	if t.settled(s) {
		return yes
	}
	return t.ok(s)
}

// value: is x the prescribed value?
func (t *Topic) value(p *Path, x *Term) bool {
	if t.settled(p.st()) {
		return p.same(x, t.spec)
	}
	for _, v := range t.vals(p.st()) {
		if p.same(x, v) {
			return true
		}
	}
	return false
}

type cellKey struct {
	reg ssa.Value
	mem *Term
}

func (r *run) merge(b *ssa.BasicBlock, l []*State) []*State {
	if len(r.e.topics) == 0 || r.only != nil || len(l) == 0 {
		return l
	}
	ch := false
	for _, t := range r.e.topics {
		if r.mergeTopic(b, l, t) {
			ch = true
		}
	}
	if !ch {
		return l
	}
	var out []*State
	seen := map[string]bool{}
	for _, s := range l {
		if s.dead {
			continue
		}
		k := s.stateKey(r.fi.liveIn[b], r.roots)
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, s)
	}
	return out
}

func (r *run) mergeTopic(b *ssa.BasicBlock, l []*State, t *Topic) bool {
	var d []*State
	again := false
	for _, s := range l {
		if len(s.loops) > 0 {
			continue
		}
		if t.settled(s) {
			switch t.ok(s) {
			case yes:
				if t.clean(s, r.fi.liveIn[b]) {
					again = true
				}
			case no: // contradicts what was settled: no run takes this path
				s.dead = true
				again = true
			}
		} else if (t.ready == nil || t.ready(s)) && t.ok(s) == yes {
			d = append(d, s)
		}
	}
	if len(d) == 0 {
		return again
	}
	if t.vals == nil {
		for _, s := range d {
			t.decide(s, r.fi.liveIn[b])
			t.settle(s)
		}
		return true
	}
	live := r.fi.liveIn[b]
	type repl struct{ old, new *Term }
	changes := make([]map[cellKey]repl, len(d))
	orig := map[cellKey]map[*Term]map[*Term]bool{} // cell, new term -> original terms
	vals := make([]map[*Term]bool, len(d))
	for i, s := range d {
		changes[i] = map[cellKey]repl{}
		vals[i] = map[*Term]bool{}
		for _, v := range t.vals(s) {
			vals[i][v] = true
		}
		vs := vals[i]
		note := func(k cellKey, x *Term) {
			n := x
			if x.mentionsAny(func(y *Term) bool { return vs[y] }) {
				n = substValue(x, vs, t.spec)
			}
			if n == x || outcome(s, x) != nil {
				return
			}
			changes[i][k] = repl{x, n}
			if orig[k] == nil {
				orig[k] = map[*Term]map[*Term]bool{}
			}
			if orig[k][n] == nil {
				orig[k][n] = map[*Term]bool{}
			}
			orig[k][n][x] = true
		}
		for _, v := range live {
			if x := s.env[v]; x != nil {
				note(cellKey{reg: v}, x)
			}
		}
		for a, x := range s.mem {
			note(cellKey{mem: a}, x)
		}
	}
	for _, s := range l { // what other paths know as the symbol already
		if len(s.loops) > 0 || !t.settled(s) {
			continue
		}
		seen := func(k cellKey, x *Term) {
			if m := orig[k]; m != nil && m[x] != nil {
				m[x][x] = true
			}
		}
		for _, v := range live {
			if x := s.env[v]; x != nil {
				seen(cellKey{reg: v}, x)
			}
		}
		for a, x := range s.mem {
			seen(cellKey{mem: a}, x)
		}
	}
	done := again
	var rest []int
	apply := func(s *State, is map[*Term]bool, use map[cellKey]*Term) {
		for k, x := range use {
			if k.reg != nil {
				s.env[k.reg] = x
			} else {
				s.setMem(k.mem, x)
			}
		}
		// facts that speak of the value speak of the symbol now
		vs := map[*Term]bool{}
		for v := range is {
			if v.op != OConst {
				vs[v] = true
			}
		}
		var as []*Term
		for a := range s.facts {
			if !t.owns(s, a) && a.mentionsAny(func(y *Term) bool { return vs[y] }) {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(x, y int) bool { return as[x].id < as[y].id })
		t.decide(s, live)
		t.settle(s)
		for _, a := range as {
			f := s.facts[a]
			c := termCond(substValue(a, vs, t.spec))
			if c.atom == tTrue || c.atom == a {
				continue
			}
			s.ownFacts()
			delete(s.facts, a)
			if _, ok := s.facts[c.atom]; !ok {
				s.facts[c.atom] = fact{c.pos == f.val, f.at}
			}
		}
	}
	for i, s := range d {
		if t.hold != nil {
			held := false
			look := func(k cellKey, x *Term) {
				if c, ok := changes[i][k]; ok && len(orig[k][c.new]) >= 2 {
					x = c.new
				}
				held = held || x.mentionsAny(t.hold)
			}
			for _, v := range live {
				if x := s.env[v]; x != nil {
					look(cellKey{reg: v}, x)
				}
			}
			for a, x := range s.mem {
				look(cellKey{mem: a}, x)
			}
			if held {
				continue
			}
		}
		n := 0
		use := map[cellKey]*Term{}
		for k, c := range changes[i] {
			if len(orig[k][c.new]) >= 2 {
				use[k] = c.new
				n++
			}
		}
		if n == 0 {
			if len(changes[i]) > 0 {
				rest = append(rest, i)
			}
			continue
		}
		done = true
		apply(s, vals[i], use)
	}
	// the value is in the same place everywhere: worth it where it makes paths the same
	if len(rest) >= 2 {
		groups := map[string][]int{}
		try := map[int]*State{}
		for _, i := range rest {
			use := map[cellKey]*Term{}
			for k, c := range changes[i] {
				use[k] = c.new
			}
			try[i] = d[i].clone()
			apply(try[i], vals[i], use)
			k := try[i].stateKey(live, r.roots)
			groups[k] = append(groups[k], i)
		}
		for _, g := range groups {
			if len(g) < 2 {
				continue
			}
			done = true
			for _, i := range g {
				*d[i] = *try[i]
			}
		}
	}
	return done
}

// outcome of a test in a state, as far as it is known.
func outcome(s *State, x *Term) *Term {
	if x == nil || x.typ == nil || x.op == OConst {
		return nil
	}
	if b, ok := x.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
		return nil
	}
	switch s.cond(termCond(x)) {
	case yes:
		return tTrue
	case no:
		return tFalse
	}
	return nil
}

// decide gives tests that are still in use the outcome they have, before it is forgotten.
func (t *Topic) decide(s *State, live []ssa.Value) {
	for _, v := range live {
		if x := outcome(s, s.env[v]); x != nil {
			s.env[v] = x
		}
	}
	for a, m := range s.mem {
		if x := outcome(s, m); x != nil {
			s.setMem(a, x)
		}
	}
}

// clean drops facts of a settled topic that were found again.
func (t *Topic) clean(s *State, live []ssa.Value) bool {
	n := 0
	for a := range s.facts {
		if t.owns(s, a) {
			n++
		}
	}
	if n == 0 {
		return false
	}
	t.decide(s, live)
	s.dropFacts(func(a *Term) bool { return t.owns(s, a) })
	return true
}

// settle replaces the topic's facts by one.
func (t *Topic) settle(s *State) {
	at := 0
	var del []*Term
	for a, f := range s.facts {
		if t.owns(s, a) {
			del = append(del, a)
			if f.at > at {
				at = f.at
			}
		}
	}
	s.ownFacts()
	var recs []*LoopRec
	for _, r := range s.recs {
		if t.list == nil || !t.list(s, r.list) {
			recs = append(recs, r)
		}
	}
	s.recs = recs
	for _, a := range del {
		delete(s.facts, a)
	}
	s.facts[t.fact()] = fact{true, at}
}

// substValue replaces values by the symbol, not inside answers of effects (they are names).
func substValue(x *Term, vs map[*Term]bool, spec *Term) *Term {
	return subst(x, func(y *Term) *Term {
		if vs[y] {
			return spec
		}
		switch y.op {
		case ORes, OObj, OGlobal, OClosure, OFunc:
			return y
		}
		return nil
	})
}
