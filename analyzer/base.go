package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) extPkg(path string) *types.Package {
	for k, v := range p.pkgs {
		if v != nil && (k == path || v.Path() == path) {
			return v
		}
	}
	return nil
}

// mutableGlobals: package-level variables of the repository that are written outside package
// initialisation (directly, or through what they refer to).
func (p *Program) mutableGlobals() map[*ssa.Global]bool {
	if p.mutable != nil {
		return p.mutable
	}
	p.mutable = map[*ssa.Global]bool{}
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 20 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Global:
			return v
		case *ssa.FieldAddr:
			return root(v.X, d+1)
		case *ssa.IndexAddr:
			return root(v.X, d+1)
		case *ssa.UnOp:
			return root(v.X, d+1)
		case *ssa.Slice:
			return root(v.X, d+1)
		case *ssa.ChangeType:
			return root(v.X, d+1)
		}
		return nil
	}
	for _, f := range p.allFuncs() {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var g *ssa.Global
				switch ins := ins.(type) {
				case *ssa.Store:
					g = root(ins.Addr, 0)
				case *ssa.MapUpdate:
					g = root(ins.Map, 0)
				}
				if g != nil {
					p.mutable[g] = true
				}
			}
		}
	}
	return p.mutable
}

// allFuncs: every function of the repository with a body, closures included.
func (p *Program) allFuncs() []*ssa.Function {
	if p.funcs != nil {
		return p.funcs
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, path := range p.order {
		sp := p.spkg[path]
		for _, n := range sortedKeys(sp.Members) {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, T := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(T)
					for i := 0; i < ms.Len(); i++ {
						if f := p.prog.MethodValue(ms.At(i)); f != nil && isOwn(f) {
							add(f)
						}
					}
				}
			}
		}
	}
	return p.funcs
}

// baseState is memory after package initialisation.
func (p *Program) baseState() *State {
	if p.base != nil {
		return p.base.clone()
	}
	e := newEngine(p)
	e.inlineAll = true
	e.outer = true
	e.initing = true
	s := newState()
	p.shared = e.shared
	for _, path := range p.order {
		f := p.spkg[path].Func("init")
		if f == nil {
			continue
		}
		g, _ := p.spkg[path].Members["init$guard"].(*ssa.Global)
		if g != nil {
			s.setMem(mkGlobal(g), tFalse)
		}
		e.ctxPkg = path
		outs := e.call(f, nil, nil, s, nil, "init:"+path, f.Pos())
		if len(outs) != 1 || outs[0].panic != "" {
			p.initUndec = append(p.initUndec, "package initialisation of "+path+" cannot be followed")
			continue
		}
		s = outs[0].st
		s.env = map[ssa.Value]*Term{}
		s.ev, s.recs = nil, nil
		s.facts, s.facSh = map[*Term]fact{}, false
		s.occ, s.occSh = map[string]int{}, false
	}
	for g := range p.mutableGlobals() {
		a := mkGlobal(g)
		for x := range s.mem {
			if x == a || within(x, a) {
				s.delMem(x)
			}
		}
	}
	for u := range e.undec {
		p.initUndec = append(p.initUndec, u)
	}
	p.base = s
	return s.clone()
}
