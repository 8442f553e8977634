package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

// Lists compacted in place by hand are turned into the lists they build, so that one form of
// filtering reaches the analysis.
//
//	n := 0; for _, x := range l { if keep { l[n] = x; n++ } }; l[:n]      the list appended to l[:0]
//	for i := 0; i < len(l); { if drop { l = append(l[:i], l[i+1:]...); continue }; i++ }

// compactions rewrites them; it reports how many it changed.
func compactions(files []*ast.File, info *types.Info) int {
	n := 0
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				k := &compact{cutLoop: cutLoop{info: info, fn: fd.Body}}
				m := k.counters() + k.deletions()
				if m > 0 {
					blankUnused(f, info)
				}
				n += m
			}
		}
	}
	return n
}

type compact struct{ cutLoop }

// local: a variable of this function that is only named in plain code, never by address or in a closure.
func (k *compact) local(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.Pos() < k.fn.Pos() || v.Pos() > k.fn.End() {
		return false
	}
	bad := false
	ast.Inspect(k.fn, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			if k.uses(x, o) > 0 {
				bad = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && k.obj(ast.Unparen(x.X)) == o {
				bad = true
			}
		case *ast.BranchStmt:
			if x.Tok == token.GOTO {
				bad = true
			}
		}
		return true
	})
	return !bad
}

func (k *compact) zero(e ast.Expr) bool {
	tv := k.info.Types[e]
	return tv.Value != nil && tv.Value.Kind() == constant.Int && constant.Sign(tv.Value) == 0
}

// counters: l[n] = x; n++.
func (k *compact) counters() int {
	done := 0
	var decls []*ast.AssignStmt
	plain := func(list []ast.Stmt) { // var n int
		for i, s := range list {
			d, ok := s.(*ast.DeclStmt)
			if !ok {
				continue
			}
			g, ok := d.Decl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR || len(g.Specs) != 1 {
				continue
			}
			v := g.Specs[0].(*ast.ValueSpec)
			if len(v.Names) != 1 || len(v.Values) != 0 || k.info.Defs[v.Names[0]] == nil {
				continue
			}
			as := &ast.AssignStmt{Lhs: []ast.Expr{v.Names[0]}, TokPos: d.Pos(), Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{ValuePos: d.End() - 1, Kind: token.INT, Value: "0"}}}
			if k.counter(as) {
				list[i] = as
				done++
			}
		}
	}
	ast.Inspect(k.fn, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			plain(x.List)
		case *ast.CaseClause:
			plain(x.Body)
		}
		if as, ok := x.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && len(as.Rhs) == 1 && k.zero(as.Rhs[0]) {
			decls = append(decls, as)
		}
		return true
	})
	for _, d := range decls {
		if k.counter(d) {
			done++
		}
	}
	return done
}

func (k *compact) counter(d *ast.AssignStmt) bool {
	n := k.info.Defs[d.Lhs[0].(*ast.Ident)]
	if n == nil || !k.local(n) || !types.Identical(n.Type(), types.Typ[types.Int]) {
		return false
	}
	// the one place that writes
	var write *ast.AssignStmt
	var block *[]ast.Stmt
	at := -1
	places := 0
	find := func(list *[]ast.Stmt) {
		for i := 0; i+1 < len(*list); i++ {
			as, ok := (*list)[i].(*ast.AssignStmt)
			if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				continue
			}
			ix, ok := as.Lhs[0].(*ast.IndexExpr)
			if !ok || k.obj(ast.Unparen(ix.Index)) != n {
				continue
			}
			inc, ok := (*list)[i+1].(*ast.IncDecStmt)
			if !ok || inc.Tok != token.INC || k.obj(inc.X) != n {
				continue
			}
			write, block, at = as, list, i
			places++
		}
	}
	var loops []*ast.RangeStmt // enclosing the write
	ast.Inspect(k.fn, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			find(&x.List)
		case *ast.CaseClause:
			find(&x.Body)
		}
		return true
	})
	if places != 1 || k.uses(write.Rhs[0], n) > 0 {
		return false
	}
	l := k.obj(write.Lhs[0].(*ast.IndexExpr).X)
	if l == nil || !k.local(l) {
		return false
	}
	if _, ok := l.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	other := false
	ast.Inspect(k.fn, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.RangeStmt:
			if x.Pos() < write.Pos() && write.End() < x.End() {
				loops = append(loops, x)
			}
		case *ast.ForStmt:
			if x.Pos() < write.Pos() && write.End() < x.End() {
				other = true
			}
		}
		return true
	})
	if len(loops) != 1 || other || d.Pos() > loops[0].Pos() || l.Pos() > d.Pos() {
		return false
	}
	// never past the end: the loop is over the list itself, or over one the list was made as long as
	over := k.obj(ast.Unparen(loops[0].X))
	if over != l {
		made := false
		ast.Inspect(k.fn, func(x ast.Node) bool {
			if as, ok := x.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && len(as.Rhs) == 1 && k.obj(as.Lhs[0]) == l {
				if c, ok := as.Rhs[0].(*ast.CallExpr); ok && len(c.Args) >= 2 {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "make" {
						if ln, ok := c.Args[1].(*ast.CallExpr); ok && len(ln.Args) == 1 {
							if g, ok := ln.Fun.(*ast.Ident); ok && g.Name == "len" && over != nil && k.obj(ln.Args[0]) == over {
								made = true
							}
						}
					}
				}
			}
			return true
		})
		if !made {
			return false
		}
	}
	// what else names the list or the count
	sets := func(o types.Object) bool { // between the declaration and the end of the loop, apart from the write
		bad := false
		ast.Inspect(k.fn, func(x ast.Node) bool {
			if as, ok := x.(*ast.AssignStmt); ok && as != write && as.Pos() >= d.End() && as.Pos() < loops[0].End() {
				for _, y := range as.Lhs {
					if k.obj(y) == o {
						bad = true
					}
				}
			}
			return true
		})
		return bad
	}
	if sets(l) || over != nil && sets(over) {
		return false
	}
	known := map[*ast.Ident]bool{d.Lhs[0].(*ast.Ident): true}
	mark := func(e ast.Expr) { known[ast.Unparen(e).(*ast.Ident)] = true }
	mark(write.Lhs[0].(*ast.IndexExpr).Index)
	mark((*block)[at+1].(*ast.IncDecStmt).X)
	var slices []*ast.SliceExpr
	ast.Inspect(k.fn, func(x ast.Node) bool {
		if s, ok := x.(*ast.SliceExpr); ok && s.Low == nil && !s.Slice3 && s.High != nil && k.obj(ast.Unparen(s.High)) == n && k.obj(ast.Unparen(s.X)) == l && s.Pos() > loops[0].End() {
			slices = append(slices, s)
			mark(s.High)
		}
		return true
	})
	if len(slices) == 0 {
		return false
	}
	var counts []*ast.Ident
	bad := false
	ast.Inspect(k.fn, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, y := range x.Lhs {
				if x != d && k.obj(y) == n {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if x != (*block)[at+1] && k.obj(x.X) == n {
				bad = true
			}
		case *ast.Ident:
			if k.info.Uses[x] == n && !known[x] {
				counts = append(counts, x)
			}
		}
		return true
	})
	if bad {
		return false
	}
	name := n.Name() + "__kept"
	id := func(at token.Pos) *ast.Ident { return &ast.Ident{NamePos: at, Name: name} }
	// the list may be renewed by its own prefix later: the prefix is the same list then
	d.Lhs[0] = id(d.Pos())
	d.Rhs[0] = &ast.SliceExpr{X: &ast.Ident{NamePos: d.Pos(), Name: l.Name()}, Lbrack: d.Pos(), High: &ast.BasicLit{ValuePos: d.Pos(), Kind: token.INT, Value: "0"}, Rbrack: d.End()}
	call := &ast.CallExpr{Fun: &ast.Ident{NamePos: write.Pos(), Name: "append"}, Lparen: write.Pos(), Args: []ast.Expr{id(write.Pos()), write.Rhs[0]}, Rparen: write.End()}
	write.Lhs[0], write.Rhs[0] = id(write.Pos()), call
	*block = append((*block)[:at+1:at+1], (*block)[at+2:]...)
	for _, s := range slices {
		s.X, s.High = id(s.Pos()), nil
	}
	repl := map[*ast.Ident]bool{}
	for _, c := range counts {
		repl[c] = true
	}
	astutil.Apply(k.fn, nil, func(c *astutil.Cursor) bool {
		if x, ok := c.Node().(*ast.Ident); ok && repl[x] {
			c.Replace(&ast.CallExpr{Fun: &ast.Ident{NamePos: x.Pos(), Name: "len"}, Lparen: x.Pos(), Args: []ast.Expr{id(x.Pos())}, Rparen: x.End()})
		}
		return true
	})
	return true
}

// deletions: elements taken out one by one.
func (k *compact) deletions() int {
	n := 0
	astutil.Apply(k.fn, nil, func(c *astutil.Cursor) bool {
		if f, ok := c.Node().(*ast.ForStmt); ok {
			if _, lab := c.Parent().(*ast.LabeledStmt); !lab {
				if s := k.deletion(f); s != nil {
					n++
					c.Replace(s)
				}
			}
		}
		return true
	})
	return n
}

func (k *compact) lenOf(e ast.Expr) types.Object {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil
	}
	if f, ok := c.Fun.(*ast.Ident); !ok || f.Name != "len" {
		return nil
	}
	return k.obj(ast.Unparen(c.Args[0]))
}

func (k *compact) plusOne(e ast.Expr, i types.Object) bool {
	b, ok := ast.Unparen(e).(*ast.BinaryExpr)
	return ok && b.Op == token.ADD && k.obj(ast.Unparen(b.X)) == i && isIntLit(k.info, b.Y, 1)
}

func isIntLit(info *types.Info, e ast.Expr, v int64) bool {
	tv := info.Types[e]
	if tv.Value == nil || tv.Value.Kind() != constant.Int {
		return false
	}
	x, ok := constant.Int64Val(tv.Value)
	return ok && x == v
}

// drops: l = append(l[:i], l[i+1:]...), or l = slices.Delete(l, i, i+1).
func (k *compact) drops(s ast.Stmt, l, i types.Object) bool {
	as, ok := s.(*ast.AssignStmt)
	if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 || k.obj(as.Lhs[0]) != l {
		return false
	}
	c, ok := as.Rhs[0].(*ast.CallExpr)
	if !ok {
		return false
	}
	if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
		f, ok := k.info.Uses[sel.Sel].(*types.Func)
		return ok && f.FullName() == "slices.Delete" && len(c.Args) == 3 && k.obj(ast.Unparen(c.Args[0])) == l && k.obj(ast.Unparen(c.Args[1])) == i && k.plusOne(c.Args[2], i)
	}
	if f, ok := c.Fun.(*ast.Ident); !ok || f.Name != "append" || len(c.Args) != 2 || !c.Ellipsis.IsValid() {
		return false
	}
	a, ok1 := ast.Unparen(c.Args[0]).(*ast.SliceExpr)
	b, ok2 := ast.Unparen(c.Args[1]).(*ast.SliceExpr)
	return ok1 && ok2 && a.Low == nil && !a.Slice3 && !b.Slice3 && b.High == nil && a.High != nil && b.Low != nil &&
		k.obj(ast.Unparen(a.X)) == l && k.obj(ast.Unparen(b.X)) == l && k.obj(ast.Unparen(a.High)) == i && k.plusOne(b.Low, i)
}

func (k *compact) deletion(f *ast.ForStmt) ast.Stmt {
	as, ok := f.Init.(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 || len(as.Rhs) != 1 || f.Cond == nil {
		return nil
	}
	i := k.obj(as.Lhs[0])
	cond, ok := ast.Unparen(f.Cond).(*ast.BinaryExpr)
	if !ok || i == nil || k.obj(ast.Unparen(cond.X)) != i {
		return nil
	}
	var l types.Object
	back := false
	step := func(s ast.Stmt, tok token.Token) bool {
		x, ok := s.(*ast.IncDecStmt)
		return ok && x.Tok == tok && k.obj(x.X) == i
	}
	switch {
	case cond.Op == token.LSS && k.zero(as.Rhs[0]):
		l = k.lenOf(cond.Y)
	case cond.Op == token.GEQ && k.zero(cond.Y) && step(f.Post, token.DEC):
		if b, ok := ast.Unparen(as.Rhs[0]).(*ast.BinaryExpr); ok && b.Op == token.SUB && isIntLit(k.info, b.Y, 1) {
			l = k.lenOf(b.X)
		}
		back = true
	}
	if l == nil || !k.local(l) {
		return nil
	}
	fresh := false // the list is this function's own
	ast.Inspect(k.fn, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 && k.obj(a.Lhs[0]) == l {
			_, fresh = ast.Unparen(a.Rhs[0]).(*ast.CallExpr)
		}
		return true
	})
	body := f.Body.List
	if !fresh || len(body) == 0 {
		return nil
	}
	iff, ok := body[0].(*ast.IfStmt)
	if !ok || iff.Init != nil || len(iff.Body.List) == 0 || !k.drops(iff.Body.List[0], l, i) {
		return nil
	}
	drop, els, rest := iff.Body.List[1:], iff.Else, body[1:]
	cont := func(s ast.Stmt) bool {
		b, ok := s.(*ast.BranchStmt)
		return ok && b.Tok == token.CONTINUE && b.Label == nil
	}
	switch {
	case back: // for i := len(l)-1; i >= 0; i-- { if c { drop } }
		if len(drop) > 0 || els != nil || len(rest) > 0 {
			return nil
		}
	case f.Post == nil && els == nil: // { if c { drop; continue }; i++ }
		if len(drop) != 1 || !cont(drop[0]) || len(rest) != 1 || !step(rest[0], token.INC) {
			return nil
		}
	case f.Post == nil: // { if c { drop } else { i++ } }
		e, ok := els.(*ast.BlockStmt)
		if !ok || len(drop) > 0 || len(rest) > 0 || len(e.List) != 1 || !step(e.List[0], token.INC) {
			return nil
		}
	case step(f.Post, token.INC): // i++ { if c { drop; i-- } }
		if len(drop) != 1 || !step(drop[0], token.DEC) || els != nil || len(rest) > 0 {
			return nil
		}
	default:
		return nil
	}
	// the condition looks at the element only, and changes nothing
	name := l.Name() + "__at"
	pure := true
	elems := map[*ast.IndexExpr]bool{}
	inElem := map[*ast.Ident]bool{}
	ast.Inspect(iff.Cond, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.IndexExpr:
			if k.obj(ast.Unparen(x.X)) == l && k.obj(ast.Unparen(x.Index)) == i {
				elems[x] = true
				inElem[ast.Unparen(x.X).(*ast.Ident)] = true
				inElem[ast.Unparen(x.Index).(*ast.Ident)] = true
			}
		case *ast.FuncLit:
			pure = false
		case *ast.CallExpr:
			if back {
				sel, ok := x.Fun.(*ast.SelectorExpr)
				g, ok2 := (*types.Func)(nil), false
				if ok {
					g, ok2 = k.info.Uses[sel.Sel].(*types.Func)
				}
				if !ok2 || g.Pkg() == nil || g.Pkg().Path() != "strings" && g.Pkg().Path() != "slices" {
					pure = false
				}
			}
		case *ast.Ident:
			if o := k.info.Uses[x]; (o == l || o == i) && !inElem[x] {
				pure = false
			}
		}
		return true
	})
	if !pure {
		return nil
	}
	at := f.Pos()
	id := func(s string) *ast.Ident { return &ast.Ident{NamePos: at, Name: s} }
	c := astutil.Apply(&ast.ParenExpr{Lparen: at, X: iff.Cond, Rparen: iff.Cond.End()}, nil, func(c *astutil.Cursor) bool {
		if x, ok := c.Node().(*ast.IndexExpr); ok && elems[x] {
			c.Replace(&ast.Ident{NamePos: x.Pos(), Name: name})
		}
		return true
	}).(ast.Expr)
	kept := l.Name() + "__kept"
	return &ast.BlockStmt{Lbrace: at, Rbrace: f.End(), List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(kept)}, TokPos: at, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.SliceExpr{X: id(l.Name()), Lbrack: at, High: &ast.BasicLit{ValuePos: at, Kind: token.INT, Value: "0"}, Rbrack: at}}},
		&ast.RangeStmt{For: at, Key: id("_"), Value: id(name), TokPos: at, Tok: token.DEFINE, Range: at, X: id(l.Name()), Body: &ast.BlockStmt{Lbrace: f.Body.Lbrace, Rbrace: f.Body.Rbrace, List: []ast.Stmt{
			&ast.IfStmt{If: iff.If, Cond: &ast.UnaryExpr{OpPos: at, Op: token.NOT, X: c}, Body: &ast.BlockStmt{Lbrace: at, Rbrace: at, List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(kept)}, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("append"), Lparen: at, Args: []ast.Expr{id(kept), id(name)}, Rparen: at}}}}}}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{id(l.Name())}, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{id(kept)}},
	}}
}
