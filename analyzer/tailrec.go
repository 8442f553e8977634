package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// A function that ends by calling itself is the loop that starts over with the new arguments.
//
//	func f(x T) R { ...; return f(y) }                for { ...; x = y; continue }
//	return a || b && f(y)                             if a { return true }; if !b { return false }; x = y; continue

// tailCalls rewrites such functions in place; it reports how many.
func tailCalls(files []*ast.File, info *types.Info) int {
	n := 0
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv != nil || fd.Type.TypeParams != nil {
				continue
			}
			t := &tailRec{info: info, fd: fd, fn: info.Defs[fd.Name], n: n}
			if t.rewrite() {
				n++
			}
		}
	}
	return n
}

type tailRec struct {
	info *types.Info
	fd   *ast.FuncDecl
	fn   types.Object
	n    int
	list []string // parameters
}

func (t *tailRec) self(e ast.Expr) *ast.CallExpr {
	c, ok := ast.Unparen(e).(*ast.CallExpr)
	if !ok || c.Ellipsis.IsValid() {
		return nil
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok && t.info.Uses[id] == t.fn {
		return c
	}
	return nil
}

func (t *tailRec) calls(n ast.Node) int {
	k := 0
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && t.info.Uses[id] == t.fn {
			k++
		}
		return true
	})
	return k
}

// tail turns `return e` into statements that start over; nil if the call is not the last thing e does.
func (t *tailRec) tail(e ast.Expr, at token.Pos) []ast.Stmt {
	id := func(s string) *ast.Ident { return &ast.Ident{NamePos: at, Name: s} }
	if c := t.self(e); c != nil {
		if len(c.Args) != len(t.list) {
			return nil
		}
		for _, a := range c.Args {
			if t.calls(a) > 0 {
				return nil
			}
		}
		as := &ast.AssignStmt{TokPos: at, Tok: token.ASSIGN}
		for i, a := range c.Args {
			if x, ok := ast.Unparen(a).(*ast.Ident); ok && x.Name == t.list[i] {
				continue
			}
			as.Lhs = append(as.Lhs, id(t.list[i]))
			as.Rhs = append(as.Rhs, a)
		}
		again := &ast.BranchStmt{TokPos: at, Tok: token.CONTINUE, Label: id("again__" + strconv.Itoa(t.n))}
		if len(as.Lhs) == 0 {
			return []ast.Stmt{again}
		}
		return []ast.Stmt{as, again}
	}
	b, ok := ast.Unparen(e).(*ast.BinaryExpr)
	if !ok || b.Op != token.LOR && b.Op != token.LAND || t.calls(b.X) > 0 {
		return nil
	}
	rest := t.tail(b.Y, at)
	if rest == nil {
		return nil
	}
	cond, is := b.X, "true"
	if b.Op == token.LAND {
		cond, is = &ast.UnaryExpr{OpPos: at, Op: token.NOT, X: &ast.ParenExpr{Lparen: at, X: b.X, Rparen: b.X.End()}}, "false"
	}
	iff := &ast.IfStmt{If: at, Cond: cond, Body: &ast.BlockStmt{Lbrace: at, Rbrace: at, List: []ast.Stmt{&ast.ReturnStmt{Return: at, Results: []ast.Expr{id(is)}}}}}
	return append([]ast.Stmt{iff}, rest...)
}

func (t *tailRec) rewrite() bool {
	if t.fn == nil || t.calls(t.fd.Body) == 0 {
		return false
	}
	for _, f := range t.fd.Type.Params.List {
		if len(f.Names) == 0 {
			return false
		}
		if _, ok := f.Type.(*ast.Ellipsis); ok {
			return false
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return false
			}
			t.list = append(t.list, n.Name)
		}
	}
	if r := t.fd.Type.Results; r != nil {
		for _, f := range r.List {
			if len(f.Names) > 0 {
				return false
			}
		}
	}
	// nothing that outlives a round, or that the new arguments would be lost in
	bad := false
	params := map[string]bool{}
	for _, p := range t.list {
		params[p] = true
	}
	ast.Inspect(t.fd.Body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt, *ast.SelectStmt:
			bad = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				bad = true
			}
		case *ast.Ident:
			if o := t.info.Defs[x]; o != nil && params[x.Name] {
				bad = true // a parameter's name is used for something else
			}
		}
		return !bad
	})
	if bad {
		return false
	}
	// every call ends the function
	tails := map[*ast.ReturnStmt][]ast.Stmt{}
	ast.Inspect(t.fd.Body, func(x ast.Node) bool {
		if r, ok := x.(*ast.ReturnStmt); ok && len(r.Results) == 1 && t.calls(r) == 1 {
			if s := t.tail(r.Results[0], r.Pos()); s != nil {
				tails[r] = s
			}
		}
		return true
	})
	if len(tails) != t.calls(t.fd.Body) {
		return false
	}
	var lists func(l []ast.Stmt) []ast.Stmt
	walk := func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				x.List = lists(x.List)
			case *ast.CaseClause:
				x.Body = lists(x.Body)
			}
			return true
		})
	}
	lists = func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r, ok := s.(*ast.ReturnStmt); ok && tails[r] != nil {
				out = append(out, tails[r]...)
			} else {
				out = append(out, s)
			}
		}
		return out
	}
	walk(t.fd.Body)
	at := t.fd.Body.Lbrace
	l := t.fd.Body.List
	if k := len(l); k > 0 { // the last round's continue is the loop's own
		if b, ok := l[k-1].(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			l = l[:k-1]
		}
	}
	loop := &ast.ForStmt{For: at, Body: &ast.BlockStmt{Lbrace: at, List: l, Rbrace: t.fd.Body.Rbrace}}
	var s ast.Stmt = loop
	if usesLabel(l, "again__"+strconv.Itoa(t.n)) {
		s = &ast.LabeledStmt{Label: &ast.Ident{NamePos: at, Name: "again__" + strconv.Itoa(t.n)}, Colon: at, Stmt: loop}
	}
	t.fd.Body.List = []ast.Stmt{s}
	return true
}

func usesLabel(l []ast.Stmt, name string) bool {
	found := false
	for _, s := range l {
		ast.Inspect(s, func(x ast.Node) bool {
			if b, ok := x.(*ast.BranchStmt); ok && b.Label != nil && b.Label.Name == name {
				found = true
			}
			return true
		})
	}
	return found
}
