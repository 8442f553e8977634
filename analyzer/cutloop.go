package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ast/astutil"
)

// Loops that cut a text at a separator, one piece at a time, are the loops over the pieces.
//
//	for rest := x; ; rest = tail { head, tail, more := strings.Cut(rest, sep); ...; if !more { exit } }
//	for more := true; more; { head, rest, more = strings.Cut(rest, sep); ... }

// cutLoops rewrites them in place.
func cutLoops(files []*ast.File, info *types.Info) int {
	n := 0
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
				l, ok := c.Node().(*ast.ForStmt)
				if !ok {
					return true
				}
				if _, lab := c.Parent().(*ast.LabeledStmt); lab {
					return true
				}
				cl := &cutLoop{l: l, info: info, fn: fd.Body}
				if s := cl.rewrite(); s != nil {
					n++
					c.Replace(s)
				}
				return true
			})
		}
	}
	return n
}

type cutLoop struct {
	l    *ast.ForStmt
	info *types.Info
	fn   *ast.BlockStmt
}

func (c *cutLoop) obj(e ast.Expr) types.Object {
	id, ok := e.(*ast.Ident)
	if !ok {
		return nil
	}
	if o := c.info.Defs[id]; o != nil {
		return o
	}
	return c.info.Uses[id]
}

// uses counts the places in a part of the function that name a variable.
func (c *cutLoop) uses(n ast.Node, o types.Object) int {
	k := 0
	if n != nil {
		ast.Inspect(n, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok && (c.info.Uses[id] == o || c.info.Defs[id] == o) {
				k++
			}
			return true
		})
	}
	return k
}

// later: is the variable named after the loop, or is the loop itself repeated?
func (c *cutLoop) later(o types.Object) bool {
	bad := false
	ast.Inspect(c.fn, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Ident:
			if (c.info.Uses[x] == o || c.info.Defs[x] == o) && x.Pos() > c.l.End() {
				bad = true
			}
		case *ast.FuncLit:
			if c.uses(x, o) > 0 {
				bad = true
			}
		case *ast.ForStmt, *ast.RangeStmt:
			if x != ast.Node(c.l) && x.Pos() < c.l.Pos() && x.End() > c.l.End() {
				bad = true
			}
		case *ast.BranchStmt:
			if x.Tok == token.GOTO {
				bad = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && c.obj(ast.Unparen(x.X)) == o {
				bad = true
			}
		}
		return true
	})
	return bad
}

// leaves: statements that can end the round early.
func leaves(list []ast.Stmt, tok token.Token) bool {
	found := false
	for _, s := range list {
		ast.Inspect(s, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if x.Tok == tok || x.Label != nil || x.Tok == token.GOTO {
					found = true
				}
			}
			return true
		})
	}
	return found
}

func isTrueLit(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.Value != nil && tv.Value.Kind() == constant.Bool && constant.BoolVal(tv.Value)
}

func (c *cutLoop) rewrite() ast.Stmt {
	l := c.l
	body := l.Body.List
	var pre []ast.Stmt
	if len(body) > 1 {
		if _, ok := body[0].(*ast.DeclStmt); ok {
			pre, body = body[:1], body[1:]
		}
	}
	if len(body) == 0 {
		return nil
	}
	cut, ok := body[0].(*ast.AssignStmt)
	if !ok || len(cut.Lhs) != 3 || len(cut.Rhs) != 1 {
		return nil
	}
	call, ok := ast.Unparen(cut.Rhs[0]).(*ast.CallExpr)
	if !ok || len(call.Args) != 2 {
		return nil
	}
	sel, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	if f, ok := c.info.Uses[sel.Sel].(*types.Func); !ok || f.FullName() != "strings.Cut" {
		return nil
	}
	if tv := c.info.Types[call.Args[1]]; tv.Value == nil || tv.Value.Kind() != constant.String || constant.StringVal(tv.Value) == "" {
		return nil
	}
	rest, ok := ast.Unparen(call.Args[0]).(*ast.Ident)
	if !ok {
		return nil
	}
	R, H, T, M := c.obj(rest), c.obj(cut.Lhs[0]), c.obj(cut.Lhs[1]), c.obj(cut.Lhs[2])
	if R == nil || H == nil || T == nil || M == nil || H == R || H == T {
		return nil
	}
	if v, ok := R.(*types.Var); !ok || v.Parent() == nil || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
		return nil
	}
	if c.later(R) || c.later(M) || T != R && c.later(T) {
		return nil
	}
	// initial values
	var from ast.Expr = rest
	var start ast.Expr // of M
	if l.Init != nil {
		as, ok := l.Init.(*ast.AssignStmt)
		if !ok || as.Tok != token.DEFINE || len(as.Lhs) != len(as.Rhs) {
			return nil
		}
		for i, x := range as.Lhs {
			switch c.obj(x) {
			case R:
				from = as.Rhs[i]
			case M:
				start = as.Rhs[i]
			default:
				return nil
			}
		}
	}
	inner := body[1:]
	var after []ast.Stmt
	switch {
	case l.Cond == nil && T != R: // if !more { exit }; rest = tail
		next := l.Post
		if next == nil && len(inner) > 0 {
			next, inner = inner[len(inner)-1], inner[:len(inner)-1]
		}
		as, ok := next.(*ast.AssignStmt)
		if !ok || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || c.obj(as.Lhs[0]) != R || c.obj(as.Rhs[0]) != T || len(inner) == 0 {
			return nil
		}
		iff, ok := inner[len(inner)-1].(*ast.IfStmt)
		if !ok || iff.Init != nil || iff.Else != nil {
			return nil
		}
		inner = inner[:len(inner)-1]
		not, ok := ast.Unparen(iff.Cond).(*ast.UnaryExpr)
		if !ok || not.Op != token.NOT || c.obj(ast.Unparen(not.X)) != M {
			return nil
		}
		exit := iff.Body.List
		if len(exit) == 0 || leaves(inner, token.CONTINUE) {
			return nil
		}
		switch x := exit[len(exit)-1].(type) {
		case *ast.BranchStmt:
			if x.Tok != token.BREAK || x.Label != nil || leaves(exit[:len(exit)-1], token.BREAK) {
				return nil
			}
			exit = exit[:len(exit)-1]
		case *ast.ReturnStmt:
		default:
			return nil
		}
		if leaves(exit, token.CONTINUE) || c.uses(&ast.BlockStmt{List: exit}, R)+c.uses(&ast.BlockStmt{List: exit}, T)+c.uses(&ast.BlockStmt{List: exit}, M) > 0 {
			return nil
		}
		if leaves(inner, token.BREAK) && len(exit) > 0 {
			return nil // what follows the loop is not for every way out
		}
		if c.uses(&ast.BlockStmt{List: exit}, H) > 0 {
			return nil
		}
		after = exit
	case l.Cond != nil && T == R && l.Post == nil && c.obj(ast.Unparen(l.Cond)) == M && cut.Tok == token.ASSIGN: // more at the head
		if start == nil {
			// declared before: once, as true
			n := 0
			ast.Inspect(c.fn, func(x ast.Node) bool {
				if as, ok := x.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == len(as.Rhs) {
					for i := range as.Lhs {
						if c.obj(as.Lhs[i]) == M {
							start = as.Rhs[i]
						}
					}
				}
				return true
			})
			if n = c.uses(c.fn, M); n != 3 { // declaration, condition, assignment
				return nil
			}
		}
		if start == nil || !isTrueLit(c.info, start) {
			return nil
		}
	default:
		return nil
	}
	in := &ast.BlockStmt{List: inner}
	if c.uses(in, R)+c.uses(in, M) > 0 || T != R && c.uses(in, T) > 0 {
		return nil
	}
	tok := token.ASSIGN
	if len(pre) == 1 {
		g, ok := pre[0].(*ast.DeclStmt).Decl.(*ast.GenDecl)
		if !ok || len(g.Specs) != 1 {
			return nil
		}
		v, ok := g.Specs[0].(*ast.ValueSpec)
		if !ok || len(v.Names) != 1 || len(v.Values) != 0 || c.info.Defs[v.Names[0]] != H {
			return nil
		}
		tok = token.DEFINE
	} else if cut.Tok == token.DEFINE {
		if id, ok := cut.Lhs[0].(*ast.Ident); !ok || c.info.Defs[id] == nil {
			return nil
		}
		tok = token.DEFINE
	}
	at := l.Pos()
	split := &ast.CallExpr{Fun: &ast.SelectorExpr{X: sel.X, Sel: &ast.Ident{NamePos: sel.Sel.NamePos, Name: "Split"}}, Lparen: at, Args: []ast.Expr{from, call.Args[1]}, Rparen: call.Rparen}
	name := cut.Lhs[0].(*ast.Ident)
	rng := &ast.RangeStmt{For: at, Key: &ast.Ident{NamePos: at, Name: "_"}, Value: &ast.Ident{NamePos: name.NamePos, Name: name.Name}, TokPos: at, Tok: tok, Range: at, X: split,
		Body: &ast.BlockStmt{Lbrace: l.Body.Lbrace, List: inner, Rbrace: l.Body.Rbrace}}
	if len(after) == 0 && l.Cond == nil {
		return rng
	}
	list := append([]ast.Stmt{rng}, after...)
	if l.Cond != nil && l.Init == nil { // the flag is not used otherwise
		list = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{&ast.Ident{NamePos: at, Name: "_"}}, TokPos: at, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.Ident{NamePos: at, Name: M.Name()}}}}, list...)
	}
	return &ast.BlockStmt{Lbrace: at, List: list, Rbrace: l.End()}
}
