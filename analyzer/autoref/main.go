// autoref MODE DIR FILE...: rewrites, in place, every site of one kind in the files of a package, keeping
// what the program does. It is for trying the checks for false alarms; no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

var (
	fset = token.NewFileSet()
	info *types.Info
	cnt  int
	done int
)

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func tmp(s string) *ast.Ident {
	cnt++
	return id(fmt.Sprintf("%s%d_", s, cnt))
}
func paren(x ast.Expr) ast.Expr {
	switch x.(type) {
	case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr, *ast.ParenExpr, *ast.BasicLit:
		return x
	}
	return &ast.ParenExpr{X: x}
}
func not(x ast.Expr) ast.Expr {
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	return &ast.UnaryExpr{Op: token.NOT, X: paren(x)}
}
func terminates(b *ast.BlockStmt) bool {
	if b == nil || len(b.List) == 0 {
		return false
	}
	switch s := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		e, ok := s.Else.(*ast.BlockStmt)
		return ok && terminates(s.Body) && terminates(e)
	}
	return false
}
func has(n ast.Node, f func(ast.Node) bool) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok && m != n {
			return false
		}
		if m != nil && f(m) {
			r = true
		}
		return !r
	})
	return r
}
func isBranch(n ast.Node) bool { _, ok := n.(*ast.BranchStmt); return ok }

func simple(x ast.Expr) bool {
	switch y := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return simple(y.X)
	}
	return false
}

func boolType(x ast.Expr) bool {
	t, ok := info.Types[x]
	return ok && t.Type != nil && types.Identical(t.Type.Underlying(), types.Typ[types.Bool]) || ok && t.Type == types.Typ[types.UntypedBool]
}

// blocks calls f for every statement list.
func lists(n ast.Node, f func([]ast.Stmt) []ast.Stmt) {
	astutil.Apply(n, nil, func(c *astutil.Cursor) bool {
		switch b := c.Node().(type) {
		case *ast.BlockStmt:
			b.List = f(b.List)
		case *ast.CaseClause:
			b.Body = f(b.Body)
		}
		return true
	})
}

func main() {
	mode, dir := os.Args[1], os.Args[2]
	pick := map[string]bool{}
	for _, f := range os.Args[3:] {
		pick[f] = true
	}
	var files []*ast.File
	var names []string
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
			if err != nil {
				panic(err)
			}
			files = append(files, f)
			names = append(names, e.Name())
		}
	}
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	os.Chdir(dir)
	cfg := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	cfg.Check("x", fset, files, info)
	for i, f := range files {
		if len(pick) > 0 && !pick[names[i]] {
			continue
		}
		k := done
		f.Comments = nil
		apply(mode, f)
		if done == k {
			continue
		}
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			panic(err)
		}
		os.WriteFile(names[i], b.Bytes(), 0o644)
	}
	fmt.Println(mode, done, "sites")
}

func apply(mode string, f *ast.File) {
	each := func(g func(c *astutil.Cursor) bool) { astutil.Apply(f, nil, g) }
	switch mode {
	case "inv":
		each(func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
					done++
				}
			}
			return true
		})
	case "elseif": // else if => else { if }
		each(func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.IfStmt); ok {
					s.Else = &ast.BlockStmt{List: []ast.Stmt{e}}
					done++
				}
			}
			return true
		})
	case "elseret": // drop the else after a return
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				out = append(out, s)
				for {
					i, ok := s.(*ast.IfStmt)
					if !ok || i.Else == nil || !terminates(i.Body) || i.Init != nil {
						break
					}
					e := i.Else
					i.Else = nil
					done++
					if b, ok := e.(*ast.BlockStmt); ok && !has(b, func(n ast.Node) bool { a, ok := n.(*ast.AssignStmt); return ok && a.Tok == token.DEFINE }) {
						out = append(out, b.List...)
						break
					}
					out = append(out, e)
					s = e
				}
			}
			return out
		})
	case "nest": // if c { return } rest => if c { return } else { rest }
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for k := len(l) - 2; k >= 0; k-- {
				i, ok := l[k].(*ast.IfStmt)
				if !ok || i.Else != nil || !terminates(i.Body) {
					continue
				}
				if i.Init != nil {
					continue
				}
				if has(&ast.BlockStmt{List: l[k+1:]}, func(n ast.Node) bool { _, ok := n.(*ast.LabeledStmt); return ok }) {
					continue
				}
				i.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[k+1:]...)}
				l = l[:k+1]
				done++
			}
			return l
		})
	case "condvar":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					if _, ok := i.Cond.(*ast.Ident); !ok {
						v := tmp("cond")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{i.Cond}})
						i.Cond = id(v.Name)
						done++
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "initout":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for k, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init != nil {
					in := i.Init
					i.Init = nil
					l[k] = &ast.BlockStmt{List: []ast.Stmt{in, i}}
					done++
				}
			}
			return l
		})
	case "swap":
		each(func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok {
				op, flip := b.Op, true
				switch b.Op {
				case token.EQL, token.NEQ:
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				default:
					flip = false
				}
				if flip && (simple(b.X) || simple(b.Y)) {
					b.X, b.Y, b.Op = paren(b.Y), paren(b.X), op
					done++
				}
			}
			return true
		})
	case "notless": // a < b => !(a >= b), a == b => !(a != b)
		each(func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok {
				m := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
				if o, ok := m[b.Op]; ok {
					if t := info.Types[b.X].Type; t != nil {
						if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
							return true
						}
					}
					c.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}}})
					done++
				}
			}
			return true
		})
	case "demorgan":
		each(func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				o := token.LAND
				if b.Op == token.LAND {
					o = token.LOR
				}
				c.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: o, Y: not(b.Y)}))
				done++
			}
			return true
		})
	case "andif": // if a && b { } => if a { if b { } }   (no else)
		each(func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else == nil {
				for {
					b, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
					if !ok || b.Op != token.LAND {
						break
					}
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
					done++
				}
			}
			return true
		})
	case "boolvar": // if a && b => ok := a; if ok { ok = b }; if ok
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if i, ok := s.(*ast.IfStmt); ok && i.Init == nil {
					if b, ok := ast.Unparen(i.Cond).(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
						v := tmp("is")
						var g ast.Expr = id(v.Name)
						if b.Op == token.LOR {
							g = not(g)
						}
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{b.X}},
							&ast.IfStmt{Cond: g, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{b.Y}}}}})
						i.Cond = id(v.Name)
						done++
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "args":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			hoist := func(x ast.Expr) {
				c, ok := x.(*ast.CallExpr)
				if !ok || !simple(c.Fun) || c.Ellipsis.IsValid() {
					return
				}
				if t, ok := info.Types[c.Fun]; !ok || t.IsType() || t.IsBuiltin() {
					return
				}
				for k, a := range c.Args {
					t, ok := info.Types[a]
					if !ok || simple(a) || t.Value != nil || t.IsNil() {
						continue
					}
					if _, ok := t.Type.(*types.Tuple); ok {
						continue
					}
					if _, ok := a.(*ast.FuncLit); ok {
						continue
					}
					v := tmp("arg")
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
					c.Args[k] = id(v.Name)
					done++
				}
			}
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					hoist(x.X)
				case *ast.AssignStmt:
					if len(x.Rhs) == 1 {
						hoist(x.Rhs[0])
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						hoist(x.Results[0])
					} else if len(x.Results) == 2 && simple(x.Results[0]) {
						hoist(x.Results[1])
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "retvar": // return f(...) => r := f(...); return r
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				if x, ok := s.(*ast.ReturnStmt); ok {
					for k, a := range x.Results {
						t, ok := info.Types[a]
						if !ok || simple(a) || t.Value != nil || t.IsNil() {
							continue
						}
						if _, ok := t.Type.(*types.Tuple); ok {
							continue
						}
						if t.Type == types.Typ[types.UntypedBool] {
							continue
						}
						v := tmp("res")
						out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
						x.Results[k] = id(v.Name)
						done++
					}
				}
				out = append(out, s)
			}
			return out
		})
	case "closure", "helper", "namedres", "deferres", "once", "goto":
		var add []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || len(fd.Body.List) < 2 || fd.Name.Name == "init" || fd.Type.TypeParams != nil {
				continue
			}
			named := false
			nres := 0
			if fd.Type.Results != nil {
				for _, r := range fd.Type.Results.List {
					nres++
					if r.Names != nil {
						named = true
					}
				}
			}
			if named {
				continue
			}
			switch mode {
			case "closure":
				lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}
				call := &ast.CallExpr{Fun: lit}
				var s ast.Stmt = &ast.ExprStmt{X: call}
				if nres > 0 {
					s = &ast.ReturnStmt{Results: []ast.Expr{call}}
				}
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
				done++
			case "helper":
				ok := true
				var args []ast.Expr
				ell := token.NoPos
				for _, p := range fd.Type.Params.List {
					if len(p.Names) == 0 {
						ok = false
					}
					for _, n := range p.Names {
						if n.Name == "_" {
							ok = false
						}
						args = append(args, id(n.Name))
					}
					if _, is := p.Type.(*ast.Ellipsis); is {
						ell = 1
					}
				}
				if !ok || fd.Recv != nil && (len(fd.Recv.List[0].Names) == 0) {
					continue
				}
				n := "do" + fd.Name.Name + "_"
				var fun ast.Expr = id(n)
				if fd.Recv != nil {
					fun = &ast.SelectorExpr{X: id(fd.Recv.List[0].Names[0].Name), Sel: id(n)}
				}
				add = append(add, &ast.FuncDecl{Recv: fd.Recv, Name: id(n), Type: fd.Type, Body: fd.Body})
				call := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: ell}
				var s ast.Stmt = &ast.ExprStmt{X: call}
				if nres > 0 {
					s = &ast.ReturnStmt{Results: []ast.Expr{call}}
				}
				fd.Body = &ast.BlockStmt{List: []ast.Stmt{s}}
				done++
			case "namedres", "deferres", "once", "goto":
				if nres == 0 {
					continue
				}
				var ns []string
				nt := *fd.Type
				nt.Results = &ast.FieldList{}
				for k, r := range fd.Type.Results.List {
					n := fmt.Sprintf("out%d_", k)
					ns = append(ns, n)
					nt.Results.List = append(nt.Results.List, &ast.Field{Names: []*ast.Ident{id(n)}, Type: r.Type})
				}
				bad := false
				if mode != "namedres" && has(fd.Body, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.ForStmt, *ast.RangeStmt, *ast.LabeledStmt:
						return true
					}
					return false
				}) {
					bad = true
				}
				if bad {
					continue
				}
				if mode == "goto" && has(fd.Body, func(n ast.Node) bool { return false }) {
					continue
				}
				fd.Type = &nt
				astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
					_, lit := c.Node().(*ast.FuncLit)
					return !lit
				}, func(c *astutil.Cursor) bool {
					r, ok := c.Node().(*ast.ReturnStmt)
					if !ok {
						return true
					}
					var lhs []ast.Expr
					for _, n := range ns {
						lhs = append(lhs, id(n))
					}
					as := &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: r.Results}
					var end ast.Stmt = &ast.ReturnStmt{}
					if mode == "once" {
						end = &ast.BranchStmt{Tok: token.BREAK, Label: id("once_")}
					}
					c.Replace(&ast.BlockStmt{List: []ast.Stmt{as, end}})
					return true
				})
				if mode == "once" {
					body := fd.Body
					fd.Body = &ast.BlockStmt{List: []ast.Stmt{
						&ast.LabeledStmt{Label: id("once_"), Stmt: &ast.ForStmt{Body: body}},
						&ast.ReturnStmt{}}}
				}
				if mode == "deferres" {
					fd.Body.List = append([]ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(ns[0])}}}}}}}}, fd.Body.List...)
				}
				done++
			}
		}
		f.Decls = append(f.Decls, add...)
	case "sw2if":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for k, s := range l {
				w, ok := s.(*ast.SwitchStmt)
				if !ok || w.Init != nil || has(w.Body, isBranch) {
					continue
				}
				var pre []ast.Stmt
				tag := w.Tag
				if tag != nil && !simple(tag) {
					v := tmp("tag")
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{tag}})
					tag = v
				}
				var def ast.Stmt
				type arm struct {
					c ast.Expr
					b []ast.Stmt
				}
				var arms []arm
				for _, cc := range w.Body.List {
					c := cc.(*ast.CaseClause)
					if c.List == nil {
						def = &ast.BlockStmt{List: c.Body}
						continue
					}
					var cond ast.Expr
					for _, x := range c.List {
						var e ast.Expr = x
						if tag != nil {
							e = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: paren(x)}
						}
						if cond == nil {
							cond = e
						} else {
							cond = &ast.BinaryExpr{X: paren(cond), Op: token.LOR, Y: paren(e)}
						}
					}
					arms = append(arms, arm{cond, c.Body})
				}
				if len(arms) == 0 {
					continue
				}
				el := def
				for j := len(arms) - 1; j >= 0; j-- {
					i := &ast.IfStmt{Cond: arms[j].c, Body: &ast.BlockStmt{List: arms[j].b}}
					if el != nil {
						i.Else = el
					}
					el = i
				}
				if pre != nil {
					el = &ast.BlockStmt{List: append(pre, el)}
				}
				l[k] = el
				done++
			}
			return l
		})
	case "if2sw":
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for k, s := range l {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init != nil || i.Else == nil || has(i, isBranch) {
					continue
				}
				var cl []ast.Stmt
				var x ast.Stmt = i
				bad := false
				for x != nil {
					switch y := x.(type) {
					case *ast.IfStmt:
						if y.Init != nil {
							bad = true
						}
						cl = append(cl, &ast.CaseClause{List: []ast.Expr{y.Cond}, Body: y.Body.List})
						x = y.Else
					case *ast.BlockStmt:
						cl = append(cl, &ast.CaseClause{Body: y.List})
						x = nil
					}
				}
				if bad {
					continue
				}
				l[k] = &ast.SwitchStmt{Body: &ast.BlockStmt{List: cl}}
				done++
			}
			return l
		})
	case "idx": // for _, v := range list => counted
		each(func(c *astutil.Cursor) bool {
			r, ok := c.Node().(*ast.RangeStmt)
			if !ok || r.Value == nil || r.Tok != token.DEFINE || !simple(r.X) {
				return true
			}
			t := info.Types[r.X].Type
			if t == nil {
				return true
			}
			if _, ok := t.Underlying().(*types.Slice); !ok {
				return true
			}
			k := tmp("i")
			if x, ok := r.Key.(*ast.Ident); ok && x.Name != "_" {
				k = x
			}
			r.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.Value}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: r.X, Index: id(k.Name)}}}}, r.Body.List...)
			c.Replace(&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
				Cond: &ast.BinaryExpr{X: id(k.Name), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{r.X}}},
				Post: &ast.IncDecStmt{X: id(k.Name), Tok: token.INC}, Body: r.Body})
			done++
			return true
		})
	case "ptr": // every new variable has its address taken
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, s := range l {
				out = append(out, s)
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
					for _, x := range a.Lhs {
						if i, ok := x.(*ast.Ident); ok && i.Name != "_" && info.Defs[i] != nil {
							v := tmp("at")
							out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: id(i.Name)}}},
								&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: id(v.Name)}}})
							done++
						}
					}
				}
			}
			return out
		})
	case "empty": // x == "" => len(x) == 0
		each(func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if y, ok := b.Y.(*ast.BasicLit); ok && y.Value == `""` {
					b.X = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{b.X}}
					b.Y = &ast.BasicLit{Kind: token.INT, Value: "0"}
					done++
				}
			}
			return true
		})
	case "nonempty": // len(x) == 0 => len(x) < 1 ; x == "" => len(x) < 1
		each(func(c *astutil.Cursor) bool {
			if b, ok := c.Node().(*ast.BinaryExpr); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if y, ok := b.Y.(*ast.BasicLit); ok && (y.Value == `""`) {
					o := token.LSS
					if b.Op == token.NEQ {
						o = token.GEQ
					}
					b.Op = o
					b.X = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{b.X}}
					b.Y = &ast.BasicLit{Kind: token.INT, Value: "1"}
					done++
				}
			}
			return true
		})
	case "false": // !x => x == false
		each(func(c *astutil.Cursor) bool {
			if u, ok := c.Node().(*ast.UnaryExpr); ok && u.Op == token.NOT && boolType(u.X) {
				c.Replace(&ast.ParenExpr{X: &ast.BinaryExpr{X: paren(u.X), Op: token.EQL, Y: id("false")}})
				done++
			}
			return true
		})
	case "lit2map": // map[K]V{a: b} => built step by step in a closure
		each(func(c *astutil.Cursor) bool {
			cl, ok := c.Node().(*ast.CompositeLit)
			if !ok || len(cl.Elts) == 0 {
				return true
			}
			mt, ok := cl.Type.(*ast.MapType)
			if !ok {
				return true
			}
			m := "m_"
			b := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("make"), Args: []ast.Expr{mt}}}}}
			for _, e := range cl.Elts {
				kv := e.(*ast.KeyValueExpr)
				b = append(b, &ast.AssignStmt{Lhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: kv.Key}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			b = append(b, &ast.ReturnStmt{Results: []ast.Expr{id(m)}})
			c.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: mt}}}}, Body: &ast.BlockStmt{List: b}}})
			done++
			return true
		})
	case "structlit": // &T{a: b} => x := new(T); x.a = b
		each(func(c *astutil.Cursor) bool {
			u, ok := c.Node().(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return true
			}
			cl, ok := u.X.(*ast.CompositeLit)
			if !ok || len(cl.Elts) == 0 {
				return true
			}
			if _, ok := cl.Elts[0].(*ast.KeyValueExpr); !ok {
				return true
			}
			m := "s_"
			b := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(m)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: id("new"), Args: []ast.Expr{cl.Type}}}}}
			for _, e := range cl.Elts {
				kv := e.(*ast.KeyValueExpr)
				b = append(b, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(m), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			b = append(b, &ast.ReturnStmt{Results: []ast.Expr{id(m)}})
			c.Replace(&ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: &ast.StarExpr{X: cl.Type}}}}}, Body: &ast.BlockStmt{List: b}}})
			done++
			return true
		})
	case "litconst": // string literals in function bodies become package constants
		var add []ast.Decl
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
				l, ok := c.Node().(*ast.BasicLit)
				if !ok || l.Kind != token.STRING || l.Value == "\"\"" {
					return true
				}
				n := fmt.Sprintf("lit%s%d_", strings.TrimSuffix(filepath.Base(fset.Position(f.Pos()).Filename), ".go"), done)
				add = append(add, &ast.GenDecl{Tok: token.CONST, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Values: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: l.Value}}}}})
				c.Replace(id(n))
				done++
				return true
			})
		}
		f.Decls = append(f.Decls, add...)
	case "vardecl": // x := e => var x = e
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for i, st := range l {
				as, ok := st.(*ast.AssignStmt)
				if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 {
					continue
				}
				l[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{as.Lhs[0].(*ast.Ident)}, Values: as.Rhs}}}}
				done++
			}
			return l
		})
	case "retif": // return c => if c { return true }; return false
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for _, st := range l {
				r, ok := st.(*ast.ReturnStmt)
				if ok && len(r.Results) == 1 {
					_, lit := r.Results[0].(*ast.Ident)
					tv, known := info.Types[r.Results[0]]
					if known && !lit && tv.Type == types.Typ[types.Bool] || known && !lit && tv.Type == types.Typ[types.UntypedBool] {
						out = append(out, &ast.IfStmt{Cond: r.Results[0], Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{id("true")}}}}})
						r = &ast.ReturnStmt{Results: []ast.Expr{id("false")}}
						st = r
						done++
					}
				}
				out = append(out, st)
			}
			return out
		})
	case "swtrue": // if c { ...return } => switch { case c: ... return }
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			var out []ast.Stmt
			for i := 0; i < len(l); i++ {
				var cases []ast.Stmt
				j := i
				for ; j < len(l); j++ {
					is, ok := l[j].(*ast.IfStmt)
					if !ok || is.Init != nil || is.Else != nil || !terminates(is.Body) || has(is.Body, isBranch) {
						break
					}
					cases = append(cases, &ast.CaseClause{List: []ast.Expr{is.Cond}, Body: is.Body.List})
				}
				if len(cases) > 0 {
					out = append(out, &ast.SwitchStmt{Body: &ast.BlockStmt{List: cases}})
					done++
					i = j - 1
					continue
				}
				out = append(out, l[i])
			}
			return out
		})
	case "reorder": // x := pure; y := pure => y := pure; x := pure
		pure := func(st ast.Stmt) (string, bool) {
			as, ok := st.(*ast.AssignStmt)
			if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 {
				return "", false
			}
			good := true
			ast.Inspect(as.Rhs[0], func(n ast.Node) bool {
				switch y := n.(type) {
				case *ast.CallExpr:
					t := fmt.Sprint(types.ExprString(y.Fun))
					if !strings.HasSuffix(t, "FormValue") && !strings.Contains(t, ".Get") && t != "len" {
						good = false
					}
				case *ast.FuncLit, *ast.StarExpr, *ast.IndexExpr, *ast.TypeAssertExpr, *ast.CompositeLit:
					good = false
				}
				return good
			})
			return as.Lhs[0].(*ast.Ident).Name, good
		}
		lists(f, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, ok1 := pure(l[i])
				b, ok2 := pure(l[i+1])
				if !ok1 || !ok2 || a == b {
					continue
				}
				uses := has(l[i+1], func(n ast.Node) bool { x, ok := n.(*ast.Ident); return ok && x.Name == a })
				if uses {
					continue
				}
				l[i], l[i+1] = l[i+1], l[i]
				done++
				i++
			}
			return l
		})
	case "pred", "outline", "outmeth": // conditions / blocks that return become functions of what they read
		outlineAll(mode, f)
	default:
		panic("mode " + mode)
	}
}

func outlineAll(mode string, f *ast.File) {
	imports := map[string]string{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, "\"")
		n := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[p] = n
	}
	okT := true
	qual := func(p *types.Package) string {
		if p.Path() == "x" {
			return ""
		}
		n, ok := imports[p.Path()]
		if !ok {
			okT = false
		}
		return n
	}
	typeExpr := func(t types.Type) ast.Expr {
		x, err := parser.ParseExpr(types.TypeString(t, qual))
		if err != nil {
			okT = false
			return nil
		}
		return x
	}
	base := strings.TrimSuffix(filepath.Base(fset.Position(f.Pos()).Filename), ".go")
	var add []ast.Decl
	// free variables of a node, that it does not change
	free := func(n ast.Node) ([]*types.Var, bool) {
		var vs []*types.Var
		seen := map[*types.Var]bool{}
		good := true
		ast.Inspect(n, func(m ast.Node) bool {
			switch y := m.(type) {
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					if i, ok := l.(*ast.Ident); ok && info.Uses[i] != nil {
						good = false
					}
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if _, ok := y.X.(*ast.CompositeLit); !ok {
						good = false
					}
				}
			case *ast.IncDecStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.FuncLit:
				good = false
			case *ast.Ident:
				v, ok := info.Uses[y].(*types.Var)
				if !ok || v.IsField() || v.Parent() == nil || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
					return good
				}
				if v.Pos() >= n.Pos() && v.Pos() < n.End() {
					return good
				}
				if !seen[v] {
					seen[v] = true
					vs = append(vs, v)
				}
			}
			return good
		})
		return vs, good
	}
	mkFn := func(vs []*types.Var, res *ast.FieldList, body []ast.Stmt) (ast.Expr, bool) {
		okT = true
		ps := &ast.FieldList{}
		var args []ast.Expr
		names := map[string]bool{}
		for _, v := range vs {
			if names[v.Name()] {
				return nil, false
			}
			names[v.Name()] = true
			ps.List = append(ps.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: typeExpr(v.Type())})
			args = append(args, id(v.Name()))
		}
		if !okT {
			return nil, false
		}
		n := fmt.Sprintf("out%s%d_", base, done)
		add = append(add, &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: ps, Results: res}, Body: &ast.BlockStmt{List: body}})
		done++
		return &ast.CallExpr{Fun: id(n), Args: args}, true
	}
	for _, d := range append([]ast.Decl{}, f.Decls...) {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Type.TypeParams != nil {
			continue
		}
		var stack []*ast.FieldList
		stack = append(stack, fd.Type.Results)
		astutil.Apply(fd.Body, func(c *astutil.Cursor) bool {
			if l, ok := c.Node().(*ast.FuncLit); ok {
				stack = append(stack, l.Type.Results)
			}
			return true
		}, func(c *astutil.Cursor) bool {
			if _, ok := c.Node().(*ast.FuncLit); ok {
				stack = stack[:len(stack)-1]
				return true
			}
			s, ok := c.Node().(*ast.IfStmt)
			if !ok {
				return true
			}
			if mode == "pred" {
				_, bin := s.Cond.(*ast.BinaryExpr)
				_, call := s.Cond.(*ast.CallExpr)
				_, un := s.Cond.(*ast.UnaryExpr)
				if !bin && !call && !un {
					return true
				}
				vs, ok := free(s.Cond)
				if !ok {
					return true
				}
				x, ok := mkFn(vs, &ast.FieldList{List: []*ast.Field{{Type: id("bool")}}}, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{s.Cond}}})
				if ok {
					s.Cond = x
				}
				return true
			}
			res := stack[len(stack)-1]
			if res != nil {
				for _, r := range res.List {
					if r.Names != nil {
						return true
					}
				}
			}
			blocks := []*ast.BlockStmt{s.Body}
			if e, ok := s.Else.(*ast.BlockStmt); ok {
				blocks = append(blocks, e)
			}
			for _, b := range blocks {
				if !terminates(b) || len(b.List) < 2 {
					continue
				}
				// what an enclosing rewriting made has no types
				if has(b, func(n ast.Node) bool {
					x, ok := n.(*ast.Ident)
					return ok && strings.HasPrefix(x.Name, "out"+base)
				}) {
					continue
				}
				vs, ok := free(b)
				if !ok {
					continue
				}
				x, ok := mkFn(vs, res, b.List)
				if !ok {
					continue
				}
				if res == nil || len(res.List) == 0 {
					b.List = []ast.Stmt{&ast.ExprStmt{X: x}, &ast.ReturnStmt{}}
				} else {
					b.List = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{x}}}
				}
			}
			return true
		})
	}
	f.Decls = append(f.Decls, add...)
}
