// automut DIR...: lists small edits of the non-test files, as JSON lines {file,off,end,new,op,line}. It is for
// finding changes the checks do not see; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type edit struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Line int    `json:"line"`
}

var (
	fset = token.NewFileSet()
	enc  = json.NewEncoder(os.Stdout)
)

func main() {
	for _, d := range os.Args[1:] {
		dir(d)
	}
}

func dir(d string) {
	var files []*ast.File
	var names []string
	src := map[*ast.File][]byte{}
	ents, _ := os.ReadDir(d)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			b, _ := os.ReadFile(filepath.Join(d, e.Name()))
			f, err := parser.ParseFile(fset, filepath.Join(d, e.Name()), b, 0)
			if err != nil {
				panic(err)
			}
			files = append(files, f)
			names = append(names, filepath.Join(d, e.Name()))
			src[f] = b
		}
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}}
	wd, _ := os.Getwd()
	os.Chdir(d)
	cfg := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := cfg.Check("x", fset, files, info)
	os.Chdir(wd)
	for i, f := range files {
		m := &mut{f: f, name: names[i], src: src[f], info: info, pkg: pkg}
		m.run()
	}
}

type mut struct {
	f    *ast.File
	name string
	src  []byte
	info *types.Info
	pkg  *types.Package
}

func (m *mut) text(n ast.Node) string {
	return string(m.src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

func (m *mut) put(n ast.Node, s, op string) {
	p, e := fset.Position(n.Pos()), fset.Position(n.End())
	if m.text(n) == s {
		return
	}
	enc.Encode(edit{m.name, p.Offset, e.Offset, s, op, p.Line})
}

func isLog(t types.Type) bool {
	return t != nil && strings.Contains(t.String(), "LogEvent")
}

func (m *mut) run() {
	logCall := func(n ast.Node) bool {
		s, ok := n.(*ast.ExprStmt)
		if !ok {
			return false
		}
		t := m.text(s)
		return strings.Contains(t, "logger.") || strings.Contains(t, "Logger()")
	}
	ast.Inspect(m.f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.Field:
			return false
		case *ast.GenDecl:
			if x.Tok == token.TYPE || x.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			c := m.text(x.Cond)
			m.put(x.Cond, "("+c+") && false", "if-false")
			m.put(x.Cond, "("+c+") || true", "if-true")
			if len(x.Body.List) > 0 {
				if r, ok := x.Body.List[len(x.Body.List)-1].(*ast.ReturnStmt); ok && len(r.Results) == 0 {
					m.put(r, "", "no-return")
				}
			}
			if x.Init != nil && x.Else == nil {
				// handled by conditions
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				m.put(x.Cond, "("+m.text(x.Cond)+") && false", "for-none")
			}
		case *ast.BinaryExpr:
			l, r := m.text(x.X), m.text(x.Y)
			switch x.Op {
			case token.LAND:
				m.put(x, l, "left-only")
				m.put(x, r, "right-only")
				m.put(x, "("+l+") || ("+r+")", "or")
			case token.LOR:
				m.put(x, l, "left-only")
				m.put(x, r, "right-only")
				m.put(x, "("+l+") && ("+r+")", "and")
			case token.LSS:
				m.put(x, l+" <= "+r, "bound")
			case token.LEQ:
				m.put(x, l+" < "+r, "bound")
			case token.GTR:
				m.put(x, l+" >= "+r, "bound")
			case token.GEQ:
				m.put(x, l+" > "+r, "bound")
			case token.ADD:
				m.put(x, l, "left-only")
				m.put(x, r, "right-only")
				if t := m.info.Types[x].Type; t != nil && t.String() != "string" {
					m.put(x, l+" - "+r, "minus")
				}
			case token.SUB:
				m.put(x, l+" + "+r, "plus")
			case token.EQL:
				m.put(x, l+" != "+r, "neq")
			case token.NEQ:
				m.put(x, l+" == "+r, "eq")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				m.put(x, m.text(x.X), "no-not")
			}
		case *ast.ExprStmt:
			if logCall(x) {
				return false
			}
			m.put(x, "", "del-call")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
				m.put(x, "", "del-assign")
			}
		case *ast.IncDecStmt, *ast.DeferStmt:
			m.put(x, "", "del-stmt")
		case *ast.BranchStmt:
			if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
				m.put(x, "", "del-branch")
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				t := m.info.Types[r].Type
				if t == nil || len(x.Results) < 1 {
					continue
				}
				switch u := t.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
					if m.text(r) != "nil" && (i > 0 || len(x.Results) == 1) {
						m.put(r, "nil", "ret-nil")
					}
				case *types.Basic:
					if u.Info()&types.IsBoolean != 0 && m.text(r) != "true" && m.text(r) != "false" {
						m.put(r, "!("+m.text(r)+")", "ret-not")
					}
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := m.info.Types[x.Args[i]].Type, m.info.Types[x.Args[i+1]].Type
				if a != nil && b != nil && types.AssignableTo(a, b) && types.AssignableTo(b, a) {
					var as []string
					for _, y := range x.Args {
						as = append(as, m.text(y))
					}
					as[i], as[i+1] = as[i+1], as[i]
					m.put(x, m.text(x.Fun)+"("+strings.Join(as, ", ")+")", "swap-args")
				}
			}
		case *ast.SelectorExpr:
			m.sel(x)
		case *ast.BasicLit:
			switch x.Kind {
			case token.STRING:
				if len(x.Value) > 2 {
					q := x.Value[len(x.Value)-1:]
					m.put(x, x.Value[:len(x.Value)-1]+"_"+q, "str")
					m.put(x, q+q, "str-empty")
				} else {
					m.put(x, `"_"`, "str")
				}
			case token.INT:
				m.put(x, "("+x.Value+"+1)", "int")
				if x.Value != "0" {
					m.put(x, "("+x.Value+"-1)", "int")
				}
			}
		case *ast.Ident:
			if o := m.info.Uses[x]; o != nil && o.Parent() == types.Universe {
				switch x.Name {
				case "true":
					m.put(x, "false", "bool")
				case "false":
					m.put(x, "true", "bool")
				}
			} else if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != nil && v.Parent() != m.pkg.Scope() {
				m.vars(x, v)
			} else if c, ok := o.(*types.Const); ok && c.Pkg() != nil {
				m.consts(x, x, "", c)
			}
		}
		return true
	})
}

// vars puts other variables of the same type that are in scope.
func (m *mut) vars(x *ast.Ident, v *types.Var) {
	n := 0
	for s := m.pkg.Scope().Innermost(x.Pos()); s != nil && s != m.pkg.Scope() && n < 3; s = s.Parent() {
		for _, k := range s.Names() {
			w, ok := s.Lookup(k).(*types.Var)
			if !ok || w == v || w.Pos() >= x.Pos() || !types.Identical(w.Type(), v.Type()) || k == "_" {
				continue
			}
			if n++; n > 3 {
				return
			}
			m.put(x, k, "var")
		}
	}
}

func (m *mut) consts(x ast.Node, id *ast.Ident, pre string, c *types.Const) {
	if isLog(c.Type()) || c.Pkg() == nil {
		return
	}
	if _, ok := c.Type().(*types.Named); !ok && c.Pkg().Path() == "net/http" && !strings.HasPrefix(c.Name(), "Status") {
		return
	}
	n := 0
	sc := c.Pkg().Scope()
	names := sc.Names()
	at := 0
	for i, k := range names {
		if k == c.Name() {
			at = i
		}
	}
	for i := 1; i < len(names) && n < 2; i++ {
		d, ok := sc.Lookup(names[(at+i)%len(names)]).(*types.Const)
		if !ok || d == c || !types.Identical(d.Type(), c.Type()) || c.Pkg() != m.pkg && !d.Exported() || c.Pkg().Path() == "net/http" && !strings.HasPrefix(d.Name(), "Status") {
			continue
		}
		n++
		m.put(x, pre+d.Name(), "const")
	}
}

// sel puts other fields and methods of the same type.
func (m *mut) sel(x *ast.SelectorExpr) {
	s := m.info.Selections[x]
	if s == nil {
		if c, ok := m.info.Uses[x.Sel].(*types.Const); ok {
			if p, ok := x.X.(*ast.Ident); ok {
				m.consts(x, x.Sel, p.Name+".", c)
			}
		}
		return
	}
	if strings.Contains(m.text(x), "ogger") {
		return
	}
	n := 0
	ok := func(o types.Object) bool {
		return o.Name() != x.Sel.Name && types.Identical(o.Type(), s.Obj().Type()) && (o.Exported() || o.Pkg() == s.Obj().Pkg())
	}
	put := func(name string) {
		if n++; n <= 3 {
			m.put(x.Sel, name, "sel")
		}
	}
	t := s.Recv()
	if s.Kind() == types.FieldVal {
		u := t
		if p, isp := u.Underlying().(*types.Pointer); isp {
			u = p.Elem()
		}
		if st, isst := u.Underlying().(*types.Struct); isst {
			for i := 0; i < st.NumFields(); i++ {
				if ok(st.Field(i)) {
					put(st.Field(i).Name())
				}
			}
		}
		return
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if o.Name() == x.Sel.Name {
			continue
		}
		a, _ := o.Type().(*types.Signature)
		b, _ := s.Obj().Type().(*types.Signature)
		if a != nil && b != nil && types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()), types.NewSignatureType(nil, nil, nil, b.Params(), b.Results(), b.Variadic())) && o.Exported() {
			put(o.Name())
		}
	}
	_ = fmt.Sprint
}
