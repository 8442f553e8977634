package main

import (
	"go/ast"
	"go/parser"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Library functions taking a predicate are analysed through these equivalent bodies, so that the
// predicate is followed like any other code of the repository.
const shimSrc = `package shim

func Index(s []string, v string) int {
	for i := range s {
		if v == s[i] {
			return i
		}
	}
	return -1
}

func IndexFunc(s []string, f func(string) bool) int {
	for i := range s {
		if f(s[i]) {
			return i
		}
	}
	return -1
}

func ContainsFunc(s []string, f func(string) bool) bool {
	for i := range s {
		if f(s[i]) {
			return true
		}
	}
	return false
}

func DeleteFunc(s []string, f func(string) bool) []string {
	kept := make([]string, 0)
	for _, v := range s {
		if !f(v) {
			kept = append(kept, v)
		}
	}
	return kept
}
`

func (p *Program) buildShim() {
	f, err := parser.ParseFile(p.fset, "shim.go", shimSrc, parser.SkipObjectResolution)
	if err != nil {
		panic(err)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	cfg := types.Config{Importer: p, GoVersion: "go1.23"}
	pk, err := cfg.Check("goidcverif/shim", p.fset, []*ast.File{f}, info)
	if err != nil {
		panic(err)
	}
	p.shim = p.prog.CreatePackage(pk, []*ast.File{f}, info, false)
	p.shim.Build()
}

// shimmed is the body to analyse for a call of a library function on a list of texts.
func (p *Program) shimmed(name string, fn *ssa.Function) *ssa.Function {
	if p.shim == nil {
		return nil
	}
	n := map[string]string{"slices.Index": "Index", "slices.IndexFunc": "IndexFunc", "slices.ContainsFunc": "ContainsFunc", "slices.DeleteFunc": "DeleteFunc"}[name]
	if n == "" || fn.Signature.Params().Len() != 2 {
		return nil
	}
	sl, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isStringT(sl.Elem()) {
		return nil
	}
	return p.shim.Func(n)
}

func isShim(f *ssa.Function) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == "goidcverif/shim"
}
