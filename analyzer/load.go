package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/ssa"
)

// Module path of the code under analysis.
const modPath = "github.com/lyokato/goidc"

// jwx is the only dependency that is not present offline. Only its declarations matter.
const jwxStub = `package jwk
const KeyIDKey = "kid"
type Key interface {
	Get(string) (interface{}, bool)
	Set(string, interface{}) error
	Materialize() (interface{}, error)
	Thumbprint(h uint) ([]byte, error)
}
type EssentialHeader struct { KeyID string }
func (h *EssentialHeader) Get(string) (interface{}, bool)
func (h *EssentialHeader) Set(string, interface{}) error
func (h *EssentialHeader) Thumbprint(h2 uint) ([]byte, error)
type RSAPublicKey struct { *EssentialHeader }
func (k *RSAPublicKey) Materialize() (interface{}, error)
func (k *RSAPublicKey) PublicKey() (interface{}, error)
type RSAPrivateKey struct { *RSAPublicKey }
func (k *RSAPrivateKey) Materialize() (interface{}, error)
type Set struct { Keys []Key }
func (s *Set) LookupKeyID(kid string) []Key
func New(key interface{}) (Key, error)
func ParseString(s string) (*Set, error)
func Parse(buf []byte) (*Set, error)
`

type Program struct {
	covered map[*ssa.Function]bool
	repo    string
	fset    *token.FileSet
	ctx     build.Context
	goroot  string
	modc    string
	pkgs    map[string]*types.Package
	infos   map[string]*types.Info
	files   map[string][]*ast.File
	order   []string // repo packages, dependencies first
	errs    []error
	prog    *ssa.Program
	shim    *ssa.Package
	spkg    map[string]*ssa.Package
	nfunc   int

	mutable   map[*ssa.Global]bool
	funcs     []*ssa.Function
	base      *State
	shared    map[*Term]bool
	initUndec []string
}

func goRoot() string {
	for _, d := range []string{os.Getenv("GOROOT"), "/usr/local/go", "/opt/veriftools/go1.27.3"} {
		if d != "" {
			if _, err := os.Stat(filepath.Join(d, "src", "net", "http")); err == nil {
				return d
			}
		}
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err == nil {
		return strings.TrimSpace(string(out))
	}
	return build.Default.GOROOT
}

func load(repo string) *Program {
	ctx := build.Default
	ctx.CgoEnabled = false
	p := &Program{repo: repo, fset: token.NewFileSet(), ctx: ctx, goroot: goRoot(),
		pkgs: map[string]*types.Package{}, infos: map[string]*types.Info{},
		files: map[string][]*ast.File{}, spkg: map[string]*ssa.Package{}}
	p.ctx.GOROOT = p.goroot
	p.modc = os.Getenv("GOMODCACHE")
	if p.modc == "" {
		p.modc = "/root/go/pkg/mod"
	}
	var dirs []string
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(repo, path)
		if rel != "." && (strings.HasPrefix(fi.Name(), ".") || strings.HasPrefix(fi.Name(), "_") || fi.Name() == "testdata" || fi.Name() == "vendor" || fi.Name() == "test_helper") {
			return filepath.SkipDir
		}
		dirs = append(dirs, rel)
		return nil
	})
	sort.Strings(dirs)
	for _, d := range dirs {
		path := modPath
		if d != "." {
			path += "/" + filepath.ToSlash(d)
		}
		if bp, err := p.ctx.ImportDir(filepath.Join(repo, d), 0); err != nil || bp.Name == "main" {
			if _, ok := err.(*build.NoGoError); err != nil && !ok {
				p.errs = append(p.errs, err)
			}
			continue
		}
		if _, err := p.Import(path); err != nil {
			p.errs = append(p.errs, err)
		}
	}
	p.buildSSA()
	return p
}

func (p *Program) Import(path string) (*types.Package, error) { return p.ImportFrom(path, "", 0) }

func (p *Program) ImportFrom(path, dir string, _ types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if q := p.pkgs[path]; q != nil {
		return q, nil
	}
	if q, ok := p.pkgs[path]; ok && q == nil {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	p.pkgs[path] = nil
	own := path == modPath || strings.HasPrefix(path, modPath+"/")
	var d string
	var cand []string
	switch {
	case own:
		cand = []string{filepath.Join(p.repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))}
	case path == "github.com/lestrrat/go-jwx/jwk":
		f, err := parser.ParseFile(p.fset, "jwk.go", jwxStub, 0)
		if err != nil {
			return nil, err
		}
		cfg := types.Config{Importer: p, IgnoreFuncBodies: true, Error: func(error) {}}
		pk, _ := cfg.Check(path, p.fset, []*ast.File{f}, nil)
		p.pkgs[path] = pk
		return pk, nil
	case strings.Contains(strings.SplitN(path, "/", 2)[0], "."):
		g, _ := filepath.Glob(filepath.Join(p.modc, path+"@*"))
		sort.Strings(g)
		for i := len(g) - 1; i >= 0; i-- {
			cand = append(cand, g[i])
		}
		for i, e := 0, strings.Split(path, "/"); i < len(e) && len(g) == 0; i++ {
			g2, _ := filepath.Glob(filepath.Join(p.modc, strings.Join(e[:i+1], "/")+"@*"))
			for _, x := range g2 {
				cand = append(cand, filepath.Join(append([]string{x}, e[i+1:]...)...))
			}
		}
		cand = append(cand, filepath.Join(p.goroot, "src/vendor", path))
	default:
		cand = []string{filepath.Join(p.goroot, "src", path), filepath.Join(p.goroot, "src/vendor", path)}
	}
	var bp *build.Package
	var err error
	for _, d = range cand {
		if bp, err = p.ctx.ImportDir(d, 0); err == nil {
			break
		}
	}
	if bp == nil || err != nil {
		return nil, fmt.Errorf("package %s not found: %v", path, err)
	}
	files := make([]*ast.File, len(bp.GoFiles))
	perr := make([]error, len(bp.GoFiles))
	mode := parser.SkipObjectResolution
	if own {
		mode |= parser.ParseComments
	}
	var wg sync.WaitGroup
	for i, f := range bp.GoFiles {
		wg.Add(1)
		go func() {
			defer wg.Done()
			files[i], perr[i] = parser.ParseFile(p.fset, filepath.Join(d, f), nil, mode)
		}()
	}
	wg.Wait()
	cfg := types.Config{Importer: p, IgnoreFuncBodies: !own, FakeImportC: true, Error: func(e error) {
		if own {
			p.errs = append(p.errs, e)
		}
	}}
	for _, e := range perr {
		if e != nil && own {
			p.errs = append(p.errs, e)
		}
	}
	var info *types.Info
	if own {
		info = newInfo()
	}
	if own {
		cfg.GoVersion = "go1.23"
	}
	before := len(p.errs)
	pk, _ := cfg.Check(path, p.fset, files, info)
	if rest := p.setAside(path, files, p.errs[before:]); rest != nil {
		// What cannot be compiled here for want of jwx is left out: whatever needs it is then reported
		// as missing, and everything else is still decided.
		p.errs = p.errs[:before]
		files, info = rest, newInfo()
		pk, _ = cfg.Check(path, p.fset, files, info)
	}
	// One form of each loop reaches the analysis. A rewriting that does not type-check is not used.
	for _, norm := range []func([]*ast.File, *types.Info) int{tailCalls, cutLoops, compactions, countedRanges} {
		if !own || len(p.errs) > before || norm(files, info) == 0 {
			continue
		}
		info2 := newInfo()
		pk2, _ := cfg.Check(path, p.fset, files, info2)
		if len(p.errs) == before {
			pk, info = pk2, info2
			continue
		}
		p.errs = p.errs[:before]
		for i, f := range files {
			if name := p.fset.Position(f.Package).Filename; name != "" {
				if g, err := parser.ParseFile(p.fset, name, nil, mode); err == nil {
					files[i] = g
				}
			}
		}
		info = newInfo()
		pk, _ = cfg.Check(path, p.fset, files, info)
		break
	}
	p.pkgs[path] = pk
	if own {
		p.infos[path] = info
		p.files[path] = files
		p.order = append(p.order, path)
	}
	return pk, nil
}

// setAside returns the files of a package without those that need the dependency which is not present,
// when these are where its type errors are; nil if the errors lie elsewhere.
func (p *Program) setAside(path string, files []*ast.File, errs []error) []*ast.File {
	if !ownPath(path) || len(errs) == 0 {
		return nil
	}
	drop := map[string]bool{}
	var rest []*ast.File
	for _, f := range files {
		needs := false
		for _, im := range f.Imports {
			if q, _ := strconv.Unquote(im.Path.Value); q == modPath+"/crypto" || strings.HasPrefix(q, "github.com/lestrrat/go-jwx/") {
				needs = true
			}
		}
		if needs {
			drop[p.fset.Position(f.Package).Filename] = true
		} else {
			rest = append(rest, f)
		}
	}
	for _, e := range errs {
		te, ok := e.(types.Error)
		if !ok || !drop[p.fset.Position(te.Pos).Filename] {
			return nil
		}
	}
	if len(rest) == 0 {
		rest = []*ast.File{{Package: files[0].Package, Name: files[0].Name}}
	}
	return rest
}

func newInfo() *types.Info {
	return &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
}

// countedRanges rewrites `for i := range n` over an int into the counted loop the language defines
// it as, so that one loop form reaches the analysis. It reports how many it changed.
func countedRanges(files []*ast.File, info *types.Info) int {
	n := 0
	conv := func(r *ast.RangeStmt) ast.Stmt {
		tv, ok := info.Types[r.X]
		if !ok || r.Value != nil {
			return nil
		}
		if b, ok := tv.Type.(*types.Basic); !ok || b.Kind() != types.Int && b.Kind() != types.UntypedInt {
			return nil
		}
		if id, ok := r.Key.(*ast.Ident); ok && id.Name != "_" && info.Defs[id] != nil && !types.Identical(info.Defs[id].Type(), types.Typ[types.Int]) {
			return nil
		}
		n++
		at := r.Pos()
		id := func(s string) *ast.Ident { return &ast.Ident{NamePos: at, Name: s + "__" + strconv.Itoa(n)} }
		body := &ast.BlockStmt{Lbrace: r.Body.Lbrace, Rbrace: r.Body.Rbrace, List: r.Body.List}
		if k, ok := r.Key.(*ast.Ident); r.Key != nil && (!ok || k.Name != "_") {
			set := &ast.AssignStmt{Lhs: []ast.Expr{r.Key}, TokPos: at, Tok: r.Tok, Rhs: []ast.Expr{id("at")}}
			body.List = append([]ast.Stmt{set}, body.List...)
		}
		return &ast.ForStmt{For: at,
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id("at"), id("lim")}, TokPos: at, Tok: token.DEFINE,
				Rhs: []ast.Expr{&ast.BasicLit{ValuePos: at, Kind: token.INT, Value: "0"}, r.X}},
			Cond: &ast.BinaryExpr{X: id("at"), OpPos: at, Op: token.LSS, Y: id("lim")},
			Post: &ast.IncDecStmt{X: id("at"), TokPos: at, Tok: token.INC}, Body: body}
	}
	for _, f := range files {
		astutil.Apply(f, nil, func(c *astutil.Cursor) bool {
			if r, ok := c.Node().(*ast.RangeStmt); ok {
				if iterated(r, info) {
					n++
				} else if s := conv(r); s != nil {
					c.Replace(s)
				}
			}
			return true
		})
	}
	if n > 0 {
		for _, f := range files {
			blankUnused(f, info)
		}
	}
	return n
}

// iterated turns a loop over one of the library's iterators into the loop over what it iterates.
func iterated(r *ast.RangeStmt, info *types.Info) bool {
	call, ok := ast.Unparen(r.X).(*ast.CallExpr)
	if !ok {
		return false
	}
	fun := ast.Unparen(call.Fun)
	if x, ok := fun.(*ast.IndexExpr); ok {
		fun = x.X
	}
	sel, ok := fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	f, ok := info.Uses[sel.Sel].(*types.Func)
	if !ok {
		return false
	}
	second := func() {
		if r.Key != nil {
			r.Value, r.Key = r.Key, &ast.Ident{NamePos: r.Key.Pos(), Name: "_"}
			if r.Tok == token.ASSIGN {
				return
			}
		}
	}
	switch f.FullName() {
	case "strings.SplitSeq", "strings.FieldsSeq", "strings.SplitAfterSeq":
		sel.Sel = &ast.Ident{NamePos: sel.Sel.NamePos, Name: strings.TrimSuffix(sel.Sel.Name, "Seq")}
		second()
	case "slices.Values":
		r.X = call.Args[0]
		second()
	case "slices.All", "maps.All", "maps.Keys":
		r.X = call.Args[0]
	case "maps.Values":
		r.X = call.Args[0]
		second()
	default:
		return false
	}
	return true
}

// blankUnused renames the imports that a rewritten file does not use any more.
func blankUnused(f *ast.File, info *types.Info) {
	used := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			used[info.Uses[id]] = true
		}
		return true
	})
	for _, im := range f.Imports {
		o := info.Implicits[im]
		if im.Name != nil {
			o = info.Defs[im.Name]
		}
		if o != nil && !used[o] {
			im.Name = &ast.Ident{NamePos: im.Path.ValuePos, Name: "_"}
		}
	}
}

func (p *Program) buildSSA() {
	if len(p.errs) > 0 {
		return
	}
	p.prog = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	done := map[string]bool{}
	var paths []string
	for path := range p.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.pkgs[path]
		if pk == nil || done[path] {
			continue
		}
		done[path] = true
		if info := p.infos[path]; info != nil {
			p.spkg[path] = p.prog.CreatePackage(pk, p.files[path], info, true)
		} else {
			p.prog.CreatePackage(pk, nil, nil, true)
		}
	}
	for _, path := range p.order {
		p.spkg[path].Build()
	}
	p.buildShim()
	for _, path := range p.order {
		for _, m := range p.spkg[path].Members {
			if f, ok := m.(*ssa.Function); ok && f.Blocks != nil {
				p.nfunc++
			}
		}
	}
}

// fn finds a package-level function of the repository; path "" is the root package.
func (p *Program) fn(pkg, name string) *ssa.Function {
	s := p.pkg(pkg)
	if s == nil {
		return nil
	}
	return s.Func(name)
}

func (p *Program) pkg(pkg string) *ssa.Package {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	return p.spkg[path]
}

// method finds a method by receiver type name, pointer or value receiver.
func (p *Program) method(pkg, typ, name string) *ssa.Function {
	s := p.pkg(pkg)
	if s == nil {
		return nil
	}
	t := s.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.prog.MethodValue(ms.At(i)); f != nil && (f.Synthetic == "" || len(ms.At(i).Index()) > 1) { // its own, or one of an embedded part
					return f
				}
			}
		}
	}
	return nil
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	rel, err := filepath.Rel(p.repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func isOwn(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	o := f
	if o.Origin() != nil {
		o = o.Origin()
	}
	for o.Parent() != nil {
		o = o.Parent()
	}
	if o.Pkg == nil {
		if obj := o.Object(); obj != nil && obj.Pkg() != nil {
			return ownPath(obj.Pkg().Path())
		}
		return false
	}
	return ownPath(o.Pkg.Pkg.Path())
}

func ownPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// off is the offset of a position in its file: the same in every run, unlike the position itself.
func (p *Program) off(pos token.Pos) string {
	if !pos.IsValid() {
		return "0"
	}
	return strconv.Itoa(p.fset.Position(pos).Offset)
}
