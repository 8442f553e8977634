package main

import (
	"go/token"
	"go/types"
	"html"
	"math/big"
	"net/textproto"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of what the repository calls: the standard library, the JWT library and the interfaces that
// the application implements (storage, callbacks, clients, ...).

// ---- interfaces of the bridge

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// role of an interface type: what its methods do.
func roleOf(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		if t != nil && types.TypeString(t, nil) == "error" {
			return "error"
		}
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case modPath + "/bridge":
		switch n.Obj().Name() {
		case "DataInterface":
			return "di"
		case "AuthorizationCallbacks":
			return "cb"
		case "Client", "AuthInfo", "AuthSession", "OAuthToken":
			return "data"
		}
	case modPath + "/log":
		if n.Obj().Name() == "Logger" {
			return "log"
		}
	case modPath + "/authorization":
		if n.Obj().Name() == "ResponseHandler" {
			return "rh"
		}
	case "net/http":
		if n.Obj().Name() == "ResponseWriter" {
			return "w"
		}
	case "hash":
		return "hash"
	}
	return ""
}

var diMethods = map[string]string{}

// roleByMethod serves interfaces that the repository declares for a part of a bridge interface.
func (p *Program) roleByMethod(m *types.Func) string {
	if len(diMethods) == 0 {
		add := func(pkg, typ, role string) {
			if sp := p.pkg(pkg); sp != nil {
				if o, ok := sp.Pkg.Scope().Lookup(typ).(*types.TypeName); ok {
					if it, ok := o.Type().Underlying().(*types.Interface); ok {
						for i := 0; i < it.NumMethods(); i++ {
							diMethods[it.Method(i).Name()+types.TypeString(it.Method(i).Type(), nil)] = role
						}
					}
				}
			}
		}
		add("bridge", "AuthInfo", "data")
		add("bridge", "AuthSession", "data")
		add("bridge", "OAuthToken", "data")
		add("bridge", "Client", "data")
		add("bridge", "DataInterface", "di")
		add("bridge", "AuthorizationCallbacks", "cb")
		add("log", "Logger", "log")
		add("authorization", "ResponseHandler", "rh")
	}
	return diMethods[m.Name()+types.TypeString(m.Type(), nil)]
}

func resultTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

// answer makes the result of an effectful call and records the event.
func (r *run) answer(s *State, name string, args []*Term, sig *types.Signature, pos token.Pos) []*Out {
	sa := make([]*Term, len(args))
	for i, a := range args {
		sa[i] = r.e.snapshot(s, a)
	}
	k := name + "(" + keys(sa) + ")"
	if n := s.occur(k); n > 1 {
		k += "'" + strconv.Itoa(n)
	}
	ts := resultTypes(sig)
	var T types.Type
	if len(ts) == 1 {
		T = ts[0]
	} else {
		T = sig.Results()
	}
	t := mk(ORes, k, name, T, sa...)
	s.emit(name, pos, r.fn, t, sa...)
	return []*Out{{st: s, ret: spread(t, ts)}}
}

func spread(t *Term, ts []types.Type) []*Term {
	switch len(ts) {
	case 0:
		return nil
	case 1:
		return []*Term{t}
	}
	var out []*Term
	for i, T := range ts {
		out = append(out, mkExtract(t, i, T))
	}
	return out
}

// errIndex is the position of the error in the results of a call.
func errIndex(c *Term) int {
	if tu, ok := c.typ.(*types.Tuple); ok {
		for i := tu.Len() - 1; i >= 0; i-- {
			ts := types.TypeString(tu.At(i).Type(), nil)
			if ts == "error" || strings.HasSuffix(ts, "bridge.Error") || strings.HasSuffix(ts, "oauth_error.OAuthError") {
				return i
			}
		}
	}
	return 1
}

func hasErr(c *Term) bool {
	if tu, ok := c.typ.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			ts := types.TypeString(tu.At(i).Type(), nil)
			if ts == "error" || strings.HasSuffix(ts, "bridge.Error") || strings.HasSuffix(ts, "oauth_error.OAuthError") {
				return true
			}
		}
	}
	return false
}

func objIffNoErr(c *Term) bool {
	if c.op == ORes && (c.s == "grant" || strings.HasPrefix(c.s, "ext:") && strings.Contains(c.s, "go-jwx/jwk")) {
		return true
	}
	return c.op == OCall && c.s == "flow.JudgeByResponseType"
}

func objIfNoErr(c *Term) bool {
	switch c.op {
	case OCall:
		return hasErr(c)
	case ORes: // callbacks answer with an object when they report no error; storage may not
		return c.s == "Continue"
	}
	return false
}

// trustedSel: configuration and request fields are set up by whoever made the object.
func trustedSel(x *Term) bool {
	if n := namedOf(x.typ); n != nil && n.Obj().Name() == "OAuthErrorURIBuilder" {
		return false
	}
	if _, ok := x.typ.(*types.Signature); ok {
		return false
	}
	if x.typ != nil && types.TypeString(x.typ, nil) == "error" {
		return false
	}
	if it, ok := x.typ.(*types.Interface); ok && it.Empty() {
		return false
	}
	if n := namedOf(x.typ); n != nil && n.Obj().Name() == "Error" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/bridge" {
		return false
	}
	return true
}

var nullableCalls = map[string]bool{
	"github.com/golang-jwt/jwt.GetSigningMethod": true,
	"errors.Unwrap": true, "errors.Join": true, "net.ParseIP": true, "jwt.inner": true,
	"parseform": true, "uri": true,
}

func trustedCall(x *Term) bool {
	if nullableCalls[x.s] || strings.HasPrefix(x.s, "written") || strings.HasPrefix(x.s, "unop") {
		return false
	}
	if x.typ != nil && types.TypeString(x.typ, nil) == "error" {
		return x.s == "errors.New" || x.s == "fmt.Errorf"
	}
	return true
}

func trustedFunc(f *Term) bool {
	if f.op == OParam {
		return true
	}
	if n := namedOf(f.typ); n != nil && n.Obj().Name() == "TimeBuilder" {
		return true
	}
	return false
}

func (e *Engine) errStr(s *State, x *Term) *Term { return mkCall("errstr", types.Typ[types.String], x) }

func (r *run) invoke(s *State, c *ssa.CallCommon, f *Term, args []*Term, pos token.Pos) []*Out {
	e := r.e
	m := c.Method
	sig := m.Type().(*types.Signature)
	switch s.isNil(f) {
	case yes:
		e.panicAt(s, "call of "+m.Name()+" on nil: "+f.key, pos, r.fn)
		return []*Out{}
	case unk:
		e.panicAt(s, "possible call of "+m.Name()+" on nil: "+f.key, pos, r.fn)
		s.addFact(mkEq(f, tNil).atom, false)
	}
	// a concrete implementation is known
	if f.op == OIface {
		T := f.ex.(types.Type)
		if fn := e.p.prog.LookupMethod(T, m.Pkg(), m.Name()); fn != nil {
			return r.callFn(s, fn, append([]*Term{f.args[0]}, args...), nil, pos)
		}
	} else if f.typ != nil && !types.IsInterface(f.typ) {
		if sel := types.NewMethodSet(f.typ).Lookup(m.Pkg(), m.Name()); sel != nil {
			if fn := e.p.prog.MethodValue(sel); fn != nil {
				return r.callFn(s, fn, append([]*Term{f}, args...), nil, pos)
			}
		}
	}
	role := roleOf(f.typ)
	if role == "" {
		role = roleOf(c.Value.Type())
	}
	if role == "" {
		role = e.p.roleByMethod(m)
	}
	ts := resultTypes(sig)
	pure := func() []*Out {
		var T types.Type
		if len(ts) == 1 {
			T = ts[0]
		} else {
			T = sig.Results()
		}
		sa := make([]*Term, len(args))
		for i, a := range args {
			sa[i] = e.snapshot(s, a)
		}
		return []*Out{{st: s, ret: spread(mkInv(f, m.Name(), T, sa...), ts)}}
	}
	switch role {
	case "di":
		if m.Name() == "Issuer" {
			return pure()
		}
		return r.answer(s, m.Name(), args, sig, pos)
	case "cb":
		return r.answer(s, m.Name(), args, sig, pos)
	case "data":
		return pure()
	case "log":
		e.logTo[e.snapshot(s, f)] = pos
		e.checkLeak(s, args, pos)
		if e.logging {
			return r.answer(s, "log:"+m.Name(), args, sig, pos)
		}
		return []*Out{{st: s, ret: spread(mkUnk("log", nil), ts)}}
	case "rh":
		mode := f
		if f.op == OCall && f.s == "handler" {
			mode = f.args[0]
		}
		return r.answer(s, m.Name(), append([]*Term{mode}, args...), sig, pos)
	case "w":
		return r.writer(s, f, m.Name(), args, sig, pos)
	case "error":
		return []*Out{{st: s, ret: []*Term{e.errStr(s, f)}}}
	case "hash":
		if outs := r.hashMethod(s, f, m.Name(), args, ts); outs != nil {
			return outs
		}
	}
	switch m.Name() {
	case "Error":
		if len(args) == 0 {
			return []*Out{{st: s, ret: []*Term{e.errStr(s, f)}}}
		}
	case "Public", "Alg", "String", "Size", "BlockSize", "Key", "LookupKeyID", "Unwrap", "Context", "Done", "Err", "Value":
		return pure()
	}
	r.havocArgs(s, m.Name(), args)
	return r.answer(s, "ext:"+m.Name(), append([]*Term{f}, args...), sig, pos)
}

func (r *run) havocArgs(s *State, by string, args []*Term) {
	for _, a := range args {
		x := a
		if x.op == OIface {
			x = x.args[0]
		}
		if x.op == OObj || x.op == OSliceOf {
			r.e.havoc(s, x, by, nil)
		}
	}
}

// ---- response writer

func hdrTerm(w *Term) *Term { return mkInv(w, "Header", nil) }

func isHeaderTerm(m *Term) bool {
	return m.op == OInv && m.s == "Header" || m.op == OSel && m.s == "Header"
}

func headerEvent(m *Term) string {
	if m.op == OSel {
		return "reqheader"
	}
	return ""
}

func (e *Engine) headers(s *State, w *Term) *Term {
	h := hdrTerm(w)
	if c, ok := s.mem[mkContent(h)]; ok {
		return unlist(e.snapshot(s, c))
	}
	return mkMap(nil, nil, h.typ)
}

func (r *run) status(s *State, w, code *Term, pos token.Pos) {
	if s.mem[mkCall("wrote", nil, w)] != nil {
		// a second WriteHeader is ignored by net/http
		s.emit("status-again", pos, r.fn, nil, code)
		return
	}
	s.setMem(mkCall("wrote", nil, w), tTrue)
	s.emit("status", pos, r.fn, nil, code, r.e.headers(s, w))
}

func (r *run) write(s *State, w, data *Term, pos token.Pos) {
	if s.mem[mkCall("wrote", nil, w)] == nil {
		r.status(s, w, mkInt(200), pos)
	}
	s.emit("write", pos, r.fn, nil, r.e.snapshot(s, data))
}

func (r *run) writer(s *State, w *Term, m string, args []*Term, sig *types.Signature, pos token.Pos) []*Out {
	ts := resultTypes(sig)
	switch m {
	case "Header":
		h := hdrTerm(w)
		if h.typ == nil {
			h.typ = ts[0]
		}
		return []*Out{{st: s, ret: []*Term{h}}}
	case "WriteHeader":
		r.status(s, w, args[0], pos)
		return []*Out{{st: s}}
	case "Write", "WriteString":
		r.write(s, w, bytesAsStr(r.e.content(s, args[0])), pos)
		return []*Out{{st: s, ret: spread(mkCall("written", sig.Results(), w), ts)}}
	}
	r.status(s, w, mkUnk("status", nil), pos)
	return r.answer(s, "ext:w."+m, args, sig, pos)
}

// writeTo writes to an io.Writer that may be the response, a buffer or something unknown.
func (r *run) writeTo(s *State, w, data *Term, pos token.Pos) bool {
	x := w
	if x.op == OIface {
		x = x.args[0]
	}
	if roleOf(x.typ) == "w" || (x.op == OParam && roleOf(x.typ) == "w") {
		r.write(s, x, data, pos)
		return true
	}
	if isBuilder(x) {
		b := mkFieldAddr(x, "buf", nil)
		cur := s.mem[b]
		if cur == nil {
			cur = mkStr("")
		}
		r.sharedBuffer(s, x, data, pos)
		s.setMem(b, mkConcat(cur, data))
		return true
	}
	return false
}

// sharedBuffer: a buffer that other requests can reach is changed.
func (r *run) sharedBuffer(s *State, x, data *Term, pos token.Pos) {
	if o := rootOf(x); !r.e.outer && (o.op != OObj || r.e.shared[o]) {
		s.emit("store", pos, r.fn, nil, x, data)
	}
}

func isBuilder(x *Term) bool {
	n := namedOf(x.typ)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p, nm := n.Obj().Pkg().Path(), n.Obj().Name()
	return p == "strings" && nm == "Builder" || p == "bytes" && nm == "Buffer"
}

// ---- anchors: functions of the repository with a meaning of their own

func defaultOpaque() map[string]bool {
	m := map[string]bool{}
	for _, n := range []string{
		"scope.Include", "scope.IncludeAll", "scope.Remove", "scope.Same",
		"scope.IncludeOpenID", "scope.IncludeOfflineAccess", "scope.RemoveOpenID", "scope.RemoveOfflineAccess",
		"prompt.Include", "prompt.IncludeAll", "prompt.Validate",
		"prompt.IncludeNone", "prompt.IncludeLogin", "prompt.IncludeConsent", "prompt.IncludeSelectAccount",
		"response_mode.Validate", "response_mode.CompareSecurityLevel",
		"flow.JudgeByResponseType",
		"id_token.Gen", "id_token.GenForImplicit", "id_token.GenForHybrid",
		"pkce.GenRandomCodeVerifier",
		"authorization.ResponseHandlerForMode", "authorization.NewRedirectResponseHandler", "authorization.NewHTMLResponseHandler",
		"authorization.RedirectResponseHandler.Success", "authorization.RedirectResponseHandler.Error",
		"authorization.HTMLResponseHandler.Success", "authorization.HTMLResponseHandler.Error",
		"oauth_error.OAuthError.StatusCode", "oauth_error.OAuthError.JSON", "oauth_error.OAuthError.Header", "oauth_error.OAuthError.Query",
		"oauth_error.OAuthErrorType.String",
	} {
		m[n] = true
	}
	return m
}

// tokenOf: the token each of these functions is about (established by the lemmas of properties U01 and U02).
var tokenOf = map[string]string{
	"scope.IncludeOpenID": "openid", "scope.IncludeOfflineAccess": "offline_access",
	"scope.RemoveOpenID": "openid", "scope.RemoveOfflineAccess": "offline_access",
	"prompt.IncludeNone": "none", "prompt.IncludeLogin": "login", "prompt.IncludeConsent": "consent", "prompt.IncludeSelectAccount": "select_account",
}

func anchorName(fn *ssa.Function) string {
	if fn.Pkg == nil || fn.Parent() != nil {
		return ""
	}
	p := fn.Pkg.Pkg.Path()
	if i := strings.LastIndex(p, "/"); i >= 0 {
		p = p[i+1:]
	}
	n := fn.Name()
	if rv := fn.Signature.Recv(); rv != nil {
		if nm := namedOf(rv.Type()); nm != nil {
			n = nm.Obj().Name() + "." + n
		}
	}
	return p + "." + n
}

// writesGlobals: may fn or something it calls in this module write a package-level variable?
func writesGlobals(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil || !isOwn(fn) {
		return false
	}
	seen[fn] = true
	var global func(v ssa.Value) bool
	global = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			return global(v.X)
		case *ssa.IndexAddr:
			return global(v.X)
		case *ssa.UnOp:
			return global(v.X)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if global(ins.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if global(ins.Map) {
					return true
				}
			case ssa.CallInstruction:
				if f := ins.Common().StaticCallee(); f != nil {
					if writesGlobals(f, seen) {
						return true
					}
					for _, a := range ins.Common().Args {
						if !isOwn(f) && global(a) && isPtr(a.Type()) {
							return true
						}
					}
				}
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if writesGlobals(f, seen) {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *run) anchor(s *State, fn *ssa.Function, args []*Term, pos token.Pos) ([]*Out, bool) {
	e := r.e
	if !isOwn(fn) {
		return nil, false
	}
	name := anchorName(fn)
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/log" && !e.inlineAll && !(r.fn != nil && r.fn.Pkg == fn.Pkg) && !writesGlobals(fn, map[*ssa.Function]bool{}) {
		e.checkLeak(s, args, pos)
		return []*Out{{st: s, ret: spread(mkUnk("log", nil), resultTypes(fn.Signature))}}, true
	}
	if e.inlineAll || !e.opaque[name] {
		return nil, false
	}
	sa := make([]*Term, len(args))
	allConst := true
	for i, a := range args {
		sa[i] = e.snapshot(s, a)
		if sa[i].op != OConst {
			allConst = false
		}
	}
	if allConst && len(args) > 0 {
		return nil, false
	}
	ts := resultTypes(fn.Signature)
	one := func(t *Term) ([]*Out, bool) { return []*Out{{st: s, ret: []*Term{t}}}, true }
	oauthParts := func() (t, d, u *Term) {
		v := sa[0]
		if v.op == OStruct {
			return mkSel(v, "Type", nil), mkSel(v, "Description", nil), mkSel(v, "URI", nil)
		}
		return mkSel(v, "Type", nil), mkSel(v, "Description", nil), mkSel(v, "URI", nil)
	}
	switch name {
	case "scope.Include", "prompt.Include":
		return one(mkMember(sa[0], sa[1]))
	case "scope.IncludeOpenID", "scope.IncludeOfflineAccess", "prompt.IncludeNone", "prompt.IncludeLogin", "prompt.IncludeConsent", "prompt.IncludeSelectAccount":
		return one(mkMember(sa[0], mkStr(tokenOf[name])))
	case "scope.RemoveOpenID", "scope.RemoveOfflineAccess":
		return one(mkCall("scope.Remove", ts[0], sa[0], mkStr(tokenOf[name])))
	case "scope.Same":
		a, b := sa[0], sa[1]
		if a == b {
			return one(tTrue)
		}
		if b.key < a.key {
			a, b = b, a
		}
		return one(mkCall(name, ts[0], a, b))
	case "response_mode.CompareSecurityLevel": // compares ranks (property A03), so it is reflexive
		if sa[0] == sa[1] {
			return one(tTrue)
		}
	case "authorization.ResponseHandlerForMode":
		return one(mkHandler(sa[0], ts[0]))
	case "authorization.NewRedirectResponseHandler":
		if n, ok := sa[2].int(); ok {
			m := "query"
			if v, ok := e.constOf("authorization", "ParamTypeFragment"); ok && v == n {
				m = "fragment"
			}
			return one(mkHandler(mkStr(m), e.p.typeOf("authorization", "ResponseHandler")))
		}
		return nil, false
	case "authorization.NewHTMLResponseHandler":
		return one(mkHandler(mkStr("form_post"), e.p.typeOf("authorization", "ResponseHandler")))
	case "authorization.RedirectResponseHandler.Success", "authorization.RedirectResponseHandler.Error",
		"authorization.HTMLResponseHandler.Success", "authorization.HTMLResponseHandler.Error":
		if f := sa[0]; f.op == OCall && f.s == "handler" {
			return r.answer(s, fn.Name(), append([]*Term{f.args[0]}, args[1:]...), fn.Signature, pos), true
		}
		return nil, false
	case "oauth_error.OAuthError.StatusCode":
		t, _, _ := oauthParts()
		if t.op == OConst {
			return nil, false
		}
		return one(mkCall("oauth_error.StatusCode", ts[0], t))
	case "oauth_error.OAuthError.JSON":
		t, d, u := oauthParts()
		return one(mkCall("oauth_error.JSON", ts[0], t, d, u))
	case "oauth_error.OAuthError.Header":
		t, d, u := oauthParts()
		return one(mkCall("oauth_error.Header", ts[0], t, d, u, sa[1]))
	case "oauth_error.OAuthError.Query":
		t, d, u := oauthParts()
		return one(mkCall("oauth_error.Query", ts[0], t, d, u, sa[1]))
	}
	var T types.Type
	if len(ts) == 1 {
		T = ts[0]
	} else {
		T = fn.Signature.Results()
	}
	return []*Out{{st: s, ret: spread(mkCall(name, T, sa...), ts)}}, true
}

func mkHandler(mode *Term, T types.Type) *Term { return mkCall("handler", T, mode) }

// mkMember: target is one of the space-separated tokens of list.
func mkMember(list, target *Term) *Term {
	l := mkCall("strings.Split", types.NewSlice(types.Typ[types.String]), list, mkStr(" "))
	return condTerm(Cond{mkExists(l, condTerm(mkEq(tHole, target))), true})
}

func (e *Engine) constOf(pkg, name string) (int64, bool) {
	sp := e.p.pkg(pkg)
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok {
		return 0, false
	}
	return c.Value.Int64(), true
}

func (p *Program) typeOf(pkg, name string) types.Type {
	sp := p.pkg(pkg)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ---- calls through function values

// phase: what a clock tells while an endpoint is set up is not what it tells during a request.
func (e *Engine) phase(n string) string {
	if e.outer {
		return "setup:" + n
	}
	return n
}

func (r *run) dynCall(s *State, f *Term, args []*Term, sig *types.Signature, pos token.Pos) []*Out {
	e := r.e
	if n := namedOf(f.typ); n != nil {
		switch n.Obj().Name() {
		case "TimeBuilder":
			return []*Out{{st: s, ret: []*Term{mkInv(f, e.phase("now"), sig.Results().At(0).Type())}}}
		case "OAuthErrorURIBuilder":
			return []*Out{{st: s, ret: []*Term{mkCall("uri", types.Typ[types.String], append([]*Term{f}, args...)...)}}}
		}
	}
	ts := resultTypes(sig)
	if len(ts) == 1 && namedOf(ts[0]) != nil && typeName(ts[0]) == "time.Time" && len(args) == 0 {
		return []*Out{{st: s, ret: []*Term{mkInv(f, e.phase("now"), ts[0])}}}
	}
	if isGrantSig(sig) {
		return r.answer(s, "grant", append([]*Term{f}, args...), sig, pos)
	}
	if h := e.dynamic; h != nil {
		for _, m := range h {
			if outs := m(e, s, f, args, pos, r.fn); outs != nil {
				return outs
			}
		}
	}
	r.havocArgs(s, "callback", args)
	return r.answer(s, "ext:dyn", append([]*Term{f}, args...), sig, pos)
}

func isGrantSig(sig *types.Signature) bool {
	if sig.Results().Len() != 2 {
		return false
	}
	n := namedOf(sig.Results().At(0).Type())
	return n != nil && n.Obj().Name() == "Response" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/grant"
}

// ---- leaks

// bearerHeader: the authorization header is known to use the bearer scheme.
func (s *State) bearerHeader(h *Term) bool {
	for a, f := range s.facts {
		if !f.val || !a.mentions(h) {
			continue
		}
		if (a.op == OEq || a.op == OCall && (a.s == "foldeq" || a.s == "strings.HasPrefix")) && len(a.args) == 2 {
			if k, ok := a.args[1].str(); ok && strings.HasPrefix(strings.ToLower(k), "bearer") {
				return true
			}
		}
	}
	return false
}

func (e *Engine) checkLeak(s *State, args []*Term, pos token.Pos) {
	if e.secret == nil || len(e.disc) > 0 {
		return
	}
	e.logSites[pos] = true
	seen := map[*Term]bool{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if e.secret(t) {
			if t.op == OCall && t.s == "hdr" && s.bearerHeader(t) {
				return nil // an access token, not a password
			}
			return t
		}
		if secretFree(t) {
			return nil
		}
		switch t.op {
		case ORes, OInv, OEq, OLE, OExists, OLen, ONot:
			return nil
		}
		for _, a := range t.args {
			if x := walk(a); x != nil {
				return x
			}
		}
		return nil
	}
	for _, a := range args {
		if x := walk(e.snapshot(s, a)); x != nil {
			k := x.key
			if _, ok := e.leaks[e.p.pos(pos)+" "+k]; !ok {
				e.leaks[e.p.pos(pos)+" "+k] = pos
				e.leakAt[pos] = true
			}
		}
	}
}

// ---- external functions

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "html": true, "encoding/base64": true, "encoding/hex": true,
	"encoding/pem": true, "encoding/binary": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/sha1": true, "crypto/md5": true,
	"crypto/subtle": true, "crypto/hmac": true, "crypto/x509": true, "crypto/rsa": true, "crypto": true, "net/url": true,
	"unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "math/big": true, "bytes": true, "path": true,
	"time": true, "fmt": true, "slices": true, "maps": true, "reflect": true, "regexp": true, "html/template": true,
	"net/textproto": true, "mime": true, "net": true, "cmp": true, "iter": true, "context": true, "hash": true,
	"github.com/golang-jwt/jwt": true, "github.com/google/go-querystring/query": true, "sort": true,
	"os": false,
}

func (r *run) external(s *State, fn *ssa.Function, args []*Term, pos token.Pos) []*Out {
	e := r.e
	name := fn.RelString(nil)
	sig := fn.Signature
	ts := resultTypes(sig)
	var T types.Type
	if len(ts) == 1 {
		T = ts[0]
	} else if len(ts) > 1 {
		T = sig.Results()
	}
	ret := func(t ...*Term) []*Out { return []*Out{{st: s, ret: t}} }
	str := types.Typ[types.String]
	c := make([]*Term, len(args))
	for i, a := range args {
		c[i] = e.content(s, a)
	}
	if i := strings.IndexByte(name, '['); i > 0 { // instantiated generic
		name = name[:i]
	}
	if g := e.p.shimmed(name, fn); g != nil {
		return r.callFn(s, g, args, nil, pos)
	}
	switch name {
	// --- requests
	case "(*net/http.Request).FormValue":
		return ret(mkCall("form", str, reqArgs(args)...))
	case "(*net/http.Request).PostFormValue":
		return ret(mkCall("post", str, reqArgs(args)...))
	case "(*net/http.Request).BasicAuth":
		return ret(spread(mkCall("basic", T, reqArgs(args)...), ts)...)
	case "(*net/http.Request).ParseForm":
		return ret(mkCall("parseform", T, args...))
	case "(*net/http.Request).ParseMultipartForm":
		return ret(mkCall("parseform", T, args[0]))
	case "(*net/url.URL).Query":
		if args[0].op == OSel && args[0].s == "URL" {
			return ret(mkCall("queryvalues", T, args[0]))
		}
		return ret(mkCall(name, T, args...))
	case "(*net/http.Request).UserAgent":
		return ret(mkCall("hdr", str, mkStr("User-Agent")))
	case "(*net/http.Request).Referer":
		return ret(mkCall("hdr", str, mkStr("Referer")))
	case "(net/http.Header).Get", "(net/url.Values).Get", "(net/http.Header).Values":
		return r.headerGet(s, name, args, str)
	case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del",
		"(net/url.Values).Set", "(net/url.Values).Add", "(net/url.Values).Del":
		r.headerSet(s, name, args, pos)
		return ret()
	case "(net/url.Values).Encode":
		return ret(mkCall("encode", str, unlist(e.snapshot(s, args[0]))))
	case "net/http.CanonicalHeaderKey", "net/textproto.CanonicalMIMEHeaderKey":
		if k, ok := args[0].str(); ok {
			return ret(mkStr(textproto.CanonicalMIMEHeaderKey(k)))
		}
	case "(net/http.HandlerFunc).ServeHTTP":
		if args[0].op == OClosure || args[0].op == OFunc {
			return r.callFn(s, args[0].fn, args[1:], args[0].args, pos)
		}
	case "net/http.Redirect":
		h := e.headers(s, args[0])
		s.setMem(mkCall("wrote", nil, args[0]), tTrue)
		s.emit("redirect", pos, r.fn, nil, args[2], args[3], h)
		return ret()
	case "net/http.Error":
		r.headerSet(s, "(net/http.Header).Set", []*Term{hdrTerm(args[0]), mkStr("Content-Type"), mkStr("text/plain; charset=utf-8")}, pos)
		r.status(s, args[0], args[2], pos)
		r.write(s, args[0], args[1], pos)
		return ret()
	case "net/http.NotFound":
		r.status(s, args[0], mkInt(404), pos)
		return ret()
	case "net/http.StatusText":
		return ret(mkCall(name, str, args...))
	// --- formatting
	case "fmt.Sprintf":
		var outs []*Out
		for _, x := range r.stringers(s, args[0], c[1], pos) {
			outs = append(outs, &Out{st: x.st, ret: []*Term{e.sprintf(x.st, args[0], x.ret[0])}})
		}
		return outs
	case "fmt.Sprint":
		if c[0].op == OList && len(c[0].args) == 1 {
			return ret(e.fmtArg(s, 'v', c[0].args[0]))
		}
		return ret(mkCall("fmt.Sprint", str, e.snapshot(s, c[0])))
	case "fmt.Errorf":
		return ret(mkCall("fmt.Errorf", T, e.sprintf(s, args[0], c[1])))
	case "errors.As":
		// args[1] points to a variable of the type looked for
		x, p := args[0], args[1]
		for p.op == OIface {
			p = p.args[0]
		}
		pt, isP := (*types.Pointer)(nil), false
		if p.typ != nil {
			pt, isP = p.typ.Underlying().(*types.Pointer)
		}
		if !isP || p.op != OObj {
			break
		}
		errT := types.Universe.Lookup("error").Type()
		v, ok, t := assertTo(s, x, errT, pt.Elem())
		var outs []*Out
		s2 := s.clone()
		if t != no && e.assume(s, termCond(ok)) {
			e.store(s, p, v, pos, r.fn)
			outs = append(outs, &Out{st: s, ret: []*Term{tTrue}})
		}
		if t != yes && e.assume(s2, termCond(ok).not()) {
			if s2.isNil(x) == yes || x.op == OCall && x.s == "errors.New" {
				return append(outs, &Out{st: s2, ret: []*Term{tFalse}})
			}
			// an error wrapped in this one
			s3 := s2.clone()
			w := mkCall("errors.As", types.Typ[types.Bool], x, mkStr(typeName(pt.Elem())))
			s2.addFact(w, false)
			outs = append(outs, &Out{st: s2, ret: []*Term{tFalse}})
			s3.addFact(w, true)
			in := mkCall("errors.As", pt.Elem(), x, p)
			s3.addFact(mkEq(in, tNil).atom, false)
			e.store(s3, p, in, pos, r.fn)
			outs = append(outs, &Out{st: s3, ret: []*Term{tTrue}})
		}
		return outs
	case "errors.New":
		return ret(mkCall("errors.New", T, args[0]))
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		var d *Term
		switch name {
		case "fmt.Fprintf":
			d = e.sprintf(s, args[1], c[2])
		case "io.WriteString":
			d = args[1]
		default:
			d = mkCall("fmt.Sprint", str, e.snapshot(s, c[1]))
			if c[1].op == OList && len(c[1].args) == 1 {
				d = e.fmtArg(s, 'v', c[1].args[0])
			}
			if name == "fmt.Fprintln" {
				d = mkConcat(d, mkStr("\n"))
			}
		}
		if r.writeTo(s, args[0], d, pos) {
			return ret(spread(mkCall("written", T, args[0]), ts)...)
		}
		e.checkLeak(s, args, pos)
		return r.answer(s, "ext:"+name, args, sig, pos)
	case "fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "log.Fatal", "log.Fatalf":
		e.checkLeak(s, args, pos)
		return r.answer(s, "ext:"+name, []*Term{e.printed(s, name, args, c)}, sig, pos)
	case "strconv.Itoa":
		return ret(itoa(args[0]))
	case "strconv.FormatInt":
		if n, ok := args[1].int(); ok && n == 10 {
			return ret(itoa(args[0]))
		}
	case "strconv.Quote":
		return ret(quote(args[0]))
	case "strconv.FormatBool":
		return ret(mkCall("fmt:%t", str, args[0]))
	case "strconv.Atoi", "strconv.ParseInt":
		if x, ok := args[0].str(); ok {
			if n, err := strconv.Atoi(x); err == nil {
				return ret(mkInt(int64(n)), tNil)
			}
		}
		if name == "strconv.ParseInt" {
			b, ok1 := args[1].int()
			z, ok2 := args[2].int()
			if !ok1 || !ok2 || b != 10 || (z != 64 && z != 0) {
				break
			}
		}
		t := mkCall("atoi", T, args[0])
		s2 := s.clone()
		var outs []*Out
		ec := mkEq(mkExtract(t, 1, ts[1]), tNil)
		if e.assume(s, ec) {
			outs = append(outs, &Out{st: s, ret: []*Term{mkExtract(t, 0, ts[0]), mkExtract(t, 1, ts[1])}})
		}
		if e.assume(s2, ec.not()) {
			outs = append(outs, &Out{st: s2, ret: []*Term{mkUnk("atoi-failed", ts[0]), mkExtract(t, 1, ts[1])}})
		}
		return outs
	// --- strings
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "html.EscapeString", "net/url.QueryEscape":
		if x, ok := args[0].str(); ok {
			switch name {
			case "strings.ToLower":
				return ret(mkStr(strings.ToLower(x)))
			case "strings.ToUpper":
				return ret(mkStr(strings.ToUpper(x)))
			case "strings.TrimSpace":
				return ret(mkStr(strings.TrimSpace(x)))
			case "html.EscapeString":
				return ret(mkStr(html.EscapeString(x)))
			case "net/url.QueryEscape":
				return ret(mkStr(url.QueryEscape(x)))
			}
		}
		return ret(mkCall(name, str, args[0]))
	case "html/template.HTMLEscapeString", "text/template.HTMLEscapeString":
		if x, ok := args[0].str(); ok {
			return ret(mkStr(html.EscapeString(x)))
		}
		return ret(mkCall("html.EscapeString", str, args[0]))
	case "strings.EqualFold":
		if k, ok := args[1].str(); ok {
			return ret(mkCall("foldeq", types.Typ[types.Bool], args[0], mkStr(strings.ToLower(k))))
		}
		if k, ok := args[0].str(); ok {
			return ret(mkCall("foldeq", types.Typ[types.Bool], args[1], mkStr(strings.ToLower(k))))
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok1 := args[0].str()
		b, ok2 := args[1].str()
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return ret(mkBool(strings.HasPrefix(a, b)))
			case "strings.HasSuffix":
				return ret(mkBool(strings.HasSuffix(a, b)))
			default:
				return ret(mkBool(strings.Contains(a, b)))
			}
		}
		if x, y := padded(args[0]), padded(args[1]); name == "strings.Contains" && x != nil && y != nil {
			sp := mkStr(" ")
			if t, ok := y.str(); ok && !strings.Contains(t, " ") || !ok && s.is(mkCall(name, types.Typ[types.Bool], y, sp)) == no {
				l := mkCall("strings.Split", types.NewSlice(str), x, sp)
				return ret(mkExists(l, condTerm(mkEq(tHole, y))))
			}
		}
		return ret(mkCall(name, types.Typ[types.Bool], args...))
	case "strings.ContainsRune", "strings.ContainsAny":
		if name == "strings.ContainsRune" {
			if n, ok := args[1].int(); ok {
				return ret(mkCall("strings.Contains", types.Typ[types.Bool], args[0], mkStr(string(rune(n)))))
			}
		} else if k, ok := args[1].str(); ok && len(k) == 1 {
			return ret(mkCall("strings.Contains", types.Typ[types.Bool], args[0], args[1]))
		}
	case "strings.Index":
		t := mkCall("strings.Index", T, args...)
		return r.indexSplit(s, t, mkCall("strings.Contains", types.Typ[types.Bool], args...))
	case "strings.IndexByte", "strings.IndexRune":
		if n, ok := args[1].int(); ok {
			k := mkStr(string(rune(n)))
			t := mkCall("strings.Index", T, args[0], k)
			return r.indexSplit(s, t, mkCall("strings.Contains", types.Typ[types.Bool], args[0], k))
		}
	case "strings.Split":
		a, ok1 := args[0].str()
		b, ok2 := args[1].str()
		if ok1 && ok2 {
			var l []*Term
			for _, x := range strings.Split(a, b) {
				l = append(l, mkStr(x))
			}
			return ret(mkList(T, l...))
		}
		return ret(newSplit(s, T, args[0], args[1], pos))
	case "strings.SplitN":
		if n, ok := args[2].int(); ok && n < 0 {
			return ret(newSplit(s, T, args[0], args[1], pos))
		}
	case "strings.Cut":
		if t := rawBase64(args[0]); t != nil && args[1].key == `"="` {
			return ret(t, mkUnk("padding", str), mkUnk("padded", types.Typ[types.Bool]))
		}
		l := mkCall("strings.Split", types.NewSlice(str), args[0], args[1])
		has := mkCall("strings.Contains", types.Typ[types.Bool], args...)
		s2 := s.clone()
		var outs []*Out
		if e.assume(s, termCond(has)) {
			outs = append(outs, &Out{st: s, ret: []*Term{mkIdx(l, mkInt(0), str), mkCall("cut.after", str, args...), tTrue}})
		}
		if e.assume(s2, termCond(has).not()) {
			outs = append(outs, &Out{st: s2, ret: []*Term{args[0], mkStr(""), tFalse}})
		}
		return outs
	case "strings.Join":
		return ret(mkJoin(c[0], args[1]))
	case "bytes.TrimRight", "bytes.TrimSuffix", "bytes.TrimSpace":
		// what an encoder wrote, without the line's end
		if name == "bytes.TrimSpace" || args[1].key == `"\n"` || c[1].key == `"\n"` {
			if x := bytesAsStr(c[0]); x.op == OConcat && len(x.args) == 2 && x.args[1].key == `"\n"` && x.args[0].op == OCall && x.args[0].s == "json" {
				return ret(x.args[0])
			}
		}
	case "strings.TrimRight", "strings.TrimSuffix":
		if t := rawBase64(args[0]); t != nil && args[1].key == `"="` {
			n, ok := mkLen(args[0].args[1]).int()
			if name == "strings.TrimRight" || ok && n%3 == 2 {
				return ret(t)
			}
		}
	case "strings.Replace", "strings.ReplaceAll":
		if t := rawBase64(args[0]); t != nil && args[1].key == `"="` && args[2].key == `""` {
			if name == "strings.ReplaceAll" {
				return ret(t)
			}
			if n, ok := args[3].int(); ok && n < 0 {
				return ret(t)
			}
		}
	case "(*strings.Builder).WriteString", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write":
		r.writeTo(s, args[0], bytesAsStr(c[1]), pos)
		return ret(mkUnk("n", ts[0]), tNil)
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		d := mkCall("conv:string", str, args[1])
		if n, ok := args[1].int(); ok {
			d = mkStr(string(rune(n)))
		}
		r.writeTo(s, args[0], d, pos)
		if len(ts) == 1 {
			return ret(tNil)
		}
		return ret(mkUnk("n", ts[0]), tNil)
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		v := s.mem[mkFieldAddr(args[0], "buf", nil)]
		if v == nil {
			v = mkStr("")
		}
		return ret(v)
	case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		o := mk(OObj, "obj:reader:"+r.ctx+"/"+r.e.p.off(pos), "reader", T)
		s.setMem(mkFieldAddr(o, "buf", nil), bytesAsStr(c[0]))
		return ret(o)
	case "(*strings.Reader).WriteTo", "(*bytes.Reader).WriteTo", "(*bytes.Buffer).WriteTo", "io.Copy":
		dst, src := args[len(args)-1], args[0]
		if name == "io.Copy" {
			dst, src = args[0], args[1]
		}
		if src.op == OIface {
			src = src.args[0]
		}
		if n := namedOf(src.typ); (isBuilder(src) || n != nil && n.Obj().Name() == "Reader") && src.op == OObj && !e.shared[src] {
			b := mkFieldAddr(src, "buf", nil)
			v := s.mem[b]
			if v == nil {
				v = mkStr("")
			}
			if r.writeTo(s, dst, v, pos) {
				s.setMem(b, mkStr(""))
				return ret(spread(mkCall("written", T, dst), ts)...)
			}
		}
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		v := s.mem[mkFieldAddr(args[0], "buf", nil)]
		if v == nil {
			v = mkStr("")
		}
		return ret(mkLen(v))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ret()
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		r.sharedBuffer(s, args[0], mkStr(""), pos)
		s.setMem(mkFieldAddr(args[0], "buf", nil), mkStr(""))
		return ret()
	// --- slices
	case "sort.Strings", "slices.Sort":
		r.sortInPlace(s, args[0], c[0], pos)
		return ret()
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		x, l := args[0], c[0]
		if x.op == OIface {
			x = x.args[0]
			l = e.content(s, x)
		}
		if r.ascending(s, name, x, args[1], pos) {
			r.sortInPlace(s, x, l, pos)
			return ret()
		}
	case "slices.Equal":
		if cnd, ok := sameLists(c[0], c[1]); ok {
			return ret(condTerm(cnd))
		}
	case "cmp.Less":
		if isIntT(args[0].typ) && isIntT(args[1].typ) {
			return ret(condTerm(mkLess(args[0], args[1], false)))
		}
	case "strings.Compare", "cmp.Compare", "bytes.Compare":
		if len(args) == 2 && isIntT(args[0].typ) && isIntT(args[1].typ) {
			return r.threeWay(s, args[0], args[1])
		}
		if len(args) == 2 && (isStringT(args[0].typ) || isStringT(args[1].typ) || isByteSlice(args[0].typ)) {
			cnd := mkEq(c[0], c[1])
			t := mkCall("compare", T, c[0], c[1])
			s2 := s.clone()
			var outs []*Out
			if e.assume(s, cnd) {
				outs = append(outs, &Out{st: s, ret: []*Term{mkInt(0)}})
			}
			if e.assume(s2, cnd.not()) {
				z := mkEq(t, mkInt(0))
				s2.addFact(z.atom, !z.pos)
				outs = append(outs, &Out{st: s2, ret: []*Term{t}})
			}
			return outs
		}
	case "slices.Contains":
		if c[0].op == OList {
			return r.inList(s, c[0], args[1])
		}
		return ret(condTerm(Cond{mkExists(stripSorted(c[0]), condTerm(mkEq(tHole, args[1]))), true}))
	case "maps.Copy":
		src := e.content(s, args[1])
		if src.op == ONil || src.op == OMap && len(src.args)%2 == 0 {
			kv := src.args
			if src.op == ONil {
				kv = nil
			}
			for i := 0; i+1 < len(kv); i += 2 {
				e.mapUpdate(s, args[0], kv[i], kv[i+1], pos, r.fn)
			}
			return ret()
		}
	case "maps.Clone":
		src := e.content(s, args[0])
		if src.op == ONil {
			return ret(tNil)
		}
		o := mk(OObj, "obj:"+r.ctx+"/"+r.fn.RelString(nil)+":clone@"+strconv.Itoa(int(pos))+s.round(), "", T)
		if src.op != OMap {
			src = mkMap(src, nil, T)
		}
		s.setMem(o, src)
		return ret(o)
	case "slices.Clone":
		if e.isOpaqueList(c[0]) {
			return ret(mkFresh(c[0], pos, T))
		}
		return ret(c[0])
	case "slices.Values", "maps.Keys":
		return ret(mkCall(name, T, c[0]))
	case "slices.Sorted", "slices.Collect":
		if x := args[0]; x.op == OCall && (x.s == "slices.Values" || x.s == "maps.Keys") {
			l := x.args[0]
			if l.op == ONil {
				return ret(tNil)
			}
			if x.s == "maps.Keys" {
				if kv, base := l.mapParts(); l.op == OMap && base == nil {
					var ks []*Term
					known := true
					for i := 0; i+1 < len(kv); i += 2 {
						ks = append(ks, kv[i])
						known = known && kv[i].op == OConst
					}
					if !known && len(ks) > 1 {
						break
					}
					l = mkList(T, ks...)
				} else {
					l = mkCall("copy", l.typ, l)
				}
			}
			o := mk(OObj, "obj:"+r.ctx+"/"+r.fn.RelString(nil)+":collect@"+strconv.Itoa(int(pos))+s.round(), "", T)
			if name == "slices.Sorted" {
				r.sortInPlace(s, o, l, pos)
			} else {
				s.setMem(o, l)
			}
			return ret(o)
		}
	case "(sort.StringSlice).Sort":
		r.sortInPlace(s, args[0], c[0], pos)
		return ret()
	case "sort.Sort", "sort.Stable":
		x := args[0]
		if x.op == OIface && x.args[0].op != OIface && typeName(x.ex.(types.Type)) == "sort.StringSlice" {
			r.sortInPlace(s, x.args[0], e.content(s, x.args[0]), pos)
			return ret()
		}
	case "sort.SearchStrings", "slices.BinarySearch":
		if l := c[0]; l.op == OCall && l.s == "sorted" {
			in := Cond{mkExists(stripSorted(l), condTerm(mkEq(tHole, args[1]))), true}
			t := mkCall("searched", types.Typ[types.Int], l, args[1])
			at := mkIdx(l, t, str)
			s2 := s.clone()
			var outs []*Out
			if e.assume(s, in) {
				s.addFact(mkLess(t, mkLen(stripSorted(l)), false).atom, mkLess(t, mkLen(stripSorted(l)), false).pos)
				s.addFact(mkLess(t, mkInt(0), false).atom, !mkLess(t, mkInt(0), false).pos)
				s.addFact(mkEq(at, args[1]).atom, mkEq(at, args[1]).pos)
				outs = append(outs, &Out{st: s, ret: []*Term{t, tTrue}[:len(ts)]})
			}
			if e.assume(s2, in.not()) {
				s2.addFact(mkLess(t, mkInt(0), false).atom, !mkLess(t, mkInt(0), false).pos)
				s2.addFact(mkEq(at, args[1]).atom, !mkEq(at, args[1]).pos)
				outs = append(outs, &Out{st: s2, ret: []*Term{t, tFalse}[:len(ts)]})
			}
			return outs
		}
	// --- encodings
	case "(*encoding/base64.Encoding).EncodeToString":
		return ret(mkCall("base64", str, args[0], bytesTerm(c[1])))
	case "(*encoding/base64.Encoding).EncodedLen":
		return ret(mkCall("base64len", types.Typ[types.Int], args[0], args[1]))
	case "(*encoding/base64.Encoding).Encode":
		// into a buffer that was made for it
		if x := args[1]; x.op == OObj && !e.shared[x] {
			if n, ok := x.ex.(*Term); ok && (n == mkCall("base64len", types.Typ[types.Int], args[0], mkLen(c[2])) || n == mkCall("base64len", types.Typ[types.Int], args[0], lenOfSlice(args[2]))) {
				s.setMem(x, mkCall("base64", str, args[0], bytesTerm(c[2])))
				return ret()
			}
		}
	case "(encoding/base64.Encoding).WithPadding", "(*encoding/base64.Encoding).WithPadding":
		if n, ok := args[1].int(); ok && n == -1 {
			switch args[0].key {
			case "encoding/base64.URLEncoding", "*encoding/base64.URLEncoding":
				return ret(rawURL())
			}
		}
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		v := e.jsonValue(s, args[0])
		t := mkCall("json", T, v)
		if plainJSON(args[0]) {
			return ret(mkCall("json", ts[0], v), tNil)
		}
		return r.mayFail(s, t, ts)
	case "encoding/json.Unmarshal":
		r.e.havocTo(s, args[1], mkCall("unjson", nil, c[0]))
		return ret(mkCall("unjson.err", T, c[0]))
	case "encoding/json.NewEncoder":
		return ret(mkCall("json.encoder", T, args[0]))
	case "(*encoding/json.Encoder).Encode":
		if args[0].op == OCall && args[0].s == "json.encoder" {
			if r.writeTo(s, args[0].args[0], mkConcat(mkCall("json", str, e.jsonValue(s, args[1])), mkStr("\n")), pos) {
				if x := stripIface(args[0].args[0]); isBuilder(x) && plainJSON(args[1]) { // neither can fail
					return ret(tNil)
				}
				return ret(mkCall("encode.err", T, args[0]))
			}
		}
	case "(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent":
		return ret()
	case "(encoding/json.Number).Int64":
		t := mkCall("num64", T, args[0])
		return r.mayFail(s, t, ts)
	// --- crypto
	case "crypto/sha256.Sum256":
		return ret(mkCall("sha256", T, c[0]))
	case "crypto/sha512.Sum384":
		return ret(mkCall("sha384", T, c[0]))
	case "crypto/sha512.Sum512":
		return ret(mkCall("sha512", T, c[0]))
	case "crypto/sha256.New", "crypto/sha512.New384", "crypto/sha512.New":
		k := map[string]string{"crypto/sha256.New": "sha256", "crypto/sha512.New384": "sha384", "crypto/sha512.New": "sha512"}[name]
		o := mk(OObj, "obj:hash:"+k+":"+r.ctx+"/"+r.e.p.off(pos), k, T)
		s.setMem(o, mkStr(""))
		return ret(o)
	case "crypto/subtle.ConstantTimeCompare":
		cnd := mkEq(c[0], c[1])
		s2 := s.clone()
		var outs []*Out
		if e.assume(s, cnd) {
			outs = append(outs, &Out{st: s, ret: []*Term{mkInt(1)}})
		}
		if e.assume(s2, cnd.not()) {
			outs = append(outs, &Out{st: s2, ret: []*Term{mkInt(0)}})
		}
		return outs
	case "crypto/hmac.Equal", "bytes.Equal":
		return ret(condTerm(mkEq(c[0], c[1])))
	case "crypto/rand.Read":
		e.havocTo(s, args[0], randomFor(args[0], nil))
		t := mkCall("crypto/rand.Read", T)
		return r.mayFail2(s, t, ts, 1)
	case "io.ReadFull", "io.ReadAtLeast":
		if args[0].key == "crypto/rand.Reader" || strings.Contains(args[0].key, "crypto/rand.Reader") {
			var min *Term
			if len(args) > 2 {
				min = args[2]
			}
			e.havocTo(s, args[1], randomFor(args[1], min))
			return r.mayFail2(s, mkCall("crypto/rand.Read", T), ts, 1)
		}
	// --- time
	case "time.Now":
		if e.outer { // an earlier instant than any request's
			return ret(mkCall("setup:time.Now", T))
		}
	case "time.Unix":
		if n, ok := args[1].int(); ok && n == 0 {
			return ret(mkCall("time.Unix", T, args[0]))
		}
	case "(time.Time).Unix":
		return ret(unixOf(args[0]))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round", "(time.Time).In":
		if len(args) == 1 || name == "(time.Time).In" {
			return ret(args[0])
		}
		if n, ok := args[1].int(); ok && n <= 0 { // Round(0) only strips the monotonic clock
			return ret(args[0])
		}
	case "(time.Time).Truncate":
		// times are compared by the second
		if n, ok := args[1].int(); ok && n <= 1e9 && (n <= 0 || 1e9%n == 0) {
			return ret(args[0])
		}
	case "(time.Time).Add":
		return ret(mkCall("time.Add", T, args[0], args[1]))
	case "(time.Time).Before":
		return ret(condTerm(mkLess(unixOf(args[0]), unixOf(args[1]), false)))
	case "(time.Time).After":
		return ret(condTerm(mkLess(unixOf(args[1]), unixOf(args[0]), false)))
	case "(time.Time).Compare":
		return r.threeWay(s, unixOf(args[0]), unixOf(args[1]))
	case "(time.Time).Sub":
		m, c, ok := sumParts(mkAdd(unixOf(args[0]), unixOf(args[1]), -1))
		if ok {
			for x := range m {
				m[x] *= 1e9
			}
			return ret(mkSum(m, c*1e9))
		}
	case "(time.Duration).Seconds":
		if d := dividedBy(args[0], 1e9); d != nil {
			return ret(mkCall("seconds", T, d))
		}
	case "(time.Time).Equal":
		return ret(condTerm(mkEq(unixOf(args[0]), unixOf(args[1]))))
	// --- jwt
	case "github.com/golang-jwt/jwt.Parse":
		return r.jwtParse(s, args[0], nil, args[1], pos)
	case "(*github.com/golang-jwt/jwt.Parser).Parse":
		if r.plainParser(s, args[0]) {
			return r.jwtParse(s, args[1], nil, args[2], pos)
		}
	case "github.com/golang-jwt/jwt.ParseWithClaims":
		// a map is filled in place
		if args[1].op == OIface && typeName(args[1].ex.(types.Type)) == "jwt.MapClaims" && args[1].args[0].op == OObj {
			if m := e.content(s, args[1].args[0]); m.op == OMap && len(m.args) == 0 {
				return r.jwtParse(s, args[0], args[1].args[0], args[2], pos)
			}
		}
	case "github.com/golang-jwt/jwt.New", "github.com/golang-jwt/jwt.NewWithClaims":
		return r.jwtNew(s, args, T, pos)
	case "(*github.com/golang-jwt/jwt.Token).SignedString":
		t := mkCall("jwt.signed", T, e.snapshot(s, args[0]), e.snapshot(s, args[1]))
		return ret(spread(t, ts)...)
	}
	// default: a pure function of its arguments, or an unknown effect
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Path()
	}
	sa := make([]*Term, len(args))
	for i, a := range args {
		sa[i] = e.snapshot(s, a)
	}
	if purePkgs[pk] {
		if len(ts) == 0 {
			switch pk {
			case "sort", "slices", "encoding/binary", "encoding/hex", "encoding/base64", "crypto/subtle", "maps":
			default:
				if sig.Recv() == nil && fn.Name() != "init" { // nothing but its effect on the package's own state
					e.undecided(pos, "%s changes the state of its package", name)
				}
			}
			r.havocArgs(s, name, args)
			return ret()
		}
		for _, a := range args {
			if a.op == OClosure || a.op == OFunc {
				e.undecided(pos, "%s with a function argument", name)
			}
		}
		return ret(spread(mkCall(name, T, sa...), ts)...)
	}
	r.havocArgs(s, name, args)
	return r.answer(s, "ext:"+name, args, sig, pos)
}

func reqArgs(args []*Term) []*Term {
	if args[0].op == OParam && args[0].s == "r" {
		return args[1:]
	}
	return args
}

func itoa(x *Term) *Term {
	if n, ok := x.int(); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	return mkCall("itoa", types.Typ[types.String], x)
}

func quote(x *Term) *Term {
	if k, ok := x.str(); ok {
		return mkStr(strconv.Quote(k))
	}
	return mkCall("quote", types.Typ[types.String], x)
}

func mkJoin(l, sep *Term) *Term {
	if l.op == ONil {
		return mkStr("")
	}
	if l.op == OList {
		var ts []*Term
		for i, a := range l.args {
			if i > 0 {
				ts = append(ts, sep)
			}
			ts = append(ts, a)
		}
		return mkConcat(ts...)
	}
	if l.op == OCall && (l.s == "strings.Split") && l.args[1] == sep {
		return l.args[0]
	}
	if l.op == OCall && l.s == "copy" {
		return mkJoin(l.args[0], sep)
	}
	if k, ok := sep.str(); ok && k == "" {
		if t := joinFold(l); t != nil {
			return t
		}
		if l.op == OCall && l.s == "append" && len(l.args) == 2 {
			return mkConcat(mkJoin(l.args[0], sep), mkJoin(l.args[1], sep))
		}
	}
	return mkCall("strings.Join", types.Typ[types.String], l, sep)
}

// joinFold: a list that was built by a loop, joined, is a text that was built by the loop.
func joinFold(l *Term) *Term {
	fi, ok := l.ex.(foldInfo)
	if l.op != OFold || !ok || l.s != "fold" {
		return nil
	}
	var init *Term
	switch fi.init.op {
	case ONil, OList:
		init = mkJoin(fi.init, mkStr(""))
	default:
		return nil
	}
	acc := mk(OHole, "acc", "acc", nil)
	var steps []foldStep
	for _, st := range fi.steps {
		var v *Term
		switch {
		case st.val == acc:
			v = acc
		case st.val.op == OCall && st.val.s == "append" && len(st.val.args) == 2 && st.val.args[0] == acc && st.val.args[1].op == OList:
			v = mkConcat(append([]*Term{acc}, st.val.args[1].args...)...)
		default:
			return nil
		}
		steps = append(steps, foldStep{st.conds, v})
	}
	return mkFoldOf(tString, fi.list, init, acc, steps, true)
}

// lenOfSlice is the length of a part of an array with constant bounds.
func lenOfSlice(x *Term) *Term {
	if x.op == OSliceOf {
		lo, ok1 := x.args[1].int()
		hi, ok2 := x.args[2].int()
		if ok1 && ok2 {
			return mkInt(hi - lo)
		}
	}
	return nil
}

func rawURL() *Term { return mk(OUnk, "encoding/base64.RawURLEncoding", "", nil) }

// rawBase64: x is padded base64url text; the result is the same without padding.
func rawBase64(x *Term) *Term {
	if x.op == OCall && x.s == "base64" && x.args[0].key == "encoding/base64.URLEncoding" {
		return mkCall("base64", types.Typ[types.String], encTerm("RawURLEncoding"), x.args[1])
	}
	return nil
}

func encTerm(n string) *Term {
	return mk(OSel, "encoding/base64."+n, "global", nil)
}

func bytesTerm(x *Term) *Term { return x }

// indexSplit: strings.Index(x, y) is -1 exactly when x does not contain y.
// padded: x of " "+x+" ".
func padded(t *Term) *Term {
	if k, ok := t.str(); ok {
		if len(k) >= 2 && k[0] == ' ' && k[len(k)-1] == ' ' {
			return mkStr(k[1 : len(k)-1])
		}
		return nil
	}
	if t.op != OConcat || len(t.args) < 2 {
		return nil
	}
	n := len(t.args)
	a, ok1 := t.args[0].str()
	b, ok2 := t.args[n-1].str()
	if !ok1 || !ok2 || !strings.HasPrefix(a, " ") || !strings.HasSuffix(b, " ") {
		return nil
	}
	parts := append([]*Term{mkStr(a[1:])}, t.args[1:n-1]...)
	return mkConcat(append(parts, mkStr(b[:len(b)-1]))...)
}

func (r *run) indexSplit(s *State, t, contains *Term) []*Out {
	s2 := s.clone()
	var outs []*Out
	c := termCond(contains)
	if r.e.assume(s, c) {
		s.addFact(mkLess(t, mkInt(0), false).atom, mkLess(t, mkInt(0), false).pos == false)
		outs = append(outs, &Out{st: s, ret: []*Term{t}})
	}
	if r.e.assume(s2, c.not()) {
		outs = append(outs, &Out{st: s2, ret: []*Term{mkInt(-1)}})
	}
	return outs
}

// inList: membership in a list whose elements are known.
func (r *run) inList(s *State, l, x *Term) []*Out {
	var outs []*Out
	cur := s
	for _, a := range l.args {
		c := mkEq(a, x)
		switch cur.cond(c) {
		case yes:
			return append(outs, &Out{st: cur, ret: []*Term{tTrue}})
		case no:
			continue
		}
		hit := cur.clone()
		r.e.assume(hit, c)
		outs = append(outs, &Out{st: hit, ret: []*Term{tTrue}})
		cur = cur.clone()
		r.e.assume(cur, c.not())
	}
	return append(outs, &Out{st: cur, ret: []*Term{tFalse}})
}

// ascending: is the function passed to a sort the natural order of texts?
func (r *run) ascending(s *State, name string, list, less *Term, pos token.Pos) bool {
	if less.op != OFunc && less.op != OClosure || less.fn == nil {
		return false
	}
	if strings.HasPrefix(name, "slices.") {
		n := less.fn.RelString(nil)
		if less.fn.Origin() != nil {
			n = less.fn.Origin().RelString(nil)
		}
		if n == "strings.Compare" || n == "cmp.Compare" {
			return true
		}
		if len(less.fn.Params) != 2 || len(less.fn.Blocks) != 1 {
			return false
		}
		// func(a, b string) int { return strings.Compare(a, b) }
		b := less.fn.Blocks[0].Instrs
		if len(b) != 2 {
			return false
		}
		c, ok := b[0].(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 || c.Call.Args[0] != ssa.Value(less.fn.Params[0]) || c.Call.Args[1] != ssa.Value(less.fn.Params[1]) {
			return false
		}
		q := c.Call.StaticCallee().RelString(nil)
		return q == "strings.Compare" || strings.HasPrefix(q, "cmp.Compare")
	}
	it := types.Typ[types.Int]
	i, j := mkUnk("sort.i", it), mkUnk("sort.j", it)
	np := len(r.e.panics)
	outs := r.callFn(s.clone(), less.fn, []*Term{i, j}, less.args, pos)
	r.e.panics = r.e.panics[:np]
	ok := true
	n := 0
	for _, o := range outs {
		if o.panic != "" {
			continue
		}
		n++
		want := mkStrLess(mkIdx(r.e.content(s, list), i, types.Typ[types.String]), mkIdx(r.e.content(s, list), j, types.Typ[types.String]))
		if len(o.ret) != 1 || o.ret[0] != want {
			ok = false
		}
	}
	return ok && n > 0
}

func mkStrLess(a, b *Term) *Term {
	return mk(OBin, "("+a.key+"<"+b.key+")", "<", types.Typ[types.Bool], a, b)
}

func (r *run) sortInPlace(s *State, x, c *Term, pos token.Pos) {
	e := r.e
	if c.op == OList {
		all := true
		var vs []string
		for _, a := range c.args {
			v, ok := a.str()
			all = all && ok
			vs = append(vs, v)
		}
		if all {
			sort.Strings(vs)
			var l []*Term
			for _, v := range vs {
				l = append(l, mkStr(v))
			}
			e.setContent(s, x, mkList(c.typ, l...))
			return
		}
	}
	if !e.outer && sharedOrigin(c) {
		s.emit("store", pos, r.fn, nil, x, mkCall("sorted", c.typ, c))
	}
	e.setContent(s, x, mkCall("sorted", c.typ, c))
}

// mayFail: either an error, or a result without one.
func (r *run) mayFail(s *State, t *Term, ts []types.Type) []*Out {
	return r.mayFail2(s, t, ts, len(ts)-1)
}

func (r *run) mayFail2(s *State, t *Term, ts []types.Type, ei int) []*Out {
	s2 := s.clone()
	var outs []*Out
	ec := mkEq(mkExtract(t, ei, ts[ei]), tNil)
	if s.cond(ec) != no {
		s.addFact(ec.atom, ec.pos)
		ret := spread(t, ts)
		ret[ei] = tNil
		outs = append(outs, &Out{st: s, ret: ret})
	}
	if s2.cond(ec) != yes {
		s2.addFact(ec.atom, !ec.pos)
		outs = append(outs, &Out{st: s2, ret: spread(t, ts)})
	}
	return outs
}

// randomFor: what a buffer holds after it was filled by the random generator; the length is kept when
// the whole of an array of known size is filled.
func randomFor(x, min *Term) *Term {
	if x.op == OIface {
		x = x.args[0]
	}
	if x.op == OSliceOf {
		lo, ok1 := x.args[1].int()
		hi, ok2 := x.args[2].int()
		at, ok3 := deref(x.args[0].typ).Underlying().(*types.Array)
		if ok1 && ok2 && ok3 && lo == 0 && hi == at.Len() {
			n := hi
			if min != nil {
				m, ok := min.int()
				if !ok {
					m = 0
				}
				if m < n {
					n = m
				}
			}
			return mkCall("random", nil, mkInt(n))
		}
		return mkCall("random.part", nil, x.args[1], x.args[2])
	}
	return mkCall("random.some", nil, mkLen(x))
}

func (e *Engine) havocTo(s *State, x, v *Term) {
	if x.op == OIface {
		x = x.args[0]
	}
	base := x
	if x.op == OSliceOf {
		base = x.args[0]
	}
	if rootOf(base).op != OObj {
		s.emit("store", token.NoPos, nil, nil, x, v)
		return
	}
	e.havoc(s, x, "x", nil)
	s.setMem(base, v)
}

func unixOf(t *Term) *Term {
	i64 := types.Typ[types.Int64]
	if t.op == OCall {
		switch t.s {
		case "time.Unix":
			return t.args[0]
		case "time.Add":
			if d := dividedBy(t.args[1], 1e9); d != nil {
				return mkAdd(unixOf(t.args[0]), d, 1)
			}
		}
	}
	return mkCall("unix", i64, t)
}

// ---- formatting

func (e *Engine) fmtArg(s *State, verb byte, a *Term) *Term {
	str := types.Typ[types.String]
	x := a
	var T types.Type
	if a.op == OIface {
		x = a.args[0]
		T = a.ex.(types.Type)
	} else {
		T = a.typ
	}
	if T == nil {
		return mkCall("fmt:%"+string(verb), str, e.snapshot(s, x))
	}
	// methods first
	if verb == 's' || verb == 'v' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			ms := types.NewMethodSet(T)
			for i := 0; i < ms.Len(); i++ {
				if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Name() == m && f.Type().(*types.Signature).Params().Len() == 0 {
					t := mkCall("errstr", str, x)
					if m == "String" {
						t = mkCall("str", str, e.snapshot(s, x))
					}
					if verb == 'q' {
						return quote(t)
					}
					return t
				}
			}
		}
	}
	if b, ok := T.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
			return x
		case b.Info()&types.IsString != 0 && verb == 'q':
			return quote(x)
		case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
			return itoa(x)
		}
	}
	if isByteSlice(T) && verb == 's' {
		return e.content(s, x)
	}
	return mkCall("fmt:%"+string(verb), str, e.snapshot(s, x))
}

// stringers replaces arguments printed through a String method of the repository by its result.
func (r *run) stringers(s *State, f, list *Term, pos token.Pos) []*Out {
	outs := []*Out{{st: s, ret: []*Term{list}}}
	format, ok := f.str()
	if !ok || list.op != OList {
		return outs
	}
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		v := format[i]
		if v == '%' {
			continue
		}
		if n >= len(list.args) {
			break
		}
		k := n
		n++
		a := list.args[k]
		if !strings.ContainsRune("svq", rune(v)) || a.op != OIface {
			continue
		}
		T := a.ex.(types.Type)
		nt := namedOf(T)
		if nt == nil || nt.Obj().Pkg() == nil || !ownPath(nt.Obj().Pkg().Path()) {
			continue
		}
		ms := r.e.p.prog.MethodSets.MethodSet(T)
		if ms.Lookup(nil, "Error") != nil {
			continue
		}
		sel := ms.Lookup(nil, "String")
		if sel == nil {
			continue
		}
		fn := r.e.p.prog.MethodValue(sel)
		if fn == nil || fn.Signature.Params().Len() != 0 || len(resultTypes(fn.Signature)) != 1 {
			continue
		}
		var next []*Out
		for _, o := range outs {
			if o.panic != "" {
				next = append(next, o)
				continue
			}
			for _, q := range r.callFn(o.st, fn, []*Term{a.args[0]}, nil, pos) {
				if q.panic != "" {
					next = append(next, q)
					continue
				}
				l := append([]*Term{}, o.ret[0].args...)
				l[k] = mkIface(q.ret[0], types.Typ[types.String])
				next = append(next, &Out{st: q.st, ret: []*Term{mkList(list.typ, l...)}})
			}
		}
		outs = next
	}
	return outs
}

func (e *Engine) sprintf(s *State, f, list *Term) *Term {
	str := types.Typ[types.String]
	format, ok := f.str()
	if !ok || (list.op != OList && list.op != ONil) {
		return mkCall("fmt.Sprintf", str, f, e.snapshot(s, list))
	}
	var parts []*Term
	n := 0
	lit := ""
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			lit += string(ch)
			continue
		}
		i++
		if i >= len(format) {
			break
		}
		v := format[i]
		if v == '%' {
			lit += "%"
			continue
		}
		if !strings.ContainsRune("sdvqt", rune(v)) || n >= len(list.args) {
			return mkCall("fmt.Sprintf", str, f, e.snapshot(s, list))
		}
		parts = append(parts, mkStr(lit))
		lit = ""
		parts = append(parts, e.fmtArg(s, v, list.args[n]))
		n++
	}
	parts = append(parts, mkStr(lit))
	return mkConcat(parts...)
}

func (e *Engine) printed(s *State, name string, args, c []*Term) *Term {
	switch {
	case strings.HasSuffix(name, "Printf"):
		return e.sprintf(s, args[0], c[1])
	case len(c) == 1 && c[0].op == OList && len(c[0].args) == 1:
		return e.fmtArg(s, 'v', c[0].args[0])
	}
	return mkCall(name, nil, e.snapshot(s, c[0]))
}

// ---- headers and form values

func canonKey(name string, k *Term) *Term {
	if s, ok := k.str(); ok && strings.Contains(name, "http.Header") {
		return mkStr(textproto.CanonicalMIMEHeaderKey(s))
	}
	return k
}

func (r *run) headerGet(s *State, name string, args []*Term, T types.Type) []*Out {
	e := r.e
	k := canonKey(name, args[1])
	m := e.content(s, args[0])
	ret := func(t *Term) []*Out { return []*Out{{st: s, ret: []*Term{t}}} }
	base := func(b *Term) *Term {
		switch {
		case b.op == OSel && b.s == "Header":
			if b.args[0].op == OParam {
				return mkCall("hdr", T, k)
			}
		case b.op == OSel && b.s == "Form":
			return mkCall("form", T, k)
		case b.op == OSel && b.s == "PostForm":
			return mkCall("post", T, k)
		case b.op == OCall && b.s == "queryvalues":
			return mkCall("query", T, k)
		}
		return mkCall("get", T, b, k)
	}
	if m.op == OMap {
		kv, b := m.mapParts()
		for i := len(kv) - 2; i >= 0; i -= 2 {
			if kv[i] == k {
				return ret(firstOf(kv[i+1]))
			}
			if kv[i].op != OConst || k.op != OConst {
				return ret(mkCall("get", T, m, k))
			}
		}
		if b == nil {
			return ret(mkStr(""))
		}
		return ret(base(b))
	}
	return ret(base(m))
}

func firstOf(v *Term) *Term {
	if v.op == OList {
		if len(v.args) > 0 {
			return v.args[0]
		}
		return mkStr("")
	}
	return v
}

func (r *run) headerSet(s *State, name string, args []*Term, pos token.Pos) {
	e := r.e
	k := canonKey(name, args[1])
	m := args[0]
	e.wroteForeign(m, pos)
	e.wroteCredential(m, k, pos)
	cur := e.content(s, m)
	addr := m
	if m.op != OObj {
		addr = mkContent(m)
	}
	op := name[strings.LastIndex(name, ".")+1:]
	if m.op == OSel && m.s == "Header" && !e.outer {
		switch op {
		case "Del":
			s.emit("reqheader:del", pos, r.fn, nil, k)
		case "Add":
			s.emit("reqheader:add", pos, r.fn, nil, k, args[2])
		default:
			s.emit("reqheader", pos, r.fn, nil, k, args[2])
		}
	} else if m.op == OInv && m.s == "Header" || m.op == OObj && !e.shared[m] {
	} else if !e.outer {
		s.emit("store", pos, r.fn, nil, m, k)
	}
	if cur.op != OMap {
		if m.op == OInv && m.s == "Header" {
			cur = mkMap(nil, nil, m.typ)
		} else {
			cur = mkMap(cur, nil, m.typ)
		}
	}
	kv, base := cur.mapParts()
	if op == "Del" {
		var n []*Term
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i] != k {
				n = append(n, kv[i], kv[i+1])
			}
		}
		s.setMem(addr, mkMap(base, n, cur.typ))
		return
	}
	v := args[2]
	if op == "Add" {
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i] == k {
				old := kv[i+1]
				if old.op == OList {
					v = mkList(nil, append(append([]*Term{}, old.args...), v)...)
				} else {
					v = mkList(nil, old, v)
				}
			}
		}
	}
	s.setMem(addr, mapSet(cur, k, v))
}

// ---- json

func plainJSON(v *Term) bool {
	var T types.Type
	if v.op == OIface {
		T = v.ex.(types.Type)
	} else {
		T = v.typ
	}
	return T != nil && plainType(T, 0)
}

func plainType(T types.Type, d int) bool {
	if d > 4 {
		return false
	}
	ms := types.NewMethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "MarshalJSON" || n == "MarshalText" {
			return false
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat == 0
	case *types.Pointer:
		return plainType(u.Elem(), d+1)
	case *types.Slice:
		return plainType(u.Elem(), d+1)
	case *types.Map:
		return isStringT(u.Key()) && plainType(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() && !plainType(u.Field(i).Type(), d+1) {
				return false
			}
		}
		return true
	case *types.Interface:
		return u.NumMethods() == 0
	}
	return false
}

// jsonValue renders what is encoded, by JSON names.
func (e *Engine) jsonValue(s *State, v *Term) *Term {
	x := e.snapshot(s, v)
	T := v.typ
	if v.op == OIface {
		T = v.ex.(types.Type)
	}
	if T == nil {
		return x
	}
	st := structOf(T)
	if st == nil {
		return x
	}
	type ent struct {
		name string
		val  *Term
	}
	var es []ent
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		parts := strings.Split(tag, ",")
		n := parts[0]
		if n == "-" {
			continue
		}
		if n == "" {
			n = f.Name()
		}
		fv := e.selValue(s, x, fieldName(st, i), f.Type())
		for _, o := range parts[1:] {
			if o == "omitempty" {
				n += "?"
			} else if o != "" {
				n += "," + o
			}
		}
		es = append(es, ent{n, fv})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
	var names []string
	var vals []*Term
	for _, x := range es {
		names = append(names, x.name)
		vals = append(vals, x.val)
	}
	return mkStruct("object", names, nil, vals)
}

// ---- hashes

func (r *run) hashMethod(s *State, f *Term, m string, args []*Term, ts []types.Type) []*Out {
	if f.op != OObj || !strings.HasPrefix(f.s, "sha") {
		return nil
	}
	switch m {
	case "Write":
		s.setMem(f, mkConcat(s.mem[f], r.e.content(s, args[0])))
		return []*Out{{st: s, ret: []*Term{mkUnk("n", ts[0]), tNil}}}
	case "Sum":
		if args[0].op == ONil {
			return []*Out{{st: s, ret: []*Term{mkCall(f.s, nil, s.mem[f])}}}
		}
	case "Reset":
		s.setMem(f, mkStr(""))
		return []*Out{{st: s}}
	case "Size":
		if n := map[string]int64{"sha256": 32, "sha384": 48, "sha512": 64}[f.s]; n > 0 {
			return []*Out{{st: s, ret: []*Term{mkInt(n)}}}
		}
	}
	return nil
}

// ---- jwt

const (
	jwtMalformed    = 1
	jwtUnverifiable = 2
)

// jwtParse models jwt.Parse (golang-jwt v3.2): the text is malformed; or no usable method, key
// function not asked; or the key function fails; or the token verifies under the key and its time
// claims hold; or some other validation fails. The error, if any, is always a *jwt.ValidationError.
func (r *run) jwtParse(s *State, text, into, kf *Term, pos token.Pos) []*Out {
	e := r.e
	jp := e.p.typeOfExt("github.com/golang-jwt/jwt", "ValidationError")
	tokT := types.NewPointer(e.p.typeOfExt("github.com/golang-jwt/jwt", "Token"))
	mcT := e.p.typeOfExt("github.com/golang-jwt/jwt", "MapClaims")
	tok := mkCall("jwt.token", tokT, text)
	claims := mkCall("jwt.claims", mcT, text)
	errT := types.NewPointer(jp)
	mkErr := func(s *State, kind string, bits map[int64]bool, inner *Term) *Term {
		o := mk(OObj, "obj:jwterr:"+kind+":"+r.ctx+"/"+r.e.p.off(pos), "", errT)
		n := mkCall("jwt.errors", types.Typ[types.Uint32], mkStr(kind), text)
		for k, v := range bits {
			s.addFact(mkCall("bit", types.Typ[types.Bool], n, mkInt(k)), v)
		}
		s.setMem(mkFieldAddr(o, "Errors", nil), n)
		s.setMem(mkFieldAddr(o, "Inner", nil), inner)
		return mkIface(o, errT)
	}
	setTok := func(s *State, valid *Term) {
		held := claims
		if into != nil {
			s.setMem(into, claims)
			held = into
		}
		s.setMem(mkFieldAddr(tok, "Claims", nil), mkIface(held, mcT))
		s.setMem(mkFieldAddr(tok, "Valid", nil), valid)
	}
	var outs []*Out
	add := func(s *State, t, err *Term) { outs = append(outs, &Out{st: s, ret: []*Term{t, err}}) }
	okAtom := mkCall("jwt.wellformed", types.Typ[types.Bool], text)
	// malformed
	a := s.clone()
	if a.truth(okAtom) != yes {
		a.addFact(okAtom, false)
		if into != nil {
			a.setMem(into, mk(OUnk, "?claims("+text.key+")", "claims", mcT))
		}
		a1 := a.clone()
		inner := mkCall("jwt.inner", nil, text)
		add(a1, tNil, mkErr(a1, "malformed", map[int64]bool{jwtMalformed: true, jwtUnverifiable: false}, inner))
		a2 := a.clone()
		in2 := mkIface(mkCall("jwt.failure", types.NewPointer(types.Typ[types.String]), text), types.NewPointer(types.Typ[types.String]))
		setTok(a2, tFalse)
		add(a2, mk(OUnk, "?token("+text.key+")", "token", tokT), mkErr(a2, "unverifiable", map[int64]bool{jwtMalformed: false, jwtUnverifiable: true}, in2))
	}
	if s.truth(okAtom) == no {
		return outs
	}
	s.addFact(okAtom, true)
	setTok(s, tFalse)
	// ask the key function
	var kouts []*Out
	switch kf.op {
	case OClosure, OFunc:
		if kf.op == OFunc && kf.fn == nil {
			e.undecided(pos, "key function of jwt.Parse")
			return outs
		}
		kouts = r.callFn(s, kf.fn, []*Term{tok}, kf.args, pos)
	default:
		e.undecided(pos, "key function of jwt.Parse is not known: %s", kf.key)
		return outs
	}
	for _, o := range kouts {
		if o.panic != "" {
			outs = append(outs, o)
			continue
		}
		key, kerr := o.ret[0], o.ret[1]
		if x := o.st.isNil(kerr); x != yes {
			f := o.st.clone()
			if x == unk {
				f.addFact(mkEq(kerr, tNil).atom, false)
			}
			add(f, tok, mkErr(f, "keyerr", map[int64]bool{jwtMalformed: false, jwtUnverifiable: true}, kerr))
			if x == no {
				continue
			}
			o.st.addFact(mkEq(kerr, tNil).atom, true)
		}
		k := key
		if k.op == OIface {
			k = k.args[0]
		}
		ver := mkVerified(text, k)
		good := o.st.clone()
		good.addFact(ver, true)
		setTok(good, tTrue)
		add(good, tok, tNil)
		bad := o.st
		bad.addFact(ver, false)
		add(bad, tok, mkErr(bad, "invalid", map[int64]bool{jwtMalformed: false, jwtUnverifiable: false}, mkCall("jwt.inner", nil, text)))
	}
	return outs
}

// plainParser: a parser that does what jwt.Parse does.
func (r *run) plainParser(s *State, p *Term) bool {
	if p.op != OObj || r.e.shared[p] || p.typ == nil {
		return false
	}
	pt, ok := p.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		v := r.e.load(s, mkFieldAddr(p, fieldName(st, i), nil), st.Field(i).Type())
		if v != zero(st.Field(i).Type()) {
			return false
		}
	}
	return true
}

// mkVerified: the text is a token whose signature verifies under key and whose time claims hold.
func mkVerified(text, key *Term) *Term {
	return mkCall("jwt.verified", types.Typ[types.Bool], text, key)
}

func (p *Program) typeOfExt(pkg, name string) types.Type {
	tp := p.extPkg(pkg)
	if tp == nil {
		return types.Typ[types.Invalid]
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return types.Typ[types.Invalid]
	}
	return o.Type()
}

func (r *run) jwtNew(s *State, args []*Term, T types.Type, pos token.Pos) []*Out {
	mcT := r.e.p.typeOfExt("github.com/golang-jwt/jwt", "MapClaims")
	k := r.ctx + "/" + r.e.p.off(pos)
	o := mk(OObj, "obj:jwt:"+k, "", T)
	var claims *Term
	if len(args) == 2 {
		claims = args[1]
	} else {
		m := mk(OObj, "obj:jwtclaims:"+k, "", mcT)
		s.setMem(m, mkMap(nil, nil, mcT))
		claims = mkIface(m, mcT)
	}
	h := mk(OObj, "obj:jwthdr:"+k, "", types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)))
	s.setMem(h, mkMap(nil, []*Term{mkStr("alg"), mkInv(args[0], "Alg", types.Typ[types.String]), mkStr("typ"), mkStr("JWT")}, h.typ))
	s.setMem(mkFieldAddr(o, "Method", nil), args[0])
	s.setMem(mkFieldAddr(o, "Claims", nil), claims)
	s.setMem(mkFieldAddr(o, "Header", nil), h)
	s.setMem(mkFieldAddr(o, "Raw", nil), mkStr(""))
	s.setMem(mkFieldAddr(o, "Signature", nil), mkStr(""))
	s.setMem(mkFieldAddr(o, "Valid", nil), tFalse)
	return []*Out{{st: s, ret: []*Term{o}}}
}

var _ = big.NewInt

// newSplit is strings.Split(x, sep): a new list, whatever was written to the lists of earlier calls.
func newSplit(s *State, T types.Type, x, sep *Term, pos token.Pos) *Term {
	t := mkCall("strings.Split", T, x, sep)
	if v := s.mem[mkContent(t)]; v != nil {
		if !v.mentionsAny(func(y *Term) bool { return y.op == OAcc }) {
			t = mkFresh(t, pos, T)
		}
		s.delMem(mkContent(t)) // in a loop: written by an earlier iteration
	}
	return t
}
