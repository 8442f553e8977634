package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The entry points.

var grantCtors = []string{"AuthorizationCode", "RefreshToken", "Password", "ClientCredentials", "JWT"}

func (c *Check) view(name string) *View {
	if v := c.views[name]; v != nil {
		return v
	}
	switch name {
	case "te", "rp", "rps", "ae", "complete", "cancel":
		return c.endpointView(name)
	}
	for _, g := range grantCtors {
		if name == g {
			return c.grantView(g)
		}
	}
	panic("unknown view " + name)
}

func secretTerm(t *Term) bool {
	switch t.op {
	case OCall:
		switch t.s {
		case "form", "post", "query":
			if k, ok := t.args[len(t.args)-1].str(); ok {
				return k == "password" || k == "client_secret"
			}
			return len(t.args) > 0
		case "hdr":
			return t.args[0].key == `"Authorization"`
		case "queryvalues":
			return true
		}
	case OExtract:
		return t.s == "1" && t.args[0].op == OCall && t.args[0].s == "basic"
	case OParam:
		return t.s == "r"
	case OSel:
		return false // see secretFree
	}
	return false
}

// secretFree: parts of a request that hold no secret although the request does.
func secretFree(t *Term) bool {
	if t.op != OSel || !t.args[0].mentionsAny(func(x *Term) bool { return x.op == OParam && x.s == "r" }) {
		return false
	}
	switch t.s {
	case "Form", "PostForm", "Header", "Body", "RawQuery", "RequestURI", "MultipartForm", "URL", "User":
		return false
	}
	return true
}

// grantView runs a grant's constructor, then the function it registers, for an arbitrary request.
func (c *Check) grantView(ctor string) *View {
	fn := c.p.fn("grant", ctor)
	e, outs := c.outer(fn)
	c.prepare(e)
	if len(outs) != 1 || outs[0].panic != "" || len(outs[0].ret) != 1 {
		e.undec["constructor grant."+ctor+" cannot be followed"] = true
		return c.finish(ctor, e, nil, nil)
	}
	s := outs[0].st
	h := outs[0].ret[0]
	c.memo["type:"+ctor] = e.load(s, mkFieldAddr(h, "Type", nil), types.Typ[types.String])
	ft := c.p.typeOf("grant", "GrantHandlerFunc")
	f := e.load(s, mkFieldAddr(h, "Func", nil), ft)
	return c.runFunc(ctor, e, f, s, "r", "c", "sdi", "logger", "now")
}

// prepare sets what the engine watches while it runs request code.
func (c *Check) prepare(e *Engine) {
	e.secret = secretTerm
}

// runFunc runs a function value with opaque arguments.
func (c *Check) runFunc(name string, e *Engine, f *Term, s *State, names ...string) *View {
	if f.fn == nil || f.fn.Blocks == nil {
		e.undec["function of "+name+" is not known: "+f.key] = true
		return c.finish(name, e, nil, nil)
	}
	var args []*Term
	for i, p := range f.fn.Params {
		n := argParam(i, p.Type()).s
		if i < len(names) {
			n = names[i]
		}
		args = append(args, mkParam(n, p.Type()))
	}
	s.env = map[ssa.Value]*Term{}
	e.funcs = map[*ssa.Function]bool{}
	outs := e.call(f.fn, args, f.args, s, nil, "", f.fn.Pos())
	return c.finish(name, e, f.fn, outs)
}

func (c *Check) endpointView(name string) *View {
	e := newEngine(c.p)
	c.prepare(e)
	s := c.p.baseState()
	for o := range c.p.shared {
		e.shared[o] = true
	}
	run := func(fn *ssa.Function, names ...string) *View {
		if fn == nil {
			e.undec["entry point of view "+name+" not found"] = true
			return c.finish(name, e, nil, nil)
		}
		var args []*Term
		for i, p := range fn.Params {
			n := argParam(i, p.Type()).s
			if i < len(names) {
				n = names[i]
			}
			args = append(args, mkParam(n, p.Type()))
		}
		return c.finish(name, e, fn, e.call(fn, args, nil, s, nil, "", fn.Pos()))
	}
	switch name {
	case "te":
		fn := c.p.method("", "TokenEndpoint", "Handler")
		if fn == nil {
			e.undec["TokenEndpoint.Handler not found"] = true
			return c.finish(name, e, nil, nil)
		}
		te := mkParam("te", fn.Params[0].Type())
		sdi := mkParam("sdi", fn.Params[1].Type())
		e.outer = true
		outs := e.call(fn, []*Term{te, sdi}, nil, s, nil, "handler", fn.Pos())
		e.outer = false
		if len(outs) != 1 || outs[0].panic != "" || len(outs[0].ret) != 1 {
			e.undec["TokenEndpoint.Handler cannot be followed"] = true
			return c.finish(name, e, fn, nil)
		}
		for a := range outs[0].st.mem {
			if r := rootOf(a); r.op == OObj {
				e.shared[r] = true
			}
		}
		f := outs[0].ret[0]
		f.walk(func(x *Term) bool {
			if x.op == OObj {
				e.shared[x] = true
			}
			return true
		})
		if f.op == OIface {
			f = f.args[0]
		}
		return c.runFunc(name, e, f, outs[0].st, "w", "r")
	case "rp":
		return run(c.p.method("", "ResourceProtector", "Validate"), "rp", "w", "r", "di")
	case "rps":
		return run(c.p.method("", "ResourceProtector", "ValidateWithScopes"), "rp", "w", "r", "di", "scopes")
	case "ae":
		e.topics = c.aeTopicsOf().list
		return run(c.p.method("", "AuthorizationEndpoint", "HandleRequest"), "a", "w", "r", "cb")
	case "complete":
		return run(c.p.method("", "AuthorizationEndpoint", "CompleteRequest"), "a", "w", "r", "cb")
	case "cancel":
		return run(c.p.method("", "AuthorizationEndpoint", "CancelRequest"), "a", "w", "r", "cb")
	}
	return nil
}
