package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The token endpoint: properties T01, T02, T03, T11, T12 (and T04 for client assertions).

const teProps = "T01 T02 T03 T11 T12"

func init() {
	register("token endpoint", "T01 T02 T03 T04 T05 T08 T10 T11 T12 I01", (*Check).checkTE)
	register("grant registration", "T02", (*Check).checkSupport)
}

// setter runs a one-argument configuration method and returns the field it fills.
func (c *Check) setter(props, recvName string, recv *Term, typ, method string) *Term {
	fn := c.p.method("", typ, method)
	if !c.ob(props, "configuration", fn != nil, 0, nil, nil, "%s.%s not found", typ, method) {
		return nil
	}
	e := newEngine(c.p)
	s := c.p.baseState()
	arg := mkParam("setting", fn.Params[1].Type())
	outs := e.call(fn, []*Term{mkParam(recvName, fn.Params[0].Type()), arg}, nil, s, nil, "", fn.Pos())
	for _, o := range outs {
		for _, ev := range o.st.events() {
			if ev.name == "store" && len(ev.args) == 2 && (ev.args[1] == arg || ev.args[1].op == OIface && ev.args[1].args[0] == arg) && ev.args[0].op == OFieldAddr {
				c.ob(props, "configuration", len(outs) == 1 && len(o.st.events()) == 1, fn.Pos(), fn, nil, "%s.%s does more than set its option", typ, method)
				if sel := fieldOf(ev.args[0], mkParam(recvName, nil)); sel != nil {
					return sel
				}
			}
		}
	}
	c.ob(props, "configuration", false, fn.Pos(), fn, nil, "%s.%s does not set its option", typ, method)
	return nil
}

// fresh builds an object with its constructor and returns a reader for its fields.
func (c *Check) fresh(props, ctor string, args ...*Term) (func(sel *Term) *Term, *ssa.Function) {
	fn := c.p.fn("", ctor)
	e, outs := c.outer(fn, args...)
	if !c.ob(props, "configuration", len(outs) == 1 && len(outs[0].ret) >= 1 && outs[0].panic == "" && len(e.undec) == 0, 0, fn, nil, "constructor %s cannot be followed", ctor) {
		return func(*Term) *Term { return nil }, fn
	}
	o := outs[0]
	return func(sel *Term) *Term {
		if sel == nil {
			return nil
		}
		var get func(x *Term) *Term
		get = func(x *Term) *Term {
			if x.op != OSel {
				return e.snapshot(o.st, o.ret[0])
			}
			return mkSel(get(x.args[0]), x.s, nil)
		}
		return get(sel)
	}, fn
}

// findIn names the part of the object v that holds x; sel names the object.
func findIn(v, x, sel *Term) *Term {
	if v == x {
		return sel
	}
	if v != nil && v.op == OStruct {
		for i, n := range v.ex.([]string) {
			if r := findIn(v.args[i], x, mkSel(sel, n, nil)); r != nil {
				return r
			}
		}
	}
	return nil
}

// fieldOf is the value at addr, a field of the receiver or of one of its parts.
func fieldOf(addr, recv *Term) *Term {
	switch addr.op {
	case OFieldAddr:
		if b := fieldOf(addr.args[0], recv); b != nil {
			return mkSel(b, addr.s, nil)
		}
	case OSel:
		if b := fieldOf(addr.args[0], recv); b != nil {
			return mkSel(b, addr.s, nil)
		}
	case OParam:
		if addr.s == recv.s {
			return recv
		}
	}
	return nil
}

type teSrc int

const (
	srcUnknown teSrc = iota
	srcHeader
	srcBody
	srcQuery
	srcAssertion
	srcNone
)

var srcName = []string{"undetermined", "Basic header", "POST body", "any parameter", "client assertion", "no credentials"}

type teRoles struct {
	meth, assert, realm   *Term
	hdrOnly, body, allLoc *Term
}

func (c *Check) roles(props string, recv *Term, name, typ, setMeth, setAssert, ctor string) *teRoles {
	r := &teRoles{}
	r.meth = c.setter(props, name, recv, typ, setMeth)
	if setAssert != "" {
		r.assert = c.setter(props, name, recv, typ, setAssert)
	}
	for _, x := range []struct {
		n string
		t **Term
	}{{"FromHeader", &r.hdrOnly}, {"FromHeaderAndPostBody", &r.body}, {"FromAll", &r.allLoc}} {
		v, ok := newEngine(c.p).constOf("", x.n)
		c.ob(props, "configuration", ok, 0, nil, nil, "constant %s not found", x.n)
		*x.t = mkInt(v)
	}
	realm := mkParam("realm", tString)
	f, fn := c.fresh(props, ctor, realm)
	if m := f(r.meth); m != nil {
		c.ob(props, "safe default", m == r.hdrOnly, fn.Pos(), fn, nil, "a new %s accepts credentials from %s instead of the header only", typ, m.key)
	}
	if setAssert != "" {
		if a := f(r.assert); a != nil {
			c.ob(props, "safe default", a == tFalse, fn.Pos(), fn, nil, "a new %s accepts client assertions: %s", typ, a.key)
		}
	}
	r.realm = findIn(f(mkParam(name, nil)), realm, mkParam(name, nil))
	c.ob(props, "configuration", r.realm != nil, 0, fn, nil, "a new %s does not keep its realm", typ)
	return r
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

const assertionTypeJWT = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"

func (c *Check) checkTE() {
	v := c.view("te")
	props := teProps + " T04"
	c.sound(v, props)
	c.nopanic(v, "T04 T12 T11")
	te := mkParam("te", nil)
	ro := c.roles("T03", te, "te", "TokenEndpoint", "AcceptClientSecret", "AcceptClientAssertion", "NewTokenEndpoint")
	if ro.meth == nil || ro.assert == nil || ro.realm == nil {
		return
	}
	clock := c.setter("T04 T05 T08 I01", "te", te, "TokenEndpoint", "SetTimeBuilder")
	allowed := map[string]bool{"FindClientById": true, "RecordAssertionClaims": true, "grant": true, "status": true, "write": true, "store": true}
	basic := mkCall("basic", nil)
	cert := form("client_assertion")
	gt := form("grant_type")
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		s := p.o.st
		c.discipline(p, "T11 T12", allowed)
		status, write := p.ev("status"), p.ev("write")
		grants := p.ev("grant")
		once := c.ob("T11", "answered once", len(status) == 1 && len(p.ev("redirect")) == 0, p.o.pos, nil, p, "answered %d times", len(status))
		if !once && len(grants) == 0 {
			continue
		}
		isPost := s.eqs(mkSel(pR, "Method", nil), mkStr("POST"))
		if isPost != yes {
			n := int64(0)
			if len(status) > 0 {
				n, _ = status[0].args[0].int()
			}
			ok := isPost == no && n == 405
			for _, e := range p.evs {
				ok = ok && (e.name == "status" || e.name == "write")
			}
			c.ob("T11", "POST only", ok, p.o.pos, nil, p, "a request that need not be a POST is processed")
			continue
		}
		src := srcUnknown
		tri3 := func(t *Term) tri { return s.is(t) }
		idB, secB, idA, secA := post("client_id"), post("client_secret"), form("client_id"), form("client_secret")
		inBody := all(s.eqs(ro.meth, ro.body), s.given(idB), s.given(secB))
		inAny := all(s.eqs(ro.meth, ro.allLoc), s.given(idA), s.given(secA))
		inCert := all(tri3(ro.assert), s.given(cert), s.eqs(form("client_assertion_type"), mkStr(assertionTypeJWT)))
		switch {
		case tri3(mkExtract(basic, 2, nil)) == yes:
			src = srcHeader
		case tri3(mkExtract(basic, 2, nil)) != no:
		case inBody == yes:
			src = srcBody
		case inAny == yes:
			src = srcQuery
		case inBody != no || inAny != no:
		case inCert == yes:
			src = srcAssertion
		case inCert == no:
			src = srcNone
		}
		var cid, sec *Term
		switch src {
		case srcHeader:
			cid, sec = mkExtract(basic, 0, tString), mkExtract(basic, 1, tString)
		case srcBody:
			cid, sec = idB, secB
		case srcQuery:
			cid, sec = idA, secA
		case srcAssertion:
			cid = asType(claim(cert, "sub"), tString)
		}
		reqs := []*Req{
			{id: "a grant type is named", props: "T02", ok: func(s *State) tri { return s.given(gt) }, codes: []string{"invalid_request"}},
			{id: "the grant type is enabled", props: "T02", ok: func(s *State) tri { return c.handlerKnown(p, s, gt) }, codes: []string{"unsupported_grant_type"}},
			{id: "the request carries client credentials in an accepted place", props: "T01 T03", ok: func(s *State) tri {
				switch src {
				case srcUnknown:
					return unk
				case srcNone:
					return no
				}
				return yes
			}, codes: []string{"invalid_client"}},
		}
		fc := p.first("FindClientById")
		if fc != nil {
			if c.ob("T01 T03", "credentials from a configured place", cid != nil, fc.pos, fc.fn, p, "a client is looked up although the source of its credentials is: %s", srcName[src]) {
				c.callArgs(p, "T01 T03", fc, cid)
			}
		}
		client := evObj(fc)
		reqs = append(reqs, c.storageReq("the client is known", "T01 T12", fc, true, "invalid_client"))
		switch src {
		case srcHeader, srcBody, srcQuery:
			reqs = append(reqs, &Req{id: "the client confirms the presented secret", props: "T01", ok: func(s *State) tri {
				if client == nil {
					return unk
				}
				return s.is(get(client, "MatchSecret", sec))
			}, codes: []string{"invalid_client"}})
		case srcAssertion:
			reqs = append(reqs, &Req{id: "the assertion names its client", props: "T01 T04", ok: func(s *State) tri {
				return isType(s, claim(cert, "sub"), tString)
			}, codes: []string{"invalid_request"}})
			reqs = append(reqs, c.assertionReqs(p, cert, client, "T01 T04")...)
		}
		reqs = append(reqs, &Req{id: "the client may use this grant type", props: "T02", ok: func(s *State) tri {
			if client == nil {
				return unk
			}
			return s.is(get(client, "CanUseGrantType", gt))
		}, codes: []string{"unauthorized_client"}})

		c.ob("T01", "one grant", len(grants) <= 1, p.o.pos, nil, p, "%d grants run in one request", len(grants))
		for _, g := range grants {
			c.needBefore(p, g, reqs)
			if client != nil {
				c.ob("T01", "grant for the authenticated client", len(g.args) > 2 && p.same(g.args[2], client), g.pos, g.fn, p, "the grant runs for %s", trunc(g.args[2].key, 120))
			}
			okh := len(g.args) > 3 && g.args[0].op == OLookup && p.same(g.args[0].args[1], gt) && c.isHandlers(g.args[0].args[0]) && g.args[1] == pR && g.args[3] == pSdi
			if clock != nil {
				c.ob("T04 T05 T08 I01", "the grant's time", len(g.args) == 6 && p.same(g.args[5], mkInv(clock, "now", nil)), g.pos, g.fn, p, "the grant's time is %s, not what the clock tells during the request", trunc(g.args[len(g.args)-1].key, 120))
			}
			c.ob("T02", "the registered grant", okh, g.pos, g.fn, p, "the grant that runs is %s", trunc(g.args[0].key, 200))
		}
		if !once {
			continue
		}
		hdrs := status[0].args[1]
		challenge := mkConcat(mkStr(`Basic realm="`), ro.realm, mkStr(`"`))
		h := hdrOf
		c.ob("T11", "uncached JSON", strVal0(h(hdrs, "Cache-Control")) == "no-store" && strVal0(h(hdrs, "Pragma")) == "no-cache" &&
			strings.HasPrefix(strVal0(h(hdrs, "Content-Type")), "application/json"), status[0].pos, status[0].fn, p, "the answer's headers are %s", trunc(hdrs.key, 300))
		if !c.ob("T11", "one body", len(write) == 1 && write[0].n > status[0].n, p.o.pos, nil, p, "the answer has %d bodies, or its body precedes its status", len(write)) {
			continue
		}
		body := write[0].args[0]
		auth := h(hdrs, "Www-Authenticate")
		code := status[0].args[0]

		if len(grants) == 1 {
			g := grants[0]
			c.ob("T11", "no challenge", auth == nil, status[0].pos, status[0].fn, p, "a request with good credentials is challenged")
			res, gerr := mkExtract(g.res, 0, nil), mkExtract(g.res, 1, nil)
			switch s.isNil(gerr) {
			case yes:
				n, ok := code.int()
				c.ob("T11", "status of success", ok && n == 200, status[0].pos, status[0].fn, p, "a granted request is answered with status %s", code.key)
				c.tokenBody(p, body, res)
			case no:
				want := mkCall("oauth_error.StatusCode", nil, mkSel(gerr, "Type", nil))
				c.ob("T11", "status of the error", p.same(code, want), status[0].pos, status[0].fn, p, "the grant's error is answered with status %s", trunc(code.key, 200))
				ok := body.op == OCall && body.s == "oauth_error.JSON" && p.same(body.args[0], mkSel(gerr, "Type", nil)) && p.same(body.args[1], mkSel(gerr, "Description", nil))
				c.ob("T11", "body of the error", ok, write[0].pos, write[0].fn, p, "the grant's error is answered with %s", trunc(body.key, 300))
			default:
				c.ob("T11 T12", "definite outcome", false, p.o.pos, nil, p, "the grant's error is not looked at")
			}
			continue
		}
		// refused before any grant ran
		ec := ""
		if body.op == OCall && body.s == "oauth_error.JSON" {
			if n, ok := body.args[0].int(); ok {
				ec = c.oauthCodes()[n]
			}
		}
		if !c.ob("T11", "body of the error", ec != "", write[0].pos, write[0].fn, p, "answered with %s", trunc(body.key, 300)) {
			continue
		}
		c.justified(p, "T11", ec, reqs)
		want := int64(0)
		for _, n := range oauthNames {
			if n.name == ec {
				want = n.status
			}
		}
		chal := ec == "invalid_client" && (src == srcHeader || src == srcNone)
		if chal {
			want = 401
			c.ob("T11", "challenge", auth != nil && p.same(auth, challenge), status[0].pos, status[0].fn, p, "client authentication failed without a Basic challenge for the realm")
		} else {
			c.ob("T11", "no challenge", auth == nil, status[0].pos, status[0].fn, p, "challenged although the Basic header did not fail")
		}
		n, ok := code.int()
		c.ob("T11", "status of the error", ok && n == want, status[0].pos, status[0].fn, p, "%s is answered with status %s, should be %d", ec, trunc(code.key, 60), want)
	}
}

// tokenBody: the JSON of a token response (property T10).
func (c *Check) tokenBody(p *Path, body, res *Term) {
	w := p.ev("write")[0]
	if !c.ob("T10", "token response", body.op == OCall && body.s == "json" && body.args[0].op == OStruct, w.pos, w.fn, p, "the body of a success is %s", trunc(body.key, 200)) {
		return
	}
	o := body.args[0]
	names := o.ex.([]string)
	got := map[string]*Term{}
	for i, n := range names {
		got[n] = o.args[i]
	}
	want := map[string]string{"access_token": "AccessToken", "token_type": "TokenType", "expires_in": "ExpiresIn", "refresh_token?": "RefreshToken", "scope?": "Scope", "id_token?": "IdToken"}
	for _, k := range sortedKeys(want) {
		c.ob("T10", "token response", got[k] != nil && p.same(got[k], mkSel(res, want[k], nil)), w.pos, w.fn, p, "member %s of the token response is not the response's %s", k, want[k])
	}
	for _, k := range names {
		c.ob("T10", "token response", want[k] != "", w.pos, w.fn, p, "the token response has a member %s", k)
	}
}

func strVal0(t *Term) string {
	if t == nil {
		return ""
	}
	s, _ := t.str()
	return s
}

// hdrOf is the value of a response header in the map of a status event, nil if it is not set.
func hdrOf(m *Term, k string) *Term {
	kv, base := m.mapParts()
	for i := 0; i+1 < len(kv); i += 2 {
		if s, ok := kv[i].str(); ok && s == k {
			return kv[i+1]
		}
	}
	_ = base
	return nil
}

// isHandlers: the endpoint's table of grants.
func (c *Check) isHandlers(t *Term) bool {
	f := c.handlersField()
	return f != nil && t == f
}

func (c *Check) handlersField() *Term {
	if x, ok := c.memo["handlers"]; ok {
		return x.(*Term)
	}
	var res *Term
	if fn := c.p.method("", "TokenEndpoint", "Support"); fn != nil {
		e := newEngine(c.p)
		h := mkParam("h", fn.Params[1].Type())
		for _, o := range e.call(fn, []*Term{mkParam("te", fn.Params[0].Type()), h}, nil, c.p.baseState(), nil, "", fn.Pos()) {
			for _, ev := range o.st.events() {
				if ev.name == "store" && len(ev.args) == 3 && fieldOf(ev.args[0], mkParam("te", nil)) != nil {
					res = ev.args[0]
				}
			}
		}
	}
	c.memo["handlers"] = res
	return res
}

func (c *Check) handlerKnown(p *Path, s *State, gt *Term) tri {
	f := c.handlersField()
	if f == nil {
		return unk
	}
	if r := s.truth(mkLookupOk(f, gt)); r != unk {
		return r
	}
	return s.isNil(mkLookup(f, gt, nil)).not()
}

// checkSupport: enabling a grant enters its function under its type, and nothing else does.
func (c *Check) checkSupport() {
	c.cur = nil
	fn := c.p.method("", "TokenEndpoint", "Support")
	if !c.ob("T02", "grant registration", fn != nil, 0, nil, nil, "TokenEndpoint.Support not found") {
		return
	}
	e := newEngine(c.p)
	h := mkParam("h", fn.Params[1].Type())
	outs := e.call(fn, []*Term{mkParam("te", fn.Params[0].Type()), h}, nil, c.p.baseState(), nil, "", fn.Pos())
	n := 0
	for _, o := range outs {
		k := n
		for _, ev := range o.st.events() {
			if ev.name != "store" || len(ev.args) != 3 {
				continue
			}
			n++
			ok := ev.args[1] == mkSel(h, "Type", nil) && ev.args[2] == mkSel(h, "Func", nil)
			c.ob("T02", "grant registration", ok, ev.pos, ev.fn, nil, "a grant is registered as %s => %s", ev.args[1].key, ev.args[2].key)
		}
		c.ob("T02", "grant registration", n == k+1 || o.st.isNil(h) == yes, fn.Pos(), fn, nil, "a grant is enabled without being registered")
	}
	c.ob("T02", "grant registration", n > 0 && len(e.undec) == 0, fn.Pos(), fn, nil, "enabling a grant does not register it")
	// a new endpoint has no grants
	if f := c.handlersField(); f != nil {
		get, cfn := c.fresh("T02", "NewTokenEndpoint", mkParam("realm", tString))
		if m := get(f); m != nil {
			kv, base := m.mapParts()
			c.ob("T02", "safe default", len(kv) == 0 && base == nil || m.op == ONil, cfn.Pos(), cfn, nil, "a new endpoint already has grants: %s", trunc(m.key, 200))
		}
	}
	// the names of the grants
	for g, name := range map[string]string{"AuthorizationCode": "authorization_code", "RefreshToken": "refresh_token", "Password": "password",
		"ClientCredentials": "client_credentials"} {
		c.view(g)
		t, _ := c.memo["type:"+g].(*Term)
		c.ob("T02", "grant names", t != nil && t.key == mkStr(name).key, 0, c.p.fn("grant", g), nil, "the %s grant is not registered as %q", g, name)
	}
}
