package main

import (
	"go/types"
	"strings"
)

// ---- terms the rules talk about

var tString = types.Typ[types.String]

func form(k string) *Term { return mkCall("form", tString, mkStr(k)) }
func post(k string) *Term { return mkCall("post", tString, mkStr(k)) }
func get(x *Term, m string, args ...*Term) *Term {
	return mkInv(x, m, getterType(m), args...)
}

func getterType(m string) types.Type {
	switch m {
	case "GetId", "Issuer", "GetClientId", "GetSubject", "GetScope", "GetCode", "GetRedirectURI", "GetCodeVerifier", "GetNonce",
		"GetAccessToken", "GetRefreshToken", "GetIdTokenAlg", "GetIdTokenKeyId":
		return tString
	case "MatchSecret", "CanUseFlow", "CanUseGrantType", "CanUseScope", "CanUseRedirectURI", "IsActive":
		return types.Typ[types.Bool]
	}
	return nil
}

var (
	pR   = mkParam("r", nil)
	pC   = mkParam("c", nil)
	pSdi = mkParam("sdi", nil)
	pNow = mkParam("now", nil)
)

// mutating storage calls.
var mutating = map[string]bool{"CreateOAuthToken": true, "RefreshAccessToken": true, "CreateOrUpdateAuthInfo": true,
	"CreateAuthSession": true, "DisableSession": true, "RecordAssertionClaims": true}

func isTokenEv(n string) bool { return n == "CreateOAuthToken" || n == "RefreshAccessToken" }

// expect: the only call of this name has these arguments.
func (c *Check) callArgs(p *Path, props string, ev *Ev, args ...*Term) bool {
	if ev == nil {
		return false
	}
	good := true
	for i, a := range args {
		if a == nil {
			continue
		}
		if i >= len(ev.args) || !p.same(ev.args[i], a) {
			got := "nothing"
			if i < len(ev.args) {
				got = ev.args[i].key
			}
			good = c.ob(props, "call-arguments", false, ev.pos, ev.fn, p, "%s: argument %d is %s, should be %s", ev.name, i+1, trunc(got, 200), trunc(a.key, 200))
		}
	}
	if good {
		c.ob(props, "call-arguments", true, ev.pos, ev.fn, p, "")
	}
	return good
}

// discipline: which effects a path may have, how often, and nothing after a storage failure.
func (c *Check) discipline(p *Path, props string, allowed map[string]bool) {
	cnt := map[string]int{}
	for _, e := range p.evs {
		cnt[e.name]++
		if !allowed[e.name] {
			c.ob(props, "effects", false, e.pos, e.fn, p, "%s is not part of this operation", e.name)
			continue
		}
		if mutating[e.name] {
			c.ob(props, "effects", cnt[e.name] == 1, e.pos, e.fn, p, "%s is called twice", e.name)
		}
	}
}

// failStop: a storage change happens only after every earlier storage answer was found to be good.
func (c *Check) failStop(p *Path, props string) {
	for i, m := range p.evs {
		if !mutating[m.name] {
			continue
		}
		s := p.at(m.n)
		for _, e := range p.evs[:i] {
			if !storageCalls[e.name] && !callbackErr[e.name] {
				continue
			}
			ok := s.eqs(errOf(e), tNil) == yes
			if ok && returnsObj[e.name] {
				ok = s.isNil(objOf(e)) == no
			}
			c.ob(props, "fail-stop", ok, m.pos, m.fn, p, "%s happens although the answer of %s was not checked to be good", m.name, e.name)
		}
	}
}

var storageCalls = map[string]bool{"FindClientById": true, "FindAuthSessionByCode": true, "FindActiveAuthInfoById": true,
	"FindAuthInfoByUserIdAndClientId": true, "FindOAuthTokenByAccessToken": true, "FindOAuthTokenByRefreshToken": true,
	"CreateOAuthToken": true, "RefreshAccessToken": true, "FindUserId": true, "CreateOrUpdateAuthInfo": true,
	"CreateAuthSession": true, "DisableSession": true, "FindUserIdBySubject": true, "RecordAssertionClaims": true}

var returnsObj = map[string]bool{"FindClientById": true, "FindAuthSessionByCode": true, "FindActiveAuthInfoById": true,
	"FindAuthInfoByUserIdAndClientId": true, "FindOAuthTokenByAccessToken": true, "FindOAuthTokenByRefreshToken": true,
	"CreateOAuthToken": true, "RefreshAccessToken": true, "CreateOrUpdateAuthInfo": true}

var callbackErr = map[string]bool{"ShowLoginScreen": true, "ShowConsentScreen": true, "ChooseLocale": true, "ConfirmLoginSession": true,
	"RequestIsFromLogin": true, "GetAuthTime": true, "GetLoginUserId": true, "CreateAuthorizationCode": true, "Continue": true,
	"LoginUserIsMatchedToSubject": true}

// success: every requirement holds at the end of the path.
func (c *Check) needAll(p *Path, reqs []*Req, when string) {
	for _, r := range reqs {
		c.ob(r.props, "requires "+r.id, r.ok(p.o.st) == yes, p.o.pos, nil, p, "%s without establishing: %s", when, r.id)
	}
}

// before: every requirement holds when the event happens.
func (c *Check) needBefore(p *Path, ev *Ev, reqs []*Req) {
	s := p.at(ev.n)
	for _, r := range reqs {
		c.ob(r.props, "precondition "+r.id, r.ok(s) == yes, ev.pos, ev.fn, p, "%s before establishing: %s", ev.name, r.id)
	}
}

// justified: an error answer has a requirement that failed and asks for that answer.
func (c *Check) justified(p *Path, props, code string, reqs []*Req) bool {
	var failing []*Req
	for _, r := range reqs {
		if r.ok(p.o.st) == no {
			if contains(r.answers(p.o.st), code) {
				c.ob(props+" "+r.props, "refusal justified", true, p.o.pos, nil, p, "")
				return true
			}
			failing = append(failing, r)
		}
	}
	if len(failing) == 0 {
		for _, r := range reqs {
			if r.code != nil || contains(r.codes, code) {
				props += " " + r.props
			}
		}
		return c.ob(uniq(props), "refusal justified", false, p.o.pos, nil, p, "refused with %s although no requirement is known to have failed", code)
	}
	ps := props
	var ids []string
	for _, r := range failing {
		ps += " " + r.props
		ids = append(ids, r.id+" ("+strings.Join(r.answers(p.o.st), "|")+")")
	}
	return c.ob(uniq(ps), "refusal justified", false, p.o.pos, nil, p, "answered with %q, but what failed is: %s", code, strings.Join(ids, ", "))
}

func uniq(s string) string {
	var l []string
	for _, x := range split(s) {
		if !contains(l, x) {
			l = append(l, x)
		}
	}
	return strings.Join(l, " ")
}

// ---- assertions

type assertionInfo struct {
	text, token, claims, client *Term
}

func jwtTok(text *Term) *Term    { return mkCall("jwt.token", nil, text) }
func jwtClaims(text *Term) *Term { return mkCall("jwt.claims", nil, text) }

func claim(text *Term, k string) *Term { return mkLookup(jwtClaims(text), mkStr(k), nil) }

func (c *Check) hdrOf(text *Term, k string) *Term {
	return mkLookup(mkSel(jwtTok(text), "Header", nil), mkStr(k), nil)
}

func asType(x *Term, T types.Type) *Term {
	t := mk(OAssert, x.key+".("+typeName(T)+")", typeName(T), T, x)
	t.ex = T
	return t
}

func isType(s *State, x *Term, T types.Type) tri { return s.truth(mkAssertOk(x, T)) }

var tFloat = types.Typ[types.Float64]

// strClaim is a string claim or header as the code reads it: the value, or "" if it is not a string.
func strVal(s *State, x *Term) *Term {
	switch isType(s, x, tString) {
	case yes:
		return asType(x, tString)
	case no:
		return mkStr("")
	}
	return nil
}

func intOf(x *Term) *Term { return mkCall("int64", types.Typ[types.Int64], asType(x, tFloat)) }

// assertionReqs: what an assertion must satisfy (properties T04 and, for clients, T01).
func (c *Check) assertionReqs(p *Path, text, client *Term, props string) []*Req {
	key := func(s *State) *Term {
		a, k := strVal(s, c.hdrOf(text, "alg")), strVal(s, c.hdrOf(text, "kid"))
		if a == nil || k == nil || client == nil {
			return nil
		}
		return get(client, "GetAssertionKey", a, k)
	}
	exp := claim(text, "exp")
	aud := claim(text, "aud")
	iss := get(pSdi, "Issuer")
	wf := mkCall("jwt.wellformed", types.Typ[types.Bool], text)
	rec := p.first("RecordAssertionClaims")
	// what was verified, whatever the key
	reqs := []*Req{
		{id: "assertion is well-formed", props: props, ok: func(s *State) tri { return s.truth(wf) }, codes: []string{"invalid_grant"}},
		{id: "the client holds a key for the assertion's algorithm and key id", props: props, ok: func(s *State) tri {
			k := key(s)
			if k == nil {
				return unk
			}
			return s.isNil(k).not()
		}, codes: []string{"invalid_grant"}},
		{id: "assertion verifies under the client's key", props: props, ok: func(s *State) tri {
			k := key(s)
			if k == nil {
				return unk
			}
			return s.truth(mkVerified(text, k))
		}, codes: []string{"invalid_grant", "invalid_client"}},
		{id: "assertion has an expiry", props: props, ok: func(s *State) tri { return isType(s, exp, tFloat) }, codes: []string{"invalid_request"}},
		{id: "the expiry of the assertion has not passed", props: props, ok: func(s *State) tri {
			return s.cond(mkLess(mkInt(0), intOf(exp), false))
		}, codes: []string{"invalid_grant"}},
		{id: "assertion names its audience", props: props, ok: func(s *State) tri { return isType(s, aud, tString) }, codes: []string{"invalid_request"}},
		{id: "this provider has an issuer identifier", props: props, ok: func(s *State) tri { return s.given(iss) }, codes: []string{"server_error"}},
		{id: "the assertion's audience is this provider", props: props, ok: func(s *State) tri { return s.eqs(asType(aud, tString), iss) }, codes: []string{"invalid_grant"}},
		c.storageReq("the replay record was accepted", props+" T12", rec, false, "invalid_request"),
	}
	if rec != nil && client != nil {
		s := p.at(rec.n)
		jti := strVal(s, claim(text, "jti"))
		iat := claim(text, "iat")
		var iv *Term
		switch isType(s, iat, tFloat) {
		case yes:
			iv = intOf(iat)
		case no:
			iv = mkInt(-1)
		}
		if jti == nil || iv == nil {
			c.ob(props, "call-arguments", false, rec.pos, rec.fn, p, "the replay record is made before the assertion's identifier and issue time were read")
		} else {
			c.callArgs(p, props, rec, get(client, "GetId"), jti, iv, intOf(exp))
		}
		c.needBefore(p, rec, []*Req{reqs[0], reqs[2], reqs[3], reqs[4]})
	}
	return reqs
}

// ---- grants

type grantSpec struct {
	ctor    string
	props   string // properties of the bindings of this grant
	allowed string
	reqs    func(c *Check, p *Path) *grantWant
}

type grantWant struct {
	reqs        []*Req
	info, token *Term
	tokenEv     *Ev
	idToken     func(s *State) (*Term, tri, *Ev) // expected id token, whether it is expected
	before      []*Req
	beforeInfo  []*Req
}

func (c *Check) present(k, props string) *Req {
	return &Req{id: "parameter " + k, props: props, ok: func(s *State) tri { return s.given(form(k)) }, codes: []string{"invalid_request"}}
}

func reqEq(id, props string, a, b *Term, code string) *Req {
	return &Req{id: id, props: props, ok: func(s *State) tri {
		if a == nil || b == nil {
			return unk
		}
		return s.eqs(a, b)
	}, codes: []string{code}}
}

func reqCond(id, props string, c Cond, code string) *Req {
	return &Req{id: id, props: props, ok: func(s *State) tri { return s.cond(c) }, codes: []string{code}}
}

func getOr(x *Term, m string) *Term {
	if x == nil {
		return nil
	}
	return get(x, m)
}

func evObj(ev *Ev) *Term {
	if ev == nil {
		return nil
	}
	return objOf(ev)
}

// liveness: start + lifetime >= now, to the second.
func reqLive(id, props string, start, life *Term, now *Term, code string) *Req {
	if start == nil {
		return &Req{id: id, props: props, ok: func(*State) tri { return unk }, codes: []string{code}}
	}
	return reqCond(id, props, mkLess(unixOf(now), mkAdd(start, life, 1), true), code)
}

func directGrant() int64 { return 0 }

func (c *Check) directScope(props string) *Req {
	dg, _ := newEngine(c.p).constOf("flow", "DirectGrant")
	can := get(pC, "CanUseScope", mkInt(dg), form("scope"))
	return &Req{id: "the client may use the requested scope for direct grants", props: props, ok: func(s *State) tri {
		return some(s.given(form("scope")).not(), s.is(can))
	}, codes: []string{"invalid_scope"}}
}

// directTail: the part that password, client-credentials and JWT grants share.
func (c *Check) directTail(p *Path, uid *Term, pre []*Req) *grantWant {
	ci := p.first("CreateOrUpdateAuthInfo")
	if ci != nil && uid != nil {
		c.callArgs(p, "T09", ci, uid, get(pC, "GetId"), form("scope"))
	}
	info := evObj(ci)
	ct := p.first("CreateOAuthToken")
	if ct != nil && info != nil {
		c.callArgs(p, "T09 T10", ct, info, tTrue)
	}
	rInfo := c.storageReq("the authorization was recorded", "T09 T12", ci, true, "invalid_grant")
	rTok := c.storageReq("the token was created", "T10 T12", ct, true, "invalid_grant")
	w := &grantWant{info: info, tokenEv: ct, token: evObj(ct)}
	w.reqs = append(append([]*Req{}, pre...), rInfo, rTok)
	w.before = append(append([]*Req{}, pre...), rInfo)
	w.beforeInfo = pre
	return w
}

var grantSpecs = []grantSpec{
	{ctor: "AuthorizationCode", props: "T05", allowed: "FindAuthSessionByCode FindActiveAuthInfoById CreateOAuthToken DisableSession", reqs: specCode},
	{ctor: "RefreshToken", props: "T08", allowed: "FindOAuthTokenByRefreshToken FindActiveAuthInfoById RefreshAccessToken", reqs: specRefresh},
	{ctor: "Password", props: "T09", allowed: "FindUserId CreateOrUpdateAuthInfo CreateOAuthToken", reqs: specPassword},
	{ctor: "ClientCredentials", props: "T09", allowed: "CreateOrUpdateAuthInfo CreateOAuthToken", reqs: specClient},
	{ctor: "JWT", props: "T04 T09", allowed: "RecordAssertionClaims FindUserIdBySubject CreateOrUpdateAuthInfo CreateOAuthToken", reqs: specJWT},
}

func specCode(c *Check, p *Path) *grantWant {
	fs := p.first("FindAuthSessionByCode")
	if fs != nil {
		c.callArgs(p, "T05", fs, form("code"))
	}
	sess := evObj(fs)
	fi := p.first("FindActiveAuthInfoById")
	if fi != nil && sess != nil {
		c.callArgs(p, "T05", fi, get(sess, "GetAuthId"))
	}
	info := evObj(fi)
	ct := p.first("CreateOAuthToken")
	if ct != nil && info != nil {
		c.callArgs(p, "T05 T10", ct, info, tTrue)
	}
	ds := p.first("DisableSession")
	if ds != nil && sess != nil {
		c.callArgs(p, "T07", ds, sess)
	}
	cm, cc := form("code_challenge_method"), form("code_challenge")
	cv := getOr(sess, "GetCodeVerifier")
	bound := func(s *State) tri {
		if cv == nil {
			return unk
		}
		return s.given(cv)
	}
	plain, s256 := mkStr("plain"), mkStr("S256")
	proof := func(s *State) tri {
		if cv == nil {
			return unk
		}
		h := mkCall("base64", tString, encTerm("RawURLEncoding"), mkCall("sha256", nil, cv))
		a := all(s.eqs(cm, plain), s.eqs(cc, cv))
		b := all(s.eqs(cm, s256), s.eqs(cc, h))
		return some(a, b)
	}
	rSess := c.storageReq("the code was found", "T05 T12", fs, true, "invalid_grant")
	var created, life *Term
	if sess != nil {
		created, life = get(sess, "GetCreatedAt"), get(sess, "GetExpiresIn")
	}
	rLive := reqLive("the code's session has not outlived its lifetime", "T05", created, life, pNow, "invalid_grant")
	rInfo := c.storageReq("the authorization is still active", "T05 T12", fi, true, "invalid_grant")
	rClient := reqEq("the authorization belongs to this client", "T05", getOr(info, "GetClientId"), get(pC, "GetId"), "invalid_grant")
	rURI := reqEq("the redirect URI is the one of the session", "T05", getOr(sess, "GetRedirectURI"), form("redirect_uri"), "invalid_grant")
	rMeth := &Req{id: "a PKCE method is given for a bound code", props: "T06", ok: func(s *State) tri { return some(bound(s).not(), s.given(cm)) }, codes: []string{"invalid_request"}}
	rChal := &Req{id: "a PKCE proof is given for a bound code", props: "T06", ok: func(s *State) tri { return some(bound(s).not(), s.given(cc)) }, codes: []string{"invalid_request"}}
	rKnown := &Req{id: "the PKCE method is known", props: "T06", ok: func(s *State) tri { return some(bound(s).not(), s.eqs(cm, plain), s.eqs(cm, s256)) }, codes: []string{"invalid_request"}}
	rProof := &Req{id: "the PKCE proof matches", props: "T06", ok: func(s *State) tri { return some(bound(s).not(), proof(s)) }, codes: []string{"invalid_grant"}}
	rTok := c.storageReq("the token was created", "T10 T12", ct, true, "invalid_grant")
	rDis := c.storageReq("storage disabled the session", "T07 T12", ds, false, "invalid_grant")
	pre := []*Req{c.present("redirect_uri", "T05"), c.present("code", "T05"), rSess, rLive, rInfo, rClient, rURI, rMeth, rChal, rKnown, rProof}
	w := &grantWant{info: info, token: evObj(ct), tokenEv: ct}
	w.before = pre
	w.reqs = append(append([]*Req{}, pre...), rTok, rDis)
	w.idToken = func(s *State) (*Term, tri, *Ev) {
		if info == nil || sess == nil {
			return nil, unk, nil
		}
		t := genTerm("id_token.Gen", pC, pSdi, info, get(sess, "GetNonce"), get(sess, "GetIdTokenExpiresIn"), get(sess, "GetAuthTime"), nil, nil, pNow)
		return t, s.cond(termCond(mkMember(get(info, "GetScope"), mkStr("openid")))), nil
	}
	if ds != nil {
		c.needBefore(p, ds, pre)
	}
	return w
}

// genTerm is the call that makes an ID token for an authorization.
func genTerm(name string, clnt, di, info, nonce, life, authTime, at, code, now *Term) *Term {
	args := []*Term{get(clnt, "GetIdTokenAlg"), get(clnt, "GetIdTokenKey"), get(clnt, "GetIdTokenKeyId"), get(di, "Issuer"),
		get(info, "GetClientId"), get(info, "GetSubject"), nonce, life, authTime}
	if at != nil {
		args = append(args, at)
	}
	if code != nil {
		args = append(args, code)
	}
	args = append(args, now)
	return mkCall(name, nil, args...)
}

func specRefresh(c *Check, p *Path) *grantWant {
	ft := p.first("FindOAuthTokenByRefreshToken")
	if ft != nil {
		c.callArgs(p, "T08", ft, form("refresh_token"))
	}
	old := evObj(ft)
	fi := p.first("FindActiveAuthInfoById")
	if fi != nil && old != nil {
		c.callArgs(p, "T08", fi, get(old, "GetAuthId"))
	}
	info := evObj(fi)
	rt := p.first("RefreshAccessToken")
	if rt != nil && info != nil && old != nil {
		c.callArgs(p, "T08 T10", rt, info, old)
	}
	var created, life *Term
	if old != nil {
		created, life = get(old, "GetCreatedAt"), get(old, "GetRefreshTokenExpiresIn")
	}
	rOff := &Req{id: "the authorization includes offline_access", props: "T08", ok: func(s *State) tri {
		if info == nil {
			return unk
		}
		return s.is(mkMember(get(info, "GetScope"), mkStr("offline_access")))
	}, codes: []string{"invalid_grant"}}
	pre := []*Req{
		c.present("refresh_token", "T08"),
		c.storageReq("the refresh token is known", "T08 T12", ft, true, "invalid_grant"),
		reqLive("the refresh token has not outlived its lifetime", "T08", created, life, pNow, "invalid_grant"),
		c.storageReq("the authorization is still active", "T08 T12", fi, true, "invalid_grant"),
		reqEq("the authorization belongs to this client", "T08", getOr(info, "GetClientId"), get(pC, "GetId"), "invalid_grant"),
		rOff,
	}
	w := &grantWant{info: info, token: evObj(rt), tokenEv: rt, before: pre}
	w.reqs = append(append([]*Req{}, pre...), c.storageReq("the token was refreshed", "T10 T12", rt, true, "invalid_grant"))
	return w
}

func specPassword(c *Check, p *Path) *grantWant {
	fu := p.first("FindUserId")
	if fu != nil {
		c.callArgs(p, "T09", fu, form("username"), form("password"))
	}
	pre := []*Req{c.present("username", "T09"), c.present("password", "T09"), c.directScope("T09"),
		c.storageReq("username and password are those of a user", "T09 T12", fu, false, "invalid_grant")}
	return c.directTail(p, evObj(fu), pre)
}

func specClient(c *Check, p *Path) *grantWant {
	uid := get(pC, "GetOwnerUserId")
	pre := []*Req{reqCond("the client has an owner", "T09", mkLess(uid, mkInt(0), false).not(), "invalid_grant"), c.directScope("T09")}
	return c.directTail(p, uid, pre)
}

func specJWT(c *Check, p *Path) *grantWant {
	a := form("assertion")
	sub := claim(a, "sub")
	fu := p.first("FindUserIdBySubject")
	ar := c.assertionReqs(p, a, pC, "T04")
	if fu != nil {
		c.callArgs(p, "T09", fu, asType(sub, tString))
	}
	pre := append([]*Req{c.present("assertion", "T04")}, ar...)
	pre = append(pre,
		&Req{id: "the assertion names its subject", props: "T09", ok: func(s *State) tri { return isType(s, sub, tString) }, codes: []string{"invalid_request"}},
		c.storageReq("the subject is a user", "T09 T12", fu, false, "invalid_grant"),
		c.directScope("T09"))
	return c.directTail(p, evObj(fu), pre)
}

func isNilRet(s *State, t *Term) tri { return s.isNil(t) }

func init() {
	for _, g := range grantSpecs {
		register("grant "+g.ctor, uniq(g.props+" T04 T05 T06 T07 T08 T09 T10 T12 T13 I01 I02 I03 U07"), func(c *Check) { c.checkGrant(g) })
	}
}

func (c *Check) checkGrant(g grantSpec) {
	v := c.view(g.ctor)
	gp := g.props + " T10 T12 T13"
	if g.ctor == "AuthorizationCode" {
		gp += " T06 T07 I03"
	}
	c.sound(v, gp)
	c.nopanic(v, uniq(g.props+" T12"))
	allowed := map[string]bool{}
	for _, n := range split(g.allowed) {
		allowed[n] = true
	}
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		c.discipline(p, uniq(g.props+" T12"), allowed)
		c.failStop(p, "T12")
		w := g.reqs(c, p)
		if w.tokenEv != nil {
			c.needBefore(p, w.tokenEv, w.before)
		}
		if w.beforeInfo != nil {
			if ci := p.first("CreateOrUpdateAuthInfo"); ci != nil {
				c.needBefore(p, ci, w.beforeInfo)
			}
		}
		s := p.o.st
		res, oerr := p.o.ret[0], p.o.ret[1]
		var idt *Term
		wantIdt := no
		if w.idToken != nil {
			idt, wantIdt, _ = w.idToken(s)
		}
		switch s.isNil(oerr) {
		case yes:
			c.needAll(p, w.reqs, "granted")
			if !c.ob("T10 T12", "response object", s.isNil(res) == no, p.o.pos, nil, p, "granted without a response") || w.token == nil || w.info == nil {
				continue
			}
			r := p.snap(res)
			want := map[string]*Term{
				"TokenType":    mkStr("Bearer"),
				"AccessToken":  get(w.token, "GetAccessToken"),
				"ExpiresIn":    get(w.token, "GetAccessTokenExpiresIn"),
				"RefreshToken": get(w.token, "GetRefreshToken"),
				"Scope":        get(w.info, "GetScope"),
			}
			for _, f := range sortedKeys(want) {
				got := mkSel(r, f, nil)
				c.ob("T10", "response field "+f, p.same(got, want[f]), p.o.pos, nil, p, "response field %s is %s, should be %s", f, trunc(got.key, 160), want[f].key)
			}
			got := mkSel(r, "IdToken", nil)
			if w.idToken == nil {
				c.ob("T10", "response field IdToken", got.key == `""`, p.o.pos, nil, p, "an ID token is returned where none belongs: %s", trunc(got.key, 200))
				continue
			}
			switch wantIdt {
			case yes:
				ok := p.same(got, mkExtract(idt, 0, tString))
				c.ob("T10 I01 I03", "response field IdToken", ok, p.o.pos, nil, p, "ID token is %s, should be %s", trunc(got.key, 400), trunc(idt.key, 400))
				c.ob("T10 I01 I03", "ID token was made", s.truthNil(mkExtract(idt, 1, nil)) == yes, p.o.pos, nil, p, "the error of making the ID token was not checked")
			case no:
				c.ob("T10", "response field IdToken", got.key == `""`, p.o.pos, nil, p, "an ID token is returned without the openid scope")
			default:
				c.ob("T10", "response field IdToken", false, p.o.pos, nil, p, "granted without looking for the openid scope")
			}
		case no:
			code := c.codeOf(p, oerr)
			c.ob("T12 T13", "no response with an error", s.isNil(res) == yes, p.o.pos, nil, p, "an error is returned together with a response")
			c.ob("U07", "fresh error object", freshError(v, oerr), p.o.pos, nil, p, "the error object is not made for this request: %s", oerr.key)
			reqs := w.reqs
			if w.idToken != nil {
				reqs = append(append([]*Req{}, reqs...), &Req{id: "the ID token could be made", props: "I03", ok: func(s *State) tri {
					if idt == nil || wantIdt != yes {
						return unk
					}
					return s.truthNil(mkExtract(idt, 1, nil))
				}, codes: []string{"server_error"}})
			}
			c.justified(p, "T13", code, reqs)
		default:
			c.ob("T12 T13", "definite outcome", false, p.o.pos, nil, p, "it is not clear whether an error is returned: %s", oerr.key)
		}
	}
}

// freshError: the endpoints write to the error objects that grants return.
func freshError(v *View, t *Term) bool {
	return t.op == OObj && !v.e.shared[t]
}
