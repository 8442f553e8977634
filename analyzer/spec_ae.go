package main

import "strings"

// The authorization endpoint: properties A01-A13, on the paths of HandleRequest, CompleteRequest and
// CancelRequest.

const aeProps = "A01 A02 A03 A04 A05 A06 A07 A08 A09 A10 A12 A13"

func init() {
	register("authorization endpoint", aeProps+" I01 I03 U10", (*Check).checkAE)
	register("approval", "A01 A02 A05 A06 A09 A10 A11 A12 I01 I02 I03 U10", (*Check).checkComplete)
	register("cancellation", "A01 A02 A11 A12", (*Check).checkCancel)
}

var screens = map[string]bool{"ShowLoginScreen": true, "ShowConsentScreen": true}
var answers = map[string]bool{"Error": true, "Success": true, "ShowErrorScreen": true, "ShowLoginScreen": true, "ShowConsentScreen": true}

// cbReq: an application callback answered without an error.
func cbReq(id, props string, ev *Ev, codes ...string) *Req {
	return &Req{id: id, props: props, codes: codes, ok: func(s *State) tri {
		if ev == nil {
			return unk
		}
		return s.eqs(errOf(ev), tNil)
	}}
}

func lastBefore(p *Path, name string, n int) *Ev {
	var r *Ev
	for _, e := range p.evs {
		if e.name == name && e.n < n {
			r = e
		}
	}
	return r
}

// answeredOnce: property A12, and the events that are answers.
func (c *Check) answeredOnce(p *Path) bool {
	n := 0
	var last *Ev
	for _, e := range p.evs {
		if e.name == "redirect" || e.name == "status" || e.name == "write" {
			c.ob("A02 A12", "answered through the response mode", false, e.pos, e.fn, p, "an answer is written past the response handlers")
		}
		if !answers[e.name] {
			continue
		}
		if screens[e.name] {
			switch p.st().eqs(e.res, tNil) {
			case no:
				c.ob("A12", "failed screen is answered", e.n < len(p.evs), e.pos, e.fn, p, "%s failed and the client is not told", e.name)
				continue
			case unk:
				c.ob("A12", "screen's error is looked at", false, e.pos, e.fn, p, "the error of %s is not looked at", e.name)
			}
		}
		n++
		last = e
	}
	if n == 0 && p.v.name == "ae" {
		c.ob("A12 A04 A07 A08", "answered", false, p.o.pos, nil, p, "the request is not answered")
		return false
	}
	if !c.ob("A12", "answered once", n == 1, p.o.pos, nil, p, "the request is answered %d times", n) {
		return false
	}
	return c.ob("A12", "nothing after the answer", last.n == len(p.evs), last.pos, last.fn, p, "something happens after the answer %s", last.name)
}

// goodSoFar: everything asked for before ev was answered well.
func (c *Check) goodSoFar(p *Path, ev *Ev, except func(*Ev) bool) {
	s := p.at(ev.n)
	for _, e := range p.evs {
		if e.n >= ev.n {
			break
		}
		if !storageCalls[e.name] && !callbackErr[e.name] || except != nil && except(e) {
			continue
		}
		ok := s.eqs(errOf(e), tNil) == yes
		if ok && returnsObj[e.name] {
			ok = s.isNil(objOf(e)) == no
		}
		c.ob("A12", "stops at a failure", ok, ev.pos, ev.fn, p, "%s happens although the answer of %s was not checked to be good", ev.name, e.name)
	}
}

// request: the values that a request is about, as the code must know them.
type aeReq struct {
	ruri, state, scope, nonce, verifier, cid *Term
	isScope                                  func(*Term) bool
	isMode                                   func(*Term) bool
	flow                                     *Term
}

func (c *Check) checkAE() {
	v := c.view("ae")
	c.sound(v, aeProps)
	c.nopanic(v, "A12 A06")
	T := c.aeTopicsOf()
	cid, ruri, state, rt := form("client_id"), form("redirect_uri"), form("state"), form("response_type")
	judgeErr := mkExtract(mkCall("flow.JudgeByResponseType", nil, rt), 1, nil)
	d0, d1 := c.policyField("DefaultAuthorizationCodeFlowResponseMode"), c.policyField("DefaultImplicitFlowResponseMode")
	allowed := map[string]bool{"FindClientById": true, "ChooseLocale": true, "ConfirmLoginSession": true, "RequestIsFromLogin": true, "GetAuthTime": true,
		"GetLoginUserId": true, "LoginUserIsMatchedToSubject": true, "FindAuthInfoByUserIdAndClientId": true, "CreateAuthorizationCode": true,
		"CreateAuthSession": true, "CreateOAuthToken": true}
	for k := range answers {
		allowed[k] = true
	}
	konst := func(n string) *Term {
		k, ok := newEngine(c.p).constOf("prompt", n)
		c.ob("A06 A08", "configuration", ok, 0, nil, nil, "constant prompt.%s not found", n)
		return mkInt(k)
	}
	polSession, polLogin, polIdt := konst("NonePromptPolicyAllowWithLoginSession"), konst("NonePromptPolicyAllowIfLoginHintMatched"), konst("NonePromptPolicyAllowIfIdTokenHintMatched")
	polOmit := konst("NoConsentPromptPolicyOmitConsentIfCan")
	failed := c.failedConst()
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		s := p.o.st
		c.discipline(p, "A12", allowed)
		c.failStop(p, "A12")
		c.answeredOnce(p)

		// --- client and redirect URI
		fc := p.first("FindClientById")
		client := evObj(fc)
		if fc != nil {
			c.callArgs(p, "A01", fc, cid)
		}
		pre := []*Req{
			{id: "a client is named", props: "A01", ok: func(s *State) tri { return s.given(cid) }, codes: []string{"screen"}},
			{id: "a redirect URI is named", props: "A01", ok: func(s *State) tri { return s.given(ruri) }, codes: []string{"screen"}},
			func() *Req {
				r := c.storageReq("the client is known", "A01", fc, true, "screen")
				return &Req{id: r.id, props: r.props, ok: r.ok, codes: []string{"screen"}}
			}(),
			{id: "the client accepts the redirect URI", props: "A01", ok: func(s *State) tri {
				if client == nil {
					return unk
				}
				return s.is(get(client, "CanUseRedirectURI", ruri))
			}, codes: []string{"screen"}},
		}
		for _, e := range p.evs {
			switch e.name {
			case "FindClientById", "ShowErrorScreen":
			default:
				c.needBefore(p, e, pre)
			}
			if e.name == "ShowErrorScreen" {
				c.justified(p, "A01", "screen", pre)
			}
		}
		if len(p.ev("ShowErrorScreen")) > 0 {
			continue
		}

		// --- the request itself
		none, login, consent := T.member(s, T.prompt, "none"), T.member(s, T.prompt, "login"), T.member(s, T.prompt, "consent")
		topicReq := func(id, props string, t *Topic, code string) *Req {
			return &Req{id: id, props: props, ok: t.satisfied, codes: []string{code}}
		}
		rMode := topicReq("the response mode is known and strong enough", "A03", T.mode, "invalid_request")
		reqs := []*Req{
			{id: "a response type is named", props: "A04", ok: func(s *State) tri { return s.given(rt) }, codes: []string{"invalid_request"}},
			{id: "the response type is known", props: "A04", ok: func(s *State) tri { return s.truthNil(judgeErr) }, codes: []string{"invalid_request"}},
			rMode,
			{id: "the client may use the flow", props: "A04", ok: func(s *State) tri {
				if client == nil {
					return unk
				}
				return s.is(get(client, "CanUseFlow", T.ftype))
			}, codes: []string{"unauthorized_client"}},
			topicReq("display is known", "A04", T.display, "invalid_request"),
			topicReq("max_age is within bounds", "A04", T.age, "invalid_request"),
			topicReq("prompt is valid", "A04", T.prompt, "invalid_request"),
			topicReq("offline_access comes with something else", "A05", T.scope, "invalid_request"),
			topicReq("the scope is not empty", "A04", T.empty, "invalid_request"),
			topicReq("an ID token is requested with openid", "A04", T.openid, "invalid_request"),
			{id: "the client may use the scope", props: "A04", ok: func(s *State) tri {
				if client == nil {
					return unk
				}
				return T.each(s, T.scope, func(x *Term) tri { return s.is(get(client, "CanUseScope", T.ftype, x)) })
			}, codes: []string{"invalid_scope"}},
			topicReq("nonce is there when needed and not too long", "A04", T.nonce, "invalid_request"),
			topicReq("the code verifier is not too long", "A04", T.verify, "invalid_request"),
		}
		loc := p.first("ChooseLocale")
		if loc != nil {
			c.callArgs(p, "A13", loc, form("ui_locales"))
		}
		proceed := append([]*Req{}, reqs...)
		for _, e := range p.evs {
			if e.name == "FindClientById" || e.name == "Error" || e.name == "ChooseLocale" {
				continue
			}
			c.needBefore(p, e, proceed)
		}
		reqs = append(reqs, cbReq("the locale could be chosen", "A12", loc, "server_error"))

		// --- the user
		var now *Term
		for a := range s.facts {
			a.walk(func(x *Term) bool {
				if x.op == OCall && x.s == "unix" && x.args[0].op == OInv && x.args[0].s == "now" && x.args[0].mentions(pA) {
					now = x
				}
				return true
			})
		}
		cl, rl, gu, fa, lm := p.first("ConfirmLoginSession"), p.first("RequestIsFromLogin"), p.first("GetLoginUserId"), p.first("FindAuthInfoByUserIdAndClientId"), p.first("LoginUserIsMatchedToSubject")
		loginCodes := []string{}
		if none == yes {
			loginCodes = []string{"login_required"}
		}
		boolOf := func(e *Ev) func(*State) tri {
			return func(s *State) tri {
				if e == nil {
					return unk
				}
				return all(s.eqs(errOf(e), tNil), s.is(objOf(e)))
			}
		}
		pos := func(f func(*State) tri, e *Ev) func(*State) tri { // no only if the callback itself worked
			return func(s *State) tri {
				if e != nil && s.eqs(errOf(e), tNil) != yes {
					return unk
				}
				return f(s)
			}
		}
		rSess := &Req{id: "a login session is confirmed", props: "A07", codes: loginCodes, ok: pos(boolOf(cl), cl)}
		rFresh := &Req{id: "a demanded login just happened", props: "A07", codes: loginCodes, ok: func(s *State) tri {
			lg := T.member(s, T.prompt, "login")
			if T.member(s, T.prompt, "none") == yes {
				lg = no
			}
			return some(lg.not(), pos(boolOf(rl), rl)(s))
		}}
		rAge := &Req{id: "the last login is no older than max_age", props: "A06 A07", codes: loginCodes, ok: func(s *State) tri {
			return T.each(s, T.age, func(m *Term) tri {
				r := s.cond(mkLess(mkInt(0), m, false)).not()
				if now == nil {
					return r
				}
				for _, ga := range p.ev("GetAuthTime") {
					x := s.cond(mkLess(mkAdd(now, objOf(ga), -1), m, true))
					r = some(r, x)
					if r == yes {
						return yes
					}
					if x == no && s.cond(mkLess(mkInt(0), m, false)) == yes {
						return no
					}
				}
				if len(p.ev("GetAuthTime")) == 0 && r == no {
					return unk
				}
				return r
			})
		}}
		user := []*Req{rSess, rFresh, rAge}
		var cbs []*Req
		for _, e := range p.evs {
			if callbackErr[e.name] {
				cbs = append(cbs, cbReq("the callback "+e.name+" worked", "A12", e, "server_error"))
			}
		}
		if gu != nil && fa != nil {
			c.callArgs(p, "A06 A08", fa, objOf(gu), cid)
		}
		for _, e := range p.ev("FindClientById") {
			if e != fc {
				c.callArgs(p, "A01 A09", e, cid)
			}
		}
		info := evObj(fa)
		rInfo := c.storageReq("the user's authorization was found", "A06 A08 A12", fa, true, "consent_required")
		rConsent := &Req{id: "the authorization is active, has the same scope and recent consent", props: "A06 A08", codes: []string{"consent_required"}, ok: func(s *State) tri {
			if info == nil {
				return unk
			}
			same := T.each(s, T.scope, func(x *Term) tri {
				a, b := get(info, "GetScope"), x
				if b.key < a.key {
					a, b = b, a
				}
				return some(s.truth(mkCall("scope.Same", nil, a, b)), s.eqs(a, b))
			})
			if same == unk {
				// an equality that fails says nothing; Same that fails does
				same = T.each(s, T.scope, func(x *Term) tri {
					a, b := get(info, "GetScope"), x
					if b.key < a.key {
						a, b = b, a
					}
					return s.truth(mkCall("scope.Same", nil, a, b))
				})
			}
			recent := unk
			if now != nil {
				until := mkAdd(get(info, "GetAuthorizedAt"), c.policyField("ConsentOmissionPeriod"), 1)
				switch {
				case s.cond(mkLess(now, until, true)) == yes:
					recent = yes
				case s.cond(mkLess(until, now, true)) == yes:
					recent = no
				}
			}
			return all(s.is(get(info, "IsActive")), same, recent)
		}}
		polNone := func() *Term {
			if client == nil {
				return nil
			}
			return get(client, "GetNonePromptPolicy")
		}()
		is := func(s *State, k *Term) tri {
			if polNone == nil {
				return unk
			}
			return s.eqs(polNone, k)
		}
		lh, ih := form("login_hint"), form("id_token_hint")
		sub := asType(claim(ih, "sub"), tString)
		hinted := func(want tri, k *Term, f func(s *State) tri) func(*State) tri {
			return func(s *State) tri { return some(is(s, k).not(), f(s)) }
		}
		key := func(s *State) []*Term {
			if client == nil {
				return nil
			}
			k := get(client, "GetIdTokenKey")
			return []*Term{k, mkInv(k, "Public", nil)}
		}
		matched := func(arg *Term) func(*State) tri {
			return func(s *State) tri {
				if lm == nil || !p.same(lm.args[0], arg) {
					return unk
				}
				return pos(boolOf(lm), lm)(s)
			}
		}
		silent := []*Req{
			{id: "the client's policy allows prompt=none", props: "A06", codes: []string{"interaction_required"}, ok: func(s *State) tri {
				return some(is(s, polSession), is(s, polLogin), is(s, polIdt))
			}},
			{id: "the login hint is there", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polLogin, func(s *State) tri { return s.given(lh) })},
			{id: "the login hint matches the user", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polLogin, matched(lh))},
			{id: "the ID token hint is there", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polIdt, func(s *State) tri { return s.given(ih) })},
			{id: "the ID token hint verifies under the client's key", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polIdt, func(s *State) tri {
				ks := key(s)
				if ks == nil {
					return unk
				}
				if s.truth(mkCall("jwt.wellformed", nil, ih)) == no {
					return no
				}
				priv, pub := s.truth(mkVerified(ih, ks[0])), s.truth(mkVerified(ih, ks[1]))
				signer := unk
				for a, f := range s.facts {
					if a.op == OAssertOk && a.args[0] == ks[0] && strings.HasSuffix(a.s, "crypto.Signer") {
						signer = tb(f.val)
					}
				}
				if signer == no && pub == yes {
					return unk
				}
				if signer == unk && priv == no {
					return unk // a signer's own tokens verify under its public key only
				}
				switch signer {
				case yes:
					return pub
				case no:
					return priv
				}
				return some(priv, pub)
			})},
			{id: "the ID token hint has an expiry", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polIdt, func(s *State) tri { return isType(s, claim(ih, "exp"), tFloat) })},
			{id: "the ID token hint has a subject", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polIdt, func(s *State) tri { return isType(s, claim(ih, "sub"), tString) })},
			{id: "the ID token hint matches the user", props: "A06", codes: []string{"invalid_request"}, ok: hinted(yes, polIdt, matched(sub))},
		}
		record := []*Req{cbReq("the user is known", "A06 A08", gu, "server_error"), rInfo, rConsent}

		// --- screens
		for _, e := range p.evs {
			if !screens[e.name] {
				continue
			}
			c.ob("A06", "no screen for prompt=none", none == no, e.pos, e.fn, p, "%s although the prompt may be none", e.name)
			c.goodSoFar(p, e, func(x *Ev) bool {
				return x == fa && e.name == "ShowConsentScreen" && s.eqs(bridgeErrType(errOf(fa)), failed) == yes
			})
			if e.name == "ShowConsentScreen" {
				c.needBefore(p, e, user)
				c.ob("A13", "consent for the client", len(e.args) == 2 && client != nil && p.same(e.args[0], client), e.pos, e.fn, p, "the consent screen is shown for %s", trunc(e.args[0].key, 120))
			} else {
				why := false
				st := p.at(e.n)
				for _, r := range user {
					why = why || r.ok(st) == no
				}
				c.ob("A07", "login screen justified", why, e.pos, e.fn, p, "the login screen is shown although no login is known to be needed")
			}
			c.pending(p, e, e.args[len(e.args)-1], T, loc)
		}

		// --- issuing
		q := &aeReq{ruri: ruri, state: state, nonce: form("nonce"), verifier: form("code_verifier"), cid: cid, flow: T.flow,
			isScope: func(x *Term) bool { return T.scope.value(p, x) },
			isMode:  func(x *Term) bool { return T.mode.value(p, x) }}
		for _, r := range T.of(s, T.scope) {
			q.scope = r
			break
		}
		q.isMode = func(x *Term) bool {
			switch {
			case s.given(rt) == no || s.truthNil(judgeErr) == no:
				return p.same(x, form("response_mode"))
			case T.mode.satisfied(s) == no:
				switch s.eqs(T.ftype, mkInt(0)) {
				case yes:
					return p.same(x, d0)
				case no:
					return p.same(x, d1)
				}
				return false
			}
			return T.mode.value(p, x)
		}
		issue := c.issueReqs(p, q, info, now)
		silentAll := append(append(append([]*Req{}, silent...), user...), record...)
		for _, e := range p.evs {
			switch e.name {
			case "Success", "CreateAuthSession", "CreateOAuthToken", "CreateAuthorizationCode":
			default:
				continue
			}
			props := "A06 A07 A08"
			c.ob(props, "issuing decided", none != unk, e.pos, e.fn, p, "%s although it is not known whether the prompt is none", e.name)
			c.needBefore(p, e, user)
			c.needBefore(p, e, record)
			if none == yes {
				c.needBefore(p, e, silent)
			} else if none == no {
				c.ob("A08", "consent skipped only if not demanded", consent == no, e.pos, e.fn, p, "%s without consent although the prompt may demand it", e.name)
				omit := unk
				if client != nil {
					omit = p.at(e.n).eqs(get(client, "GetNoConsentPromptPolicy"), polOmit)
				}
				c.ob("A08", "consent skipped only by policy", omit == yes, e.pos, e.fn, p, "%s without consent although the client's policy is not known to permit that", e.name)
			}
			if e.name == "Success" {
				c.goodSoFar(p, e, nil)
				c.success(p, e, q, info, now, issue)
			}
		}
		c.issued(p, q, info)

		// --- refusals
		for _, e := range p.ev("Error") {
			c.answer(p, e, q)
			code := strVal0(e.args[2])
			rs := append(append(append(append(append([]*Req{}, reqs...), cbs...), silentAll...), issue...))
			if none != yes {
				rs = append(append(append(append([]*Req{}, reqs...), cbs...), user...), issue...)
				rs = append(rs, &Req{id: rInfo.id, props: rInfo.props, ok: rInfo.ok, code: func(s *State) []string {
					var l []string
					for _, k := range rInfo.answers(s) {
						if k == "server_error" {
							l = append(l, k)
						}
					}
					return l
				}})
			}
			c.justified(p, "A12", code, rs)
		}
		_ = login
	}
}

// pending: property A13 (and A05 for the scope).
func (c *Check) pending(p *Path, e *Ev, r *Term, T *aeTopics, loc *Ev) {
	if r.op == OIface {
		r = r.args[0]
	}
	if !c.ob("A13", "pending request", r.op == OStruct, e.pos, e.fn, p, "the pending request is %s", trunc(r.key, 120)) {
		return
	}
	eq := func(x *Term) func(*Term) bool { return func(y *Term) bool { return p.same(x, y) } }
	is := func(t *Topic) func(*Term) bool { return func(y *Term) bool { return t.value(p, y) } }
	want := map[string]func(*Term) bool{
		"Flow": eq(T.flow), "ClientId": eq(form("client_id")), "Scope": is(T.scope), "RedirectURI": eq(form("redirect_uri")),
		"ResponseMode": is(T.mode), "State": eq(form("state")), "CodeVerifier": eq(form("code_verifier")), "Nonce": eq(form("nonce")),
		"Display": is(T.display), "Prompt": is(T.prompt), "MaxAge": is(T.age), "IdTokenHint": eq(form("id_token_hint")), "LoginHint": eq(form("login_hint")),
		"UILocale": func(y *Term) bool { return loc != nil && p.same(objOf(loc), y) },
	}
	extra := map[string]string{"Scope": " A05", "ResponseMode": " A02 A03"}
	for _, k := range sortedKeys(want) {
		got := mkSel(r, k, nil)
		c.ob("A13"+extra[k], "pending request field "+k, want[k](got), e.pos, e.fn, p, "field %s of the pending request is %s", k, trunc(got.key, 160))
	}
}

// answer: property A02 for one answer to the redirect URI.
func (c *Check) answer(p *Path, e *Ev, q *aeReq) {
	c.ob("A02 A03", "negotiated mode", q.isMode(e.args[0]), e.pos, e.fn, p, "%s is sent through mode %s", e.name, trunc(e.args[0].key, 160))
	c.ob("A01 A02", "own redirect URI", p.same(e.args[1], q.ruri), e.pos, e.fn, p, "%s is sent to %s", e.name, trunc(e.args[1].key, 160))
	if e.name == "Error" {
		c.ob("A02", "state echoed", len(e.args) == 5 && p.same(e.args[4], q.state), e.pos, e.fn, p, "the error's state is %s", trunc(e.args[4].key, 160))
	}
}

// issueReqs: what making the answer needs (errors are answered server_error).
func (c *Check) issueReqs(p *Path, q *aeReq, info, now *Term) []*Req {
	var rs []*Req
	for _, e := range p.evs {
		switch e.name {
		case "CreateOAuthToken":
			rs = append(rs, serverOnly(c.storageReq("the token was created", "A09 A12", e, true, "server_error")))
		case "CreateAuthSession":
			rs = append(rs, serverOnly(c.storageReq("the session was stored", "A10 A12", e, false, "server_error")))
		case "FindClientById":
			rs = append(rs, serverOnly(c.storageReq("the client was found", "A09 A12", e, true, "server_error")))
		}
	}
	for a, f := range p.st().facts {
		if a.op == OEq && a.args[1] == tNil && !f.val && a.args[0].op == OExtract && a.args[0].s == "1" && a.args[0].args[0].op == OCall && strings.HasPrefix(a.args[0].args[0].s, "id_token.Gen") {
			rs = append(rs, &Req{id: "the ID token could be made", props: "I03 A09", codes: []string{"server_error"}, ok: func(*State) tri { return no }})
		}
	}
	return rs
}

func serverOnly(r *Req) *Req {
	return &Req{id: r.id, props: r.props, ok: r.ok, codes: []string{"server_error"}}
}

// issued: what is created is bound to the request (properties A09, A10).
func (c *Check) issued(p *Path, q *aeReq, info *Term) {
	for _, e := range p.evs {
		switch e.name {
		case "CreateAuthSession":
			if info == nil {
				c.ob("A10", "session for the user's record", false, e.pos, e.fn, p, "a session is stored without a record")
				continue
			}
			c.callArgs(p, "A10", e, info)
			ss := e.args[1]
			if ss.op == OIface {
				ss = ss.args[0]
			}
			cc := lastBefore(p, "CreateAuthorizationCode", e.n)
			ga := lastBefore(p, "GetAuthTime", e.n)
			if !c.ob("A10", "session content", ss.op == OStruct && cc != nil && ga != nil, e.pos, e.fn, p, "the session is %s", trunc(ss.key, 200)) {
				continue
			}
			want := map[string]*Term{"RedirectURI": q.ruri, "Code": objOf(cc), "ExpiresIn": c.policyField("AuthSessionExpiresIn"), "CodeVerifier": q.verifier, "Nonce": q.nonce}
			for _, k := range sortedKeys(want) {
				got := mkSel(ss, k, nil)
				c.ob("A10 U10", "session field "+k, p.same(got, want[k]), e.pos, e.fn, p, "field %s of the session is %s", k, trunc(got.key, 160))
			}
			got := mkSel(ss, "AuthTime", nil)
			ok := false
			for _, g := range p.ev("GetAuthTime") {
				ok = ok || p.same(got, objOf(g))
			}
			c.ob("A10 U10", "session field AuthTime", ok, e.pos, e.fn, p, "field AuthTime of the session is %s", trunc(got.key, 160))
		case "CreateOAuthToken":
			if info == nil {
				c.ob("A09", "token for the user's record", false, e.pos, e.fn, p, "a token is created without a record")
				continue
			}
			c.callArgs(p, "A09", e, info, tFalse)
		}
	}
}

// success: the answer carries exactly what the flow promises (properties A02, A09, A10, I03).
func (c *Check) success(p *Path, e *Ev, q *aeReq, info, now *Term, issue []*Req) {
	s := p.st()
	c.answer(p, e, q)
	m := e.args[2]
	if !c.ob("A09", "answer parameters", m.op == OMap && info != nil, e.pos, e.fn, p, "the answer is %s", trunc(m.key, 200)) {
		return
	}
	kv, base := m.mapParts()
	c.ob("A09", "answer parameters", base == nil, e.pos, e.fn, p, "the answer is %s", trunc(m.key, 200))
	got := map[string]*Term{}
	for i := 0; i+1 < len(kv); i += 2 {
		k, ok := kv[i].str()
		c.ob("A09", "answer parameters", ok, e.pos, e.fn, p, "the answer has a parameter named %s", kv[i].key)
		got[k] = kv[i+1]
	}
	for k := range got {
		switch k {
		case "code", "state", "scope", "access_token", "token_type", "expires_in", "id_token":
		default:
			c.ob("A09", "answer parameters", false, e.pos, e.fn, p, "the answer has a parameter %s", k)
		}
	}
	has := func(k string) bool { return got[k] != nil }
	// state
	switch s.given(q.state) {
	case yes:
		c.ob("A02", "state echoed", has("state") && p.same(got["state"], q.state), e.pos, e.fn, p, "the answer does not carry the request's state")
	case no:
		c.ob("A02", "state echoed", !has("state") || p.same(got["state"], mkStr("")), e.pos, e.fn, p, "the answer carries a state although none was given")
	default:
		c.ob("A02", "state echoed", has("state") && p.same(got["state"], q.state), e.pos, e.fn, p, "the answer does not carry the request's state")
	}
	if has("scope") {
		c.ob("A09", "answer scope", q.isScope(got["scope"]), e.pos, e.fn, p, "the answer's scope is %s", trunc(got["scope"].key, 160))
	}
	ft := mkSel(q.flow, "Type", nil)
	isCode, isImplicit := s.eqs(ft, mkInt(0)), s.eqs(ft, mkInt(1))
	c.ob("A09", "flow decided", isCode == yes || isImplicit != unk, e.pos, e.fn, p, "an answer is given although the flow is not known")
	withCode := isImplicit == no || isCode == yes
	// code
	var code *Term
	if cc := lastBefore(p, "CreateAuthorizationCode", e.n); cc != nil {
		code = objOf(cc)
	}
	c.ob("A09", "code for flows with a code", has("code") == withCode, e.pos, e.fn, p, "an answer with a code: %v, the flow has one: %v", has("code"), withCode)
	if has("code") {
		c.ob("A09 A10", "the code that was made", code != nil && p.same(got["code"], code), e.pos, e.fn, p, "the code is %s", trunc(got["code"].key, 160))
		cs := lastBefore(p, "CreateAuthSession", e.n)
		c.ob("A10", "session stored first", cs != nil && p.at(e.n).eqs(errOf(cs), tNil) == yes, e.pos, e.fn, p, "a code is sent although its session is not known to be stored")
	}
	// access token
	wantAT, wantID := s.is(mkSel(q.flow, "RequireAccessToken", nil)), s.is(mkSel(q.flow, "RequireIdToken", nil))
	if isCode == yes { // the code flow asks for neither (property U03)
		wantAT, wantID = no, no
	}
	c.ob("A09", "token as asked", wantAT != unk && has("access_token") == (wantAT == yes), e.pos, e.fn, p, "an access token is returned: %v, although it is not known that the response type says so", has("access_token"))
	at := mkStr("")
	if has("access_token") {
		ct := lastBefore(p, "CreateOAuthToken", e.n)
		if c.ob("A09", "the token that was made", ct != nil, e.pos, e.fn, p, "the access token is %s", trunc(got["access_token"].key, 160)) {
			tok := objOf(ct)
			at = get(tok, "GetAccessToken")
			c.ob("A09", "the token that was made", p.same(got["access_token"], at), e.pos, e.fn, p, "the access token is %s", trunc(got["access_token"].key, 160))
			c.ob("A09", "token type", has("token_type") && strings.EqualFold(strVal0(got["token_type"]), "bearer"), e.pos, e.fn, p, "the token comes without its type")
			c.ob("A09", "token lifetime", has("expires_in") && p.same(got["expires_in"], mkCall("itoa", nil, get(tok, "GetAccessTokenExpiresIn"))), e.pos, e.fn, p, "the token comes without its lifetime")
		}
	} else {
		c.ob("A09", "no token", !has("token_type") && !has("expires_in"), e.pos, e.fn, p, "token parameters without a token")
	}
	// ID token
	c.ob("A09", "ID token as asked", wantID != unk && has("id_token") == (wantID == yes), e.pos, e.fn, p, "an ID token is returned: %v, although it is not known that the response type says so", has("id_token"))
	if has("id_token") {
		ok := false
		var w *Term
		di := c.aePart("storage")
		nowT := mkInv(c.aePart("clock"), "now", nil)
		for _, fc := range p.ev("FindClientById") {
			for _, ga := range p.ev("GetAuthTime") {
				if withCode {
					w = genTerm("id_token.GenForHybrid", objOf(fc), di, info, q.nonce, c.policyField("IdTokenExpiresIn"), objOf(ga), at, code, nowT)
				} else {
					w = genTerm("id_token.GenForImplicit", objOf(fc), di, info, q.nonce, c.policyField("IdTokenExpiresIn"), objOf(ga), at, nil, nowT)
				}
				if p.same(got["id_token"], mkExtract(w, 0, tString)) && p.same(fc.args[0], q.cid) {
					ok = true
					c.ob("I03 A09", "ID token was made", s.truthNil(mkExtract(w, 1, nil)) == yes, e.pos, e.fn, p, "the error of making the ID token was not checked")
				}
			}
		}
		ws := "not possible"
		if w != nil {
			ws = trunc(w.key, 700)
		}
		c.ob("A09 I01 I02 I03", "ID token for this answer", ok, e.pos, e.fn, p, "the ID token is %s, should be %s", trunc(got["id_token"].key, 700), ws)
	}
}

// pendingReq: the fields of the pending request that the application hands back.
func pendingReq(p *Path) (*Ev, *aeReq) {
	cont := p.first("Continue")
	if cont == nil {
		return nil, nil
	}
	x := objOf(cont)
	f := func(n string) *Term { return mkSel(x, n, nil) }
	q := &aeReq{ruri: f("RedirectURI"), state: f("State"), scope: f("Scope"), nonce: f("Nonce"), verifier: f("CodeVerifier"), cid: f("ClientId"), flow: f("Flow")}
	q.isScope = func(y *Term) bool { return p.same(y, q.scope) }
	q.isMode = func(y *Term) bool { return p.same(y, f("ResponseMode")) }
	return cont, q
}

func (c *Check) checkComplete() {
	v := c.view("complete")
	props := "A01 A02 A09 A10 A11 A12"
	c.sound(v, props)
	c.nopanic(v, "A12")
	allowed := map[string]bool{"Continue": true, "GetLoginUserId": true, "CreateOrUpdateAuthInfo": true, "FindClientById": true, "GetAuthTime": true,
		"CreateAuthorizationCode": true, "CreateAuthSession": true, "CreateOAuthToken": true, "Error": true, "Success": true}
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		s := p.o.st
		c.discipline(p, "A11 A12", allowed)
		c.failStop(p, "A12")
		cont, q := pendingReq(p)
		if !c.ob("A11", "pending request is loaded", cont != nil, p.o.pos, nil, p, "the pending request is not loaded") {
			continue
		}
		if s.eqs(errOf(cont), tNil) == no {
			c.ob("A11 A12", "nothing without a pending request", len(p.evs) == 1, p.o.pos, nil, p, "something happens although the pending request could not be loaded")
			continue
		}
		c.answeredOnce(p)
		gu, cu := p.first("GetLoginUserId"), p.first("CreateOrUpdateAuthInfo")
		if cu != nil {
			var uid *Term
			if gu != nil {
				uid = objOf(gu)
			}
			c.ob("A11", "recorded for the user who is logged in", uid != nil, cu.pos, cu.fn, p, "the authorization is recorded for %s", cu.args[0].key)
			c.callArgs(p, "A05 A09 A11", cu, uid, q.cid, q.scope)
		}
		info := evObj(cu)
		for _, e := range p.ev("FindClientById") {
			c.callArgs(p, "A09 A11", e, q.cid)
		}
		rInfo := serverOnly(c.storageReq("the authorization was recorded", "A11 A12", cu, true, "server_error"))
		rUser := cbReq("the user is known", "A11 A12", gu, "server_error")
		issue := c.issueReqs(p, q, info, nil)
		c.issued(p, q, info)
		for _, e := range p.evs {
			switch e.name {
			case "Success", "CreateAuthSession", "CreateOAuthToken", "CreateAuthorizationCode":
				c.needBefore(p, e, []*Req{rUser, rInfo})
			}
		}
		var cbs []*Req
		for _, e := range p.evs {
			if callbackErr[e.name] {
				cbs = append(cbs, cbReq("the callback "+e.name+" worked", "A12", e, "server_error"))
			}
		}
		for _, e := range p.ev("Success") {
			c.goodSoFar(p, e, nil)
			c.success(p, e, q, info, nil, issue)
		}
		for _, e := range p.ev("Error") {
			c.answer(p, e, q)
			c.justified(p, "A11 A12", strVal0(e.args[2]), append(append([]*Req{rInfo}, cbs...), issue...))
		}
	}
}

func (c *Check) checkCancel() {
	v := c.view("cancel")
	c.sound(v, "A01 A02 A11 A12")
	c.nopanic(v, "A12")
	allowed := map[string]bool{"Continue": true, "Error": true}
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		c.discipline(p, "A11 A12", allowed)
		cont, q := pendingReq(p)
		if !c.ob("A11", "pending request is loaded", cont != nil, p.o.pos, nil, p, "the pending request is not loaded") {
			continue
		}
		if p.st().eqs(errOf(cont), tNil) == no {
			c.ob("A11 A12", "nothing without a pending request", len(p.evs) == 1, p.o.pos, nil, p, "something happens although the pending request could not be loaded")
			continue
		}
		c.answeredOnce(p)
		for _, e := range p.ev("Error") {
			c.answer(p, e, q)
			c.ob("A11", "cancelled", strVal0(e.args[2]) == "access_denied", e.pos, e.fn, p, "a cancelled request is answered %s", e.args[2].key)
		}
	}
}
