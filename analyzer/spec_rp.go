package main

import (
	"go/types"
	"strings"
)

// The resource protector: properties R01 to R05.

func init() {
	register("resource protector", "R01 R02 R03 R04 R05", func(c *Check) {
		c.checkRP("rp", false)
		c.checkRP("rps", true)
	})
}

var authHdr = mkCall("hdr", tString, mkStr("Authorization"))

func fromHeader(t *Term) bool { return t.mentions(authHdr) }

// bearerToken: is t the token of an Authorization header, and is its scheme known to be Bearer?
func bearerToken(s *State, t *Term) tri {
	for {
		if t.op == OCall && t.s == "strings.TrimSpace" {
			t = t.args[0]
		} else if t.op == OIdx && t.args[1].key == "0" && t.args[0].op == OCall && (t.args[0].s == "strings.Split" || t.args[0].s == "strings.Fields") && t.args[0].args[0] != authHdr {
			t = t.args[0].args[0] // the first word of the rest
		} else {
			break
		}
	}
	scheme := func(x *Term, want string) tri {
		return some(s.truth(mkCall("foldeq", nil, x, mkStr(want))), s.truth(mkCall("strings.EqualFold", nil, x, mkStr(want))))
	}
	var l *Term
	switch {
	case t.op == OIdx && t.args[1].key == "1" && t.args[0].op == OCall && t.args[0].args[0] == authHdr:
		switch t.args[0].s {
		case "strings.Split", "strings.SplitN":
			if len(t.args[0].args) < 2 || t.args[0].args[1].key != `" "` {
				return no
			}
		case "strings.Fields":
		default:
			return no
		}
		l = t.args[0]
		if r := scheme(mkIdx(l, mkInt(0), tString), "bearer"); r == yes {
			return yes
		}
		return scheme(mkIdx(mkCall("strings.Split", nil, authHdr, mkStr(" ")), mkInt(0), tString), "bearer")
	case t.op == OCall && t.s == "cut.after" && t.args[0] == authHdr && t.args[1].key == `" "`:
		return scheme(mkIdx(mkCall("strings.Split", nil, authHdr, mkStr(" ")), mkInt(0), tString), "bearer")
	case t.op == OSlice && t.args[0] == authHdr:
		for a, f := range s.facts {
			if f.val && a.op == OCall && len(a.args) == 2 && a.args[1].key == `"bearer "` &&
				(a.s == "foldeq" || a.s == "strings.HasPrefix" && a.args[0].op == OCall && a.args[0].s == "strings.ToLower") && fromHeader(a) {
				if strings.HasPrefix(t.key, authHdr.key+"[7:") {
					return yes
				}
			}
		}
		return unk
	}
	return no
}

var split3 = map[string]bool{"strings.Split": true, "strings.SplitN": true, "strings.Fields": true}

// noBearer: the path knows that the header carries no Bearer token.
func noBearer(s *State) bool {
	for a, f := range s.facts {
		switch {
		case !fromHeader(a):
		case a.op == OCall && a.s == "strings.Contains" && a.args[0] == authHdr && a.args[1].key == `" "` && !f.val:
			return true
		case a.op == OCall && (a.s == "foldeq" || a.s == "strings.HasPrefix") && len(a.args) == 2 && strings.HasPrefix(strVal0(a.args[1]), "bearer") && !f.val:
			return true
		case a.op == OLE && a.args[0].op == OLen && f.val && a.args[0].args[0].op == OCall && split3[a.args[0].args[0].s] && a.k.Int64() <= 1:
			return true
		case a.op == OLE && f.val && a.args[0] == mkLen(authHdr) && a.k.Int64() <= 7: // too short for a scheme and a token
			return true
		case a.op == OLE && f.val && a.args[0].op == OCall && a.args[0].s == "strings.Index" && a.args[0].args[0] == authHdr && a.args[0].args[1].key == `" "` && a.k.Int64() <= 0:
			return true
		case a.op == OEq && f.val && a.args[1].key == `""`:
			if x := a.args[0]; x == authHdr || bearerToken(s, x) != no {
				return true
			}
		}
	}
	return false
}

func (c *Check) checkRP(name string, scopes bool) {
	v := c.view(name)
	all5 := "R01 R02 R03 R04 R05"
	c.sound(v, all5)
	c.nopanic(v, "R05")
	rp := mkParam("rp", nil)
	di := mkParam("di", nil)
	ro := c.roles("R04", rp, "rp", "ResourceProtector", "AcceptAccessToken", "", "NewResourceProtector")
	if ro.meth == nil || ro.realm == nil {
		return
	}
	_ = di
	allowed := map[string]bool{"FindOAuthTokenByAccessToken": true, "FindActiveAuthInfoById": true, "reqheader": true, "status": true, "write": true, "store": true}
	path := mkSel(mkSel(pR, "URL", nil), "Path", nil)
	need := mkLookup(mkParam("scopes", nil), path, nil)
	bodyTok, anyTok := post("access_token"), form("access_token")
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		s := p.o.st
		c.discipline(p, "R05", allowed)
		ft := p.first("FindOAuthTokenByAccessToken")
		fi := p.first("FindActiveAuthInfoById")
		if ft != nil && len(ft.args) > 0 {
			t := ft.args[0]
			st := p.at(ft.n)
			switch {
			case fromHeader(t):
				c.ob("R04", "token source", bearerToken(st, t) == yes, ft.pos, ft.fn, p, "the token is taken from the header as %s although its scheme is not known to be Bearer", trunc(t.key, 160))
			case t == bodyTok:
				c.ob("R04", "token source", noBearer(st) && st.eqs(ro.meth, ro.body) == yes, ft.pos, ft.fn, p, "the token is taken from the POST body although the header was not found empty or the body is not enabled")
			case t == anyTok:
				c.ob("R04", "token source", noBearer(st) && st.eqs(ro.meth, ro.allLoc) == yes, ft.pos, ft.fn, p, "the token is taken from any parameter although the header was not found empty or not all locations are enabled")
			default:
				c.ob("R04 R01", "token source", false, ft.pos, ft.fn, p, "the token is taken from %s", trunc(t.key, 160))
			}
		}
		tok := evObj(ft)
		info := evObj(fi)
		if fi != nil && tok != nil {
			c.callArgs(p, "R01 R02", fi, get(tok, "GetAuthId"))
		}
		// the endpoint asks its clock; every reading is the same instant here
		var now *Term
		for a := range s.facts {
			a.walk(func(x *Term) bool {
				if x.op == OCall && x.s == "unix" && x.args[0].op == OInv && x.args[0].s == "now" && x.args[0].mentions(rp) {
					now = x.args[0]
				}
				return true
			})
		}
		live := &Req{id: "the token has not outlived its lifetime", props: "R01", codes: []string{"invalid_token"}, ok: func(s *State) tri {
			if tok == nil || now == nil {
				return unk
			}
			return s.cond(mkLess(unixOf(now), mkAdd(get(tok, "GetRefreshedAt"), get(tok, "GetAccessTokenExpiresIn"), 1), true))
		}}
		rTok := &Req{id: "a token is presented", props: "R04", codes: []string{"invalid_request"}, ok: func(s *State) tri {
			if ft != nil && len(ft.args) > 0 {
				return s.given(ft.args[0])
			}
			if !noBearer(s) {
				return unk
			}
			for _, k := range []struct{ m, t *Term }{{ro.body, bodyTok}, {ro.allLoc, anyTok}} {
				switch s.eqs(ro.meth, k.m) {
				case yes:
					return s.given(k.t)
				case unk:
					if s.given(k.t) != no {
						return unk
					}
				}
			}
			return no
		}}
		rFind := c.storageReq("the token is known", "R01 R05", ft, true, "invalid_token")
		rInfo := c.storageReq("the authorization is still active", "R01 R02 R05", fi, true, "invalid_token")
		reqs := []*Req{rTok, rFind, live, rInfo}
		if scopes {
			reqs = append(reqs, &Req{id: "the token's scope covers what the path requires", props: "R03", codes: []string{"insufficient_scope"}, ok: func(s *State) tri {
				if info == nil {
					return unk
				}
				inc := mkExtract(mkCall("scope.IncludeAll", nil, get(info, "GetScope"), need), 0, nil)
				if s.is(inc) == no {
					return no // an empty list is included in every scope (property U01)
				}
				// or one by one
				sc := get(info, "GetScope")
				one := mkExists(need, condTerm(termCond(mkExists(splitOf(sc), condTerm(mkEq(tHole, holeAt(1))))).not()))
				two := mkExists(need, condTerm(termCond(mkCall("scope.Include", types.Typ[types.Bool], sc, tHole)).not()))
				if s.truth(one) == yes || s.truth(two) == yes {
					return no
				}
				return some(s.truth(mkLookupOk(mkParam("scopes", nil), path)).not(), s.isNil(need), s.cond(mkLess(mkLen(need), mkInt(0), true)), s.is(inc),
					s.truth(one).not(), s.truth(two).not())
			}})
		}
		// identity headers
		var want map[string]*Term
		if info != nil {
			want = map[string]*Term{"X-Oauth-User-Id": mkCall("itoa", nil, get(info, "GetUserId")), "X-Oauth-Client-Id": get(info, "GetClientId"), "X-Oauth-Scope": get(info, "GetScope")}
		}
		set := map[string]bool{}
		for _, h := range p.ev("reqheader") {
			k := strVal0(h.args[0])
			set[k] = true
			c.ob("R02", "identity headers", want[k] != nil && p.same(h.args[1], want[k]), h.pos, h.fn, p, "request header %s is set to %s", h.args[0].key, trunc(h.args[1].key, 200))
			c.needBefore(p, h, []*Req{{id: rFind.id, props: "R02", ok: rFind.ok}, {id: rInfo.id, props: "R02", ok: rInfo.ok}})
		}
		status := p.ev("status")
		ret := p.o.ret[0]
		switch s.is(ret) {
		case yes:
			c.needAll(p, reqs, "accepted")
			kv, base := v.e.headers(s, mkParam("w", nil)).mapParts()
			c.ob("R05", "nothing written", len(status) == 0 && len(p.ev("write")) == 0 && len(kv) == 0 && base == nil, p.o.pos, nil, p, "an accepted request is answered")
			for _, k := range []string{"X-Oauth-User-Id", "X-Oauth-Client-Id", "X-Oauth-Scope"} {
				c.ob("R02", "identity headers", set[k], p.o.pos, nil, p, "accepted without setting %s", k)
			}
		case no:
			if !c.ob("R05", "answered once", len(status) == 1, p.o.pos, nil, p, "a refused request is answered %d times", len(status)) {
				continue
			}
			st := status[0]
			auth := hdrOf(st.args[1], "Www-Authenticate")
			n, isc := st.args[0].int()
			if auth == nil {
				c.ob("R05", "bare 500", isc && n == 500, st.pos, st.fn, p, "refused with status %s and no challenge", st.args[0].key)
				c.justified(p, "R05", "server_error", reqs)
				continue
			}
			ec := ""
			okc := auth.op == OCall && auth.s == "oauth_error.Header"
			if okc {
				if k, ok := auth.args[0].int(); ok {
					ec = c.oauthCodes()[k]
				}
				okc = auth.args[3] == ro.realm
			}
			if !c.ob("R05", "challenge", okc && ec != "", st.pos, st.fn, p, "the challenge is %s", trunc(auth.key, 200)) {
				continue
			}
			c.justified(p, "R05", ec, reqs)
			for _, o := range oauthNames {
				if o.name == ec {
					c.ob("R05", "status of the error", isc && n == o.status, st.pos, st.fn, p, "%s is answered with status %s, should be %d", ec, st.args[0].key, o.status)
				}
			}
		default:
			c.ob(all5, "definite outcome", false, p.o.pos, nil, p, "it is not clear whether the request is accepted: %s", ret.key)
		}
	}
}
