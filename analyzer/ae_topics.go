package main

import (
	"go/types"
	"strings"
)

// What the authorization endpoint decides about a request before it turns to the user, as topics.

var (
	specMode   = mkCall("spec:response_mode", tString)
	specScope  = mkCall("spec:scope", tString)
	specPrompt = mkCall("spec:prompt", tString)
	specDisp   = mkCall("spec:display", tString)
	specAge    = mkCall("spec:max_age", types.Typ[types.Int])
	pA         = mkParam("a", nil)
	pCb        = mkParam("cb", nil)
)

type aeTopics struct {
	policy                                                          *Term
	mode, scope, prompt, display, age, empty, openid, nonce, verify *Topic
	list                                                            []*Topic
	flow, ftype                                                     *Term
}

func mention(x *Term) func(*State, *Term) bool {
	return func(_ *State, a *Term) bool { return speaksOf(a, x) }
}

// speaksOf: a says something about x itself, not about the answer to a question that carried x.
func speaksOf(a, x *Term) bool {
	if !a.mentions(x) {
		return false
	}
	found := false
	a.walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found && y.op != ORes && y.op != OInv && !(y.op == OCall && strings.HasPrefix(y.s, "id_token."))
	})
	return found
}

func (c *Check) policyField(n string) *Term {
	return mkSel(c.aePart("policy"), n, nil)
}

// aePart names where the authorization endpoint keeps its storage, its policy and its clock.
func (c *Check) aePart(what string) *Term {
	if x, ok := c.memo["aepart "+what]; ok {
		return x.(*Term)
	}
	var x *Term
	if what == "clock" {
		x = c.setter(aeProps, "a", pA, "AuthorizationEndpoint", "SetTimeBuilder")
	} else {
		di, pol := mkParam("di", nil), mkParam("policy", nil)
		if f, _ := c.fresh(aeProps, "NewAuthorizationEndpoint", di, pol); f != nil {
			x = findIn(f(pA), map[string]*Term{"storage": di, "policy": pol}[what], pA)
		}
	}
	c.ob(aeProps, "configuration", x != nil, 0, nil, nil, "the authorization endpoint does not keep its %s", what)
	if x == nil {
		x = mkUnk(what, nil)
	}
	c.memo["aepart "+what] = x
	return x
}

// newAE: fields of the policy are named by the operator, so they are anchors.
func (c *Check) aeTopicsOf() *aeTopics {
	if t, ok := c.memo["aetopics"]; ok {
		return t.(*aeTopics)
	}
	t := &aeTopics{}
	c.memo["aetopics"] = t
	M, S, P, Dsp, Age, N, V := form("response_mode"), form("scope"), form("prompt"), form("display"), form("max_age"), form("nonce"), form("code_verifier")
	t.flow = mkExtract(mkCall("flow.JudgeByResponseType", nil, form("response_type")), 0, nil)
	t.ftype = mkSel(t.flow, "Type", nil)
	pf := c.policyField
	reqID := mkSel(t.flow, "RequireIdToken", nil)
	isCode := mkEq(t.ftype, mkInt(0))
	isImplicit := mkEq(t.ftype, mkInt(1))
	d0, d1 := pf("DefaultAuthorizationCodeFlowResponseMode"), pf("DefaultImplicitFlowResponseMode")
	valid := mkCall("response_mode.Validate", nil, M)
	cmp := func(d *Term) *Term { return mkCall("response_mode.CompareSecurityLevel", nil, M, d) }
	ignore, check := pf("IgnoreInvalidResponseMode"), pf("RequireResponseModeSecurityLevelCheck")
	dflt := func(s *State) *Term {
		switch s.cond(isCode) {
		case yes:
			return d0
		case no:
			return d1
		}
		return nil
	}
	weak := func(s *State) tri { // not as strong as the default
		d := dflt(s)
		if d == nil {
			if x, y := s.truth(cmp(d0)), s.truth(cmp(d1)); x == y {
				return x.not()
			}
			return unk
		}
		if s.eqs(M, d) == yes {
			return no
		}
		return s.truth(cmp(d)).not()
	}
	t.mode = &Topic{id: "response mode", spec: specMode,
		ok: func(s *State) tri {
			if s.given(M) == no {
				return yes
			}
			switch s.truth(valid) {
			case no:
				return some(s.given(M).not(), s.is(ignore))
			case yes:
				return some(s.is(check).not(), weak(s).not(), s.is(ignore))
			}
			return unk
		},
		vals: func(s *State) []*Term {
			d := dflt(s)
			use := func(x *Term) []*Term {
				if x == nil {
					return nil
				}
				if d != nil && s.eqs(M, d) == yes {
					return []*Term{M, d}
				}
				return []*Term{x}
			}
			if s.given(M) == no || s.truth(valid) == no {
				return use(d)
			}
			if s.truth(valid) != yes {
				return nil
			}
			if s.is(check) == no || weak(s) == no {
				return use(M)
			}
			if s.is(check) == yes && weak(s) == yes {
				return use(d)
			}
			return nil
		},
		owns: func(s *State, a *Term) bool {
			return speaksOf(a, M) || a == ignore || a == check || a.op == OCall && a.s == "response_mode.CompareSecurityLevel"
		},
		hold: func(x *Term) bool { return x == d0 || x == d1 },
	}
	t.prompt = &Topic{id: "prompt", spec: specPrompt,
		ok: func(s *State) tri { return some(s.given(P).not(), s.truth(validPrompt(P))) },
		vals: func(s *State) []*Term {
			if s.given(P) == no {
				return []*Term{P, mkStr("")}
			}
			return []*Term{P}
		},
		owns: func(s *State, a *Term) bool { return a == mkEq(P, mkStr("")).atom || a == validPrompt(P) },
	}
	t.display = &Topic{id: "display", spec: specDisp,
		ok: func(s *State) tri {
			r := s.given(Dsp).not()
			for _, k := range displays {
				r = some(r, s.eqs(Dsp, mkStr(k)))
			}
			return r
		},
		vals: func(s *State) []*Term {
			if s.given(Dsp) == no {
				return []*Term{mkStr("page")}
			}
			l := []*Term{Dsp}
			if k := s.eqConst(Dsp); k != nil {
				l = append(l, k)
			}
			return l
		},
		owns: mention(Dsp),
	}
	n, nerr := atoiOf(Age)
	t.age = &Topic{id: "max_age", spec: specAge,
		ok: func(s *State) tri {
			return some(s.given(Age).not(), all(s.truthNil(nerr), s.cond(mkLess(n, pf("MinMaxAge"), false)).not(), s.cond(mkLess(pf("MaxMaxAge"), n, false)).not()))
		},
		vals: func(s *State) []*Term {
			switch s.given(Age) {
			case no:
				return []*Term{mkInt(0)}
			case yes:
				return []*Term{n}
			}
			if s.truthNil(nerr) == yes { // "" is not a number
				return []*Term{n}
			}
			return nil
		},
		owns: mention(Age),
	}
	offline := mkMember(S, mkStr("offline_access"))
	without := mkCall("scope.Remove", tString, S, mkStr("offline_access"))
	rest := func(s *State) tri {
		a := s.given(mkCall("scope.Remove", tString, mkCall("scope.Remove", tString, S, mkStr("openid")), mkStr("offline_access")))
		b := s.given(mkCall("scope.Remove", tString, without, mkStr("openid")))
		if a != unk {
			return a
		}
		return b
	}
	strip := func(s *State) tri {
		consent := unk
		if t.prompt.settled(s) {
			consent = s.is(mkMember(specPrompt, mkStr("consent")))
		} else if s.given(P) == no {
			consent = no
		} else {
			consent = s.is(mkMember(P, mkStr("consent")))
		}
		return some(s.cond(isImplicit), consent.not())
	}
	t.scope = &Topic{id: "scope", spec: specScope,
		ok: func(s *State) tri {
			return some(s.is(offline).not(), strip(s), s.is(pf("AllowEmptyScope")), rest(s))
		},
		vals: func(s *State) []*Term {
			switch {
			case s.is(offline) == no:
				return []*Term{S, without}
			case strip(s) == yes:
				return []*Term{without}
			case s.is(offline) == yes && strip(s) == no:
				return []*Term{S}
			}
			return nil
		},
		owns: func(s *State, a *Term) bool {
			return a == offline || speaksOf(a, without) || speaksOf(a, mkCall("scope.Remove", tString, S, mkStr("openid")))
		},
		list: func(s *State, l *Term) bool { return l == offline.args[0] },
	}
	t.empty = &Topic{id: "empty scope",
		ok: func(s *State) tri { return some(s.is(pf("AllowEmptyScope")), t.given(s, t.scope)) },
		owns: func(s *State, a *Term) bool {
			return t.scope.settled(s) && (a == pf("AllowEmptyScope") || a == mkEq(specScope, mkStr("")).atom)
		},
	}
	t.openid = &Topic{id: "ID token needs openid",
		ok: func(s *State) tri { return some(s.is(reqID).not(), t.member(s, t.scope, "openid")) },
		owns: func(s *State, a *Term) bool {
			return s.is(reqID) == no && a == mkMember(specScope, mkStr("openid"))
		},
		list: func(s *State, l *Term) bool {
			return s.is(reqID) == no && l == mkMember(specScope, mkStr("openid")).args[0]
		},
	}
	within := func(s *State, x *Term, max string) tri {
		return some(s.given(x).not(), s.cond(mkLess(mkLen(x), pf(max), true)))
	}
	t.nonce = &Topic{id: "nonce",
		ok: func(s *State) tri {
			// without openid in the scope there is no ID token to protect: that is refused by another rule
			return all(some(s.cond(isCode), s.is(reqID).not(), t.member(s, t.scope, "openid").not(), s.given(N)), within(s, N, "MaxNonceLength"))
		},
		owns: mention(N),
	}
	t.verify = &Topic{id: "code verifier",
		ok:   func(s *State) tri { return within(s, V, "MaxCodeVerifierLength") },
		owns: mention(V),
	}
	// what these say about the scope must be said about the prescribed scope
	t.empty.ready, t.openid.ready, t.nonce.ready = t.scope.settled, t.scope.settled, t.scope.settled
	t.list = []*Topic{t.mode, t.prompt, t.display, t.age, t.scope, t.empty, t.openid, t.nonce, t.verify}
	return t
}

var displays = []string{"page", "popup", "wap", "touch"}

func atoiOf(x *Term) (*Term, *Term) {
	t := mkCall("atoi", nil, x)
	return mkExtract(t, 0, types.Typ[types.Int]), mkExtract(t, 1, nil)
}

// terms that hold the value of a value topic in a state.
func (t *aeTopics) of(s *State, x *Topic) []*Term {
	if x.settled(s) {
		return []*Term{x.spec}
	}
	return x.vals(s)
}

func (t *aeTopics) each(s *State, x *Topic, f func(*Term) tri) tri {
	for _, v := range t.of(s, x) {
		if r := f(v); r != unk {
			return r
		}
	}
	return unk
}

func (t *aeTopics) given(s *State, x *Topic) tri {
	return t.each(s, x, func(v *Term) tri { return s.given(v) })
}

func (t *aeTopics) member(s *State, x *Topic, tok string) tri {
	return t.each(s, x, func(v *Term) tri { return s.is(mkMember(v, mkStr(tok))) })
}
