package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lemmas: what the helper packages compute. The rules for the endpoints take calls of these helpers as
// primitive facts ("scope.Same(a,b)"); here their bodies are analysed against their meaning.

// lemma runs fn with the given arguments, everything inlined.
func (c *Check) lemma(props, name string, fn *ssa.Function, pre []Cond, args ...*Term) *View {
	return c.lemmaOn(props, name, nil, fn, nil, pre, args...)
}

func (c *Check) lemmaOn(props, name string, e *Engine, fn *ssa.Function, s *State, pre []Cond, args ...*Term) *View {
	v := c.views[name]
	if v == nil {
		if e == nil {
			e = newEngine(c.p)
			e.inlineAll = true
			for o := range c.p.shared {
				e.shared[o] = true
			}
		}
		if s == nil {
			s = c.p.baseState()
			for o := range c.p.shared {
				e.shared[o] = true
			}
		}
		if fn == nil {
			v = c.finish(name, e, nil, nil)
		} else {
			ok := true
			for _, q := range pre {
				ok = e.assume(s, q) && ok
			}
			var as []*Term
			for i, p := range fn.Params {
				if i < len(args) && args[i] != nil {
					a := args[i]
					if a.op == OParam && a.typ == nil {
						a = mkParam(a.s, p.Type())
					}
					as = append(as, a)
				} else {
					as = append(as, argParam(i, p.Type()))
				}
			}
			s.env = map[ssa.Value]*Term{}
			e.funcs = map[*ssa.Function]bool{}
			v = c.finish(name, e, fn, e.call(fn, as, nil, s, nil, "", fn.Pos()))
		}
	}
	c.sound(v, props)
	if !strings.HasPrefix(name, "log.") { // the default logger expects texts
		for _, x := range v.e.panics {
			c.ob(props, "no-crash", false, x.pos, x.fn, nil, "may crash: %s", x.what)
		}
	}
	return v
}

// quiet: a helper changes nothing and talks to nobody.
func (c *Check) quiet(v *View, props string) {
	for _, p := range v.paths {
		for _, e := range p.evs {
			c.ob(props, "no side effects", false, e.pos, e.fn, p, "%s is not expected here", e.name)
		}
	}
}

func S(n string) *Term { return mkParam(n, tString) }

func splitOf(x *Term) *Term {
	return mkCall("strings.Split", types.NewSlice(types.Typ[types.String]), x, mkStr(" "))
}

// decides: a boolean result is true exactly when the meaning holds.
func (c *Check) decides(v *View, props string, i int, what string, meaning func(*State) tri) {
	for _, p := range v.paths {
		if p.o.panic != "" {
			c.ob(props, what, false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		r := p.o.ret[i]
		for _, b := range []bool{true, false} {
			s := p.o.st.clone()
			q := termCond(r)
			if !b {
				q = q.not()
			}
			if !v.e.assume(s, q) {
				continue
			}
			c.ob(props, what, meaning(s) == tb(b), p.o.pos, v.fn, p, "%s: answers %v where it must not, or where that is not known", what, b)
		}
	}
}

func member(list, x *Term) Cond { return termCond(mkMember(list, x)) }

func init() {
	register("scope lemmas", "U01 T04 T08 T09 T10 R02 R03 A04 A05 A06 A07 A09", (*Check).checkScope)
	register("prompt lemmas", "U02 A04 A05 A06 A07 A08", (*Check).checkPrompt)
	register("response mode lemmas", "A03", (*Check).checkMode)
	register("response type lemmas", "U03 A03 A04 A09", (*Check).checkFlow)
	register("pkce lemmas", "U08", (*Check).checkPKCE)
	register("pkce methods", "T06", (*Check).checkMethods)
	register("id token lemmas", "I01 I02 I03", (*Check).checkIDToken)
}

func (c *Check) checkScope() {
	s, t := S("s"), S("t")
	for _, x := range []struct {
		fn, tok, props string
	}{{"Include", "", "U01 T04 T08 T09 T10 A05 A06"}, {"IncludeOpenID", "openid", "U01 T08 T10 A04 A05 A09"}, {"IncludeOfflineAccess", "offline_access", "U01 T09 T10 A05"}} {
		k := t
		if x.tok != "" {
			k = mkStr(x.tok)
		}
		v := c.lemma(x.props, "scope."+x.fn, c.p.fn("scope", x.fn), nil, s, t)
		c.quiet(v, x.props)
		c.decides(v, x.props, 0, "membership is equality with some token", func(st *State) tri { return st.cond(member(s, k)) })
	}
	{
		props := "U01 R02 R03"
		ts := mkParam("ts", types.NewSlice(tString))
		v := c.lemma(props, "scope.IncludeAll", c.p.fn("scope", "IncludeAll"), nil, s, ts)
		c.quiet(v, props)
		missing := mkExists(ts, condTerm(termCond(mkExists(splitOf(s), condTerm(mkEq(tHole, holeAt(1))))).not()))
		c.decides(v, props, 0, "all targets are members", func(st *State) tri { return st.truth(missing).not() })
		namesMissing(c, v, props, s, ts)
	}
	for _, x := range []struct {
		fn, tok, props string
	}{{"Remove", "", "U01 A05"}, {"RemoveOpenID", "openid", "U01 A05"}, {"RemoveOfflineAccess", "offline_access", "U01 A05"}} {
		k := t
		if x.tok != "" {
			k = mkStr(x.tok)
		}
		v := c.lemma(x.props, "scope."+x.fn, c.p.fn("scope", x.fn), nil, s, t)
		c.quiet(v, x.props)
		kept := mkFilter(splitOf(s), condTerm(mkEq(k, tHole).not()))
		want := mkCall("strings.Join", tString, kept, mkStr(" "))
		for _, p := range v.paths {
			if p.o.panic != "" {
				c.ob(x.props, "removal", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
				continue
			}
			r := p.snap(p.o.ret[0])
			ok := r.key == want.key || r == s && p.st().cond(member(s, k)) == no
			if n, isC := r.str(); isC && n == "" { // nothing is left
				ok = p.st().truth(mkExists(splitOf(s), condTerm(mkEq(k, tHole).not()))) == no ||
					p.st().cond(mkEq(mkLen(kept), mkInt(0))) == yes || p.st().cond(mkEq(s, mkStr(""))) == yes
			}
			c.ob(x.props, "removal", ok, p.o.pos, v.fn, p, "the result is %s, not the tokens other than the target in their order", trunc(r.key, 200))
		}
	}
	{
		props := "U01 A07"
		a, b := S("a"), S("b")
		v := c.lemma(props, "scope.Same", c.p.fn("scope", "Same"), nil, a, b)
		c.quiet(v, props)
		srt := func(x *Term) *Term { return sortedJoin(x) }
		c.decides(v, props, 0, "same tokens in any order", func(st *State) tri {
			if r := st.cond(mkEq(srt(a), srt(b))); r != unk {
				return r
			}
			if st.cond(mkEq(a, b)) == yes {
				return yes
			}
			sized := st.cond(mkEq(mkLen(splitOf(a)), mkLen(splitOf(b))))
			if sized == no {
				return no
			}
			for _, w := range []*Term{mkWithin(splitOf(a), splitOf(b)), mkWithin(splitOf(b), splitOf(a))} {
				switch st.truth(w) { // equally many, and none more often
				case yes:
					if sized == yes {
						return yes
					}
				case no:
					return no
				}
			}
			return unk
		})
	}
	{
		v := c.lemma("U01", "scope.Split", c.p.fn("scope", "Split"), nil, s)
		for _, p := range v.paths {
			c.ob("U01", "split at spaces", p.o.panic == "" && p.snap(p.o.ret[0]) == splitOf(s), p.o.pos, v.fn, p, "a scope is not split at spaces")
		}
		v = c.lemma("U01", "scope.Sort", c.p.fn("scope", "Sort"), nil, s)
		for _, p := range v.paths {
			c.ob("U01", "sorted", p.o.panic == "" && p.snap(p.o.ret[0]).key == sortedJoin(s).key, p.o.pos, v.fn, p, "sorting a scope gives something else")
		}
	}
}

func sortedJoin(x *Term) *Term {
	l := splitOf(x)
	return mkCall("strings.Join", tString, mkCall("sorted", l.typ, l), mkStr(" "))
}

// everyIn: every element of the list satisfies one of the conditions (over the hole).
func (s *State) everyIn(list *Term, any []Cond) tri {
	list = stripSorted(list)
	judge := func(cs []Cond) tri {
		t := newState()
		for _, c := range cs {
			t.addFact(c.atom, c.pos)
		}
		r := no
		for _, q := range any {
			r = some(r, t.cond(q))
		}
		return r
	}
	for a, f := range s.facts {
		if a.op == OExists && a.args[0] == list && !f.val && judge([]Cond{termCond(a.args[1]).not()}) == yes {
			return yes
		}
	}
	for a := range s.facts { // a particular element
		var el *Term
		a.walk(func(x *Term) bool {
			if x.op == OElem && x.args[0] == list {
				el = x
			}
			return el == nil
		})
		if el == nil {
			continue
		}
		all := true
		for _, q := range any {
			qa := subst(q.atom, func(x *Term) *Term {
				if x == tHole {
					return el
				}
				return nil
			})
			cc := Cond{qa, q.pos}
			if qa.op == OEq {
				cc = mkEq(qa.args[0], qa.args[1])
				if !q.pos {
					cc = cc.not()
				}
			}
			all = all && s.cond(cc) == no
		}
		if all {
			return no
		}
	}
	for _, r := range s.recs {
		if r.list != list {
			continue
		}
		every := true
		for _, l := range r.letters {
			switch judge(l.conds) {
			case no:
				return no
			case unk:
				every = false
			}
		}
		if len(r.current) > 0 && judge(r.current) == no {
			return no
		}
		if r.complete && every {
			return yes
		}
	}
	return unk
}

var promptTokens = []string{"none", "login", "consent", "select_account"}

func (c *Check) checkPrompt() {
	s, t := S("s"), S("t")
	for _, x := range []struct{ fn, tok, props string }{{"Include", "", "U02 A05 A06 A07 A08"}, {"IncludeNone", "none", "U02 A04 A06 A07 A08"}, {"IncludeLogin", "login", "U02 A06 A07 A08"},
		{"IncludeConsent", "consent", "U02 A05 A06 A07 A08"}, {"IncludeSelectAccount", "select_account", "U02"}} {
		k := t
		if x.tok != "" {
			k = mkStr(x.tok)
		}
		v := c.lemma(x.props, "prompt."+x.fn, c.p.fn("prompt", x.fn), nil, s, t)
		c.quiet(v, x.props)
		c.decides(v, x.props, 0, "membership is equality with some token", func(st *State) tri { return st.cond(member(s, k)) })
	}
	{
		ts := mkParam("ts", types.NewSlice(tString))
		v := c.lemma("U02", "prompt.IncludeAll", c.p.fn("prompt", "IncludeAll"), nil, s, ts)
		missing := mkExists(ts, condTerm(termCond(mkExists(splitOf(s), condTerm(mkEq(tHole, holeAt(1))))).not()))
		c.quiet(v, "U02")
		c.decides(v, "U02", 0, "all targets are members", func(st *State) tri { return st.truth(missing).not() })
		namesMissing(c, v, "U02", s, ts)
	}
	props := "U02 A04 A06 A08"
	v := c.lemma(props, "prompt.Validate", c.p.fn("prompt", "Validate"), nil, s)
	c.quiet(v, props)
	var known []Cond
	for _, k := range promptTokens {
		known = append(known, mkEq(tHole, mkStr(k)))
	}
	c.decides(v, props, 0, "known prompts, and none alone", func(st *State) tri {
		ev := st.everyIn(splitOf(s), known)
		none := st.cond(member(s, mkStr("none")))
		other := st.truth(mkExists(splitOf(s), condTerm(mkEq(tHole, mkStr("none")).not())))
		switch {
		case ev == no, none == yes && other == yes:
			return no
		case ev == yes && (none == no || other == no):
			return yes
		}
		others := no
		for _, k := range promptTokens[1:] {
			others = some(others, st.cond(member(s, mkStr(k))))
		}
		return all(ev, all(none, others).not())
	})
}

func (c *Check) checkMode() {
	m := S("m")
	v := c.lemma("A03", "response_mode.Validate", c.p.fn("response_mode", "Validate"), nil, m)
	c.quiet(v, "A03")
	modes := []string{"query", "fragment", "form_post"}
	c.decides(v, "A03", 0, "known response modes", func(st *State) tri {
		r := no
		for _, k := range modes {
			r = some(r, st.cond(mkEq(m, mkStr(k))))
		}
		return r
	})
	for i, a := range modes {
		for j, b := range modes {
			v := c.lemma("A03", "response_mode.CompareSecurityLevel/"+a+"/"+b, c.p.fn("response_mode", "CompareSecurityLevel"), nil, mkStr(a), mkStr(b))
			c.quiet(v, "A03")
			c.decides(v, "A03", 0, "security order query < fragment < form_post ("+a+" against "+b+")", func(*State) tri { return tb(i >= j) })
		}
	}
	v = c.lemma("A03", "response_mode.CompareSecurityLevel/same", c.p.fn("response_mode", "CompareSecurityLevel"), nil, m, m)
	c.decides(v, "A03", 0, "a mode is as secure as itself", func(*State) tri { return yes })
}

var responseTypes = map[string]struct {
	flow    string
	at, idt bool
}{
	"code":                {"AuthorizationCode", false, false},
	"code id_token":       {"Hybrid", false, true},
	"code id_token token": {"Hybrid", true, true},
	"code token":          {"Hybrid", true, false},
	"id_token":            {"Implicit", false, true},
	"id_token token":      {"Implicit", true, true},
	"token":               {"Implicit", true, false},
}

func (c *Check) checkFlow() {
	props := "U03 A03 A04 A09"
	rt := S("rt")
	v := c.lemma(props, "flow.JudgeByResponseType", c.p.fn("flow", "JudgeByResponseType"), nil, rt)
	c.quiet(v, props)
	j := sortedJoin(rt)
	seen := map[string]bool{}
	var names []string
	for k := range responseTypes {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 2 {
			c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		s := p.st()
		isErr := s.isNil(p.o.ret[1]).not()
		fl := p.o.ret[0]
		is := ""
		for _, k := range names {
			if s.cond(mkEq(j, mkStr(k))) == yes || s.cond(mkEq(rt, mkStr(k))) == yes {
				is = k
			}
		}
		switch isErr {
		case yes:
			ok := is == ""
			for _, k := range names {
				ok = ok && s.cond(mkEq(j, mkStr(k))) == no
			}
			c.ob(props, "refused only if unknown", ok, p.o.pos, v.fn, p, "a response type is refused that is not known to be unsupported")
			c.ob(props, "no flow with an error", s.isNil(fl) == yes, p.o.pos, v.fn, p, "a flow is returned along with an error")
		case no:
			if !c.ob(props, "accepted only if known", is != "", p.o.pos, v.fn, p, "a response type is accepted that is not known to be one of the seven combinations") {
				continue
			}
			seen[is] = true
			w := responseTypes[is]
			x := p.snap(fl)
			ft, ok := newEngine(c.p).constOf("flow", w.flow)
			n, isN := mkSel(x, "Type", nil).int()
			ok = ok && isN && n == ft && s.cond(termCond(mkSel(x, "RequireAccessToken", nil))) == tb(w.at) && s.cond(termCond(mkSel(x, "RequireIdToken", nil))) == tb(w.idt)
			c.ob(props, "flow of a response type", ok, p.o.pos, v.fn, p, "%q gives the flow %s", is, trunc(x.key, 200))
		default:
			c.ob(props, "flow or error", false, p.o.pos, v.fn, p, "it is not known whether an error is returned")
		}
	}
	for _, k := range names {
		c.ob(props, "all combinations", seen[k], 0, v.fn, nil, "no path accepts the response type %q", k)
	}
}

// checkMethods: only the two transformation methods have a comparison.
func (c *Check) checkMethods() {
	fn := c.p.fn("pkce", "FindVerifierByMethod")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		return // the grant is analysed with whatever it calls
	}
	m := S("method")
	v := c.lemma("T06", "pkce.FindVerifierByMethod", fn, nil, m)
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		s := p.st()
		known := some(s.eqs(m, mkStr("plain")), s.eqs(m, mkStr("S256")))
		c.ob("T06", "unknown method", s.isNil(p.o.ret[1]) == no || known == yes, p.o.pos, v.fn, p, "a comparison is given for a method that is neither plain nor S256")
	}
}

func (c *Check) checkPKCE() {
	props := "U08"
	v := c.lemma(props, "pkce.GenRandomCodeVerifier", c.p.fn("pkce", "GenRandomCodeVerifier"), nil)
	c.quiet(v, props)
	good := false
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue // no random source: nothing is returned
		}
		r := p.snap(p.o.ret[0])
		ok := false
		if r.op == OCall && r.s == "base64" && r.args[0].key == "encoding/base64.RawURLEncoding" && r.args[1].op == OCall && r.args[1].s == "random" && len(r.args[1].args) == 1 {
			n, isN := r.args[1].args[0].int()
			ok = isN && n >= 32
		}
		c.ob(props, "random verifier", ok, p.o.pos, v.fn, p, "a code verifier is %s, not at least 32 random bytes in unpadded base64url", trunc(r.key, 200))
		good = good || ok
	}
	c.ob(props, "random verifier", good, 0, v.fn, nil, "no path returns a verifier")
	b := mkParam("b", types.NewSlice(types.Typ[types.Byte]))
	v = c.lemma(props, "pkce.EncodeBase64WithoutPadding", c.p.fn("pkce", "EncodeBase64WithoutPadding"), nil, b)
	for _, p := range v.paths {
		c.ob(props, "unpadded base64url", p.o.panic == "" && p.snap(p.o.ret[0]).key == mkCall("base64", tString, encTerm("RawURLEncoding"), b).key, p.o.pos, v.fn, p, "the text is not unpadded base64url")
	}
}

// ---- ID tokens

// hashOf: is x the half digest of tok for the algorithm, and is it encoded as the standard says?
func hashOf(s *State, x, alg, tok *Term) (digest, enc bool) {
	if x == nil || x.op != OCall || x.s != "base64" {
		return false, false
	}
	enc = x.args[0].key == "encoding/base64.RawURLEncoding"
	std := x.args[0].key == "encoding/base64.StdEncoding"
	h := x.args[1]
	for _, k := range []struct {
		suffix, fn string
		half       int64
	}{{"256", "sha256", 16}, {"384", "sha384", 24}, {"512", "sha512", 32}} {
		if s.truth(mkCall("strings.HasSuffix", types.Typ[types.Bool], alg, mkStr(k.suffix))) != yes {
			continue
		}
		if h.key == mkSlice(mkCall(k.fn, nil, tok), mkInt(0), mkInt(k.half), nil).key {
			return enc || std, enc
		}
	}
	return false, false
}

func (c *Check) noHashKnown(s *State, alg *Term) bool {
	for _, k := range []string{"256", "384", "512"} {
		if s.truth(mkCall("strings.HasSuffix", types.Typ[types.Bool], alg, mkStr(k))) != no {
			return false
		}
	}
	return true
}

func (c *Check) obHash(p *Path, rule string, x, alg, tok *Term) {
	d, enc := hashOf(p.st(), x, alg, tok)
	k := "nothing"
	if x != nil {
		k = trunc(x.key, 200)
	}
	if !c.ob("I02", rule, d, p.o.pos, p.v.fn, p, "the hash is %s, not the left half of the digest that belongs to the algorithm", k) {
		return
	}
	if !enc {
		c.obKnown("I02", "hash encoding", "hash-encoding", c.p.fn("id_token", "Hash"), p, "the hash is encoded as padded standard base64 instead of unpadded base64url")
	} else {
		c.ob("I02", "hash encoding", true, p.o.pos, p.v.fn, p, "")
	}
}

// obKnown reports an instance of a finding that the known-findings file may list.
func (c *Check) obKnown(prop, rule, id string, fn *ssa.Function, p *Path, f string, a ...any) {
	t := c.t(prop)
	n := len(t.Viols)
	pos := p.o.pos
	if fn != nil {
		pos = fn.Pos()
	}
	c.ob(prop, rule, false, pos, fn, p, f, a...)
	for _, v := range t.Viols[n:] {
		v.Known = id
	}
}

func (c *Check) checkIDToken() {
	alg, tok := S("alg"), S("tok")
	v := c.lemma("I02", "id_token.Hash", c.p.fn("id_token", "Hash"), nil, alg, tok)
	c.quiet(v, "I02")
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 2 {
			c.ob("I02", "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		s := p.st()
		switch s.isNil(p.o.ret[1]) {
		case yes:
			c.obHash(p, "half digest", p.snap(p.o.ret[0]), alg, tok)
		case no:
			c.ob("I02", "error only without a hash", c.noHashKnown(s, alg), p.o.pos, v.fn, p, "an error for an algorithm that has a hash")
			c.ob("I02", "no hash with an error", s.given(p.snap(p.o.ret[0])) == no, p.o.pos, v.fn, p, "a hash is returned along with an error")
		default:
			c.ob("I02", "hash or error", false, p.o.pos, v.fn, p, "it is not known whether an error is returned")
		}
	}
	c.genLemma("Gen", false, false)
	c.genLemma("GenForImplicit", true, false)
	c.genLemma("GenForHybrid", true, true)
}

// genLemma: id_token.Gen*(alg, key, keyId, issuer, clientId, subject, nonce, expiresIn, authTime, [accessToken, [code,]] now).
func (c *Check) genLemma(name string, hasAT, hasCode bool) {
	props := "I01 I02 I03"
	n := []string{"alg", "key", "kid", "iss", "cid", "sub", "nonce", "exp", "at"}
	if hasAT {
		n = append(n, "token")
	}
	if hasCode {
		n = append(n, "code")
	}
	n = append(n, "now")
	fn := c.p.fn("id_token", name)
	var args []*Term
	for i, k := range n {
		a := mkParam(k, nil)
		if fn != nil && i < len(fn.Params) {
			a = mkParam(k, fn.Params[i].Type())
		}
		args = append(args, a)
	}
	v := c.lemma(props, "id_token."+name, fn, nil, args...)
	if v.fn == nil {
		return
	}
	c.quiet(v, props)
	A := map[string]*Term{}
	for i, k := range n {
		A[k] = args[i]
	}
	signed := false
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 2 {
			c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		s := p.st()
		t, err := p.snap(p.o.ret[0]), p.o.ret[1]
		meth := mkCall("github.com/golang-jwt/jwt.GetSigningMethod", nil, A["alg"])
		if t.op == OExtract && t.s == "0" && t.args[0].op == OCall && t.args[0].s == "jwt.signed" {
			st := t.args[0]
			okErr := err.op == OExtract && err.s == "1" && err.args[0] == st || s.isNil(err) == yes && s.isNil(mkExtract(st, 1, nil)) == yes
			c.ob("I03", "signing failures are reported", okErr, p.o.pos, v.fn, p, "the error of signing is not what is returned with the token")
			signed = true
			c.tokenContents(p, st, A, meth, hasAT, hasCode)
			continue
		}
		ok := s.isNil(err) == no && s.given(t) == no
		c.ob("I03", "a signed token or an error", ok, p.o.pos, v.fn, p, "the answer is neither a signed token nor an error: %s", trunc(t.key, 160))
		if !ok {
			continue
		}
		just := s.isNil(meth) == yes
		if !just && hasAT {
			just = c.noHashKnown(s, A["alg"]) && (hasCode || s.given(A["token"]) != no)
		}
		if !just && err.op == OExtract && err.args[0].op == OCall && err.args[0].s == "jwt.signed" {
			just = true
		}
		for a, f := range s.facts {
			if !just && !f.val && a.op == OEq && a.args[1] == tNil && a.args[0].op == OExtract && a.args[0].s == "1" && a.args[0].args[0].op == OCall && a.args[0].args[0].s == "jwt.signed" {
				just = true
			}
		}
		c.ob("I03 I01 I02", "refused only with a reason", just, p.o.pos, v.fn, p, "making the token fails although algorithm and signing are not known to fail")
	}
	c.ob(props, "a signed token", signed, 0, v.fn, nil, "no path makes a token")
}

func (c *Check) tokenContents(p *Path, st *Term, A map[string]*Term, meth *Term, hasAT, hasCode bool) {
	s := p.st()
	fn := p.v.fn
	x := p.snap(st.args[0])
	c.ob("I03", "the given key", p.same(st.args[1], A["key"]), p.o.pos, fn, p, "the token is signed with %s", trunc(st.args[1].key, 120))
	c.ob("I03", "the given algorithm", mkSel(x, "Method", nil).key == meth.key, p.o.pos, fn, p, "the token is signed by the method %s", trunc(mkSel(x, "Method", nil).key, 120))
	c.ob("I03", "known algorithm", s.isNil(mkSel(x, "Method", nil)) == no, p.o.pos, fn, p, "a token is made although the algorithm is not known to be known")
	h := mkSel(x, "Header", nil)
	cl := mkSel(x, "Claims", nil)
	if !c.ob("I01 I02 I03", "claims are known", h.op == OMap && len(h.args)%2 == 0 && cl.op == OMap && len(cl.args)%2 == 0, p.o.pos, fn, p, "claims or header are not fully known: %s", trunc(cl.key, 200)) {
		return
	}
	hv := func(m *Term, k string) *Term {
		kv, _ := m.mapParts()
		for i := 0; i+1 < len(kv); i += 2 {
			if kv[i] == mkStr(k) {
				if kv[i+1].op == OIface {
					return p.snap(kv[i+1].args[0])
				}
				return p.snap(kv[i+1])
			}
		}
		return nil
	}
	only := func(m *Term, allowed string) string {
		kv, _ := m.mapParts()
		for i := 0; i+1 < len(kv); i += 2 {
			k, ok := kv[i].str()
			if !ok || !contains(split(allowed), k) {
				return kv[i].key
			}
		}
		return ""
	}
	kstr := func(t *Term) string {
		if t == nil {
			return "missing"
		}
		return trunc(t.key, 120)
	}
	a := hv(h, "alg")
	c.ob("I03", "algorithm header", a != nil && (a.key == A["alg"].key || a.op == OInv && a.s == "Alg" && a.args[0].key == meth.key || strings.HasSuffix(a.key, ".Alg()") && strings.HasPrefix(a.key, meth.key)), p.o.pos, fn, p, "the algorithm header is %s", kstr(a))
	ifGiven := func(props string, m *Term, k string, want *Term, given tri) {
		g := hv(m, k)
		switch given {
		case yes:
			c.ob(props, k, g != nil && p.same(g, want), p.o.pos, fn, p, "%s is %s, should be %s", k, kstr(g), want.key)
		case no:
			c.ob(props, k, g == nil, p.o.pos, fn, p, "%s is %s, should be missing", k, kstr(g))
		default: // present without a condition: must be the value (an empty claim is not the same as none)
			c.ob(props, k, false, p.o.pos, fn, p, "%s is %s without knowing whether it was given", k, kstr(g))
		}
	}
	ifGiven("I01 I03", h, "kid", A["kid"], s.given(A["kid"]))
	o := only(h, "alg typ kid")
	c.ob("I03", "header", o == "", p.o.pos, fn, p, "unexpected header %s", o)
	must := func(k string, want *Term) {
		g := hv(cl, k)
		c.ob("I01", k, g != nil && (g == want || p.same(g, want)), p.o.pos, fn, p, "the claim %s is %s, should be %s", k, kstr(g), want.key)
	}
	must("iss", A["iss"])
	must("sub", A["sub"])
	must("exp", mkAdd(unixOf(A["now"]), A["exp"], 1))
	aud := hv(cl, "aud")
	okAud := aud != nil && p.same(aud, A["cid"])
	if aud != nil && aud.op == OList && len(aud.args) == 1 {
		okAud = p.same(aud.args[0], A["cid"])
	}
	c.ob("I01", "aud", okAud, p.o.pos, fn, p, "the claim aud is %s, should be cid", kstr(aud))
	iat := hv(cl, "iat")
	neg := s.cond(mkLess(unixOf(A["now"]), mkInt(0), false))
	c.ob("I01", "iat", iat != nil && iat == unixOf(A["now"]) || iat == nil && neg == yes, p.o.pos, fn, p, "the claim iat is %s", kstr(iat))
	ifGiven("I01", cl, "nonce", A["nonce"], s.given(A["nonce"]))
	ifGiven("I01", cl, "auth_time", A["at"], s.cond(mkLess(A["at"], mkInt(0), false)).not())
	allowed := "iss sub aud exp iat nonce auth_time"
	if hasAT {
		allowed += " at_hash"
		g := hv(cl, "at_hash")
		switch s.given(A["token"]) {
		case yes:
			c.obHash(p, "at_hash", g, A["alg"], A["token"])
		case no:
			c.ob("I02", "at_hash", g == nil, p.o.pos, fn, p, "at_hash without an access token: %s", kstr(g))
		default:
			c.obHash(p, "at_hash", g, A["alg"], A["token"])
		}
	}
	if hasCode {
		allowed += " c_hash"
		c.obHash(p, "c_hash", hv(cl, "c_hash"), A["alg"], A["code"])
	}
	o = only(cl, allowed)
	c.ob("I01 I02", "no other claims", o == "", p.o.pos, fn, p, "unexpected claim %s", o)
}

// namesMissing: a refused inclusion of all the targets names one that is missing.
func namesMissing(c *Check, v *View, props string, s, ts *Term) {
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) < 2 || p.o.ret[0] == tTrue {
			continue
		}
		m := p.o.ret[1]
		isElem := m.op == OElem && m.args[0] == ts || m.op == OIdx && m.args[0] == ts
		c.ob(props, "names a missing one", isElem && p.st().cond(member(s, m)) == no, p.o.pos, v.fn, p, "answers that %s is missing, which is not known to be a missing target", trunc(m.key, 120))
	}
}
