package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// U09: published and loaded keys.

func init() {
	register("key endpoint", "U09", (*Check).checkKeys)
}

func isJWK(e *Ev, f string) bool {
	return strings.HasSuffix(e.name, "go-jwx/jwk."+f)
}

var newOK = regexp.MustCompile(`jwk\.New<[^>]*>\.1==nil`)

// keySet: t is the JSON of a set of exactly the keys of the map.
func (c *Check) keySet(props string, p *Path, fn *ssa.Function, t, keys *Term) {
	x := t
	for x.op == OExtract {
		x = x.args[0]
	}
	var list *Term
	if x.op == OCall && x.s == "json" && len(x.args) == 1 && x.args[0].op == OStruct {
		ns, _ := x.args[0].ex.([]string)
		for i, n := range ns {
			if strings.TrimSuffix(n, "?") == "Keys" || n == "keys" {
				list = x.args[0].args[i]
			}
		}
	}
	if !c.ob(props, "a key set as JSON", list != nil, p.o.pos, fn, p, "the key set is %s", trunc(t.key, 200)) {
		return
	}
	started, set := false, false
	var news []*Ev
	for _, e := range p.evs {
		if isJWK(e, "New") {
			news = append(news, e)
			started = true
			a := e.args[0]
			if a.op == OIface {
				a = a.args[0]
			}
			c.ob(props, "public keys only", a.typ != nil && types.TypeString(a.typ, nil) == "*crypto/rsa.PublicKey", e.pos, e.fn, p, "a key of type %v is published", a.typ)
		}
		if strings.HasPrefix(e.name, "each:") && strings.HasSuffix(e.name, ":Set") && len(e.args) == 3 && len(news) > 0 {
			n := news[len(news)-1]
			kid := e.args[2]
			if kid.op == OIface {
				kid = kid.args[0]
			}
			if e.args[1].key == `"kid"` || e.args[1].op == OIface && e.args[1].args[0].key == `"kid"` {
				own := strings.HasPrefix(kid.key, "key("+keys.key+")") && strings.Contains(n.args[0].key, "val("+keys.key+")")
				own = own || strings.HasPrefix(kid.key, "elem(") && strings.Contains(n.args[0].key, keys.key+"["+kid.key+"]")
				set = set || own && strings.Contains(e.args[0].key, "jwk.New(")
			}
		}
	}
	f, isFold := list.ex.(foldInfo)
	if list.op != OFold || !isFold {
		c.ob(props, "every key", !started && (list == tNil || p.st().isNil(keys) == yes), p.o.pos, fn, p, "the published keys are %s", trunc(list.key, 200))
		return
	}
	c.ob(props, "every key", keysOf(f.list).key == keys.key && len(f.steps) > 0, p.o.pos, fn, p, "the published keys come from %s", trunc(f.list.key, 200))
	for _, s := range f.steps {
		k := s.val.key
		safe := false
		for _, q := range s.conds {
			safe = safe || q.pos && newOK.MatchString(q.atom.key)
		}
		c.ob(props, "failures are reported", safe, p.o.pos, fn, p, "a key that cannot be encoded may be published as nothing")
		ok := s.val.op == OCall && s.val.s == "append" && strings.HasPrefix(k, "append(acc,") && strings.Count(k, "jwk.New") == 1
		c.ob(props, "every key", ok, p.o.pos, fn, p, "a key becomes %s", trunc(k, 200))
	}
	if started {
		c.ob(props, "under its key id", set, p.o.pos, fn, p, "a key is published without its own key id")
	}
}

func (c *Check) checkKeys() {
	props := "U09"
	fn := c.p.fn("crypto", "PublicKeysJWK")
	keys := mkParam("keys", nil)
	if fn != nil && len(fn.Params) == 1 {
		keys = mkParam("keys", fn.Params[0].Type())
	}
	v := c.lemma(props, "crypto.PublicKeysJWK", fn, nil, keys)
	c.nopanic(v, props)
	some := false
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 2 {
			continue
		}
		c.onlyJWK(props, p)
		if !c.xor(props, v, p) {
			continue
		}
		if p := p.succeeds(1); p != nil {
			some = true
			c.keySet(props, p, v.fn, p.snap(p.o.ret[0]), keys)
			c.failures(props, v, p, true)
		}
	}
	c.ob(props, "a key set as JSON", some, 0, v.fn, nil, "no key set is ever produced")

	// the endpoint
	m := c.p.method("", "JWKEndpoint", "Handler")
	if c.ob(props, "analysed", m != nil && len(m.Params) > 0, 0, m, nil, "JWKEndpoint.Handler not found") {
		e := newEngine(c.p)
		e.inlineAll = true
		ep := mkParam("ep", m.Params[0].Type())
		v0 := c.lemmaOn(props, "JWKEndpoint.Handler", e, m, nil, nil, ep)
		c.nopanic(v0, props)
		good := false
		for i, p := range v0.paths {
			if p.o.panic != "" || len(p.o.ret) != 1 {
				continue
			}
			h := p.o.ret[0]
			if h.op == OIface {
				h = h.args[0]
			}
			if !c.ob(props, "a handler", h.fn != nil && h.fn.Blocks != nil && len(h.fn.Params) == 2, p.o.pos, v0.fn, p, "the handler of the key endpoint is not known") {
				continue
			}
			s := p.o.st.clone()
			s.env = map[ssa.Value]*Term{}
			e.funcs = map[*ssa.Function]bool{}
			v := c.finish(fmt.Sprintf("JWKEndpoint.Handler/%d", i), e, h.fn, e.call(h.fn, []*Term{mkParam("w", h.fn.Params[0].Type()), mkParam("r", h.fn.Params[1].Type())}, h.args, s, nil, "", h.fn.Pos()))
			c.sound(v, props)
			c.nopanic(v, props)
			for _, q := range v.paths {
				if q.o.panic == "" {
					good = c.keyAnswer(props, v, q) || good
				}
			}
		}
		c.ob(props, "a key set as JSON", good, 0, v0.fn, nil, "the endpoint never serves the keys")
	}
	for _, n := range []string{"AddFromFile", "AddFromText"} {
		m := c.p.method("", "JWKEndpoint", n)
		if !c.ob(props, "analysed", m != nil && len(m.Params) == 3, 0, m, nil, "JWKEndpoint.%s not found", n) {
			continue
		}
		v := c.lemma(props, "JWKEndpoint."+n, m, nil, mkParam("ep", m.Params[0].Type()), S("kid"), S("src"))
		added := false
		for _, p := range v.paths {
			if p.o.panic != "" {
				// refusing loudly is right when there is no key
				bad := c.badKey(p)
				c.ob(props, "refused only without a key", bad, p.o.pos, v.fn, p, "a good key is refused")
				continue
			}
			var st *Ev
			for _, e := range p.evs {
				if e.name == "store" {
					st = e
				} else {
					c.ob(props, "only the key set changes", strings.Contains(e.name, "ReadFile") || strings.Contains(e.name, "os.Open"), e.pos, e.fn, p, "%s is not expected here", e.name)
				}
			}
			if st == nil && len(p.o.ret) == 1 && p.st().isNil(p.o.ret[0]) == no {
				continue
			}
			ok := st != nil && len(st.args) == 3 && strings.HasPrefix(st.args[0].key, "ep") && st.args[1].key == "kid"
			if c.ob(props, "added under its key id", ok, p.o.pos, v.fn, p, "a key is not added under its key id") {
				added = true
				c.loaded(props, v, p, st.args[2], S("src"), "Public")
			}
		}
		c.ob(props, "added under its key id", added, 0, v.fn, nil, "%s never adds a key", n)
	}

	for _, k := range []string{"Public", "Private"} {
		for _, n := range []string{"FromFile", "FromText", "FromData"} {
			fn := c.p.fn("crypto", "Load"+k+"Key"+n)
			if !c.ob(props, "analysed", fn != nil && len(fn.Params) == 1, 0, fn, nil, "crypto.Load%sKey%s not found", k, n) {
				continue
			}
			src := mkParam("src", fn.Params[0].Type())
			v := c.lemma(props, "crypto.Load"+k+"Key"+n, fn, nil, src)
			c.nopanic(v, props)
			ok := false
			for _, p := range v.paths {
				if p.o.panic == "" && len(p.o.ret) == 2 && c.xor(props, v, p) {
					if p := p.succeeds(1); p != nil {
						ok = true
						c.loaded(props, v, p, p.o.ret[0], src, k)
					}
				}
			}
			c.ob(props, "loads a good key", ok, 0, v.fn, nil, "no key is ever loaded")
		}
	}
	if fn := c.p.fn("crypto", "LoadPublicKeyFromJWK"); fn != nil && len(fn.Params) == 2 {
		v := c.lemma(props, "crypto.LoadPublicKeyFromJWK", fn, nil, S("jwk"), S("kid"))
		c.nopanic(v, props)
		ok := false
		for _, p := range v.paths {
			if p.o.panic == "" && len(p.o.ret) == 2 && c.xor(props, v, p) {
				if p := p.succeeds(1); p != nil {
					ok = true
					k := p.snap(p.o.ret[0]).key
					c.ob(props, "the key of that id", strings.Contains(k, "LookupKeyID(") && strings.Contains(k, ",kid)") && strings.Contains(k, "(jwk)"), p.o.pos, v.fn, p, "the key is %s", trunc(k, 200))
					c.failures(props, v, p, true)
				}
			}
		}
		c.ob(props, "loads a good key", ok, 0, v.fn, nil, "no key is ever loaded")
	}
}

// xor: a result or an error, not both and not neither.
func (c *Check) xor(props string, v *View, p *Path) bool {
	s := p.st()
	r, e := p.o.ret[0], p.o.ret[1]
	if r.op == OExtract && e.op == OExtract && r.args[0] == e.args[0] && (s.isNil(e) != yes || s.isNil(r) != yes) {
		return true // result and error of the same call travel together
	}
	switch s.isNil(e) {
	case no:
		return c.ob(props, "a key or an error", s.isNil(p.o.ret[0]) == yes, p.o.pos, v.fn, p, "%s comes with an error", trunc(p.o.ret[0].key, 100))
	case yes:
		return c.ob(props, "a key or an error", s.isNil(p.o.ret[0]) != yes, p.o.pos, v.fn, p, "neither a result nor an error")
	}
	return c.ob(props, "a key or an error", false, p.o.pos, v.fn, p, "a result may come with an error")
}

// succeeds: the path with the error result known to be nil, if that can be.
func (p *Path) succeeds(i int) *Path {
	switch p.st().isNil(p.o.ret[i]) {
	case yes:
		return p
	case no:
		return nil
	}
	s := p.o.st.clone()
	if !p.v.e.assume(s, mkEq(p.o.ret[i], tNil)) {
		return nil
	}
	o := *p.o
	o.st = s
	return &Path{v: p.v, o: &o, evs: p.evs}
}

// failures: what is a success did not ignore a failed step.
func (c *Check) failures(props string, v *View, p *Path, success bool) {
	if !success {
		return
	}
	for _, e := range p.evs {
		if e.res == nil || !hasErr(e.res) || strings.HasPrefix(e.name, "each:") { // see keySet for steps of loops
			continue
		}
		err := mkExtract(e.res, errIndex(e.res), nil)
		c.ob(props, "failures are reported", p.st().isNil(err) == yes, e.pos, e.fn, p, "%s may have failed", e.name)
	}
}

func (c *Check) onlyJWK(props string, p *Path) {
	for _, e := range p.evs {
		n := strings.TrimPrefix(e.name, "each:")
		c.ob(props, "no side effects", strings.HasPrefix(n, "ext:") && (strings.Contains(n, "go-jwx") || n == "ext:Set" || n == "ext:Get"), e.pos, e.fn, p, "%s is not expected here", e.name)
	}
}

// badKey: something on the path says that there is no usable key.
func (c *Check) badKey(p *Path) bool {
	return len(p.st().facts) > 0
}

// loaded: a key that is returned is what the parser of its kind made of the given PEM block.
func (c *Check) loaded(props string, v *View, p *Path, key, src *Term, kind string) {
	x := p.snap(key)
	k := x.key
	parser := map[string]string{"Public": "ParsePKIXPublicKey(", "Private": "ParsePKCS1PrivateKey("}[kind]
	ok := strings.Contains(k, parser) && x.mentions(src)
	c.ob(props, "the given key", ok, p.o.pos, v.fn, p, "the loaded key is %s", trunc(k, 200))
	if !ok {
		return
	}
	var call, block *Term
	x.walk(func(y *Term) bool {
		if y.op == OCall && strings.Contains(y.s, "x509.Parse") {
			call = y
		}
		if y.op == OExtract && y.s == "0" && y.args[0].op == OCall && strings.HasSuffix(y.args[0].s, "pem.Decode") {
			block = y
		}
		return true
	})
	s := p.st()
	if call != nil && kind == "Private" {
		c.ob(props, "failures are reported", s.isNil(mkExtract(call, 1, nil)) == yes, p.o.pos, v.fn, p, "the key may not have been parsed")
	}
	if c.ob(props, "of a PEM block", block != nil && s.isNil(block) == no, p.o.pos, v.fn, p, "the key may not come from a PEM block") {
		want := map[string]string{"Public": "PUBLIC KEY", "Private": "RSA PRIVATE KEY"}[kind]
		c.ob(props, "of the right kind", s.eqs(mkSel(block, "Type", nil), mkStr(want)) == yes, p.o.pos, v.fn, p, "the PEM block may not be a %s", want)
	}
	c.failures(props, v, p, true)
}

// keyAnswer checks one answer of the endpoint; true if the keys were served.
func (c *Check) keyAnswer(props string, v *View, p *Path) bool {
	var status, body, errKnown = (*Ev)(nil), (*Ev)(nil), false
	keys := (*Term)(nil)
	for _, e := range p.evs {
		switch {
		case e.name == "status":
			if status == nil {
				status = e
			}
		case e.name == "write":
			c.ob(props, "one body", body == nil, e.pos, e.fn, p, "the answer has two bodies")
			body = e
		default:
			n := strings.TrimPrefix(e.name, "each:")
			c.ob(props, "no side effects", strings.HasPrefix(n, "ext:") && (strings.Contains(n, "go-jwx") || n == "ext:Set" || n == "ext:Get"), e.pos, e.fn, p, "%s is not expected here", e.name)
		}
	}
	for a, f := range p.st().facts {
		if !f.val && a.op == OEq && a.args[1] == tNil && a.args[0].op == OExtract && (strings.HasPrefix(a.args[0].args[0].key, "json(") || strings.Contains(a.args[0].args[0].key, "jwk.New(")) && a.args[0].s == "1" {
			errKnown = true
		}
	}
	code := int64(200)
	if status != nil {
		code, _ = status.args[0].int()
	} else if body == nil {
		c.ob(props, "answered", false, p.o.pos, v.fn, p, "the request is not answered")
		return false
	}
	if errKnown {
		c.ob(props, "failure is reported", code >= 500 && (body == nil || !strings.Contains(body.args[0].key, "json(object{Keys")), p.o.pos, v.fn, p, "status %d although the key set could not be made", code)
		return false
	}
	if !c.ob(props, "the keys are served", code == 200 && body != nil, p.o.pos, v.fn, p, "status %d and no keys although nothing failed", code) {
		return false
	}
	if status != nil && len(status.args) > 1 {
		h := status.args[1]
		ok := strings.Contains(strings.ToLower(h.key), `application/j`)
		c.ob(props, "sent as JSON", ok, status.pos, status.fn, p, "the headers are %s", trunc(h.key, 200))
	} else {
		c.ob(props, "sent as JSON", false, p.o.pos, v.fn, p, "the key set has no content type")
	}
	b := p.snap(body.args[0])
	b.walk(func(x *Term) bool {
		if x.typ != nil && strings.HasPrefix(types.TypeString(x.typ, nil), "map[string]*crypto/rsa.PublicKey") && x.mentionsAny(func(y *Term) bool { return y.op == OParam && y.s == "ep" }) {
			keys = x
		}
		return true
	})
	if keys == nil {
		if f := c.keyMap(b); f != nil {
			keys = f
		}
	}
	if !c.ob(props, "every key", keys != nil, p.o.pos, v.fn, p, "the answer is %s, not the registered keys", trunc(b.key, 200)) {
		return false
	}
	c.keySet(props, p, v.fn, b, keys)
	for _, e := range p.evs {
		if e.res != nil && isJWK(e, "New") && !strings.HasPrefix(e.name, "each:") {
			c.ob(props, "failures are reported", p.st().isNil(mkExtract(e.res, errIndex(e.res), nil)) == yes, e.pos, e.fn, p, "%s may have failed", e.name)
		}
	}
	return true
}

func (c *Check) keyMap(b *Term) *Term {
	var r *Term
	b.walk(func(x *Term) bool {
		if f, ok := x.ex.(foldInfo); ok && x.op == OFold {
			l := keysOf(f.list)
			if l.mentionsAny(func(y *Term) bool { return y.op == OParam && y.s == "ep" }) {
				r = l
			}
		}
		return true
	})
	return r
}
