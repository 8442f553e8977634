package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// U13: the Basic credential helpers. U14: settings of the endpoints, their defaults and their clocks.

func init() {
	register("basic credential lemmas", "U13", (*Check).checkBasic)
	register("endpoint settings", "U14 T02", (*Check).checkSettings)
	register("bridge errors", "T12 T13 A12 R05", (*Check).checkBridgeErrors)
	register("default logger", "U12", (*Check).checkDefaultLogger)
	register("new key endpoint", "U09", (*Check).checkKeyCtor)
	register("clocks", "U14", (*Check).checkClocks)
	register("default policy", "U14", (*Check).checkDefaultPolicy)
}

// made: objects of the constructors that no setting or endpoint view looks at.
func (c *Check) made(props, pkg, ctor string, args ...*Term) (*Engine, []*Out) {
	fn := c.p.fn(pkg, ctor)
	e, outs := c.outer(fn, args...)
	name := ctor
	if pkg != "" {
		name = pkg + "." + name
	}
	if !c.ob(props, "analysed", fn != nil && len(outs) > 0 && len(e.undec) == 0, 0, fn, nil, "constructor %s cannot be followed", name) {
		return e, nil
	}
	for _, o := range outs {
		if !c.ob(props, "constructed", o.panic == "" && len(o.ret) == 1 && o.st.isNil(o.ret[0]) == no, o.pos, fn, nil, "%s does not give an object", name) {
			return e, nil
		}
	}
	e.inlineAll = true
	return e, outs
}

// asked calls a method of an object in a state.
func (c *Check) asked(props, name string, e *Engine, fn *ssa.Function, s *State, args ...*Term) *View {
	if !c.ob(props, "analysed", fn != nil && len(fn.Params) == len(args), 0, fn, nil, "%s not found", name) {
		return nil
	}
	return c.applied(props, name, e, s, &Term{op: OFunc, key: name, fn: fn}, args...)
}

func (c *Check) checkBridgeErrors() {
	props := "T12 T13 A12 R05"
	t, m := c.p.fn("bridge", "NewError"), c.p.method("bridge", "Error", "Type")
	vals := map[int64]string{}
	for _, n := range []string{"ErrUnsupported", "ErrServerError", "ErrFailed"} {
		k, ok := newEngine(c.p).constOf("bridge", n)
		c.ob(props, "kinds of failure", ok && vals[k] == "", 0, t, nil, "bridge.%s is missing or the same as %s", n, vals[k])
		vals[k] = n
	}
	if !c.ob(props, "analysed", t != nil && len(t.Params) == 1, 0, t, nil, "bridge.NewError not found") {
		return
	}
	typ := mkParam("typ", t.Params[0].Type())
	e, outs := c.made(props, "bridge", "NewError", typ)
	for i, o := range outs {
		// another error made meanwhile does not change it
		for j, o2 := range e.call(t, []*Term{mkParam("later", t.Params[0].Type())}, nil, o.st, o.ret, "later", t.Pos()) {
			for k, st := range []*State{o.st, o2.st} {
				v := c.asked(props, fmt.Sprintf("bridge.Error.Type/%d/%d/%d", i, j, k), e, m, st, o.ret[0])
				if v == nil {
					return
				}
				for _, p := range v.paths {
					c.ob(props, "kinds of failure", p.o.panic == "" && len(p.o.ret) == 1 && p.same(p.o.ret[0], typ), p.o.pos, m, p, "an error made with one type reports another")
				}
				c.ob(props, "kinds of failure", len(v.paths) > 0, 0, m, nil, "bridge.Error.Type never answers")
			}
		}
	}
}

func (c *Check) checkDefaultLogger() {
	props := "U12"
	e, outs := c.made(props, "log", "NewDefaultLogger")
	for i, o := range outs {
		c.loggerMethods(props, i, e, o)
	}
}

func (c *Check) loggerMethods(props string, i int, e *Engine, o *Out) {
	for _, n := range []string{"Debug", "Info", "Warn", "Error", "Fatal"} {
		for _, f := range []string{"", "f"} {
			m := c.p.method("log", "defaultLogger", n+f)
			if m == nil || len(m.Params) < 2 {
				continue // reported elsewhere
			}
			e.panics = nil
			as := []*Term{o.ret[0], mkList(nil, mkIface(S("msg"), tString))}
			if f == "f" {
				as = []*Term{o.ret[0], S("msg"), mkList(nil)}
			}
			if v := c.asked(props, fmt.Sprintf("log.NewDefaultLogger/%d.%s%s", i, n, f), e, m, o.st, as...); v != nil {
				c.nopanic(v, props)
			}
		}
	}
}

func (c *Check) checkKeyCtor() {
	props := "U09"
	e, outs := c.made(props, "", "NewJWKEndpoint")
	for i, o := range outs {
		c.firstKey(props, i, e, o)
	}
}

func (c *Check) firstKey(props string, i int, e *Engine, o *Out) {
	m := c.p.method("", "JWKEndpoint", "AddFromText")
	v := c.asked(props, fmt.Sprintf("NewJWKEndpoint/%d.AddFromText", i), e, m, o.st, o.ret[0], S("kid"), S("src"))
	if v == nil {
		return
	}
	c.cur = v
	for _, x := range e.panics {
		c.ob(props, "no-crash", false, x.pos, x.fn, nil, "may crash: %s", x.what)
	}
	some := false
	for _, p := range v.paths {
		if p.o.panic != "" {
			continue
		}
		for _, ev := range p.evs {
			if ev.name != "store" || len(ev.args) != 3 {
				continue
			}
			some = true
			now := e.content(o.st, ev.args[0])
			kv, base := now.mapParts()
			c.ob(props, "own key set", rootOf(ev.args[0]).op == OObj && !c.p.shared[rootOf(ev.args[0])] && now.op == OMap && base == nil && len(kv) == 0, ev.pos, m, p, "a new key endpoint starts with keys: %s", trunc(now.key, 200))
		}
	}
	c.ob(props, "own key set", some, 0, m, nil, "a new key endpoint takes no key")
}

func (c *Check) checkBasic() {
	props := "U13"
	uid, pass := S("uid"), S("pass")
	esc := func(x *Term) *Term { return mkCall("net/url.QueryEscape", tString, x) }
	for _, x := range []struct{ fn, pre string }{{"Token", ""}, {"Header", "Basic "}} {
		fn := c.p.fn("basic_auth", x.fn)
		if !c.ob(props, "analysed", fn != nil && len(fn.Params) == 2, 0, fn, nil, "basic_auth.%s not found", x.fn) {
			continue
		}
		v := c.lemma(props, "basic_auth."+x.fn, fn, nil, uid, pass)
		c.quiet(v, props)
		for _, p := range v.paths {
			ok := p.o.panic == "" && len(p.o.ret) == 1
			got := "a crash"
			if ok {
				r := p.snap(p.o.ret[0])
				got = trunc(r.key, 200)
				var b *Term
				pre := ""
				if r.op == OConcat && len(r.args) == 2 {
					pre, _ = r.args[0].str()
					b = r.args[1]
				} else {
					b = r
				}
				ok = pre == x.pre && b.op == OCall && b.s == "base64" && len(b.args) == 2 && b.args[0].key == "encoding/base64.StdEncoding" &&
					b.args[1] == mkConcat(esc(uid), mkStr(":"), esc(pass))
			}
			c.ob(props, "composed", ok, p.o.pos, v.fn, p, "%s is %s", x.fn, got)
		}
		c.ob(props, "composed", len(v.paths) > 0, 0, fn, nil, "%s never returns", x.fn)
	}
	fn := c.p.fn("basic_auth", "FindClientCredential")
	if !c.ob(props, "analysed", fn != nil && len(fn.Params) == 1, 0, fn, nil, "basic_auth.FindClientCredential not found") {
		return
	}
	v := c.lemma(props, "basic_auth.FindClientCredential", fn, nil, pR)
	c.quiet(v, props)
	basic := mkCall("basic", nil)
	id, sec := form("client_id"), form("client_secret")
	found := map[string]bool{}
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 3 {
			continue
		}
		for _, b := range []bool{true, false} {
			s := p.o.st.clone()
			q := termCond(p.o.ret[2])
			if !b {
				q = q.not()
			}
			if !v.e.assume(s, q) {
				continue
			}
			pp := &Path{v: v, o: &Out{st: s, ret: p.o.ret, pos: p.o.pos}, evs: p.evs}
			hdr := s.is(mkExtract(basic, 2, nil))
			pair := all(s.given(id), s.given(sec))
			is := func(x, y *Term) bool { return pp.same(p.o.ret[0], x) && pp.same(p.o.ret[1], y) }
			switch {
			case b && hdr == yes:
				found["header"] = true
				c.ob(props, "header pair", is(mkExtract(basic, 0, nil), mkExtract(basic, 1, nil)), p.o.pos, v.fn, p, "with a Basic header the pair is %s, %s", trunc(p.o.ret[0].key, 80), trunc(p.o.ret[1].key, 80))
			case b && hdr == no:
				found["form"] = true
				c.ob(props, "complete pair", pair == yes && is(id, sec), p.o.pos, v.fn, p, "without a Basic header the pair is %s, %s", trunc(p.o.ret[0].key, 80), trunc(p.o.ret[1].key, 80))
			case b:
				c.ob(props, "header first", false, p.o.pos, v.fn, p, "a pair is found although the header was not looked at")
			default:
				found["none"] = true
				c.ob(props, "none only if none", hdr == no && pair == no, p.o.pos, v.fn, p, "nothing is found although a pair may be there")
				none := is(mkStr(""), mkStr("")) || hdr == no && is(mkExtract(basic, 0, nil), mkExtract(basic, 1, nil)) // empty, too
				c.ob(props, "nothing is nothing", none, p.o.pos, v.fn, p, "half a pair is returned: %s, %s", trunc(p.o.ret[0].key, 80), trunc(p.o.ret[1].key, 80))
			}
		}
	}
	for _, k := range []string{"header", "form", "none"} {
		c.ob(props, "every source", found[k], 0, fn, nil, "credentials are never found in: %s", k)
	}
}

// raw builds an object with its constructor; the reader gives what a field holds, not a copy of it.
func (c *Check) raw(props, ctor string, args ...*Term) (*Engine, *Out, func(sel *Term, T types.Type) *Term) {
	fn := c.p.fn("", ctor)
	e, outs := c.outer(fn, args...)
	if !c.ob(props, "analysed", len(outs) == 1 && len(outs[0].ret) >= 1 && outs[0].panic == "" && len(e.undec) == 0, 0, fn, nil, "constructor %s cannot be followed", ctor) {
		return e, nil, func(*Term, types.Type) *Term { return nil }
	}
	o := outs[0]
	var addr func(x *Term) *Term
	addr = func(x *Term) *Term {
		if x.op != OSel {
			return o.ret[0]
		}
		base := addr(x.args[0])
		if x.args[0].op == OSel && o.st.mem[base] != nil && o.st.mem[base].op == OObj {
			base = o.st.mem[base] // settings behind a pointer
		}
		return mkFieldAddr(base, x.s, nil)
	}
	return e, o, func(sel *Term, T types.Type) *Term {
		if sel == nil {
			return nil
		}
		return e.load(o.st, addr(sel), T)
	}
}

// applied calls a function value in a state after set-up.
func (c *Check) applied(props, name string, e *Engine, s *State, f *Term, args ...*Term) *View {
	for f != nil && (f.op == OIface) {
		f = f.args[0]
	}
	if f == nil || f.fn == nil || f.fn.Blocks == nil {
		return nil
	}
	st := s.clone()
	st.env = map[ssa.Value]*Term{}
	st.ev = nil
	e.outer = false
	e.funcs = map[*ssa.Function]bool{}
	var as []*Term
	for i, q := range f.fn.Params {
		if i < len(args) {
			as = append(as, args[i])
		} else {
			as = append(as, argParam(i, q.Type()))
		}
	}
	v := c.finish(name, e, f.fn, e.call(f.fn, as, f.args, st, nil, "", f.fn.Pos()))
	c.sound(v, props)
	return v
}

type setting struct {
	method string
	role   string
}

func (c *Check) checkSettings() {
	props := "U14"
	for _, x := range []struct {
		typ, name, ctor string
		sets            []setting
		views           []string
	}{
		{"TokenEndpoint", "te", "NewTokenEndpoint", []setting{{"SetLogger", "logger"}, {"SetTimeBuilder", "clock"}, {"SetErrorURIBuilder", "uri"}, {"AcceptClientSecret", "secret"}, {"AcceptClientAssertion", "assertion"}}, []string{"te"}},
		{"ResourceProtector", "rp", "NewResourceProtector", []setting{{"SetLogger", "logger"}, {"SetTimeBuilder", "clock"}, {"SetErrorURIBulder", "uri"}, {"AcceptAccessToken", "secret"}}, []string{"rp", "rps"}},
		{"AuthorizationEndpoint", "a", "NewAuthorizationEndpoint", []setting{{"SetLogger", "logger"}, {"SetTimeBuilder", "clock"}}, []string{"ae", "complete", "cancel"}},
	} {
		c.cur = nil
		fn := c.p.fn("", x.ctor)
		if !c.ob(props, "analysed", fn != nil, 0, nil, nil, "%s not found", x.ctor) {
			continue
		}
		recv := mkParam(x.name, nil)
		field := map[string]*Term{}
		for _, st := range x.sets {
			f := c.setter(props, x.name, recv, x.typ, st.method)
			if f == nil {
				continue
			}
			for o, g := range field {
				c.ob(props, "settings are separate", f != g, 0, c.p.method("", x.typ, st.method), nil, "setting the %s changes the %s", st.role, o)
			}
			field[st.role] = f
		}
		if field["uri"] != nil {
			c.fixedURI(props, x.typ, x.name, field["uri"])
		}
		// the new endpoint
		var args []*Term
		for i, q := range fn.Params {
			args = append(args, mkParam([]string{"first", "second", "third"}[i%3], q.Type()))
		}
		e, o, load := c.raw(props, x.ctor, args...)
		if o != nil {
			c.newEndpoint(props, x.typ, fn, e, o, load, field)
		}
		// what requests use
		for _, n := range x.views {
			v := c.view(n)
			c.sound(v, props)
			if field["logger"] != nil {
				for l, pos := range v.e.logTo {
					c.ob(props, "the logger that was set", l == field["logger"], pos, nil, nil, "%s logs to %s", x.typ, trunc(l.key, 100))
				}
			}
			c.cur = v
			for _, p := range v.paths {
				if field["clock"] != nil {
					c.oneClock(props, p, mkInv(field["clock"], "now", nil))
				}
				if field["uri"] != nil {
					c.errorURI(props, p, field["uri"])
				}
				if n == "te" {
					for _, g := range p.ev("grant") {
						ok := len(g.args) == 6 && p.same(g.args[4], field["logger"])
						c.ob(props, "the logger that was set", ok, g.pos, g.fn, p, "a grant gets another logger")
					}
				}
			}
		}
	}
	for _, n := range grantCtors {
		v := c.view(n)
		for l, pos := range v.e.logTo {
			c.ob(props, "the logger that was set", l.op == OParam && l.s == "logger", pos, nil, nil, "grant.%s logs to %s", n, trunc(l.key, 100))
		}
	}
}

// oneClock: every reading of the time is a reading of the endpoint's clock during the request.
func (c *Check) oneClock(props string, p *Path, now *Term) {
	seen := map[*Term]bool{}
	bad := map[string]bool{}
	look := func(t *Term) {
		t.walk(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.op == OInv && (x.s == "now" || x.s == "setup:now") && x.key != now.key || x.op == OCall && (x.s == "time.Now" || x.s == "setup:time.Now") {
				bad[x.key] = true
			}
			return true
		})
	}
	for a := range p.o.st.facts {
		look(a)
	}
	for _, e := range p.evs {
		for _, a := range e.args {
			if a != nil {
				look(a)
			}
		}
	}
	var l []string
	for k := range bad {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		c.ob(props, "the clock that was set", false, p.o.pos, nil, p, "the request goes by %s", trunc(k, 120))
	}
	if len(l) == 0 {
		c.ob(props, "the clock that was set", true, p.o.pos, nil, p, "")
	}
}

// errorURI: errors that are answered name the configured page, unless they bring their own.
func (c *Check) errorURI(props string, p *Path, b *Term) {
	seen := map[*Term]bool{}
	check := func(t *Term, pos token.Pos, fn *ssa.Function) {
		t.walk(func(x *Term) bool {
			if seen[x] {
				return false
			}
			seen[x] = true
			if x.op == OCall && (x.s == "oauth_error.JSON" || x.s == "oauth_error.Header") && len(x.args) >= 3 {
				s := p.st()
				typ, u := x.args[0], x.args[2]
				set := mkCall("uri", nil, b, typ)
				ok := false
				own := mkStr("")
				if typ.op == OSel && typ.s == "Type" {
					own = mkSel(typ.args[0], "URI", nil)
				}
				switch some(s.isNil(b), s.given(own)) {
				case yes:
					ok = p.same(u, own)
				case no:
					ok = p.same(u, set)
				default: // no page: the same as one that is empty
					ok = p.same(u, set) && s.given(own) == no
				}
				c.ob(props, "the error page that was set", ok, pos, fn, p, "the error page is %s", trunc(u.key, 200))
			}
			return true
		})
	}
	for _, e := range p.evs {
		if e.name != "write" && e.name != "status" {
			continue
		}
		for _, a := range e.args {
			if a != nil {
				check(a, e.pos, e.fn)
			}
		}
	}
}

// fixedURI: a single error page is a builder that always gives that page.
func (c *Check) fixedURI(props, typ, name string, field *Term) {
	fn := c.p.method("", typ, "SetErrorURI")
	if !c.ob(props, "analysed", fn != nil && len(fn.Params) == 2, 0, fn, nil, "%s.SetErrorURI not found", typ) {
		return
	}
	e := newEngine(c.p)
	page := S("page")
	outs := e.call(fn, []*Term{mkParam(name, fn.Params[0].Type()), page}, nil, c.p.baseState(), nil, "", fn.Pos())
	n := 0
	for _, o := range outs {
		if !c.ob(props, "one setting", o.panic == "" && len(o.st.events()) == 1, fn.Pos(), fn, nil, "%s.SetErrorURI does more, or less, than set the error page", typ) {
			continue
		}
		ev := o.st.events()[0]
		ok := ev.name == "store" && len(ev.args) == 2 && fieldOf(ev.args[0], mkParam(name, nil)) == field
		if !c.ob(props, "one setting", ok, ev.pos, ev.fn, nil, "%s.SetErrorURI does not replace the error page that SetErrorURIBuilder sets", typ) {
			continue
		}
		v := c.applied(props, typ+".SetErrorURI/page", e, o.st, ev.args[1])
		if !c.ob(props, "the given error page", v != nil, ev.pos, ev.fn, nil, "the error page of %s.SetErrorURI is not known", typ) {
			continue
		}
		for _, p := range v.paths {
			n++
			c.ob(props, "the given error page", p.o.panic == "" && len(p.o.ret) == 1 && p.same(p.o.ret[0], page), p.o.pos, v.fn, p, "the error page is %s", shown(onlyOf(p.o.ret)))
		}
		c.quiet(v, props)
	}
	c.ob(props, "the given error page", n > 0, fn.Pos(), fn, nil, "%s.SetErrorURI sets nothing", typ)
}

func onlyOf(l []*Term) *Term {
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func (c *Check) newEndpoint(props, typ string, fn *ssa.Function, e *Engine, o *Out, load func(*Term, types.Type) *Term, field map[string]*Term) {
	c.cur = nil
	if f := field["logger"]; f != nil {
		l := load(f, c.p.typeOf("log", "Logger"))
		c.ob(props, "a logger from the start", l != nil && o.st.isNil(l) == no, fn.Pos(), fn, nil, "a new %s has no logger", typ)
	}
	if f := field["clock"]; f != nil {
		k := load(f, c.p.typeOf("io", "TimeBuilder"))
		if c.ob(props, "a clock from the start", k != nil && o.st.isNil(k) == no, fn.Pos(), fn, nil, "a new %s has no clock", typ) {
			c.wall(props, "a new "+typ, e, o.st, k, fn)
		}
	}
	if f := field["uri"]; f != nil {
		b := load(f, c.p.typeOf("oauth_error", "OAuthErrorURIBuilder"))
		ok := b != nil && o.st.isNil(b) == yes
		if b != nil && !ok {
			if v := c.applied(props, typ+"/default error page", e, o.st, b); v != nil {
				ok = len(v.paths) > 0
				for _, p := range v.paths {
					ok = ok && p.o.panic == "" && len(p.o.ret) == 1 && p.same(p.o.ret[0], mkStr(""))
				}
			}
		}
		c.ob(props, "no error page from the start", ok, fn.Pos(), fn, nil, "a new %s has an error page", typ)
	}
	// two endpoints have nothing in common
	fresh := o.ret[0]
	if typ == "TokenEndpoint" {
		props += " T02" // grants enabled on one endpoint are not enabled on another
	}
	c.ob(props, "endpoints share nothing", fresh.op == OObj && !c.p.shared[fresh], fn.Pos(), fn, nil, "%s does not make a new one: %s", fn.Name(), trunc(fresh.key, 100))
	for a, x := range o.st.mem {
		if rootOf(a) != fresh || x == nil {
			continue
		}
		if t := x.typ; t != nil {
			if _, isMap := t.Underlying().(*types.Map); !isMap {
				continue
			}
		} else if x.op != OObj {
			continue
		}
		c.ob(props, "endpoints share nothing", !c.p.shared[x] && x.op != OGlobal, fn.Pos(), fn, nil, "every %s shares %s", typ, trunc(x.key, 100))
	}
}

// wall: the clock reads the wall clock each time it is asked.
func (c *Check) wall(props, what string, e *Engine, s *State, k *Term, fn *ssa.Function) {
	v := c.applied(props, what+"/clock", e, s, k)
	if k.op == OCall || k.op == OFunc && k.s == "time.Now" {
		v = nil
	}
	if k.key == "func:time.Now" {
		c.ob(props, "the wall clock", true, fn.Pos(), fn, nil, "")
		return
	}
	if !c.ob(props, "the wall clock", v != nil, fn.Pos(), fn, nil, "the clock of %s is %s", what, trunc(k.key, 100)) {
		return
	}
	for _, p := range v.paths {
		r := onlyOf(p.o.ret)
		c.ob(props, "the wall clock", p.o.panic == "" && r != nil && r.op == OCall && r.s == "time.Now", p.o.pos, v.fn, p, "the clock of %s tells %s", what, shown(r))
	}
	c.quiet(v, props)
	c.ob(props, "the wall clock", len(v.paths) > 0, fn.Pos(), fn, nil, "the clock of %s tells nothing", what)
}

func (c *Check) checkClocks() {
	props := "U14"
	for _, x := range []struct {
		fn   string
		want func(a *Term) *Term
	}{
		{"NowBuilder", nil},
		{"FixedTimeBuilder", func(a *Term) *Term { return a }},
		{"FixedUnixTimeBuilder", func(a *Term) *Term { return mkCall("time.Unix", nil, a) }},
	} {
		c.cur = nil
		fn := c.p.fn("io", x.fn)
		if !c.ob(props, "analysed", fn != nil, 0, nil, nil, "io.%s not found", x.fn) {
			continue
		}
		var args []*Term
		for _, q := range fn.Params {
			args = append(args, mkParam("t", q.Type()))
		}
		e, outs := c.outer(fn, args...)
		if !c.ob(props, "analysed", len(outs) == 1 && outs[0].panic == "" && len(outs[0].ret) == 1 && len(e.undec) == 0, fn.Pos(), fn, nil, "io.%s cannot be followed", x.fn) {
			continue
		}
		o := outs[0]
		if x.want == nil {
			c.wall(props, "io."+x.fn, e, o.st, o.ret[0], fn)
			continue
		}
		if len(args) != 1 {
			continue
		}
		v := c.applied(props, "io."+x.fn+"/clock", e, o.st, o.ret[0])
		if !c.ob(props, "a fixed clock", v != nil, fn.Pos(), fn, nil, "the clock of io.%s is not known", x.fn) {
			continue
		}
		c.quiet(v, props)
		n := 0
		for _, p := range v.paths {
			n++
			r := onlyOf(p.o.ret)
			c.ob(props, "a fixed clock", p.o.panic == "" && r != nil && p.same(r, x.want(args[0])), p.o.pos, v.fn, p, "the clock of io.%s tells %s", x.fn, shown(r))
		}
		c.ob(props, "a fixed clock", n > 0, fn.Pos(), fn, nil, "the clock of io.%s tells nothing", x.fn)
	}
}

// checkDefaultPolicy: the declared defaults, and nothing looser.
func (c *Check) checkDefaultPolicy() {
	props := "U14"
	fn := c.p.fn("authorization", "DefaultPolicy")
	if !c.ob(props, "analysed", fn != nil, 0, nil, nil, "authorization.DefaultPolicy not found") {
		return
	}
	v := c.lemma(props, "authorization.DefaultPolicy", fn, nil)
	c.quiet(v, props)
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 1 {
			continue
		}
		c.ob(props, "endpoints share nothing", p.o.ret[0].op == OObj && !c.p.shared[p.o.ret[0]], p.o.pos, v.fn, p, "every default policy is the same object")
		r := p.snap(p.o.ret[0])
		for _, n := range []string{"MaxMaxAge", "MinMaxAge", "MaxNonceLength", "MaxCodeVerifierLength", "ConsentOmissionPeriod", "AuthSessionExpiresIn", "IdTokenExpiresIn"} {
			want, ok := v.e.constOf("authorization", "Default"+n)
			c.ob(props, "declared defaults", ok && mkSel(r, n, nil).key == mkInt(want).key, p.o.pos, v.fn, p, "the default %s is %s, not Default%s", n, mkSel(r, n, nil).key, n)
		}
		for _, x := range []struct{ n, v string }{{"AllowEmptyScope", "false"}, {"RequireResponseModeSecurityLevelCheck", "true"},
			{"DefaultAuthorizationCodeFlowResponseMode", `"query"`}, {"DefaultImplicitFlowResponseMode", `"fragment"`}} {
			c.ob(props, "closed defaults", mkSel(r, x.n, nil).key == x.v, p.o.pos, v.fn, p, "the default of %s is %s", x.n, mkSel(r, x.n, nil).key)
		}
	}
	c.ob(props, "declared defaults", len(v.paths) == 1, 0, fn, nil, "the default policy depends on something")
	for _, n := range []string{"MaxMaxAge", "MinMaxAge", "MaxNonceLength", "MaxCodeVerifierLength", "ConsentOmissionPeriod", "AuthSessionExpiresIn", "IdTokenExpiresIn"} {
		k, _ := v.e.constOf("authorization", "Default"+n)
		c.ob(props, "bounded defaults", k > 0, 0, fn, nil, "Default%s is %d", n, k)
	}
	lo, _ := v.e.constOf("authorization", "DefaultMinMaxAge")
	hi, _ := v.e.constOf("authorization", "DefaultMaxMaxAge")
	c.ob(props, "bounded defaults", lo <= hi, 0, fn, nil, "no max_age is allowed by default")
}

func shown(t *Term) string {
	if t == nil {
		return "nothing"
	}
	return trunc(t.key, 120)
}
