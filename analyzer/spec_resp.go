package main

import (
	"go/types"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// U04, U05: the two ways an authorization answer is delivered.

func init() {
	register("response handlers", "U04 U05 A01 A02 A03 A10", (*Check).checkHandlers)
}

// piece of a document.
type piece struct {
	text string // constant
	sym  *Term  // otherwise
	esc  bool   // HTML-escaped
	loop int    // 1: a loop over sym begins, -1: it ends
}

// pieces flattens a text into constants, values and loops.
func pieces(t *Term, acc *Term) ([]piece, bool) {
	switch t.op {
	case OConst:
		x, ok := t.str()
		return []piece{{text: x}}, ok
	case OConcat:
		var l []piece
		for _, a := range t.args {
			q, ok := pieces(a, acc)
			if !ok {
				return nil, false
			}
			l = append(l, q...)
		}
		return l, true
	case OFold:
		fi, ok := t.ex.(foldInfo)
		if !ok || t.s != "fold" || len(fi.steps) != 1 || len(fi.steps[0].conds) != 0 {
			return nil, false
		}
		l, ok := pieces(fi.init, nil)
		if !ok {
			return nil, false
		}
		hole := mk(OHole, "acc", "acc", nil)
		v := fi.steps[0].val
		if v.op != OConcat || len(v.args) == 0 || v.args[0] != hole {
			return nil, false
		}
		body, ok := pieces(mkConcat(v.args[1:]...), nil)
		if !ok {
			return nil, false
		}
		l = append(l, piece{loop: 1, sym: fi.list})
		l = append(l, body...)
		return append(l, piece{loop: -1}), true
	case OCall:
		if t.s == "html.EscapeString" {
			return []piece{{sym: t.args[0], esc: true}}, true
		}
	case OHole:
		if t.s == "acc" {
			return nil, false
		}
	}
	return []piece{{sym: t}}, true
}

type htmlAttr struct {
	name string
	val  []piece
}

type htmlTag struct {
	name  string
	attrs []htmlAttr
	loop  *Term // inside the loop over this collection
}

func (t *htmlTag) attr(n string) ([]piece, bool) {
	for _, a := range t.attrs {
		if a.name == n {
			return a.val, true
		}
	}
	return nil, false
}

func constVal(ps []piece) (string, bool) {
	s := ""
	for _, p := range ps {
		if p.sym != nil || p.loop != 0 {
			return "", false
		}
		s += p.text
	}
	return s, true
}

// lexHTML splits a document into tags. Values may only stand inside double- or single-quoted attribute
// values (escaped), or, escaped, in text outside scripts.
func lexHTML(doc []piece, rawOK func(*Term) bool) (tags []*htmlTag, text string, why string) {
	const (
		inText = iota
		inTagName
		inTag
		inAttrName
		afterName
		beforeVal
		inVal
		inBare
		inComment
	)
	st := inText
	var quote byte
	var cur *htmlTag
	var at htmlAttr
	var loop *Term
	loopSt := 0
	closeAttr := func() {
		if at.name != "" {
			cur.attrs = append(cur.attrs, at)
		}
		at = htmlAttr{}
	}
	closeTag := func() {
		tags = append(tags, cur)
		st = inText
	}
	raw := ""
	for _, p := range doc {
		switch {
		case p.loop == 1:
			if loop != nil {
				return nil, "", "a loop within a loop"
			}
			loop, loopSt = p.sym, st
			if st != inText {
				return nil, "", "a loop inside a tag"
			}
			continue
		case p.loop == -1:
			if st != loopSt {
				return nil, "", "a loop that does not close its tags"
			}
			loop = nil
			continue
		case p.sym != nil:
			switch st {
			case inVal:
				if strings.HasPrefix(at.name, "on") || at.name == "style" {
					return nil, "", "a value inside a script attribute"
				}
				if !p.esc && !rawOK(p.sym) {
					return nil, "", "an unescaped value " + trunc(p.sym.key, 80)
				}
				at.val = append(at.val, p)
			case inText:
				if raw != "" || !p.esc {
					return nil, "", "the value " + trunc(p.sym.key, 80) + " in the text of the page"
				}
			default:
				return nil, "", "the value " + trunc(p.sym.key, 80) + " inside a tag but not in a quoted attribute"
			}
			continue
		}
		for i := 0; i < len(p.text); i++ {
			ch := p.text[i]
			space := ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'
			switch st {
			case inText:
				text += string(ch)
				if raw != "" {
					if strings.HasPrefix(strings.ToLower(p.text[i:]), "</"+raw) {
						raw = ""
					} else {
						continue
					}
				}
				if ch == '<' {
					if strings.HasPrefix(p.text[i:], "<!--") {
						st = inComment
						continue
					}
					cur = &htmlTag{loop: loop}
					st = inTagName
				}
			case inComment:
				if strings.HasPrefix(p.text[i:], "-->") {
					i += 2
					st = inText
				}
			case inTagName:
				switch {
				case ch == '>':
					closeTag()
				case space:
					st = inTag
				case ch == '/' && cur.name != "":
					st = inTag
				default:
					cur.name += strings.ToLower(string(ch))
				}
			case inTag:
				switch {
				case ch == '>':
					closeTag()
				case space || ch == '/':
				default:
					at = htmlAttr{name: strings.ToLower(string(ch))}
					st = inAttrName
				}
			case inAttrName, afterName:
				switch {
				case ch == '=':
					st = beforeVal
				case ch == '>':
					closeAttr()
					closeTag()
				case space:
					st = afterName
				case st == afterName:
					closeAttr()
					at = htmlAttr{name: strings.ToLower(string(ch))}
					st = inAttrName
				default:
					at.name += strings.ToLower(string(ch))
				}
			case beforeVal:
				switch {
				case space:
				case ch == '"' || ch == '\'':
					quote, st = ch, inVal
				default:
					st = inBare
					at.val = append(at.val, piece{text: string(ch)})
				}
			case inBare:
				switch {
				case space:
					closeAttr()
					st = inTag
				case ch == '>':
					closeAttr()
					closeTag()
				default:
					at.val = append(at.val, piece{text: string(ch)})
				}
			case inVal:
				if ch == quote {
					closeAttr()
					st = inTag
				} else {
					at.val = append(at.val, piece{text: string(ch)})
				}
			}
			if st == inText && len(tags) > 0 && ch == '>' {
				if n := tags[len(tags)-1].name; n == "script" || n == "style" || n == "title" || n == "textarea" {
					raw = n
				}
			}
		}
	}
	if st != inText {
		return nil, "", "an unfinished tag"
	}
	return tags, text, ""
}

// keysOf: the collection whose keys these are.
func keysOf(l *Term) *Term {
	for l.op == OCall && (l.s == "sorted" || l.s == "copy" || l.s == "keys") {
		l = l.args[0]
	}
	return l
}

type respCase struct {
	what string
	ok   func(c *Check, p *Path)
}

// handlers runs ResponseHandlerForMode for a mode and then a method of what it returns.
func (c *Check) handlers(props, mode, method string) []*View {
	fn := c.p.fn("authorization", "ResponseHandlerForMode")
	name := "authorization.ResponseHandlerForMode/" + mode + "." + method
	key := "handlers:" + name
	if v, ok := c.memo[key]; ok {
		for _, x := range v.([]*View) {
			c.sound(x, props)
		}
		return v.([]*View)
	}
	arg := mkStr(mode)
	var pre []Cond
	if mode == "other" {
		arg = S("mode")
		for _, m := range []string{"query", "fragment", "form_post"} {
			pre = append(pre, mkEq(arg, mkStr(m)).not())
		}
	}
	e := newEngine(c.p)
	e.inlineAll = true
	v0 := c.lemmaOn(props, name+"/choice", e, fn, nil, pre, arg)
	var out []*View
	for _, p := range v0.paths {
		c.cur = v0
		if p.o.panic != "" || len(p.o.ret) != 1 || p.o.ret[0].op != OIface {
			c.ob(props, "a handler for every mode", false, p.o.pos, v0.fn, p, "no handler is known to be returned for the response mode %s", mode)
			continue
		}
		c.quietPath(p, props)
		h := p.o.ret[0]
		T := h.ex.(types.Type)
		sel := c.p.prog.MethodSets.MethodSet(T).Lookup(nil, method)
		var m *ssa.Function
		if sel != nil {
			m = c.p.prog.MethodValue(sel)
		}
		if m == nil || len(m.Params) < 3 {
			c.ob(props, "a handler for every mode", false, p.o.pos, v0.fn, p, "%s of %s is not known", method, typeName(T))
			continue
		}
		args := []*Term{h.args[0], S("uri")}
		if method == "Success" {
			args = append(args, mkParam("ps", m.Params[2].Type()))
		} else {
			args = append(args, S("typ"), S("desc"), S("state"))
		}
		out = append(out, c.lemmaOn(props, name+"/"+typeName(T), v0.e, m, p.o.st.clone(), nil, args...))
	}
	c.memo[key] = out
	return out
}

func (c *Check) quietPath(p *Path, props string) {
	for _, e := range p.evs {
		c.ob(props, "no side effects", false, e.pos, e.fn, p, "%s is not expected here", e.name)
	}
}

func (c *Check) checkHandlers() {
	for _, mode := range []string{"query", "fragment", "form_post", "other"} {
		for _, method := range []string{"Success", "Error"} {
			props := "U05 A01 A02 A03 A10"
			if mode == "form_post" {
				props = "U04 A01 A02 A03 A10"
			}
			for _, v := range c.handlers(props, mode, method) {
				c.cur = v
				for _, p := range v.paths {
					if p.o.panic != "" {
						c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
						continue
					}
					if mode == "form_post" {
						c.htmlAnswer(p, props, method)
					} else {
						c.redirAnswer(p, props, mode, method)
					}
				}
			}
		}
	}
}

// wantParams are the parameters an error answer must carry on this path.
func errorParams(s *State) (want map[string]*Term, known bool) {
	want = map[string]*Term{"error": S("typ")}
	known = true
	for k, x := range map[string]*Term{"error_description": S("desc"), "state": S("state")} {
		switch s.given(x) {
		case yes:
			want[k] = x
		case unk:
			known = false
		}
	}
	return
}

func (c *Check) htmlAnswer(p *Path, props, method string) {
	v := p.v
	var doc []piece
	status := 0
	inLoop := ""
	fail := func(rule, f string, a ...any) {
		c.ob(props, rule, false, p.o.pos, v.fn, p, f, a...)
	}
	ps := S("ps")
	for _, q := range v.fn.Params {
		if method == "Success" && q == v.fn.Params[2] {
			ps = mkParam("ps", q.Type())
		}
	}
	for _, e := range p.evs {
		switch e.name {
		case "status":
			status++
			n, _ := e.args[0].int()
			c.ob(props, "status 200", n == 200, e.pos, v.fn, p, "the page is sent with status %s", e.args[0].key)
			h := func(k string) string {
				kv, _ := e.args[1].mapParts()
				for i := 0; i+1 < len(kv); i += 2 {
					if kv[i] == mkStr(k) {
						x, _ := kv[i+1].str()
						return strings.ToLower(x)
					}
				}
				return ""
			}
			c.ob(props, "sent as HTML", strings.HasPrefix(h("Content-Type"), "text/html"), e.pos, v.fn, p, "the content type of the page is %q", h("Content-Type"))
			c.ob(props, "not cached", strings.Contains(h("Cache-Control"), "no-store"), e.pos, v.fn, p, "the page may be stored in caches: Cache-Control is %q", h("Cache-Control"))
		case "write", "each:write":
			q, ok := pieces(e.args[0], nil)
			if !ok {
				fail("known page", "the page is not fully known: %s", trunc(e.args[0].key, 300))
				return
			}
			id := ""
			if e.name == "each:write" {
				for i := range q {
					if q[i].sym != nil {
						q[i].sym = subst(q[i].sym, func(x *Term) *Term {
							switch {
							case x.op == OMKey || x.op == OElem:
								id = x.s
								return tHole
							case x.op == OMVal:
								id = x.s
								return mk(OHole, "◆", "val", nil)
							}
							return nil
						})
					}
				}
				if inLoop == "" {
					doc = append(doc, piece{loop: 1, sym: ps})
					inLoop = "?"
					for _, r := range p.st().recs {
						if keysOf(r.list) == ps && (len(r.letters) != 1 || len(r.letters[0].conds) > 0 || !r.complete) {
							fail("every parameter", "not every parameter is written")
						}
					}
				}
				if id != "" {
					inLoop = id
				}
			} else if inLoop != "" {
				doc = append(doc, piece{loop: -1})
				inLoop = ""
			}
			doc = append(doc, q...)
		default:
			fail("only the page", "%s is not part of sending the page", e.name)
		}
	}
	if status != 1 {
		fail("sent once", "the page has %d status lines", status)
		return
	}
	tags, _, why := lexHTML(doc, func(x *Term) bool { return x == tHole })
	if why != "" {
		fail("no markup from values", "the page contains %s", why)
		return
	}
	forms, open := 0, false
	submit := false
	got := map[string]int{}
	want, known := map[string]*Term{}, true
	if method == "Error" {
		want, known = errorParams(p.st())
		c.ob(props, "depends on whether it is given", known, p.o.pos, v.fn, p, "the page does not depend on whether description and state are given")
	}
	loops := 0
	// a value that is a lookup by the name of the field
	isVal := func(list, x *Term) bool {
		return x.op == OHole && x.key == "◆" && list == ps || x.op == OLookup && x.args[0] == ps && x.args[1] == tHole
	}
	for _, t := range tags {
		for _, a := range t.attrs {
			if s, ok := constVal(a.val); ok && strings.Contains(s, "submit") {
				submit = true
			}
		}
		switch t.name {
		case "script", "button":
			submit = true
		case "form":
			forms++
			open = true
			m, _ := t.attr("method")
			ms, _ := constVal(m)
			a, _ := t.attr("action")
			c.ob(props, "posts to the redirect URI", strings.EqualFold(ms, "post") && len(a) == 1 && a[0].esc && p.same(a[0].sym, S("uri")) && t.loop == nil, p.o.pos, v.fn, p, "the form does not post to the given URI")
			if e, ok := t.attr("enctype"); ok {
				es, _ := constVal(e)
				c.ob(props, "posts to the redirect URI", es == "application/x-www-form-urlencoded", p.o.pos, v.fn, p, "the form is sent as %q", es)
			}
		case "/form":
			open = false
		case "input":
			n, has := t.attr("name")
			if !has {
				continue
			}
			ty, _ := t.attr("type")
			tys, _ := constVal(ty)
			val, _ := t.attr("value")
			okIn := open && tys == "hidden" && len(val) == 1 && val[0].esc
			if t.loop != nil {
				loops++
				c.ob(props, "every parameter as it is", okIn && keysOf(t.loop) == ps && len(n) == 1 && n[0].sym == tHole && isVal(t.loop, val[0].sym), p.o.pos, v.fn, p,
					"a field of the form is not a hidden field with the name and the value of a parameter")
				continue
			}
			ns, ok := constVal(n)
			got[ns]++
			w := want[ns]
			c.ob(props, "every parameter as it is", okIn && ok && w != nil && p.same(val[0].sym, w), p.o.pos, v.fn, p, "the field %q is not the hidden field it should be", ns)
		}
	}
	c.ob(props, "posts to the redirect URI", forms == 1 && submit, p.o.pos, v.fn, p, "the page has %d forms; does something submit it: %v", forms, submit)
	if method == "Success" {
		none := p.st().cond(lenZero(mkLen(ps))) == yes
		c.ob(props, "every parameter", (loops == 1 || loops == 0 && none) && len(got) == 0, p.o.pos, v.fn, p, "the page does not hold exactly one field per parameter")
		return
	}
	for k := range want {
		c.ob(props, "every parameter", got[k] == 1, p.o.pos, v.fn, p, "the page holds %d fields named %s", got[k], k)
	}
}

// encoded splits a URI with parameters into the URI, the separator and the encoded parameters. Parameters
// that are escaped and put together one by one are the same as url.Values encoded at once, in another
// order.
func encoded(loc *Term) []*Term {
	if loc.op != OConcat || len(loc.args) < 2 {
		return nil
	}
	rest := append([]*Term{}, loc.args[1:]...)
	sep, ok := rest[0].str()
	if !ok || sep == "" {
		return loc.args
	}
	if len(sep) > 1 {
		rest[0] = mkStr(sep[1:])
	} else {
		rest = rest[1:]
	}
	out := []*Term{loc.args[0], mkStr(sep[:1])}
	if len(rest) == 1 {
		return append(out, joined(rest[0]))
	}
	if q := pairs(rest); q != nil {
		return append(out, q)
	}
	return loc.args
}

// pairs recognises name=value&name=value, with every value that is not constant escaped.
func pairs(rest []*Term) *Term {
	text := ""
	var kv []*Term
	add := func(name string, x *Term) bool {
		if name == "" || url.QueryEscape(name) != name {
			return false
		}
		for i := 0; i < len(kv); i += 2 {
			if kv[i] == mkStr(name) {
				return false
			}
		}
		kv = append(kv, mkStr(name), x)
		return true
	}
	// flush takes in the text before a value (or the end) and tells the name that the value is for.
	flush := func(end bool) (string, bool) {
		t := text
		text = ""
		if len(kv) > 0 && t != "" {
			if t[0] != '&' {
				return "", false
			}
			t = t[1:]
		}
		if end && t == "" {
			return "", true
		}
		l := strings.Split(t, "&")
		for i, x := range l {
			k, v, ok := strings.Cut(x, "=")
			if !ok {
				return "", false
			}
			if i == len(l)-1 && !end {
				return k, v == ""
			}
			u, err := url.QueryUnescape(v)
			if err != nil || !add(k, mkStr(u)) {
				return "", false
			}
		}
		return "", true
	}
	for _, t := range rest {
		if k, ok := t.str(); ok {
			text += k
			continue
		}
		if t.op != OCall || t.s != "net/url.QueryEscape" {
			return nil
		}
		if k, ok := t.args[0].str(); ok {
			text += url.QueryEscape(k)
			continue
		}
		name, ok := flush(false)
		if !ok || !add(name, t.args[0]) {
			return nil
		}
	}
	if _, ok := flush(true); !ok || len(kv) == 0 {
		return nil
	}
	return mkCall("encode", tString, mkMap(nil, kv, nil))
}

// joined: the escaped pairs of a map, in any order, joined by &.
func joined(t *Term) *Term {
	if t.op != OCall || t.s != "strings.Join" || t.args[1] != mkStr("&") {
		return t
	}
	l := t.args[0]
	for l.op == OCall && l.s == "sorted" {
		l = l.args[0]
	}
	fi, ok := l.ex.(foldInfo)
	if !ok || l.op != OFold || l.s != "fold" || len(fi.steps) != 1 || len(fi.steps[0].conds) != 0 || fi.init.op != OList || len(fi.init.args) != 0 {
		return t
	}
	v := fi.steps[0].val
	if v.op != OCall || v.s != "append" || v.args[0].key != "acc" || v.args[1].op != OList || len(v.args[1].args) != 1 {
		return t
	}
	x := v.args[1].args[0]
	if x.op != OConcat || len(x.args) != 3 || x.args[1] != mkStr("=") {
		return t
	}
	for _, i := range []int{0, 2} {
		if y := x.args[i]; y.op != OCall || y.s != "net/url.QueryEscape" {
			return t
		}
	}
	src := keysOf(fi.list)
	k, val := x.args[0].args[0], x.args[2].args[0]
	if k != tHole || !(val.key == "◆" && fi.list == src || val.op == OLookup && val.args[0] == src && val.args[1] == tHole) {
		return t
	}
	return mkCall("encode", tString, src)
}

func (c *Check) redirAnswer(p *Path, props, mode, method string) {
	v := p.v
	s := p.st()
	pos := p.o.pos
	var loc, code *Term
	n := 0
	for _, e := range p.evs {
		switch e.name {
		case "redirect":
			loc, code = e.args[0], e.args[1]
			pos = e.pos
			n++
		case "status":
			code = e.args[0]
			kv, _ := e.args[1].mapParts()
			for i := 0; i+1 < len(kv); i += 2 {
				if kv[i] == mkStr("Location") {
					loc = kv[i+1]
				}
			}
			pos = e.pos
			n++
		case "write":
		default:
			c.ob(props, "only the redirect", false, e.pos, v.fn, p, "%s is not part of a redirect", e.name)
		}
	}
	if !c.ob(props, "one redirect", n == 1 && loc != nil, pos, v.fn, p, "there are %d redirects", n) {
		return
	}
	st, _ := code.int()
	c.ob(props, "status 302", st == 302, pos, v.fn, p, "the redirect has status %s", code.key)
	loc = p.snap(loc)
	rest := encoded(loc)
	if !c.ob(props, "URI, separator, parameters", len(rest) == 3 && rest[0] == S("uri"), pos, v.fn, p, "the redirect goes to %s", trunc(loc.key, 300)) {
		return
	}
	sep, _ := rest[1].str()
	u := mkCall("net/url.Parse", nil, S("uri"))
	perr := s.isNil(mkExtract(u, 1, nil))
	if perr == unk {
		for a, f := range s.facts {
			if a.op == OEq && a.args[1] == tNil && a.args[0].key == u.key+".1" {
				perr = tb(f.val)
			}
		}
	}
	first, field := "?", "RawQuery"
	if mode == "fragment" {
		first, field = "#", "Fragment"
	}
	has := unk
	for a, f := range s.facts {
		if a.op == OEq && a.args[0].key == u.key+".0."+field && a.args[1] == mkStr("") {
			has = tb(!f.val)
		}
	}
	var ok bool
	switch {
	case perr == no:
		ok = sep == first || sep == "&"
	case perr == yes && has == yes:
		ok = sep == "&"
	case perr == yes && has == no:
		ok = sep == first
	}
	c.ob(props, "right separator", ok, pos, v.fn, p, "the separator is %q although the URI already has one: %v", sep, has == yes)
	enc := rest[2]
	if !c.ob(props, "encoded parameters", enc.op == OCall && enc.s == "encode", pos, v.fn, p, "the parameters are not URL-encoded: %s", trunc(enc.key, 300)) {
		return
	}
	m := enc.args[0]
	one := func(x *Term) *Term {
		if x.op == OList && len(x.args) == 1 {
			return x.args[0]
		}
		return x
	}
	if method == "Success" {
		good := false
		if m.op == OParam && m.s == "ps" {
			good = true
		}
		if fi, ok := m.ex.(foldInfo); ok && m.op == OFold && m.s == "fold" && len(fi.steps) == 1 && len(fi.steps[0].conds) == 0 && fi.init.op == OMap && len(fi.init.args) == 0 {
			l := keysOf(fi.list)
			kv, base := fi.steps[0].val.mapParts()
			if len(kv) == 2 && base != nil && base.key == "acc" && kv[0] == tHole && l.op == OParam && l.s == "ps" {
				x := one(kv[1])
				good = x.key == "◆" && fi.list == l || x.op == OLookup && x.args[0] == l && x.args[1] == tHole
			}
		}
		c.ob(props, "every parameter", good, pos, v.fn, p, "the redirect does not carry exactly the given parameters: %s", trunc(m.key, 300))
		return
	}
	want, known := errorParams(s)
	c.ob(props, "depends on whether it is given", known, pos, v.fn, p, "the redirect does not depend on whether description and state are given")
	kv, base := m.mapParts()
	if !c.ob(props, "known parameters", m.op == OMap && base == nil, pos, v.fn, p, "the parameters are not known: %s", trunc(m.key, 300)) {
		return
	}
	got := map[string]bool{}
	for i := 0; i+1 < len(kv); i += 2 {
		k, _ := kv[i].str()
		w := want[k]
		c.ob(props, "the given parameters", w != nil && p.same(one(kv[i+1]), w), pos, v.fn, p, "the parameter %q is %s", k, trunc(kv[i+1].key, 100))
		got[k] = true
	}
	for k := range want {
		c.ob(props, "the given parameters", got[k], pos, v.fn, p, "the parameter %s is missing", k)
	}
}
