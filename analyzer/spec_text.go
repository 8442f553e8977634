package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"unicode"
)

// U10, U11, U12: codecs and names.

func init() {
	register("request codec", "U10", (*Check).checkCodec)
	register("error texts", "U11 T12 R05 A02 A10", (*Check).checkErrorTexts)
	register("log texts", "U12", (*Check).checkLog)
}

type enumConst struct {
	name string
	val  int64
}

// enum: the constants of a named integer type, by value.
func (c *Check) enum(pkg, typ string) []enumConst {
	T := c.p.typeOf(pkg, typ)
	if T == nil {
		return nil
	}
	n, ok := T.(*types.Named)
	if !ok {
		return nil
	}
	var l []enumConst
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), n) {
			if v, exact := constant.Int64Val(k.Val()); exact {
				l = append(l, enumConst{nm, v})
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].val < l[j].val || l[i].val == l[j].val && l[i].name < l[j].name })
	return l
}

// nameOf runs the String method of an enumeration for one constant.
func (c *Check) nameOf(props, pkg, typ string, k enumConst) (string, bool) {
	v := c.lemma(props, fmt.Sprintf("%s.%s.String/%s", pkg, typ, k.name), c.p.method(pkg, typ, "String"), nil, mkInt(k.val))
	c.quiet(v, props)
	if len(v.paths) != 1 || v.paths[0].o.panic != "" || len(v.paths[0].o.ret) != 1 {
		c.ob(props, "a name for every constant", false, 0, v.fn, nil, "the name of %s is not known", k.name)
		return "", false
	}
	s, ok := v.paths[0].snap(v.paths[0].o.ret[0]).str()
	c.ob(props, "a name for every constant", ok && s != "", v.paths[0].o.pos, v.fn, v.paths[0], "%s has no name", k.name)
	return s, ok && s != ""
}

func snake(s string) string {
	r := []rune(s)
	var b strings.Builder
	for i, c := range r {
		if unicode.IsUpper(c) && i > 0 && (unicode.IsLower(r[i-1]) || i+1 < len(r) && unicode.IsLower(r[i+1])) {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(c))
	}
	return b.String()
}

// ---- U10

func jsonTag(st *types.Struct, i int) (string, []string) {
	parts := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")
	n := parts[0]
	if n == "" {
		n = st.Field(i).Name()
	}
	return n, parts[1:]
}

func structOfT(T types.Type) *types.Struct {
	if T == nil {
		return nil
	}
	return structOf(T)
}

// tagsOf: every field of a struct travels under its own name.
func (c *Check) tagsOf(props, what string, T types.Type) map[string]string {
	st := structOfT(T)
	out := map[string]string{}
	if !c.ob(props, "codec type", st != nil, 0, nil, nil, "%s is not a struct", what) {
		return out
	}
	seen := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n, opts := jsonTag(st, i)
		c.ob(props, "field travels", f.Exported() && n != "-" && !f.Embedded(), f.Pos(), nil, nil, "the field %s.%s is not encoded", what, f.Name())
		o := seen[strings.ToLower(n)]
		c.ob(props, "distinct names", o == "", f.Pos(), nil, nil, "%s.%s and %s.%s are encoded under the same name %q", what, f.Name(), what, o, n)
		seen[strings.ToLower(n)] = f.Name()
		out[f.Name()] = n
		for _, x := range opts {
			c.ob(props, "known options", x == "omitempty" || x == "omitzero" || x == "string", f.Pos(), nil, nil, "unknown option %q on %s.%s", x, what, f.Name())
		}
	}
	return out
}

func (c *Check) checkCodec() {
	props := "U10"
	reqT := c.p.typeOf("authorization", "Request")
	tags := c.tagsOf(props, "Request", reqT)
	c.tagsOf(props, "Flow", c.p.typeOf("flow", "Flow"))
	for _, x := range []struct{ pkg, typ string }{{"authorization", "Request"}, {"flow", "Flow"}} {
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			c.ob(props, "encoded by fields", c.p.method(x.pkg, x.typ, m) == nil, 0, c.p.method(x.pkg, x.typ, m), nil, "%s has its own %s, which is not analysed", x.typ, m)
		}
	}

	enc := ""
	q := mkParam("q", nil)
	v := c.lemma(props, "authorization.Request.Encode", c.p.method("authorization", "Request", "Encode"), nil, q)
	c.quiet(v, props)
	names := map[string]string{} // field -> encoded name
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 1 {
			c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		failed := false // the JSON encoding is known to have failed
		for a, f := range p.st().facts {
			if !f.val && a.op == OEq && a.args[1] == tNil && strings.HasPrefix(a.args[0].key, "json(") {
				failed = true
			}
		}
		r := p.snap(p.o.ret[0])
		var obj *Term
		if r.op == OCall && r.s == "base64" && len(r.args) == 2 {
			j := r.args[1]
			if j.op == OExtract {
				j = j.args[0]
			}
			if j.op == OCall && j.s == "json" {
				obj = j.args[0]
				enc = r.args[0].key
			}
		}
		if obj == nil && failed {
			continue
		}
		if !c.ob(props, "base64 of JSON", obj != nil && obj.op == OStruct, p.o.pos, v.fn, p, "a request is encoded as %s", trunc(r.key, 200)) {
			continue
		}
		ns, _ := obj.ex.([]string)
		for f, tag := range tags {
			want := mkSel(q, f, nil).key
			n := 0
			for i := range obj.args {
				if obj.args[i].key == want {
					n++
					names[f] = strings.TrimSuffix(strings.Split(ns[i], ",")[0], "?")
				}
			}
			c.ob(props, "every field is encoded", n == 1 && names[f] != "", p.o.pos, v.fn, p, "the field %s (%s) is encoded %d times", f, tag, n)
		}
		seen := map[string]bool{}
		for _, n := range ns {
			n = strings.ToLower(strings.TrimSuffix(strings.Split(n, ",")[0], "?"))
			c.ob(props, "distinct names", !seen[n], p.o.pos, v.fn, p, "two fields are encoded as %q", n)
			seen[n] = true
		}
	}
	s := S("s")
	v = c.lemma(props, "authorization.DecodeRequest", c.p.fn("authorization", "DecodeRequest"), nil, s)
	c.quiet(v, props)
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) < 1 {
			c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		r := p.snap(p.o.ret[0])
		if p.st().isNil(p.o.ret[0]) == yes || r.op == OStruct && len(r.args) == 0 {
			bad := false // refused: something is known to be wrong
			for a, f := range p.st().facts {
				bad = bad || !f.val && a.op == OEq && a.args[1] == tNil
			}
			c.ob(props, "decoded", bad, p.o.pos, v.fn, p, "nothing is decoded although nothing is known to be wrong")
			continue
		}
		// zero values where decoding failed
		failed := false
		for a, f := range p.st().facts {
			failed = failed || !f.val && a.op == OEq && a.args[1] == tNil
		}
		u := r
		byField := false
		if r.op == OStruct {
			byField = true
			for _, a := range r.args {
				if x := a; x.op == OSel && x.args[0].op == OCall && x.args[0].s == "unjson" {
					u = x.args[0]
				}
			}
		}
		ok := u.op == OCall && u.s == "unjson" && strings.Contains(u.key, "DecodeString") && strings.Contains(u.key, enc) && u.mentions(s)
		whole := false // all of the text is decoded, nothing else
		u.walk(func(x *Term) bool {
			if (x.op == OCall || x.op == OInv) && strings.Contains(x.s, "DecodeString") && len(x.args) > 0 {
				whole = x.args[len(x.args)-1] == s
			}
			return true
		})
		ok = ok && whole
		if !ok && failed {
			continue
		}
		if !c.ob(props, "the same encoding both ways", ok && enc != "", p.o.pos, v.fn, p, "a request is decoded as %s, which is not how it is encoded", trunc(r.key, 300)) {
			continue
		}
		if byField {
			fs, _ := r.ex.([]string)
			for i, f := range fs {
				x := r.args[i]
				c.ob(props, "every field is decoded", x.op == OSel && x.args[0] == u && names[f] == tags[x.s] && tags[x.s] != "", p.o.pos, v.fn, p, "the field %s is decoded as %s", f, trunc(x.key, 120))
			}
			for f := range tags {
				c.ob(props, "every field is decoded", contains(fs, f), p.o.pos, v.fn, p, "the field %s is not decoded", f)
			}
			continue
		}
		for f, tag := range tags {
			c.ob(props, "every field is decoded", names[f] == tag, p.o.pos, v.fn, p, "the field %s is encoded as %q and decoded from %q", f, names[f], tag)
		}
	}

	// flow kinds
	T := c.p.typeOf("flow", "FlowType")
	written := map[string]string{}
	for _, k := range c.enum("flow", "FlowType") {
		mj, uj := c.p.method("flow", "FlowType", "MarshalJSON"), c.p.method("flow", "FlowType", "UnmarshalJSON")
		if mj == nil && uj == nil {
			// numbers are their own table
			break
		}
		if !c.ob(props, "both directions", mj != nil && uj != nil, 0, mj, nil, "flow kinds have a codec of their own for one direction only") {
			break
		}
		arg := mkInt(k.val)
		v := c.lemma(props, "flow.FlowType.MarshalJSON/"+k.name, mj, nil, arg)
		c.quiet(v, props)
		if !c.ob(props, "written by one table", len(v.paths) == 1 && v.paths[0].o.panic == "" && len(v.paths[0].o.ret) == 2 && v.paths[0].st().isNil(v.paths[0].o.ret[1]) == yes, 0, v.fn, nil, "how %s is written is not known", k.name) {
			continue
		}
		p := v.paths[0]
		txt, ok := p.snap(p.o.ret[0]).str()
		c.ob(props, "written by one table", ok && len(txt) > 2 && txt[0] == '"' && txt[len(txt)-1] == '"' && !strings.ContainsAny(txt[1:len(txt)-1], "\"\\") && written[txt] == "", p.o.pos, v.fn, p, "%s is written as %s, like %s", k.name, txt, written[txt])
		if ok {
			written[txt] = k.name
		}
		v = c.lemma(props, "flow.FlowType.UnmarshalJSON/"+k.name, uj, nil, mkParam("ft", types.NewPointer(T)), mkStr(txt))
		good := false
		for _, p := range v.paths {
			if p.o.panic != "" || len(p.o.ret) != 1 {
				c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
				continue
			}
			var last *Ev
			for _, e := range p.evs {
				c.ob(props, "only the value", e.name == "store" && len(e.args) == 2 && e.args[0].key == "ft", e.pos, e.fn, p, "%s while reading a flow kind", e.name)
				last = e
			}
			good = last != nil && p.st().isNil(p.o.ret[0]) == yes && last.args[1] == arg
			c.ob(props, "read by the same table", good, p.o.pos, v.fn, p, "%s, written as %s, is not read back as itself", k.name, txt)
		}
		c.ob(props, "read by the same table", good, 0, v.fn, nil, "%s is not read back", k.name)
	}

	// sessions
	v = c.lemma(props, "authorization.Request.ToSession", c.p.method("authorization", "Request", "ToSession"), nil, q, S("code"), mkParam("exp", types.Typ[types.Int64]), mkParam("at", types.Typ[types.Int64]))
	c.quiet(v, props)
	for _, p := range v.paths {
		if p.o.panic != "" || len(p.o.ret) != 1 {
			c.ob(props, "no crash", false, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		r := p.snap(p.o.ret[0])
		for f, w := range map[string]string{"Code": "code", "ExpiresIn": "exp", "AuthTime": "at", "RedirectURI": "q.RedirectURI", "CodeVerifier": "q.CodeVerifier", "Nonce": "q.Nonce"} {
			x := mkSel(r, f, nil)
			c.ob(props, "session fields", x.key == w, p.o.pos, v.fn, p, "%s of the session is %s, should be %s", f, trunc(x.key, 120), w)
		}
	}
}

// ---- U11

func (c *Check) checkErrorTexts() {
	props := "U11 T12 R05 A02 A10"
	std := map[string]int{}
	for i, n := range oauthNames {
		std[n.id] = i
	}
	var e *Term
	if m := c.p.method("oauth_error", "OAuthError", "JSON"); m != nil && len(m.Params) > 0 {
		e = mkParam("e", m.Params[0].Type())
	} else {
		e = mkParam("e", nil)
	}
	typ, desc, uri, state, realm := mkSel(e, "Type", c.p.typeOf("oauth_error", "OAuthErrorType")), mkSel(e, "Description", tString), mkSel(e, "URI", tString), S("state"), S("realm")
	names := map[string]string{}
	var undeclared []Cond
	consts := c.enum("oauth_error", "OAuthErrorType")
	vals := map[int64]string{}
	for _, k := range consts {
		_, isStd := std[k.name]
		if o := vals[k.val]; o != "" {
			_, oStd := std[o]
			c.ob(props, "distinct error types", !(isStd && oStd), 0, nil, nil, "%s and %s are the same error type", k.name, o)
			continue // another name for the same type
		}
		vals[k.val] = k.name
		undeclared = append(undeclared, mkEq(typ, mkInt(k.val)).not())
	}
	for _, n := range oauthNames {
		found := false
		for _, k := range consts {
			found = found || k.name == n.id
		}
		c.ob(props, "all standard errors", found, 0, nil, nil, "the error type %s is missing", n.id)
	}
	for _, k := range consts {
		if vals[k.val] != k.name {
			continue
		}
		name, ok := c.nameOf(props, "oauth_error", "OAuthErrorType", k)
		if !ok {
			continue
		}
		c.ob(props, "distinct names", names[name] == "", 0, nil, nil, "%s and %s have the same name %q", k.name, names[name], name)
		names[name] = k.name
		i, isStd := std[k.name]
		if isStd {
			c.ob(props, "standard name", name == oauthNames[i].name, 0, c.p.method("oauth_error", "OAuthErrorType", "String"), nil, "%s is called %q, not %q", k.name, name, oauthNames[i].name)
		}
		pre := []Cond{mkEq(typ, mkInt(k.val))}
		v := c.lemma(props, "oauth_error.OAuthError.StatusCode/"+k.name, c.p.method("oauth_error", "OAuthError", "StatusCode"), pre, e)
		c.quiet(v, props)
		for _, p := range v.paths {
			n, isN := int64(0), false
			if p.o.panic == "" && len(p.o.ret) == 1 {
				n, isN = p.o.ret[0].int()
			}
			ok := isN && (n >= 400 && n < 600)
			want := int64(0)
			if isStd {
				want = oauthNames[i].status
				ok = isN && n == want
			}
			c.ob(props, "fixed status", ok, p.o.pos, v.fn, p, "the status of %s is %d, should be %d", name, n, want)
		}
		c.errorJSON(props, k, name, pre, e, desc, uri)
		c.errorHeader(props, k, name, pre, e, desc, uri, realm)
		c.errorQuery(props, k, name, pre, e, desc, uri, state)
	}
	v := c.lemma(props, "oauth_error.OAuthError.StatusCode/other", c.p.method("oauth_error", "OAuthError", "StatusCode"), undeclared, e)
	for _, p := range v.paths {
		n := int64(0)
		if p.o.panic == "" && len(p.o.ret) == 1 {
			n, _ = p.o.ret[0].int()
		}
		c.ob(props, "fixed status", n == 500, p.o.pos, v.fn, p, "the status of an unlisted error type is %d", n)
	}
	for _, x := range []struct {
		fn   string
		want []string
	}{{"NewOAuthError", []string{"typ", "desc", ""}}, {"NewOAuthSimpleError", []string{"typ", "", ""}}, {"NewOAuthDetailedError", []string{"typ", "desc", "uri"}}} {
		fn := c.p.fn("oauth_error", x.fn)
		if fn == nil {
			continue
		}
		v := c.lemma(props, "oauth_error."+x.fn, fn, nil, mkParam("typ", c.p.typeOf("oauth_error", "OAuthErrorType")), S("desc"), S("uri"))
		c.quiet(v, props)
		for _, p := range v.paths {
			ok := p.o.panic == "" && len(p.o.ret) == 1
			if ok {
				r := p.snap(p.o.ret[0])
				for i, f := range []string{"Type", "Description", "URI"} {
					g := mkSel(r, f, nil)
					if k, isC := g.str(); isC {
						ok = ok && k == x.want[i]
					} else {
						ok = ok && g.key == x.want[i]
					}
				}
			}
			c.ob(props, "constructed as given", ok, p.o.pos, v.fn, p, "%s does not keep its arguments", x.fn)
		}
	}
}

// fieldsOf: the entries of a JSON object or query: name -> (value, present only when not empty).
type txtField struct {
	val *Term
	opt bool
}

func (c *Check) obField(p *Path, props, kind, name string, fs map[string]txtField, x *Term) {
	g, has := fs[name]
	st := p.st()
	ok := false
	switch given := st.given(x); {
	case has && g.val == nil:
	case has && g.opt:
		ok = p.same(g.val, x) || given == no && st.given(g.val) == no
	case has:
		ok = given == yes && p.same(g.val, x)
	default:
		ok = given == no
	}
	w := "missing"
	if has && g.val != nil {
		w = trunc(g.val.key, 100)
	}
	c.ob(props, kind+": "+name+" only when given", ok, p.o.pos, p.v.fn, p, "%s of the %s is %s", name, kind, w)
}

func (c *Check) errorJSON(props string, k enumConst, name string, pre []Cond, e, desc, uri *Term) {
	v := c.lemma(props, "oauth_error.OAuthError.JSON/"+k.name, c.p.method("oauth_error", "OAuthError", "JSON"), pre, e)
	c.quiet(v, props)
	for _, p := range v.paths {
		if !c.ob(props, "no crash", p.o.panic == "" && len(p.o.ret) >= 1, p.o.pos, v.fn, p, "may crash: %s", p.o.panic) {
			continue
		}
		r := p.snap(p.o.ret[0])
		if r.op == OExtract {
			r = r.args[0]
		}
		fs := map[string]txtField{}
		ok := r.op == OCall && r.s == "json" && len(r.args) == 1
		if ok {
			o := r.args[0]
			switch o.op {
			case OStruct:
				ns, _ := o.ex.([]string)
				for i, n := range ns {
					_, dup := fs[strings.TrimSuffix(n, "?")]
					ok = ok && !dup
					fs[strings.TrimSuffix(n, "?")] = txtField{o.args[i], strings.HasSuffix(n, "?")}
				}
			case OMap:
				kv, base := o.mapParts()
				ok = base == nil
				for i := 0; i+1 < len(kv); i += 2 {
					n, isC := kv[i].str()
					ok = ok && isC
					x := kv[i+1]
					if x.op == OIface {
						x = x.args[0]
					}
					fs[n] = txtField{x, false}
				}
			default:
				ok = false
			}
		}
		if !c.ob(props, "a JSON object", ok, p.o.pos, v.fn, p, "the JSON text is %s", trunc(r.key, 200)) {
			continue
		}
		g := fs["error"]
		c.ob(props, "JSON: error", g.val != nil && g.val == mkStr(name), p.o.pos, v.fn, p, "error of the JSON text is not %q", name)
		c.obField(p, props, "JSON", "error_description", fs, desc)
		c.obField(p, props, "JSON", "error_uri", fs, uri)
		c.ob(props, "JSON: nothing else", len(fs) == b2i(has(fs, "error"))+b2i(has(fs, "error_description"))+b2i(has(fs, "error_uri")), p.o.pos, v.fn, p, "the JSON text has other fields: %s", trunc(r.key, 200))
	}
}

func has(m map[string]txtField, k string) bool { _, ok := m[k]; return ok }
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (c *Check) errorHeader(props string, k enumConst, name string, pre []Cond, e, desc, uri, realm *Term) {
	v := c.lemma(props, "oauth_error.OAuthError.Header/"+k.name, c.p.method("oauth_error", "OAuthError", "Header"), pre, e, realm)
	c.quiet(v, props)
	for _, p := range v.paths {
		if !c.ob(props, "no crash", p.o.panic == "" && len(p.o.ret) == 1, p.o.pos, v.fn, p, "may crash: %s", p.o.panic) {
			continue
		}
		r := p.snap(p.o.ret[0])
		l, okL := pieces(r, nil)
		fs, why := challenge(l)
		if !okL {
			why = "not known"
		}
		if !c.ob(props, "a bearer challenge", why == "", p.o.pos, v.fn, p, "the challenge %s is %s", trunc(r.key, 200), why) {
			continue
		}
		c.ob(props, "challenge: error", fs["error"].val == mkStr(name), p.o.pos, v.fn, p, "error of the challenge is not %q", name)
		c.obField(p, props, "challenge", "error_description", fs, desc)
		c.obField(p, props, "challenge", "error_uri", fs, uri)
		c.obField(p, props, "challenge", "realm", fs, realm)
		c.ob(props, "challenge: nothing else", len(fs) == b2i(has(fs, "error"))+b2i(has(fs, "error_description"))+b2i(has(fs, "error_uri"))+b2i(has(fs, "realm")), p.o.pos, v.fn, p, "the challenge has other fields: %s", trunc(r.key, 200))
	}
}

// challenge parses `Bearer k="v", k=quote(x)`; quote(x) is a quoted string with its quotes.
func challenge(l []piece) (map[string]txtField, string) {
	fs := map[string]txtField{}
	// work on a token stream where quote(x) is one token
	type tok struct {
		s string
		x *Term
	}
	var ts []tok
	for _, p := range l {
		switch {
		case p.loop != 0:
			return nil, "written by a loop"
		case p.sym != nil:
			if p.sym.op != OCall || p.sym.s != "quote" {
				return nil, "not safely quoted: " + trunc(p.sym.key, 80)
			}
			ts = append(ts, tok{x: p.sym.args[0]})
		default:
			for _, ch := range p.text {
				ts = append(ts, tok{s: string(ch)})
			}
		}
	}
	i := 0
	lit := func(s string) bool {
		for _, ch := range s {
			if i >= len(ts) || ts[i].x != nil || ts[i].s != string(ch) {
				return false
			}
			i++
		}
		return true
	}
	if !lit("Bearer ") {
		return nil, "not of the bearer scheme"
	}
	for {
		for i < len(ts) && ts[i].s == " " {
			i++
		}
		n := ""
		for i < len(ts) && ts[i].x == nil && ts[i].s != "=" {
			n += ts[i].s
			i++
		}
		i++
		if n == "" || strings.ContainsAny(n, " ,\"") || i >= len(ts) {
			return nil, "malformed"
		}
		if _, dup := fs[n]; dup {
			return nil, "repeating " + n
		}
		if ts[i].x != nil {
			fs[n] = txtField{val: ts[i].x}
			i++
		} else {
			if !lit(`"`) {
				return nil, "not quoted"
			}
			v := ""
			for i < len(ts) && ts[i].x == nil && ts[i].s != `"` {
				if ts[i].s == "\\" {
					return nil, "escaped"
				}
				v += ts[i].s
				i++
			}
			if !lit(`"`) {
				return nil, "malformed"
			}
			fs[n] = txtField{val: mkStr(v)}
		}
		if i == len(ts) {
			return fs, ""
		}
		if !lit(",") {
			return nil, "malformed"
		}
	}
}

func (c *Check) errorQuery(props string, k enumConst, name string, pre []Cond, e, desc, uri, state *Term) {
	v := c.lemma(props, "oauth_error.OAuthError.Query/"+k.name, c.p.method("oauth_error", "OAuthError", "Query"), pre, e, state)
	c.quiet(v, props)
	for _, p := range v.paths {
		if p.o.panic != "" && strings.Contains(p.o.panic, "panic(") {
			// go-querystring cannot fail for strings; the guard behind it is unreachable
			bad := true
			for a, f := range p.st().facts {
				if !f.val && a.op == OEq && a.args[1] == tNil && strings.Contains(a.args[0].key, "query.Values(") {
					bad = false
				}
			}
			c.ob(props, "no crash", !bad, p.o.pos, v.fn, p, "may crash: %s", p.o.panic)
			continue
		}
		if !c.ob(props, "no crash", p.o.panic == "" && len(p.o.ret) == 1, p.o.pos, v.fn, p, "may crash: %s", p.o.panic) {
			continue
		}
		r := p.snap(p.o.ret[0])
		if l := []*Term{r}; r.op == OConcat || r.op == OConst {
			if r.op == OConcat {
				l = r.args
			}
			if q := pairs(l); q != nil {
				r = q
			}
		}
		fs := map[string]txtField{}
		ok := r.op == OCall && r.s == "encode"
		if ok {
			m := r.args[0]
			if m.op == OExtract {
				m = m.args[0]
			}
			switch {
			case m.op == OMap:
				kv, base := m.mapParts()
				ok = base == nil
				for i := 0; i+1 < len(kv); i += 2 {
					n, isC := kv[i].str()
					ok = ok && isC
					x := kv[i+1]
					if x.op == OList && len(x.args) == 1 {
						x = x.args[0]
					}
					fs[n] = txtField{x, false}
				}
			case m.op == OCall && strings.HasSuffix(m.s, "query.Values") && len(m.args) == 1:
				x := m.args[0]
				if x.op == OIface {
					x = x.args[0]
				}
				x = p.snap(x)
				st := structOfT(x.typ)
				if st == nil {
					st = structOfT(c.p.typeOf("oauth_error", strings.TrimPrefix(x.s, "oauth_error.")))
				}
				ok = st != nil
				for i := 0; ok && i < st.NumFields(); i++ {
					parts := strings.Split(reflect.StructTag(st.Tag(i)).Get("url"), ",")
					n, opt := parts[0], false
					for _, o := range parts[1:] {
						opt = opt || o == "omitempty"
					}
					if n == "" {
						n = st.Field(i).Name()
					}
					if n == "-" || !st.Field(i).Exported() {
						continue
					}
					_, dup := fs[n]
					ok = ok && !dup
					fs[n] = txtField{mkSel(x, st.Field(i).Name(), nil), opt}
				}
			default:
				ok = false
			}
		}
		if !c.ob(props, "a URL query", ok, p.o.pos, v.fn, p, "the query is %s", trunc(r.key, 200)) {
			continue
		}
		c.ob(props, "query: error", fs["error"].val == mkStr(name), p.o.pos, v.fn, p, "error of the query is not %q", name)
		c.obField(p, props, "query", "error_description", fs, desc)
		c.obField(p, props, "query", "error_uri", fs, uri)
		c.obField(p, props, "query", "state", fs, state)
		c.ob(props, "query: nothing else", len(fs) == b2i(has(fs, "error"))+b2i(has(fs, "error_description"))+b2i(has(fs, "error_uri"))+b2i(has(fs, "state")), p.o.pos, v.fn, p, "the query has other fields: %s", trunc(r.key, 200))
	}
}

// ---- U12

func (c *Check) checkLog() {
	props := "U12"
	type named struct {
		typ  string
		norm func(string) string
	}
	lvl := map[string]string{}
	levels := c.enum("log", "LogLevel")
	for _, t := range []named{{"LogLevel", func(s string) string { return strings.ToLower(strings.TrimPrefix(s, "LogLevel")) }}, {"LogEvent", snake}} {
		l := c.enum("log", t.typ)
		c.ob(props, "there are names", len(l) > 0, 0, nil, nil, "%s has no constants", t.typ)
		seen := map[string]string{}
		for _, k := range l {
			s, ok := c.nameOf(props, "log", t.typ, k)
			if !ok {
				continue
			}
			if t.typ == "LogLevel" {
				lvl[k.name] = s
			}
			c.ob(props, "distinct names", seen[s] == "", 0, c.p.method("log", t.typ, "String"), nil, "%s and %s are both called %q", k.name, seen[s], s)
			seen[s] = k.name
			for _, o := range l {
				c.ob(props, "its own name", o.name == k.name || o.val == k.val || t.norm(o.name) != strings.ToLower(s), 0, c.p.method("log", t.typ, "String"), nil, "%s is called %q, the name of %s", k.name, s, o.name)
			}
		}
	}
	// what is more severe has the higher level
	last := int64(-1 << 62)
	for _, n := range []string{"Debug", "Info", "Warn", "Error", "Fatal"} {
		for _, k := range levels {
			if k.name == "LogLevel"+n {
				c.ob(props, "levels in order", k.val > last, 0, nil, nil, "%s is not above the levels less severe than it", k.name)
				last = k.val
			}
		}
	}
	var glob *Term
	for _, k := range levels {
		for _, f := range []string{"", "f"} {
			m := strings.TrimPrefix(k.name, "LogLevel") + f
			fn := c.p.method("log", "defaultLogger", m)
			if !c.ob(props, "a method for every level", fn != nil && len(fn.Params) >= 2, 0, fn, nil, "the default logger has no method %s", m) {
				continue
			}
			l := mkParam("l", fn.Params[0].Type())
			var args []*Term
			if f == "" {
				args = []*Term{l, mkParam("args", fn.Params[1].Type())}
			} else {
				args = []*Term{l, S("f"), mkParam("args", fn.Params[2].Type())}
			}
			v := c.lemma(props, "log.defaultLogger."+m, fn, nil, args...)
			for _, p := range v.paths {
				if p.o.panic != "" {
					continue // not a string: nothing can be printed
				}
				var prints []*Ev
				for _, e := range p.evs {
					if strings.HasPrefix(e.name, "ext:fmt.") || strings.HasPrefix(e.name, "ext:log.") || e.name == "ext:print" || e.name == "ext:WriteString" || e.name == "ext:Write" || e.name == "ext:(*os.File).WriteString" || e.name == "ext:(*os.File).Write" {
						prints = append(prints, e)
					}
				}
				on := unk
				for a, ft := range p.st().facts {
					if a.op == OLE && len(a.args) == 1 && a.args[0].typ != nil && typeName(a.args[0].typ) == "log.LogLevel" {
						glob = a.args[0]
					}
					_ = ft
				}
				if glob != nil {
					on = p.st().cond(mkLess(mkInt(k.val), glob, false)).not()
				} else if k.val == 0 || len(prints) > 0 && k == levels[len(levels)-1] {
					on = yes // thresholds are levels
				}
				c.ob(props, "printed at the right threshold", on == tb(len(prints) == 1) && len(prints) <= 1, p.o.pos, v.fn, p, "a %s message is printed %d times although the threshold is met: %v", m, len(prints), map[tri]string{yes: "yes", no: "no", unk: "unknown"}[on])
				for _, e := range prints {
					own, other := false, ""
					msg := false
					for _, a := range e.args {
						a.walk(func(x *Term) bool {
							if s, ok := x.str(); ok {
								for o, n := range lvl {
									if n != "" && strings.Contains(s, "["+n+"]") || strings.Contains(s, n+":") {
										if o == k.name {
											own = true
										} else {
											other = n
										}
									}
								}
							}
							if x.op == OParam && (x.s == "f" || f == "" && x.s == "args") {
								msg = true
							}
							return true
						})
					}
					c.ob(props, "printed under its name", own && other == "", e.pos, e.fn, p, "a %s message is printed under another level", m)
					c.ob(props, "the message is printed", msg, e.pos, e.fn, p, "a %s message does not contain what was logged", m)
				}
			}
		}
	}
	// the threshold is what was set
	fn := c.p.fn("log", "SetLevelForDefaultLogger")
	lv := mkParam("lv", c.p.typeOf("log", "LogLevel"))
	v := c.lemma(props, "log.SetLevelForDefaultLogger", fn, nil, lv)
	set := false
	for _, p := range v.paths {
		if p.o.panic != "" {
			top := levels[len(levels)-1].val
			c.ob(props, "refused only if invalid", p.st().cond(mkLess(mkInt(top), lv, false)) == yes || p.st().cond(mkLess(lv, mkInt(levels[0].val), false)) == yes, p.o.pos, v.fn, p, "a valid level is refused")
			continue
		}
		ok := len(p.evs) == 1 && p.evs[0].name == "store" && len(p.evs[0].args) == 2 && p.evs[0].args[1] == lv && (glob == nil || strings.Contains(p.evs[0].args[0].key, glob.key) || strings.Contains(glob.key, p.evs[0].args[0].key))
		set = set || ok
		c.ob(props, "the level is set", ok, p.o.pos, v.fn, p, "setting a level does not set the threshold that is used")
	}
	c.ob(props, "the level is set", set, 0, fn, nil, "a level cannot be set")

	// a log line names the event
	for _, k := range c.enum("log", "LogEvent") {
		name, ok := "", false
		if x := c.views[fmt.Sprintf("log.LogEvent.String/%s", k.name)]; x != nil && len(x.paths) == 1 && len(x.paths[0].o.ret) == 1 {
			name, ok = x.paths[0].snap(x.paths[0].o.ret[0]).str()
		}
		if !ok {
			continue
		}
		v := c.lemma(props, "log.EndpointLog/"+k.name, c.p.fn("log", "EndpointLog"), nil, S("ep"), S("realm"), mkInt(k.val), mkParam("params", types.NewMap(tString, tString)), S("msg"))
		c.quiet(v, props)
		for _, p := range v.paths {
			good := false
			if p.o.panic == "" && len(p.o.ret) == 1 {
				r := p.snap(p.o.ret[0])
				txt := ""
				parts := map[string]bool{}
				r.walk(func(x *Term) bool {
					if s, ok := x.str(); ok {
						txt += s + " "
					}
					if x.op == OParam {
						parts[x.s] = true
					}
					return true
				})
				good = strings.Contains(txt, name) && parts["ep"] && parts["realm"] && parts["msg"] && parts["params"]
			}
			c.ob(props, "a log line names its event", good, p.o.pos, v.fn, p, "a log line of %s does not hold its name, endpoint, realm, attributes and message", name)
		}
	}
}
