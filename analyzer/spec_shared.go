package main

import (
	"go/token"
	"sort"
	"strings"
)

// U06 and U07 quantify over everything that runs while a request is served.

func init() {
	register("secrets stay out of the log", "U06", (*Check).checkSecrets)
	register("requests share no mutable state", "U07", (*Check).checkShared)
}

func requestViews() []string {
	return append(append([]string{}, grantCtors...), "te", "rp", "rps", "ae", "complete", "cancel")
}

func (c *Check) checkSecrets() {
	for _, n := range requestViews() {
		v := c.view(n)
		c.sound(v, "U06")
		sites := len(v.e.sites)
		c.ob("U06", "views are analysed", v.fn != nil && sites >= 0, token.NoPos, nil, nil, "%s is not analysed", n)
		var ks []string
		for k := range v.e.leaks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			what := k
			if i := strings.Index(k, " "); i >= 0 {
				what = k[i+1:]
			}
			c.ob("U06", "no secret in the log", false, v.e.leaks[k], nil, nil, "the log gets %s", trunc(what, 160))
		}
		for p := range v.e.logSites {
			if !v.e.leakAt[p] {
				c.ob("U06", "no secret in the log", true, p, nil, nil, "")
			}
		}
	}
}

func (c *Check) checkShared() {
	for _, n := range requestViews() {
		v := c.view(n)
		c.sound(v, "U07")
		for _, p := range v.paths {
			for _, e := range p.evs {
				c.sharedEvent(p, e)
			}
		}
	}
	if fn := c.p.method("log", "defaultLogger", "Debug"); fn != nil {
		for _, m := range []string{"Debug", "Info", "Warn", "Error", "Fatal", "Debugf", "Infof", "Warnf", "Errorf", "Fatalf"} {
			v := c.lemma("U07", "log.defaultLogger."+m+"/shared", c.p.method("log", "defaultLogger", m), nil)
			for _, p := range v.paths {
				for _, e := range p.evs {
					c.sharedEvent(p, e)
				}
			}
		}
	}
	for _, m := range []string{"EndpointLog", "AuthorizationEndpointLog", "TokenEndpointLog", "ProtectedResourceLog"} {
		if fn := c.p.fn("log", m); fn != nil {
			v := c.lemma("U07", "log."+m+"/shared", fn, nil)
			for _, p := range v.paths {
				for _, e := range p.evs {
					c.sharedEvent(p, e)
				}
			}
		}
	}
	for _, x := range []struct{ pkg, typ, fn string }{
		{"scope", "", "Include"}, {"scope", "", "IncludeAll"}, {"scope", "", "Remove"}, {"scope", "", "Same"}, {"scope", "", "Split"}, {"scope", "", "Sort"},
		{"prompt", "", "Include"}, {"prompt", "", "Validate"}, {"response_mode", "", "Validate"}, {"response_mode", "", "CompareSecurityLevel"},
		{"flow", "", "JudgeByResponseType"}, {"pkce", "", "FindVerifierByMethod"}, {"pkce", "", "S256Encode"}, {"pkce", "", "GenRandomCodeVerifier"},
		{"id_token", "", "Gen"}, {"id_token", "", "GenForImplicit"}, {"id_token", "", "GenForHybrid"}, {"id_token", "", "Hash"},
		{"basic_auth", "", "FindClientCredential"}, {"authorization", "", "DecodeRequest"}, {"authorization", "Request", "Encode"}, {"authorization", "Request", "ToSession"},
		{"oauth_error", "OAuthError", "JSON"}, {"oauth_error", "OAuthError", "Header"}, {"oauth_error", "OAuthError", "Query"}, {"oauth_error", "OAuthError", "StatusCode"}, {"oauth_error", "OAuthError", "Error"},
		{"authorization", "RedirectResponseHandler", "Success"}, {"authorization", "RedirectResponseHandler", "Error"},
		{"authorization", "HTMLResponseHandler", "Success"}, {"authorization", "HTMLResponseHandler", "Error"},
	} {
		fn := c.p.fn(x.pkg, x.fn)
		if x.typ != "" {
			fn = c.p.method(x.pkg, x.typ, x.fn)
		}
		if fn == nil {
			continue // the views that need it say so
		}
		v := c.lemma("U07", strings.TrimPrefix(x.pkg+"."+x.typ+"."+x.fn+"/shared", ""), fn, nil)
		for _, p := range v.paths {
			for _, e := range p.evs {
				c.sharedEvent(p, e)
			}
		}
	}
}

// sharedEvent: may this effect change something that outlives the request?
func (c *Check) sharedEvent(p *Path, e *Ev) {
	n := strings.TrimPrefix(e.name, "each:")
	switch {
	case n == "store" || n == "append-shared":
		ok := false
		if len(e.args) > 0 {
			a := rootOf(e.args[0])
			own := a.mentionsAny(func(x *Term) bool { return x.op == OParam && (x.s == "r" || x.s == "w") })
			grantErr := a.op == OExtract && a.s == "1" && a.args[0].op == ORes && a.args[0].s == "grant" && a != e.args[0]
			ok = grantErr || own && !a.mentionsAny(func(x *Term) bool { return x.op == OGlobal || x.op == OParam && x.s != "r" && x.s != "w" })
		}
		c.ob("U07", "no write to shared memory", ok, e.pos, e.fn, p, "writes %s, which other requests can see", trunc(keys(e.args), 200))
	case n == "go" || n == "send" || n == "receive":
		c.ob("U07", "no concurrency inside a request", false, e.pos, e.fn, p, "%s while serving a request", n)
	case strings.HasPrefix(n, "ext:"):
		ok := true
		if !strings.HasPrefix(n, "ext:fmt.Print") && !strings.HasPrefix(n, "ext:log.") && !strings.HasPrefix(n, "ext:print") {
			for _, a := range e.args {
				if a.mentionsAny(func(x *Term) bool { return x.op == OGlobal || x.op == OObj && p.v.e.shared[x] }) {
					ok = false
				}
			}
		}
		c.ob("U07", "no write to shared memory", ok, e.pos, e.fn, p, "%s may change shared memory", n)
	default:
		c.ob("U07", "no write to shared memory", true, e.pos, e.fn, p, "")
	}
}
