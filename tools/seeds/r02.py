id="R02-smuggled-scope"; prop="R02"
needs="A token whose authorization has an empty scope, presented with a forged X-OAUTH-SCOPE header."
breaks="The scope header is only replaced when the authorization has a scope, so a caller's own header survives."
edits=[("resource_protector.go","""	r.Header.Set("X-OAUTH-SCOPE", info.GetScope())
""","""	if s := info.GetScope(); s != "" {
		r.Header.Set("X-OAUTH-SCOPE", s)
	}
""")]
demo='''package goidc
import ("testing";"net/http/httptest")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.byAccess["A"] = &fTok{aid: 1, at: "A", aexp: 100, refAt: 990}
	rp := NewResourceProtector("api"); rp.SetLogger(&nopLogger{}); rp.SetTimeBuilder(fixedNow(1000))
	r := httptest.NewRequest("GET", "/x", nil); r.Header.Set("Authorization", "Bearer A"); r.Header.Set("X-OAUTH-SCOPE", "admin")
	rp.Validate(httptest.NewRecorder(), r, d)
	if r.Header.Get("X-OAUTH-SCOPE") != "" { t.Error(r.Header) }
}
'''
