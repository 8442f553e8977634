id="R03-single-substring"; prop="R03"
needs="A path that requires a single scope, and a token whose scope has a longer token containing that name."
breaks="A single required scope is looked for as a substring."
edits=[("resource_protector.go","""		ok, not_found := scope.IncludeAll(s, scopes)
""","""		ok, not_found := scope.IncludeAll(s, scopes)
		if len(scopes) == 1 {
			ok = strings.Contains(s, scopes[0])
		}
""")]
demo='''package goidc
import ("testing";"net/http/httptest")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid", sc: "readonly"}; d.byAccess["A"] = &fTok{aid: 1, at: "A", aexp: 100, refAt: 990}
	rp := NewResourceProtector("api"); rp.SetLogger(&nopLogger{}); rp.SetTimeBuilder(fixedNow(1000))
	r := httptest.NewRequest("GET", "/x", nil); r.Header.Set("Authorization", "Bearer A")
	if rp.ValidateWithScopes(httptest.NewRecorder(), r, d, map[string][]string{"/x": {"read"}}) { t.Error("open") }
}
'''
