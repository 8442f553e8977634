id="R05-unwritten-body"; prop="R05"
needs="A path with a scope requirement and a request that satisfies it."
breaks="A status is already written for a request that passed, so the application's own status is lost."
edits=[("resource_protector.go","""		if ok {
			return true
		} else {
""","""		if ok {
			if len(scopes) > 1 {
				w.WriteHeader(http.StatusOK)
			}
			return true
		} else {
""")]
demo='''package goidc
import ("testing";"net/http/httptest")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid", sc: "a b"}; d.byAccess["A"] = &fTok{aid: 1, at: "A", aexp: 100, refAt: 990}
	rp := NewResourceProtector("api"); rp.SetLogger(&nopLogger{}); rp.SetTimeBuilder(fixedNow(1000))
	r := httptest.NewRequest("GET", "/x", nil); r.Header.Set("Authorization", "Bearer A")
	w := &countingWriter{ResponseRecorder: httptest.NewRecorder()}
	if !rp.ValidateWithScopes(w, r, d, map[string][]string{"/x": {"a", "b"}}) || w.starts > 0 { t.Error(w.starts) }
}
'''
