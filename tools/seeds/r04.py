id="R04-body-from-query"; prop="R04"
needs="A protector that accepts the body location, and a POST whose URL carries access_token."
breaks="With the body location enabled, a token in the query is taken as well."
edits=[("resource_protector.go","		return r.PostFormValue(\"access_token\")\n","		return r.FormValue(\"access_token\")\n")]
demo='''package goidc
import ("testing";"net/http/httptest")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.byAccess["A"] = &fTok{aid: 1, at: "A", aexp: 100, refAt: 990}
	rp := NewResourceProtector("api"); rp.SetLogger(&nopLogger{}); rp.SetTimeBuilder(fixedNow(1000)); rp.AcceptAccessToken(FromHeaderAndPostBody)
	r := httptest.NewRequest("POST", "/x?access_token=A", nil)
	if rp.Validate(httptest.NewRecorder(), r, d) { t.Error("accepted") }
}
'''
