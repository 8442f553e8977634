id="R01-created-at"; prop="R01"
needs="An access token that was refreshed: created long ago, refreshed recently, or the other way round."
breaks="The expiry of an access token counts from the creation of the refresh token instead of the last refresh."
edits=[("resource_protector.go","	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {","	issued := at.GetRefreshedAt()\n	if at.GetCreatedAt() > 0 {\n		issued = at.GetCreatedAt()\n	}\n	if issued+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {")]
demo='''package goidc
import ("testing";"net/http/httptest")
func TestSeed(t *testing.T) {
	d := newFDI(); d.byAccess["AT"] = &fTok{aid: 1, aexp: 100, created: 950, refAt: 800}; d.infos[1] = &fInfo{id: 1, cid: "cid"}
	rp := NewResourceProtector("api"); rp.SetLogger(&nopLogger{}); rp.SetTimeBuilder(fixedNow(1000))
	r := httptest.NewRequest("GET", "/", nil); r.Header.Set("Authorization", "Bearer AT")
	if rp.Validate(httptest.NewRecorder(), r, d) { t.Error("expired token accepted") }
}
'''
