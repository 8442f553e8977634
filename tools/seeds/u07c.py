id="U07-clock-cache"; prop="U07"
needs="Two requests at a protector, the second after the token's lifetime."
breaks="The protector freezes its clock on the first request."
edits=[("resource_protector.go","	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {\n","""	now := rp.currentTime()
	rp.currentTime = func() time.Time { return now }
	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < now.Unix() {
"""),("resource_protector.go",'	"strings"\n','	"strings"\n	"time"\n')]
demo='''package goidc
import ("testing";"net/http/httptest";"time")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.byAccess["A"] = &fTok{aid: 1, at: "A", aexp: 100, refAt: 990}
	now := int64(1000)
	rp := NewResourceProtector("api"); rp.SetLogger(&nopLogger{}); rp.SetTimeBuilder(func() time.Time { return time.Unix(now, 0) })
	get := func() bool { r := httptest.NewRequest("GET", "/x", nil); r.Header.Set("Authorization", "Bearer A"); return rp.Validate(httptest.NewRecorder(), r, d) }
	if !get() { t.Error("refused") }
	now = 2000
	if get() { t.Error("expired token accepted") }
}
'''
