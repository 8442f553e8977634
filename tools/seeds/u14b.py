id="U14-clock-snapshot"; prop="U14"
needs="A request served later than the moment SetTimeBuilder was called."
breaks="The authorization endpoint keeps telling the instant at which its clock was set."
edits=[("authorization_endpoint.go","	a.currentTime = builder\n","	a.currentTime = io.FixedTimeBuilder(builder())\n")]
demo='''package goidc
import ("testing";"time";"net/http";"net/http/httptest";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	now := time.Unix(1000, 0)
	d, cb := base()
	a := NewAuthorizationEndpoint(d, authorization.DefaultPolicy())
	a.SetLogger(&nopLogger{})
	a.SetTimeBuilder(func() time.Time { return now })
	now = time.Unix(5000, 0)
	r, _ := http.NewRequest("GET", "/auth?"+av("max_age", "100").Encode(), nil)
	a.HandleRequest(httptest.NewRecorder(), r, cb)
	if len(cb.screens) != 1 || cb.screens[0] != "login" { t.Error(cb.screens) }
}
'''
