id="T05-handler-time"; prop="T05"
needs="A code redeemed after its lifetime, counted from when the handler was made."
breaks="Grants get the time at which the HTTP handler was made, so codes never expire while the process runs."
edits=[("token_endpoint.go","	return func(w http.ResponseWriter, r *http.Request) {\n\n		if r.Method","	clock := io.FixedTimeBuilder(te.currentTime())\n\n	return func(w http.ResponseWriter, r *http.Request) {\n\n		if r.Method"),
("token_endpoint.go","			if ok {\n				te.executeGrantHandler(w, r, sdi, client, gt, h)\n			}\n			return\n","			if ok {\n				te.executeGrantHandler(w, r, sdi, client, gt, h, clock)\n			}\n			return\n"),
("token_endpoint.go","				if ok {\n					te.executeGrantHandler(w, r, sdi, client, gt, h)\n","				if ok {\n					te.executeGrantHandler(w, r, sdi, client, gt, h, clock)\n"),
("token_endpoint.go","gt string, h grant.GrantHandlerFunc) {","gt string, h grant.GrantHandlerFunc,\n	clock io.TimeBuilder) {"),
("token_endpoint.go","te.logger, te.currentTime())","te.logger, clock())")]
demo='''package goidc
import ("testing";"net/http/httptest";"time";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.sessions["C"] = &fSess{aid: 1, uri: "u", cat: 1000, exp: 60}
	now := time.Unix(1000, 0)
	te := NewTokenEndpoint("r"); te.SetLogger(&nopLogger{}); te.Support(grant.AuthorizationCode())
	te.SetTimeBuilder(func() time.Time { return now })
	h := te.Handler(d)
	now = time.Unix(9000, 0)
	r := postForm(vals("grant_type", "authorization_code", "code", "C", "redirect_uri", "u"))
	r.SetBasicAuth("cid", "sec")
	w := httptest.NewRecorder(); h(w, r)
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
