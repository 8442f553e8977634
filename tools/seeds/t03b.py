id="T03-secret-from-query"; prop="T03"
needs="Body credentials enabled, a client id in the body and a secret in the query string."
breaks="With body credentials enabled the secret is also taken from the query."
edits=[("token_endpoint.go","""		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")
""","""		cid = r.PostFormValue("client_id")
		sec = r.FormValue("client_secret")
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); te := tep(d, grant.ClientCredentials()); te.AcceptClientSecret(FromHeaderAndPostBody)
	r := postForm(vals("grant_type", "client_credentials", "client_id", "cid")); r.URL.RawQuery = "client_secret=sec"
	w := httptest.NewRecorder(); te.Handler(d)(w, r)
	if w.Code == 200 { t.Error(w.Code) }
}
'''
