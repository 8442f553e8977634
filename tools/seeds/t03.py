id="T03-body-means-all"; prop="T03"
needs="An endpoint configured for header and POST body, and a request with the secret in the query string."
breaks="With FromHeaderAndPostBody the secret is also taken from the query string."
edits=[("token_endpoint.go","""		cid = r.PostFormValue("client_id")
		sec = r.PostFormValue("client_secret")
""","""		cid = r.PostFormValue("client_id")
		sec = r.FormValue("client_secret")
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"strings";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); te := tep(d, grant.ClientCredentials()); te.AcceptClientSecret(FromHeaderAndPostBody)
	r := httptest.NewRequest("POST", "/token?client_secret=sec", strings.NewReader("grant_type=client_credentials&client_id=cid"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder(); te.Handler(d)(w, r)
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
