id="T03-merged-form"; prop="T03"
needs="An endpoint configured for header and POST body, and a request with the secret in the query string; the form sources are merged well before the credential lookup."
breaks="The credential lookup makes the body form an alias of the merged form, so body-only credentials are also taken from the query string."
edits=[("token_endpoint.go","""	cid, sec, exists := r.BasicAuth()
	if exists {
		return cid, sec, true, true
	}
	switch""","""	cid, sec, exists := r.BasicAuth()
	if exists {
		return cid, sec, true, true
	}
	// parse once, whatever the source
	if r.ParseForm() == nil {
		r.PostForm = r.Form
	}
	switch""")]
demo='''package goidc
import ("testing";"net/http/httptest";"strings";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); te := tep(d, grant.ClientCredentials()); te.AcceptClientSecret(FromHeaderAndPostBody)
	r := httptest.NewRequest("POST", "/token?client_secret=sec", strings.NewReader("grant_type=client_credentials&client_id=cid"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder(); te.Handler(d)(w, r)
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
