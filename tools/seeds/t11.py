id="T11-put"; prop="T11"
needs="A token request made with PUT."
breaks="PUT requests are served like POST instead of being answered 405."
edits=[("token_endpoint.go","		if r.Method != \"POST\" {\n","		if r.Method != \"POST\" && r.Method != \"PUT\" {\n")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); r := postForm(vals("grant_type", "client_credentials")); r.Method = "PUT"; r.SetBasicAuth("cid", "sec")
	w := httptest.NewRecorder(); tep(d, grant.ClientCredentials()).Handler(d)(w, r)
	if w.Code != 405 || len(d.calls) > 0 { t.Error(w.Code, d.calls) }
}
'''
