id="T01-empty-secret"; prop="T01"
needs="A Basic header whose password part is empty, naming a confidential client."
breaks="An empty secret is taken as a public client's and not checked, so anyone can act as a confidential client."
edits=[("token_endpoint.go","	if !client.MatchSecret(sec) {\n","	// public clients have no secret to present\n	if sec != \"\" && !client.MatchSecret(sec) {\n")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); r := postForm(vals("grant_type", "client_credentials")); r.SetBasicAuth("cid", "")
	w := httptest.NewRecorder(); tep(d, grant.ClientCredentials()).Handler(d)(w, r)
	if w.Code == 200 || d.count("CreateOAuthToken") > 0 { t.Error(w.Code) }
}
'''
