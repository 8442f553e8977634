id="T02-body-unchecked"; prop="T02"
needs="Body credentials enabled, and a client that is not permitted the grant it asks for with its secret in the body."
breaks="The client's permission is only checked for clients that used the header."
edits=[("token_endpoint.go","	if !client.CanUseGrantType(gt) {\n","	if inHeader && !client.CanUseGrantType(gt) {\n")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); c := d.clients["cid"]; c.grants = map[string]bool{}
	te := tep(d, grant.ClientCredentials()); te.AcceptClientSecret(FromAll)
	w := httptest.NewRecorder(); te.Handler(d)(w, postForm(vals("grant_type", "client_credentials", "client_id", "cid", "client_secret", "sec")))
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
