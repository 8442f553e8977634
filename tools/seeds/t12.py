id="T12-info-nil"; prop="T12"
needs="Storage reports success of CreateOrUpdateAuthInfo without returning the record, in the client-credentials grant."
breaks="A missing authorization record is passed on to token creation."
edits=[("grant/client_credential.go","""				if info == nil {
""","""				if info == nil && scp_req != "" {
""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	noPanic(t, func() {
		d := newFDI(); d.nils["CreateOrUpdateAuthInfo"] = true
		w := post(tep(d, grant.ClientCredentials()), d, "grant_type", "client_credentials")
		if w.Code != 500 || d.count("CreateOAuthToken") > 0 { t.Error(w.Code, d.calls) }
	})
}
'''
