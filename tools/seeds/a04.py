id="A04-hybrid-nonce"; prop="A04"
needs="A hybrid request for an ID token without a nonce."
breaks="The nonce is only demanded in the implicit flow."
edits=[("authorization_endpoint.go","	if f.Type != flow.AuthorizationCode &&\n","	if f.Type == flow.Implicit &&\n")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	d, cb := base()
	w, _ := authz(d, cb, authorization.DefaultPolicy(), 1000, av("response_type", "code id_token"))
	if location(w).Get("error") != "invalid_request" { t.Error(w.Header(), cb.screens) }
}
'''
