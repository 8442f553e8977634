id="A05-id-token-only"; prop="A05"
needs="An implicit request for an ID token only, with offline_access and prompt=consent."
breaks="offline_access survives in implicit requests that ask for no access token."
edits=[("authorization_endpoint.go","		if f.Type == flow.Implicit ||\n","		if f.Type == flow.Implicit && f.RequireAccessToken ||\n")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	d, cb := base()
	authz(d, cb, authorization.DefaultPolicy(), 1000, av("response_type", "id_token", "nonce", "n", "prompt", "consent", "scope", "openid email offline_access"))
	if cb.shown == nil || cb.shown.Scope != "openid email" { t.Error(cb.shown) }
}
'''
