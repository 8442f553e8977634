id="A07-login-forgets-age"; prop="A07"
needs="prompt=login with max_age, from a login whose recorded authentication time is older than max_age."
breaks="max_age is not checked for requests with prompt=login."
edits=[("authorization_endpoint.go","	if req.MaxAge > 0 {\n		age :=","	if req.MaxAge > 0 && !prompt.IncludeLogin(req.Prompt) {\n		age :=")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.fromLogin = true; cb.authTime = 100
	authz(d, cb, authorization.DefaultPolicy(), 1000, av("prompt", "login", "max_age", "60"))
	if len(cb.screens) != 1 || cb.screens[0] != "login" { t.Error(cb.screens) }
}
'''
