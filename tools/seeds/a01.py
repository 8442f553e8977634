id="A01-uri-without-query"; prop="A01"
needs="A redirect URI whose part before the query is allowed but which carries an extra query."
breaks="Only the part of the redirect URI before its query is checked against the client's list."
edits=[("authorization_endpoint.go","	if !clnt.CanUseRedirectURI(ruri) {\n","	if !clnt.CanUseRedirectURI(strings.SplitN(ruri, \"?\", 2)[0]) {\n"),
("authorization_endpoint.go","	\"strconv\"\n","	\"strconv\"\n	\"strings\"\n")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	d, cb := base(); d.clients["cid"].uris = map[string]bool{"https://rp.example/cb": true}
	authz(d, cb, authorization.DefaultPolicy(), 1000, av("redirect_uri", "https://rp.example/cb?next=//evil"))
	if len(cb.screens) != 1 || cb.screens[0] != "error" { t.Error(cb.screens) }
}
'''
