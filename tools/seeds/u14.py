id="U14-shared-grants"; prop="U14"
needs="Two token endpoints in one process, one of which supports a grant the other must not."
breaks="Endpoints made by NewTokenEndpoint share one table of grants."
edits=[("token_endpoint.go","make(map[string]grant.GrantHandlerFunc)","noGrants"),
("token_endpoint.go","type TokenEndpoint struct {","var noGrants = map[string]grant.GrantHandlerFunc{}\n\ntype TokenEndpoint struct {")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	NewTokenEndpoint("a").Support(grant.Password())
	d := newFDI(); d.users["u:p"] = 1
	w := post(tep(d), d, "grant_type", "password", "username", "u", "password", "p")
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
