id="A11-scope-from-form"; prop="A11"
needs="An approval request that carries a scope parameter of its own."
breaks="The approval records the scope named in the approval request instead of the pending request's."
edits=[("authorization_endpoint.go","""	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
""","""	scp := r.FormValue("scope") // what the user ticked
	if scp == "" {
		scp = req.Scope
	}
	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, scp)
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/flow")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.req = pending(flow.AuthorizationCode, false, false)
	ep := NewAuthorizationEndpoint(d, authorization.DefaultPolicy()); ep.SetLogger(&nopLogger{})
	ep.CompleteRequest(httptest.NewRecorder(), httptest.NewRequest("GET", "/?scope=admin", nil), cb)
	if d.count("CreateOrUpdateAuthInfo cid openid") != 1 { t.Error(d.calls) }
}
'''
