id="A02-cancel-mode"; prop="A02"
needs="A pending request in form_post mode that the user cancels."
breaks="A cancellation is sent by redirect although form_post was negotiated."
edits=[("authorization_endpoint.go","""	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
""","""	// nothing secret is sent
	rh := authorization.NewRedirectResponseHandler(w, r, authorization.ParamTypeQuery)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/flow")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.req = pending(flow.AuthorizationCode, false, false); cb.req.ResponseMode = "form_post"
	ep := NewAuthorizationEndpoint(d, authorization.DefaultPolicy()); ep.SetLogger(&nopLogger{}); w := httptest.NewRecorder()
	ep.CancelRequest(w, httptest.NewRequest("GET", "/", nil), cb)
	if w.Code != 200 { t.Error(w.Code) }
}
'''
