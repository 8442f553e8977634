id="A03-hybrid-default"; prop="A03"
needs="A hybrid response type with an explicit response_mode=query while security levels are enforced."
breaks="The hybrid flow is given the code flow's default response mode, so tokens of a hybrid answer may be sent in the query."
edits=[("authorization_endpoint.go","""	case flow.Hybrid:
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
""","""	case flow.Hybrid:
		// a hybrid answer starts with a code
		defaultRM = a.policy.DefaultAuthorizationCodeFlowResponseMode
""")]
demo='''package goidc
import ("testing";"strings";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	d, cb := base(); d.clients["cid"].noConsent = 1
	p := authorization.DefaultPolicy(); p.RequireResponseModeSecurityLevelCheck = true; p.IgnoreInvalidResponseMode = true
	w, _ := authz(d, cb, p, 1000, av("response_type", "code token", "response_mode", "query"))
	if !strings.Contains(w.Header().Get("Location"), "#") { t.Error(w.Header()) }
}
'''
