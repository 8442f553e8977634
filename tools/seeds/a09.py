id="A09-partial-answer"; prop="A09"
needs="An implicit request for both tokens where signing the ID token fails."
breaks="When the ID token cannot be made the access token alone is sent as a success."
edits=[("authorization_endpoint.go","""			at,       // access token
			a.currentTime(),
		)
		if err != nil {
			rh.Error(req.RedirectURI, "server_error", "", req.State)
			return false
		}
		params["id_token"] = idt
""","""			at,       // access token
			a.currentTime(),
		)
		if err != nil && at == "" {
			rh.Error(req.RedirectURI, "server_error", "", req.State)
			return false
		}
		if err == nil {
			params["id_token"] = idt
		}
""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/flow")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.req = pending(flow.Implicit, true, true); d.clients["cid"].alg = "XX256"
	w := completeReq(d, cb, authorization.DefaultPolicy())
	if location(w).Get("access_token") != "" { t.Error(w.Header()) }
}
'''
