id="A06-hint-mismatch"; prop="A06"
needs="A client whose policy wants a matching login hint, a login hint of somebody else and any id_token_hint."
breaks="A login hint that does not match is forgiven when an unchecked id_token_hint is also there."
edits=[("authorization_endpoint.go","""			if !matched {
				rh.Error(ruri, "invalid_request",
					"'login_hint' doesn't match""","""			if !matched && req.IdTokenHint == "" {
				rh.Error(ruri, "invalid_request",
					"'login_hint' doesn't match""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/prompt")
func TestSeed(t *testing.T) {
	d, cb := base(); d.clients["cid"].none = prompt.NonePromptPolicyAllowIfLoginHintMatched
	w, _ := authz(d, cb, authorization.DefaultPolicy(), 1000, av("prompt", "none", "login_hint", "other", "id_token_hint", "x"))
	if location(w).Get("code") != "" { t.Error(w.Header()) }
}
'''
