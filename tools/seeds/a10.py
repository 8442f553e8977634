id="A10-session-reset"; prop="A10"
needs="An authorization code that is issued for a request with a PKCE secret, in the hybrid flow only."
breaks="In the hybrid flow the session loses the PKCE secret when the implicit part of the answer is prepared, so the code can be redeemed without proof."
edits=[("authorization_endpoint.go","""	rh authorization.ResponseHandler,
	info bridge.AuthInfo, req *authorization.Request) bool {
	switch req.Flow.Type {
""","""	rh authorization.ResponseHandler,
	info bridge.AuthInfo, req *authorization.Request) bool {
	if req.Flow.RequireAccessToken && req.Flow.Type != flow.AuthorizationCode {
		// the verifier belongs to the code flow
		req.CodeVerifier = ""
	}
	switch req.Flow.Type {
""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/flow")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.req = pending(flow.Hybrid, true, false)
	completeReq(d, cb, authorization.DefaultPolicy())
	if len(d.sess) != 1 || d.sess[0].CodeVerifier != "ver" { t.Error(d.sess) }
}
'''
