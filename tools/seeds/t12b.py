id="T12-unsupported-as-failed"; prop="T12"
needs="Storage answers FindUserIdBySubject with 'unsupported'."
breaks="A storage that cannot look up subjects is reported to the client as a bad grant."
edits=[("grant/jwt.go","""			if err != nil {
				if err.Type() == bridge.ErrFailed {

					logger.Debug(log.TokenEndpointLog(TypeJWT,
						log.NoEnabledUserId,""","""			if err != nil {
				if err.Type() != bridge.ErrServerError {

					logger.Debug(log.TokenEndpointLog(TypeJWT,
						log.NoEnabledUserId,""")]
demo='''package goidc
import ("testing";"github.com/golang-jwt/jwt";"github.com/lyokato/goidc/bridge";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.clients["cid"].akey = func(_, _ string) interface{} { return []byte("ak") }; d.errs["FindUserIdBySubject"] = bridge.NewError(bridge.ErrUnsupported)
	a := hs("ak", jwt.MapClaims{"sub": "s", "aud": d.issuer, "exp": far, "jti": "1"})
	w := post(tep(d, grant.JWT()), d, "grant_type", grant.TypeJWT, "assertion", a)
	if w.Code != 500 { t.Error(w.Code, w.Body.String()) }
}
'''
