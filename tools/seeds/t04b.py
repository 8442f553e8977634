id="T04-fallback-key"; prop="T04"
needs="An assertion naming a key id for which the client holds no key, signed with the client's ID token key."
breaks="When the client holds no assertion key for the algorithm and key id, its ID token key is used instead."
edits=[("token_endpoint.go","""		key := c.GetAssertionKey(alg, kid)

		if key == nil {
""","""		key := c.GetAssertionKey(alg, kid)
		if key == nil && alg == c.GetIdTokenAlg() {
			key = c.GetIdTokenKey()
		}

		if key == nil {
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/golang-jwt/jwt";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); te := tep(d, grant.ClientCredentials()); te.AcceptClientAssertion(true)
	a := hs("idkey", jwt.MapClaims{"sub": "cid", "aud": d.issuer, "exp": far, "jti": "1"})
	w := httptest.NewRecorder(); te.Handler(d)(w, assertReq(a))
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
