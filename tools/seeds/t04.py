id="T04-no-jti"; prop="T04"
needs="An assertion without a jti claim that is presented twice; storage tells replays apart by the other claims."
breaks="The replay record is not asked for assertions without an identifier, so they can be replayed."
edits=[("assertion/error.go","""	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	if err != nil {
""","""	var err *bridge.Error
	if jti != "" {
		err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	}
	if err != nil {
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/golang-jwt/jwt";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); c := d.clients["cid"]; c.akey = func(_, _ string) interface{} { return []byte("ak") }; d.errs["RecordAssertionClaims"] = failed
	te := tep(d, grant.ClientCredentials()); te.AcceptClientAssertion(true)
	a := hs("ak", jwt.MapClaims{"sub": "cid", "aud": d.issuer, "exp": far})
	w := httptest.NewRecorder(); te.Handler(d)(w, assertReq(a))
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
