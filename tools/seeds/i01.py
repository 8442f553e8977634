id="I01-auth-time-zero"; prop="I01"
needs="An authentication time of exactly zero (or a storage that keeps relative times)."
breaks="An authentication time of zero is left out of the ID token."
edits=[("id_token/id_token.go","	if authTime >= 0 {\n","	if authTime > 0 {\n")]
demo='''package goidc
import ("testing";"time";"github.com/golang-jwt/jwt";"github.com/lyokato/goidc/id_token")
func TestSeed(t *testing.T) {
	s, err := id_token.Gen("HS256", []byte("k"), "", "i", "c", "s", "", 5, 0, time.Unix(4000000000, 0))
	tok, _, _ := new(jwt.Parser).ParseUnverified(s, jwt.MapClaims{})
	if _, ok := tok.Claims.(jwt.MapClaims)["auth_time"]; err != nil || !ok { t.Error(tok) }
}
'''
