id="I03-default-alg"; prop="I03"
needs="A client configured with an algorithm that the JWT library does not know."
breaks="An unknown algorithm silently becomes HS256 for symmetric keys."
edits=[("id_token/id_token.go","""	if meth == nil {
		return "", fmt""","""	if _, symmetric := key.([]byte); meth == nil && symmetric {
		meth = jwt.SigningMethodHS256
	}
	if meth == nil {
		return "", fmt""")]
demo='''package goidc
import ("testing";"time";"github.com/lyokato/goidc/id_token")
func TestSeed(t *testing.T) {
	s, err := id_token.Gen("HS1024", []byte("k"), "", "i", "c", "s", "", 5, 0, time.Unix(4000000000, 0))
	if err == nil || s != "" { t.Error(s) }
}
'''
