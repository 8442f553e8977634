id="U08-short"; prop="U08"
needs="Any generated verifier."
breaks="A generated verifier has 24 bytes instead of 32."
edits=[("pkce/crypto.go","	var data [32]byte\n","	var data [24]byte\n")]
demos={"pkce__seed_test.go":'''package pkce
import ("testing";"encoding/base64")
func TestSeed(t *testing.T) {
	b, err := base64.RawURLEncoding.DecodeString(GenRandomCodeVerifier())
	if err != nil || len(b) < 32 { t.Error(len(b), err) }
}
'''}
