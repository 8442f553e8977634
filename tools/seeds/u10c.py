id="U10-url-alphabet"; prop="U10"
needs="An encoded pending request that contains a byte pattern where the two base64 alphabets differ, such as many non-ASCII or '?' and '~' characters."
breaks="Encoding and decoding use different base64 alphabets."
edits=[("authorization/request.go","	data, _ := base64.URLEncoding.DecodeString(encoded)\n","	data, _ := base64.StdEncoding.DecodeString(encoded)\n")]
demos={"authorization__seed_test.go":'''package authorization
import "testing"
func TestSeed(t *testing.T) {
	for _, s := range []string{"~~~???", "x~~~???", "xx~~~???"} {
		if r := DecodeRequest((&Request{State: s}).Encode()); r.State != s { t.Error(r) }
	}
}
'''}
