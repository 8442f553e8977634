id="U10-same-name"; prop="U10"
needs="A pending request with a login hint."
breaks="The two hints are encoded under names that differ only in case handling, so one is lost on decoding."
edits=[("authorization/request.go",'''		LoginHint    string     `json:"login_hint"`
''','''		LoginHint    string     `json:"id_token_hint"`
''')]
demos={"authorization__seed_test.go":'''package authorization
import "testing"
func TestSeed(t *testing.T) {
	if r := DecodeRequest((&Request{LoginHint: "n", IdTokenHint: "i"}).Encode()); r.LoginHint != "n" || r.IdTokenHint != "i" { t.Error(r) }
}
'''}
