id="T02-trimmed-name"; prop="T02"
needs="A grant_type with surrounding white space, for a client whose permission list is matched exactly by its own rule."
breaks="The grant run is looked up under a trimmed name while the permission is asked for the untrimmed one, so another grant than the permitted one is run."
edits=[("token_endpoint.go","		h, exists := te.handlers[gt]\n","		h, exists := te.handlers[strings.TrimSpace(gt)]\n"),
("token_endpoint.go","	\"fmt\"\n	\"net/http\"\n\n	\"github.com/golang","	\"fmt\"\n	\"net/http\"\n	\"strings\"\n\n	\"github.com/golang")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI()
	w := post(tep(d, grant.ClientCredentials()), d, "grant_type", " client_credentials")
	if w.Code == 200 || !has(w, "unsupported_grant_type") { t.Error(w.Code, w.Body.String()) }
}
'''
