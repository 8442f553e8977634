id="U06-header-echo"; prop="U06"
needs="A client with a wrong secret in the Basic header."
breaks="The Authorization header is logged when a client fails to authenticate; it is the secret in base64."
edits=[("token_endpoint.go",'''				"x-forwarded-for": r.Header.Get("X-FORWARDED-FOR"),
			}, "'client_secret' mismatch."))''','''				"x-forwarded-for": r.Header.Get("X-FORWARDED-FOR"),
				"authorization":   r.Header.Get("AUTHORIZATION"),
			}, "'client_secret' mismatch."))''')]
demo='''package goidc
import ("testing";"strings";"encoding/base64";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); te := tep(d, grant.ClientCredentials()); l := &nopLogger{}; te.SetLogger(l)
	r := postForm(vals("grant_type", "client_credentials")); r.SetBasicAuth("cid", "wrong-secret")
	te.Handler(d)(httptest.NewRecorder(), r)
	e := base64.StdEncoding.EncodeToString([]byte("cid:wrong-secret"))
	for _, s := range l.lines { if strings.Contains(s, e) || strings.Contains(s, "wrong-secret") { t.Error(s) } }
}
'''.replace('"strings";','"strings";"net/http/httptest";')
