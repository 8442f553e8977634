id="T11-kept-headers"; prop="T11"
needs="A wrapper that already set a Cache-Control header on the response."
breaks="Cache headers that something set earlier are kept, so a token answer can be cached."
edits=[("token_endpoint.go","""	for k, v := range defaultResponseHeaders {
		w.Header().Set(k, v)
	}
""","""	for k, v := range defaultResponseHeaders {
		if w.Header().Get(k) == "" {
			w.Header().Set(k, v)
		}
	}
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); r := postForm(vals("grant_type", "client_credentials")); r.SetBasicAuth("cid", "sec")
	w := httptest.NewRecorder(); w.Header().Set("Cache-Control", "public"); tep(d, grant.ClientCredentials()).Handler(d)(w, r)
	if w.Header().Get("Cache-Control") != "no-store" { t.Error(w.Header()) }
}
'''
