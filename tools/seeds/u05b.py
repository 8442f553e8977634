id="U05-empty-param"; prop="U05"
needs="A success answer with an empty parameter value."
breaks="Parameters whose value is empty are dropped from a redirect answer."
edits=[("authorization/response.go","""	for k, v := range params {
		values.Add(k, v)
	}
""","""	for k, v := range params {
		if v != "" {
			values.Add(k, v)
		}
	}
""")]
demos={"authorization__seed_test.go":'''package authorization
import ("testing";"net/http/httptest";"strings")
func TestSeed(t *testing.T) {
	w := httptest.NewRecorder()
	ResponseHandlerForMode("query", w, httptest.NewRequest("GET", "/", nil)).Success("https://a/", map[string]string{"scope": "", "code": "c"})
	if !strings.Contains(w.Header().Get("Location"), "scope=") { t.Error(w.Header()) }
}
'''}
