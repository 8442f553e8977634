id="U04-quote"; prop="U04"
needs="A redirect URI or value that contains a double quote."
breaks="Only angle brackets and ampersands are escaped, so a quote ends the attribute."
edits=[("authorization/response.go","k, html.EscapeString(v))","k, strings.NewReplacer(\"&\", \"&amp;\", \"<\", \"&lt;\", \">\", \"&gt;\").Replace(v))"),("authorization/response.go",'	"net/url"\n','	"net/url"\n	"strings"\n')]
demos={"authorization__seed_test.go":'''package authorization
import ("testing";"net/http/httptest";"strings")
func TestSeed(t *testing.T) {
	w := httptest.NewRecorder()
	ResponseHandlerForMode("form_post", w, httptest.NewRequest("GET", "/", nil)).Error("https://a/", "x", "", "q\\" onclick=\\"x")
	if strings.Contains(w.Body.String(), "onclick=\\"x") { t.Error(w.Body.String()) }
}
'''}
