id="U05-any-question-mark"; prop="U05"
needs="A redirect URI without a query whose fragment or path holds an encoded or literal question mark, or one with a bare query in its fragment."
breaks="The separator is chosen by looking for a question mark anywhere in the URI, fragments included."
edits=[("authorization/response.go","""	case ParamTypeQuery:
		if len(u.RawQuery) == 0 {
""","""	case ParamTypeQuery:
		if len(u.RawQuery) == 0 && u.RawFragment == "" && u.Fragment == "" {
""")]
demos={"authorization__seed_test.go":'''package authorization
import "testing"
func TestSeed(t *testing.T) {
	if c := ParamTypeQuery.Connector("https://a/cb#x"); c != "?" { t.Error(c) }
}
'''}
