id="U11-raw-description"; prop="U11"
needs="An error description that contains a double quote."
breaks="The description is put between quotes without escaping, so it can add parameters to the challenge."
edits=[("oauth_error/errors.go",'fmt.Sprintf("error_description=%s", strconv.Quote(e.Description))','fmt.Sprintf("error_description=\\"%s\\"", e.Description)')]
demos={"oauth_error__seed_test.go":'''package oauth_error
import ("testing";"strings")
func TestSeed(t *testing.T) {
	if s := NewOAuthError(ErrInvalidToken, "a\\", x=\\"").Header("r"); strings.Contains(s, ", x=\\"\\"") { t.Error(s) }
}
'''}
