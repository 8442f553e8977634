id="U11-status-table"; prop="U11"
needs="An error of type temporarily_unavailable or another unlisted type."
breaks="Unlisted error types get status 400."
edits=[("oauth_error/errors.go","""	code, exists := errStatusCodeMap[e.Type]
	if exists {
		return code
	} else {
		return http.StatusInternalServerError
	}
""","""	code, exists := errStatusCodeMap[e.Type]
	if !exists && e.Type.String() == "" {
		return http.StatusInternalServerError
	} else if !exists {
		return http.StatusBadRequest
	}
	return code
""")]
demos={"oauth_error__seed_test.go":'''package oauth_error
import "testing"
func TestSeed(t *testing.T) {
	if s := NewOAuthSimpleError(ErrTemporarilyUnavailable).StatusCode(); s != 500 { t.Error(s) }
}
'''}
