id="U07-shared-errors"; prop="U07"
needs="Two endpoints (or two requests) that fail with the same error type, where the first fills in its error URI."
breaks="Errors without a description are shared instances, and endpoints write their error URI into them."
edits=[("oauth_error/errors.go","""	return &OAuthError{typeName, "", ""}
""","""	if e, ok := simpleErrors[typeName]; ok {
		return e
	}
	return &OAuthError{typeName, "", ""}
"""),("oauth_error/errors.go","""type OAuthErrorJSON struct {
""","""// one instance for each error that needs no description
var simpleErrors = map[OAuthErrorType]*OAuthError{
	ErrInvalidClient: {Type: ErrInvalidClient},
	ErrInvalidGrant:  {Type: ErrInvalidGrant},
	ErrServerError:   {Type: ErrServerError},
}

type OAuthErrorJSON struct {
""")]
demo='''package goidc
import ("testing";"strings";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "other"}; d.sessions["C"] = &fSess{aid: 1, uri: "u", cat: 1000, exp: 60}
	one := tep(d, grant.AuthorizationCode()); one.SetErrorURI("https://one.example/")
	two := tep(d, grant.AuthorizationCode()); two.SetErrorURI("https://two.example/")
	post(one, d, "grant_type", "authorization_code", "code", "C", "redirect_uri", "u")
	w := post(two, d, "grant_type", "authorization_code", "code", "C", "redirect_uri", "u")
	if !strings.Contains(w.Body.String(), "two.example") { t.Error(w.Body.String()) }
}
'''
