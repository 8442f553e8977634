id="U10-omitempty"; prop="U10"
needs="A pending request whose flow is unset in part: the codec drops the flow kind when it is the code flow."
breaks="The nonce is not copied into the session for requests without a PKCE secret."
edits=[("authorization/request.go","""	return &Session{
		Code:         code,
		ExpiresIn:    expiresIn,
		RedirectURI:  r.RedirectURI,
		CodeVerifier: r.CodeVerifier,
		Nonce:        r.Nonce,
		AuthTime:     authTime,
	}
""","""	sess := &Session{Code: code, ExpiresIn: expiresIn, RedirectURI: r.RedirectURI, AuthTime: authTime}
	if r.CodeVerifier != "" {
		sess.CodeVerifier, sess.Nonce = r.CodeVerifier, r.Nonce
	}
	return sess
""")]
demos={"authorization__seed_test.go":'''package authorization
import "testing"
func TestSeed(t *testing.T) {
	if s := (&Request{Nonce: "n"}).ToSession("c", 1, 2); s.Nonce != "n" { t.Error(s) }
}
'''}
