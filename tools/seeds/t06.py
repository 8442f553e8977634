id="T06-fold"; prop="T06"
needs="A proof that differs from the right one only in letter case, for the S256 method."
breaks="The S256 proof is compared without regard to letter case, which weakens it."
edits=[("pkce/verifier.go","	return S256Encode(verifier) == challenge\n","	return strings.EqualFold(S256Encode(verifier), challenge)\n"),
("pkce/verifier.go","import \"fmt\"","import (\n	\"fmt\"\n	\"strings\"\n)")]
demo='''package goidc
import ("testing";"strings";"github.com/lyokato/goidc/pkce")
func TestSeed(t *testing.T) {
	v, _ := pkce.FindVerifierByMethod("S256")
	if v.Verify(strings.ToLower(pkce.S256Encode("foo")), "foo") { t.Error("accepted") }
}
'''
