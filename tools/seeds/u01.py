id="U01-prefix-member"; prop="U01"
needs="Two scope strings that hold the same tokens but one of them twice."
breaks="Scopes are compared as sets, so a doubled token no longer distinguishes two scope strings."
edits=[("scope/util.go","	return Sort(scope1) == Sort(scope2)\n","""	a, _ := IncludeAll(scope1, Split(scope2))
	b, _ := IncludeAll(scope2, Split(scope1))
	return a && b
""")]
demos={"scope__seed_test.go":'''package scope
import "testing"
func TestSeed(t *testing.T) {
	if Same("a a b", "a b b") { t.Error("same") }
}
'''}
