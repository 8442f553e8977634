id="U02-none-first"; prop="U02"
needs="A prompt that names none after another value."
breaks="The exclusion of none is only noticed when none comes first."
edits=[("prompt/util.go","""		case None:
			hasNone = true
""","""		case None:
			hasNone = !hasOther
""")]
demos={"prompt__seed_test.go":'''package prompt
import "testing"
func TestSeed(t *testing.T) {
	if Validate("consent none") { t.Error("valid") }
}
'''}
