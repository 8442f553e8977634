id="U03-code-first"; prop="U03"
needs="A response type that lists code after token."
breaks="Some orders of a valid response type are refused."
edits=[("flow/flow.go","""	sort.Strings(list)
	sorted := strings.Join(list, " ")
	switch sorted {
""","""	if !sort.StringsAreSorted(list) && list[0] != "code" {
		list[0], list[len(list)-1] = list[len(list)-1], list[0]
	}
	sorted := strings.Join(list, " ")
	switch sorted {
	case "code token id_token":
		sorted = "code id_token token"
	}
	switch sorted {
""")]
demos={"flow__seed_test.go":'''package flow
import "testing"
func TestSeed(t *testing.T) {
	for _, r := range []string{"id_token token code", "token code id_token", "id_token code token", "token id_token code"} {
		if f, err := JudgeByResponseType(r); err != nil || f.Type != Hybrid || !f.RequireAccessToken || !f.RequireIdToken { t.Error(r, f, err) }
	}
}
'''}
