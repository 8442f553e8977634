id="U01-first-only"; prop="U01"
needs="A scope in which the removed token occurs twice."
breaks="Only the first occurrence of a token is removed, so a doubled offline_access survives."
edits=[("scope/util.go","""	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
""","""	removed := false
	for _, s := range list {
		if s == targetScope && !removed {
			removed = true
			continue
		}
		newList = append(newList, s)
	}
""")]
demos={"scope__seed_test.go":'''package scope
import "testing"
func TestSeed(t *testing.T) {
	if s := RemoveOfflineAccess("openid offline_access email offline_access"); s != "openid email" { t.Error(s) }
}
'''}
