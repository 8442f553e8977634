id="U06-form-dump"; prop="U06"
needs="A password grant whose user is unknown, at a logger that keeps debug messages."
breaks="The whole request form, password included, is put into the log entry of a failed login."
edits=[("grant/password.go",'''							"client_id": c.GetId(),
							"username":  username,
						},
						"user id not found."))
''','''							"client_id": c.GetId(),
							"params":    r.Form.Encode(),
						},
						"user id not found."))
''')]
demo='''package goidc
import ("testing";"strings";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); te := tep(d, grant.Password()); l := &nopLogger{}; te.SetLogger(l)
	post(te, d, "grant_type", "password", "username", "nobody", "password", "hunter2")
	for _, s := range l.lines { if strings.Contains(s, "hunter2") { t.Error(s) } }
}
'''
