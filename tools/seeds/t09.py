id="T09-scope-source"; prop="T09"
needs="A password request with an allowed scope in the body's twin and a forbidden one in the query, so that the two readings differ."
breaks="The scope that is checked is read from the body, the scope that is recorded from body or query: an unchecked scope in the query is recorded."
edits=[("grant/password.go","""			scp_req := r.FormValue("scope")
			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {
""","""			scp_req := r.FormValue("scope")
			if posted := r.PostFormValue("scope"); posted != "" && !c.CanUseScope(flow.DirectGrant, posted) {
""")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/flow";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.users["u:p"] = 4; d.clients["cid"].scopeOK = func(_ flow.FlowType, s string) bool { return s == "a" }
	r := postForm(vals("grant_type", "password", "username", "u", "password", "p")); r.URL.RawQuery = "scope=admin"; r.SetBasicAuth("cid", "sec")
	w := httptest.NewRecorder(); tep(d, grant.Password()).Handler(d)(w, r)
	if w.Code == 200 { t.Error(d.calls) }
}
'''
