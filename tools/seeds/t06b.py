id="T06-optional-method"; prop="T06"
needs="A code bound to a PKCE secret that is redeemed with neither method nor proof, when the client authenticated in the body."
breaks="A request without any PKCE parameter skips the check although the session recorded a secret."
edits=[("grant/authorization_code.go","			cv := sess.GetCodeVerifier()\n			if cv != \"\" {\n","			cv := sess.GetCodeVerifier()\n			if cv != \"\" && (r.PostFormValue(\"code_challenge\") != \"\" || r.PostFormValue(\"client_secret\") == \"\") {\n")]
demo='''package goidc
import ("testing";"net/http/httptest";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.sessions["C"] = &fSess{aid: 1, uri: "u", cat: 990, exp: 60, cv: "x"}
	te := tep(d, grant.AuthorizationCode()); te.AcceptClientSecret(FromHeaderAndPostBody)
	r := postForm(vals("grant_type", "authorization_code", "code", "C", "redirect_uri", "u", "client_id", "cid", "client_secret", "sec"))
	w := httptest.NewRecorder(); te.Handler(d)(w, r)
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
