id="T05-prefix-uri"; prop="T05"
needs="A token request whose redirect_uri extends the one the code was issued for (same prefix, longer path or query)."
breaks="A code is redeemed for a redirect URI that merely starts with the one recorded in the session."
edits=[("grant/authorization_code.go","if sess.GetRedirectURI() != uri {","if recorded := sess.GetRedirectURI(); len(uri) < len(recorded) || uri[:len(recorded)] != recorded {")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.sessions["C"] = &fSess{aid: 1, uri: "https://rp/cb", cat: 990, exp: 60}
	w := post(tep(d, grant.AuthorizationCode()), d, "grant_type", "authorization_code", "code", "C", "redirect_uri", "https://rp/cb.evil")
	if !has(w, "invalid_grant") { t.Error(w.Body.String()) }
	w = post(tep(d, grant.AuthorizationCode()), d, "grant_type", "authorization_code", "code", "C", "redirect_uri", "https://rp/cb")
	if w.Code != 200 { t.Error(w.Body.String()) }
}
'''
