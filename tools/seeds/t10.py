id="T10-old-refresh-token"; prop="T10"
needs="A storage that rotates the token away: the refreshed token carries no refresh token."
breaks="The presented refresh token is answered as the new one when storage issued none."
edits=[("grant/refresh_token.go","""			if newRt != "" {
				res.RefreshToken = newRt
			}
""","""			if newRt == "" {
				newRt = rt
			}
			res.RefreshToken = newRt
""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid", sc: "offline_access"}; d.byRefresh["R"] = &fTok{aid: 1, rt: "R", rexp: 100, created: 950}
	d.nextTok = &fTok{aid: 1, at: "A", aexp: 5}
	w := post(tep(d, grant.RefreshToken()), d, "grant_type", "refresh_token", "refresh_token", "R")
	if w.Code != 200 || has(w, "refresh_token") { t.Error(w.Body.String()) }
}
'''
