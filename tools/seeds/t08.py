id="T08-lifetime-from-refresh"; prop="T08"
needs="A refresh token that has outlived its lifetime since creation but was refreshed in between."
breaks="A refresh token's lifetime is counted from the last refresh, so it never ends as long as it is used."
edits=[("grant/refresh_token.go","			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {\n","			if old.GetRefreshTokenExpiresIn()+old.GetRefreshedAt() < requestedTime.Unix() {\n")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid", sc: "offline_access"}; d.byRefresh["R"] = &fTok{aid: 1, rt: "R", rexp: 100, created: 100, refAt: 950}
	w := post(tep(d, grant.RefreshToken()), d, "grant_type", "refresh_token", "refresh_token", "R")
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
