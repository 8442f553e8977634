id="T13-last-second"; prop="T13"
needs="A refresh token that is presented in the last second of its lifetime."
breaks="A refresh token is refused one second early."
edits=[("grant/refresh_token.go","			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {\n","			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() <= requestedTime.Unix() {\n")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid", sc: "offline_access"}; d.byRefresh["R"] = &fTok{aid: 1, rt: "R", rexp: 100, created: 900}
	w := post(tep(d, grant.RefreshToken()), d, "grant_type", "refresh_token", "refresh_token", "R")
	if w.Code != 200 { t.Error(w.Body.String()) }
}
'''
