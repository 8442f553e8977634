id="T05-ownerless-info"; prop="T05"
needs="An authorization record whose client id is empty."
breaks="A code whose authorization names no client can be redeemed by any client."
edits=[("grant/authorization_code.go","			if info.GetClientId() != c.GetId() {\n",'			if owner := info.GetClientId(); owner != "" && owner != c.GetId() {\n')]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: ""}; d.sessions["C"] = &fSess{aid: 1, uri: "u", cat: 1000, exp: 60}
	w := post(tep(d, grant.AuthorizationCode()), d, "grant_type", "authorization_code", "code", "C", "redirect_uri", "u")
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
