id="T07-late-disable"; prop="T07"
needs="The storage reports that disabling the session failed because it was already disabled (a concurrent redemption)."
breaks="When disabling the session fails with a 'failed' answer the token is still returned, so two concurrent redemptions of one code both succeed."
edits=[("grant/authorization_code.go","""						"failed to disable code."))

					return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
""","""						"failed to disable code."))

					// already disabled
"""),]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/grant")
func TestSeed(t *testing.T) {
	d := newFDI(); d.infos[1] = &fInfo{id: 1, cid: "cid"}; d.sessions["C"] = &fSess{aid: 1, uri: "u", cat: 990, exp: 60}
	d.errs["DisableSession"] = failed
	w := post(tep(d, grant.AuthorizationCode()), d, "grant_type", "authorization_code", "code", "C", "redirect_uri", "u")
	if w.Code == 200 { t.Error(w.Body.String()) }
}
'''
