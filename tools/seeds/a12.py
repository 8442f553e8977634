id="A12-auth-time-ignored"; prop="A12"
needs="A hybrid request without an ID token, and an application that cannot tell the authentication time."
breaks="A failing GetAuthTime is ignored where no ID token is made, and a session with a wrong authentication time is stored."
edits=[("authorization_endpoint.go","""	authTime, err := callbacks.GetAuthTime()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	serr := a.di""","""	authTime, err := callbacks.GetAuthTime()
	if err != nil && req.Flow.RequireIdToken {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
			log.InterfaceError,
			map[string]string{
				"method": "GetAuthTime",
			},
			err.Error()))
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	serr := a.di""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/flow")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.req = pending(flow.Hybrid, true, false); cb.errs["GetAuthTime"] = errCB
	w := completeReq(d, cb, authorization.DefaultPolicy())
	if location(w).Get("error") != "server_error" { t.Error(w.Header()) }
}
'''
