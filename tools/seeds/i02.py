id="I02-shadowed-token"; prop="I02"
needs="A hybrid request for all three artefacts."
breaks="The access token stays in an inner scope, so the ID token of a hybrid answer has no at_hash."
edits=[("authorization_endpoint.go","""			rh.Error(req.RedirectURI, "server_error", "", req.State)
			return false
		}
		at = t.GetAccessToken()
		params["access_token"] = at
		params["token_type"] = "bearer"
		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
	}

	if req.Flow.RequireIdToken {
		idt, err := id_token.GenForHybrid(""","""			rh.Error(req.RedirectURI, "server_error", "", req.State)
			return false
		}
		at := t.GetAccessToken()
		params["access_token"] = at
		params["token_type"] = "bearer"
		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
	}

	if req.Flow.RequireIdToken {
		idt, err := id_token.GenForHybrid(""")]
demo='''package goidc
import ("testing";"github.com/golang-jwt/jwt";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/flow")
func TestSeed(t *testing.T) {
	d, cb := base(); cb.req = pending(flow.Hybrid, true, true)
	w := completeReq(d, cb, authorization.DefaultPolicy())
	tok, _, err := new(jwt.Parser).ParseUnverified(location(w).Get("id_token"), jwt.MapClaims{})
	if err != nil { t.Fatal(err) }
	if tok.Claims.(jwt.MapClaims)["at_hash"] == nil { t.Error(tok.Claims) }
}
'''
