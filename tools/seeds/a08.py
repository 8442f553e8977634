id="A08-unbounded-omission"; prop="A08"
needs="A consent omission period of zero, by which the operator wants consent every time."
breaks="A period of zero is taken as unlimited, so an old approval skips the consent screen."
edits=[("authorization_endpoint.go","""				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
			}
		case prompt.NoConsent""","""				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					(a.policy.ConsentOmissionPeriod == 0 || info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()) {
					return a.complete(callbacks, r, rh, info, req)
				}
			}
		case prompt.NoConsent""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization";"github.com/lyokato/goidc/prompt")
func TestSeed(t *testing.T) {
	d, cb := base(); d.clients["cid"].noConsent = prompt.NoConsentPromptPolicyOmitConsentIfCan
	p := authorization.DefaultPolicy(); p.ConsentOmissionPeriod = 0
	authz(d, cb, p, 1000, av())
	if len(cb.screens) != 1 || cb.screens[0] != "consent" { t.Error(cb.screens) }
}
'''
