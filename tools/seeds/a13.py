id="A13-display"; prop="A13"
needs="A request without a display parameter."
breaks="The pending request carries the raw display parameter instead of the default."
edits=[("authorization_endpoint.go","		Display:      display,\n","		Display:      d,\n"),
("authorization_endpoint.go","	display := authorization.DisplayTypePage\n	d := r.FormValue(\"display\")\n	if d != \"\" {\n","	var display string\n	d := r.FormValue(\"display\")\n	if d != \"\" && d != display {\n")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/authorization")
func TestSeed(t *testing.T) {
	d, cb := base(); authz(d, cb, authorization.DefaultPolicy(), 1000, av())
	if cb.shown == nil || cb.shown.Display != "page" { t.Error(cb.shown) }
}
'''
