id="T13-shared-error"; prop="T13"
needs="A storage that prepares two kinds of error before it uses one, as with errors made when it is set up."
breaks="Errors of the storage share their kind: the last one made decides what all of them report."
edits=[("bridge/error.go" if False else "bridge/errors.go","""	return &Error{typ}
""","""	last.typ = typ
	return last
"""),("bridge/errors.go","""type Error struct {
	typ ErrorType
}
""","""type Error struct {
	typ ErrorType
}

var last = &Error{ErrServerError}
""")]
demo='''package goidc
import ("testing";"github.com/lyokato/goidc/bridge")
func TestSeed(t *testing.T) {
	gone, broken := bridge.NewError(bridge.ErrFailed), bridge.NewError(bridge.ErrServerError)
	if gone.Type() != bridge.ErrFailed || broken.Type() != bridge.ErrServerError { t.Error(gone.Type(), broken.Type()) }
}
'''
