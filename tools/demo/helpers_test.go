package goidc

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
)

func tep(d *fDI, gs ...*grant.GrantHandler) *TokenEndpoint {
	te := NewTokenEndpoint("api")
	te.SetLogger(&nopLogger{})
	te.SetTimeBuilder(fixedNow(1000))
	for _, g := range gs {
		te.Support(g)
	}
	return te
}

func noPanic(t *testing.T, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	f()
}

func hs(key string, c jwt.MapClaims) string {
	s, err := jwt.NewWithClaims(jwt.SigningMethodHS256, c).SignedString([]byte(key))
	if err != nil {
		panic(err)
	}
	return s
}

const far = int64(4000000000)

func assertReq(a string) *http.Request {
	return postForm(vals("grant_type", "client_credentials", "client_assertion", a, "client_assertion_type", ClientAssertionTypeJWT))
}

// post sends a token request with the client's secret in the header.
func post(te *TokenEndpoint, d *fDI, kv ...string) *httptest.ResponseRecorder {
	r := postForm(vals(kv...))
	r.SetBasicAuth("cid", "sec")
	w := httptest.NewRecorder()
	te.Handler(d)(w, r)
	return w
}

// base is a provider where user 9 approved client "cid" for "openid".
func base() (*fDI, *fCB) {
	d := newFDI()
	d.infos[1] = &fInfo{id: 1, uid: 9, cid: "cid", sub: "s", sc: "openid", at: 1000}
	return d, &fCB{login: true, authTime: 990, uid: 9, sub: "s", errs: map[string]error{}}
}

// av is an authorization request.
func av(kv ...string) url.Values {
	v := vals("client_id", "cid", "redirect_uri", "https://rp.example/cb", "response_type", "code", "scope", "openid", "state", "st")
	for i := 0; i+1 < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	return v
}

// pending is a request that waits for the user's approval.
func pending(ft flow.FlowType, at, id bool) *authorization.Request {
	return &authorization.Request{Flow: &flow.Flow{Type: ft, RequireAccessToken: at, RequireIdToken: id}, ClientId: "cid",
		RedirectURI: "https://rp.example/cb", Scope: "openid", State: "st", Nonce: "non", CodeVerifier: "ver"}
}

func completeReq(d *fDI, cb *fCB, pol *authorization.Policy) *httptest.ResponseRecorder {
	ep := NewAuthorizationEndpoint(d, pol)
	ep.SetLogger(&nopLogger{})
	ep.SetTimeBuilder(fixedNow(1000))
	w := httptest.NewRecorder()
	ep.CompleteRequest(w, httptest.NewRequest("GET", "/", nil), cb)
	return w
}

func has(w *httptest.ResponseRecorder, s string) bool { return strings.Contains(w.Body.String(), s) }
