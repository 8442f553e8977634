package goidc

import (
	"errors"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"time"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/io"
	"github.com/lyokato/goidc/prompt"
)

// Fakes shared by the demonstrations: every answer is a field.

type nopLogger struct{ lines []string }

func (l *nopLogger) add(args ...interface{}) {
	for _, a := range args {
		if s, ok := a.(string); ok {
			l.lines = append(l.lines, s)
		}
	}
}
func (l *nopLogger) Debug(a ...interface{})            { l.add(a...) }
func (l *nopLogger) Info(a ...interface{})             { l.add(a...) }
func (l *nopLogger) Warn(a ...interface{})             { l.add(a...) }
func (l *nopLogger) Error(a ...interface{})            { l.add(a...) }
func (l *nopLogger) Fatal(a ...interface{})            { l.add(a...) }
func (l *nopLogger) Debugf(f string, a ...interface{}) { l.add(f); l.add(a...) }
func (l *nopLogger) Infof(f string, a ...interface{})  { l.add(f); l.add(a...) }
func (l *nopLogger) Warnf(f string, a ...interface{})  { l.add(f); l.add(a...) }
func (l *nopLogger) Errorf(f string, a ...interface{}) { l.add(f); l.add(a...) }
func (l *nopLogger) Fatalf(f string, a ...interface{}) { l.add(f); l.add(a...) }

type fClient struct {
	id, secret    string
	owner         int64
	alg, kid      string
	key           interface{}
	akey          func(alg, kid string) interface{}
	flows         map[flow.FlowType]bool
	grants        map[string]bool
	scopeOK       func(flow.FlowType, string) bool
	uris          map[string]bool
	noConsent     prompt.NoConsentPromptPolicy
	none          prompt.NonePromptPolicy
}

func (c *fClient) GetId() string              { return c.id }
func (c *fClient) GetOwnerUserId() int64      { return c.owner }
func (c *fClient) GetIdTokenAlg() string      { return c.alg }
func (c *fClient) GetIdTokenKeyId() string    { return c.kid }
func (c *fClient) GetIdTokenKey() interface{} { return c.key }
func (c *fClient) MatchSecret(s string) bool  { return s == c.secret }
func (c *fClient) CanUseFlow(f flow.FlowType) bool {
	return c.flows == nil || c.flows[f]
}
func (c *fClient) CanUseGrantType(g string) bool { return c.grants == nil || c.grants[g] }
func (c *fClient) CanUseScope(f flow.FlowType, s string) bool {
	return c.scopeOK == nil || c.scopeOK(f, s)
}
func (c *fClient) CanUseRedirectURI(u string) bool { return c.uris == nil || c.uris[u] }
func (c *fClient) GetAssertionKey(alg, kid string) interface{} {
	if c.akey == nil {
		return nil
	}
	return c.akey(alg, kid)
}
func (c *fClient) GetNoConsentPromptPolicy() prompt.NoConsentPromptPolicy { return c.noConsent }
func (c *fClient) GetNonePromptPolicy() prompt.NonePromptPolicy           { return c.none }

type fInfo struct {
	id, uid      int64
	cid, sub, sc string
	at           int64
	inactive     bool
}

func (i *fInfo) GetId() int64           { return i.id }
func (i *fInfo) GetClientId() string    { return i.cid }
func (i *fInfo) GetUserId() int64       { return i.uid }
func (i *fInfo) GetSubject() string     { return i.sub }
func (i *fInfo) GetScope() string       { return i.sc }
func (i *fInfo) GetAuthorizedAt() int64 { return i.at }
func (i *fInfo) IsActive() bool         { return !i.inactive }

type fSess struct {
	code                        string
	aid, atime, idexp, exp, cat int64
	uri, cv, nonce              string
}

func (s *fSess) GetCode() string            { return s.code }
func (s *fSess) GetAuthId() int64           { return s.aid }
func (s *fSess) GetAuthTime() int64         { return s.atime }
func (s *fSess) GetIdTokenExpiresIn() int64 { return s.idexp }
func (s *fSess) GetRedirectURI() string     { return s.uri }
func (s *fSess) GetCodeVerifier() string    { return s.cv }
func (s *fSess) GetExpiresIn() int64        { return s.exp }
func (s *fSess) GetNonce() string           { return s.nonce }
func (s *fSess) GetCreatedAt() int64        { return s.cat }

type fTok struct {
	aid           int64
	at            string
	aexp, refAt   int64
	rt            string
	rexp, created int64
}

func (t *fTok) GetAuthId() int64                { return t.aid }
func (t *fTok) GetAccessToken() string          { return t.at }
func (t *fTok) GetAccessTokenExpiresIn() int64  { return t.aexp }
func (t *fTok) GetRefreshedAt() int64           { return t.refAt }
func (t *fTok) GetRefreshToken() string         { return t.rt }
func (t *fTok) GetRefreshTokenExpiresIn() int64 { return t.rexp }
func (t *fTok) GetCreatedAt() int64             { return t.created }

var failed = bridge.NewError(bridge.ErrFailed)
var srvErr = bridge.NewError(bridge.ErrServerError)

type fDI struct {
	issuer    string
	clients   map[string]*fClient
	sessions  map[string]*fSess
	infos     map[int64]*fInfo
	byAccess  map[string]*fTok
	byRefresh map[string]*fTok
	users     map[string]int64 // "name:pass"
	subs      map[string]int64
	errs      map[string]*bridge.Error // method -> error
	nils      map[string]bool          // method -> (nil, nil)
	calls     []string
	sess      []*authorization.Session
	nextTok   *fTok
	cou       func(uid int64, cid, sc string) *fInfo
}

func (d *fDI) call(m string, a ...string) (bool, *bridge.Error) {
	d.calls = append(d.calls, strings.Join(append([]string{m}, a...), " "))
	if e := d.errs[m]; e != nil {
		return true, e
	}
	return d.nils[m], nil
}
func (d *fDI) count(m string) int {
	n := 0
	for _, c := range d.calls {
		if c == m || strings.HasPrefix(c, m+" ") {
			n++
		}
	}
	return n
}
func (d *fDI) Issuer() string { return d.issuer }
func (d *fDI) FindClientById(id string) (bridge.Client, *bridge.Error) {
	if stop, e := d.call("FindClientById", id); stop {
		return nil, e
	}
	if c, ok := d.clients[id]; ok {
		return c, nil
	}
	return nil, failed
}
func (d *fDI) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	if stop, e := d.call("FindAuthSessionByCode", code); stop {
		return nil, e
	}
	if s, ok := d.sessions[code]; ok {
		return s, nil
	}
	return nil, failed
}
func (d *fDI) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	if stop, e := d.call("FindActiveAuthInfoById"); stop {
		return nil, e
	}
	if i, ok := d.infos[id]; ok && !i.inactive {
		return i, nil
	}
	return nil, failed
}
func (d *fDI) FindAuthInfoByUserIdAndClientId(uid int64, cid string) (bridge.AuthInfo, *bridge.Error) {
	if stop, e := d.call("FindAuthInfoByUserIdAndClientId", cid); stop {
		return nil, e
	}
	for _, i := range d.infos {
		if i.uid == uid && i.cid == cid {
			return i, nil
		}
	}
	return nil, failed
}
func (d *fDI) FindOAuthTokenByAccessToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if stop, e := d.call("FindOAuthTokenByAccessToken", t); stop {
		return nil, e
	}
	if k, ok := d.byAccess[t]; ok {
		return k, nil
	}
	return nil, failed
}
func (d *fDI) FindOAuthTokenByRefreshToken(t string) (bridge.OAuthToken, *bridge.Error) {
	if stop, e := d.call("FindOAuthTokenByRefreshToken", t); stop {
		return nil, e
	}
	if k, ok := d.byRefresh[t]; ok {
		return k, nil
	}
	return nil, failed
}
func (d *fDI) newTok(info bridge.AuthInfo) *fTok {
	if d.nextTok != nil {
		return d.nextTok
	}
	return &fTok{aid: info.GetId(), at: "AT", aexp: 3600, rt: "RT", rexp: 7200, created: 1000, refAt: 1000}
}
func (d *fDI) CreateOAuthToken(info bridge.AuthInfo, te bool) (bridge.OAuthToken, *bridge.Error) {
	if stop, e := d.call("CreateOAuthToken"); stop {
		return nil, e
	}
	return d.newTok(info), nil
}
func (d *fDI) RefreshAccessToken(info bridge.AuthInfo, t bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	if stop, e := d.call("RefreshAccessToken"); stop {
		return nil, e
	}
	return d.newTok(info), nil
}
func (d *fDI) FindUserId(u, p string) (int64, *bridge.Error) {
	if stop, e := d.call("FindUserId", u, p); stop {
		return -1, e
	}
	if id, ok := d.users[u+":"+p]; ok {
		return id, nil
	}
	return -1, failed
}
func (d *fDI) CreateOrUpdateAuthInfo(uid int64, cid, sc string) (bridge.AuthInfo, *bridge.Error) {
	if stop, e := d.call("CreateOrUpdateAuthInfo", cid, sc); stop {
		return nil, e
	}
	if d.cou != nil {
		return d.cou(uid, cid, sc), nil
	}
	i := &fInfo{id: 77, uid: uid, cid: cid, sub: "sub77", sc: sc, at: 1000}
	return i, nil
}
func (d *fDI) CreateAuthSession(info bridge.AuthInfo, s *authorization.Session) *bridge.Error {
	if stop, e := d.call("CreateAuthSession"); stop {
		return e
	}
	d.sess = append(d.sess, s)
	return nil
}
func (d *fDI) DisableSession(s bridge.AuthSession) *bridge.Error {
	_, e := d.call("DisableSession")
	return e
}
func (d *fDI) FindUserIdBySubject(s string) (int64, *bridge.Error) {
	if stop, e := d.call("FindUserIdBySubject", s); stop {
		return -1, e
	}
	if id, ok := d.subs[s]; ok {
		return id, nil
	}
	return -1, failed
}
func (d *fDI) RecordAssertionClaims(cid, jti string, iat, exp int64) *bridge.Error {
	_, e := d.call("RecordAssertionClaims", cid, jti)
	return e
}

type fCB struct {
	login     bool
	fromLogin bool
	authTime  int64
	uid       int64
	sub       string
	req       *authorization.Request
	errs      map[string]error
	screens   []string
	shown     *authorization.Request
}

func (c *fCB) ShowErrorScreen(t int) { c.screens = append(c.screens, "error") }
func (c *fCB) ShowLoginScreen(r *authorization.Request) error {
	c.screens = append(c.screens, "login")
	c.shown = r
	return c.errs["ShowLoginScreen"]
}
func (c *fCB) ShowConsentScreen(_ bridge.Client, r *authorization.Request) error {
	c.screens = append(c.screens, "consent")
	c.shown = r
	return c.errs["ShowConsentScreen"]
}
func (c *fCB) ChooseLocale(l string) (string, error)    { return "en", c.errs["ChooseLocale"] }
func (c *fCB) ConfirmLoginSession() (bool, error)       { return c.login, c.errs["ConfirmLoginSession"] }
func (c *fCB) RequestIsFromLogin() (bool, error)        { return c.fromLogin, c.errs["RequestIsFromLogin"] }
func (c *fCB) GetAuthTime() (int64, error)              { return c.authTime, c.errs["GetAuthTime"] }
func (c *fCB) GetLoginUserId() (int64, error)           { return c.uid, c.errs["GetLoginUserId"] }
func (c *fCB) CreateAuthorizationCode() (string, error) { return "CODE", c.errs["CreateAuthorizationCode"] }
func (c *fCB) Continue() (*authorization.Request, error) {
	return c.req, c.errs["Continue"]
}
func (c *fCB) LoginUserIsMatchedToSubject(s string) (bool, error) {
	return c.sub == s, c.errs["LoginUserIsMatchedToSubject"]
}

var errCB = errors.New("callback failed")

// countingWriter notices how often a response is started.
type countingWriter struct {
	*httptest.ResponseRecorder
	starts int
}

func (w *countingWriter) WriteHeader(c int) { w.starts++; w.ResponseRecorder.WriteHeader(c) }

func fixedNow(sec int64) io.TimeBuilder { return func() time.Time { return time.Unix(sec, 0) } }

func postForm(v url.Values) *http.Request {
	r := httptest.NewRequest("POST", "/token", strings.NewReader(v.Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	return r
}
func vals(kv ...string) url.Values {
	v := url.Values{}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	return v
}
func newFDI() *fDI {
	return &fDI{
		issuer:    "https://op.example",
		clients:   map[string]*fClient{"cid": {id: "cid", secret: "sec", owner: 5, alg: "HS256", kid: "k1", key: []byte("idkey")}},
		sessions:  map[string]*fSess{},
		infos:     map[int64]*fInfo{},
		byAccess:  map[string]*fTok{},
		byRefresh: map[string]*fTok{},
		users:     map[string]int64{},
		subs:      map[string]int64{},
		errs:      map[string]*bridge.Error{},
		nils:      map[string]bool{},
	}
}

// authz runs one authorization request.
func authz(d *fDI, cb *fCB, pol *authorization.Policy, now int64, v url.Values) (*httptest.ResponseRecorder, bool) {
	ep := NewAuthorizationEndpoint(d, pol)
	ep.SetLogger(&nopLogger{})
	ep.SetTimeBuilder(fixedNow(now))
	if cb.errs == nil {
		cb.errs = map[string]error{}
	}
	w := httptest.NewRecorder()
	r := httptest.NewRequest("GET", "/authorize?"+v.Encode(), nil)
	ok := ep.HandleRequest(w, r, cb)
	return w, ok
}

// location returns the parameters of a redirect, from query and fragment.
func location(w *httptest.ResponseRecorder) url.Values {
	out := url.Values{}
	u, err := url.Parse(w.Header().Get("Location"))
	if err != nil {
		return out
	}
	for k, v := range u.Query() {
		out[k] = v
	}
	f, _ := url.ParseQuery(u.EscapedFragment())
	for k, v := range f {
		out[k] = v
	}
	return out
}
