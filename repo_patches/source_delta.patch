From c7eb31ba8b686910ad90b2422c5a2409c6fe23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 01/23] fix: client assertions must respect the client's
 permitted grant types

---
 token_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..fa9a76b 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -267,6 +267,15 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		return nil, false
 	}
 
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
+
 	return c, true
 }
 
-- 
2.43.0


From 518deada042aa85e4d1291d1cb54121233f12726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 02/23] fix: a malformed client assertion must not crash the
 request

---
 assertion/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..f593ffb 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -48,7 +48,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a},
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From 1ba8454c799b07214e41632c6453709d4d9c8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 03/23] fix: an assertion whose expiry is zero has expired

---
 assertion/error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assertion/error.go b/assertion/error.go
index f593ffb..84d55b0 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -139,6 +139,18 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	// the jwt package takes an expiry of zero for an absent one
+	if exp <= 0 {
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
-- 
2.43.0


From 5561b5511d997b3fd8fca8aea9e8b9678ee5cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/23] fix: ResourceProtector must check the auth info it was
 given, not the token

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..13abdb5 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -221,7 +221,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 0b6951e5114a88e971fc769b095ba7ea73ead46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 05/23] fix: AcceptAccessToken must make the body and the query
 count

---
 resource_protector.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index 13abdb5..c954413 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -51,20 +51,9 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 }
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
-	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
-	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	parts := strings.Split(r.Header.Get("Authorization"), " ")
+	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
+		return parts[1]
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From c8ad0b70aa4f2a3af29b57c6a7d34f4f9b0367d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 06/23] fix: the implicit flow must name the lifetime
 expires_in

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..ba3462c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1115,7 +1115,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From 8b279c30b0299876673bf9bc48749d229a13e551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 07/23] fix: prompt=none must be recognized however it is
 spelled

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index ba3462c..60aed0e 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From 33ee3c8ad774200d40b3630a87790aa57e9a5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 08/23] fix: an unknown prompt=none policy must not fall
 through to the screens

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 60aed0e..26c26f3 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -555,7 +555,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 
 		switch policy {
 
-		case prompt.NonePromptPolicyForbidden:
+		default: // prompt.NonePromptPolicyForbidden
 
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
 				log.InvalidPrompt,
-- 
2.43.0


From b8a066b6026ea59bc4cfeab85cb1c980553354e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 09/23] fix: prompt=none with an id_token_hint must confirm the
 login session too

---
 authorization_endpoint.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 26c26f3..42e231b 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -768,6 +768,26 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			isLoginSession, err := callbacks.ConfirmLoginSession()
+
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ConfirmLoginSession",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
+
+			if !isLoginSession {
+				rh.Error(ruri, "login_required", "", state)
+				return false
+			}
+
 			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)
 			if err != nil {
 				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
-- 
2.43.0


From 3252789177e066695b09158d88901f45ec64636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 10/23] fix: prompt=none must honour max_age

---
 authorization_endpoint.go | 40 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 42e231b..9611274 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -591,6 +591,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			if !a.confirmMaxAgeSilently(callbacks, r, rh, req) {
+				return false
+			}
+
 			uid, err := callbacks.GetLoginUserId()
 
 			if err != nil {
@@ -659,6 +663,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			if !a.confirmMaxAgeSilently(callbacks, r, rh, req) {
+				return false
+			}
+
 			matched, err := callbacks.LoginUserIsMatchedToSubject(req.LoginHint)
 			if err != nil {
 				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
@@ -788,6 +796,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				return false
 			}
 
+			if !a.confirmMaxAgeSilently(callbacks, r, rh, req) {
+				return false
+			}
+
 			matched, err := callbacks.LoginUserIsMatchedToSubject(sub)
 			if err != nil {
 				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
@@ -997,6 +1009,34 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 	return true
 }
 
+// confirmMaxAgeSilently checks 'max_age' for prompt:none, where no login screen may be shown.
+// When it returns false, the error has been sent.
+func (a *AuthorizationEndpoint) confirmMaxAgeSilently(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	req *authorization.Request) bool {
+	if req.MaxAge <= 0 {
+		return true
+	}
+	authTime, err := callbacks.GetAuthTime()
+	if err != nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "GetAuthTime",
+			},
+			err.Error()))
+		rh.Error(req.RedirectURI, "server_error", "", req.State)
+		return false
+	}
+	if req.MaxAge < a.currentTime().Unix()-authTime {
+		rh.Error(req.RedirectURI, "login_required", "", req.State)
+		return false
+	}
+	return true
+}
+
 func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Request,
 	callbacks bridge.AuthorizationCallbacks) bool {
 	req, err := callbacks.Continue()
-- 
2.43.0


From bf21025203b2ed075ce52ce0b70f70c50e2041ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 11/23] fix: a failing login screen must be answered with
 server_error

---
 authorization_endpoint.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 9611274..789d568 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -927,7 +927,18 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
@@ -953,7 +964,18 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+			}
 			return false
 		}
 	}
-- 
2.43.0


From f5df891abc7b835269bccb0b82ebff2285c8e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 12/23] fix: an unknown storage error for the client must end
 the authorization request

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 789d568..673ae21 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -100,7 +100,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			callbacks.ShowErrorScreen(authorization.ErrServerError)
 			return false
 
-		} else if serr.Type() == bridge.ErrServerError {
+		} else {
 
 			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
 				log.InterfaceError,
-- 
2.43.0


From c7c0bd324e8d3a834f1aaf94e37530528be5f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 13/23] fix: storage answers without an object must not crash
 the completion of a request

---
 authorization_endpoint.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 673ae21..742878e 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1101,7 +1101,7 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		return false
 	}
 	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
-	if serr != nil {
+	if serr != nil || info == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1175,7 +1175,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	req *authorization.Request) bool {
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1190,7 +1190,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
@@ -1276,7 +1276,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	}
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1293,7 +1293,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
-- 
2.43.0


From 94923c0a8cd104ad590eb66706ad1db4961a317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 14/23] fix: an id_token_hint signed with an asymmetric key
 must verify

---
 authorization_endpoint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 742878e..181d3e6 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -735,7 +736,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				// id_tokens are signed with the private key, and verified with its public part
+				if signer, ok := key.(crypto.Signer); ok {
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From 56db3fd69a53eed4e5db36250d997d3e80faf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 15/23] fix: the form_post page must escape the redirect URI

---
 authorization/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..06ac8df 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,7 +124,7 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
 		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
 	}
-- 
2.43.0


From f1bf425cb73c40c49fb9b5942ad870f47bd52a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 16/23] fix: an unparsable redirect URI must not crash the
 response

---
 authorization/response.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 06ac8df..885d965 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -33,7 +33,10 @@ type (
 )
 
 func (t ResponseParamType) Connector(uri string) string {
-	u, _ := url.Parse(uri)
+	u, err := url.Parse(uri)
+	if err != nil {
+		u = &url.URL{}
+	}
 	switch t {
 	case ParamTypeQuery:
 		if len(u.RawQuery) == 0 {
-- 
2.43.0


From 40748c376fabec96e753fcbad095d6ab27b51629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 17/23] fix: log levels error and fatal must carry their own
 names

---
 log/logger.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log/logger.go b/log/logger.go
index 4e804ce..b930836 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -42,9 +42,9 @@ func (level LogLevel) String() string {
 	case LogLevelWarn:
 		return "WARN"
 	case LogLevelError:
-		return "DEBUG"
+		return "ERROR"
 	case LogLevelFatal:
-		return "DEBUG"
+		return "FATAL"
 	default:
 		return ""
 	}
-- 
2.43.0


From 1c658a85ae01c3c2c280efc2d48b06f5402a8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 18/23] fix: an empty scope must be omitted from the token
 response

---
 grant/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grant/interface.go b/grant/interface.go
index 8b60cd6..6b69d60 100644
--- a/grant/interface.go
+++ b/grant/interface.go
@@ -25,7 +25,7 @@ type (
 		AccessToken  string `json:"access_token"`
 		ExpiresIn    int64  `json:"expires_in"`
 		RefreshToken string `json:"refresh_token,omitempty"`
-		Scope        string `json:"scope",omitempty`
+		Scope        string `json:"scope,omitempty"`
 		IdToken      string `json:"id_token,omitempty"`
 	}
 )
-- 
2.43.0


From 22d33196a45c9276090d8aebeefaccf69c2d99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 19/23] fix: code verifiers must come from the cryptographic
 random generator

---
 pkce/crypto.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkce/crypto.go b/pkce/crypto.go
index 92fa4b5..d4ee390 100644
--- a/pkce/crypto.go
+++ b/pkce/crypto.go
@@ -1,18 +1,17 @@
 package pkce
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
+	"fmt"
 	"strings"
-	"time"
 )
 
 func GenRandomCodeVerifier() string {
-	rand.Seed(time.Now().UnixNano())
 	var data [32]byte
-	for i := 0; i < 32; i++ {
-		data[i] = byte(rand.Intn(256))
+	if _, err := rand.Read(data[:]); err != nil {
+		panic(fmt.Sprintf("no random source: %s", err))
 	}
 	return EncodeBase64WithoutPadding(data[:])
 }
-- 
2.43.0


From 5b4c8da3d5069ccf3acfc69fe2bc91848fde2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 20/23] fix: the password grant must not log the password

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0


From d36798962092d1de808faf1710360a3448ee4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 21/23] fix: an authorization code must expire with its session

---
 grant/authorization_code.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..1ae5042 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -94,6 +94,17 @@ func AuthorizationCode() *GrantHandler {
 					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
 				}
 			}
+			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthSessionConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired code"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
+
 			info, err := sdi.FindActiveAuthInfoById(sess.GetAuthId())
 			if err != nil {
 				if err.Type() == bridge.ErrFailed {
-- 
2.43.0


From 025a1dd09ba535b8bdce788002e5ba027e6f1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 22/23] fix: a JWK that cannot be materialized must yield an
 error, not a crash

---
 crypto/key.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crypto/key.go b/crypto/key.go
index 1dba17e..e1d7267 100644
--- a/crypto/key.go
+++ b/crypto/key.go
@@ -42,8 +42,15 @@ func LoadPublicKeyFromJWK(jwkString, kid string) (*rsa.PublicKey, error) {
 		if !ok {
 			return nil, errors.New("indicated key is not a public key")
 		}
-		rsaKey, err := pk.Materialize()
-		return rsaKey.(*rsa.PublicKey), err
+		key, err := pk.Materialize()
+		if err != nil {
+			return nil, err
+		}
+		rsaKey, ok := key.(*rsa.PublicKey)
+		if !ok {
+			return nil, errors.New("couldn't convert to a RSA public key")
+		}
+		return rsaKey, nil
 	}
 }
 
-- 
2.43.0


From f09b3e3f2f47ffdd6029efb2c71b794baf5ba95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 23/23] fix: the JWK endpoint must not answer 200 when the key
 set cannot be made

---
 jwk_endpoint.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jwk_endpoint.go b/jwk_endpoint.go
index 07bb77f..cea8356 100644
--- a/jwk_endpoint.go
+++ b/jwk_endpoint.go
@@ -34,8 +34,12 @@ func (e *JWKEndpoint) AddFromText(kid, pem string) {
 }
 
 func (e *JWKEndpoint) Handler() http.HandlerFunc {
-	json, _ := crypto.PublicKeysJWK(e.keys)
+	json, err := crypto.PublicKeysJWK(e.keys)
 	return func(w http.ResponseWriter, r *http.Request) {
+		if err != nil {
+			w.WriteHeader(http.StatusInternalServerError)
+			return
+		}
 		w.Header().Set("Content-Type", "application/json")
 		w.WriteHeader(http.StatusOK)
 		w.Write(json)
-- 
2.43.0

