From 9d132872f8089ae67db028701addd2687bd8994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:56 +0000
Subject: [PATCH 01/50] fix: consume authorization codes and pushed requests
 exactly once

Delete was unconditional, so two concurrent redemptions that both passed Get
obtained tokens (or a response) for the same code / request_uri.
---
 server/services/token/grant_authorization_code.go  |  7 ++++++-
 .../storage/inmemory/authorization_code_session.go | 14 +++++++++++++-
 server/storage/inmemory/authorization_request.go   | 14 +++++++++++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..c431856 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -120,7 +120,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	// Delete session
 	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
 	if err != nil {
-		res.Error = rfcerrors.ServerError().Build()
+		if err != storage.ErrNotFound {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			// Code consumed by a concurrent request
+			res.Error = rfcerrors.InvalidGrant().Build()
+		}
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..f431b10 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,7 @@ import (
 
 type sessionStorage struct {
 	backend *cache.Cache
+	mu      sync.Mutex
 }
 
 // AuthorizationCodeSessions returns an authorization session manager.
@@ -54,7 +56,17 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	key := s.deriveKey(issuer, code)
+
+	// Only one caller must be able to consume the entry
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..ec5b727 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,7 @@ import (
 
 type authorizationRequestStorage struct {
 	backend *cache.Cache
+	mu      sync.Mutex
 }
 
 // AuthorizationRequests returns an authorization request manager.
@@ -54,7 +56,17 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	key := s.deriveKey(issuer, requestURI)
+
+	// Only one caller must be able to consume the entry
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+	s.backend.Delete(key)
+
 	// No error
 	return nil
 }
-- 
2.43.0


From cf690f828aa850f5b477aa3d4ef70972a4b2049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:57 +0000
Subject: [PATCH 02/50] fix: bind authorization codes to the client they were
 issued to

---
 server/services/token/grant_authorization_code.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index c431856..90c6219 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -129,6 +129,13 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
+	// Validate client / code association
+	// https://www.rfc-editor.org/rfc/rfc6749#section-4.1.3
+	if ar.Request.ClientId != req.GetClient().GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("invalid authorization request: code was not issued to client '%s'", req.GetClient().GetClientId())
+	}
+
 	// Validate redirectUri
 	if ar.Request.RedirectUri != grant.RedirectUri {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
-- 
2.43.0


From d7e485db6cc0f2b1a436cd7e1c009ac5d0a5b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:30 +0000
Subject: [PATCH 03/50] fix: reject authorization requests owned by another
 client than the caller

---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..1ad7876 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -121,6 +121,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 		req.Request = ar
 	}
 
+	// Check request / authenticated client association
+	if req.Client != nil && req.Request.GetClientId() != req.Client.ClientId {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to authorize request for another client")
+	}
+
 	// Delegate to real authorize process
 	publicErr, err := s.validate(ctx, req.Request)
 	if err != nil {
-- 
2.43.0


From e1e35a1fa9d93b9cd7e06a9d0cd70c295f673d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 04/50] fix: match redirect_uri exactly against the registered
 ones

---
 server/services/authorization/service.go          | 6 ++++--
 server/services/token/grant_authorization_code.go | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 1ad7876..15dad98 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -352,8 +353,9 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as response type", req.ResponseType)
 	}
 
-	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	// Validate client redirect_uri
+	// https://www.rfc-editor.org/rfc/rfc9700#section-4.1.3 (exact string matching)
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 90c6219..7e533a2 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -23,6 +23,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 	"unicode/utf8"
 
@@ -141,7 +142,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and token '%s' must be identic", ar.Request.RedirectUri, grant.RedirectUri)
 	}
-	if !types.StringArray(client.RedirectUris).Contains(grant.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and client '%s' must be validated", grant.RedirectUri, client.RedirectUris)
 	}
-- 
2.43.0


From 45f7cc568001be0864be235a34769a8fcb9a0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 05/50] fix: remove every occurrence of a value in
 StringArray.Remove

A repeated offline_access survived the scope cleanup of authorization requests
without prompt=consent and produced a refresh token.
---
 sdk/types/string_array.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..8dfcb28 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -43,19 +43,15 @@ func (s *StringArray) AddIfNotContains(item string) {
 	*s = append(*s, item)
 }
 
-// Remove item from collection
+// Remove all occurrences of item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
-	for i, v := range *s {
-		if strings.EqualFold(item, v) {
-			idx = i
-			break
+	var kept StringArray
+	for _, v := range *s {
+		if !strings.EqualFold(item, v) {
+			kept = append(kept, v)
 		}
 	}
-	if idx < 0 {
-		return
-	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+	*s = kept
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From 287d7b05dc22cedf8502076dd13006fbcc7dc36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:05 +0000
Subject: [PATCH 06/50] fix: generate request_uri values accepted by the
 request_uri validator

Generated values lacked the urn:solid: prefix Validate requires, and the
unanchored pattern accepted any string containing a well-formed one.
---
 sdk/generator/request_uri.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..5f0838a 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -27,11 +27,13 @@ import (
 )
 
 const (
-	// DefaultRequestURILen defines default request_uri length.
+	// DefaultRequestURILen defines default request_uri random part length.
 	DefaultRequestURILen = 32
+
+	requestURIPrefix = "urn:solid:"
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
@@ -43,8 +45,7 @@ func DefaultRequestURI() RequestURI {
 type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
-	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return requestURIPrefix + uniuri.NewLen(DefaultRequestURILen), nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From 0b546149c1b874c004a9f4bf19aaa8717338971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:43 +0000
Subject: [PATCH 07/50] fix: compare the S256 transformation of the verifier in
 pkce.Validate

The challenge was compared with the decoded verifier itself, so a pair made by
CodeVerifier never validated.
---
 sdk/pkce/verifier.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..c79e54a 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -59,19 +59,18 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("verifier must not be blank")
 	}
 
-	// Decode values
-	chRaw, err := base64.RawURLEncoding.DecodeString(challenge)
-	if err != nil {
+	// Check challenge format
+	if _, err := base64.RawURLEncoding.DecodeString(challenge); err != nil {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
 
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
-	}
+	// Compute challenge from verifier
+	// https://www.rfc-editor.org/rfc/rfc7636#section-4.6
+	hash := sha256.Sum256([]byte(verifier))
+	expected := base64.RawURLEncoding.EncodeToString(hash[:])
 
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompareString(expected, challenge)
 
 	// No error
 	return same, nil
-- 
2.43.0


From d7bc2592b1bc63a653a307f2b2271f56aad99c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:27 +0000
Subject: [PATCH 08/50] fix: emit explicitly typed JWT headers expected by the
 verifiers

Signers wrote 'dpop', 'jarm' or 'at' while dpop, jarm and jwsreq verify
'dpop+jwt', 'jarm+jwt' and 'oauth-authz-req+jwt', so no token of the built-in
signers was ever accepted.
---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..b4833b5 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From 515057889e71e33a9611df26ace54fd86aa399bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:03 +0000
Subject: [PATCH 09/50] fix: report the requested response_mode in
 authorization responses

---
 server/services/authorization/service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 15dad98..0439726 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -163,6 +163,8 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 	res.ClientId = req.Request.ClientId
 	// Assign expiration
 	res.ExpiresIn = expiresIn
+	// Assign response mode
+	res.ResponseMode = req.Request.GetResponseMode()
 	// Assign issuer
 	res.Issuer = req.Issuer
 
-- 
2.43.0


From 18bd7d1a3335c8c158ddbcca5e16bf9a36251c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:33 +0000
Subject: [PATCH 10/50] fix: bind JARM error responses to issuer, audience and
 state

Error responses carried no iss and lost the request state; the decoder returned
them before checking iss, aud and exp.
---
 sdk/jarm/decoder.go | 35 +++++++++++++++++++++--------------
 sdk/jarm/encoder.go | 10 ++++++++++
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/sdk/jarm/decoder.go b/sdk/jarm/decoder.go
index d6b3932..0bbf204 100644
--- a/sdk/jarm/decoder.go
+++ b/sdk/jarm/decoder.go
@@ -26,6 +26,7 @@ import (
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/sdk/rfcerrors"
 	"zntr.io/solid/sdk/token"
+	"zntr.io/solid/sdk/types"
 )
 
 // -----------------------------------------------------------------------------
@@ -92,35 +93,41 @@ func (d *tokenDecoder) Decode(ctx context.Context, audience, response string) (*
 		return nil, fmt.Errorf("unable to extract claims from JARM response : %w", err)
 	}
 
-	// Decode claims
-	if claims.HasError() {
-		return &flowv1.AuthorizeResponse{
-			Error: &corev1.Error{
-				Err:              claims.Error,
-				ErrorDescription: claims.ErrorDescription,
-			},
-		}, nil
-	}
-
-	// Check claims
-	if claims.Issuer != d.issuer {
+	// Check claims (error responses may omit them)
+	if claims.Issuer != d.issuer && !(claims.HasError() && claims.Issuer == "") {
 		return &flowv1.AuthorizeResponse{
 			Error: rfcerrors.InvalidToken().Build(),
 		}, fmt.Errorf("invalid response token, '%s' does not match expected issuer", claims.Issuer)
 	}
 
-	if claims.Audience != audience {
+	if claims.Audience != audience && !(claims.HasError() && claims.Audience == "") {
 		return &flowv1.AuthorizeResponse{
 			Error: rfcerrors.InvalidToken().Build(),
 		}, fmt.Errorf("invalid response token, '%s' does not match expected audience", claims.Audience)
 	}
 
-	if claims.ExpiresAt < uint64(time.Now().Unix()) {
+	if claims.ExpiresAt < uint64(time.Now().Unix()) && !(claims.HasError() && claims.ExpiresAt == 0) {
 		return &flowv1.AuthorizeResponse{
 			Error: rfcerrors.InvalidToken().Build(),
 		}, fmt.Errorf("invalid response, response token is expired")
 	}
 
+	// Decode claims
+	if claims.HasError() {
+		res := &flowv1.AuthorizeResponse{
+			State:  claims.State,
+			Issuer: claims.Issuer,
+			Error: &corev1.Error{
+				Err:              claims.Error,
+				ErrorDescription: claims.ErrorDescription,
+			},
+		}
+		if claims.ErrorURI != "" {
+			res.Error.ErrorUri = types.StringRef(claims.ErrorURI)
+		}
+		return res, nil
+	}
+
 	// No error
 	return &flowv1.AuthorizeResponse{
 		Code:   claims.Code,
diff --git a/sdk/jarm/encoder.go b/sdk/jarm/encoder.go
index 7c853c5..23c24ff 100644
--- a/sdk/jarm/encoder.go
+++ b/sdk/jarm/encoder.go
@@ -51,10 +51,20 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 	// Prepare response claims
 	var claims *responseClaims
 	if resp.Error != nil {
+		// https://openid.net/specs/oauth-v2-jarm.html#section-2.1
 		claims = &responseClaims{
+			Issuer:           issuer,
+			Audience:         resp.ClientId,
 			State:            resp.State,
 			Error:            resp.Error.Err,
 			ErrorDescription: resp.Error.ErrorDescription,
+			ErrorURI:         resp.Error.GetErrorUri(),
+		}
+		if claims.State == "" {
+			claims.State = resp.Error.GetState()
+		}
+		if resp.ExpiresIn > 0 {
+			claims.ExpiresAt = uint64(time.Now().Add(time.Duration(resp.ExpiresIn) * time.Second).Unix())
 		}
 	} else {
 		// Validate mandatory fields
-- 
2.43.0


From c749d43d3a06ff09c6ef93886d6bcfb3654dd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:26 +0000
Subject: [PATCH 11/50] fix: register device codes as pending with an
 expiration

Sessions were stored without status nor expiration, so every validation and
every device_code poll was rejected as expired.
---
 server/services/device/service.go              |  1 +
 server/storage/inmemory/device_code_session.go | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..804ff35 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -24,11 +24,14 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
 )
 
+const deviceCodeSessionTTL = 2 * time.Minute
+
 type deviceCodeSessionStorage struct {
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
@@ -37,8 +40,8 @@ type deviceCodeSessionStorage struct {
 // DeviceCodeSessions returns a device authorization session manager.
 func DeviceCodeSessions() storage.DeviceCodeSession {
 	// Initialize in-memory caches
-	userCodeCache := cache.New(2*time.Minute, 10*time.Minute)
-	deviceCodeCache := cache.New(2*time.Minute, 10*time.Minute)
+	userCodeCache := cache.New(deviceCodeSessionTTL, 10*time.Minute)
+	deviceCodeCache := cache.New(deviceCodeSessionTTL, 10*time.Minute)
 
 	return &deviceCodeSessionStorage{
 		userCodeIndex:   userCodeCache,
@@ -49,12 +52,16 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Copy to prevent side effects on the caller object
+	session := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+	session.ExpiresAt = uint64(time.Now().Add(deviceCodeSessionTTL).Unix())
+
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), session, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), session, cache.DefaultExpiration)
 
 	// No error
-	return uint64(120), nil
+	return uint64(deviceCodeSessionTTL.Seconds()), nil
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
-- 
2.43.0


From f0c1cd09bac4246a61c9a98cd230c80f7aa37030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:47 +0000
Subject: [PATCH 12/50] fix: propagate the requested audience to device_code
 tokens

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From 15c2c271e9b55d8bc2fb6f9568c3db7ae96359f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 13/50] fix: let only one subject validate a device user_code

Validate mutated the session shared with the storage and the storage accepted
any later validation, so concurrent validations could swap the bound subject.
---
 server/services/device/service.go              | 12 ++++++++++--
 server/storage/inmemory/device_code_session.go | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index a896eaa..43dec68 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -22,6 +22,8 @@ import (
 	"fmt"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/oidc"
@@ -202,13 +204,19 @@ func (s *service) Validate(ctx context.Context, req *flowv1.DeviceCodeValidation
 		return res, fmt.Errorf("user_code '%s' is already authorized", req.UserCode)
 	}
 
-	// Update session
+	// Update a copy of the session, the storage owns the retrieved one
+	session = proto.Clone(session).(*sessionv1.DeviceCodeSession)
 	session.Subject = types.StringRef(req.Subject)
 	session.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
 
 	// Update ephemeral storage
 	if err := s.deviceCodeSessions.Validate(ctx, req.Issuer, req.UserCode, session); err != nil {
-		res.Error = rfcerrors.ServerError().Build()
+		if err != storage.ErrNotFound {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			// Validated by a concurrent request
+			res.Error = rfcerrors.InvalidRequest().Build()
+		}
 		return res, fmt.Errorf("user_code '%s' could not be authorized: %v", req.UserCode, err)
 	}
 
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 804ff35..1604831 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -35,6 +36,7 @@ const deviceCodeSessionTTL = 2 * time.Minute
 type deviceCodeSessionStorage struct {
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
+	mu              sync.Mutex
 }
 
 // DeviceCodeSessions returns a device authorization session manager.
@@ -91,6 +93,18 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	// Only one subject must be able to validate a pending session
+	current, err := s.GetByUserCode(ctx, req.Issuer, userCode)
+	if err != nil {
+		return err
+	}
+	if current.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {
+		return storage.ErrNotFound
+	}
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
-- 
2.43.0


From 04790b0fe72a3b67c7f659095c4d8f2386ffc791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:51 +0000
Subject: [PATCH 14/50] fix: report token exchange failures and unknown
 audiences to the caller

An unknown audience gave no public error, any other resource storage failure
dereferenced a nil resource, generator and storage failures had no public error.
---
 server/services/token/grant_token_exchange.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..f316b5d 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -177,7 +177,8 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
@@ -192,16 +193,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From 244f6e0ea3045dff49fe291a9688ccf81b31a9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:12 +0000
Subject: [PATCH 15/50] fix: set the not before date of exchanged tokens

The built-in access token generator refuses a token without not_before.
---
 server/services/token/grant_token_exchange.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index f316b5d..5c428ea 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -167,6 +167,7 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Subject:   st.Metadata.Subject,
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
+			NotBefore: uint64(now.Unix() + 1),
 			ExpiresAt: uint64(now.Add(1 * time.Minute).Unix()),
 			Scope:     scope,
 		},
-- 
2.43.0


From 48405495801dc335f820f779374d4868fd6033a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 16/50] fix: prevent scope escalation through token exchange

---
 server/services/token/grant_token_exchange.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 5c428ea..8c39cab 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,8 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"slices"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -157,6 +159,15 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 		scope = *req.Scope
 	}
 
+	// Exchanged token must not extend subject token scopes
+	granted := strings.Fields(st.Metadata.Scope)
+	for _, requested := range strings.Fields(scope) {
+		if !slices.Contains(granted, requested) {
+			res.Error = rfcerrors.InvalidScope().Build()
+			return fmt.Errorf("requested scope '%s' exceeds subject_token scope '%s'", scope, st.Metadata.Scope)
+		}
+	}
+
 	// Create access token spec
 	now := timeFunc()
 	at := &tokenv1.Token{
-- 
2.43.0


From 7f06369c23478d7e9b04ed3d013d86af3b99e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 17/50] fix: only let the owner client revoke a token

---
 server/services/token/revoke.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..7127ad2 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -71,6 +71,13 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Only the client which received the token can revoke it
+	// https://www.rfc-editor.org/rfc/rfc7009#section-2.1
+	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("token was not issued to client '%s'", req.Client.ClientId)
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From 5362397b5ff01600c36bb2cfd3b33ee4db97a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 18/50] fix: synchronize access to the in-memory client storage

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..9e25a29 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	mu      sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +174,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -197,6 +205,9 @@ func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.C
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (string, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
-- 
2.43.0


From 3b0657670eeca63e08e1e9934d502a9bf4935bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:29 +0000
Subject: [PATCH 19/50] fix: refuse concurrent replays of a DPoP proof

The verifier checks Exists then calls Register, which always succeeded.
---
 server/storage/inmemory/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..7440453 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -19,6 +19,7 @@ package inmemory
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -43,8 +44,10 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
+	// Insert in cache, only one caller must be able to register a given proof
+	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {
+		return fmt.Errorf("unable to register proof: %w", err)
+	}
 	// No error
 	return nil
 }
-- 
2.43.0


From 2e80f1eaabc466c2a2484a84a7e11a7832c08cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:50 +0000
Subject: [PATCH 20/50] fix: prevent races between token revocation, deletion
 and readers

Revoke changed the object handed out to readers, and a revocation concurrent
with a deletion stored the deleted token again.
---
 server/storage/inmemory/token.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..e64efba 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -30,6 +30,7 @@ import (
 )
 
 type tokenStorage struct {
+	mu         sync.Mutex
 	idIndex    sync.Map
 	valueIndex sync.Map
 }
@@ -86,6 +87,9 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve token
 	t, err := s.Get(ctx, issuer, id)
 	if err != nil {
@@ -100,13 +104,17 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 }
 
 func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Retrieve token
-	t, err := s.Get(ctx, issuer, id)
+	stored, err := s.Get(ctx, issuer, id)
 	if err != nil {
 		return err
 	}
 
-	// Set as revoked
+	// Set as revoked, readers may hold the stored object
+	t := proto.Clone(stored).(*tokenv1.Token)
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-- 
2.43.0


From fbf4151a25c532b6bf76f1c63c92459aca7507e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:27 +0000
Subject: [PATCH 21/50] fix: isolate issuers in the in-memory storages

Keys hashed the bare concatenation of issuer and value, and the token id index
ignored the issuer, so an entry was reachable from another issuer.
---
 .../storage/inmemory/authorization_code_session.go |  2 +-
 server/storage/inmemory/authorization_request.go   |  2 +-
 server/storage/inmemory/device_code_session.go     |  4 ++--
 server/storage/inmemory/token.go                   | 14 +++++++++-----
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index f431b10..136ffd4 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -91,7 +91,7 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer) // Prevent issuer / value ambiguity
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index ec5b727..f307faa 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -91,7 +91,7 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 	}
 
 	h.Write([]byte("solid:authorization-requests:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer) // Prevent issuer / value ambiguity
 	h.Write([]byte(requestURI))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 1604831..424affc 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -123,7 +123,7 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer) // Prevent issuer / value ambiguity
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
@@ -137,7 +137,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 	}
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer) // Prevent issuer / value ambiguity
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index e64efba..52b5f68 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -57,7 +57,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -66,7 +66,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
 	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	client, ok := s.idIndex.Load(s.deriveID(issuer, id))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
@@ -96,7 +96,7 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	s.idIndex.Delete(t.TokenId)
+	s.idIndex.Delete(s.deriveID(issuer, t.TokenId))
 	s.valueIndex.Delete(t.Value)
 
 	// No error
@@ -118,7 +118,7 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(s.deriveID(issuer, t.TokenId), t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
@@ -127,6 +127,10 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 
 // -----------------------------------------------------------------------------
 
+func (s *tokenStorage) deriveID(issuer, id string) string {
+	return fmt.Sprintf("%d:%s:%s", len(issuer), issuer, id)
+}
+
 func (s *tokenStorage) deriveValue(issuer, value string) string {
 	// Create hasher
 	h, err := blake2b.New256([]byte(`%JwQL_C=w^R@9?{J,=;LHe=&n0L1P{QrS=MsA}7H]V3fHd8&$noL&"hZH;&Uw)3`))
@@ -135,7 +139,7 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 	}
 
 	h.Write([]byte("solid:token:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer) // Prevent issuer / value ambiguity
 	h.Write([]byte(value))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 704626c3fc155ad6cce3ff43f27dde8158ca797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:07 +0000
Subject: [PATCH 22/50] fix: always answer invalid client attestations with an
 error response

Several rejections returned a nil response, a nil request and an attestation
without cnf.jwk panicked.
---
 .../client_attestation.go                     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..6cdab81 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, errors.New("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
@@ -101,18 +107,21 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
@@ -148,7 +157,7 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 	}
 
 	// Validate claims
-	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
+	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
 		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-- 
2.43.0


From c3368a8e99717b13d19dde693bedb4e7cee6cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:28 +0000
Subject: [PATCH 23/50] fix: authenticate the attested client only

The PoP issuer was not compared with the attestation subject, so any attested
client could authenticate as any other one.
---
 .../client_attestation.go                     | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 6cdab81..459cf63 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -90,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -124,6 +124,13 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 		return res, fmt.Errorf("not useable token")
 	}
 
+	// PoP must be issued by the attested client
+	// https://datatracker.ietf.org/doc/draft-ietf-oauth-attestation-based-client-auth/
+	if claims.Issuer != clientID {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation PoP issuer does not match the attested client")
+	}
+
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
@@ -143,55 +150,55 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (string, *jose.JSONWebKey, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return "", nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return "", nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+		return "", nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return "", nil, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return "", nil, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return "", nil, fmt.Errorf("error during client retrieval: %w", err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return "", nil, fmt.Errorf("client not found")
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return "", nil, fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return "", nil, fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return "", nil, fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
-	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	// Extract client identity and public key
+	return claims.Subject, claims.Confirmation.JWK, nil
 }
-- 
2.43.0


From 000c60be7380765d7fdb9d06c6a34ca47e77aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:35 +0000
Subject: [PATCH 24/50] fix: reject oversized verifiable tokens instead of
 panicking

---
 sdk/token/verifiable/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..b4f4a58 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,9 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	if i.BitLen() > 8*length {
+		return []byte{}, fmt.Errorf("base62 value overflows %d bytes: %q", length, s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From f8cef0eb01b2019da7d5937c3348ee28fe393847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 25/50] fix: reject non-canonical encodings of verifiable
 tokens

---
 sdk/token/verifiable/uuid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/token/verifiable/uuid.go b/sdk/token/verifiable/uuid.go
index 50dce15..579d736 100644
--- a/sdk/token/verifiable/uuid.go
+++ b/sdk/token/verifiable/uuid.go
@@ -164,9 +164,9 @@ func (vu *uuidGenerator) Extract(in string) ([]byte, error) {
 		return nil, errors.New("invalid token syntax")
 	}
 
-	// Decode Nonce || Signature
+	// Decode Nonce || Signature, only the encoding used by the generator is valid
 	sig, err := parsePaddedBase62(parts[1], 44)
-	if err != nil {
+	if err != nil || toPaddedBase62(sig, 59) != parts[1] {
 		return nil, errors.New("invalid token syntax")
 	}
 
-- 
2.43.0


From edf14b2d3629cc49c06ffcca81ad85f7f287740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:20 +0000
Subject: [PATCH 26/50] fix: compare DPoP htu without query and fragment, with
 the escaped path

The prover signed the decoded path without query while the verifier expected the
full encoded URL, so a proof never matched such a URL.
---
 sdk/dpop/prover.go   | 2 +-
 sdk/dpop/url.go      | 2 +-
 sdk/dpop/verifier.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..c219bf4 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -86,7 +86,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..9dabdd0 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -34,5 +34,5 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
 }
diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..1e77642 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -108,7 +108,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate proof claims
-	jtiHash, errJti := v.validateProofClaims(htm, u.String(), claims)
+	jtiHash, errJti := v.validateProofClaims(htm, fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()), claims)
 	if errJti != nil {
 		return "", errJti
 	}
-- 
2.43.0


From 126df1a940631f61c6f1b032aea5246083616403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:53 +0000
Subject: [PATCH 27/50] fix: reject DPoP proofs without jti

---
 sdk/dpop/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 1e77642..6ac95dc 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -232,6 +232,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("invalid proof: issued in the future")
 	}
 
+	// Check proof identifier
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti is mandatory")
+	}
+
 	// Compute jti hash
 	jtiHashRaw := blake2b.Sum256([]byte(claims.JTI))
 	jtiStorage := base64.RawURLEncoding.EncodeToString(jtiHashRaw[:])
-- 
2.43.0


From 99d6ecad06224e2d78497855cf85cfae806857c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 28/50] fix: enforce WithTokenConfirmation without
 WithTokenValue

---
 sdk/dpop/verifier.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 6ac95dc..1434fe4 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -137,12 +137,12 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 		if expected := base64.RawURLEncoding.EncodeToString(ath[:]); !types.SecureCompareString(*claims.AccessTokenHash, expected) {
 			return "", errors.New("invalid proof / token association, token mismatch")
 		}
+	}
 
-		// Check access token confirmation
-		if dopts.tokenConfirmation != nil {
-			if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
-				return "", errors.New("invalid proof / token association, proof mismatch")
-			}
+	// Check access token confirmation
+	if dopts.tokenConfirmation != nil {
+		if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
+			return "", errors.New("invalid proof / token association, proof mismatch")
 		}
 	}
 
-- 
2.43.0


From e7ce32b498c2483b3d5ca4b1e191a8d0571ebe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:28 +0000
Subject: [PATCH 29/50] fix: decode token introspection responses in the client

The embedded TokenMeta promoted its UnmarshalJSON, called with a nil receiver,
so no introspection response could be decoded; it also used other claim names
than RFC 7662.
---
 client/claims.go | 17 ++++++++++++++---
 client/http.go   | 14 +++++++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..f5785b8 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -60,8 +60,19 @@ type jsonJWKSResponse struct {
 	Expires             uint64 `json:"exp"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc7662#section-2.2
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	TokenID      string                     `json:"jti"`
+	Issuer       string                     `json:"iss"`
+	Subject      string                     `json:"sub"`
+	Audience     string                     `json:"aud"`
+	ClientID     string                     `json:"client_id"`
+	Scope        string                     `json:"scope"`
+	IssuedAt     uint64                     `json:"iat"`
+	NotBefore    uint64                     `json:"nbf"`
+	ExpiresAt    uint64                     `json:"exp"`
+	ACR          *string                    `json:"acr"`
+	AuthTime     *uint64                    `json:"auth_time"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index a67df99..8e2010b 100644
--- a/client/http.go
+++ b/client/http.go
@@ -421,9 +421,21 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 	return &tokenv1.Token{
 		Issuer:       c.issuer,
 		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		TokenId:      t.TokenID,
 		Confirmation: t.Confirmation,
 		Value:        token,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			Audience:  t.Audience,
+			Acr:       t.ACR,
+			AuthTime:  t.AuthTime,
+		},
 	}, nil
 }
 
-- 
2.43.0


From 63fd2d7f2f8051a79887e82bebbb9f2dc8238e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:50 +0000
Subject: [PATCH 30/50] fix: synchronize the public key cache of the client

---
 client/http.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/http.go b/client/http.go
index 8e2010b..3e29823 100644
--- a/client/http.go
+++ b/client/http.go
@@ -25,6 +25,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -82,6 +83,7 @@ type httpClient struct {
 	issuer         string
 	opts           *Options
 	httpClient     *http.Client
+	jwksMutex      sync.Mutex
 	jwks           *jose.JSONWebKeySet
 	jwksExpiration uint64
 	serverMetadata *discoveryv1.ServerMetadata
@@ -440,6 +442,9 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 }
 
 func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint64, error) {
+	c.jwksMutex.Lock()
+	defer c.jwksMutex.Unlock()
+
 	// Check if keys are not cached and not expired
 	if c.jwks != nil && c.jwksExpiration > uint64(time.Now().Unix()) {
 		// Return cached public keys
@@ -463,6 +468,8 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	if err != nil {
 		return nil, 0, fmt.Errorf("unable to retrieve jwks: %w", err)
 	}
+	defer response.Body.Close()
+
 	if response.StatusCode != http.StatusOK {
 		var err corev1.Error
 
-- 
2.43.0


From b41e880927cb253f340692f7f01c2a18430d7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:12 +0000
Subject: [PATCH 31/50] fix: reject server metadata published for another
 issuer

---
 client/http.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index 3e29823..b146a94 100644
--- a/client/http.go
+++ b/client/http.go
@@ -58,16 +58,25 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 
 	// Do the query
 	response, err := c.httpClient.Do(req)
-	if err != nil || response.StatusCode != http.StatusOK {
+	if err != nil {
 		return nil, fmt.Errorf("unable to parse server metadata request: %w", err)
 	}
 	defer response.Body.Close()
+	if response.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("unable to parse server metadata request: unexpected status code %d", response.StatusCode)
+	}
 
 	// Parse response
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
 
+	// Check issuer
+	// https://www.rfc-editor.org/rfc/rfc8414#section-3.3
+	if c.serverMetadata.GetIssuer() != issuer {
+		return nil, fmt.Errorf("server metadata issuer '%s' does not match '%s'", c.serverMetadata.GetIssuer(), issuer)
+	}
+
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
 		return nil, fmt.Errorf("unable to retrieve public keys: %w", err)
-- 
2.43.0


From 6cebcaa08d164db9d3b9964a16f240bd4edb4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:45 +0000
Subject: [PATCH 32/50] fix: issue an access token for authorization codes
 without openid scope

The code was consumed and an empty response without error returned.
---
 .../token/grant_authorization_code.go         | 47 +++++++++----------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7e533a2..4a01eaf 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -165,42 +165,39 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	// Validate scopes
 	scopes := types.StringArray(strings.Fields(ar.Request.Scope))
 
-	// Generate OpenID tokens (AT / RT / IDT)
-	if scopes.Contains(oidc.ScopeOpenID) {
-		// Generate access token
-		at, err := s.generateAccessToken(ctx, client, &tokenv1.TokenMeta{
+	// Generate access token
+	at, err := s.generateAccessToken(ctx, client, &tokenv1.TokenMeta{
+		Issuer:   req.Issuer,
+		Subject:  ar.Subject,
+		Audience: ar.Request.Audience,
+		Scope:    ar.Request.Scope,
+	}, req.TokenConfirmation)
+	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("unable to generate access token: %w", err)
+	}
+
+	// Check if request has offline_access to generate refresh_token
+	if scopes.HasAll(oidc.ScopeOpenID, oidc.ScopeOfflineAccess) {
+		// Generate refresh token
+		rt, err := s.generateRefreshToken(ctx, client, &tokenv1.TokenMeta{
 			Issuer:   req.Issuer,
 			Subject:  ar.Subject,
 			Audience: ar.Request.Audience,
 			Scope:    ar.Request.Scope,
-		}, req.TokenConfirmation)
+		}, at.Confirmation)
 		if err != nil {
 			res.Error = rfcerrors.ServerError().Build()
-			return res, fmt.Errorf("unable to generate access token: %w", err)
-		}
-
-		// Check if request has offline_access to generate refresh_token
-		if scopes.Contains(oidc.ScopeOfflineAccess) {
-			// Generate refresh token
-			rt, err := s.generateRefreshToken(ctx, client, &tokenv1.TokenMeta{
-				Issuer:   req.Issuer,
-				Subject:  ar.Subject,
-				Audience: ar.Request.Audience,
-				Scope:    ar.Request.Scope,
-			}, at.Confirmation)
-			if err != nil {
-				res.Error = rfcerrors.ServerError().Build()
-				return res, fmt.Errorf("unable to generate refresh token: %w", err)
-			}
-
-			// Assign response
-			res.RefreshToken = rt
+			return res, fmt.Errorf("unable to generate refresh token: %w", err)
 		}
 
 		// Assign response
-		res.AccessToken = at
+		res.RefreshToken = rt
 	}
 
+	// Assign response
+	res.AccessToken = at
+
 	// No error
 	return res, nil
 }
-- 
2.43.0


From 772ab1c1a6c76280e4a42e40b2cbb0987446f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:33 +0000
Subject: [PATCH 33/50] fix: set the subject of client_credentials tokens

The built-in access token generator refuses a token without subject, so the
grant always failed with it.
---
 server/services/token/grant_client_credentials.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/services/token/grant_client_credentials.go b/server/services/token/grant_client_credentials.go
index 97fc7ec..8351f72 100644
--- a/server/services/token/grant_client_credentials.go
+++ b/server/services/token/grant_client_credentials.go
@@ -79,6 +79,8 @@ func (s *service) clientCredentials(ctx context.Context, client *clientv1.Client
 	// Prepare token
 	tokenMeta := &tokenv1.TokenMeta{
 		Issuer: req.Issuer,
+		// https://www.rfc-editor.org/rfc/rfc9068#section-2.2
+		Subject: client.ClientId,
 	}
 	if req.Scope != nil {
 		tokenMeta.Scope = *req.Scope
-- 
2.43.0


From 7a86d9cce726fe8f9dae2e9d9c804c09b4fd8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:20 +0000
Subject: [PATCH 34/50] fix: release the LockedRand lock when a call panics

Int63n, Int31n, Intn, Perm and Shuffle panic on invalid arguments with the lock
held, every later use of the generator then blocked forever.
---
 sdk/randomness/locked_rand.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/randomness/locked_rand.go b/sdk/randomness/locked_rand.go
index 7c313c1..32a87e0 100644
--- a/sdk/randomness/locked_rand.go
+++ b/sdk/randomness/locked_rand.go
@@ -72,8 +72,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -81,8 +81,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -90,8 +90,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Float32() (n float32) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -152,8 +152,8 @@ func (lr *LockedRand) ExpFloat64() (n float64) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(n, swap)
-	lr.lk.Unlock()
 }
 
 // Read generates len(p) random bytes and writes them into p. It
-- 
2.43.0


From 606dcfda45c00e0e62a62c81eafed57be1be1546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:26 +0000
Subject: [PATCH 35/50] fix: honour the not before date of client assertions

---
 server/clientauthentication/private_key_jwt.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/server/clientauthentication/private_key_jwt.go b/server/clientauthentication/private_key_jwt.go
index 748c56b..4ae627f 100644
--- a/server/clientauthentication/private_key_jwt.go
+++ b/server/clientauthentication/private_key_jwt.go
@@ -41,12 +41,13 @@ func PrivateKeyJWT(clients storage.ClientReader, supportedAlgorithms []jose.Sign
 }
 
 type privateJWTClaims struct {
-	JTI      string `json:"jti"`
-	Subject  string `json:"sub"`
-	Issuer   string `json:"iss"`
-	Audience string `json:"aud"`
-	Expires  uint64 `json:"exp"`
-	IssuedAt uint64 `json:"iat"`
+	JTI       string `json:"jti"`
+	Subject   string `json:"sub"`
+	Issuer    string `json:"iss"`
+	Audience  string `json:"aud"`
+	Expires   uint64 `json:"exp"`
+	NotBefore uint64 `json:"nbf"`
+	IssuedAt  uint64 `json:"iat"`
 }
 
 type privateKeyJWTAuthentication struct {
@@ -109,6 +110,10 @@ func (p *privateKeyJWTAuthentication) Authenticate(ctx context.Context, req *cli
 		res.Error = rfcerrors.InvalidRequest().Build()
 		return res, fmt.Errorf("expired token")
 	}
+	if claims.NotBefore > uint64(time.Now().Unix()) {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
+	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
-- 
2.43.0


From 218c434e35ad5bb08565bcb59e5354673af7dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:20 +0000
Subject: [PATCH 36/50] fix: strip the fragment of the URL in DPoP proofs

---
 sdk/dpop/prover.go   |  5 ++---
 sdk/dpop/url.go      | 16 ++++++++++++++++
 sdk/dpop/verifier.go |  5 ++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index c219bf4..32586d8 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -24,7 +24,6 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
-	"net/url"
 	"strings"
 	"time"
 
@@ -63,7 +62,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	}
 
 	// Validate url
-	u, err := url.ParseRequestURI(htu)
+	cleanURL, err := proofURL(htu)
 	if err != nil {
 		return "", fmt.Errorf("invalid URL syntax for proof '%s': %w", htu, err)
 	}
@@ -86,7 +85,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()),
+		HTTPURL:    cleanURL,
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index 9dabdd0..51598de 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -20,6 +20,8 @@ package dpop
 import (
 	"fmt"
 	"net/http"
+	"net/url"
+	"strings"
 )
 
 // CleanURL returns a cleanurl for DPoP proof.
@@ -36,3 +38,17 @@ func CleanURL(r *http.Request) string {
 	// Assemble response
 	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
 }
+
+// proofURL returns the htu value of the given request URL (without query and
+// fragment).
+func proofURL(htu string) (string, error) {
+	// net/url does not recognize fragments in request URI
+	htu, _, _ = strings.Cut(htu, "#")
+
+	u, err := url.ParseRequestURI(htu)
+	if err != nil {
+		return "", err
+	}
+
+	return fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()), nil
+}
diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 1434fe4..413cf88 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -24,7 +24,6 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
-	"net/url"
 	"strings"
 	"time"
 
@@ -77,7 +76,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate url
-	u, err := url.ParseRequestURI(htu)
+	cleanURL, err := proofURL(htu)
 	if err != nil {
 		return "", fmt.Errorf("invalid URL syntax for proof verification '%s': %w", htu, err)
 	}
@@ -108,7 +107,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate proof claims
-	jtiHash, errJti := v.validateProofClaims(htm, fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()), claims)
+	jtiHash, errJti := v.validateProofClaims(htm, cleanURL, claims)
 	if errJti != nil {
 		return "", errJti
 	}
-- 
2.43.0


From 8cde21a0f7bea76e23cdf87110d5c67d0b929b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:52 +0000
Subject: [PATCH 37/50] fix: return an error for tokens without the expected
 embedded key

---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/token_adapter.go     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..97245d2 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..e7ba67d 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -52,6 +52,9 @@ func (tw *tokenAdapter) PublicKey() (any, error) {
 	if len(tw.token.Headers) == 0 {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return nil, fmt.Errorf("token has no embedded jwk")
+	}
 	return tw.token.Headers[0].JSONWebKey, nil
 }
 
@@ -59,6 +62,9 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 	if len(tw.token.Headers) == 0 {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("token has no embedded jwk")
+	}
 
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
-- 
2.43.0


From a4604edf124a825fc777df6aa24945ed8ab92dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:08 +0000
Subject: [PATCH 38/50] fix: encode the confirmation of refresh tokens

---
 sdk/token/refresh_token.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sdk/token/refresh_token.go b/sdk/token/refresh_token.go
index 760fc88..3a4fe7d 100644
--- a/sdk/token/refresh_token.go
+++ b/sdk/token/refresh_token.go
@@ -88,6 +88,12 @@ func (c *refreshTokenGenerator) Generate(ctx context.Context, t *tokenv1.Token)
 		Scope:    t.Metadata.Scope,
 	}
 
+	// If token has a confirmation
+	if t.Confirmation != nil {
+		// Add jwt key token proof
+		claims.Cnf = t.Confirmation
+	}
+
 	// Sign the assertion
 	raw, err := c.signer.Serialize(ctx, claims)
 	if err != nil {
-- 
2.43.0


From 4cb96ff6d459ad63e1a0b4a6e875a44d428f4970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 39/50] fix: JARM success responses name the issuer they are
 encoded for

---
 sdk/jarm/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/jarm/encoder.go b/sdk/jarm/encoder.go
index 23c24ff..78052e3 100644
--- a/sdk/jarm/encoder.go
+++ b/sdk/jarm/encoder.go
@@ -83,7 +83,7 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 
 		claims = &responseClaims{
 			State:     resp.State,
-			Issuer:    resp.Issuer,
+			Issuer:    issuer,
 			Audience:  resp.ClientId,
 			Code:      resp.Code,
 			ExpiresAt: uint64(time.Now().Add(time.Duration(resp.ExpiresIn) * time.Second).Unix()),
-- 
2.43.0


From b553bf862e0190c25a1b24e6b285f75727564a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 40/50] fix: token creation is not overwritten by a concurrent
 revocation

---
 server/storage/inmemory/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 52b5f68..089e593 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -57,6 +57,10 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
+	// Both indexes must not change while a token is being deleted or revoked
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
-- 
2.43.0


From 1598e613b2d0f4d9a58ccf861b00d9924091510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 41/50] fix: device sessions deleted or registered during a
 validation are not overwritten

---
 server/storage/inmemory/device_code_session.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 424affc..513cd93 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -58,6 +58,9 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 	session := proto.Clone(req).(*sessionv1.DeviceCodeSession)
 	session.ExpiresAt = uint64(time.Now().Add(deviceCodeSessionTTL).Unix())
 
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), session, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), session, cache.DefaultExpiration)
@@ -67,7 +70,12 @@ func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCod
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
+	// A session must not be deleted while it is being validated
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))
+
 	// No error
 	return nil
 }
-- 
2.43.0


From 6a41a20ea6cd7203e37542b91b690160a0e97ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 42/50] fix: client reports a JWKS without keys instead of
 panicking

---
 client/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index b146a94..ceaa31c 100644
--- a/client/http.go
+++ b/client/http.go
@@ -497,7 +497,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From 10092d9fec9ae46b42f4b654b04646241b2959a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:17 +0000
Subject: [PATCH 43/50] fix: client credentials response without access token
 is an error

---
 client/http.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/http.go b/client/http.go
index ceaa31c..cf28101 100644
--- a/client/http.go
+++ b/client/http.go
@@ -373,6 +373,11 @@ func (c *httpClient) ClientCredentials(ctx context.Context, assertion string) (*
 		return nil, fmt.Errorf("unable to decode json response: %w", err)
 	}
 
+	// Check access token
+	if token.AccessToken == "" {
+		return nil, fmt.Errorf("token response doesn't contain an access token")
+	}
+
 	// No error
 	return &token, nil
 }
-- 
2.43.0


From d769d9a5a0eb085bf6568174ebb54f86c9a12581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:59 +0000
Subject: [PATCH 44/50] fix: client credentials token expires when the server
 announced it

---
 client/claims.go |  9 +++++++++
 client/http.go   | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f5785b8..8292ae3 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -18,7 +18,10 @@
 package client
 
 import (
+	"encoding/json"
+
 	"github.com/go-jose/go-jose/v4"
+	"golang.org/x/oauth2"
 
 	tokenv1 "zntr.io/solid/api/oidc/token/v1"
 )
@@ -55,6 +58,12 @@ type jsonRequestURIResponse struct {
 	RequestURI string `json:"request_uri"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc6749#section-5.1
+type jsonTokenResponse struct {
+	oauth2.Token
+	ExpiresIn json.Number `json:"expires_in"`
+}
+
 type jsonJWKSResponse struct {
 	*jose.JSONWebKeySet `json:",inline"`
 	Expires             uint64 `json:"exp"`
diff --git a/client/http.go b/client/http.go
index cf28101..59e4b85 100644
--- a/client/http.go
+++ b/client/http.go
@@ -22,6 +22,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"net/url"
 	"strings"
@@ -368,7 +369,7 @@ func (c *httpClient) ClientCredentials(ctx context.Context, assertion string) (*
 	}
 
 	// Decode payload
-	var token oauth2.Token
+	var token jsonTokenResponse
 	if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&token); err != nil {
 		return nil, fmt.Errorf("unable to decode json response: %w", err)
 	}
@@ -378,8 +379,19 @@ func (c *httpClient) ClientCredentials(ctx context.Context, assertion string) (*
 		return nil, fmt.Errorf("token response doesn't contain an access token")
 	}
 
+	// Compute expiration from the announced lifetime
+	if token.ExpiresIn != "" {
+		expiresIn, err := token.ExpiresIn.Int64()
+		if err != nil {
+			return nil, fmt.Errorf("unable to decode token lifetime: %w", err)
+		}
+		if expiresIn > 0 {
+			token.Expiry = time.Now().Add(time.Duration(min(expiresIn, math.MaxInt32)) * time.Second)
+		}
+	}
+
 	// No error
-	return &token, nil
+	return &token.Token, nil
 }
 
 func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*tokenv1.Token, error) {
-- 
2.43.0


From 2035c987f45d46d09ac7c36157a5b0a1691349bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 45/50] fix: example server announces the issuer its clients
 discover it by

---
 examples/authorizationserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/authorizationserver/main.go b/examples/authorizationserver/main.go
index 7bed4c0..5ea105a 100644
--- a/examples/authorizationserver/main.go
+++ b/examples/authorizationserver/main.go
@@ -56,7 +56,7 @@ func main() {
 	jarmEncoder := jarm.Encoder(jwt.JARMSigner(jose.ES384, keys))
 	dpopVerifier := dpop.DefaultVerifier(proofs, jwt.DefaultVerifier(keySet, []jose.SignatureAlgorithm{jose.ES384}))
 	pairwiseEncoder := pairwise.Hash([]byte("U|(vBPu45_Vkvv*Tr*8Y[^s?,$ka@bQziM5]9.+[{.n47]'zokA7-j8ypJ=W]WS"))
-	issuer := "http://127.0.0.1:8080"
+	issuer := "http://localhost:8080"
 
 	// Create router
 	http.Handle("/.well-known/oauth-authorization-server", handlers.Metadata(issuer, jwt.ServerMetadata(jose.ES384, keys)))
-- 
2.43.0


From 990a88e3730ce13e3ac96717fca4f5886005fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 46/50] fix: example server revocation endpoint does not panic
 on unknown tokens

---
 examples/authorizationserver/handlers/token_revocation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/examples/authorizationserver/handlers/token_revocation.go b/examples/authorizationserver/handlers/token_revocation.go
index d682cc2..b6d0873 100644
--- a/examples/authorizationserver/handlers/token_revocation.go
+++ b/examples/authorizationserver/handlers/token_revocation.go
@@ -55,7 +55,12 @@ func TokenRevocation(issuer string, tokenz services.Token) http.Handler {
 		})
 		if err != nil {
 			log.Println("unable to process revocation request: %w", err)
-			respond.WithError(w, r, http.StatusBadRequest, res.Error)
+
+			// Invalid tokens do not cause an error response
+			// https://www.rfc-editor.org/rfc/rfc7009#section-2.2
+			if res.Error != nil {
+				respond.WithError(w, r, http.StatusBadRequest, res.Error)
+			}
 			return
 		}
 	})
-- 
2.43.0


From cb290f16734dbbc06143b3ef0ecad4145d0d523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 47/50] Revert "fix: example server revocation endpoint does
 not panic on unknown tokens"

This reverts commit 990a88e3730ce13e3ac96717fca4f5886005fedd.
---
 examples/authorizationserver/handlers/token_revocation.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/authorizationserver/handlers/token_revocation.go b/examples/authorizationserver/handlers/token_revocation.go
index b6d0873..d682cc2 100644
--- a/examples/authorizationserver/handlers/token_revocation.go
+++ b/examples/authorizationserver/handlers/token_revocation.go
@@ -55,12 +55,7 @@ func TokenRevocation(issuer string, tokenz services.Token) http.Handler {
 		})
 		if err != nil {
 			log.Println("unable to process revocation request: %w", err)
-
-			// Invalid tokens do not cause an error response
-			// https://www.rfc-editor.org/rfc/rfc7009#section-2.2
-			if res.Error != nil {
-				respond.WithError(w, r, http.StatusBadRequest, res.Error)
-			}
+			respond.WithError(w, r, http.StatusBadRequest, res.Error)
 			return
 		}
 	})
-- 
2.43.0


From 41629079dab3265eb658a49673ae6badabad8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:03 +0000
Subject: [PATCH 48/50] Revert "fix: example server announces the issuer its
 clients discover it by"

This reverts commit 2035c987f45d46d09ac7c36157a5b0a1691349bd.
---
 examples/authorizationserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/authorizationserver/main.go b/examples/authorizationserver/main.go
index 5ea105a..7bed4c0 100644
--- a/examples/authorizationserver/main.go
+++ b/examples/authorizationserver/main.go
@@ -56,7 +56,7 @@ func main() {
 	jarmEncoder := jarm.Encoder(jwt.JARMSigner(jose.ES384, keys))
 	dpopVerifier := dpop.DefaultVerifier(proofs, jwt.DefaultVerifier(keySet, []jose.SignatureAlgorithm{jose.ES384}))
 	pairwiseEncoder := pairwise.Hash([]byte("U|(vBPu45_Vkvv*Tr*8Y[^s?,$ka@bQziM5]9.+[{.n47]'zokA7-j8ypJ=W]WS"))
-	issuer := "http://localhost:8080"
+	issuer := "http://127.0.0.1:8080"
 
 	// Create router
 	http.Handle("/.well-known/oauth-authorization-server", handlers.Metadata(issuer, jwt.ServerMetadata(jose.ES384, keys)))
-- 
2.43.0


From 40491f943ef97d4c1dee4acb533bddf898ba81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:15 +0000
Subject: [PATCH 49/50] fix: report the error code published by the server in
 the client errors

---
 client/claims.go | 14 ++++++++++++++
 client/http.go   | 13 ++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index 8292ae3..5ebaf3f 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -52,6 +52,20 @@ type jsonError struct {
 	ErrorDescription string `json:"error_description,omitempty"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc6749#section-5.2
+type jsonErrorResponse struct {
+	jsonError
+	Err string `json:"err,omitempty"`
+}
+
+// Code returns the error code, whatever the member used to publish it.
+func (e *jsonErrorResponse) Code() string {
+	if e.ErrorCode != "" {
+		return e.ErrorCode
+	}
+	return e.Err
+}
+
 type jsonRequestURIResponse struct {
 	Error *jsonError `json:"inline"`
 
diff --git a/client/http.go b/client/http.go
index 59e4b85..2af7d0f 100644
--- a/client/http.go
+++ b/client/http.go
@@ -34,7 +34,6 @@ import (
 	"github.com/go-jose/go-jose/v4/jwt"
 	"golang.org/x/oauth2"
 
-	corev1 "zntr.io/solid/api/oidc/core/v1"
 	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
 	tokenv1 "zntr.io/solid/api/oidc/token/v1"
 	"zntr.io/solid/oidc"
@@ -358,14 +357,14 @@ func (c *httpClient) ClientCredentials(ctx context.Context, assertion string) (*
 	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusOK {
-		var err corev1.Error
+		var err jsonErrorResponse
 
 		// Decode json error
 		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {
 			return nil, fmt.Errorf("unable to decode json error for token retrieval request: %w", err)
 		}
 
-		return nil, fmt.Errorf("unable to request for token got %s, %s", err.Err, err.ErrorDescription)
+		return nil, fmt.Errorf("unable to request for token got %s, %s", err.Code(), err.ErrorDescription)
 	}
 
 	// Decode payload
@@ -424,14 +423,14 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusOK {
-		var err corev1.Error
+		var err jsonErrorResponse
 
 		// Decode json error
 		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {
 			return nil, fmt.Errorf("unable to decode json error for token introspection request: %w", err)
 		}
 
-		return nil, fmt.Errorf("unable to request for token introspection got %s, %s", err.Err, err.ErrorDescription)
+		return nil, fmt.Errorf("unable to request for token introspection got %s, %s", err.Code(), err.ErrorDescription)
 	}
 
 	// Decode payload
@@ -497,14 +496,14 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusOK {
-		var err corev1.Error
+		var err jsonErrorResponse
 
 		// Decode json error
 		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {
 			return nil, 0, fmt.Errorf("unable to decode json error for jwks retrieval request: %w", err)
 		}
 
-		return nil, 0, fmt.Errorf("unable to request for jwks got %s, %s", err.Err, err.ErrorDescription)
+		return nil, 0, fmt.Errorf("unable to request for jwks got %s, %s", err.Code(), err.ErrorDescription)
 	}
 
 	// Decode payload
-- 
2.43.0


From 961ff1c9c66e3ae10a7760d290865a44cba9e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:47 +0000
Subject: [PATCH 50/50] fix: keep the stored sessions, requests and tokens
 independent of the objects given to and received by the callers

---
 server/storage/inmemory/authorization_code_session.go | 5 +++--
 server/storage/inmemory/authorization_request.go      | 5 +++--
 server/storage/inmemory/token.go                      | 8 ++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index 136ffd4..42d5d6b 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -48,8 +49,8 @@ func AuthorizationCodeSessions() storage.AuthorizationCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req *sessionv1.AuthorizationCodeSession) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, code), req, cache.DefaultExpiration)
+	// Insert a copy in cache, the caller owns the given object
+	s.backend.Set(s.deriveKey(issuer, code), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return uint64(60), nil
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index f307faa..4a406a5 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/server/storage"
@@ -48,8 +49,8 @@ func AuthorizationRequests() storage.AuthorizationRequest {
 // -----------------------------------------------------------------------------
 
 func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requestURI string, req *flowv1.AuthorizationRequest) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, requestURI), req, cache.DefaultExpiration)
+	// Insert a copy in cache, the caller owns the given object
+	s.backend.Set(s.deriveKey(issuer, requestURI), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return 60, nil
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 089e593..d1b122a 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -75,8 +75,8 @@ func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Tok
 		return nil, storage.ErrNotFound
 	}
 
-	// No error
-	return client.(*tokenv1.Token), nil
+	// Return a copy, the storage owns the stored object
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
@@ -86,8 +86,8 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 		return nil, storage.ErrNotFound
 	}
 
-	// No error
-	return client.(*tokenv1.Token), nil
+	// Return a copy, the storage owns the stored object
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
-- 
2.43.0

