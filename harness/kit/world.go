package kit

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"strings"
	"sync"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	tokensvc "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

// Literal protocol values: the oracle does not trust the constants of the code under test.
const (
	GrantCode      = "authorization_code"
	GrantCC        = "client_credentials"
	GrantDevice    = "urn:ietf:params:oauth:grant-type:device_code"
	GrantRefresh   = "refresh_token"
	GrantExchange  = "urn:ietf:params:oauth:grant-type:token-exchange"
	TypeAT         = "urn:ietf:params:oauth:token-type:access_token"
	TypeRT         = "urn:ietf:params:oauth:token-type:refresh_token"
	AssertJWT      = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
	AssertAttest   = "urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation"
	ResCooperation = "urn:example:cooperation-context"
	ResBackend     = "urn:example:backend-api"
)

// AllGrants lists every supported grant type.
var AllGrants = []string{GrantCode, GrantCC, GrantDevice, GrantRefresh, GrantExchange}

// ErrEmptyValue is an injected fault understood by the token generator hook.
var ErrEmptyValue = errors.New("injected: empty value")

// ErrInjected is an injected fault.
var ErrInjected = errors.New("injected fault")

var (
	keyMu   sync.Mutex
	keyPool = map[string]crypto.Signer{}
	keep    []any // nothing with a janitor goroutine may be finalised while in a bubble
)

// Keep references v forever.
func Keep(v any) {
	keyMu.Lock()
	keep = append(keep, v)
	keyMu.Unlock()
}

// ECKey returns a process-wide key for the name.
func ECKey(name string, c elliptic.Curve) *ecdsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	n := name + c.Params().Name
	if k, ok := keyPool[n]; ok {
		return k.(*ecdsa.PrivateKey)
	}
	k, err := ecdsa.GenerateKey(c, rand.Reader)
	if err != nil {
		panic(err)
	}
	keyPool[n] = k
	return k
}

// KeyFunc provides a private JWK.
func KeyFunc(k any, kid, alg string) jwk.KeyProviderFunc {
	return func(context.Context) (*jose.JSONWebKey, error) {
		return &jose.JSONWebKey{Key: k, KeyID: kid, Algorithm: alg, Use: "sig"}, nil
	}
}

// JWKS encodes a public key set.
func JWKS(keys ...jose.JSONWebKey) []byte {
	b, err := json.Marshal(jose.JSONWebKeySet{Keys: keys})
	if err != nil {
		panic(err)
	}
	return b
}

// World is a complete server over in-memory storages.
type World struct {
	Raw    Stores // direct access
	S      Stores // hooked
	Authz  services.Authorization
	Token  services.Token
	Device services.Device
}

// NewStores returns fresh in-memory storages and generators. gen selects the token format.
func NewStores(gen string) Stores {
	s := Stores{
		Clients: &twins{Client: inmemory.Clients()}, Tokens: inmemory.Tokens(), AuthReqs: inmemory.AuthorizationRequests(),
		Codes: inmemory.AuthorizationCodeSessions(), Devices: inmemory.DeviceCodeSessions(), DPoP: inmemory.DPoPProofs(),
		Resources: inmemory.Resources(),
		CodeGen:   generator.DefaultAuthorizationCode(), URIGen: generator.DefaultRequestURI(),
		DeviceGen: generator.DefaultDeviceCode(), UserGen: generator.DefaultDeviceUserCode(),
	}
	secret := []byte("0123456789abcdef0123456789abcdef")
	switch gen {
	case "jwt":
		k := ECKey("as", elliptic.P256())
		s.AccessGen = token.AccessToken(jwt.AccessTokenSigner(jose.ES256, KeyFunc(k, "as", "ES256")))
		s.RefreshGen = token.RefreshToken(jwt.RefreshTokenSigner(jose.ES256, KeyFunc(k, "as", "ES256")))
	case "opaque":
		s.AccessGen, s.RefreshGen = token.OpaqueToken(), token.OpaqueToken()
	default:
		s.AccessGen = verifiable.Token(verifiable.UUIDv4Source(), secret)
		s.RefreshGen = verifiable.Token(verifiable.UUIDv7Source(), secret)
	}
	Keep(s)
	return s
}

// PassThrough calls the dependency.
func PassThrough(_ context.Context, _ string, do func() error) error { return do() }

// NewWorld builds services over hooked stores; h may be nil.
func NewWorld(raw Stores, h Hook) *World {
	s := raw
	if h != nil {
		s = Wrap(raw, h)
	}
	w := &World{Raw: raw, S: s}
	w.Authz = authorization.New(s.Clients, s.AuthReqs, s.Codes, s.CodeGen, s.URIGen)
	w.Token = tokensvc.New(s.AccessGen, s.RefreshGen, s.Clients, s.AuthReqs, s.Codes, s.Devices, s.Tokens, s.Resources)
	w.Device = device.New(s.Clients, s.Devices, s.DeviceGen, s.UserGen)
	return w
}

// Client registers a client able to do everything, modified by f.
func (w *World) Client(f func(c *clientv1.Client)) *clientv1.Client {
	c := &clientv1.Client{
		ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, ClientName: "client " + RandString(nil, 12, Alnum),
		ApplicationType: "web", GrantTypes: append([]string{}, AllGrants...), ResponseTypes: []string{"code", "token"},
		ResponseModes: []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"},
		RedirectUris:  []string{"https://client.example/cb", "https://client.example/other"},
	}
	describe(c)
	if f != nil {
		f(c)
	}
	id, err := w.Raw.Clients.Register(context.Background(), c)
	if err != nil {
		panic(err)
	}
	if t, ok := w.Raw.Clients.(*twins); ok {
		id = t.near(c)
	}
	got, err := w.Raw.Clients.Get(context.Background(), id)
	if err != nil {
		panic(fmt.Sprintf("registered client %q not found: %v", id, err))
	}
	cl := proto.Clone(got).(*clientv1.Client)
	cl.ClientId = id
	return cl
}

// twins is a client registry where some identifiers resemble the one registered before them.
type twins struct {
	storage.Client
	mu   sync.Mutex
	last string
	m    map[string]*clientv1.Client
}

// near gives c, which is registered, an identifier close to the last one (one time out of three).
func (t *twins) near(c *clientv1.Client) string {
	sharedRand.Lock()
	r := mrand.New(mrand.NewSource(sharedRand.r.Int63()))
	sharedRand.Unlock()
	t.mu.Lock()
	defer t.mu.Unlock()
	id, l := c.ClientId, t.last
	if l != "" && r.Intn(3) == 0 {
		i := r.Intn(len(l))
		for i < len(l)-1 && l[i] < 'A' {
			i++
		}
		id = Pick(r, strings.ToUpper(l), strings.ToLower(l), l[:i]+flip(l[i])+l[i+1:], l[:i]+flip(l[i])+l[i+1:], l[1:], l[:len(l)-1], l+"x", "x"+l, l+"-1", l+l, l[1:]+l[:1], l+".", l+"*", "*", "0"+l, l+"%20", l+"/"+l)
		if _, err := t.Client.Get(context.Background(), id); err == nil || id == "" || len(id) > 80 {
			id = c.ClientId
		} else if _, known := t.m[id]; known {
			id = c.ClientId
		}
	}
	if id != c.ClientId {
		c.ClientId = id
		if t.m == nil {
			t.m = map[string]*clientv1.Client{}
		}
		t.m[id] = c
	}
	t.last = id
	return id
}

func (t *twins) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	t.mu.Lock()
	c, ok := t.m[id]
	t.mu.Unlock()
	if ok && c == nil { // removed
		return nil, storage.ErrNotFound
	}
	if ok {
		return c, nil
	}
	return t.Client.Get(ctx, id)
}

func (t *twins) set(id string, c *clientv1.Client) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.m == nil {
		t.m = map[string]*clientv1.Client{}
	}
	t.m[id] = c
}

// SetClient replaces a registration.
func (w *World) SetClient(c *clientv1.Client) {
	w.Raw.Clients.(*twins).set(c.ClientId, proto.Clone(c).(*clientv1.Client))
}

// RemoveClient removes a registration.
func (w *World) RemoveClient(id string) { w.Raw.Clients.(*twins).set(id, nil) }

// NoClient is an identifier close to id which no client has.
func (w *World) NoClient(r *mrand.Rand, id string) string {
	for {
		n := NearMiss(r, id)
		if _, err := w.Raw.Clients.Get(context.Background(), n); err != nil {
			return n
		}
	}
}

// describe fills metadata which no grant depends on.
func describe(c *clientv1.Client) {
	sharedRand.Lock()
	seed := sharedRand.r.Int63()
	sharedRand.Unlock()
	r := mrand.New(mrand.NewSource(seed))
	opt := func(dst *string, vs ...string) {
		if r.Intn(2) == 0 {
			*dst = Pick(r, vs...)
		}
	}
	base := "https://" + RandString(r, 8, "abcdefghijklmnopqrstuvwxyz") + ".example/"
	if r.Intn(2) == 0 {
		c.Contacts = []string{"admin@client.example", RandString(r, 4, Alnum) + "@x.example"}
	}
	opt(&c.LogoUri, base+"logo.png")
	opt(&c.ClientUri, base)
	opt(&c.PolicyUri, base+"policy")
	opt(&c.TosUri, base+"tos")
	opt(&c.JwksUri, base+"jwks.json")
	opt(&c.SubjectType, "public", "pairwise")
	opt(&c.SectorIdentifier, base+"sector.json", "sector.example", c.RedirectUris[0])
	opt(&c.TokenEndpointAuthMethod, "private_key_jwt", "attest_jwt_client_auth", "none")
	opt(&c.TlsClientAuthSubjectDn, "CN=client")
	opt(&c.TlsClientAuthSanDns, "client.example")
	opt(&c.TlsClientAuthSanUri, base)
	opt(&c.TlsClientAuthSanIp, "127.0.0.1")
	opt(&c.TlsClientAuthSanEmail, "admin@client.example")
	opt(&c.ApplicationType, "web", "native", "service", "device")
	if r.Intn(2) == 0 {
		c.ClientSecret = []byte(RandString(r, 32, Alnum))
	}
	if r.Intn(2) == 0 {
		c.Jwks = []byte(`{"keys":[{"kty":"oct","k":"` + RandString(r, 32, Alnum) + `"}]}`)
	}
	if r.Intn(3) == 0 {
		c.ClientType = clientv1.ClientType_CLIENT_TYPE_CREDENTIALED
	}
}

// Alphabets.
const (
	Alnum     = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	Unreserve = Alnum + "-._~"
)

var sharedRand = struct {
	sync.Mutex
	r *mrand.Rand
}{r: mrand.New(mrand.NewSource(42))}

// RandString draws n symbols.
func RandString(r *mrand.Rand, n int, alpha string) string {
	b := make([]byte, n)
	if r == nil {
		sharedRand.Lock()
		defer sharedRand.Unlock()
		r = sharedRand.r
	}
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

// Pick chooses an element.
func Pick[T any](r *mrand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// S256 is the RFC 7636 transformation.
func S256(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// Str is a string reference.
func Str(s string) *string { return &s }

// Issuer draws a fresh issuer URL.
func Issuer(r *mrand.Rand) string {
	return fmt.Sprintf("https://%s.example/%s", RandString(r, 10, "abcdefghijklmnopqrstuvwxyz"), RandString(r, 6, Alnum))
}

// Issuers draws two issuers, often close to each other.
func Issuers(r *mrand.Rand) []string {
	a := Issuer(r)
	b := Issuer(r)
	if r.Intn(2) == 0 {
		b = Pick(r, a+"/", a+"x", a[:len(a)-1], a+"/a", strings.Replace(a, ".example", ".example:443", 1), strings.Replace(a, "https://", "https://x.", 1), a[:8]+strings.ToUpper(a[8:9])+a[9:],
			a[:len(a)-1]+flip(a[len(a)-1]), strings.Replace(a, ".example", ".EXAMPLE", 1), strings.Replace(a, "https", "http", 1), strings.Replace(a, ".example", ".example.org", 1))
	}
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	return []string{a, b}
}

// AuthReq is a valid authorization request of the client with its PKCE verifier.
func AuthReq(r *mrand.Rand, c *clientv1.Client, scope string) (*flowv1.AuthorizationRequest, string) {
	v := RandString(r, 43+r.Intn(86), Unreserve)
	aud := "https://api.example/" + RandString(r, 5, Alnum)
	if r.Intn(4) == 0 {
		aud = Odd(r, aud, true)
	}
	return &flowv1.AuthorizationRequest{
		Scope: scope, ResponseType: "code", ClientId: c.ClientId, RedirectUri: c.RedirectUris[r.Intn(len(c.RedirectUris))],
		State: RandText(r, 32+r.Intn(20)), Nonce: RandText(r, 8+r.Intn(20)), Audience: aud,
		CodeChallenge: S256(v), CodeChallengeMethod: "S256", Prompt: Str("consent"),
	}, v
}

// RandText draws an opaque parameter value of n bytes or a few more: mostly alphanumeric, sometimes what else a client may
// send (white space at the ends, quotes, markup, escapes, letters outside ASCII).
func RandText(r *mrand.Rand, n int) string {
	s := RandString(r, n, Alnum)
	if r.Intn(4) > 0 {
		return s
	}
	if r.Intn(3) == 0 {
		return Odd(r, s, false)
	}
	return Pick(r, " ", "\t", "", "é", "\"", "%20", "&x=", "<b>") + s + Pick(r, " ", "\n", "", "=", "/", "+", "\u2028", "%", "\\", "ſ", "😀")
}

// Decorate fills optional parameters which must not matter.
func Decorate(r *mrand.Rand, ar *flowv1.AuthorizationRequest) {
	opt := func(dst **string, vs ...string) {
		if r.Intn(2) == 0 {
			*dst = Str(Pick(r, vs...))
		}
	}
	opt(&ar.Display, "page", "popup")
	opt(&ar.UiLocales, "fr", "")
	opt(&ar.IdTokenHint, "a.b.c", "")
	opt(&ar.LoginHint, "joe", "")
	opt(&ar.AcrValues, "0", "urn:x urn:y")
	if r.Intn(2) == 0 {
		m := uint64(r.Intn(2) * 100)
		ar.MaxAge = &m
	}
	if r.Intn(2) == 0 {
		ar.Resource = []string{"urn:x", "https://other.example/"}
	}
}

// DecorateToken fills optional parameters of a token request which must not matter. vals are values of other artifacts.
func DecorateToken(r *mrand.Rand, req *flowv1.TokenRequest, vals ...string) {
	if r.Intn(2) == 0 {
		req.Resource = []string{ResBackend, "https://other.example/"}
	}
	if g := req.GetTokenExchange(); g != nil {
		if r.Intn(2) == 0 {
			g.ActorToken, g.ActorTokenType = Str(Pick(r, append([]string{"actor", g.SubjectToken, ""}, vals...)...)), Str(TypeAT)
		}
		if r.Intn(3) == 0 {
			g.RequestedTokenType = Str(TypeAT)
		}
	}
}

// Clone copies a message.
func Clone[M proto.Message](m M) M { return proto.Clone(m).(M) }

// Code obtains an authorization code.
func (w *World) Code(ctx context.Context, iss, sub string, c *clientv1.Client, ar *flowv1.AuthorizationRequest) (*flowv1.AuthorizeResponse, error) {
	return w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Client: c, Request: Clone(ar)})
}

// CodeReq builds a code token request.
func CodeReq(iss string, c *clientv1.Client, code, redirect, verifier string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: GrantCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: verifier}}}
}

// RefreshReq builds a refresh request.
func RefreshReq(iss string, c *clientv1.Client, rt string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: GrantRefresh,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: rt}}}
}

// DeviceReq builds a device token request.
func DeviceReq(iss string, c *clientv1.Client, code string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: GrantDevice,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: code, ClientId: c.GetClientId()}}}
}

// CCReq builds a client_credentials request.
func CCReq(iss string, c *clientv1.Client, scope, aud *string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: GrantCC, Scope: scope, Audience: aud,
		Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}}
}

// ExchangeReq builds an exchange request.
func ExchangeReq(iss string, c *clientv1.Client, subject string, scope, aud *string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: iss, Client: c, GrantType: GrantExchange, Scope: scope, Audience: aud,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: subject, SubjectTokenType: TypeAT}}}
}

// Introspect asks for a value.
func (w *World) Introspect(ctx context.Context, iss string, c *clientv1.Client, v string) (*tokenv1.IntrospectResponse, error) {
	return w.Token.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: c, Token: v})
}

// Revoke revokes a value.
func (w *World) Revoke(ctx context.Context, iss string, c *clientv1.Client, v string) (*tokenv1.RevokeResponse, error) {
	return w.Token.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: c, Token: v})
}

// ErrOf returns the public error code of a token response ("" when none).
func ErrOf(r interface{ GetError() *E }) string {
	if r == nil || r.GetError() == nil {
		return ""
	}
	return r.GetError().Err
}

// HasToken tells whether the response hands out any credential.
func HasToken(r *flowv1.TokenResponse) bool {
	return r != nil && (r.AccessToken != nil || r.RefreshToken != nil || r.IdToken != nil)
}

// Granted is the single definition of a successful token response.
func Granted(r *flowv1.TokenResponse, err error) bool {
	return err == nil && r != nil && r.Error == nil && r.AccessToken != nil && r.AccessToken.Value != ""
}

// Refused checks that a token response is a proper refusal with one of the codes.
func (k *Case) Refused(key, what string, r *flowv1.TokenResponse, err error, codes ...string) bool {
	if err == nil {
		k.Fail(key, "%s: accepted (%s)", what, Brief(r))
		return false
	}
	if r == nil {
		k.Fail(key, "%s: nil response with error %v", what, err)
		return false
	}
	if HasToken(r) {
		k.Fail(key, "%s: refused but the response carries a token (%s)", what, Brief(r))
		return false
	}
	got := ErrOf(r)
	for _, c := range codes {
		if c == got {
			return true
		}
	}
	if len(codes) > 0 {
		k.Fail(key, "%s: refused with %q, expected %v (%v)", what, got, codes, err)
		return false
	}
	return true
}

// Brief prints a message shortly.
func Brief(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	b, err := json.Marshal(m)
	if err != nil {
		return err.Error()
	}
	if len(b) > 900 {
		b = append(b[:900], "…"...)
	}
	return string(b)
}
