package checks

import (
	"context"
	"crypto/elliptic"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v4"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	solidclient "zntr.io/solid/client"
	"zntr.io/solid/examples/authorizationserver/handlers"
	"zntr.io/solid/examples/authorizationserver/middleware"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage/inmemory"
)

// arts are the artifacts which travel between the parties.
type arts map[string]string

func (a arts) with(name, v string) arts {
	o := arts{}
	for n, x := range a {
		o[n] = x
	}
	o[name] = v
	return o
}

// c35Dep is a deployed authorization server and a resource server trusting it.
type c35Dep struct {
	iss, api string
	w        *kit.World
	gen      string
	auth     clientauthentication.AuthenticationProcessor
	dv, rs   dpop.Verifier
	as       *party
	enc      jarm.ResponseEncoder
	pw       pairwise.Encoder
	atVer    token.Verifier
	mux      *http.ServeMux // nil: the parts are wired by the harness
	rsReg    *clientv1.Client
	rsClient solidclient.Client
}

func c35KeySet(k *kit.Key) func(context.Context) (*jose.JSONWebKeySet, error) {
	return func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{k.JWK()}}, nil
	}
}

// memTransport sends requests to handlers of this process, by host.
type memTransport struct {
	hosts map[string]http.Handler
	deps  map[string]*c35Dep // deployments are shared by the runs
}

func (m *memTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	h := m.hosts[r.URL.Host]
	if h == nil {
		return nil, fmt.Errorf("no host %q", r.URL.Host)
	}
	rq := r.Clone(r.Context())
	if rq.Body == nil {
		rq.Body = http.NoBody
	}
	if rq.Host == "" {
		rq.Host = rq.URL.Host
	}
	rq.RequestURI = rq.URL.RequestURI()
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, rq)
	res := rec.Result()
	res.Request = r
	return res, nil
}

func c35Deploy(k *kit.Case, name, gen string, web bool) *c35Dep {
	d := &c35Dep{gen: gen, w: kit.NewWorld(kit.NewStores(gen), nil)}
	d.iss = "http://" + name + "-" + kit.RandString(k.R, 8, "abcdefghijklmnopqrstuvwxyz") + ".example"
	d.api = "https://api-" + name + ".example/v1/items"
	alg := "ES384"
	if !web {
		alg = kit.Pick(k.R, "ES256", "ES384", "EdDSA", "PS256")
	}
	d.as = mkParty("c35-as-"+name, alg, d.iss)
	p1, p2 := inmemory.DPoPProofs(), inmemory.DPoPProofs()
	kit.Keep(p1)
	kit.Keep(p2)
	d.dv = dpop.DefaultVerifier(p1, jwt.EmbeddedKeyVerifier(allAlgs()))
	d.rs = dpop.DefaultVerifier(p2, jwt.EmbeddedKeyVerifier(allAlgs()))
	d.auth = clientauthentication.PrivateKeyJWT(d.w.S.Clients, allAlgs())
	d.enc = jarm.Encoder(d.as.jarm())
	d.pw = pairwise.Hash([]byte("a salt of the deployment, kept secret"))
	d.atVer = jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		pub := kit.ECKey("as", c35Curve).PublicKey
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: &pub, KeyID: "as", Algorithm: "ES256", Use: "sig"}}}, nil
	}, allAlgs())
	if web {
		d.mux = http.NewServeMux()
		keys := func(context.Context) (*jose.JSONWebKey, error) { return d.as.key.PrivJWK(), nil }
		ca := middleware.ClientAuthentication(d.w.S.Clients, []jose.SignatureAlgorithm{jose.ES256, jose.ES384})
		sh, ba := middleware.SecurityHaders(), middleware.BasicAuthentication()
		d.mux.Handle("/.well-known/oauth-authorization-server", handlers.Metadata(d.iss, jwt.ServerMetadata(jose.ES384, keys)))
		d.mux.Handle("/keys", handlers.JWKS(c35KeySet(d.as.key)))
		d.mux.Handle("/par", middleware.Adapt(handlers.PushedAuthorizationRequest(d.iss, d.w.Authz, d.dv), ca))
		d.mux.Handle("/authorize", middleware.Adapt(handlers.Authorization(d.iss, d.w.Authz, d.w.S.Clients, d.enc, d.pw), sh, ba))
		d.mux.Handle("/token", middleware.Adapt(handlers.Token(d.iss, d.w.Token, d.dv), ca))
		d.mux.Handle("/token/introspect", middleware.Adapt(handlers.TokenIntrospection(d.iss, d.w.Token), ca))
		d.mux.Handle("/token/revoke", middleware.Adapt(handlers.TokenRevocation(d.iss, d.w.Token), ca))
		d.mux.Handle("/device/authorize", middleware.Adapt(handlers.DeviceAuthorization(d.iss, d.w.Device), ca))
		d.mux.Handle("/device", middleware.Adapt(handlers.Device(d.iss, d.w.Device), sh, ba))
	}
	d.rsReg = d.w.Client(func(c *clientv1.Client) { c.Jwks = kit.JWKS(kit.NewKey("c35-rs", "ES384").JWK()) })
	return d
}

// c35Actor is a client acting for one user.
type c35Actor struct {
	reg       *clientv1.Client
	key, dkey *kit.Key
	prover    dpop.Prover
	user      string
}

func c35Client(k *kit.Case, d *c35Dep, name, alg string, cfg *c35Cfg) *c35Actor {
	a := &c35Actor{key: kit.NewKey("c35-"+name, alg)}
	a.reg = d.w.Client(func(c *clientv1.Client) {
		c.Jwks = kit.JWKS(a.key.JWK())
		c.TokenEndpointAuthMethod = "private_key_jwt"
		c.DpopBoundAccessTokens = cfg.dpop
		c.SubjectType = "public"
		if cfg.pairwise {
			c.SubjectType = "pairwise"
			c.SectorIdentifier = "https://" + name + ".sector.example"
		}
	})
	return a
}

func (a *c35Actor) session(user, dname, dalg string) *c35Actor {
	b := *a
	b.user = user
	b.dkey = kit.NewKey(dname, dalg)
	b.prover = dpop.DefaultProver(jwt.DPoPSigner(jose.SignatureAlgorithm(dalg), func(context.Context) (*jose.JSONWebKey, error) { return b.dkey.PrivJWK(), nil }))
	return &b
}

type c35Cfg struct {
	flow     string // jar, par, device, cc
	dpop     bool
	offline  bool
	pairwise bool
	same     bool // both sessions belong to one client
	web      bool
	gen      string
	mode     string
	alg      string
	dalg     string
}

func (c *c35Cfg) String() string {
	return fmt.Sprintf("%s dpop=%v offline=%v pairwise=%v same=%v web=%v gen=%s mode=%s", c.flow, c.dpop, c.offline, c.pairwise, c.same, c.web, c.gen, c.mode)
}

// c35Session is one run of a flow by one actor.
type c35Session struct {
	k        *kit.Case
	cfg      *c35Cfg
	d        *c35Dep
	a        *c35Actor
	art      arts
	old      map[string]string // artifacts already used by this actor
	ar       *flowv1.AuthorizationRequest
	scope    string
	aud      string
	sub      string
	broken   bool // an adversary used something of this session
	lastBody map[string]any
}

var c35Ctx = context.Background()

// steps of the flow.
func (c *c35Cfg) steps() []string {
	var s []string
	switch c.flow {
	case "par":
		s = append(s, "par", "authorize", "jarm", "token")
	case "jar":
		s = append(s, "authorize", "jarm", "token")
	case "device":
		s = append(s, "device", "pending", "validate", "token")
	case "cc":
		s = append(s, "token")
	}
	s = append(s, "resource", "introspect")
	if c.offline && c.flow != "cc" {
		s = append(s, "refresh", "resource", "introspect")
	}
	if !c.web {
		s = append(s, "exchange", "introspect")
	}
	return append(s, "revoke")
}

func (s *c35Session) assertion() string {
	a := s.a
	now := time.Now().Unix()
	t, err := jwt.ClientAssertionSigner(jose.SignatureAlgorithm(a.key.Alg), func(context.Context) (*jose.JSONWebKey, error) { return a.key.PrivJWK(), nil }).
		Serialize(c35Ctx, map[string]any{"iss": a.reg.ClientId, "sub": a.reg.ClientId, "aud": s.d.iss, "jti": kit.RandString(s.k.R, 16, kit.Alnum), "iat": now, "exp": now + 60})
	if err != nil {
		s.k.Fatal("assertion", "%v", err)
	}
	return t
}

func (s *c35Session) proof(m, u, tok string) string {
	var o []dpop.Option
	if tok != "" {
		o = append(o, dpop.WithTokenValue(tok))
	}
	p, err := s.a.prover.Prove(m, u, o...)
	if err != nil {
		s.k.Fatal("prove", "%v", err)
	}
	return p
}

func (s *c35Session) request(ar *flowv1.AuthorizationRequest) string {
	p := &party{key: s.a.key}
	t, err := jwsreq.AuthorizationRequestEncoder(p.request()).Encode(c35Ctx, ar)
	if err != nil {
		s.k.Fatal("request", "request object: %v", err)
	}
	return t
}

var c35Endpoint = map[string]string{"par": "/par", "token": "/token", "refresh": "/token", "exchange": "/token", "pending": "/token"}

// prepare makes what the client needs for the step.
func (s *c35Session) prepare(step string) {
	r := s.k.R
	a := s.art
	if s.ar == nil && (s.cfg.flow == "par" || s.cfg.flow == "jar") {
		s.ar, a["verifier"] = kit.AuthReq(r, s.a.reg, s.scope)
		s.ar.Audience = s.aud
		if s.cfg.mode != "" {
			s.ar.ResponseMode = kit.Str(s.cfg.mode)
		}
		a["redirect_uri"] = s.ar.RedirectUri
	}
	switch step {
	case "par", "token", "refresh", "exchange", "introspect", "revoke", "device", "pending":
		a["assertion"] = s.assertion()
	}
	if e := c35Endpoint[step]; s.cfg.dpop && e != "" {
		a["proof"] = s.proof("POST", s.d.iss+e, "")
	}
	a["client_id"] = s.a.reg.ClientId
	switch step {
	case "par":
		a["request"] = s.request(s.ar)
	case "authorize":
		if s.cfg.flow == "par" {
			a["request"] = s.request(&flowv1.AuthorizationRequest{ClientId: s.a.reg.ClientId, RequestUri: kit.Str(a["request_uri"])})
		} else {
			a["request"] = s.request(s.ar)
		}
	case "resource":
		if s.cfg.dpop {
			a["proof"] = s.proof("GET", s.d.api, a["token"])
		}
	}
}

func (d *c35Dep) authenticate(assertion string) (*clientv1.Client, error) {
	res, err := d.auth.Authenticate(c35Ctx, &clientv1.AuthenticateRequest{ClientAssertion: kit.Str(assertion), ClientAssertionType: kit.Str(kit.AssertJWT)})
	if err != nil {
		return nil, fmt.Errorf("client authentication: %w", err)
	}
	return res.Client, nil
}

func c35Decoder(c *clientv1.Client) jwsreq.AuthorizationDecoder {
	return jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		var s jose.JSONWebKeySet
		if err := json.Unmarshal(c.Jwks, &s); err != nil {
			return nil, err
		}
		return &s, nil
	}, allAlgs()))
}

// call sends a request to the example server.
func (s *c35Session) call(method, path string, q, form url.Values, hdr map[string]string, user string) (int, map[string]any, http.Header) {
	u := s.d.iss + path
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	rq := httptest.NewRequest(method, u, strings.NewReader(form.Encode()))
	if form != nil {
		rq.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	for n, v := range hdr {
		rq.Header.Set(n, v)
	}
	if user != "" {
		rq.SetBasicAuth(user, "world")
	}
	rec := httptest.NewRecorder()
	if path == "/token/revoke" {
		// The service refuses a token it does not know without a public error
		// and the handler hands that nil error to its responder.
		if func() (gone bool) {
			defer func() {
				if v := recover(); v != nil {
					if st := string(debug.Stack()); !strings.Contains(st, "respond.WithError") {
						panic(fmt.Sprintf("%v\n%s", v, st))
					}
					gone = true
				}
			}()
			s.d.mux.ServeHTTP(rec, rq)
			return
		}() {
			s.k.Fail("example-revocation-panic", "POST /token/revoke for a token the server does not know panics instead of answering")
			return 500, nil, http.Header{}
		}
	} else {
		s.d.mux.ServeHTTP(rec, rq)
	}
	var m map[string]any
	_ = json.Unmarshal(rec.Body.Bytes(), &m)
	s.lastBody = m
	return rec.Code, m, rec.Header()
}

func text(m map[string]any, n string) string { v, _ := m[n].(string); return v }

// tokens records the credentials of a successful token response.
type c35Granted struct {
	at, rt, typ, scope string
	exp                uint64
}

func (s *c35Session) tokenCall(a arts, form url.Values, msg *flowv1.TokenRequest) (*c35Granted, error) {
	if s.d.mux != nil {
		form.Set("client_assertion", a["assertion"])
		form.Set("client_assertion_type", kit.AssertJWT)
		h := map[string]string{}
		if s.cfg.dpop {
			h["DPoP"] = a["proof"]
		}
		code, m, _ := s.call("POST", "/token", nil, form, h, "")
		if code != 200 {
			s.k.Check(m["access_token"] == nil && m["refresh_token"] == nil, "refused-with-token", "status %d with %v", code, m)
			return nil, fmt.Errorf("%d %v", code, m)
		}
		e, _ := m["expires_in"].(float64)
		return &c35Granted{at: text(m, "access_token"), rt: text(m, "refresh_token"), typ: text(m, "token_type"), scope: text(m, "scope"), exp: uint64(e)}, nil
	}
	cl, err := s.d.authenticate(a["assertion"])
	if err != nil {
		return nil, err
	}
	msg.Client = cl
	typ := "Bearer"
	if s.cfg.dpop {
		jkt, err := s.d.dv.Verify(c35Ctx, "POST", s.d.iss+"/token", a["proof"])
		if err != nil {
			return nil, fmt.Errorf("proof: %w", err)
		}
		msg.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
		typ = "DPoP"
	}
	res, err := s.d.w.Token.Token(c35Ctx, msg)
	if !kit.Granted(res, err) {
		s.k.Check(!kit.HasToken(res), "refused-with-token", "%v with %s", err, kit.Brief(res))
		return nil, fmt.Errorf("token: %v %s", err, kit.ErrOf(res))
	}
	m := res.AccessToken.Metadata
	return &c35Granted{at: res.AccessToken.Value, rt: res.GetRefreshToken().GetValue(), typ: typ, scope: m.Scope, exp: m.ExpiresAt - uint64(time.Now().Unix())}, nil
}

// introspection asks the server about a value.
func (s *c35Session) introspection(assertion, v string) (bool, *tokenv1.Token, error) {
	if s.d.mux != nil {
		code, m, _ := s.call("POST", "/token/introspect", nil, url.Values{"token": {v}, "client_assertion": {assertion}, "client_assertion_type": {kit.AssertJWT}}, nil, "")
		if code != 200 {
			return false, nil, fmt.Errorf("%d %v", code, m)
		}
		act, _ := m["active"].(bool)
		b, _ := json.Marshal(m)
		var t struct {
			Sub, Aud, Scope, Iss, Jti string
			ClientID                  string `json:"client_id"`
			Exp, Iat, Nbf             uint64
			Cnf                       *tokenv1.TokenConfirmation
		}
		_ = json.Unmarshal(b, &t)
		return act, &tokenv1.Token{TokenId: t.Jti, Confirmation: t.Cnf, Metadata: &tokenv1.TokenMeta{Issuer: t.Iss, Subject: t.Sub, Audience: t.Aud, Scope: t.Scope, ClientId: t.ClientID, ExpiresAt: t.Exp, IssuedAt: t.Iat, NotBefore: t.Nbf}}, nil
	}
	cl, err := s.d.authenticate(assertion)
	if err != nil {
		return false, nil, err
	}
	res, err := s.d.w.Introspect(c35Ctx, s.d.iss, cl, v)
	if err != nil {
		return false, nil, err
	}
	return res.Token.GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && token.IsUsable(res.Token), res.Token, nil
}

// meaning of a token as the honest parties should see it.
func (s *c35Session) consistent(what, v string, t *tokenv1.Token, access bool) {
	k, m := s.k, t.GetMetadata()
	k.Check(m.GetSubject() == s.sub, "subject", "%s: subject %q, the user is %q", what, m.GetSubject(), s.sub)
	k.Check(m.GetClientId() == s.a.reg.ClientId, "client", "%s: client %q instead of %q", what, m.GetClientId(), s.a.reg.ClientId)
	k.Check(m.GetIssuer() == s.d.iss, "issuer", "%s: issuer %q instead of %q", what, m.GetIssuer(), s.d.iss)
	if s.art["exchanged"] == "" || v != s.art["exchanged"] {
		k.Check(m.GetAudience() == s.aud, "audience", "%s: audience %q instead of %q", what, m.GetAudience(), s.aud)
	}
	k.Check(sameStrings(uniq(strings.Fields(m.GetScope())), uniq(strings.Fields(s.scope))), "scope", "%s: scope %q instead of %q", what, m.GetScope(), s.scope)
	now := uint64(time.Now().Unix())
	k.Check(m.GetIssuedAt() <= now && m.GetExpiresAt() > now, "times", "%s: issued %d expires %d now %d", what, m.GetIssuedAt(), m.GetExpiresAt(), now)
	jkt := ""
	if s.cfg.dpop {
		jkt = s.a.dkey.Thumb()
	}
	k.Check(t.GetConfirmation().GetJkt() == jkt, "binding", "%s: bound to %q instead of %q", what, t.GetConfirmation().GetJkt(), jkt)
	if access && s.cfg.gen == "jwt" {
		// what a resource server reads from the token itself
		var c struct {
			Iss      string `json:"iss"`
			Sub      string `json:"sub"`
			Aud      string `json:"aud"`
			Scope    string `json:"scope"`
			Jti      string `json:"jti"`
			ClientID string `json:"client_id"`
			Exp      uint64 `json:"exp"`
			Iat      uint64 `json:"iat"`
			Cnf      *struct {
				Jkt string `json:"jkt"`
			} `json:"cnf"`
		}
		if err := s.d.atVer.Claims(c35Ctx, v, &c); !k.Check(err == nil, "resource-claims", "%s: token does not verify: %v", what, err) {
			return
		}
		cj := ""
		if c.Cnf != nil {
			cj = c.Cnf.Jkt
		}
		k.Check(c.Iss == m.Issuer && c.Sub == m.Subject && c.Aud == m.Audience && c.ClientID == m.ClientId && c.Scope == m.Scope && c.Exp == m.ExpiresAt && c.Iat == m.IssuedAt && cj == jkt && (t.TokenId == "" || c.Jti == t.TokenId),
			"claims", "%s: the token says %+v, introspection %s", what, c, kit.Brief(t))
		k.Event("self_contained")
	}
}

func uniq(in []string) []string {
	var out []string
	for _, x := range in {
		if !has(out, x) {
			out = append(out, x)
		}
	}
	return out
}

// do performs a step with the given artifacts; err means that some party refused.
func (s *c35Session) do(step string, a arts, honest bool) error {
	k, d := s.k, s.d
	switch step {
	case "par":
		if d.mux != nil {
			code, m, _ := s.call("POST", "/par", url.Values{"request": {a["request"]}}, url.Values{"client_assertion": {a["assertion"]}, "client_assertion_type": {kit.AssertJWT}}, map[string]string{"DPoP": a["proof"]}, "")
			if text(m, "request_uri") == "" || code != 201 {
				return fmt.Errorf("%d %v", code, m)
			}
			a["request_uri"] = text(m, "request_uri")
			return nil
		}
		cl, err := d.authenticate(a["assertion"])
		if err != nil {
			return err
		}
		var cnf *tokenv1.TokenConfirmation
		if s.cfg.dpop {
			jkt, err := d.dv.Verify(c35Ctx, "POST", d.iss+"/par", a["proof"])
			if err != nil {
				return err
			}
			cnf = &tokenv1.TokenConfirmation{Jkt: jkt}
		}
		ar, err := c35Decoder(cl).Decode(c35Ctx, a["request"])
		if err != nil {
			return err
		}
		res, err := d.w.Authz.Register(c35Ctx, &flowv1.RegistrationRequest{Issuer: d.iss, Client: cl, Request: ar, Confirmation: cnf})
		if err != nil || res.GetRequestUri() == "" {
			k.Check(res.GetRequestUri() == "", "refused-with-uri", "request_uri and error %v together", err)
			return fmt.Errorf("register: %v %v", err, res.GetError())
		}
		a["request_uri"] = res.RequestUri
		return nil
	case "authorize":
		if d.mux != nil {
			code, m, h := s.call("GET", "/authorize", url.Values{"client_id": {a["client_id"]}, "request": {a["request"]}}, nil, nil, s.a.user)
			u, err := url.Parse(h.Get("Location"))
			if code != 302 || err != nil || u.Query().Get("response") == "" {
				return fmt.Errorf("%d %v", code, m)
			}
			if honest {
				k.Check(strings.HasPrefix(h.Get("Location"), s.ar.RedirectUri+"?"), "redirect", "redirected to %q instead of %q", h.Get("Location"), s.ar.RedirectUri)
			}
			a["response"] = u.Query().Get("response")
			return nil
		}
		cl, err := d.w.S.Clients.Get(c35Ctx, a["client_id"])
		if err != nil {
			return err
		}
		sub := s.a.user
		if cl.SubjectType == "pairwise" {
			if sub, err = d.pw.Encode(cl.SectorIdentifier, sub); err != nil {
				return err
			}
		}
		ar, err := c35Decoder(cl).Decode(c35Ctx, a["request"])
		if err != nil {
			return err
		}
		res, err := d.w.Authz.Authorize(c35Ctx, &flowv1.AuthorizeRequest{Issuer: d.iss, Client: cl, Subject: sub, Request: ar})
		if err != nil || res.GetCode() == "" {
			k.Check(res.GetCode() == "", "refused-with-code", "code and error %v together", err)
			return fmt.Errorf("authorize: %v %v", err, res.GetError())
		}
		if honest {
			k.Check(res.RedirectUri == s.ar.RedirectUri, "redirect", "redirected to %q instead of %q", res.RedirectUri, s.ar.RedirectUri)
			k.Check(s.cfg.mode == "" || res.ResponseMode == s.cfg.mode, "mode", "response mode %q instead of %q", res.ResponseMode, s.cfg.mode)
		}
		if a["response"], err = d.enc.Encode(c35Ctx, d.iss, res); err != nil {
			k.Fatal("jarm-encode", "%v", err)
		}
		return nil
	case "jarm":
		res, err := jarm.Decoder(d.iss, d.as.ver).Decode(c35Ctx, s.a.reg.ClientId, a["response"])
		if err != nil {
			return err
		}
		if res.Error != nil {
			return fmt.Errorf("error response %v", res.Error)
		}
		if res.State != s.ar.State {
			return fmt.Errorf("state of another session")
		}
		a["code"] = res.Code
		return nil
	case "token", "pending":
		form := url.Values{}
		var msg *flowv1.TokenRequest
		switch s.cfg.flow {
		case "par", "jar":
			form = url.Values{"grant_type": {kit.GrantCode}, "code": {a["code"]}, "code_verifier": {a["verifier"]}, "redirect_uri": {a["redirect_uri"]}}
			msg = kit.CodeReq(d.iss, nil, a["code"], a["redirect_uri"], a["verifier"])
		case "device":
			form = url.Values{"grant_type": {kit.GrantDevice}, "device_code": {a["device_code"]}}
			msg = kit.DeviceReq(d.iss, s.a.reg, a["device_code"])
		case "cc":
			form = url.Values{"grant_type": {kit.GrantCC}}
			msg = kit.CCReq(d.iss, nil, nil, nil)
			if !s.cfg.web {
				msg = kit.CCReq(d.iss, nil, kit.Str(s.scope), kit.Str(s.aud))
			}
		}
		g, err := s.tokenCall(a, form, msg)
		if err != nil {
			return err
		}
		if step == "pending" {
			k.Fail("unapproved", "tokens for a device nobody approved: %+v", g)
			return nil
		}
		s.granted(g, a, honest)
		k.Check(!honest || (g.rt != "") == (s.cfg.offline && s.cfg.flow != "cc"), "refresh-token", "refresh token %q, offline access asked: %v", g.rt, s.cfg.offline)
		return nil
	case "refresh":
		g, err := s.tokenCall(a, url.Values{"grant_type": {kit.GrantRefresh}, "refresh_token": {a["rt"]}}, kit.RefreshReq(d.iss, nil, a["rt"]))
		if err != nil {
			return err
		}
		if g.rt == "" {
			g.rt = a["rt"]
		}
		k.Check(!honest || g.at != a["token"], "refresh-same", "refreshing gave the same access token")
		s.granted(g, a, honest)
		return nil
	case "exchange":
		g, err := s.tokenCall(a, nil, kit.ExchangeReq(d.iss, nil, a["token"], nil, kit.Str(kit.ResBackend)))
		if err != nil {
			return err
		}
		if honest {
			k.Check(g.at != "" && g.at != a["token"], "exchange", "exchange gave %q", g.at)
			s.old["exchange_subject"] = a["token"]
			a["exchanged"] = g.at
			a["token"] = g.at
			time.Sleep(2 * time.Second)
		}
		return nil
	case "resource":
		if s.cfg.dpop {
			jkt, err := d.rs.Verify(c35Ctx, "GET", d.api, a["proof"], dpop.WithTokenValue(a["token"]))
			if err != nil {
				return err
			}
			act, t, err := d.rsAsk(s, a["token"])
			if err != nil {
				return err
			}
			if !act || t.GetConfirmation() == nil || t.Confirmation.Jkt != jkt {
				return fmt.Errorf("token inactive or not bound to the key")
			}
			if honest {
				s.consistent("resource", a["token"], t, true)
			}
			return nil
		}
		act, t, err := d.rsAsk(s, a["token"])
		if err != nil {
			return err
		}
		if !act || t.GetConfirmation() != nil {
			return fmt.Errorf("inactive or bound")
		}
		if honest {
			s.consistent("resource", a["token"], t, true)
		}
		return nil
	case "introspect":
		act, t, err := s.introspection(a["assertion"], a["token"])
		if err != nil {
			return err
		}
		if !act {
			return fmt.Errorf("inactive")
		}
		if honest {
			s.consistent("introspection", a["token"], t, true)
		}
		return nil
	case "device":
		if d.mux != nil {
			code, m, _ := s.call("POST", "/device/authorize", nil, url.Values{"client_id": {a["client_id"]}, "scope": {s.scope}, "audience": {s.aud}, "client_assertion": {a["assertion"]}, "client_assertion_type": {kit.AssertJWT}}, nil, "")
			if code != 200 {
				return fmt.Errorf("%d %v", code, m)
			}
			a["device_code"], a["user_code"] = text(m, "device_code"), text(m, "user_code")
			return nil
		}
		if _, err := d.authenticate(a["assertion"]); err != nil {
			return err
		}
		res, err := d.w.Device.Authorize(c35Ctx, &flowv1.DeviceAuthorizationRequest{Issuer: d.iss, ClientId: a["client_id"], Scope: kit.Str(s.scope), Audience: kit.Str(s.aud)})
		if err != nil {
			return err
		}
		a["device_code"], a["user_code"] = res.DeviceCode, res.UserCode
		return nil
	case "validate":
		if d.mux != nil {
			code, m, _ := s.call("POST", "/device", nil, url.Values{"user_code": {a["user_code"]}}, nil, s.a.user)
			if code != 200 {
				return fmt.Errorf("%d %v", code, m)
			}
			return nil
		}
		res, err := d.w.Device.Validate(c35Ctx, &flowv1.DeviceCodeValidationRequest{Issuer: d.iss, Subject: s.a.user, UserCode: a["user_code"]})
		if err != nil {
			return fmt.Errorf("%v %v", err, res.GetError())
		}
		return nil
	case "revoke":
		if d.mux != nil {
			code, m, _ := s.call("POST", "/token/revoke", nil, url.Values{"token": {a["token"]}, "client_assertion": {a["assertion"]}, "client_assertion_type": {kit.AssertJWT}}, nil, "")
			if code != 200 {
				return fmt.Errorf("%d %v", code, m)
			}
		} else {
			cl, err := d.authenticate(a["assertion"])
			if err != nil {
				return err
			}
			if _, err := d.w.Revoke(c35Ctx, d.iss, cl, a["token"]); err != nil {
				return err
			}
		}
		if honest {
			act, _, err := s.introspection(s.assertion(), a["token"])
			k.Check(err == nil && !act, "revoked-active", "revoked token still active (%v)", err)
			if s.cfg.dpop {
				s.art["proof"] = s.proof("GET", d.api, a["token"])
			}
			k.Check(s.do("resource", s.art, false) != nil, "revoked-active", "the resource server accepts a revoked token")
		}
		return nil
	}
	panic("unknown step " + step)
}

// granted checks and keeps the tokens of the client.
func (s *c35Session) granted(g *c35Granted, a arts, honest bool) {
	if !honest {
		return
	}
	k := s.k
	want := "Bearer"
	if s.cfg.dpop {
		want = "DPoP"
	}
	time.Sleep(2 * time.Second) // tokens start to be valid in the second after their issuance
	k.Check(g.at != "" && g.typ == want && g.exp > 0 && g.exp < 1<<31, "token-response", "token response %+v", g)
	k.Check(sameStrings(uniq(strings.Fields(g.scope)), uniq(strings.Fields(s.scope))), "scope", "scope %q instead of %q", g.scope, s.scope)
	a["token"] = g.at
	if g.rt != "" {
		a["rt"] = g.rt
		if act, t, err := s.introspection(s.assertion(), g.rt); k.Check(err == nil && act, "rt-inactive", "refresh token not active: %v", err) {
			s.consistent("refresh token", g.rt, t, false)
		}
	}
	k.Event("granted")
}

// rsAsk is the introspection done by the resource server.
func (d *c35Dep) rsAsk(s *c35Session, v string) (bool, *tokenv1.Token, error) {
	if d.rsClient != nil {
		a, err := d.rsClient.Assertion()
		if err != nil {
			s.k.Fatal("rs-assertion", "%v", err)
		}
		t, err := d.rsClient.Introspect(c35Ctx, a, v)
		if err != nil {
			return false, nil, err
		}
		return t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, t, nil
	}
	res, err := d.w.Introspect(c35Ctx, d.iss, d.rsReg, v)
	if err != nil {
		return false, nil, err
	}
	return res.Token.GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && token.IsUsable(res.Token), res.Token, nil
}

// c35Start makes a session.
func c35Start(k *kit.Case, d *c35Dep, cfg *c35Cfg, a *c35Actor) *c35Session {
	s := &c35Session{k: k, cfg: cfg, d: d, a: a, art: arts{}, old: map[string]string{}}
	s.scope = "openid"
	if cfg.offline {
		s.scope += " offline_access"
	}
	s.scope += " " + kit.Pick(k.R, "read", "write", "read write", "a:b")
	s.aud = d.api
	s.sub = a.user
	if (cfg.flow == "par" || cfg.flow == "jar") && cfg.pairwise {
		var err error
		if s.sub, err = d.pw.Encode(a.reg.SectorIdentifier, a.user); err != nil {
			k.Fatal("pairwise", "%v", err)
		}
		k.Check(s.sub != a.user, "pairwise", "pairwise subject equals the user")
	}
	if cfg.flow == "cc" {
		s.sub = a.reg.ClientId
		if cfg.web {
			s.scope, s.aud = "", ""
		}
	}
	return s
}

// step performs an honest step, which must succeed.
func (s *c35Session) step(step string) bool {
	s.prepare(step)
	err := s.do(step, s.art, true)
	if step == "pending" {
		ok := s.k.Check(err != nil, "unapproved", "tokens before the approval")
		if s.cfg.web {
			s.k.Check(text(s.lastBody, "err")+text(s.lastBody, "error") == "authorization_pending", "pending", "unapproved device answered %v", s.lastBody)
		} else {
			s.k.Check(strings.Contains(fmt.Sprint(err), "authorization_pending"), "pending", "unapproved device answered %v", err)
		}
		return ok
	}
	for _, n := range []string{"assertion", "proof", "request"} {
		if s.art[n] != "" {
			s.old[step+" "+n] = s.art[n]
		}
	}
	s.k.Event("step_" + step)
	return s.k.Check(err == nil || s.broken, "honest-refused", "%s: honest %s refused: %v", s.cfg, step, err) && err == nil
}

type c35Sub struct {
	art, how, value string
	at              string // step at which it must be refused (default: the current one)
	wait            time.Duration
	inactive        bool
	spends          bool // consumes an artifact of the other session
}

// different tells whether the altered JWS differs by more than its spelling.
func c35Altered(k *kit.Case, v string) string {
	for i := 0; i < 30; i++ {
		n := kit.NearMiss(k.R, v)
		if i%3 == 0 && strings.Count(v, ".") == 2 {
			// change of a claim, the signature kept
			p := strings.Split(v, ".")
			b := kit.MutateBytes(k.R, []byte(p[i/3%3]))
			p[i/3%3] = string(b)
			n = strings.Join(p, ".")
		}
		if n != v && strings.TrimSpace(n) != v && !kit.SameContent(n, v) {
			return n
		}
	}
	return v + "x"
}

// subs lists the substitutions which the step must survive. o is the other session, having prepared the same step.
func (s *c35Session) subs(step string, o *c35Session) []c35Sub {
	k, cfg := s.k, s.cfg
	var out []c35Sub
	add := func(art, how, value string) *c35Sub {
		if value == "" || value == s.art[art] {
			return &c35Sub{}
		}
		out = append(out, c35Sub{art: art, how: how, value: value})
		return &out[len(out)-1]
	}
	altered := func(arts ...string) {
		for _, n := range arts {
			add(n, "altered", c35Altered(k, s.art[n]))
		}
	}
	proofs := func() {
		if !cfg.dpop {
			return
		}
		altered("proof")
		for n, v := range s.old {
			if strings.HasSuffix(n, " proof") {
				add("proof", "replayed "+n, v)
			}
		}
		tok := ""
		u, m := s.d.iss+c35Endpoint[step], "POST"
		if step == "resource" {
			tok, u, m = s.art["token"], s.d.api, "GET"
		}
		add("proof", "other method", s.proof(kit.Pick(k.R, "PUT", "DELETE", "HEAD"), u, tok))
		add("proof", "other url", s.proof(m, u+"/x", tok))
		add("proof", "other host", s.proof(m, strings.Replace(u, ".example", ".evil.example", 1), tok))
		if step == "resource" {
			add("proof", "other token", s.proof(m, u, "other"+tok))
			add("proof", "no token", s.proof(m, u, ""))
			add("proof", "other session", o.proof(m, u, tok))
		}
		out = append(out, c35Sub{art: "proof", how: "stale", value: s.proof(m, u, tok), wait: time.Minute})
	}
	stale := func() {
		out = append(out, c35Sub{art: "assertion", how: "expired", value: s.assertion(), wait: 5 * time.Minute})
	}
	foreign := !cfg.same
	switch step {
	case "par":
		altered("assertion", "request")
		stale()
		proofs()
		if foreign {
			add("assertion", "other", o.art["assertion"])
			add("request", "other", o.art["request"])
		}
		add("request", "signed by other", (&c35Session{k: k, a: &c35Actor{key: kit.NewKey("c35-foreign", s.a.key.Alg)}}).request(s.ar))
	case "authorize":
		altered("request")
		add("client_id", "altered", kit.NearMiss(k.R, s.art["client_id"]))
		if foreign {
			add("client_id", "other", o.art["client_id"])
			add("request", "other", o.art["request"])
		} else {
			*add("request", "other", o.art["request"]) = c35Sub{art: "request", how: "other", value: o.art["request"], at: "jarm", spends: cfg.flow == "par"}
		}
		add("request", "signed by other", (&c35Session{k: k, a: &c35Actor{key: kit.NewKey("c35-foreign", s.a.key.Alg)}}).request(s.ar))
		if cfg.flow == "par" {
			uri := func(u string) string {
				return s.request(&flowv1.AuthorizationRequest{ClientId: s.a.reg.ClientId, RequestUri: kit.Str(u)})
			}
			add("request", "altered uri", uri(kit.NearMiss(k.R, s.art["request_uri"])))
			if foreign {
				out = append(out, c35Sub{art: "request", how: "other uri", value: uri(o.art["request_uri"]), spends: true})
			} else {
				out = append(out, c35Sub{art: "request", how: "other uri", value: uri(o.art["request_uri"]), at: "jarm", spends: true})
			}
			if s.old["request_uri"] != "" {
				add("request", "used uri", uri(s.old["request_uri"]))
			}
			out = append(out, c35Sub{art: "request", how: "expired uri", value: s.art["request"], wait: 10 * time.Minute})
		}
	case "jarm":
		altered("response")
		add("response", "other", o.art["response"])
		evil := mkParty("c35-evil", s.d.as.key.Alg, "http://evil.example")
		res := &flowv1.AuthorizeResponse{State: s.ar.State, ClientId: s.a.reg.ClientId, ExpiresIn: 120, Code: "evil-code", Issuer: s.d.iss}
		forged, err := jarm.Encoder(evil.jarm()).Encode(c35Ctx, s.d.iss, res)
		if err == nil {
			add("response", "signed by other", forged)
		}
		mixed, err := s.d.enc.Encode(c35Ctx, "http://evil.example", &flowv1.AuthorizeResponse{State: s.ar.State, ClientId: s.a.reg.ClientId, ExpiresIn: 120, Code: "evil-code", Issuer: "http://evil.example"})
		if err == nil {
			add("response", "other issuer", mixed)
		}
		if s.old["response"] != "" {
			add("response", "replayed", s.old["response"])
		}
		out = append(out, c35Sub{art: "response", how: "expired", value: s.art["response"], wait: time.Hour})
	case "token":
		altered("assertion")
		stale()
		proofs()
		if foreign && cfg.flow != "cc" {
			add("assertion", "other", o.art["assertion"])
		}
		switch cfg.flow {
		case "par", "jar":
			altered("code", "verifier", "redirect_uri")
			out = append(out, c35Sub{art: "code", how: "other", value: o.art["code"], spends: true})
			add("verifier", "other", o.art["verifier"])
			for _, u := range s.a.reg.RedirectUris {
				add("redirect_uri", "other", u)
			}
			add("code", "used", s.old["code"])
			add("verifier", "challenge", s.ar.CodeChallenge)
			out = append(out, c35Sub{art: "code", how: "expired", value: s.art["code"], wait: time.Hour})
		case "device":
			altered("device_code")
			if foreign {
				add("device_code", "other", o.art["device_code"])
			}
			add("device_code", "user_code", s.art["user_code"])
			out = append(out, c35Sub{art: "device_code", how: "expired", value: s.art["device_code"], wait: 3 * time.Hour})
		}
	case "validate":
		altered("user_code")
		add("user_code", "device_code", s.art["device_code"])
		out = append(out, c35Sub{art: "user_code", how: "expired", value: s.art["user_code"], wait: 3 * time.Hour})
	case "device":
		altered("assertion", "client_id")
		stale()
	case "resource":
		altered("token")
		proofs()
		if cfg.dpop {
			add("token", "other", o.art["token"])
		}
		add("token", "refresh token", s.art["rt"]) // only useful when the proof is not for it
		add("token", "revoked", s.old["revoked"])
	case "introspect":
		altered("assertion", "token")
		stale()
	case "refresh":
		altered("assertion", "rt")
		stale()
		proofs()
		if foreign {
			add("assertion", "other", o.art["assertion"])
			add("rt", "other", o.art["rt"])
		}
		add("rt", "access token", s.art["token"])
		add("rt", "revoked", s.old["revoked"])
	case "exchange":
		altered("assertion", "token")
		stale()
		proofs()
		add("token", "refresh token", s.art["rt"])
		add("token", "revoked", s.old["revoked"])
	case "revoke":
		for _, x := range []c35Sub{{art: "assertion", how: "altered", value: c35Altered(k, s.art["assertion"])}, {art: "assertion", how: "other", value: o.art["assertion"]},
			{art: "token", how: "altered", value: c35Altered(k, s.art["token"])}, {art: "token", how: "other", value: o.art["token"]}, {art: "assertion", how: "expired", value: s.assertion(), wait: 5 * time.Minute}} {
			if x.how == "other" && !foreign || x.value == "" {
				continue
			}
			x.inactive = true
			out = append(out, x)
		}
	}
	if !cfg.dpop && step == "resource" {
		// a bearer refresh token shown to the resource server is active and unbound: that server must look at its type
		var keep []c35Sub
		for _, x := range out {
			if x.how != "refresh token" {
				keep = append(keep, x)
			}
		}
		out = keep
	}
	var keep []c35Sub
	for _, x := range out {
		if x.art != "" && x.value != "" {
			keep = append(keep, x)
		}
	}
	return keep
}

var c35Curve = elliptic.P256()

func c35Configs(k *kit.Case, web bool) *c35Cfg {
	r := k.R
	cfg := &c35Cfg{web: web, dpop: r.Intn(3) > 0, offline: r.Intn(3) > 0, pairwise: r.Intn(2) == 0, same: r.Intn(3) == 0}
	cfg.flow = kit.Pick(r, "jar", "par", "par", "par", "device", "cc")
	cfg.gen = kit.Pick(r, "jwt", "jwt", "verifiable", "opaque")
	cfg.mode = kit.Pick(r, "", "query.jwt", "query.jwt", "fragment.jwt", "form_post.jwt")
	cfg.alg = kit.Pick(r, "ES256", "ES384", "EdDSA", "RS256", "PS256")
	cfg.dalg = kit.Pick(r, "ES256", "ES384", "EdDSA")
	if web {
		cfg.alg, cfg.dalg = "ES384", "ES384"
		if cfg.flow == "par" {
			cfg.dpop = true // the handler insists
		}
		if cfg.gen == "jwt" && cfg.flow == "cc" {
			cfg.gen = "verifiable" // the example requests no audience
		}
		cfg.mode = kit.Pick(r, "", "query.jwt")
	}
	return cfg
}

// c35Run drives two parallel sessions; one artifact of the first is replaced at one step.
func c35Run(k *kit.Case, web bool, mem *memTransport) {
	cfg := c35Configs(k, web)
	slot := fmt.Sprint(cfg.gen, k.R.Intn(3))
	d := mem.deps[slot]
	if d == nil {
		d = c35Deploy(k, "as", cfg.gen, web)
		mem.deps[slot] = d
	}
	if web && d.rsClient == nil {
		mem.hosts[strings.TrimPrefix(d.iss, "http://")] = d.mux
		jwkb, _ := json.Marshal(kit.NewKey("c35-rs", "ES384").PrivJWK())
		cl, err := solidclient.HTTP(c35Ctx, d.iss, &solidclient.Options{ClientID: d.rsReg.ClientId, JWK: jwkb, Scopes: []string{"openid"}})
		if err != nil {
			k.Fatal("discovery", "the client of the resource server cannot start: %v", err)
		}
		d.rsClient = cl
		k.Check(cl.Issuer() == d.iss && cl.ServerMetadata().GetTokenEndpoint() == d.iss+"/token", "metadata", "metadata %v", cl.ServerMetadata())
		ks, _, err := cl.PublicKeys(c35Ctx)
		if k.Check(err == nil, "metadata", "keys: %v", err) {
			k.Check(len(ks.Keys) == 1 && ks.Keys[0].KeyID == d.as.key.Kid, "metadata", "keys %v", ks)
		}
	}
	users := []string{"alice", "bob"}
	if web {
		users = []string{"hello", "hello"}
	}
	ca := c35Client(k, d, "client-a", cfg.alg, cfg)
	cb := ca
	if !cfg.same {
		cb = c35Client(k, d, "client-b", cfg.alg, cfg)
	}
	a := c35Start(k, d, cfg, ca.session(users[0], "c35-dpop-a", cfg.dalg))
	b := c35Start(k, d, cfg, cb.session(users[1], "c35-dpop-b", cfg.dalg))
	// an earlier session of the same actor leaves used artifacts behind
	if k.R.Intn(2) == 0 {
		p := c35Start(k, d, cfg, a.a)
		for _, st := range cfg.steps() {
			if !p.step(st) {
				return
			}
			if st == "revoke" {
				a.old["revoked"] = p.art["token"]
			}
		}
		for n, v := range p.old {
			a.old["earlier "+n] = v
		}
		for _, n := range []string{"code", "request_uri", "response"} {
			a.old[n] = p.art[n]
		}
	}
	steps := cfg.steps()
	attackAt := k.R.Intn(len(steps) + 1)
	attack := ""
	for i, st := range steps {
		if i > 0 && k.R.Intn(6) == 0 {
			time.Sleep(time.Duration(k.R.Intn(20)) * time.Second)
		}
		if i == attackAt && st != "pending" {
			a.prepare(st)
			b.prepare(st)
			if subs := a.subs(st, b); len(subs) > 0 {
				x := subs[k.R.Intn(len(subs))]
				attack = st + " " + x.art + " " + x.how
				k.Log("%s: %s", cfg, attack)
				if x.wait > 0 {
					time.Sleep(x.wait)
					a.broken = true // other artifacts may have expired with it
					b.broken = true
					// everything else is fresh
					if x.art != "assertion" && a.art["assertion"] != "" {
						a.art["assertion"] = a.assertion()
					}
					if x.art != "proof" && cfg.dpop && c35Endpoint[st] != "" {
						a.art["proof"] = a.proof("POST", d.iss+c35Endpoint[st], "")
					}
				}
				bad := a.art.with(x.art, x.value)
				err := a.do(st, bad, false)
				if x.at != "" {
					if err == nil {
						err = a.do(x.at, bad, false)
					}
				}
				if x.spends {
					b.broken = true
				}
				if x.inactive { // a revocation may answer anything but must not touch the tokens
					for _, v := range []*c35Session{a, b} {
						act, _, e := v.introspection(v.assertion(), v.art["token"])
						if x.wait == 0 {
							k.Check(e == nil && act, "wrong-revocation", "%s: after a revocation with %s a token is not active (%v)", cfg, attack, e)
						}
					}
				} else {
					k.Check(err != nil, "substitution", "%s: %s was accepted", cfg, attack)
				}
				k.Event("attack")
				a.broken = true // the adversary may have spent what the honest party needs
				k.Event("attack_" + st)
			}
		}
		if !b.step(st) && !b.broken {
			return
		}
		okb := true
		if b.broken && k.R.Intn(1) == 0 {
			okb = b.alive(st)
		}
		if !a.step(st) {
			if !a.broken {
				return
			}
			if st != "introspect" && st != "resource" && st != "revoke" {
				// nothing more to do for this session
				if !okb {
					break
				}
				for _, rest := range steps[i+1:] {
					if !b.broken && !b.step(rest) {
						return
					}
				}
				break
			}
		}
		if !okb {
			break
		}
	}
	k.Check(a.art["token"] == "" || a.art["token"] != b.art["token"], "shared-token", "two sessions got the same token")
	k.Event("run_" + cfg.flow)
	if attack == "" {
		k.Event("honest")
	}
	k.Sig("%s | %s", cfg, attack)
}

// alive tells whether the session got what the step produces.
func (s *c35Session) alive(step string) bool {
	switch step {
	case "par":
		return s.art["request_uri"] != ""
	case "authorize":
		return s.art["response"] != ""
	case "jarm":
		return s.art["code"] != ""
	case "token":
		return s.art["token"] != ""
	}
	return true
}

func c35Drive(n, big int, web bool) func(c *kit.Ctx) {
	return func(c *kit.Ctx) {
		c.Require("granted", 200)
		c.Require("honest", 5)
		c.Require("attack", 100)
		mem := &memTransport{hosts: map[string]http.Handler{}, deps: map[string]*c35Dep{}}
		if web {
			http.DefaultTransport = mem
			http.DefaultClient.Transport = mem
			log.SetOutput(io.Discard)
			if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				os.Stdout = f
			}
		}
		for i := 0; i < c.N(n, big); i++ {
			c.Case(fmt.Sprintf("%s/%d", c.Mode, i), func(k *kit.Case) { c35Run(k, web, mem) })
		}
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C35", Level: "exploration",
		Rule: "wired: all components wired together by the harness, two parallel sessions of every flow, honest except for one artifact of one session replaced (altered, of the other session, used before, expired, made by someone else, made for another endpoint); http: the same over the HTTP handlers of the example authorization server with the real client SDK as resource server. " +
			"Distinct by configuration and substitution.",
		Assumptions: []string{"after a refused substitution the honest continuation of the attacked session may fail (codes and proofs may be spent) but must be consistent when it succeeds", "client assertions have no replay protection (C16) and are only judged altered, expired or of another client",
			"codes are not bound to the key proven when the request was pushed: the token is bound to the key proven at the token endpoint"},
		Modes: []kit.Mode{{Name: "wired", Bubble: true, Run: c35Drive(700, 30000, false)}, {Name: "wired2", Bubble: true, Run: c35Drive(700, 30000, false)}, {Name: "http", Bubble: true, Run: c35Drive(500, 20000, true)}},
	})
}
