package checks

import (
	"context"
	"fmt"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	solidclient "zntr.io/solid/client"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C40", Level: "exploration",
		Rule: "every call is made with a context of its own which carries a marker, a cancellation and a deadline; every collaborator (storages, generators, key and key set providers, signers, verifiers, encrypters, the HTTP transport) is a wrapper which looks at the context it gets. In some calls a collaborator makes the caller give up and waits for the end of its context. " +
			"Oracles: the marker is that of a call which has not returned, the deadline is not later than the caller's, a waiting collaborator is released when the caller gives up and the call then returns. Distinct by (call, collaborator operations, point given up).",
		Assumptions: []string{"dpop.Prover.Prove takes no context", "whether in-memory storages themselves look at the context is not judged"},
		Modes:       []kit.Mode{{Name: "services", Bubble: true, Run: c40Services}, {Name: "components", Bubble: true, Run: c40Components}, {Name: "race", Race: true, Run: c40Race}},
	})
}

type c40Key struct{}

type c40Call struct {
	name     string
	ops      atomic.Int64
	done     atomic.Bool
	park     int64
	released atomic.Bool
	cancel   context.CancelFunc
	deadline time.Time
}

type c40Mon struct{ k *kit.Case }

// hook looks at the context of one use of a collaborator.
func (m *c40Mon) hook(ctx context.Context, op string, do func() error) error {
	m.k.Event("uses")
	c, _ := ctx.Value(c40Key{}).(*c40Call)
	if c == nil {
		m.k.Fail("context-lost", "%s called without the context of the request", op)
		return do()
	}
	m.k.Check(!c.done.Load(), "context-late", "%s called for %s, which has returned", op, c.name)
	dl, ok := ctx.Deadline()
	m.k.Check(ok && !dl.After(c.deadline), "deadline-lost", "%s of %s called without the deadline of the request", op, c.name)
	if n := c.ops.Add(1); n == c.park {
		c.cancel()
		select {
		case <-ctx.Done():
			c.released.Store(true)
			m.k.Event("released")
			m.k.AddSig("released " + c.name + " " + op)
			return ctx.Err()
		case <-time.After(5 * time.Second):
			m.k.Fail("not-released", "%s of %s not released when the caller gave up", op, c.name)
		}
	}
	m.k.AddSig(c.name + " " + op)
	return do()
}

func (m *c40Mon) call(name string, park int, f func(ctx context.Context) error) (*c40Call, error) {
	c := &c40Call{name: name, park: int64(park), deadline: time.Now().Add(time.Minute)}
	base := context.WithValue(context.Background(), c40Key{}, c)
	ctx, cancel := context.WithDeadline(base, c.deadline)
	defer cancel()
	c.cancel = cancel
	err := f(ctx)
	c.done.Store(true)
	m.k.Event("calls")
	m.k.Eval(1)
	return c, err
}

// c40Flow goes through all the endpoints; the steps are named. It stops after the step in which the caller gave up.
func c40Flow(m *c40Mon, w *kit.World, iss string, cl *clientv1.Client, parkAt, park int) {
	k := m.k
	n := 0
	stop := false
	step := func(name string, want bool, f func(ctx context.Context) error) {
		if stop {
			return
		}
		p := 0
		if n == parkAt {
			p = park
		}
		n++
		c, err := m.call(name, p, f)
		if p > 0 && c.released.Load() {
			stop = true
			return
		}
		k.Check((err == nil) == want, "unexpected", "%s: %v", name, err)
		k.Check(c.ops.Load() > 0, "no-use", "%s used no collaborator", name)
	}
	ar, v := kit.AuthReq(k.R, cl, "openid offline_access")
	ar.Prompt = kit.Str("consent")
	var code, uri string
	var dev *flowv1.DeviceAuthorizationResponse
	var tr *flowv1.TokenResponse
	tok := func(name string, want bool, req func() *flowv1.TokenRequest) {
		step(name, want, func(ctx context.Context) error {
			res, err := w.Token.Token(ctx, req())
			if err == nil {
				tr = res
			}
			return err
		})
	}
	step("register", true, func(ctx context.Context) error {
		res, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar)})
		uri = res.GetRequestUri()
		return err
	})
	step("authorize pushed", true, func(ctx context.Context) error {
		_, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "u", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: &uri}})
		return err
	})
	step("authorize unknown", false, func(ctx context.Context) error {
		bad := uri + "x"
		_, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "u", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: &bad}})
		return err
	})
	step("authorize", true, func(ctx context.Context) error {
		res, err := w.Code(ctx, iss, "u", cl, ar)
		code = res.GetCode()
		return err
	})
	tok("code unknown", false, func() *flowv1.TokenRequest { return kit.CodeReq(iss, cl, code+"x", ar.RedirectUri, v) })
	tok("code", true, func() *flowv1.TokenRequest { return kit.CodeReq(iss, cl, code, ar.RedirectUri, v) })
	tok("code again", false, func() *flowv1.TokenRequest { return kit.CodeReq(iss, cl, code, ar.RedirectUri, v) })
	tok("refresh", true, func() *flowv1.TokenRequest { return kit.RefreshReq(iss, cl, tr.GetRefreshToken().GetValue()) })
	tok("refresh unknown", false, func() *flowv1.TokenRequest { return kit.RefreshReq(iss, cl, "unknown") })
	step("device authorize", true, func(ctx context.Context) error {
		res, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid"), Audience: kit.Str("https://api.example/")})
		dev = res
		return err
	})
	tok("device pending", false, func() *flowv1.TokenRequest { return kit.DeviceReq(iss, cl, dev.GetDeviceCode()) })
	step("device validate", true, func(ctx context.Context) error {
		_, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "u", UserCode: dev.GetUserCode()})
		return err
	})
	tok("device", true, func() *flowv1.TokenRequest { return kit.DeviceReq(iss, cl, dev.GetDeviceCode()) })
	tok("client credentials", true, func() *flowv1.TokenRequest {
		return kit.CCReq(iss, cl, kit.Str("read"), kit.Str("https://api.example/"))
	})
	tok("exchange", true, func() *flowv1.TokenRequest {
		return kit.ExchangeReq(iss, cl, tr.GetAccessToken().GetValue(), nil, kit.Str(kit.ResBackend))
	})
	var val string
	step("introspect", true, func(ctx context.Context) error {
		val = tr.GetAccessToken().GetValue()
		_, err := w.Introspect(ctx, iss, cl, val)
		return err
	})
	step("revoke", true, func(ctx context.Context) error {
		_, err := w.Revoke(ctx, iss, cl, val)
		return err
	})
	step("introspect unknown", true, func(ctx context.Context) error {
		_, err := w.Introspect(ctx, iss, cl, val+"x")
		return err
	})
	if !stop {
		k.Event("flows")
	}
}

func c40Services(c *kit.Ctx) {
	c.Require("uses", 2000)
	c.Require("released", 80)
	c.Require("flows", 30)
	for i := 0; i < c.N(300, 10000); i++ {
		c.Case(fmt.Sprintf("services/%d", i), func(k *kit.Case) {
			m := &c40Mon{k}
			w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque")), m.hook)
			cl := w.Client(nil)
			iss := kit.Issuer(k.R)
			c40Flow(m, w, iss, cl, k.R.Intn(26), 1+k.R.Intn(4))
			time.Sleep(10 * time.Second) // whatever was left behind shows up now
		})
	}
}

// c40Enc is an encrypter.
type c40Enc struct{ m *c40Mon }

func (e c40Enc) Encrypt(ctx context.Context, _, tok string, _ []byte) (string, error) {
	return tok, e.m.hook(ctx, "encrypt", func() error { return nil })
}

// c40Ser is a signer.
type c40Ser struct {
	m *c40Mon
	token.Serializer
}

func (s c40Ser) Serialize(ctx context.Context, claims any) (out string, err error) {
	err = s.m.hook(ctx, "serialize", func() error {
		var e error
		out, e = s.Serializer.Serialize(ctx, claims)
		return e
	})
	return out, err
}

// c40Ver is a verifier.
type c40Ver struct {
	m *c40Mon
	token.Verifier
}

func (s c40Ver) Claims(ctx context.Context, t string, claims any) error {
	return s.m.hook(ctx, "claims", func() error { return s.Verifier.Claims(ctx, t, claims) })
}

// c40RT is the transport of the client.
type c40RT struct {
	h *scriptHost
	m atomic.Pointer[c40Mon]
}

func (t *c40RT) RoundTrip(r *http.Request) (res *http.Response, err error) {
	do := func() error {
		var e error
		res, e = t.h.RoundTrip(r)
		return e
	}
	if m := t.m.Load(); m != nil {
		err = m.hook(r.Context(), "http "+r.Method, do)
	} else {
		err = do()
	}
	return res, err
}

func c40Components(c *kit.Ctx) {
	h := &scriptHost{base: "http://as.example"}
	rt := &c40RT{h: h}
	http.DefaultTransport = rt
	http.DefaultClient.Transport = rt
	c.Require("uses", 2000)
	c.Require("released", 80)
	key := kit.NewKey("c40", "ES256")
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{key.JWK()}}
	for i := 0; i < c.N(60, 3000); i++ {
		c.Case(fmt.Sprintf("components/%d", i), func(k *kit.Case) {
			m := &c40Mon{k}
			prov := func(ctx context.Context) (*jose.JSONWebKey, error) {
				return key.PrivJWK(), m.hook(ctx, "key", func() error { return nil })
			}
			sets := func(ctx context.Context) (*jose.JSONWebKeySet, error) {
				return set, m.hook(ctx, "key set", func() error { return nil })
			}
			ser := func(s token.Serializer) token.Serializer { return c40Ser{m, s} }
			ver := c40Ver{m, jwt.DefaultVerifier(sets, allAlgs20())}
			now := uint64(time.Now().Unix())
			tk := &tokenv1.Token{TokenId: "id", Issuer: "https://i.example", Value: "v", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Issuer: "https://i.example", Subject: "s", Audience: "a", ClientId: "c", Scope: "x", IssuedAt: now, NotBefore: now, ExpiresAt: now + 100}}
			w := kit.NewWorld(kit.NewStores(""), m.hook)
			type comp struct {
				name string
				f    func(ctx context.Context) error
			}
			var comps []comp
			add := func(name string, f func(ctx context.Context) error) { comps = append(comps, comp{name, f}) }
			gen := func(name string, g token.Generator) {
				add(name, func(ctx context.Context) error { _, err := g.Generate(ctx, tk); return err })
			}
			rtk := kit.Clone(tk)
			for _, f := range []string{"jwt", "cwt"} {
				a, r := jwt.AccessTokenSigner(jose.ES256, prov), jwt.RefreshTokenSigner(jose.ES256, prov)
				n := jwt.TokenIntrospection(jose.ES256, prov)
				if f == "cwt" {
					a, r, n = cwt.AccessTokenSigner(cose.ES256, prov), cwt.RefreshTokenSigner(cose.ES256, prov), cwt.TokenIntrospection(cose.ES256, prov)
				}
				gen(f+" access token", token.AccessToken(ser(a)))
				add(f+" refresh token", func(ctx context.Context) error { _, err := token.RefreshToken(ser(r)).Generate(ctx, rtk); return err })
				gen(f+" introspection", token.Introspection(ser(n)))
				gen(f+" encrypted", token.AccessToken(token.Encryption(ser(a), c40Enc{m})))
			}
			for name, s := range map[string]token.Serializer{"assertion": jwt.ClientAssertionSigner(jose.ES256, prov), "metadata": jwt.ServerMetadata(jose.ES256, prov), "proof": jwt.DPoPSigner(jose.ES256, prov)} {
				add("signer "+name, func(ctx context.Context) error { _, err := s.Serialize(ctx, map[string]any{"a": "b"}); return err })
			}
			resp := &flowv1.AuthorizeResponse{ClientId: "c", Code: "code", State: "s", ExpiresIn: 60, Issuer: "https://i.example"}
			add("jarm encode", func(ctx context.Context) error {
				_, err := jarm.Encoder(ser(jwt.JARMSigner(jose.ES256, prov))).Encode(ctx, "https://i.example", resp)
				return err
			})
			add("request encode", func(ctx context.Context) error {
				_, err := jwsreq.AuthorizationRequestEncoder(ser(jwt.RequestSigner(jose.ES256, prov))).Encode(ctx, &flowv1.AuthorizationRequest{ClientId: "c", Scope: "openid"})
				return err
			})
			plain := func(context.Context) (*jose.JSONWebKey, error) { return key.PrivJWK(), nil }
			bg := context.Background()
			jt, err := jarm.Encoder(jwt.JARMSigner(jose.ES256, plain)).Encode(bg, "https://i.example", resp)
			if err != nil {
				k.Fatal("setup", "%v", err)
			}
			rq, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, plain)).Encode(bg, &flowv1.AuthorizationRequest{ClientId: "c", Scope: "openid"})
			if err != nil {
				k.Fatal("setup", "%v", err)
			}
			add("jarm decode", func(ctx context.Context) error {
				_, err := jarm.Decoder("https://i.example", ver).Decode(ctx, "c", jt)
				return err
			})
			add("request decode", func(ctx context.Context) error {
				_, err := jwsreq.AuthorizationRequestDecoder(ver).Decode(ctx, rq)
				return err
			})
			add("dpop", func(ctx context.Context) error {
				p := key.Token("dpop+jwt", map[string]any{"jti": kit.RandString(k.R, 16, kit.Alnum), "htm": "POST", "htu": "https://api.example/x", "iat": time.Now().Unix()}, map[string]any{"jwk": bareJWK(key), "kid": nil})
				_, err := dpop.DefaultVerifier(w.S.DPoP, c40Ver{m, jwt.EmbeddedKeyVerifier(allAlgs20())}).Verify(ctx, "POST", "https://api.example/x", p)
				return err
			})
			cl := w.Client(func(c *clientv1.Client) { c.Jwks = kit.JWKS(key.JWK()) })
			claims := func(n int64) map[string]any {
				return map[string]any{"iss": cl.ClientId, "sub": cl.ClientId, "aud": "https://i.example/token", "exp": n + 100, "iat": n, "jti": kit.RandString(k.R, 12, kit.Alnum), "nonce": "n"}
			}
			auth := func(name, typ string, p clientauthentication.AuthenticationProcessor, mk func() string) {
				add(name, func(ctx context.Context) error {
					v := mk()
					_, err := p.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &v})
					return err
				})
			}
			auth("private_key_jwt", kit.AssertJWT, clientauthentication.PrivateKeyJWT(w.S.Clients, allAlgs20()), func() string {
				return kit.MakeJWS(map[string]any{"alg": "ES256", "kid": key.Kid}, kit.J(claims(time.Now().Unix())), "ES256", key.Priv)
			})
			auth("attestation", kit.AssertAttest, clientauthentication.ClientAttestation(w.S.Clients, allAlgs20()), func() string {
				n := time.Now().Unix()
				inst := kit.NewKey("c40-inst", "ES256")
				a := claims(n)
				a["cnf"] = map[string]any{"jwk": bareJWK(inst)}
				delete(a, "aud")
				return kit.MakeJWS(map[string]any{"alg": "ES256", "kid": key.Kid, "typ": "jwt-client-attestation+jwt"}, kit.J(a), "ES256", key.Priv) + "~" +
					kit.MakeJWS(map[string]any{"alg": "ES256", "typ": "jwt-client-attestation-pop+jwt"}, kit.J(claims(n)), "ES256", inst.Priv)
			})
			// the client
			s := h.add(k.R)
			s.set(s.sub("token_endpoint"), func(w http.ResponseWriter, _ *scriptReq) {
				sendJSON(w, 200, map[string]any{"access_token": "x", "token_type": "Bearer"})
			})
			s.set(s.sub("introspection_endpoint"), func(w http.ResponseWriter, _ *scriptReq) { sendJSON(w, 200, map[string]any{"active": true}) })
			_, opts := c33Options(k.R)
			rt.m.Store(nil)
			hc, err := solidclient.HTTP(bg, s.issuer, opts)
			if err != nil {
				k.Fatal("setup", "%v", err)
			}
			rt.m.Store(m)
			defer rt.m.Store(nil)
			add("client discovery", func(ctx context.Context) error { _, err := solidclient.HTTP(ctx, s.issuer, opts); return err })
			add("client token", func(ctx context.Context) error { _, err := hc.ClientCredentials(ctx, "a"); return err })
			add("client introspection", func(ctx context.Context) error { _, err := hc.Introspect(ctx, "a", "t"); return err })
			add("client keys", func(ctx context.Context) error { _, _, err := hc.PublicKeys(ctx); return err })
			k.R.Shuffle(len(comps), func(a, b int) { comps[a], comps[b] = comps[b], comps[a] })
			for _, x := range comps {
				park := 0
				if k.R.Intn(3) == 0 {
					park = 1 + k.R.Intn(3)
				}
				cc, err := m.call(x.name, park, x.f)
				if cc.released.Load() {
					k.Check(err != nil, "succeeded", "%s succeeded although its collaborator failed", x.name)
					continue
				}
				k.Check(err == nil, "unexpected", "%s: %v", x.name, err)
				k.Check(cc.ops.Load() > 0, "no-use", "%s used no collaborator", x.name)
			}
			// keys which are cached, near and after their end
			s.set(s.sub("jwks_uri"), func(w http.ResponseWriter, _ *scriptReq) {
				sendJSON(w, 200, map[string]any{"keys": []any{key.JWK()}, "exp": time.Now().Unix() + int64(1+k.R.Intn(20))})
			})
			for j := 0; j < 6; j++ {
				_, err := m.call("client cached keys", 0, func(ctx context.Context) error { _, _, err := hc.PublicKeys(ctx); return err })
				k.Check(err == nil, "unexpected", "cached keys: %v", err)
				time.Sleep(time.Duration(k.R.Intn(12000)) * time.Millisecond)
			}
			time.Sleep(10 * time.Second)
		})
	}
}

func c40Race(c *kit.Ctx) {
	c.Require("uses", 1000)
	for i := 0; i < c.N(15, 200); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			m := &c40Mon{k}
			w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque")), m.hook)
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				cl := w.Client(nil)
				sub := &c40Mon{&kit.Case{Ctx: k.Ctx, Label: k.Label, R: k.Rng(fmt.Sprint(k.Label, g))}}
				iss := kit.Issuer(k.R)
				park := sub.k.R.Intn(40)
				k.Go(&wg, func() { c40Flow(sub, w, iss, cl, park, 1) })
			}
			wg.Wait()
			k.Sig("race %d", i)
		})
	}
}
