package checks

import (
	"context"
	"crypto/sha256"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/profile"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C15", Level: "exploration",
		Rule: "shapes: every field of every request of every kind, set to nothing, blanks, separators alone and extremes, one after the other; services: valid requests of every kind with 0-5 hostile field changes (nested ones included), absent requests, empty requests and requests through the wire codec, sent to shared services; tokens: every decoder, verifier and authenticator given garbage, mutations, and correctly signed tokens whose header and payload are hostile JSON (nesting, types, duplicates, huge numbers, bad keys); parse: non-token decoders; race: a parallel mix. " +
			"Oracles: no panic, no hang (watchdog), error implies response, success implies result, failure implies no result, text without any valid part is refused. Non-trivial: a distinct (entry point, changed path or input class, answer).",
		Assumptions: []string{"the Client field of a request is filled by an authenticator but treated as hostile too", "absence of elements inside repeated fields cannot be transmitted and is not tried"},
		Modes:       []kit.Mode{{Name: "services", Run: c15Services}, {Name: "shapes", Run: c15Shapes}, {Name: "tokens", Run: c15Tokens}, {Name: "parse", Run: c15Parse}, {Name: "race", Race: true, Run: c15Race}},
	})
}

// endpoint sends a request of its type; the answer is judged by its shape only.
type endpoint struct {
	name string
	mk   func(k *kit.Case, w *kit.World) proto.Message
	nilR proto.Message
	call func(w *kit.World, m proto.Message) (res proto.Message, err error)
	ok   func(res proto.Message) bool
}

func isNilMsg(m proto.Message) bool {
	return m == nil || reflect.ValueOf(m).Kind() == reflect.Pointer && reflect.ValueOf(m).IsNil()
}

func c15Endpoints() []endpoint {
	ctx := context.Background()
	iss := "https://issuer.example/a"
	client := func(k *kit.Case, w *kit.World) *clientv1.Client { return w.Client(nil) }
	code := func(k *kit.Case, w *kit.World, cl *clientv1.Client) *flowv1.TokenRequest {
		ar, v := kit.AuthReq(k.R, cl, kit.Pick(k.R, "openid", "openid offline_access"))
		res, err := w.Code(ctx, iss, "sub", cl, ar)
		if err != nil {
			k.Fatal("legit-refused", "authorize: %v", err)
		}
		return kit.CodeReq(iss, cl, res.Code, ar.RedirectUri, v)
	}
	tokens := func(k *kit.Case, w *kit.World, cl *clientv1.Client) *flowv1.TokenResponse {
		return refreshTokenOf(k, w, iss, "sub", cl, "openid offline_access", nil)
	}
	tok := func(name string, mk func(k *kit.Case, w *kit.World) proto.Message) endpoint {
		return endpoint{name, mk, (*flowv1.TokenRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Token.Token(ctx, m.(*flowv1.TokenRequest))
		}, func(res proto.Message) bool { return res.(*flowv1.TokenResponse).GetAccessToken().GetValue() != "" }}
	}
	device := func(k *kit.Case, w *kit.World) proto.Message {
		return &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: client(k, w).ClientId, Scope: kit.Str("openid"), Audience: kit.Str("https://api.example/")}
	}
	return []endpoint{
		{"authorize", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			ar, _ := kit.AuthReq(k.R, cl, kit.Pick(k.R, "openid profile", "openid offline_access", "openid offline_access"))
			ar.Prompt = kit.Pick(k.R, nil, kit.Str("consent"), kit.Str("login"))
			return &flowv1.AuthorizeRequest{Issuer: iss, Subject: "sub", Client: cl, Request: ar}
		}, (*flowv1.AuthorizeRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Authz.Authorize(ctx, m.(*flowv1.AuthorizeRequest))
		}, func(res proto.Message) bool { return res.(*flowv1.AuthorizeResponse).GetCode() != "" }},
		{"authorize-uri", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			ar, _ := kit.AuthReq(k.R, cl, kit.Pick(k.R, "openid profile", "openid offline_access", "openid offline_access"))
			ar.Prompt = kit.Pick(k.R, nil, kit.Str("consent"), kit.Str("login"))
			p, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar})
			if err != nil {
				k.Fatal("legit-refused", "register: %v", err)
			}
			return &flowv1.AuthorizeRequest{Issuer: iss, Subject: "sub", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: &p.RequestUri}}
		}, (*flowv1.AuthorizeRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Authz.Authorize(ctx, m.(*flowv1.AuthorizeRequest))
		}, func(res proto.Message) bool { return res.(*flowv1.AuthorizeResponse).GetCode() != "" }},
		{"register", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			ar, _ := kit.AuthReq(k.R, cl, kit.Pick(k.R, "openid profile", "openid offline_access", "openid offline_access"))
			ar.Prompt = kit.Pick(k.R, nil, kit.Str("consent"), kit.Str("login"))
			return &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar}
		}, (*flowv1.RegistrationRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Authz.Register(ctx, m.(*flowv1.RegistrationRequest))
		}, func(res proto.Message) bool { return res.(*flowv1.RegistrationResponse).GetRequestUri() != "" }},
		tok("code", func(k *kit.Case, w *kit.World) proto.Message {
			m := code(k, w, client(k, w))
			if k.R.Intn(2) == 0 {
				m.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "thumb"}
			}
			return m
		}),
		tok("cc", func(k *kit.Case, w *kit.World) proto.Message {
			return kit.CCReq(iss, client(k, w), kit.Str("read"), kit.Str("https://api.example/"))
		}),
		tok("device", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			d, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid offline_access"), Audience: kit.Str("https://api.example/")})
			if err != nil {
				k.Fatal("legit-refused", "device: %v", err)
			}
			if k.R.Intn(4) != 0 {
				if _, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "sub", UserCode: d.UserCode}); err != nil {
					k.Fatal("legit-refused", "device: %v", err)
				}
			}
			return kit.DeviceReq(iss, cl, d.DeviceCode)
		}),
		tok("refresh", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			return kit.RefreshReq(iss, cl, tokens(k, w, cl).RefreshToken.Value)
		}),
		tok("exchange", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			m := kit.ExchangeReq(iss, cl, tokens(k, w, cl).AccessToken.Value, kit.Str("openid"), kit.Str(kit.ResBackend))
			if k.R.Intn(3) == 0 {
				t := m.GetTokenExchange()
				t.ActorToken, t.ActorTokenType = kit.Str("actor"), kit.Str(kit.TypeAT)
			}
			return m
		}),
		{"introspect", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			return &tokenv1.IntrospectRequest{Issuer: iss, Client: cl, Token: tokens(k, w, cl).AccessToken.Value}
		}, (*tokenv1.IntrospectRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Token.Introspect(ctx, m.(*tokenv1.IntrospectRequest))
		}, func(res proto.Message) bool { return res.(*tokenv1.IntrospectResponse).GetToken() != nil }},
		{"revoke", func(k *kit.Case, w *kit.World) proto.Message {
			cl := client(k, w)
			t := tokens(k, w, cl)
			return &tokenv1.RevokeRequest{Issuer: iss, Client: cl, Token: kit.Pick(k.R, t.AccessToken.Value, t.RefreshToken.Value)}
		}, (*tokenv1.RevokeRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Token.Revoke(ctx, m.(*tokenv1.RevokeRequest))
		}, func(res proto.Message) bool { return true }},
		{"device-authorize", device, (*flowv1.DeviceAuthorizationRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Device.Authorize(ctx, m.(*flowv1.DeviceAuthorizationRequest))
		}, func(res proto.Message) bool {
			r := res.(*flowv1.DeviceAuthorizationResponse)
			return r.GetDeviceCode() != "" && r.GetUserCode() != ""
		}},
		{"device-validate", func(k *kit.Case, w *kit.World) proto.Message {
			d, err := w.Device.Authorize(ctx, device(k, w).(*flowv1.DeviceAuthorizationRequest))
			if err != nil {
				k.Fatal("legit-refused", "device: %v", err)
			}
			return &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "sub", UserCode: d.UserCode}
		}, (*flowv1.DeviceCodeValidationRequest)(nil), func(w *kit.World, m proto.Message) (proto.Message, error) {
			return w.Device.Validate(ctx, m.(*flowv1.DeviceCodeValidationRequest))
		}, func(res proto.Message) bool { return true }},
	}
}

type hasError interface{ GetError() *corev1.Error }

func c15Send(k *kit.Case, w *kit.World, e endpoint, m proto.Message, how string, must string) {
	k.Log("%s %s: %s", e.name, how, kit.Brief(m))
	start := time.Now()
	res, err := e.call(w, m)
	if d := time.Since(start); d > 20*time.Second {
		k.Fail("slow", "%s (%s) took %v", e.name, how, d)
	}
	k.Event("requests")
	k.Eval(1)
	answer := "ok"
	switch {
	case err != nil:
		answer = "refused"
		if !k.Check(!isNilMsg(res), "nil-response", "%s (%s): error %v with a nil response", e.name, how, err) {
			return
		}
		if pe, is := res.(hasError); is && pe.GetError() != nil {
			answer = pe.GetError().Err
		}
		k.Event("refused")
	default:
		if !k.Check(!isNilMsg(res), "nil-success", "%s (%s): success with a nil response", e.name, how) {
			return
		}
		k.Check(e.ok(res), "empty-success", "%s (%s): success without a result: %s", e.name, how, kit.Brief(res))
		k.Event("accepted")
	}
	if must != "" {
		k.Check((err == nil) == (must == "accept"), "decision", "%s (%s): %s, want %s (%v)", e.name, how, answer, must, err)
	}
	k.AddSig(e.name + "/" + how + "/" + answer)
}

func c15Paths(ps []string) string {
	if len(ps) != 1 {
		return fmt.Sprint(len(ps), " changes")
	}
	return ps[0]
}

func c15Services(c *kit.Ctx) {
	c.Require("requests", 5000)
	c.Require("accepted", 300)
	c.Require("refused", 1000)
	es := c15Endpoints()
	for i := 0; i < c.N(400, 12000); i++ {
		c.Case(fmt.Sprintf("services/%d", i), func(k *kit.Case) {
			k.Trivial()
			w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque")), nil)
			var pool []string
			// Honest twins: the server still serves after whatever it was sent.
			e := es[i%len(es)]
			c15Send(k, w, e, e.mk(k, w), "honest", map[bool]string{true: "", false: "accept"}[e.name == "device"])
			c15Send(k, w, e, e.nilR, "nil", "refuse")
			c15Send(k, w, e, e.nilR.ProtoReflect().New().Interface(), "empty", "refuse")
			for j := 0; j < 25; j++ {
				e := es[k.R.Intn(len(es))]
				if j < 12 {
					e = es[i%len(es)]
				}
				m := e.mk(k, w)
				paths := kit.Hostile(k.R, m.ProtoReflect(), 1+k.R.Intn(1+k.R.Intn(5)), pool)
				if k.R.Intn(8) == 0 { // through the wire
					b, err := proto.Marshal(m)
					if err == nil {
						n := m.ProtoReflect().New().Interface()
						if proto.Unmarshal(b, n) == nil {
							m = n
						}
					}
				}
				c15Send(k, w, e, m, c15Paths(paths), "")
				if len(pool) < 40 {
					pool = append(pool, kit.RandString(k.R, 32, kit.Alnum), "urn:solid:"+kit.RandString(k.R, 32, kit.Alnum))
				}
			}
			// Oneof wrappers without a message.
			for _, g := range []struct {
				gt string
				m  *flowv1.TokenRequest
			}{
				{kit.GrantCode, &flowv1.TokenRequest{Grant: &flowv1.TokenRequest_AuthorizationCode{}}}, {kit.GrantCC, &flowv1.TokenRequest{Grant: &flowv1.TokenRequest_ClientCredentials{}}},
				{kit.GrantDevice, &flowv1.TokenRequest{Grant: &flowv1.TokenRequest_DeviceCode{}}}, {kit.GrantRefresh, &flowv1.TokenRequest{Grant: &flowv1.TokenRequest_RefreshToken{}}},
				{kit.GrantExchange, &flowv1.TokenRequest{Grant: &flowv1.TokenRequest_TokenExchange{}}},
			} {
				g.m.Issuer, g.m.GrantType = "https://issuer.example/a", kit.Pick(k.R, kit.AllGrants...)
				if k.R.Intn(2) == 0 {
					g.m.GrantType = g.gt
				}
				g.m.Client = w.Client(nil)
				c15Send(k, w, tokEndpoint(es), g.m, "wrapper", map[bool]string{true: "refuse", false: ""}[g.m.GrantType != kit.GrantCC])
			}
			c15Send(k, w, e, e.mk(k, w), "honest-after", map[bool]string{true: "", false: "accept"}[e.name == "device"])
		})
	}
}

// c15Shapes changes every field of every kind of request, one at a time.
func c15Shapes(c *kit.Ctx) {
	c.Require("requests", 5000)
	c.Require("accepted", 300)
	c.Require("refused", 1000)
	for rep := 0; rep < c.N(4, 60); rep++ {
		for _, e := range c15Endpoints() {
			c.Case(fmt.Sprintf("shapes/%d/%s", rep, e.name), func(k *kit.Case) {
				k.Trivial()
				w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque")), nil)
				for _, s := range kit.Shapes(e.mk(k, w).ProtoReflect()) {
					m := e.mk(k, w)
					s.Do(m.ProtoReflect())
					c15Send(k, w, e, m, s.Path, "")
				}
			})
		}
	}
}

func tokEndpoint(es []endpoint) endpoint {
	for _, e := range es {
		if e.name == "code" {
			return e
		}
	}
	panic("no token endpoint")
}

// --- tokens

// consumer decodes text; ok tells whether it answered with a success and a result.
type consumer struct {
	name string
	hdr  map[string]any
	pay  map[string]any
	key  *kit.Key
	emb  bool
	// fresh names a claim which is new in every token
	fresh string
	run   func(k *kit.Case, tok string) (ok bool)
}

func c15Consumers(k *kit.Case) []*consumer {
	ctx := context.Background()
	algs := append(allAlgs20(), "HS256")
	w := kit.NewWorld(kit.NewStores(""), nil)
	now := time.Now().Unix()
	var out []*consumer
	key := c20Key("c15", kit.Pick(k.R, "ES256", "EdDSA", "RS256", "ES384", "PS256"))
	ks := func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{key.JWK()}}, nil
	}
	std := func(typ string) map[string]any { return map[string]any{"alg": key.Alg, "kid": key.Kid, "typ": typ} }
	verifier := func(name string, v token.Verifier, hdr map[string]any, emb bool) *consumer {
		return &consumer{name: name, hdr: hdr, pay: map[string]any{"iss": "https://issuer.example", "sub": "x", "exp": now + 100, "aud": []string{"a"}, "cnf": map[string]any{"jkt": "y"}}, key: key, emb: emb,
			run: func(k *kit.Case, tok string) bool {
				_ = v.Verify(tok)
				if t, err := v.Parse(tok); err == nil {
					if !k.Check(!types.IsNil(t) && t != nil, "empty-success", "%s.Parse succeeded without a token", name) {
						return false
					}
					_, _ = t.Algorithm()
					_, _ = t.Type()
					_, _ = t.KeyID()
					pk, perr := t.PublicKey()
					k.Check(perr != nil || !types.IsNil(pk), "empty-success", "PublicKey gives neither key nor error")
					th, terr := t.PublicKeyThumbPrint()
					k.Check((terr == nil) == (th != ""), "empty-success", "PublicKeyThumbPrint gives %q %v", th, terr)
					var cl map[string]any
					_ = t.Claims(pk, &cl)
					_ = t.Claims(key.Pub, &cl)
					_ = t.Claims(nil, &cl)
				} else {
					k.Check(types.IsNil(t) || t == nil, "result-with-error", "%s.Parse gives a token and error %v", name, err)
				}
				var cl map[string]any
				err := v.Claims(ctx, tok, &cl)
				_ = v.Claims(ctx, tok, &struct{ Iss []int }{})
				return err == nil
			}}
	}
	out = append(out, verifier("jwt", jwt.DefaultVerifier(ks, algs), std("at+jwt"), false))
	eh := std("dpop+jwt")
	delete(eh, "kid")
	eh["jwk"] = bareJWK(key)
	out = append(out, verifier("embedded", jwt.EmbeddedKeyVerifier(algs), eh, true))

	jd := jarm.Decoder("https://issuer.example", jwt.DefaultVerifier(ks, algs))
	out = append(out, &consumer{name: "jarm", hdr: std("jarm+jwt"), key: key,
		pay: map[string]any{"iss": "https://issuer.example", "aud": "client", "exp": now + 100, "code": "abc", "state": "s"},
		run: func(k *kit.Case, tok string) bool {
			r, err := jd.Decode(ctx, "client", tok)
			k.Check(err != nil || r != nil, "result", "jarm gives neither response nor error")
			k.Check(err == nil || r.GetCode() == "", "result", "jarm gives %v with error %v", r, err)
			return err == nil
		}})
	rd := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(ks, algs))
	out = append(out, &consumer{name: "jwsreq", hdr: std("oauth-authz-req+jwt"), key: key,
		pay: map[string]any{"client_id": "client", "scope": "openid", "state": "s", "response_type": "code"},
		run: func(k *kit.Case, tok string) bool {
			r, err := rd.Decode(ctx, tok)
			k.Check((err == nil) == (r != nil), "result", "jwsreq gives %v %v", r, err)
			return err == nil
		}})
	dv := dpop.DefaultVerifier(w.S.DPoP, jwt.EmbeddedKeyVerifier(algs))
	out = append(out, &consumer{name: "dpop", hdr: eh, key: key, emb: true,
		fresh: "jti", pay: map[string]any{"htm": "POST", "htu": "https://api.example/x", "iat": now, "ath": B64Sha("tok")},
		run: func(k *kit.Case, tok string) bool {
			th, err := dv.Verify(ctx, "POST", "https://api.example/x", tok)
			k.Check((err == nil) == (th != ""), "result", "dpop gives %q %v", th, err)
			th2, err2 := dv.Verify(ctx, "POST", "https://api.example/x", tok, dpop.WithTokenValue("tok"), dpop.WithTokenConfirmation(key.Thumb()))
			k.Check((err2 == nil) == (th2 != ""), "result", "dpop gives %q %v", th2, err2)
			return err == nil
		}})
	ac := authWorld(k, w, "c15", 2)
	pk := clientauthentication.PrivateKeyJWT(w.S.Clients, algs)
	auth := func(name string, p clientauthentication.AuthenticationProcessor, typ string, build func(tok string) string) func(k *kit.Case, tok string) bool {
		return func(k *kit.Case, tok string) bool {
			tok = build(tok)
			res, err := p.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &tok})
			k.Check(res != nil, "nil-response", "%s: nil response, error %v", name, err)
			k.Check((err == nil) == (res.GetClient() != nil), "result", "%s gives %v %v", name, res, err)
			return err == nil
		}
	}
	id := ac[0].c.ClientId
	ak := ac[0].keys[0]
	out = append(out, &consumer{name: "private_key_jwt", hdr: map[string]any{"alg": ak.Alg, "kid": ak.Kid}, key: ak,
		pay: map[string]any{"iss": id, "sub": id, "aud": "https://issuer.example/token", "exp": now + 100, "iat": now, "jti": "j"},
		run: auth("private_key_jwt", pk, kit.AssertJWT, func(s string) string { return s })})
	// attestation: either half is the hostile one, the other is honest
	att := clientauthentication.ClientAttestation(w.S.Clients, algs)
	tk := ac[1].keys[0]
	inst := kit.NewKey("c15-inst", "ES256")
	aPay := map[string]any{"iss": ac[1].c.ClientId, "sub": id, "exp": now + 100, "iat": now, "cnf": map[string]any{"jwk": bareJWK(inst)}}
	pPay := map[string]any{"iss": id, "aud": "https://issuer.example", "exp": now + 100, "jti": "j", "iat": now, "nonce": "n"}
	aHdr := map[string]any{"alg": tk.Alg, "kid": tk.Kid, "typ": "jwt-client-attestation+jwt"}
	pHdr := map[string]any{"alg": "ES256", "typ": "jwt-client-attestation-pop+jwt"}
	first := kit.MakeJWS(aHdr, kit.J(aPay), tk.Alg, tk.Priv)
	second := kit.MakeJWS(pHdr, kit.J(pPay), "ES256", inst.Priv)
	out = append(out, &consumer{name: "attestation", hdr: aHdr, pay: aPay, key: tk, run: auth("attestation", att, kit.AssertAttest, func(s string) string {
		if strings.Contains(s, "~") {
			return s
		}
		return s + "~" + second
	})})
	out = append(out, &consumer{name: "attestation-pop", hdr: pHdr, pay: pPay, key: inst, run: auth("attestation-pop", att, kit.AssertAttest, func(s string) string {
		if strings.Contains(s, "~") {
			return s
		}
		return first + "~" + s
	})})
	out = append(out, &consumer{name: "jwk", hdr: std("JWT"), pay: map[string]any{"iss": "x", "exp": now + 100}, key: key, run: func(k *kit.Case, tok string) bool {
		set, _ := ks(ctx)
		ok := false
		if t, err := josejwt.ParseSigned(tok, algs); err == nil {
			var cl map[string]any
			ok = jwk.ValidateToken(set, t, &cl) == nil
			k.Check(jwk.ValidateToken(&jose.JSONWebKeySet{}, t, &cl) != nil, "no-keys", "ValidateToken accepts with an empty key set")
		}
		if s, err := jose.ParseSigned(tok, algs); err == nil {
			_ = jwk.ValidateSignature(set, s)
			k.Check(jwk.ValidateSignature(&jose.JSONWebKeySet{}, s) != nil, "no-keys", "ValidateSignature accepts with an empty key set")
		}
		return ok
	}})
	return out
}

// B64Sha is the base64url SHA-256.
func B64Sha(s string) string {
	h := sha256.Sum256([]byte(s))
	return kit.B64(h[:])
}

func (x *consumer) honest(k *kit.Case) string {
	p := map[string]any{}
	for n, v := range x.pay {
		p[n] = v
	}
	if x.fresh != "" {
		p[x.fresh] = kit.RandString(k.R, 20, kit.Alnum)
	}
	return kit.MakeJWS(x.hdr, kit.J(p), x.key.Alg, x.key.Priv)
}

func c15Token(k *kit.Case, x *consumer) {
	valid := x.honest(k)
	in, how, must := "", "", ""
	switch k.R.Intn(12) {
	case 0:
		in, how, must = kit.Garbage(k.R, 300), "garbage", "refuse"
	case 1:
		in, how = string(kit.MutateBytes(k.R, []byte(valid))), "mutated"
	case 2:
		in, how = kit.NearMiss(k.R, valid), "near"
	case 3:
		p := strings.Split(valid, ".")
		p[k.R.Intn(3)] = kit.Pick(k.R, "", "=", "e30", "bnVsbA", "W10", kit.Garbage(k.R, 60))
		in, how, must = strings.Join(p, "."), "part", "refuse"
	case 4:
		in, how, must = strings.Repeat(kit.Pick(k.R, ".", "~", "eyJ.", valid+".", valid+"~", "A"), 1<<uint(k.R.Intn(13))), "repeat", "refuse"
		if in == valid+"~" || in == valid+"." {
			must = ""
		}
	case 5:
		in, how, must = string(kit.J(map[string]any{"payload": kit.B64(kit.J(x.pay)), "signatures": kit.Pick[any](k.R, nil, []any{}, []any{nil}, []any{map[string]any{}}, 1)})), "json-form", "refuse"
	case 6: // hostile header, honestly signed
		h := kit.HostileJSON(k.R, x.hdr)
		s := kit.B64(h) + "." + kit.B64(kit.J(x.pay))
		in, how = s+"."+kit.B64(kit.SignRaw(x.key.Alg, x.key.Priv, s)), "header"
	case 7, 8, 9: // hostile payload, honestly signed
		s := kit.B64(kit.J(x.hdr)) + "." + kit.B64(kit.HostileJSON(k.R, x.pay))
		in, how = s+"."+kit.B64(kit.SignRaw(x.key.Alg, x.key.Priv, s)), "payload"
	case 10:
		s := kit.B64(kit.HostileJSON(k.R, x.hdr)) + "." + kit.B64(kit.HostileJSON(k.R, x.pay))
		in, how = s+"."+kit.B64(kit.SignRaw(x.key.Alg, x.key.Priv, s)), "both"
	default:
		// an unusable key in the header
		h := map[string]any{}
		for n, v := range x.hdr {
			h[n] = v
		}
		_ = json.Unmarshal(kit.HostileJSON(k.R, map[string]any{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}), &h)
		if h == nil {
			h = map[string]any{"alg": x.key.Alg}
		}
		var j map[string]any
		_ = json.Unmarshal(kit.HostileJSON(k.R, bareJWK(x.key)), &j)
		h["jwk"] = j
		s := kit.B64(kit.J(h)) + "." + kit.B64(kit.J(x.pay))
		in, how = s+"."+kit.B64(kit.SignRaw(x.key.Alg, x.key.Priv, s)), "key"
	}
	k.Log("%s %s %.2000q", x.name, how, in)
	start := time.Now()
	ok := x.run(k, in)
	if d := time.Since(start); d > 20*time.Second {
		k.Fail("slow", "%s (%s) took %v", x.name, how, d)
	}
	if must == "refuse" {
		k.Check(!ok, "accepted", "%s accepted %s %.500q", x.name, how, in)
	}
	k.Event("inputs")
	k.Eval(1)
	if ok {
		k.Event("accepted")
	} else {
		k.Event("refused")
	}
	k.AddSig(fmt.Sprintf("%s/%s/%v", x.name, how, ok))
}

func c15Tokens(c *kit.Ctx) {
	c.Require("inputs", 10000)
	c.Require("accepted", 100)
	c.Require("refused", 5000)
	c.Require("honest", 100)
	for i := 0; i < c.N(200, 8000); i++ {
		c.Case(fmt.Sprintf("tokens/%d", i), func(k *kit.Case) {
			k.Trivial()
			cs := c15Consumers(k)
			for j := 0; j < 80; j++ {
				c15Token(k, cs[k.R.Intn(len(cs))])
			}
			// Consumers work after that.
			for _, x := range cs {
				ok := x.run(k, x.honest(k))
				if k.Check(ok, "legit-refused", "%s refuses an honest token", x.name) {
					c.Event("honest")
				}
			}
		})
	}
}

// --- other parsers

func c15ParseOne(k *kit.Case) {
	ctx := context.Background()
	s := kit.HostileString(k.R, kit.Pick(k.R, "https://a.example/x?y=z#w", "urn:solid:"+kit.RandString(k.R, 32, kit.Alnum), "POST", kit.RandString(k.R, 43, unreserved), "openid profile"), nil)
	name := ""
	refused := true
	switch k.R.Intn(9) {
	case 0:
		name = "verifiable"
		v := verifiable.UUIDVerifier([]byte("0123456789abcdef0123456789abcdef"))
		if k.R.Intn(2) == 0 {
			s = kit.Pick(k.R, "sldat_", "", "_", "x_") + kit.RandString(k.R, 20+k.R.Intn(5), kit.Alnum) + "_" + kit.RandString(k.R, 57+k.R.Intn(5), kit.Alnum)
		}
		id, err := v.Extract(s)
		k.Check(err != nil && id == nil, "accepted", "verifiable accepted %q", s)
		k.Check(v.Verify(s) != nil, "accepted", "verifiable accepted %q", s)
	case 1:
		name = "generators"
		for _, g := range c28Gens()[:3] {
			refused = g.valid(ctx, s) != nil && refused
		}
	case 2:
		name = "pkce"
		ok, err := pkce.Validate(s, kit.HostileString(k.R, s, nil))
		k.Check(!ok, "accepted", "pkce accepted %q %v", s, err)
	case 3:
		name = "cleanurl"
		u, err := url.Parse(s)
		if err != nil {
			u = &url.URL{}
		}
		r := &http.Request{Host: s, URL: u, Header: http.Header{}}
		if k.R.Intn(2) == 0 {
			r.TLS = &tls.ConnectionState{}
		}
		if k.R.Intn(2) == 0 {
			r.Header.Set("X-Forwarded-Scheme", s)
		}
		refused = dpop.CleanURL(r) == ""
	case 4:
		name = "pairwise"
		id, err := pairwise.Hash([]byte("0123456789abcdef")).Encode(s, s)
		refused = err != nil
		k.Check((err == nil) == (id != ""), "result", "pairwise gives %q %v", id, err)
	case 5:
		name = "profile"
		_, ok := profile.Strict().ApplicationType(s)
		refused = !ok
	case 6:
		name = "protobuf"
		m := kit.Pick[proto.Message](k.R, &flowv1.TokenRequest{}, &flowv1.AuthorizationRequest{}, &clientv1.ClientMeta{}, &tokenv1.Token{}, &clientv1.AuthenticateRequest{}, &tokenv1.IntrospectRequest{})
		src := m.ProtoReflect().New().Interface()
		kit.Hostile(k.R, src.ProtoReflect(), 8, nil)
		b, err := proto.MarshalOptions{AllowPartial: true}.Marshal(src)
		if err != nil {
			b = []byte(s)
		}
		b = kit.MutateBytes(k.R, b)
		if v, ok := m.(interface{ UnmarshalVT([]byte) error }); ok {
			refused = v.UnmarshalVT(b) != nil
		}
		_ = proto.Unmarshal(b, m.ProtoReflect().New().Interface())
		j, _ := protojson.Marshal(src)
		_ = json.Unmarshal(kit.MutateBytes(k.R, j), m)
		_ = json.Unmarshal(kit.HostileJSON(k.R, map[string]any{"clientId": "x", "scope": "y"}), m)
	case 7:
		name = "dpop-url"
		st := kit.NewStores("").DPoP
		key := kit.NewKey("c15-url", "ES256")
		v := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(allAlgs20()))
		tok := key.Token("dpop+jwt", map[string]any{"jti": kit.RandString(k.R, 12, kit.Alnum), "htm": "GET", "htu": s, "iat": time.Now().Unix()}, map[string]any{"jwk": bareJWK(key), "kid": nil})
		th, err := v.Verify(ctx, "GET", kit.HostileString(k.R, s, nil), tok)
		refused = err != nil
		k.Check((err == nil) == (th != ""), "result", "dpop gives %q %v", th, err)
		p, err := dpop.DefaultProver(jwt.DPoPSigner("ES256", kit.KeyFunc(key.Priv, "k", "ES256"))).Prove("GET", s)
		k.Check((err == nil) == (p != ""), "result", "prover gives %q %v", p, err)
	default:
		name = "authenticate"
		w := kit.NewWorld(kit.NewStores(""), nil)
		var req *clientv1.AuthenticateRequest
		if k.R.Intn(6) != 0 {
			req = &clientv1.AuthenticateRequest{}
			kit.Hostile(k.R, req.ProtoReflect(), k.R.Intn(5), []string{kit.AssertJWT, kit.AssertAttest})
			if k.R.Intn(2) == 0 {
				req.ClientAssertionType = kit.Str(kit.Pick(k.R, kit.AssertJWT, kit.AssertAttest))
			}
		}
		for _, p := range []clientauthentication.AuthenticationProcessor{clientauthentication.PrivateKeyJWT(w.S.Clients, allAlgs20()), clientauthentication.ClientAttestation(w.S.Clients, allAlgs20())} {
			res, err := p.Authenticate(ctx, req)
			k.Check(err != nil && res != nil && res.Client == nil, "accepted", "authenticated nobody: %v %v", res, err)
		}
	}
	k.Event("inputs")
	k.Eval(1)
	k.AddSig(fmt.Sprintf("%s/%v/%d", name, refused, min(len(s), 40)))
}

func c15Parse(c *kit.Ctx) {
	c.Require("inputs", 5000)
	for i := 0; i < c.N(150, 6000); i++ {
		c.Case(fmt.Sprintf("parse/%d", i), func(k *kit.Case) {
			k.Trivial()
			for j := 0; j < 60; j++ {
				c15ParseOne(k)
			}
		})
	}
}

func c15Race(c *kit.Ctx) {
	c.Require("requests", 300)
	c.Require("inputs", 300)
	es := c15Endpoints()
	for i := 0; i < c.N(3, 60); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt")), nil)
			cs := c15Consumers(k)
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 30; j++ {
						e := es[sub.R.Intn(len(es))]
						m := e.mk(sub, w)
						paths := kit.Hostile(sub.R, m.ProtoReflect(), sub.R.Intn(3), nil)
						c15Send(sub, w, e, m, c15Paths(paths), "")
						c15Token(sub, cs[sub.R.Intn(len(cs))])
						c15ParseOne(sub)
					}
				})
			}
			wg.Wait()
		})
	}
}
