package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C16", Level: "exploration",
		Rule: "decide: assertions assembled by an independent JOSE implementation with zero, one or two deviations from a valid one, judged by a table saying which deviations must be refused; forge: every derived forgery of valid assertions; " +
			"race: concurrent authentications of different clients. Non-trivial: a distinct (deviations, algorithm, key set shape, answer).",
		Assumptions: []string{"the second exactly at exp is not judged", "aud is not compared with the server: the authenticator does not know its own URL", "the kid header is a hint: it is not judged when the signature verifies with another registered key"},
		Modes:       []kit.Mode{{Name: "decide", Bubble: true, Run: c16Decide}, {Name: "forge", Bubble: true, Run: c16Forge}, {Name: "race", Race: true, Run: c16Race}},
	})
}

type authClient struct {
	c    *clientv1.Client
	keys []*kit.Key // usable for signatures
	enc  *kit.Key
}

var c16Algs = []string{"ES256", "ES384", "ES512", "RS256", "PS256", "EdDSA"}

// authWorld registers n clients with key sets.
func authWorld(k *kit.Case, w *kit.World, tag string, n int) []*authClient {
	var out []*authClient
	for i := 0; i < n; i++ {
		a := &authClient{}
		var set []jose.JSONWebKey
		nk := 1 + k.R.Intn(3)
		for j := 0; j < nk; j++ {
			key := kit.NewKey(fmt.Sprintf("%s-%d-%d", tag, i, j), c16Algs[k.R.Intn(len(c16Algs))])
			a.keys = append(a.keys, key)
			jk := key.JWK()
			switch k.R.Intn(4) {
			case 0:
				jk.Use = ""
			case 1:
				jk.Algorithm = ""
			}
			if k.R.Intn(6) == 0 && len(set) > 0 {
				jk.KeyID = set[0].KeyID // duplicate kid
				key = &kit.Key{Alg: key.Alg, Kid: jk.KeyID, Priv: key.Priv, Pub: key.Pub}
				a.keys[len(a.keys)-1] = key
			}
			set = append(set, jk)
		}
		a.enc = kit.NewKey(fmt.Sprintf("%s-%d-enc", tag, i), kit.Pick(k.R, "ES256", "RS256"))
		e := a.enc.JWK()
		e.Use, e.Algorithm = "enc", ""
		at := k.R.Intn(len(set) + 1)
		set = append(set[:at:at], append([]jose.JSONWebKey{e}, set[at:]...)...)
		a.c = w.Client(func(c *clientv1.Client) {
			c.Jwks = kit.JWKS(set...)
			c.ClientType = kit.Pick(k.R, clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED)
		})
		out = append(out, a)
	}
	return out
}

// assertion under construction.
type c16Draft struct {
	k       *kit.Case
	a, b    *authClient
	foreign *kit.Key
	key     *kit.Key
	hdr     map[string]any
	claims  map[string]any
	typ     *string
	raw     *string // overrides the assertion
	payload *string // overrides the payload
	nilAss  bool
	now     int64
	algs    *[]jose.SignatureAlgorithm
	cl      *authClient
	n       int // repetition of the case
}

type c16Dev struct {
	name string
	kill bool
	do   func(d *c16Draft)
}

func del(n string) func(d *c16Draft)        { return func(d *c16Draft) { delete(d.claims, n) } }
func set(n string, v any) func(d *c16Draft) { return func(d *c16Draft) { d.claims[n] = v } }

var c16Devs = []c16Dev{
	{"extra-claim", false, set("foo", []any{1, "x"})},
	{"aud-other", false, func(d *c16Draft) { d.claims["aud"] = kit.Issuer(d.k.R) }},
	{"exp-near", false, func(d *c16Draft) { d.claims["exp"] = d.now + 1 }},
	{"exp-far", false, func(d *c16Draft) { d.claims["exp"] = d.now + 100000 }},
	{"nbf-now", false, func(d *c16Draft) { d.claims["nbf"] = d.now }},
	{"nbf-past", false, func(d *c16Draft) { d.claims["nbf"] = d.now - 1000 }},
	{"iat-none", false, del("iat")},
	{"iat-past", false, func(d *c16Draft) { d.claims["iat"] = d.now - 100 }},
	{"typ-other", false, func(d *c16Draft) { d.hdr["typ"] = "JWT" }},
	{"typ-none", false, func(d *c16Draft) { delete(d.hdr, "typ") }},
	{"kid-none", false, func(d *c16Draft) { delete(d.hdr, "kid") }},
	{"other-own-key", false, func(d *c16Draft) { d.key = d.a.keys[d.k.R.Intn(len(d.a.keys))]; d.hdr["kid"] = d.key.Kid }},
	{"hdr-extra", false, func(d *c16Draft) { d.hdr["x-y"] = "z" }},

	{"exp-past", true, func(d *c16Draft) { d.claims["exp"] = d.now - 1 }},
	{"exp-long-past", true, func(d *c16Draft) { d.claims["exp"] = int64(1) }},
	{"exp-none", true, del("exp")},
	{"exp-zero", true, set("exp", 0)},
	{"exp-negative", true, set("exp", -5)},
	{"exp-string", true, set("exp", "9999999999")},
	{"exp-null", true, set("exp", nil)},
	{"nbf-future", true, func(d *c16Draft) { d.claims["nbf"] = d.now + 1 }},
	{"iss-none", true, del("iss")},
	{"sub-none", true, del("sub")},
	{"iss-empty", true, set("iss", "")},
	{"sub-empty", true, set("sub", "")},
	{"both-empty", true, func(d *c16Draft) { d.claims["iss"], d.claims["sub"] = "", "" }},
	{"iss-number", true, set("iss", 12)},
	{"iss-array", true, func(d *c16Draft) { d.claims["iss"] = []string{d.a.c.ClientId} }},
	{"iss-b", true, func(d *c16Draft) { d.claims["iss"] = d.b.c.ClientId }},
	{"sub-b", true, func(d *c16Draft) { d.claims["sub"] = d.b.c.ClientId }},
	{"both-b", true, func(d *c16Draft) { d.claims["iss"], d.claims["sub"] = d.b.c.ClientId, d.b.c.ClientId }},
	{"sub-near", true, func(d *c16Draft) { d.claims["sub"] = kit.NearMiss(d.k.R, d.a.c.ClientId) }},
	{"both-near", true, func(d *c16Draft) {
		n := kit.NearMiss(d.k.R, d.a.c.ClientId)
		d.claims["iss"], d.claims["sub"] = n, n
	}},
	{"jti-none", true, del("jti")},
	{"jti-empty", true, set("jti", "")},
	{"aud-none", true, del("aud")},
	{"aud-empty", true, set("aud", "")},
	{"key-foreign", true, func(d *c16Draft) { d.key = d.foreign }},
	{"key-foreign-jwk", true, func(d *c16Draft) { d.key = d.foreign; d.hdr["jwk"] = d.foreign.JWKMap() }},
	{"key-b", true, func(d *c16Draft) { d.key = d.b.keys[0] }},
	{"key-enc", true, func(d *c16Draft) { d.key = d.a.enc; d.hdr["kid"] = d.a.enc.Kid }},
	{"crit", true, func(d *c16Draft) { d.hdr["crit"] = []string{"x-y"}; d.hdr["x-y"] = true }},
	{"alg-unsupported", true, func(d *c16Draft) {
		var keep []jose.SignatureAlgorithm
		for _, a := range *d.algs {
			if string(a) != d.key.Alg {
				keep = append(keep, a)
			}
		}
		*d.algs = keep
	}},
	{"type-nil", true, func(d *c16Draft) { d.typ = nil }},
	{"type-empty", true, func(d *c16Draft) { d.typ = kit.Str("") }},
	{"type-attest", true, func(d *c16Draft) { d.typ = kit.Str(kit.AssertAttest) }},
	{"type-near", true, func(d *c16Draft) { d.typ = kit.Str(kit.NearMiss(d.k.R, kit.AssertJWT)) }},
	{"assert-nil", true, func(d *c16Draft) { d.nilAss = true }},
	{"assert-empty", true, func(d *c16Draft) { d.raw = kit.Str("") }},
	{"assert-garbage", true, func(d *c16Draft) { d.raw = kit.Str(kit.Garbage(d.k.R, 60)) }},
	{"payload-garbage", true, func(d *c16Draft) { d.payload = kit.Str(vary(d.n, "", "x", "[]", "null", "1", `"a"`, "{", "{}")) }},
}

func c16Draw(k *kit.Case, a, b *authClient, foreign *kit.Key, algs *[]jose.SignatureAlgorithm) *c16Draft {
	now := time.Now().Unix()
	d := &c16Draft{k: k, a: a, b: b, foreign: foreign, now: now, algs: algs}
	d.key = a.keys[k.R.Intn(len(a.keys))]
	d.hdr = map[string]any{"typ": "client-assertion+jwt", "kid": d.key.Kid}
	d.claims = map[string]any{"iss": a.c.ClientId, "sub": a.c.ClientId, "aud": "https://as.example", "jti": kit.RandString(k.R, 12, kit.Alnum), "exp": now + int64(1+k.R.Intn(7200)), "iat": now}
	d.typ = kit.Str(kit.AssertJWT)
	return d
}

func (d *c16Draft) build() *clientv1.AuthenticateRequest {
	req := &clientv1.AuthenticateRequest{ClientAssertionType: d.typ}
	if d.nilAss {
		return req
	}
	if d.raw != nil {
		req.ClientAssertion = d.raw
		return req
	}
	d.hdr["alg"] = d.key.Alg
	payload := kit.J(d.claims)
	if d.payload != nil {
		payload = []byte(*d.payload)
	}
	req.ClientAssertion = kit.Str(kit.MakeJWS(d.hdr, payload, d.key.Alg, d.key.Priv))
	return req
}

// judgeAuth compares an authentication answer with the expected client (nil: refusal).
func judgeAuth(k *kit.Case, what string, res *clientv1.AuthenticateResponse, err error, want *clientv1.Client, codes ...string) {
	if !k.Check(res != nil, "nil-response", "%s: nil response (%v)", what, err) {
		return
	}
	if want == nil {
		k.Event("refused")
		k.Check(err != nil, "accepted", "%s: accepted as %s", what, res.Client.GetClientId())
		k.Check(res.Client == nil, "leak", "%s: refused but the client is returned", what)
		got := res.Error.GetErr()
		ok := false
		for _, c := range codes {
			ok = ok || c == got
		}
		k.Check(ok, "error-code", "%s: public error %q, want one of %v (%v)", what, got, codes, err)
		return
	}
	k.Event("accepted")
	if !k.Check(err == nil && res.Error == nil && res.Client != nil, "refused-valid", "%s: refused: %v %v", what, err, res.Error) {
		return
	}
	k.Check(proto.Equal(res.Client, want) || sameClient(res.Client, want), "other-client", "%s: authenticated %s instead of %s", what, kit.Brief(res.Client), kit.Brief(want))
}

func sameClient(a, b *clientv1.Client) bool {
	x, y := kit.Clone(a), kit.Clone(b)
	if x.ClientId == "" {
		x.ClientId = y.ClientId
	}
	return proto.Equal(x, y)
}

var c16Codes = []string{"invalid_client", "invalid_request"}

func allAlgs() []jose.SignatureAlgorithm {
	return []jose.SignatureAlgorithm{"ES256", "ES384", "ES512", "RS256", "PS256", "EdDSA"}
}

func c16Decide(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 200)
	c.Require("refused", 800)
	w := kit.NewWorld(kit.NewStores(""), nil)
	one := func(label string, n int, ds ...c16Dev) {
		c.Case(label, func(k *kit.Case) {
			cls := authWorld(k, w, "c16", 2)
			algs := allAlgs()
			d := c16Draw(k, cls[0], cls[1], kit.NewKey("c16-foreign", kit.Pick(k.R, c16Algs...)), &algs)
			kill := false
			var names []string
			d.n = n
			for _, x := range ds {
				x.do(d)
				kill = kill || x.kill
				names = append(names, x.name)
			}
			// key choices overriding each other
			if d.key == d.a.keys[0] && len(ds) > 1 && strings.HasPrefix(names[0], "key-") {
				return
			}
			req := d.build()
			p := clientauthentication.PrivateKeyJWT(w.Raw.Clients, algs)
			res, err := p.Authenticate(ctx, req)
			k.Sig("%v %s %v %v", names, d.key.Alg, len(cls[0].keys), res.GetError().GetErr())
			k.Log("deviations %v claims %v alg %s algs %v -> %v %v", names, d.claims, d.key.Alg, algs, res.GetError(), err)
			var want *clientv1.Client
			if !kill {
				want = cls[0].c
			}
			judgeAuth(k, fmt.Sprintf("assertion with %v (%s)", names, d.key.Alg), res, err, want, c16Codes...)
			got, err := w.Raw.Clients.Get(ctx, cls[0].c.ClientId)
			k.Check(err == nil && sameClient(got, cls[0].c), "altered", "stored client altered by authentication")
		})
	}
	for rep := 0; rep < c.N(24, 400); rep++ {
		one(fmt.Sprintf("valid/%d", rep), rep)
		for _, x := range c16Devs {
			one(fmt.Sprintf("one/%s/%d", x.name, rep), rep, x)
		}
	}
	// every pair of deviations which do not overwrite each other
	for rep := 0; rep < c.N(2, 40); rep++ {
		for i, x := range c16Devs {
			for j, y := range c16Devs {
				if group(x.name) == group(y.name) || i > j && rep%2 == 0 || i < j && rep%2 == 1 {
					continue
				}
				// together a valid assertion of b
				if x.name == "both-b" && y.name == "key-b" || x.name == "key-b" && y.name == "both-b" {
					continue
				}
				one(fmt.Sprintf("two/%s+%s/%d", x.name, y.name, rep), rep*31+i+7*j, x, y)
			}
		}
	}
	// clients without usable keys, unknown clients, storage failures
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("keys/%d", i), func(k *kit.Case) {
			cls := authWorld(k, w, "c16", 2)
			bad := w.Client(func(cl *clientv1.Client) {
				cl.Jwks = [][]byte{nil, {}, []byte("{}"), []byte(`{"keys":[]}`), []byte(`{"keys":null}`), []byte("null"), []byte("{"), []byte(`{"keys":[{"kty":"EC"}]}`), []byte("[]"), []byte(`{"keys":[{"kty":"oct","k":"AAAA"}]}`)}[i%10]
			})
			algs := allAlgs()
			d := c16Draw(k, cls[0], cls[1], cls[1].keys[0], &algs)
			d.claims["iss"], d.claims["sub"] = bad.ClientId, bad.ClientId
			res, err := clientauthentication.PrivateKeyJWT(w.Raw.Clients, algs).Authenticate(ctx, d.build())
			k.Sig("nokeys %d", i%10)
			judgeAuth(k, fmt.Sprintf("client with keys %q", bad.Jwks), res, err, nil, c16Codes...)
			// removal of the key takes effect
			d = c16Draw(k, cls[0], cls[1], cls[1].keys[0], &algs)
			req := d.build()
			flaky := &clientOverride{Client: w.Raw.Clients, m: map[string]*clientv1.Client{}}
			mod := kit.Clone(cls[0].c)
			mod.Jwks = cls[1].c.Jwks
			flaky.m[mod.ClientId] = mod
			res, err = clientauthentication.PrivateKeyJWT(flaky, algs).Authenticate(ctx, req)
			judgeAuth(k, "assertion signed with a key replaced in the client", res, err, nil, c16Codes...)
			hooked := kit.Wrap(w.Raw, func(ctx context.Context, op string, do func() error) error { return kit.ErrInjected })
			res, err = clientauthentication.PrivateKeyJWT(hooked.Clients, algs).Authenticate(ctx, req)
			judgeAuth(k, "storage failure", res, err, nil, "server_error")
			res, err = clientauthentication.PrivateKeyJWT(w.Raw.Clients, algs).Authenticate(ctx, nil)
			judgeAuth(k, "nil request", res, err, nil, c16Codes...)
			// the context carries exactly the authenticated client
			got, ok := clientauthentication.FromContext(clientauthentication.Inject(ctx, cls[0].c))
			k.Check(ok && got == cls[0].c, "context", "client lost in the context")
			_, ok = clientauthentication.FromContext(ctx)
			k.Check(!ok, "context", "client found in an empty context")
		})
	}
	// the registry changes under one authenticator
	for i := 0; i < c.N(60, 900); i++ {
		c.Case(fmt.Sprintf("rotation/%d", i), func(k *kit.Case) {
			cls := authWorld(k, w, "c16", 2)
			reg := &clientOverride{Client: w.Raw.Clients, m: map[string]*clientv1.Client{}}
			algs := allAlgs()
			p := clientauthentication.PrivateKeyJWT(reg, algs)
			a, b := cls[0], cls[1]
			renewed := &authClient{c: a.c, keys: b.keys, enc: b.enc}
			old := func() *clientv1.AuthenticateRequest { return c16Draw(k, a, b, nil, &algs).build() }
			fresh := func() *clientv1.AuthenticateRequest { return c16Draw(k, renewed, b, nil, &algs).build() }
			try := func(what string, req *clientv1.AuthenticateRequest, want *clientv1.Client) {
				res, err := p.Authenticate(ctx, req)
				judgeAuth(k, what, res, err, want, append(c16Codes, "server_error")...)
			}
			first := old()
			try("assertion under the first keys", first, a.c)
			if i%2 == 0 {
				try("assertion under keys not registered yet", fresh(), nil)
			}
			mod := kit.Clone(a.c)
			mod.Jwks = b.c.Jwks
			mod.ClientName = "renamed"
			reg.m[mod.ClientId] = mod
			try("assertion under replaced keys", old(), nil)
			try("assertion accepted before the keys were replaced", first, nil)
			again := fresh()
			try("assertion under the new keys", again, mod)
			try("assertion of another client", c16Draw(k, b, a, nil, &algs).build(), b.c)
			reg.m[mod.ClientId] = nil
			try("assertion of a removed client", fresh(), nil)
			try("assertion of a removed client accepted before", again, nil)
			delete(reg.m, mod.ClientId)
			try("assertion under the keys registered again", old(), a.c)
			k.Sig("rotation %d", i%2)
		})
	}
	// an assertion stops working when it expires
	for i := 0; i < c.N(20, 300); i++ {
		c.Case(fmt.Sprintf("expiry/%d", i), func(k *kit.Case) {
			cls := authWorld(k, w, "c16", 2)
			algs := allAlgs()
			d := c16Draw(k, cls[0], cls[1], cls[1].keys[0], &algs)
			life := int64(2 + k.R.Intn(20))
			d.claims["exp"] = d.now + life
			req := d.build()
			p := clientauthentication.PrivateKeyJWT(w.Raw.Clients, algs)
			time.Sleep(time.Duration(life-1) * time.Second)
			res, err := p.Authenticate(ctx, req)
			judgeAuth(k, "assertion before its end", res, err, cls[0].c)
			time.Sleep(2 * time.Second)
			res, err = p.Authenticate(ctx, req)
			judgeAuth(k, "assertion after its end", res, err, nil, c16Codes...)
			k.Sig("expiry %d", life)
		})
	}
}

func group(n string) string {
	n, _, _ = strings.Cut(n, "-")
	switch n {
	case "iss", "sub", "both":
		return "id"
	case "key", "other", "kid", "alg", "crit", "hdr", "typ":
		return "key"
	case "assert", "payload":
		return "whole"
	}
	return n
}

func c16Forge(c *kit.Ctx) {
	ctx := context.Background()
	w := kit.NewWorld(kit.NewStores(""), nil)
	c.Require("forgeries", 3000)
	for i := 0; i < c.N(60, 1500); i++ {
		c.Case(fmt.Sprintf("forge/%d", i), func(k *kit.Case) {
			cls := authWorld(k, w, "c16", 2)
			algs := allAlgs()
			if k.R.Intn(2) == 0 {
				algs = append(algs, "HS256", "HS384", "HS512")
			}
			d := c16Draw(k, cls[0], cls[1], nil, &algs)
			req := d.build()
			p := clientauthentication.PrivateKeyJWT(w.Raw.Clients, algs)
			res, err := p.Authenticate(ctx, req)
			judgeAuth(k, "valid assertion", res, err, cls[0].c)
			for _, f := range kit.Forgeries(k.R, *req.ClientAssertion, d.key, kit.NewKey("c16-foreign", d.key.Alg)) {
				res, err := p.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: req.ClientAssertionType, ClientAssertion: kit.Str(f.Tok)})
				c.Event("forgeries")
				k.Sig("%s", f.Name)
				judgeAuth(k, "forgery "+f.Name+" "+f.Tok, res, err, nil, c16Codes...)
			}
			// parts spliced from assertions of both clients
			d2 := c16Draw(k, cls[1], cls[0], nil, &algs)
			a, b := strings.Split(*req.ClientAssertion, "."), strings.Split(*d2.build().ClientAssertion, ".")
			for m := 1; m < 7; m++ {
				parts := append([]string{}, a...)
				for j := range parts {
					if m>>j&1 == 1 {
						parts[j] = b[j]
					}
				}
				t := strings.Join(parts, ".")
				if kit.SameContent(t, strings.Join(a, ".")) || kit.SameContent(t, strings.Join(b, ".")) {
					continue
				}
				res, err := p.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: req.ClientAssertionType, ClientAssertion: kit.Str(t)})
				judgeAuth(k, "spliced assertion", res, err, nil, c16Codes...)
			}
		})
	}
}

func c16Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 500)
	c.Require("refused", 200)
	for i := 0; i < c.N(6, 120); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			w := kit.NewWorld(kit.NewStores(""), nil)
			cls := authWorld(k, w, "c16", 4)
			algs := allAlgs()
			p := clientauthentication.PrivateKeyJWT(w.Raw.Clients, algs)
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				k.Go(&wg, func() {
					for n := 0; n < 25; n++ {
						a, b := cls[sub.R.Intn(4)], cls[sub.R.Intn(4)]
						al := allAlgs()
						d := c16Draw(sub, a, b, nil, &al)
						want := a.c
						if a != b && sub.R.Intn(3) == 0 {
							d.claims["iss"], d.claims["sub"] = b.c.ClientId, b.c.ClientId
							want = nil
						}
						res, err := p.Authenticate(ctx, d.build())
						judgeAuth(sub, "concurrent assertion", res, err, want, c16Codes...)
						if sub.R.Intn(10) == 0 {
							w.Client(nil)
						}
					}
				})
			}
			wg.Wait()
		})
	}
}

var _ = json.Marshal
