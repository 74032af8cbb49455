package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C17", Level: "exploration",
		Rule: "decide: attestation/proof pairs assembled by an independent JOSE implementation with up to two deviations from a valid pair, judged by a table of deviations which must be refused; " +
			"splice: every derived forgery of both halves and every exchange of halves between two valid pairs; race: concurrent authentications. Non-trivial: a distinct (deviations, algorithms, answer).",
		Assumptions: []string{"the second exactly at exp is not judged", "any registered client with keys may act as attester", "aud of the proof is not compared with the server: the authenticator does not know its own URL"},
		Modes:       []kit.Mode{{Name: "decide", Bubble: true, Run: c17Decide}, {Name: "splice", Bubble: true, Run: c17Splice}, {Name: "race", Race: true, Run: c17Race}},
	})
}

// c17Draft is an attestation with its proof of possession under construction.
type c17Draft struct {
	k            *kit.Case
	att          *authClient // attester
	a, b         *clientv1.Client
	acl, bcl     *authClient
	inst, inst2  *kit.Key // instance key, another one
	foreign      *kit.Key
	attKey       *kit.Key
	popKey       *kit.Key
	cnf          any
	ah, ph       map[string]any
	ac, pc       map[string]any
	typ          *string
	sep          string
	raw          *string
	nilAss       bool
	algs         []jose.SignatureAlgorithm
	now          int64
	attRaw, pRaw *string
}

func c17Draw(k *kit.Case, att *authClient, a, b *clientv1.Client) *c17Draft {
	now := time.Now().Unix()
	d := &c17Draft{k: k, att: att, a: a, b: b, now: now, sep: "~", algs: allAlgs(), typ: kit.Str(kit.AssertAttest)}
	d.inst = kit.NewKey("c17-inst-"+kit.Pick(k.R, "1", "2", "3"), kit.Pick(k.R, c16Algs...))
	d.inst2 = kit.NewKey("c17-inst-other", d.inst.Alg)
	d.foreign = kit.NewKey("c17-foreign", kit.Pick(k.R, c16Algs...))
	d.attKey, d.popKey = att.keys[k.R.Intn(len(att.keys))], d.inst
	d.ah = map[string]any{"typ": "oauth-client-attestation+jwt", "kid": d.attKey.Kid}
	d.ph = map[string]any{"typ": "oauth-client-attestation-pop+jwt"}
	d.ac = map[string]any{"iss": att.c.ClientId, "sub": a.ClientId, "exp": now + int64(2+k.R.Intn(9999)), "iat": now, "cnf": map[string]any{"jwk": d.inst.JWKMap()}}
	d.pc = map[string]any{"iss": a.ClientId, "aud": "https://as.example", "exp": now + int64(2+k.R.Intn(999)), "iat": now, "nbf": now, "jti": kit.RandString(k.R, 12, kit.Alnum)}
	return d
}

func (d *c17Draft) halves() (string, string) {
	d.ah["alg"], d.ph["alg"] = d.attKey.Alg, d.popKey.Alg
	if d.attRaw == nil {
		d.attRaw = kit.Str(kit.MakeJWS(d.ah, kit.J(d.ac), d.attKey.Alg, d.attKey.Priv))
	}
	if d.pRaw == nil {
		d.pRaw = kit.Str(kit.MakeJWS(d.ph, kit.J(d.pc), d.popKey.Alg, d.popKey.Priv))
	}
	return *d.attRaw, *d.pRaw
}

func (d *c17Draft) build() *clientv1.AuthenticateRequest {
	req := &clientv1.AuthenticateRequest{ClientAssertionType: d.typ}
	if d.nilAss {
		return req
	}
	if d.raw != nil {
		req.ClientAssertion = d.raw
		return req
	}
	x, y := d.halves()
	req.ClientAssertion = kit.Str(x + d.sep + y)
	return req
}

type c17Dev struct {
	name, group string
	kill        bool
	do          func(d *c17Draft)
}

func adel(n string) func(d *c17Draft) { return func(d *c17Draft) { delete(d.ac, n) } }
func pdel(n string) func(d *c17Draft) { return func(d *c17Draft) { delete(d.pc, n) } }
func aset(n string, v any) func(d *c17Draft) {
	return func(d *c17Draft) { d.ac[n] = v }
}
func pset(n string, v any) func(d *c17Draft) {
	return func(d *c17Draft) { d.pc[n] = v }
}
func without(algs []jose.SignatureAlgorithm, alg string) (out []jose.SignatureAlgorithm) {
	for _, a := range algs {
		if string(a) != alg {
			out = append(out, a)
		}
	}
	return out
}

var c17Devs = []c17Dev{
	{"a-exp-near", "aexp", false, func(d *c17Draft) { d.ac["exp"] = d.now + 1 }},
	{"a-nbf-now", "anbf", false, func(d *c17Draft) { d.ac["nbf"] = d.now }},
	{"a-iat-none", "aiat", false, adel("iat")},
	{"a-jti", "ajti", false, aset("jti", "x")},
	{"a-extra", "aextra", false, aset("extra", []int{1})},
	{"a-kid-none", "akid", false, func(d *c17Draft) { delete(d.ah, "kid") }},
	{"p-exp-near", "pexp", false, func(d *c17Draft) { d.pc["exp"] = d.now + 1 }},
	{"p-nbf-past", "pnbf", false, func(d *c17Draft) { d.pc["nbf"] = d.now - 10 }},
	{"p-nbf-none", "pnbf", false, pdel("nbf")},
	{"p-iat-none", "piat", false, pdel("iat")},
	{"p-aud-other", "paud", false, func(d *c17Draft) { d.pc["aud"] = kit.Issuer(d.k.R) }},
	{"p-extra", "pextra", false, pset("extra", "x")},
	{"cnf-kid", "cnf", false, func(d *c17Draft) { d.inst.Kid = "other" }},

	{"a-exp-past", "aexp", true, func(d *c17Draft) { d.ac["exp"] = d.now - 1 }},
	{"a-exp-none", "aexp", true, adel("exp")},
	{"a-exp-zero", "aexp", true, aset("exp", 0)},
	{"a-exp-string", "aexp", true, aset("exp", "99999999999")},
	{"a-nbf-future", "anbf", true, func(d *c17Draft) { d.ac["nbf"] = d.now + 1 }},
	{"a-iss-none", "aiss", true, adel("iss")},
	{"a-iss-empty", "aiss", true, aset("iss", "")},
	{"a-iss-unknown", "aiss", true, func(d *c17Draft) { d.ac["iss"] = kit.NearMiss(d.k.R, d.att.c.ClientId) }},
	{"a-iss-a", "aiss", true, func(d *c17Draft) { d.ac["iss"] = d.a.ClientId }},
	{"a-iss-b", "aiss", true, func(d *c17Draft) { d.ac["iss"] = d.b.ClientId }},
	{"a-sub-none", "asub", true, adel("sub")},
	{"a-sub-empty", "asub", true, aset("sub", "")},
	{"a-sub-b", "asub", true, func(d *c17Draft) { d.ac["sub"] = d.b.ClientId }},
	{"a-sub-near", "asub", true, func(d *c17Draft) { d.ac["sub"] = kit.NearMiss(d.k.R, d.a.ClientId) }},
	{"a-cnf-none", "cnf", true, adel("cnf")},
	{"a-cnf-empty", "cnf", true, aset("cnf", map[string]any{})},
	{"a-cnf-null", "cnf", true, aset("cnf", map[string]any{"jwk": nil})},
	{"a-cnf-thumb", "cnf", true, func(d *c17Draft) { d.ac["cnf"] = map[string]any{"jkt": d.inst.Thumb()} }},
	{"a-cnf-bad", "cnf", true, aset("cnf", map[string]any{"jwk": map[string]any{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}})},
	{"a-cnf-string", "cnf", true, aset("cnf", "x")},
	{"a-cnf-other", "cnf", true, func(d *c17Draft) { d.ac["cnf"] = map[string]any{"jwk": d.inst2.JWKMap()} }},
	{"a-key-foreign", "akey", true, func(d *c17Draft) { d.attKey = d.foreign }},
	{"a-key-jwk", "akey", true, func(d *c17Draft) { d.attKey = d.foreign; d.ah["jwk"] = d.foreign.JWKMap() }},
	{"a-key-inst", "akey", true, func(d *c17Draft) { d.attKey = d.inst; d.ah["jwk"] = d.inst.JWKMap() }},
	{"a-key-client", "akey", true, func(d *c17Draft) { d.attKey = d.acl.keys[0]; d.ah["kid"] = d.attKey.Kid }},
	{"a-key-client-b", "akey", true, func(d *c17Draft) { d.attKey = d.bcl.keys[0]; d.ah["kid"] = d.attKey.Kid }},
	{"a-key-enc", "akey", true, func(d *c17Draft) { d.attKey = d.att.enc; d.ah["kid"] = d.att.enc.Kid }},
	{"a-crit", "akey", true, func(d *c17Draft) { d.ah["crit"] = []string{"zz"}; d.ah["zz"] = 1 }},
	{"a-alg", "alg", true, func(d *c17Draft) { d.algs = without(d.algs, d.attKey.Alg) }},
	{"a-garbage", "araw", true, func(d *c17Draft) { d.attRaw = kit.Str(strings.ReplaceAll(kit.Garbage(d.k.R, 50), "~", "")) }},
	{"p-exp-past", "pexp", true, func(d *c17Draft) { d.pc["exp"] = d.now - 1 }},
	{"p-exp-none", "pexp", true, pdel("exp")},
	{"p-exp-zero", "pexp", true, pset("exp", 0)},
	{"p-nbf-future", "pnbf", true, func(d *c17Draft) { d.pc["nbf"] = d.now + 1 }},
	{"p-iss-none", "piss", true, pdel("iss")},
	{"p-iss-empty", "piss", true, pset("iss", "")},
	{"p-iss-b", "piss", true, func(d *c17Draft) { d.pc["iss"] = d.b.ClientId }},
	{"p-iss-att", "piss", true, func(d *c17Draft) { d.pc["iss"] = d.att.c.ClientId }},
	{"p-iss-near", "piss", true, func(d *c17Draft) { d.pc["iss"] = kit.NearMiss(d.k.R, d.a.ClientId) }},
	{"p-aud-none", "paud", true, pdel("aud")},
	{"p-aud-empty", "paud", true, pset("aud", "")},
	{"p-jti-none", "pjti", true, pdel("jti")},
	{"p-jti-empty", "pjti", true, pset("jti", "")},
	{"p-key-foreign", "pkey", true, func(d *c17Draft) { d.popKey = d.foreign }},
	{"p-key-jwk", "pkey", true, func(d *c17Draft) { d.popKey = d.foreign; d.ph["jwk"] = d.foreign.JWKMap() }},
	{"p-key-att", "pkey", true, func(d *c17Draft) { d.popKey = d.attKey }},
	{"p-key-client", "pkey", true, func(d *c17Draft) { d.popKey = d.acl.keys[0] }},
	{"p-key-client-kid", "pkey", true, func(d *c17Draft) { d.popKey = d.acl.keys[0]; d.ph["kid"] = d.popKey.Kid }},
	{"p-key-client-b", "pkey", true, func(d *c17Draft) { d.popKey = d.bcl.keys[0]; d.ph["kid"] = d.popKey.Kid }},
	{"p-crit", "pkey", true, func(d *c17Draft) { d.ph["crit"] = []string{"zz"}; d.ph["zz"] = 1 }},
	{"p-alg", "alg", true, func(d *c17Draft) { d.algs = without(d.algs, d.popKey.Alg) }},
	{"p-garbage", "praw", true, func(d *c17Draft) { d.pRaw = kit.Str(kit.Garbage(d.k.R, 50)) }},
	{"both-unknown", "both", true, func(d *c17Draft) { d.ac["sub"], d.pc["iss"] = "nobody", "nobody" }},
	{"type-nil", "typ", true, func(d *c17Draft) { d.typ = nil }},
	{"type-jwt", "typ", true, func(d *c17Draft) { d.typ = kit.Str(kit.AssertJWT) }},
	{"type-near", "typ", true, func(d *c17Draft) { d.typ = kit.Str(kit.NearMiss(d.k.R, kit.AssertAttest)) }},
	{"nil", "whole", true, func(d *c17Draft) { d.nilAss = true }},
	{"empty", "whole", true, func(d *c17Draft) { d.raw = kit.Str("") }},
	{"garbage", "whole", true, func(d *c17Draft) { d.raw = kit.Str(kit.Garbage(d.k.R, 80)) }},
	{"sep-none", "whole", true, func(d *c17Draft) { d.sep = "" }},
	{"sep-dot", "whole", true, func(d *c17Draft) { d.sep = "." }},
	{"sep-two", "whole", true, func(d *c17Draft) { d.sep = "~~" }},
	{"swapped", "whole", true, func(d *c17Draft) { x, y := d.halves(); d.raw = kit.Str(y + "~" + x) }},
	{"only-att", "whole", true, func(d *c17Draft) { x, _ := d.halves(); d.raw = kit.Str(x) }},
	{"only-att~", "whole", true, func(d *c17Draft) { x, _ := d.halves(); d.raw = kit.Str(x + "~") }},
	{"only-pop", "whole", true, func(d *c17Draft) { _, y := d.halves(); d.raw = kit.Str("~" + y) }},
	{"att-att", "whole", true, func(d *c17Draft) { x, _ := d.halves(); d.raw = kit.Str(x + "~" + x) }},
	{"three", "whole", true, func(d *c17Draft) { x, y := d.halves(); d.raw = kit.Str(x + "~" + y + "~" + y) }},
}

var c17Codes = []string{"invalid_client", "invalid_request", "unauthorized_client"}

func c17Decide(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 200)
	c.Require("refused", 1000)
	w := kit.NewWorld(kit.NewStores(""), nil)
	one := func(label string, ds ...c17Dev) {
		c.Case(label, func(k *kit.Case) {
			att := authWorld(k, w, "c17", 1)[0]
			cls := authWorld(k, w, "c17c", 2)
			if k.R.Intn(2) == 0 { // attested clients need no keys of their own
				cls[0].c = w.Client(nil)
			}
			d := c17Draw(k, att, cls[0].c, cls[1].c)
			d.acl, d.bcl = cls[0], cls[1]
			kill := false
			var names []string
			for _, x := range ds {
				x.do(d)
				kill = kill || x.kill
				names = append(names, x.name)
			}
			if d.popKey == d.att.enc { // p-key-att after a-key-enc
				kill = true
			}
			req := d.build()
			res, err := clientauthentication.ClientAttestation(w.Raw.Clients, d.algs).Authenticate(ctx, req)
			k.Sig("%v %s %s %v", names, d.attKey.Alg, d.popKey.Alg, res.GetError().GetErr())
			k.Log("deviations %v attestation %v proof %v -> %v %v", names, d.ac, d.pc, res.GetError(), err)
			want := cls[0].c
			if kill {
				want = nil
			}
			judgeAuth(k, fmt.Sprintf("attestation with %v (%s/%s)", names, d.attKey.Alg, d.popKey.Alg), res, err, want, c17Codes...)
		})
	}
	for rep := 0; rep < c.N(20, 300); rep++ {
		one(fmt.Sprintf("valid/%d", rep))
		for _, x := range c17Devs {
			one(fmt.Sprintf("one/%s/%d", x.name, rep), x)
		}
	}
	// every pair of deviations which do not overwrite each other
	for rep := 0; rep < c.N(2, 40); rep++ {
		for i, x := range c17Devs {
			for j, y := range c17Devs {
				if x.group == y.group || x.group == "alg" || x.group == "both" || y.group == "both" || i > j && rep%2 == 0 || i < j && rep%2 == 1 {
					continue
				}
				// clients are attesters as good as any other
				if pair := x.name + " " + y.name; strings.Contains(pair, "a-key-client-b") && strings.Contains(pair, "a-iss-b") || strings.Contains(pair, "a-key-client") && strings.Contains(pair, "a-iss-a") {
					continue
				}
				// b's identity consistently used by both halves is another, valid, statement by the attester
				if x.name == "a-sub-b" && y.name == "p-iss-b" || x.name == "p-iss-b" && y.name == "a-sub-b" {
					continue
				}
				if (x.group == "cnf" || y.group == "cnf") && (x.group == "pkey" || y.group == "pkey") {
					continue
				}
				one(fmt.Sprintf("two/%s+%s/%d", x.name, y.name, rep), x, y)
			}
		}
	}
	// the registry changes under one authenticator: keys of the attester, registration of attester and client
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("rotation/%d", i), func(k *kit.Case) {
			atts := authWorld(k, w, "c17", 2)
			a, b := w.Client(nil), w.Client(nil)
			reg := &clientOverride{Client: w.Raw.Clients, m: map[string]*clientv1.Client{}}
			p := clientauthentication.ClientAttestation(reg, allAlgs())
			old := func() string { return *c17Draw(k, atts[0], a, b).build().ClientAssertion }
			renewed := &authClient{c: atts[0].c, keys: atts[1].keys, enc: atts[1].enc}
			fresh := func() string { return *c17Draw(k, renewed, a, b).build().ClientAssertion }
			try := func(what, t string, want *clientv1.Client) {
				res, err := p.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: kit.Str(kit.AssertAttest), ClientAssertion: kit.Str(t)})
				judgeAuth(k, what, res, err, want, append(c17Codes, "server_error")...)
			}
			first := old()
			try("pair under the first keys of the attester", first, a)
			if i%2 == 0 {
				try("pair under keys not registered yet", fresh(), nil)
			}
			mod := kit.Clone(atts[0].c)
			mod.Jwks = atts[1].c.Jwks
			reg.m[mod.ClientId] = mod
			try("pair under replaced keys", old(), nil)
			try("pair accepted before the keys were replaced", first, nil)
			again := fresh()
			try("pair under the new keys", again, a)
			m2 := kit.Clone(a)
			m2.ClientName = "renamed"
			reg.m[a.ClientId] = m2
			try("pair after a change of the client", fresh(), m2)
			reg.m[a.ClientId] = nil
			try("pair of a removed client", fresh(), nil)
			try("pair of a removed client accepted before", again, nil)
			delete(reg.m, a.ClientId)
			reg.m[mod.ClientId] = nil
			try("pair of a removed attester", fresh(), nil)
			try("pair of a removed attester accepted before", again, nil)
			delete(reg.m, mod.ClientId)
			try("pair under the keys registered again", old(), a)
			k.Sig("rotation %d", i%2)
		})
	}
	// dependencies failing at either lookup; expiry over time
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("misc/%d", i), func(k *kit.Case) {
			att := authWorld(k, w, "c17", 1)[0]
			a, b := w.Client(nil), w.Client(nil)
			d := c17Draw(k, att, a, b)
			life := int64(2 + k.R.Intn(20))
			d.ac["exp"], d.pc["exp"] = d.now+9999, d.now+9999
			if i%2 == 0 {
				d.ac["exp"] = d.now + life
			} else {
				d.pc["exp"] = d.now + life
			}
			req := d.build()
			n, at := 0, 1+k.R.Intn(2)
			hooked := kit.Wrap(w.Raw, func(ctx context.Context, op string, do func() error) error {
				n++
				if n == at {
					return kit.ErrInjected
				}
				return do()
			})
			res, err := clientauthentication.ClientAttestation(hooked.Clients, d.algs).Authenticate(ctx, req)
			judgeAuth(k, "storage failure", res, err, nil, "server_error", "unauthorized_client")
			p := clientauthentication.ClientAttestation(w.Raw.Clients, d.algs)
			time.Sleep(time.Duration(life-1) * time.Second)
			res, err = p.Authenticate(ctx, req)
			judgeAuth(k, "pair before its end", res, err, a)
			time.Sleep(2 * time.Second)
			res, err = p.Authenticate(ctx, req)
			judgeAuth(k, "pair after its end", res, err, nil, c17Codes...)
			res, err = p.Authenticate(ctx, nil)
			judgeAuth(k, "nil request", res, err, nil, c17Codes...)
			// attester without keys
			bare := w.Client(func(c *clientv1.Client) {
				c.Jwks = [][]byte{nil, []byte("{}"), []byte("null"), []byte("{"), []byte(`{"keys":[]}`)}[i%5]
			})
			d = c17Draw(k, att, a, b)
			d.ac["iss"] = bare.ClientId
			res, err = p.Authenticate(ctx, d.build())
			judgeAuth(k, "attester without keys", res, err, nil, c17Codes...)
			k.Sig("misc %d %d %d", life, at, i%10)
		})
	}
}

func c17Splice(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("forgeries", 3000)
	c.Require("splices", 300)
	w := kit.NewWorld(kit.NewStores(""), nil)
	for i := 0; i < c.N(50, 1200); i++ {
		c.Case(fmt.Sprintf("splice/%d", i), func(k *kit.Case) {
			atts := authWorld(k, w, "c17", 2)
			a, b := w.Client(nil), w.Client(nil)
			d1, d2 := c17Draw(k, atts[0], a, b), c17Draw(k, atts[k.R.Intn(2)], b, a)
			d2.inst, d2.popKey = d2.inst2, d2.inst2
			d2.ac["cnf"] = map[string]any{"jwk": d2.inst.JWKMap()}
			if d1.inst.Thumb() == d2.inst.Thumb() {
				k.Fatal("setup", "same instance key")
			}
			algs := allAlgs()
			if k.R.Intn(2) == 0 {
				algs = append(algs, "HS256", "HS384", "HS512")
			}
			p := clientauthentication.ClientAttestation(w.Raw.Clients, algs)
			try := func(what, t string, want *clientv1.Client) {
				res, err := p.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: kit.Str(kit.AssertAttest), ClientAssertion: kit.Str(t)})
				judgeAuth(k, what+" "+t, res, err, want, c17Codes...)
			}
			x1, y1 := d1.halves()
			x2, y2 := d2.halves()
			try("first pair", x1+"~"+y1, a)
			try("second pair", x2+"~"+y2, b)
			try("crossed", x1+"~"+y2, nil)
			try("crossed", x2+"~"+y1, nil)
			c.Events("splices", 2)
			for _, f := range kit.Forgeries(k.R, x1, d1.attKey, kit.NewKey("c17-foreign", d1.attKey.Alg)) {
				c.Event("forgeries")
				k.Sig("a %s", f.Name)
				if !strings.Contains(f.Tok, "~") {
					try("attestation forgery "+f.Name, f.Tok+"~"+y1, nil)
				}
			}
			for _, f := range kit.Forgeries(k.R, y1, d1.inst, kit.NewKey("c17-foreign", d1.inst.Alg)) {
				c.Event("forgeries")
				k.Sig("p %s", f.Name)
				try("proof forgery "+f.Name, x1+"~"+f.Tok, nil)
			}
			// segments exchanged
			s1, s2 := strings.Split(x1+"."+y1, "."), strings.Split(x2+"."+y2, ".")
			for n := 0; n < 12; n++ {
				m := 1 + k.R.Intn(62)
				parts := append([]string{}, s1...)
				for j := range parts {
					if m>>j&1 == 1 {
						parts[j] = s2[j]
					}
				}
				x, y := strings.Join(parts[:3], "."), strings.Join(parts[3:], ".")
				if kit.SameContent(x, x1) && kit.SameContent(y, y1) || kit.SameContent(x, x2) && kit.SameContent(y, y2) {
					continue
				}
				c.Event("splices")
				try("spliced", x+"~"+y, nil)
			}
		})
	}
}

func c17Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 500)
	c.Require("refused", 100)
	for i := 0; i < c.N(5, 100); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			w := kit.NewWorld(kit.NewStores(""), nil)
			att := authWorld(k, w, "c17", 1)[0]
			a, b := w.Client(nil), w.Client(nil)
			p := clientauthentication.ClientAttestation(w.Raw.Clients, allAlgs())
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				k.Go(&wg, func() {
					for n := 0; n < 20; n++ {
						x, y := a, b
						if sub.R.Intn(2) == 0 {
							x, y = b, a
						}
						d := c17Draw(sub, att, x, y)
						want := x
						if sub.R.Intn(4) == 0 {
							d.pc["iss"] = y.ClientId
							want = nil
						}
						res, err := p.Authenticate(ctx, d.build())
						judgeAuth(sub, "concurrent attestation", res, err, want, c17Codes...)
					}
				})
			}
			wg.Wait()
		})
	}
}
