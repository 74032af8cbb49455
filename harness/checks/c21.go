package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C21", Level: "exploration",
		Rule: "decide: tokens with zero, one or two deviations from a complete one (boundary times in virtual time, characters, missing claims) given to every generator x serialisation; produced values are decoded by independent JWT and COSE implementations and compared claim by claim; " +
			"faults: serializers and keys which fail; race: shared generators. Non-trivial: a distinct (generator, format, algorithm, deviations, answer).",
		Assumptions: []string{"the URL test of the issuer (assertion: audience) is only judged on strings no URL syntax admits", "an expiry already in the past is not judged, only the order and distance of the times"},
		Modes:       []kit.Mode{{Name: "decide", Bubble: true, Run: c21Decide}, {Name: "faults", Bubble: true, Run: c21Faults}, {Name: "race", Race: true, Run: c21Race}},
	})
}

// c21Gen is one generator over one serialisation.
type c21Gen struct {
	kind, format, alg string
	key               *kit.Key
	gen               token.Generator
	typ               string
	max               uint64
}

func c21Mk(kind, format, alg string, wrap func(token.Serializer) token.Serializer) *c21Gen {
	g := &c21Gen{kind: kind, format: format, alg: alg, key: c20Key("c21", alg), max: 2 * 3600}
	prov := func(context.Context) (*jose.JSONWebKey, error) { return g.key.PrivJWK(), nil }
	var s token.Serializer
	ca := map[string]*cose.Algorithm{"ES256": cose.ES256, "ES384": cose.ES384, "ES512": cose.ES512, "PS256": cose.PS256}[alg]
	mkj := func(f func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer) token.Serializer {
		return f(jose.SignatureAlgorithm(alg), prov)
	}
	switch kind {
	case "access":
		g.typ = "at"
		s = mkj(jwt.AccessTokenSigner)
		if format == "cwt" {
			s = cwt.AccessTokenSigner(ca, prov)
		}
	case "refresh":
		g.typ = "rt"
		g.max = 14 * 24 * 3600
		s = mkj(jwt.RefreshTokenSigner)
		if format == "cwt" {
			s = cwt.RefreshTokenSigner(ca, prov)
		}
	default:
		g.typ = "client-assertion"
		s = mkj(jwt.ClientAssertionSigner)
		if format == "cwt" {
			s = cwt.ClientAssertionSigner(ca, prov)
		}
	}
	if wrap != nil {
		s = wrap(s)
	}
	switch kind {
	case "access":
		g.gen = token.AccessToken(s)
	case "refresh":
		g.gen = token.RefreshToken(s)
	default:
		g.gen = token.ClientAssertion(s)
	}
	g.typ += "+" + format
	return g
}

func c21All(wrap func(token.Serializer) token.Serializer) []*c21Gen {
	var out []*c21Gen
	for _, kind := range []string{"access", "refresh", "assertion"} {
		for _, a := range []string{"ES256", "ES384", "ES512", "PS256", "EdDSA", "RS256"} {
			out = append(out, c21Mk(kind, "jwt", a, wrap))
		}
		for _, a := range []string{"ES256", "ES384", "ES512", "PS256"} {
			out = append(out, c21Mk(kind, "cwt", a, wrap))
		}
	}
	return out
}

func printable(k *kit.Case, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte(33 + k.R.Intn(94)))
	}
	return b.String()
}

// c21Token is a complete token of the generator's kind.
func c21Token(k *kit.Case, g *c21Gen) *tokenv1.Token {
	now := uint64(time.Now().Unix())
	iat := now - uint64(k.R.Intn(3))*uint64(k.R.Intn(4000))
	exp := iat + 1 + uint64(k.R.Int63n(int64(g.max)))
	m := &tokenv1.TokenMeta{
		Issuer: kit.Issuer(k.R), Subject: printable(k, 1+k.R.Intn(40)), ClientId: printable(k, 1+k.R.Intn(40)),
		Audience: printable(k, 1+k.R.Intn(40)), Scope: printable(k, 1+k.R.Intn(10)) + " " + printable(k, 1+k.R.Intn(10)),
		IssuedAt: iat, NotBefore: iat + uint64(k.R.Int63n(int64(exp-iat)+1)), ExpiresAt: exp,
	}
	if k.R.Intn(3) == 0 {
		// values a careless encoder would split, join, fold or escape
		f := kit.Pick(k.R, kit.Families(k.R, kit.RandString(k.R, 1+k.R.Intn(4), kit.Alnum))...)
		for _, p := range []*string{&m.Subject, &m.Audience, &m.Scope, &m.ClientId} {
			if v := kit.Pick(k.R, f.Members...); kit.Printable(v) && k.R.Intn(2) == 0 {
				*p = v
			}
		}
	}
	if g.kind == "assertion" {
		m.Issuer = m.Subject
		m.Audience = kit.Issuer(k.R)
		if k.R.Intn(3) == 0 {
			m.NotBefore = 0
		}
		if k.R.Intn(2) == 0 {
			m.Scope, m.ClientId = "", ""
		}
	}
	t := &tokenv1.Token{TokenId: printable(k, 1+k.R.Intn(40)), Metadata: m, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, TokenType: tokenv1.TokenType(k.R.Intn(4))}
	if k.R.Intn(2) == 0 {
		t.Confirmation = &tokenv1.TokenConfirmation{Jkt: kit.RandString(k.R, 43, kit.Alnum)}
	}
	return t
}

type c21Dev struct {
	name string
	kill bool
	only string // generator kinds, "" = all
	do   func(k *kit.Case, g *c21Gen, t *tokenv1.Token)
}

func badText(k *kit.Case) string {
	return kit.Pick(k.R, "a\x00b", "é", "a\nb", "tab\t", "\x7f", "日本", "a\u200b", "\xff\xfe", "\x1f", "​")
}

func badURL(k *kit.Case) string {
	return kit.Pick(k.R, "not a url", "://x", "https://", "http://a b.example/", "https://exa mple.com", "\x00", " ", "https:///path", "a\nb", "http://[::1", "%zz")
}

var c21Devs = []c21Dev{
	{"exp-max", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.ExpiresAt = t.Metadata.IssuedAt + g.max
	}},
	{"exp-iat", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.ExpiresAt, t.Metadata.NotBefore = t.Metadata.IssuedAt, t.Metadata.IssuedAt
	}},
	{"nbf-iat", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.NotBefore = t.Metadata.IssuedAt }},
	{"nbf-exp", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.NotBefore = t.Metadata.ExpiresAt }},
	{"iat-now", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		n := uint64(time.Now().Unix())
		t.Metadata.IssuedAt, t.Metadata.NotBefore, t.Metadata.ExpiresAt = n, n, n+60
	}},
	{"long-text", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		s := printable(k, 3000)
		t.Metadata.Subject = s
		if g.kind == "assertion" {
			t.Metadata.Issuer = s
		}
		t.TokenId = printable(k, 2000)
	}},
	{"html", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		s := `<a href="x">&amp;\u0041'` + "`"
		t.Metadata.Subject, t.Metadata.ClientId, t.TokenId = s, s, s
		if g.kind == "assertion" {
			t.Metadata.Issuer = s
		}
	}},
	{"scope-words", false, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		w := printable(k, 1+k.R.Intn(10))
		t.Metadata.Scope = kit.Pick(k.R, w+" "+w, w+" "+strings.ToUpper(w), "z a", w+"  "+w, " "+w, w+" ", "  "+w+"   b ", w+" "+w+" b", strings.Repeat("a ", 200)+w)
	}},
	{"status-other", false, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Status = tokenv1.TokenStatus(k.R.Intn(5)) }},

	{"nil-meta", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata = nil }},
	{"no-id", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.TokenId = "" }},
	{"empty-meta", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata = &tokenv1.TokenMeta{} }},
	{"no-iss", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Issuer = "" }},
	{"no-sub", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Subject = "" }},
	{"no-aud", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Audience = "" }},
	{"no-client", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.ClientId = "" }},
	{"no-scope", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Scope = "" }},
	{"no-nbf", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.NotBefore = 0 }},
	{"no-iat", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.IssuedAt = 0 }},
	{"no-exp", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.ExpiresAt = 0 }},
	{"iat-future", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		n := uint64(time.Now().Unix()) + 1 + uint64(k.R.Intn(2))*uint64(k.R.Intn(100))
		t.Metadata.IssuedAt, t.Metadata.NotBefore, t.Metadata.ExpiresAt = n, n, n+60
	}},
	{"iat-huge", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		n := kit.Pick(k.R, ^uint64(0), 1<<63, 1<<62, ^uint64(0)-7200)
		t.Metadata.IssuedAt, t.Metadata.NotBefore, t.Metadata.ExpiresAt = n, n, n
	}},
	{"exp-before", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.ExpiresAt = t.Metadata.IssuedAt - 1
		t.Metadata.NotBefore = t.Metadata.IssuedAt
	}},
	{"exp-over", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.ExpiresAt = t.Metadata.IssuedAt + g.max + 1
	}},
	{"exp-huge", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.ExpiresAt = kit.Pick(k.R, ^uint64(0), 1<<63, 1<<62, 1<<63-1, t.Metadata.IssuedAt+15*24*3600, t.Metadata.IssuedAt*1000)
	}},
	{"nbf-before", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.NotBefore = t.Metadata.IssuedAt - 1 }},
	{"nbf-after", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.NotBefore = t.Metadata.ExpiresAt + 1 }},
	{"bad-sub", true, "", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.Subject = badText(k)
		if g.kind == "assertion" {
			t.Metadata.Issuer = t.Metadata.Subject
		}
	}},
	{"bad-client", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.ClientId += badText(k) }},
	{"bad-scope", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Scope += badText(k) }},
	{"bad-aud", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Audience = badText(k) }},
	{"bad-iss", true, "access refresh", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Issuer = badURL(k) }},
	{"aud-not-url", true, "assertion", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Audience = badURL(k) }},
	{"iss-other", true, "assertion", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) { t.Metadata.Issuer += "x" }},
	{"sub-case", true, "assertion", func(k *kit.Case, g *c21Gen, t *tokenv1.Token) {
		t.Metadata.Issuer, t.Metadata.Subject = "Client", "client"
	}},
}

// c21Compare checks a produced value against the token.
func c21Compare(k *kit.Case, g *c21Gen, what, tok string, t *tokenv1.Token) {
	m := t.Metadata
	var get func(name string, n uint64) any
	var hdrTyp, kid any
	var size int
	var jkt any
	if g.format == "jwt" {
		j, err := kit.DecodeAny(tok, g.alg, g.key.Pub)
		if err != nil {
			k.Fail("undecodable", "%s: %v: %s", what, err, tok)
			return
		}
		hdrTyp, kid, size = j.Header["typ"], j.Header["kid"], len(j.Payload)
		get = func(name string, _ uint64) any {
			if f, ok := j.Payload[name].(float64); ok {
				return uint64(f)
			}
			return j.Payload[name]
		}
		if c, ok := j.Payload["cnf"].(map[string]any); ok {
			jkt = c["jkt"]
			k.Check(len(c) == 1, "claims", "%s: cnf %v", what, c)
		}
	} else {
		j, err := kit.DecodeCWT(tok, g.key.Pub, []byte("solid"))
		if err != nil {
			k.Fail("undecodable", "%s: %v: %s", what, err, tok)
			return
		}
		hdrTyp, kid, size = j.Protected["typ"], j.Unprotected["kid"], len(j.Payload)
		if kid == nil {
			kid = j.Unprotected[uint64(4)]
		}
		if b, ok := kid.([]byte); ok {
			kid = string(b)
		}
		get = func(_ string, n uint64) any { return j.Payload[n] }
		if c, ok := j.Payload[uint64(102)].(map[any]any); ok {
			jkt = c["jkt"]
			k.Check(len(c) == 1, "claims", "%s: cnf %v", what, c)
		}
	}
	k.Check(hdrTyp == g.typ, "typ", "%s: type %v instead of %s", what, hdrTyp, g.typ)
	k.Check(kid == g.key.Kid, "kid", "%s: key id %v instead of %s", what, kid, g.key.Kid)
	want := 0
	cmp := func(name string, n uint64, v any) {
		got := get(name, n)
		if v == uint64(0) || v == "" {
			k.Check(got == nil, "claims", "%s: unexpected %s %v", what, name, got)
			return
		}
		want++
		k.Check(got == v, "claims", "%s: %s is %v instead of %v", what, name, got, v)
	}
	cmp("iss", 1, m.Issuer)
	cmp("sub", 2, m.Subject)
	cmp("aud", 3, m.Audience)
	cmp("exp", 4, m.ExpiresAt)
	cmp("nbf", 5, m.NotBefore)
	cmp("iat", 6, m.IssuedAt)
	cmp("jti", 7, t.TokenId)
	if g.kind != "assertion" {
		cmp("client_id", 100, m.ClientId)
		cmp("scope", 101, m.Scope)
		if t.Confirmation != nil {
			want++
			k.Check(jkt == t.Confirmation.Jkt, "cnf", "%s: confirmation %v instead of %v", what, jkt, t.Confirmation.Jkt)
		} else {
			k.Check(jkt == nil, "cnf", "%s: unexpected confirmation %v", what, jkt)
		}
	}
	k.Check(size == want, "claims", "%s: %d claims instead of %d", what, size, want)
}

func c21Judge(k *kit.Case, g *c21Gen, what string, t *tokenv1.Token, kill bool) {
	before := proto.Clone(t).(*tokenv1.Token)
	tok, err := g.gen.Generate(context.Background(), t)
	k.Check(proto.Equal(before, t), "mutated", "%s: the token was altered", what)
	if kill {
		k.Check(err != nil && tok == "", "produced", "%s: produced %q, error %v for %v", what, tok, err, t)
		return
	}
	if !k.Check(err == nil, "refused", "%s: refused %v for %v", what, err, t) {
		return
	}
	c21Compare(k, g, what, tok, t)
}

func c21Decide(c *kit.Ctx) {
	gens := c21All(nil)
	c.Require("produced", 800)
	c.Require("refused", 800)
	for i := 0; i < c.N(25, 700); i++ {
		for gi, g := range gens {
			c.Case(fmt.Sprintf("decide/%d/%d", i, gi), func(k *kit.Case) {
				time.Sleep(time.Duration(k.R.Intn(100000)) * time.Millisecond)
				for n := 0; n < 5; n++ {
					t := c21Token(k, g)
					kill := false
					var names []string
					nd := k.R.Intn(3)
					if n == 0 {
						nd = 1
					}
					for j := 0; j < nd && t.Metadata != nil; j++ {
						d := c21Devs[k.R.Intn(len(c21Devs))]
						if n == 0 { // walk all of them
							d = c21Devs[(i*len(gens)+gi)%len(c21Devs)]
						}
						if d.only != "" && !strings.Contains(d.only, g.kind) {
							continue
						}
						d.do(k, g, t)
						kill = kill || d.kill
						names = append(names, d.name)
					}
					if len(names) == 2 {
						// one deviation may undo the other: decide from the times alone
						kill = c21Bad(g, t)
					}
					what := fmt.Sprintf("%s/%s/%s %v", g.kind, g.format, g.alg, names)
					k.Sig("%s", what)
					// keys rotate between generations, sometimes under the same identifier
					g.key = c20Key(kit.Pick(k.R, "c21", "c21b", "c21c"), g.alg)
					g.key.Kid = kit.Pick(k.R, "c21", g.key.Kid, c20Kid(k.R))
					c21Judge(k, g, what, t, kill)
					c.Event(map[bool]string{true: "refused", false: "produced"}[kill])
				}
				c21Judge(k, g, "nil token", nil, true)
			})
		}
	}
}

// c21Bad is the acceptance rule written from the property.
func c21Bad(g *c21Gen, t *tokenv1.Token) bool {
	m := t.Metadata
	if m == nil || t.TokenId == "" {
		return true
	}
	now := uint64(time.Now().Unix())
	ascii := func(s string) bool {
		for i := 0; i < len(s); i++ {
			if s[i] < 32 || s[i] > 126 {
				return false
			}
		}
		return s != ""
	}
	url := func(s string) bool {
		return strings.HasPrefix(s, "https://") && len(s) > 12 && s[8] != '/' && !strings.ContainsAny(s, " \x00\n")
	}
	if m.IssuedAt == 0 || m.IssuedAt > now || m.ExpiresAt == 0 || m.ExpiresAt < m.IssuedAt || m.ExpiresAt-m.IssuedAt > g.max || !ascii(m.Subject) {
		return true
	}
	if g.kind == "assertion" {
		return m.Issuer != m.Subject || !url(m.Audience)
	}
	return m.NotBefore < m.IssuedAt || m.NotBefore > m.ExpiresAt || m.NotBefore == 0 || !ascii(m.ClientId) || !ascii(m.Scope) || !ascii(m.Audience) || !url(m.Issuer)
}

type brokenSerializer struct {
	inner token.Serializer
	mode  int
}

func (b *brokenSerializer) ContentType() string { return b.inner.ContentType() }
func (b *brokenSerializer) Serialize(ctx context.Context, claims any) (string, error) {
	switch b.mode {
	case 1:
		return "", errors.New("down")
	case 2:
		v, _ := b.inner.Serialize(ctx, claims)
		return v, errors.New("down")
	}
	return b.inner.Serialize(ctx, claims)
}

func c21Faults(c *kit.Ctx) {
	c.Require("faults", 100)
	ctx := context.Background()
	c.Case("faults", func(k *kit.Case) {
		for mode := 1; mode <= 2; mode++ {
			for _, g := range c21All(func(s token.Serializer) token.Serializer { return &brokenSerializer{s, mode} }) {
				t := c21Token(k, g)
				tok, err := g.gen.Generate(ctx, t)
				k.Check(err != nil && tok == "", "fault", "%s/%s: failing serializer %d yields %q, %v", g.kind, g.format, mode, tok, err)
				c.Event("faults")
			}
		}
		var typed *brokenSerializer
		for i, g := range []token.Generator{token.AccessToken(nil), token.RefreshToken(nil), token.ClientAssertion(nil), token.AccessToken(typed), token.RefreshToken(typed), token.ClientAssertion(typed), token.Introspection(nil), token.Introspection(typed)} {
			kind := []string{"access", "refresh", "assertion"}[i%3]
			tok, err := g.Generate(ctx, c21Token(k, c21Mk(kind, "jwt", "ES256", nil)))
			k.Check(err != nil && tok == "", "fault", "absent serializer yields %q, %v", tok, err)
			c.Event("faults")
		}
	})
	// keys the CWT signer must refuse
	c.Case("keys", func(k *kit.Case) {
		key := c20Key("c21", "ES256")
		claims := map[string]any{"a": "b"}
		for _, b := range []struct {
			typ string
			mk  func(*cose.Algorithm, jwk.KeyProviderFunc) token.Serializer
		}{
			{"at+cwt", cwt.AccessTokenSigner}, {"rt+cwt", cwt.RefreshTokenSigner}, {"oauth-authz-req+cwt", cwt.RequestSigner}, {"jarm+cwt", cwt.JARMSigner},
			{"dpop+cwt", cwt.DPoPSigner}, {"client-assertion+cwt", cwt.ClientAssertionSigner}, {"token-introspection+cwt", cwt.TokenIntrospection},
		} {
			mk := b.mk
			bad := func(n string, cl any, f jwk.KeyProviderFunc, a *cose.Algorithm) {
				tok, err := mk(a, f).Serialize(ctx, cl)
				k.Check(err != nil && tok == "", "fault", "CWT signer with %s yields %q, %v", n, tok, err)
				c.Event("faults")
			}
			pj := key.PrivJWK()
			pub := key.JWK()
			good := func(context.Context) (*jose.JSONWebKey, error) { return pj, nil }
			bad("nil claims", nil, good, cose.ES256)
			bad("unencodable claims", map[string]any{"x": make(chan int)}, good, cose.ES256)
			bad("nil key", claims, func(context.Context) (*jose.JSONWebKey, error) { return nil, nil }, cose.ES256)
			bad("provider error", claims, func(context.Context) (*jose.JSONWebKey, error) { return pj, errors.New("x") }, cose.ES256)
			bad("public key", claims, func(context.Context) (*jose.JSONWebKey, error) { return &pub, nil }, cose.ES256)
			bad("no key id", claims, func(context.Context) (*jose.JSONWebKey, error) { q := *pj; q.KeyID = ""; return &q, nil }, cose.ES256)
			ed := c20Key("c21", "EdDSA").PrivJWK()
			bad("ed25519 key", claims, func(context.Context) (*jose.JSONWebKey, error) { return ed, nil }, cose.ES256)
			bad("RSA algorithm with EC key", claims, good, cose.PS256)
			rk := c20Key("c21", "PS256").PrivJWK()
			bad("EC algorithm with RSA key", claims, func(context.Context) (*jose.JSONWebKey, error) { return rk, nil }, cose.ES256)
			tok, err := mk(cose.ES256, good).Serialize(ctx, claims)
			if k.Check(err == nil, "refused", "CWT signer refuses: %v", err) {
				j, err := kit.DecodeCWT(tok, key.Pub, []byte("solid"))
				if k.Check(err == nil && j.Payload["a"] == "b", "undecodable", "CWT %v %v", j, err) {
					k.Check(j.Protected["typ"] == b.typ, "typ", "CWT of type %v instead of %s", j.Protected["typ"], b.typ)
				}
			}
		}
	})
	// lifetimes are judged at the moment of generation: the same token later and earlier
	c.Case("clock", func(k *kit.Case) {
		for _, g := range c21All(nil) {
			t := c21Token(k, g)
			n := uint64(time.Now().Unix())
			t.Metadata.IssuedAt, t.Metadata.NotBefore, t.Metadata.ExpiresAt = n+5, n+5, n+65
			c21Judge(k, g, g.kind+" issued in the future", t, true)
			time.Sleep(5 * time.Second)
			c21Judge(k, g, g.kind+" issued now", t, false)
			time.Sleep(20 * time.Second)
			c21Judge(k, g, g.kind+" issued before", t, false)
		}
	})
}

func c21Race(c *kit.Ctx) {
	c.Require("generated", 500)
	for i := 0; i < c.N(3, 60); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			gens := c21All(nil)
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 30; j++ {
						g := gens[sub.R.Intn(len(gens))]
						c21Judge(sub, g, "concurrent "+g.kind+" "+g.format, c21Token(sub, g), false)
						c.Event("generated")
					}
				})
			}
			wg.Wait()
		})
	}
}
