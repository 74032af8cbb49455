package checks

import (
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"encoding/base64"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C22", Level: "exploration",
		Rule: "introspect: every status x (start, end) relative to the virtual clock including the boundary seconds, re-asked as time passes, with random metadata, decoded independently; encrypt: sign-then-encrypt over JWT, CWT and nested serializers with an authenticated cipher, alterations, faults of either step; race: shared generators. " +
			"Non-trivial: a distinct (status, time class, answer) or (serializer, alteration, answer).",
		Assumptions: []string{"the second exactly at the end of a token is not judged", "the repository ships no Encrypter: the harness supplies AES-256-GCM"},
		Modes:       []kit.Mode{{Name: "introspect", Bubble: true, Run: c22Introspect}, {Name: "encrypt", Bubble: true, Run: c22Encrypt}, {Name: "race", Race: true, Run: c22Race}},
	})
}

func c22Key(alg string) (*kit.Key, token.Serializer) {
	key := c20Key("c22", alg)
	return key, jwt.TokenIntrospection(jose.SignatureAlgorithm(alg), func(context.Context) (*jose.JSONWebKey, error) { return key.PrivJWK(), nil })
}

// c22Check decodes an introspection JWT and compares it. want: 1 active, 0 inactive, -1 either.
func c22Check(k *kit.Case, what, tok string, key *kit.Key, t *tokenv1.Token, want int, now int64) {
	j, err := kit.DecodeAny(tok, key.Alg, key.Pub)
	if err != nil {
		k.Fail("undecodable", "%s: %v", what, err)
		return
	}
	m := t.Metadata
	k.Check(j.Header["typ"] == "token-introspection+jwt", "typ", "%s: typ %v", what, j.Header["typ"])
	k.Check(j.Payload["iss"] == m.Issuer, "iss", "%s: iss %v", what, j.Payload["iss"])
	if iat, _ := j.Payload["iat"].(float64); now > 0 {
		k.Check(int64(iat) == now, "iat", "%s: iat %v at %d", what, j.Payload["iat"], now)
	}
	in, _ := j.Payload["token_introspection"].(map[string]any)
	act, isBool := in["active"].(bool)
	if !k.Check(isBool, "active", "%s: no active member in %v", what, j.Payload) {
		return
	}
	if want >= 0 {
		k.Check(act == (want == 1), "active", "%s: active is %v", what, act)
	}
	if !act {
		k.Check(len(in) == 1, "leak", "%s: inactive token released %v", what, in)
		for _, n := range []string{"sub", "aud", "scope", "client_id", "jti", "exp", "cnf"} {
			k.Check(j.Payload[n] == nil, "leak", "%s: inactive token released %s", what, n)
		}
		return
	}
	num := func(n string, v uint64) {
		f, ok := in[n].(float64)
		k.Check(ok && uint64(f) == v, "claims", "%s: %s is %v instead of %d", what, n, in[n], v)
	}
	str := func(n, v string) {
		s, _ := in[n].(string)
		k.Check(s == v, "claims", "%s: %s is %v instead of %q", what, n, in[n], v)
	}
	str("iss", m.Issuer)
	str("aud", m.Audience)
	str("sub", m.Subject)
	str("client_id", m.ClientId)
	str("scope", m.Scope)
	str("jti", t.TokenId)
	num("iat", m.IssuedAt)
	num("exp", m.ExpiresAt)
}

func c22Token(k *kit.Case) *tokenv1.Token {
	txt := func() string {
		return kit.Pick(k.R, printable(k, 1+k.R.Intn(30)), "", "é\"<>&", kit.RandString(k.R, 10, kit.Alnum))
	}
	t := &tokenv1.Token{TokenId: txt(), TokenType: tokenv1.TokenType(k.R.Intn(5)), Value: txt(), Metadata: &tokenv1.TokenMeta{Issuer: kit.Issuer(k.R), Subject: txt(), Audience: txt(), ClientId: txt(), Scope: txt()}}
	if k.R.Intn(2) == 0 {
		t.Confirmation = &tokenv1.TokenConfirmation{Jkt: txt()}
	}
	return t
}

func c22Introspect(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("active", 100)
	c.Require("inactive", 1000)
	statuses := []tokenv1.TokenStatus{0, 1, 2, 3, 4, 17}
	offs := []int64{-1 << 40, -100000, -2, -1, 0, 1, 2, 100, 1 << 30}
	for round := 0; round < c.N(6, 100); round++ {
		for _, st := range statuses {
			c.Case(fmt.Sprintf("introspect/%d/%d", round, st), func(k *kit.Case) {
				time.Sleep(time.Duration(k.R.Int63n(int64(5 * time.Second))))
				for _, no := range offs {
					for _, eo := range offs {
						key, ser := c22Key(kit.Pick(k.R, "ES256", "EdDSA", "ES384"))
						g := token.Introspection(ser)
						now := time.Now().Unix()
						t := c22Token(k)
						t.Status = st
						at := func(o int64) uint64 {
							if o < -now {
								return 0
							}
							return uint64(now + o)
						}
						t.Metadata.NotBefore, t.Metadata.ExpiresAt, t.Metadata.IssuedAt = at(no), at(eo), at(kit.Pick(k.R, no, -5))
						before := proto.Clone(t).(*tokenv1.Token)
						ask := func(what string) {
							now := time.Now().Unix()
							n, e := int64(t.Metadata.NotBefore), int64(t.Metadata.ExpiresAt)
							want := 0
							if st == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && n <= now && now <= e {
								want = 1
								if now == e {
									want = -1
								}
							}
							tok, err := g.Generate(ctx, t)
							what = fmt.Sprintf("%s status=%v nbf=now%+d exp=now%+d", what, st, n-now, e-now)
							if !k.Check(err == nil, "refused", "%s: %v", what, err) {
								return
							}
							k.Check(proto.Equal(before, t), "mutated", "%s: the token was altered", what)
							c22Check(k, what, tok, key, t, want, now)
							k.Sig("%s %d", what, want)
							c.Event(map[int]string{1: "active", 0: "inactive", -1: "boundary"}[want])
						}
						ask("at once")
						if no < 0 && k.R.Intn(3) > 0 {
							continue
						}
						if no > 0 && no <= 100 {
							time.Sleep(time.Duration(no) * time.Second)
							ask("at start")
						}
						if eo > 0 && eo <= 100 && k.R.Intn(2) == 0 {
							time.Sleep(time.Duration(eo+1) * time.Second)
							ask("after end")
						}
					}
				}
			})
		}
	}
	c.Case("refusals", func(k *kit.Case) {
		_, ser := c22Key("ES256")
		g := token.Introspection(ser)
		for _, t := range []*tokenv1.Token{nil, {}, {TokenId: "x", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE}} {
			tok, err := g.Generate(ctx, t)
			k.Check(err != nil && tok == "", "produced", "introspection JWT %q for an incomplete token, %v", tok, err)
		}
		for mode := 1; mode <= 2; mode++ {
			tok, err := token.Introspection(&brokenSerializer{ser, mode}).Generate(ctx, c22Token(k))
			k.Check(err != nil && tok == "", "fault", "failing signer yields %q %v", tok, err)
		}
		// a JWT signed by another key must not be confused: decoding with another key fails
		key2 := c20Key("c22b", "ES256")
		tok, err := g.Generate(ctx, c22Token(k))
		if k.Check(err == nil, "refused", "%v", err) {
			_, err = kit.DecodeAny(tok, "ES256", key2.Pub)
			k.Check(err != nil, "harness", "decoder accepts any key")
		}
	})
}

// gcm is an authenticated Encrypter.
type gcm struct {
	key  []byte
	mode int
	mu   sync.Mutex
	seen []string
}

func (g *gcm) aead() cipher.AEAD {
	b, err := aes.NewCipher(g.key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

func (g *gcm) Encrypt(_ context.Context, contentType, tok string, aad []byte) (string, error) {
	g.mu.Lock()
	g.seen = append(g.seen, contentType+"|"+string(aad))
	g.mu.Unlock()
	switch g.mode {
	case 1:
		return "", errors.New("down")
	case 3: // nothing, without error
		return "", nil
	case 4:
		return " ", nil
	}
	nonce := make([]byte, 12)
	_, _ = rand.Read(nonce)
	out := g.aead().Seal(nonce, nonce, []byte(contentType+"\x00"+tok), aad)
	s := base64.RawURLEncoding.EncodeToString(out)
	if g.mode == 2 {
		return s, errors.New("down")
	}
	return s, nil
}

func (g *gcm) Decrypt(s string, aad []byte) (contentType, tok string, err error) {
	if strings.ContainsAny(s, "\r\n") { // skipped by the Go decoder
		return "", "", errors.New("line break")
	}
	b, err := base64.RawURLEncoding.Strict().DecodeString(s)
	if err != nil {
		return "", "", err
	}
	if len(b) < 12 {
		return "", "", errors.New("short")
	}
	p, err := g.aead().Open(nil, b[:12], b[12:], aad)
	if err != nil {
		return "", "", err
	}
	i := strings.IndexByte(string(p), 0)
	return string(p[:i]), string(p[i+1:]), nil
}

// recorder keeps what a serializer returned.
type recorder struct {
	inner token.Serializer
	mu    sync.Mutex
	out   map[string]any
}

func (r *recorder) ContentType() string { return r.inner.ContentType() }
func (r *recorder) Serialize(ctx context.Context, claims any) (string, error) {
	s, err := r.inner.Serialize(ctx, claims)
	if err == nil {
		r.mu.Lock()
		r.out[s] = claims
		r.mu.Unlock()
	}
	return s, err
}

const c22AAD = "urn:solid:token:sign-and-encrypt"

func c22Serializers() map[string]token.Serializer {
	key := c20Key("c22", "ES256")
	prov := func(context.Context) (*jose.JSONWebKey, error) { return key.PrivJWK(), nil }
	return map[string]token.Serializer{
		"JWT": jwt.AccessTokenSigner("ES256", prov), "CWT": cwt.AccessTokenSigner(cose.ES256, prov), "JARM": jwt.JARMSigner("ES256", prov),
	}
}

func c22Encrypt(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("decrypted", 100)
	c.Require("alterations", 3000)
	for i := 0; i < c.N(40, 1500); i++ {
		for name, ser := range c22Serializers() {
			c.Case(fmt.Sprintf("encrypt/%s/%d", name, i), func(k *kit.Case) {
				enc := &gcm{key: []byte(kit.RandString(k.R, 32, kit.Alnum))}
				other := &gcm{key: []byte(kit.RandString(k.R, 32, kit.Alnum))}
				rec := &recorder{inner: ser, out: map[string]any{}}
				s := token.Encryption(rec, enc)
				ct := map[string]string{"JWT": "JWT", "JARM": "JWT", "CWT": "CWT"}[name]
				nested := k.R.Intn(4) == 0
				outer := s
				if nested {
					outer = token.Encryption(s, other)
				}
				k.Check(outer.ContentType() == "HYBRID", "content-type", "content type %q", outer.ContentType())
				claims := map[string]any{"sub": kit.Garbage(k.R, 40), "n": k.R.Intn(1000), "i": kit.Issuer(k.R)}
				val, err := outer.Serialize(ctx, claims)
				if !k.Check(err == nil, "refused", "%s: %v", name, err) {
					return
				}
				cur := val
				if nested {
					ct2, in, err := other.Decrypt(cur, []byte(c22AAD))
					if !k.Check(err == nil && ct2 == "HYBRID", "nested", "nested token: %q %v", ct2, err) {
						return
					}
					cur = in
				}
				gct, inner, err := enc.Decrypt(cur, []byte(c22AAD))
				if !k.Check(err == nil, "undecryptable", "%s: encrypted token cannot be decrypted with its key and data: %v (%v)", name, err, enc.seen) {
					return
				}
				_, ok := rec.out[inner]
				k.Check(ok && len(rec.out) == 1, "inner", "%s: the inner token is not the one signed", name)
				k.Check(gct == ct, "inner-type", "%s: inner content type %q", name, gct)
				k.Check(!strings.Contains(val, inner), "plain", "%s: the inner token is visible", name)
				c.Event("decrypted")
				k.Sig("%s %v", name, nested)
				// alterations
				if _, _, err := other.Decrypt(cur, []byte(c22AAD)); err == nil {
					k.Fail("key", "another key decrypts")
				}
				for _, a := range kit.NearMisses(c22AAD) {
					_, _, err := enc.Decrypt(cur, []byte(a))
					k.Check(err != nil, "aad", "%s: decrypts with additional data %q", name, a)
				}
				for n := 0; n < 40; n++ {
					m := string(kit.MutateBytes(k.R, []byte(cur)))
					if m == cur {
						continue
					}
					_, _, err := enc.Decrypt(m, []byte(c22AAD))
					k.Check(err != nil, "altered", "%s: altered token decrypts", name)
					c.Event("alterations")
				}
			})
		}
	}
	c.Case("faults", func(k *kit.Case) {
		for name, ser := range c22Serializers() {
			for mode := 1; mode <= 2; mode++ {
				enc := &gcm{key: make([]byte, 32)}
				v, err := token.Encryption(&brokenSerializer{ser, mode}, enc).Serialize(ctx, map[string]any{"a": 1})
				k.Check(err != nil && v == "", "fault", "%s: failing signer %d yields %q %v", name, mode, v, err)
				k.Check(len(enc.seen) == 0, "fault", "%s: something was encrypted although signing failed", name)
				v, err = token.Encryption(ser, &gcm{key: make([]byte, 32), mode: mode}).Serialize(ctx, map[string]any{"a": 1})
				k.Check(err != nil && v == "", "fault", "%s: failing encrypter %d yields %q %v", name, mode, v, err)
			}
			// an encrypter answering nothing does not make the signed token appear
			for _, mode := range []int{3, 4} {
				rec := &recorder{inner: ser, out: map[string]any{}}
				v, err := token.Encryption(rec, &gcm{key: make([]byte, 32), mode: mode}).Serialize(ctx, map[string]any{"a": 1})
				for inner := range rec.out {
					k.Check(!strings.Contains(v, inner), "plain", "%s: an encrypter answering nothing yields the signed token (%v)", name, err)
				}
				k.Check(len(rec.out) == 1, "fault", "%s: %d tokens signed", name, len(rec.out))
			}
			v, err := token.Encryption(ser, &gcm{key: make([]byte, 32)}).Serialize(ctx, nil)
			k.Check(err != nil && v == "", "fault", "%s: nil claims yield %q %v", name, v, err)
			v, err = token.Encryption(ser, nil).Serialize(ctx, map[string]any{"a": 1})
			k.Check(err != nil && v == "", "fault", "%s: no encrypter yields %q %v", name, v, err)
			var te *gcm
			v, err = token.Encryption(ser, te).Serialize(ctx, map[string]any{"a": 1})
			k.Check(err != nil && v == "", "fault", "%s: nil encrypter yields %q %v", name, v, err)
		}
		v, err := token.Encryption(nil, &gcm{key: make([]byte, 32)}).Serialize(ctx, map[string]any{"a": 1})
		k.Check(err != nil && v == "", "fault", "no signer yields %q %v", v, err)
	})
	// a generator over an encrypting serializer
	for i := 0; i < c.N(30, 600); i++ {
		c.Case(fmt.Sprintf("generator/%d", i), func(k *kit.Case) {
			enc := &gcm{key: []byte(kit.RandString(k.R, 32, kit.Alnum))}
			g := c21Mk(kit.Pick(k.R, "access", "refresh", "assertion"), kit.Pick(k.R, "jwt", "cwt"), "ES256", func(s token.Serializer) token.Serializer { return token.Encryption(s, enc) })
			t := c21Token(k, g)
			v, err := g.gen.Generate(ctx, t)
			if !k.Check(err == nil, "refused", "%v", err) {
				return
			}
			_, inner, err := enc.Decrypt(v, []byte(c22AAD))
			if k.Check(err == nil, "undecryptable", "%v", err) {
				c21Compare(k, g, "encrypted "+g.kind, inner, t)
			}
		})
	}
}

func c22Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("generated", 500)
	for i := 0; i < c.N(3, 60); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			key, ser := c22Key("ES256")
			g := token.Introspection(ser)
			enc := &gcm{key: []byte(kit.RandString(k.R, 32, kit.Alnum))}
			e := c21Mk("access", "jwt", "ES256", func(s token.Serializer) token.Serializer { return token.Encryption(s, enc) })
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 30; j++ {
						t := c22Token(sub)
						t.Status = tokenv1.TokenStatus(sub.R.Intn(5))
						now := uint64(time.Now().Unix())
						t.Metadata.NotBefore, t.Metadata.ExpiresAt = now-10, now+1000
						want := 0
						if t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
							want = 1
						}
						tok, err := g.Generate(ctx, t)
						if sub.Check(err == nil, "refused", "%v", err) {
							c22Check(sub, "concurrent", tok, key, t, want, 0)
						}
						t2 := c21Token(sub, e)
						v, err := e.gen.Generate(ctx, t2)
						if sub.Check(err == nil, "refused", "%v", err) {
							_, inner, err := enc.Decrypt(v, []byte(c22AAD))
							if sub.Check(err == nil, "undecryptable", "%v", err) {
								c21Compare(sub, e, "concurrent encrypted", inner, t2)
							}
						}
						c.Event("generated")
					}
				})
			}
			wg.Wait()
		})
	}
}
