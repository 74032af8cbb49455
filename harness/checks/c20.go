package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"

	"verifharness/kit"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C20", Level: "exploration",
		Rule: "verify: tokens made by an independent JOSE implementation over random key sets (uses, duplicate and missing key ids, every algorithm), allowed algorithms and kid headers, given to both verifiers and both key set validators, judged by signer membership; key sets rotate between calls; " +
			"forge: every derived forgery; sign: every signer x algorithm x claims decoded independently and fed back; race: shared verifiers and signers. Non-trivial: a distinct (verifier, key set shape, kid class, algorithm class, signer class, answer).",
		Assumptions: []string{"Verifier.Verify only checks the shape of a token (pinned by its tests): it is exercised but releases no claims", "non-canonical base64 spellings of the same bytes are not judged", "the type header is judged by the consumers (C16-C18, C22-C24)"},
		Modes:       []kit.Mode{{Name: "verify", Run: c20Verify}, {Name: "forge", Run: c20Forge}, {Name: "sign", Run: c20Sign}, {Name: "race", Race: true, Run: c20Race}},
	})
}

var c20Algs = []string{"ES256", "ES384", "ES512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA"}

// keyKind is the kind of key an algorithm needs.
func keyKind(alg string) string {
	if alg[0] == 'R' || alg[0] == 'P' {
		return "RSA"
	}
	return alg
}

// c20Key draws a key usable with alg.
func c20Key(name, alg string) *kit.Key {
	k := kit.NewKey(name, map[bool]string{true: "RS256", false: alg}[keyKind(alg) == "RSA"])
	return &kit.Key{Alg: alg, Kid: name, Priv: k.Priv, Pub: k.Pub}
}

// c20Kid draws a key identifier as deployments have them: thumbprints, dates, URLs, UUIDs.
func c20Kid(r *rand.Rand) string {
	return kit.Pick(r,
		kit.RandString(r, 43, kit.Alnum+"-_"),
		"https://keys.example/"+kit.RandString(r, 6, kit.Alnum)+"#1",
		"2026-11-19",
		"0"+kit.RandString(r, 3, "0123456789"),
		"urn:uuid:"+kit.RandString(r, 36, "0123456789abcdef-"),
		"K/"+kit.RandString(r, 4, kit.Alnum)+" sig",
		kit.RandString(r, 80, kit.Alnum),
		"clé-"+kit.RandString(r, 3, kit.Alnum),
	)
}

type c20Entry struct {
	key *kit.Key
	jwk jose.JSONWebKey
}

func c20Set(k *kit.Case, tag string, n int) []c20Entry {
	var out []c20Entry
	for i := 0; i < n; i++ {
		key := c20Key(fmt.Sprintf("%s-%d", tag, k.R.Intn(12)), kit.Pick(k.R, c20Algs...))
		j := key.JWK()
		j.Use = kit.Pick(k.R, "sig", "sig", "", "enc")
		switch k.R.Intn(6) {
		case 0:
			j.KeyID = ""
		case 2:
			key.Kid = c20Kid(k.R)
			j.KeyID = key.Kid
		case 1:
			if i > 0 {
				j.KeyID = out[k.R.Intn(i)].jwk.KeyID
			}
		}
		if k.R.Intn(4) == 0 {
			j.Algorithm = ""
		}
		out = append(out, c20Entry{key, j})
	}
	return out
}

func keySet(es []c20Entry) *jose.JSONWebKeySet {
	s := &jose.JSONWebKeySet{}
	for _, e := range es {
		s.Keys = append(s.Keys, e.jwk)
	}
	return s
}

type c20Claims = map[string]any

func c20DrawClaims(k *kit.Case) c20Claims {
	m := c20Claims{}
	for i := 0; i < 1+k.R.Intn(6); i++ {
		n := kit.Pick(k.R, "iss", "sub", "aud", "exp", "jti", "scope", "cnf", "é\"\\<>&", "", "nested")
		switch k.R.Intn(5) {
		case 0:
			m[n] = kit.Garbage(k.R, 30)
		case 1:
			m[n] = float64(k.R.Int63n(1 << 52))
		case 2:
			m[n] = []any{"a", true, nil, kit.RandString(k.R, 5, kit.Alnum)}
		case 3:
			m[n] = map[string]any{"jkt": kit.RandString(k.R, 43, kit.Alnum)}
		default:
			m[n] = kit.RandString(k.R, 1+k.R.Intn(40), kit.Alnum)
		}
	}
	// strings which are not valid UTF-8 cannot be carried by JSON
	var c c20Claims
	_ = json.Unmarshal(kit.J(m), &c)
	return c
}

func sameJSON(a, b any) bool {
	var x, y any
	_ = json.Unmarshal(kit.J(a), &x)
	_ = json.Unmarshal(kit.J(b), &y)
	return reflect.DeepEqual(x, y)
}

// judgeClaims compares an answer with the expectation.
func judgeClaims(k *kit.Case, what string, err error, dest c20Claims, want c20Claims, accept bool) {
	if accept {
		k.Check(err == nil, "refused", "%s: valid token refused: %v", what, err)
		k.Check(err != nil || sameJSON(dest, want), "claims", "%s: claims %v instead of %v", what, dest, want)
		return
	}
	k.Check(err != nil, "accepted", "%s: token accepted with claims %v", what, dest)
	k.Check(len(dest) == 0, "leak", "%s: refused token released claims %v", what, dest)
}

func c20Verify(c *kit.Ctx) {
	type ctxKey struct{}
	c.Require("accepted", 1500)
	c.Require("refused", 1500)
	c.Require("rotations", 300)
	for i := 0; i < c.N(900, 60000); i++ {
		c.Case(fmt.Sprintf("verify/%d", i), func(k *kit.Case) {
			es := c20Set(k, "c20", 1+k.R.Intn(4))
			foreign := c20Key("c20-foreign", kit.Pick(k.R, c20Algs...))
			var provErr error
			ctx := context.WithValue(context.Background(), ctxKey{}, k)
			prov := func(pc context.Context) (*jose.JSONWebKeySet, error) {
				k.Check(pc.Value(ctxKey{}) == any(k), "ctx", "the key set provider does not receive the caller's context")
				return keySet(es), provErr
			}
			var allowed []jose.SignatureAlgorithm
			for _, a := range c20Algs {
				if k.R.Intn(3) > 0 {
					allowed = append(allowed, jose.SignatureAlgorithm(a))
				}
			}
			if k.R.Intn(3) == 0 {
				allowed = append(allowed, "HS256", "none")
			}
			v := jwt.DefaultVerifier(prov, allowed)
			for n := 0; n < 6; n++ {
				// signer, algorithm, kid
				signer, cls := foreign, "foreign"
				kidOf := kit.RandString(k.R, 6, kit.Alnum)
				if k.R.Intn(5) > 0 && len(es) > 0 {
					e := es[k.R.Intn(len(es))]
					signer, cls, kidOf = e.key, "use="+e.jwk.Use, e.jwk.KeyID
				}
				alg := signer.Alg
				if keyKind(alg) == "RSA" && k.R.Intn(2) == 0 {
					alg = kit.Pick(k.R, "RS256", "RS384", "RS512", "PS256", "PS384", "PS512")
				}
				hdr := map[string]any{"alg": alg}
				kid, kidCls := "", "none"
				switch k.R.Intn(6) {
				case 0:
				case 1:
					if len(es) > 0 {
						kid, kidCls = es[k.R.Intn(len(es))].jwk.KeyID, "other"
					}
				case 2:
					kid, kidCls = kit.NearMiss(k.R, kidOf), "near"
					if strings.ToValidUTF8(kid, "") != kid {
						kid = "zz"
					}
				default:
					kid, kidCls = kidOf, "own"
				}
				if kid != "" || k.R.Intn(4) == 0 {
					hdr["kid"] = kid
				}
				if k.R.Intn(2) == 0 {
					hdr["typ"] = kit.Pick(k.R, "at+jwt", "JWT", "x")
				}
				claims := c20DrawClaims(k)
				tok := kit.MakeJWS(hdr, kit.J(claims), alg, signer.Priv)
				inAllowed := false
				for _, a := range allowed {
					inAllowed = inAllowed || string(a) == alg
				}
				byKid, any := false, false
				for _, e := range es {
					if e.jwk.Use == "enc" || e.key.Thumb() != signer.Thumb() || keyKind(e.key.Alg) != keyKind(alg) {
						continue
					}
					any = true
					byKid = byKid || kid == "" || e.jwk.KeyID == kid
				}
				what := fmt.Sprintf("%s signer=%s kid=%q(%s) allowed=%v set=%v", alg, cls, kid, kidCls, allowed, kids(es))
				k.Log("%s", what)
				// verifier
				dest := c20Claims{}
				err := v.Claims(ctx, tok, &dest)
				want := inAllowed && byKid
				judgeClaims(k, "DefaultVerifier "+what, err, dest, claims, want)
				c.Event(map[bool]string{true: "accepted", false: "refused"}[want])
				k.Sig("v%v %s %s %v", len(es), kidCls, cls, want)
				verr := v.Verify(tok)
				k.Check((verr == nil) == inAllowed, "verify", "%s: Verify %v with algorithm allowed=%v", what, verr, inAllowed)
				// parse
				t, perr := v.Parse(tok)
				k.Check((perr == nil) == inAllowed, "parse", "%s: Parse %v with algorithm allowed=%v", what, perr, inAllowed)
				if perr == nil {
					checkAdapter(k, what, t, hdr, nil)
					d2 := c20Claims{}
					e2 := t.Claims(signer.Pub, &d2)
					judgeClaims(k, "Token.Claims own key "+what, e2, d2, claims, true)
					wrong := c20Key("c20-wrong", alg)
					d3 := c20Claims{}
					e3 := t.Claims(wrong.Pub, &d3)
					judgeClaims(k, "Token.Claims wrong key "+what, e3, d3, nil, false)
				}
				// key set validators
				set := keySet(es)
				jt, e1 := josejwt.ParseSigned(tok, allAlgs20())
				js, e2 := jose.ParseSigned(tok, allAlgs20())
				if e1 != nil || e2 != nil {
					k.Fatal("harness", "cannot parse %v %v", e1, e2)
				}
				d4 := c20Claims{}
				judgeClaims(k, "jwk.ValidateToken "+what, jwk.ValidateToken(set, jt, &d4), d4, claims, any)
				serr := jwk.ValidateSignature(set, js)
				k.Check((serr == nil) == any, "signature", "ValidateSignature %s: %v, signer in set: %v", what, serr, any)
				// provider failures
				if k.R.Intn(6) == 0 {
					provErr = errors.New("provider down")
					d5 := c20Claims{}
					judgeClaims(k, "failing provider "+what, v.Claims(ctx, tok, &d5), d5, nil, false)
					provErr = nil
				}
				// rotation: the signer leaves the set
				if want && k.R.Intn(2) == 0 {
					var rest []c20Entry
					for _, e := range es {
						if e.key.Thumb() != signer.Thumb() {
							rest = append(rest, e)
						}
					}
					saved := es
					es = rest
					d6 := c20Claims{}
					judgeClaims(k, "removed key "+what, v.Claims(ctx, tok, &d6), d6, nil, false)
					es = saved
					d7 := c20Claims{}
					judgeClaims(k, "restored key "+what, v.Claims(ctx, tok, &d7), d7, claims, true)
					c.Event("rotations")
				}
			}
			_ = jwk.ValidateToken
		})
	}
	c.Case("nil", func(k *kit.Case) {
		key := c20Key("c20-0", "ES256")
		tok := key.Token("x", c20Claims{"a": 1}, nil)
		jt, _ := josejwt.ParseSigned(tok, allAlgs20())
		js, _ := jose.ParseSigned(tok, allAlgs20())
		one := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{key.JWK()}}
		var d c20Claims
		k.Check(jwk.ValidateToken(nil, jt, &d) != nil && jwk.ValidateToken(&jose.JSONWebKeySet{}, jt, &d) != nil && jwk.ValidateToken(one, nil, &d) != nil, "nil", "ValidateToken accepts absent arguments")
		k.Check(jwk.ValidateSignature(nil, js) != nil && jwk.ValidateSignature(&jose.JSONWebKeySet{}, js) != nil && jwk.ValidateSignature(one, nil) != nil, "nil", "ValidateSignature accepts absent arguments")
		k.Check(len(d) == 0, "leak", "claims released without key set")
	})
}

func kids(es []c20Entry) []string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("%s/%s/%s/%s", e.key.Kid, e.jwk.KeyID, e.jwk.Use, e.key.Alg))
	}
	return out
}

func allAlgs20() []jose.SignatureAlgorithm {
	var out []jose.SignatureAlgorithm
	for _, a := range c20Algs {
		out = append(out, jose.SignatureAlgorithm(a))
	}
	return out
}

// checkAdapter compares what a parsed token reports with its header.
func checkAdapter(k *kit.Case, what string, t token.Token, hdr map[string]any, emb *kit.Key) {
	a, err := t.Algorithm()
	k.Check(err == nil && a == hdr["alg"], "alg", "%s: Algorithm %q %v, header %v", what, a, err, hdr)
	id, err := t.KeyID()
	wantKid, _ := hdr["kid"].(string)
	k.Check(err == nil && id == wantKid, "kid", "%s: KeyID %q %v, header %v", what, id, err, hdr)
	typ, err := t.Type()
	if w, ok := hdr["typ"]; ok {
		k.Check(err == nil && typ == w, "typ", "%s: Type %q %v, header %v", what, typ, err, hdr)
	} else {
		k.Check(err != nil, "typ", "%s: Type %q without typ header", what, typ)
	}
	pk, perr := t.PublicKey()
	th, terr := t.PublicKeyThumbPrint()
	if emb == nil {
		k.Check(perr != nil && terr != nil && th == "", "embedded", "%s: token without embedded key reports %v %q", what, pk, th)
		return
	}
	k.Check(perr == nil && terr == nil, "embedded", "%s: embedded key not reported: %v %v", what, perr, terr)
	k.Check(th == emb.Thumb(), "thumb", "%s: thumbprint %q instead of %q", what, th, emb.Thumb())
	j, ok := pk.(*jose.JSONWebKey)
	if !ok {
		if v, is := pk.(jose.JSONWebKey); is {
			j, ok = &v, true
		}
	}
	if ok {
		eq, is := j.Key.(interface{ Equal(x crypto20) bool })
		k.Check(!is || eq.Equal(emb.Pub), "embedded", "%s: PublicKey is not the embedded key", what)
	}
}

type crypto20 = interface{}

func c20Forge(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("forgeries", 5000)
	for i := 0; i < c.N(120, 3000); i++ {
		c.Case(fmt.Sprintf("forge/%d", i), func(k *kit.Case) {
			key := c20Key("c20-f", kit.Pick(k.R, "ES256", "ES384", "ES512", "RS256", "PS256", "EdDSA"))
			other := c20Key("c20-g", kit.Pick(k.R, c20Algs...))
			foreign := c20Key("c20-foreign", key.Alg)
			allowed := allAlgs20()
			if k.R.Intn(2) == 0 {
				allowed = append(allowed, "HS256", "HS384", "HS512")
			}
			set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{key.JWK(), other.JWK()}}
			v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, allowed)
			ev := jwt.EmbeddedKeyVerifier(allowed)
			claims := c20DrawClaims(k)
			claims["iss"] = "x"
			tok := key.Token("at+jwt", claims, nil)
			d := c20Claims{}
			judgeClaims(k, "valid token", v.Claims(ctx, tok, &d), d, claims, true)
			for _, f := range kit.Forgeries(k.R, tok, key, foreign) {
				d := c20Claims{}
				k.Sig("%s", f.Name)
				judgeClaims(k, "DefaultVerifier forgery "+f.Name+" "+f.Tok, v.Claims(ctx, f.Tok, &d), d, nil, false)
				c.Event("forgeries")
				if jt, err := josejwt.ParseSigned(f.Tok, allowed); err == nil {
					d := c20Claims{}
					judgeClaims(k, "ValidateToken forgery "+f.Name, jwk.ValidateToken(set, jt, &d), d, nil, false)
				}
				if js, err := jose.ParseSigned(f.Tok, allowed); err == nil {
					k.Check(jwk.ValidateSignature(set, js) != nil, "accepted", "ValidateSignature accepts forgery %s %s", f.Name, f.Tok)
				}
			}
			// embedded keys
			emb := key.Token("dpop+jwt", claims, map[string]any{"jwk": bareJWK(key), "kid": nil})
			d = c20Claims{}
			judgeClaims(k, "valid embedded token", ev.Claims(ctx, emb, &d), d, claims, true)
			if t, err := ev.Parse(emb); err != nil {
				k.Fail("parse", "embedded verifier cannot parse %v", err)
			} else {
				checkAdapter(k, "embedded", t, map[string]any{"alg": key.Alg, "typ": "dpop+jwt"}, key)
			}
			d = c20Claims{}
			judgeClaims(k, "embedded verifier, no key", ev.Claims(ctx, tok, &d), d, nil, false)
			k.Check(ev.Verify(tok) != nil, "verify", "EmbeddedKeyVerifier.Verify accepts a token without key")
			withAlg := bareJWK(key)
			withAlg["alg"] = key.Alg
			full := key.Token("dpop+jwt", claims, map[string]any{"jwk": withAlg, "kid": nil})
			err := ev.Verify(full)
			k.Check(err == nil, "verify", "EmbeddedKeyVerifier.Verify refuses a valid token: %v", err)
			k.Check(jwt.EmbeddedKeyVerifier(without(allAlgs20(), key.Alg)).Verify(full) != nil, "verify", "EmbeddedKeyVerifier.Verify accepts an algorithm which is not allowed")
			for _, f := range kit.Forgeries(k.R, emb, key, foreign) {
				d := c20Claims{}
				if f.Name == "foreign-embedded" {
					judgeClaims(k, "embedded verifier, other key", ev.Claims(ctx, f.Tok, &d), d, claims, true)
					if t, err := ev.Parse(f.Tok); err == nil {
						th, _ := t.PublicKeyThumbPrint()
						k.Check(th == foreign.Thumb(), "thumb", "thumbprint %q is not the embedded key's", th)
					}
					continue
				}
				judgeClaims(k, "EmbeddedKeyVerifier forgery "+f.Name+" "+f.Tok, ev.Claims(ctx, f.Tok, &d), d, nil, false)
				c.Event("forgeries")
			}
			// the embedded key of somebody else than the signer
			h := map[string]any{"alg": key.Alg, "jwk": bareJWK(foreign), "typ": "dpop+jwt"}
			d = c20Claims{}
			judgeClaims(k, "embedded key is not the signer", ev.Claims(ctx, kit.MakeJWS(h, kit.J(claims), key.Alg, key.Priv), &d), d, nil, false)
			// allowed set of the embedded verifier
			ev2 := jwt.EmbeddedKeyVerifier(without(allAlgs20(), key.Alg))
			d = c20Claims{}
			judgeClaims(k, "embedded verifier, algorithm not allowed", ev2.Claims(ctx, emb, &d), d, nil, false)
			_, err = ev2.Parse(emb)
			k.Check(err != nil, "parse", "Parse accepts an algorithm which is not allowed")
		})
	}
}

type c20Builder struct {
	name, typ string
	mk        func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer
}

var c20Builders = []c20Builder{
	{"access", "at+jwt", jwt.AccessTokenSigner}, {"refresh", "rt+jwt", jwt.RefreshTokenSigner}, {"request", "oauth-authz-req+jwt", jwt.RequestSigner},
	{"jarm", "jarm+jwt", jwt.JARMSigner}, {"dpop", "dpop+jwt", jwt.DPoPSigner}, {"assertion", "client-assertion+jwt", jwt.ClientAssertionSigner},
	{"introspection", "token-introspection+jwt", jwt.TokenIntrospection}, {"metadata", "oauth-authorization-server+jwt", jwt.ServerMetadata},
}

func noPrivate(v any) bool {
	switch x := v.(type) {
	case map[string]any:
		for n, e := range x {
			switch n {
			case "d", "p", "q", "dp", "dq", "qi", "oth", "k":
				return false
			}
			if !noPrivate(e) {
				return false
			}
		}
	case []any:
		for _, e := range x {
			if !noPrivate(e) {
				return false
			}
		}
	}
	return true
}

func checkSigned(k *kit.Case, b c20Builder, what, tok string, key *kit.Key, alg string, claims c20Claims) {
	j, err := kit.DecodeAny(tok, alg, key.Pub)
	if err != nil {
		k.Fail("undecodable", "%s: %v: %s", what, err, tok)
		return
	}
	k.Check(j.Header["typ"] == b.typ, "typ", "%s: typ %v", what, j.Header["typ"])
	k.Check(j.Header["kid"] == key.Kid, "kid", "%s: kid %v", what, j.Header["kid"])
	k.Check(noPrivate(j.Header), "private", "%s: private key material in header %v", what, j.Header)
	emb, _ := j.Header["jwk"].(map[string]any)
	if b.name == "dpop" {
		want := key.JWKMap()
		for _, n := range []string{"kty", "crv", "x", "y", "n", "e"} {
			k.Check(emb[n] == want[n], "embedded", "%s: embedded key %v instead of %v", what, emb, want)
		}
	} else {
		k.Check(j.Header["jwk"] == nil, "embedded", "%s: unexpected embedded key", what)
	}
	k.Check(sameJSON(j.Payload, claims), "claims", "%s: payload %v instead of %v", what, j.Payload, claims)
}

func c20Sign(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("signed", 500)
	c.Require("signer_refused", 200)
	c.Require("signer_rotations", 500)
	for i := 0; i < c.N(12, 400); i++ {
		for _, b := range c20Builders {
			c.Case(fmt.Sprintf("sign/%s/%d", b.name, i), func(k *kit.Case) {
				for _, alg := range c20Algs {
					key := c20Key("c20-s", alg)
					if k.R.Intn(2) == 0 {
						key.Kid = c20Kid(k.R)
					}
					pj := key.PrivJWK()
					if k.R.Intn(2) == 0 {
						pj.Algorithm = ""
					}
					if k.R.Intn(2) == 0 {
						pj.Use = ""
					}
					prov := func(context.Context) (*jose.JSONWebKey, error) { return pj, nil }
					s := b.mk(jose.SignatureAlgorithm(alg), prov)
					k.Check(s.ContentType() == "JWT", "content-type", "content type %q", s.ContentType())
					claims := c20DrawClaims(k)
					tok, err := s.Serialize(ctx, claims)
					what := b.name + " " + alg
					if !k.Check(err == nil, "refused", "%s: cannot sign %v: %v", what, claims, err) {
						continue
					}
					c.Event("signed")
					k.Sig("%s", what)
					checkSigned(k, b, what, tok, key, alg, claims)
					// the provider moves to other keys; the one it answers with signs
					cur, curErr := pj, error(nil)
					rs := b.mk(jose.SignatureAlgorithm(alg), func(context.Context) (*jose.JSONWebKey, error) { return cur, curErr })
					for n := 0; n < 4; n++ {
						rk := c20Key(kit.Pick(k.R, "c20-s", "c20-t", "c20-u"), alg)
						rk.Kid = kit.Pick(k.R, "same", "same", rk.Kid, c20Kid(k.R))
						cur, curErr = rk.PrivJWK(), nil
						rt, err := rs.Serialize(ctx, claims)
						if k.Check(err == nil, "refused", "%s: cannot sign after rotation: %v", what, err) {
							checkSigned(k, b, what+" rotated", rt, rk, alg, claims)
						}
						if n == 2 {
							cur, curErr = nil, kit.Pick(k.R, nil, errors.New("x"))
							rt, err := rs.Serialize(ctx, claims)
							k.Check(err != nil && rt == "", "signed-bad", "%s: signed with a key withdrawn by the provider", what)
						}
						c.Event("signer_rotations")
					}
					// the matching verifier
					pub := key.JWK()
					v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
						return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
					}, []jose.SignatureAlgorithm{jose.SignatureAlgorithm(alg)})
					d := c20Claims{}
					judgeClaims(k, what+" verifier", v.Claims(ctx, tok, &d), d, claims, true)
					if b.name == "dpop" {
						ev := jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.SignatureAlgorithm(alg)})
						d := c20Claims{}
						judgeClaims(k, what+" embedded verifier", ev.Claims(ctx, tok, &d), d, claims, true)
						if t, err := ev.Parse(tok); err == nil {
							th, _ := t.PublicKeyThumbPrint()
							k.Check(th == key.Thumb(), "thumb", "%s: thumbprint %q instead of %q", what, th, key.Thumb())
						}
					}
					// the key must not have been altered
					k.Check(pj.KeyID == key.Kid && (alg == "EdDSA" || pj.Key == key.Priv), "mutated", "%s: the provider's key was altered", what)
					// refusals
					bad := func(n string, cl any, p jwk.KeyProviderFunc, a string) {
						tok, err := b.mk(jose.SignatureAlgorithm(a), p).Serialize(ctx, cl)
						k.Check(err != nil && tok == "", "signed-bad", "%s: %s: token %q error %v", what, n, tok, err)
						c.Event("signer_refused")
					}
					var typed *c20Typed
					bad("nil claims", nil, prov, alg)
					bad("typed nil claims", typed, prov, alg)
					bad("nil provider", claims, nil, alg)
					bad("nil key", claims, func(context.Context) (*jose.JSONWebKey, error) { return nil, nil }, alg)
					bad("provider error", claims, func(context.Context) (*jose.JSONWebKey, error) { return pj, errors.New("x") }, alg)
					bad("no key id", claims, func(context.Context) (*jose.JSONWebKey, error) { q := *pj; q.KeyID = ""; return &q, nil }, alg)
					pubOnly := key.JWK()
					bad("public key", claims, func(context.Context) (*jose.JSONWebKey, error) { return &pubOnly, nil }, alg)
					bad("unencodable claims", map[string]any{"x": make(chan int)}, prov, alg)
					bad("alg none", claims, prov, "none")
					bad("alg unknown", claims, prov, "XX")
					for _, a := range c20Algs {
						if keyKind(a) != keyKind(alg) {
							bad("alg mismatch "+a, claims, prov, a)
						}
					}
				}
			})
		}
	}
}

type c20Typed struct{ A string }

func c20Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("shared_ops", 1000)
	for i := 0; i < c.N(4, 80); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			keys := []*kit.Key{c20Key("c20-r0", "ES256"), c20Key("c20-r1", "EdDSA"), c20Key("c20-r2", "ES384")}
			set := &jose.JSONWebKeySet{}
			for _, x := range keys {
				set.Keys = append(set.Keys, x.JWK())
			}
			v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, allAlgs20())
			ev := jwt.EmbeddedKeyVerifier(allAlgs20())
			// a second key of each algorithm: the caller's context says which one the provider gives
			type which struct{}
			for _, x := range keys[:3] {
				y := c20Key(x.Kid+"b", x.Alg)
				keys = append(keys, y)
				set.Keys = append(set.Keys, y.JWK())
			}
			var signers []token.Serializer
			for _, b := range c20Builders {
				for _, x := range keys[:3] {
					signers = append(signers, b.mk(jose.SignatureAlgorithm(x.Alg), func(ctx context.Context) (*jose.JSONWebKey, error) {
						return keys[ctx.Value(which{}).(int)].PrivJWK(), nil
					}))
				}
			}
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				k.Go(&wg, func() {
					for n := 0; n < 60; n++ {
						bi, ki := sub.R.Intn(len(c20Builders)), sub.R.Intn(len(keys))
						claims := c20DrawClaims(sub)
						tok, err := signers[bi*3+ki%3].Serialize(context.WithValue(ctx, which{}, ki), claims)
						if !sub.Check(err == nil, "refused", "concurrent signer: %v", err) {
							return
						}
						checkSigned(sub, c20Builders[bi], "concurrent", tok, keys[ki], keys[ki].Alg, claims)
						d := c20Claims{}
						judgeClaims(sub, "concurrent verifier", v.Claims(ctx, tok, &d), d, claims, true)
						d = c20Claims{}
						judgeClaims(sub, "concurrent embedded verifier", ev.Claims(ctx, tok, &d), d, claims, c20Builders[bi].name == "dpop")
						c.Event("shared_ops")
					}
				})
			}
			wg.Wait()
		})
	}
}
