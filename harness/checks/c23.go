package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifharness/kit"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C23", Level: "exploration",
		Rule: "trip: random success and error responses of several issuers, clients and keys encoded and decoded by every (issuer, client, key) decoder and near misses of them, before and after expiry in virtual time; decide: tokens assembled by an independent JOSE implementation with missing or wrong claims; forge: every derived forgery; race: shared encoders and decoders. " +
			"Non-trivial: a distinct (response kind, decoder relation, time class, answer).",
		Assumptions: []string{"the second exactly at expiry is not judged", "error responses may omit issuer, audience and expiry; what they state must match"},
		Modes:       []kit.Mode{{Name: "trip", Bubble: true, Run: c23Trip}, {Name: "decide", Bubble: true, Run: c23Decide}, {Name: "forge", Bubble: true, Run: c23Forge}, {Name: "race", Race: true, Run: c23Race}},
	})
	kit.Register(&kit.Check{
		ID: "C24", Level: "exploration",
		Rule: "trip: requests with every single field, every pair of fields and random subsets present (optional fields present but empty, extreme numbers, any Unicode) encoded by the real encoder, decoded by the real decoder and compared field by field; decide: payloads of an independent JOSE implementation; forge: every derived forgery and key sets without the signer; race: shared codec. " +
			"Non-trivial: a distinct set of present fields or (forgery, answer).",
		Assumptions: []string{"the typ header of request objects is not checked by the decoder and not judged", "strings are valid UTF-8 (JSON cannot carry others: the encoder must refuse or keep them)"},
		Modes:       []kit.Mode{{Name: "trip", Run: c24Trip}, {Name: "decide", Run: c24Decide}, {Name: "forge", Run: c24Forge}, {Name: "race", Race: true, Run: c24Race}},
	})
}

// party is one signing authorization server or client.
type party struct {
	issuer string
	key    *kit.Key
	ver    token.Verifier
}

type keyProv = func(context.Context) (*jose.JSONWebKey, error)

func mkParty(name, alg, issuer string) *party {
	key := c20Key(name, alg)
	return &party{issuer: issuer, key: key, ver: jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{key.JWK()}}, nil
	}, allAlgs20())}
}

func (p *party) jarm() token.Serializer {
	return jwt.JARMSigner(jose.SignatureAlgorithm(p.key.Alg), func(context.Context) (*jose.JSONWebKey, error) { return p.key.PrivJWK(), nil })
}

func (p *party) request() token.Serializer {
	return jwt.RequestSigner(jose.SignatureAlgorithm(p.key.Alg), func(context.Context) (*jose.JSONWebKey, error) { return p.key.PrivJWK(), nil })
}

// utf is arbitrary valid text.
func utf(k *kit.Case, n int) string {
	return kit.Pick(k.R, kit.RandString(k.R, 1+k.R.Intn(n), kit.Alnum+"-._~ "), strings.ToValidUTF8(kit.Garbage(k.R, n), "?")+"x", "é日本\"\\<>&\u2028\x01", "null", "0", odd(k), kit.Odd(k.R, kit.RandString(k.R, 3, kit.Alnum), false))
}

// odd is text which careless normalisation would change.
func odd(k *kit.Case) string {
	return kit.Pick(k.R, "https://User:pw@Host.Example:443/a/../b%2F//c/?x=1&y=%20&x=2#frag?z", "https://client.example/cb#", "https://client.example/cb/", "HTTPS://CLIENT.EXAMPLE", " lead and trail ", "openid  Email openid", "a\tb\r\nc\n",
		"%41%zz+", "MiXeD", "true", "{}", "[\"a\"]", "e\u0301", "\ufeffbom", "a,b;c", "=", "ßſİ", strings.Repeat("long ", 900), "\\u0041", "&amp;", "'quoted'", "\"", "-", "\x7f")
}

func c23Response(k *kit.Case, p *party) (*flowv1.AuthorizeResponse, string) {
	r := &flowv1.AuthorizeResponse{State: utf(k, 60), ClientId: utf(k, 30), ExpiresIn: 1 + uint64(k.R.Intn(200)), Issuer: p.issuer, RedirectUri: kit.Issuer(k.R), ResponseMode: kit.Pick(k.R, "query.jwt", "fragment.jwt", "form_post.jwt", "jwt", "query", "")}
	if k.R.Intn(8) == 0 {
		r.ExpiresIn = uint64(k.R.Int63n(1_000_000_000)) + 1
	}
	if k.R.Intn(6) == 0 {
		r.Issuer = "" // the issuer is given to the encoder
	}
	if k.R.Intn(2) == 0 {
		r.Code = utf(k, 60)
		return r, "success"
	}
	r.Error = &corev1.Error{Err: kit.Pick(k.R, "access_denied", "invalid_request", "x", "login_required", "consent_required", "interaction_required", "account_selection_required", "unauthorized_client", "unsupported_response_type", "invalid_scope", "server_error", "temporarily_unavailable", "invalid_request_uri", "invalid_request_object", "request_not_supported"), ErrorDescription: utf(k, 40)}
	if k.R.Intn(2) == 0 {
		r.Error.ErrorUri = kit.Str(kit.Issuer(k.R))
	}
	if k.R.Intn(2) == 0 {
		r.Error.ErrorDescription = ""
	}
	if k.R.Intn(3) == 0 { // early errors know little
		r.Error.State = kit.Str(r.State)
		r.State = ""
		if k.R.Intn(2) == 0 {
			r.ClientId, r.ExpiresIn = "", 0
		}
	}
	if k.R.Intn(4) == 0 {
		r.Code = utf(k, 60) // an error response never carries a code
	}
	return r, "error"
}

func c23Judge(k *kit.Case, what string, got *flowv1.AuthorizeResponse, err error, want *flowv1.AuthorizeResponse, accept bool) {
	if !accept {
		k.Check(err != nil, "accepted", "%s: accepted as %v", what, got)
		k.Check(got == nil || got.Code == "" && got.State == "" && got.Issuer == "", "leak", "%s: refused but released %v", what, got)
		return
	}
	if !k.Check(err == nil && got != nil, "refused", "%s: refused: %v", what, err) {
		return
	}
	state := want.State
	if state == "" && want.Error != nil {
		state = want.Error.GetState()
	}
	k.Check(got.State == state, "state", "%s: state %q instead of %q", what, got.State, state)
	k.Check(got.Issuer == want.Issuer, "issuer", "%s: issuer %q instead of %q", what, got.Issuer, want.Issuer)
	if want.Error == nil {
		k.Check(got.Code == want.Code && got.Error == nil, "code", "%s: code %q error %v instead of %q", what, got.Code, got.Error, want.Code)
		return
	}
	k.Check(got.Code == "", "code", "%s: error response with code %q", what, got.Code)
	if k.Check(got.Error != nil, "error", "%s: the error was lost", what) {
		g, w := got.Error, want.Error
		k.Check(g.Err == w.Err && g.ErrorDescription == w.ErrorDescription && g.GetErrorUri() == w.GetErrorUri(), "error", "%s: error %v instead of %v", what, g, w)
	}
}

func c23Trip(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 300)
	c.Require("refused", 3000)
	for i := 0; i < c.N(250, 8000); i++ {
		c.Case(fmt.Sprintf("trip/%d", i), func(k *kit.Case) {
			ps := []*party{mkParty("c23-a", kit.Pick(k.R, "ES256", "ES384", "EdDSA"), kit.Issuer(k.R)), mkParty("c23-b", "ES256", kit.Issuer(k.R))}
			for n := 0; n < 4; n++ {
				p, q := ps[n%2], ps[1-n%2]
				resp, kind := c23Response(k, p)
				before := proto.Clone(resp)
				t0 := time.Now()
				tok, err := jarm.Encoder(p.jarm()).Encode(ctx, p.issuer, resp)
				k.Check(proto.Equal(before, resp), "mutated", "encoding altered the response")
				if !k.Check(err == nil, "encode", "%s cannot be encoded: %v: %v", kind, resp, err) {
					continue
				}
				want := proto.Clone(resp).(*flowv1.AuthorizeResponse)
				want.Issuer = p.issuer
				aud := resp.ClientId
				free := aud == "" // nothing to compare with
				if free {
					aud = "anyone"
				}
				k.Log("%s %v -> %s", kind, resp, tok)
				check := func(what string, dec jarm.ResponseDecoder, a string, accept bool) {
					got, err := dec.Decode(ctx, a, tok)
					c23Judge(k, kind+" "+what, got, err, want, accept)
					c.Event(map[bool]string{true: "accepted", false: "refused"}[accept])
					k.Sig("%s %s %v", kind, what, accept)
				}
				right := jarm.Decoder(p.issuer, p.ver)
				check("right", right, aud, true)
				check("again", right, aud, true)
				check("wrong key", jarm.Decoder(p.issuer, q.ver), aud, false)
				for _, m := range kit.NearMisses(p.issuer) {
					if strings.ToValidUTF8(m, "") == m {
						check("wrong issuer", jarm.Decoder(m, p.ver), aud, false)
					}
				}
				check("other issuer", jarm.Decoder(q.issuer, p.ver), aud, false)
				check("other issuer and key", jarm.Decoder(q.issuer, q.ver), aud, false)
				if !free {
					for _, m := range kit.NearMisses(aud) {
						check("wrong client", right, m, false)
					}
				}
				check("no client", right, "", false)
				if resp.ExpiresIn > 0 && resp.ExpiresIn < 1000 {
					left := t0.Add(time.Duration(resp.ExpiresIn)*time.Second).Unix() - time.Now().Unix()
					if left > 1 {
						time.Sleep(time.Duration(left-1) * time.Second)
						check("last second", right, aud, true)
						left = 1
					}
					time.Sleep(time.Duration(left+1) * time.Second)
					check("expired", right, aud, false)
					time.Sleep(time.Duration(k.R.Intn(100)) * time.Second)
					check("long expired", right, aud, false)
				}
			}
		})
	}
	c.Case("encode-refusals", func(k *kit.Case) {
		p := mkParty("c23-a", "ES256", kit.Issuer(k.R))
		full := func() *flowv1.AuthorizeResponse {
			return &flowv1.AuthorizeResponse{Code: "c", State: "s", ClientId: "id", ExpiresIn: 10, Issuer: p.issuer}
		}
		bad := func(what, iss string, s token.Serializer, f func(r *flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse) {
			tok, err := jarm.Encoder(s).Encode(ctx, iss, f(full()))
			k.Check(err != nil && tok == "", "encode", "%s: encoded as %q %v", what, tok, err)
		}
		same := func(r *flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse { return r }
		bad("nil response", p.issuer, p.jarm(), func(*flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse { return nil })
		bad("no issuer", "", p.jarm(), same)
		bad("no client", p.issuer, p.jarm(), func(r *flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse { r.ClientId = ""; return r })
		bad("no code", p.issuer, p.jarm(), func(r *flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse { r.Code = ""; return r })
		bad("no state", p.issuer, p.jarm(), func(r *flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse { r.State = ""; return r })
		bad("no expiry", p.issuer, p.jarm(), func(r *flowv1.AuthorizeResponse) *flowv1.AuthorizeResponse { r.ExpiresIn = 0; return r })
		bad("failing signer", p.issuer, &brokenSerializer{p.jarm(), 1}, same)
		bad("failing signer 2", p.issuer, &brokenSerializer{p.jarm(), 2}, same)
	})
}

func c23Decide(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("refused", 300)
	c.Require("accepted", 100)
	for i := 0; i < c.N(120, 4000); i++ {
		c.Case(fmt.Sprintf("decide/%d", i), func(k *kit.Case) {
			p := mkParty("c23-a", kit.Pick(k.R, "ES256", "EdDSA"), kit.Issuer(k.R))
			q := mkParty("c23-b", p.key.Alg, kit.Issuer(k.R))
			now := time.Now().Unix()
			aud := utf(k, 20)
			base := func() map[string]any {
				return map[string]any{"iss": p.issuer, "aud": aud, "exp": now + 60, "code": "the-code", "state": "the-state"}
			}
			want := &flowv1.AuthorizeResponse{Code: "the-code", State: "the-state", Issuer: p.issuer}
			ask := func(what string, hdrTyp string, f func(m map[string]any), key *kit.Key, accept bool) {
				m := base()
				f(m)
				tok := key.Token(hdrTyp, m, nil)
				got, err := jarm.Decoder(p.issuer, p.ver).Decode(ctx, aud, tok)
				c23Judge(k, what, got, err, want, accept)
				c.Event(map[bool]string{true: "accepted", false: "refused"}[accept])
				k.Sig("%s", what)
			}
			id := func(map[string]any) {}
			ask("complete", "jarm+jwt", id, p.key, true)
			ask("extra claims", "jarm+jwt", func(m map[string]any) { m["x"] = "y"; m["iat"] = now }, p.key, true)
			for _, n := range []string{"iss", "aud", "exp"} {
				ask("without "+n, "jarm+jwt", func(m map[string]any) { delete(m, n) }, p.key, false)
				ask("null "+n, "jarm+jwt", func(m map[string]any) { m[n] = nil }, p.key, false)
				ask("object "+n, "jarm+jwt", func(m map[string]any) { m[n] = map[string]any{"a": 1} }, p.key, false)
				ask("list "+n, "jarm+jwt", func(m map[string]any) { m[n] = []any{} }, p.key, false)
				ask("false "+n, "jarm+jwt", func(m map[string]any) { m[n] = false }, p.key, false)
			}
			ask("empty iss", "jarm+jwt", func(m map[string]any) { m["iss"] = "" }, p.key, false)
			ask("empty aud", "jarm+jwt", func(m map[string]any) { m["aud"] = "" }, p.key, false)
			ask("aud of others", "jarm+jwt", func(m map[string]any) { m["aud"] = []string{"other"} }, p.key, false)
			ask("near iss", "jarm+jwt", func(m map[string]any) { m["iss"] = strings.ToValidUTF8(kit.NearMiss(k.R, p.issuer), "?") }, p.key, false)
			ask("other iss", "jarm+jwt", func(m map[string]any) { m["iss"] = q.issuer }, p.key, false)
			ask("near aud", "jarm+jwt", func(m map[string]any) {
				a := strings.ToValidUTF8(kit.NearMiss(k.R, aud), "?")
				if a == aud {
					a += "?"
				}
				m["aud"] = a
			}, p.key, false)
			ask("expired", "jarm+jwt", func(m map[string]any) { m["exp"] = now - 1 - int64(k.R.Intn(100)) }, p.key, false)
			ask("exp zero", "jarm+jwt", func(m map[string]any) { m["exp"] = 0 }, p.key, false)
			ask("exp negative", "jarm+jwt", func(m map[string]any) { m["exp"] = -now }, p.key, false)
			ask("exp text", "jarm+jwt", func(m map[string]any) { m["exp"] = fmt.Sprint(now + 60) }, p.key, false)
			for _, t := range []string{"", "JWT", "jarm", "JARM+JWT", "at+jwt", "jarm+jwt ", "xjarm+jwt", "oauth-authz-req+jwt", "application/jarm+jwt", "token-introspection+jwt"} {
				if strings.EqualFold(t, "jarm+jwt") || strings.HasPrefix(t, "application/") {
					continue // media types compare case-insensitively: not judged
				}
				ask("type "+t, t, id, p.key, false)
			}
			ask("other key", "jarm+jwt", id, &kit.Key{Alg: q.key.Alg, Kid: p.key.Kid, Priv: q.key.Priv, Pub: q.key.Pub}, false)
			// errors which say something false about their origin
			want = &flowv1.AuthorizeResponse{State: "the-state", Issuer: p.issuer, Error: &corev1.Error{Err: "access_denied"}}
			er := func(f func(m map[string]any)) func(m map[string]any) {
				return func(m map[string]any) { delete(m, "code"); m["error"] = "access_denied"; f(m) }
			}
			ask("error", "jarm+jwt", er(id), p.key, true)
			ask("error with code", "jarm+jwt", func(m map[string]any) { m["error"] = "access_denied" }, p.key, true)
			ask("error other iss", "jarm+jwt", er(func(m map[string]any) { m["iss"] = q.issuer }), p.key, false)
			ask("error other aud", "jarm+jwt", er(func(m map[string]any) { m["aud"] = "other" }), p.key, false)
			ask("error expired", "jarm+jwt", er(func(m map[string]any) { m["exp"] = now - 5 }), p.key, false)
			ask("error other key", "jarm+jwt", er(id), q.key, false)
		})
	}
}

func c23Forge(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("forgeries", 3000)
	for i := 0; i < c.N(60, 2000); i++ {
		c.Case(fmt.Sprintf("forge/%d", i), func(k *kit.Case) {
			p := mkParty("c23-a", kit.Pick(k.R, "ES256", "ES384", "EdDSA", "RS256", "PS256"), kit.Issuer(k.R))
			resp, kind := c23Response(k, p)
			resp.ExpiresIn = 100
			if resp.ClientId == "" {
				resp.ClientId = "id"
			}
			tok, err := jarm.Encoder(p.jarm()).Encode(ctx, p.issuer, resp)
			if !k.Check(err == nil, "encode", "%v", err) {
				return
			}
			algs := allAlgs20()
			if k.R.Intn(2) == 0 {
				algs = append(algs, "HS256", "HS384", "HS512")
			}
			dec := jarm.Decoder(p.issuer, jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
				return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{p.key.JWK()}}, nil
			}, algs))
			got, err := dec.Decode(ctx, resp.ClientId, tok)
			want := proto.Clone(resp).(*flowv1.AuthorizeResponse)
			want.Issuer = p.issuer
			c23Judge(k, kind, got, err, want, true)
			for _, f := range kit.Forgeries(k.R, tok, p.key, c20Key("c23-foreign", p.key.Alg)) {
				got, err := dec.Decode(ctx, resp.ClientId, f.Tok)
				c23Judge(k, kind+" forgery "+f.Name+" "+f.Tok, got, err, nil, false)
				c.Event("forgeries")
				k.Sig("%s", f.Name)
			}
			for n := 0; n < 20; n++ {
				got, err := dec.Decode(ctx, resp.ClientId, kit.Garbage(k.R, 200))
				c23Judge(k, "garbage", got, err, nil, false)
			}
		})
	}
}

func c23Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("trips", 300)
	for i := 0; i < c.N(3, 60); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			p := mkParty("c23-a", "ES256", kit.Issuer(k.R))
			enc, dec := jarm.Encoder(p.jarm()), jarm.Decoder(p.issuer, p.ver)
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 25; j++ {
						r, kind := c23Response(sub, p)
						r.ExpiresIn = 100
						if r.ClientId == "" {
							r.ClientId = "id"
						}
						tok, err := enc.Encode(ctx, p.issuer, r)
						if !sub.Check(err == nil, "encode", "%v", err) {
							return
						}
						want := proto.Clone(r).(*flowv1.AuthorizeResponse)
						want.Issuer = p.issuer
						got, err := dec.Decode(ctx, r.ClientId, tok)
						c23Judge(sub, "concurrent "+kind, got, err, want, true)
						got, err = dec.Decode(ctx, r.ClientId+"x", tok)
						c23Judge(sub, "concurrent wrong client", got, err, want, false)
						c.Event("trips")
					}
				})
			}
			wg.Wait()
		})
	}
}

// ---- C24

var c24Desc = (&flowv1.AuthorizationRequest{}).ProtoReflect().Descriptor()

// c24Words are values which the fields really have.
var c24Words = map[string][]string{
	"scope": {"openid", "openid offline_access", "openid profile email", "read"}, "response_type": {"code", "token", "id_token", "code id_token", "none"},
	"response_mode": {"query", "fragment", "form_post", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt"},
	"prompt":        {"none", "login", "consent", "select_account", "login consent"}, "display": {"page", "popup", "touch", "wap"},
	"code_challenge_method": {"S256", "plain"}, "redirect_uri": {"https://client.example/cb", "http://127.0.0.1:8085/cb", "com.example.app:/cb"},
	"request_uri": {"urn:solid:abc", "https://client.example/req"}, "request": {"a.b.c"}, "ui_locales": {"fr", "fr en"}, "acr_values": {"0", "urn:x urn:y"},
	"id_token_hint": {"a.b.c"}, "login_hint": {"joe"}, "audience": {"https://api.example/", "https://api.example/ urn:x"},
}

// c24Fill sets field i of r to a drawn value.
func c24Fill(k *kit.Case, r *flowv1.AuthorizationRequest, i int) {
	fd := c24Desc.Fields().Get(i)
	m := r.ProtoReflect()
	text := func() string {
		s := utf(k, 60)
		if fd.HasPresence() && k.R.Intn(5) == 0 {
			return ""
		}
		if ws := c24Words[string(fd.Name())]; len(ws) > 0 && k.R.Intn(2) == 0 {
			return kit.Pick(k.R, ws...)
		}
		return s
	}
	switch {
	case fd.IsList():
		l := m.Mutable(fd).List()
		for n := 0; n < 1+k.R.Intn(4); n++ {
			l.Append(protoreflect.ValueOfString(kit.Pick(k.R, utf(k, 30), "")))
		}
	case fd.Kind() == protoreflect.StringKind:
		m.Set(fd, protoreflect.ValueOfString(text()))
	case fd.Kind() == protoreflect.Uint64Kind:
		m.Set(fd, protoreflect.ValueOfUint64(kit.Pick(k.R, 0, 1, 3600, 1<<53, 1<<53+1, 1<<63, ^uint64(0), k.R.Uint64())))
	default:
		k.Fatal("harness", "unexpected field kind %v", fd.Kind())
	}
}

func c24Trip(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("trips", 500)
	nf := c24Desc.Fields().Len()
	p := mkParty("c24-a", "ES256", "")
	q := mkParty("c24-b", "ES256", "")
	run := func(k *kit.Case, fields []int) {
		r := &flowv1.AuthorizationRequest{}
		var names []string
		for _, f := range fields {
			c24Fill(k, r, f)
			names = append(names, string(c24Desc.Fields().Get(f).Name()))
		}
		k.Sig("%v", names)
		before := proto.Clone(r)
		tok, err := jwsreq.AuthorizationRequestEncoder(p.request()).Encode(ctx, r)
		k.Check(proto.Equal(before, r), "mutated", "encoding altered the request")
		if !k.Check(err == nil, "encode", "cannot encode %v: %v", r, err) {
			return
		}
		j, err := kit.DecodeAny(tok, p.key.Alg, p.key.Pub)
		if k.Check(err == nil, "undecodable", "%v", err) {
			k.Check(j.Header["typ"] == "oauth-authz-req+jwt", "typ", "typ %v", j.Header["typ"])
		}
		got, err := jwsreq.AuthorizationRequestDecoder(p.ver).Decode(ctx, tok)
		if k.Check(err == nil && got != nil, "refused", "own request object refused: %v: %v", r, err) {
			k.Check(proto.Equal(got, r), "changed", "decoded %v instead of %v", got, r)
		}
		got, err = jwsreq.AuthorizationRequestDecoder(q.ver).Decode(ctx, tok)
		k.Check(err != nil && got == nil, "accepted", "request object accepted under other keys")
		c.Event("trips")
	}
	c.Case("trip/empty", func(k *kit.Case) { run(k, nil) })
	for a := 0; a < nf; a++ {
		c.Case(fmt.Sprintf("trip/one/%d", a), func(k *kit.Case) {
			for n := 0; n < 6; n++ {
				run(k, []int{a})
			}
		})
		for b := a + 1; b < nf; b++ {
			c.Case(fmt.Sprintf("trip/two/%d-%d", a, b), func(k *kit.Case) { run(k, []int{a, b}) })
		}
	}
	for i := 0; i < c.N(400, 20000); i++ {
		c.Case(fmt.Sprintf("trip/%d", i), func(k *kit.Case) {
			var fs []int
			for f := 0; f < nf; f++ {
				if k.R.Intn(3) > i%3 {
					fs = append(fs, f)
				}
			}
			run(k, fs)
		})
	}
	c.Case("encode-refusals", func(k *kit.Case) {
		for _, s := range []token.Serializer{&brokenSerializer{p.request(), 1}, &brokenSerializer{p.request(), 2}} {
			tok, err := jwsreq.AuthorizationRequestEncoder(s).Encode(ctx, &flowv1.AuthorizationRequest{Scope: "x"})
			k.Check(err != nil && tok == "", "encode", "failing signer yields %q %v", tok, err)
		}
		tok, err := jwsreq.AuthorizationRequestEncoder(p.request()).Encode(ctx, nil)
		k.Check(err != nil && tok == "", "encode", "nil request yields %q %v", tok, err)
		for n := 0; n < 50; n++ {
			r := &flowv1.AuthorizationRequest{State: "\xff" + kit.Garbage(k.R, 10)}
			tok, err := jwsreq.AuthorizationRequestEncoder(p.request()).Encode(ctx, r)
			if err == nil {
				got, err := jwsreq.AuthorizationRequestDecoder(p.ver).Decode(ctx, tok)
				k.Check(err != nil || proto.Equal(got, r), "changed", "decoded %v instead of %v", got, r)
			}
		}
	})
}

func c24Decide(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("refused", 500)
	c.Require("accepted", 200)
	for i := 0; i < c.N(60, 2000); i++ {
		c.Case(fmt.Sprintf("decide/%d", i), func(k *kit.Case) {
			p := mkParty("c24-a", kit.Pick(k.R, c20Algs...), "")
			q := mkParty("c24-b", p.key.Alg, "")
			dec := jwsreq.AuthorizationRequestDecoder(p.ver)
			ok := func(what string, claims map[string]any, want *flowv1.AuthorizationRequest) {
				got, err := dec.Decode(ctx, p.key.Token("oauth-authz-req+jwt", claims, nil))
				if k.Check(err == nil && got != nil, "refused", "%s %v refused: %v", what, claims, err) {
					k.Check(proto.Equal(got, want), "changed", "%s: decoded %v instead of %v", what, got, want)
				}
				c.Event("accepted")
				k.Sig("%s", what)
			}
			bad := func(what, tok string) {
				got, err := dec.Decode(ctx, tok)
				k.Check(err != nil && got == nil, "accepted", "%s: decoded %v %v", what, got, err)
				c.Event("refused")
				k.Sig("%s", what)
			}
			s := utf(k, 20)
			ok("plain", map[string]any{"client_id": s, "state": s}, &flowv1.AuthorizationRequest{ClientId: s, State: s})
			ok("number", map[string]any{"client_id": s, "max_age": 60}, &flowv1.AuthorizationRequest{ClientId: s, MaxAge: proto.Uint64(60)})
			ok("list", map[string]any{"client_id": s, "resource": []string{"a", s}}, &flowv1.AuthorizationRequest{ClientId: s, Resource: []string{"a", s}})
			ok("present but empty", map[string]any{"prompt": ""}, &flowv1.AuthorizationRequest{Prompt: kit.Str("")})
			good := map[string]any{"client_id": s, "state": s}
			bad("other key", q.key.Token("oauth-authz-req+jwt", good, map[string]any{"kid": p.key.Kid}))
			bad("other key, own kid", q.key.Token("oauth-authz-req+jwt", good, nil))
			bad("other key, no kid", q.key.Token("oauth-authz-req+jwt", good, map[string]any{"kid": nil}))
			bad("kid of nobody", p.key.Token("oauth-authz-req+jwt", good, map[string]any{"kid": "nobody"}))
			for _, v := range []any{1, true, []any{}, map[string]any{"a": 1}, []any{"x"}} {
				bad(fmt.Sprintf("scope=%T", v), p.key.Token("oauth-authz-req+jwt", map[string]any{"scope": v}, nil))
			}
			for _, v := range []any{-1, 1.5, "x", true, "-1", []any{1}, "18446744073709551616"} {
				bad(fmt.Sprintf("max_age=%v", v), p.key.Token("oauth-authz-req+jwt", map[string]any{"max_age": v}, nil))
			}
			bad("resource text", p.key.Token("oauth-authz-req+jwt", map[string]any{"resource": "x"}, nil))
			for _, pl := range []string{"[]", "1", `"x"`, "", "{", "nul", "{}{}", `{"state":"a"}x`} {
				h := map[string]any{"alg": p.key.Alg, "kid": p.key.Kid, "typ": "oauth-authz-req+jwt"}
				bad("payload "+pl, kit.MakeJWS(h, []byte(pl), p.key.Alg, p.key.Priv))
			}
			for n := 0; n < 10; n++ {
				bad("garbage", kit.Garbage(k.R, 200))
			}
			bad("json", string(kit.J(good)))
			bad("b64json", kit.B64(kit.J(good)))
			// verifiers of narrower algorithms, failing providers
			bare := func(v token.Verifier, what string) {
				got, err := jwsreq.AuthorizationRequestDecoder(v).Decode(ctx, p.key.Token("oauth-authz-req+jwt", good, nil))
				k.Check(err != nil && got == nil, "accepted", "%s: decoded %v %v", what, got, err)
				c.Event("refused")
			}
			bare(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
				return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{p.key.JWK()}}, nil
			}, without(allAlgs20(), p.key.Alg)), "algorithm not allowed")
			bare(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return &jose.JSONWebKeySet{}, nil }, allAlgs20()), "no keys")
			bare(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return nil, errors.New("down") }, allAlgs20()), "no key set")
			enc := p.key.JWK()
			enc.Use = "enc"
			bare(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
				return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{enc, q.key.JWK()}}, nil
			}, allAlgs20()), "encryption key")
		})
	}
}

func c24Forge(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("forgeries", 3000)
	for i := 0; i < c.N(60, 2000); i++ {
		c.Case(fmt.Sprintf("forge/%d", i), func(k *kit.Case) {
			p := mkParty("c24-a", kit.Pick(k.R, "ES256", "ES384", "EdDSA", "RS256", "PS256"), "")
			r := &flowv1.AuthorizationRequest{}
			for f := 0; f < c24Desc.Fields().Len(); f++ {
				if k.R.Intn(2) == 0 {
					c24Fill(k, r, f)
				}
			}
			tok, err := jwsreq.AuthorizationRequestEncoder(p.request()).Encode(ctx, r)
			if !k.Check(err == nil, "encode", "%v", err) {
				return
			}
			algs := allAlgs20()
			if k.R.Intn(2) == 0 {
				algs = append(algs, "HS256", "HS384", "HS512")
			}
			dec := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
				return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{p.key.JWK()}}, nil
			}, algs))
			if k.R.Intn(2) == 0 { // the decoder may have seen the original
				got, err := dec.Decode(ctx, tok)
				k.Check(err == nil && proto.Equal(got, r), "changed", "decoded %v %v instead of %v", got, err, r)
				if err == nil { // what a caller does with its result is its own affair
					got.State, got.Scope = "changed", "changed"
					got.Resource = append(got.Resource, "changed")
					got, err = dec.Decode(ctx, tok)
					k.Check(err == nil && proto.Equal(got, r), "changed", "decoded %v %v instead of %v the second time", got, err, r)
				}
			}
			for _, f := range kit.Forgeries(k.R, tok, p.key, c20Key("c24-foreign", p.key.Alg)) {
				got, err := dec.Decode(ctx, f.Tok)
				k.Check(err != nil && got == nil, "accepted", "forgery %s %s decoded %v %v", f.Name, f.Tok, got, err)
				c.Event("forgeries")
				k.Sig("%s", f.Name)
			}
		})
	}
}

func c24Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("trips", 300)
	for i := 0; i < c.N(3, 60); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			p := mkParty("c24-a", "ES256", "")
			enc, dec := jwsreq.AuthorizationRequestEncoder(p.request()), jwsreq.AuthorizationRequestDecoder(p.ver)
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 30; j++ {
						r := &flowv1.AuthorizationRequest{}
						for f := 0; f < c24Desc.Fields().Len(); f++ {
							if sub.R.Intn(3) == 0 {
								c24Fill(sub, r, f)
							}
						}
						tok, err := enc.Encode(ctx, r)
						if !sub.Check(err == nil, "encode", "%v", err) {
							return
						}
						got, err := dec.Decode(ctx, tok)
						sub.Check(err == nil && proto.Equal(got, r), "changed", "decoded %v %v instead of %v", got, err, r)
						c.Event("trips")
					}
				})
			}
			wg.Wait()
		})
	}
}
