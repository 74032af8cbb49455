package checks

import (
	"context"
	"crypto/elliptic"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C05", Level: "exploration",
		Rule: "each case runs one grant (code, client_credentials, device, refresh) with random scope, audience, confirmation, subject, decoy token request fields and token format (verifiable, JWT, opaque) in virtual time and compares every field of every token handed out, stored, introspected and (JWT) decoded independently. " +
			"Non-trivial: a distinct combination of grant, format, scope shape, confirmation and decoys.",
		Assumptions: []string{"not-before is either the issue second or the next one"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c05}, {Name: "race", Race: true, Run: c05Race}, {Name: "restart", Run: restart("C05")}, {Name: "birthday", Run: birthday("C05")}},
	})
}

// want describes the token expected.
type wantToken struct {
	typ                          tokenv1.TokenType
	iss, sub, client, scope, aud string
	cnf                          *tokenv1.TokenConfirmation
	life                         uint64
	now                          uint64
	format                       string
}

const (
	hour = 3600
	week = 7 * 24 * 3600
)

// checkToken compares every field; slack is the allowed clock difference in seconds.
func checkToken(k *kit.Case, what string, t *tokenv1.Token, w wantToken, slack uint64) {
	if !k.Check(t != nil && t.Metadata != nil && t.Value != "" && t.TokenId != "", "token-shape", "%s: incomplete token %s", what, kit.Brief(t)) {
		return
	}
	m := t.Metadata
	k.Check(t.TokenType == w.typ, "token-type", "%s: type %v", what, t.TokenType)
	k.Check(t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "token-status", "%s: status %v", what, t.Status)
	k.Check(m.Issuer == w.iss, "token-issuer", "%s: issuer %q want %q", what, m.Issuer, w.iss)
	k.Check(m.Subject == w.sub, "token-subject", "%s: subject %q want %q", what, m.Subject, w.sub)
	k.Check(m.ClientId == w.client, "token-client", "%s: client %q want %q", what, m.ClientId, w.client)
	k.Check(m.Scope == w.scope, "token-scope", "%s: scope %q want %q", what, m.Scope, w.scope)
	k.Check(m.Audience == w.aud, "token-audience", "%s: audience %q want %q", what, m.Audience, w.aud)
	k.Check(m.IssuedAt >= w.now && m.IssuedAt <= w.now+slack, "token-iat", "%s: iat %d now %d", what, m.IssuedAt, w.now)
	k.Check(m.NotBefore >= m.IssuedAt && m.NotBefore <= m.IssuedAt+1, "token-nbf", "%s: nbf %d iat %d", what, m.NotBefore, m.IssuedAt)
	k.Check(m.ExpiresAt == m.IssuedAt+w.life, "token-exp", "%s: lifetime %d want %d", what, int64(m.ExpiresAt)-int64(m.IssuedAt), w.life)
	k.Check(proto.Equal(t.Confirmation, w.cnf), "token-cnf", "%s: confirmation %v want %v", what, t.Confirmation, w.cnf)
	if w.format == "jwt" {
		j, err := kit.DecodeJWS(t.Value, &kit.ECKey("as", elliptic.P256()).PublicKey)
		if !k.Check(err == nil, "jwt-decode", "%s: %v", what, err) {
			return
		}
		typ := "at+jwt"
		if w.typ == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
			typ = "rt+jwt"
		}
		k.Check(j.Header["typ"] == typ, "jwt-typ", "%s: typ %v", what, j.Header["typ"])
		for n, v := range map[string]string{"iss": w.iss, "sub": w.sub, "client_id": w.client, "scope": w.scope, "jti": t.TokenId, "aud": w.aud} {
			got := j.Str(n)
			if n == "aud" {
				if l, ok := j.Payload["aud"].([]any); ok && len(l) == 1 {
					got, _ = l[0].(string)
				}
				if w.typ == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN && got == "" {
					continue
				}
			}
			k.Check(got == v, "jwt-"+n, "%s: JWT claim %s=%v want %q", what, n, j.Payload[n], v)
		}
		for n, v := range map[string]uint64{"iat": m.IssuedAt, "nbf": m.NotBefore, "exp": m.ExpiresAt} {
			k.Check(j.Num(n) == v, "jwt-"+n, "%s: JWT claim %s=%v want %d", what, n, j.Payload[n], v)
		}
		if w.typ == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {
			k.Check(j.Jkt() == w.cnf.GetJkt(), "jwt-cnf", "%s: JWT jkt %q want %q", what, j.Jkt(), w.cnf.GetJkt())
		}
	}
}

// checkResolves: the value handed out resolves to the very same token.
func checkResolves(k *kit.Case, w *kit.World, what string, iss string, cl *clientv1.Client, t *tokenv1.Token) {
	ctx := context.Background()
	ir, err := w.Introspect(ctx, iss, cl, t.Value)
	if !k.Check(err == nil && ir.GetToken() != nil, "introspect", "%s: introspection failed: %v", what, err) {
		return
	}
	g := kit.Clone(ir.Token)
	g.Value = t.Value // the storage keeps a digest
	k.Check(proto.Equal(g, t), "resolve", "%s: value resolves to %s, handed out %s", what, kit.Brief(ir.Token), kit.Brief(t))
	s, err := w.Raw.Tokens.Get(ctx, iss, t.TokenId)
	if !k.Check(err == nil, "resolve-id", "%s: not found by identifier: %v", what, err) {
		return
	}
	g = kit.Clone(s)
	g.Value = t.Value
	k.Check(proto.Equal(g, t), "resolve-id", "%s: identifier resolves to another token %s", what, kit.Brief(s))
	k.Event("token_verified")
}

func c05Scopes(k *kit.Case) string {
	s := kit.Pick(k.R, "openid", "openid offline_access", "offline_access openid profile", "offline_access", "profile email", "openid profile read:all", "openid  offline_access", "offline_accessx openid", "openid xoffline_access",
		"openid openid offline_access offline_access", "read Read READ openid", " openid offline_access ", "profile Profile email Email", "b a b A c", "openid offline_access openid", "read:all read:ALL openid OFFLINE_ACCESS", "OpenID profile")
	if k.R.Intn(3) == 0 {
		s += " " + kit.RandString(k.R, 3, kit.Alnum)
	}
	return s
}

func c05Cnf(k *kit.Case) *tokenv1.TokenConfirmation {
	if k.R.Intn(3) == 0 {
		return nil
	}
	return &tokenv1.TokenConfirmation{Jkt: kit.RandString(k.R, 43, kit.Alnum)}
}

func wantsRefresh(scope string, needOpenID bool) bool {
	off, oid := false, false
	for _, s := range strings.Fields(scope) {
		off = off || strings.EqualFold(s, "offline_access")
		oid = oid || strings.EqualFold(s, "openid")
	}
	return off && (oid || !needOpenID)
}

func c05(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("token_verified", 1000)
	c.Require("refresh_token_issued", 100)
	ids, values := map[string]bool{}, map[string]bool{}
	for _, format := range []string{"verifiable", "jwt", "opaque"} {
		var created atomic.Int32
		w := kit.NewWorld(kit.NewStores(format), func(ctx context.Context, op string, do func() error) error {
			err := do()
			if op == "tokens.Create" && err == nil {
				created.Add(1)
			}
			return err
		})
		for i := 0; i < c.N(1500, 40000); i++ {
			c.Case(fmt.Sprintf("%s/%d", format, i), func(k *kit.Case) {
				r := k.R
				time.Sleep(time.Duration(r.Intn(2500)) * time.Millisecond)
				iss, sub := kit.Issuer(r), kit.Pick(r, "user-", "u:", "ユーザ", "")+kit.RandString(r, 1+r.Intn(12), kit.Alnum)
				if format == "jwt" {
					sub = kit.Subject(r, iss, "client")
				}
				if r.Intn(3) == 0 {
					sub = kit.Odd(r, "u"+kit.RandString(r, 4, kit.Alnum), true)
				}
				cl := w.Client(nil)
				scope, cnf := c05Scopes(k), c05Cnf(k)
				flow := kit.Pick(r, "code", "cc", "device")
				aud := "https://api.example/" + kit.RandString(r, 4, kit.Alnum)
				if r.Intn(3) == 0 {
					aud = kit.Odd(r, aud, true)
				}
				// the parties of the request may well be named by one another
				switch r.Intn(8) {
				case 0:
					aud = cl.ClientId
				case 1:
					aud = iss
				case 2:
					aud = sub
				case 3:
					sub = cl.ClientId
				}
				if format == "jwt" && !kit.Printable(aud) {
					aud = cl.ClientId
				}
				var req *flowv1.TokenRequest
				refresh := false
				switch flow {
				case "code":
					ar, v := kit.AuthReq(r, cl, scope)
					ar.Audience = aud
					if r.Intn(3) == 0 {
						ar.Prompt = nil
					}
					res, err := w.Code(ctx, iss, sub, cl, ar)
					if err != nil {
						k.Fatal("no-code", "authorize: %v", err)
					}
					scope = effectiveScope(ar)
					req = kit.CodeReq(iss, cl, res.Code, ar.RedirectUri, v)
					refresh = wantsRefresh(scope, true)
				case "cc":
					sub = cl.ClientId
					req = kit.CCReq(iss, cl, kit.Str(scope), kit.Str(aud))
					if format != "jwt" && r.Intn(4) == 0 {
						req.Scope, scope = nil, ""
					}
					if format != "jwt" && r.Intn(4) == 0 {
						req.Audience, aud = nil, ""
					}
				case "device":
					dr := &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str(scope), Audience: kit.Str(aud)}
					if format != "jwt" && r.Intn(4) == 0 {
						dr.Scope, scope = nil, ""
					}
					if format != "jwt" && r.Intn(4) == 0 {
						dr.Audience, aud = nil, ""
					}
					res, err := w.Device.Authorize(ctx, dr)
					if err != nil {
						k.Fatal("no-device", "device authorize: %v", err)
					}
					time.Sleep(time.Duration(r.Intn(60)) * time.Second)
					if _, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: sub, UserCode: res.UserCode}); err != nil {
						k.Fatal("no-validate", "device validate: %v", err)
					}
					req = kit.DeviceReq(iss, cl, res.DeviceCode)
					refresh = wantsRefresh(scope, false)
				}
				req.TokenConfirmation = cnf
				decoy := r.Intn(2) == 0 && flow != "cc"
				if decoy {
					req.Scope, req.Audience = kit.Str("admin root"), kit.Str("https://evil.example/")
				}
				if r.Intn(4) == 0 && flow != "cc" {
					// the client message of the caller is an identification, not a source of token content
					req.Client = &clientv1.Client{ClientId: cl.ClientId, ClientName: "forged", GrantTypes: nil}
				}
				kit.DecorateToken(r, req)
				before := created.Load()
				now := uint64(time.Now().Unix())
				reqCopy := kit.Clone(req)
				res, err := w.Token.Token(ctx, req)
				k.Log("%s scope=%q cnf=%v -> %s %v", flow, scope, cnf, kit.Brief(res), err)
				k.Sig("%s %s %s cnf=%v decoy=%v rt=%v", format, flow, scope, cnf != nil, decoy, refresh)
				if !kit.Granted(res, err) {
					k.Fatal("legit-refused", "%s grant refused: %v %s", flow, err, kit.ErrOf(res))
				}
				k.Check(proto.Equal(req, reqCopy), "request-modified", "the request was modified")
				k.Check(res.IdToken == nil, "id-token", "unexpected id_token")
				n := int32(1)
				at := wantToken{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, iss, sub, cl.ClientId, scope, aud, cnf, hour, now, format}
				checkToken(k, "access token", res.AccessToken, at, 0)
				checkResolves(k, w, "access token", iss, cl, res.AccessToken)
				fresh := func(t *tokenv1.Token) {
					k.Check(!ids[t.TokenId] && !values[t.Value], "not-fresh", "identifier or value seen before")
					ids[t.TokenId], values[t.Value] = true, true
				}
				fresh(res.AccessToken)
				if k.Check((res.RefreshToken != nil) == refresh, "refresh-issued", "%s scope %q: refresh token issued=%v expected %v", flow, scope, res.RefreshToken != nil, refresh) && refresh {
					c.Event("refresh_token_issued")
					n++
					rt := at
					rt.typ, rt.life = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, week
					checkToken(k, "refresh token", res.RefreshToken, rt, 0)
					checkResolves(k, w, "refresh token", iss, cl, res.RefreshToken)
					fresh(res.RefreshToken)
				}
				k.Check(created.Load()-before == n, "stored", "%d tokens stored, %d handed out", created.Load()-before, n)
				if res.RefreshToken == nil {
					return
				}
				// refresh at a random age, possibly in the rotation zone
				age := time.Duration(r.Intn(week-10)) * time.Second
				if r.Intn(3) == 0 {
					age = time.Duration(week-hour-5+r.Intn(hour)) * time.Second
				}
				oldExp := res.RefreshToken.Metadata.ExpiresAt
				time.Sleep(age)
				now = uint64(time.Now().Unix())
				rreq := kit.RefreshReq(iss, cl, res.RefreshToken.Value)
				rreq.Scope, rreq.Audience = kit.Str("admin root"), kit.Str("https://evil.example/")
				if r.Intn(2) == 0 {
					rreq.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "attacker"}
				}
				before = created.Load()
				rr, err := w.Token.Token(ctx, rreq)
				if !kit.Granted(rr, err) {
					k.Fatal("legit-refused", "refresh refused at age %s: %v", age, err)
				}
				at.now = now
				checkToken(k, "refreshed access token", rr.AccessToken, at, 0)
				checkResolves(k, w, "refreshed access token", iss, cl, rr.AccessToken)
				fresh(rr.AccessToken)
				n = 1
				rotate := now+hour > oldExp
				if k.Check((rr.RefreshToken != nil) == rotate, "rotation", "rotated=%v expected %v (age %s)", rr.RefreshToken != nil, rotate, age) && rotate {
					c.Event("rotated")
					n++
					rt := at
					rt.typ, rt.life = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, week
					checkToken(k, "rotated refresh token", rr.RefreshToken, rt, 0)
					checkResolves(k, w, "rotated refresh token", iss, cl, rr.RefreshToken)
					fresh(rr.RefreshToken)
				}
				k.Check(created.Load()-before == n, "stored", "refresh: %d tokens stored, %d handed out", created.Load()-before, n)
				k.Sig("rotate=%v", rotate)
			})
		}
	}
}

// concurrent issuance: every caller gets its own token, none of them altered by the others.
func c05Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("token_verified", 500)
	for _, format := range []string{"verifiable", "jwt", "opaque"} {
		w := kit.NewWorld(kit.NewStores(format), nil)
		n := c.N(60, 2000)
		for i := 0; i < n; i++ {
			c.Case(fmt.Sprintf("race/%s/%d", format, i), func(k *kit.Case) {
				var wg sync.WaitGroup
				var mu sync.Mutex
				seen := map[string]bool{}
				iss := kit.Issuer(k.R)
				for g := 0; g < 8; g++ {
					cl := w.Client(nil)
					scope, cnf, aud := c05Scopes(k), c05Cnf(k), "https://api.example/"+kit.RandString(k.R, 4, kit.Alnum)
					k.Go(&wg, func() {
						now := uint64(time.Now().Unix())
						req := kit.CCReq(iss, cl, kit.Str(scope), kit.Str(aud))
						req.TokenConfirmation = cnf
						res, err := w.Token.Token(ctx, req)
						if !kit.Granted(res, err) {
							k.Fail("legit-refused", "client_credentials refused: %v", err)
							return
						}
						checkToken(k, "access token", res.AccessToken, wantToken{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, iss, cl.ClientId, cl.ClientId, scope, aud, cnf, hour, now, format}, 5)
						checkResolves(k, w, "access token", iss, cl, res.AccessToken)
						mu.Lock()
						k.Check(!seen[res.AccessToken.Value] && !seen[res.AccessToken.TokenId], "not-fresh", "value or id repeated")
						seen[res.AccessToken.Value], seen[res.AccessToken.TokenId] = true, true
						mu.Unlock()
					})
				}
				wg.Wait()
				k.Sig("%s %d", format, i)
			})
		}
	}
}
