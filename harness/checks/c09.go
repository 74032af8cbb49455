package checks

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C09", Level: "exploration",
		Rule: "histories over a pool of subject tokens of every origin (grants, earlier exchanges, refresh tokens, revoked, expired) exchanged with random scopes, audiences, types, clients, issuers and up to two deviations, against a ledger; actor tokens, resources and requested types, which must not matter, are drawn from the pool; chains of exchanges are followed; exchanges by entitled and not entitled clients in flight together; plus exchange/revoke schedules. " +
			"Non-trivial: a distinct history of (token state, deviations, outcome).",
		Assumptions: []string{"the exact second at which a subject token expires is not judged", "scope values are compared case-sensitively as sets of space separated words"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c09}, {Name: "sched", Bubble: true, Run: c09Sched}, {Name: "overlap", Bubble: true, Run: overlap("exchange", 1200, 50000)}, {Name: "race", Race: true, Run: c09Race}},
	})
}

type c09Tok struct {
	tok     *tokenv1.Token
	iss     string
	owner   *clientv1.Client
	revoked bool
	depth   int
}

func c09(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("exchanged", 500)
	c.Require("chained", 50)
	c.Require("refused", 1000)
	for _, e := range []string{"invalid_scope", "invalid_target", "invalid_request", "unsupported_grant_type"} {
		c.Require("refused_"+e, 50)
	}
	st := kit.NewStores("verifiable")
	ov := &clientOverride{Client: st.Clients, m: map[string]*clientv1.Client{}}
	st.Clients = ov
	var created atomic.Int32
	w := kit.NewWorld(st, func(ctx context.Context, op string, do func() error) error {
		err := do()
		if op == "tokens.Create" && err == nil {
			created.Add(1)
		}
		return err
	})
	words := []string{"openid", "offline_access", "read", "write", "Read", "admin", "re", "read:all", "profile"}
	scopeOf := func(k *kit.Case) string {
		var s []string
		for n := k.R.Intn(5); n > 0; n-- {
			s = append(s, words[k.R.Intn(len(words))])
		}
		return strings.Join(s, " ")
	}
	for i := 0; i < c.N(1200, 30000); i++ {
		c.Case(fmt.Sprintf("hist/%d", i), func(k *kit.Case) {
			r := k.R
			clients := []*clientv1.Client{w.Client(nil), w.Client(func(c *clientv1.Client) { c.GrantTypes = []string{kit.GrantExchange} })}
			noex := w.Client(func(c *clientv1.Client) {
				c.GrantTypes = []string{kit.GrantCode, kit.GrantCC, kit.GrantDevice, kit.GrantRefresh}
			})
			issuers := kit.Issuers(r)
			var pool []*c09Tok
			issue := func() {
				iss := issuers[r.Intn(2)]
				if r.Intn(4) == 0 {
					tr := refreshTokenOf(k, w, iss, "user-"+kit.RandString(r, 5, kit.Alnum), clients[0], "openid offline_access read", c05Cnf(k))
					pool = append(pool, &c09Tok{tok: kit.Clone(tr.AccessToken), iss: iss, owner: clients[0]}, &c09Tok{tok: kit.Clone(tr.RefreshToken), iss: iss, owner: clients[0]})
					return
				}
				req := kit.CCReq(iss, clients[0], kit.Str(scopeOf(k)), kit.Str("https://api.example/"))
				req.TokenConfirmation = c05Cnf(k)
				res, err := w.Token.Token(ctx, req)
				if !kit.Granted(res, err) {
					k.Fatal("legit-refused", "client_credentials: %v", err)
				}
				pool = append(pool, &c09Tok{tok: kit.Clone(res.AccessToken), iss: iss, owner: clients[0]})
			}
			issue()
			for step := 0; step < 12; step++ {
				switch r.Intn(8) {
				case 0:
					issue()
					continue
				case 1:
					d := kit.Pick(r, 5*time.Second, 50*time.Second, 62*time.Second, 20*time.Minute, time.Hour+2*time.Second)
					time.Sleep(d)
					k.Log("sleep %s", d)
					continue
				case 2:
					o := pool[r.Intn(len(pool))]
					if _, err := w.Revoke(ctx, o.iss, o.owner, o.tok.Value); err != nil {
						k.Fail("revoke", "owner's revocation refused: %v", err)
						continue
					}
					o.revoked = true
					k.Log("revoke %s", o.tok.TokenId)
					continue
				}
				o := pool[r.Intn(len(pool))]
				m := o.tok.Metadata
				now := uint64(time.Now().Unix())
				if m.ExpiresAt == now {
					time.Sleep(time.Second)
					now++
				}
				cl := clients[r.Intn(2)]
				var scope, aud *string
				if r.Intn(2) == 0 {
					have := strings.Fields(m.Scope)
					r.Shuffle(len(have), func(a, b int) { have[a], have[b] = have[b], have[a] })
					scope = kit.Str(strings.Join(have[:r.Intn(len(have)+1)], " "))
				}
				if r.Intn(2) == 0 {
					aud = kit.Str(kit.Pick(r, kit.ResBackend, kit.ResCooperation))
				}
				codes := map[string]bool{}
				var dev []string
				add := func(name string, cs ...string) {
					dev = append(dev, name)
					for _, c := range cs {
						codes[c] = true
					}
				}
				if o.revoked {
					add("revoked", "invalid_request")
				}
				if o.tok.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {
					add("refreshtoken", "invalid_request")
				}
				if m.ExpiresAt < now {
					add("expired", "invalid_request")
				}
				req := kit.ExchangeReq(o.iss, cl, o.tok.Value, scope, aud)
				g := req.GetTokenExchange()
				req.TokenConfirmation = kit.Pick(r, nil, &tokenv1.TokenConfirmation{Jkt: "attacker"})
				kit.DecorateToken(r, req, pool[r.Intn(len(pool))].tok.Value, pool[r.Intn(len(pool))].tok.Value)
				for n := r.Intn(3); n > 0; n-- {
					switch r.Intn(10) {
					case 9:
						// the stored token is in another state
						t := kit.Clone(o.tok)
						t.TokenId, t.Value = kit.RandString(r, 20, kit.Alnum), kit.RandString(r, 20, kit.Alnum)
						t.Status = kit.Pick(r, tokenv1.TokenStatus(0), tokenv1.TokenStatus(1), tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, tokenv1.TokenStatus(9), tokenv1.TokenStatus(-1))
						if err := w.Raw.Tokens.Create(ctx, o.iss, t); err != nil {
							k.Fatal("setup", "store: %v", err)
						}
						g.SubjectToken = t.Value
						add("status", "invalid_request")
						c.Event("other_status")
					case 0:
						s := m.Scope
						extra := kit.Pick(r, words...)
						if has(strings.Fields(s), extra) {
							extra += "x"
						}
						req.Scope = kit.Str(kit.Pick(r, s+" "+extra, extra, extra+" "+s, s+"\t"+extra))
						add("wider", "invalid_scope")
					case 1:
						req.Scope = kit.Str(kit.Pick(r, kit.NearMiss(r, "read"), "re ad", "READ"))
						contained := true
						for _, x := range strings.Fields(*req.Scope) {
							contained = contained && has(strings.Fields(m.Scope), x)
						}
						if contained {
							req.Scope = kit.Str("zzz")
						}
						add("othercase", "invalid_scope")
					case 2:
						req.Audience = kit.Str(kit.Pick(r, kit.NearMiss(r, kit.ResBackend), "https://api.example/", "https://backend.example.com/api", m.Audience+"x"))
						add("aud", "invalid_target")
					case 3:
						req.Client = noex
						add("noexchange", "unsupported_grant_type")
					case 4:
						g.SubjectTokenType = kit.Pick(r, "", kit.TypeRT, "urn:ietf:params:oauth:token-type:id_token", "urn:ietf:params:oauth:token-type:jwt", kit.NearMiss(r, kit.TypeAT))
						add("type", "invalid_request")
					case 5:
						req.Issuer = issuers[0]
						if o.iss == issuers[0] {
							req.Issuer = issuers[1]
						}
						add("issuer", "invalid_request")
					case 6:
						g.SubjectToken = kit.NearMiss(r, o.tok.Value)
						add("value", "invalid_request")
					case 7:
						req.Client = &clientv1.Client{ClientId: "nobody", GrantTypes: kit.AllGrants}
						add("unknown", "invalid_client")
					case 8:
						if r.Intn(4) == 0 {
							req.Issuer = kit.Pick(r, "", "not a url", "relative", "urn")
							add("badissuer", "server_error")
						}
					}
				}
				n := created.Load()
				res, err := w.Token.Token(ctx, req)
				ok := kit.Granted(res, err)
				k.Log("exchange %s by %s scope=%v aud=%v dev=%v -> %v %s", o.tok.TokenId, req.Client.ClientId, req.Scope, req.Audience, dev, ok, kit.ErrOf(res))
				k.Sig("%v%v%d%v%v", dev, ok, o.depth, scope != nil, aud != nil)
				if len(dev) > 0 {
					var cs []string
					for x := range codes {
						cs = append(cs, x)
					}
					k.Refused("accepted", fmt.Sprintf("exchange with %v of a token with scope %q", dev, m.Scope), res, err, cs...)
					k.Check(created.Load() == n, "stored", "a refused exchange stored a token")
					c.Event("refused")
					c.Event("refused_" + kit.ErrOf(res))
					continue
				}
				if !k.Check(ok, "legit-refused", "valid exchange refused: %v %s", err, kit.ErrOf(res)) {
					continue
				}
				c.Event("exchanged")
				if o.depth > 0 {
					c.Event("chained")
				}
				ws, wa := m.Scope, ""
				if scope != nil {
					ws = *scope
				}
				if aud != nil {
					wa = *aud
				}
				checkToken(k, "exchanged token", res.AccessToken, wantToken{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, o.iss, m.Subject, cl.ClientId, ws, wa, o.tok.Confirmation, 60, now, "verifiable"}, 0)
				checkResolves(k, w, "exchanged token", o.iss, cl, res.AccessToken)
				k.Check(res.RefreshToken == nil && res.IdToken == nil, "extra", "exchange returned extra tokens")
				k.Check(res.Issuer == o.iss, "issuer-response", "response issuer %q", res.Issuer)
				k.Check(res.GetIssuedTokenType() == kit.TypeAT, "issued-type", "issued_token_type %q", res.GetIssuedTokenType())
				k.Check(created.Load() == n+1, "stored", "%d tokens stored", created.Load()-n)
				k.Check(res.Scope == nil && ws == m.Scope || res.Scope != nil && *res.Scope == ws, "scope-response", "response scope %v, token scope %q", res.Scope, ws)
				ir, err := w.Introspect(ctx, o.iss, o.owner, o.tok.Value)
				k.Check(err == nil && proto.Equal(ir.Token.Metadata, m) && ir.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "subject-changed", "subject token changed: %s", kit.Brief(ir))
				pool = append(pool, &c09Tok{tok: kit.Clone(res.AccessToken), iss: o.iss, owner: cl, depth: o.depth + 1})
			}
		})
	}
}

// c09Tasks: 'e' exchange, 'v' revoke.
func c09Tasks(k *kit.Case, w *kit.World, kinds string) ([]func(context.Context), func(string)) {
	iss := kit.Issuer(k.R)
	cl, other := w.Client(nil), w.Client(nil)
	ctx := context.Background()
	req := kit.CCReq(iss, cl, kit.Str("read write"), kit.Str("https://api.example/"))
	req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: "thumb"}
	tr, err := w.Token.Token(ctx, req)
	if !kit.Granted(tr, err) {
		k.Fatal("legit-refused", "client_credentials: %v", err)
	}
	val := tr.AccessToken.Value
	var clock, revokedAt atomic.Int64
	var tasks []func(context.Context)
	for i, kind := range kinds {
		i, kind := i, kind
		tasks = append(tasks, func(ctx context.Context) {
			start := clock.Add(1)
			if kind == 'v' {
				_, err := w.Token.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: cl, Token: val})
				k.Check(err == nil, "revoke", "owner's revocation refused: %v", err)
				revokedAt.CompareAndSwap(0, clock.Add(1))
				k.Event("revoked")
				return
			}
			c := cl
			if i%2 == 1 {
				c = other
			}
			at := revokedAt.Load()
			res, err := w.Token.Token(ctx, kit.ExchangeReq(iss, c, val, kit.Str("read"), kit.Str(kit.ResBackend)))
			if kit.Granted(res, err) {
				k.Event("exchanged")
				k.Check(at == 0 || at > start, "revoked-exchanged", "exchange started after the revocation returned succeeded")
				k.Check(res.AccessToken.Metadata.ClientId == c.ClientId && res.AccessToken.Metadata.Scope == "read" && res.AccessToken.Confirmation.GetJkt() == "thumb", "mixed", "token mixed up: %s", kit.Brief(res))
			} else {
				k.Event("refused")
				k.Refused("refusal", "exchange", res, err, "invalid_request")
			}
		})
	}
	return tasks, func(s string) {
		res, err := w.Token.Token(context.Background(), kit.ExchangeReq(iss, cl, val, nil, nil))
		k.Check(kit.Granted(res, err) == (revokedAt.Load() == 0), "revoked-exchanged", "after %s: usable=%v revoked=%v", s, kit.Granted(res, err), revokedAt.Load() != 0)
	}
}

func c09Sched(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	_, complete := c.Enumerate("enum/ev", c.N(1500, 20000), func(k *kit.Case, ch kit.Chooser) {
		tasks, done := c09Tasks(k, w, "ev")
		s := k.RunTasks(ch, tasks...)
		k.Sig("%s", s.String())
		done(s.String())
	})
	if complete {
		c.Event("enumerations_complete")
	}
	for i := 0; i < c.N(1500, 40000); i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			kinds := kit.Pick(k.R, "eev", "veve", "eee", "eeev")
			tasks, done := c09Tasks(k, w, kinds)
			s := k.RunTasks(&kit.PCTChooser{R: k.R, D: 3, Steps: 20}, tasks...)
			k.Sig("%s %s", kinds, s.String())
			done(s.String())
		})
	}
	c.Require("exchanged", 100)
	c.Require("refused", 100)
}

func c09Race(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	for i := 0; i < c.N(800, 30000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			tasks, done := c09Tasks(k, w, kit.Pick(k.R, "eeeeeev", "eeee", "evev"))
			runParallel(k, tasks)
			done("parallel")
			k.Sig("%d", i)
		})
	}
	c.Require("exchanged", 100)
}

var _ = flowv1.TokenRequest{}
