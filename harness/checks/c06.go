package checks

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C06", Level: "exploration",
		Rule: "histories of refresh requests (right and deviating client, issuer, value, token type, registration) over several refresh tokens interleaved with revocations and virtual time up to past their expiry, against a ledger; refreshes by the owner and other clients in flight together; " +
			"plus scheduled and parallel refresh/refresh and refresh/revoke runs. Non-trivial: a distinct history of outcomes or interleaving.",
		Assumptions: []string{"the exact second at which a refresh token expires is not judged", "two refreshes running at the same time near the expiry may both rotate (documented in DESIGN.md); any request starting after a rotation returned must be refused"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c06}, {Name: "sched", Bubble: true, Run: c06Sched}, {Name: "overlap", Bubble: true, Run: overlap("refresh", 1200, 50000)}, {Name: "race", Race: true, Run: c06Race}},
	})
}

type c06Tok struct {
	tok     *tokenv1.Token
	iss     string
	cl      *clientv1.Client
	revoked bool
	access  bool
}

func m0(o *c06Tok) string { return o.tok.GetMetadata().GetScope() }

// refreshTokenOf runs a code flow yielding a refresh token.
func refreshTokenOf(k *kit.Case, w *kit.World, iss, sub string, cl *clientv1.Client, scope string, cnf *tokenv1.TokenConfirmation) *flowv1.TokenResponse {
	ctx := context.Background()
	ar, v := kit.AuthReq(k.R, cl, scope)
	res, err := w.Code(ctx, iss, sub, cl, ar)
	if err != nil {
		k.Fatal("no-code", "authorize: %v", err)
	}
	req := kit.CodeReq(iss, cl, res.Code, ar.RedirectUri, v)
	req.TokenConfirmation = cnf
	tr, err := w.Token.Token(ctx, req)
	if !kit.Granted(tr, err) || tr.RefreshToken == nil {
		k.Fatal("no-refresh-token", "code grant: %v %s", err, kit.Brief(tr))
	}
	return tr
}

func c06(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("refreshed", 500)
	c.Require("refused", 1000)
	c.Require("rotated", 50)
	c.Require("other_status", 50)
	c.Require("expired_refused", 30)
	for _, format := range []string{"verifiable", "jwt"} {
		st := kit.NewStores(format)
		ov := &clientOverride{Client: st.Clients, m: map[string]*clientv1.Client{}}
		st.Clients = ov
		var created atomic.Int32
		w := kit.NewWorld(st, func(ctx context.Context, op string, do func() error) error {
			err := do()
			if op == "tokens.Create" && err == nil {
				created.Add(1)
			}
			return err
		})
		for i := 0; i < c.N(500, 12000); i++ {
			c.Case(fmt.Sprintf("%s/%d", format, i), func(k *kit.Case) {
				r := k.R
				clients := []*clientv1.Client{w.Client(nil), w.Client(nil)}
				issuers := kit.Issuers(r)
				var toks []*c06Tok
				add := func(t *tokenv1.Token, iss string, cl *clientv1.Client, access bool) {
					if t != nil {
						toks = append(toks, &c06Tok{tok: kit.Clone(t), iss: iss, cl: cl, access: access})
					}
				}
				issue := func() {
					cl, iss := clients[r.Intn(2)], issuers[r.Intn(2)]
					tr := refreshTokenOf(k, w, iss, "sub-"+kit.RandString(r, 6, kit.Alnum), cl, kit.Pick(r, "openid offline_access", "offline_access profile openid read"), c05Cnf(k))
					add(tr.RefreshToken, iss, cl, false)
					if r.Intn(2) == 0 {
						add(tr.AccessToken, iss, cl, true)
					}
				}
				issue()
				for step := 0; step < 14; step++ {
					switch r.Intn(7) {
					case 0:
						if len(toks) < 8 {
							issue()
						}
						continue
					case 1:
						d := kit.Pick(r, time.Second, time.Minute, 6*time.Hour, 36*time.Hour, time.Duration(week-hour-2)*time.Second, time.Duration(week-1)*time.Second)
						if o := toks[r.Intn(len(toks))]; r.Intn(2) == 0 && !o.access {
							// into the rotation zone of a token
							if left := int64(o.tok.Metadata.ExpiresAt) - time.Now().Unix() - int64(r.Intn(hour+10)); left > 0 {
								d = time.Duration(left) * time.Second
							}
						}
						time.Sleep(d + time.Duration(r.Intn(3000))*time.Millisecond)
						k.Log("sleep %s", d)
						k.Sig("s%d", d/time.Hour)
						continue
					case 2:
						o := toks[r.Intn(len(toks))]
						if _, err := w.Revoke(ctx, o.iss, o.cl, o.tok.Value); err != nil {
							k.Fail("revoke", "owner could not revoke: %v", err)
							continue
						}
						o.revoked = true
						k.Log("revoke %s", o.tok.TokenId)
						k.Sig("v")
						continue
					}
					o := toks[r.Intn(len(toks))]
					kind := kit.Pick(r, "right", "right", "right", "right", "client", "issuer", "value", "disallowed", "unknown-client", "claimed-client", "status")
					req := kit.RefreshReq(o.iss, o.cl, o.tok.Value)
					codes := []string{"invalid_request"}
					// the grant is defined by the token, not by the request
					if r.Intn(2) == 0 {
						req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: kit.RandString(r, 43, kit.Alnum)}
					}
					if r.Intn(3) == 0 {
						req.Scope, req.Audience = kit.Str(m0(o)+" admin"), kit.Str("https://evil.example/")
					}
					switch kind {
					case "client":
						req.Client = clients[0]
						if o.cl == clients[0] {
							req.Client = clients[1]
						}
					case "issuer":
						req.Issuer = issuers[0]
						if o.iss == issuers[0] {
							req.Issuer = issuers[1]
						}
					case "value":
						req.GetRefreshToken().RefreshToken = kit.NearMiss(r, o.tok.Value)
					case "disallowed":
						no := kit.Clone(o.cl)
						no.GrantTypes = []string{kit.GrantCode, kit.GrantCC, kit.GrantDevice, kit.GrantExchange}
						ov.mu.Lock()
						ov.m[o.cl.ClientId] = no
						ov.mu.Unlock()
						codes = []string{"unsupported_grant_type"}
					case "status":
						// the stored token is in another state
						t := kit.Clone(o.tok)
						t.TokenId, t.Value = kit.RandString(r, 20, kit.Alnum), kit.RandString(r, 20, kit.Alnum)
						t.Status = kit.Pick(r, tokenv1.TokenStatus(0), tokenv1.TokenStatus(1), tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, tokenv1.TokenStatus(9), tokenv1.TokenStatus(-1))
						if err := w.Raw.Tokens.Create(ctx, o.iss, t); err != nil {
							k.Fatal("setup", "store: %v", err)
						}
						req.GetRefreshToken().RefreshToken = t.Value
						if !o.access && !o.revoked {
							c.Event("other_status")
						}
					case "unknown-client":
						req.Client = &clientv1.Client{ClientId: "nobody", GrantTypes: kit.AllGrants}
						codes = []string{"invalid_client"}
					case "claimed-client":
						// registered id of the other client, message pretending otherwise
						other := clients[0]
						if o.cl == clients[0] {
							other = clients[1]
						}
						req.Client = kit.Clone(o.cl)
						req.Client.ClientId = other.ClientId
					}
					now := uint64(time.Now().Unix())
					exp := o.tok.Metadata.ExpiresAt
					if exp == now {
						time.Sleep(time.Second)
						now++
					}
					before := created.Load()
					res, err := w.Token.Token(ctx, req)
					if kind == "disallowed" {
						ov.mu.Lock()
						delete(ov.m, o.cl.ClientId)
						ov.mu.Unlock()
					}
					ok := kit.Granted(res, err)
					good := kind == "right" && !o.access && !o.revoked && now < exp
					k.Log("%s of %s (access=%v revoked=%v exp-now=%d) -> %v %s", kind, o.tok.TokenId, o.access, o.revoked, int64(exp)-int64(now), ok, kit.ErrOf(res))
					k.Sig("%s%v%v%v%v", kind, o.access, o.revoked, now > exp, ok)
					if !good {
						k.Refused("refresh-accepted", fmt.Sprintf("refresh (%s, access=%v revoked=%v expired=%v)", kind, o.access, o.revoked, now > exp), res, err, codes...)
						k.Check(created.Load() == before, "stored", "a refused refresh stored a token")
						c.Event("refused")
						if now > exp && kind == "right" && !o.access && !o.revoked {
							c.Event("expired_refused")
						}
						continue
					}
					if !ok {
						k.Fail("legit-refused", "active refresh token refused: %v (%s)", err, kit.ErrOf(res))
						continue
					}
					c.Event("refreshed")
					m := o.tok.Metadata
					want := wantToken{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, o.iss, m.Subject, o.cl.ClientId, m.Scope, m.Audience, o.tok.Confirmation, hour, now, format}
					checkToken(k, "refreshed access token", res.AccessToken, want, 0)
					add(res.AccessToken, o.iss, o.cl, true)
					rotate := now+hour > exp
					if k.Check(rotate == (res.RefreshToken != nil), "rotation", "rotation %v expected %v (%ds left)", res.RefreshToken != nil, rotate, exp-now) && rotate {
						c.Event("rotated")
						want.typ, want.life = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, week
						checkToken(k, "successor", res.RefreshToken, want, 0)
						k.Check(res.RefreshToken.Value != o.tok.Value, "rotation", "successor has the old value")
						o.revoked = true
						add(res.RefreshToken, o.iss, o.cl, false)
					}
				}
				// final sweep: storage agrees with the ledger
				for _, o := range toks {
					ir, err := w.Introspect(ctx, o.iss, o.cl, o.tok.Value)
					if err != nil || ir.Token == nil {
						k.Fail("ledger", "introspection: %v", err)
						continue
					}
					act := ir.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
					k.Check(act == !o.revoked, "ledger", "token %s active=%v, ledger revoked=%v", o.tok.TokenId, act, o.revoked)
					k.Check(proto.Equal(ir.Token.Metadata, o.tok.Metadata), "ledger", "metadata changed: %s", kit.Brief(ir.Token))
				}
			})
		}
	}
}

// c06Tasks: kinds r refresh, x refresh by other client, v revoke by owner.
func c06Tasks(k *kit.Case, w *kit.World, kinds string, near bool) ([]func(context.Context), func(string)) {
	iss := kit.Issuer(k.R)
	owner, other := w.Client(nil), w.Client(nil)
	tr := refreshTokenOf(k, w, iss, "sub", owner, "openid offline_access", &tokenv1.TokenConfirmation{Jkt: "thumb"})
	rt := tr.RefreshToken
	if near {
		time.Sleep(time.Duration(week-60) * time.Second)
	}
	var clock atomic.Int64
	type span struct {
		kind       rune
		start, end int64
		ok, rot    bool
		succ       *tokenv1.Token
	}
	spans := make([]span, len(kinds))
	var tasks []func(context.Context)
	for i, kind := range kinds {
		i, kind := i, kind
		tasks = append(tasks, func(ctx context.Context) {
			s := span{kind: kind, start: clock.Add(1)}
			switch kind {
			case 'v':
				_, err := w.Token.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: owner, Token: rt.Value})
				s.ok = err == nil
				k.Check(s.ok, "revoke", "owner's revocation refused: %v", err)
			default:
				cl := owner
				if kind == 'x' {
					cl = other
				}
				res, err := w.Token.Token(ctx, kit.RefreshReq(iss, cl, rt.Value))
				s.ok = kit.Granted(res, err)
				if s.ok {
					k.Event("refreshed")
					k.Check(kind != 'x', "wrong-client", "refresh by another client succeeded")
					k.Check(proto.Equal(res.AccessToken.Confirmation, rt.Confirmation) && res.AccessToken.Metadata.Scope == rt.Metadata.Scope, "binding", "binding changed: %s", kit.Brief(res.AccessToken))
					s.rot, s.succ = res.RefreshToken != nil, res.RefreshToken
					k.Check(s.rot == near, "rotation", "rotation %v expected %v", s.rot, near)
				} else {
					k.Event("refused")
					k.Refused("refusal", "refresh", res, err, "invalid_request")
				}
			}
			s.end = clock.Add(1)
			spans[i] = s
		})
	}
	return tasks, func(sched string) {
		k.Log("%s", sched)
		killed, revoked := false, false
		for i, s := range spans {
			if s.kind == 'v' && s.ok || s.rot {
				killed = true
				revoked = revoked || s.kind == 'v'
				for j, t := range spans {
					if t.kind == 'r' && t.ok && t.start > s.end {
						k.Fail("used-after-end", "refresh %d succeeded after %d ended the token: %s", j, i, sched)
					}
				}
			}
			if s.kind == 'r' && !s.ok {
				// someone must have ended the token before this refresh returned
				cause := false
				for j, t := range spans {
					if j != i && t.start < s.end && (t.kind == 'v' || t.rot) {
						cause = true
					}
				}
				k.Check(cause, "legit-refused", "refresh %d refused without a cause: %s", i, sched)
			}
		}
		ctx := context.Background()
		res, err := w.Token.Token(ctx, kit.RefreshReq(iss, owner, rt.Value))
		k.Check(kit.Granted(res, err) == !killed, "used-after-end", "after the run the token is usable=%v, ended=%v: %s", kit.Granted(res, err), killed, sched)
		for i, s := range spans {
			if s.succ != nil {
				res, err := w.Token.Token(ctx, kit.RefreshReq(iss, owner, s.succ.Value))
				k.Check(kit.Granted(res, err), "successor", "successor of %d refused: %v", i, err)
			}
		}
	}
}

func c06Sched(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	for _, kinds := range []string{"rv", "rr", "rx"} {
		for _, near := range []bool{false, true} {
			_, complete := c.Enumerate(fmt.Sprintf("enum/%s/%v", kinds, near), c.N(1500, 20000), func(k *kit.Case, ch kit.Chooser) {
				tasks, done := c06Tasks(k, w, kinds, near)
				s := k.RunTasks(ch, tasks...)
				k.Sig("%s %v %s", kinds, near, s.String())
				done(s.String())
			})
			if complete {
				c.Event("enumerations_complete")
			}
		}
	}
	for i := 0; i < c.N(2500, 60000); i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			kinds, near := kit.Pick(k.R, "rrv", "rvrx", "rrrr", "vrr", "rrrv"), k.R.Intn(2) == 0
			tasks, done := c06Tasks(k, w, kinds, near)
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 3, Steps: 20}
			}
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s %v %s", kinds, near, s.String())
			done(s.String())
		})
	}
	c.Require("refreshed", 200)
	c.Require("refused", 200)
}

func c06Race(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	for i := 0; i < c.N(400, 20000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			tasks, done := c06Tasks(k, w, kit.Pick(k.R, "rrrrv", "rvrv", "rrrx", "rrrrrrvx"), false)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, t := range tasks {
				t := t
				k.Go(&wg, func() { <-start; t(context.Background()) })
			}
			close(start)
			wg.Wait()
			done("parallel")
			k.Sig("%s", k.TraceString())
		})
	}
	c.Require("refreshed", 100)
}
