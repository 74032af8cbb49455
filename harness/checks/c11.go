package checks

import (
	"context"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C11", Level: "exploration",
		Rule: "histories of issuance (every grant, three token formats), revocation, virtual time and introspections of issued values, near misses, values of other issuers, by registered and unregistered callers, against a ledger; the storage write log shows introspection changes nothing; introspections of one value from several contexts in flight together; parallel introspections under load. " +
			"Non-trivial: a distinct (format, origin, token state, probe kind, outcome).",
		Modes: []kit.Mode{{Name: "seq", Bubble: true, Run: c11}, {Name: "overlap", Bubble: true, Run: overlap("token", 1200, 50000)}, {Name: "race", Race: true, Run: c11Race}},
	})
	kit.Register(&kit.Check{
		ID: "C12", Level: "exploration",
		Rule: "histories of revocations by owners and non owners over several tokens with introspection, refresh and exchange probes, against a ledger; plus enumerated, random and parallel schedules of revocation against refresh, exchange, introspection and revocation of another token, judged by the real-time order of calls. " +
			"Non-trivial: a distinct history or interleaving.",
		Assumptions: []string{"revoking a value that is no token is an error; its public error is not judged here (see C14)"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c12}, {Name: "sched", Bubble: true, Run: c12Sched}, {Name: "race", Race: true, Run: c12Race}},
	})
}

type ledgerTok struct {
	tok     *tokenv1.Token
	iss     string
	cl      *clientv1.Client
	origin  string
	revoked bool
}

// mint issues tokens by a random grant.
func mint(k *kit.Case, w *kit.World, iss string, cl *clientv1.Client, have []*ledgerTok) []*ledgerTok {
	ctx := context.Background()
	r := k.R
	var res *flowv1.TokenResponse
	var err error
	origin := kit.Pick(r, "cc", "code", "code", "device", "exchange", "refresh")
	fallback := origin
	if origin == "exchange" || origin == "refresh" {
		fallback = "cc"
		for _, o := range have {
			if o.revoked || o.iss != iss || o.tok.Metadata.ExpiresAt <= uint64(time.Now().Unix()) {
				continue
			}
			if origin == "exchange" && o.tok.TokenType == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {
				fallback = origin
				res, err = w.Token.Token(ctx, kit.ExchangeReq(iss, cl, o.tok.Value, nil, kit.Str(kit.ResBackend)))
				break
			}
			// far from the rotation zone
			if origin == "refresh" && o.cl == cl && o.tok.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN && o.tok.Metadata.ExpiresAt > uint64(time.Now().Unix())+2*hour {
				fallback = origin
				res, err = w.Token.Token(ctx, kit.RefreshReq(iss, cl, o.tok.Value))
				break
			}
		}
	}
	sub := kit.Subject(r, iss, cl.ClientId)
	switch fallback {
	case "cc":
		scope := "read " + kit.RandString(r, 3, kit.Alnum)
		if r.Intn(12) == 0 { // self-contained tokens become long
			scope += strings.Repeat(" scope:"+kit.RandString(r, 6, kit.Alnum), 20+r.Intn(600))
		}
		req := kit.CCReq(iss, cl, kit.Str(scope), kit.Str("https://api.example/"))
		req.TokenConfirmation = c05Cnf(k)
		res, err = w.Token.Token(ctx, req)
	case "code":
		res = refreshTokenOf(k, w, iss, sub, cl, "openid offline_access", c05Cnf(k))
	case "device":
		var d *flowv1.DeviceAuthorizationResponse
		d, err = w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid offline_access"), Audience: kit.Str("https://api.example/")})
		if err == nil {
			_, err = w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: sub, UserCode: d.UserCode})
		}
		if err == nil {
			res, err = w.Token.Token(ctx, kit.DeviceReq(iss, cl, d.DeviceCode))
		}
	}
	if !kit.Granted(res, err) {
		k.Fatal("legit-refused", "%s grant refused: %v", fallback, err)
	}
	out := []*ledgerTok{{tok: kit.Clone(res.AccessToken), iss: iss, cl: cl, origin: fallback}}
	if res.RefreshToken != nil {
		out = append(out, &ledgerTok{tok: kit.Clone(res.RefreshToken), iss: iss, cl: cl, origin: fallback + "-rt"})
	}
	return out
}

// truth checks one introspection answer against the ledger.
func truth(k *kit.Case, what string, ir *tokenv1.IntrospectResponse, err error, o *ledgerTok) {
	if !k.Check(err == nil && ir != nil && ir.Error == nil && ir.Token != nil, "introspect", "%s: %v %s", what, err, kit.Brief(ir)) {
		return
	}
	if o == nil {
		t := ir.Token
		k.Check(t.Status == tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN && t.Metadata == nil && t.Confirmation == nil && t.TokenId == "", "ghost", "%s: reported %s", what, kit.Brief(t))
		return
	}
	want := tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	if o.revoked {
		want = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
	}
	t := ir.Token
	k.Check(t.Status == want, "status", "%s: status %v want %v", what, t.Status, want)
	k.Check(t.TokenType == o.tok.TokenType && t.TokenId == o.tok.TokenId, "identity", "%s: %v %s want %v %s", what, t.TokenType, t.TokenId, o.tok.TokenType, o.tok.TokenId)
	k.Check(proto.Equal(t.Metadata, o.tok.Metadata), "metadata", "%s: %s want %s", what, kit.Brief(t.Metadata), kit.Brief(o.tok.Metadata))
	k.Check(proto.Equal(t.Confirmation, o.tok.Confirmation), "confirmation", "%s: %v want %v", what, t.Confirmation, o.tok.Confirmation)
}

func c11(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("active_reported", 1500)
	c.Require("revoked_reported", 200)
	c.Require("unknown_reported", 1500)
	c.Require("caller_refused", 300)
	for _, format := range []string{"verifiable", "jwt", "opaque"} {
		var writes atomic.Int32
		w := kit.NewWorld(kit.NewStores(format), func(ctx context.Context, op string, do func() error) error {
			switch op {
			case "tokens.Create", "tokens.Revoke", "tokens.Delete", "clients.Register", "codes.Delete", "codes.Register", "authreqs.Register", "authreqs.Delete", "devices.Register", "devices.Validate", "devices.Delete":
				writes.Add(1)
			}
			return do()
		})
		for i := 0; i < c.N(500, 12000); i++ {
			c.Case(fmt.Sprintf("%s/%d", format, i), func(k *kit.Case) {
				r := k.R
				clients := []*clientv1.Client{w.Client(nil), w.Client(nil)}
				pub := w.Client(func(c *clientv1.Client) {
					c.GrantTypes = nil
					c.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
				})
				issuers := kit.Issuers(r)
				var pool []*ledgerTok
				pool = append(pool, mint(k, w, issuers[0], clients[0], pool)...)
				for step := 0; step < 14; step++ {
					switch r.Intn(9) {
					case 0:
						pool = append(pool, mint(k, w, issuers[r.Intn(2)], clients[r.Intn(2)], pool)...)
						continue
					case 1:
						time.Sleep(kit.Pick(r, time.Second, time.Minute, time.Hour+2*time.Second, 25*time.Hour))
						if r.Intn(10) == 0 {
							time.Sleep(8 * 24 * time.Hour)
						}
						continue
					case 2:
						o := pool[r.Intn(len(pool))]
						if _, err := w.Revoke(ctx, o.iss, o.cl, o.tok.Value); err != nil {
							k.Fail("revoke", "owner's revocation refused: %v", err)
						}
						o.revoked = true
						continue
					}
					o := pool[r.Intn(len(pool))]
					caller := kit.Pick(r, clients[0], clients[1], pub)
					req := &tokenv1.IntrospectRequest{Issuer: o.iss, Client: caller, Token: o.tok.Value}
					kind := kit.Pick(r, "issued", "issued", "issued", "near", "issuer", "id", "digest", "garbage", "caller", "nil-caller", "empty", "badissuer", "swap")
					expect, want := o, ""
					switch kind {
					case "near":
						req.Token, expect = kit.NearMiss(r, o.tok.Value), nil
						if req.Token == "" {
							want = "invalid_request"
						}
					case "issuer":
						req.Issuer, expect = issuers[0], nil
						if o.iss == issuers[0] {
							req.Issuer = issuers[1]
						}
					case "id":
						req.Token, expect = o.tok.TokenId, nil
					case "digest": // what the storage reports as value is not the token
						s, err := w.Raw.Tokens.GetByValue(ctx, o.iss, o.tok.Value)
						if err != nil || s.Value == o.tok.Value {
							continue
						}
						req.Token, expect = s.Value, nil
					case "garbage":
						req.Token, expect = "x"+kit.Garbage(r, 100), nil
					case "caller":
						req.Client, want = kit.Pick(r, &clientv1.Client{ClientId: "nobody"}, &clientv1.Client{}, &clientv1.Client{ClientId: w.NoClient(r, caller.ClientId)}), "invalid_client"
						if r.Intn(3) == 0 { // it was registered and served before
							req.Client = w.Client(nil)
							ir, err := w.Introspect(ctx, o.iss, req.Client, o.tok.Value)
							truth(k, "before the removal of a client", ir, err, o)
							w.RemoveClient(req.Client.ClientId)
							c.Event("removed_caller")
						}
					case "nil-caller":
						req.Client, want = nil, "invalid_client"
					case "empty":
						req.Token, want = "", "invalid_request"
					case "badissuer":
						req.Issuer = kit.Pick(r, badIssuers...)
						if _, e := url.ParseRequestURI(req.Issuer); e == nil && req.Issuer != "" {
							expect = nil
						} else {
							want = "invalid_request"
						}
					case "swap": // value of one token with half of another
						p := pool[r.Intn(len(pool))]
						if p == o || len(p.tok.Value) < 12 || len(o.tok.Value) < 12 {
							continue
						}
						req.Token, expect = o.tok.Value[:len(o.tok.Value)/2]+p.tok.Value[len(p.tok.Value)/2:], nil
						same := false
						for _, q := range pool {
							same = same || q.tok.Value == req.Token
						}
						if same {
							continue
						}
					}
					n := writes.Load()
					ir, err := w.Token.Introspect(ctx, req)
					k.Log("%s %s(%s) revoked=%v -> %s %v", kind, o.tok.TokenId, o.origin, o.revoked, kit.Brief(ir), err)
					k.Sig("%s%s%v", kind, o.origin, o.revoked)
					k.Check(writes.Load() == n, "changed", "introspection wrote to a storage")
					if want != "" {
						k.Check(err != nil && ir != nil && ir.Token == nil && ir.Error.GetErr() == want, "caller-accepted", "%s: %s %v", kind, kit.Brief(ir), err)
						c.Event("caller_refused")
						continue
					}
					truth(k, kind, ir, err, expect)
					switch {
					case expect == nil:
						c.Event("unknown_reported")
					case expect.revoked:
						c.Event("revoked_reported")
					default:
						c.Event("active_reported")
					}
				}
				for _, o := range pool {
					ir, err := w.Introspect(ctx, o.iss, clients[0], o.tok.Value)
					truth(k, "final sweep", ir, err, o)
					other := issuers[0]
					if o.iss == other {
						other = issuers[1]
					}
					ir, err = w.Introspect(ctx, other, clients[0], o.tok.Value)
					truth(k, "final sweep other issuer", ir, err, nil)
				}
			})
		}
	}
}

// c11Race: readers and issuers in parallel; every value keeps its own truth.
func c11Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("active_reported", 1000)
	for _, format := range []string{"verifiable", "jwt"} {
		w := kit.NewWorld(kit.NewStores(format), nil)
		for i := 0; i < c.N(60, 2500); i++ {
			c.Case(fmt.Sprintf("race/%s/%d", format, i), func(k *kit.Case) {
				iss := kit.Issuer(k.R)
				cl := w.Client(nil)
				var mu sync.Mutex
				var pool []*ledgerTok
				for j := 0; j < 3; j++ {
					pool = append(pool, mint(k, w, iss, cl, pool)...)
				}
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
					k.Go(&wg, func() {
						for n := 0; n < 8; n++ {
							mu.Lock()
							o := pool[sub.R.Intn(len(pool))]
							mu.Unlock()
							ir, err := w.Introspect(ctx, iss, cl, o.tok.Value)
							truth(sub, "parallel", ir, err, o)
							c.Event("active_reported")
							if sub.R.Intn(4) == 0 {
								t := mint(sub, w, iss, cl, nil)
								mu.Lock()
								pool = append(pool, t...)
								mu.Unlock()
							}
						}
					})
				}
				wg.Wait()
				k.Sig("%s%d", format, i)
			})
		}
	}
}

func c12(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("revoked", 500)
	c.Require("refused", 500)
	c.Require("probe_dead", 500)
	c.Require("probe_live", 500)
	for _, format := range []string{"verifiable", "jwt"} {
		w := kit.NewWorld(kit.NewStores(format), nil)
		for i := 0; i < c.N(900, 20000); i++ {
			c.Case(fmt.Sprintf("%s/%d", format, i), func(k *kit.Case) {
				r := k.R
				clients := []*clientv1.Client{w.Client(nil), w.Client(nil)}
				issuers := kit.Issuers(r)
				var pool []*ledgerTok
				pool = append(pool, mint(k, w, issuers[0], clients[0], pool)...)
				pool = append(pool, mint(k, w, issuers[r.Intn(2)], clients[1], pool)...)
				for step := 0; step < 12; step++ {
					o := pool[r.Intn(len(pool))]
					if r.Intn(8) == 0 {
						pool = append(pool, mint(k, w, issuers[r.Intn(2)], clients[r.Intn(2)], pool)...)
						continue
					}
					if r.Intn(12) == 0 {
						time.Sleep(kit.Pick(r, time.Second, 20*time.Minute, 26*time.Hour))
						continue
					}
					kind := kit.Pick(r, "owner", "owner", "owner", "other", "other", "issuer", "near", "unknown", "nil", "empty", "badissuer", "claim", "id")
					req := &tokenv1.RevokeRequest{Issuer: o.iss, Client: o.cl, Token: o.tok.Value}
					other := clients[0]
					if o.cl == other {
						other = clients[1]
					}
					want := ""
					switch kind {
					case "other":
						req.Client, want = other, "invalid_request"
					case "claim":
						req.Client = kit.Clone(o.cl)
						req.Client.ClientId, want = other.ClientId, "invalid_request"
					case "issuer":
						req.Issuer = issuers[0]
						if o.iss == issuers[0] {
							req.Issuer = issuers[1]
						}
						want = "*"
					case "near":
						req.Token, want = kit.NearMiss(r, o.tok.Value), "*"
					case "id":
						req.Token, want = o.tok.TokenId, "*"
					case "unknown":
						req.Client, want = kit.Pick(r, &clientv1.Client{ClientId: "nobody"}, &clientv1.Client{}, &clientv1.Client{ClientId: w.NoClient(r, o.cl.ClientId)}), "invalid_client"
						if r.Intn(3) == 0 { // it was registered and served before
							req.Client = w.Client(nil)
							_, err := w.Revoke(ctx, o.iss, req.Client, "x"+o.tok.Value)
							k.Check(err != nil, "accepted", "revocation of an unknown value accepted")
							w.RemoveClient(req.Client.ClientId)
						}
					case "nil":
						req.Client, want = nil, "invalid_client"
					case "empty":
						req.Token, want = "", "invalid_request"
					case "badissuer":
						req.Issuer = kit.Pick(r, badIssuers...)
						want = "*"
						if _, e := url.ParseRequestURI(req.Issuer); e != nil || req.Issuer == "" {
							want = "invalid_request"
						}
					}
					res, err := w.Token.Revoke(ctx, req)
					k.Log("revoke %s %s -> %s %v", kind, o.tok.TokenId, kit.Brief(res), err)
					k.Sig("%s%s%v", kind, o.origin, o.revoked)
					if want == "" {
						if k.Check(err == nil && res != nil && res.Error == nil, "legit-refused", "owner's revocation refused: %v %s", err, kit.Brief(res)) {
							o.revoked = true
							c.Event("revoked")
						}
					} else {
						k.Check(err != nil && res != nil, "accepted", "revocation (%s) accepted", kind)
						if want != "*" {
							k.Check(res.GetError().GetErr() == want, "error-code", "revocation (%s): %q want %q", kind, res.GetError().GetErr(), want)
						}
						c.Event("refused")
					}
					// every token keeps exactly its state
					for _, p := range pool {
						ir, err := w.Introspect(ctx, p.iss, clients[r.Intn(2)], p.tok.Value)
						truth(k, fmt.Sprintf("after %s on %s", kind, o.tok.TokenId), ir, err, p)
					}
					p := pool[r.Intn(len(pool))]
					now := uint64(time.Now().Unix())
					if p.tok.Metadata.ExpiresAt <= now {
						continue
					}
					var tr *flowv1.TokenResponse
					if p.tok.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
						if p.tok.Metadata.ExpiresAt < now+2*hour {
							continue
						}
						tr, err = w.Token.Token(ctx, kit.RefreshReq(p.iss, p.cl, p.tok.Value))
					} else {
						tr, err = w.Token.Token(ctx, kit.ExchangeReq(p.iss, clients[r.Intn(2)], p.tok.Value, nil, kit.Str(kit.ResBackend)))
					}
					if p.revoked {
						k.Refused("used-revoked", "use of a revoked token", tr, err, "invalid_request")
						c.Event("probe_dead")
					} else {
						k.Check(kit.Granted(tr, err), "collateral", "use of a live token refused: %v", err)
						c.Event("probe_live")
					}
				}
			})
		}
	}
}

// c12Tasks: v owner revokes A, o other client revokes A, b owner revokes B, i introspects A, j introspects B, r refreshes A, e exchanges A (access token run)
func c12Tasks(k *kit.Case, w *kit.World, kinds string, refresh bool) ([]func(context.Context), func(string)) {
	iss := kit.Issuer(k.R)
	cl, other := w.Client(nil), w.Client(nil)
	tr := refreshTokenOf(k, w, iss, "sub", cl, "openid offline_access", &tokenv1.TokenConfirmation{Jkt: "t"})
	a, b := tr.AccessToken, tr.RefreshToken
	if refresh {
		a, b = b, a
	}
	a, b = kit.Clone(a), kit.Clone(b)
	var clock, endA, endB atomic.Int64
	var deadSeen, deadSeenB atomic.Int64 // earliest end of a call which saw the revocation
	var bCount atomic.Int32
	var tasks []func(context.Context)
	mark := func(x *atomic.Int64) { x.CompareAndSwap(0, clock.Add(1)) }
	before := func(x *atomic.Int64, start int64) bool { v := x.Load(); return v != 0 && v < start }
	for _, kind := range kinds {
		kind := kind
		tasks = append(tasks, func(ctx context.Context) {
			start := clock.Add(1)
			switch kind {
			case 'v', 'b':
				t, end := a, &endA
				if kind == 'b' {
					t, end = b, &endB
					bCount.Add(1)
				}
				res, err := w.Token.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: cl, Token: t.Value})
				k.Check(err == nil && res.Error == nil, "legit-refused", "owner's revocation refused: %v", err)
				mark(end)
				k.Event("revoked")
			case 'o':
				_, err := w.Token.Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: other, Token: a.Value})
				k.Check(err != nil, "accepted", "foreign revocation accepted")
				k.Event("refused")
			case 'i', 'j':
				t, end, seen := a, &endA, &deadSeen
				if kind == 'j' {
					t, end, seen = b, &endB, &deadSeenB
				}
				dead := before(end, start) || before(seen, start)
				ir, err := w.Token.Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: other, Token: t.Value})
				if !k.Check(err == nil && ir.Token != nil, "introspect", "introspection: %v", err) {
					return
				}
				active := ir.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
				k.Check(!active || !dead, "late-active", "introspection started after the revocation was over (or seen) reports active")
				k.Check(active || ir.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, "status", "status %v", ir.Token.Status)
				k.Check(proto.Equal(ir.Token.Metadata, t.Metadata), "torn", "metadata %s", kit.Brief(ir.Token))
				if !active {
					mark(seen)
					k.Event("dead_seen")
				} else {
					k.Event("live_seen")
				}
			case 'r', 'e':
				dead := before(&endA, start) || before(&deadSeen, start)
				var res *flowv1.TokenResponse
				var err error
				if refresh {
					res, err = w.Token.Token(ctx, kit.RefreshReq(iss, cl, a.Value))
				} else {
					res, err = w.Token.Token(ctx, kit.ExchangeReq(iss, other, a.Value, nil, kit.Str(kit.ResBackend)))
				}
				if kit.Granted(res, err) {
					k.Check(!dead, "late-use", "token used after its revocation was over (or seen)")
					k.Event("live_seen")
				} else {
					k.Refused("refusal", "use", res, err, "invalid_request")
					mark(&deadSeen)
					k.Event("dead_seen")
				}
			}
		})
	}
	hasA, hasB := false, false
	for _, c := range kinds {
		hasA, hasB = hasA || c == 'v', hasB || c == 'b'
	}
	return tasks, func(s string) {
		k.Log("%s", s)
		ctx := context.Background()
		for _, x := range []struct {
			t    *tokenv1.Token
			dead bool
			seen int64
		}{{a, hasA, deadSeen.Load()}, {b, hasB, deadSeenB.Load()}} {
			ir, err := w.Introspect(ctx, iss, cl, x.t.Value)
			truth(k, "after "+s, ir, err, &ledgerTok{tok: x.t, revoked: x.dead})
			k.Check(x.dead || x.seen == 0, "collateral", "a call saw a revocation nobody made: %s", s)
			byID, err := w.Raw.Tokens.Get(ctx, iss, x.t.TokenId)
			k.Check(err == nil && (byID.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED) == x.dead, "by-id", "by identifier: %s %v", kit.Brief(byID), err)
		}
	}
}

func c12Sched(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	for _, kinds := range []string{"vi", "vr", "vb", "vo", "vv", "oi"} {
		for _, rt := range []bool{true, false} {
			_, complete := c.Enumerate(fmt.Sprintf("enum/%s/%v", kinds, rt), c.N(600, 20000), func(k *kit.Case, ch kit.Chooser) {
				tasks, done := c12Tasks(k, w, kinds, rt)
				s := k.RunTasks(ch, tasks...)
				k.Sig("%s %v %s", kinds, rt, s.String())
				done(s.String())
			})
			if complete {
				c.Event("enumerations_complete")
			}
		}
	}
	for i := 0; i < c.N(4000, 100000); i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			kinds, rt := kit.Pick(k.R, "viir", "vbij", "vori", "vvrr", "biij", "vbrj", "oiir", "virob"), k.R.Intn(2) == 0
			tasks, done := c12Tasks(k, w, kinds, rt)
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 3, Steps: 20}
			}
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s %v %s", kinds, rt, s.String())
			done(s.String())
		})
	}
	for _, e := range []string{"revoked", "refused", "live_seen", "dead_seen"} {
		c.Require(e, 200)
	}
}

func c12Race(c *kit.Ctx) {
	for _, format := range []string{"verifiable", "jwt"} {
		w := kit.NewWorld(kit.NewStores(format), nil)
		for i := 0; i < c.N(500, 20000); i++ {
			c.Case(fmt.Sprintf("race/%s/%d", format, i), func(k *kit.Case) {
				kinds := kit.Pick(k.R, "viirriie", "vbijijij", "voririoi", "vvvviiii", "biijjbji")
				tasks, done := c12Tasks(k, w, kinds, k.R.Intn(2) == 0)
				runParallel(k, tasks)
				done("parallel " + kinds)
				k.Sig("%d", i)
			})
		}
	}
	c.Require("dead_seen", 50)
	c.Require("live_seen", 50)
}
