package checks

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokensvc "zntr.io/solid/server/services/token"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C01", Level: "exploration",
		Rule: "seq: random histories presenting live, used and foreign codes in right and wrong contexts to two service instances, checked against a ledger of codes; " +
			"sched: every interleaving (by dependency call) of two redemptions of one code and sampled interleavings of three or four; race: parallel redemption under the race detector. " +
			"Non-trivial: a distinct sequence of presentations and answers, or a distinct interleaving.",
		Assumptions: []string{"instances share one in-memory storage", "schedule control is at dependency calls; finer interleavings are reached by the race mode only"},
		Modes: []kit.Mode{
			{Name: "seq", Bubble: true, Run: c01Seq},
			{Name: "sched", Run: c01Sched},
			{Name: "race", Race: true, Run: c01Race},
		},
	})
}

type c01Code struct {
	code, redirect, verifier, iss string
	owner                         *clientv1.Client
	used                          bool
	unsure                        bool // presented in a malformed way: may or may not be consumed
	granted                       int
}

func secondToken(w *kit.World) func(ctx context.Context, r *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	s := w.S
	return tokensvc.New(s.AccessGen, s.RefreshGen, s.Clients, s.AuthReqs, s.Codes, s.Devices, s.Tokens, s.Resources).Token
}

func c01Seq(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("redeemed", 50)
	c.Require("replay_refused", 100)
	for _, gen := range []string{"verifiable", "jwt", "opaque"} {
		w := kit.NewWorld(kit.NewStores(gen), nil)
		svc := []func(context.Context, *flowv1.TokenRequest) (*flowv1.TokenResponse, error){w.Token.Token, secondToken(w)}
		for i := 0; i < c.N(1200, 20000); i++ {
			c.Case(fmt.Sprintf("seq/%s/%d", gen, i), func(k *kit.Case) {
				r := k.R
				clients := []*clientv1.Client{w.Client(nil), w.Client(nil)}
				issuers := kit.Issuers(r)
				var codes []*c01Code
				for step := 0; step < 14; step++ {
					if len(codes) == 0 || r.Intn(4) == 0 {
						cl := kit.Pick(r, clients...)
						iss := kit.Pick(r, issuers...)
						ar, v := kit.AuthReq(r, cl, kit.Pick(r, "openid", "openid offline_access", "read write"))
						res, err := w.Code(ctx, iss, "sub", cl, ar)
						if err != nil || res.Code == "" {
							k.Fatal("no-code", "honest authorization refused: %v", err)
						}
						for _, o := range codes {
							k.Check(o.code != res.Code, "code-reuse", "the same code was issued twice")
						}
						codes = append(codes, &c01Code{code: res.Code, redirect: ar.RedirectUri, verifier: v, iss: iss, owner: cl})
						k.Log("issue %s", res.Code)
						k.Sig("i")
						continue
					}
					o := codes[r.Intn(len(codes))]
					req := kit.CodeReq(o.iss, o.owner, o.code, o.redirect, o.verifier)
					kind := kit.Pick(r, "right", "right", "right", "client", "redirect", "verifier", "issuer", "short", "otherredirect")
					g := req.GetAuthorizationCode()
					switch kind {
					case "client":
						req.Client = clients[0]
						if o.owner == clients[0] {
							req.Client = clients[1]
						}
					case "redirect":
						g.RedirectUri += "/"
					case "otherredirect":
						for _, u := range o.owner.RedirectUris {
							if u != o.redirect {
								g.RedirectUri = u
							}
						}
					case "verifier":
						g.CodeVerifier = kit.RandString(r, 50, kit.Unreserve)
						if r.Intn(3) == 0 { // of the right length, but of other characters
							g.CodeVerifier = kit.Pick(r, "é", " ", "\n", "+", "=", "\x00", "%") + g.CodeVerifier
							g.CodeVerifier += kit.Pick(r, "", "é", " ", "/", "=")
						}
					case "issuer":
						req.Issuer = kit.Issuer(r)
					case "short":
						g.CodeVerifier = g.CodeVerifier[:42]
					}
					res, err := svc[r.Intn(2)](ctx, req)
					ok := kit.Granted(res, err)
					k.Log("present %s %s -> ok=%v %s", o.code, kind, ok, kit.ErrOf(res))
					k.Sig("%s%v", kind, ok)
					switch {
					case ok && o.granted > 0:
						k.Fail("double-redeem", "code %s redeemed again (%s)", o.code, kind)
					case ok && kind != "right":
						k.Fail("wrong-context", "code %s redeemed in a wrong context (%s)", o.code, kind)
					case ok && o.used:
						k.Fail("used-redeem", "code %s redeemed although a refused presentation consumed it", o.code)
					case kind == "right" && !o.used && !ok && !o.unsure:
						k.Fail("legit-refused", "live code %s refused: %v", o.code, err)
					}
					if ok {
						c.Event("redeemed")
						o.granted++
					} else {
						want := "invalid_grant"
						k.Refused("refusal", "presentation "+kind, res, err, want)
						if o.used {
							c.Event("replay_refused")
						}
					}
					switch kind {
					case "issuer":
					case "short":
						o.unsure = true
					default:
						o.used = true
					}
				}
			})
		}
	}
}

// redeemers returns tasks presenting one code; kinds: r right, c other client, v wrong verifier.
func c01Setup(k *kit.Case, w *kit.World, w2 func(context.Context, *flowv1.TokenRequest) (*flowv1.TokenResponse, error), kinds, iss, scope string) ([]func(context.Context), func(s string)) {
	ctx := context.Background()
	owner, other := w.Client(nil), w.Client(nil)
	ar, v := kit.AuthReq(k.R, owner, scope)
	res, err := w.Code(ctx, iss, "sub", owner, ar)
	if err != nil {
		k.Fatal("no-code", "honest authorization refused: %v", err)
	}
	var granted atomic.Int32
	var mu sync.Mutex
	var outcome []string
	var tasks []func(context.Context)
	for i, kind := range kinds {
		i, kind := i, kind
		tasks = append(tasks, func(ctx context.Context) {
			req := kit.CodeReq(iss, owner, res.Code, ar.RedirectUri, v)
			switch kind {
			case 'c':
				req.Client = other
			case 'v':
				req.GetAuthorizationCode().CodeVerifier = v[:42] + "~" + "~"
			}
			svc := w.Token.Token
			if i%2 == 1 {
				svc = w2
			}
			tr, err := svc(ctx, req)
			ok := kit.Granted(tr, err)
			if ok {
				granted.Add(1)
				k.Event("redeemed")
			} else {
				k.Refused("refusal", "concurrent presentation", tr, err, "invalid_grant")
				k.Event("refused")
			}
			if kind != 'r' {
				k.Check(!ok, "wrong-context", "code redeemed in a wrong context (%c)", kind)
			}
			mu.Lock()
			outcome = append(outcome, fmt.Sprintf("%d%c=%v", i, kind, ok))
			mu.Unlock()
		})
	}
	return tasks, func(s string) {
		k.Log("schedule %s\noutcome %v", s, outcome)
		k.Check(granted.Load() <= 1, "double-redeem", "code redeemed %d times under schedule %s (%v)", granted.Load(), s, outcome)
		if kinds == "r" {
			k.Check(granted.Load() == 1, "legit-refused", "single redemption refused")
		}
		// whatever happened, the code is dead now
		tr, err := w.Token.Token(ctx, kit.CodeReq(iss, owner, res.Code, ar.RedirectUri, v))
		if kit.Granted(tr, err) {
			k.Fail("used-redeem", "code redeemed again after schedule %s (%v)", s, outcome)
		}
	}
}

func c01Sched(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	w2 := secondToken(w)
	total := 0
	for _, kinds := range []string{"rr", "rc", "rv"} {
		n, complete := c.Enumerate("enum/"+kinds, c.N(2500, 40000), func(k *kit.Case, ch kit.Chooser) {
			tasks, done := c01Setup(k, w, w2, kinds, kit.Issuer(k.R), "openid")
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s %s", kinds, s.String())
			done(s.String())
		})
		total += n
		if complete {
			c.Event("enumerations_complete")
		}
	}
	for i := 0; i < c.N(8000, 150000); i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			kinds := kit.Pick(k.R, "rrr", "rrrr", "rrc", "rvr", "rcvr", "r")
			tasks, done := c01Setup(k, w, w2, kinds, kit.Issuer(k.R), kit.Pick(k.R, "openid", "openid offline_access"))
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 3, Steps: 20}
			}
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s %s", kinds, s.String())
			done(s.String())
		})
	}
	c.Require("redeemed", 200)
	c.Require("refused", 200)
}

func c01Race(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	w2 := secondToken(w)
	for i := 0; i < c.N(1500, 30000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			tasks, done := c01Setup(k, w, w2, kit.Pick(k.R, "rrrrrrrr", "rrrr", "rrrc", "rrvrr"), kit.Issuer(k.R), kit.Pick(k.R, "openid", "openid offline_access"))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, t := range tasks {
				t := t
				k.Go(&wg, func() { <-start; t(context.Background()) })
			}
			close(start)
			wg.Wait()
			done("parallel")
			k.Sig("%s", k.TraceString())
		})
	}
	c.Require("redeemed", 100)
}
