package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C03", Level: "exploration",
		Rule: "seq: histories of pushes and resolutions (right, near-miss, foreign issuer, foreign client, replayed, aged in virtual time, with decoy parameters) against a ledger, the code being redeemed to observe what was authorized; " +
			"sched: every interleaving of two resolutions of one request_uri, samples of three; race: parallel resolutions. Non-trivial: distinct history of actions and answers, or distinct interleaving.",
		Assumptions: []string{"the exact second of expiry is not judged", "after a refusal because of the client the request_uri may or may not be consumed"},
		Modes: []kit.Mode{
			{Name: "seq", Bubble: true, Run: c03Seq},
			{Name: "sched", Run: c03Sched},
			{Name: "race", Race: true, Run: c03Race},
		},
	})
}

type pushed struct {
	uri, iss string
	owner    *clientv1.Client
	ar       *flowv1.AuthorizationRequest
	verifier string
	at       time.Time
	used     bool
	unsure   bool
}

// effectiveScope is the documented scope normalisation.
func effectiveScope(ar *flowv1.AuthorizationRequest) string {
	fs := strings.Fields(ar.Scope)
	has := func(x string) bool {
		for _, f := range fs {
			if strings.EqualFold(f, x) { // scope words are compared without case
				return true
			}
		}
		return false
	}
	if !has("openid") {
		return ar.Scope
	}
	if ar.Prompt == nil || *ar.Prompt != "consent" {
		var kept []string
		for _, f := range fs {
			if !strings.EqualFold(f, "offline_access") {
				kept = append(kept, f)
			}
		}
		fs = kept
	}
	return strings.Join(fs, " ")
}

func c03Seq(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("resolved", 200)
	c.Require("refused", 500)
	c.Require("redeemed", 100)
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	for i := 0; i < c.N(1500, 30000); i++ {
		c.Case(fmt.Sprintf("seq/%d", i), func(k *kit.Case) {
			r := k.R
			clients := []*clientv1.Client{w.Client(nil), w.Client(nil)}
			issuers := kit.Issuers(r)
			var ps []*pushed
			for step := 0; step < 10; step++ {
				if len(ps) == 0 || r.Intn(4) == 0 {
					cl := kit.Pick(r, clients...)
					iss := kit.Pick(r, issuers...)
					ar, v := kit.AuthReq(r, cl, kit.Pick(r, "openid", "openid offline_access", "openid offline_access profile", "read", "offline_access read"))
					ar.Prompt = kit.Pick(r, nil, kit.Str("consent"), kit.Str("login"), kit.Str("none"))
					ar.ResponseMode = kit.Pick(r, nil, kit.Str("query.jwt"), kit.Str("jwt"), kit.Str("form_post"))
					kit.Decorate(r, ar)
					bad := ""
					req := &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar)}
					if r.Intn(3) == 0 {
						switch kit.Pick(r, "nested", "nestedEmpty", "otherclient", "noclient", "noissuer", "norequest", "nostate", "noaud", "badredirect", "unknownclient", "plain") {
						case "nested":
							req.Request.RequestUri = kit.Str("urn:solid:" + kit.RandString(r, 32, kit.Alnum))
							bad = "nested"
							if len(ps) > 0 {
								req.Request.RequestUri = kit.Str(ps[0].uri)
							}
						case "nestedEmpty":
							req.Request.RequestUri = kit.Str("")
							bad = "nested-empty"
						case "otherclient":
							bad = "otherclient"
							req.Client = clients[0]
							if cl == clients[0] {
								req.Client = clients[1]
							}
						case "noclient":
							req.Client, bad = nil, "noclient"
						case "noissuer":
							req.Issuer, bad = "", "noissuer"
						case "norequest":
							req.Request, bad = nil, "norequest"
						case "nostate":
							req.Request.State, bad = kit.Pick(r, "", "short", kit.RandString(r, 31, kit.Alnum)), "state"
						case "noaud":
							req.Request.Audience, bad = "", "audience"
						case "badredirect":
							req.Request.RedirectUri, bad = kit.NearMiss(r, ar.RedirectUri), "redirect"
						case "unknownclient":
							req.Request.ClientId, bad = w.NoClient(r, cl.ClientId), "unknownclient"
						case "plain":
							req.Request.CodeChallengeMethod, bad = "plain", "method"
						}
					}
					res, err := w.Authz.Register(ctx, req)
					k.Log("push %s -> %s %v", bad, res.GetRequestUri(), err)
					k.Sig("p%s", bad)
					if bad != "" {
						if err == nil || res == nil || res.RequestUri != "" || res.Error == nil || res.Error.Err != "invalid_request" {
							k.Fail("push-accepted", "push %q: err %v response %s", bad, err, kit.Brief(res))
						}
						c.Event("push_refused")
						continue
					}
					if err != nil || res.RequestUri == "" || res.Error != nil {
						k.Fatal("push-refused", "honest push refused: %v", err)
					}
					k.Check(res.ExpiresIn == 60 && res.Issuer == iss, "push-response", "expires_in %d issuer %q", res.ExpiresIn, res.Issuer)
					for _, p := range ps {
						k.Check(p.uri != res.RequestUri, "uri-reuse", "request_uri issued twice")
					}
					ps = append(ps, &pushed{uri: res.RequestUri, iss: iss, owner: cl, ar: ar, verifier: v, at: time.Now()})
					continue
				}
				p := ps[r.Intn(len(ps))]
				kind := kit.Pick(r, "right", "right", "right", "noclient", "issuer", "client", "uri", "wait", "nosub", "noissuer")
				if kind == "wait" {
					time.Sleep(time.Duration(kit.Pick(r, 1, 20, 30, 59, 61, 100)) * time.Second)
					k.Sig("w")
					continue
				}
				req := &flowv1.AuthorizeRequest{Issuer: p.iss, Client: p.owner, Subject: "sub-" + kit.RandString(r, 5, kit.Alnum), Request: &flowv1.AuthorizationRequest{ClientId: p.owner.ClientId, RequestUri: kit.Str(p.uri)}}
				if r.Intn(2) == 0 { // decoy parameters must not matter
					d, _ := kit.AuthReq(r, p.owner, "admin openid offline_access")
					d.RequestUri = kit.Str(p.uri)
					d.Prompt = kit.Pick(r, nil, kit.Str("consent"), kit.Str("login"), kit.Str("none"))
					d.ResponseMode = kit.Pick(r, nil, kit.Str("query.jwt"), kit.Str("fragment"), kit.Str("form_post"))
					kit.Decorate(r, d)
					if r.Intn(2) == 0 {
						d.ClientId = kit.Pick(r, clients...).ClientId
					}
					d.RedirectUri = kit.Pick(r, "https://evil.example/", d.RedirectUri)
					req.Request = d
				}
				otherIssuer := ""
				switch kind {
				case "noclient":
					req.Client = nil
				case "issuer":
					req.Issuer = issuers[0]
					if p.iss == issuers[0] {
						req.Issuer = issuers[1]
					}
					otherIssuer = req.Issuer
				case "client":
					req.Client = clients[0]
					if p.owner == clients[0] {
						req.Client = clients[1]
					}
				case "uri":
					req.Request.RequestUri = kit.Str(kit.NearMiss(r, p.uri))
				case "nosub":
					req.Subject = ""
				case "noissuer":
					req.Issuer = ""
				}
				age := time.Since(p.at)
				if age == 60*time.Second {
					time.Sleep(time.Second)
					age = time.Since(p.at)
				}
				live := !p.used && age < 60*time.Second
				legit := kind == "right" || kind == "noclient"
				sub := req.Subject
				res, err := w.Authz.Authorize(ctx, req)
				ok := err == nil && res != nil && res.Code != ""
				k.Log("resolve %s %s age %s used=%v -> ok=%v %v", p.uri, kind, age, p.used, ok, err)
				k.Sig("%s%v", kind, ok)
				switch {
				case ok && p.used:
					k.Fail("double-resolve", "request_uri resolved again (%s)", kind)
				case ok && !legit:
					k.Fail("wrong-context", "request_uri resolved in a wrong context (%s, issuer %s)", kind, otherIssuer)
				case ok && !live:
					k.Fail("expired-resolve", "request_uri resolved after %s", age)
				case !ok && legit && live && !p.unsure:
					k.Fail("legit-refused", "live request_uri refused (%s): %v", kind, err)
				case !ok && (res == nil || res.Error == nil || res.Error.Err != "invalid_request" || res.Code != "" || err == nil):
					k.Fail("refusal", "%s: error %v response %s", kind, err, kit.Brief(res))
				}
				if !ok {
					c.Event("refused")
				}
				if kind == "client" {
					p.unsure = true
				}
				if ok {
					p.used = true
					c.Event("resolved")
					wantMode := p.ar.GetResponseMode()
					if wantMode == "jwt" {
						wantMode = "query.jwt"
					}
					k.Check(res.State == p.ar.State && res.RedirectUri == p.ar.RedirectUri && res.ClientId == p.owner.ClientId && res.Issuer == p.iss && res.ResponseMode == wantMode,
						"response", "pushed %s, answered %s", kit.Brief(p.ar), kit.Brief(res))
					// what was authorized is observed by redeeming
					tr, err := w.Token.Token(ctx, kit.CodeReq(p.iss, p.owner, res.Code, p.ar.RedirectUri, p.verifier))
					if !kit.Granted(tr, err) {
						k.Fail("redeem", "code of a pushed request not redeemable with the pushed parameters: %v", err)
						continue
					}
					c.Event("redeemed")
					m := tr.AccessToken.Metadata
					k.Check(m.Scope == effectiveScope(p.ar) && m.Audience == p.ar.Audience && m.Subject == sub && m.ClientId == p.owner.ClientId,
						"authorized-other", "pushed %s, authorized %s", kit.Brief(p.ar), kit.Brief(m))
				}
			}
		})
	}
}

func c03Setup(k *kit.Case, w *kit.World, w2 services.Authorization, n int) ([]func(context.Context), func(string)) {
	ctx := context.Background()
	iss := kit.Issuer(k.R)
	cl := w.Client(nil)
	ar, v := kit.AuthReq(k.R, cl, "openid")
	pr, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar)})
	if err != nil {
		k.Fatal("push-refused", "honest push refused: %v", err)
	}
	var granted atomic.Int32
	var mu sync.Mutex
	var codes []string
	var tasks []func(context.Context)
	for i := 0; i < n; i++ {
		i := i
		tasks = append(tasks, func(ctx context.Context) {
			svc := w.Authz
			if i%2 == 1 {
				svc = w2
			}
			res, err := svc.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Client: cl, Subject: fmt.Sprintf("u%d", i), Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(pr.RequestUri)}})
			if err == nil && res.Code != "" {
				granted.Add(1)
				mu.Lock()
				codes = append(codes, res.Code)
				mu.Unlock()
				k.Event("resolved")
				k.Log("winner %d", i)
				return
			}
			k.Check(res != nil && res.Code == "" && res.Error != nil && res.Error.Err == "invalid_request", "refusal", "concurrent loser got %s %v", kit.Brief(res), err)
			k.Event("refused")
		})
	}
	return tasks, func(s string) {
		k.Log("schedule %s granted %d", s, granted.Load())
		k.Check(granted.Load() <= 1, "double-resolve", "request_uri resolved %d times under %s", granted.Load(), s)
		if n == 1 {
			k.Check(granted.Load() == 1, "legit-refused", "single resolution refused")
		}
		res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Client: cl, Subject: "late", Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(pr.RequestUri)}})
		k.Check(err != nil && res.GetCode() == "", "double-resolve", "request_uri resolved again after %s", s)
		for _, code := range codes {
			tr, err := w.Token.Token(ctx, kit.CodeReq(iss, cl, code, ar.RedirectUri, v))
			k.Check(kit.Granted(tr, err), "redeem", "code of the winner not redeemable: %v", err)
		}
	}
}

func authz2(w *kit.World) services.Authorization {
	s := w.S
	return authorization.New(s.Clients, s.AuthReqs, s.Codes, s.CodeGen, s.URIGen)
}

func c03Sched(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	w2 := authz2(w)
	_, complete := c.Enumerate("enum/2", c.N(3000, 40000), func(k *kit.Case, ch kit.Chooser) {
		tasks, done := c03Setup(k, w, w2, 2)
		s := k.RunTasks(ch, tasks...)
		k.Sig("%s", s)
		done(s.String())
	})
	if complete {
		c.Event("enumerations_complete")
	}
	for i := 0; i < c.N(4000, 80000); i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			tasks, done := c03Setup(k, w, w2, 1+k.R.Intn(4))
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 3, Steps: 18}
			}
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s", s)
			done(s.String())
		})
	}
	c.Require("resolved", 100)
	c.Require("refused", 100)
}

func c03Race(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	w2 := authz2(w)
	for i := 0; i < c.N(1200, 30000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			n := kit.Pick(k.R, 2, 4, 8)
			tasks, done := c03Setup(k, w, w2, n)
			runParallel(k, tasks)
			done("parallel")
			k.Sig("%d %s", n, k.TraceString())
		})
	}
	c.Require("resolved", 100)
}

// runParallel releases the tasks together.
func runParallel(k *kit.Case, tasks []func(context.Context)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, t := range tasks {
		t := t
		k.Go(&wg, func() { <-start; t(context.Background()) })
	}
	close(start)
	wg.Wait()
}
