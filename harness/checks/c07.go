package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C07", Level: "exploration",
		Rule: "histories of device authorizations, polls (right and deviating client, issuer, code, registration), approvals (right and deviating) and virtual time around the announced lifetime, against a ledger; plus scheduled poll/approve runs. " +
			"Non-trivial: a distinct history of outcomes or interleaving.",
		Assumptions: []string{"the second following the end of the announced lifetime is not judged", "repeated successful polls with one approved device_code before it expires are not judged (DESIGN.md)"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c07}, {Name: "sched", Bubble: true, Run: c07Sched}, {Name: "race", Race: true, Run: c07Race}},
	})
	kit.Register(&kit.Check{
		ID: "C08", Level: "exploration",
		Rule: "two to five users validate one user_code under every (two users) or random/PCT interleavings of dependency calls and in parallel, together with device polls; exactly one validation may succeed and every token names its user. " +
			"Non-trivial: a distinct interleaving or outcome vector.",
		Modes: []kit.Mode{{Name: "sched", Bubble: true, Run: c08Sched}, {Name: "race", Race: true, Run: c08Race}},
	})
}

type c07Dev struct {
	res     *flowv1.DeviceAuthorizationResponse
	cl      *clientv1.Client
	iss     string
	scope   *string
	aud     *string
	at      time.Time
	ttl     time.Duration
	subject string
}

// phase: 0 live, 1 unsure, 2 over
func (d *c07Dev) phase() int {
	e := time.Since(d.at)
	switch {
	case e < d.ttl:
		return 0
	case e < d.ttl+time.Second:
		return 1
	}
	return 2
}

func c07(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("granted", 400)
	c.Require("pending", 400)
	c.Require("expired_refused", 200)
	c.Require("validate_refused", 300)
	st := kit.NewStores("verifiable")
	ov := &clientOverride{Client: st.Clients, m: map[string]*clientv1.Client{}}
	st.Clients = ov
	var created, registered atomic.Int32
	hook := func(ctx context.Context, op string, do func() error) error {
		err := do()
		if op == "tokens.Create" && err == nil {
			created.Add(1)
		}
		if op == "devices.Register" && err == nil {
			registered.Add(1)
		}
		return err
	}
	// the second server has a storage which does not drop expired sessions by itself
	lst := st
	lst.Devices = kit.LazyDevices(120 * time.Second)
	// the third one announces another lifetime
	sst := st
	sst.Devices = kit.LazyDevices(40 * time.Second)
	short := kit.NewWorld(sst, hook)
	servers := []*kit.World{kit.NewWorld(st, hook), kit.NewWorld(lst, hook)}
	// a device which keeps asking, as often as it likes, while its user takes some time
	for i := 0; i < c.N(40, 1500); i++ {
		c.Case(fmt.Sprintf("patience/%d", i), func(k *kit.Case) {
			r := k.R
			w := servers[r.Intn(2)]
			cl, other := w.Client(nil), w.Client(nil)
			iss := kit.Issuer(r)
			d, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid")})
			if err != nil {
				k.Fatal("legit-refused", "device authorization refused: %v", err)
			}
			polls, strangers := r.Intn(150), kit.Pick(r, 0, 0, 3, 40, 100)
			start := time.Now()
			for n := 0; n < polls; n++ {
				res, err := w.Token.Token(ctx, kit.DeviceReq(iss, cl, d.DeviceCode))
				k.Refused("pending-accepted", fmt.Sprintf("poll %d before approval", n), res, err, "authorization_pending")
				c.Event("pending")
				if rest := 110*time.Second - time.Since(start); r.Intn(2) == 0 && rest > 0 {
					time.Sleep(time.Duration(r.Int63n(int64(rest)/20 + 1)))
				}
			}
			for n := 0; n < strangers; n++ {
				res, err := w.Token.Token(ctx, kit.DeviceReq(iss, other, d.DeviceCode))
				k.Refused("poll-accepted", "poll by another client", res, err, "invalid_request")
				bad, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "eve", UserCode: kit.NearMiss(r, d.UserCode)})
				k.Check(err != nil && bad.GetError() != nil, "approval-accepted", "approval of a near miss: %v", bad)
				c.Event("validate_refused")
			}
			k.Sig("patience %d %d", polls, strangers)
			if _, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "alice", UserCode: d.UserCode}); !k.Check(err == nil, "legit-refused", "approval after %d polls refused: %v", polls, err) {
				return
			}
			res, err := w.Token.Token(ctx, kit.DeviceReq(iss, cl, d.DeviceCode))
			if k.Check(kit.Granted(res, err), "legit-refused", "poll after approval and %d polls refused: %v", polls, err) {
				k.Check(res.AccessToken.Metadata.Subject == "alice", "subject", "token of %q", res.AccessToken.Metadata.Subject)
				c.Event("granted")
			}
		})
	}
	for i := 0; i < c.N(1500, 40000); i++ {
		c.Case(fmt.Sprintf("hist/%d", i), func(k *kit.Case) {
			r := k.R
			w, ttl := servers[r.Intn(2)], 120*time.Second
			if r.Intn(4) == 0 {
				w, ttl = short, 40*time.Second
			}
			clients := []*clientv1.Client{w.Client(nil), w.Client(func(c *clientv1.Client) { c.ApplicationType = "device"; c.GrantTypes = []string{kit.GrantDevice} })}
			bad := w.Client(func(c *clientv1.Client) { c.GrantTypes = []string{kit.GrantCode, kit.GrantRefresh} })
			issuers := kit.Issuers(r)
			otherOf := func(cl *clientv1.Client) *clientv1.Client {
				if cl == clients[0] {
					return clients[1]
				}
				return clients[0]
			}
			otherIss := func(s string) string {
				if s == issuers[0] {
					return issuers[1]
				}
				return issuers[0]
			}
			var devs []*c07Dev
			start := func() {
				d := &c07Dev{cl: clients[r.Intn(2)], iss: issuers[r.Intn(2)], at: time.Now(), ttl: ttl}
				if r.Intn(4) > 0 {
					d.scope = kit.Str(c05Scopes(k))
				}
				if r.Intn(4) > 0 {
					d.aud = kit.Str(kit.Pick(r, "https://api.example/"+kit.RandString(r, 4, kit.Alnum), d.cl.ClientId, d.iss))
				}
				req := &flowv1.DeviceAuthorizationRequest{Issuer: d.iss, ClientId: d.cl.ClientId, Scope: d.scope, Audience: d.aud}
				var err error
				d.res, err = w.Device.Authorize(ctx, req)
				if err != nil || d.res.Error != nil || d.res.DeviceCode == "" || d.res.UserCode == "" {
					k.Fatal("legit-refused", "device authorization refused: %v", err)
				}
				k.Check(d.res.ExpiresIn == uint64(d.ttl/time.Second) && d.res.Issuer == d.iss && d.res.Interval > 0, "announce", "%s", kit.Brief(d.res))
				for _, o := range devs {
					k.Check(o.res.DeviceCode != d.res.DeviceCode && o.res.UserCode != d.res.UserCode, "unique", "code repeated")
				}
				devs = append(devs, d)
				k.Log("start #%d", len(devs)-1)
			}
			start()
			for step := 0; step < 16; step++ {
				switch op := r.Intn(10); {
				case op == 0:
					if len(devs) < 4 {
						start()
					}
				case op == 1: // refused starts
					n := registered.Load()
					req := &flowv1.DeviceAuthorizationRequest{Issuer: issuers[0], ClientId: bad.ClientId, Scope: kit.Str("openid")}
					want := "unsupported_grant_type"
					var removed string
					switch r.Intn(6) {
					case 3:
						req.ClientId, want = w.NoClient(r, clients[0].ClientId), "invalid_request"
					case 4: // served before, not registered any more
						req.ClientId, want = devs[r.Intn(len(devs))].cl.ClientId, "invalid_request"
						removed = req.ClientId
					case 0:
						req.ClientId, want = "nobody", "invalid_request"
					case 1:
						req.ClientId, want = "", "invalid_request"
					case 2:
						req.ClientId, req.Issuer, want = clients[0].ClientId, "", "invalid_request"
					}
					if removed != "" {
						ov.mu.Lock()
						ov.m[removed] = nil
						ov.mu.Unlock()
					}
					res, err := w.Device.Authorize(ctx, req)
					if removed != "" {
						ov.mu.Lock()
						delete(ov.m, removed)
						ov.mu.Unlock()
					}
					k.Check(err != nil && res != nil && res.DeviceCode == "" && res.UserCode == "" && res.Error.GetErr() == want, "start-accepted", "start (%s): %s %v", want, kit.Brief(res), err)
					k.Check(registered.Load() == n, "stored", "refused start stored a session")
					c.Event("start_refused")
				case op == 2:
					d := devs[r.Intn(len(devs))]
					var s time.Duration
					switch r.Intn(3) {
					case 0:
						s = time.Duration(r.Intn(40)) * time.Second
					case 1: // to just before the end
						s = time.Until(d.at.Add(d.ttl - time.Millisecond))
					case 2: // just after the end
						s = time.Until(d.at.Add(d.ttl + time.Second + time.Duration(r.Intn(2000))*time.Millisecond))
					}
					if s > 0 {
						time.Sleep(s)
						k.Log("sleep %s", s)
					}
				case op <= 4: // approval
					j := r.Intn(len(devs))
					d := devs[j]
					sub := kit.Subject(r, d.iss, d.cl.ClientId)
					if d.subject != "" && r.Intn(2) == 0 {
						sub = d.subject // the same user once more
					}
					kind := kit.Pick(r, "right", "right", "right", "issuer", "near", "devicecode", "nosub", "noissuer")
					req := &flowv1.DeviceCodeValidationRequest{Issuer: d.iss, Subject: sub, UserCode: d.res.UserCode}
					switch kind {
					case "issuer":
						req.Issuer = otherIss(d.iss)
					case "near":
						req.UserCode = kit.NearMiss(r, d.res.UserCode)
					case "devicecode":
						req.UserCode = d.res.DeviceCode
					case "nosub":
						req.Subject = ""
					case "noissuer":
						req.Issuer = ""
					}
					ph := d.phase()
					res, err := w.Device.Validate(ctx, req)
					ok := err == nil && res != nil && res.Error == nil
					k.Log("approve #%d %s phase %d -> %v %v", j, kind, ph, ok, err)
					k.Sig("a%s%d%v%v", kind, ph, d.subject != "", ok)
					good := kind == "right" && ph == 0 && d.subject == ""
					if kind == "right" && ph == 1 && d.subject == "" {
						if ok {
							d.subject = sub
						}
						continue
					}
					if !good {
						k.Check(err != nil && res != nil && (res.Error.GetErr() == "invalid_request" || ph == 2 && res.Error.GetErr() == "token_expired"), "approval-accepted", "approval %s phase %d already=%v: %s %v", kind, ph, d.subject != "", kit.Brief(res), err)
						c.Event("validate_refused")
						continue
					}
					if !k.Check(ok, "legit-refused", "approval refused: %v", err) {
						continue
					}
					d.subject = sub
					c.Event("validated")
				default: // poll
					j := r.Intn(len(devs))
					d := devs[j]
					kind := kit.Pick(r, "right", "right", "right", "right", "client", "issuer", "near", "usercode", "disallowed", "unknown", "claim")
					req := kit.DeviceReq(d.iss, d.cl, d.res.DeviceCode)
					codes := []string{"invalid_request"}
					switch kind {
					case "client":
						req.Client = otherOf(d.cl)
					case "claim": // other client claiming the right id in the grant
						req.Client = otherOf(d.cl)
						req.GetDeviceCode().ClientId = d.cl.ClientId
					case "issuer":
						req.Issuer = otherIss(d.iss)
					case "near":
						req.GetDeviceCode().DeviceCode = kit.NearMiss(r, d.res.DeviceCode)
					case "usercode":
						req.GetDeviceCode().DeviceCode = d.res.UserCode
					case "disallowed":
						no := kit.Clone(d.cl)
						no.GrantTypes = []string{kit.GrantCode, kit.GrantCC, kit.GrantRefresh, kit.GrantExchange}
						ov.mu.Lock()
						ov.m[d.cl.ClientId] = no
						ov.mu.Unlock()
						codes = []string{"unsupported_grant_type"}
					case "unknown":
						req.Client = &clientv1.Client{ClientId: "nobody"}
						codes = []string{"invalid_client"}
					}
					ph, n := d.phase(), created.Load()
					now := uint64(time.Now().Unix())
					res, err := w.Token.Token(ctx, req)
					if kind == "disallowed" {
						ov.mu.Lock()
						delete(ov.m, d.cl.ClientId)
						ov.mu.Unlock()
					}
					ok := kit.Granted(res, err)
					k.Log("poll #%d %s phase %d approved=%v -> %v %s", j, kind, ph, d.subject != "", ok, kit.ErrOf(res))
					k.Sig("p%s%d%v%v", kind, ph, d.subject != "", ok)
					if ok != (created.Load() > n) {
						k.Fail("stored", "granted=%v, %d tokens stored", ok, created.Load()-n)
					}
					switch {
					case kind != "right":
						k.Refused("poll-accepted", "poll ("+kind+")", res, err, codes...)
						c.Event("poll_refused")
					case ph == 1:
					case ph == 2:
						k.Refused("expired-accepted", "poll of an expired device code", res, err, "token_expired", "invalid_request")
						c.Event("expired_refused")
					case d.subject == "":
						k.Refused("pending-accepted", "poll before approval", res, err, "authorization_pending")
						c.Event("pending")
					default:
						if !k.Check(ok, "legit-refused", "poll after approval refused: %v", err) {
							continue
						}
						c.Event("granted")
						s, a := "", ""
						if d.scope != nil {
							s = *d.scope
						}
						if d.aud != nil {
							a = *d.aud
						}
						checkToken(k, "device token", res.AccessToken, wantToken{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, d.iss, d.subject, d.cl.ClientId, s, a, nil, hour, now, "verifiable"}, 0)
						if k.Check((res.RefreshToken != nil) == wantsRefresh(s, false), "refresh-issued", "scope %q refresh %v", s, res.RefreshToken != nil) && res.RefreshToken != nil {
							checkToken(k, "device refresh token", res.RefreshToken, wantToken{tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, d.iss, d.subject, d.cl.ClientId, s, a, nil, week, now, "verifiable"}, 0)
						}
					}
				}
			}
		})
	}
}

// c08Run prepares kinds: 'u' a user approving, 'p' the device polling, 'o' another client polling.
func c08Run(k *kit.Case, w *kit.World, kinds string) ([]func(context.Context), func(string)) {
	ctx := context.Background()
	iss := kit.Issuer(k.R)
	cl, other := w.Client(nil), w.Client(nil)
	dreq := &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId}
	offline := false
	switch k.R.Intn(4) {
	case 0:
	case 1:
		dreq.Scope, dreq.Audience = kit.Str(""), kit.Str("")
	case 2:
		dreq.Scope = kit.Str("openid profile")
	default:
		dreq.Scope, dreq.Audience, offline = kit.Str("openid offline_access"), kit.Str("https://api.example/"), true
	}
	same := k.R.Intn(3) == 0 // one user validating several times
	users := c08Users(k, len(kinds))
	dr, err := w.Device.Authorize(ctx, dreq)
	if err != nil {
		k.Fatal("legit-refused", "device authorization: %v", err)
	}
	var clock atomic.Int64
	var mu sync.Mutex
	var winners, tokens []string
	var wonEnd, wonStart int64
	type poll struct {
		start, end int64
		ok         bool
	}
	var polls []poll
	var tasks []func(context.Context)
	for i, kind := range kinds {
		i, kind := i, kind
		tasks = append(tasks, func(ctx context.Context) {
			start := clock.Add(1)
			switch kind {
			case 'u':
				sub := users[i]
				if same {
					sub = users[0]
				}
				res, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: sub, UserCode: dr.UserCode})
				ok := err == nil && res != nil && res.Error == nil
				end := clock.Add(1)
				mu.Lock()
				defer mu.Unlock()
				if ok {
					winners = append(winners, sub)
					wonStart, wonEnd = start, end
					k.Event("validated")
				} else {
					k.Event("validate_refused")
					k.Check(res != nil && res.Error.GetErr() == "invalid_request", "refusal", "refused with %s %v", kit.Brief(res), err)
				}
			default:
				req := kit.DeviceReq(iss, cl, dr.DeviceCode)
				if kind == 'o' {
					req.Client = other
				}
				res, err := w.Token.Token(ctx, req)
				ok := kit.Granted(res, err)
				end := clock.Add(1)
				mu.Lock()
				defer mu.Unlock()
				if kind == 'o' {
					k.Refused("poll-accepted", "poll by another client", res, err, "invalid_request")
					return
				}
				polls = append(polls, poll{start, end, ok})
				if ok {
					k.Event("token")
					tokens = append(tokens, res.AccessToken.Metadata.Subject)
					if offline {
						tokens = append(tokens, res.RefreshToken.GetMetadata().GetSubject())
					}
				} else {
					k.Refused("poll", "poll", res, err, "authorization_pending")
				}
			}
		})
	}
	return tasks, func(sched string) {
		users := 0
		for _, c := range kinds {
			if c == 'u' {
				users++
			}
		}
		res, err := w.Token.Token(ctx, kit.DeviceReq(iss, cl, dr.DeviceCode))
		if kit.Granted(res, err) {
			tokens = append(tokens, res.AccessToken.Metadata.Subject)
		}
		k.Log("%s\nwinners %v tokens %v", sched, winners, tokens)
		if users == 0 {
			k.Check(len(tokens) == 0, "no-approval", "tokens without approval")
			return
		}
		if !k.Check(len(winners) == 1, "winners", "%d validations succeeded (%v) under %s", len(winners), winners, sched) {
			return
		}
		k.Check(kit.Granted(res, err), "legit-refused", "approved device code refused: %v", err)
		for _, s := range tokens {
			k.Check(s == winners[0], "subject", "token for %q although %q approved: %s", s, winners[0], sched)
		}
		for _, p := range polls {
			k.Check(p.ok || p.start < wonEnd, "lost-approval", "a poll after the approval was refused: %s", sched)
			k.Check(!p.ok || p.end > wonStart, "early", "a poll before any approval was granted: %s", sched)
		}
		// nobody can approve any more, whatever happened
		vr, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "late", UserCode: dr.UserCode})
		k.Check(err != nil && vr.GetError() != nil, "late", "a late user approved the code")
	}
}

func c08Drive(c *kit.Ctx, enum, random []string, rounds int) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	for _, kinds := range enum {
		_, complete := c.Enumerate("enum/"+kinds, c.N(3000, 60000), func(k *kit.Case, ch kit.Chooser) {
			tasks, done := c08Run(k, w, kinds)
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s %s", kinds, s.String())
			done(s.String())
		})
		if complete {
			c.Event("enumerations_complete")
		}
	}
	for i := 0; i < rounds; i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			kinds := kit.Pick(k.R, random...)
			tasks, done := c08Run(k, w, kinds)
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 3, Steps: 20}
			}
			s := k.RunTasks(ch, tasks...)
			k.Sig("%s %s", kinds, s.String())
			done(s.String())
		})
	}
}

func c07Sched(c *kit.Ctx) {
	c08Drive(c, []string{"up", "uo", "pp"}, []string{"upp", "upo", "ppo", "upppo"}, c.N(2000, 60000))
	c.Require("validated", 500)
	c.Require("token", 100)
}

func c08Sched(c *kit.Ctx) {
	c08Drive(c, []string{"uu", "uup"}, []string{"uuu", "uuuu", "uupp", "uuuuu", "uuupo"}, c.N(4000, 120000))
	c.Require("validated", 1000)
	c.Require("validate_refused", 1000)
	c.Require("token", 100)
}

func c08Par(c *kit.Ctx, kinds []string, n int) {
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	for i := 0; i < n; i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			tasks, done := c08Run(k, w, kit.Pick(k.R, kinds...))
			runParallel(k, tasks)
			done("parallel")
			k.Sig("%s", k.TraceString())
		})
	}
	c.Require("validated", 100)
}

func c07Race(c *kit.Ctx) {
	c08Par(c, []string{"upppp", "upop", "uppppppp"}, c.N(1000, 40000))
}

func c08Race(c *kit.Ctx) {
	c08Par(c, []string{"uu", "uuuuuuuu", "uuupp", "uuuuppo"}, c.N(1500, 60000))
	c.Require("validate_refused", 100)
}

// c08Users names n different users, confusable ones most of the time.
func c08Users(k *kit.Case, n int) []string {
	var out []string
	seen := map[string]bool{}
	add := func(v string) {
		if !seen[v] && kit.Printable(v) && len(out) < n {
			seen[v] = true
			out = append(out, v)
		}
	}
	base := "User" + kit.RandString(k.R, 3, kit.Alnum)
	if k.R.Intn(4) != 0 {
		fs := kit.Families(k.R, base)
		for _, v := range append(fs[k.R.Intn(len(fs))].Members, strings.ToLower(base), strings.ToUpper(base), " "+base, base+" ") {
			add(v)
		}
	}
	for i := 0; len(out) < n; i++ {
		add(fmt.Sprintf("user-%d", i))
	}
	k.R.Shuffle(n, func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
