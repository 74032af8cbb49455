package checks

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"time"

	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// timeline runs actions at their virtual instants.
type timeline struct {
	acts []timedAct
	n    int
}

type timedAct struct {
	at time.Time
	n  int
	f  func()
}

func (t *timeline) at(when time.Time, f func()) {
	t.acts = append(t.acts, timedAct{when, t.n, f})
	t.n++
}

func (t *timeline) run() {
	for len(t.acts) > 0 {
		sort.SliceStable(t.acts, func(i, j int) bool {
			if t.acts[i].at.Equal(t.acts[j].at) {
				return t.acts[i].n < t.acts[j].n
			}
			return t.acts[i].at.Before(t.acts[j].at)
		})
		a := t.acts[0]
		t.acts = t.acts[1:]
		if d := time.Until(a.at); d > 0 {
			time.Sleep(d)
		}
		a.f()
	}
}

// moments draws observation offsets around a lifetime, never exactly on its end.
func moments(r *rand.Rand, ttl time.Duration, n int) []time.Duration {
	var out []time.Duration
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			out = append(out, ttl-time.Millisecond)
		case 1:
			out = append(out, ttl+time.Millisecond)
		case 2:
			out = append(out, ttl-time.Duration(r.Intn(1500)+1)*time.Millisecond)
		case 3:
			out = append(out, ttl+time.Duration(r.Intn(1500)+1)*time.Millisecond)
		case 4:
			out = append(out, ttl+time.Duration(r.Intn(15*60))*time.Second+time.Millisecond)
		default:
			out = append(out, time.Duration(r.Int63n(int64(ttl)-1)))
		}
	}
	return out
}

// c30Kind drives one storage through a uniform interface.
type c30Kind struct {
	name string
	ttl  time.Duration
	reg  func(content string) (uint64, error)
	read []func() (string, error)
	del  func() error
	once bool // registering a live entry is refused
}

func c30Storages(r *rand.Rand, s kit.Stores, iss string) []*c30Kind {
	ctx := context.Background()
	key, key2 := kit.RandString(r, 16, kit.Alnum), kit.RandString(r, 16, kit.Alnum)
	gone := fmt.Errorf("gone")
	return []*c30Kind{
		{name: "code", ttl: time.Minute,
			reg: func(v string) (uint64, error) {
				return s.Codes.Register(ctx, iss, key, &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: v, Request: &flowv1.AuthorizationRequest{Nonce: v}})
			},
			read: []func() (string, error){func() (string, error) { x, err := s.Codes.Get(ctx, iss, key); return x.GetSubject(), err }},
			del:  func() error { return s.Codes.Delete(ctx, iss, key) }},
		{name: "request", ttl: time.Minute,
			reg: func(v string) (uint64, error) {
				return s.AuthReqs.Register(ctx, iss, key, &flowv1.AuthorizationRequest{State: v})
			},
			read: []func() (string, error){func() (string, error) { x, err := s.AuthReqs.Get(ctx, iss, key); return x.GetState(), err }},
			del:  func() error { return s.AuthReqs.Delete(ctx, iss, key) }},
		{name: "device", ttl: 2 * time.Minute,
			reg: func(v string) (uint64, error) {
				return s.Devices.Register(ctx, iss, key, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: key2, Scope: kit.Str(v), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING})
			},
			read: []func() (string, error){
				func() (string, error) { x, err := s.Devices.GetByUserCode(ctx, iss, key); return x.GetScope(), err },
				func() (string, error) {
					x, err := s.Devices.GetByDeviceCode(ctx, iss, key2)
					return x.GetScope(), err
				}}},
		{name: "proof", ttl: time.Minute, once: true,
			reg: func(v string) (uint64, error) { return 60, s.DPoP.Register(ctx, iss+key) },
			read: []func() (string, error){func() (string, error) {
				ok, err := s.DPoP.Exists(ctx, iss+key)
				if err == nil && !ok {
					err = gone
				}
				return "", err
			}},
			del: func() error { return s.DPoP.Delete(ctx, iss+key) }},
	}
}

func c30Store(c *kit.Ctx) {
	c.Require("alive_seen", 5000)
	c.Require("gone_seen", 3000)
	c.Require("near_end", 1500)
	var s kit.Stores
	for i := 0; i < c.N(2000, 60000); i++ {
		if i%10 == 0 {
			s = kit.NewStores("")
		}
		c.Case(fmt.Sprintf("store/%d", i), func(k *kit.Case) {
			r := k.R
			t := &timeline{}
			start := time.Now()
			for n := 0; n < 3; n++ {
				for _, kd := range c30Storages(r, s, kit.Issuer(r)) {
					kd := kd
					type st struct {
						end time.Time
						val string
					}
					var cur st // zero: absent
					first := start.Add(time.Duration(r.Intn(60000)) * time.Millisecond)
					register := func(content string) {
						ttl, err := kd.reg(content)
						live := time.Now().Before(cur.end)
						if kd.once && live {
							k.Check(err != nil, "registered-twice", "%s registered again %s before its end", kd.name, time.Until(cur.end))
							return
						}
						if err != nil {
							k.Fatal("not-registered", "%s not registered: %v (previous entry ended %s ago)", kd.name, err, time.Since(cur.end))
						}
						k.Check(ttl == uint64(kd.ttl/time.Second), "announced", "%s announces a lifetime of %d s", kd.name, ttl)
						cur = st{time.Now().Add(kd.ttl), content}
					}
					look := func() {
						if time.Now().Equal(cur.end) {
							return
						}
						left := time.Until(cur.end)
						for ri, f := range kd.read {
							got, err := f()
							k.Eval(1)
							if left > 0 {
								want := cur.val
								if kd.once {
									want = ""
								}
								k.Check(err == nil && got == want, "lost", "%s (view %d): %q %v, %s before the end of its lifetime", kd.name, ri, got, err, left)
								k.Event("alive_seen")
							} else {
								k.Check(err != nil, "outlives", "%s (view %d) still there %s after its end", kd.name, ri, -left)
								k.Event("gone_seen")
							}
							if left < 2*time.Second && left > -2*time.Second {
								k.Event("near_end")
							}
						}
					}
					t.at(first, func() { register("first") })
					for _, d := range moments(r, kd.ttl, 8) {
						t.at(first.Add(d), look)
					}
					k.Sig("%s@%d", kd.name, first.Sub(start)/time.Millisecond)
					switch r.Intn(4) {
					case 0: // registered again
						again := first.Add(moments(r, kd.ttl, 1)[0])
						t.at(again, func() { register("again") })
						for _, d := range moments(r, kd.ttl, 5) {
							t.at(again.Add(d), look)
						}
						k.Sig("again@%d", again.Sub(first)/time.Millisecond)
					case 1: // consumed
						if kd.del != nil {
							when := first.Add(moments(r, kd.ttl, 1)[0])
							t.at(when, func() {
								live := time.Now().Before(cur.end)
								err := kd.del()
								if live {
									k.Check(err == nil, "not-deleted", "%s cannot be deleted during its life: %v", kd.name, err)
								}
								cur = st{}
							})
							k.Sig("del@%d", when.Sub(first)/time.Millisecond)
						}
					}
				}
			}
			t.run()
		})
	}
}

// c30Service: the lifetimes as users of the services see them.
func c30Service(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("used_alive", 400)
	c.Require("used_late", 300)
	var w *kit.World
	for i := 0; i < c.N(2000, 60000); i++ {
		if i%10 == 0 {
			w = kit.NewWorld(kit.NewStores("verifiable"), nil)
		}
		c.Case(fmt.Sprintf("service/%d", i), func(k *kit.Case) {
			r := k.R
			t := &timeline{}
			start := time.Now()
			iss := kit.Issuer(r)
			cl := w.Client(nil)
			verdict := func(kind string, ok bool, left time.Duration, err error) {
				k.Eval(1)
				if left > 0 {
					k.Event("used_alive")
					k.Check(ok, "lost-"+kind, "%s refused %s before its end: %v", kind, left, err)
				} else {
					k.Event("used_late")
					k.Check(!ok, "outlives-"+kind, "%s honoured %s after its end", kind, -left)
				}
			}
			for n := 0; n < 6; n++ {
				first := start.Add(time.Duration(r.Intn(90000)) * time.Millisecond)
				switch r.Intn(4) {
				case 0: // authorization code
					use := first.Add(moments(r, time.Minute, 1)[0])
					ar, v := kit.AuthReq(r, cl, kit.Pick(r, "openid", "openid offline_access", "read"))
					var code string
					t.at(first, func() {
						res, err := w.Code(ctx, iss, "user", cl, ar)
						if err != nil {
							k.Fatal("legit-refused", "authorization refused: %v", err)
						}
						code = res.Code
					})
					t.at(use, func() {
						res, err := w.Token.Token(ctx, kit.CodeReq(iss, cl, code, ar.RedirectUri, v))
						verdict("code", kit.Granted(res, err), time.Until(first.Add(time.Minute)), err)
					})
					k.Sig("code@%d", use.Sub(first)/time.Millisecond)
				case 1: // pushed request
					use := first.Add(moments(r, time.Minute, 1)[0])
					ar, _ := kit.AuthReq(r, cl, "openid")
					var uri string
					t.at(first, func() {
						res, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar)})
						if err != nil {
							k.Fatal("legit-refused", "push refused: %v", err)
						}
						k.Check(res.ExpiresIn == 60, "announced", "pushed request announced for %d s", res.ExpiresIn)
						uri = res.RequestUri
					})
					t.at(use, func() {
						res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "user", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(uri)}})
						verdict("pushed-request", err == nil && res.GetCode() != "", time.Until(first.Add(time.Minute)), err)
					})
					k.Sig("par@%d", use.Sub(first)/time.Millisecond)
				case 2: // device
					end := first.Add(2 * time.Minute)
					var res *flowv1.DeviceAuthorizationResponse
					t.at(first, func() {
						var err error
						res, err = w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid")})
						if err != nil {
							k.Fatal("legit-refused", "device authorization refused: %v", err)
						}
						k.Check(res.ExpiresIn == 120, "announced", "device session announced for %d s", res.ExpiresIn)
					})
					approved := false
					poll := func() {
						left := time.Until(end)
						if left <= 0 && left > -time.Second {
							return // the device session counts in whole seconds
						}
						tr, err := w.Token.Token(ctx, kit.DeviceReq(iss, cl, res.DeviceCode))
						code := kit.ErrOf(tr)
						switch {
						case left > 0 && !approved:
							k.Event("used_alive")
							k.Check(!kit.Granted(tr, err) && code == "authorization_pending", "lost-device", "pending device session answers %q %v %s before its end", code, err, left)
						default:
							verdict("device", kit.Granted(tr, err), left, err)
						}
						k.Check(left > 0 || code != "authorization_pending", "outlives-device", "device session still pending %s after its end", -left)
					}
					for _, d := range moments(r, 2*time.Minute, 3) {
						t.at(first.Add(d), poll)
					}
					app := first.Add(moments(r, 2*time.Minute, 1)[0])
					if r.Intn(3) > 0 {
						t.at(app, func() {
							left := time.Until(end)
							if left <= 0 && left > -time.Second {
								return
							}
							vr, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "user", UserCode: res.UserCode})
							ok := err == nil && vr.GetError() == nil
							verdict("user-code", ok, left, err)
							approved = approved || ok
						})
						// an approval does not extend the announced lifetime
						for _, d := range moments(r, 2*time.Minute, 2) {
							t.at(first.Add(d), poll)
						}
						t.at(end.Add(time.Duration(1001+r.Intn(119000))*time.Millisecond), poll)
						k.Sig("app@%d", app.Sub(first)/time.Millisecond)
					}
					k.Sig("dev@%d", first.Sub(start)/time.Millisecond)
				default: // a recorded proof blocks its replay while the proof could be accepted
					use := first.Add(moments(r, time.Minute, 1)[0])
					v := c19Verifiers(w.S.DPoP, 1)[0]
					var p *c19Proof
					t.at(first, func() {
						p = c19New(k, time.Now().Unix())
						k.Check(p.verify(ctx, k, v), "legit-refused", "fresh proof refused")
					})
					t.at(use, func() {
						k.Check(!p.verify(ctx, k, v), "proof-replayed", "proof accepted again %s later", time.Since(first))
					})
					k.Sig("proof@%d", use.Sub(first)/time.Millisecond)
				}
			}
			t.run()
		})
	}
}

// c30Forever: clients and tokens stay.
func c30Forever(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("kept", 300)
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("forever/%d", i), func(k *kit.Case) {
			r := k.R
			s := kit.NewStores("")
			w := kit.NewWorld(s, nil)
			var cls []*clientv1.Client
			var toks []*tokenv1.Token
			iss := kit.Issuer(r)
			for n := 0; n < 4; n++ {
				cls = append(cls, w.Client(nil))
				now := uint64(time.Now().Unix())
				t := &tokenv1.Token{Issuer: iss, TokenId: kit.RandString(r, 20, kit.Alnum), Value: kit.RandString(r, 40, kit.Alnum),
					Status: kit.Pick(r, tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, tokenv1.TokenStatus_TOKEN_STATUS_REVOKED), TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN,
					Metadata: &tokenv1.TokenMeta{Subject: "u", ExpiresAt: now + uint64(r.Intn(7200)), IssuedAt: now, ClientId: cls[n].ClientId}}
				if err := s.Tokens.Create(ctx, iss, t); err != nil {
					k.Fatal("not-stored", "%v", err)
				}
				toks = append(toks, t)
			}
			for step := 0; step < 12; step++ {
				time.Sleep(kit.Pick(r, time.Second, time.Minute, 2*time.Minute+time.Second, 11*time.Minute, time.Hour, 7*time.Hour))
				// other artifacts come and go
				_, _ = s.Codes.Register(ctx, iss, "x", &sessionv1.AuthorizationCodeSession{})
				for n := range cls {
					c1, err := s.Clients.Get(ctx, cls[n].ClientId)
					k.Check(err == nil && proto.Equal(c1, cls[n]), "client-vanished", "client gone or altered after a while: %v", err)
					c2, err := s.Clients.GetByName(ctx, cls[n].ClientName)
					k.Check(err == nil && proto.Equal(c2, cls[n]), "client-vanished", "client gone or altered after a while: %v", err)
					for _, f := range []func() (*tokenv1.Token, error){
						func() (*tokenv1.Token, error) { return s.Tokens.Get(ctx, iss, toks[n].TokenId) },
						func() (*tokenv1.Token, error) { return s.Tokens.GetByValue(ctx, iss, toks[n].Value) },
					} {
						t, err := f()
						if !k.Check(err == nil && t != nil, "token-vanished", "token gone after a while: %v", err) {
							continue
						}
						k.Check(t.Status == toks[n].Status && proto.Equal(t.Metadata, toks[n].Metadata) && t.TokenId == toks[n].TokenId, "token-altered", "token altered after a while: %s", kit.Brief(t))
						k.Event("kept")
					}
				}
				k.Sig("%d", time.Now().Unix())
			}
		})
	}
}

// c30Crowd: lifetimes do not depend on how much else is stored.
func c30Crowd(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("crowd_alive", 20000)
	c.Require("crowd_gone", 4000)
	sizes := []int{300, 700, 1500, 3000, 6000, 12000, 70000}
	if c.N(0, 1) == 1 {
		sizes = append(sizes, 150000, 300000)
	}
	for _, size := range sizes {
		c.Case(fmt.Sprintf("crowd/%d", size), func(k *kit.Case) {
			r := k.R
			s := kit.NewStores("")
			iss := kit.Issuer(r)
			tag := kit.RandString(r, 12, kit.Alnum)
			id := func(n int) string { return fmt.Sprintf("%s-%d", tag, n) }
			var clients []string
			for n := 0; n < size; n++ {
				if n%16 == 0 {
					cid, err := s.Clients.Register(ctx, &clientv1.Client{ClientName: id(n)})
					k.Check(err == nil, "not-registered", "client %d: %v", n, err)
					clients = append(clients, cid)
				}
				v := id(n)
				_, e1 := s.Codes.Register(ctx, iss, v, &sessionv1.AuthorizationCodeSession{Subject: v})
				_, e2 := s.AuthReqs.Register(ctx, iss, v, &flowv1.AuthorizationRequest{State: v})
				_, e3 := s.Devices.Register(ctx, iss, v, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "d" + v, Scope: kit.Str(v), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING})
				e4 := s.DPoP.Register(ctx, v)
				e5 := s.Tokens.Create(ctx, iss, &tokenv1.Token{TokenId: v, Value: "v" + v, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: v, IssuedAt: uint64(time.Now().Unix()), ExpiresAt: uint64(time.Now().Unix()) + uint64(1+r.Intn(3600))}})
				if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil {
					k.Fatal("not-registered", "artifact %d of %d: %v %v %v %v %v", n, size, e1, e2, e3, e4, e5)
				}
			}
			look := func(age time.Duration) {
				for j := 0; j < 1500; j++ {
					n := r.Intn(size)
					if j < 100 {
						n = j
					}
					v := id(n)
					code, e1 := s.Codes.Get(ctx, iss, v)
					ar, e2 := s.AuthReqs.Get(ctx, iss, v)
					d1, e3 := s.Devices.GetByUserCode(ctx, iss, v)
					d2, e4 := s.Devices.GetByDeviceCode(ctx, iss, "d"+v)
					seen, e5 := s.DPoP.Exists(ctx, v)
					t1, e6 := s.Tokens.Get(ctx, iss, v)
					t2, e7 := s.Tokens.GetByValue(ctx, iss, "v"+v)
					cl, e8 := s.Clients.Get(ctx, clients[n/16])
					k.Check(e6 == nil && t1.GetMetadata().GetSubject() == v, "token-vanished", "token %d of %d by id after %s: %v", n, size, age, e6)
					k.Check(e7 == nil && t2.GetMetadata().GetSubject() == v, "token-vanished", "token %d of %d by value after %s: %v", n, size, age, e7)
					k.Check(e8 == nil && cl.GetClientName() == id(n/16*16), "client-vanished", "client %d after %s: %v", n/16, age, e8)
					for _, x := range []struct {
						name  string
						there bool
						ttl   time.Duration
					}{
						{"code", e1 == nil && code.GetSubject() == v, time.Minute},
						{"request", e2 == nil && ar.GetState() == v, time.Minute},
						{"device (user code)", e3 == nil && d1.GetScope() == v, 2 * time.Minute},
						{"device (device code)", e4 == nil && d2.GetScope() == v, 2 * time.Minute},
						{"proof", e5 == nil && seen, time.Minute},
					} {
						k.Eval(1)
						if age < x.ttl {
							k.Check(x.there, "lost", "%s %d of %d lost %s after its registration", x.name, n, size, age)
							k.Event("crowd_alive")
						} else {
							k.Check(!x.there, "outlives", "%s %d of %d still there after %s", x.name, n, size, age)
							k.Event("crowd_gone")
						}
					}
				}
			}
			for _, age := range []time.Duration{0, time.Minute - time.Millisecond, time.Minute + time.Second, 2*time.Minute + time.Second, 15 * time.Minute} {
				look(age)
				k.Sig("%s", age)
				switch age {
				case 0:
					time.Sleep(time.Minute - time.Millisecond)
				case time.Minute - time.Millisecond:
					time.Sleep(time.Second + time.Millisecond)
				case time.Minute + time.Second:
					time.Sleep(time.Minute)
				default:
					time.Sleep(13 * time.Minute)
				}
			}
		})
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C30", Level: "exploration",
		Rule:        "histories of registrations, repeated registrations, deletions and observations of artifacts of every kind on shared storages in virtual time, observation instants drawn around the ends of the lifetimes (down to 1 ms); distinct by the drawn instants; crowds of up to 70000 (thorough 300000) artifacts of every kind alive at once",
		Assumptions: []string{"the exact instant of the end, and for the device flow the second after it, is not judged", "what the device storage keeps of an approved session after its announced end is not judged, the services refusing it is"},
		Modes: []kit.Mode{
			{Name: "store", Bubble: true, Run: c30Store},
			{Name: "service", Bubble: true, Run: c30Service},
			{Name: "forever", Bubble: true, Run: c30Forever},
			{Name: "crowd", Bubble: true, Run: c30Crowd},
		},
	})
}
