package checks

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
)

// Every index of a storage is judged as a map of its own: an operation which maintains two indexes takes effect
// in each of them at some moment of its interval.
type c29In struct {
	index string // map
	key   string
	op    string // put get del validate revoke add exists
	val   string
}

type c29Out struct {
	ok  bool
	val string
}

// c29State: "" is absent; otherwise content, with a mark for validated/revoked.
func c29Step(state, input, output any) (bool, any) {
	s, in, out := state.(string), input.(c29In), output.(c29Out)
	switch in.op {
	case "put":
		return out.ok, in.val
	case "add": // registers once
		if s != "" {
			return !out.ok, s
		}
		return out.ok, in.val
	case "get":
		if s == "" {
			return !out.ok, s
		}
		return out.ok && out.val == s, s
	case "exists":
		return out.ok == (s != ""), s
	case "del":
		if s == "" {
			return !out.ok, s
		}
		return out.ok, ""
	case "drop": // delete which does not tell whether something was there
		return out.ok, ""
	case "validate": // succeeds once on a pending entry
		if s == "" || strings.HasSuffix(s, "!") {
			return !out.ok, s
		}
		return out.ok, in.val + "!"
	case "revoke":
		if s == "" {
			return !out.ok, s
		}
		return out.ok, strings.TrimSuffix(s, "!") + "!"
	// secondary index: the outcome was decided on the primary one
	case "del2":
		if out.ok {
			return true, ""
		}
		return true, s
	case "validate2":
		if out.ok {
			return true, in.val + "!"
		}
		return true, s
	case "revoke2":
		if out.ok && s != "" {
			return true, strings.TrimSuffix(s, "!") + "!"
		}
		return true, s
	}
	panic("op " + in.op)
}

var c29Model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[string][]porcupine.Operation{}
		var order []string
		for _, o := range h {
			in := o.Input.(c29In)
			key := in.index + "\x00" + in.key
			if _, ok := m[key]; !ok {
				order = append(order, key)
			}
			m[key] = append(m[key], o)
		}
		var out [][]porcupine.Operation
		for _, k := range order {
			out = append(out, m[k])
		}
		return out
	},
	Init:  func() any { return "" },
	Step:  c29Step,
	Equal: func(a, b any) bool { return a == b },
}

type c29Rec struct {
	clock atomic.Int64
	mu    sync.Mutex
	ops   []porcupine.Operation
}

func (h *c29Rec) do(client int, f func() (out c29Out), ins ...c29In) c29Out {
	call := h.clock.Add(1)
	out := f()
	ret := h.clock.Add(1)
	h.mu.Lock()
	for _, in := range ins {
		h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	}
	h.mu.Unlock()
	return out
}

func c29Show(ops []porcupine.Operation) string {
	var b strings.Builder
	for _, o := range ops {
		in := o.Input.(c29In)
		out := o.Output.(c29Out)
		fmt.Fprintf(&b, "[%d..%d] #%d %s %s(%.20s %s) = %v %s\n", o.Call, o.Return, o.ClientId, in.index, in.op, in.key, in.val, out.ok, out.val)
	}
	return b.String()
}

// c29Run gives the per-goroutine behaviour of one storage: keys are (issuer,key) pairs.
type c29Run struct {
	k    *kit.Case
	h    *c29Rec
	keys [][3]string // issuer, key, second key
	bad  atomic.Value
	held struct {
		sync.Mutex
		live, snap []proto.Message
	}
}

func (x *c29Run) unexpected(what string, err error) {
	x.bad.Store(fmt.Sprintf("%s: %v", what, err))
}

func (x *c29Run) notFound(what string, err error) {
	if !errors.Is(err, storage.ErrNotFound) {
		x.unexpected(what+" fails with an unexpected error", err)
	}
}

// keep records what a reader obtained.
func (x *c29Run) keep(m proto.Message) {
	s := proto.Clone(m)
	x.held.Lock()
	x.held.live, x.held.snap = append(x.held.live, m), append(x.held.snap, s)
	x.held.Unlock()
}

type c29Op func(me int, r *rand.Rand, n int)

func c29Codes(x *c29Run) c29Op {
	st := kit.NewStores("").Codes
	ctx := context.Background()
	return func(me int, r *rand.Rand, n int) {
		kk := x.keys[r.Intn(len(x.keys))]
		in := c29In{index: "codes", key: kk[0] + "|" + kk[1]}
		switch r.Intn(6) {
		case 0, 1:
			in.op, in.val = "put", fmt.Sprintf("v%d.%d", me, n)
			x.h.do(me, func() c29Out {
				ttl, err := st.Register(ctx, kk[0], kk[1], &sessionv1.AuthorizationCodeSession{Subject: in.val})
				if err != nil || ttl == 0 {
					x.unexpected("code registration", err)
				}
				return c29Out{ok: err == nil}
			}, in)
		case 2, 3:
			in.op = "get"
			x.h.do(me, func() c29Out {
				s, err := st.Get(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("code Get", err)
					return c29Out{}
				}
				return c29Out{true, s.Subject}
			}, in)
		default:
			in.op = "del"
			x.h.do(me, func() c29Out {
				err := st.Delete(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("code Delete", err)
				}
				return c29Out{ok: err == nil}
			}, in)
		}
	}
}

func c29Requests(x *c29Run) c29Op {
	st := kit.NewStores("").AuthReqs
	ctx := context.Background()
	return func(me int, r *rand.Rand, n int) {
		kk := x.keys[r.Intn(len(x.keys))]
		in := c29In{index: "requests", key: kk[0] + "|" + kk[1]}
		switch r.Intn(6) {
		case 0, 1:
			in.op, in.val = "put", fmt.Sprintf("v%d.%d", me, n)
			x.h.do(me, func() c29Out {
				ttl, err := st.Register(ctx, kk[0], kk[1], &flowv1.AuthorizationRequest{State: in.val})
				if err != nil || ttl == 0 {
					x.unexpected("request registration", err)
				}
				return c29Out{ok: err == nil}
			}, in)
		case 2, 3:
			in.op = "get"
			x.h.do(me, func() c29Out {
				s, err := st.Get(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("request Get", err)
					return c29Out{}
				}
				return c29Out{true, s.State}
			}, in)
		default:
			in.op = "del"
			x.h.do(me, func() c29Out {
				err := st.Delete(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("request Delete", err)
				}
				return c29Out{ok: err == nil}
			}, in)
		}
	}
}

func c29Device(x *c29Run) c29Op {
	st := kit.NewStores("").Devices
	ctx := context.Background()
	show := func(s *sessionv1.DeviceCodeSession) string {
		v := s.GetScope()
		if s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {
			v += "!"
		}
		return v
	}
	return func(me int, r *rand.Rand, n int) {
		kk := x.keys[r.Intn(len(x.keys))]
		user := c29In{index: "user codes", key: kk[0] + "|" + kk[1]}
		dev := c29In{index: "device codes", key: kk[0] + "|" + kk[2]}
		val := fmt.Sprintf("v%d.%d", me, n)
		sess := &sessionv1.DeviceCodeSession{Issuer: kk[0], DeviceCode: kk[2], Scope: kit.Str(val),
			Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
		switch r.Intn(8) {
		case 0, 1:
			user.op, user.val, dev.op, dev.val = "put", val, "put", val
			x.h.do(me, func() c29Out {
				ttl, err := st.Register(ctx, kk[0], kk[1], sess)
				if err != nil || ttl == 0 {
					x.unexpected("device registration", err)
				}
				return c29Out{ok: err == nil}
			}, user, dev)
		case 2:
			user.op = "get"
			x.h.do(me, func() c29Out {
				s, err := st.GetByUserCode(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("GetByUserCode", err)
					return c29Out{}
				}
				return c29Out{true, show(s)}
			}, user)
		case 3, 4:
			dev.op = "get"
			x.h.do(me, func() c29Out {
				s, err := st.GetByDeviceCode(ctx, kk[0], kk[2])
				if err != nil {
					x.notFound("GetByDeviceCode", err)
					return c29Out{}
				}
				return c29Out{true, show(s)}
			}, dev)
		case 5:
			user.op = "drop"
			x.h.do(me, func() c29Out {
				err := st.Delete(ctx, kk[0], kk[1])
				if err != nil && !errors.Is(err, storage.ErrNotFound) {
					x.unexpected("device Delete", err)
				}
				return c29Out{ok: true}
			}, user)
		default:
			user.op, user.val, dev.op, dev.val = "validate", val, "validate2", val
			sess.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
			x.h.do(me, func() c29Out {
				err := st.Validate(ctx, kk[0], kk[1], sess)
				if err != nil {
					x.notFound("Validate", err)
				}
				return c29Out{ok: err == nil}
			}, user, dev)
		}
	}
}

func c29Proofs(x *c29Run) c29Op {
	st := kit.NewStores("").DPoP
	ctx := context.Background()
	return func(me int, r *rand.Rand, n int) {
		kk := x.keys[r.Intn(len(x.keys))]
		id := kk[0] + "|" + kk[1]
		in := c29In{index: "proofs", key: id}
		switch r.Intn(6) {
		case 0, 1, 2:
			in.op, in.val = "add", "x"
			x.h.do(me, func() c29Out { return c29Out{ok: st.Register(ctx, id) == nil} }, in)
		case 3:
			in.op = "drop"
			x.h.do(me, func() c29Out {
				if err := st.Delete(ctx, id); err != nil && !errors.Is(err, storage.ErrNotFound) {
					x.unexpected("proof Delete", err)
				}
				return c29Out{ok: true}
			}, in)
		default:
			in.op = "exists"
			x.h.do(me, func() c29Out {
				ok, err := st.Exists(ctx, id)
				if err != nil {
					x.unexpected("proof Exists", err)
				}
				return c29Out{ok: ok}
			}, in)
		}
	}
}

func c29Tokens(x *c29Run) c29Op {
	st := kit.NewStores("").Tokens
	ctx := context.Background()
	show := func(t *tokenv1.Token) string {
		v := t.GetMetadata().GetSubject()
		if t.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
			v += "!"
		}
		return v
	}
	return func(me int, r *rand.Rand, n int) {
		kk := x.keys[r.Intn(len(x.keys))]
		ids := c29In{index: "token ids", key: kk[0] + "|" + kk[1]}
		vals := c29In{index: "token values", key: kk[0] + "|" + kk[2]}
		val := fmt.Sprintf("v%d.%d", me, n)
		switch r.Intn(9) {
		case 0, 1:
			ids.op, ids.val, vals.op, vals.val = "put", val, "put", val
			t := &tokenv1.Token{Issuer: kk[0], TokenId: kk[1], Value: kk[2], Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
				TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Metadata: &tokenv1.TokenMeta{Subject: val, Scope: "a b"},
				Confirmation: &tokenv1.TokenConfirmation{Jkt: "thumb"}}
			x.h.do(me, func() c29Out {
				err := st.Create(ctx, kk[0], t)
				if err != nil {
					x.unexpected("token Create", err)
				}
				return c29Out{ok: err == nil}
			}, ids, vals)
			// the caller still owns its object
			t.Status, t.Value, t.TokenId = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "changed", "changed"
			t.Metadata.Subject, t.Metadata.Scope, t.Confirmation.Jkt = "changed", "changed", "changed"
		case 2, 3:
			ids.op = "get"
			x.h.do(me, func() c29Out {
				t, err := st.Get(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("token Get", err)
					return c29Out{}
				}
				x.keep(t)
				return c29Out{true, show(t)}
			}, ids)
		case 4, 5:
			vals.op = "get"
			x.h.do(me, func() c29Out {
				t, err := st.GetByValue(ctx, kk[0], kk[2])
				if err != nil {
					x.notFound("token GetByValue", err)
					return c29Out{}
				}
				x.keep(t)
				return c29Out{true, show(t)}
			}, vals)
		case 6:
			ids.op, vals.op = "del", "del2"
			x.h.do(me, func() c29Out {
				err := st.Delete(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("token Delete", err)
				}
				return c29Out{ok: err == nil}
			}, ids, vals)
		default:
			ids.op, vals.op = "revoke", "revoke2"
			x.h.do(me, func() c29Out {
				err := st.Revoke(ctx, kk[0], kk[1])
				if err != nil {
					x.notFound("token Revoke", err)
				}
				return c29Out{ok: err == nil}
			}, ids, vals)
		}
	}
}

var c29Storages = []struct {
	name string
	mk   func(x *c29Run) c29Op
}{{"codes", c29Codes}, {"requests", c29Requests}, {"devices", c29Device}, {"proofs", c29Proofs}, {"tokens", c29Tokens}}

// c29History runs one concurrent history and judges it.
func c29History(k *kit.Case, name string, mk func(x *c29Run) c29Op) {
	r := k.R
	x := &c29Run{k: k, h: &c29Rec{}}
	nk := 1 + r.Intn(3)
	long := 0 // long keys widen the windows between the steps of an operation
	switch r.Intn(3) {
	case 1:
		long = 2000
	case 2:
		long = 30000
	}
	pad := strings.Repeat("p", long)
	iss := kit.Issuers(r)
	for i := 0; i < nk; i++ {
		x.keys = append(x.keys, [3]string{iss[r.Intn(2)], kit.RandString(r, 8, kit.Alnum) + pad, kit.RandString(r, 8, kit.Alnum) + pad})
	}
	op := mk(x)
	tasks := 2 + r.Intn(5)
	per := 30 / tasks
	var wg sync.WaitGroup
	var ready, gate atomic.Int32
	for me := 0; me < tasks; me++ {
		me := me
		rr := k.Rng(fmt.Sprintf("%s/%d", k.Label, me))
		k.Go(&wg, func() {
			ready.Add(1)
			for gate.Load() == 0 {
				runtime.Gosched()
			}
			for n := 0; n < per; n++ {
				op(me, rr, n)
				if rr.Intn(4) == 0 {
					runtime.Gosched()
				}
			}
		})
	}
	for int(ready.Load()) < tasks {
		runtime.Gosched()
	}
	gate.Store(1)
	wg.Wait()
	// a quiet final read of everything, part of the history
	fr := k.Rng(k.Label + "/final")
	for i := 0; i < 12; i++ {
		op(100, fr, 1000+i)
	}
	if b := x.bad.Load(); b != nil {
		k.Fail("error", "%s: %v\n%s", name, b, c29Show(x.h.ops))
		return
	}
	overlaps := 0
	for i, a := range x.h.ops {
		for _, b := range x.h.ops[i+1:] {
			if a.Call < b.Return && b.Call < a.Return && a.Input.(c29In).key == b.Input.(c29In).key && a.ClientId != b.ClientId {
				overlaps++
			}
		}
	}
	k.Events("operations", len(x.h.ops))
	k.Events("overlapping_pairs", overlaps)
	res, info := porcupine.CheckOperationsVerbose(c29Model, x.h.ops, 20*time.Second)
	_ = info
	switch res {
	case porcupine.Ok:
		k.Event("linearizable")
	case porcupine.Illegal:
		for _, part := range c29Model.Partition(x.h.ops) {
			if !porcupine.CheckOperations(c29Model, part) {
				k.Fail("not-linearizable:"+part[0].Input.(c29In).index, "history of the %s index has no order:\n%s", part[0].Input.(c29In).index, c29Show(part))
				return
			}
		}
		k.Fail("not-linearizable", "%s: history has no order:\n%s", name, c29Show(x.h.ops))
	default:
		k.Event("undecided")
	}
	for i, m := range x.held.live {
		k.Event("tokens_held")
		if !proto.Equal(m, x.held.snap[i]) {
			k.Fail("changed-under-reader", "a token obtained by a reader changed from %s to %s", kit.Brief(x.held.snap[i]), kit.Brief(m))
			return
		}
	}
	// distinct interleavings observed: the order of invocations and responses with their outcomes
	var b strings.Builder
	for _, o := range x.h.ops {
		fmt.Fprintf(&b, "%d%s%v;", o.ClientId, o.Input.(c29In).op, o.Output.(c29Out).ok)
	}
	k.Sig("%s %d %s", name, overlaps, b.String())
}

func c29Lin(n int) func(c *kit.Ctx) {
	return func(c *kit.Ctx) {
		c.Require("overlapping_pairs", 500)
		c.Require("linearizable", 500)
		c.Require("tokens_held", 100)
		for i := 0; i < c.N(n, n*40); i++ {
			for _, s := range c29Storages {
				s := s
				c.Case(fmt.Sprintf("%s/%d", s.name, i), func(k *kit.Case) { c29History(k, s.name, s.mk) })
			}
			if i%4 == 0 {
				c.Case(fmt.Sprintf("clients/%d", i), c29Clients)
			}
		}
	}
}

// c29Clients: clients are never removed; names are looked up without regard to case.
func c29Clients(k *kit.Case) {
	r := k.R
	ctx := context.Background()
	st := kit.NewStores("").Clients
	var clock atomic.Int64
	type reg struct {
		id, name  string
		call, ret int64
		c         *clientv1.Client
	}
	type look struct {
		arg, gotID, gotName string
		byName, found       bool
		call, ret           int64
	}
	var mu sync.Mutex
	var regs []reg
	var looks []look
	names := []string{"Alpha " + kit.RandString(r, 5, kit.Alnum), "Beta " + kit.RandString(r, 5, kit.Alnum), "Gamma"}
	var wg sync.WaitGroup
	for me := 0; me < 5; me++ {
		rr := k.Rng(fmt.Sprintf("%s/%d", k.Label, me))
		k.Go(&wg, func() {
			var mine []string
			for n := 0; n < 12; n++ {
				switch rr.Intn(3) {
				case 0:
					name := names[rr.Intn(3)]
					c := &clientv1.Client{ClientName: name, ClientType: clientv1.ClientType_CLIENT_TYPE_PUBLIC}
					if rr.Intn(3) == 0 { // the identifier is the storage's choice, whatever the object carries
						mu.Lock()
						if len(regs) > 0 {
							c.ClientId = regs[rr.Intn(len(regs))].id
						}
						mu.Unlock()
					}
					t0 := clock.Add(1)
					id, err := st.Register(ctx, c)
					t1 := clock.Add(1)
					if err != nil || id == "" {
						k.Fail("error", "client registration failed: %q %v", id, err)
						return
					}
					mine = append(mine, id)
					mu.Lock()
					regs = append(regs, reg{id, name, t0, t1, c})
					mu.Unlock()
				case 1:
					mu.Lock()
					id := "unknown"
					if len(regs) > 0 && rr.Intn(8) > 0 {
						id = regs[rr.Intn(len(regs))].id
					}
					mu.Unlock()
					if len(mine) > 0 && rr.Intn(2) == 0 {
						id = mine[len(mine)-1]
					}
					l := look{arg: id, call: clock.Add(1)}
					got, err := st.Get(ctx, id)
					l.ret = clock.Add(1)
					if l.found = err == nil; l.found {
						l.gotID, l.gotName = got.ClientId, got.ClientName
					} else if !errors.Is(err, storage.ErrNotFound) {
						k.Fail("error", "client Get: %v", err)
					}
					mu.Lock()
					looks = append(looks, l)
					mu.Unlock()
				default:
					name := names[rr.Intn(3)]
					if rr.Intn(2) == 0 {
						name = strings.ToUpper(name)
					}
					l := look{arg: name, byName: true, call: clock.Add(1)}
					got, err := st.GetByName(ctx, name)
					l.ret = clock.Add(1)
					if l.found = err == nil; l.found {
						l.gotID, l.gotName = got.ClientId, got.ClientName
					} else if !errors.Is(err, storage.ErrNotFound) {
						k.Fail("error", "client GetByName: %v", err)
					}
					mu.Lock()
					looks = append(looks, l)
					mu.Unlock()
				}
			}
		})
	}
	wg.Wait()
	seen := map[string]bool{}
	for _, g := range regs {
		k.Check(!seen[g.id], "client-id-reused", "two registrations obtained the identifier %q", g.id)
		seen[g.id] = true
		got, err := st.Get(ctx, g.id)
		k.Check(err == nil && got.GetClientId() == g.id && got.GetClientName() == g.name, "client-lost", "client %q %q is gone or altered: %v %v", g.id, g.name, kit.Brief(got), err)
	}
	for _, l := range looks {
		must, may := false, false
		for _, g := range regs {
			match := g.id == l.arg
			if l.byName {
				match = strings.EqualFold(g.name, l.arg)
			}
			if !match {
				continue
			}
			must = must || g.ret < l.call
			if l.found && g.id == l.gotID && g.name == l.gotName && g.call < l.ret {
				may = true
			}
		}
		k.Check(l.found || !must, "client-lost", "look-up of %q (by name: %v) found nothing although it was registered before", l.arg, l.byName)
		k.Check(!l.found || may, "client-wrong", "look-up of %q (by name: %v) found %q %q", l.arg, l.byName, l.gotID, l.gotName)
		k.Event("client_lookups")
	}
	k.Sig("clients %d %d", len(regs), len(looks))
}

// c29Stress runs longer unrecorded mixes whose only oracle is conservation and the race detector.
func c29Stress(c *kit.Ctx) {
	ctx := context.Background()
	for i := 0; i < c.N(12, 150); i++ {
		c.Case(fmt.Sprintf("stress/%d", i), func(k *kit.Case) {
			s := kit.NewStores("")
			var wg sync.WaitGroup
			const workers, rounds = 8, 60
			wins := make([]atomic.Int32, rounds*4)
			var regd [rounds]sync.WaitGroup
			for n := range regd {
				regd[n].Add(1)
			}
			iss := kit.Issuer(k.R)
			for n := 0; n < rounds; n++ { // one artifact of each kind per round, all workers consume it
				key := fmt.Sprintf("key-%d", n)
				_, _ = s.Codes.Register(ctx, iss, key, &sessionv1.AuthorizationCodeSession{Subject: key})
				_, _ = s.AuthReqs.Register(ctx, iss, key, &flowv1.AuthorizationRequest{State: key})
				_, _ = s.Devices.Register(ctx, iss, key, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "d" + key, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING})
				_ = s.Tokens.Create(ctx, iss, &tokenv1.Token{Issuer: iss, TokenId: key, Value: "t" + key, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: key}})
			}
			var arrived [rounds]atomic.Int32
			for w := 0; w < workers; w++ {
				w := w
				k.Go(&wg, func() {
					for n := 0; n < rounds; n++ {
						arrived[n].Add(1)
						for arrived[n].Load() < workers {
							runtime.Gosched()
						}
						key := fmt.Sprintf("key-%d", n)
						if s.Codes.Delete(ctx, iss, key) == nil {
							wins[n*4].Add(1)
						}
						if s.AuthReqs.Delete(ctx, iss, key) == nil {
							wins[n*4+1].Add(1)
						}
						if s.Devices.Validate(ctx, iss, key, &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "d" + key, Subject: kit.Str(fmt.Sprint(w)), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED}) == nil {
							wins[n*4+2].Add(1)
						}
						if s.DPoP.Register(ctx, iss+key) == nil {
							wins[n*4+3].Add(1)
						}
						if t, err := s.Tokens.GetByValue(ctx, iss, "t"+key); err != nil || t.GetMetadata().GetSubject() != key {
							k.Fail("token-lost", "token %s not found under load: %v", key, err)
						} else {
							_ = proto.Clone(t)
						}
						if w%2 == 0 {
							if err := s.Tokens.Revoke(ctx, iss, key); err != nil {
								k.Fail("token-lost", "token %s cannot be revoked under load: %v", key, err)
							}
							if t, err := s.Tokens.Get(ctx, iss, key); err != nil || t.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
								k.Fail("revocation-lost", "revoked token %s is read as %v %v", key, t.GetStatus(), err)
							}
							if t, err := s.Tokens.GetByValue(ctx, iss, "t"+key); err != nil || t.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
								k.Fail("revocation-lost", "revoked token %s is read by value as %v %v", key, t.GetStatus(), err)
							}
						}
					}
				})
			}
			wg.Wait()
			names := []string{"code Delete", "request Delete", "device Validate", "proof Register"}
			for i := range wins {
				k.Event("contended_rounds")
				k.Check(wins[i].Load() == 1, "not-once", "%s succeeded %d times for one artifact contended by %d callers", names[i%4], wins[i].Load(), workers)
			}
			k.Sig("stress %d", i)
		})
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C29", Level: "exploration",
		Rule: "distinct recorded histories (storage, order and outcome of every operation, number of overlapping pairs); each is decided by porcupine per index",
		Modes: []kit.Mode{
			{Name: "lin", Run: c29Lin(900)},
			{Name: "linrace", Race: true, Run: c29Lin(120)},
			{Name: "stress", Run: c29Stress},
			{Name: "stressrace", Race: true, Run: c29Stress},
		},
		Assumptions: []string{
			"each index of a storage (device code / user code, token id / token value) is judged as a map of its own",
			"token identifiers and values are in one-to-one correspondence, as the services produce them",
			"expiry is judged by C30",
		},
	})
}
