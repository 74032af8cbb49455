package checks

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
)

// c36Ev is one operation as its caller saw it.
type c36Ev struct {
	worker     int
	kind       string
	on         string // artifact
	start, end int64
	ok         bool
	err        string
	out        []*tokenv1.Token
	code       string
	sub        string
}

// c36Item is an artifact made before the workers start.
type c36Item struct {
	cl                    *clientv1.Client
	iss, value, verifier  string
	redirect, sub, second string
	tok                   *tokenv1.Token
	jkt                   string
}

type c36Load struct {
	k       *kit.Case
	worlds  []*kit.World // service instances over the same storages
	issuers []string
	clients []*authClient
	rsrc    map[string][]*c36Item
	auth    clientauthentication.AuthenticationProcessor
	proofs  []dpop.Verifier
	logs    [][]*c36Ev
	tick    func() int64
	cnf     *tokenv1.TokenConfirmation
}

const c36Scope = "openid offline_access read"

func c36Setup(k *kit.Case, worlds []*kit.World, tick func() int64, workers, per int) *c36Load {
	ctx := context.Background()
	x := &c36Load{k: k, worlds: worlds, rsrc: map[string][]*c36Item{}, tick: tick, logs: make([][]*c36Ev, workers)}
	w := worlds[0]
	x.issuers = kit.Issuers(k.R)
	x.clients = authWorld(k, w, "c36", 3)
	x.auth = clientauthentication.PrivateKeyJWT(w.S.Clients, allAlgs())
	ver := jwt.EmbeddedKeyVerifier(allAlgs())
	x.proofs = []dpop.Verifier{dpop.DefaultVerifier(w.S.DPoP, ver), dpop.DefaultVerifier(w.S.DPoP, ver)}
	x.cnf = &tokenv1.TokenConfirmation{Jkt: kit.RandString(k.R, 43, kit.Alnum)}
	fail := func(what string, err error) { k.Fatal("legit-refused", "setup %s: %v", what, err) }
	for i := 0; i < per; i++ {
		iss, cl := x.issuers[k.R.Intn(2)], x.clients[k.R.Intn(len(x.clients))].c
		sub := fmt.Sprintf("user-%d", i)
		ar, v := kit.AuthReq(k.R, cl, c36Scope)
		res, err := w.Code(ctx, iss, sub, cl, ar)
		if err != nil {
			fail("authorize", err)
		}
		x.add("code", &c36Item{cl: cl, iss: iss, value: res.Code, verifier: v, redirect: ar.RedirectUri, sub: sub})
		ar, v = kit.AuthReq(k.R, cl, c36Scope)
		pr, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar})
		if err != nil {
			fail("register", err)
		}
		x.add("uri", &c36Item{cl: cl, iss: iss, value: pr.RequestUri, verifier: v, redirect: ar.RedirectUri, sub: sub})
		dr, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str(c36Scope), Audience: kit.Str("https://api.example/")})
		if err != nil {
			fail("device", err)
		}
		x.add("device", &c36Item{cl: cl, iss: iss, value: dr.DeviceCode, second: dr.UserCode})
		tr := refreshTokenOf(k, w, iss, sub, cl, c36Scope, x.cnf)
		x.add("rt", &c36Item{cl: cl, iss: iss, value: tr.RefreshToken.Value, tok: kit.Clone(tr.RefreshToken), sub: sub})
		x.add("at", &c36Item{cl: cl, iss: iss, value: tr.AccessToken.Value, tok: kit.Clone(tr.AccessToken), sub: sub})
	}
	return x
}

func (x *c36Load) add(kind string, it *c36Item) { x.rsrc[kind] = append(x.rsrc[kind], it) }

// c36Proofs are made right before the start, they live a few seconds.
func (x *c36Load) makeProofs(n int) {
	key := kit.NewKey("c36-dpop", "ES256")
	p := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, kit.KeyFunc(key.Priv, key.Kid, key.Alg)))
	for i := 0; i < n; i++ {
		t, err := p.Prove("POST", "https://as.example/token")
		if err != nil {
			x.k.Fatal("legit-refused", "prove: %v", err)
		}
		x.add("proof", &c36Item{value: t, jkt: key.Thumb()})
	}
}

// work is one caller doing a random mix of requests.
func (x *c36Load) work(ctx context.Context, k *kit.Case, id, n int) {
	r := k.R
	var own []*c36Item // tokens granted to this worker and not revoked by it
	pick := func(kind string) *c36Item { return x.rsrc[kind][r.Intn(len(x.rsrc[kind]))] }
	for i := 0; i < n; i++ {
		w := x.worlds[r.Intn(len(x.worlds))]
		e := &c36Ev{worker: id}
		var call func()
		var late *clientv1.Client // registered by this step
		tok := func(req *flowv1.TokenRequest) func() {
			return func() {
				res, err := w.Token.Token(ctx, req)
				e.ok = kit.Granted(res, err)
				if e.ok {
					e.out = append(e.out, kit.Clone(res.AccessToken))
					if res.RefreshToken != nil {
						e.out = append(e.out, kit.Clone(res.RefreshToken))
					}
				} else {
					e.err = kit.ErrOf(res)
					if kit.HasToken(res) || err == nil {
						k.Fail("refused-with-token", "%s: %v with %s", e.kind, err, kit.Brief(res))
					}
				}
			}
		}
		iss, cl := x.issuers[r.Intn(2)], x.clients[r.Intn(len(x.clients))]
		switch kind := kit.Pick(r, "redeem", "redeem", "steal", "wrong", "push", "use-uri", "use-uri", "authorize", "refresh", "refresh", "approve", "poll", "cc", "exchange", "introspect", "introspect", "introspect", "revoke-shared", "revoke-own", "proof", "auth", "client"); kind {
		case "redeem", "wrong", "steal":
			it := pick("code")
			e.kind, e.on = kind, it.value
			req := kit.CodeReq(it.iss, it.cl, it.value, it.redirect, it.verifier)
			req.TokenConfirmation = x.cnf
			if kind == "wrong" {
				if r.Intn(3) > 0 { // rare: it may spend the code
					continue
				}
				req.GetAuthorizationCode().CodeVerifier = kit.NearMiss(r, it.verifier)
			}
			if kind == "steal" { // known to nobody: must be harmless
				req.GetAuthorizationCode().Code = kit.NearMiss(r, it.value)
			}
			call = tok(req)
		case "authorize", "push":
			ar, v := kit.AuthReq(r, cl.c, c36Scope)
			sub := fmt.Sprintf("w%d-%d", id, i)
			e.kind, e.sub = kind, sub
			call = func() {
				if kind == "push" {
					pr, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl.c, Request: kit.Clone(ar)})
					if err != nil {
						k.Fail("legit-refused", "push refused under load: %v", err)
						return
					}
					ar = &flowv1.AuthorizationRequest{ClientId: cl.c.ClientId, RequestUri: kit.Str(pr.RequestUri)}
				}
				redirect := ar.RedirectUri
				res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Client: cl.c, Request: ar})
				if err != nil || res.Code == "" {
					k.Fail("legit-refused", "authorize refused under load: %v %v", err, res.GetError())
					return
				}
				if redirect == "" {
					redirect = res.RedirectUri
				}
				e.code = res.Code
				req := kit.CodeReq(iss, cl.c, res.Code, redirect, v)
				req.TokenConfirmation = x.cnf
				tok(req)()
				if !e.ok {
					k.Fail("legit-refused", "own code refused under load: %s", e.err)
				}
			}
		case "use-uri":
			it := pick("uri")
			e.kind, e.on, e.sub = kind, it.value, fmt.Sprintf("w%d", id)
			call = func() {
				res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: it.iss, Subject: e.sub, Client: it.cl, Request: &flowv1.AuthorizationRequest{ClientId: it.cl.ClientId, RequestUri: kit.Str(it.value)}})
				e.ok = err == nil && res.GetCode() != ""
				if !e.ok {
					e.err = res.GetError().GetErr()
					return
				}
				e.code = res.Code
				req := kit.CodeReq(it.iss, it.cl, res.Code, it.redirect, it.verifier)
				req.TokenConfirmation = x.cnf
				tok(req)()
				if !e.ok {
					k.Fail("legit-refused", "code of a pushed request refused under load: %s", e.err)
				}
			}
		case "refresh":
			it := pick("rt")
			e.kind, e.on = kind, it.value
			req := kit.RefreshReq(it.iss, it.cl, it.value)
			req.TokenConfirmation = x.cnf
			call = tok(req)
		case "approve":
			it := pick("device")
			e.kind, e.on, e.sub = kind, it.value, fmt.Sprintf("w%d-%d", id, i)
			call = func() {
				res, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: it.iss, Subject: e.sub, UserCode: it.second})
				e.ok, e.err = err == nil && res.GetError() == nil, res.GetError().GetErr()
			}
		case "poll":
			it := pick("device")
			e.kind, e.on = kind, it.value
			req := kit.DeviceReq(it.iss, it.cl, it.value)
			req.TokenConfirmation = x.cnf
			call = tok(req)
		case "cc":
			e.kind = kind
			req := kit.CCReq(iss, cl.c, kit.Str("read"), kit.Str("https://api.example/"))
			req.TokenConfirmation = x.cnf
			e.sub = cl.c.ClientId
			call = func() {
				tok(req)()
				if !e.ok {
					k.Fail("legit-refused", "client_credentials refused under load: %s", e.err)
				}
			}
		case "exchange":
			it := pick("at")
			e.kind, e.on = kind, it.value
			call = tok(kit.ExchangeReq(it.iss, it.cl, it.value, kit.Str("read"), kit.Str(kit.ResBackend)))
		case "introspect":
			var it *c36Item
			if len(own) > 0 && r.Intn(2) == 0 {
				it = own[r.Intn(len(own))]
			} else {
				it = pick(kit.Pick(r, "at", "rt"))
			}
			e.kind, e.on = kind, it.value
			call = func() {
				res, err := w.Introspect(ctx, it.iss, it.cl, it.value)
				if err != nil || res.GetToken() == nil {
					k.Fail("introspect", "introspection refused under load: %v", err)
					return
				}
				switch res.Token.Status {
				case tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE:
					e.ok = true
				case tokenv1.TokenStatus_TOKEN_STATUS_REVOKED:
				default:
					k.Fail("lost-token", "a token handed out is reported %v", res.Token.Status)
					return
				}
				if !proto.Equal(res.Token.Metadata, it.tok.Metadata) || !proto.Equal(res.Token.Confirmation, it.tok.Confirmation) || res.Token.TokenId != it.tok.TokenId || res.Token.TokenType != it.tok.TokenType {
					k.Fail("claims", "token %s reported as %s", kit.Brief(it.tok), kit.Brief(res.Token))
				}
			}
		case "revoke-own", "revoke-shared":
			var it *c36Item
			if kind == "revoke-own" {
				if len(own) == 0 {
					continue
				}
				at := r.Intn(len(own))
				it = own[at]
				own = append(own[:at:at], own[at+1:]...)
			} else {
				if r.Intn(3) > 0 {
					continue
				}
				it = pick(kit.Pick(r, "at", "rt"))
			}
			e.kind, e.on = "revoke", it.value
			who := it.cl
			if r.Intn(4) == 0 { // not the owner: must have no effect
				for _, c := range x.clients {
					if c.c.ClientId != it.cl.ClientId {
						who = c.c
					}
				}
				e.kind = "revoke-foreign"
			}
			call = func() {
				res, err := w.Revoke(ctx, it.iss, who, it.value)
				e.ok = err == nil && res.GetError() == nil
			}
		case "proof":
			it := pick("proof")
			e.kind, e.on = kind, it.value
			v := x.proofs[r.Intn(2)]
			call = func() {
				th, err := v.Verify(ctx, "POST", "https://as.example/token", it.value)
				e.ok = err == nil
				if e.ok && th != it.jkt {
					k.Fail("proof", "proof of %s verified as %s", it.jkt, th)
				}
			}
		case "auth":
			e.kind = kind
			key := cl.keys[r.Intn(len(cl.keys))]
			now := time.Now().Unix()
			a := key.Token("JWT", map[string]any{"iss": cl.c.ClientId, "sub": cl.c.ClientId, "aud": iss, "jti": kit.RandString(r, 12, kit.Alnum), "iat": now, "exp": now + 60}, nil)
			call = func() {
				res, err := x.auth.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertion: kit.Str(a), ClientAssertionType: kit.Str(kit.AssertJWT)})
				e.ok = err == nil && res.GetClient().GetClientId() == cl.c.ClientId
				if !e.ok {
					k.Fail("legit-refused", "client authentication refused under load: %v", err)
				}
			}
		case "client":
			e.kind = kind
			call = func() {
				c := w.Client(func(c *clientv1.Client) { c.ClientName = fmt.Sprintf("late-%d-%d", id, i) })
				late = c
				req := kit.CCReq(iss, c, kit.Str("read"), kit.Str("https://api.example/"))
				tok(req)()
				if !e.ok {
					k.Fail("legit-refused", "client registered under load refused: %s", e.err)
				}
			}
		}
		e.start = x.tick()
		call()
		e.end = x.tick()
		x.logs[id] = append(x.logs[id], e)
		k.Event("op_" + e.kind)
		for _, t := range e.out {
			c := late
			for _, a := range x.clients {
				if a.c.ClientId == t.Metadata.ClientId {
					c = a.c
				}
			}
			own = append(own, &c36Item{cl: c, iss: t.Metadata.Issuer, value: t.Value, tok: t})
		}
		k.Beat()
	}
}

// audit balances the books over the merged log.
func (x *c36Load) audit() {
	k := x.k
	var log []*c36Ev
	for _, l := range x.logs {
		log = append(log, l...)
	}
	sort.SliceStable(log, func(i, j int) bool { return log[i].start < log[j].start })
	by := map[string]map[string][]*c36Ev{}
	for _, e := range log {
		if by[e.kind] == nil {
			by[e.kind] = map[string][]*c36Ev{}
		}
		by[e.kind][e.on] = append(by[e.kind][e.on], e)
	}
	wins := func(es []*c36Ev) (w []*c36Ev) {
		for _, e := range es {
			if e.ok {
				w = append(w, e)
			}
		}
		return
	}
	show := func(es []*c36Ev) string {
		var b strings.Builder
		for _, e := range es {
			fmt.Fprintf(&b, "[w%d %s %d..%d ok=%v %s] ", e.worker, e.kind, e.start, e.end, e.ok, e.err)
		}
		return b.String()
	}
	for _, it := range x.rsrc["code"] {
		good, wrong := by["redeem"][it.value], by["wrong"][it.value]
		n := len(wins(good))
		k.Check(len(wins(wrong)) == 0, "wrong-verifier", "code redeemed with a wrong verifier")
		k.Check(n <= 1, "code-twice", "code redeemed %d times: %s", n, show(good))
		if len(good) > 0 && len(wrong) == 0 {
			k.Check(n == 1, "code-lost", "nobody could redeem the code: %s", show(good))
		}
		for _, e := range good {
			k.Check(e.ok || e.err == "invalid_grant", "refusal", "code refused with %q", e.err)
			for _, t := range e.out {
				x.claims(t, it.cl, it.iss, it.sub)
			}
		}
		k.Ctx.Events("contended_codes", len(good)/2)
	}
	k.Check(len(wins(flat(by["steal"]))) == 0, "guess", "a guessed code was redeemed")
	for _, it := range x.rsrc["uri"] {
		es := by["use-uri"][it.value]
		n := len(wins(es))
		k.Check(n == 1 || len(es) == 0, "uri", "request_uri used %d times of %d: %s", n, len(es), show(es))
		for _, e := range es {
			k.Check(e.ok || e.err == "invalid_request", "refusal", "request_uri refused with %q", e.err)
			for _, t := range e.out {
				x.claims(t, it.cl, it.iss, e.sub)
			}
		}
	}
	for _, it := range x.rsrc["device"] {
		ap, polls := by["approve"][it.value], by["poll"][it.value]
		w := wins(ap)
		if !k.Check(len(w) == 1 || len(ap) == 0, "approvals", "%d of %d approvals succeeded: %s", len(w), len(ap), show(ap)) {
			continue
		}
		for _, e := range polls {
			if len(w) == 0 {
				k.Check(!e.ok, "unapproved", "tokens without approval")
				continue
			}
			k.Check(!e.ok || e.end > w[0].start, "unapproved", "tokens before the approval")
			k.Check(e.ok || e.start < w[0].end, "lost-approval", "poll after the approval refused with %s", e.err)
			k.Check(e.ok || e.err == "authorization_pending", "refusal", "poll refused with %q", e.err)
			for _, t := range e.out {
				x.claims(t, it.cl, it.iss, w[0].sub)
			}
		}
	}
	for _, it := range x.rsrc["proof"] {
		es := by["proof"][it.value]
		n := len(wins(es))
		k.Check(n == 1 || len(es) == 0, "proof", "proof accepted %d times of %d: %s", n, len(es), show(es))
		k.Ctx.Events("contended_proofs", len(es)/2)
	}
	// every token handed out
	type made struct {
		t  *tokenv1.Token
		cl *clientv1.Client
	}
	all := map[string]*made{}
	ids := map[string]bool{}
	reg := func(t *tokenv1.Token) {
		if all[t.Value] != nil || ids[t.TokenId] {
			k.Fail("duplicate", "token value or id handed out twice: %s", t.TokenId)
		}
		ids[t.TokenId] = true
		all[t.Value] = &made{t: t}
	}
	for _, kind := range []string{"at", "rt"} {
		for _, it := range x.rsrc[kind] {
			reg(it.tok)
		}
	}
	codes := map[string]bool{}
	for _, e := range log {
		for _, t := range e.out {
			reg(t)
			if e.kind == "authorize" || e.kind == "push" || e.kind == "cc" {
				k.Check(t.Metadata.Subject == e.sub, "claims", "%s: subject %q instead of %q", e.kind, t.Metadata.Subject, e.sub)
			}
		}
		if e.code != "" {
			k.Check(!codes[e.code], "duplicate", "code handed out twice")
			codes[e.code] = true
		}
	}
	revoked := func(v string) (first, last int64, any bool) {
		for _, e := range by["revoke"][v] {
			if !any || e.end < first {
				first = e.end
			}
			if !any || e.start < last {
				last = e.start
			}
			any = true
		}
		return
	}
	for _, kind := range []string{"refresh", "exchange"} {
		src := map[string]string{"refresh": "rt", "exchange": "at"}[kind]
		for _, it := range x.rsrc[src] {
			done, begun, any := revoked(it.value)
			for _, e := range by[kind][it.value] {
				k.Check(!e.ok || !any || e.start < done, "revoked-used", "%s of a token revoked before: %s %s", kind, show(by["revoke"][it.value]), show([]*c36Ev{e}))
				k.Check(e.ok || any && e.end > begun, "legit-refused", "%s of an unrevoked token refused with %s", kind, e.err)
				for _, t := range e.out {
					x.claims(t, it.cl, it.iss, it.sub)
				}
			}
		}
	}
	for v, es := range by["introspect"] {
		done, begun, any := revoked(v)
		for _, e := range es {
			k.Check(!e.ok || !any || e.start < done, "revoked-active", "revoked token reported active: %s %s", show(by["revoke"][v]), show([]*c36Ev{e}))
			k.Check(e.ok || any && e.end > begun, "lost-token", "token nobody revoked reported inactive")
		}
	}
	// final state
	w := x.worlds[0]
	for v, m := range all {
		_, _, any := revoked(v)
		res, err := w.Introspect(context.Background(), m.t.Metadata.Issuer, x.clients[0].c, v)
		if !k.Check(err == nil && res.GetToken() != nil, "introspect", "final introspection: %v", err) {
			continue
		}
		want := tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
		if any {
			want = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
		}
		k.Check(res.Token.Status == want && proto.Equal(res.Token.Metadata, m.t.Metadata) && proto.Equal(res.Token.Confirmation, m.t.Confirmation) && res.Token.TokenId == m.t.TokenId,
			"books", "token %s ends as %s (want %v)", kit.Brief(m.t), kit.Brief(res.Token), want)
		k.Event("audited_tokens")
	}
	k.Ctx.Events("ops", len(log))
	over := 0
	for i, e := range log {
		for _, f := range log[i+1:] {
			if f.start >= e.end {
				break
			}
			if f.worker != e.worker {
				over++
			}
		}
	}
	k.Ctx.Events("overlaps", over)
}

func flat(m map[string][]*c36Ev) (out []*c36Ev) {
	for _, es := range m {
		out = append(out, es...)
	}
	return
}

// claims checks a token against its cause.
func (x *c36Load) claims(t *tokenv1.Token, cl *clientv1.Client, iss, sub string) {
	m := t.GetMetadata()
	x.k.Check(m.GetSubject() == sub && m.GetClientId() == cl.ClientId && m.GetIssuer() == iss && t.GetConfirmation().GetJkt() == x.cnf.Jkt,
		"claims", "token of %s/%s at %s carries %s", sub, cl.ClientId, iss, kit.Brief(t))
}

func c36Race(c *kit.Ctx) {
	c.Require("overlaps", 500)
	c.Require("audited_tokens", 500)
	for i := 0; i < c.N(8, 400); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			gen := kit.Pick(k.R, "verifiable", "verifiable", "jwt", "opaque")
			st := kit.NewStores(gen)
			delay := k.R.Intn(2) == 0
			hook := kit.Hook(kit.PassThrough)
			if delay { // widen the windows between dependency calls
				hook = func(_ context.Context, _ string, do func() error) error {
					runtime.Gosched()
					err := do()
					runtime.Gosched()
					return err
				}
			}
			worlds := []*kit.World{kit.NewWorld(st, hook), kit.NewWorld(st, nil)}
			workers := kit.Pick(k.R, 4, 8, 16)
			base := time.Now()
			x := c36Setup(k, worlds, func() int64 { return int64(time.Since(base)) }, workers, 14)
			time.Sleep(2100 * time.Millisecond) // exchanged tokens must have become valid
			x.makeProofs(14)
			before := runtime.NumGoroutine()
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < workers; g++ {
				g := g
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				k.Go(&wg, func() { <-start; x.work(context.Background(), sub, g, 45) })
			}
			close(start)
			wg.Wait()
			x.audit()
			for n := 0; n < 50 && runtime.NumGoroutine() > before; n++ {
				time.Sleep(10 * time.Millisecond)
			}
			k.Check(runtime.NumGoroutine() <= before, "goroutines", "%d goroutines before the load, %d after it", before, runtime.NumGoroutine())
			k.Sig("race %s workers=%d delay=%v %d", gen, workers, delay, i)
		})
	}
}

func c36Sched(c *kit.Ctx) {
	c.Require("audited_tokens", 500)
	c.Require("op_redeem", 100)
	gens := []string{"verifiable", "jwt", "opaque"}
	var worlds [][]*kit.World
	for _, g := range gens {
		st := kit.NewStores(g)
		worlds = append(worlds, []*kit.World{kit.NewWorld(st, kit.SchedHook), kit.NewWorld(st, kit.SchedHook)})
	}
	for i := 0; i < c.N(700, 40000); i++ {
		c.Case(fmt.Sprintf("sched/%d", i), func(k *kit.Case) {
			workers := 2 + k.R.Intn(4)
			var clock atomic.Int64
			x := c36Setup(k, worlds[k.R.Intn(len(worlds))], func() int64 { return clock.Add(1) }, workers, 1+k.R.Intn(2))
			time.Sleep(2 * time.Second)
			x.makeProofs(1)
			var tasks []func(context.Context)
			for g := 0; g < workers; g++ {
				g := g
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				tasks = append(tasks, func(ctx context.Context) { x.work(ctx, sub, g, 6) })
			}
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 4, Steps: 100}
			}
			s := k.RunTasks(ch, tasks...)
			k.Log("%s", s.String())
			x.audit()
			k.Sig("%s", s.String())
		})
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C36", Level: "exploration",
		Rule: "race: 4 to 16 workers sending a random mix of every request (authorize, push, redeem, refresh, device, client credentials, exchange, introspection, revocation, client authentication, proofs, registration) to service instances sharing storages, under the race detector; sched: the same mix with every storage call placed by the schedule controller. " +
			"The merged log and the final state are audited. Distinct by schedule (sched) or load configuration (race).",
		Assumptions: []string{"a redemption with a wrong verifier may spend the code", "tokens near expiry are not refreshed here (C06)", "timestamps of one process are monotonic"},
		Modes:       []kit.Mode{{Name: "race", Race: true, Run: c36Race}, {Name: "sched", Bubble: true, Run: c36Sched}},
	})
}
