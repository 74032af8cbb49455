package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C14", Level: "fault_enumeration",
		Rule: "every request kind is recorded once without fault, then re-run with one (and two) faults at every dependency call it makes, before and after the call took effect, for several error values including 'not found' and empty token values; then retried without faults. " +
			"storm: histories with random faults at every call, sequential and parallel, against a ledger. Non-trivial: a distinct (request kind, call, fault, outcome) or storm history.",
		Assumptions: []string{"a generator's Validate refusing a value is not a fault", "known findings are listed in known-findings.txt by request kind and call"},
		Modes:       []kit.Mode{{Name: "each", Bubble: true, Run: c14Each}, {Name: "storm", Bubble: true, Run: c14Storm}, {Name: "race", Race: true, Run: c14Race}},
	})
}

// answer is what a request returned, whatever its kind.
type answer struct {
	err   error
	perr  *corev1.Error
	creds []string // anything usable found in the response
	ok    bool     // success according to the error value
	isNil bool
	extra string
}

func tokAnswer(r *flowv1.TokenResponse, err error) answer {
	a := answer{err: err, ok: err == nil, isNil: r == nil}
	if r != nil {
		a.perr = r.Error
		for _, t := range []*tokenv1.Token{r.AccessToken, r.RefreshToken} {
			if t != nil {
				a.creds = append(a.creds, t.Value)
			}
		}
		if r.IdToken != nil {
			a.creds = append(a.creds, fmt.Sprint(r.IdToken))
		}
	}
	return a
}

// faultPlan is consulted at every dependency call of the request under test.
type faultPlan struct {
	mu     sync.Mutex
	armed  bool
	n      int
	at     map[int]error
	after  map[int]bool
	ops    []string
	hits   []string
	random func(op string) (error, bool)
}

func (p *faultPlan) hook(ctx context.Context, op string, do func() error) error {
	p.mu.Lock()
	if !p.armed {
		p.mu.Unlock()
		return do()
	}
	i := p.n
	p.n++
	p.ops = append(p.ops, op)
	e, after := p.at[i], p.after[i]
	if p.random != nil {
		e, after = p.random(op)
	}
	p.mu.Unlock()
	if e == nil {
		return do()
	}
	if after {
		if err := do(); err != nil {
			return err // the call's own answer: no fault took place
		}
	}
	p.mu.Lock()
	p.hits = append(p.hits, op)
	p.mu.Unlock()
	return e
}

func (p *faultPlan) arm(at map[int]error, after map[int]bool) {
	p.mu.Lock()
	p.armed, p.n, p.at, p.after, p.ops, p.hits, p.random = true, 0, at, after, nil, nil, nil
	p.mu.Unlock()
}

func (p *faultPlan) disarm() (ops, hits []string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.armed = false
	return p.ops, p.hits
}

// scenario prepares a request and returns how to send it (repeatable) and whether it is single use.
type scenario struct {
	kind   string
	single bool // at most one success ever
	send   func() answer
}

var scenarioKinds = []string{"authorize", "authorize-uri", "register", "device-authorize", "device-validate", "code", "code-offline", "cc", "device", "device-offline", "refresh", "refresh-rotate", "exchange", "introspect", "revoke", "introspect-revoked", "refresh-revoked", "code-used"}

func prepare(k *kit.Case, w *kit.World, kind string) *scenario {
	ctx := context.Background()
	r := k.R
	iss := kit.Issuer(r)
	cl := w.Client(nil)
	s := &scenario{kind: kind}
	code := func(scope string) *flowv1.TokenRequest {
		ar, v := kit.AuthReq(r, cl, scope)
		res, err := w.Code(ctx, iss, "sub", cl, ar)
		if err != nil {
			k.Fatal("legit-refused", "authorize: %v", err)
		}
		return kit.CodeReq(iss, cl, res.Code, ar.RedirectUri, v)
	}
	sendTok := func(req *flowv1.TokenRequest) func() answer {
		return func() answer { return tokAnswer(w.Token.Token(ctx, kit.Clone(req))) }
	}
	device := func(scope string, approve bool) (*flowv1.DeviceAuthorizationResponse, *flowv1.TokenRequest) {
		d, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str(scope), Audience: kit.Str("https://api.example/")})
		if err == nil && approve {
			_, err = w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "sub", UserCode: d.UserCode})
		}
		if err != nil {
			k.Fatal("legit-refused", "device: %v", err)
		}
		return d, kit.DeviceReq(iss, cl, d.DeviceCode)
	}
	switch kind {
	case "authorize":
		ar, _ := kit.AuthReq(r, cl, "openid")
		s.send = func() answer {
			res, err := w.Code(ctx, iss, "sub", cl, ar)
			a := answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
			if res.GetCode() != "" {
				a.creds = append(a.creds, res.Code)
			}
			return a
		}
	case "authorize-uri":
		s.single = true
		ar, _ := kit.AuthReq(r, cl, "openid")
		p, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar})
		if err != nil {
			k.Fatal("legit-refused", "register: %v", err)
		}
		s.send = func() answer {
			res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "sub", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(p.RequestUri)}})
			a := answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
			if res.GetCode() != "" {
				a.creds = append(a.creds, res.Code)
			}
			return a
		}
	case "register":
		ar, _ := kit.AuthReq(r, cl, "openid")
		s.send = func() answer {
			res, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar)})
			a := answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
			if res.GetRequestUri() != "" {
				a.creds = append(a.creds, res.RequestUri)
			}
			return a
		}
	case "device-authorize":
		s.send = func() answer {
			res, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid")})
			a := answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
			if res.GetDeviceCode() != "" || res.GetUserCode() != "" {
				a.creds = append(a.creds, res.DeviceCode+res.UserCode)
			}
			return a
		}
	case "device-validate":
		d, _ := device("openid", false)
		s.single = true
		s.send = func() answer {
			res, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "sub", UserCode: d.UserCode})
			return answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
		}
	case "code", "code-offline", "code-used":
		s.single = true
		scope := "openid"
		if kind == "code-offline" {
			scope = "openid offline_access"
		}
		req := code(scope)
		s.send = sendTok(req)
		if kind == "code-used" {
			if a := s.send(); !a.ok {
				k.Fatal("legit-refused", "code: %v", a.err)
			}
		}
	case "cc":
		s.send = sendTok(kit.CCReq(iss, cl, kit.Str("read"), kit.Str("https://api.example/")))
	case "device":
		_, req := device("openid", true)
		s.send = sendTok(req)
	case "device-offline":
		_, req := device("openid offline_access", true)
		s.send = sendTok(req)
	case "refresh", "refresh-rotate", "refresh-revoked":
		tr := refreshTokenOf(k, w, iss, "sub", cl, "openid offline_access", nil)
		if kind == "refresh-rotate" {
			// a stored refresh token close to its end
			near := kit.Clone(tr.RefreshToken)
			near.TokenId, near.Value = "near"+kit.RandString(r, 8, kit.Alnum), "near-"+kit.RandString(r, 30, kit.Alnum)
			near.Metadata.ExpiresAt = near.Metadata.IssuedAt + 120
			if err := w.Raw.Tokens.Create(ctx, iss, near); err != nil {
				k.Fatal("setup", "%v", err)
			}
			tr.RefreshToken = near
			s.single = true
		}
		if kind == "refresh-revoked" {
			if err := w.Raw.Tokens.Revoke(ctx, iss, tr.RefreshToken.TokenId); err != nil {
				k.Fatal("setup", "%v", err)
			}
		}
		s.send = sendTok(kit.RefreshReq(iss, cl, tr.RefreshToken.Value))
	case "exchange":
		tr := refreshTokenOf(k, w, iss, "sub", cl, "openid offline_access", nil)
		s.send = sendTok(kit.ExchangeReq(iss, cl, tr.AccessToken.Value, kit.Str("openid"), kit.Str(kit.ResBackend)))
	case "introspect", "revoke", "introspect-revoked":
		tr := refreshTokenOf(k, w, iss, "sub", cl, "openid offline_access", nil)
		if kind == "introspect-revoked" {
			if err := w.Raw.Tokens.Revoke(ctx, iss, tr.AccessToken.TokenId); err != nil {
				k.Fatal("setup", "%v", err)
			}
		}
		if kind == "revoke" {
			s.send = func() answer {
				res, err := w.Revoke(ctx, iss, cl, tr.AccessToken.Value)
				return answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
			}
			break
		}
		s.send = func() answer {
			res, err := w.Introspect(ctx, iss, cl, tr.AccessToken.Value)
			a := answer{err: err, perr: res.GetError(), ok: err == nil, isNil: res == nil}
			if res.GetToken() != nil {
				a.extra = res.Token.Status.String()
				if err != nil {
					a.creds = append(a.creds, "token "+kit.Brief(res.Token))
				}
			}
			return a
		}
	}
	return s
}

var dead = map[string]bool{"refresh-revoked": true, "code-used": true}

// judge checks an answer to a request during which hits (calls) failed with errs.
func judge(k *kit.Case, s *scenario, a answer, hits []string, errs []error) {
	what := fmt.Sprintf("%s with fault %v at %v", s.kind, errs, hits)
	k.Check(!a.isNil, "nil-response", "%s: nil response", what)
	if a.ok {
		k.Check(a.perr == nil, "ok-with-error", "%s: success with public error %v", what, a.perr)
	}
	if len(hits) == 0 {
		return
	}
	// a token not found is a legitimate answer of introspection
	nf := true
	for _, e := range errs {
		nf = nf && e == storage.ErrNotFound
	}
	if nf && strings.HasPrefix(s.kind, "introspect") && len(hits) == 1 && hits[0] == "tokens.GetByValue" {
		k.Check(a.ok && a.extra == "TOKEN_STATUS_UNKNOWN", "introspect-notfound", "%s: %v %s", what, a.err, a.extra)
		return
	}
	if !k.Check(!a.ok, "success-despite-fault", "%s: succeeded", what) {
		return
	}
	k.Check(len(a.creds) == 0, "leak", "%s: failed but the response carries %v", what, a.creds)
	op := hits[0]
	if strings.HasSuffix(op, ".Validate") && strings.Contains(op, "gen") {
		return
	}
	got := a.perr.GetErr()
	key := "public-error:" + s.kind + ":" + op
	allowed := map[string]bool{"server_error": true}
	if nf && readOp(op) {
		for _, c := range []string{"invalid_request", "invalid_grant", "invalid_client", "invalid_target"} {
			allowed[c] = true
		}
	}
	k.Check(allowed[got], key, "%s: public error %q (%v)", what, got, a.err)
}

// readOp: a 'not found' of these is an answer about the caller's input.
func readOp(op string) bool {
	switch op {
	case "clients.Get", "tokens.Get", "tokens.GetByValue", "authreqs.Get", "codes.Get", "devices.GetByDeviceCode", "devices.GetByUserCode", "resources.GetByURI",
		"codes.Delete", "authreqs.Delete", "devices.Validate": // consumed by somebody else
		return true
	}
	return false
}

var faultErrs = []error{kit.ErrInjected, io.ErrUnexpectedEOF, context.DeadlineExceeded, context.Canceled, storage.ErrNotFound, fmt.Errorf("wrapped: %w", kit.ErrInjected), kit.ErrEmptyValue,
	errors.New("replica 2: " + storage.ErrNotFound.Error() + " before the deadline, primary is down"), errors.New(storage.ErrNotFound.Error())}

func c14Each(c *kit.Ctx) {
	plan := &faultPlan{}
	w := kit.NewWorld(kit.NewStores("verifiable"), plan.hook)
	c.Require("faults", 500)
	c.Require("retries", 300)
	for rep := 0; rep < c.N(12, 300); rep++ {
		for _, kind := range scenarioKinds {
			// learn the calls of the request
			var ops []string
			c.Case(fmt.Sprintf("learn/%s/%d", kind, rep), func(k *kit.Case) {
				s := prepare(k, w, kind)
				plan.arm(nil, nil)
				a := s.send()
				ops, _ = plan.disarm()
				k.Check(a.ok != dead[kind], "baseline", "%s without fault: %v", kind, a.err)
				judge(k, s, a, nil, nil)
				k.Sig("%s %v", kind, ops)
			})
			for i, op := range ops {
				for j, e := range faultErrs {
					if e == kit.ErrEmptyValue && !strings.HasPrefix(op, "atgen") && !strings.HasPrefix(op, "rtgen") {
						continue
					}
					for _, after := range []bool{false, true} {
						c.Case(fmt.Sprintf("one/%s/%d/%d/%d/%v", kind, rep, i, j, after), func(k *kit.Case) {
							s := prepare(k, w, kind)
							at, af := map[int]error{i: e}, map[int]bool{i: after}
							if k.R.Intn(4) == 0 { // a second fault later on
								at[i+1+k.R.Intn(3)] = faultErrs[k.R.Intn(4)]
							}
							plan.arm(at, af)
							a := s.send()
							run, hits := plan.disarm()
							k.Sig("%s %s %d %v %v", kind, op, j, after, a.perr.GetErr())
							k.Log("%s calls %v faults at %v: %v %v", kind, run, hits, a.err, a.perr)
							var errs []error
							for range hits {
								errs = append(errs, e)
							}
							if len(hits) == 0 {
								return
							}
							c.Events("faults", len(hits))
							judge(k, s, a, hits, errs)
							// retry in peace
							okBefore := a.ok
							n := 0
							for t := 0; t < 3; t++ {
								b := s.send()
								judge(k, s, b, nil, nil)
								if b.ok {
									n++
								}
							}
							c.Event("retries")
							if okBefore {
								n++
							}
							k.Check(!dead[kind] || n == 0, "revived", "%s became usable after %v", kind, hits)
							if s.single {
								k.Check(n <= 1, "replayed", "%s succeeded %d times after fault %v at %v", kind, n, e, hits)
							} else if !dead[kind] && kind != "revoke" {
								k.Check(n >= 3 || strings.HasPrefix(kind, "device"), "stuck", "%s no longer works after a transient fault %v at %v (%d of 3)", kind, e, hits, n)
							}
							// a code or request_uri whose removal was attempted yields nothing any more
							if (kind == "code" || kind == "code-offline" || kind == "authorize-uri") && n > 0 {
								for x, o := range run {
									if (o == "codes.Delete" || o == "authreqs.Delete") && (at[x] == nil || af[x]) {
										k.Fail("replayed", "%s usable after it was removed (fault %v at %v)", kind, e, hits)
									}
								}
							}
						})
					}
				}
			}
		}
	}
}

func c14Storm(c *kit.Ctx) { c14StormRun(c, false) }
func c14Race(c *kit.Ctx)  { c14StormRun(c, true) }

func c14StormRun(c *kit.Ctx, par bool) {
	ctx := context.Background()
	for i := 0; i < c.N(250, 6000); i++ {
		if par && i >= c.N(80, 3000) {
			break
		}
		c.Case(fmt.Sprintf("storm/%d", i), func(k *kit.Case) {
			var mu sync.Mutex
			fr := c.Rng(k.Label + "/faults")
			rate := kit.Pick(k.R, 3, 6, 12)
			storm := false
			w := kit.NewWorld(kit.NewStores("verifiable"), func(ctx context.Context, op string, do func() error) error {
				mu.Lock()
				hit := storm && fr.Intn(rate) == 0
				after, e := fr.Intn(2) == 0, faultErrs[fr.Intn(4)]
				mu.Unlock()
				if !hit {
					return do()
				}
				c.Event("faults")
				if after {
					if err := do(); err != nil {
						return err
					}
				}
				return e
			})
			iss := kit.Issuer(k.R)
			cl, other := w.Client(nil), w.Client(nil)
			type art struct {
				req     *flowv1.TokenRequest
				granted int
			}
			var codes []*art
			var live []*ledgerTok
			for j := 0; j < 3; j++ {
				ar, v := kit.AuthReq(k.R, cl, "openid offline_access")
				res, err := w.Code(ctx, iss, "sub", cl, ar)
				if err != nil {
					k.Fatal("legit-refused", "authorize: %v", err)
				}
				codes = append(codes, &art{req: kit.CodeReq(iss, cl, res.Code, ar.RedirectUri, v)})
			}
			for j := 0; j < 3; j++ {
				live = append(live, mint(k, w, iss, cl, nil)...)
			}
			mu.Lock()
			storm = true
			mu.Unlock()
			var lm sync.Mutex // ledger
			step := func(k *kit.Case) {
				lm.Lock()
				a, o := codes[k.R.Intn(len(codes))], live[k.R.Intn(len(live))]
				dead := o.revoked
				lm.Unlock()
				switch k.R.Intn(5) {
				case 0:
					x := tokAnswer(w.Token.Token(ctx, kit.Clone(a.req)))
					k.Check(!x.isNil && (x.ok || len(x.creds) == 0 && x.perr != nil), "leak", "code: %v %v %v", x.err, x.perr, x.creds)
					lm.Lock()
					if x.ok {
						a.granted++
						k.Event("granted")
					}
					k.Check(a.granted <= 1, "replayed", "code redeemed %d times under faults", a.granted)
					lm.Unlock()
				case 1:
					_, err := w.Revoke(ctx, iss, cl, o.tok.Value)
					if err == nil {
						lm.Lock()
						o.revoked = true
						lm.Unlock()
						k.Event("revoked")
					}
				case 2:
					_, err := w.Revoke(ctx, iss, other, o.tok.Value)
					k.Check(err != nil, "foreign", "foreign revocation accepted")
				case 3:
					var x answer
					if o.tok.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
						x = tokAnswer(w.Token.Token(ctx, kit.RefreshReq(iss, cl, o.tok.Value)))
					} else {
						x = tokAnswer(w.Token.Token(ctx, kit.ExchangeReq(iss, cl, o.tok.Value, nil, kit.Str(kit.ResBackend))))
					}
					k.Check(!x.isNil && (x.ok || len(x.creds) == 0 && x.perr != nil), "leak", "use: %v %v %v", x.err, x.perr, x.creds)
					k.Check(!x.ok || !dead, "revived", "revoked token used under faults")
				case 4:
					ir, err := w.Introspect(ctx, iss, cl, o.tok.Value)
					if err == nil {
						k.Check(ir.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED || !dead, "revived", "revoked token reported %v under faults", ir.Token.Status)
						k.Check(proto.Equal(ir.Token.Metadata, o.tok.Metadata), "torn", "metadata %s", kit.Brief(ir.Token))
					} else {
						k.Check(ir != nil && ir.Token == nil && ir.Error.GetErr() == "server_error", "leak", "introspection: %s %v", kit.Brief(ir), err)
					}
				}
			}
			if par {
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
					k.Go(&wg, func() {
						for n := 0; n < 12; n++ {
							step(sub)
						}
					})
				}
				wg.Wait()
			} else {
				for n := 0; n < 40; n++ {
					step(k)
				}
			}
			mu.Lock()
			storm = false
			mu.Unlock()
			// calm: whatever was redeemed or revoked stays so
			for _, a := range codes {
				x := tokAnswer(w.Token.Token(ctx, kit.Clone(a.req)))
				k.Check(!x.ok || a.granted == 0, "replayed", "redeemed code usable after the storm")
			}
			for _, o := range live {
				ir, err := w.Introspect(ctx, iss, cl, o.tok.Value)
				k.Check(err == nil && (!o.revoked || ir.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED), "revived", "revoked token active after the storm: %v", err)
			}
		})
	}
	c.Require("faults", 500)
	c.Require("granted", 50)
	c.Require("revoked", 100)
}

var _ = errors.Is
var _ = clientv1.Client{}
