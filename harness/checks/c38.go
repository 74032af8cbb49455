package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C38", Level: "exploration",
		Rule: "builder: every constructor with random states and descriptions in random order, built errors then changed by their owner and compared again at the end. " +
			"services: honest, hostile and empty requests of every kind and every client authenticator, with random dependency failures whose text carries a marker; each public error is judged, then overwritten by its receiver, and a copy of it is compared at the end of the history. race: the same in parallel with one state per goroutine. " +
			"Oracles: documented code, description present and in OAuth's characters, state only of the request, of the pushed request or of the session the call read, no marker, no value of the request, no change of an answer already given. Non-trivial: a distinct (entry point, change, code, state given).",
		Assumptions: []string{"a refusal without any public error is C14's matter (known findings)", "request values shorter than 12 characters, or which could be words (neither digit nor capital nor URL), are not searched in an error", "constant texts chosen by the server may change freely"},
		Modes:       []kit.Mode{{Name: "services", Run: c38Services}, {Name: "builder", Run: c38Builder}, {Name: "race", Race: true, Run: c38Race}},
	})
}

// c38Codes: the codes of RFC 6749, 6750, 7591, 8628, 8707, 9449, 9470 and the ones this server documents.
var c38Codes = map[string]bool{
	"invalid_request": true, "unauthorized_client": true, "access_denied": true, "unsupported_response_type": true, "invalid_scope": true, "server_error": true, "temporarily_unavailable": true,
	"invalid_client": true, "invalid_grant": true, "unsupported_grant_type": true, "invalid_token": true, "insufficient_scope": true,
	"invalid_redirect_uri": true, "invalid_client_metadata": true, "invalid_software_statement": true, "unapproved_software_statement": true,
	"authorization_pending": true, "slow_down": true, "expired_token": true, "token_expired": true, "unsupported_token_type": true,
	"invalid_target": true, "invalid_dpop_proof": true, "use_dpop_nonce": true, "insufficient_user_authentication": true,
	"invalid_request_uri": true, "invalid_request_object": true, "request_not_supported": true, "request_uri_not_supported": true, "registration_not_supported": true,
	"interaction_required": true, "login_required": true, "account_selection_required": true, "consent_required": true,
}

// c38Text: the characters RFC 6749 allows in an error and an error_description.
func c38Text(s string) bool {
	for i := 0; i < len(s); i++ {
		if b := s[i]; b < 0x20 || b > 0x7e || b == '"' || b == '\\' {
			return false
		}
	}
	return true
}

// c38Strings gathers the texts of a message which are long enough to be recognised.
func c38Strings(m protoreflect.Message, out map[string]bool) {
	var val func(f protoreflect.FieldDescriptor, v protoreflect.Value)
	val = func(f protoreflect.FieldDescriptor, v protoreflect.Value) {
		switch f.Kind() {
		case protoreflect.StringKind:
			out[v.String()] = true
		case protoreflect.BytesKind:
			out[string(v.Bytes())] = true
		case protoreflect.MessageKind:
			c38Strings(v.Message(), out)
		}
	}
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
		case f.IsList():
			for i := 0; i < v.List().Len(); i++ {
				val(f, v.List().Get(i))
			}
		default:
			val(f, v)
		}
		return true
	})
}

// c38State finds the state the message itself carries.
func c38State(m proto.Message) string {
	switch r := m.(type) {
	case *flowv1.AuthorizeRequest:
		return r.GetRequest().GetState()
	case *flowv1.RegistrationRequest:
		return r.GetRequest().GetState()
	}
	return ""
}

// c38Spy notes the states the services read.
type c38Spy struct {
	storage.AuthorizationCodeSession
	mu   sync.Mutex
	seen map[string]bool
}

func (s *c38Spy) Get(ctx context.Context, iss, code string) (*sessionv1.AuthorizationCodeSession, error) {
	res, err := s.AuthorizationCodeSession.Get(ctx, iss, code)
	s.add(res.GetRequest().GetState())
	return res, err
}

func (s *c38Spy) add(v string) {
	s.mu.Lock()
	s.seen[v] = true
	s.mu.Unlock()
}

type c38Pushed struct {
	storage.AuthorizationRequest
	spy *c38Spy
}

func (s *c38Pushed) Get(ctx context.Context, iss, uri string) (*flowv1.AuthorizationRequest, error) {
	res, err := s.AuthorizationRequest.Get(ctx, iss, uri)
	s.spy.add(res.GetState())
	return res, err
}

// c38Held is an error given to somebody, as it was.
type c38Held struct {
	what string
	err  *corev1.Error
	was  *corev1.Error
}

type c38Shelf struct {
	mu   sync.Mutex
	held []c38Held
	n    int
}

// keep holds e, changed by its owner in one case out of two.
func (s *c38Shelf) keep(what string, e *corev1.Error, change bool) {
	if change {
		e.Err, e.ErrorDescription = "owner", "changed by the owner"
		e.State, e.ErrorUri, e.Resource = kit.Str("owner"), kit.Str("https://owner.example/"), kit.Str("owner")
	}
	s.mu.Lock()
	s.n++
	s.held = append(s.held, c38Held{what, e, kit.Clone(e)})
	if len(s.held) > 400 {
		s.held = s.held[1:]
	}
	s.mu.Unlock()
}

func (s *c38Shelf) check(k *kit.Case) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, h := range s.held {
		if !k.Check(proto.Equal(h.err, h.was), "answer-changed", "the error answered to %s was %v, is now %v", h.what, h.was, h.err) {
			return
		}
		k.Event("held")
	}
}

// c38Judge decides about one public error.
func c38Judge(k *kit.Case, what string, e *corev1.Error, states map[string]bool, secrets map[string]bool, marker string) {
	k.Check(c38Codes[e.Err], "code", "%s: error code %q", what, kit.Clip(e.Err))
	k.Check(e.ErrorDescription != "" && c38Text(e.ErrorDescription), "description", "%s: description %q", what, e.ErrorDescription)
	if e.State != nil {
		k.Check(*e.State != "" && states[*e.State], "state", "%s: state %q, want one of %q", what, *e.State, fmt.Sprint(states))
		k.Event("with-state")
	}
	all := strings.Join([]string{e.Err, e.ErrorDescription, e.GetErrorUri(), e.GetResource()}, "\n")
	k.Check(marker == "" || !strings.Contains(all, marker) && !strings.Contains(e.GetState(), marker), "internal-text", "%s: internal text in %v", what, e)
	for v := range secrets {
		if len(v) >= 12 && (strings.ContainsAny(v, "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ") || strings.Contains(v, "://")) {
			k.Check(!strings.Contains(all, v), "request-value", "%s: a value of the request in %v", what, e)
		}
	}
	k.Event("judged")
	k.Eval(1)
}

func c38Endpoints(k *kit.Case, w *kit.World, hooked storage.Client) []endpoint {
	es := c15Endpoints()
	ac := authWorld(k, w, "c38", 2)
	now := time.Now().Unix()
	id, ak, tk := ac[0].c.ClientId, ac[0].keys[0], ac[1].keys[0]
	inst := kit.NewKey("c38-inst", "ES256")
	auth := func(name string, p clientauthentication.AuthenticationProcessor, mk func(k *kit.Case) (string, string)) {
		es = append(es, endpoint{name, func(k *kit.Case, _ *kit.World) proto.Message {
			typ, a := mk(k)
			return &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &a}
		}, (*clientv1.AuthenticateRequest)(nil), func(_ *kit.World, m proto.Message) (proto.Message, error) {
			return p.Authenticate(context.Background(), m.(*clientv1.AuthenticateRequest))
		}, func(res proto.Message) bool { return res.(*clientv1.AuthenticateResponse).GetClient() != nil }})
	}
	odd := func(k *kit.Case, p map[string]any) []byte {
		if k.R.Intn(2) == 0 {
			return kit.HostileJSON(k.R, p)
		}
		return kit.J(p)
	}
	auth("private_key_jwt", clientauthentication.PrivateKeyJWT(hooked, allAlgs20()), func(k *kit.Case) (string, string) {
		return kit.AssertJWT, kit.MakeJWS(map[string]any{"alg": ak.Alg, "kid": ak.Kid}, odd(k, map[string]any{"iss": id, "sub": id, "aud": "https://issuer.example/token", "exp": now + 100, "iat": now, "jti": "jti-of-the-assertion"}), ak.Alg, ak.Priv)
	})
	auth("attestation", clientauthentication.ClientAttestation(hooked, allAlgs20()), func(k *kit.Case) (string, string) {
		a := kit.MakeJWS(map[string]any{"alg": tk.Alg, "kid": tk.Kid, "typ": "jwt-client-attestation+jwt"}, odd(k, map[string]any{"iss": ac[1].c.ClientId, "sub": id, "exp": now + 100, "iat": now, "cnf": map[string]any{"jwk": bareJWK(inst)}}), tk.Alg, tk.Priv)
		p := kit.MakeJWS(map[string]any{"alg": "ES256", "typ": "jwt-client-attestation-pop+jwt"}, odd(k, map[string]any{"iss": id, "aud": "https://issuer.example", "exp": now + 100, "jti": "jti-of-the-proof", "iat": now, "nonce": "n"}), "ES256", inst.Priv)
		return kit.AssertAttest, a + "~" + p
	})
	return es
}

func c38Services(c *kit.Ctx) {
	c.Require("judged", 3000)
	c.Require("with-state", 60)
	c.Require("held", 1000)
	c.Require("faults", 200)
	shelf := &c38Shelf{}
	for i := 0; i < c.N(160, 5000); i++ {
		c.Case(fmt.Sprintf("services/%d", i), func(k *kit.Case) {
			k.Trivial()
			marker := "dsn-" + kit.RandString(k.R, 12, kit.Alnum)
			rate := 0
			hook := func(_ context.Context, op string, do func() error) error {
				if rate > 0 && k.R.Intn(rate) == 0 {
					k.Event("faults")
					return kit.Pick(k.R, errors.New(marker+": connection refused"), fmt.Errorf("%s: %w", marker, storage.ErrNotFound), fmt.Errorf("%s: %w", marker, context.DeadlineExceeded))
				}
				return do()
			}
			raw := kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque"))
			spy := &c38Spy{AuthorizationCodeSession: raw.Codes}
			spy.seen = map[string]bool{}
			raw.Codes = spy
			raw.AuthReqs = &c38Pushed{raw.AuthReqs, spy}
			w := kit.NewWorld(raw, hook)
			es := c38Endpoints(k, w, w.S.Clients)
			var pool []string
			for j := 0; j < 40; j++ {
				e := es[(i+j)%len(es)]
				m := e.mk(k, w)
				how := "honest"
				switch k.R.Intn(8) {
				case 0:
					rate = 2
				case 1:
					rate = 5
				case 2:
					m, how = e.nilR.ProtoReflect().New().Interface(), "empty"
				case 3:
					ss := kit.Shapes(m.ProtoReflect())
					s := ss[k.R.Intn(len(ss))]
					s.Do(m.ProtoReflect())
					how = s.Path
				default:
					how = c15Paths(kit.Hostile(k.R, m.ProtoReflect(), 1+k.R.Intn(3), pool))
				}
				if rate > 0 {
					how = "fault"
				}
				secrets := map[string]bool{}
				c38Strings(m.ProtoReflect(), secrets)
				spy.mu.Lock()
				spy.seen = map[string]bool{c38State(m): true}
				spy.mu.Unlock()
				k.Log("%s %s: %s", e.name, how, kit.Brief(m))
				res, err := e.call(w, m)
				rate = 0
				what := e.name + " (" + how + ")"
				if isNilMsg(res) {
					continue // C15
				}
				pe := res.(hasError).GetError()
				if err == nil {
					k.Check(pe == nil, "success-with-error", "%s: success with public error %v", what, pe)
					k.Event("accepted")
					continue
				}
				if pe == nil {
					k.Event("silent")
					continue
				}
				c38Judge(k, what, pe, spy.seen, secrets, marker)
				k.AddSig(fmt.Sprintf("%s/%s/%s/%v", e.name, how, pe.Err, pe.State != nil))
				shelf.keep(what, pe, k.R.Intn(2) == 0)
				if len(pool) < 30 {
					pool = append(pool, kit.RandString(k.R, 24, kit.Alnum))
				}
			}
			shelf.check(k)
		})
	}
}

// c38Ctors pairs every constructor with the code it is named after.
var c38Ctors = []struct {
	code string
	mk   func() rfcerrors.ErrorBuilder
}{
	{"server_error", rfcerrors.ServerError}, {"invalid_request", rfcerrors.InvalidRequest}, {"invalid_scope", rfcerrors.InvalidScope}, {"invalid_grant", rfcerrors.InvalidGrant},
	{"invalid_client", rfcerrors.InvalidClient}, {"unauthorized_client", rfcerrors.UnauthorizedClient}, {"unsupported_grant_type", rfcerrors.UnsupportedGrantType},
	{"invalid_token", rfcerrors.InvalidToken}, {"authorization_pending", rfcerrors.AuthorizationPending}, {"slow_down", rfcerrors.Slowdown}, {"access_denied", rfcerrors.AccessDenied},
	{"token_expired", rfcerrors.TokenExpired}, {"invalid_dpop_proof", rfcerrors.InvalidDPoPProof}, {"invalid_redirect_uri", rfcerrors.InvalidRedirectURI},
	{"invalid_client_metadata", rfcerrors.InvalidClientMetadata}, {"invalid_software_statement", rfcerrors.InvalidSoftwareStatement},
	{"unapproved_software_statement", rfcerrors.UnapprovedSoftwareStatement}, {"invalid_target", rfcerrors.InvalidTarget},
	{"insufficient_user_authentication", rfcerrors.InsufficientUserAuthentication},
}

// c38Build drives one builder and compares the error built with what was asked.
func c38Build(k *kit.Case, i int, shelf *c38Shelf, state, desc *string, order bool, change bool) {
	ct := c38Ctors[i%len(c38Ctors)]
	b := ct.mk()
	set := func(first bool) {
		if first && state != nil {
			b = b.State(*state)
		}
		if !first && desc != nil {
			b = b.Description(*desc)
		}
	}
	set(order)
	set(!order)
	e := b.Build()
	if !k.Check(e != nil, "code", "%s builds nothing", ct.code) {
		return
	}
	k.Event("built")
	k.Eval(1)
	k.Check(e.Err == ct.code, "code", "%s builds %q", ct.code, e.Err)
	if desc != nil {
		k.Check(e.ErrorDescription == *desc, "description", "%s: description %q, want %q", ct.code, e.ErrorDescription, *desc)
	} else {
		k.Check(e.ErrorDescription != "" && c38Text(e.ErrorDescription), "description", "%s: description %q", ct.code, e.ErrorDescription)
	}
	want := ""
	if state != nil {
		want = *state
	}
	k.Check(e.GetState() == want && (e.State != nil) == (want != ""), "state", "%s: state %v, want %q", ct.code, e.State, want)
	k.Check(e.ErrorUri == nil && e.Resource == nil, "extra", "%s: %v", ct.code, e)
	shelf.keep(ct.code, e, change)
	// the same builder goes on
	n := b.State(want + "2").Build()
	k.Check(n.GetState() == want+"2" && n.Err == ct.code, "state", "%s: rebuilt as %v", ct.code, n)
	shelf.keep(ct.code+" again", n, !change)
	k.Event("rebuilt")
}

func c38Builder(c *kit.Ctx) {
	c.Require("built", 2000)
	c.Require("rebuilt", 2000)
	c.Require("held", 2000)
	shelf := &c38Shelf{}
	for i := 0; i < c.N(60, 3000); i++ {
		c.Case(fmt.Sprintf("builder/%d", i), func(k *kit.Case) {
			k.Trivial()
			opt := func() *string {
				switch k.R.Intn(4) {
				case 0:
					return nil
				case 1:
					return kit.Str("")
				}
				return kit.Str(kit.RandText(k.R, 1+k.R.Intn(40)))
			}
			for j := 0; j < 3*len(c38Ctors); j++ {
				st, de := opt(), opt()
				c38Build(k, j, shelf, st, de, k.R.Intn(2) == 0, k.R.Intn(2) == 0)
				k.AddSig(fmt.Sprintf("%s/%v/%v", c38Ctors[j%len(c38Ctors)].code, st != nil, de != nil))
			}
			shelf.check(k)
		})
	}
}

func c38Race(c *kit.Ctx) {
	c.Require("built", 300)
	c.Require("judged", 300)
	ctx := context.Background()
	for i := 0; i < c.N(6, 120); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			k.Trivial()
			w := kit.NewWorld(kit.NewStores(""), nil)
			iss := "https://issuer.example/a"
			shelf := &c38Shelf{}
			type job struct {
				state string
				call  func() (proto.Message, error)
			}
			var jobs [][]job
			for g := 0; g < 6; g++ {
				var js []job
				for j := 0; j < 24; j++ {
					cl := w.Client(nil)
					ar, v := kit.AuthReq(k.R, cl, "openid offline_access")
					st := ar.State
					switch j % 4 {
					case 0:
						ar.Nonce = "n"
						js = append(js, job{st, func() (proto.Message, error) {
							return w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "sub", Client: cl, Request: ar})
						}})
					case 1:
						ar.ResponseType = "id_token"
						js = append(js, job{st, func() (proto.Message, error) {
							return w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar})
						}})
					case 2:
						res, err := w.Code(ctx, iss, "sub", cl, ar)
						if err != nil {
							k.Fatal("legit-refused", "%v", err)
						}
						req := kit.CodeReq(iss, cl, res.Code, ar.RedirectUri+"x", v)
						js = append(js, job{st, func() (proto.Message, error) { return w.Token.Token(ctx, req) }})
					default:
						req := kit.RefreshReq(iss, cl, kit.RandString(k.R, 40, kit.Alnum))
						js = append(js, job{"", func() (proto.Message, error) { return w.Token.Token(ctx, req) }})
					}
				}
				jobs = append(jobs, js)
			}
			var wg sync.WaitGroup
			for g, js := range jobs {
				g, js := g, js
				k.Go(&wg, func() {
					for j, jb := range js {
						res, err := jb.call()
						if !k.Check(err != nil && !isNilMsg(res), "accepted", "job %d accepted", j) {
							continue
						}
						if pe := res.(hasError).GetError(); pe != nil {
							c38Judge(k, fmt.Sprintf("job %d", j%4), pe, map[string]bool{jb.state: true}, nil, "")
							k.AddSig(fmt.Sprintf("%d/%s/%v", j%4, pe.Err, pe.State != nil))
							shelf.keep("job", pe, j%3 == 0)
						}
						st := kit.Str(fmt.Sprintf("state-of-%d-%d", g, j))
						c38Build(k, g+j, shelf, st, nil, true, j%2 == 0)
					}
				})
			}
			wg.Wait()
			shelf.check(k)
		})
	}
}
