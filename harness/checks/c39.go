package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C39", Level: "exploration",
		Rule: "two deployments in one process with the same issuer, the same client identifier and (stored on purpose) the same code, request_uri, device and user codes, token identifiers and values, but different clients, users, scopes and contents; two sets of keys under the same key id; two secrets, salts, issuers, allowed algorithms and proof storages. Every use of one is interleaved with the same use of the other, in random order and repeatedly. " +
			"Oracles: each answers from what it was given: its own subject, scope, client rules, keys; nothing of the other is accepted, consumed or revoked; each artifact still works at home afterwards. race: the same with both deployments in parallel. Non-trivial: a distinct (component, order, outcome).",
		Assumptions: []string{"collaborators which are shared on purpose (a storage given to two services) are other checks' matter"},
		Modes:       []kit.Mode{{Name: "services", Run: c39Services}, {Name: "keys", Run: c39Keys}, {Name: "race", Race: true, Run: c39Race}},
	})
}

// c39Side is one deployment.
type c39Side struct {
	name string
	w    *kit.World
	cl   *clientv1.Client
	sub  string
	scp  string
}

func c39Pair(k *kit.Case) []*c39Side {
	gen := kit.Pick(k.R, "", "jwt", "opaque")
	a := &c39Side{name: "A", w: kit.NewWorld(kit.NewStores(gen), nil), sub: "user-of-a", scp: "openid offline_access read"}
	b := &c39Side{name: "B", w: kit.NewWorld(kit.NewStores(gen), nil), sub: "user-of-b", scp: "openid offline_access write"}
	a.cl = a.w.Client(func(c *clientv1.Client) { c.RedirectUris = []string{"https://a.example/cb"} })
	b.cl = kit.Clone(a.cl)
	b.cl.RedirectUris = []string{"https://b.example/cb"}
	b.cl.ClientName += " of b"
	b.w.SetClient(b.cl)
	return []*c39Side{a, b}
}

// c39Each runs f for both sides, in random order.
func c39Each(k *kit.Case, s []*c39Side, f func(s, o *c39Side)) {
	i := k.R.Intn(2)
	f(s[i], s[1-i])
	f(s[1-i], s[i])
}

func (s *c39Side) own(k *kit.Case, what string, res *flowv1.TokenResponse, err error) {
	if !k.Check(kit.Granted(res, err), "home-refused", "%s refused at %s: %v %s", what, s.name, err, kit.ErrOf(res)) {
		return
	}
	m := res.AccessToken.GetMetadata()
	k.Check(m.GetSubject() == s.sub, "foreign-subject", "%s at %s is for %q", what, s.name, m.GetSubject())
	other := map[string]string{"A": "write", "B": "read"}[s.name]
	k.Check(!has(strings.Fields(m.GetScope()), other), "foreign-scope", "%s at %s has scope %q", what, s.name, m.GetScope())
	k.Event("home")
}

func (s *c39Side) foreign(k *kit.Case, what string, ok bool) {
	k.Check(!ok, "foreign-accepted", "%s of the other deployment accepted at %s", what, s.name)
	k.Event("foreign")
}

func c39Round(k *kit.Case, ss []*c39Side, iss string) {
	ctx := context.Background()
	type art struct {
		ar      *flowv1.AuthorizationRequest
		v, code string
		uri     string
		dev     *flowv1.DeviceAuthorizationResponse
		tr      *flowv1.TokenResponse
	}
	arts := map[string]*art{}
	authz := func(s *c39Side, ar *flowv1.AuthorizationRequest) (*flowv1.AuthorizeResponse, error) {
		return s.w.Code(ctx, iss, s.sub, s.cl, kit.Clone(ar))
	}
	// every deployment makes its own
	c39Each(k, ss, func(s, _ *c39Side) {
		a := &art{}
		a.ar, a.v = kit.AuthReq(k.R, s.cl, s.scp)
		a.ar.Prompt = kit.Str("consent")
		res, err := authz(s, a.ar)
		if err != nil {
			k.Fatal("home-refused", "authorize at %s: %v", s.name, err)
		}
		a.code = res.Code
		p, err := s.w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: s.cl, Request: kit.Clone(a.ar)})
		if err != nil {
			k.Fatal("home-refused", "register at %s: %v", s.name, err)
		}
		a.uri = p.RequestUri
		if a.dev, err = s.w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: s.cl.ClientId, Scope: &s.scp, Audience: kit.Str("https://api.example/")}); err != nil {
			k.Fatal("home-refused", "device at %s: %v", s.name, err)
		}
		arts[s.name] = a
	})
	// the rules are those of the deployment's own client
	c39Each(k, ss, func(s, o *c39Side) {
		_, err := authz(s, arts[o.name].ar)
		s.foreign(k, "redirect_uri", err == nil)
		_, err = authz(s, arts[s.name].ar)
		k.Check(err == nil, "home-refused", "authorize at %s: %v", s.name, err)
	})
	// what the other handed out is unknown
	c39Each(k, ss, func(s, o *c39Side) {
		a := arts[o.name]
		res, err := s.w.Token.Token(ctx, kit.CodeReq(iss, s.cl, a.code, a.ar.RedirectUri, a.v))
		s.foreign(k, "code", kit.Granted(res, err))
		_, err = s.w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: s.sub, Client: s.cl, Request: &flowv1.AuthorizationRequest{ClientId: s.cl.ClientId, RequestUri: &a.uri}})
		s.foreign(k, "request_uri", err == nil)
		_, err = s.w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: s.sub, UserCode: a.dev.UserCode})
		s.foreign(k, "user_code", err == nil)
		res, err = s.w.Token.Token(ctx, kit.DeviceReq(iss, s.cl, a.dev.DeviceCode))
		s.foreign(k, "device_code", kit.Granted(res, err))
	})
	// the same identifiers on both sides, each with its own content
	if k.R.Intn(2) == 0 {
		src, dst := ss[0], ss[1]
		if k.R.Intn(2) == 0 {
			src, dst = dst, src
		}
		x, y := arts[src.name], arts[dst.name]
		cs, err := dst.w.Raw.Codes.Get(ctx, iss, y.code)
		if err != nil {
			k.Fatal("home-refused", "session: %v", err)
		}
		if _, err := dst.w.Raw.Codes.Register(ctx, iss, x.code, kit.Clone(cs)); err != nil {
			k.Fatal("setup", "%v", err)
		}
		y.code = x.code
		if _, err := dst.w.Raw.AuthReqs.Register(ctx, iss, x.uri, kit.Clone(y.ar)); err != nil {
			k.Fatal("setup", "%v", err)
		}
		y.uri = x.uri
		ds, err := dst.w.Raw.Devices.GetByDeviceCode(ctx, iss, y.dev.DeviceCode)
		if err != nil {
			k.Fatal("home-refused", "session: %v", err)
		}
		ds = kit.Clone(ds)
		ds.DeviceCode = x.dev.DeviceCode
		if _, err := dst.w.Raw.Devices.Register(ctx, iss, x.dev.UserCode, ds); err != nil {
			k.Fatal("setup", "%v", err)
		}
		y.dev = x.dev
		k.Event("same_identifiers")
		k.AddSig("same")
	}
	// both work at home, and only once
	c39Each(k, ss, func(s, _ *c39Side) {
		a := arts[s.name]
		res, err := s.w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: s.sub, Client: s.cl, Request: &flowv1.AuthorizationRequest{ClientId: s.cl.ClientId, RequestUri: &a.uri}})
		if k.Check(err == nil, "home-refused", "request_uri at %s: %v", s.name, err) {
			k.Check(res.RedirectUri == s.cl.RedirectUris[0] && res.State == a.ar.State, "foreign-content", "request_uri at %s leads to %s", s.name, kit.Brief(res))
		}
	})
	c39Each(k, ss, func(s, _ *c39Side) {
		a := arts[s.name]
		res, err := s.w.Token.Token(ctx, kit.CodeReq(iss, s.cl, a.code, a.ar.RedirectUri, a.v))
		s.own(k, "code", res, err)
		a.tr = res
		res, err = s.w.Token.Token(ctx, kit.CodeReq(iss, s.cl, a.code, a.ar.RedirectUri, a.v))
		k.Check(!kit.Granted(res, err), "twice", "code accepted twice at %s", s.name)
	})
	var approved []*c39Side
	c39Each(k, ss, func(s, o *c39Side) {
		a := arts[s.name]
		res, err := s.w.Token.Token(ctx, kit.DeviceReq(iss, s.cl, a.dev.DeviceCode))
		k.Check(!kit.Granted(res, err), "foreign-accepted", "device_code accepted at %s, where nobody approved it", s.name)
		_, err = s.w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: s.sub, UserCode: a.dev.UserCode})
		k.Check(err == nil, "home-refused", "user_code at %s: %v", s.name, err)
		approved = append(approved, s)
	})
	for _, s := range approved {
		res, err := s.w.Token.Token(ctx, kit.DeviceReq(iss, s.cl, arts[s.name].dev.DeviceCode))
		s.own(k, "device_code", res, err)
	}
	// tokens
	if arts["A"].tr.GetRefreshToken() == nil || arts["B"].tr.GetRefreshToken() == nil {
		k.Fail("home-refused", "no refresh token")
		return
	}
	active := func(s *c39Side, v string) bool {
		res, err := s.w.Introspect(ctx, iss, s.cl, v)
		if err != nil {
			k.Fail("home-refused", "introspection at %s: %v", s.name, err)
			return false
		}
		on := res.Token.GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
		if on {
			k.Check(res.Token.GetMetadata().GetSubject() == s.sub, "foreign-subject", "introspection at %s: %s", s.name, kit.Brief(res))
		}
		return on
	}
	c39Each(k, ss, func(s, o *c39Side) {
		t := arts[o.name].tr
		s.foreign(k, "access token (introspection)", active(s, t.AccessToken.Value))
		_, _ = s.w.Revoke(ctx, iss, s.cl, t.AccessToken.Value)
		_, _ = s.w.Revoke(ctx, iss, s.cl, t.RefreshToken.Value)
		res, err := s.w.Token.Token(ctx, kit.RefreshReq(iss, s.cl, t.RefreshToken.Value))
		s.foreign(k, "refresh token", kit.Granted(res, err))
		res, err = s.w.Token.Token(ctx, kit.ExchangeReq(iss, s.cl, t.AccessToken.Value, nil, kit.Str(kit.ResBackend)))
		s.foreign(k, "subject token", kit.Granted(res, err))
		k.Check(active(o, t.AccessToken.Value), "foreign-effect", "a token of %s ended by requests to %s", o.name, s.name)
	})
	// the same token, by value and identifier, on both sides
	src, dst := ss[0], ss[1]
	if k.R.Intn(2) == 0 {
		src, dst = dst, src
	}
	for _, t := range []*tokenv1.Token{arts[src.name].tr.AccessToken, arts[src.name].tr.RefreshToken} {
		n := kit.Clone(t)
		n.Metadata.Subject, n.Metadata.Scope = dst.sub, dst.scp
		if err := dst.w.Raw.Tokens.Create(ctx, iss, n); err != nil {
			k.Fatal("setup", "%v", err)
		}
	}
	at, rt := arts[src.name].tr.AccessToken.Value, arts[src.name].tr.RefreshToken.Value
	c39Each(k, ss, func(s, _ *c39Side) {
		k.Check(active(s, at), "home-refused", "token not active at %s", s.name)
		res, err := s.w.Token.Token(ctx, kit.RefreshReq(iss, s.cl, rt))
		s.own(k, "refresh token", res, err)
		res, err = s.w.Token.Token(ctx, kit.ExchangeReq(iss, s.cl, at, nil, kit.Str(kit.ResBackend)))
		s.own(k, "subject token", res, err)
	})
	first, second := ss[0], ss[1]
	if k.R.Intn(2) == 0 {
		first, second = second, first
	}
	for _, v := range []string{at, rt} {
		_, err := first.w.Revoke(ctx, iss, first.cl, v)
		k.Check(err == nil, "home-refused", "revocation at %s: %v", first.name, err)
	}
	k.Check(!active(first, at), "revocation", "revoked token active at %s", first.name)
	res, err := first.w.Token.Token(ctx, kit.RefreshReq(iss, first.cl, rt))
	k.Check(!kit.Granted(res, err), "revocation", "revoked refresh token accepted at %s", first.name)
	k.Check(active(second, at), "foreign-effect", "token of %s ended by a revocation at %s", second.name, first.name)
	res, err = second.w.Token.Token(ctx, kit.RefreshReq(iss, second.cl, rt))
	second.own(k, "refresh token after a revocation elsewhere", res, err)
	k.Eval(1)
	k.AddSig("round " + first.name + src.name)
}

func c39Services(c *kit.Ctx) {
	c.Require("home", 300)
	c.Require("foreign", 400)
	c.Require("same_identifiers", 15)
	for i := 0; i < c.N(60, 2500); i++ {
		c.Case(fmt.Sprintf("services/%d", i), func(k *kit.Case) {
			ss := c39Pair(k)
			iss := kit.Issuer(k.R)
			for j := 0; j < 2; j++ {
				c39Round(k, ss, iss)
			}
			// a client removed or restricted on one side
			s, o := ss[0], ss[1]
			if k.R.Intn(2) == 0 {
				s, o = o, s
			}
			cc := func(s *c39Side) bool {
				res, err := s.w.Token.Token(context.Background(), kit.CCReq(iss, s.cl, kit.Str("read"), kit.Str("https://api.example/")))
				return kit.Granted(res, err)
			}
			k.Check(cc(s) && cc(o), "home-refused", "client credentials refused")
			if k.R.Intn(2) == 0 {
				s.w.RemoveClient(s.cl.ClientId)
			} else {
				n := kit.Clone(s.cl)
				n.GrantTypes = []string{kit.GrantCode}
				s.w.SetClient(n)
			}
			for _, x := range kit.Pick(k.R, []*c39Side{s, o, s}, []*c39Side{o, s, o}) {
				k.Check(cc(x) == (x == o), "foreign-client", "client credentials at %s, withdrawn at %s", x.name, s.name)
			}
			k.Sig("withdrawn %s %d", s.name, len(s.cl.ClientId))
		})
	}
}

// c39Keyed is one deployment of key based components; everything but the contents is the same in two of them.
type c39Keyed struct {
	name   string
	key    *kit.Key
	set    *jose.JSONWebKeySet
	cl     *clientv1.Client
	att    *kit.Key
	pk, aa clientauthentication.AuthenticationProcessor
	proofs dpop.Verifier
	iss    string
	ver    interface {
		Claims(ctx context.Context, token string, claims any) error
	}
	secret []byte
	salt   []byte
	clis   storage.Client
}

func c39KeyedPair(k *kit.Case) []*c39Keyed {
	alg := kit.Pick(k.R, "ES256", "ES384", "EdDSA", "PS256")
	var out []*c39Keyed
	w := kit.NewWorld(kit.NewStores(""), nil)
	base := w.Client(nil)
	attester := w.Client(nil)
	secret, salt, at := kit.RandString(k.R, 32, kit.Alnum), kit.RandString(k.R, 16+k.R.Intn(48), kit.Alnum), k.R.Intn(1000)
	for i, n := range []string{"A", "B"} {
		s := &c39Keyed{name: n, iss: fmt.Sprintf("https://issuer-%d.example", i)}
		s.key = kit.NewKey("c39-"+n, alg)
		s.key.Kid = "same"
		s.att = kit.NewKey("c39-att-"+n, "ES256")
		s.att.Kid = "same"
		s.set = &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{s.key.JWK()}}
		ww := kit.NewWorld(kit.NewStores(""), nil)
		s.cl = kit.Clone(base)
		s.cl.Jwks = kit.JWKS(s.key.JWK())
		ac := kit.Clone(attester)
		ac.Jwks = kit.JWKS(s.att.JWK())
		ww.SetClient(s.cl)
		ww.SetClient(ac)
		s.clis = ww.S.Clients
		s.pk = clientauthentication.PrivateKeyJWT(s.clis, allAlgs20())
		s.aa = clientauthentication.ClientAttestation(s.clis, allAlgs20())
		s.proofs = dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(allAlgs20()))
		set := s.set
		s.ver = jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, allAlgs20())
		// secrets and salts of one length which differ in one place
		s.secret, s.salt = append([]byte(nil), secret...), append([]byte(nil), salt...)
		s.secret[at%len(secret)] ^= byte(i)
		s.salt[at%len(salt)] ^= byte(i)
		s.cl.Contacts = []string{attester.ClientId}
		out = append(out, s)
	}
	return out
}

type c39Use struct {
	name string
	// mk makes an artifact with the components of s; use presents it to those of o.
	mk  func(k *kit.Case, s *c39Keyed) string
	use func(k *kit.Case, o *c39Keyed, v string) bool
}

func c39Uses() []c39Use {
	ctx := context.Background()
	authUse := func(typ string, p func(o *c39Keyed) clientauthentication.AuthenticationProcessor) func(k *kit.Case, o *c39Keyed, v string) bool {
		return func(k *kit.Case, o *c39Keyed, v string) bool {
			t := typ
			res, err := p(o).Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &t, ClientAssertion: &v})
			if err == nil {
				k.Check(string(res.GetClient().GetJwks()) == string(o.cl.Jwks), "foreign-content", "client of another deployment at %s", o.name)
			}
			return err == nil
		}
	}
	prov := func(s *c39Keyed) func(context.Context) (*jose.JSONWebKey, error) {
		return func(context.Context) (*jose.JSONWebKey, error) { return s.key.PrivJWK(), nil }
	}
	must := func(k *kit.Case, v string, err error) string {
		if err != nil || v == "" {
			k.Fatal("home-refused", "%v", err)
		}
		return v
	}
	return []c39Use{
		{"jwt", func(k *kit.Case, s *c39Keyed) string {
			v, err := jwt.AccessTokenSigner(jose.SignatureAlgorithm(s.key.Alg), prov(s)).Serialize(ctx, map[string]any{"iss": "same", "jti": "same"})
			return must(k, v, err)
		}, func(k *kit.Case, o *c39Keyed, v string) bool {
			var cl map[string]any
			return o.ver.Claims(ctx, v, &cl) == nil && cl["jti"] == "same"
		}},
		{"jarm", func(k *kit.Case, s *c39Keyed) string {
			v, err := jarm.Encoder(jwt.JARMSigner(jose.SignatureAlgorithm(s.key.Alg), prov(s))).Encode(ctx, "https://same.example", &flowv1.AuthorizeResponse{ClientId: "c", Code: "code", State: "s", ExpiresIn: 60, Issuer: "https://same.example"})
			return must(k, v, err)
		}, func(k *kit.Case, o *c39Keyed, v string) bool {
			set := o.set
			_, err := jarm.Decoder("https://same.example", jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, allAlgs20())).Decode(ctx, "c", v)
			return err == nil
		}},
		{"request", func(k *kit.Case, s *c39Keyed) string {
			v, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.SignatureAlgorithm(s.key.Alg), prov(s))).Encode(ctx, &flowv1.AuthorizationRequest{ClientId: "c", Scope: "openid", State: "s"})
			return must(k, v, err)
		}, func(k *kit.Case, o *c39Keyed, v string) bool {
			set := o.set
			r, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, allAlgs20())).Decode(ctx, v)
			return err == nil && r.GetClientId() == "c"
		}},
		{"private_key_jwt", func(k *kit.Case, s *c39Keyed) string {
			now := time.Now().Unix()
			return kit.MakeJWS(map[string]any{"alg": s.key.Alg, "kid": "same"}, kit.J(map[string]any{"iss": s.cl.ClientId, "sub": s.cl.ClientId, "aud": "https://issuer.example/token", "exp": now + 100, "iat": now, "jti": kit.RandString(k.R, 12, kit.Alnum)}), s.key.Alg, s.key.Priv)
		}, authUse(kit.AssertJWT, func(o *c39Keyed) clientauthentication.AuthenticationProcessor { return o.pk })},
		{"attestation", func(k *kit.Case, s *c39Keyed) string {
			now := time.Now().Unix()
			inst := kit.NewKey("c39-inst", "ES256")
			a := kit.MakeJWS(map[string]any{"alg": "ES256", "kid": "same", "typ": "jwt-client-attestation+jwt"}, kit.J(map[string]any{"iss": s.cl.Contacts[0], "sub": s.cl.ClientId, "exp": now + 100, "iat": now, "cnf": map[string]any{"jwk": bareJWK(inst)}}), "ES256", s.att.Priv)
			p := kit.MakeJWS(map[string]any{"alg": "ES256", "typ": "jwt-client-attestation-pop+jwt"}, kit.J(map[string]any{"iss": s.cl.ClientId, "aud": "https://issuer.example", "exp": now + 100, "jti": kit.RandString(k.R, 12, kit.Alnum), "iat": now, "nonce": "n"}), "ES256", inst.Priv)
			return a + "~" + p
		}, authUse(kit.AssertAttest, func(o *c39Keyed) clientauthentication.AuthenticationProcessor { return o.aa })},
		{"verifiable", func(k *kit.Case, s *c39Keyed) string {
			v, err := verifiable.UUIDGenerator(verifiable.UUIDv4Source(), s.secret).Generate()
			return must(k, v, err)
		}, func(k *kit.Case, o *c39Keyed, v string) bool {
			return verifiable.UUIDVerifier(o.secret).Verify(v) == nil
		}},
	}
}

func c39KeyRound(k *kit.Case, ss []*c39Keyed) {
	ctx := context.Background()
	for _, u := range c39Uses() {
		i := k.R.Intn(2)
		s, o := ss[i], ss[1-i]
		va, vb := u.mk(k, s), u.mk(k, o)
		type step struct {
			at   *c39Keyed
			v    string
			want bool
		}
		steps := []step{{s, va, true}, {o, va, false}, {o, vb, true}, {s, vb, false}}
		k.R.Shuffle(len(steps), func(a, b int) { steps[a], steps[b] = steps[b], steps[a] })
		order := ""
		for _, st := range append(steps, steps[:2]...) {
			got := u.use(k, st.at, st.v)
			if st.want {
				k.Check(got, "home-refused", "%s refused at home (%s, order %s)", u.name, st.at.name, order)
				k.Event("home")
			} else {
				k.Check(!got, "foreign-accepted", "%s of another deployment accepted at %s after %s", u.name, st.at.name, order)
				k.Event("foreign")
			}
			order += map[bool]string{true: "h", false: "f"}[st.want] + st.at.name
			k.Eval(1)
		}
		k.AddSig(u.name + " " + order)
	}
	// one proof, two deployments: each accepts it once
	tok := ss[0].key.Token("dpop+jwt", map[string]any{"jti": kit.RandString(k.R, 12, kit.Alnum), "htm": "POST", "htu": "https://api.example/x", "iat": time.Now().Unix()}, map[string]any{"jwk": bareJWK(ss[0].key), "kid": nil})
	left := []*c39Keyed{ss[0], ss[1], ss[0], ss[1]}
	k.R.Shuffle(4, func(a, b int) { left[a], left[b] = left[b], left[a] })
	seen := map[string]bool{}
	for _, s := range left {
		th, err := s.proofs.Verify(ctx, "POST", "https://api.example/x", tok)
		k.Check((err == nil) == !seen[s.name] && (err != nil || th == ss[0].key.Thumb()), "proof", "proof at %s, seen there before: %v: %q %v", s.name, seen[s.name], th, err)
		seen[s.name] = true
		k.Event("proofs")
	}
	// pairwise identifiers
	a1, e1 := pairwise.Hash(ss[0].salt).Encode("https://sector.example", "subject")
	b1, e2 := pairwise.Hash(ss[1].salt).Encode("https://sector.example", "subject")
	a2, e3 := pairwise.Hash(ss[0].salt).Encode("https://sector.example", "subject")
	k.Check(e1 == nil && e2 == nil && e3 == nil && a1 == a2 && a1 != b1, "pairwise", "pairwise identifiers %q %q with one salt, %q with another (%v %v %v)", a1, a2, b1, e1, e2, e3)
	// provers sign with their own key
	var ths []string
	for _, s := range ss {
		p, err := dpop.DefaultProver(jwt.DPoPSigner(jose.SignatureAlgorithm(s.key.Alg), func(context.Context) (*jose.JSONWebKey, error) { return s.key.PrivJWK(), nil })).Prove("GET", "https://api.example/y")
		if !k.Check(err == nil, "home-refused", "prover: %v", err) {
			return
		}
		th, err := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.SignatureAlgorithm(s.key.Alg)})).Verify(ctx, "GET", "https://api.example/y", p)
		k.Check(err == nil && th == s.key.Thumb(), "prover", "proof of %s has key %q: %v", s.name, th, err)
		ths = append(ths, th)
	}
	k.Check(ths[0] != ths[1], "prover", "two provers, one key")
	// allowed algorithms
	set := ss[0].set
	fix := func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }
	yes, no := jwt.DefaultVerifier(fix, allAlgs20()), jwt.DefaultVerifier(fix, without(allAlgs20(), ss[0].key.Alg))
	at := ss[0].key.Token("at+jwt", map[string]any{"iss": "x"}, nil)
	var cl map[string]any
	for _, first := range kit.Pick(k.R, []bool{true, false, true}, []bool{false, true, false}) {
		if first {
			k.Check(yes.Claims(ctx, at, &cl) == nil, "home-refused", "allowed algorithm refused")
		} else {
			k.Check(no.Claims(ctx, at, &cl) != nil, "foreign-accepted", "algorithm not allowed accepted after another verifier allowed it")
		}
	}
}

func c39Keys(c *kit.Ctx) {
	c.Require("home", 300)
	c.Require("foreign", 300)
	c.Require("proofs", 100)
	for i := 0; i < c.N(60, 2500); i++ {
		c.Case(fmt.Sprintf("keys/%d", i), func(k *kit.Case) {
			ss := c39KeyedPair(k)
			for j := 0; j < 3; j++ {
				c39KeyRound(k, ss)
			}
		})
	}
}

func c39Race(c *kit.Ctx) {
	c.Require("home", 100)
	ctx := context.Background()
	for i := 0; i < c.N(5, 80); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			ss := c39Pair(k)
			iss := "https://issuer.example/a"
			keyed := c39KeyedPair(k)
			uses := c39Uses()
			made := map[string][]string{}
			for _, u := range uses {
				for _, s := range keyed {
					made[u.name] = append(made[u.name], u.mk(k, s))
				}
			}
			type job struct {
				ar *flowv1.AuthorizationRequest
				v  string
			}
			jobs := map[string][]job{}
			for _, s := range ss {
				for j := 0; j < 8; j++ {
					ar, v := kit.AuthReq(k.R, s.cl, s.scp)
					ar.Prompt = kit.Str("consent")
					jobs[s.name] = append(jobs[s.name], job{ar, v})
				}
			}
			var wg sync.WaitGroup
			for n := 0; n < 4; n++ {
				n, s := n, ss[n%2]
				k.Go(&wg, func() {
					for _, jb := range jobs[s.name][n/2*4 : n/2*4+4] {
						res, err := s.w.Code(ctx, iss, s.sub, s.cl, proto.Clone(jb.ar).(*flowv1.AuthorizationRequest))
						if !k.Check(err == nil, "home-refused", "authorize at %s: %v", s.name, err) {
							continue
						}
						tr, err := s.w.Token.Token(ctx, kit.CodeReq(iss, s.cl, res.Code, jb.ar.RedirectUri, jb.v))
						s.own(k, "code", tr, err)
						if tr.GetRefreshToken() == nil {
							continue
						}
						rr, err := s.w.Token.Token(ctx, kit.RefreshReq(iss, s.cl, tr.RefreshToken.Value))
						s.own(k, "refresh token", rr, err)
						for _, u := range uses {
							mine, other := made[u.name][n%2], made[u.name][1-n%2]
							k.Check(u.use(k, keyed[n%2], mine), "home-refused", "%s refused at home", u.name)
							k.Check(!u.use(k, keyed[n%2], other), "foreign-accepted", "%s of another deployment accepted", u.name)
						}
						k.Eval(1)
					}
				})
			}
			wg.Wait()
			k.Sig("race %d", i%7)
		})
	}
}
