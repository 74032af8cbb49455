package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C41", Level: "exploration",
		Rule: "random operations of several clients over one server; after an operation the caller overwrites every field of the request it passed and of the answer it got (in place, nested objects and list elements included), or keeps both. " +
			"Oracles: everything stored under the codes, request uris, device codes, user codes and tokens known so far reads the same before and after the overwriting; what was kept from earlier operations reads the same after each later one; the records of clients and resources never change; each flow goes on with what was asked. Requests of the token and device endpoints, and the inputs of generators, encoders and authenticators, are not modified; the race detector watches callers which overwrite their objects while others use what was stored. Distinct by (operations so far, overwritten or kept).",
		Assumptions: []string{"client records handed out by a client registry or named in a request are not overwritten", "objects read directly from a storage are not overwritten", "the authorization service may complete the authorization request it is given"},
		Modes:       []kit.Mode{{Name: "owned", Run: c41Owned}, {Name: "inputs", Run: c41Inputs}, {Name: "race", Race: true, Run: c41Race}},
	})
}

// c41Scramble overwrites everything in m, in place.
func c41Scramble(m protoreflect.Message) {
	if !m.IsValid() {
		return
	}
	var fds []protoreflect.FieldDescriptor
	m.Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool { fds = append(fds, fd); return true })
	one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
		switch fd.Kind() {
		case protoreflect.StringKind:
			return protoreflect.ValueOfString("overwritten " + v.String())
		case protoreflect.BytesKind:
			b := v.Bytes()
			for i := range b {
				b[i] ^= 0x55
			}
			return v
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(!v.Bool())
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(v.Enum() + 1)
		case protoreflect.Uint64Kind:
			return protoreflect.ValueOfUint64(v.Uint() + 12345)
		case protoreflect.Int64Kind:
			return protoreflect.ValueOfInt64(v.Int() + 12345)
		case protoreflect.Uint32Kind:
			return protoreflect.ValueOfUint32(uint32(v.Uint()) + 12345)
		case protoreflect.Int32Kind:
			return protoreflect.ValueOfInt32(int32(v.Int()) + 12345)
		case protoreflect.MessageKind:
			c41Scramble(v.Message())
		}
		return v
	}
	for _, fd := range fds {
		if fd.Message() != nil && !fd.IsMap() && fd.Message().Name() == "Client" {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			mp.Range(func(key protoreflect.MapKey, v protoreflect.Value) bool {
				mp.Set(key, one(fd.MapValue(), v))
				return true
			})
		case fd.IsList():
			l := m.Mutable(fd).List()
			for i := 0; i < l.Len(); i++ {
				l.Set(i, one(fd, l.Get(i)))
			}
		case fd.Kind() == protoreflect.MessageKind:
			c41Scramble(m.Mutable(fd).Message())
		default:
			m.Set(fd, one(fd, m.Get(fd)))
		}
	}
}

// c41Tweak changes one string of m.
func c41Tweak(k *kit.Case, m protoreflect.Message) {
	type slot struct {
		m  protoreflect.Message
		fd protoreflect.FieldDescriptor
	}
	var slots []slot
	var walk func(m protoreflect.Message)
	walk = func(m protoreflect.Message) {
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsMap() || fd.IsList():
			case fd.Kind() == protoreflect.StringKind:
				slots = append(slots, slot{m, fd})
			case fd.Kind() == protoreflect.MessageKind && fd.Message().Name() != "Client":
				walk(v.Message())
			}
			return true
		})
	}
	walk(m)
	if len(slots) == 0 {
		return
	}
	x := kit.Pick(k.R, slots...)
	v := x.m.Get(x.fd).String()
	x.m.Set(x.fd, protoreflect.ValueOfString(kit.Pick(k.R, " "+v+" ", v+"\n", strings.ToUpper(v), strings.ToLower(v), "", v+" "+v, v+"/", "é"+v)))
}

// c41Watch is an object whose content must not change.
type c41Watch struct {
	name string
	get  func() (proto.Message, error)
	want proto.Message
	err  error
}

type c41Mon struct {
	k      *kit.Case
	w      *kit.World
	iss    string
	stored []*c41Watch
	kept   []*c41Watch
	fixed  []*c41Watch
	ops    string
}

func (m *c41Mon) store(name string, get func() (proto.Message, error)) {
	m.stored = append(m.stored, &c41Watch{name: name, get: get})
}

// record watches the registration of a client or resource.
func (m *c41Mon) record(name string, get func() (proto.Message, error)) {
	x := &c41Watch{name: name, get: get}
	if x.want, x.err = x.read(); x.err != nil {
		m.k.Fatal("setup", "%s: %v", name, x.err)
	}
	m.fixed = append(m.fixed, x)
}

func (m *c41Mon) client(cl *clientv1.Client) {
	m.record("client record", func() (proto.Message, error) {
		return m.w.Raw.Clients.Get(context.Background(), cl.ClientId)
	})
}

func (m *c41Mon) tokens(r *flowv1.TokenResponse) {
	for _, t := range []*tokenv1.Token{r.GetAccessToken(), r.GetRefreshToken()} {
		if t == nil {
			continue
		}
		id, v := t.TokenId, t.Value
		m.store("token by id", func() (proto.Message, error) { return m.w.Raw.Tokens.Get(context.Background(), m.iss, id) })
		m.store("token by value", func() (proto.Message, error) { return m.w.Raw.Tokens.GetByValue(context.Background(), m.iss, v) })
	}
}

func (w *c41Watch) read() (proto.Message, error) {
	x, err := w.get()
	if err != nil {
		return nil, err
	}
	return proto.Clone(x), nil
}

// done is called when an operation has returned: what is kept has not changed, what is stored survives the overwriting.
func (m *c41Mon) done(op string, objs ...proto.Message) {
	k := m.k
	k.Event("operations")
	for _, o := range m.fixed {
		now, err := o.read()
		k.Event("records")
		k.Check(err == nil && proto.Equal(now, o.want), "record-changed", "%s changed by %s: %v %s, was %s", o.name, op, err, kit.Brief(now), kit.Brief(o.want))
	}
	for _, o := range m.kept {
		now, _ := o.read()
		k.Check(proto.Equal(now, o.want), "kept-changed", "%s changed by a later %s: %s, was %s", o.name, op, kit.Brief(now), kit.Brief(o.want))
	}
	if len(m.kept) > 12 {
		m.kept = m.kept[len(m.kept)-12:]
	}
	if k.R.Intn(3) == 0 {
		for i, o := range objs {
			o := o
			m.kept = append(m.kept, &c41Watch{name: fmt.Sprintf("object %d of %s", i, op), get: func() (proto.Message, error) { return o, nil }, want: proto.Clone(o)})
		}
		m.ops += "k"
		k.Event("kept")
		return
	}
	m.ops += "o"
	for _, s := range m.stored {
		s.want, s.err = s.read()
	}
	for _, o := range objs {
		if o.ProtoReflect().IsValid() {
			c41Scramble(o.ProtoReflect())
			k.Event("overwritten")
		}
	}
	for _, s := range m.stored {
		now, err := s.read()
		k.Event("readings")
		k.Check((err == nil) == (s.err == nil), "stored-lost", "%s after the caller of %s overwrote its objects: %v, before %v", s.name, op, err, s.err)
		if err == nil && s.err == nil {
			k.Event("found")
			k.Check(proto.Equal(now, s.want), "stored-changed", "%s changed when the caller of %s overwrote its objects: %s, was %s", s.name, op, kit.Brief(now), kit.Brief(s.want))
		}
	}
	// what is no longer there is forgotten
	live := m.stored[:0]
	for _, s := range m.stored {
		if s.err == nil {
			live = append(live, s)
		}
	}
	if m.stored = live; len(m.stored) > 40 {
		m.stored = m.stored[len(m.stored)-40:]
	}
	k.AddSig(op)
}

// same checks that an operation left its request as it was.
func (m *c41Mon) same(op string, req, was proto.Message) {
	m.k.Event("inputs")
	m.k.Check(proto.Equal(req, was), "request-changed", "%s changed its request: %s, was %s", op, kit.Brief(req), kit.Brief(was))
}

// c41Flow is one client going through the flows, one operation at a time.
func c41Flow(m *c41Mon, cl *clientv1.Client) []func() {
	k, w, iss := m.k, m.w, m.iss
	bg := context.Background()
	sub := "u-" + kit.RandString(k.R, 5, kit.Alnum)
	ar, v := kit.AuthReq(k.R, cl, "openid offline_access "+kit.RandString(k.R, 4, kit.Alnum))
	ar.Prompt = kit.Str("consent")
	redirect, scope := ar.RedirectUri, ar.Scope
	cnf := func(r *flowv1.TokenRequest, jkt string) *flowv1.TokenRequest {
		r.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
		return r
	}
	jkt := kit.RandString(k.R, 43, kit.Alnum)
	var code, uri, at, rt, dc, uc string
	pushed := k.R.Intn(2) == 0
	var out []func()
	step := func(f func()) { out = append(out, f) }
	tok := func(op, wantSub string, mk func() *flowv1.TokenRequest) {
		step(func() {
			req := mk()
			was := proto.Clone(req)
			res, err := w.Token.Token(bg, req)
			m.same(op, req, was)
			odd := kit.Clone(req)
			c41Tweak(k, odd.ProtoReflect())
			oddWas := proto.Clone(odd)
			_, _ = w.Token.Token(bg, odd)
			m.same("odd "+op, odd, oddWas)
			if !k.Check(kit.Granted(res, err), "refused", "%s refused: %v %s", op, err, kit.ErrOf(res)) {
				k.Fatal("refused", "%s", op)
			}
			md := res.AccessToken.Metadata
			k.Check(md.GetSubject() == wantSub, "wrong-subject", "%s: subject %q instead of %q", op, md.GetSubject(), wantSub)
			k.Check(md.GetClientId() == cl.ClientId, "wrong-client", "%s: client %q instead of %q", op, md.GetClientId(), cl.ClientId)
			if op == "code" || op == "refresh" {
				k.Check(md.GetScope() == scope, "wrong-scope", "%s: scope %q instead of %q", op, md.GetScope(), scope)
			}
			k.Check(res.AccessToken.GetConfirmation().GetJkt() == jkt, "wrong-key", "%s: bound to %q instead of %q", op, res.AccessToken.GetConfirmation().GetJkt(), jkt)
			k.Event("granted")
			at = res.AccessToken.Value
			if res.RefreshToken != nil {
				rt = res.RefreshToken.Value
			}
			m.tokens(res)
			m.done(op, req, res)
		})
	}
	if pushed {
		step(func() {
			req := &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar}
			res, err := w.Authz.Register(bg, req)
			if err != nil {
				k.Fatal("refused", "push: %v", err)
			}
			uri = res.RequestUri
			u := uri
			m.store("pushed request", func() (proto.Message, error) { return w.Raw.AuthReqs.Get(bg, iss, u) })
			m.done("push", req, res)
		})
	}
	step(func() {
		r := ar
		if pushed {
			u := uri
			r = &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: &u}
		}
		req := &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Client: cl, Request: r}
		res, err := w.Authz.Authorize(bg, req)
		if err != nil {
			k.Fatal("refused", "authorize: %v", err)
		}
		k.Check(res.RedirectUri == redirect, "wrong-redirect", "authorize: redirect %q instead of %q", res.RedirectUri, redirect)
		code = res.Code
		cc := code
		m.store("code session", func() (proto.Message, error) { return w.Raw.Codes.Get(bg, iss, cc) })
		m.done("authorize", req, res)
	})
	tok("code", sub, func() *flowv1.TokenRequest { return cnf(kit.CodeReq(iss, cl, code, redirect, v), jkt) })
	look := func() {
		step(func() {
			req := &tokenv1.IntrospectRequest{Issuer: iss, Client: cl, Token: at}
			was := proto.Clone(req)
			res, err := w.Token.Introspect(bg, req)
			m.same("introspect", req, was)
			odd := kit.Clone(req)
			c41Tweak(k, odd.ProtoReflect())
			was = proto.Clone(odd)
			_, _ = w.Token.Introspect(bg, odd)
			m.same("odd introspect", odd, was)
			k.Check(err == nil && res.GetToken().GetStatus() == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "not-active", "introspection: %v %v", err, res)
			m.done("introspect", req, res)
		})
	}
	look()
	tok("refresh", sub, func() *flowv1.TokenRequest { return cnf(kit.RefreshReq(iss, cl, rt), jkt) })
	look()
	tok("refresh", sub, func() *flowv1.TokenRequest { return cnf(kit.RefreshReq(iss, cl, rt), jkt) })
	step(func() {
		req := &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str(scope), Audience: kit.Str("https://api.example/")}
		was := proto.Clone(req)
		res, err := w.Device.Authorize(bg, req)
		if err != nil {
			k.Fatal("refused", "device authorize: %v", err)
		}
		m.same("device authorize", req, was)
		odd := kit.Clone(req)
		c41Tweak(k, odd.ProtoReflect())
		oddWas := proto.Clone(odd)
		_, _ = w.Device.Authorize(bg, odd)
		m.same("odd device authorize", odd, oddWas)
		dc, uc = res.DeviceCode, res.UserCode
		d, u := dc, uc
		m.store("device session", func() (proto.Message, error) { return w.Raw.Devices.GetByDeviceCode(bg, iss, d) })
		m.store("user code session", func() (proto.Message, error) { return w.Raw.Devices.GetByUserCode(bg, iss, u) })
		m.done("device authorize", req, res)
	})
	step(func() {
		req := &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: sub, UserCode: uc}
		was := proto.Clone(req)
		res, err := w.Device.Validate(bg, req)
		if err != nil {
			k.Fatal("refused", "device validate: %v", err)
		}
		m.same("device validate", req, was)
		odd := kit.Clone(req)
		c41Tweak(k, odd.ProtoReflect())
		oddWas := proto.Clone(odd)
		_, _ = w.Device.Validate(bg, odd)
		m.same("odd device validate", odd, oddWas)
		m.done("device validate", req, res)
	})
	tok("device", sub, func() *flowv1.TokenRequest { return cnf(kit.DeviceReq(iss, cl, dc), jkt) })
	tok("exchange", sub, func() *flowv1.TokenRequest {
		return cnf(kit.ExchangeReq(iss, cl, at, nil, kit.Str(kit.ResBackend)), jkt)
	})
	look()
	tok("credentials", cl.ClientId, func() *flowv1.TokenRequest {
		return cnf(kit.CCReq(iss, cl, kit.Str("read"), kit.Str("https://api.example/")), jkt)
	})
	look()
	step(func() {
		req := &tokenv1.RevokeRequest{Issuer: iss, Client: cl, Token: at}
		was := proto.Clone(req)
		res, err := w.Token.Revoke(bg, req)
		k.Check(err == nil, "refused", "revoke: %v", err)
		m.same("revoke", req, was)
		odd := kit.Clone(req)
		c41Tweak(k, odd.ProtoReflect())
		oddWas := proto.Clone(odd)
		_, _ = w.Token.Revoke(bg, odd)
		m.same("odd revoke", odd, oddWas)
		m.done("revoke", req, res)
	})
	step(func() {
		req := &tokenv1.IntrospectRequest{Issuer: iss, Client: cl, Token: at}
		res, err := w.Token.Introspect(bg, req)
		k.Check(err == nil && res.GetToken().GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "active", "introspection after revocation: %v %v", err, res)
		m.done("introspect revoked", req, res)
		k.Event("flows")
	})
	return out
}

func c41Owned(c *kit.Ctx) {
	c.Require("overwritten", 2000)
	c.Require("kept", 500)
	c.Require("found", 5000)
	c.Require("flows", 100)
	c.Require("records", 5000)
	for i := 0; i < c.N(120, 4000); i++ {
		c.Case(fmt.Sprintf("owned/%d", i), func(k *kit.Case) {
			w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque")), nil)
			m := &c41Mon{k: k, w: w, iss: kit.Issuer(k.R)}
			var fl [][]func()
			for j := 0; j < 3; j++ {
				cl := w.Client(nil)
				m.client(cl)
				fl = append(fl, c41Flow(m, cl))
			}
			m.record("resource record", func() (proto.Message, error) {
				return w.Raw.Resources.GetByURI(context.Background(), kit.ResBackend)
			})
			for len(fl) > 0 {
				n := k.R.Intn(len(fl))
				fl[n][0]()
				k.Eval(1)
				if fl[n] = fl[n][1:]; len(fl[n]) == 0 {
					fl = append(fl[:n], fl[n+1:]...)
				}
			}
			k.AddSig(m.ops)
		})
	}
}

// c41Comp is a component and the object it is given.
type c41Comp struct {
	name string
	in   proto.Message
	f    func() error
}

func c41Comps(k *kit.Case, key *kit.Key) []c41Comp {
	bg := context.Background()
	prov := func(context.Context) (*jose.JSONWebKey, error) { return key.PrivJWK(), nil }
	now := uint64(time.Now().Unix())
	mk := func() *tokenv1.Token {
		t := &tokenv1.Token{TokenId: kit.RandString(k.R, 12, kit.Alnum), Issuer: "https://i.example", Value: "v", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
			Metadata: &tokenv1.TokenMeta{Issuer: "https://i.example", Subject: "s", Audience: kit.Pick(k.R, "a", "a b"), ClientId: "c", Scope: kit.Pick(k.R, "x", "x  y", "y x", " x "), IssuedAt: now, NotBefore: now + uint64(k.R.Intn(2)), ExpiresAt: now + uint64(100+k.R.Intn(7000))}}
		if k.R.Intn(2) == 0 {
			t.Confirmation = &tokenv1.TokenConfirmation{Jkt: "abc"}
		}
		return t
	}
	var out []c41Comp
	add := func(name string, in proto.Message, f func() error) { out = append(out, c41Comp{name, in, f}) }
	gen := func(name string, g token.Generator) {
		t := mk()
		add(name, t, func() error { _, err := g.Generate(bg, t); return err })
	}
	gen("jwt access token", token.AccessToken(jwt.AccessTokenSigner(jose.ES256, prov)))
	gen("jwt refresh token", token.RefreshToken(jwt.RefreshTokenSigner(jose.ES256, prov)))
	gen("jwt introspection", token.Introspection(jwt.TokenIntrospection(jose.ES256, prov)))
	gen("cwt access token", token.AccessToken(cwt.AccessTokenSigner(cose.ES256, prov)))
	gen("cwt refresh token", token.RefreshToken(cwt.RefreshTokenSigner(cose.ES256, prov)))
	gen("cwt introspection", token.Introspection(cwt.TokenIntrospection(cose.ES256, prov)))
	gen("opaque", token.OpaqueToken())
	resp := &flowv1.AuthorizeResponse{ClientId: "c", Code: "code", State: "s", ExpiresIn: 60, Issuer: "https://i.example", RedirectUri: "https://c.example/cb", ResponseMode: "query.jwt"}
	if k.R.Intn(2) == 0 {
		resp.Issuer, resp.ResponseMode = "", ""
	}
	if k.R.Intn(4) == 0 {
		resp.Error = &corev1.Error{Err: "access_denied"}
	}
	add("jarm encode", resp, func() error {
		_, err := jarm.Encoder(jwt.JARMSigner(jose.ES256, prov)).Encode(bg, "https://i.example", resp)
		return err
	})
	cl := &clientv1.Client{ClientId: "c", RedirectUris: []string{"https://c.example/cb"}}
	ar, _ := kit.AuthReq(k.R, cl, "openid")
	kit.Decorate(k.R, ar)
	ar.Scope = kit.Pick(k.R, "openid", " openid  email ", "b a openid")
	if k.R.Intn(2) == 0 {
		ar.State, ar.Nonce, ar.Prompt, ar.ResponseMode = "", "", nil, nil
	}
	add("request encode", ar, func() error {
		_, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, prov)).Encode(bg, ar)
		return err
	})
	w := kit.NewWorld(kit.NewStores(""), nil)
	rc := w.Client(func(c *clientv1.Client) { c.Jwks = kit.JWKS(key.JWK()) })
	typ := kit.AssertJWT
	as := kit.MakeJWS(map[string]any{"alg": "ES256", "kid": key.Kid}, kit.J(map[string]any{"iss": rc.ClientId, "sub": rc.ClientId, "aud": "https://i.example/token", "exp": int64(now) + 100, "iat": int64(now), "jti": kit.RandString(k.R, 12, kit.Alnum)}), "ES256", key.Priv)
	areq := &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &as}
	auth := func(name string, in proto.Message, f func() error) {
		add(name, in, f)
		rec, err := w.Raw.Clients.Get(bg, rc.ClientId)
		if err != nil {
			k.Fatal("setup", "%v", err)
		}
		add(name+" (client record)", rec, f)
	}
	auth("private_key_jwt", areq, func() error {
		_, err := clientauthentication.PrivateKeyJWT(w.S.Clients, allAlgs20()).Authenticate(bg, areq)
		return err
	})
	typ2 := kit.AssertAttest
	inst := kit.NewKey("c41-inst", "ES256")
	cm := func() map[string]any {
		return map[string]any{"iss": rc.ClientId, "sub": rc.ClientId, "aud": "https://i.example/token", "exp": now + 100, "iat": now, "jti": kit.RandString(k.R, 12, kit.Alnum), "nonce": "n"}
	}
	a := cm()
	a["cnf"] = map[string]any{"jwk": bareJWK(inst)}
	delete(a, "aud")
	as2 := kit.MakeJWS(map[string]any{"alg": "ES256", "kid": key.Kid, "typ": "jwt-client-attestation+jwt"}, kit.J(a), "ES256", key.Priv) + "~" +
		kit.MakeJWS(map[string]any{"alg": "ES256", "typ": "jwt-client-attestation-pop+jwt"}, kit.J(cm()), "ES256", inst.Priv)
	areq2 := &clientv1.AuthenticateRequest{ClientAssertionType: &typ2, ClientAssertion: &as2}
	auth("attestation", areq2, func() error {
		_, err := clientauthentication.ClientAttestation(w.S.Clients, allAlgs20()).Authenticate(bg, areq2)
		return err
	})
	return out
}

func c41Inputs(c *kit.Ctx) {
	key := kit.NewKey("c41", "ES256")
	c.Require("inputs", 800)
	for i := 0; i < c.N(100, 3000); i++ {
		c.Case(fmt.Sprintf("inputs/%d", i), func(k *kit.Case) {
			for _, x := range c41Comps(k, key) {
				was := proto.Clone(x.in)
				err := x.f()
				k.Check(err == nil, "refused", "%s: %v", x.name, err)
				k.Event("inputs")
				k.Eval(1)
				k.Check(proto.Equal(x.in, was), "input-changed", "%s changed its input: %s, was %s", x.name, kit.Brief(x.in), kit.Brief(was))
				k.AddSig(x.name)
			}
		})
	}
}

// c41Race: callers overwrite their objects while others use what was stored.
func c41Race(c *kit.Ctx) {
	key := kit.NewKey("c41", "ES256")
	c.Require("overwritten", 500)
	c.Require("granted", 120)
	bg := context.Background()
	for i := 0; i < c.N(60, 1500); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			w := kit.NewWorld(kit.NewStores(kit.Pick(k.R, "", "jwt", "opaque")), nil)
			iss := kit.Issuer(k.R)
			cl := w.Client(nil)
			var wg sync.WaitGroup
			over := func(ms ...proto.Message) {
				k.Go(&wg, func() {
					for _, x := range ms {
						c41Scramble(x.ProtoReflect())
						k.Event("overwritten")
					}
				})
			}
			ar, v := kit.AuthReq(k.R, cl, "openid offline_access")
			ar.Prompt = kit.Str("consent")
			redirect := ar.RedirectUri
			preq := &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: ar}
			pres, err := w.Authz.Register(bg, preq)
			if err != nil {
				k.Fatal("refused", "push: %v", err)
			}
			uri := pres.RequestUri
			over(preq, pres)
			areq := &flowv1.AuthorizeRequest{Issuer: iss, Subject: "u", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: &uri}}
			ares, err := w.Authz.Authorize(bg, areq)
			if err != nil {
				k.Fatal("refused", "authorize: %v", err)
			}
			code := ares.Code
			over(areq, ares)
			treq := kit.CodeReq(iss, cl, code, redirect, v)
			tres, err := w.Token.Token(bg, treq)
			if !kit.Granted(tres, err) {
				k.Fatal("refused", "code: %v %s", err, kit.ErrOf(tres))
			}
			k.Event("granted")
			at, rt := tres.AccessToken.Value, tres.RefreshToken.Value
			over(treq, tres)
			for g := 0; g < 3; g++ {
				k.Go(&wg, func() {
					res, err := w.Introspect(bg, iss, cl, at)
					k.Check(err == nil && res.GetToken().GetMetadata().GetSubject() == "u", "wrong-subject", "introspection: %v %v", err, res)
					c41Scramble(res.ProtoReflect())
					k.Event("overwritten")
				})
			}
			k.Go(&wg, func() {
				res, err := w.Token.Token(bg, kit.RefreshReq(iss, cl, rt))
				if k.Check(kit.Granted(res, err), "refused", "refresh: %v %s", err, kit.ErrOf(res)) {
					k.Event("granted")
					k.Check(res.AccessToken.Metadata.GetSubject() == "u", "wrong-subject", "refresh: %v", res)
					c41Scramble(res.ProtoReflect())
					k.Event("overwritten")
				}
			})
			k.Go(&wg, func() {
				res, err := w.Token.Token(bg, kit.ExchangeReq(iss, cl, at, nil, kit.Str(kit.ResBackend)))
				if k.Check(kit.Granted(res, err), "refused", "exchange: %v %s", err, kit.ErrOf(res)) {
					k.Event("granted")
					c41Scramble(res.ProtoReflect())
				}
			})
			// one object read by several components at once
			for _, x := range c41Comps(k, key) {
				for g := 0; g < 2; g++ {
					k.Go(&wg, func() { k.Check(x.f() == nil, "refused", "%s refused", x.name) })
				}
			}
			wg.Wait()
			k.Sig("race %d", i)
			k.Eval(1)
		})
	}
}
