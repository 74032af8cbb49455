package checks

import (
	"context"
	"errors"
	"fmt"

	"google.golang.org/protobuf/proto"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C13", Level: "exploration",
		Rule: "artifacts of every kind are created under one issuer and attacked under another: near misses of the issuer and every split of issuer+value (with and without separators) into another issuer and value; at storage level with the same value registered under both issuers, and through the services; afterwards the artifact must be fully usable under its own issuer; families: groups of issuers and of values which normalisations would confuse, all registered side by side; the same value presented under its own and other issuers at the same time, under random schedules of the storage calls. " +
			"Non-trivial: a distinct (artifact kind, operation, collision kind, split position).",
		Assumptions: []string{"issuers compare byte-wise"},
		Modes:       []kit.Mode{{Name: "storage", Bubble: true, Run: c13Storage}, {Name: "families", Bubble: true, Run: c13Families}, {Name: "service", Bubble: true, Run: c13Service}, {Name: "overlap", Bubble: true, Run: overlap("issuer", 1500, 60000)}, {Name: "race", Race: true, Run: c13Race}},
	})
}

type split struct{ iss, val, name string }

// splits lists other (issuer, value) pairs resembling (iss, v).
func splits(iss, v string) []split {
	var out []split
	add := func(n, i, x string) {
		if i != iss && x != "" {
			out = append(out, split{i, x, n})
		}
	}
	for _, n := range []int{1, 2, 3, 8, len(v) / 2, len(v) - 1} {
		if n > 0 && n < len(v) {
			add(fmt.Sprintf("move%d", n), iss+v[:n], v[n:])
			for _, sep := range []string{":", "|", "/", "#", " ", "\x00", "-", "."} {
				add(fmt.Sprintf("move%d%q", n, sep), iss+sep+v[:n], v[n:])
			}
		}
		if n > 0 && n < len(iss) {
			add(fmt.Sprintf("take%d", n), iss[:len(iss)-n], iss[len(iss)-n:]+v)
			for _, sep := range []string{":", "|", "/", "#"} {
				add(fmt.Sprintf("take%d%q", n, sep), iss[:len(iss)-n], iss[len(iss)-n:]+sep+v)
			}
		}
	}
	add("swap", v, iss)
	add("empty", "", iss+v)
	add("len", fmt.Sprintf("%d:%s", len(iss), iss), v)
	add("len2", fmt.Sprintf("%d", len(iss)), ":"+iss+v)
	for i, m := range kit.NearMisses(iss) {
		if m != "" {
			add(fmt.Sprintf("near%d", i), m, v)
		}
	}
	return out
}

func notFound(err error) bool { return errors.Is(err, storage.ErrNotFound) }

func c13Storage(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("isolated", 20000)
	s := kit.NewStores("verifiable")
	for i := 0; i < c.N(1500, 40000); i++ {
		c.Case(fmt.Sprintf("pairs/%d", i), func(k *kit.Case) {
			r := k.R
			iss, v := kit.Issuer(r), kit.RandString(r, 8+r.Intn(30), kit.Alnum+":-/.")
			if r.Intn(3) == 0 {
				iss = kit.Pick(r, "https://a.example", "a", "https://a.example/11:", "1:a", "https://例え.jp/", "https://a.example/\x00")
			}
			ar := &flowv1.AuthorizationRequest{State: v}
			cs := &sessionv1.AuthorizationCodeSession{Subject: v}
			dev := &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: v, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING, Scope: kit.Str(v)}
			tok := &tokenv1.Token{TokenId: v, Value: v, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Issuer: iss, Subject: v}}
			_, e1 := s.AuthReqs.Register(ctx, iss, v, ar)
			_, e2 := s.Codes.Register(ctx, iss, v, cs)
			_, e3 := s.Devices.Register(ctx, iss, v, dev)
			e4 := s.Tokens.Create(ctx, iss, tok)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				k.Fatal("register", "%v %v %v %v", e1, e2, e3, e4)
			}
			intact := func(what string) {
				g1, e1 := s.AuthReqs.Get(ctx, iss, v)
				k.Check(e1 == nil && proto.Equal(g1, ar), "own-request", "%s: request: %v", what, e1)
				g2, e2 := s.Codes.Get(ctx, iss, v)
				k.Check(e2 == nil && proto.Equal(g2, cs), "own-code", "%s: code: %v", what, e2)
				g3, e3 := s.Devices.GetByDeviceCode(ctx, iss, v)
				k.Check(e3 == nil && g3.GetScope() == v && g3.Subject == nil, "own-device", "%s: device: %v", what, e3)
				g4, e4 := s.Devices.GetByUserCode(ctx, iss, v)
				k.Check(e4 == nil && g4.GetScope() == v && g4.Subject == nil, "own-user", "%s: user code: %v", what, e4)
				g5, e5 := s.Tokens.Get(ctx, iss, v)
				k.Check(e5 == nil && g5.Status == tok.Status && proto.Equal(g5.Metadata, tok.Metadata), "own-token", "%s: token: %v", what, e5)
				g6, e6 := s.Tokens.GetByValue(ctx, iss, v)
				k.Check(e6 == nil && g6.Status == tok.Status && proto.Equal(g6.Metadata, tok.Metadata), "own-value", "%s: value: %v", what, e6)
			}
			for _, a := range splits(iss, v) {
				k.Sig("%s", a.name)
				_, e := s.AuthReqs.Get(ctx, a.iss, a.val)
				k.Check(notFound(e), "request-read", "%s: request visible: %v", a.name, e)
				e = s.AuthReqs.Delete(ctx, a.iss, a.val)
				k.Check(e != nil, "request-delete", "%s: request deleted", a.name)
				_, e = s.Codes.Get(ctx, a.iss, a.val)
				k.Check(notFound(e), "code-read", "%s: code visible: %v", a.name, e)
				e = s.Codes.Delete(ctx, a.iss, a.val)
				k.Check(e != nil, "code-delete", "%s: code deleted", a.name)
				_, e = s.Devices.GetByDeviceCode(ctx, a.iss, a.val)
				k.Check(notFound(e), "device-read", "%s: device visible: %v", a.name, e)
				_, e = s.Devices.GetByUserCode(ctx, a.iss, a.val)
				k.Check(notFound(e), "user-read", "%s: user code visible: %v", a.name, e)
				e = s.Devices.Validate(ctx, a.iss, a.val, &sessionv1.DeviceCodeSession{Issuer: a.iss, DeviceCode: a.val, Subject: kit.Str("evil"), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED})
				k.Check(e != nil, "device-validate", "%s: validated", a.name)
				_ = s.Devices.Delete(ctx, a.iss, a.val)
				_, e = s.Tokens.Get(ctx, a.iss, a.val)
				k.Check(notFound(e), "token-read", "%s: token visible: %v", a.name, e)
				_, e = s.Tokens.GetByValue(ctx, a.iss, a.val)
				k.Check(notFound(e), "value-read", "%s: token visible by value: %v", a.name, e)
				k.Check(s.Tokens.Revoke(ctx, a.iss, a.val) != nil, "token-revoke", "%s: revoked", a.name)
				k.Check(s.Tokens.Delete(ctx, a.iss, a.val) != nil, "token-delete", "%s: deleted", a.name)
				c.Event("isolated")
			}
			intact("after attacks")
			// the same value under another issuer is another artifact
			a := splits(iss, v)[r.Intn(len(splits(iss, v)))]
			o := a.iss
			_, _ = s.AuthReqs.Register(ctx, o, v, &flowv1.AuthorizationRequest{State: "other"})
			_, _ = s.Codes.Register(ctx, o, v, &sessionv1.AuthorizationCodeSession{Subject: "other"})
			_, _ = s.Devices.Register(ctx, o, v, &sessionv1.DeviceCodeSession{Issuer: o, DeviceCode: v, Status: dev.Status, Scope: kit.Str("other")})
			_ = s.Tokens.Create(ctx, o, &tokenv1.Token{TokenId: v, Value: v, Status: tok.Status, Metadata: &tokenv1.TokenMeta{Issuer: o, Subject: "other"}})
			intact("after a twin under " + o)
			g, e := s.Tokens.GetByValue(ctx, o, v)
			k.Check(e == nil && g.Metadata.Subject == "other", "twin", "twin token: %v", e)
			k.Check(s.AuthReqs.Delete(ctx, o, v) == nil && s.Codes.Delete(ctx, o, v) == nil && s.Tokens.Revoke(ctx, o, v) == nil, "twin", "twin not usable")
			k.Check(s.Devices.Validate(ctx, o, v, &sessionv1.DeviceCodeSession{Issuer: o, DeviceCode: v, Subject: kit.Str("bob"), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED}) == nil, "twin", "twin device not usable")
			_ = s.Devices.Delete(ctx, o, v)
			intact("after the twin was consumed")
			k.Check(s.Tokens.Delete(ctx, o, v) == nil, "twin", "twin not deletable")
			intact("after the twin was deleted")
		})
	}
}

// c13Families registers artifacts under confusable issuers and under confusable values: each stays its own, and an
// operation on one leaves the others alone.
func c13Families(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("isolated", 5000)
	for i := 0; i < c.N(20, 600); i++ {
		c.Case(fmt.Sprintf("families/%d", i), func(k *kit.Case) {
			r := k.R
			s := kit.NewStores("verifiable")
			for _, f := range kit.Families(r, kit.RandString(r, r.Intn(8), kit.Alnum)) {
				for _, by := range []string{"issuer", "value"} {
					type art struct {
						split
						id string
					}
					var all []art
					other := kit.RandString(r, 12, kit.Alnum)
					for j, m := range f.Members {
						if m == "" {
							continue
						}
						a := art{split{m, other, ""}, fmt.Sprint(j)}
						if by == "value" {
							a.iss, a.val = other, m
						}
						all = append(all, a)
						_, e1 := s.AuthReqs.Register(ctx, a.iss, a.val, &flowv1.AuthorizationRequest{State: a.id})
						_, e2 := s.Codes.Register(ctx, a.iss, a.val, &sessionv1.AuthorizationCodeSession{Subject: a.id})
						_, e3 := s.Devices.Register(ctx, a.iss, a.val, &sessionv1.DeviceCodeSession{Issuer: a.iss, DeviceCode: a.val, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING, Scope: kit.Str(a.id)})
						e4 := s.Tokens.Create(ctx, a.iss, &tokenv1.Token{TokenId: a.val, Value: a.val, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Issuer: a.iss, Subject: a.id}})
						if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
							k.Fatal("register", "%v %v %v %v", e1, e2, e3, e4)
						}
					}
					r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
					for j, a := range all {
						for l, b := range all {
							g1, e1 := s.AuthReqs.Get(ctx, b.iss, b.val)
							g2, e2 := s.Codes.Get(ctx, b.iss, b.val)
							g3, e3 := s.Devices.GetByDeviceCode(ctx, b.iss, b.val)
							g4, e4 := s.Devices.GetByUserCode(ctx, b.iss, b.val)
							g5, e5 := s.Tokens.Get(ctx, b.iss, b.val)
							g6, e6 := s.Tokens.GetByValue(ctx, b.iss, b.val)
							if l < j { // consumed
								k.Check(notFound(e1) && notFound(e2) && notFound(e4), "family", "%s by %s: %q/%q was consumed and still resolves: %v %v %v", f.Name, by, b.iss, b.val, e1, e2, e4)
								k.Check(e3 == nil && g3.GetSubject() == b.id, "family", "%s by %s: device of %q/%q approved by %v, %v", f.Name, by, b.iss, b.val, g3.GetSubject(), e3)
								k.Check(e5 == nil && e6 == nil && g5.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED && g6.Status == g5.Status, "family", "%s by %s: revoked token of %q/%q: %v %v", f.Name, by, b.iss, b.val, e5, e6)
								continue
							}
							k.Check(e1 == nil && g1.State == b.id, "family", "%s by %s: request of %q/%q: %v %v", f.Name, by, b.iss, b.val, g1, e1)
							k.Check(e2 == nil && g2.Subject == b.id, "family", "%s by %s: code of %q/%q: %v %v", f.Name, by, b.iss, b.val, g2, e2)
							k.Check(e3 == nil && e4 == nil && g3.GetScope() == b.id && g4.GetScope() == b.id && g3.Subject == nil, "family", "%s by %s: device of %q/%q: %v %v", f.Name, by, b.iss, b.val, e3, e4)
							k.Check(e5 == nil && e6 == nil && g5.Metadata.Subject == b.id && g6.Metadata.Subject == b.id && g5.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "family", "%s by %s: token of %q/%q: %v %v", f.Name, by, b.iss, b.val, e5, e6)
							c.Event("isolated")
						}
						e1, e2, e3 := s.AuthReqs.Delete(ctx, a.iss, a.val), s.Codes.Delete(ctx, a.iss, a.val), s.Tokens.Revoke(ctx, a.iss, a.val)
						e4 := s.Devices.Validate(ctx, a.iss, a.val, &sessionv1.DeviceCodeSession{Issuer: a.iss, DeviceCode: a.val, Subject: kit.Str(a.id), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED})
						e5 := s.Devices.Delete(ctx, a.iss, a.val)
						k.Check(e1 == nil && e2 == nil && e3 == nil && e4 == nil && e5 == nil, "family", "%s by %s: consuming %q/%q: %v %v %v %v %v", f.Name, by, a.iss, a.val, e1, e2, e3, e4, e5)
					}
					k.Sig("%s/%s", f.Name, by)
				}
			}
		})
	}
}

// c13Attack performs op on the artifact under another issuer; reports whether it did anything.
func c13Service(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("isolated", 3000)
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	for i := 0; i < c.N(1500, 40000); i++ {
		c.Case(fmt.Sprintf("service/%d", i), func(k *kit.Case) { c13One(k, w, ctx) })
	}
}

func c13One(k *kit.Case, w *kit.World, ctx context.Context) {
	r := k.R
	iss := kit.Issuer(r)
	cl := w.Client(nil)
	ar, v := kit.AuthReq(r, cl, "openid offline_access")
	code, err := w.Code(ctx, iss, "sub", cl, ar)
	if err != nil {
		k.Fatal("legit-refused", "authorize: %v", err)
	}
	ar2, v2 := kit.AuthReq(r, cl, "openid")
	par, err := w.Authz.Register(ctx, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar2)})
	if err != nil {
		k.Fatal("legit-refused", "par: %v", err)
	}
	dev, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid")})
	if err != nil {
		k.Fatal("legit-refused", "device: %v", err)
	}
	pair := refreshTokenOf(k, w, iss, "sub", cl, "openid offline_access", nil)
	approved := false
	for n := 0; n < 12; n++ {
		kind := kit.Pick(r, "code", "uri", "usercode", "devicecode", "introspect", "introspect-rt", "refresh", "exchange", "revoke", "revoke-rt")
		val := map[string]string{"code": code.Code, "uri": par.RequestUri, "usercode": dev.UserCode, "devicecode": dev.DeviceCode, "introspect": pair.AccessToken.Value,
			"introspect-rt": pair.RefreshToken.Value, "refresh": pair.RefreshToken.Value, "exchange": pair.AccessToken.Value, "revoke": pair.AccessToken.Value, "revoke-rt": pair.RefreshToken.Value}[kind]
		if kind == "devicecode" && !approved {
			if _, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "user", UserCode: dev.UserCode}); err != nil {
				k.Fail("legit-refused", "approval: %v", err)
			}
			approved = true
		}
		sp := splits(iss, val)
		a := sp[r.Intn(len(sp))]
		if r.Intn(3) == 0 {
			a = split{kit.Issuer(r), val, "fresh"}
		}
		did := false
		switch kind {
		case "code":
			res, err := w.Token.Token(ctx, kit.CodeReq(a.iss, cl, a.val, ar.RedirectUri, v))
			did = kit.Granted(res, err) || kit.HasToken(res)
		case "uri":
			res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: a.iss, Subject: "sub", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(a.val)}})
			did = err == nil || res.GetCode() != ""
		case "usercode":
			res, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: a.iss, Subject: "evil", UserCode: a.val})
			did = err == nil || res.GetError() == nil
		case "devicecode":
			res, err := w.Token.Token(ctx, kit.DeviceReq(a.iss, cl, a.val))
			did = kit.Granted(res, err) || kit.HasToken(res)
		case "introspect", "introspect-rt":
			res, err := w.Introspect(ctx, a.iss, cl, a.val)
			did = err == nil && (res.Token.Status != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || res.Token.Metadata != nil)
		case "refresh":
			res, err := w.Token.Token(ctx, kit.RefreshReq(a.iss, cl, a.val))
			did = kit.Granted(res, err) || kit.HasToken(res)
		case "exchange":
			res, err := w.Token.Token(ctx, kit.ExchangeReq(a.iss, cl, a.val, nil, nil))
			did = kit.Granted(res, err) || kit.HasToken(res)
		case "revoke", "revoke-rt":
			_, err := w.Revoke(ctx, a.iss, cl, a.val)
			did = err == nil
		}
		k.Log("%s under %q value %q -> %v", kind, a.iss, a.val, did)
		k.Sig("%s %s", kind, a.name)
		k.Check(!did, "crossed-"+kind, "%s worked under issuer %q value %q (issued under %q value %q)", kind, a.iss, a.val, iss, val)
		k.Event("isolated")
	}
	// everything still works at home
	if !approved {
		_, err = w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "user", UserCode: dev.UserCode})
		k.Check(err == nil, "own-user", "approval refused at home: %v", err)
	}
	res, err := w.Token.Token(ctx, kit.DeviceReq(iss, cl, dev.DeviceCode))
	k.Check(kit.Granted(res, err) && res.AccessToken.Metadata.Subject == "user", "own-device", "device code at home: %v %s", err, kit.Brief(res))
	res, err = w.Token.Token(ctx, kit.CodeReq(iss, cl, code.Code, ar.RedirectUri, v))
	k.Check(kit.Granted(res, err), "own-code", "code refused at home: %v", err)
	az, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "sub", Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(par.RequestUri)}})
	if k.Check(err == nil && az.GetCode() != "", "own-request", "request_uri refused at home: %v", err) {
		res, err = w.Token.Token(ctx, kit.CodeReq(iss, cl, az.Code, ar2.RedirectUri, v2))
		k.Check(kit.Granted(res, err), "own-request", "code of the pushed request refused: %v", err)
	}
	for _, t := range []*tokenv1.Token{pair.AccessToken, pair.RefreshToken} {
		ir, err := w.Introspect(ctx, iss, cl, t.Value)
		truth(k, "at home", ir, err, &ledgerTok{tok: t})
	}
	res, err = w.Token.Token(ctx, kit.RefreshReq(iss, cl, pair.RefreshToken.Value))
	k.Check(kit.Granted(res, err), "own-refresh", "refresh refused at home: %v", err)
	res, err = w.Token.Token(ctx, kit.ExchangeReq(iss, cl, pair.AccessToken.Value, nil, nil))
	k.Check(kit.Granted(res, err), "own-exchange", "exchange refused at home: %v", err)
	_, err = w.Revoke(ctx, iss, cl, pair.AccessToken.Value)
	k.Check(err == nil, "own-revoke", "revocation refused at home: %v", err)
	k.Event("home_verified")
}

// c13Race: tenants work side by side on shared services.
func c13Race(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), nil)
	for i := 0; i < c.N(40, 2000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			var tasks []func(context.Context)
			for g := 0; g < 6; g++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				tasks = append(tasks, func(ctx context.Context) { c13One(sub, w, ctx) })
			}
			runParallel(k, tasks)
			k.Sig("%d", i)
		})
	}
	c.Require("home_verified", 100)
}

var _ = clientv1.Client{}
