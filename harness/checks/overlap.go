package checks

import (
	"context"
	"fmt"
	"strings"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// ovTask is a request in flight together with others; it is judged on its own context only.
type ovTask struct {
	name string
	want int // 1 must succeed, 0 must not, -1 is not judged
	run  func(ctx context.Context) bool
}

// overlap runs requests that present the same credential, from its own context and from foreign ones, at the same time:
// whatever the interleaving, what one of them obtains must not depend on the others being in flight.
func overlap(foreign string, quick, thorough int) func(c *kit.Ctx) {
	return func(c *kit.Ctx) {
		if foreign != "code" {
			c.Require("own_served", 300)
		}
		c.Require("foreign_refused", 600)
		w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
		for i := 0; i < c.N(quick, thorough); i++ {
			c.Case(fmt.Sprintf("overlap/%d", i), func(k *kit.Case) {
				kind := kit.Pick(k.R, "code", "uri", "usercode", "devicecode", "introspect", "introspect-rt", "refresh", "exchange", "revoke", "revoke-rt")
				if foreign == "token" {
					kind = kit.Pick(k.R, "introspect", "introspect-rt")
				} else if foreign == "code" || foreign == "refresh" || foreign == "exchange" {
					kind = foreign
				}
				tasks := ovTasks(k, w, foreign, kind)
				k.R.Shuffle(len(tasks), func(a, b int) { tasks[a], tasks[b] = tasks[b], tasks[a] })
				got := make([]bool, len(tasks))
				var fns []func(context.Context)
				for n, t := range tasks {
					fns = append(fns, func(ctx context.Context) { got[n] = t.run(ctx) })
				}
				var ch kit.Chooser = &kit.RandomChooser{R: k.R}
				if k.R.Intn(2) == 0 {
					ch = &kit.PCTChooser{R: k.R, D: 2, Steps: 20}
				}
				s := k.RunTasks(ch, fns...)
				var names []string
				for n, t := range tasks {
					names = append(names, t.name)
					switch t.want {
					case 1:
						k.Check(got[n], "own-refused", "%s: %s was refused while %v were in flight (schedule %s)", kind, t.name, names, s)
						c.Event("own_served")
					case 0:
						k.Check(!got[n], "foreign-served", "%s: %s was served while its owner's request was in flight (schedule %s)", kind, t.name, s)
						c.Event("foreign_refused")
					}
				}
				k.Sig("%s|%s", kind, s)
			})
		}
	}
}

func ovTasks(k *kit.Case, w *kit.World, foreign, kind string) []ovTask {
	bg := context.Background()
	r := k.R
	iss, sub := kit.Issuer(r), "sub-"+kit.RandString(r, 6, kit.Alnum)
	cl, other := w.Client(nil), w.Client(nil)
	ar, v := kit.AuthReq(r, cl, "openid offline_access")
	var val string
	var pair *flowv1.TokenResponse
	switch kind {
	case "code":
		res, err := w.Code(bg, iss, sub, cl, ar)
		if err != nil {
			k.Fatal("legit-refused", "authorize: %v", err)
		}
		val = res.Code
	case "uri":
		res, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: kit.Clone(ar)})
		if err != nil {
			k.Fatal("legit-refused", "par: %v", err)
		}
		val = res.RequestUri
	case "usercode", "devicecode":
		res, err := w.Device.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: cl.ClientId, Scope: kit.Str("openid")})
		if err != nil {
			k.Fatal("legit-refused", "device: %v", err)
		}
		val = res.UserCode
		if kind == "devicecode" {
			val = res.DeviceCode
			if _, err := w.Device.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: sub, UserCode: res.UserCode}); err != nil {
				k.Fatal("legit-refused", "approval: %v", err)
			}
		}
	default:
		pair = refreshTokenOf(k, w, iss, sub, cl, "openid offline_access", nil)
		val = pair.AccessToken.Value
		if kind == "refresh" || strings.HasSuffix(kind, "-rt") {
			val = pair.RefreshToken.Value
		}
	}
	// do performs the request in some context
	do := func(ctx context.Context, iss string, cl *clientv1.Client, val, v string) bool {
		switch kind {
		case "code":
			res, err := w.Token.Token(ctx, kit.CodeReq(iss, cl, val, ar.RedirectUri, v))
			return kit.Granted(res, err) || kit.HasToken(res)
		case "uri":
			res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: iss, Subject: sub, Client: cl, Request: &flowv1.AuthorizationRequest{ClientId: cl.ClientId, RequestUri: kit.Str(val)}})
			return err == nil || res.GetCode() != ""
		case "usercode":
			res, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: sub, UserCode: val})
			return err == nil || res.GetError() == nil
		case "devicecode":
			res, err := w.Token.Token(ctx, kit.DeviceReq(iss, cl, val))
			return kit.Granted(res, err) || kit.HasToken(res)
		case "introspect", "introspect-rt":
			res, err := w.Introspect(ctx, iss, cl, val)
			return err == nil && (res.Token.Status != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || res.Token.Metadata != nil)
		case "refresh":
			res, err := w.Token.Token(ctx, kit.RefreshReq(iss, cl, val))
			return kit.Granted(res, err) || kit.HasToken(res)
		case "exchange":
			res, err := w.Token.Token(ctx, kit.ExchangeReq(iss, cl, val, nil, nil))
			return kit.Granted(res, err) || kit.HasToken(res)
		default:
			_, err := w.Revoke(ctx, iss, cl, val)
			return err == nil
		}
	}
	own := func(want int) ovTask {
		return ovTask{"own", want, func(ctx context.Context) bool { return do(ctx, iss, cl, val, v) }}
	}
	var out []ovTask
	alien := func(name string, f func(ctx context.Context) bool) { out = append(out, ovTask{name, 0, f}) }
	n := 1 + r.Intn(3)
	switch foreign {
	case "issuer":
		out = append(out, own(1))
		for j := 0; j < n; j++ {
			o := kit.Issuer(r)
			if o == iss {
				o += "x"
			}
			if r.Intn(2) == 0 {
				sp := splits(iss, val)
				if a := sp[r.Intn(len(sp))]; a.iss != "" {
					alien("issuer "+a.name, func(ctx context.Context) bool { return do(ctx, a.iss, cl, a.val, v) })
					continue
				}
			}
			alien("issuer "+o, func(ctx context.Context) bool { return do(ctx, o, cl, val, v) })
		}
	case "code": // a code presented by others: the owner may lose it, they must not win it
		out = append(out, own(-1))
		for j := 0; j < n; j++ {
			switch r.Intn(3) {
			case 0:
				alien("other client", func(ctx context.Context) bool { return do(ctx, iss, other, val, v) })
			case 1:
				bad := kit.RandString(r, 50, kit.Alnum)
				alien("wrong verifier", func(ctx context.Context) bool { return do(ctx, iss, cl, val, bad) })
			case 2:
				alien("wrong redirect", func(ctx context.Context) bool {
					res, err := w.Token.Token(ctx, kit.CodeReq(iss, cl, val, ar.RedirectUri+"x", v))
					return kit.Granted(res, err) || kit.HasToken(res)
				})
			}
		}
	case "refresh":
		out = append(out, own(1))
		for j := 0; j < n; j++ {
			alien("other client", func(ctx context.Context) bool { return do(ctx, iss, other, val, v) })
		}
	case "exchange":
		out = append(out, own(1))
		noex := w.Client(func(c *clientv1.Client) { c.GrantTypes = []string{kit.GrantCC} })
		for j := 0; j < n; j++ {
			switch r.Intn(2) {
			case 0:
				alien("client without the grant", func(ctx context.Context) bool { return do(ctx, iss, noex, val, v) })
			case 1:
				alien("wider scope", func(ctx context.Context) bool {
					res, err := w.Token.Token(ctx, kit.ExchangeReq(iss, cl, val, kit.Str("openid admin"), nil))
					return kit.Granted(res, err) || kit.HasToken(res)
				})
			}
		}
	case "token":
		out = append(out, own(1), ovTask{"other caller", 1, func(ctx context.Context) bool { return do(ctx, iss, other, val, v) }})
		for j := 0; j < n; j++ {
			switch r.Intn(3) {
			case 0:
				nobody := &clientv1.Client{ClientId: "nobody"}
				alien("unregistered caller", func(ctx context.Context) bool { return do(ctx, iss, nobody, val, v) })
			case 1:
				m := kit.NearMiss(r, val)
				alien("near miss", func(ctx context.Context) bool { return m != val && do(ctx, iss, cl, m, v) })
			case 2:
				alien("issuer", func(ctx context.Context) bool { return do(ctx, iss+"x", cl, val, v) })
			}
		}
	}
	return out
}
