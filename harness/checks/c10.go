package checks

import (
	"context"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/server/profile"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C10", Level: "exploration",
		Rule: "random registrations (grant subset, near-miss grant names, client type) crossed with token requests holding live artifacts of that client: grant_type string, grant message, issuer, client identification (unknown, nil, lying message); granted iff everything matches, refusals coded and nothing stored; " +
			"the same in parallel; and the strict profile compared with its documented table for every application type and near misses. Non-trivial: a distinct (registration, type, request, outcome).",
		Assumptions: []string{"grant names differing only by letter case are not judged"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c10}, {Name: "race", Race: true, Run: c10Race}, {Name: "profile", Run: c10Profile}},
	})
}

var badIssuers = []string{"", "not a url", "relative", "urn", "://x", "%zz", "as.example", "\x00", "http//x"}

type c10World struct {
	w       *kit.World
	ov      *clientOverride
	created *atomic.Int32
}

func newC10() *c10World {
	st := kit.NewStores("verifiable")
	ov := &clientOverride{Client: st.Clients, m: map[string]*clientv1.Client{}}
	st.Clients = ov
	n := &atomic.Int32{}
	w := kit.NewWorld(st, func(ctx context.Context, op string, do func() error) error {
		err := do()
		if op == "tokens.Create" && err == nil {
			n.Add(1)
		}
		return err
	})
	return &c10World{w, ov, n}
}

func (x *c10World) set(id string, c *clientv1.Client) {
	x.ov.mu.Lock()
	defer x.ov.mu.Unlock()
	if c == nil {
		delete(x.ov.m, id)
		return
	}
	x.ov.m[id] = c
}

// c10One runs one request; returns the description.
func c10One(k *kit.Case, x *c10World, count bool) {
	ctx := context.Background()
	r := k.R
	w := x.w
	iss := kit.Issuer(r)
	full := w.Client(nil)
	// live artifacts of the client
	ar, v := kit.AuthReq(r, full, "openid offline_access")
	code, err := w.Code(ctx, iss, "sub", full, ar)
	if err != nil {
		k.Fatal("legit-refused", "authorize: %v", err)
	}
	dev, err := w.Device.Authorize(ctx, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: full.ClientId, Scope: kit.Str("openid"), Audience: kit.Str("https://api.example/")})
	if err != nil {
		k.Fatal("legit-refused", "device: %v", err)
	}
	if _, err := w.Device.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: iss, Subject: "sub", UserCode: dev.UserCode}); err != nil {
		k.Fatal("legit-refused", "device: %v", err)
	}
	pair := refreshTokenOf(k, w, iss, "sub", full, "openid offline_access", nil)

	// the registration under test
	reg := kit.Clone(full)
	reg.GrantTypes = nil
	allowed := map[string]bool{}
	for _, g := range kit.AllGrants {
		if r.Intn(2) == 0 {
			reg.GrantTypes = append(reg.GrantTypes, g)
			allowed[g] = true
		} else if r.Intn(3) == 0 {
			if m := kit.NearMiss(r, g); !strings.EqualFold(m, g) {
				reg.GrantTypes = append(reg.GrantTypes, m)
			}
		}
	}
	reg.ClientType = kit.Pick(r, clientv1.ClientType_CLIENT_TYPE_PUBLIC, clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED, clientv1.ClientType(kit.Pick(r, 4, 17, -1)))
	x.set(full.ClientId, reg)
	defer x.set(full.ClientId, nil)

	reqs := map[string]*flowv1.TokenRequest{
		kit.GrantCode:     kit.CodeReq(iss, full, code.Code, ar.RedirectUri, v),
		kit.GrantCC:       kit.CCReq(iss, full, kit.Str("read"), kit.Str("https://api.example/")),
		kit.GrantDevice:   kit.DeviceReq(iss, full, dev.DeviceCode),
		kit.GrantRefresh:  kit.RefreshReq(iss, full, pair.RefreshToken.Value),
		kit.GrantExchange: kit.ExchangeReq(iss, full, pair.AccessToken.Value, nil, kit.Str(kit.ResBackend)),
	}
	gt := kit.Pick(r, kit.AllGrants...)
	req := kit.Clone(reqs[gt])
	// a client message which claims everything must not matter
	req.Client = &clientv1.Client{ClientId: full.ClientId, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: kit.AllGrants}
	codes := map[string]bool{}
	var devs []string
	deviate := func(n string, cs ...string) {
		devs = append(devs, n)
		for _, c := range cs {
			codes[c] = true
		}
	}
	if !allowed[gt] {
		deviate("unregistered", "unsupported_grant_type")
	}
	if gt == kit.GrantCC && reg.ClientType != clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL && reg.ClientType != clientv1.ClientType_CLIENT_TYPE_CREDENTIALED {
		deviate("public-cc", "invalid_client")
	}
	if r.Intn(3) == 0 {
		switch r.Intn(6) {
		case 0:
			other := kit.Pick(r, kit.AllGrants...)
			if other != gt {
				req.Grant = kit.Clone(reqs[other]).Grant
				deviate("grant-mismatch", "invalid_grant")
			}
		case 1:
			req.Grant = nil
			deviate("no-grant", "invalid_grant")
		case 2:
			req.GrantType = kit.Pick(r, "", "password", "implicit", "urn:ietf:params:oauth:grant-type:jwt-bearer", "urn:ietf:params:oauth:grant-type:saml2-bearer", kit.NearMiss(r, gt))
			if strings.EqualFold(req.GrantType, gt) {
				req.GrantType = "none"
			}
			deviate("grant-type", "invalid_grant", "unsupported_grant_type")
		case 3:
			req.Issuer = kit.Pick(r, badIssuers...)
			if _, e := url.ParseRequestURI(req.Issuer); e != nil {
				deviate("issuer", "server_error")
			} else {
				req.Issuer = iss
			}
		case 4:
			req.Client = kit.Pick(r, &clientv1.Client{ClientId: w.NoClient(r, full.ClientId), GrantTypes: kit.AllGrants}, &clientv1.Client{GrantTypes: kit.AllGrants}, &clientv1.Client{ClientId: "nobody", ClientName: full.ClientName, GrantTypes: kit.AllGrants})
			if k.R.Intn(3) == 0 { // it was registered and served before
				gone := w.Client(nil)
				if res, err := w.Token.Token(ctx, kit.CCReq(iss, gone, kit.Str("read"), kit.Str("https://api.example/"))); !kit.Granted(res, err) {
					k.Fail("legit-refused", "client_credentials: %v", err)
				}
				x.ov.mu.Lock()
				x.ov.m[gone.ClientId] = nil
				x.ov.mu.Unlock()
				req.Client = gone
				k.Event("removed_client")
			}
			deviate("unknown-client", "invalid_client")
		case 5:
			req.Client = nil
			deviate("no-client", "invalid_client")
		}
	}
	n := x.created.Load()
	res, err := w.Token.Token(ctx, req)
	ok := kit.Granted(res, err)
	k.Log("%s registered %v type %v deviations %v -> %v %s", gt, reg.GrantTypes, reg.ClientType, devs, ok, kit.ErrOf(res))
	k.Sig("%s %v %v %v %v", gt, allowed, reg.ClientType, devs, ok)
	if len(devs) == 0 {
		k.Check(ok, "legit-refused", "%s by a client registered for it was refused: %v %s", gt, err, kit.ErrOf(res))
		k.Event("granted")
		return
	}
	var cs []string
	for c := range codes {
		cs = append(cs, c)
	}
	k.Refused("accepted", fmt.Sprintf("%s with %v (registered %v)", gt, devs, reg.GrantTypes), res, err, cs...)
	if count {
		k.Check(x.created.Load() == n, "stored", "a refused request stored a token (%v)", devs)
	}
	for _, d := range devs {
		k.Event("refused_" + d)
	}
}

func c10(c *kit.Ctx) {
	x := newC10()
	for i := 0; i < c.N(9000, 200000); i++ {
		c.Case(fmt.Sprintf("grant/%d", i), func(k *kit.Case) { c10One(k, x, true) })
	}
	c.Require("granted", 500)
	for _, d := range []string{"unregistered", "public-cc", "grant-mismatch", "no-grant", "grant-type", "issuer", "unknown-client", "no-client"} {
		c.Require("refused_"+d, 50)
	}
}

func c10Race(c *kit.Ctx) {
	x := newC10()
	for i := 0; i < c.N(150, 5000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				k.Go(&wg, func() { c10One(sub, x, false) })
			}
			wg.Wait()
			k.Sig("%d", i)
		})
	}
	c.Require("granted", 50)
}

func c10Profile(c *kit.Ctx) {
	type row struct{ grants, responses []string }
	doc := map[string]row{
		"web":     {[]string{kit.GrantCode}, []string{"code"}},
		"native":  {[]string{kit.GrantCode, kit.GrantRefresh}, []string{"code"}},
		"device":  {[]string{kit.GrantDevice, kit.GrantRefresh}, []string{"code"}},
		"service": {[]string{kit.GrantCC}, []string{"token"}},
	}
	same := func(a, b []string) bool {
		a, b = append([]string{}, a...), append([]string{}, b...)
		sort.Strings(a)
		sort.Strings(b)
		return strings.Join(a, " ") == strings.Join(b, " ")
	}
	look := func(k *kit.Case, name string) {
		p, ok := profile.Strict().ApplicationType(name)
		d, want := doc[name]
		k.Sig("%s", name)
		if !k.Check(ok == want, "app-type", "application type %q offered=%v", name, ok) || !ok {
			return
		}
		k.Check(same(p.GrantTypesSupported(), d.grants), "grants", "%s grants %v", name, p.GrantTypesSupported())
		k.Check(same(p.TokenEndpointAuthMethodsSupported(), []string{"private_key_jwt"}), "auth", "%s authentication %v", name, p.TokenEndpointAuthMethodsSupported())
		k.Check(same(p.ResponseTypesSupported(), d.responses), "responses", "%s responses %v", name, p.ResponseTypesSupported())
		k.Event("profile_checked")
	}
	names := []string{"web", "native", "device", "service", "browser", "", "cli", "spa", "unknown"}
	for _, n := range []string{"web", "native", "device", "service"} {
		names = append(names, kit.NearMisses(n)...)
	}
	for round := 0; round < 3; round++ { // repeated: a lookup must not change the profile
		for i, n := range names {
			c.Case(fmt.Sprintf("profile/%d/%d", round, i), func(k *kit.Case) { look(k, n) })
		}
	}
	c.Require("profile_checked", 12)
}
