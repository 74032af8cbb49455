package checks

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/storage"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C02", Level: "exploration",
		Rule: "each case issues a code and presents it once with a chosen subset of deviations (client, issuer, redirect_uri, de-registered redirect_uri, verifier, code, age in virtual time) drawn from near-miss strings and boundary lengths; the right and wrong presentations of one code in flight together under random schedules; " +
			"granted iff no deviation. Non-trivial: a distinct combination of deviation kinds, near-miss index and age.",
		Assumptions: []string{"the exact second at which a code expires is not judged"},
		Modes:       []kit.Mode{{Name: "seq", Bubble: true, Run: c02}, {Name: "overlap", Bubble: true, Run: overlap("code", 1500, 60000)}},
	})
}

// clientOverride lets a registration change after the fact.
type clientOverride struct {
	storage.Client
	mu sync.Mutex
	m  map[string]*clientv1.Client
}

func (o *clientOverride) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	o.mu.Lock()
	c, ok := o.m[id]
	o.mu.Unlock()
	if ok && c == nil { // removed
		return nil, storage.ErrNotFound
	}
	if ok {
		return c, nil
	}
	return o.Client.Get(ctx, id)
}

// nearChallenge gives something which is not the S256 transformation of the
// verifier but comes close to it.
func nearChallenge(r *rand.Rand, v string) (string, int) {
	right := kit.S256(v)
	h := sha256.Sum256([]byte(v))
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	last := strings.IndexByte(alphabet, right[42])
	h2 := sha256.Sum256(h[:])
	ms := []string{
		right[:42] + string(alphabet[last^1]), right[:42] + string(alphabet[last^2]), right[:42] + string(alphabet[last^3]),
		hex.EncodeToString(h[:]), strings.ToUpper(hex.EncodeToString(h[:])), base64.URLEncoding.EncodeToString(h[:]),
		strings.ToLower(right), strings.ToUpper(right), v, kit.S256(right), kit.S256(hex.EncodeToString(h[:])),
		base64.RawURLEncoding.EncodeToString(h2[:]), right + right, kit.S256(v + "\n"), kit.S256(strings.ToLower(v)) + "x",
		base64.RawURLEncoding.EncodeToString(append(h[:], 0)), base64.RawURLEncoding.EncodeToString([]byte(right)),
		right[:21] + "\n" + right[21:], right + "\n", " " + right,
	}
	for {
		j := r.Intn(len(ms))
		if ms[j] != right {
			return ms[j], j
		}
	}
}

func c02(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("granted", 200)
	c.Require("refused", 500)
	for _, gen := range []string{"verifiable", "jwt"} {
		st := kit.NewStores(gen)
		ov := &clientOverride{Client: st.Clients, m: map[string]*clientv1.Client{}}
		st.Clients = ov
		w := kit.NewWorld(st, nil)
		for i := 0; i < c.N(3000, 60000); i++ {
			c.Case(fmt.Sprintf("%s/%d", gen, i), func(k *kit.Case) {
				r := k.R
				iss := kit.Issuer(r)
				uris := []string{"https://client.example/cb", "https://client.example/other", "https://client.example/cb?x=1", "com.example.app:/cb", "http://127.0.0.1:8085/oidc/as/" + kit.RandString(r, 4, kit.Alnum)}
				// registered URIs next to each other: only the one of the request counts
				base := uris[r.Intn(len(uris))]
				for _, m := range append(kit.NearMisses(base), base+"/", base+"#", base+"?", strings.ToUpper(base), strings.ToLower(base), base+"&") {
					if u, e := url.ParseRequestURI(m); e == nil && u.Scheme != "" && utf8.ValidString(m) && r.Intn(4) == 0 {
						uris = append(uris, m)
					}
				}
				r.Shuffle(len(uris), func(i, j int) { uris[i], uris[j] = uris[j], uris[i] })
				if r.Intn(3) == 0 {
					uris = uris[:1+r.Intn(2)]
				}
				owner := w.Client(func(c *clientv1.Client) { c.RedirectUris = uris })
				other := w.Client(func(c *clientv1.Client) { c.RedirectUris = uris })
				ar, v := kit.AuthReq(r, owner, kit.Pick(r, "openid", "openid offline_access", "profile"))
				if r.Intn(2) == 0 && has(uris, base) {
					ar.RedirectUri = base
				}
				// boundary verifier lengths
				n := kit.Pick(r, 43, 44, 64, 127, 128, len(v), len(v))
				badLen := false
				if r.Intn(12) == 0 {
					n, badLen = kit.Pick(r, 1, 20, 41, 42, 129, 130, 200, 300, 1000), true
				}
				v = kit.RandString(r, n, kit.Unreserve)
				ar.CodeChallenge = kit.S256(v)
				var dev []string
				// the transformation of the verifier is the challenge, not something like it
				if r.Intn(12) == 0 {
					j := 0
					ar.CodeChallenge, j = nearChallenge(r, v)
					dev = append(dev, fmt.Sprintf("challenge#%d", j))
				}
				res, err := w.Code(ctx, iss, "sub-"+kit.RandString(r, 4, kit.Alnum), owner, ar)
				if dev != nil && err != nil {
					k.Sig("%v refused", dev)
					return
				}
				if err != nil || res.GetCode() == "" {
					k.Fatal("no-code", "honest authorization refused: %v", err)
				}
				if !k.Check(res.ExpiresIn == 60, "lifetime", "announced lifetime %d", res.ExpiresIn) {
					return
				}
				req := kit.CodeReq(iss, owner, res.Code, ar.RedirectUri, v)
				g := req.GetAuthorizationCode()
				if badLen {
					dev = append(dev, fmt.Sprintf("verifier-length-%d", n))
				}
				for d := r.Intn(3); d > 0; d-- {
					switch r.Intn(8) {
					case 0:
						req.Client = other
						dev = append(dev, "client")
					case 1:
						ms := kit.NearMisses(iss)
						m := ms[r.Intn(len(ms))]
						if _, e := url.ParseRequestURI(m); e != nil || m == "" {
							m = kit.Issuer(r)
						}
						req.Issuer = m
						dev = append(dev, "issuer:"+m[len("h"):])
					case 2:
						ms := kit.NearMisses(ar.RedirectUri)
						j := r.Intn(len(ms))
						g.RedirectUri = ms[j]
						dev = append(dev, fmt.Sprintf("redirect#%d", j))
					case 3:
						near := kit.NearMisses(ar.RedirectUri)
						for _, u := range uris {
							if u != ar.RedirectUri && (g.RedirectUri == ar.RedirectUri || has(near, u)) {
								g.RedirectUri = u
							}
						}
						if g.RedirectUri != ar.RedirectUri { // another one is registered
							dev = append(dev, "other-redirect")
						}
					case 4:
						ms := kit.NearMisses(v)
						j := r.Intn(len(ms))
						g.CodeVerifier = ms[j]
						dev = append(dev, fmt.Sprintf("verifier#%d", j))
					case 5:
						g.CodeVerifier = kit.Pick(r, ar.CodeChallenge, kit.RandString(r, 43, kit.Unreserve), v+"="+v)
						if len(g.CodeVerifier) == 0 || g.CodeVerifier == v {
							g.CodeVerifier = "x" + v
						}
						dev = append(dev, "other-verifier")
					case 6:
						ms := kit.NearMisses(res.Code)
						j := r.Intn(len(ms))
						g.Code = kit.Pick(r, ms[j], ms[j], strings.Repeat("a", 1025), res.Code+strings.Repeat("a", 1000))
						dev = append(dev, fmt.Sprintf("code#%d", j))
					case 7:
						nc := kit.Clone(owner)
						nc.RedirectUris = nil
						for _, u := range uris {
							if u != ar.RedirectUri {
								nc.RedirectUris = append(nc.RedirectUris, u)
							}
						}
						ov.mu.Lock()
						ov.m[owner.ClientId] = nc
						ov.mu.Unlock()
						dev = append(dev, "deregistered")
					}
				}
				// the caller cannot choose what counts as the client registration
				if r.Intn(4) == 0 {
					req.Client = kit.Clone(req.Client)
					req.Client.RedirectUris = append(req.Client.RedirectUris, g.RedirectUri, ar.RedirectUri)
					req.Client.GrantTypes = append(req.Client.GrantTypes, kit.AllGrants...)
				}
				age := kit.Pick(r, 0, 0, 0, 1, 30, 58, 59, 61, 62, 90, 121, 3600)
				if age > 60 {
					dev = append(dev, "age")
				}
				time.Sleep(time.Duration(age) * time.Second)
				tr, err := w.Token.Token(ctx, req)
				k.Log("deviations %v age %d -> %s %v", dev, age, kit.ErrOf(tr), err)
				k.Sig("%v %d %d", dev, age, n)
				if len(dev) == 0 {
					k.Check(kit.Granted(tr, err), "legit-refused", "right context refused after %d s, verifier length %d: %v", age, n, err)
					c.Event("granted")
					return
				}
				k.Refused("wrong-context", fmt.Sprintf("presentation with %v after %d s", dev, age), tr, err, "invalid_grant")
				c.Event("refused")
			})
		}
		// sessions of other challenge methods never yield tokens when the transformation does not hold
		for i := 0; i < c.N(60, 600); i++ {
			c.Case(fmt.Sprintf("%s/method/%d", gen, i), func(k *kit.Case) {
				r := k.R
				iss := kit.Issuer(r)
				owner := w.Client(nil)
				ar, v := kit.AuthReq(r, owner, "openid")
				ar.CodeChallengeMethod = kit.Pick(r, "plain", "s256", "", "S512", "PLAIN")
				ar.CodeChallenge = v
				code := kit.RandString(r, 32, kit.Alnum)
				if _, err := w.Raw.Codes.Register(ctx, iss, code, &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: "s", Request: ar}); err != nil {
					k.Fatal("register", "%v", err)
				}
				tr, err := w.Token.Token(ctx, kit.CodeReq(iss, owner, code, ar.RedirectUri, v))
				k.Sig("%s", ar.CodeChallengeMethod)
				k.Refused("plain-method", "challenge method "+ar.CodeChallengeMethod, tr, err, "invalid_grant")
			})
		}
	}
	_ = flowv1.TokenRequest{}
}
