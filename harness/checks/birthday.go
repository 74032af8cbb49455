package checks

import (
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	mrand "math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/go-jose/go-jose/v4"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/storage/inmemory"
)

// Drawn values in numbers: n values of a space of b bits repeat about
// n*n/2^(b+1) times, so that a generator with fewer bits than it claims shows
// itself in the pairs, wherever in the value the weak part is.

type drawer struct {
	name  string
	block int // characters of a part which must never appear twice at its place; 0: values may repeat by chance
	space float64
	quick int
	draw  func() (string, error)
}

func drawers(prop string) []drawer {
	ctx := context.Background()
	secret := []byte("0123456789abcdef0123456789abcdef")
	switch prop {
	case "C05":
		ot := token.OpaqueToken()
		vt := verifiable.Token(verifiable.UUIDv4Source(), secret)
		t := &tokenv1.Token{TokenId: "id"}
		return []drawer{
			{"opaque", 16, 0, 400000, func() (string, error) { return ot.Generate(ctx, t) }},
			{"verifiable", 1000, 0, 300000, func() (string, error) { return vt.Generate(ctx, t) }},
		}
	case "C19":
		key := kit.NewKey("birthday-dpop", "EdDSA")
		p := dpop.DefaultProver(jwt.DPoPSigner(jose.EdDSA, kit.KeyFunc(key.Priv, key.Kid, key.Alg)))
		return []drawer{{"jti", 12, 0, 250000, func() (string, error) {
			s, err := p.Prove("POST", "https://as.example/token")
			if err != nil {
				return "", err
			}
			parts := strings.Split(s, ".")
			if len(parts) != 3 {
				return "", fmt.Errorf("proof %q", s)
			}
			b, err := base64.RawURLEncoding.DecodeString(parts[1])
			var c struct {
				JTI string `json:"jti"`
			}
			if err == nil {
				err = json.Unmarshal(b, &c)
			}
			return c.JTI, err
		}}}
	case "C25":
		return []drawer{{"verifier", 12, 0, 300000, func() (string, error) { v, _, err := pkce.CodeVerifier(); return v, err }}}
	case "C26":
		var ds []drawer
		for name, src := range map[string]func() verifiable.UUIDGeneratorFunc{"v4": verifiable.UUIDv4Source, "v7": verifiable.UUIDv7Source} {
			g, v := verifiable.UUIDGenerator(src(), secret), verifiable.UUIDVerifier(secret)
			ds = append(ds, drawer{name, 16, 0, 300000, func() (string, error) {
				s, err := g.Generate()
				if err != nil {
					return "", err
				}
				id, err := v.Extract(s)
				if err != nil || len(id) != 16 {
					return "", fmt.Errorf("token %q holds %x, %v", s, id, err)
				}
				return hex.EncodeToString(id[8:]), nil // what precedes may be a time
			}})
		}
		return ds
	case "C28":
		var ds []drawer
		for _, g := range c28Gens() {
			d := drawer{g.name, 12, 0, 400000, func() (string, error) {
				s, err := g.gen(ctx)
				if err == nil && !g.shape(s) {
					err = fmt.Errorf("%q has not the format %s", s, g.format)
				}
				if err != nil {
					return "", err
				}
				return g.random(s), nil
			}}
			if g.short() {
				d.block, d.space, d.quick = 0, math.Pow(float64(len(g.alpha)), float64(strings.Count(g.format, "#"))), 1000000
			}
			ds = append(ds, d)
		}
		reg := inmemory.Clients()
		return append(ds, drawer{"registered_client", 12, 0, 300000, func() (string, error) { return reg.Register(ctx, &clientv1.Client{ClientName: "a"}) }})
	case "C31":
		return []drawer{
			{"seed", 1000, 0, 600000, func() (string, error) { return fmt.Sprintf("%016x", uint64(randomness.CryptoSeed())), nil }},
			{"reader", 16, 0, 300000, func() (string, error) {
				b := make([]byte, 16)
				_, err := randomness.Reader.Read(b)
				return hex.EncodeToString(b), err
			}},
			{"global", 32, 0, 300000, func() (string, error) {
				return fmt.Sprintf("%016x%016x", uint64(randomness.Int63()), randomness.Uint64()), nil
			}},
		}
	}
	return nil
}

// birthday draws many values from one generator, concurrently, and looks for repetitions.
func birthday(prop string) func(c *kit.Ctx) {
	return func(c *kit.Ctx) {
		c.Require("values", 200000)
		for _, d := range drawers(prop) {
			c.Case(d.name, func(k *kit.Case) {
				const workers = 8
				per := d.quick * c.N(1, 8) / workers
				vals := make([][]string, workers)
				errs := make([]error, workers)
				var wg sync.WaitGroup
				for w := range vals {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < per && errs[w] == nil; i++ {
							var s string
							if s, errs[w] = d.draw(); errs[w] == nil && s == "" {
								errs[w] = fmt.Errorf("nothing drawn")
							}
							vals[w] = append(vals[w], s)
						}
					}()
				}
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						k.Fatal("draw", "%s: %v", d.name, err)
					}
				}
				type entry struct {
					a, b uint64
					w, i int32
					at   int32
				}
				s1, s2 := maphash.MakeSeed(), maphash.MakeSeed()
				var es []entry
				for w := range vals {
					for i, s := range vals[w] {
						bl := d.block
						if bl == 0 || bl > len(s) {
							bl = len(s)
						}
						for at := 0; at < len(s); at += bl {
							p := min(at, len(s)-bl)
							x := s[p : p+bl]
							es = append(es, entry{maphash.String(s1, x) + uint64(p), maphash.String(s2, x), int32(w), int32(i), int32(p)})
						}
					}
				}
				c.Events("values", workers*per)
				c.Events("parts compared", len(es))
				sort.Slice(es, func(i, j int) bool {
					if es[i].a != es[j].a {
						return es[i].a < es[j].a
					}
					return es[i].b < es[j].b
				})
				repeats, last := 0, ""
				for i := 1; i < len(es); i++ {
					if x, y := es[i-1], es[i]; x.a == y.a && x.b == y.b && x.at == y.at {
						repeats++
						last = fmt.Sprintf("%q and %q", vals[x.w][x.i], vals[y.w][y.i])
					}
				}
				limit := 0.0
				if d.block == 0 {
					n := float64(workers * per)
					e := n * (n - 1) / 2 / d.space
					limit = e + 8*math.Sqrt(e) + 8
				}
				k.Check(float64(repeats) <= limit, "repeated", "%s: %d repetitions among %d values, the last in %s", d.name, repeats, workers*per, last)
				k.Sig("%s/%d", d.name, len(es)/(workers*per))
			})
		}
	}
}

// c31Rare looks for the draws at the edge of a range, which happen once in some 30 million.
func c31Rare(c *kit.Ctx) {
	c.Require("edge draws", 2)
	for i := 0; i < c.N(4, 40); i++ {
		c.Case(fmt.Sprintf("rare/%d", i), func(k *kit.Case) {
			seed := k.R.Int63()
			ref := c31Std(seed)
			pos := -1
			for p := 0; p < 120000000; p++ {
				if float32(ref.Float64()) == 1 {
					pos = p
					break
				}
			}
			c.Events("draws", pos+1)
			if pos < 0 {
				return
			}
			c.Event("edge draws")
			for _, op := range []int{10, 9} { // Float32, Float64
				want, got := c31Std(seed), c31Source(randomness.NewLockedRand(seed))
				for p := 0; p < pos; p++ {
					want.Int63()
					got.Int63()
				}
				for j := 0; j < 3; j++ {
					w, g := c31Call(want, op, 0), c31Call(got, op, 0)
					k.Check(w == g, "sequence", "seed %d, draw %d: %s gave %s instead of %s", seed, pos+j, c31Ops[op], g, w)
				}
			}
			k.Sig("edge/%d", pos>>20)
		})
	}
}

func c31Std(seed int64) c31Source { return mrand.New(mrand.NewSource(seed)) }
