package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/go-jose/go-jose/v4"
	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/storage/inmemory"
)

// Several processes of one deployment, started at the same moment: what is
// drawn must differ between them, what is derived must be the same.

const mintCount = 60

// minters draw values; each value comes from an instance of its own, three times out of four.
func minters() map[string]func(i int) (string, error) {
	ctx := context.Background()
	m := map[string]func(i int) (string, error){}
	var gens []codeGen
	for n, g := range c28Gens() {
		m["C28/"+g.name] = func(i int) (string, error) {
			if gens == nil || i%4 > 0 {
				gens = c28Gens()
			}
			return gens[n].gen(ctx)
		}
	}
	m["C25/verifier"] = func(int) (string, error) { v, _, err := pkce.CodeVerifier(); return v, err }
	for name, src := range map[string]func() verifiable.UUIDGeneratorFunc{"v4": verifiable.UUIDv4Source, "v7": verifiable.UUIDv7Source} {
		for si := range c26Secrets {
			m[fmt.Sprintf("C26/%s/%d", name, si)] = func(int) (string, error) {
				return verifiable.UUIDGenerator(src(), c26Secrets[si]).Generate()
			}
		}
	}
	for _, format := range []string{"verifiable", "jwt", "opaque"} {
		var w *kit.World
		var cl *clientv1.Client
		m["C05/"+format] = func(i int) (string, error) {
			if w == nil || i%20 == 0 {
				w = kit.NewWorld(kit.NewStores(format), nil)
				cl = w.Client(nil)
			}
			res, err := w.Token.Token(ctx, kit.CCReq("https://as.example", cl, kit.Str("read"), kit.Str("https://api.example")))
			if err != nil {
				return "", err
			}
			return res.AccessToken.TokenId + " " + res.AccessToken.Value, nil
		}
	}
	m["C05/opaque-generator"] = func(int) (string, error) { return token.OpaqueToken().Generate(ctx, nil) }
	m["C28/registered_client"] = func(int) (string, error) { return inmemory.Clients().Register(ctx, &clientv1.Client{ClientName: "a"}) }
	key := kit.NewKey("restart-dpop", "ES256")
	m["C19/jti"] = func(int) (string, error) {
		tok, err := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, kit.KeyFunc(key.Priv, key.Kid, key.Alg))).Prove("POST", "https://as.example/token")
		if err != nil {
			return "", err
		}
		j, err := kit.DecodeAny(tok, key.Alg, key.Pub)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(j.Payload["jti"]), nil
	}
	m["C31/seed"] = func(int) (string, error) { return fmt.Sprint(randomness.CryptoSeed()), nil }
	m["C31/global"] = func(int) (string, error) { return fmt.Sprint(randomness.Int63(), randomness.Uint64()), nil }
	// derived values
	m["C27/=id"] = func(i int) (string, error) {
		return pairwise.Hash([]byte(strings.Repeat("s", 16+i%48))).Encode(fmt.Sprintf("sector%d.example", i), fmt.Sprintf("user%d", i%7))
	}
	m["C31/=seeded"] = func(i int) (string, error) {
		r := randomness.NewLockedRand(int64(i))
		return fmt.Sprint(r.Int63(), r.Uint32(), r.Perm(5)), nil
	}
	return m
}

// Mint runs in the other processes.
func Mint(prop string, out io.Writer) error {
	res := map[string][]string{}
	for name, f := range minters() {
		if !strings.HasPrefix(name, prop+"/") {
			continue
		}
		for i := 0; i < mintCount; i++ {
			s, err := f(i)
			if err != nil {
				return fmt.Errorf("%s: %w", name, err)
			}
			res[name] = append(res[name], s)
		}
	}
	return json.NewEncoder(out).Encode(res)
}

// restart compares what several processes mint for a property.
func restart(prop string) func(c *kit.Ctx) {
	return func(c *kit.Ctx) {
		c.Require("values", 3*mintCount)
		for round := 0; round < c.N(2, 12); round++ {
			c.Case(fmt.Sprintf("processes/%d", round), func(k *kit.Case) {
				self, err := os.Executable()
				if err != nil {
					k.Fatal("harness", "%v", err)
				}
				const procs = 4
				got := make([]map[string][]string, procs)
				errs := make([]error, procs)
				var wg sync.WaitGroup
				for p := 0; p < procs; p++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						cmd := exec.Command(self)
						cmd.Env = append(os.Environ(), "VERIF_MINT="+prop)
						b, err := cmd.Output()
						if err == nil {
							err = json.Unmarshal(b, &got[p])
						}
						if e := (*exec.ExitError)(nil); errors.As(err, &e) {
							err = fmt.Errorf("%w: %s", err, e.Stderr)
						}
						errs[p] = err
					}()
				}
				wg.Wait()
				for p, err := range errs {
					if err != nil {
						k.Fatal("process", "process %d: %v", p, err)
					}
				}
				for name := range got[0] {
					short := strings.Contains(name, "user_code") // may repeat by chance
					seen := map[string]string{}
					win := newWindows(12)
					repeats, total := 0, 0
					for p := range got {
						for i, s := range got[p][name] {
							c.Event("values")
							total++
							where := fmt.Sprintf("process %d, value %d", p, i)
							if strings.Contains(name, "=") {
								k.Check(s == got[0][name][i], "differs", "%s: %q in process 0, %q in %s", name, got[0][name][i], s, where)
								continue
							}
							parts := []string{s}
							if name[:3] == "C05" {
								parts = strings.Split(s, " ")
							}
							for _, x := range parts {
								if o, ok := seen[x]; ok {
									repeats++
									k.Check(short, "repeated", "%s: %q of %s appeared before (%s)", name, x, where, o)
								}
								seen[x] = where
							}
							if name[:3] == "C28" && !short {
								if y, fresh := win.add(strings.TrimPrefix(s, "urn:solid:")); !fresh {
									k.Fail("window", "%s: %q of %s shares %q with an earlier one", name, s, where, y)
								}
							}
							if name[:3] == "C26" {
								si := int(name[len(name)-1] - '0')
								for o, secret := range c26Secrets {
									id, err := verifiable.UUIDVerifier(secret).Extract(s)
									if o == si {
										k.Check(err == nil && len(id) == 16, "other-process", "%s: %q minted by another process refused: %v", name, s, err)
									} else {
										k.Check(err != nil, "accepted", "%s: %q minted with another secret accepted", name, s)
									}
								}
							}
						}
					}
					k.Check(repeats <= 2, "repeated", "%s: %d of %d values repeated", name, repeats, total)
					k.Sig("%s", name)
				}
			})
		}
	}
}
