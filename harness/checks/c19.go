package checks

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"verifharness/kit"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
)

// c19Proof is a proof with the request it is for.
type c19Proof struct {
	d   *c18Draft
	tok string
}

func c19New(k *kit.Case, iat int64) *c19Proof {
	d := c18Draw(k)
	d.key = kit.NewKey("c19-"+kit.Pick(k.R, "1", "2", "3"), kit.Pick(k.R, "ES256", "EdDSA"))
	d.signer = d.key
	d.hdr["jwk"] = bareJWK(d.key)
	d.claims["iat"] = iat
	return &c19Proof{d, d.build()}
}

func (p *c19Proof) verify(ctx context.Context, k *kit.Case, v dpop.Verifier) bool {
	th, err := v.Verify(ctx, p.d.htm, p.d.htu, p.tok)
	if err == nil {
		k.Event("accepted")
		k.Check(th == p.d.key.Thumb(), "thumbprint", "accepted with thumbprint %q", th)
		return true
	}
	k.Event("refused")
	k.Check(th == "", "leak", "refused with thumbprint %q", th)
	return false
}

func c19Verifiers(s storage.DPoP, n int) []dpop.Verifier {
	var out []dpop.Verifier
	for i := 0; i < n; i++ {
		out = append(out, dpop.DefaultVerifier(s, jwt.EmbeddedKeyVerifier(allAlgs())))
	}
	return out
}

// c19Setup: n tasks present proofs; same says which proof each task presents.
func c19Setup(k *kit.Case, w *kit.World, same []int) ([]func(context.Context), func(string)) {
	now := time.Now().Unix()
	vs := c19Verifiers(w.S.DPoP, 2)
	n := 0
	for _, s := range same {
		if s+1 > n {
			n = s + 1
		}
	}
	proofs := make([]*c19Proof, n)
	count := make([]atomic.Int32, n)
	for i := range proofs {
		proofs[i] = c19New(k, now)
	}
	var tasks []func(context.Context)
	for i, s := range same {
		i, s := i, s
		tasks = append(tasks, func(ctx context.Context) {
			if proofs[s].verify(ctx, k, vs[i%2]) {
				count[s].Add(1)
			}
		})
	}
	return tasks, func(sched string) {
		for s := range proofs {
			presented := 0
			for _, x := range same {
				if x == s {
					presented++
				}
			}
			got := count[s].Load()
			k.Check(got <= 1, "replay", "proof accepted %d times under %s", got, sched)
			if presented == 1 {
				k.Check(got == 1, "blocked", "proof presented once was refused under %s", sched)
			}
			if got > 0 {
				k.Check(!proofs[s].verify(context.Background(), k, vs[0]), "replay", "proof accepted again after %s", sched)
			}
		}
	}
}

func c19Enum(c *kit.Ctx) {
	w := kit.NewWorld(kit.NewStores("verifiable"), kit.SchedHook)
	for _, same := range [][]int{{0, 0}, {0, 1}, {0, 0, 0}, {0, 0, 1}} {
		same := same
		_, complete := c.Enumerate(fmt.Sprintf("enum/%v", same), c.N(3000, 40000), func(k *kit.Case, ch kit.Chooser) {
			tasks, done := c19Setup(k, w, same)
			s := k.RunTasks(ch, tasks...)
			k.Sig("%v %s", same, s)
			done(s.String())
		})
		if complete {
			c.Event("enumerations_complete")
		}
	}
	for i := 0; i < c.N(1500, 40000); i++ {
		c.Case(fmt.Sprintf("rand/%d", i), func(k *kit.Case) {
			var same []int
			for n := 2 + k.R.Intn(4); n > 0; n-- {
				same = append(same, k.R.Intn(3))
			}
			m := map[int]int{}
			for j, s := range same { // dense numbering
				if _, ok := m[s]; !ok {
					m[s] = len(m)
				}
				same[j] = m[s]
			}
			tasks, done := c19Setup(k, w, same)
			var ch kit.Chooser = &kit.RandomChooser{R: k.R}
			if i%2 == 1 {
				ch = &kit.PCTChooser{R: k.R, D: 3, Steps: 15}
			}
			s := k.RunTasks(ch, tasks...)
			k.Sig("%v %s", same, s)
			done(s.String())
		})
	}
	// identifiers next to each other are different proofs
	for i := 0; i < c.N(150, 4000); i++ {
		c.Case(fmt.Sprintf("near/%d", i), func(k *kit.Case) {
			now := time.Now().Unix()
			vs := c19Verifiers(w.S.DPoP, 2)
			base := c19New(k, now)
			jti, _ := base.d.claims["jti"].(string)
			jti = kit.Pick(k.R, jti, "aBc-"+jti, "é"+jti, jti+"==", jti+"~"+jti, strings.Repeat(jti, 8))
			ids := append([]string{jti}, kit.NearMisses(jti)...)
			ids = append(ids, "e\u0301"+jti, "\u00e9"+jti, jti+"\u200b", jti+"\t", jti+":"+jti, strings.Repeat(jti, 9))
			k.R.Shuffle(len(ids), func(a, b int) { ids[a], ids[b] = ids[b], ids[a] })
			seen := map[string]bool{"": true}
			sameKey := k.R.Intn(2) == 0
			for n, id := range ids {
				if seen[id] || !utf8.ValidString(id) || strings.TrimSpace(id) == "" || len(id) < 16 {
					continue
				}
				seen[id] = true
				p := &c19Proof{d: base.d}
				if !sameKey {
					p = c19New(k, now)
				}
				p.d.claims["jti"] = id
				p.tok = p.d.build()
				if k.Check(p.verify(context.Background(), k, vs[n%2]), "blocked", "fresh proof %q refused after the proofs %q", id, ids[:n]) {
					k.Check(!p.verify(context.Background(), k, vs[(n+1)%2]), "replay", "proof %q accepted again", id)
				}
			}
			k.Sig("near %v %d", sameKey, len(seen))
		})
	}
	// storage faults
	plan := &faultPlan{}
	fw := kit.NewWorld(kit.NewStores("verifiable"), plan.hook)
	errs := []error{kit.ErrInjected, storage.ErrNotFound, context.DeadlineExceeded, context.Canceled}
	for rep := 0; rep < c.N(10, 100); rep++ {
		for at := 0; at < 3; at++ {
			for ei, e := range errs {
				for _, after := range []bool{false, true} {
					c.Case(fmt.Sprintf("fault/%d/%d/%d/%v", rep, at, ei, after), func(k *kit.Case) {
						p := c19New(k, time.Now().Unix())
						v := c19Verifiers(fw.S.DPoP, 1)[0]
						plan.arm(map[int]error{at: e}, map[int]bool{at: after})
						ok := p.verify(context.Background(), k, v)
						_, hits := plan.disarm()
						if len(hits) > 0 {
							k.Event("faults")
							k.Check(!ok, "fault-ignored", "proof accepted although %v failed with %v", hits, e)
						}
						n := 0
						if ok {
							n++
						}
						for j := 0; j < 3; j++ {
							if p.verify(context.Background(), k, v) {
								n++
							}
						}
						k.Check(n <= 1, "replay", "proof accepted %d times around a storage fault at %v", n, hits)
						q := c19New(k, time.Now().Unix())
						k.Check(q.verify(context.Background(), k, v), "blocked", "fresh proof refused after a storage fault")
						k.Sig("fault %d %d %v %v", at, ei, after, hits)
					})
				}
			}
		}
	}
	c.Require("faults", 100)
	c.Require("accepted", 500)
	c.Require("refused", 500)
}

func c19Time(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 100)
	c.Require("refused", 1000)
	for i := 0; i < c.N(250, 6000); i++ {
		c.Case(fmt.Sprintf("time/%d", i), func(k *kit.Case) {
			r := k.R
			st := kit.NewStores("verifiable")
			vs := c19Verifiers(st.DPoP, 2)
			time.Sleep(time.Duration(r.Intn(1000)) * time.Millisecond)
			start := time.Now()
			type live struct {
				p   *c19Proof
				iat int64
				ok  int
			}
			var ps []*live
			for n := 0; n < 3; n++ {
				iat := start.Unix() + int64(r.Intn(45)) - 5
				ps = append(ps, &live{p: c19New(k, iat), iat: iat})
			}
			var steps []int
			for t := 0; t < 40; t++ {
				step := r.Intn(2500)
				steps = append(steps, step)
				time.Sleep(time.Duration(step) * time.Millisecond)
				l := ps[r.Intn(len(ps))]
				age := time.Now().Unix() - l.iat
				ok := l.p.verify(ctx, k, vs[r.Intn(2)])
				k.Log("t=%v proof iat%+d age %d: %v", time.Since(start), l.iat-start.Unix(), age, ok)
				if ok {
					l.ok++
					k.Check(age >= -16 && age <= 16, "window", "proof accepted %ds after its issue time", age)
				} else if l.ok == 0 {
					k.Check(age < -14 || age > 14, "blocked", "fresh proof refused %ds after its issue time", age)
				}
				k.Check(l.ok <= 1, "replay", "proof accepted %d times", l.ok)
			}
			k.Sig("%v", steps)
		})
	}
}

func c19Race(c *kit.Ctx) {
	st := kit.NewStores("verifiable")
	var dr = c.Rng("delays")
	var mu sync.Mutex
	w := kit.NewWorld(st, func(ctx context.Context, op string, do func() error) error {
		mu.Lock()
		d := dr.Intn(4)
		mu.Unlock()
		if d == 0 {
			time.Sleep(time.Duration(50) * time.Microsecond)
		}
		return do()
	})
	for i := 0; i < c.N(700, 20000); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			n := kit.Pick(k.R, 2, 4, 8)
			np := 1 + k.R.Intn(n/2+1)
			var same []int
			for j := 0; j < n; j++ {
				if j < np {
					same = append(same, j)
				} else {
					same = append(same, k.R.Intn(np))
				}
			}
			// half of the cases without delays between the calls
			ww := w
			if i%2 == 0 {
				ww = &kit.World{S: st, Raw: st}
			}
			tasks, done := c19Setup(k, ww, same)
			runParallel(k, tasks)
			done("parallel")
			k.Sig("%v", same)
		})
	}
	c.Require("accepted", 500)
	c.Require("refused", 500)
}
