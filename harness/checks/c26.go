package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	mrand "math/rand"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/gofrs/uuid"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/randomness"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/sdk/types"

	"verifharness/kit"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C26", Level: "exploration",
		Rule: "mint: generators of random secrets, prefixes and sources; every minted token is recorded and must be new, carry its prefix and give back its identifier; other secrets and every derived near miss, splice of two tokens, other numeric spelling, other prefix and garbage must be refused because the ledger does not hold them; bits: every single-symbol alteration of some tokens; sources: failing sources and forbidden prefixes; race: shared generators and verifiers. " +
			"Non-trivial: a distinct (source, prefix class, secret class, alteration, answer).",
		Assumptions: []string{"prefixes are lower-cased and trimmed by the generator", "the layout after the prefix is not judged"},
		Modes:       []kit.Mode{{Name: "mint", Run: c26Mint}, {Name: "bits", Run: c26Bits}, {Name: "sources", Run: c26Sources}, {Name: "race", Race: true, Run: c26Race}, {Name: "restart", Run: restart("C26")}, {Name: "birthday", Run: birthday("C26")}},
	})
	kit.Register(&kit.Check{
		ID: "C31", Level: "exploration",
		Rule: "sequence: random sequences of every method (with hostile arguments and panicking callbacks, each panic followed by a call with a deadline) compared value by value with the standard generator of the same seed; split: concurrent callers whose results must be a partition of the standard sequence, in order per caller; reader: concurrent and sequential reads of any size must tile the standard byte stream; global: ranges, permutation laws, moments and unpredictability of the package level functions; race: all of it under the race detector. " +
			"Non-trivial: a distinct (method, argument class, outcome) or (caller count, method) split.",
		Assumptions: []string{"the reference is math/rand of the toolchain that built the code"},
		Modes:       []kit.Mode{{Name: "sequence", Run: c31Sequence}, {Name: "split", Run: c31Split}, {Name: "reader", Run: c31Reader}, {Name: "global", Run: c31Global}, {Name: "race", Race: true, Run: c31Split}, {Name: "restart", Run: restart("C31")}, {Name: "birthday", Run: birthday("C31")}, {Name: "rare", Run: c31Rare}},
	})
	kit.Register(&kit.Check{
		ID: "C34", Level: "exploration",
		Rule: "small: every set of up to 3 elements over a case-variant alphabet with every item and query; random: large Unicode sets and operation histories compared with a reference multiset keyed by an independent case folding; compare: every pair of short byte strings and near misses at every length class; race: concurrent readers. " +
			"Non-trivial: a distinct (operation, set shape, item relation, answer).",
		Assumptions: []string{"ignoring case is Unicode simple folding", "sharing of memory between a set and its copies is not judged"},
		Modes:       []kit.Mode{{Name: "small", Run: c34Small}, {Name: "random", Run: c34Random}, {Name: "compare", Run: c34Compare}, {Name: "race", Race: true, Run: c34Race}},
	})
}

// --- C26

type c26Token struct {
	tok    string
	secret int
	id     [16]byte
	prefix string
}

type c26Ledger struct {
	mu   sync.Mutex
	toks map[string]c26Token
	list []c26Token
}

func (l *c26Ledger) add(k *kit.Case, t c26Token) {
	l.mu.Lock()
	defer l.mu.Unlock()
	_, dup := l.toks[t.tok]
	k.Check(!dup, "repeated", "token %q minted twice", t.tok)
	l.toks[t.tok] = t
	l.list = append(l.list, t)
}

func (l *c26Ledger) pick(r *mrand.Rand) c26Token {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.list[r.Intn(len(l.list))]
}

var c26Secrets = func() [][]byte {
	a := []byte("0123456789abcdef0123456789abcdef")
	flip := append([]byte{}, a...)
	flip[31] ^= 1
	long := bytes.Repeat([]byte{7}, 100)
	long2 := append([]byte{}, long...)
	long2[99] = 8
	return [][]byte{a, flip, a[:31], append(append([]byte{}, a...), 'x'), append(append([]byte{}, a...), 0), []byte("s"), long, long2, {}, bytes.ToUpper(a)}
}()

var c26Prefixes = []string{"", "sldat", "sldrt", "sldpt", "a", "0", "-", "sld-at", "sldat0", "0123456789", strings.Repeat("x", 22), strings.Repeat("y", 59), strings.Repeat("z", 300)}

// c26Judge gives a string to the verifier of a secret.
func (l *c26Ledger) judge(k *kit.Case, secret int, s, how string) {
	l.mu.Lock()
	t, minted := l.toks[s]
	l.mu.Unlock()
	want := minted && t.secret == secret
	v := verifiable.UUIDVerifier(c26Secrets[secret])
	id, err := v.Extract(s)
	verr := v.Verify(s)
	if want {
		k.Check(err == nil && bytes.Equal(id, t.id[:]), "refused", "%s: token %q gives %x %v instead of %x", how, s, id, err, t.id)
		k.Check(verr == nil, "refused", "%s: token %q: %v", how, s, verr)
		k.Event("accepted")
	} else {
		k.Check(err != nil && len(id) == 0, "accepted", "%s: never minted %q gives %x under secret %d", how, s, id, secret)
		k.Check(verr != nil, "accepted", "%s: never minted %q verified under secret %d", how, s, secret)
		k.Event("refused")
	}
	k.AddSig(fmt.Sprintf("%s/%v", how, want))
	k.Eval(1)
}

func c26Source(k *kit.Case) (verifiable.UUIDGeneratorFunc, *[16]byte, string) {
	last := new([16]byte)
	name := kit.Pick(k.R, "v4", "v7", "static", "zero", "ones", "lead0")
	var src verifiable.UUIDGeneratorFunc
	switch name {
	case "v4":
		src = verifiable.UUIDv4Source()
	case "v7":
		src = verifiable.UUIDv7Source()
	default:
		var id [16]byte
		switch name {
		case "static":
			k.R.Read(id[:])
		case "ones":
			for i := range id {
				id[i] = 255
			}
		case "lead0":
			k.R.Read(id[3:])
		}
		src = verifiable.StaticUUIDSource(id)
	}
	return func() ([16]byte, error) {
		id, err := src()
		*last = id
		return id, err
	}, last, name
}

const base62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func unbase62(s string) *big.Int {
	i, ok := new(big.Int).SetString(s, 62)
	if !ok {
		return nil
	}
	return i
}

// c26Derive lists strings made from minted tokens.
func (l *c26Ledger) derive(k *kit.Case, t c26Token) map[string]string {
	o := l.pick(k.R)
	cut := k.R.Intn(len(t.tok) + 1)
	parts, oparts := strings.Split(t.tok, "_"), strings.Split(o.tok, "_")
	out := map[string]string{
		"near": kit.NearMiss(k.R, t.tok), "mutated": string(kit.MutateBytes(k.R, []byte(t.tok))), "garbage": kit.Garbage(k.R, 120),
		"truncated": t.tok[:cut], "tail": t.tok[cut:], "twice": t.tok + t.tok, "underscore": t.tok + "_", "before": "_" + t.tok, "spaced": t.tok + " ",
		"newline": t.tok + "\n", "upper": strings.ToUpper(t.tok), "shape": kit.RandString(k.R, 22, base62) + "_" + kit.RandString(k.R, 59+k.R.Intn(2), base62),
		"shape-prefix": kit.Pick(k.R, c26Prefixes...) + "_" + kit.RandString(k.R, 22, base62) + "_" + kit.RandString(k.R, 59+k.R.Intn(2), base62),
		"prefix-added": kit.Pick(k.R, "sldat", "sldrt", "sldpt", "x", "") + "_" + t.tok,
		"random-sig":   strings.Join(parts[:len(parts)-1], "_") + "_" + kit.RandString(k.R, 59, base62),
		"zero-sig":     strings.Join(parts[:len(parts)-1], "_") + "_" + strings.Repeat("0", 59),
		"max-sig":      strings.Join(parts[:len(parts)-1], "_") + "_" + strings.Repeat("Z", 59+k.R.Intn(2)),
		"splice-sig":   strings.Join(parts[:len(parts)-1], "_") + "_" + oparts[len(oparts)-1],
	}
	if n := len(parts); n >= 2 && len(oparts) >= 2 {
		p := append([]string{}, parts...)
		p[n-2] = oparts[len(oparts)-2]
		out["splice-id"] = strings.Join(p, "_")
		if n == 3 {
			out["prefix-removed"] = strings.Join(parts[1:], "_")
			out["prefix-other"] = kit.Pick(k.R, "sldat", "sldrt", "sldpt", "a", "", "SLDAT") + "_" + strings.Join(parts[1:], "_")
			out["prefix-upper"] = strings.ToUpper(parts[0]) + "_" + strings.Join(parts[1:], "_")
			out["prefix-glued"] = parts[0] + strings.Join(parts[1:], "_")
		}
		// The same numbers spelled differently, numbers congruent to them, neighbours of them.
		for i, f := range []int{n - 2, n - 1} {
			v := unbase62(parts[f])
			if v == nil {
				continue
			}
			put := func(name string, x *big.Int, pad int) {
				p := append([]string{}, parts...)
				s := x.Text(62)
				if len(s) < pad {
					s = strings.Repeat("0", pad-len(s)) + s
				}
				p[f] = s
				out[fmt.Sprintf("%s-%d", name, i)] = strings.Join(p, "_")
			}
			put("unpadded", v, 0)
			put("padded", v, len(parts[f])+1)
			put("short", v, len(parts[f])-1)
			for _, b := range []uint{128, 352, 256, 96} {
				put(fmt.Sprint("wrap", b), new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), b)), len(parts[f]))
			}
			put("next", new(big.Int).Add(v, big.NewInt(1)), len(parts[f]))
			put("bit", new(big.Int).Xor(v, new(big.Int).Lsh(big.NewInt(1), uint(k.R.Intn(352)))), len(parts[f]))
		}
	}
	return out
}

func c26Mint(c *kit.Ctx) {
	c.Require("accepted", 1000)
	c.Require("refused", 10000)
	l := &c26Ledger{toks: map[string]c26Token{}}
	for i := 0; i < c.N(500, 15000); i++ {
		c.Case(fmt.Sprintf("mint/%d", i), func(k *kit.Case) {
			c26One(k, l)
		})
	}
}

func c26One(k *kit.Case, l *c26Ledger) {
	src, last, name := c26Source(k)
	si := k.R.Intn(len(c26Secrets))
	secret := c26Secrets[si]
	gen := verifiable.UUIDGenerator(src, append([]byte{}, secret...))
	prefix := kit.Pick(k.R, c26Prefixes...)
	spelled := prefix
	var opts []verifiable.GenerateOption
	if prefix != "" || k.R.Intn(2) == 0 {
		if k.R.Intn(3) == 0 {
			spelled = " " + strings.ToUpper(prefix) + "\t"
		}
		opts = append(opts, verifiable.WithTokenPrefix(spelled))
	}
	n := 1 + k.R.Intn(4)
	for j := 0; j < n; j++ {
		tok, err := gen.Generate(opts...)
		if !k.Check(err == nil, "generate", "prefix %q: %v", spelled, err) {
			return
		}
		if prefix != "" {
			k.Check(strings.HasPrefix(tok, prefix+"_"), "prefix", "token %q lacks prefix %q", tok, prefix)
		} else {
			k.Check(!strings.HasPrefix(tok, "_"), "prefix", "token %q", tok)
		}
		t := c26Token{tok, si, *last, prefix}
		l.add(k, t)
		l.judge(k, si, tok, "own/"+name+"/"+prefix)
		for o := range c26Secrets {
			if o != si {
				l.judge(k, o, tok, "other-secret")
			}
		}
		for how, s := range l.derive(k, t) {
			l.judge(k, si, s, how)
		}
		// Older tokens remain valid.
		old := l.pick(k.R)
		l.judge(k, old.secret, old.tok, "old")
	}
	// The token generators.
	kinds := map[tokenv1.TokenType]string{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN: "sldat_", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN: "sldrt_", tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN: "sldpt_"}
	tg := verifiable.Token(src, secret)
	var order []tokenv1.TokenType
	for kind := range kinds {
		order = append(order, kind)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	for _, kind := range order {
		tok, err := tg.Generate(context.Background(), &tokenv1.Token{TokenType: kind})
		if !k.Check(err == nil && strings.HasPrefix(tok, kinds[kind]), "kind", "%v token %q %v", kind, tok, err) {
			continue
		}
		l.add(k, c26Token{tok, si, *last, strings.TrimSuffix(kinds[kind], "_")})
		l.judge(k, si, tok, "kind/"+kind.String()+name)
		for _, o := range order {
			if o != kind {
				l.judge(k, si, kinds[o]+strings.TrimPrefix(tok, kinds[kind]), "kind-swapped")
			}
		}
	}
}

func c26Bits(c *kit.Ctx) {
	c.Require("refused", 5000)
	for i := 0; i < c.N(4, 60); i++ {
		c.Case(fmt.Sprintf("bits/%d", i), func(k *kit.Case) {
			l := &c26Ledger{toks: map[string]c26Token{}}
			src, last, _ := c26Source(k)
			si := k.R.Intn(len(c26Secrets))
			prefix := kit.Pick(k.R, "", "sldat")
			tok, err := verifiable.UUIDGenerator(src, c26Secrets[si]).Generate(verifiable.WithTokenPrefix(prefix))
			if !k.Check(err == nil, "generate", "%v", err) {
				return
			}
			l.add(k, c26Token{tok, si, *last, prefix})
			v := verifiable.UUIDVerifier(c26Secrets[si])
			n := 0
			for p := range tok {
				for _, b := range []byte(base62 + "_-+/=. \n\x00\xff") {
					if tok[p] == b {
						continue
					}
					s := tok[:p] + string([]byte{b}) + tok[p+1:]
					id, err := v.Extract(s)
					k.Check(err != nil && id == nil, "accepted", "%q accepted for minted %q", s, tok)
					ins := tok[:p] + string([]byte{b}) + tok[p:]
					id, err = v.Extract(ins)
					k.Check(err != nil && id == nil, "accepted", "%q accepted for minted %q", ins, tok)
					n += 2
				}
				s := tok[:p] + tok[p+1:]
				id, err := v.Extract(s)
				k.Check(err != nil && id == nil, "accepted", "%q accepted for minted %q", s, tok)
			}
			l.judge(k, si, tok, "own")
			c.Events("refused", n)
			c.Eval(n)
			k.Sig("bits/%d", i)
		})
	}
}

func c26Sources(c *kit.Ctx) {
	c.Require("failures", 50)
	boom := errors.New("source failed")
	for i := 0; i < c.N(100, 1000); i++ {
		c.Case(fmt.Sprintf("sources/%d", i), func(k *kit.Case) {
			src, _, name := c26Source(k)
			fail := k.R.Intn(2) == 0
			prefix := kit.Pick(k.R, "", "ok", "a_b", "a b", "é", "a/b", "_", "a.b", "a\nb", "ſ", "a:b", "~")
			bad := strings.Trim(strings.ToLower(prefix), "abcdefghijklmnopqrstuvwxyz0123456789-") != ""
			if fail {
				src = func() ([16]byte, error) { return [16]byte{1}, boom }
			}
			tok, err := verifiable.UUIDGenerator(src, c26Secrets[0]).Generate(verifiable.WithTokenPrefix(prefix))
			if fail || bad {
				k.Check(err != nil && tok == "", "generate", "prefix %q, source failure %v: token %q error %v", prefix, fail, tok, err)
				if fail && !bad {
					k.Check(errors.Is(err, boom), "cause", "source error became %v", err)
				}
				tok, err = verifiable.Token(src, c26Secrets[0]).Generate(context.Background(), &tokenv1.Token{TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN})
				k.Check(!fail || err != nil && tok == "", "generate", "source failure: token %q error %v", tok, err)
				c.Event("failures")
			} else {
				k.Check(err == nil && tok != "", "generate", "prefix %q: %v", prefix, err)
			}
			tok, err = verifiable.Token(src, c26Secrets[0]).Generate(context.Background(), nil)
			k.Check(err != nil && tok == "", "nil", "nil token gives %q %v", tok, err)
			k.Sig("%s/%v/%q", name, fail, prefix)
		})
	}
	// Sources give identifiers of their version and never twice the same.
	c.Case("versions", func(k *kit.Case) {
		seen := map[[16]byte]bool{}
		for name, src := range map[string]verifiable.UUIDGeneratorFunc{"4": verifiable.UUIDv4Source(), "7": verifiable.UUIDv7Source()} {
			for i := 0; i < 3000; i++ {
				id, err := src()
				k.Check(err == nil && !seen[id], "repeated", "source %s gave %x %v twice", name, id, err)
				seen[id] = true
				u := uuid.UUID(id)
				k.Check(fmt.Sprint(u.Version()) == name && u.Variant() == uuid.VariantRFC4122, "version", "source v%s gave %v", name, u)
			}
			k.Sig("v%s", name)
		}
		st := verifiable.StaticUUIDSource([16]byte{1, 2, 3})
		for i := 0; i < 3; i++ {
			id, err := st()
			k.Check(err == nil && id == [16]byte{1, 2, 3}, "static", "%x %v", id, err)
		}
	})
}

func c26Race(c *kit.Ctx) {
	c.Require("accepted", 300)
	c.Require("refused", 1000)
	for i := 0; i < c.N(2, 40); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			si := k.R.Intn(len(c26Secrets))
			secret := append([]byte{}, c26Secrets[si]...)
			gen := verifiable.UUIDGenerator(verifiable.UUIDv7Source(), secret)
			var id [16]byte
			k.R.Read(id[:])
			static := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(id), secret)
			ver := verifiable.UUIDVerifier(secret)
			var mu sync.Mutex
			seen := map[string]bool{}
			ids := map[string]bool{}
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 60; j++ {
						prefix := kit.Pick(sub.R, "", "sldat", "sldrt")
						g, st := gen, sub.R.Intn(2) == 0
						if st {
							g = static
						}
						tok, err := g.Generate(verifiable.WithTokenPrefix(prefix))
						if !sub.Check(err == nil, "generate", "%v", err) {
							return
						}
						got, err := ver.Extract(tok)
						sub.Check(err == nil && len(got) == 16, "refused", "own token %q refused: %v", tok, err)
						if st {
							sub.Check(bytes.Equal(got, id[:]), "id", "token %q gives %x instead of %x", tok, got, id)
						}
						mu.Lock()
						sub.Check(!seen[tok] && (st || !ids[string(got)]), "repeated", "token %q (%x) minted twice", tok, got)
						seen[tok] = true
						ids[string(got)] = true
						mu.Unlock()
						c.Event("accepted")
						for _, s := range []string{string(kit.MutateBytes(sub.R, []byte(tok))), kit.NearMiss(sub.R, tok), kit.Garbage(sub.R, 90)} {
							mu.Lock()
							m := seen[s]
							mu.Unlock()
							if !m {
								sub.Check(ver.Verify(s) != nil, "accepted", "never minted %q verified", s)
								c.Event("refused")
							}
						}
					}
				})
			}
			wg.Wait()
			k.Sig("%d", si)
		})
	}
}

// --- C31

type c31Source interface {
	Seed(int64)
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	Float64() float64
	Float32() float32
	Perm(int) []int
	NormFloat64() float64
	ExpFloat64() float64
	Shuffle(int, func(i, j int))
	Read([]byte) (int, error)
}

// c31Call applies one drawn operation; the same (op, arg) on equal generators must give the same text.
func c31Call(s c31Source, op int, arg int64) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "panic"
		}
	}()
	switch op {
	case 0:
		s.Seed(arg)
		return "seeded"
	case 1:
		return fmt.Sprint(s.Int63())
	case 2:
		return fmt.Sprint(s.Uint32())
	case 3:
		return fmt.Sprint(s.Uint64())
	case 4:
		return fmt.Sprint(s.Int31())
	case 5:
		return fmt.Sprint(s.Int())
	case 6:
		return fmt.Sprint(s.Int63n(arg))
	case 7:
		return fmt.Sprint(s.Int31n(int32(arg)))
	case 8:
		return fmt.Sprint(s.Intn(int(arg)))
	case 9:
		return fmt.Sprint(math.Float64bits(s.Float64()))
	case 10:
		return fmt.Sprint(math.Float32bits(s.Float32()))
	case 11:
		return fmt.Sprint(s.Perm(int(arg % 50)))
	case 12:
		return fmt.Sprint(math.Float64bits(s.NormFloat64()))
	case 13:
		return fmt.Sprint(math.Float64bits(s.ExpFloat64()))
	case 14:
		var b strings.Builder
		s.Shuffle(int(arg%50), func(i, j int) { fmt.Fprintf(&b, "%d-%d,", i, j) })
		return b.String()
	case 15:
		n := 0
		s.Shuffle(int(arg%50), func(i, j int) {
			if n++; n == 3 {
				panic("callback")
			}
		})
		return "shuffled"
	default:
		b := make([]byte, max(0, int(arg%70)))
		n, err := s.Read(b)
		return fmt.Sprintf("%d %v %x", n, err, b)
	}
}

var c31Ops = []string{"Seed", "Int63", "Uint32", "Uint64", "Int31", "Int", "Int63n", "Int31n", "Intn", "Float64", "Float32", "Perm", "NormFloat64", "ExpFloat64", "Shuffle", "ShufflePanic", "Read"}

func c31Sequence(c *kit.Ctx) {
	c.Require("values", 20000)
	c.Require("panics", 200)
	for i := 0; i < c.N(300, 8000); i++ {
		c.Case(fmt.Sprintf("sequence/%d", i), func(k *kit.Case) {
			seed := k.R.Int63() - k.R.Int63()
			if k.R.Intn(4) == 0 {
				seed = kit.Pick(k.R, int64(0), 1, -1, math.MaxInt64, math.MinInt64, 89482311, 1<<31-1, 1<<31)
			}
			var s c31Source = randomness.NewLockedRand(seed)
			var ref c31Source = mrand.New(mrand.NewSource(seed))
			for j := 0; j < 120; j++ {
				op := k.R.Intn(len(c31Ops))
				var arg int64
				class := "pos"
				switch k.R.Intn(10) {
				case 0:
					arg, class = kit.Pick(k.R, int64(0), -1, math.MinInt64, math.MinInt32, -5), "nonpos"
				case 1:
					arg, class = kit.Pick(k.R, int64(1), 2, math.MaxInt32, math.MaxInt64, 1<<31, 1<<32, 1<<62), "edge"
				case 2:
					arg, class = 1<<uint(k.R.Intn(62)), "pow2"
				default:
					arg = 1 + k.R.Int63n(1<<uint(1+k.R.Intn(60)))
				}
				want := c31Call(ref, op, arg)
				done := make(chan string, 1)
				if want == "panic" {
					// The lock must have been released: the next call has a deadline.
					got := c31Call(s, op, arg)
					k.Check(got == want, "sequence", "%s(%d) gave %s, want a panic", c31Ops[op], arg, got)
					c.Event("panics")
					want = fmt.Sprint(ref.Int63())
					go func() { done <- fmt.Sprint(s.Int63()) }()
					select {
					case got = <-done:
						k.Check(got == want, "sequence", "after a panic of %s(%d): Int63 gave %s, want %s", c31Ops[op], arg, got, want)
					case <-time.After(20 * time.Second):
						k.Fatal("deadlock", "a call after the panic of %s(%d) never returned", c31Ops[op], arg)
					}
				} else {
					got := c31Call(s, op, arg)
					if !k.Check(got == want, "sequence", "seed %d, step %d: %s(%d) gave %s, want %s", seed, j, c31Ops[op], arg, got, want) {
						return
					}
				}
				c.Event("values")
				c.AddSig(fmt.Sprintf("%s/%s/%v", c31Ops[op], class, want == "panic"))
			}
			k.Trivial()
		})
	}
}

// c31Split: concurrent callers share the sequence.
func c31Split(c *kit.Ctx) {
	c.Require("values", 20000)
	single := []int{1, 2, 3, 4, 5, 9, 10, 12, 13}
	for i := 0; i < c.N(40, 600); i++ {
		c.Case(fmt.Sprintf("split/%d", i), func(k *kit.Case) {
			op := single[i%len(single)]
			var arg int64
			if i >= 2*len(single) {
				op = kit.Pick(k.R, 6, 7, 8, 11, 14)
				arg = 40 + k.R.Int63n(9)
				if op < 11 {
					arg = 1 + k.R.Int63n(math.MaxInt32)
				}
			}
			seed := k.R.Int63()
			panics := k.R.Intn(3) == 0
			s := randomness.NewLockedRand(seed)
			callers, calls := 2+k.R.Intn(7), 200
			got := make([][]string, callers)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for n := 0; n < callers; n++ {
				k.Go(&wg, func() {
					<-start
					for j := 0; j < calls; j++ {
						got[n] = append(got[n], c31Call(s, op, arg))
						if panics && j%20 == 0 {
							c31Call(s, 8, 0) // consumes nothing
						}
					}
				})
			}
			close(start)
			wg.Wait()
			// The reference sequence, as value -> positions.
			ref := mrand.New(mrand.NewSource(seed))
			where := map[string][]int{}
			for j := 0; j < callers*calls; j++ {
				v := c31Call(ref, op, arg)
				where[v] = append(where[v], j)
			}
			used := map[string]int{}
			switches, prev := 0, -1
			owner := make([]int, callers*calls)
			for n := range got {
				last := -1
				for j, v := range got[n] {
					used[v]++
					if !k.Check(used[v] <= len(where[v]), "split", "%s: value %s given %d times, the reference gives it %d times", c31Ops[op], v, used[v], len(where[v])) {
						return
					}
					if len(where[v]) == 1 {
						p := where[v][0]
						k.Check(p > last, "order", "%s: caller %d call %d got position %d after position %d", c31Ops[op], n, j, p, last)
						last = p
						owner[p] = n
					}
					c.Event("values")
				}
			}
			for _, o := range owner {
				if o != prev {
					switches++
				}
				prev = o
			}
			c.Events("caller-switches", switches)
			k.Sig("%d/%s/%v", callers, c31Ops[op], panics)
		})
	}
}

func c31Reader(c *kit.Ctx) {
	c.Require("bytes", 50000)
	for i := 0; i < c.N(100, 2000); i++ {
		c.Case(fmt.Sprintf("reader/%d", i), func(k *kit.Case) {
			seed := k.R.Int63()
			rd := randomness.NewReader(seed)
			callers := 1 + k.R.Intn(6)*k.R.Intn(2)
			var mu sync.Mutex
			chunks := []string{}
			total := 0
			var wg sync.WaitGroup
			for n := 0; n < callers; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 30; j++ {
						size := 12 + sub.R.Intn(40)
						if callers == 1 {
							size = kit.Pick(sub.R, 0, 1, 2, 3, 6, 7, 8, 9, 64, 1000, 4095, 4096, 4097, 8191+sub.R.Intn(4), 65536+sub.R.Intn(9))
						}
						pad := append(make([]byte, size), 0xEE, 0xEE, 0xEE)
						got, err := rd.Read(pad[:size])
						sub.Check(got == size && err == nil, "short", "read of %d gave %d %v", size, got, err)
						sub.Check(bytes.Equal(pad[size:], []byte{0xEE, 0xEE, 0xEE}), "overrun", "read of %d wrote past the buffer", size)
						mu.Lock()
						chunks = append(chunks, string(pad[:size]))
						total += size
						mu.Unlock()
					}
				})
			}
			wg.Wait()
			ref := make([]byte, total)
			_, _ = io.ReadFull(mrand.New(mrand.NewSource(seed)), ref)
			if callers == 1 {
				k.Check(strings.Join(chunks, "") == string(ref), "stream", "sequential reads of seed %d are not the standard stream", seed)
			} else {
				// Each chunk of 12 bytes or more has one place; together they cover the stream exactly.
				cover := make([]int, total)
				for _, ch := range chunks {
					p := bytes.Index(ref, []byte(ch))
					if !k.Check(p >= 0, "stream", "chunk %x is not in the standard stream", ch) {
						return
					}
					for x := 0; x < len(ch); x++ {
						cover[p+x]++
					}
				}
				for p, n := range cover {
					if !k.Check(n == 1, "tiling", "byte %d of the stream was given %d times", p, n) {
						return
					}
				}
			}
			c.Events("bytes", total)
			k.Sig("%d/%d", callers, total/100)
		})
	}
	c.Case("large", func(k *kit.Case) {
		for _, size := range []int{4096, 4097, 8192, 65535, 65536, 65537, 1 << 20, 5<<20 + 3} {
			rd := randomness.NewReader(int64(size))
			got, ref := make([]byte, size), make([]byte, size)
			n, err := rd.Read(got)
			_, _ = mrand.New(mrand.NewSource(int64(size))).Read(ref)
			k.Check(n == size && err == nil, "short", "read of %d gave %d %v", size, n, err)
			k.Check(bytes.Equal(got, ref), "stream", "one read of %d bytes is not the standard stream", size)
			c.Events("bytes", size)
		}
		k.Sig("large")
	})
	c.Case("copy", func(k *kit.Case) {
		for _, size := range []int64{1, 511, 4096, 100000} {
			var buf bytes.Buffer
			n, err := io.CopyN(&buf, randomness.NewReader(5), size)
			ref := make([]byte, size)
			_, _ = mrand.New(mrand.NewSource(5)).Read(ref)
			// CopyN reads in blocks: the stream position carries over.
			k.Check(err == nil && n == size && bytes.Equal(buf.Bytes(), ref), "stream", "copied %d of %d bytes, error %v, or other bytes than the standard stream", n, size, err)
		}
		k.Sig("copy")
	})
}

func c31Global(c *kit.Ctx) {
	c.Require("values", 100000)
	c.Case("seeds", func(k *kit.Case) {
		known := map[int64]bool{}
		for s := int64(-10); s < 200; s++ {
			r := mrand.New(mrand.NewSource(s))
			for j := 0; j < 3000; j++ {
				known[r.Int63()] = true
			}
		}
		for j := 0; j < 1000; j++ {
			v := randomness.Int63()
			if !k.Check(!known[v], "predictable", "global value %d belongs to the sequence of a small seed", v) {
				return
			}
		}
		seen := map[int64]bool{}
		for j := 0; j < 2000; j++ {
			v := randomness.CryptoSeed()
			k.Check(!seen[v] && !known[v], "seed", "seed %d repeated", v)
			seen[v] = true
		}
		blocks := map[string]bool{}
		for j := 0; j < 2000; j++ {
			b := make([]byte, 16)
			n, err := io.ReadFull(randomness.Reader, b)
			k.Check(n == 16 && err == nil && !blocks[string(b)], "reader", "block %x %v", b, err)
			blocks[string(b)] = true
		}
		for s := int64(-10); s < 200; s++ {
			b := make([]byte, 16)
			_, _ = mrand.New(mrand.NewSource(s)).Read(b)
			k.Check(!blocks[string(b)], "predictable", "the global reader gives the stream of seed %d", s)
		}
		// The global reader is not one of the other global streams from its start.
		var sign, top int
		for s := range seen {
			if s < 0 {
				sign++
			}
			if s>>61&1 == 1 {
				top++
			}
		}
		k.Check(sign > 800 && sign < 1200 && top > 800 && top < 1200, "seed", "seeds do not use their high bits: %d negative of 2000", sign)
		k.Sig("seeds")
	})
	for i := 0; i < c.N(40, 400); i++ {
		c.Case(fmt.Sprintf("ranges/%d", i), func(k *kit.Case) {
			n := 1 + k.R.Int63n(1<<uint(1+k.R.Intn(40)))
			n31 := int32(n%math.MaxInt32) + 1
			var or63, or31, oru32, oru64 uint64
			sum, fsum, fsum32, nsum, nsq, esum := 0.0, 0.0, 0.0, 0.0, 0.0, 0.0
			const N = 4000
			for j := 0; j < N; j++ {
				v := randomness.Int63n(n)
				k.Check(v >= 0 && v < n, "range", "Int63n(%d) = %d", n, v)
				sum += float64(v) / float64(n)
				w := randomness.Int31n(n31)
				k.Check(w >= 0 && w < n31, "range", "Int31n(%d) = %d", n31, w)
				x := randomness.Intn(int(n))
				k.Check(x >= 0 && x < int(n), "range", "Intn(%d) = %d", n, x)
				f, f32 := randomness.Float64(), randomness.Float32()
				k.Check(f >= 0 && f < 1 && f32 >= 0 && f32 < 1, "range", "Float64 %v Float32 %v", f, f32)
				fsum += f
				fsum32 += float64(f32)
				e := randomness.ExpFloat64()
				k.Check(e > 0, "range", "ExpFloat64 %v", e)
				esum += e
				g := randomness.NormFloat64()
				nsum += g
				nsq += g * g
				a, b, d := randomness.Int63(), randomness.Int31(), randomness.Int()
				k.Check(a >= 0 && b >= 0 && d >= 0, "range", "Int63 %d Int31 %d Int %d", a, b, d)
				or63 |= uint64(a)
				or31 |= uint64(b)
				oru32 |= uint64(randomness.Uint32())
				oru64 |= randomness.Uint64()
			}
			if n > 1000 {
				k.Check(math.Abs(sum/N-0.5) < 0.05, "mean", "Int63n(%d) averages %v of its range", n, sum/N)
			}
			k.Check(math.Abs(fsum/N-0.5) < 0.05 && math.Abs(fsum32/N-0.5) < 0.05, "mean", "Float64 averages %v, Float32 %v", fsum/N, fsum32/N)
			k.Check(math.Abs(esum/N-1) < 0.15 && math.Abs(nsum/N) < 0.15 && math.Abs(nsq/N-1) < 0.25, "moments", "ExpFloat64 averages %v; NormFloat64 %v, variance %v", esum/N, nsum/N, nsq/N)
			k.Check(or63 == 1<<63-1 && or31 == 1<<31-1 && oru32 == 1<<32-1 && oru64 == math.MaxUint64, "bits", "bits never set: Int63 %x Int31 %x Uint32 %x Uint64 %x", or63, or31, oru32, oru64)
			p := randomness.Perm(int(n % 60))
			xs := make([]int, len(p))
			for j := range xs {
				xs[j] = j
			}
			randomness.Shuffle(len(xs), func(a, b int) { xs[a], xs[b] = xs[b], xs[a] })
			for _, l := range [][]int{p, xs} {
				s := append([]int{}, l...)
				sort.Ints(s)
				for j := range s {
					k.Check(s[j] == j && len(s) == int(n%60), "permutation", "%v is not a permutation", l)
				}
				if len(l) > 20 {
					k.Check(!sort.IntsAreSorted(l), "permutation", "%v is not shuffled", l)
				}
			}
			// A panic of one caller does not block the others.
			for _, op := range []func(){func() { randomness.Intn(0) }, func() { randomness.Int63n(-1) }, func() { randomness.Int31n(0) }, func() { randomness.Perm(-1) },
				func() { randomness.Shuffle(3, func(int, int) { panic("x") }) }} {
				func() {
					defer func() { k.Check(recover() != nil, "panic", "an impossible request was answered") }()
					op()
				}()
				done := make(chan struct{})
				go func() { randomness.Int63(); close(done) }()
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					k.Fatal("deadlock", "the global source is locked after a panic")
				}
			}
			c.Events("values", 12*N)
			k.Sig("%d", n)
		})
	}
}

// --- C34

// fold maps a string to a canonical representative of its case variants, by orbit.
func fold(s string) string {
	var out []rune
	for _, r := range s {
		m := r
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			if f < m {
				m = f
			}
		}
		out = append(out, m)
	}
	return string(out)
}

func c34Member(set []string, item string) bool {
	f := fold(item)
	for _, s := range set {
		if fold(s) == f {
			return true
		}
	}
	return false
}

func c34Judge(k *kit.Case, set, query []string, item string) {
	s := types.StringArray(append([]string(nil), set...))
	if len(set) == 0 && k.R.Intn(2) == 0 {
		s = nil
	}
	frozen := func(when string) {
		k.Check(len(s) == len(set) && strings.Join(s, "\x01") == strings.Join(set, "\x01"), "changed", "%s changed %q into %q", when, set, s)
	}
	want := c34Member(set, item)
	k.Check(s.Contains(item) == want, "contains", "%q contains %q: %v, want %v", set, item, !want, want)
	all, some := len(query) > 0, false
	for _, q := range query {
		m := c34Member(set, q)
		all = all && m
		some = some || m
	}
	k.Check(s.HasAll(query...) == all, "all", "%q has all of %q: %v, want %v", set, query, !all, all)
	k.Check(s.HasOneOf(query...) == some, "one", "%q has one of %q: %v, want %v", set, query, !some, some)
	frozen("a query")
	// Adding.
	t := types.StringArray(append([]string(nil), set...))
	t.AddIfNotContains(item)
	exp := append([]string(nil), set...)
	if !want {
		exp = append(exp, item)
	}
	k.Check(sameStrings(t, exp), "add", "adding %q to %q gives %q", item, set, t)
	k.Check(t.Contains(item), "add", "%q is not a member of %q after it was added", item, t)
	// Removing.
	r := types.StringArray(append([]string(nil), set...))
	r.Remove(item)
	exp = nil
	for _, e := range set {
		if fold(e) != fold(item) {
			exp = append(exp, e)
		}
	}
	k.Check(sameStrings(r, exp), "remove", "removing %q from %q gives %q", item, set, r)
	frozen("an operation on a copy")
	k.AddSig(fmt.Sprintf("%d/%d/%v/%v/%v", len(set), len(query), want, all, some))
	k.Eval(1)
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var c34Alpha = []string{"a", "A", "b", "", "ab", " a", "k", "K", "ß"} // the Kelvin sign folds to k

func c34Small(c *kit.Ctx) {
	c.Case("small", func(k *kit.Case) {
		var sets [][]string
		var build func(cur []string, n int)
		build = func(cur []string, n int) {
			sets = append(sets, append([]string(nil), cur...))
			if n == 0 {
				return
			}
			for _, a := range c34Alpha {
				build(append(cur, a), n-1)
			}
		}
		build(nil, 3)
		n := 0
		for _, set := range sets {
			for i, item := range c34Alpha {
				c34Judge(k, set, []string{item}, item)
				o := c34Alpha[(i+1)%len(c34Alpha)]
				c34Judge(k, set, []string{item, o}, o)
				c34Judge(k, set, []string{o, item, item}, strings.ToUpper(item))
				n += 3
			}
			c34Judge(k, set, nil, "zz")
		}
		c.Events("judged", n)
	})
	c.Require("judged", 10000)
}

func c34Word(k *kit.Case, pool []string) string {
	switch k.R.Intn(6) {
	case 0, 1:
		return kit.Pick(k.R, pool...)
	case 2:
		return strings.ToUpper(kit.Pick(k.R, pool...))
	case 3:
		return kit.NearMiss(k.R, kit.Pick(k.R, pool...))
	case 4:
		// another member of the orbit of some rune
		r := []rune(kit.Pick(k.R, pool...))
		if len(r) > 0 {
			i := k.R.Intn(len(r))
			r[i] = unicode.SimpleFold(r[i])
		}
		return string(r)
	default:
		return utf(k, 8)
	}
}

func c34Random(c *kit.Ctx) {
	c.Require("histories", 300)
	for i := 0; i < c.N(400, 20000); i++ {
		c.Case(fmt.Sprintf("random/%d", i), func(k *kit.Case) {
			pool := []string{"openid", "profile", "offline_access", "Straße", "ΣΊΣΥΦΟΣ", "kelvin", "é", "İi", "ǅ", "ſcope", "", " "}
			for j := 0; j < 4; j++ {
				if w := utf(k, 10); utf8.ValidString(w) {
					pool = append(pool, w)
				}
			}
			var set, query []string
			for j := k.R.Intn(20); j > 0; j-- {
				set = append(set, c34Word(k, pool))
			}
			for j := k.R.Intn(5); j > 0; j-- {
				query = append(query, c34Word(k, pool))
			}
			c34Judge(k, set, query, c34Word(k, pool))
			// A history on one set, next to a reference.
			s := types.StringArray{}
			var ref []string
			for j := 0; j < 30; j++ {
				w := c34Word(k, pool)
				if k.R.Intn(3) == 0 {
					s.Remove(w)
					var keep []string
					for _, e := range ref {
						if fold(e) != fold(w) {
							keep = append(keep, e)
						}
					}
					ref = keep
				} else {
					s.AddIfNotContains(w)
					if !c34Member(ref, w) {
						ref = append(ref, w)
					}
				}
				if !k.Check(sameStrings(s, ref), "history", "after %q the set is %q, want %q", w, s, ref) {
					return
				}
			}
			c.Event("histories")
			k.Trivial()
		})
	}
}

func c34Same(k *kit.Case, a, b []byte) {
	want := string(a) == string(b)
	k.Check(types.SecureCompare(a, b) == want, "compare", "SecureCompare of %d and %d bytes, %.40q and %.40q: %v", len(a), len(b), a, b, !want)
	k.Check(types.SecureCompareString(string(a), string(b)) == want, "compare", "SecureCompareString of %d and %d bytes, %.40q and %.40q: %v", len(a), len(b), a, b, !want)
	k.Event(fmt.Sprintf("equal-%v", want))
	k.Eval(1)
}

func c34Compare(c *kit.Ctx) {
	c.Require("equal-true", 500)
	c.Require("equal-false", 20000)
	c.Case("short", func(k *kit.Case) {
		all := [][]byte{nil, {}}
		al := []byte{0, 1, 0x7f, 0x80, 0xff, 'a', 'A', ' '}
		for _, x := range al {
			all = append(all, []byte{x})
			for _, y := range al {
				all = append(all, []byte{x, y})
				for _, z := range []byte{0, 'a', 0xff} {
					all = append(all, []byte{x, y, z})
				}
			}
		}
		for _, a := range all {
			for _, b := range all {
				c34Same(k, a, b)
			}
		}
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				c34Same(k, []byte{byte(x)}, []byte{byte(y)})
			}
		}
		k.Sig("short")
	})
	for i := 0; i < c.N(60, 2000); i++ {
		c.Case(fmt.Sprintf("long/%d", i), func(k *kit.Case) {
			n := kit.Pick(k.R, 1, 2, 7, 8, 16, 31, 32, 43, 64, 127, 128, 255, 256, 257, 512, 1000, 65535, 65536, 65537)
			a := make([]byte, n)
			k.R.Read(a)
			c34Same(k, a, append([]byte{}, a...))
			for j := 0; j < 20; j++ {
				b := append([]byte{}, a...)
				p := kit.Pick(k.R, 0, n-1, n/2, k.R.Intn(n))
				b[p] ^= 1 << k.R.Intn(8)
				c34Same(k, a, b)
				// Two differences that cancel in a sum or an exclusive or.
				if n > 1 {
					b = append([]byte{}, a...)
					q := (p + 1 + k.R.Intn(n-1)) % n
					d := byte(1 + k.R.Intn(255))
					b[p] ^= d
					b[q] ^= d
					c34Same(k, a, b)
					b = append([]byte{}, a...)
					b[p], b[q] = b[q], b[p]
					c34Same(k, a, b)
				}
			}
			for _, m := range []int{0, 1, n / 2, n - 1, n + 1, n + 256, 2 * n, n + 65536} {
				b := make([]byte, m)
				copy(b, a)
				if m > n && m == 2*n {
					copy(b[n:], a)
				}
				c34Same(k, a, b)
				c34Same(k, b, a)
			}
			k.Sig("%d", n)
		})
	}
}

func c34Race(c *kit.Ctx) {
	c.Require("judged", 2000)
	c.Case("race", func(k *kit.Case) {
		set := types.StringArray{"openid", "Profile", "offline_access", "é"}
		var wg sync.WaitGroup
		for n := 0; n < 8; n++ {
			sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprint("race/", n))}
			k.Go(&wg, func() {
				for j := 0; j < c.N(400, 8000); j++ {
					w := kit.Pick(sub.R, "OPENID", "profile", "É", "x", "")
					want := c34Member(set, w)
					sub.Check(set.Contains(w) == want && set.HasAll(w) == want && set.HasOneOf("y", w) == want, "contains", "%q", w)
					sub.Check(types.SecureCompareString(w, set[0]) == (w == set[0]), "compare", "%q", w)
					c.Event("judged")
				}
			})
		}
		wg.Wait()
	})
}
