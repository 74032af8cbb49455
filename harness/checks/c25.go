package checks

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/bits"
	"strings"
	"sync"

	"verifharness/kit"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C25", Level: "exploration",
		Rule: "generate: thousands of verifiers recorded in a ledger (format, challenge, no shared 12-character window, entropy per position); validate: random, near-miss, re-encoded, truncated and foreign pairs judged by an independent S256; service: codes requested with exact and altered challenges, redeemed with exact and altered verifiers through the two services; race: concurrent generation and validation. " +
			"Non-trivial: a distinct (verifier class, challenge alteration, answer).",
		Assumptions: []string{"a refusal is either false or an error", "validation does not judge the length of the verifier (the endpoint contract is the S256 equation)"},
		Modes:       []kit.Mode{{Name: "generate", Run: c25Generate}, {Name: "validate", Run: c25Validate}, {Name: "service", Run: c25Service}, {Name: "race", Race: true, Run: c25Race}, {Name: "restart", Run: restart("C25")}, {Name: "birthday", Run: birthday("C25")}},
	})
	kit.Register(&kit.Check{
		ID: "C27", Level: "exploration",
		Rule: "ledger: identifiers of many (salt, sector, subject) triples, each recomputed by fresh instances, goroutines and interleaved calls; any two distinct triples must differ, in about half of their bits; boundary: triples with the same concatenation of sector and subject; families: groups of sectors and of subjects which normalisations, parsers or formatters would confuse; refuse: short salts and blank subjects; race: one instance shared by goroutines. " +
			"Non-trivial: a distinct (salt size, sector class, subject class, relation).",
		Assumptions: []string{"white space around a subject is normalised away and not judged", "salts longer than the hash key limit (64 bytes) are refused, which is not judged"},
		Modes:       []kit.Mode{{Name: "ledger", Run: c27Ledger}, {Name: "boundary", Run: c27Boundary}, {Name: "families", Run: c27Families}, {Name: "refuse", Run: c27Refuse}, {Name: "race", Race: true, Run: c27Race}, {Name: "restart", Run: restart("C27")}},
	})
	kit.Register(&kit.Check{
		ID: "C28", Level: "exploration",
		Rule: "generate: every generator called many thousand times: format, ledger of values, no shared 12-character window, every symbol at every position, frequency of symbols and of repetitions against chance; validate: every generated value and near misses, garbage and mutations of them given to the validators; race: concurrent generation into one ledger. " +
			"Non-trivial: a distinct (generator, position, symbol) or (validator, input class, answer).",
		Assumptions: []string{"user codes are short by design: they may repeat as often as chance over their alphabet allows", "white space around a validated string is trimmed and not judged", "code validators are judged on what their syntax states: the length"},
		Modes:       []kit.Mode{{Name: "generate", Run: c28Generate}, {Name: "validate", Run: c28Validate}, {Name: "race", Race: true, Run: c28Race}, {Name: "restart", Run: restart("C28")}, {Name: "birthday", Run: birthday("C28")}},
	})
}

// --- C25

const unreserved = kit.Alnum + "-._~"

func s256(v string) string {
	h := sha256.Sum256([]byte(v))
	return strings.TrimRight(base64.URLEncoding.EncodeToString(h[:]), "=")
}

// windows records every w-character substring; a substring seen before is reported.
type windows struct {
	mu   sync.Mutex
	w    int
	seen map[string]bool
}

func newWindows(w int) *windows { return &windows{w: w, seen: map[string]bool{}} }

func (x *windows) add(s string) (string, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for i := 0; i+x.w <= len(s); i++ {
		p := s[i : i+x.w]
		if x.seen[p] {
			return p, false
		}
		x.seen[p] = true
	}
	return "", true
}

func c25Generate(c *kit.Ctx) {
	c.Require("verifiers", 3000)
	c.Case("ledger", func(k *kit.Case) {
		seen := map[string]bool{}
		win := newWindows(12)
		var pos []map[byte]int
		n := c.N(4000, 60000)
		for i := 0; i < n; i++ {
			v, ch, err := pkce.CodeVerifier()
			if !k.Check(err == nil, "error", "%v", err) {
				return
			}
			k.Check(len(v) >= 43 && len(v) <= 128 && strings.Trim(v, unreserved) == "", "format", "verifier %q", v)
			k.Check(ch == s256(v), "challenge", "verifier %q has challenge %q instead of %q", v, ch, s256(v))
			ok, err := pkce.Validate(ch, v)
			k.Check(ok && err == nil, "own", "generated pair %q %q refused: %v", v, ch, err)
			k.Check(!seen[v], "repeated", "verifier %q generated twice", v)
			seen[v] = true
			if p, fresh := win.add(v); !fresh {
				k.Fatal("window", "verifier %q shares %q with an earlier one", v, p)
			}
			for len(pos) < len(v) {
				pos = append(pos, map[byte]int{})
			}
			for j := range v {
				pos[j][v[j]]++
			}
			c.Event("verifiers")
		}
		entropy := 0.0
		for j, m := range pos {
			entropy += float64(bits.Len(uint(len(m) - 1)))
			for b := range m {
				c.AddSig(fmt.Sprintf("%d/%c", j, b))
			}
			for b, count := range m {
				k.Check(count < n/4, "skew", "symbol %q is at position %d of %d of %d verifiers", b, j, count, n)
			}
		}
		k.Check(entropy >= 256, "entropy", "positions show at most %.0f bits", entropy)
		c.Eval(n)
	})
}

func c25Verifier(k *kit.Case) (string, string) {
	switch k.R.Intn(7) {
	case 0:
		v, _, _ := pkce.CodeVerifier()
		return v, "generated"
	case 1:
		return kit.RandString(k.R, 43, unreserved), "min"
	case 2:
		return kit.RandString(k.R, 128, unreserved), "max"
	case 3:
		return kit.RandString(k.R, 44+k.R.Intn(84), unreserved), "mid"
	case 4:
		return kit.RandString(k.R, 1+k.R.Intn(42), unreserved), "short"
	case 5:
		return kit.RandString(k.R, 129+k.R.Intn(200), unreserved), "long"
	default:
		return utf(k, 1+k.R.Intn(80)) + "x", "unicode"
	}
}

func c25Alter(k *kit.Case, v, ch string) (string, string, string) {
	h := sha256.Sum256([]byte(v))
	other, _ := c25Verifier(k)
	switch k.R.Intn(20) {
	case 0, 1:
		return v, ch, "same"
	case 2:
		return v, kit.NearMiss(k.R, ch), "near-challenge"
	case 3:
		return kit.NearMiss(k.R, v), ch, "near-verifier"
	case 4:
		return v, base64.URLEncoding.EncodeToString(h[:]), "padded"
	case 5:
		return v, base64.StdEncoding.EncodeToString(h[:]), "std"
	case 6:
		return v, base64.RawStdEncoding.EncodeToString(h[:]), "rawstd"
	case 7:
		return v, hex.EncodeToString(h[:]), "hex"
	case 8:
		return v, base64.RawURLEncoding.EncodeToString([]byte(hex.EncodeToString(h[:]))), "b64hex"
	case 9:
		return v, v, "plain"
	case 10:
		return ch, ch, "challenge-as-verifier"
	case 11:
		return ch, v, "swapped"
	case 12:
		return other, ch, "other-verifier"
	case 13: // the unused bits of the last character
		b := []byte(ch)
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		i := strings.IndexByte(al, b[len(b)-1])
		b[len(b)-1] = al[i^(1+k.R.Intn(3))]
		return v, string(b), "trailing-bits"
	case 14:
		i := k.R.Intn(len(ch) + 1)
		return v, ch[:i] + kit.Pick(k.R, "\n", "\r", "\r\n") + ch[i:], "newline"
	case 15:
		return v, ch[:k.R.Intn(len(ch))], "prefix"
	case 16:
		return v, base64.RawURLEncoding.EncodeToString(append(h[:], byte(k.R.Intn(256)))), "extended"
	case 17:
		h2 := sha256.Sum256(h[:])
		return v, base64.RawURLEncoding.EncodeToString(h2[:]), "double"
	case 18:
		return string(kit.MutateBytes(k.R, []byte(v))), ch, "mutated-verifier"
	default:
		return v, string(kit.MutateBytes(k.R, []byte(ch))), "mutated-challenge"
	}
}

func c25Judge(k *kit.Case) {
	v, class := c25Verifier(k)
	v, ch, how := c25Alter(k, v, s256(v))
	want := v != "" && ch == s256(v)
	ok, err := pkce.Validate(ch, v)
	k.Check((ok && err == nil) == want, "decision", "%s/%s: challenge %q verifier %q answered %v %v, want %v", class, how, ch, v, ok, err, want)
	k.Check(!ok || err == nil, "both", "true together with error %v", err)
	k.Event(fmt.Sprintf("answer-%v", want))
	k.AddSig(fmt.Sprintf("%s/%s/%v/%v", class, how, ok, err != nil))
}

func c25Validate(c *kit.Ctx) {
	c.Require("answer-true", 1000)
	c.Require("answer-false", 5000)
	for i := 0; i < c.N(400, 12000); i++ {
		c.Case(fmt.Sprintf("validate/%d", i), func(k *kit.Case) {
			k.Trivial()
			for j := 0; j < 50; j++ {
				c25Judge(k)
			}
			c.Eval(49)
		})
	}
	// Every single-bit alteration of some pairs.
	for i := 0; i < c.N(6, 100); i++ {
		c.Case(fmt.Sprintf("bits/%d", i), func(k *kit.Case) {
			v, ch, _ := pkce.CodeVerifier()
			for p := 0; p < len(ch)*8; p++ {
				b := []byte(ch)
				b[p/8] ^= 1 << (p % 8)
				ok, _ := pkce.Validate(string(b), v)
				k.Check(!ok, "decision", "challenge %q accepted for verifier %q", b, v)
			}
			for p := 0; p < len(v)*8; p++ {
				b := []byte(v)
				b[p/8] ^= 1 << (p % 8)
				ok, _ := pkce.Validate(ch, string(b))
				k.Check(!ok, "decision", "verifier %q accepted for challenge %q", b, ch)
			}
			c.Eval(8 * (len(ch) + len(v)))
			c.Events("answer-false", 8*(len(ch)+len(v)))
			k.Sig("bits/%d", i)
		})
	}
}

// c25Service redeems codes: only S256(verifier) equal to the challenge of the request, byte for byte, opens one.
func c25Service(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("redeemed", 300)
	c.Require("refused", 1500)
	w := kit.NewWorld(kit.NewStores(""), nil)
	cl := w.Client(nil)
	for i := 0; i < c.N(4000, 100000); i++ {
		c.Case(fmt.Sprintf("service/%d", i), func(k *kit.Case) {
			iss := kit.Issuer(k.R)
			ar, v := kit.AuthReq(k.R, cl, "openid")
			how := "same"
			switch k.R.Intn(4) {
			case 0:
			case 1: // case alone
				h := s256(v)
				ar.CodeChallenge, how = kit.Pick(k.R, strings.ToLower(h), strings.ToUpper(h), flipCase(h, k.R.Intn(len(h)))), "case"
			default:
				v, ar.CodeChallenge, how = c25Alter(k, v, s256(v))
			}
			az, err := w.Code(ctx, iss, "sub", cl, ar)
			if err != nil { // the challenge was refused earlier
				k.Check(az.GetCode() == "", "code", "refused request with code")
				k.Check(how != "same", "refused-valid", "%v", err)
				c.Event("challenge-refused")
				return
			}
			want := v != "" && s256(v) == ar.CodeChallenge
			res, err := w.Token.Token(ctx, kit.CodeReq(iss, cl, az.Code, ar.RedirectUri, v))
			got := err == nil && res.GetAccessToken().GetValue() != ""
			k.Sig("%s %v", how, want)
			c.Event(map[bool]string{true: "redeemed", false: "refused"}[want])
			k.Check(got == want, "redeem", "%s: challenge %q verifier %q redeemed=%v (%v), want %v", how, ar.CodeChallenge, v, got, err, want)
			k.Check(want || res.GetAccessToken() == nil, "leak", "%s: tokens in a refusal", how)
		})
	}
}

func flipCase(s string, at int) string {
	for n := 0; n < len(s); n++ {
		j := (at + n) % len(s)
		if c := s[j]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			return s[:j] + string(c^32) + s[j+1:]
		}
	}
	return s + "x"
}

func c25Race(c *kit.Ctx) {
	c.Require("verifiers", 1000)
	c.Case("race", func(k *kit.Case) {
		win := newWindows(12)
		var wg sync.WaitGroup
		for n := 0; n < 8; n++ {
			sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprint("race/", n))}
			k.Go(&wg, func() {
				for j := 0; j < c.N(200, 4000); j++ {
					v, ch, err := pkce.CodeVerifier()
					sub.Check(err == nil && ch == s256(v), "challenge", "%q %q %v", v, ch, err)
					p, fresh := win.add(v)
					sub.Check(fresh, "window", "verifier %q shares %q with one of another goroutine", v, p)
					c25Judge(sub)
					c.Event("verifiers")
				}
			})
		}
		wg.Wait()
	})
}

// --- C27

type triple struct{ salt, sector, subject string }

func (t triple) encode() (string, error) {
	return pairwise.Hash([]byte(t.salt)).Encode(t.sector, t.subject)
}

func c27Draw(k *kit.Case) (triple, string) {
	var t triple
	b := make([]byte, kit.Pick(k.R, 16, 17, 31, 32, 33, 63, 64))
	k.R.Read(b)
	t.salt = string(b)
	class := fmt.Sprint(len(b))
	switch k.R.Intn(5) {
	case 0:
		t.sector, class = "https://"+kit.RandString(k.R, 6, "abcdef")+".example/cb.json", class+"/uri"
	case 1:
		t.sector, class = kit.RandString(k.R, 1+k.R.Intn(3), "ab"), class+"/tiny"
	case 2:
		t.sector, class = kit.RandString(k.R, 100+k.R.Intn(400), kit.Alnum), class+"/long"
	case 3:
		t.sector, class = utf(k, 20), class+"/unicode"
	default:
		t.sector, class = kit.Pick(k.R, "client.example", "www.client.example", "client.example:443", "https://www.client.example/cb.json", "http://client.example"), class+"/host"
	}
	switch k.R.Intn(5) {
	case 0:
		t.subject, class = kit.RandString(k.R, 36, "0123456789abcdef-")+"z", class+"/uuid"
	case 1:
		t.subject, class = kit.RandString(k.R, 1+k.R.Intn(3), "ab"), class+"/tiny"
	case 2:
		t.subject, class = kit.RandString(k.R, 100+k.R.Intn(400), kit.Alnum), class+"/long"
	case 3:
		t.subject, class = "x"+strings.TrimSpace(utf(k, 20))+"x", class+"/unicode"
	default:
		t.subject, class = fmt.Sprintf("user%d", k.R.Intn(1000)), class+"/user"
	}
	return t, class
}

func (t triple) near(k *kit.Case) (triple, string) {
	switch k.R.Intn(10) {
	case 0:
		t.sector = kit.NearMiss(k.R, t.sector)
		return t, "sector"
	case 1:
		t.sector = string(kit.MutateBytes(k.R, []byte(t.sector)))
		return t, "sector-bytes"
	case 2:
		t.sector = ""
		return t, "no-sector"
	case 3:
		t.subject = kit.NearMiss(k.R, t.subject)
		return t, "subject"
	case 4:
		t.subject = string(kit.MutateBytes(k.R, []byte(t.subject)))
		return t, "subject-bytes"
	case 5:
		b := []byte(t.salt)
		b[k.R.Intn(len(b))] ^= 1 << k.R.Intn(8)
		t.salt = string(b)
		return t, "salt-bit"
	case 6:
		b := []byte(t.salt)
		b[len(b)-1] ^= 0x80
		t.salt = string(b)
		return t, "salt-end"
	case 7:
		if len(t.salt) > 16 {
			t.salt = t.salt[:len(t.salt)-1]
		} else {
			t.salt += "\x00"
		}
		return t, "salt-length"
	case 8:
		t.sector, t.subject = t.subject, t.sector
		return t, "swapped"
	default:
		t.subject, t.sector = strings.ToUpper(t.subject), strings.ToUpper(t.sector)
		return t, "case"
	}
}

// same tells whether two triples are indistinguishable by statement (white space around subjects, blank subjects).
func (t triple) same(o triple) bool {
	return t.salt == o.salt && t.sector == o.sector && strings.TrimSpace(t.subject) == strings.TrimSpace(o.subject)
}

func (t triple) confusable(o triple) bool {
	return t.salt == o.salt && t.sector+strings.TrimSpace(t.subject) == o.sector+strings.TrimSpace(o.subject)
}

func c27Secret(k *kit.Case, t triple, id string) {
	raw, err := base64.RawURLEncoding.DecodeString(id)
	if err != nil {
		raw = []byte(id)
	}
	for _, s := range []string{t.sector, t.subject, t.salt} {
		if len(s) < 4 {
			continue
		}
		hx := hex.EncodeToString([]byte(s))
		b64 := base64.RawURLEncoding.EncodeToString([]byte(s))
		k.Check(!strings.Contains(id, s) && !bytes.Contains(raw, []byte(s)) && !strings.Contains(id, hx) && !strings.Contains(id, b64[:len(b64)-1]),
			"reveals", "identifier %q of %q shows %q", id, t, s)
		for _, plain := range []string{s, t.sector + t.subject, t.sector + "|" + t.subject, t.sector + ":" + t.subject} {
			h := sha256.Sum256([]byte(plain))
			k.Check(!bytes.Equal(raw, h[:]), "unsalted", "identifier %q is the plain hash of %q", id, plain)
		}
	}
}

func distance(a, b string) (int, int) {
	x, _ := base64.RawURLEncoding.DecodeString(a)
	y, _ := base64.RawURLEncoding.DecodeString(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	d := 0
	for i := 0; i < n; i++ {
		d += bits.OnesCount8(x[i] ^ y[i])
	}
	return d, 8 * n
}

func c27Ledger(c *kit.Ctx) {
	c.Require("identifiers", 5000)
	c.Require("pairs", 5000)
	var mu sync.Mutex
	ledger := map[string]triple{}
	length := 0
	for i := 0; i < c.N(2000, 60000); i++ {
		c.Case(fmt.Sprintf("ledger/%d", i), func(k *kit.Case) {
			t, class := c27Draw(k)
			shared := pairwise.Hash([]byte(t.salt))
			id, err := shared.Encode(t.sector, t.subject)
			if !k.Check(err == nil && id != "", "error", "%q gives %q %v", t, id, err) {
				return
			}
			record := func(t triple, id string) {
				mu.Lock()
				defer mu.Unlock()
				if o, ok := ledger[id]; ok && !o.same(t) {
					key := "collision"
					if o.confusable(t) {
						key = "sector-subject-boundary"
					}
					k.Fail(key, "%q and %q both give %q", o, t, id)
				}
				ledger[id] = t
				if length == 0 {
					length = len(id)
				}
				k.Check(len(id) == length, "length", "identifier %q has length %d, others %d: it tells the size of its input", id, len(id), length)
				c.Event("identifiers")
			}
			record(t, id)
			c27Secret(k, t, id)
			for j := 0; j < 4; j++ {
				u, rel := t.near(k)
				if strings.TrimSpace(u.subject) == "" {
					continue
				}
				k.Sig("%s/%s", class, rel)
				enc := shared
				if u.salt != t.salt {
					enc = pairwise.Hash([]byte(u.salt))
				}
				uid, err := enc.Encode(u.sector, u.subject)
				if !k.Check(err == nil, "error", "%q gives %v", u, err) {
					continue
				}
				record(u, uid)
				again, err := shared.Encode(t.sector, t.subject)
				k.Check(err == nil && again == id, "unstable", "%q gave %q then %q %v", t, id, again, err)
				fresh, err := t.encode()
				k.Check(err == nil && fresh == id, "instance", "%q gave %q then %q %v on a new instance", t, id, fresh, err)
				if !u.same(t) && !u.confusable(t) {
					d, n := distance(id, uid)
					k.Check(n >= 128 && d > n/4 && d < n*3/4, "linkable", "%q and %q give %q and %q, which share all but %d of %d bits", t, u, id, uid, d, n)
					c.Event("pairs")
				}
			}
		})
	}
}

func c27Boundary(c *kit.Ctx) {
	c.Require("pairs", 100)
	for i := 0; i < c.N(200, 3000); i++ {
		c.Case(fmt.Sprintf("boundary/%d", i), func(k *kit.Case) {
			t, class := c27Draw(k)
			t.subject += "tail"
			u := t
			n := 1 + k.R.Intn(3)
			u.sector, u.subject = t.sector+t.subject[:n], t.subject[n:]
			if strings.TrimSpace(u.subject) != u.subject || strings.TrimSpace(t.subject) != t.subject {
				return
			}
			a, err1 := t.encode()
			b, err2 := u.encode()
			k.Check(err1 == nil && err2 == nil, "error", "%v %v", err1, err2)
			k.Check(a != b, "sector-subject-boundary", "sector %q subject %q and sector %q subject %q share identifier %q", t.sector, t.subject, u.sector, u.subject, a)
			c.Event("pairs")
			k.Sig("%s/%d", class, n)
		})
	}
}

// c27Families encodes confusable sectors and subjects: all identifiers differ.
func c27Families(c *kit.Ctx) {
	c.Require("pairs", 5000)
	for i := 0; i < c.N(12, 400); i++ {
		c.Case(fmt.Sprintf("families/%d", i), func(k *kit.Case) {
			t, _ := c27Draw(k)
			enc := pairwise.Hash([]byte(t.salt))
			for _, f := range kit.Families(k.R, kit.Pick(k.R, "", "u", "user"+kit.RandString(k.R, 4, "abc"))) {
				for _, field := range []string{"subject", "sector"} {
					seen := map[string]triple{}
					for _, m := range f.Members {
						u := t
						if field == "sector" {
							u.sector = m
						} else {
							u.subject = m
						}
						if strings.TrimSpace(u.subject) == "" {
							continue
						}
						id, err := enc.Encode(u.sector, u.subject)
						if !k.Check(err == nil, "error", "%q gives %v", u, err) {
							continue
						}
						if o, ok := seen[id]; ok && !o.same(u) {
							key := "collision"
							if o.confusable(u) {
								key = "sector-subject-boundary"
							}
							k.Fail(key, "%q and %q both give %q", o, u, id)
						}
						seen[id] = u
						c.Events("pairs", len(seen)-1)
					}
					k.Sig("%s/%s", f.Name, field)
				}
			}
		})
	}
}

func c27Refuse(c *kit.Ctx) {
	c.Require("refusals", 300)
	for i := 0; i < c.N(300, 5000); i++ {
		c.Case(fmt.Sprintf("refuse/%d", i), func(k *kit.Case) {
			t, _ := c27Draw(k)
			if k.R.Intn(2) == 0 {
				t.salt = t.salt[:k.R.Intn(16)]
				k.Sig("salt/%d", len(t.salt))
			} else {
				t.subject = kit.Pick(k.R, "", " ", "\t", "\n", "   ", "\r\n\t ", "\u00a0", "\u2003", "\u3000 ")
				k.Sig("subject/%q", t.subject)
			}
			id, err := t.encode()
			k.Check(err != nil && id == "", "accepted", "%q gives %q %v", t, id, err)
			c.Event("refusals")
		})
	}
	c.Case("nil", func(k *kit.Case) {
		id, err := pairwise.Hash(nil).Encode("sector", "subject")
		k.Check(err != nil && id == "", "accepted", "nil salt gives %q", id)
		k.Sig("nil")
	})
}

func c27Race(c *kit.Ctx) {
	c.Require("identifiers", 2000)
	for i := 0; i < c.N(5, 100); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			base, _ := c27Draw(k)
			shared := pairwise.Hash([]byte(base.salt))
			var ts []triple
			var want []string
			for j := 0; j < 20; j++ {
				t, _ := c27Draw(k)
				t.salt = base.salt
				id, err := t.encode()
				k.Check(err == nil, "error", "%v", err)
				ts, want = append(ts, t), append(want, id)
			}
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < 100; j++ {
						x := sub.R.Intn(len(ts))
						id, err := shared.Encode(ts[x].sector, ts[x].subject)
						sub.Check(err == nil && id == want[x], "unstable", "%q gave %q %v instead of %q", ts[x], id, err, want[x])
						c.Event("identifiers")
					}
				})
			}
			wg.Wait()
		})
	}
}

// --- C28

type codeGen struct {
	name   string
	gen    func(context.Context) (string, error)
	format string // '#': a symbol of the alphabet, the rest literally
	alpha  string
	valid  func(context.Context, string) error
}

func c28Gens() []codeGen {
	ac, dc, ru := generator.DefaultAuthorizationCode(), generator.DefaultDeviceCode(), generator.DefaultRequestURI()
	uc, nc, id := generator.DefaultDeviceUserCode(), generator.DefaultNumDeviceUserCode(), generator.DefaultClientID()
	iss := func(g func(context.Context, string) (string, error)) func(context.Context) (string, error) {
		return func(ctx context.Context) (string, error) { return g(ctx, "https://issuer.example") }
	}
	val := func(g func(context.Context, string, string) error) func(context.Context, string) error {
		return func(ctx context.Context, s string) error { return g(ctx, "https://issuer.example", s) }
	}
	r := strings.Repeat
	return []codeGen{
		{"authorization_code", iss(ac.Generate), r("#", 32), kit.Alnum, val(ac.Validate)},
		{"device_code", iss(dc.Generate), r("#", 32), kit.Alnum, val(dc.Validate)},
		{"request_uri", iss(ru.Generate), "urn:solid:" + r("#", 32), kit.Alnum, val(ru.Validate)},
		{"client_id", id.Generate, r("#", 16), kit.Alnum, nil},
		{"user_code", iss(uc.Generate), "####-####", "BCDFGHJKLMNPQRSTVWXZ", nil},
		{"num_user_code", iss(nc.Generate), "###-###-###", "0123456789", nil},
	}
}

// shape tells whether s has the documented format.
func (g codeGen) shape(s string) bool {
	if len(s) != len(g.format) {
		return false
	}
	for i := range g.format {
		if g.format[i] == '#' && !strings.ContainsRune(g.alpha, rune(s[i])) || g.format[i] != '#' && s[i] != g.format[i] {
			return false
		}
	}
	return true
}

// random keeps the random symbols.
func (g codeGen) random(s string) string {
	var b strings.Builder
	for i := range g.format {
		if g.format[i] == '#' {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (g codeGen) short() bool { return strings.Contains(g.name, "user_code") }

func c28Generate(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("values", 50000)
	for _, g := range c28Gens() {
		c.Case(g.name, func(k *kit.Case) {
			n := c.N(20000, 200000)
			seen := map[string]int{}
			win := newWindows(12)
			size := strings.Count(g.format, "#")
			counts := make([][256]int, size)
			var values []string
			repeats := 0
			for i := 0; i < n; i++ {
				s, err := g.gen(ctx)
				if !k.Check(err == nil && g.shape(s), "format", "%s generated %q %v", g.name, s, err) {
					return
				}
				if seen[s]++; seen[s] > 1 {
					repeats++
				}
				if g.valid != nil {
					err := g.valid(ctx, s)
					k.Check(err == nil, "own", "generated %s %q refused: %v", g.name, s, err)
				}
				x := g.random(s)
				if !g.short() {
					if p, fresh := win.add(x); !fresh {
						k.Fatal("window", "%s %q shares %q with an earlier one", g.name, s, p)
					}
				}
				for j := range x {
					counts[j][x[j]]++
				}
				values = append(values, x)
				c.Event("values")
			}
			// Expected repetitions by chance over the alphabet.
			space := 1.0
			for i := 0; i < size; i++ {
				space *= float64(len(g.alpha))
			}
			expect := float64(n) * float64(n) / 2 / space
			k.Check(float64(repeats) <= 10*expect+5 && (expect > 1e-6 || repeats == 0), "repeated", "%s: %d of %d values repeated, %.3g by chance", g.name, repeats, n, expect)
			c.Events("repeats-"+g.name, repeats)
			// Every symbol at every position, none of them far from its share.
			share := float64(n) / float64(len(g.alpha))
			for j := range counts {
				chi := 0.0
				for _, b := range []byte(g.alpha) {
					d := float64(counts[j][b]) - share
					chi += d * d / share
					k.Check(counts[j][b] > 0, "missing", "%s: %q never at position %d in %d values", g.name, b, j, n)
					c.AddSig(fmt.Sprintf("%s/%d/%c", g.name, j, b))
				}
				// mean len-1, variance 2(len-1): ten standard deviations above.
				df := float64(len(g.alpha) - 1)
				k.Check(chi < df+10*1.4143*sqrt(df)+20, "skew", "%s: symbols at position %d are not uniform (chi-square %.0f, %v expected)", g.name, j, chi, df)
			}
			// No two positions depend on each other.
			idx := [256]int{}
			for i, b := range []byte(g.alpha) {
				idx[b] = i
			}
			a := len(g.alpha)
			cells := make([]int, a*a)
			for i := 0; i < size; i++ {
				for j := i + 1; j < size; j++ {
					clear(cells)
					for _, x := range values {
						cells[idx[x[i]]*a+idx[x[j]]]++
					}
					share := float64(n) / float64(a*a)
					chi := 0.0
					for _, v := range cells {
						d := float64(v) - share
						chi += d * d / share
					}
					df := float64(a*a - 1)
					k.Check(chi < df+10*1.4143*sqrt(df)*(1+2/sqrt(share))+20, "dependent", "%s: symbols at positions %d and %d depend on each other (chi-square %.0f, %v expected)", g.name, i, j, chi, df)
					c.Event("position-pairs")
				}
			}
			c.Eval(n)
		})
	}
}

func sqrt(x float64) float64 {
	z := x
	for i := 0; i < 40; i++ {
		z -= (z*z - x) / (2 * z)
	}
	return z
}

func c28Validate(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 100)
	c.Require("refused", 3000)
	for i := 0; i < c.N(300, 20000); i++ {
		c.Case(fmt.Sprintf("validate/%d", i), func(k *kit.Case) {
			gens := c28Gens()[:3]
			g := gens[i%3]
			own, err := g.gen(ctx)
			k.Check(err == nil, "error", "%v", err)
			in := map[string]string{"own": own, "garbage": kit.Garbage(k.R, 60), "mutated": string(kit.MutateBytes(k.R, []byte(own))),
				"doubled": own + own, "prefix": own[:k.R.Intn(len(own))], "multiline": own + "\n" + own, "line": own + "\nx", "before": "x\n" + own,
				"upper": strings.ToUpper(own), "nul": own[:len(own)-1] + "\x00", "unicode": own[:len(own)-2] + "é", "wide": own[:len(own)-1] + "é", "fullwidth": own[:len(own)-3] + "Ａ"}
			for _, o := range gens {
				in["of-"+o.name], _ = o.gen(ctx)
			}
			for j := 0; j < 5; j++ {
				in[fmt.Sprint("near-", j)] = kit.NearMiss(k.R, own)
				p := k.R.Intn(len(own))
				in[fmt.Sprint("symbol-", j)] = own[:p] + string(rune(k.R.Intn(128))) + own[p+1:]
				in[fmt.Sprint("urn-", j)] = kit.Pick(k.R, "urn:solid", "urn:solid:", "urn:ietf:params:oauth:request_uri:", "URN:solid:", "urn:solid::", "https://x/") + kit.RandString(k.R, 30+k.R.Intn(5), kit.Alnum)
			}
			for how, s := range in {
				if strings.TrimSpace(s) != s {
					continue
				}
				err := g.valid(ctx, s)
				if g.shape(s) {
					k.Check(err == nil, "refused", "%s validator refused %q: %v", g.name, s, err)
					c.Event("accepted")
				} else if g.name == "request_uri" || len(s) != len(g.format) {
					k.Check(err != nil, "accepted", "%s validator accepted %q (%s)", g.name, s, how)
					c.Event("refused")
				}
				c.AddSig(fmt.Sprintf("%s/%s/%v", g.name, strings.SplitN(how, "-", 2)[0], err == nil))
				c.Eval(1)
			}
			k.Trivial()
		})
	}
}

func c28Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("values", 5000)
	for _, g := range c28Gens() {
		c.Case("race/"+g.name, func(k *kit.Case) {
			win := newWindows(12)
			var wg sync.WaitGroup
			for n := 0; n < 8; n++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, n))}
				k.Go(&wg, func() {
					for j := 0; j < c.N(400, 8000); j++ {
						s, err := g.gen(ctx)
						if !sub.Check(err == nil && g.shape(s), "format", "%s generated %q %v", g.name, s, err) {
							return
						}
						if !g.short() {
							p, fresh := win.add(g.random(s))
							sub.Check(fresh, "window", "%s %q shares %q with one of another goroutine", g.name, s, p)
						}
						if g.valid != nil {
							sub.Check(g.valid(ctx, s) == nil, "own", "generated %s %q refused", g.name, s)
						}
						c.Event("values")
					}
				})
			}
			wg.Wait()
			k.Sig("%s", g.name)
		})
	}
}
