package checks

import (
	"bufio"
	"context"
	"crypto/sha256"
	"crypto/tls"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/go-jose/go-jose/v4"

	"verifharness/kit"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

func init() {
	kit.Register(&kit.Check{
		ID: "C18", Level: "exploration",
		Rule: "decide: proofs assembled by an independent JOSE implementation with up to two deviations, judged by a table; forge: every derived forgery; trip: proofs of the real prover for random requests, presented for the same and for altered requests, including requests parsed by net/http; " +
			"race: one verifier shared by goroutines. Non-trivial: a distinct (deviations, algorithm, URL shape, answer).",
		Assumptions: []string{"URLs which are equivalent after RFC 3986 normalisation (host case, default port, unreserved escapes, empty path) may be accepted or refused", "issue times 15 or 16 s away from now are not judged"},
		Modes: []kit.Mode{{Name: "decide", Bubble: true, Run: c18Decide}, {Name: "forge", Bubble: true, Run: c18Forge},
			{Name: "trip", Bubble: true, Run: c18Trip}, {Name: "race", Race: true, Run: c18Race}},
	})
	kit.Register(&kit.Check{
		ID: "C19", Level: "exploration",
		Rule: "enum: all interleavings, at storage-call granularity, of two and three verifications of one proof (and of different proofs) by verifiers sharing a storage, plus storage faults at each call; time: presentations at every moment of the acceptance window on virtual time; " +
			"race: many goroutines presenting proofs under the race detector with injected delays. Non-trivial: a distinct schedule / history.",
		Assumptions: []string{"proofs are distinct when their jti differ"},
		Modes: []kit.Mode{{Name: "enum", Bubble: true, Run: c19Enum}, {Name: "time", Bubble: true, Run: c19Time},
			{Name: "race", Race: true, Run: c19Race}, {Name: "restart", Run: restart("C19")}, {Name: "birthday", Run: birthday("C19")}},
	})
}

// forgetful never remembers a proof.
type forgetful struct{}

func (forgetful) Register(context.Context, string) error       { return nil }
func (forgetful) Delete(context.Context, string) error         { return nil }
func (forgetful) Exists(context.Context, string) (bool, error) { return false, nil }

var _ storage.DPoP = forgetful{}

// c18Draft is a proof and the request it is presented with.
type c18Draft struct {
	k        *kit.Case
	key      *kit.Key
	signer   *kit.Key
	foreign  *kit.Key
	hdr      map[string]any
	claims   map[string]any
	htm, htu string
	opts     []dpop.Option
	algs     []jose.SignatureAlgorithm
	raw      *string
	payload  *string
	token    string
	now      int64
	n        int // repetition of the case: walks through the variants of a deviation
}

// vary walks through the variants of a deviation.
func vary[T any](n int, xs ...T) T { return xs[n%len(xs)] }

var c18Methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT"}

func c18URL(k *kit.Case) string {
	r := k.R
	path := ""
	for i := r.Intn(4); i >= 0; i-- {
		path += "/" + kit.Pick(r, "token", "a", "b%20c", "é", "%C3%A9", "x:y", "..", "a;b=1", "~u", "%2Fz", "1,2", "(p)", "a+b", "A", "%7e") + kit.RandString(r, r.Intn(4), kit.Alnum)
	}
	if r.Intn(6) == 0 {
		path += "/"
	}
	return kit.Pick(r, "https://", "http://") + kit.Pick(r, "as.example", "as.example:8443", "127.0.0.1:9090", "[::1]:443", "a-b.example", "localhost", "localhost:8080", "127.0.0.1", "as.example:80", "as.example:443", "xn--bcher-kva.example", "10.0.0.1") + path
}

func c18Draw(k *kit.Case) *c18Draft {
	d := &c18Draft{k: k, now: time.Now().Unix(), algs: allAlgs()}
	d.key = kit.NewKey("c18-"+kit.Pick(k.R, "1", "2"), kit.Pick(k.R, c16Algs...))
	d.signer = d.key
	d.foreign = kit.NewKey("c18-foreign", d.key.Alg)
	d.hdr = map[string]any{"typ": "dpop+jwt", "jwk": bareJWK(d.key)}
	d.htm, d.htu = kit.Pick(k.R, c18Methods...), c18URL(k)
	if strings.Contains(d.htu, "é") {
		u, _ := url.ParseRequestURI(d.htu)
		d.htu = u.Scheme + "://" + u.Host + u.EscapedPath()
	}
	d.token = "tok-" + kit.RandString(k.R, 20, kit.Alnum)
	d.claims = map[string]any{"jti": kit.RandString(k.R, 16, kit.Alnum), "htm": d.htm, "htu": d.htu, "iat": d.now}
	return d
}

// bareJWK is the public key with the members needed only.
func bareJWK(k *kit.Key) map[string]any {
	m := k.JWKMap()
	delete(m, "kid")
	delete(m, "use")
	delete(m, "alg")
	return m
}

func ath(tok string) string {
	h := sha256.Sum256([]byte(tok))
	return kit.B64(h[:])
}

func (d *c18Draft) build() string {
	if d.raw != nil {
		return *d.raw
	}
	d.hdr["alg"] = d.signer.Alg
	p := kit.J(d.claims)
	if d.payload != nil {
		p = []byte(*d.payload)
	}
	return kit.MakeJWS(d.hdr, p, d.signer.Alg, d.signer.Priv)
}

// equivalentURL tells whether two URLs are the same after RFC 3986 normalisation (query and fragment ignored).
func equivalentURL(a, b string) bool {
	norm := func(s string) string {
		s, _, _ = strings.Cut(s, "#")
		u, err := url.Parse(s)
		if err != nil {
			return "!" + s
		}
		h := strings.ToLower(u.Host)
		sch := strings.ToLower(u.Scheme)
		if sch == "https" {
			h = strings.TrimSuffix(h, ":443")
		}
		if sch == "http" {
			h = strings.TrimSuffix(h, ":80")
		}
		p := u.EscapedPath()
		if p == "" {
			p = "/"
		}
		var out strings.Builder
		for i := 0; i < len(p); i++ {
			if p[i] == '%' && i+2 < len(p) {
				var c byte
				if _, err := fmt.Sscanf(p[i+1:i+3], "%02x", &c); err == nil {
					if strings.IndexByte(kit.Unreserve, c) >= 0 {
						out.WriteByte(c)
					} else {
						fmt.Fprintf(&out, "%%%02X", c)
					}
					i += 2
					continue
				}
			}
			out.WriteByte(p[i])
		}
		// a user part is not addressed by the definition of htu
		return sch + "://" + h + out.String()
	}
	return norm(a) == norm(b)
}

type c18Dev struct {
	name, group string
	kill        bool
	do          func(d *c18Draft)
}

var c18Devs = []c18Dev{
	{"iat-early", "iat", false, func(d *c18Draft) { d.claims["iat"] = d.now - int64(d.k.R.Intn(15)) }},
	{"iat-late", "iat", false, func(d *c18Draft) { d.claims["iat"] = d.now + int64(d.k.R.Intn(15)) }},
	{"query", "htu", false, func(d *c18Draft) { d.htu += "?a=b&c=%20" }},
	{"fragment", "htu", false, func(d *c18Draft) { d.htu += "#frag" }},
	{"query-fragment", "htu", false, func(d *c18Draft) { d.htu += "?x=/y#z?w" }},
	{"ath-unasked", "tok", false, func(d *c18Draft) { d.claims["ath"] = ath(d.token) }},
	{"ath", "tok", false, func(d *c18Draft) {
		d.claims["ath"] = ath(d.token)
		d.opts = append(d.opts, dpop.WithTokenValue(d.token))
	}},
	{"cnf", "cnf", false, func(d *c18Draft) { d.opts = append(d.opts, dpop.WithTokenConfirmation(d.key.Thumb())) }},
	{"extra", "extra", false, func(d *c18Draft) { d.claims["nonce"] = "n" }},
	{"kid", "kid", false, func(d *c18Draft) { d.hdr["kid"] = "k" }},
	{"jwk-meta", "jwk", false, func(d *c18Draft) { d.hdr["jwk"] = d.key.JWKMap() }},
	{"jti-long", "jti", false, func(d *c18Draft) { d.claims["jti"] = strings.Repeat("j", 5000) + d.claims["jti"].(string) }},

	{"typ-none", "typ", true, func(d *c18Draft) { delete(d.hdr, "typ") }},
	{"typ-jwt", "typ", true, func(d *c18Draft) {
		d.hdr["typ"] = vary(d.n, "JWT", "at+jwt", "dpop", "jwt", "dpop+jwt ", "dpop+jwtx", "xdpop+jwt", "dpop jwt", "", "dpop+jws", "client-assertion+jwt", "x-dpop+jwt", "not/dpop+jwt",
			"+jwt", "dpop+jwt+jwt", "dpop+jwt;v=1", "dpop+", "dpop+JSON", "dpop\x00+jwt", " dpop+jwt", "dpop+jwt\n", "oauth-client-attestation-pop+jwt")
	}},
	{"typ-odd", "typ", true, func(d *c18Draft) {
		d.hdr["typ"] = []any{[]any{"dpop+jwt"}, 1, true, map[string]any{"a": "dpop+jwt"}, nil}[d.n%5]
	}},
	{"jwk-none", "jwk", true, func(d *c18Draft) { delete(d.hdr, "jwk") }},
	{"jwk-null", "jwk", true, func(d *c18Draft) { d.hdr["jwk"] = nil }},
	{"jwk-foreign", "jwk", true, func(d *c18Draft) { d.hdr["jwk"] = bareJWK(d.foreign) }},
	{"jwk-bad", "jwk", true, func(d *c18Draft) {
		d.hdr["jwk"] = []any{"x", map[string]any{}, map[string]any{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}, map[string]any{"kty": "oct", "k": "AAAA"}, []any{}}[d.n%5]
	}},
	{"jwk-private", "jwk", true, func(d *c18Draft) {
		b, _ := d.key.PrivJWK().MarshalJSON()
		d.hdr["jwk"] = rawMsg(b)
	}},
	{"signer-foreign", "signer", true, func(d *c18Draft) { d.signer = d.foreign }},
	{"crit", "crit", true, func(d *c18Draft) { d.hdr["crit"] = []string{"zz"}; d.hdr["zz"] = 1 }},
	{"alg", "alg", true, func(d *c18Draft) { d.algs = without(d.algs, d.key.Alg) }},
	{"htm-other", "htm", true, func(d *c18Draft) {
		for {
			m := kit.Pick(d.k.R, c18Methods...)
			if m != d.htm {
				d.htm = m
				return
			}
		}
	}},
	{"htm-none", "htm", true, func(d *c18Draft) { delete(d.claims, "htm") }},
	{"htm-claim", "htm", true, func(d *c18Draft) {
		d.claims["htm"] = vary(d.n, "", " "+d.htm, d.htm+" ", d.htm+"\x00", d.htm+d.htm, d.htm[1:], strings.ToLower(d.htm), strings.ToLower(d.htm[:1])+d.htm[1:], d.htm[:1]+strings.ToLower(d.htm[1:]),
			d.htm[:len(d.htm)-1], "*", d.htm+",GET", "x"+d.htm, d.htm+"\n")
	}},
	{"htm-array", "htm", true, func(d *c18Draft) { d.claims["htm"] = []string{d.htm} }},
	{"htm-request-bad", "htm", true, func(d *c18Draft) {
		d.htm = vary(d.n, "", "FOO", "GETT", " GET", "GET ", "*", "G", "GET,POST", "GE\u0054\u0301")
		d.claims["htm"] = d.htm
	}},
	{"htu-near", "htu", true, func(d *c18Draft) {
		o := d.htu
		d.htu = kit.NearMiss(d.k.R, o)
		if equivalentURL(o, d.htu) {
			d.htu = o + "/x"
		}
	}},
	{"htu-claim-near", "htu", true, func(d *c18Draft) {
		c := kit.NearMiss(d.k.R, d.htu)
		if equivalentURL(c, d.htu) {
			c = d.htu + "x"
		}
		d.claims["htu"] = c
	}},
	{"htu-claim-scheme", "htu", true, func(d *c18Draft) {
		s, rest, _ := strings.Cut(d.htu, "://")
		d.claims["htu"] = map[string]string{"https": "http", "http": "https"}[strings.ToLower(s)] + "://" + rest
	}},
	{"htu-none", "htu", true, func(d *c18Draft) { delete(d.claims, "htu") }},
	{"htu-number", "htu", true, func(d *c18Draft) { d.claims["htu"] = 5 }},
	{"htu-request-bad", "htu", true, func(d *c18Draft) { d.htu = vary(d.n, "", "%zz", "://", "no url", "https://%zz/") }},
	{"htu-query-in-proof", "htu", true, func(d *c18Draft) { d.claims["htu"] = d.htu + "/z?a=b" }},
	{"jti-none", "jti", true, func(d *c18Draft) { delete(d.claims, "jti") }},
	{"jti-empty", "jti", true, func(d *c18Draft) { d.claims["jti"] = "" }},
	{"jti-null", "jti", true, func(d *c18Draft) { d.claims["jti"] = nil }},
	{"iat-none", "iat", true, func(d *c18Draft) { delete(d.claims, "iat") }},
	{"iat-zero", "iat", true, func(d *c18Draft) { d.claims["iat"] = 0 }},
	{"iat-negative", "iat", true, func(d *c18Draft) { d.claims["iat"] = -d.now }},
	{"iat-string", "iat", true, func(d *c18Draft) { d.claims["iat"] = fmt.Sprint(d.now) }},
	{"iat-old", "iat", true, func(d *c18Draft) { d.claims["iat"] = d.now - 17 - int64(d.k.R.Intn(3)*d.k.R.Intn(9000)) }},
	{"iat-future", "iat", true, func(d *c18Draft) { d.claims["iat"] = d.now + 17 + int64(d.k.R.Intn(3)*d.k.R.Intn(9000)) }},
	{"iat-unit", "iat", true, func(d *c18Draft) {
		d.claims["iat"] = d.now * vary(d.n, int64(1000), 1000000, 1000000000, 60, 2)
	}},
	{"iat-fewer", "iat", true, func(d *c18Draft) { d.claims["iat"] = d.now / vary(d.n, int64(1000), 60, 3600, 86400, 2) }},
	{"iat-wrap", "iat", true, func(d *c18Draft) {
		d.claims["iat"] = rawMsg(fmt.Sprint(uint64(d.now) + vary(d.n, uint64(1)<<32, 1<<31, 1<<33, 1<<63, 1<<40)))
	}},
	{"iat-max", "iat", true, func(d *c18Draft) { d.claims["iat"] = rawMsg("18446744073709551615") }},
	{"iat-maxint", "iat", true, func(d *c18Draft) { d.claims["iat"] = rawMsg("9223372036854775807") }},
	{"ath-none", "tok", true, func(d *c18Draft) { d.opts = append(d.opts, dpop.WithTokenValue(d.token)) }},
	{"ath-other", "tok", true, func(d *c18Draft) {
		d.claims["ath"] = ath(d.token)
		d.opts = append(d.opts, dpop.WithTokenValue(kit.NearMiss(d.k.R, d.token)))
	}},
	{"ath-forms", "tok", true, func(d *c18Draft) {
		a := ath(d.token)
		d.claims["ath"] = vary(d.n, "", a+"=", a[:42], d.token, strings.ToUpper(a), strings.ToLower(a), a+"A", a[1:], ath(""), ath(ath(d.token)), a+" ")
		d.opts = append(d.opts, dpop.WithTokenValue(d.token))
	}},
	{"cnf-other", "cnf", true, func(d *c18Draft) { d.opts = append(d.opts, dpop.WithTokenConfirmation(d.foreign.Thumb())) }},
	{"cnf-near", "cnf", true, func(d *c18Draft) {
		d.opts = append(d.opts, dpop.WithTokenConfirmation(kit.NearMiss(d.k.R, d.key.Thumb())))
	}},
	{"cnf-empty", "cnf", true, func(d *c18Draft) { d.opts = append(d.opts, dpop.WithTokenConfirmation("")) }},
	{"empty", "whole", true, func(d *c18Draft) { d.raw = kit.Str("") }},
	{"garbage", "whole", true, func(d *c18Draft) { d.raw = kit.Str(kit.Garbage(d.k.R, 80)) }},
	{"payload", "whole", true, func(d *c18Draft) { d.payload = kit.Str(vary(d.n, "", "x", "[]", "null", "{}", "1", `"s"`)) }},
}

type rawMsg string

func (r rawMsg) MarshalJSON() ([]byte, error) { return []byte(r), nil }

func judgeProof(k *kit.Case, what, thumb string, err error, want string) {
	if want == "" {
		k.Event("refused")
		k.Check(err != nil, "accepted", "%s: accepted", what)
		k.Check(thumb == "", "leak", "%s: thumbprint %q returned", what, thumb)
		return
	}
	k.Event("accepted")
	if k.Check(err == nil, "refused-valid", "%s: refused: %v", what, err) {
		k.Check(thumb == want, "thumbprint", "%s: thumbprint %q, want %q", what, thumb, want)
	}
}

func c18Decide(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 200)
	c.Require("refused", 1000)
	proofs := inmemory.DPoPProofs()
	kit.Keep(proofs)
	one := func(label string, n int, devs ...c18Dev) {
		c.Case(label, func(k *kit.Case) {
			d := c18Draw(k)
			d.n = n
			kill := false
			var names []string
			for _, x := range devs {
				x.do(d)
				kill = kill || x.kill
				names = append(names, x.name)
			}
			tok := d.build()
			v := dpop.DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier(d.algs))
			th, err := v.Verify(ctx, d.htm, d.htu, tok, d.opts...)
			k.Sig("%v %s %s %v", names, d.key.Alg, d.htm, err == nil)
			k.Log("%v: %s %s header %v claims %v -> %q %v", names, d.htm, d.htu, d.hdr, d.claims, th, err)
			want := d.key.Thumb()
			if kill {
				want = ""
			}
			judgeProof(k, fmt.Sprintf("proof with %v (%s) for %s %s", names, d.key.Alg, d.htm, d.htu), th, err, want)
		})
	}
	for rep := 0; rep < c.N(44, 600); rep++ {
		one(fmt.Sprintf("valid/%d", rep), rep)
		for _, x := range c18Devs {
			one(fmt.Sprintf("one/%s/%d", x.name, rep), rep, x)
		}
	}
	// every pair of deviations which do not overwrite each other
	for rep := 0; rep < c.N(2, 60); rep++ {
		for i, x := range c18Devs {
			for j, y := range c18Devs {
				if x.group == y.group || i > j && rep%2 == 0 || i < j && rep%2 == 1 {
					continue
				}
				if x.group == "jwk" && y.group == "signer" || x.group == "signer" && y.group == "jwk" {
					continue // a foreign key signing for itself is a valid proof of that key
				}
				one(fmt.Sprintf("two/%s+%s/%d", x.name, y.name, rep), rep*31+i+7*j, x, y)
			}
		}
	}
}

func c18Forge(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("forgeries", 3000)
	for i := 0; i < c.N(60, 1500); i++ {
		c.Case(fmt.Sprintf("forge/%d", i), func(k *kit.Case) {
			d := c18Draw(k)
			if k.R.Intn(2) == 0 {
				d.algs = append(d.algs, "HS256", "HS384", "HS512")
			}
			tok := d.build()
			v := dpop.DefaultVerifier(forgetful{}, jwt.EmbeddedKeyVerifier(d.algs))
			real := inmemory.DPoPProofs()
			kit.Keep(real)
			rv := dpop.DefaultVerifier(real, jwt.EmbeddedKeyVerifier(d.algs))
			for _, f := range kit.Forgeries(k.R, tok, d.key, d.foreign) {
				if f.Name == "foreign-embedded" { // a correct proof of another key
					th, err := v.Verify(ctx, d.htm, d.htu, f.Tok)
					judgeProof(k, "proof by another key", th, err, d.foreign.Thumb())
					th, err = v.Verify(ctx, d.htm, d.htu, f.Tok, dpop.WithTokenConfirmation(d.key.Thumb()))
					judgeProof(k, "proof by another key for a bound token", th, err, "")
					continue
				}
				c.Event("forgeries")
				k.Sig("%s", f.Name)
				th, err := v.Verify(ctx, d.htm, d.htu, f.Tok)
				judgeProof(k, "forgery "+f.Name+" "+f.Tok, th, err, "")
				th, err = rv.Verify(ctx, d.htm, d.htu, f.Tok)
				judgeProof(k, "forgery "+f.Name+" "+f.Tok, th, err, "")
			}
			// the genuine proof was not used up by forgeries
			th, err := rv.Verify(ctx, d.htm, d.htu, tok, dpop.WithTokenConfirmation(d.key.Thumb()))
			judgeProof(k, "genuine proof after forgeries", th, err, d.key.Thumb())
		})
	}
}

func c18Trip(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 1000)
	c.Require("refused", 1000)
	for i := 0; i < c.N(1200, 40000); i++ {
		c.Case(fmt.Sprintf("trip/%d", i), func(k *kit.Case) {
			r := k.R
			key := kit.NewKey("c18-"+kit.Pick(r, "1", "2"), kit.Pick(r, c16Algs...))
			p := dpop.DefaultProver(jwt.DPoPSigner(jose.SignatureAlgorithm(key.Alg), kit.KeyFunc(key.Priv, key.Kid, key.Alg)))
			v := dpop.DefaultVerifier(forgetful{}, jwt.EmbeddedKeyVerifier(allAlgs()))
			m, base := kit.Pick(r, c18Methods...), c18URL(k)
			full := base + kit.Pick(r, "", "?q=1", "?a=%2F&b", "#f", "?x#y")
			var opts []dpop.Option
			tok := "t-" + kit.RandString(r, 30, kit.Alnum)
			withTok := r.Intn(2) == 0
			if withTok {
				opts = append(opts, dpop.WithTokenValue(tok))
			}
			proof, err := p.Prove(m, full, opts...)
			if !k.Check(err == nil, "prove", "prover refused %s %s: %v", m, full, err) {
				return
			}
			// what the proof says
			var pub any = key.Pub
			jws, err := kit.DecodeAny(proof, key.Alg, pub)
			if !k.Check(err == nil, "proof", "proof does not verify: %v", err) {
				return
			}
			cut := strings.IndexAny(full, "?#")
			clean := full
			if cut >= 0 {
				clean = full[:cut]
			}
			k.Check(jws.Header["typ"] == "dpop+jwt" && jws.Header["alg"] == key.Alg, "proof", "header %v", jws.Header)
			jw, _ := jws.Header["jwk"].(map[string]any)
			k.Check(jw != nil && jw["d"] == nil && jw["p"] == nil, "proof", "embedded key %v", jw)
			k.Check(jws.Str("htm") == m && equivalentURL(jws.Str("htu"), clean) && !strings.ContainsAny(jws.Str("htu"), "?#"), "proof", "claims %v for %s %s", jws.Payload, m, clean)
			k.Check(len(jws.Str("jti")) >= 16, "proof", "jti %q", jws.Str("jti"))
			k.Check(jws.Num("iat") == uint64(time.Now().Unix()), "proof", "iat %v", jws.Payload["iat"])
			k.Check(withTok == (jws.Str("ath") == ath(tok)), "proof", "ath %v", jws.Payload["ath"])
			cnf := dpop.WithTokenConfirmation(key.Thumb())
			ok := func(what, m, u string, o ...dpop.Option) {
				th, err := v.Verify(ctx, m, u, proof, append(o, opts...)...)
				judgeProof(k, what+" "+m+" "+u, th, err, key.Thumb())
			}
			bad := func(what, m, u string, o ...dpop.Option) {
				th, err := v.Verify(ctx, m, u, proof, o...)
				judgeProof(k, what+" "+m+" "+u, th, err, "")
			}
			ok("same", m, full)
			ok("cleaned", m, clean)
			ok("other query", m, clean+"?zz=1")
			ok("bound", m, full, cnf)
			// as a server sees it
			if u, err := url.Parse(clean); err == nil && m != "CONNECT" {
				target := clean[strings.Index(clean[8:], "/")+8:]
				req, err := http.ReadRequest(bufio.NewReader(strings.NewReader(m + " " + target + "?srv=1 HTTP/1.1\r\nHost: " + u.Host + "\r\n\r\n")))
				if err == nil {
					switch {
					case u.Scheme == "https" && r.Intn(2) == 0:
						req.TLS = &tls.ConnectionState{}
					case u.Scheme == "https" || r.Intn(2) == 0:
						req.Header.Set("X-Forwarded-Scheme", u.Scheme)
					}
					k.Event("http")
					ok("http request", req.Method, dpop.CleanURL(req))
					k.Check(equivalentURL(dpop.CleanURL(req), clean) && !strings.Contains(dpop.CleanURL(req), "srv"), "cleanurl", "CleanURL %q of %q", dpop.CleanURL(req), clean)
				}
			}
			for n := 0; n < 3; n++ {
				near := kit.NearMiss(r, clean)
				if !equivalentURL(near, clean) {
					bad("altered URL", m, near, opts...)
				}
				o := kit.Pick(r, c18Methods...)
				if o != m {
					bad("other method", o, full, opts...)
				}
			}
			bad("other token", m, full, dpop.WithTokenValue(kit.NearMiss(r, tok)))
			bad("other binding", m, full, append([]dpop.Option{dpop.WithTokenConfirmation(kit.NewKey("c18-foreign", key.Alg).Thumb())}, opts...)...)
			bad("mutated", m, clean+kit.Pick(r, "/x", "%20"), opts...)
			if i%10 == 0 {
				time.Sleep(17 * time.Second)
				bad("late", m, full, opts...)
			}
			k.Sig("%s %s %v %s", key.Alg, m, withTok, clean)
		})
	}
	// refusals of the prover
	c.Case("prover", func(k *kit.Case) {
		key := kit.NewKey("c18-1", "ES256")
		s := jwt.DPoPSigner(jose.ES256, kit.KeyFunc(key.Priv, key.Kid, key.Alg))
		for _, x := range [][2]string{{"", "https://a/b"}, {"GET", ""}, {"FOO", "https://a/b"}, {"GET", "a b"}, {"GET", "%zz"}} {
			t, err := dpop.DefaultProver(s).Prove(x[0], x[1])
			k.Check(err != nil && t == "", "prover", "proof made for %q", x)
		}
		t, err := dpop.DefaultProver(nil).Prove("GET", "https://a/b")
		k.Check(err != nil && t == "", "prover", "proof made without signer")
		// each proof is made to be presented once, also when the same request is repeated by the same client
		seen := map[string]bool{}
		one := dpop.DefaultProver(s)
		proofs := inmemory.DPoPProofs()
		kit.Keep(proofs)
		v := dpop.DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier(allAlgs()))
		for i := 0; i < 3000; i++ {
			p, m, u := one, kit.Pick(k.R, "GET", "GET", "POST"), kit.Pick(k.R, "https://a/b", "https://a/b", "https://a/c")
			if k.R.Intn(4) == 0 {
				p = dpop.DefaultProver(s)
			}
			t, err := p.Prove(m, u)
			j, err2 := kit.DecodeJWS(t, nil)
			if !k.Check(err == nil && err2 == nil && !seen[j.Str("jti")], "jti", "jti repeated or proof missing: %v %v", err, err2) {
				return
			}
			seen[j.Str("jti")] = true
			if i < 600 {
				th, err := v.Verify(ctx, m, u, t)
				judgeProof(k, "repeated request", th, err, key.Thumb())
			}
			if k.R.Intn(50) == 0 {
				time.Sleep(time.Duration(k.R.Intn(3000)) * time.Millisecond)
			}
		}
	})
}

func c18Race(c *kit.Ctx) {
	ctx := context.Background()
	c.Require("accepted", 300)
	for i := 0; i < c.N(6, 100); i++ {
		c.Case(fmt.Sprintf("race/%d", i), func(k *kit.Case) {
			proofs := inmemory.DPoPProofs()
			kit.Keep(proofs)
			v := dpop.DefaultVerifier(proofs, jwt.EmbeddedKeyVerifier(allAlgs()))
			key := kit.NewKey("c18-1", kit.Pick(k.R, "ES256", "EdDSA"))
			p := dpop.DefaultProver(jwt.DPoPSigner(jose.SignatureAlgorithm(key.Alg), kit.KeyFunc(key.Priv, key.Kid, key.Alg)))
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				sub := &kit.Case{Ctx: k.Ctx, Label: k.Label, R: c.Rng(fmt.Sprintf("%s/%d", k.Label, g))}
				k.Go(&wg, func() {
					for n := 0; n < 15; n++ {
						m, u := kit.Pick(sub.R, c18Methods...), c18URL(sub)
						tok := kit.RandString(sub.R, 9, kit.Alnum)
						proof, err := p.Prove(m, u, dpop.WithTokenValue(tok))
						if err != nil {
							sub.Fail("prove", "%v", err)
							return
						}
						th, err := v.Verify(ctx, m, u+"x", proof, dpop.WithTokenValue(tok))
						judgeProof(sub, "other URL", th, err, "")
						th, err = v.Verify(ctx, m, u, proof, dpop.WithTokenValue(tok), dpop.WithTokenConfirmation(key.Thumb()))
						judgeProof(sub, "concurrent proof", th, err, key.Thumb())
					}
				})
			}
			wg.Wait()
		})
	}
}
