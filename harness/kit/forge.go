package kit

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	mrand "math/rand"
	"strings"
	"unicode"

	"github.com/go-jose/go-jose/v4"
)

// B64 is base64url without padding.
func B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// J marshals.
func J(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// SignRaw computes the JWS signature of input under alg, without the libraries under test.
func SignRaw(alg string, key any, input string) []byte {
	hash := func(c crypto.Hash) []byte {
		h := c.New()
		h.Write([]byte(input))
		return h.Sum(nil)
	}
	var ch crypto.Hash
	switch {
	case strings.HasSuffix(alg, "256"):
		ch = crypto.SHA256
	case strings.HasSuffix(alg, "384"):
		ch = crypto.SHA384
	case strings.HasSuffix(alg, "512"):
		ch = crypto.SHA512
	}
	switch {
	case strings.HasPrefix(alg, "ES"):
		k := key.(*ecdsa.PrivateKey)
		r, s, err := ecdsa.Sign(rand.Reader, k, hash(ch))
		if err != nil {
			panic(err)
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	case strings.HasPrefix(alg, "RS"):
		b, err := rsa.SignPKCS1v15(rand.Reader, key.(*rsa.PrivateKey), ch, hash(ch))
		if err != nil {
			panic(err)
		}
		return b
	case strings.HasPrefix(alg, "PS"):
		b, err := rsa.SignPSS(rand.Reader, key.(*rsa.PrivateKey), ch, hash(ch), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		if err != nil {
			panic(err)
		}
		return b
	case alg == "EdDSA":
		return ed25519.Sign(key.(ed25519.PrivateKey), []byte(input))
	case strings.HasPrefix(alg, "HS"):
		m := hmac.New(sha256.New, key.([]byte))
		if alg == "HS384" {
			m = hmac.New(sha512.New384, key.([]byte))
		}
		if alg == "HS512" {
			m = hmac.New(sha512.New, key.([]byte))
		}
		m.Write([]byte(input))
		return m.Sum(nil)
	case alg == "none":
		return nil
	}
	panic("alg " + alg)
}

// MakeJWS assembles a compact JWS; payload is raw bytes. hdr must contain alg unless signAlg is given.
func MakeJWS(hdr map[string]any, payload []byte, signAlg string, key any) string {
	in := B64(J(hdr)) + "." + B64(payload)
	return in + "." + B64(SignRaw(signAlg, key, in))
}

// Key is a named key pair with its algorithm.
type Key struct {
	Alg  string
	Kid  string
	Priv any
	Pub  any
}

// JWK returns the public JWK.
func (k *Key) JWK() jose.JSONWebKey {
	return jose.JSONWebKey{Key: k.Pub, KeyID: k.Kid, Algorithm: k.Alg, Use: "sig"}
}

// PrivJWK returns the private JWK.
func (k *Key) PrivJWK() *jose.JSONWebKey {
	return &jose.JSONWebKey{Key: k.Priv, KeyID: k.Kid, Algorithm: k.Alg, Use: "sig"}
}

// JWKMap is the public JWK as plain JSON object.
func (k *Key) JWKMap() map[string]any {
	j := k.JWK()
	b, err := j.MarshalJSON()
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// Thumb is the RFC 7638 thumbprint computed from first principles.
func (k *Key) Thumb() string {
	var canon string
	switch p := k.Pub.(type) {
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		canon = fmt.Sprintf(`{"crv":"%s","kty":"EC","x":"%s","y":"%s"}`, p.Curve.Params().Name, B64(p.X.FillBytes(make([]byte, n))), B64(p.Y.FillBytes(make([]byte, n))))
	case *rsa.PublicKey:
		canon = fmt.Sprintf(`{"e":"%s","kty":"RSA","n":"%s"}`, B64(big.NewInt(int64(p.E)).Bytes()), B64(p.N.Bytes()))
	case ed25519.PublicKey:
		canon = fmt.Sprintf(`{"crv":"Ed25519","kty":"OKP","x":"%s"}`, B64(p))
	}
	h := sha256.Sum256([]byte(canon))
	return B64(h[:])
}

// NewKey returns a process-wide key for (name, alg).
func NewKey(name, alg string) *Key {
	k := &Key{Alg: alg, Kid: name}
	switch alg {
	case "ES256":
		k.Priv = ECKey(name, elliptic.P256())
	case "ES384":
		k.Priv = ECKey(name, elliptic.P384())
	case "ES512":
		k.Priv = ECKey(name, elliptic.P521())
	case "EdDSA":
		h := sha256.Sum256([]byte("ed" + name))
		k.Priv = ed25519.NewKeyFromSeed(h[:])
	default: // RSA
		keyMu.Lock()
		defer keyMu.Unlock()
		s, ok := keyPool["rsa"+name]
		if !ok {
			p, err := rsa.GenerateKey(rand.Reader, 2048)
			if err != nil {
				panic(err)
			}
			s = p
			keyPool["rsa"+name] = s
		}
		k.Priv = s
	}
	k.Pub = k.Priv.(crypto.Signer).Public()
	return k
}

// Token signs claims with header extras.
func (k *Key) Token(typ string, claims any, extra map[string]any) string {
	h := map[string]any{"alg": k.Alg, "kid": k.Kid}
	if typ != "" {
		h["typ"] = typ
	}
	for n, v := range extra {
		if v == nil {
			delete(h, n)
		} else {
			h[n] = v
		}
	}
	return MakeJWS(h, J(claims), k.Alg, k.Priv)
}

// Forged is a token which must be refused.
type Forged struct{ Name, Tok string }

// lenient decodes a segment as permissively as a JOSE library may.
func lenient(s string) (string, bool) {
	s = strings.TrimRight(strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s), "=")
	b, err := base64.RawURLEncoding.DecodeString(s)
	return string(b), err == nil
}

// SameContent tells whether two compact tokens carry the same header, payload and signature bytes
// (merely another spelling of the same base64url).
func SameContent(a, b string) bool {
	x, y := strings.Split(strings.TrimSpace(a), "."), strings.Split(strings.TrimSpace(b), ".")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		p, ok1 := lenient(x[i])
		q, ok2 := lenient(y[i])
		if !ok1 || !ok2 || p != q {
			return false
		}
	}
	return true
}

// Forgeries derives tokens from tok (signed by key) that nobody holding only public material and tok could get accepted legitimately.
func Forgeries(r *mrand.Rand, tok string, key *Key, foreign *Key) []Forged {
	parts := strings.Split(tok, ".")
	var out []Forged
	add := func(n, t string) {
		if t != tok && !SameContent(t, tok) {
			out = append(out, Forged{n, t})
		}
	}
	hb, _ := lenient(parts[0])
	pb, _ := lenient(parts[1])
	sb, _ := lenient(parts[2])
	hdr := func(mod func(m map[string]any)) string {
		m := map[string]any{}
		_ = json.Unmarshal([]byte(hb), &m)
		mod(m)
		return B64(J(m))
	}
	other := map[string]any{}
	_ = json.Unmarshal([]byte(pb), &other)
	// unsigned
	for _, a := range []string{"none", "None", "NONE", "nOnE", ""} {
		h := hdr(func(m map[string]any) { m["alg"] = a })
		add("alg="+a, h+"."+parts[1]+".")
		add("alg="+a+"+sig", h+"."+parts[1]+"."+parts[2])
		add("alg="+a+"+2", h+"."+parts[1])
	}
	noalg := hdr(func(m map[string]any) { delete(m, "alg") })
	add("noalg", noalg+"."+parts[1]+"."+parts[2])
	add("noalg-empty", noalg+"."+parts[1]+".")
	// HMAC with public material
	der, _ := x509.MarshalPKIXPublicKey(key.Pub)
	mats := map[string][]byte{
		"empty": {}, "der": der, "pem": pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), "kid": []byte(key.Kid), "jwk": J(key.JWKMap()), "thumb": []byte(key.Thumb()),
	}
	if p, ok := key.Pub.(*ecdsa.PublicKey); ok {
		mats["point"] = elliptic.Marshal(p.Curve, p.X, p.Y) //nolint:staticcheck
		mats["x"] = p.X.Bytes()
	}
	if p, ok := key.Pub.(ed25519.PublicKey); ok {
		mats["raw"] = p
	}
	for n, mat := range mats {
		for _, a := range []string{"HS256", "HS384", "HS512"} {
			h := hdr(func(m map[string]any) { m["alg"] = a })
			in := h + "." + parts[1]
			add("hmac-"+a+"-"+n, in+"."+B64(SignRaw(a, mat, in)))
		}
	}
	oct := hdr(func(m map[string]any) {
		m["alg"] = "HS256"
		m["jwk"] = map[string]any{"kty": "oct", "k": B64([]byte("0123456789abcdef0123456789abcdef"))}
	})
	add("hmac-embedded", oct+"."+parts[1]+"."+B64(SignRaw("HS256", []byte("0123456789abcdef0123456789abcdef"), oct+"."+parts[1])))
	// foreign key
	fs := func(h string) string {
		return h + "." + parts[1] + "." + B64(SignRaw(foreign.Alg, foreign.Priv, h+"."+parts[1]))
	}
	if foreign != nil {
		add("foreign", fs(hdr(func(m map[string]any) { m["alg"] = foreign.Alg })))
		add("foreign-kid", fs(hdr(func(m map[string]any) { m["alg"] = foreign.Alg; m["kid"] = foreign.Kid })))
		add("foreign-nokid", fs(hdr(func(m map[string]any) { m["alg"] = foreign.Alg; delete(m, "kid") })))
		if key.Thumb() != foreign.Thumb() {
			add("foreign-x5c", fs(hdr(func(m map[string]any) { m["alg"] = foreign.Alg; m["jku"] = "https://evil.example/jwks" })))
		}
		fj := foreign.JWKMap()
		fj["kid"] = key.Kid
		keyEmb := hdr(func(m map[string]any) { m["alg"] = foreign.Alg; m["jwk"] = fj })
		out = append(out, Forged{"foreign-embedded", fs(keyEmb)})
	}
	// broken signatures
	add("sig-empty", parts[0]+"."+parts[1]+".")
	add("sig-zero", parts[0]+"."+parts[1]+"."+B64(make([]byte, len(sb))))
	add("sig-one", parts[0]+"."+parts[1]+"."+B64(append(make([]byte, len(sb)-1), 1)))
	add("sig-short", parts[0]+"."+parts[1]+"."+B64([]byte(sb[:len(sb)-1])))
	add("sig-long", parts[0]+"."+parts[1]+"."+B64([]byte(sb+"\x00")))
	add("sig-lead", parts[0]+"."+parts[1]+"."+B64([]byte("\x00"+sb)))
	add("sig-double", parts[0]+"."+parts[1]+"."+B64([]byte(sb+sb)))
	add("sig-hex", parts[0]+"."+parts[1]+"."+B64([]byte(hex.EncodeToString([]byte(sb)))))
	if _, ok := key.Pub.(*ecdsa.PublicKey); ok {
		n := len(sb) / 2
		d, _ := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes([]byte(sb[:n])), new(big.Int).SetBytes([]byte(sb[n:]))})
		add("sig-der", parts[0]+"."+parts[1]+"."+B64(d))
		add("sig-swap", parts[0]+"."+parts[1]+"."+B64([]byte(sb[n:]+sb[:n])))
	}
	// payload replaced under the old signature
	for n := range other {
		m := map[string]any{}
		for a, b := range other {
			m[a] = b
		}
		switch v := m[n].(type) {
		case string:
			m[n] = v + "x"
		case float64:
			m[n] = v + 1
		default:
			delete(m, n)
		}
		add("payload-"+n, parts[0]+"."+B64(J(m))+"."+parts[2])
		delete(m, n)
		add("payload-del-"+n, parts[0]+"."+B64(J(m))+"."+parts[2])
	}
	add("payload-empty", parts[0]+".."+parts[2])
	add("payload-space", parts[0]+"."+B64([]byte(pb+" "))+"."+parts[2])
	add("payload-obj", parts[0]+"."+B64([]byte("{}"))+"."+parts[2])
	add("payload-null", parts[0]+"."+B64([]byte("null"))+"."+parts[2])
	// header altered under the old signature
	for _, mod := range []func(m map[string]any){
		func(m map[string]any) { m["typ"] = fmt.Sprint(m["typ"]) + "x" }, func(m map[string]any) { delete(m, "typ") }, func(m map[string]any) { m["x"] = "y" },
		func(m map[string]any) { m["kid"] = "zz" }, func(m map[string]any) { m["alg"] = "ES384" }, func(m map[string]any) { m["alg"] = "RS256" },
		func(m map[string]any) { m["crit"] = []string{"x"}; m["x"] = 1 }, func(m map[string]any) { m["b64"] = false; m["crit"] = []string{"b64"} },
	} {
		add("header", hdr(mod)+"."+parts[1]+"."+parts[2])
	}
	// shapes
	for _, t := range []string{parts[0] + "." + parts[1], parts[0] + "." + parts[2], parts[1] + "." + parts[0] + "." + parts[2], tok + ".", "." + tok, tok + "." + parts[2], parts[0] + ".." + parts[1] + "." + parts[2], tok + tok, tok[1:], tok[:len(tok)/2], "", ".", "..", "...", strings.ToUpper(tok), strings.ToLower(tok)} {
		add("shape", t)
	}
	// JSON serialisations of altered content
	json1 := func(n string, m map[string]any) { out = append(out, Forged{"json-" + n, string(J(m))}) }
	json1("none", map[string]any{"payload": parts[1], "header": map[string]any{"alg": "none"}, "signature": ""})
	json1("nosig", map[string]any{"payload": parts[1], "protected": parts[0]})
	json1("unprotected", map[string]any{"payload": parts[1], "header": map[string]any{"alg": key.Alg}, "signature": parts[2]})
	json1("payload", map[string]any{"payload": B64([]byte(pb + " ")), "protected": parts[0], "signature": parts[2]})
	json1("sigs", map[string]any{"payload": parts[1], "signatures": []any{}})
	json1("sigs2", map[string]any{"payload": B64([]byte(pb + " ")), "signatures": []any{map[string]any{"protected": parts[0], "signature": parts[2]}}})
	// random alterations
	for i := 0; i < 24; i++ {
		add("mutated", string(MutateBytes(r, []byte(tok))))
	}
	for i := 0; i < 12; i++ {
		seg := r.Intn(3)
		raw := []string{hb, pb, sb}
		raw[seg] = string(MutateBytes(r, []byte(raw[seg])))
		add(fmt.Sprintf("mutated-%d", seg), B64([]byte(raw[0]))+"."+B64([]byte(raw[1]))+"."+B64([]byte(raw[2])))
	}
	return out
}
