package kit

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash"
	"math/big"
	"strings"
)

// JWS is a compact JWS decoded without the code under test.
type JWS struct {
	Header  map[string]any
	Payload map[string]any
	Raw     []byte
}

// DecodeJWS decodes and verifies an ECDSA compact JWS (pub nil: no verification).
func DecodeJWS(tok string, pub *ecdsa.PublicKey) (*JWS, error) {
	parts := strings.Split(tok, ".")
	if len(parts) != 3 {
		return nil, fmt.Errorf("%d parts", len(parts))
	}
	dec := func(s string) ([]byte, error) { return base64.RawURLEncoding.Strict().DecodeString(s) }
	h, err := dec(parts[0])
	if err != nil {
		return nil, fmt.Errorf("header: %w", err)
	}
	p, err := dec(parts[1])
	if err != nil {
		return nil, fmt.Errorf("payload: %w", err)
	}
	sig, err := dec(parts[2])
	if err != nil {
		return nil, fmt.Errorf("signature: %w", err)
	}
	out := &JWS{Raw: p}
	if err := json.Unmarshal(h, &out.Header); err != nil {
		return nil, fmt.Errorf("header: %w", err)
	}
	if err := json.Unmarshal(p, &out.Payload); err != nil {
		return nil, fmt.Errorf("payload: %w", err)
	}
	if pub != nil {
		var hf hash.Hash
		switch out.Header["alg"] {
		case "ES256":
			hf = sha256.New()
		case "ES384":
			hf = sha512.New384()
		case "ES512":
			hf = sha512.New()
		default:
			return nil, fmt.Errorf("alg %v", out.Header["alg"])
		}
		hf.Write([]byte(parts[0] + "." + parts[1]))
		n := (pub.Curve.Params().BitSize + 7) / 8
		if len(sig) != 2*n {
			return nil, fmt.Errorf("signature length %d", len(sig))
		}
		if !ecdsa.Verify(pub, hf.Sum(nil), new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:])) {
			return nil, fmt.Errorf("bad signature")
		}
	}
	return out, nil
}

// Str returns a string claim.
func (j *JWS) Str(n string) string { s, _ := j.Payload[n].(string); return s }

// Num returns a numeric claim.
func (j *JWS) Num(n string) uint64 { f, _ := j.Payload[n].(float64); return uint64(f) }

// Jkt returns cnf.jkt.
func (j *JWS) Jkt() string {
	m, _ := j.Payload["cnf"].(map[string]any)
	s, _ := m["jkt"].(string)
	return s
}

// DecodeAny decodes a compact JWS and verifies it with the public key under alg, using the standard library only.
func DecodeAny(tok, alg string, pub any) (*JWS, error) {
	if k, ok := pub.(*ecdsa.PublicKey); ok {
		j, err := DecodeJWS(tok, k)
		if err == nil && j.Header["alg"] != alg {
			return nil, fmt.Errorf("alg %v", j.Header["alg"])
		}
		return j, err
	}
	j, err := DecodeJWS(tok, nil)
	if err != nil {
		return nil, err
	}
	if j.Header["alg"] != alg {
		return nil, fmt.Errorf("alg %v", j.Header["alg"])
	}
	i := strings.LastIndex(tok, ".")
	sig, _ := base64.RawURLEncoding.DecodeString(tok[i+1:])
	in := []byte(tok[:i])
	ch := crypto.SHA256
	switch {
	case strings.HasSuffix(alg, "384"):
		ch = crypto.SHA384
	case strings.HasSuffix(alg, "512"):
		ch = crypto.SHA512
	}
	hf := ch.New()
	hf.Write(in)
	h := hf.Sum(nil)
	switch k := pub.(type) {
	case ed25519.PublicKey:
		if !ed25519.Verify(k, in, sig) {
			return nil, fmt.Errorf("bad signature")
		}
	case *rsa.PublicKey:
		switch alg {
		case "RS256", "RS384", "RS512":
			err = rsa.VerifyPKCS1v15(k, ch, h, sig)
		case "PS256", "PS384", "PS512":
			err = rsa.VerifyPSS(k, ch, h, sig, nil)
		default:
			err = fmt.Errorf("alg %s", alg)
		}
	default:
		err = fmt.Errorf("key %T", pub)
	}
	if err != nil {
		return nil, err
	}
	return j, nil
}
