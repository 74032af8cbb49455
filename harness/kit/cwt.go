package kit

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"encoding/base64"
	"fmt"
	"math/big"

	"github.com/fxamacker/cbor/v2"
)

// CWT is a decoded COSE_Sign message (RFC 8152) with a single signature.
type CWT struct {
	Protected   map[any]any
	Unprotected map[any]any
	Payload     map[any]any
}

// DecodeCWT decodes base64url COSE_Sign and verifies it from first principles.
func DecodeCWT(tok string, pub any, external []byte) (*CWT, error) {
	raw, err := base64.RawURLEncoding.Strict().DecodeString(tok)
	if err != nil {
		return nil, err
	}
	var tag cbor.RawTag
	if err := cbor.Unmarshal(raw, &tag); err != nil {
		return nil, fmt.Errorf("tag: %w", err)
	}
	if tag.Number != 98 {
		return nil, fmt.Errorf("tag %d", tag.Number)
	}
	var body struct {
		_           struct{} `cbor:",toarray"`
		Protected   []byte
		Unprotected map[any]any
		Payload     []byte
		Signatures  []struct {
			_           struct{} `cbor:",toarray"`
			Protected   []byte
			Unprotected map[any]any
			Signature   []byte
		}
	}
	if err := cbor.Unmarshal(tag.Content, &body); err != nil {
		return nil, fmt.Errorf("body: %w", err)
	}
	if len(body.Signatures) != 1 {
		return nil, fmt.Errorf("%d signatures", len(body.Signatures))
	}
	s := body.Signatures[0]
	out := &CWT{Unprotected: s.Unprotected}
	if err := cbor.Unmarshal(s.Protected, &out.Protected); err != nil {
		return nil, fmt.Errorf("protected: %w", err)
	}
	if err := cbor.Unmarshal(body.Payload, &out.Payload); err != nil {
		return nil, fmt.Errorf("payload: %w", err)
	}
	// Sig_structure; an empty protected map is a zero length string
	bp := body.Protected
	if len(bp) == 1 && bp[0] == 0xa0 {
		bp = nil
	}
	if bp == nil {
		bp = []byte{}
	}
	tbs, err := cbor.Marshal([]any{"Signature", bp, s.Protected, external, body.Payload})
	if err != nil {
		return nil, err
	}
	alg := out.Protected["alg"]
	if alg == nil {
		alg = out.Protected[uint64(1)]
	}
	sum := func(c crypto.Hash) []byte { h := c.New(); h.Write(tbs); return h.Sum(nil) }
	ec := func(c crypto.Hash) error {
		k, ok := pub.(*ecdsa.PublicKey)
		if !ok {
			return fmt.Errorf("key %T", pub)
		}
		n := (k.Curve.Params().BitSize + 7) / 8
		if len(s.Signature) != 2*n {
			return fmt.Errorf("signature length %d", len(s.Signature))
		}
		if !ecdsa.Verify(k, sum(c), new(big.Int).SetBytes(s.Signature[:n]), new(big.Int).SetBytes(s.Signature[n:])) {
			return fmt.Errorf("bad signature")
		}
		return nil
	}
	switch alg {
	case "ES256", int64(-7):
		err = ec(crypto.SHA256)
	case "ES384", int64(-35):
		err = ec(crypto.SHA384)
	case "ES512", int64(-36):
		err = ec(crypto.SHA512)
	case "PS256", int64(-37):
		k, ok := pub.(*rsa.PublicKey)
		if !ok {
			return nil, fmt.Errorf("key %T", pub)
		}
		err = rsa.VerifyPSS(k, crypto.SHA256, sum(crypto.SHA256), s.Signature, nil)
	default:
		err = fmt.Errorf("alg %v", alg)
	}
	if err != nil {
		return nil, err
	}
	return out, nil
}
