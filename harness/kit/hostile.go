package kit

import (
	"encoding/json"
	"math"
	"math/rand"
	"sort"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
)

// HostileString is text a remote party may put in any field; have is the current value, pool other values seen.
func HostileString(r *rand.Rand, have string, pool []string) string {
	switch r.Intn(9) {
	case 0, 1:
		return NearMiss(r, have+"a")
	case 2:
		return string(MutateBytes(r, []byte(have)))
	case 3:
		if len(pool) > 0 {
			return pool[r.Intn(len(pool))]
		}
		return ""
	case 4:
		return strings.Repeat(Pick(r, "a", "/", "%", "é", " ", ".", "openid ", "\x00", "["), 1<<uint(r.Intn(17)))
	case 5:
		return Pick(r, "", " ", "\x00", "\xff\xfe", "-", "null", "openid openid", "%", "urn:solid:", "://", "[::1", "https://[::1]:99999/", "http://\x7f/", "javascript:1", "//", "?", "#", ":", "http:", "https://a b/", "\u202e")
	default:
		return Garbage(r, 200)
	}
}

// Hostile changes n random fields of m (nested ones included) into hostile values and names the paths changed.
func Hostile(r *rand.Rand, m protoreflect.Message, n int, pool []string) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, hostileOne(r, m, pool, 0))
	}
	return out
}

func hostileOne(r *rand.Rand, m protoreflect.Message, pool []string, depth int) string {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return "-"
	}
	// Present message fields are entered more often than others are changed.
	var present []protoreflect.FieldDescriptor
	for i := 0; i < fs.Len(); i++ {
		if m.Has(fs.Get(i)) {
			present = append(present, fs.Get(i))
		}
	}
	f := fs.Get(r.Intn(fs.Len()))
	if len(present) > 0 && r.Intn(4) != 0 {
		f = present[r.Intn(len(present))]
	}
	name := string(f.Name())
	scalar := func(v protoreflect.Value) protoreflect.Value {
		switch f.Kind() {
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(!v.Bool())
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(Pick(r, 0, 1, 2, 3, 7, -1, math.MaxInt32, math.MinInt32)))
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(Pick(r, int32(0), 1, -1, math.MaxInt32, math.MinInt32))
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			return protoreflect.ValueOfInt64(Pick(r, int64(0), 1, -1, math.MaxInt64, math.MinInt64))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(Pick(r, uint32(0), 1, math.MaxUint32))
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(Pick(r, uint64(0), 1, math.MaxUint64, 1<<63))
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte(HostileString(r, string(v.Bytes()), pool)))
		default:
			return protoreflect.ValueOfString(HostileString(r, v.String(), pool))
		}
	}
	switch {
	case f.IsMap():
		m.Clear(f)
		return name + ":clear"
	case f.IsList():
		l := m.Mutable(f).List()
		switch r.Intn(3) {
		case 0:
			m.Clear(f)
			return name + ":clear"
		case 1:
			if l.Len() > 0 && f.Kind() != protoreflect.MessageKind {
				i := r.Intn(l.Len())
				l.Set(i, scalar(l.Get(i)))
				return name + ":set"
			}
			fallthrough
		default:
			if f.Kind() == protoreflect.MessageKind {
				l.AppendMutable()
			} else {
				l.Append(scalar(l.NewElement()))
			}
			return name + ":append"
		}
	case f.Kind() == protoreflect.MessageKind:
		switch {
		case depth < 6 && m.Has(f) && r.Intn(4) != 0:
			return name + "." + hostileOne(r, m.Mutable(f).Message(), pool, depth+1)
		case r.Intn(2) == 0:
			m.Clear(f)
			return name + ":clear"
		default:
			m.Set(f, m.NewField(f))
			return name + ":empty"
		}
	default:
		if r.Intn(4) == 0 {
			m.Clear(f)
			return name + ":clear"
		}
		if f.Kind() == protoreflect.StringKind && r.Intn(5) == 0 { // present without any word
			m.Set(f, protoreflect.ValueOfString(Pick(r, "", "", " ", "  ", "\t", "\n", "\u00a0", ",", ", ")))
			return name + ":blank"
		}
		m.Set(f, scalar(m.Get(f)))
		return name + ":set"
	}
}

// Deep is a deeply nested JSON text.
func Deep(n int, open, shut string) string { return strings.Repeat(open, n) + strings.Repeat(shut, n) }

// HostileJSON is a JSON text (or nearly one) for a header or a payload that was have.
func HostileJSON(r *rand.Rand, have map[string]any) []byte {
	h := map[string]any{}
	for k, v := range have {
		h[k] = v
	}
	var names []string
	for k := range h {
		names = append(names, k)
	}
	sort.Strings(names)
	pick := func() string {
		if len(names) > 0 && r.Intn(3) != 0 {
			return names[r.Intn(len(names))]
		}
		return Pick(r, "alg", "jwk", "kid", "typ", "crit", "b64", "x5c", "x5u", "jku", "zip", "enc", "cnf", "aud", "exp", "nbf", "iat", "iss", "sub", "jti", "htm", "htu", "ath", "client_id", "code", "state", "nonce", "epk", "p2c")
	}
	value := func() any {
		return Pick[any](r, nil, true, false, 0, -1, 1e300, -1e300, 1<<53, "", "x", "none", []any{}, []any{nil}, []any{1, "x"}, map[string]any{}, map[string]any{"kty": "EC"}, map[string]any{"kty": "oct", "k": "AAAA"},
			map[string]any{"kty": "RSA", "n": "AQ", "e": "AQ"}, map[string]any{"kty": "RSA", "n": "", "e": ""}, map[string]any{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}, map[string]any{"kty": "OKP", "crv": "Ed25519", "x": ""},
			map[string]any{"kty": "OKP", "crv": "X25519", "x": "AAAA"}, map[string]any{"jwk": nil}, map[string]any{"jkt": 1}, map[string]any{"jwk": map[string]any{}}, map[string]any{"kty": "EC", "crv": "P-999", "x": "AA", "y": "AA", "d": "AA"},
			json.RawMessage(`1e999`), json.RawMessage(`99999999999999999999999999`), json.RawMessage(`-0`), json.RawMessage(Deep(2000, "[", "]")), []any{"b64"}, []any{"exp", "exp"}, "\u0000", strings.Repeat("A", 5000), []any{"https://a", "https://b"})
	}
	switch r.Intn(12) {
	case 0:
		return []byte(Pick(r, "", "null", "[]", "{}", "true", "0", `""`, "{", "}", `{"alg"`, "\x00", "\xff", "{}{}", " {} ", `{"a":}`, `{"exp":1e5000}`))
	case 1:
		return []byte(Deep(1<<uint(r.Intn(17)), Pick(r, "[", `{"a":`), Pick(r, "]", "}", "")))
	case 2:
		b, _ := json.Marshal(h)
		return MutateBytes(r, b)
	case 3: // duplicate members
		b, _ := json.Marshal(h)
		v, _ := json.Marshal(value())
		if len(b) > 2 {
			return []byte(string(b[:len(b)-1]) + `,"` + pick() + `":` + string(v) + "}")
		}
		return b
	default:
		for i := 1 + r.Intn(3); i > 0; i-- {
			switch n := pick(); r.Intn(4) {
			case 0:
				delete(h, n)
			default:
				h[n] = value()
			}
		}
		b, err := json.Marshal(h)
		if err != nil {
			return []byte(`{"alg":1e999}`)
		}
		return b
	}
}

// Shape is one change of one field of a message.
type Shape struct {
	Path string
	Do   func(m protoreflect.Message)
}

// Shapes lists systematically, for every field of m (those of present and of optional nested messages included), the
// values a decoder or a careless client would leave in it: nothing, blanks, separators alone, extremes.
func Shapes(m protoreflect.Message) []Shape {
	return shapes(m.Descriptor(), m, "", func(m protoreflect.Message) protoreflect.Message { return m }, 0)
}

func shapes(d protoreflect.MessageDescriptor, have protoreflect.Message, prefix string, at func(protoreflect.Message) protoreflect.Message, depth int) []Shape {
	var out []Shape
	fs := d.Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		name := prefix + string(f.Name())
		add := func(what string, do func(m protoreflect.Message)) {
			out = append(out, Shape{name + ":" + what, func(m protoreflect.Message) { do(at(m)) }})
		}
		if have.Has(f) {
			add("absent", func(m protoreflect.Message) { m.Clear(f) })
		}
		str := func(s string) protoreflect.Value {
			if f.Kind() == protoreflect.BytesKind {
				return protoreflect.ValueOfBytes([]byte(s))
			}
			return protoreflect.ValueOfString(s)
		}
		text := []string{"", " ", "\t\n", "\x00", "\u00a0", ",", ":", "/", ".", "..", "~", "_", "-", "=", "é", "a", "0", "?", "#", "%", "a b", "a=b", "a:b", "{}", "[]", "\"", "null", "sldat_", "urn:", "https://", strings.Repeat("a", 1<<16)}
		isText := f.Kind() == protoreflect.StringKind || f.Kind() == protoreflect.BytesKind
		switch {
		case f.IsMap():
		case f.IsList() && isText:
			for _, s := range text {
				s := s
				add("["+Clip(s)+"]", func(m protoreflect.Message) { m.Clear(f); m.Mutable(f).List().Append(str(s)) })
			}
		case f.IsList():
			add("[new]", func(m protoreflect.Message) {
				if f.Kind() == protoreflect.MessageKind {
					m.Mutable(f).List().AppendMutable()
				}
			})
		case f.Kind() == protoreflect.MessageKind:
			add("empty", func(m protoreflect.Message) { m.Set(f, m.NewField(f)) })
			if depth < 3 && have.Has(f) {
				out = append(out, shapes(f.Message(), have.Get(f).Message(), name+".", func(m protoreflect.Message) protoreflect.Message { return at(m).Mutable(f).Message() }, depth+1)...)
			}
		case isText:
			for _, s := range text {
				s := s
				add("="+Clip(s), func(m protoreflect.Message) { m.Set(f, str(s)) })
			}
		case f.Kind() == protoreflect.EnumKind:
			for _, n := range []int32{0, 1, 2, 9, -1, math.MaxInt32} {
				n := n
				add("enum", func(m protoreflect.Message) { m.Set(f, protoreflect.ValueOfEnum(protoreflect.EnumNumber(n))) })
			}
		case f.Kind() == protoreflect.Uint64Kind:
			for _, n := range []uint64{0, 1, math.MaxUint64, 1 << 63} {
				n := n
				add("uint", func(m protoreflect.Message) { m.Set(f, protoreflect.ValueOfUint64(n)) })
			}
		case f.Kind() == protoreflect.BoolKind:
			add("not", func(m protoreflect.Message) { m.Set(f, protoreflect.ValueOfBool(!m.Get(f).Bool())) })
		}
	}
	return out
}

// Clip shortens a text for a message.
func Clip(s string) string {
	if len(s) > 12 {
		return s[:12] + "..."
	}
	return s
}
