package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	"verifharness/kit"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	_ "zntr.io/solid/api/oidc/core/v1"
	_ "zntr.io/solid/api/oidc/discovery/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	_ "zntr.io/solid/api/oidc/resource/v1"
	_ "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

type vtMessage interface {
	proto.Message
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	SizeVT() int
	UnmarshalVT([]byte) error
	json.Marshaler
	json.Unmarshaler
}

// c32Types lists every message type of the API.
func c32Types() []protoreflect.MessageType {
	var out []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(t protoreflect.MessageType) bool {
		if strings.HasPrefix(string(t.Descriptor().FullName()), "oidc.") && !t.Descriptor().IsMapEntry() {
			out = append(out, t)
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Descriptor().FullName() < out[j].Descriptor().FullName() })
	return out
}

func c32String(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(kit.Pick(r, "a", "é", "語"), 1<<uint(r.Intn(12)))
	case 2:
		return kit.Pick(r, "\x00", "\"\\/\b\f\n\r\t", "<script>&", "\u2028\u2029", "\U0001f600", "null", "é", "\ufeff")
	case 3:
		return kit.RandString(r, 120+r.Intn(16), kit.Alnum) // around the one/two byte length
	default:
		return kit.RandString(r, r.Intn(20), kit.Unreserve)
	}
}

// c32Fill draws a value for every field; density in percent.
func c32Fill(r *rand.Rand, m protoreflect.Message, density, depth int, unknown bool) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if r.Intn(100) >= density {
			continue
		}
		scalar := func() protoreflect.Value {
			switch f.Kind() {
			case protoreflect.BoolKind:
				return protoreflect.ValueOfBool(r.Intn(3) > 0)
			case protoreflect.EnumKind:
				vs := f.Enum().Values()
				n := vs.Get(r.Intn(vs.Len())).Number()
				if r.Intn(6) == 0 {
					n = protoreflect.EnumNumber(kit.Pick(r, 100, 127, 128, 99999, math.MaxInt32, -1, math.MinInt32))
				}
				return protoreflect.ValueOfEnum(n)
			case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
				return protoreflect.ValueOfInt32(kit.Pick(r, int32(0), 1, -1, 127, 128, math.MaxInt32, math.MinInt32))
			case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
				return protoreflect.ValueOfInt64(kit.Pick(r, int64(0), 1, -1, 127, 128, math.MaxInt64, math.MinInt64))
			case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
				return protoreflect.ValueOfUint32(kit.Pick(r, uint32(0), 1, 127, 128, math.MaxUint32))
			case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
				return protoreflect.ValueOfUint64(kit.Pick(r, uint64(0), 1, 127, 128, 1<<14-1, 1<<14, 1<<21, 1<<28, 1<<35, 1<<63, math.MaxUint64, uint64(1700000000)))
			case protoreflect.FloatKind:
				return protoreflect.ValueOfFloat32(float32(r.NormFloat64()))
			case protoreflect.DoubleKind:
				return protoreflect.ValueOfFloat64(r.NormFloat64())
			case protoreflect.BytesKind:
				b := make([]byte, kit.Pick(r, 0, 1, 5, 127, 128, 300))
				r.Read(b)
				return protoreflect.ValueOfBytes(b)
			default:
				return protoreflect.ValueOfString(c32String(r))
			}
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			for n := r.Intn(4); n > 0; n-- {
				mp.Set(protoreflect.ValueOfString(c32String(r)).MapKey(), protoreflect.ValueOfString(c32String(r)))
			}
		case f.IsList():
			l := m.Mutable(f).List()
			for n := kit.Pick(r, 1, 2, 3, 5); n > 0; n-- {
				if f.Kind() == protoreflect.MessageKind {
					e := l.NewElement()
					if depth < 4 {
						c32Fill(r, e.Message(), density, depth+1, unknown)
					}
					l.Append(e)
				} else {
					l.Append(scalar())
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			e := m.NewField(f)
			if depth < 4 {
				c32Fill(r, e.Message(), density, depth+1, unknown)
			}
			m.Set(f, e)
		default:
			m.Set(f, scalar())
		}
	}
	if unknown && r.Intn(3) == 0 {
		m.SetUnknown(c32Unknown(r, m.Descriptor()))
	}
}

// c32Unknown draws well-formed fields the message does not declare.
func c32Unknown(r *rand.Rand, d protoreflect.MessageDescriptor) []byte {
	var b []byte
	for n := 1 + r.Intn(3); n > 0; n-- {
		num := protowire.Number(kit.Pick(r, 200, 1000, 15000, 18999, 536870911))
		if d.Fields().ByNumber(num) != nil {
			continue
		}
		switch r.Intn(5) {
		case 0:
			b = protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), kit.Pick(r, 0, 1, 300, uint64(math.MaxUint64)))
		case 1:
			b = protowire.AppendFixed32(protowire.AppendTag(b, num, protowire.Fixed32Type), r.Uint32())
		case 2:
			b = protowire.AppendFixed64(protowire.AppendTag(b, num, protowire.Fixed64Type), r.Uint64())
		case 3:
			b = protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), []byte(c32String(r)))
		default:
			b = protowire.AppendTag(b, num, protowire.StartGroupType)
			b = protowire.AppendVarint(protowire.AppendTag(b, 1, protowire.VarintType), 7)
			b = protowire.AppendTag(b, num, protowire.EndGroupType)
		}
	}
	return b
}

func c32New(t protoreflect.MessageType) vtMessage { return t.New().Interface().(vtMessage) }

// decodeVT decodes with poison around the buffer and scribbles over the input afterwards.
func decodeVT(t protoreflect.MessageType, b []byte) (vtMessage, error) {
	m := c32New(t)
	buf := append(append([]byte{}, b...), bytes.Repeat([]byte{0x0a}, 64)...)
	err := m.UnmarshalVT(buf[:len(b)])
	for i := range buf {
		buf[i] = 0xff
	}
	return m, err
}

func decodeStd(t protoreflect.MessageType, b []byte) (vtMessage, error) {
	m := c32New(t)
	err := proto.Unmarshal(append([]byte{}, b...), m)
	return m, err
}

func c32Round(k *kit.Case, t protoreflect.MessageType) {
	r := k.R
	name := string(t.Descriptor().Name())
	m := c32New(t)
	density := kit.Pick(r, 15, 40, 70, 100)
	withUnknown := r.Intn(3) == 0
	c32Fill(r, m.ProtoReflect(), density, 0, withUnknown)
	want := proto.Clone(m)

	vt, err := m.MarshalVT()
	if err != nil {
		k.Fatal("encode:"+name, "MarshalVT: %v", err)
	}
	std, err := proto.Marshal(m)
	if err != nil {
		k.Fatal("encode:"+name, "proto.Marshal: %v", err)
	}
	k.Check(m.SizeVT() == len(vt) && len(vt) == len(std) && proto.Size(m) == len(std), "size:"+name, "announced %d, encoded %d, standard %d", m.SizeVT(), len(vt), len(std))
	for i, b := range [][]byte{vt, std} {
		for j, dec := range []func(protoreflect.MessageType, []byte) (vtMessage, error){decodeVT, decodeStd} {
			got, err := dec(t, b)
			k.Check(err == nil && proto.Equal(got, want), fmt.Sprintf("roundtrip:%s", name), "%s encoder %d decoder %d (0 is VT): %v\nwant %v\ngot  %v", name, i, j, err, want, got)
			k.Eval(1)
		}
	}
	// caller supplied buffers: exactly the announced bytes are written
	pad := 1 + r.Intn(40)
	buf := bytes.Repeat([]byte{0xa5}, len(vt)+pad)
	n, err := m.MarshalToVT(buf)
	k.Check(err == nil && n == len(vt) && bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, pad)), "buffer:"+name, "MarshalToVT wrote %d of %d or beyond: %v", n, len(vt), err)
	if got, err := decodeStd(t, buf[:n]); true {
		k.Check(err == nil && proto.Equal(got, want), "buffer:"+name, "MarshalToVT content: %v", err)
	}
	buf = bytes.Repeat([]byte{0xa5}, len(vt)+pad)
	n, err = m.MarshalToSizedBufferVT(buf)
	k.Check(err == nil && n == len(vt) && bytes.Equal(buf[:pad], bytes.Repeat([]byte{0xa5}, pad)), "buffer:"+name, "MarshalToSizedBufferVT wrote %d of %d or beyond: %v", n, len(vt), err)
	if got, err := decodeStd(t, buf[pad:]); true {
		k.Check(err == nil && proto.Equal(got, want), "buffer:"+name, "MarshalToSizedBufferVT content: %v", err)
	}
	k.Check(proto.Equal(m, want), "changed:"+name, "encoding changed the message")

	// JSON carries everything but unknown fields
	bare := proto.Clone(m).(vtMessage)
	c32Strip(bare.ProtoReflect())
	js, err := json.Marshal(bare)
	if err != nil {
		k.Fatal("json-encode:"+name, "%v", err)
	}
	back := c32New(t)
	err = json.Unmarshal(js, back)
	k.Check(err == nil && proto.Equal(back, bare), "json:"+name, "JSON round trip: %v\nwant %v\ngot  %v\ntext %.600s", err, bare, back, js)
	plain := c32New(t)
	err = protojson.Unmarshal(js, plain)
	k.Check(err == nil && proto.Equal(plain, bare), "json:"+name, "JSON text is not the canonical mapping: %v", err)
	canon, err := protojson.Marshal(bare)
	if err == nil {
		third := c32New(t)
		err = json.Unmarshal(canon, third)
		k.Check(err == nil && proto.Equal(third, bare), "json:"+name, "canonical JSON not read back: %v", err)
		k.Event("json_round_trips")
	}
	// unknown JSON members are ignored, field names are those of the API description
	var obj map[string]json.RawMessage
	if json.Unmarshal(js, &obj) == nil {
		fs := t.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			if f := fs.Get(i); bare.ProtoReflect().Has(f) {
				k.Check(obj[string(f.Name())] != nil, "json-name:"+name, "field %s missing from JSON", f.Name())
			}
		}
		obj["x_unknown_member"] = json.RawMessage(`{"a":[1,null]}`)
		ext, _ := json.Marshal(obj)
		fourth := c32New(t)
		err = json.Unmarshal(ext, fourth)
		k.Check(err == nil && proto.Equal(fourth, bare), "json-unknown:"+name, "JSON with an extra member: %v", err)
	}
	c32Wire(k, t, vt, want)
	k.Event("messages")
	k.Sig("%s %d %v %d %x", name, density, withUnknown, len(vt), c32Shape(vt))
}

// c32Shape is the sequence of field numbers.
func c32Shape(b []byte) []int {
	var out []int
	for len(b) > 0 {
		num, _, n := protowire.ConsumeField(b)
		if n < 0 {
			break
		}
		out = append(out, int(num))
		b = b[n:]
	}
	return out
}

func c32Strip(m protoreflect.Message) {
	m.SetUnknown(nil)
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if f.Kind() != protoreflect.MessageKind || f.IsMap() {
			return true
		}
		if f.IsList() {
			for i := 0; i < v.List().Len(); i++ {
				c32Strip(v.List().Get(i).Message())
			}
			return true
		}
		c32Strip(m.Mutable(f).Message())
		return true
	})
}

// c32Wire: other spellings of the bytes, truncation and corruption.
func c32Wire(k *kit.Case, t protoreflect.MessageType, vt []byte, want proto.Message) {
	r := k.R
	name := string(t.Descriptor().Name())
	same := func(what string, b []byte, strict bool) {
		a, e1 := decodeVT(t, b)
		s, e2 := decodeStd(t, b)
		k.Eval(1)
		if strict {
			k.Check((e1 == nil) == (e2 == nil), "disagree:"+name, "%s: fast decoder says %v, standard decoder says %v (% x)", what, e1, e2, b)
		}
		if e1 == nil && e2 == nil {
			k.Event("both_accept")
			if !strict { // unknown fields may be kept in their original or in the canonical spelling
				c32Strip(a.ProtoReflect())
				c32Strip(s.ProtoReflect())
			}
			k.Check(proto.Equal(a, s), "disagree:"+name, "%s: decoders give different messages\nfast %v\nstd  %v", what, a, s)
		} else {
			k.Event("rejected")
		}
	}
	// fields in another order, repeated, or split in two occurrences
	var fields [][]byte
	for b := vt; len(b) > 0; {
		_, _, n := protowire.ConsumeField(b)
		fields = append(fields, b[:n])
		b = b[n:]
	}
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	same("shuffled", bytes.Join(fields, nil), true)
	if len(fields) > 0 {
		same("duplicated", append(append([]byte{}, vt...), fields[r.Intn(len(fields))]...), true)
	}
	same("twice", append(append([]byte{}, vt...), vt...), true)
	other := c32New(t)
	c32Fill(r, other.ProtoReflect(), 50, 0, false)
	if ob, err := proto.Marshal(other); err == nil {
		same("merged", append(append([]byte{}, vt...), ob...), true)
	}
	// truncation
	cuts := len(vt)
	step := 1
	if cuts > 60 {
		step = cuts/60 + 1
	}
	for n := r.Intn(step); n < cuts; n += step {
		same("truncated", vt[:n], true)
	}
	// corruption: no panic, and agreement where both accept
	for n := 0; n < 12; n++ {
		same("corrupted", kit.MutateBytes(r, vt), false)
	}
	junk := make([]byte, r.Intn(40))
	r.Read(junk)
	same("junk", junk, false)
}

func c32Run(n int) func(c *kit.Ctx) {
	return func(c *kit.Ctx) {
		types := c32Types()
		c.Require("messages", len(types)*c.N(n, n)*9/10)
		c.Require("json_round_trips", 1000)
		c.Require("both_accept", 1000)
		c.Require("rejected", 1000)
		c.Require("types", 25)
		c.Events("types", len(types))
		for i := 0; i < c.N(n, n*60); i++ {
			for _, t := range types {
				t := t
				c.Case(fmt.Sprintf("%s/%d", t.Descriptor().Name(), i), func(k *kit.Case) { c32Round(k, t) })
			}
		}
	}
}

// c32Null: messages without content.
func c32Special(c *kit.Ctx) {
	for _, t := range c32Types() {
		t := t
		name := string(t.Descriptor().Name())
		c.Case("special/"+name, func(k *kit.Case) {
			nilMsg := t.Zero().Interface().(vtMessage)
			b, err := nilMsg.MarshalVT()
			k.Check(err == nil && len(b) == 0 && nilMsg.SizeVT() == 0, "nil:"+name, "nil message: % x %v", b, err)
			m := c32New(t)
			b, err = m.MarshalVT()
			k.Check(err == nil && len(b) == 0 && m.SizeVT() == 0, "empty:"+name, "empty message: % x %v", b, err)
			for _, in := range [][]byte{nil, {}} {
				e := c32New(t)
				k.Check(e.UnmarshalVT(in) == nil && proto.Equal(e, m), "empty:"+name, "empty input")
			}
			// every field alone, at its edges
			fs := t.Descriptor().Fields()
			for i := 0; i < fs.Len(); i++ {
				f := fs.Get(i)
				for n := 0; n < k.N(30, 400); n++ {
					x := c32New(t)
					r := k.R
					one := c32New(t)
					c32Fill(r, one.ProtoReflect(), 100, 0, false)
					if !one.ProtoReflect().Has(f) {
						continue
					}
					x.ProtoReflect().Set(f, one.ProtoReflect().Get(f))
					vt, err := x.MarshalVT()
					std, _ := proto.Marshal(x)
					k.Check(err == nil && x.SizeVT() == len(vt) && len(vt) == len(std), "field:"+name+"."+string(f.Name()), "sizes %d %d %d", x.SizeVT(), len(vt), len(std))
					for j, b := range [][]byte{vt, std} {
						g, e1 := decodeVT(t, b)
						s, e2 := decodeStd(t, b)
						k.Check(e1 == nil && e2 == nil && proto.Equal(g, x) && proto.Equal(s, x), "field:"+name+"."+string(f.Name()), "encoder %d: %v %v", j, e1, e2)
					}
					k.Event("single_fields")
				}
				k.Ctx.AddSig("field " + name + " " + string(f.Name()))
			}
			k.Sig("special %s", name)
		})
	}
	c.Require("single_fields", 3000)
}

// c32Concurrent encodes shared messages from many goroutines.
func c32Concurrent(c *kit.Ctx) {
	for i := 0; i < c.N(3, 30); i++ {
		for _, t := range c32Types() {
			t := t
			c.Case(fmt.Sprintf("conc/%s/%d", t.Descriptor().Name(), i), func(k *kit.Case) {
				m := c32New(t)
				c32Fill(k.R, m.ProtoReflect(), 80, 0, true)
				ref, _ := m.MarshalVT()
				js, _ := json.Marshal(m)
				var wg sync.WaitGroup
				for g := 0; g < 4; g++ {
					k.Go(&wg, func() {
						for n := 0; n < 5; n++ {
							b, err := m.MarshalVT()
							d0, err0 := decodeStd(t, b)
							k.Check(err == nil && err0 == nil && len(b) == len(ref) && proto.Equal(d0, m), "concurrent", "concurrent MarshalVT differs")
							d, err := decodeVT(t, ref)
							k.Check(err == nil && proto.Equal(d, m), "concurrent", "concurrent UnmarshalVT differs")
							e := c32New(t)
							k.Check(json.Unmarshal(js, e) == nil, "concurrent", "concurrent JSON differs")
							k.Event("concurrent_rounds")
						}
					})
				}
				wg.Wait()
				k.Sig("conc %s %d", t.Descriptor().Name(), i)
			})
		}
	}
	c.Require("concurrent_rounds", 500)
}

// ---- RPC stubs over an in-memory transport

type rpcBus struct {
	mu   sync.Mutex
	svcs map[string]map[string]func(ctx context.Context, raw []byte) ([]byte, error)
	full []string // methods announced to interceptors
}

func (b *rpcBus) RegisterService(d *grpc.ServiceDesc, impl any) {
	m := map[string]func(ctx context.Context, raw []byte) ([]byte, error){}
	for _, md := range d.Methods {
		md := md
		m[md.MethodName] = func(ctx context.Context, raw []byte) ([]byte, error) {
			var ic grpc.UnaryServerInterceptor
			if len(raw)%2 == 0 {
				ic = func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
					b.mu.Lock()
					b.full = append(b.full, info.FullMethod)
					b.mu.Unlock()
					return h(ctx, req)
				}
			}
			out, err := md.Handler(impl, ctx, func(v any) error { return proto.Unmarshal(raw, v.(proto.Message)) }, ic)
			if err != nil {
				return nil, err
			}
			return proto.Marshal(out.(proto.Message))
		}
	}
	b.svcs[d.ServiceName] = m
}

func (b *rpcBus) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	i := strings.LastIndex(method, "/")
	h := b.svcs[strings.TrimPrefix(method[:i], "/")][method[i+1:]]
	if h == nil {
		return fmt.Errorf("no handler for %s", method)
	}
	raw, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return err
	}
	out, err := h(ctx, raw)
	if err != nil {
		return err
	}
	return proto.Unmarshal(out, reply.(proto.Message))
}

func (b *rpcBus) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, errors.New("no streams")
}

type rpcCall struct {
	method string
	req    proto.Message
}

type rpcServer struct {
	calls []rpcCall
	reply proto.Message
	err   error
}

func rpcAnswer[T proto.Message](s *rpcServer, method string, in proto.Message) (T, error) {
	s.calls = append(s.calls, rpcCall{method, proto.Clone(in)})
	var zero T
	if s.err != nil {
		return zero, s.err
	}
	out, _ := s.reply.(T)
	return out, nil
}

type rpcAuthn struct {
	clientv1.UnimplementedClientAuthenticationServiceServer
	*rpcServer
}

func (s rpcAuthn) Authenticate(_ context.Context, in *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
	return rpcAnswer[*clientv1.AuthenticateResponse](s.rpcServer, "Authenticate", in)
}

type rpcReg struct {
	clientv1.UnimplementedClientRegistrationServiceServer
	*rpcServer
}

func (s rpcReg) Register(_ context.Context, in *clientv1.RegisterRequest) (*clientv1.RegisterResponse, error) {
	return rpcAnswer[*clientv1.RegisterResponse](s.rpcServer, "Register", in)
}

type rpcAuthz struct {
	flowv1.UnimplementedAuthorizationServiceServer
	*rpcServer
}

func (s rpcAuthz) Authorize(_ context.Context, in *flowv1.AuthorizeRequest) (*flowv1.AuthorizeResponse, error) {
	return rpcAnswer[*flowv1.AuthorizeResponse](s.rpcServer, "Authorize", in)
}
func (s rpcAuthz) Token(_ context.Context, in *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	return rpcAnswer[*flowv1.TokenResponse](s.rpcServer, "Token", in)
}

type rpcIntro struct {
	tokenv1.UnimplementedIntrospectionServiceServer
	*rpcServer
}

func (s rpcIntro) Introspect(_ context.Context, in *tokenv1.IntrospectRequest) (*tokenv1.IntrospectResponse, error) {
	return rpcAnswer[*tokenv1.IntrospectResponse](s.rpcServer, "Introspect", in)
}

type rpcRevoke struct {
	tokenv1.UnimplementedRevocatonServiceServer
	*rpcServer
}

func (s rpcRevoke) Revoke(_ context.Context, in *tokenv1.RevokeRequest) (*tokenv1.RevokeResponse, error) {
	return rpcAnswer[*tokenv1.RevokeResponse](s.rpcServer, "Revoke", in)
}

func rpcStub[I, O proto.Message](f func(context.Context, I, ...grpc.CallOption) (O, error)) func(context.Context, proto.Message) (proto.Message, error) {
	return func(ctx context.Context, in proto.Message) (proto.Message, error) {
		out, err := f(ctx, in.(I))
		if err != nil {
			return nil, err
		}
		return out, nil
	}
}

func c32RPC(c *kit.Ctx) {
	c.Require("rpc_calls", 200)
	for i := 0; i < c.N(100, 3000); i++ {
		c.Case(fmt.Sprintf("rpc/%d", i), func(k *kit.Case) {
			bus := &rpcBus{svcs: map[string]map[string]func(context.Context, []byte) ([]byte, error){}}
			srv := map[string]*rpcServer{}
			for _, n := range []string{"authn", "reg", "authz", "intro", "revoke"} {
				srv[n] = &rpcServer{}
			}
			clientv1.RegisterClientAuthenticationServiceServer(bus, rpcAuthn{rpcServer: srv["authn"]})
			clientv1.RegisterClientRegistrationServiceServer(bus, rpcReg{rpcServer: srv["reg"]})
			flowv1.RegisterAuthorizationServiceServer(bus, rpcAuthz{rpcServer: srv["authz"]})
			tokenv1.RegisterIntrospectionServiceServer(bus, rpcIntro{rpcServer: srv["intro"]})
			tokenv1.RegisterRevocatonServiceServer(bus, rpcRevoke{rpcServer: srv["revoke"]})
			az := flowv1.NewAuthorizationServiceClient(bus)
			for _, m := range []struct {
				srv, full, name string
				call            func(context.Context, proto.Message) (proto.Message, error)
				in, out         proto.Message
			}{
				{"authn", "/oidc.client.v1.ClientAuthenticationService/Authenticate", "Authenticate", rpcStub(clientv1.NewClientAuthenticationServiceClient(bus).Authenticate), &clientv1.AuthenticateRequest{}, &clientv1.AuthenticateResponse{}},
				{"reg", "/oidc.client.v1.ClientRegistrationService/Register", "Register", rpcStub(clientv1.NewClientRegistrationServiceClient(bus).Register), &clientv1.RegisterRequest{}, &clientv1.RegisterResponse{}},
				{"authz", "/oidc.flow.v1.AuthorizationService/Authorize", "Authorize", rpcStub(az.Authorize), &flowv1.AuthorizeRequest{}, &flowv1.AuthorizeResponse{}},
				{"authz", "/oidc.flow.v1.AuthorizationService/Token", "Token", rpcStub(az.Token), &flowv1.TokenRequest{}, &flowv1.TokenResponse{}},
				{"intro", "/oidc.token.v1.IntrospectionService/Introspect", "Introspect", rpcStub(tokenv1.NewIntrospectionServiceClient(bus).Introspect), &tokenv1.IntrospectRequest{}, &tokenv1.IntrospectResponse{}},
				{"revoke", "/oidc.token.v1.RevocatonService/Revoke", "Revoke", rpcStub(tokenv1.NewRevocatonServiceClient(bus).Revoke), &tokenv1.RevokeRequest{}, &tokenv1.RevokeResponse{}},
			} {
				c32Fill(k.R, m.in.ProtoReflect(), 50, 0, false)
				c32Fill(k.R, m.out.ProtoReflect(), 50, 0, false)
				s := srv[m.srv]
				s.calls, s.reply, s.err, bus.full = nil, m.out, nil, nil
				if k.R.Intn(5) == 0 {
					s.err = kit.ErrInjected
				}
				got, err := m.call(context.Background(), m.in)
				k.Event("rpc_calls")
				if s.err != nil {
					k.Check(errors.Is(err, kit.ErrInjected) && got == nil, "rpc-error:"+m.name, "handler error lost: %v %v", got, err)
				} else {
					k.Check(err == nil && proto.Equal(got, m.out), "rpc:"+m.name, "answer of %s: %v %v", m.full, got, err)
				}
				k.Check(len(s.calls) == 1 && s.calls[0].method == m.name && proto.Equal(s.calls[0].req, m.in), "rpc:"+m.name, "%s reached %d handlers", m.full, len(s.calls))
				for _, f := range bus.full {
					k.Check(f == m.full, "rpc:"+m.name, "%s announced as %s", m.full, f)
				}
				for n, o := range srv {
					if n != m.srv {
						k.Check(len(o.calls) == 0, "rpc:"+m.name, "%s also reached %s", m.full, n)
					}
					o.calls = nil
				}
			}
			k.Sig("rpc %d", i)
		})
	}
}

func init() {
	kit.Register(&kit.Check{
		ID: "C32", Level: "exploration",
		Rule:        "generated messages of every type (present fields, unknown fields, sizes) through every encoder and decoder, re-spelled, truncated and corrupted bytes; distinct by type, shape and size",
		Assumptions: []string{"both decoders must agree on valid, reordered, repeated, merged and truncated encodings; on corrupted bytes the fast decoder may be stricter (wire type of a known field) or laxer (UTF-8), then only acceptance by both obliges to equality"},
		Modes: []kit.Mode{
			{Name: "roundtrip", Run: c32Run(250)},
			{Name: "special", Run: c32Special},
			{Name: "rpc", Run: c32RPC},
			{Name: "race", Race: true, Run: c32Concurrent},
		},
	})
}
