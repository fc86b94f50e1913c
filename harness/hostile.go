package main

import (
	"math"
	"math/rand"
	"strings"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/anypb"
)

// Hostile input generation: messages of any type filled with extreme values,
// and byte level and structure aware mutations of encoded messages.

func hostileString(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0:
		return ""
	case 1:
		return K(r.Intn(8)).Addr
	case 2:
		return pick(r, "fee_collector", "bank", "authn", "rbac", "external_account", "unique", "distribution", "system:abci", "system:runtime")
	case 3:
		return strings.Repeat(pick(r, "a", "/", "\x00", "é"), 1+r.Intn(300))
	case 4:
		return strings.Repeat("k", 60000+r.Intn(20000))
	case 5:
		return pick(r, "-1", "0", "1", "18446744073709551616", "1e9", "0x10", "+5", " 1", "1.0", "-0", "00", "NaN", "١٢")
	case 6:
		return strings.Repeat("9", 1+r.Intn(200))
	case 7:
		return pick(r, "foo", "stake", "a", "ibc/abc", strings.Repeat("d", 129), "f o", "FOO", "fo\x00o", "/foo", "1foo")
	case 8:
		return pick(r, "!badger!x", "!badger!", "..", "../x", "%s%n", "\u202e", "\ufeff", "deny", "fail")
	case 9:
		return pick(r, "tmos.authn.v1alpha1.Account", "/tmos.x.bank.v1alpha1.MsgSendCoins", "tmos.x.bank.v1alpha1.Balance")
	}
	return randText(r, r.Intn(20))
}

func hostileBytes(r *rand.Rand) []byte {
	switch r.Intn(7) {
	case 0:
		return nil
	case 1:
		return K(r.Intn(8)).Pub
	case 2:
		return randBytes(r, 31+r.Intn(4))
	case 3:
		return randBytes(r, 63+r.Intn(3))
	case 4:
		return make([]byte, r.Intn(100))
	case 5:
		return randBytes(r, r.Intn(5000))
	}
	return randBytes(r, r.Intn(40))
}

func hostileUint(r *rand.Rand) uint64 {
	return []uint64{0, 1, 2, math.MaxUint64, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint32, math.MaxInt32, r.Uint64(), uint64(r.Intn(100))}[r.Intn(10)]
}

// messageTypes lists the names of all registered message types.
var messageTypes = func() (l []string) {
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		l = append(l, string(mt.Descriptor().FullName()))
		return true
	})
	sortStrings(l)
	return
}()

// newHostile makes up a message of any registered type.
func newHostile(r *rand.Rand, name string) proto.Message {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
	if err != nil {
		return &anypb.Any{}
	}
	m := mt.New()
	fillHostile(r, m, 0)
	return m.Interface()
}

func fillHostile(r *rand.Rand, m protoreflect.Message, depth int) {
	if a, ok := m.Interface().(*anypb.Any); ok {
		x := hostileAny(r, depth)
		a.TypeUrl, a.Value = x.TypeUrl, x.Value
		return
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if chance(r, .2) {
			continue
		}
		switch {
		case f.IsMap():
			if depth > 3 {
				continue
			}
			mp := m.Mutable(f).Map()
			for n := r.Intn(3); n > 0; n-- {
				v := mp.NewValue()
				if f.MapValue().Message() != nil {
					fillHostile(r, v.Message(), depth+1)
				} else {
					v = hostileScalar(r, f.MapValue())
				}
				mp.Set(hostileScalar(r, f.MapKey()).MapKey(), v)
			}
		case f.IsList():
			l := m.Mutable(f).List()
			n := r.Intn(4)
			if f.Message() == nil && chance(r, .05) {
				n = r.Intn(400)
			}
			for ; n > 0; n-- {
				if f.Message() != nil {
					if depth > 4 {
						break
					}
					e := l.NewElement()
					if chance(r, .85) {
						fillHostile(r, e.Message(), depth+1)
					}
					l.Append(e)
				} else {
					l.Append(hostileScalar(r, f))
				}
			}
		case f.Message() != nil:
			if depth > 4 {
				continue
			}
			fillHostile(r, m.Mutable(f).Message(), depth+1)
		default:
			m.Set(f, hostileScalar(r, f))
		}
	}
}

func hostileScalar(r *rand.Rand, f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(chance(r, .5))
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(strings.ToValidUTF8(hostileString(r), "?"))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(hostileBytes(r))
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(r.Intn(12) - 2))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(hostileUint(r)))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(hostileUint(r)))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(hostileUint(r)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(hostileUint(r))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(math.NaN()))
	default:
		return protoreflect.ValueOfFloat64(math.Inf(1))
	}
}

func hostileAny(r *rand.Rand, depth int) *anypb.Any {
	if chance(r, .15) {
		return &anypb.Any{}
	}
	name := messageTypes[r.Intn(len(messageTypes))]
	if chance(r, .3) {
		name = pick(r, "tmos.x.authn.crypto.v1alpha1.PubKey", "google.protobuf.Any", "tmos.x.bank.v1alpha1.MsgSendCoins")
	}
	a := &anypb.Any{TypeUrl: pick(r, "/", "/", "/", "", "type.googleapis.com/", "//") + name}
	switch r.Intn(4) {
	case 0:
		a.Value = randBytes(r, r.Intn(60))
	default:
		if depth < 3 {
			mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
			if err == nil {
				m := mt.New()
				fillHostile(r, m, depth+2)
				a.Value, _ = proto.MarshalOptions{AllowPartial: true}.Marshal(m.Interface())
			}
		}
	}
	if chance(r, .05) {
		a.TypeUrl = hostileString(r)
	}
	return a
}

// mutateWire changes an encoded message at one place, descending into nested
// messages, so that the result is mostly still well-formed wire format.
func mutateWire(r *rand.Rand, b []byte, depth int) []byte {
	type fld struct{ start, val, end int }
	var fs []fld
	for i := 0; i < len(b); {
		_, typ, n := protowire.ConsumeTag(b[i:])
		if n < 0 {
			return mutateBytes(r, b)
		}
		m := protowire.ConsumeFieldValue(1, typ, b[i+n:])
		if m < 0 {
			return mutateBytes(r, b)
		}
		fs = append(fs, fld{i, i + n, i + n + m})
		i += n + m
	}
	if len(fs) == 0 {
		return mutateBytes(r, b)
	}
	f := fs[r.Intn(len(fs))]
	num, typ, _ := protowire.ConsumeTag(b[f.start:])
	splice := func(x []byte) []byte {
		return append(append(append([]byte{}, b[:f.start]...), x...), b[f.end:]...)
	}
	field := b[f.start:f.end]
	if typ == protowire.BytesType && depth < 6 && chance(r, .7) {
		v, n := protowire.ConsumeBytes(b[f.val:])
		if n > 0 {
			return splice(protowire.AppendBytes(protowire.AppendTag(nil, num, typ), mutateWire(r, v, depth+1)))
		}
	}
	switch r.Intn(9) {
	case 0: // drop
		return splice(nil)
	case 1: // duplicate
		return splice(append(append([]byte{}, field...), field...))
	case 2: // many
		var x []byte
		for n := 1 + r.Intn(60); n > 0; n-- {
			x = append(x, field...)
		}
		return splice(x)
	case 3: // other number
		return splice(append(protowire.AppendTag(nil, protowire.Number(1+r.Intn(20)), typ), b[f.val:f.end]...))
	case 4: // unknown field, also critical in the SDK's sense or huge
		x := protowire.AppendVarint(protowire.AppendTag(append([]byte{}, field...), protowire.Number([]int32{15, 1047, 2047, 536870911}[r.Intn(4)]), protowire.VarintType), hostileUint(r))
		return splice(x)
	case 5: // other type
		return splice(protowire.AppendVarint(protowire.AppendTag(nil, num, protowire.VarintType), hostileUint(r)))
	case 6:
		return splice(protowire.AppendBytes(protowire.AppendTag(nil, num, protowire.BytesType), hostileBytes(r)))
	case 7: // swap with another
		g := fs[r.Intn(len(fs))]
		return splice(b[g.start:g.end])
	default: // a group
		x := protowire.AppendTag(nil, num, protowire.StartGroupType)
		x = append(x, field...)
		x = protowire.AppendTag(x, num, protowire.EndGroupType)
		return splice(x)
	}
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch r.Intn(6) {
	case 0:
		if len(b) > 0 {
			return b[:r.Intn(len(b))]
		}
	case 1:
		return append(b, randBytes(r, 1+r.Intn(20))...)
	case 2:
		for n := 1 + r.Intn(8); n > 0 && len(b) > 0; n-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 3:
		if len(b) > 0 {
			i := r.Intn(len(b))
			b[i] ^= 1 << uint(r.Intn(8))
		}
	case 4:
		i := 0
		if len(b) > 0 {
			i = r.Intn(len(b))
		}
		return append(append(append([]byte{}, b[:i]...), hostileBytes(r)...), b[i:]...)
	default:
		if len(b) > 2 {
			i := r.Intn(len(b))
			j := i + r.Intn(len(b)-i)
			return append(append([]byte{}, b[:i]...), b[j:]...)
		}
		return []byte{0xff, 0xff, 0xff, 0xff, 0x0f}
	}
	return b
}

// nestAny wraps a message n times into google.protobuf.Any.
func nestAny(m proto.Message, n int) *anypb.Any {
	a := toAny(m)
	for ; n > 0; n-- {
		a = toAny(a)
	}
	return a
}
