package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/schema"
	"github.com/fdymylja/tmos/pkg/protoutils/desc"
	"github.com/fdymylja/tmos/pkg/protoutils/forge"
	rtschema "github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	_ "google.golang.org/protobuf/types/known/structpb"
	_ "google.golang.org/protobuf/types/known/timestamppb"
)

// C27: schemas, list types and dependency sets.

var c27Kinds = []descriptorpb.FieldDescriptorProto_Type{
	descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	descriptorpb.FieldDescriptorProto_TYPE_FIXED32, descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_SFIXED32, descriptorpb.FieldDescriptorProto_TYPE_SFIXED64,
	descriptorpb.FieldDescriptorProto_TYPE_SINT32, descriptorpb.FieldDescriptorProto_TYPE_SINT64,
}

var c27Keyable = map[descriptorpb.FieldDescriptorProto_Type]bool{tString: true, tBytes: true, tBool: true, tInt32: true, tInt64: true, tUint32: true, tUint64: true}

var c27Good = []descriptorpb.FieldDescriptorProto_Type{tString, tBytes, tBool, tInt32, tInt64, tUint32, tUint64}

const (
	tEnum  = descriptorpb.FieldDescriptorProto_TYPE_ENUM
	tGroup = descriptorpb.FieldDescriptorProto_TYPE_GROUP
)

type c27field struct {
	name     string
	typ      descriptorpb.FieldDescriptorProto_Type
	repeated bool
	isMap    bool
	typeName string
	json     string
	oneof    bool
}

type c27msg struct {
	name   string
	fields []c27field
	nested []c27field // fields of the nested message In, if any
}

func lab(rep bool) *descriptorpb.FieldDescriptorProto_Label {
	l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
	if rep {
		l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
	}
	return &l
}

// c27Build turns the description into a descriptor, declaring map entries,
// groups and oneofs as protoc would.
func c27Build(m *descriptorpb.DescriptorProto, fs []c27field, prefix string) {
	for i, f := range fs {
		t := f.typ
		fp := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.name), Number: proto.Int32(int32(i*3 + 1)), Label: lab(f.repeated || f.isMap), Type: &t}
		if f.json != "" {
			fp.JsonName = proto.String(f.json)
		}
		if f.typeName != "" {
			fp.TypeName = proto.String(f.typeName)
		}
		if f.oneof {
			if len(m.OneofDecl) == 0 {
				m.OneofDecl = append(m.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String("choice")})
			}
			fp.OneofIndex = proto.Int32(0)
		}
		if f.isMap {
			camel := ""
			for _, p := range strings.Split(f.name, "_") {
				camel += strings.ToUpper(p[:1]) + p[1:]
			}
			en := camel + "Entry"
			mt := tMsg
			k, v := tString, f.typ
			vf := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: lab(false), Type: &v}
			if f.typeName != "" {
				vf.TypeName = proto.String(f.typeName)
			}
			m.NestedType = append(m.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)},
				Field: []*descriptorpb.FieldDescriptorProto{{Name: proto.String("key"), Number: proto.Int32(1), Label: lab(false), Type: &k}, vf}})
			fp.Type = &mt
			fp.TypeName = proto.String(prefix + "." + en)
		}
		m.Field = append(m.Field, fp)
	}
}

type c27schemaCase struct {
	md   protoreflect.MessageDescriptor
	def  *schema.Definition
	want bool
	why  string
	tags []string
}

// c27Gen draws a message type with a family of other messages it refers to,
// and a schema definition over it, together with the decision the
// specification requires.
func c27Gen(r *rand.Rand, i int) (*c27schemaCase, *descriptorpb.FileDescriptorProto) {
	pkg := fmt.Sprintf("zzc27.p%d", i)
	proto2 := chance(r, .3)
	file := &descriptorpb.FileDescriptorProto{Name: proto.String(fmt.Sprintf("zz/c27/%d.proto", i)), Package: proto.String(pkg), Dependency: []string{"google/protobuf/any.proto", "google/protobuf/struct.proto", "google/protobuf/timestamp.proto"},
		Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/p")}}
	if !proto2 {
		file.Syntax = proto.String("proto3")
	}
	file.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: proto.String("En"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("EN_ZERO"), Number: proto.Int32(0)}, {Name: proto.String("EN_ONE"), Number: proto.Int32(1)}}}}
	c := &c27schemaCase{want: true}
	bad := func(why string) {
		if c.want {
			c.want, c.why = false, why
		}
		c.tags = append(c.tags, why)
	}
	// the other messages: a random graph, possibly cyclic, each edge a field
	n := 1 + r.Intn(7)
	if chance(r, .05) {
		n = 30 + r.Intn(120)
	}
	names := make([]string, n)
	for j := range names {
		names[j] = fmt.Sprintf("M%d", j)
	}
	edges := make([][]int, n)
	hasMap := make([]bool, n)
	pMap := []float64{0, 0, .15, .4}[r.Intn(4)]
	if n > 20 {
		pMap /= 20
	}
	structRef := make([]bool, n) // refers to google.protobuf.Struct, which has a map
	for j := 0; j < n; j++ {
		md := &descriptorpb.DescriptorProto{Name: proto.String(names[j])}
		fs := []c27field{{name: "s", typ: tString}}
		if n > 20 && j+1 < n { // a long chain
			edges[j] = append(edges[j], j+1)
		}
		for e := r.Intn(3); e > 0; e-- {
			edges[j] = append(edges[j], r.Intn(n))
		}
		for x, to := range edges[j] {
			fs = append(fs, c27field{name: fmt.Sprintf("e%d", x), typ: tMsg, typeName: "." + pkg + "." + names[to], repeated: chance(r, .3), oneof: false})
		}
		if chance(r, pMap) {
			hasMap[j] = true
			f := c27field{name: "mm", isMap: true, typ: tString}
			if chance(r, .3) {
				f.typ, f.typeName = tMsg, "."+pkg+"."+names[r.Intn(n)]
			}
			fs = append(fs, f)
		}
		if chance(r, .03) {
			structRef[j] = true
			fs = append(fs, c27field{name: "st", typ: tMsg, typeName: ".google.protobuf.Struct"})
		}
		if chance(r, .1) {
			fs = append(fs, c27field{name: "ts", typ: tMsg, typeName: ".google.protobuf.Timestamp"})
		}
		r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
		for k := range fs { // oneof members must be consecutive and singular
			if k > 0 && !fs[k].repeated && !fs[k].isMap && chance(r, .15) && (k == 1 || !fs[k-1].oneof || true) {
				ok := true
				for q := 0; q < k; q++ {
					if fs[q].oneof && !fs[k-1].oneof {
						ok = false
					}
				}
				fs[k].oneof = ok
			}
		}
		c27Build(md, fs, "."+pkg+"."+names[j])
		// a group inside a nested message (proto2 only) may hide a map
		if proto2 && chance(r, .15) {
			g := &descriptorpb.DescriptorProto{Name: proto.String("Grp")}
			gf := []c27field{{name: "gs", typ: tString}}
			if chance(r, .5) {
				gf = append(gf, c27field{name: "gm", isMap: true, typ: tInt32})
				hasMap[j] = true
			}
			c27Build(g, gf, "."+pkg+"."+names[j]+".Grp")
			md.NestedType = append(md.NestedType, g)
			gt := tGroup
			md.Field = append(md.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String("grp"), Number: proto.Int32(900), Label: lab(false), Type: &gt, TypeName: proto.String("." + pkg + "." + names[j] + ".Grp")})
		}
		file.MessageType = append(file.MessageType, md)
	}
	reach := func(from []int) bool {
		seen := make([]bool, n)
		st := append([]int{}, from...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[x] {
				continue
			}
			seen[x] = true
			if hasMap[x] || structRef[x] {
				return true
			}
			st = append(st, edges[x]...)
		}
		return false
	}
	// the object itself
	var fs []c27field
	var refs []int
	fields := 1 + r.Intn(8)
	pBad := []float64{0, 0, 0, .1, .3}[r.Intn(5)]
	nm := []string{"id", "the_key", "a", "b", "long_field_name", "Upper", "x1", "n_2", "list", "value", "zz"}
	r.Shuffle(len(nm), func(a, b int) { nm[a], nm[b] = nm[b], nm[a] })
	badKind, directMap := false, false
	for f := 0; f < fields; f++ {
		x := c27field{name: nm[f], repeated: chance(r, .2)}
		switch {
		case chance(r, pBad):
			if proto2 && chance(r, .2) {
				x.typ = tGroup
			} else {
				x.typ = c27Kinds[r.Intn(len(c27Kinds))]
			}
			badKind = true
			c.tags = append(c.tags, "kind_"+x.typ.String())
		case chance(r, .15):
			x.typ = tMsg
			to := r.Intn(n)
			refs = append(refs, to)
			x.typeName = "." + pkg + "." + names[to]
		case chance(r, .06):
			x.typ, x.typeName = tMsg, ".google.protobuf.Any"
		case chance(r, .08):
			x.typ, x.typeName = tEnum, "."+pkg+".En"
		case chance(r, pMap/3):
			x.isMap, x.repeated, x.typ = true, false, c27Good[r.Intn(len(c27Good))]
			directMap = true
		default:
			x.typ = c27Good[r.Intn(len(c27Good))]
		}
		if chance(r, .1) && !x.isMap {
			x.json = "js" + strings.ToUpper(x.name[:1]) + x.name[1:]
		}
		fs = append(fs, x)
	}
	if chance(r, .3) && len(fs) > 1 && !fs[0].repeated && !fs[0].isMap && fs[0].typ != tGroup {
		fs[0].oneof = true
		if !fs[1].repeated && !fs[1].isMap && fs[1].typ != tGroup {
			fs[1].oneof = true
		}
	}
	obj := &descriptorpb.DescriptorProto{Name: proto.String("Obj")}
	var plain []c27field
	for _, f := range fs {
		if f.typ != tGroup {
			plain = append(plain, f)
		}
	}
	c27Build(obj, plain, "."+pkg+".Obj")
	for gi, f := range fs {
		if f.typ == tGroup {
			gn := fmt.Sprintf("Gg%d", gi)
			gt := tGroup
			obj.NestedType = append(obj.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(gn)})
			obj.Field = append(obj.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(strings.ToLower(gn)), Number: proto.Int32(int32(500 + gi)), Label: lab(f.repeated), Type: &gt, TypeName: proto.String("." + pkg + ".Obj." + gn)})
		}
	}
	file.MessageType = append(file.MessageType, obj)
	if badKind {
		bad("unsupported kind")
	}
	if directMap {
		bad("map field")
	} else if reach(refs) {
		bad("nested map")
	}
	// the definition
	c.def = &schema.Definition{}
	jsonName := func(f c27field) string {
		if f.json != "" {
			return f.json
		}
		var out []byte
		up := false
		for q := 0; q < len(f.name); q++ {
			ch := f.name[q]
			if ch == '_' {
				up = true
				continue
			}
			if up && ch >= 'a' && ch <= 'z' {
				ch -= 32
			}
			up = false
			out = append(out, ch)
		}
		return string(out)
	}
	keyOK := func(f c27field) bool { return c27Keyable[f.typ] && !f.isMap && !f.repeated }
	var keyable []c27field
	for _, f := range plain {
		if keyOK(f) {
			keyable = append(keyable, f)
		}
	}
	pickKey := func() (string, bool, string) {
		if chance(r, .08) { // by its name in the definition file, which is not its JSON name
			for _, f := range keyable {
				free := true
				for _, g := range plain {
					free = free && jsonName(g) != f.name
				}
				if free {
					return f.name, false, "proto name"
				}
			}
		}
		switch {
		case len(keyable) > 0 && chance(r, .9):
			return jsonName(keyable[r.Intn(len(keyable))]), true, ""
		case chance(r, .3):
			return pick(r, "missing", "idd", "i", "Obj", "choice", "mm"), false, "missing field"
		case len(plain) > 0:
			f := plain[r.Intn(len(plain))]
			return jsonName(f), keyOK(f), "bad key field"
		}
		return "missing", false, "missing field"
	}
	single := chance(r, .2)
	c.def.Singleton = single
	if !single || chance(r, .15) {
		if chance(r, .95) || single {
			k, ok, why := pickKey()
			c.def.PrimaryKey = k
			if !ok {
				bad("primary key: " + why)
			}
			if single {
				bad("singleton with primary key")
			}
		} else {
			bad("no primary key")
		}
	}
	if !single && chance(r, .6) || single && chance(r, .15) {
		seen := map[string]bool{}
		for q := 1 + r.Intn(4); q > 0; q-- {
			k, ok, why := pickKey()
			if !ok {
				// a repeated field of an encodable kind is left undecided
				skip := false
				for _, f := range plain {
					if why != "proto name" && jsonName(f) == k && f.repeated && c27Keyable[f.typ] {
						skip = true
					}
				}
				if skip {
					continue
				}
				bad("secondary key: " + why)
			}
			if seen[k] {
				if chance(r, .8) {
					continue
				}
				bad("duplicate secondary key")
			}
			seen[k] = true
			c.def.SecondaryKeys = append(c.def.SecondaryKeys, k)
		}
		if single && len(c.def.SecondaryKeys) > 0 {
			bad("singleton with secondary key")
		}
	}
	return c, file
}

func c27schema(c *Ctx) {
	c.Cases("schema", c.N(36000, 240000), func(k *Case) {
		r := k.R
		tc, file := c27Gen(r, k.Idx)
		fd, err := protodesc.NewFile(file, protoregistry.GlobalFiles)
		if err != nil {
			panic(fmt.Sprintf("harness: generated file invalid: %v", err))
		}
		tc.md = fd.Messages().ByName("Obj")
		o := newDyn(tc.md, objDef("g", fmt.Sprintf("Obj%d", k.Idx)))
		type res struct {
			s   *rtschema.Schema
			err error
		}
		ch := make(chan res, 1)
		before := proto.Clone(tc.def)
		if chance(r, .5) {
			s, err := rtschema.NewSchema(o, tc.def)
			ch <- res{s, err}
		} else {
			reg := rtschema.NewRegistry()
			err := reg.AddObject(o, tc.def)
			var s *rtschema.Schema
			if err == nil {
				var e2 error
				s, e2 = reg.Get(o)
				if e2 != nil {
					k.Fail("registry", "a schema just added is not found: %v", e2)
				}
				if s2, e3 := reg.GetByAPIDefinition(o.Def); e3 != nil || s2 != s {
					k.Fail("registry", "the schema is not found by its API definition: %v", e3)
				}
				if reg.AddObject(o, tc.def) == nil {
					k.Fail("registry", "the same object type is registered twice")
				}
			} else if len(reg.List()) != 0 || len(reg.ListAPIGroups()) != 0 {
				k.Fail("registry", "a refused schema is registered all the same")
			}
			ch <- res{s, err}
		}
		got := <-ch
		for _, t := range tc.tags {
			c.Count("reason_"+strings.ReplaceAll(t, " ", "_"), 1)
		}
		if !proto.Equal(before, tc.def) {
			k.Fail("definition", "building a schema changed the definition it was given")
		}
		if (got.err == nil) != tc.want {
			if tc.want {
				k.FailData("refused", protojson.Format(file), "a valid definition %v is refused: %v", tc.def, got.err)
			} else {
				k.FailData("accepted", protojson.Format(file), "an invalid definition %v is accepted (%s)", tc.def, tc.why)
			}
			return
		}
		if !tc.want {
			c.Count("refused", 1)
			c.Eval("r:" + tc.why)
			return
		}
		c.Count("accepted", 1)
		c.Eval(fmt.Sprintf("a:%v:%d", tc.def.Singleton, len(tc.def.SecondaryKeys)))
		s := got.s
		if s.Name() != meta.Name(o) || string(s.TypePrefix()) != meta.Name(o) {
			k.Fail("schema", "schema of %s is named %s", meta.Name(o), s.Name())
		}
		if s.HasIndexes() != (len(tc.def.SecondaryKeys) > 0) || len(s.Indexes()) != len(tc.def.SecondaryKeys) {
			k.Fail("schema", "schema with secondary keys %v has %d indexes", tc.def.SecondaryKeys, len(s.Indexes()))
			return
		}
		for i, sk := range tc.def.SecondaryKeys {
			x, err := s.Indexer(sk)
			if err != nil || x != s.Indexes()[i] || x.Name() != sk {
				k.Fail("schema", "secondary key %s has no index of its own: %v", sk, err)
			}
		}
		if _, err := s.Indexer("nosuch"); err == nil {
			k.Fail("schema", "an index exists for a field that is not indexed")
		}
		for i := 0; i < tc.md.Fields().Len(); i++ {
			f := tc.md.Fields().Get(i)
			in := false
			for _, sk := range tc.def.SecondaryKeys {
				in = in || sk == f.JSONName()
			}
			if _, err := s.Indexer(f.JSONName()); (err == nil) != in {
				k.Fail("schema", "index on %s: exists=%v, declared=%v", f.JSONName(), err == nil, in)
			}
		}
		// the keys follow the fields they name: objects that differ only in the
		// key have different keys, objects that differ elsewhere the same
		a, b := o.copy(), o.copy()
		c27fill(r, a.Message, 2)
		proto.Merge(b.Message, a.Message)
		vary := func(f protoreflect.FieldDescriptor) bool { return c27vary(r, b.Message, f) }
		for _, name := range append([]string{tc.def.PrimaryKey}, tc.def.SecondaryKeys...) {
			if name == "" {
				continue
			}
			f := tc.md.Fields().ByJSONName(name)
			key := func(x *Dyn) string {
				if name == tc.def.PrimaryKey {
					return string(s.EncodePrimaryKey(x))
				}
				ix, _ := s.Indexer(name)
				return string(ix.MustEncodeFromObject(x))
			}
			proto.Reset(b.Message)
			proto.Merge(b.Message, a.Message)
			if f.ContainingOneof() == nil {
				for i := 0; i < tc.md.Fields().Len(); i++ {
					if g := tc.md.Fields().Get(i); g != f {
						vary(g)
					}
				}
				if key(a) != key(b) {
					k.Fail("key", "the key over %s depends on another field", name)
				}
			}
			if vary(f) && key(a) == key(b) {
				k.Fail("key", "the key over %s does not depend on it", name)
			}
			c.Count("keys_followed", 1)
		}
	})
	c.Expect("accepted", int64(c.N(1500, 30000)))
	c.Expect("refused", int64(c.N(1500, 30000)))
	for _, t := range []string{"nested_map", "map_field", "unsupported_kind", "duplicate_secondary_key", "singleton_with_primary_key", "singleton_with_secondary_key", "no_primary_key", "primary_key:_missing_field", "primary_key:_bad_key_field", "secondary_key:_missing_field", "secondary_key:_bad_key_field"} {
		c.Expect("reason_"+t, 15)
	}
	for _, t := range c27Kinds {
		c.Expect("reason_kind_"+t.String(), 15)
	}
	c.Expect("reason_kind_TYPE_GROUP", 10)
}

// c27vary gives a singular scalar field another value.
func c27vary(r *rand.Rand, m *dynamicpb.Message, f protoreflect.FieldDescriptor) bool {
	if f.IsList() || f.IsMap() || f.Message() != nil || f.Enum() != nil {
		return false
	}
	for i := 0; i < 50; i++ {
		v := c27scalar(r, f)
		if !v.Equal2(m.Get(f)) {
			m.Set(f, v.Value)
			return true
		}
	}
	return false
}

type c27val struct{ protoreflect.Value }

func (v c27val) Equal2(o protoreflect.Value) bool {
	if b, ok := v.Interface().([]byte); ok {
		return string(b) == string(o.Bytes())
	}
	return v.Interface() == o.Interface()
}

func c27scalar(r *rand.Rand, f protoreflect.FieldDescriptor) c27val {
	switch f.Kind() {
	case protoreflect.EnumKind:
		return c27val{protoreflect.ValueOfEnum(protoreflect.EnumNumber(r.Intn(2)))}
	case protoreflect.FloatKind:
		return c27val{protoreflect.ValueOfFloat32(r.Float32())}
	case protoreflect.DoubleKind:
		return c27val{protoreflect.ValueOfFloat64(r.NormFloat64())}
	case protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return c27val{protoreflect.ValueOfInt32(int32(r.Uint32()))}
	case protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return c27val{protoreflect.ValueOfInt64(int64(r.Uint64()))}
	case protoreflect.Fixed32Kind:
		return c27val{protoreflect.ValueOfUint32(r.Uint32())}
	case protoreflect.Fixed64Kind:
		return c27val{protoreflect.ValueOfUint64(r.Uint64())}
	}
	vs := valuesOf(r, f.Kind(), false)
	return c27val{protoreflect.ValueOf(vs[r.Intn(len(vs))])}
}

// c27fill sets random fields of a message to random contents.
func c27fill(r *rand.Rand, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	if m.Descriptor().FullName() == "google.protobuf.Any" {
		return
	}
	if m.Descriptor().FullName() == "google.protobuf.Timestamp" {
		m.Set(fs.ByName("seconds"), protoreflect.ValueOfInt64(r.Int63n(1<<33)))
		return
	}
	if strings.HasPrefix(string(m.Descriptor().FullName()), "google.protobuf.") {
		return
	}
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if chance(r, .3) {
			continue
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			for j := r.Intn(3); j > 0; j-- {
				key := c27scalar(r, f.MapKey()).Value.MapKey()
				if f.MapValue().Message() != nil {
					v := mp.NewValue()
					if depth > 0 {
						c27fill(r, v.Message(), depth-1)
					}
					mp.Set(key, v)
				} else {
					mp.Set(key, c27scalar(r, f.MapValue()).Value)
				}
			}
		case f.IsList():
			l := m.Mutable(f).List()
			for j := r.Intn(4); j > 0; j-- {
				if f.Message() != nil {
					v := l.NewElement()
					if depth > 0 {
						c27fill(r, v.Message(), depth-1)
					}
					l.Append(v)
				} else {
					l.Append(c27scalar(r, f).Value)
				}
			}
		case f.Message() != nil:
			if depth > 0 {
				c27fill(r, m.Mutable(f).Message(), depth-1)
			}
		default:
			m.Set(f, c27scalar(r, f).Value)
		}
	}
}

// c27list: list types of generated and of the repository's own message types.
func c27list(c *Ctx) {
	counts := func() [3]int {
		return [3]int{protoregistry.GlobalFiles.NumFiles(), protoregistry.GlobalTypes.NumMessages(), protoregistry.GlobalTypes.NumEnums()}
	}
	var real []protoreflect.MessageType
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		p := string(mt.Descriptor().FullName())
		if (strings.HasPrefix(p, "tmos.") || strings.HasPrefix(mt.Descriptor().ParentFile().Path(), "core/") || strings.HasPrefix(mt.Descriptor().ParentFile().Path(), "x/")) && !mt.Descriptor().IsMapEntry() {
			real = append(real, mt)
		}
		return true
	})
	c.Count("repository_message_types", int64(len(real)))
	sortTypes(real)
	c.CasesW("list", c.N(1400, 12000), 1, func(k *Case) {
		r := k.R
		var mk func() proto.Message
		var resolver protodesc.Resolver = protoregistry.GlobalFiles
		if k.Idx < len(real) {
			mt := real[k.Idx]
			mk = func() proto.Message { return mt.New().Interface() }
			c.Count("repository_types", 1)
		} else {
			_, file := c27Gen(r, k.Idx)
			if chance(r, .15) {
				file.Options = nil
				c.Count("without_go_package", 1)
			}
			if chance(r, .15) {
				c27unpackage(file)
				c.Count("without_package", 1)
			}
			fd, err := protodesc.NewFile(file, protoregistry.GlobalFiles)
			if err != nil {
				panic(err)
			}
			files := new(protoregistry.Files)
			for _, d := range c27closure(fd) {
				if err := files.RegisterFile(d); err != nil {
					panic(err)
				}
			}
			resolver = files
			md := fd.Messages().Get(r.Intn(fd.Messages().Len()))
			mk = func() proto.Message { return dynamicpb.NewMessage(md) }
			c.Count("generated_types", 1)
		}
		before := counts()
		sample := mk()
		name := string(sample.ProtoReflect().Descriptor().FullName())
		lt, err := forge.List(sample, resolver)
		if err != nil {
			k.Fail("list", "no list type for %s: %v", name, err)
			return
		}
		lf := lt.Descriptor().Fields()
		if lf.Len() != 1 || !lf.Get(0).IsList() || lf.Get(0).Message() == nil || lf.Get(0).Message().FullName() != sample.ProtoReflect().Descriptor().FullName() {
			k.Fail("list", "the list type of %s is not a list of it", name)
			return
		}
		f := lf.Get(0)
		list := lt.New()
		lv := list.NewField(f).List()
		var want []proto.Message
		for n := []int{0, 1, 1, 2, 3, 5, 40}[r.Intn(7)]; n > 0; n-- {
			m := mk()
			c27fill(r, m.ProtoReflect(), 2)
			want = append(want, m)
			lv.Append(protoreflect.ValueOfMessage(m.ProtoReflect()))
		}
		list.Set(f, protoreflect.ValueOfList(lv))
		check := func(how string, got proto.Message) {
			gl := got.ProtoReflect().Get(f).List()
			if gl.Len() != len(want) {
				k.Fail("roundtrip", "%s: %d of %d %s come back from %s", name, gl.Len(), len(want), name, how)
				return
			}
			for i := range want {
				// compare by content, whatever the Go type of the elements
				m := mk()
				b, err := proto.Marshal(gl.Get(i).Message().Interface())
				if err == nil {
					err = proto.UnmarshalOptions{AllowPartial: true}.Unmarshal(b, m)
				}
				if err != nil || !proto.Equal(m, want[i]) {
					k.Fail("roundtrip", "%s: element %d comes back from %s as %v, was %v (%v)", name, i, how, m, want[i], err)
					return
				}
			}
		}
		b, err := proto.Marshal(list.Interface())
		if err != nil {
			k.Fail("roundtrip", "%s: list does not marshal: %v", name, err)
			return
		}
		back := lt.New().Interface()
		if err := proto.Unmarshal(b, back); err != nil {
			k.Fail("roundtrip", "%s: list does not unmarshal: %v", name, err)
			return
		}
		check("binary", back)
		// JSON drops what JSON cannot tell (nothing in these contents)
		jb, err := protojson.Marshal(list.Interface())
		if err != nil {
			k.Fail("roundtrip", "%s: list does not marshal to JSON: %v", name, err)
			return
		}
		jback := lt.New().Interface()
		if err := protojson.Unmarshal(jb, jback); err != nil {
			k.Fail("roundtrip", "%s: list does not come back from JSON: %v", name, err)
			return
		}
		check("JSON", jback)
		if after := counts(); after != before {
			k.Fail("registry", "forging the list of %s changed the global registry: %v -> %v", name, before, after)
		}
		c.Count("round_trips", int64(2*len(want)))
		c.Eval(fmt.Sprintf("l:%s:%d", name, len(want)))
	})
	c.Expect("generated_types", 300)
	c.Expect("repository_types", 30)
	c.Expect("round_trips", 2000)
	c.Expect("without_go_package", 20)
	c.Expect("without_package", 20)
}

// c27unpackage moves the file to the unnamed package.
func c27unpackage(file *descriptorpb.FileDescriptorProto) {
	old := "." + file.GetPackage() + "."
	file.Package = nil
	var fix func(m *descriptorpb.DescriptorProto)
	fix = func(m *descriptorpb.DescriptorProto) {
		for _, f := range m.Field {
			if strings.HasPrefix(f.GetTypeName(), old) {
				f.TypeName = proto.String("." + strings.TrimPrefix(f.GetTypeName(), old))
			}
		}
		for _, n := range m.NestedType {
			fix(n)
		}
	}
	for _, m := range file.MessageType {
		fix(m)
	}
}

func sortTypes(ts []protoreflect.MessageType) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].Descriptor().FullName() < ts[j-1].Descriptor().FullName(); j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

// c27closure is the harness's own transitive closure in registration order.
func c27closure(fd protoreflect.FileDescriptor) []protoreflect.FileDescriptor {
	var out []protoreflect.FileDescriptor
	seen := map[string]bool{}
	var walk func(f protoreflect.FileDescriptor)
	walk = func(f protoreflect.FileDescriptor) {
		if seen[f.Path()] {
			return
		}
		seen[f.Path()] = true
		for i := 0; i < f.Imports().Len(); i++ {
			walk(f.Imports().Get(i))
		}
		out = append(out, f)
	}
	walk(fd)
	return out
}

func c27deps(c *Ctx) {
	var real []protoreflect.FileDescriptor
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		ok := true
		for _, d := range c27closure(f) {
			if d.IsPlaceholder() {
				ok = false
			}
		}
		if ok {
			real = append(real, f)
		}
		return true
	})
	for i := 1; i < len(real); i++ {
		for j := i; j > 0 && real[j].Path() < real[j-1].Path(); j-- {
			real[j], real[j-1] = real[j-1], real[j]
		}
	}
	c.Cases("deps", c.N(9000, 60000), func(k *Case) {
		r := k.R
		var f protoreflect.FileDescriptor
		if k.Idx < len(real) {
			f = real[k.Idx]
			c.Count("repository_files", 1)
		} else {
			// a random import graph; every file uses a type of each import
			n := 2 + r.Intn(12)
			if chance(r, .05) {
				n = 40 + r.Intn(60)
			}
			files := new(protoregistry.Files)
			holds := make([]int, n) // message, enumeration, service, nothing
			p := []float64{.1, .3, .6, .95}[r.Intn(4)]
			if n > 20 {
				p = .15
			}
			for i := 0; i < n; i++ {
				fdp := &descriptorpb.FileDescriptorProto{Name: proto.String(fmt.Sprintf("f%d.proto", i)), Package: proto.String(fmt.Sprintf("f%d", i)), Syntax: proto.String("proto3")}
				md := &descriptorpb.DescriptorProto{Name: proto.String("M")}
				var imps []int
				for j := 0; j < i; j++ {
					if chance(r, p) || (n > 20 && j == i-1) || (i == n-1 && chance(r, .5)) {
						imps = append(imps, j)
					}
				}
				r.Shuffle(len(imps), func(a, b int) { imps[a], imps[b] = imps[b], imps[a] })
				for x, j := range imps {
					fdp.Dependency = append(fdp.Dependency, fmt.Sprintf("f%d.proto", j))
					if chance(r, .2) {
						fdp.PublicDependency = append(fdp.PublicDependency, int32(x))
					}
					t, tn := tMsg, "M"
					if holds[j] == 1 {
						t, tn = descriptorpb.FieldDescriptorProto_TYPE_ENUM, "E"
					} else if holds[j] > 1 {
						continue // imported for nothing, or for what it imports publicly
					}
					md.Field = append(md.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("x%d", j)), Number: proto.Int32(int32(x + 1)), Label: lab(false), Type: &t, TypeName: proto.String(fmt.Sprintf(".f%d.%s", j, tn))})
				}
				if i < n-1 && chance(r, .3) {
					holds[i] = 1 + r.Intn(3)
				}
				switch holds[i] {
				case 0:
					fdp.MessageType = []*descriptorpb.DescriptorProto{md}
				case 1:
					fdp.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String(fmt.Sprintf("E%d_ZERO", i)), Number: proto.Int32(0)}}}}
				case 2:
					fdp.Service = []*descriptorpb.ServiceDescriptorProto{{Name: proto.String("S")}}
				}
				if holds[i] != 0 {
					c.Count("files_without_messages", 1)
				}
				fd, err := protodesc.NewFile(fdp, files)
				if err != nil {
					panic(fmt.Sprintf("harness: %v", err))
				}
				if err := files.RegisterFile(fd); err != nil {
					panic(err)
				}
				f = fd
			}
			c.Count("generated_graphs", 1)
		}
		want := map[string]bool{}
		edges := 0
		cl := c27closure(f)
		for _, d := range cl[:len(cl)-1] {
			want[d.Path()] = true
			edges += d.Imports().Len()
		}
		got := desc.Dependencies(f)
		seen := map[string]int{}
		var paths []string
		for i, d := range got {
			if _, dup := seen[d.Path()]; dup {
				k.Fail("deps", "%s is listed twice among the dependencies of %s", d.Path(), f.Path())
				return
			}
			seen[d.Path()] = i
			paths = append(paths, d.Path())
			if !want[d.Path()] {
				k.Fail("deps", "%s is no transitive import of %s", d.Path(), f.Path())
				return
			}
			for j := 0; j < d.Imports().Len(); j++ {
				if _, ok := seen[d.Imports().Get(j).Path()]; !ok {
					k.Fail("deps", "%s comes before its import %s: %v", d.Path(), d.Imports().Get(j).Path(), paths)
					return
				}
			}
		}
		if len(got) != len(want) {
			k.Fail("deps", "%d dependencies of %s listed, it has %d", len(got), f.Path(), len(want))
			return
		}
		// registering, and rebuilding from scratch, in that order succeeds
		a, b := new(protoregistry.Files), new(protoregistry.Files)
		for _, d := range append(append([]protoreflect.FileDescriptor{}, got...), f) {
			if err := a.RegisterFile(d); err != nil {
				k.Fail("register", "registering in the listed order fails: %v", err)
				return
			}
			nd, err := protodesc.NewFile(protodesc.ToFileDescriptorProto(d), b)
			if err != nil {
				if k.Idx < len(real) {
					c.Count("repository_files_not_rebuildable", 1)
					return // files the protobuf library itself refuses to rebuild
				}
				k.Fail("register", "building in the listed order fails: %v", err)
				return
			}
			if err := b.RegisterFile(nd); err != nil {
				k.Fail("register", "registering in the listed order fails: %v", err)
				return
			}
		}
		c.Count("dependencies_listed", int64(len(got)))
		c.Eval(fmt.Sprintf("d:%d:%d", len(got), edges))
	})
	c.Expect("generated_graphs", 800)
	c.Expect("files_without_messages", 800)
	c.Expect("repository_files", 20)
	c.Expect("dependencies_listed", 4000)
}

func checkC27(c *Ctx) {
	c.Rule("schemas: decision against a specification computed from the generated description of the type (never from its descriptor), then keys observed to follow exactly the fields they name; lists: binary and JSON round trip with the global registry counted before and after; dependencies: against the harness's own closure and by registering and rebuilding in the listed order")
	c.Assume("fields are named by their JSON names", "kinds are those of the object's own fields; maps are looked for at any depth", "a repeated secondary key of an encodable kind is left undecided")
	c27schema(c)
	c27deps(c)
	c27list(c)
}
