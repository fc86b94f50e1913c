package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	coremodule "github.com/fdymylja/tmos/core/module"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"gopkg.in/yaml.v3"
)

func c31(c *Ctx) {
	c.Rule("one answer of the HTTP API validated against the schema which the served specification declares for its path, distinct by path and value; one specification, by its paths")
	c.Assume("64 bit integers and enum values may be JSON strings where the specification says integer, the standard JSON form of protocol buffers",
		"fields of type google.protobuf.Any are not looked into; map, float and fixed-width fields are not supported by the store")
	c.Cases("recursive", c.N(8, 40), c31recursive)
	if len(c.violations) > 0 {
		return // the others would end this process
	}
	c.Cases("spec", c.N(1500, 8000), c31case)
	c.Cases("modules", c.N(6, 60), c31modules)
	c.Expect("answers", 1000)
	c.Expect("references", 2000)
	c.Expect("nested_values", 500)
	c.Expect("operations", 500)
	c.Expect("recursive_families", 8)
	c.Expect("module_objects", 20)
}

// specDoc is what is read of a specification.
type specDoc struct {
	Openapi string
	Paths   map[string]map[string]*struct {
		OperationId string `yaml:"operationId"`
		Responses   map[string]struct {
			Content map[string]struct{ Schema *specSchema }
		}
		Parameters []struct {
			Name, In string
			Required bool
		}
	}
	Components struct{ Schemas map[string]*specSchema }
}

type specSchema struct {
	Ref        string `yaml:"$ref"`
	Type       string
	Format     string
	Items      *specSchema
	Properties map[string]*specSchema
}

func (d *specDoc) resolve(s *specSchema) (*specSchema, string) {
	const p = "#/components/schemas/"
	if s == nil || s.Ref == "" {
		return s, ""
	}
	if !strings.HasPrefix(s.Ref, p) || d.Components.Schemas[s.Ref[len(p):]] == nil {
		return nil, s.Ref
	}
	return d.Components.Schemas[s.Ref[len(p):]], ""
}

// refs calls f with every reference of the document.
func (d *specDoc) refs(f func(where, ref string)) {
	var walk func(where string, s *specSchema)
	walk = func(where string, s *specSchema) {
		if s == nil {
			return
		}
		if s.Ref != "" {
			f(where, s.Ref)
		}
		walk(where+"[]", s.Items)
		for n, x := range s.Properties {
			walk(where+"."+n, x)
		}
	}
	for n, s := range d.Components.Schemas {
		walk(n, s)
	}
	for p, ms := range d.Paths {
		for _, op := range ms {
			if op == nil {
				continue
			}
			for _, x := range op.Responses {
				for _, y := range x.Content {
					walk(p, y.Schema)
				}
			}
		}
	}
}

// check compares a JSON value with its schema.
func (d *specDoc) check(k *Case, where string, v interface{}, s *specSchema, md protoreflect.MessageDescriptor, fd protoreflect.FieldDescriptor, elem bool) string {
	s, bad := d.resolve(s)
	if bad != "" {
		return fmt.Sprintf("%s: schema %s is not defined", where, bad)
	}
	if s == nil {
		return where + " has no schema"
	}
	if fd != nil && fd.IsList() && !elem {
		l, ok := v.([]interface{})
		if !ok || s.Type != "array" || s.Items == nil {
			return fmt.Sprintf("%s is a list, its schema says %q", where, s.Type)
		}
		for i, x := range l {
			if why := d.check(k, fmt.Sprintf("%s[%d]", where, i), x, s.Items, md, fd, true); why != "" {
				return why
			}
		}
		return ""
	}
	if fd != nil && fd.Message() == nil {
		want := "integer"
		switch fd.Kind() {
		case protoreflect.StringKind, protoreflect.BytesKind:
			want = "string"
		case protoreflect.BoolKind:
			want = "boolean"
		}
		if s.Type != want && !(fd.Kind() == protoreflect.EnumKind && s.Type == "string") && !(strings.HasSuffix(fd.Kind().String(), "64") && s.Type == "string") {
			return fmt.Sprintf("%s is a %s, its schema says %q", where, fd.Kind(), s.Type)
		}
		return ""
	}
	m := md
	if fd != nil {
		m = fd.Message()
	}
	switch m.FullName() {
	case "google.protobuf.Timestamp":
		if s.Type != "" && s.Type != "string" || len(s.Properties) > 0 {
			return fmt.Sprintf("%s is a time in text, its schema says %q with fields %v", where, s.Type, propNames(s))
		}
		return ""
	case "google.protobuf.Any":
		return ""
	}
	o, ok := v.(map[string]interface{})
	if !ok || s.Type != "" && s.Type != "object" {
		return fmt.Sprintf("%s is %T, its schema says %q", where, v, s.Type)
	}
	if fd != nil {
		k.Count("nested_values", 1)
	}
	for n, x := range o {
		if strings.HasPrefix(n, "[") {
			continue // an extension
		}
		f := m.Fields().ByJSONName(n)
		if f == nil {
			return fmt.Sprintf("%s.%s is not a field of %s", where, n, m.FullName())
		}
		if s.Properties[n] == nil {
			return fmt.Sprintf("%s.%s is not declared, declared are %v", where, n, propNames(s))
		}
		if why := d.check(k, where+"."+n, x, s.Properties[n], nil, f, false); why != "" {
			return why
		}
	}
	for n := range s.Properties {
		if m.Fields().ByJSONName(n) == nil {
			return fmt.Sprintf("%s declares %q which %s has not", where, n, m.FullName())
		}
	}
	return ""
}

func propNames(s *specSchema) (l []string) {
	for n := range s.Properties {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

// richTypes makes up globally registered object types with nested, shared and
// recursive messages, enums, times and lists, several to a file.
func richTypes(r *rand.Rand, recursive float64) []*ormType {
	fam := fmt.Sprintf("zzspec%d", atomic.AddInt64(&familySeq, 1))
	sp := proto.String
	shared := &descriptorpb.FileDescriptorProto{Name: sp("zz/" + fam + "/shared.proto"), Package: sp("zz." + fam + ".shared"), Syntax: sp("proto3"),
		Options: &descriptorpb.FileOptions{GoPackage: sp("example.com/" + fam + "/shared")}, Dependency: []string{"google/protobuf/timestamp.proto"}}
	field := func(m *descriptorpb.DescriptorProto, name string, ty descriptorpb.FieldDescriptorProto_Type, typeName string, rep bool) {
		l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
		if rep {
			l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
		}
		f := &descriptorpb.FieldDescriptorProto{Name: sp(name), Number: proto.Int32(int32(len(m.Field) + 1)), Label: &l, Type: &ty}
		if typeName != "" {
			f.TypeName = sp(typeName)
		}
		m.Field = append(m.Field, f)
	}
	names := func() string {
		return pick(r, "a", "name", "some_field", "Upper", "x1", "json_name_of_it", "value", "list", "items", "type", "properties") + fmt.Sprint(r.Intn(100))
	}
	scalars := func(m *descriptorpb.DescriptorProto) {
		for n := r.Intn(5); n > 0; n-- {
			nm := names()
			dup := false
			for _, f := range m.Field {
				dup = dup || *f.Name == nm
			}
			if !dup {
				field(m, nm, scalarTypes[r.Intn(len(scalarTypes))], "", chance(r, .3))
			}
		}
	}
	tEnum := descriptorpb.FieldDescriptorProto_TYPE_ENUM
	shared.EnumType = []*descriptorpb.EnumDescriptorProto{{Name: sp("Color"), Value: []*descriptorpb.EnumValueDescriptorProto{{Name: sp("RED"), Number: proto.Int32(0)}, {Name: sp("BLUE"), Number: proto.Int32(3)}}}}
	pkg := ".zz." + fam
	// shared messages, each possibly referring to earlier ones and itself
	var pool []string
	for i := 0; i < 1+r.Intn(4); i++ {
		m := &descriptorpb.DescriptorProto{Name: sp(pick(r, "S", "Shared", "Msg") + fmt.Sprint(i))}
		scalars(m)
		full := pkg + ".shared." + *m.Name
		for j, p := range pool {
			if chance(r, .5) {
				field(m, fmt.Sprintf("ref%d", j), tMsg, p, chance(r, .4))
			}
		}
		if chance(r, recursive) {
			field(m, "self", tMsg, full, chance(r, .5))
		}
		if chance(r, .3) {
			field(m, "when", tMsg, ".google.protobuf.Timestamp", chance(r, .3))
		}
		if chance(r, .3) {
			field(m, "color", tEnum, pkg+".shared.Color", chance(r, .3))
		}
		if chance(r, .35) {
			in := &descriptorpb.DescriptorProto{Name: sp(pick(r, "Inner", "S0"))}
			scalars(in)
			field(in, "deep", tString, "", false)
			m.NestedType = append(m.NestedType, in)
			field(m, "inner", tMsg, full+"."+*in.Name, chance(r, .4))
		}
		shared.MessageType = append(shared.MessageType, m)
		pool = append(pool, full)
	}
	if chance(r, recursive) { // a cycle
		field(shared.MessageType[0], "cycle", tMsg, pool[len(pool)-1], chance(r, .5))
	}
	register := func(f *descriptorpb.FileDescriptorProto) protoreflect.FileDescriptor {
		fd, err := protodesc.NewFile(f, protoregistry.GlobalFiles)
		if err == nil {
			err = protoregistry.GlobalFiles.RegisterFile(fd)
		}
		if err != nil {
			panic(fmt.Sprintf("harness: bad generated file: %v", err))
		}
		return fd
	}
	register(shared)
	var ts []*ormType
	kinds := []string{"Alpha", "Beta", "Gamma", "Delta", "Thing", "Blob", "Kind"}
	kinds = append(kinds[:3], kinds[:3]...) // the same kind in several groups
	kinds = append(kinds, "Delta", "Thing", "Blob", "Kind")
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	used := map[string]bool{}
	for f := 0; f < 1+r.Intn(3); f++ {
		file := &descriptorpb.FileDescriptorProto{Name: sp(fmt.Sprintf("zz/%s/f%d.proto", fam, f)), Package: sp(fmt.Sprintf("zz.%s.f%d", fam, f)), Syntax: sp("proto3"),
			Options: &descriptorpb.FileOptions{GoPackage: sp(fmt.Sprintf("example.com/%s/f%d", fam, f))}, Dependency: []string{*shared.Name, "google/protobuf/any.proto", "google/protobuf/timestamp.proto"}}
		var objs []*ormType
		here := map[string]bool{}
		for n := 1 + r.Intn(3); n > 0 && len(kinds) > 0; n-- {
			kd := kinds[0]
			kinds = kinds[1:]
			if here[kd] {
				continue
			}
			here[kd] = true
			g := "zz." + fam
			if used[kd] {
				g += ".more"
			}
			used[kd] = true
			m := &descriptorpb.DescriptorProto{Name: sp(pick(r, kd, "Obj"+kd))}
			full := *file.Package + "." + *m.Name
			t := &ormType{def: objDef(g, kd), sdef: &schema.Definition{}, model: map[string]*Dyn{}}
			t.sdef.Singleton = chance(r, .2)
			if !t.sdef.Singleton {
				field(m, "id", tString, "", false)
				field(m, "idx", tString, "", false)
				t.sdef.PrimaryKey, t.sdef.SecondaryKeys = "id", []string{"idx"}
			}
			scalars(m)
			for j, p := range pool {
				if chance(r, .5) {
					field(m, fmt.Sprintf("sh%d", j), tMsg, p, chance(r, .4))
				}
			}
			if chance(r, .3) {
				field(m, "at", tMsg, ".google.protobuf.Timestamp", false)
			}
			if chance(r, .3) {
				field(m, "any", tMsg, ".google.protobuf.Any", chance(r, .4))
			}
			if chance(r, .3) {
				field(m, "color", tEnum, pkg+".shared.Color", chance(r, .3))
			}
			if chance(r, .3) {
				in := &descriptorpb.DescriptorProto{Name: sp("Part")}
				field(in, "deep", tString, "", false)
				scalars(in)
				m.NestedType = append(m.NestedType, in)
				field(m, "part", tMsg, "."+full+".Part", chance(r, .4))
			}
			if chance(r, .4) { // a helper of the same file
				h := &descriptorpb.DescriptorProto{Name: sp("Help" + kd)}
				scalars(h)
				if chance(r, .5) {
					field(h, "more", tMsg, pool[r.Intn(len(pool))], false)
				}
				file.MessageType = append(file.MessageType, h)
				field(m, "help", tMsg, "."+*file.Package+"."+*h.Name, chance(r, .4))
			}
			file.MessageType = append(file.MessageType, m)
			t.keys = []interface{}{*m.Name}
			objs = append(objs, t)
		}
		fd := register(file)
		for _, t := range objs {
			t.md = fd.Messages().ByName(protoreflect.Name(t.keys[0].(string)))
			if !t.sdef.Singleton {
				t.pk = t.md.Fields().ByName("id")
			}
			ts = append(ts, t)
		}
	}
	return ts
}

// fill sets every field of a message.
func fill(r *rand.Rand, m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		one := func() (protoreflect.Value, bool) {
			if f.Message() != nil {
				if depth > 4 {
					return protoreflect.Value{}, false
				}
				var x protoreflect.Value
				if f.IsList() {
					x = m.Mutable(f).List().NewElement()
				} else {
					x = m.NewField(f)
				}
				switch f.Message().FullName() {
				case "google.protobuf.Timestamp":
					t := x.Message()
					src := timestamppb.Timestamp{Seconds: r.Int63n(1 << 33), Nanos: int32(r.Intn(1e9))}
					t.Set(t.Descriptor().Fields().ByName("seconds"), protoreflect.ValueOfInt64(src.Seconds))
					t.Set(t.Descriptor().Fields().ByName("nanos"), protoreflect.ValueOfInt32(src.Nanos))
				case "google.protobuf.Any":
				default:
					fill(r, x.Message(), depth+1)
				}
				return x, f.Message().FullName() != "google.protobuf.Any"
			}
			if f.Kind() == protoreflect.EnumKind {
				return protoreflect.ValueOfEnum(3), true
			}
			vs := valuesOf(r, f.Kind(), false)
			v := protoreflect.ValueOf(vs[1+r.Intn(len(vs)-1)])
			if f.Kind() == protoreflect.BoolKind {
				v = protoreflect.ValueOfBool(true)
			}
			return v, true
		}
		if f.IsList() {
			l := m.Mutable(f).List()
			for n := 1 + r.Intn(2); n > 0; n-- {
				if v, ok := one(); ok {
					l.Append(v)
				}
			}
			continue
		}
		if v, ok := one(); ok {
			m.Set(f, v)
		}
	}
}

func readSpec(k *Case, h *httpCase) *specDoc {
	code, body := h.do("GET", "/spec", nil)
	d := &specDoc{}
	if err := yaml.Unmarshal([]byte(body), d); code != 200 || err != nil {
		k.Fail("spec", "/spec answers %d, %v", code, err)
		return nil
	}
	ids := map[string]string{}
	for p, ms := range d.Paths {
		for _, op := range ms {
			if op == nil {
				continue
			}
			k.Count("operations", 1)
			for _, part := range strings.Split(p, "/") {
				declared := !strings.HasPrefix(part, "{")
				for _, x := range op.Parameters {
					declared = declared || x.In == "path" && x.Required && "{"+x.Name+"}" == part
				}
				if !declared {
					k.Fail("parameters", "the operation at %s does not declare the parameter in its path", p)
				}
			}
			if o, dup := ids[op.OperationId]; dup || op.OperationId == "" {
				k.Fail("operation", "paths %s and %s share the operation id %q", o, p, op.OperationId)
			}
			ids[op.OperationId] = p
		}
	}
	dangling := map[string]string{}
	d.refs(func(where, ref string) {
		k.Count("references", 1)
		if _, bad := d.resolve(&specSchema{Ref: ref}); bad != "" {
			dangling[ref] = where
		}
	})
	for ref, where := range dangling {
		k.Fail("dangling", "the specification refers to %s at %s but does not define it", ref, where)
		break
	}
	return d
}

// responseSchema is the schema declared for a path's answer.
func (d *specDoc) responseSchema(path string) *specSchema {
	op := d.Paths[path]["get"]
	if op == nil {
		return nil
	}
	return op.Responses["200"].Content["application/json"].Schema
}

func c31case(k *Case) {
	r := k.R
	ts := richTypes(r, .25)
	m := &ormModule{types: ts}
	svc := &clientService{}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		b.AddModule(serviceModule{svc})
		if run, err = b.Build(); err == nil {
			err = run.InitGenesis()
		}
	})
	defer closeDBs(dbs)
	if err != nil || svc.c == nil {
		k.Fail("build", "cannot start an application with valid objects and a service: %v", err)
		return
	}
	b := router.NewBuilder(svc.c)
	for _, t := range ts {
		if err := b.CreateStateObjectHandler(t.New(), t.sdef); err != nil {
			k.Fail("handler", "no handler for %s: %v", t.def.Name(), err)
			return
		}
	}
	mux, err := b.Build()
	if err != nil {
		k.Fail("handler", "router is not built: %v", err)
		return
	}
	h := &httpCase{k: k, h: mux}
	d := readSpec(k, h)
	if d == nil || k.Failed() {
		return
	}
	for _, t := range ts {
		p := typePath(t)
		for i := 0; i < 3 && !k.Failed(); i++ {
			o := t.New()
			fill(r, o.Message, 0)
			spec, target := p, p
			if t.pk != nil {
				key := fmt.Sprintf("key%d", i)
				o.set("id", key).set("idx", "v")
				spec, target = p+"/{id}", p+"/"+key
			} else if i > 0 {
				break
			}
			if err := m.c.Create(o.copy()); err != nil {
				k.Fail("write", "%s: %v", t.def.Name(), err)
				return
			}
			c31answer(k, h, d, spec, target, t.md)
		}
		if t.pk != nil {
			c31answer(k, h, d, p+"s", p+"s?selectField=idx%3Dv", nil)
			op := d.Paths[p+"s"]["get"]
			if op == nil {
				k.Fail("path", "the specification does not name %ss", p)
				return
			}
			has := map[string]bool{}
			for _, x := range op.Parameters {
				has[x.In+" "+x.Name] = true
			}
			if !has["query "+router.QueryParamSelectField] {
				k.Fail("parameters", "the listing %ss does not declare its parameter %s", p, router.QueryParamSelectField)
			}
		}
	}
}

// c31answer fetches a target and validates the answer. With no descriptor it
// is a listing.
func c31answer(k *Case, h *httpCase, d *specDoc, spec, target string, md protoreflect.MessageDescriptor) {
	code, body := h.do("GET", target, nil)
	var v interface{}
	if err := json.Unmarshal([]byte(body), &v); code != 200 || err != nil {
		k.Fail("answer", "GET %s answers %d %s (%v)", target, code, short(body), err)
		return
	}
	s := d.responseSchema(spec)
	if s == nil {
		k.Fail("path", "the specification has no answer for %s", spec)
		return
	}
	k.Eval(spec + body)
	k.Count("answers", 1)
	var why string
	if md != nil {
		why = d.check(k, target, v, s, md, nil, false)
	} else {
		rs, bad := d.resolve(s)
		o, _ := v.(map[string]interface{})
		l, ok := o["list"].([]interface{})
		if bad != "" || rs == nil || !ok || len(l) == 0 || rs.Properties["list"] == nil || rs.Properties["list"].Type != "array" || len(rs.Properties) != 1 {
			k.Fail("list-schema", "the schema of %s does not describe its list (%s)", target, bad)
			return
		}
		es := rs.Properties["list"].Items
		one := d.responseSchema(strings.TrimSuffix(spec, "s") + "/{id}")
		if es == nil || one == nil || es.Ref != one.Ref {
			k.Fail("list-schema", "the elements listed by %s have the schema %v, the object has %v", spec, es, one)
		}
	}
	if why != "" {
		k.Fail("mismatch", "the specification does not describe the answer to GET %s: %s: %s", target, why, short(body))
	}
	if k.R.Intn(100) == 0 {
		k.Sample(map[string]string{"path": spec, "answer": body})
	}
}

// c31modules does the same for the repository's own modules, on the state a
// history leaves.
func c31modules(k *Case) {
	cfg := defaultHist()
	cfg.Steps, cfg.Keep = 25, true
	svc := &clientService{}
	o := histOpts(k.R, cfg)
	o.Extra = append(o.Extra, serviceModule{svc})
	cfg.Opts = &o
	hist := runHistory(k, cfg, func(*Hist, *Step) {})
	defer hist.W.Close()
	ds := new(runtimev1alpha1.ModuleDescriptors)
	if err := svcGet(svc.c, ds); err != nil {
		k.Fail("descriptors", "no module descriptors: %v", err)
		return
	}
	rb := router.NewBuilder(svc.c)
	type served struct {
		path string
		so   *coremodule.StateObject
		md   protoreflect.MessageDescriptor
	}
	var l []served
	for _, m := range ds.Modules {
		for _, so := range m.StateObjects {
			mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(so.ProtobufFullname))
			if err != nil {
				continue
			}
			if err := rb.CreateStateObjectHandler(mt.New().Interface().(meta.StateObject), so.SchemaDefinition); err != nil {
				k.Fail("handler", "no handler for %s: %v", so.ProtobufFullname, err)
				return
			}
			l = append(l, served{strings.ToLower("/" + so.ApiDefinition.Group + "/" + so.ApiDefinition.Kind), so, mt.Descriptor()})
		}
	}
	mux, err := rb.Build()
	if err != nil {
		k.Fail("handler", "router is not built: %v", err)
		return
	}
	h := &httpCase{k: k, h: mux}
	d := readSpec(k, h)
	if d == nil || k.Failed() {
		return
	}
	raw := hist.W.Dump()
	odb := objectDB(raw)
	for _, s := range l {
		if s.so.SchemaDefinition.Singleton {
			if code, _ := h.do("GET", s.path, nil); code == 200 {
				c31answer(k, h, d, s.path, s.path, s.md)
			}
			continue
		}
		prefix, n := odb+s.so.ApiDefinition.Group+"."+s.so.ApiDefinition.Kind+"/", 0
		f := s.md.Fields().ByJSONName(s.so.SchemaDefinition.PrimaryKey)
		for key := range raw {
			if f != nil && f.Kind() == protoreflect.StringKind && strings.HasPrefix(key, prefix) && len(key) > len(prefix) && n < 8 {
				n++
				c31answer(k, h, d, s.path+"/{"+s.so.SchemaDefinition.PrimaryKey+"}", s.path+"/"+escapeAll(k.R, key[len(prefix):]), s.md)
			}
		}
		k.Count("module_objects", int64(n))
	}
}

// c31child serves recursive types: a generator which does not stop ends the
// process.
func c31child(arg string) {
	var n int64
	fmt.Sscan(arg, &n)
	r := rand.New(rand.NewSource(n))
	b := router.NewBuilder(nil)
	for _, t := range richTypes(r, 1) {
		if err := b.CreateStateObjectHandler(t.New(), t.sdef); err != nil {
			fmt.Println("ERR", err)
			return
		}
	}
	if _, err := b.Build(); err != nil {
		fmt.Println("ERR", err)
		return
	}
	fmt.Println("OK")
}

func c31recursive(k *Case) {
	exe, err := os.Executable()
	if err != nil {
		inconclusive("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	seed := k.R.Int63()
	out, err := exec.CommandContext(ctx, exe, "child-C31", fmt.Sprint(seed)).CombinedOutput()
	if strings.TrimSpace(string(out)) != "OK" {
		k.Fail("recursive", "no specification is made for objects with recursive messages: %v: %s", err, short(string(out)))
	}
	k.Eval(fmt.Sprint("recursive", seed))
	k.Count("recursive_families", 1)
}
