package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/dgraph-io/badger/v3"
	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
)

// ormType is one generated object type.
type ormType struct {
	md    protoreflect.MessageDescriptor
	def   *meta.APIDefinition
	sdef  *schema.Definition
	pk    protoreflect.FieldDescriptor // nil for singletons
	idx   []protoreflect.FieldDescriptor
	sch   *schema.Schema
	model map[string]*Dyn // by idOf
	keys  []interface{}   // key pool
	pool  map[protoreflect.Name][]interface{}
	json  bool // all values can be encoded to JSON
}

func (t *ormType) New() *Dyn { return newDyn(t.md, t.def) }

func (t *ormType) withKey(k interface{}) *Dyn {
	d := t.New()
	if t.pk != nil {
		d.Set(t.pk, protoreflect.ValueOf(k))
	}
	return d
}

// modelKey identifies an object in the reference map.
func (t *ormType) modelKey(d *Dyn) string {
	if t.pk == nil {
		return "singleton"
	}
	return fmt.Sprintf("%q", fmt.Sprint(d.Get(t.pk).Interface()))
}

// id is the identifier under which the object of this key is looked up. For
// string and bytes it is the content itself.
func (t *ormType) id(d *Dyn) meta.ID {
	if t.pk == nil {
		return meta.SingletonID
	}
	switch v := d.Get(t.pk).Interface().(type) {
	case string:
		return meta.NewStringID(v)
	case []byte:
		return meta.NewBytesID(v)
	}
	return meta.NewBytesID(t.sch.EncodePrimaryKey(d))
}

func (t *ormType) emptyKey(d *Dyn) bool {
	if t.pk == nil {
		return false
	}
	switch v := d.Get(t.pk).Interface().(type) {
	case string:
		return v == ""
	case []byte:
		return len(v) == 0
	}
	return false
}

var scalarTypes = []descriptorpb.FieldDescriptorProto_Type{tString, tBytes, tBool, tInt32, tInt64, tUint32, tUint64}

// valuesOf gives interesting values of a kind.
func valuesOf(r *rand.Rand, k protoreflect.Kind, keyish bool) []interface{} {
	var out []interface{}
	switch k {
	case protoreflect.StringKind:
		ss := []string{"", "a", "ab", "abc", "a/", "/", "/a", "a/b", "unique", "zz.A/a", "\x00", "a\x00", "a\x00b", "ü", "A", " ", "a ", "\x01\x00\x00\x00\x00\x00\x00\x00a", strings.Repeat("x", 126), strings.Repeat("x", 127), strings.Repeat("x", 128), strings.Repeat("x", 129), strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("y", 300), strings.Repeat("z", 5000), "%2F", "..", "true", "1"}
		for i := 0; i < 4; i++ {
			ss = append(ss, randText(r, 1+r.Intn(20)))
		}
		for _, s := range ss {
			out = append(out, s)
		}
	case protoreflect.BytesKind:
		bs := [][]byte{{}, {0}, {0, 0}, {1}, {0xff}, {0xff, 0xff}, {0, 1}, []byte("a"), []byte("a/b"), []byte("unique"), make([]byte, 127), make([]byte, 128), make([]byte, 200), make([]byte, 4000)}
		for i := 0; i < 6; i++ {
			bs = append(bs, randBytes(r, 1+r.Intn(200)))
		}
		for _, b := range bs {
			out = append(out, b)
		}
	case protoreflect.BoolKind:
		out = append(out, true, false)
	case protoreflect.Int32Kind:
		for _, v := range []int32{0, 1, -1, 2, 127, 128, 255, 256, 16383, 16384, 0x2f, math.MaxInt32, math.MinInt32, int32(r.Uint32()), int32(r.Uint32())} {
			out = append(out, v)
		}
	case protoreflect.Int64Kind:
		for _, v := range []int64{0, 1, -1, 2, 127, 128, 255, 256, 0x2f, 1 << 31, 1 << 32, -1 << 31, 1<<32 + 1, math.MaxInt64, math.MinInt64, int64(r.Uint64())} {
			out = append(out, v)
		}
	case protoreflect.Uint32Kind:
		for _, v := range []uint32{0, 1, 2, 127, 128, 255, 256, 0x2f, 1 << 31, math.MaxUint32, r.Uint32(), r.Uint32()} {
			out = append(out, v)
		}
	case protoreflect.Uint64Kind:
		for _, v := range []uint64{0, 1, 2, 127, 128, 255, 256, 0x2f, 1 << 31, 1 << 32, 1<<32 + 1, math.MaxUint32, 1 << 63, math.MaxUint64, r.Uint64()} {
			out = append(out, v)
		}
	}
	return out
}

func randText(r *rand.Rand, n int) string {
	const al = "abcXYZ019 /._-\x00\x01üñ%?#&=+"
	rs := []rune(al)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	return b.String()
}

// newORMTypes makes up object types. kinds of the primary keys are rotated so
// that all of them occur.
func newORMTypes(r *rand.Rand, n int, indexed bool) []*ormType {
	return newORMTypesIn(r, n, indexed, "", []string{"A", "AB", "A1", "B", "Ab", "ABC", "C", "D", "E"}, []string{"zz", "zz.v1", "zz.A"})
}

// newORMTypesIn makes up types of the given kinds and groups. With a family
// name the files are unique to it and registered globally, as generated code
// does, and every object can be encoded to JSON.
func newORMTypesIn(r *rand.Rand, n int, indexed bool, family string, kinds, groups []string) []*ormType {
	var ts []*ormType
	used := map[string]bool{}
	for i := 0; len(ts) < n; i++ {
		g, kd := groups[r.Intn(len(groups))], kinds[r.Intn(len(kinds))]
		if used[g+"."+kd] {
			continue
		}
		used[g+"."+kd] = true
		t := &ormType{def: objDef(g, kd), sdef: &schema.Definition{}, model: map[string]*Dyn{}, pool: map[protoreflect.Name][]interface{}{}}
		m := DynMsg{Name: "Obj" + fmt.Sprint(i)}
		pkType := scalarTypes[r.Intn(len(scalarTypes))]
		single := chance(r, .12) && !indexed
		pkName := pick(r, "id", "the_key", "Key", "k")
		fields := []DynField{{Name: "val", Type: tString}, {Name: "blob", Type: tBytes}, {Name: "list", Type: tString, Repeated: true}, {Name: "num", Type: tInt64},
			{Name: "sub", Type: tMsg, TypeName: ".google.protobuf.Any"}}
		if !single {
			fields = append(fields, DynField{Name: pkName, Type: pkType})
		}
		var idx []string
		if indexed || chance(r, .3) && !single {
			for j, nm := range []string{"i", "i1", "i_one", "iX", "i11"}[:1+r.Intn(5)] {
				_ = j
				fields = append(fields, DynField{Name: nm, Type: scalarTypes[r.Intn(len(scalarTypes))]})
				idx = append(idx, nm)
			}
			if chance(r, .3) {
				idx = append(idx, pkName)
			}
		}
		r.Shuffle(len(fields), func(a, b int) { fields[a], fields[b] = fields[b], fields[a] })
		m.Fields = fields
		fd := dynFile(fmt.Sprintf("zz/%sorm%d.proto", family, i), fmt.Sprintf("zz%sorm%d", family, i), []DynMsg{m}, "google/protobuf/any.proto")
		if family != "" {
			t.json = true
			if err := protoregistry.GlobalFiles.RegisterFile(fd); err != nil {
				panic(err)
			}
		}
		t.md = fd.Messages().Get(0)
		if single {
			t.sdef.Singleton = true
			t.keys = []interface{}{nil}
		} else {
			t.pk = t.md.Fields().ByName(protoreflect.Name(pkName))
			t.sdef.PrimaryKey = t.pk.JSONName()
			t.keys = valuesOf(r, t.pk.Kind(), true)
			r.Shuffle(len(t.keys), func(a, b int) { t.keys[a], t.keys[b] = t.keys[b], t.keys[a] })
		}
		for _, x := range idx {
			f := t.md.Fields().ByName(protoreflect.Name(x))
			t.idx = append(t.idx, f)
			t.sdef.SecondaryKeys = append(t.sdef.SecondaryKeys, f.JSONName())
			vs := valuesOf(r, f.Kind(), false)
			r.Shuffle(len(vs), func(a, b int) { vs[a], vs[b] = vs[b], vs[a] })
			if len(vs) > 5 && x != pkName {
				vs = vs[:5]
			}
			t.pool[f.Name()] = vs
		}
		sch, err := schema.NewSchema(t.New(), t.sdef)
		if err != nil {
			panic(startFailure(err.Error()))
		}
		t.sch = sch
		ts = append(ts, t)
	}
	// Keys which, written behind the name of the type, read like the name and
	// key of another type.
	for _, t := range ts {
		for _, o := range ts {
			n, on := t.def.Name(), o.def.Name()
			if t == o || t.pk == nil || o.pk == nil || !strings.HasPrefix(on, n) || !chance(r, .7) {
				continue
			}
			for _, sep := range []string{"", "/"} {
				x := on[len(n):] + sep
				switch v := o.keys[0].(type) {
				case string:
					x += v
				case []byte:
					x += string(v)
				default:
					x += string(o.sch.EncodePrimaryKey(o.withKey(v)))
				}
				if sep == "/" && chance(r, .5) {
					x = strings.TrimPrefix(x, "/")
				}
				switch {
				case t.pk.Kind() == protoreflect.StringKind && utf8.ValidString(x):
					t.keys = append([]interface{}{x}, t.keys...)
				case t.pk.Kind() == protoreflect.BytesKind:
					t.keys = append([]interface{}{[]byte(x)}, t.keys...)
				}
			}
		}
	}
	return ts
}

type ormModule struct {
	types []*ormType
	c     module.Client
}

func (m *ormModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	b := module.NewDescriptorBuilder().Named("zzorm")
	for _, t := range m.types {
		b.OwnsStateObject(t.New(), t.sdef)
	}
	return b.Build()
}

// ormClient builds an application owning the types and returns the client of
// the module that owns them.
func ormClient(k *Case, types []*ormType) (module.Client, func() map[string]string, func()) {
	c, dbs := ormApp(k, types)
	return c, func() map[string]string { return dumpDBs(dbs) }, func() { closeDBs(dbs) }
}

func ormApp(k *Case, types []*ormType) (module.Client, []*badger.DB) {
	m := &ormModule{types: types}
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		_, err = b.Build()
	})
	if err != nil {
		closeDBs(dbs)
		k.Fail("build", "cannot register valid objects: %v", err)
		k.Abort()
	}
	return m.c, dbs
}

// randomize sets the non-key fields.
func (t *ormType) randomize(r *rand.Rand, d *Dyn) {
	skip := .3
	if chance(r, .1) { // hardly more than the key
		skip = .93
		for i := 0; i < t.md.Fields().Len(); i++ {
			if f := t.md.Fields().Get(i); t.pk == nil || f.Name() != t.pk.Name() {
				d.Clear(f)
			}
		}
	}
	for i := 0; i < t.md.Fields().Len(); i++ {
		f := t.md.Fields().Get(i)
		if t.pk != nil && f.Name() == t.pk.Name() || chance(r, skip) {
			continue
		}
		if vs := t.pool[f.Name()]; vs != nil {
			d.Set(f, protoreflect.ValueOf(vs[r.Intn(len(vs))]))
			continue
		}
		switch f.Name() {
		case "val":
			d.set("val", randText(r, r.Intn(30)))
		case "blob":
			n := 300
			if chance(r, .03) { // larger than any length of two bytes
				n = 200000
			}
			d.set("blob", randBytes(r, r.Intn(n)))
		case "num":
			d.set("num", int64(r.Uint64()))
		case "list":
			l := d.Mutable(f).List()
			for j := r.Intn(4); j > 0; j-- {
				l.Append(protoreflect.ValueOfString(randText(r, r.Intn(5))))
			}
		case "sub":
			s := d.Mutable(f).Message()
			fs := s.Descriptor().Fields()
			if t.json {
				s.Set(fs.ByName("type_url"), protoreflect.ValueOfString("/"+string((&coinpb.Coin{}).ProtoReflect().Descriptor().FullName())))
				s.Set(fs.ByName("value"), protoreflect.ValueOfBytes(mustMarshal(&coinpb.Coin{Denom: randText(r, 3), Amount: "7"})))
				continue
			}
			s.Set(fs.ByName("type_url"), protoreflect.ValueOfString("/x"))
			s.Set(fs.ByName("value"), protoreflect.ValueOfBytes(randBytes(r, r.Intn(9))))
		}
	}
}

func same(a, b *Dyn) bool { return proto.Equal(a.Message, b.Message) }

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func c08(c *Ctx) {
	c.Rule("one create, get, update or delete call, distinct by (type, key, operation, existence)")
	c.Assume("reference: Go map per type keyed by the primary key value")
	c.Cases("history", c.N(2000, 8000), c08history)
	for _, o := range []string{"create", "get", "update", "delete"} {
		c.Expect(o+"_ok", 1000)
		c.Expect(o+"_refused", 300)
	}
	c.Expect("unregistered", 50)
	c.Expect("empty_key", 10)
}

func c08history(k *Case) {
	r := k.R
	ts := newORMTypes(r, 4+r.Intn(3), false)
	unreg := ts[len(ts)-1]
	ts = ts[:len(ts)-1]
	c, dump, done := ormClient(k, ts)
	defer done()
	read := func(t *ormType, key interface{}, why string) {
		probe := t.withKey(key)
		if t.emptyKey(probe) {
			if err := c.Get(t.id(probe), t.New()); err == nil {
				k.Fail("empty", "get with an empty identifier succeeds")
			}
			return
		}
		want := t.model[t.modelKey(probe)]
		target := t.New() // may hold anything before
		t.randomize(r, target)
		err := c.Get(t.id(probe), target)
		switch {
		case want == nil && err == nil:
			k.Fail("get", "%s: get of absent %s %s returns %s", why, t.def.Name(), short(t.modelKey(probe)), short(target.String()))
		case want != nil && err != nil:
			k.Fail("get", "%s: get of existing %s %s fails: %v", why, t.def.Name(), short(t.modelKey(probe)), err)
		case want != nil && !same(want, target):
			k.Fail("get", "%s: get of %s %s returns %s, last written %s", why, t.def.Name(), short(t.modelKey(probe)), short(target.String()), short(want.String()))
		}
		if err == nil {
			k.Count("get_ok", 1)
		} else {
			k.Count("get_refused", 1)
		}
		k.Eval(fmt.Sprint("get", t.def.Name(), t.modelKey(probe), want != nil))
	}
	for i := 0; i < k.N(150, 250) && !k.Failed(); i++ {
		t := ts[r.Intn(len(ts))]
		n := len(t.keys)
		if n > 9 {
			n = 9
		}
		key := t.keys[r.Intn(n)]
		o := t.withKey(key)
		t.randomize(r, o)
		mk := t.modelKey(o)
		had := t.model[mk] != nil
		op := pick(r, "create", "create", "update", "delete", "get", "get")
		if op == "get" {
			read(t, key, "history")
			continue
		}
		if chance(r, .03) {
			u := unreg.withKey(unreg.keys[0])
			before := dump()
			errs := []error{c.Create(u), c.Update(u), c.Delete(u), c.Get(meta.NewStringID("x"), u)}
			for _, e := range errs {
				if e == nil {
					k.Fail("unregistered", "operation on the unregistered type %s succeeds", unreg.def.Name())
				}
			}
			if len(diffDump(before, dump())) > 0 {
				k.Fail("unregistered", "operation on an unregistered type changed the store")
			}
			k.Count("unregistered", 1)
			continue
		}
		var err error
		before := dump()
		arg := o.copy()
		switch op {
		case "create":
			err = c.Create(arg)
		case "update":
			err = c.Update(arg)
		case "delete":
			err = c.Delete(arg)
		}
		if !same(arg, o) {
			k.Fail("mutated", "%s changed its argument", op)
		}
		ok := had == (op != "create") && !t.emptyKey(o)
		if t.emptyKey(o) {
			k.Count("empty_key", 1)
		}
		k.Eval(fmt.Sprint(op, t.def.Name(), mk, had))
		if (err == nil) != ok {
			k.Fail(op, "%s of %s %s (exists=%v): err=%v", op, t.def.Name(), short(mk), had, err)
			break
		}
		if err != nil {
			k.Count(op+"_refused", 1)
			if d := diffDump(before, dump()); len(d) > 0 {
				k.Fail("effect", "failed %s of %s %s changed %q", op, t.def.Name(), short(mk), d)
			}
			continue
		}
		k.Count(op+"_ok", 1)
		if op == "delete" {
			delete(t.model, mk)
		} else {
			t.model[mk] = o
			t.randomize(r, arg) // the store must not alias its argument
			if b := arg.get("blob").([]byte); len(b) > 0 {
				b[0] ^= 0xff
			}
		}
		read(t, key, "after "+op)
		if chance(r, .3) {
			ot := ts[r.Intn(len(ts))]
			read(ot, ot.keys[r.Intn(len(ot.keys))], "after "+op+" of another")
		}
	}
	if k.Failed() {
		return
	}
	for _, t := range ts {
		for _, key := range t.keys {
			read(t, key, "final enumeration")
		}
		// identifiers no object was ever stored under
		for _, x := range []string{"nope", "a/unique", "/", "uniqu", "unique2", t.def.Name()} {
			if t.pk == nil {
				if err := c.Get(meta.NewStringID(x), t.New()); err == nil {
					k.Fail("singleton", "singleton %s found under %q", t.def.Name(), x)
				}
			} else if t.pk.Kind() == protoreflect.StringKind && t.model[t.modelKey(t.withKey(x))] == nil {
				if err := c.Get(meta.NewStringID(x), t.New()); err == nil {
					k.Fail("foreign", "%s found under %q", t.def.Name(), x)
				}
			}
		}
	}
}

// ---- C09 ----

func textOf(v interface{}) string {
	if b, ok := v.([]byte); ok {
		return base64.RawStdEncoding.EncodeToString(b)
	}
	return fmt.Sprint(v)
}

func c09(c *Ctx) {
	c.Rule("one listing by one indexed field value, distinct by (type, field, value, matching set)")
	c.Assume("reference: filter over the reference map; a listing nothing matches may be an error or empty")
	c.Cases("history", c.N(800, 5000), c09history)
	c.Cases("typed", 1, c09typed)
	c.Expect("lists", 10000)
	c.Expect("lists_matching", 3000)
	c.Expect("lists_multi", 500)
	c.Expect("lists_bad", 1000)
	c.Expect("stores_released", 700)
	c.Expect("updates", 1000)
	c.Expect("deletes", 500)
}

func listKeys(c client.Client, t *ormType, opts ...client.ListOption) ([]*Dyn, error) {
	it, err := c.List(t.New(), opts...)
	if err != nil {
		return nil, err
	}
	defer it.Close()
	var out []*Dyn
	for ; it.Valid(); it.Next() {
		o := t.New()
		if err := it.Get(o); err != nil {
			return nil, fmt.Errorf("listed object cannot be read: %w", err)
		}
		out = append(out, o)
		if len(out) > 10000 {
			return nil, fmt.Errorf("endless iterator")
		}
	}
	return out, nil
}

// c09typed lists through the generated client of a repository module: its
// iterator has no way to be released.
func c09typed(k *Case) {
	w := newWorld(WorldOpts{})
	defer w.Close()
	for i := 0; i < 3; i++ {
		if err := w.RT.Create(user.NewUsersFromString("rbac"), &rbacpb.RoleBinding{Subject: fmt.Sprintf("subject-%d", i), RoleRef: "role"}); err != nil {
			k.Fail("setup", "a role binding cannot be created: %v", err)
			return
		}
	}
	if n := openReadsFor(w.DBs, 5*time.Second); n > 0 {
		k.Fail("held", "%d stores have a transaction open for reading before anything was listed", n)
		return
	}
	it, err := rbacpb.NewClientSet(w.Mod).RoleBindings().List(client.ListMatchFieldString("roleRef", "role"))
	if err != nil {
		k.Fail("typed-list", "role bindings cannot be listed by role: %v", err)
		return
	}
	seen := map[string]bool{}
	for ; it.Valid(); it.Next() {
		rb, err := it.Get()
		if err != nil {
			k.Fail("typed-list", "a listed role binding cannot be read: %v", err)
			return
		}
		seen[rb.Subject] = true
	}
	if len(seen) != 3 {
		k.Fail("typed-list", "3 role bindings of a role are listed as %v", seen)
	}
	if c, ok := it.(interface{ Close() }); ok {
		c.Close()
	}
	k.Count("typed_lists", 1)
	if n := openReadsFor(w.DBs, 5*time.Second); n > 0 {
		k.Fail("typed-held", "a listing of role bindings through the generated client which was read to its end still holds a transaction of the store open")
	}
}

func c09history(k *Case) {
	r := k.R
	ts := newORMTypes(r, 3+r.Intn(2), true)
	c, dbs := ormApp(k, ts)
	defer closeDBs(dbs)
	defer k.checkReleased(dbs, "every listing was closed or refused")
	check := func(t *ormType, f protoreflect.FieldDescriptor, v interface{}, text bool, why string) {
		want := map[string]*Dyn{}
		for mk, o := range t.model {
			if fmt.Sprint(o.Get(f).Interface()) == fmt.Sprint(v) {
				want[mk] = o
			}
		}
		opt := client.ListMatchFieldInterface(f.JSONName(), v)
		form := "typed"
		if text {
			opt, form = client.ListMatchFieldString(f.JSONName(), textOf(v)), "text"
		}
		what := fmt.Sprintf("%s: list %s by %s=%s (%s)", why, t.def.Name(), f.JSONName(), short(fmt.Sprintf("%q", fmt.Sprint(v))), form)
		got, err := listKeys(c, t, opt)
		k.Count("lists", 1)
		var ws []string
		for w := range want {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		k.Eval(fmt.Sprint(t.def.Name(), f.Name(), v, ws))
		if err != nil {
			if len(want) > 0 {
				k.Fail("list", "%s: error %v, expected %d objects %s", what, err, len(want), short(strings.Join(ws, " ")))
			}
			return
		}
		if len(want) > 0 {
			k.Count("lists_matching", 1)
		}
		if len(want) > 1 {
			k.Count("lists_multi", 1)
		}
		seen := map[string]bool{}
		for _, o := range got {
			mk := t.modelKey(o)
			w := want[mk]
			if w == nil {
				k.Fail("foreign", "%s returns %s which does not match", what, short(o.String()))
			} else if !same(w, o) {
				k.Fail("stale", "%s returns %s instead of %s", what, short(o.String()), short(w.String()))
			}
			if seen[mk] {
				k.Fail("twice", "%s returns %s twice", what, short(mk))
			}
			seen[mk] = true
		}
		for mk := range want {
			if !seen[mk] {
				k.Fail("missing", "%s misses %s", what, short(mk))
			}
		}
	}
	for i := 0; i < k.N(130, 250) && !k.Failed(); i++ {
		t := ts[r.Intn(len(ts))]
		key := t.keys[r.Intn(min(len(t.keys), 8))]
		o := t.withKey(key)
		mk := t.modelKey(o)
		old := t.model[mk]
		if old != nil && chance(r, .6) { // change few fields only
			o = old.copy()
			f := t.idx[r.Intn(len(t.idx))]
			if t.pk.Name() != f.Name() {
				vs := t.pool[f.Name()]
				o.Set(f, protoreflect.ValueOf(vs[r.Intn(len(vs))]))
			}
		} else {
			t.randomize(r, o)
		}
		op := pick(r, "create", "create", "create", "update", "update", "update", "delete")
		var err error
		switch op {
		case "create":
			err = c.Create(o.copy())
		case "update":
			err = c.Update(o.copy())
			k.Count("updates", 1)
		case "delete":
			if chance(r, .5) { // only the key matters
				o = t.withKey(key)
			}
			err = c.Delete(o.copy())
			k.Count("deletes", 1)
		}
		if (err == nil) != ((old != nil) == (op != "create") && !t.emptyKey(o)) {
			k.Fail(op, "%s of %s %s (exists %v): %v", op, t.def.Name(), short(mk), old != nil, err)
			return
		}
		if err == nil {
			if op == "delete" {
				delete(t.model, mk)
			} else {
				t.model[mk] = o
			}
		}
		for _, f := range t.idx {
			if old != nil {
				check(t, f, old.Get(f).Interface(), chance(r, .3), "old value after "+op)
			}
			check(t, f, o.Get(f).Interface(), chance(r, .3), "new value after "+op)
		}
		if chance(r, .15) {
			ot := ts[r.Intn(len(ts))]
			f := ot.idx[r.Intn(len(ot.idx))]
			vs := ot.pool[f.Name()]
			check(ot, f, vs[r.Intn(len(vs))], chance(r, .5), "other type")
		}
		if chance(r, .15) {
			c09bad(k, c, ts)
		}
	}
	if k.Failed() {
		return
	}
	for _, t := range ts {
		for _, f := range t.idx {
			for _, v := range t.pool[f.Name()] {
				check(t, f, v, false, "final")
				check(t, f, v, true, "final")
			}
			check(t, f, f.Default().Interface(), false, "final default")
		}
	}
}

// c09bad: queries which must not answer any object.
func c09bad(k *Case, c client.Client, ts []*ormType) {
	r := k.R
	t := ts[r.Intn(len(ts))]
	f := t.idx[r.Intn(len(t.idx))]
	var opt client.ListOption
	what := ""
	switch r.Intn(4) {
	case 0:
		field := pick(r, "val", "blob", "num", "nosuch", "", "i_one", strings.ToUpper(f.JSONName())+"_", f.JSONName()+" ", "list", "sub")
		opt, what = client.ListMatchFieldString(field, "1"), "field "+field
	case 1:
		v := []interface{}{nil, 1, "1", []byte("1"), int32(1), int64(1), uint32(1), uint64(1), true, 1.5, int8(1), uint(1), []string{"a"}, struct{}{}, &struct{}{}, protoreflect.ValueOfString("a")}[r.Intn(16)]
		if fmt.Sprintf("%T", v) == fmt.Sprintf("%T", f.Default().Interface()) {
			return
		}
		opt, what = client.ListMatchFieldInterface(f.JSONName(), v), fmt.Sprintf("%s=%v (%T)", f.JSONName(), v, v)
	case 2:
		var bad []string
		switch f.Kind() {
		case protoreflect.StringKind:
			return
		case protoreflect.BytesKind:
			bad = []string{"!", "a", "*#*", "ab!d"}
		case protoreflect.BoolKind:
			bad = []string{"", "2", "yes", "truee", "-1"}
		case protoreflect.Int32Kind:
			bad = []string{"", "x", "2147483648", "-2147483649", "4294967296", "1.0", "1 ", " 1", "1e3", "99999999999999999999"}
		case protoreflect.Uint32Kind:
			bad = []string{"", "x", "-1", "4294967296", "1.0", "1 ", "18446744073709551616"}
		case protoreflect.Int64Kind:
			bad = []string{"", "x", "9223372036854775808", "-9223372036854775809", "18446744073709551616"}
		case protoreflect.Uint64Kind:
			bad = []string{"", "x", "-1", "18446744073709551616", "36893488147419103232"}
		}
		s := bad[r.Intn(len(bad))]
		opt, what = client.ListMatchFieldString(f.JSONName(), s), fmt.Sprintf("%s=%q (text of %s)", f.JSONName(), s, f.Kind())
	default:
		u := &ormType{md: t.md, def: objDef("zz", "Unregistered")}
		got, err := listKeys(c, u, client.ListMatchFieldInterface(f.JSONName(), f.Default().Interface()))
		k.Count("lists_bad", 1)
		if err == nil || len(got) > 0 {
			k.Fail("unregistered", "listing an unregistered type answers %d objects, err %v", len(got), err)
		}
		return
	}
	var got []*Dyn
	var err error
	if p, st := safe(func() { got, err = listKeys(c, t, opt) }); p != nil {
		k.FailData("panic", st, "listing %s by %s panics: %v", t.def.Name(), what, p)
		return
	}
	k.Count("lists_bad", 1)
	k.Eval("bad" + what + t.def.Name())
	if err == nil {
		k.Fail("bad-query", "listing %s by %s answers %d objects instead of an error", t.def.Name(), what, len(got))
	}
}
