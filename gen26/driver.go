// The driver exercises generated clients. It is compiled together with the
// generated packages and a table (table.go) that holds what their schemas
// declare; see harness/c26.go.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

type objEntry struct {
	Method, Group, Kind, PK string
	SK                      []string
	Singleton               bool
	Obj                     meta.StateObject
	Schema                  *schema.Definition
}

type trEntry struct {
	Method, Group, Kind string
	Tr                  meta.StateTransition
}

type entry struct {
	Pkg  string
	Set  func(client.Client) interface{}
	Objs []objEntry
	Trs  []trEntry
}

var out = json.NewEncoder(os.Stdout)
var counts = map[string]int{}
var failures int

func fail(pkg, f string, a ...interface{}) {
	failures++
	if failures < 40 {
		_ = out.Encode(map[string]string{"fail": pkg + ": " + fmt.Sprintf(f, a...)})
	}
}

// rec is a client that records what it is asked and answers from a store.
type rec struct {
	store orm.Store
	calls []call
	err   error
}

type call struct {
	op   string
	id   []byte
	obj  meta.APIObject
	opts int
}

func (r *rec) add(op string, id []byte, o meta.APIObject, n int) error {
	r.calls = append(r.calls, call{op, id, o, n})
	return r.err
}

func (r *rec) Get(id meta.ID, o meta.StateObject, opts ...client.GetOption) error {
	raw := client.GetOptionsRaw{}
	for _, f := range opts {
		f(&raw)
	}
	if err := r.add("Get", id.Bytes(), o, int(raw.Height)); err != nil {
		return err
	}
	return r.store.Get(id, o)
}
func (r *rec) List(o meta.StateObject, opts ...client.ListOption) (client.ObjectIterator, error) {
	raw := client.ListOptionsRaw{}
	for _, f := range opts {
		f(&raw)
	}
	if err := r.add("List", nil, o, len(opts)); err != nil {
		return client.ObjectIterator{}, err
	}
	return r.store.List(o, raw.ORMOptions)
}
func (r *rec) Create(o meta.StateObject, opts ...client.CreateOption) error {
	if err := r.add("Create", nil, o, len(opts)); err != nil {
		return err
	}
	return r.store.Create(o)
}
func (r *rec) Update(o meta.StateObject, opts ...client.UpdateOption) error {
	if err := r.add("Update", nil, o, len(opts)); err != nil {
		return err
	}
	return r.store.Update(o)
}
func (r *rec) Delete(o meta.StateObject, opts ...client.DeleteOption) error {
	if err := r.add("Delete", nil, o, len(opts)); err != nil {
		return err
	}
	return r.store.Delete(o)
}
func (r *rec) Deliver(t meta.StateTransition, opts ...client.DeliverOption) error {
	return r.add("Deliver", nil, t, len(opts))
}

// invoke calls a method by name and expects exactly one recorded call.
func (r *rec) invoke(v reflect.Value, name string, args ...interface{}) ([]reflect.Value, []call) {
	r.calls = nil
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	res := v.MethodByName(name).Call(in)
	counts["calls"]++
	return res, r.calls
}

func errOf(v reflect.Value) error {
	if v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func methodSet(t reflect.Type) []string {
	var out []string
	for i := 0; i < t.NumMethod(); i++ {
		out = append(out, t.Method(i).Name)
	}
	sort.Strings(out)
	return out
}

func isNil(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || v.Kind() == reflect.Interface && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil()
	}
	return false
}

func checkAPI(pkg string, o meta.APIObject, group, kind string, typ meta.APIType) {
	d := o.APIDefinition()
	if d.Group != group || d.Kind != kind || d.ApiType != typ {
		fail(pkg, "%s declares itself %s/%s (%s), its definition says %s/%s (%s)", o.ProtoReflect().Descriptor().FullName(), d.Group, d.Kind, d.ApiType, group, kind, typ)
	}
	if string(o.ProtoReflect().Descriptor().FullName()) != group+"."+kind {
		fail(pkg, "table: %s is not %s.%s", o.ProtoReflect().Descriptor().FullName(), group, kind)
	}
}

func encodeKey(v protoreflect.Value) []byte {
	switch x := v.Interface().(type) {
	case string:
		return []byte(x)
	case []byte:
		return x
	case bool:
		return protowire.AppendVarint(nil, protowire.EncodeBool(x))
	case int32:
		return protowire.AppendVarint(nil, uint64(x))
	case int64:
		return protowire.AppendVarint(nil, uint64(x))
	case uint32:
		return protowire.AppendVarint(nil, uint64(x))
	case uint64:
		return protowire.AppendVarint(nil, x)
	}
	return nil
}

func keyValues(k protoreflect.Kind) []interface{} {
	switch k {
	case protoreflect.StringKind:
		return []interface{}{"a", "b/c", "unique", "ü", "k"}
	case protoreflect.BytesKind:
		return []interface{}{[]byte("a"), []byte{0, 1}, []byte{255, 0}, []byte("unique")}
	case protoreflect.BoolKind:
		return []interface{}{true, false}
	case protoreflect.Int32Kind:
		return []interface{}{int32(-1), int32(7), int32(1 << 30), int32(-1 << 31)}
	case protoreflect.Int64Kind:
		return []interface{}{int64(-1), int64(7), int64(1 << 62), int64(-1 << 63)}
	case protoreflect.Uint32Kind:
		return []interface{}{uint32(1), uint32(7), ^uint32(0)}
	case protoreflect.Uint64Kind:
		return []interface{}{uint64(1), uint64(7), ^uint64(0), uint64(300)}
	}
	return nil
}

var rnd = rand.New(rand.NewSource(1))

// randomize sets scalar fields other than the key.
func randomize(o proto.Message, pk string) {
	m := o.ProtoReflect()
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.JSONName() == pk || f.IsList() || f.IsMap() {
			continue
		}
		if f.ContainingOneof() != nil {
			if g := fs.ByJSONName(pk); g != nil && g.ContainingOneof() == f.ContainingOneof() {
				continue
			}
		}
		if vs := keyValues(f.Kind()); vs != nil && rnd.Intn(4) > 0 {
			m.Set(f, protoreflect.ValueOf(vs[rnd.Intn(len(vs))]))
		}
	}
}

func (e *entry) run() {
	pkg := e.Pkg
	defer func() {
		if r := recover(); r != nil {
			fail(pkg, "panic: %v\n%s", r, debug.Stack())
		}
	}()
	okv, ikv := kv.NewBadger(), kv.NewBadger()
	r := &rec{store: orm.NewStore(objects.NewStore(okv), indexes.NewStore(ikv))}
	set := reflect.ValueOf(e.Set(r))
	var want []string
	for _, o := range e.Objs {
		want = append(want, o.Method)
	}
	for _, t := range e.Trs {
		want = append(want, t.Method)
	}
	sort.Strings(want)
	if got := methodSet(set.Type()); !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
		fail(pkg, "client set has methods %v, its schema declares %v", got, want)
		return
	}
	model := make([]map[string]proto.Message, len(e.Objs))
	for i, o := range e.Objs {
		model[i] = map[string]proto.Message{}
		checkAPI(pkg, o.Obj, o.Group, o.Kind, meta.APIType_StateObject)
		n := o.Obj.NewStateObject()
		if reflect.TypeOf(n) != reflect.TypeOf(o.Obj) || n == o.Obj || proto.Size(n) != 0 {
			fail(pkg, "NewStateObject of %s gives %T", o.Kind, n)
		}
		if o.Schema.PrimaryKey != o.PK || o.Schema.Singleton != o.Singleton || !reflect.DeepEqual(append([]string{}, o.Schema.SecondaryKeys...), append([]string{}, o.SK...)) {
			fail(pkg, "schema of %s is %v, its definition says singleton=%v pk=%s sk=%v", o.Kind, o.Schema, o.Singleton, o.PK, o.SK)
			return
		}
		if err := r.store.RegisterObject(o.Obj, o.Schema); err != nil {
			fail(pkg, "schema of %s is refused: %v", o.Kind, err)
			return
		}
	}
	cl := make([]reflect.Value, len(e.Objs))
	for i, o := range e.Objs {
		cl[i] = set.MethodByName(o.Method).Call(nil)[0]
		if cl[i].Kind() == reflect.Interface {
			// methods of the declared interface
			wantM := []string{"Create", "Delete", "Get", "Update"}
			if !o.Singleton {
				wantM = []string{"Create", "Delete", "Get", "List", "Update"}
			}
			if got := methodSet(cl[i].Type()); !reflect.DeepEqual(got, wantM) {
				fail(pkg, "client of %s has methods %v", o.Kind, got)
				return
			}
		}
	}
	same := func(cs []call, op string, o interface{}) bool {
		return len(cs) == 1 && cs[0].op == op && cs[0].obj == o
	}
	boom := errors.New("boom")
	// histories over all objects of the package interleaved
	keyOf := func(i int, o proto.Message) (interface{}, string) {
		if e.Objs[i].Singleton {
			return nil, "unique"
		}
		f := o.ProtoReflect().Descriptor().Fields().ByJSONName(e.Objs[i].PK)
		v := o.ProtoReflect().Get(f)
		return v.Interface(), string(encodeKey(v))
	}
	for step := 0; step < 90*len(e.Objs); step++ {
		i := rnd.Intn(len(e.Objs))
		oe, c := e.Objs[i], cl[i]
		o := oe.Obj.NewStateObject()
		if !oe.Singleton {
			f := o.ProtoReflect().Descriptor().Fields().ByJSONName(oe.PK)
			vs := keyValues(f.Kind())
			o.ProtoReflect().Set(f, protoreflect.ValueOf(vs[rnd.Intn(len(vs))]))
		}
		randomize(o, oe.PK)
		key, enc := keyOf(i, o)
		_, exists := model[i][enc]
		r.err = nil
		if rnd.Intn(6) == 0 {
			r.err = boom
		}
		switch op := []string{"Create", "Create", "Update", "Delete", "Get", "Get", "List", "List"}[rnd.Intn(8)]; op {
		case "Create", "Update", "Delete":
			var opt interface{}
			switch op {
			case "Create":
				opt = client.CreateOption(func() {})
			case "Update":
				opt = client.UpdateOption(func(*client.UpdateOptionsRaw) {})
			case "Delete":
				opt = client.DeleteOption(func() {})
			}
			args := []interface{}{o}
			for n := rnd.Intn(3); n > 0; n-- {
				args = append(args, opt)
			}
			res, cs := r.invoke(c, op, args...)
			err := errOf(res[0])
			if !same(cs, op, o) || cs[0].opts != len(args)-1 {
				fail(pkg, "%s of %s does %v", op, oe.Kind, cs)
				return
			}
			if r.err != nil {
				if err != boom {
					fail(pkg, "%s of %s loses the error: %v", op, oe.Kind, err)
				}
				continue
			}
			wantOK := exists == (op != "Create")
			if (err == nil) != wantOK {
				fail(pkg, "%s of %s (exists=%v): %v", op, oe.Kind, exists, err)
				return
			}
			if err == nil {
				if op == "Delete" {
					delete(model[i], enc)
				} else {
					model[i][enc] = proto.Clone(o)
				}
			}
			counts["writes"]++
		case "Get":
			var args []interface{}
			if !oe.Singleton {
				args = append(args, key)
			}
			h := 0
			if rnd.Intn(2) == 0 {
				h = 1 + rnd.Intn(9)
				args = append(args, client.GetAtHeight(uint64(h)))
			}
			res, cs := r.invoke(c, "Get", args...)
			if len(cs) != 1 || cs[0].op != "Get" || reflect.TypeOf(cs[0].obj) != reflect.TypeOf(oe.Obj) || string(cs[0].id) != enc || cs[0].opts != h {
				fail(pkg, "Get of %s %v does %v", oe.Kind, key, cs)
				return
			}
			err := errOf(res[1])
			if r.err != nil {
				if err != boom || !isNil(res[0]) {
					fail(pkg, "Get of %s loses the error: %v %v", oe.Kind, res[0], err)
				}
				continue
			}
			if (err == nil) != exists {
				fail(pkg, "Get of %s %v (exists=%v): %v", oe.Kind, key, exists, err)
				return
			}
			if err == nil && !proto.Equal(res[0].Interface().(proto.Message), model[i][enc]) {
				fail(pkg, "Get of %s %v gives %v, stored is %v", oe.Kind, key, res[0].Interface(), model[i][enc])
				return
			}
			counts["reads"]++
		case "List":
			if oe.Singleton || len(oe.SK) == 0 {
				continue
			}
			sk := oe.SK[rnd.Intn(len(oe.SK))]
			f := o.ProtoReflect().Descriptor().Fields().ByJSONName(sk)
			if f.IsList() {
				continue
			}
			v := o.ProtoReflect().Get(f).Interface()
			if b, ok := v.([]byte); ok && b == nil {
				v = []byte{}
			}
			res, cs := r.invoke(c, "List", client.ListMatchFieldInterface(sk, v))
			if len(cs) != 1 || cs[0].op != "List" || reflect.TypeOf(cs[0].obj) != reflect.TypeOf(oe.Obj) || cs[0].opts != 1 {
				fail(pkg, "List of %s does %v", oe.Kind, cs)
				return
			}
			err := errOf(res[1])
			if r.err != nil {
				if err != boom || !isNil(res[0]) {
					fail(pkg, "List of %s loses the error: %v %v", oe.Kind, res[0], err)
				}
				continue
			}
			matching := map[string]proto.Message{}
			for k, m := range model[i] {
				if string(encodeKey(m.ProtoReflect().Get(f))) == string(encodeKey(o.ProtoReflect().Get(f))) {
					matching[k] = m
				}
			}
			if err != nil {
				// the store answers a listing that matches nothing with an error
				if len(matching) > 0 {
					fail(pkg, "List of %s by %s: %v", oe.Kind, sk, err)
					return
				}
				counts["lists_empty"]++
				continue
			}
			it := res[0]
			n := 0
			for it.MethodByName("Valid").Call(nil)[0].Bool() {
				if n > 100 {
					fail(pkg, "List of %s does not end", oe.Kind)
					return
				}
				g := it.MethodByName("Get").Call(nil)
				if err := errOf(g[1]); err != nil {
					fail(pkg, "iterator of %s: %v", oe.Kind, err)
					return
				}
				got := g[0].Interface().(proto.Message)
				_, ge := keyOf(i, got)
				if m, ok := matching[ge]; !ok || !proto.Equal(m, got) {
					fail(pkg, "List of %s by %s=%v gives %v", oe.Kind, sk, v, got)
					return
				}
				delete(matching, ge)
				n++
				it.MethodByName("Next").Call(nil)
			}
			if len(matching) > 0 {
				fail(pkg, "List of %s by %s=%v misses %v", oe.Kind, sk, v, matching)
				return
			}
			counts["lists"]++
			if n > 0 {
				counts["listed"] += n
			}
		}
	}
	for _, t := range e.Trs {
		checkAPI(pkg, t.Tr, t.Group, t.Kind, meta.APIType_StateTransition)
		n := t.Tr.NewStateTransition()
		if reflect.TypeOf(n) != reflect.TypeOf(t.Tr) || n == t.Tr {
			fail(pkg, "NewStateTransition of %s gives %T", t.Kind, n)
		}
		for _, err := range []error{nil, boom} {
			r.err = err
			res, cs := r.invoke(set, t.Method, n)
			if !same(cs, "Deliver", n) {
				fail(pkg, "%s does %v", t.Method, cs)
			}
			if errOf(res[0]) != err {
				fail(pkg, "%s loses the error", t.Method)
			}
			counts["deliveries"]++
		}
	}
	counts["packages"]++
	counts["objects"] += len(e.Objs)
	counts["transitions"] += len(e.Trs)
	for _, o := range e.Objs {
		if o.Singleton {
			counts["singletons"]++
		} else {
			counts["pk_"+strings.ToLower(o.Obj.ProtoReflect().Descriptor().Fields().ByJSONName(o.PK).Kind().String())]++
		}
	}
}

func main() {
	for i := range table {
		table[i].run()
	}
	_ = out.Encode(map[string]interface{}{"counts": counts})
}
