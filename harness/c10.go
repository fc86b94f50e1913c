package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// keyType has one field "k" of the kind, which is primary and secondary key.
func keyType(i int) *ormType {
	st := scalarTypes[i]
	fd := dynFile(fmt.Sprintf("zz/key%d.proto", i), fmt.Sprintf("zzkey%d", i), []DynMsg{{Name: "Key", Fields: []DynField{{Name: "v", Type: tString}, {Name: "k", Type: st}, {Name: "s", Type: st}}}})
	t := &ormType{md: fd.Messages().Get(0), def: objDef("zz", fmt.Sprintf("Key%d", i)), sdef: &schema.Definition{PrimaryKey: "k", SecondaryKeys: []string{"s"}}, model: map[string]*Dyn{}}
	t.pk = t.md.Fields().ByName("k")
	sch, err := schema.NewSchema(t.New(), t.sdef)
	if err != nil {
		panic(err)
	}
	t.sch = sch
	return t
}

func randValue(r *rand.Rand, k protoreflect.Kind) interface{} {
	bits := uint(r.Intn(65))
	u := r.Uint64()
	if bits < 64 {
		u &= 1<<bits - 1
	}
	switch k {
	case protoreflect.StringKind:
		if chance(r, .3) {
			return strings.Repeat(pick(r, "a", "/", "\x00", "ü"), r.Intn(400))
		}
		return randText(r, r.Intn(200))
	case protoreflect.BytesKind:
		return randBytes(r, r.Intn(300))
	case protoreflect.BoolKind:
		return r.Intn(2) == 0
	case protoreflect.Int32Kind:
		return int32(u) * int32(1-2*r.Intn(2))
	case protoreflect.Int64Kind:
		return int64(u) * int64(1-2*r.Intn(2))
	case protoreflect.Uint32Kind:
		return uint32(u)
	default:
		return u
	}
}

// related gives values near v, or sharing low or high bits or a prefix with it.
func related(v interface{}) []interface{} {
	switch x := v.(type) {
	case string:
		return []interface{}{x + "a", x + "\x00", "a" + x, x + x, strings.ToUpper(x), x + "/", "\x01" + x}
	case []byte:
		return []interface{}{append(append([]byte{}, x...), 0), append([]byte{0}, x...), append([]byte{byte(len(x))}, x...), append(append([]byte{}, x...), x...)}
	case int32:
		return []interface{}{x + 1, -x, ^x, x ^ math.MinInt32, x << 7, int32(uint32(x) >> 1), x & 0x7f, x & 0xff}
	case int64:
		return []interface{}{x + 1, -x, ^x, x ^ math.MinInt64, x ^ 1<<32, x ^ 1<<31, int64(int32(x)), int64(uint32(x)), x << 7, x & 0x7f}
	case uint32:
		return []interface{}{x + 1, -x, ^x, x ^ 1<<31, x << 7, x & 0x7f}
	case uint64:
		return []interface{}{x + 1, -x, ^x, x ^ 1<<63, x ^ 1<<32, uint64(uint32(x)), x << 7, x & 0x7f}
	}
	return nil
}

func c10(c *Ctx) {
	c.Rule("one encoded value, distinct by (kind, value); texts distinct by (kind, text)")
	c.Assume("bytes have unpadded standard base64 as their textual form; numbers are decimal")
	c.Cases("encode", c.N(1120, 2800), c10encode)
	c.Cases("lookup", c.N(96, 600), c10lookup)
	c.Expect("values", 20000)
	c.Expect("texts_refused", 2000)
	c.Expect("texts_accepted", 2000)
	c.Expect("interfaces_refused", 1000)
	c.Expect("lookups", 2000)
	c.Expect("long_keys", 300)
}

func c10encode(k *Case) {
	r := k.R
	ki := k.Idx % len(scalarTypes)
	t := keyType(ki)
	kind := t.pk.Kind()
	ix, err := t.sch.Indexer("s")
	if err != nil {
		k.Fail("indexer", "no indexer for a declared secondary key: %v", err)
		return
	}
	enc := map[string]string{}
	one := func(v interface{}) {
		o := t.withKey(v)
		o.Set(o.fd("s"), protoreflect.ValueOf(v))
		id := fmt.Sprintf("%T %q", v, fmt.Sprint(v))
		b := t.sch.EncodePrimaryKey(o)
		k.Count("values", 1)
		k.Eval(id)
		if prev, ok := enc[string(b)]; ok && prev != id {
			k.Fail("collision", "%s: values %s and %s both encode to %x", kind, short(prev), short(id), b)
		}
		enc[string(b)] = id
		if s, ok := v.(string); ok && string(b) != s {
			k.Fail("content", "string key %s encodes to %x", short(id), b)
		}
		if s, ok := v.([]byte); ok && !bytes.Equal(b, s) {
			k.Fail("content", "bytes key %s encodes to %x", short(id), b)
		}
		form := func(name string, got []byte, err error) {
			if err != nil || !bytes.Equal(got, b) {
				k.Fail("form", "%s %s: %s form encodes to %x (%v), in-object primary key to %x", kind, short(id), name, got, err, b)
			}
		}
		form("secondary in-object", ix.MustEncodeFromObject(o), nil)
		g, err := ix.EncodeInterface(v)
		form("typed", g, err)
		g, err = ix.EncodeString(textOf(v))
		form("textual secondary", g, err)
		g, err = t.sch.EncodePrimaryKeyString(textOf(v))
		form("textual primary", g, err)
		if again := t.sch.EncodePrimaryKey(o); !bytes.Equal(again, b) {
			k.Fail("unstable", "%s %s encodes to %x and then %x", kind, short(id), b, again)
		}
		// returned bytes must be the caller's own
		if len(b) > 0 {
			b2 := t.sch.EncodePrimaryKey(o)
			b2[0] ^= 0xff
			if fmt.Sprint(o.Get(t.pk).Interface()) != fmt.Sprint(v) {
				k.Fail("alias", "%s: writing to an encoded key changes the object", kind)
				o.Set(t.pk, protoreflect.ValueOf(v))
			}
		}
	}
	for _, v := range valuesOf(r, kind, true) {
		one(v)
		for _, w := range related(v) {
			one(w)
		}
	}
	for i := 0; i < k.N(60, 400) && !k.Failed(); i++ {
		v := randValue(r, kind)
		one(v)
		for _, w := range related(v) {
			one(w)
		}
	}
	// typed values of other kinds
	for _, v := range []interface{}{nil, 1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), 1.0, true, "1", []byte("1"), []string{"1"}, [1]byte{1}, struct{}{}, new(string), protoreflect.ValueOfInt64(1), protoreflect.EnumNumber(1), 'x', error(nil), meta.NewStringID("1")} {
		if fmt.Sprintf("%T", v) == fmt.Sprintf("%T", t.pk.Default().Interface()) {
			continue
		}
		var b []byte
		var err error
		if p, st := safe(func() { b, err = ix.EncodeInterface(v) }); p != nil {
			k.FailData("panic", st, "%s: typed value %v (%T) panics: %v", kind, v, v, p)
		} else if err == nil {
			k.Fail("typed", "%s accepts a value of type %T as %x", kind, v, b)
		}
		k.Count("interfaces_refused", 1)
	}
	// texts: an independent parser says what they mean
	texts := []string{"", " ", "0", "-0", "+0", "1", "-1", "+1", "01", "1 ", " 1", "1.0", "1e3", "0x10", "1_000", "true", "false", "TRUE", "True", "t", "f", "yes", "no", "2", "127", "128", "255", "256",
		"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "340282366920938463463374607431768211456", "--1", "1-", "½", "١", "NaN", "null", "AA", "AA==", "A", "AAA", "AAA=", "!!", "a-_b", "a+/b", "\x00", "A A", "AA\n"}
	for i := 0; i < 30; i++ {
		n := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(70)+1)))
		if chance(r, .4) {
			n.Neg(n)
		}
		texts = append(texts, n.String())
	}
	for _, s := range texts {
		var b []byte
		var err error
		if p, st := safe(func() { b, err = ix.EncodeString(s) }); p != nil {
			k.FailData("panic", st, "%s: text %q panics: %v", kind, s, p)
			continue
		}
		b2, err2 := t.sch.EncodePrimaryKeyString(s)
		if (err == nil) != (err2 == nil) || !bytes.Equal(b, b2) {
			k.Fail("text", "%s: text %q encodes to %x (%v) as secondary and %x (%v) as primary key", kind, s, b, err, b2, err2)
		}
		k.Eval(kind.String() + " text " + s)
		if err != nil {
			k.Count("texts_refused", 1)
		} else {
			k.Count("texts_accepted", 1)
		}
		v, must, may := parseText(kind, s)
		if err == nil && !must && !may {
			k.Fail("text", "%s accepts the text %q as %x", kind, s, b)
			continue
		}
		if err != nil {
			if must {
				k.Fail("text", "%s refuses the text %q: %v", kind, s, err)
			}
			continue
		}
		o := t.withKey(v)
		if want := t.sch.EncodePrimaryKey(o); !bytes.Equal(want, b) {
			k.Fail("text", "%s: text %q encodes to %x, its value to %x", kind, s, b, want)
		}
	}
}

// parseText tells what a text means for a kind, whether it must be accepted
// (canonical form), or may be.
func parseText(kind protoreflect.Kind, s string) (v interface{}, must, may bool) {
	switch kind {
	case protoreflect.StringKind:
		return s, true, true
	case protoreflect.BytesKind:
		// decoded with an own base64 reader
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
		t := strings.NewReplacer("\n", "", "\r", "").Replace(s)
		var out []byte
		acc, bits := uint32(0), 0
		for i := 0; i < len(t); i++ {
			x := strings.IndexByte(al, t[i])
			if x < 0 {
				return nil, false, false
			}
			acc = acc<<6 | uint32(x)
			bits += 6
			if bits >= 8 {
				bits -= 8
				out = append(out, byte(acc>>uint(bits)))
			}
		}
		if bits == 6 {
			return nil, false, false
		}
		canon := acc&(1<<uint(bits)-1) == 0
		return out, canon && t == s, true
	case protoreflect.BoolKind:
		switch s {
		case "true":
			return true, true, true
		case "false":
			return false, true, true
		case "1", "t", "T", "TRUE", "True":
			return true, false, true
		case "0", "f", "F", "FALSE", "False":
			return false, false, true
		}
		return nil, false, false
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false, false
	}
	must = n.String() == s
	in := func(lo, hi *big.Int) bool { return n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 }
	p := func(e uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), e) }
	m1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }
	switch kind {
	case protoreflect.Int32Kind:
		if in(new(big.Int).Neg(p(31)), m1(p(31))) {
			return int32(n.Int64()), must, true
		}
	case protoreflect.Int64Kind:
		if in(new(big.Int).Neg(p(63)), m1(p(63))) {
			return n.Int64(), must, true
		}
	case protoreflect.Uint32Kind:
		if in(new(big.Int), m1(p(32))) {
			return uint32(n.Uint64()), must, true
		}
	case protoreflect.Uint64Kind:
		if in(new(big.Int), m1(p(64))) {
			return n.Uint64(), must, true
		}
	}
	return nil, false, false
}

// c10lookup stores objects under keys of any length and content and looks
// them up under exactly those bytes, through the application.
func c10lookup(k *Case) {
	r := k.R
	var ts []*ormType
	for i := range scalarTypes {
		ts = append(ts, keyType(i))
	}
	c, _, done := ormClient(k, ts)
	defer done()
	for _, t := range ts {
		kind := t.pk.Kind()
		var vs []interface{}
		for _, n := range []int{1, 2, 126, 127, 128, 129, 255, 256, 1000, 16383, 16384, 20000} {
			if kind == protoreflect.StringKind {
				vs = append(vs, strings.Repeat(pick(r, "a", "/", "\x00", "\x01"), n))
			} else if kind == protoreflect.BytesKind {
				vs = append(vs, randBytes(r, n))
			}
		}
		vs = append(vs, valuesOf(r, kind, true)...)
		for i := 0; i < 10; i++ {
			vs = append(vs, randValue(r, kind))
		}
		for n, v := range vs {
			o := t.withKey(v).set("v", fmt.Sprint(n))
			mk := t.modelKey(o)
			if t.emptyKey(o) || t.model[mk] != nil {
				continue
			}
			o.Set(o.fd("s"), protoreflect.ValueOf(v))
			if err := c.Create(o); err != nil {
				k.Fail("create", "%s key %s cannot be stored: %v", kind, short(mk), err)
				return
			}
			t.model[mk] = o
		}
		for mk, o := range t.model {
			got := t.New()
			k.Count("lookups", 1)
			id := t.id(o)
			if len(id.Bytes()) > 127 {
				k.Count("long_keys", 1)
			}
			k.Eval(fmt.Sprint("lookup", kind, mk))
			if err := c.Get(id, got); err != nil || !same(got, o) {
				k.Fail("lookup", "%s key %s (%d bytes) is not found under its content: %v, %s", kind, short(mk), len(id.Bytes()), err, short(got.String()))
			}
			if kind == protoreflect.StringKind || kind == protoreflect.BytesKind {
				for _, wrong := range [][]byte{append(append([]byte{}, id.Bytes()...), 0), append([]byte{byte(len(id.Bytes()))}, id.Bytes()...), id.Bytes()[:len(id.Bytes())-1]} {
					if len(wrong) == 0 || t.model[fmt.Sprintf("%q", fmt.Sprint(map[bool]interface{}{true: string(wrong), false: wrong}[kind == protoreflect.StringKind]))] != nil {
						continue
					}
					if err := c.Get(meta.NewBytesID(wrong), t.New()); err == nil {
						k.Fail("lookup", "%s: an object is found under %x, which no key equals", kind, wrong)
					}
				}
			}
		}
	}
	_ = math.Pi
}

// ---- C11 ----

func c11(c *Ctx) {
	c.Rule("one key-value call or one complete iteration, distinct by (operation, key or range, result)")
	c.Assume("reference: sorted Go map; range bounds both included, empty end unbounded")
	c.Cases("history", c.N(768, 3000), c11history)
	c.Expect("gets", 2000)
	c.Expect("deletes_existing", 300)
	c.Expect("deletes_missing", 300)
	c.Expect("prefix_iterations", 1000)
	c.Expect("range_iterations", 1000)
	c.Expect("stale_iterations", 300)
	c.Expect("stores_released", 700)
}

type kvIter struct {
	it     kv.Iterator
	want   [][2]string
	what   string
	writes int
	closed bool
}

func c11history(k *Case) {
	r := k.R
	var st kv.KV
	var db []*badger.DB
	db = captureDBs(func() { st = kv.NewBadger() })
	defer closeDBs(db)
	model := map[string]string{}
	pool := []string{"a", "b", "aa", "ab", "a/", "a/b", "a/b/c", "\x00", "\x00\x00", "\x01", "\xff", "\xff\xff", "\xffa", "a\xff", "a\xff\xff", "b\x00", "~", strings.Repeat("k", 127), strings.Repeat("k", 128), strings.Repeat("k", 300), strings.Repeat("k", 1000), strings.Repeat("kl", 20000), "A", "B"}
	for i := 0; i < 8; i++ {
		pool = append(pool, string(randBytes(r, 1+r.Intn(6))))
	}
	key := func() string { return pool[r.Intn(len(pool))] }
	part := func() string { // bounds and prefixes, also of keys
		s := key()
		if chance(r, .5) {
			s = s[:r.Intn(len(s)+1)]
		}
		return s
	}
	type kept struct {
		b    []byte
		want string
		what string
	}
	var keptVals []kept
	writes := 0
	snapshot := func(in func(string) bool, strip int) (out [][2]string) {
		var ks []string
		for x := range model {
			if in(x) {
				ks = append(ks, x)
			}
		}
		sort.Strings(ks)
		for _, x := range ks {
			out = append(out, [2]string{x[strip:], model[x]})
		}
		return
	}
	open := func() *kvIter {
		x := &kvIter{writes: writes}
		if chance(r, .5) {
			p := part()
			x.what = fmt.Sprintf("IteratePrefix(%s)", short(fmt.Sprintf("%q", p)))
			x.want = snapshot(func(s string) bool { return strings.HasPrefix(s, p) }, len(p))
			x.it = st.IteratePrefix([]byte(p))
			k.Count("prefix_iterations", 1)
		} else {
			a, b := part(), part()
			if chance(r, .1) {
				b = ""
			}
			if chance(r, .8) && b != "" && a > b {
				a, b = b, a
			}
			x.what = fmt.Sprintf("Iterate(%s, %s)", short(fmt.Sprintf("%q", a)), short(fmt.Sprintf("%q", b)))
			x.want = snapshot(func(s string) bool { return s >= a && (b == "" || s <= b) }, 0)
			var eb []byte
			if b != "" {
				eb = []byte(b)
			}
			x.it = st.Iterate([]byte(a), eb)
			k.Count("range_iterations", 1)
		}
		return x
	}
	drain := func(x *kvIter, max int) (finished bool) {
		for i := 0; i < max; i++ {
			if !x.it.Valid() {
				if len(x.want) > 0 {
					k.Fail("iterate", "%s ended before %q (%d left)", x.what, x.want[0][0], len(x.want))
				}
				return true
			}
			gk, gv := string(x.it.Key()), x.it.Value()
			if len(x.want) == 0 {
				k.Fail("iterate", "%s visits %q which is outside or twice", x.what, gk)
				return true
			}
			if gk != x.want[0][0] || string(gv) != x.want[0][1] {
				k.Fail("iterate", "%s visits (%q, %s) instead of (%q, %s)", x.what, short(gk), short(string(gv)), short(x.want[0][0]), short(x.want[0][1]))
				return true
			}
			keptVals = append(keptVals, kept{gv, x.want[0][1], "value of " + x.what})
			x.want = x.want[1:]
			x.it.Next()
		}
		return false
	}
	var opened []*kvIter
	defer func() {
		for _, x := range opened {
			x.it.Close()
		}
		if k.Failed() {
			return
		}
		k.Count("stores_released", 1)
		if openReads(db) > 0 {
			k.Fail("held", "the store still has a transaction open for reading after every iterator was closed")
		}
	}()
	for i := 0; i < k.N(250, 400) && !k.Failed(); i++ {
		ky := key()
		v, has := model[ky]
		switch r.Intn(7) {
		case 0, 1:
			nv := string(randBytes(r, []int{0, 1, 10, 300, 5000, 300, 10, 1, 0, 20000, 70000}[r.Intn(11)]))
			kb, vb := []byte(ky), []byte(nv)
			st.Set(kb, vb)
			for j := range kb { // the store must have its own copy
				kb[j] ^= 0x55
			}
			for j := range vb {
				vb[j] ^= 0x55
			}
			model[ky] = nv
			writes++
		case 2:
			got, ok := st.Get([]byte(ky))
			k.Count("gets", 1)
			k.Eval(fmt.Sprintf("get %q %q", ky, v))
			if ok != has || string(got) != v {
				k.Fail("get", "get %q: (%s, %v), last written (%s, %v)", short(ky), short(string(got)), ok, short(v), has)
			}
			if ok {
				keptVals = append(keptVals, kept{got, v, "value got"})
			}
		case 3:
			k.Eval(fmt.Sprintf("has %q %v", ky, has))
			if st.Has([]byte(ky)) != has {
				k.Fail("has", "has %q is %v", short(ky), !has)
			}
		case 4:
			if has != chance(r, .6) { // balance deletions
				break
			}
			if has {
				k.Count("deletes_existing", 1)
			} else {
				k.Count("deletes_missing", 1)
			}
			k.Eval(fmt.Sprintf("delete %q %v", ky, has))
			if st.Delete([]byte(ky)) != has {
				k.Fail("delete", "deleting %q reports %v", short(ky), !has)
			}
			delete(model, ky)
			writes++
		case 5:
			x := open()
			k.Eval(fmt.Sprint(x.what, x.want))
			if chance(r, .4) && len(opened) < 4 {
				drain(x, r.Intn(3))
				opened = append(opened, x)
			} else {
				drain(x, 1<<20)
				x.it.Close()
			}
		case 6:
			if len(opened) == 0 {
				break
			}
			j := r.Intn(len(opened))
			x := opened[j]
			if x.writes != writes {
				k.Count("stale_iterations", 1)
			}
			x.what += fmt.Sprintf(" (opened %d writes ago)", writes-x.writes)
			if drain(x, r.Intn(6)) {
				x.it.Close()
				opened = append(opened[:j], opened[j+1:]...)
			}
		}
		if i%50 == 49 {
			for _, x := range keptVals {
				if string(x.b) != x.want {
					k.Fail("alias", "%s changed after it was returned", x.what)
				}
			}
			if len(keptVals) > 2000 {
				keptVals = nil
			}
		}
	}
	for _, ky := range pool {
		v, has := model[ky]
		got, ok := st.Get([]byte(ky))
		if ok != has || string(got) != v {
			k.Fail("get", "finally get %q: (%s, %v), last written (%s, %v)", short(ky), short(string(got)), ok, short(v), has)
		}
	}
}
