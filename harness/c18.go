package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync/atomic"
	"time"

	"github.com/fdymylja/tmos/core/apiserver"
	"github.com/fdymylja/tmos/core/apiserver/router"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"gopkg.in/yaml.v3"
)

func c18(c *Ctx) {
	c.Rule("one HTTP request, distinct by (path, query, expected answer)")
	c.Assume("keys and values are percent-encoded by the client, one field selection per listing; kinds of a group differ in more than case and a trailing s",
		"a selection nothing matches may answer an error or an empty list; ranges and heights are not implemented by the runtime and not exercised")
	c.Cases("objects", c.N(960, 3600), c18objects)
	c.CasesW("service", 1, 1, c18service)
	c.Expect("get_200", 2000)
	c.Expect("get_404", 2000)
	c.Expect("get_400", 400)
	c.Expect("list_matching", 1000)
	c.Expect("list_multi", 200)
	c.Expect("list_long", 5)
	c.Expect("stores_released", 700)
	c.Expect("list_bad", 500)
	c.Expect("singleton", 100)
	c.Expect("hostile", 2000)
	c.Expect("spec_paths", 300)
}

var familySeq int64

// httpTypes makes up globally registered types with distinct paths.
func httpTypes(r *rand.Rand, n int) []*ormType {
	fam := fmt.Sprintf("h%d", atomic.AddInt64(&familySeq, 1))
	return newORMTypesIn(r, n, false, fam, []string{"A", "AB", "A1", "Thing", "obJect", "C", "UPPER", "v"}, []string{"zz", "zz.V1", "zz.a"})
}

type clientService struct {
	module.BaseService
	c client.Client
}

func (s *clientService) Name() string              { return "reader" }
func (s *clientService) SetClient(c client.Client) { s.c = c }
func (s *clientService) Start() error              { return nil }
func (s *clientService) Stop() error               { return nil }

type serviceModule struct{ s *clientService }

func (m serviceModule) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("zzservice").WithExtensionService(m.s).Build()
}

// escapeAll percent-encodes text for a path segment or a query value; how much
// of it is encoded varies.
func escapeAll(r *rand.Rand, s string) string {
	var b strings.Builder
	all := chance(r, .3)
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '~'
		if plain && !all {
			b.WriteByte(c)
		} else if chance(r, .5) {
			fmt.Fprintf(&b, "%%%02X", c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

// escapeKey encodes a key for a path segment as one of several clients would.
func escapeKey(r *rand.Rand, s string) string {
	if s != "." && s != ".." && chance(r, .4) {
		return url.PathEscape(s) // leaves + $ & = : @ as they are
	}
	return escapeAll(r, s)
}

func typePath(t *ormType) string {
	return "/" + strings.ToLower(t.def.Group) + "/" + strings.ToLower(t.def.Kind)
}

type httpCase struct {
	k *Case
	h http.Handler
}

// do serves one request; a panic of a handler is a violation.
func (h *httpCase) do(method, target string, body io.Reader, header ...string) (int, string) {
	var req *http.Request
	if pv, _ := safe(func() { req = httptest.NewRequest(method, target, body) }); pv != nil {
		return -1, "" // not a request
	}
	for i := 0; i+1 < len(header); i += 2 {
		req.Header.Set(header[i], header[i+1])
	}
	rec := httptest.NewRecorder()
	if pv, st := safe(func() { h.h.ServeHTTP(rec, req) }); pv != nil {
		h.k.FailData("panic", st, "%s %q panics: %v", method, short(target), pv)
		return -1, ""
	}
	return rec.Code, rec.Body.String()
}

func malformedKeys(k protoreflect.Kind) []string {
	switch k {
	case protoreflect.BoolKind:
		return []string{"maybe", "yes", "2", "truex", "%00"}
	case protoreflect.Int32Kind:
		return []string{"x", "1.0", "2147483648", "-2147483649", "1e3", "99999999999999999999", "%20", "0x1"}
	case protoreflect.Uint32Kind:
		return []string{"x", "-1", "4294967296", "1.0", "0x1"}
	case protoreflect.Int64Kind:
		return []string{"x", "9223372036854775808", "-9223372036854775809", "1.5"}
	case protoreflect.Uint64Kind:
		return []string{"x", "-1", "18446744073709551616", "1.5"}
	case protoreflect.BytesKind:
		return []string{"!!!!", "a", "%20%20%20%20", "abc%3D%3D"}
	}
	return nil
}

func c18objects(k *Case) {
	r := k.R
	ts := httpTypes(r, 4+r.Intn(3))
	m := &ormModule{types: ts}
	svc := &clientService{}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		b.AddModule(serviceModule{svc})
		if run, err = b.Build(); err == nil {
			err = run.InitGenesis()
		}
	})
	defer closeDBs(dbs)
	defer k.checkReleased(dbs, "every HTTP request was answered")
	if err != nil || svc.c == nil {
		k.Fail("build", "cannot start an application with valid objects and a service: %v", err)
		return
	}
	b := router.NewBuilder(svc.c)
	var paths []string
	for _, t := range ts {
		if err := b.CreateStateObjectHandler(t.New(), t.sdef); err != nil {
			k.Fail("handler", "no handler for %s: %v", t.def.Name(), err)
			return
		}
		if t.pk == nil {
			paths = append(paths, typePath(t))
		} else {
			paths = append(paths, typePath(t)+"/{}", typePath(t)+"s")
		}
	}
	mux, err := b.Build()
	if err != nil {
		k.Fail("handler", "router is not built: %v", err)
		return
	}
	h := &httpCase{k: k, h: mux}

	get := func(t *ormType, key interface{}) {
		probe := t.withKey(key)
		path := typePath(t)
		if t.pk != nil {
			if t.emptyKey(probe) {
				return
			}
			path += "/" + escapeKey(r, textOf(key))
		}
		want := t.model[t.modelKey(probe)]
		code, body := h.do("GET", path, nil)
		k.Eval(fmt.Sprint(path, want != nil))
		if t.pk == nil {
			k.Count("singleton", 1)
		}
		if want == nil {
			k.Count("get_404", 1)
			if code != 404 {
				k.Fail("absent", "GET %q of absent %s %s answers %d %s", short(path), t.def.Name(), short(t.modelKey(probe)), code, short(body))
			}
			return
		}
		k.Count("get_200", 1)
		got := t.New()
		if code != 200 {
			k.Fail("get", "GET %q of stored %s answers %d %s", short(path), short(t.modelKey(probe)), code, short(body))
		} else if err := protojson.Unmarshal([]byte(body), got.Message); err != nil || !same(got, want) {
			k.Fail("get", "GET %q answers %s (%v), stored is %s", short(path), short(body), err, short(want.String()))
		} else if ref, err := protojson.Marshal(want.Message); err == nil && !sameJSON([]byte(body), ref) {
			k.Fail("get", "GET %q answers %s, stored is in JSON %s", short(path), short(body), short(string(ref)))
		}
	}
	list := func(t *ormType, f protoreflect.FieldDescriptor, v interface{}) {
		sel := f.JSONName() + "=" + textOf(v)
		path := typePath(t) + "s?" + router.QueryParamSelectField + "=" + escapeAll(r, sel)
		if chance(r, .3) {
			path = typePath(t) + "s?" + url.Values{router.QueryParamSelectField: {sel}}.Encode()
		}
		if chance(r, .15) { // parameters which mean nothing
			more := pick(r, "page=2", "limit=1&offset=3&q=a&lang=en&x=", "selectfield=nofield%3D1", "Start=x&End=y&height=7")
			if i := strings.Index(path, "?"); chance(r, .5) {
				path = path[:i+1] + more + "&" + path[i+1:]
			} else {
				path += "&" + more
			}
			k.Count("list_more_parameters", 1)
		}
		want := map[string]*Dyn{}
		for mk, o := range t.model {
			if fmt.Sprint(o.Get(f).Interface()) == fmt.Sprint(v) {
				want[mk] = o
			}
		}
		code, body := h.do("GET", path, nil)
		k.Eval(fmt.Sprint(path, len(want)))
		if code != 200 {
			if len(want) > 0 || code >= 500 || code < 400 {
				k.Fail("list", "GET %q answers %d %s, %d objects match", short(path), code, short(body), len(want))
			}
			return
		}
		var l struct{ List []json.RawMessage }
		if err := json.Unmarshal([]byte(body), &l); err != nil {
			k.Fail("list", "GET %q answers what is not a JSON list: %v %s", short(path), err, short(body))
			return
		}
		if len(want) > 0 {
			k.Count("list_matching", 1)
		}
		if len(want) > 1 {
			k.Count("list_multi", 1)
		}
		if len(want) > 100 {
			k.Count("list_long", 1)
		}
		seen := map[string]bool{}
		for _, e := range l.List {
			o := t.New()
			if err := protojson.Unmarshal(e, o.Message); err != nil {
				k.Fail("list", "GET %q lists %s: %v", short(path), short(string(e)), err)
				continue
			}
			mk := t.modelKey(o)
			if want[mk] == nil || !same(want[mk], o) {
				k.Fail("list", "GET %q lists %s which does not match or is not what is stored", short(path), short(string(e)))
			} else if ref, err := protojson.Marshal(o.Message); err == nil && !sameJSON(e, ref) {
				k.Fail("list", "GET %q lists %s, which is in JSON %s", short(path), short(string(e)), short(string(ref)))
			}
			if seen[mk] {
				k.Fail("list", "GET %q lists %s twice", short(path), short(mk))
			}
			seen[mk] = true
		}
		if len(seen) != len(want) {
			k.Fail("list", "GET %q lists %d of %d matching objects", short(path), len(seen), len(want))
		}
	}
	write := func(t *ormType, o *Dyn, del bool) bool {
		mk := t.modelKey(o)
		var err error
		switch {
		case t.model[mk] == nil:
			err = m.c.Create(o.copy())
			t.model[mk] = o
		case del:
			err = m.c.Delete(o.copy())
			delete(t.model, mk)
		default:
			err = m.c.Update(o.copy())
			t.model[mk] = o
		}
		if err != nil {
			k.Fail("write", "%s %s: %v", t.def.Name(), mk, err)
			k.Abort()
		}
		return true
	}
	for _, t := range ts { // singletons and objects before they exist
		get(t, t.keys[0])
	}
	for i := 0; i < 50 && !k.Failed(); i++ {
		t := ts[r.Intn(len(ts))]
		key := t.keys[r.Intn(min(len(t.keys), 16))]
		o := t.withKey(key)
		if t.emptyKey(o) {
			continue
		}
		t.randomize(r, o)
		write(t, o, chance(r, .25))
		get(t, key)
		get(t, t.keys[r.Intn(len(t.keys))])
		ot := ts[r.Intn(len(ts))]
		get(ot, ot.keys[r.Intn(len(ot.keys))])
		for _, x := range []*ormType{t, ot} {
			if len(x.idx) > 0 {
				f := x.idx[r.Intn(len(x.idx))]
				vs := x.pool[f.Name()]
				list(x, f, vs[r.Intn(len(vs))])
			}
		}
	}
	// more objects than the default range
	if k.Idx%4 == 0 && !k.Failed() {
		for _, t := range ts {
			if t.pk == nil || len(t.idx) == 0 || t.pk.Kind() != protoreflect.StringKind && t.pk.Kind() != protoreflect.Uint64Kind || t.idx[0].Name() == t.pk.Name() {
				continue
			}
			f := t.idx[0]
			v := t.pool[f.Name()][0]
			many := 130
			if k.Idx%16 == 0 {
				many = 1100
			}
			for i := 0; i < many; i++ {
				var key interface{} = fmt.Sprintf("many%d", i)
				if t.pk.Kind() == protoreflect.Uint64Kind {
					key = uint64(77000 + i)
				}
				o := t.withKey(key)
				o.Set(f, protoreflect.ValueOf(v))
				write(t, o, false)
			}
			list(t, f, v)
			break
		}
	}
	if k.Failed() {
		return
	}
	before := dumpDBs(dbs)
	// requests which are refused
	bad := func(path string, hdr ...string) {
		code, body := h.do("GET", path, nil, hdr...)
		if code != 400 {
			k.Fail("bad", "GET %q %q answers %d %s, expected 400", short(path), hdr, code, short(body))
		}
		k.Eval("bad" + path)
	}
	for _, t := range ts {
		p := typePath(t)
		if t.pk == nil {
			if code, _ := h.do("GET", p+"/unique", nil); code != 404 {
				k.Fail("bad", "GET %q answers %d", p+"/unique", code)
			}
			continue
		}
		for _, x := range malformedKeys(t.pk.Kind()) {
			bad(p + "/" + x)
			k.Count("get_400", 1)
		}
		key := t.keys[0]
		if !t.emptyKey(t.withKey(key)) {
			for _, x := range []string{"x", "-1", "1.5", "18446744073709551616"} {
				bad(p+"/"+escapeKey(r, textOf(key)), router.HeightHeader, x)
			}
		}
		sf := "s?" + router.QueryParamSelectField + "="
		bads := []string{sf + "nofield=1", sf + "val=x", sf + "=x", sf + "x", sf + "num%3D5"}
		if len(t.idx) > 0 {
			f := t.idx[0]
			bads = append(bads, sf+f.JSONName())
			for _, x := range malformedKeys(f.Kind()) {
				bads = append(bads, sf+f.JSONName()+"%3D"+x)
			}
			ok := f.JSONName() + "%3D" + url.QueryEscape(textOf(t.pool[f.Name()][0]))
			bads = append(bads, sf+ok+"&start=x", sf+ok+"&end=-1", sf+ok+"&start=1.5")
			if f.JSONName() != string(f.Name()) { // the proto name is not the field's name here
				k.Count("proto_named", 1)
			}
		}
		for _, x := range bads {
			skip := false
			for _, f := range t.idx { // val and num may not be indexed, x never
				if strings.Contains(x, "="+f.JSONName()+"=") {
					skip = true
				}
			}
			if !skip {
				bad(p + x)
				k.Count("list_bad", 1)
			}
		}
	}
	// other methods and hostile requests
	for i := 0; i < 60; i++ {
		t := ts[r.Intn(len(ts))]
		p := typePath(t)
		key := escapeKey(r, textOf(t.keys[r.Intn(len(t.keys))]))
		method := pick(r, "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "TRACE", "GET", "get")
		target := pick(r, p, p+"s", p+"/"+key, p+"/"+key+"/", "/", "//", "/spec", "/spec/", p+"/../"+key, p+"/%2e%2e/"+key, p+"//"+key, strings.ToUpper(p)+"/"+key, "/%00", "/nope/nope/nope", p+"s?%zz", p+"s?selectField=%zz", p+"s?selectField", p+"s?selectField=&selectField=", p+"s?start=0&end=0", p+"/"+strings.Repeat("a", 70000), p+"s?selectField=i%3D"+strings.Repeat("a", 70000), p+"/%ff", p+"/%", p+"s?selectField=i1%3D%ff%fe")
		code, body := h.do(method, target, strings.NewReader(pick(r, "", "{}", `{"id":"a"}`, "\x00\xff")), "Content-Type", "application/json", router.HeightHeader, pick(r, "", "", "0", "-1", "x", "\x00"))
		k.Count("hostile", 1)
		k.Eval(fmt.Sprint(method, target))
		if code >= 500 {
			k.Fail("hostile", "%s %q answers %d %s", method, short(target), code, short(body))
		}
		if code == 200 && (method == "POST" || method == "PUT" || method == "DELETE" || method == "PATCH") && target != "/spec" {
			k.Fail("hostile", "%s %q answers 200 %s", method, short(target), short(body))
		}
	}
	for _, t := range ts {
		get(t, t.keys[r.Intn(len(t.keys))])
	}
	if d := diffDump(before, dumpDBs(dbs)); len(d) > 0 {
		k.Fail("effect", "HTTP requests changed %q", d)
	}
	h.spec(paths)
}

// spec compares the served specification's paths with the expected ones.
func (h *httpCase) spec(paths []string) {
	k := h.k
	code, body := h.do("GET", "/spec", nil)
	h.judgeSpec(code, body, paths)
	_ = k
}

func (h *httpCase) judgeSpec(code int, body string, paths []string) {
	k := h.k
	var doc struct {
		Paths map[string]interface{} `yaml:"paths"`
	}
	if err := yaml.Unmarshal([]byte(body), &doc); code != 200 || err != nil {
		k.Fail("spec", "/spec answers %d (%v)", code, err)
		return
	}
	got := map[string]bool{}
	for p := range doc.Paths {
		if i := strings.LastIndex(p, "/{"); i >= 0 && strings.HasSuffix(p, "}") {
			p = p[:i] + "/{}"
		}
		got[p] = true
	}
	for _, p := range paths {
		k.Count("spec_paths", 1)
		if !got[p] {
			k.Fail("spec", "the specification does not name %s: %v", p, got)
		}
	}
}

// c18service runs the server module of a chain on its real port.
func c18service(k *Case) {
	l, err := net.Listen("tcp", ":8080")
	if err != nil {
		k.Count("port_taken", 1)
		return
	}
	l.Close()
	cfg := defaultHist()
	cfg.Steps, cfg.Keep = 20, true
	svc := &clientService{}
	o := histOpts(k.R, cfg)
	o.Extra = append(o.Extra, serviceModule{svc})
	cfg.Opts = &o
	hist := runHistory(k, cfg, func(*Hist, *Step) {})
	defer hist.W.Close()
	s := apiserver.NewService()
	s.SetClient(svc.c)
	if err := s.Start(); err != nil {
		k.Fail("service", "api server does not start: %v", err)
		return
	}
	base := "http://127.0.0.1:8080"
	hc := &http.Client{Timeout: 20 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	get := func(path string) (int, string) {
		resp, err := hc.Get(base + path)
		if err != nil {
			return -1, err.Error()
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		return resp.StatusCode, string(b)
	}
	up := false
	for i := 0; i < 100 && !up; i++ {
		code, _ := get("/spec")
		if up = code == 200; !up {
			time.Sleep(100 * time.Millisecond)
		}
	}
	if !up {
		k.Fail("service", "api server does not answer /spec")
		return
	}
	v := hist.W.View()
	one := func(o apiObject, id string, want proto.Message) {
		d := o.APIDefinition()
		code, body := get("/" + strings.ToLower(d.Group) + "/" + strings.ToLower(d.Kind) + "/" + escapeAll(k.R, id))
		got := o.ProtoReflect().New().Interface()
		if want == nil {
			if code != 404 {
				k.Fail("service", "GET of absent %s %q answers %d %s", d.Kind, id, code, short(body))
			}
		} else if code != 200 || protojson.Unmarshal([]byte(body), got) != nil || !proto.Equal(got, want) {
			k.Fail("service", "GET of %s %q answers %d %s, stored is %v", d.Kind, id, code, short(body), want)
		} else if ref, err := protojson.Marshal(want); err == nil && !sameJSON([]byte(body), ref) {
			k.Fail("service", "GET of %s %q answers %s, stored is in JSON %s", d.Kind, id, short(body), short(string(ref)))
		}
		k.Count("service", 1)
		k.Eval(d.Kind + id)
	}
	n := 0
	for id, a := range v.Acc {
		one(a, id, a)
		one(a, id+"x", nil)
		n++
	}
	for id, ro := range v.Roles {
		one(ro, id, ro)
		one(ro, id+"/", nil)
		n++
	}
	for id, p := range v.Posts {
		one(p, id, p)
	}
	if n < 5 {
		k.Fail("service", "only %d objects", n)
	}
	if code, _ := get("/nothing"); code != 404 {
		k.Fail("service", "unknown path answers %d", code)
	}
	if err := s.Stop(); err != nil {
		k.Fail("service", "api server does not stop: %v", err)
	}
	if code, _ := get("/spec"); code != -1 {
		k.Fail("service", "api server answers after it was stopped")
	}
}
