package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/fdymylja/tmos/core/meta"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	remote "github.com/fdymylja/tmos/pkg/client"
	"github.com/fdymylja/tmos/pkg/spfcli"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/tendermint/tendermint/abci/types"
	tmbytes "github.com/tendermint/tendermint/libs/bytes"
	"github.com/tendermint/tendermint/libs/log"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	rpcserver "github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

func c23(c *Ctx) {
	c.Rule("one query, distinct by (type, identifier, answer)")
	c.Assume("the remote client is served by Tendermint's own JSON-RPC server with the application behind abci_query",
		"heighted queries are not implemented by the runtime and not exercised; identifiers of non-string keys are their key bytes")
	c.Cases("types", c.N(300, 1500), c23types)
	c.Cases("chain", c.N(32, 200), c23chain)
	c.CasesW("cli", c.N(4, 20), 1, c23cli)
	c.Expect("large_groups", 3)
	c.Expect("found", 4000)
	c.Expect("absent", 4000)
	c.Expect("malformed", 1000)
	c.Expect("remote_found", 500)
	c.Expect("remote_absent", 500)
	c.Expect("resources", 100)
	c.Expect("cli_found", 20)
	c.Expect("cli_absent", 20)
}

// rpcNode serves the application's queries as a Tendermint node does.
func rpcNode(app rt.ABCIApplication) *httptest.Server {
	mux := http.NewServeMux()
	rpcserver.RegisterRPCFuncs(mux, map[string]*rpcserver.RPCFunc{
		"abci_query": rpcserver.NewRPCFunc(func(_ *rpctypes.Context, path string, data tmbytes.HexBytes, height int64, prove bool) (*ctypes.ResultABCIQuery, error) {
			r := app.Query(types.RequestQuery{Path: path, Data: data, Height: height, Prove: prove})
			return &ctypes.ResultABCIQuery{Response: r}, nil
		}, "path,data,height,prove"),
	}, log.NewNopLogger())
	return httptest.NewServer(mux)
}

type queried struct {
	k    *Case
	app  rt.ABCIApplication
	cl   remote.Client
	stop func()
}

func (q *queried) remote() {
	s := rpcNode(q.app)
	cl, err := remote.NewRPC(s.URL)
	if err != nil {
		q.k.Fail("client", "remote client refuses %s: %v", s.URL, err)
		q.k.Abort()
	}
	q.cl, q.stop = cl, s.Close
}

// get queries (group, kind, id) in every way and compares with want, which is
// nil if nothing is stored there.
func (q *queried) get(group, kind, id string, want proto.Message, fresh func() proto.Message) {
	k := q.k
	path := "get/" + group + "/" + kind + "/" + id
	req := types.RequestQuery{Path: path}
	if chance(k.R, .2) { // of no meaning to a get
		req.Data, req.Prove = randBytes(k.R, 1+k.R.Intn(9)), chance(k.R, .5)
	}
	r := q.app.Query(req)
	k.Eval(fmt.Sprint(path, want != nil))
	judge := func(how string, ok bool, val []byte, log string) {
		switch {
		case want == nil && ok:
			k.Fail("absent", "%s of absent %q answers %s", how, short(path), short(string(val)))
		case want != nil && !ok:
			k.Fail("found", "%s of stored %q fails: %s", how, short(path), short(log))
		case want != nil:
			o := fresh()
			if err := protojson.Unmarshal(val, o); err != nil {
				k.Fail("json", "%s of %q answers what is not JSON of the object: %v: %s", how, short(path), err, short(string(val)))
			} else if !proto.Equal(o, want) {
				k.Fail("value", "%s of %q answers %s, stored is %s", how, short(path), short(string(val)), short(fmt.Sprint(want)))
			} else if ref, err := protojson.Marshal(want); err == nil && !sameJSON(val, ref) {
				k.Fail("json", "%s of %q answers %s, the object in JSON is %s", how, short(path), short(string(val)), short(string(ref)))
			}
		}
	}
	judge("query", r.Code == 0, r.Value, r.Log)
	if want != nil {
		k.Count("found", 1)
	} else {
		k.Count("absent", 1)
		if r.Code != 0 && len(r.Value) > 0 {
			k.Fail("absent", "refused query %q has a value %s", short(path), short(string(r.Value)))
		}
	}
	if q.cl != nil && utf8.ValidString(path) && chance(k.R, .25) {
		b, err := q.cl.Get(context.Background(), group, kind, id)
		judge("remote get", err == nil, b, fmt.Sprint(err))
		if err == nil && !bytes.Equal(b, r.Value) {
			// JSON output is randomised in its spacing: compared by content above
			k.Count("remote_respaced", 1)
		}
		if want != nil {
			k.Count("remote_found", 1)
		} else {
			k.Count("remote_absent", 1)
		}
	}
}

func (q *queried) malformed(path string) {
	r := q.app.Query(types.RequestQuery{Path: path})
	q.k.Count("malformed", 1)
	q.k.Eval(path)
	if r.Code == 0 {
		q.k.Fail("malformed", "malformed query %q is answered: %s", short(path), short(string(r.Value)))
	}
}

// resources compares the listing with the registered object names.
func (q *queried) resources(want []string) {
	k := q.k
	flat := func(r *runtimev1alpha1.Resources) string {
		var l []string
		groups := map[string]bool{}
		for _, g := range r.ApiGroupResources {
			if groups[g.ApiGroup] {
				l = append(l, "twice "+g.ApiGroup)
			}
			groups[g.ApiGroup] = true
			for _, o := range g.StateObjects {
				l = append(l, g.ApiGroup+" "+o)
			}
		}
		sort.Strings(l)
		return strings.Join(l, ", ")
	}
	sort.Strings(want)
	ws := strings.Join(want, ", ")
	r := q.app.Query(types.RequestQuery{Path: "api_resources"})
	res := new(runtimev1alpha1.Resources)
	if err := protojson.Unmarshal(r.Value, res); r.Code != 0 || err != nil {
		k.Fail("resources", "resource query: code %d %s %v", r.Code, r.Log, err)
	} else if flat(res) != ws {
		k.Fail("resources", "resource query lists [%s], registered are [%s]", flat(res), ws)
	}
	k.Count("resources", 1)
	if q.cl != nil {
		rr, err := q.cl.Resources(context.Background())
		if err != nil || flat(rr) != ws {
			k.Fail("resources", "remote resources: %v, registered are [%s]", err, ws)
		}
		k.Count("remote_resources", 1)
	}
}

// stdObjects are the objects of the modules every application has.
func moduleObjects(get func(id meta.ID, o meta.StateObject) error) (l []string, err error) {
	d := new(runtimev1alpha1.ModuleDescriptors)
	if err := get(meta.SingletonID, d); err != nil {
		return nil, err
	}
	for _, m := range d.Modules {
		for _, o := range m.StateObjects {
			l = append(l, o.ApiDefinition.Group+" "+o.ApiDefinition.Kind)
		}
	}
	return l, nil
}

// nearMisses are identifiers close to a stored one.
func nearMisses(k *Case, id string) []string {
	l := []string{id + "/", "/" + id, id + "\x00", strings.ToUpper(id), strings.ToLower(id), " " + id, id + " ", strings.Replace(id, "/", "%2F", -1), strings.Replace(id, "%2F", "/", -1), id + "/" + id, strings.TrimSpace(id), strings.Trim(id, "/"), strings.Replace(id, "//", "/", -1)}
	if len(id) > 1 {
		l = append(l, id[:len(id)-1], id[1:], strings.SplitN(id, "/", 2)[0])
	}
	return append(l, "unique", "", "x")
}

func c23types(k *Case) {
	r := k.R
	ts := newORMTypes(r, 4+r.Intn(4), chance(r, .3))
	if chance(r, .15) { // many kinds in few groups
		var kinds []string
		for i := 0; i < 40; i++ {
			kinds = append(kinds, fmt.Sprintf("Kind%d", i))
		}
		ts = newORMTypesIn(r, 12+r.Intn(25), false, "", kinds, []string{"zz", "zz.v1", "zz"})
		k.Count("large_groups", 1)
	}
	m := &ormModule{types: ts}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		run, err = b.Build()
	})
	defer closeDBs(dbs)
	defer k.checkReleased(dbs, "every query was answered")
	if err != nil {
		k.Fail("build", "cannot register valid objects: %v", err)
		return
	}
	q := &queried{k: k, app: rt.NewABCIApplication(run)}
	if k.Idx%4 == 0 {
		q.remote()
		defer q.stop()
	}
	var want []string
	for _, t := range ts {
		t.json = true
		want = append(want, t.def.Group+" "+t.def.Kind)
	}
	// objects the runtime's own modules register
	want = append(want, ownObjects()...)
	q.resources(want)
	idOf := func(t *ormType, d *Dyn) string { return string(t.id(d).Bytes()) }
	for i := 0; i < 60 && !k.Failed(); i++ {
		t := ts[r.Intn(len(ts))]
		key := t.keys[r.Intn(min(len(t.keys), 14))]
		o := t.withKey(key)
		if t.emptyKey(o) {
			continue
		}
		t.randomize(r, o)
		mk := t.modelKey(o)
		switch {
		case t.model[mk] == nil:
			err = m.c.Create(o.copy())
			t.model[mk] = o
		case chance(r, .3):
			err = m.c.Delete(o.copy())
			delete(t.model, mk)
		default:
			err = m.c.Update(o.copy())
			t.model[mk] = o
		}
		if err != nil {
			k.Fail("write", "%s %s: %v", t.def.Name(), mk, err)
			return
		}
		ask := func(ot *ormType, id string) {
			var w proto.Message
			for _, d := range ot.model {
				if idOf(ot, d) == id {
					w = d.Message
				}
			}
			q.get(ot.def.Group, ot.def.Kind, id, w, func() proto.Message { return ot.New().Message })
		}
		id := idOf(t, o)
		ask(t, id)
		ot := ts[r.Intn(len(ts))]
		ask(ot, id)
		miss := nearMisses(k, id)
		for j := 0; j < 4; j++ {
			ask(t, miss[r.Intn(len(miss))])
		}
	}
	before := dumpDBs(dbs)
	for _, t := range ts {
		g, kd := t.def.Group, t.def.Kind
		some := "a"
		for _, d := range t.model {
			some = idOf(t, d)
		}
		for _, p := range []string{"", "/", "get", "get/", "get/" + g, "get/" + g + "/", "get/" + g + "/" + kd, "get/" + g + "/" + kd + "/", "get/" + g + "x/" + kd + "/" + some, "get/" + g + "/" + kd + "x/" + some,
			"get//" + kd + "/" + some, "get/" + g + "//" + some, "/get/" + g + "/" + kd + "/" + some, "GET/" + g + "/" + kd + "/" + some, "set/" + g + "/" + kd + "/" + some, "delete/" + g + "/" + kd + "/" + some, "list/" + g + "/" + kd + "/" + some,
			"get " + g + "/" + kd + "/" + some, "get/" + t.def.Name() + "/" + some, "gets/" + g + "/" + kd + "/" + some, "api_resource", "resources", "api_resourcesx", "store/x/key",
			"get/" + strings.ToUpper(g) + "/" + kd + "/" + some, "get/" + g + "/" + strings.ToLower(kd) + "/" + some} {
			// the upper or lower case form may be the name of another type
			skip := false
			for _, x := range ts {
				if strings.HasPrefix(p, "get/"+x.def.Group+"/"+x.def.Kind+"/") && !strings.HasSuffix(p, x.def.Kind+"/") {
					skip = true
				}
			}
			if !skip {
				q.malformed(p)
			}
		}
	}
	q.resources(want)
	if d := diffDump(before, dumpDBs(dbs)); len(d) > 0 {
		k.Fail("effect", "queries changed %q", d)
	}
}

// ownObjects are the objects an application without further modules has.
func ownObjects() (l []string) {
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		run, err := b.Build()
		if err != nil {
			panic(startFailure(err.Error()))
		}
		if err := run.InitGenesis(); err != nil {
			panic(startFailure(err.Error()))
		}
		l, err = moduleObjects(run.Get)
		if err != nil {
			panic(startFailure(err.Error()))
		}
	})
	closeDBs(dbs)
	return
}

// c23chain queries every object of a chain in use.
func c23chain(k *Case) {
	cfg := defaultHist()
	cfg.Steps, cfg.Keep = 25, true
	h := runHistory(k, cfg, func(*Hist, *Step) {})
	defer h.W.Close()
	if k.Failed() {
		return
	}
	q := &queried{k: k, app: h.W.App}
	q.remote()
	defer q.stop()
	reg, err := moduleObjects(h.W.RT.Get)
	if err != nil {
		k.Fail("descriptors", "no module descriptors: %v", err)
		return
	}
	q.resources(append([]string(nil), reg...))
	full := map[string]string{}
	d := new(runtimev1alpha1.ModuleDescriptors)
	_ = h.W.RT.Get(meta.SingletonID, d)
	for _, m := range d.Modules {
		for _, o := range m.StateObjects {
			full[o.ApiDefinition.Group+" "+o.ApiDefinition.Kind] = o.ProtobufFullname
		}
	}
	raw := h.W.Dump()
	obj := objectDB(raw)
	n := 0
	for gk, name := range full {
		mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(name))
		if err != nil {
			continue
		}
		f := strings.Fields(gk)
		stored := map[string][]byte{}
		for rk, v := range raw {
			if p := obj + f[0] + "." + f[1] + "/"; strings.HasPrefix(rk, p) {
				stored[rk[len(p):]] = []byte(v)
			}
		}
		ask := func(id string) {
			var want proto.Message
			if b, ok := stored[id]; ok {
				want = mt.New().Interface()
				if err := proto.Unmarshal(b, want); err != nil {
					k.Fail("stored", "%s %q holds an undecodable value", gk, id)
					return
				}
			}
			q.get(f[0], f[1], id, want, func() proto.Message { return mt.New().Interface() })
		}
		for id := range stored {
			n++
			ask(id)
			for _, x := range nearMisses(k, id)[:6] {
				ask(x)
			}
		}
		ask("nobody")
	}
	if n < 10 {
		k.Fail("stored", "only %d stored objects found", n)
	}
}

// c23cli runs the command line client against a served chain. It is the only
// stage that sets the environment.
func c23cli(k *Case) {
	cfg := defaultHist()
	cfg.Steps, cfg.Keep = 10, true
	h := runHistory(k, cfg, func(*Hist, *Step) {})
	defer h.W.Close()
	s := rpcNode(h.W.App)
	defer s.Close()
	dir, err := os.MkdirTemp(".", "cli")
	if err != nil {
		inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	dir, _ = filepath.Abs(dir)
	if err := os.WriteFile(filepath.Join(dir, spfcli.ConfigName), []byte("tendermintRPC: "+s.URL+"\n"), 0o600); err != nil {
		inconclusive("%v", err)
	}
	os.Setenv(spfcli.ConfigDirectoryEnv, dir)
	defer os.Unsetenv(spfcli.ConfigDirectoryEnv)
	run := func(args ...string) (string, error) {
		cmd := spfcli.NewCLI()
		var out bytes.Buffer
		cmd.SetOut(&out)
		cmd.SetErr(&out)
		cmd.SilenceUsage, cmd.SilenceErrors = true, true
		cmd.SetArgs(args)
		err := cmd.Execute()
		return out.String(), err
	}
	v := h.W.View()
	for addr, acc := range v.Acc {
		out, err := run("get", acc.APIDefinition().Group, acc.APIDefinition().Kind, "--", addr)
		got := acc.NewStateObject()
		if err != nil || protojson.Unmarshal([]byte(out), got) != nil || !proto.Equal(got, acc) {
			k.Fail("cli", "get of account %s prints %s (%v), stored is %v", addr, short(out), err, acc)
		}
		k.Count("cli_found", 1)
		k.Eval("cli" + addr)
		for _, x := range []string{addr + "x", "nobody", addr + "/"} {
			if out, err := run("get", acc.APIDefinition().Group, acc.APIDefinition().Kind, "--", x); err == nil {
				k.Fail("cli", "get of absent account %s prints %s", x, short(out))
			}
			k.Count("cli_absent", 1)
		}
	}
	out, err := run("resources")
	reg, _ := moduleObjects(h.W.RT.Get)
	if err != nil {
		k.Fail("cli", "resources: %v", err)
	}
	for _, o := range reg {
		for _, p := range strings.Fields(o) {
			if !strings.Contains(out, p) {
				k.Fail("cli", "resources does not print %s: %s", p, short(out))
			}
		}
	}
	for _, a := range [][]string{{"get"}, {"get", "a", "b"}, {"get", "no.such", "Kind", "x"}, {"resources", "x"}} {
		if out, err := run(a...); err == nil {
			k.Fail("cli", "%q succeeds: %s", a, short(out))
		}
	}
	os.Setenv(spfcli.ConfigDirectoryEnv, filepath.Join(dir, "nowhere"))
	if _, err := run("resources"); err == nil {
		k.Fail("cli", "resources succeeds without a configuration")
	}
}

// sameJSON compares two documents by content.
func sameJSON(a, b []byte) bool {
	dec := func(b []byte) (v interface{}, err error) {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		err = d.Decode(&v)
		return
	}
	x, err1 := dec(a)
	y, err2 := dec(b)
	return err1 == nil && err2 == nil && reflect.DeepEqual(x, y)
}
