package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/core/apiserver"
	"github.com/fdymylja/tmos/core/apiserver/router"
	"github.com/fdymylja/tmos/core/meta"
	runtimev1alpha1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// C19 runs in child processes built with the race detector (VERIF_RACE). The
// children execute histories while readers of every kind watch the state, and
// judge what was read against the version history of the database. The parent
// reads the race detector's reports.

type raceJob struct {
	Mode string // store, chain, server
	Seed int64
	Size int
}

type raceOut struct {
	Fail, Class string
	Counts      map[string]int64
}

func c19(c *Ctx) {
	c.Rule("one process that executes a history while readers watch it, distinct by (mode, seed, size); the events count the reads judged")
	c.Assume("one process executes blocks, as Tendermint does; any number of goroutines read",
		"undoing a failed transaction writes the former values again",
		"races are those the Go race detector sees in the executed interleavings; a race which involves no code of the repository is not reported")
	exe := os.Getenv("VERIF_RACE")
	if exe == "" {
		inconclusive("no race-instrumented build")
	}
	run := func(mode string, size int) func(k *Case) {
		return func(k *Case) { raceChild(k, exe, raceJob{Mode: mode, Seed: k.R.Int63(), Size: size}) }
	}
	c.CasesW("store", c.N(16, 160), 4, run("store", c.N(500, 1200)))
	c.CasesW("chain", c.N(10, 160), 4, run("chain", c.N(60, 200)))
	c.CasesW("server", c.N(2, 8), 1, run("server", c.N(25, 60)))
	for _, x := range []string{"query", "http", "service", "list"} {
		c.Expect("reads_"+x, 2000)
	}
	c.Expect("reads_overlapping_writes", 300)
	c.Expect("reads_changed_value", 1000)
	c.Expect("versions", 4000)
	c.Expect("txs_failed", 20)
	c.Expect("txs_ok", 100)
	c.Expect("startup_reads", 50)
}

// raceChild runs one job in a process of its own and judges how it ended.
func raceChild(k *Case, exe string, j raceJob) {
	arg, _ := json.Marshal(j)
	cmd := exec.Command(exe, "child-C19", string(arg))
	procs := []string{"8", "4", "2", "3"}[k.Idx%4]
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+procs, "GORACE=halt_on_error=0 exitcode=0", "GOTRACEBACK=all")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		inconclusive("race child: %v", err)
	}
	timer := time.AfterFunc(240*time.Second, func() { _ = cmd.Process.Signal(os.Interrupt); time.Sleep(time.Second); _ = cmd.Process.Kill() })
	err := cmd.Wait()
	late := !timer.Stop()
	done := false
	for _, l := range strings.Split(out.String(), "\n") {
		o := raceOut{}
		if json.Unmarshal([]byte(l), &o) != nil {
			if strings.HasPrefix(l, "INCONCLUSIVE") {
				inconclusive("race child: %s", l)
			}
			continue
		}
		if o.Fail != "" {
			k.Fail(o.Class, "%s", o.Fail)
		}
		for n, v := range o.Counts {
			k.Count(n, v)
			if strings.HasPrefix(n, "reads_") && n != "reads_overlapping_writes" && n != "reads_changed_value" {
				k.Eval("")
			}
		}
		done = done || o.Counts != nil
	}
	k.Eval(string(arg))
	k.Sample(map[string]interface{}{"job": j, "gomaxprocs": procs, "output": fmt.Sprintf("%.400s", out.String())})
	races, foreign, own := dataRaces(errb.String())
	for _, r := range races {
		k.FailData("race", r, "data race: %s", raceTitle(r))
	}
	k.Count("races_outside_repository", int64(foreign))
	if own != "" {
		inconclusive("harness race:\n%s", own)
	}
	k.Count("processes", 1)
	if !done {
		tail := errb.String()
		if i := strings.Index(tail, "panic:"); i >= 0 {
			tail = tail[i:]
		} else if i := strings.Index(tail, "fatal error:"); i >= 0 {
			tail = tail[i:]
		}
		if len(tail) > 12000 {
			tail = tail[:12000]
		}
		switch {
		case late && cmd.ProcessState.UserTime()+cmd.ProcessState.SystemTime() < 60*time.Second:
			// it did not finish in 240 s although it hardly ran
			k.FailData("hang", tail, "readers and blocks do not finish")
		case crashedInRepo("panic(\n"+firstTrace(tail)) || strings.HasPrefix(tail, "fatal error: concurrent map"):
			k.FailData("crash", tail, "the process crashed: %s", strings.SplitN(tail, "\n", 2)[0])
		default:
			inconclusive("race child ended with %v:\n%s", err, tail)
		}
	}
}

// firstTrace is the stack of the goroutine which crashed.
func firstTrace(s string) string {
	if i := strings.Index(s, "\ngoroutine "); i >= 0 {
		s = s[i+1:]
	}
	if i := strings.Index(s, "\n\n"); i >= 0 {
		s = s[:i]
	}
	return s
}

const repoPkg = "github.com/fdymylja/tmos/"

// dataRaces splits the reports of the race detector: races in which code of
// the repository accesses the memory, the number of those of libraries only,
// and one of the harness only.
func dataRaces(log string) (repo []string, foreign int, own string) {
	seen := map[string]bool{}
	for _, b := range strings.Split(log, "==================") {
		if !strings.Contains(b, "WARNING: DATA RACE") {
			continue
		}
		owners := map[string]bool{}
		for _, st := range raceStacks(b) {
			owner := "library"
			for _, l := range strings.Split(st, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "main.") {
					owner = "harness"
					break
				}
				if strings.HasPrefix(l, repoPkg) && !strings.Contains(l, "zz_verif") {
					owner = "repo"
					break
				}
			}
			owners[owner] = true
		}
		switch {
		case owners["repo"]:
			if t := raceTitle(b); !seen[t] {
				seen[t] = true
				repo = append(repo, b)
			}
		case owners["harness"]:
			own = b
		default:
			foreign++
		}
	}
	return
}

// raceStacks returns the stacks of the two accesses of a report.
func raceStacks(b string) (out []string) {
	for _, p := range strings.Split(b, "\n\n") {
		t := strings.TrimSpace(strings.Replace(p, "WARNING: DATA RACE", "", 1))
		for _, pre := range []string{"Read at", "Write at", "Previous read", "Previous write", "Atomic", "Previous atomic"} {
			if strings.HasPrefix(t, pre) {
				out = append(out, t)
			}
		}
	}
	return
}

// raceTitle names the two places of a race.
func raceTitle(b string) string {
	var l []string
	for _, st := range raceStacks(b) {
		for _, f := range strings.Split(st, "\n")[1:] {
			f = strings.TrimSpace(f)
			if strings.HasPrefix(f, repoPkg) || strings.HasPrefix(f, "main.") {
				l = append(l, strings.TrimPrefix(f, repoPkg))
				break
			}
		}
	}
	return strings.Join(l, " / ")
}

// ---- in the child ----

// version is one write of a key; deletions are absent.
type version struct {
	ts     uint64
	val    string
	absent bool
}

// target is one object readers look at.
type target struct {
	key     string // in the object database
	id      meta.ID
	query   string
	path    string // HTTP
	fresh   func() meta.StateObject
	typ     *ormType
	content string // of the key
}

// seen is one read.
type seen struct {
	key    string
	val    string
	absent bool
	s, e   uint64 // database versions before and after, blind reads have none
}

type watcher struct {
	k    *raceRun
	r    *rand.Rand
	name string
	bl   bool
	obs  []seen
}

type raceRun struct {
	c       *Case
	app     rt.ABCIApplication
	cl      client.Client
	mux     http.Handler
	db      *badger.DB
	targets []target
	stop    int32
	wg      sync.WaitGroup
	mu      sync.Mutex
	ws      []*watcher
	fails   []raceOut
	counts  map[string]int64
	hot     int32 // target being written
}

// target picks what to read. Only readers which are not blind look at what is
// being written: the flag would order them after the writer.
func (w *watcher) target() *target {
	if w.bl {
		return w.any()
	}
	if h := int(atomic.LoadInt32(&w.k.hot)); h >= 0 && h < len(w.k.targets) && w.r.Intn(3) > 0 {
		return &w.k.targets[h]
	}
	return w.any()
}

// any picks a target; the descriptors of the application are large and picked
// less often.
func (w *watcher) any() *target {
	for {
		t := &w.k.targets[w.r.Intn(len(w.k.targets))]
		if !strings.Contains(t.key, "ModuleDescriptors") || w.r.Intn(20) == 0 {
			return t
		}
	}
}

func (x *raceRun) fail(class, f string, a ...interface{}) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.fails) < 10 {
		x.fails = append(x.fails, raceOut{Class: class, Fail: fmt.Sprintf(f, a...)})
	}
}

func canon(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(b)
}

func (x *raceRun) ts() uint64 {
	t := x.db.NewTransaction(false)
	defer t.Discard()
	return t.ReadTs()
}

// add records what a watcher read.
func (w *watcher) add(key string, o proto.Message, s, e uint64) {
	ob := seen{key: key, s: s, e: e, absent: o == nil}
	if o != nil {
		ob.val = canon(o)
	}
	w.obs = append(w.obs, ob)
}

func (w *watcher) before() uint64 {
	if w.bl {
		return 0
	}
	return w.k.ts()
}

func (w *watcher) after() uint64 {
	if w.bl {
		return ^uint64(0)
	}
	return w.k.ts()
}

// unwrapped is the message of an object which may be generated by the harness.
func unwrapped(o meta.StateObject) proto.Message {
	if d, ok := o.(*Dyn); ok {
		return d.Message
	}
	return o
}

func (w *watcher) query() {
	t := w.target()
	if t.typ != nil && !t.typ.json || t.query == "" {
		return
	}
	s := w.before()
	resp := w.k.app.Query(types.RequestQuery{Path: t.query})
	e := w.after()
	if strings.HasPrefix(resp.Log, "panic:") {
		w.k.fail("crash", "query %q: %s", t.query, resp.Log)
		return
	}
	w.fromJSON("query", t, resp.Code == 0, resp.Value, s, e)
}

func (w *watcher) fromJSON(how string, t *target, ok bool, body []byte, s, e uint64) {
	if !ok {
		w.add(t.key, nil, s, e)
		return
	}
	o := unwrapped(t.fresh())
	if err := protojson.Unmarshal(body, o); err != nil {
		w.k.fail("json", "%s of %q answers %q: %v", how, t.key, short(string(body)), err)
		return
	}
	w.add(t.key, o, s, e)
}

func (w *watcher) http() {
	t := w.target()
	if t.path == "" || w.k.mux == nil {
		return
	}
	req := httptest.NewRequest("GET", t.path, nil)
	rec := httptest.NewRecorder()
	s := w.before()
	w.k.mux.ServeHTTP(rec, req)
	e := w.after()
	if rec.Code != 200 && rec.Code != 404 {
		w.k.fail("http", "GET %q answers %d %s", t.path, rec.Code, short(rec.Body.String()))
		return
	}
	w.fromJSON("GET", t, rec.Code == 200, rec.Body.Bytes(), s, e)
}

func (w *watcher) service() {
	t := w.target()
	o := t.fresh()
	s := w.before()
	err := w.k.cl.Get(t.id, o)
	e := w.after()
	if err != nil {
		w.add(t.key, nil, s, e)
		return
	}
	w.add(t.key, unwrapped(o), s, e)
}

// list reads a listing, of which every object must be one that was stored.
func (w *watcher) list() {
	t := w.target()
	y := t.typ
	if y == nil || len(y.idx) == 0 {
		return
	}
	f := y.idx[w.r.Intn(len(y.idx))]
	vs := y.pool[f.Name()]
	v := vs[w.r.Intn(len(vs))]
	prefix := y.def.Group + "." + y.def.Kind + "/"
	if w.k.mux != nil && y.json && w.r.Intn(3) == 0 {
		q := url.Values{router.QueryParamSelectField: {f.JSONName() + "=" + textOf(v)}}
		req := httptest.NewRequest("GET", typePath(y)+"s?"+q.Encode(), nil)
		rec := httptest.NewRecorder()
		s := w.before()
		w.k.mux.ServeHTTP(rec, req)
		e := w.after()
		if rec.Code != 200 {
			return
		}
		var l struct{ List []json.RawMessage }
		if err := json.Unmarshal(rec.Body.Bytes(), &l); err != nil {
			w.k.fail("json", "listing answers %s: %v", short(rec.Body.String()), err)
			return
		}
		for _, b := range l.List {
			o := y.New()
			if err := protojson.Unmarshal(b, o.Message); err != nil {
				w.k.fail("json", "listing holds %s: %v", short(string(b)), err)
				continue
			}
			w.add(prefix+string(y.sch.EncodePrimaryKey(o)), o.Message, s, e)
		}
		return
	}
	opt := client.ListMatchFieldInterface(f.JSONName(), v)
	if w.r.Intn(2) == 0 {
		opt = client.ListMatchFieldString(f.JSONName(), textOf(v))
	}
	it, err := w.k.cl.List(y.New(), opt)
	if err != nil {
		return
	}
	defer it.Close()
	for n := 0; it.Valid(); it.Next() {
		o := y.New()
		s := w.before()
		err := it.Get(o)
		e := w.after()
		if err == nil {
			w.add(prefix+string(y.sch.EncodePrimaryKey(o)), o.Message, s, e)
		}
		if n++; n > 10000 {
			w.k.fail("list", "a listing does not end")
			return
		}
	}
}

// misc reads what is not an object.
func (w *watcher) misc() {
	switch w.r.Intn(3) {
	case 0:
		w.k.app.Info(types.RequestInfo{})
	case 1:
		if r := w.k.app.Query(types.RequestQuery{Path: "api_resources"}); r.Code != 0 {
			w.k.fail("resources", "api_resources: %s", r.Log)
		}
	case 2:
		if w.k.mux != nil && w.r.Intn(30) == 0 {
			rec := httptest.NewRecorder()
			w.k.mux.ServeHTTP(rec, httptest.NewRequest("GET", "/spec", nil))
			if rec.Code != 200 {
				w.k.fail("http", "/spec answers %d", rec.Code)
			}
		}
	}
}

func (w *watcher) loop(kind string, max int) {
	defer w.k.wg.Done()
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 16000)
			buf = buf[:runtime.Stack(buf, false)]
			if crashedInRepo(string(buf)) {
				w.k.fail("crash", "%s reader panics: %v\n%s", w.name, p, buf)
				return
			}
			fmt.Printf("INCONCLUSIVE reader panic %v %s\n", p, strings.ReplaceAll(string(buf), "\n", "|"))
			os.Exit(0)
		}
	}()
	for i := 0; i < max && atomic.LoadInt32(&w.k.stop) == 0; i++ {
		switch kind {
		case "query":
			w.query()
		case "http":
			w.http()
		case "service":
			w.service()
		case "list":
			w.list()
		}
		switch w.r.Intn(60) {
		case 0:
			w.misc()
		case 1:
			runtime.Gosched()
		case 2:
			time.Sleep(time.Duration(w.r.Intn(300)) * time.Microsecond)
		}
	}
}

func (x *raceRun) watch(kind string, blind bool, max int) {
	w := &watcher{k: x, r: rand.New(rand.NewSource(x.c.R.Int63())), name: kind, bl: blind}
	x.mu.Lock()
	x.ws = append(x.ws, w)
	x.mu.Unlock()
	x.wg.Add(1)
	go w.loop(kind, max)
}

// history reads all versions of all keys. It reports whether the database may
// have dropped some.
func history(db *badger.DB) (map[string][]version, bool) {
	h := map[string][]version{}
	_ = db.View(func(txn *badger.Txn) error {
		o := badger.DefaultIteratorOptions
		o.AllVersions = true
		it := txn.NewIterator(o)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			i := it.Item()
			v := version{ts: i.Version(), absent: i.IsDeletedOrExpired()}
			if !v.absent {
				b, err := i.ValueCopy(nil)
				if err != nil {
					return err
				}
				v.val = string(b)
			}
			k := string(i.KeyCopy(nil))
			h[k] = append(h[k], v)
		}
		return nil
	})
	for _, vs := range h {
		sort.Slice(vs, func(a, b int) bool { return vs[a].ts < vs[b].ts })
	}
	return h, len(db.Tables()) > 0
}

// judge compares all reads with the history.
func (x *raceRun) judge() {
	h, dropped := history(x.db)
	if dropped {
		x.counts["histories_dropped"]++
		return
	}
	fresh := map[string]func() meta.StateObject{}
	for _, t := range x.targets {
		fresh[t.key] = t.fresh
	}
	for key, vs := range h {
		f := fresh[key]
		x.counts["versions"] += int64(len(vs))
		if f == nil {
			continue
		}
		for i := range vs {
			if vs[i].absent {
				continue
			}
			o := unwrapped(f())
			if err := proto.Unmarshal([]byte(vs[i].val), o); err != nil {
				x.fail("stored", "%q holds an undecodable value", key)
				return
			}
			vs[i].val = canon(o)
		}
	}
	for _, w := range x.ws {
		pos := map[string]int{}
		last := map[string]string{}
		overlap := int64(0)
		for _, ob := range w.obs {
			vs := append([]version{{absent: true}}, h[ob.key]...)
			p := pos[ob.key]
			if l, ok := last[ob.key]; ok && l != ob.val {
				x.counts["reads_changed_value"]++
			}
			last[ob.key] = ob.val
			ok := false
			written := false
			for i := range vs {
				end := ^uint64(0)
				if i+1 < len(vs) {
					end = vs[i+1].ts - 1
				}
				if vs[i].ts > ob.s && vs[i].ts <= ob.e && !w.bl {
					overlap++
				}
				if vs[i].absent != ob.absent || vs[i].val != ob.val {
					continue
				}
				written = written || vs[i].ts <= ob.e
				if i < p || vs[i].ts > ob.e || end < ob.s {
					continue
				}
				ok = true
				pos[ob.key] = i
				break
			}
			x.counts["reads_"+w.name]++
			if ok {
				continue
			}
			what := "absence"
			if !ob.absent {
				what = fmt.Sprintf("%x", short(ob.val))
			}
			switch {
			case !written:
				x.fail("unwritten", "%s reader reads %s of %q, which was never written", w.name, what, ob.key)
			case w.bl:
				x.fail("back", "%s reader reads %s of %q after a newer version", w.name, what, ob.key)
			default:
				x.fail("stale", "%s reader reads %s of %q, which was not current during the read", w.name, what, ob.key)
			}
		}
		x.counts["reads_overlapping_writes"] += overlap
	}
}

func c19child(arg string) {
	j := raceJob{}
	if err := json.Unmarshal([]byte(arg), &j); err != nil {
		fmt.Println("INCONCLUSIVE", err)
		return
	}
	ctx := newCtx("C19")
	x := &raceRun{c: &Case{Ctx: ctx, R: rand.New(rand.NewSource(j.Seed))}, counts: map[string]int64{}, hot: -1}
	switch j.Mode {
	case "store":
		x.store(j.Size)
	case "chain":
		x.chain(j.Size, false)
	case "server":
		x.chain(j.Size, true)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, f := range x.fails {
		_ = enc.Encode(f)
	}
	for _, v := range ctx.violations {
		_ = enc.Encode(raceOut{Class: v.Class, Fail: v.Detail})
	}
	for _, n := range []string{"txs_ok", "txs_failed"} {
		x.counts[n] = ctx.counters[n]
	}
	_ = enc.Encode(raceOut{Counts: x.counts})
}

// eagerService reads from the moment it is started, which is while the chain
// is being initialised.
type eagerService struct {
	module.BaseService
	c    client.Client
	objs []func() meta.StateObject
	n    int64
	stop int32
	wg   sync.WaitGroup
}

func (s *eagerService) Name() string              { return "eager" }
func (s *eagerService) SetClient(c client.Client) { s.c = c }
func (s *eagerService) Start() error {
	for i := 0; i < 3; i++ {
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			for atomic.LoadInt32(&s.stop) == 0 {
				if atomic.LoadInt64(&s.n) > 60 { // enough, leave the processor to others
					time.Sleep(20 * time.Millisecond)
				}
				for _, f := range s.objs {
					_ = s.c.Get(meta.SingletonID, f())
					atomic.AddInt64(&s.n, 1)
				}
			}
		}()
	}
	return nil
}
func (s *eagerService) Stop() error {
	atomic.StoreInt32(&s.stop, 1)
	s.wg.Wait()
	return nil
}

type eagerModule struct{ s *eagerService }

func (m eagerModule) Initialize(module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("zzeager").WithExtensionService(m.s).Build()
}

// objectsOf finds the object database: it holds the module descriptors.
func objectsOf(dbs []*badger.DB) *badger.DB {
	d := new(runtimev1alpha1.ModuleDescriptors).APIDefinition()
	key := []byte(d.Group + "." + d.Kind + "/unique")
	for _, db := range dbs {
		found := false
		_ = db.View(func(txn *badger.Txn) error {
			_, err := txn.Get(key)
			found = err == nil
			return nil
		})
		if found {
			return db
		}
	}
	return nil
}

// store executes writes of a module at full speed.
func (x *raceRun) store(writes int) {
	r := x.c.R
	ts := httpTypes(r, 3+r.Intn(3))
	m := &ormModule{types: ts}
	svc := &clientService{}
	eager := &eagerService{objs: []func() meta.StateObject{func() meta.StateObject { return new(runtimev1alpha1.ModuleDescriptors) }}}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		b.AddModule(serviceModule{svc})
		b.AddModule(eagerModule{eager})
		if run, err = b.Build(); err == nil {
			err = run.InitGenesis()
		}
	})
	if err != nil {
		fmt.Println("INCONCLUSIVE no application:", err)
		return
	}
	defer closeDBs(dbs)
	x.app, x.cl, x.db = rt.NewABCIApplication(run), svc.c, objectsOf(dbs)
	if x.db == nil {
		fmt.Println("INCONCLUSIVE no object database")
		return
	}
	rb := router.NewBuilder(svc.c)
	for _, t := range ts {
		if err := rb.CreateStateObjectHandler(t.New(), t.sdef); err != nil {
			x.fail("handler", "no handler: %v", err)
			return
		}
	}
	if x.mux, err = rb.Build(); err != nil {
		x.fail("handler", "no router: %v", err)
		return
	}
	var objs []*Dyn
	typeOf := map[*Dyn]*ormType{}
	for _, t := range ts {
		n := 0
		for _, key := range t.keys {
			o := t.withKey(key)
			if t.emptyKey(o) || n == 4 {
				continue
			}
			n++
			objs = append(objs, o)
			typeOf[o] = t
			t := t
			id := string(t.id(o).Bytes())
			tg := target{key: t.def.Group + "." + t.def.Kind + "/" + id, id: t.id(o), query: "get/" + t.def.Group + "/" + t.def.Kind + "/" + id,
				path: typePath(t), fresh: func() meta.StateObject { return t.New() }, typ: t, content: id}
			if t.pk != nil {
				tg.path += "/" + escapeAll(r, textOf(key))
			}
			x.targets = append(x.targets, tg)
		}
	}
	for i := 0; i < 2; i++ {
		for _, kind := range []string{"query", "http", "service", "list"} {
			x.watch(kind, i == 0, 6000)
		}
	}
	exists := map[*Dyn]bool{}
	for i := 0; i < writes; i++ {
		o := objs[r.Intn(len(objs))]
		if i%40 < 25 { // bursts on one object
			o = objs[(i/40)%len(objs)]
			atomic.StoreInt32(&x.hot, int32((i/40)%len(objs)))
		}
		t := typeOf[o]
		n := t.New()
		if t.pk != nil {
			n.Set(t.pk, o.Get(t.pk))
		}
		t.randomize(r, n)
		n.Set(n.fd("val"), protoreflect.ValueOfString(fmt.Sprintf("%d-%s", i, strings.Repeat("v", r.Intn(50)))))
		var err error
		switch {
		case !exists[o]:
			err = m.c.Create(n)
			exists[o] = true
		case r.Intn(5) == 0:
			err = m.c.Delete(n)
			exists[o] = false
		default:
			err = m.c.Update(n)
		}
		if err != nil {
			x.fail("write", "write %d of %s: %v", i, t.def.Name(), err)
			break
		}
	}
	x.finish(eager)
}

// finish ends the readers and judges.
func (x *raceRun) finish(eager *eagerService) {
	time.Sleep(5 * time.Millisecond)
	atomic.StoreInt32(&x.stop, 1)
	x.wg.Wait()
	_ = eager.Stop()
	x.counts["startup_reads"] += atomic.LoadInt64(&eager.n)
	x.judge()
}

// chain executes blocks of signed transactions.
func (x *raceRun) chain(steps int, server bool) {
	r := x.c.R
	cfg := defaultHist()
	cfg.Steps, cfg.Keep = steps, true
	cfg.FailMsg = .3
	svc := &clientService{}
	eager := &eagerService{objs: []func() meta.StateObject{func() meta.StateObject { return new(runtimev1alpha1.ModuleDescriptors) }}}
	o := histOpts(r, cfg)
	o.Extra = append(o.Extra, serviceModule{svc}, eagerModule{eager})
	cfg.Opts = &o
	started := false
	var served sync.WaitGroup
	quit := make(chan struct{})
	cfg.Started = func(w *World) {
		started = true
		x.app, x.cl, x.db = w.App, svc.c, objectsOf(w.DBs)
		if x.db == nil {
			return
		}
		x.chainTargets(w)
		for i := 0; i < 2; i++ {
			for _, kind := range []string{"query", "http", "service"} {
				x.watch(kind, i == 0, 4000)
			}
		}
		x.watch("query", true, 4000)
		if server {
			served.Add(1)
			keep := r.Intn(2) == 0
			go func() {
				defer served.Done()
				x.serve(svc.c, keep, quit)
			}()
		}
	}
	h := runHistory(x.c, cfg, func(_ *Hist, s *Step) {
		if s.Kind != "deliver" {
			return
		}
		if s.Code == 0 {
			x.c.Count("txs_ok", 1)
		} else {
			x.c.Count("txs_failed", 1)
		}
	})
	defer h.W.Close()
	close(quit)
	served.Wait()
	if !started || x.db == nil {
		fmt.Println("INCONCLUSIVE chain did not start")
		return
	}
	x.finish(eager)
}

func (x *raceRun) chainTargets(w *World) {
	d := new(runtimev1alpha1.ModuleDescriptors)
	if err := svcGet(x.cl, d); err != nil {
		x.fail("descriptors", "no module descriptors: %v", err)
		return
	}
	rb := router.NewBuilder(x.cl)
	raw := w.Dump()
	odb := objectDB(raw)
	for _, m := range d.Modules {
		for _, so := range m.StateObjects {
			mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(so.ProtobufFullname))
			if err != nil {
				continue
			}
			fresh := func() meta.StateObject { return mt.New().Interface().(meta.StateObject) }
			if err := rb.CreateStateObjectHandler(fresh(), so.SchemaDefinition); err != nil {
				x.fail("handler", "no handler for %s: %v", so.ProtobufFullname, err)
				return
			}
			g, kd := so.ApiDefinition.Group, so.ApiDefinition.Kind
			prefix := g + "." + kd + "/"
			ids := map[string]bool{}
			for k := range raw {
				if strings.HasPrefix(k, odb+prefix) {
					ids[k[len(odb+prefix):]] = true
				}
			}
			if so.SchemaDefinition.Singleton {
				ids["unique"] = true
			} else if f := mt.Descriptor().Fields().ByJSONName(so.SchemaDefinition.PrimaryKey); f != nil && f.Kind() == protoreflect.StringKind {
				for i := 0; i < 7; i++ {
					ids[K(i).Addr] = true
				}
				ids["fee_collector"], ids["bob"] = true, true
			}
			var l []string
			for id := range ids {
				l = append(l, id)
			}
			sort.Strings(l)
			for _, id := range l {
				t := target{key: prefix + id, id: meta.NewStringID(id), query: "get/" + g + "/" + kd + "/" + id, fresh: fresh, content: id,
					path: "/" + strings.ToLower(g) + "/" + strings.ToLower(kd)}
				if !so.SchemaDefinition.Singleton {
					t.path += "/" + escapeAll(x.c.R, id)
				}
				x.targets = append(x.targets, t)
				// what blocks change is watched more closely
				if strings.Contains(prefix, "Account") || strings.Contains(prefix, "Balance") || strings.Contains(prefix, "abci") || strings.Contains(prefix, "Stage") {
					x.targets = append(x.targets, t, t, t)
				}
			}
		}
	}
	mux, err := rb.Build()
	if err != nil {
		x.fail("handler", "no router: %v", err)
		return
	}
	x.mux = mux
}

func svcGet(c client.Client, o meta.StateObject) error { return c.Get(meta.SingletonID, o) }

// serve starts and stops the server module while requests come in.
func (x *raceRun) serve(cl client.Client, keep bool, quit chan struct{}) {
	hc := &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: !keep}}
	var wg sync.WaitGroup
	var ok int64
	stop := int32(0)
	var paths []string
	for _, t := range x.targets {
		paths = append(paths, t.path)
	}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(int64(i)))
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				resp, err := hc.Get("http://127.0.0.1:8080" + paths[r.Intn(len(paths))])
				if err != nil {
					time.Sleep(time.Millisecond)
					continue
				}
				var b bytes.Buffer
				_, _ = b.ReadFrom(resp.Body)
				resp.Body.Close()
				if resp.StatusCode != 200 && resp.StatusCode != 404 {
					x.fail("http", "served request answers %d %s", resp.StatusCode, b.String())
				}
				atomic.AddInt64(&ok, 1)
			}
		}()
	}
	cycles := int64(0)
	for n := 0; ; n++ {
		s := apiserver.NewService()
		s.SetClient(cl)
		if err := s.Start(); err != nil {
			x.fail("service", "api server does not start: %v", err)
			break
		}
		time.Sleep(time.Duration(n%7) * 15 * time.Millisecond)
		done := make(chan error, 1)
		go func() { done <- s.Stop() }()
		select {
		case err := <-done:
			if err != nil {
				x.fail("service", "api server does not stop: %v", err)
			}
		case <-time.After(60 * time.Second):
			x.fail("service", "api server does not stop")
		}
		cycles++
		select {
		case <-quit:
			if n > 20 {
				goto end
			}
		default:
		}
	}
end:
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	hc.CloseIdleConnections()
	x.mu.Lock()
	x.counts["server_cycles"] += cycles
	x.counts["server_requests"] += ok
	x.mu.Unlock()
}
