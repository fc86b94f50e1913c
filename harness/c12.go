package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fdymylja/tmos/core/meta"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
)

// journalModule writes down, in state, what a module can observe: the order
// in which listings enumerate objects, and consensus information.
type journalModule struct {
	watchModule
	n int
}

var journalFile = dynFile("zz/journal.proto", "zzjournal", []DynMsg{
	{Name: "Entry", Fields: []DynField{{Name: "id", Type: tString}, {Name: "at", Type: tString}, {Name: "height", Type: tUint64}, {Name: "text", Type: tString}}},
})

func (j *journalModule) entry() *Dyn {
	return newDyn(journalFile.Messages().Get(0), objDef("zzjournal", "Entry"))
}

func (j *journalModule) Initialize(c module.Client) module.Descriptor {
	j.name = "zzjournal"
	d := j.watchModule.Initialize(c)
	b := module.NewDescriptorBuilder().OwnsStateObject(j.entry(), &schema.Definition{PrimaryKey: "id", SecondaryKeys: []string{"at", "height"}}).Build()
	d.StateObjects = append(d.StateObjects, b.StateObjects...)
	j.each = func(at string, c module.Client) {
		last := j.seen[len(j.seen)-1]
		j.seen = nil
		j.errs = nil
		var order []string
		for _, opt := range []client.ListOption{client.ListMatchFieldString("at", at), client.ListMatchFieldInterface("height", last.height)} {
			es, err := listKeys(c, newORMTypeFor(j.entry()), opt)
			if err != nil {
				continue
			}
			for _, e := range es {
				order = append(order, e.get("id").(string))
			}
		}
		role := &rbacpb.Role{}
		_ = c.Get(meta.NewStringID("zzjournal-role"), role)
		j.n++
		e := j.entry().set("id", fmt.Sprintf("%x", j.n*7919%1000)).set("at", at).set("height", last.height).
			set("text", fmt.Sprintf("%v %x %q %q", order, last.begin.GetBeginBlock().GetHash(), role.Delivers, role.Creates))
		if len(order) > 6 {
			d := j.entry().set("id", order[0])
			_ = c.Delete(d)
		}
		if c.Create(e) != nil {
			_ = c.Update(e)
		}
		j.plan = nil
		if at == "end" && last.height%2 == 0 {
			j.plan = randUpdates(rand.New(rand.NewSource(int64(last.height))))
		}
	}
	return d
}

func newORMTypeFor(d *Dyn) *ormType { return &ormType{md: d.Descriptor(), def: d.Def} }

// c12opts makes up an application: genesis accounts and additional modules.
func c12opts(r *rand.Rand) (WorldOpts, HistCfg) {
	cfg := defaultHist()
	cfg.Steps = 18 + r.Intn(20)
	cfg.MultiSig = .5
	cfg.ReadNoise = 0
	cfg.CheckBeforeDeliver = false
	cfg.HugeCoins = chance(r, .3)
	cfg.SmallLimits = chance(r, .2)
	o := histOpts(r, cfg)
	o.Extra = append(o.Extra, &journalModule{})
	for _, m := range newACLModules(r, r.Intn(4)) {
		o.Extra = append(o.Extra, m)
	}
	return o, cfg
}

func c12(c *Ctx) {
	c.Rule("one consensus call executed on all replicas, distinct by request and resulting state")
	c.Assume("replicas: the recording node; a silent replay; a replay between every two calls of which CheckTx, Query and direct reads happen, also concurrently; a replay in another process with other time zone, environment, processor count and start time", "log strings are not consensus relevant and not compared")
	type rec struct {
		Idx int
		Ops []abciOp
	}
	var mu sync.Mutex
	var recs []rec
	c.Cases("replica", c.N(40, 700), func(k *Case) {
		ops := c12case(k)
		if !k.Failed() {
			mu.Lock()
			recs = append(recs, rec{k.Idx, ops})
			mu.Unlock()
		}
	})
	// replay in another process
	dir, err := os.MkdirTemp("", "verif-c12")
	if err != nil {
		inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "ops")
	fh, _ := os.Create(f)
	enc := json.NewEncoder(fh)
	for _, r := range recs {
		if err := enc.Encode(r); err != nil {
			inconclusive("%v", err)
		}
	}
	fh.Close()
	time.Sleep(1100 * time.Millisecond)
	exe, err := os.Executable()
	if err != nil {
		inconclusive("%v", err)
	}
	cmd := exec.Command(exe, "child-C12", f)
	cmd.Env = append(os.Environ(), "TZ=Asia/Tokyo", "GOMAXPROCS=3", "GOGC=25", "LANG=tr_TR.UTF-8", "HOME="+dir, "VERIF_SEED="+fmt.Sprint(c.Seed))
	cmd.Dir = dir
	out, err := cmd.Output()
	c.Cases("process", 1, func(k *Case) {
		if err != nil {
			os.RemoveAll(dir)
			inconclusive("replaying process: %v", err)
		}
		sc := bufio.NewScanner(strings.NewReader(string(out)))
		done := false
		for sc.Scan() {
			l := sc.Text()
			switch {
			case strings.HasPrefix(l, "DIFF "):
				k.Fail("process", "another process replaying the same blocks differs: %s", l[5:])
			case strings.HasPrefix(l, "OPS "):
				var n int64
				fmt.Sscanf(l[4:], "%d", &n)
				k.Count("calls_in_other_process", n)
				k.Eval("process")
				done = true
			}
		}
		if !done {
			os.RemoveAll(dir)
			inconclusive("replaying process ended early: %s", out)
		}
	})
	c.Expect("calls", 1000)
	c.Expect("calls_in_other_process", 1000)
	c.Expect("noise", 3000)
	c.Expect("concurrent_reads", 1000)
}

// c12child replays recorded calls in this process.
func c12child(file string) {
	fh, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	c := newCtx("C12")
	dec := json.NewDecoder(fh)
	var n int64
	var wg sync.WaitGroup
	free := make(chan struct{}, 6)
	for dec.More() {
		var r struct {
			Idx int
			Ops []abciOp
		}
		if err := dec.Decode(&r); err != nil {
			panic(err)
		}
		wg.Add(1)
		free <- struct{}{}
		go func() {
			defer wg.Done()
			c.runCase("replica", r.Idx, func(k *Case) {
				o, _ := c12opts(k.R)
				if d := replay(o, r.Ops, nil); d != "" {
					fmt.Println("DIFF history", r.Idx, strings.ReplaceAll(d, "\n", " "))
				}
				atomic.AddInt64(&n, int64(len(r.Ops)))
			})
			<-free
		}()
	}
	wg.Wait()
	fmt.Println("OPS", n)
}

// replay executes recorded calls on a new node and tells where it differs.
func replay(o WorldOpts, ops []abciOp, between func(w *World, i int)) string {
	var got []abciOp
	o.NoInit = true
	w := newWorld(o)
	defer w.Close()
	w.Rec = &got
	for i, op := range ops {
		if between != nil {
			between(w, i)
		}
		var pv interface{}
		switch op.Call {
		case "init":
			pv, _ = safe(func() { w.init(op.Req) })
		case "begin":
			var q types.RequestBeginBlock
			if err := q.Unmarshal(op.Req); err != nil {
				panic(err)
			}
			w.BeginReq = func(int64) types.RequestBeginBlock { return q }
			pv, _ = safe(func() { w.Begin(q.Header.Height) })
		case "end":
			pv, _ = safe(func() { w.End() })
		case "commit":
			pv, _ = safe(func() { w.commit() })
		case "tx":
			pv, _ = safe(func() { w.Deliver(op.Req) })
		}
		if pv != nil {
			return fmt.Sprintf("call %d %s panics: %v", i, op.Call, pv)
		}
		if got[i].Out != op.Out {
			return fmt.Sprintf("call %d %s (request %s): result and state %s, recorded %s", i, op.Call, hexs(op.Req), got[i].Out, op.Out)
		}
	}
	return ""
}

func (w *World) init(req []byte) {
	var q types.RequestInitChain
	if err := q.Unmarshal(req); err != nil {
		panic(err)
	}
	res := w.App.InitChain(q)
	w.record("init", req, outOf(res))
}

func c12case(k *Case) []abciOp {
	r := k.R
	o, cfg := c12opts(r)
	o.NoInit = true
	cfg.Opts = &o
	var ops []abciOp
	cfg.Started = func(w *World) {
		w.Rec = &ops
		q := types.RequestInitChain{ChainId: w.Chain, Time: rTime(r)}
		for _, u := range randUpdates(r) {
			q.Validators = append(q.Validators, u.ToLegacy())
		}
		b, _ := q.Marshal()
		w.init(b)
		w.BeginReq = func(h int64) types.RequestBeginBlock { return randBegin(r, w.Chain, h) }
	}
	runHistory(k, cfg, func(h *Hist, s *Step) {})
	k.Count("calls", int64(len(ops)))
	for _, op := range ops {
		k.Eval(op.Call + string(op.Req) + op.Out)
		k.Count("call_"+op.Call, 1)
	}
	// modules hold state of their own, a new node gets new modules
	again := func() WorldOpts {
		var oo WorldOpts
		k.Ctx.runCase(k.Stage, k.Idx, func(x *Case) { oo, _ = c12opts(x.R) })
		return oo
	}
	if d := replay(again(), ops, nil); d != "" {
		k.Fail("replay", "a node replaying the same blocks differs: %s", d)
		return ops
	}
	var txs [][]byte
	for _, op := range ops {
		if op.Call == "tx" {
			txs = append(txs, op.Req)
		}
	}
	rn := rand.New(rand.NewSource(r.Int63()))
	d := replay(again(), ops, func(w *World, i int) {
		if i == 0 {
			return
		}
		for n := rn.Intn(9); n > 0; n-- {
			readNoise(rn, w, txs)
			k.Count("noise", 1)
		}
		if rn.Intn(8) == 0 {
			concurrentReads(k, rn, w)
		}
	})
	if d != "" {
		k.Fail("reads", "a node which served CheckTx, queries and reads in between differs: %s", d)
	}
	return ops
}

// concurrentReads queries from several goroutines.
func concurrentReads(k *Case, rn *rand.Rand, w *World) {
	var wg sync.WaitGroup
	var n int64
	for g := 0; g < 3; g++ {
		r := rand.New(rand.NewSource(rn.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 5; j++ {
				queryNoise(r, w)
				atomic.AddInt64(&n, 1)
			}
		}()
	}
	wg.Wait()
	k.Count("concurrent_reads", n)
}

func queryNoise(r *rand.Rand, w *World) {
	path := pick(r, "api_resources", "get", "",
		fmt.Sprintf("get/%s/Account/%s", (&authnpb.Account{}).APIDefinition().Group, K(r.Intn(9)).Addr),
		fmt.Sprintf("get/%s/Balance/%s", (&bankpb.Balance{}).APIDefinition().Group, K(r.Intn(9)).Addr),
		fmt.Sprintf("get/%s/Role/%s", (&rbacpb.Role{}).APIDefinition().Group, pick(r, "bank-role", "external_account", "")),
		fmt.Sprintf("get/%s/RoleBinding/%s", (&rbacpb.Role{}).APIDefinition().Group, pick(r, "bank", "nobody", "")))
	w.App.Query(types.RequestQuery{Path: path, Data: randBytes(r, r.Intn(5)), Height: int64(r.Intn(5)), Prove: chance(r, .2)})
}

// readNoise calls something which must not matter to consensus.
func readNoise(r *rand.Rand, w *World, txs [][]byte) {
	switch r.Intn(5) {
	case 0, 1:
		b := randBytes(r, 30)
		if len(txs) > 0 && chance(r, .9) {
			b = txs[r.Intn(len(txs))]
		}
		t := types.CheckTxType_New
		if chance(r, .3) {
			t = types.CheckTxType_Recheck
		}
		w.App.CheckTx(types.RequestCheckTx{Tx: b, Type: t})
	case 2:
		w.App.Info(types.RequestInfo{Version: "x"})
	case 3:
		acc := &authnpb.Account{}
		_ = w.RT.Get(meta.NewStringID(K(r.Intn(9)).Addr), acc)
		acc.Sequence = 1 << 40 // objects read are copies
		bal := &bankpb.Balance{}
		_ = w.RT.Get(meta.NewStringID(K(r.Intn(9)).Addr), bal)
		bal.Balance = nil
		_, _ = listKeys(w.Mod, newORMTypeFor((&journalModule{}).entry()), client.ListMatchFieldString("at", "tx"))
	default:
		queryNoise(r, w)
	}
}
