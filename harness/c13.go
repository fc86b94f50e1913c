package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/module"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	"github.com/fdymylja/tmos/x/authn"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/known/anypb"
)

// The node runs in child processes: a crash which cannot be recovered (stack
// exhaustion, fatal errors of the runtime) is an observation like any other.
// Before each call the child writes the input to a file.

func c13(c *Ctx) {
	c.Rule("one hostile input given to CheckTx, DeliverTx, Query or the transaction decoder, distinct by its bytes")
	c.Assume("the node runs in child processes; an ended process, an escaping panic, a call without answer for 60 s or a failing liveness transaction is a violation", "the storage engine refusing a key or value beyond its size limit is answered with an error code and not a panic of the node")
	dir, err := os.MkdirTemp("", "verif-c13")
	if err != nil {
		inconclusive("%v", err)
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		inconclusive("%v", err)
	}
	shards := 8
	c.Cases("shard", shards, func(k *Case) {
		in := filepath.Join(dir, fmt.Sprint("input", k.Idx))
		cmd := exec.Command(exe, "child-C13", fmt.Sprintf("%d,%d,%s", k.Idx, shards, in))
		cmd.Env = append(os.Environ(), fmt.Sprint("VERIF_SEED=", c.Seed), "VERIF_TIER="+c.Tier, "GOTRACEBACK=single")
		var errb strings.Builder
		var mu sync.Mutex
		cmd.Stderr = &limited{b: &errb, mu: &mu}
		pipe, err := cmd.StdoutPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			inconclusive("cannot start the node process: %v", err)
		}
		done := make(chan struct{})
		beat := make(chan struct{}, 1)
		ended, hung, incon := false, false, ""
		go func() {
			defer close(done)
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<24)
			for sc.Scan() {
				select {
				case beat <- struct{}{}:
				default:
				}
				l := sc.Text()
				switch {
				case strings.HasPrefix(l, "EV "):
					var m map[string]int64
					if json.Unmarshal([]byte(l[3:]), &m) == nil {
						for x, n := range m {
							k.Count(x, n)
						}
					}
				case strings.HasPrefix(l, "K "):
					k.Eval(l[2:])
				case strings.HasPrefix(l, "SEEN "):
					k.Seen("answers", l[5:])
				case strings.HasPrefix(l, "FAIL "):
					p := strings.SplitN(l[5:], " ", 2)
					k.Fail(p[0], "%s", p[1])
				case strings.HasPrefix(l, "INCONCLUSIVE"):
					incon = l
				case l == "END":
					ended = true
				}
			}
		}()
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-beat:
			case <-time.After(90 * time.Second):
				hung = true
				_ = cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(time.Second)
				_ = cmd.Process.Kill()
				<-done
				break wait
			}
		}
		werr := cmd.Wait()
		if ended && werr == nil {
			return
		}
		if incon != "" {
			inconclusive("in the node process: %s", incon)
		}
		last, _ := os.ReadFile(in)
		mu.Lock()
		e := errb.String()
		mu.Unlock()
		if strings.Contains(e, "INCONCLUSIVE") || strings.Contains(fmt.Sprint(werr), "killed") && !hung {
			fmt.Fprintln(os.Stderr, e)
			inconclusive("node process: %v", werr)
		}
		what := fmt.Sprintf("the node process ended (%v)", werr)
		if hung {
			what = "the node does not answer"
		}
		k.FailData("crash", map[string]string{"input": string(last), "output": e}, "%s on input %.300s\n%.1500s", what, last, e)
	})
	c.Expect("checktx", 2000)
	c.Expect("delivertx", 2000)
	c.Expect("query", 1000)
	c.Expect("liveness", 100)
	c.Expect("signed", 1000)
	c.Expect("no_decoder", 100)
}

type limited struct {
	b  *strings.Builder
	mu *sync.Mutex
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 && !strings.Contains(string(p), "badger") {
		l.b.Write(p)
	}
	return len(p), nil
}

type fuzzNode struct {
	k    *Case
	w    *World
	in   *os.File
	ev   map[string]int64
	live uint64
	seqs map[int]uint64
	out  *bufio.Writer
}

func (f *fuzzNode) announce(kind string, b []byte) {
	s := fmt.Sprintf("%s %x", kind, b)
	if len(s) > 200000 {
		s = s[:200000]
	}
	_, _ = f.in.WriteAt([]byte(s), 0)
	_ = f.in.Truncate(int64(len(s)))
}

func (f *fuzzNode) fail(class, format string, a ...interface{}) {
	fmt.Fprintf(f.out, "FAIL %s %s\n", class, strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " | "))
	f.out.Flush()
}

func (f *fuzzNode) call(kind string, in []byte, call func() (uint32, string)) (code uint32) {
	f.announce(kind, in)
	f.ev[strings.Split(kind, " ")[0]]++
	h := in
	if len(h) > 400 {
		h = h[:400]
	}
	fmt.Fprintf(f.out, "K %s%x#%d\n", kind, h, len(in))
	pv, st := safe(func() {
		var log string
		code, log = call()
		if strings.Contains(log, "panic: ") {
			i := strings.Index(log, "panic: ")
			if strings.Contains(log, "exceeded 65000 limit") || strings.Contains(log, "Txn is too big") {
				f.ev["storage_limit_answers"]++
			} else {
				f.fail("panic", "%s of %.2000x panics: %.500s", kind, in, log[i:])
			}
		}
		if code == 0 {
			f.ev["accepted"]++
		} else {
			f.ev["refused"]++
		}
	})
	if pv != nil {
		f.fail("panic", "%s of %.2000x panics: %v %s", kind, in, pv, st)
	}
	return code
}

func (f *fuzzNode) both(b []byte) uint32 {
	f.call("checktx", b, func() (uint32, string) { r := f.w.Check(b); return r.Code, r.Log })
	return f.call("delivertx", b, func() (uint32, string) { r := f.w.Deliver(b); return r.Code, r.Log })
}

func (f *fuzzNode) query(q types.RequestQuery) {
	f.call("query "+fmt.Sprintf("%q", q.Path), q.Data, func() (uint32, string) { r := f.w.App.Query(q); return r.Code, r.Log })
}

// alive executes a transaction of an account of its own and reads its effect.
func (f *fuzzNode) alive() {
	f.announce("liveness", nil)
	me := K(90)
	pv, st := safe(func() {
		sp := &TxSpec{Signers: []SignerSpec{{Key: me, Seq: f.live, AccNum: 0}}, Fee: coinList(1, "stake"), Chain: f.w.Chain,
			Msgs: msgs(&bankpb.MsgSendCoins{FromAddress: me.Addr, ToAddress: K(91).Addr, Amount: coinList(1, "live")})}
		if r := f.w.Check(sp.Encode()); r.Code != 0 {
			f.fail("liveness", "a valid transaction is refused by CheckTx: %s", r.Log)
		}
		if r := f.w.Deliver(sp.Encode()); r.Code != 0 {
			f.fail("liveness", "a valid transaction is refused: %s", r.Log)
		}
		f.live++
		q := f.w.App.Query(types.RequestQuery{Path: "get/" + (&bankpb.Balance{}).APIDefinition().Group + "/Balance/" + K(91).Addr})
		var bal struct{ Balance []*coinpb.Coin }
		if json.Unmarshal(q.Value, &bal) != nil || len(bal.Balance) != 1 || bal.Balance[0].Amount != fmt.Sprint(f.live) {
			f.fail("liveness", "the effect of valid transactions can not be read: code %d %s %s, expected %d live", q.Code, q.Log, q.Value, f.live)
		}
		if f.k.R.Intn(3) == 0 {
			f.w.NextBlock()
		}
	})
	if pv != nil {
		f.fail("liveness", "a valid transaction, query or block panics: %v %s", pv, st)
	}
	f.ev["liveness"]++
	f.out.Flush()
}

// accNum reads the current number and sequence of a key's account.
func (f *fuzzNode) signer(i int) SignerSpec {
	s := SignerSpec{Key: K(i)}
	acc := &authnpb.Account{}
	if f.w.RT.Get(meta.NewStringID(s.Key.Addr), acc) == nil {
		s.Seq, s.AccNum = acc.Sequence, acc.AccountNumber
	}
	return s
}

var transitionTypes = func() (l []string) {
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if _, ok := mt.New().Interface().(meta.StateTransition); ok {
			l = append(l, string(mt.Descriptor().FullName()))
		}
		return true
	})
	sortStrings(l)
	return
}()

var objectTypes = func() (l []meta.StateObject) {
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if o, ok := mt.New().Interface().(meta.StateObject); ok {
			l = append(l, o)
		}
		return true
	})
	sort.Slice(l, func(i, j int) bool { return meta.Name(l[i]) < meta.Name(l[j]) })
	return
}()

func c13child(arg string) {
	p := strings.SplitN(arg, ",", 3)
	var shard, shards int
	fmt.Sscan(p[0], &shard)
	fmt.Sscan(p[1], &shards)
	in, err := os.OpenFile(p[2], os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		inconclusive("%v", err)
	}
	c := newCtx("C13")
	c.OnlyIdx = -1
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	n := c.N(12, 150)
	for i := 0; i < n; i++ {
		ev := map[string]int64{}
		c.runCase("fuzz", i*shards+shard, func(k *Case) { c13case(k, in, out, ev) })
		for _, v := range c.violations { // panics outside of calls
			fmt.Fprintf(out, "FAIL %s %s\n", v.Class, strings.ReplaceAll(v.Detail, "\n", " | "))
		}
		c.violations = nil
		b, _ := json.Marshal(ev)
		fmt.Fprintf(out, "EV %s\n", b)
		out.Flush()
	}
	fmt.Fprintln(out, "END")
	out.Flush()
}

func c13case(k *Case, in *os.File, out *bufio.Writer, ev map[string]int64) {
	r := k.R
	f := &fuzzNode{k: k, in: in, ev: ev, out: out, seqs: map[int]uint64{}}
	o := WorldOpts{Accounts: []GenAcc{{Addr: K(90).Addr, Coins: []*coinpb.Coin{coin(100000, "live"), coin(1000000, "stake")}}}}
	for i := 0; i < 6; i++ {
		a := GenAcc{Addr: K(i).Addr, Coins: []*coinpb.Coin{coin(1000000, "foo"), coin("57896044618658097711785492504343953926634992332820282019728792003956564819967", "huge"), coin(100000000, "stake")}}
		if i%2 == 0 {
			a.PubKey = K(i).Pub
		}
		o.Accounts = append(o.Accounts, a)
	}
	if chance(r, .3) {
		o.Extra = append(o.Extra, &journalModule{})
	}
	var dec authentication.TxDecoder
	o.Wrap = func(d authentication.TxDecoder) authentication.TxDecoder { dec = d; return d }
	w := newWorld(o)
	defer w.Close()
	f.w = w
	w.Begin(1)
	f.alive()
	fee := func() []*coinpb.Coin { return coinList(1+r.Intn(3), "stake") }
	valid := func() *TxSpec {
		i := r.Intn(6)
		return &TxSpec{Signers: []SignerSpec{f.signer(i)}, Fee: fee(), Chain: w.Chain,
			Msgs: msgs(&bankpb.MsgSendCoins{FromAddress: K(i).Addr, ToAddress: K(r.Intn(9)).Addr, Amount: coinList(1, "foo")})}
	}
	pieces := func() []byte {
		t := valid()
		if chance(r, .5) {
			t.Signers = append(t.Signers, f.signer(r.Intn(6)))
		}
		if chance(r, .3) {
			t.Memo, t.Payer, t.Gas = "memo", t.Signers[0].Key.Addr, 7
		}
		if chance(r, .3) {
			t.Msgs = append(t.Msgs, &testpb.MsgCreatePost{Creator: "c", Title: "t", Text: "x"}, &authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: "q", PubKey: pkAny(nativePKURL, K(9).Pub)}})
		}
		return t.Encode()
	}
	for i := 0; i < 160; i++ {
		switch r.Intn(13) {
		case 0: // noise
			f.both(randBytes(r, []int{0, 1, 2, 10, 100, 1000, 100000}[r.Intn(7)]))
		case 1, 2: // mutations of a valid transaction
			b := pieces()
			for n := 1 + r.Intn(3); n > 0; n-- {
				b = mutateWire(r, b, 0)
			}
			f.both(b)
		case 3:
			b := pieces()
			for n := 1 + r.Intn(3); n > 0; n-- {
				b = mutateBytes(r, b)
			}
			f.both(b)
		case 4: // hostile envelope of any contents
			raw := &authnpb.TxRaw{}
			body, auth := &authnpb.TxBody{}, &authnpb.AuthInfo{}
			fillHostile(r, body.ProtoReflect(), 0)
			fillHostile(r, auth.ProtoReflect(), 0)
			raw.BodyBytes, _ = proto.Marshal(body)
			raw.AuthInfoBytes, _ = proto.Marshal(auth)
			for n := r.Intn(4); n > 0; n-- {
				raw.Signatures = append(raw.Signatures, hostileBytes(r))
			}
			f.both(mustMarshal(raw))
		case 5, 6: // signed transaction of transitions filled with anything
			t := valid()
			t.Msgs = nil
			for n := 1 + r.Intn(3); n > 0; n-- {
				name := transitionTypes[r.Intn(len(transitionTypes))]
				if chance(r, .6) {
					name = pick(r, "tmos.x.bank.v1alpha1.MsgSendCoins", "tmos.x.authn.v1alpha1.MsgCreateAccount", string((&testpb.MsgCreatePost{}).ProtoReflect().Descriptor().FullName()))
				}
				m := newHostile(r, name)
				if s, ok := m.(*bankpb.MsgSendCoins); ok && chance(r, .7) {
					s.FromAddress = t.Signers[0].Key.Addr
				}
				t.Msgs = append(t.Msgs, m)
			}
			f.ev["signed"]++
			f.both(t.Encode())
		case 7: // any registered type as a message
			t := valid()
			t.Msgs = msgs(hostileAny(r, 0))
			f.ev["signed"]++
			f.both(t.Encode())
		case 8: // signed with hostile fee, payer, memo, timeout, signer infos
			t := valid()
			b := &authnpb.AuthInfo{}
			fillHostile(r, b.ProtoReflect(), 0)
			how := r.Intn(6)
			t.Auth = func(a *authnpb.AuthInfo) {
				switch how {
				case 0:
					a.Fee = b.Fee
				case 1:
					a.Fee.Amount = b.Fee.GetAmount()
				case 2:
					a.SignerInfos = append(a.SignerInfos, b.SignerInfos...)
				case 3:
					if len(b.SignerInfos) > 0 {
						a.SignerInfos[0].ModeInfo = b.SignerInfos[0].GetModeInfo()
					}
				case 4:
					a.SignerInfos[0].PublicKey = hostileAny(r, 1)
				default:
					a.SignerInfos[0].PublicKey.Value = hostileBytes(r)
				}
			}
			if chance(r, .5) {
				t.Body = func(x *authnpb.TxBody) {
					x.Memo, x.TimeoutHeight = strings.ToValidUTF8(hostileString(r), ""), hostileUint(r)
					for n := r.Intn(3); n > 0; n-- {
						x.ExtensionOptions = append(x.ExtensionOptions, hostileAny(r, 1))
						x.NonCriticalExtensionOptions = append(x.NonCriticalExtensionOptions, hostileAny(r, 1))
					}
				}
			}
			t.PostSign = func(x *authnpb.TxRaw) {
				for n := r.Intn(3); n > 0; n-- {
					x.Signatures = append(x.Signatures, hostileBytes(r))
				}
			}
			f.ev["signed"]++
			f.both(t.Encode())
		case 9: // hostile accounts, which are then used
			i := 10 + r.Intn(20)
			t := valid()
			t.Msgs = msgs(&authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: K(i).Addr, PubKey: hostileAny(r, 1), Sequence: hostileUint(r), AccountNumber: hostileUint(r)}},
				&bankpb.MsgSendCoins{FromAddress: t.Signers[0].Key.Addr, ToAddress: K(i).Addr, Amount: coinList(50, "stake")})
			f.ev["signed"]++
			f.both(t.Encode())
			u := valid()
			u.Signers = []SignerSpec{f.signer(i)}
			u.Msgs = msgs(&bankpb.MsgSendCoins{FromAddress: K(i).Addr, ToAddress: K(0).Addr, Amount: coinList(1, "stake")})
			f.both(u.Encode())
			f.query(types.RequestQuery{Path: "get/" + (&authnpb.Account{}).APIDefinition().Group + "/Account/" + K(i).Addr})
		case 10: // deep or wide
			t := valid()
			switch r.Intn(4) {
			case 0:
				t.Msgs = msgs(nestAny(t.Msgs[0], 1+r.Intn(400)))
			case 1:
				m := t.Msgs[0]
				for n := r.Intn(300); n > 0; n-- {
					t.Msgs = append(t.Msgs, m)
				}
			case 2:
				s := t.Signers[0]
				for n := r.Intn(30); n > 0; n-- {
					t.Signers = append(t.Signers, s)
				}
			default: // multi signature infos nested in each other
				mi := &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Single_{Single: &authnpb.ModeInfo_Single{Mode: 1}}}
				for n := r.Intn(3000); n > 0; n-- {
					mi = &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Multi_{Multi: &authnpb.ModeInfo_Multi{ModeInfos: []*authnpb.ModeInfo{mi}}}}
				}
				t.Auth = func(a *authnpb.AuthInfo) { a.SignerInfos[0].ModeInfo = mi }
			}
			f.both(t.Encode())
		case 11: // raw nesting
			n := 1 + r.Intn(20000)
			var b []byte
			for j := 0; j < n; j++ {
				b = protowire.AppendTag(b, protowire.Number(1+r.Intn(3)), protowire.StartGroupType)
			}
			f.both(b)
		default:
		}
		// queries
		switch r.Intn(4) {
		case 0:
			obj := objectTypes[r.Intn(len(objectTypes))]
			d := obj.APIDefinition()
			id := hostileString(r)
			if chance(r, .3) {
				id = pick(r, "unique", K(r.Intn(9)).Addr, "")
			}
			f.query(types.RequestQuery{Path: strings.Join([]string{"get", d.Group, d.Kind, id}, "/"), Data: hostileBytes(r), Height: int64(hostileUint(r)), Prove: chance(r, .3)})
		case 1:
			var parts []string
			for n := r.Intn(7); n > 0; n-- {
				parts = append(parts, pick(r, "get", "list", "api_resources", "", hostileString(r), "tmos.authn.v1alpha1", "Account", "authn.v1alpha1"))
			}
			f.query(types.RequestQuery{Path: strings.Join(parts, "/"), Data: hostileBytes(r), Height: int64(hostileUint(r))})
		case 2:
			f.query(types.RequestQuery{Path: string(randBytes(r, r.Intn(50)))})
		}
		if i%20 == 19 {
			f.alive()
		}
	}
	f.alive()
	// the decoder on its own
	for i := 0; i < 60; i++ {
		b := pieces()
		for n := 1 + r.Intn(4); n > 0; n-- {
			b = mutateWire(r, b, 0)
		}
		f.call("decode", b, func() (uint32, string) {
			if _, err := dec.DecodeTx(b); err != nil {
				return 1, ""
			}
			return 0, ""
		})
	}
	if k.Idx%4 == 0 {
		noDecoder(f)
	}
}

// noDecoder has an application without transaction decoder refuse everything.
func noDecoder(f *fuzzNode) {
	r := f.k.R
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		ms := []module.Module{rbac.NewModule(), authn.NewModule(), bank.NewModule()}
		for _, m := range ms[:r.Intn(4)] {
			b.AddModule(m)
		}
		run, err = b.Build()
	})
	defer closeDBs(dbs)
	if err != nil {
		f.fail("no-decoder", "an application without decoder is not built: %v", err)
		return
	}
	app := rt.NewABCIApplication(run)
	pv, st := safe(func() { app.InitChain(types.RequestInitChain{ChainId: "x"}); app.BeginBlock(types.RequestBeginBlock{}) })
	if pv != nil {
		f.fail("no-decoder", "an application without decoder does not start: %v %s", pv, st)
		return
	}
	for i := 0; i < 40; i++ {
		b := randBytes(r, r.Intn(100))
		if chance(r, .5) {
			b = (&TxSpec{Signers: []SignerSpec{{Key: K(1)}}, Fee: coinList(1, "foo"), Msgs: msgs(&bankpb.MsgSendCoins{})}).Encode()
		}
		f.ev["no_decoder"]++
		x := f.call("checktx", b, func() (uint32, string) { r := app.CheckTx(types.RequestCheckTx{Tx: b}); return r.Code, r.Log })
		y := f.call("delivertx", b, func() (uint32, string) { r := app.DeliverTx(types.RequestDeliverTx{Tx: b}); return r.Code, r.Log })
		if x == 0 || y == 0 {
			f.fail("no-decoder", "without a decoder a transaction is accepted: CheckTx %d DeliverTx %d", x, y)
		}
	}
}

var _ = anypb.Any{}
