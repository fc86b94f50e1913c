package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/dgraph-io/badger/v3"
	"github.com/dgraph-io/badger/v3/y"
	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	"github.com/fdymylja/tmos/x/authn"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// World is one running application together with raw access to its databases.
type World struct {
	checks int
	App    rt.ABCIApplication
	RT     *rt.Runtime
	DBs    []*badger.DB
	Chain  string
	Height int64
	Mod    module.Client // client of the harness module ("zzharness")
	Post   *postModule

	BeginReq func(h int64) types.RequestBeginBlock // made up header
	Rec      *[]abciOp                             // record of consensus calls
}

// abciOp is one recorded consensus call: its name, its encoded request and
// digests of the response and the state after it.
type abciOp struct {
	Call string
	Req  []byte
	Out  string
}

// captureDBs runs build and returns the databases it opened. Applications are
// built concurrently, the goroutine tells whose a database is.
var capturing sync.Map

func init() {
	kv.VerifOnOpen = func(db *badger.DB) {
		if l, ok := capturing.Load(goid()); ok {
			dbs := l.(*[]*badger.DB)
			*dbs = append(*dbs, db)
		}
	}
}

// goid identifies the current goroutine ("goroutine 12 [running]:...").
func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	return strings.SplitN(strings.TrimPrefix(string(b[:n]), "goroutine "), " ", 2)[0]
}

func captureDBs(build func()) []*badger.DB {
	var dbs []*badger.DB
	id := goid()
	capturing.Store(id, &dbs)
	defer capturing.Delete(id)
	build()
	return dbs
}

func closeDBs(dbs []*badger.DB) {
	for _, db := range dbs {
		_ = db.Close()
	}
}

var openReadsFound int32

// openReads tells how many of the stores still have a transaction open for
// reading: one which was begun for a request and never ended.
func openReads(dbs []*badger.DB) int {
	return openReadsFor(dbs, 20*time.Second)
}

// checkReleased fails the case if requests which ended left something open in
// the stores.
func (k *Case) checkReleased(dbs []*badger.DB, requests string) {
	if k.Failed() || len(dbs) == 0 {
		return
	}
	k.Count("stores_released", 1)
	if n := openReads(dbs); n > 0 {
		k.Fail("held", "%d stores still have a transaction open for reading after %s", n, requests)
	}
}

func openReadsFor(dbs []*badger.DB, wait time.Duration) int {
	if atomic.LoadInt32(&openReadsFound) > 4 {
		return 0 // known by now, spare the waiting
	}
	n := 0
	for _, db := range dbs {
		f := reflect.ValueOf(db).Elem().FieldByName("orc")
		if !f.IsValid() || f.IsNil() {
			continue
		}
		if f = f.Elem().FieldByName("readMark"); !f.IsValid() {
			continue
		}
		mark, ok := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(*y.WaterMark)
		if !ok || mark == nil {
			continue
		}
		txn := db.NewTransaction(false)
		ts := txn.ReadTs()
		txn.Discard()
		// everything up to ts is done unless a transaction which began before is not
		for end := time.Now().Add(wait); mark.DoneUntil() < ts; time.Sleep(time.Millisecond) {
			if time.Now().After(end) {
				n++
				atomic.AddInt32(&openReadsFound, 1)
				break
			}
		}
	}
	return n
}

func (w *World) Close() {
	closeDBs(w.DBs)
}

// GenAcc is an account (and/or balance) of the genesis state.
type GenAcc struct {
	Addr   string
	PubKey []byte // compressed key recorded at genesis; nil records none
	Coins  []*coinpb.Coin
	NoAcc  bool // only a balance
	NoBal  bool // only an account
}

type WorldOpts struct {
	Chain    string
	Accounts []GenAcc
	Params   *authnpb.Params
	Extra    []module.Module
	Before   []module.Module // registered before authn
	NoFees   bool
	NoInit   bool
	Genesis  func(c module.Client) error
	Wrap     func(d authentication.TxDecoder) authentication.TxDecoder
}

const nativePKURL = "/tmos.x.authn.crypto.v1alpha1.PubKey"
const cosmosPKURL = "/cosmos.crypto.secp256k1.PubKey"

func newWorld(o WorldOpts) *World {
	w, err := tryWorld(o)
	if err != nil {
		panic(startFailure(err.Error()))
	}
	return w
}

func tryWorld(o WorldOpts) (*World, error) {
	w := &World{Chain: o.Chain}
	if w.Chain == "" {
		w.Chain = "verif-chain"
	}
	var err error
	w.DBs = captureDBs(func() {
		b := rt.NewBuilder()
		for _, m := range o.Before {
			b.AddModule(m)
		}
		a := authn.NewModule()
		b.AddModule(a)
		dec := a.GetTxDecoder()
		if o.Wrap != nil {
			dec = o.Wrap(dec)
		}
		b.SetDecoder(dec)
		b.AddModule(rbac.NewModule())
		b.AddModule(bank.NewModule())
		if !o.NoFees {
			b.AddModule(distribution.NewModule())
		}
		w.Post = &postModule{}
		b.AddModule(w.Post)
		for _, m := range o.Extra {
			b.AddModule(m)
		}
		b.AddModule(&genesisModule{o: o, w: w})
		w.RT, err = b.Build()
	})
	if err != nil {
		w.Close()
		return nil, err
	}
	w.App = rt.NewABCIApplication(w.RT)
	if !o.NoInit {
		w.App.InitChain(types.RequestInitChain{ChainId: w.Chain})
	}
	return w, nil
}

func (w *World) Begin(h int64) {
	w.Height = h
	q := types.RequestBeginBlock{Header: tmproto.Header{Height: h, ChainID: w.Chain}}
	if w.BeginReq != nil {
		q = w.BeginReq(h)
	}
	w.App.BeginBlock(q)
	b, _ := q.Marshal()
	w.record("begin", b, "")
}
func (w *World) End() types.ResponseEndBlock {
	q := types.RequestEndBlock{Height: w.Height}
	res := w.App.EndBlock(q)
	b, _ := q.Marshal()
	w.record("end", b, outOf(res))
	return res
}
func (w *World) commit() {
	w.record("commit", nil, outOf(w.App.Commit()))
}
func (w *World) record(call string, req []byte, out string) {
	if w.Rec != nil {
		*w.Rec = append(*w.Rec, abciOp{call, req, out + "|" + w.Digest()})
	}
}

// outOf renders the consensus relevant parts of a response.
func outOf(res interface{}) string {
	switch x := res.(type) {
	case types.ResponseDeliverTx:
		return fmt.Sprintf("%d %x %d %d %v", x.Code, x.Data, x.GasWanted, x.GasUsed, x.Events)
	case types.ResponseEndBlock:
		return fmt.Sprintf("%s %v %v", updString(x.ValidatorUpdates), x.ConsensusParamUpdates, x.Events)
	case types.ResponseCommit:
		return fmt.Sprintf("%x %d", x.Data, x.RetainHeight)
	case types.ResponseInitChain:
		return fmt.Sprintf("%x %s %v", x.AppHash, updString(x.Validators), x.ConsensusParams)
	}
	return fmt.Sprint(res)
}

// Digest is a hash of the whole state.
func (w *World) Digest() string {
	d := w.Dump()
	ks := make([]string, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		fmt.Fprintf(h, "%q=%q\n", k, d[k])
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}
func (w *World) NextBlock() {
	if w.Height > 0 {
		w.End()
		w.commit()
	}
	w.Begin(w.Height + 1)
}
func (w *World) Check(b []byte) types.ResponseCheckTx {
	res := w.App.CheckTx(types.RequestCheckTx{Tx: b})
	// transactions that wait are checked again
	if w.checks++; w.checks%3 == 0 {
		w.App.CheckTx(types.RequestCheckTx{Tx: b, Type: types.CheckTxType_Recheck})
	}
	return res
}
func (w *World) Deliver(b []byte) types.ResponseDeliverTx {
	d := w.App.DeliverTx(types.RequestDeliverTx{Tx: b})
	w.record("tx", b, outOf(d))
	return d
}

// genesisModule creates the genesis accounts of a scenario.
type genesisModule struct {
	o WorldOpts
	w *World
	c module.Client
}

func (m *genesisModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	m.w.Mod = c
	return module.NewDescriptorBuilder().Named("zzharness").
		NeedsStateTransition(&authnpb.MsgCreateAccount{}).
		NeedsStateTransition(&bankpb.MsgSetBalance{}).
		NeedsStateTransition(&bankpb.MsgSendCoins{}).
		NeedsStateTransition(&rbacpb.MsgCreateRole{}).
		NeedsStateTransition(&rbacpb.MsgBindRole{}).
		WithGenesis(m).Build()
}

func (m *genesisModule) Default() error {
	if m.o.Params != nil {
		if err := m.c.Update(m.o.Params); err != nil {
			return err
		}
	}
	for _, a := range m.o.Accounts {
		if !a.NoAcc {
			acc := &authnpb.Account{Address: a.Addr}
			if a.PubKey != nil {
				acc.PubKey = pkAny(nativePKURL, a.PubKey)
			}
			if err := m.c.Deliver(&authnpb.MsgCreateAccount{Account: acc}); err != nil {
				return err
			}
		}
		if !a.NoBal {
			if err := m.c.Deliver(&bankpb.MsgSetBalance{Address: a.Addr, Amount: a.Coins}); err != nil {
				return err
			}
		}
	}
	if m.o.Genesis != nil {
		return m.o.Genesis(m.c)
	}
	return nil
}
func (m *genesisModule) Import(json.RawMessage) error     { return nil }
func (m *genesisModule) Export() (json.RawMessage, error) { return nil, nil }

func pkAny(url string, key []byte) *anypb.Any {
	b := append([]byte{0x0a, byte(len(key))}, key...)
	return &anypb.Any{TypeUrl: url, Value: b}
}

// postModule stores a Post per MsgCreatePost, keyed by its text. Title "fail"
// makes it fail after the write, title "deny" makes its admission refuse, an
// empty title does nothing but succeed.
type postModule struct{ execs int64 }

func (m *postModule) Initialize(c module.Client) module.Descriptor {
	return module.NewDescriptorBuilder().Named("zzpost").
		OwnsStateObject(&testpb.Post{}, testpb.PostSchema).
		HandlesAdmission(&testpb.MsgCreatePost{}, statetransition.AdmissionHandlerFunc(func(req statetransition.AdmissionRequest) error {
			if req.Transition.(*testpb.MsgCreatePost).Title == "deny" {
				return fmt.Errorf("denied")
			}
			return nil
		})).
		HandlesStateTransition(&testpb.MsgCreatePost{}, statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
			m.execs++
			msg := req.Transition.(*testpb.MsgCreatePost)
			if msg.Title == "" {
				return statetransition.ExecutionResponse{}, nil
			}
			err := c.Create(&testpb.Post{Id: msg.Text, Creator: msg.Creator, Title: msg.Title, Text: msg.Text})
			if err == nil && msg.Title == "fail" {
				err = fmt.Errorf("post fails on demand")
			}
			return statetransition.ExecutionResponse{}, err
		})).Build()
}

// ---- raw observation ----

// Dump returns all key/value pairs of all databases.
func (w *World) Dump() map[string]string {
	return dumpDBs(w.DBs)
}

func dumpDBs(dbs []*badger.DB) map[string]string {
	out := map[string]string{}
	for i, db := range dbs {
		err := db.View(func(txn *badger.Txn) error {
			it := txn.NewIterator(badger.DefaultIteratorOptions)
			defer it.Close()
			for it.Rewind(); it.Valid(); it.Next() {
				item := it.Item()
				v, err := item.ValueCopy(nil)
				if err != nil {
					return err
				}
				out[fmt.Sprintf("%d|", i)+string(item.KeyCopy(nil))] = string(v)
			}
			return nil
		})
		if err != nil {
			panic("harness: dump: " + err.Error())
		}
	}
	return out
}

// diffDump lists keys which differ.
func diffDump(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "-"+k)
		} else if w != v {
			d = append(d, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "+"+k)
		}
	}
	sort.Strings(d)
	return d
}

// View is the decoded application state.
type View struct {
	Raw      map[string]string
	Bal      map[string][]*coinpb.Coin
	Acc      map[string]*authnpb.Account
	Next     uint64
	Params   *authnpb.Params
	Roles    map[string]*rbacpb.Role
	Binds    map[string]string
	Posts    map[string]*testpb.Post
	Oddities []string
}

// objectDB is the prefix of the dump's keys of the object database.
func objectDB(raw map[string]string) string {
	for k := range raw {
		if strings.HasSuffix(k, "CurrentAccountNumber/unique") {
			return k[:2]
		}
	}
	return "0|"
}

// View reads the whole state. Objects are enumerated from the raw database.
func (w *World) View() *View {
	v := &View{Raw: w.Dump(), Bal: map[string][]*coinpb.Coin{}, Acc: map[string]*authnpb.Account{},
		Roles: map[string]*rbacpb.Role{}, Binds: map[string]string{}, Posts: map[string]*testpb.Post{}, Params: &authnpb.Params{}}
	// the object database is the one that holds singletons
	obj := objectDB(v.Raw)
	for k, val := range v.Raw {
		if !strings.HasPrefix(k, obj) {
			continue
		}
		k = k[2:]
		try := func(o meta.StateObject, f func(pk string)) {
			p := meta.Name(o) + "/"
			if !strings.HasPrefix(k, p) {
				return
			}
			if err := proto.Unmarshal([]byte(val), o); err != nil {
				v.Oddities = append(v.Oddities, "undecodable value at "+k)
				return
			}
			f(k[len(p):])
		}
		bal := &bankpb.Balance{}
		try(bal, func(pk string) {
			v.Bal[pk] = bal.Balance
			if bal.Address != pk {
				v.Oddities = append(v.Oddities, "balance of "+bal.Address+" stored at "+k)
			}
		})
		acc := &authnpb.Account{}
		try(acc, func(pk string) {
			v.Acc[pk] = acc
			if acc.Address != pk {
				v.Oddities = append(v.Oddities, "account "+acc.Address+" stored at "+k)
			}
		})
		num := &authnpb.CurrentAccountNumber{}
		try(num, func(string) { v.Next = num.Number })
		par := &authnpb.Params{}
		try(par, func(string) { v.Params = par })
		role := &rbacpb.Role{}
		try(role, func(pk string) { v.Roles[pk] = role })
		rb := &rbacpb.RoleBinding{}
		try(rb, func(pk string) {
			v.Binds[pk] = rb.RoleRef
			if rb.Subject != pk {
				v.Oddities = append(v.Oddities, "binding of "+rb.Subject+" stored at "+k)
			}
		})
		post := &testpb.Post{}
		try(post, func(pk string) { v.Posts[pk] = post })
	}
	return v
}

var _ = client.Client(nil)

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
