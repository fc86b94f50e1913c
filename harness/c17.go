package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	tmabci "github.com/fdymylja/tmos/core/abci/tendermint/abci"
	tmcrypto "github.com/fdymylja/tmos/core/abci/tendermint/crypto"
	abcipb "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/proto/tendermint/crypto"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	tmversion "github.com/tendermint/tendermint/proto/tendermint/version"
	"google.golang.org/protobuf/proto"
)

// seenABCI is what a module reads of the consensus information at one point.
type seenABCI struct {
	at      string
	chain   string
	stage   abcipb.ABCIStage
	height  uint64
	end     *abcipb.EndBlockState
	begin   *abcipb.BeginBlockState
	updates []*tmabci.ValidatorUpdate
	err     error
}

// watchModule observes consensus information from inside the handlers of
// another module and sets validator updates as planned.
type watchModule struct {
	name string
	c    module.Client
	plan []*tmabci.ValidatorUpdate // set at the next opportunity if not nil
	errs []string                  // outcome of attempts: at=error
	seen []seenABCI
	each func(at string, c module.Client)
}

func (m *watchModule) read(at string) {
	s := seenABCI{at: at, begin: &abcipb.BeginBlockState{}, end: &abcipb.EndBlockState{}}
	var info abcipb.InitChainInfo
	var st abcipb.Stage
	var cb abcipb.CurrentBlock
	var vu abcipb.ValidatorUpdates
	for _, o := range []meta.StateObject{&info, &st, &cb, &vu, s.begin, s.end} {
		if err := m.c.Get(meta.SingletonID, o); err != nil {
			s.err = fmt.Errorf("%s: %w", meta.Name(o), err)
		}
	}
	s.chain, s.stage, s.height, s.updates = info.ChainId, st.Stage, cb.BlockNumber, vu.ValidatorUpdates
	m.seen = append(m.seen, s)
	if m.each != nil {
		m.each(at, m.c)
	}
}

func (m *watchModule) attempt(at string) {
	if m.plan == nil {
		return
	}
	err := m.c.Deliver(&abcipb.MsgSetValidatorUpdates{ValidatorUpdates: m.plan})
	res := "ok"
	if err != nil {
		res = "error: " + err.Error()
	}
	m.errs = append(m.errs, at+"="+res)
	m.read(at + "+set")
}

func (m *watchModule) hook(at string) statetransition.PostExecutionHandlerFunc {
	return func(statetransition.PostExecutionRequest) error {
		m.read(at)
		m.attempt(at)
		return nil
	}
}

func (m *watchModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	name := m.name
	if name == "" {
		name = "zzwatch"
	}
	b := module.NewDescriptorBuilder().Named(name).
		NeedsStateTransition(&abcipb.MsgSetValidatorUpdates{}).
		NeedsStateTransition(&abcipb.MsgSetCheckTxState{}).
		NeedsStateTransition(&abcipb.MsgSetDeliverTxState{}).
		WithPostStateTransitionHandler(&abcipb.MsgSetInitChain{}, m.hook("init")).
		WithPostStateTransitionHandler(&abcipb.MsgSetBeginBlockState{}, m.hook("begin")).
		WithPostStateTransitionHandler(&abcipb.MsgSetEndBlockState{}, m.hook("end")).
		WithPostStateTransitionHandler(&bankpb.MsgSendCoins{}, m.hook("tx"))
	d := b.Build()
	addPreExec(&d, &testpb.MsgCreatePost{}, statetransition.PreExecutionHandlerFunc(func(statetransition.PreExecutionRequest) error {
		m.read("tx")
		m.attempt("tx")
		return nil
	}))
	return d
}

func rTime(r *rand.Rand) time.Time {
	switch r.Intn(4) {
	case 0:
		return time.Time{}
	case 1:
		return time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC()
	default:
		return time.Unix(1600000000+r.Int63n(1e8), int64(r.Intn(1e9))).UTC()
	}
}

func rHash(r *rand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return randBytes(r, r.Intn(70))
	case 2:
		return append(make([]byte, 16), randBytes(r, 16)...)
	}
	return randBytes(r, 32)
}

func rInt64(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return r.Int63()
	case 2:
		return -r.Int63n(1000)
	case 3:
		return 1<<63 - 1
	}
	return r.Int63n(1 << 40)
}

func randBegin(r *rand.Rand, chain string, h int64) types.RequestBeginBlock {
	q := types.RequestBeginBlock{Hash: rHash(r), Header: tmproto.Header{
		Version: tmversion.Consensus{Block: uint64(r.Intn(20)), App: uint64(rInt64(r))},
		ChainID: chain, Height: h, Time: rTime(r),
		LastBlockId:    tmproto.BlockID{Hash: rHash(r), PartSetHeader: tmproto.PartSetHeader{Total: r.Uint32(), Hash: rHash(r)}},
		LastCommitHash: rHash(r), DataHash: rHash(r), ValidatorsHash: rHash(r), NextValidatorsHash: rHash(r),
		ConsensusHash: rHash(r), AppHash: rHash(r), LastResultsHash: rHash(r), EvidenceHash: rHash(r), ProposerAddress: rHash(r),
	}}
	if chance(r, .3) {
		return q
	}
	q.LastCommitInfo.Round = r.Int31n(5)
	for n := r.Intn(5); n > 0; n-- {
		q.LastCommitInfo.Votes = append(q.LastCommitInfo.Votes, types.VoteInfo{Validator: types.Validator{Address: rHash(r), Power: rInt64(r)}, SignedLastBlock: chance(r, .6)})
	}
	for n := r.Intn(3); n > 0; n-- {
		q.ByzantineValidators = append(q.ByzantineValidators, types.Evidence{Type: types.EvidenceType(r.Intn(3)), Validator: types.Validator{Address: rHash(r), Power: rInt64(r)},
			Height: rInt64(r), Time: rTime(r), TotalVotingPower: rInt64(r)})
	}
	return q
}

func randUpdates(r *rand.Rand) []*tmabci.ValidatorUpdate {
	us := []*tmabci.ValidatorUpdate{}
	for n := r.Intn(7); n > 0; n-- {
		u := &tmabci.ValidatorUpdate{Power: rInt64(r), PubKey: &tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: randBytes(r, 32)}}}
		if chance(r, .4) {
			u.PubKey.Sum = &tmcrypto.PublicKey_Secp256K1{Secp256K1: K(r.Intn(6)).Pub}
		}
		us = append(us, u)
		if chance(r, .1) {
			us = append(us, proto.Clone(u).(*tmabci.ValidatorUpdate))
		}
	}
	return us
}

// updString renders updates of either representation.
func updString(l interface{}) string {
	s := ""
	switch l := l.(type) {
	case []*tmabci.ValidatorUpdate:
		for _, u := range l {
			s += fmt.Sprintf("%s/%x=%d;", kindOf(u.PubKey.GetEd25519() != nil), append(u.PubKey.GetEd25519(), u.PubKey.GetSecp256K1()...), u.Power)
		}
	case []types.ValidatorUpdate:
		for _, u := range l {
			_, ed := u.PubKey.Sum.(*crypto.PublicKey_Ed25519)
			s += fmt.Sprintf("%s/%x=%d;", kindOf(ed), append(u.PubKey.GetEd25519(), u.PubKey.GetSecp256K1()...), u.Power)
		}
	}
	return s
}

func kindOf(ed bool) string {
	if ed {
		return "ed"
	}
	return "secp"
}

func c17(c *Ctx) {
	c.Rule("one read of the consensus information inside a handler, distinct by point and content; one end of block, distinct by updates")
	c.Assume("after a block in which no updates were set EndBlock may return the updates set last or none", "import of a genesis file is not implemented in the repository and not covered")
	c.Cases("lifecycle", c.N(240, 2500), c17case)
	c.Expect("reads", 3000)
	c.Expect("updates_returned", 300)
	c.Expect("updates_refused", 500)
	c.Expect("external_attempts", 100)
	c.Expect("stages", 200)
}

func c17case(k *Case) {
	r := k.R
	chain := pick(r, "chain-"+fmt.Sprint(r.Intn(1000)), "x", "test-chain.1/é", randText(r, 40))
	wm := &watchModule{name: pick(r, "zzwatch", "a-watcher", "validators")}
	var last []*tmabci.ValidatorUpdate // set last successfully
	if chance(r, .5) {
		wm.plan = randUpdates(r)
		last = wm.plan
	}
	o := WorldOpts{Chain: chain, NoInit: true, NoFees: false, Extra: []module.Module{wm}}
	if chance(r, .3) {
		o.Extra, o.Before = nil, []module.Module{wm}
	}
	for i := 0; i < 3; i++ {
		o.Accounts = append(o.Accounts, GenAcc{Addr: K(i).Addr, Coins: coinList(1000000, "stake")})
	}
	w := newWorld(o)
	defer w.Close()
	var vals []types.ValidatorUpdate
	for _, u := range randUpdates(r) {
		vals = append(vals, u.ToLegacy())
	}
	resp := w.App.InitChain(types.RequestInitChain{ChainId: chain, Validators: vals, InitialHeight: int64(r.Intn(5))})
	_ = resp
	var begun types.RequestBeginBlock
	haveBegun := false
	var ended int64
	compare := func(stage abcipb.ABCIStage, at string, strict bool) {
		for _, s := range wm.seen {
			k.Count("reads", 1)
			k.Eval(fmt.Sprintf("%s %s %v %d %s", s.at, s.chain, s.stage, s.height, updString(s.updates)))
			if s.err != nil {
				k.Fail("unreadable", "at %s: %v", s.at, s.err)
				continue
			}
			if s.chain != chain {
				k.Fail("chain-id", "at %s modules read chain id %q of chain %q", s.at, s.chain, chain)
			}
			if strict && s.stage != stage {
				k.Fail("stage", "at %s modules read stage %v instead of %v", s.at, s.stage, stage)
			}
			if haveBegun {
				if int64(s.height) != begun.Header.Height {
					k.Fail("height", "at %s modules read height %d in block %d", s.at, s.height, begun.Header.Height)
				}
				b, err := proto.Marshal(s.begin.BeginBlock)
				var got types.RequestBeginBlock
				if err == nil {
					err = got.Unmarshal(b)
				}
				if err != nil {
					k.Fail("header", "at %s the block's header can not be read back: %v", s.at, err)
					continue
				}
				x, _ := got.Marshal()
				y, _ := begun.Marshal()
				if !bytes.Equal(x, y) {
					k.Fail("header", "at %s modules read begin block\n%v\ninstead of\n%v", s.at, got, begun)
				}
			}
			if s.end.EndBlock.GetHeight() != ended {
				k.Fail("end-height", "at %s modules read end block height %d instead of %d", s.at, s.end.EndBlock.GetHeight(), ended)
			}
		}
		wm.seen = nil
	}
	compare(abcipb.ABCIStage_InitChain, "init", true)
	outcome := func(want string) {
		for _, e := range wm.errs {
			ok := bytes.HasSuffix([]byte(e), []byte("=ok"))
			if want == "ok" && !ok {
				k.Fail("updates-rejected", "setting validator updates fails: %s", e)
			}
			if want != "ok" {
				k.Count("updates_refused", 1)
				if ok {
					k.Fail("updates-any-stage", "validator updates could be set outside init chain and end block: %s", e)
				}
			}
		}
		wm.errs = nil
	}
	outcome("ok")
	h := int64(r.Intn(5))
	if chance(r, .3) { // long-lived chains
		h = int64(pickN(r, 100, 254, 65534, 1<<31-3, 1<<32-3, 1<<32+7, 1<<53, 1<<62))
	}
	seq := map[int]uint64{}
	for n := 3 + r.Intn(6); n > 0 && !k.Failed(); n-- {
		h += int64(1 + r.Intn(3))
		if h > 9 && chance(r, .08) { // as after a rollback
			h -= int64(3 + r.Intn(6))
			k.Count("lower_heights", 1)
		}
		begun = randBegin(r, chain, h)
		if chance(r, .1) {
			begun.Header.ChainID = "another-chain"
		}
		haveBegun = true
		w.Height = h
		wm.plan = nil
		if chance(r, .3) {
			wm.plan = randUpdates(r)
		}
		w.App.BeginBlock(begun)
		compare(abcipb.ABCIStage_BeginBlock, "begin", true)
		outcome("refused")
		for t := r.Intn(4); t > 0; t-- {
			wm.plan = nil
			if chance(r, .4) {
				wm.plan = randUpdates(r)
			}
			i := r.Intn(3)
			sp := &TxSpec{Signers: []SignerSpec{{Key: K(i), Seq: seq[i], AccNum: uint64(i)}}, Fee: coinList(1, "stake"), Chain: chain,
				Msgs: msgs(&bankpb.MsgSendCoins{FromAddress: K(i).Addr, ToAddress: K(r.Intn(5)).Addr, Amount: coinList(1+r.Intn(9), "stake")})}
			if chance(r, .4) {
				sp.Msgs = append(sp.Msgs, &testpb.MsgCreatePost{Creator: "x", Title: ""})
			}
			ext := chance(r, .35)
			if ext { // an external account sets consensus information
				ms := []proto.Message{
					&abcipb.MsgSetValidatorUpdates{ValidatorUpdates: randUpdates(r)},
					&abcipb.MsgSetInitChain{InitChainInfo: &abcipb.InitChainInfo{ChainId: "mine"}},
					&abcipb.MsgSetBeginBlockState{BeginBlock: &tmabci.RequestBeginBlock{Hash: []byte("mine")}},
					&abcipb.MsgSetEndBlockState{EndBlock: &tmabci.RequestEndBlock{Height: 99}},
					&abcipb.MsgSetCheckTxState{CheckTx: &tmabci.RequestCheckTx{Tx: []byte("mine")}},
					&abcipb.MsgSetDeliverTxState{DeliverTx: &tmabci.RequestDeliverTx{Tx: []byte("mine")}},
				}
				sp.Msgs = []proto.Message{ms[r.Intn(len(ms))]}
			}
			before := w.RawABCI()
			d := w.Deliver(sp.Encode())
			seq[i]++
			if ext {
				k.Count("external_attempts", 1)
				if d.Code == 0 {
					k.Fail("external", "an account delivered %T", sp.Msgs[0])
				}
				u := user.NewUsersFromString(K(i).Addr)
				if w.RT.Update(u, &abcipb.ValidatorUpdates{}) == nil || w.RT.Update(u, &abcipb.InitChainInfo{ChainId: "mine"}) == nil {
					k.Fail("external", "an account updated consensus information")
				}
			} else if d.Code != 0 {
				k.Fail("tx", "a transaction watched by a module fails: %s", d.Log)
			}
			if d := diffDump(before, w.RawABCI()); len(d) > 0 {
				k.Fail("changed", "a transaction changed consensus information: %v", d)
			}
			compare(0, "tx", false)
			outcome("refused")
		}
		if chance(r, .4) { // the other stages
			for _, st := range []struct {
				t     meta.StateTransition
				stage abcipb.ABCIStage
			}{
				{&abcipb.MsgSetCheckTxState{CheckTx: &tmabci.RequestCheckTx{Tx: randBytes(r, 9)}}, abcipb.ABCIStage_CheckTx},
				{&abcipb.MsgSetCheckTxState{CheckTx: &tmabci.RequestCheckTx{Tx: randBytes(r, 9), Type: tmabci.CheckTxType_RECHECK}}, abcipb.ABCIStage_ReCheckTx},
				{&abcipb.MsgSetDeliverTxState{DeliverTx: &tmabci.RequestDeliverTx{Tx: randBytes(r, 9)}}, abcipb.ABCIStage_DeliverTx},
			}[r.Intn(2):] {
				if err := wm.c.Deliver(st.t); err != nil {
					k.Fail("stage", "a module that needs it cannot set %T: %v", st.t, err)
					return
				}
				wm.plan = randUpdates(r)
				wm.read("stage")
				wm.attempt("stage")
				compare(st.stage, "stage", true)
				outcome("refused")
				k.Count("stages", 1)
			}
		}
		wm.plan = nil
		set := chance(r, .6)
		if set {
			wm.plan = randUpdates(r)
			last = wm.plan
		}
		ended = h
		if chance(r, .1) {
			ended = h + 1000
		}
		res := w.App.EndBlock(types.RequestEndBlock{Height: ended})
		compare(abcipb.ABCIStage_EndBlock, "end", true)
		outcome("ok")
		got, want := updString(res.ValidatorUpdates), updString(last)
		k.Count("updates_returned", int64(len(res.ValidatorUpdates)))
		k.Eval("end " + got)
		if got != want && (set || got != "") {
			k.Fail("updates", "EndBlock returns validator updates\n%s\ninstead of\n%s", got, want)
		}
		if res.ConsensusParamUpdates != nil {
			k.Fail("updates", "EndBlock changes consensus parameters")
		}
		w.App.Commit()
	}
}

// RawABCI is the raw state of the abci module.
func (w *World) RawABCI() map[string]string {
	p := (&abcipb.Stage{}).APIDefinition().Group + "."
	out := map[string]string{}
	for key, v := range w.Dump() {
		if len(key) > 2+len(p) && key[2:2+len(p)] == p {
			out[key] = v
		}
	}
	return out
}
