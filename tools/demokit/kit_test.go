package zz_demo

import (
	"crypto/sha256"
	"encoding/json"
	"testing"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/x/authn"
	"github.com/fdymylja/tmos/x/authn/crypto/secp256k1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	"github.com/fdymylja/tmos/x/bank"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/fdymylja/tmos/x/distribution"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	"github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

type app struct {
	rt.ABCIApplication
	t    *testing.T
	run  *rt.Runtime
	mod  module.Client
	num  map[string]uint64
	seq  map[string]uint64
	keys map[string]*secp256k1.PrivKey
	need []meta.StateTransition
}

func (a *app) Initialize(c module.Client) module.Descriptor {
	a.mod = c
	b := module.NewDescriptorBuilder().Named("demo").
		NeedsStateTransition(&authnpb.MsgCreateAccount{}).NeedsStateTransition(&bankpb.MsgSetBalance{}).WithGenesis(a)
	for _, n := range a.need {
		b.NeedsStateTransition(n)
	}
	return b.Build()
}
func (a *app) Default() error {
	for i := 0; i < 3; i++ {
		addr := a.addr(i)
		if err := a.mod.Deliver(&authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: addr}}); err != nil {
			return err
		}
		a.num[addr] = uint64(i)
		if err := a.mod.Deliver(&bankpb.MsgSetBalance{Address: addr, Amount: coins("1000", "foo")}); err != nil {
			return err
		}
	}
	return nil
}
func (a *app) Import(json.RawMessage) error     { return nil }
func (a *app) Export() (json.RawMessage, error) { return nil, nil }

func coins(kv ...string) (l []*coinpb.Coin) {
	for i := 0; i < len(kv); i += 2 {
		l = append(l, &coinpb.Coin{Amount: kv[i], Denom: kv[i+1]})
	}
	return
}

// newApp starts a chain with three accounts holding 1000foo each.
func newApp(t *testing.T, need []meta.StateTransition, extra ...module.Module) *app {
	a := &app{t: t, num: map[string]uint64{}, seq: map[string]uint64{}, keys: map[string]*secp256k1.PrivKey{}, need: need}
	b := rt.NewBuilder()
	an := authn.NewModule()
	b.AddModule(an)
	b.SetDecoder(an.GetTxDecoder())
	b.AddModule(rbac.NewModule())
	b.AddModule(bank.NewModule())
	b.AddModule(distribution.NewModule())
	for _, m := range extra {
		b.AddModule(m)
	}
	b.AddModule(a)
	run, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	a.run = run
	a.ABCIApplication = rt.NewABCIApplication(run)
	a.InitChain(types.RequestInitChain{ChainId: "demo"})
	a.begin(1)
	return a
}

func (a *app) begin(h int64) {
	a.BeginBlock(types.RequestBeginBlock{Header: tmproto.Header{Height: h, ChainID: "demo"}})
}

func (a *app) key(i int) *secp256k1.PrivKey {
	h := sha256.Sum256([]byte{byte(i), 'k'})
	return &secp256k1.PrivKey{Key: h[:]}
}
func (a *app) addr(i int) string {
	s, err := bech32.ConvertAndEncode("test", a.key(i).PubKey().Address())
	if err != nil {
		a.t.Fatal(err)
	}
	return s
}

type txOpt struct {
	fee   []*coinpb.Coin
	payer string
	memo  string
	edit  func(b *authnpb.TxBody, i *authnpb.AuthInfo)
}

// tx signs a transaction of the accounts.
func (a *app) tx(o txOpt, signers []int, msgs ...proto.Message) []byte {
	any := func(m proto.Message) *anypb.Any {
		b, err := proto.Marshal(m)
		if err != nil {
			a.t.Fatal(err)
		}
		return &anypb.Any{TypeUrl: "/" + string(m.ProtoReflect().Descriptor().FullName()), Value: b}
	}
	body := &authnpb.TxBody{Memo: o.memo}
	for _, m := range msgs {
		body.Messages = append(body.Messages, any(m))
	}
	fee := o.fee
	if fee == nil {
		fee = coins("1", "foo")
	}
	info := &authnpb.AuthInfo{Fee: &authnpb.Fee{Amount: fee, Payer: o.payer}}
	for _, s := range signers {
		info.SignerInfos = append(info.SignerInfos, &authnpb.SignerInfo{PublicKey: any(a.key(s).PubKey().(proto.Message)), Sequence: a.seq[a.addr(s)],
			ModeInfo: &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Single_{Single: &authnpb.ModeInfo_Single{Mode: authnpb.SignMode_SIGN_MODE_DIRECT}}}})
	}
	if o.edit != nil {
		o.edit(body, info)
	}
	bb, _ := proto.Marshal(body)
	ib, _ := proto.Marshal(info)
	raw := &authnpb.TxRaw{BodyBytes: bb, AuthInfoBytes: ib}
	for _, s := range signers {
		doc, err := authn.DirectSignBytes(bb, ib, "demo", a.num[a.addr(s)])
		if err != nil {
			a.t.Fatal(err)
		}
		sig, err := a.key(s).Sign(doc)
		if err != nil {
			a.t.Fatal(err)
		}
		raw.Signatures = append(raw.Signatures, sig)
	}
	b, _ := proto.Marshal(raw)
	return b
}

// deliver signs and delivers, counting sequences as the specification says.
func (a *app) deliver(o txOpt, signers []int, msgs ...proto.Message) types.ResponseDeliverTx {
	r := a.DeliverTx(types.RequestDeliverTx{Tx: a.tx(o, signers, msgs...)})
	for _, s := range signers {
		acc := new(authnpb.Account)
		if err := a.run.Get(meta.NewStringID(a.addr(s)), acc); err == nil {
			a.seq[a.addr(s)] = acc.Sequence
		}
	}
	return r
}

func (a *app) balance(addr string) string {
	b := new(bankpb.Balance)
	if err := a.run.Get(meta.NewStringID(addr), b); err != nil {
		return "none"
	}
	s := ""
	for _, c := range b.Balance {
		s += c.Amount + c.Denom + " "
	}
	return s
}

func send(from, to string, c []*coinpb.Coin) *bankpb.MsgSendCoins {
	return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: to, Amount: c}
}
