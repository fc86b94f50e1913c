package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	sdkclient "github.com/cosmos/cosmos-sdk/client"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/multisig"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdkmultisig "github.com/cosmos/cosmos-sdk/crypto/types/multisig"
	"github.com/cosmos/cosmos-sdk/simapp"
	simparams "github.com/cosmos/cosmos-sdk/simapp/params"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	sdkbank "github.com/cosmos/cosmos-sdk/x/bank/types"
	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/x/authn/tx"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	gogo "github.com/gogo/protobuf/proto"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// C30: transactions made by the unmodified Cosmos SDK client library.

type sdkTools struct{ enc simparams.EncodingConfig }

func newSDK() *sdkTools {
	sdk.GetConfig().SetBech32PrefixForAccount("test", "testpub")
	return &sdkTools{enc: simapp.MakeTestEncodingConfig()}
}

func sdkKey(k *Key) *secp256k1.PrivKey {
	b := make([]byte, 32)
	k.Priv.D.FillBytes(b)
	return &secp256k1.PrivKey{Key: b}
}

func sdkCoins(cs []*coinpb.Coin) (sdk.Coins, bool) {
	var out sdk.Coins
	for _, c := range cs {
		n, ok := new(big.Int).SetString(c.Amount, 10)
		if !ok || n.String() != c.Amount || n.BitLen() > 255 {
			return nil, false
		}
		out = append(out, sdk.Coin{Denom: c.Denom, Amount: sdk.NewIntFromBigInt(n)})
	}
	return out, true
}

func sdkAddr(s string) (sdk.AccAddress, bool) {
	a, err := sdk.AccAddressFromBech32(s)
	// the client's builder writes addresses in their canonical form: one it
	// would write otherwise (upper case, blanks around) is another transaction
	return a, err == nil && a.String() == s
}

// payers are set by the concrete builder only
type sdkPayerBuilder interface {
	SetFeePayer(sdk.AccAddress)
	SetFeeGranter(sdk.AccAddress)
}

// build makes the SDK's rendering of a native specification, or says that the
// SDK cannot express it.
func (s *sdkTools) build(t *TxSpec, mode signing.SignMode) (b []byte, ok bool) {
	defer func() {
		// the SDK client itself refuses some of these by panicking
		if r := recover(); r != nil {
			b, ok = nil, false
		}
	}()
	if t.NoFee || t.Auth != nil || t.Body != nil || t.RawParts != nil {
		return nil, false
	}
	bld := s.enc.TxConfig.NewTxBuilder()
	var ms []sdk.Msg
	for _, m := range t.Msgs {
		x, isSend := m.(*bankpb.MsgSendCoins)
		if !isSend {
			return nil, false
		}
		cs, good := sdkCoins(x.Amount)
		if !good {
			return nil, false
		}
		ms = append(ms, &sdkbank.MsgSend{FromAddress: x.FromAddress, ToAddress: x.ToAddress, Amount: cs})
	}
	if err := bld.SetMsgs(ms...); err != nil {
		return nil, false
	}
	return s.finish(bld, t, mode)
}

func (s *sdkTools) finish(bld sdkclient.TxBuilder, t *TxSpec, mode signing.SignMode) ([]byte, bool) {
	fee, good := sdkCoins(t.Fee)
	if !good {
		return nil, false
	}
	bld.SetFeeAmount(fee)
	bld.SetGasLimit(t.Gas)
	bld.SetMemo(t.Memo)
	bld.SetTimeoutHeight(t.Timeout)
	if t.Payer != "" {
		a, good := sdkAddr(t.Payer)
		if !good {
			return nil, false
		}
		bld.(sdkPayerBuilder).SetFeePayer(a)
	}
	if t.Granter != "" {
		a, good := sdkAddr(t.Granter)
		if !good {
			return nil, false
		}
		bld.(sdkPayerBuilder).SetFeeGranter(a)
	}
	var sigs []signing.SignatureV2
	for _, sg := range t.Signers {
		sigs = append(sigs, signing.SignatureV2{PubKey: sdkKey(sg.Key).PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: sg.Seq})
	}
	if err := bld.SetSignatures(sigs...); err != nil {
		return nil, false
	}
	for i, sg := range t.Signers {
		bz, err := s.enc.TxConfig.SignModeHandler().GetSignBytes(mode, authsigning.SignerData{ChainID: t.Chain, AccountNumber: sg.AccNum, Sequence: sg.Seq}, bld.GetTx())
		if err != nil {
			return nil, false
		}
		sig, err := sdkKey(sg.Key).Sign(bz)
		if err != nil {
			return nil, false
		}
		sigs[i].Data = &signing.SingleSignatureData{SignMode: mode, Signature: sig}
	}
	if err := bld.SetSignatures(sigs...); err != nil {
		return nil, false
	}
	b, err := s.enc.TxConfig.TxEncoder()(bld.GetTx())
	if err != nil {
		return nil, false
	}
	return b, true
}

// c30compare decodes the transaction with both libraries.
func c30compare(k *Case, s *sdkTools, b []byte, t *TxSpec) {
	std, err := s.enc.TxConfig.TxDecoder()(b)
	if err != nil {
		k.Count("sdk_cannot_decode", 1)
		return
	}
	st := std.(authsigning.Tx)
	nat, err := tx.NewDecoder("test").Decode(b)
	if err != nil {
		if len(t.Fee) > 0 && len(t.Msgs) > 0 && len(t.Signers) > 0 && payerSigns(t) {
			k.Fail("decode", "a transaction of the SDK client does not decode: %v (%x)", err, b)
		}
		return
	}
	k.Count("decoded_by_both", 1)
	w := nat.(*tx.Wrapper)
	// signers
	pks := st.GetPubKeys()
	var want []string
	for _, p := range pks {
		want = append(want, sdk.AccAddress(p.Address()).String())
	}
	var got []string
	for _, sg := range w.Signers() {
		got = append(got, sg.Address)
	}
	if !eqStrings(got, want) {
		k.Fail("decode", "the SDK sees signers %v, the node %v", want, got)
	}
	users := map[string]bool{}
	for _, u := range nat.Users().List() {
		users[u.GetName()] = true
	}
	for _, a := range want {
		if !users[a] {
			k.Fail("decode", "signer %s is not among the users", a)
		}
	}
	if len(users) > len(uniq(want)) {
		k.Fail("decode", "users %v, signers %v", users, want)
	}
	sigs, err := st.GetSignaturesV2()
	if err == nil {
		for i, sg := range sigs {
			d, isSingle := sg.Data.(*signing.SingleSignatureData)
			if isSingle && (w.Signers()[i].Sequence != sg.Sequence || string(w.Signers()[i].Signature) != string(d.Signature)) {
				k.Fail("decode", "signature %d differs", i)
			}
		}
	}
	// fee, payer, memo, timeout
	if a, b := fmt.Sprint(coinStr(nat.Fee())), fmt.Sprint(sdkStr(st.GetFee())); a != b {
		k.Fail("decode", "the SDK sees fee %s, the node %s", b, a)
	}
	raw := nat.Raw().(*authnpb.Tx)
	if raw.Body.Memo != st.GetMemo() || raw.Body.TimeoutHeight != st.GetTimeoutHeight() || raw.AuthInfo.Fee.GasLimit != st.GetGas() {
		k.Fail("decode", "the SDK sees memo %q timeout %d gas %d, the node %q %d %d", st.GetMemo(), st.GetTimeoutHeight(), st.GetGas(), raw.Body.Memo, raw.Body.TimeoutHeight, raw.AuthInfo.Fee.GasLimit)
	}
	// the SDK requires signatures in the order of the messages' signers; only
	// then is its idea of the payer defined
	if order, ok := sdkSigners(st); ok && eqStrings(order, want) {
		if p := st.FeePayer().String(); p != nat.Payer() {
			k.Fail("decode", "the SDK sees payer %s, the node %s", p, nat.Payer())
		}
		k.Count("payers_compared", 1)
	}
	ms := st.GetMsgs()
	if len(ms) != len(nat.StateTransitions()) {
		k.Fail("decode", "the SDK sees %d messages, the node %d", len(ms), len(nat.StateTransitions()))
		return
	}
	for i, m := range ms {
		x, y := m.(*sdkbank.MsgSend), nat.StateTransitions()[i]
		z, isSend := y.(*bankpb.MsgSendCoins)
		if !isSend || z.FromAddress != x.FromAddress || z.ToAddress != x.ToAddress || fmt.Sprint(coinStr(z.Amount)) != fmt.Sprint(sdkStr(x.Amount)) {
			k.Fail("decode", "the SDK sees %v, the node %T %v", x, y, y)
		}
	}
}

func sdkSigners(st authsigning.Tx) (out []string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	for _, a := range st.GetSigners() {
		out = append(out, a.String())
	}
	return out, true
}

func payerSigns(t *TxSpec) bool {
	if t.Payer == "" {
		return true
	}
	for _, s := range t.Signers {
		if s.Key.Addr == t.Payer {
			return true
		}
	}
	return false
}

func uniq(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func coinStr(cs []*coinpb.Coin) (out []string) {
	for _, c := range cs {
		out = append(out, c.Amount+"|"+c.Denom)
	}
	return out
}

func sdkStr(cs sdk.Coins) (out []string) {
	for _, c := range cs {
		out = append(out, c.Amount.String()+"|"+c.Denom)
	}
	return out
}

// c30tx draws a transaction of transfers only.
func c30tx(h *Hist) *TxSpec {
	r := h.K.R
	t, tampered, _ := h.genTx()
	if tampered != "" {
		t.PostSign, t.Bytes = nil, nil
	}
	for i, m := range t.Msgs {
		if _, ok := m.(*bankpb.MsgSendCoins); !ok {
			from := t.Signers[r.Intn(len(t.Signers))].Key.Addr
			t.Msgs[i] = &bankpb.MsgSendCoins{FromAddress: from, ToAddress: h.addr(), Amount: h.amount(from)}
		}
	}
	if chance(r, .1) {
		t.Granter = h.Keys[r.Intn(len(h.Keys))].Addr
	}
	if chance(r, .4) { // signers in the order the SDK requires
		var order []SignerSpec
		seen := map[string]bool{}
		add := func(addr string) {
			if seen[addr] {
				return
			}
			seen[addr] = true
			for _, k := range h.Keys {
				if k.Addr == addr {
					order = append(order, h.spec([]*Key{k}).Signers...)
				}
			}
		}
		for _, m := range t.Msgs {
			add(m.(*bankpb.MsgSendCoins).FromAddress)
		}
		if t.Payer != "" {
			add(t.Payer)
		}
		if len(order) > 0 {
			t.Signers = order
		}
	}
	return t
}

func appDump(w *World) map[string]string {
	out := map[string]string{}
	for k, v := range w.Dump() {
		out[k] = v
	}
	return out
}

func c30transfers(c *Ctx) {
	s := newSDK()
	c.Cases("transfers", c.N(96, 700), func(k *Case) {
		r := k.R
		cfg := defaultHist()
		cfg.Keys, cfg.Funded = 6, 4
		cfg.MultiSig, cfg.MaxMsgs = .5, 3
		cfg.Attack, cfg.BadAuth, cfg.Tamper = .12, .2, 0
		cfg.Internal, cfg.FailMsg = 0, .1
		cfg.HugeCoins = chance(r, .4)
		cfg.SmallLimits = chance(r, .4)
		o := histOpts(r, cfg)
		a, b := newWorld(o), newWorld(o)
		defer a.Close()
		defer b.Close()
		ht := int64(1 + r.Intn(4))
		a.Begin(ht)
		b.Begin(ht)
		h := &Hist{K: k, Cfg: cfg, W: a}
		for i := 0; i < cfg.Keys; i++ {
			h.Keys = append(h.Keys, K(i))
		}
		for step := 0; step < 22 && !k.Failed(); step++ {
			if chance(r, .15) {
				a.NextBlock()
				b.NextBlock()
				h.vcur = nil
			}
			t := c30tx(h)
			mode := signing.SignMode_SIGN_MODE_DIRECT
			if chance(r, .1) {
				mode = signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON
			}
			sb, ok := s.build(t, mode)
			if !ok {
				c.Count("not_expressible", 1)
				continue
			}
			nt := *t
			for i := range nt.Signers {
				nt.Signers[i].URL = nativePKURL
			}
			why := ""
			if mode != signing.SignMode_SIGN_MODE_DIRECT {
				why = "sign mode"
				nt.Auth = func(ai *authnpb.AuthInfo) {
					for _, si := range ai.SignerInfos {
						si.ModeInfo = &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Single_{Single: &authnpb.ModeInfo_Single{Mode: authnpb.SignMode_SIGN_MODE_LEGACY_AMINO_JSON}}}
					}
				}
			}
			nb := nt.Encode()
			if mode == signing.SignMode_SIGN_MODE_DIRECT {
				c30compare(k, s, sb, t)
			}
			p := predict(h.view(), a, t, why)
			desc := func() string { return (&Step{Kind: "deliver", Spec: t, Pred: p, Bytes: sb}).describe() }
			if chance(r, .4) {
				ca, cb := a.Check(sb), b.Check(nb)
				if (ca.Code == 0) != (cb.Code == 0) {
					k.Fail("verdict", "CheckTx: SDK transaction code %d (%s), native one code %d (%s): %s", ca.Code, ca.Log, cb.Code, cb.Log, desc())
				}
				c.Count("checked", 1)
			}
			da, db := a.Deliver(sb), b.Deliver(nb)
			if (da.Code == 0) != (db.Code == 0) {
				k.Fail("verdict", "SDK transaction code %d (%s), native one code %d (%s): %s", da.Code, da.Log, db.Code, db.Log, desc())
			}
			if d := diffDump(a.Dump(), b.Dump()); len(d) > 0 {
				k.Fail("effect", "the SDK transaction leaves another state than the native one: %v: %s", d, desc())
			}
			h.vcur = nil
			if (da.Code == 0) != (p.AuthOK && p.MsgOK) {
				k.Fail("verdict", "SDK transaction code %d (%s), specification: auth %v %s, messages %v %s: %s", da.Code, da.Log, p.AuthOK, p.Why, p.MsgOK, p.MsgWhy, desc())
			}
			if d := diffAll(p.Final, modelOf(h.view())); len(d) > 0 {
				k.Fail("effect", "the SDK transaction had another effect than specified: %v: %s", d, desc())
			}
			switch {
			case p.AuthOK && p.MsgOK:
				c.Count("accepted", 1)
				if len(t.Signers) > 1 {
					c.Count("accepted_multi", 1)
				}
				if t.Granter != "" {
					c.Count("accepted_granter", 1)
				}
				if t.Payer != "" {
					c.Count("accepted_payer", 1)
				}
				if t.Memo != "" {
					c.Count("accepted_memo", 1)
				}
				if t.Timeout != 0 {
					c.Count("accepted_timeout", 1)
				}
			case p.AuthOK:
				c.Count("message_failures", 1)
			default:
				c.Count("refused", 1)
				c.Seen("refusal_reasons", strings.SplitN(p.Why, " ", 2)[0])
			}
			c.Eval(fmt.Sprintf("%x", sb))
		}
	})
	c.Expect("accepted", 200)
	c.Expect("accepted_multi", 40)
	c.Expect("accepted_payer", 15)
	c.Expect("accepted_granter", 10)
	c.Expect("accepted_memo", 15)
	c.Expect("accepted_timeout", 10)
	c.Expect("message_failures", 20)
	c.Expect("refused", 100)
	c.Expect("decoded_by_both", 400)
	c.Expect("payers_compared", 150)
}

// c30others: every other SDK message, key and signature type is refused and
// leaves no trace.
func c30others(c *Ctx) {
	s := newSDK()
	urls := map[string]bool{}
	msgs := map[string]bool{}
	for _, i := range s.enc.InterfaceRegistry.ListAllInterfaces() {
		for _, u := range s.enc.InterfaceRegistry.ListImplementations(i) {
			urls[u] = true
			if i == "cosmos.base.v1beta1.Msg" {
				msgs[u] = true
			}
		}
	}
	for _, u := range []string{"/cosmos.bank.v1beta1.MsgSendEnabled", "/cosmos.bank.v1beta2.MsgSend", "/cosmos.bank.v1.MsgSend", "/cosmos.bank.v1beta1.MsgMultiSend", "/cosmos.bank.v1beta1.MsgSen", "/cosmos.bank.v1beta1.Msgsend", "/cosmos.bank.v1beta1.Input", "/cosmos.nft.v1beta1.MsgSend", "/cosmos.authz.v1beta1.MsgExec", "/cosmos.feegrant.v1beta1.MsgGrantAllowance", "/cosmos.bank.v1beta1.MsgSendResponse", "/ibc.applications.transfer.v1.MsgTransfer", "/cosmos.crypto.secp256k1.PubKey"} {
		urls[u] = true
	}
	delete(urls, "/cosmos.bank.v1beta1.MsgSend")
	var list []string
	for u := range urls {
		list = append(list, u)
	}
	sort.Strings(list)
	c.Count("sdk_type_urls", int64(len(list)))
	c.Count("sdk_message_types", int64(len(msgs)))
	c.Cases("others", c.N(32, 160), func(k *Case) {
		r := k.R
		cfg := defaultHist()
		cfg.Funded = 3
		cfg.Keys = 4
		o := histOpts(r, cfg)
		w := newWorld(o)
		defer w.Close()
		w.Begin(1)
		h := &Hist{K: k, Cfg: cfg, W: w}
		for i := 0; i < 4; i++ {
			h.Keys = append(h.Keys, K(i))
		}
		before := w.Dump()
		try := func(what string, b []byte) {
			if cr := w.Check(b); cr.Code == 0 {
				k.Fail("accepted", "CheckTx accepts a transaction with %s", what)
			}
			d := w.Deliver(b)
			if d.Code == 0 {
				k.Fail("accepted", "a transaction with %s is executed", what)
			}
			if x := diffDump(before, w.Dump()); len(x) > 0 {
				k.Fail("effect", "a refused transaction with %s changes the state: %v", what, x)
				before = w.Dump()
			}
			c.Count("refused_others", 1)
			c.Eval(what)
		}
		me, you := K(r.Intn(3)), K(r.Intn(4))
		send := &bankpb.MsgSendCoins{FromAddress: me.Addr, ToAddress: you.Addr, Amount: []*coinpb.Coin{coin(1, h.view().Bal[me.Addr][0].Denom)}}
		payload := mustMarshal(send)
		base := func() *TxSpec {
			t := h.spec([]*Key{me})
			t.Fee = h.afford(me.Addr, 5)
			return t
		}
		for i, u := range list {
			if i%4 != k.Idx%4 && msgs[u] == false {
				continue
			}
			var v []byte
			how := "a transfer's bytes"
			if chance(r, .5) {
				v = payload
			} else {
				how = "its own bytes"
				if m, err := s.enc.InterfaceRegistry.Resolve(u); err == nil {
					v, _ = gogo.Marshal(m)
				}
			}
			t := base()
			bad := &anypb.Any{TypeUrl: u, Value: v}
			t.Msgs = []proto.Message{bad}
			if chance(r, .3) {
				t.Msgs = []proto.Message{send, bad}
			} else if chance(r, .2) {
				t.Msgs = []proto.Message{bad, send}
			}
			try(fmt.Sprintf("message %s holding %s", u, how), t.Encode())
		}
		// a message built and signed by the SDK client
		for _, u := range list {
			if !msgs[u] || !chance(r, .5) {
				continue
			}
			m, err := s.enc.InterfaceRegistry.Resolve(u)
			if err != nil {
				continue
			}
			any, err := codectypes.NewAnyWithValue(m)
			if err != nil {
				continue
			}
			x, isMsg := any.GetCachedValue().(sdk.Msg)
			if !isMsg {
				continue
			}
			bld := s.enc.TxConfig.NewTxBuilder()
			if bld.SetMsgs(x) != nil {
				continue
			}
			if b, ok := s.finish(bld, base(), signing.SignMode_SIGN_MODE_DIRECT); ok {
				try("SDK message "+u, b)
				c.Count("sdk_built_others", 1)
			}
		}
		// an SDK multisend that would pass for a transfer
		x := &sdkbank.MsgMultiSend{Inputs: []sdkbank.Input{{Address: me.Addr, Coins: sdk.Coins{{Denom: "foo", Amount: sdk.NewInt(1)}}}}, Outputs: []sdkbank.Output{{Address: you.Addr, Coins: sdk.Coins{{Denom: "foo", Amount: sdk.NewInt(1)}}}}}
		bld := s.enc.TxConfig.NewTxBuilder()
		_ = bld.SetMsgs(x)
		if b, ok := s.finish(bld, base(), signing.SignMode_SIGN_MODE_DIRECT); ok {
			try("MsgMultiSend", b)
		}
		// other key types and multisignatures
		ms := &sdkbank.MsgSend{FromAddress: me.Addr, ToAddress: you.Addr, Amount: sdk.Coins{{Denom: send.Amount[0].Denom, Amount: sdk.NewInt(1)}}}
		other := func(what string, pk cryptotypes.PubKey, data signing.SignatureData) {
			bld := s.enc.TxConfig.NewTxBuilder()
			_ = bld.SetMsgs(ms)
			t := base()
			fee, _ := sdkCoins(t.Fee)
			bld.SetFeeAmount(fee)
			if bld.SetSignatures(signing.SignatureV2{PubKey: pk, Data: data, Sequence: t.Signers[0].Seq}) != nil {
				return
			}
			b, err := s.enc.TxConfig.TxEncoder()(bld.GetTx())
			if err != nil {
				return
			}
			try(what, b)
			c.Count("other_keys", 1)
		}
		direct := func(sig []byte) signing.SignatureData {
			return &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_DIRECT, Signature: sig}
		}
		edk := ed25519.GenPrivKeyFromSecret([]byte("x"))
		es, _ := edk.Sign([]byte("x"))
		other("an ed25519 key", edk.PubKey(), direct(es))
		other("the signer's key as ed25519", &ed25519.PubKey{Key: me.Pub[1:]}, direct(es))
		multi := multisig.NewLegacyAminoPubKey(1, []cryptotypes.PubKey{sdkKey(me).PubKey(), sdkKey(you).PubKey()})
		md := sdkmultisig.NewMultisig(2)
		_ = sdkmultisig.AddSignatureFromPubKey(md, &signing.SingleSignatureData{SignMode: signing.SignMode_SIGN_MODE_LEGACY_AMINO_JSON, Signature: es}, sdkKey(me).PubKey(), multi.GetPubKeys())
		other("a multisignature key", multi, md)
		other("a multisignature of a plain key", sdkKey(me).PubKey(), md)
	})
	c.Expect("refused_others", 500)
	c.Expect("sdk_message_types", 15)
	c.Expect("other_keys", 40)
	c.Expect("sdk_built_others", 50)
}

func c30(c *Ctx) {
	c.Rule("twin nodes: the same history is delivered to one as transactions built, signed and encoded by the unmodified Cosmos SDK v0.42.4 client and to the other as native transactions; verdicts and whole raw states must be equal after each, and equal the ledger specification's; each transaction is also decoded by both libraries and compared field by field; every other type the SDK registers is refused without a trace")
	c.Assume("the SDK is configured with the application's bech32 prefix", "transactions the SDK client itself cannot build (for example non-numeric amounts) are outside the property")
	c30transfers(c)
	c30others(c)
}
