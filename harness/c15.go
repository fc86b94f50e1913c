package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/fdymylja/tmos/runtime/authentication/user"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

func c15(c *Ctx) {
	c.Rule("one transaction violating one rule of form, or at the exact boundary of one, distinct by rule, position, parameters and bytes")
	c.Assume("every transaction is correctly signed over its transmitted bytes", "memo lengths are counted in bytes of UTF-8 text, as the Cosmos SDK does", "unknown fields are placed at the top level of envelope, body and auth info")
	c.Cases("form", c.N(80, 900), c15case)
	c.Cases("crowd", c.N(4, 40), c15crowd)
	c.Expect("crowds", 3)
	c.Expect("refused", 2000)
	c.Expect("accepted", 1000)
}

type formCase struct {
	rule string
	ok   bool
	edit func(t *TxSpec)
}

// longKeys are keys in uncompressed and hybrid form, and with bytes added.
var longKeys = func() (out []*Key) {
	for i := 0; i < 2; i++ {
		k := K(i)
		un := k.Priv.PubKey().SerializeUncompressed()
		hy := k.Priv.PubKey().SerializeHybrid()
		for _, b := range [][]byte{un, hy, append(append([]byte{}, k.Pub...), 0), append(append([]byte{}, un...), 0)} {
			out = append(out, &Key{Priv: k.Priv, Pub: b, Addr: addrOf(b)})
		}
	}
	return
}()

func c15case(k *Case) {
	r := k.R
	params := &authnpb.Params{MaxMemoCharacters: []uint64{0, 1, 7, 256, 1000}[r.Intn(5)], TxSigLimit: uint64(1 + r.Intn(6))}
	if chance(r, .2) {
		params.MaxMemoCharacters = []uint64{255, 65535, 1 << 31, 1 << 32, 1<<32 + 5, 1 << 63, math.MaxUint64}[r.Intn(7)]
	}
	if chance(r, .2) {
		params.TxSigLimit = []uint64{1 << 8, 1 << 31, 1 << 32, 1<<32 + 2, 1 << 63, math.MaxUint64}[r.Intn(6)]
	}
	o := WorldOpts{Params: params}
	dflt := chance(r, .2)
	if dflt {
		o.Params = nil
	}
	const nKeys = 8
	for i := 0; i < nKeys; i++ {
		a := GenAcc{Addr: K(i).Addr, Coins: coinList(1000000, "stake")}
		if i%2 == 0 {
			a.PubKey = K(i).Pub
		}
		o.Accounts = append(o.Accounts, a)
	}
	// Keys in longer forms than the supported one, whose addresses have accounts.
	for _, x := range longKeys {
		o.Accounts = append(o.Accounts, GenAcc{Addr: x.Addr, Coins: coinList(1000000, "stake")})
	}
	w := newWorld(o)
	defer w.Close()
	if dflt {
		params = w.View().Params
		if params.MaxMemoCharacters == 0 && params.TxSigLimit == 0 {
			k.Fail("params", "the default parameters allow nothing")
			return
		}
	}
	w.Begin(int64(1 + r.Intn(20)))
	for round := 0; round < 3 && !k.Failed(); round++ {
		if round == 2 { // parameters in force are the ones stored
			params = &authnpb.Params{MaxMemoCharacters: uint64(r.Intn(30)), TxSigLimit: uint64(1 + r.Intn(7))}
			if err := w.RT.Update(user.NewUsersFromString("authn"), params); err != nil {
				k.Fail("params", "the owner of the parameters can not update them: %v", err)
				return
			}
			k.Count("params_changed", 1)
		}
		forms(k, w, params, nKeys)
		w.NextBlock()
		if r.Intn(3) == 0 {
			w.End()
			w.App.Commit()
			w.Begin(w.Height + int64(1+r.Intn(1000)))
		}
	}
}

// c15crowd: limits on signers which do not fit in a byte.
func c15crowd(k *Case) {
	r := k.R
	limit := 253 + r.Intn(8)
	o := WorldOpts{Params: &authnpb.Params{MaxMemoCharacters: 10, TxSigLimit: uint64(limit)}}
	n := limit + 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		o.Accounts = append(o.Accounts, GenAcc{Addr: K(100 + i).Addr, Coins: coinList(1000, "stake")})
	}
	w := newWorld(o)
	defer w.Close()
	w.Begin(1)
	for _, m := range []int{limit + 1, n, limit, 1} {
		v := w.View()
		t := &TxSpec{Chain: w.Chain, Fee: coinList(1, "stake"), Msgs: msgs(&testpb.MsgCreatePost{Creator: "x", Title: "crowd", Text: fmt.Sprint(m)})}
		for _, i := range r.Perm(n)[:m] {
			a := v.Acc[K(100+i).Addr]
			t.Signers = append(t.Signers, SignerSpec{Key: K(100 + i), Seq: a.Sequence, AccNum: a.AccountNumber})
		}
		b := t.Encode()
		ch, d := w.Check(b), w.Deliver(b)
		k.Eval(fmt.Sprintf("crowd %d of %d", m, limit))
		switch ok := m <= limit; {
		case ok && (ch.Code != 0 || d.Code != 0):
			k.Fail("valid-refused", "a valid transaction of %d signers is refused although %d may sign: %s / %s", m, limit, ch.Log, d.Log)
		case !ok && (ch.Code == 0 || d.Code == 0):
			k.Fail("accepted:signers-above-maximum", "a transaction of %d signers is accepted (CheckTx %d, DeliverTx %d) although only %d may sign", m, ch.Code, d.Code, limit)
		case !ok && len(diffDump(v.Raw, w.View().Raw)) > 0:
			k.Fail("changed:signers-above-maximum", "a refused transaction of %d signers changed state", m)
		}
	}
	k.Count("crowds", 1)
}

func forms(k *Case, w *World, params *authnpb.Params, nKeys int) {
	r := k.R
	maxSigs := int(minU(params.TxSigLimit, uint64(nKeys)))
	h := uint64(w.Height)
	appendRaw := func(b []byte, num protowire.Number, kind int) []byte {
		switch kind {
		case 0:
			return protowire.AppendVarint(protowire.AppendTag(b, num, protowire.VarintType), 1)
		case 1:
			return protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), []byte("x"))
		case 2:
			return protowire.AppendFixed32(protowire.AppendTag(b, num, protowire.Fixed32Type), 7)
		case 3:
			return protowire.AppendFixed64(protowire.AppendTag(b, num, protowire.Fixed64Type), 7)
		default:
			return protowire.AppendBytes(protowire.AppendTag(b, num, protowire.BytesType), nil)
		}
	}
	// prepend or append
	unknown := func(b []byte, num protowire.Number, kind int, front bool) []byte {
		if front {
			return append(appendRaw(nil, num, kind), b...)
		}
		return appendRaw(append([]byte{}, b...), num, kind)
	}
	si := func(f func(s *authnpb.SignerInfo)) func(t *TxSpec) {
		return func(t *TxSpec) {
			i := r.Intn(len(t.Signers))
			t.Auth = func(a *authnpb.AuthInfo) { f(a.SignerInfos[i]) }
		}
	}
	single := func(m int32) *authnpb.ModeInfo {
		return &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Single_{Single: &authnpb.ModeInfo_Single{Mode: authnpb.SignMode(m)}}}
	}
	var cs []formCase
	mm0 := int(minU(params.MaxMemoCharacters, 1))
	bad := func(rule string, f func(t *TxSpec)) { cs = append(cs, formCase{rule, false, f}) }
	good := func(rule string, f func(t *TxSpec)) { cs = append(cs, formCase{rule, true, f}) }

	good("plain", func(t *TxSpec) {})
	bad("no message", func(t *TxSpec) {
		t.Msgs = nil
		t.Memo = strings.Repeat("m", min(1, mm0))
		t.Timeout = h + 5
	})
	bad("no body", func(t *TxSpec) { t.Msgs = nil })
	bad("no signer", func(t *TxSpec) {
		t.Auth = func(a *authnpb.AuthInfo) { a.SignerInfos = nil }
		if chance(r, .5) {
			t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = nil }
		}
	})
	bad("no signature", func(t *TxSpec) { t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = nil } })
	bad("a signature less", func(t *TxSpec) {
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = x.Signatures[:len(x.Signatures)-1] }
	})
	bad("a signature more", func(t *TxSpec) {
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = append(x.Signatures, x.Signatures[r.Intn(len(x.Signatures))]) }
	})
	bad("an empty signature more", func(t *TxSpec) { t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = append(x.Signatures, nil) } })
	bad("a signer info more", func(t *TxSpec) {
		t.Auth = func(a *authnpb.AuthInfo) {
			a.SignerInfos = append(a.SignerInfos, proto.Clone(a.SignerInfos[0]).(*authnpb.SignerInfo))
		}
	})
	bad("no fee", func(t *TxSpec) { t.NoFee = true })
	bad("empty fee", func(t *TxSpec) { t.Fee = nil })
	bad("empty fee with gas", func(t *TxSpec) { t.Fee, t.Gas, t.Payer = nil, 100, t.Signers[0].Key.Addr })
	bad("no key", si(func(s *authnpb.SignerInfo) { s.PublicKey = nil }))
	bad("empty key", si(func(s *authnpb.SignerInfo) { s.PublicKey = &anypb.Any{} }))
	bad("no mode", si(func(s *authnpb.SignerInfo) { s.ModeInfo = nil }))
	bad("empty mode", si(func(s *authnpb.SignerInfo) { s.ModeInfo = &authnpb.ModeInfo{} }))
	for _, m := range []int32{0, 2, 3, 127, 128, -1, 1 << 20} {
		m := m
		bad(fmt.Sprintf("sign mode %d", m), si(func(s *authnpb.SignerInfo) { s.ModeInfo = single(m) }))
	}
	bad("multi sign mode", si(func(s *authnpb.SignerInfo) {
		s.ModeInfo = &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Multi_{Multi: &authnpb.ModeInfo_Multi{ModeInfos: []*authnpb.ModeInfo{single(1)}}}}
	}))
	bad("empty multi sign mode", si(func(s *authnpb.SignerInfo) {
		s.ModeInfo = &authnpb.ModeInfo{Sum: &authnpb.ModeInfo_Multi_{Multi: &authnpb.ModeInfo_Multi{}}}
	}))
	for _, u := range []string{"", "/", "/cosmos.crypto.ed25519.PubKey", "/cosmos.crypto.multisig.LegacyAminoPubKey", "/cosmos.crypto.secp256r1.PubKey", "/tendermint.crypto.PublicKey",
		"/tmos.x.authn.v1alpha1.Account", "/google.protobuf.Any", "/no.such.Key", nativePKURL + "s", strings.ToUpper(cosmosPKURL)} {
		u := u
		bad("key type "+u, si(func(s *authnpb.SignerInfo) { s.PublicKey.TypeUrl = u }))
	}
	for _, n := range []int{0, 1, 31, 32, 34, 64, 65, 66} {
		n := n
		bad(fmt.Sprintf("key of %d bytes", n), func(t *TxSpec) {
			i := r.Intn(len(t.Signers))
			b := append([]byte{}, t.Signers[i].Key.Pub...)
			switch {
			case n == 65:
				b = t.Signers[i].Key.Priv.PubKey().SerializeUncompressed()
			case n < 33:
				b = b[:n]
			default:
				b = append(b, make([]byte, n-33)...)
			}
			t.Auth = func(a *authnpb.AuthInfo) { a.SignerInfos[i].PublicKey = pkAny(pick(r, nativePKURL, cosmosPKURL), b) }
		})
	}
	for _, kind := range []int{0, 1, 2, 3, 4} {
		kind := kind
		for _, num := range []protowire.Number{4, 15, 16, 100, 1022, 1024, 2046, 2048, 1<<29 - 1} {
			num := num
			front := chance(r, .3)
			at := fmt.Sprintf(" %d type %d", num, kind)
			bad("unknown envelope field"+at, func(t *TxSpec) { t.Bytes = func(b []byte) []byte { return unknown(b, num, kind, front) } })
			bad("unknown body field"+at, func(t *TxSpec) {
				t.RawParts = func(b, a []byte) ([]byte, []byte) { return unknown(b, num, kind, front), a }
			})
			bad("unknown auth info field"+at, func(t *TxSpec) {
				t.RawParts = func(b, a []byte) ([]byte, []byte) { return b, unknown(a, num, kind, front) }
			})
		}
	}
	for i, m := range []proto.Message{
		toAny(&bankpb.Balance{Address: "x"}), toAny(&authnpb.Account{Address: "x"}), &anypb.Any{}, &anypb.Any{TypeUrl: "/no.such.Type"},
		&anypb.Any{TypeUrl: "/cosmos.bank.v1beta1.MsgMultiSend"}, &anypb.Any{TypeUrl: "/cosmos.bank.v1beta1.Send"}, toAny(&anypb.Any{}),
		toAny(&authnpb.Params{}), toAny(&authnpb.TxBody{}), &anypb.Any{TypeUrl: "/" + string((&bankpb.MsgSendCoins{}).ProtoReflect().Descriptor().FullName()), Value: []byte{0xff}},
		&anypb.Any{TypeUrl: "/tmos.x.bank.v1alpha1.MsgSendCoin"}, &anypb.Any{TypeUrl: "tmos.x.bank.v1alpha1.MsgSendCoins/"}, nestAny(&bankpb.MsgSendCoins{}, 1),
	} {
		m := m
		bad(fmt.Sprintf("message %d which is no transition", i), func(t *TxSpec) {
			switch r.Intn(3) {
			case 0:
				t.Msgs = msgs(m)
			case 1:
				t.Msgs = append(t.Msgs, m)
			default:
				t.Msgs = append(msgs(m), t.Msgs...)
			}
		})
	}
	mm := int(minU(params.MaxMemoCharacters, 70000))
	reachable := uint64(mm) == params.MaxMemoCharacters // else no memo is too long
	good("memo at maximum", func(t *TxSpec) { t.Memo = strings.Repeat("m", mm) })
	if mm > 1 {
		good("memo below maximum", func(t *TxSpec) { t.Memo = strings.Repeat("m", mm-1) })
	}
	if mm >= 2 {
		good("multibyte memo at maximum", func(t *TxSpec) { t.Memo = strings.Repeat("ü", mm/2) + strings.Repeat("m", mm%2) })
	}
	badMemo := func(rule string, f func(t *TxSpec)) {
		if reachable {
			bad(rule, f)
		}
	}
	badMemo("multibyte memo above maximum", func(t *TxSpec) {
		t.Memo = strings.Repeat("ü", mm/2) + strings.Repeat("m", mm%2) + "m"
		if mm%2 == 1 {
			t.Memo = strings.Repeat("ü", mm/2+1)
		}
	})
	badMemo("multibyte memo far above maximum", func(t *TxSpec) { t.Memo = strings.Repeat("€", mm/2+1) })
	badMemo("memo above maximum", func(t *TxSpec) { t.Memo = strings.Repeat("m", mm+1) })
	badMemo("memo far above maximum", func(t *TxSpec) { t.Memo = strings.Repeat("m", mm+1+r.Intn(3000)) })
	signers := func(n int) func(t *TxSpec) {
		return func(t *TxSpec) {
			t.Signers = nil
			for _, i := range r.Perm(nKeys)[:n] {
				t.Signers = append(t.Signers, SignerSpec{Key: K(i)})
			}
		}
	}
	good("signers at maximum", signers(maxSigs))
	if maxSigs > 1 {
		good("signers below maximum", signers(maxSigs-1))
	}
	if params.TxSigLimit < uint64(nKeys) {
		bad("signers above maximum", signers(maxSigs+1))
		bad("signers far above maximum", signers(nKeys))
	}
	if params.TxSigLimit < 100 {
		bad("repeated signers above maximum", func(t *TxSpec) {
			t.Signers = nil
			a, b := K(r.Intn(nKeys)), K(r.Intn(nKeys))
			for i := 0; i <= int(params.TxSigLimit); i++ {
				x := a
				if chance(r, .3) {
					x = b
				}
				t.Signers = append(t.Signers, SignerSpec{Key: x})
			}
		})
	}
	for _, x := range longKeys {
		x := x
		bad(fmt.Sprintf("key of %d bytes with an account", len(x.Pub)), func(t *TxSpec) {
			t.Signers[r.Intn(len(t.Signers))] = SignerSpec{Key: x, URL: pick(r, nativePKURL, cosmosPKURL)}
		})
	}
	bad("unknown account", func(t *TxSpec) {
		if len(t.Signers) == maxSigs && chance(r, .8) {
			t.Signers = t.Signers[:maxSigs-1]
		}
		i := r.Intn(len(t.Signers) + 1)
		t.Signers = append(t.Signers[:i:i], append([]SignerSpec{{Key: K(50 + r.Intn(9))}}, t.Signers[i:]...)...)
	})
	good("no timeout", func(t *TxSpec) { t.Timeout = 0 })
	good("timeout at this block", func(t *TxSpec) { t.Timeout = h })
	good("timeout at next block", func(t *TxSpec) { t.Timeout = h + 1 })
	good("timeout never", func(t *TxSpec) { t.Timeout = math.MaxUint64 })
	if h > 1 {
		bad("timeout at last block", func(t *TxSpec) { t.Timeout = h - 1 })
		bad("timeout at first block", func(t *TxSpec) { t.Timeout = 1 })
	}
	good("gas limit", func(t *TxSpec) { t.Gas = []uint64{1, math.MaxUint64, 200000}[r.Intn(3)] })
	good("payer named", func(t *TxSpec) { t.Payer = t.Signers[r.Intn(len(t.Signers))].Key.Addr })
	good("granter named", func(t *TxSpec) { t.Granter = pick(r, t.Signers[len(t.Signers)-1].Key.Addr, K(r.Intn(nKeys)).Addr, "x") })
	good("native key type", func(t *TxSpec) {
		for i := range t.Signers {
			if chance(r, .6) {
				t.Signers[i].URL = nativePKURL
			}
		}
	})
	good("many messages", func(t *TxSpec) {
		for n := 1 + r.Intn(20); n > 0; n-- {
			t.Msgs = append(t.Msgs, t.Msgs[0])
		}
	})
	r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	n := 0
	for _, fc := range cs {
		if k.Failed() {
			return
		}
		if strings.HasPrefix(fc.rule, "unknown ") && fc.rule != "unknown account" && !chance(r, .15) {
			continue
		}
		v := w.View()
		t := &TxSpec{Chain: w.Chain, Fee: coinList(1+r.Intn(3), "stake")}
		for _, i := range r.Perm(nKeys)[:1+r.Intn(maxSigs)] {
			t.Signers = append(t.Signers, SignerSpec{Key: K(i)})
		}
		n++
		t.Msgs = msgs(&testpb.MsgCreatePost{Creator: "x", Title: "form", Text: fmt.Sprintf("%s %d %d", fc.rule, w.Height, n)})
		if chance(r, .4) {
			t.Msgs = msgs(&bankpb.MsgSendCoins{FromAddress: t.Signers[0].Key.Addr, ToAddress: K(r.Intn(nKeys)).Addr, Amount: coinList(1, "stake")})
		}
		if fc.rule == "many messages" {
			t.Msgs = msgs(&bankpb.MsgSendCoins{FromAddress: t.Signers[0].Key.Addr, ToAddress: K(r.Intn(nKeys)).Addr, Amount: coinList(1, "stake")})
		}
		if chance(r, .3) {
			t.Memo = strings.Repeat("x", r.Intn(min(mm, 20)+1))
		}
		fc.edit(t)
		if len(t.Msgs) > 0 {
			if s, ok := t.Msgs[0].(*bankpb.MsgSendCoins); ok { // signers may have been replaced
				for _, m := range t.Msgs {
					if x, ok := m.(*bankpb.MsgSendCoins); ok {
						x.FromAddress = t.Signers[0].Key.Addr
					}
				}
				_ = s
			}
		}
		for i := range t.Signers {
			if a := v.Acc[t.Signers[i].Key.Addr]; a != nil {
				t.Signers[i].Seq, t.Signers[i].AccNum = a.Sequence, a.AccountNumber
			}
		}
		b := t.Encode()
		k.Eval(fmt.Sprintf("%s %v %x", fc.rule, params, b))
		ch := w.Check(b)
		d := w.Deliver(b)
		desc := fmt.Sprintf("%q at height %d with maximum memo %d and %d signers", fc.rule, h, params.MaxMemoCharacters, params.TxSigLimit)
		k.Seen("rules", fc.rule)
		post := w.View()
		if fc.ok {
			k.Count("accepted", 1)
			if ch.Code != 0 {
				k.Fail("valid-refused", "CheckTx refuses a valid transaction, %s: %s (tx %x)", desc, ch.Log, b)
			}
			if d.Code != 0 {
				k.Fail("valid-refused", "DeliverTx refuses a valid transaction, %s: %s (tx %x)", desc, d.Log, b)
			}
			continue
		}
		k.Count("refused", 1)
		if ch.Code == 0 {
			k.Fail("accepted:"+classOf(fc.rule), "CheckTx accepts a transaction with %s (tx %x)", desc, b)
		}
		if d.Code == 0 {
			k.Fail("accepted:"+classOf(fc.rule), "DeliverTx accepts a transaction with %s (tx %x)", desc, b)
		}
		if df := diffDump(v.Raw, post.Raw); len(df) > 0 {
			k.Fail("changed:"+classOf(fc.rule), "a refused transaction with %s changed %q (tx %x)", desc, df, b)
		}
	}
}

func classOf(rule string) string {
	f := strings.Fields(rule)
	if len(f) > 3 {
		f = f[:3]
	}
	return strings.Join(f, "-")
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
