package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
)

func c03(c *Ctx) {
	c.Rule("a case is one transaction offered to CheckTx and DeliverTx: a valid one, or a valid one with one manipulation of what is signed, of a key or of the signatures; distinct by transaction bytes")
	c.Expect("valid_accepted", 200)
	c.Expect("last_signatures_refused", 50)
	c.Expect("mutants_after_valid", 200)
	c.Expect("mutants_refused", 3000)
	c.Expect("first_tx_of_received_account", 20)
	c.Cases("mutants", c.N(140, 1200), c03case)
	d := defaultHist()
	d.Tamper, d.BadAuth, d.Attack, d.FailMsg, d.MultiSig = .3, .2, .02, .1, .4
	c.Cases("history", c.N(120, 1000), func(k *Case) {
		runHistory(k, d, func(h *Hist, s *Step) {
			if s.Pred == nil || s.Spec == nil || s.Kind != "deliver" && s.Kind != "check" {
				return
			}
			k.Eval(s.Kind + string(s.Bytes))
			if !s.Pred.AuthOK && authReason(s) && s.Code == 0 {
				k.Fail("accepted", "%s accepted although: %s: %s", s.Kind, s.Pred.Why, s.describe())
			}
			if s.Pred.AuthOK && s.Pred.MsgOK && s.Code != 0 {
				k.Fail("refused", "%s refuses a correctly signed transaction: %s", s.Kind, s.describe())
			}
		})
	})
}

// authReason tells whether the refusal is about signatures.
func authReason(s *Step) bool {
	if s.Tampered != "" {
		return true
	}
	for _, p := range []string{"signed for", "signer has no account", "sequence"} {
		if len(s.Pred.Why) >= len(p) && s.Pred.Why[:len(p)] == p {
			return true
		}
	}
	return false
}

type mutant struct {
	name string
	b    []byte
}

func c03case(k *Case) {
	r := k.R
	nAcc := 5
	if chance(r, .15) {
		nAcc = 10
	}
	var accs []GenAcc
	// the order shuffles which key has which account number
	for _, i := range r.Perm(nAcc) {
		a := GenAcc{Addr: K(i).Addr, Coins: coinList(1000000, "foo")}
		switch r.Intn(3) {
		case 0:
			a.PubKey = K(i).Pub
		}
		if chance(r, .25) { // others in between, so that numbers become large
			for n := r.Intn(int(pickN(r, 20, 20, 300))); n > 0; n-- {
				accs = append(accs, GenAcc{Addr: fmt.Sprint("other", len(accs)), NoBal: true})
			}
		}
		accs = append(accs, a)
	}
	chain := pick(r, "verif-chain", "c", "chain-2", "chain with space")
	w := newWorld(WorldOpts{Accounts: accs, Chain: chain})
	defer w.Close()
	w.Begin(int64(1 + r.Intn(100)))

	for round := 0; round < 4 && !k.Failed(); round++ {
		v := w.View()
		// sometimes one signer has only just been created by receiving coins
		signers := []int{r.Intn(nAcc)}
		if round == 1 {
			n := 20 + r.Intn(50)
			from := K(signers[0])
			t := sendTx(w, v, from, K(n).Addr, 5000)
			if d := w.Deliver(t.Encode()); d.Code != 0 {
				k.Fail("refused", "a correctly signed transfer to a new account is refused: %d %s", d.Code, d.Log)
				return
			}
			v = w.View()
			signers = []int{n}
			k.Count("first_tx_of_received_account", 1)
		}
		for n := r.Intn(nAcc - 1); n > 0; n-- {
			x := r.Intn(nAcc)
			dup := false
			for _, y := range signers {
				dup = dup || x == y
			}
			if !dup {
				signers = append(signers, x)
			}
		}
		if round != 1 {
			r.Shuffle(len(signers), func(i, j int) { signers[i], signers[j] = signers[j], signers[i] })
		}
		t := &TxSpec{Chain: w.Chain, Fee: coinList(1+r.Intn(5), "foo"), Memo: pick(r, "", "memo", "ünï"), Gas: uint64(r.Intn(100000))}
		for _, i := range signers {
			a := v.Acc[K(i).Addr]
			if a == nil {
				k.Fail("no-account", "account of %s does not exist after receiving coins", K(i).Addr)
				return
			}
			t.Signers = append(t.Signers, SignerSpec{Key: K(i), Seq: a.Sequence, AccNum: a.AccountNumber, URL: pick(r, cosmosPKURL, nativePKURL)})
			t.Msgs = append(t.Msgs, &bankpb.MsgSendCoins{FromAddress: K(i).Addr, ToAddress: K(r.Intn(nAcc)).Addr, Amount: coinList(1+r.Intn(9), "foo")})
		}
		if chance(r, .3) {
			t.Msgs = append(t.Msgs, &testpb.MsgCreatePost{Creator: "c", Title: "t", Text: fmt.Sprint("post", round)})
		}
		if chance(r, .3) {
			t.RawParts = oddEncoding(r.Intn(4))
		}
		good := t.Encode()
		muts := mutants(k, w, v, t, good)
		seenGood := chance(r, .5) // the valid one may be known from the mempool
		for _, m := range muts {
			if seenGood && chance(r, .15) {
				if ck := w.Check(good); ck.Code != 0 {
					k.Fail("refused", "a correctly signed transaction is refused by CheckTx: %d %s (%x)", ck.Code, ck.Log, good)
					return
				}
				k.Count("mutants_after_valid", 1)
			}
			if string(m.b) == string(good) {
				continue
			}
			k.Eval(string(m.b))
			ck, d := w.Check(m.b), w.Deliver(m.b)
			if ck.Code == 0 || d.Code == 0 {
				k.FailData("accepted", map[string]string{"valid": hexs(good), "mutant": hexs(m.b)}, "manipulated transaction (%s) accepted: CheckTx %d DeliverTx %d; signers %d", m.name, ck.Code, d.Code, len(signers))
				return
			}
			k.Count("mutants_refused", 1)
			k.Seen("mutations", m.name)
		}
		k.Eval(string(good))
		ck, d := w.Check(good), w.Deliver(good)
		if ck.Code != 0 || d.Code != 0 {
			k.FailData("refused", hexs(good), "correctly signed transaction of %d signer(s) refused: CheckTx %d %q DeliverTx %d %q", len(signers), ck.Code, ck.Log, d.Code, d.Log)
			return
		}
		k.Count("valid_accepted", 1)
		// the next transaction with signatures of the last one
		nv := w.View()
		nt := &TxSpec{Chain: w.Chain, Fee: t.Fee, Memo: "next", Msgs: t.Msgs}
		for _, s := range t.Signers {
			s.Seq = nv.Acc[s.Key.Addr].Sequence
			nt.Signers = append(nt.Signers, s)
		}
		raw := new(authnpb.TxRaw)
		if err := proto.Unmarshal(good, raw); err == nil {
			n := r.Intn(len(raw.Signatures))
			nt.PostSign = func(x *authnpb.TxRaw) {
				if chance(r, .5) {
					x.Signatures = raw.Signatures
				} else {
					x.Signatures[n] = raw.Signatures[n]
				}
			}
			b := nt.Encode()
			if ck, d := w.Check(b), w.Deliver(b); ck.Code == 0 || d.Code == 0 {
				k.FailData("accepted", map[string]string{"last": hexs(good), "next": hexs(b)}, "transaction with a signature of the signer's last transaction accepted: CheckTx %d DeliverTx %d", ck.Code, d.Code)
				return
			}
			k.Count("last_signatures_refused", 1)
		}
		k.Sample(fmt.Sprintf("%d signers, %d mutants refused, then the original accepted: %x", len(signers), len(muts), good))
		if chance(r, .5) {
			w.NextBlock()
		}
	}
}

func sendTx(w *World, v *View, from *Key, to string, n int64) *TxSpec {
	a := v.Acc[from.Addr]
	return &TxSpec{Chain: w.Chain, Fee: coinList(1, "foo"), Signers: []SignerSpec{{Key: from, Seq: a.GetSequence(), AccNum: a.GetAccountNumber()}},
		Msgs: msgs(&bankpb.MsgSendCoins{FromAddress: from.Addr, ToAddress: to, Amount: coinList(n, "foo")})}
}

// oddEncoding yields encodings which are legal but not what a canonical
// encoder would emit; signatures cover the bytes as transmitted.
func oddEncoding(n int) func(b, a []byte) ([]byte, []byte) {
	return func(b, a []byte) ([]byte, []byte) {
		switch n {
		case 0: // explicit default timeout
			b = append(append([]byte{}, b...), 0x18, 0x00)
		case 1: // non minimal varint for timeout 0
			b = append(append([]byte{}, b...), 0x18, 0x80, 0x00)
		case 2: // timeout first
			b = append([]byte{0x18, 0x00}, b...)
		case 3: // auth info with fee before signers
			var ai authnpb.AuthInfo
			if proto.Unmarshal(a, &ai) == nil {
				f := mustMarshal(&authnpb.AuthInfo{Fee: ai.Fee})
				s := mustMarshal(&authnpb.AuthInfo{SignerInfos: ai.SignerInfos})
				a = append(append([]byte{}, f...), s...)
			}
		}
		return b, a
	}
}

func mutants(k *Case, w *World, v *View, t *TxSpec, good []byte) []mutant {
	r := k.R
	var out []mutant
	add := func(name string, b []byte) { out = append(out, mutant{name, b}) }
	with := func(name string, f func(x *authnpb.TxRaw)) {
		x := &authnpb.TxRaw{}
		if err := proto.Unmarshal(good, x); err != nil {
			panic(err)
		}
		f(x)
		add(name, mustMarshal(x))
	}
	resign := func(name string, f func(t *TxSpec)) {
		c := *t
		c.Signers = append([]SignerSpec{}, t.Signers...)
		f(&c)
		add(name, c.Encode())
	}
	// bytes
	for i := 0; i < 25; i++ {
		add("bit of the transaction", flip(good, r.Intn(8*len(good))))
	}
	for i := 0; i < 10; i++ {
		with("bit of body", func(x *authnpb.TxRaw) { x.BodyBytes = flip(x.BodyBytes, r.Intn(8*len(x.BodyBytes))) })
		with("bit of auth info", func(x *authnpb.TxRaw) { x.AuthInfoBytes = flip(x.AuthInfoBytes, r.Intn(8*len(x.AuthInfoBytes))) })
		with("bit of signature", func(x *authnpb.TxRaw) {
			i := r.Intn(len(x.Signatures))
			x.Signatures[i] = flip(x.Signatures[i], r.Intn(512))
		})
	}
	add("truncated", good[:r.Intn(len(good))])
	add("extended", append(append([]byte{}, good...), byte(r.Intn(256))))
	// what is signed
	with("other memo", func(x *authnpb.TxRaw) { editBody(x, func(b *authnpb.TxBody) { b.Memo += " " }) })
	with("other timeout", func(x *authnpb.TxRaw) { editBody(x, func(b *authnpb.TxBody) { b.TimeoutHeight = 1 << 40 }) })
	with("message added", func(x *authnpb.TxRaw) {
		editBody(x, func(b *authnpb.TxBody) { b.Messages = append(b.Messages, b.Messages[0]) })
	})
	with("message dropped", func(x *authnpb.TxRaw) { editBody(x, func(b *authnpb.TxBody) { b.Messages = b.Messages[1:] }) })
	with("messages reordered", func(x *authnpb.TxRaw) {
		editBody(x, func(b *authnpb.TxBody) {
			if n := len(b.Messages); n > 1 {
				b.Messages[0], b.Messages[n-1] = b.Messages[n-1], b.Messages[0]
			} else {
				b.Memo += "x"
			}
		})
	})
	with("default field made explicit", func(x *authnpb.TxRaw) { x.BodyBytes = append(x.BodyBytes, 0x12, 0x00) })
	with("message type spelt differently", func(x *authnpb.TxRaw) {
		editBody(x, func(b *authnpb.TxBody) {
			if b.Messages[0].TypeUrl == "/cosmos.bank.v1beta1.MsgSend" {
				b.Messages[0].TypeUrl = "/tmos.x.bank.v1alpha1.MsgSendCoins"
			} else {
				b.Messages[0].TypeUrl = "/cosmos.bank.v1beta1.MsgSend"
			}
		})
	})
	with("other gas", func(x *authnpb.TxRaw) { editAuth(x, func(a *authnpb.AuthInfo) { a.Fee.GasLimit++ }) })
	with("other granter", func(x *authnpb.TxRaw) { editAuth(x, func(a *authnpb.AuthInfo) { a.Fee.Granter += "g" }) })
	with("payer named", func(x *authnpb.TxRaw) {
		editAuth(x, func(a *authnpb.AuthInfo) { a.Fee.Payer = t.Signers[len(t.Signers)-1].Key.Addr })
	})
	with("other fee", func(x *authnpb.TxRaw) {
		editAuth(x, func(a *authnpb.AuthInfo) { a.Fee.Amount = []*coinpb.Coin{coin(9, "foo")} })
	})
	with("other sequence", func(x *authnpb.TxRaw) {
		editAuth(x, func(a *authnpb.AuthInfo) { a.SignerInfos[0].Sequence++ })
	})
	with("key spelt differently", func(x *authnpb.TxRaw) {
		editAuth(x, func(a *authnpb.AuthInfo) {
			p := a.SignerInfos[r.Intn(len(a.SignerInfos))].PublicKey
			if p.TypeUrl == cosmosPKURL {
				p.TypeUrl = nativePKURL
			} else {
				p.TypeUrl = cosmosPKURL
			}
		})
	})
	for i := range t.Signers {
		i := i
		resign("signed for another chain", func(t *TxSpec) { t.Chain = pick(r, "", "x", w.Chain+" ", w.Chain+"1", "Verif-chain") })
		resign("other account number", func(t *TxSpec) { t.Signers[i].AccNum += uint64(1 + r.Intn(3)) })
		resign("other account number", func(t *TxSpec) { t.Signers[i].AccNum = r.Uint64() })
		resign("account number of another bit", func(t *TxSpec) { t.Signers[i].AccNum ^= 1 << uint(r.Intn(64)) })
		resign("sequence of another bit", func(t *TxSpec) { t.Signers[i].Seq ^= 1 << uint(r.Intn(64)) })
		if n := t.Signers[i].AccNum; n >= 16 {
			resign("truncated account number", func(t *TxSpec) { t.Signers[i].AccNum &= pickN(r, 0xf, 0x7, 0xff) })
		}
		resign("other signer's account number", func(t *TxSpec) {
			for _, a := range v.Acc {
				if a.AccountNumber != t.Signers[i].AccNum {
					t.Signers[i].AccNum = a.AccountNumber
					return
				}
			}
			t.Signers[i].AccNum++
		})
		resign("sequence ahead", func(t *TxSpec) { t.Signers[i].Seq++ })
		resign("sequence behind", func(t *TxSpec) { t.Signers[i].Seq-- })
		// the entry's key replaced: by one whose owner signs (no account) or does not
		resign("key without account", func(t *TxSpec) { t.Signers[i].Key = K(900 + r.Intn(50)) })
		with("key of someone else", func(x *authnpb.TxRaw) {
			editAuth(x, func(a *authnpb.AuthInfo) { a.SignerInfos[i].PublicKey = pkAny(cosmosPKURL, K(1000+r.Intn(9)).Pub) })
		})
		other := K(5000 + r.Intn(10))
		with("signed by someone else", func(x *authnpb.TxRaw) {
			x.Signatures[i] = other.Sign(signDoc(x.BodyBytes, x.AuthInfoBytes, t.Chain, t.Signers[i].AccNum))
		})
		with("impersonated: key of the account, signature of another key", func(x *authnpb.TxRaw) {
			x.Signatures[i] = other.Sign(signDoc(x.BodyBytes, x.AuthInfoBytes, w.Chain, t.Signers[i].AccNum))
		})
		key := t.Signers[i].Key
		with("signature without account number", func(x *authnpb.TxRaw) {
			x.Signatures[i] = key.Sign(append(signDoc(x.BodyBytes, x.AuthInfoBytes, w.Chain, 0), 0x20, 0x00))
		})
		with("signature without auth info", func(x *authnpb.TxRaw) {
			x.Signatures[i] = key.Sign(signDoc(x.BodyBytes, nil, w.Chain, t.Signers[i].AccNum))
		})
		with("signature without body", func(x *authnpb.TxRaw) {
			x.Signatures[i] = key.Sign(signDoc(nil, x.AuthInfoBytes, w.Chain, t.Signers[i].AccNum))
		})
		with("signature over the digest", func(x *authnpb.TxRaw) {
			h := sha256.Sum256(signDoc(x.BodyBytes, x.AuthInfoBytes, w.Chain, t.Signers[i].AccNum))
			x.Signatures[i] = key.Sign(h[:])
		})
		with("high-S signature", func(x *authnpb.TxRaw) { x.Signatures[i] = highS(x.Signatures[i]) })
		with("DER signature", func(x *authnpb.TxRaw) {
			h := sha256.Sum256(signDoc(x.BodyBytes, x.AuthInfoBytes, w.Chain, t.Signers[i].AccNum))
			s, _ := key.Priv.Sign(h[:])
			x.Signatures[i] = s.Serialize()
		})
		with("signature with recovery byte", func(x *authnpb.TxRaw) { x.Signatures[i] = append(x.Signatures[i], byte(r.Intn(4))) })
		with("63 byte signature", func(x *authnpb.TxRaw) { x.Signatures[i] = x.Signatures[i][:63] })
		with("short signature", func(x *authnpb.TxRaw) { x.Signatures[i] = x.Signatures[i][:r.Intn(63)] })
		with("empty signature", func(x *authnpb.TxRaw) { x.Signatures[i] = nil })
		with("zero signature", func(x *authnpb.TxRaw) { x.Signatures[i] = make([]byte, 64) })
		with("r zero", func(x *authnpb.TxRaw) { x.Signatures[i] = append(make([]byte, 32), x.Signatures[i][32:]...) })
		with("s zero", func(x *authnpb.TxRaw) {
			x.Signatures[i] = append(append([]byte{}, x.Signatures[i][:32]...), make([]byte, 32)...)
		})
		with("s plus order", func(x *authnpb.TxRaw) {
			s := new(big.Int).SetBytes(x.Signatures[i][32:])
			s.Add(s, secpN)
			if s.BitLen() <= 256 {
				x.Signatures[i] = append(append([]byte{}, x.Signatures[i][:32]...), s.FillBytes(make([]byte, 32))...)
			} else {
				x.Signatures[i] = nil
			}
		})
		with("r and s swapped", func(x *authnpb.TxRaw) {
			x.Signatures[i] = append(append([]byte{}, x.Signatures[i][32:]...), x.Signatures[i][:32]...)
		})
		with("signature dropped", func(x *authnpb.TxRaw) { x.Signatures = append(x.Signatures[:i:i], x.Signatures[i+1:]...) })
		with("signature added", func(x *authnpb.TxRaw) { x.Signatures = append(x.Signatures, x.Signatures[i]) })
		with("signer entry dropped", func(x *authnpb.TxRaw) {
			editAuth(x, func(a *authnpb.AuthInfo) { a.SignerInfos = append(a.SignerInfos[:i:i], a.SignerInfos[i+1:]...) })
		})
		with("signer entry dropped with its signature", func(x *authnpb.TxRaw) {
			editAuth(x, func(a *authnpb.AuthInfo) { a.SignerInfos = append(a.SignerInfos[:i:i], a.SignerInfos[i+1:]...) })
			x.Signatures = append(x.Signatures[:i:i], x.Signatures[i+1:]...)
		})
		with("signer entry added unsigned", func(x *authnpb.TxRaw) {
			editAuth(x, func(a *authnpb.AuthInfo) { a.SignerInfos = append(a.SignerInfos, a.SignerInfos[i]) })
			x.Signatures = append(x.Signatures, x.Signatures[i])
		})
		// only this signer's signature is wrong, the others sign the final bytes
		{
			c := *t
			bad := i
			c.PostSign = func(x *authnpb.TxRaw) { x.Signatures[bad] = flip(x.Signatures[bad], r.Intn(512)) }
			add("one of the signatures wrong", c.Encode())
		}
	}
	if n := len(t.Signers); n > 1 {
		with("signatures reordered", func(x *authnpb.TxRaw) {
			x.Signatures[0], x.Signatures[n-1] = x.Signatures[n-1], x.Signatures[0]
		})
		with("first signature used for all", func(x *authnpb.TxRaw) {
			for i := range x.Signatures {
				x.Signatures[i] = x.Signatures[0]
			}
		})
		with("signer entries reordered", func(x *authnpb.TxRaw) {
			editAuth(x, func(a *authnpb.AuthInfo) {
				a.SignerInfos[0], a.SignerInfos[n-1] = a.SignerInfos[n-1], a.SignerInfos[0]
			})
		})
		// co-signer squeezed in: an unsigned entry of an account followed by a
		// properly signed one
		resign("last signer's number wrong only", func(t *TxSpec) { t.Signers[n-1].AccNum ^= 1 })
	}
	// duplicated fields of the envelope: the last one counts
	with2 := protowire.AppendBytes(protowire.AppendTag(append([]byte{}, good...), 1, protowire.BytesType), []byte{0x12, 0x01, 'z'})
	add("body overridden", with2)
	return out
}

func editBody(x *authnpb.TxRaw, f func(*authnpb.TxBody)) {
	b := &authnpb.TxBody{}
	if err := proto.Unmarshal(x.BodyBytes, b); err != nil {
		panic(err)
	}
	f(b)
	x.BodyBytes = mustMarshal(b)
}

func editAuth(x *authnpb.TxRaw, f func(*authnpb.AuthInfo)) {
	a := &authnpb.AuthInfo{}
	if err := proto.Unmarshal(x.AuthInfoBytes, a); err != nil {
		panic(err)
	}
	f(a)
	x.AuthInfoBytes = mustMarshal(a)
}
