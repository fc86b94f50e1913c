package main

import (
	"fmt"
	"strings"

	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

func total(m *M) Coins {
	t := Coins{}
	for _, c := range m.Bal {
		t = t.add(c)
	}
	return t
}

func histKey(s *Step) string {
	if s.Bytes == nil {
		return ""
	}
	return s.Kind + string(s.Bytes)
}

// ---- C01 ----

func c01(c *Ctx) {
	c.Rule("a case is one ABCI call of a random history over an application with authn, bank, distribution; distinct by transaction bytes; non-trivial if it is a transaction")
	c.Expect("tx_expected_success", 50)
	c.Expect("tx_expected_message_failure", 20)
	run := func(stage string, n int, cfg HistCfg) {
		c.Cases(stage, n, func(k *Case) {
			h := runHistory(k, cfg, c01obs)
			_ = h
		})
	}
	d := defaultHist()
	d.Steps = 40
	run("mixed", c.N(160, 3000), d)
	d.FailMsg, d.MaxMsgs = .4, 5
	run("failing", c.N(100, 2000), d)
	d.HugeCoins, d.FailMsg = true, .15
	run("huge", c.N(100, 2000), d)
}

func c01obs(h *Hist, s *Step) {
	k := h.K
	k.Eval(histKey(s))
	pre, post := modelOf(s.Pre), modelOf(s.Post)
	for a, b := range s.Post.Bal {
		if why := canonical(b); why != "" {
			k.Fail("not-canonical", "after %s the balance of %q is not canonical: %s", s.describe(), a, why)
			return
		}
	}
	if len(s.Post.Oddities) > 0 {
		k.Fail("oddity", "after %s: %v", s.describe(), s.Post.Oddities)
	}
	if !total(pre).eq(total(post)) {
		k.Fail("supply", "%s changed the total supply from {%s} to {%s}", s.describe(), total(pre), total(post))
		return
	}
	if s.Kind != "deliver" || s.Pred == nil {
		return
	}
	if s.Code == 0 {
		k.Count("accepted_tx_observed", 1)
		if !s.Pred.AuthOK && !strings.HasPrefix(s.Pred.Why, "fee: ") {
			return // accepted although it should not be authenticated: a matter of other properties
		}
		if !s.Pred.AuthOK || !s.Pred.MsgOK && isTransferFailure(s.Pred) {
			k.Fail("illegal-transfer", "accepted although %s%s: %s", s.Pred.Why, s.Pred.MsgWhy, s.describe())
			return
		}
		if !s.Pred.MsgOK {
			return
		}
		if d := diffBal(s.Pred.Final, post); len(d) > 0 {
			k.Fail("amount", "%s: %v", s.describe(), d)
		}
		k.Sample(fmt.Sprintf("case %d: accepted %d message(s), supply {%s} unchanged", k.Idx, len(s.Spec.Msgs), total(post)))
		return
	}
	// refused: only transfers that were legal on their own may have happened
	if s.Pred.AuthOK && s.Pred.MsgOK {
		// an accepted-by-model transfer which the code refuses. Only judged when
		// the transaction consists of transfers.
		for _, m := range s.Spec.Msgs {
			if _, ok := m.(*bankpb.MsgSendCoins); !ok {
				return
			}
		}
		if d := diffSeq(s.Pred.AfterAuth, post); len(d) == 0 {
			k.Fail("refused-transfer", "a legal transfer is refused: %s", s.describe())
		}
	}
}

func isTransferFailure(p *Pred) bool {
	switch p.MsgWhy {
	case "malformed amount", "sender has no balance", "insufficient funds", "no receiver", "overflow":
		return true
	}
	return false
}

// ---- C02 ----

func c02(c *Ctx) {
	c.Rule("a case is one ABCI call; attacks name senders and payers who did not sign; distinct by transaction bytes")
	c.Expect("attacks", 100)
	c.Expect("decreases_observed", 100)
	d := defaultHist()
	d.Attack, d.Tamper, d.Steps = .45, .05, 40
	c.Cases("attacks", c.N(400, 4000), func(k *Case) { runHistory(k, d, c02obs) })
	d.MultiSig = .7
	c.Cases("multisig", c.N(200, 2000), func(k *Case) { runHistory(k, d, c02obs) })
}

func c02obs(h *Hist, s *Step) {
	k := h.K
	k.Eval(histKey(s))
	pre, post := modelOf(s.Pre), modelOf(s.Post)
	may := map[string]bool{}
	bad := ""
	if s.Kind == "deliver" && s.Spec != nil && s.Tampered == "" {
		signed := map[string]bool{}
		for _, x := range s.Spec.Signers {
			signed[x.Key.Addr] = true
		}
		if len(s.Spec.Signers) > 0 {
			p := s.Spec.Signers[0].Key.Addr
			if s.Spec.Payer != "" {
				p = s.Spec.Payer
			}
			may[p] = signed[p]
			if !signed[p] {
				bad = "payer " + p
			}
		}
		for _, m := range s.Spec.Msgs {
			if x, ok := m.(*bankpb.MsgSendCoins); ok {
				if signed[x.FromAddress] {
					may[x.FromAddress] = true
				} else {
					bad = "sender " + x.FromAddress
				}
			}
		}
	}
	for a, b := range pre.Bal {
		if _, ok := post.Bal[a].sub(b); !ok {
			k.Count("decreases_observed", 1)
			if !may[a] {
				k.Fail("unauthorised-decrease", "the balance of %q went from {%s} to {%s} in %s", a, b, post.Bal[a], s.describe())
			}
		}
	}
	if bad != "" && s.Kind == "deliver" {
		k.Count("attacks", 1)
		if s.Code == 0 || s.Check != nil && s.Check.Code == 0 {
			k.Fail("unsigned-party", "%s did not sign but CheckTx code=%v DeliverTx code=%d: %s", bad, s.Check.GetCode(), s.Code, s.describe())
		}
		if d := rawDiff(s.Pre, s.Post); len(d) > 0 {
			k.Fail("unsigned-party-effect", "%s did not sign but the transaction changed %q: %s", bad, d, s.describe())
		}
	}
}

// ---- C04 ----

func c04(c *Ctx) {
	c.Rule("a case is one ABCI call; replays deliver bytes delivered before, sequence faults name another sequence; distinct by transaction bytes")
	c.Expect("replays", 100)
	c.Expect("increments", 100)
	c.Expect("keys_recorded", 100)
	d := defaultHist()
	d.Replay, d.BadAuth, d.FailMsg, d.Steps, d.MultiSig = .25, .3, .25, 40, .35
	c.Cases("replay", c.N(220, 4000), func(k *Case) { runHistory(k, d, c04obs) })
	c.Cases("reorder", c.N(60, 800), c04reorder)
}

func c04obs(h *Hist, s *Step) {
	k := h.K
	k.Eval(histKey(s))
	pre, post := modelOf(s.Pre), modelOf(s.Post)
	for a, x := range pre.Acc {
		y, ok := post.Acc[a]
		if !ok {
			k.Fail("account-gone", "account %q vanished in %s", a, s.describe())
			continue
		}
		if x.Num != y.Num {
			k.Fail("number-changed", "account number of %q changed from %d to %d in %s", a, x.Num, y.Num, s.describe())
		}
		want := x.Seq
		if s.Kind == "deliver" && s.Pred != nil && s.Pred.AuthOK {
			want = s.Pred.AfterAuth.Acc[a].Seq
		}
		if y.Seq != want {
			k.Fail("sequence", "sequence of %q went from %d to %d, expected %d, in %s", a, x.Seq, y.Seq, want, s.describe())
		}
		pub := x.Pub
		if s.Kind == "deliver" && s.Pred != nil && s.Pred.AuthOK {
			pub = s.Pred.AfterAuth.Acc[a].Pub
		}
		if y.Pub != pub {
			k.Fail("key", "the public key of account %q went from %x to %x, expected %x, in %s", a, x.Pub, y.Pub, pub, s.describe())
		} else if x.Pub == "" && pub != "" {
			k.Count("keys_recorded", 1)
		}
		if y.Seq > x.Seq {
			k.Count("increments", 1)
		}
	}
	for a, y := range post.Acc {
		if _, ok := pre.Acc[a]; !ok && y.Seq != 0 {
			k.Fail("initial-sequence", "new account %q starts at sequence %d in %s", a, y.Seq, s.describe())
		}
	}
	if s.Kind == "deliver" && s.Replayed {
		k.Count("replays", 1)
		if s.Accepted && s.Code == 0 {
			k.Fail("replay", "a transaction that had passed authentication before is accepted again: %s", s.describe())
		}
	}
	if (s.Kind == "deliver" || s.Kind == "check") && s.Pred != nil && !s.Pred.AuthOK && strings.HasPrefix(s.Pred.Why, "sequence ") && s.Code == 0 {
		k.Fail("sequence-accepted", "%s accepted with %s", s.Kind, s.describe())
	}
}

// c04reorder signs a run of transactions of one account and delivers them in
// another order, with repetitions: exactly those in sequence pass.
func c04reorder(k *Case) {
	r := k.R
	a, b := K(1), K(2)
	w := newWorld(WorldOpts{Accounts: []GenAcc{
		{Addr: a.Addr, Coins: coinList(100000, "foo")}, {Addr: b.Addr, Coins: coinList(100000, "foo"), PubKey: b.Pub}}})
	defer w.Close()
	w.Begin(1)
	n := 2 + r.Intn(6)
	var txs [][]byte
	v := w.View()
	for i := 0; i < n; i++ {
		t := &TxSpec{Chain: w.Chain, Fee: coinList(1, "foo"), Memo: fmt.Sprint(i),
			Msgs:    msgs(&bankpb.MsgSendCoins{FromAddress: a.Addr, ToAddress: b.Addr, Amount: coinList(int64(1+i), "foo")}),
			Signers: []SignerSpec{{Key: a, Seq: uint64(i), AccNum: v.Acc[a.Addr].AccountNumber}}}
		txs = append(txs, t.Encode())
	}
	seq := 0
	for i := 0; i < 4*n; i++ {
		j := r.Intn(n)
		if chance(r, .4) && seq < n {
			j = seq
		}
		if chance(r, .2) {
			w.NextBlock()
		}
		ck := w.Check(txs[j]).Code
		d := w.Deliver(txs[j])
		ok := j == seq
		k.Eval(fmt.Sprint("reorder", k.Idx, i, j, seq))
		k.Count("replays", 1)
		if (d.Code == 0) != ok || (ck == 0) != ok {
			k.Fail("order", "transaction with sequence %d delivered at sequence %d: check code %d, deliver code %d log %q", j, seq, ck, d.Code, d.Log)
			return
		}
		if ok {
			seq++
		}
	}
}

// ---- C05 ----

func c05(c *Ctx) {
	c.Rule("a case is one ABCI call compared by raw database contents before and after; distinct by kind and bytes")
	c.Expect("reads_observed", 200)
	c.Expect("refusals_observed", 200)
	d := defaultHist()
	d.ReadNoise, d.BadAuth, d.Tamper, d.Attack, d.Steps = .6, .35, .25, .1, 30
	c.Cases("noise", c.N(200, 4000), func(k *Case) { runHistory(k, d, c05obs) })
	d.SmallLimits = true
	c.Cases("limits", c.N(100, 2000), func(k *Case) { runHistory(k, d, c05obs) })
}

func c05obs(h *Hist, s *Step) {
	k := h.K
	k.Eval(s.Kind + s.Label + string(s.Bytes))
	switch s.Kind {
	case "check", "query", "info":
		k.Count("reads_observed", 1)
		if d := diffDump(s.Pre.Raw, s.Post.Raw); len(d) > 0 {
			k.Fail(s.Kind+"-trace", "%s changed %q: %s", s.Kind, d, s.describe())
		}
	case "deliver":
		if s.Pred != nil && s.Pred.AuthOK {
			return
		}
		if s.Pred == nil && s.Code == 0 {
			return
		}
		if s.Pred != nil && s.Code == 0 {
			return // wrongly accepted: other properties
		}
		k.Count("refusals_observed", 1)
		if d := rawDiff(s.Pre, s.Post); len(d) > 0 {
			k.Fail("refused-trace", "a refused DeliverTx changed %q: %s", d, s.describe())
		}
		if s.Pred != nil && s.Check != nil && s.Check.Code == 0 {
			k.Fail("check-accepts", "CheckTx accepts what DeliverTx's authentication refuses (%s): %s", s.Log, s.describe())
		}
	}
}

// ---- C14 ----

func c14(c *Ctx) {
	c.Rule("a case is one DeliverTx whose balance effects are compared with the reference ledger; distinct by transaction bytes")
	c.Expect("fees_observed", 200)
	c.Expect("fee_refusals", 50)
	c.Expect("failed_but_charged", 50)
	d := defaultHist()
	d.FailMsg, d.MultiSig, d.Steps, d.BadAuth = .3, .45, 40, .3
	c.Cases("fees", c.N(440, 4000), func(k *Case) { runHistory(k, d, c14obs) })
	d.HugeCoins = true
	c.Cases("huge", c.N(120, 1000), func(k *Case) { runHistory(k, d, c14obs) })
}

func c14obs(h *Hist, s *Step) {
	k := h.K
	k.Eval(histKey(s))
	pre, post := modelOf(s.Pre), modelOf(s.Post)
	if s.Kind != "deliver" {
		if d := diffBal(pre, post); len(d) > 0 {
			k.Fail("charged-outside", "%s changed balances: %v", s.describe(), d)
		}
		if s.Kind == "check" && s.Pred != nil && isFeeProblem(s.Pred) && s.Code == 0 {
			k.Fail("fee-accepted", "CheckTx accepts a transaction whose fee is refused (%s): %s", s.Pred.Why, s.describe())
		}
		return
	}
	if s.Pred == nil {
		return
	}
	p := s.Pred
	if !p.AuthOK {
		if isFeeProblem(p) {
			k.Count("fee_refusals", 1)
			if s.Code == 0 {
				k.Fail("fee-accepted", "DeliverTx accepts a transaction although %s: %s", p.Why, s.describe())
			}
		}
		if s.Code == 0 {
			return
		}
		if d := diffBal(pre, post); len(d) > 0 {
			k.Fail("refused-charged", "a refused transaction (%s) changed balances %v: %s", p.Why, d, s.describe())
		}
		return
	}
	k.Count("fees_observed", 1)
	exp := p.AfterAuth
	if s.Code == 0 {
		if !p.MsgOK {
			return
		}
		exp = p.Final
	} else {
		if p.MsgOK {
			// refused although the model accepts it: judge only that it was either
			// charged its fee or not at all
			if len(diffBal(pre, post)) > 0 && len(diffBal(exp, post)) > 0 {
				k.Fail("fee", "%s: %v", s.describe(), diffBal(exp, post))
			}
			if len(diffBal(pre, post)) == 0 && len(diffSeq(pre, post)) > 0 && !p.AfterAuth.eqBal(pre) {
				k.Fail("fee-missing", "passed authentication without paying: %s", s.describe())
			}
			return
		}
		k.Count("failed_but_charged", 1)
	}
	if d := diffBal(exp, post); len(d) > 0 {
		k.Fail("fee", "%s: %v", s.describe(), d)
	}
}

func (m *M) eqBal(o *M) bool { return len(diffBal(m, o)) == 0 }

func isFeeProblem(p *Pred) bool {
	return strings.HasPrefix(p.Why, "fee: ") || p.Why == "no fee"
}

// ---- C16 ----

func c16(c *Ctx) {
	c.Rule("a case is one ABCI call after which the account invariants are evaluated; distinct by transaction bytes")
	c.Expect("accounts_created", 100)
	c.Expect("creations_refused", 20)
	d := defaultHist()
	d.Keys, d.Funded, d.FailMsg, d.Steps, d.MaxMsgs = 14, 4, .25, 40, 4
	c.Cases("accounts", c.N(220, 4000), func(k *Case) { runHistory(k, d, c16obs) })
	c.Cases("module", c.N(80, 1500), c16module)
}

func c16inv(k *Case, v *View, where string) {
	n := uint64(len(v.Acc))
	if v.Next != n {
		k.Fail("counter", "%d accounts but next number is %d after %s", n, v.Next, where)
	}
	seen := map[uint64]string{}
	for a, acc := range v.Acc {
		if o, ok := seen[acc.AccountNumber]; ok {
			k.Fail("duplicate-number", "accounts %q and %q share number %d after %s", a, o, acc.AccountNumber, where)
		}
		seen[acc.AccountNumber] = a
		if acc.AccountNumber >= n {
			k.Fail("gap", "account %q has number %d of %d accounts after %s", a, acc.AccountNumber, n, where)
		}
		if a == "" || acc.Address != a {
			k.Fail("address", "account stored at %q has address %q after %s", a, acc.Address, where)
		}
		if v.Binds[a] != externalRole {
			k.Fail("binding", "account %q is bound to %q after %s", a, v.Binds[a], where)
		}
	}
}

func c16obs(h *Hist, s *Step) {
	k := h.K
	k.Eval(histKey(s))
	c16inv(k, s.Post, s.describe())
	pre, post := modelOf(s.Pre), modelOf(s.Post)
	for a, y := range post.Acc {
		x, ok := pre.Acc[a]
		if !ok {
			k.Count("accounts_created", 1)
			if y.Seq != 0 || y.Num < pre.Next {
				k.Fail("initial", "account %q created with number %d, sequence %d when next number was %d: %s", a, y.Num, y.Seq, pre.Next, s.describe())
			}
		} else if x.Num != y.Num {
			k.Fail("renumbered", "account %q renumbered from %d to %d: %s", a, x.Num, y.Num, s.describe())
		}
	}
	for a := range pre.Acc {
		if _, ok := post.Acc[a]; !ok {
			k.Fail("deleted", "account %q deleted: %s", a, s.describe())
		}
	}
	if s.Kind != "deliver" {
		if d := diffAcc(pre, post); len(d) > 0 {
			k.Fail("outside", "%s changed accounts: %v", s.describe(), d)
		}
		return
	}
	if s.Pred == nil || !s.Pred.AuthOK {
		return
	}
	if s.Code == 0 && s.Pred.MsgOK {
		if d := diffAcc(s.Pred.Final, post); len(d) > 0 {
			k.Fail("creation", "%s: %v", s.describe(), d)
		}
	}
	if !s.Pred.MsgOK && s.Pred.MsgWhy == "receiver account cannot be created" {
		k.Count("uncreatable_receivers", 1)
		if s.Code == 0 {
			k.Fail("creation", "coins were received but no account created: %s", s.describe())
		}
	}
	if !s.Pred.MsgOK && s.Pred.MsgWhy == "account exists" {
		k.Count("creations_refused", 1)
		if s.Code == 0 {
			k.Fail("recreated", "creating an existing account is accepted: %s", s.describe())
		}
		if post.Next != s.Pred.AfterAuth.Next {
			k.Fail("number-consumed", "a refused creation consumed a number (%d, expected %d): %s", post.Next, s.Pred.AfterAuth.Next, s.describe())
		}
	}
}

// ---- C25 ----

func c25(c *Ctx) {
	c.Rule("a case is one DeliverTx which passes authentication and whose messages fail; distinct by transaction bytes")
	c.Expect("failing_tx", 300)
	c.Expect("later_success", 100)
	d := defaultHist()
	d.FailMsg, d.MaxMsgs, d.Steps, d.Internal, d.BadAuth, d.Tamper, d.Attack = .45, 5, 40, .1, .03, .01, .01
	c.Cases("failing", c.N(260, 5000), func(k *Case) { runHistory(k, d, c25obs) })
	d.HugeCoins = true
	c.Cases("huge", c.N(60, 1000), func(k *Case) { runHistory(k, d, c25obs) })
	c.Cases("programs", c.N(120, 2500), c25programs)
	c.Expect("programs_failed", 500)
	c.Expect("operations_undone", 1000)
	c.Expect("panics", 50)
	c.Expect("auth_failures", 100)
}

func c25obs(h *Hist, s *Step) {
	k := h.K
	if s.Kind != "deliver" || s.Pred == nil || !s.Pred.AuthOK {
		return
	}
	k.Eval(histKey(s))
	post := modelOf(s.Post)
	if s.Pred.MsgOK {
		if s.Code == 0 {
			k.Count("later_success", 1)
			if d := diffAll(s.Pred.Final, post); len(d) > 0 {
				k.Fail("success-effects", "%s: %v", s.describe(), d)
			}
		} else {
			k.Fail("later-refused", "a valid transaction is refused: %s; history: %v", s.describe(), h.Trace)
		}
		return
	}
	if s.Code == 0 {
		k.Fail("failure-accepted", "a transaction whose message %d fails (%s) is accepted: %s", s.Pred.MsgIdx, s.Pred.MsgWhy, s.describe())
		return
	}
	k.Count("failing_tx", 1)
	if s.Pred.MsgIdx > 0 {
		k.Count("failing_after_first_message", 1)
	}
	k.Seen("failing_positions", fmt.Sprintf("%d/%d %s", s.Pred.MsgIdx, len(s.Spec.Msgs), s.Pred.MsgWhy))
	h.Trace = append(h.Trace, s.Pred.MsgWhy)
	if d := diffAll(s.Pred.AfterAuth, post); len(d) > 0 {
		k.Fail("residue", "a failing transaction left effects: %v; %s", d, s.describe())
		return
	}
	// raw level: nothing but the objects of authentication changed
	for _, key := range rawDiff(s.Pre, s.Post) {
		ok := false
		for _, a := range append(signerAddrs(s.Spec), "fee_collector") {
			ok = ok || strings.Contains(key, a)
		}
		ok = ok || strings.HasSuffix(key, "CurrentAccountNumber/unique") || strings.Contains(key, "external_account")
		if s.Spec.Payer != "" {
			ok = ok || strings.Contains(key, s.Spec.Payer)
		}
		if !ok {
			k.Fail("raw-residue", "a failing transaction changed %q: %s", key, s.describe())
		}
	}
}

func signerAddrs(t *TxSpec) []string {
	var a []string
	for _, s := range t.Signers {
		a = append(a, s.Key.Addr)
	}
	return a
}
