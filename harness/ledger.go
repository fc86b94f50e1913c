package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	abcipb "github.com/fdymylja/tmos/core/abci/v1alpha1"
	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
)

// ---- reference model of the application state ----

type AccM struct {
	Num, Seq uint64
	Pub      string // value of the recorded key
}

// M is the part of the state the reference model speaks about.
type M struct {
	Bal   map[string]Coins
	Acc   map[string]AccM
	Next  uint64
	Binds map[string]string
	Roles map[string]*rbacpb.Role
	Posts map[string]*testpb.Post
	bad   bool
}

func modelOf(v *View) *M {
	m := &M{Bal: map[string]Coins{}, Acc: map[string]AccM{}, Next: v.Next, Binds: map[string]string{}, Roles: map[string]*rbacpb.Role{}, Posts: map[string]*testpb.Post{}}
	for a, b := range v.Bal {
		c, ok := coinsOf(b)
		if !ok {
			m.bad = true
		}
		m.Bal[a] = c
	}
	for a, acc := range v.Acc {
		x := AccM{Num: acc.AccountNumber, Seq: acc.Sequence}
		if acc.PubKey != nil {
			x.Pub = string(acc.PubKey.Value)
		}
		m.Acc[a] = x
	}
	for k, b := range v.Binds {
		m.Binds[k] = b
	}
	for k, b := range v.Roles {
		m.Roles[k] = b
	}
	for k, b := range v.Posts {
		m.Posts[k] = b
	}
	return m
}

func (m *M) clone() *M {
	n := *m
	n.Bal, n.Acc, n.Binds, n.Roles, n.Posts = map[string]Coins{}, map[string]AccM{}, map[string]string{}, map[string]*rbacpb.Role{}, map[string]*testpb.Post{}
	for k, v := range m.Bal {
		n.Bal[k] = v
	}
	for k, v := range m.Acc {
		n.Acc[k] = v
	}
	for k, v := range m.Binds {
		n.Binds[k] = v
	}
	for k, v := range m.Roles {
		n.Roles[k] = v
	}
	for k, v := range m.Posts {
		n.Posts[k] = v
	}
	return &n
}

// differences between two models, by area
func diffBal(a, b *M) []string {
	var d []string
	for k := range a.Bal {
		if !a.Bal[k].eq(b.Bal[k]) {
			d = append(d, fmt.Sprintf("balance of %q is {%s}, expected {%s}", k, b.Bal[k], a.Bal[k]))
		}
	}
	for k := range b.Bal {
		if _, ok := a.Bal[k]; !ok && !b.Bal[k].zero() {
			d = append(d, fmt.Sprintf("balance of %q is {%s}, expected none", k, b.Bal[k]))
		}
	}
	sortStrings(d)
	return d
}

// diffSeq compares the sequences of the accounts both know.
func diffSeq(a, b *M) []string {
	var d []string
	for k, x := range a.Acc {
		y, ok := b.Acc[k]
		if ok && x.Seq != y.Seq {
			d = append(d, fmt.Sprintf("sequence of %s is %d, expected %d", k, y.Seq, x.Seq))
		}
	}
	sortStrings(d)
	return d
}

// diffAcc compares which accounts exist, their numbers, bindings and the counter.
func diffAcc(a, b *M) []string {
	var d []string
	for k, x := range a.Acc {
		y, ok := b.Acc[k]
		if !ok {
			d = append(d, fmt.Sprintf("account %q is missing", k))
		} else if x.Num != y.Num {
			d = append(d, fmt.Sprintf("number of account %q is %d, expected %d", k, y.Num, x.Num))
		}
	}
	for k := range b.Acc {
		if _, ok := a.Acc[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected account %q", k))
		}
	}
	if a.Next != b.Next {
		d = append(d, fmt.Sprintf("next account number is %d, expected %d", b.Next, a.Next))
	}
	d = append(d, diffBinds(a, b)...)
	sortStrings(d)
	return d
}

func diffBinds(a, b *M) []string {
	var d []string
	for k, x := range a.Binds {
		if y, ok := b.Binds[k]; !ok || x != y {
			d = append(d, fmt.Sprintf("binding of %q is %q (exists %v), expected %q", k, y, ok, x))
		}
	}
	for k, y := range b.Binds {
		if _, ok := a.Binds[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected binding of %q to %q", k, y))
		}
	}
	return d
}

func diffRoles(a, b *M) []string {
	var d []string
	for k, x := range a.Roles {
		if y, ok := b.Roles[k]; !ok || !proto.Equal(x, y) {
			d = append(d, fmt.Sprintf("role %q is %v, expected %v", k, y, x))
		}
	}
	for k, y := range b.Roles {
		if _, ok := a.Roles[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected role %q: %v", k, y))
		}
	}
	return d
}

func diffPosts(a, b *M) []string {
	var d []string
	for k, x := range a.Posts {
		if y, ok := b.Posts[k]; !ok || !proto.Equal(x, y) {
			d = append(d, fmt.Sprintf("post %q is %v, expected %v", k, y, x))
		}
	}
	for k, y := range b.Posts {
		if _, ok := a.Posts[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected post %q: %v", k, y))
		}
	}
	return d
}

func diffAll(a, b *M) []string {
	d := diffBal(a, b)
	d = append(d, diffSeq(a, b)...)
	d = append(d, diffAcc(a, b)...)
	d = append(d, diffRoles(a, b)...)
	d = append(d, diffPosts(a, b)...)
	return d
}

const maxBits = 255

// parseCoins is the reference meaning of a coin list in a message: nil and
// false if it is malformed.
func parseCoins(cs []*coinpb.Coin) (Coins, bool) {
	out := Coins{}
	for _, c := range cs {
		if !denomOK(c.Denom) || c.Amount == "" {
			return nil, false
		}
		for _, ch := range c.Amount {
			if ch < '0' || ch > '9' {
				return nil, false
			}
		}
		n, _ := new(big.Int).SetString(c.Amount, 10)
		if n.BitLen() > maxBits {
			return nil, false
		}
		if out[c.Denom] != nil {
			return nil, false
		}
		out[c.Denom] = n
	}
	return out, true
}

// transfer applies a transfer to the model and tells whether it is legal.
func (m *M) transfer(from, to string, amount []*coinpb.Coin) (bool, string) {
	amt, ok := parseCoins(amount)
	if !ok {
		return false, "malformed amount"
	}
	fb, ok := m.Bal[from]
	if !ok {
		return false, "sender has no balance"
	}
	nf, ok := fb.sub(amt)
	if !ok {
		return false, "insufficient funds"
	}
	if to == "" {
		return false, "no receiver"
	}
	_, known := m.Bal[to]
	if to == from {
		nf = fb
		known = true
	}
	tb := m.Bal[to]
	if to == from {
		tb, _ = fb.sub(amt)
	}
	nt := tb.add(amt)
	for _, v := range nt {
		if v.BitLen() > maxBits {
			return false, "overflow"
		}
	}
	if to != from {
		m.Bal[from] = nf
	}
	m.Bal[to] = nt
	if !known {
		if _, ok := m.Acc[to]; !ok {
			if !m.createAccount(to, "") {
				return false, "receiver account cannot be created"
			}
		}
	}
	return true, ""
}

const externalRole = rbacpb.ExternalAccountRoleID

func (m *M) createAccount(addr, pub string) bool {
	if addr == "" {
		return false
	}
	if _, ok := m.Acc[addr]; ok {
		return false
	}
	if _, ok := m.Binds[addr]; ok {
		return false
	}
	m.Acc[addr] = AccM{Num: m.Next, Pub: pub}
	m.Next++
	m.Binds[addr] = externalRole
	return true
}

// ---- prediction of a transaction ----

type Pred struct {
	AuthOK    bool
	Why       string // why authentication refuses
	MsgOK     bool
	MsgWhy    string
	MsgIdx    int
	CheckOK   bool
	CheckAny  bool // the outcome of CheckTx is not predicted
	AfterAuth *M
	Final     *M
}

// predict tells what a transaction must do in the given state. tampered marks
// transactions whose bytes were changed after (or before) signing in a way
// which invalidates them.
func predict(v *View, w *World, t *TxSpec, tampered string) *Pred {
	m := modelOf(v)
	p := &Pred{AfterAuth: m, Final: m, MsgIdx: -1}
	deny := func(f string, a ...interface{}) *Pred { p.Why = fmt.Sprintf(f, a...); return p }
	if tampered != "" {
		return deny("tampered: %s", tampered)
	}
	if len(t.Msgs) == 0 {
		return deny("no messages")
	}
	if len(t.Signers) == 0 {
		return deny("no signers")
	}
	if t.NoFee || len(t.Fee) == 0 {
		return deny("no fee")
	}
	if uint64(len(t.Signers)) > v.Params.TxSigLimit {
		return deny("too many signers")
	}
	if uint64(len(t.Memo)) > v.Params.MaxMemoCharacters {
		return deny("memo too long")
	}
	if t.Timeout != 0 && t.Timeout < uint64(w.Height) {
		return deny("timed out")
	}
	if t.Chain != w.Chain {
		return deny("signed for chain %q", t.Chain)
	}
	signers := map[string]bool{}
	for _, s := range t.Signers {
		a, ok := m.Acc[s.Key.Addr]
		if !ok {
			return deny("signer has no account")
		}
		if a.Num != s.AccNum {
			return deny("signed for account number %d", s.AccNum)
		}
		if a.Seq != s.Seq {
			return deny("sequence %d instead of %d", s.Seq, a.Seq)
		}
		signers[s.Key.Addr] = true
	}
	payer := t.Signers[0].Key.Addr
	if t.Payer != "" {
		payer = t.Payer
	}
	if !signers[payer] {
		return deny("payer %s did not sign", payer)
	}
	for _, msg := range t.Msgs {
		switch x := msg.(type) {
		case *bankpb.MsgSendCoins:
			if !signers[x.FromAddress] {
				return deny("sender %s did not sign", x.FromAddress)
			}
		case *anypb.Any:
			return deny("message of unknown type %s", x.TypeUrl)
		}
	}
	aa := m.clone()
	if ok, why := aa.transfer(payer, "fee_collector", t.Fee); !ok {
		return deny("fee: %s", why)
	}
	for _, s := range t.Signers {
		a := aa.Acc[s.Key.Addr]
		a.Seq = m.Acc[s.Key.Addr].Seq + 1
		if a.Pub == "" {
			a.Pub = string(pkAny("", s.Key.Pub).Value)
		}
		aa.Acc[s.Key.Addr] = a
	}
	p.AuthOK = true
	p.AfterAuth = aa
	p.Final = aa.clone()
	p.MsgOK = true
	p.CheckOK = true
	for i, msg := range t.Msgs {
		ok, why, adm := p.Final.apply(msg)
		if adm {
			p.CheckOK = false
		}
		switch msg.(type) {
		case *bankpb.MsgSendCoins, *authnpb.MsgCreateAccount, *testpb.MsgCreatePost:
		default:
			p.CheckAny = true
		}
		if !ok && p.MsgOK {
			p.MsgOK, p.MsgWhy, p.MsgIdx = false, why, i
		}
	}
	if !p.MsgOK {
		p.Final = aa
	}
	return p
}

// apply executes one message on the model. admission tells that the message
// is refused by its admission already.
func (m *M) apply(msg proto.Message) (ok bool, why string, admission bool) {
	switch x := msg.(type) {
	case *bankpb.MsgSendCoins:
		ok, why = m.transfer(x.FromAddress, x.ToAddress, x.Amount)
		return ok, why, false
	case *authnpb.MsgCreateAccount:
		if x.Account == nil || x.Account.Address == "" {
			return false, "no address", true
		}
		pub := ""
		if x.Account.PubKey != nil {
			pub = string(x.Account.PubKey.Value)
		}
		if !m.createAccount(x.Account.Address, pub) {
			return false, "account exists", false
		}
		return true, "", false
	case *testpb.MsgCreatePost:
		if x.Title == "deny" {
			return false, "post denied", true
		}
		if x.Title == "" {
			return true, "", false
		}
		if x.Text == "" {
			return false, "empty post key", false
		}
		if _, ok := m.Posts[x.Text]; ok {
			return false, "post exists", false
		}
		if x.Title == "fail" {
			return false, "post fails", false
		}
		m.Posts[x.Text] = &testpb.Post{Id: x.Text, Creator: x.Creator, Title: x.Title, Text: x.Text}
		return true, "", false
	default:
		return false, "internal transition", false
	}
}

// ---- histories ----

// HistCfg shapes a random history. Weights of zero disable a kind.
type HistCfg struct {
	Keys, Funded       int
	Steps              int
	Attack             float64 // probability that a transaction is an attack on someone else's coins
	Tamper             float64 // probability of byte level tampering
	BadAuth            float64 // probability of wrong sequence, account number, chain, limits
	Replay             float64 // probability of replaying earlier bytes
	FailMsg            float64 // probability of a message meant to fail
	ReadNoise          float64 // probability of CheckTx/Query/Info noise per step
	Internal           float64 // probability of an internal message
	MultiSig           float64
	MaxMsgs            int
	SmallLimits        bool
	HugeCoins          bool
	NoPubKeyAtGenesis  bool
	CheckBeforeDeliver bool
	Opts               *WorldOpts // prepared world; accounts are those of funded keys
	Started            func(w *World)
	Keep               bool // the caller closes the world
}

func defaultHist() HistCfg {
	return HistCfg{Keys: 7, Funded: 4, Steps: 30, Attack: .06, Tamper: .05, BadAuth: .12, Replay: .06, FailMsg: .15, ReadNoise: .2, Internal: .05, MultiSig: .25, MaxMsgs: 3, CheckBeforeDeliver: true}
}

// Step is one observed ABCI call of a history.
type Step struct {
	Kind      string // deliver, check, query, info, block
	Spec      *TxSpec
	Tampered  string
	Bytes     []byte
	Replayed  bool // bytes were delivered before
	Accepted  bool // and passed authentication then
	Pre, Post *View
	Pred      *Pred // nil when Spec is nil
	Check     *types.ResponseCheckTx
	CheckNow  bool // CheckTx was called on the very pre state
	Code      uint32
	Log       string
	Label     string
}

type Hist struct {
	K     *Case
	W     *World
	Cfg   HistCfg
	Keys  []*Key
	sent  []sentTx
	Trace []string
	vcur  *View
}

type sentTx struct {
	b        []byte
	accepted bool
	spec     *TxSpec
}

var denoms = []string{"bar", "foo", "stake", "ibc/x9", "Zed"}

func (h *Hist) coins(max int64, n int) []*coinpb.Coin {
	r := h.K.R
	perm := r.Perm(len(denoms))
	var out []*coinpb.Coin
	for _, i := range perm[:n] {
		out = append(out, coin(1+r.Int63n(max), denoms[i]))
	}
	return out
}

// histOpts makes up the genesis accounts of a history.
func histOpts(r *rand.Rand, cfg HistCfg) WorldOpts {
	o := WorldOpts{}
	if cfg.SmallLimits {
		o.Params = &authnpb.Params{MaxMemoCharacters: uint64(r.Intn(12)), TxSigLimit: uint64(1 + r.Intn(4))}
	}
	if chance(r, .12) { // account numbers beyond one digit, one byte
		for n := int(pickN(r, 12, 20, 40, 260)); n > 0; n-- {
			o.Accounts = append(o.Accounts, GenAcc{Addr: fmt.Sprint("old", n), NoBal: true})
		}
	}
	many := 0
	if chance(r, .08) { // long balances
		many = 5 + r.Intn(25)
	}
	for i := 0; i < cfg.Funded; i++ {
		a := GenAcc{Addr: K(i).Addr}
		for j := 0; j < many; j++ {
			if chance(r, .7) {
				a.Coins = append(a.Coins, coin(1+r.Int63n(1000), fmt.Sprintf("many%d", j)))
			}
		}
		for _, d := range denoms[:3+r.Intn(3)] {
			var amt interface{} = 100 + r.Int63n(100000)
			if cfg.HugeCoins && chance(r, .3) {
				x := new(big.Int).Lsh(big.NewInt(1), uint(60+r.Intn(194)))
				amt = x.Sub(x, big.NewInt(int64(r.Intn(3))))
			}
			a.Coins = append(a.Coins, coin(amt, d))
		}
		sortCoins(a.Coins)
		if chance(r, .5) && !cfg.NoPubKeyAtGenesis {
			a.PubKey = K(i).Pub
		}
		o.Accounts = append(o.Accounts, a)
	}
	return o
}

func runHistory(k *Case, cfg HistCfg, obs func(h *Hist, s *Step)) *Hist {
	h := &Hist{K: k, Cfg: cfg}
	r := k.R
	for i := 0; i < cfg.Keys; i++ {
		h.Keys = append(h.Keys, K(i))
	}
	o := histOpts(r, cfg)
	if cfg.Opts != nil {
		o = *cfg.Opts
	}
	w := newWorld(o)
	h.W = w
	if !cfg.Keep {
		defer w.Close()
	}
	if cfg.Started != nil {
		cfg.Started(w)
	}
	w.Begin(int64(1 + r.Intn(5)))
	for v, i := w.View(), 0; i < cfg.Funded; i++ { // accounts that have been used for long
		if acc := v.Acc[K(i).Addr]; acc != nil && w.Rec == nil && chance(r, .08) { // a recorded chain changes by its calls alone
			acc.Sequence = agedSequence(r)
			if err := w.RT.Update(user.NewUsersFromString("authn"), acc); err != nil {
				panic(startFailure(err.Error()))
			}
		}
	}
	for s := 0; s < cfg.Steps; s++ {
		if k.Failed() {
			break
		}
		if chance(r, .1) {
			h.step(obs, &Step{Kind: "block"}, func(*Step) { w.NextBlock() })
			continue
		}
		if chance(r, cfg.ReadNoise) {
			h.noise(obs)
		}
		h.tx(obs)
	}
	return h
}

func sortCoins(cs []*coinpb.Coin) {
	for i := range cs {
		for j := i; j > 0 && cs[j].Denom < cs[j-1].Denom; j-- {
			cs[j], cs[j-1] = cs[j-1], cs[j]
		}
	}
}

func (h *Hist) view() *View {
	if h.vcur == nil {
		h.vcur = h.W.View()
	}
	return h.vcur
}

func (h *Hist) step(obs func(*Hist, *Step), s *Step, act func(*Step)) {
	s.Pre = h.view()
	act(s)
	h.vcur = nil
	s.Post = h.view()
	h.K.Count("abci_"+s.Kind, 1)
	if s.Kind == "deliver" && s.Spec != nil {
		d := s.describe()
		if len(d) > 900 {
			d = d[:900]
		}
		h.K.Sample(d)
	}
	obs(h, s)
}

// noise calls the read-only parts of the interface.
func (h *Hist) noise(obs func(*Hist, *Step)) {
	r := h.K.R
	for n := 1 + r.Intn(3); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			h.step(obs, &Step{Kind: "info"}, func(*Step) { h.W.App.Info(types.RequestInfo{}) })
		case 1:
			var b []byte
			if len(h.sent) > 0 && chance(r, .6) {
				b = h.sent[r.Intn(len(h.sent))].b
			} else {
				b = randBytes(r, r.Intn(200))
			}
			h.step(obs, &Step{Kind: "check", Bytes: b}, func(s *Step) {
				typ := types.CheckTxType_New
				if chance(r, .5) {
					typ = types.CheckTxType_Recheck
				}
				c := h.W.App.CheckTx(types.RequestCheckTx{Tx: b, Type: typ})
				s.Check = &c
				s.Code = c.Code
			})
		case 2:
			g := (&authnpb.Account{}).APIDefinition().Group
			h.query(obs, fmt.Sprintf("get/%s/Account/%s", g, h.Keys[r.Intn(len(h.Keys))].Addr))
		case 3:
			g := (&bankpb.Balance{}).APIDefinition().Group
			h.query(obs, fmt.Sprintf("get/%s/Balance/%s", g, h.Keys[r.Intn(len(h.Keys))].Addr))
		default:
			h.query(obs, pick(r, "api_resources", "list", "", "get", "get/x/y", "get//", string(randBytes(r, 20)), "set/a/b/c"))
		}
	}
}

func (h *Hist) query(obs func(*Hist, *Step), path string) {
	h.step(obs, &Step{Kind: "query", Label: path}, func(s *Step) {
		q := h.W.App.Query(types.RequestQuery{Path: path})
		s.Code, s.Log = q.Code, q.Log
	})
}

// tx generates, checks and delivers one transaction.
func (h *Hist) tx(obs func(*Hist, *Step)) {
	r := h.K.R
	if len(h.sent) > 0 && chance(r, h.Cfg.Replay) {
		old := h.sent[r.Intn(len(h.sent))]
		s := &Step{Kind: "deliver", Bytes: old.b, Replayed: true, Accepted: old.accepted, Spec: old.spec, Label: "replay"}
		if old.spec != nil {
			s.Pred = predict(h.view(), h.W, old.spec, "")
		}
		h.deliver(obs, s)
		return
	}
	spec, tampered, label := h.genTx()
	s := &Step{Kind: "deliver", Spec: spec, Tampered: tampered, Bytes: spec.Encode(), Label: label}
	s.Pred = predict(h.view(), h.W, spec, tampered)
	h.deliver(obs, s)
}

func (h *Hist) deliver(obs func(*Hist, *Step), s *Step) {
	r := h.K.R
	if h.Cfg.CheckBeforeDeliver || chance(r, .3) {
		h.step(obs, &Step{Kind: "check", Bytes: s.Bytes, Spec: s.Spec, Pred: s.Pred, Tampered: s.Tampered, Label: s.Label, CheckNow: true}, func(x *Step) {
			c := h.W.App.CheckTx(types.RequestCheckTx{Tx: s.Bytes})
			x.Check, x.Code, x.Log = &c, c.Code, c.Log
			s.Check = &c
		})
		// transactions that wait are checked again
		for chance(r, .35) {
			h.step(obs, &Step{Kind: "check", Bytes: s.Bytes, Spec: s.Spec, Pred: s.Pred, Tampered: s.Tampered, Label: s.Label + " recheck", CheckNow: true}, func(x *Step) {
				c := h.W.App.CheckTx(types.RequestCheckTx{Tx: s.Bytes, Type: types.CheckTxType_Recheck})
				x.Check, x.Code, x.Log = &c, c.Code, c.Log
			})
		}
	}
	h.step(obs, s, func(s *Step) {
		d := h.W.Deliver(s.Bytes)
		s.Code, s.Log = d.Code, d.Log
	})
	sent := sentTx{b: s.Bytes, accepted: s.Accepted || s.Pred != nil && s.Pred.AuthOK}
	if s.Tampered == "" {
		sent.spec = s.Spec
	}
	h.sent = append(h.sent, sent)
	if s.Pred != nil {
		switch {
		case s.Pred.AuthOK && s.Pred.MsgOK:
			h.K.Count("tx_expected_success", 1)
		case s.Pred.AuthOK:
			h.K.Count("tx_expected_message_failure", 1)
			h.K.Seen("message_failures", s.Pred.MsgWhy)
		default:
			h.K.Count("tx_expected_refusal", 1)
			h.K.Seen("refusal_reasons", s.Pred.Why)
		}
	}
}

func (s *Step) describe() string {
	if s.Spec == nil {
		return fmt.Sprintf("%s %s code=%d log=%q", s.Kind, s.Label, s.Code, s.Log)
	}
	var sg []string
	for _, x := range s.Spec.Signers {
		sg = append(sg, fmt.Sprintf("%s#%d@%d", x.Key.Addr, x.AccNum, x.Seq))
	}
	var ms []string
	for _, m := range s.Spec.Msgs {
		ms = append(ms, fmt.Sprintf("%s{%v}", m.ProtoReflect().Descriptor().Name(), m))
	}
	why := ""
	if s.Pred != nil {
		why = s.Pred.Why + s.Pred.MsgWhy
	}
	return fmt.Sprintf("%s [%s %s] signers=%v payer=%q fee=%v memo=%d timeout=%d msgs=%v -> code=%d log=%q (model: %s) replay=%v tx=%x", s.Kind, s.Label, s.Tampered, sg, s.Spec.Payer, s.Spec.Fee, len(s.Spec.Memo), s.Spec.Timeout, strings.Join(ms, "; "), s.Code, s.Log, why, s.Replayed, s.Bytes)
}

// pickSigner prefers keys which have an account.
func (h *Hist) pickSigner() *Key {
	r := h.K.R
	v := h.view()
	for i := 0; i < 12; i++ {
		k := h.Keys[r.Intn(len(h.Keys))]
		if _, ok := v.Acc[k.Addr]; ok && len(v.Bal[k.Addr]) > 0 {
			return k
		}
	}
	return h.Keys[r.Intn(len(h.Keys))]
}

func (h *Hist) spec(keys []*Key) *TxSpec {
	v := h.view()
	t := &TxSpec{Chain: h.W.Chain}
	for _, k := range keys {
		s := SignerSpec{Key: k}
		if a := v.Acc[k.Addr]; a != nil {
			s.Seq, s.AccNum = a.Sequence, a.AccountNumber
		}
		t.Signers = append(t.Signers, s)
	}
	return t
}

// afford returns a small coin list the address can pay, if any.
func (h *Hist) afford(addr string, max int64) []*coinpb.Coin {
	r := h.K.R
	bal := h.view().Bal[addr]
	if len(bal) == 0 {
		return h.coins(10, 1)
	}
	var out []*coinpb.Coin
	for _, c := range bal {
		if len(out) > 0 && chance(r, .5) {
			continue
		}
		if len(out) == 0 && chance(r, .3) && c != bal[len(bal)-1] {
			continue
		}
		n, _ := new(big.Int).SetString(c.Amount, 10)
		if n == nil || n.Sign() <= 0 {
			continue
		}
		lim := big.NewInt(max)
		if n.Cmp(lim) < 0 {
			lim = n
		}
		x := new(big.Int).Rand(r, lim)
		out = append(out, coin(x.Add(x, big.NewInt(1)), c.Denom))
	}
	if len(out) == 0 {
		return h.coins(10, 1)
	}
	if chance(r, .3) {
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

func (h *Hist) genTx() (*TxSpec, string, string) {
	r := h.K.R
	v := h.view()
	keys := []*Key{h.pickSigner()}
	if chance(r, h.Cfg.MultiSig) {
		for n := 1 + r.Intn(2); n > 0; n-- {
			k := h.pickSigner()
			dup := false
			for _, x := range keys {
				dup = dup || x == k
			}
			if !dup || chance(r, .15) {
				keys = append(keys, k)
			}
		}
	}
	t := h.spec(keys)
	label := "plain"
	payer := keys[0]
	if len(keys) > 1 && chance(r, .5) {
		payer = keys[r.Intn(len(keys))]
		t.Payer = payer.Addr
	}
	t.Fee = h.afford(payer.Addr, 20)
	if chance(r, .3) {
		t.Memo = strings.Repeat("m", r.Intn(10))
	}
	if chance(r, .2) {
		t.Timeout = uint64(h.W.Height) + uint64(r.Intn(3))
	}
	t.Gas = uint64(r.Intn(3)) * 1000
	if chance(r, .1) { // of no meaning here
		t.Granter = pick(r, keys[len(keys)-1].Addr, h.Keys[r.Intn(len(h.Keys))].Addr, "nobody")
	}
	if chance(r, .05) && len(v.Bal[payer.Addr]) > 0 { // a large share of the balance
		t.Fee = h.afford(payer.Addr, 1<<40)
	}
	n := 1 + r.Intn(h.Cfg.MaxMsgs)
	if chance(r, .015) {
		n = 9 + r.Intn(12)
	}
	if chance(r, .06) { // everything that is left, mostly to somebody new
		m := modelOf(v)
		if ok, _ := m.transfer(payer.Addr, "fee_collector", t.Fee); ok {
			var rest []*coinpb.Coin
			for d, n := range m.Bal[payer.Addr] {
				if n.Sign() > 0 {
					rest = append(rest, coin(n, d))
				}
			}
			sortCoins(rest)
			to := h.addr()
			if chance(r, .6) {
				to = fmt.Sprintf("heir%d", r.Intn(1000))
			}
			t.Msgs = append(t.Msgs, &bankpb.MsgSendCoins{FromAddress: payer.Addr, ToAddress: to, Amount: rest})
			label = "drain"
			n--
		}
	}
	for i := 0; i < n; i++ {
		t.Msgs = append(t.Msgs, h.genMsg(keys))
	}
	if len(t.Msgs) > 0 && chance(r, .06) { // the same message again
		m := proto.Clone(t.Msgs[r.Intn(len(t.Msgs))])
		for i := 1 + r.Intn(2); i > 0; i-- {
			t.Msgs = append(t.Msgs, m)
		}
	}
	// attacks
	if chance(r, h.Cfg.Attack) {
		label = "attack"
		victim := h.Keys[r.Intn(len(h.Keys))].Addr
		if chance(r, .15) {
			victim = "fee_collector"
		}
		// what looks like the signer but is not
		if chance(r, .3) {
			for i := 0; i < 12; i++ {
				if x := near(r, keys[r.Intn(len(keys))].Addr); len(v.Bal[x]) != 0 {
					victim = x
				}
			}
		}
		switch r.Intn(3) {
		case 0:
			t.Payer = victim
			t.Fee = h.afford(victim, 50)
		default:
			m := &bankpb.MsgSendCoins{FromAddress: victim, ToAddress: keys[0].Addr, Amount: h.afford(victim, 1000)}
			i := r.Intn(len(t.Msgs) + 1)
			t.Msgs = append(t.Msgs[:i:i], append([]proto.Message{m}, t.Msgs[i:]...)...)
		}
		return t, "", label
	}
	if chance(r, h.Cfg.BadAuth) {
		label = "badauth"
		i := r.Intn(len(t.Signers))
		switch r.Intn(16) {
		case 14, 15: // several denominations of which one cannot be paid
			var fee []*coinpb.Coin
			b := v.Bal[payer.Addr]
			short := r.Intn(len(b) + 1)
			for j, c := range b {
				x, _ := new(big.Int).SetString(c.Amount, 10)
				if x == nil || x.Sign() <= 0 {
					continue
				}
				if j == short {
					fee = append(fee, coin(x.Add(x, big.NewInt(1+int64(r.Intn(5)))), c.Denom))
				} else if chance(r, .7) {
					fee = append(fee, coin(1, c.Denom))
				}
			}
			if short == len(b) {
				fee = append(fee, coin(int64(1+r.Intn(5)), pick(r, "missing", "zzz", "aaa", "Aaa")))
			}
			r.Shuffle(len(fee), func(i, j int) { fee[i], fee[j] = fee[j], fee[i] })
			t.Fee = fee
		case 0:
			t.Signers[i].Seq++
		case 1:
			t.Signers[i].Seq--
		case 2:
			t.Signers[i].Seq = r.Uint64()
			if a := v.Acc[t.Signers[i].Key.Addr]; a != nil && chance(r, .5) {
				t.Signers[i].Seq = a.Sequence ^ 1<<uint(r.Intn(64))
			}
		case 3:
			t.Signers[i].AccNum++
		case 4:
			t.Signers[i].AccNum--
			if chance(r, .5) {
				t.Signers[i].AccNum ^= 1 << uint(r.Intn(64))
				t.Signers[i].AccNum++
			}
		case 5:
			t.Chain = pick(r, "", "other", h.W.Chain+"x", strings.ToUpper(h.W.Chain), h.W.Chain[1:])
		case 6:
			t.NoFee = true
		case 7:
			t.Fee = nil
		case 8:
			t.Fee = []*coinpb.Coin{coin(pick(r, "-1", "1.5", "", "abc", "1e2", "+4", " 7", "0x1f"), "foo")}
		case 9:
			b := v.Bal[payer.Addr]
			if len(b) > 0 {
				x, _ := new(big.Int).SetString(b[0].Amount, 10)
				if x != nil {
					t.Fee = []*coinpb.Coin{coin(x.Add(x, big.NewInt(1)), b[0].Denom)}
				}
			} else {
				t.Fee = []*coinpb.Coin{coin(1, "foo")}
			}
		case 10:
			t.Memo = strings.Repeat("x", int(min64(v.Params.MaxMemoCharacters, 2000))+r.Intn(2))
		case 11:
			if h.W.Height > 1 {
				t.Timeout = uint64(h.W.Height - 1)
			}
		case 12:
			for uint64(len(t.Signers)) < v.Params.TxSigLimit+1 && len(t.Signers) < 6 {
				t.Signers = append(t.Signers, h.spec([]*Key{h.Keys[r.Intn(len(h.Keys))]}).Signers...)
			}
		case 13:
			t.Msgs = append(t.Msgs, pickMsg(r.Intn(3)))
		}
		return t, "", label
	}
	if chance(r, h.Cfg.Tamper) {
		return t, h.tamper(t), "tamper"
	}
	return t, "", label
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

// pickMsg returns messages which are not transitions.
func pickMsg(i int) proto.Message {
	switch i {
	case 0:
		a := toAny(&bankpb.Balance{Address: "x"})
		return a
	case 1:
		return &anypb.Any{TypeUrl: "/no.such.Type", Value: []byte{1, 2}}
	default:
		return &anypb.Any{TypeUrl: "/cosmos.bank.v1beta1.MsgMultiSend"}
	}
}

// tamper installs a byte level manipulation into the transaction which makes
// it invalid, and describes it.
func (h *Hist) tamper(t *TxSpec) string {
	r := h.K.R
	i := r.Intn(len(t.Signers))
	switch r.Intn(9) {
	case 0:
		bit := r.Intn(64 * 8)
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures[i] = flip(x.Signatures[i], bit) }
		return "signature bit flipped"
	case 1:
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = x.Signatures[:len(x.Signatures)-1] }
		return "signature dropped"
	case 2:
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures = append(x.Signatures, x.Signatures[i]) }
		return "signature added"
	case 3:
		t.PostSign = func(x *authnpb.TxRaw) {
			var b authnpb.TxBody
			_ = proto.Unmarshal(x.BodyBytes, &b)
			b.Memo += "!"
			x.BodyBytes = mustMarshal(&b)
		}
		return "memo changed after signing"
	case 4:
		t.PostSign = func(x *authnpb.TxRaw) {
			var a authnpb.AuthInfo
			_ = proto.Unmarshal(x.AuthInfoBytes, &a)
			a.Fee.GasLimit += 7
			x.AuthInfoBytes = mustMarshal(&a)
		}
		return "gas changed after signing"
	case 5:
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures[i] = highS(x.Signatures[i]) }
		return "high-S signature"
	case 6:
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures[i] = append(append([]byte{}, x.Signatures[i]...), 0) }
		return "65 byte signature"
	case 7:
		t.PostSign = func(x *authnpb.TxRaw) { x.Signatures[i] = nil }
		return "empty signature"
	default:
		t.Bytes = func(b []byte) []byte { return b[:len(b)-1-r.Intn(len(b)/2)] }
		return "truncated"
	}
}

func flip(b []byte, bit int) []byte {
	c := append([]byte{}, b...)
	c[bit/8%len(c)] ^= 1 << (bit % 8)
	return c
}

func (h *Hist) genMsg(keys []*Key) proto.Message {
	r := h.K.R
	from := keys[r.Intn(len(keys))].Addr
	if chance(r, h.Cfg.Internal) {
		return h.internalMsg(from)
	}
	if chance(r, h.Cfg.FailMsg) {
		return h.failMsg(from)
	}
	switch r.Intn(10) {
	case 0:
		return &authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: h.addr(), AccountNumber: uint64(r.Intn(5)), Sequence: uint64(r.Intn(5))}}
	case 1, 2:
		return &testpb.MsgCreatePost{Creator: from, Title: pick(r, "t", "", "u"), Text: fmt.Sprintf("p%d", r.Intn(40))}
	default:
		return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: h.addr(), Amount: h.amount(from)}
	}
}

func (h *Hist) amount(from string) []*coinpb.Coin {
	r := h.K.R
	switch r.Intn(12) {
	case 0:
		return nil
	case 1: // everything of the last denomination
		if b := h.view().Bal[from]; len(b) > 0 {
			c := b[r.Intn(len(b))]
			return []*coinpb.Coin{coin(c.Amount, c.Denom)}
		}
		return nil
	case 2:
		return []*coinpb.Coin{coin(0, denoms[r.Intn(len(denoms))])}
	default:
		return h.afford(from, 400)
	}
}

// near returns an address which resembles a but is another one.
func near(r *rand.Rand, a string) string {
	switch r.Intn(6) {
	case 0:
		return strings.ToUpper(a)
	case 1:
		return strings.ToUpper(a[:1]) + a[1:]
	case 2:
		return a + pick(r, " ", "x", "/", ".")
	case 3:
		return " " + a
	case 4:
		return a[:len(a)-1]
	default:
		return a[strings.IndexByte(a, '1')+1:]
	}
}

func (h *Hist) addr() string {
	r := h.K.R
	switch r.Intn(12) {
	case 0, 1:
		return near(r, h.Keys[r.Intn(len(h.Keys))].Addr)
	case 2:
		return pick(r, "bob", "fee_collector", "a/b", "ünï", "with space", "bank", "authn", "rbac", "x"+fmt.Sprint(r.Intn(6)))
	default:
		return h.Keys[r.Intn(len(h.Keys))].Addr
	}
}

func (h *Hist) failMsg(from string) proto.Message {
	r := h.K.R
	switch r.Intn(9) {
	case 0:
		return &testpb.MsgCreatePost{Creator: from, Title: "fail", Text: fmt.Sprintf("f%d", r.Intn(40))}
	case 1:
		return &testpb.MsgCreatePost{Creator: from, Title: "deny", Text: "d"}
	case 2:
		return &authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: from}}
	case 3:
		return &authnpb.MsgCreateAccount{}
	case 4:
		b := h.view().Bal[from]
		if len(b) == 0 {
			return &authnpb.MsgCreateAccount{Account: &authnpb.Account{}}
		}
		c := b[r.Intn(len(b))]
		n, _ := new(big.Int).SetString(c.Amount, 10)
		if n == nil {
			n = new(big.Int)
		}
		return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: h.addr(), Amount: []*coinpb.Coin{coin(n.Add(n, big.NewInt(1+int64(r.Intn(50)))), c.Denom)}}
	case 5:
		return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: pick(r, "", "authn", "bank", "rbac"), Amount: h.afford(from, 20)}
	case 6:
		return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: h.addr(), Amount: []*coinpb.Coin{coin(pick(r, "-5", "-0.1", "1.5", "", "x", "+1", "1_0", "0x10", "1e1", " 3", "99999999999999999999999999999999999999999999999999999999999999999999999999999999999999"), "foo")}}
	case 7:
		d := denoms[r.Intn(3)]
		return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: h.addr(), Amount: []*coinpb.Coin{coin(1, d), coin(2, d)}}
	default:
		return &bankpb.MsgSendCoins{FromAddress: from, ToAddress: h.addr(), Amount: []*coinpb.Coin{coin(1, pick(r, "", "f", "1foo", "fo o", "foo-", "nosuchdenom", "Foo"))}}
	}
}

func (h *Hist) internalMsg(from string) proto.Message {
	r := h.K.R
	switch r.Intn(4) {
	case 0:
		return &bankpb.MsgSetBalance{Address: from, Amount: h.coins(1000, 1)}
	case 1:
		return &rbacpb.MsgCreateRole{NewRole: &rbacpb.Role{Id: fmt.Sprintf("r%d", r.Intn(5))}}
	case 2:
		return &rbacpb.MsgBindRole{RoleId: externalRole, Subject: fmt.Sprintf("s%d", r.Intn(5))}
	default:
		return &abcipb.MsgSetInitChain{InitChainInfo: &abcipb.InitChainInfo{ChainId: "evil"}}
	}
}

var secpN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

func highS(sig []byte) []byte {
	if len(sig) != 64 {
		return sig
	}
	s := new(big.Int).SetBytes(sig[32:])
	s.Sub(secpN, s)
	out := append([]byte{}, sig...)
	s.FillBytes(out[32:])
	return out
}

// appKey tells whether a raw database key belongs to an application object
// (rather than to the framework's consensus bookkeeping).
func appKey(k string) bool {
	return !strings.Contains(k, "tmos.abci.")
}

func rawDiff(a, b *View) []string {
	var d []string
	for _, k := range diffDump(a.Raw, b.Raw) {
		if appKey(k) {
			d = append(d, k)
		}
	}
	return d
}

// agedSequence is the sequence of an account that has been used for long.
func agedSequence(r *rand.Rand) uint64 {
	return pickN(r, 9, 254, 255, 65535, 1<<31-1, 1<<32-2, 1<<32-1, 1<<32, 1<<53, 1<<63-2, 1<<63)
}
