package main

import (
	"fmt"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/runtime/module"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
)

// c16module creates accounts through a module client: during genesis and
// afterwards, with suggested numbers and sequences.
func c16module(k *Case) {
	r := k.R
	var order []string
	create := func(c module.Client, w *World, addr string, exists bool) {
		m := &authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: addr, AccountNumber: r.Uint64(), Sequence: r.Uint64()}}
		if chance(r, .3) {
			m.Account.PubKey = pkAny(nativePKURL, K(r.Intn(5)).Pub)
		}
		err := c.Deliver(m)
		k.Eval(fmt.Sprint("module-create", k.Idx, len(order), addr, exists))
		if (err == nil) == (exists || addr == "") {
			k.Fail("module-create", "creating account %q (exists=%v): err=%v", addr, exists, err)
			return
		}
		if err == nil {
			k.Count("accounts_created", 1)
			order = append(order, addr)
		} else {
			k.Count("creations_refused", 1)
		}
	}
	has := func(a string) bool {
		for _, x := range order {
			if x == a {
				return true
			}
		}
		return false
	}
	w := newWorld(WorldOpts{Genesis: func(c module.Client) error {
		for i := r.Intn(6); i > 0; i-- {
			a := fmt.Sprintf("g%d", i)
			create(c, nil, a, has(a))
		}
		return nil
	}})
	defer w.Close()
	w.Begin(1)
	if err := w.Mod.Deliver(&bankpb.MsgSetBalance{Address: "bank0", Amount: []*coinpb.Coin{coin(1000000, "foo")}}); err != nil {
		panic(startFailure(err.Error()))
	}
	verify := func(where string) {
		v := w.View()
		c16inv(k, v, where)
		if len(v.Acc) != len(order) {
			k.Fail("set", "%d accounts instead of %d after %s", len(v.Acc), len(order), where)
			return
		}
		for i, a := range order {
			acc := v.Acc[a]
			if acc == nil || acc.AccountNumber != uint64(i) || acc.Sequence != 0 {
				k.Fail("order", "account %q created as number %d is %v after %s", a, i, acc, where)
			}
		}
	}
	verify("genesis")
	for i := 0; i < 25 && !k.Failed(); i++ {
		a := fmt.Sprintf("m%d", r.Intn(18))
		switch r.Intn(4) {
		case 0: // the first credit creates the account, further ones do not
			balBefore := w.View().Bal[a] != nil
			err := w.Mod.Deliver(&bankpb.MsgSendCoins{FromAddress: "bank0", ToAddress: a, Amount: coinList(int64(r.Intn(3)), "foo")})
			if err != nil {
				k.Fail("send", "module transfer to %q refused: %v", a, err)
				return
			}
			if !balBefore && !has(a) {
				order = append(order, a)
				k.Count("accounts_created", 1)
			}
		case 1:
			create(w.Mod, w, a, has(a))
		case 2:
			if len(order) > 0 {
				create(w.Mod, w, order[r.Intn(len(order))], true)
			}
		default:
			x := pick(r, "", "weird/adr", "ü", "m1 ")
			create(w.Mod, w, x, has(x))
		}
		verify(fmt.Sprintf("step %d", i))
	}
}
