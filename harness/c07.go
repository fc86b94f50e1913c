package main

import (
	"fmt"
	"strings"

	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/tendermint/tendermint/abci/types"
)

func c07(c *Ctx) {
	c.Rule("one delivered transition, CheckTx or DeliverTx in a generated application, distinct by its expected event trace")
	c.Assume("trace specification: admission*, authorization, pre*, exec (nested pipelines inside), post*; stops at first failure")
	c.Cases("pipeline", c.N(1200, 5000), c07pipeline)
	c.Expect("events", 3000)
	c.Expect("failed_deliveries", 300)
	c.Expect("nested", 100)
	c.Expect("unknown", 30)
	c.Expect("txs", 1000)
	for _, s := range []string{"adm", "authz", "pre", "exec", "post", "txadm", "txpost", "decode"} {
		c.Expect("stage_"+s, 50)
	}
}

func c07pipeline(k *Case) {
	r := k.R
	a := newProbeApp(r)
	withAuthz := chance(r, .7)
	if withAuthz {
		a.mods[r.Intn(len(a.mods))].authz = true
	}
	for _, m := range a.mods {
		if m.chain = chance(r, .25); m.chain {
			k.Count("chained_modules", 1)
		}
	}
	dec := &probeDecoder{a: a, txs: map[string]*probeTx{}}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.SetDecoder(dec)
		for _, m := range a.mods {
			b.AddModule(m)
		}
		run, err = b.Build()
	})
	defer closeDBs(dbs)
	if err != nil {
		k.Fail("build", "valid application does not build: %v", err)
		return
	}
	app := rt.NewABCIApplication(run)
	app.InitChain(types.RequestInitChain{ChainId: "x"})
	app.BeginBlock(types.RequestBeginBlock{})
	trs := a.trNames()
	var ids []string
	for _, m := range a.mods {
		for _, h := range m.handlers {
			ids = append(ids, h.id)
		}
	}
	ids = append(ids, "authz", "authz-deny", "authz-err")
	n := 0
	failSet := func(p float64) string {
		if !chance(r, p) {
			return ""
		}
		s := ""
		for j := 1 + r.Intn(3); j > 0; j-- {
			s += "<" + ids[r.Intn(len(ids))] + ">"
		}
		return s
	}
	mk := func() *Dyn {
		n++
		name := trs[r.Intn(len(trs))]
		if chance(r, .04) {
			name = pick(r, "pg.Unknown", "pg.T", "unknown.T01", name+"1")
		}
		d := a.transition(name).set("tag", fmt.Sprint(n)).set("fail", failSet(.45))
		if chance(r, .25) {
			next := trs[r.Intn(len(trs))]
			if chance(r, .1) {
				next = "pg.Unknown"
			}
			d.set("next", next).set("next_fail", failSet(.4))
			if chance(r, .4) {
				d.set("imp", pick(r, "u1", "u1+u2", "probe0", "u1+u2+u3+u4+u5+u6+u7"))
			}
			k.Count("nested", 1)
		}
		return d
	}
	compare := func(what string, want []string, wantOK, ok bool) {
		got := a.log.take()
		k.Eval(strings.Join(want, "\n") + what)
		k.Count("events", int64(len(got)))
		for _, e := range got {
			k.Count("stage_"+strings.SplitN(e, " ", 2)[0], 1)
		}
		if !wantOK {
			k.Count("failed_deliveries", 1)
		}
		if !eqStrings(got, want) {
			k.FailData("trace", map[string]interface{}{"want": want, "got": got}, "%s: handlers ran as\n%s\ninstead of\n%s", what, strings.Join(got, "\n"), strings.Join(want, "\n"))
		} else if ok != wantOK {
			k.Fail("result", "%s: success=%v, expected %v after\n%s", what, ok, wantOK, strings.Join(want, "\n"))
		}
		if len(want) > 8 {
			k.Sample(map[string]interface{}{"what": what, "trace": got})
		}
	}
	us := func() []string {
		return [][]string{{"alice"}, {"alice", "bob"}, {"probe0"}, {"carol", "probe1", "zed"}, {"a", "b", "c", "d", "e", "f", "g", "h", "i"}}[r.Intn(5)]
	}
	for i := 0; i < 40 && !k.Failed(); i++ {
		if chance(r, .35) {
			t := mk()
			u := us()
			var want []string
			before := t.copy()
			ok := a.expect(&want, t, strings.Join(sorted(u), "+"), withAuthz)
			a.log.take()
			err := run.Deliver(user.NewUsersFromString(u...), t)
			if a.owner(t.Def.Name()) == nil {
				k.Count("unknown", 1)
			}
			compare("Deliver "+t.Def.Name()+" fail="+t.get("fail").(string), want, ok, err == nil)
			if before.String() != t.String() {
				k.Fail("mutated", "the pipeline changed the transition")
			}
			continue
		}
		tx := &probeTx{id: fmt.Sprintf("tx%d.%d", k.Idx, i), fail: failSet(.4)}
		u := us()
		tx.users = user.NewUsersFromString(u...)
		for j := r.Intn(5); j > 0; j-- {
			tx.msgs = append(tx.msgs, mk())
		}
		if len(tx.msgs) > 0 && chance(r, .1) { // the same message again
			tx.msgs = append(tx.msgs, tx.msgs[r.Intn(len(tx.msgs))])
			k.Count("repeated_messages", 1)
		}
		if chance(r, .03) { // many messages, few of which fail
			for j := 10 + r.Intn(60); j > 0; j-- {
				d := mk()
				if !chance(r, .01) {
					d.set("fail", "").set("next_fail", "")
				}
				if a.owner(d.Def.Name()) != nil {
					tx.msgs = append(tx.msgs, d)
				}
			}
			k.Count("long_txs", 1)
		}
		undecodable := chance(r, .1)
		if !undecodable {
			dec.txs[tx.id] = tx
		}
		chain := func(ev *[]string, stage string) bool {
			for _, h := range a.of(stage, "") {
				*ev = append(*ev, fmt.Sprintf("%s %s tx %s", stage, h.id, tx.id))
				if strings.Contains(tx.fail, "<"+h.id+">") {
					return false
				}
			}
			return true
		}
		ustr := strings.Join(sorted(u), "+")
		spec := func(deliver bool) (want []string, ok bool) {
			want = append(want, "decode "+tx.id)
			if undecodable || !chain(&want, "txadm") {
				return want, false
			}
			if !deliver {
				for _, m := range tx.msgs {
					d := m.(*Dyn)
					if a.owner(d.Def.Name()) == nil {
						return want, false
					}
					for _, h := range a.of("adm", d.Def.Name()) {
						want = append(want, fmt.Sprintf("adm %s %s#%s by %s", h.id, d.Def.Name(), d.get("tag"), ustr))
						if strings.Contains(d.get("fail").(string), "<"+h.id+">") {
							return want, false
						}
					}
				}
				return want, true
			}
			if !chain(&want, "txpost") {
				return want, false
			}
			for _, m := range tx.msgs {
				if !a.expect(&want, m.(*Dyn), ustr, withAuthz) {
					return want, false
				}
			}
			return want, true
		}
		k.Count("txs", 1)
		a.log.take()
		if chance(r, .6) {
			want, ok := spec(false)
			ty := types.CheckTxType_New
			if chance(r, .3) {
				ty = types.CheckTxType_Recheck
			}
			res := app.CheckTx(types.RequestCheckTx{Tx: []byte(tx.id), Type: ty})
			compare("CheckTx", want, ok, res.Code == 0)
		}
		want, ok := spec(true)
		res := app.DeliverTx(types.RequestDeliverTx{Tx: []byte(tx.id)})
		compare("DeliverTx", want, ok, res.Code == 0)
	}
}

func sorted(l []string) []string {
	m := append([]string(nil), l...)
	sortStrings(m)
	return m
}
