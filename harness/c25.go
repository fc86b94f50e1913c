package main

import (
	"fmt"
	"strings"

	"github.com/dgraph-io/badger/v3"
	"github.com/fdymylja/tmos/core/meta"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// c25programs delivers transactions whose handlers run random programs of
// creations, updates and deletions over objects of generated types, most of
// them indexed, and fail (by error or panic) somewhere. The stored bytes, index
// entries included, must be those of the successful transactions only.

type progOp struct {
	t    *ormType
	op   string
	o    *Dyn
	fail string // error, panic
	next string // tag of a program delivered by this one
}

type progModule struct {
	types []*ormType
	progs map[string][]progOp
	auth  map[string][]progOp // by transaction id, run after authentication
	c     module.Client
	bad   string // an operation misbehaved
	wrote int
}

func progTransition(i int, tag string) *Dyn {
	return newDyn(probeFile.Messages().ByName("T"), trDef("prog", fmt.Sprint("P", i))).set("tag", tag)
}

func (m *progModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	b := module.NewDescriptorBuilder().Named("prog")
	for _, t := range m.types {
		b.OwnsStateObject(t.New(), t.sdef)
	}
	for i := 0; i < 2; i++ {
		b.HandlesStateTransition(progTransition(i, ""), statetransition.ExecutionHandlerFunc(func(r statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
			return statetransition.ExecutionResponse{}, m.run(m.progs[r.Transition.(*Dyn).get("tag").(string)])
		}))
	}
	b.WithPostAuthenticationHandler(&progAuth{m})
	return b.Build()
}

type progAuth struct{ m *progModule }

func (p *progAuth) Exec(r authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	return authentication.PostAuthenticationResponse{}, p.m.run(p.m.auth[r.Tx.(*probeTx).id])
}

func (m *progModule) run(ops []progOp) error {
	for _, op := range ops {
		var err error
		switch {
		case op.fail == "error":
			return fmt.Errorf("fails on demand")
		case op.fail == "panic":
			panic("panics on demand")
		case op.next != "":
			if err = m.c.Deliver(progTransition(1, op.next)); err != nil {
				return err
			}
			continue
		case op.op == "create":
			err = m.c.Create(op.o.copy())
		case op.op == "update":
			err = m.c.Update(op.o.copy())
		case op.op == "delete":
			err = m.c.Delete(op.o.copy())
		}
		if err != nil { // programs are made of operations that succeed in order
			m.bad = fmt.Sprintf("%s of %s %s fails: %v", op.op, op.t.def.Name(), short(op.t.modelKey(op.o)), err)
			return err
		}
		m.wrote++
		got := op.t.New()
		err = m.c.Get(op.t.id(op.o), got)
		if (err == nil) != (op.op != "delete") || err == nil && !same(got, op.o) {
			m.bad = fmt.Sprintf("after %s of %s %s within a transaction it reads as %s, err %v", op.op, op.t.def.Name(), short(op.t.modelKey(op.o)), short(got.String()), err)
		}
	}
	return nil
}

type progModel map[*ormType]map[string]*Dyn

func (p progModel) clone() progModel {
	n := progModel{}
	for t, m := range p {
		n[t] = map[string]*Dyn{}
		for k, o := range m {
			n[t][k] = o
		}
	}
	return n
}

func c25programs(k *Case) {
	r := k.R
	ts := newORMTypes(r, 3+r.Intn(2), chance(r, .7))
	m := &progModule{types: ts, progs: map[string][]progOp{}, auth: map[string][]progOp{}}
	pa := &probeApp{}
	dec := &probeDecoder{a: pa, txs: map[string]*probeTx{}}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.SetDecoder(dec)
		b.AddModule(m)
		run, err = b.Build()
	})
	defer closeDBs(dbs)
	if err != nil {
		k.Fail("build", "valid application does not build: %v", err)
		return
	}
	app := rt.NewABCIApplication(run)
	app.InitChain(types.RequestInitChain{ChainId: "x"})
	app.BeginBlock(types.RequestBeginBlock{})
	model := progModel{}
	for _, t := range ts {
		model[t] = map[string]*Dyn{}
	}
	n := 0
	var fails int
	var done []progOp // operations of what succeeded
	var keep func(ops []progOp)
	keep = func(ops []progOp) {
		for _, op := range ops {
			if op.next != "" {
				keep(m.progs[op.next])
			} else {
				done = append(done, op)
			}
		}
	}
	gen := func(st progModel, max int) (ops []progOp) {
		t := ts[r.Intn(len(ts))]
		for j := r.Intn(max + 1); j > 0; j-- {
			if chance(r, .4) {
				t = ts[r.Intn(len(ts))]
			}
			key := t.keys[r.Intn(min(len(t.keys), 5))]
			o := t.withKey(key)
			if t.emptyKey(o) {
				continue
			}
			mk := t.modelKey(o)
			old := st[t][mk]
			if old != nil && chance(r, .6) && len(t.idx) > 0 {
				o = old.copy()
				if f := t.idx[r.Intn(len(t.idx))]; t.pk == nil || f.Name() != t.pk.Name() {
					vs := t.pool[f.Name()]
					o.Set(f, protoreflect.ValueOf(vs[r.Intn(len(vs))]))
				}
			} else {
				t.randomize(r, o)
			}
			op := "create"
			if old != nil {
				op = pick(r, "update", "update", "delete")
			}
			ops = append(ops, progOp{t: t, op: op, o: o})
			if op == "delete" {
				delete(st[t], mk)
			} else {
				st[t][mk] = o
			}
		}
		return
	}
	check := func(why string) {
		for _, t := range ts {
			for mk, w := range model[t] {
				got := t.New()
				if err := m.c.Get(t.id(w), got); err != nil || !same(got, w) {
					k.Fail("object", "%s: %s %s reads as %s (err %v) instead of %s", why, t.def.Name(), short(mk), short(got.String()), err, short(w.String()))
					return
				}
			}
			for _, f := range t.idx {
				for _, v := range t.pool[f.Name()] {
					want := 0
					for _, o := range model[t] {
						if fmt.Sprint(o.Get(f).Interface()) == fmt.Sprint(v) {
							want++
						}
					}
					got, err := listKeys(m.c, t, client.ListMatchFieldInterface(f.JSONName(), v))
					if err != nil && want == 0 {
						continue
					}
					if err != nil || len(got) != want {
						k.Fail("listing", "%s: listing %s by %s=%s answers %d objects (err %v) instead of %d", why, t.def.Name(), f.JSONName(), short(fmt.Sprintf("%q", fmt.Sprint(v))), len(got), err, want)
						return
					}
					for _, o := range got {
						if w := model[t][t.modelKey(o)]; w == nil || !same(w, o) {
							k.Fail("listing", "%s: listing %s by %s answers %s", why, t.def.Name(), f.JSONName(), short(o.String()))
							return
						}
					}
					k.Count("listings", 1)
				}
			}
		}
	}
	for i := 0; i < k.N(40, 70) && !k.Failed(); i++ {
		n++
		tx := &probeTx{id: fmt.Sprintf("tx%d", n), users: user.NewUsersFromString("alice")}
		dec.txs[tx.id] = tx
		st := model.clone()
		// after authentication
		m.auth[tx.id] = gen(st, 3)
		authFails := chance(r, .12)
		if authFails {
			m.auth[tx.id] = append(m.auth[tx.id], progOp{fail: pick(r, "error", "panic")})
		}
		authSt := st.clone()
		nm := 1 + r.Intn(3)
		failAt := -1
		if chance(r, .55) {
			failAt = r.Intn(nm)
		}
		var desc []string
		how := ""
		for j := 0; j < nm; j++ {
			tag := fmt.Sprintf("%s.%d", tx.id, j)
			ops := gen(st, 6)
			if chance(r, .2) {
				inner := tag + "+"
				m.progs[inner] = gen(st, 4)
				if failAt == j && chance(r, .4) {
					how = pick(r, "error", "panic")
					m.progs[inner] = append(m.progs[inner], progOp{fail: how})
				}
				ops = append(ops, progOp{next: inner})
				ops = append(ops, gen(st, 2)...)
			}
			if failAt == j {
				how = pick(r, "error", "error", "panic")
				ops = append(ops, progOp{fail: how})
			}
			m.progs[tag] = ops
			desc = append(desc, progText(ops))
			tx.msgs = append(tx.msgs, meta.StateTransition(progTransition(0, tag)))
		}
		if r.Intn(6) == 0 {
			app.EndBlock(types.RequestEndBlock{})
			app.Commit()
			app.BeginBlock(types.RequestBeginBlock{})
		}
		what := fmt.Sprintf("transaction %d of %d failing at %d (%s), after authentication [%s], messages %s", i, nm, failAt, how, progText(m.auth[tx.id]), strings.Join(desc, "; "))
		before := dumpDBs(dbs)
		m.bad, m.wrote = "", 0
		var d types.ResponseDeliverTx
		if p, stk := safe(func() { d = app.DeliverTx(types.RequestDeliverTx{Tx: []byte(tx.id)}) }); p != nil {
			k.FailData("panic", stk, "DeliverTx panics: %v: %s", p, what)
			return
		}
		k.Eval(what)
		if m.bad != "" {
			k.Fail("operation", "%s; in %s", m.bad, what)
			return
		}
		ok := !authFails && failAt < 0
		if (d.Code == 0) != ok {
			k.Fail("code", "code %d log %q for %s", d.Code, short(d.Log), what)
			return
		}
		switch {
		case ok:
			model = st
			keep(m.auth[tx.id])
			for j := 0; j < nm; j++ {
				keep(m.progs[fmt.Sprintf("%s.%d", tx.id, j)])
			}
			k.Count("programs_ok", 1)
		case authFails:
			k.Count("auth_failures", 1)
			if x := diffDump(before, dumpDBs(dbs)); len(x) > 0 {
				k.Fail("auth-residue", "a transaction refused after authentication left %q: %s", x, what)
				return
			}
		default:
			fails++
			model = authSt
			keep(m.auth[tx.id])
			k.Count("programs_failed", 1)
			k.Count("operations_undone", int64(m.wrote-len(m.auth[tx.id])))
			if how == "panic" {
				k.Count("panics", 1)
			}
			if len(m.auth[tx.id]) == 0 {
				if x := diffDump(before, dumpDBs(dbs)); len(x) > 0 {
					k.Fail("residue", "a failing transaction left %q: %s", x, what)
					return
				}
			}
		}
		if !ok || chance(r, .2) {
			check(what)
		}
		if chance(r, .02) {
			k.Sample(what)
		}
	}
	if k.Failed() {
		return
	}
	// the bytes are those of an application that never saw a failure
	dbs2, c2 := dbsOf(k, ts)
	defer closeDBs(dbs2)
	if c2 == nil {
		return
	}
	for _, op := range done {
		var err error
		switch op.op {
		case "create":
			err = c2.Create(op.o.copy())
		case "update":
			err = c2.Update(op.o.copy())
		default:
			err = c2.Delete(op.o.copy())
		}
		if err != nil {
			k.Fail("replay", "%s of %s fails on a store without the failures: %v", op.op, op.t.def.Name(), err)
			return
		}
	}
	want, got := dumpDBs(dbs2), dumpDBs(dbs)
	for x := range want {
		if !ownKey(x, ts) {
			delete(want, x)
		}
	}
	for x := range got {
		if !ownKey(x, ts) {
			delete(got, x)
		}
	}
	if x := diffDump(want, got); len(x) > 0 {
		k.Fail("final", "after %d failures the store differs from one which saw only the successful operations in %q", fails, x)
	}
}

// ownKey tells whether a dumped key belongs to the generated types.
func ownKey(key string, ts []*ormType) bool {
	for _, t := range ts {
		if strings.Contains(key, t.def.Name()) {
			return true
		}
	}
	return false
}

func dbsOf(k *Case, ts []*ormType) (dbs []*badger.DB, c module.Client) {
	m := &ormModule{types: ts}
	var err error
	dbs = captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		_, err = b.Build()
	})
	if err != nil {
		k.Fail("build", "cannot register valid objects: %v", err)
		return dbs, nil
	}
	return dbs, m.c
}

func progText(ops []progOp) string {
	var s []string
	for _, o := range ops {
		switch {
		case o.fail != "":
			s = append(s, o.fail)
		case o.next != "":
			s = append(s, "deliver "+o.next)
		default:
			s = append(s, fmt.Sprintf("%s %s %.40s", o.op, o.t.def.Name(), o.t.modelKey(o.o)))
		}
	}
	return strings.Join(s, ", ")
}
