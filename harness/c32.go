package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	rtpb "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/client"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/tendermint/tendermint/abci/types"
)

// C32: options of a module's client, classes of failures, response codes.

func c32(c *Ctx) {
	c.Rule("one client call, or one delivery or transaction which fails in a chosen stage with a chosen class of error; distinct by (operation, options, expected class)")
	c.Assume("reference: Go map per type; an authorizer which denies chosen verbs on chosen types; handlers which fail with a chosen class at a chosen stage, directly or in a nested delivery")
	c.Cases("client", c.N(1200, 6000), c32client)
	c.Cases("codes", c.N(1200, 6000), c32codes)
	for _, x := range []string{"ok", "not found", "already exists", "bad request", "unauthorized"} {
		c.Expect("client "+x, 300)
	}
	c.Expect("update or create of absent", 300)
	c.Expect("update or create of existing", 300)
	c.Expect("heighted", 300)
	for _, x := range []string{"not found", "already exists", "bad request", "unauthorized", "conditions", "other", "ok"} {
		c.Expect("tx "+x, 50)
	}
	c.Expect("nested", 300)
}

var errClasses = []struct {
	name string
	err  error
	code uint32
}{
	{"not found", rterr.ErrNotFound, 404}, {"already exists", rterr.ErrAlreadyExists, 409}, {"bad request", rterr.ErrBadRequest, 400},
	{"conditions", rterr.ErrConditionNotMet, 412}, {"unauthorized", rterr.ErrUnauthorized, 1}, {"other", nil, 1}, {"ok", nil, 0},
}

// classesOf names every class an error claims to be of.
func classesOf(err error) string {
	if err == nil {
		return "ok"
	}
	var l []string
	for _, c := range errClasses {
		if c.err != nil && rterr.Is(err, c.err) {
			l = append(l, c.name)
		}
	}
	if l == nil {
		return "other"
	}
	return strings.Join(l, " and ")
}

func codeOf(class string) uint32 {
	for _, c := range errClasses {
		if c.name == class {
			return c.code
		}
	}
	panic("harness: no class " + class)
}

type denyAuthorizer struct {
	deny func(verb rtpb.Verb, name string, o meta.APIObject) bool
}

func (d *denyAuthorizer) Authorize(a authorization.Attributes) (authorization.Decision, error) {
	if d.deny(a.Verb, meta.Name(a.Resource), a.Resource) {
		return authorization.DecisionDeny, fmt.Errorf("denied on demand")
	}
	return authorization.DecisionAllow, nil
}

type c32module struct {
	name  string
	setup func(b *module.DescriptorBuilder, c module.Client)
	c     module.Client
}

func (m *c32module) Initialize(c module.Client) module.Descriptor {
	m.c = c
	b := module.NewDescriptorBuilder().Named(m.name)
	m.setup(b, c)
	return b.Build()
}

func c32client(k *Case) {
	r := k.R
	ts := newORMTypes(r, 4+r.Intn(3), false)
	unreg := ts[len(ts)-1]
	ts = ts[:len(ts)-1]
	denied := map[string]bool{}
	for _, t := range ts {
		for _, v := range []rtpb.Verb{rtpb.Verb_Create, rtpb.Verb_Update, rtpb.Verb_Delete} {
			if chance(r, .12) {
				denied[fmt.Sprint(v, t.def.Name())] = true
			}
		}
	}
	authz := &denyAuthorizer{func(v rtpb.Verb, name string, _ meta.APIObject) bool { return denied[fmt.Sprint(v, name)] }}
	m := &c32module{name: "zzc", setup: func(b *module.DescriptorBuilder, _ module.Client) {
		for _, t := range ts {
			b.OwnsStateObject(t.New(), t.sdef)
		}
		b.IsAuthorizer(authz)
	}}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.AddModule(m)
		run, err = b.Build()
	})
	defer closeDBs(dbs)
	if err != nil {
		panic(startFailure(err.Error()))
	}
	dump := func() map[string]string { return dumpDBs(dbs) }
	limited := chance(r, .7)
	if limited {
		run.EnableAuthorization()
	}
	no := func(v rtpb.Verb, t *ormType) bool { return limited && denied[fmt.Sprint(v, t.def.Name())] }
	expect := func(what, want string, err error, before map[string]string) {
		k.Count("client "+want, 1)
		k.Eval(what + want)
		if got := classesOf(err); got != want {
			k.Fail("class", "%s: %s instead of %s (%v)", short(what), got, want, err)
		}
		if want != "ok" && before != nil {
			if d := diffDump(before, dump()); len(d) > 0 {
				k.Fail("effect", "%s is refused and changed %q", short(what), d)
			}
		}
	}
	for i := 0; i < k.N(100, 200) && !k.Failed(); i++ {
		t := ts[r.Intn(len(ts))]
		key := t.keys[r.Intn(min(len(t.keys), 7))]
		o := t.withKey(key)
		t.randomize(r, o)
		mk := t.modelKey(o)
		had := t.model[mk] != nil
		empty := t.emptyKey(o)
		what := fmt.Sprintf("%s %s %s", t.def.Name(), mk, map[bool]string{true: "existing", false: "absent"}[had])
		switch op := r.Intn(12); {
		case op < 3: // create
			want := "ok"
			switch {
			case no(rtpb.Verb_Create, t):
				want = "unauthorized"
			case empty:
				want = "bad request"
			case had:
				want = "already exists"
			}
			before := dump()
			expect("create "+what, want, m.c.Create(o.copy()), before)
			if want == "ok" {
				t.model[mk] = o
			}
		case op < 7: // update, with or without the option
			orCreate := op < 6
			want := "ok"
			switch {
			case no(rtpb.Verb_Update, t):
				want = "unauthorized"
			case empty:
				want = "bad request"
			case !had && !orCreate:
				want = "not found"
			case !had && no(rtpb.Verb_Create, t):
				want = "unauthorized"
			}
			before := dump()
			var err error
			if orCreate {
				err = m.c.Update(o.copy(), client.UpdateCreateIfNotExists())
				if want == "ok" && had {
					k.Count("update or create of existing", 1)
				} else if want == "ok" {
					k.Count("update or create of absent", 1)
				}
			} else {
				err = m.c.Update(o.copy())
			}
			expect(fmt.Sprintf("update (or create: %v) %s", orCreate, what), want, err, before)
			if want == "ok" {
				t.model[mk] = o
			}
		case op < 8: // delete
			want := "ok"
			switch {
			case no(rtpb.Verb_Delete, t):
				want = "unauthorized"
			case empty:
				want = "bad request"
			case !had:
				want = "not found"
			}
			before := dump()
			expect("delete "+what, want, m.c.Delete(o.copy()), before)
			if want == "ok" {
				delete(t.model, mk)
			}
		case op < 9 && chance(r, .4): // unregistered types
			u := unreg.withKey(unreg.keys[r.Intn(len(unreg.keys))])
			if unreg.emptyKey(u) {
				continue
			}
			before := dump()
			expect("create unregistered", "bad request", m.c.Create(u.copy()), before)
			expect("update unregistered", "bad request", m.c.Update(u.copy(), client.UpdateCreateIfNotExists()), before)
			expect("delete unregistered", "bad request", m.c.Delete(u.copy()), before)
			expect("get unregistered", "bad request", m.c.Get(unreg.id(u), unreg.New()), before)
			_, err := m.c.List(unreg.New())
			expect("list unregistered", "bad request", err, before)
			_, err = m.c.List(t.New(), client.ListMatchFieldInterface("noSuchField", 1))
			expect("list by no field", "bad request", err, before)
			continue
		}
		// what is there now
		want := t.model[mk]
		g := t.New()
		h := uint64(0)
		var opts []client.GetOption
		if chance(r, .3) {
			h = []uint64{0, 1, 2, 1 << 40, 1<<64 - 1}[r.Intn(5)]
			opts = append(opts, client.GetAtHeight(h))
		}
		err := m.c.Get(t.id(o), g, opts...)
		switch {
		case h != 0:
			k.Count("heighted", 1)
			if err == nil {
				k.Fail("height", "get of %s at height %d answers %s", short(what), h, short(g.String()))
			}
			if _, err := m.c.List(t.New(), client.ListAtHeight(h)); err == nil {
				k.Fail("height", "listing %s at height %d succeeds", t.def.Name(), h)
			}
		case empty:
			if err == nil {
				k.Fail("class", "get with an empty identifier succeeds")
			}
		case want == nil:
			expect("get "+what, "not found", err, nil)
		default:
			expect("get "+what, "ok", err, nil)
			if err == nil && !same(want, g) {
				k.Fail("value", "%s reads %s after %s was written", short(what), short(g.String()), short(want.String()))
			}
		}
	}
}

// ---- failing handlers ----

// failure is an error of the class, wrapped.
func failure(r *rand.Rand, class string) error {
	var err error
	for _, c := range errClasses {
		if c.name == class {
			err = c.err
		}
	}
	if err == nil {
		err = fmt.Errorf("fails on demand")
	}
	for n := r.Intn(4); n > 0; n-- {
		err = fmt.Errorf("%s: %w", pick(r, "while", "runtime: not found", "x"), err)
	}
	return err
}

type c32app struct {
	r    *rand.Rand
	mods []*c32module
	next error    // what the decoder answers
	tx   *probeTx // or this
	seen []string // who executed
	trs  []*Dyn   // the transitions
	of   map[string]*c32module
}

// failAt reads "<stage:class>" marks.
func failAt(s, stage string) string {
	i := strings.Index(s, "<"+stage+":")
	if i < 0 {
		return ""
	}
	s = s[i+len(stage)+2:]
	return s[:strings.Index(s, ">")]
}

func (a *c32app) fail(s, stage string) error {
	if x := failAt(s, stage); x != "" {
		return failure(a.r, x)
	}
	return nil
}

func (a *c32app) DecodeTx([]byte) (authentication.Tx, error) {
	if a.next != nil {
		return nil, a.next
	}
	return a.tx, nil
}

func (a *c32app) Validate(authentication.Tx) error { return a.fail(a.tx.fail, "txadm") }
func (a *c32app) Exec(authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	return authentication.PostAuthenticationResponse{}, a.fail(a.tx.fail, "txpost")
}

func (a *c32app) tr(i int) *Dyn { return newDyn(a.trs[i].Descriptor(), a.trs[i].Def) }

func (a *c32app) named(name string) *Dyn {
	for i, t := range a.trs {
		if t.Def.Name() == name {
			return a.tr(i)
		}
	}
	j := strings.LastIndex(name, ".")
	return newDyn(probeFile.Messages().ByName("T"), trDef(name[:j], name[j+1:]))
}

// expect is the class delivering t fails with, and who executes before.
func (a *c32app) expect(t *Dyn, as string, ran *[]string) string {
	if a.of[t.Def.Name()] == nil {
		return "other"
	}
	s := t.get("fail").(string)
	if failAt(s, "adm") != "" {
		return "bad request"
	}
	if failAt(s, "authz") != "" {
		return "unauthorized"
	}
	if x := failAt(s, "exec"); x != "" {
		return x
	}
	*ran = append(*ran, t.Def.Name()+" as "+as)
	if n := t.get("next").(string); n != "" {
		x := a.named(n).set("fail", t.get("next_fail"))
		who := map[string]bool{a.of[t.Def.Name()].name: true}
		if imp := t.get("imp").(string); imp != "" {
			for _, u := range strings.Split(imp, "+") {
				who[u] = true
			}
		}
		var l []string
		for u := range who {
			l = append(l, u)
		}
		sortStrings(l)
		if c := a.expect(x, strings.Join(l, "+"), ran); c != "ok" {
			return c
		}
	}
	if x := failAt(s, "post"); x != "" {
		return x
	}
	return "ok"
}

func c32codes(k *Case) {
	r := k.R
	a := &c32app{r: r, of: map[string]*c32module{}}
	for i := 0; i < 2+r.Intn(2); i++ {
		i := i
		m := &c32module{name: fmt.Sprintf("m%d", i)}
		var mine []*Dyn
		for j := 0; j < 1+r.Intn(2); j++ {
			d := newDyn(probeFile.Messages().ByName("T"), trDef(fmt.Sprintf("zc%d", i), fmt.Sprintf("Msg%d", j)))
			mine = append(mine, d)
			a.of[d.Def.Name()] = m
		}
		a.trs = append(a.trs, mine...)
		m.setup = func(b *module.DescriptorBuilder, c module.Client) {
			for _, t := range mine {
				b.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(func(q statetransition.ExecutionRequest) (res statetransition.ExecutionResponse, err error) {
					d := q.Transition.(*Dyn)
					if err := a.fail(d.get("fail").(string), "exec"); err != nil {
						return res, err
					}
					a.seen = append(a.seen, d.Def.Name()+" as "+usersStr(q.Users))
					if n := d.get("next").(string); n != "" {
						err = c.Deliver(a.named(n).set("fail", d.get("next_fail")), impersonating(d.get("imp").(string))...)
						if err != nil && chance(r, .5) {
							err = fmt.Errorf("delivering: %w", err)
						}
					}
					return res, err
				}))
				b.HandlesAdmission(t, statetransition.AdmissionHandlerFunc(func(q statetransition.AdmissionRequest) error {
					return a.fail(q.Transition.(*Dyn).get("fail").(string), "adm")
				}))
				b.WithPostStateTransitionHandler(t, statetransition.PostExecutionHandlerFunc(func(q statetransition.PostExecutionRequest) error {
					return a.fail(q.Transition.(*Dyn).get("fail").(string), "post")
				}))
			}
			if i == 0 {
				b.WithAuthAdmissionHandler(a).WithPostAuthenticationHandler(a)
				b.IsAuthorizer(&denyAuthorizer{func(v rtpb.Verb, _ string, o meta.APIObject) bool {
					d, ok := o.(*Dyn)
					return ok && v == rtpb.Verb_Deliver && failAt(d.get("fail").(string), "authz") != ""
				}})
			}
		}
		a.mods = append(a.mods, m)
	}
	var run *rt.Runtime
	var err error
	dbs := captureDBs(func() {
		b := rt.NewBuilder()
		b.SetDecoder(a)
		for _, m := range a.mods {
			b.AddModule(m)
		}
		run, err = b.Build()
	})
	defer closeDBs(dbs)
	if err != nil {
		panic(startFailure(err.Error()))
	}
	app := rt.NewABCIApplication(run)
	app.InitChain(types.RequestInitChain{ChainId: "x"})
	app.BeginBlock(types.RequestBeginBlock{})
	class := func() string { return errClasses[r.Intn(6)].name }
	mark := func(stages ...string) (s string) {
		if !chance(r, .5) {
			return ""
		}
		return "<" + stages[r.Intn(len(stages))] + ":" + class() + ">"
	}
	mk := func() *Dyn {
		t := a.tr(r.Intn(len(a.trs)))
		if chance(r, .04) {
			t = a.named("zc0.Unknown")
		}
		t.set("fail", mark("adm", "authz", "exec", "post", "exec"))
		if chance(r, .4) {
			t.set("next", a.trs[r.Intn(len(a.trs))].Def.Name()).set("next_fail", mark("adm", "authz", "exec", "post", "exec"))
			if chance(r, .5) {
				t.set("imp", pick(r, "u", "u+v", "m0", "m1+u", "u+u", "a+b+c+d+e+f+g+u"))
			}
			k.Count("nested", 1)
		}
		return t
	}
	for i := 0; i < 40 && !k.Failed(); i++ {
		a.seen = nil
		var ran []string
		if chance(r, .4) { // a delivery
			t := mk()
			want := a.expect(t, "u", &ran)
			err := run.Deliver(user.NewUsersFromString("u"), t)
			k.Eval(fmt.Sprint("deliver", t, want))
			if got := classesOf(err); got != want {
				k.Fail("class", "delivering %v fails with %s (%v) instead of %s", t, got, err, want)
			}
			if !eqStrings(a.seen, ran) {
				k.Fail("users", "delivering %v executed %v instead of %v", t, a.seen, ran)
			}
			continue
		}
		a.next = nil
		a.tx = &probeTx{id: "x", users: user.NewUsersFromString("u"), fail: ""}
		if chance(r, .3) {
			a.tx.fail = mark("txadm", "txpost")
		}
		for n := r.Intn(4); n > 0; n-- {
			a.tx.msgs = append(a.tx.msgs, mk())
		}
		want, check := "ok", "ok"
		switch {
		case chance(r, .1):
			want = class()
			check = want
			a.next = failure(r, want)
		case failAt(a.tx.fail, "txadm") != "":
			want, check = "bad request", "bad request"
		default:
			if failAt(a.tx.fail, "txpost") != "" {
				want = "bad request"
			}
			for _, x := range a.tx.msgs {
				d := x.(*Dyn)
				if want == "ok" {
					want = a.expect(d, "u", &ran)
				}
				if check == "ok" {
					if a.of[d.Def.Name()] == nil {
						check = "other"
					} else if failAt(d.get("fail").(string), "adm") != "" {
						check = "bad request"
					}
				}
			}
		}
		ck := app.CheckTx(types.RequestCheckTx{Tx: []byte("x")})
		k.Eval(fmt.Sprint("tx", a.tx, want, check))
		if ck.Code != codeOf(check) {
			k.Fail("code", "CheckTx of %v answers code %d (%s) to a failure of class %s", a.tx, ck.Code, ck.Log, check)
		}
		if len(a.seen) > 0 {
			k.Fail("users", "CheckTx executed %v", a.seen)
		}
		d := app.DeliverTx(types.RequestDeliverTx{Tx: []byte("x")})
		if d.Code != codeOf(want) {
			k.Fail("code", "DeliverTx of %v answers code %d (%s) to a failure of class %s", a.tx, d.Code, d.Log, want)
		}
		if !eqStrings(a.seen, ran) {
			k.Fail("users", "DeliverTx of %v executed %v instead of %v", a.tx, a.seen, ran)
		}
		k.Count("tx "+want, 1)
	}
}
