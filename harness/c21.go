package main

import (
	"fmt"
	"strings"

	abcipb "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rtpb "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	rt "github.com/fdymylja/tmos/runtime"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/kv"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/indexes"
	"github.com/fdymylja/tmos/runtime/orm/objects"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
)

func c21(c *Ctx) {
	c.Rule("a case is one application composed of generated modules, with or without one conflicting declaration; distinct by its declarations")
	c.Assume("two modules of the same name are not a declared conflict", "a failing service makes the start of the chain fail")
	c.Cases("valid", c.N(600, 2500), c21valid)
	c.Cases("import", c.N(400, 2000), c21import)
	c.Cases("group", c.N(400, 2000), c21group)
	c.Cases("conflict", c.N(2000, 9000), c21conflict)
	c.Expect("deliveries", 300)
	c.Expect("failing genesis", 3)
	c.Expect("imports", 50)
	c.Expect("groups", 50)
	c.Expect("objects stored", 300)
	c.Expect("services", 100)
	c.Expect("refused writes", 300)
	for _, x := range conflicts {
		c.Expect("conflict "+x.name, 3)
	}
}

// composeApp is newProbeApp with objects and services.
func composeApp(k *Case) *probeApp {
	r := k.R
	a := newProbeApp(r)
	for _, t := range newORMTypes(r, r.Intn(7), false) {
		m := a.mods[r.Intn(len(a.mods))]
		m.types = append(m.types, t)
	}
	n := 0
	for i := r.Intn(5); i > 0; i-- {
		n++
		m := a.mods[r.Intn(len(a.mods))]
		m.services = append(m.services, &probeService{app: a, name: fmt.Sprintf("s%d", n)})
	}
	if chance(r, .3) {
		a.mods[r.Intn(len(a.mods))].authz = true
	}
	return a
}

func (a *probeApp) describe() string {
	var b strings.Builder
	for _, m := range a.mods {
		fmt.Fprintf(&b, "%s: owns %v needs %v genesis=%v authorizer=%v services=%d\n", m.name, m.owns, m.needs, m.genesis, m.authz, len(m.services))
		for _, h := range m.handlers {
			fmt.Fprintf(&b, "  %s %s %s\n", h.stage, h.tr, h.id)
		}
		for _, t := range m.types {
			fmt.Fprintf(&b, "  object %s %v\n", meta.Name(t.New()), t.sdef)
		}
	}
	return b.String()
}

func (a *probeApp) build() (run *rt.Runtime, dump func() map[string]string, done func(), err error, pv interface{}) {
	dbs := captureDBs(func() {
		pv, _ = safe(func() {
			b := rt.NewBuilder()
			for _, m := range a.mods {
				b.AddModule(m)
			}
			run, err = b.Build()
		})
	})
	return run, func() map[string]string { return dumpDBs(dbs) }, func() { closeDBs(dbs) }, err, pv
}

func c21valid(k *Case) {
	r := k.R
	a := composeApp(k)
	k.Eval(a.describe())
	if k.Idx < 2 {
		k.Sample(map[string]string{"modules": a.describe()})
	}
	run, dump, done, err, pv := a.build()
	defer done()
	if err != nil || pv != nil {
		k.Fail("build", "a valid application does not build: %v %v\n%s", err, pv, a.describe())
		return
	}
	var failing *probeService
	for _, m := range a.mods {
		for _, s := range m.services {
			if chance(r, .05) && failing == nil {
				failing, s.fail = s, true
			}
		}
	}
	// the start of the chain
	if len(a.log.ev) != 0 {
		k.Fail("early", "building ran handlers or services: %v", a.log.take())
	}
	var want []string
	for _, m := range a.mods {
		if m.genesis {
			want = append(want, "genesis "+m.name)
		}
	}
	var svcs []*probeService
	stop := false
	badGenesis := false
	if chance(r, .1) { // the part of one module fails
		m := a.mods[r.Intn(len(a.mods))]
		if m.genesis {
			m.genesisFails, badGenesis, stop = true, true, true
			for i, w := range want {
				if w == "genesis "+m.name {
					want = want[:i+1]
				}
			}
		}
	}
	for _, m := range a.mods {
		for _, s := range m.services {
			if stop {
				continue
			}
			want = append(want, "setclient "+s.name, "start "+s.name)
			svcs = append(svcs, s)
			stop = s == failing
		}
	}
	viaABCI := chance(r, .5) && (failing == nil || badGenesis)
	if viaABCI {
		pv, _ = safe(func() { rt.NewABCIApplication(run).InitChain(types.RequestInitChain{ChainId: "x"}) })
	} else {
		pv, _ = safe(func() { err = run.InitGenesis() })
	}
	got := a.log.take()
	// the authorizer and other events are not of interest here
	if !eqStrings(got, want) {
		k.Fail("start", "starting the chain ran\n%s\ninstead of\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	if badGenesis {
		if err == nil && pv == nil {
			k.Fail("start", "a failing genesis is not reported")
		}
		k.Count("failing genesis", 1)
		return
	}
	if failing != nil {
		if err == nil && pv == nil {
			k.Fail("start", "a failing service is not reported")
		}
		k.Count("failing services", 1)
		return
	}
	if err != nil || pv != nil {
		k.Fail("start", "the chain does not start: %v %v", err, pv)
		return
	}
	// a second start changes nothing
	if chance(r, .3) {
		before := dump()
		pv, _ := safe(func() { err = run.InitGenesis() })
		if pv == nil && err == nil || len(a.log.take()) != 0 || len(diffDump(before, dump())) != 0 {
			k.Fail("second-start", "a second genesis: error %v, effects %v", err, diffDump(before, dump()))
		}
	}
	authz := viaABCI && func() bool {
		for _, m := range a.mods {
			if m.authz {
				return true
			}
		}
		return false
	}()
	// descriptors
	md := new(rtpb.ModuleDescriptors)
	if err := run.Get(meta.SingletonID, md); err != nil {
		k.Fail("descriptors", "module descriptors: %v", err)
		return
	}
	var wantD, gotD []string
	for _, m := range a.mods {
		var o, t []string
		for _, x := range m.types {
			o = append(o, meta.Name(x.New()))
		}
		seen := map[string]bool{}
		for _, h := range m.handlers {
			if h.stage == "exec" && !seen[h.tr] {
				t = append(t, h.tr)
				seen[h.tr] = true
			}
		}
		wantD = append(wantD, fmt.Sprintf("%s %v %v %v", m.name, o, t, m.needs))
	}
	for _, m := range md.Modules {
		if !strings.HasPrefix(m.Name, "probe") {
			continue
		}
		var o, t, n []string
		for _, x := range m.StateObjects {
			o = append(o, x.ApiDefinition.Group+"."+x.ApiDefinition.Kind)
		}
		for _, x := range m.StateTransitions {
			t = append(t, x.ApiDefinition.Group+"."+x.ApiDefinition.Kind)
		}
		for _, x := range m.RequiredResources {
			n = append(n, x.Resource.Group+"."+x.Resource.Kind)
		}
		gotD = append(gotD, fmt.Sprintf("%s %v %v %v", m.Name, o, t, n))
	}
	if !eqStrings(gotD, wantD) {
		k.Fail("descriptors", "recorded modules\n%s\ninstead of\n%s", strings.Join(gotD, "\n"), strings.Join(wantD, "\n"))
	}
	// every transition is executable and reaches its own handlers only
	a.log.take()
	n := 0
	for _, tr := range a.trNames() {
		n++
		t := a.transition(tr).set("tag", fmt.Sprint(n))
		var want []string
		ok := a.expect(&want, t, "someone", authz)
		pv, _ := safe(func() { err = run.Deliver(user.NewUsersFromString("someone"), t) })
		if got := a.log.take(); pv != nil || !ok || err != nil || !eqStrings(got, want) {
			k.Fail("executable", "delivering %s (%v %v) ran\n%s\ninstead of\n%s", tr, err, pv, strings.Join(got, "\n"), strings.Join(want, "\n"))
		}
		k.Count("deliveries", 1)
	}
	// every object can be stored by its module and read by every service
	type stored struct {
		t *ormType
		d *Dyn
	}
	var all []stored
	for _, m := range a.mods {
		for _, t := range m.types {
			ks := t.keys
			for i := 0; i < len(ks) && i < 3; i++ {
				d := t.withKey(ks[i])
				if t.emptyKey(d) {
					continue
				}
				t.randomize(r, d)
				if err := m.c.Create(d.copy()); err != nil {
					k.Fail("storable", "%s cannot store %s: %v", m.name, meta.Name(d), err)
					continue
				}
				all = append(all, stored{t, d})
				k.Count("objects stored", 1)
			}
		}
	}
	before := dump()
	for _, s := range svcs {
		k.Count("services", 1)
		if s.starts != 1 || s.stops != 0 || s.c == nil {
			k.Fail("service", "service %s started %d times, stopped %d times, has client: %v", s.name, s.starts, s.stops, s.c != nil)
			continue
		}
		for _, x := range all {
			g := x.t.New()
			if err := s.c.Get(x.t.id(x.d), g); err != nil || !same(g, x.d) {
				k.Fail("service-read", "service %s reads %s as %v, error %v", s.name, meta.Name(x.d), g, err)
			}
		}
		for _, x := range all {
			for i, err := range []error{s.c.Create(x.d.copy()), s.c.Update(x.d.copy()), s.c.Delete(x.d.copy())} {
				if err == nil {
					k.Fail("service-write", "service %s can %s %s", s.name, []string{"create", "update", "delete"}[i], meta.Name(x.d))
				}
				k.Count("refused writes", 1)
			}
		}
		for _, tr := range a.trNames() {
			if err := s.c.Deliver(a.transition(tr)); err == nil {
				k.Fail("service-write", "service %s can deliver %s", s.name, tr)
			}
		}
		if ev := a.log.take(); len(ev) != 0 {
			k.Fail("service-write", "the service's delivery ran %v", ev)
		}
	}
	if d := diffDump(before, dump()); len(d) != 0 {
		k.Fail("service-write", "services changed state: %v", d)
	}
}

type conflict struct {
	name  string
	apply func(k *Case, a *probeApp) bool // false if not possible in this application
}

func nopExec(statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
	return
}

func someMod(k *Case, a *probeApp) *probeModule { return a.mods[k.R.Intn(len(a.mods))] }

// declare adds a declaration to some module.
func declare(k *Case, a *probeApp, f func(b *module.DescriptorBuilder)) {
	m := someMod(k, a)
	m.mutate = f
}

// unknownTr is a transition no module handles, often similar to one.
func unknownTr(k *Case, a *probeApp) *Dyn {
	ts := a.trNames()
	t := ts[k.R.Intn(len(ts))]
	i := strings.LastIndex(t, ".")
	n := pick(k.R, t+"1", t+"x", "x"+t, t[:i]+".v9"+t[i:], "pg.Unknown", strings.ToUpper(t), t[:len(t)-1], strings.ToLower(t))
	for _, x := range append(ts, "") {
		if x == n || strings.HasSuffix(n, ".") {
			n = "pg.Unknown"
		}
	}
	return a.transition(n)
}

var conflicts = []conflict{
	{"empty name", func(k *Case, a *probeApp) bool { someMod(k, a).name = ""; return true }},
	{"transition twice", func(k *Case, a *probeApp) bool {
		ts := a.trNames()
		t := a.transition(ts[k.R.Intn(len(ts))])
		declare(k, a, func(b *module.DescriptorBuilder) {
			b.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(nopExec))
		})
		return true
	}},
	{"core transition", func(k *Case, a *probeApp) bool {
		var t meta.StateTransition = []meta.StateTransition{&abcipb.MsgSetInitChain{}, &abcipb.MsgSetBeginBlockState{}, &rtpb.CreateModuleDescriptors{}}[k.R.Intn(3)]
		declare(k, a, func(b *module.DescriptorBuilder) {
			b.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(nopExec))
		})
		return true
	}},
	{"object twice", func(k *Case, a *probeApp) bool {
		var ts []*ormType
		for _, m := range a.mods {
			ts = append(ts, m.types...)
		}
		if len(ts) == 0 {
			return false
		}
		t := ts[k.R.Intn(len(ts))]
		declare(k, a, func(b *module.DescriptorBuilder) { b.OwnsStateObject(t.New(), t.sdef) })
		return true
	}},
	{"object name twice", func(k *Case, a *probeApp) bool { // of different types
		var ts []*ormType
		for _, m := range a.mods {
			ts = append(ts, m.types...)
		}
		if len(ts) == 0 {
			return false
		}
		t := ts[k.R.Intn(len(ts))]
		o := newDyn(probeFile.Messages().ByName("O"), proto.Clone(t.def).(*meta.APIDefinition))
		declare(k, a, func(b *module.DescriptorBuilder) { b.OwnsStateObject(o, &schemaDef{PrimaryKey: "id"}) })
		return true
	}},
	{"core object", func(k *Case, a *probeApp) bool {
		o := []meta.StateObject{&rtpb.ModuleDescriptors{}, &abcipb.Stage{}, &abcipb.CurrentBlock{}, &abcipb.InitChainInfo{}}[k.R.Intn(4)]
		declare(k, a, func(b *module.DescriptorBuilder) { b.OwnsStateObject(o, &schemaDef{Singleton: true}) })
		return true
	}},
	{"admission of unknown", func(k *Case, a *probeApp) bool {
		t := unknownTr(k, a)
		declare(k, a, func(b *module.DescriptorBuilder) {
			b.HandlesAdmission(t, statetransition.AdmissionHandlerFunc(func(statetransition.AdmissionRequest) error { return nil }))
		})
		return true
	}},
	{"post of unknown", func(k *Case, a *probeApp) bool {
		t := unknownTr(k, a)
		declare(k, a, func(b *module.DescriptorBuilder) {
			b.WithPostStateTransitionHandler(t, statetransition.PostExecutionHandlerFunc(func(statetransition.PostExecutionRequest) error { return nil }))
		})
		return true
	}},
	{"pre of unknown", func(k *Case, a *probeApp) bool {
		m := someMod(k, a)
		t := unknownTr(k, a)
		m.handlers = append(m.handlers, probeHandler{"pre", meta.Name(t), "bad"})
		return true
	}},
	{"need of unknown", func(k *Case, a *probeApp) bool {
		m := someMod(k, a)
		m.needs = append(m.needs, meta.Name(unknownTr(k, a)))
		k.R.Shuffle(len(m.needs), func(i, j int) { m.needs[i], m.needs[j] = m.needs[j], m.needs[i] })
		return true
	}},
	{"two authorizers", func(k *Case, a *probeApp) bool {
		if len(a.mods) < 2 {
			return false
		}
		for _, m := range a.mods {
			m.authz = false
		}
		shared := &probeAuthorizer{a} // sometimes they bring the same one
		for _, i := range k.R.Perm(len(a.mods))[:2] {
			a.mods[i].authz = true
			if k.Idx%2 == 0 {
				a.mods[i].authzInst = shared
			}
		}
		return true
	}},
	{"invalid schema", func(k *Case, a *probeApp) bool {
		o := a.object("pg.Bad")
		d := []*schemaDef{{}, {PrimaryKey: "missing"}, {PrimaryKey: "id", SecondaryKeys: []string{"missing"}}, {PrimaryKey: "id", SecondaryKeys: []string{"val", "val"}},
			{Singleton: true, PrimaryKey: "id"}, {Singleton: true, SecondaryKeys: []string{"val"}}, {SecondaryKeys: []string{"val"}}, {PrimaryKey: "ID"}, {PrimaryKey: "id", SecondaryKeys: []string{""}}}[k.R.Intn(9)]
		declare(k, a, func(b *module.DescriptorBuilder) { b.OwnsStateObject(o, d) })
		return true
	}},
}

func c21conflict(k *Case) {
	a := composeApp(k)
	x := conflicts[k.R.Intn(len(conflicts))]
	if !x.apply(k, a) {
		return
	}
	k.Count("conflict "+x.name, 1)
	k.Eval(x.name + "\n" + a.describe())
	run, _, done, err, pv := a.build()
	defer done()
	if pv != nil {
		k.Fail("conflict-panic", "%s: building panics: %v\n%s", x.name, pv, a.describe())
	} else if err == nil {
		k.Fail("conflict", "%s: the application builds\n%s", x.name, a.describe())
	} else if run != nil {
		k.Fail("conflict", "%s: building returns a runtime together with the error %v", x.name, err)
	}
}

// c21import starts applications from an exported state: each module gets its
// own section, once and in order, and the first failure ends it.
func c21import(k *Case) {
	r := k.R
	a := composeApp(k)
	for _, m := range a.mods {
		m.genesis = chance(r, .7)
		m.genesisFails = chance(r, .08)
	}
	run, _, done, err, pv := a.build()
	defer done()
	if err != nil || pv != nil {
		k.Fail("build", "a valid application does not build: %v %v", err, pv)
		return
	}
	var parts []string
	state := map[string]string{}
	for _, m := range a.mods {
		switch {
		case chance(r, .2): // not in the state
		case chance(r, .2):
			state[m.name] = "null"
		default:
			state[m.name] = fmt.Sprintf(`{"of": %q, "n": [%d, 1e3, "\u00e9"]}`, m.name, r.Intn(100))
		}
	}
	for _, x := range []string{"stranger", a.mods[0].name + "x", ""} {
		if chance(r, .3) {
			state[x] = `"nobody's"`
		}
	}
	for n, v := range state {
		parts = append(parts, fmt.Sprintf("%q: %s", n, v))
	}
	doc := "{" + strings.Join(parts, ",") + "}"
	var want []string
	ok := true
	switch {
	case chance(r, .1):
		doc, ok = pick(r, "{", "[]", "x", doc+"}", "7"), false
	default:
		for _, m := range a.mods {
			if m.genesis && ok {
				want = append(want, fmt.Sprintf("import %s %q", m.name, state[m.name]))
				ok = !m.genesisFails
			}
		}
	}
	a.log.take()
	pv, _ = safe(func() { err = run.Import([]byte(doc)) })
	var got []string
	for _, e := range a.log.take() { // services may be started by it or not
		if strings.HasPrefix(e, "import ") || strings.HasPrefix(e, "genesis ") {
			got = append(got, e)
		}
	}
	k.Eval(doc + strings.Join(want, ";"))
	k.Count("imports", 1)
	if pv != nil || (err == nil) != ok || !eqStrings(got, want) {
		k.Fail("import", "importing %s (%v, %v) ran\n%s\ninstead of\n%s", doc, err, pv, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
}

// c21group stops a group of services of which some do not stop.
func c21group(k *Case) {
	r := k.R
	a := newProbeApp(r)
	g := rt.NewServiceOrchestrator()
	var all []*probeService
	fails, n := 0, 0
	for i := 1 + r.Intn(4); i > 0; i-- {
		var l []module.ExtensionService
		for j := r.Intn(4); j > 0; j-- {
			n++
			s := &probeService{app: a, name: fmt.Sprintf("s%d", n), failStop: chance(r, .25)}
			if s.failStop {
				fails++
			}
			l, all = append(l, s), append(all, s)
		}
		g.AddServices(fmt.Sprintf("m%d", i), l...)
	}
	var st orm.Store
	dbs := captureDBs(func() { st = orm.NewStore(objects.NewStore(kv.NewBadger()), indexes.NewStore(kv.NewBadger())) })
	defer closeDBs(dbs)
	if err := g.Start(st); err != nil {
		k.Fail("start", "starting services which start fails: %v", err)
	}
	err := g.Stop()
	k.Count("groups", 1)
	k.Eval(fmt.Sprint(n, fails))
	if (err != nil) != (fails > 0) {
		k.Fail("stop", "stopping %d services of which %d fail to: %v", n, fails, err)
	}
	for _, s := range all {
		if s.starts != 1 || s.stops != 1 || s.c == nil {
			k.Fail("stop", "service %s of %d, %d of which fail to stop, was started %d times and stopped %d times", s.name, n, fails, s.starts, s.stops)
		}
	}
}
