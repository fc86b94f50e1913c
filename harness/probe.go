package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	coinpb "github.com/fdymylja/tmos/core/coin/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rtpb "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/authorization"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/statetransition"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Probe machinery: modules whose handlers write every invocation to an event
// log, so that a trace checker can compare it with the sequence the pipeline
// specification prescribes.

var probeFile = dynFile("zz/probe.proto", "zzprobe", []DynMsg{
	{Name: "T", External: &yes, Fields: []DynField{
		{Name: "tag", Type: tString}, {Name: "fail", Type: tString},
		{Name: "next", Type: tString},      // name of a transition the execution handler delivers
		{Name: "next_fail", Type: tString}, // and where that one fails
		{Name: "imp", Type: tString},       // whom it impersonates
	}},
	{Name: "O", Fields: []DynField{{Name: "id", Type: tString}, {Name: "val", Type: tString}}},
}, "core/rbac/xt/rbac_extension.proto")

type probeLog struct{ ev []string }

func (l *probeLog) add(format string, a ...interface{}) {
	l.ev = append(l.ev, fmt.Sprintf(format, a...))
}
func (l *probeLog) take() []string { e := l.ev; l.ev = nil; return e }

func usersStr(u user.Users) string {
	if u == nil {
		return "nil"
	}
	var l []string
	for _, x := range u.List() {
		l = append(l, x.GetName())
	}
	sortStrings(l)
	return strings.Join(l, "+")
}

type probeHandler struct {
	stage string // adm pre exec post txadm txpost
	tr    string // transition name
	id    string
}

// probeModule is one generated module.
type probeModule struct {
	chain        bool // its admission handlers of one transition are joined
	app          *probeApp
	name         string
	handlers     []probeHandler
	owns         []string // transitions with their execution handlers
	objs         []string
	needs        []string
	services     []*probeService
	genesis      bool
	genesisFails bool
	authz        bool
	authzInst    *probeAuthorizer // the instance to bring instead of one of its own
	types        []*ormType
	mutate       func(b *module.DescriptorBuilder) // declares something more
	c            module.Client
}

type probeService struct {
	app      *probeApp
	name     string
	starts   int
	stops    int
	c        module.Client
	fail     bool
	failStop bool
}

func (s *probeService) Name() string                  { return s.name }
func (s *probeService) SetClient(c moduleClientIface) { s.c = c; s.app.log.add("setclient %s", s.name) }
func (s *probeService) Start() error {
	s.starts++
	s.app.log.add("start %s", s.name)
	if s.fail {
		return fmt.Errorf("service fails on demand")
	}
	return nil
}
func (s *probeService) Stop() error {
	s.stops++
	s.app.log.add("stop %s", s.name)
	if s.failStop {
		return fmt.Errorf("service does not stop on demand")
	}
	return nil
}

type probeApp struct {
	log  probeLog
	mods []*probeModule
	defs map[string]*meta.APIDefinition // transitions and objects by name
}

func (a *probeApp) transition(name string) *Dyn {
	d := a.defs[name]
	if d == nil {
		i := strings.LastIndex(name, ".")
		d = trDef(name[:i], name[i+1:])
	}
	return newDyn(probeFile.Messages().ByName("T"), d)
}
func (a *probeApp) object(name string) *Dyn {
	i := strings.LastIndex(name, ".")
	return newDyn(probeFile.Messages().ByName("O"), objDef(name[:i], name[i+1:]))
}

func (a *probeApp) handler(h probeHandler, u user.Users, t meta.StateTransition) error {
	d, ok := t.(*Dyn)
	if !ok {
		a.log.add("%s %s %T", h.stage, h.id, t)
		return nil
	}
	a.log.add("%s %s %s#%s by %s", h.stage, h.id, meta.Name(d), d.get("tag"), usersStr(u))
	if strings.Contains(d.get("fail").(string), "<"+h.id+">") {
		return fmt.Errorf("handler %s fails on demand", h.id)
	}
	return nil
}

func (m *probeModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	a := m.app
	b := module.NewDescriptorBuilder().Named(m.name)
	for _, o := range m.objs {
		b.OwnsStateObject(a.object(o), &schemaDef{PrimaryKey: "id"})
	}
	for _, t := range m.types {
		b.OwnsStateObject(t.New(), t.sdef)
	}
	for _, n := range m.needs {
		b.NeedsStateTransition(a.transition(n))
	}
	var pre []probeHandler
	chains := map[string][]statetransition.AdmissionHandler{}
	var chained []string
	for _, h := range m.handlers {
		h := h
		switch h.stage {
		case "adm":
			f := statetransition.AdmissionHandlerFunc(func(r statetransition.AdmissionRequest) error {
				return a.handler(h, r.Users, r.Transition)
			})
			if !m.chain {
				b.HandlesAdmission(a.transition(h.tr), f)
				break
			}
			if chains[h.tr] == nil {
				chained = append(chained, h.tr)
			}
			chains[h.tr] = append(chains[h.tr], f)
		case "exec":
			b.HandlesStateTransition(a.transition(h.tr), statetransition.ExecutionHandlerFunc(func(r statetransition.ExecutionRequest) (statetransition.ExecutionResponse, error) {
				err := a.handler(h, r.Users, r.Transition)
				d := r.Transition.(*Dyn)
				if next := d.get("next").(string); err == nil && next != "" {
					n := a.transition(next).set("tag", d.get("tag").(string)+"'").set("fail", d.get("next_fail"))
					err = c.Deliver(n, impersonating(d.get("imp").(string))...)
				}
				return statetransition.ExecutionResponse{}, err
			}))
		case "post":
			b.WithPostStateTransitionHandler(a.transition(h.tr), statetransition.PostExecutionHandlerFunc(func(r statetransition.PostExecutionRequest) error {
				return a.handler(h, r.Users, r.Transition)
			}))
		case "pre":
			pre = append(pre, h)
		case "txadm":
			b.WithAuthAdmissionHandler(&txProbe{a, h})
		case "txpost":
			b.WithPostAuthenticationHandler(&txPostProbe{a, h})
		}
	}
	for _, s := range m.services {
		b.WithExtensionService(s)
	}
	if m.genesis {
		b.WithGenesis(&probeGenesis{m})
	}
	if m.authz {
		if m.authzInst == nil {
			m.authzInst = &probeAuthorizer{a}
		}
		b.IsAuthorizer(m.authzInst)
	}
	if m.mutate != nil {
		m.mutate(b)
	}
	for _, tr := range chained {
		b.HandlesAdmission(a.transition(tr), statetransition.NewAdmissionChain(chains[tr]...))
	}
	d := b.Build()
	for _, h := range pre {
		h := h
		addPreExec(&d, a.transition(h.tr), statetransition.PreExecutionHandlerFunc(func(r statetransition.PreExecutionRequest) error {
			return a.handler(h, r.Users, r.Transition)
		}))
	}
	return d
}

// addPreExec appends a pre-execution handler: the descriptor builder has no
// method for it, the field's element type is not exported but its fields are.
func addPreExec(d *module.Descriptor, t meta.StateTransition, h statetransition.PreExecutionHandler) {
	f := reflect.ValueOf(d).Elem().FieldByName("StateTransitionPreExecHandlers")
	e := reflect.New(f.Type().Elem()).Elem()
	e.FieldByName("StateTransition").Set(reflect.ValueOf(t))
	e.FieldByName("Handler").Set(reflect.ValueOf(h))
	f.Set(reflect.Append(f, e))
}

type probeGenesis struct{ m *probeModule }

func (g *probeGenesis) Default() error {
	g.m.app.log.add("genesis %s", g.m.name)
	if g.m.genesisFails {
		return fmt.Errorf("genesis fails on demand")
	}
	return nil
}
func (g *probeGenesis) Import(x jsonRaw) error {
	g.m.app.log.add("import %s %q", g.m.name, string(x))
	if g.m.genesisFails {
		return fmt.Errorf("genesis fails on demand")
	}
	return nil
}
func (g *probeGenesis) Export() (jsonRaw, error) { return nil, nil }

type probeAuthorizer struct{ a *probeApp }

func (p *probeAuthorizer) Authorize(at authorization.Attributes) (authorization.Decision, error) {
	d, ok := at.Resource.(*Dyn)
	if !ok || at.Verb != rtpb.Verb_Deliver || d.Def.ApiType != meta.APIType_StateTransition {
		return authorization.DecisionAllow, nil
	}
	p.a.log.add("authz - %s#%s by %s", meta.Name(d), d.get("tag"), usersStr(at.Users))
	f := d.get("fail").(string)
	if strings.Contains(f, "<authz-deny>") {
		return authorization.DecisionDeny, nil
	}
	if strings.Contains(f, "<authz>") {
		return authorization.DecisionDeny, fmt.Errorf("denied on demand")
	}
	if strings.Contains(f, "<authz-err>") { // an error never means allow
		return authorization.DecisionAllow, fmt.Errorf("fails on demand")
	}
	return authorization.DecisionAllow, nil
}

// ---- transactions ----

type probeTx struct {
	id    string
	msgs  []meta.StateTransition
	users user.Users
	fail  string
}

func (t *probeTx) StateTransitions() []meta.StateTransition { return t.msgs }
func (t *probeTx) Users() user.Users                        { return t.users }
func (t *probeTx) Fee() []*coinpb.Coin                      { return nil }
func (t *probeTx) Payer() string                            { return "" }
func (t *probeTx) Raw() interface{}                         { return t }
func (t *probeTx) RawBytes() []byte                         { return []byte(t.id) }

type probeDecoder struct {
	a   *probeApp
	txs map[string]*probeTx
}

func (d *probeDecoder) DecodeTx(b []byte) (authentication.Tx, error) {
	d.a.log.add("decode %s", b)
	t := d.txs[string(b)]
	if t == nil {
		return nil, fmt.Errorf("undecodable on demand")
	}
	return t, nil
}

type txProbe struct {
	a *probeApp
	h probeHandler
}

func (p *txProbe) Validate(tx authentication.Tx) error { return p.a.txHandler(p.h, tx) }

type txPostProbe struct {
	a *probeApp
	h probeHandler
}

func (p *txPostProbe) Exec(r authentication.PostAuthenticationRequest) (authentication.PostAuthenticationResponse, error) {
	return authentication.PostAuthenticationResponse{}, p.a.txHandler(p.h, r.Tx)
}

func (a *probeApp) txHandler(h probeHandler, tx authentication.Tx) error {
	t, ok := tx.(*probeTx)
	if !ok {
		a.log.add("%s %s got %T", h.stage, h.id, tx)
		return nil
	}
	a.log.add("%s %s tx %s", h.stage, h.id, t.id)
	if strings.Contains(t.fail, "<"+h.id+">") {
		return fmt.Errorf("handler %s fails on demand", h.id)
	}
	return nil
}

// ---- specification ----

func (a *probeApp) of(stage, tr string) (hs []probeHandler) {
	for _, m := range a.mods {
		for _, h := range m.handlers {
			if h.stage == stage && h.tr == tr {
				hs = append(hs, h)
			}
		}
	}
	return
}

func (a *probeApp) owner(tr string) *probeModule {
	for _, m := range a.mods {
		for _, t := range m.owns {
			if t == tr {
				return m
			}
		}
	}
	return nil
}

// expect appends the events delivering t on behalf of users must cause and
// tells whether it succeeds.
func (a *probeApp) expect(ev *[]string, t *Dyn, users string, authz bool) bool {
	name := meta.Name(t)
	owner := a.owner(name)
	if owner == nil {
		return false
	}
	fail := t.get("fail").(string)
	run := func(hs []probeHandler) bool {
		for _, h := range hs {
			*ev = append(*ev, fmt.Sprintf("%s %s %s#%s by %s", h.stage, h.id, name, t.get("tag"), users))
			if strings.Contains(fail, "<"+h.id+">") {
				return false
			}
		}
		return true
	}
	if !run(a.of("adm", name)) {
		return false
	}
	if authz {
		*ev = append(*ev, fmt.Sprintf("authz - %s#%s by %s", name, t.get("tag"), users))
		if strings.Contains(fail, "<authz") {
			return false
		}
	}
	if !run(a.of("pre", name)) || !run(a.of("exec", name)) {
		return false
	}
	if next := t.get("next").(string); next != "" {
		n := a.transition(next).set("tag", t.get("tag").(string)+"'").set("fail", t.get("next_fail"))
		set := map[string]bool{owner.name: true}
		if imp := t.get("imp").(string); imp != "" {
			for _, x := range strings.Split(imp, "+") {
				set[x] = true
			}
		}
		var l []string
		for x := range set {
			l = append(l, x)
		}
		sortStrings(l)
		if !a.expect(ev, n, strings.Join(l, "+"), authz) {
			return false
		}
	}
	return run(a.of("post", name))
}

// newProbeApp makes up an application of several modules.
func newProbeApp(r *rand.Rand) *probeApp {
	a := &probeApp{defs: map[string]*meta.APIDefinition{}}
	nm := 1 + r.Intn(4)
	var trs []string
	for i := 0; i < nm; i++ {
		m := &probeModule{app: a, name: fmt.Sprintf("probe%d", i)}
		g := pick(r, "pg", "pg.v1", "pg.v2")
		for j := r.Intn(4); j > 0; j-- {
			n := fmt.Sprintf("%s.T%d%s", g, i, strings.Repeat("1", j))
			m.owns = append(m.owns, n)
			a.defs[n] = trDef(g, n[len(g)+1:])
			trs = append(trs, n)
		}
		a.mods = append(a.mods, m)
	}
	if len(trs) == 0 {
		n := "pg.Only"
		a.defs[n] = trDef("pg", "Only")
		a.mods[0].owns = append(a.mods[0].owns, n)
		trs = append(trs, n)
	}
	id := 0
	for i, m := range a.mods {
		for _, t := range m.owns {
			id++
			m.handlers = append(m.handlers, probeHandler{"exec", t, fmt.Sprintf("m%d.%d", i, id)})
		}
		for j := r.Intn(9); j > 0; j-- {
			id++
			t := trs[r.Intn(len(trs))]
			m.handlers = append(m.handlers, probeHandler{pick(r, "adm", "adm", "pre", "post", "post"), t, fmt.Sprintf("m%d.%d", i, id)})
		}
		ntx := r.Intn(3)
		if chance(r, .12) { // many
			ntx += 5 + r.Intn(8)
		}
		for j := ntx; j > 0; j-- {
			id++
			m.handlers = append(m.handlers, probeHandler{pick(r, "txadm", "txpost"), "", fmt.Sprintf("m%d.%d", i, id)})
		}
		for j := r.Intn(3); j > 0; j-- {
			m.needs = append(m.needs, trs[r.Intn(len(trs))])
		}
		r.Shuffle(len(m.handlers), func(x, y int) { m.handlers[x], m.handlers[y] = m.handlers[y], m.handlers[x] })
		m.genesis = chance(r, .5)
	}
	return a
}

func (a *probeApp) trNames() (l []string) {
	for _, m := range a.mods {
		l = append(l, m.owns...)
	}
	return
}

var _ protoreflect.Message
