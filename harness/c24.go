package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	abcipb "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	rtpb "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// Transition types in several files. Types of one short name occur in a file
// and in the files it depends on, with opposite permissions.
var genFiles = func() map[string]protoreflect.FileDescriptor {
	tag := []DynField{{Name: "tag", Type: tString}}
	m := map[string]protoreflect.FileDescriptor{}
	add := func(path, pkg string, msgs []DynMsg, deps ...string) {
		fd := dynFile(path, pkg, msgs, append(deps, "core/rbac/xt/rbac_extension.proto")...)
		if err := protoregistry.GlobalFiles.RegisterFile(fd); err != nil {
			panic(err)
		}
		m[pkg] = fd
	}
	add("zz/gen_a.proto", "zzgena", []DynMsg{
		{Name: "P", Fields: tag, External: &yes}, {Name: "Q", Fields: tag, External: &no}, {Name: "N", Fields: tag},
		{Name: "OnlyA", Fields: tag, External: &yes},
		{Name: "Obj", Fields: []DynField{{Name: "id", Type: tString}}},
	})
	add("zz/gen_b.proto", "zzgenb", []DynMsg{
		{Name: "Q", Fields: tag, External: &yes}, {Name: "P", Fields: tag, External: &no}, {Name: "N", Fields: tag, External: &yes},
		{Name: "OnlyB", Fields: tag, External: &no},
	}, "zz/gen_a.proto")
	add("zz/gen_c.proto", "zzgenc", []DynMsg{
		{Name: "P", Fields: tag, External: &yes}, {Name: "MsgSendCoins", Fields: tag, External: &no}, {Name: "MsgSetBalance", Fields: tag, External: &yes},
		{Name: "MsgBindRole", Fields: tag, External: &yes},
	}, "zz/gen_b.proto", "x/bank/v1alpha1/bank.proto", "core/rbac/v1alpha1/rbac.proto")
	return m
}()

var genTypes = func() (l []protoreflect.MessageDescriptor) {
	for _, p := range []string{"zzgena", "zzgenb", "zzgenc"} {
		ms := genFiles[p].Messages()
		for i := 0; i < ms.Len(); i++ {
			if n := ms.Get(i).Name(); n != "Obj" && !(n == "N" && p == "zzgena") {
				l = append(l, ms.Get(i))
			}
		}
	}
	return
}()

// genExternal tells whether the generated type declares itself external.
func genExternal(md protoreflect.MessageDescriptor) bool {
	return map[string]bool{"zzgena.P": true, "zzgena.OnlyA": true, "zzgenb.Q": true, "zzgenb.N": true, "zzgenc.P": true, "zzgenc.MsgSetBalance": true, "zzgenc.MsgBindRole": true}[string(md.FullName())]
}

type genTr struct {
	*Dyn
	external bool
}

type permModule struct {
	name  string
	objs  []*Dyn
	trs   []genTr
	needs []meta.StateTransition
	c     module.Client
	ran   map[string]int
}

func (m *permModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	b := module.NewDescriptorBuilder().Named(m.name)
	for _, o := range m.objs {
		b.OwnsStateObject(o, &schema.Definition{PrimaryKey: "id"})
	}
	for _, t := range m.trs {
		n := meta.Name(t)
		b.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(func(statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
			m.ran[n]++
			return
		}))
	}
	for _, n := range m.needs {
		b.NeedsStateTransition(n)
	}
	return b.Build()
}

// stdPerms is the permission table of the modules of the repository, written
// down from their declarations.
type stdPerm struct {
	module  string
	owned   []meta.APIObject
	trs     []meta.APIObject
	ext     []meta.APIObject
	needing []meta.APIObject
}

var stdPerms = []stdPerm{
	{module: "system:runtime", owned: []meta.APIObject{&rtpb.ModuleDescriptors{}}, trs: []meta.APIObject{&rtpb.CreateModuleDescriptors{}}},
	{module: "system:abci", owned: []meta.APIObject{&abcipb.Stage{}, &abcipb.BeginBlockState{}, &abcipb.DeliverTxState{}, &abcipb.CheckTxState{}, &abcipb.InitChainInfo{}, &abcipb.EndBlockState{}, &abcipb.CurrentBlock{}, &abcipb.ValidatorUpdates{}},
		trs: []meta.APIObject{&abcipb.MsgSetInitChain{}, &abcipb.MsgSetCheckTxState{}, &abcipb.MsgSetBeginBlockState{}, &abcipb.MsgSetDeliverTxState{}, &abcipb.MsgSetEndBlockState{}, &abcipb.MsgSetValidatorUpdates{}}},
	{module: "rbac", owned: []meta.APIObject{&rbacpb.Role{}, &rbacpb.RoleBinding{}, &rbacpb.Params{}}, trs: []meta.APIObject{&rbacpb.MsgCreateRole{}, &rbacpb.MsgBindRole{}}},
	{module: "authn", owned: []meta.APIObject{&authnpb.Account{}, &authnpb.Params{}, &authnpb.CurrentAccountNumber{}}, trs: []meta.APIObject{&authnpb.MsgCreateAccount{}},
		ext: []meta.APIObject{&authnpb.MsgCreateAccount{}}, needing: []meta.APIObject{&rbacpb.MsgBindRole{}}},
	{module: "bank", owned: []meta.APIObject{&bankpb.Balance{}}, trs: []meta.APIObject{&bankpb.MsgSendCoins{}, &bankpb.MsgSetBalance{}},
		ext: []meta.APIObject{&bankpb.MsgSendCoins{}}, needing: []meta.APIObject{&authnpb.MsgCreateAccount{}}},
	{module: "distribution", needing: []meta.APIObject{&bankpb.MsgSendCoins{}}},
	{module: "zzpost", owned: []meta.APIObject{&testpb.Post{}}, trs: []meta.APIObject{&testpb.MsgCreatePost{}}, ext: []meta.APIObject{&testpb.MsgCreatePost{}}},
	{module: "zzharness", needing: []meta.APIObject{&authnpb.MsgCreateAccount{}, &bankpb.MsgSetBalance{}, &bankpb.MsgSendCoins{}, &rbacpb.MsgCreateRole{}, &rbacpb.MsgBindRole{}}},
}

func names(l []meta.APIObject) (s []string) {
	for _, x := range l {
		s = append(s, meta.Name(x))
	}
	return
}

func roleStr(r *rbacpb.Role) string {
	return fmt.Sprintf("id=%q gets=%q lists=%q creates=%q updates=%q deletes=%q delivers=%q", r.Id, sorted(r.Gets), sorted(r.Lists), sorted(r.Creates), sorted(r.Updates), sorted(r.Deletes), sorted(r.Delivers))
}

func newPermModules(r *rand.Rand) []*permModule {
	var ms []*permModule
	used := map[string]bool{}
	std := []meta.StateTransition{&bankpb.MsgSendCoins{}, &bankpb.MsgSetBalance{}, &authnpb.MsgCreateAccount{}, &rbacpb.MsgCreateRole{}, &rbacpb.MsgBindRole{}, &abcipb.MsgSetValidatorUpdates{}}
	n := r.Intn(5)
	for i := 0; i < n; i++ {
		name := pick(r, "perm", "Perm", "bank", "a b", "perm-role", "external_account", "é", "rbac", "system") + fmt.Sprint(i)
		if chance(r, .1) {
			name = pick(r, "external_account", "ban", "x-role", "rbac-role")
		}
		if chance(r, .1) {
			name = strings.Repeat(pick(r, "long", "L-", "é"), 8+r.Intn(60)) + fmt.Sprint(i)
		}
		if used[name] {
			continue
		}
		used[name] = true
		m := &permModule{name: name, ran: map[string]int{}}
		group := func() string { return pick(r, "perm", "perm.v1", "perm.v1", "tmos.perm") + fmt.Sprint(i) }
		for j := r.Intn(4); j > 0; j-- {
			d := objDef(group(), pick(r, "O", "O1", "O11", "Balance", "T"))
			if key := d.Group + "." + d.Kind; !used["o "+key] {
				used["o "+key] = true
				m.objs = append(m.objs, newDyn(genFiles["zzgena"].Messages().ByName("Obj"), d))
			}
		}
		for j := r.Intn(5); j > 0; j-- {
			d := trDef(group(), pick(r, "T", "T1", "T11", "MsgSendCoins", "O"))
			if key := d.Group + "." + d.Kind; !used["t "+key] {
				used["t "+key] = true
				md := genTypes[r.Intn(len(genTypes))]
				m.trs = append(m.trs, genTr{newDyn(md, d), genExternal(md)})
			}
		}
		ms = append(ms, m)
	}
	// needs: any transition of another module, declared before or after
	for _, m := range ms {
		var c []meta.StateTransition
		c = append(c, std...)
		for _, o := range ms {
			if o != m {
				for _, t := range o.trs {
					c = append(c, t)
				}
			}
		}
		for _, j := range r.Perm(len(c))[:r.Intn(min(4, len(c)+1))] {
			m.needs = append(m.needs, c[j])
		}
	}
	return ms
}

func c24(c *Ctx) {
	c.Rule("a genesis of one composition of modules whose complete set of roles and bindings is compared with the declarations, and each attempt (identity, verb, resource) after it")
	c.Assume("the declarations of the repository's own modules are a table in the harness", "a module does not declare a transition as needed twice or one of its own")
	c.Cases("genesis", c.N(240, 2500), c24case)
	c.Expect("roles compared", 700)
	c.Expect("refused", 10000)
	c.Expect("permitted", 900)
	c.Expect("short name clashes", 20)
	c.Expect("second genesis", 60)
}

func c24case(k *Case) {
	r := k.R
	ms := newPermModules(r)
	o := WorldOpts{NoInit: true, NoFees: chance(r, .2)}
	for _, m := range ms {
		if chance(r, .4) {
			o.Before = append(o.Before, m)
		} else {
			o.Extra = append(o.Extra, m)
		}
	}
	naccs := r.Intn(3)
	for i := 0; i < naccs; i++ {
		o.Accounts = append(o.Accounts, GenAcc{Addr: K(i).Addr, Coins: coinList(100000, "foo")})
	}
	w := newWorld(o)
	defer w.Close()
	if n := len(w.View().Roles) + len(w.View().Binds); n != 0 {
		k.Fail("early", "%d roles and bindings before genesis", n)
	}
	w.App.InitChain(initReq(w.Chain))

	// the declared permissions
	roles := map[string]string{}
	binds := map[string]string{}
	var ext []string
	add := func(mod string, objs, trs, needs []string) {
		role := &rbacpb.Role{Id: mod + "-role", Gets: objs, Lists: objs, Creates: objs, Updates: objs, Deletes: objs, Delivers: append(append([]string(nil), trs...), needs...)}
		roles[role.Id] = roleStr(role)
		binds[mod] = role.Id
	}
	type res struct {
		obj meta.APIObject
		own *permModule
		std bool
	}
	var all []res
	for _, s := range stdPerms {
		if s.module == "distribution" && o.NoFees {
			continue
		}
		add(s.module, names(s.owned), names(s.trs), names(s.needing))
		ext = append(ext, names(s.ext)...)
		for _, x := range append(append([]meta.APIObject(nil), s.owned...), s.trs...) {
			all = append(all, res{x, nil, true})
		}
	}
	desc := ""
	for _, m := range ms {
		var os, ts, ns []string
		for _, x := range m.objs {
			os = append(os, meta.Name(x))
			all = append(all, res{x, m, false})
		}
		for _, t := range m.trs {
			ts = append(ts, meta.Name(t))
			if t.external {
				ext = append(ext, meta.Name(t))
			}
			if strings.HasPrefix(string(t.Descriptor().FullName()), "zzgenb") || strings.HasPrefix(string(t.Descriptor().FullName()), "zzgenc") {
				k.Count("short name clashes", 1)
			}
			all = append(all, res{t, m, false})
		}
		for _, n := range m.needs {
			ns = append(ns, meta.Name(n))
		}
		add(m.name, os, ts, ns)
		desc += fmt.Sprintf("%q objects %v transitions %v needs %v; ", m.name, os, ts, ns)
	}
	roles["external_account"] = roleStr(&rbacpb.Role{Id: "external_account", Delivers: ext})
	for i := 0; i < naccs; i++ {
		binds[K(i).Addr] = "external_account"
	}
	k.Eval(desc + fmt.Sprint(naccs, o.NoFees))
	if k.Idx < 2 {
		k.Sample(desc)
	}
	check := func(when string) {
		v := w.View()
		for id, want := range roles {
			k.Count("roles compared", 1)
			if v.Roles[id] == nil {
				k.Fail("role-missing", "%s: no role %q, wanted %s", when, id, want)
			} else if got := roleStr(v.Roles[id]); got != want {
				k.Fail("role", "%s: role is\n%s\ninstead of\n%s", when, got, want)
			}
		}
		for id, role := range v.Roles {
			if roles[id] == "" {
				k.Fail("role-extra", "%s: undeclared role %s stored as %q", when, roleStr(role), id)
			}
		}
		for s, id := range binds {
			if v.Binds[s] != id {
				k.Fail("binding", "%s: %q is bound to %q instead of %q", when, s, v.Binds[s], id)
			}
		}
		for s, id := range v.Binds {
			if binds[s] == "" {
				k.Fail("binding-extra", "%s: undeclared binding of %q to %q", when, s, id)
			}
		}
	}
	check("after genesis")
	// second genesis
	if chance(r, .6) {
		k.Count("second genesis", 1)
		before := w.Dump()
		var err error
		what := ""
		pv, _ := safe(func() {
			if chance(r, .5) {
				what = "InitGenesis"
				err = w.RT.InitGenesis()
			} else {
				what = "InitChain"
				w.App.InitChain(initReq(pick(r, w.Chain, "other")))
			}
		})
		if err == nil && pv == nil {
			k.Fail("second-genesis", "a second %s is accepted", what)
		}
		if d := diffDump(before, w.Dump()); len(d) != 0 {
			k.Fail("second-genesis", "a second %s (%v %v) changed %q", what, err, pv, d)
		}
	}
	// the whole matrix
	subjects := []string{"nobody", "", "external_account", "rbac-role", "external_account-role"}
	for s := range binds {
		subjects = append(subjects, s)
	}
	sort.Strings(subjects)
	allowed := func(s, verb, name string) bool {
		id := binds[s]
		v := w.View
		_ = v
		role := expectedRole(roles[id], verb)
		for _, n := range role {
			if n == name {
				return true
			}
		}
		return false
	}
	base := w.Digest()
	fresh := 0
	for _, x := range all {
		name := meta.Name(x.obj)
		for _, s := range subjects {
			u := user.NewUsersFromString(s)
			if tr, ok := x.obj.(meta.StateTransition); ok && x.obj.APIDefinition().ApiType == meta.APIType_StateTransition {
				var t meta.StateTransition
				if g, ok := tr.(genTr); ok {
					t = newDyn(g.Descriptor(), g.Def)
				} else {
					t = tr.NewStateTransition()
				}
				ran := 0
				if x.own != nil {
					ran = x.own.ran[name]
				}
				ok := allowed(s, "deliver", name)
				if x.std && ok {
					continue // arbitrary effects
				}
				err := w.RT.Deliver(u, t)
				if ok {
					k.Count("permitted", 1)
					if err != nil || x.own.ran[name] != ran+1 {
						k.Fail("denied", "%q may not deliver %s although declared: %v", s, name, err)
					}
				} else {
					k.Count("refused", 1)
					if err == nil || x.own != nil && (x.own.ran[name] != ran || !errors.Is(err, rterr.ErrUnauthorized)) {
						k.Fail("granted", "%q delivers %s although not declared: %v", s, name, err)
					}
				}
				continue
			}
			so := x.obj.(meta.StateObject)
			for _, verb := range []string{"create", "update", "delete"} {
				ob := so.NewStateObject()
				if d, ok := ob.(*Dyn); ok {
					fresh++
					d.set("id", fmt.Sprint("f", fresh))
				}
				ok := allowed(s, verb, name)
				if x.std && ok {
					continue
				}
				if ok {
					// the sequence create, update, delete restores the state
					if verb != "create" {
						continue
					}
					for _, e := range []error{w.RT.Create(u, ob), w.RT.Update(u, ob), w.RT.Delete(u, ob)} {
						k.Count("permitted", 1)
						if e != nil {
							k.Fail("denied", "%q may not write %s although it owns it: %v", s, name, e)
						}
					}
					continue
				}
				k.Count("refused", 1)
				err := map[string]func() error{"create": func() error { return w.RT.Create(u, ob) }, "update": func() error { return w.RT.Update(u, ob) }, "delete": func() error { return w.RT.Delete(u, ob) }}[verb]()
				if err == nil || !errors.Is(err, rterr.ErrUnauthorized) {
					k.Fail("granted", "%q may %s %s although not declared: %v", s, verb, name, err)
				}
			}
		}
	}
	if d := w.Digest(); d != base {
		k.Fail("effect", "the attempts left effects behind")
	}
	check("after the attempts")
}

// expectedRole extracts a verb's sorted list from roleStr's output.
func expectedRole(s, verb string) []string {
	key := verb + "s=["
	i := strings.Index(s, " "+key)
	if i < 0 {
		return nil
	}
	s = s[i+1+len(key):]
	s = s[:strings.Index(s, "]")]
	var l []string
	for _, x := range strings.Split(s, " ") {
		l = append(l, strings.Trim(x, `"`))
	}
	return l
}

var _ = proto.Marshal
