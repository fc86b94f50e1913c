package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	rtpb "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/module"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	"github.com/fdymylja/tmos/runtime/statetransition"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/proto"
)

// aclModule owns generated objects and transitions. A transition whose field
// "act" is set to a verb makes its handler do that on an object through its
// own client.
type aclModule struct {
	name   string
	c      module.Client
	objs   []*Dyn
	trs    []*Dyn
	needs  []meta.StateTransition
	ran    map[string]int
	inner  error
	innerO *Dyn
}

func (m *aclModule) Initialize(c module.Client) module.Descriptor {
	m.c = c
	b := module.NewDescriptorBuilder().Named(m.name)
	for _, o := range m.objs {
		b.OwnsStateObject(o, &schema.Definition{PrimaryKey: "id"})
	}
	for _, t := range m.trs {
		name := meta.Name(t)
		b.HandlesStateTransition(t, statetransition.ExecutionHandlerFunc(func(req statetransition.ExecutionRequest) (r statetransition.ExecutionResponse, err error) {
			m.ran[name]++
			d, ok := req.Transition.(*Dyn)
			if !ok {
				return
			}
			switch d.get("act").(string) {
			case "create":
				m.inner = c.Create(m.innerO)
			case "update":
				m.inner = c.Update(m.innerO)
			case "delete":
				m.inner = c.Delete(m.innerO)
			}
			return
		}))
	}
	for _, n := range m.needs {
		b.NeedsStateTransition(n)
	}
	return b.Build()
}

var aclFile = dynFile("zz/acl.proto", "zzacl", []DynMsg{
	{Name: "Obj", Fields: []DynField{{Name: "id", Type: tString}, {Name: "val", Type: tString}}},
	{Name: "Ext", Fields: []DynField{{Name: "act", Type: tString}}, External: &yes},
	{Name: "Int", Fields: []DynField{{Name: "act", Type: tString}}, External: &no},
}, "core/rbac/xt/rbac_extension.proto")

func newACLModules(r *rand.Rand, n int) []*aclModule {
	var ms []*aclModule
	for i := 0; i < n; i++ {
		m := &aclModule{name: fmt.Sprintf("acl%d", i), ran: map[string]int{}}
		g := pick(r, "zz", "zz.v1", "zz.v1") + fmt.Sprint(i)
		// names which are prefixes of one another
		for _, k := range []string{"O", "O1", "O11"}[:1+r.Intn(3)] {
			m.objs = append(m.objs, newDyn(aclFile.Messages().ByName("Obj"), objDef(g, k)))
		}
		for _, k := range []string{"T", "T1", "T11"}[:1+r.Intn(3)] {
			m.trs = append(m.trs, newDyn(aclFile.Messages().ByName(map[bool]protoName{true: "Ext", false: "Int"}[chance(r, .4)]), trDef(g, k)))
		}
		if chance(r, .5) && len(ms) > 0 {
			o := ms[r.Intn(len(ms))]
			m.needs = append(m.needs, o.trs[r.Intn(len(o.trs))])
		}
		ms = append(ms, m)
	}
	return ms
}

// aclModel is the reference access control state.
type aclModel struct {
	roles map[string]*rbacpb.Role
	binds map[string]string
}

func aclOf(v *View) *aclModel { return &aclModel{v.Roles, v.Binds} }

func verbList(r *rbacpb.Role, verb string) []string {
	switch verb {
	case "create":
		return r.Creates
	case "update":
		return r.Updates
	case "delete":
		return r.Deletes
	case "deliver":
		return r.Delivers
	case "get":
		return r.Gets
	case "list":
		return r.Lists
	}
	return nil
}

func (m *aclModel) allowed(users []string, verb, res string) bool {
	ok := false
	for _, u := range users {
		rid, bound := m.binds[u]
		if !bound {
			return false
		}
		role := m.roles[rid]
		if role == nil {
			return false
		}
		for _, x := range verbList(role, verb) {
			if x == res {
				ok = true
			}
		}
	}
	return ok
}

func c06(c *Ctx) {
	c.Rule("a request of a non-empty set of identities for one verb on one resource, distinct by (identities, verb, resource, roles, outcome)")
	c.Assume("reference permission model of the harness: every identity bound to an existing role, union of their resources")
	c.Cases("matrix", c.N(256, 1600), c06matrix)
	c.Cases("tx", c.N(10, 100), c06tx)
	c.Expect("allowed", 500)
	c.Expect("refused", 1500)
	c.Expect("tx_refused", 20)
	c.Expect("tx_allowed", 10)
}

type aclWorld struct {
	*World
	mods []*aclModule
}

func newACLWorld(r *rand.Rand, noInit bool) *aclWorld {
	w := &aclWorld{mods: newACLModules(r, 2+r.Intn(3))}
	o := WorldOpts{NoInit: noInit, Accounts: []GenAcc{{Addr: "alice", Coins: coinList(1000, "foo")}, {Addr: "bob", Coins: coinList(1000, "foo")}}}
	for _, m := range w.mods {
		o.Extra = append(o.Extra, m)
	}
	w.World = newWorld(o)
	return w
}

func c06matrix(k *Case) {
	r := k.R
	w := newACLWorld(r, chance(r, .3))
	defer w.Close()
	var objs, trs []*Dyn
	var names []string
	for _, m := range w.mods {
		objs = append(objs, m.objs...)
		trs = append(trs, m.trs...)
		names = append(names, m.name)
	}
	subjects := append([]string{"alice", "bob", "rbac", "zzharness", "bank", "authn", "nobody", "s1", "s2", "s3", "s4", "s5", "s6", "", " ", "*", "RBAC", "rbac ", "unique", K(0).Addr, K(1).Addr, strings.Repeat("long name ", 20), "user:x", "a/b", "é"}, names...)
	var favoured []string // bound at run time
	users := func() []string {
		n := []int{0, 1, 1, 1, 2, 2, 3}[r.Intn(7)]
		if chance(r, .06) {
			n = 4 + r.Intn(6)
		}
		set := map[string]bool{}
		for i := 0; i < n; i++ {
			if len(favoured) > 0 && chance(r, .4) {
				set[favoured[r.Intn(len(favoured))]] = true
				continue
			}
			set[subjects[r.Intn(len(subjects))]] = true
		}
		var l []string
		for u := range set {
			l = append(l, u)
		}
		sort.Strings(l)
		return l
	}
	mk := func(o *Dyn) *Dyn {
		return newDyn(o.Descriptor(), o.Def).set("id", pick(r, "a", "b", "c")).set("val", fmt.Sprint(r.Intn(1000)))
	}
	exists := func(o meta.StateObject, id string) bool {
		return w.RT.Get(meta.NewStringID(id), o.NewStateObject()) == nil
	}
	enforced := w.Height > 0
	if len(w.View().Roles) > 0 {
		enforced = true // InitChain ran
	}
	rbacUser := user.NewUsersFromString("rbac")
	nroles := 0
	extraRoles := []string{rbacpb.ExternalAccountRoleID}
	fresh := 0
	act := func(us []string, verb string, via int) {
		m := aclOf(w.View())
		var res meta.APIObject
		var run func() error
		var valid func() bool
		u := user.NewUsersFromString(us...)
		var tr *Dyn
		var owner *aclModule
		if verb == "deliver" {
			tr = trs[r.Intn(len(trs))]
			for _, x := range w.mods {
				for _, t := range x.trs {
					if t == tr {
						owner = x
					}
				}
			}
			t := newDyn(tr.Descriptor(), tr.Def)
			res = t
			valid = func() bool { return true }
			switch via {
			case 1: // through a module client, alone or impersonating
				src := w.mods[r.Intn(len(w.mods))]
				cl, name := src.c, src.name
				if chance(r, .3) {
					cl, name = w.Mod, "zzharness"
				}
				var opts []client.DeliverOption
				if len(us) > 0 {
					opts = append(opts, client.DeliverImpersonating(us...))
				}
				run = func() error { return cl.Deliver(t, opts...) }
				has := false
				for _, x := range us {
					has = has || x == name
				}
				if !has {
					us = append(append([]string(nil), us...), name)
				}
			default:
				run = func() error { return w.RT.Deliver(u, t) }
			}
		} else {
			o := mk(objs[r.Intn(len(objs))])
			res = o
			if chance(r, .5) && verb == "create" {
				fresh++
				o.set("id", fmt.Sprintf("n%d", fresh))
			}
			ex := exists(o, o.get("id").(string))
			valid = func() bool { return ex == (verb != "create") }
			if via == 1 {
				src := w.mods[r.Intn(len(w.mods))]
				us = []string{src.name}
				run = map[string]func() error{"create": func() error { return src.c.Create(o) }, "update": func() error { return src.c.Update(o) }, "delete": func() error { return src.c.Delete(o) }}[verb]
			} else {
				run = map[string]func() error{"create": func() error { return w.RT.Create(u, o) }, "update": func() error { return w.RT.Update(u, o) }, "delete": func() error { return w.RT.Delete(u, o) }}[verb]
			}
		}
		name := meta.Name(res)
		ok := !enforced || m.allowed(us, verb, name)
		before := w.Dump()
		ran := 0
		if owner != nil {
			ran = owner.ran[name]
		}
		err := run()
		after := w.Dump()
		k.Eval(fmt.Sprint(us, verb, name, ok, valid(), k.Idx, nroles))
		what := fmt.Sprintf("%s %s by %v (via %d, enforced %v)", verb, name, us, via, enforced)
		if !ok {
			k.Count("refused", 1)
			if err == nil {
				k.Fail("allowed", "%s executed although not permitted", what)
			} else if !errors.Is(err, rterr.ErrUnauthorized) {
				k.Fail("error", "%s refused with %v instead of unauthorized", what, err)
			}
			if d := diffDump(before, after); len(d) > 0 {
				k.Fail("effect", "%s not permitted but changed %q", what, d)
			}
			if owner != nil && owner.ran[name] != ran {
				k.Fail("ran", "%s not permitted but its handler ran", what)
			}
			return
		}
		k.Count("allowed", 1)
		if errors.Is(err, rterr.ErrUnauthorized) {
			k.Fail("refused", "%s refused although permitted: %v", what, err)
			return
		}
		if (err == nil) != valid() {
			k.Fail("outcome", "%s: err=%v, expected success %v", what, err, valid())
		}
		if owner != nil && owner.ran[name] != ran+1 {
			k.Fail("ran", "%s permitted: handler ran %d times", what, owner.ran[name]-ran)
		}
	}
	for i := 0; i < k.N(70, 120) && !k.Failed(); i++ {
		if !enforced && (i == 20 || chance(r, .05)) {
			w.App.InitChain(initReq(w.Chain))
			enforced = true
			continue
		}
		switch x := r.Intn(10); {
		case x < 2 && enforced: // change roles and bindings
			switch r.Intn(6) {
			case 0, 1, 2:
				nroles++
				role := &rbacpb.Role{Id: fmt.Sprintf("r%d", nroles)}
				fill := func(ds []*Dyn) (l []string) {
					p := []float64{0, .1, .4, .4, .9}[r.Intn(5)]
					for _, d := range ds {
						if chance(r, p) {
							l = append(l, meta.Name(d))
						}
					}
					if chance(r, .15) { // many entries
						for i := r.Intn(12); i > 0 && len(l) > 0; i-- {
							l = append(l, l[r.Intn(len(l))])
						}
					}
					return
				}
				role.Creates, role.Updates, role.Deletes, role.Delivers = fill(objs), fill(objs), fill(objs), fill(trs)
				role.Gets, role.Lists = fill(objs), fill(objs)
				if err := w.RT.Deliver(rbacUser, &rbacpb.MsgCreateRole{NewRole: role}); err != nil {
					k.Fail("create-role", "rbac may not create a role: %v", err)
				}
				extraRoles = append(extraRoles, role.Id)
				k.Count("roles_created", 1)
				s := subjects[r.Intn(len(subjects))]
				if len(favoured) > 0 && chance(r, .3) {
					s = favoured[r.Intn(len(favoured))]
				}
				if m := aclOf(w.View()); s != "" && s != "rbac" && chance(r, .6) {
					if _, b := m.binds[s]; !b {
						if err := w.RT.Deliver(rbacUser, &rbacpb.MsgBindRole{RoleId: role.Id, Subject: s}); err != nil {
							k.Fail("bind", "rbac may not bind %s: %v", s, err)
						}
						favoured = append(favoured, s)
						k.Count("bindings_created", 1)
					} else if chance(r, .5) {
						if err := w.RT.Update(rbacUser, &rbacpb.RoleBinding{Subject: s, RoleRef: role.Id}); err != nil {
							k.Fail("rebind", "rbac may not change the binding of %s: %v", s, err)
						}
						favoured = append(favoured, s)
						k.Count("bindings_changed", 1)
					}
				}
			case 3:
				s := subjects[r.Intn(len(subjects))]
				m, id := aclOf(w.View()), extraRoles[r.Intn(len(extraRoles))]
				if _, b := m.binds[s]; !b && s != "" && m.roles[id] != nil {
					if err := w.RT.Deliver(rbacUser, &rbacpb.MsgBindRole{RoleId: id, Subject: s}); err != nil {
						k.Fail("bind", "rbac may not bind %s: %v", s, err)
					}
					favoured = append(favoured, s)
					k.Count("bindings_created", 1)
				}
			case 4: // the rbac module owns roles and bindings: revoke or change
				s := subjects[r.Intn(len(subjects))]
				if s == "rbac" || aclOf(w.View()).binds[s] == "" {
					break
				}
				var err error
				if chance(r, .5) {
					err = w.RT.Delete(rbacUser, &rbacpb.RoleBinding{Subject: s})
				} else { // possibly to a role which does not exist
					err = w.RT.Update(rbacUser, &rbacpb.RoleBinding{Subject: s, RoleRef: pick(r, append(extraRoles, "missing-role")...)})
				}
				if err != nil {
					k.Fail("rebind", "rbac may not change the binding of %s: %v", s, err)
				}
				k.Count("bindings_changed", 1)
			case 5:
				id := pick(r, extraRoles...)
				role := aclOf(w.View()).roles[id]
				if role == nil {
					break
				}
				var err error
				if chance(r, .3) {
					err = w.RT.Delete(rbacUser, role)
				} else {
					role = proto.Clone(role).(*rbacpb.Role)
					t := trs[r.Intn(len(trs))]
					if chance(r, .5) {
						role.Delivers = nil
					}
					role.Delivers = append(role.Delivers, meta.Name(t))
					err = w.RT.Update(rbacUser, role)
				}
				if err != nil {
					k.Fail("change-role", "rbac may not change role %s: %v", id, err)
				}
				k.Count("roles_changed", 1)
			}
		case x == 2 && enforced: // a handler acts with its module's identity, not its caller's
			src := w.mods[r.Intn(len(w.mods))]
			t := src.trs[r.Intn(len(src.trs))]
			m := aclOf(w.View())
			us := users()
			if !m.allowed(us, "deliver", meta.Name(t)) {
				us = []string{src.name}
				if !m.allowed(us, "deliver", meta.Name(t)) {
					break
				}
			}
			verb := pick(r, "create", "update", "delete")
			o := mk(objs[r.Intn(len(objs))])
			src.innerO, src.inner = o, nil
			ex := exists(o, o.get("id").(string))
			before := w.Dump()
			err := w.RT.Deliver(user.NewUsersFromString(us...), newDyn(t.Descriptor(), t.Def).set("act", verb))
			ok := m.allowed([]string{src.name}, verb, meta.Name(o))
			what := fmt.Sprintf("%s %s by handler of %s called by %v", verb, meta.Name(o), src.name, us)
			k.Count("nested", 1)
			k.Eval(fmt.Sprint(what, k.Idx, i))
			if err != nil {
				k.Fail("nested", "%s: transition refused: %v", what, err)
			} else if ok {
				if (src.inner == nil) != (ex == (verb != "create")) || errors.Is(src.inner, rterr.ErrUnauthorized) {
					k.Fail("nested", "%s: %v although permitted", what, src.inner)
				}
			} else if !errors.Is(src.inner, rterr.ErrUnauthorized) || len(diffDump(before, w.Dump())) > 0 {
				k.Fail("nested", "%s: err %v although not permitted", what, src.inner)
			}
		default:
			us := users()
			if chance(r, .4) { // prefer identities that may do something
				m := aclOf(w.View())
				var l []string
				for s := range m.binds {
					l = append(l, s)
				}
				sort.Strings(l)
				if len(l) > 0 {
					us = []string{l[r.Intn(len(l))]}
				}
			}
			act(us, pick(r, "create", "update", "delete", "deliver", "deliver"), r.Intn(2))
		}
	}
}

// c06tx: every registered transition type as the message of a transaction.
func c06tx(k *Case) {
	r := k.R
	w := newWorld(WorldOpts{Accounts: []GenAcc{{Addr: K(0).Addr, Coins: coinList(100000, "foo")}, {Addr: K(1).Addr, Coins: coinList(100000, "foo")}}})
	defer w.Close()
	w.Begin(1)
	seq := map[int]uint64{}
	ms := []proto.Message{
		&bankpb.MsgSendCoins{FromAddress: K(0).Addr, ToAddress: K(1).Addr, Amount: coinList(1, "foo")},
		&bankpb.MsgSetBalance{Address: K(0).Addr, Amount: coinList(1000000, "foo")},
		&rbacpb.MsgCreateRole{NewRole: &rbacpb.Role{Id: fmt.Sprint("x", r.Intn(10))}},
		&rbacpb.MsgBindRole{RoleId: "rbac-role", Subject: "mallory"},
		&authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: fmt.Sprint("new", r.Intn(1000))}},
		&authnpb.MsgUpdateAccount{Account: &authnpb.Account{Address: K(1).Addr, Sequence: 77}}, &authnpb.MsgDeleteAccount{},
		&testpb.MsgCreatePost{Title: "t", Text: fmt.Sprint("p", r.Intn(1<<30))},
		&rtpb.CreateModuleDescriptors{},
	}
	external := map[string]bool{"MsgSendCoins": true, "MsgCreateAccount": true, "MsgCreatePost": true}
	for i := 0; i < 12 && !k.Failed(); i++ {
		m := ms[r.Intn(len(ms))]
		signers := [][]int{{0}, {0, 1}}[r.Intn(2)]
		t := &TxSpec{Msgs: msgs(m), Fee: coinList(1, "foo"), Chain: w.Chain}
		for _, s := range signers {
			t.Signers = append(t.Signers, SignerSpec{Key: K(s), Seq: seq[s], AccNum: uint64(s)})
		}
		b := t.Encode()
		bv := w.View()
		res := w.Deliver(b)
		av := w.View()
		for _, s := range signers {
			seq[s]++
		}
		name := string(m.ProtoReflect().Descriptor().Name())
		ext := external[name]
		k.Eval(fmt.Sprint(name, len(signers), k.Idx, i))
		if ext {
			if res.Code != 0 && !strings.Contains(res.Log, "already exists") {
				k.Fail("tx", "external transition %s refused: %v", name, res)
			}
			k.Count("tx_allowed", 1)
			continue
		}
		k.Count("tx_refused", 1)
		if res.Code == 0 {
			k.Fail("tx", "internal transition %s accepted in a transaction", name)
		}
		if d := foreignDiff(k, bv, av, signers); d != "" {
			k.Fail("tx-effect", "refused internal transition %s: %s", name, d)
		}
	}
}

// foreignDiff reports changes other than the fee and the signers' accounts.
func foreignDiff(k *Case, a, b *View, signers []int) string {
	ok := map[string]bool{"fee_collector": true}
	for _, s := range signers {
		ok[K(s).Addr] = true
	}
	for key := range mergeKeys(a.Raw, b.Raw) {
		if a.Raw[key] == b.Raw[key] {
			continue
		}
		app := false
		for o := range ok {
			if strings.HasSuffix(key, "/"+o) || strings.Contains(key, o) {
				app = true
			}
		}
		if !app && !strings.Contains(key, "CurrentAccountNumber") && !strings.Contains(key, rbacpb.ExternalAccountRoleID) {
			return "changed " + key
		}
	}
	return ""
}

func mergeKeys(a, b map[string]string) map[string]bool {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return m
}
