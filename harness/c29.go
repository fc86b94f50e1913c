package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/fdymylja/tmos/core/meta"
	rbacpb "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	"github.com/fdymylja/tmos/runtime/authentication/user"
	"github.com/fdymylja/tmos/runtime/client"
	testpb "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnpb "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankpb "github.com/fdymylja/tmos/x/bank/v1alpha1"
	"google.golang.org/protobuf/proto"
)

func c29(c *Ctx) {
	c.Rule("one request to create a role or a binding (directly, through a module, impersonating, in a signed transaction, or by creating an account) with its state before and after; distinct by request and caller")
	c.Assume("the rbac module itself may revoke bindings and roles it owns; the statement is about requests")
	c.Cases("history", c.N(90, 1500), c29history)
	for _, x := range []string{"create ok", "create unauthorized", "create malformed", "create existing", "create unknown resource", "bind ok", "bind unauthorized", "bind unknown role", "bind bound", "bind no subject", "tx", "account tx", "rolled back"} {
		c.Expect(x, 20)
	}
}

// similar returns a string which is easily confused with s.
func similar(r *rand.Rand, s string) string {
	switch r.Intn(9) {
	case 0:
		return s + "x"
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s + " "
	case 3:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 4:
		return s + "/"
	case 5:
		return "/" + s
	case 6:
		return s + "\x00"
	case 7:
		return s + s
	}
	return "x" + s
}

func c29history(k *Case) {
	r := k.R
	ms := newPermModules(r)
	o := WorldOpts{}
	for _, m := range ms {
		o.Extra = append(o.Extra, m)
	}
	for i := 0; i < 3; i++ {
		o.Accounts = append(o.Accounts, GenAcc{Addr: K(i).Addr, Coins: coinList(1000000, "foo")})
	}
	w := newWorld(o)
	defer w.Close()
	w.Begin(1)
	var objs, trs, mods []string
	for _, s := range stdPerms {
		objs, trs, mods = append(objs, names(s.owned)...), append(trs, names(s.trs)...), append(mods, s.module)
	}
	for _, m := range ms {
		mods = append(mods, m.name)
		for _, x := range m.objs {
			objs = append(objs, meta.Name(x))
		}
		for _, x := range m.trs {
			trs = append(trs, meta.Name(x))
		}
	}
	known := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range l {
			m[x] = true
		}
		return m
	}
	isObj, isTr := known(objs), known(trs)
	seq := map[int]uint64{}
	ids := []string{"external_account"}
	for _, m := range mods {
		ids = append(ids, m+"-role")
	}
	subjects := append([]string{"nobody", "x", "y", "z", "é", "a/b", "unique", strings.Repeat("long", 200)}, mods...)
	for i := 0; i < 6; i++ {
		subjects = append(subjects, K(i).Addr)
	}
	genRole := func() *rbacpb.Role {
		role := &rbacpb.Role{Id: fmt.Sprintf("r%d", r.Intn(200))}
		switch x := r.Intn(20); {
		case x < 2:
			role.Id = ids[r.Intn(len(ids))]
		case x < 4:
			role.Id = similar(r, ids[r.Intn(len(ids))])
		case x < 5:
			role.Id = ""
		}
		bad := chance(r, .3)
		single := -1 // the only list which is bad
		if bad && chance(r, .6) {
			single = r.Intn(6)
		}
		at := -1
		fill := func(l []string, other []string) (s []string) {
			n := 0
			if chance(r, .6) {
				n = r.Intn(4)
			}
			at++
			if chance(r, .04) || at == single && chance(r, .3) {
				n = 8 + r.Intn(30)
			}
			for i := 0; i < n; i++ {
				s = append(s, l[r.Intn(len(l))])
			}
			if at == single || bad && single < 0 && chance(r, .4) {
				x := ""
				switch r.Intn(4) {
				case 0:
					x = similar(r, l[r.Intn(len(l))])
				case 1:
					x = other[r.Intn(len(other))]
				case 2:
					x = pick(r, "", "nope", "*", ".", "tmos")
				case 3:
					y := l[r.Intn(len(l))]
					x = y[strings.LastIndex(y, ".")+1:]
				}
				i := r.Intn(len(s) + 1)
				s = append(s[:i], append([]string{x}, s[i:]...)...)
			}
			return
		}
		role.Gets, role.Lists, role.Creates, role.Updates, role.Deletes, role.Delivers = fill(objs, trs), fill(objs, trs), fill(objs, trs), fill(objs, trs), fill(objs, trs), fill(trs, objs)
		return role
	}
	wellFormed := func(role *rbacpb.Role) string {
		if role.Id == "" {
			return "create malformed"
		}
		for _, l := range [][]string{role.Gets, role.Lists, role.Creates, role.Updates, role.Deletes} {
			for _, x := range l {
				if !isObj[x] {
					return "create unknown resource"
				}
			}
		}
		for _, x := range role.Delivers {
			if !isTr[x] {
				return "create unknown resource"
			}
		}
		return ""
	}
	invariant := func(v *View, what string) {
		for s, id := range v.Binds {
			if v.Roles[id] == nil || s == "" {
				k.Fail("dangling", "after %s: %q is bound to %q which does not exist", what, s, id)
			}
		}
		for key, role := range v.Roles {
			if key != role.Id || wellFormed(role) != "" {
				k.Fail("malformed", "after %s: malformed role stored under %q: %s", what, key, roleStr(role))
			}
		}
		if len(v.Oddities) != 0 {
			k.Fail("malformed", "after %s: %v", what, v.Oddities)
		}
	}
	// compare checks that exactly the given role and bindings were added.
	compare := func(bv, av *View, role *rbacpb.Role, bind map[string]string, what string) {
		for id, x := range bv.Roles {
			if av.Roles[id] == nil || roleStr(av.Roles[id]) != roleStr(x) {
				k.Fail("altered", "%s altered role %q: %v to %v", what, id, x, av.Roles[id])
			}
		}
		for s, x := range bv.Binds {
			if av.Binds[s] != x {
				k.Fail("altered", "%s altered the binding of %q: %q to %q", what, s, x, av.Binds[s])
			}
		}
		for id, x := range av.Roles {
			if bv.Roles[id] == nil && (role == nil || role.Id != id) {
				k.Fail("added", "%s added role %v", what, x)
			}
		}
		for s, x := range av.Binds {
			if bv.Binds[s] == "" && bind[s] != x {
				k.Fail("added", "%s bound %q to %q", what, s, x)
			}
		}
		if role != nil && !proto.Equal(av.Roles[role.Id], role) {
			k.Fail("stored", "%s stored %v", what, av.Roles[role.Id])
		}
		for s, x := range bind {
			if av.Binds[s] != x {
				k.Fail("stored", "%s left %q bound to %q instead of %q", what, s, av.Binds[s], x)
			}
		}
	}
	invariant(w.View(), "genesis")
	for i := 0; i < k.N(60, 120) && !k.Failed(); i++ {
		bv := w.View()
		m := aclOf(bv)
		// the request
		var msg meta.StateTransition
		var role *rbacpb.Role
		bind := map[string]string{}
		class := ""
		if chance(r, .5) {
			role = genRole()
			if chance(r, .03) {
				role = nil
			}
			msg = &rbacpb.MsgCreateRole{NewRole: role}
			switch {
			case role == nil:
				class = "create malformed"
			case wellFormed(role) != "":
				class = wellFormed(role)
			case bv.Roles[role.Id] != nil:
				class = "create existing"
			}
			if class != "" {
				role = nil
			}
		} else {
			s := subjects[r.Intn(len(subjects))]
			if chance(r, .4) {
				s = fmt.Sprintf("s%d", r.Intn(100))
			}
			id := ids[r.Intn(len(ids))]
			if chance(r, .2) {
				id = pick(r, similar(r, id), "", "r1", "nope")
			}
			if chance(r, .07) {
				s = ""
			}
			msg = &rbacpb.MsgBindRole{RoleId: id, Subject: s}
			switch {
			case bv.Roles[id] == nil:
				class = "bind unknown role"
			case s == "":
				class = "bind no subject"
			case bv.Binds[s] != "":
				class = "bind bound"
			default:
				bind[s] = id
			}
		}
		name := meta.Name(msg)
		kind := "bind"
		if strings.Contains(name, "Create") {
			kind = "create"
		}
		var us []string
		var err error
		via := r.Intn(10)
		sent := proto.Clone(msg).(meta.StateTransition)
		switch {
		case via < 4: // directly
			us = []string{pick(r, "rbac", "rbac", "authn", "zzharness", "bank", "nobody", K(0).Addr, mods[r.Intn(len(mods))])}
			if chance(r, .3) {
				us = append(us, pick(r, "authn", "rbac", "nobody", K(1).Addr))
			}
			err = w.RT.Deliver(user.NewUsersFromString(us...), sent)
		case via < 6: // by a module
			us = []string{"zzharness"}
			cl := w.Mod
			if len(ms) > 0 && chance(r, .5) {
				x := ms[r.Intn(len(ms))]
				us, cl = []string{x.name}, x.c
			}
			var opts []client.DeliverOption
			if chance(r, .4) {
				x := pick(r, "rbac", "authn", "nobody", "bank")
				opts = append(opts, client.DeliverImpersonating(x))
				us = append(us, x)
			}
			err = cl.Deliver(sent, opts...)
		case via < 8: // in a transaction
			s := r.Intn(3)
			us = []string{K(s).Addr}
			t := &TxSpec{Msgs: msgs(sent), Fee: coinList(1, "foo"), Chain: w.Chain, Signers: []SignerSpec{{Key: K(s), Seq: seq[s], AccNum: uint64(s)}}}
			ok := m.allowed(us, "deliver", name)
			if ok {
				class = ""
			}
			if w.Deliver(t.Encode()).Code != 0 {
				err = fmt.Errorf("refused")
			}
			seq[s]++
			k.Count("tx", 1)
			if bv.Binds["fee_collector"] == "" && w.View().Binds["fee_collector"] == "external_account" {
				bv = w.View() // created by the first fee
				delete(bv.Roles, "")
			}
		default: // creating an account binds it
			s := r.Intn(3)
			addr := subjects[r.Intn(len(subjects))]
			if chance(r, .4) {
				addr = fmt.Sprintf("acc%d", r.Intn(60))
			}
			var ms []proto.Message
			if chance(r, .5) {
				ms = msgs(&authnpb.MsgCreateAccount{Account: &authnpb.Account{Address: addr}})
			} else {
				ms = msgs(&bankpb.MsgSendCoins{FromAddress: K(s).Addr, ToAddress: addr, Amount: coinList(1, "foo")})
			}
			want := map[string]string{}
			if bv.Binds[addr] == "" {
				want[addr] = "external_account"
			}
			if bv.Binds["fee_collector"] == "" {
				want["fee_collector"] = "external_account"
			}
			rolled := chance(r, .3)
			if rolled {
				ms = append(ms, &testpb.MsgCreatePost{Title: "fail", Text: fmt.Sprint("p", i)})
				delete(want, addr)
				k.Count("rolled back", 1)
			}
			t := &TxSpec{Msgs: ms, Fee: coinList(1, "foo"), Chain: w.Chain, Signers: []SignerSpec{{Key: K(s), Seq: seq[s], AccNum: uint64(s)}}}
			res := w.Deliver(t.Encode())
			seq[s]++
			what := fmt.Sprintf("transaction with %T to %q (failing %v, code %d)", ms[0], addr, rolled, res.Code)
			av := w.View()
			k.Count("account tx", 1)
			k.Eval(fmt.Sprint(what, k.Idx))
			if (res.Code == 0) == rolled && rolled {
				k.Fail("outcome", "%s", what)
			}
			if res.Code != 0 {
				delete(want, addr)
			}
			// an account never exists without its binding, and the reverse for fresh addresses
			if res.Code == 0 && bv.Binds[addr] == "" && av.Acc[addr] == nil {
				k.Fail("outcome", "%s created no account", what)
			}
			compare(bv, av, nil, want, what)
			invariant(av, what)
			continue
		}
		permitted := m.allowed(us, "deliver", name)
		if !permitted {
			role, bind = nil, nil
		}
		what := fmt.Sprintf("%v by %v (via %d)", msg, us, via)
		k.Eval(what)
		av := w.View()
		accepted := err == nil
		if valid := role != nil || len(bind) > 0; accepted != valid {
			k.Fail("outcome", "%s: permitted %v, class %q, valid %v but error %v", what, permitted, class, valid, err)
		}
		if !accepted && via < 6 {
			if d := diffDump(bv.Raw, av.Raw); len(d) != 0 {
				k.Fail("effect", "%s refused with effects %q", what, d)
			}
		}
		compare(bv, av, role, bind, what)
		invariant(av, what)
		switch {
		case !permitted:
			k.Count(kind+" unauthorized", 1)
		case class != "":
			k.Count(class, 1)
		default:
			k.Count(kind+" ok", 1)
		}
		if role != nil {
			ids = append(ids, role.Id)
		}
	}
}
