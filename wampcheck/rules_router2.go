package main

import (
	"go/token"
	"go/types"
)

// elemPtr is the type of the subscriptions or registrations.
func (r *Router) elemPtr() types.Type { return types.NewPointer(r.elem) }

func (r *Router) inner() types.Type { _, v := mapOf(r.bySession.typ); return v }

// names of the messages of broker and dealer
type rnames struct{ join, joined, leave, left, uri, id string }

func (c *Check) names(r *Router) rnames {
	if r == c.su.bk {
		return rnames{"Subscribe", "Subscribed", "Unsubscribe", "Unsubscribed", "Topic", "SubscriptionID"}
	}
	return rnames{"Register", "Registered", "Unregister", "Unregistered", "Procedure", "RegistrationID"}
}

type joinCase struct {
	r         *Run
	o         *Outcome
	recv, sid *Term
	uri, opts *Term
	rp        reply
	v         *Term // the element the session joined, nil for an error reply
	existing  bool
	s         site
}

// joinCases gives the ways SUBSCRIBE or REGISTER can succeed.
func (c *Check) joinCases(r *Router) []joinCase {
	nm := c.names(r)
	run := c.run("", r.T.Obj().Name(), "ReceiveMessage", nm.join)
	if run.e == nil {
		return nil
	}
	good, bad := c.outcomes(run, 1)
	for _, o := range bad {
		v, known := o.st.isNilTerm(o.rets[0])
		c.must(known && v, "error-result", c.at(run.fn, nm.join).on(o), "a message is returned together with an error")
	}
	var cs []joinCase
	for _, o := range good {
		j := joinCase{r: run, o: o, recv: run.args[0], sid: run.args[1], s: c.at(run.fn, nm.join).on(o)}
		j.uri, j.opts = c.su.get(o.st, run.msg, nm.uri), c.su.get(o.st, run.msg, "Options")
		rp, ok := replyOf(o.st, o.rets[0])
		if !c.must(ok && !rp.isNil && j.uri != nil && j.opts != nil, "answer", j.s, "a %s is answered with neither a message nor an error", nm.join) {
			continue
		}
		j.rp = rp
		if rp.kind != nm.joined && !(rp.kind == "Error" && r == c.su.dl) {
			c.must(false, "answer", j.s, "a %s is answered with %s", nm.join, rp.kind)
			continue
		}
		if rp.kind == nm.joined {
			has, v := o.st.hasKey(o.st.leafVal(r.exact, j.recv), j.uri, r.elemPtr())
			if !c.must(has == yes && v != nil, "findable", j.s, "after a %s the URI is not in the index of all URIs", nm.join) {
				continue
			}
			j.v = v
			j.existing = v.op != OAlloc
		}
		cs = append(cs, j)
	}
	return cs
}

// joins checks one aspect of joining: the members, the indexes, or the order of the callees.
func (c *Check) joins(r *Router, aspect string) {
	nm := c.names(r)
	c.need("join-"+aspect, 2)
	newSeen, oldSeen := 0, 0
	for _, j := range c.joinCases(r) {
		if j.v == nil {
			continue
		}
		st := j.o.st
		rule := "join-" + aspect
		if j.existing {
			oldSeen++
			c.must(j.v.op == OMGet && j.v.args[0] == r.exact.init(j.recv), rule, j.s, "the %s joins something else than the entry for its URI", nm.join)
		} else {
			newSeen++
		}
		ms := st.field(j.v, r.fMembers)
		switch aspect {
		case "member":
			has, val := st.hasKey(ms, j.sid, types.Typ[types.Uint64])
			c.must(has == yes, rule, j.s, "the session is not a member after its %s (%v)", nm.join, has)
			c.must(has != yes || val != nil && st.same(val, j.sid) || val != nil && val.op == OMGet, rule, j.s, "the session is a member under another id")
			if !j.existing {
				ks, ok := st.sortedKeys(ms)
				c.must(ok && len(ks) == 1 && st.same(ks[0], j.sid), rule, j.s, "a new entry has other members than the session")
			}
			id := c.su.get(st, j.rp.msg, nm.id)
			c.must(st.same(id, st.field(j.v, r.fID)), rule, j.s, "the id in the answer is not the id of the entry")
		case "index":
			in := st.leafVal(r.bySession, j.recv)
			has, m := st.hasKey(in, j.sid, r.inner())
			if c.must(has == yes && m != nil, rule, j.s, "the session has no list of its own") {
				has, v := st.hasKey(m, st.field(j.v, r.fID), r.elemPtr())
				c.must(has == yes && st.same(v, j.v), rule, j.s, "the entry is not in the session's list after its %s", nm.join)
			}
			c.must(st.same(st.field(j.v, r.fURI), j.uri) || j.existing, rule, j.s, "a new entry does not have the URI of the request")
			if !j.existing {
				c.must(isNextID(st, st.field(j.v, r.fID)), rule, j.s, "a new entry does not get a fresh id")
				c.newIndexes(r, st, j, rule)
			} else {
				c.must(st.leafVal(r.tree, j.recv) == r.tree.init(j.recv), rule, j.s, "joining an existing entry changes the prefix index")
			}
		case "order":
			cl := st.field(j.v, r.fCallees)
			if !j.existing {
				es, ok := st.elems(cl)
				c.must(ok && len(es) == 1 && st.same(es[0], j.sid), rule, j.s, "a new registration has other callees than the session")
				continue
			}
			old := intern(Term{op: OInit, args: []*Term{mkField(j.v, r.fCallees)}, typ: structOf(r.elem).Field(r.fCallees).Type()})
			for _, ev := range elementStores(st, func(t *Term) bool { return t == cl || t == old }, false) {
				c.must(false, rule, j.s, "the callees are reordered or replaced when one joins (%s)", c.su.p.posStr(ev.Pos))
			}
			was := st.truth(mkHas(intern(Term{op: OInit, args: []*Term{mkField(j.v, r.fMembers)}, typ: structOf(r.elem).Field(r.fMembers).Type()}), j.sid, 0))
			if was == maybe {
				was = st.truth(mkCall("slices.Contains", 0, tBool, old, j.sid))
			}
			if cl == old {
				c.must(was == yes, rule, j.s, "a callee that joins is not added to the callees (registered before: %v)", was)
				continue
			}
			ok := cl.op == OAppend && cl.args[0] == old
			if ok {
				es, known := st.elems(cl.args[1])
				ok = known && len(es) == 1 && st.same(es[0], j.sid)
			}
			c.must(ok, rule, j.s, "a callee that joins is not added at the end of the callees: %v", cl)
			c.must(was == no, rule, j.s, "a callee can be listed twice (registered before: %v)", was)
		}
	}
	c.must(newSeen > 0 && oldSeen > 0, "join-"+aspect, site{tag: nm.join}, "%d ways to create an entry and %d to join one were found", newSeen, oldSeen)
}

// initField is what a field of an entry was at the beginning.
func initField(v *Term, n *types.Named, i int) *Term {
	return intern(Term{op: OInit, args: []*Term{mkField(v, i)}, typ: structOf(n).Field(i).Type()})
}

// newIndexes checks that a new entry is findable by its match policy, and by no other.
func (c *Check) newIndexes(r *Router, st *State, j joinCase, rule string) {
	tree0, w := r.tree.init(j.recv), st.leafVal(r.wildcard, j.recv)
	tree := st.leafVal(r.tree, j.recv)
	match := st.field(j.v, r.fMatch)
	for _, m := range []string{"prefix", "wildcard", "exact"} {
		b := st.under(is(eq(match, mkStr(m))))
		if b == nil {
			continue
		}
		inserted := tree.op == OCall && tree.name == "iradix.Insert" && tree.args[0] == tree0 && b.same(unconvBytes(tree.args[1]), j.uri) && b.same(tree.args[2], j.v)
		has, wv := b.hasKey(w, j.uri, r.elemPtr())
		added := has == yes && b.same(wv, j.v)
		switch m {
		case "prefix":
			c.must(inserted, rule, j.s, "a prefix entry is not in the prefix index")
			c.must(!added, rule, j.s, "a prefix entry is in the wildcard index")
		case "wildcard":
			c.must(added, rule, j.s, "a wildcard entry is not in the wildcard index")
			c.must(tree == tree0, rule, j.s, "a wildcard entry changes the prefix index")
		case "exact":
			c.must(tree == tree0, rule, j.s, "an exact entry changes the prefix index")
			c.must(!added, rule, j.s, "an exact entry is in the wildcard index")
		}
	}
}

func unconvBytes(t *Term) *Term {
	if t.op == OConv {
		return t.args[0]
	}
	return t
}

type leaveCase struct {
	st, from  *State // state after; nil from: at entry
	recv, sid *Term
	v, key    *Term
	tree0     *Term
	loop      *LoopAct
	s         site
}

// leaveCases gives the places where a session leaves an entry: UNSUBSCRIBE/UNREGISTER and removal.
func (c *Check) leaveCases(r *Router) []leaveCase {
	nm := c.names(r)
	var cs []leaveCase
	run := c.run("", r.T.Obj().Name(), "ReceiveMessage", nm.leave)
	if run.e != nil {
		good, bad := c.outcomes(run, 1)
		for _, o := range bad {
			v, known := o.st.isNilTerm(o.rets[0])
			s := c.at(run.fn, nm.leave).on(o)
			c.must(known && v, "error-result", s, "a message is returned together with an error")
			ef := effects(o.st, run.pre)
			c.must(len(ef) == 0, "leave-refused", s, "a refused %s changes %v", nm.leave, ef)
		}
		for _, o := range good {
			s := c.at(run.fn, nm.leave).on(o)
			recv, sid := run.args[0], run.args[1]
			id := c.su.get(o.st, run.msg, nm.id)
			rp, ok := replyOf(o.st, o.rets[0])
			if !c.must(ok && !rp.isNil && rp.kind == nm.left && id != nil, "answer", s, "a %s is not answered with %s", nm.leave, nm.left) {
				continue
			}
			c.must(o.st.same(rp.recipient, sid), "answer", s, "%s does not go to the session that sent %s", nm.left, nm.leave)
			c.must(o.st.same(c.su.get(o.st, rp.msg, "RequestID"), c.su.get(o.st, run.msg, "RequestID")), "answer", s, "%s does not carry the request id of %s", nm.left, nm.leave)
			in := mkGet(r.bySession.init(recv), sid, 0, r.inner())
			v := mkGet(in, id, 0, r.elemPtr())
			if !c.must(o.st.truth(mkHas(in, id, 0)) == yes, "held", s, "a %s is confirmed although the session need not hold what it names", nm.leave) {
				continue
			}
			cs = append(cs, leaveCase{st: o.st, recv: recv, sid: sid, v: o.st.rep(v), key: id, tree0: r.tree.init(recv), s: s})
		}
	}
	run = c.run("", r.T.Obj().Name(), "RemoveSession", "")
	if run.e != nil {
		good, _ := c.outcomes(run, 0)
		seen := map[*LoopAct]bool{}
		for _, o := range good {
			recv, sid := run.args[0], run.args[1]
			s := c.at(run.fn, "").on(o)
			in := mkGet(r.bySession.init(recv), sid, 0, r.inner())
			found := ""
			evs := o.st.Events(0)
			works := false
			for _, e := range evs {
				works = works || e.Kind == EvLoop && e.Loop.Range == in && e.Loop.changes()
			}
			for _, e := range evs {
				if e.Kind != EvLoop || e.Loop.Range != in || works && !e.Loop.changes() {
					continue
				}
				switch e.Name {
				case "done":
					if found == "" {
						found = "done"
					}
				case "break":
					found = "break"
				}
				if e.Name != "done" || seen[e.Loop] {
					continue
				}
				seen[e.Loop] = true
				for i := range e.Loop.Backs {
					b := &e.Loop.Backs[i]
					lc := leaveCase{st: b.St, recv: recv, sid: sid, loop: e.Loop, s: s}
					for l := b.St.events; l != nil && l.n > b.Mark; l = l.prev {
						if l.ev.Pos.IsValid() {
							lc.s.pos = l.ev.Pos
							break
						}
					}
					lc.s.o = &Outcome{st: b.St}
					// the key of this round
					for f := range b.St.facts {
						if f.op == OMHas && f.args[0] == in && f.args[1].op == OKey && b.St.facts[f] {
							lc.key = f.args[1]
							lc.v = b.St.rep(mkGet(in, lc.key, f.n, r.elemPtr()))
						}
					}
					lc.tree0 = r.tree.init(recv)
					for sym, lv := range b.St.loopOf {
						if lv.Loop == e.Loop && lv.Addr == r.tree.at(recv) {
							lc.tree0 = sym
						}
					}
					if c.must(lc.key != nil, "leave-loop", lc.s, "a round of the loop over the session's entries was not recognised") {
						cs = append(cs, lc)
					}
				}
			}
			if found == "" && o.st.truth(mkCmp(token.LSS, mkInt(0), o.st.rep(mkLen(in, 0)))) == no {
				continue // there is nothing to go through
			}
			c.must(found == "done", "leave-loop", s, "removing a session does not go through all its %ss (%s)", r.elem.Obj().Name(), found)
		}
	}
	return cs
}

func (c *Check) leaves(r *Router, aspect string) {
	c.need("leave-"+aspect, 3)
	rule := "leave-" + aspect
	kinds := map[bool]int{}
	for _, l := range c.leaveCases(r) {
		st := l.st
		kinds[l.loop != nil]++
		switch aspect {
		case "member":
			has, _ := st.hasKey(st.field(l.v, r.fMembers), l.sid, types.Typ[types.Uint64])
			c.must(has == no, rule, l.s, "the session is still a member after it left (%v)", has)
			for _, e := range c.otherMembers(r, st, l) {
				c.must(false, rule, l.s, "%s", e)
			}
		case "order":
			if r.fCallees < 0 {
				continue
			}
			ok, why := c.removedCallee(r, st, l)
			c.must(ok, rule, l.s, "the list of callees is not what is left without the session: %s", why)
		case "index":
			c.leftIndexes(r, st, l, rule)
		}
	}
	c.must(kinds[true] > 0 && kinds[false] > 0, rule, site{tag: "leave"}, "leaving by request (%d ways) and by removal (%d ways) were not both found", kinds[false], kinds[true])
}

// otherMembers: nobody else is removed from the entry.
func (c *Check) otherMembers(r *Router, st *State, l leaveCase) []string {
	ms := st.field(l.v, r.fMembers)
	m, ok := st.maps[ms]
	if !ok {
		return nil
	}
	var r2 []string
	if m.known {
		r2 = append(r2, "all members are dropped")
	}
	for _, u := range m.log {
		if u.del && !st.same(u.key, l.sid) {
			r2 = append(r2, "another member than the leaving session is dropped")
		}
		if !u.del {
			r2 = append(r2, "a member is added while a session leaves")
		}
	}
	return r2
}

func (c *Check) removedCallee(r *Router, st *State, l leaveCase) (bool, string) {
	cl := st.field(l.v, r.fCallees)
	isOld := func(t *Term) bool {
		return t.op == OInit && t.args[0].op == OField && t.args[0].n == r.fCallees && t.args[0].args[0] == l.v
	}
	shift, swapped := cl.op == OSub && isOld(cl.args[0]), false
	for _, ev := range elementStores(st, func(t *Term) bool { return t == cl || isOld(t) }, false) {
		// the callees behind the one that leaves may be moved to the front by one place
		dst, src := ev.Addr.args[0], ev.Val
		if shift && dst.op == OSub && src.op == OSub && dst.args[0] == src.args[0] && src.args[2].isNil() && src.args[1] == mkAdd(dst.args[1], 1, tInt) {
			continue
		}
		// the last callee may take the place of the one that leaves, where the order is of no matter
		if i := ev.Addr.args[1]; c.prop == "C08" && shift && isOld(dst) && src.op == OInit && src.args[0].op == OIndex && src.args[0].args[0] == dst &&
			st.same(src.args[0].args[1], st.norm(mkAdd(st.sliceLen(dst), -1, tInt))) && (i.op == OCall && i.name == "slices.Index" && i.args[1] == l.sid ||
			st.truth(eq(intern(Term{op: OInit, args: []*Term{mkIndex(dst, i)}, typ: types.Typ[types.Uint64]}), l.sid)) == yes) {
			swapped = true
			continue
		}
		return false, "the callees are reordered or replaced (" + c.su.p.posStr(ev.Pos) + ")"
	}
	switch {
	case shift:
		old := cl.args[0]
		lo, _ := cl.args[1].constInt()
		if lo != 0 || !st.same(cl.args[2], st.norm(mkAdd(st.sliceLen(old), -1, tInt))) {
			return false, "not all but the last callee are kept"
		}
		moved := 0
		var i *Term
		for _, ev := range st.Events(0) {
			if ev.Kind == EvStore && ev.Addr.op == OIndex && ev.Addr.args[0].op == OSub && ev.Addr.args[0].args[0] == old {
				moved++
				i = ev.Addr.args[0].args[1]
			}
		}
		if swapped {
			return true, ""
		}
		if moved != 1 {
			return false, "the last callee is dropped instead of the one that leaves"
		}
		if i.op == OCall && i.name == "slices.Index" && i.args[1] != l.sid || st.truth(eq(intern(Term{op: OInit, args: []*Term{mkIndex(old, i)}, typ: types.Typ[types.Uint64]}), l.sid)) == no {
			return false, "another callee is cut out"
		}
		return true, ""
	case cl.op == OFilter && isOld(cl.args[0]):
		el, p := cl.args[1], cl.args[2]
		a := st.under(is(eq(el, l.sid)))
		b := st.under(not(eq(el, l.sid)))
		if a == nil || a.truth(p) != yes {
			return false, "the session itself is kept"
		}
		if b == nil || b.truth(p) != no {
			return false, "others are removed too"
		}
		return true, ""
	case isOld(cl):
		if st.truth(mkCall("slices.Contains", 0, tBool, cl, l.sid)) == no {
			return true, ""
		}
		if searched(st, cl, l.sid) {
			return true, ""
		}
		return false, "it is left as it was"
	case cl.op == OAppend && cl.args[0].op == OSub && cl.args[1].op == OSub && isOld(cl.args[0].args[0]) && cl.args[0].args[0] == cl.args[1].args[0]:
		a, b := cl.args[0], cl.args[1]
		i := a.args[2]
		if v, ok := a.args[1].constInt(); !ok || v != 0 {
			return false, "the callees before the first are dropped"
		}
		if !b.args[2].isNil() || b.args[1] != mkAdd(i, 1, tInt) {
			return false, "not exactly one callee is cut out"
		}
		if i.op == OCall && i.name == "slices.Index" && i.args[1] != l.sid {
			return false, "another callee is cut out"
		}
		el := intern(Term{op: OInit, args: []*Term{mkIndex(a.args[0], i)}, typ: types.Typ[types.Uint64]})
		if st.truth(eq(el, l.sid)) == no {
			return false, "another callee is cut out"
		}
		return true, ""
	}
	if lv := st.loopOf[cl]; lv != nil {
		// rebuilt by a loop over the old list that leaves the session out
		for _, b := range lv.Loop.Backs {
			var next *Term
			for i, ph := range lv.Loop.Phis {
				if ph.Phi == lv.Phi {
					next = b.Next[i]
				}
			}
			if next == nil && lv.Addr != nil {
				next = b.St.mem[lv.Addr]
			}
			if next == nil {
				return false, "the loop that builds it was not understood"
			}
			var elem *Term
			for f := range b.St.facts {
				if f.op == OBin && f.tok == token.EQL && (f.args[0] == l.sid || f.args[1] == l.sid) {
					elem = f
				}
			}
			if elem == nil {
				return false, "the loop that builds it does not look for the session"
			}
			isSid := b.St.facts[elem]
			grows := next.op == OAppend
			if grows == isSid {
				return false, "the loop that builds it keeps the wrong callees"
			}
			if grows {
				es, known := b.St.elems(next.args[1])
				lv2 := b.St.loopOf[next.args[0]]
				if lv2 == nil || lv2.Loop != lv.Loop || !known || len(es) != 1 || !mentions(elem, es[0]) {
					return false, "the loop that builds it changes the order or the callees themselves"
				}
			}
		}
		return true, ""
	}
	return false, cl.String()
}

// searched: a loop went through the whole list and did not find the element.
func searched(st *State, list, x *Term) bool {
	for _, ev := range st.Events(0) {
		if ev.Kind != EvLoop || ev.Name != "done" || ev.Loop == nil {
			continue
		}
		l := ev.Loop
		all := len(l.Backs) > 0
		for _, b := range l.Backs {
			unlike := false
			for i, ph := range l.Phis {
				n, ok := ph.Init.constInt()
				if !ok || b.Next[i] != mkAdd(ph.Sym, 1, typeOfTerm(ph.Sym)) {
					continue
				}
				at := intern(Term{op: OInit, args: []*Term{mkIndex(list, mkAdd(ph.Sym, -n, typeOfTerm(ph.Sym)))}, typ: elemOf(typeOfTerm(list))})
				end := st.truth(mkCmp(token.LSS, mkAdd(ph.Sym, -n, typeOfTerm(ph.Sym)), st.sliceLen(list))) == no
				unlike = unlike || end && b.St.truth(eq(at, x)) == no
			}
			all = all && unlike
		}
		if all {
			return true
		}
	}
	return false
}

// leftIndexes: the entry is dropped from every index when it has no member left, and from none otherwise.
func (c *Check) leftIndexes(r *Router, st *State, l leaveCase, rule string) {
	// the session's own list
	if l.loop == nil {
		has, m := st.hasKey(st.leafVal(r.bySession, l.recv), l.sid, r.inner())
		if has == yes && m != nil {
			has, _ := st.hasKey(m, l.key, r.elemPtr())
			c.must(has == no, rule, l.s, "the entry stays in the session's own list (%v)", has)
		} else {
			c.must(has == no, rule, l.s, "the session's own list is unclear")
		}
	}
	uri := intern(Term{op: OInit, args: []*Term{mkField(l.v, r.fURI)}, typ: tString})
	match := intern(Term{op: OInit, args: []*Term{mkField(l.v, r.fMatch)}, typ: tString})
	ms := st.field(l.v, r.fMembers)
	ex, w := st.leafVal(r.exact, l.recv), st.leafVal(r.wildcard, l.recv)
	tree := st.leafVal(r.tree, l.recv)
	deleted := tree.op == OCall && tree.name == "iradix.Delete" && tree.args[0] == l.tree0 && st.same(unconvBytes(tree.args[1]), uri)
	for _, n := range st.clone().mapLen(ms) {
		for _, b := range n.st.split(eq(n.n, mkInt(0))) {
			for _, m := range []string{"prefix", "wildcard", "exact"} {
				t := b.st.under(is(eq(match, mkStr(m))))
				if t == nil {
					continue
				}
				has, v := t.hasKey(ex, uri, r.elemPtr())
				wh, _ := t.hasKey(w, uri, r.elemPtr())
				if b.v {
					c.must(has == no, rule, l.s, "an entry (%s) that lost its last member stays in the index of all URIs (%v)", m, has)
					if m == "prefix" {
						c.must(deleted, rule, l.s, "a prefix entry that lost its last member stays in the prefix index")
					}
					if m == "wildcard" {
						c.must(wh == no, rule, l.s, "a wildcard entry that lost its last member stays in the wildcard index (%v)", wh)
					}
				} else {
					c.must(has == yes && t.same(v, l.v), rule, l.s, "an entry (%s) that still has members is dropped from the index of all URIs (%v)", m, has)
					if m == "wildcard" {
						c.must(wh != no, rule, l.s, "a wildcard entry that still has members is dropped from the wildcard index")
					}
				}
				if !(b.v && m == "prefix") {
					c.must(tree == l.tree0 || deleted && b.v, rule, l.s, "the prefix index is changed for an entry (%s) with members: %v", m, !b.v)
				}
			}
		}
	}
}

func ruleIndexes(c *Check, r *Router, query string) {
	if !c.routerParts(r) {
		return
	}
	c.joins(r, "member")
	c.joins(r, "index")
	c.leaves(r, "member")
	c.leaves(r, "index")
	run := c.run("", r.T.Obj().Name(), query, "")
	if run.e == nil {
		return
	}
	for i := range run.outs {
		o := &run.outs[i]
		has := mkHas(r.exact.init(run.args[0]), run.args[1], 0)
		v := mkGet(r.exact.init(run.args[0]), run.args[1], 0, r.elemPtr())
		for _, b := range o.st.clone().split(has) {
			if b.v && r.noMembers(b.st, v) {
				continue
			}
			t := b.st.truth(b.st.rep(o.rets[0]))
			if b.v && t == maybe {
				// entries in the index have members
				ms := intern(Term{op: OInit, args: []*Term{mkField(v, r.fMembers)}, typ: structOf(r.elem).Field(r.fMembers).Type()})
				if x := b.st.under(is(mkCmp(token.LSS, mkInt(0), mkLen(ms, 0)))); x != nil {
					t = x.truth(x.rep(o.rets[0]))
				}
			}
			c.must(t == yes && b.v || t == no && !b.v, "query", c.at(run.fn, "").on(o), "%s answers %v for a URI that is registered: %v", query, t, b.v)
		}
	}
	c.need("query", 2)
}

func ruleC02(c *Check) {
	c.frame(c.su.bk, "members", "entries", "indexes")
	ruleIndexes(c, c.su.bk, "HasSubscription")
}

func ruleC09(c *Check) {
	c.frame(c.su.dl, "members", "entries", "indexes")
	ruleIndexes(c, c.su.dl, "HasProcedure")
}

func ruleC06(c *Check) {
	c.frame(c.su.bk, "sessions")
	c.frame(c.su.dl, "sessions")
	for _, r := range []*Router{c.su.bk, c.su.dl} {
		if !c.routerParts(r) {
			return
		}
		T := r.T.Obj().Name()
		type ent struct{ name, msg string }
		es := []ent{{"ReceiveMessage", "Subscribe"}, {"ReceiveMessage", "Unsubscribe"}, {"ReceivePublish", "Publish"}}
		if r == c.su.dl {
			es = []ent{{"ReceiveMessage", "Register"}, {"ReceiveMessage", "Unregister"}, {"ReceiveMessage", "Call"}}
		}
		for _, en := range es {
			run := c.run("", T, en.name, en.msg)
			if run.e == nil {
				continue
			}
			n := 0
			for i := range run.outs {
				o := &run.outs[i]
				st := o.st.under(not(r.attached(run.args[0], run.args[1])))
				if st == nil || o.panicked {
					continue
				}
				n++
				s := c.at(run.fn, en.msg).on(o)
				f, known := failed(Outcome{st: st, rets: o.rets}, 1)
				c.must(known && f, "refused", s, "a %s from a session that is not attached is accepted", en.msg)
				v, known := st.isNilTerm(o.rets[0])
				c.must(known && v, "refused", s, "a %s from a session that is not attached leads to a message", en.msg)
				ef := effects(o.st, run.pre)
				c.must(len(ef) == 0, "untouched", s, "a %s from a session that is not attached changes %v", en.msg, ef)
			}
			c.must(n > 0, "refused", c.at(run.fn, en.msg), "no way to handle a %s from an unattached session was found", en.msg)
		}
		// attaching
		run := c.run("", T, "AddSession", "")
		if run.e != nil {
			for i := range run.outs {
				o := &run.outs[i]
				s := c.at(run.fn, "").on(o)
				id := c.su.get(o.st, run.args[1], "ID")
				if !c.must(id != nil, "attach", s, "the session id was not recognised") {
					continue
				}
				for _, b := range o.st.clone().split(r.attached(run.args[0], id)) {
					f, known := failed(Outcome{st: b.st, rets: o.rets}, 0)
					c.must(known && f == b.v, "attach", s, "attaching a session that is attached: %v, fails: %v", b.v, f)
					if b.v {
						ef := effects(o.st, run.pre)
						c.must(len(ef) == 0, "attach", s, "attaching a session a second time changes %v", ef)
						continue
					}
					has, v := b.st.hasKey(b.st.leafVal(r.sessions, run.args[0]), id, types.NewPointer(c.su.p.typ("", "SessionDetails")))
					c.must(has == yes && b.st.same(v, run.args[1]), "attach", s, "after attaching, the session is not known by its details")
					has, m := b.st.hasKey(b.st.leafVal(r.bySession, run.args[0]), id, r.inner())
					if c.must(has == yes && m != nil, "attach", s, "after attaching, the session has no list of its own") {
						ks, ok := b.st.sortedKeys(m)
						c.must(ok && len(ks) == 0 && m.op == OMapNew, "attach", s, "after attaching, the session's list is not new and empty")
					}
				}
			}
		}
		run = c.run("", T, "RemoveSession", "")
		if run.e != nil {
			for i := range run.outs {
				o := &run.outs[i]
				s := c.at(run.fn, "").on(o)
				for _, b := range o.st.clone().split(r.attached(run.args[0], run.args[1])) {
					f, known := failed(Outcome{st: b.st, rets: o.rets}, 0)
					c.must(known && f != b.v, "detach", s, "removing a session that is attached: %v, fails: %v", b.v, f)
					if !b.v {
						ef := effects(o.st, run.pre)
						c.must(len(ef) == 0, "detach", s, "removing a session that is not attached changes %v", ef)
						continue
					}
					for _, l := range []*leaf{r.sessions, r.bySession} {
						_, vt := mapOf(l.typ)
						has, _ := b.st.hasKey(b.st.leafVal(l, run.args[0]), run.args[1], vt)
						c.must(has == no, "detach", s, "after removal the session is still in %s (%v)", l.name, has)
					}
				}
			}
		}
	}
	c.need("refused", 6)
	c.need("attach", 2)
	c.need("detach", 2)
}

func ruleC07(c *Check) {
	c.frame(c.su.dl, "policy", "members")
	d := c.su.dl
	if !c.routerParts(d) || !c.must(d.fPolicy >= 0, "anchor", site{tag: "policy"}, "the invocation policy of a registration was not found") {
		return
	}
	cs := c.joinCases(d)
	c.need("refused", 2)
	c.need("accepted", 2)
	c.need("new", 1)
	for _, j := range cs {
		st := j.o.st
		reg := mkGet(d.exact.init(j.recv), j.uri, 0, d.elemPtr())
		pol := intern(Term{op: OInit, args: []*Term{mkField(reg, d.fPolicy)}, typ: tString})
		want := option(j.opts, "invoke", tString)
		has := mkHas(d.exact.init(j.recv), j.uri, 0)
		c.must(st.same(j.rp.recipient, j.sid), "answer", j.s, "the answer to REGISTER does not go to the session that sent it")
		c.must(st.same(c.su.get(st, j.rp.msg, "RequestID"), c.su.get(st, j.r.msg, "RequestID")), "answer", j.s, "the answer to REGISTER does not carry its request id")
		if j.rp.kind == "Error" {
			uri, _ := constStr(st, c.su.get(st, j.rp.msg, "URI"))
			mt, _ := constIntOf(st, c.su.get(st, j.rp.msg, "MessageType"))
			c.must(uri == "wamp.error.procedure_already_exists" && mt == 64, "refused", j.s, "REGISTER is refused with type %d and %q", mt, uri)
			ef := effects(st, j.r.pre)
			c.must(len(ef) == 0, "refused", j.s, "a refused REGISTER changes %v", ef)
			c.must(st.under(not(has)) == nil, "refused", j.s, "a procedure that is not registered is refused")
			// refused only for a good reason
			if x := st.under(is(has), not(eq(pol, mkStr(""))), not(eq(pol, mkStr("single"))), is(eq(pol, want))); x != nil && pathUses(st, pol) {
				c.must(false, "refused", j.s, "a REGISTER that names the shared policy of the registration is refused")
			}
			continue
		}
		for _, bad := range [][]cond{{is(eq(pol, mkStr("")))}, {is(eq(pol, mkStr("single")))}, {not(eq(pol, want))}} {
			x := st.under(append([]cond{is(has)}, bad...)...)
			c.must(x == nil, "accepted", j.s, "a second callee is accepted although the registration is not shared under the policy it names")
		}
		if x := st.under(not(has)); x != nil && !j.existing {
			c.must(x.same(st.field(j.v, d.fPolicy), want), "new", j.s, "a new registration does not have the policy that was asked for")
		}
		if j.existing {
			now := st.field(j.v, d.fPolicy)
			c.must(st.same(now, pol), "accepted", j.s, "joining a registration changes its policy")
		}
	}
	c.joins(d, "member")
	c.joins(d, "index")
}

func pathUses(st *State, t *Term) bool {
	for f := range st.facts {
		if f.contains(t) {
			return true
		}
	}
	return true
}

func ruleC08(c *Check) {
	c.frame(c.su.dl, "members", "callees")
	d := c.su.dl
	if !c.routerParts(d) {
		return
	}
	c.leaves(d, "member")
	c.leaves(d, "order")
	c.need("held", 1)
	c.need("leave-refused", 2)
	// the recipients of invocations are callees (an open progressive call only as long as its callee is registered)
	r, cs := c.callCases()
	c.need("recipient", 3)
	for _, k := range cs {
		if k.kind != "Invocation" || k.reg == nil {
			continue
		}
		st := k.o.st
		rc := st.rep(k.recipient)
		callees := intern(Term{op: OInit, args: []*Term{mkField(k.reg, d.fCallees)}, typ: structOf(d.elem).Field(d.fCallees).Type()})
		if rc.op == OInit && rc.args[0].op == OIndex && rc.args[0].args[0] == callees {
			c.must(true, "recipient", k.s, "")
			continue
		}
		members := intern(Term{op: OInit, args: []*Term{mkField(k.reg, d.fMembers)}, typ: structOf(d.elem).Field(d.fMembers).Type()})
		in := st.truth(mkHas(members, rc, 0)) == yes || st.truth(mkCall("slices.Contains", 0, tBool, callees, rc)) == yes
		c.must(in, "recipient", k.s, "an invocation goes to %v, which need not be a callee of the registration any more", rc)
	}
	_ = r
}

// answerCase is a YIELD or ERROR that is accepted.
type answerCase struct {
	r         *Run
	o         *Outcome
	recv, sid *Term
	id        *Term
	p         pend
	rp        reply
	s         site
}

func (c *Check) answerCases(msg string) (cs []answerCase, refused []*Outcome, r *Run) {
	d := c.su.dl
	r = c.run("", "Dealer", "ReceiveMessage", msg)
	if r.e == nil {
		return
	}
	good, bad := c.outcomes(r, 1)
	refused = bad
	for _, o := range good {
		a := answerCase{r: r, o: o, recv: r.args[0], sid: r.args[1], s: c.at(r.fn, msg).on(o)}
		a.id = c.su.get(o.st, r.msg, "RequestID")
		var ok bool
		a.rp, ok = replyOf(o.st, o.rets[0])
		if !c.must(ok && !a.rp.isNil, "answer", a.s, "a %s is accepted without a message to the caller", msg) {
			continue
		}
		pm := d.pending.init(a.recv)
		if !c.must(o.st.truth(mkHas(pm, a.id, 0)) == yes, "open", a.s, "a %s is accepted for an invocation that need not be open", msg) {
			continue
		}
		p := mkGet(pm, a.id, 0, types.NewPointer(d.pend))
		f := func(n string) *Term {
			i := fieldNamed(d.pend, n)
			return intern(Term{op: OInit, args: []*Term{mkField(p, i)}, typ: structOf(d.pend).Field(i).Type()})
		}
		a.p = pend{ptr: p, reqID: f("RequestID"), caller: f("CallerID"), callee: f("CalleeID"), progress: f("Progress"), receiveProgress: f("ReceiveProgress")}
		cs = append(cs, a)
	}
	return
}

func (c *Check) dealerReady() bool {
	return c.routerParts(c.su.dl) && c.must(c.su.dl.byCall != nil && c.su.dl.pending != nil, "anchor", site{tag: "pending"}, "the records of open calls were not found")
}

func ruleC12(c *Check) {
	c.frame(c.su.dl, "calls", "call", "callee")
	if !c.dealerReady() {
		return
	}
	c.pendingRecords("record")
	c.need("record", 6)
	c.need("addressed", 2)
	c.need("payload", 4)
	for _, msg := range []string{"Yield", "Error"} {
		cs, refused, r := c.answerCases(msg)
		for _, o := range refused {
			v, known := o.st.isNilTerm(o.rets[0])
			c.must(known && v, "error-result", c.at(r.fn, msg).on(o), "a message is returned together with an error")
			c.refusedAnswer(r, msg, o)
		}
		c.must(len(cs) > 0, "accepted", c.at(r.fn, msg), "every %s is refused", msg)
		for _, a := range cs {
			st := a.o.st
			c.must(st.same(a.rp.recipient, a.p.caller), "addressed", a.s, "the answer to an invocation does not go to the session that called")
			c.must(st.same(c.su.get(st, a.rp.msg, "RequestID"), a.p.reqID), "addressed", a.s, "the answer does not carry the request id of the call")
			if msg == "Yield" {
				c.must(a.rp.kind == "Result", "kind", a.s, "a YIELD is answered with %s", a.rp.kind)
				if v, ok := constBoolOf(st, c.su.get(st, a.rp.msg, "PayloadIsBinary")); ok && v {
					c.must(st.same(c.su.get(st, a.rp.msg, "Payload"), c.su.get(st, r.msg, "Payload")), "payload", a.s, "the payload of the RESULT is not that of the YIELD")
					continue
				}
			} else {
				c.must(a.rp.kind == "Error", "kind", a.s, "an ERROR is answered with %s", a.rp.kind)
				mt, _ := constIntOf(st, c.su.get(st, a.rp.msg, "MessageType"))
				c.must(mt == 48, "kind", a.s, "the caller gets an ERROR for message type %d", mt)
				got := st.truth(eq(c.su.get(st, r.msg, "MessageType"), mkUint64(68)))
				c.must(got == yes, "kind", a.s, "an ERROR that does not answer an INVOCATION is accepted (%v)", got)
				for _, f := range []string{"Details", "URI"} {
					c.must(st.sameDict(c.su.get(st, a.rp.msg, f), c.su.get(st, r.msg, f)), "payload", a.s, "the %s of the ERROR are not the callee's", f)
				}
			}
			for _, f := range []string{"Args", "KwArgs"} {
				c.must(st.same(c.su.get(st, a.rp.msg, f), c.su.get(st, r.msg, f)), "payload", a.s, "the %s are not the callee's", f)
			}
		}
	}
}

// refusedAnswer: the answer of the invoked callee is refused only when the invocation is not open or the caller is gone.
func (c *Check) refusedAnswer(r *Run, msg string, o *Outcome) {
	d := c.su.dl
	id := c.su.get(o.st, r.msg, "RequestID")
	if !c.must(id != nil, "anchor", c.at(r.fn, msg), "the request id of %s was not recognised", msg) {
		return
	}
	pm := d.pending.init(r.args[0])
	p := mkGet(pm, id, 0, types.NewPointer(d.pend))
	f := func(n string) *Term {
		i := fieldNamed(d.pend, n)
		return intern(Term{op: OInit, args: []*Term{mkField(p, i)}, typ: structOf(d.pend).Field(i).Type()})
	}
	conds := []cond{is(mkHas(pm, id, 0)), not(eq(p, mkNil())), is(eq(f("CalleeID"), r.args[1])),
		is(d.attached(r.args[0], f("CallerID"))), is(d.attached(r.args[0], r.args[1])),
		is(mkHas(d.bySession.init(r.args[0]), f("CallerID"), 0)), is(mkHas(d.bySession.init(r.args[0]), r.args[1], 0))}
	if mt := c.su.get(o.st, r.msg, "MessageType"); msg == "Error" && mt != nil {
		conds = append(conds, is(eq(mt, mkUint64(68))))
	}
	c.must(o.st.under(conds...) == nil, "accepted", c.at(r.fn, msg).on(o), "a %s of the invoked callee is refused although its invocation is open", msg)
}

func constBoolOf(st *State, t *Term) (bool, bool) {
	if t == nil {
		return false, false
	}
	return st.decide(st.rep(t))
}

// openAfter tells whether an invocation is open at the end of a path.
func (c *Check) openAfter(st *State, recv, id *Term) tri {
	has, _ := st.hasKey(st.leafVal(c.su.dl.pending, recv), id, types.NewPointer(c.su.dl.pend))
	return has
}

func ruleC13(c *Check) {
	c.frame(c.su.dl, "calls")
	if !c.dealerReady() {
		return
	}
	c.need("ended", 2)
	c.need("open", 1)
	for _, msg := range []string{"Yield", "Error"} {
		cs, _, r := c.answerCases(msg)
		for _, a := range cs {
			if msg == "Error" {
				c.must(c.openAfter(a.o.st, a.recv, a.id) == no, "ended", a.s, "an ERROR leaves its invocation open")
				continue
			}
			opts := c.su.get(a.o.st, r.msg, "Options")
			if !c.must(opts != nil, "options", a.s, "the options of the YIELD were not recognised") {
				continue
			}
			p := option(opts, "progress", tBool)
			for _, v := range []struct {
				cs   []cond
				open bool
			}{{[]cond{is(p), is(a.p.receiveProgress)}, true}, {[]cond{is(p), not(a.p.receiveProgress)}, false}, {[]cond{not(p)}, false}} {
				st := a.o.st.under(v.cs...)
				if st == nil {
					continue
				}
				now := c.openAfter(st, a.recv, a.id)
				d := c.su.get(st, a.rp.msg, "Details")
				if d == nil {
					d = c.su.get(st, a.rp.msg, "Options")
				}
				marked := maybe
				if d != nil {
					has, val := st.hasKey(st.rep(d), mkStr("progress"), types.NewInterfaceType(nil, nil))
					marked = has
					if has == yes {
						marked = st.truth(st.rep(unbox(val)))
					}
				}
				if v.open {
					c.must(now != no, "open", a.s, "a progressive YIELD ends its invocation (%v)", now)
					c.must(marked == yes, "marked", a.s, "the RESULT of a progressive YIELD is not marked progress (%v)", marked)
				} else {
					c.must(now == no, "ended", a.s, "a final YIELD leaves its invocation open (%v)", now)
					c.must(marked == no, "marked", a.s, "the RESULT of a final YIELD is marked progress (%v)", marked)
				}
			}
		}
	}
}

// released: nothing is remembered about an invocation.
func (c *Check) released(st *State, recv, id *Term, p pend, rule string, s site) {
	d := c.su.dl
	now := c.openAfter(st, recv, id)
	c.must(now == no, rule, s, "the invocation stays open (%v)", now)
	key := c.callKey(st, p.caller, p.reqID)
	has, v := st.hasKey(st.leafVal(d.byCall, recv), key, types.Typ[types.Uint64])
	ok := has == no
	if !ok && v != nil {
		x, known := st.decide(eq(v, id))
		ok = known && !x
	}
	c.must(ok, rule, s, "the invocation id stays recorded for the call (%v)", has)
}

func ruleC15(c *Check) {
	c.frame(c.su.dl, "calls")
	if !c.dealerReady() {
		return
	}
	d := c.su.dl
	c.need("final", 3)
	c.need("removal", 3)
	c.need("sent", 3)
	for _, msg := range []string{"Yield", "Error"} {
		cs, refused, _ := c.answerCases(msg)
		for _, a := range cs {
			if c.openAfter(a.o.st, a.recv, a.id) == yes || c.openAfter(a.o.st, a.recv, a.id) == maybe && msg == "Yield" {
				continue // C13 decides whether it may stay open
			}
			c.released(a.o.st, a.recv, a.id, a.p, "final", a.s)
		}
		_ = refused
	}
	// a call that is not sent leaves nothing; one that continues adds nothing
	r, cs := c.callCases()
	_, bad := c.outcomes(r, 1)
	for _, o := range bad {
		ef := effects(o.st, r.pre)
		var kept []string
		for _, e := range ef {
			if e == d.pending.init(r.args[0]).String() || e == d.byCall.init(r.args[0]).String() {
				kept = append(kept, e)
			}
		}
		c.must(len(kept) == 0, "sent", c.at(r.fn, "Call").on(o), "a call that fails leaves %v behind", kept)
	}
	for _, k := range cs {
		pm := k.o.st.maps[d.pending.init(k.recv)]
		n := 0
		if pm != nil {
			for _, u := range pm.log {
				if !u.del {
					n++
					c.must(k.kind == "Invocation" && k.o.st.same(u.key, c.su.get(k.o.st, k.msg, "RequestID")), "sent", k.s, "a record is kept for an invocation that is not sent")
				}
			}
		}
		c.must(n <= 1, "sent", k.s, "more than one record is kept for one call")
	}
	// removing a session
	run := c.run("", "Dealer", "RemoveSession", "")
	if run.e == nil {
		return
	}
	good, _ := c.outcomes(run, 0)
	recv, sid := run.args[0], run.args[1]
	pm := d.pending.init(recv)
	for _, o := range good {
		s := c.at(run.fn, "").on(o)
		found := ""
		evs := o.st.Events(0)
		works := false
		over := func(e Event) bool {
			return e.Kind == EvLoop && (e.Loop.Range == pm || e.Loop.list != nil && e.Loop.list.m == pm)
		}
		for _, e := range evs {
			works = works || over(e) && e.Loop.changes()
		}
		for _, e := range evs {
			if !over(e) || works && !e.Loop.changes() {
				continue
			}
			if e.Name == "break" {
				found = "break"
			}
			if e.Name != "done" {
				continue
			}
			if found == "" {
				found = "done"
			}
			rounds := e.Loop.rounds()
			for _, b := range rounds {
				var key *Term
				ver := 0
				for f, v := range b.St.facts {
					if v && f.op == OMHas && f.args[0] == pm && f.args[1].op == OKey {
						key, ver = f.args[1], f.n
					}
				}
				if !c.must(key != nil, "removal", s, "a round of the loop over the open calls was not recognised") {
					continue
				}
				p := b.St.rep(mkGet(pm, key, ver, types.NewPointer(d.pend)))
				rec, ok := c.pendRec(b.St, p)
				if !c.must(ok, "removal", s, "the record of an invocation was not recognised") {
					continue
				}
				bs := s
				bs.o = &Outcome{st: b.St}
				for _, cs := range [][]cond{{is(eq(rec.caller, sid))}, {is(eq(rec.callee, sid))}} {
					if st := b.St.under(cs...); st != nil {
						c.released(st, recv, key, rec, "removal", bs)
					}
				}
				if st := b.St.under(not(eq(rec.caller, sid)), not(eq(rec.callee, sid))); st != nil {
					c.must(c.openAfter(st, recv, key) != no, "removal", bs, "removing a session drops a call between two other sessions")
				}
			}
		}
		c.must(found == "done", "removal", s, "removing a session does not go through all open calls")
	}
}

func ruleC16(c *Check) {
	c.frame(c.su.dl, "callee")
	if !c.dealerReady() {
		return
	}
	for _, msg := range []string{"Yield", "Error"} {
		cs, refused, r := c.answerCases(msg)
		c.need("sender", 2)
		for _, a := range cs {
			st := a.o.st.under(not(eq(a.p.callee, a.sid)))
			c.must(st == nil, "sender", site{fn: r.fn, pos: r.fn.Pos(), tag: msg, o: a.o}, "a %s is accepted from a session the invocation was not sent to", msg)
		}
		for _, o := range refused {
			pm := c.su.dl.pending.init(r.args[0])
			id := c.su.get(o.st, r.msg, "RequestID")
			p := mkGet(pm, id, 0, types.NewPointer(c.su.dl.pend))
			i := fieldNamed(c.su.dl.pend, "CalleeID")
			callee := intern(Term{op: OInit, args: []*Term{mkField(p, i)}, typ: types.Typ[types.Uint64]})
			if st := o.st.under(is(mkHas(pm, id, 0)), not(eq(callee, r.args[1]))); st != nil {
				if msg == "Yield" && o.st.truth(eq(callee, r.args[1])) == maybe {
					continue // the sender was not asked for, which is reported above
				}
				ef := effects(o.st, r.pre)
				c.must(len(ef) == 0, "stays-open", c.at(r.fn, msg).on(o), "a %s from another session is refused but changes %v", msg, ef)
			}
		}
	}
}

func ruleC17(c *Check) {
	if !c.dealerReady() {
		return
	}
	c.need("forward", 8)
	type fw struct {
		in, out *Term
		st      *State
		to      *Term
		s       site
	}
	var fs []fw
	r, cs := c.callCases()
	for _, k := range cs {
		if k.kind == "Invocation" {
			fs = append(fs, fw{r.msg, k.msg, k.o.st, k.recipient, k.s})
		}
	}
	as, _, ry := c.answerCases("Yield")
	for _, a := range as {
		fs = append(fs, fw{ry.msg, a.rp.msg, a.o.st, a.rp.recipient, a.s})
	}
	for _, f := range fs {
		ses := mkGet(c.su.dl.sessions.init(r.args[0]), f.st.rep(f.to), 0, types.NewPointer(c.su.p.typ("", "SessionDetails")))
		if f.in == ry.msg {
			ses = mkGet(c.su.dl.sessions.init(ry.args[0]), f.st.rep(f.to), 0, types.NewPointer(c.su.p.typ("", "SessionDetails")))
		}
		static, bin := c.su.get(f.st, ses, "StaticSerializer"), c.su.get(f.st, f.in, "PayloadIsBinary")
		if !c.must(static != nil && bin != nil, "forward", f.s, "the serializer of the recipient was not recognised") {
			continue
		}
		if st := f.st.under(is(bin), is(static)); st != nil {
			v, ok := constBoolOf(st, c.su.get(st, f.out, "PayloadIsBinary"))
			c.must(ok && v, "forward", f.s, "an opaque payload for a peer with a static serializer is not forwarded as it is")
			for _, n := range []string{"Payload", "PayloadSerializer"} {
				c.must(st.same(c.su.get(st, f.out, n), c.su.get(st, f.in, n)), "forward", f.s, "%s is not forwarded unchanged", n)
			}
		}
		for _, cs := range [][]cond{{not(bin)}, {is(bin), not(static)}} {
			st := f.st.under(cs...)
			if st == nil {
				continue
			}
			v, ok := constBoolOf(st, c.su.get(st, f.out, "PayloadIsBinary"))
			c.must(ok && !v, "forward", f.s, "a payload is forwarded as opaque although the message or its recipient is not for it")
			for _, n := range []string{"Args", "KwArgs"} {
				c.must(st.same(c.su.get(st, f.out, n), c.su.get(st, f.in, n)), "forward", f.s, "%s are not forwarded unchanged", n)
			}
		}
	}
	c.binaryMessages()
}

// binaryMessages checks what messages built with and without a binary payload report.
func (c *Check) binaryMessages() {
	n := 0
	for _, t := range c.su.msgs {
		if c.su.method(types.NewPointer(t), "PayloadIsBinary") == nil {
			continue
		}
		name := t.Obj().Name()
		for _, ctor := range []string{"New" + name, "New" + name + "Binary"} {
			fn := c.su.p.fn("messages", "", ctor)
			if fn == nil {
				if ctor == "New"+name {
					c.must(false, "constructor", site{tag: ctor}, "there is no %s", ctor)
				}
				continue
			}
			binary := ctor != "New"+name
			run := c.run("messages", "", ctor, "")
			for i := range run.outs {
				o := &run.outs[i]
				s := c.at(fn, "").on(o)
				n++
				v, ok := constBoolOf(o.st, c.su.get(o.st, o.rets[0], "PayloadIsBinary"))
				c.must(ok && v == binary, "reports", s, "a message built by %s reports itself as binary: %v (known: %v)", ctor, v, ok)
				if !binary {
					continue
				}
				var pay, ser *Term
				for i, p := range fn.Params {
					if isByteSeq(p.Type()) && !isBasic(p.Type(), types.String) {
						pay = run.args[i]
					}
					if isBasic(p.Type(), types.Uint64) {
						ser = run.args[i]
					}
				}
				c.must(o.st.same(c.su.get(o.st, o.rets[0], "Payload"), pay), "reports", s, "the payload is not the one given")
				c.must(o.st.same(c.su.get(o.st, o.rets[0], "PayloadSerializer"), ser), "reports", s, "the payload serializer is not the one given")
				// the options tell the receiver
				opts := c.su.get(o.st, o.rets[0], "Options")
				if opts == nil {
					opts = c.su.get(o.st, o.rets[0], "Details")
				}
				if !c.must(opts != nil, "told", s, "there are no options or details") {
					continue
				}
				has, said := o.st.hasKey(opts, mkStr("x_payload_serializer"), anyType())
				c.must(has == yes && said != nil && o.st.same(unbox(said), ser), "told", s, "the options do not name the payload serializer given (%v, %v)", has, said)
			}
		}
	}
	c.need("reports", 6)
	c.need("told", 2)
}

func ruleC18(c *Check) {
	c.frame(c.su.bk, "match")
	c.frame(c.su.dl, "match")
	c.need("new-policy", 6)
	c.need("kept-policy", 6)
	for _, r := range []*Router{c.su.bk, c.su.dl} {
		if !c.routerParts(r) {
			return
		}
		for _, j := range c.joinCases(r) {
			if j.v == nil {
				continue
			}
			st := j.o.st
			want := option(j.opts, "match", tString)
			match := st.field(j.v, r.fMatch)
			for _, m := range []string{"prefix", "wildcard", "exact"} {
				var x *State
				if m == "exact" {
					x = st.under(not(eq(want, mkStr("prefix"))), not(eq(want, mkStr("wildcard"))))
				} else {
					x = st.under(is(eq(want, mkStr(m))))
				}
				if x == nil {
					continue
				}
				if j.existing {
					y := x.under(not(eq(match, mkStr(m))))
					tree0, w0 := r.tree.init(j.recv), r.wildcard.init(j.recv)
					c.must(x.same(match, initField(j.v, r.elem, r.fMatch)), "kept-policy", j.s, "joining an entry changes its match policy")
					if z := x.under(not(eq(initField(j.v, r.elem, r.fMatch), mkStr("prefix")))); z != nil {
						c.must(x.leafVal(r.tree, j.recv) == tree0, "kept-policy", j.s, "joining an entry that is not for a prefix changes the prefix index")
					}
					if z := x.under(not(eq(initField(j.v, r.elem, r.fMatch), mkStr("wildcard")))); z != nil {
						w := x.leafVal(r.wildcard, j.recv)
						c.must(w == w0 && z.mapSt(w).ver == 0 && len(z.mapSt(w).log) == 0, "kept-policy", j.s, "joining an entry that is not for a wildcard changes the wildcard index")
					}
					c.must(y == nil, "joined-policy", site{fn: j.r.fn, pos: j.r.fn.Pos(), tag: c.names(r).join, o: j.o}, "a request is joined to an existing entry whose match policy may differ from the one it names")
					continue
				}
				got, _ := constStr(x, match)
				c.must(got == m, "new-policy", j.s, "an entry asked for with match policy %s gets %q", m, got)
				c.newIndexes(r, x, j, "new-policy")
			}
		}
	}
}

// ---- C53: acknowledgements ----

func ruleC53(c *Check) {
	c.need("answer", 6)
	c.need("refused", 2)
	for _, r := range []*Router{c.su.bk, c.su.dl} {
		if !c.routerParts(r) {
			continue
		}
		nm := c.names(r)
		for _, j := range c.joinCases(r) {
			st := j.o.st
			c.must(st.same(j.rp.recipient, j.sid), "answer", j.s, "the answer to %s does not go to the session that sent it", nm.join)
			c.must(st.same(c.su.get(st, j.rp.msg, "RequestID"), c.su.get(st, j.r.msg, "RequestID")), "answer", j.s, "the answer to %s does not carry its request id", nm.join)
			if j.v != nil {
				c.must(st.same(c.su.get(st, j.rp.msg, nm.id), st.field(j.v, r.fID)), "answer", j.s, "%s does not carry the id of what was joined", nm.joined)
			}
		}
		for _, msg := range []string{nm.join, nm.leave} {
			run := c.run("", r.T.Obj().Name(), "ReceiveMessage", msg)
			if run.e == nil {
				continue
			}
			_, bad := c.outcomes(run, 1)
			for _, o := range bad {
				s := c.at(run.fn, msg).on(o)
				ef := effects(o.st, run.pre)
				c.must(len(ef) == 0, "refused", s, "a refused %s changes %v", msg, ef)
				recv, sid := run.args[0], run.args[1]
				conds := []cond{is(r.attached(recv, sid)), is(mkHas(r.bySession.init(recv), sid, 0))}
				if msg == nm.leave {
					in := mkGet(r.bySession.init(recv), sid, 0, r.inner())
					id := c.su.get(o.st, run.msg, nm.id)
					if !c.must(id != nil, "anchor", s, "the id in %s was not recognised", msg) {
						continue
					}
					v := mkGet(in, id, 0, r.elemPtr())
					conds = append(conds, is(mkHas(in, id, 0)))
					_ = v
				}
				c.must(o.st.under(conds...) == nil, "refused", s, "a %s is refused although the session is attached%s", msg, map[bool]string{true: " and holds what it names"}[msg == nm.leave])
			}
		}
		c.leaveCases(r)
		c.foreign(r)
	}
}

// foreign: messages the broker or dealer has no part in are refused.
func (c *Check) foreign(r *Router) {
	mine := map[string]bool{"Subscribe": true, "Unsubscribe": true}
	if r == c.su.dl {
		mine = map[string]bool{"Register": true, "Unregister": true, "Call": true, "Yield": true, "Error": true, "Cancel": true}
	}
	c.need("foreign", 20)
	for _, t := range c.su.msgs {
		msg := t.Obj().Name()
		if mine[msg] || r == c.su.bk && msg == "Publish" {
			continue
		}
		run := c.run("", r.T.Obj().Name(), "ReceiveMessage", msg)
		if run.e == nil {
			continue
		}
		for i := range run.outs {
			o := &run.outs[i]
			if o.panicked || len(o.rets) != 2 {
				continue
			}
			s := c.at(run.fn, msg).on(o)
			f, known := failed(*o, 1)
			c.must(known && f, "foreign", s, "a %s is accepted by the %s", msg, r.T.Obj().Name())
			v, known := o.st.isNilTerm(o.rets[0])
			c.must(known && v, "foreign", s, "a %s leads to a message", msg)
			ef := effects(o.st, run.pre)
			c.must(len(ef) == 0, "foreign", s, "a %s changes %v", msg, ef)
		}
	}
}
