package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// The tables of the routers change only in the operations that are about them, and only at the
// entries those operations are about. What such an operation does at its own entries is decided
// by the rules about it; here every other write is found.

// write is one write on a path, or in a round of a loop on it.
type write struct {
	st    *State
	ev    Event
	loops []*LoopAct
}

func (st *State) writes(mark int, loops []*LoopAct, seen map[*LoopAct]bool, f func(write)) {
	for _, ev := range st.Events(mark) {
		switch ev.Kind {
		case EvStore, EvMapSet, EvMapDel:
			f(write{st: st, ev: ev, loops: loops})
		case EvLoop:
			if ev.Loop == nil || seen[ev.Loop] {
				continue
			}
			seen[ev.Loop] = true
			in := append(append([]*LoopAct(nil), loops...), ev.Loop)
			for _, b := range ev.Loop.rounds() {
				b.St.writes(b.Mark, in, seen, f)
			}
		}
	}
}

// part names what a write changes: a table of the router, a field of an entry or of the record of a call.
type part struct {
	name  string
	owner *Term // entry, record or session of an inner map
	field int
}

func (r *Router) part(recv *Term, w write) (part, bool) {
	a := w.ev.Addr
	if a == nil {
		return part{}, false
	}
	tables := map[string]*leaf{"sessions": r.sessions, "bySession": r.bySession, "exact": r.exact, "wildcard": r.wildcard,
		"tree": r.tree, "flag": r.details, "pending": r.pending, "byCall": r.byCall}
	if w.ev.Kind == EvStore {
		for n, l := range tables {
			if l != nil && a == l.at(recv) {
				return part{name: n}, true
			}
		}
		if a.op == OField && a.args[0] == recv {
			if p, ok := under(structOf(r.T).Field(a.n).Type()).(*types.Pointer); ok && strings.HasSuffix(typeKey(p.Elem()), "SessionScopeIDGenerator") {
				return part{name: "ids"}, true
			}
		}
		if a.op == OField && !fresh(a) {
			if ownerIs(a.args[0], r.elem) {
				return part{name: "entry", owner: a.args[0], field: a.n}, true
			}
			if r.pend != nil && ownerIs(a.args[0], r.pend) {
				return part{name: "record", owner: a.args[0], field: a.n}, true
			}
		}
		return part{}, false
	}
	for n, l := range tables {
		if l != nil && a == l.init(recv) {
			return part{name: n}, true
		}
	}
	if a.op == OMGet && r.bySession != nil && a.args[0] == r.bySession.init(recv) {
		return part{name: "inner", owner: a.args[1]}, true
	}
	if a.op == OInit && a.args[0].op == OField && a.args[0].n == r.fMembers && !fresh(a) && ownerIs(a.args[0].args[0], r.elem) {
		return part{name: "members", owner: a.args[0].args[0]}, true
	}
	return part{}, false
}

// idle: the write leaves everything as it was.
func (w write) idle() bool {
	switch w.ev.Kind {
	case EvStore:
		v := w.st.rep(w.ev.Val)
		return v.op == OInit && v.args[0] == w.ev.Addr
	case EvMapSet:
		has, v := mkHas(w.ev.Addr, w.ev.Key, 0), mkGet(w.ev.Addr, w.ev.Key, 0, w.ev.Val.typ)
		return w.st.truth(has) == yes && w.st.same(v, w.ev.Val)
	}
	if w.ev.Key == nil {
		return w.st.truth(mkCmp(token.LSS, mkInt(0), mkLen(w.ev.Addr, 0))) == no
	}
	return w.st.truth(mkHas(w.ev.Addr, w.ev.Key, 0)) == no
}

// op is an operation of a router with what it is about.
type routerOp struct {
	name, msg string
}

func (c *Check) routerOps(r *Router) []routerOp {
	ops := []routerOp{{"AddSession", ""}, {"RemoveSession", ""}}
	if r == c.su.bk {
		return append(ops, routerOp{"HasSubscription", ""}, routerOp{"AutoDisclosePublisher", ""}, routerOp{"ReceiveMessage", "Subscribe"},
			routerOp{"ReceiveMessage", "Unsubscribe"}, routerOp{"ReceivePublish", "Publish"})
	}
	return append(ops, routerOp{"HasProcedure", ""}, routerOp{"AutoDiscloseCaller", ""}, routerOp{"ReceiveMessage", "Register"},
		routerOp{"ReceiveMessage", "Unregister"}, routerOp{"ReceiveMessage", "Call"}, routerOp{"ReceiveMessage", "Yield"}, routerOp{"ReceiveMessage", "Error"})
}

// frame: the parts named are changed only by the operations that are about them.
func (c *Check) frame(r *Router, parts ...string) {
	if !c.routerParts(r) {
		return
	}
	want := map[string]bool{}
	for _, p := range parts {
		want[p] = true
	}
	for _, op := range c.routerOps(r) {
		run := c.run("", r.T.Obj().Name(), op.name, op.msg)
		if run.e == nil {
			continue
		}
		reported := map[string]bool{}
		for i := range run.outs {
			o := &run.outs[i]
			if o.panicked {
				continue
			}
			s := c.at(run.fn, op.msg).on(o)
			c.must(true, "frame", s, "")
			o.st.writes(0, nil, map[*LoopAct]bool{}, func(w write) {
				p, ok := r.part(run.args[0], w)
				if !ok || w.idle() {
					return
				}
				name := r.partName(p)
				if name == "" || !want[name] {
					return
				}
				if w.ev.Val != nil {
					kept := newReach(w.st, run.pre)
					kept.add(w.ev.Val)
					for y := range kept.others {
						bs := s
						if w.ev.Pos.IsValid() {
							bs.pos = w.ev.Pos
						}
						c.must(!c.common(y), "own", bs, "what is kept (%s) is one object that everything shares: %v", name, y)
					}
				}
				if why := c.strange(r, run, op, o, w, p, name); why != "" {
					bs := s
					if w.ev.Pos.IsValid() {
						bs.pos = w.ev.Pos
					}
					if k := fmt.Sprint(bs.pos, name, why); !reported[k] {
						reported[k] = true
						c.must(false, "frame", bs, "%s", why)
					}
				}
			})
		}
	}
	c.need("frame", len(c.routerOps(r)))
	c.made(r, want)
}

// made: the parts of a new router are its own.
func (c *Check) made(r *Router, want map[string]bool) {
	name := "New" + r.T.Obj().Name()
	fn := c.su.p.fn("", "", name)
	if fn == nil || len(fn.Params) != 0 || ptrTo(fn.Signature.Results().At(0).Type()) != r.T {
		return
	}
	parts := map[string][]*leaf{"sessions": {r.sessions, r.bySession}, "indexes": {r.exact, r.wildcard, r.tree, r.bySession}, "calls": {r.pending, r.byCall}}
	for i := 0; i < structOf(r.T).NumFields(); i++ {
		f := structOf(r.T).Field(i)
		if p, ok := under(f.Type()).(*types.Pointer); ok && strings.HasSuffix(typeKey(p.Elem()), "SessionScopeIDGenerator") {
			parts["ids"] = append(parts["ids"], &leaf{path: []int{i}, typ: f.Type(), name: f.Name()})
		}
	}
	e := c.su.engine()
	st := c.su.p.start(e)
	pre := st.clone()
	outs := e.Call(st, fn, nil, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) == 0 {
			continue
		}
		held := map[*Term]string{}
		for _, part := range []string{"sessions", "indexes", "calls", "ids"} {
			for _, l := range parts[part] {
				if l == nil || !want[part] {
					continue
				}
				a := o.st.rep(o.rets[0])
				shared := false
				for _, f := range l.path {
					if f < 0 {
						a = o.st.rep(o.st.load(a, types.NewPointer(addrElem2(a))))
						shared = shared || c.common(a)
						continue
					}
					a = mkField(a, f)
				}
				x := newReach(o.st, pre)
				v := o.st.rep(o.st.load(a, l.typ))
				if _, isMap := under(l.typ).(*types.Map); isMap {
					other, twice := held[v]
					c.must(!twice || other == l.name, "own", c.at(fn, "").on(o), "%s and %s of a new object are the same table", other, l.name)
					held[v] = l.name
				}
				x.add(v)
				for y := range x.others {
					shared = shared || c.common(y)
				}
				c.must(!shared, "own", c.at(fn, "").on(o), "everything %s makes shares its %s", name, l.name)
			}
		}
	}
}

// partName groups the parts for the properties they matter to.
func (r *Router) partName(p part) string {
	switch p.name {
	case "entry":
		switch p.field {
		case r.fID, r.fURI, r.fMembers:
			return "entries"
		case r.fMatch:
			return "match"
		case r.fPolicy:
			return "policy"
		case r.fCallees:
			return "callees"
		case r.fNext:
			return "round"
		}
		return ""
	case "bySession":
		return "sessions"
	case "exact", "wildcard", "tree", "inner":
		return "indexes"
	case "pending", "byCall":
		return "calls"
	case "record":
		switch structOf(r.pend).Field(p.field).Name() {
		case "RequestID", "CallerID":
			return "call"
		case "CalleeID":
			return "callee"
		case "Progress", "ReceiveProgress":
			return "progress"
		}
		return ""
	}
	return p.name
}

// strange tells why a write is not one the operation is about.
func (c *Check) strange(r *Router, run *Run, op routerOp, o *Outcome, w write, p part, name string) string {
	st, key := w.st, w.ev.Key
	recv := run.args[0]
	del := w.ev.Kind == EvMapDel
	sid := run.args[1]
	nm := c.names(r)
	what := op.msg
	if what == "" {
		what = op.name
	}
	same := func(x, y *Term) bool { return x != nil && y != nil && (st.same(x, y) || st.truth(eq(x, y)) == yes) }
	entryOf := func(x *Term) bool { // the entry the operation is about
		switch op.msg {
		case nm.join:
			return same(x, mkGet(r.exact.init(recv), c.su.get(o.st, run.msg, nm.uri), 0, r.elemPtr()))
		case nm.leave:
			in := mkGet(r.bySession.init(recv), sid, 0, r.inner())
			return same(x, mkGet(in, c.su.get(o.st, run.msg, nm.id), 0, r.elemPtr()))
		}
		return false
	}
	tell := func(s string) string { return what + " changes " + s }
	switch name {
	case "sessions":
		switch op.name {
		case "AddSession":
			if id := c.su.get(o.st, sid, "ID"); w.ev.Kind == EvMapSet && same(key, id) {
				return ""
			}
		case "RemoveSession":
			if del && same(key, sid) {
				return ""
			}
		}
		return tell("the attached sessions beyond the one it is about")
	case "flag":
		if strings.HasPrefix(op.name, "AutoDisclose") {
			return ""
		}
		return tell("whether identities are disclosed")
	case "ids":
		return tell("the generator of ids")
	case "members":
		switch {
		case op.msg != "" && op.msg == nm.join && !del && entryOf(p.owner) && same(key, sid):
			return ""
		case op.msg != "" && op.msg == nm.leave && del && entryOf(p.owner) && same(key, sid):
			return ""
		case op.name == "RemoveSession" && del && same(key, sid):
			return ""
		}
		return tell("the members of an entry it is not about")
	case "entries":
		if p.field == r.fMembers && (op.name == "RemoveSession" || op.msg != "" && (op.msg == nm.join || op.msg == nm.leave) && entryOf(p.owner)) {
			return ""
		}
		return tell("the id, the URI or the members of an entry")
	case "match":
		return tell("the match policy of an entry")
	case "policy":
		return tell("the invocation policy of a registration")
	case "callees":
		if op.name == "RemoveSession" || op.msg != "" && (op.msg == nm.join || op.msg == nm.leave) && entryOf(p.owner) {
			return ""
		}
		return tell("the callees of a registration it is not about")
	case "round":
		if op.msg == "Call" || op.name == "RemoveSession" || op.msg != "" && (op.msg == nm.join || op.msg == nm.leave) && entryOf(p.owner) {
			return ""
		}
		return tell("whose turn it is")
	case "indexes":
		return c.strangeIndex(r, run, op, o, w, p, same, entryOf, tell)
	case "calls":
		return c.strangeCall(r, run, op, o, w, p, same, tell)
	case "call", "callee":
		if id := c.su.get2(o.st, run, "RequestID"); id != nil && (op.msg == "Yield" || op.msg == "Error") && c.openAfter(o.st, recv, id) == no &&
			same(p.owner, mkGet(r.pending.init(recv), id, 0, types.NewPointer(r.pend))) {
			return ""
		}
		return tell("what is remembered about an open call")
	case "progress":
		if id := c.su.get2(o.st, run, "RequestID"); id != nil && (op.msg == "Yield" || op.msg == "Error") && c.openAfter(o.st, recv, id) == no &&
			same(p.owner, mkGet(r.pending.init(recv), id, 0, types.NewPointer(r.pend))) {
			return ""
		}
		if op.msg == "Call" && o.rets != nil {
			if rp, ok := replyOf(o.st, o.rets[0]); ok && !rp.isNil && rp.kind == "Invocation" {
				if id := c.su.get(o.st, rp.msg, "RequestID"); id != nil && !isNextID(o.st, id) {
					if has, q := o.st.hasKey(o.st.leafVal(r.pending, recv), id, types.NewPointer(r.pend)); has != no && q != nil && same(p.owner, q) {
						return ""
					}
				}
			}
		}
		return tell("what is remembered about an open call")
	}
	return ""
}

func (su *Suite) get2(st *State, run *Run, method string) *Term {
	if run.msg == nil {
		return nil
	}
	return su.get(st, run.msg, method)
}

func (c *Check) strangeIndex(r *Router, run *Run, op routerOp, o *Outcome, w write, p part, same func(x, y *Term) bool, entryOf func(*Term) bool, tell func(string) string) string {
	st, key := w.st, w.ev.Key
	recv, sid := run.args[0], run.args[1]
	nm := c.names(r)
	del := w.ev.Kind == EvMapDel
	msg := tell("the indexes beyond what it is about")
	switch {
	case op.msg != "" && op.msg == nm.join:
		switch p.name {
		case "inner":
			if !del && same(p.owner, sid) {
				return ""
			}
			return msg
		case "exact", "wildcard":
			if w.ev.Kind == EvMapSet && same(key, c.su.get(o.st, run.msg, nm.uri)) {
				return ""
			}
			return msg
		}
		return "" // the tree: decided where its value is
	case op.msg != "" && op.msg == nm.leave:
		id := c.su.get(o.st, run.msg, nm.id)
		in := mkGet(r.bySession.init(recv), sid, 0, r.inner())
		v := mkGet(in, id, 0, r.elemPtr())
		switch p.name {
		case "inner":
			if del && same(p.owner, sid) && (same(key, id) || same(key, initField(v, r.elem, r.fID))) {
				return ""
			}
			return msg
		case "exact", "wildcard":
			if del && key != nil && (same(key, initField(v, r.elem, r.fURI)) || st.same(key, st.field(v, r.fURI))) {
				return ""
			}
			return msg
		}
		return ""
	case op.name == "RemoveSession":
		switch p.name {
		case "inner":
			if same(p.owner, sid) {
				return ""
			}
			return msg
		case "exact", "wildcard":
			if !del || key == nil {
				return msg
			}
			if c.emptied(r, run, w) {
				return ""
			}
			return tell("an index at an entry that still may have members")
		}
		return ""
	}
	return msg
}

// emptied: an entry with the key of the deletion has no members left.
func (c *Check) emptied(r *Router, run *Run, w write) bool {
	st, recv := w.st, run.args[0]
	in := mkGet(r.bySession.init(recv), run.args[1], 0, r.inner())
	for _, l := range w.loops {
		if l.Range == in || l.list != nil && l.list.m == in {
			return true // decided by the rules about leaving
		}
	}
	seen := map[*Term]bool{}
	for f := range st.facts {
		found := f.any(func(t *Term) bool {
			if t.op != OInit || t.args[0].op != OField || t.args[0].n != r.fMembers || !ownerIs(t.args[0].args[0], r.elem) {
				return false
			}
			x := t.args[0].args[0]
			if seen[x] {
				return false
			}
			seen[x] = true
			if !(x.op == OMGet && st.same(x.args[1], w.ev.Key)) && !st.same(w.ev.Key, initField(x, r.elem, r.fURI)) {
				return false
			}
			n := st.rep(mkLen(st.field(x, r.fMembers), 0))
			if m, ok := st.maps[st.field(x, r.fMembers)]; ok {
				n = st.rep(mkLen(st.field(x, r.fMembers), m.ver))
			}
			return r.noMembers(st, x) || st.truth(mkCmp(token.LSS, mkInt(0), n)) == no
		})
		if found {
			return true
		}
	}
	return false
}

func (c *Check) strangeCall(r *Router, run *Run, op routerOp, o *Outcome, w write, p part, same func(x, y *Term) bool, tell func(string) string) string {
	st, key := w.st, w.ev.Key
	recv, sid := run.args[0], run.args[1]
	msg := tell("the open calls beyond the one it is about")
	if key == nil {
		return msg
	}
	del := w.ev.Kind == EvMapDel
	pm := r.pending.init(recv)
	rec := func(id *Term, n string) *Term {
		i := fieldNamed(r.pend, n)
		if i < 0 {
			return nil
		}
		return initField(mkGet(pm, id, 0, types.NewPointer(r.pend)), r.pend, i)
	}
	switch {
	case op.msg == "Call":
		if p.name == "pending" {
			if isNextID(st, key) || !del {
				return "" // C15 decides what is recorded
			}
			return msg
		}
		if want := c.callKey(st, sid, c.su.get(o.st, run.msg, "RequestID")); want != nil && same(key, want) {
			return ""
		}
		return msg
	case op.msg == "Yield" || op.msg == "Error":
		id := c.su.get(o.st, run.msg, "RequestID")
		if p.name == "pending" {
			if del && same(key, id) {
				return ""
			}
			return msg
		}
		if want := c.callKey(st, rec(id, "CallerID"), rec(id, "RequestID")); del && want != nil && same(key, want) {
			return ""
		}
		return msg
	case op.name == "RemoveSession":
		if p.name != "pending" {
			return ""
		}
		if !del {
			return msg
		}
		return "" // C15 goes through the rounds of the loop over the open calls
	}
	return msg
}
