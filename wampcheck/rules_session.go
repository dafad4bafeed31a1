package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the client session. What a session remembers is seen through what it accepts: a request is open when its
// ERROR is accepted, a subscription is active when its EVENT is, a registration when its INVOCATION is. Every rule is
// one step of an induction over histories: from an arbitrary state of the session, an arbitrary operation.

// sessions holds what the rules about sessions analyse.
type sessions struct {
	c          *Check
	e          *Engine
	send, recv *ssa.Function
	self       *Term
	pre        *State
	others     []*ssa.Function
}

// sop is an operation on a session.
type sop struct {
	name string
	fn   *ssa.Function
	args []*Term
	msg  *Term // the message, nil if the operation takes none
	kind string
	send bool
}

// verdict is a way an operation ends.
type verdict struct {
	o   *Outcome
	ok  bool // no error is returned
	op  *sop
	pre *State
}

func (c *Check) session() *sessions {
	su := c.su
	x := &sessions{c: c, e: su.engine()}
	x.send, x.recv = su.p.fn("", "Session", "SendMessage"), su.p.fn("", "Session", "ReceiveMessage")
	sig := func(fn *ssa.Function) bool {
		if fn == nil || len(fn.Params) != 2 || fn.Signature.Results().Len() != 2 {
			return false
		}
		return isErrorType(fn.Signature.Results().At(1).Type())
	}
	if !c.must(sig(x.send) && sig(x.recv), "anchor", site{tag: "Session"}, "Session.SendMessage(message) and Session.ReceiveMessage(message) do not exist") {
		return nil
	}
	x.self = mkSym("session", x.send.Params[0].Type())
	x.e.nonNil[x.self] = true
	x.pre = su.p.start(x.e)
	n := ptrTo(x.send.Params[0].Type())
	if !c.must(n != nil, "anchor", site{tag: "Session"}, "the methods of Session have no pointer receiver") {
		return nil
	}
	for _, fn := range su.exportedMethods(n) {
		if fn != x.send && fn != x.recv && fn.Name() != "Receive" {
			x.others = append(x.others, fn)
		}
	}
	return x
}

func (x *sessions) op(send bool, t *types.Named, name string) *sop {
	fn, n := x.recv, "receives "
	if send {
		fn, n = x.send, "sends "
	}
	mi, p := x.c.su.messageNamed(x.e, t, name)
	return &sop{name: n + strings.ToUpper(t.Obj().Name()), fn: fn, args: []*Term{x.self, mi}, msg: p, kind: t.Obj().Name(), send: send}
}

func (x *sessions) named(send bool, kind, name string) *sop {
	t := x.c.su.msgType(kind)
	if !x.c.must(t != nil, "anchor", site{tag: kind}, "there is no message type %s", kind) {
		return nil
	}
	return x.op(send, t, name)
}

// ops lists every operation a session can be asked for.
func (x *sessions) ops() (r []*sop) {
	for _, t := range x.c.su.msgs {
		r = append(r, x.op(true, t, "op"), x.op(false, t, "op"))
	}
	for _, fn := range x.others {
		o := &sop{name: fn.Name(), fn: fn, args: []*Term{x.self}}
		for _, q := range fn.Params[1:] {
			o.args = append(o.args, mkSym("op."+q.Name(), q.Type()))
		}
		r = append(r, o)
	}
	return
}

// do runs an operation.
func (x *sessions) do(st *State, op *sop) (r []verdict) {
	outs := x.e.Call(st.clone(), op.fn, op.args, nil, 0, nil)
	x.c.count(op.fn, x.e, len(outs))
	for i := range outs {
		o := &outs[i]
		if o.panicked || !o.st.consistent() {
			continue
		}
		n := op.fn.Signature.Results().Len()
		if n == 0 || !isErrorType(op.fn.Signature.Results().At(n-1).Type()) {
			r = append(r, verdict{o, true, op, st})
			continue
		}
		bad, known := failed(*o, n-1)
		if !known {
			x.c.must(false, "outcome", x.site(op).on(o), "it is not clear whether an error is returned")
			continue
		}
		r = append(r, verdict{o, !bad, op, st})
	}
	return
}

func (x *sessions) site(op *sop) site { return x.c.at(op.fn, op.kind) }

// consistent: what is known about equal things does not contradict itself.
func (s *State) consistent() bool {
	for n := 0; n < 3; n++ {
		more := map[*Term]bool{}
		for f, v := range s.facts {
			g := s.canon(f)
			if g == f {
				continue
			}
			for g.op == OUn && g.tok == token.NOT {
				g, v = g.args[0], !v
			}
			if d, ok := s.decide(g); ok {
				if d != v {
					return false
				}
				continue
			}
			more[g] = v
		}
		if len(more) == 0 {
			break
		}
		for g, v := range more {
			if !s.assume(g, v) {
				return false
			}
		}
	}
	return true
}

// given puts what is known at the end of a path before its start.
func (x *sessions) given(end *State) *State {
	return at(x.pre, end)
}

// at puts what is known at the end of a path to another point of its history.
func at(st, end *State) *State {
	r := st.clone()
	r.facts, r.eqv, r.dyn = cp(end.facts), cp(end.eqv), cp(end.dyn)
	return r
}

// accepts runs a reception and tells whether it is accepted: always, never or sometimes.
func (x *sessions) accepts(st *State, op *sop) (tri, []verdict) {
	vs := x.do(st, op)
	res := maybe
	for i, v := range vs {
		t := no
		if v.ok {
			t = yes
		}
		if i == 0 {
			res = t
		} else if res != t {
			return maybe, vs
		}
	}
	return res, vs
}

func (x *sessions) get(st *State, op *sop, acc string) *Term {
	if op.msg == nil {
		return nil
	}
	return x.c.su.get(st, op.msg, acc)
}

// with assumes that two values are equal.
func (s *State) withEq(a, b *Term) *State {
	if a == nil || b == nil {
		return nil
	}
	r := s.under(is(eq(a, b)))
	if r == nil || !r.consistent() {
		return nil
	}
	return r
}

// one request kind
type reqKind struct {
	kind  string // the request
	code  int64
	reply string
}

var reqKinds = []reqKind{
	{"Call", 48, "Result"}, {"Register", 64, "Registered"}, {"Unregister", 66, "Unregistered"},
	{"Publish", 16, "Published"}, {"Subscribe", 32, "Subscribed"}, {"Unsubscribe", 34, "Unsubscribed"},
}

// errorFor is the reception of an ERROR that answers a request of a kind, and what must be assumed for it to be that.
func (x *sessions) errorFor(k reqKind, name string) (*sop, cond) {
	op := x.named(false, "Error", name)
	if op == nil {
		return nil, cond{}
	}
	mt := x.get(x.pre, op, "MessageType")
	if !x.c.must(mt != nil, "anchor", site{tag: "Error"}, "Error.MessageType() has no single value") {
		return nil, cond{}
	}
	return op, is(eq(mt, mkConst(mkUint64(uint64(k.code)).val, typeOr(mt))))
}

// final: the reply, as received, ends its request (a progressive RESULT does not).
func (x *sessions) progressive(st *State, op *sop) (tri, *Term) {
	d := x.get(st, op, "Details")
	if d == nil {
		return maybe, nil
	}
	opt := option(d, "progress", types.Typ[types.Bool])
	return st.truth(opt), opt
}

func ruleC36(c *Check) {
	x := c.session()
	if x == nil {
		return
	}
	if fn := c.su.p.fn("", "", "NewSession"); fn != nil {
		c.ownPartsOf(fn, nil)
	}
	ops := x.ops()
	fresh := x.begin()
	for _, k := range reqKinds {
		er, isErr := x.errorFor(k, "answer")
		rep := x.named(false, k.reply, "reply")
		if er == nil || rep == nil {
			return
		}
		base := x.pre.under(isErr)
		rid := x.get(base, er, "RequestID")
		if !c.must(rid != nil, "anchor", site{tag: "Error"}, "Error.RequestID() has no single value") {
			return
		}
		tag := strings.ToUpper(k.kind)
		// nothing is open at the beginning
		if fresh != nil {
			st := fresh.st.under(isErr)
			a, _ := x.accepts(st, &sop{fn: x.recv, args: []*Term{fresh.self, er.args[1]}, msg: er.msg, kind: "Error"})
			c.must(a == no, "initial", x.site(er), "a new session accepts an ERROR for a %s it never sent", tag)
			a, _ = x.accepts(st, &sop{fn: x.recv, args: []*Term{fresh.self, rep.args[1]}, msg: rep.msg, kind: rep.kind})
			c.must(a == no, "initial", x.site(rep), "a new session accepts a reply to a %s it never sent", tag)
		}
		// a reply is accepted for an open request only
		for _, v := range x.do(base, rep) {
			if !v.ok {
				continue
			}
			r := x.get(v.o.st, rep, "RequestID")
			st := x.given(v.o.st).withEq(r, rid)
			if st == nil {
				c.must(false, "open-only", x.site(rep).on(v.o), "the request id of the reply is not known")
				continue
			}
			a, _ := x.accepts(st, er)
			c.must(a == yes, "open-only", x.site(rep).on(v.o), "a %s is accepted although no %s with its request id need be open", strings.ToUpper(k.reply), tag)
		}
		// an accepted reply closes the request
		for _, p := range []*sop{rep, er} {
			for _, v := range x.do(base, p) {
				if !v.ok {
					continue
				}
				r := x.get(v.o.st, p, "RequestID")
				prog := no
				var opt *Term
				if k.kind == "Call" && p == rep {
					prog, opt = x.progressive(v.o.st, p)
				}
				type part struct {
					st   *State
					prog bool
				}
				parts := []part{{v.o.st, prog == yes}}
				if prog == maybe && opt != nil {
					parts = []part{{v.o.st.under(is(opt)), true}, {v.o.st.under(not(opt)), false}}
				}
				for _, q := range parts {
					if q.st == nil {
						continue
					}
					st := q.st
					if p == rep {
						st = st.withEq(r, rid)
					}
					if st == nil {
						continue
					}
					a, _ := x.accepts(st, er)
					b, _ := x.accepts(q.st, p)
					if q.prog {
						c.must(a == yes && b == yes, "progressive", x.site(p).on(v.o), "a progressive RESULT closes its call, the next one is refused")
					} else {
						c.must(a == no, "closed", x.site(p).on(v.o), "after an accepted %s another reply to the same %s is not refused", strings.ToUpper(p.kind), tag)
						c.must(b == no, "closed", x.site(p).on(v.o), "the same %s is accepted a second time", strings.ToUpper(p.kind))
					}
				}
			}
		}
		// one arbitrary operation
		for _, op := range ops {
			for _, v := range x.do(base, op) {
				var oid *Term
				if op.msg != nil {
					oid = x.get(v.o.st, op, "RequestID")
				}
				// opened by nothing else than sending the request
				for _, w := range x.do(v.o.st, er) {
					if !w.ok {
						continue
					}
					st := x.given(w.o.st)
					if op.send && op.kind == k.kind && v.ok && oid != nil && st.same(oid, rid) {
						c.n["opened"]++
						continue
					}
					a, ws := x.accepts(st, er)
					c.must(a == yes || len(ws) == 0, "opened", x.site(op).on(v.o), "when a session %s, replies to a %s it did not send become acceptable", op.name, tag)
				}
				// closed by nothing else than its final reply
				for _, w := range x.do(v.o.st, er) {
					if w.ok {
						continue
					}
					st := x.given(w.o.st)
					if !op.send && oid != nil && (op.kind == k.reply || op.kind == "Error" && x.answers(st, op, k)) && st.same(oid, rid) {
						c.n["kept"]++
						continue
					}
					a, ws := x.accepts(st, er)
					c.must(a == no || len(ws) == 0, "kept", x.site(op).on(v.o), "when a session %s, an open %s with another id or of another kind stops being answerable", op.name, tag)
				}
			}
		}
	}
	// an ERROR for anything else is refused
	if er := x.named(false, "Error", "answer"); er != nil {
		mt := x.get(x.pre, er, "MessageType")
		st := x.pre
		for _, k := range reqKinds {
			if st != nil && mt != nil {
				st = st.under(not(eq(mt, mkConst(mkUint64(uint64(k.code)).val, typeOr(mt)))))
			}
		}
		if st != nil {
			a, _ := x.accepts(st, er)
			c.must(a == no, "error-kind", x.site(er), "an ERROR is accepted that answers no request a client can have sent")
		}
	}
	// what is handed out is what was received
	for _, op := range ops {
		if op.send || op.msg == nil {
			continue
		}
		for _, v := range x.do(x.pre, op) {
			if v.ok {
				c.must(v.o.st.same(unbox(v.o.rets[0]), op.msg), "returned", x.site(op).on(v.o), "the message returned is not the one received")
			}
		}
	}
	x.bytes()
	c.need("opened", 3)
	c.need("kept", 3)
	c.need("closed", 10)
	c.need("progressive", 1)
	c.need("open-only", 3)
	c.need("initial", 6)
}

// answers: the ERROR answers a request of the kind.
func (x *sessions) answers(st *State, op *sop, k reqKind) bool {
	mt := x.get(st, op, "MessageType")
	if mt == nil {
		return false
	}
	v, ok := st.decide(eq(mt, mkConst(mkUint64(uint64(k.code)).val, typeOr(mt))))
	return ok && v
}

type begun struct {
	st   *State
	self *Term
}

// begin makes a new session.
func (x *sessions) begin() *begun {
	c := x.c
	fn := c.su.p.fn("", "", "NewSession")
	if !c.must(fn != nil && len(fn.Params) == 1, "anchor", site{tag: "NewSession"}, "NewSession(serializer) does not exist") {
		return nil
	}
	outs := x.e.Call(x.pre.clone(), fn, []*Term{mkSym("serializer", fn.Params[0].Type())}, nil, 0, nil)
	c.count(fn, x.e, len(outs))
	var r *begun
	for i := range outs {
		if !outs[i].panicked && len(outs[i].rets) > 0 {
			st := outs[i].st
			self := st.rep(outs[i].rets[0])
			x.e.nonNil[self] = true
			if r == nil {
				r = &begun{st, self}
			}
		}
	}
	c.must(r != nil, "anchor", site{fn: fn}, "NewSession returns nothing")
	return r
}

// bytes: Receive does to a session what ReceiveMessage does with the decoded message, and nothing for undecodable bytes.
func (x *sessions) bytes() {
	c := x.c
	fn := c.su.p.fn("", "Session", "Receive")
	if !c.must(fn != nil && len(fn.Params) == 2, "anchor", site{tag: "Receive"}, "Session.Receive(bytes) does not exist") {
		return
	}
	data := mkSym("data", fn.Params[1].Type())
	defer func() { x.e.invokeHook = nil }()
	for _, t := range append(append([]*types.Named(nil), c.su.msgs...), nil) {
		mi := mkNil()
		kind := "undecodable"
		var ref *sop
		if t != nil {
			ref = x.op(false, t, "op")
			mi, kind = ref.args[1], ref.kind
		}
		calls := 0
		x.e.invokeHook = func(s *State, r *Term, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
			if name != "Deserialize" || rt.Len() != 2 || len(args) == 0 || !s.same(args[len(args)-1], data) {
				return nil, false
			}
			calls++
			er := mkNil()
			if t == nil {
				er = mkCall("undecodable", newSerial(), rt.At(1).Type())
				x.e.nonNilTerm(er)
			}
			return []callRes{{st: s, val: mkTuple([]*Term{mi, er})}}, true
		}
		op := &sop{name: "receives bytes", fn: fn, args: []*Term{x.self, data}, kind: kind}
		vs := x.do(x.pre, op)
		x.e.invokeHook = nil
		c.must(calls > 0 && len(vs) > 0, "bytes", x.site(op), "the bytes received are not decoded with the session's serializer")
		for _, v := range vs {
			if t == nil {
				c.must(!v.ok && len(x.net(v.o.st)) == 0, "bytes", x.site(op).on(v.o), "bytes that cannot be decoded are accepted or change the session: %s", strings.Join(x.net(v.o.st), ", "))
				continue
			}
			ws := x.do(x.given(v.o.st), ref)
			same := len(ws) > 0
			for _, w := range ws {
				if w.ok != v.ok || strings.Join(x.net(w.o.st), ";") != strings.Join(x.net(v.o.st), ";") || w.ok && w.o.st.rep(w.o.rets[0]) != v.o.st.rep(v.o.rets[0]) {
					same = false
				}
			}
			c.must(same, "bytes", x.site(op).on(v.o), "Receive treats an encoded %s in another way than ReceiveMessage treats the message", strings.ToUpper(kind))
		}
	}
}

// net lists what a path leaves changed in the session.
func (x *sessions) net(st *State) (r []string) {
	for a, v := range st.mem {
		if !a.contains(x.self) || a.op == OInit {
			continue
		}
		if o, ok := x.pre.mem[a]; ok && o == v || v.op == OInit && v.args[0] == a {
			continue
		}
		if v.op == OMapNew && x.given(st).truth(eq(x.pre.load(a, v.typ), mkNil())) == yes {
			for _, u := range st.mapSt(v).log { // made for its first entry
				if k := st.rep(u.key); u.del {
					continue
				} else if has, val := st.hasKey(v, k, typeOr(u.val)); has != no {
					r = append(r, fmt.Sprintf("%s gets %s = %s", a, k, val))
				}
			}
			continue
		}
		r = append(r, a.String()+" = "+v.String())
	}
	for m, ms := range st.maps {
		if !m.contains(x.self) || fresh(m) {
			continue
		}
		place := m
		if m.op == OInit {
			place = m.args[0]
		}
		if ms.known || ms.ver != x.pre.mapSt(m).ver {
			r = append(r, place.String()+" changed as a whole")
			continue
		}
		seen := map[*Term]bool{}
		for _, u := range ms.log {
			k := st.rep(u.key)
			if seen[k] {
				continue
			}
			seen[k] = true
			var vt types.Type = anyType()
			if u.val != nil {
				vt = typeOr(u.val)
			}
			now, val := st.hasKey(m, k, vt)
			was, old := x.given(st).hasKey(m, k, vt)
			if now == no && was == no || now == yes && was == yes && val != nil && old != nil && st.same(val, old) {
				continue
			}
			if now == no {
				r = append(r, fmt.Sprintf("%s loses %s", place, k))
			} else {
				r = append(r, fmt.Sprintf("%s gets %s = %s", place, k, val))
			}
		}
	}
	sort.Strings(r)
	return
}

// ---- C37 ----

// what a session is called for while it is active
type activeKind struct {
	use, acc, grant, undo, undone, what string
}

var activeKinds = []activeKind{
	{"Event", "SubscriptionID", "Subscribed", "Unsubscribe", "Unsubscribed", "subscription"},
	{"Invocation", "RegistrationID", "Registered", "Unregister", "Unregistered", "registration"},
}

func ruleC37(c *Check) {
	x := c.session()
	if x == nil {
		return
	}
	if fn := c.su.p.fn("", "", "NewSession"); fn != nil {
		c.ownPartsOf(fn, nil)
	}
	ops := x.ops()
	fresh := x.begin()
	for _, k := range activeKinds {
		use, undo, undone := x.named(false, k.use, "use"), x.named(true, k.undo, "undo"), x.named(false, k.undone, "undone")
		if use == nil || undo == nil || undone == nil {
			return
		}
		id, uid, urid, rid := x.get(x.pre, use, k.acc), x.get(x.pre, undo, k.acc), x.get(x.pre, undo, "RequestID"), x.get(x.pre, undone, "RequestID")
		if !c.must(id != nil && uid != nil && urid != nil && rid != nil, "anchor", site{tag: k.use}, "%s.%s() has no single value", k.use, k.acc) {
			continue
		}
		USE := strings.ToUpper(k.use)
		if fresh != nil {
			a, _ := x.accepts(fresh.st, &sop{fn: x.recv, args: []*Term{fresh.self, use.args[1]}, msg: use.msg, kind: use.kind})
			c.must(a == no, "initial", x.site(use), "a new session accepts an %s", USE)
		}
		for _, op := range ops {
			for _, v := range x.do(x.pre, op) {
				var oid *Term
				if !op.send && op.kind == k.grant {
					oid = x.get(v.o.st, op, k.acc)
					if v.ok {
						st := v.o.st.withEq(oid, id)
						if c.must(st != nil, "granted", x.site(op).on(v.o), "the id in %s is not known", strings.ToUpper(k.grant)) {
							a, _ := x.accepts(st, use)
							c.must(a == yes, "granted", x.site(op).on(v.o), "after an accepted %s an %s for its id is refused", strings.ToUpper(k.grant), USE)
						}
					}
				}
				for _, w := range x.do(v.o.st, use) {
					st := x.given(w.o.st)
					if w.ok {
						if v.ok && oid != nil && st.same(oid, id) {
							c.n["activated"]++
							continue
						}
						a, ws := x.accepts(st, use)
						c.must(a == yes || len(ws) == 0, "activated", x.site(op).on(v.o), "when a session %s, an %s becomes acceptable whose %s was not confirmed", op.name, USE, k.what)
						continue
					}
					if v.ok && !op.send && op.kind == k.undone {
						continue
					}
					a, ws := x.accepts(st, use)
					c.must(a == no || len(ws) == 0, "kept", x.site(op).on(v.o), "when a session %s, an %s for an active %s is refused afterwards", op.name, USE, k.what)
				}
			}
		}
		// the confirmation ends what the request named
		for _, v := range x.do(x.pre, undo) {
			if !v.ok {
				continue
			}
			n := 0
			st := v.o.st.withEq(urid, rid)
			if st == nil {
				c.must(false, "ended", x.site(undo).on(v.o), "the request id is not known")
				continue
			}
			for _, w := range x.do(st, undone) {
				if !w.ok {
					continue
				}
				n++
				for _, e := range x.do(w.o.st, use) {
					before, bs := x.accepts(x.given(e.o.st), use)
					if len(bs) == 0 {
						continue
					}
					same := e.o.st.truth(eq(uid, id))
					if same == maybe {
						// decided either way
						if y := e.o.st.withEq(uid, id); y != nil {
							c.must(!e.ok, "ended", x.site(undone).on(w.o), "an %s for a %s is accepted after it was ended", USE, k.what)
						}
						if y := e.o.st.under(not(eq(uid, id))); y != nil && y.consistent() {
							b, _ := x.accepts(x.given(y), use)
							c.must(e.ok && b == yes || !e.ok && b == no, "ended", x.site(undone).on(w.o), "the %s ended is not the one the request named", k.what)
						}
						continue
					}
					if same == yes {
						c.must(!e.ok, "ended", x.site(undone).on(w.o), "an %s for a %s is accepted after it was ended", USE, k.what)
					} else {
						c.must(e.ok && before == yes || !e.ok && before == no, "ended", x.site(undone).on(w.o), "the %s ended is not the one the request named", k.what)
					}
				}
			}
			c.must(n > 0, "ended", x.site(undo).on(v.o), "%s is never confirmed", strings.ToUpper(k.undo))
		}
		// and no operation in between changes what a request named
		for _, op := range ops {
			if !op.send && op.kind == k.undone {
				continue
			}
			for _, v := range x.do(x.pre, op) {
				var orid *Term
				if op.msg != nil {
					orid = x.get(v.o.st, op, "RequestID")
				}
				for _, w := range x.do(v.o.st, undone) {
					if !w.ok {
						continue
					}
					if op.send && op.kind == k.undo && orid != nil && w.o.st.same(orid, rid) {
						continue
					}
					for _, e := range x.do(w.o.st, use) {
						if a, _ := x.accepts(at(v.o.st, e.o.st), use); a != yes {
							continue // it was not active
						}
						st := x.given(e.o.st)
						if b, _ := x.accepts(st, use); b != yes {
							continue
						}
						for _, w2 := range x.do(st, undone) {
							if !w2.ok {
								continue
							}
							a, es := x.accepts(w2.o.st, use)
							want := no
							if e.ok {
								want = yes
							}
							c.must(a == want || len(es) == 0, "named", x.site(op).on(v.o), "when a session %s, another %s than the one named is ended by a pending %s", op.name, k.what, strings.ToUpper(k.undo))
						}
					}
				}
			}
		}
	}
	c.need("initial", 2)
	c.need("granted", 4)
	c.need("activated", 90)
	c.need("kept", 90)
	c.need("ended", 3)
	c.need("named", 40)
}

// ---- C38 ----

// what a client never sends in a session
var notSent = map[string]bool{"Hello": true, "Welcome": true, "Challenge": true, "Authenticate": true, "Published": true, "Subscribed": true, "Unsubscribed": true,
	"Event": true, "Result": true, "Registered": true, "Unregistered": true, "Invocation": true, "Interrupt": true}

// what it can always send
var alwaysSent = map[string]bool{"Call": true, "Yield": true, "Register": true, "Unregister": true, "Publish": true, "Subscribe": true, "GoodBye": true}

func ruleC38(c *Check) {
	x := c.session()
	if x == nil {
		return
	}
	for _, op := range x.ops() {
		if op.msg == nil {
			continue
		}
		TYPE := strings.ToUpper(op.kind)
		for _, v := range x.do(x.pre, op) {
			st := v.o.st
			if !op.send {
				if !v.ok {
					var gets []string
					for _, n := range x.net(st) {
						if !strings.Contains(n, " loses ") {
							gets = append(gets, n)
						}
					}
					c.must(len(gets) == 0, "refused-reception", x.site(op).on(v.o), "a refused %s leaves something behind: %s", TYPE, strings.Join(gets, ", "))
				}
				continue
			}
			enc := x.encoding(st, op)
			if !v.ok {
				n := x.net(st)
				c.must(len(n) == 0, "trace", x.site(op).on(v.o), "a %s that is not sent changes the session: %s", TYPE, strings.Join(n, ", "))
				if alwaysSent[op.kind] && enc != nil && st.truth(eq(mkExtract(enc, 1, x.send.Signature.Results().At(1).Type()), mkNil())) == yes {
					c.must(false, "sendable", x.site(op).on(v.o), "a %s that can be encoded is refused", TYPE)
				}
				continue
			}
			c.must(!notSent[op.kind], "sendable", x.site(op).on(v.o), "a session sends a %s, which clients must not", TYPE)
			if c.must(enc != nil, "encoded", x.site(op).on(v.o), "a %s is sent without being encoded by the session's serializer", TYPE) {
				c.must(st.rep(v.o.rets[0]) == st.rep(mkExtract(enc, 0, x.send.Signature.Results().At(0).Type())), "encoded", x.site(op).on(v.o), "what SendMessage returns is not the encoded %s", TYPE)
				c.must(st.truth(eq(mkExtract(enc, 1, x.send.Signature.Results().At(1).Type()), mkNil())) == yes, "encoded", x.site(op).on(v.o), "a %s whose encoding failed counts as sent", TYPE)
			}
			if op.kind == "Error" {
				mt := x.get(st, op, "MessageType")
				c.must(mt != nil && st.truth(eq(mt, mkConst(mkUint64(68).val, typeOr(mt)))) == yes, "error", x.site(op).on(v.o), "an ERROR is sent that does not answer an invocation")
			}
			if op.kind == "Unsubscribe" {
				ev := x.named(false, "Event", "use")
				s2 := x.given(st).withEq(x.get(st, op, "SubscriptionID"), x.get(st, ev, "SubscriptionID"))
				a := maybe
				if s2 != nil {
					a, _ = x.accepts(s2, ev)
				}
				c.must(a == yes, "unsubscribe", x.site(op).on(v.o), "UNSUBSCRIBE is sent for something that need not be subscribed")
			}
			for _, k := range reqKinds {
				if k.kind != op.kind {
					continue
				}
				st := st
				if k.kind == "Publish" {
					if st = st.under(is(option(x.get(st, op, "Options"), "acknowledge", types.Typ[types.Bool]))); st == nil {
						continue
					}
				}
				er, isErr := x.errorFor(k, "answer")
				rep := x.named(false, k.reply, "reply")
				if er == nil || rep == nil {
					continue
				}
				for _, p := range []*sop{er, rep} {
					s2 := st.withEq(x.get(st, op, "RequestID"), x.get(st, p, "RequestID"))
					if s2 != nil && p == er {
						s2 = s2.under(isErr)
					}
					if s2 != nil && p == rep && k.kind == "Unregister" {
						inv := x.named(false, "Invocation", "use")
						s2 = s2.withEq(x.get(st, op, "RegistrationID"), x.get(st, inv, "RegistrationID"))
						if s2 != nil {
							for _, v := range x.do(s2, inv) {
								if v.ok {
									s2 = at(s2, v.o.st)
								}
							}
						}
					}
					if !c.must(s2 != nil, "recorded", x.site(op).on(v.o), "the request id of a %s is not known", TYPE) {
						continue
					}
					a, _ := x.accepts(s2, p)
					c.must(a == yes, "recorded", x.site(op).on(v.o), "the %s that answers a %s is refused", strings.ToUpper(p.kind), TYPE)
				}
			}
		}
	}
	c.need("trace", 10)
	c.need("encoded", 10)
	c.need("refused-reception", 10)
	c.need("recorded", 6)
	c.need("unsubscribe", 1)
	c.need("error", 1)
}

// encoding is the call that encoded the message with the session's serializer.
func (x *sessions) encoding(st *State, op *sop) *Term {
	for _, e := range st.Events(0) {
		if e.Kind != EvCall || e.Name != "invoke:Serialize" || len(e.Args) < 2 {
			continue
		}
		if st.rep(e.Args[0]).contains(x.self) && unbox(st.rep(e.Args[1])) == op.msg {
			return e.Val
		}
	}
	return nil
}

// ---- C52: what is done with is forgotten ----

func ruleC52(c *Check) {
	x := c.session()
	if x == nil {
		return
	}
	if fn := c.su.p.fn("", "", "NewSession"); fn != nil {
		c.ownPartsOf(fn, nil)
	}
	type closer struct {
		op *sop
		is []cond
	}
	type opener struct {
		op      *sop
		closers []closer
	}
	var all []opener
	for _, k := range reqKinds {
		req, rep := x.named(true, k.kind, "request"), x.named(false, k.reply, "reply")
		er, isErr := x.errorFor(k, "error")
		if req == nil || rep == nil || er == nil {
			return
		}
		all = append(all, opener{req, []closer{{rep, nil}, {er, []cond{isErr}}}})
	}
	inv, yield, refusal := x.named(false, "Invocation", "invocation"), x.named(true, "Yield", "yield"), x.named(true, "Error", "refusal")
	if inv == nil || yield == nil || refusal == nil {
		return
	}
	mt := x.get(x.pre, refusal, "MessageType")
	if !c.must(mt != nil, "anchor", site{tag: "Error"}, "Error.MessageType() has no single value") {
		return
	}
	all = append(all, opener{inv, []closer{{yield, nil}, {refusal, []cond{is(eq(mt, mkConst(mkUint64(68).val, typeOr(mt))))}}}})
	for _, o := range all {
		for _, v := range x.do(x.pre, o.op) {
			if !v.ok {
				continue
			}
			kept := added(x.pre, v.o.st)
			if o.op.kind == "Publish" {
				opts := x.get(v.o.st, o.op, "Options")
				if opts == nil {
					continue
				}
				asked := v.o.st.truth(option(opts, "acknowledge", types.Typ[types.Bool]))
				if asked == no || v.o.st.truth(mkHas(opts, mkStr("acknowledge"), 0)) == no {
					c.must(len(kept) == 0, "unacknowledged", x.site(o.op).on(v.o), "something is kept for a PUBLISH that is not answered")
				} else if asked == maybe {
					c.must(len(kept) == 0, "unacknowledged", x.site(o.op).on(v.o), "something is kept for a PUBLISH that need not be answered")
					continue
				}
			}
			for _, cl := range o.closers {
				st := v.o.st.under(cl.is...)
				if st == nil {
					continue
				}
				st = st.withEq(x.get(st, o.op, "RequestID"), x.get(st, cl.op, "RequestID"))
				if st == nil {
					c.must(false, "forgotten", x.site(cl.op), "the request id of the message is not known")
					continue
				}
				for _, w := range x.do(st, cl.op) {
					if !w.ok {
						continue
					}
					end := w.o.st
					if acc := map[string]string{"Result": "Details", "Yield": "Options"}[cl.op.kind]; acc != "" {
						d := x.get(end, cl.op, acc)
						if d == nil {
							continue
						}
						if end = end.under(not(option(d, "progress", types.Typ[types.Bool]))); end == nil {
							continue // more is to come
						}
					}
					c.n["forgotten"]++
					for _, k := range kept {
						for _, l := range end.clone().lookup(k[0], k[1], anyType()) {
							c.must(l.st.truth(l.has) != yes, "forgotten", x.site(cl.op).on(w.o), "after %s the session still keeps what it noted when it %s: %v in %v", cl.op.name, o.op.name, k[1], k[0])
						}
					}
				}
			}
		}
	}
	c.need("forgotten", 7)
	c.need("unacknowledged", 1)
}

// added lists the map entries made since a state.
func added(pre, st *State) (r [][2]*Term) {
	for m, ms := range st.maps {
		if fresh(m) {
			continue
		}
		n := 0
		if p := pre.maps[m]; p != nil && p.ver == ms.ver {
			n = len(p.log)
		}
		for _, u := range ms.log[n:] {
			if !u.del && u.key != nil {
				r = append(r, [2]*Term{m, u.key})
			}
		}
	}
	return
}
