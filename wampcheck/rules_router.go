package main

import (
	"go/token"
	"go/types"
	"strings"
)

// Rules about broker and dealer.

func (c *Check) routerParts(r *Router) bool {
	return c.must(len(r.missing) == 0, "anchor", site{tag: "router"}, "parts of the router were not recognised: %s", strings.Join(r.missing, "; "))
}

// reply is a MessageWithRecipient by its parts.
type reply struct {
	isNil     bool
	msg       *Term // the message pointer
	kind      string
	recipient *Term
}

// replyOf takes a *MessageWithRecipient apart.
func replyOf(st *State, x *Term) (reply, bool) {
	x = st.rep(x)
	if v, ok := st.isNilTerm(x); ok && v {
		return reply{isNil: true}, true
	}
	m := structField(st, x, "Message")
	rcp := structField(st, x, "Recipient")
	if m == nil || rcp == nil {
		return reply{}, false
	}
	m = st.rep(m)
	n := ""
	if m.op == OIface {
		if p := ptrTo(m.typ); p != nil {
			n = p.Obj().Name()
		}
	}
	return reply{msg: m, kind: n, recipient: rcp}, n != ""
}

// outcomes gives the ways an entry can end, with the failing ones told apart.
func (c *Check) outcomes(r *Run, errIdx int) (good, bad []*Outcome) {
	for i := range r.outs {
		o := &r.outs[i]
		if o.panicked {
			continue
		}
		f, known := failed(*o, errIdx)
		if !known {
			c.must(false, "outcome", c.at(r.fn, r.kind).on(o), "it is not clear whether an error is returned")
			continue
		}
		if f {
			bad = append(bad, o)
		} else {
			good = append(good, o)
		}
	}
	return
}

func (r *Router) field(st *State, v *Term, i int) *Term { return st.field(v, i) }

// initField is the value a field of an element had at entry (or at the start of a loop round).
func (r *Router) members(st *State, v *Term) *Term { return st.field(v, r.fMembers) }

// attachedTerm: the session id is attached.
func (r *Router) attached(recv, sid *Term) *Term {
	return mkHas(r.sessions.init(recv), sid, 0)
}

// ---- matching ----

type matchInfo struct {
	v    *Term // the chosen subscription or registration
	how  string
	why  string
	cond string
}

// origin tells how the element an answer refers to was found for a URI.
func (r *Router) origin(st *State, recv, v, uri *Term) string {
	v = st.rep(v)
	if v.op == OMGet && v.args[0] == r.exact.init(recv) && st.same(v.args[1], uri) {
		return "exact"
	}
	if v.op == OMGet && v.args[0] == r.wildcard.init(recv) && v.args[1].op == OKey {
		return "wildcard"
	}
	if v.op == OExtract && v.n == 1 && v.args[0].op == OCall && v.args[0].name == "LongestPrefix" {
		call := v.args[0]
		root, key := call.args[0], call.args[1]
		if root.op == OCall && root.name == "iradix.Root" && root.args[0] == r.tree.init(recv) {
			k := key
			if k.op == OConv {
				k = k.args[0]
			}
			if st.same(k, uri) {
				return "prefix"
			}
			return "prefix of another URI than the message's"
		}
		return "LongestPrefix of something else than the prefix index"
	}
	return ""
}

func tZero() *Term { return mkInt(0) }

// exactMiss: the exact lookup is known to give nothing usable.
func (r *Router) exactMiss(st *State, recv, uri *Term) bool {
	ex := r.exact.init(recv)
	if v, ok := st.decide(mkHas(ex, uri, 0)); ok && !v {
		return true
	}
	g := mkGet(ex, uri, 0, types.NewPointer(r.elem))
	return r.noMembers(st, g)
}

// noMembers: the element has no member left (which the upkeep of the indexes excludes).
func (r *Router) noMembers(st *State, v *Term) bool {
	ms := intern(Term{op: OInit, args: []*Term{mkField(v, r.fMembers)}, typ: structOf(r.elem).Field(r.fMembers).Type()})
	x, ok := st.decide(eq(mkLen(ms, 0), mkInt(0)))
	return ok && x
}

// prefixMiss: the prefix lookup is known to give nothing.
func (r *Router) prefixMiss(st *State, recv, uri *Term) bool {
	tree := r.tree.init(recv)
	n := mkCall("iradix.Len", 0, tInt, tree)
	if v, ok := st.decide(mkCmp(token.LSS, mkInt(0), n)); ok && !v {
		return true
	}
	if v, ok := st.decide(eq(n, mkInt(0))); ok && v {
		return true
	}
	for f, v := range st.facts {
		if f.op == OExtract && f.args[0].op == OCall && f.args[0].name == "LongestPrefix" && f.n == 2 {
			call := f.args[0]
			if r.origin(st, recv, intern(Term{op: OExtract, args: []*Term{call}, n: 1, typ: types.NewPointer(r.elem)}), uri) != "prefix" {
				continue
			}
			if !v {
				return true
			}
			if r.noMembers(st, mkExtract(call, 1, types.NewPointer(r.elem))) {
				return true
			}
		}
	}
	return false
}

// wildcardHit: the key of a wildcard entry was tested against the URI and matched.
func wildcardHit(st *State, key, uri *Term) (bool, string) {
	about := func(f *Term) bool {
		return f.contains(key) && f.any(func(t *Term) bool { return t == uri || st.same(t, uri) })
	}
	var calls []*Term
	other := false
	for f, v := range st.facts {
		if !about(f) {
			continue
		}
		library := false
		f.any(func(t *Term) bool {
			if t.op == OCall && t.name == "path.Match" {
				calls = append(calls, t)
				library = true
			}
			return false
		})
		if !v || library || f.op == OMHas || f.op == OBin && f.tok == token.EQL && (f.args[0] == key || f.args[1] == key) {
			continue
		}
		other = true
	}
	swapped := false
	for _, m := range calls {
		if st.truth(mkExtract(m, 0, tBool)) != yes {
			continue
		}
		if m.args[0] == key && st.same(m.args[1], uri) {
			return true, ""
		}
		swapped = true
	}
	if swapped {
		return false, "path.Match is given pattern and name the wrong way round"
	}
	if len(calls) > 0 {
		return false, "path.Match need not have matched the pattern"
	}
	if other {
		return true, ""
	}
	return false, "the pattern was not matched against the message's URI"
}

// wildcardMiss: all wildcard patterns were tried without a match.
func (r *Router) wildcardMiss(st *State, recv, uri *Term) bool {
	w := r.wildcard.init(recv)
	if v, ok := st.decide(eq(mkLen(w, 0), mkInt(0))); ok && v {
		return true
	}
	if v, ok := st.decide(mkCmp(token.LSS, mkInt(0), mkLen(w, 0))); ok && !v {
		return true
	}
	done := false
	for _, e := range st.Events(0) {
		if e.Kind != EvLoop || e.Loop.Range != w {
			continue
		}
		if e.Name == "done" {
			done = true
			for _, b := range e.Loop.Backs {
				hit := false
				for f, v := range b.St.facts {
					if v && f.op == OExtract && f.n == 0 && f.args[0].op == OCall && f.args[0].name == "path.Match" {
						// matched, yet the loop goes on
						errNil, known := b.St.isNilTerm(mkExtract(f.args[0], 1, types.Universe.Lookup("error").Type()))
						if !(known && !errNil) {
							hit = true
						}
					}
				}
				if hit {
					return false
				}
			}
		}
	}
	return done
}

// matching checks that the element v was found for uri in the order exact, longest prefix, wildcard.
func (c *Check) matching(r *Router, st *State, recv, v, uri *Term, s site, rule string) {
	how := r.origin(st, recv, v, uri)
	switch how {
	case "exact":
		c.must(true, rule, s, "")
	case "prefix":
		c.must(r.exactMiss(st, recv, uri), rule, s, "the prefix index decides although an exact match was not ruled out")
	case "wildcard":
		ok, why := wildcardHit(st, v.args[1], uri)
		c.must(ok, rule, s, "a wildcard entry is used: %s", why)
		c.must(r.exactMiss(st, recv, uri), rule, s, "a wildcard entry decides although an exact match was not ruled out")
		c.must(r.prefixMiss(st, recv, uri), rule, s, "a wildcard entry decides although a prefix match was not ruled out")
	default:
		if how == "" {
			how = "something that is not the exact, prefix or wildcard entry for the message's URI: " + v.String()
		}
		c.must(false, rule, s, "the match comes from %s", how)
	}
}

// noMatch checks that nothing was found although all three ways were tried.
func (c *Check) noMatch(r *Router, st *State, recv, uri *Term, s site, rule string) {
	// a chosen element without members cannot exist (C02, C09)
	for f := range st.facts {
		f.any(func(t *Term) bool { return false })
	}
	if r.emptyChosen(st, recv, uri) {
		return
	}
	c.must(r.exactMiss(st, recv, uri), rule, s, "nothing is matched although an exact match was not ruled out")
	c.must(r.prefixMiss(st, recv, uri), rule, s, "nothing is matched although a prefix match was not ruled out")
	c.must(r.wildcardMiss(st, recv, uri), rule, s, "nothing is matched although a wildcard match was not ruled out")
}

// emptyChosen: the path depends on an indexed element without members.
func (r *Router) emptyChosen(st *State, recv, uri *Term) bool {
	for f := range st.facts {
		var el *Term
		f.any(func(t *Term) bool {
			if t.op == OLen && t.args[0].op == OInit && t.args[0].args[0].op == OField && t.args[0].args[0].n == r.fMembers && ownerIs(t.args[0].args[0].args[0], r.elem) {
				el = t.args[0].args[0].args[0]
			}
			return false
		})
		if el != nil && r.noMembers(st, el) {
			return true
		}
	}
	return false
}

// ---- publish ----

type pubCase struct {
	o         *Outcome
	recv, sid *Term
	event     *Term // *messages.Event or nil
	sub       *Term
	recipient *Term
	ack       *Term
	topic     *Term
	s         site
}

func (c *Check) publishCases() (*Run, []pubCase) {
	r := c.run("", "Broker", "ReceivePublish", "Publish")
	if r.e == nil {
		return r, nil
	}
	good, bad := c.outcomes(r, 1)
	for _, o := range bad {
		v, known := o.st.isNilTerm(o.rets[0])
		c.must(known && v, "error-result", c.at(r.fn, "").on(o), "a publication is returned together with an error")
		c.must(o.st.under(is(c.su.bk.attached(r.args[0], r.args[1])), is(mkHas(c.su.bk.bySession.init(r.args[0]), r.args[1], 0))) == nil, "refused", c.at(r.fn, "").on(o), "a PUBLISH of an attached session is refused")
	}
	var cs []pubCase
	for _, o := range good {
		st := o.st
		p := pubCase{o: o, recv: r.args[0], sid: r.args[1], s: c.at(r.fn, "").on(o)}
		pub := st.rep(o.rets[0])
		if v, ok := st.isNilTerm(pub); !c.must(ok && !v, "publication", p.s, "no publication is returned and no error") {
			continue
		}
		p.event, p.recipient, p.ack = structField(st, pub, "Event"), structField(st, pub, "Recipients"), structField(st, pub, "Ack")
		p.topic = c.su.get(st, r.msg, "Topic")
		if p.event == nil || p.recipient == nil || p.ack == nil || p.topic == nil {
			c.must(false, "publication", p.s, "the parts of the publication were not recognised")
			continue
		}
		if v, ok := st.isNilTerm(p.event); ok && v {
			p.event = nil
		} else if id := c.su.get(st, p.event, "SubscriptionID"); id != nil {
			id = st.rep(id)
			if id.op == OInit && id.args[0].op == OField && id.args[0].n == c.su.bk.fID && ownerIs(id.args[0].args[0], c.su.bk.elem) {
				p.sub = id.args[0].args[0]
			}
		}
		cs = append(cs, p)
	}
	return r, cs
}

func ruleC01(c *Check) {
	c.frame(c.su.bk, "members")
	c.made(c.su.bk, map[string]bool{"indexes": true, "sessions": true})
	if !c.routerParts(c.su.bk) {
		return
	}
	_, cs := c.publishCases()
	c.need("recipients", 3)
	for _, p := range cs {
		es, known := p.o.st.elems(p.recipient)
		if p.event == nil {
			c.must(known && len(es) == 0, "no-recipients", p.s, "there are recipients but no event")
			continue
		}
		if !c.must(p.sub != nil, "event-id", p.s, "the event does not carry the id of the subscription record that was found") {
			continue
		}
		m, why := c.su.collected(p.o.st, p.recipient)
		c.must(why == "", "recipients", p.s, "the recipients are not all subscribers, each once: %s", why)
		want := c.su.bk.members(p.o.st, p.sub)
		c.must(m == nil || m == want, "recipients", p.s, "the recipients are taken from %v, the event is for %v", m, p.sub)
	}
	c.joins(c.su.bk, "member")
	c.leaves(c.su.bk, "member")
}

func ruleC03(c *Check) {
	c.frame(c.su.bk, "indexes", "entries")
	if !c.routerParts(c.su.bk) {
		return
	}
	_, cs := c.publishCases()
	c.need("match", 3)
	c.need("no-match", 1)
	kinds := map[string]int{}
	for _, p := range cs {
		if p.event == nil {
			c.noMatch(c.su.bk, p.o.st, p.recv, p.topic, p.s, "no-match")
			continue
		}
		if !c.must(p.sub != nil, "event-id", p.s, "the event does not carry the id of the subscription record that was found") {
			continue
		}
		kinds[c.su.bk.origin(p.o.st, p.recv, p.sub, p.topic)]++
		c.matching(c.su.bk, p.o.st, p.recv, p.sub, p.topic, p.s, "match")
	}
	for _, k := range []string{"exact", "prefix", "wildcard"} {
		c.must(kinds[k] > 0, "kinds", site{tag: k}, "no publish is ever matched by the %s subscriptions", k)
	}
}

func ruleC04(c *Check) {
	r, cs := c.publishCases()
	c.need("ack", 2)
	c.need("payload", 3)
	for _, p := range cs {
		st := p.o.st
		opts := c.su.get(st, r.msg, "Options")
		wanted := maybe
		if opts != nil {
			wanted = st.truth(st.rep(option(opts, "acknowledge", tBool)))
		}
		c.must(callsTo(st, nextIDName) <= 1, "fresh-id", p.s, "more than one id is generated for a publish")
		var pubID *Term
		ackNil, known := st.isNilTerm(p.ack)
		if !known {
			c.must(false, "ack", p.s, "it is not clear whether the publish is acknowledged")
			continue
		}
		if ackNil {
			c.must(wanted == no, "ack", p.s, "no PUBLISHED is sent (acknowledgement wanted: %v)", wanted)
		} else {
			c.must(wanted == yes, "ack", p.s, "PUBLISHED is sent (acknowledgement wanted: %v)", wanted)
			rp, ok := replyOf(st, p.ack)
			if c.must(ok && rp.kind == "Published", "ack", p.s, "the acknowledgement is not a PUBLISHED") {
				c.must(st.same(rp.recipient, p.sid), "ack", p.s, "PUBLISHED does not go to the publisher")
				c.must(st.same(c.su.get(st, rp.msg, "RequestID"), c.su.get(st, r.msg, "RequestID")), "ack", p.s, "PUBLISHED does not carry the request id of the publish")
				pubID = c.su.get(st, rp.msg, "PublicationID")
				c.must(isNextID(st, pubID), "fresh-id", p.s, "the publication id in PUBLISHED is not freshly generated")
			}
		}
		if p.event != nil {
			id := c.su.get(st, p.event, "PublicationID")
			c.must(isNextID(st, id), "fresh-id", p.s, "the publication id of the event is not freshly generated")
			if pubID != nil {
				c.must(st.same(id, pubID), "ack", p.s, "PUBLISHED and the event carry different publication ids")
			}
			for _, f := range []string{"Args", "KwArgs"} {
				c.must(st.same(c.su.get(st, p.event, f), c.su.get(st, r.msg, f)), "payload", p.s, "the event's %s are not those of the publish", f)
			}
		}
	}
}

func isNextID(st *State, t *Term) bool {
	if t == nil {
		return false
	}
	t = st.rep(t)
	return t.op == OCall && t.name == nextIDName
}

// disclosure checks the details dictionary of an event or invocation.
func (c *Check) disclosure(r *Router, st *State, recv, sid, uri, details *Term, uriKey, who string, s site) {
	d, ok := st.dictionary(details)
	if !c.must(ok, "details", s, "the details are not a dictionary with known keys") {
		return
	}
	on := st.truth(r.details.init(recv))
	var ids []string
	for k := range d {
		if k == uriKey || strings.HasPrefix(k, who) {
			ids = append(ids, k)
		}
	}
	if on == no {
		c.must(len(ids) == 0, "off", s, "%v disclosed although disclosure is off", ids)
		return
	}
	if !c.must(on == yes, "on", s, "the identity is handled without asking whether disclosure is on") {
		return
	}
	ses := mkGet(r.sessions.init(recv), sid, 0, types.NewPointer(c.su.p.typ("", "SessionDetails")))
	want := map[string]*Term{uriKey: uri, who: sid, who + "_authid": c.su.get(st, ses, "AuthID"), who + "_authrole": c.su.get(st, ses, "AuthRole")}
	for k, w := range want {
		v := d[k]
		if !c.must(v != nil, "on", s, "%s is not disclosed", k) {
			continue
		}
		c.must(w != nil && st.same(unbox(st.rep(v)), w), "truth", s, "the disclosed %s is not that of the sender", k)
	}
}

func ruleC05(c *Check) {
	c.frame(c.su.bk, "flag")
	c.frame(c.su.dl, "flag")
	if !c.routerParts(c.su.bk) || !c.routerParts(c.su.dl) {
		return
	}
	_, cs := c.publishCases()
	c.need("off", 4)
	c.need("truth", 16)
	for _, p := range cs {
		if p.event != nil {
			c.disclosure(c.su.bk, p.o.st, p.recv, p.sid, p.topic, c.su.get(p.o.st, p.event, "Details"), "topic", "publisher", p.s)
		}
	}
	_, calls := c.callCases()
	for _, k := range calls {
		if k.kind == "Invocation" {
			c.disclosure(c.su.dl, k.o.st, k.recv, k.sid, k.uri, c.su.get(k.o.st, k.msg, "Details"), "procedure", "caller", k.s)
		}
	}
	for _, x := range []struct {
		r *Router
		n string
	}{{c.su.bk, "AutoDisclosePublisher"}, {c.su.dl, "AutoDiscloseCaller"}} {
		r := c.run("", x.r.T.Obj().Name(), x.n, "")
		if r.e == nil {
			continue
		}
		for i := range r.outs {
			o := &r.outs[i]
			c.must(o.st.same(o.st.leafVal(x.r.details, r.args[0]), r.args[1]), "switch", c.at(r.fn, "").on(o), "the disclosure flag is not what was asked for")
		}
	}
}

// ---- calls ----

type callCase struct {
	o              *Outcome
	recv, sid, uri *Term
	msg            *Term
	kind           string
	recipient      *Term
	reg            *Term
	err            bool
	s              site
}

func (c *Check) callCases() (*Run, []callCase) {
	r := c.run("", "Dealer", "ReceiveMessage", "Call")
	if r.e == nil {
		return r, nil
	}
	var cs []callCase
	good, bad := c.outcomes(r, 1)
	for _, o := range bad {
		v, known := o.st.isNilTerm(o.rets[0])
		c.must(known && v, "error-result", c.at(r.fn, "Call").on(o), "a message is returned together with an error")
	}
	for _, o := range good {
		k := callCase{o: o, recv: r.args[0], sid: r.args[1], s: c.at(r.fn, "Call").on(o)}
		k.uri = c.su.get(o.st, r.msg, "Procedure")
		rp, ok := replyOf(o.st, o.rets[0])
		if !c.must(ok && !rp.isNil, "answer", k.s, "a call is answered with neither a message nor an error") {
			continue
		}
		k.msg, k.kind, k.recipient = rp.msg, rp.kind, rp.recipient
		if !c.must(k.kind == "Invocation" || k.kind == "Error", "answer", k.s, "a call leads to a %s", k.kind) {
			continue
		}
		if k.kind == "Invocation" {
			if id := c.su.get(o.st, k.msg, "RegistrationID"); id != nil {
				id = o.st.rep(id)
				if id.op == OInit && id.args[0].op == OField && id.args[0].n == c.su.dl.fID && ownerIs(id.args[0].args[0], c.su.dl.elem) {
					k.reg = id.args[0].args[0]
				}
			}
		}
		cs = append(cs, k)
	}
	return r, cs
}

func ruleC10(c *Check) {
	c.frame(c.su.dl, "indexes", "entries")
	if !c.routerParts(c.su.dl) {
		return
	}
	r, cs := c.callCases()
	c.need("match", 3)
	c.need("no-match", 1)
	c.need("error", 1)
	kinds := map[string]int{}
	for _, k := range cs {
		st := k.o.st
		if k.kind == "Error" {
			c.noMatch(c.su.dl, st, k.recv, k.uri, k.s, "no-match")
			uri, _ := constStr(st, c.su.get(st, k.msg, "URI"))
			c.must(uri == "wamp.error.no_such_procedure", "error", k.s, "a call is refused with %q", uri)
			mt, _ := constIntOf(st, c.su.get(st, k.msg, "MessageType"))
			c.must(mt == 48, "error", k.s, "the error for a call has message type %d", mt)
			c.must(st.same(c.su.get(st, k.msg, "RequestID"), c.su.get(st, r.msg, "RequestID")), "error", k.s, "the error does not carry the request id of the call")
			c.must(st.same(k.recipient, k.sid), "error", k.s, "the error does not go to the caller")
			c.must(len(effects(st, r.pre)) == 0, "error", k.s, "a call that fails changes %v", effects(st, r.pre))
			continue
		}
		if !c.must(k.reg != nil, "registration-id", k.s, "the invocation does not carry the id of the registration record that was found") {
			continue
		}
		kinds[c.su.dl.origin(st, k.recv, k.reg, k.uri)]++
		c.matching(c.su.dl, st, k.recv, k.reg, k.uri, k.s, "match")
	}
	for _, k := range []string{"exact", "prefix", "wildcard"} {
		c.must(kinds[k] > 0, "kinds", site{tag: k}, "no call is ever matched by the %s registrations", k)
	}
	// a matched call may fail only because its callee is not attached, which the upkeep of the indexes excludes
	_, bad := c.outcomes(r, 1)
	for _, o := range bad {
		st := o.st
		if v, ok := st.decide(c.su.dl.attached(r.args[0], r.args[1])); ok && !v {
			continue
		}
		gone := false
		ses := c.su.dl.sessions.init(r.args[0])
		for f, v := range st.facts {
			if f.op == OMHas && f.args[0] == c.su.dl.bySession.init(r.args[0]) && f.args[1] != r.args[1] && !v {
				gone = true
			}
			if f.op == OBin && f.tok == token.EQL && f.args[1].isNil() && f.args[0].op == OMGet && f.args[0].args[0] == ses && v {
				gone = true
			}
		}
		c.must(gone, "no-error", c.at(r.fn, "Call").on(o), "a call of an attached session can fail without an answer")
	}
}

func constStr(st *State, t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	return st.rep(t).constStr()
}

func constIntOf(st *State, t *Term) (int64, bool) {
	if t == nil {
		return 0, false
	}
	return st.rep(t).constInt()
}

// pendingParts reads the record of a pending invocation.
type pend struct {
	ptr                       *Term
	reqID, caller, callee     *Term
	progress, receiveProgress *Term
}

func (c *Check) pendRec(st *State, p *Term) (pend, bool) {
	r := pend{ptr: p}
	r.reqID, r.caller, r.callee = structField(st, p, "RequestID"), structField(st, p, "CallerID"), structField(st, p, "CalleeID")
	r.progress, r.receiveProgress = structField(st, p, "Progress"), structField(st, p, "ReceiveProgress")
	return r, r.reqID != nil && r.caller != nil && r.callee != nil && r.progress != nil && r.receiveProgress != nil
}

func (c *Check) callKey(st *State, caller, reqID *Term) *Term {
	k, _ := mapOf(c.su.dl.byCall.typ)
	s := structOf(k)
	if s == nil || s.NumFields() != 2 {
		return nil
	}
	var fs []*Term
	for i := 0; i < 2; i++ {
		if strings.Contains(strings.ToLower(s.Field(i).Name()), "caller") || strings.Contains(strings.ToLower(s.Field(i).Name()), "session") {
			fs = append(fs, caller)
		} else {
			fs = append(fs, reqID)
		}
	}
	return intern(Term{op: OStruct, typ: k, args: fs})
}

// continuation describes how a CALL relates to an open call.
type continuation struct {
	id     *Term // invocation id recorded for the caller's request id
	known  *Term // there is one
	open   *Term // it is pending
	prog   *Term // it is progressive
	callee *Term
	here   *Term // its callee is a current callee of the registration
}

func (c *Check) continuation(r *Run, st *State, k callCase) *continuation {
	d := c.su.dl
	if d.byCall == nil || d.pending == nil {
		return nil
	}
	recv := r.args[0]
	key := c.callKey(st, k.sid, c.su.get(st, r.msg, "RequestID"))
	if key == nil {
		return nil
	}
	m := d.byCall.init(recv)
	ct := &continuation{}
	ct.known = mkHas(m, key, 0)
	ct.id = mkGet(m, key, 0, types.Typ[types.Uint64])
	pm := d.pending.init(recv)
	ct.open = mkHas(pm, ct.id, 0)
	p := mkGet(pm, ct.id, 0, types.NewPointer(d.pend))
	f := func(n string) *Term {
		i := fieldNamed(d.pend, n)
		return intern(Term{op: OInit, args: []*Term{mkField(p, i)}, typ: structOf(d.pend).Field(i).Type()})
	}
	ct.prog, ct.callee = f("Progress"), f("CalleeID")
	if k.reg != nil {
		ct.here = mkHas(intern(Term{op: OInit, args: []*Term{mkField(k.reg, d.fMembers)}, typ: structOf(d.elem).Field(d.fMembers).Type()}), ct.callee, 0)
	}
	return ct
}

func ruleC14(c *Check) {
	c.frame(c.su.dl, "calls", "call", "callee", "progress")
	if !c.routerParts(c.su.dl) || !c.must(c.su.dl.byCall != nil, "anchor", site{tag: "byCall"}, "the index of invocations by call was not found") {
		return
	}
	r, cs := c.callCases()
	c.need("continued", 3)
	c.need("fresh", 3)
	for _, k := range cs {
		if k.kind != "Invocation" {
			continue
		}
		ct := c.continuation(r, k.o.st, k)
		if !c.must(ct != nil && ct.here != nil, "continued", k.s, "the index of invocations by call was not recognised") {
			continue
		}
		id := c.su.get(k.o.st, k.msg, "RequestID")
		opts := c.su.get(k.o.st, r.msg, "Options")
		if st := k.o.st.under(is(ct.known), is(ct.open), is(ct.prog), is(ct.here)); st != nil {
			c.must(st.same(id, ct.id), "continued", k.s, "a further part of an open progressive call gets an invocation id of its own")
			c.must(st.same(k.recipient, ct.callee), "continued", k.s, "a further part of an open progressive call goes to another callee")
			// the call stays open as long as its parts are marked progress
			if opts != nil {
				pm := c.su.dl.pending.init(r.args[0])
				_, p := st.hasKey(st.leafVal(c.su.dl.pending, r.args[0]), ct.id, typeOr(mkGet(pm, ct.id, 0, types.NewPointer(c.su.dl.pend))))
				if c.must(p != nil, "progress", k.s, "the open call is forgotten by its continuation") {
					got := structField(st, p, "Progress")
					for _, b := range st.clone().split(st.rep(option(opts, "progress", tBool))) {
						t := b.st.truth(b.st.rep(got))
						c.must(t == yes && b.v || t == no && !b.v, "progress", k.s, "after a part with progress=%v the call is recorded as progressive: %v", b.v, t)
					}
				}
			}
		}
		for _, cs := range [][]cond{{not(ct.known)}, {is(ct.known), not(ct.open)}, {is(ct.known), is(ct.open), not(ct.prog)}} {
			if st := k.o.st.under(cs...); st != nil {
				c.must(isNextID(st, id), "fresh", k.s, "a CALL that continues no open progressive call does not get a new invocation id")
			}
		}
	}
	c.pendingRecords("record")
}

// pendingRecords checks what is remembered about a new invocation.
func (c *Check) pendingRecords(rule string) {
	d := c.su.dl
	r, cs := c.callCases()
	for _, k := range cs {
		st := k.o.st
		pm := st.leafVal(d.pending, k.recv)
		if k.kind != "Invocation" {
			continue
		}
		id := c.su.get(st, k.msg, "RequestID")
		if !c.must(id != nil, rule, k.s, "the invocation has no single id") {
			continue
		}
		has, p := st.hasKey(pm, id, types.NewPointer(d.pend))
		if !c.must(has == yes && p != nil, rule, k.s, "an invocation is sent that is not remembered as open (%v)", has) {
			continue
		}
		rec, ok := c.pendRec(st, p)
		if !c.must(ok, rule, k.s, "the record of the invocation was not recognised") {
			continue
		}
		if !isNextID(st, id) {
			continue
		}
		reqID := c.su.get(st, r.msg, "RequestID")
		c.must(st.same(rec.reqID, reqID), rule, k.s, "the request id of the call is not remembered")
		c.must(st.same(rec.caller, k.sid), rule, k.s, "the caller is not remembered")
		c.must(st.same(rec.callee, k.recipient), rule, k.s, "the callee the invocation goes to is not the one remembered")
		opts := c.su.get(st, r.msg, "Options")
		if opts != nil {
			c.must(st.same(rec.receiveProgress, option(opts, "receive_progress", tBool)) || sameTruth(st, rec.receiveProgress, option(opts, "receive_progress", tBool)), rule, k.s, "whether the caller wants progressive results is not remembered")
			c.must(st.same(rec.progress, option(opts, "progress", tBool)) || sameTruth(st, rec.progress, option(opts, "progress", tBool)), rule, k.s, "whether the call is progressive is not remembered")
		}
		if d.byCall != nil {
			key := c.callKey(st, k.sid, reqID)
			has, v := st.hasKey(st.leafVal(d.byCall, k.recv), key, types.Typ[types.Uint64])
			c.must(has == yes && st.same(v, id), rule, k.s, "the invocation is not recorded for the caller's request id")
		}
	}
}

func sameTruth(st *State, x, y *Term) bool {
	for _, v := range []bool{true, false} {
		s := st.under(cond{y, v})
		if s == nil {
			continue
		}
		t := s.truth(s.rep(x))
		if t == maybe || (t == yes) != v {
			return false
		}
	}
	return true
}

func ruleC11(c *Check) {
	c.frame(c.su.dl, "round", "callees", "policy")
	if !c.routerParts(c.su.dl) || !c.must(c.su.dl.fCallees >= 0 && c.su.dl.fPolicy >= 0, "anchor", site{tag: "callees"}, "the list of callees or the policy of a registration was not found") {
		return
	}
	d := c.su.dl
	r, cs := c.callCases()
	c.need("recipient", 3)
	for _, p := range []string{"first", "last", "roundrobin", "random"} {
		c.need(p, 1)
	}
	fld := func(v *Term, i int) *Term {
		return intern(Term{op: OInit, args: []*Term{mkField(v, i)}, typ: structOf(d.elem).Field(i).Type()})
	}
	for _, k := range cs {
		if k.kind != "Invocation" || k.reg == nil {
			continue
		}
		ct := c.continuation(r, k.o.st, k)
		if ct != nil {
			// a continuation goes where its call went (C14)
			st := k.o.st.under(is(ct.known), is(ct.open), is(ct.prog), is(ct.here))
			if st != nil && k.o.st.same(k.recipient, ct.callee) {
				c.must(true, "recipient", k.s, "")
				continue
			}
		}
		callees := fld(k.reg, d.fCallees)
		for _, ev := range elementStores(k.o.st, func(t *Term) bool { return d.calleesList(t) }, false) {
			c.must(false, "order", k.s, "a CALL reorders or replaces the callees (%s)", c.su.p.posStr(ev.Pos))
		}
		rc := k.o.st.rep(k.recipient)
		var idx *Term
		if rc.op == OInit && rc.args[0].op == OIndex && rc.args[0].args[0] == callees {
			idx = rc.args[0].args[1]
		}
		if !c.must(idx != nil, "recipient", k.s, "the recipient is not one of the registration's current callees but %v", rc) {
			continue
		}
		n := k.o.st.sliceLen(callees)
		pol := fld(k.reg, d.fPolicy)
		for _, p := range []string{"first", "last", "roundrobin", "random"} {
			st := k.o.st.under(is(eq(pol, mkStr(p))), is(mkCmp(token.LSS, mkInt(1), n)))
			if st == nil {
				continue
			}
			i := st.norm(idx)
			switch p {
			case "first":
				c.must(st.same(i, mkInt(0)), p, k.s, "policy first picks callee %v", i)
			case "last":
				c.must(st.same(i, mkAdd(n, -1, tInt)), p, k.s, "policy last picks callee %v", i)
			case "random":
				ok := i.op == OCall && i.name == "random" && st.same(i.args[0], n)
				c.must(ok, p, k.s, "policy random picks callee %v", i)
			case "roundrobin":
				c.roundRobin(st, k, i, n)
			}
		}
	}
	// the order of the callees is the order in which they registered
	c.joins(d, "order")
	c.leaves(d, "order")
	c.turns(d)
}

// turns: the round over the callees starts with the first one, and does not start over when callees join or leave.
func (c *Check) turns(d *Router) {
	if d.fNext < 0 {
		return
	}
	c.need("turn", 3)
	for _, j := range c.joinCases(d) {
		if j.v == nil {
			continue
		}
		now := j.o.st.norm(j.o.st.field(j.v, d.fNext))
		if !j.existing {
			c.must(j.o.st.same(now, mkInt(0)), "turn", j.s, "a new registration does not begin with its first callee")
			continue
		}
		c.must(!c.restarted(d, j.o.st, j.v, now), "turn", j.s, "a callee that joins makes the round start over")
	}
	for _, l := range c.leaveCases(d) {
		now := l.st.norm(l.st.field(l.v, d.fNext))
		c.must(!c.restarted(d, l.st, l.v, now), "turn", l.s, "a callee that leaves makes the round start over")
	}
}

// restarted: the cursor of a registration was set to a constant although it need not have reached the end of the callees.
func (c *Check) restarted(d *Router, st *State, v, now *Term) bool {
	if now.op != OConst {
		return false
	}
	cur := initField(v, d.elem, d.fNext)
	less := func(l *Term) cond { return is(mkCmp(token.LSS, cur, st.sliceLen(l))) }
	list := st.field(v, d.fCallees)
	x := st.under(less(list), less(initField(v, d.elem, d.fCallees)), is(mkCmp(token.LSS, mkInt(1), st.sliceLen(list))))
	return x != nil && !x.same(cur, now)
}

// calleesList: t is what the list of callees of a registration was at entry.
func (r *Router) calleesList(t *Term) bool {
	return t.op == OInit && t.args[0].op == OField && t.args[0].n == r.fCallees && structOf(addrElem(t.args[0].args[0])) == structOf(r.elem)
}

func (c *Check) roundRobin(st *State, k callCase, i, n *Term) {
	d := c.su.dl
	if !c.must(d.fNext >= 0, "roundrobin", k.s, "there is no cursor for roundrobin") {
		return
	}
	cur := intern(Term{op: OInit, args: []*Term{mkField(k.reg, d.fNext)}, typ: structOf(d.elem).Field(d.fNext).Type()})
	after := st.norm(st.field(k.reg, d.fNext))
	mod := func(x *Term) *Term { return mkBin(token.REM, x, n, under(cur.typ)) }
	i = unconv(i)
	ok := false
	wrap := st.truth(mkCmp(token.LSS, cur, n)) // the cursor is inside
	eqs := func(x, y *Term) bool { return st.same(unconv(st.norm(x)), unconv(st.norm(y))) }
	inc := mkAdd(i, 1, tInt)
	okAfter := eqs(after, inc) || eqs(after, mod(inc)) || eqs(after, mkAdd(cur, 1, cur.typ)) && !eqs(i, mkInt(0)) ||
		after.op == OBin && after.tok == token.REM && eqs(after.args[0], mkAdd(i, 1, cur.typ)) && eqs(after.args[1], n)
	// wrapped early: stored 0 because the next index is the length
	if eqs(after, mkInt(0)) && st.truth(eq(mkAdd(i, 1, tInt), n)) == yes {
		okAfter = true
	}
	if eqs(after, mkInt(0)) && st.truth(mkCmp(token.LSS, mkAdd(i, 1, tInt), n)) == no {
		okAfter = true
	}
	switch {
	case eqs(i, cur):
		ok = wrap == yes
	case i.op == OBin && i.tok == token.REM && eqs(i.args[0], cur) && eqs(i.args[1], n):
		ok = true
		okAfter = okAfter || eqs(after, mkAdd(cur, 1, cur.typ))
	case eqs(i, mkInt(0)):
		ok = wrap == no || st.truth(eq(cur, mkInt(0))) == yes
	}
	c.must(ok, "roundrobin", k.s, "policy roundrobin picks callee %v", i)
	c.must(okAfter, "roundrobin", k.s, "after callee %v the cursor of roundrobin is %v", i, after)
}

func unconv(t *Term) *Term {
	for t.op == OConv && isIntT(t.typ) {
		t = t.args[0]
	}
	return t
}
