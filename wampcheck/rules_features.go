package main

import (
	"go/types"
	"sort"
	"strings"
)

// Rules about advertised features.

// announced is what one side announces: the features that are switched on, by role.
type announced map[string]map[string]bool

func (a announced) String() string {
	var r []string
	for role, fs := range a {
		for f := range fs {
			r = append(r, role+"."+f)
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// announcement reads a dictionary of roles.
func (st *State) announcement(roles *Term) (announced, bool) {
	if roles == nil {
		return nil, false
	}
	rs, ok := st.dictionary(roles)
	if !ok {
		return nil, false
	}
	r := announced{}
	for role, v := range rs {
		r[role] = map[string]bool{}
		if v == nil {
			return nil, false
		}
		m, ok := st.dictionary(v)
		if !ok {
			return nil, false
		}
		fv := m["features"]
		if fv == nil {
			continue
		}
		fs, ok := st.dictionary(fv)
		if !ok {
			return nil, false
		}
		for f, on := range fs {
			if on == nil {
				return nil, false
			}
			b, isB := st.rep(unbox(st.rep(on))).constBool()
			if !isB || b {
				r[role][f] = true
			}
		}
	}
	return r, true
}

// what is decided about the implementation of a feature elsewhere
var decidedElsewhere = map[string]string{
	"broker.pattern_based_subscription": "C03", "broker.publisher_identification": "C05", "subscriber.pattern_based_subscription": "C27",
	"subscriber.publisher_identification": "C27", "publisher.publisher_identification": "C27",
	"dealer.pattern_based_registration": "C10", "dealer.shared_registration": "C11", "dealer.caller_identification": "C05",
	"callee.pattern_based_registration": "C27", "callee.shared_registration": "C27", "callee.caller_identification": "C27", "caller.caller_identification": "C27",
	"publisher.publisher_exclusion": "C27", // an option of PUBLISH, which is passed on
}

func ruleC43(c *Check) {
	su := c.su
	all := map[string]announced{}
	note := func(side string, s site, st *State, roles *Term) {
		a, ok := st.announcement(roles)
		if !c.must(ok, "announced", s, "the roles announced in %s are not a dictionary with known contents", side) {
			return
		}
		if all[side] == nil {
			all[side] = announced{}
		}
		for role, fs := range a {
			if all[side][role] == nil {
				all[side][role] = map[string]bool{}
			}
			for f := range fs {
				all[side][role][f] = true
			}
		}
	}
	x := c.histories("Acceptor", "NewAcceptor", nil, false)
	if x.fail == "" {
		for _, w := range x.shakes(c) {
			d := su.get(w.st, w.wel, "Details")
			if d == nil {
				continue
			}
			m, ok := w.st.dictionary(d)
			if c.must(ok && m["roles"] != nil, "announced", w.site, "WELCOME announces no roles") {
				note("WELCOME", w.site, w.st, m["roles"])
			}
		}
	}
	y := c.joiner()
	for _, h := range y.all {
		for i := range h.steps {
			s := &h.steps[i]
			if s.msg != "SendHello" {
				continue
			}
			for _, ev := range s.st.Events(s.mark) {
				if ev.Kind == EvCall && ev.Name == "invoke:Serialize" && msgKind(s.st, ev.Args[1]) == "Hello" {
					note("HELLO", c.at(y.fn, "SendHello").on(s.pos), s.st, su.get(ev.Pre, unbox(ev.Args[1]), "Roles"))
				}
			}
		}
	}
	c.must(len(all["WELCOME"]) > 0, "announced", site{tag: "WELCOME"}, "the roles announced in WELCOME were not found")
	c.must(len(all["HELLO"]) > 0, "announced", site{tag: "HELLO"}, "the roles announced in HELLO were not found")
	ses := c.session()
	if ses == nil || !c.routerParts(su.dl) || !c.routerParts(su.bk) {
		return
	}
	checks := map[string]func(tag string){
		"dealer.progressive_call_invocations": c.progressiveInvocations,
		"dealer.progressive_call_results":     c.progressiveResults,
		"dealer.call_canceling":               c.cancelling,
		"broker.publisher_exclusion":          c.publisherExclusion,
		"callee.call_canceling":               ses.interrupts,
		"callee.progressive_call_invocations": ses.repeatedInvocation,
		"callee.progressive_call_results":     ses.repeatedYield,
		"caller.progressive_call_invocations": ses.repeatedCall,
		"caller.progressive_call_results":     ses.repeatedResult,
		"caller.call_canceling":               ses.cancels,
	}
	for _, side := range []string{"WELCOME", "HELLO"} {
		for _, f := range strings.Fields(all[side].String()) {
			c.n["feature"]++
			router := strings.HasPrefix(f, "dealer.") || strings.HasPrefix(f, "broker.")
			c.must(router == (side == "WELCOME"), "side", site{tag: f}, "%s announces a feature of the other side: %s", side, f)
			switch {
			case checks[f] != nil:
				checks[f](f)
			case decidedElsewhere[f] != "":
			default:
				c.must(false, "unknown", site{tag: f}, "%s announces %s, for which no implementation is known", side, f)
			}
		}
	}
	c.need("feature", 1)
}

// progressiveInvocations: a progressive CALL is passed on as one, and further parts of it continue the invocation.
func (c *Check) progressiveInvocations(tag string) {
	r, cs := c.callCases()
	continued := false
	var last site
	for _, k := range cs {
		if k.kind != "Invocation" {
			continue
		}
		last = site{r.fn, k.s.pos, k.o, tag}
		id := c.su.get(k.o.st, k.msg, "RequestID")
		if id != nil && !isNextID(k.o.st, id) {
			continued = true
		}
		opts, det := c.su.get(k.o.st, r.msg, "Options"), c.su.get(k.o.st, k.msg, "Details")
		if opts == nil || det == nil {
			continue
		}
		c.passedOn(k.o.st, opts, det, "progress", last, tag, "the INVOCATION for a progressive CALL is not marked progressive")
	}
	if last.fn == nil {
		last = c.at(r.fn, tag)
	}
	c.must(continued, "honoured", last, "%s is announced, but a further part of a call never continues its invocation", tag)
}

// passedOn: a flag of the options that is set is set in the details of what is sent on.
func (c *Check) passedOn(st *State, opts, det *Term, flag string, s site, tag, what string) {
	st = st.under(is(option(opts, flag, tBool)))
	if st == nil {
		return
	}
	has, v := st.hasKey(st.rep(unbox(det)), mkStr(flag), anyType())
	set := has == yes && v != nil && st.truth(st.rep(unbox(st.rep(v)))) == yes
	c.must(set, "honoured", s, "%s is announced, but %s", tag, what)
}

// progressiveResults: a progressive YIELD for a caller that asked for it is passed on as one and leaves the call open.
func (c *Check) progressiveResults(tag string) {
	if !c.dealerReady() {
		return
	}
	rc, ks := c.callCases()
	for _, k := range ks {
		opts, det := c.su.get(k.o.st, rc.msg, "Options"), c.su.get(k.o.st, k.msg, "Details")
		if k.kind == "Invocation" && opts != nil && det != nil {
			c.passedOn(k.o.st, opts, det, "receive_progress", site{rc.fn, k.s.pos, k.o, tag}, tag, "the INVOCATION for a CALL that takes progressive results does not say so")
		}
	}
	as, _, r := c.answerCases("Yield")
	n := 0
	for _, a := range as {
		opts := c.su.get(a.o.st, r.msg, "Options")
		if opts == nil || a.p.receiveProgress == nil {
			continue
		}
		st := a.o.st.under(is(option(opts, "progress", tBool)), is(a.p.receiveProgress))
		if st == nil {
			continue
		}
		n++
		s := site{r.fn, a.s.pos, a.o, tag}
		marked := no
		if d := c.su.get(st, a.rp.msg, "Details"); d != nil && a.rp.kind == "Result" {
			has, v := st.hasKey(st.rep(unbox(d)), mkStr("progress"), anyType())
			if marked = has; has == yes && v != nil {
				marked = st.truth(st.rep(unbox(st.rep(v))))
			}
		}
		c.must(marked == yes, "honoured", s, "%s is announced, but the RESULT of a progressive YIELD is not marked progressive", tag)
		c.must(c.openAfter(st, a.recv, a.id) != no, "honoured", s, "%s is announced, but a progressive YIELD ends its call", tag)
	}
	c.must(n > 0, "honoured", c.at(r.fn, tag), "%s is announced, but a progressive YIELD is never passed on", tag)
}

// cancelling: CANCEL is answered in some way.
func (c *Check) cancelling(tag string) {
	r := c.run("", "Dealer", "ReceiveMessage", "Cancel")
	if r.e == nil {
		return
	}
	good, _ := c.outcomes(r, 1)
	c.must(len(good) > 0, "honoured", c.at(r.fn, tag), "%s is announced, but every CANCEL is refused", tag)
}

// publisherExclusion: a publisher is not among the recipients unless it asked for that.
func (c *Check) publisherExclusion(tag string) {
	r, cs := c.publishCases()
	for _, p := range cs {
		if p.event == nil || p.sub == nil {
			continue
		}
		st := p.o.st
		opts := c.su.get(st, r.msg, "Options")
		if opts != nil {
			if st = st.under(not(mkHas(opts, mkStr("exclude_me"), 0))); st == nil {
				continue // the publisher asked for something
			}
		}
		m, why := c.su.collected(st, p.recipient)
		want := c.su.bk.members(st, p.sub)
		c.must(why != "" || m != want, "honoured", site{r.fn, p.s.pos, p.o, tag}, "%s is announced, but the recipients are all subscribers, a subscribed publisher included", tag)
	}
}

func (x *sessions) feature(tag string, op *sop, ok bool, what string) {
	x.c.must(ok, "honoured", x.c.at(op.fn, tag), "%s is announced, but %s", tag, what)
}

// can tells whether an operation is accepted in some case.
func (x *sessions) can(st *State, op *sop) (r []verdict) {
	for _, v := range x.do(st, op) {
		if v.ok {
			r = append(r, v)
		}
	}
	return
}

func (x *sessions) interrupts(tag string) {
	if op := x.named(false, "Interrupt", "first"); op != nil {
		x.feature(tag, op, len(x.can(x.pre, op)) > 0, "every INTERRUPT is refused by the session")
	}
}

func (x *sessions) cancels(tag string) {
	if op := x.named(true, "Cancel", "first"); op != nil {
		x.feature(tag, op, len(x.can(x.pre, op)) > 0, "the session never sends a CANCEL")
	}
}

// twice: after an accepted message another one with the same id is accepted; progress: the first is marked progressive.
func (x *sessions) twice(tag string, send bool, kind, dict, what string) {
	a, b := x.named(send, kind, "first"), x.named(send, kind, "second")
	if a == nil || b == nil {
		return
	}
	n := 0
	for _, v := range x.can(x.pre, a) {
		st := v.o.st.withEq(x.get(v.o.st, a, "RequestID"), x.get(v.o.st, b, "RequestID"))
		if st == nil {
			continue
		}
		if kind == "Invocation" {
			if st = st.withEq(x.get(st, a, "RegistrationID"), x.get(st, b, "RegistrationID")); st == nil {
				continue
			}
		}
		if dict != "" {
			d := x.get(st, a, dict)
			if d == nil {
				continue
			}
			if st = st.under(is(option(d, "progress", types.Typ[types.Bool]))); st == nil {
				continue
			}
		}
		n++
		x.feature(tag, a, len(x.can(st, b)) > 0, what)
	}
	x.feature(tag, a, n > 0, what)
}

func (x *sessions) repeatedInvocation(tag string) {
	x.twice(tag, false, "Invocation", "Details", "a further INVOCATION of a progressive call is refused by the session")
}

func (x *sessions) repeatedYield(tag string) {
	x.twice(tag, true, "Yield", "Options", "after a progressive YIELD no other is sent by the session")
	// the library's own router and callers take part
	x.c.progressiveResults(tag)
	x.repeatedResult(tag)
}

func (x *sessions) repeatedCall(tag string) {
	x.twice(tag, true, "Call", "Options", "after a progressive CALL no further part of it is sent by the session")
}

func (x *sessions) repeatedResult(tag string) {
	x.twice(tag, false, "Result", "Details", "after a progressive RESULT the next one is refused by the session")
}
