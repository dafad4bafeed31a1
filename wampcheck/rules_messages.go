package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// element of a message list: the accessor that gives it, and its kind (i id, s string, d dictionary)
type elemSpec struct {
	acc  string
	kind byte
}

// layout is what WAMP says about a message type.
type layout struct {
	name    string
	code    int64
	elems   []elemSpec
	payload bool     // args and kwargs may follow
	ctor    []string // accessors in the order of the parameters of the constructor
	binary  bool     // there is a constructor for opaque payloads
}

func ids(s string) []string { return strings.Fields(s) }

func spec(s string) (r []elemSpec) {
	for _, f := range strings.Fields(s) {
		r = append(r, elemSpec{f[2:], f[0]})
	}
	return r
}

// layouts is the message layout of the WAMP basic and advanced profiles.
var layouts = []layout{
	{"Hello", 1, spec("s:Realm d:"), false, ids("Realm AuthID AuthExtra Roles AuthMethods"), false},
	{"Welcome", 2, spec("i:SessionID d:Details"), false, ids("SessionID Details"), false},
	{"Abort", 3, spec("d:Details s:Reason"), true, ids("Details Reason Args KwArgs"), false},
	{"Challenge", 4, spec("s:AuthMethod d:Extra"), false, ids("AuthMethod Extra"), false},
	{"Authenticate", 5, spec("s:Signature d:Extra"), false, ids("Signature Extra"), false},
	{"GoodBye", 6, spec("d:Details s:Reason"), false, ids("Reason Details"), false},
	{"Error", 8, spec("i:MessageType i:RequestID d:Details s:URI"), true, ids("MessageType RequestID Details URI Args KwArgs"), false},
	{"Publish", 16, spec("i:RequestID d:Options s:Topic"), true, ids("RequestID Options Topic Args KwArgs"), false},
	{"Published", 17, spec("i:RequestID i:PublicationID"), false, ids("RequestID PublicationID"), false},
	{"Subscribe", 32, spec("i:RequestID d:Options s:Topic"), false, ids("RequestID Options Topic"), false},
	{"Subscribed", 33, spec("i:RequestID i:SubscriptionID"), false, ids("RequestID SubscriptionID"), false},
	{"Unsubscribe", 34, spec("i:RequestID i:SubscriptionID"), false, ids("RequestID SubscriptionID"), false},
	{"Unsubscribed", 35, spec("i:RequestID"), false, ids("RequestID"), false},
	{"Event", 36, spec("i:SubscriptionID i:PublicationID d:Details"), true, ids("SubscriptionID PublicationID Details Args KwArgs"), false},
	{"Call", 48, spec("i:RequestID d:Options s:Procedure"), true, ids("RequestID Options Procedure Args KwArgs"), true},
	{"Cancel", 49, spec("i:RequestID d:Options"), false, ids("RequestID Options"), false},
	{"Result", 50, spec("i:RequestID d:Details"), true, ids("RequestID Details Args KwArgs"), true},
	{"Register", 64, spec("i:RequestID d:Options s:Procedure"), false, ids("RequestID Options Procedure"), false},
	{"Registered", 65, spec("i:RequestID i:RegistrationID"), false, ids("RequestID RegistrationID"), false},
	{"Unregister", 66, spec("i:RequestID i:RegistrationID"), false, ids("RequestID RegistrationID"), false},
	{"Unregistered", 67, spec("i:RequestID"), false, ids("RequestID"), false},
	{"Invocation", 68, spec("i:RequestID i:RegistrationID d:Details"), true, ids("RequestID RegistrationID Details Args KwArgs"), true},
	{"Interrupt", 69, spec("i:RequestID d:Options"), false, ids("RequestID Options"), false},
	{"Yield", 70, spec("i:RequestID d:Options"), true, ids("RequestID Options Args KwArgs"), true},
}

// what HELLO carries in its details
var helloDetails = map[string]string{"authid": "AuthID", "authmethods": "AuthMethods", "authextra": "AuthExtra", "roles": "Roles"}

func anyType() types.Type { return types.NewInterfaceType(nil, nil) }

func isEmptyIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	i, ok := under(t).(*types.Interface)
	return ok && i.Empty()
}

func sigIs(fn *ssa.Function, params, results []func(types.Type) bool) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != len(params) || s.Results().Len() != len(results) || s.Variadic() {
		return false
	}
	for i, f := range params {
		if !f(s.Params().At(i).Type()) {
			return false
		}
	}
	for i, f := range results {
		if !f(s.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func kindIs(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool { return isBasic(t, k) }
}

func sliceOf(el func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		return ok && el(s.Elem())
	}
}

// numberFunc: a function that reads an identifier, whatever number type it has; C35 decides what these do.
func numberFunc(fn *ssa.Function) bool {
	return inModule(fn) && sigIs(fn, []func(types.Type) bool{isEmptyIface}, []func(types.Type) bool{kindIs(types.Uint64), kindIs(types.Bool)})
}

// stringsFunc: a function that makes strings of a list of values; C28 decides what these do.
func stringsFunc(fn *ssa.Function) bool {
	return inModule(fn) && sigIs(fn, []func(types.Type) bool{sliceOf(isEmptyIface)}, []func(types.Type) bool{sliceOf(kindIs(types.String)), isErrorType})
}

// What a codec makes of a value: numbers of a type of its choice, lists of values.
const (
	codecNumber  = "codec.number"
	codecStrings = "codec.strings"
)

// msgEngine analyses message code; the conversion helpers are kept as they are.
func (c *Check) msgEngine() *Engine {
	e := c.su.engine()
	e.callHook = func(s *State, fn *ssa.Function, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
		switch {
		case numberFunc(fn):
			x := s.rep(args[0])
			if x.op == OIface || x.isNil() {
				return nil, false
			}
			if x.op == OCall && x.name == codecNumber {
				return []callRes{{st: s, val: mkTuple([]*Term{x.args[0], mkBool(true)})}}, true
			}
			n := mkCall("number", 0, nil, x)
			return []callRes{{st: s, val: mkTuple([]*Term{mkExtract(n, 0, rt.At(0).Type()), mkExtract(n, 1, tBool)})}}, true
		case stringsFunc(fn):
			x := s.rep(args[0])
			if x.op == OCall && x.name == codecStrings {
				return []callRes{{st: s, val: mkTuple([]*Term{x.args[0], mkNil()})}}, true
			}
			if x.op == OSlice || x.isNil() {
				return nil, false
			}
			n := mkCall("strings", 0, nil, x)
			return []callRes{{st: s, val: mkTuple([]*Term{mkExtract(n, 0, rt.At(0).Type()), mkExtract(n, 1, rt.At(1).Type())})}}, true
		}
		return nil, false
	}
	return e
}

// isNumber: a value is known to be a number; its numeric value.
func (st *State) isNumber(x *Term) bool {
	n := mkCall("number", 0, nil, x)
	if st.truth(mkExtract(n, 1, tBool)) == yes {
		return true
	}
	for _, k := range numberKinds {
		if st.truth(mkAssertOK(x, types.Typ[k])) == yes {
			return true
		}
	}
	return false
}

var numberKinds = []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64}

// numberOf: v is the number in a value.
func (st *State) numberOf(v, x *Term) bool {
	v = st.rep(v)
	if v == mkExtract(mkCall("number", 0, nil, x), 0, types.Typ[types.Uint64]) {
		return true
	}
	for v.op == OConv {
		v = st.rep(v.args[0])
	}
	return v.op == OAssert && v.args[0] == x
}

// layoutsOf gives the table and checks that it covers all message types.
func (c *Check) layouts() []layout {
	seen := map[string]bool{}
	for _, l := range layouts {
		seen[l.name] = true
		c.must(c.su.msgType(l.name) != nil, "types", site{tag: l.name}, "there is no message type %s", l.name)
	}
	for _, m := range c.su.msgs {
		c.must(seen[m.Obj().Name()], "types", site{tag: m.Obj().Name()}, "the message type %s is not one of the 24 that are described", m.Obj().Name())
	}
	return layouts
}

// method analyses a method of a message with unknown contents.
func (c *Check) messageRun(t *types.Named, name string, args func(e *Engine) []*Term) (fn *ssa.Function, e *Engine, ptr *Term, as []*Term, outs []Outcome) {
	fn = c.su.method(types.NewPointer(t), name)
	if fn == nil {
		c.must(false, "anchor", site{tag: t.Obj().Name()}, "%s has no method %s", t.Obj().Name(), name)
		return
	}
	e = c.msgEngine()
	_, ptr = c.su.message(e, t)
	if args != nil {
		as = args(e)
	}
	s := c.su.p.start(e)
	outs = e.Call(s, fn, append([]*Term{ptr}, as...), nil, 0, nil)
	c.count(fn, e, len(outs))
	return
}

// count notes an analysis that is not in the table of runs.
func (c *Check) count(fn *ssa.Function, e *Engine, n int) {
	c.paths += n
	for f := range e.fns {
		c.fns[fnShort(f)] = true
	}
	for n := range e.notes {
		if strings.Contains(n, "budget") {
			c.must(false, "complete", c.at(fn, ""), "the analysis is incomplete: %s", n)
		}
	}
}

// ---- C27 ----

func ruleC27(c *Check) {
	for _, l := range c.layouts() {
		t := c.su.msgType(l.name)
		if t == nil {
			continue
		}
		fn, _, _, _, outs := c.messageRun(t, "Type", nil)
		for i := range outs {
			o := &outs[i]
			if o.panicked || len(o.rets) != 1 {
				continue
			}
			n, ok := constIntOf(o.st, o.rets[0])
			c.must(ok && n == l.code, "type", c.at(fn, l.name).on(o), "the type code is %v instead of %d", o.rets[0], l.code)
		}
		fn, _, ptr, _, outs := c.messageRun(t, "Marshal", nil)
		for i := range outs {
			o := &outs[i]
			if !o.panicked && len(o.rets) == 1 {
				c.wire(l, t, ptr, c.at(fn, l.name).on(o), o)
			}
		}
	}
	c.need("type", 24)
	c.need("element", 60)
	c.need("payload", 20)
}

// emptyOr: a value is none or an empty list or dictionary.
func (st *State) isEmpty(x *Term) bool {
	x = st.rep(unbox(st.rep(x)))
	if x.isNil() {
		return true
	}
	if es, ok := st.elems(x); ok {
		return len(es) == 0
	}
	if d, ok := st.dictionary(x); ok {
		return len(d) == 0
	}
	if v, ok := st.isNilTerm(x); ok && v {
		return true
	}
	return st.truth(eq(st.norm(mkLen(x, 0)), mkInt(0))) == yes || st.truth(mkCmp(token.LSS, mkInt(0), st.norm(mkLen(x, 0)))) == no
}

// sameValue: equal, where no list or dictionary counts as an empty one.
func (st *State) sameValue(x, y *Term) bool {
	if x == nil || y == nil {
		return false
	}
	x, y = st.rep(unbox(st.rep(x))), st.rep(unbox(st.rep(y)))
	if st.same(x, y) {
		return true
	}
	switch under(typeOr(x)).(type) {
	case *types.Slice, *types.Map:
	default:
		if !x.isNil() {
			return false
		}
	}
	return st.isEmpty(x) && st.isEmpty(y)
}

func (c *Check) wire(l layout, t *types.Named, ptr *Term, s site, o *Outcome) {
	st := o.st
	es, ok := st.elems(st.rep(o.rets[0]))
	if !c.must(ok, "element", s, "the list is not of a known length") {
		return
	}
	if !c.must(len(es) >= 1+len(l.elems), "element", s, "the list has %d elements, WAMP defines at least %d", len(es), 1+len(l.elems)) {
		return
	}
	n, ok := constIntOf(st, unbox(es[0]))
	c.must(ok && n == l.code && isIntT(typeOr(unbox(es[0]))), "element", s, "the first element is %v instead of the type code %d", es[0], l.code)
	msg := mkIface(types.NewPointer(t), ptr)
	for i, el := range l.elems {
		got := es[i+1]
		if el.acc == "" {
			d, ok := st.dictionary(got)
			if !c.must(ok, "element", s, "element %d is not a known dictionary", i+1) {
				continue
			}
			for k, acc := range helloDetails {
				want := c.su.get(st, msg, acc)
				c.must(d[k] != nil && want != nil && st.sameValue(d[k], want), "element", s, "%q in the details of %s is %v instead of %s", k, l.name, d[k], acc)
			}
			continue
		}
		want := c.su.get(st, msg, el.acc)
		c.must(want != nil && st.sameValue(got, want), "element", s, "element %d of %s is %v instead of %s", i+1, l.name, got, el.acc)
		// what stands for an absent dictionary must be a dictionary
		if el.kind == 'd' {
			_, isMap := under(typeOr(unbox(got))).(*types.Map)
			c.must(isMap, "element", s, "element %d of %s is not a dictionary", i+1, l.name)
		}
	}
	rest := es[1+len(l.elems):]
	if !l.payload {
		c.must(len(rest) == 0, "element", s, "%s has %d more elements than WAMP defines", l.name, len(rest))
		return
	}
	args, kwargs := c.su.get(st, msg, "Args"), c.su.get(st, msg, "KwArgs")
	if !c.must(args != nil && kwargs != nil, "payload", s, "the payload of %s has no single value", l.name) {
		return
	}
	if len(rest) > 0 {
		c.must(st.sameValue(rest[0], args), "payload", s, "the positional arguments are encoded as %v", rest[0])
		v, known := st.isNilTerm(unbox(rest[0]))
		c.must(known && !v, "payload", s, "no list stands in the place of the positional arguments")
	} else {
		c.must(st.isEmpty(args), "payload", s, "the positional arguments are left out")
	}
	if len(rest) > 1 {
		c.must(st.sameValue(rest[1], kwargs), "payload", s, "the keyword arguments are encoded as %v", rest[1])
		v, known := st.isNilTerm(unbox(rest[1]))
		c.must(known && !v, "payload", s, "no dictionary stands in the place of the keyword arguments")
	} else {
		c.must(st.isEmpty(kwargs), "payload", s, "the keyword arguments are left out")
	}
	c.must(len(rest) <= 2, "payload", s, "%s has %d elements after its fields", l.name, len(rest))
}

// ---- C28 ----

// codec gives what a codec's decoder makes of an encoded value; states in which it differs are split.
func (c *Check) codec(st *State, x *Term, each func(st *State, v *Term)) {
	x = st.rep(x)
	y := x
	if y.op == OIface {
		y = st.rep(y.args[0])
	}
	t := typeOr(y)
	if x.op == OIface {
		t = x.typ
	}
	nilOr := func(v *Term) {
		for _, b := range st.clone().split(eq(y, mkNil())) {
			if b.v {
				each(b.st, mkNil())
			} else {
				each(b.st, v)
			}
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsNumeric != 0 {
			each(st, mkCall(codecNumber, 0, anyType(), y))
			return
		}
	case *types.Slice:
		if isBasic(u.Elem(), types.String) {
			lt := types.NewSlice(anyType())
			if es, ok := st.elems(y); ok && !y.isNil() {
				st = st.clone()
				var as []*Term
				for _, e := range es {
					as = append(as, mkIface(types.Typ[types.String], e))
				}
				each(st, mkIface(lt, st.newSlice(as, anyType(), lt)))
				return
			}
			v := mkCall(codecStrings, 0, lt, y)
			nilOr(mkIface(lt, v))
			return
		}
		if y.op == OAppend || y.op == OSlice {
			each(st, x)
			return
		}
		nilOr(x)
		return
	case *types.Map:
		if ks, ok := st.sortedKeys(y); ok && !y.isNil() && len(ks) > 0 {
			// a dictionary with known keys: its values are decoded too
			m := intern(Term{op: OMapNew, typ: t, n: newSerial()})
			s0 := st.clone()
			s0.maps[m] = &MapSt{known: true}
			var step func(s *State, i int)
			step = func(s *State, i int) {
				if i == len(ks) {
					each(s, mkIface(t, m))
					return
				}
				_, v := s.hasKey(y, ks[i], u.Elem())
				if v == nil {
					v = mkCall("value", 0, u.Elem(), y, ks[i])
				}
				c.codec(s, v, func(s2 *State, d *Term) {
					s2 = s2.clone()
					s2.mapUpdate(m, mapUpd{key: ks[i], val: d})
					step(s2, i+1)
				})
			}
			step(s0, 0)
			return
		}
		nilOr(x)
		return
	}
	each(st, x)
}

// codecList is codec for each element of a list.
func (c *Check) codecList(st *State, es []*Term, each func(st *State, vs []*Term)) {
	var step func(s *State, vs []*Term)
	step = func(s *State, vs []*Term) {
		if len(vs) == len(es) {
			each(s, vs)
			return
		}
		c.codec(s, es[len(vs)], func(s2 *State, v *Term) {
			step(s2, append(append([]*Term(nil), vs...), v))
		})
	}
	step(st, nil)
}

// feasible: a path can be taken when every number of the list was decoded as some number type.
func feasible(st *State) bool {
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		t.any(func(y *Term) bool {
			if y.op == OCall && y.name == codecNumber {
				seen[y] = true
			}
			return false
		})
	}
	for f := range st.facts {
		scan(f)
	}
	for n := range seen {
		some := false
		for _, k := range numberKinds {
			x := mkAssert(n, types.Typ[k])
			if st.truth(mkAssertOK(n, types.Typ[k])) != no && !(st.truth(mkCmp(token.LSS, x, mkConst(constant.MakeInt64(0), types.Typ[k]))) == yes) {
				some = true
			}
		}
		if !some {
			return false
		}
	}
	return true
}

func ruleC28(c *Check) {
	for _, l := range c.layouts() {
		t := c.su.msgType(l.name)
		if t == nil {
			continue
		}
		c.roundTrip(l, t, "New"+l.name, false)
		if l.binary {
			c.roundTrip(l, t, "New"+l.name+"Binary", true)
		}
	}
	c.stringHelpers()
	c.need("accepted", 30)
	c.need("field", 100)
	c.need("constructor", 80)
	c.need("strings", 1)
}

func (c *Check) roundTrip(l layout, t *types.Named, ctor string, binary bool) {
	fn := c.su.p.fn("messages", "", ctor)
	if fn == nil {
		c.must(false, "anchor", site{tag: ctor}, "there is no %s", ctor)
		return
	}
	if !binary {
		c.fromFields(l, t)
	}
	marshal, parse := c.su.method(types.NewPointer(t), "Marshal"), c.su.method(types.NewPointer(t), "Parse")
	if marshal == nil || parse == nil {
		c.must(false, "anchor", site{tag: l.name}, "%s has no Marshal or Parse", l.name)
		return
	}
	e := c.msgEngine()
	s := c.su.p.start(e)
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, mkSym(q.Name(), q.Type()))
	}
	built := e.Call(s, fn, args, nil, 0, nil)
	c.count(fn, e, len(built))
	c.discharged(e, fn, "")
	for i := range built {
		b := &built[i]
		if b.panicked || len(b.rets) != 1 {
			continue
		}
		at := c.at(fn, "").on(b)
		msg := mkIface(types.NewPointer(t), b.st.rep(b.rets[0]))
		// what the message says is what it was built from
		says := l.ctor
		if binary {
			says = append(append([]string(nil), l.ctor[:len(l.ctor)-2]...), "Payload", "PayloadSerializer")
			c.must(b.st.truth(c.su.get(b.st, msg, "PayloadIsBinary")) == yes, "constructor", at, "a new %s of an encoded payload does not say so", l.name)
		}
		if c.must(len(args) == len(says), "constructor", at, "%s takes %d parameters", ctor, len(args)) {
			for k, acc := range says {
				if _, m := mapOf(args[k].typ); binary && m != nil {
					// the serializer is added to the options
					if z, known := b.st.isNilTerm(args[k]); known && z {
						continue
					}
				}
				v := c.su.get(b.st, msg, acc)
				c.must(v != nil && b.st.sameValue(v, args[k]), "constructor", at, "%s of a new %s is %v instead of %v", acc, l.name, v, args[k])
			}
		}
		lists := e.Call(b.st.clone(), marshal, []*Term{msg.args[0]}, nil, 0, nil)
		c.count(marshal, e, len(lists))
		for j := range lists {
			m := &lists[j]
			if m.panicked || len(m.rets) != 1 {
				continue
			}
			es, ok := m.st.elems(m.st.rep(m.rets[0]))
			if !ok {
				continue // C27
			}
			c.codecList(m.st, es, func(st *State, vs []*Term) {
				c.reparse(l, t, msg, parse, e, st, vs, binary)
			})
		}
	}
}

// fromFields: a message made from fields says what they say.
func (c *Check) fromFields(l layout, t *types.Named) {
	fn := c.su.p.fn("messages", "", "New"+l.name+"WithFields")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		return
	}
	it, ok := under(fn.Params[0].Type()).(*types.Interface)
	if !ok {
		return
	}
	e := c.msgEngine()
	fields := mkSym("fields", fn.Params[0].Type())
	e.nonNil[fields] = true
	outs := e.Call(c.su.p.start(e), fn, []*Term{fields}, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		at := c.at(fn, "").on(o)
		if !c.must(!o.panicked && len(o.rets) == 1 && o.st.truth(eq(o.rets[0], mkNil())) != yes, "constructor", at, "it makes no message") {
			continue
		}
		msg := mkIface(types.NewPointer(t), o.st.rep(o.rets[0]))
		for j := 0; j < it.NumMethods(); j++ {
			m := it.Method(j)
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				continue
			}
			got, want := c.su.get(o.st, msg, m.Name()), c.su.get(o.st, fields, m.Name())
			c.must(got != nil && want != nil && o.st.sameValue(got, want), "constructor", at, "%s of a %s made from fields is %v, not that of the fields", m.Name(), l.name, got)
		}
	}
}

// reparse decodes an encoded message again and compares the fields.
func (c *Check) reparse(l layout, t *types.Named, msg *Term, parse *ssa.Function, e *Engine, st *State, vs []*Term, binary bool) {
	st = st.clone()
	p := intern(Term{op: OAlloc, typ: t, n: newSerial(), name: "parsed"})
	st.store(p, zero(t), t)
	c.reparseInto(l, t, p, msg, parse, e, st, vs, binary)
	// nothing of what a message said before is left in it
	_, used := c.su.messageNamed(e, t, "used")
	c.reparseInto(l, t, used, msg, parse, e, st, vs, binary)
}

func (c *Check) reparseInto(l layout, t *types.Named, p, msg *Term, parse *ssa.Function, e *Engine, st *State, vs []*Term, binary bool) {
	st = st.clone()
	list := st.newSlice(vs, anyType(), types.NewSlice(anyType()))
	outs := e.Call(st, parse, []*Term{p, list}, nil, 0, nil)
	c.count(parse, e, len(outs))
	again := mkIface(types.NewPointer(t), p)
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 1 || !feasible(o.st) {
			continue
		}
		at := c.at(parse, l.name).on(o)
		f, known := failed(*o, 0)
		if !c.must(known && !f, "accepted", at, "%s refuses what was encoded for a message with these fields: %v", l.name, vs) {
			continue
		}
		if binary {
			continue
		}
		for _, acc := range l.ctor {
			x, y := c.su.get(o.st, msg, acc), c.su.get(o.st, again, acc)
			ok := x != nil && y != nil && (o.st.sameValue(x, y) || c.viaCodec(o.st, x, y))
			c.must(ok, "field", at, "%s is %v after decoding, it was %v", acc, y, x)
		}
	}
}

// viaCodec: y is x after a codec decoded it.
func (c *Check) viaCodec(st *State, x, y *Term) bool {
	x, y = st.rep(x), st.rep(y)
	z := y
	for z.op == OConv {
		z = st.rep(z.args[0])
	}
	if z.op == OAssert && z.args[0].op == OCall && z.args[0].name == codecNumber && st.same(z.args[0].args[0], x) {
		return true
	}
	return c.stringsOf(st, y, mkCall(codecStrings, 0, types.NewSlice(anyType()), x)) == ""
}

// stringsOf: x lists the elements of a list, all of which are strings, in order; why not otherwise.
func (c *Check) stringsOf(st *State, x, list *Term) string {
	return inOrder(st, x, list, func(bs *State, el, v *Term) bool {
		return bs.rep(v) == bs.rep(mkAssert(el, types.Typ[types.String])) && bs.truth(mkAssertOK(el, types.Typ[types.String])) == yes
	})
}

// inOrder: x was filled by a loop over a list that adds one value for each element in order; why not otherwise.
func inOrder(st *State, x, list *Term, good func(bs *State, el, v *Term) bool) string {
	x = st.rep(x)
	var l *LoopAct
	lv := st.loopOf[x]
	byIndex := x.op == OCall && x.name == "makeslice"
	if lv != nil {
		l = lv.Loop
		if es, ok := l.Entry.elems(lv.Init); !ok || len(es) != 0 {
			if lv.Init.op != OCall || lv.Init.name != "makeslice" || l.Entry.truth(eq(l.Entry.rep(mkLen(lv.Init, 0)), mkInt(0))) != yes {
				return "the list is not empty before the loop"
			}
		}
	}
	if byIndex {
		for _, ev := range st.Events(0) {
			if ev.Kind == EvLoop && ev.Name == "done" {
				l = ev.Loop
			}
		}
		if !st.same(x.args[0], st.rep(mkLen(list, 0))) {
			return "the list has another length"
		}
	}
	if l == nil {
		return "it is not made by a loop"
	}
	done := false
	for _, ev := range st.Events(0) {
		if ev.Kind == EvLoop && ev.Loop == l && ev.Name == "done" {
			done = true
		}
	}
	if !done || len(l.Backs) == 0 {
		return "the loop is not followed to its end"
	}
	et := elemOf(typeOr(list))
	for _, b := range l.Backs {
		var idx *Term
		for i, ph := range l.Phis {
			k, ok := ph.Init.constInt()
			if ok && b.Next[i] == mkAdd(ph.Sym, 1, tInt) && (k == 0 || k == -1) {
				idx = mkAdd(ph.Sym, -k, tInt)
				break
			}
		}
		if idx == nil {
			return "the loop does not count the elements"
		}
		el := b.St.rep(b.St.load(mkIndex(list, idx), et))
		if byIndex {
			n := 0
			for _, ev := range b.St.Events(b.Mark) {
				if ev.Kind == EvStore && ev.Addr.op == OIndex && ev.Addr.args[0] == x {
					if ev.Addr.args[1] != idx || !good(b.St, el, ev.Val) {
						return "the loop stores something else"
					}
					n++
				}
			}
			if n != 1 {
				return "the loop leaves elements out"
			}
			continue
		}
		var next *Term
		if lv.Phi != nil {
			for i, ph := range l.Phis {
				if ph.Phi == lv.Phi {
					next = b.Next[i]
				}
			}
		} else {
			next = b.St.rep(b.St.load(lv.Addr, lv.Init.typ))
		}
		if next == nil || next.op != OAppend {
			return "the loop leaves elements out"
		}
		lv2 := b.St.loopOf[next.args[0]]
		if lv2 == nil || lv2.Loop != l || lv2.Phi != lv.Phi || lv2.Addr != lv.Addr {
			return "the loop does not extend the list"
		}
		es, ok := b.St.elems(next.args[1])
		if !ok || len(es) != 1 || !good(b.St, el, es[0]) {
			return "the loop adds something else than the element"
		}
	}
	return ""
}

// moduleFuncs lists the functions of the module that satisfy a condition.
func (c *Check) moduleFuncs(f func(*ssa.Function) bool) (r []*ssa.Function) {
	for _, fn := range c.su.p.funcs {
		if fn.Synthetic == "" && f(fn) {
			r = append(r, fn)
		}
	}
	return r
}

// stringHelpers decides the functions that make strings of decoded lists.
func (c *Check) stringHelpers() {
	for _, fn := range c.moduleFuncs(stringsFunc) {
		e := c.su.engine()
		s := c.su.p.start(e)
		in := mkSym("list", fn.Params[0].Type())
		outs := e.Call(s, fn, []*Term{in}, nil, 0, nil)
		c.count(fn, e, len(outs))
		for i := range outs {
			o := &outs[i]
			if o.panicked || len(o.rets) != 2 {
				continue
			}
			at := c.at(fn, "").on(o)
			f, known := failed(*o, 1)
			if !c.must(known, "strings", at, "it is not clear whether an error is returned") {
				continue
			}
			if f {
				c.must(refusesElement(o.st, in), "strings", at, "a list is refused although no element is known not to be a string")
				continue
			}
			why := c.stringsOf(o.st, o.rets[0], in)
			c.must(why == "" || o.st.isEmpty(o.rets[0]) && o.st.isEmpty(in), "strings", at, "the result is not the list of the elements: %s", why)
		}
	}
}

// refusesElement: some element of a list is known not to be a string.
func refusesElement(st *State, list *Term) bool {
	for f, v := range st.facts {
		if !v && f.op == OAssertOK && isBasic(f.typ, types.String) && elemOfList(st, f.args[0], list) != nil {
			return true
		}
	}
	return false
}

// ---- C29 ----

func ruleC29(c *Check) {
	for _, l := range c.layouts() {
		t := c.su.msgType(l.name)
		if t == nil {
			continue
		}
		var list *Term
		fn, _, _, _, outs := c.messageRun(t, "Parse", func(e *Engine) []*Term {
			list = mkSym("list", types.NewSlice(anyType()))
			return []*Term{list}
		})
		good := 0
		for i := range outs {
			o := &outs[i]
			if o.panicked || len(o.rets) != 1 {
				continue
			}
			at := c.at(fn, l.name).on(o)
			f, known := failed(*o, 0)
			if !c.must(known, "outcome", at, "it is not clear whether an error is returned") {
				continue
			}
			if f {
				continue
			}
			good++
			c.valid(l, list, o.st, at)
			for _, ev := range elementStores(o.st, func(x *Term) bool { return x == list }, false) {
				c.must(false, "input", at, "the list that is parsed is changed (%s)", c.su.p.posStr(ev.Pos))
			}
		}
		c.must(good > 0, "outcome", c.at(fn, l.name), "%s is never accepted", l.name)
	}
	c.dispatch("unknown")
	c.need("outcome", 100)
	c.need("length", 24)
	c.need("element", 40)
	c.need("unknown", 2)
}

// valid: on this path the list has the layout of a message type.
func (c *Check) valid(l layout, list *Term, st *State, at site) {
	lo, hi := int64(1+len(l.elems)), int64(1+len(l.elems))
	if l.payload {
		hi += 2
	}
	n := st.norm(mkLen(list, 0))
	a, ok1 := st.minDiff(mkInt(lo), n)
	b, ok2 := st.minDiff(n, mkInt(hi))
	c.must(ok1 && a >= 0, "length", at, "a %s of less than %d elements is accepted", l.name, lo)
	c.must(ok2 && b >= 0, "length", at, "a %s of more than %d elements is accepted", l.name, hi)
	at2 := func(i int64) *Term { return st.rep(st.load(mkIndex(list, mkInt(i)), anyType())) }
	sure := func(t types.Type, i int64) bool { return st.truth(mkAssertOK(at2(i), t)) == yes }
	dict := types.NewMap(types.Typ[types.String], anyType())
	for i, el := range l.elems {
		k := int64(i + 1)
		var ok bool
		var what string
		switch el.kind {
		case 'i':
			ok, what = st.isNumber(at2(k)), "an identifier"
		case 's':
			ok, what = sure(types.Typ[types.String], k), "a string"
		case 'd':
			ok, what = sure(dict, k), "a dictionary"
		}
		c.must(ok, "element", at, "a %s whose element %d is not %s is accepted", l.name, k, what)
	}
	if !l.payload {
		return
	}
	for i, t := range []types.Type{types.NewSlice(anyType()), dict} {
		k := lo + int64(i)
		u := st.under(is(mkCmp(token.LSS, mkInt(k), n)))
		if u == nil {
			c.must(true, "element", at, "")
			continue
		}
		c.must(u.truth(mkAssertOK(u.rep(u.load(mkIndex(list, mkInt(k)), anyType())), t)) == yes, "element", at,
			"a %s whose element %d is not a %s is accepted", l.name, k, []string{"list", "dictionary"}[i])
	}
}

// dispatch checks which message a list becomes.
func (c *Check) dispatch(rule string) {
	fn := c.su.p.fn("serializers", "", "ToMessage")
	if fn == nil {
		c.must(false, "anchor", site{tag: "ToMessage"}, "there is no ToMessage")
		return
	}
	list := mkSym("list", types.NewSlice(anyType()))
	e, outs := c.parsing(fn, []*Term{list})
	c.count(fn, e, len(outs))
	reached := map[string]bool{}
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 2 {
			continue
		}
		at := c.at(fn, "").on(o)
		f, known := failed(*o, 1)
		if !c.must(known, rule, at, "it is not clear whether an error is returned") {
			continue
		}
		if rule == "unknown" {
			if f {
				c.must(o.st.nothing(o.rets[0]), rule, at, "a message is returned together with an error")
				continue
			}
			n := o.st.norm(mkLen(list, 0))
			d, ok := o.st.minDiff(mkInt(1), n)
			c.must(ok && d >= 0, rule, at, "an empty list becomes a message")
			_, ok = c.codeOf(o.st, list)
			c.must(ok, rule, at, "a list becomes a message although its type code is not known to be one of the 24")
			continue
		}
		if f {
			continue
		}
		if name := c.decoded(o.st, o.rets[0], list, at, 0); name != "" {
			reached[name] = true
		}
	}
	if rule != "unknown" {
		for _, l := range c.layouts() {
			c.must(reached[l.name], "reached", c.at(fn, l.name), "no list is decoded as %s", l.name)
		}
	}
}

// codeOf gives the message type a path has found the first element to be the code of.
func (c *Check) codeOf(st *State, list *Term) (layout, bool) {
	x := st.rep(st.load(mkIndex(list, mkInt(0)), anyType()))
	for _, l := range layouts {
		code := mkConst(constant.MakeInt64(l.code), types.Typ[types.Uint64])
		if st.truth(eq(st.rep(mkExtract(mkCall("number", 0, nil, x), 0, types.Typ[types.Uint64])), code)) == yes {
			return l, true
		}
		// read by other means
		for f, v := range st.facts {
			if v && f.op == OBin && f.tok == eqTok {
				for k := 0; k < 2; k++ {
					if n, ok := f.args[k].constInt(); ok && n == l.code && st.numberOf(f.args[1-k], x) {
						return l, true
					}
				}
			}
		}
		for y, v := range st.eqv {
			if n, ok := v.constInt(); ok && n == l.code && st.numberOf2(y, x) {
				return l, true
			}
		}
	}
	return layout{}, false
}

// numberOf2 is numberOf without resolving what is known to be equal.
func (st *State) numberOf2(v, x *Term) bool {
	for v.op == OConv {
		v = v.args[0]
	}
	return v == mkExtract(mkCall("number", 0, nil, x), 0, types.Typ[types.Uint64]) || v.op == OAssert && v.args[0] == x
}

const parseCall = "parse"

// parsing analyses a function with the Parse methods of the messages kept opaque.
func (c *Check) parsing(fn *ssa.Function, args []*Term) (*Engine, []Outcome) {
	e := c.msgEngine()
	old := e.callHook
	e.callHook = func(s *State, f *ssa.Function, name string, as []*Term, rt *types.Tuple) ([]callRes, bool) {
		if f.Name() == "Parse" && f.Signature.Recv() != nil && len(as) == 2 {
			if n := ptrTo(f.Signature.Recv().Type()); n != nil && c.su.msgType(n.Obj().Name()) == n {
				v := mkCall(parseCall, newSerial(), rt.At(0).Type(), as...)
				s.emit(Event{Kind: EvCall, Name: parseCall, Args: as, Val: v, Fn: f})
				return []callRes{{st: s, val: v}}, true
			}
		}
		return old(s, f, name, as, rt)
	}
	s := c.su.p.start(e)
	return e, e.Call(s, fn, args, nil, 0, nil)
}

// decoded: a returned message was parsed, successfully, from the whole list whose code is that of its type.
func (c *Check) decoded(st *State, m, list *Term, at site, mark int) string {
	m = st.rep(m)
	if !c.must(m.op == OIface && ptrTo(m.typ) != nil, "decoded", at, "what is returned is %v", m) {
		return ""
	}
	name := ptrTo(m.typ).Obj().Name()
	l, ok := c.codeOf(st, list)
	c.must(ok && l.name == name, "dispatch", at, "a list with type code %d (%s) becomes a %s", l.code, l.name, name)
	n := 0
	for _, ev := range st.Events(mark) {
		if ev.Kind != EvCall || ev.Name != parseCall || ev.Args[0] != m.args[0] {
			continue
		}
		n++
		c.must(st.rep(ev.Args[1]) == st.rep(list), "decoded", at, "the %s is parsed from %v instead of the decoded list", name, ev.Args[1])
		v, ok := st.isNilTerm(ev.Val)
		c.must(ok && v, "decoded", at, "a %s is returned although parsing it may have failed", name)
	}
	c.must(n > 0, "decoded", at, "a %s is returned that was not parsed", name)
	return name
}

// ---- C32 ----

// codecs of the serializers
var codecs = map[string]string{
	"JSONSerializer":    "encoding/json.",
	"MsgPackSerializer": "github.com/vmihailenco/msgpack/v5.",
	"CBORSerializer":    "github.com/fxamacker/cbor/v2.",
}

// ofCodec: a function name belongs to a codec.
func ofCodec(name, codec string) bool {
	for _, p := range []string{"decoded:", "err:"} {
		name = strings.TrimPrefix(name, p)
	}
	name = strings.TrimLeft(name, "(*")
	return strings.HasPrefix(name, codec)
}

func ruleC32(c *Check) {
	var names []string
	for n := range codecs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.serializes(n, codecs[n])
		c.deserializes(n, codecs[n])
		c.dynamic(n)
	}
	c.dispatch("dispatched")
	c.need("encoded", 3)
	c.need("mode", 24)
	c.need("dynamic", 3)
	c.need("decoded", 3)
	c.need("dispatch", 24)
	c.need("reached", 24)
}

// dynamic: a serializer that encodes the list form of messages does not pass for one with static payloads.
func (c *Check) dynamic(name string) {
	fn := c.su.p.fn("serializers", name, "Static")
	if !c.must(fn != nil && len(fn.Params) == 1, "anchor", site{tag: name}, "%s has no Static", name) {
		return
	}
	e := c.msgEngine()
	recv := mkSym("serializer", fn.Params[0].Type())
	e.nonNil[recv] = true
	outs := e.Call(c.su.p.start(e), fn, []*Term{recv}, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		c.must(o.panicked || o.st.truth(o.rets[0]) == no, "dynamic", c.at(fn, "").on(o), "%s, which encodes positional and keyword arguments only, says that it is static", name)
	}
}

func (c *Check) serializes(name, codec string) {
	fn := c.su.p.fn("serializers", name, "Serialize")
	if fn == nil {
		c.must(false, "anchor", site{tag: name}, "%s has no Serialize", name)
		return
	}
	e := c.msgEngine()
	s := c.su.p.start(e)
	recv, msg := mkSym("serializer", fn.Params[0].Type()), mkSym("message", fn.Params[1].Type())
	e.nonNil[recv], e.nonNil[msg] = true, true
	outs := e.Call(s, fn, []*Term{recv, msg}, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 2 {
			continue
		}
		c.encodedAs(o, codec, c.at(fn, "").on(o), "encoded", func(st *State, what *Term) string {
			for _, x := range c.su.gets(o.st, msg, "Marshal") {
				if st.rep(unbox(what)) == x {
					return ""
				}
			}
			return "what is encoded is " + what.String() + ", not the list of the message"
		})
	}
}

// encodedAs: an outcome returns the encoding of a value by a codec, or its error.
func (c *Check) encodedAs(o *Outcome, codec string, at site, rule string, good func(st *State, what *Term) string) {
	st := o.st
	f, known := failed(*o, 1)
	b := st.rep(o.rets[0])
	for strings.HasPrefix(codec, "encoding/json") && b.op == OCall && strings.HasPrefix(b.name, "bytes.Trim") && len(b.args) > 0 {
		b = st.rep(b.args[0]) // the end of the line that an encoder adds
	}
	var made *Event
	for _, ev := range st.Events(0) {
		ev := ev
		if ev.Kind == EvCall && ev.Val != nil && ev.Val.op == OCall && strings.Contains(ev.Name, "Marshal") && !strings.HasPrefix(ev.Name, "invoke:") {
			made = &ev
		}
	}
	if known && f {
		return // a failure that is reported
	}
	if !c.must(made != nil, rule, at, "nothing is encoded") {
		return
	}
	c.must(ofCodec(made.Name, codec), rule, at, "the message is encoded with %s", made.Name)
	c.must(b == st.rep(mkExtract(made.Val, 0, typeOr(b))) || b.op == OExtract && b.args[0] == made.Val && b.n == 0, rule, at, "the bytes that are returned are %v", b)
	if !known {
		r := st.rep(o.rets[1])
		c.must(r.op == OExtract && r.args[0] == made.Val && r.n == 1, rule, at, "the error that is returned is %v", r)
	} else {
		v, ok := st.isNilTerm(mkExtract(made.Val, 1, errType()))
		c.must(ok && v, rule, at, "an encoding that may have failed is returned")
	}
	pre := made.Pre
	if pre == nil {
		pre = st
	}
	why := good(pre, pre.rep(made.Args[len(made.Args)-1]))
	c.must(why == "", rule, at, "%s", why)
}

func (c *Check) deserializes(name, codec string) {
	fn := c.su.p.fn("serializers", name, "Deserialize")
	if fn == nil {
		c.must(false, "anchor", site{tag: name}, "%s has no Deserialize", name)
		return
	}
	recv, data := mkSym("serializer", fn.Params[0].Type()), mkSym("data", fn.Params[1].Type())
	e, outs := c.parsing(fn, []*Term{recv, data})
	e.nonNil[recv] = true
	c.count(fn, e, len(outs))
	n := 0
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 2 {
			continue
		}
		at := c.at(fn, "").on(o)
		st := o.st
		f, known := failed(*o, 1)
		if !c.must(known, "decoded", at, "it is not clear whether an error is returned") || f {
			continue
		}
		n++
		c.modes(st, "mode", at)
		list, why := decodedList(st, data, codec)
		if c.must(why == "", "decoded", at, "%s", why) {
			c.decoded(st, o.rets[0], list, at, 0)
		}
	}
	c.must(n >= 24, "decoded", c.at(fn, ""), "only %d message types are decoded", n)
}

// decodedList: the list a path decoded from some bytes with a codec, successfully.
func decodedList(st *State, data *Term, codec string) (*Term, string) {
	for _, ev := range st.Events(0) {
		if ev.Kind != EvCall || !strings.Contains(ev.Name, "Unmarshal") {
			continue
		}
		if !ofCodec(ev.Name, codec) {
			return nil, "the bytes are decoded with " + ev.Name
		}
		if st.rep(ev.Args[0]) != data {
			return nil, fmt.Sprintf("%v is decoded, not the given bytes", ev.Args[0])
		}
		et := addrElem(unbox(ev.Args[1]))
		if et == nil {
			return nil, fmt.Sprintf("the bytes are decoded into %v", ev.Args[1])
		}
		list := st.rep(st.load(unbox(ev.Args[1]), et))
		if list.op != OCall || !strings.HasPrefix(list.name, "decoded:") {
			return nil, fmt.Sprintf("the decoded list is replaced by %v", list)
		}
		if v, ok := st.isNilTerm(mkCall("err:"+strings.TrimPrefix(list.name, "decoded:"), list.n, errType(), data)); !ok || !v {
			return nil, "decoding may have failed"
		}
		return list, ""
	}
	return nil, "nothing is decoded"
}

// cborMode: the CBOR decoder makes dictionaries of the type everything else expects, and does not limit sizes more than by default; why not otherwise.
func cborMode(m *Term) string {
	if m == nil {
		return "CBOR is decoded without a mode, so that dictionaries get another type"
	}
	if m.op != OExtract || m.args[0].op != OCall || !strings.Contains(m.args[0].name, "DecOptions).") {
		return "" // made in a way that is not followed
	}
	o := m.args[0].args[0]
	st := structOf(typeOr(o))
	if o.op != OStruct || st == nil {
		return ""
	}
	limits := map[string]int64{"MaxNestedLevels": 32, "MaxArrayElements": 131072, "MaxMapPairs": 131072}
	for i := 0; i < st.NumFields(); i++ {
		v := o.args[i]
		switch n := st.Field(i).Name(); n {
		case "DefaultMapType":
			dict := types.NewMap(types.Typ[types.String], anyType())
			if v.op == OCall && v.name == "reflect.TypeOf" && v.args[0].op == OIface && !types.Identical(v.args[0].typ, dict) {
				return "CBOR dictionaries are decoded to " + shortType(v.args[0].typ)
			}
			if v.isNil() {
				return "CBOR dictionaries are decoded to the default type"
			}
		default:
			if k, ok := v.constInt(); ok && k != 0 && k < limits[n] {
				return fmt.Sprintf("the CBOR decoder is limited by %s %d", n, k)
			}
		}
	}
	return ""
}

// modes checks the decoders used on a path.
func (c *Check) modes(st *State, rule string, at site) {
	for _, ev := range st.Events(0) {
		if ev.Kind == EvCall && strings.Contains(ev.Name, "Unmarshal") && ofCodec(ev.Name, codecs["CBORSerializer"]) {
			why := cborMode(ev.Val)
			c.must(why == "", rule, at, "%s", why)
		}
	}
}
