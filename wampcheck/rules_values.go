package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- C47: values the protocol assigns ----

// constants by package; where a package has no such constant there is nothing to decide.
var protocolConstants = map[string]map[string]any{
	"": {
		"CloseGoodByeAndOut": "wamp.close.goodbye_and_out", "CloseCloseRealm": "wamp.close.close_realm",
		"CloseSystemShutdown": "wamp.close.system_shutdown", "CloseKilled": "wamp.close.killed",

		"ErrNoMatchingAuthMethod": "wamp.error.no_matching_auth_method", "ErrNoSuchRealm": "wamp.error.no_such_realm",
		"ErrNoSuchRole": "wamp.error.no_such_role", "ErrNoSuchPrincipal": "wamp.error.no_such_principal",
		"ErrNoSuchSession": "wamp.error.no_such_session", "ErrAuthenticationDenied": "wamp.error.authentication_denied",
		"ErrAuthenticationFailed": "wamp.error.authentication_failed", "ErrAuthenticationRequired": "wamp.error.authentication_required",
		"ErrAuthorizationDenied": "wamp.error.authorization_denied", "ErrAuthorizationFailed": "wamp.error.authorization_failed",
		"ErrAuthorizationRequired": "wamp.error.authorization_required", "ErrTimeout": "wamp.error.timeout",
		"ErrOptionNotAllowed": "wamp.error.option_not_allowed", "ErrOptionDisallowedDiscloseMe": "wamp.error.option_disallowed.disclose_me",
		"ErrNetworkFailure": "wamp.error.network_failure", "ErrUnavailable": "wamp.error.unavailable",
		"ErrNoAvailableCallee": "wamp.error.no_available_callee", "ErrFeatureNotSupported": "wamp.error.feature_not_supported",
		"ErrInvalidURI": "wamp.error.invalid_uri", "ErrNoSuchProcedure": "wamp.error.no_such_procedure",
		"ErrProcedureAlreadyExists": "wamp.error.procedure_already_exists", "ErrNoSuchRegistration": "wamp.error.no_such_registration",
		"ErrNoSuchSubscription": "wamp.error.no_such_subscription", "ErrInvalidArgument": "wamp.error.invalid_argument",
		"ErrCanceled": "wamp.error.canceled", "ErrPayloadSizeExceeded": "wamp.error.payload_size_exceeded",
		"ErrProtocolViolation": "wamp.error.protocol_violation", "ErrNotAuthorized": "wamp.error.not_authorized",

		"OptAcknowledge": "acknowledge", "OptionReceiveProgress": "receive_progress", "OptionProgress": "progress",
		"OptionMatch": "match", "OptionInvoke": "invoke",
		"MatchExact": "exact", "MatchPrefix": "prefix", "MatchWildcard": "wildcard",
		"InvokeSingle": "single", "InvokeFirst": "first", "InvokeLast": "last", "InvokeRoundRobin": "roundrobin", "InvokeRandom": "random",
		"FeatureProgressiveCallInvocations": "progressive_call_invocations", "FeatureProgressiveCallResults": "progressive_call_results",
		"FeatureCallCancelling": "call_canceling", "FeaturePublisherExclusion": "publisher_exclusion",
	},
	"auth": {
		"MethodAnonymous": "anonymous", "MethodTicket": "ticket", "MethodCRA": "wampcra", "MethodCryptoSign": "cryptosign",
		"Anonymous": "anonymous", "Ticket": "ticket", "WAMPCRA": "wampcra", "CryptoSign": "cryptosign",
	},
	"serializers": {"NoneSerializerID": 0, "JSONSerializerID": 1, "MsgPackSerializerID": 2, "CBORSerializerID": 3},
	"transports": {
		"MAGIC": 0x7F, "ProtocolMaxMsgSize": 1 << 24, "DefaultMaxMsgSize": 1 << 20,
		"SerializerJson": 1, "SerializerMsgpack": 2, "SerializerCbor": 3,
		"MessageWamp": 0, "MessagePing": 1, "MessagePong": 2,
	},
	"messages": {},
}

var messageCodes = map[string]int{
	"Hello": 1, "Welcome": 2, "Abort": 3, "Challenge": 4, "Authenticate": 5, "Goodbye": 6, "Error": 8,
	"Publish": 16, "Published": 17, "Subscribe": 32, "Subscribed": 33, "Unsubscribe": 34, "Unsubscribed": 35, "Event": 36,
	"Call": 48, "Cancel": 49, "Result": 50, "Register": 64, "Registered": 65, "Unregister": 66, "Unregistered": 67,
	"Invocation": 68, "Interrupt": 69, "Yield": 70,
}

func ruleC47(c *Check) {
	uris := map[string]bool{}
	for name, code := range messageCodes {
		protocolConstants["messages"]["MessageType"+name] = code
		protocolConstants["messages"]["MessageName"+name] = strings.ToUpper(name)
	}
	for pkg, cs := range protocolConstants {
		sp := c.su.p.pkgs[pkg]
		if !c.must(sp != nil, "anchor", site{}, "there is no package %s", pkg) {
			continue
		}
		for name, want := range cs {
			if s, ok := want.(string); ok && strings.HasPrefix(s, "wamp.") {
				uris[s] = true
			}
			o, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
			if !ok {
				continue
			}
			var same bool
			switch w := want.(type) {
			case string:
				same = o.Val().Kind() == constant.String && constant.StringVal(o.Val()) == w
			case int:
				v, exact := constant.Int64Val(constant.ToInt(o.Val()))
				same = exact && v == int64(w)
			}
			s := site{tag: strings.TrimPrefix(pkg+"."+name, "."), pos: o.Pos()}
			c.must(same, "constant", s, "%s is %v, the protocol says %v", name, o.Val(), want)
		}
	}
	// URIs in the code
	for _, fn := range c.su.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					u := constant.StringVal(k.Value)
					if strings.HasSuffix(u, ".") {
						continue // a prefix
					}
					if strings.HasPrefix(u, "wamp.error.") || strings.HasPrefix(u, "wamp.close.") {
						s := c.at(fn, "")
						if in.Pos().IsValid() {
							s.pos = in.Pos()
						}
						c.must(uris[u], "uri", s, "%q is no URI of the protocol", u)
					}
				}
			}
		}
	}
	c.need("constant", 60)
	c.need("uri", 1)
}

// ---- C48: the typed concurrent map ----

func ruleC48(c *Check) {
	sp := c.su.p.pkgs["internal"]
	if !c.must(sp != nil, "anchor", site{}, "there is no package internal") {
		return
	}
	gen, _ := sp.Pkg.Scope().Lookup("Map").(*types.TypeName)
	if !c.must(gen != nil, "anchor", site{}, "there is no internal.Map") {
		return
	}
	// an instance that is used, with values that differ
	var inst *types.Named
	for _, q := range c.su.p.pkgs {
		for _, n := range q.Pkg.Scope().Names() {
			tn, ok := q.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				t := st.Field(i).Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if m, ok := t.(*types.Named); ok && m.Origin().Obj() == gen && m.TypeArgs().Len() == 2 && structOf(m.TypeArgs().At(1)) == nil {
					inst = m
				}
			}
		}
	}
	if inst == nil {
		t, err := types.Instantiate(nil, gen.Type(), []types.Type{types.Typ[types.String], types.Typ[types.Int]}, false)
		if !c.must(err == nil, "anchor", site{}, "internal.Map is no map from keys to values") {
			return
		}
		inst = t.(*types.Named)
	}
	key, val := inst.TypeArgs().At(0), inst.TypeArgs().At(1)
	e := c.su.engine()
	m := mkSym("map", types.NewPointer(inst))
	e.nonNil[m] = true
	k, k2, v := mkSym("key", key), mkSym("other", key), mkSym("value", val)
	call := func(st *State, name string, args ...*Term) (fn *ssa.Function, outs []Outcome) {
		fn = c.su.method(m.typ, name)
		if !c.must(fn != nil && len(fn.Params) == 1+len(args), "anchor", site{tag: name}, "there is no method %s of internal.Map", name) {
			return nil, nil
		}
		outs = e.Call(st.clone(), fn, append([]*Term{m}, args...), nil, 0, nil)
		c.count(fn, e, len(outs))
		for i := range outs {
			c.must(!outs[i].panicked, "panic", c.at(fn, name).on(&outs[i]), "it may panic")
		}
		return
	}
	pre := c.su.p.start(e)
	if !pre.assume(eq(k, k2), false) {
		return
	}
	// each operation from any state, with what was there before known
	for _, op := range []string{"Load", "Store", "Delete", "LoadAndDelete", "LoadOrStore"} {
		fn := c.su.method(m.typ, op)
		_, l1 := call(pre, "Load", k)
		for _, a := range l1 {
			if a.panicked || len(a.rets) != 2 {
				continue
			}
			_, l2 := call(a.st, "Load", k2)
			for _, b := range l2 {
				if b.panicked || len(b.rets) != 2 {
					continue
				}
				for _, had := range []bool{true, false} {
					st := b.st.under(cond{a.rets[1], had})
					if st == nil {
						continue
					}
					args := []*Term{k}
					if op == "Store" || op == "LoadOrStore" {
						args = append(args, v)
					}
					_, outs := call(st, op, args...)
					for i := range outs {
						o := &outs[i]
						if o.panicked {
							continue
						}
						at := c.at(fn, op).on(o)
						c.mapResult(op, o, had, a.rets[0], v, at)
						c.must(oneStep(st, o.st), "one step", at, "it looks at the map and changes it in separate steps")
						// afterwards
						_, after := call(o.st, "Load", k)
						for j := range after {
							r := &after[j]
							if r.panicked {
								continue
							}
							gone := op == "Delete" || op == "LoadAndDelete"
							want := a.rets[0]
							if op == "Store" || op == "LoadOrStore" && !had {
								want = v
							}
							has := (had || op == "Store" || op == "LoadOrStore") && !gone
							c.loaded(r, has, want, at, "the key it was given")
						}
						_, others := call(o.st, "Load", k2)
						for j := range others {
							r := &others[j]
							if r.panicked {
								continue
							}
							for _, h := range []bool{true, false} {
								if u := r.st.under(cond{b.rets[1], h}); u != nil {
									x := Outcome{st: u, rets: r.rets}
									c.loaded(&x, h, b.rets[0], at, "another key")
								}
							}
						}
					}
				}
			}
		}
	}
	c.mapRange(e, m, pre, key, val, call)
	c.need("after", 12)
	c.need("result", 6)
	c.need("range", 2)
}

// oneStep: the map is used once, or under a lock.
func oneStep(pre, st *State) bool {
	n, held := 0, 0
	for _, ev := range st.Events(pre.mark()) {
		switch ev.Kind {
		case EvLock:
			held++
		case EvUnlock:
			held--
		case EvMapLoad, EvMapSet, EvMapDel:
			if held == 0 {
				n++
			}
		}
	}
	return n <= 1
}

func (c *Check) mapResult(op string, o *Outcome, had bool, old, v *Term, at site) {
	var want *Term
	switch op {
	case "Load", "LoadAndDelete":
		want = old
	case "LoadOrStore":
		if want = v; had {
			want = old
		}
	default:
		return
	}
	if !c.must(len(o.rets) == 2, "result", at, "it does not return a value and whether there is one") {
		return
	}
	c.must(o.st.truth(o.rets[1]) == tri3(had), "result", at, "it reports %v where the key is there: %v", o.rets[1], had)
	if had || op == "LoadOrStore" {
		c.must(o.st.same(unbox(o.st.rep(o.rets[0])), unbox(o.st.rep(want))), "result", at, "it returns %v, not %v", o.rets[0], want)
	}
}

func tri3(b bool) tri {
	if b {
		return yes
	}
	return no
}

// loaded: what Load finds after an operation.
func (c *Check) loaded(r *Outcome, has bool, want *Term, at site, which string) {
	c.must(r.st.truth(r.rets[1]) == tri3(has), "after", at, "afterwards %s is there: %v, expected %v", which, r.rets[1], has)
	if has {
		c.must(r.st.same(unbox(r.st.rep(r.rets[0])), unbox(r.st.rep(want))), "after", at, "afterwards %s has value %v, not %v", which, r.rets[0], want)
	}
}

// mapRange: every entry that is visited is handed to the function, whose answer decides whether to go on.
func (c *Check) mapRange(e *Engine, m *Term, pre *State, key, val types.Type, call func(*State, string, ...*Term) (*ssa.Function, []Outcome)) {
	f := mkSym("f", types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "key", key), types.NewVar(0, nil, "value", val)),
		types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false))
	e.nonNil[f] = true
	fn, outs := call(pre, "Range", f)
	for i := range outs {
		o := &outs[i]
		at := c.at(fn, "Range").on(o)
		var asked *Term
		for _, ev := range o.st.Events(0) {
			if ev.Kind != EvCall {
				continue
			}
			switch ev.Name {
			case "dynamic":
				if !c.must(len(ev.Args) == 3 && ev.Args[0] == f, "range", at, "it calls %v", ev.Args) {
					continue
				}
				asked = ev.Val
				k := ev.Args[1]
				if from := copyOf(o.st, k); from != nil && o.st.rep(ev.Args[2]) == o.st.rep(mkGet(k.args[0], k, ev.Args[2].n, ev.Args[2].typ)) {
					// an entry of a copy: the same entry of the original
					y := o.st.clone()
					orig := intern(Term{op: OKey, args: []*Term{from}, typ: k.typ, n: newSerial()})
					y.assume(mkHas(from, orig, 0), true)
					_, l := call(y, "Load", orig)
					for j := range l {
						c.must(l[j].panicked || l[j].st.truth(l[j].rets[1]) == yes && l[j].st.same(unbox(l[j].st.rep(l[j].rets[0])), mkGet(from, orig, 0, ev.Args[2].typ)), "range", at,
							"it visits a copy of something else than the entries")
					}
					continue
				}
				_, l := call(o.st, "Load", k)
				for j := range l {
					if l[j].panicked {
						continue
					}
					c.must(l[j].st.truth(l[j].rets[1]) == yes && l[j].st.same(unbox(l[j].st.rep(l[j].rets[0])), unbox(l[j].st.rep(ev.Args[2]))), "range", at,
						"it visits %v with value %v, which are no entry", k, ev.Args[2])
				}
			case "(*sync.Map).Range:round":
				c.must(asked != nil, "range", at, "an entry is skipped")
				if asked != nil && ev.Val != nil {
					c.must(o.st.same(ev.Val, asked) || tern(o.st, ev.Val, asked), "range", at, "it goes on when %v, not when the function says so", ev.Val)
				}
			}
		}
	}
}

// copyOf gives the map that the map a key belongs to was filled from, by a loop that copies every entry it visits.
func copyOf(st *State, k *Term) *Term {
	if k.op != OKey || k.args[0].op != OMapNew {
		return nil
	}
	var from *Term
	for _, ev := range st.Events(0) {
		if ev.Kind != EvLoop || ev.Name != "done" || ev.Loop.Range == nil || ev.Loop.Range == k.args[0] {
			continue
		}
		for i := range ev.Loop.Backs {
			b := ev.Loop.Backs[i].St
			log := b.mapSt(k.args[0]).log
			if len(log) != 1 || log[0].del || log[0].key.op != OKey || log[0].key.args[0] != ev.Loop.Range {
				return nil
			}
			g := b.rep(log[0].val)
			if g.op != OMGet || g.args[0] != ev.Loop.Range || g.args[1] != log[0].key {
				return nil
			}
			from = ev.Loop.Range
		}
	}
	return from
}

// tern: both are known and equal on this path.
func tern(st *State, x, y *Term) bool {
	a, b := st.truth(x), st.truth(y)
	return a != maybe && a == b
}

// ---- C51: sessions and serializers are shared by goroutines ----

func ruleC51(c *Check) {
	su := c.su
	var ns []*types.Named
	if n, ok := su.p.typ("", "Session").(*types.Named); c.must(ok, "anchor", site{tag: "Session"}, "type Session does not exist") {
		ns = append(ns, n)
	}
	iface, _ := under(su.p.typ("serializers", "Serializer")).(*types.Interface)
	if c.must(iface != nil, "anchor", site{tag: "Serializer"}, "there is no interface serializers.Serializer") {
		sc := su.p.pkgs["serializers"].Pkg.Scope()
		for _, name := range sc.Names() {
			if tn, ok := sc.Lookup(name).(*types.TypeName); ok && !types.IsInterface(tn.Type()) && types.Implements(types.NewPointer(tn.Type()), iface) {
				ns = append(ns, tn.Type().(*types.Named))
			}
		}
	}
	for _, n := range ns {
		name := n.Obj().Name()
		runs := c.lockRuns(n)
		c.must(len(runs) > 0, "anchor", site{tag: name}, "%s has no exported methods", name)
		c.guardedState(name, n, runs, false)
		for _, r := range runs {
			c.n["method"]++
			for i := range r.outs {
				if o := &r.outs[i]; !o.panicked {
					c.testAndSet(o, c.at(r.fn, r.tag).on(o))
					c.sharedTools(o, r.recv, c.at(r.fn, r.tag))
				}
			}
		}
	}
	// functions that change package state
	for _, fn := range su.p.funcs {
		if fn.Name() == "init" || fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		c.n["function"]++
		locks := false
		var at []ssa.Instruction
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if ofGlobal(in.Addr) {
						at = append(at, in)
					}
				case *ssa.MapUpdate:
					if ofGlobal(in.Map) {
						at = append(at, in)
					}
				case *ssa.Slice:
					if scratch(in) {
						at = append(at, in)
					}
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") && ofGlobal(in.Common().Args[0]) {
						at = append(at, in)
					}
					if f := in.Common().StaticCallee(); f != nil {
						locks = locks || strings.HasPrefix(f.String(), "(*sync.") || strings.HasPrefix(f.String(), "sync.")
						if f.Signature.Recv() != nil && unsafeTool(f.String()) && ofGlobal(in.Common().Args[0]) {
							at = append(at, in)
						}
					}
				}
			}
		}
		for _, in := range at {
			s := c.at(fn, "")
			s.pos = in.Pos()
			c.must(locks || su.onlyUnderSync(fn), "package state", s, "package state is changed without a lock")
		}
	}
	c.need("method", 20)
	c.need("one step", 8)
	c.need("function", 200)
}

// onlyUnderSync: a function all of whose callers lock, or that is handed to sync.Once.
func (su *Suite) onlyUnderSync(fn *ssa.Function) bool {
	n := 0
	for _, g := range su.p.funcs {
		uses, locks := false, false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					uses = uses || *op == ssa.Value(fn)
				}
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fn) {
					uses = true
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					if f := call.Common().StaticCallee(); f != nil {
						locks = locks || strings.HasPrefix(f.String(), "(*sync.") || strings.HasPrefix(f.String(), "sync.")
					}
				}
			}
		}
		if uses {
			n++
			if !locks && g.Name() != "init" && !strings.HasPrefix(g.Name(), "init#") {
				return false
			}
		}
	}
	return n > 0
}

// ofGlobal: an address, map or object reached from a package variable.
func ofGlobal(v ssa.Value) bool { return globalOf(v) != nil }

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		default:
			return nil
		}
	}
}

// scratch: a part of a package level list that something is appended to or decoded into.
func scratch(in *ssa.Slice) bool {
	if _, ok := under(in.Type()).(*types.Slice); !ok || in.High == nil || in.Max != nil || !ofGlobal(in.X) {
		return false
	}
	seen := map[ssa.Value]bool{}
	var used func(v ssa.Value) bool
	used = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Phi, *ssa.ChangeType:
				if used(u.(ssa.Value)) {
					return true
				}
			case *ssa.Call:
				if bi, ok := u.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && u.Call.Args[0] == v {
					return true
				}
			case *ssa.Store:
				a, ok := u.Addr.(*ssa.Alloc)
				if !ok || u.Val != v {
					continue
				}
				for _, r := range *a.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
						if used(r) {
							return true
						}
					case *ssa.MakeInterface, *ssa.Call:
						return true
					}
				}
			}
		}
		return false
	}
	return used(in)
}

// unsafeTool: a method of an object of the standard library or a codec that must not be used by several goroutines at once.
func unsafeTool(name string) bool {
	if !strings.HasPrefix(name, "(*") {
		return false
	}
	t, _, _ := strings.Cut(name[2:], ")")
	for _, x := range []string{"bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader", "bufio.", "math/rand.Rand", "math/rand/v2.Rand", "container/", "text/", "golang.org/x/exp/rand.Rand"} {
		if strings.HasPrefix(t, x) {
			return true
		}
	}
	return !inModuleName(t) && (strings.HasSuffix(t, ".Encoder") || strings.HasSuffix(t, ".Decoder"))
}

func inModuleName(t string) bool { return strings.HasPrefix(t, modPath) }

// sharedTools: no object that only one goroutine may use is used by all.
func (c *Check) sharedTools(o *Outcome, recv *Term, at site) {
	for _, ev := range o.st.Events(0) {
		if ev.Kind != EvCall || ev.Name != "(*sync.Pool).Put" || len(ev.Args) != 2 {
			continue
		}
		x := unbox(o.st.rep(ev.Args[1]))
		for _, r := range o.rets {
			r = o.st.rep(r)
			for r.op == OSlice || r.op == OConv && !types.Identical(under(r.typ), types.Typ[types.String]) {
				r = o.st.rep(r.args[0])
			}
			bad := r == x || r.op == OCall && strings.HasSuffix(r.name, ".Bytes") && len(r.args) > 0 && unbox(o.st.rep(r.args[0])) == x
			at := at
			at.pos = ev.Pos
			c.must(!bad, "shared tool", at, "%v is returned and put back for others to use", r)
		}
	}
	held := 0
	for _, ev := range o.st.Events(0) {
		switch ev.Kind {
		case EvLock:
			held++
		case EvUnlock:
			held--
		case EvCall:
			if len(ev.Args) == 0 || ev.Args[0] == nil || held > 0 || !unsafeTool(ev.Name) {
				continue
			}
			r := ev.Args[0].root()
			at := at
			at.pos = ev.Pos
			c.must(r != recv && r.op != OGlobal && !c.su.p.startup(r), "shared tool", at, "%v is used by all goroutines without a lock", ev.Args[0])
		}
	}
}

// testAndSet: an entry of a shared map that was looked at is not changed in a second step.
func (c *Check) testAndSet(o *Outcome, at site) {
	held := 0
	var seen []Event
	for _, ev := range o.st.Events(0) {
		switch ev.Kind {
		case EvLock:
			held++
		case EvUnlock:
			held--
		case EvMapLoad:
			if held == 0 {
				seen = append(seen, ev)
			}
		case EvMapSet, EvMapDel:
			if held > 0 {
				continue
			}
			bad := false
			for _, l := range seen {
				bad = bad || ev.Name != "tested" && l.Addr == ev.Addr && o.st.same(l.Key, ev.Key)
			}
			at.pos = ev.Pos
			c.must(!bad, "one step", at, "%v of %v is looked at and then changed in a second step: another goroutine may do the same in between", ev.Key, ev.Addr)
		}
	}
}

// ---- C49: timestamps ----

const isoLayout = "2006-01-02T15:04:05"

func ruleC49(c *Check) {
	fn := c.su.p.fn("auth", "", "ISO8601")
	ok := fn != nil && len(fn.Params) == 1 && fn.Signature.Results().Len() == 1
	if !c.must(ok, "anchor", site{}, "there is no auth.ISO8601(time)") {
		return
	}
	n := 0
	for z := -14 * 60; z <= 14*60; z++ {
		off := z * 60
		e := c.su.engine()
		e.callHook = func(s *State, f *ssa.Function, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
			if name == "(time.Time).Zone" && len(args) == 1 {
				return []callRes{{st: s, val: mkTuple([]*Term{mkSym("zone", types.Typ[types.String]), mkConst(constant.MakeInt64(int64(off)), tInt)})}}, true
			}
			return nil, false
		}
		t := mkSym("t", fn.Params[0].Type())
		outs := e.Call(c.su.p.start(e), fn, []*Term{t}, nil, 0, nil)
		if z == 0 || z == 1 || z == -1 {
			c.count(fn, e, len(outs))
		}
		for i := range outs {
			o := &outs[i]
			at := c.at(fn, fmt.Sprintf("UTC%+d min", z)).on(o)
			if !c.must(!o.panicked, "panic", at, "it may panic") {
				continue
			}
			for _, ref := range []time.Time{
				time.Date(2023, 11, 25, 17, 8, 39, 0, time.FixedZone("", off)),
				time.Date(2024, 2, 3, 4, 56, 7, 0, time.FixedZone("", off)),
			} {
				s, known := textOf(o.st, o.rets[0], t, ref)
				if !known {
					continue
				}
				n++
				g, err := time.Parse(isoLayout+"Z0700", s)
				if err != nil {
					g, err = time.Parse(isoLayout+"Z07:00", s)
				}
				if !c.must(err == nil, "format", at, "%s is written as %q, which is no ISO 8601 timestamp", ref, s) {
					continue
				}
				c.must(g.Equal(ref), "instant", at, "%s is written as %q, which is another time", ref, s)
			}
		}
	}
	c.must(n > 0, "format", c.at(fn, ""), "it is not known what it returns")
	c.need("instant", 1000)
	// the current time is this moment
	now := c.su.p.fn("auth", "", "NowISO8601")
	if !c.must(now != nil && len(now.Params) == 0, "anchor", site{}, "there is no auth.NowISO8601()") {
		return
	}
	e := c.su.engine()
	e.opaque[funcName(fn)] = true
	outs := e.Call(c.su.p.start(e), now, nil, nil, 0, nil)
	c.count(now, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if !c.must(!o.panicked && len(o.rets) == 1, "now", c.at(now, "").on(o), "it may panic") {
			continue
		}
		r := o.st.rep(o.rets[0])
		c.must(r.any(func(x *Term) bool { return x.op == OCall && x.name == "time.Now" }), "now", c.at(now, "").on(o), "it returns %v, not the current time", r)
	}
	// a session's details carry it
	details := c.su.p.fn("", "", "NewSessionDetails")
	if !c.must(details != nil, "anchor", site{}, "there is no NewSessionDetails") {
		return
	}
	e = c.su.engine()
	delete(e.opaque, funcName(now))
	e.opaque[funcName(fn)] = true
	var args []*Term
	for _, p := range details.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	outs = e.Call(c.su.p.start(e), details, args, nil, 0, nil)
	c.count(details, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if o.panicked {
			continue
		}
		at := c.su.get(o.st, o.rets[0], "CreatedAt")
		c.must(at != nil && at.any(func(x *Term) bool { return x.op == OCall && x.name == "time.Now" }), "now", c.at(details, "CreatedAt").on(o), "a session's time of creation is %v, not the current time", at)
	}
	c.need("now", 2)
}

// textOf evaluates a string made of constants and of the parts of a time, for a given time.
func textOf(st *State, x, t *Term, ref time.Time) (string, bool) {
	v, ok := valueOf(st, x, t, ref)
	s, isS := v.(string)
	return s, ok && isS
}

func valueOf(st *State, x, t *Term, ref time.Time) (any, bool) {
	x = st.rep(unbox(st.rep(x)))
	switch {
	case x == t:
		return ref, true
	case x.op == OConst && x.val != nil:
		switch x.val.Kind() {
		case constant.String:
			return constant.StringVal(x.val), true
		case constant.Int:
			i, ok := constant.Int64Val(x.val)
			return i, ok
		}
	case x.op == OBin && x.tok == token.ADD:
		a, ok1 := textOf(st, x.args[0], t, ref)
		b, ok2 := textOf(st, x.args[1], t, ref)
		return a + b, ok1 && ok2
	case x.op == OConv:
		return valueOf(st, x.args[0], t, ref)
	case x.op == OCall && x.name == "(time.Time).Format" && len(x.args) == 2:
		v, ok1 := valueOf(st, x.args[0], t, ref)
		l, ok2 := textOf(st, x.args[1], t, ref)
		if tm, ok := v.(time.Time); ok && ok1 && ok2 {
			return tm.Format(l), true
		}
	case x.op == OCall && x.name == "(time.Time).UTC" && len(x.args) == 1:
		v, ok := valueOf(st, x.args[0], t, ref)
		if tm, isT := v.(time.Time); ok && isT {
			return tm.UTC(), true
		}
	case x.op == OCall && (x.name == "fmt.Sprintf" || x.name == "fmt.Sprint") && len(x.args) > 0:
		last := x.args[len(x.args)-1]
		var vs []any
		if es, ok := st.elems(last); ok {
			for _, y := range es {
				v, ok := valueOf(st, y, t, ref)
				if !ok {
					return nil, false
				}
				vs = append(vs, v)
			}
		} else if !st.nothing(last) {
			return nil, false
		}
		if x.name == "fmt.Sprint" {
			return fmt.Sprint(vs...), true
		}
		f, ok := textOf(st, x.args[0], t, ref)
		return fmt.Sprintf(f, vs...), ok
	case x.op == OCall && x.name == "strings.Join" && len(x.args) == 2:
		sep, ok := textOf(st, x.args[1], t, ref)
		es, ok2 := st.elems(x.args[0])
		var ss []string
		for _, y := range es {
			s, k := textOf(st, y, t, ref)
			ok2 = ok2 && k
			ss = append(ss, s)
		}
		return strings.Join(ss, sep), ok && ok2
	}
	return nil, false
}

// ---- C50: what was handed to a constructor is what the accessors give ----

var accessors = []struct {
	pkg, fn string
	get     []string // accessor by parameter; "" for none, "X.Y": accessor Y of the result equals accessor Y of the parameter
	fixed   map[string]string
}{
	{"", "NewSessionDetails", []string{"ID", "Realm", "AuthID", "AuthRole", "AuthMethod", "StaticSerializer", "RouterRoles", "AuthExtra"}, nil},
	{"auth", "NewRequest", []string{"*", "AuthMethod"}, nil},
	{"auth", "NewTicketRequest", []string{"*", "Ticket"}, map[string]string{"AuthMethod": "ticket"}},
	{"auth", "NewCryptoSignRequest", []string{"*", "PublicKey"}, map[string]string{"AuthMethod": "cryptosign"}},
	{"auth", "NewResponse", []string{"AuthID", "AuthRole", "TTL"}, nil},
	{"auth", "NewCRAResponse", []string{"AuthID", "AuthRole", "Secret", "TTL"}, map[string]string{"Salt": "", "Iterations": "0", "KeyLen": "0"}},
	{"auth", "NewCRAResponseSalted", []string{"AuthID", "AuthRole", "Secret", "Salt", "Iterations", "KeyLen", "TTL"}, nil},
	{"auth", "NewAnonymousAuthenticator", []string{"AuthID", "AuthExtra"}, map[string]string{"AuthMethod": "anonymous"}},
	{"auth", "NewTicketAuthenticator", []string{"AuthID", "", "AuthExtra"}, map[string]string{"AuthMethod": "ticket"}},
	{"auth", "NewWAMPCRAAuthenticator", []string{"AuthID", "", "AuthExtra"}, map[string]string{"AuthMethod": "wampcra"}},
	{"auth", "NewCryptoSignAuthenticator", []string{"AuthID", "", ""}, map[string]string{"AuthMethod": "cryptosign"}},
}

func ruleC50(c *Check) {
	for _, a := range accessors {
		fn := c.su.p.fn(a.pkg, "", a.fn)
		if !c.must(fn != nil && len(fn.Params) == len(a.get) && fn.Signature.Results().Len() > 0, "anchor", site{tag: a.fn}, "there is no %s with %d parameters", a.fn, len(a.get)) {
			continue
		}
		e := c.su.engine()
		s := c.su.p.start(e)
		var args []*Term
		for i, p := range fn.Params {
			x := mkSym(fmt.Sprintf("arg%d", i), p.Type())
			if a.get[i] == "*" {
				if _, ptr := c.su.message(e, c.su.msgType("Hello")); ptr != nil && types.Identical(ptr.typ, p.Type()) {
					x = ptr
				}
			}
			args = append(args, x)
		}
		outs := e.Call(s, fn, args, nil, 0, nil)
		c.count(fn, e, len(outs))
		for i := range outs {
			o := &outs[i]
			at := c.at(fn, "").on(o)
			if o.panicked {
				continue // C31
			}
			st := o.st
			if n := len(o.rets); n > 1 {
				if f, known := failed(*o, n-1); f {
					continue
				} else if !known {
					if st = st.under(is(eq(o.rets[n-1], mkNil()))); st == nil {
						continue
					}
				}
			}
			x := st.rep(o.rets[0])
			same := func(method string, want *Term) {
				g := c.su.get(st, x, method)
				if !c.must(g != nil, "accessor", at, "%s of the result has no single value", method) {
					return
				}
				c.must(st.sameValue(g, want) || st.isEmpty(g) && st.isEmpty(want), "accessor", at, "%s is %v, not %v", method, g, want)
			}
			for k, m := range a.get {
				switch m {
				case "":
				case "*":
					for _, h := range []string{"Realm", "AuthID", "AuthExtra"} {
						if w := c.su.get(st, args[k], h); c.must(w != nil, "accessor", at, "%s of HELLO has no single value", h) {
							same(h, w)
						}
					}
				default:
					same(m, args[k])
				}
			}
			for m, w := range a.fixed {
				g := c.su.get(st, x, m)
				if !c.must(g != nil, "accessor", at, "%s of the result has no single value", m) {
					continue
				}
				g = st.rep(unbox(st.rep(g)))
				text := "?"
				if g.op == OConst && g.val != nil {
					if text = g.val.ExactString(); g.val.Kind() == constant.String {
						text = constant.StringVal(g.val)
					}
				}
				c.must(text == w, "accessor", at, "%s is %v, not %q", m, g, w)
			}
		}
	}
	c.need("accessor", 40)
}
