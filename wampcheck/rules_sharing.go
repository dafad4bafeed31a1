package main

import (
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- C42 ----

// isRef: values of the type refer to something that can be changed.
func isRef(t types.Type) bool {
	switch t := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if isRef(t.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// reach collects what a value refers to: new objects, and what else.
type reach struct {
	st     *State
	pre    *State
	fresh  map[*Term]bool
	others map[*Term]bool
	seen   map[*Term]bool
	any    bool // also what was made when the program started
}

func newReach(st, pre *State) *reach {
	return &reach{st: st, pre: pre, fresh: map[*Term]bool{}, others: map[*Term]bool{}, seen: map[*Term]bool{}}
}

// newList: functions whose result is a list or dictionary made for the caller.
func newList(n string) bool {
	for _, s := range []string{"slices.Clone", "slices.Collect", "slices.Sorted", "maps.Keys", "maps.Values", "maps.Clone", "strings.Split", "strings.Fields", "makeslice"} {
		if n == s || strings.HasSuffix(n, "/"+s) {
			return true
		}
	}
	return false
}

func (r *reach) object(t *Term) {
	r.fresh[t] = true
	for a, v := range r.st.mem {
		if a != t && a.root() == t && fresh(a) || a == t {
			r.add(v)
		}
	}
	if ms, ok := r.st.maps[t]; ok {
		for _, u := range ms.log {
			if !u.del {
				r.add(u.key)
				r.add(u.val)
			}
		}
	}
}

func (r *reach) add(t *Term) {
	if t == nil {
		return
	}
	t = r.st.rep(t)
	if r.seen[t] || t.isConst() {
		return
	}
	r.seen[t] = true
	switch t.op {
	case OIface, OConv:
		r.add(t.args[0])
		return
	case OStruct, OTuple:
		for _, a := range t.args {
			r.add(a)
		}
		return
	}
	if tt := typeOfTerm(t); tt != nil && !isRef(tt) {
		return
	}
	switch t.op {
	case OAlloc, OMapNew:
		if !r.any && t.n <= r.st.eng.p.initSerial {
			r.others[t] = true // made when the program starts
			return
		}
		if _, old := r.pre.mem[t]; old {
			r.others[t] = true
			return
		}
		if _, old := r.pre.maps[t]; old {
			r.others[t] = true
			return
		}
		r.object(t)
	case OField, OIndex, OSlice:
		if fresh(t) {
			r.add(t.root())
			return
		}
		r.others[t] = true
	case OSub, OFilter:
		r.add(t.args[0])
	case OAppend:
		r.add(t.args[0])
		if es, ok := r.st.elems(t.args[1]); ok {
			for _, e := range es {
				r.add(e)
			}
		} else {
			r.add(t.args[1])
		}
	case OSym:
		if lv := r.st.loopOf[t]; lv != nil {
			r.add(lv.Init)
			for _, b := range lv.Loop.Backs {
				for i, ph := range lv.Loop.Phis {
					if ph.Phi == lv.Phi && lv.Phi != nil {
						r.addIn(b.St, b.Next[i])
					}
				}
				if lv.Phi == nil && lv.Init != nil && lv.Init.typ != nil {
					r.addIn(b.St, b.St.load(lv.Addr, lv.Init.typ))
				}
			}
			return
		}
		r.others[t] = true
	case OCall:
		if newList(t.name) {
			return
		}
		r.others[t] = true
	case OClosure, OFunc, OKey:
	default:
		r.others[t] = true
	}
}

// addIn adds a value of another state.
func (r *reach) addIn(st *State, t *Term) {
	old := r.st
	r.st = st
	r.add(t)
	r.st = old
}

// internal: the value is part of what an object holds, not of a session's description the user supplied.
func internal(t, recv *Term, user types.Type) bool {
	for x := t; x != nil; {
		if p, ok := typeOfTerm(x).(*types.Pointer); ok && x != t && user != nil && types.Identical(p.Elem(), user) {
			return false
		}
		if x == recv {
			return true
		}
		if len(x.args) == 0 {
			return false
		}
		x = x.args[0]
	}
	return false
}

// partOf: the address or dictionary belongs to the object.
func partOf(t, obj *Term) bool {
	for x := t; ; {
		if x == obj {
			return true
		}
		if len(x.args) == 0 || fresh(x) {
			return false
		}
		x = x.args[0]
	}
}

// sharedState: what an object and the package level variables hold at the end.
func sharedState(st, pre *State, recv *Term) *reach {
	r := newReach(st, pre)
	for a, v := range st.mem {
		if fresh(a) {
			continue
		}
		if v.op == OInit && v.args[0] == a {
			continue
		}
		if p, ok := pre.mem[a]; ok && p == v {
			continue
		}
		r.add(v)
	}
	for m, ms := range st.maps {
		if fresh(m) {
			if _, old := pre.maps[m]; !old {
				continue
			}
		}
		for _, u := range ms.log {
			if !u.del {
				r.add(u.val)
			}
		}
	}
	// the tree of patterns
	for _, e := range st.Events(0) {
		if e.Kind == EvCall && strings.Contains(e.Name, "iradix") {
			for _, a := range e.Args {
				r.add(a)
			}
		}
	}
	return r
}

func ruleC42(c *Check) {
	su := c.su
	user := su.p.typ("", "SessionDetails")
	iface, _ := under(su.p.typ("messages", "Message")).(*types.Interface)
	roles := c.roleMaps()
	// what broker and dealer hand out
	for _, name := range []string{"Broker", "Dealer"} {
		n, _ := su.p.typ("", name).(*types.Named)
		if !c.must(n != nil, "anchor", site{tag: name}, "type %s does not exist", name) {
			continue
		}
		for _, fn := range su.exportedMethods(n) {
			kinds := []string{""}
			for _, q := range fn.Params {
				if it, ok := under(q.Type()).(*types.Interface); ok && iface != nil && types.Identical(it, iface) {
					kinds = nil
					for _, t := range su.msgs {
						kinds = append(kinds, t.Obj().Name())
					}
				}
				if p := ptrTo(q.Type()); p != nil && su.msgType(p.Obj().Name()) == p {
					kinds = []string{p.Obj().Name()}
				}
			}
			for _, k := range kinds {
				r := c.run("", name, fn.Name(), k)
				if r.e == nil || len(r.args) == 0 {
					continue
				}
				for i := range r.outs {
					o := &r.outs[i]
					if o.panicked {
						continue
					}
					s := c.at(fn, k).on(o)
					c.untouched(o.st, r.pre, r.msg, roles, s)
					ret := newReach(o.st, r.pre)
					for _, x := range o.rets {
						ret.add(x)
					}
					c.n["returned"] += len(ret.fresh)
					var bad []string
					for x := range putBack(o.st) {
						c.must(!ret.others[x] && !ret.fresh[x], "shared", s, "what is returned contains an object that was put back for others to use: %v", x)
					}
					for x := range ret.others {
						if internal(x, r.args[0], user) {
							bad = append(bad, x.String())
						}
						if roles[x] || x.op == OMapNew || x.op == OAlloc || c.common(x) {
							c.must(false, "shared", s, "what is returned contains an object all operations share: %v", x)
						}
					}
					sort.Strings(bad)
					c.must(len(bad) == 0, "internal", s, "what is returned refers to what %s keeps: %s", name, strings.Join(bad, ", "))
					if len(ret.fresh) > 0 {
						kept := sharedState(o.st, r.pre, r.args[0])
						for x := range ret.fresh {
							c.must(!kept.fresh[x], "kept", s, "%s keeps an object that it also returns: %v", name, x)
						}
					}
				}
			}
		}
	}
	// messages are read only
	for _, t := range su.msgs {
		ms := su.p.prog.MethodSets.MethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			fn := su.p.prog.MethodValue(ms.At(i))
			if fn == nil || !ms.At(i).Obj().Exported() || ms.At(i).Obj().Name() == "Parse" || fn.Signature.Params().Len() > 0 {
				continue
			}
			e := su.engine()
			mi, p := su.message(e, t)
			st := su.p.start(e)
			pre := st.clone()
			arg := p
			if fn.Signature.Recv() != nil {
				if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok {
					continue
				}
			}
			_ = mi
			outs := e.Call(st, fn, []*Term{arg}, nil, 0, nil)
			c.count(fn, e, len(outs))
			for j := range outs {
				if !outs[j].panicked {
					c.untouched(outs[j].st, pre, p, roles, c.at(fn, t.Obj().Name()).on(&outs[j]))
				}
			}
		}
	}
	// session
	if x := c.session(); x != nil {
		for _, op := range x.ops() {
			for _, v := range x.do(x.pre, op) {
				c.untouched(v.o.st, x.pre, op.msg, roles, x.site(op).on(v.o))
			}
		}
	}
	// handshake
	for _, nilArgs := range []bool{false, true} {
		for _, x := range []*explored{c.histories("Acceptor", "NewAcceptor", nil, nilArgs), c.histories("Joiner", "NewJoiner", []string{"SendHello"}, nilArgs)} {
			for _, h := range x.all {
				n := len(h.steps)
				if n == 0 || h.panic {
					continue
				}
				s := &h.steps[n-1]
				at := c.at(x.fn, s.msg).on(s.pos)
				c.untouched(h.st, su.p.init, s.ptr, roles, at)
				if s.pos == nil || s.pos.panicked {
					continue
				}
				r := newReach(s.st, su.p.init)
				for _, y := range s.pos.rets {
					r.add(y)
				}
				for y := range putBack(s.st) {
					c.must(!r.others[y] && !r.fresh[y], "shared", at, "what is returned contains an object that was put back for others to use: %v", y)
				}
				for y := range r.others {
					c.must(roles[y] || !c.common(y), "shared", at, "what is returned contains an object all handshakes share: %v", y)
				}
			}
		}
	}
	// serializers
	c.serializersRead(roles)
	// what is made
	c.ownParts(roles)
	// nothing else writes to a message or the announcements
	c.writesSyntactically()
	c.need("returned", 20)
	c.need("message", 200)
	c.need("internal", 50)
	c.need("own", 60)
	c.need("announcements", 200)
}

// roleMaps are the dictionaries of the role announcements.
func (c *Check) roleMaps() map[*Term]bool {
	r := map[*Term]bool{}
	st := c.su.p.init
	for _, n := range []string{"RouterRoles", "ClientRoles"} {
		sp := c.su.p.pkgs[""]
		if sp == nil || sp.Var(n) == nil {
			continue
		}
		x := newReach(st, newState(st.eng))
		x.any = true
		x.add(st.load(intern(Term{op: OGlobal, glob: sp.Var(n)}), sp.Var(n).Type().(*types.Pointer).Elem()))
		for m := range x.fresh {
			r[m] = true
		}
	}
	c.must(len(r) >= 4, "anchor", site{tag: "roles"}, "the global role announcements were not found")
	return r
}

// untouched: neither the message nor the announcements are changed.
func (c *Check) untouched(st, pre *State, msg *Term, roles map[*Term]bool, s site) {
	if msg != nil {
		var bad []string
		for a, v := range st.mem {
			if partOf(a, msg) && pre.mem[a] != v && !(v.op == OInit && v.args[0] == a) {
				bad = append(bad, a.String())
			}
		}
		for m, ms := range st.maps {
			if partOf(m, msg) && pre.maps[m] != ms && len(ms.log) > 0 {
				bad = append(bad, m.String())
			}
		}
		sort.Strings(bad)
		c.must(len(bad) == 0, "message", s, "a message is changed after it was made: %s", strings.Join(bad, ", "))
	}
	for m := range roles {
		if st.maps[m] == pre.maps[m] {
			continue
		}
		a, b := st.maps[m], pre.maps[m]
		same := a != nil && b != nil && a.ver == b.ver && a.known == b.known && len(a.log) == len(b.log)
		for i := 0; same && i < len(a.log); i++ {
			same = a.log[i] == b.log[i]
		}
		c.must(same, "announcements", s, "the global role announcements are changed")
	}
	c.n["announcements"]++
}

// serializersRead: encoding changes no message.
func (c *Check) serializersRead(roles map[*Term]bool) {
	su := c.su
	n := 0
	sp := su.p.pkgs["serializers"]
	iface, _ := under(su.p.typ("serializers", "Serializer")).(*types.Interface)
	if !c.must(sp != nil && iface != nil, "anchor", site{tag: "serializers"}, "the interface serializers.Serializer does not exist") {
		return
	}
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || structOf(tn.Type()) == nil || !types.Implements(types.NewPointer(tn.Type()), iface) {
			continue
		}
		fn := su.method(types.NewPointer(tn.Type()), "Serialize")
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		n++
		for _, t := range su.msgs {
			e := su.engine()
			recv := mkSym("serializer", fn.Params[0].Type())
			e.nonNil[recv] = true
			mi, p := su.message(e, t)
			st := su.p.start(e)
			pre := st.clone()
			outs := e.Call(st, fn, []*Term{recv, mi}, nil, 0, nil)
			c.count(fn, e, len(outs))
			for i := range outs {
				if !outs[i].panicked {
					c.untouched(outs[i].st, pre, p, roles, c.at(fn, t.Obj().Name()).on(&outs[i]))
				}
			}
		}
	}
	c.must(n >= 3, "anchor", site{tag: "serializers"}, "only %d serializers were found", n)
}

// writesSyntactically: in the whole module fields of messages are stored only through objects made in the same function or by
// methods named Parse, and dictionaries taken from package level variables are never written.
func (c *Check) writesSyntactically() {
	su := c.su
	isMsg := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/messages" {
			return false
		}
		return su.msgType(n.Obj().Name()) == n
	}
	var origin func(v ssa.Value, d int) ssa.Value
	origin = func(v ssa.Value, d int) ssa.Value {
		if d > 20 {
			return v
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return origin(x.X, d+1)
		case *ssa.UnOp:
			return origin(x.X, d+1)
		case *ssa.TypeAssert:
			return origin(x.X, d+1)
		case *ssa.Lookup:
			return origin(x.X, d+1)
		case *ssa.Extract:
			return origin(x.Tuple, d+1)
		case *ssa.ChangeType:
			return origin(x.X, d+1)
		case *ssa.MakeInterface:
			return origin(x.X, d+1)
		}
		return v
	}
	global := func(v ssa.Value) (*ssa.Global, bool) {
		g, ok := origin(v, 0).(*ssa.Global)
		return g, ok && g.Pkg != nil && isModulePath(g.Pkg.Pkg.Path())
	}
	roleVar := func(g *ssa.Global) bool { return g.Name() == "RouterRoles" || g.Name() == "ClientRoles" }
	// functions that build messages: Parse, and what only constructors and Parse use
	users := map[*ssa.Function][]*ssa.Function{}
	for _, fn := range su.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						users[g] = append(users[g], fn)
					}
				}
			}
		}
	}
	var builder func(fn *ssa.Function, d int) bool
	builder = func(fn *ssa.Function, d int) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Name() == "Parse" || fn.Signature.Recv() == nil && strings.HasPrefix(fn.Name(), "New") && d == 0 {
			return true
		}
		if d > 8 || fn.Object() == nil || fn.Object().Exported() || len(users[fn]) == 0 {
			return false
		}
		for _, u := range users[fn] {
			if !(u.Signature.Recv() == nil && strings.HasPrefix(u.Name(), "New")) && !builder(u, d+1) {
				return false
			}
		}
		return true
	}
	builds := func(fn *ssa.Function) bool { return builder(fn, 0) }
	for _, fn := range su.p.funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s := site{fn: fn, pos: in.Pos()}
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && roleVar(g) {
						c.must(false, "announcements", s, "the global role announcements are replaced")
					}
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					base := fa.X
					for {
						f, ok := base.(*ssa.FieldAddr)
						if !ok {
							break
						}
						base = f.X
					}
					if !isMsg(base.Type()) {
						continue
					}
					_, made := base.(*ssa.Alloc)
					c.must(made || builds(fn), "message", s, "a field of a message is written outside of its constructor and Parse")
				case *ssa.MapUpdate:
					if g, ok := global(x.Map); ok {
						c.must(!roleVar(g), "announcements", s, "the global role announcements are changed")
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if g, ok := global(x.Call.Args[0]); ok {
							c.must(!roleVar(g), "announcements", s, "the global role announcements are changed")
						}
					}
				}
			}
		}
	}
}

// globalVals are the unknown contents of package level variables.
var globalVals sync.Map

// ofGlobal: an object that a package level variable holds or that was made when the program started.
func (p *Prog) ofGlobal(t *Term) bool {
	r := t.root()
	if r.op == OGlobal || p.startup(r) {
		return true
	}
	_, ok := globalVals.Load(r)
	return ok
}

// common: an object of the whole program that somebody may change.
func (c *Check) common(x *Term) bool {
	t := typeOfTerm(x)
	if t == nil || !c.su.p.ofGlobal(x) || implementsError(t) {
		return false
	}
	switch u := under(t).(type) {
	case *types.Map:
		if b, ok := under(u.Elem()).(*types.Interface); ok && b.NumMethods() == 0 {
			return true
		}
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Interface); ok && b.NumMethods() == 0 {
			return true
		}
	case *types.Pointer:
		t = u.Elem()
	default:
		return false
	}
	return c.su.p.writtenTypes()[types.TypeString(t, nil)]
}

func implementsError(t types.Type) bool {
	e, _ := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, e)
}

// writtenTypes are the types of objects that are changed where they were not made.
func (p *Prog) writtenTypes() map[string]bool {
	p.writtenOnce.Do(func() {
		p.written = map[string]bool{}
		var add func(v ssa.Value, d int)
		add = func(v ssa.Value, d int) {
			t := v.Type()
			if pt, ok := under(t).(*types.Pointer); ok {
				t = pt.Elem()
			}
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				return
			case *ssa.FieldAddr:
				add(x.X, d+1)
			case *ssa.IndexAddr:
				add(x.X, d+1)
			}
			p.written[types.TypeString(t, nil)] = true
		}
		for _, fn := range p.funcs {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						add(x.Addr, 0)
					case *ssa.MapUpdate:
						add(x.Map, 0)
					case ssa.CallInstruction:
						cm := x.Common()
						if bi, ok := cm.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
							add(cm.Args[0], 0)
						}
						if f := cm.StaticCallee(); f != nil && !inModule(f) && f.Signature.Recv() != nil && len(cm.Args) > 0 {
							if _, ok := under(cm.Args[0].Type()).(*types.Pointer); ok {
								add(cm.Args[0], 0)
							}
						}
					}
				}
			}
		}
	})
	return p.written
}

// ownParts: what the functions of the module make is made of parts of its own.
func (c *Check) ownParts(roles map[*Term]bool) {
	su := c.su
	var names []string
	for n := range su.p.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, pn := range names {
		sc := su.p.pkgs[pn].Pkg.Scope()
		for _, fname := range sc.Names() {
			fo, ok := sc.Lookup(fname).(*types.Func)
			if !ok || !fo.Exported() || !strings.HasPrefix(fname, "New") {
				continue
			}
			fn := su.p.pkgs[pn].Func(fname)
			if fn == nil || len(fn.Blocks) == 0 || fn.Signature.TypeParams().Len() > 0 {
				continue
			}
			c.ownPartsOf(fn, roles)
		}
	}
}

// ownPartsOf: what a function makes, from given and from absent parts, shares nothing with what it makes next.
func (c *Check) ownPartsOf(fn *ssa.Function, roles map[*Term]bool) {
	su := c.su
	for _, absent := range []bool{false, true} {
		if absent && len(fn.Params) == 0 {
			continue
		}
		e := su.engine()
		st := su.p.start(e)
		var args []*Term
		for _, q := range fn.Params {
			if absent {
				args = append(args, zero(q.Type()))
				continue
			}
			a := mkSym(q.Name(), q.Type())
			switch under(q.Type()).(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
				e.nonNil[a] = true
			}
			args = append(args, a)
		}
		pre := st.clone()
		outs := e.Call(st, fn, args, nil, 0, nil)
		c.count(fn, e, len(outs))
		for i := range outs {
			o := &outs[i]
			if o.panicked {
				continue
			}
			r := newReach(o.st, pre)
			for _, x := range o.rets {
				r.add(x)
			}
			var bad []string
			for x := range r.others {
				if !roles[x] && c.common(x) {
					bad = append(bad, x.String())
				}
			}
			sort.Strings(bad)
			c.must(len(bad) == 0, "own", c.at(fn, "").on(o), "%s gives out an object that everything it makes shares: %s", fn.Name(), strings.Join(bad, ", "))
		}
	}
}

// putBack are the objects given to pools.
func putBack(st *State) map[*Term]bool {
	r := map[*Term]bool{}
	for _, ev := range st.Events(0) {
		if ev.Kind == EvCall && ev.Name == "(*sync.Pool).Put" && len(ev.Args) == 2 && ev.Args[1] != nil {
			x := st.rep(unbox(st.rep(ev.Args[1])))
			for x.op == OExtract && len(x.args) > 0 && x.args[0].op == OAssert { // the value of a checked assertion
				x = x.args[0]
			}
			r[x] = true
		}
	}
	return r
}
