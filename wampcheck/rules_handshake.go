package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about the handshake: sequences of messages given to an acceptor or joiner.

// step is one call in a history.
type step struct {
	msg  string // message type given, or the method called
	ptr  *Term  // the message
	pre  *State
	st   *State
	ret  *Term
	kind string // message type returned, "error", "none" or "?"
	pos  *Outcome
	mark int
}

// hist is a sequence of calls on one object, one way through each.
type hist struct {
	recv  *Term
	steps []step
	st    *State
	panic bool
}

// explored are all histories of an object up to the point where its state repeats.
type explored struct {
	e     *Engine
	ctor  *ssa.Function
	fn    *ssa.Function
	recvT *types.Named
	args  []*Term // of the constructor
	all   []*hist // every history, each step appended to a shorter one
	fail  string
}

// abstract gives the part of an object's state that is a constant, with the rest by kind.
func abstract(st *State, recv *Term) string {
	t := structOf(addrElem(recv))
	var sb strings.Builder
	var rec func(a *Term, t types.Type, d int)
	rec = func(a *Term, t types.Type, d int) {
		if s2 := structOf(t); s2 != nil && d < 3 {
			for i := 0; i < s2.NumFields(); i++ {
				rec(mkField(a, i), s2.Field(i).Type(), d+1)
			}
			return
		}
		v := st.rep(st.load(a, t))
		switch {
		case v.isConst():
			sb.WriteString(v.String())
		case v.op == OAlloc && d < 3:
			sb.WriteString("&(")
			if s2 := structOf(addrElem(v)); s2 != nil && inModuleType(addrElem(v)) {
				n := addrElem(v).(*types.Named)
				if n.Obj().Pkg().Path() == modPath {
					rec(v, addrElem(v), d+1)
				} else {
					sb.WriteString(n.Obj().Name())
				}
			}
			sb.WriteString(")")
		default:
			n := st.truth(eq(v, mkNil()))
			fmt.Fprintf(&sb, "%d:%s:%v", v.op, typeKey(typeOfTerm(v)), n)
			if d, ok := st.dyn[v]; ok {
				sb.WriteString(typeKey(d))
			}
		}
		sb.WriteByte(';')
	}
	for i := 0; i < t.NumFields(); i++ {
		rec(mkField(recv, i), t.Field(i).Type(), 0)
	}
	return sb.String()
}

func msgKind(st *State, x *Term) string {
	x = st.rep(x)
	if v, ok := st.isNilTerm(x); ok && v {
		return "none"
	}
	if x.op == OIface {
		if p := ptrTo(x.typ); p != nil {
			if v, ok := st.isNilTerm(x.args[0]); ok && v {
				return "none"
			}
			return p.Obj().Name()
		}
	}
	if p := ptrTo(typeOr(x)); p != nil {
		return p.Obj().Name()
	}
	return "?"
}

// explore runs sequences of calls on a new object.
func (su *Suite) explore(recvName, ctor string, nilArgs bool, methods []string, maxSteps int) *explored {
	key := fmt.Sprint(recvName, ctor, nilArgs)
	if x, ok := su.hists[key]; ok {
		return x
	}
	x := &explored{}
	su.hists[key] = x
	x.ctor = su.p.fn("", "", ctor)
	x.fn = su.p.fn("", recvName, "ReceiveMessage")
	if x.ctor == nil || x.fn == nil {
		x.fail = ctor + " or " + recvName + ".ReceiveMessage does not exist"
		return x
	}
	e := su.engine()
	e.opaque[modPath+"/auth.SelectAuthMethod"] = true
	e.opaque[modPath+".NewSessionDetails!"] = true
	for _, n := range su.serverAuthenticators() {
		e.opaque["(*"+modPath+"."+n.Obj().Name()+").Authenticate"] = true
		e.external["(*"+modPath+"."+n.Obj().Name()+").Authenticate"] = true
	}
	x.e = e
	s := su.p.start(e)
	for _, q := range x.ctor.Params {
		a := mkSym(q.Name(), q.Type())
		if _, ok := under(q.Type()).(*types.Interface); ok {
			if nilArgs {
				a = mkNil()
			} else {
				e.nonNil[a] = true
			}
		}
		x.args = append(x.args, a)
	}
	var queue []*hist
	for _, o := range e.Call(s, x.ctor, x.args, nil, 0, nil) {
		if o.panicked || len(o.rets) == 0 {
			continue
		}
		h := &hist{recv: o.st.rep(o.rets[0]), st: o.st}
		if h.recv.op != OAlloc {
			x.fail = ctor + " does not return a new object"
			return x
		}
		x.all = append(x.all, h)
		queue = append(queue, h)
	}
	if len(queue) == 0 {
		x.fail = ctor + " has no way to return"
		return x
	}
	x.recvT, _ = addrElem(queue[0].recv).(*types.Named)
	// after an outcome that sends nothing the same abstract state is not explored again
	seen := map[string]bool{}
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		if h.panic || len(h.steps) >= maxSteps {
			continue
		}
		last := "new"
		if n := len(h.steps); n > 0 {
			last = h.steps[n-1].kind
		}
		if last != "Challenge" && last != "Authenticate" {
			sent := ""
			for _, sp := range h.steps {
				if sp.kind != "error" {
					sent = sp.kind
				}
			}
			k := sent + " " + abstract(h.st, h.recv)
			if os.Getenv("WAMPCHECK_PATHS") == "2" {
				fmt.Println("state", last, len(h.steps), k)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		add := func(name string, fn *ssa.Function, st *State, args []*Term, ptr *Term) {
			su.othersAct(st)
			mark := st.mark()
			pre := st.clone()
			for _, o := range e.Call(st, fn, args, nil, 0, nil) {
				o := o
				sp := step{msg: name, ptr: ptr, pre: pre, st: o.st, mark: mark, pos: &o}
				n := &hist{recv: h.recv, st: o.st, steps: append(append([]step(nil), h.steps...), sp), panic: o.panicked}
				if !o.panicked {
					l := &n.steps[len(n.steps)-1]
					f, known := failed(o, len(o.rets)-1)
					switch {
					case !known:
						l.kind = "?"
					case f:
						l.kind = "error"
						if len(o.rets) > 1 {
							l.ret = o.st.rep(o.rets[0])
						}
					case len(o.rets) > 1:
						l.ret = o.st.rep(o.rets[0])
						l.kind = msgKind(o.st, l.ret)
						if l.kind == "?" && len(methods) > 0 && name == methods[0] {
							l.kind = "bytes"
						}
					default:
						l.kind = "none"
					}
				}
				x.all = append(x.all, n)
				if !o.panicked {
					queue = append(queue, n)
				}
			}
		}
		for _, m := range methods {
			fn := su.p.fn("", recvName, m)
			if fn == nil {
				x.fail = recvName + "." + m + " does not exist"
				return x
			}
			add(m, fn, h.st.clone(), []*Term{h.recv}, nil)
		}
		for _, t := range su.msgs {
			m, p := su.messageNamed(e, t, "msg"+itoa(len(h.steps)+1))
			add(t.Obj().Name(), x.fn, h.st.clone(), []*Term{h.recv, m}, p)
		}
		if len(x.all) > 60000 {
			x.fail = "too many histories"
			return x
		}
	}
	return x
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && n.Obj().Name() != "Map"
}

// othersAct: between two messages of one handshake other handshakes go on, so shared variables hold anything.
func (su *Suite) othersAct(s *State) {
	for _, g := range su.p.shared() {
		s.forget(g)
	}
}

// forget drops what is known about a package variable.
func (s *State) forget(g *ssa.Global) {
	a := intern(Term{op: OGlobal, glob: g})
	for k := range s.mem {
		if k.root() == a {
			delete(s.mem, k)
		}
	}
	s.anything(a, g.Type().(*types.Pointer).Elem(), g.Name())
}

// anything forgets what a place holds.
func (s *State) anything(a *Term, t types.Type, name string) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		if n.Obj().Name() == "Map" {
			s.maps[a] = &MapSt{ver: newSerial()}
		}
		return
	}
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			s.anything(mkField(a, i), st.Field(i).Type(), name+"."+st.Field(i).Name())
		}
		return
	}
	if _, ok := under(t).(*types.Array); ok {
		return
	}
	v := mkSym(name+"@"+itoa(newSerial()), t)
	globalVals.Store(v, true)
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface:
		s.eng.nonNil[v] = true
	}
	s.store(a, v, t)
}

// serverAuthenticators are the types of the root package that implement auth.ServerAuthenticator.
func (su *Suite) serverAuthenticators() (r []*types.Named) {
	iface, _ := under(su.p.typ("auth", "ServerAuthenticator")).(*types.Interface)
	sp := su.p.pkgs[""]
	if iface == nil || sp == nil {
		return
	}
	for _, n := range sp.Pkg.Scope().Names() {
		if tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
			if nm, ok := tn.Type().(*types.Named); ok && structOf(nm) != nil && types.Implements(types.NewPointer(nm), iface) {
				r = append(r, nm)
			}
		}
	}
	return
}

func (x *explored) dump(su *Suite) {
	fmt.Println(x.fail, len(x.all), "histories")
	cnt := map[string]int{}
	for _, h := range x.all {
		var sb []string
		for _, s := range h.steps {
			sb = append(sb, s.msg+"→"+s.kind)
		}
		if h.panic {
			sb = append(sb, "PANIC")
		}
		cnt[strings.Join(sb, "  ")]++
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(cnt[k], k)
	}
	n := 0
	for _, h := range x.all {
		if len(h.steps) > 0 && h.steps[len(h.steps)-1].kind == "Welcome" {
			n++
			fmt.Println("=== ", len(h.steps), h.steps[len(h.steps)-1].ret)
			for f, v := range h.st.facts {
				fmt.Println("   ", v, f)
			}
			for _, ev := range h.st.Events(0) {
				fmt.Println("   >", ev.String())
			}
			w := unbox(h.steps[len(h.steps)-1].ret)
			d := su.get(h.st, w, "Details")
			if d != nil {
				m, ok := h.st.dictionary(d)
				fmt.Println("   details", m, ok)
			}
		}
	}
	_ = n
}
