package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run is the analysis of one entry point.
type Run struct {
	Name string
	e    *Engine
	fn   *ssa.Function
	args []*Term
	outs []Outcome
	pre  *State
	msg  *Term // the message pointer of a message entry
	kind string
}

// Suite holds the program and the analyses made so far.
type Suite struct {
	idPath  []int // of the id in the details of a session
	idKnown bool
	p       *Prog
	runs    map[string]*Run
	nn      map[string]bool
	bk      *Router
	dl      *Router
	deep    bool
	filled  bool           // what the indexes hold is known to have members
	msgs    []*types.Named // the concrete message types
	fails   []string
	hists   map[string]*explored
}

// leaf is a place inside a struct, reached by fields (>= 0) and pointers (-1).
type leaf struct {
	path []int
	typ  types.Type
	name string
}

// Router names the parts of Broker or Dealer by what they are used for.
type Router struct {
	T         *types.Named
	elem      *types.Named // Subscription or Registration
	pend      *types.Named
	sessions  *leaf
	bySession *leaf
	exact     *leaf
	wildcard  *leaf
	tree      *leaf
	details   *leaf
	pending   *leaf
	byCall    *leaf
	fID       int // fields of elem
	fURI      int
	fMembers  int
	fMatch    int
	fPolicy   int
	fCallees  int
	fNext     int
	missing   []string
}

func (su *Suite) leaves(t types.Type, path []int, name string, depth int) []leaf {
	var r []leaf
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		pt := append(append([]int(nil), path...), i)
		n := f.Name()
		if name != "" {
			n = name + "." + n
		}
		ft := f.Type()
		if s2 := structOf(ft); s2 != nil && inModuleType(ft) && depth < 3 {
			r = append(r, su.leaves(ft, pt, n, depth+1)...)
			continue
		}
		if p, ok := under(ft).(*types.Pointer); ok && inModuleType(p.Elem()) && structOf(p.Elem()) != nil && depth < 3 {
			if nm, ok := p.Elem().(*types.Named); ok && !nm.Obj().Exported() {
				r = append(r, su.leaves(p.Elem(), append(pt, -1), n, depth+1)...)
				continue
			}
		}
		r = append(r, leaf{pt, ft, n})
	}
	return r
}

func inModuleType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && isModulePath(n.Obj().Pkg().Path())
}

// at gives the address of a leaf under an object address.
func (l *leaf) at(recv *Term) *Term {
	a := recv
	for _, i := range l.path {
		if i < 0 {
			a = intern(Term{op: OInit, args: []*Term{a}, typ: types.NewPointer(addrElem2(a))})
			continue
		}
		a = mkField(a, i)
	}
	return a
}

func addrElem2(a *Term) types.Type {
	e := addrElem(a)
	if p, ok := under(e).(*types.Pointer); ok {
		return p.Elem()
	}
	return e
}

// init gives the value of a leaf at entry.
func (l *leaf) init(recv *Term) *Term {
	return intern(Term{op: OInit, args: []*Term{l.at(recv)}, typ: l.typ})
}

// recvOf: the object an address belongs to, if it is this leaf of the object.
func (l *leaf) recvOf(addr *Term) *Term {
	if l == nil {
		return nil
	}
	a := addr
	for i := len(l.path) - 1; i >= 0; i-- {
		if l.path[i] < 0 {
			if a.op != OInit {
				return nil
			}
			a = a.args[0]
			continue
		}
		if a.op != OField || a.n != l.path[i] {
			return nil
		}
		a = a.args[0]
	}
	return a
}

// recvOf2 is recvOf for the value of a leaf at entry.
func (l *leaf) recvOf2(m *Term) *Term {
	if m.op != OInit || m.n != 0 {
		return nil
	}
	return l.recvOf(m.args[0])
}

func mapOf(t types.Type) (k, v types.Type) {
	if m, ok := under(t).(*types.Map); ok {
		return m.Key(), m.Elem()
	}
	return nil, nil
}

func isBasic(t types.Type, k types.BasicKind) bool {
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == k
}

func ptrTo(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := under(t).(*types.Pointer); ok {
		n, _ := p.Elem().(*types.Named)
		return n
	}
	return nil
}

func fieldNamed(t types.Type, name string) int {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (su *Suite) router(name, has, disclose string) *Router {
	r := &Router{fID: -1, fURI: -1, fMembers: -1, fMatch: -1, fPolicy: -1, fCallees: -1, fNext: -1}
	miss := func(s string) { r.missing = append(r.missing, name+": "+s) }
	t, _ := su.p.typ("", name).(*types.Named)
	if t == nil {
		miss("no type " + name)
		return r
	}
	r.T = t
	var strMaps []*leaf
	ls := su.leaves(t, nil, "", 0)
	for i := range ls {
		l := &ls[i]
		k, v := mapOf(l.typ)
		switch {
		case k != nil && isBasic(k, types.Uint64):
			if n := ptrTo(v); n != nil {
				switch {
				case n.Obj().Name() == "SessionDetails":
					r.sessions = l
				case n.Obj().Name() == "PendingInvocation":
					r.pending = l
					r.pend = n
				}
			}
			if k2, v2 := mapOf(v); k2 != nil && isBasic(k2, types.Uint64) {
				if n := ptrTo(v2); n != nil {
					r.bySession = l
					r.elem = n
				}
			}
		case k != nil && isBasic(k, types.String):
			strMaps = append(strMaps, l)
		case k != nil && structOf(k) != nil:
			if isBasic(v, types.Uint64) {
				r.byCall = l
			}
		default:
			if n := ptrTo(l.typ); n != nil && n.Obj().Name() == "Tree" {
				r.tree = l
			}
		}
	}
	if r.bySession == nil {
		miss("no map of the subscriptions or registrations of a session")
	}
	if r.elem != nil {
		st := structOf(r.elem)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k, v := mapOf(f.Type())
			sl, isSl := under(f.Type()).(*types.Slice)
			switch {
			case f.Name() == "ID":
				r.fID = i
			case f.Name() == "Topic" || f.Name() == "Procedure":
				r.fURI = i
			case k != nil && isBasic(k, types.Uint64) && isBasic(v, types.Uint64):
				r.fMembers = i
			case f.Name() == "Match":
				r.fMatch = i
			case f.Name() == "InvocationPolicy":
				r.fPolicy = i
			case isSl && isBasic(sl.Elem(), types.Uint64):
				r.fCallees = i
			case isIntT(f.Type()) && !f.Exported():
				r.fNext = i
			}
		}
		if r.fID < 0 || r.fURI < 0 || r.fMembers < 0 || r.fMatch < 0 {
			miss("the fields ID, URI, members and Match of " + r.elem.Obj().Name() + " were not found")
		}
	}
	// the map HasSubscription / HasProcedure reads is the exact one
	var cand []*leaf
	for _, l := range strMaps {
		_, v := mapOf(l.typ)
		if ptrTo(v) == r.elem {
			cand = append(cand, l)
		}
	}
	if fn := su.p.fn("", name, has); fn != nil && len(cand) > 0 {
		e := NewEngine(su.p)
		e.record = false
		s := su.p.start(e)
		recv, uri := mkSym("recv", fn.Params[0].Type()), mkSym("uri", fn.Params[1].Type())
		e.nonNil[recv] = true
		for _, o := range e.Call(s, fn, []*Term{recv, uri}, nil, 0, nil) {
			see := func(t *Term) {
				t.any(func(x *Term) bool {
					if x.op == OMHas && x.args[1] == uri {
						for _, l := range cand {
							if x.args[0] == l.init(recv) {
								r.exact = l
							}
						}
					}
					return false
				})
			}
			for f := range o.st.facts {
				see(f)
			}
			for _, x := range o.rets {
				see(x)
			}
		}
	}
	for _, l := range cand {
		if l != r.exact {
			r.wildcard = l
		}
	}
	if r.exact == nil {
		miss("the map read by " + has + " was not found")
	}
	if fn := su.p.fn("", name, disclose); fn != nil {
		e := NewEngine(su.p)
		e.record = false
		s := su.p.start(e)
		recv, v := mkSym("recv", fn.Params[0].Type()), mkSym("disclose", fn.Params[1].Type())
		e.nonNil[recv] = true
		for _, o := range e.Call(s, fn, []*Term{recv, v}, nil, 0, nil) {
			for _, ev := range o.st.Events(0) {
				if ev.Kind == EvStore && ev.Val == v {
					for i := range ls {
						if ls[i].at(recv) == ev.Addr {
							r.details = &ls[i]
						}
					}
				}
			}
		}
	}
	if r.details == nil {
		miss("the flag set by " + disclose + " was not found")
	}
	return r
}

func newSuite(p *Prog) *Suite {
	su := &Suite{p: p, hists: map[string]*explored{}, runs: map[string]*Run{}, nn: map[string]bool{}}
	if sp := p.pkgs["messages"]; sp != nil {
		iface, _ := under(p.typ("messages", "Message")).(*types.Interface)
		for _, n := range sp.Pkg.Scope().Names() {
			if nm, ok := sp.Pkg.Scope().Lookup(n).Type().(*types.Named); ok && iface != nil {
				if _, isT := sp.Pkg.Scope().Lookup(n).(*types.TypeName); !isT {
					continue
				}
				if structOf(nm) != nil && types.Implements(types.NewPointer(nm), iface) {
					su.msgs = append(su.msgs, nm)
				}
			}
		}
	}
	su.bk = su.router("Broker", "HasSubscription", "AutoDisclosePublisher")
	su.dl = su.router("Dealer", "HasProcedure", "AutoDiscloseCaller")
	for _, r := range []*Router{su.bk, su.dl} {
		if r.T != nil && (r.sessions == nil || r.tree == nil || r.wildcard == nil) {
			r.missing = append(r.missing, r.T.Obj().Name()+": sessions, prefix tree or wildcard map were not found")
		}
	}
	if su.dl.pending == nil {
		su.dl.missing = append(su.dl.missing, "Dealer: no map of pending calls")
	}
	su.inferNonNil()
	su.install()
	return su
}

// install sets the invariants of the router's data that entries may assume (rules check that every entry keeps them).
func (su *Suite) install() {
	routers := []*Router{su.bk, su.dl}
	// the sessions and the registrations by session have the same keys
	mapAlias = func(m *Term) *Term {
		if m.op != OInit || m.n != 0 {
			return nil
		}
		for _, r := range routers {
			if r.sessions == nil || r.bySession == nil || typeKey(m.typ) != typeKey(r.sessions.typ) {
				continue
			}
			if recv := r.sessions.recvOf(m.args[0]); recv != nil && ownerIs(recv, r.T) {
				return r.bySession.init(recv)
			}
		}
		return nil
	}
	// the callees are the registrants
	su.p.lenAlias = func(s *State, t *Term) *Term {
		r := su.dl
		if t.op != OInit || t.n != 0 || r.fCallees < 0 || t.args[0].op != OField || t.args[0].n != r.fCallees || !ownerIs(t.args[0].args[0], r.elem) {
			return nil
		}
		return mkLen(intern(Term{op: OInit, args: []*Term{mkField(t.args[0].args[0], r.fMembers)}, typ: structOf(r.elem).Field(r.fMembers).Type()}), 0)
	}
}

func ownerIs(addr *Term, n *types.Named) bool {
	t := addrElem(addr)
	return t != nil && n != nil && types.Identical(t, n)
}

// hooks gives an engine the entry invariants.
func (su *Suite) hooks(e *Engine) {
	for k, v := range su.nn {
		e.nnClass[k] = v
	}
	if r := su.dl; r.elem != nil && r.fNext >= 0 {
		e.nnegClass["F:"+typeKey(r.elem)+"."+itoa(r.fNext)] = true
	}
	routers := []*Router{su.bk, su.dl}
	e.getHook = func(s *State, m, k *Term, ver int, vt types.Type) *Term {
		// the exact index holds, under the URI of every subscription of a session, that subscription
		if m.op != OInit || m.n != 0 {
			return nil
		}
		for _, r := range routers {
			if r.exact == nil || r.elem == nil {
				continue
			}
			recv := r.exact.recvOf(m.args[0])
			if recv == nil || !ownerIs(recv, r.T) || k.op != OInit || k.n != 0 || k.args[0].op != OField || k.args[0].n != r.fURI {
				continue
			}
			v := k.args[0].args[0]
			if ses := r.ownerOf(v, recv); ses != nil && (ver == 0 || v.args[1].op == OKey) {
				// in a loop over the entries of a session every round concerns another URI
				s.assume(mkHas(m, k, ver), true)
				return v
			}
		}
		return nil
	}
	// the id of an entry is the key it is kept under in the list of a session
	idPath := su.sessionIDPath()
	idOf := func(s *State, t *Term) *Term {
		if t.op != OInit || t.args[0].op != OField {
			return t
		}
		a := t.args[0]
		// and so is the id of the details of a session
		if x := a; idPath != nil {
			for _, n := range idPath {
				if x != nil && x.op == OField && x.n == n {
					x = x.args[0]
				} else {
					x = nil
				}
			}
			if x != nil && x.op == OMGet && x.n == 0 && x.args[0].op == OInit && x.args[0].n == 0 {
				for _, r := range routers {
					if r.sessions != nil && r.sessions.recvOf(x.args[0].args[0]) != nil {
						if v, ok := s.decide(mkHas(x.args[0], x.args[1], 0)); ok && v {
							return s.rep(x.args[1])
						}
					}
				}
			}
		}
		for _, r := range routers {
			if r.elem == nil || a.n != r.fID || !ownerIs(a.args[0], r.elem) || r.bySession == nil {
				continue
			}
			if r.ownerOf(a.args[0], nil) != nil {
				return s.rep(a.args[0].args[1])
			}
		}
		return t
	}
	e.decideHook = func(s *State, c *Term) (bool, bool) {
		if c.op == OBin && c.tok == token.EQL && c.args[1].isNil() && s.approval(c.args[0]) {
			return false, true
		}
		if c.op == OBin && c.tok == token.EQL {
			x, y := idOf(s, c.args[0]), idOf(s, c.args[1])
			if x != c.args[0] || y != c.args[1] {
				return s.decide(mkCmp(token.EQL, x, y))
			}
		}
		// a session is a member of each of its subscriptions
		if c.op == OMHas && c.n == 0 && su.dl.pending != nil && su.dl.pending.recvOf2(c.args[0]) != nil {
			// ids of invocations are generated ids, which are never 0
			if v, ok := s.rep(c.args[1]).constInt(); ok && v == 0 {
				return false, true
			}
			if k := s.rep(c.args[1]); k.op == OMGet {
				if has, ok := s.facts[mkHas(k.args[0], k.args[1], k.n)]; ok && !has {
					return false, true
				}
			}
		}
		if su.filled && c.op == OBin && c.args[0].op == OConst && c.args[1].op == OLen && c.args[1].n == 0 {
			if k, ok := c.args[0].constInt(); ok && k == 0 && c.tok == token.LSS {
				for _, r := range routers {
					if v := r.membersOf(c.args[1].args[0]); v != nil && r.indexed(s, v) {
						return true, true
					}
				}
			}
		}
		if c.op == OMHas && c.args[0].op == OInit && c.args[0].n == 0 && c.args[0].args[0].op == OField {
			a := c.args[0].args[0]
			for _, r := range routers {
				if r.elem == nil || a.n != r.fMembers || !ownerIs(a.args[0], r.elem) || r.bySession == nil {
					continue
				}
				if ses := r.ownerOf(a.args[0], nil); ses != nil && ses == c.args[1] && (c.n == 0 || a.args[0].args[1].op == OKey) {
					return true, true
				}
			}
		}
		return false, false
	}
}

// membersOf: x are the members an element has on entry.
func (r *Router) membersOf(x *Term) *Term {
	if r.elem == nil || x.op != OInit || x.n != 0 || x.args[0].op != OField || x.args[0].n != r.fMembers || !ownerIs(x.args[0].args[0], r.elem) {
		return nil
	}
	return x.args[0].args[0]
}

// indexed: v was found in an index as it was on entry.
func (r *Router) indexed(s *State, v *Term) bool {
	of := func(m *Term) bool {
		for _, l := range []*leaf{r.exact, r.wildcard} {
			if l != nil && m.op == OInit && m.n == 0 {
				if recv := l.recvOf(m.args[0]); recv != nil && ownerIs(recv, r.T) {
					return true
				}
			}
		}
		return false
	}
	if v.op == OMGet && v.n == 0 && of(v.args[0]) {
		has, ok := s.decide(mkHas(v.args[0], v.args[1], 0))
		return ok && has
	}
	if v.op == OExtract && v.n == 1 && v.args[0].op == OCall && v.args[0].name == "LongestPrefix" {
		root := v.args[0].args[0]
		if root.op != OCall || root.name != "iradix.Root" || root.args[0].op != OInit || root.args[0].n != 0 || r.tree == nil {
			return false
		}
		recv := r.tree.recvOf(root.args[0].args[0])
		return recv != nil && ownerIs(recv, r.T)
	}
	return false
}

// ownerOf: the session in whose entry of bySession an element is.
func (r *Router) ownerOf(v, recv *Term) *Term {
	if v.op != OMGet || v.n != 0 && v.args[1].op != OKey {
		return nil
	}
	in := v.args[0]
	if in.op != OMGet || in.args[0].op != OInit || in.n != 0 {
		return nil
	}
	x := r.bySession.recvOf(in.args[0].args[0])
	if x == nil || recv != nil && x != recv || !ownerIs(x, r.T) {
		return nil
	}
	return in.args[1]
}

// sessionIDPath finds the field that holds the id of the details of a session: its indexes from the inside out.
func (su *Suite) sessionIDPath() []int {
	t, ok := su.p.typ("", "SessionDetails").(*types.Named)
	if !ok || su.idKnown {
		return su.idPath
	}
	su.idKnown = true
	x := mkSym("details", types.NewPointer(t))
	e := su.engine()
	e.record = false
	e.nonNil[x] = true
	id := su.get(su.p.start(e), x, "ID")
	if id == nil || id.op != OInit {
		return nil
	}
	var r []int
	for a := id.args[0]; a != x; a = a.args[0] {
		if a.op != OField {
			return nil
		}
		r = append(r, a.n)
	}
	su.idPath = r
	return r
}

// inferNonNil finds the fields that every construction of a struct fills.
func (su *Suite) inferNonNil() {
	type st struct{ seen, nn int }
	cnt := map[string]*st{}
	for _, fn := range su.p.funcs {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		allocs := map[*types.Named]bool{}
		var find func(fn *ssa.Function)
		find = func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && a.Heap {
						if n, ok := a.Type().(*types.Pointer).Elem().(*types.Named); ok && inModuleType(n) && structOf(n) != nil {
							allocs[n] = true
						}
					}
				}
			}
			for _, g := range fn.AnonFuncs {
				find(g)
			}
		}
		find(fn)
		if len(allocs) == 0 {
			continue
		}
		e := NewEngine(su.p)
		e.record = false
		e.maxDepth = 3
		s := su.p.start(e)
		lo := serials
		var args []*Term
		for _, p := range fn.Params {
			a := mkSym(p.Name(), p.Type())
			args = append(args, a)
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				e.nonNil[a] = true
			}
		}
		for _, o := range e.Call(s, fn, args, nil, 0, nil) {
			if o.panicked {
				continue
			}
			// objects built completely on the path
			seen := map[*Term]bool{}
			failed := false
			for i, r := range o.rets {
				if isErrorType(fn.Signature.Results().At(i).Type()) {
					if v, ok := o.st.decide(mkCmp(eqTok, r, mkNil())); !ok || !v {
						failed = true
					}
				}
			}
			if failed {
				continue
			}
			for a := range o.st.mem {
				r := a
				for r.op == OField || r.op == OIndex {
					r = r.args[0]
				}
				if r.op == OAlloc && r.n > lo {
					seen[r] = true
				}
			}
			for a := range seen {
				n, ok := a.typ.(*types.Named)
				if !ok || !allocs[n] {
					continue
				}
				for _, l := range su.leaves(n, nil, "", 0) {
					switch under(l.typ).(type) {
					case *types.Map, *types.Pointer, *types.Interface:
					default:
						continue
					}
					neg := false
					for _, x := range l.path {
						neg = neg || x < 0
					}
					if neg {
						continue
					}
					ad := l.at(a)
					c := class(ad)
					if cnt[c] == nil {
						cnt[c] = &st{}
					}
					cnt[c].seen++
					if v, ok := o.st.decide(mkCmp(eqTok, o.st.load(ad, l.typ), mkNil())); ok && !v {
						cnt[c].nn++
					}
				}
			}
		}
	}
	for c, x := range cnt {
		if x.seen > 0 && x.seen == x.nn {
			su.nn[c] = true
		}
	}
}

func (su *Suite) engine() *Engine {
	e := NewEngine(su.p)
	su.hooks(e)
	e.opaque[nextIDName] = true
	e.opaque[modPath+".GenerateID"] = true
	e.opaque[modPath+"/auth.NowISO8601"] = true
	if su.deep {
		e.maxDepth = 16
		e.budget *= 8
	}
	return e
}

const nextIDName = "(*" + modPath + ".SessionScopeIDGenerator).NextID"

// message makes an entry message of a concrete type.
func (su *Suite) message(e *Engine, t *types.Named) (iface, ptr *Term) {
	return su.messageNamed(e, t, "msg")
}

func (su *Suite) messageNamed(e *Engine, t *types.Named, name string) (iface, ptr *Term) {
	pt := types.NewPointer(t)
	ptr = mkSym(name, pt)
	e.nonNil[ptr] = true
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		switch under(st.Field(i).Type()).(type) {
		case *types.Interface, *types.Pointer:
			e.nonNil[intern(Term{op: OInit, args: []*Term{mkField(ptr, i)}, typ: st.Field(i).Type()})] = true
		}
	}
	return mkIface(pt, ptr), ptr
}

func (su *Suite) msgType(name string) *types.Named {
	for _, m := range su.msgs {
		if m.Obj().Name() == name {
			return m
		}
	}
	return nil
}

// entry analyses a method with unknown arguments; msg names the type of the message argument ("" none).
func (su *Suite) entry(pkg, recv, name, msg string) *Run {
	key := pkg + "." + recv + "." + name + "(" + msg + ")"
	if r, ok := su.runs[key]; ok {
		return r
	}
	fn := su.p.fn(pkg, recv, name)
	r := &Run{Name: key, fn: fn, kind: msg}
	su.runs[key] = r
	if fn == nil {
		su.fails = append(su.fails, "entry point "+key+" does not exist")
		return r
	}
	e := su.engine()
	r.e = e
	s := su.p.start(e)
	iface, _ := under(su.p.typ("messages", "Message")).(*types.Interface)
	for i, q := range fn.Params {
		if it, ok := under(q.Type()).(*types.Interface); ok && iface != nil && types.Identical(it, iface) && msg != "" {
			t := su.msgType(msg)
			if t == nil {
				su.fails = append(su.fails, "no message type "+msg)
				return r
			}
			x, p := su.message(e, t)
			r.msg = p
			r.args = append(r.args, x)
			continue
		}
		if n := ptrTo(q.Type()); n != nil && su.msgType(n.Obj().Name()) == n {
			_, p := su.message(e, n)
			r.msg = p
			r.args = append(r.args, p)
			continue
		}
		a := mkSym(q.Name(), q.Type())
		r.args = append(r.args, a)
		if _, ok := under(q.Type()).(*types.Pointer); ok || i == 0 && recv != "" {
			e.nonNil[a] = true
		}
	}
	r.pre = s.clone()
	r.outs = e.Call(s, fn, r.args, nil, 0, nil)
	return r
}

// get evaluates an accessor of a value in a state; nil if it has no single value.
func (su *Suite) get(s *State, x *Term, method string) *Term {
	t := s.clone()
	e := su.engine()
	e.record = false
	old := t.eng
	e.nonNil, e.ranges = old.nonNil, old.ranges
	e.decideHook, e.getHook, e.nnClass = old.decideHook, old.getHook, old.nnClass
	t.eng = e
	x = t.rep(x)
	var fn *ssa.Function
	var recv *Term
	switch {
	case x.op == OIface:
		fn, recv = su.method(x.typ, method), x.args[0]
	default:
		tt := typeOfTerm(x)
		if tt == nil {
			return nil
		}
		if d, ok := t.dyn[x]; ok {
			fn, recv = su.method(d, method), mkAssert(x, d)
			break
		}
		if _, ok := under(tt).(*types.Interface); ok {
			o, _, _ := types.LookupFieldOrMethod(tt, true, nil, method)
			f, ok := o.(*types.Func)
			if !ok {
				return nil
			}
			return mkCall("get:"+method, 0, f.Type().(*types.Signature).Results().At(0).Type(), x)
		}
		fn, recv = su.method(tt, method), x
	}
	if fn == nil {
		return nil
	}
	outs := e.Call(t, fn, []*Term{recv}, nil, 0, nil)
	var res *Term
	for _, o := range outs {
		if o.panicked || len(o.rets) != 1 {
			continue
		}
		if res != nil && res != o.rets[0] {
			return nil
		}
		res = o.rets[0]
	}
	return res
}

func (su *Suite) method(t types.Type, name string) *ssa.Function {
	ms := su.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return su.p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// structField loads a named field of the struct a pointer term points to.
func structField(s *State, ptr *Term, name string) *Term {
	t := addrElem(ptr)
	if t == nil {
		return nil
	}
	i := fieldNamed(t, name)
	if i < 0 {
		return nil
	}
	return s.rep(s.load(mkField(ptr, i), structOf(t).Field(i).Type()))
}

func (s *State) isNilTerm(t *Term) (bool, bool) { return s.decide(mkCmp(eqTok, t, mkNil())) }

// failed: the outcome returns an error; ok is false if that is not known.
func failed(o Outcome, i int) (bool, bool) {
	if i >= len(o.rets) {
		return false, false
	}
	v, ok := o.st.isNilTerm(o.rets[i])
	return !v, ok
}

func describe(p *Prog, o Outcome) string {
	var fs []string
	for f, v := range o.st.facts {
		if f.op == OBin && f.tok == eqTok && f.args[1].isNil() && v {
			continue
		}
		if v {
			fs = append(fs, f.String())
		} else {
			fs = append(fs, "not "+f.String())
		}
	}
	sort.Strings(fs)
	if len(fs) > 12 {
		fs = append(fs[:12], fmt.Sprintf("… %d more", len(fs)-12))
	}
	return strings.Join(fs, "; ")
}

// approval: the response of an authenticator that returned no error, which is not nil (nor is what its response types embed).
func (s *State) approval(x *Term) bool {
	for x.op == OAssert || x.op == OInit && x.args[0].op == OField {
		if x.op == OAssert {
			if v, ok := s.facts[mkAssertOK(x.args[0], x.typ)]; !ok || !v {
				if d, ok := s.dyn[s.rep0(x.args[0])]; !ok || !types.Identical(d, x.typ) {
					return false
				}
			}
			x = x.args[0]
			continue
		}
		if st := structOf(addrElem(x.args[0].args[0])); st == nil || !st.Field(x.args[0].n).Embedded() {
			return false
		}
		x = x.args[0].args[0]
	}
	if x.op != OExtract || x.n != 0 || x.args[0].op != OCall || !strings.HasSuffix(x.args[0].name, "Authenticate") || !strings.HasSuffix(typeKey(typeOr(x)), "auth.Response") {
		return false
	}
	v, ok := s.decide(mkCmp(eqTok, mkExtract(x.args[0], 1, errType()), mkNil()))
	return ok && v
}
