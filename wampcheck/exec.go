package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

// Outcome is one way a function ends.
type Outcome struct {
	st       *State
	rets     []*Term
	panicked bool
}

// LoopVar describes a value changed by a loop.
type LoopVar struct {
	Loop *LoopAct
	Phi  *ssa.Phi
	Addr *Term
	Init *Term
}

// LoopPhi is a header phi of a summarised loop.
type LoopPhi struct {
	Phi  *ssa.Phi
	Sym  *Term
	Init *Term
}

// LoopBack is one way through the body of a loop to its next iteration.
type LoopBack struct {
	St   *State
	Mark int
	Next []*Term
}

// LoopAct is a summarised loop.
type LoopAct struct {
	Header *ssa.BasicBlock
	Fn     *ssa.Function
	Range  *Term // map whose entries the loop goes through
	list   *listLoop
	Phis   []LoopPhi
	Backs  []LoopBack
	Entry  *State
	Pos    token.Pos
	start  int
}

// listLoop: a loop goes through all elements of a list that holds the keys or the values of a map.
type listLoop struct {
	*collection
	x   *Term
	phi *ssa.Phi
	off int64 // the index of a round is phi+off
	own bool  // a round changes the map at its own key only
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

const (
	modeDiscover = iota
	modeFinal
)

type loopRun struct {
	info *loopInfo
	mode int
	act  *LoopAct
	mark int
	out  *[]LoopBack
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	in   *ssa.Defer
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
	depth  int
	stack  []*ssa.Function
	loops  []*loopRun
	unroll map[*ssa.BasicBlock]int
	free   []*Term
}

func (f *frame) clone() *frame {
	r := *f
	r.env = cp(f.env)
	r.defers = append([]deferred(nil), f.defers...)
	r.loops = append([]*loopRun(nil), f.loops...)
	r.unroll = cp(f.unroll)
	return &r
}

// Oblig is a condition the program panics without.
type Oblig struct {
	Kind  string
	Pos   token.Pos
	Fn    *ssa.Function
	Where string
	Seen  int
	Bad   int
	Why   string
	St    *State
}

// Access is a read or write of memory that is not local to the path.
type Access struct {
	Addr  *Term
	Class string
	Write bool
	Held  []*Term
	Excl  map[*Term]bool // those held exclusively
	Turn  map[*Term]int  // the how manieth time each is held
	Pos   token.Pos
	Fn    *ssa.Function
}

// Engine runs the analysis of one entry point.
type Engine struct {
	kinds      map[*Term]*Term // kinds asked for, by value
	p          *Prog
	ranges     map[*Term][2]int64
	decideHook func(*State, *Term) (bool, bool)
	assumeHook func(*State, *Term, bool) bool
	getHook    func(s *State, m, k *Term, ver int, vt types.Type) *Term
	callHook   func(s *State, fn *ssa.Function, name string, args []*Term, rt *types.Tuple) ([]callRes, bool)
	nonNil     map[*Term]bool
	nnClass    map[string]bool // field classes holding no nil
	nnegClass  map[string]bool // integer field classes holding no negative number
	opaque     map[string]bool // functions kept opaque
	invokeHook func(s *State, recv *Term, name string, args []*Term, rt *types.Tuple) ([]callRes, bool)
	decodeHook func(s *State, name string, data, ptr *Term, rt *types.Tuple) ([]callRes, bool)
	external   map[string]bool // opaque functions that see exported parts of their arguments only
	maxDepth   int
	record     bool
	obligs     map[string]*Oblig
	accs       map[string]*Access
	badLocks   map[string]Event
	paths      int
	budget     int
	steps      int
	fns        map[*ssa.Function]bool
	notes      map[string]bool
	loopsSeen  int
	inConv     bool
}

func NewEngine(p *Prog) *Engine {
	return &Engine{p: p, ranges: map[*Term][2]int64{}, nonNil: map[*Term]bool{}, nnClass: map[string]bool{}, nnegClass: map[string]bool{}, opaque: map[string]bool{}, external: map[string]bool{},
		maxDepth: 10, record: true, obligs: map[string]*Oblig{}, accs: map[string]*Access{}, badLocks: map[string]Event{},
		budget: 400000, fns: map[*ssa.Function]bool{}, notes: map[string]bool{}}
}

func isModulePath(p string) bool {
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

const modPath = "github.com/xconnio/wampproto-go"

func inModule(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return isModulePath(f.Pkg.Pkg.Path())
	}
	if f.Blocks != nil && (strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk")) {
		return true
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return isModulePath(o.Pkg().Path())
	}
	// wrappers and thunks
	if f.Synthetic != "" && f.Blocks != nil {
		return true
	}
	return false
}

// structuralPtr: pointers and maps stored in maps of the module are never nil (every insertion is an obligation).
func (e *Engine) structuralPtr(t *Term) bool {
	if t.typ == nil {
		return false
	}
	switch under(t.typ).(type) {
	case *types.Pointer, *types.Map:
	default:
		return false
	}
	r := t.args[0]
	for r.op == OMGet {
		r = r.args[0]
	}
	return r.op == OInit && r.args[0].op == OField
}

// isHavocked gives the value of a part of an object that was overwritten as a whole.
func (e *Engine) isHavocked(s *State, addr *Term) *Term {
	if addr.op != OField && addr.op != OIndex {
		return nil
	}
	p := addr.args[0]
	if p.op == OSlice {
		p = p.args[0]
	}
	v, ok := s.mem[p]
	if !ok {
		if fresh(p) {
			v = e.isHavocked(s, p)
		}
		if v == nil {
			return nil
		}
	}
	et := addrElem(addr)
	if addr.op == OField {
		return intern(Term{op: OProj, args: []*Term{v}, n: addr.n, typ: et})
	}
	return intern(Term{op: OCall, name: "elem", args: []*Term{v, addr.args[1]}, typ: et})
}

func (e *Engine) pos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if p := in.Pos(); p.IsValid() {
		return p
	}
	for _, x := range in.Block().Instrs {
		if x == in {
			break
		}
	}
	return in.Parent().Pos()
}

// require records an obligation and continues under it; false: the path ends here.
func (e *Engine) require(s *State, fr *frame, in ssa.Instruction, kind string, c *Term) bool {
	ok, known := s.decide(c)
	if e.record {
		key := kind + "|" + e.p.posStr(e.pos(in)) + "|" + fr.fn.String()
		if p := in.Pos(); !p.IsValid() {
			key += "|" + fmt.Sprint(in)
		}
		o := e.obligs[key]
		if o == nil {
			o = &Oblig{Kind: kind, Pos: e.pos(in), Fn: fr.fn, Where: fmt.Sprint(in)}
			e.obligs[key] = o
		}
		o.Seen++
		if !known || !ok {
			o.Bad++
			if o.Why == "" {
				o.Why = "not shown: " + c.String()
				o.St = s.clone()
			}
		}
	}
	if known {
		return ok
	}
	return s.assume(c, true)
}

// demand records an obligation that is decided already and goes on either way.
func (e *Engine) demand(s *State, fr *frame, in ssa.Instruction, kind string, ok bool) {
	if !e.record {
		return
	}
	old := s.clone()
	e.require(old, fr, in, kind, mkBool(ok))
}

// fromPeer: a value depends on what a message contains or on decoded bytes.
func fromPeer(n *Term) bool {
	return n.any(func(t *Term) bool {
		switch t.op {
		case OSym:
			if t.typ == nil {
				return false
			}
			k := strings.TrimPrefix(typeKey(t.typ), "*")
			return strings.HasPrefix(k, modPath+"/messages.") || isByteSeq(t.typ)
		case OCall:
			return strings.HasPrefix(t.name, "decoded:") || strings.HasSuffix(t.name, "Deserialize")
		}
		return false
	})
}

// boundedLen: a length that cannot be arbitrarily large, or is made of lengths of what exists already.
func (s *State) boundedLen(n *Term) bool {
	if d, ok := s.minDiff(n, mkInt(1<<32)); ok && d >= 0 {
		return true
	}
	var made func(t *Term) bool
	made = func(t *Term) bool {
		t = s.rep(t)
		switch t.op {
		case OConst, OLen, OCap:
			return true
		case OBin:
			switch t.tok {
			case token.ADD, token.SUB, token.QUO, token.REM, token.SHR, token.AND, token.MUL:
				return made(t.args[0]) && made(t.args[1])
			}
		case OConv:
			return made(t.args[0])
		case OCall:
			if strings.HasSuffix(t.name, "codedLen") {
				return made(t.args[len(t.args)-1])
			}
			return t.name == "iradix.Len" || t.name == "copy"
		}
		return false
	}
	return made(n) || !fromPeer(n)
}

// startup: an object made when the program starts, shared by all.
func (p *Prog) startup(t *Term) bool {
	return (t.op == OAlloc || t.op == OMapNew) && t.n <= p.initSerial
}

func (e *Engine) access(s *State, fr *frame, in ssa.Instruction, addr *Term, cl string, write bool) {
	if !e.record {
		return
	}
	r := addr.root()
	shared := r.op == OGlobal || e.p.startup(r)
	if !shared && (r.op == OAlloc || r.op == OMapNew) || shared && !write {
		return
	}
	held := s.heldLocks()
	var hs []string
	excl, turn := map[*Term]bool{}, map[*Term]int{}
	for _, h := range held {
		excl[h], turn[h] = s.locks[h] >= 1000, s.lockN[h]
		hs = append(hs, fmt.Sprint(h.id, excl[h], turn[h]))
	}
	key := fmt.Sprint(e.p.posStr(e.pos(in)), "|", cl, "|", write, "|", addr.id, "|", strings.Join(hs, ","))
	if _, ok := e.accs[key]; !ok {
		e.accs[key] = &Access{Addr: addr, Class: cl, Write: write, Held: held, Excl: excl, Turn: turn, Pos: e.pos(in), Fn: fr.fn}
	}
}

func (e *Engine) badLock(s *State, fr *frame, pos token.Pos, what string, l *Term) {
	if e.record {
		e.badLocks[what+e.p.posStr(pos)] = Event{Kind: EvBadLock, Name: what, Addr: l, Pos: pos, Fn: fr.fn}
	}
}

// Call runs a function from a state.
func (e *Engine) Call(s *State, fn *ssa.Function, args []*Term, binds []*Term, depth int, stack []*ssa.Function) []Outcome {
	if len(fn.Blocks) == 0 {
		return nil
	}
	e.fns[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, depth: depth, unroll: map[*ssa.BasicBlock]int{}}
	fr.stack = append(append([]*ssa.Function(nil), stack...), fn)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.env[f] = binds[i]
		}
	}
	outs := e.run(fr, s, fn.Blocks[0], 0)
	if depth > 0 {
		return outs
	}
	return splitErrors(fn, outs)
}

// splitErrors tells ways that pass on an error from ways that pass on no error.
func splitErrors(fn *ssa.Function, outs []Outcome) []Outcome {
	var r []Outcome
	n := fn.Signature.Results().Len()
	for _, o := range outs {
		if n > 0 && len(o.rets) == n && !o.panicked && types.Identical(fn.Signature.Results().At(n-1).Type(), errType()) {
			if _, known := o.st.isNilTerm(o.rets[n-1]); !known {
				no := o
				no.st = o.st.clone()
				if no.st.assume(mkCmp(token.EQL, o.rets[n-1], mkNil()), true) {
					r = append(r, no)
				}
				if !o.st.assume(mkCmp(token.EQL, o.rets[n-1], mkNil()), false) {
					continue
				}
			}
		}
		r = append(r, o)
	}
	return r
}

func (e *Engine) val(fr *frame, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if x.IsNil() {
				return mkNil()
			}
			return zero(x.Type())
		}
		return mkConst(x.Value, x.Type())
	case *ssa.Global:
		return intern(Term{op: OGlobal, glob: x})
	case *ssa.Function:
		return intern(Term{op: OFunc, fn: x, typ: x.Signature})
	case *ssa.Builtin:
		return intern(Term{op: OSym, name: "builtin " + x.Name()})
	}
	t := mkSym("?"+v.Name(), v.Type())
	fr.env[v] = t
	return t
}

type stepRes struct {
	st  *State
	val *Term
}

func (e *Engine) run(fr *frame, s *State, b *ssa.BasicBlock, i int) []Outcome {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.budget*10 {
			e.notes["the path budget was exceeded in "+fr.fn.String()] = true
			return nil
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Jump:
			return e.jump(fr, s, b, b.Succs[0])
		case *ssa.If:
			c := s.rep(e.val(fr, x.Cond))
			br := s.split(c)
			var outs []Outcome
			for j, r := range br {
				f := fr
				if j < len(br)-1 {
					f = fr.clone()
				}
				succ := b.Succs[1]
				if r.v {
					succ = b.Succs[0]
				}
				outs = append(outs, e.jump(f, r.st, b, succ)...)
			}
			return outs
		case *ssa.Return:
			rets := make([]*Term, len(x.Results))
			for j, r := range x.Results {
				rets[j] = s.rep(e.val(fr, r))
			}
			e.paths++
			return []Outcome{{st: s, rets: rets}}
		case *ssa.Panic:
			e.require(s, fr, in, "panic", mkBool(false))
			return []Outcome{{st: s, panicked: true}}
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			ds := fr.defers
			d := ds[len(ds)-1]
			fr.defers = ds[:len(ds)-1]
			res := e.callTerm(fr, s, d.in, d.call, d.fn, d.args)
			if len(res) == 1 {
				s = res[0].st
				i--
				continue
			}
			var outs []Outcome
			for _, r := range res {
				outs = append(outs, e.run(fr.clone(), r.st, b, i)...)
			}
			return outs
		case *ssa.Phi:
			continue // set by jump
		case *ssa.DebugRef:
			continue
		}
		res, panics := e.step(fr, s, in)
		if len(panics) > 0 {
			var outs []Outcome
			outs = append(outs, panics...)
			for _, r := range res {
				f := fr.clone()
				if v, ok := in.(ssa.Value); ok && r.val != nil {
					f.env[v] = r.val
				}
				outs = append(outs, e.run(f, r.st, b, i+1)...)
			}
			return outs
		}
		switch len(res) {
		case 0:
			return nil
		case 1:
			s = res[0].st
			if v, ok := in.(ssa.Value); ok && res[0].val != nil {
				fr.env[v] = res[0].val
			}
		default:
			var outs []Outcome
			for _, r := range res {
				f := fr.clone()
				if v, ok := in.(ssa.Value); ok && r.val != nil {
					f.env[v] = r.val
				}
				outs = append(outs, e.run(f, r.st, b, i+1)...)
			}
			return outs
		}
	}
	return nil
}

// jump follows an edge of the control flow graph.
func (e *Engine) jump(fr *frame, s *State, from, to *ssa.BasicBlock) []Outcome {
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.info.blocks[to] {
			if to == l.info.header {
				// next iteration
				var next []*Term
				for _, ph := range l.act.Phis {
					next = append(next, s.rep(e.val(fr, ph.Phi.Edges[predIndex(to, from)])))
				}
				*l.out = append(*l.out, LoopBack{St: s, Mark: l.mark, Next: next})
				return nil
			}
			break
		}
		// leaving the loop
		if l.mode == modeDiscover {
			return nil
		}
		name := "break"
		if from == l.info.header {
			name = "done"
		}
		s.emit(Event{Kind: EvLoop, Name: name, Loop: l.act, Fn: fr.fn, Pos: l.act.Pos})
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if li := e.p.loopAt(to); li != nil {
		return e.enterHeader(fr, s, from, li)
	}
	e.setPhis(fr, s, from, to)
	return e.run(fr, s, to, 0)
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return 0
}

func (e *Engine) setPhis(fr *frame, s *State, from, to *ssa.BasicBlock) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, s.rep(e.val(fr, p.Edges[predIndex(to, from)])))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

// enterHeader unrolls a loop whose condition is known and summarises it otherwise.
func (e *Engine) enterHeader(fr *frame, s *State, from *ssa.BasicBlock, li *loopInfo) []Outcome {
	h := li.header
	if fr.unroll[h] < 300 {
		f, t := fr.clone(), s.clone()
		f.loops = nil
		e.setPhis(f, t, from, h)
		if e.condKnown(f, t, h) {
			fr.unroll = cp(fr.unroll)
			fr.unroll[h]++
			e.setPhis(fr, s, from, h)
			return e.run(fr, s, h, 0)
		}
	}
	e.loopsSeen++
	// initial values
	var phis []*ssa.Phi
	var inits []*Term
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		inits = append(inits, s.rep(e.val(fr, p.Edges[predIndex(h, from)])))
	}
	act := &LoopAct{Header: h, Fn: fr.fn, Entry: s.clone(), Pos: loopPos(h), start: serials}
	act.Range = e.rangeOf(fr, s, li)
	if l := e.listOf(fr, s, li); l != nil {
		act.list = l
		if len(l.skips) == 0 {
			act.Range = l.m
		}
	}
	w := newWrites()
	var backs []LoopBack
	var steps map[int]int
	var counts map[int]counter
	rec := e.record
	e.record = false
	for round := 0; round < 6; round++ {
		backs = nil
		st := s.clone()
		e.applyHavoc(st, w, act)
		f := fr.clone()
		act.Phis = nil
		for i, p := range phis {
			sym := mkSym("loop:"+phiName(p), p.Type())
			act.Phis = append(act.Phis, LoopPhi{Phi: p, Sym: sym, Init: inits[i]})
			st.loopOf[sym] = &LoopVar{Loop: act, Phi: p, Init: inits[i]}
			f.env[p] = sym
			if d, ok := steps[i]; ok && d != 0 {
				e.induct(st, sym, inits[i], d)
			}
		}
		e.counting(f, st, li, counts, func(i int) *Term { return act.Phis[i].Sym })
		f.loops = append(f.loops, &loopRun{info: li, mode: modeDiscover, act: act, mark: st.mark(), out: &backs})
		base := st.clone()
		e.run(f, st, h, 0)
		grown := w.add(base, backs, act.start)
		// direction of integer phis
		ns := map[int]int{}
		for i, ph := range act.Phis {
			if !isIntT(ph.Phi.Type()) || len(backs) == 0 {
				continue
			}
			d, okUp, okDown := 0, true, true
			for _, bk := range backs {
				lb, lo := split(bk.Next[i])
				if lb != ph.Sym {
					okUp, okDown = false, false
					break
				}
				if lo < 0 {
					okUp = false
				}
				if lo > 0 {
					okDown = false
				}
			}
			if okUp {
				d = 1
			} else if okDown {
				d = -1
			}
			ns[i] = d
		}
		same := steps != nil && len(ns) == len(steps)
		if same {
			for i := range ns {
				same = same && ns[i] == steps[i]
			}
		}
		steps = ns
		nc := e.counters(act, st, backs)
		same = same && len(nc) == len(counts)
		for i, c := range nc {
			same = same && counts[i].steady == c.steady
		}
		counts = nc
		if !grown && same {
			break
		}
	}
	e.record = rec
	if act.list != nil {
		for _, bk := range backs {
			for _, ev := range bk.St.Events(s.mark()) {
				if ev.Kind == EvStore && ev.Addr.op == OIndex && ev.Addr.args[0] == act.list.x {
					act.Range, act.list = nil, nil
					break
				}
			}
			if act.list == nil {
				break
			}
		}
	}
	if l := act.list; l != nil {
		l.own = len(backs) > 0
		for _, bk := range backs {
			for _, u := range bk.St.mapSt(l.m).log {
				l.own = l.own && u.key.op == OKey && u.key.args[0] == l.m
			}
			for _, ev := range bk.St.Events(s.mark()) {
				if (ev.Kind == EvMapSet || ev.Kind == EvMapDel) && mapClass(ev.Addr) == mapClass(l.m) {
					l.own = l.own && ev.Addr == l.m && ev.Key != nil && ev.Key.op == OKey
				}
			}
		}
	}
	// phis that are set to something new, not derived from their old value
	resettable := make([]bool, len(phis))
	for i := range phis {
		ok := len(backs) > 0
		for _, bk := range backs {
			n := bk.Next[i]
			if n == act.Phis[i].Sym {
				continue
			}
			if n.any(func(t *Term) bool { return t == act.Phis[i].Sym }) {
				ok = false
			}
		}
		resettable[i] = ok
	}
	type variant struct {
		st   *State
		vals []*Term
	}
	mk := func(st *State, set func(i int) *Term) variant {
		v := variant{st: st}
		for i := range phis {
			x := set(i)
			if x == nil {
				x = act.Phis[i].Sym
			}
			v.vals = append(v.vals, x)
		}
		return v
	}
	var variants []variant
	mkFresh := func(st *State) []*Term {
		r := make([]*Term, len(phis))
		for i, p := range phis {
			r[i] = mkSym("loop:"+phiName(p), p.Type())
			st.loopOf[r[i]] = &LoopVar{Loop: act, Phi: p, Init: inits[i]}
			if d, ok := steps[i]; ok && d != 0 {
				e.induct(st, r[i], inits[i], d)
			}
		}
		return r
	}
	oldSyms := act.Phis
	{
		st := s.clone()
		e.applyHavoc(st, w, act)
		fs := mkFresh(st)
		act.Phis = nil
		for i, p := range phis {
			act.Phis = append(act.Phis, LoopPhi{Phi: p, Sym: fs[i], Init: inits[i]})
		}
		variants = append(variants, mk(st, func(i int) *Term {
			if resettable[i] {
				return inits[i]
			}
			return fs[i]
		}))
	}
	for _, bk := range backs {
		changed := false
		for i := range phis {
			if resettable[i] && bk.Next[i] != oldSyms[i].Sym && bk.Next[i] != inits[i] {
				changed = true
			}
		}
		if !changed {
			continue
		}
		st := bk.St.clone()
		st.events = s.events
		fs := mkFresh(st)
		variants = append(variants, mk(st, func(i int) *Term {
			if resettable[i] {
				if bk.Next[i] == oldSyms[i].Sym {
					return oldSyms[i].Sym
				}
				return bk.Next[i]
			}
			return fs[i]
		}))
	}
	var outs []Outcome
	for _, v := range variants {
		f := fr.clone()
		for i, p := range phis {
			f.env[p] = v.vals[i]
		}
		v.st.emit(Event{Kind: EvLoop, Name: "loop", Loop: act, Fn: fr.fn, Pos: act.Pos})
		e.counting(f, v.st, li, counts, func(i int) *Term { return v.vals[i] })
		f.loops = append(f.loops, &loopRun{info: li, mode: modeFinal, act: act, mark: v.st.mark(), out: &act.Backs})
		outs = append(outs, e.run(f, v.st, h, 0)...)
	}
	return outs
}

// counters finds the variables of a loop over a map that count its rounds: where the map stays
// as it is, there are no more rounds than entries.
func (e *Engine) counters(act *LoopAct, st *State, backs []LoopBack) map[int]counter {
	if act.Range == nil || act.list != nil {
		return nil
	}
	r := map[int]counter{}
	for i, p := range act.Phis {
		init, ok := p.Init.constInt()
		if !ok || !isIntT(p.Phi.Type()) || len(backs) == 0 {
			continue
		}
		c := counter{init: init, steady: true}
		for _, bk := range backs {
			was, is := act.Entry.mapSt(act.Range), bk.St.mapSt(act.Range)
			lb, lo := split(bk.Next[i])
			if lb != p.Sym || lo < 0 || lo > 1 || was.ver != is.ver || was.known != is.known || len(was.log) != len(is.log) {
				ok = false
				break
			}
			c.steady = c.steady && lo == 1
		}
		if ok {
			r[i] = c
		}
	}
	return r
}

// counting notes the counters of a loop with the iterator it reads.
func (e *Engine) counting(fr *frame, s *State, li *loopInfo, counts map[int]counter, sym func(i int) *Term) {
	if len(counts) == 0 {
		return
	}
	for _, in := range li.header.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		t := e.val(fr, n.Iter)
		it := s.iters[t]
		if it == nil || it.known {
			return
		}
		cp := *it
		cp.counts = nil
		for i := 0; i < len(li.header.Instrs); i++ {
			if c, ok := counts[i]; ok {
				c.sym = sym(i)
				cp.counts = append(cp.counts, c)
			}
		}
		s.iters[t] = &cp
	}
}

func (e *Engine) induct(st *State, sym, init *Term, d int) {
	if d > 0 {
		st.assume(mkCmp(token.LSS, sym, init), false)
	} else {
		st.assume(mkCmp(token.LSS, init, sym), false)
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return h.Parent().Pos()
}

// rangeOf gives the map a loop ranges over.
func (e *Engine) rangeOf(fr *frame, s *State, li *loopInfo) *Term {
	for _, in := range li.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if it, ok := s.iters[e.val(fr, n.Iter)]; ok {
				return it.container
			}
		}
	}
	return nil
}

// listOf gives the collection a loop with an index goes through from its first element to its last.
func (e *Engine) listOf(fr *frame, s *State, li *loopInfo) *listLoop {
	h := li.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !li.blocks[h.Succs[0]] {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	plusOne := func(v ssa.Value, p *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(p) {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 1
	}
	l := &listLoop{}
	if p, ok := cmp.X.(*ssa.Phi); ok {
		l.phi = p
	} else if b, ok := cmp.X.(*ssa.BinOp); ok {
		if l.phi, ok = b.X.(*ssa.Phi); !ok || !plusOne(b, l.phi) {
			return nil
		}
		l.off = 1
	}
	if l.phi == nil || l.phi.Block() != h {
		return nil
	}
	for i, v := range l.phi.Edges {
		if !li.blocks[h.Preds[i]] {
			if c, ok := v.(*ssa.Const); !ok || c.Value == nil || c.Int64() != -l.off {
				return nil
			}
		} else if !plusOne(v, l.phi) {
			return nil
		}
	}
	n, ok := cmp.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := n.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	if in, ok := n.Call.Args[0].(ssa.Instruction); ok && li.blocks[in.Block()] {
		return nil
	}
	if _, ok := under(n.Call.Args[0].Type()).(*types.Slice); !ok {
		return nil
	}
	l.x = s.rep(e.val(fr, n.Call.Args[0]))
	l.collection = s.selection(l.x)
	if l.collection == nil || l.at == nil || len(elementStores(s, func(t *Term) bool { return t == l.x }, true)) > 0 {
		return nil
	}
	return l
}

// element gives the element of a collection of keys or values that a round of a loop reads.
func (e *Engine) element(fr *frame, s *State, p, v *Term) []stepRes {
	for i := len(fr.loops) - 1; i >= 0; i-- {
		l := fr.loops[i].act.list
		if l == nil || p.args[0] != l.x || p.args[1] != s.norm(mkAdd(fr.env[l.phi], l.off, tInt)) {
			continue
		}
		mt, ok := under(typeOfTerm(l.m)).(*types.Map)
		if !ok {
			return nil
		}
		key := intern(Term{op: OKey, args: []*Term{l.m}, typ: mt.Key(), n: newSerial()})
		ms := l.at.mapSt(l.m)
		var r []stepRes
		for _, x := range s.lookupAt(l.m, ms, len(ms.log), key, mt.Elem()) {
			if !x.st.assume(x.has, true) {
				continue
			}
			val := x.st.rep(x.val)
			if len(l.skips) > 0 {
				for _, b := range l.picks {
					ps := x.st.clone()
					if ps.takes(l.m, b, key) {
						r = append(r, l.entry(ps, v, key, ps.rep(val), mt)...)
					}
				}
				continue
			}
			r = append(r, l.entry(x.st, v, key, val, mt)...)
		}
		return r
	}
	return nil
}

// entry: the list's element v is the key, or the value, of an entry of the map.
func (l *listLoop) entry(st *State, v, key, val *Term, mt *types.Map) []stepRes {
	y := key
	if l.vals {
		y = val
	}
	st.eqv[v] = y
	if !l.own {
		return []stepRes{{st, y}}
	}
	// the map still has this entry
	var r []stepRes
	for _, now := range st.lookup(l.m, key, mt.Elem()) {
		if !now.st.assume(now.has, true) {
			continue
		}
		if z := now.st.rep(now.val); z != val && !val.isConst() && z.op == OMGet {
			now.st.eqv[z] = val
		}
		r = append(r, stepRes{now.st, y})
	}
	return r
}

// takes assumes of a key what is known where a round of a loop over the map took an element.
func (s *State) takes(m *Term, b *LoopBack, key *Term) bool {
	var old *Term
	for f, v := range b.St.facts {
		if v && f.op == OMHas && f.args[0] == m && f.args[1].op == OKey {
			old = f.args[1]
		}
	}
	if old == nil {
		return true
	}
	var fs []*Term
	for f := range b.St.facts {
		if mentions(f, old) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, f := range fs {
		if !s.assume(f.with(old, key), b.St.facts[f]) {
			return false
		}
	}
	return true
}

// with is the term with another in the place of one of its parts.
func (t *Term) with(old, new *Term) *Term {
	if t == old {
		return new
	}
	if !mentions(t, old) {
		return t
	}
	x := *t
	x.args = nil
	for _, a := range t.args {
		x.args = append(x.args, a.with(old, new))
	}
	if t.op == OBin && (t.tok == token.EQL || t.tok == token.LSS) {
		return mkCmp(t.tok, x.args[0], x.args[1])
	}
	x.id = 0
	return intern(x)
}

// condKnown tries the instructions of a header: is the way on known?
func (e *Engine) condKnown(f *frame, t *State, h *ssa.BasicBlock) bool {
	rec := e.record
	e.record = false
	defer func() { e.record = rec }()
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := t.rep(e.val(f, x.Cond))
			if _, ok := c.constBool(); ok {
				return true
			}
			v, ok := t.decide(c)
			if ok && !v {
				return e.constCond(t, c)
			}
			if ok {
				return e.constCond(t, c)
			}
			return false
		case *ssa.Next:
			it := t.iters[e.val(f, x.Iter)]
			if it == nil || !it.known {
				return false
			}
			res, _ := e.step(f, t, in)
			if len(res) != 1 {
				return false
			}
			f.env[x] = res[0].val
		case *ssa.BinOp, *ssa.UnOp, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Lookup:
			res, p := e.step(f, t, in)
			if len(res) != 1 || len(p) > 0 {
				return false
			}
			t = res[0].st
			f.env[in.(ssa.Value)] = res[0].val
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
			res, _ := e.step(f, t, in)
			if len(res) != 1 {
				return false
			}
			t = res[0].st
			f.env[x] = res[0].val
		default:
			return false
		}
	}
	return false
}

// constCond: the condition compares constants.
func (e *Engine) constCond(t *State, c *Term) bool {
	for c.op == OUn && c.tok == token.NOT {
		c = t.rep(c.args[0])
	}
	if c.op == OConst {
		return true
	}
	if c.op != OBin {
		return true
	}
	for _, a := range c.args {
		if !t.rep(a).isConst() {
			return false
		}
	}
	return true
}

// writes are the locations a loop body changes.
type writes struct {
	mem    map[*Term]bool
	maps   map[*Term]bool
	class  map[string]bool
	mclass map[string]bool
}

func newWrites() *writes {
	return &writes{mem: map[*Term]bool{}, maps: map[*Term]bool{}, class: map[string]bool{}, mclass: map[string]bool{}}
}

func (w *writes) add(base *State, backs []LoopBack, start int) bool {
	grown := false
	set := func(m map[*Term]bool, t *Term) {
		if !m[t] {
			m[t] = true
			grown = true
		}
	}
	setS := func(m map[string]bool, t string) {
		if !m[t] {
			m[t] = true
			grown = true
		}
	}
	for _, b := range backs {
		for a, v := range b.St.mem {
			if bv, ok := base.mem[a]; ok && bv == v {
				continue
			}
			if fresh(a) {
				if a.root().serial <= start {
					set(w.mem, a)
				}
				continue
			}
			if a.serial <= start {
				set(w.mem, a)
			}
			setS(w.class, class(a))
		}
		for a := range base.mem {
			if _, ok := b.St.mem[a]; !ok && !fresh(a) {
				setS(w.class, class(a))
			}
		}
		for m, ms := range b.St.maps {
			if base.maps[m] == ms {
				continue
			}
			if m.serial <= start {
				set(w.maps, m)
			} else if m.root().op != OMapNew && m.root().op != OAlloc {
				setS(w.mclass, mapClass(m))
			}
		}
	}
	return grown
}

func (e *Engine) applyHavoc(st *State, w *writes, act *LoopAct) {
	for c := range w.class {
		for a := range st.mem {
			if !fresh(a) && class(a) == c {
				delete(st.mem, a)
			}
		}
		st.wrote(c, nil, newSerial())
	}
	sorted := func(m map[*Term]bool) []*Term {
		var r []*Term
		for t := range m {
			r = append(r, t)
		}
		sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
		return r
	}
	for _, a := range sorted(w.mem) {
		t := addrElem(a)
		old := act.Entry.mem[a]
		if old == nil {
			if t == nil {
				continue
			}
			old = act.Entry.load(a, t)
		}
		sym := mkSym("loop:"+a.String(), t)
		st.loopOf[sym] = &LoopVar{Loop: act, Addr: a, Init: old}
		st.mem[a] = sym
	}
	for c := range w.mclass {
		for m := range st.maps {
			if mapClass(m) == c {
				delete(st.maps, m)
			}
		}
		st.wrote(c, nil, newSerial())
	}
	for _, m := range sorted(w.maps) {
		st.maps[m] = &MapSt{ver: newSerial()}
	}
}

// step executes one instruction.
func (e *Engine) step(fr *frame, s *State, in ssa.Instruction) ([]stepRes, []Outcome) {
	one := func(t *Term) ([]stepRes, []Outcome) { return []stepRes{{s, t}}, nil }
	v := func(x ssa.Value) *Term { return s.rep(e.val(fr, x)) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		return one(intern(Term{op: OAlloc, typ: t, n: newSerial(), name: x.Comment}))
	case *ssa.BinOp:
		return one(e.binop(fr, s, x, x.Op, v(x.X), v(x.Y), x.Type(), x.X.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := v(x.X)
			if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, p, mkNil()))) {
				return nil, nil
			}
			e.access(s, fr, in, p, class(p), false)
			val := s.rep(s.load(p, x.Type()))
			if val.op == OInit && val.args[0] == p && p.op == OIndex {
				if r := e.element(fr, s, p, val); r != nil {
					return r, nil
				}
			}
			return one(val)
		case token.NOT:
			return one(mkNot(v(x.X)))
		default:
			a := v(x.X)
			if a.op == OConst && a.val != nil && x.Op != token.ARROW {
				if b, ok := under(x.Type()).(*types.Basic); ok {
					sz := uint(0)
					if b.Info()&types.IsUnsigned != 0 {
						sz = uint(e.p.sizes.Sizeof(b) * 8)
					}
					return one(mkConst(constant.UnaryOp(x.Op, a.val, sz), x.Type()))
				}
			}
			if x.Op == token.ARROW {
				return one(mkSym("recv", x.Type()))
			}
			return one(intern(Term{op: OUn, tok: x.Op, args: []*Term{a}, typ: under(x.Type())}))
		}
	case *ssa.Store:
		p := v(x.Addr)
		if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, p, mkNil()))) {
			return nil, nil
		}
		val := v(x.Val)
		e.access(s, fr, in, p, class(p), true)
		if !fresh(p) && p.op == OField && e.nnClass[class(p)] {
			e.require(s, fr, in, "nil stored where nothing nil is expected", mkNot(mkCmp(token.EQL, val, mkNil())))
		}
		if p.op == OField && e.nnegClass[class(p)] && isIntTerm(val) {
			e.require(s, fr, in, "negative number stored where none is expected", mkNot(mkCmp(token.LSS, s.norm(val), mkConst(constant.MakeInt64(0), x.Val.Type()))))
		}
		s.store(p, val, x.Val.Type())
		if !fresh(p) || p.op != OAlloc {
			s.emit(Event{Kind: EvStore, Addr: p, Val: val, Pos: e.pos(in), Fn: fr.fn})
		}
		return one(nil)
	case *ssa.FieldAddr:
		p := v(x.X)
		if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, p, mkNil()))) {
			return nil, nil
		}
		return one(mkField(p, x.Field))
	case *ssa.Field:
		return one(s.rep(project(v(x.X), x.Field, x.Type())))
	case *ssa.IndexAddr:
		b, i := v(x.X), v(x.Index)
		i = s.norm(i)
		var n *Term
		if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
			n = mkInt(under(pt.Elem()).(*types.Array).Len())
		} else {
			n = s.sliceLen(b)
		}
		if !e.inBounds(s, fr, in, i, n) {
			return nil, nil
		}
		if b.op == OSlice {
			if c, ok := i.constInt(); ok {
				return one(mkIndex(b.args[0], mkInt(c+int64(b.n))))
			}
		}
		return one(mkIndex(b, i))
	case *ssa.Index:
		b, i := v(x.X), s.norm(v(x.Index))
		var n *Term
		if a, ok := under(x.X.Type()).(*types.Array); ok {
			n = mkInt(a.Len())
		} else {
			n = s.sliceLen(b)
		}
		if !e.inBounds(s, fr, in, i, n) {
			return nil, nil
		}
		if c, ok := i.constInt(); ok {
			if b.op == OStruct && int(c) < len(b.args) {
				return one(b.args[c])
			}
			if str, ok := b.constStr(); ok && int(c) < len(str) {
				return one(mkConst(constant.MakeInt64(int64(str[c])), x.Type()))
			}
		}
		return one(intern(Term{op: OCall, name: "elem", args: []*Term{b, i}, typ: x.Type()}))
	case *ssa.Lookup:
		m, k := v(x.X), v(x.Index)
		if _, ok := under(x.X.Type()).(*types.Map); !ok {
			if !e.inBounds(s, fr, in, s.norm(k), s.sliceLen(m)) {
				return nil, nil
			}
			return one(intern(Term{op: OCall, name: "elem", args: []*Term{m, k}, typ: x.Type()}))
		}
		e.access(s, fr, in, m, mapClass(m), false)
		vt := under(x.X.Type()).(*types.Map).Elem()
		var r []stepRes
		for _, l := range s.lookup(m, k, vt) {
			val := l.st.rep(l.val)
			if x.CommaOk {
				r = append(r, stepRes{l.st, mkTuple([]*Term{val, l.has})})
			} else {
				r = append(r, stepRes{l.st, val})
			}
		}
		return r, nil
	case *ssa.MapUpdate:
		m, k, val := v(x.Map), v(x.Key), v(x.Value)
		if !e.require(s, fr, in, "write to a nil map", mkNot(mkCmp(token.EQL, m, mkNil()))) {
			return nil, nil
		}
		e.access(s, fr, in, m, mapClass(m), true)
		if g := mkGet(m, k, 0, x.Value.Type()); m.op != OMapNew && e.structuralPtr(g) {
			e.require(s, fr, in, "nil stored in a map where nothing nil is expected", mkNot(mkCmp(token.EQL, val, mkNil())))
		}
		s.mapWrite(m, mapUpd{key: k, val: val})
		s.emit(Event{Kind: EvMapSet, Addr: m, Key: k, Val: val, Pos: e.pos(in), Fn: fr.fn})
		return one(nil)
	case *ssa.MakeMap:
		return one(intern(Term{op: OMapNew, typ: x.Type(), n: newSerial()}))
	case *ssa.MakeSlice:
		n, c := s.norm(v(x.Len)), s.norm(v(x.Cap))
		if !e.require(s, fr, in, "negative slice length", mkNot(mkCmp(token.LSS, n, mkInt(0)))) {
			return nil, nil
		}
		if n != c && !e.require(s, fr, in, "slice length above its capacity", mkNot(mkCmp(token.LSS, c, n))) {
			return nil, nil
		}
		e.demand(s, fr, in, "slice length without a bound", s.boundedLen(c))
		et := under(x.Type()).(*types.Slice).Elem()
		if ln, ok := n.constInt(); ok && ln < 1<<20 {
			a := intern(Term{op: OAlloc, typ: types.NewArray(et, ln), n: newSerial(), name: "makeslice"})
			return one(intern(Term{op: OSlice, args: []*Term{a}, n: 0, m: int(ln), typ: x.Type()}))
		}
		return one(mkCall("makeslice", newSerial(), x.Type(), n))
	case *ssa.MakeInterface:
		return one(mkIface(x.X.Type(), v(x.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, v(b))
		}
		return one(intern(Term{op: OClosure, fn: x.Fn.(*ssa.Function), args: bs, typ: x.Type()}))
	case *ssa.MakeChan:
		return one(mkSym("chan", x.Type()))
	case *ssa.ChangeType:
		return one(v(x.X))
	case *ssa.ChangeInterface:
		return one(v(x.X))
	case *ssa.Convert:
		return one(e.convert(s, v(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return one(e.convert(s, v(x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		if at, ok := under(x.Type().(*types.Pointer).Elem()).(*types.Array); ok {
			if !e.require(s, fr, in, "slice shorter than the array it is converted to", mkNot(mkCmp(token.LSS, s.sliceLen(v(x.X)), mkInt(at.Len())))) {
				return nil, nil
			}
		}
		return one(mkCall("arrayptr", 0, x.Type(), v(x.X)))
	case *ssa.Slice:
		return e.slice(fr, s, x)
	case *ssa.TypeAssert:
		a := v(x.X)
		ok := mkAssertOK(a, x.AssertedType)
		_, toIface := under(x.AssertedType).(*types.Interface)
		valueOf := func(st *State) *Term {
			if toIface {
				return a
			}
			if r := st.rep0(a); r.op == OIface && types.Identical(r.typ, x.AssertedType) {
				return r.args[0]
			}
			return mkAssert(a, x.AssertedType)
		}
		if !x.CommaOk {
			if !e.require(s, fr, in, "failed type assertion", ok) {
				return nil, nil
			}
			return one(s.rep(valueOf(s)))
		}
		if toIface {
			var r []stepRes
			for _, b := range s.split(ok) {
				if b.v {
					r = append(r, stepRes{b.st, mkTuple([]*Term{a, mkBool(true)})})
				} else {
					r = append(r, stepRes{b.st, mkTuple([]*Term{mkNil(), mkBool(false)})})
				}
			}
			return r, nil
		}
		if d, known := s.decide(ok); known {
			if d {
				return one(mkTuple([]*Term{s.rep(valueOf(s)), mkBool(true)}))
			}
			return one(mkTuple([]*Term{zero(x.AssertedType), mkBool(false)}))
		}
		return one(mkTuple([]*Term{mkAssert(a, x.AssertedType), ok}))
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.op == OTuple {
			return one(s.rep(t.args[x.Index]))
		}
		return one(s.rep(mkExtract(t, x.Index, x.Type())))
	case *ssa.Range:
		c := v(x.X)
		it := mkSym("iter", x.Type())
		st := &iterSt{container: c}
		if _, ok := under(x.X.Type()).(*types.Map); ok {
			if ks, ok := s.sortedKeys(c); ok {
				st.known, st.keys = true, ks
			}
			e.access(s, fr, in, c, mapClass(c), false)
		} else if str, ok := c.constStr(); ok {
			_ = str
		}
		s.iters[it] = st
		return one(it)
	case *ssa.Next:
		return e.next(fr, s, x), nil
	case *ssa.Call:
		return e.doCall(fr, s, x)
	case *ssa.Defer:
		d := deferred{call: x.Common(), in: x}
		cm := x.Common()
		d.fn = v(cm.Value)
		for _, a := range cm.Args {
			d.args = append(d.args, v(a))
		}
		fr.defers = append(fr.defers, d)
		return one(nil)
	case *ssa.Go:
		s.emit(Event{Kind: EvGo, Pos: e.pos(in), Fn: fr.fn})
		e.goroutine(fr, s, in, x)
		return one(nil)
	case *ssa.Send:
		return one(nil)
	case *ssa.Select:
		var ts []*Term
		tt := x.Type().(*types.Tuple)
		for i := 0; i < tt.Len(); i++ {
			ts = append(ts, mkSym("select", tt.At(i).Type()))
		}
		return one(mkTuple(ts))
	}
	e.notes[fmt.Sprintf("instruction %T is not modelled", in)] = true
	if val, ok := in.(ssa.Value); ok {
		return one(mkSym("?", val.Type()))
	}
	return one(nil)
}

// goroutine analyses what a new goroutine does, without any lock held; what it changes is not followed further.
func (e *Engine) goroutine(fr *frame, s *State, in ssa.Instruction, x *ssa.Go) {
	if x.Call.IsInvoke() {
		return
	}
	t := s.clone()
	t.locks = map[*Term]int{}
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, e.val(fr, a))
	}
	e.callTerm(fr, t, in, &x.Call, e.val(fr, x.Call.Value), args)
}

func project(t *Term, i int, typ types.Type) *Term {
	if t.op == OStruct && i < len(t.args) {
		return t.args[i]
	}
	return intern(Term{op: OProj, args: []*Term{t}, n: i, typ: typ})
}

// norm replaces parts of an integer term whose value is known.
func (s *State) norm(t *Term) *Term {
	t = s.rep(t)
	if b, o := split(t); b != nil && o != 0 {
		if r := s.rep(b); r != b {
			return mkAdd(r, o, t.typ)
		}
	}
	return t
}

func (e *Engine) inBounds(s *State, fr *frame, in ssa.Instruction, i, n *Term) bool {
	if c, ok := i.constInt(); !ok || c < 0 {
		if !e.require(s, fr, in, "negative index", mkNot(mkCmp(token.LSS, i, mkInt(0)))) {
			return false
		}
	}
	return e.require(s, fr, in, "index out of range", mkCmp(token.LSS, i, n))
}

// sliceLen gives the length of a slice, string or array value.
func (s *State) sliceLen(t *Term) *Term {
	t = s.rep(t)
	switch t.op {
	case OConst:
		if t.val == nil {
			return mkInt(0)
		}
		if str, ok := t.constStr(); ok {
			return mkInt(int64(len(str)))
		}
	case OSlice:
		return mkInt(int64(t.m - t.n))
	case OConv:
		if lenPreserving(t) {
			return s.sliceLen(t.args[0])
		}
	case OAppend:
		x, y := s.sliceLen(t.args[0]), s.sliceLen(t.args[1])
		if c, ok := y.constInt(); ok {
			return mkAdd(x, c, tInt)
		}
		if c, ok := x.constInt(); ok {
			return mkAdd(y, c, tInt)
		}
	case OSub:
		lo, hi := t.args[1], t.args[2]
		if hi.isNil() {
			hi = s.sliceLen(t.args[0])
		}
		if c, ok := lo.constInt(); ok {
			return s.norm(mkAdd(s.norm(hi), -c, tInt))
		}
	case OCall:
		if t.name == "makeslice" {
			return t.args[0]
		}
		if n, ok := callLen[t.name]; ok {
			return mkInt(n)
		}
		if t.name == "encoding/hex.EncodeToString" {
			if n, ok := s.sliceLen(t.args[0]).constInt(); ok {
				return mkInt(2 * n)
			}
		}
		if t.name == "bytes" {
			return mkAdd(t.args[2], -mustInt(t.args[1]), tInt)
		}
	case OStruct:
		return mkInt(int64(len(t.args)))
	}
	if h := s.eng.p.lenAlias; h != nil {
		if x := h(s, t); x != nil {
			return s.rep(x)
		}
	}
	return s.rep(mkLen(t, 0))
}

func lenPreserving(t *Term) bool {
	a := typeOfTerm(t.args[0])
	return a != nil && (isByteSeq(a) && isByteSeq(t.typ))
}

func isByteSeq(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := under(u.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Engine) binop(fr *frame, s *State, in ssa.Instruction, op token.Token, x, y *Term, t, opT types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isFloat(opT) {
			if x.isConst() && y.isConst() {
				return mkBool(constant.Compare(x.val, op, y.val))
			}
			if s.rep(x) == s.rep(y) && (op == token.EQL || op == token.NEQ) {
				nan := intern(Term{op: OCall, name: "math.IsNaN", args: []*Term{s.rep(x)}, typ: tBool})
				if op == token.NEQ {
					return nan
				}
				return mkNot(nan)
			}
			switch op {
			case token.GTR:
				return mkBin(token.LSS, y, x, tBool)
			case token.GEQ:
				return mkBin(token.LEQ, y, x, tBool)
			case token.NEQ:
				return mkNot(mkBin(token.EQL, x, y, tBool))
			}
			return mkBin(op, x, y, tBool)
		}
		if op == token.EQL || op == token.NEQ {
			c := e.equal(s, x, y, opT)
			if op == token.NEQ {
				return mkNot(c)
			}
			return c
		}
		return mkCmp(op, s.norm(x), s.norm(y))
	}
	if op == token.QUO || op == token.REM {
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			e.require(s, fr, in, "division by zero", mkNot(mkCmp(token.EQL, y, mkConst(constant.MakeInt64(0), t))))
		}
	}
	if op == token.SHL || op == token.SHR {
		if lo, _ := s.shapeBounds(y); lo < 0 {
			e.require(s, fr, in, "negative shift", mkNot(mkCmp(token.LSS, y, mkInt(0))))
		}
	}
	x, y = s.rep(x), s.rep(y)
	if x.isConst() && y.isConst() && x.val != nil && y.val != nil {
		if c := foldBin(op, x, y, t, e.p.sizes); c != nil {
			return c
		}
	}
	if isIntT(t) {
		if c, ok := y.constInt(); ok {
			switch op {
			case token.ADD:
				return mkAdd(x, c, under(t))
			case token.SUB:
				return mkAdd(x, -c, under(t))
			case token.OR, token.XOR, token.SHL, token.SHR:
				if c == 0 {
					return x
				}
			case token.MUL:
				if c == 1 {
					return x
				}
			}
		}
		if c, ok := x.constInt(); ok {
			switch op {
			case token.ADD:
				return mkAdd(y, c, under(t))
			case token.OR, token.XOR:
				if c == 0 {
					return y
				}
			case token.MUL:
				if c == 1 {
					return y
				}
			case token.SHL, token.SHR, token.AND:
				if c == 0 {
					return x
				}
			}
		}
		if c, ok := y.constInt(); ok && op == token.REM && c > 0 {
			// within the divisor nothing changes
			lo, ok1 := s.minDiff(mkConst(constant.MakeInt64(0), t), x)
			hi, ok2 := s.minDiff(x, mkConst(constant.MakeInt64(c), t))
			if ok1 && ok2 && lo >= 0 && hi >= 1 {
				return x
			}
		}
		if op == token.SUB && x == y {
			return mkConst(constant.MakeInt64(0), t)
		}
		if op == token.SUB || op == token.ADD {
			bx, ox := split(x)
			by, oy := split(y)
			if ox != 0 || oy != 0 {
				if op == token.ADD && bx != nil && by != nil {
					return mkAdd(e.binop(fr, s, in, op, bx, by, t, opT), ox+oy, under(t))
				}
				if op == token.SUB && bx != nil && by != nil {
					return mkAdd(e.binop(fr, s, in, op, bx, by, t, opT), ox-oy, under(t))
				}
			}
		}
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if x.id > y.id {
				x, y = y, x
			}
		}
	}
	return mkBin(op, x, y, under(t))
}

func (e *Engine) equal(s *State, x, y *Term, t types.Type) *Term {
	x, y = s.norm(x), s.norm(y)
	if x.op == OIface && y.op == OIface {
		if !types.Identical(x.typ, y.typ) {
			return mkBool(false)
		}
		return e.equal(s, s.rep(x.args[0]), s.rep(y.args[0]), x.typ)
	}
	if v, ok := s.decideEq(x, y); ok {
		return mkBool(v)
	}
	if x.op == OStruct && y.op == OStruct && len(x.args) == len(y.args) && len(x.args) == 1 {
		return e.equal(s, s.rep(x.args[0]), s.rep(y.args[0]), nil)
	}
	return mkCmp(token.EQL, x, y)
}

func foldBin(op token.Token, x, y *Term, t types.Type, sizes types.Sizes) *Term {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil
	}
	defer func() { recover() }()
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(constant.ToInt(y.val))
		if !ok || n > 200 {
			return nil
		}
		return wrapConst(constant.Shift(constant.ToInt(x.val), op, uint(n)), b, sizes)
	case token.QUO:
		if b.Info()&types.IsInteger != 0 {
			if constant.Sign(y.val) == 0 {
				return nil
			}
			return wrapConst(constant.BinaryOp(constant.ToInt(x.val), token.QUO_ASSIGN, constant.ToInt(y.val)), b, sizes)
		}
	case token.REM:
		if constant.Sign(y.val) == 0 {
			return nil
		}
	}
	if op == token.AND_NOT || op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO || op == token.REM ||
		op == token.AND || op == token.OR || op == token.XOR {
		return wrapConst(constant.BinaryOp(x.val, op, y.val), b, sizes)
	}
	return nil
}

// wrapConst reduces a constant to its type.
func wrapConst(c constant.Value, b *types.Basic, sizes types.Sizes) *Term {
	if b.Info()&types.IsInteger == 0 || c.Kind() != constant.Int {
		return mkConst(c, b)
	}
	bits := uint(sizes.Sizeof(b) * 8)
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	c = constant.BinaryOp(c, token.AND, constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1)))
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(c, token.GEQ, half) {
			c = constant.BinaryOp(c, token.SUB, mod)
		}
	}
	return mkConst(c, b)
}

func (e *Engine) convert(s *State, x *Term, from, to types.Type) *Term {
	fu, tu := under(from), under(to)
	if types.Identical(fu, tu) {
		if x.op == OConst && x.val != nil {
			return mkConst(x.val, to)
		}
		return x
	}
	tb, _ := tu.(*types.Basic)
	fb, _ := fu.(*types.Basic)
	if x.op == OConst && x.val != nil && tb != nil {
		switch {
		case tb.Info()&types.IsInteger != 0 && x.val.Kind() == constant.Int:
			return wrapConst(x.val, tb, e.p.sizes)
		case tb.Info()&types.IsInteger != 0 && x.val.Kind() == constant.Float:
			if f, _ := constant.Float64Val(x.val); math.Abs(f) < 1<<62 {
				return wrapConst(constant.MakeInt64(int64(f)), tb, e.p.sizes)
			}
		case tb.Info()&types.IsFloat != 0 && (x.val.Kind() == constant.Int || x.val.Kind() == constant.Float):
			return mkConst(constant.ToFloat(x.val), to)
		case tb.Info()&types.IsString != 0 && x.val.Kind() == constant.String:
			return mkConst(x.val, to)
		}
	}
	if x.isNil() && tb == nil {
		return x
	}
	// string <-> []byte
	if isByteSeq(from) && isByteSeq(to) {
		if tb != nil {
			x = s.content(x)
		}
		if x.op == OConv && lenPreserving(x) {
			inner := x.args[0]
			if it := typeOfTerm(inner); it != nil {
				_, a := under(it).(*types.Basic)
				_, b := tu.(*types.Basic)
				if a && b {
					return inner
				}
			}
		}
		return intern(Term{op: OConv, typ: to, args: []*Term{x}})
	}
	// widening back and forth
	if fb != nil && tb != nil && x.op == OConv && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		inner := x.args[0]
		if it := typeOfTerm(inner); it != nil && isIntT(it) && types.Identical(under(it), tu) {
			if e.p.sizes.Sizeof(fu) >= e.p.sizes.Sizeof(tu) {
				return inner
			}
		}
	}
	return intern(Term{op: OConv, typ: tu, args: []*Term{x}})
}

func (e *Engine) slice(fr *frame, s *State, x *ssa.Slice) ([]stepRes, []Outcome) {
	v := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return s.norm(e.val(fr, y))
	}
	one := func(t *Term) ([]stepRes, []Outcome) { return []stepRes{{s, t}}, nil }
	b := s.rep(e.val(fr, x.X))
	lo, hi, mx := v(x.Low), v(x.High), v(x.Max)
	if lo == nil {
		lo = mkInt(0)
	}
	if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
		if !e.require(s, fr, x, "nil dereference", mkNot(mkCmp(token.EQL, b, mkNil()))) {
			return nil, nil
		}
		n := under(pt.Elem()).(*types.Array).Len()
		if hi == nil {
			hi = mkInt(n)
		}
		l, ok1 := lo.constInt()
		h, ok2 := hi.constInt()
		if ok1 && ok2 && 0 <= l && l <= h && h <= n {
			return one(intern(Term{op: OSlice, args: []*Term{b}, n: int(l), m: int(h), typ: x.Type()}))
		}
		if !e.sliceBounds(s, fr, x, lo, hi, mkInt(n)) {
			return nil, nil
		}
		return one(intern(Term{op: OSub, args: []*Term{b, lo, hi}, typ: x.Type()}))
	}
	n := s.sliceLen(b)
	if hi == nil {
		hi = n
	}
	_ = mx
	// slices may be extended to their capacity; the length is a lower bound of it
	if !e.sliceBounds(s, fr, x, lo, hi, n) {
		return nil, nil
	}
	l, ok1 := lo.constInt()
	h, ok2 := hi.constInt()
	if str, ok := b.constStr(); ok && ok1 && ok2 && l <= h && int(h) <= len(str) && l >= 0 {
		return one(mkConst(constant.MakeString(str[l:h]), x.Type()))
	}
	if b.op == OSlice && ok1 && ok2 && l >= 0 && l <= h {
		return one(intern(Term{op: OSlice, args: b.args, n: b.n + int(l), m: b.n + int(h), typ: b.typ}))
	}
	if c, ok := lo.constInt(); ok && c == 0 && hi == n {
		return one(b)
	}
	hh := hi
	if hi == n {
		hh = mkNil()
	}
	t := x.Type()
	return one(intern(Term{op: OSub, args: []*Term{b, lo, hh}, typ: t}))
}

func (e *Engine) sliceBounds(s *State, fr *frame, in ssa.Instruction, lo, hi, n *Term) bool {
	if c, ok := lo.constInt(); !ok || c < 0 {
		if !e.require(s, fr, in, "slice bounds", mkNot(mkCmp(token.LSS, lo, mkInt(0)))) {
			return false
		}
	}
	if hi != n {
		if !e.require(s, fr, in, "slice bounds", mkNot(mkCmp(token.LSS, n, hi))) {
			return false
		}
	}
	return e.require(s, fr, in, "slice bounds", mkNot(mkCmp(token.LSS, hi, lo)))
}

func (e *Engine) next(fr *frame, s *State, x *ssa.Next) []stepRes {
	itT := e.val(fr, x.Iter)
	it := s.iters[itT]
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if it == nil {
		it = &iterSt{container: mkSym("range", nil)}
		s.iters[itT] = it
	}
	done := func(st *State) stepRes {
		z := func(t types.Type) *Term {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return mkNil()
			}
			return zero(t)
		}
		return stepRes{st, mkTuple([]*Term{mkBool(false), z(kt), z(vt)})}
	}
	if it.known {
		// keys removed meanwhile are skipped
		for p := it.pos; p < len(it.keys); p++ {
			k := it.keys[p]
			res := s.lookup(it.container, k, mapElem(x, vt))
			if len(res) != 1 {
				break
			}
			if has, ok := res[0].has.constBool(); ok && !has {
				continue
			}
			s.iters[itT] = &iterSt{container: it.container, known: true, keys: it.keys, pos: p + 1}
			return []stepRes{{s, mkTuple([]*Term{mkBool(true), k, s.rep(res[0].val)})}}
		}
		return []stepRes{done(s)}
	}
	if x.IsString {
		s2 := s.clone()
		return []stepRes{
			{s, mkTuple([]*Term{mkBool(true), mkSym("runeindex", kt), mkSym("rune", vt)})},
			done(s2),
		}
	}
	mt, _ := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
	var r []stepRes
	s2 := s.clone()
	if ls := s.clone().mapLen(it.container); len(ls) == 1 {
		for _, c := range it.counts {
			n := mkAdd(c.sym, -c.init, tInt)
			s.assume(mkCmp(token.LSS, n, ls[0].n), true)
			if c.steady {
				s2.assume(mkCmp(token.EQL, n, ls[0].n), true)
			} else {
				s2.assume(mkCmp(token.LSS, ls[0].n, n), false)
			}
		}
	}
	key := intern(Term{op: OKey, args: []*Term{it.container}, typ: mt.Key(), n: newSerial()})
	for _, l := range s.lookup(it.container, key, mt.Elem()) {
		if l.st.assume(l.has, true) {
			r = append(r, stepRes{l.st, mkTuple([]*Term{mkBool(true), key, l.st.rep(l.val)})})
		}
	}
	return append(r, done(s2))
}

func mapElem(x *ssa.Next, vt types.Type) types.Type {
	if r, ok := x.Iter.(*ssa.Range); ok {
		if m, ok := under(r.X.Type()).(*types.Map); ok {
			return m.Elem()
		}
	}
	return vt
}

// mapWrite updates a map; other maps that may be the same one are forgotten.
func (s *State) mapWrite(m *Term, u mapUpd) {
	if m.op != OMapNew {
		c := mapClass(m)
		if o := s.mapSt(m); s.maps[m] == nil {
			s.maps[m] = o
		}
		for x := range s.maps {
			if x != m && x.op != OMapNew && mapClass(x) == c && !s.distinctMaps(x, m) {
				delete(s.maps, x)
			}
		}
		s.wrote(c, m, newSerial())
	}
	s.mapUpdate(m, u)
}

func (s *State) distinctMaps(a, b *Term) bool {
	if v, ok := s.decide(mkCmp(token.EQL, a, b)); ok && !v {
		return true
	}
	if a.op == OInit && b.op == OInit && a.args[0].op == OField && b.args[0].op == OField {
		if v, ok := s.decide(mkCmp(token.EQL, a.args[0].args[0], b.args[0].args[0])); ok && !v {
			return true
		}
	}
	if a.op == OMGet && b.op == OMGet && a.args[0] == b.args[0] {
		if v, ok := s.decide(mkCmp(token.EQL, a.args[1], b.args[1])); ok && !v {
			return true
		}
	}
	return false
}

func (e *Engine) doCall(fr *frame, s *State, x *ssa.Call) ([]stepRes, []Outcome) {
	cm := x.Common()
	var fn *Term
	var args []*Term
	if _, ok := cm.Value.(*ssa.Builtin); !ok {
		fn = s.rep(e.val(fr, cm.Value))
	}
	for _, a := range cm.Args {
		args = append(args, s.rep(e.val(fr, a)))
	}
	res := e.callTerm(fr, s, x, cm, fn, args)
	var r []stepRes
	var p []Outcome
	for _, c := range res {
		if c.panicked {
			p = append(p, Outcome{st: c.st, panicked: true})
		} else {
			r = append(r, stepRes{c.st, c.val})
		}
	}
	return r, p
}

type callRes struct {
	st       *State
	val      *Term
	panicked bool
}

func (e *Engine) callTerm(fr *frame, s *State, in ssa.Instruction, cm *ssa.CallCommon, fn *Term, args []*Term) []callRes {
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, s, in, b.Name(), cm, args)
	}
	rt := cm.Signature().Results()
	if cm.IsInvoke() {
		recv := s.rep(fn)
		if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, recv, mkNil()))) {
			return nil
		}
		if recv.op == OIface {
			if m := e.p.prog.LookupMethod(recv.typ, cm.Method.Pkg(), cm.Method.Name()); m != nil {
				return e.callStatic(fr, s, in, m, append([]*Term{recv.args[0]}, args...), nil, rt)
			}
		}
		if dt, ok := s.dyn[recv]; ok {
			if m := e.p.prog.LookupMethod(dt, cm.Method.Pkg(), cm.Method.Name()); m != nil {
				return e.callStatic(fr, s, in, m, append([]*Term{mkAssert(recv, dt)}, args...), nil, rt)
			}
		}
		name := cm.Method.Name()
		if e.invokeHook != nil {
			if r, ok := e.invokeHook(s, recv, name, args, rt); ok {
				return r
			}
		}
		if r, ok := e.invokeModel(fr, s, in, recv, name, args, rt); ok {
			return r
		}
		if len(args) == 0 && rt.Len() == 1 && !isErrorType(rt.At(0).Type()) {
			return []callRes{{st: s, val: s.rep(mkCall("get:"+name, 0, rt.At(0).Type(), recv))}}
		}
		s.emit(Event{Kind: EvCall, Name: "invoke:" + name, Args: append([]*Term{recv}, args...), Pos: e.pos(in), Fn: fr.fn, Pre: s.clone()})
		ev := s.events
		c := e.opaqueCall(s, "invoke:"+name, append([]*Term{recv}, args...), rt)
		ev.ev.Val = c
		return []callRes{{st: s, val: c}}
	}
	switch fn.op {
	case OFunc:
		return e.callStatic(fr, s, in, fn.fn, args, nil, rt)
	case OClosure:
		return e.callStatic(fr, s, in, fn.fn, args, fn.args, rt)
	}
	if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, fn, mkNil()))) {
		return nil
	}
	s.emit(Event{Kind: EvCall, Name: "dynamic", Args: append([]*Term{fn}, args...), Pos: e.pos(in), Fn: fr.fn})
	ev := s.events
	c := e.opaqueCall(s, "dynamic", append([]*Term{fn}, args...), rt)
	ev.ev.Val = c
	return []callRes{{st: s, val: c}}
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// opaqueCall gives a new value for the results of a call nothing is known about.
func (e *Engine) opaqueCall(s *State, name string, args []*Term, rt *types.Tuple) *Term {
	n := newSerial()
	for _, a := range args {
		e.havocArg(s, a, name, n)
	}
	if rt.Len() == 0 {
		return nil
	}
	if rt.Len() == 1 {
		return mkCall(name, n, rt.At(0).Type(), args...)
	}
	return mkCall(name, n, nil, args...)
}

// clobber: a function wrote into a slice.
func (e *Engine) clobber(s *State, a *Term, name string) {
	e.havocArg(s, a, name, newSerial())
	if t := typeOfTerm(a); a.op != OSlice && t != nil {
		if st, ok := under(t).(*types.Slice); ok {
			s.wrote("E:"+typeKey(st.Elem()), nil, newSerial())
		}
	}
}

func (e *Engine) havocArg(s *State, a *Term, name string, n int) {
	arg := a
	if a.op == OIface {
		a = a.args[0]
	}
	if a.op == OSlice {
		a = a.args[0]
	}
	if a.op != OAlloc && a.op != OField && a.op != OIndex {
		return
	}
	if !fresh(a) {
		return
	}
	external := strings.HasPrefix(name, "invoke:") || e.external[name]
	for x := range s.mem {
		hidden := false
		for y := x; y.op == OField || y.op == OIndex || y == a; y = y.args[0] {
			if y == a {
				if !hidden {
					delete(s.mem, x)
				}
				break
			}
			if y.op == OField && external {
				// code of other packages cannot reach what is not exported
				if t := addrElem(y.args[0]); t != nil && inModuleType(t) {
					if st := structOf(t); st != nil && y.n < st.NumFields() && !st.Field(y.n).Exported() {
						hidden = true
					}
				}
			}
		}
	}
	s.mem[a] = mkCall("out:"+name, n, addrElem(a), arg)
}

// content replaces a byte slice of a local array by what it holds now.
func (s *State) content(a *Term) *Term {
	if a.op != OSlice || a.args[0].op != OAlloc {
		return a
	}
	arr := a.args[0]
	at, ok := under(addrElem(arr)).(*types.Array)
	if !ok || !isBasic(at.Elem(), types.Uint8) {
		return a
	}
	args := []*Term{s.load(arr, addrElem(arr)), mkInt(int64(a.n)), mkInt(int64(a.m))}
	if _, whole := s.mem[arr]; whole {
		for i := int64(0); i < at.Len(); i++ {
			if v, ok := s.mem[mkIndex(arr, mkInt(i))]; ok {
				args = append(args, mkInt(i), v)
			}
		}
		for x := range s.mem {
			if x.op == OIndex && x.args[0] == arr && !x.args[1].isConst() {
				args = append(args, x)
			}
		}
	}
	return mkCall("bytes", 0, typeOr(a), args...)
}

func (s *State) contents(args []*Term) []*Term {
	r := make([]*Term, len(args))
	for i, a := range args {
		r[i] = s.content(a)
	}
	return r
}

// pureCall gives the value of a call that depends on its arguments only.
func pureCall(name string, args []*Term, rt *types.Tuple) *Term {
	if rt.Len() == 0 {
		return nil
	}
	if rt.Len() == 1 {
		return mkCall(name, 0, rt.At(0).Type(), args...)
	}
	return mkCall(name, 0, nil, args...)
}

func funcName(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	n := f.String()
	// drop type parameters
	for {
		i := strings.Index(n, "[")
		if i < 0 {
			break
		}
		j := strings.Index(n[i:], "]")
		if j < 0 {
			break
		}
		n = n[:i] + n[i+j+1:]
	}
	return n
}

// followed tells of a library function whose body is read where there is no model of it:
// those on slices and maps, apart from those that give or take iterators.
func followed(fn *ssa.Function, name string) bool {
	n := shortName(name)
	if !strings.HasPrefix(n, "maps.") && !strings.HasPrefix(n, "slices.") || len(fn.Blocks) == 0 {
		return false
	}
	for _, t := range []*types.Tuple{fn.Signature.Params(), fn.Signature.Results()} {
		for v := range t.Variables() {
			if isNamed(v.Type(), "iter", "Seq") || isNamed(v.Type(), "iter", "Seq2") {
				return false
			}
		}
	}
	return true
}

func (e *Engine) callStatic(fr *frame, s *State, in ssa.Instruction, fn *ssa.Function, args, binds []*Term, rt *types.Tuple) []callRes {
	name := funcName(fn)
	if e.callHook != nil {
		if r, ok := e.callHook(s, fn, name, args, rt); ok {
			return r
		}
	}
	if e.opaque[name] {
		s.emit(Event{Kind: EvCall, Name: name, Args: args, Pos: e.pos(in), Fn: fr.fn, Pre: s.clone()})
		ev := s.events
		c := e.opaqueCall(s, name, args, rt)
		ev.ev.Val = c
		return []callRes{{st: s, val: c}}
	}
	follow := followed(fn, name)
	if follow {
		if r, ok := e.model(fr, s, in, fn, name, args, rt); ok {
			return r
		}
	}
	if (inModule(fn) || follow) && len(fn.Blocks) > 0 {
		rec := 0
		for _, f := range fr.stack {
			if f == fn {
				rec++
			}
		}
		if fr.depth < e.maxDepth && rec < 2 {
			outs := e.Call(s, fn, args, binds, fr.depth+1, fr.stack)
			var r []callRes
			for _, o := range outs {
				if o.panicked {
					r = append(r, callRes{st: o.st, panicked: true})
					continue
				}
				var val *Term
				switch len(o.rets) {
				case 0:
				case 1:
					val = o.rets[0]
				default:
					val = mkTuple(o.rets)
				}
				r = append(r, callRes{st: o.st, val: val})
			}
			return r
		}
		e.notes["call of "+name+" in "+fr.fn.String()+" kept opaque (depth)"] = true
		s.emit(Event{Kind: EvCall, Name: name, Args: args, Pos: e.pos(in), Fn: fr.fn})
		return []callRes{{st: s, val: e.opaqueCall(s, name, args, rt)}}
	}
	if r, ok := e.model(fr, s, in, fn, name, args, rt); ok {
		return r
	}
	s.emit(Event{Kind: EvCall, Name: name, Args: args, Pos: e.pos(in), Fn: fr.fn})
	return []callRes{{st: s, val: e.opaqueCall(s, name, args, rt)}}
}

func (e *Engine) builtin(fr *frame, s *State, in ssa.Instruction, name string, cm *ssa.CallCommon, args []*Term) []callRes {
	one := func(t *Term) []callRes { return []callRes{{st: s, val: t}} }
	switch name {
	case "len":
		if _, ok := under(cm.Args[0].Type()).(*types.Map); ok {
			e.access(s, fr, in, args[0], mapClass(args[0]), false)
			var r []callRes
			for _, l := range s.mapLen(args[0]) {
				r = append(r, callRes{st: l.st, val: l.st.rep(l.n)})
			}
			return r
		}
		if p, ok := under(cm.Args[0].Type()).(*types.Pointer); ok {
			return one(mkInt(under(p.Elem()).(*types.Array).Len()))
		}
		return one(s.sliceLen(args[0]))
	case "cap":
		if args[0].op == OSlice {
			if a, ok := under(addrElem(args[0].args[0])).(*types.Array); ok {
				return one(mkInt(a.Len() - int64(args[0].n)))
			}
		}
		return one(intern(Term{op: OCap, args: args, typ: tInt}))
	case "append":
		return one(e.appendTo(s, args[0], args[1], cm.Args[0].Type()))
	case "copy":
		return one(e.copyTo(s, args[0], args[1]))
	case "delete":
		m, k := args[0], args[1]
		if m.isNil() {
			return one(nil)
		}
		e.access(s, fr, in, m, mapClass(m), true)
		s.mapWrite(m, mapUpd{key: k, del: true})
		s.emit(Event{Kind: EvMapDel, Addr: m, Key: k, Pos: e.pos(in), Fn: fr.fn})
		return one(nil)
	case "clear":
		m := args[0]
		if _, ok := under(cm.Args[0].Type()).(*types.Map); ok {
			e.access(s, fr, in, m, mapClass(m), true)
			s.mapWrite(m, mapUpd{key: mkNil(), del: true})
			s.maps[m] = &MapSt{known: true}
			s.emit(Event{Kind: EvMapDel, Addr: m, Key: nil, Pos: e.pos(in), Fn: fr.fn})
		} else {
			e.scramble(fr, s, in, m, "cleared")
		}
		return one(nil)
	case "min", "max":
		x := args[0]
		var cur = []callRes{{st: s, val: x}}
		for _, y := range args[1:] {
			var next []callRes
			for _, c := range cur {
				for _, b := range c.st.split(mkCmp(token.LSS, c.val, y)) {
					if b.v == (name == "min") {
						next = append(next, callRes{st: b.st, val: c.val})
					} else {
						next = append(next, callRes{st: b.st, val: y})
					}
				}
			}
			cur = next
		}
		return cur
	case "print", "println":
		return one(nil)
	case "recover":
		return one(mkNil())
	case "ssa:wrapnilchk":
		if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, args[0], mkNil()))) {
			return nil
		}
		return one(args[0])
	case "real", "imag", "complex", "close":
		return one(nil)
	}
	e.notes["builtin "+name+" is not modelled"] = true
	return one(nil)
}

// elems lists the elements of a slice of known length.
func (s *State) elems(x *Term) ([]*Term, bool) {
	if x.isNil() {
		return nil, true
	}
	if x.op == OSlice {
		var r []*Term
		et := under(addrElem(x.args[0])).(*types.Array).Elem()
		for i := x.n; i < x.m; i++ {
			r = append(r, s.rep(s.load(mkIndex(x.args[0], mkInt(int64(i))), et)))
		}
		return r, true
	}
	return nil, false
}

func (e *Engine) appendTo(s *State, x, y *Term, t types.Type) *Term {
	if y.isNil() || y.op == OSlice && y.m == y.n {
		return x
	}
	xs, ok1 := s.elems(x)
	ys, ok2 := s.elems(y)
	if str, ok := y.constStr(); ok && !ok2 {
		et := under(t).(*types.Slice).Elem()
		for i := 0; i < len(str) && len(str) < 256; i++ {
			ys = append(ys, mkConst(constant.MakeInt64(int64(str[i])), et))
		}
		ok2 = len(str) < 256
	}
	et := under(t).(*types.Slice).Elem()
	if ok1 && ok2 && len(xs)+len(ys) < 1024 {
		all := append(append([]*Term(nil), xs...), ys...)
		return s.newSlice(all, et, t)
	}
	if x.isNil() {
		return intern(Term{op: OAppend, args: []*Term{mkNil(), y}, typ: t})
	}
	return intern(Term{op: OAppend, args: []*Term{x, y}, typ: t})
}

func (s *State) newSlice(all []*Term, et, t types.Type) *Term {
	a := intern(Term{op: OAlloc, typ: types.NewArray(et, int64(len(all))), n: newSerial(), name: "append"})
	for i, v := range all {
		s.store(mkIndex(a, mkInt(int64(i))), v, et)
	}
	return intern(Term{op: OSlice, args: []*Term{a}, n: 0, m: len(all), typ: t})
}

func (e *Engine) copyTo(s *State, dst, src *Term) *Term {
	ds, ok1 := s.elems(dst)
	ss, ok2 := s.elems(src)
	if ok1 && dst.op == OSlice {
		et := under(addrElem(dst.args[0])).(*types.Array).Elem()
		for i := range ds {
			var v *Term
			if ok2 {
				if i >= len(ss) {
					break
				}
				v = ss[i]
			} else {
				v = mkCall("copied", 0, et, src, mkInt(int64(i)))
			}
			s.store(mkIndex(dst.args[0], mkInt(int64(i+dst.n))), v, et)
		}
		if ok2 {
			return mkInt(int64(min(len(ds), len(ss))))
		}
		return mkSym("copy", tInt)
	}
	if !dst.isNil() {
		s.wrote("E:"+typeKey(elemOf(typeOfTerm(dst))), nil, newSerial())
		s.emit(Event{Kind: EvStore, Addr: mkIndex(dst, mkSym("i", tInt)), Val: src})
	}
	return mkSym("copy", tInt)
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	}
	return nil
}

var _ = math.MaxInt

func mustInt(t *Term) int64 {
	n, _ := t.constInt()
	return n
}
