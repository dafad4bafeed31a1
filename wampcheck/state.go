package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvKind is the kind of an effect on a path.
type EvKind uint8

const (
	EvStore EvKind = iota
	EvMapSet
	EvMapDel
	EvCall
	EvLoop
	EvLock
	EvUnlock
	EvOblig  // something that panics unless Cond holds; Bad: not shown to hold
	EvAccess // a read or write of shared memory
	EvGo
	EvBadLock
	EvMapLoad // a read of a map shared by goroutines
)

// Event is one effect on a path, in path order.
type Event struct {
	Kind  EvKind
	Addr  *Term // address, map or lock
	Key   *Term
	Val   *Term
	Name  string
	Args  []*Term
	Bad   bool
	Write bool
	Held  []*Term
	Loop  *LoopAct
	Pos   token.Pos
	Fn    *ssa.Function
	Pre   *State // before a call of unknown code
}

type evList struct {
	prev *evList
	ev   Event
	n    int
}

type mapUpd struct {
	key, val *Term
	del      bool
}

// MapSt is what is known about a map: a base version and the updates since.
type MapSt struct {
	ver   int
	known bool // the base is empty
	log   []mapUpd
}

type iterSt struct {
	container *Term
	known     bool
	keys      []*Term
	pos       int
	ver       int
	counts    []counter
}

// counter is a variable of a loop over a map that grows by at most one in each round, so that
// it stays below the number of entries; a steady one grows in every round.
type counter struct {
	sym    *Term
	init   int64
	steady bool
}

// State is one disjunct of the dataflow value at a program point.
type State struct {
	mem    map[*Term]*Term
	maps   map[*Term]*MapSt
	facts  map[*Term]bool
	eqv    map[*Term]*Term
	dyn    map[*Term]types.Type
	epoch  map[string][]wrote
	locks  map[*Term]int
	lockN  map[*Term]int // how often a lock was taken
	iters  map[*Term]*iterSt
	loopOf map[*Term]*LoopVar // symbols standing for values changed by a loop
	events *evList
	eng    *Engine
}

func newState(e *Engine) *State {
	return &State{mem: map[*Term]*Term{}, maps: map[*Term]*MapSt{}, facts: map[*Term]bool{}, eqv: map[*Term]*Term{},
		dyn: map[*Term]types.Type{}, epoch: map[string][]wrote{}, locks: map[*Term]int{}, lockN: map[*Term]int{}, iters: map[*Term]*iterSt{},
		loopOf: map[*Term]*LoopVar{}, eng: e}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	r := *s
	r.mem, r.maps, r.facts, r.eqv = cp(s.mem), cp(s.maps), cp(s.facts), cp(s.eqv)
	r.lockN = cp(s.lockN)
	r.dyn, r.epoch, r.locks, r.iters, r.loopOf = cp(s.dyn), cp(s.epoch), cp(s.locks), cp(s.iters), cp(s.loopOf)
	return &r
}

func (s *State) emit(ev Event) {
	n := 1
	if s.events != nil {
		n = s.events.n + 1
	}
	s.events = &evList{prev: s.events, ev: ev, n: n}
}

// Events lists the effects in path order, from mark on (0: all).
func (s *State) Events(mark int) []Event {
	var r []Event
	for l := s.events; l != nil && l.n > mark; l = l.prev {
		r = append(r, l.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) mark() int {
	if s.events == nil {
		return 0
	}
	return s.events.n
}

func (s *State) rep(t *Term) *Term {
	for {
		r, ok := s.eqv[t]
		if !ok {
			break
		}
		t = r
	}
	if t.op == OAssert || t.op == OAssertOK || t.op == OMGet {
		if z := s.zeroIfAbsent(t); z != nil {
			return z
		}
	}
	if t.op == OStruct {
		return s.canon(t)
	}
	return t
}

// canon replaces the parts of a term by what they are known to equal.
func (s *State) canon(t *Term) *Term {
	if len(s.eqv) == 0 {
		return t
	}
	switch t.op {
	case OStruct, OMGet, OMHas, OAssert, OAssertOK, OConv, OExtract, OBin, OUn:
	default:
		return s.rep0(t)
	}
	if r := s.rep0(t); r != t {
		return s.canon(r)
	}
	var args []*Term
	for i, a := range t.args {
		b := s.canon(a)
		if b != a && args == nil {
			args = append([]*Term(nil), t.args...)
		}
		if args != nil {
			args[i] = b
		}
	}
	if args == nil {
		return t
	}
	switch {
	case t.op == OBin && (t.tok == token.EQL || t.tok == token.LSS):
		return mkCmp(t.tok, args[0], args[1])
	case t.op == OUn && t.tok == token.NOT:
		return mkNot(args[0])
	}
	if t.op == OBin && args[0].isConst() && args[1].isConst() && args[0].val != nil && args[1].val != nil {
		if c := foldBin(t.tok, args[0], args[1], t.typ, s.eng.p.sizes); c != nil {
			return c
		}
	}
	c := *t
	c.args = args
	return s.rep0(intern(c))
}

// zeroIfAbsent resolves optional values whose absence is known.
func (s *State) zeroIfAbsent(t *Term) *Term {
	switch t.op {
	case OAssert:
		if ok, known := s.decide(mkAssertOK(t.args[0], t.typ)); known {
			if !ok {
				return zero(t.typ)
			}
			if x := s.rep0(t.args[0]); x.op == OIface && types.Identical(x.typ, t.typ) {
				return x.args[0]
			}
		}
	case OMGet:
		if ok, known := s.facts[mkHas(t.args[0], t.args[1], t.n)]; known && !ok && t.typ != nil {
			return zero(t.typ)
		}
	}
	return nil
}

func (s *State) rep0(t *Term) *Term {
	for {
		r, ok := s.eqv[t]
		if !ok {
			return t
		}
		t = r
	}
}

func mkAssertOK(x *Term, t types.Type) *Term {
	return intern(Term{op: OAssertOK, args: []*Term{x}, typ: t})
}
func mkAssert(x *Term, t types.Type) *Term {
	return intern(Term{op: OAssert, args: []*Term{x}, typ: t})
}

var mapAlias func(m *Term) *Term // maps with the same keys

func mkHas(m, k *Term, ver int) *Term {
	if mapAlias != nil && ver == 0 {
		if a := mapAlias(m); a != nil {
			m = a
		}
	}
	return intern(Term{op: OMHas, args: []*Term{m, k}, n: ver, typ: tBool})
}
func mkGet(m, k *Term, ver int, t types.Type) *Term {
	return intern(Term{op: OMGet, args: []*Term{m, k}, n: ver, typ: t})
}

// mkCmp builds a normalised comparison.
func mkCmp(tok token.Token, x, y *Term) *Term {
	switch tok {
	case token.NEQ:
		return mkNot(mkCmp(token.EQL, x, y))
	case token.GTR:
		return mkCmp(token.LSS, y, x)
	case token.LEQ:
		return mkNot(mkCmp(token.LSS, y, x))
	case token.GEQ:
		return mkNot(mkCmp(token.LSS, x, y))
	case token.EQL:
		if x == y {
			return mkBool(true)
		}
		if b, ok := y.constBool(); ok {
			if b {
				return x
			}
			return mkNot(x)
		}
		if b, ok := x.constBool(); ok {
			if b {
				return y
			}
			return mkNot(y)
		}
		if x.isConst() && y.isConst() {
			if x.val == nil || y.val == nil {
				return mkBool(x.val == nil && y.val == nil)
			}
			if isNum(x.val) && isNum(y.val) || x.val.Kind() == y.val.Kind() {
				return mkBool(constant.Compare(x.val, token.EQL, y.val))
			}
			return mkBool(false)
		}
		// constants on the right, otherwise by age
		if x.isConst() && !y.isConst() || x.isConst() == y.isConst() && x.id < y.id {
			x, y = y, x
		}
		// fold x + c == d
		if c, ok := y.constInt(); ok {
			if b, o := split(x); o != 0 && b != nil {
				return mkCmp(token.EQL, b, mkInt(c-o))
			}
		}
		return mkBin(token.EQL, x, y, tBool)
	case token.LSS:
		if x.isConst() && y.isConst() && x.val != nil && y.val != nil && x.val.Kind() == y.val.Kind() {
			return mkBool(constant.Compare(x.val, token.LSS, y.val))
		}
		if beyond(x, y) {
			return mkBool(false)
		}
		return mkBin(token.LSS, x, y, tBool)
	}
	return mkBin(tok, x, y, tBool)
}

// beyond: x < y cannot be, since x is the largest or y the smallest number of the type.
func beyond(x, y *Term) bool {
	if c, ok := x.constInt(); ok && c > 0 {
		if t := typeOfTerm(y); t != nil && isIntT(t) {
			_, hi, ok := typeRange(t)
			return ok && c >= hi && hi < math.MaxInt64 || c == math.MaxInt64 && isSigned(t)
		}
	}
	if c, ok := y.constInt(); ok && c <= 0 {
		if t := typeOfTerm(x); t != nil && isIntT(t) {
			lo, _, ok := typeRange(t)
			return ok && c <= lo
		}
	}
	return false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isNum(v constant.Value) bool { return v.Kind() == constant.Int || v.Kind() == constant.Float }

func isIntT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	if !ok && t != nil {
		b, ok = under(t).(*types.Basic)
	}
	return ok && b.Info()&types.IsInteger != 0
}

// split decomposes an integer term into base and constant offset; base nil means a constant.
func split(t *Term) (*Term, int64) {
	if c, ok := t.constInt(); ok {
		return nil, c
	}
	if t.op == OBin && isIntT(t.typ) {
		if t.tok == token.ADD {
			if c, ok := t.args[1].constInt(); ok {
				b, o := split(t.args[0])
				return b, o + c
			}
			if c, ok := t.args[0].constInt(); ok {
				b, o := split(t.args[1])
				return b, o + c
			}
		}
		if t.tok == token.SUB {
			if c, ok := t.args[1].constInt(); ok && c != math.MinInt64 {
				b, o := split(t.args[0])
				return b, o - c
			}
		}
	}
	return t, 0
}

func mkAdd(x *Term, c int64, typ types.Type) *Term {
	b, o := split(x)
	if b == nil {
		return mkConst(constant.MakeInt64(o+c), typ)
	}
	if o+c == 0 {
		return b
	}
	return mkBin(token.ADD, b, mkConst(constant.MakeInt64(o+c), tInt), typ)
}

// bounds gives an interval for an integer term from its shape alone.
func (s *State) shapeBounds(t *Term) (lo, hi int64) {
	lo, hi = math.MinInt64, math.MaxInt64
	switch t.op {
	case OConst:
		if c, ok := t.constInt(); ok {
			return c, c
		}
	case OLen, OCap:
		return 0, math.MaxInt64
	case OInit:
		if t.args[0].op == OField && s.eng.nnegClass[class(t.args[0])] {
			return 0, math.MaxInt64
		}
	case OBin:
		switch t.tok {
		case token.AND:
			for _, a := range t.args {
				if c, ok := a.constInt(); ok && c >= 0 {
					return 0, c
				}
			}
		case token.REM:
			if c, ok := t.args[1].constInt(); ok && c > 0 {
				l, _ := s.shapeBounds(t.args[0])
				if l >= 0 {
					return 0, c - 1
				}
				return -(c - 1), c - 1
			}
			b, o := split(t.args[0])
			if b != nil {
				if l, _ := s.shapeBounds(b); l >= 0 && o >= 0 {
					return 0, math.MaxInt64
				}
			}
		}
	}
	if r, ok := s.eng.ranges[t]; ok {
		return r[0], r[1]
	}
	if t.op == OCall {
		if r, ok := callRange(t); ok {
			return r[0], r[1]
		}
	}
	if tt := typeOfTerm(t); tt != nil {
		if l, h, ok := typeRange(tt); ok {
			return l, h
		}
	}
	return
}

// intBits is the width of int, uint and uintptr on the analysed platform.
var intBits = 64

// typeRange gives the representable range of an integer type (clamped to int64).
func typeRange(t types.Type) (int64, int64, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		if intBits == 32 && b.Kind() != types.Uint64 {
			return 0, math.MaxUint32, true
		}
		return 0, math.MaxInt64, true // the upper half is beyond the int64 domain
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true
	case types.Int, types.Int64:
		if intBits == 32 && b.Kind() == types.Int {
			return math.MinInt32, math.MaxInt32, true
		}
		return math.MinInt64, math.MaxInt64, true
	}
	return 0, 0, false
}

const inf = math.MaxInt64 / 4

// minDiff returns a lower bound of y-x (difference bounds over the facts), ok if there is one.
func (s *State) minDiff(x, y *Term) (int64, bool) {
	x, y = s.rep(x), s.rep(y)
	bx, ox := split(x)
	by, oy := split(y)
	// longest path from bx to by over edges u -> v meaning v - u >= w
	type edge struct {
		u, v *Term
		w    int64
	}
	var edges []edge
	nodes := map[*Term]bool{nil: true, bx: true, by: true}
	add := func(u, v *Term, ws ...int64) {
		w, ok := sum(ws...)
		if !ok {
			return
		}
		edges = append(edges, edge{u, v, w})
		nodes[u], nodes[v] = true, true
	}
	for a, v := range s.facts {
		if a.op != OBin || (a.tok != token.LSS && a.tok != token.EQL) {
			continue
		}
		l, r := a.args[0], a.args[1]
		if !isIntTerm(l) || !isIntTerm(r) {
			continue
		}
		bl, ol := split(s.rep0(l))
		br, or := split(s.rep0(r))
		switch {
		case a.tok == token.LSS && v: // l < r: r-l >= 1
			add(bl, br, 1, ol, neg(or))
		case a.tok == token.LSS && !v: // l >= r
			add(br, bl, or, neg(ol))
		case a.tok == token.EQL && v:
			add(bl, br, ol, neg(or))
			add(br, bl, or, neg(ol))
		}
	}
	// conversions between integers that keep the value
	var convs []*Term
	for n := range nodes {
		if n != nil && n.op == OConv {
			convs = append(convs, n)
		}
	}
	for len(convs) > 0 {
		n := convs[0]
		convs = convs[1:]
		in := s.rep0(n.args[0])
		from := typeOfTerm(in)
		if from == nil || !isIntT(from) || n.typ == nil || !isIntT(n.typ) {
			continue
		}
		lo, hi, _ := typeRange(n.typ)
		flo, fhi, _ := typeRange(from)
		ok1, ok2 := lo <= flo, fhi <= hi
		if flo == 0 && lo < 0 && fhi == math.MaxInt64 {
			hi, ok2 = math.MaxInt64-1, false // the type holds more than the bound of the domain
		}
		var a, b int64
		if (!ok1 || !ok2) && !s.eng.inConv { // the bounds of the operand are asked for only once deep
			s.eng.inConv = true
			if !ok1 {
				a, ok1 = s.minDiff(mkInt(lo), in)
			}
			if !ok2 {
				b, ok2 = s.minDiff(in, mkInt(hi))
			}
			s.eng.inConv = false
		}
		if ok1 && ok2 && a >= 0 && b >= 0 {
			bi, oi := split(in)
			add(n, bi, -oi)
			add(bi, n, oi)
			if bi != nil && bi.op == OConv {
				convs = append(convs, bi)
			}
		}
	}
	for n := range nodes {
		if n == nil {
			continue
		}
		lo, hi := s.shapeBounds(n)
		if lo > -inf {
			edges = append(edges, edge{nil, n, lo})
		}
		if hi < inf {
			edges = append(edges, edge{n, nil, -hi})
		}
		if n.op == OBin && n.tok == token.REM && len(nodes) < 200 {
			// x % y < y for a positive y
			if by, oy := split(s.rep0(n.args[1])); by != nil {
				if nodes[by] || by.op == OLen {
					edges = append(edges, edge{n, by, 1 - oy})
					nodes[by] = true
					if by.op == OLen {
						edges = append(edges, edge{nil, by, 0})
					}
				}
			}
		}
	}
	dist := map[*Term]int64{bx: 0}
	for i := 0; i < len(nodes)+1; i++ {
		ch := false
		for _, e := range edges {
			if d, ok := dist[e.u]; ok {
				n, in := d+e.w, true
				if d < -inf || d > inf || e.w < -inf || e.w > inf {
					n, in = sum(d, e.w)
				}
				if o, ok2 := dist[e.v]; in && (!ok2 || n > o) {
					dist[e.v] = n
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[by]
	if !ok {
		return 0, false
	}
	return sum(d, oy, neg(ox))
}

// sum adds lower bounds: what is beyond the domain is cut off above, and no bound below.
func sum(xs ...int64) (int64, bool) {
	t := new(big.Int)
	for _, x := range xs {
		t.Add(t, big.NewInt(x))
	}
	switch {
	case t.IsInt64():
		return t.Int64(), true
	case t.Sign() > 0:
		return math.MaxInt64, true
	}
	return 0, false
}

// neg is at most -x.
func neg(x int64) int64 {
	if x == math.MinInt64 {
		return math.MaxInt64
	}
	return -x
}

func isIntTerm(t *Term) bool {
	if t.op == OConst {
		return t.val != nil && t.val.Kind() == constant.Int && (t.typ == nil || isIntT(t.typ))
	}
	tt := typeOfTerm(t)
	return tt != nil && isIntT(tt)
}

// decide evaluates a condition under the facts of the state.
func (s *State) decide(c *Term) (bool, bool) {
	if b, ok := c.constBool(); ok {
		return b, true
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	if c.op == OUn && c.tok == token.NOT {
		v, ok := s.decide(c.args[0])
		return !v, ok
	}
	if r := s.rep0(c); r != c {
		return s.decide(r)
	}
	if h := s.eng.decideHook; h != nil {
		if v, ok := h(s, c); ok {
			return v, ok
		}
	}
	switch c.op {
	case OBin:
		x, y := s.rep(c.args[0]), s.rep(c.args[1])
		switch c.tok {
		case token.EQL:
			return s.decideEq(x, y)
		case token.LSS:
			if x == y {
				return false, true
			}
			n := mkCmp(token.LSS, x, y)
			if b, ok := n.constBool(); ok {
				return b, true
			}
			if v, ok := s.facts[n]; ok {
				return v, true
			}
			if isIntTerm(x) && isIntTerm(y) {
				if d, ok := s.minDiff(x, y); ok && d >= 1 {
					return true, true
				}
				if d, ok := s.minDiff(y, x); ok && d >= 0 {
					return false, true
				}
			}
		}
	case OAssertOK:
		x := s.rep0(c.args[0])
		return s.decideType(x, c.typ)
	case OAssert:
		if b := s.zeroIfAbsent(c); b != nil && b != c {
			return s.decide(b)
		}
	case OMGet:
		if b := s.zeroIfAbsent(c); b != nil {
			return s.decide(b)
		}
	case OMHas:
		// nothing is found in a map that was to be read under an absent key
		if g := c.args[0]; g.op == OMGet {
			if v, ok := s.decide(mkHas(g.args[0], g.args[1], g.n)); ok && !v {
				return false, true
			}
		}
		// nor in an empty one
		if v, ok := s.decide(mkCmp(token.EQL, c.args[0], mkNil())); ok && v {
			return false, true
		}
		if v, ok := s.decide(mkCmp(token.LSS, mkInt(0), mkLen(c.args[0], c.n))); ok && !v {
			return false, true
		}
	}
	return false, false
}

func (s *State) decideType(x *Term, t types.Type) (bool, bool) {
	if x.isNil() {
		return false, true
	}
	if x.op == OMGet {
		if z := s.zeroIfAbsent(x); z != nil && z.isNil() {
			return false, true
		}
	}
	_, iface := under(t).(*types.Interface)
	var dt types.Type
	if x.op == OIface {
		dt = x.typ
	} else if d, ok := s.dyn[x]; ok {
		dt = d
	}
	if dt != nil {
		if iface {
			return types.Implements(dt, under(t).(*types.Interface)), true
		}
		return types.Identical(dt, t), true
	}
	if v, ok := s.facts[mkCmp(token.EQL, x, mkNil())]; ok && v {
		return false, true
	}
	if iface && x.typ != nil {
		// an interface value statically known to have the methods only has to be non-nil
		if st, ok := under(x.typ).(*types.Interface); ok && types.Implements(st, under(t).(*types.Interface)) {
			if v, ok := s.decide(mkCmp(token.EQL, x, mkNil())); ok {
				return !v, true
			}
		}
	}
	return false, false
}

// nonNil reports whether a term is certainly not nil, from its shape.
func nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OGlobal, OField, OIndex, OFunc, OClosure, OIface, OMapNew, OSlice, OStruct:
		return true
	case OConst:
		return t.val != nil
	case OConv:
		return true
	case OCall, OExtract:
		n := t
		if n.op == OExtract {
			n = t.args[0]
		}
		if nonNilCalls[n.name] {
			return true
		}
		return externalNonNil(t, n)
	case OAppend:
		if y := t.args[1]; y.op == OSlice && y.m > y.n {
			return true
		}
		return nonNil(t.args[0])
	case OFilter:
		return false
	}
	return false
}

func (s *State) decideEq(x, y *Term) (bool, bool) {
	if x == y {
		return true, true
	}
	if x.isConst() && y.isConst() {
		if x.val == nil || y.val == nil {
			return x.val == nil && y.val == nil, true
		}
		if x.val.Kind() == y.val.Kind() {
			return constant.Compare(x.val, token.EQL, y.val), true
		}
		return false, true
	}
	if x.isNil() {
		x, y = y, x
	}
	if y.isNil() {
		if nonNil(x) || s.eng.nonNil[x] {
			return false, true
		}
		if x.op == OInit && x.args[0].op == OField && s.eng.nnClass[class(x.args[0])] {
			return false, true
		}
		if _, ok := s.dyn[x]; ok {
			return false, true
		}
		if x.op == OMGet && s.eng.structuralPtr(x) {
			if v, ok := s.decide(mkHas(x.args[0], x.args[1], x.n)); ok {
				return !v, true
			}
		}
	}
	if v, ok := s.facts[mkCmp(token.EQL, x, y)]; ok {
		return v, true
	}
	if y.isNil() && s.hasElements(x) {
		return false, true
	}
	if _, ok := x.constStr(); ok {
		x, y = y, x
	}
	if str, ok := y.constStr(); ok && x.op == OCall {
		if n, known := s.sliceLen(x).constInt(); known && n != int64(len(str)) {
			return false, true
		}
	}
	if x.op == OIface && y.op == OIface {
		if !types.Identical(x.typ, y.typ) {
			return false, true
		}
		return s.decide(mkCmp(token.EQL, x.args[0], y.args[0]))
	}
	if (x.op == OAlloc || x.op == OMapNew || x.op == OGlobal) && (y.op == OAlloc || y.op == OMapNew || y.op == OGlobal) {
		return false, true
	}
	if x.op == OAlloc && y.op == OSym || y.op == OAlloc && x.op == OSym {
		return false, true
	}
	if x.op == OField && y.op == OField {
		if x.args[0] == y.args[0] {
			return false, x.n != y.n
		}
		if v, ok := s.decide(mkCmp(token.EQL, x.args[0], y.args[0])); ok && !v && x.n == y.n {
			return false, true
		}
	}
	if x.op == OStruct && y.op == OStruct && len(x.args) == len(y.args) {
		all := true
		for i := range x.args {
			v, ok := s.decide(mkCmp(token.EQL, x.args[i], y.args[i]))
			if ok && !v {
				return false, true
			}
			all = all && ok
		}
		if all {
			return true, true
		}
		return false, false
	}
	if isIntTerm(x) && isIntTerm(y) {
		d1, ok1 := s.minDiff(x, y)
		if ok1 && d1 >= 1 {
			return false, true
		}
		d2, ok2 := s.minDiff(y, x)
		if ok2 && d2 >= 1 {
			return false, true
		}
		if ok1 && ok2 && d1 == 0 && d2 == 0 {
			return true, true
		}
		if (bitwise(x) || bitwise(y)) && s.bitsDiffer(x, y) {
			return false, true
		}
	}
	return false, false
}

// hasElements: a list or dictionary is known to have a length that is not 0.
func (s *State) hasElements(x *Term) bool {
	switch x.op {
	case OSym, OCall, OExtract, OInit, OAssert, OMGet, OProj:
	default:
		return false
	}
	if t := typeOfTerm(x); t == nil {
		return false
	} else if _, ok := under(t).(*types.Slice); !ok {
		if _, ok := under(t).(*types.Map); !ok {
			return false
		}
	}
	for f, v := range s.facts {
		if f.op != OBin {
			continue
		}
		l, r := f.args[0], f.args[1]
		switch {
		case f.tok == token.EQL && !v && (l.op == OLen && l.args[0] == x && r.isConst() || r.op == OLen && r.args[0] == x && l.isConst()):
			z, _ := l.constInt()
			z2, _ := r.constInt()
			if z == 0 && z2 == 0 {
				return true
			}
		case f.tok == token.LSS && v && r.op == OLen && r.args[0] == x:
			if k, ok := l.constInt(); ok && k >= 0 {
				return true
			}
		case f.tok == token.EQL && v && l.op == OLen && l.args[0] == x:
			if k, ok := r.constInt(); ok && k > 0 {
				return true
			}
		case f.tok == token.EQL && v && r.op == OLen && r.args[0] == x:
			if k, ok := l.constInt(); ok && k > 0 {
				return true
			}
		case f.tok == token.LSS && !v && l.op == OLen && l.args[0] == x:
			if k, ok := r.constInt(); ok && k > 0 {
				return true
			}
		}
	}
	for t, k := range s.eqv {
		if t.op == OLen && t.args[0] == x {
			if n, ok := k.constInt(); ok && n > 0 {
				return true
			}
		}
	}
	return false
}

// assume adds a condition to the facts; false if it contradicts them.
func (s *State) assume(c *Term, v bool) bool {
	if d, ok := s.decide(c); ok {
		return d == v
	}
	if c.op == OUn && c.tok == token.NOT {
		return s.assume(c.args[0], !v)
	}
	if r := s.rep0(c); r != c {
		return s.assume(r, v)
	}
	if c.op == OBin && c.tok == token.EQL {
		// bring the atom to representatives
		x, y := s.rep(c.args[0]), s.rep(c.args[1])
		if n := mkCmp(token.EQL, x, y); n != c {
			if d, ok := s.decide(n); ok && d != v {
				return false
			}
			if n.op == OBin || n.op == OUn {
				s.facts[c] = v
				c = n
				if c.op == OUn {
					return s.assume(c.args[0], !v)
				}
			}
		}
		if v && c.op == OBin {
			x, y := c.args[0], c.args[1]
			if x.op == OStruct && y.op == OStruct && len(x.args) == len(y.args) {
				for i := range x.args {
					if !s.assume(mkCmp(token.EQL, x.args[i], y.args[i]), true) {
						return false
					}
				}
			}
			// no bit is set in either part
			if k, ok := y.constInt(); ok && k == 0 && x.op == OBin && x.tok == token.OR {
				s.facts[c] = v
				for _, z := range x.args {
					if !s.assume(mkCmp(token.EQL, z, mkConst(constant.MakeInt64(0), typeOrInt(z))), true) {
						return false
					}
				}
			}
			// no part of a sum of numbers that are not negative
			if k, ok := y.constInt(); ok && k == 0 && x.op == OBin && x.tok == token.ADD && isIntTerm(x) {
				s.facts[c] = v
				z := func(i int) *Term { return mkConst(constant.MakeInt64(0), typeOrInt(x.args[i])) }
				a, ok1 := s.minDiff(z(0), x.args[0])
				b, ok2 := s.minDiff(z(1), x.args[1])
				if ok1 && ok2 && a >= 0 && b >= 0 {
					for i, w := range x.args {
						if !s.assume(mkCmp(token.EQL, w, z(i)), true) {
							return false
						}
					}
				}
			}
			// y is a constant or the older term
			if !y.isNil() || !nonNil(x) {
				s.eqv[x] = y
			}
		}
		if !v && c.op == OBin && isIntTerm(c.args[0]) && isIntTerm(c.args[1]) {
			s.facts[c] = v
			x, y := c.args[0], c.args[1]
			if d, ok := s.minDiff(x, y); ok && d >= 0 {
				s.facts[mkCmp(token.LSS, x, y)] = true
			} else if d, ok := s.minDiff(y, x); ok && d >= 0 {
				s.facts[mkCmp(token.LSS, y, x)] = true
			}
		}
		// x == nil or not for a structural map value decides presence
		if c.op == OBin && c.args[1].isNil() && c.args[0].op == OMGet && s.eng.structuralPtr(c.args[0]) {
			g := c.args[0]
			s.hasFact(g, !v)
		}
	}
	if c.op == OBin && c.tok == token.LSS {
		x, y := s.rep(c.args[0]), s.rep(c.args[1])
		if n := mkCmp(token.LSS, x, y); n != c {
			if d, ok := n.constBool(); ok {
				return d == v
			}
			s.facts[n] = v
		}
		if !v && isIntTerm(x) && isIntTerm(y) {
			// x >= y together with x <= y means equality
			if d, ok := s.minDiff(x, y); ok && d >= 0 {
				s.facts[c] = v
				return s.assume(mkCmp(token.EQL, x, y), true)
			}
		}
	}
	if !v && c.op == OBin && c.tok == token.EQL && c.args[0].op == OStruct && c.args[1].op == OStruct && len(c.args[0].args) == len(c.args[1].args) {
		// all but one component agree: that one differs
		var open *Term
		n := 0
		for i, a := range c.args[0].args {
			e := mkCmp(token.EQL, a, c.args[1].args[i])
			if d, ok := s.decide(e); !ok || !d {
				open = e
				n++
			}
		}
		if n == 1 && !s.assume(open, false) {
			return false
		}
	}
	if c.op == OMGet && v {
		s.hasFact(c, true)
	}
	if v && c.op == OBin && c.tok == token.EQL && c.args[0].op == OMGet && c.args[1].isConst() && !c.args[1].isNil() && c.args[1] != zero(c.args[0].typ) {
		s.hasFact(c.args[0], true)
	}
	if c.op == OAssertOK && v {
		x := s.rep0(c.args[0])
		if _, ok := under(c.typ).(*types.Interface); !ok {
			s.dyn[x] = c.typ
			if k := s.eng.kinds[x]; k != nil && kindConst(c.typ, k.typ) != nil {
				s.facts[c] = v
				if !s.assume(mkCmp(token.EQL, k, kindConst(c.typ, k.typ)), true) {
					return false
				}
			}
		}
		if x.op == OMGet {
			s.hasFact(x, true)
		}
	}
	if c.op == OAssert && v {
		if !s.assume(mkAssertOK(c.args[0], c.typ), true) {
			return false
		}
	}
	s.facts[c] = v
	if c.op == OMHas && v && c.args[0].op == OMGet {
		s.hasFact(c.args[0], true)
	}
	if h := s.eng.assumeHook; h != nil {
		return h(s, c, v)
	}
	return true
}

// hasFact records that the key of a map read is present, or not. A key found in a map
// that was itself read from a map makes the outer key present too.
func (s *State) hasFact(get *Term, v bool) {
	for {
		s.facts[mkHas(get.args[0], get.args[1], get.n)] = v
		if !v || get.args[0].op != OMGet {
			return
		}
		get = get.args[0]
	}
}

// class names the set of locations that may alias an address.
func class(addr *Term) string {
	switch addr.op {
	case OField:
		return "F:" + typeKey(addrElem(addr.args[0])) + "." + itoa(addr.n)
	case OIndex:
		return "E:" + typeKey(addrElem(addr))
	case OGlobal:
		return "G:" + addr.glob.String()
	case OAlloc:
		return "A"
	}
	return "P:" + typeKey(addrElem(addr))
}

func fresh(addr *Term) bool {
	for {
		switch addr.op {
		case OField:
			addr = addr.args[0]
		case OIndex:
			addr = addr.args[0]
		case OSlice:
			addr = addr.args[0]
		case OAlloc, OMapNew:
			return true
		default:
			return false
		}
	}
}

func inModuleStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	switch x := t.(type) {
	case *types.Named:
		if x.Obj().Pkg() == nil {
			return true
		}
		return isModulePath(x.Obj().Pkg().Path())
	case *types.Alias:
		return inModuleStruct(types.Unalias(x))
	}
	return true
}

// load reads a value of type t at addr.
func (s *State) load(addr *Term, t types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if (inModuleStruct(t) || fresh(addr)) && u.NumFields() > 0 {
			if _, whole := s.mem[addr]; whole {
				break
			}
			fs := make([]*Term, u.NumFields())
			for i := range fs {
				fs[i] = s.load(mkField(addr, i), u.Field(i).Type())
			}
			return intern(Term{op: OStruct, typ: t, args: fs})
		}
	case *types.Array:
		if u.Len() <= 64 && fresh(addr) {
			fs := make([]*Term, u.Len())
			for i := range fs {
				fs[i] = s.load(mkIndex(addr, mkInt(int64(i))), u.Elem())
			}
			return intern(Term{op: OStruct, typ: t, args: fs})
		}
	}
	if fresh(addr) {
		if s.eng.isHavocked(s, addr) == nil {
			return zero(t)
		}
		return s.eng.isHavocked(s, addr)
	}
	return intern(Term{op: OInit, args: []*Term{addr}, n: s.version(class(addr), addr), typ: t})
}

// store writes v at addr.
func (s *State) store(addr, v *Term, t types.Type) {
	if v.op == OStruct {
		switch u := under(t).(type) {
		case *types.Struct:
			if len(v.args) == u.NumFields() && (inModuleStruct(t) || fresh(addr)) {
				for i := range v.args {
					s.store(mkField(addr, i), v.args[i], u.Field(i).Type())
				}
				return
			}
		case *types.Array:
			if int64(len(v.args)) == u.Len() && fresh(addr) {
				for i := range v.args {
					s.store(mkIndex(addr, mkInt(int64(i))), v.args[i], u.Elem())
				}
				return
			}
		}
	} else if u, ok := under(t).(*types.Struct); ok && (inModuleStruct(t) || fresh(addr)) && u.NumFields() > 0 {
		for i := 0; i < u.NumFields(); i++ {
			s.store(mkField(addr, i), intern(Term{op: OProj, args: []*Term{v}, n: i, typ: u.Field(i).Type()}), u.Field(i).Type())
		}
		return
	}
	if !fresh(addr) {
		c := class(addr)
		for a := range s.mem {
			if a != addr && !fresh(a) && class(a) == c && s.mayAlias(a, addr) {
				delete(s.mem, a)
			}
		}
		s.wrote(c, addr, s.latest(c)+1)
	}
	s.mem[addr] = v
}

func (s *State) mayAlias(a, b *Term) bool {
	if a.op != b.op {
		return true
	}
	switch a.op {
	case OField:
		if v, ok := s.decide(mkCmp(token.EQL, a.args[0], b.args[0])); ok && !v {
			return false
		}
	case OGlobal:
		return a == b
	case OIndex:
		if a.args[0] == b.args[0] {
			if v, ok := s.decide(mkCmp(token.EQL, a.args[1], b.args[1])); ok && !v {
				return false
			}
		}
	}
	return true
}

// wrote is a write to a place of a class; nil: to any.
type wrote struct {
	n  int
	at *Term
}

// latest is the version of a class of places.
func (s *State) latest(c string) int {
	if h := s.epoch[c]; len(h) > 0 {
		return h[len(h)-1].n
	}
	return 0
}

// wrote notes that a place of a class was written.
func (s *State) wrote(c string, at *Term, n int) {
	h := s.epoch[c]
	if at == nil || len(h) >= 64 {
		s.epoch[c] = []wrote{{n, nil}}
		return
	}
	s.epoch[c] = append(h[:len(h):len(h)], wrote{n, at})
}

// version tells when a place was last written, as far as known.
func (s *State) version(c string, x *Term) int {
	h := s.epoch[c]
	for i := len(h) - 1; i >= 0; i-- {
		at := h[i].at
		if at == nil || at == x {
			return h[i].n
		}
		if strings.HasPrefix(c, "M:") {
			if !s.distinctMaps(x, at) {
				return h[i].n
			}
		} else if s.mayAlias(x, at) {
			return h[i].n
		}
	}
	return 0
}

func mapClass(m *Term) string {
	if m.op == OInit && m.args[0].op == OField {
		return "M:" + class(m.args[0])
	}
	if m.op == OMGet {
		return "M:" + mapClass(m.args[0]) + "[]"
	}
	if m.op == OAssert {
		return "M:" + mapClass(m.args[0])
	}
	return "M:#" + itoa(m.id)
}

func (s *State) mapSt(m *Term) *MapSt {
	if x, ok := s.maps[m]; ok {
		return x
	}
	if m.op == OMapNew {
		return &MapSt{known: true}
	}
	if (m.op == OField || m.op == OAlloc) && fresh(m) && s.version(mapClass(m), m) == 0 {
		return &MapSt{known: true} // a sync.Map in a new object
	}
	return &MapSt{ver: s.version(mapClass(m), m)}
}

func (s *State) mapUpdate(m *Term, u mapUpd) {
	o := s.mapSt(m)
	n := &MapSt{ver: o.ver, known: o.known}
	for _, x := range o.log {
		if x.key != u.key {
			n.log = append(n.log, x)
		}
	}
	n.log = append(n.log, u)
	s.maps[m] = n
}

type lookupRes struct {
	st  *State
	val *Term
	has *Term
}

// lookup reads m[k]; ambiguous keys split the state.
func (s *State) lookup(m, k *Term, vt types.Type) []lookupRes {
	m = s.rep(m)
	k = s.rep(k)
	if m.isNil() {
		return []lookupRes{{s, zero(vt), mkBool(false)}}
	}
	ms := s.mapSt(m)
	return s.lookupAt(m, ms, len(ms.log), k, vt)
}

func (s *State) lookupAt(m *Term, ms *MapSt, n int, k *Term, vt types.Type) []lookupRes {
	for i := n - 1; i >= 0; i-- {
		u := ms.log[i]
		eq, known := s.decide(mkCmp(token.EQL, u.key, k))
		if known && !eq {
			continue
		}
		hit := func(st *State) lookupRes {
			if u.del {
				return lookupRes{st, zero(vt), mkBool(false)}
			}
			return lookupRes{st, u.val, mkBool(true)}
		}
		if known {
			return []lookupRes{hit(s)}
		}
		s2 := s.clone()
		var r []lookupRes
		if s.assume(mkCmp(token.EQL, u.key, k), true) {
			r = append(r, hit(s))
		}
		if s2.assume(mkCmp(token.EQL, u.key, k), false) {
			r = append(r, s2.lookupAt(m, ms, i, k, vt)...)
		}
		return r
	}
	if ms.known {
		return []lookupRes{{s, zero(vt), mkBool(false)}}
	}
	if h := s.eng.getHook; h != nil {
		if v := h(s, m, k, ms.ver, vt); v != nil {
			return []lookupRes{{s, v, s.simpHas(m, k, ms.ver)}}
		}
	}
	return []lookupRes{{s, mkGet(m, k, ms.ver, vt), s.simpHas(m, k, ms.ver)}}
}

func (s *State) simpHas(m, k *Term, ver int) *Term {
	h := mkHas(m, k, ver)
	if v, ok := s.decide(h); ok {
		return mkBool(v)
	}
	return h
}

// sortedKeys lists the keys of a map whose contents are completely known.
func (s *State) sortedKeys(m *Term) ([]*Term, bool) {
	if m.isNil() {
		return nil, true
	}
	ms := s.mapSt(m)
	if !ms.known {
		return nil, false
	}
	var keys []*Term
	for i, u := range ms.log {
		for j := 0; j < i; j++ {
			if v, ok := s.decide(mkCmp(token.EQL, u.key, ms.log[j].key)); !ok || v {
				return nil, false
			}
		}
		if !u.del {
			keys = append(keys, u.key)
		}
	}
	sort.SliceStable(keys, func(i, j int) bool {
		a, ok1 := keys[i].constInt()
		b, ok2 := keys[j].constInt()
		if ok1 && ok2 {
			return a < b
		}
		return keys[i].String() < keys[j].String()
	})
	return keys, true
}

type lenRes struct {
	st *State
	n  *Term
}

// mapLen gives len(m); unknown presence of updated keys splits the state.
func (s *State) mapLen(m *Term) []lenRes {
	if m.isNil() {
		return []lenRes{{s, mkInt(0)}}
	}
	ms := s.mapSt(m)
	var base *Term
	if ms.known {
		base = mkInt(0)
	} else {
		base = mkLen(m, ms.ver)
	}
	cur := []lenRes{{s, base}}
	for i, u := range ms.log {
		var next []lenRes
		for _, c := range cur {
			for _, r := range c.st.lookupAt(m, ms, i, u.key, tBool) {
				for _, b := range r.st.split(r.has) {
					d := int64(0)
					if b.v && !b.st.assume(mkCmp(token.LSS, mkInt(0), c.n), true) {
						continue
					}
					if b.v && u.del {
						d = -1
					}
					if !b.v && !u.del {
						d = 1
					}
					next = append(next, lenRes{b.st, mkAdd(c.n, d, tInt)})
				}
			}
		}
		cur = next
	}
	// a key that is present makes the length positive
	for _, c := range cur {
		for _, u := range c.st.mapSt(m).log {
			if !u.del {
				c.st.assume(mkCmp(token.LSS, mkInt(0), c.n), true)
				break
			}
		}
		if !ms.known {
			for f, v := range c.st.facts {
				if v && f.op == OMHas && f.args[0] == m && f.n == ms.ver {
					c.st.assume(mkCmp(token.LSS, mkInt(0), base), true)
					break
				}
			}
		}
	}
	return cur
}

type branch struct {
	st *State
	v  bool
}

// split forks on a condition.
func (s *State) split(c *Term) []branch {
	if v, ok := s.decide(c); ok {
		return []branch{{s, v}}
	}
	s2 := s.clone()
	var r []branch
	if s.assume(c, true) {
		r = append(r, branch{s, true})
	}
	if s2.assume(c, false) {
		r = append(r, branch{s2, false})
	}
	return r
}

func (s *State) heldLocks() []*Term {
	var r []*Term
	for l, n := range s.locks {
		if n != 0 {
			r = append(r, l)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// externalNonNil: functions of other modules return no nil pointers or interfaces, apart from errors.
func externalNonNil(t, call *Term) bool {
	if call.op != OCall || t.typ == nil || isErrorType(t.typ) {
		return false
	}
	n := call.name
	if strings.HasPrefix(n, "get:") || strings.HasPrefix(n, "invoke:") || strings.HasPrefix(n, "out:") || strings.HasPrefix(n, "decoded:") ||
		strings.Contains(n, modPath) || n == "dynamic" || n == "elem" || n == "copied" || strings.HasPrefix(n, "err:") || n == "iradix.Old" || n == "LongestPrefix" || n == "Get" {
		return false
	}
	switch under(t.typ).(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

const eqTok = token.EQL
