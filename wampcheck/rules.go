package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is a construct that breaks a property.
type Finding struct {
	Rule string
	Fn   string
	Pos  string
	Msg  string
	Path string
}

func (f Finding) key() string { return f.Rule + "@" + f.Fn }

// Check collects what the rules of one property find.
type Check struct {
	su    *Suite
	prop  string
	n     map[string]int // obligations by rule
	least map[string]int // fewer than this many obligations mean that the rule saw nothing
	finds []Finding
	seen  map[string]bool
	runs  map[string]*Run
	fns   map[string]bool // functions analysed outside of the runs
	paths int

	samples []string // obligations written out
	configs []string // further configurations analysed

	signer *Term // the client authenticator being analysed
}

func newCheck(su *Suite, prop string) *Check {
	return &Check{su: su, prop: prop, n: map[string]int{}, least: map[string]int{}, seen: map[string]bool{}, runs: map[string]*Run{}, fns: map[string]bool{}}
}

// site is where an obligation arises.
type site struct {
	fn  *ssa.Function
	pos token.Pos
	o   *Outcome
	tag string // distinguishes cases of one function, part of the finding's identity
}

func (c *Check) at(fn *ssa.Function, tag string) site {
	s := site{fn: fn, tag: tag}
	if fn != nil {
		s.pos = fn.Pos()
	}
	return s
}

func (s site) on(o *Outcome) site {
	s.o = o
	// the last thing that happened on the path locates it best
	if o != nil {
		for l := o.st.events; l != nil; l = l.prev {
			if l.ev.Pos.IsValid() && l.ev.Kind != EvUnlock {
				s.pos = l.ev.Pos
				break
			}
		}
	}
	return s
}

// must records an obligation; a false condition is a finding.
func (c *Check) must(cond bool, rule string, s site, format string, args ...any) bool {
	c.n[rule]++
	if cond {
		if c.n[rule] == 1 && len(c.samples) < 12 && s.fn != nil {
			c.samples = append(c.samples, fmt.Sprintf("%s %s [%s]: holds", c.su.p.posStr(s.pos), fnShort(s.fn), rule))
		}
		return true
	}
	f := Finding{Rule: rule, Msg: fmt.Sprintf(format, args...), Pos: c.su.p.posStr(s.pos)}
	if s.fn != nil {
		f.Fn = fnShort(s.fn)
	}
	if s.tag != "" {
		f.Fn += "[" + s.tag + "]"
	}
	if s.o != nil {
		f.Path = describe(c.su.p, *s.o)
	}
	k := f.key() + f.Msg
	if !c.seen[k] {
		c.seen[k] = true
		c.finds = append(c.finds, f)
	}
	return false
}

func fnShort(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modPath+"/", ""), modPath+".", "")
}

// need says that a rule must have at least n obligations.
func (c *Check) need(rule string, n int) {
	if n > c.least[rule] {
		c.least[rule] = n
	}
}

// run analyses an entry point and counts it.
func (c *Check) run(pkg, recv, name, msg string) *Run {
	r := c.su.entry(pkg, recv, name, msg)
	if r.fn == nil || r.e == nil {
		c.must(false, "anchor", site{tag: r.Name}, "the entry point %s does not exist", r.Name)
		return r
	}
	if c.runs[r.Name] == nil {
		c.runs[r.Name] = r
		c.paths += len(r.outs)
		var notes []string
		for n := range r.e.notes {
			if strings.Contains(n, "budget") {
				notes = append(notes, n)
			}
		}
		sort.Strings(notes)
		c.must(len(notes) == 0, "complete", c.at(r.fn, msg), "the analysis is incomplete: %s", strings.Join(notes, "; "))
		c.must(len(r.outs) > 0, "complete", c.at(r.fn, msg), "no way through the function was found")
	}
	return r
}

// conclude adds the findings about rules that saw too little.
func (c *Check) conclude() {
	var rules []string
	for r := range c.least {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		if c.n[r] < c.least[r] {
			c.finds = append(c.finds, Finding{Rule: r, Fn: "-", Pos: "-", Msg: fmt.Sprintf("the rule met %d instances, at least %d are expected: what it is about was not recognised", c.n[r], c.least[r])})
		}
	}
}

type cond struct {
	t *Term
	v bool
}

func is(t *Term) cond  { return cond{t, true} }
func not(t *Term) cond { return cond{t, false} }

// under gives the state with further assumptions, nil if they contradict it.
func (s *State) under(cs ...cond) *State {
	r := s.clone()
	for _, c := range cs {
		if !r.assume(c.t, c.v) {
			return nil
		}
	}
	// later facts may decide earlier assumptions
	for f, v := range r.facts {
		if f.op != OMHas {
			continue
		}
		if k := r.rep(f.args[1]); k != f.args[1] {
			if d, ok := r.decide(mkHas(f.args[0], k, f.n)); ok && d != v {
				return nil
			}
		}
	}
	for _, c := range cs {
		if v, ok := r.decide(c.t); ok && v != c.v {
			return nil
		}
	}
	return r
}

func eq(x, y *Term) *Term { return mkCmp(token.EQL, x, y) }

// same: the two terms are equal in the state.
func (s *State) same(x, y *Term) bool {
	if x == nil || y == nil {
		return false
	}
	x, y = s.rep(x), s.rep(y)
	if x == y {
		return true
	}
	if x.op == OIface && y.op != OIface && types.Identical(x.typ, typeOr(y)) {
		return s.same(x.args[0], y)
	}
	v, ok := s.decide(eq(x, y))
	return ok && v
}

// sameDict: the same, or an empty map in place of none.
func (s *State) sameDict(x, y *Term) bool {
	if s.same(x, y) {
		return true
	}
	if x == nil || y == nil {
		return false
	}
	if v, ok := s.isNilTerm(y); ok && v {
		ks, ok := s.sortedKeys(s.rep(x))
		return ok && len(ks) == 0
	}
	return false
}

func typeOr(t *Term) types.Type {
	if tt := typeOfTerm(t); tt != nil {
		return tt
	}
	return types.Typ[types.Invalid]
}

func unbox(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

// presence of a key at the end of a path
type tri int

const (
	maybe tri = iota
	yes
	no
)

func (x tri) String() string { return []string{"undecided", "yes", "no"}[x] }

func (s *State) truth(c *Term) tri {
	if v, ok := s.decide(c); ok {
		if v {
			return yes
		}
		return no
	}
	return maybe
}

// hasKey tells whether a map holds a key now, and with which value.
func (s *State) hasKey(m, k *Term, vt types.Type) (tri, *Term) {
	t := s.clone()
	res := maybe
	var val *Term
	for i, l := range t.lookup(m, k, vt) {
		r := l.st.truth(l.has)
		v := l.st.rep(l.val)
		if i == 0 {
			res, val = r, v
			continue
		}
		if r != res {
			res = maybe
		}
		if v != val {
			val = nil
		}
	}
	return res, val
}

// nothing: a value that says nothing next to an error, that is nil, empty, or what came with the same error.
func (s *State) nothing(x *Term) bool {
	x = unbox(s.rep(x))
	if v, ok := s.isNilTerm(x); ok && v {
		return true
	}
	switch t := under(typeOr(x)).(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return s.truth(eq(x, mkStr(""))) == yes || s.failedWith(x)
		}
	case *types.Slice:
		if l, ok := s.norm(s.sliceLen(x)).constInt(); ok && l == 0 {
			return true
		}
	}
	return s.failedWith(x)
}

// failedWith: x is a result of a call that failed.
func (s *State) failedWith(x *Term) bool {
	x = s.rep(stripConv(x))
	if x.op != OExtract {
		return false
	}
	for f, v := range s.facts {
		if f.op != OBin || f.tok != token.EQL || v || !f.args[1].isNil() {
			continue
		}
		if y := f.args[0]; y.op == OExtract && y.args[0] == x.args[0] && types.Identical(typeOr(y), errType()) {
			return true
		}
	}
	return false
}

// field loads a field by index from an object.
func (s *State) field(ptr *Term, i int) *Term {
	t := structOf(addrElem(ptr))
	if t == nil || i < 0 || i >= t.NumFields() {
		return nil
	}
	return s.rep(s.load(mkField(ptr, i), t.Field(i).Type()))
}

// leafVal gives the present value of a part of a router.
func (s *State) leafVal(l *leaf, recv *Term) *Term { return s.rep(s.load(l.at(recv), l.typ)) }

// effects lists the shared locations and maps a path changed.
func effects(st *State, pre *State) []string {
	var r []string
	for a, v := range st.mem {
		if fresh(a) || a.op == OGlobal {
			continue
		}
		if v2, ok := pre.mem[a]; ok && v2 == v {
			continue
		}
		if v.op == OInit && v.args[0] == a {
			continue
		}
		if a.root().op == OCall { // data of a local object of another module
			continue
		}
		r = append(r, a.String())
	}
	for m, ms := range st.maps {
		if m.op == OMapNew || m.op == OAlloc || fresh(m) {
			continue
		}
		if p, ok := pre.maps[m]; ok && p == ms {
			continue
		}
		if len(ms.log) > 0 || ms.known {
			r = append(r, m.String())
		}
	}
	lists := func(t *Term) bool {
		return t.op == OInit && !fresh(t.args[0]) && t.args[0].op == OField && t.args[0].root().op != OCall
	}
	for _, ev := range elementStores(st, lists, false) {
		r = append(r, ev.Addr.String())
	}
	sort.Strings(r)
	return r
}

// callsTo counts the calls of an opaque function on a path.
func callsTo(st *State, name string) int {
	n := 0
	for _, e := range st.Events(0) {
		if e.Kind == EvCall && e.Name == name {
			n++
		}
	}
	return n
}

// collected: x lists every key of a map (which equals its value) once; why not otherwise.
func (su *Suite) collected(st *State, x *Term) (*Term, string) {
	if x == nil {
		return nil, "there is none"
	}
	x = st.rep(x)
	m, why := su.collected1(st, x)
	if m != nil {
		for _, ev := range elementStores(st, func(t *Term) bool { return t == x }, true) {
			if ev.Addr.op == OIndex && x.op == OCall && x.name == "makeslice" && isElemOf(ev.Val, m) {
				continue
			}
			return nil, "elements of the list are replaced (" + su.p.posStr(ev.Pos) + ")"
		}
	}
	return m, why
}

// changes: a round of the loop changes something that is not local.
func (l *LoopAct) changes() bool {
	for _, b := range l.Backs {
		for _, ev := range b.St.Events(b.Mark) {
			switch ev.Kind {
			case EvMapSet, EvMapDel, EvStore:
				if !fresh(ev.Addr) && ev.Addr.root().op != OMapNew && ev.Addr.root().op != OCall {
					return true
				}
			case EvCall:
				return true
			}
		}
	}
	return false
}

// rounds are the ways through a round of a loop over a map; what a list of some of its entries left out got none.
func (l *LoopAct) rounds() []*LoopBack {
	var r []*LoopBack
	for i := range l.Backs {
		r = append(r, &l.Backs[i])
	}
	if l.list != nil {
		r = append(r, l.list.skips...)
	}
	return r
}

// isElemOf: x was read as a key, or the value of a key, that a loop over the map gave.
func isElemOf(x, m *Term) bool {
	return x != nil && (x.op == OKey && x.args[0] == m || x.op == OMGet && x.args[0] == m && x.args[1].op == OKey)
}

func (su *Suite) collected1(st *State, x *Term) (*Term, string) {
	l, why := st.collection(x)
	if l == nil {
		return nil, why
	}
	return l.m, why
}

// dictionary lists the entries of a map that is completely known; nil keys mean it is not.
func (s *State) dictionary(m *Term) (map[string]*Term, bool) {
	m = s.rep(unbox(m))
	r := map[string]*Term{}
	ks, ok := s.sortedKeys(m)
	if !ok {
		return nil, false
	}
	for _, k := range ks {
		n, isStr := k.constStr()
		if !isStr {
			return nil, false
		}
		_, v := s.hasKey(m, k, types.NewInterfaceType(nil, nil))
		r[n] = v
	}
	return r, true
}

// option is the value an option dictionary holds under a key if it has the given type.
func option(opts *Term, key string, t types.Type) *Term {
	return mkAssert(mkGet(opts, mkStr(key), 0, types.NewInterfaceType(nil, nil)), t)
}
