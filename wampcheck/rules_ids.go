package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

const lastID = int64(1) << 53

// ---- C39 ----

// counter gives a generator object whose integer fields hold ids in use, or 0.
func (c *Check) counterState(e *Engine, n *types.Named, recv *Term) (*State, []*leaf) {
	s := c.su.p.start(e)
	var ls []*leaf
	ll := c.su.leaves(n, nil, "", 0)
	for i := range ll {
		l := &ll[i]
		if !isIntT(l.typ) {
			if a, ok := atomicInt(l.typ); ok {
				l.typ = a
			} else {
				continue
			}
		}
		v := s.rep(s.load(l.at(recv), l.typ))
		k := func(i int64) *Term { return mkConst(constant.MakeInt64(i), l.typ) }
		s.assume(mkCmp(token.LSS, v, k(0)), false)
		s.assume(mkCmp(token.LSS, k(lastID), v), false)
		ls = append(ls, l)
	}
	return s, ls
}

// atomicInt: an integer of sync/atomic and what it holds.
func atomicInt(t types.Type) (types.Type, bool) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return nil, false
	}
	switch n.Obj().Name() {
	case "Uint64":
		return types.Typ[types.Uint64], true
	case "Int64":
		return types.Typ[types.Int64], true
	}
	return nil, false
}

func ruleC39(c *Check) {
	c.frame(c.su.bk, "ids")
	c.frame(c.su.dl, "ids")
	su := c.su
	n, _ := su.p.typ("", "SessionScopeIDGenerator").(*types.Named)
	if !c.must(n != nil, "anchor", site{tag: "SessionScopeIDGenerator"}, "the type does not exist") {
		return
	}
	fn := su.method(types.NewPointer(n), "NextID")
	if !c.must(fn != nil, "anchor", site{tag: "NextID"}, "NextID does not exist") {
		return
	}
	engine := func() *Engine {
		e := su.engine()
		delete(e.opaque, nextIDName)
		return e
	}
	// the first id of a new generator
	e := engine()
	s := su.p.start(e)
	obj := intern(Term{op: OAlloc, typ: n, n: newSerial(), name: "generator"})
	s.store(obj, zero(n), n)
	outs := e.Call(s, fn, []*Term{obj}, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if !c.must(!o.panicked && len(o.rets) == 1, "first", c.at(fn, "").on(o), "the first call panics") {
			continue
		}
		v, ok := o.st.rep(o.rets[0]).constInt()
		c.must(ok && v == 1, "first", c.at(fn, "").on(o), "the first id of a new generator is %v", o.rets[0])
	}
	c.must(len(outs) > 0, "first", c.at(fn, ""), "no way through NextID was found")

	// any id and the one after it
	e = engine()
	recv := mkSym("generator", types.NewPointer(n))
	e.nonNil[recv] = true
	s, ls := c.counterState(e, n, recv)
	outs = e.Call(s, fn, []*Term{recv}, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if !c.must(!o.panicked && len(o.rets) == 1, "range", c.at(fn, "").on(o), "a call panics") {
			continue
		}
		r := o.st.rep(o.rets[0])
		at := c.at(fn, "").on(o)
		k := func(i int64) *Term { return mkConst(constant.MakeInt64(i), typeOrInt(r)) }
		lo, ok1 := o.st.minDiff(k(1), r)
		hi, ok2 := o.st.minDiff(r, k(lastID))
		c.must(ok1 && lo >= 0, "range", at, "an id below 1 may be returned: %v", r)
		c.must(ok2 && hi >= 0, "range", at, "an id above 2^53 may be returned: %v", r)
		for _, l := range ls {
			v := o.st.rep(o.st.load(l.at(recv), l.typ))
			z := func(i int64) *Term { return mkConst(constant.MakeInt64(i), l.typ) }
			a, ok1 := o.st.minDiff(z(0), v)
			b, ok2 := o.st.minDiff(v, z(lastID))
			c.must(ok1 && ok2 && a >= 0 && b >= 0, "state", at, "the generator is left with %v, which is not an id or 0", v)
		}
		for _, last := range []bool{false, true} {
			st := o.st.under(cond{eq(r, k(lastID)), last})
			if st == nil {
				continue
			}
			if !last {
				st.assume(mkCmp(token.LSS, r, k(lastID)), true)
			}
			next := e.Call(st, fn, []*Term{recv}, nil, 0, nil)
			for j := range next {
				p := &next[j]
				at := c.at(fn, "next").on(p)
				if !c.must(!p.panicked && len(p.rets) == 1, "next", at, "a call panics") {
					continue
				}
				q := p.st.rep(p.st.canon(p.rets[0]))
				if last {
					c.must(p.st.truth(eq(q, k(1))) == yes, "next", at, "the id after 2^53 is %v", q)
				} else {
					a, ok1 := p.st.minDiff(r, q)
					b, ok2 := p.st.minDiff(q, r)
					c.must(ok1 && ok2 && a == 1 && b == -1, "next", at, "the id after %v is %v", r, q)
				}
			}
		}
	}
	c.must(len(outs) > 0, "range", c.at(fn, ""), "no way through NextID was found")

	// concurrent callers
	atomic := 0
	for i := range outs {
		o := &outs[i]
		loaded, writes := map[*Term]int{}, map[*Term]int{}
		held := 0
		for _, ev := range o.st.Events(0) {
			switch {
			case ev.Kind == EvLock:
				held++
			case ev.Kind == EvUnlock:
				held--
			case ev.Kind == EvCall && strings.HasPrefix(ev.Name, "atomic."):
				atomic++
				if held > 0 {
					continue
				}
				at := c.at(fn, "")
				at.pos = ev.Pos
				switch ev.Name {
				case "atomic.Load":
					loaded[ev.Addr]++
				case "atomic.CompareAndSwap":
					writes[ev.Addr]++
				default:
					c.must(writes[ev.Addr] == 0 && loaded[ev.Addr] == 0, "one step", at, "the id is changed in several atomic steps, between which others may get the same id")
					writes[ev.Addr]++
				}
			}
		}
	}
	if atomic == 0 {
		c.guardedState(n.Obj().Name(), n, c.lockRuns(n), true)
	}
	c.need("first", 1)
	c.need("range", 2)
	c.need("next", 2)
}

// ---- C40 ----

// seeded: a value differs between any two starts of the process.
func seeded(st *State, t *Term) bool {
	t = st.rep(t)
	switch t.op {
	case OConv, OIface, OExtract, OProj, OAssert:
		return seeded(st, t.args[0])
	case OInit:
		return t.args[0] != nil && seeded(st, t.args[0])
	case OField, OIndex:
		return seeded(st, t.args[0])
	case OBin:
		x, y := t.args[0], t.args[1]
		k, isC := y.constInt()
		if !isC {
			if kx, ok := x.constInt(); ok && t.tok == token.AND {
				k, isC, x = kx, true, y
			}
		}
		switch t.tok {
		case token.AND, token.REM:
			return isC && (k >= 1<<31-1 || k < 0) && seeded(st, x)
		case token.SHR:
			return isC && k <= 20 && seeded(st, x)
		case token.QUO:
			return isC && k <= 1_000_000 && seeded(st, x)
		case token.MUL:
			return isC && k != 0 && seeded(st, x) || seeded(st, x) && seeded(st, y)
		case token.ADD, token.SUB, token.XOR, token.SHL, token.OR:
			return seeded(st, x) || seeded(st, y)
		}
		return false
	case OCall:
		if strings.Contains(t.name, "crypto/rand") || strings.HasPrefix(t.name, "math/rand/v2.") || strings.Contains(t.name, "maphash") {
			return true
		}
		switch t.name {
		case "(time.Time).UnixNano", "(time.Time).UnixMicro", "(time.Time).UnixMilli", "(time.Time).Nanosecond":
			return len(t.args) > 0 && t.args[0].any(func(x *Term) bool { return x.op == OCall && x.name == "time.Now" })
		case "(time.Time).Unix", "(time.Time).Second", "os.Getpid", "time.Now":
			return false
		}
		for _, a := range t.args {
			if seeded(st, a) {
				return true
			}
		}
	case OAlloc:
		if v, ok := st.mem[t]; ok && v != t {
			return seeded(st, v)
		}
	case OStruct, OTuple:
		for _, a := range t.args {
			if seeded(st, a) {
				return true
			}
		}
	}
	return false
}

func isSeed(name string) bool { return name == "rand.Seed" || name == "math/rand.Seed" }

func ruleC40(c *Check) {
	su := c.su
	fn := su.p.fn("", "", "GenerateID")
	if !c.must(fn != nil, "anchor", site{tag: "GenerateID"}, "GenerateID does not exist") {
		return
	}
	e := su.engine()
	delete(e.opaque, modPath+".GenerateID")
	outs := e.Call(su.p.start(e), fn, nil, nil, 0, nil)
	c.count(fn, e, len(outs))
	global := map[string]bool{}
	for i := range outs {
		o := &outs[i]
		at := c.at(fn, "").on(o)
		if !c.must(!o.panicked && len(o.rets) == 1, "range", at, "GenerateID panics") {
			continue
		}
		r := o.st.rep(o.rets[0])
		k := func(i int64) *Term { return mkConst(constant.MakeInt64(i), typeOrInt(r)) }
		lo, ok1 := o.st.minDiff(k(1), r)
		hi, ok2 := o.st.minDiff(r, k(lastID))
		c.must(ok1 && lo >= 0, "range", at, "an id below 1 may be generated: %v", r)
		c.must(ok2 && hi >= 0, "range", at, "an id above 2^53 may be generated: %v", r)
		drawn := false
		for _, ev := range o.st.Events(0) {
			if ev.Kind != EvCall {
				continue
			}
			at := c.at(fn, "")
			at.pos = ev.Pos
			switch {
			case isSeed(ev.Name):
				c.must(len(ev.Args) == 1 && seeded(o.st, ev.Args[0]), "seed", at, "GenerateID seeds the generator again, with %v", ev.Args)
			case strings.HasPrefix(ev.Name, "crypto/rand.") || strings.HasPrefix(ev.Name, "math/rand/v2."):
				drawn = true
			case strings.HasPrefix(ev.Name, "rand.") || strings.HasPrefix(ev.Name, "math/rand."):
				drawn = true
				global[ev.Name[:strings.LastIndex(ev.Name, ".")]] = true
			case strings.HasPrefix(ev.Name, "(*") && strings.Contains(ev.Name, "rand.Rand)"):
				drawn = true
				v := ev.Args[0]
				if v.op == OInit && v.args[0].op == OGlobal {
					v = o.st.rep(o.st.load(v.args[0], v.typ))
				}
				c.must(seeded(o.st, v), "seed", at, "the ids come from a generator that is not seeded differently on every start: %v", v)
				c.n["source"]++
			}
		}
		c.must(drawn || seeded(o.st, r), "random", at, "the id does not come from a random source: %v", r)
		if !drawn {
			c.n["source"]++
		}
	}
	c.must(len(outs) > 0, "range", c.at(fn, ""), "no way through GenerateID was found")
	// package level generators: seeded when the package is initialised
	for g := range global {
		c.n["source"]++
		c.globalSeed(g, c.at(fn, g))
	}
	c.need("range", 2)
}

// globalSeed decides how the package level generator of a random package is seeded.
func (c *Check) globalSeed(pkg string, at site) {
	seedName := pkg + ".Seed"
	calls := 0
	for _, fn := range c.su.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(interface{ String() string }); ok && strings.Contains(shortName(call.String()), seedName+"(") {
					if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
						continue
					}
					calls++
				}
			}
		}
	}
	sure, bad := true, ""
	any := false
	for _, st := range c.su.p.inits[""] {
		n := 0
		for _, ev := range st.Events(0) {
			if ev.Kind == EvCall && ev.Name == seedName {
				n++
				any = true
				if len(ev.Args) != 1 || !seeded(st, ev.Args[0]) {
					bad = describeTerm(ev.Args)
				}
			}
		}
		sure = sure && n > 0
	}
	if bad != "" {
		c.must(false, "seed", at, "package %s is seeded with %s, which need not differ between starts", pkg, bad)
		return
	}
	if pkg == "math/rand" && !any {
		// seeded randomly by the runtime as long as nobody seeds it
		c.must(calls == 0, "seed", at, "package math/rand is seeded outside of initialisation")
		return
	}
	c.must(sure && any, "seed", at, "package %s is not seeded on every start, so the ids are the same in every run", pkg)
}

func describeTerm(ts []*Term) string {
	var r []string
	for _, t := range ts {
		r = append(r, t.String())
	}
	return strings.Join(r, ", ")
}
