package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C41 ----

// lockRun is one method analysed for its use of locks.
type lockRun struct {
	fn   *ssa.Function
	tag  string
	e    *Engine
	recv *Term
	outs []Outcome
}

// placeOf names a place by its way from the receiver, so that methods can be compared.
func placeOf(t, recv *Term, n *types.Named) string {
	switch {
	case t == recv:
		return n.Obj().Name()
	case t.op == OField:
		if owner := ptrTo(typeOr(t.args[0])); owner != nil && t.args[0].op != OField {
			return owner.Obj().Name() + "." + fieldName(t)
		}
		return placeOf(t.args[0], recv, n) + "." + fieldName(t)
	case t.op == OGlobal:
		return t.glob.String()
	case t.op == OInit:
		return placeOf(t.args[0], recv, n)
	}
	return fmt.Sprint(t)
}

// exportedMethods of a type of the root package.
func (su *Suite) exportedMethods(n *types.Named) (r []*ssa.Function) {
	ms := su.p.prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		f := su.p.prog.MethodValue(ms.At(i))
		if f != nil && f.Object() != nil && f.Object().Exported() && f.Synthetic == "" && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	return r
}

func (c *Check) lockRuns(n *types.Named) (r []*lockRun) {
	su := c.su
	iface, _ := under(su.p.typ("messages", "Message")).(*types.Interface)
	for _, fn := range su.exportedMethods(n) {
		kinds := []*types.Named{nil}
		for _, q := range fn.Params {
			if it, ok := under(q.Type()).(*types.Interface); ok && iface != nil && types.Identical(it, iface) {
				kinds = su.msgs
			}
		}
		for _, k := range kinds {
			e := su.engine()
			delete(e.opaque, nextIDName)
			for _, m := range su.msgs { // concerns the message alone
				if f := su.method(types.NewPointer(m), "Parse"); f != nil {
					e.opaque[funcName(f)] = true
				}
			}
			s := su.p.start(e)
			x := &lockRun{fn: fn, e: e}
			var args []*Term
			for i, q := range fn.Params {
				a := mkSym(q.Name(), q.Type())
				if i == 0 {
					a = mkSym("object", q.Type())
					x.recv = a
				}
				if _, ok := under(q.Type()).(*types.Interface); ok && k != nil {
					a, _ = su.message(e, k)
					x.tag = strings.ToUpper(k.Obj().Name())
				}
				if _, ok := under(q.Type()).(*types.Pointer); ok || i == 0 {
					e.nonNil[a] = true
				}
				if p := ptrTo(q.Type()); i > 0 && p != nil && su.msgType(p.Obj().Name()) == p {
					_, a = su.message(e, p)
				}
				args = append(args, a)
			}
			x.outs = e.Call(s, fn, args, nil, 0, nil)
			c.count(fn, e, len(x.outs))
			r = append(r, x)
		}
	}
	return r
}

func ruleC41(c *Check) {
	su := c.su
	edges := map[string]map[string]site{}
	for _, name := range []string{"Broker", "Dealer", "SessionScopeIDGenerator"} {
		n, _ := su.p.typ("", name).(*types.Named)
		if !c.must(n != nil, "anchor", site{tag: name}, "type %s does not exist", name) {
			continue
		}
		runs := c.lockRuns(n)
		c.must(len(runs) > 0, "anchor", site{tag: name}, "%s has no exported methods", name)
		c.guardedState(name, n, runs, true)
		for _, r := range runs {
			c.n["method"]++
			at := c.at(r.fn, r.tag)
			for _, ev := range r.e.badLocks {
				at := at
				at.pos = ev.Pos
				c.must(false, "lock use", at, "%s: %s", ev.Name, placeOf(ev.Addr, r.recv, n))
			}
			for i := range r.outs {
				o := &r.outs[i]
				if o.panicked {
					continue
				}
				for _, l := range o.st.heldLocks() {
					c.must(false, "released", c.at(r.fn, r.tag).on(o), "%s is still held when the method returns", placeOf(l, r.recv, n))
				}
				c.n["released"]++
				c.order(o, r, n, edges)
			}
		}
	}
	c.cycles(edges)
	c.sharedRand()
	c.need("method", 30)
	c.need("guarded", 20)
	c.need("released", 100)
}

// order notes which locks are taken while which are held.
func (c *Check) order(o *Outcome, r *lockRun, n *types.Named, edges map[string]map[string]site) {
	held := map[string]int{}
	for _, ev := range o.st.Events(0) {
		if ev.Kind != EvLock && ev.Kind != EvUnlock {
			continue
		}
		p := placeOf(ev.Addr, r.recv, n)
		if ev.Kind == EvUnlock {
			held[p]--
			continue
		}
		for h, k := range held {
			if k > 0 && h != p {
				if edges[h] == nil {
					edges[h] = map[string]site{}
				}
				at := c.at(r.fn, r.tag)
				at.pos = ev.Pos
				edges[h][p] = at
			}
		}
		held[p]++
	}
}

func (c *Check) cycles(edges map[string]map[string]site) {
	for a := range edges {
		for b, at := range edges[a] {
			// a way back
			seen := map[string]bool{}
			var back func(x string) bool
			back = func(x string) bool {
				if x == a {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range edges[x] {
					if back(y) {
						return true
					}
				}
				return false
			}
			c.must(!back(b), "order", at, "%s is taken while %s is held, and elsewhere the other way round", b, a)
		}
	}
}

// guardedState: whatever a method may change is accessed only under one common lock.
func (c *Check) guardedState(name string, n *types.Named, runs []*lockRun, some bool) {
	uses := map[string][]lockUse{}
	written := map[string]bool{}
	for _, r := range runs {
		var ks []string
		for k := range r.e.accs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			a := r.e.accs[k]
			if root := a.Addr.root(); !mentions(a.Addr, r.recv) && (root.op == OSym || root.op == OCall) {
				continue // an argument, which is the caller's, or the result of a call
			}
			if a.Addr.root().op == OGlobal && !a.Write {
				continue
			}
			if isLockType(addrElem(a.Addr)) {
				continue
			}
			uses[a.Class] = append(uses[a.Class], lockUse{r, a})
			written[a.Class] = written[a.Class] || a.Write
		}
	}
	// the lock held most often
	count := map[string]int{}
	for cl, us := range uses {
		if !written[cl] {
			continue
		}
		for _, u := range us {
			for _, h := range u.a.Held {
				count[placeOf(h, u.r.recv, n)]++
				if l := u.ownLock(h); l != "" {
					count[l]++
				}
			}
		}
	}
	best := ""
	var locks []string
	for l := range count {
		locks = append(locks, l)
	}
	sort.Strings(locks)
	for _, l := range locks {
		if best == "" || count[l] > count[best] {
			best = l
		}
	}
	var cls []string
	for cl := range uses {
		if written[cl] {
			cls = append(cls, cl)
		}
	}
	sort.Strings(cls)
	if some && !c.must(len(cls) > 0, "guarded", site{tag: name}, "no shared state of %s was found", name) {
		return
	}
	for _, cl := range cls {
		// a lock that guards this state in the exported methods: the common one, or else the best one
		common := ""
		for _, l := range locks {
			all := true
			for _, u := range uses[cl] {
				all = all && u.holds(l, n)
			}
			if all {
				common = l
				break
			}
		}
		for _, u := range uses[cl] {
			c.n["guarded"]++
			at := c.at(u.r.fn, u.r.tag)
			at.pos = u.a.Pos
			l := common
			if l == "" {
				l = best
			}
			what := "read"
			if u.a.Write {
				what = "written"
			}
			if l == "" {
				c.must(false, "guarded", at, "%s is %s without a lock", placeName(u.a), what)
				continue
			}
			if !u.holds(l, n) {
				c.must(false, "guarded", at, "%s is %s without holding %s (in %s)", placeName(u.a), what, l, fnShort(u.a.Fn))
			}
		}
		// one critical section: what was read in one is not changed in a later one
		for _, u := range uses[cl] {
			for _, w := range uses[cl] {
				if u.r != w.r || !w.a.Write {
					continue
				}
				for _, h := range u.a.Held {
					if t := w.a.Turn[h]; t > u.a.Turn[h] {
						again := false // looked at once more before the change
						for _, r := range uses[cl] {
							again = again || r.r == w.r && !r.a.Write && r.a.Turn[h] == t
						}
						if again {
							continue
						}
						at := c.at(u.r.fn, u.r.tag)
						at.pos = w.a.Pos
						c.must(false, "one section", at, "%s is changed after %s was released and taken again since it was looked at", placeName(w.a), placeOf(h, u.r.recv, n))
					}
				}
			}
		}
	}
}

func placeName(a *Access) string {
	return fmt.Sprint(a.Addr)
}

func isLockType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// lockUse is an access within a method.
type lockUse struct {
	r *lockRun
	a *Access
}

// holds: the lock is held, exclusively if something is written.
func (u lockUse) holds(l string, n *types.Named) bool {
	for _, h := range u.a.Held {
		if (placeOf(h, u.r.recv, n) == l || u.ownLock(h) == l) && (u.a.Excl[h] || !u.a.Write) {
			return true
		}
	}
	return false
}

// ownLock names a lock that lies in the same object as what is accessed, in every such object alike.
func (u lockUse) ownLock(h *Term) string {
	if h.op != OField || h.args[0].op != OField {
		return ""
	}
	for a := u.a.Addr; ; a = a.args[0] {
		if a == h.args[0] {
			return "its own " + typeKey(addrElem(a)) + "." + fieldName(h)
		}
		if len(a.args) == 0 || a.op != OField && a.op != OIndex && a.op != OInit {
			return ""
		}
	}
}

// sharedRand: a random generator of the module's own that is used by several goroutines is used under a lock.
func (c *Check) sharedRand() {
	fn := c.su.p.fn("", "", "GenerateID")
	if !c.must(fn != nil, "anchor", site{tag: "GenerateID"}, "GenerateID does not exist") {
		return
	}
	e := c.su.engine()
	delete(e.opaque, modPath+".GenerateID")
	outs := e.Call(c.su.p.start(e), fn, nil, nil, 0, nil)
	c.count(fn, e, len(outs))
	for i := range outs {
		o := &outs[i]
		held := 0
		for _, ev := range o.st.Events(0) {
			switch ev.Kind {
			case EvLock:
				held++
			case EvUnlock:
				held--
			case EvStore:
				if r := ev.Addr; r != nil && r.root().op == OGlobal {
					at := c.at(fn, "")
					at.pos = ev.Pos
					c.must(held > 0, "generator", at, "package state is changed without a lock")
				}
			case EvCall:
				if strings.HasPrefix(ev.Name, "(*") && strings.Contains(ev.Name, "rand.Rand)") && len(ev.Args) > 0 && ev.Args[0].root().op != OAlloc {
					at := c.at(fn, "")
					at.pos = ev.Pos
					c.must(held > 0, "generator", at, "a random generator shared by all callers is used without a lock")
				}
			}
		}
		c.must(len(o.st.heldLocks()) == 0 || o.panicked, "released", c.at(fn, "").on(o), "a lock is still held when the function returns")
	}
	c.must(len(outs) > 0, "generator", c.at(fn, ""), "no way through GenerateID was found")
}
