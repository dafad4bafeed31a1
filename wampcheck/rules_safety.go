package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// discharged: every condition that the analysed code panics without was shown.
func (c *Check) discharged(e *Engine, fn *ssa.Function, tag string) {
	var ks []string
	for k := range e.obligs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := e.obligs[k]
		at := c.at(o.Fn, "")
		if o.Pos.IsValid() {
			at.pos = o.Pos
		}
		kind := o.Kind
		via := ""
		if fn != nil && fn != o.Fn {
			via = " (reached from " + fnShort(fn) + tag + ")"
		}
		if strings.Contains(kind, "stored") {
			// what the analysis assumes about stored values elsewhere
			c.must(o.Bad == 0, kind, at, "%s%s", o.Why, via)
			continue
		}
		c.must(o.Bad == 0, kind, at, "%s: %s%s", o.Where, o.Why, via)
	}
}

// unpanicked analyses a function for arbitrary arguments.
func (c *Check) unpanicked(e *Engine, fn *ssa.Function, recv *Term) {
	s := c.su.p.start(e)
	var args []*Term
	for i, q := range fn.Params {
		a := mkSym(q.Name(), q.Type())
		if i == 0 && recv != nil {
			a = recv
		} else if _, ok := under(q.Type()).(*types.Pointer); ok {
			e.nonNil[a] = true
		}
		// a message given by value is a well-formed one
		if n, ok := q.Type().(*types.Named); ok && c.su.msgType(n.Obj().Name()) == n {
			st := structOf(n)
			for j := range st.NumFields() {
				e.nonNil[intern(Term{op: OProj, args: []*Term{a}, n: j, typ: st.Field(j).Type()})] = true
			}
		}
		args = append(args, a)
	}
	outs := e.Call(s, fn, args, nil, 0, nil)
	c.count(fn, e, len(outs))
	c.n["entry"]++
	some := false
	for _, o := range outs {
		some = some || !o.panicked
	}
	c.must(some, "returns", c.at(fn, ""), "no way through the function returns")
	c.discharged(e, fn, "")
}

// ---- C30 ----

func ruleC30(c *Check) {
	su := c.su
	// messages from lists
	for _, t := range su.msgs {
		fn, e, _, _, _ := c.messageRun(t, "Parse", func(e *Engine) []*Term {
			return []*Term{mkSym("list", types.NewSlice(anyType()))}
		})
		if fn == nil {
			continue
		}
		c.n["entry"]++
		c.discharged(e, fn, "")
	}
	// numbers and lists of strings out of anything
	for _, fn := range c.moduleFuncs(func(fn *ssa.Function) bool { return numberFunc(fn) || stringsFunc(fn) }) {
		c.unpanicked(su.engine(), fn, nil)
	}
	// bytes
	for _, name := range []string{"JSONSerializer", "CBORSerializer", "MsgPackSerializer"} {
		t := su.p.typ("serializers", name)
		if t == nil {
			c.must(false, "anchor", site{tag: name}, "serializers.%s does not exist", name)
			continue
		}
		fn := su.method(types.NewPointer(t), "Deserialize")
		if fn == nil {
			c.must(false, "anchor", site{tag: name}, "%s has no method Deserialize", name)
			continue
		}
		recv := mkSym("serializer", types.NewPointer(t))
		e, outs := c.parsing(fn, []*Term{recv, mkSym("data", fn.Params[len(fn.Params)-1].Type())})
		c.count(fn, e, len(outs))
		c.n["entry"]++
		c.discharged(e, fn, "")
	}
	anchors := map[string]int{}
	for _, fn := range c.moduleFuncs(func(fn *ssa.Function) bool { return true }) {
		o := fn.Object()
		if o == nil || !o.Exported() || fn.Signature.Recv() != nil || fn.Parent() != nil || len(fn.Blocks) == 0 {
			continue
		}
		ps := fn.Signature.Params()
		last := types.Type(nil)
		if ps.Len() > 0 {
			last = ps.At(ps.Len() - 1).Type()
		}
		switch pkg := pkgOf(fn); {
		case last == nil:
		case pkg == modPath+"/serializers" && (isByteSlice(last) || ps.Len() == 1 && isAnySlice(last)):
			anchors["serializers"]++
			e := c.msgEngine()
			if isAnySlice(last) {
				e, outs := c.parsing(fn, []*Term{mkSym("list", last)})
				c.count(fn, e, len(outs))
				c.n["entry"]++
				c.discharged(e, fn, "")
				continue
			}
			c.unpanicked(e, fn, nil)
		case pkg == modPath+"/transports" && isByteSlice(last):
			anchors["transports"]++
			c.unpanicked(su.engine(), fn, nil)
		case pkg == modPath+"/util":
			anchors["util"]++
			c.unpanicked(su.engine(), fn, nil)
		}
	}
	c.must(anchors["serializers"] >= 5, "anchor", site{tag: "serializers"}, "only %d decoding functions of package serializers were found", anchors["serializers"])
	c.must(anchors["transports"] >= 2, "anchor", site{tag: "transports"}, "only %d decoding functions of package transports were found", anchors["transports"])
	c.need("entry", 30)
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isBasic(s.Elem(), types.Uint8)
}

func isAnySlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isEmptyIface(s.Elem())
}

// ---- C31 ----

func ruleC31(c *Check) {
	c.safeFromPeers()
	if su := c.su; len(c.finds) > 0 && !su.filled && su.indexUpkeep() {
		// once more, knowing that what the indexes hold has members
		runs := su.runs
		su.runs, su.filled = map[string]*Run{}, true
		again := newCheck(su, c.prop)
		again.safeFromPeers()
		*c = *again
		su.runs, su.filled = runs, false
	}
}

// indexUpkeep: every way into and out of the indexes of the router keeps exactly the entries with members in them.
func (su *Suite) indexUpkeep() bool {
	for _, r := range []rule{{id: "C02", run: ruleC02}, {id: "C09", run: ruleC09}} {
		c := newCheck(su, r.id)
		guarded(c, r.run)
		if c.conclude(); len(c.finds) > 0 {
			return false
		}
	}
	return true
}

func (c *Check) safeFromPeers() {
	su := c.su
	// handshakes
	for _, nilArgs := range []bool{false, true} {
		for _, x := range []*explored{c.histories("Acceptor", "NewAcceptor", nil, nilArgs), c.histories("Joiner", "NewJoiner", []string{"SendHello"}, nilArgs)} {
			if x.e == nil {
				continue
			}
			c.n["entry"]++
			c.discharged(x.e, x.fn, "")
		}
	}
	// bytes of a peer
	c.receives()
	// router and session
	for _, t := range su.msgs {
		name := t.Obj().Name()
		for _, n := range []string{"Broker", "Dealer", "Session"} {
			c.entrySafe("", n, "ReceiveMessage", name)
		}
	}
	c.entrySafe("", "Broker", "ReceivePublish", "")
	for _, n := range []string{"Broker", "Dealer"} {
		c.entrySafe("", n, "AddSession", "")
		c.entrySafe("", n, "RemoveSession", "")
	}
	c.entrySafe("", "Broker", "HasSubscription", "")
	c.entrySafe("", "Dealer", "HasProcedure", "")
	// what authenticators do with a challenge, and verification of what peers send
	iface, _ := under(su.p.typ("auth", "ClientAuthenticator")).(*types.Interface)
	n := 0
	if sp := su.p.pkgs["auth"]; sp != nil && iface != nil {
		for _, name := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok || structOf(tn.Type()) == nil || !types.Implements(types.NewPointer(tn.Type()), iface) {
				continue
			}
			fn := su.method(types.NewPointer(tn.Type()), "Authenticate")
			if fn == nil {
				continue
			}
			n++
			e := su.engine()
			recv := mkSym("authenticator", types.NewPointer(tn.Type()))
			e.nonNil[recv] = true
			c.unpanicked(e, fn, recv)
		}
	}
	c.must(n >= 4, "anchor", site{tag: "ClientAuthenticator"}, "only %d client authenticators were found", n)
	for _, f := range []string{"VerifyCryptoSignSignature", "VerifyWAMPCRASignature", "GenerateWAMPCRAChallenge", "GenerateCryptoSignChallenge", "SelectAuthMethod", "SignWAMPCRAChallenge", "SignWAMPCRAChallengeBytes", "DeriveWAMPCRAKey", "SignCryptoSignChallenge", "NewCryptoSignAuthenticator"} {
		if f == "SignCryptoSignChallenge" {
			continue // takes a key of the caller, analysed where it is called
		}
		c.entrySafe("auth", "", f, "")
	}
	c.need("entry", 50)
}

// entrySafe analyses one entry point and looks at its obligations.
func (c *Check) entrySafe(pkg, recv, name, msg string) {
	r := c.run(pkg, recv, name, msg)
	if r.e == nil {
		return
	}
	c.n["entry"]++
	tag := ""
	if msg != "" {
		tag = "(" + strings.ToUpper(msg) + ")"
	}
	c.discharged(r.e, r.fn, tag)
}

// receives analyses the functions that take bytes, for every message that may be decoded from them.
func (c *Check) receives() {
	su := c.su
	run := func(e *Engine, fn *ssa.Function, st *State, recv *Term, name string) {
		data := mkSym("data", fn.Params[1].Type())
		for _, t := range append(append([]*types.Named(nil), su.msgs...), nil) {
			mi := mkNil()
			if t != nil {
				mi, _ = su.messageNamed(e, t, name)
			}
			e.invokeHook = func(s *State, r *Term, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
				if name != "Deserialize" || rt.Len() != 2 {
					return nil, false
				}
				er := mkNil()
				if t == nil {
					er = mkCall("undecodable", newSerial(), rt.At(1).Type())
					e.nonNilTerm(er)
				}
				return []callRes{{st: s, val: mkTuple([]*Term{mi, er})}}, true
			}
			outs := e.Call(st.clone(), fn, []*Term{recv, data}, nil, 0, nil)
			c.count(fn, e, len(outs))
		}
		e.invokeHook = nil
	}
	for _, n := range []string{"Acceptor", "Joiner"} {
		x := c.acceptor()
		if n == "Joiner" {
			x = c.joiner()
		}
		fn := su.p.fn("", n, "Receive")
		if !c.must(fn != nil && len(fn.Params) == 2, "anchor", site{tag: n}, "%s.Receive does not exist", n) || x.e == nil {
			continue
		}
		c.n["entry"]++
		for _, h := range x.all {
			if !h.panic && len(h.steps) <= 2 {
				run(x.e, fn, h.st, h.recv, "msg"+itoa(len(h.steps)+1))
			}
		}
		c.discharged(x.e, fn, "")
	}
	fn := su.p.fn("", "Session", "Receive")
	if c.must(fn != nil && len(fn.Params) == 2, "anchor", site{tag: "Session"}, "Session.Receive does not exist") {
		c.n["entry"]++
		e := su.engine()
		recv := mkSym("session", fn.Params[0].Type())
		e.nonNil[recv] = true
		run(e, fn, su.p.start(e), recv, "msg")
		c.discharged(e, fn, "")
	}
}
