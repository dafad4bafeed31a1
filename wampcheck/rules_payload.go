package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// payload serializers: id, constants, codec
var payloadIDs = []struct {
	id         int64
	constant   string
	transport  string
	codec      string
	enc, dec   string
	serializer string
}{
	{0, "NoneSerializerID", "", "", "", "", ""},
	{1, "JSONSerializerID", "SerializerJson", "encoding/json.", "JSONEncodePayload", "JSONDecodePayload", "JSONSerializer"},
	{2, "MsgPackSerializerID", "SerializerMsgpack", "github.com/vmihailenco/msgpack/v5.", "MsgPackEncodePayload", "MsgPackDecodePayload", "MsgPackSerializer"},
	{3, "CBORSerializerID", "SerializerCbor", "github.com/fxamacker/cbor/v2.", "CBOREncodePayload", "CBORDecodePayload", "CBORSerializer"},
}

func (c *Check) constOf(pkg, name string) (int64, bool) {
	sp := c.su.p.pkgs[pkg]
	if sp == nil {
		return 0, false
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(k.Val()))
}

func ruleC33(c *Check) {
	enc, dec := c.su.p.fn("serializers", "", "SerializePayload"), c.su.p.fn("serializers", "", "DeserializePayload")
	if enc == nil || dec == nil {
		c.must(false, "anchor", site{}, "SerializePayload or DeserializePayload does not exist")
		return
	}
	for _, p := range payloadIDs {
		n, ok := c.constOf("serializers", p.constant)
		c.must(ok && n == p.id, "ids", site{tag: p.constant}, "%s is %d instead of %d", p.constant, n, p.id)
		if p.transport != "" {
			n, ok = c.constOf("transports", p.transport)
			c.must(ok && n == p.id, "ids", site{tag: p.transport}, "%s is %d instead of %d", p.transport, n, p.id)
		}
		id := mkUint64(uint64(p.id))
		c.payload(enc, dec, []*Term{id}, p.codec)
		if p.enc != "" {
			e, d := c.su.p.fn("serializers", "", p.enc), c.su.p.fn("serializers", "", p.dec)
			if c.must(e != nil && d != nil, "anchor", site{tag: p.enc}, "%s or %s does not exist", p.enc, p.dec) {
				c.payload(e, d, nil, p.codec)
			}
		}
	}
	e, d := c.su.p.fn("serializers", "", "EncodeCBOR"), c.su.p.fn("serializers", "", "DecodeCBOR")
	if c.must(e != nil && d != nil, "anchor", site{tag: "EncodeCBOR"}, "EncodeCBOR or DecodeCBOR does not exist") {
		c.payload(e, d, nil, codecs["CBORSerializer"])
	}
	for _, fn := range []*ssa.Function{enc, dec} {
		e := c.msgEngine()
		s := c.su.p.start(e)
		var args []*Term
		for _, q := range fn.Params {
			args = append(args, mkSym(q.Name(), q.Type()))
		}
		outs := e.Call(s, fn, args, nil, 0, nil)
		c.count(fn, e, len(outs))
		for i := range outs {
			o := &outs[i]
			if o.panicked {
				continue
			}
			f, known := failed(*o, len(o.rets)-1)
			if known && f {
				continue
			}
			some := false
			for _, p := range payloadIDs {
				some = some || o.st.truth(eq(args[0], mkUint64(uint64(p.id)))) == yes
			}
			c.must(some, "unknown", c.at(fn, "").on(o), "a payload serializer id that is not 0 to 3 is accepted")
		}
	}
	c.need("ids", 7)
	c.need("accepted", 4)
	c.need("inverse", 20)
	c.need("malformed", 16)
	c.need("unknown", 8)
}

// payload decides one pair of encoder and decoder.
func (c *Check) payload(enc, dec *ssa.Function, first []*Term, codec string) {
	tag := ""
	if len(first) > 0 {
		n, _ := first[0].constInt()
		tag = itoa(int(n))
	}
	if len(enc.Params) != len(first)+2 || len(dec.Params) != len(first)+1 {
		c.must(false, "anchor", c.at(enc, tag), "%s or %s has other parameters", enc.Name(), dec.Name())
		return
	}
	e := c.msgEngine()
	s := c.su.p.start(e)
	args, kwargs := mkSym("args", enc.Params[len(first)].Type()), mkSym("kwargs", enc.Params[len(first)+1].Type())
	outs := e.Call(s, enc, append(append([]*Term(nil), first...), args, kwargs), nil, 0, nil)
	c.count(enc, e, len(outs))
	c.discharged(e, enc, "")
	for i := range outs {
		o := &outs[i]
		at := c.at(enc, tag).on(o)
		if !c.must(!o.panicked && len(o.rets) == 2, "panic", at, "encoding a payload may panic") {
			continue
		}
		f, known := failed(*o, 1)
		if known && f {
			asked := false
			for _, ev := range o.st.Events(0) {
				asked = asked || ev.Kind == EvCall && strings.Contains(ev.Name, "Marshal")
			}
			// there is nothing to refuse in an empty payload
			st := o.st.under(is(eq(o.st.sliceLen(args), mkInt(0))), is(eq(o.st.sliceLen(kwargs), mkInt(0))))
			c.must(st == nil || asked || !st.consistent(), "empty", at, "a payload without arguments is refused")
			if codec == "" {
				// nor in a single byte string
				raw := o.st.rep(o.st.load(mkIndex(args, mkInt(0)), anyType()))
				st = o.st.under(is(eq(o.st.sliceLen(args), mkInt(1))), is(eq(o.st.sliceLen(kwargs), mkInt(0))), is(mkAssertOK(raw, enc.Signature.Results().At(0).Type())))
				c.must(st == nil || !st.consistent(), "accepted", at, "a single byte string is refused as a raw payload")
			} else {
				c.must(asked, "accepted", at, "a payload is refused that was not given to the codec")
			}
			continue
		}
		if codec == "" {
			c.rawEncoded(o, args, kwargs, at)
		} else if !(o.st.isEmpty(o.rets[0]) && o.st.isEmpty(args) && o.st.isEmpty(kwargs)) {
			c.encodedAs(o, codec, at, "codec", func(*State, *Term) string { return "" })
		}
		st := o.st
		if !known {
			if st = st.under(is(eq(o.rets[1], mkNil()))); st == nil {
				continue
			}
		}
		c.decodesTo(dec, first, st, o.rets[0], args, kwargs, codec, tag)
	}
	c.malformed(dec, first, codec, tag)
}

// rawEncoded: without a serializer the payload is the only argument, a byte string.
func (c *Check) rawEncoded(o *Outcome, args, kwargs *Term, at site) {
	st := o.st
	if st.isEmpty(args) && st.isEmpty(kwargs) {
		c.must(st.isEmpty(o.rets[0]), "raw", at, "no arguments are encoded as %v", o.rets[0])
		return
	}
	c.must(st.isEmpty(kwargs), "raw", at, "keyword arguments are accepted for a raw payload")
	c.must(st.truth(eq(st.norm(mkLen(args, 0)), mkInt(1))) == yes, "raw", at, "other than one argument is accepted for a raw payload")
	x := st.rep(st.load(mkIndex(args, mkInt(0)), anyType()))
	bt := typeOr(o.rets[0])
	c.must(st.truth(mkAssertOK(x, bt)) == yes && st.same(o.rets[0], mkAssert(x, bt)), "raw", at, "a raw payload is %v, not the byte string that is the argument", o.rets[0])
}

// decodesTo: decoding bytes yields the arguments they were made of.
func (c *Check) decodesTo(dec *ssa.Function, first []*Term, st *State, data, args, kwargs *Term, codec, tag string) {
	e := c.msgEngine()
	st = st.clone()
	st.eng = e
	for k, v := range c.su.p.initNonNil {
		e.nonNil[k] = v
	}
	data = st.rep(data)
	var made *Event
	if data.op == OExtract && data.n == 0 {
		for _, ev := range st.Events(0) {
			ev := ev
			if ev.Kind == EvCall && ev.Val == data.args[0] {
				made = &ev
			}
		}
		// no codec encodes a list as nothing
		st.assume(mkCmp(token.LSS, mkInt(0), st.norm(mkLen(data, 0))), true)
		st.assume(eq(data, mkNil()), false)
	}
	e.decodeHook = func(s *State, name string, d, ptr *Term, rt *types.Tuple) ([]callRes, bool) {
		if made == nil || s.rep(d) != data || !ofCodec(name, codec) || !ofCodec(made.Name, codec) {
			return nil, false
		}
		x := s.rep(unbox(made.Args[len(made.Args)-1]))
		es, ok := s.elems(x)
		if !ok || x.isNil() {
			return nil, false
		}
		var r []callRes
		c.codecList(s, es, func(s2 *State, vs []*Term) {
			s2 = s2.clone()
			et := addrElem(ptr)
			s2.store(ptr, s2.newSlice(vs, anyType(), et), et)
			s2.emit(Event{Kind: EvCall, Name: name, Args: []*Term{d, ptr}})
			r = append(r, callRes{st: s2, val: mkNil()})
		})
		return r, true
	}
	outs := e.Call(st, dec, append(append([]*Term(nil), first...), data), nil, 0, nil)
	c.count(dec, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 3 || !feasible(o.st) {
			continue
		}
		at := c.at(dec, tag).on(o)
		c.modes(o.st, "codec", at)
		f, known := failed(*o, 2)
		if !c.must(known && !f, "inverse", at, "what was encoded from these arguments is refused") {
			continue
		}
		if codec == "" && o.st.isEmpty(data) {
			c.must(o.st.isEmpty(o.rets[0]) && o.st.isEmpty(o.rets[1]), "inverse", at, "an empty payload is decoded to %v %v", o.rets[0], o.rets[1])
			continue
		}
		c.must(sameList(o.st, o.rets[0], args), "inverse", at, "the positional arguments are decoded as %v", o.rets[0])
		c.must(o.st.sameValue(o.rets[1], kwargs), "inverse", at, "the keyword arguments are decoded as %v", o.rets[1])
	}
}

// sameList: two lists have the same elements.
func sameList(st *State, got, want *Term) bool {
	if st.sameValue(got, want) {
		return true
	}
	es, ok := st.elems(st.rep(got))
	if !ok || st.truth(eq(st.norm(mkLen(want, 0)), mkInt(int64(len(es))))) != yes {
		return false
	}
	for i, g := range es {
		w := st.rep(st.load(mkIndex(want, mkInt(int64(i))), anyType()))
		if st.same(g, w) {
			continue
		}
		if g.op != OIface || st.truth(mkAssertOK(w, g.typ)) != yes || !st.same(g.args[0], mkAssert(w, g.typ)) {
			return false
		}
	}
	return true
}

// malformed: what a decoder accepts is empty or an encoded list of arguments, from which the results are taken.
func (c *Check) malformed(dec *ssa.Function, first []*Term, codec, tag string) {
	e := c.msgEngine()
	s := c.su.p.start(e)
	data := mkSym("data", dec.Params[len(first)].Type())
	outs := e.Call(s, dec, append(append([]*Term(nil), first...), data), nil, 0, nil)
	c.count(dec, e, len(outs))
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 3 {
			continue
		}
		st := o.st
		at := c.at(dec, tag).on(o)
		f, known := failed(*o, 2)
		if !c.must(known, "malformed", at, "it is not clear whether an error is returned") || f {
			continue
		}
		args, kwargs := st.rep(o.rets[0]), st.rep(o.rets[1])
		if st.isEmpty(args) && st.isEmpty(kwargs) && st.isEmpty(data) {
			c.must(true, "malformed", at, "")
			continue
		}
		if codec == "" {
			es, ok := st.elems(args)
			c.must(ok && len(es) == 1 && st.rep(unbox(es[0])) == data && st.isEmpty(kwargs), "malformed", at, "a raw payload is decoded to %v %v", args, kwargs)
			continue
		}
		c.modes(st, "codec", at)
		list, why := decodedList(st, data, codec)
		if !c.must(why == "", "malformed", at, "%s", why) {
			continue
		}
		n := st.norm(mkLen(list, 0))
		d, ok := st.minDiff(n, mkInt(2))
		c.must(ok && d >= 0, "malformed", at, "a payload of more than two elements is accepted")
		for k, want := range []struct {
			t    types.Type
			got  *Term
			name string
		}{{types.NewSlice(anyType()), args, "list of positional arguments"}, {types.NewMap(types.Typ[types.String], anyType()), kwargs, "dictionary of keyword arguments"}} {
			// without the element
			if u := st.under(not(mkCmp(token.LSS, mkInt(int64(k)), n))); u != nil {
				c.must(u.isEmpty(want.got), "malformed", at, "a payload without a %s is decoded to %v", want.name, want.got)
			}
			if u := st.under(is(mkCmp(token.LSS, mkInt(int64(k)), n))); u != nil {
				x := u.rep(u.load(mkIndex(list, mkInt(int64(k))), anyType()))
				c.must(u.truth(mkAssertOK(x, want.t)) == yes && u.same(want.got, mkAssert(x, want.t)), "malformed", at,
					"a payload whose element %d is no %s is accepted, or the element is not what is returned (%v)", k, want.name, want.got)
			}
		}
	}
}

// ---- C35 ----

// target: what a conversion of loosely typed values makes of them.
type target struct {
	kind   types.BasicKind
	lo, hi int64   // whole numbers from lo to hi are the result's values; hi < 0: any
	flo    float64 // floating point numbers from flo up to but without fhi can be converted
	fhi    float64
	what   string
}

var (
	targetID    = target{types.Uint64, 0, -1, 0, 1 << 64, "an identifier"}
	targetInt   = target{types.Int, math.MinInt64, math.MaxInt64, -(1 << 63), 1 << 63, "an integer"}
	targetFloat = target{types.Float64, math.MinInt64, -1, math.Inf(-1), math.Inf(1), "a floating point number"}
)

func ruleC35(c *Check) {
	fns := c.moduleFuncs(numberFunc)
	c.must(c.su.p.fn("util", "", "AsUInt64") != nil, "anchor", site{}, "there is no AsUInt64")
	for _, fn := range fns {
		c.conversion(fn, targetID)
	}
	c.need("accepted", 6)
	c.need("value", 6)
	c.need("rejected", 6)
}

// ---- C46 ----

func ruleC46(c *Check) {
	for _, x := range []struct {
		name string
		t    target
	}{{"AsInt", targetInt}, {"AsFloat64", targetFloat}} {
		fn := c.su.p.fn("util", "", x.name)
		if c.must(fn != nil && sigIs(fn, []func(types.Type) bool{isEmptyIface}, []func(types.Type) bool{kindIs(x.t.kind), kindIs(types.Bool)}), "anchor", site{}, "there is no %s", x.name) {
			c.conversion(fn, x.t)
		}
	}
	for _, x := range []struct {
		name string
		k    types.BasicKind
		ok   bool
	}{{"AsBool", types.Bool, true}, {"ToBool", types.Bool, false}, {"AsString", types.String, true}, {"ToString", types.String, false}} {
		fn := c.su.p.fn("util", "", x.name)
		res := []func(types.Type) bool{kindIs(x.k)}
		if x.ok {
			res = append(res, kindIs(types.Bool))
		}
		if c.must(fn != nil && sigIs(fn, []func(types.Type) bool{isEmptyIface}, res), "anchor", site{}, "there is no %s", x.name) {
			c.unwrapped(fn, x.k)
		}
	}
	c.need("accepted", 10)
	c.need("value", 10)
	c.need("rejected", 4)
	c.need("same", 4)
}

// unwrapped: a function gives the value of the kind it holds, or nothing.
func (c *Check) unwrapped(fn *ssa.Function, k types.BasicKind) {
	e := c.su.engine()
	s := c.su.p.start(e)
	x := mkSym("value", fn.Params[0].Type())
	outs := e.Call(s, fn, []*Term{x}, nil, 0, nil)
	c.count(fn, e, len(outs))
	t := types.Typ[k]
	v := mkAssert(x, t)
	for i := range outs {
		o := &outs[i]
		at := c.at(fn, t.Name()).on(o)
		if !c.must(!o.panicked, "same", at, "it may panic") {
			continue
		}
		if u := o.st.under(is(mkAssertOK(x, t))); u != nil {
			c.must(u.same(o.rets[0], v), "same", at, "a %s is read as %v", t.Name(), o.rets[0])
			if len(o.rets) == 2 {
				c.must(u.truth(o.rets[1]) == yes, "same", at, "a %s may be refused", t.Name())
			}
		}
		if u := o.st.under(not(mkAssertOK(x, t))); u != nil {
			c.must(u.nothing(o.rets[0]) || u.truth(o.rets[0]) == no && k == types.Bool, "same", at, "what is no %s is read as %v", t.Name(), o.rets[0])
			if len(o.rets) == 2 {
				c.must(u.truth(o.rets[1]) == no, "same", at, "what is no %s may be accepted", t.Name())
			}
		}
	}
}

// exact: a term is the number in x, converted in a way that keeps its value; why not otherwise.
func exact(st *State, v, x *Term, t *types.Basic, target target, sizes types.Sizes) string {
	v = st.rep(v)
	var chain []*types.Basic
	for v.op == OConv || v.op == OCall && v.name == "math.Trunc" {
		if b, ok := under(v.typ).(*types.Basic); ok {
			chain = append(chain, b)
		} else {
			return "it is converted to something else"
		}
		v = st.rep(v.args[0])
	}
	cur := t
	got := false
	for name, k := range map[string]types.BasicKind{"(reflect.Value).Uint": types.Uint64, "(reflect.Value).Int": types.Int64, "(reflect.Value).Float": types.Float64} {
		if v.op == OCall && v.name == name {
			w := st.rep(v.args[0])
			if w.op == OCall && w.name == "reflect.ValueOf" {
				w = st.rep(unbox(w.args[0]))
			}
			got = w == x || w == mkAssert(x, t)
			cur = types.Typ[k]
		}
	}
	if !got && v != mkAssert(x, t) && v != x {
		return "it is not that number"
	}
	// from the inside out; the value is within lo to hi, and 8 bytes keep it even if they show it with another sign
	lo, hi := typeLimits(t, sizes)
	if l := big.NewInt(target.lo); lo != nil && lo.Cmp(l) < 0 {
		lo = l
	}
	if h := big.NewInt(target.hi); hi != nil && target.hi >= 0 && hi.Cmp(h) > 0 {
		hi = h
	}
	fits := func(to *types.Basic) bool {
		l, h := typeLimits(to, sizes)
		return l == nil || lo == nil || l.Cmp(lo) <= 0 && hi.Cmp(h) <= 0
	}
	for i := len(chain) - 1; i >= 0; i-- {
		to := chain[i]
		switch {
		case cur.Info()&types.IsFloat != 0:
			if to.Info()&types.IsFloat != 0 {
				if sizes.Sizeof(to) < sizes.Sizeof(cur) {
					return "a wider floating point number is narrowed"
				}
			} else if sizes.Sizeof(to) < 8 || (to.Info()&types.IsUnsigned != 0) != (target.kind == types.Uint64) {
				return "it is converted to " + to.Name() + " on the way"
			}
		case to.Info()&types.IsFloat != 0:
			if i > 0 || to.Kind() != types.Float64 {
				return "it is converted to a floating point number on the way"
			}
			if !fits(cur) {
				return "it is converted to " + cur.Name() + " first, which does not hold all of its values"
			}
		case sizes.Sizeof(to) < 8 && !fits(to):
			return "it is converted to " + to.Name() + ", which does not hold all of its values"
		}
		cur = to
	}
	if !fits(cur) {
		return cur.Name() + " does not hold all of its values"
	}
	return ""
}

// typeLimits of a type of whole numbers.
func typeLimits(t *types.Basic, sizes types.Sizes) (lo, hi *big.Int) {
	if t.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	bits := uint(8 * sizes.Sizeof(t))
	one := big.NewInt(1)
	if t.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

func (c *Check) conversion(fn *ssa.Function, to target) {
	e := c.su.engine()
	s := c.su.p.start(e)
	x := mkSym("value", fn.Params[0].Type())
	outs := e.Call(s, fn, []*Term{x}, nil, 0, nil)
	c.count(fn, e, len(outs))
	for _, k := range numberKinds {
		t := types.Typ[k]
		v := mkAssert(x, t)
		signed := t.Info()&types.IsUnsigned == 0
		whole := t.Info()&types.IsInteger != 0
		below := mkCmp(token.LSS, v, mkConst(constant.MakeInt64(to.lo), t))
		if !whole || !signed || to.lo == math.MinInt64 {
			below = mkBool(false)
		}
		above, aboveToo := mkBool(false), mkBool(false)
		if to.hi >= 0 && whole && !signed && c.su.p.sizes.Sizeof(t) == 8 {
			above = mkCmp(token.LSS, mkConst(constant.MakeInt64(to.hi), t), v)
			aboveToo = mkCmp(token.LSS, mkConst(constant.MakeInt64(to.hi), types.Typ[types.Uint64]), intern(Term{op: OConv, args: []*Term{v}, typ: types.Typ[types.Uint64]}))
		}
		n := 0
		for i := range outs {
			o := &outs[i]
			if o.panicked || len(o.rets) != 2 {
				continue
			}
			st := o.st.under(is(mkAssertOK(x, t)))
			if st == nil {
				continue
			}
			at := c.at(fn, t.Name()).on(o)
			r := st.truth(o.rets[1])
			for _, ok := range []bool{true, false} {
				u := st
				if r == maybe {
					if u = st.under(cond{o.rets[1], ok}); u == nil {
						continue
					}
				} else if (r == yes) != ok {
					continue
				}
				if ok {
					n++
					why := exact(u, o.rets[0], x, t, to, c.su.p.sizes)
					c.must(why == "", "value", at, "a %s is read as %v: %s", t.Name(), o.rets[0], why)
					if below.isConst() && above.isConst() && whole {
						continue
					}
					if whole {
						c.must(u.truth(below) == no, "rejected", at, "a %s below %d is accepted", t.Name(), to.lo)
						c.must(u.truth(above) == no || u.truth(aboveToo) == no, "rejected", at, "a %s above %d is accepted", t.Name(), to.hi)
						continue
					}
					why = floatWithin(u, v, to)
					c.must(why == "", "rejected", at, "a %s that cannot be converted may be accepted: %s", t.Name(), why)
					continue
				}
				// refused: only what is none
				switch {
				case whole:
					c.must(u.truth(below) == yes || u.truth(above) == yes || u.truth(aboveToo) == yes, "accepted", at, "a %s that is %s may be refused", t.Name(), to.what)
				default:
					c.must(floatRefused(u, v, to), "accepted", at, "a %s that is %s may be refused", t.Name(), to.what)
				}
				c.must(isZero(u.rep(o.rets[0])), "rejected", at, "a refused %s is read as %v", t.Name(), o.rets[0])
			}
		}
		c.must(n > 0, "accepted", c.at(fn, t.Name()), "a %s is never accepted as %s", t.Name(), to.what)
	}
	// everything else is refused
	for i := range outs {
		o := &outs[i]
		if o.panicked || len(o.rets) != 2 {
			continue
		}
		st := o.st.clone()
		for _, k := range numberKinds {
			if st != nil {
				st = st.under(not(mkAssertOK(x, types.Typ[k])))
			}
		}
		if st == nil {
			continue
		}
		at := c.at(fn, "").on(o)
		if c.must(st.truth(o.rets[1]) == no, "rejected", at, "something that is not known to be a number is accepted as %s", to.what) {
			c.must(isZero(st.rep(o.rets[0])), "rejected", at, "what is no number is read as %v", o.rets[0])
		}
	}
}

// isZero: the number zero.
func isZero(t *Term) bool {
	return t.op == OConst && t.val != nil && isNum(t.val) && constant.Sign(t.val) == 0
}

// bound: what a path knows of a number compared with a constant.
type bound struct {
	k      float64
	above  bool // the number is above k
	strict bool
	nan    bool // or it is none
}

// floatBounds: comparisons of a floating point number a path has passed; and whether it is known to be a number, or to be none or fractional.
func floatBounds(st *State, v *Term) (bs []bound, number, none bool) {
	strip := func(t *Term) *Term {
		for t.op == OConv && isFloat(t.typ) || t.op == OCall && t.name == "math.Trunc" {
			t = st.rep(t.args[0])
		}
		return t
	}
	round := func(t *Term) (float64, bool) {
		if t.op != OConst || t.val == nil || !isNum(t.val) {
			return 0, false
		}
		f, _ := constant.Float64Val(constant.ToFloat(t.val))
		if b, ok := under(t.typ).(*types.Basic); ok && b.Kind() == types.Float32 {
			g, _ := constant.Float32Val(constant.ToFloat(t.val))
			f = float64(g)
		}
		return f, true
	}
	for f, val := range st.facts {
		switch {
		case f.op == OCall && f.name == "math.IsNaN" && len(f.args) == 1 && strip(f.args[0]) == v:
			number = number || !val
			none = none || val
		case f.op == OBin && f.tok == token.EQL && !val && strings.Contains(fmt.Sprint(f), "math.Trunc"):
			none = true
		case f.op == OBin && (f.tok == token.LSS || f.tok == token.LEQ):
			l, r := f.args[0], f.args[1]
			if k, ok := round(r); ok && strip(l) == v {
				// v < k, or not
				bs = append(bs, bound{k, !val, (f.tok == token.LSS) == val, !val})
				number = number || val
			}
			if k, ok := round(l); ok && strip(r) == v {
				bs = append(bs, bound{k, val, (f.tok == token.LSS) == val, !val})
				number = number || val
			}
		}
	}
	return
}

// floatWithin: the path knows that a floating point number can be converted; why not otherwise.
func floatWithin(st *State, v *Term, to target) string {
	if math.IsInf(to.fhi, 0) {
		return ""
	}
	bs, number, _ := floatBounds(st, v)
	lo, hi := false, false
	for _, b := range bs {
		if b.above {
			lo = lo || b.k >= to.flo || b.strict && to.flo == 0 && b.k >= -1
		} else {
			hi = hi || b.k < to.fhi || b.strict && b.k == to.fhi
		}
	}
	switch {
	case !number:
		return "it may be not a number"
	case !lo:
		return "it may be too small"
	case !hi:
		return "it may be too large"
	}
	return ""
}

// floatRefused: the path knows a floating point number to be out of range or none; identifiers may be limited to 2^53.
func floatRefused(st *State, v *Term, to target) bool {
	if math.IsInf(to.fhi, 0) {
		return false
	}
	bs, _, none := floatBounds(st, v)
	if none {
		return true
	}
	hi := to.fhi
	if to.flo == 0 {
		hi = 1 << 53
	}
	for _, b := range bs {
		if !b.above && (b.k < to.flo || b.k == to.flo && b.strict) || b.above && (b.k >= hi || b.strict && math.Nextafter(b.k, hi) == hi) {
			return true
		}
	}
	return false
}
