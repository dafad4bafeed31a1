package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const minFrame, maxFrame = 512, 1 << 24

// apply calls a function of the transports package in a state and goes on with its first result.
func (c *Check) apply(e *Engine, st *State, name string, args ...*Term) (fn *ssa.Function, outs []Outcome) {
	fn = c.su.p.fn("transports", "", name)
	if fn == nil {
		c.must(false, "missing", site{}, "transports.%s does not exist", name)
		return nil, nil
	}
	if len(fn.Params) != len(args) {
		c.must(false, "missing", c.at(fn, ""), "transports.%s does not take %d arguments", name, len(args))
		return nil, nil
	}
	for i, p := range fn.Params {
		if v, ok := args[i].constInt(); ok && isIntT(p.Type()) {
			args[i] = mkConst(constant.MakeInt64(v), p.Type())
		}
	}
	return fn, e.Call(st.clone(), fn, args, nil, 0, nil)
}

// good: the outcomes on which no error is returned (an undecided error counts).
func good(outs []Outcome, err int) (r []*Outcome) {
	for i := range outs {
		o := &outs[i]
		if o.panicked || err >= len(o.rets) {
			continue
		}
		if f, known := failed(*o, err); known && f {
			continue
		}
		r = append(r, o)
	}
	return r
}

func ruleC34(c *Check) {
	c.rawHeader()
	c.rawHandshake()
	c.need("frame", 4)
}

func (c *Check) rawHeader() {
	su := c.su
	mk, send, recv := su.p.fn("transports", "", "NewMessageHeader"), su.p.fn("transports", "", "SendMessageHeader"), su.p.fn("transports", "", "ReceiveMessageHeader")
	for _, fn := range []*ssa.Function{mk, send, recv} {
		if fn == nil {
			c.must(false, "missing", site{}, "the functions for message headers do not exist")
			return
		}
	}
	// encoding and decoding
	e := su.engine()
	s := su.p.start(e)
	kind, length := mkSym("kind", mk.Params[0].Type()), mkSym("length", mk.Params[1].Type())
	s = s.under(not(mkCmp(token.LSS, length, mkConst(constant.MakeInt64(0), length.typ))), is(mkCmp(token.LSS, length, mkConst(constant.MakeInt64(1<<24), length.typ))))
	_, o1 := c.apply(e, s, "NewMessageHeader", kind, length)
	n := 0
	for _, o := range o1 {
		if o.panicked || len(o.rets) != 1 {
			continue
		}
		_, o2 := c.apply(e, o.st, "SendMessageHeader", o.rets[0])
		for i := range o2 {
			p := &o2[i]
			if !c.must(!p.panicked, "encodes", c.at(send, "").on(p), "a header with a length below 2^24 is not encoded") {
				continue
			}
			if len(p.rets) == 2 {
				f, known := failed(*p, 1)
				if !c.must(known && !f, "encodes", c.at(send, "").on(p), "encoding a header with a length below 2^24 may be refused") {
					continue
				}
			}
			_, o3 := c.apply(e, p.st, "ReceiveMessageHeader", p.rets[0])
			for j := range o3 {
				q := &o3[j]
				at := c.at(recv, "roundtrip").on(q)
				f, known := true, true
				if !q.panicked {
					f, known = failed(*q, 1)
				}
				if !c.must(known && !f, "decodes", at, "an encoded header may be refused") {
					continue
				}
				k, l := su.get(q.st, q.rets[0], "Kind"), su.get(q.st, q.rets[0], "Length")
				if !c.must(k != nil && l != nil, "decodes", at, "kind and length of the decoded header are not known") {
					continue
				}
				n++
				c.must(q.st.sameBits(k, kind), "kind", at, "the kind decoded is %v, not the one encoded", k)
				c.must(q.st.sameBits(l, length), "length", at, "the length decoded is %v, which does not have the bits of the one encoded", l)
			}
		}
	}
	c.count(send, e, len(o1))
	c.must(n > 0, "frame", c.at(recv, "roundtrip"), "no way to decode an encoded header was found")

	// the four bytes
	e = su.engine()
	s = su.p.start(e)
	data := mkSym("data", recv.Params[0].Type())
	outs := e.Call(s, recv, []*Term{data}, nil, 0, nil)
	c.count(recv, e, len(outs))
	c.exactly4(recv, outs, data)
	c.must(len(good(outs, 1)) > 0, "frame", c.at(recv, "accepted"), "no header is ever accepted")
}

// exactly4: input of another length than four is refused.
func (c *Check) exactly4(fn *ssa.Function, outs []Outcome, data *Term) {
	for _, o := range good(outs, 1) {
		n := o.st.sliceLen(data)
		c.must(o.st.truth(eq(n, mkInt(4))) == yes, "length of input", c.at(fn, "").on(o), "input that is not known to have four bytes is accepted")
	}
}

func (c *Check) rawHandshake() {
	su := c.su
	mk, send, recv := su.p.fn("transports", "", "NewHandshake"), su.p.fn("transports", "", "SendHandshake"), su.p.fn("transports", "", "ReceiveHandshake")
	for _, fn := range []*ssa.Function{mk, send, recv} {
		if fn == nil {
			c.must(false, "missing", site{}, "the functions for handshakes do not exist")
			return
		}
	}
	// one abstract run for each of the 16 sizes and 16 serializers
	e := su.engine()
	n := 0
	st, sz := mk.Params[0].Type(), mk.Params[1].Type()
	for k := 9; k <= 24; k++ {
		for v := 0; v < 16; v++ {
			n += c.handshakeTrip(e, int64(v), 1<<k)
		}
	}
	c.count(send, e, n)
	c.must(n > 0, "frame", c.at(recv, "roundtrip"), "no way to decode an encoded handshake was found")

	// what may be encoded
	e = su.engine()
	s := su.p.start(e)
	ser, size := mkSym("serializer", st), mkSym("size", sz)
	accepted := 0
	_, o1 := c.apply(e, s, "NewHandshake", ser, size)
	for _, o := range o1 {
		if o.panicked || len(o.rets) == 0 {
			continue
		}
		_, outs := c.apply(e, o.st, "SendHandshake", o.rets[0])
		c.count(send, e, len(outs))
		for _, p := range good(outs, 1) {
			accepted++
			at := c.at(send, "refusal").on(p)
			if why := powerOfTwo(p.st, size); why != "" {
				bad := c.refusedSizes(e)
				c.must(bad == "", "size refused", at, "%s: %s", why, bad)
			}
			in := func(lo, hi int64) bool {
				a, ok1 := p.st.minDiff(mkInt(lo), ser)
				b, ok2 := p.st.minDiff(ser, mkInt(hi))
				return ok1 && ok2 && a >= 0 && b >= 0
			}
			if !in(0, 15) {
				bad := c.refusedSerializers(e)
				c.must(bad == "", "serializer refused", at, "a serializer that does not fit in four bits is encoded: %s", bad)
			}
		}
	}
	c.must(accepted > 0, "frame", c.at(send, "accepted"), "no handshake is ever encoded")

	// what may be decoded
	e = su.engine()
	s = su.p.start(e)
	data := mkSym("data", recv.Params[0].Type())
	outs := e.Call(s, recv, []*Term{data}, nil, 0, nil)
	c.count(recv, e, len(outs))
	c.exactly4(recv, outs, data)
	bt := elemOf(recv.Params[0].Type())
	for i, want := range []int64{0x7f, -1, 0, 0} {
		if want < 0 {
			continue
		}
		for v := int64(0); v < 256; v++ {
			s := su.p.start(e)
			var bs []*Term
			for j := range 4 {
				b := mkSym("byte"+itoa(j), bt)
				if j == i {
					b = mkConst(constant.MakeInt64(v), bt)
				}
				bs = append(bs, b)
			}
			outs := e.Call(s, recv, []*Term{s.newSlice(bs, bt, recv.Params[0].Type())}, nil, 0, nil)
			g := good(outs, 1)
			if v == want {
				c.must(len(g) > 0, "decodes", c.at(recv, "accepted"), "no handshake with byte %d equal to %#x is accepted", i, v)
				continue
			}
			for _, o := range g {
				if !c.must(false, "reserved bytes", c.at(recv, "").on(o), "a handshake whose byte %d is %#x is accepted", i, v) {
					v = 256
					break
				}
			}
		}
	}
}

// handshakeTrip encodes and decodes one handshake abstractly.
func (c *Check) handshakeTrip(e *Engine, ser, size int64) (n int) {
	su := c.su
	send, recv := su.p.fn("transports", "", "SendHandshake"), su.p.fn("transports", "", "ReceiveHandshake")
	_, o1 := c.apply(e, su.p.start(e), "NewHandshake", mkInt(ser), mkInt(size))
	for _, o := range o1 {
		if o.panicked || len(o.rets) == 0 {
			continue
		}
		_, o2 := c.apply(e, o.st, "SendHandshake", o.rets[0])
		for i := range o2 {
			p := &o2[i]
			at := c.at(send, "roundtrip").on(p)
			f, known := true, true
			if !p.panicked {
				f, known = failed(*p, 1)
			}
			if !c.must(known && !f, "encodes", at, "a handshake with size %d and serializer %d may be refused", size, ser) {
				continue
			}
			_, o3 := c.apply(e, p.st, "ReceiveHandshake", p.rets[0])
			for j := range o3 {
				q := &o3[j]
				at := c.at(recv, "roundtrip").on(q)
				f, known := true, true
				if !q.panicked {
					f, known = failed(*q, 1)
				}
				if !c.must(known && !f, "decodes", at, "the encoded handshake with size %d and serializer %d may be refused", size, ser) {
					continue
				}
				a, b := su.get(q.st, q.rets[0], "Serializer"), su.get(q.st, q.rets[0], "MaxMessageSize")
				if !c.must(a != nil && b != nil, "decodes", at, "serializer and size of the decoded handshake are not known") {
					continue
				}
				n++
				x, ok := q.st.rep(a).constInt()
				c.must(ok && x == ser, "serializer", at, "the handshake with size %d and serializer %d is decoded with serializer %v", size, ser, a)
				y, ok := q.st.rep(b).constInt()
				c.must(ok && y == size, "size", at, "the handshake with size %d and serializer %d is decoded with size %v", size, ser, b)
			}
		}
	}
	return n
}

// encodable: a handshake with these may be encoded.
func (c *Check) encodable(e *Engine, ser, size int64) bool {
	_, o1 := c.apply(e, c.su.p.start(e), "NewHandshake", mkInt(ser), mkInt(size))
	for _, o := range o1 {
		if o.panicked || len(o.rets) == 0 {
			continue
		}
		_, o2 := c.apply(e, o.st, "SendHandshake", o.rets[0])
		if len(good(o2, 1)) > 0 {
			return true
		}
	}
	return false
}

// refusedSizes goes through classes of sizes when the check in the code is not of a known form.
func (c *Check) refusedSizes(e *Engine) string {
	e.notes["size check not recognised: decided for sizes around and between the powers of two"] = true
	try := []int64{0, -1, -512, -1024, -(1 << 24), 1 << 25, 1 << 26, 1 << 32, 1 << 40, 3 << 23, maxFrame + 1, maxFrame + 512}
	for k := 0; k < 9; k++ {
		try = append(try, 1<<k)
	}
	for k := 9; k <= 24; k++ {
		try = append(try, 1<<k-1, 1<<k+1, 1<<k+1<<(k-1), 1<<k+512, 1<<k-512+1)
	}
	for _, v := range try {
		if v >= minFrame && v <= maxFrame && v&(v-1) == 0 {
			continue
		}
		if c.encodable(e, 1, v) {
			return "size " + itoa(int(v)) + " may be encoded"
		}
	}
	return ""
}

func (c *Check) refusedSerializers(e *Engine) string {
	e.notes["serializer check not recognised: decided for serializers around the bounds"] = true
	for _, v := range []int64{-1, -2, -15, -16, -17, -256, 16, 17, 31, 32, 128, 255, 256, 257, 1 << 16, 1<<31 - 1} {
		if c.encodable(e, v, 1<<16) {
			return "serializer " + itoa(int(v)) + " may be encoded"
		}
	}
	return ""
}

// powerOfTwo: the path knows that size is a power of two from 512 to 2^24.
func powerOfTwo(st *State, size *Term) string {
	size = st.rep(size)
	if v, ok := size.constInt(); ok {
		if v >= minFrame && v <= maxFrame && v&(v-1) == 0 {
			return ""
		}
		return "size " + itoa(int(v)) + " is encoded"
	}
	if d, ok := st.minDiff(size, mkInt(maxFrame)); !ok || d < 0 {
		return "a size above 16 megabytes may be encoded"
	}
	var strip func(t *Term) *Term
	strip = func(t *Term) *Term {
		for t.op == OConv && len(t.args) == 1 {
			t = t.args[0]
		}
		return t
	}
	// the exponent
	isLog := func(t *Term) bool {
		b, _ := split(t)
		if b == nil {
			return false
		}
		b = strip(b)
		return b.op == OCall && len(b.args) == 1 && strip(st.rep(b.args[0])) == size &&
			(b.name == "math.Log2" || strings.HasPrefix(b.name, "math/bits.Len"))
	}
	pow, low := false, false
	if d, ok := st.minDiff(mkInt(minFrame), size); ok && d >= 0 {
		low = true
	}
	pos := low
	if d, ok := st.minDiff(mkInt(1), size); ok && d >= 0 {
		pos = true
	}
	for f, v := range st.facts {
		if f.op != OBin {
			continue
		}
		if f.tok == token.LSS {
			// exponent >= 9
			for i := 0; i < 2; i++ {
				if x := f.args[i]; isLog(x) {
					b, _ := split(x)
					off := int64(0)
					if strip(b).name != "math.Log2" {
						off = 1
					}
					if d, ok := st.minDiff(mkInt(9+off), b); ok && d >= 0 {
						low = true
					}
				}
			}
		}
		if f.tok != token.EQL || !v {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := strip(f.args[i]), strip(f.args[1-i])
			// 1 << e == size
			if y == size && x.op == OBin && x.tok == token.SHL {
				if one, ok := x.args[0].constInt(); ok && one == 1 {
					pow = true
				}
			}
			if k, ok := y.constInt(); ok {
				// size & (size-1) == 0
				if k == 0 && x.op == OBin && x.tok == token.AND && pos {
					a, b := strip(x.args[0]), strip(x.args[1])
					if a != size {
						a, b = b, a
					}
					if bb, o := split(b); a == size && bb == size && o == -1 {
						pow = true
					}
				}
				if k == 1 && x.op == OCall && strings.HasPrefix(x.name, "math/bits.OnesCount") && len(x.args) == 1 && strip(st.rep(x.args[0])) == size && pos {
					pow = true
				}
			}
		}
	}
	switch {
	case !low:
		return "a size below 512 may be encoded"
	case !pow:
		return "a size that is not a power of two may be encoded"
	}
	return ""
}
