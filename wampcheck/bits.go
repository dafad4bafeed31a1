package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// bit is one bit of a value: known, or bit i of an unknown term.
type bit struct {
	t *Term // nil: known
	i int   // the bit of t, or the known value
}

// word is the two's complement of an integer, sign extended to 64 bits.
type word [64]bit

func constWord(v int64) word {
	var w word
	for i := range w {
		w[i] = bit{nil, int(uint64(v)>>i) & 1}
	}
	return w
}

func (w word) constant() (int64, bool) {
	var v uint64
	for i, b := range w {
		if b.t != nil {
			return 0, false
		}
		v |= uint64(b.i) << i
	}
	return int64(v), true
}

func (p *Prog) widthOf(t types.Type) (int, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 64, true
	}
	return int(p.sizes.Sizeof(b) * 8), b.Info()&types.IsUnsigned == 0
}

// fit reduces a word to a type.
func (p *Prog) fit(w word, t types.Type) word {
	if t == nil {
		return w
	}
	n, signed := p.widthOf(t)
	for i := n; i < 64; i++ {
		if signed {
			w[i] = w[n-1]
		} else {
			w[i] = bit{}
		}
	}
	return w
}

// bitsOf says where every bit of an integer comes from.
func (s *State) bitsOf(t *Term) word {
	p := s.eng.p
	t = s.rep(t)
	if v, ok := t.constInt(); ok {
		return constWord(v)
	}
	typ := typeOfTerm(t)
	leaf := func() word {
		var w word
		n, signed := 64, true
		if typ != nil {
			n, signed = p.widthOf(typ)
		}
		for i := range w {
			w[i] = bit{t, i}
		}
		if lo, ok := s.minDiff(mkInt(0), t); ok && lo >= 0 {
			hi := int64(-1)
			if d, ok := s.minDiff(t, mkInt(0)); ok {
				hi = -d
			}
			m := n
			if signed {
				m = n - 1
			}
			if hi >= 0 && hi < 1<<62 {
				m = min(m, bits.Len64(uint64(hi)))
			}
			for i := m; i < 64; i++ {
				w[i] = bit{}
			}
			return w
		}
		for i := n; i < 64; i++ {
			w[i] = w[n-1]
			if !signed {
				w[i] = bit{}
			}
		}
		return w
	}
	known := func(b bit, v int) bool { return b.t == nil && b.i == v }
	switch t.op {
	case OConv:
		from := typeOfTerm(t.args[0])
		if from == nil || !isIntT(from) || !isIntT(t.typ) {
			return leaf()
		}
		return p.fit(s.bitsOf(t.args[0]), t.typ)
	case OBin:
		x, y := t.args[0], t.args[1]
		shift := func(w word, n int, up bool) word {
			var r word
			top := bit{}
			if !up {
				top = w[63]
			}
			for i := range r {
				j := i + n
				if up {
					j = i - n
				}
				switch {
				case j >= 64:
					r[i] = top
				case j >= 0:
					r[i] = w[j]
				}
			}
			return p.fit(r, t.typ)
		}
		switch t.tok {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			a, b := s.bitsOf(x), s.bitsOf(y)
			var r word
			for i := range r {
				p, q := a[i], b[i]
				if t.tok == token.AND_NOT {
					if q.t != nil {
						if known(p, 0) {
							continue
						}
						return leaf()
					}
					q.i ^= 1
				}
				one := t.tok == token.OR || t.tok == token.XOR
				switch {
				case one && known(p, 0):
					r[i] = q
				case one && known(q, 0):
					r[i] = p
				case t.tok == token.OR && (known(p, 1) || known(q, 1)):
					r[i] = bit{nil, 1}
				case t.tok == token.XOR && p.t == nil && q.t == nil:
					r[i] = bit{nil, p.i ^ q.i}
				case t.tok == token.XOR && p == q:
				case t.tok == token.OR && p == q:
					r[i] = p
				case !one && (known(p, 0) || known(q, 0)):
				case !one && known(p, 1):
					r[i] = q
				case !one && known(q, 1):
					r[i] = p
				case !one && p == q:
					r[i] = p
				default:
					return leaf()
				}
			}
			return p.fit(r, t.typ)
		case token.ADD:
			// without a carry
			a, b := s.bitsOf(x), s.bitsOf(y)
			var r word
			for i := range r {
				switch {
				case known(a[i], 0):
					r[i] = b[i]
				case known(b[i], 0):
					r[i] = a[i]
				default:
					return leaf()
				}
			}
			return p.fit(r, t.typ)
		case token.SHL, token.SHR:
			n, ok := s.rep(y).constInt()
			if !ok || n < 0 {
				return leaf()
			}
			return shift(s.bitsOf(x), int(min(n, 64)), t.tok == token.SHL)
		case token.MUL, token.QUO, token.REM:
			a, c := x, y
			if t.tok == token.MUL && s.rep(x).isConst() {
				a, c = y, x
			}
			n, ok := s.rep(c).constInt()
			if !ok || n <= 0 || n&(n-1) != 0 {
				return leaf()
			}
			k := bits.TrailingZeros64(uint64(n))
			w := s.bitsOf(a)
			if t.tok == token.MUL {
				return shift(w, k, true)
			}
			if !known(w[63], 0) {
				return leaf() // rounds towards zero
			}
			if t.tok == token.QUO {
				return shift(w, k, false)
			}
			for i := k; i < 64; i++ {
				w[i] = bit{}
			}
			return w
		}
	}
	return leaf()
}

// sameBits: two integers have the same bits.
func (s *State) sameBits(x, y *Term) bool {
	if s.same(x, y) {
		return true
	}
	return s.bitsOf(x) == s.bitsOf(y)
}

// foldCall evaluates functions of constants.
func foldCall(name string, args []*Term, rt *types.Tuple) *Term {
	if len(args) != 1 || rt.Len() != 1 || args[0].op != OConst || args[0].val == nil {
		return nil
	}
	v := args[0].val
	integer := func(n int) *Term { return mkConst(constant.MakeInt64(int64(n)), rt.At(0).Type()) }
	if u, ok := constant.Uint64Val(constant.ToInt(v)); ok {
		switch name {
		case "math/bits.Len", "math/bits.Len64", "math/bits.Len32", "math/bits.Len16", "math/bits.Len8":
			return integer(bits.Len64(u))
		case "math/bits.OnesCount", "math/bits.OnesCount64", "math/bits.OnesCount32", "math/bits.OnesCount16", "math/bits.OnesCount8":
			return integer(bits.OnesCount64(u))
		case "math/bits.TrailingZeros", "math/bits.TrailingZeros64", "math/bits.TrailingZeros32":
			if u == 0 && name == "math/bits.TrailingZeros32" {
				return integer(32)
			}
			return integer(bits.TrailingZeros64(u))
		case "math/bits.LeadingZeros64", "math/bits.LeadingZeros":
			return integer(bits.LeadingZeros64(u))
		case "math/bits.LeadingZeros32":
			return integer(bits.LeadingZeros32(uint32(u)))
		case "math.Log2":
			if u != 0 {
				return mkConst(constant.MakeFloat64(math.Log2(float64(u))), rt.At(0).Type())
			}
		}
	}
	return nil
}

// byteOrder executes the fixed size conversions of encoding/binary.
func (e *Engine) byteOrder(fr *frame, s *State, in ssa.Instruction, fn *ssa.Function, args []*Term, rt *types.Tuple) ([]callRes, bool) {
	if fn.Signature.Recv() == nil || len(args) < 2 {
		return nil, false
	}
	recv := strings.ToLower(fn.Signature.Recv().Type().String())
	little := strings.Contains(recv, "little")
	if !little && !strings.Contains(recv, "big") {
		return nil, false
	}
	name := fn.Name()
	size := 0
	for _, n := range []int{16, 32, 64} {
		if strings.HasSuffix(name, strconv.Itoa(n)) {
			size = n / 8
			name = strings.TrimSuffix(name, strconv.Itoa(n))
		}
	}
	if size == 0 {
		return nil, false
	}
	u := types.Typ[map[int]types.BasicKind{2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[size]]
	b := args[1]
	et := elemOf(fn.Signature.Params().At(0).Type())
	byteAt := func(v *Term, i int) *Term {
		k := i
		if !little {
			k = size - 1 - i
		}
		v = e.binop(fr, s, in, token.SHR, v, mkConst(constant.MakeInt64(int64(8*k)), tUint64), u, u)
		return e.convert(s, v, u, et)
	}
	elem := func(i int) *Term {
		if b.op == OSlice {
			return mkIndex(b.args[0], mkInt(int64(b.n+i)))
		}
		return mkIndex(b, mkInt(int64(i)))
	}
	switch name {
	case "Uint", "PutUint":
		if !e.require(s, fr, in, "index out of range", mkNot(mkCmp(token.LSS, s.sliceLen(b), mkInt(int64(size))))) {
			return nil, true
		}
		if name == "PutUint" {
			for i := 0; i < size; i++ {
				s.store(elem(i), byteAt(args[2], i), et)
			}
			return []callRes{{st: s}}, true
		}
		r := mkConst(constant.MakeInt64(0), u)
		for i := 0; i < size; i++ {
			k := i
			if !little {
				k = size - 1 - i
			}
			v := e.convert(s, s.rep(s.load(elem(i), et)), et, u)
			v = e.binop(fr, s, in, token.SHL, v, mkConst(constant.MakeInt64(int64(8*k)), tUint64), u, u)
			r = e.binop(fr, s, in, token.OR, r, v, u, u)
		}
		return []callRes{{st: s, val: r}}, true
	case "AppendUint":
		var ys []*Term
		for i := 0; i < size; i++ {
			ys = append(ys, byteAt(args[2], i))
		}
		t := rt.At(0).Type()
		return []callRes{{st: s, val: e.appendTo(s, b, s.newSlice(ys, et, t), t)}}, true
	}
	return nil, false
}

// bitsDiffer: two integers have a known bit in which they differ.
func (s *State) bitsDiffer(x, y *Term) bool {
	a, b := s.bitsOf(x), s.bitsOf(y)
	for i := range a {
		if a[i].t == nil && b[i].t == nil && a[i].i != b[i].i {
			return true
		}
	}
	return false
}

func bitwise(t *Term) bool {
	for t.op == OConv && len(t.args) == 1 {
		t = t.args[0]
	}
	return t.op == OBin && (t.tok == token.OR || t.tok == token.XOR || t.tok == token.AND || t.tok == token.SHL)
}
