package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Calls whose (first) result is never nil.
var nonNilCalls = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "errors.Join!": true,
}

// Byte lengths of results.
var callLen = map[string]int64{
	"crypto/ed25519.NewKeyFromSeed":      64,
	"(crypto/ed25519.PrivateKey).Public": 32,
}

func callRange(t *Term) ([2]int64, bool) {
	switch t.name {
	case "(*encoding/base64.Encoding).EncodedLen", "(*encoding/base64.Encoding).DecodedLen", "encoding/hex.EncodedLen", "encoding/hex.DecodedLen":
		return [2]int64{0, math.MaxInt64}, true
	case "iradix.Len", "makeslice":
		return [2]int64{0, math.MaxInt64}, true
	case "NextID", "GenerateID":
		return [2]int64{1, 1 << 53}, true
	}
	return [2]int64{}, false
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "bytes": true, "encoding/hex": true, "encoding/base64": true, "math": true, "math/bits": true,
	"path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "reflect": true, "crypto/subtle": true,
	"encoding/binary": true, "html": true, "net/url": true, "cmp": true, "regexp": true,
}

func pkgOf(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func shortName(name string) string {
	r := name
	r = strings.ReplaceAll(r, "golang.org/x/exp/", "")
	r = strings.ReplaceAll(r, "github.com/hashicorp/go-immutable-radix/v2", "iradix")
	return r
}

func elemSym(t types.Type) *Term { return intern(Term{op: OSym, name: "elem", typ: t}) }

// model executes a function of another module.
func (e *Engine) model(fr *frame, s *State, in ssa.Instruction, fn *ssa.Function, full string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
	name := shortName(full)
	one := func(t *Term) ([]callRes, bool) { return []callRes{{st: s, val: t}}, true }
	pos := e.pos(in)
	event := func(n string) {
		s.emit(Event{Kind: EvCall, Name: n, Args: args, Pos: pos, Fn: fr.fn})
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		if s.locks[args[0]] != 0 {
			e.badLock(s, fr, pos, "lock taken again while it is held", args[0])
			return nil, true
		}
		s.lockN[args[0]]++
		s.locks[args[0]] = 1000
		s.emit(Event{Kind: EvLock, Addr: args[0], Write: true, Pos: pos, Fn: fr.fn})
		return one(nil)
	case "(*sync.RWMutex).RLock":
		if s.locks[args[0]] >= 1000 {
			e.badLock(s, fr, pos, "lock taken again while it is held", args[0])
			return nil, true
		}
		s.lockN[args[0]]++
		s.locks[args[0]]++
		s.emit(Event{Kind: EvLock, Addr: args[0], Pos: pos, Fn: fr.fn})
		return one(nil)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		if s.locks[args[0]] < 1000 {
			e.badLock(s, fr, pos, "unlock of a lock that is not held", args[0])
			return nil, true
		}
		delete(s.locks, args[0])
		s.emit(Event{Kind: EvUnlock, Addr: args[0], Write: true, Pos: pos, Fn: fr.fn})
		return one(nil)
	case "(*sync.RWMutex).RUnlock":
		if n := s.locks[args[0]]; n == 0 || n >= 1000 {
			e.badLock(s, fr, pos, "unlock of a lock that is not held", args[0])
			return nil, true
		}
		s.locks[args[0]]--
		if s.locks[args[0]] == 0 {
			delete(s.locks, args[0])
		}
		s.emit(Event{Kind: EvUnlock, Addr: args[0], Pos: pos, Fn: fr.fn})
		return one(nil)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		if s.locks[args[0]] != 0 {
			return one(mkBool(false))
		}
		s2 := s.clone()
		s.lockN[args[0]]++
		s.locks[args[0]] = 1000
		return []callRes{{st: s, val: mkBool(true)}, {st: s2, val: mkBool(false)}}, true
	case "(*sync.Once).Do":
		return e.callTerm2(fr, s, in, args[1], nil), true
	case "(*sync.Map).Load":
		var r []callRes
		for _, l := range s.lookup(args[0], syncKey(args[1]), rt.At(0).Type()) {
			l.st.emit(Event{Kind: EvMapLoad, Addr: args[0], Key: syncKey(args[1]), Pos: pos, Fn: fr.fn})
			r = append(r, callRes{st: l.st, val: mkTuple([]*Term{e.syncVal(l.st, args[0], l), l.has})})
		}
		return r, true
	case "(*sync.Map).LoadAndDelete":
		var r []callRes
		for _, l := range s.lookup(args[0], syncKey(args[1]), rt.At(0).Type()) {
			v := e.syncVal(l.st, args[0], l)
			l.st.mapWrite(args[0], mapUpd{key: syncKey(args[1]), del: true})
			l.st.emit(Event{Kind: EvMapDel, Name: "tested", Addr: args[0], Key: syncKey(args[1]), Pos: pos, Fn: fr.fn})
			r = append(r, callRes{st: l.st, val: mkTuple([]*Term{v, l.has})})
		}
		return r, true
	case "(*sync.Map).Delete":
		s.mapWrite(args[0], mapUpd{key: syncKey(args[1]), del: true})
		s.emit(Event{Kind: EvMapDel, Addr: args[0], Key: syncKey(args[1]), Pos: pos, Fn: fr.fn})
		return one(nil)
	case "(*sync.Map).Store":
		s.mapWrite(args[0], mapUpd{key: syncKey(args[1]), val: args[2]})
		s.emit(Event{Kind: EvMapSet, Addr: args[0], Key: syncKey(args[1]), Val: args[2], Pos: pos, Fn: fr.fn})
		return one(nil)
	case "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
		var r []callRes
		for _, l := range s.lookup(args[0], syncKey(args[1]), rt.At(0).Type()) {
			for _, b := range l.st.split(l.has) {
				v := args[2]
				if b.v {
					v = e.syncVal(b.st, args[0], l)
				}
				if !b.v || strings.HasSuffix(name, "Swap") {
					b.st.mapWrite(args[0], mapUpd{key: syncKey(args[1]), val: args[2]})
					b.st.emit(Event{Kind: EvMapSet, Name: "tested", Addr: args[0], Key: syncKey(args[1]), Val: args[2], Pos: pos, Fn: fr.fn})
				} else {
					b.st.emit(Event{Kind: EvMapLoad, Addr: args[0], Key: syncKey(args[1]), Pos: pos, Fn: fr.fn})
				}
				if strings.HasSuffix(name, "Swap") && !b.v {
					v = mkNil()
				}
				r = append(r, callRes{st: b.st, val: mkTuple([]*Term{v, mkBool(b.v)})})
			}
		}
		return r, true
	case "(*sync.Map).Clear":
		ver := s.mapSt(args[0]).ver
		s.mapWrite(args[0], mapUpd{key: mkSym("any", nil), del: true})
		s.maps[args[0]] = &MapSt{known: true, ver: ver}
		event(name)
		return one(nil)
	case "(*sync.Map).Range":
		// no round, or one with an arbitrary entry
		event(name)
		r := []callRes{{st: s.clone()}}
		key := mkSym("key"+itoa(newSerial()), anyType())
		k := key
		if t := e.p.syncKeys[syncOwner(args[0])]; t != nil {
			key = mkSym("key"+itoa(newSerial()), t)
			k = mkIface(t, key)
		}
		for _, l := range s.lookup(args[0], key, anyType()) {
			if v, ok := l.st.decide(l.has); ok && !v || !ok && !l.st.assume(l.has, true) {
				continue
			}
			for _, o := range e.callTerm2(fr, l.st, in, args[1], []*Term{k, e.syncVal(l.st, args[0], l)}) {
				o.st.emit(Event{Kind: EvCall, Name: name + ":round", Val: o.val, Pos: pos, Fn: fr.fn})
				r = append(r, callRes{st: o.st})
			}
		}
		return r, true
	case "errors.New", "fmt.Errorf":
		return one(mkCall(name, newSerial(), rt.At(0).Type(), args...))
	case "errors.Join":
		if es, ok := s.elems(args[0]); ok {
			some := false
			for _, x := range es {
				if v, ok := s.decide(mkCmp(token.EQL, x, mkNil())); ok && !v {
					some = true
				} else if !ok {
					return one(mkCall("errors.Join", newSerial(), rt.At(0).Type(), args...))
				}
			}
			if some {
				return one(mkCall("errors.Join!", newSerial(), rt.At(0).Type(), args...))
			}
			return one(mkNil())
		}
		return one(mkCall("errors.Join", newSerial(), rt.At(0).Type(), args...))
	case "(reflect.Value).Kind":
		v := s.rep(args[0])
		if v.op != OCall || v.name != "reflect.ValueOf" {
			break
		}
		x := s.rep(v.args[0])
		k := s.rep(pureCall(name, []*Term{v}, rt))
		if e.kinds == nil {
			e.kinds = map[*Term]*Term{}
		}
		e.kinds[x] = k
		if t := s.dyn[x]; t != nil && kindConst(t, k.typ) != nil {
			return one(kindConst(t, k.typ))
		}
		if x.op == OIface && kindConst(x.typ, k.typ) != nil {
			return one(kindConst(x.typ, k.typ))
		}
		return one(k)
	case "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Float":
		v := s.rep(args[0])
		if v.op != OCall || v.name != "reflect.ValueOf" {
			break
		}
		x := s.rep(v.args[0])
		to := rt.At(0).Type()
		fits := func(t types.Type) bool {
			b, ok := under(t).(*types.Basic)
			if !ok || name == "(reflect.Value).Float" {
				return ok && b.Info()&types.IsFloat != 0
			}
			return b.Info()&types.IsInteger != 0 && (b.Info()&types.IsUnsigned != 0) == (name == "(reflect.Value).Uint")
		}
		if x.op == OIface {
			if !fits(x.typ) {
				e.require(s, fr, in, "reflect.Value of another kind", mkBool(false))
				return nil, true
			}
			return one(e.convert(s, x.args[0], x.typ, to))
		}
		other := false
		for k := types.Int; k <= types.Float64; k++ {
			t := types.Typ[k]
			if s.truth(mkAssertOK(x, t)) != yes {
				continue
			}
			if fits(t) {
				return one(e.convert(s, mkAssert(x, t), t, to))
			}
			other = true
		}
		asked := false // about the kind
		for f := range s.facts {
			asked = asked || mentions(f, v)
		}
		if other || !asked {
			e.require(s, fr, in, "reflect.Value of a kind that is not known", mkBool(false))
			return nil, true
		}
	case "errors.Is", "errors.As", "errors.Unwrap":
		return one(pureCall(name, s.contents(args), rt))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one(mkCall(name, newSerial(), rt.At(0).Type(), args...))
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "log.Printf", "log.Println", "log.Print":
		if rt.Len() == 0 {
			return one(nil)
		}
		return one(mkCall(name, newSerial(), nil))
	case "slices.DeleteFunc":
		x := args[0]
		if x.isNil() {
			return one(x)
		}
		et := elemOf(fn.Signature.Params().At(0).Type())
		if et == nil {
			et = elemOf(typeOfTerm(x))
		}
		el := elemSym(et)
		p := e.predicate(fr, s, in, args[1], el)
		if p == nil {
			return one(mkCall(name, newSerial(), rt.At(0).Type(), args...))
		}
		return one(intern(Term{op: OFilter, args: []*Term{x, el, p}, typ: rt.At(0).Type()}))
	case "slices.ContainsFunc", "slices.IndexFunc":
		et := elemOf(fn.Signature.Params().At(0).Type())
		el := elemSym(et)
		p := e.predicate(fr, s, in, args[1], el)
		if p == nil {
			return one(mkCall(name, newSerial(), rt.At(0).Type(), args...))
		}
		if name == "slices.ContainsFunc" {
			if p.op == OBin && p.tok == token.EQL && p.args[0] == el && !p.args[1].contains(el) {
				return one(s.rep(mkCall("slices.Contains", 0, tBool, args[0], p.args[1])))
			}
			if p.op == OBin && p.tok == token.EQL && p.args[1] == el && !p.args[0].contains(el) {
				return one(s.rep(mkCall("slices.Contains", 0, tBool, args[0], p.args[0])))
			}
			return one(s.rep(mkCall(name, 0, tBool, args[0], el, p)))
		}
		if p.op == OBin && p.tok == token.EQL && (p.args[0] == el || p.args[1] == el) {
			y := p.args[1]
			if y == el {
				y = p.args[0]
			}
			return e.indexOf(s, args[0], y), true
		}
		r := mkCall(name, newSerial(), tInt, args[0], el, p)
		s.assume(mkCmp(token.LSS, r, mkInt(-1)), false)
		s.assume(mkCmp(token.LSS, r, s.sliceLen(args[0])), true)
		return one(r)
	case "slices.Contains":
		if es, ok := s.elems(args[0]); ok {
			// known elements
			cur := []callRes{{st: s, val: mkBool(false)}}
			for _, x := range es {
				var next []callRes
				for _, c := range cur {
					if b, _ := c.val.constBool(); b {
						next = append(next, c)
						continue
					}
					for _, br := range c.st.split(e.equal(c.st, x, args[1], nil)) {
						next = append(next, callRes{st: br.st, val: mkBool(br.v)})
					}
				}
				cur = next
			}
			return cur, true
		}
		return one(s.rep(mkCall("slices.Contains", 0, tBool, args...)))
	case "slices.Index":
		return e.indexOf(s, args[0], args[1]), true
	case "slices.Delete":
		x, i, j := args[0], s.norm(args[1]), s.norm(args[2])
		if !e.sliceBounds(s, fr, in, i, j, s.sliceLen(x)) {
			return nil, true
		}
		a := intern(Term{op: OSub, args: []*Term{x, mkInt(0), i}, typ: rt.At(0).Type()})
		b := intern(Term{op: OSub, args: []*Term{x, j, mkNil()}, typ: rt.At(0).Type()})
		return one(intern(Term{op: OAppend, args: []*Term{a, b}, typ: rt.At(0).Type()}))
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable":
		e.scramble(fr, s, in, args[0], permuted)
		return one(nil)
	case "math/rand.Shuffle", "math/rand/v2.Shuffle", "rand.Shuffle", "(*math/rand.Rand).Shuffle", "(*rand.Rand).Shuffle", "(*math/rand/v2.Rand).Shuffle":
		event(name)
		return e.shuffle(fr, s, in, args[len(args)-2], args[len(args)-1]), true
	case "slices.Clone":
		if es, ok := s.elems(args[0]); ok && !args[0].isNil() {
			return one(s.newSlice(es, elemOf(rt.At(0).Type()), rt.At(0).Type()))
		}
		return one(mkCall(name, 0, rt.At(0).Type(), args...))
	case "slices.Equal", "slices.Max", "slices.Min", "bytes.Equal":
		return one(s.rep(pureCall(name, s.contents(args), rt)))
	case "maps.Clone":
		m := args[0]
		e.access(s, fr, in, m, mapClass(m), false)
		if m.isNil() {
			return one(m)
		}
		n := intern(Term{op: OMapNew, typ: rt.At(0).Type(), n: newSerial()})
		if ks, ok := s.sortedKeys(m); ok {
			for _, k := range ks {
				for _, l := range s.lookup(m, k, elemOf(typeOfTerm(m))) {
					s.mapUpdate(n, mapUpd{key: k, val: l.val})
				}
			}
		} else {
			s.maps[n] = &MapSt{ver: newSerial()}
			s.emit(Event{Kind: EvCall, Name: "maps.Clone", Args: []*Term{m}, Val: n, Pos: pos, Fn: fr.fn})
		}
		return one(n)
	case "maps.Copy":
		e.access(s, fr, in, args[0], mapClass(args[0]), true)
		e.access(s, fr, in, args[1], mapClass(args[1]), false)
		if ks, ok := s.sortedKeys(args[1]); ok {
			for _, k := range ks {
				for _, l := range s.lookup(args[1], k, elemOf(typeOfTerm(args[1]))) {
					s.mapWrite(args[0], mapUpd{key: k, val: l.val})
					s.emit(Event{Kind: EvMapSet, Addr: args[0], Key: k, Val: l.val, Pos: pos, Fn: fr.fn})
				}
			}
			return one(nil)
		}
		s.mapWrite(args[0], mapUpd{key: mkSym("key", nil), val: mkSym("val", nil)})
		s.maps[args[0]] = &MapSt{ver: newSerial()}
		s.emit(Event{Kind: EvMapSet, Addr: args[0], Key: mkSym("any", nil), Val: mkSym("any", nil), Pos: pos, Fn: fr.fn})
		return one(nil)
	case "maps.Keys", "maps.Values":
		e.access(s, fr, in, args[0], mapClass(args[0]), false)
		pre := s.clone()
		event(name)
		s.events.ev.Pre = pre
		s.events.ev.Val = mkCall(name, newSerial(), rt.At(0).Type(), args...)
		return one(s.events.ev.Val)
	case "(*iradix.Tree).Insert":
		t := mkCall("iradix.Insert", 0, rt.At(0).Type(), args...)
		e.nonNilTerm(t)
		if !e.require(s, fr, in, "nil stored in a tree where nothing nil is expected", mkNot(mkCmp(token.EQL, args[2], mkNil()))) {
			return nil, true
		}
		return one(mkTuple([]*Term{t, mkCall("iradix.Old", 0, rt.At(1).Type(), args...), mkCall("iradix.Updated", 0, tBool, args...)}))
	case "(*iradix.Tree).Delete":
		t := mkCall("iradix.Delete", 0, rt.At(0).Type(), args...)
		e.nonNilTerm(t)
		return one(mkTuple([]*Term{t, mkCall("iradix.Old", 0, rt.At(1).Type(), args...), mkCall("iradix.Updated", 0, tBool, args...)}))
	case "(*iradix.Tree).Len":
		if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, args[0], mkNil()))) {
			return nil, true
		}
		return one(s.rep(mkCall("iradix.Len", 0, tInt, args...)))
	case "(*iradix.Tree).Root":
		if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, args[0], mkNil()))) {
			return nil, true
		}
		t := mkCall("iradix.Root", 0, rt.At(0).Type(), args...)
		e.nonNilTerm(t)
		return one(t)
	case "(*iradix.Node).LongestPrefix", "(*iradix.Node).Get", "(*iradix.Tree).Get":
		c := mkCall(strings.TrimPrefix(strings.TrimPrefix(name, "(*iradix.Node)."), "(*iradix.Tree)."), 0, nil, args...)
		n := rt.Len()
		ok := mkExtract(c, n-1, tBool)
		var r []callRes
		for _, b := range s.split(ok) {
			var ts []*Term
			for i := 0; i < n-1; i++ {
				x := mkExtract(c, i, rt.At(i).Type())
				if b.v {
					if i == n-2 {
						e.nonNilTerm(x)
					}
					ts = append(ts, x)
				} else {
					ts = append(ts, zero(rt.At(i).Type()))
				}
			}
			ts = append(ts, mkBool(b.v))
			r = append(r, callRes{st: b.st, val: mkTuple(ts)})
		}
		return r, true
	case "iradix.New":
		t := mkCall("iradix.New", newSerial(), rt.At(0).Type())
		e.nonNilTerm(t)
		return one(t)
	case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "math/rand/v2.Int64N", "math/rand/v2.N", "math/rand/v2.Uint64N",
		"rand.Intn", "rand.Int63n", "rand.Int31n", "rand.Uint64n",
		"(*math/rand.Rand).Intn", "(*math/rand.Rand).Int63n", "(*rand.Rand).Intn", "(*rand.Rand).Int63n", "(*math/rand/v2.Rand).IntN":
		n := s.norm(args[len(args)-1])
		if !e.require(s, fr, in, "random number below a bound that is not positive", mkCmp(token.LSS, mkConst(constant.MakeInt64(0), typeOrInt(n)), n)) {
			return nil, true
		}
		event(name)
		r := mkCall("random", newSerial(), rt.At(0).Type(), n)
		s.assume(mkCmp(token.LSS, r, mkConst(constant.MakeInt64(0), rt.At(0).Type())), false)
		s.assume(mkCmp(token.LSS, r, n), true)
		return one(r)
	case "math/rand.Seed", "rand.Seed":
		event(name)
		return one(nil)
	case "crypto/ed25519.NewKeyFromSeed":
		if !e.require(s, fr, in, "ed25519 seed of a length other than 32", mkCmp(token.EQL, s.sliceLen(args[0]), mkInt(32))) {
			return nil, true
		}
		return one(pureCall(name, s.contents(args), rt))
	case "(crypto/ed25519.PrivateKey).Public":
		var pk types.Type
		if fn.Pkg != nil {
			if o := fn.Pkg.Pkg.Scope().Lookup("PublicKey"); o != nil {
				pk = o.Type()
			}
		}
		if pk != nil {
			return one(mkIface(pk, mkCall(name, 0, pk, args...)))
		}
		return one(pureCall(name, s.contents(args), rt))
	case "crypto/ed25519.Verify":
		if !e.require(s, fr, in, "ed25519 public key of a length other than 32", mkCmp(token.EQL, s.sliceLen(args[0]), mkInt(32))) {
			return nil, true
		}
		return one(s.rep(pureCall(name, s.contents(args), rt)))
	case "crypto/ed25519.Sign", "crypto/hmac.Equal", "crypto/sha256.Sum256":
		return one(s.rep(pureCall(name, s.contents(args), rt)))
	case "golang.org/x/crypto/pbkdf2.Key":
		event(name)
		if !e.require(s, fr, in, "negative pbkdf2 key length", mkNot(mkCmp(token.LSS, s.norm(args[3]), mkInt(0)))) {
			return nil, true
		}
		e.demand(s, fr, in, "pbkdf2 key length without a bound", s.boundedLen(s.norm(args[3])))
		return one(pureCall(name, s.contents(args), rt))
	case "strings.Repeat", "bytes.Repeat":
		if !e.require(s, fr, in, "negative repeat count", mkNot(mkCmp(token.LSS, s.norm(args[1]), mkInt(0)))) {
			return nil, true
		}
		e.demand(s, fr, in, "repeat count without a bound", s.boundedLen(s.norm(args[1])))
		return one(s.rep(pureCall(name, s.contents(args), rt)))
	case "golang.org/x/crypto/nacl/sign.Open":
		event(name)
		// the key is passed by address: keep what it holds
		a := append([]*Term(nil), args...)
		if a[2].op == OAlloc {
			a[2] = s.load(a[2], addrElem(a[2]))
		}
		return one(mkCall(name, 0, nil, a[1:]...))
	case "golang.org/x/crypto/nacl/sign.Sign":
		return one(mkCall(name, newSerial(), rt.At(0).Type(), args...))
	case "crypto/hmac.New":
		h := mkCall(name, newSerial(), rt.At(0).Type(), args...)
		e.nonNilTerm(h)
		return one(h)
	case "encoding/json.Unmarshal", "github.com/vmihailenco/msgpack/v5.Unmarshal", "github.com/fxamacker/cbor/v2.Unmarshal":
		return e.unmarshal(s, name, args[0], args[1], rt), true
	case "encoding/json.Marshal", "github.com/vmihailenco/msgpack/v5.Marshal", "github.com/fxamacker/cbor/v2.Marshal", "encoding/json.MarshalIndent":
		event(name)
		s.events.ev.Pre = s.clone()
		c := mkCall(name, newSerial(), nil, args...)
		s.events.ev.Val = c
		return one(c)
	case "time.Now", "time.Since":
		event(name)
		return one(mkCall(name, newSerial(), rt.At(0).Type(), args...))
	}
	if r, ok := e.streams(fr, s, in, name, args, rt); ok {
		return r, true
	}
	if r, ok := e.encodeInto(s, fn, name, args); ok {
		return one(r)
	}
	if r, ok := e.builder(fr, s, in, name, args, rt); ok {
		return r, true
	}
	p := pkgOf(fn)
	if p == "sync/atomic" {
		if r, ok := e.atomic(fr, s, in, fn, args, rt); ok {
			return r, true
		}
	}
	if fn.Name() == "init" {
		return one(nil)
	}
	if c := foldCall(name, args, rt); c != nil {
		return one(c)
	}
	if p == "encoding/binary" {
		if r, ok := e.byteOrder(fr, s, in, fn, args, rt); ok {
			return r, true
		}
	}
	if purePkgs[p] || purePkgs[strings.TrimPrefix(p, "golang.org/x/exp/")] || p == "time" {
		// methods with pointer receivers (builders, readers) have state
		if fn.Signature.Recv() == nil || p == "time" || p == "encoding/base64" || p == "reflect" || p == "encoding/binary" {
			if rt.Len() == 0 {
				for _, a := range args {
					e.clobber(s, a, name)
				}
				return one(nil)
			}
			return one(s.rep(pureCall(name, s.contents(args), rt)))
		}
	}
	return nil, false
}

// encodeInto gives the encodings into a buffer of the right length, and behind a slice, their values.
func (e *Engine) encodeInto(s *State, fn *ssa.Function, name string, args []*Term) (*Term, bool) {
	var text string
	switch name {
	case "(*encoding/base64.Encoding).Encode", "(*encoding/base64.Encoding).AppendEncode":
		text = "(*encoding/base64.Encoding).EncodeToString"
	case "encoding/hex.Encode", "encoding/hex.AppendEncode":
		text = "encoding/hex.EncodeToString"
	default:
		return nil, false
	}
	dst, src := args[len(args)-2], args[len(args)-1]
	bytes := fn.Signature.Params().At(0).Type()
	ta := append(append([]*Term(nil), args[:len(args)-2]...), s.content(src))
	val := e.convert(s, mkCall(text, 0, tString, ta...), tString, bytes)
	if strings.HasSuffix(name, "AppendEncode") {
		return e.appendTo(s, dst, val, bytes), true
	}
	n := s.sliceLen(src)
	var want []*Term
	if strings.Contains(name, "base64") {
		want = append(want, mkCall("(*encoding/base64.Encoding).EncodedLen", 0, tInt, args[0], n))
	} else {
		want = append(want, mkCall("encoding/hex.EncodedLen", 0, tInt, n), mkBin(token.MUL, n, mkInt(2), tInt))
	}
	r := s.rep(dst)
	fits := false
	for _, w := range want {
		fits = fits || r.op == OCall && r.name == "makeslice" && s.same(r.args[0], s.rep(w))
	}
	if fits {
		s.eqv[r] = val
	} else {
		e.clobber(s, dst, name)
	}
	if fn.Signature.Results().Len() == 0 {
		return nil, true
	}
	return s.sliceLen(val), true
}

// permuted names a store that puts an element of a list at another place of it.
const permuted = "permuted"

// scramble changes the elements of a list in place.
func (e *Engine) scramble(fr *frame, s *State, in ssa.Instruction, x *Term, how string) {
	x = s.rep(unbox(x))
	if es, ok := s.elems(x); ok && (len(es) == 0 || len(es) == 1 && how == permuted) {
		return
	}
	for x.op == OSub {
		x = s.rep(x.args[0])
	}
	if x.op == OSlice {
		x = x.args[0]
	}
	et := elemOf(typeOfTerm(x))
	if x.op == OAlloc {
		et = elemOf(addrElem(x))
	}
	if et == nil {
		return
	}
	at := mkIndex(x, mkSym("any"+itoa(newSerial()), tInt))
	e.access(s, fr, in, at, class(at), true)
	for a := range s.mem {
		if y := a; y.op == OIndex && y.args[0] == x {
			s.mem[a] = mkCall(how, newSerial(), et, x)
		}
	}
	s.wrote("E:"+typeKey(et), nil, newSerial())
	s.emit(Event{Kind: EvStore, Name: how, Addr: at, Val: mkCall(how, newSerial(), et, x), Pos: e.pos(in), Fn: fr.fn})
}

// shuffle runs the function that swaps two elements once, for any two.
func (e *Engine) shuffle(fr *frame, s *State, in ssa.Instruction, n, swap *Term) []callRes {
	r := []callRes{{st: s.clone()}}
	i, j := mkSym("i"+itoa(newSerial()), tInt), mkSym("j"+itoa(newSerial()), tInt)
	for _, x := range []*Term{i, j} {
		s.assume(mkCmp(token.LSS, x, mkInt(0)), false)
		s.assume(mkCmp(token.LSS, x, s.norm(n)), true)
	}
	return append(r, e.callTerm2(fr, s, in, swap, []*Term{i, j})...)
}

// walk shows every event of a path, those of one round of its loops included.
func walk(st *State, mark int, f func(ev *Event, st *State, l *LoopAct)) {
	seen := map[*LoopAct]bool{}
	var rec func(st *State, mark int, in *LoopAct)
	rec = func(st *State, mark int, in *LoopAct) {
		evs := st.Events(mark)
		for i := range evs {
			f(&evs[i], st, in)
			if l := evs[i].Loop; evs[i].Kind == EvLoop && l != nil && !seen[l] {
				seen[l] = true
				for _, b := range l.Backs {
					rec(b.St, b.Mark, l)
				}
			}
		}
	}
	rec(st, mark, nil)
}

// elementStores lists the stores into the elements of a list that do more than swap two of them.
func elementStores(st *State, lists func(t *Term) bool, swaps bool) []*Event {
	type store struct {
		ev *Event
		st *State
		ok bool
	}
	var all []*store
	walk(st, 0, func(ev *Event, st *State, _ *LoopAct) {
		if ev.Kind != EvStore || ev.Addr == nil || ev.Addr.op != OIndex {
			return
		}
		b := ev.Addr.args[0]
		for b.op == OSub {
			b = b.args[0]
		}
		if lists(b) {
			all = append(all, &store{ev: ev, st: st, ok: swaps && ev.Name == permuted})
		}
	})
	if swaps {
		from := func(s *store, at *Term) bool {
			return s.ev.Val != nil && s.ev.Val.op == OInit && s.ev.Val.args[0] == at
		}
		for i := 0; i+1 < len(all); i++ {
			if from(all[i], all[i+1].ev.Addr) && from(all[i+1], all[i].ev.Addr) {
				all[i].ok, all[i+1].ok = true, true
			}
		}
	}
	var r []*Event
	for _, s := range all {
		if !s.ok {
			r = append(r, s.ev)
		}
	}
	return r
}

// collection describes a list that was filled with the keys, or the values, of a map.
type collection struct {
	m    *Term
	at   *State // when it was filled
	vals bool   // values, not keys

	picks, skips []*LoopBack // the rounds that took an element, and those that did not
}

// selection: x lists some keys or values of a map, and which.
func (st *State) selection(x *Term) *collection {
	c, _ := st.listed(x, true)
	return c
}

// collection: x lists the keys or the values of a map; why not otherwise.
func (st *State) collection(x *Term) (*collection, string) { return st.listed(x, false) }

func (st *State) listed(x *Term, some bool) (*collection, string) {
	if x.op == OCall && (strings.HasSuffix(x.name, "slices.Collect") || x.name == "slices.Clone" || strings.HasSuffix(x.name, "slices.Sorted")) {
		return st.listed(st.rep(x.args[0]), some)
	}
	if x.op == OCall && (strings.HasSuffix(x.name, "maps.Keys") || strings.HasSuffix(x.name, "maps.Values")) {
		c := &collection{m: x.args[0], vals: strings.HasSuffix(x.name, "Values")}
		for _, ev := range st.Events(0) {
			if ev.Kind == EvCall && ev.Val == x {
				c.at = ev.Pre
			}
		}
		return c, ""
	}
	done := func(l *LoopAct) string {
		r := "the loop that fills the list was not followed to its end"
		for _, e := range st.Events(0) {
			if e.Kind == EvLoop && e.Loop == l {
				switch e.Name {
				case "done":
					r = ""
				case "break":
					return "the loop that fills the list can stop early"
				}
			}
		}
		return r
	}
	seenVals := false
	isElem := func(bs *State, l *LoopAct, t *Term) bool {
		t = bs.rep(t)
		if t.op == OKey && t.args[0] == l.Range {
			return true
		}
		seenVals = t.op == OMGet && t.args[0] == l.Range && t.args[1].op == OKey
		return seenVals
	}
	from := func(l *LoopAct) (*collection, string) {
		if why := done(l); why != "" {
			return nil, why
		}
		c := &collection{m: l.Range, at: l.Entry, vals: seenVals}
		if !l.keepsMap() {
			c.at = nil
		}
		return c, ""
	}
	if x.op == OCall && x.name == "makeslice" {
		// filled by index
		for _, e := range st.Events(0) {
			if e.Kind != EvLoop || e.Loop == nil || e.Loop.Range == nil || e.Name != "done" {
				continue
			}
			l := e.Loop
			if !st.same(x.args[0], st.rep(mkLen(l.Range, 0))) || len(l.Backs) == 0 {
				continue
			}
			all := true
			for _, b := range l.Backs {
				n := 0
				for _, be := range b.St.Events(b.Mark) {
					if be.Kind == EvStore && be.Addr.op == OIndex && be.Addr.args[0] == x && isElem(b.St, l, be.Val) {
						for i, ph := range l.Phis {
							if be.Addr.args[1] == ph.Sym && b.Next[i] == mkAdd(ph.Sym, 1, tInt) {
								if c, ok := ph.Init.constInt(); ok && c == 0 {
									n++
								}
							}
						}
					}
				}
				all = all && n == 1
			}
			if all {
				return from(l)
			}
		}
		return nil, "the way the list is filled is not known"
	}
	lv := st.loopOf[x]
	if lv == nil {
		if es, ok := st.elems(x); ok && len(es) == 0 {
			return nil, "the list is empty"
		}
		return nil, "the list is not filled from a complete map"
	}
	l := lv.Loop
	if l.Range == nil {
		return nil, "the list is filled by a loop over something else than a map"
	}
	if es, ok := l.Entry.elems(lv.Init); !ok || len(es) != 0 {
		return nil, "the list is not empty before the loop"
	}
	var picks, skips []*LoopBack
	for i := range l.Backs {
		b := &l.Backs[i]
		var next *Term
		if lv.Phi != nil {
			for i, ph := range l.Phis {
				if ph.Phi == lv.Phi {
					next = b.Next[i]
				}
			}
		} else {
			next = b.St.rep(b.St.load(lv.Addr, lv.Init.typ))
		}
		if next != nil && some {
			if old := b.St.loopOf[next]; old != nil && old.Loop == l && old.Phi == lv.Phi && old.Addr == lv.Addr {
				skips = append(skips, b)
				continue
			}
		}
		if next == nil || next.op != OAppend {
			return nil, "the loop that fills the list leaves elements out"
		}
		lv2 := b.St.loopOf[next.args[0]]
		if lv2 == nil || lv2.Loop != l || lv2.Phi != lv.Phi || lv2.Addr != lv.Addr {
			return nil, "the loop does not extend the list"
		}
		es, ok := b.St.elems(next.args[1])
		if !ok || len(es) != 1 || !isElem(b.St, l, es[0]) {
			return nil, "the loop adds something else than one element of the map"
		}
		picks = append(picks, b)
	}
	if len(l.Backs) == 0 || len(picks) == 0 {
		return nil, "the loop adds nothing"
	}
	c, why := from(l)
	if c != nil {
		c.picks, c.skips = picks, skips
	}
	return c, why
}

// keepsMap: the rounds of a loop over a map leave it as it is.
func (l *LoopAct) keepsMap() bool {
	ms := l.Entry.mapSt(l.Range)
	for _, b := range l.Backs {
		if x := b.St.mapSt(l.Range); x.ver != ms.ver || x.known != ms.known || len(x.log) != len(ms.log) {
			return false
		}
	}
	return true
}

func typeOrInt(t *Term) types.Type {
	if x := typeOfTerm(t); x != nil {
		return x
	}
	return tInt
}

func (e *Engine) nonNilTerm(t *Term) { e.nonNil[t] = true }

func (e *Engine) unmarshal(s *State, name string, data, ptr *Term, rt *types.Tuple) []callRes {
	if ptr.op == OIface {
		ptr = ptr.args[0]
	}
	if e.decodeHook != nil {
		if r, ok := e.decodeHook(s, name, data, ptr, rt); ok {
			return r
		}
	}
	n := newSerial()
	if et := addrElem(ptr); et != nil {
		s.store(ptr, mkCall("decoded:"+name, n, et, data), et)
	}
	s.emit(Event{Kind: EvCall, Name: name, Args: []*Term{data, ptr}})
	return []callRes{{st: s, val: mkCall("err:"+name, n, rt.At(0).Type(), data)}}
}

func (e *Engine) indexOf(s *State, x, y *Term) []callRes {
	c := mkCall("slices.Contains", 0, tBool, x, y)
	var r []callRes
	for _, b := range s.split(c) {
		if !b.v {
			r = append(r, callRes{st: b.st, val: mkInt(-1)})
			continue
		}
		i := mkCall("slices.Index", 0, tInt, x, y)
		b.st.assume(mkCmp(token.LSS, i, mkInt(0)), false)
		b.st.assume(mkCmp(token.LSS, i, b.st.sliceLen(x)), true)
		r = append(r, callRes{st: b.st, val: i})
	}
	return r
}

// predicate evaluates a function on one unknown element, if it has one result and no effects.
func (e *Engine) predicate(fr *frame, s *State, in ssa.Instruction, fn *Term, el *Term) *Term {
	st := s.clone()
	m := st.mark()
	res := e.callTerm2(fr, st, in, fn, []*Term{el})
	// several outcomes: a disjunction over the facts is not built, only one decided difference
	if len(res) == 1 && res[0].st.mark() == m {
		return res[0].val
	}
	if len(res) == 2 {
		// cond ? true : false
		a, ok1 := res[0].val.constBool()
		b, ok2 := res[1].val.constBool()
		if ok1 && ok2 && a != b {
			t := res[0].st
			if b {
				t = res[1].st
			}
			for f, v := range t.facts {
				if _, had := s.facts[f]; !had && f.contains(el) {
					if v {
						return f
					}
					return mkNot(f)
				}
			}
		}
	}
	return nil
}

func (e *Engine) callTerm2(fr *frame, s *State, in ssa.Instruction, fn *Term, args []*Term) []callRes {
	var sig *types.Signature
	switch fn.op {
	case OFunc:
		sig = fn.fn.Signature
		return e.callStatic(fr, s, in, fn.fn, args, nil, sig.Results())
	case OClosure:
		sig = fn.fn.Signature
		return e.callStatic(fr, s, in, fn.fn, args, fn.args, sig.Results())
	}
	return []callRes{{st: s, val: mkSym("dynamic", nil)}}
}

func syncKey(k *Term) *Term {
	if k.op == OIface {
		return k.args[0]
	}
	return k
}

// syncVal types a value read from a sync.Map by what the module stores in that map.
func (e *Engine) syncVal(s *State, m *Term, l lookupRes) *Term {
	v := s.rep(l.val)
	if v.op == OMGet {
		if t := e.p.syncTypes[syncOwner(m)]; t != nil {
			return mkIface(t, mkAssert(v, t))
		}
	}
	return v
}

func syncOwner(m *Term) string {
	if m.op == OField {
		return typeKey(addrElem(m.args[0])) + "." + itoa(m.n)
	}
	return ""
}

// invokeModel executes a method of an interface value of another module.
func (e *Engine) invokeModel(fr *frame, s *State, in ssa.Instruction, recv *Term, method string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
	if recv.op == OCall && recv.name == "crypto/hmac.New" {
		data := mkField(recv, 0)
		cur := s.mem[data]
		if cur == nil {
			cur = mkTuple(nil)
		}
		switch method {
		case "Write":
			s.mem[data] = mkTuple(append(append([]*Term(nil), cur.args...), args[0]))
			return []callRes{{st: s, val: mkTuple([]*Term{s.sliceLen(args[0]), mkNil()})}}, true
		case "Sum":
			return []callRes{{st: s, val: mkCall("hmac", 0, rt.At(0).Type(), recv.args[0], recv.args[1], cur, args[0])}}, true
		}
	}
	if method == "Unmarshal" && len(args) == 2 {
		p := "?"
		if t := typeOfTerm(recv); t != nil {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				p = n.Obj().Pkg().Path()
			}
		}
		r := e.unmarshal(s, p+".Unmarshal", args[0], args[1], rt)
		for _, x := range r {
			if x.st.events != nil && x.st.events.ev.Kind == EvCall && x.st.events.ev.Val == nil {
				x.st.events.ev.Val = recv // the mode
			}
		}
		return r, true
	}
	if n, ok := typeOr(recv).(*types.Named); ok && method == "Marshal" && len(args) == 1 && rt.Len() == 2 && n.Obj().Pkg() != nil && !isModulePath(n.Obj().Pkg().Path()) {
		name := n.Obj().Pkg().Path() + ".Marshal"
		s.emit(Event{Kind: EvCall, Name: name, Args: args, Pos: e.pos(in), Fn: fr.fn, Pre: s.clone()})
		s.events.ev.Val = mkCall(name, newSerial(), nil, args...)
		return []callRes{{st: s, val: s.events.ev.Val}}, true
	}
	return nil, false
}

// atomic executes the operations of sync/atomic on integers and booleans.
func (e *Engine) atomic(fr *frame, s *State, in ssa.Instruction, fn *ssa.Function, args []*Term, rt *types.Tuple) ([]callRes, bool) {
	name := fn.Name()
	op := ""
	for _, o := range []string{"CompareAndSwap", "Swap", "Load", "Store", "Add"} {
		if strings.HasPrefix(name, o) {
			op = o
			break
		}
	}
	if op == "" || len(args) == 0 {
		return nil, false
	}
	if !e.require(s, fr, in, "nil dereference", mkNot(mkCmp(token.EQL, args[0], mkNil()))) {
		return nil, true
	}
	var t types.Type
	switch {
	case op == "CompareAndSwap":
		t = fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()
	case rt.Len() > 0:
		t = rt.At(0).Type()
	default:
		t = fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()
	}
	a := args[0]
	ev := func() {
		s.emit(Event{Kind: EvCall, Name: "atomic." + op, Addr: a, Args: args, Pos: e.pos(in), Fn: fr.fn})
	}
	set := func(st *State, v *Term) { st.store(a, v, t) }
	cur := s.rep(s.load(a, t))
	switch op {
	case "Load":
		ev()
		return []callRes{{st: s, val: cur}}, true
	case "Store":
		ev()
		set(s, args[1])
		return []callRes{{st: s}}, true
	case "Swap":
		ev()
		set(s, args[1])
		return []callRes{{st: s, val: cur}}, true
	case "Add":
		ev()
		v := e.binop(fr, s, in, token.ADD, cur, args[1], t, t)
		set(s, v)
		return []callRes{{st: s, val: v}}, true
	}
	ev()
	var r []callRes
	for _, b := range s.split(e.equal(s, cur, args[1], t)) {
		if b.v {
			set(b.st, args[2])
		}
		r = append(r, callRes{st: b.st, val: mkBool(b.v)})
	}
	return r, true
}

// streams: a value encoded into a buffer of the caller is what the codec makes of it, and so is what the one codec that
// does not look behind the first value decodes from a reader of some bytes.
func (e *Engine) streams(fr *frame, s *State, in ssa.Instruction, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
	for _, codec := range []string{"encoding/json", "github.com/vmihailenco/msgpack/v5", "github.com/fxamacker/cbor/v2"} {
		switch name {
		case codec + ".NewEncoder":
			buf := unbox(s.rep(args[0]))
			if t := addrElem(buf); buf.op != OAlloc || e.p.startup(buf) || t == nil || typeKey(t) != "bytes.Buffer" {
				return nil, false
			}
			r := mkCall(name, newSerial(), rt.At(0).Type(), buf)
			e.nonNilTerm(r)
			return []callRes{{st: s, val: r}}, true
		case "(*" + codec + ".Encoder).Encode":
			enc := s.rep(args[0])
			if enc.op != OCall || enc.name != codec+".NewEncoder" || len(enc.args) != 1 || enc.args[0].op != OAlloc {
				return nil, false
			}
			bytes := types.NewSlice(types.Typ[types.Uint8])
			at := mkField(enc.args[0], 0)
			cur := s.rep(s.load(at, bytes))
			s.emit(Event{Kind: EvCall, Name: codec + ".Marshal", Args: args[1:], Pos: e.pos(in), Fn: fr.fn})
			s.events.ev.Pre = s.clone()
			c := mkCall(codec+".Marshal", newSerial(), nil, args[1:]...)
			s.events.ev.Val = c
			more := e.convert(s, mkExtract(c, 0, bytes), bytes, tString)
			if k, ok := cur.constStr(); !cur.isNil() && (!ok || k != "") {
				more = mkCall("appended", newSerial(), tString, cur, more)
			}
			s.mem[at] = more
			return []callRes{{st: s, val: mkExtract(c, 1, errType())}}, true
		}
	}
	if msgpack := "github.com/vmihailenco/msgpack/v5"; name == "(*"+msgpack+".Decoder).Decode" && len(args) == 2 {
		dec := s.rep(args[0])
		if dec.op != OCall || dec.name != msgpack+".NewDecoder" || len(dec.args) != 1 {
			return nil, false
		}
		rd := unbox(s.rep(dec.args[0]))
		for _, ev := range s.Events(0) {
			if ev.Kind == EvCall && ev.Name == name && len(ev.Args) > 0 && s.rep(ev.Args[0]) == dec {
				return nil, false // what follows the first value
			}
		}
		if rd.op == OCall && (rd.name == "bytes.NewReader" || rd.name == "bytes.NewBuffer") && len(rd.args) == 1 {
			s.emit(Event{Kind: EvCall, Name: name, Args: args, Pos: e.pos(in), Fn: fr.fn})
			return e.unmarshal(s, msgpack+".Unmarshal", rd.args[0], args[1], rt), true
		}
	}
	return nil, false
}

// builder executes the methods of strings.Builder and bytes.Buffer that a text is put together with.
func (e *Engine) builder(fr *frame, s *State, in ssa.Instruction, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
	recv, method, ok := strings.Cut(name, ").")
	field := 1
	if !ok || len(args) == 0 || args[0].op != OAlloc {
		return nil, false
	}
	switch recv {
	case "(*strings.Builder":
	case "(*bytes.Buffer":
		field = 0
	default:
		return nil, false
	}
	bytes := types.NewSlice(types.Typ[types.Uint8])
	at := mkField(args[0], field)
	cur := s.rep(s.load(at, bytes))
	if cur.isNil() {
		cur = mkStr("")
	}
	if t := typeOfTerm(cur); t == nil || !isBasic(t, types.String) {
		cur = e.convert(s, cur, bytes, tString)
	}
	one := func(t *Term) ([]callRes, bool) { return []callRes{{st: s, val: t}}, true }
	add := func(x *Term) {
		if k, ok := cur.constStr(); ok && k == "" {
			s.mem[at] = x
			return
		}
		if k, ok := x.constStr(); ok && k == "" {
			return
		}
		s.mem[at] = e.binop(fr, s, in, token.ADD, cur, x, tString, tString)
	}
	switch method {
	case "WriteString":
		add(args[1])
		return one(mkTuple([]*Term{mkLen(args[1], 0), mkNil()}))
	case "Write":
		add(e.convert(s, s.content(args[1]), bytes, tString))
		return one(mkTuple([]*Term{s.sliceLen(args[1]), mkNil()}))
	case "WriteByte":
		add(e.convert(s, args[1], types.Typ[types.Rune], tString))
		return one(mkNil())
	case "WriteRune":
		add(e.convert(s, args[1], types.Typ[types.Rune], tString))
		return one(mkTuple([]*Term{mkCall(name, newSerial(), tInt), mkNil()}))
	case "String":
		return one(cur)
	case "Bytes":
		if field == 0 {
			if t := typeOfTerm(stripConv(cur)); cur.op == OConv && t != nil && types.Identical(under(t), bytes) {
				return one(stripConv(cur))
			}
			return one(e.convert(s, cur, tString, bytes))
		}
	case "Len":
		return one(mkLen(cur, 0))
	case "Reset":
		s.mem[at] = mkStr("")
		return one(nil)
	case "Grow":
		return one(nil)
	}
	return nil, false
}

// kindConst is the reflect.Kind of the values of a type; nil if it is not known.
func kindConst(t, kind types.Type) *Term {
	n := int64(0)
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() >= types.Bool && u.Kind() <= types.Complex128:
			n = int64(u.Kind())
		case u.Kind() == types.String:
			n = 24
		}
	case *types.Map:
		n = 21
	case *types.Pointer:
		n = 22
	case *types.Slice:
		n = 23
	case *types.Struct:
		n = 25
	}
	if n == 0 {
		return nil
	}
	return mkConst(constant.MakeInt64(n), kind)
}
