package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a value number.
type Op uint8

const (
	OConst    Op = iota // constant (val == nil: nil pointer, map, slice, interface, func)
	OSym                // unknown value
	OGlobal             // address of a package level variable
	OFunc               // function value
	OAlloc              // address of an object allocated on the path
	OField              // address of a field of *args[0]
	OIndex              // address of an element of args[0] (slice value or array address) at args[1]
	OInit               // value an address held at an epoch
	OStruct             // struct or array value by components
	OProj               // component n of an opaque struct value
	OMapNew             // map created on the path
	OMGet               // args[0][args[1]] or the zero value, at map version n
	OMHas               // args[1] is a key of args[0], at map version n
	OLen                // len(args[0]), maps at version n
	OCap                // cap(args[0])
	OBin                // args[0] tok args[1]
	OUn                 // tok args[0]
	OCall               // result of a call (n != 0: of one particular call, n == 0: of a pure function)
	OTuple              // several results
	OExtract            // component n of an opaque call's results
	OIface              // args[0] of dynamic type typ in an interface
	OAssert             // args[0].(typ) or the zero value
	OAssertOK           // args[0] has dynamic type typ
	OConv               // args[0] converted to typ
	OSlice              // backing args[0] from n to m (known bounds)
	OSub                // unknown slice or string args[0] from args[1] to args[2] (nil const: open)
	OAppend             // append(args[0], args[1]...)
	OClosure            // function with bindings
	OKey                // key of one iteration of a map range
	OFilter             // args[0] without the elements for which fn holds, see models
)

// Term is a hash-consed value number.
type Term struct {
	op     Op
	id     int
	typ    types.Type
	val    constant.Value
	name   string
	n, m   int
	tok    token.Token
	args   []*Term
	fn     *ssa.Function
	glob   *ssa.Global
	serial int // largest serial of a unique leaf below this term
}

var (
	terms    = map[string]*Term{}
	termList []*Term
	serials  int
	typeKeys = map[types.Type]string{}
)

func newSerial() int { serials++; return serials }

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	k = strings.NewReplacer("interface {}", "any", "interface{}", "any").Replace(k)
	typeKeys[t] = k
	return k
}

func intern(t Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.op)))
	sb.WriteByte('|')
	sb.WriteString(typeKey(t.typ))
	sb.WriteByte('|')
	if t.val != nil {
		sb.WriteString(t.val.ExactString())
	}
	sb.WriteByte('|')
	sb.WriteString(t.name)
	fmt.Fprintf(&sb, "|%d|%d|%d|", t.n, t.m, t.tok)
	if t.fn != nil {
		fmt.Fprintf(&sb, "%p", t.fn)
	}
	if t.glob != nil {
		fmt.Fprintf(&sb, "%p", t.glob)
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if x, ok := terms[k]; ok {
		return x
	}
	x := &t
	x.id = len(termList)
	switch t.op {
	case OSym, OAlloc, OMapNew, OKey:
		x.serial = t.n
	case OCall:
		x.serial = t.n
	}
	for _, a := range t.args {
		if a.serial > x.serial {
			x.serial = a.serial
		}
	}
	termList = append(termList, x)
	terms[k] = x
	return x
}

func under(t types.Type) types.Type { return t.Underlying() }

func mkConst(v constant.Value, t types.Type) *Term {
	if t != nil {
		t = under(t)
		if b, ok := t.(*types.Basic); ok && v != nil {
			if b.Info()&types.IsInteger != 0 {
				v = constant.ToInt(v)
			} else if b.Info()&types.IsFloat != 0 {
				v = constant.ToFloat(v)
			}
			if b.Info()&types.IsUntyped != 0 {
				t = types.Default(b)
			}
		}
	}
	return intern(Term{op: OConst, val: v, typ: t})
}

var (
	tBool   = types.Typ[types.Bool]
	tInt    = types.Typ[types.Int]
	tString = types.Typ[types.String]
	tUint64 = types.Typ[types.Uint64]
)

func mkBool(b bool) *Term     { return mkConst(constant.MakeBool(b), tBool) }
func mkInt(i int64) *Term     { return mkConst(constant.MakeInt64(i), tInt) }
func mkStr(s string) *Term    { return mkConst(constant.MakeString(s), tString) }
func mkUint64(i uint64) *Term { return mkConst(constant.MakeUint64(i), tUint64) }

// mkNil is the nil of any type.
func mkNil() *Term { return intern(Term{op: OConst}) }

func (t *Term) isNil() bool   { return t.op == OConst && t.val == nil }
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) constBool() (bool, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}
func (t *Term) constInt() (int64, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}
func (t *Term) constStr() (string, bool) {
	if t.op == OConst && t.val != nil && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

func mkSym(name string, t types.Type) *Term {
	return intern(Term{op: OSym, name: name, typ: t, n: newSerial()})
}
func mkField(base *Term, i int) *Term { return intern(Term{op: OField, args: []*Term{base}, n: i}) }
func mkIndex(base, i *Term) *Term     { return intern(Term{op: OIndex, args: []*Term{base, i}}) }
func mkBin(tok token.Token, x, y *Term, t types.Type) *Term {
	return intern(Term{op: OBin, tok: tok, args: []*Term{x, y}, typ: t})
}
func mkTuple(ts []*Term) *Term { return intern(Term{op: OTuple, args: ts}) }
func mkNot(x *Term) *Term {
	if b, ok := x.constBool(); ok {
		return mkBool(!b)
	}
	if x.op == OUn && x.tok == token.NOT {
		return x.args[0]
	}
	return intern(Term{op: OUn, tok: token.NOT, args: []*Term{x}, typ: tBool})
}
func mkIface(t types.Type, x *Term) *Term {
	return intern(Term{op: OIface, typ: t, args: []*Term{x}})
}
func mkCall(name string, n int, t types.Type, args ...*Term) *Term {
	return intern(Term{op: OCall, name: name, n: n, typ: t, args: args})
}
func mkExtract(c *Term, i int, t types.Type) *Term {
	return intern(Term{op: OExtract, args: []*Term{c}, n: i, typ: t})
}
func mkLen(x *Term, ver int) *Term {
	return intern(Term{op: OLen, args: []*Term{x}, n: ver, typ: tInt})
}

// zero returns the zero value of a type.
func zero(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return mkNil()
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = zero(u.Field(i).Type())
		}
		return intern(Term{op: OStruct, typ: t, args: fs})
	case *types.Array:
		if u.Len() <= 64 {
			fs := make([]*Term, u.Len())
			for i := range fs {
				fs[i] = zero(u.Elem())
			}
			return intern(Term{op: OStruct, typ: t, args: fs})
		}
		return intern(Term{op: OCall, name: "zero", typ: t})
	}
	return mkNil()
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "…"
	}
	s := func(i int) string { return t.args[i].str(d + 1) }
	list := func() string {
		var p []string
		for i := range t.args {
			p = append(p, s(i))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case OConst:
		if t.val == nil {
			return "nil"
		}
		return t.val.String()
	case OSym:
		return t.name
	case OGlobal:
		return "&" + t.glob.Name()
	case OFunc:
		return "func " + t.fn.Name()
	case OAlloc:
		return fmt.Sprintf("new%d(%s)", t.n, shortType(t.typ))
	case OField:
		return fmt.Sprintf("%s.%s", s(0), fieldName(t))
	case OIndex:
		return fmt.Sprintf("&%s[%s]", s(0), s(1))
	case OInit:
		if t.n > 0 {
			return fmt.Sprintf("%s@%d", s(0), t.n)
		}
		return s(0)
	case OStruct:
		return "{" + list() + "}"
	case OProj:
		return fmt.Sprintf("%s.#%d", s(0), t.n)
	case OMapNew:
		return fmt.Sprintf("map%d", t.n)
	case OMGet:
		return fmt.Sprintf("%s[%s]", s(0), s(1))
	case OMHas:
		return fmt.Sprintf("has(%s, %s)", s(0), s(1))
	case OLen:
		return "len(" + s(0) + ")"
	case OCap:
		return "cap(" + s(0) + ")"
	case OBin:
		return "(" + s(0) + " " + t.tok.String() + " " + s(1) + ")"
	case OUn:
		return t.tok.String() + s(0)
	case OCall:
		return t.name + "(" + list() + ")"
	case OTuple:
		return "<" + list() + ">"
	case OExtract:
		return fmt.Sprintf("%s#%d", s(0), t.n)
	case OIface:
		return s(0)
	case OAssert:
		return s(0) + ".(" + shortType(t.typ) + ")"
	case OAssertOK:
		return s(0) + " is " + shortType(t.typ)
	case OConv:
		return shortType(t.typ) + "(" + s(0) + ")"
	case OSlice:
		return fmt.Sprintf("%s[%d:%d]", s(0), t.n, t.m)
	case OSub:
		return fmt.Sprintf("%s[%s:%s]", s(0), s(1), s(2))
	case OAppend:
		return "append(" + list() + ")"
	case OClosure:
		return "closure " + t.fn.Name()
	case OKey:
		return "key of " + s(0)
	case OFilter:
		return "filter(" + list() + ")"
	}
	return "?"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t *Term) string {
	if st := structOf(addrElem(t.args[0])); st != nil && t.n < st.NumFields() {
		return st.Field(t.n).Name()
	}
	return "#" + strconv.Itoa(t.n)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := under(t).(*types.Struct)
	return s
}

// typeOfTerm gives the Go type of a value term, if known.
func typeOfTerm(t *Term) types.Type {
	switch t.op {
	case OSym, OInit, OMGet, OCall, OExtract, OAssert, OConv, OBin, OUn, OConst, OStruct, OProj, OKey, OMapNew, OSub, OAppend, OSlice, OFilter:
		return t.typ
	case OLen, OCap:
		return tInt
	case OMHas, OAssertOK:
		return tBool
	case OAlloc:
		return types.NewPointer(t.typ)
	case OGlobal:
		return t.glob.Type()
	case OField, OIndex:
		if e := addrElem(t); e != nil {
			return types.NewPointer(e)
		}
	}
	return nil
}

// addrElem gives the type of the object at an address term.
func addrElem(t *Term) types.Type {
	switch t.op {
	case OAlloc:
		return t.typ
	case OField:
		if st := structOf(addrElem(t.args[0])); st != nil && t.n < st.NumFields() {
			return st.Field(t.n).Type()
		}
		return nil
	case OIndex:
		var c types.Type
		b := t.args[0]
		switch b.op {
		case OAlloc, OField, OGlobal, OIndex:
			c = addrElem(b)
		default:
			c = typeOfTerm(b)
		}
		if c == nil {
			return nil
		}
		if p, ok := under(c).(*types.Pointer); ok {
			c = p.Elem()
		}
		switch u := under(c).(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
		return nil
	}
	if tt := typeOfTerm(t); tt != nil {
		if p, ok := under(tt).(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	return t.any(func(y *Term) bool { return y == x })
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(y *Term) bool {
		if seen[y] {
			return false
		}
		seen[y] = true
		if f(y) {
			return true
		}
		for _, a := range y.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// root follows an address or value to the object it was reached from.
func (t *Term) root() *Term {
	for {
		switch t.op {
		case OField, OIndex, OInit, OMGet, OSlice, OSub, OAssert, OProj, OConv, OIface:
			t = t.args[0]
		default:
			return t
		}
	}
}
