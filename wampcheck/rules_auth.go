package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

const (
	selectName  = modPath + "/auth.SelectAuthMethod"
	hmacEqual   = "crypto/hmac.Equal"
	ctCompare   = "crypto/subtle.ConstantTimeCompare"
	signOpen    = "golang.org/x/crypto/nacl/sign.Open"
	b64Decode   = "(*encoding/base64.Encoding).DecodeString"
	b64Encode   = "(*encoding/base64.Encoding).EncodeToString"
	hexDecode   = "encoding/hex.DecodeString"
	hexEncode   = "encoding/hex.EncodeToString"
	randRead    = "crypto/rand.Read"
	jsonMarshal = "encoding/json.Marshal"
)

// acceptor gives the histories of an acceptor with an unknown authenticator.
func (c *Check) acceptor() *explored { return c.histories("Acceptor", "NewAcceptor", nil, false) }
func (c *Check) joiner() *explored {
	return c.histories("Joiner", "NewJoiner", []string{"SendHello"}, false)
}

func (c *Check) histories(recv, ctor string, methods []string, nilArgs bool) *explored {
	steps := 4
	if c.su.deep {
		steps = 5
	}
	x := c.su.explore(recv, ctor, nilArgs, methods, steps)
	name := recv + " histories"
	if nilArgs {
		name += " (defaults)"
	}
	if !c.must(x.fail == "", "anchor", site{tag: recv}, "%s", x.fail) {
		return x
	}
	if c.runs[name] == nil {
		c.runs[name] = &Run{Name: name, e: x.e, fn: x.fn}
		c.paths += len(x.all)
		for n := range x.e.notes {
			c.must(!strings.Contains(n, "budget"), "complete", c.at(x.fn, ""), "the analysis is incomplete: %s", n)
		}
	}
	return x
}

// shake is a history that ended with WELCOME.
type shake struct {
	x      *explored
	h      *hist
	st     *State
	last   *step
	hs     *step // the HELLO
	hello  *Term
	auth   *Term // the AUTHENTICATE, nil if there was none
	chal   *Term // the CHALLENGE sent, nil if there was none
	wel    *Term
	method string
	sel    *Event
	site   site
}

func (x *explored) shakes(c *Check) (r []*shake) {
	for _, h := range x.all {
		n := len(h.steps)
		if n == 0 || h.panic || h.steps[n-1].kind != "Welcome" {
			continue
		}
		w := &shake{x: x, h: h, st: h.st, last: &h.steps[n-1]}
		w.wel = unbox(w.last.ret)
		if w.last.msg == "Hello" {
			w.hs = w.last
		} else {
			for i := n - 2; i >= 0; i-- {
				if s := &h.steps[i]; s.kind == "Challenge" && s.msg == "Hello" {
					w.hs, w.chal = s, unbox(s.ret)
					break
				}
			}
			if w.last.msg == "Authenticate" {
				w.auth = w.last.ptr
			}
		}
		if w.hs != nil {
			w.hello = w.hs.ptr
			for _, ev := range h.st.Events(w.hs.mark) {
				ev := ev
				if ev.Kind == EvCall && ev.Name == selectName && w.sel == nil {
					w.sel = &ev
				}
			}
		}
		if w.sel != nil && w.sel.Val != nil {
			w.method, _ = h.st.rep(mkExtract(w.sel.Val, 0, typeOr(c.methodSym()))).constStr()
		}
		w.site = c.at(x.fn, w.method).on(w.last.pos)
		r = append(r, w)
	}
	return
}

func (c *Check) methodSym() *Term {
	if t := c.su.p.typ("auth", "Method"); t != nil {
		return mkSym("method", t)
	}
	return mkSym("method", tString)
}

// approval is a successful call of the authenticator.
type approval struct {
	ev  Event
	req *Term
	res *Term
}

func (w *shake) approvals(c *Check, from int) (r []approval) {
	def := map[string]bool{}
	for _, n := range c.su.serverAuthenticators() {
		def["(*"+modPath+"."+n.Obj().Name()+").Authenticate"] = true
	}
	for _, ev := range w.st.Events(from) {
		if ev.Kind != EvCall || ev.Val == nil || len(ev.Args) != 2 || (ev.Name != "invoke:Authenticate" && !def[ev.Name]) {
			continue
		}
		if v, ok := w.st.isNilTerm(mkExtract(ev.Val, 1, errType())); !ok || !v {
			continue
		}
		res := mkExtract(ev.Val, 0, c.responseType())
		r = append(r, approval{ev, ev.Args[1], res})
	}
	return
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func (c *Check) responseType() types.Type {
	if t := c.su.p.typ("auth", "Response"); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

// gets gives the values an accessor may have been read as: by the dynamic type and by the interface.
func (su *Suite) gets(st *State, x *Term, method string) (r []*Term) {
	if x == nil {
		return
	}
	if t := su.get(st, x, method); t != nil {
		r = append(r, st.rep(t))
	}
	tt := typeOfTerm(x)
	if tt == nil {
		return
	}
	if _, ok := under(tt).(*types.Interface); ok {
		if o, _, _ := types.LookupFieldOrMethod(tt, true, nil, method); o != nil {
			if f, ok := o.(*types.Func); ok {
				t := st.rep(mkCall("get:"+method, 0, f.Type().(*types.Signature).Results().At(0).Type(), st.rep(x)))
				r = append(r, t)
			}
		}
	}
	return
}

func (st *State) sameAny(x *Term, ys []*Term) bool {
	for _, y := range ys {
		if st.same(x, y) || st.same(unbox(x), unbox(y)) {
			return true
		}
	}
	return false
}

// extraValue reads an entry of an extra dictionary the acceptor built.
func (c *Check) extraValue(st *State, msg *Term, accessor, key string) (*Term, bool) {
	d := c.su.get(st, msg, accessor)
	if d == nil {
		return nil, false
	}
	has, v := st.hasKey(st.rep(d), mkStr(key), types.NewInterfaceType(nil, nil))
	if has != yes || v == nil {
		return nil, false
	}
	return st.rep(unbox(v)), true
}

// comparison is two values a path compared as equal.
type comparison struct {
	x, y *Term
	how  string
}

// compared lists the values that are equal on a path because of a comparison.
func compared(st *State) (r []comparison) {
	for f, v := range st.facts {
		g := f
		if !v {
			continue
		}
		if g.op == OCall && len(g.args) == 2 && (g.name == hmacEqual || g.name == "bytes.Equal" || g.name == "slices.Equal" || g.name == "strings.EqualFold") {
			r = append(r, comparison{g.args[0], g.args[1], g.name})
		}
		if g.op == OBin && g.tok == token.EQL {
			for i := 0; i < 2; i++ {
				n := g.args[1-i]
				if k, ok := n.constInt(); ok && k == 1 && g.args[i].op == OCall && g.args[i].name == ctCompare && len(g.args[i].args) == 2 {
					r = append(r, comparison{g.args[i].args[0], g.args[i].args[1], ctCompare})
				}
			}
			r = append(r, comparison{g.args[0], g.args[1], "=="})
		}
	}
	for x, y := range st.eqv {
		if x.op == OCall && x.name == ctCompare && len(x.args) == 2 {
			if k, ok := y.constInt(); ok && k == 1 {
				r = append(r, comparison{x.args[0], x.args[1], ctCompare})
			}
			continue
		}
		r = append(r, comparison{x, y, "=="})
	}
	return
}

func constantTime(how string) bool { return how == hmacEqual || how == ctCompare }

func stripConv(t *Term) *Term {
	for t != nil && t.op == OConv {
		t = t.args[0]
	}
	return t
}

// macOf: x is an HMAC-SHA256 in plain bytes or base64; its key and message.
func macOf(st *State, x *Term) (key, msg *Term, b64 bool) {
	x = st.rep(stripConv(st.rep(x)))
	if x.op == OCall && x.name == b64Encode && stdEncoding(x.args[0]) {
		b64 = true
		x = st.rep(stripConv(x.args[1]))
	}
	if x.op != OCall || x.name != "hmac" || len(x.args) != 4 {
		return nil, nil, false
	}
	if f := x.args[0]; f.op != OFunc || funcName(f.fn) != "crypto/sha256.New" {
		return nil, nil, false
	}
	if n, ok := st.isNilTerm(x.args[3]); !(ok && n) {
		if l, ok := st.norm(st.sliceLen(x.args[3])).constInt(); !ok || l != 0 {
			return nil, nil, false
		}
	}
	if len(x.args[2].args) != 1 {
		return nil, nil, false
	}
	return x.args[1], x.args[2].args[0], b64
}

func stdEncoding(t *Term) bool {
	t = stripConv(t)
	if t.op == OInit {
		t = t.args[0]
	}
	return t.op == OGlobal && t.glob.Name() == "StdEncoding"
}

// signatureOf: x is the given signature text (b64), or what it decodes to.
func signatureOf(st *State, x, sig *Term, b64 bool) bool {
	x = st.rep(x)
	if b64 {
		return st.same(stripConv(x), sig)
	}
	x = stripConv(x)
	if x.op == OExtract && x.n == 0 && x.args[0].op == OCall && x.args[0].name == b64Decode && stdEncoding(x.args[0].args[0]) && st.same(x.args[0].args[1], sig) {
		v, ok := st.isNilTerm(mkExtract(x.args[0], 1, errType()))
		return ok && v
	}
	return false
}

// craKey is the key both sides derive from the approved secret; nil if it is not decided on the path.
func (c *Check) craKey(st *State, resp *Term) *Term {
	t := c.su.p.typ("auth", "CRAResponse")
	if t == nil {
		return nil
	}
	x := mkAssert(resp, types.NewPointer(t))
	salt, secret := c.su.get(st, x, "Salt"), c.su.get(st, x, "Secret")
	iters, klen := c.su.get(st, x, "Iterations"), c.su.get(st, x, "KeyLen")
	if salt == nil || secret == nil || iters == nil || klen == nil {
		return nil
	}
	switch st.truth(eq(salt, mkStr(""))) {
	case yes:
		return secret
	case no:
		return c.derive(st, salt, secret, iters, klen)
	}
	return nil
}

func (c *Check) derive(st *State, args ...*Term) *Term {
	fn := c.su.p.fn("auth", "", "DeriveWAMPCRAKey")
	if fn == nil {
		return nil
	}
	t := st.clone()
	e := c.su.engine()
	e.record = false
	old := t.eng
	e.nonNil, e.ranges = old.nonNil, old.ranges
	t.eng = e
	var res *Term
	for _, o := range e.Call(t, fn, args, nil, 0, nil) {
		if o.panicked || len(o.rets) != 1 || res != nil && res != o.rets[0] {
			return nil
		}
		res = o.rets[0]
	}
	return res
}

func mentions(t, x *Term) bool { return t.any(func(y *Term) bool { return y == x }) }

// wholeKey: t is a 32 byte array with the first 32 bytes of src.
func wholeKey(st *State, t *Term) *Term {
	t = st.rep(t)
	if t.op == OInit && t.args[0].op == OCall && t.args[0].name == "arrayptr" {
		return st.rep(t.args[0].args[0])
	}
	if t.op == OCall && t.name == "arrayptr" {
		return st.rep(t.args[0])
	}
	if t.op != OStruct || len(t.args) != 32 {
		return nil
	}
	var src *Term
	for i, a := range t.args {
		a = st.rep(a)
		var from, idx *Term
		switch {
		case a.op == OCall && a.name == "copied" && len(a.args) == 2:
			from, idx = a.args[0], a.args[1]
		case a.op == OInit && a.args[0].op == OIndex:
			from, idx = a.args[0].args[0], a.args[0].args[1]
		default:
			return nil
		}
		if n, ok := idx.constInt(); !ok || n != int64(i) || src != nil && src != from {
			return nil
		}
		src = from
	}
	return src
}

// decodedHex: x is what the hex text decodes to, with decoding known to have worked; the text.
func decodedHex(st *State, x *Term) *Term {
	x = stripConv(st.rep(x))
	if x.op == OExtract && x.n == 0 && x.args[0].op == OCall && x.args[0].name == hexDecode {
		if v, ok := st.isNilTerm(mkExtract(x.args[0], 1, errType())); ok && v {
			return st.rep(x.args[0].args[0])
		}
	}
	return nil
}

// verified is a signature check a path passed.
type verified struct {
	key *Term // bytes of the public key
	sig *Term // text of signature and message
	raw *Term // the bytes it decodes to
	msg *Term // what was signed, nil: the rest of sig
}

func verifications(st *State) (r []verified) {
	see := func(f *Term) {
		if f.op == OExtract && f.n == 1 && f.args[0].op == OCall && f.args[0].name == signOpen {
			a := f.args[0].args
			if len(a) == 2 {
				r = append(r, verified{key: wholeKey(st, a[1]), sig: decodedHex(st, a[0]), raw: stripConv(st.rep(a[0]))})
			}
		}
		if f.op == OCall && f.name == "crypto/ed25519.Verify" && len(f.args) == 3 {
			sig := st.rep(stripConv(f.args[2]))
			v := verified{key: st.rep(stripConv(f.args[0])), msg: st.rep(stripConv(f.args[1]))}
			if sig.op == OSub {
				if lo, ok := sig.args[1].constInt(); ok && lo == 0 {
					if hi, ok := sig.args[2].constInt(); ok && hi == 64 {
						v.sig, v.raw = decodedHex(st, sig.args[0]), stripConv(st.rep(sig.args[0]))
					}
				}
				if v.msg.op == OSub && v.msg.args[0] == sig.args[0] {
					if lo, ok := v.msg.args[1].constInt(); ok && lo == 64 {
						v.msg = nil
					}
				}
			} else {
				v.sig, v.raw = decodedHex(st, sig), sig
			}
			r = append(r, v)
		}
	}
	for f, v := range st.facts {
		if v {
			see(f)
		}
	}
	for x, y := range st.eqv {
		if b, ok := y.constBool(); ok && b {
			see(x)
		}
	}
	return
}

// ---- C19 ----

func ruleC19(c *Check) {
	x := c.acceptor()
	if x.fail != "" {
		return
	}
	seen := map[string]int{}
	for _, w := range x.shakes(c) {
		if !c.must(w.hello != nil, "hello", w.site, "WELCOME is sent without a HELLO that led to it") {
			continue
		}
		if !c.must(w.method != "", "method", w.site, "WELCOME is sent without an authentication method having been selected for its HELLO") {
			continue
		}
		seen[w.method]++
		c.approved(w)
	}
	for _, m := range []string{"anonymous", "ticket", "wampcra", "cryptosign"} {
		c.must(seen[m] > 0, "reachable", c.at(x.fn, m), "no way to WELCOME was found for %s", m)
	}
	// without an authenticator
	y := c.histories("Acceptor", "NewAcceptor", nil, true)
	for _, w := range y.shakes(c) {
		if c.must(w.hello != nil && w.method != "", "hello", w.site, "WELCOME is sent without a HELLO that led to it") {
			c.approved(w)
		}
	}
	c.need("approved", 4)
	// the default authenticator lets in anonymous peers only
	for _, n := range c.su.serverAuthenticators() {
		r := c.run("", n.Obj().Name(), "Authenticate", "")
		if r.fn == nil || len(r.args) != 2 {
			continue
		}
		good, _ := c.outcomes(r, 1)
		for _, o := range good {
			m := c.su.get(o.st, r.args[1], "AuthMethod")
			c.must(m != nil && o.st.truth(eq(m, mkStr("anonymous"))) == yes, "default", c.at(r.fn, "").on(o), "the default authenticator approves a request that is not anonymous")
			c.offersAnonymous(n)
			for _, acc := range []string{"AuthID", "AuthRole"} {
				v := c.su.get(o.st, unbox(o.st.rep(o.rets[0])), acc)
				c.must(v != nil && o.st.truth(eq(v, mkStr("anonymous"))) == yes, "default", c.at(r.fn, acc).on(o), "the %s the default authenticator grants is %v, not anonymous", strings.ToLower(acc), v)
			}
		}
	}
}

// offersAnonymous: the default authenticator enables anonymous authentication and nothing else.
func (c *Check) offersAnonymous(n *types.Named) {
	r := c.run("", n.Obj().Name(), "Methods", "")
	if r.fn == nil {
		return
	}
	for i := range r.outs {
		o := &r.outs[i]
		if o.panicked || len(o.rets) != 1 {
			continue
		}
		es, ok := o.st.elems(o.st.rep(o.rets[0]))
		if !ok {
			continue
		}
		only := len(es) > 0
		for _, m := range es {
			only = only && o.st.truth(eq(stripConv(unbox(m)), mkStr("anonymous"))) == yes
		}
		c.must(only, "default", c.at(r.fn, "").on(o), "the default authenticator does not enable just anonymous authentication")
	}
}

// approved: the HELLO of a handshake was approved and its proof checked.
func (c *Check) approved(w *shake) {
	st := w.st
	as := w.approvals(c, w.hs.mark)
	if !c.must(len(as) > 0, "approved", w.site, "WELCOME is sent on a way on which the authenticator approved nothing") {
		return
	}
	why := ""
	for _, a := range as {
		bad := ""
		for _, g := range []string{"Realm", "AuthID", "AuthExtra"} {
			got := c.su.get(a.ev.Pre, a.req, g)
			if !a.ev.Pre.sameAny(got, c.su.gets(a.ev.Pre, w.hello, g)) {
				bad = "the request that was approved has another " + g + " than the HELLO"
			}
		}
		if got := c.su.get(a.ev.Pre, a.req, "AuthMethod"); got == nil || st.truth(eq(got, mkStr(w.method))) != yes {
			bad = "the request that was approved names another method than " + w.method
		}
		if bad == "" {
			bad = c.proof(w, a)
		}
		if bad == "" {
			why = ""
			break
		}
		why = bad
	}
	c.must(why == "", "proof", w.site, "WELCOME is sent although %s", why)
	// what is granted was approved for this HELLO
	id, ok := c.extraValue(st, w.wel, "Details", "authid")
	if ok {
		granted := false
		for _, a := range as {
			granted = granted || st.sameAny(id, c.su.gets(st, a.res, "AuthID"))
		}
		c.must(granted, "granted", w.site, "the authid in WELCOME is not one the authenticator granted for this HELLO")
	}
}

func dynNamed(st *State, x *Term) string {
	x = st.rep(x)
	if x.op == OIface {
		if p := ptrTo(x.typ); p != nil {
			return p.Obj().Name()
		}
	}
	return ""
}

// proof says what is wrong with the proof a method requires, "" if nothing is.
func (c *Check) proof(w *shake, a approval) string {
	st := w.st
	switch w.method {
	case "anonymous":
		return ""
	case "ticket":
		if w.auth == nil {
			return "no AUTHENTICATE was received"
		}
		t := c.su.get(a.ev.Pre, a.req, "Ticket")
		if t == nil || !a.ev.Pre.sameAny(t, c.su.gets(a.ev.Pre, w.auth, "Signature")) {
			return "the ticket in AUTHENTICATE was not part of the request that was approved"
		}
		return ""
	case "wampcra":
		if w.auth == nil || w.chal == nil {
			return "no challenge was answered"
		}
		sig := c.su.get(st, w.auth, "Signature")
		key := c.craKey(st, a.res)
		if key == nil {
			return "the key is not decided by the approved secret and salt"
		}
		why := "no comparison of the signature with an HMAC-SHA256 succeeded"
		for _, q := range compared(st) {
			for i := 0; i < 2; i++ {
				k, _, b64 := macOf(st, q.x)
				if k != nil && signatureOf(st, q.y, sig, b64) {
					if st.same(stripConv(k), stripConv(key)) {
						return ""
					}
					why = "the signature was checked under another key than the one of the approved secret"
				}
				q.x, q.y = q.y, q.x
			}
		}
		return why
	case "cryptosign":
		if w.auth == nil || w.chal == nil {
			return "no challenge was answered"
		}
		sig := c.su.get(st, w.auth, "Signature")
		pub := c.su.get(a.ev.Pre, a.req, "PublicKey")
		if pub == nil {
			return "the request that was approved has no public key"
		}
		why := "no signature was verified"
		for _, v := range verifications(st) {
			if v.sig == nil || !st.same(v.sig, sig) {
				why = "what was verified is not the signature in AUTHENTICATE"
				continue
			}
			if v.key == nil {
				why = "the signature was verified under something else than the complete public key"
				continue
			}
			k := decodedHex(st, v.key)
			if k == nil || !st.same(k, pub) {
				why = "the signature was verified under another key than the one that was approved"
				continue
			}
			return ""
		}
		return why
	}
	return "the method " + w.method + " has no known proof"
}

// ---- C20 ----

func ruleC20(c *Check) {
	x := c.acceptor()
	if x.fail != "" {
		return
	}
	seen := map[string]bool{}
	for _, w := range x.shakes(c) {
		if w.method != "wampcra" && w.method != "cryptosign" || w.hello == nil {
			continue
		}
		seen[w.method] = true
		if !c.must(w.chal != nil && w.auth != nil, "challenge", w.site, "a %s session is welcomed without a challenge", w.method) {
			continue
		}
		ch, ok := c.extraValue(w.st, w.chal, "Extra", "challenge")
		if !c.must(ok, "challenge", w.site, "CHALLENGE carries no challenge") {
			continue
		}
		sig := c.su.get(w.st, w.auth, "Signature")
		why := ""
		if w.method == "wampcra" {
			why = "no HMAC of the issued challenge was compared with the signature"
			for _, q := range compared(w.st) {
				for i := 0; i < 2; i++ {
					k, m, b64 := macOf(w.st, q.x)
					if k != nil && signatureOf(w.st, q.y, sig, b64) && w.st.same(stripConv(m), stripConv(ch)) {
						why = ""
					}
					q.x, q.y = q.y, q.x
				}
			}
		} else {
			why = boundToChallenge(w.st, sig, ch)
		}
		c.must(why == "", "issued", w.site, "a %s session is welcomed although %s", w.method, why)
	}
	for _, m := range []string{"wampcra", "cryptosign"} {
		c.must(seen[m], "reachable", c.at(x.fn, m), "no way to WELCOME was found for %s", m)
	}
}

// boundToChallenge: a path that verified a signature has also compared what was signed with the challenge.
func boundToChallenge(st *State, sig, ch *Term) string {
	for _, v := range verifications(st) {
		if v.msg != nil && v.sig != nil {
			if h := decodedHex(st, v.msg); h != nil && st.same(h, ch) {
				return ""
			}
		}
	}
	isChal := func(x *Term) bool {
		x = st.rep(x)
		if x.op == OCall && (x.name == "strings.ToLower" || x.name == "strings.ToUpper") {
			x = st.rep(x.args[0])
		}
		if st.same(stripConv(x), stripConv(ch)) {
			return true
		}
		if h := decodedHex(st, x); h != nil && st.same(h, ch) {
			return true
		}
		// the random bytes the text was made of
		return ch.op == OCall && ch.name == hexEncode && st.same(x, ch.args[0])
	}
	signed := func(x *Term) bool {
		x = st.rep(stripConv(st.rep(x)))
		if x.op == OExtract && x.n == 0 && x.args[0].op == OCall && x.args[0].name == signOpen {
			return true
		}
		if x.op == OCall && (x.name == "strings.ToLower" || x.name == "strings.ToUpper" || x.name == hexEncode) {
			x = st.rep(stripConv(x.args[0]))
		}
		if x.op == OExtract && x.n == 0 && x.args[0].op == OCall && x.args[0].name == signOpen {
			return true
		}
		// the part behind the signature: from byte 64 or character 128 to the end
		if x.op != OSub {
			return false
		}
		base, unit := st.rep(stripConv(x.args[0])), int64(2)
		if base.op == OCall && (base.name == "strings.ToLower" || base.name == "strings.ToUpper") {
			base = st.rep(base.args[0])
		}
		if h := decodedHex(st, base); h != nil {
			base, unit = h, 1
		}
		if !st.same(base, sig) {
			return false
		}
		if lo, ok := x.args[1].constInt(); ok && lo != 64*unit {
			return false
		}
		if hi, ok := x.args[2].constInt(); ok && hi != 96*unit {
			return false
		}
		return true
	}
	for f, v := range st.facts {
		if !v || f.op != OCall || len(f.args) < 2 {
			continue
		}
		if f.name == "strings.HasSuffix" || f.name == "bytes.HasSuffix" {
			s := st.rep(stripConv(st.rep(f.args[0])))
			if s.op == OCall && (s.name == "strings.ToLower" || s.name == "strings.ToUpper") {
				s = st.rep(s.args[0])
			}
			if h := decodedHex(st, s); h != nil {
				s = h
			}
			if st.same(s, sig) && isChal(f.args[1]) {
				return ""
			}
		}
	}
	for _, q := range compared(st) {
		if isChal(q.x) && signed(q.y) || isChal(q.y) && signed(q.x) {
			return ""
		}
		// signature || challenge rebuilt and compared
		for i := 0; i < 2; i++ {
			if st.same(stripConv(q.x), sig) && q.y.op == OBin && q.y.tok == token.ADD && isChal(q.y.args[1]) {
				return ""
			}
			q.x, q.y = q.y, q.x
		}
	}
	return "what was signed was not compared with the issued challenge"
}

// ---- C21 ----

func ruleC21(c *Check) {
	for _, nilArgs := range []bool{false, true} {
		x := c.histories("Acceptor", "NewAcceptor", nil, nilArgs)
		if x.fail != "" {
			return
		}
		hello, auth := 0, map[string]int{}
		for _, h := range x.all {
			n := len(h.steps)
			if n == 0 {
				continue
			}
			s := &h.steps[n-1]
			st := c.at(x.fn, s.msg).on(s.pos)
			if h.panic {
				continue // C31
			}
			if s.kind == "error" {
				none := s.ret == nil
				if !none {
					none = s.st.nothing(s.ret)
				}
				c.must(none, "silent", st, "a message is returned together with an error")
				continue
			}
			c.must(s.kind == "Welcome" || s.kind == "Abort" || s.kind == "Challenge", "answer", st, "%s is answered with %s", s.msg, s.kind)
			if s.kind == "Abort" {
				uri, known := constStr(s.st, c.su.get(s.st, s.ret, "Reason"))
				c.must(known && uri == "wamp.error.authentication_failed", "reason", st, "the ABORT gives %q (known: %v) as the reason", uri, known)
			}
			// what has been sent before
			prev := ""
			for i := 0; i < n-1; i++ {
				if h.steps[i].kind != "error" {
					prev = h.steps[i].kind
				}
			}
			switch s.msg {
			case "Hello":
				c.must(prev == "", "hello", st, "HELLO is accepted after %s was sent", strings.ToUpper(prev))
				hello++
			case "Authenticate":
				if prev == "" {
					c.must(false, "authenticate", st, "AUTHENTICATE is accepted although nothing was sent before")
				} else {
					c.must(prev == "Challenge", "authenticate", st, "AUTHENTICATE is accepted after %s was sent", strings.ToUpper(prev))
				}
				c.must(s.kind != "Challenge", "authenticate", st, "AUTHENTICATE is answered with another CHALLENGE")
				auth[s.kind]++
			default:
				c.must(false, "other", st, "%s is accepted", s.msg)
			}
		}
		c.must(hello > 0, "reachable", c.at(x.fn, "hello"), "no HELLO is accepted")
		c.must(auth["Welcome"] > 0, "reachable", c.at(x.fn, "welcome"), "no AUTHENTICATE is answered with WELCOME")
		c.must(auth["Abort"] > 0, "reachable", c.at(x.fn, "abort"), "no AUTHENTICATE is answered with ABORT")
	}
	c.need("silent", 20)
	c.need("authenticate", 2)
	c.need("reason", 2)
}

// detailsOf evaluates SessionDetails at the end of a history: the details, or that there is an error.
func (c *Check) detailsOf(x *explored, recvName string, h *hist) (d *Term, st *State, fails bool, ok bool) {
	fn := c.su.p.fn("", recvName, "SessionDetails")
	if fn == nil {
		return
	}
	t := h.st.clone()
	outs := x.e.Call(t, fn, []*Term{h.recv}, nil, 0, nil)
	if len(outs) != 1 || outs[0].panicked || len(outs[0].rets) != 2 {
		return
	}
	f, known := failed(outs[0], 1)
	if !known {
		return
	}
	return outs[0].st.rep(outs[0].rets[0]), outs[0].st, f, true
}

// ctorArg finds the constructor's argument of a type.
func (x *explored) ctorArg(pred func(types.Type) bool) *Term {
	for i, p := range x.ctor.Params {
		if pred(p.Type()) {
			return x.args[i]
		}
	}
	return nil
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// afterHistories evaluates SessionDetails at the end of every history.
func (c *Check) afterHistories(x *explored, recvName string) {
	for _, h := range x.all {
		if h.panic {
			continue
		}
		welcomed, tag := false, "new"
		for _, s := range h.steps {
			if recvName == "Acceptor" && s.kind == "Welcome" || recvName == "Joiner" && s.msg == "Welcome" && s.kind == "none" {
				welcomed = true
			}
			tag = s.msg
		}
		var o *Outcome
		if n := len(h.steps); n > 0 {
			o = h.steps[n-1].pos
		}
		s := c.at(c.su.p.fn("", recvName, "SessionDetails"), tag)
		if o != nil {
			s.o = o
		}
		_, _, f, ok := c.detailsOf(x, recvName, h)
		if !c.must(ok, "available", s, "it is not clear whether session details are available") {
			continue
		}
		if welcomed {
			c.must(!f, "available", s, "session details are not available after WELCOME")
		} else {
			c.must(f, "available", s, "session details are available before WELCOME")
		}
	}
}

// ---- C22 ----

func ruleC22(c *Check) {
	for _, nilArgs := range []bool{false, true} {
		x := c.histories("Acceptor", "NewAcceptor", nil, nilArgs)
		if x.fail != "" {
			return
		}
		seen := map[string]int{}
		for _, w := range x.shakes(c) {
			if !c.must(w.hello != nil && w.method != "", "hello", w.site, "WELCOME is sent without a HELLO and a selected method") {
				continue
			}
			seen[w.method]++
			st := w.st
			d := c.su.get(st, w.wel, "Details")
			m, ok := st.dictionary(d)
			if !c.must(d != nil && ok, "details", w.site, "the details of WELCOME are not a dictionary made for it") {
				continue
			}
			var ids, roles []*Term
			for _, a := range w.approvals(c, w.hs.mark) {
				ids = append(ids, c.su.gets(st, a.res, "AuthID")...)
				roles = append(roles, c.su.gets(st, a.res, "AuthRole")...)
			}
			val := func(k string) *Term {
				if m[k] == nil {
					return nil
				}
				return st.rep(unbox(m[k]))
			}
			want := func(key string, ys []*Term, what string) {
				if b := m[key]; b != nil && st.rep(b).op == OIface {
					c.must(types.Identical(st.rep(b).typ, tString), "fields", site{w.site.fn, w.site.pos, w.site.o, w.method + " " + key}, "WELCOME's %s is of type %s, which the other side does not read as a string", key, typeKey(st.rep(b).typ))
				}
				v := val(key)
				c.must(v != nil && st.sameAny(v, ys), "fields", site{w.site.fn, w.site.pos, w.site.o, w.method + " " + key}, "WELCOME's %s is %v, not %s", key, v, what)
			}
			want("realm", c.su.gets(st, w.hello, "Realm"), "the realm in HELLO")
			want("authid", ids, "the authid the authenticator granted")
			want("authrole", roles, "the authrole the authenticator granted")
			want("authmethod", []*Term{mkStr(w.method)}, "the method that was carried out")
			rv := val("roles")
			c.must(rv != nil && !rv.isNil(), "fields", w.site, "WELCOME announces no roles")
			sid := c.su.get(st, w.wel, "SessionID")
			c.must(sid != nil && w.generated(sid), "session", w.site, "the session id is not a generated one")
			det, st2, f, ok := c.detailsOf(x, "Acceptor", w.h)
			if !c.must(ok && !f && det != nil, "available", w.site, "there are no session details after WELCOME") {
				continue
			}
			same := func(acc string, ys ...*Term) {
				v := c.su.get(st2, det, acc)
				c.must(v != nil && st2.sameAny(v, ys), "same", site{w.site.fn, w.site.pos, w.site.o, w.method + " " + acc}, "the session details' %s is %v, which differs from WELCOME", acc, v)
			}
			same("ID", sid)
			for _, p := range [][2]string{{"Realm", "realm"}, {"AuthID", "authid"}, {"AuthRole", "authrole"}, {"AuthMethod", "authmethod"}, {"RouterRoles", "roles"}} {
				if v := val(p[1]); v != nil {
					same(p[0], v)
				}
			}
			if w.auth != nil {
				// what the client sent along with its proof
				v, want := c.su.get(st2, det, "AuthExtra"), c.su.get(st2, w.auth, "Extra")
				c.must(v != nil && want != nil && st2.sameValue(v, want), "same", site{w.site.fn, w.site.pos, w.site.o, w.method + " AuthExtra"}, "the session details' authextra is %v, not that of AUTHENTICATE", v)
			}
			if ser := x.ctorArg(func(t types.Type) bool { return isNamed(t, modPath+"/serializers", "Serializer") }); ser != nil && !nilArgs {
				same("StaticSerializer", c.su.gets(st2, ser, "Static")...)
			}
		}
		c.must(len(seen) > 0, "reachable", c.at(x.fn, ""), "no way to WELCOME was found")
		if !nilArgs {
			c.afterHistories(x, "Acceptor")
			c.bytesLevel(x, "Acceptor", func(h *hist) bool { return len(h.steps) <= 1 })
		}
	}
	c.need("same", 20)
	c.need("bytes", 20)
}

// generated: a value comes from the id generator.
func (w *shake) generated(sid *Term) bool {
	return sid.any(func(t *Term) bool { return t.op == OCall && t.name == modPath+".GenerateID" })
}

// bytesLevel: the byte interface gives exactly what the message interface gives, encoded.
func (c *Check) bytesLevel(x *explored, recvName string, which func(*hist) bool) {
	fn := c.su.p.fn("", recvName, "Receive")
	if !c.must(fn != nil, "anchor", site{tag: recvName}, "%s.Receive does not exist", recvName) {
		return
	}
	data := mkSym("data", fn.Params[1].Type())
	for _, h := range x.all {
		if h.panic || !which(h) {
			continue
		}
		for _, t := range append(c.su.msgs, nil) {
			mi := mkNil()
			tag := "undecodable"
			if t != nil {
				mi, _ = c.su.messageNamed(x.e, t, "msg"+itoa(len(h.steps)+1))
				tag = t.Obj().Name()
			}
			x.e.invokeHook = func(s *State, recv *Term, name string, args []*Term, rt *types.Tuple) ([]callRes, bool) {
				if name != "Deserialize" || len(args) != 1 || args[0] != data || rt.Len() != 2 {
					return nil, false
				}
				if t == nil {
					er := mkCall("undecodable", newSerial(), rt.At(1).Type())
					x.e.nonNilTerm(er)
					return []callRes{{st: s, val: mkTuple([]*Term{mkNil(), er})}}, true
				}
				return []callRes{{st: s, val: mkTuple([]*Term{mi, mkNil()})}}, true
			}
			st := h.st.clone()
			mark := st.mark()
			outs := x.e.Call(st, fn, []*Term{h.recv, data}, nil, 0, nil)
			x.e.invokeHook = nil
			for i := range outs {
				o := &outs[i]
				if o.panicked {
					continue
				}
				c.bytesOutcome(c.at(fn, tag).on(o), o, mark, recvName, t == nil, tag == "Welcome" && h.last() != "Welcome")
			}
		}
	}
}

// last is the last message that was accepted.
func (h *hist) last() string {
	last := ""
	for i := range h.steps {
		if h.steps[i].kind != "error" {
			last = h.steps[i].msg
		}
	}
	return last
}

func (c *Check) bytesOutcome(s site, o *Outcome, mark int, recvName string, undecodable, welcome bool) {
	n := len(o.rets)
	f, known := failed(*o, n-1)
	if !c.must(known, "bytes", s, "it is not clear whether an error is returned") {
		return
	}
	pay := o.st.rep(o.rets[0])
	if f {
		c.must(o.st.nothing(pay), "bytes", s, "bytes are returned together with an error")
		if n == 3 {
			c.must(o.st.truth(o.rets[1]) == no, "bytes", s, "welcomed is reported together with an error")
		}
		return
	}
	c.must(!undecodable, "bytes", s, "undecodable bytes are accepted")
	// which message was encoded
	kind, found := "none", false
	for _, ev := range o.st.Events(mark) {
		if ev.Kind == EvCall && ev.Name == "invoke:Serialize" && ev.Val != nil && pay == o.st.rep(mkExtract(ev.Val, 0, typeOr(pay))) {
			kind, found = msgKind(o.st, ev.Args[1]), true
			v, ok := o.st.isNilTerm(mkExtract(ev.Val, 1, errType()))
			c.must(ok && v, "bytes", s, "the result of an encoding that failed is returned")
		}
	}
	if z, ok := o.st.isNilTerm(pay); ok && z && !found {
		c.must(recvName == "Joiner" && welcome, "bytes", s, "nothing is sent and no error is returned although it is no WELCOME that is expected")
		return
	}
	if !c.must(found, "bytes", s, "what is sent is not the encoding of the answer") {
		return
	}
	if n == 3 {
		want := no
		if kind == "Welcome" {
			want = yes
		}
		c.must(kind != "?" && o.st.truth(o.rets[1]) == want, "bytes", s, "welcomed is %v when %s is sent", o.st.truth(o.rets[1]), kind)
	} else {
		c.must(kind == "Authenticate", "bytes", s, "%s is sent in answer", kind)
	}
}

// ---- C23 ----

func ruleC23(c *Check) {
	x := c.joiner()
	if x.fail != "" {
		return
	}
	au := x.ctorArg(func(t types.Type) bool { return isNamed(t, modPath+"/auth", "ClientAuthenticator") })
	realm := x.ctorArg(func(t types.Type) bool { return isBasic(t, types.String) })
	ser := x.ctorArg(func(t types.Type) bool { return isNamed(t, modPath+"/serializers", "Serializer") })
	if !c.must(au != nil && realm != nil && ser != nil, "anchor", c.at(x.ctor, ""), "the constructor takes no realm, serializer and authenticator") {
		return
	}
	cnt := map[string]int{}
	for _, h := range x.all {
		n := len(h.steps)
		if n == 0 || h.panic {
			continue
		}
		s := &h.steps[n-1]
		st := c.at(x.fn, s.msg).on(s.pos)
		prev := ""
		for i := 0; i < n-1; i++ {
			if h.steps[i].kind != "error" {
				prev = h.steps[i].msg
			}
		}
		if s.kind == "error" {
			if s.ret != nil {
				c.must(s.st.nothing(s.ret), "silent", st, "something is returned together with an error")
			}
			if s.msg == "Abort" && s.pos != nil && len(s.pos.rets) > 0 {
				cnt["Abort"]++
				er := s.st.rep(s.pos.rets[len(s.pos.rets)-1])
				c.must(c.tells(s.st, s.mark, er, append(c.su.gets(s.st, s.ptr, "Reason"), s.ptr, unbox(s.ptr))), "reason", st, "the error does not say for which reason the router refused: %v", er)
			}
			continue
		}
		cnt[s.msg]++
		switch s.msg {
		case "SendHello":
			c.sendsHello(x, s, st, realm, au)
		case "Challenge":
			c.must(prev == "SendHello", "order", st, "CHALLENGE is accepted after %q instead of right after HELLO", prev)
			ok := false
			for _, ev := range s.st.Events(s.mark) {
				if ev.Kind != EvCall || ev.Name != "invoke:Authenticate" || ev.Val == nil || ev.Args[0] != au || s.ret == nil {
					continue
				}
				v, known := s.st.isNilTerm(mkExtract(ev.Val, 1, errType()))
				r := unbox(s.ret)
				ok = known && v && r.op == OExtract && r.n == 0 && r.args[0] == ev.Val && len(ev.Args) == 2 && mentions(ev.Args[1], s.ptr)
			}
			c.must(ok, "answer", st, "CHALLENGE is not answered with what the authenticator produced for it")
		case "Welcome":
			c.must(prev == "SendHello" || prev == "Challenge", "order", st, "WELCOME is accepted after %q instead of after HELLO or AUTHENTICATE", prev)
			c.must(s.kind == "none", "answer", st, "WELCOME is answered with %s", s.kind)
			d, st2, f, ok := c.detailsOf(x, "Joiner", h)
			if !c.must(ok && !f && d != nil, "available", st, "there are no session details after WELCOME") {
				continue
			}
			wd := c.su.get(st2, s.ptr, "Details")
			same := func(acc string, ys ...*Term) {
				v := c.su.get(st2, d, acc)
				c.must(v != nil && st2.sameAny(v, ys), "same", site{st.fn, st.pos, st.o, "Welcome " + acc}, "the session details' %s is %v, not what WELCOME says", acc, v)
			}
			same("ID", c.su.gets(st2, s.ptr, "SessionID")...)
			same("Realm", realm)
			for _, p := range [][2]string{{"AuthID", "authid"}, {"AuthRole", "authrole"}, {"AuthMethod", "authmethod"}} {
				c.must(c.isOption(st2, c.su.get(st2, d, p[0]), wd, p[1]), "same", site{st.fn, st.pos, st.o, "Welcome " + p[0]}, "the session details' %s is not WELCOME's %s", p[0], p[1])
			}
			rr := c.su.get(st2, d, "RouterRoles")
			if ks, known := st2.sortedKeys(st2.rep(orNil(rr))); !(known && len(ks) == 0) {
				c.must(c.isOption(st2, rr, wd, "roles"), "same", site{st.fn, st.pos, st.o, "Welcome roles"}, "the session details' roles are not those of WELCOME")
			} else {
				c.must(roleless(st2, wd), "same", site{st.fn, st.pos, st.o, "Welcome roles"}, "the session details have no roles although WELCOME has")
			}
			same("StaticSerializer", c.su.gets(st2, ser, "Static")...)
		default:
			c.must(false, "other", st, "%s is accepted", s.msg)
		}
	}
	for _, m := range []string{"SendHello", "Challenge", "Welcome", "Abort"} {
		c.must(cnt[m] > 0, "reachable", c.at(x.fn, m), "%s is never accepted", m)
	}
	c.need("silent", 20)
	c.afterHistories(x, "Joiner")
	c.bytesLevel(x, "Joiner", func(h *hist) bool { return len(h.steps) <= 2 })
	// with the defaults
	y := c.histories("Joiner", "NewJoiner", []string{"SendHello"}, true)
	for _, h := range y.all {
		if n := len(h.steps); n > 0 && !h.panic && h.steps[n-1].kind != "error" {
			c.must(h.steps[n-1].msg == "SendHello" || h.steps[n-1].msg == "Welcome", "anonymous", c.at(y.fn, h.steps[n-1].msg).on(h.steps[n-1].pos), "%s is accepted without an authenticator", h.steps[n-1].msg)
		}
	}
}

// tells: one of the values is part of an error: of its text, or of what it points to.
func (c *Check) tells(st *State, mark int, er *Term, vs []*Term) bool {
	seen := map[*Term]bool{}
	var part func(t *Term) bool
	part = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if lv := st.loopOf[t]; lv != nil {
			if part(lv.Init) {
				return true
			}
			for i, p := range lv.Loop.Phis {
				for _, b := range lv.Loop.Backs {
					if lv.Phi != nil && p.Phi == lv.Phi && i < len(b.Next) && part(b.Next[i]) {
						return true
					}
				}
			}
		}
		for _, v := range vs {
			if t == v || t == st.rep(v) {
				return true
			}
		}
		if t.typ == nil {
		} else if _, slice := under(t.typ).(*types.Slice); slice {
			if es, ok := st.elems(t); ok {
				for _, x := range es {
					if part(x) {
						return true
					}
				}
			}
		}
		if t.op == OAlloc {
			if s := structOf(t.typ); s != nil {
				for i := range s.NumFields() {
					if part(st.load(mkField(t, i), s.Field(i).Type())) {
						return true
					}
				}
			}
		}
		for _, a := range t.args {
			if part(a) {
				return true
			}
		}
		return false
	}
	if part(st.rep(er)) {
		return true
	}
	// written to what makes the text
	for _, ev := range st.Events(mark) {
		if ev.Kind == EvCall && len(ev.Args) > 1 {
			for _, a := range ev.Args[1:] {
				if part(a) {
					return true
				}
			}
		}
	}
	return false
}

func orNil(t *Term) *Term {
	if t == nil {
		return mkNil()
	}
	return t
}

// roleless: the path knows that the dictionary has no usable roles.
func roleless(st *State, d *Term) bool {
	v := mkGet(d, mkStr("roles"), 0, types.NewInterfaceType(nil, nil))
	has := mkHas(d, mkStr("roles"), 0)
	if st.truth(has) == no {
		return true
	}
	for f, val := range st.facts {
		if !val && f.op == OAssertOK && st.same(f.args[0], v) {
			return true
		}
		if val && f.op == OBin && f.tok == token.EQL && f.args[1].isNil() && f.any(func(t *Term) bool { return st.rep(t) == st.rep(v) }) {
			return true
		}
	}
	return false
}

// isOption: x is the value of a dictionary under a key, in the type of x, or nothing if it has another type or none.
func (c *Check) isOption(st *State, x, d *Term, key string) bool {
	if x == nil || d == nil {
		return false
	}
	x = st.rep(x)
	v := st.rep(mkGet(st.rep(d), mkStr(key), 0, types.NewInterfaceType(nil, nil)))
	if x.op == OAssert && st.same(x.args[0], v) {
		return true
	}
	if st.same(x, v) {
		return true
	}
	if tt := typeOfTerm(x); tt != nil && st.same(x, mkAssert(v, tt)) {
		return true
	}
	if s, ok := x.constStr(); ok && s == "" {
		if st.truth(mkHas(st.rep(d), mkStr(key), 0)) == no {
			return true
		}
		return st.truth(mkAssertOK(v, tString)) == no
	}
	return false
}

// sendsHello: what SendHello sends is a HELLO for the realm in the name of the authenticator.
func (c *Check) sendsHello(x *explored, s *step, at site, realm, au *Term) {
	found := false
	for _, ev := range s.st.Events(s.mark) {
		if ev.Kind != EvCall || ev.Name != "invoke:Serialize" || ev.Val == nil || s.st.rep(s.ret) != s.st.rep(mkExtract(ev.Val, 0, typeOr(s.ret))) {
			continue
		}
		v, ok := s.st.isNilTerm(mkExtract(ev.Val, 1, errType()))
		c.must(ok && v, "hello", at, "the result of an encoding that failed is returned")
		if msgKind(s.st, ev.Args[1]) != "Hello" {
			continue
		}
		found = true
		pre := ev.Pre
		h := unbox(ev.Args[1])
		same := func(acc string, ys []*Term) {
			v := c.su.get(pre, h, acc)
			c.must(v != nil && pre.sameAny(v, ys), "hello", site{at.fn, at.pos, at.o, acc}, "the %s in HELLO is %v, not the one the session was asked to use", acc, v)
		}
		same("Realm", []*Term{realm})
		same("AuthID", c.su.gets(pre, au, "AuthID"))
		ex := c.su.get(pre, h, "AuthExtra")
		if ks, known := pre.sortedKeys(pre.rep(orNil(ex))); !(known && len(ks) == 0) {
			same("AuthExtra", c.su.gets(pre, au, "AuthExtra"))
		}
		ms := c.su.get(pre, h, "AuthMethods")
		es, known := pre.elems(pre.rep(orNil(ms)))
		c.must(known && len(es) == 1 && pre.sameAny(es[0], c.su.gets(pre, au, "AuthMethod")), "hello", at, "HELLO does not name the authenticator's method")
	}
	c.must(found, "hello", at, "SendHello does not return an encoded HELLO")
}

// ---- C24 ----

func ruleC24(c *Check) {
	c.selection()
	for _, nilArgs := range []bool{false, true} {
		x := c.histories("Acceptor", "NewAcceptor", nil, nilArgs)
		if x.fail != "" {
			return
		}
		au := x.ctorArg(func(t types.Type) bool { return isNamed(t, modPath+"/auth", "ServerAuthenticator") })
		for _, h := range x.all {
			n := len(h.steps)
			if n == 0 || h.panic || h.steps[n-1].msg != "Hello" {
				continue
			}
			s := &h.steps[n-1]
			st := c.at(x.fn, "Hello").on(s.pos)
			var sel *Event
			for _, ev := range s.st.Events(s.mark) {
				ev := ev
				if ev.Kind == EvCall && ev.Name == selectName && ev.Val != nil {
					sel = &ev
				}
			}
			if s.kind == "Welcome" || s.kind == "Challenge" {
				if !c.must(sel != nil, "selected", st, "HELLO is answered with %s without a method having been selected", s.kind) {
					continue
				}
			}
			if sel == nil {
				continue
			}
			if !nilArgs {
				c.must(s.st.sameAny(sel.Args[0], c.su.gets(s.st, au, "Methods")), "offered", st, "the method is selected from %v, not from the methods of the authenticator", sel.Args[0])
			} else {
				es, ok := sel.Pre.elems(sel.Pre.rep(sel.Args[0]))
				good := ok
				for _, e := range es {
					v, isC := s.st.rep(e).constStr()
					good = good && isC && v == "anonymous"
				}
				c.must(good, "offered", st, "the default authenticator offers other methods than anonymous")
			}
			c.must(s.st.sameAny(sel.Args[1], c.su.gets(s.st, s.ptr, "AuthMethods")), "offered", st, "the method is selected for %v, not for the methods in HELLO", sel.Args[1])
			v, known := s.st.isNilTerm(mkExtract(sel.Val, 1, errType()))
			switch {
			case known && !v:
				c.must(s.kind == "Abort", "refused", st, "HELLO is answered with %s although no method could be selected", s.kind)
			case s.kind == "Welcome" || s.kind == "Challenge":
				c.must(known && v, "refused", st, "HELLO is answered with %s although selecting a method may have failed", s.kind)
			}
			if s.kind == "Challenge" {
				m, _ := s.st.rep(mkExtract(sel.Val, 0, typeOr(c.methodSym()))).constStr()
				cm := c.su.get(s.st, unbox(s.ret), "AuthMethod")
				c.must(m != "" && cm != nil && s.st.truth(eq(cm, mkStr(m))) == yes, "carried-out", st, "CHALLENGE is for another method than the selected one")
			}
		}
	}
	c.need("refused", 4)
	c.need("offered", 4)
	c.need("carried-out", 3)
}

// elemOfList: t is an element of a list; its index.
func elemOfList(st *State, t, list *Term) *Term {
	t = stripConv(st.rep(t))
	if t.op == OInit && t.args[0].op == OIndex && st.rep(t.args[0].args[0]) == list {
		return t.args[0].args[1]
	}
	return nil
}

// selection checks SelectAuthMethod by itself.
func (c *Check) selection() {
	r := c.run("auth", "", "SelectAuthMethod", "")
	if r.fn == nil || len(r.args) != 2 {
		return
	}
	allowed, proposed := r.args[0], r.args[1]
	for i := range r.outs {
		o := &r.outs[i]
		if o.panicked || len(o.rets) != 2 {
			continue
		}
		st := o.st
		s := c.at(r.fn, "").on(o)
		f, known := failed(*o, 1)
		if !c.must(known, "outcome", s, "it is not clear whether an error is returned") {
			continue
		}
		empty := st.truth(eq(st.norm(mkLen(proposed, 0)), mkInt(0)))
		if empty == maybe {
			if z, ok := st.isNilTerm(proposed); ok && z {
				empty = yes
			}
		}
		// what the path knows about the enabled methods
		var in []*Term
		for g, v := range st.facts {
			if v && g.op == OCall && g.name == "slices.Contains" && g.args[0] == allowed {
				in = append(in, st.rep(stripConv(g.args[1])))
			}
		}
		for g, v := range st.eqv {
			if b, ok := v.constBool(); ok && b && g.op == OCall && g.name == "slices.Contains" && g.args[0] == allowed {
				in = append(in, st.rep(stripConv(g.args[1])))
			}
		}
		for _, q := range compared(st) {
			for k := 0; k < 2; k++ {
				if elemOfList(st, q.x, allowed) != nil {
					in = append(in, st.rep(stripConv(q.y)))
				}
				q.x, q.y = q.y, q.x
			}
		}
		if f {
			// nothing usable was passed over
			for _, m := range in {
				c.must(st.truth(eq(m, mkStr(""))) == yes, "fails", s, "the selection fails although %v is enabled and proposed", m)
			}
			if empty == yes {
				c.must(st.truth(mkCall("slices.Contains", 0, tBool, allowed, mkStr("anonymous"))) == no || c.searched(st), "fails", s, "the selection fails for a HELLO without methods although anonymous may be enabled")
			}
			continue
		}
		m := st.rep(stripConv(st.rep(o.rets[0])))
		enabled := elemOfList(st, m, allowed) != nil
		for _, x := range in {
			enabled = enabled || st.same(x, m)
		}
		c.must(enabled, "enabled", s, "the selected method %v is not known to be enabled", m)
		if empty == yes {
			c.must(st.truth(eq(m, mkStr("anonymous"))) == yes, "default", s, "%v is selected for a HELLO without methods", m)
			continue
		}
		idx := elemOfList(st, m, proposed)
		if idx == nil {
			for _, q := range compared(st) {
				for k := 0; k < 2; k++ {
					if st.same(stripConv(q.x), m) && elemOfList(st, q.y, proposed) != nil {
						idx = elemOfList(st, q.y, proposed)
					}
					q.x, q.y = q.y, q.x
				}
			}
		}
		if !c.must(idx != nil, "proposed", s, "the selected method %v is not one that was proposed", m) {
			continue
		}
		c.must(c.first(st, idx, allowed, proposed), "first", s, "the selected method need not be the first proposed one that is enabled")
	}
	c.need("enabled", 2)
	c.need("first", 1)
	c.need("default", 1)
}

// searched: the path went through a whole loop.
func (c *Check) searched(st *State) bool {
	for _, ev := range st.Events(0) {
		if ev.Kind == EvLoop && ev.Name == "done" {
			return true
		}
	}
	return false
}

// first: an index is reached by counting from 0, passing elements that are not enabled only.
func (c *Check) first(st *State, idx, allowed, proposed *Term) bool {
	if idx.op == OCall && (idx.name == "slices.Index" || strings.HasSuffix(idx.name, "IndexFunc")) && idx.args[0] == proposed {
		return true
	}
	if k, ok := idx.constInt(); ok {
		return k == 0
	}
	for _, ev := range st.Events(0) {
		if ev.Kind != EvLoop || ev.Loop == nil || ev.Name == "done" {
			continue
		}
		l := ev.Loop
		for i, ph := range l.Phis {
			off := int64(0)
			switch {
			case idx == ph.Sym:
			case idx == mkAdd(ph.Sym, 1, tInt):
				off = 1
			default:
				continue
			}
			if k, ok := ph.Init.constInt(); !ok || k+off != 0 {
				return false
			}
			for _, b := range l.Backs {
				if b.Next[i] != mkAdd(ph.Sym, 1, tInt) {
					return false
				}
				passed := c.searchedIn(b.St, b.Mark)
				for g, v := range b.St.facts {
					if !v && g.op == OCall && g.name == "slices.Contains" && g.args[0] == allowed && elemOfList(b.St, g.args[1], proposed) == idx {
						passed = true
					}
					// "" names no method
					if v && g.op == OBin && g.tok == token.EQL {
						x := stripConv(g.args[0])
						if y, ok := g.args[1].constStr(); ok && y == "" && x.op == OInit && x.args[0] == mkIndex(proposed, idx) {
							passed = true
						}
					}
				}
				if !passed {
					return false
				}
			}
			// an inner loop is searched in the right order if the outer one is over the proposals
			return len(l.Backs) > 0
		}
		if ev.Name == "loop" {
			// the outermost loop is over something else
			return false
		}
	}
	return false
}

func (c *Check) searchedIn(st *State, mark int) bool {
	for _, ev := range st.Events(mark) {
		if ev.Kind == EvLoop && ev.Name == "done" {
			return true
		}
	}
	return false
}

// ---- C25 ----

// randomBytes: t holds at least n bytes, all of them filled by the cryptographic source after a mark, without failure.
func randomBytes(st *State, t *Term, n int64, mark int) bool {
	t = st.rep(stripConv(st.rep(t)))
	if t.op == OSlice {
		t = st.content(t)
	}
	if t.op == OCall && t.name == "bytes" && len(t.args) == 3 {
		lo, hi := mustInt(t.args[1]), mustInt(t.args[2])
		o := t.args[0]
		if hi-lo < n || o.op != OCall || len(o.args) != 1 || !strings.HasPrefix(o.name, "out:") {
			return false
		}
		name := strings.TrimPrefix(o.name, "out:")
		for _, ev := range st.Events(mark) {
			if ev.Kind != EvCall || ev.Name != name || !randomSource(ev) {
				continue
			}
			arg := ev.Args[len(ev.Args)-1]
			if arg != o.args[0] || arg.op != OSlice || int64(arg.n) > lo || int64(arg.m) < hi {
				continue
			}
			return callWorked(st, ev)
		}
	}
	return false
}

func randomSource(ev Event) bool {
	switch ev.Name {
	case randRead:
		return true
	case "io.ReadFull":
		r := ev.Args[0]
		return r.any(func(t *Term) bool {
			return t.op == OGlobal && t.glob.Pkg != nil && t.glob.Pkg.Pkg.Path() == "crypto/rand"
		})
	}
	return false
}

// callWorked: the error a call returned is known to be nil.
func callWorked(st *State, ev Event) bool {
	for f, v := range st.facts {
		if v && f.op == OBin && f.tok == token.EQL && f.args[1].isNil() && f.args[0].op == OExtract && f.args[0].n == 1 {
			cl := f.args[0].args[0]
			if cl.op == OCall && cl.name == ev.Name && len(cl.args) > 0 && cl.args[len(cl.args)-1] == ev.Args[len(ev.Args)-1] {
				return true
			}
		}
	}
	return false
}

// encoded gives the bytes an encoded text was made of.
func encoded(st *State, t *Term) *Term {
	t = st.rep(stripConv(st.rep(t)))
	if t.op == OCall && len(t.args) > 0 && (t.name == hexEncode || t.name == b64Encode) {
		return t.args[len(t.args)-1]
	}
	return nil
}

// jsonObject gives the members of the JSON object a text is the encoding of.
func (c *Check) jsonObject(st *State, t *Term, mark int) (map[string]*Term, *State, string) {
	t = st.rep(stripConv(st.rep(t)))
	if t.op != OExtract || t.n != 0 || t.args[0].op != OCall || !strings.HasPrefix(t.args[0].name, jsonMarshal) {
		return nil, nil, "it is not JSON made for it"
	}
	for _, ev := range st.Events(mark) {
		if ev.Kind != EvCall || ev.Val != t.args[0] {
			continue
		}
		if v, ok := st.isNilTerm(mkExtract(ev.Val, 1, errType())); !ok || !v {
			return nil, nil, "encoding it may have failed"
		}
		a := ev.Pre.rep(unbox(ev.Args[0]))
		if m, ok := ev.Pre.dictionary(a); ok {
			return m, ev.Pre, ""
		}
		// a struct or a pointer to one
		tt := typeOfTerm(a)
		var get func(i int) *Term
		if tt != nil && structOf(tt) != nil && a.op == OStruct {
			get = func(i int) *Term { return a.args[i] }
		} else if e := addrElem(a); e != nil && structOf(e) != nil {
			tt = e
			get = func(i int) *Term { return ev.Pre.field(a, i) }
		}
		if get != nil {
			m := map[string]*Term{}
			s := structOf(tt)
			for i := 0; i < s.NumFields(); i++ {
				n := jsonName(s.Field(i).Name(), s.Tag(i), s.Field(i).Exported())
				if n != "" {
					m[n] = get(i)
				}
			}
			return m, ev.Pre, ""
		}
		return nil, nil, "what is encoded is not known"
	}
	return nil, nil, "it was not encoded for this handshake"
}

func ruleC25(c *Check) {
	for _, nilArgs := range []bool{false, true} {
		x := c.histories("Acceptor", "NewAcceptor", nil, nilArgs)
		if x.fail != "" {
			return
		}
		seen := map[string]bool{}
		for _, h := range x.all {
			n := len(h.steps)
			if n == 0 || h.panic || h.steps[n-1].kind != "Challenge" {
				continue
			}
			s := &h.steps[n-1]
			m, _ := c.su.get(s.st, unbox(s.ret), "AuthMethod").constStr()
			st := c.at(x.fn, m).on(s.pos)
			if m != "wampcra" && m != "cryptosign" {
				continue
			}
			seen[m] = true
			ch, ok := c.extraValue(s.st, unbox(s.ret), "Extra", "challenge")
			if !c.must(ok, "challenge", st, "CHALLENGE for %s carries no challenge", m) {
				continue
			}
			if m == "cryptosign" {
				c.cryptosignChallenge(s.st, ch, s.mark, st)
				continue
			}
			var ids, roles []*Term
			w := &shake{st: s.st}
			for _, a := range w.approvals(c, s.mark) {
				ids = append(ids, c.su.gets(s.st, a.res, "AuthID")...)
				roles = append(roles, c.su.gets(s.st, a.res, "AuthRole")...)
			}
			c.craChallenge(s.st, ch, s.mark, st, ids, roles, nil)
		}
		if !nilArgs {
			for _, m := range []string{"wampcra", "cryptosign"} {
				c.must(seen[m], "reachable", c.at(x.fn, m), "no CHALLENGE is sent for %s", m)
			}
			// the session id in the challenge is the one that is used
			for _, w := range x.shakes(c) {
				if w.method != "wampcra" || w.chal == nil || w.hs == nil {
					continue
				}
				ch, ok := c.extraValue(w.st, w.chal, "Extra", "challenge")
				if !ok {
					continue
				}
				m, _, _ := c.jsonObject(w.st, ch, w.hs.mark)
				c.must(m["session"] != nil && w.st.sameAny(m["session"], c.su.gets(w.st, w.wel, "SessionID")), "session", w.site, "the session id in the challenge is not that of the session")
			}
		}
	}
	r := c.run("auth", "", "GenerateCryptoSignChallenge", "")
	if r.fn != nil {
		good, bad := c.outcomes(r, 1)
		for _, o := range good {
			c.cryptosignChallenge(o.st, o.rets[0], 0, c.at(r.fn, "").on(o))
		}
		for _, o := range bad {
			c.must(o.st.nothing(o.rets[0]), "no-challenge", c.at(r.fn, "").on(o), "a challenge is returned together with an error")
		}
	}
	r = c.run("auth", "", "GenerateWAMPCRAChallenge", "")
	if r.fn != nil && len(r.args) == 4 {
		good, bad := c.outcomes(r, 1)
		for _, o := range good {
			c.craChallenge(o.st, o.rets[0], 0, c.at(r.fn, "").on(o), r.args[1:2], r.args[2:3], r.args[0])
		}
		for _, o := range bad {
			c.must(o.st.nothing(o.rets[0]), "no-challenge", c.at(r.fn, "").on(o), "a challenge is returned together with an error")
		}
	}
	r = c.run("auth", "", "GenerateCryptoSignKeyPair", "")
	if r.fn != nil {
		good, _ := c.outcomes(r, 2)
		for _, o := range good {
			seed := o.st.rep(stripConv(orNil(encoded(o.st, o.rets[1]))))
			if made := libraryKey(o.st, seed); made != nil {
				pub := o.st.rep(stripConv(orNil(encoded(o.st, o.rets[0]))))
				same := pub.op == OExtract && pub.n == 0 && pub.args[0] == made ||
					publicHex(o.st, o.rets[0], intern(Term{op: OExtract, args: []*Term{made}, n: 1, typ: pub.typ}))
				c.must(same || mentions(pub, made) && pub.op != OSub, "keypair", c.at(r.fn, "public").on(o), "the public key is %v, not that of the private key", o.rets[0])
				c.must(callWorked(o.st, Event{Name: made.name, Args: made.args}) || o.st.truth(eq(intern(Term{op: OExtract, args: []*Term{made}, n: 2, typ: errType()}), mkNil())) == yes, "keypair", c.at(r.fn, "").on(o), "a key is given out although generating it may have failed")
				continue
			}
			c.must(randomBytes(o.st, seed, 32, 0), "keypair", c.at(r.fn, "").on(o), "the private key is not 32 bytes from the cryptographic random source")
			c.must(publicHex(o.st, o.rets[0], seed), "keypair", c.at(r.fn, "public").on(o), "the public key is %v, not that of the private key", o.rets[0])
		}
	}
	c.need("random", 3)
	c.need("nonce", 2)
	c.need("names", 4)
}

func (c *Check) cryptosignChallenge(st *State, ch *Term, mark int, s site) {
	b := encoded(st, ch)
	c.must(b != nil && st.rep(stripConv(ch)).name == hexEncode, "random", s, "the challenge is not the hexadecimal form of random bytes")
	if b == nil {
		return
	}
	l, ok := st.norm(st.sliceLen(b)).constInt()
	c.must(ok && l == 32, "random", s, "the challenge is not made of 32 bytes")
	c.must(randomBytes(st, b, 32, mark), "random", s, "the challenge is not taken freshly and entirely from the cryptographic random source with its error checked")
}

func (c *Check) craChallenge(st *State, ch *Term, mark int, s site, ids, roles []*Term, session *Term) {
	m, pre, why := c.jsonObject(st, ch, mark)
	if !c.must(m != nil, "text", s, "the challenge text is not fit for its purpose: %s", why) {
		return
	}
	nonce := false
	for _, v := range m {
		if b := encoded(pre, unbox(v)); b != nil && randomBytes(st, b, 16, mark) {
			nonce = true
		}
	}
	c.must(nonce, "nonce", s, "the challenge contains no nonce of 16 bytes taken freshly from the cryptographic random source with its error checked")
	names := func(k string, ys []*Term) {
		c.must(m[k] != nil && st.sameAny(unbox(m[k]), ys), "names", site{s.fn, s.pos, s.o, s.tag + " " + k}, "the challenge does not name the %s it is issued for", k)
	}
	names("authid", ids)
	names("authrole", roles)
	names("authmethod", []*Term{mkStr("wampcra")})
	if session != nil {
		names("session", []*Term{session})
	}
}

func jsonName(field, tag string, exported bool) string {
	if !exported {
		return ""
	}
	n := strings.Split(reflect.StructTag(tag).Get("json"), ",")[0]
	if n == "-" {
		return ""
	}
	if n == "" {
		return field
	}
	return n
}

// ---- C26 ----

// truths splits outcomes by a boolean result.
func truths(o *Outcome, i int) (t, f *State) {
	for _, b := range o.st.clone().split(o.rets[i]) {
		if b.v {
			t = b.st
		} else {
			f = b.st
		}
	}
	return
}

func ruleC26(c *Check) {
	// wampcra
	if r := c.run("auth", "", "VerifyWAMPCRASignature", ""); r.fn != nil && len(r.args) == 3 {
		sig, chal, key := r.args[0], r.args[1], r.args[2]
		accepted := 0
		for i := range r.outs {
			o := &r.outs[i]
			if o.panicked {
				continue
			}
			s := c.at(r.fn, "").on(o)
			t, f := truths(o, 0)
			if t != nil {
				accepted++
				why := craAccepted(t, sig, chal, key)
				c.must(why == "", "accept", s, "a signature is accepted although %s", why)
			}
			if f != nil {
				c.must(craRefused(f, sig, chal, key), "refuse", s, "a signature is refused although it may be the base64 of the right HMAC-SHA256")
			}
		}
		c.must(accepted > 0, "reachable", c.at(r.fn, ""), "no signature is accepted")
	}
	if r := c.run("auth", "", "SignWAMPCRAChallenge", ""); r.fn != nil && len(r.args) == 2 {
		for i := range r.outs {
			o := &r.outs[i]
			if o.panicked {
				continue
			}
			k, m, b64 := macOf(o.st, o.rets[0])
			c.must(k != nil && b64 && o.st.same(stripConv(k), r.args[1]) && o.st.same(stripConv(m), r.args[0]), "sign", c.at(r.fn, "").on(o), "the result is not the base64 of the HMAC-SHA256 of the challenge under the key")
		}
	}
	if r := c.run("auth", "", "SignWAMPCRAChallengeBytes", ""); r.fn != nil && len(r.args) == 2 {
		for i := range r.outs {
			o := &r.outs[i]
			if o.panicked {
				continue
			}
			k, m, b64 := macOf(o.st, o.rets[0])
			c.must(k != nil && !b64 && o.st.same(stripConv(k), r.args[1]) && o.st.same(stripConv(m), r.args[0]), "sign", c.at(r.fn, "").on(o), "the result is not the HMAC-SHA256 of the challenge under the key")
		}
	}
	if r := c.run("auth", "", "DeriveWAMPCRAKey", ""); r.fn != nil && len(r.args) == 4 {
		for i := range r.outs {
			o := &r.outs[i]
			if o.panicked {
				continue
			}
			s := c.at(r.fn, "").on(o)
			a := pbkdf2Of(o.st, o.rets[0])
			if !c.must(a != nil, "derive", s, "the derived key is not the base64 of PBKDF2 with SHA-256") {
				continue
			}
			c.must(o.st.same(stripConv(a[0]), r.args[1]), "derive", s, "the secret is not what the key is derived from")
			c.must(o.st.same(stripConv(a[1]), r.args[0]), "derive", s, "the salt is not what the key is derived with")
			num := func(x, param *Term, def int64, what string) {
				if o.st.truth(mkCmp(token.LSS, mkInt(0), param)) == no {
					k, ok := o.st.norm(x).constInt()
					c.must(ok && k == def, "derive", s, "the default for the %s is not %d", what, def)
					return
				}
				c.must(o.st.same(x, param), "derive", s, "the %s is not the one given", what)
			}
			num(a[2], r.args[2], 1000, "number of iterations")
			num(a[3], r.args[3], 32, "key length")
		}
	}
	c.need("derive", 6)
	c.need("sign", 2)
	c.need("accept", 1)
	c.need("refuse", 1)
	c.clientCRA()
	c.serverCRA()
	// cryptosign
	if r := c.run("auth", "", "VerifyCryptoSignSignature", ""); r.fn != nil && len(r.args) == 2 {
		n := 0
		for i := range r.outs {
			o := &r.outs[i]
			if o.panicked {
				continue
			}
			s := c.at(r.fn, "").on(o)
			t, f := truths(o, 0)
			if t != nil {
				n++
				why := signAccepted(t, r.args[0], r.args[1])
				c.must(why == "", "verify", s, "a signature is accepted although %s", why)
				if v, ok := t.isNilTerm(o.rets[1]); !(ok && v) {
					c.must(false, "verify", s, "a signature is accepted together with an error")
				}
			}
			if f != nil {
				c.must(signRefused(f, r.args[0], r.args[1]), "verify", s, "a signature is refused although it may be right")
			}
		}
		c.must(n > 0, "reachable", c.at(r.fn, ""), "no signature is accepted")
	}
	if r := c.run("auth", "", "SignCryptoSignChallenge", ""); r.fn != nil && len(r.args) == 2 {
		good, bad := c.outcomes(r, 1)
		for _, o := range good {
			c.must(signedBy(o.st, o.rets[0], r.args[0], func(k *Term) bool { return o.st.same(stripConv(k), r.args[1]) }), "answer", c.at(r.fn, "").on(o), "the result is not the ed25519 signature of the challenge followed by the challenge")
		}
		for _, o := range bad {
			c.must(o.st.nothing(o.rets[0]), "answer", c.at(r.fn, "").on(o), "a signature is returned together with an error")
		}
	}
	c.clientCryptosign()
	c.clientTicket()
	x := c.acceptor()
	if x.fail != "" {
		return
	}
	for _, w := range x.shakes(c) {
		if w.auth == nil || w.hs == nil {
			continue
		}
		sig := c.su.get(w.st, w.auth, "Signature")
		switch w.method {
		case "wampcra":
			ct := false
			for _, q := range compared(w.st) {
				for k := 0; k < 2; k++ {
					if key, _, b64 := macOf(w.st, q.x); key != nil && signatureOf(w.st, q.y, sig, b64) {
						ct = ct || constantTime(q.how)
					}
					q.x, q.y = q.y, q.x
				}
			}
			c.must(ct, "constant-time", w.site, "the signature is not compared in constant time")
		case "cryptosign":
			ok := false
			for _, v := range verifications(w.st) {
				if v.key == nil || v.sig == nil || v.raw == nil {
					continue
				}
				ok = ok || w.st.truth(eq(w.st.norm(w.st.sliceLen(v.raw)), mkInt(96))) == yes && w.st.truth(eq(w.st.norm(w.st.sliceLen(v.key)), mkInt(32))) == yes
			}
			c.must(ok, "lengths", w.site, "a cryptosign session is welcomed although signature or key may have a wrong length")
		}
	}
	c.need("constant-time", 1)
	c.need("lengths", 1)
}

func craAccepted(st *State, sig, chal, key *Term) string {
	why := "it was not compared with an HMAC-SHA256"
	for _, q := range compared(st) {
		for i := 0; i < 2; i++ {
			k, m, b64 := macOf(st, q.x)
			if k != nil && signatureOf(st, q.y, sig, b64) {
				switch {
				case !st.same(stripConv(k), key):
					why = "the HMAC was made under another key"
				case !st.same(stripConv(m), chal):
					why = "the HMAC was made over something else than the challenge"
				case !constantTime(q.how):
					why = "the comparison does not take constant time"
				default:
					return ""
				}
			}
			q.x, q.y = q.y, q.x
		}
	}
	return why
}

func craRefused(st *State, sig, chal, key *Term) bool {
	for f, v := range st.facts {
		if v && !(f.op == OBin && f.tok == token.EQL && f.args[1].isNil()) && f.op != OBin {
			continue
		}
		if f.op == OBin && f.tok == token.EQL && f.args[1].isNil() && !v {
			// decoding failed
			x := f.args[0]
			if x.op == OExtract && x.n == 1 && x.args[0].op == OCall && x.args[0].name == b64Decode && stdEncoding(x.args[0].args[0]) && st.same(x.args[0].args[1], sig) {
				return true
			}
		}
		if v {
			if f.op == OBin && f.tok == token.EQL && f.args[0].op == OCall && f.args[0].name == ctCompare {
				if k, ok := f.args[1].constInt(); ok && k == 0 && refutes(st, f.args[0].args, sig, chal, key) {
					return true
				}
			}
			continue
		}
		if f.op == OCall && len(f.args) == 2 && refutes(st, f.args, sig, chal, key) {
			return true
		}
		if f.op == OBin && f.tok == token.EQL {
			if f.args[0].op == OCall && f.args[0].name == ctCompare && refutes(st, f.args[0].args, sig, chal, key) {
				return true
			}
			if refutes(st, f.args, sig, chal, key) {
				return true
			}
			// a decoded signature of another length than SHA-256 gives
			if k, ok := f.args[1].constInt(); ok && k == 32 && f.args[0].op == OLen && signatureOf(st, f.args[0].args[0], sig, false) {
				return true
			}
		}
	}
	return false
}

func refutes(st *State, xs []*Term, sig, chal, key *Term) bool {
	if len(xs) != 2 {
		return false
	}
	for i := 0; i < 2; i++ {
		k, m, b64 := macOf(st, xs[i])
		if k != nil && signatureOf(st, xs[1-i], sig, b64) && st.same(stripConv(k), key) && st.same(stripConv(m), chal) {
			return true
		}
	}
	return false
}

// pbkdf2Of: x is the base64 of a PBKDF2 key with SHA-256; password, salt, iterations and length.
func pbkdf2Of(st *State, x *Term) []*Term {
	x = st.rep(stripConv(st.rep(x)))
	if x.op != OCall || x.name != b64Encode || !stdEncoding(x.args[0]) {
		return nil
	}
	x = st.rep(stripConv(x.args[1]))
	if x.op != OCall || x.name != "golang.org/x/crypto/pbkdf2.Key" || len(x.args) != 5 || x.args[4].op != OFunc || funcName(x.args[4].fn) != "crypto/sha256.New" {
		return nil
	}
	return x.args[:4]
}

func signAccepted(st *State, sig, pub *Term) string {
	why := "it was not verified"
	for _, v := range verifications(st) {
		switch {
		case v.sig == nil || v.raw == nil || !st.same(v.sig, sig):
			why = "what was verified is not the decoded signature"
		case v.key == nil || !st.same(stripConv(v.key), pub):
			why = "it was verified under something else than the whole public key"
		case v.msg != nil:
			why = "what was verified is not the message that follows the signature"
		default:
			if st.truth(eq(st.norm(st.sliceLen(v.raw)), mkInt(96))) != yes {
				return "it may have another length than 96 bytes"
			}
			if st.truth(eq(st.norm(st.sliceLen(pub)), mkInt(32))) != yes {
				return "the public key may have another length than 32 bytes"
			}
			return ""
		}
	}
	return why
}

func signRefused(st *State, sig, pub *Term) bool {
	for f, v := range st.facts {
		if v {
			continue
		}
		switch {
		case f.op == OBin && f.tok == token.EQL:
			x := f.args[0]
			if f.args[1].isNil() && x.op == OExtract && x.n == 1 && x.args[0].op == OCall && x.args[0].name == hexDecode && st.same(x.args[0].args[0], sig) {
				return true
			}
			k, ok := f.args[1].constInt()
			if ok && x.op == OLen {
				if k == 32 && st.same(stripConv(x.args[0]), pub) {
					return true
				}
				if k == 96 && decodedHex(st, x.args[0]) != nil {
					return true
				}
				if k == 192 && st.same(x.args[0], sig) {
					return true
				}
			}
		case f.op == OExtract && f.n == 1 && f.args[0].op == OCall && f.args[0].name == signOpen:
			return true
		case f.op == OCall && f.name == "crypto/ed25519.Verify":
			return true
		}
	}
	for x, y := range st.eqv {
		if b, ok := y.constBool(); ok && !b && (x.op == OCall && x.name == "crypto/ed25519.Verify" || x.op == OExtract && x.args[0].op == OCall && x.args[0].name == signOpen) {
			return true
		}
	}
	return false
}

// signedBy: x is the hexadecimal ed25519 signature of a challenge under a key, followed by the challenge.
// pieces are the texts x is put together from.
func (st *State) pieces(x *Term) []*Term {
	x = st.rep(stripConv(st.rep(x)))
	join := func(xs []*Term) (r []*Term) {
		for _, y := range xs {
			r = append(r, st.pieces(unbox(st.rep(y)))...)
		}
		return r
	}
	switch {
	case x.op == OBin && x.tok == token.ADD && isBasic(typeOr(x), types.String):
		return join(x.args)
	case x.op == OConst:
		if k, ok := x.constStr(); ok && k == "" {
			return nil
		}
	case x.op == OCall && x.name == "strings.Join" && len(x.args) == 2:
		sep, ok := st.rep(x.args[1]).constStr()
		es, ok2 := st.elems(x.args[0])
		if ok && ok2 && sep == "" {
			return join(es)
		}
	case x.op == OCall && x.name == "fmt.Sprintf" && len(x.args) == 2:
		f, ok := st.rep(x.args[0]).constStr()
		es, ok2 := st.elems(x.args[1])
		plain := ok && ok2 && strings.NewReplacer("%s", "", "%v", "").Replace(f) == "" && len(f) == 2*len(es)
		for _, y := range es {
			t := typeOfTerm(unbox(st.rep(y)))
			plain = plain && t != nil && isBasic(t, types.String)
		}
		if plain {
			return join(es)
		}
	}
	return []*Term{x}
}

func signedBy(st *State, x, chal *Term, key func(*Term) bool) bool {
	x = st.rep(x)
	if ps := st.pieces(x); len(ps) == 2 && st.same(stripConv(ps[1]), chal) {
		h := st.rep(ps[0])
		return h.op == OCall && h.name == hexEncode && isSignature(st, h.args[0], chal, key)
	}
	if x.op != OBin || x.tok != token.ADD || !st.same(stripConv(x.args[1]), chal) {
		// signature and decoded challenge encoded together
		b := encoded(st, x)
		if b == nil || x.name != hexEncode || b.op != OAppend {
			return false
		}
		h := decodedHex(st, b.args[1])
		return h != nil && st.same(h, chal) && isSignature(st, b.args[0], chal, key)
	}
	h := st.rep(x.args[0])
	return h.op == OCall && h.name == hexEncode && isSignature(st, h.args[0], chal, key)
}

func isSignature(st *State, x, chal *Term, key func(*Term) bool) bool {
	x = st.rep(stripConv(x))
	if x.op != OCall || x.name != "crypto/ed25519.Sign" {
		return false
	}
	h := decodedHex(st, x.args[1])
	return h != nil && st.same(h, chal) && key(x.args[0])
}

// clientRuns analyses Authenticate of the client authenticator a constructor makes.
func (c *Check) clientRuns(ctor string, each func(s site, o *Outcome, args []*Term, challenge *Term, extra *Term)) {
	fn := c.su.p.fn("auth", "", ctor)
	if !c.must(fn != nil, "anchor", site{tag: ctor}, "auth.%s does not exist", ctor) {
		return
	}
	e := c.su.engine()
	s := c.su.p.start(e)
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, mkSym(q.Name(), q.Type()))
	}
	n := 0
	for _, o := range e.Call(s, fn, args, nil, 0, nil) {
		if o.panicked {
			continue
		}
		if len(o.rets) == 2 {
			if f, known := failed(o, 1); !known || f {
				continue
			}
		}
		x := o.st.rep(o.rets[0])
		if !c.must(x.op == OIface, "anchor", c.at(fn, ""), "the type of the authenticator is not known") {
			continue
		}
		m := c.su.method(x.typ, "Authenticate")
		t := c.su.msgType("Challenge")
		if m == nil || t == nil {
			continue
		}
		_, p := c.su.messageNamed(e, t, "challenge")
		val := o.st.load(p, t)
		extra := c.su.get(o.st, p, "Extra")
		c.signer = x
		pre := o.st.clone()
		for _, r := range e.Call(o.st, m, []*Term{x.args[0], val}, nil, 0, nil) {
			r := r
			if r.panicked {
				continue
			}
			n++
			for _, ch := range altered(pre, r.st, x.args[0]) {
				c.must(false, "kept", c.at(m, ctor).on(&r), "answering a challenge changes %s, which the next answer depends on", ch)
			}
			each(c.at(m, ctor).on(&r), &r, args, p, extra)
			if f, known := failed(r, 1); known && !f {
				given, told := c.su.get(r.st, x, "AuthExtra"), c.su.get(r.st, unbox(r.st.rep(r.rets[0])), "Extra")
				c.must(given != nil && told != nil && r.st.same(given, told), "extra", c.at(m, ctor).on(&r), "AUTHENTICATE does not carry the authextra of the authenticator")
			}
		}
	}
	c.must(n > 0, "reachable", c.at(fn, ""), "no authenticator can be made and used")
	if c.runs["auth."+ctor] == nil {
		c.runs["auth."+ctor] = &Run{Name: "auth." + ctor, e: e, fn: fn}
		c.paths += n
	}
}

func (c *Check) clientCRA() {
	c.clientRuns("NewWAMPCRAAuthenticator", func(s site, o *Outcome, args []*Term, ch, extra *Term) {
		f, known := failed(*o, 1)
		if !c.must(known, "client", s, "it is not clear whether an error is returned") || f {
			return
		}
		st := o.st
		sig := c.su.get(st, unbox(o.rets[0]), "Signature")
		if sig == nil {
			c.must(false, "client", s, "the answer has no signature")
			return
		}
		k, m, b64 := macOf(st, sig)
		if !c.must(k != nil && b64, "client", s, "the answer is not the base64 of an HMAC-SHA256") {
			return
		}
		c.must(c.isOption(st, stripConv(m), extra, "challenge"), "client", s, "what is signed is not the challenge")
		if len(args) < 2 {
			return
		}
		if st.same(stripConv(k), args[1]) {
			// without salt
			sv := option(extra, "salt", tString)
			c.must(st.truth(eq(sv, mkStr(""))) == yes || st.isEmpty(sv) || st.truth(mkAssertOK(sv.args[0], tString)) == no || st.truth(mkHas(extra, mkStr("salt"), 0)) == no, "client", s, "the plain secret is used although there is a salt")
			return
		}
		a := pbkdf2Of(st, k)
		if !c.must(a != nil, "client", s, "the key is neither the secret nor derived from it") {
			return
		}
		c.must(st.same(stripConv(a[0]), args[1]), "client", s, "the key is not derived from the secret")
		c.must(c.isOption(st, stripConv(a[1]), extra, "salt"), "client", s, "the key is not derived with the challenge's salt")
		from := func(x *Term, key string, def int64) bool {
			of := func(x *Term) bool {
				return x.any(func(t *Term) bool { s, ok := t.constStr(); return ok && s == key })
			}
			if k, ok := st.norm(x).constInt(); ok {
				asked := false // the default only where the option is no positive number, of the types codecs produce
				for f := range st.facts {
					asked = asked || of(f)
				}
				opt := option(extra, key, tString).args[0]
				for _, t := range []types.Type{types.Typ[types.Int64], types.Typ[types.Uint64], types.Typ[types.Float64]} {
					if st.truth(mkAssertOK(opt, t)) != no && !st.nonPositive(st.rep(mkAssert(opt, t)), def) {
						return false
					}
				}
				return k == def && asked
			}
			return of(x) && !x.any(func(t *Term) bool { return t.op == OBin })
		}
		c.must(from(a[2], "iterations", 1000), "client", s, "the number of iterations is not the challenge's")
		c.must(from(a[3], "keylen", 32), "client", s, "the key length is not the challenge's")
	})
	c.need("client", 4)
}

// nonPositive: a number is known to be no positive one that fits a Go int, or to be the given one.
func (st *State) nonPositive(v *Term, or int64) bool {
	for f, b := range st.facts {
		if f.op != OBin || len(f.args) != 2 || !mentions(f, v) {
			continue
		}
		x, y := f.args[0], f.args[1]
		k, right := y, y.op == OConst && y.val != nil
		if !right {
			if k = x; x.op != OConst || x.val == nil {
				continue
			}
		}
		if k.val.Kind() != constant.Int && k.val.Kind() != constant.Float {
			continue
		}
		c, _ := constant.Float64Val(constant.ToFloat(k.val))
		const huge = 1 << 53
		switch {
		case f.tok == token.EQL && b && (c <= 0 || c == float64(or)),
			f.tok == token.LSS && right && b && c <= 1,
			f.tok == token.LSS && !right && !b && c <= 0,
			f.tok == token.LSS && right && !b && c >= huge,
			f.tok == token.LSS && !right && b && c >= huge,
			f.tok == token.LEQ && right && b && c <= 0,
			f.tok == token.LEQ && !right && !b && c <= 1,
			f.tok == token.LEQ && right && !b && c >= huge,
			f.tok == token.LEQ && !right && b && c >= huge:
			return true
		}
	}
	return false
}

// serverCRA: what the client needs to derive the key is what the server derives it with.
func (c *Check) serverCRA() {
	x := c.acceptor()
	if x.fail != "" {
		return
	}
	t := c.su.p.typ("auth", "CRAResponse")
	for _, h := range x.all {
		n := len(h.steps)
		if n == 0 || h.panic || h.steps[n-1].kind != "Challenge" || t == nil {
			continue
		}
		s := &h.steps[n-1]
		if m, _ := c.su.get(s.st, unbox(s.ret), "AuthMethod").constStr(); m != "wampcra" {
			continue
		}
		st := c.at(x.fn, "wampcra").on(s.pos)
		w := &shake{st: s.st}
		as := w.approvals(c, s.mark)
		if len(as) == 0 {
			continue
		}
		resp := mkAssert(as[len(as)-1].res, types.NewPointer(t))
		salt := c.su.get(s.st, resp, "Salt")
		v, ok := c.extraValue(s.st, unbox(s.ret), "Extra", "salt")
		if salt != nil && s.st.truth(eq(salt, mkStr(""))) == yes {
			c.must(!ok || s.st.truth(eq(v, mkStr(""))) == yes, "salted", st, "CHALLENGE carries a salt although the key is not salted")
			continue
		}
		c.must(ok && salt != nil && s.st.same(v, salt), "salted", st, "CHALLENGE does not carry the salt")
		for _, p := range [][2]string{{"iterations", "Iterations"}, {"keylen", "KeyLen"}} {
			v, ok := c.extraValue(s.st, unbox(s.ret), "Extra", p[0])
			want := c.su.get(s.st, resp, p[1])
			c.must(ok && want != nil && s.st.same(v, want), "salted", site{st.fn, st.pos, st.o, p[0]}, "CHALLENGE does not carry the %s the key is derived with", p[0])
		}
	}
	c.need("salted", 4)
}

func (c *Check) clientCryptosign() {
	c.clientRuns("NewCryptoSignAuthenticator", func(s site, o *Outcome, args []*Term, ch, extra *Term) {
		f, known := failed(*o, 1)
		if !c.must(known, "client-sign", s, "it is not clear whether an error is returned") || f {
			return
		}
		st := o.st
		sig := c.su.get(st, unbox(o.rets[0]), "Signature")
		if sig == nil || len(args) < 2 {
			c.must(false, "client-sign", s, "the answer has no signature")
			return
		}
		c.announced(o, args, s)
		chal := option(extra, "challenge", tString)
		key := func(k *Term) bool {
			k = st.rep(stripConv(k))
			if k.op != OCall || k.name != "crypto/ed25519.NewKeyFromSeed" {
				return false
			}
			h := decodedHex(st, k.args[0])
			return h != nil && st.same(h, args[1])
		}
		c.must(signedBy(st, sig, st.rep(chal), key), "client-sign", s, "the answer is not the signature of the challenge under the private key followed by the challenge")
	})
	c.need("client-sign", 1)
}

// announced: the public key a cryptosign client announces is that of its private key.
func (c *Check) announced(o *Outcome, args []*Term, s site) {
	st := o.st
	x := c.signer
	if x == nil {
		return
	}
	extra := c.su.get(st, x, "AuthExtra")
	if !c.must(extra != nil, "announced", s, "AuthExtra of the authenticator has no single value") {
		return
	}
	for _, l := range st.clone().lookup(extra, mkStr("pubkey"), anyType()) {
		if !c.must(l.st.truth(l.has) != no, "announced", s, "no public key is announced") {
			continue
		}
		v := l.st.rep(l.val)
		if v.op != OIface {
			if !c.must(l.st.truth(mkAssertOK(v, tString)) != no, "announced", s, "a public key that is no string is announced") {
				continue
			}
			v = mkAssert(v, tString)
		}
		v = l.st.rep(unbox(v))
		if v.op == OAssert {
			// given by the caller: it must be known to be the right one
			ok := false
			for f, b := range l.st.facts {
				if b && f.op == OBin && f.tok == token.EQL {
					for i := range f.args {
						ok = ok || l.st.same(f.args[i], v) && publicHex(l.st, f.args[1-i], args[1])
					}
				}
			}
			c.must(ok || publicHex(l.st, l.st.rep(v), args[1]), "announced", s, "the public key that is announced is not compared with that of the private key")
			continue
		}
		c.must(publicHex(l.st, v, args[1]), "announced", s, "the public key that is announced is %v, not that of the private key", v)
	}
}

// libraryKey gives the call of the library that generated the key a seed belongs to.
func libraryKey(st *State, seed *Term) (made *Term) {
	if seed.op == OSub {
		lo, _ := seed.args[1].constInt()
		hi, ok := seed.args[2].constInt()
		if lo != 0 || !ok || hi != 32 {
			return nil
		}
		seed = seed.args[0]
	} else if seed.op == OCall && strings.Contains(seed.name, "ed25519.PrivateKey") && strings.HasSuffix(seed.name, ".Seed") {
		seed = st.rep(stripConv(seed.args[0]))
	} else {
		return nil
	}
	if seed.op != OExtract || seed.n != 1 || seed.args[0].op != OCall || seed.args[0].name != "crypto/ed25519.GenerateKey" {
		return nil
	}
	made = seed.args[0]
	if a := made.args[0]; !a.isNil() && !randomSource(Event{Name: "io.ReadFull", Args: []*Term{a}}) {
		return nil
	}
	return made
}

// publicHex: x is the hexadecimal form of the whole public key of a private key.
func publicHex(st *State, x, private *Term) bool {
	x = st.rep(x)
	if x.op != OCall || !strings.Contains(x.name, "hex.EncodeToString") && !strings.Contains(x.name, "fmt.Sprintf") || !mentions(x, private) {
		return false
	}
	isKey := func(t *Term) bool { return t.op == OCall && strings.HasSuffix(t.name, "ed25519.NewKeyFromSeed") }
	isPublic := func(t *Term) bool {
		return t.op == OCall && strings.Contains(t.name, "ed25519.PrivateKey") && strings.HasSuffix(t.name, ".Public") && t.any(isKey)
	}
	public := x.any(isPublic)
	cut := x.any(func(t *Term) bool {
		if t.op != OSub || !t.args[0].any(isKey) {
			return false
		}
		lo, _ := t.args[1].constInt()
		hi, upto := t.args[2].constInt()
		if isKey(t.args[0]) {
			// the second half of a private key is the public key
			public = public || lo == 32
			return lo != 32 || upto && hi != 64
		}
		return lo != 0 || upto && hi != 32
	})
	return public && !cut
}

func (c *Check) clientTicket() {
	c.clientRuns("NewTicketAuthenticator", func(s site, o *Outcome, args []*Term, ch, extra *Term) {
		if f, known := failed(*o, 1); !known || f || len(args) < 2 {
			return
		}
		sig := c.su.get(o.st, unbox(o.rets[0]), "Signature")
		c.must(sig != nil && o.st.same(sig, args[1]), "ticket", s, "the answer is not the ticket")
	})
	c.need("ticket", 1)
}

// altered lists what an object was given when it was made and does not have any more. What was
// empty then may be filled in.
func altered(pre, st *State, obj *Term) []string {
	var r []string
	for a, v0 := range pre.mem {
		v, ok := st.mem[a]
		if a.root() != obj.root() || !ok || v == v0 || st.same(v, v0) || v0.op == OConst || v0.isNil() {
			continue
		}
		r = append(r, a.String())
	}
	for m, m0 := range pre.maps {
		ms := st.maps[m]
		if ms == nil || ms == m0 || len(ms.log) == len(m0.log) && ms.known == m0.known {
			continue
		}
		_, vt := mapOf(typeOr(m))
		for _, u := range ms.log {
			has, v := pre.hasKey(m, u.key, vt)
			if has == no && !u.del || has == yes && !u.del && v != nil && st.same(v, u.val) || has == no && u.del {
				continue
			}
			late := true // written since
			for _, w := range m0.log {
				if w == u {
					late = false
				}
			}
			if late {
				r = append(r, m.String())
			}
		}
	}
	sort.Strings(r)
	return r
}
