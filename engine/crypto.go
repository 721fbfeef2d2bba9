package main

// The idealised primitives.  Hashes, MACs, Diffie-Hellman, the block cipher
// and the signature group are uninterpreted functions over byte vectors; the
// rules below are the equational facts used about them (see DESIGN.md).

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func hashLike(fn string) bool {
	switch fn {
	case "hmac256", "hmac512", "sha256", "sha512", "base", "dh", "mont2ed", "scred":
		return true
	}
	return false
}

// appAt tells whether byte t is byte k of some application's output.
func appAt(t *Term) (*App, int) {
	if t.op == OpAppB {
		return t.app, int(t.k)
	}
	// outputs with masked top bits (byte 31 of a field element)
	if t.op == OpConcat {
		for _, x := range t.a {
			y := x
			if y.op == OpExtract {
				y = y.a[0]
			}
			if y.op == OpAppB && y.app.bytes[y.k] == t {
				return y.app, int(y.k)
			}
		}
	}
	return nil, 0
}

func runAt(v []*Term, i int) (*App, int, int) {
	a, k := appAt(v[i])
	if a == nil {
		return nil, 0, 0
	}
	n := 1
	for i+n < len(v) && k+n < a.n && v[i+n] == a.bytes[k+n] {
		n++
	}
	return a, k, n
}

// eqVec is the equality of two byte strings under the idealisation.
func (w *Worker) eqVec(a, b []*Term) *Term {
	T := w.T
	if len(a) != len(b) {
		return T.False
	}
	a, b = w.substVec(a), w.substVec(b)
	var cs []*Term
	fresh := 0
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		x, kx, nx := runAt(a, i)
		y, ky, ny := runAt(b, i)
		if x != nil && y != nil && kx == ky {
			n := nx
			if ny < n {
				n = ny
			}
			if n >= 8 {
				c := w.eqApp(x, y, kx, n)
				if c == T.False {
					return T.False
				}
				cs = append(cs, c)
				i += n
				continue
			}
		}
		if h := w.cur.honest; h != nil {
			if n, c := w.euf(a[i:], b[i:], x, kx, nx, h); n > 0 {
				cs = append(cs, c)
				i += n
				continue
			}
			if n, c := w.euf(b[i:], a[i:], y, ky, ny, h); n > 0 {
				cs = append(cs, c)
				i += n
				continue
			}
		}
		c := T.Eq(a[i], b[i])
		if c == T.False {
			return T.False
		}
		if w.freshPair(a[i], b[i]) || w.freshPair(b[i], a[i]) || outConst(x, b[i]) || outConst(y, a[i]) {
			if fresh++; fresh >= 16 {
				return T.False
			}
		}
		cs = append(cs, c)
		i++
	}
	return T.And(cs...)
}

// outConst tells whether a byte of a primitive's output meets a constant:
// sixteen such bytes are assumed never to coincide.
func outConst(x *App, b *Term) bool {
	return x != nil && b.isConst() && (hashLike(x.fn) || x.fn == "scmuladd")
}

// freshPair tells whether a is a byte of a random draw and b is a constant, a
// byte of another draw or the output of a primitive: sixteen such bytes are
// assumed never to coincide.
func (w *Worker) freshPair(a, b *Term) bool {
	d := w.randOf[a]
	if d == 0 {
		return false
	}
	if b.isConst() || b.op == OpAppB {
		return true
	}
	e := w.randOf[b]
	return e != 0 && e != d
}

// euf: a MAC computed by the verifier can equal an attacker-influenced tag
// only if an honest party computed that very MAC before.
func (w *Worker) euf(a, b []*Term, x *App, k, n int, honest map[*App]bool) (int, *Term) {
	if x == nil || k != 0 || n < 8 || !strings.HasPrefix(x.fn, "hmac") {
		return 0, nil
	}
	taint := false
	for j := 0; j < n; j++ {
		if b[j].taint {
			taint = true
		}
	}
	if !taint {
		return 0, nil
	}
	T := w.T
	var alts []*Term
	for _, h := range w.cur.macs {
		if !honest[h] || h.fn != x.fn || len(h.args[1]) != len(x.args[1]) {
			continue
		}
		tag := make([]*Term, 0, n)
		for j := 0; j < n; j++ {
			tag = append(tag, T.Eq(b[j], h.bytes[j]))
		}
		c := T.And(append(tag, w.eqVec(x.args[0], h.args[0]), w.eqVec(x.args[1], h.args[1]))...)
		alts = append(alts, c)
	}
	return n, T.Or(alts...)
}

func (w *Worker) eqApp(x, y *App, k, n int) *Term {
	T := w.T
	if x == y {
		return T.True
	}
	bytewise := func() *Term {
		cs := make([]*Term, n)
		for j := range cs {
			cs[j] = T.Eq(x.bytes[k+j], y.bytes[k+j])
		}
		return T.And(cs...)
	}
	if x.fn != y.fn {
		if x.fn == "smult" && y.fn == "dh" {
			x, y = y, x
		}
		if x.fn == "dh" && y.fn == "smult" {
			// multiplication by one scalar is injective; equal products
			// with different scalars are not found
			k, p := y.args[0], y.args[1]
			a, b := x.args[0], x.args[1]
			return T.Or(T.And(w.eqVec(k, a), w.eqVec(p, w.feApp("base", 1, b).bytes)),
				T.And(w.eqVec(k, b), w.eqVec(p, w.feApp("base", 1, a).bytes)))
		}
		if hashLike(x.fn) && hashLike(y.fn) {
			return T.False
		}
		return bytewise()
	}
	memo := w.cur.honest == nil
	key := [2]*App{x, y}
	if memo {
		if r, ok := w.eqMemo[key]; ok {
			return r
		}
	}
	var r *Term
	switch {
	case x.fn == "dh":
		r = T.Or(T.And(w.eqVec(x.args[0], y.args[0]), w.eqVec(x.args[1], y.args[1])),
			T.And(w.eqVec(x.args[0], y.args[1]), w.eqVec(x.args[1], y.args[0])))
	case hashLike(x.fn), x.fn == "b64", x.fn == "smult":
		cs := []*Term{}
		for i := range x.args {
			cs = append(cs, w.eqVec(x.args[i], y.args[i]))
		}
		r = T.And(cs...)
	case (x.fn == "aesenc" || x.fn == "aesdec") && n == 16 && sameVec(x.args[0], y.args[0]):
		r = w.eqVec(x.args[1], y.args[1])
	default:
		return bytewise()
	}
	if memo {
		w.eqMemo[key] = r
	}
	return r
}

// axiomsFor gives the equational facts relating an application to the
// applications already known to the solver.
func (w *Worker) axiomsFor(s *Solver, a *App) []*Term {
	T := w.T
	var out []*Term
	vecEq := func(x, y []*Term) *Term {
		if len(x) != len(y) {
			return T.False
		}
		cs := make([]*Term, len(x))
		for i := range x {
			cs[i] = T.Eq(x[i], y[i])
		}
		return T.And(cs...)
	}
	imp := func(c, d *Term) { out = append(out, T.Or(T.Not(c), d)) }
	switch a.fn {
	case "aesenc", "aesdec":
		inv := map[string]string{"aesenc": "aesdec", "aesdec": "aesenc"}[a.fn]
		for _, o := range s.apps {
			if o.fn == inv && len(o.args[0]) == len(a.args[0]) {
				imp(T.And(vecEq(a.args[0], o.args[0]), vecEq(a.bytes, o.args[1])), vecEq(o.bytes, a.args[1]))
				imp(T.And(vecEq(a.args[0], o.args[0]), vecEq(o.bytes, a.args[1])), vecEq(a.bytes, o.args[1]))
			}
		}
	case "smult":
		for _, o := range s.apps {
			if o.fn == "base" {
				imp(vecEq(a.args[1], o.bytes), vecEq(a.bytes, w.dh(a.args[0], o.args[0])))
			}
		}
	case "base":
		for _, o := range s.apps {
			if o.fn == "smult" {
				imp(vecEq(o.args[1], a.bytes), vecEq(o.bytes, w.dh(o.args[0], a.args[0])))
			}
		}
	}
	return out
}

// ---------- group ----------

// aes applies the block cipher or its inverse.
func (w *Worker) aes(fn string, k, b []*Term) []*Term {
	inv := "aesdec"
	if fn == inv {
		inv = "aesenc"
	}
	if x := isApp(b); x != nil && x.fn == inv && sameVec(x.args[0], k) {
		return x.args[1]
	}
	return w.T.App(fn, 16, k, b).bytes
}

// feApp builds an application whose output is a canonical field encoding:
// the top bits of byte 31 are clear.
func (w *Worker) feApp(fn string, clear int, args ...[]*Term) *App {
	a := w.T.App(fn, 32, args...)
	if b := a.bytes[31]; b.op == OpAppB {
		a.bytes[31] = w.T.Concat(w.T.Const(uint8(clear), 0), w.T.Extract(b, 7-clear, 0))
	}
	return a
}

func vecLess(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i].id < b[i].id
		}
	}
	return false
}

func (w *Worker) dh(a, b []*Term) []*Term {
	if vecLess(b, a) {
		a, b = b, a
	}
	return w.feApp("dh", 1, a, b).bytes
}

func (w *Worker) clamp(k []*Term) []*Term {
	T := w.T
	k = append([]*Term(nil), k...)
	k[0] = T.BAnd(k[0], T.Const(8, 248))
	k[31] = T.BOr(T.BAnd(k[31], T.Const(8, 127)), T.Const(8, 64))
	return k
}

func (w *Worker) scalarMult(scalar, point []*Term) []*Term {
	T := w.T
	k := w.clamp(scalar)
	p := append([]*Term(nil), point...)
	p[31] = T.BAnd(p[31], T.Const(8, 127))
	nine := p[0] == T.bytes[9]
	for _, t := range p[1:] {
		if t != T.bytes[0] {
			nine = false
		}
	}
	if nine {
		return w.feApp("base", 1, k).bytes
	}
	return w.pointMult(k, p)
}

// pointMult multiplies a masked point by a clamped scalar.
func (w *Worker) pointMult(k, p []*Term) []*Term {
	if a, i, n := runAt(p, 0); a != nil && i == 0 && n == 32 && a.fn == "base" {
		return w.dh(k, a.args[0])
	}
	return w.feApp("smult", 1, k, p).bytes
}

// edEnc is the encoding of the Edwards point a*B.
func (w *Worker) edEnc(a []*Term) []*Term {
	T := w.T
	u := w.feApp("base", 1, a).bytes
	y := append([]*Term(nil), w.feApp("mont2ed", 1, u).bytes...)
	sg := T.App("sgn", 1, a).bytes[0]
	y[31] = T.Concat(T.Extract(sg, 0, 0), T.Extract(y[31], 6, 0))
	return y
}

// field-element expressions (opaque in slot 0 of a FieldElement)
type FE struct {
	op string
	a  []*FE
	v  []*Term
}

func (e *FE) shape() string {
	if e.op == "bytes" || e.op == "one" {
		return e.op
	}
	var s []string
	for _, x := range e.a {
		s = append(s, x.shape())
	}
	return e.op + "(" + strings.Join(s, ",") + ")"
}

func (e *FE) leaves(out [][]*Term) [][]*Term {
	if e.op == "bytes" {
		return append(out, e.v)
	}
	for _, x := range e.a {
		out = x.leaves(out)
	}
	return out
}

func (e *FE) isOne() bool { return e.op == "one" }

// plusMinus recognises leaf-1 / leaf+1 / 1+leaf.
func (e *FE) uOf(op string) *FE {
	if e.op != op {
		return nil
	}
	if e.a[0].op == "bytes" && e.a[1].isOne() {
		return e.a[0]
	}
	if op == "add" && e.a[1].op == "bytes" && e.a[0].isOne() {
		return e.a[1]
	}
	return nil
}

// GE is a group element a*B (opaque in slot 0).
type GE struct{ a []*Term }

func (w *Worker) feAt(v Value) *FE {
	p := w.ptr(v)
	switch x := w.cur.loadN(p, 1)[0].(type) {
	case *FE:
		return x
	case *Term:
		if x.isConst() && x.k == 0 {
			return &FE{op: "zero"}
		}
	}
	panic(pathEnd{"unsupported", "field element built outside the modelled operations"})
}

func (w *Worker) putFE(v Value, e *FE) {
	p := w.ptr(v)
	w.cur.wobj(p.obj).slots[p.off] = e
}

func (w *Worker) feBytes(e *FE) []*Term {
	if e.op == "mul" {
		for i := 0; i < 2; i++ {
			n, d := e.a[i], e.a[1-i]
			if d.op == "inv" {
				if u, v := n.uOf("sub"), d.a[0].uOf("add"); u != nil && v != nil && sameVec(u.v, v.v) {
					return w.feApp("mont2ed", 1, u.v).bytes
				}
			}
		}
	}
	return w.feApp("fe:"+e.shape(), 1, e.leaves(nil)...).bytes
}

type sigEvent struct{ R, A, m, S []*Term }

// sigEvents lists the signatures S = k*a + r with k = H(R || A || m) made on
// this path.
func (w *Worker) sigEvents() []sigEvent {
	var out []sigEvent
	for _, x := range w.cur.muls {
		k := isAppF(x.args[0])
		if k == nil || k.fn != "scred" {
			continue
		}
		h := isApp(k.args[0])
		if h == nil || h.fn != "sha512" || len(h.args[0]) < 64 {
			continue
		}
		r := x.args[2]
		A := w.edEnc(x.args[1])
		R := w.edEnc(r)
		d := h.args[0]
		if !sameVec(d[:32], R) || !sameVec(d[32:64], A) {
			continue
		}
		out = append(out, sigEvent{R, A, d[64:], x.bytes})
	}
	return out
}

// isAppF is isApp for outputs with masked bytes.
func isAppF(v []*Term) *App {
	if len(v) == 0 {
		return nil
	}
	a, k, n := runAt(v, 0)
	if a == nil || k != 0 || n != len(v) || a.n != n {
		return nil
	}
	return a
}

func initCrypto(I map[string]Intrinsic) {
	// ---- hashes (called by the Go model in vh/model) ----
	I["vh/model.shaApp"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		kind := constInt(a[0])
		return w.cur.newBytes(w.T.App(fmt.Sprintf("sha%d", kind), kind/8, w.argBytes(a[1])).bytes)
	}
	I["vh/model.hmacApp"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		kind := constInt(a[0])
		x := w.T.App(fmt.Sprintf("hmac%d", kind), kind/8, w.argBytes(a[1]), w.argBytes(a[2]))
		w.cur.macs = append(w.cur.macs, x)
		return w.cur.newBytes(x.bytes)
	}
	block := func(fn string) Intrinsic {
		return func(w *Worker, a []Value, _ *ssa.Function) Value {
			return w.cur.newBytes(w.aes(fn, w.argBytes(a[0]), w.argBytes(a[1])))
		}
	}
	I["vh/model.aesEnc"] = block("aesenc")
	I["vh/model.aesDec"] = block("aesdec")

	// ---- curve25519 ----
	sm := func(w *Worker, a []Value, _ *ssa.Function) Value {
		w.storeBytes(a[0], w.scalarMult(w.loadBytesS(a[1], 32), w.loadBytesS(a[2], 32)))
		return nil
	}
	I["golang.org/x/crypto/curve25519.ScalarMult"] = sm
	I["golang.org/x/crypto/curve25519.ScalarBaseMult"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		p := make([]*Term, 32)
		for i := range p {
			p[i] = w.T.bytes[0]
		}
		p[0] = w.T.bytes[9]
		w.storeBytes(a[0], w.scalarMult(w.loadBytesS(a[1], 32), p))
		return nil
	}

	// ---- edwards25519 ----
	E := repoMod + "/ecc/edwards25519."
	I[E+"FeFromBytes"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		v := w.loadBytesS(a[1], 32)
		v[31] = w.T.BAnd(v[31], w.T.Const(8, 127))
		w.putFE(a[0], &FE{op: "bytes", v: v})
		return nil
	}
	I[E+"FeOne"] = func(w *Worker, a []Value, _ *ssa.Function) Value { w.putFE(a[0], &FE{op: "one"}); return nil }
	bin := func(op string) Intrinsic {
		return func(w *Worker, a []Value, _ *ssa.Function) Value {
			x, y := w.feAt(a[1]), w.feAt(a[2])
			w.putFE(a[0], &FE{op: op, a: []*FE{x, y}})
			return nil
		}
	}
	I[E+"FeAdd"] = bin("add")
	I[E+"FeSub"] = bin("sub")
	I[E+"FeMul"] = bin("mul")
	I[E+"FeInvert"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		x := w.feAt(a[1])
		w.putFE(a[0], &FE{op: "inv", a: []*FE{x}})
		return nil
	}
	I[E+"FeCopy"] = func(w *Worker, a []Value, _ *ssa.Function) Value { w.putFE(a[0], w.feAt(a[1])); return nil }
	I[E+"FeToBytes"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		w.storeBytes(a[0], w.feBytes(w.feAt(a[1])))
		return nil
	}
	I[E+"GeScalarMultBase"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		p := w.ptr(a[0])
		w.cur.wobj(p.obj).slots[p.off] = &GE{w.loadBytesS(a[1], 32)}
		return nil
	}
	I["(*"+repoMod+"/ecc/edwards25519.ExtendedGroupElement).ToBytes"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		p := w.ptr(a[0])
		g, ok := w.cur.loadN(p, 1)[0].(*GE)
		if !ok {
			panic(pathEnd{"unsupported", "group element built outside the modelled operations"})
		}
		w.storeBytes(a[1], w.edEnc(g.a))
		return nil
	}
	I[E+"ScReduce"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		w.storeBytes(a[0], w.feApp("scred", 3, w.loadBytesS(a[1], 64)).bytes)
		return nil
	}
	I[E+"ScMulAdd"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		x := w.feApp("scmuladd", 3, w.loadBytesS(a[1], 32), w.loadBytesS(a[2], 32), w.loadBytesS(a[3], 32))
		w.cur.muls = append(w.cur.muls, x)
		w.storeBytes(a[0], x.bytes)
		return nil
	}
	I["crypto/ed25519.Verify"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		T := w.T
		pub, msg, sig := w.argBytes(a[0]), w.argBytes(a[1]), w.argBytes(a[2])
		if len(pub) != 32 {
			w.throw("ed25519: bad public key length")
		}
		if len(sig) != 64 {
			return T.False
		}
		var alts []*Term
		for _, e := range w.sigEvents() {
			alts = append(alts, T.And(w.eqVec(pub, e.A), w.eqVec(msg, e.m), w.eqVec(sig[:32], e.R), w.eqVec(sig[32:], e.S)))
		}
		return T.Or(alts...)
	}
}
