package main

// Hash-consed symbolic terms: booleans (w==0) and bit-vectors of width 1..64.
// Cryptographic primitives are uninterpreted applications over byte vectors
// (App); byte i of the result of an application is the term OpAppB(app,i).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd // n-ary; constant (if any) last
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpBAnd
	OpBOr
	OpXor // n-ary, sorted; constant last
	OpConcat
	OpExtract // k = hi<<8|lo
	OpSExt
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAppB // byte k of app
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpBAnd: "bvand", OpBOr: "bvor", OpXor: "bvxor", OpConcat: "concat", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle"}

type Term struct {
	id    int
	op    Op
	w     uint8
	taint bool // depends on an attacker-chosen variable
	k     uint64
	a     []*Term
	app   *App
	name  string
	emit  bool // already defined in the solver
}

// App is an application of an uninterpreted primitive to byte vectors.
type App struct {
	id    int
	fn    string
	args  [][]*Term
	n     int // output bytes
	taint bool
	emit  bool
	bytes []*Term
}

func (a *App) sig() string {
	var sb strings.Builder
	sb.WriteString(a.fn)
	for _, x := range a.args {
		fmt.Fprintf(&sb, "_%d", len(x))
	}
	fmt.Fprintf(&sb, "__%d", a.n)
	return sb.String()
}

type Terms struct {
	tab     map[uint64][]*Term
	apps    map[uint64][]*App
	n       int
	nApp    int
	True    *Term
	False   *Term
	bytes   [256]*Term
	vars    []*Term
	allApps []*App
	bound   map[*Term]uint64 // upper bounds of the variables divConst introduces
}

func NewTerms() *Terms {
	T := &Terms{tab: map[uint64][]*Term{}, apps: map[uint64][]*App{}, bound: map[*Term]uint64{}}
	T.False = T.mk(&Term{op: OpConst, w: 0, k: 0})
	T.True = T.mk(&Term{op: OpConst, w: 0, k: 1})
	for i := range T.bytes {
		T.bytes[i] = T.mk(&Term{op: OpConst, w: 8, k: uint64(i)})
	}
	return T
}

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (T *Terms) mk(t *Term) *Term {
	h := mix(uint64(t.op)*31+uint64(t.w), t.k)
	for _, a := range t.a {
		h = mix(h, uint64(a.id)+1)
	}
	if t.app != nil {
		h = mix(h, uint64(t.app.id)+77)
	}
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
outer:
	for _, o := range T.tab[h] {
		if o.op != t.op || o.w != t.w || o.k != t.k || o.app != t.app || len(o.a) != len(t.a) || o.name != t.name {
			continue
		}
		for i := range o.a {
			if o.a[i] != t.a[i] {
				continue outer
			}
		}
		return o
	}
	T.n++
	t.id = T.n
	for _, a := range t.a {
		if a.taint {
			t.taint = true
		}
	}
	if t.app != nil && t.app.taint {
		t.taint = true
	}
	T.tab[h] = append(T.tab[h], t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (T *Terms) Const(w uint8, v uint64) *Term {
	if w == 8 {
		return T.bytes[v&255]
	}
	return T.mk(&Term{op: OpConst, w: w, k: v & mask(w)})
}
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}

func (T *Terms) Var(name string, w uint8, taint bool) *Term {
	n := T.n
	t := T.mk(&Term{op: OpVar, w: w, name: name, taint: taint})
	if T.n != n {
		T.vars = append(T.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) sval() int64 {
	s := 64 - uint(t.w)
	return int64(t.k<<s) >> s
}

// ---------- booleans ----------

func (T *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return T.Bool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return T.mk(&Term{op: OpNot, a: []*Term{a}})
}

func (T *Terms) nary(op Op, xs []*Term) *Term {
	unit, zero := T.True, T.False
	if op == OpOr {
		unit, zero = T.False, T.True
	}
	var flat []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[T.Not(x)] {
			return false
		}
		seen[x] = true
		flat = append(flat, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(flat) == 0 {
		return unit
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return T.mk(&Term{op: op, a: flat})
}
func (T *Terms) And(xs ...*Term) *Term { return T.nary(OpAnd, xs) }
func (T *Terms) Or(xs ...*Term) *Term  { return T.nary(OpOr, xs) }

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return c
			}
			return T.Not(c)
		}
		return T.Or(T.And(c, a), T.And(T.Not(c), b))
	}
	if c.op == OpNot {
		return T.Ite(c.a[0], b, a)
	}
	return T.mk(&Term{op: OpIte, w: a.w, a: []*Term{c, a, b}})
}

// ---------- equality ----------

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return b
			}
			return T.Not(b)
		}
		if b.isConst() {
			return T.Eq(b, a)
		}
		if a == T.Not(b) {
			return T.False
		}
	}
	if a.isConst() && b.isConst() {
		return T.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w > 0 {
		switch {
		case a.op == OpIte && b.isConst():
			x, y := a.a[1], a.a[2]
			if x.isConst() || y.isConst() {
				return T.Or(T.And(a.a[0], T.Eq(x, b)), T.And(T.Not(a.a[0]), T.Eq(y, b)))
			}
		case a.op == OpAdd || b.op == OpAdd:
			d := T.Sub(a, b)
			if d.isConst() {
				return T.Bool(d.k == 0)
			}
			if a.op == OpAdd && b.isConst() && a.a[len(a.a)-1].isConst() || a.op == OpAdd && b.op == OpAdd {
				// x + c1 == c2  ->  x == c2-c1
				if d.op != OpAdd && d.op != OpMul && nops(d) == 1 {
					return T.Eq(d, T.Const(a.w, 0))
				}
				if d.op == OpAdd && d.a[len(d.a)-1].isConst() {
					c := d.a[len(d.a)-1]
					rest := d.a[:len(d.a)-1]
					var l *Term
					if len(rest) == 1 {
						l = rest[0]
					} else {
						l = T.mk(&Term{op: OpAdd, w: a.w, a: rest})
					}
					if !(l.op == OpMul) {
						r := T.Const(a.w, -c.k)
						if l != a || r != b {
							return T.Eq(l, r)
						}
					}
				}
			}
		case a.op == OpXor || b.op == OpXor:
			n0 := nops(a) + nops(b)
			x := T.Xor(a, b)
			if x.isConst() {
				return T.Bool(x.k == 0)
			}
			if nops(x) < n0 {
				if x.op == OpXor && x.a[len(x.a)-1].isConst() {
					c := x.a[len(x.a)-1]
					rest := x.a[:len(x.a)-1]
					if len(rest) == 1 {
						return T.Eq(rest[0], c)
					}
					l := T.mk(&Term{op: OpXor, w: a.w, a: rest})
					if l != a || c != b {
						return T.Eq(l, c)
					}
				} else if x.op == OpXor && len(x.a) == 2 {
					return T.Eq(x.a[0], x.a[1])
				} else if !(x == a && b.isConst()) {
					return T.Eq(x, T.Const(a.w, 0))
				}
			}
		}
		if a.op == OpConcat || b.op == OpConcat {
			// split where boundaries agree or one side is constant
			sa, sb := T.segs(a), T.segs(b)
			cuts := map[int]bool{}
			for _, s := range [][]*Term{sa, sb} {
				p := 0
				for i := len(s) - 1; i >= 0; i-- {
					p += int(s[i].w)
					cuts[p] = true
				}
			}
			var ps []int
			for p := range cuts {
				ps = append(ps, p)
			}
			sort.Ints(ps)
			var cs []*Term
			lo := 0
			for _, p := range ps {
				x, y := T.Extract(a, p-1, lo), T.Extract(b, p-1, lo)
				e := T.eq1(x, y)
				if e == T.False {
					return e
				}
				cs = append(cs, e)
				lo = p
			}
			return T.And(cs...)
		}
	}
	return T.eq1(a, b)
}

func nops(a *Term) int {
	if a.op == OpXor {
		return len(a.a)
	}
	return 1
}

func (T *Terms) eq1(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.isConst() && b.isConst() {
		return T.False
	}
	if a.op == OpXor || b.op == OpXor {
		if a.op != OpConcat && b.op != OpConcat {
			// avoid infinite recursion: only call Eq when it can simplify
			x := T.Xor(a, b)
			if x.isConst() {
				return T.Bool(x.k == 0)
			}
			zero := a.isConst() && a.k == 0 || b.isConst() && b.k == 0
			if nops(x) < nops(a)+nops(b) && !zero {
				return T.Eq(a, b)
			}
		}
	}
	if b.isConst() || (!a.isConst() && a.id > b.id) {
		a, b = b, a
	}
	// constant first (if any), otherwise lower id first
	if a.isConst() && b.w == 1 && b.w > 0 {
		return T.mk(&Term{op: OpEq, a: []*Term{a, b}})
	}
	return T.mk(&Term{op: OpEq, a: []*Term{a, b}})
}

// ---------- arithmetic ----------

func (T *Terms) linear(x *Term, coef uint64, m map[*Term]uint64, order *[]*Term, c *uint64) {
	switch {
	case x.isConst():
		*c += x.k * coef
	case x.op == OpAdd:
		for _, y := range x.a {
			T.linear(y, coef, m, order, c)
		}
	case x.op == OpMul && x.a[1].isConst():
		T.linear(x.a[0], coef*x.a[1].k, m, order, c)
	default:
		if _, ok := m[x]; !ok {
			*order = append(*order, x)
		}
		m[x] += coef
	}
}

func (T *Terms) lin(w uint8, xs []*Term, cs []uint64) *Term {
	m := map[*Term]uint64{}
	var order []*Term
	var c uint64
	for i, x := range xs {
		T.linear(x, cs[i], m, &order, &c)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*Term
	for _, x := range order {
		k := m[x] & mask(w)
		if k == 0 {
			continue
		}
		if k == 1 {
			out = append(out, x)
		} else {
			out = append(out, T.mk(&Term{op: OpMul, w: w, a: []*Term{x, T.Const(w, k)}}))
		}
	}
	c &= mask(w)
	if len(out) == 0 {
		return T.Const(w, c)
	}
	if c != 0 {
		out = append(out, T.Const(w, c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk(&Term{op: OpAdd, w: w, a: out})
}

func (T *Terms) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.k+b.k)
	}
	if a.op == OpConcat && b.op == OpConcat && bitsOf(a)&bitsOf(b) == 0 {
		return T.BOr(a, b)
	}
	return T.lin(a.w, []*Term{a, b}, []uint64{1, 1})
}

// bitsOf has a one wherever x may have one.
func bitsOf(x *Term) uint64 {
	switch {
	case x.isConst():
		return x.k
	case x.op == OpConcat:
		var m uint64
		for _, y := range x.a {
			m = m<<y.w | bitsOf(y)
		}
		return m
	}
	return mask(x.w)
}

func (T *Terms) Sub(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.k-b.k)
	}
	return T.lin(a.w, []*Term{a, b}, []uint64{1, ^uint64(0)})
}
func (T *Terms) Neg(a *Term) *Term { return T.Sub(T.Const(a.w, 0), a) }

func (T *Terms) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return T.Const(a.w, a.k*b.k)
		}
		if b.k != 0 && b.k&(b.k-1) == 0 && a.op == OpConcat {
			return T.Shl(a, T.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		return T.lin(a.w, []*Term{a}, []uint64{b.k})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(&Term{op: OpMul, w: a.w, a: []*Term{a, b}})
}

func (T *Terms) bin(op Op, w uint8, a, b *Term) *Term {
	return T.mk(&Term{op: op, w: w, a: []*Term{a, b}})
}

func (T *Terms) UDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return T.Const(a.w, a.k/b.k)
		}
		if b.k&(b.k-1) == 0 {
			return T.LShr(a, T.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
	}
	return T.bin(OpUDiv, a.w, a, b)
}
func (T *Terms) URem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			return T.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return T.BAnd(a, T.Const(a.w, b.k-1))
		}
		if T.umax(a) < b.k {
			return a
		}
	}
	return T.bin(OpURem, a.w, a, b)
}
func (T *Terms) SDiv(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			if b.sval() == -1 {
				return T.Neg(a)
			}
			return T.Const(a.w, uint64(a.sval()/b.sval()))
		}
		if b.sval() > 0 && T.umax(a) <= mask(a.w)>>1 {
			return T.UDiv(a, b)
		}
	}
	return T.bin(OpSDiv, a.w, a, b)
}
func (T *Terms) SRem(a, b *Term) *Term {
	if b.isConst() && b.k != 0 {
		if a.isConst() {
			if b.sval() == -1 {
				return T.Const(a.w, 0)
			}
			return T.Const(a.w, uint64(a.sval()%b.sval()))
		}
		if b.sval() > 0 && T.umax(a) <= mask(a.w)>>1 {
			return T.URem(a, b)
		}
	}
	return T.bin(OpSRem, a.w, a, b)
}

// umax is a cheap upper bound on the unsigned value.
func (T *Terms) umax(a *Term) uint64 {
	switch a.op {
	case OpConst:
		return a.k
	case OpConcat:
		n := 0
		for _, s := range a.a {
			if s.isConst() && s.k == 0 {
				n += int(s.w)
				continue
			}
			break
		}
		if len(a.a) == 2 && n > 0 {
			return T.umax(a.a[1])
		}
		return mask(a.w - uint8(n))
	case OpVar:
		if b, ok := T.bound[a]; ok {
			return b
		}
	case OpIte:
		x, y := T.umax(a.a[1]), T.umax(a.a[2])
		if x > y {
			return x
		}
		return y
	case OpURem:
		if a.a[1].isConst() && a.a[1].k > 0 {
			return a.a[1].k - 1
		}
	case OpUDiv:
		if a.a[1].isConst() && a.a[1].k > 0 {
			return T.umax(a.a[0]) / a.a[1].k
		}
	case OpAdd:
		var s uint64
		for _, x := range a.a {
			m := T.umax(x)
			if s+m < s || s+m > mask(a.w) {
				return mask(a.w)
			}
			s += m
		}
		return s
	case OpMul:
		x, y := T.umax(a.a[0]), T.umax(a.a[1])
		hi, lo := bits.Mul64(x, y)
		if hi == 0 && lo <= mask(a.w) {
			return lo
		}
	}
	return mask(a.w)
}

// ---------- bit structure ----------

func (T *Terms) segs(a *Term) []*Term {
	if a.op == OpConcat {
		return a.a
	}
	return []*Term{a}
}

// Concat: most significant first.
func (T *Terms) Concat(xs ...*Term) *Term {
	var out []*Term
	var w uint8
	for _, x := range xs {
		for _, s := range T.segs(x) {
			w += s.w
			if n := len(out); n > 0 {
				p := out[n-1]
				if p.isConst() && s.isConst() {
					out[n-1] = T.Const(p.w+s.w, p.k<<s.w|s.k)
					continue
				}
				// adjacent extracts of the same base merge
				pb, ph, pl := exParts(p)
				sb, sh, sl := exParts(s)
				if pb == sb && pl == sh+1 && !pb.isConst() {
					out[n-1] = T.Extract(pb, ph, sl)
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk(&Term{op: OpConcat, w: w, a: out})
}

func exParts(t *Term) (*Term, int, int) {
	if t.op == OpExtract {
		return t.a[0], int(t.k >> 8), int(t.k & 255)
	}
	return t, int(t.w) - 1, 0
}

func (T *Terms) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == int(a.w)-1 {
		return a
	}
	w := uint8(hi - lo + 1)
	switch a.op {
	case OpConst:
		return T.Const(w, a.k>>uint(lo))
	case OpExtract:
		b := int(a.k & 255)
		return T.Extract(a.a[0], hi+b, lo+b)
	case OpConcat:
		var out []*Term
		p := int(a.w)
		for _, s := range a.a {
			sh, sl := p-1, p-int(s.w)
			p = sl
			if sl > hi || sh < lo {
				continue
			}
			h, l := sh, sl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			out = append(out, T.Extract(s, h-sl, l-sl))
		}
		return T.Concat(out...)
	case OpXor, OpBAnd, OpBOr:
		if true {
			xs := make([]*Term, len(a.a))
			for i, x := range a.a {
				xs[i] = T.Extract(x, hi, lo)
			}
			r := xs[0]
			for _, x := range xs[1:] {
				switch a.op {
				case OpXor:
					r = T.Xor(r, x)
				case OpBAnd:
					r = T.BAnd(r, x)
				default:
					r = T.BOr(r, x)
				}
			}
			return r
		}
	case OpIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return T.Ite(a.a[0], T.Extract(a.a[1], hi, lo), T.Extract(a.a[2], hi, lo))
		}
	case OpAdd:
		if lo == 0 {
			// low bits of a sum depend only on low bits of the operands
			xs := make([]*Term, len(a.a))
			cs := make([]uint64, len(a.a))
			for i, x := range a.a {
				xs[i] = T.Extract(x, hi, 0)
				cs[i] = 1
			}
			return T.lin(w, xs, cs)
		}
	case OpMul:
		if lo == 0 && a.a[1].isConst() {
			return T.Mul(T.Extract(a.a[0], hi, 0), T.Extract(a.a[1], hi, 0))
		}
	case OpSExt:
		if hi < int(a.a[0].w) {
			return T.Extract(a.a[0], hi, lo)
		}
	}
	return T.mk(&Term{op: OpExtract, w: w, k: uint64(hi)<<8 | uint64(lo), a: []*Term{a}})
}

func (T *Terms) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return T.Extract(a, int(w)-1, 0)
	}
	return T.Concat(T.Const(w-a.w, 0), a)
}
func (T *Terms) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return T.Extract(a, int(w)-1, 0)
	}
	if a.isConst() {
		return T.Const(w, uint64(a.sval()))
	}
	if a.op == OpConcat && a.a[0].isConst() && a.a[0].k>>(a.a[0].w-1) == 0 {
		return T.ZExt(a, w)
	}
	if a.op == OpIte && a.a[1].isConst() && a.a[2].isConst() {
		return T.Ite(a.a[0], T.SExt(a.a[1], w), T.SExt(a.a[2], w))
	}
	return T.mk(&Term{op: OpSExt, w: w, a: []*Term{a}})
}

func (T *Terms) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		return T.Concat(T.Extract(a, int(a.w)-1-int(b.k), 0), T.Const(uint8(b.k), 0))
	}
	return T.bin(OpShl, a.w, a, b)
}
func (T *Terms) LShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		return T.Concat(T.Const(uint8(b.k), 0), T.Extract(a, int(a.w)-1, int(b.k)))
	}
	return T.bin(OpLShr, a.w, a, b)
}
func (T *Terms) AShr(a, b *Term) *Term {
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		k := b.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if a.isConst() {
			return T.Const(a.w, uint64(a.sval()>>k))
		}
		if a.op == OpConcat && a.a[0].isConst() && a.a[0].k>>(a.a[0].w-1) == 0 {
			return T.LShr(a, T.Const(a.w, k))
		}
		return T.SExt(T.Extract(a, int(a.w)-1, int(k)), a.w)
	}
	return T.bin(OpAShr, a.w, a, b)
}

// runs of equal bits of a constant, most significant first
func bitRuns(k uint64, w uint8) [][2]int {
	var out [][2]int
	for i := int(w) - 1; i >= 0; {
		b := k >> uint(i) & 1
		j := i
		for j >= 0 && k>>uint(j)&1 == b {
			j--
		}
		out = append(out, [2]int{i, j + 1})
		i = j
	}
	return out
}

func (T *Terms) bitwise(op Op, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	m := mask(a.w)
	if b.isConst() {
		if a.isConst() {
			switch op {
			case OpBAnd:
				return T.Const(a.w, a.k&b.k)
			case OpBOr:
				return T.Const(a.w, a.k|b.k)
			}
		}
		switch op {
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
		case OpBOr:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		var out []*Term
		for _, r := range bitRuns(b.k, a.w) {
			one := b.k>>uint(r[1])&1 == 1
			w := uint8(r[0] - r[1] + 1)
			if (op == OpBAnd) == one {
				out = append(out, T.Extract(a, r[0], r[1]))
			} else if one {
				out = append(out, T.Const(w, mask(w)))
			} else {
				out = append(out, T.Const(w, 0))
			}
		}
		return T.Concat(out...)
	}
	if a == b {
		return a
	}
	if a.op == OpConcat || b.op == OpConcat {
		if r := T.segwise(op, a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.bin(op, a.w, a, b)
}

// segwise applies op per segment if some segment pair involves a constant.
func (T *Terms) segwise(op Op, a, b *Term) *Term {
	sa, sb := T.segs(a), T.segs(b)
	cuts := map[int]bool{}
	hasC := false
	for _, s := range [][]*Term{sa, sb} {
		p := 0
		for i := len(s) - 1; i >= 0; i-- {
			p += int(s[i].w)
			cuts[p] = true
			if s[i].isConst() {
				hasC = true
			}
		}
	}
	if !hasC && len(sa) != len(sb) {
		return nil
	}
	var ps []int
	for p := range cuts {
		ps = append(ps, p)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(ps)))
	var out []*Term
	for i, p := range ps {
		lo := 0
		if i+1 < len(ps) {
			lo = ps[i+1]
		}
		x, y := T.Extract(a, p-1, lo), T.Extract(b, p-1, lo)
		var r *Term
		switch op {
		case OpBAnd:
			r = T.BAnd(x, y)
		case OpBOr:
			r = T.BOr(x, y)
		case OpXor:
			r = T.Xor(x, y)
		}
		out = append(out, r)
	}
	return T.Concat(out...)
}

func (T *Terms) BAnd(a, b *Term) *Term { return T.bitwise(OpBAnd, a, b) }
func (T *Terms) BOr(a, b *Term) *Term  { return T.bitwise(OpBOr, a, b) }
func (T *Terms) BNot(a *Term) *Term    { return T.Xor(a, T.Const(a.w, mask(a.w))) }

func (T *Terms) Xor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.w, a.k^b.k)
	}
	if a.op == OpConcat || b.op == OpConcat {
		if !(a.isConst() && a.k == 0 || b.isConst() && b.k == 0) {
			if r := T.segwise(OpXor, a, b); r != nil {
				return r
			}
		}
	}
	m := map[*Term]int{}
	var order []*Term
	var c uint64
	var add func(x *Term)
	add = func(x *Term) {
		if x.isConst() {
			c ^= x.k
			return
		}
		if x.op == OpXor {
			for _, y := range x.a {
				add(y)
			}
			return
		}
		if _, ok := m[x]; !ok {
			order = append(order, x)
		}
		m[x] ^= 1
	}
	add(a)
	add(b)
	var out []*Term
	for _, x := range order {
		if m[x] == 1 {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) == 0 {
		return T.Const(a.w, c)
	}
	if c != 0 {
		out = append(out, T.Const(a.w, c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk(&Term{op: OpXor, w: a.w, a: out})
}

// ---------- comparisons ----------

func (T *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return T.False
		}
		if T.umax(a) < b.k {
			return T.True
		}
		if b.k == 1 {
			return T.Eq(a, T.Const(a.w, 0))
		}
	}
	if a.isConst() {
		if T.umax(b) <= a.k {
			return T.False
		}
		if a.k == 0 {
			return T.Not(T.Eq(b, a))
		}
	}
	// common zero prefix
	if x, y, ok := T.stripZ(a, b); ok {
		return T.Ult(x, y)
	}
	return T.bin(OpUlt, 0, a, b)
}

func (T *Terms) stripZ(a, b *Term) (*Term, *Term, bool) {
	lead := func(t *Term) int {
		if t.isConst() {
			return bits.LeadingZeros64(t.k) - (64 - int(t.w))
		}
		if t.op == OpConcat && t.a[0].isConst() {
			return bits.LeadingZeros64(t.a[0].k) - (64 - int(t.a[0].w))
		}
		return 0
	}
	n := lead(a)
	if m := lead(b); m < n {
		n = m
	}
	if n <= 0 || n >= int(a.w) {
		return nil, nil, false
	}
	return T.Extract(a, int(a.w)-1-n, 0), T.Extract(b, int(a.w)-1-n, 0), true
}

func (T *Terms) Ule(a, b *Term) *Term { return T.Not(T.Ult(b, a)) }

func (T *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.sval() < b.sval())
	}
	h := mask(a.w) >> 1
	ma, mb := T.umax(a), T.umax(b)
	if ma <= h && mb <= h {
		return T.Ult(a, b)
	}
	if ma <= h && b.isConst() { // b negative
		return T.False
	}
	if mb <= h && a.isConst() { // a negative
		return T.True
	}
	return T.bin(OpSlt, 0, a, b)
}
func (T *Terms) Sle(a, b *Term) *Term { return T.Not(T.Slt(b, a)) }

// ---------- applications ----------

func (T *Terms) App(fn string, n int, args ...[]*Term) *App {
	h := mix(uint64(n), 12345)
	for i := 0; i < len(fn); i++ {
		h = mix(h, uint64(fn[i]))
	}
	for _, a := range args {
		h = mix(h, uint64(len(a))+999)
		for _, t := range a {
			h = mix(h, uint64(t.id))
		}
	}
outer:
	for _, o := range T.apps[h] {
		if o.fn != fn || o.n != n || len(o.args) != len(args) {
			continue
		}
		for i := range args {
			if !sameVec(o.args[i], args[i]) {
				continue outer
			}
		}
		return o
	}
	a := &App{fn: fn, n: n, args: args}
	T.nApp++
	a.id = T.nApp
	for _, v := range args {
		for _, t := range v {
			if t.taint {
				a.taint = true
			}
		}
	}
	a.bytes = make([]*Term, n)
	for i := range a.bytes {
		a.bytes[i] = T.mk(&Term{op: OpAppB, w: 8, k: uint64(i), app: a})
	}
	T.apps[h] = append(T.apps[h], a)
	T.allApps = append(T.allApps, a)
	return a
}

func sameVec(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// isApp returns the application whose complete output v is, if any.
func isApp(v []*Term) *App {
	if len(v) == 0 || v[0].op != OpAppB {
		return nil
	}
	a := v[0].app
	if a.n != len(v) || !sameVec(a.bytes, v) {
		return nil
	}
	return a
}

func (t *Term) String() string {
	return t.str(4)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.k != 0)
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OpVar:
		return t.name
	case OpAppB:
		return fmt.Sprintf("%s#%d[%d]", t.app.fn, t.app.id, t.k)
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	var sb strings.Builder
	n := opNames[t.op]
	if t.op == OpExtract {
		n = fmt.Sprintf("ex[%d:%d]", t.k>>8, t.k&255)
	} else if t.op == OpSExt {
		n = "sext"
	}
	sb.WriteString("(" + n)
	for _, a := range t.a {
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
