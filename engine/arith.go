package main

// Integer arithmetic.  In a job marked arith=limb the inputs are bounded
// integers and every +, -, *, shift and mask the executed code performs is
// carried out on integer polynomials over them: x >> k becomes a new unknown
// F with 2^k F <= x < 2^k (F+1), a result that may not fit its Go type is
// reduced modulo 2^w the same way, and what the code computes is compared with
// what it should as a statement of integer arithmetic, decided by the solver.

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

const OpPoly Op = 200 // k = number of the polynomial

type atom struct {
	id     int
	kind   byte // v input, f floor, d defined, x exclusive or
	name   string
	reps   []prep // of a floor: p / 2^k
	def    *Poly  // of a defined atom
	x, y   *Poly  // of an exclusive or
	lo, hi *big.Int
	width  uint8
}

type prep struct {
	p *Poly
	k uint
}

type factor struct {
	a *atom
	e int
}

type mono struct {
	id int
	fs []factor
}

type pterm struct {
	m *mono
	c *big.Int
}

// Poly is an integer polynomial, hash-consed.
type Poly struct {
	id     int
	ts     []pterm // by m.id; the constant is mono 0
	lo, hi *big.Int
	exp    *Poly // all definitions expanded
}

type Arith struct {
	atoms  []*atom
	monos  map[string]*mono
	mlist  []*mono
	polys  map[string]*Poly
	plist  []*Poly
	vars   map[string]*atom
	floors map[[2]int]*atom
	defs   map[int]*atom
	xors   map[[2]int]*atom
	ands   map[[2]int]*atom
	spent  time.Duration // on statements not settled at once
}

func NewArith() *Arith {
	A := &Arith{monos: map[string]*mono{}, polys: map[string]*Poly{}, vars: map[string]*atom{}, floors: map[[2]int]*atom{}, defs: map[int]*atom{}, xors: map[[2]int]*atom{}, ands: map[[2]int]*atom{}}
	A.mono(nil)
	return A
}

var big0, big1 = big.NewInt(0), big.NewInt(1)

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big1, k) }

func (A *Arith) mono(fs []factor) *mono {
	var sb strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&sb, "%d^%d.", f.a.id, f.e)
	}
	if m := A.monos[sb.String()]; m != nil {
		return m
	}
	m := &mono{id: len(A.mlist), fs: fs}
	A.mlist = append(A.mlist, m)
	A.monos[sb.String()] = m
	return m
}

func (A *Arith) build(m map[*mono]*big.Int) *Poly {
	ts := make([]pterm, 0, len(m))
	for k, c := range m {
		if c.Sign() != 0 {
			ts = append(ts, pterm{k, c})
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].m.id < ts[j].m.id })
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(strconv.Itoa(t.m.id))
		sb.WriteByte(':')
		sb.WriteString(t.c.Text(36))
		sb.WriteByte(' ')
	}
	k := sb.String()
	if p := A.polys[k]; p != nil {
		return p
	}
	p := &Poly{id: len(A.plist), ts: ts}
	A.plist = append(A.plist, p)
	A.polys[k] = p
	return p
}

func (A *Arith) con(c *big.Int) *Poly {
	return A.build(map[*mono]*big.Int{A.mlist[0]: new(big.Int).Set(c)})
}
func (A *Arith) coni(c int64) *Poly { return A.con(big.NewInt(c)) }
func (A *Arith) at(a *atom) *Poly {
	return A.build(map[*mono]*big.Int{A.mono([]factor{{a, 1}}): big.NewInt(1)})
}

func (p *Poly) isCon() (*big.Int, bool) {
	if len(p.ts) == 0 {
		return big0, true
	}
	if len(p.ts) == 1 && p.ts[0].m.id == 0 {
		return p.ts[0].c, true
	}
	return nil, false
}

// lin is x + c*y.
func (A *Arith) lin(x, y *Poly, c *big.Int) *Poly {
	m := make(map[*mono]*big.Int, len(x.ts)+len(y.ts))
	for _, t := range x.ts {
		m[t.m] = t.c
	}
	for _, t := range y.ts {
		d := new(big.Int).Mul(t.c, c)
		if o := m[t.m]; o != nil {
			d.Add(d, o)
		}
		m[t.m] = d
	}
	return A.build(m)
}
func (A *Arith) add(x, y *Poly) *Poly            { return A.lin(x, y, big1) }
func (A *Arith) sub(x, y *Poly) *Poly            { return A.lin(x, y, big.NewInt(-1)) }
func (A *Arith) scale(x *Poly, c *big.Int) *Poly { return A.lin(A.con(big0), x, c) }

func (A *Arith) mulMono(a, b *mono) *mono {
	if a.id == 0 {
		return b
	}
	if b.id == 0 {
		return a
	}
	var fs []factor
	i, j := 0, 0
	for i < len(a.fs) || j < len(b.fs) {
		switch {
		case j == len(b.fs) || i < len(a.fs) && a.fs[i].a.id < b.fs[j].a.id:
			fs = append(fs, a.fs[i])
			i++
		case i == len(a.fs) || b.fs[j].a.id < a.fs[i].a.id:
			fs = append(fs, b.fs[j])
			j++
		default:
			fs = append(fs, factor{a.fs[i].a, a.fs[i].e + b.fs[j].e})
			i++
			j++
		}
	}
	return A.mono(fs)
}

func (A *Arith) mul(x, y *Poly) *Poly {
	m := map[*mono]*big.Int{}
	for _, s := range x.ts {
		for _, t := range y.ts {
			k := A.mulMono(s.m, t.m)
			c := new(big.Int).Mul(s.c, t.c)
			if o := m[k]; o != nil {
				c.Add(c, o)
			}
			m[k] = c
		}
	}
	return A.build(m)
}

// ---------- intervals ----------

func minmax(xs ...*big.Int) (*big.Int, *big.Int) {
	lo, hi := xs[0], xs[0]
	for _, x := range xs {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return lo, hi
}

func mulIv(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	n := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	return minmax(n(a, c), n(a, d), n(b, c), n(b, d))
}

func (m *mono) iv() (*big.Int, *big.Int) {
	lo, hi := big1, big1
	for _, f := range m.fs {
		e := big.NewInt(int64(f.e))
		l, h := new(big.Int).Exp(f.a.lo, e, nil), new(big.Int).Exp(f.a.hi, e, nil)
		if f.e%2 == 0 {
			l, h = minmax(l, h)
			if f.a.lo.Sign() <= 0 && f.a.hi.Sign() >= 0 {
				l = big0
			}
		}
		lo, hi = mulIv(lo, hi, l, h)
	}
	return lo, hi
}

func plainIv(ts []pterm) (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for _, t := range ts {
		l, h := t.m.iv()
		l, h = mulIv(l, h, t.c, t.c)
		lo.Add(lo, l)
		hi.Add(hi, h)
	}
	return lo, hi
}

// iv bounds a polynomial.  A multiple of 2^k of the floor of q/2^k is
// replaced by q minus a remainder where that is tighter.
func (A *Arith) iv(p *Poly) (*big.Int, *big.Int) { return A.ivd(p, 3) }

func (A *Arith) ivd(p *Poly, depth int) (*big.Int, *big.Int) {
	if p.lo != nil {
		return p.lo, p.hi
	}
	lo, hi := plainIv(p.ts)
	if depth > 0 {
		for _, t := range p.ts {
			if len(t.m.fs) != 1 || t.m.fs[0].e != 1 || t.m.fs[0].a.kind != 'f' {
				continue
			}
			f := t.m.fs[0].a
			for _, r := range f.reps {
				q, rem := new(big.Int).QuoRem(t.c, pow2(r.k), new(big.Int))
				if rem.Sign() != 0 {
					continue
				}
				n := new(big.Int).Neg(q)
				// p = n*(r.p - 2^k f) + (p - t - n*r.p)
				rest := A.lin(A.lin(p, A.at(f), new(big.Int).Neg(t.c)), r.p, q)
				if len(rest.ts) >= len(p.ts)+len(r.p.ts) {
					continue
				}
				l, h := A.ivd(rest, depth-1)
				x, y := minmax(big0, new(big.Int).Mul(n, new(big.Int).Sub(pow2(r.k), big1)))
				l, h = new(big.Int).Add(l, x), new(big.Int).Add(h, y)
				if l.Cmp(lo) > 0 {
					lo = l
				}
				if h.Cmp(hi) < 0 {
					hi = h
				}
			}
		}
	}
	if depth == 3 {
		p.lo, p.hi = lo, hi
	}
	return lo, hi
}

func within(lo, hi, l, h *big.Int) bool { return lo.Cmp(l) >= 0 && hi.Cmp(h) <= 0 }

func fdiv(x *big.Int, k uint) *big.Int { return new(big.Int).Rsh(x, k) } // floor

// ---------- operations ----------

func (A *Arith) newAtom(k byte) *atom {
	a := &atom{id: len(A.atoms) + 1, kind: k}
	A.atoms = append(A.atoms, a)
	return a
}

func (A *Arith) input(name string, lo, hi *big.Int) *Poly {
	a := A.vars[name]
	if a == nil {
		a = A.newAtom('v')
		a.name, a.lo, a.hi = name, lo, hi
		A.vars[name] = a
	}
	return A.at(a)
}

// name abbreviates a polynomial by a new unknown with the bounds known of it.
func (A *Arith) name(p *Poly, lo, hi *big.Int) *Poly {
	if _, ok := p.isCon(); ok {
		return p
	}
	if len(p.ts) == 1 && p.ts[0].c.Cmp(big1) == 0 {
		return p
	}
	a := A.defs[p.id]
	if a == nil {
		a = A.newAtom('d')
		a.def, a.lo, a.hi = p, lo, hi
		A.defs[p.id] = a
	}
	return A.at(a)
}

func (A *Arith) tidy(p *Poly) *Poly {
	if len(p.ts) < 2 {
		return p
	}
	lo, hi := A.iv(p)
	pl, ph := plainIv(p.ts)
	w := new(big.Int).Sub(hi, lo)
	if w.Lsh(w, 1).Cmp(ph.Sub(ph, pl)) < 0 {
		return A.name(p, lo, hi)
	}
	return p
}

// floor is p / 2^k, rounded down.
func (A *Arith) floor(p *Poly, k uint) *Poly {
	if k == 0 {
		return p
	}
	M := pow2(k)
	q, r := map[*mono]*big.Int{}, map[*mono]*big.Int{}
	for _, t := range p.ts {
		d, m := new(big.Int).DivMod(t.c, M, new(big.Int))
		if t.m.id == 0 {
			q[t.m], r[t.m] = d, m
		} else if m.Sign() == 0 {
			q[t.m] = d
		} else {
			r[t.m] = t.c
		}
	}
	Q, R := A.build(q), A.build(r)
	lo, hi := A.iv(R)
	if a, b := fdiv(lo, k), fdiv(hi, k); a.Cmp(b) == 0 {
		return A.add(Q, A.con(a))
	}
	// R = m*x + y with 0 <= y < m
	for j := k - 1; j >= 1; j-- {
		m := pow2(j)
		x, y := map[*mono]*big.Int{}, map[*mono]*big.Int{}
		for _, t := range R.ts {
			d, e := new(big.Int).DivMod(t.c, m, new(big.Int))
			if t.m.id == 0 {
				x[t.m], y[t.m] = d, e
			} else if e.Sign() == 0 {
				x[t.m] = d
			} else {
				y[t.m] = t.c
			}
		}
		X, Y := A.build(x), A.build(y)
		if len(X.ts) == 0 {
			continue
		}
		l, h := A.iv(Y)
		if a, b := fdiv(l, j), fdiv(h, j); a.Cmp(b) == 0 {
			if len(Y.ts) > 0 || j == k-1 || true {
				return A.add(Q, A.floor(A.add(X, A.con(a)), k-j))
			}
		}
	}
	reps := []prep{{R, k}}
	for i := 0; i < 12; i++ {
		last := reps[len(reps)-1]
		var f *atom
		for _, t := range last.p.ts {
			if len(t.m.fs) == 1 && t.m.fs[0].e == 1 && t.m.fs[0].a.kind == 'f' && t.c.Cmp(big1) == 0 {
				f = t.m.fs[0].a
				break
			}
		}
		if f == nil || len(last.p.ts) > 60 {
			break
		}
		in := f.reps[len(f.reps)-1]
		rest := A.sub(last.p, A.at(f))
		reps = append(reps, prep{A.add(in.p, A.scale(rest, pow2(in.k))), in.k + last.k})
	}
	last := reps[len(reps)-1]
	key := [2]int{last.p.id, int(last.k)}
	a := A.floors[key]
	if a == nil {
		a = A.newAtom('f')
		a.reps = reps
		a.lo, a.hi = fdiv(lo, k), fdiv(hi, k)
		for _, r := range reps[1:] {
			l, h := A.iv(r.p)
			l, h = fdiv(l, r.k), fdiv(h, r.k)
			if l.Cmp(a.lo) > 0 {
				a.lo = l
			}
			if h.Cmp(a.hi) < 0 {
				a.hi = h
			}
		}
		A.floors[key] = a
	}
	if a.lo.Cmp(a.hi) == 0 {
		return A.add(Q, A.con(a.lo))
	}
	return A.add(Q, A.at(a))
}

// wrap reduces p to the range of a Go integer type.
func (A *Arith) wrap(p *Poly, w uint8, signed bool) *Poly {
	lo, hi := A.iv(p)
	if signed {
		h := pow2(uint(w) - 1)
		l, m := new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
		if within(lo, hi, l, m) {
			return p
		}
		f := A.floor(A.add(p, A.con(h)), uint(w))
		r := A.lin(p, f, new(big.Int).Neg(pow2(uint(w))))
		if p.trailing() > 0 {
			return r // still a multiple
		}
		return A.name(r, l, m)
	}
	m := new(big.Int).Sub(pow2(uint(w)), big1)
	if within(lo, hi, big0, m) {
		return p
	}
	r := A.lin(p, A.floor(p, uint(w)), new(big.Int).Neg(pow2(uint(w))))
	if p.trailing() > 0 {
		return r
	}
	return A.name(r, big0, m)
}

// lowBits is p mod 2^k.
func (A *Arith) lowBits(p *Poly, k uint) *Poly {
	lo, hi := A.iv(p)
	m := new(big.Int).Sub(pow2(k), big1)
	if within(lo, hi, big0, m) {
		return p
	}
	return A.name(A.lin(p, A.floor(p, k), new(big.Int).Neg(pow2(k))), big0, m)
}

// trailing is the number of low bits known to be zero.
func (p *Poly) trailing() uint {
	n := uint(4000)
	for _, t := range p.ts {
		if k := t.c.TrailingZeroBits(); k < n {
			n = k
		}
	}
	return n
}

func (A *Arith) disjoint(x, y *Poly) bool {
	yl, yh := A.iv(y)
	return yl.Sign() >= 0 && yh.Cmp(pow2(x.trailing())) < 0
}

func (w *Worker) polyOf(t *Term, signed bool) *Poly {
	if t.op == OpPoly {
		return w.ar.plist[t.k]
	}
	if !t.isConst() {
		panic(pathEnd{"unsupported", "mixed arithmetic at " + w.where()})
	}
	if signed {
		return w.ar.coni(t.sval())
	}
	return w.ar.con(new(big.Int).SetUint64(t.k))
}

func (w *Worker) polyTerm(p *Poly, wd uint8) *Term {
	if c, ok := p.isCon(); ok {
		m := new(big.Int).And(c, new(big.Int).SetUint64(mask(wd)))
		return w.T.Const(wd, m.Uint64())
	}
	return w.T.mk(&Term{op: OpPoly, w: wd, k: uint64(p.id)})
}

func (w *Worker) arithBad(what string) {
	panic(pathEnd{"unsupported", "integer arithmetic: " + what + " at " + w.where()})
}

func (w *Worker) arithBin(op token.Token, xt types.Type, a, b *Term, yt types.Type) Value {
	A := w.ar
	sg := isSigned(xt)
	wd := a.w
	x := w.polyOf(a, sg)
	if op == token.SHL || op == token.SHR {
		if !b.isConst() {
			w.arithBad("symbolic shift count")
		}
		n := b.k
		if n > 4*64 {
			n = 4 * 64
		}
		if op == token.SHR {
			return w.polyTerm(A.floor(x, uint(n)), wd)
		}
		if n >= uint64(wd) {
			return w.T.Const(wd, 0)
		}
		return w.polyTerm(A.wrap(A.scale(x, pow2(uint(n))), wd, sg), wd)
	}
	if op == token.AND_NOT {
		op = token.AND
		b = w.arithNot(b, xt).(*Term)
	}
	y := w.polyOf(b, sg)
	cmp := func(strict bool, x, y *Poly) Value {
		d := A.sub(y, x)
		lo, hi := A.iv(d)
		if strict {
			lo, hi = new(big.Int).Sub(lo, big1), new(big.Int).Sub(hi, big1)
		}
		switch {
		case lo.Sign() >= 0:
			return w.T.True
		case hi.Sign() < 0:
			return w.T.False
		}
		w.arithBad("comparison")
		return nil
	}
	switch op {
	case token.ADD:
		return w.polyTerm(A.wrap(A.tidy(A.add(x, y)), wd, sg), wd)
	case token.SUB:
		return w.polyTerm(A.wrap(A.tidy(A.sub(x, y)), wd, sg), wd)
	case token.MUL:
		return w.polyTerm(A.wrap(A.mul(x, y), wd, sg), wd)
	case token.AND:
		for i := 0; i < 2; i++ {
			if b.isConst() {
				m := b.k
				if m == 0 {
					return b
				}
				if m == mask(wd) {
					return a
				}
				if k := uint(big.NewInt(0).SetUint64(m).BitLen()); m&(m+1) == 0 {
					return w.polyTerm(A.lowBits(w.polyOf(a, sg), k), wd)
				}
				// a run of ones
				z := new(big.Int).SetUint64(m).TrailingZeroBits()
				if h := m >> z; h&(h+1) == 0 {
					k := uint(new(big.Int).SetUint64(m).BitLen())
					p := w.polyOf(a, sg)
					top := A.lowBits(p, k)
					if m|(1<<z-1) == mask(wd) {
						top = p
					}
					return w.polyTerm(A.lin(top, A.lowBits(p, z), big.NewInt(-1)), wd)
				}
			}
			a, b = b, a
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			// the runs of ones of the mask one by one
			p, sum := w.polyOf(a, sg), A.con(big0)
			for m, at := b.k, uint(0); m != 0; {
				z := uint(new(big.Int).SetUint64(m).TrailingZeroBits())
				m, at = m>>z, at+z
				k := uint(new(big.Int).SetUint64(^m).TrailingZeroBits())
				top := p
				if !(sg && at+k == uint(wd)) {
					top = A.lowBits(p, at+k)
				}
				sum = A.add(sum, A.lin(top, A.lowBits(p, at), big.NewInt(-1)))
				if k >= 64 {
					break
				}
				m, at = m>>k, at+k
			}
			return w.polyTerm(sum, wd)
		}
		return w.polyTerm(w.arithAnd(w.polyOf(a, sg), w.polyOf(b, sg), wd, sg), wd)
	case token.OR, token.XOR:
		if c, ok := y.isCon(); ok && c.Sign() == 0 {
			return a
		}
		if c, ok := x.isCon(); ok && c.Sign() == 0 {
			return b
		}
		if A.disjoint(x, y) || A.disjoint(y, x) {
			return w.polyTerm(A.add(x, y), wd)
		}
		if op == token.OR {
			return w.polyTerm(A.lin(A.add(x, y), w.arithAnd(x, y, wd, sg), big.NewInt(-1)), wd)
		}
		return w.polyTerm(w.arithXor(x, y, wd, sg), wd)
	case token.EQL, token.NEQ:
		d := A.sub(x, y)
		lo, hi := A.iv(d)
		eq := w.T.False
		if c, ok := d.isCon(); ok {
			eq = w.T.Bool(c.Sign() == 0)
		} else if lo.Sign() <= 0 && hi.Sign() >= 0 {
			w.arithBad("comparison")
		}
		if op == token.NEQ {
			return w.T.Not(eq)
		}
		return eq
	case token.LSS:
		return cmp(true, x, y)
	case token.LEQ:
		return cmp(false, x, y)
	case token.GTR:
		return cmp(true, y, x)
	case token.GEQ:
		return cmp(false, y, x)
	}
	w.arithBad(op.String())
	return nil
}

// arithAnd is the conjunction of the bits of x and y, about which only its
// range is known to the solver.
func (w *Worker) arithAnd(x, y *Poly, wd uint8, sg bool) *Poly {
	A := w.ar
	z := x.trailing()
	if t := y.trailing(); t > z {
		z = t
	}
	if z >= uint(wd) {
		return A.con(big0)
	}
	x, y = A.floor(x, z), A.floor(y, z)
	if x.id > y.id {
		x, y = y, x
	}
	k := [2]int{x.id, y.id}
	a := A.ands[k]
	if a == nil {
		a = A.newAtom('a')
		a.x, a.y, a.width = x, y, wd
		xl, xh := A.iv(x)
		yl, yh := A.iv(y)
		switch {
		case xl.Sign() >= 0 && (yl.Sign() < 0 || xh.Cmp(yh) <= 0):
			a.lo, a.hi = big0, xh
		case yl.Sign() >= 0:
			a.lo, a.hi = big0, yh
		default:
			a.lo, a.hi = new(big.Int).Neg(pow2(uint(wd))), pow2(uint(wd))
		}
		A.ands[k] = a
	}
	return A.scale(A.at(a), pow2(z))
}

func (w *Worker) arithXor(x, y *Poly, wd uint8, sg bool) *Poly {
	A := w.ar
	if x == y {
		return A.con(big0)
	}
	for i := 0; i < 2; i++ {
		if len(y.ts) == 1 && len(y.ts[0].m.fs) == 1 && y.ts[0].c.Cmp(big1) == 0 {
			if a := y.ts[0].m.fs[0].a; a.kind == 'x' && y.ts[0].m.fs[0].e == 1 {
				if a.x == x {
					return a.y
				}
				if a.y == x {
					return a.x
				}
			}
		}
		x, y = y, x
	}
	if c, ok := y.isCon(); ok && c.Cmp(big.NewInt(-1)) == 0 {
		return A.sub(y, x)
	}
	if c, ok := x.isCon(); ok && c.Cmp(big.NewInt(-1)) == 0 {
		return A.sub(x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	k := [2]int{x.id, y.id}
	a := A.xors[k]
	if a == nil {
		a = A.newAtom('x')
		a.x, a.y, a.width = x, y, wd
		if sg {
			a.lo, a.hi = new(big.Int).Neg(pow2(uint(wd)-1)), new(big.Int).Sub(pow2(uint(wd)-1), big1)
		} else {
			a.lo, a.hi = big0, new(big.Int).Sub(pow2(uint(wd)), big1)
		}
		A.xors[k] = a
	}
	return A.at(a)
}

func (w *Worker) arithNeg(a *Term, t types.Type) Value {
	sg := isSigned(t)
	return w.polyTerm(w.ar.wrap(w.ar.scale(w.polyOf(a, sg), big.NewInt(-1)), a.w, sg), a.w)
}

func (w *Worker) arithNot(a *Term, t types.Type) Value {
	sg := isSigned(t)
	return w.polyTerm(w.ar.wrap(w.ar.sub(w.ar.coni(-1), w.polyOf(a, sg)), a.w, sg), a.w)
}

func (w *Worker) arithConv(a *Term, from types.Type, to *types.Basic) Value {
	wd := intWidth(to)
	return w.polyTerm(w.ar.wrap(w.polyOf(a, isSigned(from)), wd, to.Info()&types.IsUnsigned == 0), wd)
}

func (A *Arith) show(p *Poly, d int) string {
	lo, hi := A.iv(p)
	s := ""
	for _, t := range p.ts {
		s += t.c.String()
		for _, f := range t.m.fs {
			s += "*" + f.a.show(A, d)
			if f.e > 1 {
				s += fmt.Sprint("^", f.e)
			}
		}
		s += " "
	}
	return fmt.Sprintf("(%s)[%s,%s]", s, lo, hi)
}

func (a *atom) show(A *Arith, d int) string {
	switch {
	case a.kind == 'v':
		return a.name
	case a.kind == 'f' && d > 0:
		s := "F"
		for _, r := range a.reps {
			s += fmt.Sprintf("{%s,%d}", A.show(r.p, d-1), r.k)
		}
		return s
	case a.kind == 'd' && d > 0:
		return "D" + A.show(a.def, d-1)
	}
	return fmt.Sprintf("%c%d", a.kind, a.id)
}

// ---------- statements ----------

func (A *Arith) expand(p *Poly) *Poly {
	if p.exp != nil {
		return p.exp
	}
	m := map[*mono]*big.Int{}
	var todo []pterm
	put := func(k *mono, c *big.Int) {
		if o := m[k]; o != nil {
			c = new(big.Int).Add(c, o)
		}
		m[k] = c
	}
	for _, t := range p.ts {
		d := false
		for _, f := range t.m.fs {
			d = d || f.a.kind == 'd'
		}
		if d {
			todo = append(todo, t)
		} else {
			put(t.m, t.c)
		}
	}
	for _, t := range todo {
		q := A.con(t.c)
		for _, f := range t.m.fs {
			g := A.at(f.a)
			if f.a.kind == 'd' {
				g = A.expand(f.a.def)
			}
			for i := 0; i < f.e; i++ {
				q = A.mul(q, g)
			}
		}
		for _, u := range q.ts {
			put(u.m, u.c)
		}
	}
	p.exp = A.build(m)
	p.exp.exp = p.exp
	return p.exp
}

// smt writes the polynomials' unknowns with their bounds and, down to a
// depth, their definitions.
type smtEnc struct {
	A    *Arith
	sb   strings.Builder
	seen map[string]bool
	nl   bool
	vals map[*atom]*big.Int // unknowns fixed beforehand
	n    int
}

func num(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

func (e *smtEnc) mono(m *mono, depth int) string {
	if len(m.fs) == 1 && m.fs[0].e == 1 {
		return e.atom(m.fs[0].a, depth)
	}
	n := "m" + strconv.Itoa(m.id)
	if e.seen[n] {
		return n
	}
	e.seen[n] = true
	var fs []string
	for _, f := range m.fs {
		x := ""
		if e.nl || depth > 0 {
			x = e.atom(f.a, depth)
		}
		for i := 0; i < f.e; i++ {
			fs = append(fs, x)
		}
	}
	lo, hi := m.iv()
	fmt.Fprintf(&e.sb, "(declare-const %s Int)(assert (<= %s %s %s))\n", n, num(lo), n, num(hi))
	if e.nl {
		fmt.Fprintf(&e.sb, "(assert (= %s (* %s)))\n", n, strings.Join(fs, " "))
	}
	return n
}

func (e *smtEnc) atom(a *atom, depth int) string {
	n := string(rune(a.kind)) + strconv.Itoa(a.id)
	if e.seen[n] {
		return n
	}
	e.seen[n] = true
	e.n++
	if v := e.vals[a]; v != nil {
		fmt.Fprintf(&e.sb, "(define-fun %s () Int %s)\n", n, num(v))
		return n
	}
	fmt.Fprintf(&e.sb, "(declare-const %s Int)(assert (<= %s %s %s))\n", n, num(a.lo), n, num(a.hi))
	if depth <= 0 {
		return n
	}
	switch a.kind {
	case 'f':
		for _, r := range a.reps {
			p := e.poly(r.p, depth-1)
			fmt.Fprintf(&e.sb, "(assert (and (<= (* %s %s) %s) (< %s (+ (* %s %s) %s))))\n", pow2(r.k), n, p, p, pow2(r.k), n, pow2(r.k))
		}
	case 'd':
		fmt.Fprintf(&e.sb, "(assert (= %s %s))\n", n, e.poly(a.def, depth-1))
	}
	return n
}

func (e *smtEnc) poly(p *Poly, depth int) string {
	if len(p.ts) == 0 {
		return "0"
	}
	var s []string
	for _, t := range p.ts {
		switch {
		case t.m.id == 0:
			s = append(s, num(t.c))
		case t.c.Cmp(big1) == 0:
			s = append(s, e.mono(t.m, depth))
		default:
			s = append(s, "(* "+num(t.c)+" "+e.mono(t.m, depth)+")")
		}
	}
	if len(s) == 1 {
		return s[0]
	}
	return "(+ " + strings.Join(s, " ") + ")"
}

// ask runs the solver on a query; goal is written after the definitions.
func (w *Worker) ask(e *smtEnc, goal string, secs int, want []*atom) (Res, map[*atom]*big.Int) {
	t0 := time.Now()
	var q strings.Builder
	fmt.Fprintf(&q, "(set-option :timeout %d)\n", secs*1000)
	q.WriteString(e.sb.String())
	q.WriteString(goal)
	q.WriteString("(check-sat)\n")
	var names []string
	for _, a := range want {
		n := string(rune(a.kind)) + strconv.Itoa(a.id)
		if e.seen[n] {
			names = append(names, n)
		}
	}
	if len(names) > 0 {
		fmt.Fprintf(&q, "(get-value (%s))\n", strings.Join(names, " "))
	}
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s.%d", d, w.S.Queries), []byte(q.String()), 0644)
	}
	cmd := exec.Command("timeout", strconv.Itoa(secs+5), "z3-new", "-in", "-memory:4000")
	cmd.Stdin = strings.NewReader(q.String())
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	w.S.Queries++
	w.S.Time += time.Since(t0)
	txt := out.String()
	switch {
	case strings.HasPrefix(txt, "unsat"):
		w.S.NUnsat++
		return Unsat, nil
	case strings.HasPrefix(txt, "sat"):
		w.S.NSat++
		vals := map[*atom]*big.Int{}
		for _, pr := range parsePairs(txt[3:]) {
			v := strings.TrimSpace(pr[1])
			neg := strings.HasPrefix(v, "(")
			v = strings.Trim(v, "()- ")
			if b, ok := new(big.Int).SetString(v, 10); ok {
				if neg {
					b.Neg(b)
				}
				if id, err := strconv.Atoi(pr[0][1:]); err == nil && id <= len(w.ar.atoms) {
					vals[w.ar.atoms[id-1]] = b
				}
			}
		}
		return Sat, vals
	}
	if strings.Contains(txt, "error") {
		w.res.SolverErrs = append(w.res.SolverErrs, txt)
	}
	w.S.NUnk++
	return Unknown, nil
}

// ---------- concrete evaluation ----------

type evalCtx struct {
	in   map[*atom]*big.Int
	memo map[*atom]*big.Int
}

func (c *evalCtx) poly(p *Poly) *big.Int {
	r := new(big.Int)
	for _, t := range p.ts {
		x := new(big.Int).Set(t.c)
		for _, f := range t.m.fs {
			v := c.atom(f.a)
			for i := 0; i < f.e; i++ {
				x.Mul(x, v)
			}
		}
		r.Add(r, x)
	}
	return r
}

func (c *evalCtx) atom(a *atom) *big.Int {
	if v := c.memo[a]; v != nil {
		return v
	}
	var v *big.Int
	switch a.kind {
	case 'v':
		v = c.in[a]
		if v == nil {
			v = a.lo
		}
	case 'f':
		v = fdiv(c.poly(a.reps[0].p), a.reps[0].k)
	case 'd':
		v = c.poly(a.def)
	case 'x':
		v = new(big.Int).Xor(c.poly(a.x), c.poly(a.y))
	case 'a':
		v = new(big.Int).And(c.poly(a.x), c.poly(a.y))
	}
	c.memo[a] = v
	return v
}

// reach lists the atoms a polynomial depends on.
func (A *Arith) reach(ps ...*Poly) []*atom {
	seen := map[*atom]bool{}
	var out []*atom
	var poly func(p *Poly)
	poly = func(p *Poly) {
		for _, t := range p.ts {
			for _, f := range t.m.fs {
				if a := f.a; !seen[a] {
					seen[a] = true
					switch a.kind {
					case 'f':
						for _, r := range a.reps {
							poly(r.p)
						}
					case 'd':
						poly(a.def)
					case 'x', 'a':
						poly(a.x)
						poly(a.y)
					}
					out = append(out, a)
				}
			}
		}
	}
	for _, p := range ps {
		poly(p)
	}
	return out
}

// counterexamples looks for inputs on which bad holds of the value of p, from
// the solver's models and from extreme and random values.
func (w *Worker) counterexamples(p *Poly, bad func(*big.Int) bool, models []map[*atom]*big.Int, mod *big.Int, secs float64) []map[*atom]*big.Int {
	all := w.ar.reach(p)
	var ins, floors []*atom
	for _, a := range all {
		if a.kind == 'v' {
			ins = append(ins, a)
		}
		if a.kind == 'f' {
			floors = append(floors, a)
		}
	}
	var out []map[*atom]*big.Int
	try := func(m map[*atom]*big.Int) bool {
		if bad((&evalCtx{m, map[*atom]*big.Int{}}).poly(p)) {
			c := map[*atom]*big.Int{}
			for _, a := range ins {
				if v := m[a]; v != nil {
					c[a] = v
				} else {
					c[a] = a.lo
				}
			}
			out = append(out, c)
		}
		return len(out) >= 6
	}
	for _, m := range models {
		if try(m) {
			return out
		}
	}
	rng := rand.New(rand.NewSource(1))
	pick := func(a *atom, mode int) *big.Int {
		switch {
		case mode == 0 || mode == 2 && rng.Intn(2) == 0:
			d := new(big.Int).Sub(a.hi, a.lo)
			d.Add(d, big1)
			return new(big.Int).Add(a.lo, new(big.Int).Rand(rng, d))
		case rng.Intn(2) == 0:
			return a.lo
		}
		return a.hi
	}
	groups := inputGroups(ins)
	// shape gives the digits of one number a regular form
	shape := func(g []*atom, m map[*atom]*big.Int) {
		for _, a := range g {
			m[a] = big0
			if a.lo.Sign() > 0 {
				m[a] = a.lo
			}
		}
		bytes := true
		for _, a := range g {
			bytes = bytes && a.lo.Sign() == 0 && a.hi.BitLen() <= 8
		}
		small := func() *big.Int {
			v := new(big.Int).Rand(rng, pow2(uint(1+rng.Intn(22))))
			if rng.Intn(2) == 0 {
				v.Neg(v)
			}
			return v
		}
		switch k := rng.Intn(6); {
		case k == 0: // zero
		case k == 1: // small
			if g[0].hi.Sign() > 0 {
				m[g[0]] = big.NewInt(1)
			}
		case k == 2:
			for _, a := range g {
				m[a] = pick(a, 0)
			}
		case k >= 4 && bytes: // next to a power of two or a multiple of the modulus
			top := 8 * len(g)
			v := pow2(uint(rng.Intn(top)))
			if mod != nil && mod.BitLen() < top && rng.Intn(2) == 0 {
				q := new(big.Int).Rand(rng, pow2(uint(1+rng.Intn(top-mod.BitLen()))))
				v = q.Mul(q, mod)
				if rng.Intn(2) == 0 {
					v.Add(v, pow2(uint(rng.Intn(mod.BitLen()))))
				}
			}
			v.Add(v, small())
			if v.Sign() < 0 {
				v.Neg(v)
			}
			for _, a := range g {
				b := new(big.Int).And(v, big.NewInt(255))
				if b.Cmp(a.hi) > 0 {
					b = a.hi
				}
				m[a] = b
				v = new(big.Int).Rsh(v, 8)
			}
		default: // runs of extreme digits
			cur := rng.Intn(3)
			for _, a := range g {
				if rng.Intn(6) == 0 {
					cur = rng.Intn(3)
				}
				switch cur {
				case 1:
					m[a] = a.lo
				case 2:
					m[a] = a.hi
				}
				if rng.Intn(12) == 0 {
					m[a] = pick(a, 0)
				}
			}
		}
	}
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	for i := 0; i < 60000 && time.Now().Before(end); i++ {
		m := map[*atom]*big.Int{}
		switch {
		case i == 0 || i == 1:
			for _, a := range ins {
				m[a] = a.lo
				if i == 1 {
					m[a] = a.hi
				}
			}
		case i%4 == 3 && len(floors) > 0:
			// push the argument of one floor to an extreme
			f := floors[(i/4)%len(floors)]
			q := f.reps[0].p
			up := rng.Intn(2) == 0
			for _, a := range ins {
				m[a] = pick(a, 1)
			}
			var vs []*atom
			for _, a := range w.ar.reach(q) {
				if a.kind == 'v' {
					vs = append(vs, a)
				}
			}
			for round := 0; round < 2; round++ {
				for _, a := range vs {
					var best *big.Int
					var bv *big.Int
					for _, v := range []*big.Int{a.lo, a.hi} {
						m[a] = v
						x := (&evalCtx{m, map[*atom]*big.Int{}}).poly(q)
						if best == nil || up && x.Cmp(best) > 0 || !up && x.Cmp(best) < 0 {
							best, bv = x, v
						}
					}
					m[a] = bv
				}
				if time.Now().After(end) {
					break
				}
			}
		case i%4 == 1:
			for _, g := range groups {
				shape(g, m)
			}
		default:
			mode := i % 4
			for _, a := range ins {
				m[a] = pick(a, mode)
			}
		}
		if try(m) {
			break
		}
	}
	return out
}

func (w *Worker) arithViolation(msg string, cs []map[*atom]*big.Int) {
	s := w.cur
	w.res.nViol["arith"+msg]++
	if w.res.nViol["arith"+msg] > 3 {
		return
	}
	var ms []map[string]uint64
	for _, c := range cs {
		m := map[string]uint64{}
		for _, in := range s.inputs {
			if in.t.isConst() {
				m[in.name] = in.t.k
			}
		}
		for a, v := range c {
			m[a.name] = new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64()
		}
		ms = append(ms, m)
	}
	w.res.Viol = append(w.res.Viol, &Violation{Taint: map[string]bool{}, Harness: w.job.h.Name, Msg: msg, Where: w.where(), Trace: w.backtrace(), Inputs: ms[0], Alts: ms[1:], Pins: w.job.pins, Kind: "assert"})
}

// decideArith discharges "goal of p is impossible": goal(name) is the
// negation of the statement, bad the same on values.
func (w *Worker) decideArith(msg string, p *Poly, goal func(string) string, bad func(*big.Int) bool, wit *Poly, mod *big.Int) {
	A := w.ar
	var models []map[*atom]*big.Int
	var ins []*atom
	for _, a := range A.reach(p) {
		if a.kind == 'v' {
			ins = append(ins, a)
		}
	}
	if c, ok := p.isCon(); ok {
		if bad(c) {
			w.arithViolation(msg, []map[*atom]*big.Int{{}})
			return
		}
		// a statement about constants: the running solver decides it
		body := num(c)
		if wit != nil {
			if q, ok := wit.isCon(); ok {
				body += "|" + num(q)
			}
		}
		if w.S.ground(goal(body)) == Unsat {
			w.res.Asserts[msg]++
			return
		}
	}
	secs := 10
	limit := 100 * time.Second
	if w.job.tier == "thorough" {
		secs, limit = 60, 1200*time.Second
	}
	hard := A.spent > limit // the budget for difficult statements is used up
	if hard {
		secs = 2
	}
	t0 := time.Now()
	defer func() {
		if d := time.Since(t0); d > time.Second {
			A.spent += d
		}
	}()
	run := func(depth int, nl bool, vals map[*atom]*big.Int, secs int) bool {
		e := &smtEnc{A: A, seen: map[string]bool{}, nl: nl, vals: vals}
		body := e.poly(p, depth)
		r, m := w.ask(e, goal(body), secs, ins)
		if r == Unsat && vals == nil {
			w.res.Asserts[msg]++
			return true
		}
		if r == Sat {
			for a, v := range vals {
				m[a] = v
			}
			models = append(models, m)
		}
		return false
	}
	if wit != nil {
		// the residue vanishes term by term: p = m * wit
		e := &smtEnc{A: A, seen: map[string]bool{}}
		body := e.poly(p, 0)
		if r, _ := w.ask(e, goal(body+"|"+e.poly(wit, 0)), secs, nil); r == Unsat {
			w.res.Asserts[msg]++
			return
		}
	} else {
		last := -1
		for _, d := range []int{0, 2, 5, 50} {
			e := &smtEnc{A: A, seen: map[string]bool{}}
			e.poly(p, d)
			if e.n == last {
				continue
			}
			last = e.n
			if run(d, false, nil, secs) {
				return
			}
		}
	}
	cs := w.counterexamples(p, bad, models, mod, 4)
	if len(cs) == 0 && !hard {
		models = nil
		// linear sub-cases: all but one factor of every product fixed
		run(50, true, nil, secs)
		for i := 0; i < 6 && len(models) < 4; i++ {
			vals := map[*atom]*big.Int{}
			w.fixFactors(p, vals, i)
			if len(vals) > 0 {
				run(50, true, vals, secs)
			}
		}
		cs = w.counterexamples(p, bad, models, mod, float64(secs)*2)
	}
	if len(cs) > 0 {
		w.arithViolation(msg, cs)
		return
	}
	w.res.unknown("integer statement undecided: " + msg)
}

// inputGroups are the inputs that are digits of the same number, in order.
func inputGroups(ins []*atom) [][]*atom {
	groups := map[string][]*atom{}
	var order []string
	for _, a := range ins {
		g := a.name
		if j := strings.IndexAny(g, "[#"); j >= 0 {
			g = g[:j]
		}
		if groups[g] == nil {
			order = append(order, g)
		}
		groups[g] = append(groups[g], a)
	}
	sort.Strings(order)
	var out [][]*atom
	for _, g := range order {
		sort.Slice(groups[g], func(i, j int) bool { return groups[g][i].id < groups[g][j].id })
		out = append(out, groups[g])
	}
	return out
}

// fixFactors chooses values for input groups so that the products become
// linear: the inputs whose name starts like the first (or last) group's.
func (w *Worker) fixFactors(p *Poly, vals map[*atom]*big.Int, i int) {
	rng := rand.New(rand.NewSource(int64(i)))
	var ins []*atom
	for _, a := range w.ar.reach(p) {
		if a.kind == 'v' {
			ins = append(ins, a)
		}
	}
	groups := inputGroups(ins)
	if len(groups) < 2 {
		return
	}
	for _, a := range groups[i%len(groups)] {
		switch i / len(groups) {
		case 0:
			vals[a] = a.hi
		case 1:
			d := new(big.Int).Sub(a.hi, a.lo)
			vals[a] = new(big.Int).Add(a.lo, new(big.Int).Rand(rng, d.Add(d, big1)))
		default:
			vals[a] = a.lo
			if a.lo.Sign() < 0 {
				vals[a] = big0
			}
			if strings.HasSuffix(a.name, "[0]") {
				vals[a] = big1
			}
		}
	}
}

func (w *Worker) assertCong(a, b *Poly, m *big.Int, msg string) {
	A := w.ar
	d := A.expand(A.sub(a, b))
	bad := func(v *big.Int) bool { return new(big.Int).Mod(v, m).Sign() != 0 }
	q := map[*mono]*big.Int{}
	red := map[*mono]*big.Int{}
	half := new(big.Int).Rsh(m, 1)
	for _, t := range d.ts {
		x, r := new(big.Int).DivMod(t.c, m, new(big.Int))
		q[t.m] = x
		if r.Cmp(half) > 0 {
			r = r.Sub(r, m)
		}
		red[t.m] = r
	}
	R := A.build(red)
	if len(R.ts) == 0 {
		w.decideArith(msg, d, func(s string) string {
			i := strings.Index(s, "|")
			return fmt.Sprintf("(assert (not (= %s (* %s %s))))\n", s[:i], m, s[i+1:])
		}, bad, A.build(q), m)
		return
	}
	w.decideArith(msg, R, func(s string) string {
		return fmt.Sprintf("(declare-const quo Int)(declare-const res Int)(assert (< 0 res %s))(assert (= %s (+ (* %s quo) res)))\n", m, s, m)
	}, bad, nil, m)
}

func (w *Worker) assertRange(a *Poly, lo, hi *big.Int, msg string) {
	w.decideArith(msg, a, func(s string) string {
		return fmt.Sprintf("(define-fun val () Int %s)(assert (or (< val %s) (< %s val)))\n", s, num(lo), num(hi))
	}, func(v *big.Int) bool { return v.Cmp(lo) < 0 || v.Cmp(hi) > 0 }, nil, new(big.Int).Add(hi, big1))
}

// ---------- harness interface ----------

func numOf(v Value) *Poly { return v.(Agg)[0].(*Poly) }

func initArith(I map[string]Intrinsic) {
	S := func(n string, f func(w *Worker, a []Value) Value) {
		I["vh/sym."+n] = func(w *Worker, a []Value, _ *ssa.Function) Value {
			if w.ar == nil {
				panic(pathEnd{"unsupported", "integer arithmetic in a harness not marked arith"})
			}
			return f(w, a)
		}
	}
	mk := func(p *Poly) Value { return Agg{p} }
	S("Limb", func(w *Worker, a []Value) Value {
		p := w.ar.input(w.freshName(w.strArg(a[0])), big.NewInt(a[1].(*Term).sval()), big.NewInt(a[2].(*Term).sval()))
		return w.polyTerm(p, 64)
	})
	S("NumI", func(w *Worker, a []Value) Value { return mk(w.polyOf(a[0].(*Term), true)) })
	S("NumBytes", func(w *Worker, a []Value) Value {
		r := w.ar.con(big0)
		for i, b := range w.cur.bytesOf(a[0].(Slice)) {
			r = w.ar.lin(r, w.polyOf(b, false), pow2(uint(8*i)))
		}
		return mk(r)
	})
	S("NumDec", func(w *Worker, a []Value) Value {
		b, _ := new(big.Int).SetString(w.strArg(a[0]), 10)
		return mk(w.ar.con(b))
	})
	M := func(n string, f func(w *Worker, a []Value) Value) {
		g := I["vh/sym.NumI"]
		_ = g
		I["(vh/sym.Num)."+n] = func(w *Worker, a []Value, _ *ssa.Function) Value { return f(w, a) }
	}
	M("Add", func(w *Worker, a []Value) Value { return mk(w.ar.add(numOf(a[0]), numOf(a[1]))) })
	M("Sub", func(w *Worker, a []Value) Value { return mk(w.ar.sub(numOf(a[0]), numOf(a[1]))) })
	M("Mul", func(w *Worker, a []Value) Value {
		return mk(w.ar.mul(w.ar.expand(numOf(a[0])), w.ar.expand(numOf(a[1]))))
	})
	M("Shl", func(w *Worker, a []Value) Value {
		return mk(w.ar.scale(numOf(a[0]), pow2(uint(constInt(a[1])))))
	})
	con := func(v Value) *big.Int {
		c, ok := numOf(v).isCon()
		if !ok {
			panic(pathEnd{"unsupported", "symbolic modulus or bound"})
		}
		return c
	}
	S("Cong", func(w *Worker, a []Value) Value {
		w.assertCong(numOf(a[0]), numOf(a[1]), con(a[2]), w.strArg(a[3]))
		return nil
	})
	S("Within", func(w *Worker, a []Value) Value {
		w.assertRange(numOf(a[0]), con(a[1]), con(a[2]), w.strArg(a[3]))
		return nil
	})
}
