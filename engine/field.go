package main

// The signature group above its limbs.  In a job marked arith=field the
// field operations, checked on their own by the arith=limb jobs, are replaced
// by polynomials over GF(2^255-19); with arith=pow by the exponent of one
// unknown; with arith=group the point operations, checked by the arith=field
// jobs, by multiples of the base point.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var fieldP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)

// fieldVal is a field element: its value and the bound of its digits in
// tenths of 2^25 (2^24 at odd positions).
type fieldVal struct {
	p *Poly
	b int
}

type powVal struct{ e *big.Int }

type pointVal struct{ p *Poly }

func limbsValue(vs []Value) (*big.Int, bool) {
	r := new(big.Int)
	for i := 0; i < 10; i++ {
		t, ok := vs[i].(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		r.Add(r, new(big.Int).Lsh(big.NewInt(t.sval()), uint(25*i+(i+1)/2)))
	}
	return r, true
}

func (A *Arith) modp(p *Poly) *Poly {
	m := map[*mono]*big.Int{}
	for _, t := range p.ts {
		m[t.m] = new(big.Int).Mod(t.c, fieldP)
	}
	return A.build(m)
}

func (w *Worker) feGet(v Value) *fieldVal {
	sl := w.cur.loadN(w.ptr(v), 10)
	if f, ok := sl[0].(*fieldVal); ok {
		return f
	}
	if c, ok := limbsValue(sl); ok {
		return &fieldVal{w.ar.con(c.Mod(c, fieldP)), 10}
	}
	panic(pathEnd{"unsupported", "field element built outside the modelled operations at " + w.where()})
}

func (w *Worker) fePut(v Value, x Value) {
	p := w.ptr(v)
	o := w.cur.wobj(p.obj)
	for i := 1; i < 10; i++ {
		o.slots[int(p.off)+i] = w.T.Const(32, 0)
	}
	o.slots[p.off] = x
}

// fieldPre asserts that the digits of an operand are in the range for which
// the operation is checked.
func (w *Worker) fieldPre(op string, max int, xs ...*fieldVal) {
	for _, x := range xs {
		msg := "the digits of the operands of " + op + " stay in its range"
		if x.b > max {
			w.arithViolation(msg, []map[*atom]*big.Int{{}})
			panic(pathEnd{"stop", ""})
		}
		w.res.Asserts[msg]++
	}
}

type arithFn func(w *Worker, a []Value) Value

func fieldIntrinsics() map[string]arithFn {
	E := repoMod + "/ecc/edwards25519."
	I := map[string]arithFn{}
	put := func(w *Worker, v Value, p *Poly, b int) Value {
		w.fePut(v, &fieldVal{w.ar.modp(p), b})
		return nil
	}
	I[E+"FeZero"] = func(w *Worker, a []Value) Value { return put(w, a[0], w.ar.con(big0), 1) }
	I[E+"FeOne"] = func(w *Worker, a []Value) Value { return put(w, a[0], w.ar.con(big1), 1) }
	I[E+"FeCopy"] = func(w *Worker, a []Value) Value {
		w.fePut(a[0], w.feGet(a[1]))
		return nil
	}
	I[E+"FeAdd"] = func(w *Worker, a []Value) Value {
		x, y := w.feGet(a[1]), w.feGet(a[2])
		return put(w, a[0], w.ar.add(x.p, y.p), x.b+y.b)
	}
	I[E+"FeSub"] = func(w *Worker, a []Value) Value {
		x, y := w.feGet(a[1]), w.feGet(a[2])
		return put(w, a[0], w.ar.sub(x.p, y.p), x.b+y.b)
	}
	I[E+"FeNeg"] = func(w *Worker, a []Value) Value {
		x := w.feGet(a[1])
		return put(w, a[0], w.ar.scale(x.p, big.NewInt(-1)), x.b)
	}
	I[E+"FeMul"] = func(w *Worker, a []Value) Value {
		x, y := w.feGet(a[1]), w.feGet(a[2])
		w.fieldPre("FeMul", 33, x, y)
		return put(w, a[0], w.ar.mul(x.p, y.p), 11)
	}
	I[E+"FeSquare"] = func(w *Worker, a []Value) Value {
		x := w.feGet(a[1])
		w.fieldPre("FeSquare", 33, x)
		return put(w, a[0], w.ar.mul(x.p, x.p), 11)
	}
	I[E+"FeSquare2"] = func(w *Worker, a []Value) Value {
		x := w.feGet(a[1])
		w.fieldPre("FeSquare2", 33, x)
		return put(w, a[0], w.ar.scale(w.ar.mul(x.p, x.p), big.NewInt(2)), 11)
	}
	atomOf := func(w *Worker, kind string, p *Poly, lo, hi *big.Int) *Poly {
		return w.ar.input(fmt.Sprintf("%s.%d", kind, w.ar.modp(p).id), lo, hi)
	}
	I[E+"FeInvert"] = func(w *Worker, a []Value) Value {
		x := w.feGet(a[1])
		w.fieldPre("FeInvert", 33, x)
		return put(w, a[0], atomOf(w, "inverse", x.p, big0, fieldP), 11)
	}
	I[E+"FeToBytes"] = func(w *Worker, a []Value) Value {
		x := w.feGet(a[1])
		w.fieldPre("FeToBytes", 11, x)
		p := w.ptr(a[0])
		o := w.cur.wobj(p.obj)
		for i := 0; i < 32; i++ {
			h := int64(255)
			if i == 31 {
				h = 127
			}
			o.slots[int(p.off)+i] = w.polyTerm(atomOf(w, fmt.Sprintf("byte%d", i), x.p, big0, big.NewInt(h)), 8)
		}
		return nil
	}
	I[E+"FeIsNegative"] = func(w *Worker, a []Value) Value {
		x := w.feGet(a[0])
		w.fieldPre("FeIsNegative", 11, x)
		return w.polyTerm(atomOf(w, "odd", x.p, big0, big1), 8)
	}
	return I
}

func powIntrinsics() map[string]arithFn {
	E := repoMod + "/ecc/edwards25519."
	get := func(w *Worker, v Value) *big.Int {
		if f, ok := w.cur.loadN(w.ptr(v), 1)[0].(*powVal); ok {
			return f.e
		}
		if c, ok := limbsValue(w.cur.loadN(w.ptr(v), 10)); ok && c.Cmp(big1) == 0 {
			return big0
		}
		panic(pathEnd{"unsupported", "field element built outside the modelled operations at " + w.where()})
	}
	put := func(w *Worker, v Value, e *big.Int) Value { w.fePut(v, &powVal{e}); return nil }
	return map[string]arithFn{
		E + "FeCopy":   func(w *Worker, a []Value) Value { return put(w, a[0], get(w, a[1])) },
		E + "FeSquare": func(w *Worker, a []Value) Value { return put(w, a[0], new(big.Int).Lsh(get(w, a[1]), 1)) },
		E + "FeMul": func(w *Worker, a []Value) Value {
			return put(w, a[0], new(big.Int).Add(get(w, a[1]), get(w, a[2])))
		},
	}
}

func groupIntrinsics() map[string]arithFn {
	E := repoMod + "/ecc/edwards25519."
	get := func(w *Worker, v Value) *Poly {
		if f, ok := w.cur.loadN(w.ptr(v), 1)[0].(*pointVal); ok {
			return f.p
		}
		panic(pathEnd{"unsupported", "point built outside the modelled operations at " + w.where()})
	}
	put := func(w *Worker, v Value, x *Poly) Value {
		p := w.ptr(v)
		w.cur.wobj(p.obj).slots[p.off] = &pointVal{x}
		return nil
	}
	I := map[string]arithFn{}
	M := func(t, m string, f arithFn) { I["(*"+E+t+")."+m] = f }
	zero := func(w *Worker, a []Value) Value { return put(w, a[0], w.ar.con(big0)) }
	double := func(w *Worker, a []Value) Value {
		x := get(w, a[0])
		return put(w, a[1], w.ar.add(x, x))
	}
	same := func(w *Worker, a []Value) Value { return put(w, a[1], get(w, a[0])) }
	M("ProjectiveGroupElement", "Zero", zero)
	M("ExtendedGroupElement", "Zero", zero)
	M("PreComputedGroupElement", "Zero", zero)
	M("ProjectiveGroupElement", "Double", double)
	M("ExtendedGroupElement", "Double", double)
	M("ExtendedGroupElement", "ToProjective", same)
	M("CompletedGroupElement", "ToProjective", same)
	M("CompletedGroupElement", "ToExtended", same)
	I[E+"geMixedAdd"] = func(w *Worker, a []Value) Value {
		return put(w, a[0], w.ar.add(get(w, a[1]), get(w, a[2])))
	}
	I[E+"selectPoint"] = func(w *Worker, a []Value) Value {
		pos := constInt(a[1])
		b := w.polyOf(a[2].(*Term), true)
		msg := "the digits of the scalar stay in the range of the table"
		lo, hi := w.ar.iv(b)
		if pos < 0 || pos > 31 || lo.Cmp(big.NewInt(-8)) < 0 || hi.Cmp(big.NewInt(8)) > 0 {
			w.assertRange(b, big.NewInt(-8), big.NewInt(8), msg)
		} else {
			w.res.Asserts[msg]++
		}
		return put(w, a[0], w.ar.scale(b, pow2(uint(8*pos))))
	}
	return I
}

var arithLevels = map[string]map[string]arithFn{"field": fieldIntrinsics(), "pow": powIntrinsics(), "group": groupIntrinsics()}

// arithIntrinsic finds the model of a function of the group package in a job
// of that level; elsewhere in such a job its code is executed.
func (w *Worker) arithIntrinsic(name string) Intrinsic {
	f := arithLevels[w.job.h.Arith][name]
	if f == nil {
		return nil
	}
	return func(w *Worker, a []Value, _ *ssa.Function) Value { return f(w, a) }
}

// ---- reference multiples of the base point ----

var (
	edD = func() *big.Int {
		x := new(big.Int).ModInverse(big.NewInt(121666), fieldP)
		x.Mul(x, big.NewInt(-121665))
		return x.Mod(x, fieldP)
	}()
	edBX, edBY *big.Int
)

func init() {
	edBY = new(big.Int).ModInverse(big.NewInt(5), fieldP)
	edBY.Mul(edBY, big.NewInt(4)).Mod(edBY, fieldP)
	// x^2 = (y^2-1)/(d y^2+1), x even
	y2 := new(big.Int).Mul(edBY, edBY)
	n := new(big.Int).Sub(y2, big1)
	d := new(big.Int).Mul(edD, y2)
	d.Add(d, big1).Mod(d, fieldP)
	n.Mul(n, d.ModInverse(d, fieldP)).Mod(n, fieldP)
	edBX = n.ModSqrt(n, fieldP)
	if edBX.Bit(0) == 1 {
		edBX.Sub(fieldP, edBX)
	}
}

func edAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	m := func(a, b *big.Int) *big.Int { c := new(big.Int).Mul(a, b); return c.Mod(c, fieldP) }
	t := m(edD, m(m(x1, x2), m(y1, y2)))
	xn := new(big.Int).Add(m(x1, y2), m(y1, x2))
	yn := new(big.Int).Add(m(y1, y2), m(x1, x2))
	xd := new(big.Int).Add(big1, t)
	yd := new(big.Int).Sub(big1, t)
	xd.Mod(xd, fieldP)
	yd.Mod(yd, fieldP)
	return m(xn, xd.ModInverse(xd, fieldP)), m(yn, yd.ModInverse(yd, fieldP))
}

func edMul(k *big.Int) (*big.Int, *big.Int) {
	x, y := big.NewInt(0), big.NewInt(1)
	bx, by := edBX, edBY
	n := new(big.Int).Abs(k)
	for i := 0; i < n.BitLen(); i++ {
		if n.Bit(i) == 1 {
			x, y = edAdd(x, y, bx, by)
		}
		bx, by = edAdd(bx, by, bx, by)
	}
	if k.Sign() < 0 {
		x = new(big.Int).Sub(fieldP, x)
		x.Mod(x, fieldP)
	}
	return x, y
}

func initField(I map[string]Intrinsic) {
	S := func(n string, f arithFn) {
		I["vh/sym."+n] = func(w *Worker, a []Value, _ *ssa.Function) Value {
			if w.ar == nil {
				panic(pathEnd{"unsupported", "integer arithmetic in a harness not marked arith"})
			}
			return f(w, a)
		}
	}
	S("FieldAtom", func(w *Worker, a []Value) Value {
		return Agg{w.ar.input(w.freshName(w.strArg(a[0])), big0, new(big.Int).Sub(fieldP, big1))}
	})
	S("SetField", func(w *Worker, a []Value) Value {
		if c, ok := numOf(a[1]).isCon(); ok && w.job.h.Arith == "pow" {
			w.fePut(a[0], &powVal{c})
			return nil
		}
		w.fePut(a[0], &fieldVal{w.ar.modp(numOf(a[1])), 11})
		return nil
	})
	S("FieldNum", func(w *Worker, a []Value) Value {
		if f, ok := w.cur.loadN(w.ptr(a[0]), 1)[0].(*powVal); ok {
			return Agg{w.ar.con(f.e)}
		}
		return Agg{w.feGet(a[0]).p}
	})
	S("PointLog", func(w *Worker, a []Value) Value {
		p := w.ptr(a[0])
		if g, ok := w.cur.loadN(p, 1)[0].(*pointVal); ok {
			return Agg{g.p}
		}
		panic(pathEnd{"unsupported", "point built outside the modelled operations"})
	})
	S("BaseMultiple", func(w *Worker, a []Value) Value {
		k, ok := numOf(a[0]).isCon()
		if !ok {
			panic(pathEnd{"unsupported", "multiple of the base point by a symbolic number"})
		}
		x, y := edMul(k)
		return Tuple{Agg{w.ar.con(x)}, Agg{w.ar.con(y)}}
	})
	// Call calls a function of the group package by its name.
	S("Call", func(w *Worker, a []Value) Value {
		name := w.strArg(a[0])
		fn := w.P.lookupFunc(repoMod + "/ecc/edwards25519." + name)
		if fn == nil || fn.Signature.Results().Len() != 0 {
			panic(pathEnd{"unsupported", "no function " + name})
		}
		var args []Value
		sl := a[1].(Slice)
		n := fn.Signature.Params().Len()
		if n != int(sl.len) {
			panic(pathEnd{"unsupported", "function " + name + " takes other parameters"})
		}
		for i, v := range w.cur.loadN(Ptr{sl.obj, sl.off}, n) {
			x := v.(Iface)
			pt := fn.Signature.Params().At(i).Type().String()
			if strings.HasPrefix(pt, "*") != (x.t != nil && strings.HasPrefix(x.t.String(), "*")) {
				panic(pathEnd{"unsupported", "function " + name + " takes other parameters"})
			}
			args = append(args, x.v)
		}
		return enterReq{&Closure{fn: fn}, args}
	})
}
