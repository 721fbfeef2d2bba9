package h

import (
	"unsafe"

	"github.com/prospik/libsignal-protocol-go/ecc/edwards25519"

	"vh/sym"
)

// ---- C29: the field and the scalars of the signature group ----

var (
	fieldP = "57896044618658097711785492504343953926634992332820282019728792003956564819949"
	curveD = "37095705934669439343138083508754565189542113879843219016388785533085940283555" // -121665/121666
	orderL = "7237005577332262213973186563042994240857116359379907606001950938285454250989"
)

// limbs is a field element whose digits are bounded by tenths/10 * 2^25 (even
// positions) and 2^24 (odd positions).
func limbs(name string, tenths int64) (f edwards25519.FieldElement) {
	for i := range f {
		b := tenths * (1 << 25) / 10
		if i%2 == 1 {
			b /= 2
		}
		f[i] = int32(sym.Limb(name, -b, b))
	}
	return
}

// number is the integer a field element stands for.
func number(f *edwards25519.FieldElement) sym.Num {
	n := sym.NumI(0)
	for i := range f {
		n = n.Add(sym.NumI(int64(f[i])).Shl(uint(25*i + (i+1)/2)))
	}
	return n
}

func bounded(f *edwards25519.FieldElement, tenths int64, label string) {
	for i := range f {
		b := tenths * (1 << 25) / 10
		if i%2 == 1 {
			b /= 2
		}
		sym.Within(sym.NumI(int64(f[i])), sym.NumI(-b), sym.NumI(b), label)
	}
}

func cong(a, b sym.Num, label string) { sym.Cong(a, b, sym.NumDec(fieldP), label) }

// C29Linear: sums, differences, negation and copies of field elements.
//
//gosym:prop=C29 arith=limb
//gosym:bound all digits of magnitude up to 1.1*2^26 (even) and 1.1*2^25 (odd), and results aliasing the operands
func C29Linear() {
	f, g := limbs("f", 22), limbs("g", 22)
	var h, z edwards25519.FieldElement
	F, G := number(&f), number(&g)
	edwards25519.FeAdd(&h, &f, &g)
	cong(number(&h), F.Add(G), "FeAdd gives the sum")
	edwards25519.FeSub(&h, &f, &g)
	cong(number(&h), F.Sub(G), "FeSub gives the difference")
	edwards25519.FeNeg(&h, &f)
	cong(number(&h), sym.NumI(0).Sub(F), "FeNeg gives the negative")
	edwards25519.FeCopy(&h, &g)
	cong(number(&h), G, "FeCopy gives the value")
	edwards25519.FeOne(&h)
	cong(number(&h), sym.NumI(1), "FeOne gives one")
	edwards25519.FeZero(&h)
	cong(number(&h), sym.NumI(0), "FeZero gives zero")
	h, z = f, g
	edwards25519.FeCMove(&h, &z, 0)
	cong(number(&h), F, "FeCMove with 0 keeps the value")
	edwards25519.FeCMove(&h, &z, 1)
	cong(number(&h), G, "FeCMove with 1 takes the other value")
	cong(number(&z), G, "FeCMove leaves the other value")
	h = f
	edwards25519.FeAdd(&h, &h, &g)
	cong(number(&h), F.Add(G), "FeAdd onto an operand gives the sum")
	h = f
	edwards25519.FeSub(&h, &g, &h)
	cong(number(&h), G.Sub(F), "FeSub onto an operand gives the difference")
}

// C29Mul: products and squares.
//
//gosym:prop=C29 arith=limb
//gosym:bound all digits of magnitude up to 1.65*2^26 and 1.65*2^25, results aliasing the operands
func C29Mul() {
	var h edwards25519.FieldElement
	switch sym.Choose("op", 6) {
	case 0:
		f, g := limbs("f", 33), limbs("g", 33)
		v := number(&f).Mul(number(&g))
		edwards25519.FeMul(&h, &f, &g)
		cong(number(&h), v, "FeMul gives the product")
	case 1:
		f, g := limbs("f", 33), limbs("g", 33)
		v := number(&f).Mul(number(&g))
		edwards25519.FeMul(&f, &f, &g)
		cong(number(&f), v, "FeMul onto its first operand gives the product")
		h = f
	case 2:
		f, g := limbs("f", 33), limbs("g", 33)
		v := number(&f).Mul(number(&g))
		edwards25519.FeMul(&g, &f, &g)
		cong(number(&g), v, "FeMul onto its second operand gives the product")
		h = g
	case 3:
		f := limbs("f", 33)
		v := number(&f).Mul(number(&f))
		edwards25519.FeSquare(&h, &f)
		cong(number(&h), v, "FeSquare gives the square")
	case 4:
		f := limbs("f", 33)
		v := number(&f).Mul(number(&f))
		edwards25519.FeSquare(&f, &f)
		cong(number(&f), v, "FeSquare onto its operand gives the square")
		h = f
	case 5:
		f := limbs("f", 33)
		v := number(&f).Mul(number(&f))
		edwards25519.FeSquare2(&h, &f)
		cong(number(&h), v.Add(v), "FeSquare2 gives twice the square")
	}
	bounded(&h, 11, "the digits of the result are small again")
}

// C29Bytes: field elements from and to their encodings.
//
//gosym:prop=C29 arith=limb
//gosym:bound all 32-byte strings; all digits of magnitude up to 1.1*2^25 and 1.1*2^24
func C29Bytes() {
	p := sym.NumDec(fieldP)
	if sym.Choose("op", 2) == 0 {
		b := sym.Bytes("b", 32)
		var in [32]byte
		copy(in[:], b)
		var h edwards25519.FieldElement
		edwards25519.FeFromBytes(&h, &in)
		low := append([]byte{}, b...)
		low[31] &= 127
		cong(number(&h), sym.NumBytes(low), "FeFromBytes gives the value of the lower 255 bits")
		bounded(&h, 11, "the digits read are small")
		return
	}
	f := limbs("f", 11)
	F := number(&f)
	var s [32]byte
	neg := edwards25519.FeIsNegative(&f)
	g := f
	edwards25519.FeToBytes(&s, &g)
	n := sym.NumBytes(s[:])
	cong(n, F, "FeToBytes keeps the value")
	sym.Within(n, sym.NumI(0), p.Sub(sym.NumI(1)), "FeToBytes gives the reduced encoding")
	sym.Cong(sym.NumI(int64(neg)), n, sym.NumI(2), "FeIsNegative is the lowest bit of the encoding")
	sym.Within(sym.NumI(int64(neg)), sym.NumI(0), sym.NumI(1), "FeIsNegative is one bit")
}

// C29Scalar: s = a*b + c and s = a modulo the group order.
//
//gosym:prop=C29 arith=limb
//gosym:bound all 256-bit a, b, c (ScMulAdd) and all 512-bit inputs (ScReduce)
func C29Scalar() {
	l := sym.NumDec(orderL)
	var s [32]byte
	if sym.Choose("op", 2) == 0 {
		var a, b, c [32]byte
		copy(a[:], sym.Bytes("a", 32))
		copy(b[:], sym.Bytes("b", 32))
		copy(c[:], sym.Bytes("c", 32))
		v := sym.NumBytes(a[:]).Mul(sym.NumBytes(b[:])).Add(sym.NumBytes(c[:]))
		edwards25519.ScMulAdd(&s, &a, &b, &c)
		sym.Cong(sym.NumBytes(s[:]), v, l, "ScMulAdd gives a*b + c modulo the order")
	} else {
		var a [64]byte
		copy(a[:], sym.Bytes("a", 64))
		v := sym.NumBytes(a[:])
		edwards25519.ScReduce(&s, &a)
		sym.Cong(sym.NumBytes(s[:]), v, l, "ScReduce gives the value modulo the order")
	}
	sym.Within(sym.NumBytes(s[:]), sym.NumI(0), l.Sub(sym.NumI(1)), "the scalar is below the order")
}

func setField(f *edwards25519.FieldElement, n sym.Num) { sym.SetField((*[10]int32)(f), n) }
func fieldNum(f *edwards25519.FieldElement) sym.Num    { return sym.FieldNum((*[10]int32)(f)) }

// C29Invert: inversion raises to the power p-2.
//
//gosym:prop=C29 arith=pow
//gosym:bound all field elements (the products and squares it is made of are checked by C29Mul)
func C29Invert() {
	p, one := sym.NumDec(fieldP), sym.NumI(1)
	alias := sym.Choose("alias", 2) == 1
	label := "FeInvert gives the inverse"
	var z, out edwards25519.FieldElement
	if sym.Symbolic() {
		setField(&z, one) // the exponent
		inv(&out, &z, alias)
		sym.Cong(fieldNum(&out), p.Sub(sym.NumI(2)), p.Sub(one), label)
		return
	}
	n := sym.FieldAtom("z")
	setField(&z, n)
	inv(&out, &z, alias)
	cong(fieldNum(&out).Mul(n), one, label)
}

func inv(out, z *edwards25519.FieldElement, alias bool) {
	if alias {
		edwards25519.FeInvert(z, z)
		*out = *z
	} else {
		edwards25519.FeInvert(out, z)
	}
}

// onBase natively compares a multiple of the base point with the reference.
func onBase(a *[32]byte, label string) {
	var h edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&h, a)
	x, y := sym.BaseMultiple(sym.NumBytes(a[:]))
	isPoint(&h.X, &h.Y, &h.Z, x, y, label)
	cong(fieldNum(&h.T).Mul(fieldNum(&h.Z)), fieldNum(&h.X).Mul(fieldNum(&h.Y)), label)
}

func isPoint(X, Y, Z *edwards25519.FieldElement, x, y sym.Num, label string) {
	cong(fieldNum(X), x.Mul(fieldNum(Z)), label)
	cong(fieldNum(Y), y.Mul(fieldNum(Z)), label)
}

func scalarBytes(name string) (a [32]byte) {
	copy(a[:], sym.Bytes(name, 32))
	a[31] &= 127
	return
}

// C29Points: doubling a point and adding a table entry to it follow the
// addition law of the curve -x^2 + y^2 = 1 + d x^2 y^2.
//
//gosym:prop=C29 arith=field
//gosym:bound all affine x, y (on the curve for doubling), all Z; digit ranges tracked through the formulas
func C29Points() {
	var r edwards25519.CompletedGroupElement
	var h edwards25519.ExtendedGroupElement
	var s edwards25519.ProjectiveGroupElement
	one := sym.NumI(1)
	d := sym.NumDec(curveD)
	op := sym.Choose("op", 4)
	toExt := sym.Choose("to", 2) == 0
	label := []string{"doubling an extended point", "doubling a projective point", "adding a table entry", "caching a point"}[op]
	if !sym.Symbolic() {
		a := scalarBytes("k")
		if op == 2 {
			onBase(&a, label)
			return
		}
		edwards25519.GeScalarMultBase(&h, &a)
		if op == 3 {
			var c edwards25519.CachedGroupElement
			h.ToCached(&c)
			cacheIs(&c, &h, d, label)
			return
		}
		double(&h, &r, op)
		k := sym.NumBytes(a[:])
		x, y := sym.BaseMultiple(k.Add(k))
		if toExt {
			r.ToExtended(&h)
			isPoint(&h.X, &h.Y, &h.Z, x, y, label)
			cong(fieldNum(&h.T).Mul(fieldNum(&h.Z)), fieldNum(&h.X).Mul(fieldNum(&h.Y)), label)
		} else {
			r.ToProjective(&s)
			isPoint(&s.X, &s.Y, &s.Z, x, y, label)
		}
		return
	}
	x1, y1, z := sym.FieldAtom("x1"), sym.FieldAtom("y1"), sym.FieldAtom("z")
	setField(&h.X, x1.Mul(z))
	setField(&h.Y, y1.Mul(z))
	setField(&h.Z, z)
	setField(&h.T, x1.Mul(y1).Mul(z))
	var nx, dx, ny, dy sym.Num
	switch op {
	case 3:
		var c edwards25519.CachedGroupElement
		h.ToCached(&c)
		cacheIs(&c, &h, d, label)
		return
	case 2:
		x2, y2 := sym.FieldAtom("x2"), sym.FieldAtom("y2")
		var q edwards25519.PreComputedGroupElement
		e := (*[3]edwards25519.FieldElement)(unsafe.Pointer(&q))
		setField(&e[0], y2.Add(x2))
		setField(&e[1], y2.Sub(x2))
		setField(&e[2], d.Add(d).Mul(x2).Mul(y2))
		sym.Call("geMixedAdd", &r, &h, &q)
		t := d.Mul(x1).Mul(x2).Mul(y1).Mul(y2)
		nx, dx = x1.Mul(y2).Add(y1.Mul(x2)), one.Add(t)
		ny, dy = y1.Mul(y2).Add(x1.Mul(x2)), one.Sub(t)
	default:
		double(&h, &r, op)
		// on the curve 1 + d x^2 y^2 = y^2 - x^2
		xx, yy := x1.Mul(x1), y1.Mul(y1)
		nx, dx = x1.Mul(y1).Add(x1.Mul(y1)), yy.Sub(xx)
		ny, dy = yy.Add(xx), one.Add(one).Sub(yy.Sub(xx))
	}
	if toExt {
		r.ToExtended(&h)
		cong(fieldNum(&h.X).Mul(dx), nx.Mul(fieldNum(&h.Z)), label)
		cong(fieldNum(&h.Y).Mul(dy), ny.Mul(fieldNum(&h.Z)), label)
		cong(fieldNum(&h.T).Mul(fieldNum(&h.Z)), fieldNum(&h.X).Mul(fieldNum(&h.Y)), label)
	} else {
		r.ToProjective(&s)
		cong(fieldNum(&s.X).Mul(dx), nx.Mul(fieldNum(&s.Z)), label)
		cong(fieldNum(&s.Y).Mul(dy), ny.Mul(fieldNum(&s.Z)), label)
	}
}

func double(h *edwards25519.ExtendedGroupElement, r *edwards25519.CompletedGroupElement, op int) {
	if op == 0 {
		h.Double(r)
		return
	}
	var s edwards25519.ProjectiveGroupElement
	h.ToProjective(&s)
	s.Double(r)
}

func cacheIs(c *edwards25519.CachedGroupElement, h *edwards25519.ExtendedGroupElement, d sym.Num, label string) {
	e := (*[4]edwards25519.FieldElement)(unsafe.Pointer(c))
	cong(fieldNum(&e[0]), fieldNum(&h.Y).Add(fieldNum(&h.X)), label)
	cong(fieldNum(&e[1]), fieldNum(&h.Y).Sub(fieldNum(&h.X)), label)
	cong(fieldNum(&e[2]), fieldNum(&h.Z), label)
	cong(fieldNum(&e[3]), d.Add(d).Mul(fieldNum(&h.T)), label)
}

// C29Encode: the encoding of a point is its y with the sign of x on top.
//
//gosym:prop=C29 arith=field
//gosym:bound all coordinates
func C29Encode() {
	ext := sym.Choose("ext", 2) == 0
	label := "the encoding of a point is y and the sign of x"
	var p edwards25519.ExtendedGroupElement
	var q edwards25519.ProjectiveGroupElement
	var s [32]byte
	enc := func() {
		if ext {
			p.ToBytes(&s)
		} else {
			p.ToProjective(&q)
			q.ToBytes(&s)
		}
	}
	top := sym.NumI(1).Shl(256)
	if !sym.Symbolic() {
		a := scalarBytes("k")
		edwards25519.GeScalarMultBase(&p, &a)
		enc()
		x, y := sym.BaseMultiple(sym.NumBytes(a[:]))
		sym.Cong(sym.NumBytes(s[:]), y.Add(sym.NumI(int64(x.V.Bit(0))).Shl(255)), top, label)
		return
	}
	X, Y, Z := sym.FieldAtom("x"), sym.FieldAtom("y"), sym.FieldAtom("z")
	setField(&p.X, X)
	setField(&p.Y, Y)
	setField(&p.Z, Z)
	setField(&p.T, X)
	enc()
	var zi, x, y edwards25519.FieldElement
	setField(&zi, Z)
	edwards25519.FeInvert(&zi, &zi)
	setField(&x, X.Mul(fieldNum(&zi)))
	setField(&y, Y.Mul(fieldNum(&zi)))
	var e [32]byte
	edwards25519.FeToBytes(&e, &y)
	neg := sym.NumI(int64(edwards25519.FeIsNegative(&x)))
	sym.Cong(sym.NumBytes(s[:]), sym.NumBytes(e[:]).Add(neg.Shl(255)), top, label)
}

// C29Table: the entry selected from the table for position i and digit b is
// b * 256^i times the base point.
//
//gosym:prop=C29 arith=limb shard=pos:32:32
//gosym:bound all 32 positions and all digits from -8 to 8
func C29Table() {
	pos := sym.Choose("pos", 32)
	b := sym.Choose("digit", 17) - 8
	label := "the table holds the multiples of the base point"
	if !sym.Symbolic() {
		// a scalar with that digit at that position
		var a [32]byte
		if b >= 0 {
			a[pos] = byte(b)
		} else {
			a[pos] = byte(16 + b)
		}
		onBase(&a, label)
		a[pos] <<= 4
		a[31] &= 127
		onBase(&a, label)
		return
	}
	var t edwards25519.PreComputedGroupElement
	e := (*[3]edwards25519.FieldElement)(unsafe.Pointer(&t))
	sym.Call("selectPoint", &t, int32(pos), int32(b))
	x, y := sym.BaseMultiple(sym.NumI(int64(b)).Shl(uint(8 * pos)))
	d := sym.NumDec(curveD)
	cong(number(&e[0]), y.Add(x), label)
	cong(number(&e[1]), y.Sub(x), label)
	cong(number(&e[2]), d.Add(d).Mul(x).Mul(y), label)
	for i := range e {
		bounded(&e[i], 11, "the digits of the table entries are small")
	}
}

// C29Base: multiplying the base point by a scalar adds up the table entries
// for the digits of the scalar.
//
//gosym:prop=C29 arith=group
//gosym:bound all scalars below 2^255
func C29Base() {
	a := scalarBytes("k")
	label := "GeScalarMultBase gives the multiple of the base point"
	if !sym.Symbolic() {
		onBase(&a, label)
		return
	}
	var h edwards25519.ExtendedGroupElement
	edwards25519.GeScalarMultBase(&h, &a)
	sym.Cong(sym.PointLog((*[40]int32)(unsafe.Pointer(&h))), sym.NumBytes(a[:]), sym.NumDec(orderL), label)
}
