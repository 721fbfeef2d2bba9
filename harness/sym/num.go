package sym

import (
	"math/big"
)

// Num is an integer, of any size.
type Num struct{ V *big.Int }

// Limb is an input between lo and hi.
func Limb(name string, lo, hi int64) int64 {
	nm := fresh(name)
	if v, ok := inputs[nm]; ok {
		return int64(v)
	}
	v := value(nm)
	switch v % 8 {
	case 0:
		return lo
	case 1:
		return hi
	}
	return lo + int64(v>>3%uint64(hi-lo+1))
}

func NumI(x int64) Num { return Num{big.NewInt(x)} }

// NumBytes is the integer with these bytes, lowest first.
func NumBytes(b []byte) Num {
	r := make([]byte, len(b))
	for i, x := range b {
		r[len(b)-1-i] = x
	}
	return Num{new(big.Int).SetBytes(r)}
}

func NumDec(s string) Num {
	v, _ := new(big.Int).SetString(s, 10)
	return Num{v}
}

func (a Num) Add(b Num) Num  { return Num{new(big.Int).Add(a.V, b.V)} }
func (a Num) Sub(b Num) Num  { return Num{new(big.Int).Sub(a.V, b.V)} }
func (a Num) Mul(b Num) Num  { return Num{new(big.Int).Mul(a.V, b.V)} }
func (a Num) Shl(k uint) Num { return Num{new(big.Int).Lsh(a.V, k)} }

// Cong asserts that a and b are the same modulo m.
func Cong(a, b, m Num, label string) {
	d := new(big.Int).Sub(a.V, b.V)
	Assert(d.Mod(d, m.V).Sign() == 0, label)
}

// Within asserts lo <= a <= hi.
func Within(a, lo, hi Num, label string) {
	Assert(a.V.Cmp(lo.V) >= 0 && a.V.Cmp(hi.V) <= 0, label)
}

// ---- the signature group ----

var (
	fieldP, _  = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	one        = big.NewInt(1)
	edD        = mod(new(big.Int).Mul(big.NewInt(-121665), new(big.Int).ModInverse(big.NewInt(121666), fieldP)))
	edBX, edBY = base()
)

func mod(x *big.Int) *big.Int { return x.Mod(x, fieldP) }

func base() (*big.Int, *big.Int) {
	y := mod(new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), fieldP)))
	y2 := mod(new(big.Int).Mul(y, y))
	d := mod(new(big.Int).Add(one, new(big.Int).Mul(edD, y2)))
	x := mod(new(big.Int).Mul(new(big.Int).Sub(y2, one), d.ModInverse(d, fieldP)))
	x.ModSqrt(x, fieldP)
	if x.Bit(0) == 1 {
		x.Sub(fieldP, x)
	}
	return x, y
}

func edAdd(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	m := func(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
	t := m(edD, m(m(x1, x2), m(y1, y2)))
	xd := mod(new(big.Int).Add(one, t))
	yd := mod(new(big.Int).Sub(one, t))
	return m(new(big.Int).Add(m(x1, y2), m(y1, x2)), xd.ModInverse(xd, fieldP)),
		m(new(big.Int).Add(m(y1, y2), m(x1, x2)), yd.ModInverse(yd, fieldP))
}

// BaseMultiple is k times the base point.
func BaseMultiple(k Num) (Num, Num) {
	x, y := big.NewInt(0), big.NewInt(1)
	bx, by := edBX, edBY
	n := new(big.Int).Abs(k.V)
	for i := 0; i < n.BitLen(); i++ {
		if n.Bit(i) == 1 {
			x, y = edAdd(x, y, bx, by)
		}
		bx, by = edAdd(bx, by, bx, by)
	}
	if k.V.Sign() < 0 {
		x = mod(new(big.Int).Neg(x))
	}
	return Num{x}, Num{y}
}

// FieldAtom is any field element.
func FieldAtom(name string) Num {
	return Num{mod(NumBytes(Bytes(name, 32)).V)}
}

// SetField sets the digits of a field element.
func SetField(f *[10]int32, n Num) {
	v := mod(new(big.Int).Set(n.V))
	for i := range f {
		k := uint(26 - i%2)
		d := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(one, k), one)).Int64()
		if d >= 1<<(k-1) && i < 9 {
			d -= 1 << k
		}
		f[i] = int32(d)
		v.Sub(v, big.NewInt(d)).Rsh(v, k)
	}
	if f[9] >= 1<<24 {
		// 2^255 = 19
		f[9] -= 1 << 25
		f[0] += 19
	}
}

// FieldNum is the value of a field element.
func FieldNum(f *[10]int32) Num {
	r := new(big.Int)
	for i, d := range f {
		r.Add(r, new(big.Int).Lsh(big.NewInt(int64(d)), uint(25*i+(i+1)/2)))
	}
	return Num{mod(r)}
}

// PointLog (encoder only) is the multiple of the base point a point is.
func PointLog(p *[40]int32) Num { panic("encoder only") }

// Call (encoder only) calls a function of the group package by its name.
func Call(name string, args ...interface{}) { panic("encoder only") }
