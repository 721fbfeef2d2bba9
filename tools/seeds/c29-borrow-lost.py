prop='C29'
needs='a 512-bit number whose reduction carries through four full 21-bit digits in the last pass, such as a multiple of the group order minus a few'
breaks='the last carry pass of ScReduce drops the carry out of the tenth digit: about one number in 2^84 is reduced wrongly'
edits=[('ecc/edwards25519/edwards25519.go','''	carry[8] = s8 >> 21
	s9 += carry[8]
	s8 -= carry[8] << 21
	carry[9] = s9 >> 21
	s10 += carry[9]
	s9 -= carry[9] << 21
	carry[10] = s10 >> 21
	s11 += carry[10]
	s10 -= carry[10] << 21

	out[0]''','''	carry[8] = s8 >> 21
	s9 += carry[8]
	s8 -= carry[8] << 21
	s9 &= 1<<21 - 1
	carry[10] = s10 >> 21
	s11 += carry[10]
	s10 -= carry[10] << 21

	out[0]''')]
main='''
package main

import (
	"math/big"

	"github.com/prospik/libsignal-protocol-go/ecc/edwards25519"
)

func main() {
	l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	for q := int64(0); q < 40; q++ {
		for d := int64(-40); d <= 40; d++ {
			v := new(big.Int).Mul(l, big.NewInt(q))
			v.Add(v, big.NewInt(d))
			if v.Sign() < 0 {
				continue
			}
			var in [64]byte
			for i, b := range v.Bytes() {
				in[len(v.Bytes())-1-i] = b
			}
			var out [32]byte
			edwards25519.ScReduce(&out, &in)
			got := new(big.Int)
			for i := 31; i >= 0; i-- {
				got.Or(got.Lsh(got, 8), big.NewInt(int64(out[i])))
			}
			check(got.Cmp(v.Mod(v, l)) == 0, "%d*l%+d reduces to %v", q, d, got)
		}
	}
}
'''
