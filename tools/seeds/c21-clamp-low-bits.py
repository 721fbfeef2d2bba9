prop='C21'
needs='a private key with bit two of its first byte set'
breaks='a key pair made from a given private key keeps bit two of the scalar, so it is no valid Curve25519 scalar and its signatures do not verify'
edits=[('ecc/curve.go', '\tcopy(private[:], privateKey)\n\n\tprivate[0] &= 248', '\tcopy(private[:], privateKey)\n\n\tprivate[0] &= 252')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/ecc"

func main() {
	for i := 0; i < 256; i++ {
		p := make([]byte, 32)
		p[0], p[7], p[31] = byte(i), 9, byte(255-i)
		pair := ecc.CreateKeyPair(p)
		s := pair.PrivateKey().Serialize()
		check(s[0]&7 == 0 && s[31]>>6 == 1, "scalar %x", s)
		sig := ecc.CalculateSignature(pair.PrivateKey(), p)
		check(ecc.VerifySignature(pair.PublicKey(), p, sig), "signature of key %d", i)
	}
}
'''
