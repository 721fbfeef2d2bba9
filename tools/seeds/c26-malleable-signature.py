prop='C26'
needs='a signature altered in bits five or six of its last byte'
breaks='the verifier clears the three top bits of the signature, two of which are not the sign bit, so altered signatures verify'
edits=[('ecc/sign_curve25519.go', 'signature[63] &= 0x7F', 'signature[63] &= 0x1F')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/ecc"

func main() {
	pair, _ := ecc.GenerateKeyPair()
	msg := []byte("message")
	sig := ecc.CalculateSignature(pair.PrivateKey(), msg)
	check(ecc.VerifySignature(pair.PublicKey(), msg, sig), "signature does not verify")
	for i := 0; i < 512; i++ {
		s := sig
		s[i/8] ^= 1 << uint(i%8)
		check(!ecc.VerifySignature(pair.PublicKey(), msg, s), "signature altered in bit %d verifies", i)
	}
}
'''
