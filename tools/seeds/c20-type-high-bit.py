prop='C20'
needs='an encoded key whose type byte is 0x85'
breaks='the top bit of the key type is ignored, so keys of an unknown type are accepted'
edits=[('ecc/curve.go', 'keyType := bytes[offset] & 0xFF', 'keyType := bytes[offset] & 0x7F')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/ecc"

func main() {
	pair, _ := ecc.GenerateKeyPair()
	for i := 0; i < 256; i++ {
		b := pair.PublicKey().Serialize()
		b[0] = byte(i)
		k, err := ecc.DecodePoint(b, 0)
		check((err == nil) == (i == 5), "key of type %d: %v", i, err)
		if err == nil {
			check(string(k.Serialize()) == string(b), "other key")
		}
	}
}
'''
