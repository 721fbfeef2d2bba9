prop='C19'
needs='a ciphertext whose padding is wrong in its first byte only'
breaks='the first byte of the padding is not checked, so ciphertexts with malformed padding are accepted'
edits=[('cipher/cipher.go','''	for i := 0; i < n; i++ {
		if b[len(b)-n+i] != c {''','''	for i := 1; i < n; i++ {
		if b[len(b)-n+i] != c {''')]
main='''
package main

import (
	"crypto/aes"
	stdcipher "crypto/cipher"

	"github.com/prospik/libsignal-protocol-go/cipher"
)

func main() {
	key, iv := make([]byte, 32), make([]byte, 16)
	for n := 1; n <= 16; n++ {
		for bad := 0; bad <= n; bad++ {
			p := make([]byte, 16)
			for i := 16 - n; i < 16; i++ {
				p[i] = byte(n)
			}
			if bad < n-1 {
				p[16-n+bad] ^= 0x55
			}
			b, _ := aes.NewCipher(key)
			c := make([]byte, 16)
			stdcipher.NewCBCEncrypter(b, iv).CryptBlocks(c, p)
			t, err := cipher.Decrypt(iv, key, c)
			if bad < n-1 {
				check(err != nil, "padding %x accepted", p)
			} else {
				check(err == nil && len(t) == 16-n, "padding %x: %d bytes, %v", p, len(t), err)
			}
		}
	}
}
'''
