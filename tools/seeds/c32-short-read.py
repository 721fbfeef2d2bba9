prop='C32'
needs='a random source that delivers fewer bytes than asked for without an error'
breaks='a private key is made of the few bytes the source delivered and zeros'
edits=[('ecc/curve.go','''	_, err := io.ReadFull(random, private[:])
''','''	_, err := io.ReadAtLeast(random, private[:], 1)
''')]
main='''
package main

import (
	"crypto/rand"
	"io"

	"github.com/prospik/libsignal-protocol-go/ecc"
)

// piecewise delivers at most n bytes at a time.
type piecewise struct {
	io.Reader
	n int
}

func (p piecewise) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return p.Reader.Read(b)
}

func main() {
	r := rand.Reader
	for _, n := range []int{32, 16, 7, 1} {
		rand.Reader = piecewise{r, n}
		k, err := ecc.GenerateKeyPair()
		rand.Reader = r
		check(err == nil, "pieces of %d bytes: %v", n, err)
		p, zero := k.PrivateKey().Serialize(), 0
		for _, b := range p[1:31] {
			if b == 0 {
				zero++
			}
		}
		check(zero < 12, "pieces of %d bytes: %d bytes of the key are zero", n, zero)
	}
}
'''
