prop='C28'
needs='a second key generation runs while the first is between reading its random bytes and using them'
breaks='two identity key pairs generated at the same time are the same key'
edits=[('ecc/curve.go','''	// Create a byte array for our public and private keys.
	var private, public [32]byte

	// Generate some random data
	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
''','''	// Create a byte array for our public key.
	var public [32]byte

	// Generate some random data
	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
'''),('ecc/curve.go','''// GenerateKeyPair returns an EC Key Pair.
''','''// private is what a key is made from; kept in one place so that it does not
// stay behind in memory more often than needed.
var private [32]byte

// GenerateKeyPair returns an EC Key Pair.
''')]
main='''
package main

import (
	"crypto/rand"
	"io"
	"sync"
	"time"

	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/RadicalApp/complete"
)

// slow holds the first reader back, after its bytes were delivered, until the
// second has ended.
type slow struct {
	io.Reader
	m     sync.Mutex
	calls int
	first chan bool
	hold  chan bool
}

func (s *slow) Read(b []byte) (int, error) {
	s.m.Lock()
	s.calls++
	c := s.calls
	s.m.Unlock()
	n, err := s.Reader.Read(b)
	if c == 1 {
		close(s.first)
		<-s.hold
	}
	return n, err
}

func main() {
	under := rand.Reader
	s := &slow{Reader: under, first: make(chan bool), hold: make(chan bool)}
	rand.Reader = s
	a, b := make(chan *identity.KeyPair, 2), make(chan *identity.KeyPair, 2)
	start := func(to chan *identity.KeyPair) {
		keyhelper.GenerateIdentityKeyPairAsync(complete.NewCompletion(func(r *complete.Result) {
			to <- r.Data.(*identity.KeyPair)
		}, func(string) { to <- nil }))
	}
	start(a)
	<-s.first
	start(b)
	var q *identity.KeyPair
	select {
	case q = <-b:
	case <-time.After(20 * time.Second):
	}
	close(s.hold)
	p := <-a
	if q == nil {
		q = <-b
	}
	check(p != nil && q != nil, "no key pair")
	check(p.PrivateKey().Serialize() != q.PrivateKey().Serialize(), "two generated keys are the same")
}
'''
