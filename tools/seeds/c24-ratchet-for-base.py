prop='C24'
needs='users whose ratchet key differs from their base key'
breaks='the receiver of a symmetric exchange uses its ratchet key in place of its base key, so the users derive different keys'
edits=[('ratchet/ratchet.go','ourSignedPreKey:    parameters.OurBaseKey','ourSignedPreKey:    parameters.OurRatchetKey')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/ratchet"
)

func main() {
	ia, ib := newUser("alice", 31, 41).st.id, newUser("bob", 32, 42).st.id
	base := func() *ecc.ECKeyPair { k, _ := ecc.GenerateKeyPair(); return k }
	run := func(us *identity.KeyPair, our, their *ecc.ECKeyPair, ratchetKey *ecc.ECKeyPair, theirRatchet *ecc.ECKeyPair, them *identity.Key) *session.KeyPair {
		k, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{
			OurBaseKey: our, OurRatchetKey: ratchetKey, OurIdentityKeyPair: us,
			TheirBaseKey: their.PublicKey(), TheirRatchetKey: theirRatchet.PublicKey(), TheirIdentityKey: them,
		})
		check(err == nil, "exchange: %v", err)
		return k
	}
	agree := func(a, b *ecc.ECKeyPair) {
		ra, rb := base(), base()
		x, y := run(ia, a, b, ra, rb, ib.PublicKey()), run(ib, b, a, rb, ra, ia.PublicKey())
		check(string(x.RootKey.Bytes()) == string(y.RootKey.Bytes()), "root keys differ")
		check(string(x.ChainKey.Key()) == string(y.ChainKey.Key()), "chain keys differ")
	}
	seen := map[byte]*ecc.ECKeyPair{}
	for i := 0; i < 400; i++ {
		k := base()
		f := k.PublicKey().Serialize()[1]
		if seen[f] != nil {
			agree(seen[f], k)
		}
		seen[f] = k
	}
}
'''
