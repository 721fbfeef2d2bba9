prop='C08'
needs='a bundle with an invalid signature for a peer with whom a session already exists'
breaks='the signature of the signed prekey is checked for the first session with a peer only'
edits=[('session/session.go','if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {','if !b.sessionStore.ContainsSession(b.remoteAddress) && !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func main() {
	for _, established := range []bool{false, true} {
		a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
		if established {
			a, b = pair()
		}
		evil, _ := ecc.GenerateKeyPair()
		bundle := prekey.NewBundle(b.st.reg, 1, optional.NewEmptyUint32(), 7, nil,
			evil.PublicKey(), b.spk.Signature(), b.st.id.PublicKey())
		before := string(a.st.sess[b.addr.String()])
		err := session.NewBuilderFromSignal(a.st, b.addr, a.ser).ProcessBundle(bundle)
		check(err != nil, "bundle with a foreign signed prekey accepted (established %v)", established)
		check(before == string(a.st.sess[b.addr.String()]), "session changed")
	}
}
'''
