prop='C07'
needs='a look at the stored session after the ratchet has turned'
breaks='the private ratchet key used up by a turn stays in the stored session with the receiving chain it created'
edits=[('state/record/state_session.go','''	senderKey := ecc.NewECKeyPair(senderRatchetKey, nil)
''','''	senderKey := ecc.NewECKeyPair(senderRatchetKey, nil)
	if s.senderChain != nil {
		senderKey = ecc.NewECKeyPair(senderRatchetKey, s.senderChain.senderRatchetKeyPair.PrivateKey())
	}
''')]
main='''
package main

import (
	"encoding/base64"
	"strings"
)

func main() {
	a, b := pair()
	for i := 0; i < 3; i++ {
		st := b.st.LoadSession(a.addr).SessionState()
		old := st.SenderRatchetKeyPair().PrivateKey().Serialize()
		b.want(a, a.send(b, "x"), "x")
		a.want(b, b.send(a, "y"), "y")
		b.want(a, a.send(b, "z"), "z")
		check(!strings.Contains(string(b.st.sess[a.addr.String()]), base64.StdEncoding.EncodeToString(old[:])), "old private ratchet key still stored")
	}
}
'''
