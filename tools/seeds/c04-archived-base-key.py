prop='C04'
needs='a first message without a one-time prekey, three sessions so that its session is the oldest archived one, then the same message again'
breaks='HasSessionState no longer looks at the oldest archived session, so a replayed first message of that session sets the session up again and decrypts a second time'
edits=[('state/record/session.go','for i := range r.previousStates {\n\t\tif r.previousStates[i].Version()','for i := 0; i < len(r.previousStates)-1; i++ {\n\t\tif r.previousStates[i].Version()')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	var first wire
	for i := 0; i < 4; i++ {
		bundle := prekey.NewBundle(b.st.reg, 1, optional.NewEmptyUint32(), b.spk.ID(), nil,
			b.spk.KeyPair().PublicKey(), b.spk.Signature(), b.st.id.PublicKey())
		check(session.NewBuilderFromSignal(a.st, b.addr, a.ser).ProcessBundle(bundle) == nil, "bundle rejected")
		m := a.send(b, "pay 10")
		if i == 0 {
			first = m
		}
		b.want(a, m, "pay 10")
		got, err := b.recv(a, first)
		check(err != nil, "first message decrypted again after %d more sessions: %q", i, got)
	}
}
'''
