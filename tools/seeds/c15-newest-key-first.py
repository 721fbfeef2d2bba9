prop='C15'
needs='a sender distributing its key again while a message sent before is still on its way'
breaks='the newest state with a key id is used instead of the oldest, so messages sent before a repeated distribution message no longer decrypt'
edits=[('groups/state/record/sender_key.go', '\tfor i := 0; i < len(k.senderKeyStates); i++ {\n\t\tif k.senderKeyStates[i].KeyID() == keyID {', '\tfor i := len(k.senderKeyStates) - 1; i >= 0; i-- {\n\t\tif k.senderKeyStates[i].KeyID() == keyID {')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	name := protocol.NewSenderKeyName("g", a.addr)
	ab, bb := groups.NewGroupSessionBuilder(a.st, a.ser), groups.NewGroupSessionBuilder(b.st, b.ser)
	ac, bc := groups.NewGroupCipher(ab, name, a.st), groups.NewGroupCipher(bb, name, b.st)
	give := func() {
		d, err := ab.Create(name)
		check(err == nil, "create: %v", err)
		d, err = protocol.NewSenderKeyDistributionMessageFromBytes(d.Serialize(), b.ser.SenderKeyDistributionMessage)
		check(err == nil, "distribution message: %v", err)
		bb.Process(name, d)
	}
	say := func(s string) []byte {
		m, err := ac.Encrypt([]byte(s))
		check(err == nil, "encrypt: %v", err)
		return m.(*protocol.SenderKeyMessage).SignedSerialize()
	}
	hear := func(m []byte, s string) {
		p, err := protocol.NewSenderKeyMessageFromBytes(m, b.ser.SenderKeyMessage)
		check(err == nil, "message: %v", err)
		t, err := bc.Decrypt(p)
		check(err == nil && string(t) == s, "%q: %q %v", s, t, err)
	}
	give()
	hear(say("one"), "one")
	late := say("late")
	give()
	hear(say("two"), "two")
	hear(late, "late")
}
'''
