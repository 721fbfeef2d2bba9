prop='C16'
needs='another member forges a message for a position the receiver has skipped'
breaks='messages for skipped positions are decrypted without checking the signature, so any member can forge them'
edits=[('groups/cipher.go','''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if !verified {''','''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if !verified && !senderKeyState.HasSenderMessageKey(senderKeyMessage.Iteration()) {''')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	name := protocol.NewSenderKeyName("g", a.addr)
	ga, gb := groups.NewGroupSessionBuilder(a.st, a.ser), groups.NewGroupSessionBuilder(b.st, b.ser)
	d, err := ga.Create(name)
	check(err == nil, "create: %v", err)
	d, err = protocol.NewSenderKeyDistributionMessageFromBytes(d.Serialize(), b.ser.SenderKeyDistributionMessage)
	check(err == nil, "distribution: %v", err)
	gb.Process(name, d)
	ca, cb := groups.NewGroupCipher(ga, name, a.st), groups.NewGroupCipher(gb, name, b.st)
	var ms []*protocol.SenderKeyMessage
	for i := 0; i < 3; i++ {
		m, err := ca.Encrypt([]byte("genuine"))
		check(err == nil, "encrypt: %v", err)
		ms = append(ms, m.(*protocol.SenderKeyMessage))
	}
	_, err = cb.Decrypt(ms[2])
	check(err == nil, "decrypt: %v", err)
	other, _ := ecc.GenerateKeyPair()
	f := protocol.NewSenderKeyMessage(ms[1].KeyID(), 1, ms[1].Ciphertext(), other.PrivateKey(), a.ser.SenderKeyMessage)
	_, err = cb.Decrypt(f)
	check(err != nil, "message with a foreign signature accepted")
	_, err = cb.Decrypt(ms[1])
	check(err == nil, "genuine message: %v", err)
}
'''
