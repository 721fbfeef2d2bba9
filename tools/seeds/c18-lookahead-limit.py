prop='C18'
needs='a group message far ahead when the chain is already past position 2000'
breaks='the limit on how far ahead a group message may be is computed so that it never triggers for chains that are past the limit'
edits=[('groups/cipher.go','''	if iteration-senderChainKey.Iteration() > 2000 {''','''	if iteration > 2000 && senderChainKey.Iteration() < 2000 && iteration-senderChainKey.Iteration() > 2000 {''')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

func main() {
	b := newUser("bob", 32, 42)
	name := protocol.NewSenderKeyName("g", protocol.NewSignalAddress("alice", 1))
	sk, _ := ecc.GenerateKeyPair()
	grp := groups.NewGroupSessionBuilder(b.st, b.ser)
	grp.Process(name, protocol.NewSenderKeyDistributionMessage(7, 5000, make([]byte, 32), sk.PublicKey(), b.ser.SenderKeyDistributionMessage))
	before := string(b.st.sk[skey(name)])
	m := protocol.NewSenderKeyMessage(7, 7001, make([]byte, 32), sk.PrivateKey(), b.ser.SenderKeyMessage)
	_, err := groups.NewGroupCipher(grp, name, b.st).Decrypt(m)
	check(err != nil && err.Error() == "Over 2000 messages into the future!", "message 2001 ahead: %v", err)
	check(string(b.st.sk[skey(name)]) == before, "state changed")
}
'''
