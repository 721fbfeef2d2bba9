prop='C10'
needs='the replies arrive out of order: a reply other than the first is decrypted first'
breaks='only a reply with counter 0 acknowledges the session, so an initiator that decrypted a later reply keeps sending set-up messages'
edits=[('session/cipher.go','''	sessionState.ClearUnackPreKeyMessage()

	return plaintext, messageKeys, nil''','''	if messageKeys.Index() == 0 {
		sessionState.ClearUnackPreKeyMessage()
	}

	return plaintext, messageKeys, nil''')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/protocol"

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	check(a.to(b) == nil, "bundle rejected")
	b.want(a, a.send(b, "hello"), "hello")
	r0, r1 := b.send(a, "r0"), b.send(a, "r1")
	a.want(b, r1, "r1")
	m := a.send(b, "x")
	check(m.t == protocol.WHISPER_TYPE, "set-up message after a reply was decrypted")
	b.want(a, m, "x")
	a.want(b, r0, "r0")
}
'''
