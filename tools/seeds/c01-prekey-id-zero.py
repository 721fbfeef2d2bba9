prop='C01'
needs='a bundle whose one-time prekey has id 0'
breaks='prekey id 0 is taken for "no prekey" when the set-up message is sent although the prekey went into the secret, so the session cannot be opened'
edits=[('state/record/state_session.go','''	s.pendingPreKey = NewPendingPreKey(
		preKeyID,
''','''	if preKeyID != nil && preKeyID.Value == 0 {
		preKeyID = optional.NewEmptyUint32()
	}
	s.pendingPreKey = NewPendingPreKey(
		preKeyID,
''')]
main='''
package main

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 0)
	check(a.to(b) == nil, "bundle rejected")
	b.want(a, a.send(b, "hello"), "hello")
	a.want(b, b.send(a, "hi"), "hi")
}
'''
