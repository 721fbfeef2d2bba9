prop='C36'
needs='a session archived before the peer has answered its first message'
breaks='archiving drops a session whose first message has not been acknowledged, so the answer to it is lost'
edits=[('state/record/session.go', '\tr.PromoteState(NewState(r.sessionState.serializer))', '\tfresh := NewState(r.sessionState.serializer)\n\tif r.sessionState.HasUnacknowledgedPreKeyMessage() {\n\t\tr.sessionState = fresh\n\t\treturn\n\t}\n\tr.PromoteState(fresh)')]
main='''
package main

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	check(a.to(b) == nil, "bundle rejected")
	first := a.send(b, "hello")
	r := a.st.LoadSession(b.addr)
	r.ArchiveCurrentState()
	a.st.StoreSession(b.addr, r)
	b.want(a, first, "hello")
	a.want(b, b.send(a, "hi"), "hi")
	b.want(a, a.send(b, "again"), "again")
}
'''
