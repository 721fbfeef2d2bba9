prop='C09'
needs='a second first message of a session that is already set up, while the store holds a new prekey under the id it names'
breaks='each further first message of an existing session has the prekey id it names removed, so an unused prekey stored under that id is lost'
edits=[('session/session.go','letting bundled message fall through...")\n\t\treturn optional.NewEmptyUint32(), nil','letting bundled message fall through...")\n\t\treturn message.PreKeyID(), nil')]
main='''
package main

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	check(a.to(b) == nil, "bundle rejected")
	m1, m2 := a.send(b, "one"), a.send(b, "two")
	b.want(a, m1, "one")
	b.addPre(42) // ids are reused after a while
	b.want(a, m2, "two")
	check(b.st.pre[42] != nil, "unused prekey removed")
}
'''
