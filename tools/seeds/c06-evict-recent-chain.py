prop='C06'
needs='more than five turns of the conversation, then a delayed message of the turn before the last'
breaks='when there are too many receiving chains the newest old chain is dropped instead of the oldest, so messages in flight across one turn are lost'
edits=[('state/record/state_session.go','''		i := 0
		s.receiverChains''','''		i := maxReceiverChains - 1
		s.receiverChains''')]
main='''
package main

func main() {
	a, b := pair()
	for i := 0; i < 5; i++ {
		b.want(a, a.send(b, "ping"), "ping")
		a.want(b, b.send(a, "pong"), "pong")
	}
	late := a.send(b, "late")
	b.want(a, a.send(b, "now"), "now")
	a.want(b, b.send(a, "x"), "x")
	b.want(a, a.send(b, "next"), "next")
	a.want(b, b.send(a, "y"), "y")
	b.want(a, a.send(b, "after"), "after")
	b.want(a, late, "late")
}
'''
