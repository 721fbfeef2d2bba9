prop='C06'
needs='more than 2000 messages of one chain skipped, then one of the most recent of them delivered'
breaks='when the list of skipped message keys is full the newest key is dropped instead of the oldest, so a message that arrived just out of order is lost'
edits=[('state/record/state_chain.go','''	removed := c.messageKeys[0]
	c.messageKeys = c.messageKeys[1:]
''','''	last := len(c.messageKeys) - 1
	removed := c.messageKeys[last]
	c.messageKeys = c.messageKeys[:last]
''')]
main='''
package main

func main() {
	a, b := pair()
	var ms []wire
	for i := 0; i < 2010; i++ {
		ms = append(ms, a.send(b, "m"))
	}
	b.want(a, ms[2009], "m")
	b.want(a, ms[2008], "m")
	b.want(a, ms[9], "m")
	_, err := b.recv(a, ms[8])
	check(err != nil, "more than 2000 keys kept")
}
'''
