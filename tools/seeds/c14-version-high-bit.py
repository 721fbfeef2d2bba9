prop='C14'
needs='a message whose version byte has the top bit set'
breaks='the version is read from three bits only, so messages of version 11 are accepted as version 3'
edits=[('serialize/proto.go','''	return int((value & 0xFF) >> 4)''','''	return int((value & 0x7F) >> 4)''')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/protocol"

func main() {
	a, b := pair()
	for v := 0; v < 16; v++ {
		m := a.send(b, "x")
		m.b[0] = byte(v<<4 | 3)
		_, err := protocol.NewSignalMessageFromBytes(m.b, b.ser.SignalMessage)
		check((err == nil) == (v == 2 || v == 3), "version %d: %v", v, err)
	}
}
'''
