prop='C12'
needs='a signal or sender key message shorter than its MAC or signature'
breaks='the length check no longer covers a negative middle part, so short messages crash the parser'
edits=[('util/bytehelper/byte.go','''firstLength < 0 || secondLength < 0 || thirdLength < 0 ||
		len(input) <''','''firstLength < 0 || thirdLength < 0 ||
		len(input) <''')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/protocol"

func main() {
	a := newUser("alice", 31, 41)
	for n := 0; n < 80; n++ {
		b := make([]byte, n)
		if n > 0 {
			b[0] = 0x33
		}
		protocol.NewSignalMessageFromBytes(b, a.ser.SignalMessage)
		protocol.NewSenderKeyMessageFromBytes(b, a.ser.SenderKeyMessage)
	}
}
'''
