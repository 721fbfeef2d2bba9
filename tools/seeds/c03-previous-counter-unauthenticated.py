prop='C03'
needs='an attacker who changes the previous counter of a message'
breaks='the MAC is computed and checked without the previous counter, consistently on both sides, so a changed previous counter goes unnoticed'
edits=[('protocol/signal_message.go','''		Counter:         counter,
		PreviousCounter: previousCounter,
		RatchetKey:      senderRatchetKey.Serialize(),
		CipherText:      ciphertext,
	}
''','''		Counter:    counter,
		RatchetKey: senderRatchetKey.Serialize(),
		CipherText: ciphertext,
	}
'''),('protocol/signal_message.go','''	structure.Mac = mac
	structure.Version = messageVersion
''','''	structure.Mac = mac
	structure.PreviousCounter = previousCounter
	structure.Version = messageVersion
'''),('protocol/signal_message.go','''	signalMessage.structure.Mac = nil
	signalMessage.structure.Version = 0
''','''	signalMessage.structure.Mac = nil
	signalMessage.structure.PreviousCounter = 0
	signalMessage.structure.Version = 0
''')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/protocol"

func main() {
	a, b := pair()
	for i := 0; i < 3; i++ {
		b.want(a, a.send(b, "x"), "x")
	}
	a.want(b, b.send(a, "y"), "y")
	m := a.send(b, "z")
	s, err := b.ser.SignalMessage.Deserialize(m.b)
	check(err == nil, "parse: %v", err)
	s.PreviousCounter++
	f, err := protocol.NewSignalMessageFromStruct(s, b.ser.SignalMessage)
	check(err == nil, "build: %v", err)
	_, err = b.recv(a, wire{f.Serialize(), m.t})
	check(err != nil, "altered previous counter accepted")
	b.want(a, m, "z")
}
'''
