prop='C33'
needs='a message whose MAC is wrong and an application that keeps the error log'
breaks='the message keys (cipher key, MAC key, IV) of the rejected position are written to the error log, from where the genuine message can be decrypted or forged'
edits=[('session/cipher.go','''		logger.Error("Unable to verify ciphertext mac: ", err)''','''		logger.Error("Unable to verify ciphertext mac: ", err, " with ", messageKeys)''')]
main='''
package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

type ears struct {
	quiet
	said []string
}

func (e *ears) Warning(_, m string) { e.said = append(e.said, m) }
func (e *ears) Error(_, m string)   { e.said = append(e.said, m) }

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	check(a.to(b) == nil, "bundle")
	t, err := b.recv(a, a.send(b, "one"))
	check(err == nil && t == "one", "first message: %v", err)
	t, err = a.recv(b, b.send(a, "two"))
	check(err == nil && t == "two", "reply: %v", err)
	m := a.send(b, "three")

	// The keys of that message, from a copy of what bob knows.
	p, err := protocol.NewSignalMessageFromBytes(m.b, b.ser.SignalMessage)
	check(err == nil, "parse: %v", err)
	s := b.st.LoadSession(a.addr).SessionState()
	var theirs ecc.ECPublicKeyable = p.SenderRatchetKey()
	root, err := s.RootKey().CreateChain(theirs, s.SenderRatchetKeyPair())
	check(err == nil, "chain: %v", err)
	keys := root.ChainKey.MessageKeys()

	e := &ears{}
	var l logger.Loggable = e
	logger.Setup(&l)
	f := wire{append([]byte{}, m.b...), m.t}
	f.b[len(f.b)-1] ^= 1
	_, err = b.recv(a, f)
	check(err != nil, "a message with a wrong MAC was accepted")
	e.said = append(e.said, err.Error())
	for _, said := range e.said {
		for _, k := range [][]byte{keys.CipherKey(), keys.MacKey(), keys.Iv()} {
			list := strings.Trim(fmt.Sprint(k), "[]")
			for _, form := range []string{string(k), list, hex.EncodeToString(k), base64.StdEncoding.EncodeToString(k)} {
				check(!strings.Contains(said, form), "the log reveals a key: %s", said)
			}
		}
	}
	t, err = b.recv(a, m)
	check(err == nil && t == "three", "genuine message: %v", err)
}
'''
