prop='C30'
needs='a group message or session message that the application has not yet serialised when it encrypts another'
breaks='message bodies share one growing buffer per process: encrypting for one peer overwrites messages made earlier for others'
edits=[('cipher/cbc.go','''		ciphertext = make([]byte, len(plaintext))

		cbc :=''','''		if used+len(plaintext) > len(arena) {
			arena, used = make([]byte, 256+len(plaintext)), 0
		}
		ciphertext = arena[used : used+len(plaintext)]
		used += len(plaintext) &^ 0x1f

		cbc :='''),('cipher/cbc.go','''func pad(''','''// arena is where ciphertexts are written.
var arena []byte
var used int

func pad(''')]
main='''
package main

import "github.com/prospik/libsignal-protocol-go/protocol"

func main() {
	a, b := pair()
	c := newUser("carol", 33, 43)
	check(a.to(c) == nil, "bundle rejected")
	var ms []protocol.CiphertextMessage
	text := []string{"one", "", "a longer text, more than one block", "x"}
	to := []*user{b, c, b, c}
	for i, u := range to {
		m, err := a.cipher(u).Encrypt([]byte(text[i]))
		check(err == nil, "encrypt: %v", err)
		ms = append(ms, m)
	}
	for i, u := range to {
		u.want(a, wire{ms[i].Serialize(), ms[i].Type()}, text[i])
	}
}
'''
