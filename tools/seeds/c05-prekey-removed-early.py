prop='C05'
needs='a forged first message that names a one-time prekey and fails its MAC, before the genuine one arrives'
breaks='the one-time prekey is deleted before the first message was verified, so a forged message makes the genuine first message undecryptable'
edits=[('session/cipher.go','''	plaintext, keys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage.WhisperMessage())
	if err != nil {
		return nil, nil, err
	}
	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
''','''	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	plaintext, keys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage.WhisperMessage())
	if err != nil {
		return nil, nil, err
	}
	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
''')]
main='''
package main

func main() {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	check(a.to(b) == nil, "bundle rejected")
	m := a.send(b, "hello")
	// flip a bit in every position; whatever is rejected must do no harm
	for i := range m.b {
		f := append([]byte{}, m.b...)
		f[i] ^= 2
		old := b.st.pre[42]
		_, err := b.recv(a, wire{f, m.t})
		if err != nil {
			check(b.st.pre[42] == old, "prekey removed by a rejected message (byte %d)", i)
		} else {
			b.st.pre[42] = old
			delete(b.st.sess, a.addr.String())
		}
	}
	b.want(a, m, "hello")
}
'''
