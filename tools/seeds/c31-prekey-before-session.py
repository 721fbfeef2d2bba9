prop='C31'
needs='the program stops after the one-time prekey was removed and before the session of the first message is stored; the message is delivered again after the restart'
breaks='the first message of a session, and all that follow in it, can never be read: its one-time prekey is gone and its session was not stored'
edits=[('session/cipher.go','''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
''','''	// The one-time prekey is used up.
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
''')]
main='''
package main

import (
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// stopping ends the program (a panic here) before a given call that writes.
type stopping struct {
	*store
	left int
}

func (s *stopping) write() {
	if s.left == 0 {
		panic("stop")
	}
	s.left--
}

func (s *stopping) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.write()
	s.store.StoreSession(a, r)
}

func (s *stopping) RemovePreKey(id uint32) {
	s.write()
	s.store.RemovePreKey(id)
}

func main() {
	for left := 0; left < 3; left++ {
		a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
		check(a.to(b) == nil, "bundle rejected")
		m := a.send(b, "hello")
		p, err := protocol.NewPreKeySignalMessageFromBytes(m.b, b.ser.PreKeySignalMessage, b.ser.SignalMessage)
		check(err == nil, "parse: %v", err)
		func() {
			defer func() { recover() }()
			st := &stopping{b.st, left}
			session.NewCipher(session.NewBuilderFromSignal(st, a.addr, b.ser), a.addr).DecryptMessage(p)
		}()
		// after the restart
		if b.st.sess[a.addr.String()] == nil {
			b.want(a, m, "hello")
		}
		b.want(a, a.send(b, "next"), "next")
		a.want(b, b.send(a, "reply"), "reply")
	}
}
'''
