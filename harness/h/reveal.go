package h

import (
	"encoding/base64"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// ---- C33: secrets stay inside ----

// talk collects what the library tells: errors, warnings and error messages.
type talk struct{ said []string }

func (t *talk) Debug(caller, message string)   {}
func (t *talk) Info(caller, message string)    {}
func (t *talk) Warning(caller, message string) { t.said = append(t.said, message) }
func (t *talk) Error(caller, message string)   { t.said = append(t.said, message) }
func (t *talk) Configure(settings string)      {}

func (t *talk) err(err error) bool {
	if err != nil {
		t.said = append(t.said, err.Error())
	}
	return err != nil
}

// listen makes t the library's log while f runs.
func (t *talk) listen(f func()) {
	old := logger.Logger
	var log logger.Loggable = t
	logger.Setup(&log)
	f()
	if old != nil {
		logger.Setup(&old)
	}
}

func (t *talk) hidden(secrets [][]byte) {
	for _, s := range t.said {
		sym.Hidden(s, "an error or the log reveals a secret", secrets...)
	}
}

// bad is a public key of a type that does not exist.
func bad(k []byte) []byte {
	k = clone(k)
	k[0] = 7
	return k
}

func private(k *ecc.ECKeyPair) []byte {
	p := k.PrivateKey().Serialize()
	return p[:]
}

// own is the user's private keys.
func (u *user) own() (out [][]byte) {
	id := u.st.id.PrivateKey().Serialize()
	out = append(out, id[:])
	for _, k := range u.st.pre {
		if k != nil {
			out = append(out, private(k.KeyPair()))
		}
	}
	for _, k := range u.st.signed {
		if k != nil {
			out = append(out, private(k.KeyPair()))
		}
	}
	return out
}

// shared is the secrets of u's session with v: root and chain keys, private
// ratchet keys, message keys kept and those of the next positions of a chain.
func shared(u, v *user) (out [][]byte) {
	ch := func(c *record.ChainStructure) {
		if c == nil || c.ChainKey == nil {
			return
		}
		out = append(out, c.SenderRatchetKeyPrivate)
		for _, k := range c.MessageKeys {
			out = append(out, k.CipherKey, k.MacKey, k.IV)
		}
		k := chain.NewKeyFromStruct(c.ChainKey, kdf.DeriveSecrets)
		for i := 0; i < 3; i++ {
			m := k.MessageKeys()
			out = append(out, k.Key(), m.CipherKey(), m.MacKey(), m.Iv())
			k = k.NextKey()
		}
	}
	if !u.st.ContainsSession(v.addr) {
		return nil
	}
	r := structure(u, v)
	for _, s := range append([]*record.StateStructure{r.SessionState}, r.PreviousStates...) {
		if s == nil {
			continue
		}
		if len(s.RootKey) > 0 {
			out = append(out, s.RootKey)
		}
		ch(s.SenderChain)
		for _, c := range s.ReceiverChains {
			ch(c)
		}
	}
	return out
}

// C33Sessions: no message, error or warning of a session shows a secret.
//
//gosym:prop=C33 tier=both shard=op:17:17 shard=mode:2 reach=ok
//gosym:bound first messages, replies, messages in order, in new chains and skipped ones of 20 bytes; damaged MAC, ciphertext, ratchet key, counter (any changes), truncated and repeated messages, genuine ones with any 32 bytes as padded text, missing prekeys, untrusted identities, unsigned bundles, damaged stored sessions, no session; all keys
func C33Sessions() {
	op, mode := sym.Choose("op", 17), sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	t := &talk{}
	pt := sym.Bytes("pt", 20)
	secrets := [][]byte{pt}
	note := func() {
		for _, u := range []*user{c.a, c.b} {
			secrets = append(secrets, u.own()...)
		}
		secrets = append(append(secrets, shared(c.a, c.b)...), shared(c.b, c.a)...)
	}
	var wires []wire
	snd := func(k *session.Cipher, p []byte) wire {
		w := send(k, p)
		wires = append(wires, w)
		return w
	}
	failed := true
	t.listen(func() {
		note()
		first := snd(c.ca, pt)
		note()
		if op > 1 && op < 7 || op > 9 {
			_, err := c.b.recv(c.cb, first)
			sym.Assert(!t.err(err), "accepted")
			note()
			_, err = c.a.recv(c.ca, snd(c.cb, pt))
			sym.Assert(!t.err(err), "accepted")
			note()
		}
		alter := func(f func(*protocol.SignalMessageStructure)) {
			st := parsed(c.b, snd(c.ca, pt))
			note()
			f(st)
			m, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
			if !t.err(err) {
				_, err = c.cb.Decrypt(m)
			}
			failed = t.err(err)
		}
		d := sym.AttackerBytes("d", 33)
		switch op {
		case 0: // in order, and the other way
			for i := 0; i < 2; i++ {
				_, err := c.b.recv(c.cb, snd(c.ca, pt))
				t.err(err)
				note()
				_, err = c.a.recv(c.ca, snd(c.cb, pt))
				t.err(err)
				note()
			}
			failed = false
		case 1: // skipped, and repeated
			_, err := c.b.recv(c.cb, snd(c.ca, pt))
			t.err(err)
			note()
			_, err = c.b.recv(c.cb, first)
			t.err(err)
			note()
			_, err = c.b.recv(c.cb, first)
			failed = t.err(err)
		case 2:
			alter(func(s *protocol.SignalMessageStructure) { s.Mac = xor(s.Mac, d[:8]) })
			failed = true
		case 3:
			alter(func(s *protocol.SignalMessageStructure) { s.RatchetKey = xor(s.RatchetKey, d) })
			failed = true
		case 4:
			alter(func(s *protocol.SignalMessageStructure) { s.CipherText = xor(s.CipherText, d[:len(s.CipherText)]) })
			failed = true
		case 5:
			alter(func(s *protocol.SignalMessageStructure) {
				n := sym.AttackerUint32("n")
				sym.Assume(n < 3 || n > 6000)
				s.Counter = n
			})
			failed = true
		case 6: // shorter
			w := snd(c.ca, pt)
			note()
			w.b = w.b[:len(w.b)-1-sym.Choose("cut", 12)]
			_, err := c.b.recv(c.cb, w)
			failed = t.err(err)
		case 7:
			delete(c.b.st.pre, 42)
			_, err := c.b.recv(c.cb, first)
			failed = t.err(err)
		case 8:
			delete(c.b.st.signed, 32)
			_, err := c.b.recv(c.cb, first)
			failed = t.err(err)
		case 9:
			c.b.st.trustNone = true
			_, err := c.b.recv(c.cb, first)
			failed = t.err(err)
		case 10: // a bundle with a wrong signature, of an untrusted user, without keys
			c.b.addPre(43)
			k := c.b.bundle(true)
			switch sym.Choose("bundle", 3) {
			case 0:
				c.b.spk = record.NewSignedPreKey(33, 1, c.b.pk.KeyPair(), c.b.spk.Signature(), c.b.ser.SignedPreKeyRecord)
				k = c.b.bundle(true)
			case 1:
				c.a.st.trustNone = true
			case 2:
				k = c.b.bundle(false)
			}
			note()
			t.err(c.a.builder(c.b).ProcessBundle(k))
			note()
		case 11: // damaged records
			s := structure(c.b, c.a)
			x := s.SessionState
			switch sym.Choose("part", 6) {
			case 0:
				x.RootKey = x.RootKey[:20]
			case 1:
				x.SenderBaseKey = x.SenderBaseKey[:20]
			case 2:
				x.SenderChain.ChainKey.Key = x.SenderChain.ChainKey.Key[:20]
			case 3:
				x.SenderChain.SenderRatchetKeyPrivate = x.SenderChain.SenderRatchetKeyPrivate[:20]
			case 4:
				x.SenderChain.SenderRatchetKeyPublic = bad(x.SenderChain.SenderRatchetKeyPublic)
			case 5:
				x.ReceiverChains[0].ChainKey.Key = nil
			}
			_, err := record.NewSessionFromBytes(c.b.ser.Session.Serialize(s), c.b.ser.Session, c.b.ser.State)
			t.err(err)
		case 12: // damaged prekeys
			k := &record.PreKeyStructure{ID: 1, PublicKey: c.b.pk.KeyPair().PublicKey().Serialize(), PrivateKey: private(c.b.pk.KeyPair())}
			switch sym.Choose("part", 3) {
			case 0:
				k.PrivateKey = k.PrivateKey[:20]
			case 1:
				k.PublicKey = k.PublicKey[:20]
			case 2:
				k.PublicKey = bad(k.PublicKey)
			}
			_, err := record.NewPreKeyFromBytes(c.b.ser.PreKeyRecord.Serialize(k), c.b.ser.PreKeyRecord)
			t.err(err)
			g := c.b.spk.Signature()
			_, err = record.NewSignedPreKeyFromBytes(c.b.ser.SignedPreKeyRecord.Serialize(&record.SignedPreKeyStructure{ID: 1, PublicKey: k.PublicKey, PrivateKey: k.PrivateKey, Signature: g[:]}), c.b.ser.SignedPreKeyRecord)
			t.err(err)
		case 13: // no session
			c.b.st.DeleteSession(c.a.addr)
			_, err := c.b.recv(c.cb, snd(c.ca, pt))
			failed = t.err(err)
		case 14: // what was decrypted already, in a session and as a first message
			_, err := c.b.recv(c.cb, first)
			failed = t.err(err)
		case 16: // a text that is not padded
			s := c.a.st.LoadSession(c.b.addr).SessionState()
			ck := s.SenderChainKey()
			k, data := ck.MessageKeys(), sym.Bytes("data", 32)
			secrets = append(secrets, data)
			m, err := protocol.NewSignalMessage(3, ck.Index(), s.PreviousCounter(), k.MacKey(), s.SenderRatchetKey(), rawBody(k.CipherKey(), k.Iv(), data),
				c.a.st.id.PublicKey(), c.b.st.id.PublicKey(), c.a.ser.SignalMessage)
			sym.Assert(err == nil, "message made")
			_, err = c.b.recv(c.cb, wire{m.Serialize(), protocol.WHISPER_TYPE})
			failed = t.err(err)
			if !failed {
				sym.Reach("ok")
				return
			}
		case 15: // many sessions, the right one archived
			w := snd(c.ca, pt)
			note()
			sym.Assert(!t.err(c.b.builder(c.a).ProcessBundle(c.a.bundle(true))), "bundle accepted")
			note()
			_, err := c.b.recv(c.cb, w)
			t.err(err)
			note()
			_, err = c.b.recv(c.cb, w)
			failed = t.err(err)
		}
	})
	if op != 1 || mode == 1 {
		note()
	}
	sym.Assert(failed || op == 0 || op == 16, "an error")
	t.hidden(secrets)
	for _, w := range wires {
		sym.Hidden(string(w.b), "a message reveals a secret", secrets...)
	}
	sym.Reach("ok")
}

// C33Groups: no message, error or warning of a group shows a secret.
//
//gosym:prop=C33 tier=both shard=op:8:8 shard=mode:2 reach=ok
//gosym:bound messages of 20 bytes; damaged signature, ciphertext, iteration (any changes), truncated, repeated and unknown messages, genuine ones with any 32 bytes as padded text, damaged stored keys; all keys
func C33Groups() {
	op, mode := sym.Choose("op", 8), sym.Choose("mode", 2)
	g := newGroup(mode, 0)
	t := &talk{}
	pt := sym.Bytes("pt", 20)
	secrets := [][]byte{pt}
	var signing [][]byte
	keys := func(s *grecord.SenderKeyStructure) {
		for _, x := range s.SenderKeyStates {
			if len(x.SigningKeyPrivate) > 0 {
				signing = append(signing, x.SigningKeyPrivate)
			}
			for _, k := range x.Keys {
				secrets = append(secrets, k.CipherKey, k.IV, k.Seed)
			}
			k := ratchet.NewSenderChainKeyFromStruct(x.SenderChainKey)
			for i := 0; i < 3; i++ {
				secrets = append(secrets, k.Seed())
				if m, err := k.SenderMessageKey(); err == nil {
					secrets = append(secrets, m.CipherKey(), m.Iv(), m.Seed())
				}
				k = k.Next()
			}
		}
	}
	note := func(us ...*user) {
		for _, u := range us {
			s, err := u.ser.SenderKeyRecord.Deserialize(u.st.LoadSenderKey(g.name).Serialize())
			if err == nil {
				keys(s)
			}
		}
	}
	var wires [][]byte
	var dist []byte
	t.listen(func() {
		dist = g.dist()
		u := gUser("bob", mode)
		u.grp = groups.NewGroupSessionBuilder(u.st, u.ser)
		g.process(u, dist)
		note(g.a, u)
		snd := func() []byte {
			b := gsend(g.a, g.name, pt)
			wires = append(wires, b)
			note(g.a)
			return b
		}
		alter := func(f func(*protocol.SenderKeyMessageStructure)) {
			st, err := u.ser.SenderKeyMessage.Deserialize(clone(snd()))
			if t.err(err) {
				return
			}
			f(st)
			m, err := protocol.NewSenderKeyMessageFromStruct(st, u.ser.SenderKeyMessage)
			if !t.err(err) {
				_, err = u.gcipher(g.name).Decrypt(m)
			}
			t.err(err)
		}
		d := sym.AttackerBytes("d", 64)
		switch op {
		case 0:
			one, two := snd(), snd()
			for _, b := range [][]byte{two, one, one} {
				_, err := grecv(u, g.name, b)
				t.err(err)
				note(u)
			}
		case 1:
			alter(func(s *protocol.SenderKeyMessageStructure) { s.Signature = xor(s.Signature, d) })
		case 2:
			alter(func(s *protocol.SenderKeyMessageStructure) { s.CipherText = xor(s.CipherText, d[:len(s.CipherText)]) })
		case 3:
			alter(func(s *protocol.SenderKeyMessageStructure) {
				s.Iteration = sym.AttackerUint32("n")
				sym.Assume(s.Iteration < 3 || s.Iteration > 3000)
			})
		case 4:
			b := snd()
			_, err := grecv(u, g.name, b[:len(b)-1-sym.Choose("cut", 12)])
			t.err(err)
			_, err = grecv(u, protocol.NewSenderKeyName("other", g.a.addr), b)
			t.err(err)
			_, err = u.gcipher(g.name).Encrypt(pt)
			t.err(err)
		case 5:
			s, err := g.a.ser.SenderKeyRecord.Deserialize(g.a.st.LoadSenderKey(g.name).Serialize())
			sym.Assert(err == nil, "loads")
			if err != nil {
				return
			}
			x := s.SenderKeyStates[0]
			switch sym.Choose("part", 4) {
			case 0:
				x.SigningKeyPrivate = x.SigningKeyPrivate[:20]
			case 1:
				x.SigningKeyPublic = x.SigningKeyPublic[:20]
			case 2:
				x.SenderChainKey.ChainKey = x.SenderChainKey.ChainKey[:20]
			case 3:
				x.SigningKeyPublic = bad(x.SigningKeyPublic)
			}
			_, err = grecord.NewSenderKeyFromBytes(g.a.ser.SenderKeyRecord.Serialize(s), g.a.ser.SenderKeyRecord, g.a.ser.SenderKeyState)
			t.err(err)
		case 7: // a text that is not padded
			a, err := g.a.st.LoadSenderKey(g.name).SenderKeyState()
			sym.Assert(err == nil, "loads")
			mk, err := a.SenderChainKey().SenderMessageKey()
			sym.Assert(err == nil, "message key")
			data := sym.Bytes("data", 32)
			secrets = append(secrets, data)
			at := uint32(sym.Choose("far", 2)) * 3000
			m := protocol.NewSenderKeyMessage(a.KeyID(), at, rawBody(mk.CipherKey(), mk.Iv(), data), a.SigningKey().PrivateKey(), g.a.ser.SenderKeyMessage)
			_, err = grecv(u, g.name, m.SignedSerialize())
			t.err(err)
		case 6: // an older sender key
			b := snd()
			g.process(u, g.dist())
			_, err := grecv(u, g.name, b)
			t.err(err)
		}
		note(g.a, u)
	})
	secrets = append(secrets, signing...)
	t.hidden(secrets)
	for _, b := range wires {
		sym.Hidden(string(b), "a message reveals a secret", secrets...)
	}
	sym.Hidden(string(dist), "a distribution message reveals the signing key", signing...)
	sym.Reach("ok")
}

// C33Parts: nor do the ciphers and provisioning.
//
//gosym:prop=C33 tier=both shard=op:4:4 reach=ok
//gosym:bound keys and texts of 31 to 33 bytes; altered, short and foreign ciphertexts and envelopes
func C33Parts() {
	op := sym.Choose("op", 4)
	t := &talk{}
	key, text := sym.Bytes("key", []int{31, 32, 33}[sym.Choose("keylen", 3)]), sym.Bytes("text", 31+sym.Choose("textlen", 3))
	iv := sym.Bytes("iv", []int{0, 15, 16}[sym.Choose("ivlen", 3)])
	d := sym.AttackerBytes("d", 96)
	secrets := [][]byte{key, text}
	t.listen(func() {
		switch op {
		case 0:
			ct, err := cipher.EncryptCbc(iv, key, clone(text))
			if !t.err(err) {
				ct = xor(ct, d[:len(ct)])
				_, err = cipher.DecryptCbc(iv, key, ct[:len(ct)-sym.Choose("cut", 2)])
				t.err(err)
			}
		case 1:
			_, err := cipher.DecryptCbc(iv, key, clone(text))
			t.err(err)
		case 2:
			_, err := cipher.Encrypt(iv, key, clone(text))
			t.err(err)
			_, err = cipher.Decrypt(iv, key, clone(text))
			t.err(err)
		case 3:
			var pub, priv [32]byte
			copy(pub[:], d[1:])
			copy(priv[:], key)
			sh := kdf.CalculateSharedSecret(pub, priv)
			ks, err := kdf.DeriveSecrets(sh[:], nil, []byte("Mixin Provisioning Message"), 64)
			sym.Assert(err == nil, "derived")
			secrets = append(secrets, sh[:], ks)
			_, err = provision.Decrypt(base64.StdEncoding.EncodeToString(key), envelope(d[:33], d[33:33+sym.Choose("body", 60)]))
			t.err(err)
		}
	})
	t.hidden(secrets)
	sym.Reach("ok")
}
