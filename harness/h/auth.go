package h

import (
	"bytes"
	"crypto/aes"
	gocipher "crypto/cipher"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func xor(a, d []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ d[i]
	}
	return r
}

func zero(d []byte) bool { return sym.EqBytes(d, make([]byte, len(d))) }

// tamperSignal alters every field of a serialised SignalMessage by symbolic
// deltas; clean tells that nothing was altered.  (The version of an embedded
// message is left alone: its wire form, a character, has spare bits.)
func tamperSignal(ser *serialize.Serializer, b []byte, ver bool) (m *protocol.SignalMessage, st *protocol.SignalMessageStructure, clean bool, err error) {
	st, err = ser.SignalMessage.Deserialize(append([]byte{}, b...))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return nil, nil, false, err
	}
	dk := sym.AttackerBytes("dkey", len(st.RatchetKey))
	dm := sym.AttackerBytes("dmac", len(st.Mac))
	dc := sym.AttackerUint32("dcounter")
	dp := sym.AttackerUint32("dprev")
	dv := 0
	if ver {
		dv = sym.Choose("dver", 2)
	}
	shape := sym.Choose("shape", 3)
	clean = sym.And(zero(dk), zero(dm), dc == 0, dp == 0, dv == 0, shape == 0)
	db := sym.AttackerBytes("dbody", len(st.CipherText))
	body := xor(st.CipherText, db)
	clean = sym.And(clean, zero(db))
	switch shape {
	case 1:
		body = append(body, sym.AttackerBytes("extra", 16)...)
	case 2:
		sym.Assume(len(body) >= 16)
		body = body[:len(body)-16]
	}
	st.RatchetKey = xor(st.RatchetKey, dk)
	st.Mac = xor(st.Mac, dm)
	st.Counter += dc
	sym.Assume(sym.Or(st.Counter < 8, st.Counter > 6000))
	st.PreviousCounter ^= dp
	st.CipherText = body
	if dv == 1 {
		st.Version = 2
	}
	m, err = protocol.NewSignalMessageFromStruct(st, ser.SignalMessage)
	return m, st, clean, err
}

// sent tells whether the altered message is another message the sender made,
// and its text the one decrypted.
func sent(c *conv, st *protocol.SignalMessageStructure, got []byte) bool {
	r := false
	for _, o := range c.other {
		b := o.w.b
		if o.w.t == protocol.PREKEY_TYPE {
			p, err := c.b.ser.PreKeySignalMessage.Deserialize(append([]byte{}, b...))
			if err != nil {
				continue
			}
			b = p.Message
		}
		s, err := c.b.ser.SignalMessage.Deserialize(append([]byte{}, b...))
		if err != nil || len(s.CipherText) != len(st.CipherText) {
			continue
		}
		r = sym.Or(r, sym.And(sym.EqBytes(s.RatchetKey, st.RatchetKey), s.Counter == st.Counter, s.PreviousCounter == st.PreviousCounter,
			s.Version == st.Version, sym.EqBytes(s.CipherText, st.CipherText), sym.EqBytes(s.Mac, st.Mac), sym.EqBytes(got, o.pt)))
	}
	return r
}

// situation prepares a conversation and a genuine message to bob; sit 0: in
// the current chain, 1: in a new chain, 2: an older skipped message, 3: after
// a skipped one, 4: from an archived session.
func situation(sit, mode int) (*conv, wire, []byte) {
	ser := serializerN(1 - mode)
	c := newConv(ser, mode == 1, true)
	c.established()
	pt := sym.Bytes("pt", 20)
	switch sit {
	case 0:
		p := []byte("x")
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		return c, send(c.ca, pt), pt
	case 2:
		w := send(c.ca, pt)
		p := []byte("y")
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		return c, w, pt
	case 3:
		c.other = append(c.other, past{send(c.ca, []byte("lost")), []byte("lost")})
		return c, send(c.ca, pt), pt
	case 4:
		w := send(c.ca, pt)
		sym.Assert(c.b.builder(c.a).ProcessBundle(c.a.bundle(true)) == nil, "new bundle accepted")
		return c, w, pt
	}
	return c, send(c.ca, pt), pt
}

// C03Tamper: a message altered in any authenticated field is rejected.
//gosym:prop=C03 tier=both shard=sit:5 shard=shape:3 reach=rejected,accepted
//gosym:bound 20-byte messages in five situations, every change of ratchet key, counter (to below 8 or above 6000), previous counter, version, ciphertext (also one block longer or shorter) and MAC; live store with protobuf for even, serialising store with JSON for odd situations
func C03Tamper() {
	sit := sym.Choose("sit", 5)
	mode := sit & 1
	if sit == 4 {
		mode = 1
	}
	c, w, pt := situation(sit, mode)
	sym.Honest()
	m, st, clean, err := tamperSignal(c.b.ser, w.b, true)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	got, err := c.cb.Decrypt(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.Or(sym.And(clean, sym.EqBytes(got, pt)), sent(c, st, got)), "altered message rejected")
	sym.Reach("accepted")
}

// tamperPreKey alters a serialised PreKeySignalMessage.
func tamperPreKey(ser *serialize.Serializer, b []byte, inner bool) (m *protocol.PreKeySignalMessage, clean bool, err error) {
	st, err := ser.PreKeySignalMessage.Deserialize(append([]byte{}, b...))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return nil, false, err
	}
	clean = true
	if inner {
		sm, _, cl, err := tamperSignal(ser, st.Message, false)
		if err != nil {
			return nil, cl, err
		}
		clean = cl
		st.Message = sm.Serialize()
	} else {
		db := sym.AttackerBytes("dbase", 33)
		di := sym.AttackerBytes("didentity", 33)
		ds := sym.AttackerUint32("dspk")
		do := sym.AttackerUint32("dpk")
		// X25519 ignores the top bit of a point; the base key is bound only
		// through the agreed secret, so that bit is not authenticated
		sym.Assume(db[32]&0x80 == 0)
		st.BaseKey = xor(st.BaseKey, db)
		st.IdentityKey = xor(st.IdentityKey, di)
		st.SignedPreKeyID += ds
		drop := 0
		if st.PreKeyID != nil && !st.PreKeyID.IsEmpty {
			drop = sym.Choose("drop", 2)
			if drop == 1 {
				st.PreKeyID = nil
			} else {
				st.PreKeyID = optional.NewOptionalUint32(st.PreKeyID.Value + do)
			}
		} else {
			sym.Assume(do == 0)
		}
		clean = sym.And(zero(db), zero(di), ds == 0, do == 0, drop == 0)
	}
	m, err = protocol.NewPreKeySignalMessageFromStruct(st, ser.PreKeySignalMessage, ser.SignalMessage)
	return m, clean, err
}

// C03TamperPreKey: the same for the first message of a session.
//gosym:prop=C03 tier=both shard=inner:2 shard=pre:2 reach=rejected,accepted
//gosym:bound first messages with and without one-time prekey; every change of base key, identity key, signed and one-time prekey ids (a second pair of prekeys exists), or of the embedded message; the registration id is not authenticated by the protocol
func C03TamperPreKey() {
	pre := sym.Choose("pre", 2) == 1
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, pre)
	spk, pk := c.b.spk, c.b.pk
	c.b.addSigned(33)
	c.b.addPre(43)
	c.b.spk, c.b.pk = spk, pk
	c.b.st.trustAll = true
	pt := sym.Bytes("pt", 20)
	w := send(c.ca, pt)
	sym.Honest()
	m, clean, err := tamperPreKey(c.b.ser, w.b, sym.Choose("inner", 2) == 1)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	got, err := c.cb.DecryptMessage(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(clean, "altered message rejected")
	sym.Assert(sym.EqBytes(got, pt), "plaintext is what was sent")
	sym.Reach("accepted")
}

// C03Reflect: a message is not accepted by its own sender, or by a third party.
//gosym:prop=C03 tier=both shard=mode:2 reach=ok
//gosym:bound three users, established sessions
func C03Reflect() {
	mode := sym.Choose("mode", 2)
	c, w, _ := situation(0, mode)
	w2 := send(c.cb, []byte("answer"))
	_, err := c.a.recv(c.ca, w)
	sym.Assert(err != nil, "own message rejected")
	_, err = c.b.recv(c.cb, w2)
	sym.Assert(err != nil, "own reply rejected")
	d := &conv{a: c.a, b: newUser("carol", c.a.ser, mode == 1, 1003, 34, 44)}
	sym.Assert(d.a.builder(d.b).ProcessBundle(d.b.bundle(true)) == nil, "bundle accepted")
	d.ca, d.cb = d.a.cipher(d.b), d.b.cipher(d.a)
	d.established()
	_, err = d.b.recv(d.cb, w)
	sym.Assert(err != nil, "message to someone else rejected")
	p := []byte("still")
	deliver(d.b, d.cb, send(d.ca, p), p, "afterwards")
	deliver(c.b, c.cb, send(c.ca, p), p, "afterwards")
	sym.Reach("ok")
}

// C03Mac: the whole MAC is needed.
//gosym:prop=C03 tier=both shard=mode:2 shard=len:20:10 reach=rejected
//gosym:bound MACs that are prefixes of the genuine one or longer than it, 0..19 bytes (quick: 0..9), any further bytes; in a plain and in a first message
func C03Mac() {
	mode := sym.Choose("mode", 2)
	n := sym.Choose("len", 20)
	sym.Assume(n != 8)
	c := newConv(serializerN(mode), mode == 0, true)
	pre := sym.Choose("first", 2) == 1
	if !pre {
		c.established()
	}
	pt := sym.Bytes("pt", 20)
	w := send(c.ca, pt)
	var pm *protocol.PreKeySignalMessageStructure
	b := w.b
	if pre {
		var err error
		pm, err = c.b.ser.PreKeySignalMessage.Deserialize(clone(w.b))
		sym.Assert(err == nil, "parses")
		b = pm.Message
	}
	st, err := c.b.ser.SignalMessage.Deserialize(clone(b))
	sym.Assert(err == nil, "parses")
	sym.Honest()
	mac := make([]byte, n)
	for i := range mac {
		if i < len(st.Mac) {
			mac[i] = st.Mac[i]
		}
	}
	if n > 8 {
		copy(mac[8:], sym.AttackerBytes("more", n-8))
	}
	st.Mac = mac
	m, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
	if err == nil {
		if pre {
			pm.Message = m.Serialize()
			var x *protocol.PreKeySignalMessage
			x, err = protocol.NewPreKeySignalMessageFromStruct(pm, c.b.ser.PreKeySignalMessage, c.b.ser.SignalMessage)
			if err == nil {
				_, err = c.cb.DecryptMessage(x)
			}
		} else {
			_, err = c.cb.Decrypt(m)
		}
	}
	sym.Assert(err != nil, "a MAC of another length is rejected")
	deliver(c.b, c.cb, w, pt, "the genuine message")
	sym.Reach("rejected")
}

// C03Fields: what the MAC of a message covers.
//gosym:prop=C03 tier=both shard=mode:2 shard=n:3:2 shard=who:4 reach=ok
//gosym:bound a message of 16 or 32 (thorough: 48) bytes at any chain position, every other counter, previous counter, ratchet key, ciphertext of the same length, version 2 or 3, both identities in either place, under the same MAC
func C03Fields() {
	mode := sym.Choose("mode", 2)
	ser := serializerN(1 - mode)
	a, b := newUser("alice", ser, false, 1001, 31, 41).st.id.PublicKey(), newUser("bob", ser, false, 1002, 32, 42).st.id.PublicKey()
	kp, err := ecc.GenerateKeyPair()
	sym.Assert(err == nil, "key pair")
	n := 16 * (1 + sym.Choose("n", 3))
	ctr, prev, body, key := uint32(7), uint32(9), sym.Bytes("body", n), sym.Bytes("key", 32)
	if mode == 0 {
		ctr, prev = sym.Uint32("ctr"), sym.Uint32("prev")
	} else {
		ctr, prev = []uint32{0, 127, 1<<32 - 1}[sym.Choose("ctr", 3)], []uint32{0, 128, 1 << 31}[sym.Choose("prev", 3)]
	}
	m, err := protocol.NewSignalMessage(3, ctr, prev, key, kp.PublicKey(), body, a, b, ser.SignalMessage)
	sym.Assert(err == nil, "message made")
	w := m.Serialize()
	sym.Honest()
	st, err := ser.SignalMessage.Deserialize(clone(w))
	sym.Assert(err == nil, "parses")
	dc, dp, db, dk := sym.AttackerUint32("dcounter"), sym.AttackerUint32("dprev"), sym.AttackerBytes("dbody", n), sym.AttackerBytes("dkey", 32)
	dv, who := sym.Choose("dver", 2), sym.Choose("who", 4)
	st.Counter ^= dc
	st.PreviousCounter ^= dp
	st.CipherText = xor(st.CipherText, db)
	copy(st.RatchetKey[1:], xor(st.RatchetKey[1:], dk))
	if dv == 1 {
		st.Version = 2
	}
	x, err := protocol.NewSignalMessageFromStruct(st, ser.SignalMessage)
	if err == nil {
		ids := []*identity.Key{a, b, a, a, b, b, b, a}
		err = x.VerifyMac(3, ids[2*who], ids[2*who+1], key)
		sym.Assert((err == nil) == sym.And(zero(db), zero(dk), dc == 0, dp == 0, dv == 0, who == 0), "the MAC covers every field")
	}
	sym.Reach("ok")
}

// snapshot is the persistent form of the session u keeps with peer.
func snapshot(u, peer *user) []byte {
	if !u.st.ContainsSession(peer.addr) {
		return nil
	}
	return append([]byte{}, u.st.LoadSession(peer.addr).Serialize()...)
}

// C05Rejected: a rejected message changes nothing.
//gosym:prop=C05 tier=both shard=sit:5 shard=mode:2 reach=rejected secs=250
//gosym:bound as C03 (five situations, both stores, all alterations of one message); then the genuine message and one more message each way
func C05Rejected() {
	sit := sym.Choose("sit", 5)
	mode := sym.Choose("mode", 2)
	sym.Assume(sit < 4 || mode == 1)
	c, w, pt := situation(sit, mode)
	before := snapshot(c.b, c.a)
	n, sv := c.b.st.stores, c.b.st.saves
	sym.Honest()
	m, _, _, err := tamperSignal(c.b.ser, w.b, true)
	if err != nil {
		return
	}
	_, err = c.cb.Decrypt(m)
	sym.Assume(err != nil)
	sym.Assert(c.b.st.stores == n && c.b.st.saves == sv, "nothing stored after a rejected message")
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged after a rejected message")
	deliver(c.b, c.cb, w, pt, "genuine message after a rejected one")
	p := []byte("more")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply after a rejected message")
	deliver(c.b, c.cb, send(c.ca, p), p, "next after a rejected message")
	sym.Reach("rejected")
}

// C05RejectedPreKey
//gosym:prop=C05 tier=both shard=inner:2 shard=mode:2 shard=est:2 reach=rejected secs=250
//gosym:bound all alterations of a first message, without or with an existing session
func C05RejectedPreKey() {
	mode := sym.Choose("mode", 2)
	est := sym.Choose("est", 2) == 1
	c := newConv(serializerN(1-mode), mode == 1, true)
	if est {
		c.established()
		c.b.addPre(43)
		if mode == 1 {
			// a new session by the same peer
			sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
		} else {
			c.a.st.DeleteSession(c.b.addr)
			sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
		}
	}
	c.b.st.trustAll = true
	pt := sym.Bytes("pt", 20)
	w := send(c.ca, pt)
	before := snapshot(c.b, c.a)
	n := c.b.st.stores
	sym.Honest()
	m, _, err := tamperPreKey(c.b.ser, w.b, sym.Choose("inner", 2) == 1)
	if err != nil {
		return
	}
	_, err = c.cb.DecryptMessage(m)
	sym.Assume(err != nil)
	sym.Assert(c.b.st.stores == n, "nothing stored after a rejected first message")
	sym.Assert(len(c.b.st.removed) == 0 || est, "no prekey removed after a rejected first message")
	sym.Assert(c.b.st.ContainsPreKey(c.b.pk.ID().Value), "the prekey is still there")
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged after a rejected first message")
	deliver(c.b, c.cb, w, pt, "genuine first message after a rejected one")
	p := []byte("more")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply after a rejected message")
	sym.Reach("rejected")
}

// C05Forged: a forged first message naming the peer's identity does not
// disturb the session with that peer.
//gosym:prop=C05 tier=both shard=mode:2 reach=ok
//gosym:bound any forged base key, ratchet key, body of 16 bytes and MAC
func C05Forged() {
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	sym.Honest()
	ek := sym.AttackerBytes("base", 32)
	rk := sym.AttackerBytes("ratchet", 32)
	var e, r [32]byte
	copy(e[:], ek)
	copy(r[:], rk)
	st := &protocol.SignalMessageStructure{
		RatchetKey: ecc.NewDjbECPublicKey(r).Serialize(), Counter: 0, PreviousCounter: 0,
		CipherText: sym.AttackerBytes("body", 16), Version: 3, Mac: sym.AttackerBytes("mac", 8),
	}
	sm, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
	sym.Assume(err == nil)
	pm, err := protocol.NewPreKeySignalMessage(3, 5, nil, c.b.spk.ID(), ecc.NewDjbECPublicKey(e), c.a.st.id.PublicKey(), sm, c.b.ser.PreKeySignalMessage, c.b.ser.SignalMessage)
	sym.Assume(err == nil)
	before := snapshot(c.b, c.a)
	_, err = c.cb.DecryptMessage(pm)
	sym.Assert(err != nil, "forged first message rejected")
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged after a forged first message")
	p := []byte("more")
	deliver(c.b, c.cb, send(c.ca, p), p, "next after a forged message")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply after a forged message")
	sym.Reach("ok")
}

// C05Untrusted: first messages under an untrusted identity have no effect.
//gosym:prop=C05 tier=both shard=mode:2 shard=est:3 reach=ok
//gosym:bound a first message of another user delivered in the peer's name, without a session, with an established one, and in one that is not acknowledged yet; the peer's own message with every other identity key
func C05Untrusted() { untrusted(sym.Choose("mode", 2), sym.Choose("est", 3)) }

// C08Untrusted: nor do they start or touch a session.
//gosym:prop=C08 tier=both shard=mode:2 shard=est:3 reach=ok
//gosym:bound as C05Untrusted
func C08Untrusted() { untrusted(sym.Choose("mode", 2), sym.Choose("est", 3)) }

func untrusted(mode, est int) {
	ser := serializerN(1 - mode)
	c := newConv(ser, mode == 1, true)
	p := []byte("first")
	w := send(c.ca, p)
	if est > 0 {
		deliver(c.b, c.cb, w, p, "setup")
		c.b.addPre(43)
	} else {
		// the peer's identity is known from elsewhere
		c.b.st.SaveIdentity(c.a.addr, c.a.st.id.PublicKey())
	}
	if est == 1 {
		deliver(c.a, c.ca, send(c.cb, p), p, "setup")
	}
	x := newUser("mallory", ser, mode == 1, 1003, 33, 44)
	sym.Assert(x.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
	fw := send(x.cipher(c.b), p)
	before := snapshot(c.b, c.a)
	n, sv, np := c.b.st.stores, c.b.st.saves, len(c.b.st.pre)
	same := func(label string) {
		sym.Assert(c.b.st.stores == n && c.b.st.saves == sv && len(c.b.st.pre) == np, label+": nothing stored or removed")
		sym.Assert(sym.EqBytes(c.b.st.trusted[akey(c.a.addr)].Serialize(), c.a.st.id.PublicKey().Serialize()), label+": identity kept")
		sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), label+": session unchanged")
	}
	_, err := c.b.recv(c.cb, fw)
	sym.Assert(err != nil, "first message of somebody else rejected")
	same("first message of somebody else")
	if est != 1 {
		y := w
		if est == 2 {
			y = send(c.ca, p)
		}
		st, err := c.b.ser.PreKeySignalMessage.Deserialize(clone(y.b))
		sym.Assert(err == nil, "parses")
		sym.Honest()
		d := sym.AttackerBytes("did", 32)
		sym.Assume(!zero(d))
		copy(st.IdentityKey[1:], xor(st.IdentityKey[1:], d))
		m, err := protocol.NewPreKeySignalMessageFromStruct(st, c.b.ser.PreKeySignalMessage, c.b.ser.SignalMessage)
		if err == nil {
			_, err = c.cb.DecryptMessage(m)
		}
		sym.Assert(err != nil, "other identity key rejected")
		same("other identity key")
		deliver(c.b, c.cb, y, p, "genuine message")
	}
	deliver(c.b, c.cb, send(c.ca, p), p, "next message")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	sym.Reach("ok")
}

// rawBody encrypts data, which is free and carries any padding, as is; data
// that is not whole blocks is the body itself.  unread is the text in it and
// whether its padding is well formed.
func rawBody(key, iv, data []byte) []byte {
	if len(data) == 0 || len(data)%16 != 0 {
		return clone(data)
	}
	ct := make([]byte, len(data))
	b, err := aes.NewCipher(key)
	sym.Assert(err == nil, "key")
	gocipher.NewCBCEncrypter(b, iv).CryptBlocks(ct, data)
	return ct
}

func unread(data []byte) ([]byte, bool) {
	if len(data)%16 != 0 {
		return nil, false
	}
	for i := 1; i <= 16 && i <= len(data); i++ {
		if sym.EqBytes(data[len(data)-i:], bytes.Repeat([]byte{byte(i)}, i)) {
			return data[:len(data)-i], true
		}
	}
	return nil, false
}

// C05Bodies: messages of the peer that carry a valid MAC are accepted exactly
// if they decrypt, and change nothing otherwise.
//gosym:prop=C05 tier=both shard=at:5 shard=mode:2 shard=len:6:4 reach=rejected,accepted
//gosym:bound a valid MAC over any body of 0, 15, 17, 16 (thorough: 1, 32) bytes, with any padding, at the next position, two ahead, at a skipped one, at the first of a new chain, or in a first message
func C05Bodies() {
	at, mode := sym.Choose("at", 5), sym.Choose("mode", 2)
	n := []int{0, 15, 17, 16, 1, 32}[sym.Choose("len", 6)]
	ser := serializerN(1 - mode)
	c := newConv(ser, mode == 1, true)
	var w wire
	pt := []byte("genuine")
	if at < 3 {
		c.established()
	}
	if at == 3 {
		p := []byte("hello")
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		deliver(c.a, c.ca, send(c.cb, p), p, "setup")
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		deliver(c.a, c.ca, send(c.cb, p), p, "setup")
	}
	s := c.a.st.LoadSession(c.b.addr).SessionState()
	ck, ek, prev := s.SenderChainKey(), s.SenderRatchetKey(), s.PreviousCounter()
	p := []byte("other")
	switch at {
	case 1:
		send(c.ca, p)
		send(c.ca, p)
		ck = ck.NextKey().NextKey()
	case 2:
		w = send(c.ca, pt)
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	}
	if at != 2 {
		w = send(c.ca, pt)
	}
	before := snapshot(c.b, c.a)
	stores, saves := c.b.st.stores, c.b.st.saves
	k := ck.MessageKeys()
	data := sym.Bytes("data", n)
	sm, err := protocol.NewSignalMessage(3, ck.Index(), prev, k.MacKey(), ek, rawBody(k.CipherKey(), k.Iv(), data),
		c.a.st.id.PublicKey(), c.b.st.id.PublicKey(), ser.SignalMessage)
	sym.Assert(err == nil, "message made")
	x := wire{sm.Serialize(), protocol.WHISPER_TYPE}
	if w.t == protocol.PREKEY_TYPE {
		st, err := ser.PreKeySignalMessage.Deserialize(clone(w.b))
		sym.Assert(err == nil, "parses")
		st.Message = x.b
		m, err := protocol.NewPreKeySignalMessageFromStruct(st, ser.PreKeySignalMessage, ser.SignalMessage)
		sym.Assume(err == nil)
		x = wire{m.Serialize(), protocol.PREKEY_TYPE}
	}
	want, good := unread(data)
	got, err := c.b.recv(c.cb, x)
	if err == nil {
		sym.Assert(good, "a body that does not decrypt is rejected")
		sym.Assert(good && sym.EqBytes(got, want), "the text of a body")
		_, err = c.b.recv(c.cb, w)
		sym.Assert(err != nil, "a second message in the same place rejected")
		deliver(c.b, c.cb, send(c.ca, p), p, "next")
		sym.Reach("accepted")
		return
	}
	sym.Assert(!good, "a body that decrypts is accepted")
	sym.Assert(c.b.st.stores == stores && (at == 4 || c.b.st.saves == saves), "nothing stored after a message that does not decrypt")
	sym.Assert(len(c.b.st.removed) == 0 || at != 4, "no prekey removed after a message that does not decrypt")
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged after a message that does not decrypt")
	deliver(c.b, c.cb, w, pt, "the genuine message in its place")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply after a message that does not decrypt")
	sym.Reach("rejected")
}

// longs are sizes of long texts.
var longs = []int{47, 100, 300, 1000, 1500}

// C03Long: a long message altered anywhere is rejected.
//
//gosym:prop=C03 tier=both shard=size:5 shard=mode:2 reach=rejected,accepted cost=3 secs=120
//gosym:bound texts of 47, 100, 300, 1000 and 1500 bytes, every change of the ciphertext, also one block more or less
func C03Long() {
	n, mode := longs[sym.Choose("size", 5)], sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	pt := sym.Bytes("pt", n)
	w := send(c.ca, pt)
	sym.Honest()
	st, err := c.b.ser.SignalMessage.Deserialize(clone(w.b))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return
	}
	db := sym.AttackerBytes("dbody", len(st.CipherText))
	clean := zero(db)
	st.CipherText = xor(st.CipherText, db)
	switch sym.Choose("shape", 3) {
	case 1:
		st.CipherText, clean = append(st.CipherText, sym.AttackerBytes("extra", 16)...), false
	case 2:
		st.CipherText, clean = st.CipherText[:len(st.CipherText)-16], false
	}
	m, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	got, err := c.cb.Decrypt(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.And(clean, sym.EqBytes(got, pt)), "altered message rejected")
	sym.Reach("accepted")
}
