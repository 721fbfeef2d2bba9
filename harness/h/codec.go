package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// point is an encoded public key with any contents.
func point(name string) []byte {
	return append([]byte{ecc.DjbType}, sym.Bytes(name, 32)...)
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// signalStructure is a signal message with any contents.
func signalStructure(n int) *protocol.SignalMessageStructure {
	return &protocol.SignalMessageStructure{
		RatchetKey:      point("ratchet"),
		Counter:         sym.Uint32("counter"),
		PreviousCounter: sym.Uint32("previous"),
		CipherText:      sym.Bytes("body", n),
		Version:         2 + sym.Choose("version", 2),
		Mac:             sym.Bytes("mac", protocol.MacLength),
	}
}

func sameSignal(a, b *protocol.SignalMessageStructure) bool {
	return sym.And(sym.EqBytes(a.RatchetKey, b.RatchetKey), a.Counter == b.Counter, a.PreviousCounter == b.PreviousCounter,
		sym.EqBytes(a.CipherText, b.CipherText), a.Version == b.Version, sym.EqBytes(a.Mac, b.Mac))
}

// C11Signal: a signal message decodes to the fields it was made of.
//gosym:prop=C11 tier=both shard=ser:2 shard=len:45:10 reach=ok
//gosym:bound ciphertexts of 0..39 bytes (quick: 0, 1, 16, 32, 33), 90, 127, 128, 300 and 20000 bytes, every value of all other fields, versions 2 and 3
func C11Signal() {
	ser := serializerN(sym.Choose("ser", 2)).SignalMessage
	n := sizes(sym.Choose("len", 45), 0, 1, 16, 32, 33, 90, 127, 128, 300, 20000)
	st := signalStructure(n)
	given := *st
	b := ser.Serialize(st)
	sym.Assert(sameSignal(st, &given), "encoding leaves the message alone")
	sym.Assert(sym.SameBytes(b, ser.Serialize(&given)), "same fields, same encoding")
	in := clone(b)
	got, err := ser.Deserialize(in)
	sym.Assert(err == nil, "decodes")
	if err != nil {
		return
	}
	sym.Assert(sameSignal(got, st), "same fields")
	sym.Assert(sym.SameBytes(in, b), "input untouched")
	m, err := protocol.NewSignalMessageFromBytes(clone(b), ser)
	sym.Assert(err == nil, "accepted")
	if err != nil {
		return
	}
	sym.Assert(sym.EqBytes(m.SenderRatchetKey().Serialize(), st.RatchetKey), "ratchet key")
	sym.Assert(m.Counter() == st.Counter, "counter")
	sym.Assert(sym.EqBytes(m.Body(), st.CipherText), "body")
	sym.Assert(m.MessageVersion() == st.Version, "version")
	sym.Assert(sameSignal(m.Structure(), st), "structure")
	sym.Assert(sym.SameBytes(m.Serialize(), b), "encodes to the same bytes")
	sym.Assert(m.Type() == protocol.WHISPER_TYPE, "type")
	sym.Reach("ok")
}

// C11PreKey: a prekey message decodes to the fields it was made of.
//gosym:prop=C11 tier=both shard=ser:2 shard=pre:3 shard=len:23:5 reach=ok
//gosym:bound embedded ciphertexts of 0..19 bytes (quick: 0, 16), 100, 160 and 1008 bytes with counters below 128, every value of all other fields, one-time prekey id present, empty or missing
func C11PreKey() {
	s := serializerN(sym.Choose("ser", 2))
	pre := sym.Choose("pre", 3)
	n := sizes(sym.Choose("len", 23), 0, 16, 100, 160, 1008)
	inner := signalStructure(n)
	inner.Counter &= 127 // C11Signal covers all counters
	inner.PreviousCounter &= 127
	sm, err := protocol.NewSignalMessageFromStruct(inner, s.SignalMessage)
	sym.Assert(err == nil, "inner accepted")
	if err != nil {
		return
	}
	var id *optional.Uint32
	num := sym.Uint32("prekey")
	switch pre {
	case 1:
		id = optional.NewOptionalUint32(num)
	case 2:
		id = optional.NewEmptyUint32()
	}
	base, _ := ecc.DecodePoint(point("base"), 0)
	idk, _ := ecc.DecodePoint(point("identity"), 0)
	reg, spk := sym.Uint32("registration"), sym.Uint32("signed")
	ver := 2 + sym.Choose("version", 2)
	m, err := protocol.NewPreKeySignalMessage(ver, reg, id, spk, base, identity.NewKey(idk), sm, s.PreKeySignalMessage, s.SignalMessage)
	sym.Assert(err == nil, "made")
	if err != nil {
		return
	}
	b := m.Serialize()
	sym.Assert(sym.SameBytes(b, m.Serialize()), "same fields, same encoding")
	g, err := protocol.NewPreKeySignalMessageFromBytes(clone(b), s.PreKeySignalMessage, s.SignalMessage)
	sym.Assert(err == nil, "decodes")
	if err != nil {
		return
	}
	for _, x := range []*protocol.PreKeySignalMessage{m, g} {
		sym.Assert(x.MessageVersion() == ver, "version")
		sym.Assert(x.RegistrationID() == reg, "registration id")
		sym.Assert(x.SignedPreKeyID() == spk, "signed prekey id")
		has := x.PreKeyID() != nil && !x.PreKeyID().IsEmpty
		sym.Assert(has == (pre == 1), "one-time prekey id present")
		if has {
			sym.Assert(x.PreKeyID().Value == num, "one-time prekey id")
		}
		sym.Assert(sym.EqBytes(x.BaseKey().Serialize(), base.Serialize()), "base key")
		sym.Assert(sym.EqBytes(x.IdentityKey().Serialize(), idk.Serialize()), "identity key")
		sym.Assert(sameSignal(x.WhisperMessage().Structure(), inner), "embedded message")
		sym.Assert(x.Type() == protocol.PREKEY_TYPE, "type")
	}
	sym.Assert(sym.SameBytes(g.Serialize(), b), "encodes to the same bytes")
	sym.Reach("ok")
}

// C11SenderKey: a group message decodes to the fields it was made of.
//gosym:prop=C11 tier=both shard=ser:2 shard=len:45:9 reach=ok
//gosym:bound ciphertexts of 0..39 bytes (quick: 0, 1, 16, 33), 90, 127, 128, 300 and 20000 bytes, every value of all other fields
func C11SenderKey() {
	ser := serializerN(sym.Choose("ser", 2)).SenderKeyMessage
	n := sizes(sym.Choose("len", 45), 0, 1, 16, 33, 90, 127, 128, 300, 20000)
	st := &protocol.SenderKeyMessageStructure{
		ID: sym.Uint32("id"), Iteration: sym.Uint32("iteration"), CipherText: sym.Bytes("body", n),
		Version: uint32(2 + sym.Choose("version", 2)), Signature: sym.Bytes("signature", 64),
	}
	given := *st
	b := ser.Serialize(st)
	sym.Assert(sym.SameBytes(b, ser.Serialize(&given)), "same fields, same encoding")
	m, err := protocol.NewSenderKeyMessageFromBytes(clone(b), ser)
	sym.Assert(err == nil, "decodes")
	if err != nil {
		return
	}
	sym.Assert(m.KeyID() == given.ID, "key id")
	sym.Assert(m.Iteration() == given.Iteration, "iteration")
	sym.Assert(sym.EqBytes(m.Ciphertext(), given.CipherText), "body")
	sym.Assert(m.Version() == given.Version, "version")
	sig := m.Signature()
	sym.Assert(sym.EqBytes(sig[:], given.Signature), "signature")
	sym.Assert(sym.SameBytes(m.SignedSerialize(), b), "encodes to the same bytes")
	given.Signature = nil
	sym.Assert(sym.SameBytes(m.Serialize(), ser.Serialize(&given)), "what is signed is everything else")
	sym.Assert(m.Type() == protocol.SENDERKEY_TYPE, "type")
	sym.Reach("ok")
}

// C11Distribution: a distribution message decodes to the fields it was made of.
//gosym:prop=C11 tier=both shard=ser:2 shard=len:40:3 reach=ok
//gosym:bound chain keys of 0..39 bytes (quick: 0, 32, 33), every value of all fields
func C11Distribution() {
	ser := serializerN(sym.Choose("ser", 2)).SenderKeyDistributionMessage
	n := sizes(sym.Choose("len", 40), 0, 32, 33)
	id, it, ck := sym.Uint32("id"), sym.Uint32("iteration"), sym.Bytes("chain", n)
	key, _ := ecc.DecodePoint(point("signing"), 0)
	m := protocol.NewSenderKeyDistributionMessage(id, it, ck, key, ser)
	b := m.Serialize()
	sym.Assert(sym.SameBytes(b, m.Serialize()), "same fields, same encoding")
	g, err := protocol.NewSenderKeyDistributionMessageFromBytes(clone(b), ser)
	sym.Assert(err == nil, "decodes")
	if err != nil {
		return
	}
	for _, x := range []*protocol.SenderKeyDistributionMessage{m, g} {
		sym.Assert(x.ID() == id, "id")
		sym.Assert(x.Iteration() == it, "iteration")
		sym.Assert(sym.EqBytes(x.ChainKey(), ck), "chain key")
		sym.Assert(sym.EqBytes(x.SignatureKey().Serialize(), key.Serialize()), "signing key")
		sym.Assert(x.Type() == protocol.SENDERKEY_DISTRIBUTION_TYPE, "type")
	}
	st, err := ser.Deserialize(clone(b))
	sym.Assert(err == nil && st.Version == protocol.CurrentVersion, "version")
	sym.Assert(sym.SameBytes(g.Serialize(), b), "encodes to the same bytes")
	sym.Reach("ok")
}

// C14Struct: a message is accepted exactly if its version is supported, and
// reports that version.
//gosym:prop=C14 tier=both shard=kind:4 shard=ser:2 reach=accepted,rejected
//gosym:bound every version number of the field's type in otherwise well-formed messages of all four kinds
func C14Struct() {
	kind := sym.Choose("kind", 4)
	s := serializerN(sym.Choose("ser", 2))
	ver := int(int64(sym.Uint64("version")))
	var err error
	got := -1
	switch kind {
	case 0:
		st := signalStructure(16)
		st.Version = ver
		var m *protocol.SignalMessage
		if m, err = protocol.NewSignalMessageFromStruct(st, s.SignalMessage); err == nil {
			got = m.MessageVersion()
		}
	case 1:
		st := &protocol.PreKeySignalMessageStructure{
			BaseKey: point("base"), IdentityKey: point("identity"), Version: ver,
			Message: s.SignalMessage.Serialize(&protocol.SignalMessageStructure{RatchetKey: point("ratchet"), CipherText: sym.Bytes("body", 16), Version: 3, Mac: sym.Bytes("mac", 8)}),
		}
		var m *protocol.PreKeySignalMessage
		if m, err = protocol.NewPreKeySignalMessageFromStruct(st, s.PreKeySignalMessage, s.SignalMessage); err == nil {
			got = m.MessageVersion()
		}
	case 2:
		st := &protocol.SenderKeyMessageStructure{CipherText: sym.Bytes("body", 16), Version: uint32(ver), Signature: sym.Bytes("signature", 64)}
		ver = int(uint32(ver))
		var m *protocol.SenderKeyMessage
		if m, err = protocol.NewSenderKeyMessageFromStruct(st, s.SenderKeyMessage); err == nil {
			got = int(m.Version())
		}
	case 3:
		st := &protocol.SenderKeyDistributionMessageStructure{ChainKey: sym.Bytes("chain", 32), SigningKey: point("signing"), Version: uint32(ver)}
		ver = int(uint32(ver))
		if _, err = protocol.NewSenderKeyDistributionMessageFromStruct(st, s.SenderKeyDistributionMessage); err == nil {
			got = ver
		}
	}
	sym.Assert((err == nil) == (ver >= 2 && ver <= 3), "accepted exactly if supported")
	if err == nil {
		sym.Assert(got == ver, "reports its version")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C14Wire: likewise for the version on the wire.
//gosym:prop=C14 tier=both shard=kind:4 reach=accepted,rejected
//gosym:bound every version byte of otherwise well-formed protocol buffer messages of all four kinds
func C14Wire() {
	kind := sym.Choose("kind", 4)
	s := serializerN(1)
	v := sym.Byte("version")
	ver := int(v >> 4)
	var err error
	got := -1
	switch kind {
	case 0:
		b := s.SignalMessage.Serialize(signalStructure(16))
		b[0] = v
		var m *protocol.SignalMessage
		if m, err = protocol.NewSignalMessageFromBytes(b, s.SignalMessage); err == nil {
			got = m.MessageVersion()
		}
	case 1:
		b := s.PreKeySignalMessage.Serialize(&protocol.PreKeySignalMessageStructure{
			BaseKey: point("base"), IdentityKey: point("identity"), Version: 3,
			Message: s.SignalMessage.Serialize(&protocol.SignalMessageStructure{RatchetKey: point("ratchet"), CipherText: sym.Bytes("body", 16), Version: 3, Mac: sym.Bytes("mac", 8)}),
		})
		b[0] = v
		var m *protocol.PreKeySignalMessage
		if m, err = protocol.NewPreKeySignalMessageFromBytes(b, s.PreKeySignalMessage, s.SignalMessage); err == nil {
			got = m.MessageVersion()
		}
	case 2:
		b := s.SenderKeyMessage.Serialize(&protocol.SenderKeyMessageStructure{CipherText: sym.Bytes("body", 16), Version: 3, Signature: sym.Bytes("signature", 64)})
		b[0] = v
		var m *protocol.SenderKeyMessage
		if m, err = protocol.NewSenderKeyMessageFromBytes(b, s.SenderKeyMessage); err == nil {
			got = int(m.Version())
		}
	case 3:
		b := s.SenderKeyDistributionMessage.Serialize(&protocol.SenderKeyDistributionMessageStructure{ChainKey: sym.Bytes("chain", 32), SigningKey: point("signing"), Version: 3})
		b[0] = v
		if _, err = protocol.NewSenderKeyDistributionMessageFromBytes(b, s.SenderKeyDistributionMessage); err == nil {
			got = ver
		}
	}
	sym.Assert((err == nil) == (ver >= 2 && ver <= 3), "accepted exactly if supported")
	if err == nil {
		sym.Assert(got == ver, "reports its version")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C14Session: messages decrypt only in a session of their version.
//gosym:prop=C14 tier=both shard=mode:2 shard=va:2 shard=vb:2 reach=ok
//gosym:bound sessions of versions 2 and 3 at either end, all keys and messages
func C14Session() {
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	va, vb := 2+sym.Choose("va", 2), 2+sym.Choose("vb", 2)
	s := structure(c.a, c.b)
	s.SessionState.SessionVersion = va
	put(c.a, c.b, s)
	s = structure(c.b, c.a)
	s.SessionState.SessionVersion = vb
	put(c.b, c.a, s)
	pt := sym.Bytes("pt", 20)
	w := send(c.ca, pt)
	sym.Assert(parsed(c.b, w).Version == va, "message of the session's version")
	got, err := c.b.recv(c.cb, w)
	sym.Assert((err == nil) == (va == vb), "decrypts exactly in a session of its version")
	if err == nil {
		sym.Assert(sym.EqBytes(got, pt), "plaintext")
	}
	sym.Reach("ok")
}

// parse decodes b as a wire message of the given kind and uses what it gets.
func parse(s *serialize.Serializer, kind int, b []byte) error {
	switch kind {
	case 0:
		m, err := protocol.NewSignalMessageFromBytes(b, s.SignalMessage)
		if err != nil {
			return err
		}
		useSignal(m)
	case 1:
		m, err := protocol.NewPreKeySignalMessageFromBytes(b, s.PreKeySignalMessage, s.SignalMessage)
		if err != nil {
			return err
		}
		sym.Assert(len(m.BaseKey().Serialize()) == 33 && len(m.IdentityKey().Serialize()) == 33, "whole keys")
		sym.Assert(len(m.Serialize()) > 66, "serialises")
		useSignal(m.WhisperMessage())
	case 2:
		m, err := protocol.NewSenderKeyMessageFromBytes(b, s.SenderKeyMessage)
		if err != nil {
			return err
		}
		sym.Assert(len(m.Signature()) == 64, "signature")
		sym.Assert(len(m.SignedSerialize()) > 0 && len(m.Serialize()) > 0, "serialises")
	case 3:
		m, err := protocol.NewSenderKeyDistributionMessageFromBytes(b, s.SenderKeyDistributionMessage)
		if err != nil {
			return err
		}
		sym.Assert(len(m.SignatureKey().Serialize()) == 33, "whole key")
		sym.Assert(len(m.Serialize()) > 33, "serialises")
	}
	return nil
}

func useSignal(m *protocol.SignalMessage) {
	sym.Assert(len(m.SenderRatchetKey().Serialize()) == 33, "whole key")
	sym.Assert(len(m.Serialize()) > 33, "serialises")
}

// C12Buffer: no byte string crashes a decoder of wire messages.
//gosym:prop=C12 tier=both shard=kind:4 shard=len:9:6 reach=rejected secs=300
//gosym:bound protocol buffer encoding; all byte strings with a version byte, up to 4 (thorough: 7) bytes of content and a complete MAC or signature, and all shorter ones
func C12Buffer() {
	kind := sym.Choose("kind", 4)
	n := sym.Choose("len", 9)
	if extra := []int{protocol.MacLength, 0, 64, 0}[kind]; n == 0 {
		n = sym.Choose("short", extra+1)
	} else {
		n += extra
	}
	if err := parse(serializerN(1), kind, sym.Bytes("b", n)); err != nil {
		sym.Reach("rejected")
	} else {
		sym.Assert(kind == 2, "too short for any message with a key")
	}
}

// some is a byte string of one of the given lengths (-1: missing).
func some(name string, lens ...int) []byte {
	n := lens[sym.Choose(name+"len", len(lens))]
	if n < 0 {
		return nil
	}
	b := sym.Bytes(name, n)
	if n >= 33 {
		b[0] = ecc.DjbType ^ sym.Byte(name+"type")&3
	}
	return b
}

// C12Fields: no message with missing or short fields crashes its decoder.
//gosym:prop=C12 tier=both shard=kind:4 shard=ser:2 reach=rejected,accepted
//gosym:bound well-formed encodings of messages whose fields are missing, empty, one byte, one byte short, right or one byte long, with any contents, of versions 1, 3 and 4, cut short by up to 9 bytes or at the MAC or signature
func C12Fields() {
	kind := sym.Choose("kind", 4)
	k := sym.Choose("ser", 2)
	s := serializerN(k)
	ver := []int{1, 3, 4}[sym.Choose("version", 3)]
	var b []byte
	signal := func() []byte {
		return s.SignalMessage.Serialize(&protocol.SignalMessageStructure{RatchetKey: some("ratchet", -1, 0, 1, 32, 33, 34),
			CipherText: some("body", -1, 0, 1, 16), Version: ver, Mac: some("mac", -1, 0, 7, 8)})
	}
	switch kind {
	case 0:
		b = signal()
	case 1:
		st := &protocol.PreKeySignalMessageStructure{BaseKey: some("base", -1, 0, 32, 33), IdentityKey: some("identity", -1, 0, 32, 33, 34), Version: ver}
		if sym.Choose("inner", 2) == 1 {
			st.Message = signal()
		} else if k == 1 { // bytes that are no message (as JSON: only none)
			st.Message = some("message", -1, 0, 1, 8, 9, 10)
		}
		b = s.PreKeySignalMessage.Serialize(st)
	case 2:
		b = s.SenderKeyMessage.Serialize(&protocol.SenderKeyMessageStructure{CipherText: some("body", -1, 0, 1, 16), Version: uint32(ver), Signature: some("signature", -1, 0, 63, 64)})
	case 3:
		b = s.SenderKeyDistributionMessage.Serialize(&protocol.SenderKeyDistributionMessageStructure{ChainKey: some("chain", -1, 0, 31, 32), SigningKey: some("signing", -1, 0, 32, 33, 34), Version: uint32(ver)})
	}
	if k == 1 {
		cut := sym.Choose("cut", 10)
		if cut <= len(b) {
			b = b[:len(b)-cut]
		}
	}
	if parse(s, kind, b) == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C12Extra: bytes that are no encoding of a message are an error.
//
//gosym:prop=C12 tier=both shard=kind:4 reach=rejected
//gosym:bound well-formed protocol buffer messages of all four kinds with any one byte between their fields and their MAC or signature (no field is one byte long), all contents
func C12Extra() {
	kind := sym.Choose("kind", 4)
	s := serializerN(1)
	var b []byte
	end := 0
	switch kind {
	case 0:
		b = s.SignalMessage.Serialize(&protocol.SignalMessageStructure{RatchetKey: point("ratchet"), CipherText: sym.Bytes("body", 16), Version: 3, Mac: sym.Bytes("mac", 8)})
		end = 8
	case 1:
		inner := s.SignalMessage.Serialize(&protocol.SignalMessageStructure{RatchetKey: point("ratchet"), CipherText: sym.Bytes("body", 16), Version: 3, Mac: sym.Bytes("mac", 8)})
		b = s.PreKeySignalMessage.Serialize(&protocol.PreKeySignalMessageStructure{BaseKey: point("base"), IdentityKey: point("identity"), Message: inner, Version: 3})
	case 2:
		b = s.SenderKeyMessage.Serialize(&protocol.SenderKeyMessageStructure{CipherText: sym.Bytes("body", 16), Version: 3, Signature: sym.Bytes("signature", 64)})
		end = 64
	case 3:
		b = s.SenderKeyDistributionMessage.Serialize(&protocol.SenderKeyDistributionMessageStructure{ChainKey: sym.Bytes("chain", 32), SigningKey: point("signing"), Version: 3})
	}
	sym.Assert(parse(s, kind, b) == nil, "well-formed")
	n := len(b) - end
	more := append(append(append([]byte{}, b[:n]...), sym.Byte("extra")), b[n:]...)
	sym.Assert(parse(s, kind, more) != nil, "no encoding of a message")
	sym.Reach("rejected")
}
