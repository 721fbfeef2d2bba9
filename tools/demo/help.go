package main

import (
	"fmt"
	"os"

	"github.com/prospik/libsignal-protocol-go/ecc"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

type quiet struct{}

func (quiet) Debug(string, string)   {}
func (quiet) Info(string, string)    {}
func (quiet) Warning(string, string) {}
func (quiet) Error(string, string)   {}
func (quiet) Configure(string)       {}

func init() {
	var l logger.Loggable = quiet{}
	logger.Setup(&l)
}

// check ends the demonstration when something does not hold.
func check(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf("FAIL: "+f+"\n", a...)
		os.Exit(1)
	}
}

// store keeps everything in memory, records as serialised bytes.
type store struct {
	ser     *serialize.Serializer
	sess    map[string][]byte
	pre     map[uint32]*record.PreKey
	signed  map[uint32]*record.SignedPreKey
	sk      map[string][]byte
	id      *identity.KeyPair
	reg     uint32
	trust   func(*identity.Key) bool
	removed []uint32
}

func (s *store) GetIdentityKeyPair() *identity.KeyPair                   { return s.id }
func (s *store) GetLocalRegistrationId() uint32                          { return s.reg }
func (s *store) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {}
func (s *store) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	return s.trust == nil || s.trust(k)
}
func (s *store) LoadSession(a *protocol.SignalAddress) *record.Session {
	if b, ok := s.sess[a.String()]; ok {
		r, err := record.NewSessionFromBytes(b, s.ser.Session, s.ser.State)
		check(err == nil, "session does not load: %v", err)
		return r
	}
	return record.NewSession(s.ser.Session, s.ser.State)
}
func (s *store) GetSubDeviceSessions(string) []uint32 { return nil }
func (s *store) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.sess[a.String()] = r.Serialize()
}
func (s *store) ContainsSession(a *protocol.SignalAddress) bool      { return s.sess[a.String()] != nil }
func (s *store) DeleteSession(a *protocol.SignalAddress)             { delete(s.sess, a.String()) }
func (s *store) DeleteAllSessions()                                  {}
func (s *store) LoadPreKey(id uint32) *record.PreKey                 { return s.pre[id] }
func (s *store) StorePreKey(id uint32, r *record.PreKey)             { s.pre[id] = r }
func (s *store) ContainsPreKey(id uint32) bool                       { return s.pre[id] != nil }
func (s *store) RemovePreKey(id uint32)                              { s.removed = append(s.removed, id); delete(s.pre, id) }
func (s *store) LoadSignedPreKey(id uint32) *record.SignedPreKey     { return s.signed[id] }
func (s *store) LoadSignedPreKeys() []*record.SignedPreKey           { return nil }
func (s *store) StoreSignedPreKey(id uint32, r *record.SignedPreKey) { s.signed[id] = r }
func (s *store) ContainsSignedPreKey(id uint32) bool                 { return s.signed[id] != nil }
func (s *store) RemoveSignedPreKey(id uint32)                        { delete(s.signed, id) }
func skey(n *protocol.SenderKeyName) string                          { return n.GroupID() + "/" + n.Sender().String() }
func (s *store) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) {
	s.sk[skey(n)] = r.Serialize()
}
func (s *store) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey {
	if b, ok := s.sk[skey(n)]; ok {
		r, err := grecord.NewSenderKeyFromBytes(b, s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		check(err == nil, "sender key does not load: %v", err)
		return r
	}
	return grecord.NewSenderKey(s.ser.SenderKeyRecord, s.ser.SenderKeyState)
}

type user struct {
	addr *protocol.SignalAddress
	st   *store
	ser  *serialize.Serializer
	spk  *record.SignedPreKey
	pk   *record.PreKey
}

func newUser(name string, spk, pk uint32) *user {
	ser := serialize.NewProtoBufSerializer()
	u := &user{addr: protocol.NewSignalAddress(name, 1), ser: ser}
	u.st = &store{ser: ser, sess: map[string][]byte{}, pre: map[uint32]*record.PreKey{}, signed: map[uint32]*record.SignedPreKey{}, sk: map[string][]byte{}}
	u.st.id, _ = keyhelper.GenerateIdentityKeyPair()
	u.st.reg = spk + 1000
	u.spk, _ = keyhelper.GenerateSignedPreKey(u.st.id, spk, ser.SignedPreKeyRecord)
	u.st.signed[spk] = u.spk
	u.addPre(pk)
	return u
}

func (u *user) addPre(id uint32) {
	kp, _ := ecc.GenerateKeyPair()
	u.pk = record.NewPreKey(id, kp, u.ser.PreKeyRecord)
	u.st.pre[id] = u.pk
}

func (u *user) bundle() *prekey.Bundle {
	return prekey.NewBundle(u.st.reg, 1, optional.NewOptionalUint32(u.pk.ID().Value), u.spk.ID(), u.pk.KeyPair().PublicKey(),
		u.spk.KeyPair().PublicKey(), u.spk.Signature(), u.st.id.PublicKey())
}

func (u *user) to(v *user) error {
	return session.NewBuilderFromSignal(u.st, v.addr, u.ser).ProcessBundle(v.bundle())
}

func (u *user) cipher(v *user) *session.Cipher {
	return session.NewCipher(session.NewBuilderFromSignal(u.st, v.addr, u.ser), v.addr)
}

type wire struct {
	b []byte
	t uint32
}

func (u *user) send(v *user, text string) wire {
	m, err := u.cipher(v).Encrypt([]byte(text))
	check(err == nil, "encrypt: %v", err)
	return wire{m.Serialize(), m.Type()}
}

func (u *user) recv(v *user, m wire) (string, error) {
	if m.t == protocol.PREKEY_TYPE {
		p, err := protocol.NewPreKeySignalMessageFromBytes(m.b, u.ser.PreKeySignalMessage, u.ser.SignalMessage)
		if err != nil {
			return "", err
		}
		b, err := u.cipher(v).DecryptMessage(p)
		return string(b), err
	}
	p, err := protocol.NewSignalMessageFromBytes(m.b, u.ser.SignalMessage)
	if err != nil {
		return "", err
	}
	b, err := u.cipher(v).Decrypt(p)
	return string(b), err
}

func (u *user) want(v *user, m wire, text string) {
	got, err := u.recv(v, m)
	check(err == nil && got == text, "message %q: got %q, %v", text, got, err)
}

// pair makes two users with a session used in both directions.
func pair() (*user, *user) {
	a, b := newUser("alice", 31, 41), newUser("bob", 32, 42)
	check(a.to(b) == nil, "bundle rejected")
	b.want(a, a.send(b, "hello"), "hello")
	a.want(b, b.send(a, "hi"), "hi")
	return a, b
}
