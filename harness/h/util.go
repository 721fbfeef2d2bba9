package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// store implements every store interface.  With persist set, session and
// sender key records are kept as the bytes their Serialize method returns and
// rebuilt on each load; otherwise the same live pointer is handed out.
type store struct {
	persist bool
	ser     *serialize.Serializer

	sess    map[string]*record.Session
	sessB   map[string][]byte
	pre     map[uint32]*record.PreKey
	signed  map[uint32]*record.SignedPreKey
	sk      map[string]*grecord.SenderKey
	skB     map[string][]byte
	id      *identity.KeyPair
	regID   uint32
	trusted map[string]*identity.Key

	trustAll  bool
	trustNone bool
	stores    int // StoreSession calls
	skStores  int
	saves     int
	removed   []uint32
}

func newStore(ser *serialize.Serializer, persist bool) *store {
	return &store{
		persist: persist, ser: ser,
		sess: map[string]*record.Session{}, sessB: map[string][]byte{},
		pre: map[uint32]*record.PreKey{}, signed: map[uint32]*record.SignedPreKey{},
		sk: map[string]*grecord.SenderKey{}, skB: map[string][]byte{},
		trusted: map[string]*identity.Key{},
	}
}

func akey(a *protocol.SignalAddress) string { return a.String() }

// event is called at every call of a store or of the log; see isolation.go.
func event(key string) {
	if onEvent != nil {
		onEvent(key)
	}
}

var onEvent func(key string)

// identity
func (s *store) GetIdentityKeyPair() *identity.KeyPair { event(""); return s.id }
func (s *store) GetLocalRegistrationId() uint32        { event(""); return s.regID }
func (s *store) SaveIdentity(a *protocol.SignalAddress, k *identity.Key) {
	event(akey(a))
	s.saves++
	s.trusted[akey(a)] = k
}
func (s *store) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	event(akey(a))
	if s.trustNone {
		return false
	}
	if s.trustAll {
		return true
	}
	t := s.trusted[akey(a)]
	return t == nil || sym.EqBytes(t.Serialize(), k.Serialize())
}

// sessions
func (s *store) LoadSession(a *protocol.SignalAddress) *record.Session {
	event(akey(a))
	k := akey(a)
	if s.persist {
		b, ok := s.sessB[k]
		if !ok {
			return record.NewSession(s.ser.Session, s.ser.State)
		}
		r, err := record.NewSessionFromBytes(append([]byte{}, b...), s.ser.Session, s.ser.State)
		if err != nil {
			sym.Assert(false, "stored session reloads")
			return record.NewSession(s.ser.Session, s.ser.State)
		}
		return r
	}
	r := s.sess[k]
	if r == nil {
		return record.NewSession(s.ser.Session, s.ser.State)
	}
	return r
}
func (s *store) GetSubDeviceSessions(name string) []uint32 { return nil }
func (s *store) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	event(akey(a))
	s.stores++
	if s.persist {
		s.sessB[akey(a)] = r.Serialize()
		return
	}
	s.sess[akey(a)] = r
}
func (s *store) ContainsSession(a *protocol.SignalAddress) bool {
	event(akey(a))
	if s.persist {
		_, ok := s.sessB[akey(a)]
		return ok
	}
	return s.sess[akey(a)] != nil
}
func (s *store) DeleteSession(a *protocol.SignalAddress) {
	event(akey(a))
	delete(s.sess, akey(a))
	delete(s.sessB, akey(a))
}
func (s *store) DeleteAllSessions() {}

// prekeys
func (s *store) LoadPreKey(id uint32) *record.PreKey             { event(""); return s.pre[id] }
func (s *store) StorePreKey(id uint32, r *record.PreKey)         { event(""); s.pre[id] = r }
func (s *store) ContainsPreKey(id uint32) bool                   { event(""); return s.pre[id] != nil }
func (s *store) RemovePreKey(id uint32)                          { event(""); s.removed = append(s.removed, id); delete(s.pre, id) }
func (s *store) LoadSignedPreKey(id uint32) *record.SignedPreKey { event(""); return s.signed[id] }
func (s *store) LoadSignedPreKeys() []*record.SignedPreKey       { return nil }
func (s *store) StoreSignedPreKey(id uint32, r *record.SignedPreKey) {
	event("")
	s.signed[id] = r
}
func (s *store) ContainsSignedPreKey(id uint32) bool { event(""); return s.signed[id] != nil }
func (s *store) RemoveSignedPreKey(id uint32)        { delete(s.signed, id) }

// sender keys
func skey(n *protocol.SenderKeyName) string { return n.GroupID() + "/" + n.Sender().String() }
func (s *store) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) {
	event(skey(n))
	s.skStores++
	if s.persist {
		s.skB[skey(n)] = r.Serialize()
		return
	}
	s.sk[skey(n)] = r
}
func (s *store) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey {
	event(skey(n))
	if s.persist {
		b, ok := s.skB[skey(n)]
		if !ok {
			return grecord.NewSenderKey(s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		}
		r, err := grecord.NewSenderKeyFromBytes(append([]byte{}, b...), s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		if err != nil {
			sym.Assert(false, "stored sender key reloads")
			return grecord.NewSenderKey(s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		}
		return r
	}
	r := s.sk[skey(n)]
	if r == nil {
		return grecord.NewSenderKey(s.ser.SenderKeyRecord, s.ser.SenderKeyState)
	}
	return r
}

// user is one endpoint.
type user struct {
	name string
	addr *protocol.SignalAddress
	st   *store
	spk  *record.SignedPreKey
	pk   *record.PreKey
	ser  *serialize.Serializer
	grp  *groups.SessionBuilder
	gc     map[string]*groups.GroupCipher
}

// serializerN returns the JSON (0) or protocol buffer (1) serializer.
func serializerN(k int) *serialize.Serializer {
	if k == 0 {
		return serialize.NewJSONSerializer()
	}
	return serialize.NewProtoBufSerializer()
}

// newUser makes a user with an identity, one signed prekey and one prekey.
func newUser(name string, ser *serialize.Serializer, persist bool, regID, spkID, pkID uint32) *user {
	u := &user{name: name, addr: protocol.NewSignalAddress(name, 1), st: newStore(ser, persist), ser: ser}
	u.st.id, _ = keyhelper.GenerateIdentityKeyPair()
	u.st.regID = regID
	u.addSigned(spkID)
	u.addPre(pkID)
	u.grp = groups.NewGroupSessionBuilder(u.st, ser)
	return u
}

func (u *user) addSigned(id uint32) *record.SignedPreKey {
	u.spk, _ = keyhelper.GenerateSignedPreKey(u.st.id, id, u.ser.SignedPreKeyRecord)
	u.st.signed[id] = u.spk
	return u.spk
}

func (u *user) addPre(id uint32) *record.PreKey {
	kp, _ := ecc.GenerateKeyPair()
	u.pk = record.NewPreKey(id, kp, u.ser.PreKeyRecord)
	u.st.pre[id] = u.pk
	return u.pk
}

// bundle is the prekey bundle the user publishes; withPre adds the one-time key.
func (u *user) bundle(withPre bool) *prekey.Bundle {
	var id *optional.Uint32
	var pub ecc.ECPublicKeyable
	if _, ok := u.ser.SignalMessage.(*serialize.JSONSignalMessageSerializer); ok {
		id = optional.NewEmptyUint32()
	}
	if withPre {
		id = optional.NewOptionalUint32(u.pk.ID().Value)
		pub = u.pk.KeyPair().PublicKey()
	}
	return prekey.NewBundle(u.st.regID, 1, id, u.spk.ID(), pub, u.spk.KeyPair().PublicKey(), u.spk.Signature(), u.st.id.PublicKey())
}

func (u *user) builder(peer *user) *session.Builder {
	return session.NewBuilderFromSignal(u.st, peer.addr, u.ser)
}

func (u *user) cipher(peer *user) *session.Cipher {
	return session.NewCipher(u.builder(peer), peer.addr)
}

// wire is what travels: the serialised message and its type.
type wire struct {
	b []byte
	t uint32
}

func send(c *session.Cipher, pt []byte) wire {
	m, err := c.Encrypt(pt)
	sym.Assert(err == nil, "encrypts")
	if err != nil {
		sym.Assume(false)
	}
	return wire{m.Serialize(), m.Type()}
}

func (u *user) recv(c *session.Cipher, m wire) ([]byte, error) {
	if m.t == protocol.PREKEY_TYPE {
		p, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, m.b...), u.ser.PreKeySignalMessage, u.ser.SignalMessage)
		if err != nil {
			return nil, err
		}
		return c.DecryptMessage(p)
	}
	p, err := protocol.NewSignalMessageFromBytes(append([]byte{}, m.b...), u.ser.SignalMessage)
	if err != nil {
		return nil, err
	}
	return c.Decrypt(p)
}

// conv is a conversation between two users.
type conv struct {
	a, b   *user
	ca, cb *session.Cipher
	other  []past // messages sent but not delivered
}

type past struct {
	w  wire
	pt []byte
}

// newConv makes two users; a has processed b's bundle.
func newConv(ser *serialize.Serializer, persist, withPre bool) *conv {
	c := &conv{}
	c.a = newUser("alice", ser, persist, 1001, 31, 41)
	c.b = newUser("bob", ser, persist, 1002, 32, 42)
	err := c.a.builder(c.b).ProcessBundle(c.b.bundle(withPre))
	sym.Assert(err == nil, "bundle accepted")
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	return c
}

// deliver decrypts m at the receiver and asserts the plaintext.
func deliver(u *user, c *session.Cipher, m wire, want []byte, label string) {
	got, err := u.recv(c, m)
	sym.Assert(err == nil, label+": accepted")
	sym.Assert(sym.EqBytes(got, want), label+": plaintext")
}

// established exchanges one message each way.
func (c *conv) established() {
	p := []byte("hello")
	deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	deliver(c.a, c.ca, send(c.cb, p), p, "setup")
}
