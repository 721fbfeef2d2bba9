package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// group is a sender and the members that receive its messages.
type group struct {
	a    *user
	name *protocol.SenderKeyName
	rx   []*user
	mode int
	sent [][]byte
	text [][]byte
	got  []map[int]bool // which message each member has decrypted
	from []int          // first message a member can read
	// messages have no text
	empty bool
}

// gUser is a member without prekeys.
func gUser(name string, mode int) *user {
	ser := serializerN(1 - mode)
	return &user{name: name, addr: protocol.NewSignalAddress(name, 1), st: newStore(ser, mode == 1), ser: ser}
}

func newGroup(mode, members int) *group {
	g := &group{a: gUser("alice", mode), mode: mode}
	g.a.grp = groups.NewGroupSessionBuilder(g.a.st, g.a.ser)
	g.name = protocol.NewSenderKeyName("group", g.a.addr)
	for i := 0; i < members; i++ {
		g.join()
	}
	return g
}

// dist is the sender's distribution message as it travels.
func (g *group) dist() []byte {
	m, err := g.a.grp.Create(g.name)
	sym.Assert(err == nil, "sender key created")
	if err != nil {
		sym.Assume(false)
	}
	return m.Serialize()
}

func (g *group) process(u *user, b []byte) {
	m, err := protocol.NewSenderKeyDistributionMessageFromBytes(clone(b), u.ser.SenderKeyDistributionMessage)
	sym.Assert(err == nil, "distribution message parses")
	if err != nil {
		sym.Assume(false)
	}
	u.grp.Process(g.name, m)
}

// join adds a member that processes a fresh distribution message.
func (g *group) join() *user {
	u := gUser("member"+string(rune('0'+len(g.rx))), g.mode)
	u.grp = groups.NewGroupSessionBuilder(u.st, u.ser)
	g.process(u, g.dist())
	g.rx = append(g.rx, u)
	g.got = append(g.got, map[int]bool{})
	g.from = append(g.from, len(g.sent))
	return u
}

func (g *group) send() int {
	n := len(g.sent)
	pt := append([]byte{byte(n)}, sym.Bytes("text", 3)...)
	if g.empty {
		pt = nil
	}
	g.sent = append(g.sent, gsend(g.a, g.name, pt))
	g.text = append(g.text, pt)
	return n
}

func gsend(u *user, name *protocol.SenderKeyName, pt []byte) []byte {
	given := clone(pt)
	m, err := u.gcipher(name).Encrypt(pt)
	sym.Assert(err == nil, "encrypts")
	if err != nil {
		sym.Assume(false)
	}
	sym.Assert(sym.SameBytes(pt, given), "plaintext left alone")
	sm, ok := m.(*protocol.SenderKeyMessage)
	sym.Assert(ok && m.Type() == protocol.SENDERKEY_TYPE, "a sender key message")
	return sm.SignedSerialize()
}

// gcipher is the user's cipher for a sender: a new one for every message with
// a serialising store, otherwise always the same.
func (u *user) gcipher(name *protocol.SenderKeyName) *groups.GroupCipher {
	k := skey(name)
	if u.st.persist || u.gc[k] == nil {
		if u.gc == nil {
			u.gc = map[string]*groups.GroupCipher{}
		}
		u.gc[k] = groups.NewGroupCipher(u.grp, name, u.st)
	}
	return u.gc[k]
}

func grecv(u *user, name *protocol.SenderKeyName, b []byte) ([]byte, error) {
	m, err := protocol.NewSenderKeyMessageFromBytes(clone(b), u.ser.SenderKeyMessage)
	if err != nil {
		return nil, err
	}
	return u.gcipher(name).Decrypt(m)
}

func (g *group) deliver(r, i int, label string) {
	pt, err := grecv(g.rx[r], g.name, g.sent[i])
	sym.Assert(err == nil, label+": accepted")
	sym.Assert(err != nil || sym.EqBytes(pt, g.text[i]), label+": plaintext")
	g.got[r][i] = true
}

// pending is the oldest or newest message member r can still read.
func (g *group) pending(r int, newest bool) int {
	f, n := -1, 0
	for i := g.from[r]; i < len(g.sent); i++ {
		if !g.got[r][i] {
			n++
			if f < 0 || newest {
				f = i
			}
		}
	}
	if newest && n < 2 {
		return -1
	}
	return f
}

// finish delivers the rest, then everything once more.
func (g *group) finish(reverse bool) {
	for r := range g.rx {
		for i := g.pending(r, false); i >= 0; i = g.pending(r, false) {
			if j := g.pending(r, true); reverse && j >= 0 {
				i = j
			}
			g.deliver(r, i, "late delivery")
		}
		for i := range g.sent {
			_, err := grecv(g.rx[r], g.name, g.sent[i])
			if g.got[r][i] {
				sym.Assert(err != nil, "no message decrypts twice")
			} else {
				sym.Assert(err != nil, "nothing from before joining decrypts")
			}
		}
	}
	i := g.send()
	for r := range g.rx {
		g.deliver(r, i, "afterwards")
	}
}

// C15Schedule: every schedule of sends, deliveries and joins.
//gosym:prop=C15 tier=quick shard=mode:2 shard=act:6 reach=ok
//gosym:bound every schedule of 5 sends, deliveries (oldest or newest message a member has not read) to two members and one late joining; then the rest in either order, everything again, and one more message; all keys and texts; live store with protobuf, serialising store with JSON
func C15Schedule() { c15(5) }

// C15ScheduleLong
//gosym:prop=C15 tier=thorough shard=mode:2 shard=act:6 shard=act#1:6 reach=ok
//gosym:bound as C15Schedule with 7 steps
func C15ScheduleLong() { c15(7) }

func c15(n int) {
	g := newGroup(sym.Choose("mode", 2), 2)
	for i := 0; i < n; i++ {
		switch a := sym.Choose("act", 6); a {
		case 0:
			g.send()
		case 1, 2, 3, 4:
			i := g.pending(a&1, a > 2)
			sym.Assume(i >= 0)
			g.deliver(a&1, i, "delivery")
		case 5:
			sym.Assume(len(g.rx) == 2)
			g.join()
		}
	}
	g.finish(sym.Choose("rev", 2) == 1)
	sym.Reach("ok")
}

// seed gives the sender a sender key at the given chain position.
func (g *group) seed(id, it uint32) *ecc.ECKeyPair {
	kp, err := keyhelper.GenerateSenderSigningKey()
	sym.Assert(err == nil, "signing key")
	r := grecord.NewSenderKey(g.a.ser.SenderKeyRecord, g.a.ser.SenderKeyState)
	r.SetSenderKeyState(id, it, keyhelper.GenerateSenderKey(), kp)
	g.a.st.StoreSenderKey(g.name, r)
	return kp
}

// C15Anywhere: the same from any chain position and key id, in any order.
//gosym:prop=C15 tier=both shard=mode:2 shard=order:6 reach=ok
//gosym:bound every key id and chain position up to 2^32-11, three messages in every order
func C15Anywhere() {
	g := newGroup(sym.Choose("mode", 2), 0)
	it := sym.Uint32("at")
	sym.Assume(it < 1<<32-10)
	id := sym.Uint32("id")
	g.seed(id, it)
	g.join()
	for i := 0; i < 3; i++ {
		g.send()
	}
	order := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	for _, i := range order {
		g.deliver(0, i, "delivery")
	}
	for i := range g.sent {
		_, err := grecv(g.rx[0], g.name, g.sent[i])
		sym.Assert(err != nil, "no message decrypts twice")
	}
	m, err := protocol.NewSenderKeyMessageFromBytes(g.sent[2], g.a.ser.SenderKeyMessage)
	sym.Assert(err == nil && m.KeyID() == id && m.Iteration() == it+2, "message names its key and position")
	sym.Reach("ok")
}

// skip advances the sender past n messages that are never encrypted.
func (g *group) skip(n int) {
	r := g.a.st.LoadSenderKey(g.name)
	s, err := r.SenderKeyState()
	sym.Assert(err == nil, "has a state")
	for i := 0; i < n; i++ {
		s.SetSenderChainKey(s.SenderChainKey().Next())
	}
	g.a.st.StoreSenderKey(g.name, r)
}

// C15Far: a message up to 2000 ahead decrypts, and then those skipped.
//gosym:prop=C15 tier=both shard=mode:2 shard=gap:6:3 reach=ok
//gosym:bound messages 2000, 1 and 1999 (thorough: also 2, 100, 1000) ahead, then the first, last and, from the middle, one more skipped message
func C15Far() {
	g := newGroup(sym.Choose("mode", 2), 1)
	gap := []int{2000, 1, 1999, 2, 100, 1000}[sym.Choose("gap", 6)]
	first := g.send()
	mid := -1
	if gap > 3 {
		g.skip(gap/2 - 1)
		mid = g.send()
		g.skip(gap - gap/2 - 2)
	}
	last := first
	if gap > 1 {
		last = g.send()
	}
	far := g.send()
	g.deliver(0, far, "far ahead")
	g.deliver(0, last, "last skipped")
	if last != first {
		g.deliver(0, first, "first skipped")
	}
	if mid >= 0 {
		g.deliver(0, mid, "skipped in the middle")
	}
	g.finish(false)
	sym.Reach("ok")
}

// C15Two: several sender keys and repeated distribution messages do not
// disturb each other.
//gosym:prop=C15 tier=both shard=mode:2 shard=order:6 shard=again:3 reach=ok
//gosym:bound two sender keys of one sender with two messages each, delivered in six orders, the first key announced again before, between and after the deliveries
func C15Two() {
	g := newGroup(sym.Choose("mode", 2), 0)
	g.seed(5, 0)
	g.join()
	g.send()
	g.send()
	again := g.dist()
	g.seed(1+sym.Uint32("other")%4, sym.Uint32("at")&0xffff)
	g.process(g.rx[0], g.dist())
	g.send()
	g.send()
	when := sym.Choose("again", 3)
	order := [][]int{{0, 1, 2, 3}, {2, 0, 3, 1}, {3, 2, 1, 0}, {1, 3, 0, 2}, {0, 2, 1, 3}, {2, 3, 0, 1}}[sym.Choose("order", 6)]
	for k, i := range order {
		if k == 2*when || when == 2 && k == 3 {
			g.process(g.rx[0], again)
		}
		g.deliver(0, i, "delivery")
	}
	g.finish(false)
	sym.Reach("ok")
}

// C15Empty: messages without text are messages.
//gosym:prop=C15 tier=both shard=mode:2 shard=order:6 reach=ok
//gosym:bound three messages in every order, each with or without text
func C15Empty() {
	g := newGroup(sym.Choose("mode", 2), 1)
	for i := 0; i < 3; i++ {
		g.empty = sym.Choose("empty", 2) == 1
		g.send()
	}
	g.empty = false
	for _, i := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)] {
		g.deliver(0, i, "message")
	}
	g.finish(false)
	sym.Reach("ok")
}

// C15Create: creating is repeatable and says what the sender will use.
//gosym:prop=C15 tier=both shard=mode:2 reach=ok
//gosym:bound all keys; before and after a message
func C15Create() {
	g := newGroup(sym.Choose("mode", 2), 0)
	ser := g.a.ser.SenderKeyDistributionMessage
	parse := func(b []byte) *protocol.SenderKeyDistributionMessageStructure {
		s, err := ser.Deserialize(b)
		sym.Assert(err == nil, "parses")
		return s
	}
	x := g.dist()
	sym.Assert(sym.SameBytes(x, g.dist()), "created once")
	p := parse(x)
	sym.Assert(p.Iteration == 0 && len(p.ChainKey) == 32 && len(p.SigningKey) == 33, "a new chain")
	g.send()
	q := parse(g.dist())
	sym.Assert(q.ID == p.ID && q.Iteration == 1, "same key, next position")
	sym.Assert(sym.EqBytes(q.SigningKey, p.SigningKey), "same signing key")
	sym.Assert(!sym.EqBytes(q.ChainKey, p.ChainKey), "chain moved on")
	other := newGroup(0, 0)
	o := parseDist(other, other.dist())
	sym.Assert(!sym.EqBytes(o.ChainKey, p.ChainKey), "another sender, another chain")
	sym.Assert(!sym.EqBytes(o.SigningKey, p.SigningKey), "another sender, another signing key")
	sym.Reach("ok")
}

func parseDist(g *group, b []byte) *protocol.SenderKeyDistributionMessageStructure {
	s, err := g.a.ser.SenderKeyDistributionMessage.Deserialize(b)
	sym.Assert(err == nil, "parses")
	return s
}

// gsituation leaves member 0 with a genuine message to read; sit 0: the next
// one, 1: after a gap, 2: an older skipped one, 3: of an older sender key.
func gsituation(sit, mode int) (*group, int) {
	g := newGroup(mode, 1)
	switch sit {
	case 0:
		g.deliver(0, g.send(), "setup")
		return g, g.send()
	case 1:
		g.send()
		return g, g.send()
	case 2:
		i := g.send()
		g.deliver(0, g.send(), "setup")
		return g, i
	}
	i := g.send()
	d := parseDist(g, g.dist())
	id := sym.Uint32("id")
	sym.Assume(id != d.ID)
	g.seed(id, 0)
	g.process(g.rx[0], g.dist())
	g.deliver(0, g.send(), "setup")
	return g, i
}

// tamperGroup alters every field of message i by symbolic deltas.
func tamperGroup(g *group, i int) (m *protocol.SenderKeyMessage, st *protocol.SenderKeyMessageStructure, clean bool, err error) {
	ser := g.rx[0].ser.SenderKeyMessage
	st, err = ser.Deserialize(clone(g.sent[i]))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return nil, nil, false, err
	}
	ds, db := sym.AttackerBytes("dsig", len(st.Signature)), sym.AttackerBytes("dbody", len(st.CipherText))
	di, dt := sym.AttackerUint32("did"), sym.AttackerUint32("diteration")
	dv, shape := sym.Choose("dver", 2), sym.Choose("shape", 3)
	clean = sym.And(zero(ds), zero(db), di == 0, dt == 0, dv == 0, shape == 0)
	st.Signature = xor(st.Signature, ds)
	st.CipherText = xor(st.CipherText, db)
	switch shape {
	case 1:
		st.CipherText = append(st.CipherText, sym.AttackerBytes("extra", 16)...)
	case 2:
		st.CipherText = st.CipherText[:len(st.CipherText)-16]
	}
	st.ID += di
	st.Iteration += dt
	sym.Assume(sym.Or(st.Iteration < 4, st.Iteration > 3000))
	if dv == 1 {
		st.Version = 2
	}
	m, err = protocol.NewSenderKeyMessageFromStruct(st, ser)
	return m, st, clean, err
}

// genuine tells whether the altered message is another one the sender made.
func (g *group) genuine(not int, st *protocol.SenderKeyMessageStructure, got []byte) bool {
	r := false
	for i, b := range g.sent {
		if i == not {
			continue
		}
		s, err := g.a.ser.SenderKeyMessage.Deserialize(clone(b))
		if err != nil || len(s.CipherText) != len(st.CipherText) {
			continue
		}
		r = sym.Or(r, sym.And(s.ID == st.ID, s.Iteration == st.Iteration, s.Version == st.Version, sym.EqBytes(s.CipherText, st.CipherText), sym.EqBytes(got, g.text[i])))
	}
	return r
}

// C16Tamper: an altered group message is rejected.
//gosym:prop=C16 tier=both shard=sit:4 shard=mode:2 reach=rejected,accepted
//gosym:bound 4-byte messages in four situations (next, after a gap, skipped, older sender key), every change of key id, iteration (to below 4 or above 3000), ciphertext (also one block longer or shorter), version and signature
func C16Tamper() {
	g, i := gsituation(sym.Choose("sit", 4), sym.Choose("mode", 2))
	sym.Honest()
	m, st, clean, err := tamperGroup(g, i)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	u := g.rx[0]
	got, err := u.gcipher(g.name).Decrypt(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.Or(sym.And(clean, sym.EqBytes(got, g.text[i])), g.genuine(i, st, got)), "altered message rejected")
	sym.Reach("accepted")
}

// C16Member: no member can send in the name of another.
//gosym:prop=C16 tier=both shard=mode:2 shard=key:2 reach=ok
//gosym:bound any ciphertext of 16 bytes at any of three chain positions, signed with another member's key or delivered in another member's name
func C16Member() {
	g := newGroup(sym.Choose("mode", 2), 2)
	bob, carol := g.rx[0], g.rx[1]
	d := parseDist(g, g.dist())
	o := protocol.NewSenderKeyName("group", carol.addr)
	dm, err := carol.grp.Create(o)
	sym.Assert(err == nil, "created")
	bob.grp.Process(o, dm)
	own := gsend(carol, o, []byte("mine"))
	sym.Honest()
	if sym.Choose("key", 2) == 0 {
		r, _ := carol.st.LoadSenderKey(o).SenderKeyState()
		m := protocol.NewSenderKeyMessage(d.ID, uint32(sym.Choose("at", 3)), sym.AttackerBytes("body", 16), r.SigningKey().PrivateKey(), carol.ser.SenderKeyMessage)
		_, err = grecv(bob, g.name, m.SignedSerialize())
		sym.Assert(err != nil, "another member's signature rejected")
	}
	_, err = grecv(bob, g.name, own)
	sym.Assert(err != nil, "another member's message rejected in the sender's name")
	i := g.send()
	_, err = grecv(bob, o, g.sent[i])
	sym.Assert(err != nil, "the sender's message rejected in another member's name")
	_, err = grecv(bob, protocol.NewSenderKeyName("other", g.a.addr), g.sent[i])
	sym.Assert(err != nil, "message rejected in another group")
	pt, err := grecv(bob, o, own)
	sym.Assert(err == nil && sym.EqBytes(pt, []byte("mine")), "the other member's own message")
	g.deliver(0, i, "the sender's own message")
	sym.Reach("ok")
}

// C16Fields: what the signature of a message covers.
//gosym:prop=C16 tier=both shard=mode:2 shard=n:3:2 reach=ok
//gosym:bound a message of 16 or 32 (thorough: 48) bytes at any chain position, every other key id, iteration and ciphertext of the same length, version 2 or 3, under the same signature
func C16Fields() {
	mode := sym.Choose("mode", 2)
	ser := serializerN(1 - mode).SenderKeyMessage
	kp, err := keyhelper.GenerateSenderSigningKey()
	sym.Assert(err == nil, "signing key")
	n := 16 * (1 + sym.Choose("n", 3))
	id, it, body := uint32(7), uint32(9), sym.Bytes("body", n)
	if mode == 0 {
		id, it = sym.Uint32("id"), sym.Uint32("it")
	} else {
		id, it = []uint32{0, 127, 1<<32 - 1}[sym.Choose("id", 3)], []uint32{0, 128, 1 << 31}[sym.Choose("it", 3)]
	}
	m := protocol.NewSenderKeyMessage(id, it, body, kp.PrivateKey(), ser)
	b := m.SignedSerialize()
	sym.Honest()
	st, err := ser.Deserialize(clone(b))
	sym.Assert(err == nil, "parses")
	di, dt, db := sym.AttackerUint32("did"), sym.AttackerUint32("diteration"), sym.AttackerBytes("dbody", n)
	dv := sym.Choose("dver", 2)
	st.ID ^= di
	st.Iteration ^= dt
	st.CipherText = xor(st.CipherText, db)
	if dv == 1 {
		st.Version = 2
	}
	x, err := protocol.NewSenderKeyMessageFromStruct(st, ser)
	if err == nil {
		ok := ecc.VerifySignature(kp.PublicKey(), x.Serialize(), x.Signature())
		sym.Assert(ok == sym.And(zero(db), di == 0, dt == 0, dv == 0), "the signature covers every field")
	}
	sym.Reach("ok")
}

// C16Keys: the signature of another of the sender's keys will not do.
//gosym:prop=C16 tier=both shard=mode:2 shard=new:2 reach=ok
//gosym:bound two sender keys of one sender, any ciphertext of 16 bytes for one signed with the other
func C16Keys() {
	g := newGroup(sym.Choose("mode", 2), 1)
	i := g.send()
	d := []*protocol.SenderKeyDistributionMessageStructure{parseDist(g, g.dist()), nil}
	kp := []*ecc.ECKeyPair{nil, nil}
	r, _ := g.a.st.LoadSenderKey(g.name).SenderKeyState()
	kp[0] = r.SigningKey()
	id := sym.Uint32("id")
	sym.Assume(id != d[0].ID)
	kp[1] = g.seed(id, 0)
	g.process(g.rx[0], g.dist())
	d[1] = parseDist(g, g.dist())
	n := sym.Choose("new", 2)
	sym.Honest()
	m := protocol.NewSenderKeyMessage(d[n].ID, uint32(sym.Choose("at", 3)), sym.AttackerBytes("body", 16), kp[1-n].PrivateKey(), g.a.ser.SenderKeyMessage)
	_, err := grecv(g.rx[0], g.name, m.SignedSerialize())
	sym.Assert(err != nil, "the signature of another key rejected")
	g.deliver(0, g.send(), "new key")
	g.deliver(0, i, "old key")
	sym.Reach("ok")
}

// held is what the store of u keeps for the sender.
func (g *group) held(u *user) []byte { return clone(u.st.LoadSenderKey(g.name).Serialize()) }

// C17Tamper: a rejected group message changes nothing.
//gosym:prop=C17 tier=both shard=sit:4 shard=mode:2 reach=rejected
//gosym:bound as C16Tamper; then the genuine message and everything else
func C17Tamper() {
	g, i := gsituation(sym.Choose("sit", 4), sym.Choose("mode", 2))
	u := g.rx[0]
	before, n := g.held(u), u.st.skStores
	sym.Honest()
	m, _, _, err := tamperGroup(g, i)
	if err != nil {
		return
	}
	_, err = u.gcipher(g.name).Decrypt(m)
	sym.Assume(err != nil)
	sym.Assert(u.st.skStores == n, "nothing stored after a rejected message")
	sym.Assert(sym.SameBytes(g.held(u), before), "sender key unchanged after a rejected message")
	g.deliver(0, i, "genuine message after a rejected one")
	g.finish(false)
	sym.Reach("rejected")
}

// C17Signed: nor does a validly signed message that does not decrypt.
//gosym:prop=C17 tier=both shard=mode:2 shard=at:5 shard=len:6:4 reach=rejected,accepted
//gosym:bound any ciphertext of 0, 15, 17, 16 (thorough: 1, 32) bytes, with any padding, signed by the sender for an unread, skipped, future (3 or 1498 ahead) or used chain position
func C17Signed() {
	g := newGroup(sym.Choose("mode", 2), 1)
	a, _ := g.a.st.LoadSenderKey(g.name).SenderKeyState()
	start := a.SenderChainKey()
	if sym.Symbolic() {
		sym.Assume(a.KeyID() < 128)
	}
	i := g.send()
	g.deliver(0, g.send(), "setup")
	u := g.rx[0]
	before, n := g.held(u), u.st.skStores
	k := sym.Choose("at", 5)
	at := []uint32{2, 0, 5, 1, 1500}[k]
	ck := start
	for ck.Iteration() < at {
		ck = ck.Next()
	}
	mk, err := ck.SenderMessageKey()
	sym.Assert(err == nil, "message key")
	data := sym.Bytes("data", []int{0, 15, 17, 16, 1, 32}[sym.Choose("len", 6)])
	m := protocol.NewSenderKeyMessage(a.KeyID(), at, rawBody(mk.CipherKey(), mk.Iv(), data), a.SigningKey().PrivateKey(), g.a.ser.SenderKeyMessage)
	want, good := unread(data)
	got, err := grecv(u, g.name, m.SignedSerialize())
	if err == nil {
		sym.Assert(sym.And(good, k != 3), "a body that does not decrypt is rejected")
		sym.Assert(!good || sym.EqBytes(got, want), "the text of a body")
		_, err = grecv(u, g.name, m.SignedSerialize())
		sym.Assert(err != nil, "a second message in the same place rejected")
		sym.Reach("accepted")
		return
	}
	sym.Assert(!good || k == 3, "a body that decrypts is accepted")
	sym.Assert(u.st.skStores == n, "nothing stored after a rejected message")
	sym.Assert(sym.SameBytes(g.held(u), before), "sender key unchanged after a rejected message")
	g.deliver(0, i, "genuine message after a rejected one")
	g.finish(false)
	sym.Reach("rejected")
}

// none is a store without sender keys.
type none struct{ stores int }

func (s *none) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey)      { s.stores++ }
func (s *none) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey { return nil }

// C17Missing: using a sender key that is not there is an error.
//gosym:prop=C17 tier=both shard=mode:2 reach=ok
//gosym:bound no record, an empty record, a record of another key, encrypting with another member's key
func C17Missing() {
	g := newGroup(sym.Choose("mode", 2), 1)
	u := g.rx[0]
	i := g.send()
	m, err := protocol.NewSenderKeyMessageFromBytes(clone(g.sent[i]), u.ser.SenderKeyMessage)
	sym.Assert(err == nil, "parses")
	var st none
	_, err = groups.NewGroupCipher(u.grp, g.name, &st).Decrypt(m)
	sym.Assert(err != nil, "cannot decrypt without a record")
	_, err = groups.NewGroupCipher(u.grp, g.name, &st).Encrypt([]byte("x"))
	sym.Assert(err != nil, "cannot encrypt without a record")
	sym.Assert(st.stores == 0, "nothing stored")
	o := protocol.NewSenderKeyName("other", g.a.addr)
	_, err = groups.NewGroupCipher(u.grp, o, u.st).Decrypt(m)
	sym.Assert(err != nil, "cannot decrypt with an empty record")
	_, err = groups.NewGroupCipher(u.grp, o, u.st).Encrypt([]byte("x"))
	sym.Assert(err != nil, "cannot encrypt with an empty record")
	before := g.held(u)
	_, err = u.gcipher(g.name).Encrypt(sym.Bytes("pt", 5))
	sym.Assert(err != nil, "cannot encrypt with another member's key")
	sym.Assert(sym.SameBytes(g.held(u), before), "sender key unchanged")
	own := g.held(g.a)
	_, err = groups.NewGroupCipher(g.a.grp, g.name, g.a.st).Encrypt(nil)
	if err != nil {
		sym.Assert(sym.SameBytes(g.held(g.a), own), "sender key unchanged by a failed encryption")
	}
	g.finish(false)
	sym.Reach("ok")
}

// C18Ahead: messages more than 2000 ahead, or behind, are rejected.
//gosym:prop=C18 tier=both shard=mode:2 reach=ahead,behind
//gosym:bound every key id, chain position and iteration; any ciphertext of 16 bytes, validly signed
func C18Ahead() {
	g := newGroup(sym.Choose("mode", 2), 0)
	it, id := sym.Uint32("at"), sym.Uint32("id")
	kp := g.seed(id, it)
	u := g.join()
	at := sym.Uint32("iteration")
	ahead := at > it && at-it > 2000
	if ahead {
		sym.Reach("ahead")
	} else {
		sym.Assume(at < it)
		sym.Reach("behind")
	}
	before := g.held(u)
	m := protocol.NewSenderKeyMessage(id, at, sym.Bytes("body", 16), kp.PrivateKey(), g.a.ser.SenderKeyMessage)
	_, err := grecv(u, g.name, m.SignedSerialize())
	sym.Assert(err != nil, "rejected")
	sym.Assert(sym.SameBytes(g.held(u), before), "nothing kept")
}

// C18Exact: the limit counts from the position reached.
//gosym:prop=C18 tier=both shard=mode:2 shard=at:5 shard=over:3 reach=ok
//gosym:bound messages 1999 to 2003 ahead of positions 0, 1, 1999, 2000 (both formats) and any other below 2^32-10000 (JSON)
func C18Exact() {
	g := newGroup(sym.Choose("mode", 2), 0)
	at, over := sym.Choose("at", 5), sym.Choose("over", 3)
	it := []uint32{0, 1, 1999, 2000, 3000}[at]
	if at == 4 && g.mode == 1 {
		it = sym.Uint32("at")
		sym.Assume(it < 1<<32-10000)
	}
	g.seed(7, it)
	g.join()
	u := g.rx[0]
	first := g.send()
	g.skip(1999)
	near := g.send()
	g.skip(over)
	far := g.send()
	if sym.Choose("read", 2) == 1 {
		// one step closer: near is 1999 ahead
		g.deliver(0, first, "first")
		g.deliver(0, near, "1999 ahead")
		g.deliver(0, far, "next")
		sym.Reach("ok")
		return
	}
	before, n := g.held(u), u.st.skStores
	_, err := grecv(u, g.name, g.sent[far])
	sym.Assert(err != nil, "more than 2000 ahead rejected")
	sym.Assert(u.st.skStores == n && sym.SameBytes(g.held(u), before), "nothing kept")
	g.deliver(0, near, "2000 ahead")
	sym.Assert(g.keys(0) == 2000, "2000 skipped keys")
	g.deliver(0, far, "no longer too far ahead")
	if over > 0 {
		_, err = grecv(u, g.name, g.sent[first])
		sym.Assert(err != nil, "the oldest skipped key is dropped")
	} else {
		g.deliver(0, first, "the oldest skipped key")
	}
	sym.Reach("ok")
}

// C18Keys: at most 2000 skipped keys are kept, the newest.
//gosym:prop=C18 tier=both shard=mode:2 shard=more:4:2 reach=ok
//gosym:bound 2000 skipped messages, then 3 (thorough: also 1, 2, 1999) more
func C18Keys() {
	g := newGroup(sym.Choose("mode", 2), 1)
	more := []int{3, 1, 2, 1999}[sym.Choose("more", 4)]
	first := g.send()
	g.skip(more - 1)
	kept := g.send()
	g.skip(2000 - more - 1)
	g.deliver(0, g.send(), "2000 ahead")
	sym.Assert(g.keys(0) == 2000, "2000 skipped keys")
	g.skip(more - 1)
	last := g.send()
	g.deliver(0, g.send(), "further ahead")
	sym.Assert(g.keys(0) == 2000, "no more than 2000 skipped keys")
	_, err := grecv(g.rx[0], g.name, g.sent[first])
	sym.Assert(err != nil, "the oldest skipped key is dropped")
	g.deliver(0, kept, "oldest kept")
	g.deliver(0, last, "newest kept")
	sym.Assert(g.keys(0) == 1998, "used keys are dropped")
	sym.Reach("ok")
}

// keys is the number of skipped keys member r keeps.
func (g *group) keys(r int) int {
	s, err := g.rx[r].ser.SenderKeyRecord.Deserialize(g.held(g.rx[r]))
	sym.Assert(err == nil && len(s.SenderKeyStates) == 1, "one state")
	return len(s.SenderKeyStates[0].Keys)
}

// C18States: a record keeps a bounded number of states, the newest.
//gosym:prop=C18 tier=both shard=extra:3 shard=ids:4 reach=ok
//gosym:bound 2001, 2002 and 2010 states, of different keys, of one, of two in turn, and of one from the 1990th on
func C18States() {
	s := serializerN(0)
	n := 2000 + []int{1, 2, 10}[sym.Choose("extra", 3)]
	ids := sym.Choose("ids", 4)
	id := func(i int) uint32 {
		switch {
		case ids == 1, ids == 3 && i > 1990:
			return 5000
		case ids == 2:
			return uint32(5000 + i%2)
		}
		return uint32(i)
	}
	r := grecord.NewSenderKey(s.SenderKeyRecord, s.SenderKeyState)
	key, _ := ecc.DecodePoint(point("sign"), 0)
	ck := sym.Bytes("chain", 32)
	for i := 0; i < n; i++ {
		r.AddSenderKeyState(id(i), uint32(i), ck, key)
	}
	st, err := s.SenderKeyRecord.Deserialize(r.Serialize())
	sym.Assert(err == nil && len(st.SenderKeyStates) == 2000, "2000 states kept")
	for i, x := range st.SenderKeyStates {
		sym.Assert(x.KeyID == id(n-2000+i) && x.SenderChainKey.Iteration == uint32(n-2000+i), "the newest are kept")
	}
	for i := 0; i < n && ids == 0; i++ {
		if i > n-2010 && i > 20 && i < n-5 {
			continue
		}
		x, err := r.GetSenderKeyStateByID(uint32(i))
		sym.Assert((err == nil) == (i >= n-2000), "the newest are kept")
		if err == nil {
			sym.Assert(x.KeyID() == uint32(i) && x.SenderChainKey().Iteration() == uint32(i), "state")
		}
	}
	sym.Reach("ok")
}

// C15Sizes: messages of any length are read in any order.
//
//gosym:prop=C15 tier=both shard=size:21 reach=ok cost=3
//gosym:bound texts of 0, 1, 15..17, 31, 32, 100, 111, 112, 127..129, 255, 256, 1000, 4095, 4096, 16300, 16384 and 66000 bytes of any content, in and out of order; both formats
func C15Sizes() {
	n := lengths[sym.Choose("size", len(lengths))]
	g := newGroup(sym.Choose("mode", 2), 1)
	for i := 0; i < 3; i++ {
		g.text = append(g.text, sym.Bytes("text", n))
		g.sent = append(g.sent, gsend(g.a, g.name, g.text[i]))
	}
	for _, i := range []int{0, 2, 1} {
		g.deliver(0, i, "message")
	}
	sym.Reach("ok")
}

// C16Long: a long group message altered anywhere is rejected.
//
//gosym:prop=C16 tier=both shard=size:6 shard=mode:2 reach=rejected,accepted cost=3 secs=120
//gosym:bound texts of 47, 100, 300, 1000, 1500 and 4500 bytes, every change of the ciphertext, also one block more or less
func C16Long() {
	n := append(longs, 4500)[sym.Choose("size", 6)]
	g := newGroup(sym.Choose("mode", 2), 1)
	pt := sym.Bytes("text", n)
	b := gsend(g.a, g.name, pt)
	sym.Honest()
	u := g.rx[0]
	st, err := u.ser.SenderKeyMessage.Deserialize(clone(b))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return
	}
	db := sym.AttackerBytes("dbody", len(st.CipherText))
	clean := zero(db)
	st.CipherText = xor(st.CipherText, db)
	switch sym.Choose("shape", 3) {
	case 1:
		st.CipherText, clean = append(st.CipherText, sym.AttackerBytes("extra", 16)...), false
	case 2:
		st.CipherText, clean = st.CipherText[:len(st.CipherText)-16], false
	}
	m, err := protocol.NewSenderKeyMessageFromStruct(st, u.ser.SenderKeyMessage)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	got, err := u.gcipher(g.name).Decrypt(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.And(clean, sym.EqBytes(got, pt)), "altered message rejected")
	sym.Reach("accepted")
}
