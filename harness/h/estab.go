package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/medium"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// structure is the persistent form of u's session with peer.
func structure(u, peer *user) *record.SessionStructure {
	s, err := u.ser.Session.Deserialize(u.st.LoadSession(peer.addr).Serialize())
	sym.Assert(err == nil, "session record deserialises")
	if err != nil {
		sym.Assume(false)
	}
	return s
}

func put(u, peer *user, s *record.SessionStructure) {
	r, err := record.NewSessionFromStructure(s, u.ser.Session, u.ser.State)
	sym.Assert(err == nil, "session record rebuilds")
	if err != nil {
		sym.Assume(false)
	}
	u.st.StoreSession(peer.addr, r)
}

// shift moves the chain from user u to user v, on which both ends are at the
// same point, to position n: the chain key at n is as good as any other.
func shift(u, v *user, n uint32) {
	s := structure(u, v)
	sc := s.SessionState.SenderChain
	sc.ChainKey.Index = n
	r := structure(v, u)
	found := false
	for _, c := range r.SessionState.ReceiverChains {
		if sym.EqBytes(c.SenderRatchetKeyPublic, sc.SenderRatchetKeyPublic) {
			c.ChainKey.Index = n
			found = true
		}
	}
	if !found {
		sym.Assume(false)
	}
	put(u, v, s)
	put(v, u, r)
}

// parsed returns the signal message inside a wire message.
func parsed(u *user, w wire) *protocol.SignalMessageStructure {
	b := w.b
	if w.t == protocol.PREKEY_TYPE {
		p, err := u.ser.PreKeySignalMessage.Deserialize(append([]byte{}, b...))
		if err != nil {
			sym.Assert(false, "message parses")
			sym.Assume(false)
		}
		b = p.Message
	}
	s, err := u.ser.SignalMessage.Deserialize(append([]byte{}, b...))
	if err != nil {
		sym.Assert(false, "message parses")
		sym.Assume(false)
	}
	return s
}

func skipped(s *record.StateStructure) int {
	n := 0
	for _, c := range s.ReceiverChains {
		n += len(c.MessageKeys)
	}
	return n
}

// C06Ahead: a message too far ahead is rejected, whatever it contains.
//gosym:prop=C06 tier=both shard=mode:2 shard=new:2 reach=ok
//gosym:bound every chain position and every counter more than 5000 ahead of it, in the current and in a new chain, any contents
func C06Ahead() {
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	p := []byte("x")
	deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	n := sym.Uint32("n")
	if sym.Choose("new", 2) == 1 {
		deliver(c.a, c.ca, send(c.cb, p), p, "setup")
		n = 0
	} else {
		sym.Assume(n < 1<<32-10)
		shift(c.a, c.b, n)
	}
	w := send(c.ca, p)
	before := snapshot(c.b, c.a)
	st := parsed(c.b, w)
	sym.Assert(st.Counter == n, "counter is the position in the chain")
	k := sym.Uint32("k")
	sym.Assume(k > 5000)
	sym.Assume(n+k >= n)
	st.Counter = n + k
	st.Mac = sym.Bytes("mac", 8)
	st.CipherText = sym.Bytes("body", 16)
	m, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
	sym.Assume(err == nil)
	_, err = c.cb.Decrypt(m)
	sym.Assert(err != nil, "message too far ahead rejected")
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged")
	deliver(c.b, c.cb, w, p, "afterwards")
	sym.Reach("ok")
}

// C06Ahead5000: a genuine message exactly 5000 ahead decrypts, one further
// ahead is rejected.
//gosym:prop=C06 tier=both shard=gap:4 shard=at:5 reach=ok secs=300
//gosym:bound genuine messages 4999, 5000, 5001 and 5002 ahead of chain positions 0, 1, 4999, 5001 and 2^31, all keys
func C06Ahead5000() {
	gap := 4999 + sym.Choose("gap", 4)
	c := newConv(serializerN(1), false, true)
	c.established()
	p := []byte("x")
	if at := []uint32{0, 1, 4999, 5001, 1 << 31}[sym.Choose("at", 5)]; at > 0 {
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		shift(c.a, c.b, at)
	}
	before := send(c.ca, p)
	s := structure(c.a, c.b)
	k := chain.NewKeyFromStruct(s.SessionState.SenderChain.ChainKey, kdf.DeriveSecrets)
	for i := 1; i < gap; i++ {
		k = k.NextKey()
	}
	s.SessionState.SenderChain.ChainKey = chain.NewStructFromKey(k)
	put(c.a, c.b, s)
	w := send(c.ca, p)
	got, err := c.b.recv(c.cb, w)
	if gap > 5000 {
		sym.Assert(err != nil, "more than 5000 ahead rejected")
		deliver(c.b, c.cb, before, p, "next after a rejected message")
	} else {
		sym.Assert(err == nil && sym.EqBytes(got, p), "up to 5000 ahead accepted")
		r := structure(c.b, c.a).SessionState
		sym.Assert(skipped(r) == 2000, "2000 skipped keys are kept")
		_, err = c.b.recv(c.cb, before)
		sym.Assert(err != nil, "the oldest keys are gone")
	}
	deliver(c.a, c.ca, send(c.cb, p), p, "afterwards")
	sym.Reach("ok")
}

// C06Skipped: at most 2000 skipped keys are kept, the newest ones.
//gosym:prop=C06 tier=both shard=have:3 shard=skip:4 reach=ok
//gosym:bound 1998..2000 skipped keys present, 0..3 more messages skipped, any chain position
func C06Skipped() {
	have := 1998 + sym.Choose("have", 3)
	skip := sym.Choose("skip", 4)
	c := newConv(serializerN(0), false, true)
	c.established()
	p := []byte("x")
	deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	n := sym.Uint32("n")
	sym.Assume(n >= 2000 && n < 1<<32-10)
	shift(c.a, c.b, n)
	s := structure(c.b, c.a)
	ch := s.SessionState.ReceiverChains[len(s.SessionState.ReceiverChains)-1]
	for i := 0; i < have; i++ {
		k := make([]byte, 32)
		k[0], k[1] = byte(i), byte(i>>8)
		ch.MessageKeys = append(ch.MessageKeys, &message.KeysStructure{CipherKey: k, MacKey: k, IV: k[:16], Index: n - uint32(have) + uint32(i)})
	}
	put(c.b, c.a, s)
	var lost []wire
	for i := 0; i < skip; i++ {
		lost = append(lost, send(c.ca, p))
	}
	deliver(c.b, c.cb, send(c.ca, p), p, "after a gap")
	st := c.b.st.LoadSession(c.a.addr)
	r := structure(c.b, c.a).SessionState
	_ = st
	got := r.ReceiverChains[len(r.ReceiverChains)-1].MessageKeys
	want := have + skip
	if want > 2000 {
		want = 2000
	}
	sym.Assert(len(got) == want, "at most 2000 skipped keys")
	for i, k := range got {
		sym.Assert(k.Index == n+uint32(skip)-uint32(want)+uint32(i), "the newest are kept")
	}
	for _, w := range lost {
		deliver(c.b, c.cb, w, p, "late delivery")
	}
	sym.Assert(len(structure(c.b, c.a).SessionState.ReceiverChains[len(r.ReceiverChains)-1].MessageKeys) == want-skip, "used keys are gone")
	sym.Reach("ok")
}

// C06Chains: at most five receiver chains; the newest five keep working.
//gosym:prop=C06 tier=both shard=mode:2 shard=rounds:8:8 reach=ok
//gosym:bound 1..8 round trips, one message of every chain withheld and delivered at the end
func C06Chains() {
	mode := sym.Choose("mode", 2)
	rounds := 1 + sym.Choose("rounds", 8)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	p := []byte("x")
	var late []wire
	for i := 0; i < rounds; i++ {
		late = append(late, send(c.ca, p))
		deliver(c.b, c.cb, send(c.ca, p), p, "round")
		deliver(c.a, c.ca, send(c.cb, p), p, "round")
		sym.Assert(len(structure(c.b, c.a).SessionState.ReceiverChains) <= 5, "at most five receiver chains")
		sym.Assert(len(structure(c.a, c.b).SessionState.ReceiverChains) <= 5, "at most five receiver chains")
	}
	for i, w := range late {
		_, err := c.b.recv(c.cb, w)
		sym.Assert((err == nil) == (i >= rounds-5), "the newest five chains, and only those, still decrypt")
	}
	sym.Reach("ok")
}

// C06Archive: at most forty previous sessions are kept, the newest ones.
//gosym:prop=C06 tier=both shard=n:5 reach=ok
//gosym:bound 38..42 session resets
func C06Archive() {
	n := 38 + sym.Choose("n", 5)
	ser := serializerN(0)
	r := record.NewSession(ser.Session, ser.State)
	r.SessionState().SetVersion(100)
	for i := 0; i < n; i++ {
		r.ArchiveCurrentState()
		r.SessionState().SetVersion(101 + i)
		want := i + 1
		if want > 40 {
			want = 40
		}
		sym.Assert(len(r.PreviousSessionStates()) == want, "at most forty previous states")
	}
	sym.Assert(r.SessionState().Version() == 100+n, "the current state")
	for i, s := range r.PreviousSessionStates() {
		sym.Assert(s.Version() == 100+n-1-i, "the newest states are kept, newest first")
	}
	sym.Reach("ok")
}

// C06ArchiveFull: the same through the session builder.
//gosym:prop=C06 tier=both shard=n:3:1 reach=ok
//gosym:bound 42 (thorough: 20, 41 and 42) session resets by one user, one message of every session withheld and then decrypted by the other
func C06ArchiveFull() {
	n := sizes(sym.Choose("n", 3), 42, 41, 20)
	if n < 3 {
		n = 41
	}
	c := newConv(serializerN(0), true, false)
	p := []byte("x")
	var late []wire
	for i := 0; i < n; i++ {
		w := send(c.ca, p)
		deliver(c.b, c.cb, w, p, "first of a session")
		late = append(late, send(c.cb, p))
		sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(false)) == nil, "bundle accepted")
		want := i + 1
		if want > 40 {
			want = 40
		}
		sym.Assert(len(structure(c.a, c.b).PreviousStates) == want, "at most forty previous states")
	}
	k := n - 41
	if k >= 0 {
		_, err := c.a.recv(c.ca, late[k])
		sym.Assert(err != nil, "an evicted session does not decrypt")
	}
	deliver(c.a, c.ca, late[k+1], p, "oldest archived session")
	deliver(c.a, c.ca, late[n-1], p, "newest archived session")
	sym.Assert(len(structure(c.a, c.b).PreviousStates) <= 40, "at most forty previous states")
	sym.Reach("ok")
}


// used collects the secrets of messages as they are decrypted.
type used struct{ cipher, mac, iv []byte }

func open(u *user, c *session.Cipher, w wire, want []byte) used {
	var got []byte
	var k *message.Keys
	var err error
	if w.t == protocol.PREKEY_TYPE {
		m, e := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, w.b...), u.ser.PreKeySignalMessage, u.ser.SignalMessage)
		sym.Assert(e == nil, "message parses")
		got, k, err = c.DecryptMessageReturnKey(m)
	} else {
		m, e := protocol.NewSignalMessageFromBytes(append([]byte{}, w.b...), u.ser.SignalMessage)
		sym.Assert(e == nil, "message parses")
		got, k, err = c.DecryptAndGetKey(m)
	}
	sym.Assert(err == nil && sym.EqBytes(got, want), "decrypts")
	if err != nil {
		sym.Assume(false)
	}
	return used{append([]byte{}, k.CipherKey()...), append([]byte{}, k.MacKey()...), append([]byte{}, k.Iv()...)}
}

// held is every byte string in a stored session, archived states included.
func held(r *record.SessionStructure) (out [][]byte) {
	ch := func(c *record.ChainStructure) {
		if c == nil {
			return
		}
		out = append(out, c.SenderRatchetKeyPublic, c.SenderRatchetKeyPrivate)
		if c.ChainKey != nil {
			out = append(out, c.ChainKey.Key)
		}
		for _, k := range c.MessageKeys {
			out = append(out, k.CipherKey, k.MacKey, k.IV)
		}
	}
	for _, s := range append([]*record.StateStructure{r.SessionState}, r.PreviousStates...) {
		out = append(out, s.RootKey, s.SenderBaseKey, s.LocalIdentityPublic, s.RemoteIdentityPublic)
		ch(s.SenderChain)
		for _, c := range s.ReceiverChains {
			ch(c)
		}
		if k := s.PendingKeyExchange; k != nil {
			out = append(out, k.LocalBaseKeyPublic, k.LocalBaseKeyPrivate, k.LocalRatchetKeyPublic, k.LocalRatchetKeyPrivate, k.LocalIdentityKeyPublic, k.LocalIdentityKeyPrivate)
		}
		if k := s.PendingPreKey; k != nil {
			out = append(out, k.BaseKey)
		}
	}
	return out
}

// gone asserts that none of the secrets occurs in u's session with v.
func gone(u, v *user, what string, secrets ...[]byte) {
	for _, b := range held(structure(u, v)) {
		for _, x := range secrets {
			if len(x) > 0 && len(b) == len(x) {
				sym.Assert(!sym.EqBytes(b, x), what)
			}
		}
	}
}

// C07Keys: every message has its own keys, and they are gone once used.
//gosym:prop=C07 tier=both shard=mode:2 shard=order:6 reach=ok
//gosym:bound three messages in a chain in every order of delivery, then three in the opposite and three in the next chain; every chain position of the first chain
func C07Keys() {
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	p := []byte("x")
	deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	n := sym.Uint32("n")
	sym.Assume(n < 1<<32-10)
	shift(c.a, c.b, n)
	perm := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	var keys []used
	var chains [][]byte
	round := func(u, v *user, cu, cv *session.Cipher, start uint32) {
		var ws [3]wire
		var rk []byte
		base := len(chains)
		for i := range ws {
			s := structure(u, v).SessionState.SenderChain
			chains = append(chains, s.ChainKey.Key)
			sym.Assert(len(s.MessageKeys) == 0, "a sender keeps no message keys")
			sym.Assert(s.ChainKey.Index == start+uint32(i), "position in the sending chain")
			ws[i] = send(cu, p)
			m := parsed(u, ws[i])
			sym.Assert(m.Counter == start+uint32(i), "consecutive counters")
			sym.Assert(rk == nil || sym.EqBytes(rk, m.RatchetKey), "one ratchet key per chain")
			rk = m.RatchetKey
			sym.Assert(sym.EqBytes(rk, structure(u, v).SessionState.SenderChain.SenderRatchetKeyPublic), "the chain's ratchet key")
		}
		for i, j := range perm {
			k := open(v, cv, ws[j], p)
			for _, o := range keys {
				sym.Assert(!sym.EqBytes(k.cipher, o.cipher), "cipher keys differ")
				sym.Assert(!sym.EqBytes(k.mac, o.mac), "mac keys differ")
				sym.Assert(!sym.EqBytes(k.iv, o.iv), "ivs differ")
			}
			sym.Assert(!sym.EqBytes(k.cipher, k.mac), "cipher and mac key differ")
			keys = append(keys, k)
			st := structure(v, u).SessionState
			top := 0
			for _, x := range perm[:i+1] {
				if x > top {
					top = x
				}
			}
			for _, ch := range st.ReceiverChains {
				if sym.EqBytes(ch.SenderRatchetKeyPublic, rk) {
					sym.Assert(ch.ChainKey.Index == start+uint32(top)+1, "position in the receiving chain")
					sym.Assert(len(ch.MessageKeys) == top-i, "only skipped keys are kept")
				}
				for _, x := range chains[:base+top+1] {
					sym.Assert(!sym.EqBytes(ch.ChainKey.Key, x), "used chain keys are gone")
				}
				for _, mk := range ch.MessageKeys {
					for _, o := range keys {
						sym.Assert(!sym.EqBytes(mk.CipherKey, o.cipher) && !sym.EqBytes(mk.MacKey, o.mac), "used message keys are gone")
					}
				}
			}
		}
		st := structure(u, v).SessionState.SenderChain.ChainKey
		for _, x := range chains {
			sym.Assert(!sym.EqBytes(st.Key, x), "the sender's used chain keys are gone")
		}
		for _, x := range [][2]*user{{u, v}, {v, u}} {
			for _, k := range keys {
				gone(x[0], x[1], "used message keys are gone", k.cipher, k.mac, k.iv)
			}
			gone(x[0], x[1], "used chain keys are gone", chains...)
		}
	}
	round(c.a, c.b, c.ca, c.cb, n)
	round(c.b, c.a, c.cb, c.ca, 0)
	round(c.a, c.b, c.ca, c.cb, 0)
	sym.Reach("ok")
}

// C07Ratchet: a new chain on every change of direction.
//gosym:prop=C07 tier=both shard=mode:2 shard=k:4 reach=ok
//gosym:bound 0..3 messages sent in a chain before the direction changes, every chain position, three changes
func C07Ratchet() {
	mode := sym.Choose("mode", 2)
	k := sym.Choose("k", 4)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	p := []byte("x")
	deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	n := sym.Uint32("n")
	sym.Assume(n > 0 && n < 1<<32-10)
	shift(c.a, c.b, n)
	for i := 0; i < k; i++ {
		deliver(c.b, c.cb, send(c.ca, p), p, "chain")
	}
	prev := n + uint32(k) - 1
	var keys, roots, privs [][]byte
	for i := 0; i < 3; i++ {
		old := structure(c.a, c.b).SessionState
		deliver(c.a, c.ca, send(c.cb, p), p, "reply")
		st := structure(c.a, c.b).SessionState
		sc := st.SenderChain
		sym.Assert(sc.ChainKey.Index == 0, "a new sending chain starts at 0")
		sym.Assert(st.PreviousCounter == prev, "the last counter of the chain before")
		keys = append(keys, old.SenderChain.SenderRatchetKeyPublic)
		roots = append(roots, old.RootKey)
		privs = append(privs, old.SenderChain.SenderRatchetKeyPrivate)
		for j := range keys {
			sym.Assert(!sym.EqBytes(sc.SenderRatchetKeyPublic, keys[j]), "a new ratchet key")
			sym.Assert(!sym.EqBytes(sc.SenderRatchetKeyPrivate, privs[j]), "the old private ratchet key is gone")
			sym.Assert(!sym.EqBytes(st.RootKey, roots[j]), "a new root key")
		}
		gone(c.a, c.b, "the old private ratchet key is gone", privs...)
		gone(c.a, c.b, "the old root key is gone", roots...)
		o, _ := ecc.GenerateKeyPair()
		var pr [32]byte
		copy(pr[:], sc.SenderRatchetKeyPrivate)
		pub, err := ecc.DecodePoint(sc.SenderRatchetKeyPublic, 0)
		sym.Assert(err == nil && agrees(ecc.NewECKeyPair(pub, ecc.NewDjbECPrivateKey(pr)), o), "ratchet key halves belong together")
		for j := 0; j <= i; j++ {
			w := send(c.ca, p)
			m := parsed(c.a, w)
			sym.Assert(m.Counter == uint32(j) && m.PreviousCounter == prev, "counters on the wire")
			sym.Assert(sym.EqBytes(m.RatchetKey, sc.SenderRatchetKeyPublic), "ratchet key on the wire")
			deliver(c.b, c.cb, w, p, "new chain")
		}
		prev = uint32(i)
	}
	sym.Reach("ok")
}

// C07Previous: an unused chain counts as zero messages.
//gosym:prop=C07 tier=both shard=mode:2 reach=ok
//gosym:bound chains without messages
func C07Previous() {
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	p := []byte("x")
	deliver(c.b, c.cb, send(c.ca, p), p, "first")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	// b's chain from the signed prekey was never used
	w := send(c.cb, p)
	sym.Assert(parsed(c.b, w).PreviousCounter == 0, "no previous messages")
	deliver(c.a, c.ca, w, p, "second reply")
	w = send(c.ca, p)
	sym.Assert(parsed(c.a, w).PreviousCounter == 0 && parsed(c.a, w).Counter == 0, "one previous message")
	deliver(c.b, c.cb, w, p, "third")
	sym.Reach("ok")
}

// C08Bundle: a bundle is accepted only with the owner's signature on its
// signed prekey and a trusted identity.
//gosym:prop=C08 tier=both shard=what:7 shard=est:2 shard=mode:2 reach=rejected,accepted
//gosym:bound every change of the signed prekey, its signature, the identity key; missing signed prekey; untrusted identity; without and with an existing session
func C08Bundle() {
	what := sym.Choose("what", 7)
	mode := sym.Choose("mode", 2)
	c := &conv{}
	ser := serializerN(1 - mode)
	c.a = newUser("alice", ser, mode == 1, 1001, 31, 41)
	c.b = newUser("bob", ser, mode == 1, 1002, 32, 42)
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	est := sym.Choose("est", 2) == 1
	if est {
		sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
		c.established()
	}
	c.a.st.trustAll = true
	before := snapshot(c.a, c.b)
	n, sv := c.a.st.stores, c.a.st.saves
	sym.Honest()
	spk := c.b.spk.KeyPair().PublicKey()
	sig := c.b.spk.Signature()
	id := c.b.st.id.PublicKey()
	clean := true
	var signed ecc.ECPublicKeyable = spk
	switch what {
	case 0:
	case 1:
		signed = nil
		clean = false
	case 2:
		c.a.st.trustAll, c.a.st.trustNone = false, true
		clean = false
	case 3:
		d := sym.AttackerBytes("dsig", 64)
		clean = zero(d)
		copy(sig[:], xor(sig[:], d))
	case 4:
		d := sym.AttackerBytes("dspk", 32)
		clean = zero(d)
		k := spk.PublicKey()
		copy(k[:], xor(k[:], d))
		signed = ecc.NewDjbECPublicKey(k)
	case 5:
		// the identity of somebody else
		o := newUser("carol", ser, mode == 1, 1003, 33, 43)
		id = o.st.id.PublicKey()
		clean = false
	case 6:
		// a prekey signed by somebody else
		o := newUser("carol", ser, mode == 1, 1003, 33, 43)
		signed, sig = o.spk.KeyPair().PublicKey(), o.spk.Signature()
		clean = false
	}
	pid := optional.NewOptionalUint32(c.b.pk.ID().Value)
	err := c.a.builder(c.b).ProcessBundle(prekey.NewBundle(c.b.st.regID, 1, pid, c.b.spk.ID(), c.b.pk.KeyPair().PublicKey(), signed, sig, id))
	if err != nil {
		sym.Assert(!clean, "genuine bundle accepted")
		sym.Assert(c.a.st.stores == n && c.a.st.saves == sv, "nothing stored after a rejected bundle")
		sym.Assert(sym.SameBytes(snapshot(c.a, c.b), before), "session unchanged after a rejected bundle")
		sym.Reach("rejected")
		return
	}
	sym.Assert(clean, "altered bundle rejected")
	sym.Assert(c.a.st.stores == n+1 && c.a.st.saves == sv+1, "session and identity stored")
	sym.Reach("accepted")
}

// C08Message: a first message is accepted only from a trusted identity and
// for prekeys that exist; anything else is an error without effect.
//gosym:prop=C08 tier=both shard=mode:2 shard=est:2 reach=rejected,accepted
//gosym:bound every signed and one-time prekey id in a first message, untrusted identities; without and with an existing session
func C08Message() {
	mode := sym.Choose("mode", 2)
	est := sym.Choose("est", 2) == 1
	c := newConv(serializerN(1-mode), mode == 1, true)
	if est {
		c.established()
		c.b.addPre(43)
		c.a.st.DeleteSession(c.b.addr)
		sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
	}
	pt := []byte("text")
	w := send(c.ca, pt)
	st, err := c.b.ser.PreKeySignalMessage.Deserialize(append([]byte{}, w.b...))
	sym.Assert(err == nil, "message parses")
	sid, oid := sym.Uint32("sid"), sym.Uint32("oid")
	noID := sym.Choose("noid", 2) == 1
	st.SignedPreKeyID = sid
	st.PreKeyID = optional.NewOptionalUint32(oid)
	if noID {
		st.PreKeyID = nil
		oid = 0
	}
	clean := sym.And(sid == c.b.spk.ID(), oid == c.b.pk.ID().Value)
	if sym.Choose("untrusted", 2) == 1 {
		c.b.st.trustNone = true
		clean = false
	}
	m, err := protocol.NewPreKeySignalMessageFromStruct(st, c.b.ser.PreKeySignalMessage, c.b.ser.SignalMessage)
	sym.Assert(err == nil, "message rebuilds")
	before := snapshot(c.b, c.a)
	n, sv := c.b.st.stores, c.b.st.saves
	np := len(c.b.st.pre)
	got, err := c.cb.DecryptMessage(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Assert(c.b.st.stores == n && len(c.b.st.pre) == np, "nothing stored or removed")
		sym.Assert(!c.b.st.trustNone || c.b.st.saves == sv, "an untrusted identity is not saved")
		sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged")
		sym.Reach("rejected")
		return
	}
	sym.Assert(clean && sym.EqBytes(got, pt), "only the genuine message accepted")
	sym.Reach("accepted")
}

// C08Named: a one-time prekey that is named has to exist and to be used.
//gosym:prop=C08 tier=both shard=mode:2 shard=id:5 shard=have:2 reach=ok
//gosym:bound first messages of a sender who names a one-time prekey without using it: ids 0, 1, 0xffffff, 0x1000000, 2^32-1, in the store or not; with and without a session
func C08Named() {
	mode := sym.Choose("mode", 2)
	id := []uint32{0, 1, medium.MaxValue, medium.MaxValue + 1, 1<<32 - 1}[sym.Choose("id", 5)]
	have := sym.Choose("have", 2) == 1
	c := newConv(serializerN(1-mode), mode == 1, true)
	if sym.Choose("est", 2) == 1 {
		c.established()
	}
	c.a.st.DeleteSession(c.b.addr)
	if have {
		c.b.addPre(id)
	}
	err := c.a.builder(c.b).ProcessBundle(prekey.NewBundle(c.b.st.regID, 1, optional.NewOptionalUint32(id), c.b.spk.ID(), nil,
		c.b.spk.KeyPair().PublicKey(), c.b.spk.Signature(), c.b.st.id.PublicKey()))
	if err != nil {
		sym.Reach("ok")
		return
	}
	w := send(c.ca, []byte("x"))
	before := snapshot(c.b, c.a)
	n, np := c.b.st.stores, len(c.b.st.pre)
	_, err = c.b.recv(c.cb, w)
	sym.Assert(err != nil, "rejected")
	sym.Assert(c.b.st.stores == n && len(c.b.st.pre) == np, "nothing stored or removed")
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "session unchanged")
	sym.Reach("ok")
}

// C09PreKey: a one-time prekey is removed exactly when a first message that
// used it has been decrypted; the last-resort key never is.
//gosym:prop=C09 tier=both shard=mode:2 shard=how:4 reach=ok
//gosym:bound every one-time prekey id (ids 0, 1, the last-resort id and any other); first messages genuine, without one-time prekey, repeated, second message before the reply
func C09PreKey() {
	mode := sym.Choose("mode", 2)
	how := sym.Choose("how", 4)
	c := &conv{}
	ser := serializerN(1 - mode)
	id := []uint32{0, 1, medium.MaxValue, 5, medium.MaxValue + 1, 1<<32 - 1}[sym.Choose("id", 6)]
	c.a = newUser("alice", ser, mode == 1, 1001, 31, 41)
	c.b = newUser("bob", ser, mode == 1, 1002, 32, id)
	c.b.addPre(77)
	c.b.pk = c.b.st.pre[id]
	sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(how != 1)) == nil, "bundle accepted")
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	p := []byte("x")
	w := send(c.ca, p)
	sym.Assert(c.b.st.ContainsPreKey(id), "kept before")
	deliver(c.b, c.cb, w, p, "first")
	gone := how != 1 && id != medium.MaxValue
	sym.Assert(c.b.st.ContainsPreKey(id) == !gone, "removed exactly when used")
	sym.Assert(c.b.st.ContainsPreKey(77), "other prekeys are kept")
	want := 0
	if gone {
		want = 1
	}
	sym.Assert(len(c.b.st.removed) == want, "removed once")
	switch how {
	case 2:
		deliver(c.b, c.cb, send(c.ca, p), p, "second first message")
		sym.Assert(len(c.b.st.removed) == want, "removed once")
	case 3:
		_, err := c.b.recv(c.cb, w)
		sym.Assert(err != nil, "repeated first message rejected")
		sym.Assert(len(c.b.st.removed) == want, "removed once")
		c.b.st.DeleteSession(c.a.addr)
		_, err = c.b.recv(c.cb, w)
		sym.Assert((err != nil) == gone, "a first message cannot be used again once its prekey is gone")
	}
	sym.Reach("ok")
}

// C10Ack: a session initiator sends prekey messages until the first reply is
// decrypted, and the prekeys they name do not change.
//gosym:prop=C10 tier=both shard=mode:2 shard=pre:2 reach=ok
//gosym:bound 1..3 messages before the replies, 1..3 replies of which any arrives first, every alteration of its ciphertext
func C10Ack() {
	mode := sym.Choose("mode", 2)
	pre := sym.Choose("pre", 2) == 1
	c := newConv(serializerN(1-mode), mode == 1, pre)
	p := []byte("x")
	n := 1 + sym.Choose("n", 3)
	check := func(w wire) {
		sym.Assert(w.t == protocol.PREKEY_TYPE, "a prekey message until the first reply")
		m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, w.b...), c.a.ser.PreKeySignalMessage, c.a.ser.SignalMessage)
		sym.Assert(err == nil, "parses")
		sym.Assert(m.SignedPreKeyID() == c.b.spk.ID(), "signed prekey id")
		has := m.PreKeyID() != nil && !m.PreKeyID().IsEmpty
		sym.Assert(has == pre && (!pre || m.PreKeyID().Value == c.b.pk.ID().Value), "one-time prekey id")
		sym.Assert(m.RegistrationID() == c.a.st.regID, "registration id")
		sym.Assert(sym.EqBytes(m.IdentityKey().Serialize(), c.a.st.id.PublicKey().Serialize()), "identity key")
		sym.Assert(sym.EqBytes(m.BaseKey().Serialize(), structure(c.a, c.b).SessionState.SenderBaseKey), "base key")
	}
	var ws []wire
	for i := 0; i < n; i++ {
		w := send(c.ca, p)
		check(w)
		ws = append(ws, w)
	}
	last := sym.Choose("last", n)
	deliver(c.b, c.cb, ws[last], p, "one of the first messages")
	var rs []wire
	for i := 1 + sym.Choose("replies", 3); i > 0; i-- {
		w := send(c.cb, p)
		sym.Assert(w.t == protocol.WHISPER_TYPE, "the responder sends plain messages")
		rs = append(rs, w)
	}
	first := sym.Choose("first", len(rs))
	w := rs[first]
	sym.Honest()
	st := parsed(c.b, w)
	d := sym.AttackerBytes("dbody", 16)
	sym.Assume(!zero(d))
	st.CipherText = xor(st.CipherText, d)
	if m, err := protocol.NewSignalMessageFromStruct(st, c.a.ser.SignalMessage); err == nil {
		_, err = c.ca.Decrypt(m)
		sym.Assert(err != nil, "altered reply rejected")
	}
	x := send(c.ca, p)
	check(x)
	deliver(c.a, c.ca, w, p, "reply")
	y := send(c.ca, p)
	sym.Assert(y.t == protocol.WHISPER_TYPE, "plain messages after the first reply")
	deliver(c.b, c.cb, y, p, "plain message")
	deliver(c.b, c.cb, x, p, "late first message")
	for i, l := range ws {
		if i != last {
			deliver(c.b, c.cb, l, p, "late first message")
		}
	}
	for i, l := range rs {
		if i != first {
			deliver(c.a, c.ca, l, p, "other replies")
			sym.Assert(send(c.ca, p).t == protocol.WHISPER_TYPE, "plain messages after later replies")
		}
	}
	w = send(c.cb, p)
	sym.Assert(w.t == protocol.WHISPER_TYPE, "the responder sends plain messages")
	deliver(c.a, c.ca, w, p, "second reply")
	w = send(c.ca, p)
	sym.Assert(w.t == protocol.WHISPER_TYPE, "plain messages ever after")
	deliver(c.b, c.cb, w, p, "plain message")
	sym.Reach("ok")
}

// C10Reset: a new session is announced like the first one.
//gosym:prop=C10 tier=both shard=ser:2 shard=pre:2 shard=side:2 reach=ok
//gosym:bound either side starts a new session from the other's bundle after messages were exchanged; 1..2 messages before the reply, in either order; serialising stores
func C10Reset() {
	pre := sym.Choose("pre", 2) == 1
	c := newConv(serializerN(sym.Choose("ser", 2)), true, false)
	c.established()
	u, v, cu, cv := c.a, c.b, c.ca, c.cb
	if sym.Choose("side", 2) == 1 {
		u, v, cu, cv = v, u, cv, cu
	}
	p := []byte("x")
	old := structure(u, v).SessionState.SenderBaseKey
	sym.Assert(u.builder(v).ProcessBundle(v.bundle(pre)) == nil, "bundle accepted")
	var ws []wire
	for i := 1 + sym.Choose("n", 2); i > 0; i-- {
		w := send(cu, p)
		sym.Assert(w.t == protocol.PREKEY_TYPE, "a prekey message in the new session")
		m, err := protocol.NewPreKeySignalMessageFromBytes(clone(w.b), u.ser.PreKeySignalMessage, u.ser.SignalMessage)
		sym.Assert(err == nil, "parses")
		sym.Assert(!sym.EqBytes(m.BaseKey().Serialize(), old), "a new base key")
		sym.Assert(sym.EqBytes(m.BaseKey().Serialize(), structure(u, v).SessionState.SenderBaseKey), "base key")
		has := m.PreKeyID() != nil && !m.PreKeyID().IsEmpty
		sym.Assert(has == pre && (!pre || m.PreKeyID().Value == v.pk.ID().Value), "one-time prekey id")
		ws = append(ws, w)
	}
	last := sym.Choose("last", len(ws))
	deliver(v, cv, ws[last], p, "first message of the new session")
	w := send(cv, p)
	sym.Assert(w.t == protocol.WHISPER_TYPE, "the responder sends plain messages")
	sym.Assert(send(cu, p).t == protocol.PREKEY_TYPE, "a prekey message until the reply")
	deliver(u, cu, w, p, "reply")
	y := send(cu, p)
	sym.Assert(y.t == protocol.WHISPER_TYPE, "plain messages after the reply")
	deliver(v, cv, y, p, "plain message")
	for i, l := range ws {
		if i != last {
			deliver(v, cv, l, p, "late first message")
		}
	}
	w = send(cv, p)
	sym.Assert(w.t == protocol.WHISPER_TYPE, "the responder sends plain messages")
	deliver(u, cu, w, p, "next reply")
	sym.Reach("ok")
}
