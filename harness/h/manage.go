package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// ---- C35: a record holds exactly what was put into it ----

// keysAt is the message keys of a position, different for every position.
func keysAt(name string, counter uint32) *message.Keys {
	return message.NewKeys(sym.Bytes(name+"c", 4), sym.Bytes(name+"m", 4), sym.Bytes(name+"i", 4), counter)
}

func sameKeys(a, b *message.Keys) bool {
	return sym.And(sym.EqBytes(a.CipherKey(), b.CipherKey()), sym.EqBytes(a.MacKey(), b.MacKey()), sym.EqBytes(a.Iv(), b.Iv()), a.Index() == b.Index())
}

type refChain struct {
	key   int
	chain *chain.Key
	keys  []*message.Keys
}

// refState is what a session state should hold.
type refState struct {
	chains []refChain
	sender *chain.Key
}

func (r *refState) copy() *refState {
	c := &refState{sender: r.sender}
	for _, x := range r.chains {
		x.keys = append([]*message.Keys{}, x.keys...)
		c.chains = append(c.chains, x)
	}
	return c
}

func (r *refState) at(key int) *refChain {
	for i := range r.chains {
		if r.chains[i].key == key {
			return &r.chains[i]
		}
	}
	return nil
}

func (r *refState) check(s *record.State, pubs []ecc.ECPublicKeyable, q uint32) {
	sym.Assert(s.HasSenderChain() == (r.sender != nil), "sender chain present")
	if r.sender != nil {
		k := s.SenderChainKey()
		sym.Assert(sym.And(sym.EqBytes(k.Key(), r.sender.Key()), k.Index() == r.sender.Index()), "sender chain key")
	}
	for i, p := range pubs {
		c := r.at(i)
		sym.Assert(s.HasReceiverChain(p) == (c != nil), "chain present")
		k := s.ReceiverChainKey(p)
		sym.Assert((k != nil) == (c != nil), "chain key present")
		if c == nil || k == nil {
			sym.Assert(!s.HasMessageKeys(p, q), "message keys without a chain")
			continue
		}
		sym.Assert(sym.And(sym.EqBytes(k.Key(), c.chain.Key()), k.Index() == c.chain.Index()), "chain key")
		has := false
		for _, m := range c.keys {
			has = sym.Or(has, m.Index() == q)
		}
		sym.Assert(s.HasMessageKeys(p, q) == has, "message keys present")
	}
}

// C35State: a session state holds exactly the chains and message keys put into
// it, and copies are independent.
//
//gosym:prop=C35 tier=both shard=op0:7 shard=op1:7 shard=held:2 reach=ok
//gosym:bound four operations (add a chain, replace its key, put and take message keys, sender chain, its key, copy) on an empty state, three on one with three message keys, three ratchet keys, all keys and counters
func C35State() { stateOps(4) }

// C35StateLong: five operations.
//
//gosym:prop=C35 tier=thorough shard=op0:7 shard=op1:7 shard=op2:7 shard=held:2 reach=ok
//gosym:bound five operations
func C35StateLong() { stateOps(5) }

func stateOps(n int) {
	ser := serializerN(0)
	s := record.NewState(ser.State)
	var pubs []ecc.ECPublicKeyable
	for _, x := range []string{"p", "q", "r"} {
		k := sym.Bytes(x, 32)
		for _, o := range pubs {
			b := o.PublicKey()
			sym.Assume(!sym.EqBytes(b[:], k))
		}
		pubs = append(pubs, ecc.NewDjbECPublicKey(key32(k)))
	}
	ref := &refState{}
	var olds []*record.State
	var oldRefs []*refState
	newChain := func(name string) *chain.Key {
		return chain.NewKey(kdf.DeriveSecrets, sym.Bytes(name, 8), sym.Uint32(name+"index"))
	}
	if sym.Choose("held", 2) == 1 {
		n--
		ck := newChain("held")
		s.AddReceiverChain(pubs[0], ck)
		c := refChain{key: 0, chain: ck}
		for i := uint32(0); i < 3; i++ {
			m := keysAt("held", 7+i)
			s.SetMessageKeys(pubs[0], m)
			c.keys = append(c.keys, m)
		}
		ref.chains = append(ref.chains, c)
	}
	for i := 0; i < n; i++ {
		d := string(rune('0' + i))
		op := sym.Choose("op"+d, 7)
		if op < 4 {
			k := sym.Choose("key"+d, 3)
			// the first chain is that of the first key and so on
			sym.Assume(k <= len(ref.chains))
			c := ref.at(k)
			switch op {
			case 0:
				sym.Assume(c == nil)
				ck := newChain("chain" + d)
				s.AddReceiverChain(pubs[k], ck)
				ref.chains = append(ref.chains, refChain{key: k, chain: ck})
			case 1:
				ck := newChain("chain" + d)
				s.SetReceiverChainKey(pubs[k], ck)
				if c != nil {
					c.chain = ck
				}
			case 2:
				m := keysAt("keys"+d, sym.Uint32("counter"+d))
				if c != nil {
					for _, o := range c.keys {
						sym.Assume(o.Index() != m.Index())
					}
					c.keys = append(c.keys, m)
				}
				s.SetMessageKeys(pubs[k], m)
			case 3:
				q := sym.Uint32("counter" + d)
				got := s.RemoveMessageKeys(pubs[k], q)
				found := false
				if c != nil {
					for j, m := range c.keys {
						if m.Index() == q {
							found = true
							sym.Assert(got != nil && sameKeys(got, m), "other message keys taken")
							c.keys = append(append([]*message.Keys{}, c.keys[:j]...), c.keys[j+1:]...)
							break
						}
					}
				}
				sym.Assert(found || got == nil, "message keys of another position taken")
			}
			continue
		}
		switch op {
		case 4:
			ck := newChain("chain" + d)
			priv := key32(sym.Bytes("private"+d, 32))
			s.SetSenderChain(ecc.NewECKeyPair(pubs[0], ecc.NewDjbECPrivateKey(priv)), ck)
			ref.sender = ck
		case 5:
			sym.Assume(ref.sender != nil)
			ck := newChain("chain" + d)
			s.SetSenderChainKey(ck)
			ref.sender = ck
		case 6:
			c, cref := s.Copy(), ref.copy()
			if sym.Choose("copy"+d, 2) == 1 {
				c, s = s, c
				cref, ref = ref, cref
			}
			olds, oldRefs = append(olds, c), append(oldRefs, cref)
		}
	}
	q := sym.Uint32("query")
	ref.check(s, pubs, q)
	for i := range olds {
		oldRefs[i].check(olds[i], pubs, q)
	}
	sym.Reach("ok")
}

// C35Session: a session record keeps its states in order, and finds them.
//
//gosym:prop=C35 tier=both shard=op0:5 shard=op1:5 shard=live:2 reach=ok
//gosym:bound four operations (archive, promote, remove, set, copy) on a record; any version and base key looked for
func C35Session() {
	ser := serializerN(sym.Choose("live", 2))
	r := record.NewSession(ser.Session, ser.State)
	mark := uint32(0)
	var bases [][]byte
	newState := func() *record.State {
		mark++
		s := record.NewState(ser.State)
		base := append([]byte{5}, sym.Bytes("base", 32)...)
		s.SetSenderBaseKey(base)
		s.SetVersion(3)
		s.SetLocalRegistrationID(mark)
		bases = append(bases, base)
		return s
	}
	cur, prev := uint32(0), []uint32{}
	type saved struct {
		r    *record.Session
		cur  uint32
		prev []uint32
	}
	var olds []saved
	for i := 0; i < 4; i++ {
		switch sym.Choose("op"+string(rune('0'+i)), 5) {
		case 0:
			r.ArchiveCurrentState()
			cur, prev = 0, append([]uint32{cur}, prev...)
		case 1:
			r.PromoteState(newState())
			cur, prev = mark, append([]uint32{cur}, prev...)
		case 2:
			sym.Assume(len(prev) > 0)
			j := sym.Choose("index", 4)
			sym.Assume(j < len(prev))
			r.RemovePreviousState(j)
			prev = append(append([]uint32{}, prev[:j]...), prev[j+1:]...)
		case 3:
			r.SetState(newState())
			cur = mark
		case 4:
			c := r.Copy()
			if sym.Choose("copy"+string(rune('0'+i)), 2) == 1 {
				c, r = r, c
			}
			olds = append(olds, saved{c, cur, prev})
		}
	}
	ver, base := 2+sym.Choose("version", 2), append([]byte{5}, sym.Bytes("query", 32)...)
	for _, o := range append(olds, saved{r, cur, prev}) {
		sym.Assert(o.r.SessionState().LocalRegistrationID() == o.cur, "current state")
		ps := o.r.PreviousSessionStates()
		sym.Assert(len(ps) == len(o.prev), "number of previous states")
		has := false
		look := func(m uint32) {
			if m > 0 && ver == 3 {
				has = sym.Or(has, sym.EqBytes(bases[m-1], base))
			}
		}
		look(o.cur)
		for i, m := range o.prev {
			sym.Assert(ps[i].LocalRegistrationID() == m, "previous states in order")
			look(m)
		}
		sym.Assert(o.r.HasSessionState(ver, base) == has, "state found by its base key")
	}
	sym.Reach("ok")
}

// C35Group: a sender key state holds exactly the message keys put into it.
//
//gosym:prop=C35 tier=both shard=op0:4 shard=op1:4 reach=ok
//gosym:bound five operations (put, take, chain key, copy), all iterations and keys
func C35Group() {
	ser := serializerN(0)
	key := ecc.NewDjbECPublicKey(key32(sym.Bytes("key", 32)))
	it, seed := sym.Uint32("iteration"), sym.Bytes("seed", 4)
	s := grecord.NewSenderKeyStateFromPublicKey(sym.Uint32("id"), it, seed, key, ser.SenderKeyState)
	type held struct {
		keys []*ratchet.SenderMessageKey
		it   uint32
		seed []byte
	}
	ref := held{it: it, seed: seed}
	var olds []*grecord.SenderKeyState
	var oldRefs []held
	for i := 0; i < 5; i++ {
		d := string(rune('0' + i))
		switch sym.Choose("op"+d, 4) {
		case 0:
			m := ratchet.NewSenderMessageKeyFromStruct(&ratchet.SenderMessageKeyStructure{Iteration: sym.Uint32("counter" + d),
				IV: sym.Bytes("iv"+d, 4), CipherKey: sym.Bytes("ck"+d, 4), Seed: sym.Bytes("sd"+d, 4)})
			for _, o := range ref.keys {
				sym.Assume(o.Iteration() != m.Iteration())
			}
			s.AddSenderMessageKey(m)
			ref.keys = append(append([]*ratchet.SenderMessageKey{}, ref.keys...), m)
		case 1:
			q := sym.Uint32("counter" + d)
			got := s.RemoveSenderMessageKey(q)
			found := false
			for j, m := range ref.keys {
				if m.Iteration() == q {
					found = true
					sym.Assert(got != nil && sym.And(got.Iteration() == q, sym.EqBytes(got.Iv(), m.Iv()), sym.EqBytes(got.CipherKey(), m.CipherKey()),
						sym.EqBytes(got.Seed(), m.Seed())), "another message key taken")
					ref.keys = append(append([]*ratchet.SenderMessageKey{}, ref.keys[:j]...), ref.keys[j+1:]...)
					break
				}
			}
			sym.Assert(found || got == nil, "message key of another position taken")
		case 2:
			ref.it, ref.seed = sym.Uint32("counter"+d), sym.Bytes("sd"+d, 4)
			s.SetSenderChainKey(ratchet.NewSenderChainKey(ref.it, ref.seed))
		case 3:
			c := s.Copy()
			if sym.Choose("copy"+d, 2) == 1 {
				c, s = s, c
			}
			olds, oldRefs = append(olds, c), append(oldRefs, ref)
		}
	}
	q := sym.Uint32("query")
	for i, x := range append(olds, s) {
		r := append(oldRefs, ref)[i]
		has := false
		for _, m := range r.keys {
			has = sym.Or(has, m.Iteration() == q)
		}
		sym.Assert(x.HasSenderMessageKey(q) == has, "message key present")
		sym.Assert(sym.And(x.SenderChainKey().Iteration() == r.it, sym.EqBytes(x.SenderChainKey().Seed(), r.seed)), "chain key")
	}
	sym.Reach("ok")
}

// C35Missing: asking for what is not there is reported.
//
//gosym:prop=C35 tier=both shard=op:6 shard=mode:2 reach=ok
//gosym:bound encrypting and decrypting without session or sender key, empty records saved and loaded, states without a pending prekey; live and saved records
func C35Missing() {
	op, mode := sym.Choose("op", 6), sym.Choose("mode", 2)
	ser := serializerN(mode)
	a := newUser("alice", ser, mode == 1, 1001, 31, 41)
	b := newUser("bob", ser, mode == 1, 1002, 32, 42)
	name := protocol.NewSenderKeyName("g", a.addr)
	gc := groups.NewGroupCipher(a.grp, name, a.st)
	quietStore := func() {
		sym.Assert(a.st.stores == 0 && a.st.skStores == 0 && !a.st.ContainsSession(b.addr), "something is stored")
	}
	switch op {
	case 0: // a message without a session
		m, err := a.cipher(b).Encrypt(sym.Bytes("pt", 3))
		sym.Assert(err != nil && m == nil, "encrypts without a session")
		quietStore()
	case 1:
		c := newConv(ser, mode == 1, true)
		c.established()
		_, err := a.recv(a.cipher(b), send(c.ca, []byte("x")))
		sym.Assert(err != nil, "decrypts without a session")
		quietStore()
	case 2:
		m, err := gc.Encrypt(sym.Bytes("pt", 3))
		sym.Assert(err != nil && m == nil, "encrypts without a sender key")
		quietStore()
	case 3:
		o := newUser("other", ser, mode == 1, 1003, 33, 43)
		on := protocol.NewSenderKeyName("g", o.addr)
		_, err := o.grp.Create(on)
		sym.Assert(err == nil, "sender key created")
		m, err := groups.NewGroupCipher(o.grp, on, o.st).Encrypt([]byte("x"))
		sym.Assert(err == nil, "group message")
		_, err = gc.Decrypt(m.(*protocol.SenderKeyMessage))
		sym.Assert(err != nil, "decrypts without a sender key")
		quietStore()
	case 4: // an empty record is saved and loaded, and a session starts with it
		r := record.NewSession(ser.Session, ser.State)
		id := sym.Uint32("id")
		r.SessionState().SetLocalRegistrationID(id)
		l, err := record.NewSessionFromBytes(r.Serialize(), ser.Session, ser.State)
		sym.Assert(err == nil, "empty record loads")
		if err != nil {
			return
		}
		sym.Assert(l.SessionState().LocalRegistrationID() == id && !l.SessionState().HasSenderChain() && len(l.PreviousSessionStates()) == 0, "empty record unchanged")
		sym.Assert(sym.SameBytes(l.Serialize(), r.Serialize()), "same stored form")
		a.st.StoreSession(b.addr, l)
		if _, err := a.cipher(b).Encrypt([]byte("x")); err == nil {
			sym.Assert(false, "encrypts with an empty record")
		}
		sym.Assert(a.builder(b).ProcessBundle(b.bundle(true)) == nil, "session starts")
		deliver(b, b.cipher(a), send(a.cipher(b), []byte("x")), []byte("x"), "first message")
		deliver(a, a.cipher(b), send(b.cipher(a), []byte("y")), []byte("y"), "reply")
	case 5:
		s := record.NewState(ser.State)
		sym.Assert(!s.HasUnacknowledgedPreKeyMessage(), "pending prekey")
		_, err := s.UnackPreKeyMessageItems()
		sym.Assert(err != nil, "pending prekey without one")
		l, err := record.NewStateFromBytes(s.Serialize(), ser.State)
		sym.Assert(err == nil && !l.HasUnacknowledgedPreKeyMessage() && !l.HasPendingKeyExchange(), "empty state loads")
	}
	sym.Reach("ok")
}

// ---- C36: an application may end a session ----

// C36Archive: an archived session is kept for messages under way, and a new
// one can be started.
//
//gosym:prop=C36 tier=both shard=who:2 shard=stage:4 shard=next:5 shard=mode:2 reach=ok
//gosym:bound either side archives once or twice, before the first message, after it, after an exchange, with skipped messages; afterwards messages under way, a new bundle, a new session of the peer, own messages under way; both serializers, all keys
func C36Archive() {
	who, stage, next := sym.Choose("who", 2), sym.Choose("stage", 4), sym.Choose("next", 5)
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(mode), true, true)
	u, cu, v, cv := c.a, c.ca, c.b, c.cb
	x, y, z := sym.Bytes("x", 2), []byte("y"), []byte("z")
	switch stage {
	case 1:
		deliver(c.b, c.cb, send(c.ca, x), x, "first message")
	case 2:
		c.established()
	case 3:
		c.established()
		for i := 0; i < 2; i++ {
			old := send(c.ca, y)
			deliver(c.b, c.cb, send(c.ca, x), x, "before")
			c.other = append(c.other, past{old, y})
			deliver(c.a, c.ca, send(c.cb, x), x, "before")
		}
	}
	if who == 1 {
		u, cu, v, cv = c.b, c.cb, c.a, c.ca
	}
	// what is under way: from the peer and from the side that archives
	var theirs, ours []past
	if stage > 0 || who == 1 {
		theirs = append(theirs, past{send(cv, z), z})
	}
	if stage > 0 || who == 0 {
		ours = append(ours, past{send(cu, y), y})
	}
	sym.Assume(stage > 0 || who == 0) // before the first message bob has no session
	for i, n := 0, 1+sym.Choose("twice", 2); i < n; i++ {
		r := u.st.LoadSession(v.addr)
		r.ArchiveCurrentState()
		u.st.StoreSession(v.addr, r)
	}
	stores := u.st.stores
	m, err := u.cipher(v).Encrypt(x)
	sym.Assert(err != nil && m == nil, "encrypts in an archived session")
	sym.Assert(u.st.stores == stores, "a refused message is stored")
	resume := func() {
		for _, p := range theirs {
			deliver(u, u.cipher(v), p.w, p.pt, "message under way")
		}
	}
	arrive := func() {
		for _, p := range ours {
			deliver(v, v.cipher(u), p.w, p.pt, "own message under way")
		}
	}
	talk := func() {
		deliver(v, v.cipher(u), send(u.cipher(v), x), x, "afterwards")
		deliver(u, u.cipher(v), send(v.cipher(u), y), y, "afterwards: reply")
		deliver(v, v.cipher(u), send(u.cipher(v), z), z, "afterwards: answer")
	}
	switch next {
	case 0: // the session is resumed by a message of it
		sym.Assume(len(theirs) > 0)
		resume()
		arrive()
		talk()
	case 1: // a new session
		v.addPre(77)
		sym.Assert(u.builder(v).ProcessBundle(v.bundle(true)) == nil, "new bundle")
		talk()
		resume()
		arrive()
		talk()
	case 2: // the peer starts a new session
		u.addPre(78)
		sym.Assert(v.builder(u).ProcessBundle(u.bundle(true)) == nil, "new bundle of the peer")
		deliver(u, u.cipher(v), send(v.cipher(u), y), y, "first message of the new session")
		resume()
		talk()
		arrive()
		talk()
	case 3: // own messages under way and an answer to them
		sym.Assume(stage > 0)
		arrive()
		deliver(u, u.cipher(v), send(v.cipher(u), y), y, "answer")
		talk()
		resume()
	case 4: // skipped messages of the archived session
		sym.Assume(stage == 3)
		for _, p := range c.other {
			deliver(c.b, c.b.cipher(c.a), p.w, p.pt, "skipped message")
		}
		if who == 1 {
			talk()
		}
	}
	sym.Reach("ok")
}

// C36Delete: nothing of a deleted session is used, and a new one can be
// started.
//
//gosym:prop=C36 tier=both shard=who:2 shard=mode:2 shard=next:3 reach=ok
//gosym:bound either side deletes an established session; a message under way, a new bundle, a new session of the peer; live and saved records, all keys
func C36Delete() {
	who, mode, next := sym.Choose("who", 2), sym.Choose("mode", 2), sym.Choose("next", 3)
	c := newConv(serializerN(mode), mode == 1, true)
	c.established()
	u, v := c.a, c.b
	if who == 1 {
		u, v = v, u
	}
	x, y := sym.Bytes("x", 2), []byte("y")
	under := send(v.cipher(u), x)
	u.st.DeleteSession(v.addr)
	m, err := u.cipher(v).Encrypt(x)
	sym.Assert(err != nil && m == nil, "encrypts in a deleted session")
	sym.Assert(!u.st.ContainsSession(v.addr), "a refused message is stored")
	_, err = u.recv(u.cipher(v), under)
	sym.Assert(err != nil, "decrypts in a deleted session")
	switch next {
	case 1:
		v.addPre(77)
		sym.Assert(u.builder(v).ProcessBundle(v.bundle(true)) == nil, "new bundle")
	case 2:
		u.addPre(78)
		sym.Assert(v.builder(u).ProcessBundle(u.bundle(true)) == nil, "new bundle of the peer")
		deliver(u, u.cipher(v), send(v.cipher(u), y), y, "first message of the new session")
	}
	if next > 0 {
		deliver(v, v.cipher(u), send(u.cipher(v), x), x, "afterwards")
		deliver(u, u.cipher(v), send(v.cipher(u), y), y, "afterwards: reply")
		_, err = u.recv(u.cipher(v), under)
		sym.Assert(err != nil, "a message of the deleted session decrypts")
	}
	sym.Reach("ok")
}

// C35Full: records keep as much as they can hold, and drop the oldest first.
//
//gosym:prop=C35 tier=both shard=kind:4 shard=many:4 reach=ok
//gosym:bound 38, 40, 41 or 45 states promoted or archived, with any base keys (the second byte is the position); 1, 5, 6 or 9 receiving chains with any keys; 1999 to 2003 message keys from any counter on in a chain or sender key state, of which one is taken
func C35Full() {
	ser := serializerN(0)
	many := sym.Choose("many", 4)
	switch sym.Choose("kind", 4) {
	case 0:
		n := []int{38, 40, 41, 45}[many]
		r := record.NewSession(ser.Session, ser.State)
		var bases [][]byte
		for i := 0; i < n; i++ {
			s := record.NewState(ser.State)
			base := append([]byte{5, byte(i)}, sym.Bytes("base", 31)...)
			s.SetSenderBaseKey(base)
			s.SetVersion(3)
			s.SetLocalRegistrationID(uint32(i))
			bases = append(bases, base)
			r.PromoteState(s)
		}
		if sym.Choose("archive", 2) == 1 {
			r.ArchiveCurrentState()
			bases = append(bases, nil)
			sym.Assert(r.SessionState().SenderBaseKey() == nil, "current state")
		} else {
			sym.Assert(r.SessionState().LocalRegistrationID() == uint32(n-1), "current state")
		}
		ps := r.PreviousSessionStates()
		want := len(bases)
		if want > 40 {
			want = 40
		}
		sym.Assert(len(ps) == want, "number of previous states")
		q := append([]byte{5, []byte{0, 4, 5, 20, byte(n - 1), 99}[sym.Choose("query", 6)]}, sym.Bytes("query", 31)...)
		has := len(bases) <= n && sym.EqBytes(bases[len(bases)-1], q)
		for i := 0; i < want; i++ {
			j := len(bases) - 2 - i
			if j < 0 {
				// the record began with an empty state
				sym.Assert(ps[i].SenderBaseKey() == nil, "empty state")
				continue
			}
			sym.Assert(ps[i].LocalRegistrationID() == uint32(j), "previous states in order")
			has = sym.Or(has, sym.EqBytes(bases[j], q))
			sym.Assert(r.HasSessionState(3, bases[j]) && !r.HasSessionState(2, bases[j]), "state found by its base key")
		}
		sym.Assert(r.HasSessionState(3, q) == has, "state found by its base key only")
	case 1:
		n := []int{1, 5, 6, 9}[many]
		s := record.NewState(ser.State)
		var pubs []ecc.ECPublicKeyable
		var chains []*chain.Key
		for i := 0; i < n; i++ {
			k := sym.Bytes("ratchet", 32)
			for _, o := range pubs {
				b := o.PublicKey()
				sym.Assume(!sym.EqBytes(b[:], k))
			}
			pubs = append(pubs, ecc.NewDjbECPublicKey(key32(k)))
			chains = append(chains, chain.NewKey(kdf.DeriveSecrets, sym.Bytes("chain", 8), sym.Uint32("index")))
			s.AddReceiverChain(pubs[i], chains[i])
			s.SetMessageKeys(pubs[i], keysAt("keys", uint32(i)))
		}
		for i, p := range pubs {
			sym.Assert(s.HasReceiverChain(p) == (i >= n-5), "newest five chains")
			sym.Assert(s.HasMessageKeys(p, uint32(i)) == (i >= n-5), "message keys of the newest five chains")
			if k := s.ReceiverChainKey(p); k != nil {
				sym.Assert(sym.And(sym.EqBytes(k.Key(), chains[i].Key()), k.Index() == chains[i].Index()), "chain key")
			} else {
				sym.Assert(i < n-5, "chain key of the newest five chains")
			}
		}
	case 2:
		n := 1999 + many + many/3
		s := record.NewState(ser.State)
		p := ecc.NewDjbECPublicKey(key32(sym.Bytes("ratchet", 32)))
		s.AddReceiverChain(p, chain.NewKey(kdf.DeriveSecrets, sym.Bytes("chain", 8), 0))
		first := sym.Uint32("first")
		sym.Assume(first < 1<<32-3000)
		var all []*message.Keys
		for i := 0; i < n; i++ {
			all = append(all, message.NewKeys(sym.Bytes("c", 2), sym.Bytes("m", 2), sym.Bytes("i", 2), first+uint32(i)))
			s.SetMessageKeys(p, all[i])
		}
		from := 0
		if n > 2000 {
			from = n - 2000
		}
		for i := 0; i < n; i++ {
			if i < 5 || i > n-5 || i%199 == 0 {
				sym.Assert(s.HasMessageKeys(p, first+uint32(i)) == (i >= from), "newest 2000 message keys")
			}
		}
		j := []int{from, from + 1, 1000, n - 1}[sym.Choose("take", 4)]
		got := s.RemoveMessageKeys(p, first+uint32(j))
		sym.Assert(got != nil && sameKeys(got, all[j]), "message keys taken")
		for i := 0; i < n; i++ {
			if i < 5 || i > n-5 || i%199 == 0 || i+2 > j && i < j+2 {
				sym.Assert(s.HasMessageKeys(p, first+uint32(i)) == (i >= from && i != j), "other message keys kept")
			}
		}
	case 3:
		n := 1999 + many + many/3
		s := grecord.NewSenderKeyStateFromPublicKey(1, 0, sym.Bytes("seed", 4), ecc.NewDjbECPublicKey(key32(sym.Bytes("key", 32))), ser.SenderKeyState)
		first := sym.Uint32("first")
		sym.Assume(first < 1<<32-3000)
		var seeds [][]byte
		for i := 0; i < n; i++ {
			seeds = append(seeds, sym.Bytes("s", 2))
			s.AddSenderMessageKey(ratchet.NewSenderMessageKeyFromStruct(&ratchet.SenderMessageKeyStructure{Iteration: first + uint32(i),
				IV: sym.Bytes("iv", 2), CipherKey: sym.Bytes("ck", 2), Seed: seeds[i]}))
		}
		from := 0
		if n > 2000 {
			from = n - 2000
		}
		j := []int{from, from + 1, 1000, n - 1}[sym.Choose("take", 4)]
		got := s.RemoveSenderMessageKey(first + uint32(j))
		sym.Assert(got != nil && got.Iteration() == first+uint32(j), "message key taken")
		if got != nil {
			sym.Assert(sym.EqBytes(got.Seed(), seeds[j]), "another message key taken")
		}
		for i := 0; i < n; i++ {
			if i < 5 || i > n-5 || i%199 == 0 || i+2 > j && i < j+2 {
				sym.Assert(s.HasSenderMessageKey(first+uint32(i)) == (i >= from && i != j), "newest 2000 message keys")
			}
		}
	}
	sym.Reach("ok")
}
