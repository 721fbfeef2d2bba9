package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// C12Records: no stored record with missing or short parts crashes its loader.
//gosym:prop=C12 tier=both shard=kind:5 shard=gone:14 reach=rejected,accepted
//gosym:bound records of all five kinds in which any one part (record, state, chain, chain key, message key, keys, pending exchanges) is missing, empty or short, or nothing is; all other contents
func C12Records() {
	kind := sym.Choose("kind", 5)
	gone := sym.Choose("gone", 14)
	s := serializerN(0)
	// field is missing, empty or cut short if it is the one to damage
	field := func(n int, b []byte) []byte {
		if n != gone {
			return b
		}
		switch sym.Choose("damage", 4) {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			return b[:1]
		}
		return b[:len(b)-1]
	}
	var err error
	switch kind {
	case 0:
		st := &record.PreKeyStructure{ID: 1, PublicKey: field(0, point("pub")), PrivateKey: field(1, sym.Bytes("priv", 32))}
		var r *record.PreKey
		if r, err = record.NewPreKeyFromBytes(s.PreKeyRecord.Serialize(st), s.PreKeyRecord); err == nil {
			r.Serialize()
			r.KeyPair().PublicKey().Serialize()
			r.KeyPair().PrivateKey().Serialize()
		}
	case 1:
		st := &record.SignedPreKeyStructure{ID: 1, PublicKey: field(0, point("pub")), PrivateKey: field(1, sym.Bytes("priv", 32)), Signature: field(2, sym.Bytes("sig", 64))}
		var r *record.SignedPreKey
		if r, err = record.NewSignedPreKeyFromBytes(s.SignedPreKeyRecord.Serialize(st), s.SignedPreKeyRecord); err == nil {
			r.Serialize()
			r.Signature()
			r.KeyPair().PublicKey().Serialize()
		}
	case 2, 3:
		ch := func(n int) *record.ChainStructure {
			c := &record.ChainStructure{SenderRatchetKeyPublic: field(n, point("ratchet")), SenderRatchetKeyPrivate: sym.Bytes("priv", 32),
				ChainKey:    &chain.KeyStructure{Key: field(n+1, sym.Bytes("chain", 32))},
				MessageKeys: []*message.KeysStructure{{CipherKey: field(n+2, sym.Bytes("cipher", 32)), MacKey: sym.Bytes("mac", 32), IV: sym.Bytes("iv", 16)}}}
			return c
		}
		st := &record.StateStructure{LocalIdentityPublic: field(0, point("local")), RemoteIdentityPublic: field(1, point("remote")), RootKey: field(2, sym.Bytes("root", 32)),
			SenderBaseKey: field(3, point("base")), SenderChain: ch(4), ReceiverChains: []*record.ChainStructure{ch(7)}, SessionVersion: 3,
			PendingPreKey:      &record.PendingPreKeyStructure{PreKeyID: optional.NewOptionalUint32(1), BaseKey: field(10, point("pbase"))},
			PendingKeyExchange: &record.PendingKeyExchangeStructure{}}
		part := sym.Choose("part", 8)
		switch part {
		case 1:
			st.SenderChain = nil
		case 2:
			st.SenderChain.ChainKey = nil
		case 3:
			st.ReceiverChains[0] = nil
		case 4:
			st.ReceiverChains[0].ChainKey = nil
		case 5:
			st.ReceiverChains[0].MessageKeys[0] = nil
		case 6:
			st.PendingPreKey, st.PendingKeyExchange, st.ReceiverChains = nil, nil, nil
		}
		if kind == 3 {
			if part == 7 {
				st = nil
			}
			var r *record.State
			if r, err = record.NewStateFromBytes(s.State.Serialize(st), s.State); err == nil {
				r.Serialize()
			}
			break
		}
		se := &record.SessionStructure{SessionState: st}
		if part == 7 {
			se.SessionState = nil
		}
		if sym.Choose("previous", 2) == 1 {
			se.SessionState = exampleState(1)
			se.PreviousStates = []*record.StateStructure{st}
			if part == 7 {
				se.PreviousStates[0] = nil
			}
		}
		var r *record.Session
		if r, err = record.NewSessionFromBytes(s.Session.Serialize(se), s.Session, s.State); err == nil {
			r.Serialize()
			r.HasSessionState(3, []byte{5})
		}
	case 4:
		st := &grecord.SenderKeyStateStructure{Keys: []*ratchet.SenderMessageKeyStructure{{IV: field(0, sym.Bytes("iv", 16)), CipherKey: field(1, sym.Bytes("cipher", 32)), Seed: field(2, sym.Bytes("seed", 32))}},
			SenderChainKey:   &ratchet.SenderChainKeyStructure{ChainKey: field(3, sym.Bytes("chain", 32))},
			SigningKeyPublic: field(4, point("sign")), SigningKeyPrivate: field(5, sym.Bytes("priv", 32))}
		se := &grecord.SenderKeyStructure{SenderKeyStates: []*grecord.SenderKeyStateStructure{st}}
		switch sym.Choose("part", 5) {
		case 1:
			st.SenderChainKey = nil
		case 2:
			st.Keys[0] = nil
		case 3:
			se.SenderKeyStates[0] = nil
		case 4:
			se.SenderKeyStates, st.Keys = nil, nil
		}
		var r *grecord.SenderKey
		if r, err = grecord.NewSenderKeyFromBytes(s.SenderKeyRecord.Serialize(se), s.SenderKeyRecord, s.SenderKeyState); err == nil {
			r.Serialize()
			r.SenderKeyState()
			r.GetSenderKeyStateByID(0)
		}
	}
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// exampleChain is a chain with n skipped keys and any contents.
func exampleChain(n int, priv bool) *record.ChainStructure {
	c := &record.ChainStructure{SenderRatchetKeyPublic: point("ratchet"), ChainKey: &chain.KeyStructure{Key: sym.Bytes("chain", 32), Index: sym.Uint32("index")}}
	if priv {
		c.SenderRatchetKeyPrivate = sym.Bytes("ratchetpriv", 32)
	}
	c.MessageKeys = []*message.KeysStructure{}
	for i := 0; i < n; i++ {
		c.MessageKeys = append(c.MessageKeys, &message.KeysStructure{CipherKey: sym.Bytes("cipher", 32), MacKey: sym.Bytes("mac", 32), IV: sym.Bytes("iv", 16), Index: sym.Uint32("mindex")})
	}
	return c
}

// exampleState is a session state with n receiver chains and any contents.
// C12Garbage: text that encodes nothing is an error, or a whole result.
//
//gosym:prop=C12 tier=both shard=kind:10:10 reach=rejected
//gosym:bound JSON decoders of all five kinds of record and four kinds of message, given nothing, no JSON, JSON of another type, null or an empty object; records also with the decoder of the other wire format
func C12Garbage() {
	kind := sym.Choose("kind", 10)
	s := serializerN(0)
	if sym.Choose("ser", 2) == 1 {
		sym.Assume(kind < 6)
		s = serializerN(1)
	}
	texts := []string{"", "x", "{", "[]", "5", `"a"`, "true", "{}}", "null", "{}"}
	k := sym.Choose("text", len(texts))
	b := []byte(texts[k])
	var err error
	switch kind {
	case 0:
		var r *record.PreKey
		if r, err = record.NewPreKeyFromBytes(b, s.PreKeyRecord); err == nil {
			r.Serialize()
			r.KeyPair()
		}
	case 1:
		var r *record.SignedPreKey
		if r, err = record.NewSignedPreKeyFromBytes(b, s.SignedPreKeyRecord); err == nil {
			r.Serialize()
			r.KeyPair()
		}
	case 2:
		var r *record.State
		if r, err = record.NewStateFromBytes(b, s.State); err == nil {
			r.Serialize()
		}
	case 3:
		var r *record.Session
		if r, err = record.NewSessionFromBytes(b, s.Session, s.State); err == nil {
			r.Serialize()
			r.HasSessionState(3, []byte{5})
		}
	case 4:
		var r *grecord.SenderKey
		if r, err = grecord.NewSenderKeyFromBytes(b, s.SenderKeyRecord, s.SenderKeyState); err == nil {
			r.Serialize()
			r.SenderKeyState()
		}
	case 5:
		var r *grecord.SenderKeyState
		if r, err = grecord.NewSenderKeyStateFromBytes(b, s.SenderKeyState); err == nil {
			r.Serialize()
			r.KeyID()
		}
	default:
		err = parse(s, kind-6, b)
	}
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(k >= 8, "text that encodes nothing is an error")
}

func exampleState(n int) *record.StateStructure {
	s := &record.StateStructure{
		LocalIdentityPublic: point("local"), LocalRegistrationID: sym.Uint32("localreg"), NeedsRefresh: sym.Bool("refresh"),
		PreviousCounter: sym.Uint32("previous"), RemoteIdentityPublic: point("remote"), RemoteRegistrationID: sym.Uint32("remotereg"),
		RootKey: sym.Bytes("root", 32), SenderBaseKey: point("base"), SenderChain: exampleChain(0, true), SessionVersion: int(int32(sym.Uint32("version"))),
	}
	s.ReceiverChains = []*record.ChainStructure{}
	for i := 0; i < n; i++ {
		s.ReceiverChains = append(s.ReceiverChains, exampleChain(i, false))
	}
	return s
}

func sameChain(a, b *record.ChainStructure) bool {
	if a == nil || b == nil || len(a.MessageKeys) != len(b.MessageKeys) {
		return false
	}
	r := []bool{sym.EqBytes(a.SenderRatchetKeyPublic, b.SenderRatchetKeyPublic), sym.EqBytes(a.SenderRatchetKeyPrivate, b.SenderRatchetKeyPrivate),
		sym.EqBytes(a.ChainKey.Key, b.ChainKey.Key), a.ChainKey.Index == b.ChainKey.Index}
	for i, m := range a.MessageKeys {
		o := b.MessageKeys[i]
		r = append(r, sym.EqBytes(m.CipherKey, o.CipherKey), sym.EqBytes(m.MacKey, o.MacKey), sym.EqBytes(m.IV, o.IV), m.Index == o.Index)
	}
	return sym.And(r...)
}

func sameState(a, b *record.StateStructure) bool {
	if len(a.ReceiverChains) != len(b.ReceiverChains) || (a.PendingPreKey == nil) != (b.PendingPreKey == nil) || (a.PendingKeyExchange == nil) != (b.PendingKeyExchange == nil) {
		return false
	}
	r := []bool{
		sym.EqBytes(a.LocalIdentityPublic, b.LocalIdentityPublic), a.LocalRegistrationID == b.LocalRegistrationID, a.NeedsRefresh == b.NeedsRefresh,
		a.PreviousCounter == b.PreviousCounter, sym.EqBytes(a.RemoteIdentityPublic, b.RemoteIdentityPublic), a.RemoteRegistrationID == b.RemoteRegistrationID,
		sym.EqBytes(a.RootKey, b.RootKey), sym.EqBytes(a.SenderBaseKey, b.SenderBaseKey), sameChain(a.SenderChain, b.SenderChain), a.SessionVersion == b.SessionVersion,
	}
	for i := range a.ReceiverChains {
		r = append(r, sameChain(a.ReceiverChains[i], b.ReceiverChains[i]))
	}
	if p, q := a.PendingPreKey, b.PendingPreKey; p != nil {
		r = append(r, sameID(p.PreKeyID, q.PreKeyID), p.SignedPreKeyID == q.SignedPreKeyID, sym.EqBytes(p.BaseKey, q.BaseKey))
	}
	if p, q := a.PendingKeyExchange, b.PendingKeyExchange; p != nil {
		r = append(r, p.Sequence == q.Sequence,
			sym.EqBytes(p.LocalBaseKeyPublic, q.LocalBaseKeyPublic), sym.EqBytes(p.LocalBaseKeyPrivate, q.LocalBaseKeyPrivate),
			sym.EqBytes(p.LocalRatchetKeyPublic, q.LocalRatchetKeyPublic), sym.EqBytes(p.LocalRatchetKeyPrivate, q.LocalRatchetKeyPrivate),
			sym.EqBytes(p.LocalIdentityKeyPublic, q.LocalIdentityKeyPublic), sym.EqBytes(p.LocalIdentityKeyPrivate, q.LocalIdentityKeyPrivate))
	}
	return sym.And(r...)
}

// sameID compares ids of one-time prekeys, either of which may be missing.
func sameID(a, b *optional.Uint32) bool {
	hasA, hasB := a != nil && !a.IsEmpty, b != nil && !b.IsEmpty
	if hasA != hasB {
		return false
	}
	return !hasA || a.Value == b.Value
}

// pending adds pending exchanges of the given kind.
func pending(s *record.StateStructure, kind int) {
	switch kind {
	case 1:
		s.PendingPreKey = &record.PendingPreKeyStructure{PreKeyID: optional.NewOptionalUint32(sym.Uint32("prekey")), SignedPreKeyID: sym.Uint32("signed"), BaseKey: point("pendingbase")}
	case 2:
		s.PendingPreKey = &record.PendingPreKeyStructure{PreKeyID: optional.NewEmptyUint32(), SignedPreKeyID: sym.Uint32("signed"), BaseKey: point("pendingbase")}
	case 3:
		s.PendingPreKey = &record.PendingPreKeyStructure{SignedPreKeyID: sym.Uint32("signed"), BaseKey: point("pendingbase")}
	case 4:
		s.PendingKeyExchange = &record.PendingKeyExchangeStructure{Sequence: sym.Uint32("sequence"),
			LocalBaseKeyPublic: sym.Bytes("p1", 32), LocalBaseKeyPrivate: sym.Bytes("p2", 32), LocalRatchetKeyPublic: sym.Bytes("p3", 32),
			LocalRatchetKeyPrivate: sym.Bytes("p4", 32), LocalIdentityKeyPublic: sym.Bytes("p5", 32), LocalIdentityKeyPrivate: sym.Bytes("p6", 32)}
	}
}

// C13State: a session loaded from its stored form is the session that was stored.
//gosym:prop=C13 tier=both shard=pending:5 shard=chains:6:3 shard=prev:3 reach=ok
//gosym:bound sessions with up to 5 receiving chains (quick: 2) of 0 to 4 skipped keys, each kind of pending exchange, up to two previous states; every value of every field
func C13State() {
	ser := serializerN(1)
	st := exampleState(sym.Choose("chains", 6))
	pending(st, sym.Choose("pending", 5))
	se := &record.SessionStructure{SessionState: st, PreviousStates: []*record.StateStructure{}}
	for i, n := 0, sym.Choose("prev", 3); i < n; i++ {
		p := exampleState(1)
		pending(p, i*3+1)
		se.PreviousStates = append(se.PreviousStates, p)
	}
	b := ser.Session.Serialize(se)
	r, err := record.NewSessionFromBytes(clone(b), ser.Session, ser.State)
	sym.Assert(err == nil, "loads")
	if err != nil {
		return
	}
	sym.Assert(!r.IsFresh(), "is no fresh session")
	again, err := ser.Session.Deserialize(r.Serialize())
	sym.Assert(err == nil && len(again.PreviousStates) == len(se.PreviousStates), "previous states")
	sym.Assert(sameState(again.SessionState, st), "state unchanged")
	for i, p := range se.PreviousStates {
		sym.Assert(sameState(again.PreviousStates[i], p), "previous state unchanged")
		sym.Assert(r.HasSessionState(p.SessionVersion, p.SenderBaseKey), "previous state known")
	}
	sym.Assert(sym.SameBytes(r.Serialize(), b), "same stored form")
	accessors(r.SessionState(), st)
	one, err := record.NewStateFromBytes(ser.State.Serialize(st), ser.State)
	sym.Assert(err == nil, "state loads")
	if err == nil {
		accessors(one, st)
		sym.Assert(sym.SameBytes(one.Serialize(), ser.State.Serialize(st)), "same stored state")
		copied := one.Copy()
		sym.Assert(sym.SameBytes(copied.Serialize(), ser.State.Serialize(st)), "same copy")
	}
	sym.Reach("ok")
}

// accessors compares what the accessors of a state say with its structure.
func accessors(s *record.State, st *record.StateStructure) {
	sym.Assert(sym.And(sym.EqBytes(s.LocalIdentityKey().Serialize(), st.LocalIdentityPublic), sym.EqBytes(s.RemoteIdentityKey().Serialize(), st.RemoteIdentityPublic)), "identity keys")
	sym.Assert(sym.And(s.LocalRegistrationID() == st.LocalRegistrationID, s.RemoteRegistrationID() == st.RemoteRegistrationID), "registration ids")
	sym.Assert(s.Version() == st.SessionVersion && s.PreviousCounter() == st.PreviousCounter, "version and previous counter")
	sym.Assert(sym.EqBytes(s.RootKey().Bytes(), st.RootKey), "root key")
	sym.Assert(sym.EqBytes(s.SenderBaseKey(), st.SenderBaseKey), "base key")
	sym.Assert(s.HasSenderChain(), "sending chain")
	priv := s.SenderRatchetKeyPair().PrivateKey().Serialize()
	sym.Assert(sym.And(sym.EqBytes(s.SenderRatchetKey().Serialize(), st.SenderChain.SenderRatchetKeyPublic), sym.EqBytes(priv[:], st.SenderChain.SenderRatchetKeyPrivate)), "sending ratchet key")
	sym.Assert(sym.And(sym.EqBytes(s.SenderChainKey().Key(), st.SenderChain.ChainKey.Key), s.SenderChainKey().Index() == st.SenderChain.ChainKey.Index), "sending chain key")
	sym.Assert(s.HasUnacknowledgedPreKeyMessage() == (st.PendingPreKey != nil), "pending prekey")
	if p := st.PendingPreKey; p != nil {
		u, err := s.UnackPreKeyMessageItems()
		sym.Assert(err == nil, "pending prekey known")
		if err == nil {
			sym.Assert(sameID(u.PreKeyID(), p.PreKeyID), "pending prekey id")
			sym.Assert(u.SignedPreKeyID() == p.SignedPreKeyID, "pending signed prekey id")
			sym.Assert(sym.EqBytes(u.BaseKey().Serialize(), p.BaseKey), "pending base key")
		}
	}
	sym.Assert(s.HasPendingKeyExchange() == (st.PendingKeyExchange != nil), "pending exchange")
	if p := st.PendingKeyExchange; p != nil {
		sym.Assert(s.PendingKeyExchangeSequence() == p.Sequence, "pending sequence")
		same := func(kp *ecc.ECKeyPair, pub, priv []byte) {
			a, b := kp.PublicKey().PublicKey(), kp.PrivateKey().Serialize()
			sym.Assert(sym.And(sym.EqBytes(a[:], pub), sym.EqBytes(b[:], priv)), "pending key pair")
		}
		same(s.PendingKeyExchangeBaseKeyPair(), p.LocalBaseKeyPublic, p.LocalBaseKeyPrivate)
		same(s.PendingKeyExchangeRatchetKeyPair(), p.LocalRatchetKeyPublic, p.LocalRatchetKeyPrivate)
		id := s.PendingKeyExchangeIdentityKeyPair()
		a, b := id.PublicKey().PublicKey().PublicKey(), id.PrivateKey().Serialize()
		sym.Assert(sym.And(sym.EqBytes(a[:], p.LocalIdentityKeyPublic), sym.EqBytes(b[:], p.LocalIdentityKeyPrivate)), "pending identity key pair")
	}
}

// C13Set: what is set on a session state is what its stored form gives back.
//gosym:prop=C13 tier=both shard=pre:3 reach=ok
//gosym:bound every value of every field a state has setters for; two receiving chains with skipped keys
func C13Set() {
	ser := serializerN(0)
	r := record.NewSession(ser.Session, ser.State)
	sym.Assert(r.IsFresh(), "fresh")
	s := r.SessionState()
	pub := func(name string) ecc.ECPublicKeyable { k, _ := ecc.DecodePoint(point(name), 0); return k }
	pair := func(name string) *ecc.ECKeyPair {
		var a [32]byte
		copy(a[:], sym.Bytes(name+"priv", 32))
		return ecc.NewECKeyPair(pub(name), ecc.NewDjbECPrivateKey(a))
	}
	local, remote, base := pub("local"), pub("remote"), pub("base")
	lr, rr, pc, ver := sym.Uint32("lr"), sym.Uint32("rr"), sym.Uint32("pc"), int(sym.Byte("version"))
	rk := sym.Bytes("root", 32)
	s.SetVersion(ver)
	s.SetLocalIdentityKey(identity.NewKey(local))
	s.SetRemoteIdentityKey(identity.NewKey(remote))
	s.SetLocalRegistrationID(lr)
	s.SetRemoteRegistrationID(rr)
	s.SetPreviousCounter(pc)
	s.SetRootKey(root.NewKey(nil, rk))
	s.SetSenderBaseKey(base.Serialize())
	ratchetPair := pair("ratchet")
	ck, ci := sym.Bytes("chain", 32), sym.Uint32("index")
	s.SetSenderChain(ratchetPair, chain.NewKey(nil, sym.Bytes("old", 32), 0))
	s.SetSenderChainKey(chain.NewKey(nil, ck, ci))
	type rc struct {
		pub ecc.ECPublicKeyable
		key []byte
		idx uint32
		mk  []*message.Keys
	}
	var rcs []*rc
	for i := 0; i < 2; i++ {
		c := &rc{pub: pub("their"), key: sym.Bytes("theirchain", 32), idx: sym.Uint32("theirindex")}
		for _, o := range rcs {
			sym.Assume(!sym.EqBytes(o.pub.Serialize(), c.pub.Serialize()))
		}
		s.AddReceiverChain(c.pub, chain.NewKey(nil, sym.Bytes("old", 32), 0))
		s.SetReceiverChainKey(c.pub, chain.NewKey(nil, c.key, c.idx))
		rcs = append(rcs, c)
	}
	for i := 0; i < 3; i++ {
		c := rcs[i&1]
		k := message.NewKeys(sym.Bytes("cipher", 32), sym.Bytes("mac", 32), sym.Bytes("iv", 16), uint32(i)<<8|uint32(sym.Byte("mindex")))
		s.SetMessageKeys(c.pub, k)
		c.mk = append(c.mk, k)
	}
	kind := sym.Choose("pre", 3)
	pid, psid, pbase := sym.Uint32("prekey"), sym.Uint32("signed"), pub("pendingbase")
	switch kind {
	case 1:
		s.SetUnacknowledgedPreKeyMessage(optional.NewOptionalUint32(pid), psid, pbase)
	case 2:
		s.SetUnacknowledgedPreKeyMessage(nil, psid, pbase)
	}
	kb, kr, ki := pair("kb"), pair("kr"), pair("ki")
	seq := sym.Uint32("sequence")
	if kind == 2 {
		s.SetPendingKeyExchange(seq, kb, kr, identity.NewKeyPair(identity.NewKey(ki.PublicKey()), ki.PrivateKey()))
	}

	l, err := record.NewSessionFromBytes(r.Serialize(), ser.Session, ser.State)
	sym.Assert(err == nil, "loads")
	if err != nil {
		return
	}
	for _, x := range []*record.State{s, l.SessionState()} {
		sym.Assert(x.Version() == ver && x.LocalRegistrationID() == lr && x.RemoteRegistrationID() == rr && x.PreviousCounter() == pc, "numbers")
		sym.Assert(sym.And(sym.EqBytes(x.LocalIdentityKey().Serialize(), local.Serialize()), sym.EqBytes(x.RemoteIdentityKey().Serialize(), remote.Serialize()),
			sym.EqBytes(x.SenderBaseKey(), base.Serialize()), sym.EqBytes(x.RootKey().Bytes(), rk)), "keys")
		sym.Assert(sameKeyPair(x.SenderRatchetKeyPair(), ratchetPair), "ratchet key pair")
		sym.Assert(sym.And(sym.EqBytes(x.SenderChainKey().Key(), ck), x.SenderChainKey().Index() == ci), "chain key")
		for _, c := range rcs {
			sym.Assert(x.HasReceiverChain(c.pub), "receiving chain")
			k := x.ReceiverChainKey(c.pub)
			sym.Assert(k != nil && sym.And(sym.EqBytes(k.Key(), c.key), k.Index() == c.idx), "receiving chain key")
		}
		sym.Assert(x.HasUnacknowledgedPreKeyMessage() == (kind > 0), "pending prekey")
		if kind > 0 {
			u, err := x.UnackPreKeyMessageItems()
			sym.Assert(err == nil, "pending prekey known")
			want := optional.NewOptionalUint32(pid)
			if kind == 2 {
				want = nil
			}
			sym.Assert(sym.And(sameID(u.PreKeyID(), want), u.SignedPreKeyID() == psid, sym.EqBytes(u.BaseKey().Serialize(), pbase.Serialize())), "pending prekey data")
		}
		sym.Assert(x.HasPendingKeyExchange() == (kind == 2), "pending exchange")
		if kind == 2 {
			sym.Assert(x.PendingKeyExchangeSequence() == seq, "sequence")
			sym.Assert(sameKeyPair(x.PendingKeyExchangeBaseKeyPair(), kb), "pending base key pair")
			sym.Assert(sameKeyPair(x.PendingKeyExchangeRatchetKeyPair(), kr), "pending ratchet key pair")
			id := x.PendingKeyExchangeIdentityKeyPair()
			sym.Assert(sameKeyPair(ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()), ki), "pending identity key pair")
		}
		for _, c := range rcs {
			for n, k := range c.mk {
				sym.Assert(x.HasMessageKeys(c.pub, k.Index()), "skipped key")
				g := x.RemoveMessageKeys(c.pub, k.Index())
				sym.Assert(sym.And(sym.EqBytes(g.CipherKey(), k.CipherKey()), sym.EqBytes(g.MacKey(), k.MacKey()), sym.EqBytes(g.Iv(), k.Iv()), g.Index() == k.Index()), "skipped key data")
				sym.Assert(!x.HasMessageKeys(c.pub, k.Index()), "skipped key gone")
				if n+1 < len(c.mk) {
					sym.Assert(x.HasMessageKeys(c.pub, c.mk[n+1].Index()), "other skipped key kept")
				}
			}
		}
	}
	sym.Reach("ok")
}

func sameKeyPair(a, b *ecc.ECKeyPair) bool {
	x, y := a.PrivateKey().Serialize(), b.PrivateKey().Serialize()
	return sym.And(sym.EqBytes(a.PublicKey().Serialize(), b.PublicKey().Serialize()), sym.EqBytes(x[:], y[:]))
}

// C13PreKeys: prekeys are loaded as they were stored.
//gosym:prop=C13 tier=both shard=ser:2 reach=ok
//gosym:bound all ids, keys, signatures and timestamps
func C13PreKeys() {
	s := serializerN(sym.Choose("ser", 2))
	kp, err := ecc.GenerateKeyPair()
	sym.Assert(err == nil, "generated")
	if err != nil {
		return
	}
	id := sym.Uint32("id")
	p := record.NewPreKey(id, kp, s.PreKeyRecord)
	l, err := record.NewPreKeyFromBytes(p.Serialize(), s.PreKeyRecord)
	sym.Assert(err == nil, "prekey loads")
	if err == nil {
		sym.Assert(!l.ID().IsEmpty && l.ID().Value == id, "prekey id")
		sym.Assert(sameKeyPair(l.KeyPair(), kp), "prekey")
		sym.Assert(sym.SameBytes(l.Serialize(), p.Serialize()), "same stored form of the prekey")
	}
	ts := int64(sym.Uint64("timestamp"))
	var sig [64]byte
	copy(sig[:], sym.Bytes("signature", 64))
	q := record.NewSignedPreKey(id, ts, kp, sig, s.SignedPreKeyRecord)
	m, err := record.NewSignedPreKeyFromBytes(q.Serialize(), s.SignedPreKeyRecord)
	sym.Assert(err == nil, "signed prekey loads")
	if err == nil {
		for _, x := range []*record.SignedPreKey{q, m} {
			sym.Assert(x.ID() == id && x.Timestamp() == ts, "signed prekey id and time")
			sym.Assert(sameKeyPair(x.KeyPair(), kp), "signed prekey")
			g := x.Signature()
			sym.Assert(sym.EqBytes(g[:], sig[:]), "signature")
		}
		sym.Assert(sym.SameBytes(m.Serialize(), q.Serialize()), "same stored form of the signed prekey")
	}
	sym.Reach("ok")
}

func groupState(n int, priv bool) *grecord.SenderKeyStateStructure {
	s := &grecord.SenderKeyStateStructure{KeyID: sym.Uint32("keyid"), SigningKeyPublic: point("sign"),
		SenderChainKey: &ratchet.SenderChainKeyStructure{Iteration: sym.Uint32("iteration"), ChainKey: sym.Bytes("chain", 32)}}
	if priv {
		s.SigningKeyPrivate = sym.Bytes("signpriv", 32)
	}
	s.Keys = []*ratchet.SenderMessageKeyStructure{}
	for i := 0; i < n; i++ {
		s.Keys = append(s.Keys, &ratchet.SenderMessageKeyStructure{Iteration: sym.Uint32("kiteration"), IV: sym.Bytes("iv", 16), CipherKey: sym.Bytes("cipher", 32), Seed: sym.Bytes("seed", 32)})
	}
	return s
}

func sameGroup(a, b *grecord.SenderKeyStateStructure) bool {
	if len(a.Keys) != len(b.Keys) || (a.SigningKeyPrivate == nil) != (b.SigningKeyPrivate == nil) {
		return false
	}
	r := []bool{a.KeyID == b.KeyID, sym.EqBytes(a.SigningKeyPublic, b.SigningKeyPublic), sym.EqBytes(a.SigningKeyPrivate, b.SigningKeyPrivate),
		a.SenderChainKey.Iteration == b.SenderChainKey.Iteration, sym.EqBytes(a.SenderChainKey.ChainKey, b.SenderChainKey.ChainKey)}
	for i, k := range a.Keys {
		o := b.Keys[i]
		r = append(r, k.Iteration == o.Iteration, sym.EqBytes(k.IV, o.IV), sym.EqBytes(k.CipherKey, o.CipherKey), sym.EqBytes(k.Seed, o.Seed))
	}
	return sym.And(r...)
}

// C13Group: sender keys are loaded as they were stored, and can be added to.
//gosym:prop=C13 tier=both shard=keys:4 shard=states:4 reach=ok
//gosym:bound records of 0 to 3 states of 0 to 3 skipped keys, with and without private key; every value of every field
func C13Group() {
	s := serializerN(1)
	n := sym.Choose("keys", 4)
	se := &grecord.SenderKeyStructure{SenderKeyStates: []*grecord.SenderKeyStateStructure{}}
	for i, k := 0, sym.Choose("states", 4); i < k; i++ {
		se.SenderKeyStates = append(se.SenderKeyStates, groupState(n, i&1 == 0))
	}
	b := s.SenderKeyRecord.Serialize(se)
	r, err := grecord.NewSenderKeyFromBytes(clone(b), s.SenderKeyRecord, s.SenderKeyState)
	sym.Assert(err == nil, "loads")
	if err != nil {
		return
	}
	sym.Assert(r.IsEmpty() == (len(se.SenderKeyStates) == 0), "empty")
	check := func(b []byte) {
		again, err := s.SenderKeyRecord.Deserialize(b)
		sym.Assert(err == nil && len(again.SenderKeyStates) >= len(se.SenderKeyStates), "states")
		for i, x := range se.SenderKeyStates {
			sym.Assert(sameGroup(again.SenderKeyStates[i], x), "state unchanged")
		}
	}
	check(r.Serialize())
	sym.Assert(sym.SameBytes(r.Serialize(), b), "same stored form")
	if st, err := r.SenderKeyState(); err == nil {
		x := se.SenderKeyStates[0]
		groupAccessors(st, x)
		sym.Assert(sym.SameBytes(st.Serialize(), s.SenderKeyState.Serialize(x)), "same stored state")
		l, err := grecord.NewSenderKeyStateFromBytes(st.Serialize(), s.SenderKeyState)
		sym.Assert(err == nil, "state loads")
		if err == nil {
			groupAccessors(l, x)
		}
	} else {
		sym.Assert(len(se.SenderKeyStates) == 0, "has a state")
	}
	key, _ := ecc.DecodePoint(point("newsign"), 0)
	id, it, ck := sym.Uint32("newid"), sym.Uint32("newiteration"), sym.Bytes("newchain", 32)
	for _, x := range se.SenderKeyStates {
		sym.Assume(x.KeyID != id)
	}
	r.AddSenderKeyState(id, it, ck, key)
	check(r.Serialize())
	st, err := r.GetSenderKeyStateByID(id)
	sym.Assert(err == nil, "new state found")
	if err == nil {
		want := &grecord.SenderKeyStateStructure{KeyID: id, SigningKeyPublic: key.Serialize(), SenderChainKey: &ratchet.SenderChainKeyStructure{Iteration: it, ChainKey: ck}}
		groupAccessors(st, want)
		l, err := grecord.NewSenderKeyStateFromBytes(st.Serialize(), s.SenderKeyState)
		sym.Assert(err == nil, "new state loads")
		if err == nil {
			groupAccessors(l, want)
		}
	}
	sym.Reach("ok")
}

func groupAccessors(st *grecord.SenderKeyState, x *grecord.SenderKeyStateStructure) {
	sym.Assert(st.KeyID() == x.KeyID, "key id")
	sym.Assert(sym.EqBytes(st.SigningKey().PublicKey().Serialize(), x.SigningKeyPublic), "signing key")
	sym.Assert((st.SigningKey().PrivateKey() == nil) == (x.SigningKeyPrivate == nil), "private signing key present")
	if p := st.SigningKey().PrivateKey(); p != nil && x.SigningKeyPrivate != nil {
		b := p.Serialize()
		sym.Assert(sym.EqBytes(b[:], x.SigningKeyPrivate), "private signing key")
	}
	sym.Assert(sym.And(st.SenderChainKey().Iteration() == x.SenderChainKey.Iteration, sym.EqBytes(st.SenderChainKey().Seed(), x.SenderChainKey.ChainKey)), "chain key")
	for _, k := range x.Keys {
		sym.Assert(st.HasSenderMessageKey(k.Iteration), "skipped key")
	}
}


// C13Large: as many states, chains and skipped keys as records hold are saved
// and loaded like a few.
//
//gosym:prop=C13 tier=both shard=shape:5 reach=ok cost=3
//gosym:bound 40 previous states of up to 5 chains, 2000 skipped keys in the first or last of 5 chains, group states of 2000 skipped keys, 2000 group states; every value of every field
func C13Large() {
	ser := serializerN(1)
	if k := sym.Choose("shape", 5); k < 3 {
		st := exampleState(5)
		se := &record.SessionStructure{SessionState: st, PreviousStates: []*record.StateStructure{}}
		switch k {
		case 0:
			for i := 0; i < 40; i++ {
				se.PreviousStates = append(se.PreviousStates, exampleState(i%6))
			}
		case 1, 2:
			c := st.ReceiverChains[(k-1)*4]
			c.MessageKeys = nil
			for i := 0; i < 2000; i++ {
				c.MessageKeys = append(c.MessageKeys, &message.KeysStructure{CipherKey: sym.Bytes("c", 2), MacKey: sym.Bytes("m", 2), IV: sym.Bytes("i", 2), Index: sym.Uint32("index")})
			}
		}
		r, err := record.NewSessionFromBytes(ser.Session.Serialize(se), ser.Session, ser.State)
		sym.Assert(err == nil, "loads")
		if err != nil {
			return
		}
		again, err := ser.Session.Deserialize(r.Serialize())
		sym.Assert(err == nil && len(again.PreviousStates) == len(se.PreviousStates), "previous states")
		if err != nil || len(again.PreviousStates) != len(se.PreviousStates) {
			return
		}
		sym.Assert(sameState(again.SessionState, st), "state unchanged")
		for i, p := range se.PreviousStates {
			sym.Assert(sameState(again.PreviousStates[i], p), "previous state unchanged")
		}
	} else {
		se := &grecord.SenderKeyStructure{SenderKeyStates: []*grecord.SenderKeyStateStructure{}}
		if k == 3 {
			x := groupState(0, true)
			for i := 0; i < 2000; i++ {
				x.Keys = append(x.Keys, &ratchet.SenderMessageKeyStructure{Iteration: sym.Uint32("iteration"), IV: sym.Bytes("i", 2), CipherKey: sym.Bytes("c", 2), Seed: sym.Bytes("s", 2)})
			}
			se.SenderKeyStates = append(se.SenderKeyStates, groupState(1, false), x)
		} else {
			for i := 0; i < 2000; i++ {
				se.SenderKeyStates = append(se.SenderKeyStates, &grecord.SenderKeyStateStructure{KeyID: sym.Uint32("id"), SigningKeyPublic: point("sign"),
					SenderChainKey: &ratchet.SenderChainKeyStructure{Iteration: sym.Uint32("iteration"), ChainKey: sym.Bytes("chain", 2)}})
			}
		}
		r, err := grecord.NewSenderKeyFromBytes(ser.SenderKeyRecord.Serialize(se), ser.SenderKeyRecord, ser.SenderKeyState)
		sym.Assert(err == nil, "loads")
		if err != nil {
			return
		}
		again, err := ser.SenderKeyRecord.Deserialize(r.Serialize())
		sym.Assert(err == nil && len(again.SenderKeyStates) == len(se.SenderKeyStates), "states")
		if err != nil || len(again.SenderKeyStates) != len(se.SenderKeyStates) {
			return
		}
		for i, x := range se.SenderKeyStates {
			sym.Assert(sameGroup(again.SenderKeyStates[i], x), "state unchanged")
		}
	}
	sym.Reach("ok")
}
