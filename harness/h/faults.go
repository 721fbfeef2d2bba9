package h

import (
	"crypto/rand"
	"errors"
	"io"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// ---- C32: nothing is made without randomness ----

// source is the system's random source with faults: it may deliver a few bytes
// at a time, and from one call on only an error.
type source struct {
	under io.Reader
	piece int    // bytes per call, 0: as many as asked for
	fail  int    // calls before it fails, -1: never
	end   bool   // it ends rather than fails
	part  int    // bytes delivered along with the error
	ahead []byte // drawn but not delivered
	drawn []byte // delivered
	calls int
}

func (s *source) Read(b []byte) (int, error) {
	k := len(b)
	if s.calls == s.fail {
		k = s.part
	} else if s.fail < 0 || s.calls < s.fail {
		s.calls++
	}
	if s.piece > 0 && s.piece < k {
		k = s.piece
	}
	for len(s.ahead) < k {
		x := make([]byte, len(b))
		if _, err := io.ReadFull(s.under, x); err != nil {
			return 0, err
		}
		s.ahead = append(s.ahead, x...)
	}
	copy(b, s.ahead[:k])
	s.drawn = append(s.drawn, s.ahead[:k]...)
	s.ahead = s.ahead[k:]
	if s.calls == s.fail && s.end {
		return k, io.EOF
	}
	if s.calls == s.fail {
		return k, errors.New("no randomness")
	}
	return k, nil
}

// with runs f with the faulty source.
func (s *source) with(f func()) {
	s.under = rand.Reader
	rand.Reader = s
	f()
	rand.Reader = s.under
}

// C32Keys: a generated key is made of 32 bytes the source delivered, or there
// is an error.
//
//gosym:prop=C32 tier=both shard=op:7:7 reach=made,failed
//gosym:bound identity keys, key pairs, prekeys, signed and last-resort prekeys, group signing keys, initialization vectors; a source that delivers everything or 1, 7 or 31 bytes at a time, and fails never, at once, or after 1..3 calls, with an error or the end of its bytes, alone or with 1 or 31 bytes
func C32Keys() {
	op := sym.Choose("op", 7)
	s := &source{piece: []int{0, 1, 7, 31}[sym.Choose("piece", 4)], fail: sym.Choose("fail", 5) - 1}
	if s.fail >= 0 {
		s.part = []int{0, 1, 31}[sym.Choose("part", 3)]
		s.end = sym.Choose("end", 2) == 1
	}
	ser := serializerN(1)
	id, err := keyhelper.GenerateIdentityKeyPair()
	sym.Assert(err == nil, "no error")
	var keys [][32]byte
	none := true // nothing came with the error
	got := func(p *ecc.ECKeyPair) {
		if p != nil {
			none = false
			keys = append(keys, p.PrivateKey().Serialize())
		}
	}
	text := sym.Bytes("text", 20)
	var ct []byte
	s.with(func() {
		switch op {
		case 0:
			k, e := keyhelper.GenerateIdentityKeyPair()
			if err = e; k != nil {
				none = false
				keys = append(keys, k.PrivateKey().Serialize())
			}
		case 1:
			k, e := ecc.GenerateKeyPair()
			err = e
			got(k)
		case 2:
			ks, e := keyhelper.GeneratePreKeys(5, 2, ser.PreKeyRecord)
			err = e
			if e == nil {
				sym.Assert(len(ks) == 2, "as many as asked for")
			}
			for _, k := range ks {
				got(k.KeyPair())
			}
		case 3:
			// the signature takes randomness, too, but can do without
			k, e := keyhelper.GenerateSignedPreKey(id, 3, ser.SignedPreKeyRecord)
			if err = e; k != nil {
				got(k.KeyPair())
				sym.Assert(ecc.VerifySignature(id.PublicKey().PublicKey(), k.KeyPair().PublicKey().Serialize(), k.Signature()), "a signature that verifies")
			}
		case 4:
			k, e := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
			if err = e; k != nil {
				got(k.KeyPair())
			}
		case 5:
			k, e := keyhelper.GenerateSenderSigningKey()
			err = e
			got(k)
		case 6:
			ct, err = cipher.EncryptCbc(nil, make([]byte, 32), text)
			none = ct == nil
		}
	})
	if err != nil {
		sym.Assert(none, "nothing but an error")
		sym.Assert(s.calls == s.fail, "no error unless the source fails")
		sym.Reach("failed")
		return
	}
	sym.Assert(!none, "something is made")
	if op == 6 {
		sym.Assert(len(s.drawn) >= 16 && sym.EqBytes(ct[:16], s.drawn[:16]), "an initialization vector of fresh bytes")
		pt, err := cipher.DecryptCbc(nil, make([]byte, 32), ct)
		sym.Assert(err == nil && sym.EqBytes(pt, text), "decrypts")
	}
	for i, k := range keys {
		sym.Assert(len(s.drawn) >= 32*(i+1), "enough was drawn")
		w := clone(s.drawn[32*i : 32*i+32])
		w[0] &= 248
		w[31] = w[31]&127 | 64
		sym.Assert(sym.EqBytes(k[:], w), "a key of fresh bytes")
	}
	sym.Reach("made")
}

// C32Sessions: an operation of a session that finds no randomness is an error
// and changes nothing; it succeeds later.
//
//gosym:prop=C32 tier=both shard=op:5:5 shard=mode:2 reach=failed
//gosym:bound a bundle (with or without a session), the first message of a new chain, a first message, a new group; the source fails at the first or second call, alone or with some bytes; live and serialising stores
func C32Sessions() {
	op, mode := sym.Choose("op", 5), sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	p, pt := []byte("p"), sym.Bytes("pt", 4)
	var w wire
	if op == 1 || op == 2 {
		c.established()
		c.b.addPre(43)
	}
	if op == 0 {
		c.a.st.DeleteSession(c.b.addr)
	}
	u, peer := c.b, c.a
	if op < 2 {
		u, peer = c.a, c.b
	}
	if op == 2 || op == 3 {
		w = send(c.ca, pt)
	}
	n := protocol.NewSenderKeyName("g", c.b.addr)
	before := snapshot(u, peer)
	stores, sk, pre := u.st.stores, u.st.skStores, len(u.st.pre)
	run := func() (err error) {
		switch op {
		case 0, 1:
			return u.builder(peer).ProcessBundle(peer.bundle(true))
		case 2, 3:
			var got []byte
			got, err = u.recv(c.cb, w)
			sym.Assert(err != nil || sym.EqBytes(got, pt), "the text")
			return err
		}
		_, err = u.grp.Create(n)
		return err
	}
	s := &source{fail: sym.Choose("fail", 2), part: sym.Choose("part", 2) * 31, end: sym.Choose("end", 2) == 1}
	if op > 1 {
		sym.Assume(s.fail == 0)
	}
	var err error
	s.with(func() { err = run() })
	sym.Assert(err != nil, "no randomness, no success")
	sym.Assert(u.st.stores == stores && u.st.skStores == sk && len(u.st.pre) == pre, "nothing stored or removed without randomness")
	sym.Assert(sym.SameBytes(snapshot(u, peer), before), "session unchanged without randomness")
	sym.Reach("failed")

	if op == 1 && sym.Choose("retry", 2) == 0 {
		c.again("without a new session")
		return
	}
	sym.Assert(run() == nil, "succeeds with randomness")
	if op == 4 {
		m, err := u.grp.Create(n)
		sym.Assert(err == nil, "created")
		shortID(m)
		peer.join(n, m.Serialize())
		g := gsend(u, n, pt)
		got, err := grecv(peer, n, g)
		sym.Assert(err == nil && sym.EqBytes(got, pt), "the group text")
		return
	}
	if op == 0 {
		deliver(c.b, c.cb, send(c.ca, p), p, "first")
	}
	c.again("with randomness again")
}

// C32Signatures: signatures of different messages or keys share no nonce and
// verify, even if the source fails.
//
//gosym:prop=C32 tier=both shard=len:4 reach=ok
//gosym:bound every key, two different messages of 0, 20, 64 or 200 bytes; a source that fails at once, with any or no bytes, or repeats itself
func C32Signatures() {
	n := []int{20, 0, 64, 200}[sym.Choose("len", 4)]
	a, _ := ecc.GenerateKeyPair()
	o, _ := ecc.GenerateKeyPair()
	m1, m2 := sym.Bytes("m", n), sym.Bytes("m", n)
	var s1, s2, s3 [64]byte
	s := &source{fail: 0, part: sym.Choose("part", 2) * 9}
	s.with(func() { s1 = ecc.CalculateSignature(a.PrivateKey(), m1) })
	// the same bytes again
	s.ahead, s.drawn = s.drawn, nil
	keep := clone(s.ahead)
	s.with(func() { s2 = ecc.CalculateSignature(a.PrivateKey(), m2) })
	s.ahead = keep
	s.with(func() { s3 = ecc.CalculateSignature(o.PrivateKey(), m1) })
	sym.Assert(ecc.VerifySignature(a.PublicKey(), m1, s1) && ecc.VerifySignature(a.PublicKey(), m2, s2) && ecc.VerifySignature(o.PublicKey(), m1, s3), "signatures verify")
	sym.Assert(sym.EqBytes(m1, m2) || !sym.EqBytes(s1[:32], s2[:32]), "different messages, different nonces")
	sym.Assert(!sym.EqBytes(s1[:32], s3[:32]), "different keys, different nonces")
	sym.Reach("ok")
}
