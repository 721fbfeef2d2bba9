package h

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"golang.org/x/crypto/curve25519"
)

// ---- the protocol, written down without the code under test ----

func hmac256(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// hkdf is RFC 5869 with SHA-256.
func hkdf(ikm, salt []byte, info string, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := hmac256(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = hmac256(prk, t, []byte(info), []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

type pair struct{ pub, priv [32]byte }

func newPair() pair {
	k, _ := ecc.GenerateKeyPair()
	return pair{k.PublicKey().PublicKey(), k.PrivateKey().Serialize()}
}

func (p pair) wire() []byte { return append([]byte{5}, p.pub[:]...) }

func dh(priv, pub [32]byte) []byte {
	var out [32]byte
	curve25519.ScalarMult(&out, &priv, &pub)
	return out[:]
}

func key32(b []byte) (k [32]byte) {
	copy(k[:], b)
	return
}

func cat(parts ...[]byte) (r []byte) {
	for _, p := range parts {
		r = append(r, p...)
	}
	return
}

func pad(pt []byte) []byte {
	n := 16 - len(pt)%16
	r := append([]byte{}, pt...)
	for i := 0; i < n; i++ {
		r = append(r, byte(n))
	}
	return r
}

func cbc(key, iv, pt []byte) []byte {
	b, _ := aes.NewCipher(key)
	r := pad(pt)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(r, r)
	return r
}

// protocol buffer encoding
func varint(v uint32) (r []byte) {
	for v >= 0x80 {
		r = append(r, byte(v)|0x80)
		v >>= 7
	}
	return append(r, byte(v))
}
func num(f byte, v uint32) []byte   { return append([]byte{f << 3}, varint(v)...) }
func field(f byte, b []byte) []byte { return cat([]byte{f<<3 | 2}, varint(uint32(len(b))), b) }

// fields splits a protocol buffer into its fields.
func fields(b []byte) (n map[int]uint32, s map[int][]byte) {
	n, s = map[int]uint32{}, map[int][]byte{}
	get := func() (v uint32) {
		for sh := 0; len(b) > 0; sh += 7 {
			c := b[0]
			b = b[1:]
			v |= uint32(c&0x7f) << sh
			if c < 0x80 {
				break
			}
		}
		return
	}
	for len(b) > 0 {
		t := get()
		v := get()
		if t&7 == 0 {
			n[int(t>>3)] = v
			continue
		}
		if t&7 != 2 || int(v) > len(b) {
			return nil, nil
		}
		s[int(t>>3)] = b[:v]
		b = b[v:]
	}
	return
}

// peer is an independent implementation of one end of a session.
type peer struct {
	id         pair
	theirID    []byte
	ratchet    pair
	root       []byte
	sendCK     []byte
	recvCK     []byte
	sent, got  uint32
	prev       uint32
	theirRatch []byte
}

func chainStep(ck []byte) (mk, next []byte) { return hmac256(ck, []byte{1}), hmac256(ck, []byte{2}) }

// start derives the first root and chain key from the agreements.
func x3dh(parts ...[]byte) (root, ck []byte) {
	ff := make([]byte, 32)
	for i := range ff {
		ff[i] = 0xff
	}
	k := hkdf(cat(append([][]byte{ff}, parts...)...), nil, "WhisperText", 64)
	return k[:32], k[32:]
}

func rootStep(root, agreed []byte) (next, ck []byte) {
	k := hkdf(agreed, root, "WhisperRatchet", 64)
	return k[:32], k[32:]
}

// body is the signal message that carries pt.
func body(ck []byte, ratchet []byte, counter, prev uint32, from, to, pt []byte) []byte {
	seed, _ := chainStep(ck)
	k := hkdf(seed, nil, "WhisperMessageKeys", 80)
	m := cat([]byte{0x33}, field(1, ratchet), num(2, counter), num(3, prev), field(4, cbc(k[:32], k[64:], pt)))
	return append(m, hmac256(k[32:64], from, to, m)[:8]...)
}

func (p *peer) send(pt []byte) []byte {
	m := body(p.sendCK, p.ratchet.wire(), p.sent, p.prev, p.id.wire(), p.theirID, pt)
	_, p.sendCK = chainStep(p.sendCK)
	p.sent++
	return m
}

// recv says whether m is the message the peer expects next with plaintext pt.
func (p *peer) recv(m, pt []byte, prev uint32) bool {
	_, s := fields(m[1 : len(m)-8])
	if len(s[1]) != 33 {
		return false
	}
	if p.theirRatch == nil || !sym.EqBytes(p.theirRatch, s[1]) {
		p.theirRatch = s[1]
		their := key32(s[1][1:])
		p.root, p.recvCK = rootStep(p.root, dh(p.ratchet.priv, their))
		p.ratchet = newPair()
		p.root, p.sendCK = rootStep(p.root, dh(p.ratchet.priv, their))
		p.got = 0
		p.prev = 0
		if p.sent > 0 {
			p.prev = p.sent - 1
		}
		p.sent = 0
	}
	want := body(p.recvCK, p.theirRatch, p.got, prev, p.theirID, p.id.wire(), pt)
	_, p.recvCK = chainStep(p.recvCK)
	p.got++
	return sym.EqBytes(m, want)
}

func userPair(k *ecc.ECKeyPair) pair {
	return pair{k.PublicKey().PublicKey(), k.PrivateKey().Serialize()}
}

func idPair(k *identity.KeyPair) pair {
	return pair{k.PublicKey().PublicKey().PublicKey(), k.PrivateKey().Serialize()}
}

// C22Initiator: the library opens a session with an independent peer.
//gosym:prop=C22 tier=quick shard=pre:2 reach=ok
//gosym:bound protocol buffers; all keys and texts; with and without a one-time prekey; the library's first two messages, the peer's reply, then every alternation of 5 further messages
func C22Initiator() { initiator(5) }

// C22InitiatorLong: the library opens a session with an independent peer.
//gosym:prop=C22 tier=thorough shard=pre:2 reach=ok
//gosym:bound the same with 9 further messages
func C22InitiatorLong() { initiator(9) }

func initiator(acts int) {
	pre := sym.Choose("pre", 2) == 1
	ser := serializerN(1)
	c := &conv{a: newUser("alice", ser, false, 1001, 31, 41), b: newUser("bob", ser, false, 1002, 32, 42)}
	b := c.b
	sym.Assert(c.a.builder(b).ProcessBundle(b.bundle(pre)) == nil, "bundle accepted")
	c.ca = c.a.cipher(b)
	p := &peer{id: idPair(b.st.id), ratchet: userPair(b.spk.KeyPair()), theirID: idPair(c.a.st.id).wire()}
	var base []byte
	for i := 0; i < 2; i++ {
		pt := sym.Bytes("body", 15+i)
		m := send(c.ca, pt)
		sym.Assert(m.t == protocol.PREKEY_TYPE && m.b[0] == 0x33, "a prekey message")
		n, s := fields(m.b[1:])
		_, hasPre := n[1]
		sym.Assert(hasPre == pre && len(s[2]) == 33, "prekey message fields")
		if i == 0 {
			base = s[2]
			ik, bk := key32(p.theirID[1:]), key32(base[1:])
			dhs := [][]byte{dh(p.ratchet.priv, ik), dh(p.id.priv, bk), dh(p.ratchet.priv, bk)}
			if pre {
				dhs = append(dhs, dh(b.pk.KeyPair().PrivateKey().Serialize(), bk))
			}
			p.root, _ = x3dh(dhs...)
		}
		var want []byte
		if pre {
			want = num(1, 42)
		}
		want = cat([]byte{0x33}, want, field(2, base), field(3, p.theirID), field(4, s[4]), num(5, 1001), num(6, 32))
		sym.Assert(sym.EqBytes(m.b, want), "prekey message encoding")
		sym.Assert(p.recv(s[4], pt, 0), "the peer reads the first messages")
	}
	pt := sym.Bytes("body", 4)
	deliver(c.a, c.ca, wire{p.send(pt), protocol.WHISPER_TYPE}, pt, "the library reads the reply")
	talkFrom(c.a, b, p, acts, 2)
}

// C22Responder: an independent peer opens a session with the library.
//gosym:prop=C22 tier=quick shard=pre:2 reach=ok
//gosym:bound protocol buffers; all keys and texts; with and without a one-time prekey; the peer's first message, then every alternation of 5 further messages
func C22Responder() { responder(5) }

// C22ResponderLong: an independent peer opens a session with the library.
//gosym:prop=C22 tier=thorough shard=pre:2 reach=ok
//gosym:bound the same with 9 further messages
func C22ResponderLong() { responder(9) }

func responder(acts int) {
	pre := sym.Choose("pre", 2) == 1
	ser := serializerN(1)
	b := newUser("bob", ser, false, 1002, 32, 42)
	a := &user{name: "alice", addr: protocol.NewSignalAddress("alice", 1)}
	p := &peer{id: newPair(), ratchet: newPair(), theirID: idPair(b.st.id).wire()}
	base := newPair()
	spk := b.spk.KeyPair().PublicKey().PublicKey()
	ik := b.st.id.PublicKey().PublicKey().PublicKey()
	dhs := [][]byte{dh(p.id.priv, spk), dh(base.priv, ik), dh(base.priv, spk)}
	var first []byte
	if pre {
		dhs = append(dhs, dh(base.priv, b.pk.KeyPair().PublicKey().PublicKey()))
		first = num(1, 42)
	}
	p.root, _ = x3dh(dhs...)
	p.root, p.sendCK = rootStep(p.root, dh(p.ratchet.priv, spk))
	pt := sym.Bytes("body", 5)
	m := cat([]byte{0x33}, first, field(2, base.wire()), field(3, p.id.wire()), field(4, p.send(pt)), num(5, 77), num(6, 32))
	deliver(b, b.cipher(a), wire{m, protocol.PREKEY_TYPE}, pt, "the library reads the first message")
	st := b.st.LoadSession(a.addr).SessionState()
	sym.Assert(st.RemoteRegistrationID() == 77, "registration id")
	talkFrom(b, a, p, acts, 0)
}

// talkFrom exchanges messages in every order of turns; the library has sent
// sent messages on the chain before the one it is about to use.
func talkFrom(u, other *user, p *peer, acts int, sent uint32) {
	c := u.cipher(other)
	prev := sent
	if prev > 0 {
		prev--
	}
	n := uint32(0) // sent on the current chain
	for i := 0; i < acts; i++ {
		pt := append([]byte{byte(i)}, sym.Bytes("body", 3)...)
		if sym.Choose("act", 2) == 0 {
			m := send(c, pt)
			sym.Assert(m.t == protocol.WHISPER_TYPE, "an ordinary message")
			sym.Assert(p.recv(m.b, pt, prev), "the peer reads the library")
			n++
			continue
		}
		if p.sent == 0 { // a new chain makes the library turn its own
			prev = n
			if prev > 0 {
				prev--
			}
			n = 0
		}
		deliver(u, c, wire{p.send(pt), protocol.WHISPER_TYPE}, pt, "the library reads the peer")
	}
	sym.Reach("ok")
}

// C22Chain: message and chain keys at any position.
//gosym:prop=C22 tier=both reach=ok
//gosym:bound any 32-byte chain key at any index; four steps
func C22Chain() {
	ck := sym.Bytes("ck", 32)
	i := sym.Uint32("i")
	k := chain.NewKey(kdf.DeriveSecrets, clone(ck), i)
	for n := uint32(0); n < 4; n++ {
		seed, next := chainStep(ck)
		w := hkdf(seed, nil, "WhisperMessageKeys", 80)
		m := k.MessageKeys()
		sym.Assert(sym.EqBytes(m.CipherKey(), w[:32]) && len(m.CipherKey()) == 32, "cipher key")
		sym.Assert(sym.EqBytes(m.MacKey(), w[32:64]), "MAC key")
		sym.Assert(sym.EqBytes(m.Iv(), w[64:]), "IV")
		sym.Assert(m.Index() == i+n && k.Index() == i+n, "index")
		sym.Assert(sym.EqBytes(k.Key(), ck), "chain key left alone")
		k, ck = k.NextKey(), next
	}
	sym.Assert(sym.EqBytes(k.Key(), ck) && k.Index() == i+4, "next chain key")
	sym.Reach("ok")
}

// C22GroupChain: group message and chain keys at any position.
//gosym:prop=C22 tier=both reach=ok
//gosym:bound any 32-byte chain key at any iteration; four steps
func C22GroupChain() {
	ck := sym.Bytes("ck", 32)
	i := sym.Uint32("i")
	k := gratchet.NewSenderChainKey(i, clone(ck))
	for n := uint32(0); n < 4; n++ {
		seed, next := chainStep(ck)
		w := hkdf(seed, nil, "WhisperGroup", 48)
		m, err := k.SenderMessageKey()
		sym.Assert(err == nil, "derives")
		sym.Assert(sym.EqBytes(m.Iv(), w[:16]), "IV")
		sym.Assert(sym.EqBytes(m.CipherKey(), w[16:]) && len(m.CipherKey()) == 32, "cipher key")
		sym.Assert(m.Iteration() == i+n && k.Iteration() == i+n, "iteration")
		sym.Assert(sym.EqBytes(k.Seed(), ck), "chain key left alone")
		k, ck = k.Next(), next
	}
	sym.Assert(sym.EqBytes(k.Seed(), ck) && k.Iteration() == i+4, "next chain key")
	sym.Reach("ok")
}

// C22Hkdf: key derivation is RFC 5869.
//gosym:prop=C22 tier=both shard=ikm:4 shard=out:6:4 reach=ok
//gosym:bound any input of 0, 32, 128 or 160 bytes, any 32-byte salt or none, the four labels in use, 16, 48, 64, 80, 33 or 128 bytes out
func C22Hkdf() {
	ikm := sym.Bytes("ikm", []int{32, 0, 128, 160}[sym.Choose("ikm", 4)])
	n := []int{64, 80, 48, 16, 33, 128}[sym.Choose("out", 6)]
	var salt []byte
	if sym.Choose("salt", 2) == 1 {
		salt = sym.Bytes("salt", 32)
	}
	info := []string{"WhisperText", "WhisperRatchet", "WhisperMessageKeys", "WhisperGroup"}[sym.Choose("info", 4)]
	got, err := kdf.DeriveSecrets(clone(ikm), clone(salt), []byte(info), n)
	sym.Assert(err == nil && len(got) == n, "derives")
	sym.Assert(sym.EqBytes(got, hkdf(ikm, salt, info, n)), "RFC 5869")
	sym.Reach("ok")
}

// C22GroupSend: the library's group messages as an independent member reads them.
//gosym:prop=C22 tier=both shard=n:4 reach=ok
//gosym:bound protocol buffers; all keys; messages 1 to 4 of a sender key with texts of 15, 16, 20 and 0 bytes
func C22GroupSend() {
	n := sym.Choose("n", 4)
	g := newGroup(0, 0)
	d := g.dist()
	sym.Assert(d[0] == 0x33, "version")
	nums, s := fields(d[1:])
	id, ck := nums[1], s[3]
	sym.Assert(sym.EqBytes(d, cat([]byte{0x33}, num(1, id), num(2, 0), field(3, ck), field(4, s[4]))), "distribution message encoding")
	sym.Assert(len(ck) == 32 && len(s[4]) == 33, "key lengths")
	for i := 0; i <= n; i++ {
		pt := sym.Bytes("text", []int{15, 16, 20, 0}[i])
		m := gsend(g.a, g.name, pt)
		seed, next := chainStep(ck)
		w := hkdf(seed, nil, "WhisperGroup", 48)
		want := cat([]byte{0x33}, num(1, id), num(2, uint32(i)), field(3, cbc(w[16:], w[:16], pt)))
		sym.Assert(len(m) == len(want)+64, "message length")
		sym.Assert(sym.EqBytes(m[:len(want)], want), "message encoding")
		var sig [64]byte
		copy(sig[:], m[len(want):])
		sym.Assert(ecc.VerifySignature(ecc.NewDjbECPublicKey(key32(s[4][1:])), want, sig), "signature over everything before it")
		ck = next
	}
	sym.Reach("ok")
}

// C22GroupReceive: the library reads an independent sender's group messages.
//gosym:prop=C22 tier=both shard=skip:3 reach=ok
//gosym:bound protocol buffers; all keys; any key id below 128 and start below 100; 0 to 2 messages skipped; texts of 20 bytes
func C22GroupReceive() {
	skip := sym.Choose("skip", 3)
	u := gUser("member", 0)
	u.grp = groups.NewGroupSessionBuilder(u.st, u.ser)
	name := protocol.NewSenderKeyName("group", protocol.NewSignalAddress("alice", 1))
	sk, _ := keyhelper.GenerateSenderSigningKey()
	id, it := sym.Uint32("id"), sym.Uint32("it")
	sym.Assume(id < 128 && it < 100)
	ck := sym.Bytes("ck", 32)
	d := cat([]byte{0x33}, num(1, id), num(2, it), field(3, ck), field(4, userPair(sk).wire()))
	g := &group{name: name}
	g.process(u, d)
	for i := 0; i < 4; i++ {
		seed, next := chainStep(ck)
		w := hkdf(seed, nil, "WhisperGroup", 48)
		pt := sym.Bytes("text", 20)
		m := cat([]byte{0x33}, num(1, id), num(2, it+uint32(i)), field(3, cbc(w[16:], w[:16], pt)))
		sig := ecc.CalculateSignature(sk.PrivateKey(), m)
		if i >= skip {
			got, err := grecv(u, name, append(m, sig[:]...))
			sym.Assert(err == nil, "accepted")
			sym.Assert(err != nil || sym.EqBytes(got, pt), "plaintext")
		}
		ck = next
	}
	sym.Reach("ok")
}
