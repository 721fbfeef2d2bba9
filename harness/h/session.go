package h

import (
	"github.com/prospik/libsignal-protocol-go/session"
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// C01Agree
//
//gosym:prop=C01 tier=both shard=ser:2 shard=persist:2 shard=pre:2 reach=ok
//gosym:bound both serializers, live and serialising stores, with and without a one-time prekey; all keys; plaintexts of 20 and 7 bytes; three messages
func C01Agree() {
	ser := serializerN(sym.Choose("ser", 2))
	persist := sym.Choose("persist", 2) == 1
	pre := sym.Choose("pre", 2) == 1
	c := newConv(ser, persist, pre)
	pt := sym.Bytes("pt", 20)
	deliver(c.b, c.cb, send(c.ca, pt), pt, "first message")
	pt2 := sym.Bytes("pt", 7)
	deliver(c.a, c.ca, send(c.cb, pt2), pt2, "reply")
	deliver(c.b, c.cb, send(c.ca, pt), pt, "third message")
	sym.Reach("ok")
}

// C01Identities: both ends hold the same root secrets bound to both identities.
//
//gosym:prop=C01 tier=both shard=pre:2 reach=ok
//gosym:bound all keys and registration ids; serialising stores, JSON
func C01Identities() {
	ser := serializerN(0)
	c := &conv{}
	pre := sym.Choose("pre", 2) == 1
	ra, rb := sym.Uint32("rega"), sym.Uint32("regb")
	c.a = newUser("alice", ser, true, ra, 31, 41)
	c.b = newUser("bob", ser, true, rb, 32, 42)
	sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(pre)) == nil, "bundle accepted")
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	c.established()
	sa, sb := c.a.st.LoadSession(c.b.addr).SessionState(), c.b.st.LoadSession(c.a.addr).SessionState()
	sym.Assert(sym.EqBytes(sa.RemoteIdentityKey().Serialize(), c.b.st.id.PublicKey().Serialize()), "initiator records the responder's identity")
	sym.Assert(sym.EqBytes(sb.RemoteIdentityKey().Serialize(), c.a.st.id.PublicKey().Serialize()), "responder records the initiator's identity")
	sym.Assert(sym.EqBytes(sa.LocalIdentityKey().Serialize(), c.a.st.id.PublicKey().Serialize()), "initiator records its own identity")
	sym.Assert(sym.EqBytes(sb.LocalIdentityKey().Serialize(), c.b.st.id.PublicKey().Serialize()), "responder records its own identity")
	sym.Assert(sa.RemoteRegistrationID() == rb && sa.LocalRegistrationID() == ra, "initiator registration ids")
	sym.Assert(sb.RemoteRegistrationID() == ra && sb.LocalRegistrationID() == rb, "responder registration ids")
	sym.Assert(sym.EqBytes(sa.SenderBaseKey(), sb.SenderBaseKey()), "same base key")
	sym.Assert(sa.Version() == protocol.CurrentVersion && sb.Version() == protocol.CurrentVersion, "version")
	sym.Assert(c.a.st.trusted["bob:1"] != nil && sym.EqBytes(c.a.st.trusted["bob:1"].Serialize(), c.b.st.id.PublicKey().Serialize()), "initiator saves the identity")
	sym.Assert(c.b.st.trusted["alice:1"] != nil && sym.EqBytes(c.b.st.trusted["alice:1"].Serialize(), c.a.st.id.PublicKey().Serialize()), "responder saves the identity")
	sym.Reach("ok")
}

// C01Ids: any prekey and registration ids will do.
//
//gosym:prop=C01 tier=both shard=ser:2 shard=persist:2 shard=pre:2 shard=id:7 reach=ok
//gosym:bound every one-time and signed prekey id and registration id (JSON); ids 0, 1, 0x7f, 0x80, 0xfffffe, 0xffffff, 2^32-1 (both formats); two messages before the reply, delivered in either order
func C01Ids() {
	ser := sym.Choose("ser", 2)
	c := &conv{}
	ids := []uint32{0, 1, 0x7f, 0x80, 0xfffffe, 0xffffff, 1<<32 - 1}
	i := sym.Choose("id", len(ids))
	pid, sid, reg := ids[i], ids[(i+3)%len(ids)], ids[(i+5)%len(ids)]
	if ser == 0 && i == 2 {
		pid, sid, reg = sym.Uint32("pid"), sym.Uint32("sid"), sym.Uint32("reg")
	}
	persist := sym.Choose("persist", 2) == 1
	pre := sym.Choose("pre", 2) == 1
	c.a = newUser("alice", serializerN(ser), persist, reg, 31, 41)
	c.b = newUser("bob", serializerN(ser), persist, sid, sid, pid)
	sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(pre)) == nil, "bundle accepted")
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	p, q := []byte("one"), []byte("two")
	w1, w2 := send(c.ca, p), send(c.ca, q)
	for _, w := range []wire{w1, w2} {
		m, err := protocol.NewPreKeySignalMessageFromBytes(clone(w.b), c.a.ser.PreKeySignalMessage, c.a.ser.SignalMessage)
		sym.Assert(err == nil, "parses")
		has := m.PreKeyID() != nil && !m.PreKeyID().IsEmpty
		sym.Assert(has == pre && (!pre || m.PreKeyID().Value == pid), "one-time prekey id")
		sym.Assert(m.SignedPreKeyID() == sid && m.RegistrationID() == reg, "signed prekey and registration id")
	}
	if sym.Choose("swap", 2) == 1 {
		w1, w2, p, q = w2, w1, q, p
	}
	deliver(c.b, c.cb, w1, p, "first message")
	deliver(c.b, c.cb, w2, q, "second message")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	deliver(c.b, c.cb, send(c.ca, q), q, "third message")
	sym.Reach("ok")
}

type flight struct {
	from int
	w    wire
	pt   []byte
	done bool
}

// sched runs a schedule of sends, deliveries and (optionally) session resets,
// chosen step by step, and returns everything that was sent.
type sched struct {
	c     *conv
	msgs  []*flight
	bOpen bool // b has a session
	n     int
	empty bool // messages have no text
}

func (s *sched) users(k int) (*user, *user) {
	if k == 0 {
		return s.c.a, s.c.b
	}
	return s.c.b, s.c.a
}

func (s *sched) send(k int) {
	s.renew()
	ciph := s.c.ca
	if k == 1 {
		ciph = s.c.cb
	}
	s.n++
	pt := []byte{byte(s.n), 0, byte(k)}
	pt[1] = sym.Byte("body")
	if s.empty {
		pt = nil
	}
	s.msgs = append(s.msgs, &flight{from: k, w: send(ciph, pt), pt: pt})
}

// renew makes new ciphers for users with live stores; the others keep theirs.
func (s *sched) renew() {
	if !s.c.a.st.persist {
		s.c.ca, s.c.cb = s.c.a.cipher(s.c.b), s.c.b.cipher(s.c.a)
	}
}

func (s *sched) recv(f *flight, label string) {
	s.renew()
	if f.from == 0 {
		deliver(s.c.b, s.c.cb, f.w, f.pt, label)
		s.bOpen = true
	} else {
		deliver(s.c.a, s.c.ca, f.w, f.pt, label)
	}
	f.done = true
}

func (s *sched) again(f *flight) error {
	s.renew()
	var err error
	if f.from == 0 {
		_, err = s.c.b.recv(s.c.cb, f.w)
	} else {
		_, err = s.c.a.recv(s.c.ca, f.w)
	}
	return err
}

// pending returns the oldest or newest undelivered message to user k.
func (s *sched) pending(k int, newest bool) *flight {
	var r *flight
	n := 0
	for _, f := range s.msgs {
		if f.from != k && !f.done {
			n++
			if r == nil || newest {
				r = f
			}
		}
	}
	if newest && n < 2 {
		return nil
	}
	return r
}

func (s *sched) step(acts int) {
	a := sym.Choose("act", acts)
	switch a {
	case 0:
		s.send(0)
	case 1:
		sym.Assume(s.bOpen)
		s.send(1)
	case 2, 3, 4, 5:
		f := s.pending(a&1, a >= 4)
		sym.Assume(f != nil)
		s.recv(f, "delivery")
	case 6, 7:
		u, v := s.users(a - 6)
		err := u.builder(v).ProcessBundle(v.bundle(false))
		sym.Assert(err == nil, "new bundle accepted")
		if a == 7 {
			s.bOpen = true
		}
	}
}

func (s *sched) flush(reverse bool) {
	if reverse {
		for i := len(s.msgs) - 1; i >= 0; i-- {
			if !s.msgs[i].done {
				s.recv(s.msgs[i], "late delivery")
			}
		}
		return
	}
	for _, f := range s.msgs {
		if !f.done {
			s.recv(f, "late delivery")
		}
	}
}

func newSched(ser int, persist, pre bool) *sched {
	s := &sched{c: newConv(serializerN(ser), persist, pre)}
	s.send(0)
	return s
}

// C02Schedule: every message of every schedule decrypts to its plaintext.
//
//gosym:prop=C02 tier=quick shard=mode:2 shard=act:6 reach=ok secs=200
//gosym:bound every schedule of 5 further sends and deliveries (oldest or newest pending message) after the first message, then the rest in either order; live store with protobuf, serialising store with JSON
func C02Schedule() { c02(5) }

// C02ScheduleLong
//
//gosym:prop=C02 tier=thorough shard=mode:2 shard=act:6 shard=act#1:6 reach=ok
//gosym:bound every schedule of 7 sends and deliveries, as above
func C02ScheduleLong() { c02(7) }

func c02(n int) {
	m := sym.Choose("mode", 2)
	s := newSched(1-m, m == 1, true)
	for i := 0; i < n; i++ {
		s.step(6)
	}
	s.flush(sym.Choose("rev", 2) == 1)
	s.send(0)
	s.flush(false)
	s.send(1)
	s.flush(false)
	sym.Reach("ok")
}

// C02Reset: messages in flight across new sessions still decrypt.
//
//gosym:prop=C02 tier=quick shard=act:8 reach=ok secs=200
//gosym:bound every schedule of 4 sends, deliveries and session resets by either side; serialising store, JSON
func C02Reset() { c02reset(4) }

// C02ResetLong
//
//gosym:prop=C02 tier=thorough shard=act:8 shard=act#1:8 reach=ok
//gosym:bound every schedule of 6 sends, deliveries and session resets by either side; serialising store, JSON
func C02ResetLong() { c02reset(6) }

func c02reset(n int) {
	s := newSched(0, true, false)
	for i := 0; i < n; i++ {
		s.step(8)
	}
	s.flush(sym.Choose("rev", 2) == 1)
	s.send(0)
	s.flush(false)
	s.send(1)
	s.flush(false)
	sym.Reach("ok")
}

// C02Chains: messages of the five latest chains still decrypt.
//
//gosym:prop=C02 tier=both shard=mode:2 shard=rounds:5 reach=ok
//gosym:bound 1..5 changes of direction, one or two messages of every chain (the second without text) withheld and delivered at the end in either order
func C02Chains() {
	mode := sym.Choose("mode", 2)
	rounds := 1 + sym.Choose("rounds", 5)
	two := sym.Choose("two", 2) == 1
	s := &sched{c: newConv(serializerN(1-mode), mode == 1, true)}
	s.send(0)
	s.recv(s.msgs[0], "first message")
	var late []*flight
	for i := 0; i < rounds; i++ {
		for k := 1; k >= 0; k-- {
			s.send(k)
			late = append(late, s.msgs[len(s.msgs)-1])
			if two {
				s.empty = true
				s.send(k)
				s.empty = false
				late = append(late, s.msgs[len(s.msgs)-1])
			}
			s.send(k)
			s.recv(s.msgs[len(s.msgs)-1], "last of the chain")
		}
	}
	s.flush(sym.Choose("rev", 2) == 1)
	for k := 0; k < 2; k++ {
		s.send(k)
		s.flush(false)
	}
	for _, f := range late {
		sym.Assert(s.again(f) != nil, "decrypts once")
	}
	sym.Reach("ok")
}

// C02Sessions: messages of several sessions of the same peer arrive in any
// order.
//
//gosym:prop=C02 tier=both shard=o0:4 shard=n:5:3 reach=ok secs=200
//gosym:bound 3 or 4 (thorough: 5) sessions started by one user, two messages in each, the first ones delivered in every order, and 12 (thorough: 41) sessions in four orders, with a reply after each or none, the second ones in either order; serialising stores
func C02Sessions() { manySessions(false) }

// C04Sessions: and each of them once.
//
//gosym:prop=C04 tier=both shard=o0:4 shard=n:5:3 reach=ok secs=200
//gosym:bound as C02Sessions; every message again after each delivery or at the end
func C04Sessions() { manySessions(true) }

func manySessions(replay bool) {
	o := sym.Choose("o0", 4)
	n := []int{3, 4, 12, 5, 41}[sym.Choose("n", 5)]
	stride := 0
	if n > 5 {
		stride = []int{1, n - 1, 7, 5}[o]
		o = n - 1
	}
	sym.Assume(o < n)
	s := &sched{c: newConv(serializerN(0), true, false)}
	var first, second []*flight
	for i := 0; i < n; i++ {
		if i > 0 {
			sym.Assert(s.c.a.builder(s.c.b).ProcessBundle(s.c.b.bundle(false)) == nil, "new bundle accepted")
		}
		s.send(0)
		s.send(0)
		first = append(first, s.msgs[2*i])
		second = append(second, s.msgs[2*i+1])
	}
	reply := !replay && sym.Choose("reply", 2) == 1
	now := replay && sym.Choose("now", 2) == 1
	for i := 0; i < n; i++ {
		k := o
		if stride > 0 {
			k = (o + stride*i) % len(first)
		} else if i > 0 {
			k = sym.Choose("o", len(first))
		}
		s.recv(first[k], "first message of a session")
		if now {
			sym.Assert(s.again(first[k]) != nil, "replay rejected")
		}
		first = append(append([]*flight{}, first[:k]...), first[k+1:]...)
		if reply {
			s.send(1)
			s.recv(s.msgs[len(s.msgs)-1], "reply")
		}
	}
	if sym.Choose("rev", 2) == 1 {
		for i := range second {
			s.recv(second[i], "second message of a session")
		}
	} else {
		for i := range second {
			s.recv(second[len(second)-1-i], "second message of a session")
		}
	}
	if replay {
		for _, f := range s.msgs {
			sym.Assert(s.again(f) != nil, "replay rejected")
		}
	}
	for k := 1; k >= 0; k-- {
		s.send(k)
		s.flush(false)
	}
	sym.Reach("ok")
}

// C04Replay: a message that was decrypted is never decrypted again.
//
//gosym:prop=C04 tier=quick shard=mode:2 shard=act:6 reach=ok secs=200
//gosym:bound every schedule of 4 sends and deliveries; then every delivered message once more, at the end and after reloading
func C04Replay() { c04(4, 6, -1) }

// C04ReplayReset
//
//gosym:prop=C04 tier=quick shard=act:8 reach=ok secs=200
//gosym:bound every schedule of 4 sends, deliveries and session resets; serialising store, JSON; then every delivered message once more
func C04ReplayReset() { c04(4, 8, 1) }

// C04ReplayLong
//
//gosym:prop=C04 tier=thorough shard=mode:2 shard=act:6 shard=act#1:6 reach=ok
//gosym:bound as C04Replay with 6 steps
func C04ReplayLong() { c04(6, 6, -1) }

// C04ReplayResetLong
//
//gosym:prop=C04 tier=thorough shard=act:8 shard=act#1:8 reach=ok
//gosym:bound as C04ReplayReset with 6 steps
func C04ReplayResetLong() { c04(6, 8, 1) }

func c04(n, acts, mode int) {
	if mode < 0 {
		mode = sym.Choose("mode", 2)
	}
	s := newSched(1-mode, mode == 1, acts == 6)
	for i := 0; i < n; i++ {
		s.step(acts)
		if k := sym.Choose("replay", 2); k == 1 {
			// the message delivered last, if any, comes again at once
			var f *flight
			for _, x := range s.msgs {
				if x.done {
					f = x
				}
			}
			sym.Assume(f != nil)
			sym.Assert(s.again(f) != nil, "replay rejected at once")
			break
		}
	}
	s.flush(false)
	for _, f := range s.msgs {
		sym.Assert(s.again(f) != nil, "replay rejected")
	}
	s.send(0)
	s.flush(false)
	sym.Reach("ok")
}

var _ = record.NewSession

// C02Plain: ciphers made from the stores alone.
//
//gosym:prop=C02 tier=both shard=mode:2 shard=order:6 reach=ok
//gosym:bound an established session continued with ciphers that have no session builder, three messages each way in every order; the builders given one store or four
func C02Plain() {
	mode := sym.Choose("mode", 2)
	c := newConv(serializerN(1-mode), mode == 1, true)
	a, b := c.a, c.b
	c.ca = session.NewCipher(session.NewBuilder(a.st, a.st, a.st, a.st, b.addr, a.ser), b.addr)
	c.cb = session.NewCipher(session.NewBuilder(b.st, b.st, b.st, b.st, a.addr, b.ser), a.addr)
	c.established()
	c.ca = session.NewCipherFromSession(b.addr, a.st, a.st, a.st, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
	c.cb = session.NewCipherFromSession(a.addr, b.st, b.st, b.st, b.ser.PreKeySignalMessage, b.ser.SignalMessage)
	o := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	for k := 0; k < 2; k++ {
		u, from, to := b, c.ca, c.cb
		if k == 1 {
			u, from, to = a, c.cb, c.ca
		}
		var ws []wire
		var ps [][]byte
		for i := 0; i < 3; i++ {
			ps = append(ps, sym.Bytes("pt", 3))
			ws = append(ws, send(from, ps[i]))
		}
		for _, i := range o {
			deliver(u, to, ws[i], ps[i], "message")
			_, err := u.recv(to, ws[i])
			sym.Assert(err != nil, "decrypts once")
		}
	}
	sym.Reach("ok")
}

// lengths are lengths of texts at which paddings, blocks and encoded lengths change.
var lengths = []int{0, 1, 15, 16, 17, 31, 32, 100, 111, 112, 127, 128, 129, 255, 256, 1000, 4095, 4096, 16300, 16384, 66000}

// C02Sizes: texts of any length are read in any order.
//
//gosym:prop=C02 tier=both shard=size:21 reach=ok cost=3
//gosym:bound texts of 0, 1, 15..17, 31, 32, 100, 111, 112, 127..129, 255, 256, 1000, 4095, 4096, 16300, 16384 and 66000 bytes of any content, as first message, reply, skipped and next message; both formats
func C02Sizes() {
	n := lengths[sym.Choose("size", len(lengths))]
	c := newConv(serializerN(sym.Choose("ser", 2)), true, true)
	text := func() []byte { return sym.Bytes("text", n) }
	p := text()
	deliver(c.b, c.cb, send(c.ca, p), p, "first message")
	p = text()
	deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	p, q := text(), text()
	w, v := send(c.ca, p), send(c.ca, q)
	deliver(c.b, c.cb, v, q, "later message")
	deliver(c.b, c.cb, w, p, "skipped message")
	sym.Reach("ok")
}
