package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

// ---- C31: a stop at any moment loses nothing ----

// copyOf is the store as it is on disk now.
func (s *store) copyOf() *store {
	r := newStore(s.ser, s.persist)
	r.id, r.regID, r.stores, r.skStores = s.id, s.regID, s.stores, s.skStores
	for k, v := range s.sessB {
		r.sessB[k] = clone(v)
	}
	for k, v := range s.skB {
		r.skB[k] = clone(v)
	}
	for k, v := range s.pre {
		r.pre[k] = v
	}
	for k, v := range s.signed {
		r.signed[k] = v
	}
	for k, v := range s.trusted {
		r.trusted[k] = v
	}
	return r
}

// stopIn runs f, which stops in one of the calls it makes, or as it returns;
// afterwards u goes on with what its store held at that moment.  It tells
// whether f came to its end.
func stopIn(u *user, f func()) bool {
	var left *store
	onEvent = func(string) {
		if sym.Choose("stop", 2) == 1 {
			onEvent = nil
			left = u.st.copyOf()
		}
	}
	f()
	onEvent = nil
	ended := left == nil
	if ended {
		left = u.st.copyOf()
	}
	u.st = left
	u.grp = groups.NewGroupSessionBuilder(u.st, u.ser)
	u.gc = nil
	return ended
}

// again is what the messages that matter do afterwards.
func (c *conv) again(label string) {
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	x, y, z := []byte("x"), []byte("y"), []byte("z")
	deliver(c.b, c.cb, send(c.ca, x), x, label+": next")
	deliver(c.a, c.ca, send(c.cb, y), y, label+": reply")
	deliver(c.b, c.cb, send(c.ca, z), z, label+": later")
}

// C31Send: the sender stops.
//
//gosym:prop=C31 tier=both shard=at:4 shard=mode:2 reach=stopped,ended
//gosym:bound sending in a new session, in the current chain, as the first of a chain, after unread messages; a stop before every store call and after the last; then everything read and three more messages
func C31Send() {
	at, mode := sym.Choose("at", 4), sym.Choose("mode", 2)
	c := newConv(serializerN(mode), true, true)
	p, late := []byte("p"), []byte("late")
	var in wire
	if at > 0 {
		c.established()
		in = send(c.cb, late)
	}
	switch at {
	case 1:
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	case 3:
		c.other = append(c.other, past{send(c.ca, p), p})
	}
	pt := sym.Bytes("pt", 5)
	var w wire
	ended := stopIn(c.a, func() { w = send(c.ca, pt) })
	c.ca = c.a.cipher(c.b)
	q := []byte("second")
	w2 := send(c.ca, q)
	deliver(c.b, c.cb, w2, q, "sent after a stop")
	if ended {
		// the message left just before the stop
		deliver(c.b, c.cb, w, pt, "sent before a stop")
		sym.Reach("ended")
	} else {
		sym.Reach("stopped")
	}
	for _, o := range c.other {
		deliver(c.b, c.cb, o.w, o.pt, "sent earlier")
	}
	if at > 0 {
		deliver(c.a, c.ca, in, late, "under way")
	}
	c.again("after a stop of the sender")
}

// C31Receive: the receiver stops.
//
//gosym:prop=C31 tier=both shard=at:7 shard=mode:2 reach=stopped,ended
//gosym:bound reading a message of the current chain, of a new chain, a skipped one, one of an archived session, a first message, a first message of a further session, one without a one-time prekey; a stop before every store call and after the last; the message is delivered again
func C31Receive() {
	at, mode := sym.Choose("at", 7), sym.Choose("mode", 2)
	c := newConv(serializerN(mode), true, at != 6)
	p, pt := []byte("p"), sym.Bytes("pt", 5)
	var w wire
	if at < 4 || at == 5 {
		c.established()
	}
	switch at {
	case 0:
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	case 2:
		w = send(c.ca, pt)
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	case 3:
		w = send(c.ca, pt)
		sym.Assert(c.b.builder(c.a).ProcessBundle(c.a.bundle(true)) == nil, "bundle accepted")
	case 5:
		c.b.addPre(43)
		sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
	}
	if w.b == nil {
		w = send(c.ca, pt)
	}
	c.other = append(c.other, past{send(c.ca, p), p})
	stores := c.b.st.stores
	var got []byte
	var err error
	ended := stopIn(c.b, func() { got, err = c.b.recv(c.cb, w) })
	c.cb = c.b.cipher(c.a)
	if ended {
		sym.Assert(err == nil && sym.EqBytes(got, pt), "read before a stop")
		sym.Reach("ended")
	} else {
		sym.Reach("stopped")
	}
	if c.b.st.stores == stores {
		sym.Assert(!ended, "what was read is stored")
		deliver(c.b, c.cb, w, pt, "delivered again after a stop")
	}
	_, err = c.b.recv(c.cb, w)
	sym.Assert(err != nil, "read at most once in spite of a stop")
	for _, o := range c.other {
		deliver(c.b, c.cb, o.w, o.pt, "sent next")
	}
	c.again("after a stop of the receiver")
}

// C31Bundle: a stop while a bundle is processed.
//
//gosym:prop=C31 tier=both shard=est:3 shard=mode:2 reach=stopped,ended
//gosym:bound a bundle without a session, in an established session and in one that is not acknowledged; a stop before every store call and after the last; what was under way is read, and the bundle processed again or not
func C31Bundle() {
	est, mode := sym.Choose("est", 3), sym.Choose("mode", 2)
	ser := serializerN(mode)
	c := &conv{a: newUser("alice", ser, true, 1001, 31, 41), b: newUser("bob", ser, true, 1002, 32, 42)}
	c.ca, c.cb = c.a.cipher(c.b), c.b.cipher(c.a)
	p, late := []byte("p"), []byte("late")
	var in, out wire
	if est > 0 {
		sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted")
		c.b.addPre(43)
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		if est == 1 {
			deliver(c.a, c.ca, send(c.cb, p), p, "setup")
		}
		in, out = send(c.cb, late), send(c.ca, late)
	}
	stores := c.a.st.stores
	var err error
	ended := stopIn(c.a, func() { err = c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) })
	if ended {
		sym.Assert(err == nil, "bundle accepted")
		sym.Reach("ended")
	} else {
		sym.Reach("stopped")
	}
	sym.Assert(!ended || c.a.st.stores > stores, "the session is stored")
	if c.a.st.stores == stores && est == 0 || sym.Choose("repeat", 2) == 1 {
		sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(true)) == nil, "bundle accepted after a stop")
	}
	c.ca = c.a.cipher(c.b)
	if est > 0 {
		deliver(c.a, c.ca, in, late, "under way to the one that stopped")
	}
	deliver(c.b, c.cb, send(c.ca, p), p, "first after a stop")
	if est > 0 {
		deliver(c.b, c.cb, out, late, "under way to the other")
	}
	c.again("after a stop with a bundle")
}

// C31Group: a stop of the sender or a member of a group.
//
//gosym:prop=C31 tier=both shard=op:4 shard=mode:2 reach=stopped,ended
//gosym:bound creating a sender key, sending, reading (next or skipped), processing a distribution message; a stop before every store call and after the last; repeated after it
func C31Group() {
	op, mode := sym.Choose("op", 4), sym.Choose("mode", 2)
	ser := serializerN(mode)
	c := &conv{a: newUser("alice", ser, true, 1001, 31, 41), b: newUser("bob", ser, true, 1002, 32, 42)}
	n := protocol.NewSenderKeyName("g", c.a.addr)
	text := func(s string) []byte { return append([]byte(s), sym.Bytes("text", 2)...) }
	read := func(b, want []byte, label string) {
		got, err := grecv(c.b, n, b)
		sym.Assert(err == nil, label+": accepted")
		sym.Assert(err != nil || sym.EqBytes(got, want), label+": text")
	}
	create := func() []byte {
		m, err := c.a.grp.Create(n)
		sym.Assert(err == nil, "sender key created")
		if err != nil {
			sym.Assume(false)
		}
		shortID(m)
		return m.Serialize()
	}
	note := func(ended bool) {
		if ended {
			sym.Reach("ended")
		} else {
			sym.Reach("stopped")
		}
	}
	var d []byte
	if op == 0 {
		ended := stopIn(c.a, func() { d = create() })
		note(ended)
		if ended {
			c.b.join(n, d)
			t := text("x")
			read(gsend(c.a, n, t), t, "sent with a key created before a stop")
		} else {
			c.b.join(n, create())
		}
	} else if op == 3 {
		d = create()
		skStores := c.b.st.skStores
		first := text("first")
		var w []byte
		if sym.Choose("before", 2) == 1 {
			w = gsend(c.a, n, first)
		}
		note(stopIn(c.b, func() { c.b.join(n, d) }))
		if c.b.st.skStores == skStores || sym.Choose("repeat", 2) == 1 {
			c.b.join(n, d)
		}
		if w != nil {
			read(w, first, "sent before a member stopped")
		}
	} else {
		c.b.join(n, create())
		t0, t1, t2 := text("0"), text("1"), text("2")
		w0, w1 := gsend(c.a, n, t0), gsend(c.a, n, t1)
		if op == 1 {
			var w2 []byte
			ended := stopIn(c.a, func() { w2 = gsend(c.a, n, t2) })
			note(ended)
			t := text("3")
			read(gsend(c.a, n, t), t, "sent after a stop")
			if ended {
				read(w2, t2, "sent before a stop")
			}
			read(w0, t0, "sent earlier")
			read(w1, t1, "sent earlier")
		} else {
			if sym.Choose("skipped", 2) == 1 {
				read(w1, t1, "setup")
				w1 = nil
			}
			skStores := c.b.st.skStores
			var got []byte
			var err error
			ended := stopIn(c.b, func() { got, err = grecv(c.b, n, w0) })
			note(ended)
			if ended {
				sym.Assert(err == nil && sym.EqBytes(got, t0), "read before a stop")
			}
			if c.b.st.skStores == skStores {
				sym.Assert(!ended, "what was read is stored")
				read(w0, t0, "delivered again after a stop")
			}
			_, err = grecv(c.b, n, w0)
			sym.Assert(err != nil, "read at most once in spite of a stop")
			if w1 != nil {
				read(w1, t1, "sent next")
			}
		}
	}
	for i := 0; i < 2; i++ {
		t := text("more")
		read(gsend(c.a, n, t), t, "after a stop in a group")
	}
}
