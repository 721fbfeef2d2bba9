package h

import (
	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/session"
)

// ---- C30: sessions and groups are independent of each other ----

// eventLog reports every log call.
type eventLog struct{}

func (eventLog) Debug(caller, message string)   { event("") }
func (eventLog) Info(caller, message string)    { event("") }
func (eventLog) Warning(caller, message string) { event("") }
func (eventLog) Error(caller, message string)   { event("") }
func (eventLog) Configure(settings string)      {}

// link is what alice shares with one peer: a session, and a group each.
type link struct {
	a, p       *user
	ca, cp     *session.Cipher
	out, in    *protocol.SenderKeyName // alice's group, the peer's
	own        []string                // the records that belong to it
	note       byte
	ready      wire   // a message of the peer, waiting
	first      wire   // a first message of the peer, waiting
	cast       []byte // a group message of the peer, waiting
	dist       []byte // a distribution message of the peer, waiting
	newIn      *protocol.SenderKeyName
	sent       wire
	sentGroup  []byte
	sentDist   []byte
	plain      []byte
	err        error
	bundleErr  error
	gotDist    *protocol.SenderKeyDistributionMessage
	needsFirst bool
}

func (l *link) text(s string) []byte { return append([]byte(s), l.note) }

func newLink(a *user, name string, dev uint32, group string, note byte) *link {
	note = note<<7 | sym.Bytes("note", 1)[0]&127
	p := newUser(name, a.ser, a.st.persist, 1000+dev, 50+dev, 60+dev)
	p.addr = protocol.NewSignalAddress(name, dev)
	l := &link{a: a, p: p, note: note}
	sym.Assert(a.builder(p).ProcessBundle(p.bundle(true)) == nil, "bundle accepted")
	l.ca, l.cp = a.cipher(p), p.cipher(a)
	deliver(p, l.cp, send(l.ca, l.text("a")), l.text("a"), "setup")
	deliver(a, l.ca, send(l.cp, l.text("b")), l.text("b"), "setup")
	l.out = protocol.NewSenderKeyName(group, a.addr)
	l.in = protocol.NewSenderKeyName("g", p.addr)
	l.newIn = protocol.NewSenderKeyName("h", p.addr)
	share(a, p, l.out)
	share(p, a, l.in)
	l.own = []string{akey(p.addr), skey(l.out), skey(l.in), skey(l.newIn), akey(a.addr)}
	return l
}

// share makes b read what a sends as n.
func share(a, b *user, n *protocol.SenderKeyName) {
	m, err := a.grp.Create(n)
	sym.Assert(err == nil, "sender key created")
	shortID(m)
	b.join(n, m.Serialize())
}

// shortID keeps the encoded id at one byte.
func shortID(m *protocol.SenderKeyDistributionMessage) {
	if sym.Symbolic() {
		sym.Assume(m.ID() < 128)
	}
}

func (u *user) join(n *protocol.SenderKeyName, b []byte) {
	d, err := protocol.NewSenderKeyDistributionMessageFromBytes(clone(b), u.ser.SenderKeyDistributionMessage)
	sym.Assert(err == nil, "distribution message parses")
	if err == nil {
		groups.NewGroupSessionBuilder(u.st, u.ser).Process(n, d)
	}
}

// prepare makes what the peer contributes to the operation.
func (l *link) prepare(op int) {
	switch op {
	case 1:
		l.ready = send(l.cp, l.text("ready"))
	case 2:
		sym.Assert(l.p.builder(l.a).ProcessBundle(l.a.bundle(true)) == nil, "bundle accepted")
		l.first = send(l.cp, l.text("first"))
	case 5:
		l.cast = gsend(l.p, l.in, l.text("cast"))
	case 6:
		m, err := l.p.grp.Create(l.newIn)
		sym.Assert(err == nil, "sender key created")
		shortID(m)
		l.dist = m.Serialize()
	}
}

// run is the operation, at alice.
func (l *link) run(op int) {
	switch op {
	case 0:
		l.sent = send(l.ca, l.text("sent"))
	case 1:
		l.plain, l.err = l.a.recv(l.ca, l.ready)
	case 2:
		l.plain, l.err = l.a.recv(l.ca, l.first)
	case 3:
		l.err = l.a.builder(l.p).ProcessBundle(l.p.bundle(false))
	case 4:
		l.sentGroup = gsend(l.a, l.out, l.text("group"))
	case 5:
		l.plain, l.err = grecv(l.a, l.in, l.cast)
	case 6:
		l.a.join(l.newIn, l.dist)
	}
}

// check looks at the outcome and goes on using everything.
func (l *link) check(op int) {
	ok := func(want string) {
		sym.Assert(l.err == nil, "accepted next to another session")
		sym.Assert(l.err != nil || sym.EqBytes(l.plain, l.text(want)), "the right text next to another session")
	}
	switch op {
	case 0:
		deliver(l.p, l.cp, l.sent, l.text("sent"), "sent next to another session")
	case 1:
		ok("ready")
	case 2:
		ok("first")
	case 3:
		sym.Assert(l.err == nil, "bundle accepted next to another session")
	case 4:
		l.groupText(l.p, l.out, l.sentGroup, "group")
	case 5:
		ok("cast")
	case 6:
		l.groupText(l.a, l.newIn, gsend(l.p, l.newIn, l.text("new")), "new")
	}
	deliver(l.p, l.cp, send(l.ca, l.text("x")), l.text("x"), "later")
	deliver(l.a, l.ca, send(l.cp, l.text("y")), l.text("y"), "later reply")
	deliver(l.p, l.cp, send(l.ca, l.text("z")), l.text("z"), "later still")
	l.groupText(l.p, l.out, gsend(l.a, l.out, l.text("v")), "v")
	l.groupText(l.a, l.in, gsend(l.p, l.in, l.text("w")), "w")
}

func (l *link) groupText(u *user, n *protocol.SenderKeyName, b []byte, want string) {
	pt, err := grecv(u, n, b)
	sym.Assert(err == nil, "group message accepted next to another session")
	sym.Assert(err != nil || sym.EqBytes(pt, l.text(want)), "the right group text next to another session")
}

// owned asserts that only the records of l are used.
func (l *link) owned(key string) {
	if key == "" {
		return
	}
	for _, k := range l.own {
		if k == key {
			return
		}
	}
	sym.Assert(false, "only the records of the peer are used: "+key)
}

// C30Interleave: an operation with one peer takes place while an operation
// with another waits in a call of a store or of the log.
//
//gosym:prop=C30 tier=both shard=op:7:7 secs=120 reach=interleaved
//gosym:bound two peers (two devices of one user), each with a session, a group of alice's and one of its own; sending, receiving, first messages, bundles, group sending, group receiving, distribution messages; the inner operation at every store or log call of the outer one
func C30Interleave() {
	op := sym.Choose("op", 7)
	mode := sym.Choose("mode", 2)
	onEvent = nil
	a := newUser("alice", serializerN(mode), mode == 0, 1001, 31, 41)
	l := newLink(a, "bob", 1, "g1", 1)
	m := newLink(a, "bob", 2, "g2", 2)
	old := logger.Logger
	var log logger.Loggable = eventLog{}
	logger.Setup(&log)
	l.prepare(op)
	inner := -1
	onEvent = func(key string) {
		l.owned(key)
		if inner < 0 && sym.Choose("now", 2) == 1 {
			outer := onEvent
			onEvent = nil
			inner = sym.Choose("inner", 7)
			if inner == 2 {
				a.addPre(43) // a prekey for each first message
			}
			m.prepare(inner)
			onEvent = m.owned
			m.run(inner)
			onEvent = outer
		}
	}
	l.run(op)
	onEvent = nil
	if old != nil {
		logger.Setup(&old)
	}
	if inner < 0 {
		sym.Assume(false)
	}
	sym.Reach("interleaved")
	l.check(op)
	m.check(inner)
}

// scribble overwrites a buffer of the caller's.
func scribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
}

// C30Buffers: the caller overwrites every buffer it gave to or got from the
// library as soon as the call returns; messages it keeps stay as they were.
//
//gosym:prop=C30 tier=both shard=mode:2:2 reach=done
//gosym:bound a conversation of seven messages (one skipped) and a group of three, both serializers, with stores of live pointers and of bytes, texts of 3 free bytes
func C30Buffers() {
	mode := sym.Choose("mode", 2)
	persist := sym.Choose("persist", 2) == 1
	ser := serializerN(mode)
	c := newConv(ser, persist, sym.Choose("pre", 2) == 1)
	type kept struct {
		m protocol.CiphertextMessage
		b []byte
	}
	var held []kept
	say := func(x *session.Cipher, text []byte) wire {
		pt := clone(text)
		m, err := x.Encrypt(pt)
		sym.Assert(err == nil, "encrypts")
		if err != nil {
			sym.Assume(false)
		}
		scribble(pt)
		w := wire{clone(m.Serialize()), m.Type()}
		held = append(held, kept{m, clone(w.b)})
		return w
	}
	keep := sym.Choose("keep", 2) == 1
	type read struct{ got, want []byte }
	var texts []read
	leave := func(pt, want []byte) {
		if keep {
			texts = append(texts, read{pt, want})
		} else {
			scribble(pt)
		}
	}
	hear := func(u *user, x *session.Cipher, w wire, want []byte) {
		b := clone(w.b)
		var pt, body []byte
		var err error
		var got protocol.CiphertextMessage
		if w.t == protocol.PREKEY_TYPE {
			p, e := protocol.NewPreKeySignalMessageFromBytes(b, u.ser.PreKeySignalMessage, u.ser.SignalMessage)
			sym.Assert(e == nil, "parses")
			if e != nil {
				sym.Assume(false)
			}
			scribble(b)
			pt, err = x.DecryptMessage(p)
			got, body = p, p.WhisperMessage().Body()
		} else {
			p, e := protocol.NewSignalMessageFromBytes(b, u.ser.SignalMessage)
			sym.Assert(e == nil, "parses")
			if e != nil {
				sym.Assume(false)
			}
			scribble(b)
			pt, err = x.Decrypt(p)
			got, body = p, p.Body()
		}
		sym.Assert(err == nil, "accepted whatever happens to buffers")
		sym.Assert(err != nil || sym.EqBytes(pt, want), "the right text whatever happens to buffers")
		leave(pt, want)
		if keep {
			held = append(held, kept{got, clone(w.b)})
		} else {
			scribble(body)
		}
	}
	t := func(s string) []byte { return append([]byte(s), sym.Bytes("text", 3)...) }
	m0, m1, m2 := t("0"), t("1"), t("2")
	w0 := say(c.ca, m0)
	w1 := say(c.ca, m1)
	w2 := say(c.ca, m2)
	hear(c.b, c.cb, w0, m0)
	hear(c.b, c.cb, w2, m2) // w1 is skipped
	m3, m4 := t("3"), t("4")
	w3, w4 := say(c.cb, m3), say(c.cb, m4)
	hear(c.a, c.ca, w3, m3)
	m5 := t("5")
	w5 := say(c.ca, m5)
	hear(c.b, c.cb, w5, m5)
	hear(c.b, c.cb, w1, m1)
	hear(c.a, c.ca, w4, m4)

	// a group of alice's
	n := protocol.NewSenderKeyName("g", c.a.addr)
	d, err := c.a.grp.Create(n)
	sym.Assert(err == nil, "sender key created")
	shortID(d)
	db := clone(d.Serialize())
	p, err := protocol.NewSenderKeyDistributionMessageFromBytes(db, ser.SenderKeyDistributionMessage)
	sym.Assert(err == nil, "distribution message parses")
	if err != nil {
		sym.Assume(false)
	}
	scribble(db)
	c.b.grp.Process(n, p)
	ga, gb := groups.NewGroupCipher(c.a.grp, n, c.a.st), groups.NewGroupCipher(c.b.grp, n, c.b.st)
	var ms [][]byte
	var ts [][]byte
	for i := 0; i < 3; i++ {
		ts = append(ts, t("g"))
		pt := clone(ts[i])
		m, err := ga.Encrypt(pt)
		sym.Assert(err == nil, "encrypts")
		scribble(pt)
		sm := m.(*protocol.SenderKeyMessage)
		b := sm.SignedSerialize()
		ms = append(ms, clone(b))
		scribble(b)
	}
	for _, i := range []int{0, 2, 1} {
		b := clone(ms[i])
		m, err := protocol.NewSenderKeyMessageFromBytes(b, ser.SenderKeyMessage)
		sym.Assert(err == nil, "parses")
		if err != nil {
			sym.Assume(false)
		}
		scribble(b)
		pt, err := gb.Decrypt(m)
		sym.Assert(err == nil, "group message accepted whatever happens to buffers")
		sym.Assert(err != nil || sym.EqBytes(pt, ts[i]), "the right group text whatever happens to buffers")
		leave(pt, ts[i])
		if keep {
			sym.Assert(sym.SameBytes(m.SignedSerialize(), ms[i]), "a group message does not change when it is decrypted")
		} else {
			scribble(m.Ciphertext())
		}
	}

	for _, k := range held {
		sym.Assert(sym.SameBytes(k.m.Serialize(), k.b), "a message does not change after it was made")
	}
	for _, k := range texts {
		sym.Assert(sym.EqBytes(k.got, k.want), "a text does not change after it was decrypted")
	}
	sym.Reach("done")
}
