package h

import (
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"

	"vh/sym"
)

// marks are positions at which counters change their size or limits are met.
var marks = []int{1, 10, 12, 15, 16, 50, 100, 127, 128, 255, 256, 500, 1000, 1023, 1024}

// C02Many: long chains.
//
//gosym:prop=C02 tier=both shard=kind:3 shard=order:2 reach=ok cost=3
//gosym:bound 1100 messages in a row: first messages, an established chain of either side; 18 of them, from the last down or from the first up, then the next message and a reply; JSON, all keys and texts
func C02Many() {
	c := newConv(serializerN(0), false, true)
	u, v, cu, cv := c.a, c.b, c.ca, c.cb
	switch sym.Choose("kind", 3) {
	case 1:
		c.established()
		p := []byte("turn")
		deliver(c.b, c.cb, send(c.ca, p), p, "first")
	case 2:
		c.established()
		u, v, cu, cv = v, u, cv, cu
	}
	var ws []wire
	var ps [][]byte
	for i := 0; i < 1100; i++ {
		p := []byte("text")
		if i%100 < 2 || i > 1090 {
			p = sym.Bytes("text", 2)
		}
		ps = append(ps, p)
		ws = append(ws, send(cu, p))
	}
	at := append([]int{0}, marks...)
	at = append(at, 1098, 1099)
	down := sym.Choose("order", 2) == 0
	for i := range at {
		j := at[i]
		if down {
			j = at[len(at)-1-i]
		}
		deliver(v, cv, ws[j], ps[j], "one of many")
	}
	_, err := v.recv(cv, ws[256])
	sym.Assert(err != nil, "once only")
	p, q := sym.Bytes("next", 2), sym.Bytes("reply", 2)
	w := send(cu, p)
	deliver(u, cu, send(cv, q), q, "reply")
	deliver(v, cv, w, p, "next message")
	deliver(v, cv, send(cu, q), q, "after the reply")
	deliver(v, cv, ws[2], ps[2], "skipped message")
	sym.Reach("ok")
}

// C02Anywhere: three messages in any order at any position of a chain.
//
//gosym:prop=C02 tier=both shard=order:6 shard=persist:2 reach=ok
//gosym:bound every chain position, three messages in every order, then a reply and one more; JSON, all keys and texts
func C02Anywhere() {
	c := newConv(serializerN(0), sym.Choose("persist", 2) == 1, true)
	c.established()
	p := []byte("x")
	deliver(c.b, c.cb, send(c.ca, p), p, "setup")
	n := sym.Uint32("n")
	sym.Assume(n < 1<<32-10)
	shift(c.a, c.b, n)
	perm := [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("order", 6)]
	var ws [3]wire
	var ps [3][]byte
	for i := range ws {
		ps[i] = sym.Bytes("text", 2)
		ws[i] = send(c.ca, ps[i])
	}
	deliver(c.b, c.cb, ws[perm[0]], ps[perm[0]], "anywhere")
	deliver(c.b, c.cb, ws[perm[1]], ps[perm[1]], "anywhere")
	q := sym.Bytes("reply", 2)
	deliver(c.a, c.ca, send(c.cb, q), q, "reply")
	w := send(c.ca, q)
	deliver(c.b, c.cb, w, q, "new chain")
	deliver(c.b, c.cb, ws[perm[2]], ps[perm[2]], "anywhere")
	sym.Reach("ok")
}

// C02Turns: a long conversation.
//
//gosym:prop=C02 tier=both shard=mode:2 shard=late:4 reach=ok cost=2
//gosym:bound 40 turns of one to three messages, of which every third arrives up to four turns late; both serializers, all keys and texts
func C02Turns() {
	mode := sym.Choose("mode", 2)
	late := 1 + sym.Choose("late", 4)
	c := newConv(serializerN(1-mode), mode == 1, true)
	c.established()
	type sent struct {
		w    wire
		pt   []byte
		turn int
	}
	var wait []sent
	n := 0
	for t := 0; t < 40; t++ {
		u, v, cu, cv := c.a, c.b, c.ca, c.cb
		if t%2 == 1 {
			u, v, cu, cv = v, u, cv, cu
		}
		_ = u
		for i := 0; i <= t%3; i++ {
			pt := append([]byte{byte(t), byte(i)}, sym.Bytes("text", 1)...)
			w := send(cu, pt)
			n++
			if n%3 == 0 && t < 38 {
				wait = append(wait, sent{w, pt, t})
				continue
			}
			deliver(v, cv, w, pt, "turn")
		}
		var rest []sent
		for _, x := range wait {
			if x.turn+late > t {
				rest = append(rest, x)
				continue
			}
			if x.turn%2 == 0 {
				deliver(c.b, c.cb, x.w, x.pt, "late")
			} else {
				deliver(c.a, c.ca, x.w, x.pt, "late")
			}
		}
		wait = rest
	}
	sym.Reach("ok")
}

// C10Many: all first messages carry the set-up data, however many.
//
//gosym:prop=C10 tier=both shard=pre:2 reach=ok cost=2
//gosym:bound 300 first messages; the reply to any of five of them; JSON, all keys
func C10Many() {
	pre := sym.Choose("pre", 2) == 1
	c := newConv(serializerN(0), false, pre)
	p := []byte("x")
	var ws []wire
	var base []byte
	for i := 0; i < 300; i++ {
		w := send(c.ca, p)
		sym.Assert(w.t == protocol.PREKEY_TYPE, "a prekey message until the first reply")
		st, err := c.b.ser.PreKeySignalMessage.Deserialize(clone(w.b))
		sym.Assert(err == nil, "parses")
		if err != nil {
			return
		}
		has := st.PreKeyID != nil && !st.PreKeyID.IsEmpty
		sym.Assert(has == pre && (!pre || st.PreKeyID.Value == c.b.pk.ID().Value), "one-time prekey id")
		sym.Assert(st.SignedPreKeyID == c.b.spk.ID() && st.RegistrationID == c.a.st.regID, "ids")
		sym.Assert(base == nil || sym.EqBytes(base, st.BaseKey), "the same base key")
		base = st.BaseKey
		ws = append(ws, w)
	}
	j := []int{299, 0, 11, 100, 257}[sym.Choose("which", 5)]
	deliver(c.b, c.cb, ws[j], p, "one of the first messages")
	k := (j + 7) % 300
	deliver(c.b, c.cb, ws[k], p, "another of the first messages")
	sym.Assert(send(c.ca, p).t == protocol.PREKEY_TYPE, "a prekey message until the first reply")
	deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	for i := 0; i < 20; i++ {
		w := send(c.ca, p)
		sym.Assert(w.t == protocol.WHISPER_TYPE, "plain messages after the reply")
	}
	deliver(c.b, c.cb, ws[(j+9)%300], p, "a late first message")
	sym.Reach("ok")
}

// C07Many: counters of long chains.
//
//gosym:prop=C07 tier=both shard=kind:2 shard=len:6 reach=ok cost=2
//gosym:bound chains of 1, 17, 65, 129, 257 and 1100 messages of either side, then the next chain of that side; JSON, all keys
func C07Many() {
	c := newConv(serializerN(0), false, true)
	c.established()
	n := []int{1, 17, 65, 129, 257, 1100}[sym.Choose("len", 6)]
	u, v, cu, cv := c.a, c.b, c.ca, c.cb
	p := []byte("x")
	if sym.Choose("kind", 2) == 1 {
		u, v, cu, cv = v, u, cv, cu
	} else {
		// a chain begins with the reply
		deliver(c.b, c.cb, send(c.ca, p), p, "setup")
		deliver(c.a, c.ca, send(c.cb, p), p, "setup")
	}
	start := parsed(u, send(cu, p)).Counter
	var w wire
	for i := 0; i < n; i++ {
		w = send(cu, p)
		sym.Assert(parsed(u, w).Counter == start+uint32(i)+1, "consecutive counters")
	}
	deliver(v, cv, w, p, "last of the chain")
	for i := 0; i < 2; i++ {
		deliver(u, cu, send(cv, p), p, "change of direction")
	}
	w = send(cu, p)
	m := parsed(u, w)
	sym.Assert(m.Counter == 0, "a new chain starts at 0")
	sym.Assert(m.PreviousCounter == start+uint32(n), "announces the last counter of the chain before")
	deliver(v, cv, w, p, "new chain")
	sym.Reach("ok")
}

// C15Many: a member with many sender keys of one sender.
//
//gosym:prop=C15 tier=both shard=mode:2 shard=many:3:2 reach=ok cost=3
//gosym:bound 12 and 120 (thorough: 300) sender keys of one sender, a message of each under way; the first, last and some between are read; all keys and texts
func C15Many() {
	g := newGroup(sym.Choose("mode", 2), 0)
	n := []int{12, 120, 300}[sym.Choose("many", 3)]
	u := gUser("member", g.mode)
	u.grp = groups.NewGroupSessionBuilder(u.st, u.ser)
	g.rx = append(g.rx, u)
	g.got = append(g.got, map[int]bool{})
	g.from = append(g.from, 0)
	for i := 0; i < n; i++ {
		k := uint32(1000 + i)
		_ = g.seed(k, uint32(i))
		g.process(u, g.dist())
		g.send()
	}
	for _, i := range []int{0, n - 1, 1, n / 2, 10, 11} {
		if !g.got[0][i] {
			g.deliver(0, i, "of many sender keys")
		}
	}
	_, err := grecv(u, g.name, g.sent[n/2])
	sym.Assert(err != nil, "once only")
	g.deliver(0, g.send(), "next message")
	sym.Reach("ok")
}

// C36Many: many archived sessions.
//
//gosym:prop=C36 tier=both shard=at:6 shard=ser:2 reach=ok cost=3 secs=200
//gosym:bound 41 sessions, all but the last archived; a message of the newest, 12th, 13th, 20th, 39th and 40th archived one, a reply to it, and then the message of another; all keys and texts
func C36Many() {
	at := []int{0, 11, 12, 19, 38, 39}[sym.Choose("at", 6)]
	c := newConv(serializerN(sym.Choose("ser", 2)), true, false)
	const n = 41
	var ws, next []wire
	var ps [][]byte
	for i := 0; i < n; i++ {
		if i > 0 {
			sym.Assert(c.a.builder(c.b).ProcessBundle(c.b.bundle(false)) == nil, "new bundle accepted")
		}
		p := append([]byte{byte(i)}, sym.Bytes("text", 1)...)
		w := send(c.ca, p)
		ps = append(ps, p)
		ws = append(ws, w)
		next = append(next, send(c.ca, p))
	}
	for i := range ws {
		deliver(c.b, c.cb, ws[i], ps[i], "first message of a session")
	}
	sym.Assert(len(structure(c.b, c.a).PreviousStates) == n-1, "forty archived sessions")
	j := n - 2 - at
	deliver(c.b, c.cb, next[j], ps[j], "message of an archived session")
	q := sym.Bytes("reply", 2)
	deliver(c.a, c.ca, send(c.cb, q), q, "reply")
	deliver(c.b, c.cb, send(c.ca, q), q, "resumed session")
	k := (j + 5) % (n - 1)
	deliver(c.b, c.cb, next[k], ps[k], "message of another archived session")
	_, err := c.b.recv(c.cb, next[j])
	sym.Assert(err != nil, "once only")
	sym.Reach("ok")
}

// C35Many: records with many states.
//
//gosym:prop=C35 tier=both shard=kind:2 shard=many:4 reach=ok
//gosym:bound 2, 11, 39 and 40 previous session states, of which any is removed, promoted or not; 2, 11, 120 and 2000 sender key states, each found by its id; all keys
func C35Many() {
	ser := serializerN(0)
	many := sym.Choose("many", 4)
	if sym.Choose("kind", 2) == 0 {
		n := []int{2, 11, 39, 40}[many]
		r := record.NewSession(ser.Session, ser.State)
		for i := 0; i <= n; i++ {
			s := record.NewState(ser.State)
			s.SetSenderBaseKey(append([]byte{5, byte(i)}, sym.Bytes("base", 31)...))
			s.SetVersion(3)
			s.SetLocalRegistrationID(uint32(i))
			if i == 0 {
				r.SetState(s)
			} else {
				r.PromoteState(s)
			}
		}
		before := append([]*record.State{}, r.PreviousSessionStates()...)
		sym.Assert(len(before) == n, "previous states")
		current := r.SessionState()
		k := sym.Choose("remove", n)
		s := before[k]
		r.RemovePreviousState(k)
		want := append(append([]*record.State{}, before[:k]...), before[k+1:]...)
		if sym.Choose("promote", 2) == 1 {
			r.PromoteState(s)
			want = append([]*record.State{current}, want...)
			current = s
		}
		sym.Assert(r.SessionState() == current, "current state")
		after := r.PreviousSessionStates()
		sym.Assert(len(after) == len(want), "number of previous states")
		for i := range want {
			sym.Assert(after[i].LocalRegistrationID() == want[i].LocalRegistrationID() && sym.EqBytes(after[i].SenderBaseKey(), want[i].SenderBaseKey()), "the other states, in order")
		}
		sym.Reach("ok")
		return
	}
	n := []int{2, 11, 120, 2000}[many]
	r := grecord.NewSenderKey(ser.SenderKeyRecord, ser.SenderKeyState)
	k := sym.Bytes("chain", 32)
	pub := sym.Bytes("sign", 32)
	for i := 0; i < n; i++ {
		r.AddSenderKeyState(uint32(7*i+1), uint32(i), k, ecc.NewDjbECPublicKey(key32(pub)))
	}
	for i := 0; i < n; i++ {
		s, err := r.GetSenderKeyStateByID(uint32(7*i + 1))
		sym.Assert(err == nil, "found by its id")
		if err != nil {
			return
		}
		sym.Assert(s.KeyID() == uint32(7*i+1) && s.SenderChainKey().Iteration() == uint32(i) && sym.EqBytes(s.SenderChainKey().Seed(), k), "the state")
	}
	_, err := r.GetSenderKeyStateByID(uint32(7*n + 1))
	sym.Assert(err != nil, "no other is found")
	sym.Reach("ok")
}

// longGroup is a group whose sender sent n messages.
func longGroup(mode, members, n int) *group {
	g := newGroup(mode, members)
	if sym.Symbolic() {
		a, _ := g.a.st.LoadSenderKey(g.name).SenderKeyState()
		sym.Assume(a.KeyID() < 128)
	}
	for i := 0; i < n; i++ {
		g.send()
	}
	return g
}

// C15Chain: long chains.
//
//gosym:prop=C15 tier=both shard=mode:2 shard=order:2 reach=ok cost=3
//gosym:bound 1100 messages of a sender; 18 of them, from the last down or from the first up, at two members, then the next; key ids below 128, all keys and texts
func C15Chain() {
	g := longGroup(sym.Choose("mode", 2), 2, 1100)
	at := append(append([]int{0}, marks...), 1098, 1099)
	down := sym.Choose("order", 2) == 0
	for i := range at {
		j := at[i]
		if down {
			j = at[len(at)-1-i]
		}
		g.deliver(0, j, "one of many")
		if i%3 == 0 {
			g.deliver(1, j, "one of many")
		}
	}
	for _, j := range []int{256, 1099, 0} {
		_, err := grecv(g.rx[0], g.name, g.sent[j])
		sym.Assert(err != nil, "once only")
	}
	u := g.join()
	g.deliver(0, g.send(), "next message")
	g.deliver(2, len(g.sent)-1, "next message")
	g.deliver(1, len(g.sent)-1, "next message")
	_, err := grecv(u, g.name, g.sent[300])
	sym.Assert(err != nil, "nothing from before")
	sym.Reach("ok")
}

// longConv is an established conversation in which a has sent n messages in a
// row, of which b has read those at given places.
func longConv(persist bool, n int, read ...int) (c *conv, ws []wire, ps [][]byte) {
	c = newConv(serializerN(0), persist, true)
	c.established()
	p := []byte("turn")
	deliver(c.b, c.cb, send(c.ca, p), p, "first")
	for i := 0; i < 4; i++ {
		deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	}
	deliver(c.b, c.cb, send(c.ca, p), p, "new chain")
	for i := 0; i < n; i++ {
		p := []byte("text")
		if i%100 < 2 || i > n-5 {
			p = sym.Bytes("text", 2)
		}
		ps = append(ps, p)
		ws = append(ws, send(c.ca, p))
	}
	for _, i := range read {
		deliver(c.b, c.cb, ws[i], ps[i], "one of many")
	}
	return
}

// late is a message of a long conversation to be tried: the next, one after a
// gap, and skipped ones.
func late() (c *conv, w wire, pt []byte) {
	const n = 1100
	at := []int{n - 1, 1, 127, 256, 1024, 1001}[sym.Choose("at", 6)]
	read := []int{300, 1050}
	if at == 1001 {
		read = []int{300}
	}
	c, ws, ps := longConv(sym.Choose("persist", 2) == 1, n, read...)
	return c, ws[at], ps[at]
}

// C03Many: alterations late in a long chain.
//
//gosym:prop=C03 tier=both shard=at:6 shard=persist:2 reach=rejected,accepted cost=2 secs=120
//gosym:bound a chain of 1100 messages: the message after a gap of 50 or 700 and skipped ones at 1, 127, 256 and 1024; every change of ciphertext, MAC and previous counter
func C03Many() {
	c, w, pt := late()
	sym.Honest()
	st, err := c.b.ser.SignalMessage.Deserialize(clone(w.b))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return
	}
	db, dm, dp := sym.AttackerBytes("dbody", len(st.CipherText)), sym.AttackerBytes("dmac", len(st.Mac)), sym.AttackerUint32("dprev")
	clean := sym.And(zero(db), zero(dm), dp == 0)
	st.CipherText, st.Mac = xor(st.CipherText, db), xor(st.Mac, dm)
	st.PreviousCounter ^= dp
	m, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	got, err := c.cb.Decrypt(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.And(clean, sym.EqBytes(got, pt)), "altered message rejected")
	sym.Reach("accepted")
}

// C05Many: a rejected message late in a long chain changes nothing.
//
//gosym:prop=C05 tier=both shard=at:6 shard=persist:2 reach=rejected cost=2 secs=120
//gosym:bound as C03Many; then the genuine message, a skipped one and a reply
func C05Many() {
	c, w, pt := late()
	before := snapshot(c.b, c.a)
	sym.Honest()
	st, err := c.b.ser.SignalMessage.Deserialize(clone(w.b))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return
	}
	st.CipherText, st.Mac = xor(st.CipherText, sym.AttackerBytes("dbody", len(st.CipherText))), xor(st.Mac, sym.AttackerBytes("dmac", len(st.Mac)))
	m, err := protocol.NewSignalMessageFromStruct(st, c.b.ser.SignalMessage)
	if err != nil {
		return
	}
	_, err = c.cb.Decrypt(m)
	sym.Assume(err != nil)
	sym.Assert(sym.SameBytes(snapshot(c.b, c.a), before), "nothing changed by a rejected message")
	deliver(c.b, c.cb, w, pt, "genuine message after a rejected one")
	q := sym.Bytes("reply", 2)
	deliver(c.a, c.ca, send(c.cb, q), q, "reply")
	sym.Reach("rejected")
}

// C04Many: replays in a long chain.
//
//gosym:prop=C04 tier=both shard=persist:2 shard=order:3 reach=ok cost=2
//gosym:bound a chain of 1100 messages of which 18 are read in rising or falling order or after later ones, each again at once and at the end, after a reply and a new chain too; JSON, all keys
func C04Many() {
	c, ws, ps := longConv(sym.Choose("persist", 2) == 1, 1100)
	at := append(append([]int{0}, marks...), 1098, 1099)
	order := sym.Choose("order", 3)
	for i := range at {
		k := i
		switch order {
		case 1:
			k = len(at) - 1 - i
		case 2:
			k = (i*5 + 4) % len(at)
		}
		j := at[k]
		_, err := c.b.recv(c.cb, ws[j])
		sym.Assert(err == nil, "accepted")
		_, err = c.b.recv(c.cb, ws[j])
		sym.Assert(err != nil, "replay rejected")
	}
	p := sym.Bytes("turn", 2)
	deliver(c.a, c.ca, send(c.cb, p), p, "reply")
	deliver(c.b, c.cb, send(c.ca, p), p, "new chain")
	for _, j := range at {
		_, err := c.b.recv(c.cb, ws[j])
		sym.Assert(err != nil, "replay rejected")
	}
	deliver(c.b, c.cb, ws[777], ps[777], "skipped message")
	_, err := c.b.recv(c.cb, ws[777])
	sym.Assert(err != nil, "replay rejected")
	sym.Reach("ok")
}

// glate is a message of a long group chain to be tried.
func glate() (*group, int) {
	const n = 1100
	g := longGroup(sym.Choose("mode", 2), 1, n)
	at := []int{n - 1, 1, 127, 256, 1024, 1001}[sym.Choose("at", 6)]
	g.deliver(0, 300, "one of many")
	if at != 1001 {
		g.deliver(0, 1050, "one of many")
	}
	return g, at
}

// C16Many: alterations late in a long chain.
//
//gosym:prop=C16 tier=both shard=at:6 shard=mode:2 reach=rejected,accepted cost=2 secs=120
//gosym:bound a chain of 1100 group messages: the message after a gap of 50 or 700 and skipped ones at 1, 127, 256 and 1024; every change of ciphertext and signature; key ids below 128
func C16Many() {
	g, i := glate()
	sym.Honest()
	u := g.rx[0]
	st, err := u.ser.SenderKeyMessage.Deserialize(clone(g.sent[i]))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return
	}
	ds, db := sym.AttackerBytes("dsig", len(st.Signature)), sym.AttackerBytes("dbody", len(st.CipherText))
	clean := sym.And(zero(ds), zero(db))
	st.Signature, st.CipherText = xor(st.Signature, ds), xor(st.CipherText, db)
	m, err := protocol.NewSenderKeyMessageFromStruct(st, u.ser.SenderKeyMessage)
	if err != nil {
		sym.Assert(!clean, "a genuine message is well formed")
		return
	}
	got, err := u.gcipher(g.name).Decrypt(m)
	if err != nil {
		sym.Assert(!clean, "genuine message accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.And(clean, sym.EqBytes(got, g.text[i])), "altered message rejected")
	sym.Reach("accepted")
}

// C17Many: a rejected message late in a long chain changes nothing.
//
//gosym:prop=C17 tier=both shard=at:6 shard=mode:2 reach=rejected cost=2 secs=120
//gosym:bound as C16Many; then the genuine message and others skipped
func C17Many() {
	g, i := glate()
	u := g.rx[0]
	before, n := g.held(u), u.st.skStores
	sym.Honest()
	st, err := u.ser.SenderKeyMessage.Deserialize(clone(g.sent[i]))
	if err != nil {
		sym.Assert(false, "genuine message parses")
		return
	}
	st.Signature, st.CipherText = xor(st.Signature, sym.AttackerBytes("dsig", len(st.Signature))), xor(st.CipherText, sym.AttackerBytes("dbody", len(st.CipherText)))
	m, err := protocol.NewSenderKeyMessageFromStruct(st, u.ser.SenderKeyMessage)
	if err != nil {
		return
	}
	_, err = u.gcipher(g.name).Decrypt(m)
	sym.Assume(err != nil)
	sym.Assert(u.st.skStores == n, "nothing stored after a rejected message")
	sym.Assert(sym.SameBytes(g.held(u), before), "sender key unchanged after a rejected message")
	g.deliver(0, i, "genuine message after a rejected one")
	g.deliver(0, 900, "skipped message")
	g.deliver(0, 2, "skipped message")
	sym.Reach("rejected")
}

// C09Many: many sessions, each with a prekey of its own.
//
//gosym:prop=C09 tier=both shard=order:3 shard=mode:2 reach=ok cost=2
//gosym:bound 60 peers who start sessions with different one-time prekeys, their first messages in rising, falling or mixed order; all keys
func C09Many() {
	mode := sym.Choose("mode", 2)
	order := sym.Choose("order", 3)
	ser := serializerN(1 - mode)
	b := newUser("bob", ser, mode == 1, 1002, 32, 4000)
	const n = 60
	var us []*user
	var ws []wire
	p := sym.Bytes("text", 2)
	for i := 0; i < n; i++ {
		u := newUser("peer"+string(rune('A'+i)), ser, mode == 1, uint32(i+1), 31, 41)
		b.addPre(uint32(100 + 3*i))
		sym.Assert(u.builder(b).ProcessBundle(b.bundle(true)) == nil, "bundle accepted")
		ws = append(ws, send(u.cipher(b), p))
		us = append(us, u)
	}
	left := n + 1
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, i * 7 % n}[order]
		deliver(b, b.cipher(us[k]), ws[k], p, "first message")
		left--
		sym.Assert(b.st.pre[uint32(100+3*k)] == nil && len(b.st.pre) == left, "the prekey used, and no other, is removed")
		sym.Assert(b.st.removed[len(b.st.removed)-1] == uint32(100+3*k), "the prekey used is removed")
	}
	sym.Assert(len(b.st.removed) == n, "removed once each")
	for _, k := range []int{0, 13, n - 1} {
		deliver(us[k], us[k].cipher(b), send(b.cipher(us[k]), p), p, "reply")
		_, err := b.recv(b.cipher(us[k]), ws[k])
		sym.Assert(err != nil, "once only")
	}
	sym.Assert(len(b.st.removed) == n, "removed once each")
	sym.Reach("ok")
}

// C30Many: many peers, devices and groups in one store.
//
//gosym:prop=C30 tier=both shard=mode:2 reach=ok cost=2
//gosym:bound 24 sessions with devices 1, 257 and 2^20+1 of 8 peers and 12 groups with 3 senders each in one store, three rounds in changing order; JSON, live and saved records, all keys and texts
func C30Many() {
	ser, mode := serializerN(0), sym.Choose("mode", 2)
	b := newUser("bob", ser, mode == 1, 1002, 32, 42)
	var us []*user
	for i := 0; i < 24; i++ {
		u := newUser("peer"+string(rune('A'+i/3)), ser, mode == 1, uint32(i+1), 31, 41)
		u.addr = protocol.NewSignalAddress(u.name, []uint32{1, 257, 1<<20 + 1}[i%3])
		sym.Assert(u.builder(b).ProcessBundle(b.bundle(false)) == nil, "bundle accepted")
		us = append(us, u)
	}
	var names []*protocol.SenderKeyName
	for i := 0; i < 36; i++ {
		u := us[i%3*5]
		name := protocol.NewSenderKeyName("group"+string(rune('a'+i/3)), u.addr)
		m, err := u.grp.Create(name)
		sym.Assert(err == nil, "sender key created")
		d, err := protocol.NewSenderKeyDistributionMessageFromBytes(m.Serialize(), ser.SenderKeyDistributionMessage)
		sym.Assert(err == nil, "parses")
		b.grp.Process(name, d)
		names = append(names, name)
	}
	for round := 0; round < 3; round++ {
		for i := range us {
			k := (i*7 + round*5) % len(us)
			p := append([]byte{byte(k)}, sym.Bytes("text", 1)...)
			deliver(b, b.cipher(us[k]), send(us[k].cipher(b), p), p, "message")
			if (k+round)%2 == 0 {
				deliver(us[k], us[k].cipher(b), send(b.cipher(us[k]), p), p, "reply")
			}
		}
		for i := range names {
			k := (i*11 + round*7) % len(names)
			u := us[k%3*5]
			p := append([]byte{byte(k)}, sym.Bytes("text", 1)...)
			got, err := grecv(b, names[k], gsend(u, names[k], p))
			sym.Assert(err == nil && sym.EqBytes(got, p), "group message")
		}
	}
	sym.Reach("ok")
}

// C22Many: long chains with an independent peer.
//
//gosym:prop=C22 tier=both shard=len:4 reach=ok cost=2
//gosym:bound protocol buffers; a session opened by the library; 1, 20, 130 and 300 messages a turn, four turns; all keys
func C22Many() {
	n := []int{1, 20, 130, 300}[sym.Choose("len", 4)]
	a, b := newUser("alice", serializerN(1), false, 1001, 31, 41), newUser("bob", serializerN(1), false, 1002, 32, 42)
	sym.Assert(a.builder(b).ProcessBundle(b.bundle(false)) == nil, "bundle accepted")
	c := a.cipher(b)
	p := &peer{id: idPair(b.st.id), ratchet: userPair(b.spk.KeyPair()), theirID: idPair(a.st.id).wire()}
	pt := []byte("text")
	for i := 0; i < n; i++ {
		m := send(c, pt)
		sym.Assert(m.t == protocol.PREKEY_TYPE, "a prekey message")
		_, s := fields(m.b[1:])
		if i == 0 {
			ik, bk := key32(p.theirID[1:]), key32(s[2][1:])
			p.root, _ = x3dh(dh(p.ratchet.priv, ik), dh(p.id.priv, bk), dh(p.ratchet.priv, bk))
		}
		sym.Assert(p.recv(s[4], pt, 0), "the peer reads the first messages")
	}
	prev := uint32(n - 1)
	for t := 0; t < 2; t++ {
		for i := 0; i < n; i++ {
			deliver(a, c, wire{p.send(pt), protocol.WHISPER_TYPE}, pt, "the library reads the peer")
		}
		for i := 0; i < n; i++ {
			m := send(c, pt)
			sym.Assert(m.t == protocol.WHISPER_TYPE, "an ordinary message")
			sym.Assert(p.recv(m.b, pt, prev), "the peer reads the library")
		}
		prev = uint32(n - 1)
	}
	sym.Reach("ok")
}
