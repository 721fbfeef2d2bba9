package h

import (
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/errorhelper"
	"io"
	"runtime"

	"vh/sym"

	"github.com/RadicalApp/complete"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"github.com/prospik/libsignal-protocol-go/util/medium"
)

// C24Symmetric: both ends of a symmetric exchange derive the same keys.
//
//gosym:prop=C24 tier=both reach=ok
//gosym:bound all base, ratchet and identity keys of two users
func C24Symmetric() {
	ia, _ := keyhelper.GenerateIdentityKeyPair()
	ib, _ := keyhelper.GenerateIdentityKeyPair()
	ba, _ := ecc.GenerateKeyPair()
	bb, _ := ecc.GenerateKeyPair()
	ra, _ := ecc.GenerateKeyPair()
	rb, _ := ecc.GenerateKeyPair()
	pa := &ratchet.SymmetricParameters{
		OurBaseKey: ba, OurRatchetKey: ra, OurIdentityKeyPair: ia,
		TheirBaseKey: bb.PublicKey(), TheirRatchetKey: rb.PublicKey(), TheirIdentityKey: ib.PublicKey(),
	}
	pb := &ratchet.SymmetricParameters{
		OurBaseKey: bb, OurRatchetKey: rb, OurIdentityKeyPair: ib,
		TheirBaseKey: ba.PublicKey(), TheirRatchetKey: ra.PublicKey(), TheirIdentityKey: ia.PublicKey(),
	}
	ka, err := ratchet.CalculateSymmetricSession(pa)
	sym.Assert(err == nil, "no error")
	kb, err := ratchet.CalculateSymmetricSession(pb)
	sym.Assert(err == nil, "no error")
	sym.Assert(sym.EqBytes(ka.RootKey.Bytes(), kb.RootKey.Bytes()), "same root key")
	sym.Assert(sym.EqBytes(ka.ChainKey.Key(), kb.ChainKey.Key()), "same chain key")
	sym.Assert(ka.ChainKey.Index() == 0 && kb.ChainKey.Index() == 0, "chains start at 0")
	sym.Assert(!sym.EqBytes(ka.RootKey.Bytes(), ka.ChainKey.Key()), "root and chain key differ")

	// a third user's identity gives other keys
	ic, _ := keyhelper.GenerateIdentityKeyPair()
	pc := *pb
	pc.OurIdentityKeyPair = ic
	kc, err := ratchet.CalculateSymmetricSession(&pc)
	sym.Assert(err == nil && !sym.EqBytes(kc.RootKey.Bytes(), ka.RootKey.Bytes()), "another identity gives other keys")
	sym.Reach("ok")
}

func envelope(pub, body []byte) string {
	b, _ := json.Marshal(&provision.ProvisionEnvelope{PublicKey: pub, Body: body})
	return base64.StdEncoding.EncodeToString(b)
}

// C25RoundTrip: an envelope made to the recipient's key decrypts.
//
//gosym:prop=C25 tier=both shard=len:43:7 reach=ok,rejected
//gosym:bound provisioning messages of 0..39 bytes (quick: 0, 15, 16, 39), 200, 1000 and 4096 bytes, every key; then every change of public key, version, iv, ciphertext and MAC, one byte more or less at either end
func C25RoundTrip() {
	n := sizes(sym.Choose("len", 43), 0, 15, 16, 39, 200, 1000, 4096)
	us, _ := ecc.GenerateKeyPair()
	eph, _ := ecc.GenerateKeyPair()
	text := sym.Bytes("text", n)
	iv := sym.Bytes("iv", 16)
	sec := kdf.CalculateSharedSecret(us.PublicKey().PublicKey(), eph.PrivateKey().Serialize())
	k, _ := kdf.DeriveSecrets(sec[:], nil, []byte("Mixin Provisioning Message"), 64)
	ct, err := cipher.EncryptCbc(iv, k[:32], append([]byte{}, text...))
	sym.Assert(err == nil, "encrypts")
	body := append([]byte{1}, iv...)
	body = append(body, ct...)
	body = append(body, hmac256(k[32:], body)...)
	priv := us.PrivateKey().Serialize()
	ps := base64.StdEncoding.EncodeToString(priv[:])
	pub := eph.PublicKey().Serialize()
	out, err := provision.Decrypt(ps, envelope(pub, body))
	sym.Assert(err == nil, "decrypts")
	sym.Assert(sym.EqBytes([]byte(out), text), "round trip")

	sym.Honest()
	dp, db := sym.AttackerBytes("dpub", 33), sym.AttackerBytes("dbody", len(body))
	sym.Assume(dp[32]&0x80 == 0)
	bd := xor(body, db)
	pd := xor(pub, dp)
	shape := sym.Choose("shape", 7)
	switch shape {
	case 1:
		bd = append(bd, sym.AttackerByte("extra"))
	case 2:
		bd = bd[:len(bd)-1]
	case 3:
		bd = bd[1:]
	case 4:
		bd = append([]byte{sym.AttackerByte("extra")}, bd...)
	case 5:
		pd = pd[1:]
	case 6:
		pd = pd[:32]
	}
	out, err = provision.Decrypt(ps, envelope(pd, bd))
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.And(shape == 0, zero(db), zero(dp)), "altered envelope rejected")
	sym.Assert(sym.EqBytes([]byte(out), text), "unaltered plaintext")
	sym.Reach("ok")
}

// C25Any: any envelope gives a result or an error.
//
//gosym:prop=C25 tier=both shard=pub:36:6 shard=body:70:12 reach=ok
//gosym:bound public keys of 0..35 bytes (quick: 0, 1, 32, 33, 34, 35) and bodies of 0..69 bytes (quick: 0, 1, 16, 17, 18, 32, 33, 48, 49, 50, 64, 65) of any content
func C25Any() {
	np := sizes(sym.Choose("pub", 36), 0, 1, 32, 33, 34, 35)
	nb := sizes(sym.Choose("body", 70), 0, 1, 16, 17, 18, 32, 33, 48, 49, 50, 64, 65)
	us, _ := ecc.GenerateKeyPair()
	priv := us.PrivateKey().Serialize()
	sym.Honest()
	_, err := provision.Decrypt(base64.StdEncoding.EncodeToString(priv[:]), envelope(sym.AttackerBytes("p", np), sym.AttackerBytes("b", nb)))
	sym.Assert(err != nil, "forged envelope rejected")
	_, err = provision.Decrypt("?", "")
	sym.Assert(err != nil, "malformed private key rejected")
	_, err = provision.Decrypt("", "?")
	sym.Assert(err != nil, "malformed content rejected")
	_, err = provision.Decrypt("", base64.StdEncoding.EncodeToString([]byte("x")))
	sym.Assert(err != nil, "malformed envelope rejected")
	sym.Reach("ok")
}

// C23Display: the fingerprint text.
//
//gosym:prop=C23 tier=both reach=ok
//gosym:bound any two 32-byte fingerprints
func C23Display() {
	a, b := sym.Bytes("a", 32), sym.Bytes("b", 32)
	x := fingerprint.NewDisplay(a, b).DisplayText()
	y := fingerprint.NewDisplay(b, a).DisplayText()
	sym.Assert(x == y, "both sides show the same text")
	sym.Assert(len(x) == 60, "60 digits")
	sym.Reach("ok")
}

// C23Chunks: each half is the five-digit remainders of six five-byte chunks.
//
//gosym:prop=C23 tier=both shard=chunk:6 reach=ok
//gosym:bound any 32-byte fingerprint, against one that is all zero or all one bits
func C23Chunks() {
	c := sym.Choose("chunk", 6)
	hi := sym.Choose("hi", 2)
	a, b := sym.Bytes("a", 32), make([]byte, 32)
	for i := range b {
		b[i] = byte(-hi)
	}
	x := fingerprint.NewDisplay(a, b).DisplayText()
	sym.Assert(len(x) == 60, "60 digits")
	v := uint64(a[5*c])<<32 | uint64(a[5*c+1])<<24 | uint64(a[5*c+2])<<16 | uint64(a[5*c+3])<<8 | uint64(a[5*c+4])
	v %= 100000
	var d [5]byte
	for i := 4; i >= 0; i-- {
		d[i] = '0' + byte(v%10)
		v /= 10
	}
	// the local half comes first or last
	sym.Assert(sym.Or(sym.EqBytes([]byte(x[5*c:5*c+5]), d[:]), sym.EqBytes([]byte(x[30+5*c:35+5*c]), d[:])), "chunk value")
	sym.Reach("ok")
}

// C27Bytes: the byte helpers.
//
//gosym:prop=C27 tier=both shard=len:12:6 reach=ok
//gosym:bound inputs of 0..11 bytes, part lengths -1..5
func C27Bytes() {
	n := sizes(sym.Choose("len", 12), 0, 1, 5, 6, 7, 11)
	in := sym.Bytes("in", n)
	keep := append([]byte{}, in...)
	a, b, c := sym.Choose("a", 7)-1, sym.Choose("b", 7)-1, sym.Choose("c", 7)-1
	p, err := bytehelper.SplitThree(in, a, b, c)
	ok := a >= 0 && b >= 0 && c >= 0 && a+b+c <= n
	sym.Assert((err == nil) == ok, "splits exactly when the input is long enough")
	if err == nil {
		sym.Assert(len(p) == 3 && sym.EqBytes(p[0], keep[:a]) && sym.EqBytes(p[1], keep[a:a+b]) && sym.EqBytes(p[2], keep[a+b:a+b+c]), "parts")
		for i := range p {
			for j := range p[i] {
				p[i][j]++
			}
		}
		sym.Assert(sym.EqBytes(in, keep), "parts are copies")
	}
	if a >= 0 && b >= 0 && a+b <= n {
		q := bytehelper.Split(in, a, b)
		sym.Assert(len(q) == 2 && sym.EqBytes(q[0], keep[:a]) && sym.EqBytes(q[1], keep[a:a+b]), "two parts")
		t := bytehelper.Trim(in, a)
		sym.Assert(sym.EqBytes(t, keep[:a]), "trimmed")
		for _, x := range [][]byte{q[0], q[1], t} {
			for j := range x {
				x[j]++
			}
			_ = append(x, 1, 2, 3)
		}
		sym.Assert(sym.EqBytes(in, keep), "two parts and the trimmed are copies")
		cp := bytehelper.CopySlice(in)
		sym.Assert(sym.EqBytes(cp, keep), "copy")
		for j := range cp {
			cp[j]++
		}
		sym.Assert(sym.EqBytes(in, keep), "copies are independent")
	}
	sym.Reach("ok")
}

// C27Arrays
//
//gosym:prop=C27 tier=both shard=len:70:6 reach=ok
//gosym:bound inputs of 0..69 bytes (quick: 0, 31, 32, 33, 64, 65)
func C27Arrays() {
	n := sizes(sym.Choose("len", 70), 0, 31, 32, 33, 64, 65)
	in := sym.Bytes("in", n)
	a, b := bytehelper.SliceToArray(in), bytehelper.SliceToArray64(in)
	for i := range a {
		sym.Assert(i < n && a[i] == in[i] || i >= n && a[i] == 0, "array of 32")
	}
	for i := range b {
		sym.Assert(i < n && b[i] == in[i] || i >= n && b[i] == 0, "array of 64")
	}
	sym.Assert(sym.EqBytes(bytehelper.ArrayToSlice(a), a[:]) && sym.EqBytes(bytehelper.ArrayToSlice64(b), b[:]), "slices")
	if n >= 7 {
		v := bytehelper.Bytes5ToInt64(in, 2)
		var w int64
		for i := 2; i < 7; i++ {
			w = w<<8 | int64(in[i])
		}
		sym.Assert(v == w, "five-byte integer")
	}
	sym.Reach("ok")
}

// C27PreKeys: generated prekeys have the ids asked for and different keys.
//
//gosym:prop=C27 tier=both shard=ser:2 reach=ok
//gosym:bound 0..4 and 120 prekeys from ids 0, 1, 2, 100, 70000, 2^24-3, 2^31-3 and any below 2^32-200
func C27PreKeys() {
	ser := serializerN(sym.Choose("ser", 2))
	start := []int{0, 1, 2, 100, 70000, 1<<24 - 3, 1<<31 - 3, -1}[sym.Choose("start", 8)]
	if start < 0 {
		any := sym.Uint32("any")
		sym.Assume(any < 1<<32-200)
		start = int(any)
	}
	n := []int{0, 1, 2, 3, 4, 120}[sym.Choose("n", 6)]
	o, _ := ecc.GenerateKeyPair()
	ks, err := keyhelper.GeneratePreKeys(start, n, ser.PreKeyRecord)
	sym.Assert(err == nil && len(ks) == n, "as many prekeys as asked for")
	for i, k := range ks {
		sym.Assert(k.ID().Value == uint32(start+i) && !k.ID().IsEmpty, "consecutive ids")
		sym.Assert(agrees(k.KeyPair(), o), "halves belong together")
		for j := 0; j < i; j++ {
			sym.Assert(k.KeyPair().PrivateKey().Serialize() != ks[j].KeyPair().PrivateKey().Serialize(), "different keys")
		}
	}
	sym.Reach("ok")
}

// C27Keys: identity, signed and last-resort keys.
//
//gosym:prop=C27 tier=both shard=ser:2 reach=ok
//gosym:bound every key and signed prekey id
func C27Keys() {
	ser := serializerN(sym.Choose("ser", 2))
	id, err := keyhelper.GenerateIdentityKeyPair()
	sym.Assert(err == nil, "no error")
	o, _ := ecc.GenerateKeyPair()
	sym.Assert(agrees(ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()), o), "identity halves belong together")
	n := sym.Uint32("id")
	sp, err := keyhelper.GenerateSignedPreKey(id, n, ser.SignedPreKeyRecord)
	sym.Assert(err == nil && sp.ID() == n, "signed prekey id")
	sym.Assert(agrees(sp.KeyPair(), o), "signed prekey halves belong together")
	sym.Assert(ecc.VerifySignature(id.PublicKey().PublicKey(), sp.KeyPair().PublicKey().Serialize(), sp.Signature()), "signature of the identity key")
	sym.Assert(!ecc.VerifySignature(o.PublicKey(), sp.KeyPair().PublicKey().Serialize(), sp.Signature()), "not of another key")
	lr, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
	sym.Assert(err == nil && lr.ID().Value == medium.MaxValue, "the last-resort key has the last-resort id")
	sym.Assert(agrees(lr.KeyPair(), o), "last-resort halves belong together")
	sg, err := keyhelper.GenerateSenderSigningKey()
	sym.Assert(err == nil && agrees(sg, o), "signing key halves belong together")
	k1, k2 := keyhelper.GenerateSenderKey(), keyhelper.GenerateSenderKey()
	sym.Assert(len(k1) == 32 && len(k2) == 32, "sender keys have 32 bytes")
	for i := 0; i+16 <= 32; i++ {
		sym.Assert(!sym.EqBytes(k1[i:i+16], k2[i:i+16]) && !sym.EqBytes(k1[i:i+16], make([]byte, 16)), "sender keys are all random")
	}
	sym.Reach("ok")
}

// C28Async: the asynchronous forms report exactly what the plain ones return.
//
//gosym:prop=C28 tier=both reach=ok
//gosym:bound every key, any 20-byte message, genuine or altered
func C28Async() {
	a, _ := ecc.GenerateKeyPair()
	msg := sym.Bytes("msg", 20)
	type ev struct {
		r *complete.Result
		m string
	}
	ch := make(chan ev, 4)
	done := complete.NewCompletion(func(r *complete.Result) { ch <- ev{r: r} }, func(m string) { ch <- ev{m: m} })
	ecc.CalculateSignatureAsync(a.PrivateKey(), msg, done)
	e := <-ch
	sym.Assert(e.r != nil, "signing succeeds")
	if e.r == nil {
		return
	}
	sig, ok := e.r.Data.([64]byte)
	sym.Assert(ok && ecc.VerifySignature(a.PublicKey(), msg, sig), "the signature verifies")
	ecc.VerifySignatureAsync(a.PublicKey(), msg, sig, done)
	e = <-ch
	sym.Assert(e.r != nil, "verifying succeeds")
	if e.r != nil {
		b, ok := e.r.Data.(bool)
		sym.Assert(ok && b, "the result is true")
	}
	sym.Honest()
	d := sym.AttackerBytes("d", 20)
	sym.Assume(!zero(d))
	ecc.VerifySignatureAsync(a.PublicKey(), xor(msg, d), sig, done)
	e = <-ch
	sym.Assert(e.r == nil, "an altered message fails")
	keyhelper.GenerateIdentityKeyPairAsync(done)
	e = <-ch
	sym.Assert(e.r != nil, "generation succeeds")
	if e.r != nil {
		k, ok := e.r.Data.(*identity.KeyPair)
		sym.Assert(ok && agrees(ecc.NewECKeyPair(k.PublicKey().PublicKey(), k.PrivateKey()), a), "identity halves belong together")
	}
	sym.Assert(len(ch) == 0, "one completion each")
	sym.Reach("ok")
}

// async is an asynchronous call under way.
type async struct {
	op   int
	k    *ecc.ECKeyPair
	msg  []byte
	sig  [64]byte
	bad  []byte // an altered message
	made *identity.KeyPair
	ch   chan asyncEnd
}

type asyncEnd struct {
	r *complete.Result
	m string
}

func newAsync(op int, k *ecc.ECKeyPair) *async {
	a := &async{op: op, k: k, msg: sym.Bytes("msg", 20), ch: make(chan asyncEnd, 4)}
	a.sig = ecc.CalculateSignature(k.PrivateKey(), a.msg)
	return a
}

func (a *async) start() {
	done := complete.NewCompletion(func(r *complete.Result) { a.ch <- asyncEnd{r: r} }, func(m string) { a.ch <- asyncEnd{m: m} })
	switch a.op {
	case 0:
		ecc.CalculateSignatureAsync(a.k.PrivateKey(), a.msg, done)
	case 1:
		ecc.VerifySignatureAsync(a.k.PublicKey(), a.msg, a.sig, done)
	case 2:
		ecc.VerifySignatureAsync(a.k.PublicKey(), a.bad, a.sig, done)
	case 3:
		keyhelper.GenerateIdentityKeyPairAsync(done)
	}
}

// end waits for the completion.
func (a *async) end(random bool) {
	e := <-a.ch
	runtime.Gosched()
	sym.Assert(len(a.ch) == 0, "one completion each, next to others")
	if e.r == nil {
		sym.Assert(a.op == 2 || a.op == 3 && !random, "a failure only where the plain call fails, next to others")
		return
	}
	ok := false
	switch a.op {
	case 0:
		var sig [64]byte
		if sig, ok = e.r.Data.([64]byte); ok {
			ok = ecc.VerifySignature(a.k.PublicKey(), a.msg, sig)
		}
	case 1:
		ok, _ = e.r.Data.(bool)
	case 3:
		if a.made, ok = e.r.Data.(*identity.KeyPair); ok {
			ok = random && agrees(ecc.NewECKeyPair(a.made.PublicKey().PublicKey(), a.made.PrivateKey()), a.k)
		}
	}
	sym.Assert(ok, "the result of its own call, next to others")
}

// yielding is a random source in whose calls other goroutines may run.
type yielding struct{ io.Reader }

func (y yielding) Read(b []byte) (int, error) {
	event("")
	n, err := y.Reader.Read(b)
	event("")
	return n, err
}

// C28Concurrent: several asynchronous calls at the same time.
//
//gosym:prop=C28 tier=both shard=op:4:4 shard=other:4:4 reach=ok
//gosym:bound two calls of any kind at the same time, with a working or a failing random source; either may let the other run at the first six places around their calls of the log or the random source, or run before the other starts
func C28Concurrent() {
	k1, _ := ecc.GenerateKeyPair()
	k2, _ := ecc.GenerateKeyPair()
	x, y := newAsync(sym.Choose("op", 4), k1), newAsync(sym.Choose("other", 4), k2)
	random := sym.Choose("source", 2) == 0
	sym.Honest()
	for _, a := range []*async{x, y} {
		d := sym.AttackerBytes("d", 20)
		sym.Assume(!zero(d))
		a.bad = xor(a.msg, d)
	}
	old, under := logger.Logger, rand.Reader
	var log logger.Loggable = eventLog{}
	logger.Setup(&log)
	left := 6
	onEvent = func(string) {
		if left > 0 {
			left--
			if sym.Choose("yield", 2) == 1 {
				runtime.Gosched()
			}
		}
	}
	if random {
		rand.Reader = yielding{under}
	} else {
		rand.Reader = yielding{&source{under: under}}
	}
	x.start()
	if sym.Choose("yield", 2) == 1 {
		runtime.Gosched()
	}
	y.start()
	x.end(random)
	y.end(random)
	onEvent = nil
	rand.Reader = under
	if old != nil {
		logger.Setup(&old)
	}
	if x.made != nil && y.made != nil {
		p, q := x.made.PrivateKey().Serialize(), y.made.PrivateKey().Serialize()
		sym.Assert(!sym.EqBytes(p[:], q[:]), "each generates a key of its own")
	}
	sym.Reach("ok")
}

// C27Names: addresses, names, error lists and printable keys.
//
//gosym:prop=C27 tier=both reach=ok
//gosym:bound any three-letter names, every device id, every key, up to three errors each set or nil
func C27Names() {
	name, group := string(sym.Bytes("name", 3)), string(sym.Bytes("group", 3))
	dev := sym.Uint32("dev")
	a := protocol.NewSignalAddress(name, dev)
	sym.Assert(a.Name() == name && a.DeviceID() == dev, "address")
	n := protocol.NewSenderKeyName(group, a)
	sym.Assert(n.GroupID() == group && n.Sender().Name() == name && n.Sender().DeviceID() == dev, "sender key name")
	for _, d := range []uint32{0, 7, 42, 1<<32 - 1} {
		sym.Assert(protocol.NewSignalAddress(name, d).String() == name+":"+dec(d), "printed address")
	}
	pub := sym.Bytes("pub", 32)
	var p [32]byte
	copy(p[:], pub)
	k := identity.NewKeyFromBytes(p, 0)
	sym.Assert(sym.EqBytes(k.Serialize(), append([]byte{5}, pub...)), "identity key")
	h, err := hex.DecodeString(k.Fingerprint())
	sym.Assert(err == nil && sym.EqBytes(h, k.Serialize()), "printed key")
	errs := errorhelper.NewMultiError()
	first := ""
	for i := 0; i < 3; i++ {
		if sym.Choose("err", 2) == 1 {
			t := string(rune('a' + i))
			errs.Add(errors.New(t))
			if first == "" {
				first = t
			}
		} else {
			errs.Add(nil)
		}
		sym.Assert(errs.HasErrors() == (first != "") && errs.Error() == first, "first error")
	}
	d := fingerprint.NewDisplay([]byte("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), []byte("bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"))
	sym.Assert(fingerprint.NewFingerprint(d).Display() == d, "fingerprint")
	sym.Reach("ok")
}

func dec(v uint32) string {
	s := ""
	for v >= 10 {
		s = string(rune('0'+v%10)) + s
		v /= 10
	}
	return string(rune('0'+v)) + s
}

// C22Parameters: all ways to give the keys of an exchange agree.
//
//gosym:prop=C22 tier=both shard=pre:2 reach=ok
//gosym:bound all keys; parameters given at once or one by one, with and without a one-time prekey
func C22Parameters() {
	ia, _ := keyhelper.GenerateIdentityKeyPair()
	ib, _ := keyhelper.GenerateIdentityKeyPair()
	base, _ := ecc.GenerateKeyPair()
	spk, _ := ecc.GenerateKeyPair()
	rk, _ := ecc.GenerateKeyPair()
	var opk *ecc.ECKeyPair
	var opkPub ecc.ECPublicKeyable
	if sym.Choose("pre", 2) == 1 {
		opk, _ = ecc.GenerateKeyPair()
		opkPub = opk.PublicKey()
	}
	s := ratchet.NewSenderParameters(ia, base, ib.PublicKey(), spk.PublicKey(), rk.PublicKey(), opkPub)
	t := ratchet.NewEmptySenderParameters()
	t.SetOurBaseKey(base)
	t.SetOurIdentityKey(ia)
	t.SetTheirIdentityKey(ib.PublicKey())
	t.SetTheirSignedPreKey(spk.PublicKey())
	t.SetTheirRatchetKey(rk.PublicKey())
	t.SetTheirOneTimePreKey(opkPub)
	r := ratchet.NewReceiverParameters(ib, spk, opk, rk, base.PublicKey(), ia.PublicKey())
	u := ratchet.NewEmptyReceiverParameters()
	u.SetOurIdentityKeyPair(ib)
	u.SetOurSignedPreKey(spk)
	u.SetOurOneTimePreKey(opk)
	u.SetOurRatchetKey(rk)
	u.SetTheirBaseKey(base.PublicKey())
	u.SetTheirIdentityKey(ia.PublicKey())
	k1, e1 := ratchet.CalculateSenderSession(s)
	k2, e2 := ratchet.CalculateSenderSession(t)
	k3, e3 := ratchet.CalculateReceiverSession(r)
	k4, e4 := ratchet.CalculateReceiverSession(u)
	sym.Assert(e1 == nil && e2 == nil && e3 == nil && e4 == nil, "calculated")
	for _, k := range []*session.KeyPair{k2, k3, k4} {
		sym.Assert(sym.EqBytes(k1.RootKey.Bytes(), k.RootKey.Bytes()), "root key")
		sym.Assert(sym.EqBytes(k1.ChainKey.Key(), k.ChainKey.Key()) && k.ChainKey.Index() == 0, "chain key")
	}
	sym.Reach("ok")
}
