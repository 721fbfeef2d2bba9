# Edits that keep the behaviour; the checks have to stay quiet (rc 0, complete).
SC='session/cipher.go'; SS='state/record/state_session.go'; SB='session/session.go'; SR='state/record/session.go'
CH='state/record/state_chain.go'; GC='groups/cipher.go'; GB='groups/session_builder.go'; GS='groups/state/record/state_sender_key.go'; GR='groups/state/record/sender_key.go'
PM='protocol/prekey_signal_message.go'; SM='protocol/signal_message.go'; KM='protocol/sender_key_message.go'; DM='protocol/sender_key_distribution_message.go'
PB='serialize/proto.go'; CB='cipher/cbc.go'; CI='cipher/cipher.go'; BH='util/bytehelper/byte.go'; KH='util/keyhelper/key.go'
m('C01 C22 C24','x25519',('kdf/hkdf.go','''	var sharedSecret [32]byte
	curve25519.ScalarMult(&sharedSecret, &ourKey, &theirKey)

	return sharedSecret''','''	var sharedSecret [32]byte
	secret, err := curve25519.X25519(ourKey[:], theirKey[:])
	if err != nil {
		// Low order points give zero.
		return sharedSecret
	}
	copy(sharedSecret[:], secret)

	return sharedSecret'''))
m('C22 C07 C15','hkdf extract expand',('kdf/hkdf.go','	kdf := hkdf.New(sha256.New, inputKeyMaterial, salt, info)','	prk := hkdf.Extract(sha256.New, inputKeyMaterial, salt)\n	kdf := hkdf.Expand(sha256.New, prk, info)'))
m('C21 C01','x25519 base',('ecc/curve.go','''	private[31] |= 64

	curve25519.ScalarBaseMult(&public, &private)

	// Put data into our keypair struct
	djbECPub := NewDjbECPublicKey(public)
	djbECPriv := NewDjbECPrivateKey(private)
	keypair := NewECKeyPair(djbECPub, djbECPriv)

	logger''','''	private[31] |= 64

	pub, _ := curve25519.X25519(private[:], curve25519.Basepoint)
	copy(public[:], pub)

	// Put data into our keypair struct
	djbECPub := NewDjbECPublicKey(public)
	djbECPriv := NewDjbECPrivateKey(private)
	keypair := NewECKeyPair(djbECPub, djbECPriv)

	logger'''))
m('C21 C28 C32','rand.Read',('ecc/curve.go','''	// Generate some random data
	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
''','''	// Generate some random data
	seed := make([]byte, 32)
	if n, err := io.ReadAtLeast(random, seed, len(seed)); err != nil || n < 32 {
		return nil, err
	}
	copy(private[:], seed)
'''))
m('C22 C24','master secret array',('ratchet/ratchet.go','''func CalculateSymmetricSession(''','''func secretOf(public ecc.ECPublicKeyable, private ecc.ECPrivateKeyable) []byte {
	s := kdf.CalculateSharedSecret(public.PublicKey(), private.Serialize())
	return s[:]
}

// CalculateSymmetricSession as before.
func CalculateSymmetricSession('''),('ratchet/ratchet.go','''	publicKey = parameters.TheirIdentityKey().PublicKey().PublicKey()
	privateKey = parameters.OurSignedPreKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)
''','''	var buf bytes.Buffer
	buf.Write(masterSecret)
	buf.Write(secretOf(parameters.TheirIdentityKey().PublicKey(), parameters.OurSignedPreKey().PrivateKey()))
	masterSecret = buf.Bytes()
'''))
m('C12 C27 C11','split three by append',(BH,'''	parts := make([][]byte, 3)

	parts[0] = make([]byte, firstLength)
	copy(parts[0], input[:firstLength])

	parts[1] = make([]byte, secondLength)
	copy(parts[1], input[firstLength:][:secondLength])

	parts[2] = make([]byte, thirdLength)
	copy(parts[2], input[firstLength+secondLength:])

	return parts, nil''','''	var parts [][]byte
	rest := input
	for _, n := range [...]int{firstLength, secondLength, thirdLength} {
		part := append(make([]byte, 0, n), rest[:n]...)
		parts = append(parts, part)
		rest = rest[n:]
	}
	return parts, nil'''))
m('C23 C27','bytes5 binary',(BH,'''	value := (int64(bytes[offset]&0xff) << 32) |
		(int64(bytes[offset+1]&0xff) << 24) |
		(int64(bytes[offset+2]&0xff) << 16) |
		(int64(bytes[offset+3]&0xff) << 8) |
		int64(bytes[offset+4]&0xff)

	return value''','''	var value int64
	for _, b := range bytes[offset : offset+5] {
		value = value*256 + int64(b)
	}
	return value'''))
m('C23','display builder',('fingerprint/display.go','''	return encodedChunk(fingerprint, 0) +
		encodedChunk(fingerprint, 5) +
		encodedChunk(fingerprint, 10) +
		encodedChunk(fingerprint, 15) +
		encodedChunk(fingerprint, 20) +
		encodedChunk(fingerprint, 25)''','''	var s strings.Builder
	for i := 0; i < 30; i += 5 {
		s.WriteString(encodedChunk(fingerprint, i))
	}
	return s.String()'''),('fingerprint/display.go','	"fmt"\n','	"fmt"\n	"strings"\n'))
m('C23','pad by hand',('fingerprint/display.go','	return fmt.Sprintf("%05d", chunk)','	s := strconv.FormatInt(chunk, 10)\n	return strings.Repeat("0", 5-len(s)) + s'),('fingerprint/display.go','	"fmt"\n','	"strconv"\n	"strings"\n'))
m('C03 C22','mac by subtle',(SM,'	if !hmac.Equal(ourMac, theirMac) {','	if subtle.ConstantTimeCompare(ourMac, theirMac) != 1 {'),(SM,'	"crypto/hmac"\n','	"crypto/hmac"\n	"crypto/subtle"\n'))
m('C03 C22','mac serialised in one buffer',(SM,'''		mac.Write(senderIdentityKey.PublicKey().Serialize())
		mac.Write(receiverIdentityKey.PublicKey().Serialize())
	}

	mac.Write(serialized)
''','''		serialized = bytes.Join([][]byte{
			senderIdentityKey.PublicKey().Serialize(),
			receiverIdentityKey.PublicKey().Serialize(),
			serialized,
		}, nil)
	}

	mac.Write(serialized)
'''),(SM,'	"crypto/hmac"\n','	"bytes"\n	"crypto/hmac"\n')) 
m('C02 C04 C06','message keys in helper',(SC,'''	for chainKey.Index() < counter {
		messageKeys := chainKey.MessageKeys()
		sessionState.SetMessageKeys(theirEphemeral, messageKeys)
		chainKey = chainKey.NextKey()
	}

	sessionState.SetReceiverChainKey''','''	skip := func(k *chain.Key) *chain.Key {
		sessionState.SetMessageKeys(theirEphemeral, k.MessageKeys())
		return k.NextKey()
	}
	for i := chainKey.Index(); i != counter; i++ {
		chainKey = skip(chainKey)
	}

	sessionState.SetReceiverChainKey'''))
m('C06 C02','pop by copy',(CH,'''	removed := c.messageKeys[0]
	c.messageKeys = c.messageKeys[1:]

	return removed''','''	removed := c.messageKeys[0]
	n := copy(c.messageKeys, c.messageKeys[1:])
	c.messageKeys = c.messageKeys[:n]

	return removed'''))
m('C06 C07 C31','receiver chains copy',(SS,'''		i := 0
		s.receiverChains = append(s.receiverChains[:i], s.receiverChains[i+1:]...)''','''		s.receiverChains = append([]*Chain(nil), s.receiverChains[len(s.receiverChains)-maxReceiverChains:]...)'''))
m('C02 C04 C06 C13','receiver chain compare bytes',(SS,'''		if chainSenderRatchetKey.PublicKey() == senderEphemeral.PublicKey() {''','''		a, b := chainSenderRatchetKey.Serialize(), senderEphemeral.Serialize()
		if bytes.Equal(a, b) {'''),(SS,'''import (
''','''import (
	"bytes"

'''))
m('C17 C15 C18','remove key by filter',(GS,'''	for i := 0; i < len(k.keys); i++ {
		if k.keys[i].Iteration() == iteration {
			removed := k.keys[i]
			k.keys = append(k.keys[0:i], k.keys[i+1:]...)
			return removed
		}
	}

	return nil''','''	var removed *ratchet.SenderMessageKey
	kept := make([]*ratchet.SenderMessageKey, 0, len(k.keys))
	for _, key := range k.keys {
		if removed == nil && key.Iteration() == iteration {
			removed = key
			continue
		}
		kept = append(kept, key)
	}
	k.keys = kept

	return removed'''))
m('C15 C16 C17 C30 C31','decrypt with defer',(GC,'''	// Get the senderkey state by id.
	senderKeyState, err :=''','''	done := false
	defer func() {
		if !done {
			_ = keyRecord
		}
	}()
	// Get the senderkey state by id.
	senderKeyState, err :='''))
m('C15 C18','fmt errors',(GC,'''		i1 := strconv.Itoa(int(senderChainKey.Iteration()))
		i2 := strconv.Itoa(int(iteration))
		return nil, errors.New("Received message with old counter: " + i1 + ", " + i2)''','''		return nil, fmt.Errorf("Received message with old counter: %d, %d", senderChainKey.Iteration(), iteration)'''),(GC,'	"strconv"\n','	"fmt"\n'))
m('C19 C25','pad in loop',(CB,'''	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
	padded := make([]byte, 0, len(ciphertext)+padding)
	padded = append(padded, ciphertext...)
	return append(padded, padtext...)''','''	padded := make([]byte, len(ciphertext)+padding)
	for i := copy(padded, ciphertext); i < len(padded); i++ {
		padded[i] = byte(padding)
	}
	return padded'''),(CB,'	"bytes"\n',''))
m('C19','unpad constant time',(CI,'''	for i := 0; i < n; i++ {
		if b[len(b)-n+i] != c {
			return nil, ErrInvalidPKCS7Padding
		}
	}''','''	var diff byte
	for _, x := range b[len(b)-n:] {
		diff |= x ^ c
	}
	if diff != 0 {
		return nil, ErrInvalidPKCS7Padding
	}'''))
m('C28','async channel',('ecc/curve.go','''	go func() {
		r := VerifySignature(signingKey, message, signature)
		if r == false {
			completion.OnFailure("Signature invalid")
			return
		}
		result := complete.NewResult(r)
		completion.OnSuccess(&result)
	}()''','''	verified := make(chan bool, 1)
	go func() {
		verified <- VerifySignature(signingKey, message, signature)
	}()
	go func() {
		if r := <-verified; !r {
			completion.OnFailure("Signature invalid")
		} else {
			result := complete.NewResult(r)
			completion.OnSuccess(&result)
		}
	}()'''))
m('C26 C16 C32','sha512 sum',('ecc/sign_curve25519.go','''	var hramDigest [64]byte
	hash.Reset()
	hash.Write(encodedR[:])
	hash.Write(publicKey[:])
	hash.Write(message)
	hash.Sum(hramDigest[:0])
''','''	input := append(append(encodedR[:], publicKey[:]...), message...)
	hramDigest := sha512.Sum512(input)
'''))
m('C26 C32','nonce in new hash',('ecc/sign_curve25519.go','''	hash := sha512.New()
	hash.Write(diversifier[:])
	hash.Write(privateKey[:])
	hash.Write(message)
	hash.Write(random[:])
	hash.Sum(r[:0])
''','''	hash := sha512.New()
	for _, part := range [][]byte{diversifier[:], privateKey[:], message, random[:]} {
		hash.Write(part)
	}
	copy(r[:], hash.Sum(nil))
'''))
m('C11 C12 C14','version byte by mult',(PB,'	return byte((highValue<<4 | lowValue) & 0xFF)','	return byte(highValue*16 + lowValue)') )
m('C11 C12','proto buffer',(PB,'''	message, err := proto.Marshal(sm)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}
''','''	buffer := proto.NewBuffer(nil)
	err := buffer.Marshal(sm)
	if err != nil {
		logger.Error("Error serializing signal message: ", err)
	}
	message := buffer.Bytes()
'''))
m('C14 C12','version switch',(PM,'''	if structure.Version <= UnsupportedVersion {
		err := "Legacy message: " + strconv.Itoa(structure.Version)
		return nil, errors.New(err)
	}

	// Throw an error if the given message structure is a future version.
	if structure.Version > CurrentVersion {
		err := "Unknown version: " + strconv.Itoa(structure.Version)
		return nil, errors.New(err)
	}
''','''	switch v := structure.Version; {
	case v <= UnsupportedVersion:
		return nil, errors.New("Legacy message: " + strconv.Itoa(v))
	case v > CurrentVersion:
		return nil, errors.New("Unknown version: " + strconv.Itoa(v))
	}
'''))
m('C09 C05 C10','remove prekey before store',(SC,'''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}''','''	defer d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if used := unsignedPreKeyID; !used.IsEmpty {
		d.preKeyStore.RemovePreKey(used.Value)
	}'''))
m('C08 C01','process reordered',(SB,'''	theirSignedPreKey := preKey.SignedPreKey()
	theirOneTimePreKey := preKey.PreKey()
	theirOneTimePreKeyID := preKey.PreKeyID()
''','''	theirSignedPreKey, theirOneTimePreKey, theirOneTimePreKeyID := func() (ecc.ECPublicKeyable, ecc.ECPublicKeyable, *optional.Uint32) {
		return preKey.SignedPreKey(), preKey.PreKey(), preKey.PreKeyID()
	}()
'''))
m('C07 C10','new chain before ephemeral',(SC,'''	// Set our session state parameters.
	sessionState.SetRootKey(senderChain.RootKey)
	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
	sessionState.SetPreviousCounter(previousCounter)
''','''	// Set our session state parameters.
	var previousCounter uint32
	if n := sessionState.SenderChainKey().Index(); n > 0 {
		previousCounter = n - 1
	}
	sessionState.SetPreviousCounter(previousCounter)
	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
	sessionState.SetRootKey(senderChain.RootKey)
'''))
m('C20','decode with switch',('ecc/curve.go','''	keyType := bytes[offset] & 0xFF

	switch keyType {
	case DjbType:
		keyBytes := [32]byte{}
		copy(keyBytes[:], bytes[offset+1:])
		return NewDjbECPublicKey(keyBytes), nil
	default:
		return nil, errors.New("Bad key type: " + string(keyType))
	}''','''	if keyType := bytes[offset]; keyType != DjbType {
		return nil, fmt.Errorf("Bad key type: %d", keyType)
	}
	var keyBytes [32]byte
	for i := range keyBytes {
		keyBytes[i] = bytes[offset+1+i]
	}
	return NewDjbECPublicKey(keyBytes), nil'''),('ecc/curve.go','	"errors"\n','	"errors"\n	"fmt"\n'))
m('C25','provision hmac compare',('provision/cipher.go','''	m := hmac.New(sha256.New, key)
	m.Write(input)
	return hmac.Equal(m.Sum(nil), mac)''','''	m := hmac.New(sha256.New, key)
	if _, err := io.Copy(m, bytes.NewReader(input)); err != nil {
		return false
	}
	sum := m.Sum(make([]byte, 0, sha256.Size))
	return len(mac) == len(sum) && hmac.Equal(sum, mac)'''),('provision/cipher.go','	"crypto/hmac"\n','	"bytes"\n	"crypto/hmac"\n'),('provision/cipher.go','	"fmt"\n','	"fmt"\n	"io"\n'))
# C29: whole functions written differently
ED='ecc/edwards25519/edwards25519.go'
_ed=open('/repo/'+ED).read()
def fn(name,file=None):
    s=_ed if file is None else open('/repo/'+file).read()
    i=re.search(r'^func (\([^)]*\) )?%s\('%re.escape(name),s,re.M).start(); return s[i:s.index('\n}\n',i)+3]
def w(name,new,props='C29',n=None): m(props,'field '+(n or name),(ED,fn(name),new))
w('FeAdd','''func FeAdd(dst, a, b *FieldElement) {
	for i := range dst {
		dst[i] = a[i] + b[i]
	}
}
''')
w('FeNeg','''func FeNeg(h, f *FieldElement) {
	var zero FieldElement
	FeSub(h, &zero, f)
}
''')
w('FeCMove','''func FeCMove(f, g *FieldElement, b int32) {
	if b == 1 {
		*f = *g
	}
}
''')
w('FeCMove','''func FeCMove(f, g *FieldElement, b int32) {
	mask := -b
	for i := range f {
		f[i] = f[i]&^mask | g[i]&mask
	}
}
''',n='FeCMove by masks')
w('FeCMove','''func FeCMove(f, g *FieldElement, b int32) {
	for i := range f {
		f[i] += b * (g[i] - f[i])
	}
}
''',n='FeCMove by product')
w('load4','''func load4(in []byte) int64 {
	return int64(uint32(in[0]) | uint32(in[1])<<8 | uint32(in[2])<<16 | uint32(in[3])<<24)
}
''')
w('load3','''func load3(in []byte) int64 {
	var r int64
	for i := 2; i >= 0; i-- {
		r = r<<8 + int64(in[i])
	}
	return r
}
''')
w('FeCombine','''func FeCombine(h *FieldElement, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9 int64) {
	x := [10]int64{h0, h1, h2, h3, h4, h5, h6, h7, h8, h9}
	carry := func(i int) {
		bits := uint(26 - i%2)
		c := (x[i] + 1<<(bits-1)) >> bits
		x[i] -= c << bits
		if i == 9 {
			x[0] += 19 * c
		} else {
			x[i+1] += c
		}
	}
	for i := 0; i < 4; i++ {
		carry(i)
		carry(i + 4)
	}
	carry(4)
	carry(8)
	carry(9)
	carry(0)
	for i := range h {
		h[i] = int32(x[i])
	}
}
''')
w('FeMul','''func FeMul(h, f, g *FieldElement) {
	var x [10]int64
	for i := 0; i < 10; i++ {
		for j := 0; j < 10; j++ {
			p := int64(f[i]) * int64(g[j])
			if i%2 == 1 && j%2 == 1 {
				p *= 2
			}
			if i+j >= 10 {
				p *= 19
			}
			x[(i+j)%10] += p
		}
	}
	FeCombine(h, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9])
}
''')
w('FeSquare','''func FeSquare(h, f *FieldElement) {
	FeMul(h, f, f)
}
''')
w('FeSquare2','''func FeSquare2(h, f *FieldElement) {
	FeSquare(h, f)
	FeAdd(h, h, h)
	FeMul(h, h, &FieldElement{1})
}
''')
w('FeToBytes','''func FeToBytes(s *[32]byte, h *FieldElement) {
	t := *h
	q := (19*t[9] + (1 << 24)) >> 25
	for i := range t {
		q = (t[i] + q) >> uint(26-i%2)
	}
	t[0] += 19 * q
	for i := 0; i < 9; i++ {
		n := uint(26 - i%2)
		t[i+1] += t[i] >> n
		t[i] &= 1<<n - 1
	}
	t[9] &= 1<<25 - 1
	var acc uint64
	var n uint
	k := 0
	for i := range t {
		acc |= uint64(t[i]) << n
		n += uint(26 - i%2)
		for n >= 8 {
			s[k] = byte(acc)
			acc >>= 8
			n -= 8
			k++
		}
	}
	s[k] = byte(acc)
}
''')
w('FeInvert','''func FeInvert(out, z *FieldElement) {
	// The exponent is 2^255 - 21.
	x := *z
	t := FieldElement{1}
	for i := 254; i >= 0; i-- {
		FeSquare(&t, &t)
		if i != 2 && i != 4 {
			FeMul(&t, &t, &x)
		}
	}
	*out = t
}
''')
w('equal','''func equal(b, c int32) int32 {
	if b == c {
		return 1
	}
	return 0
}
''')
w('selectPoint','''func selectPoint(t *PreComputedGroupElement, pos int32, b int32) {
	t.Zero()
	switch {
	case b > 0:
		*t = base[pos][b-1]
	case b < 0:
		u := &base[pos][-b-1]
		t.yPlusX, t.yMinusX = u.yMinusX, u.yPlusX
		FeNeg(&t.xy2d, &u.xy2d)
	}
}
''')
w('GeScalarMultBase','''func GeScalarMultBase(h *ExtendedGroupElement, a *[32]byte) {
	var e [64]int8
	carry := int8(0)
	for i := range e {
		d := int8(a[i/2]>>(4*uint(i%2))&15) + carry
		carry = 0
		if i < 63 {
			carry = (d + 8) >> 4
		}
		e[i] = d - carry<<4
	}

	h.Zero()
	sum := func(from int) {
		var t PreComputedGroupElement
		var r CompletedGroupElement
		for i := from; i < len(e); i += 2 {
			selectPoint(&t, int32(i/2), int32(e[i]))
			geMixedAdd(&r, h, &t)
			r.ToExtended(h)
		}
	}
	sum(1)
	for i := 0; i < 4; i++ {
		var r CompletedGroupElement
		h.Double(&r)
		r.ToExtended(h)
	}
	sum(0)
}
''')
w('ScReduce','''func ScReduce(out *[32]byte, s *[64]byte) {
	reduce(out, digits(s[:]))
}

// digits splits a number of 64 bytes into 24 digits of 21 bits.
func digits(in []byte) (d [24]int64) {
	for i := range d {
		p := 21 * i
		v := int64(0)
		for j := 3; j >= 0; j-- {
			if k := p/8 + j; k < len(in) {
				v = v<<8 | int64(in[k])
			}
		}
		d[i] = v >> uint(p%8)
		if i < 23 {
			d[i] &= 1<<21 - 1
		}
	}
	return
}

func fold(d *[24]int64, i int) {
	for j, c := range [6]int64{666643, 470296, 654183, -997805, 136657, -683901} {
		d[i-12+j] += d[i] * c
	}
	d[i] = 0
}

func reduce(out *[32]byte, d [24]int64) {
	round := func(from, to int) {
		for i := from; i < to; i += 2 {
			c := (d[i] + 1<<20) >> 21
			d[i+1] += c
			d[i] -= c << 21
		}
	}
	floor := func(to int) {
		for i := 0; i < to; i++ {
			c := d[i] >> 21
			d[i+1] += c
			d[i] -= c << 21
		}
	}
	for i := 23; i >= 18; i-- {
		fold(&d, i)
	}
	round(6, 17)
	round(7, 16)
	for i := 17; i >= 12; i-- {
		fold(&d, i)
	}
	round(0, 11)
	round(1, 12)
	fold(&d, 12)
	floor(12)
	fold(&d, 12)
	floor(11)
	var acc int64
	n, k := uint(0), 0
	for i := 0; i < 12; i++ {
		acc |= d[i] << n
		for n += 21; n >= 8 && k < 31; n -= 8 {
			out[k] = byte(acc)
			acc >>= 8
			k++
		}
	}
	out[31] = byte(acc)
}
''')
w('Double','''func (p *ProjectiveGroupElement) Double(r *CompletedGroupElement) {
	var xx, yy, s FieldElement
	FeSquare(&xx, &p.X)
	FeSquare(&yy, &p.Y)
	FeAdd(&s, &p.X, &p.Y)
	FeSquare(&s, &s)
	FeAdd(&r.Y, &yy, &xx)
	FeSub(&r.Z, &yy, &xx)
	FeSub(&r.X, &s, &r.Y)
	FeSquare2(&r.T, &p.Z)
	FeSub(&r.T, &r.T, &r.Z)
}
''')
w('geMixedAdd','''func geMixedAdd(r *CompletedGroupElement, p *ExtendedGroupElement, q *PreComputedGroupElement) {
	var a, b, c, d FieldElement
	FeSub(&a, &p.Y, &p.X)
	FeMul(&a, &a, &q.yMinusX)
	FeAdd(&b, &p.Y, &p.X)
	FeMul(&b, &b, &q.yPlusX)
	FeMul(&c, &q.xy2d, &p.T)
	FeAdd(&d, &p.Z, &p.Z)
	FeSub(&r.X, &b, &a)
	FeAdd(&r.Y, &b, &a)
	FeAdd(&r.Z, &d, &c)
	FeSub(&r.T, &d, &c)
}
''')
m('C31 C08 C30 C05','identity saved last',(SC,'''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil''','''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
	return plaintext, messageKeys, nil'''))
m('C31 C32 C10 C08','bundle identity saved first',(SB,'''	// Store the session in our session store and save the identity in our identity store.
	b.sessionStore.StoreSession(b.remoteAddress, sessionRecord)
	b.identityKeyStore.SaveIdentity(b.remoteAddress, preKey.IdentityKey())
''','''	// Save the identity in our identity store and store the session in our session store.
	b.identityKeyStore.SaveIdentity(b.remoteAddress, preKey.IdentityKey())
	b.sessionStore.StoreSession(b.remoteAddress, sessionRecord)
'''))
m('C32 C01 C08 C31','bundle keys first',(SB,'''	// If this is a fresh record, archive our current state.
	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}

	///////// Initialize our session /////////
	sessionState := sessionRecord.SessionState()
	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
	if sessionErr != nil {
		return sessionErr
	}
	// Generate an ephemeral "ratchet" key that will be advertised to
	// the receiving user.
	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		return keyErr
	}
''','''	// Generate an ephemeral "ratchet" key that will be advertised to
	// the receiving user.
	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		return keyErr
	}
	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
	if sessionErr != nil {
		return sessionErr
	}

	// If this is a fresh record, archive our current state.
	if !sessionRecord.IsFresh() {
		sessionRecord.ArchiveCurrentState()
	}

	///////// Initialize our session /////////
	sessionState := sessionRecord.SessionState()
'''))
m('C32 C21','generate by create',('ecc/curve.go','''	// Documented at: http://cr.yp.to/ecdh.html
	private[0] &= 248
	private[31] &= 127
	private[31] |= 64

	curve25519.ScalarBaseMult(&public, &private)

	// Put data into our keypair struct
	djbECPub := NewDjbECPublicKey(public)
	djbECPriv := NewDjbECPrivateKey(private)
	keypair := NewECKeyPair(djbECPub, djbECPriv)

	// logger.Debug("Returning keypair: ", keypair)

	return keypair, nil''','''	return CreateKeyPair(private[:]), nil'''),('ecc/curve.go','''	// Create a byte array for our public and private keys.
	var private, public [32]byte

	// Generate some random data''','''	// Create a byte array for our private key.
	var private [32]byte

	// Generate some random data'''))
m('C32 C27','prekeys preallocated',(KH,'''	var preKeys []*record.PreKey

	for i := start; i < start+count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
	}
''','''	if count <= 0 {
		return nil, nil
	}
	preKeys := make([]*record.PreKey, count)

	for i := range preKeys {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys[i] = record.NewPreKey(uint32(start+i), key, serializer)
	}
'''))
m('C30 C19 C25','cbc encrypt one buffer',(CB,'''	var ciphertext []byte
	if iv == nil {
		ciphertext = make([]byte, aes.BlockSize+len(plaintext))
		iv := ciphertext[:aes.BlockSize]
		if _, err := io.ReadFull(rand.Reader, iv); err != nil {
			return nil, err
		}

		cbc := cipher.NewCBCEncrypter(block, iv)
		cbc.CryptBlocks(ciphertext[aes.BlockSize:], plaintext)
	} else {
		ciphertext = make([]byte, len(plaintext))

		cbc := cipher.NewCBCEncrypter(block, iv)
		cbc.CryptBlocks(ciphertext, plaintext)
	}
''','''	ciphertext := make([]byte, aes.BlockSize+len(plaintext))
	body := ciphertext[aes.BlockSize:]
	if iv == nil {
		iv = ciphertext[:aes.BlockSize]
		if _, err := io.ReadFull(rand.Reader, iv); err != nil {
			return nil, err
		}
	} else {
		ciphertext = body
	}
	cbc := cipher.NewCBCEncrypter(block, iv)
	cbc.CryptBlocks(body, plaintext)
'''))
m('C30 C19','cbc encrypt in place',(CB,'''		ciphertext = make([]byte, len(plaintext))

		cbc''','''		// pad returns bytes of its own
		ciphertext = plaintext

		cbc'''))
m('C30 C31 C05 C02','decrypt loads and stores in helper',(SC,'''	// Load the session record from our session store and decrypt the message.
	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}
''','''	// Load the session record from our session store and decrypt the message.
	sessionRecord, plaintext, messageKeys, err := d.loadAndDecrypt(ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}
'''),(SC,'''// DecryptWithRecord decrypts the given message using the given session record.
''','''func (d *Cipher) loadAndDecrypt(m *protocol.SignalMessage) (r *record.Session, plaintext []byte, keys *message.Keys, err error) {
	r = d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, keys, err = d.DecryptWithRecord(r, m)
	return
}

// DecryptWithRecord decrypts the given message using the given session record.
'''))
m('C31 C30 C18','group state by pointer swap',(GC,'''	// Get the senderkey state by id.
	senderKeyState, err := keyRecord.GetSenderKeyStateByID(senderKeyMessage.KeyID())
	if err != nil {
		return nil, err
	}

	// Verify the signature of the senderkey message.
	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if !verified {
		return nil''','''	// Get the senderkey state by id.
	senderKeyState, err := keyRecord.GetSenderKeyStateByID(senderKeyMessage.KeyID())
	if err != nil {
		return nil, err
	}

	// Verify the signature of the senderkey message.
	if signingKey := senderKeyState.SigningKey().PublicKey(); !c.verifySignature(signingKey, senderKeyMessage) {
		return nil'''))
m('C31 C16 C32','create returns early',(GB,'''	senderKeyRecord := b.senderKeyStore.LoadSenderKey(senderKeyName)

	// If the record is empty, generate new keys.
	if senderKeyRecord == nil || senderKeyRecord.IsEmpty() {
		senderKeyRecord = record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
		signingKey, err := keyhelper.GenerateSenderSigningKey()
		if err != nil {
			return nil, err
		}
		senderKeyRecord.SetSenderKeyState(
			keyhelper.GenerateSenderKeyID(), 0,
			keyhelper.GenerateSenderKey(),
			signingKey,
		)
		b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)
	}
''','''	senderKeyRecord := b.senderKeyStore.LoadSenderKey(senderKeyName)

	// If the record is empty, generate new keys.
	if senderKeyRecord == nil || senderKeyRecord.IsEmpty() {
		id, seed := keyhelper.GenerateSenderKeyID(), keyhelper.GenerateSenderKey()
		signingKey, err := keyhelper.GenerateSenderSigningKey()
		if err != nil {
			return nil, err
		}
		senderKeyRecord = record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState)
		senderKeyRecord.SetSenderKeyState(id, 0, seed, signingKey)
		b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)
	}
'''))
# the same by other parts of the standard library
m('C30 C19 C02','pool copied out',(CB,'''	plaintext := make([]byte, len(ciphertext))
	cbc.CryptBlocks(plaintext, ciphertext)

	return unpad(plaintext)''','''	buffer := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buffer)
	buffer.Reset()
	buffer.Write(ciphertext)
	cbc.CryptBlocks(buffer.Bytes(), ciphertext)

	plaintext, err := unpad(buffer.Bytes())
	if err != nil {
		return nil, err
	}
	return append([]byte{}, plaintext...), nil'''),(CB,'func pad(','''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func pad('''),(CB,'import (','import (\n\t"sync"'))
m('C02 C06','keys in a list',(CH,'''	removed := c.messageKeys[0]
	c.messageKeys = c.messageKeys[1:]

	return removed''','''	l := list.New()
	for _, k := range c.messageKeys {
		l.PushBack(k)
	}
	removed := l.Remove(l.Front()).(*message.Keys)
	c.messageKeys = c.messageKeys[:0]
	for e := l.Front(); e != nil; e = e.Next() {
		c.messageKeys = append(c.messageKeys, e.Value.(*message.Keys))
	}

	return removed'''),(CH,'import (','import (\n\t"container/list"\n'))
m('C17 C16 C05','errors wrapped',(SC,'''	if err != nil {
		logger.Error("Unable to verify ciphertext mac: ", err)
		return nil, nil, err
	}
''','''	if err != nil {
		logger.Error("Unable to verify ciphertext mac: ", err)
		return nil, nil, fmt.Errorf("bad mac: %w", err)
	}
'''),(SC,'import (','import (\n\t"fmt"'),(GC,'''		return nil, errors.New("Received message with old counter: " + i1 + ", " + i2)''','''		return nil, fmt.Errorf("Received message with old counter: %s, %s", i1, i2)'''),(GC,'import (','import (\n\t"fmt"'))
m('C24 C22','secrets in a bytes.Buffer',('ratchet/sender.go','masterSecret := []byte{}','masterSecret := new(bytes.Buffer).Bytes()') if False else ('kdf/hkdf.go','''	secrets := make([]byte, outputLength)
	length, err := io.ReadFull(kdf, secrets)
	if err != nil {
		return nil, err
	}
	if length != outputLength {
		return nil, err
	}

	return secrets, nil''','''	var secrets bytes.Buffer
	if _, err := io.CopyN(&secrets, kdf, int64(outputLength)); err != nil {
		return nil, err
	}

	return secrets.Bytes(), nil'''),('kdf/hkdf.go','import (','import (\n\t"bytes"'))
m('C23','chunk by strings',('fingerprint/display.go','''	return fmt.Sprintf("%05d", chunk)''','''	s := strconv.FormatInt(chunk, 10)
	return strings.Repeat("0", 5-len(s)) + s'''),('fingerprint/display.go','	"fmt"\n','	"strconv"\n	"strings"\n'))
m('C13 C15','states sorted stable',(GR,'''	for i := 0; i < len(k.senderKeyStates); i++ {
		if k.senderKeyStates[i].KeyID() == keyID {
			return k.senderKeyStates[i], nil
		}
	}

	return nil, errors''','''	if i := sort.Search(1, func(int) bool { return len(k.senderKeyStates) == 0 }); i == 0 {
		return nil, errors.New("No sender key for for ID")
	}
	for _, state := range k.senderKeyStates {
		if state.KeyID() == keyID {
			return state, nil
		}
	}

	return nil, errors'''),(GR,'import (','import (\n\t"sort"'))
m('C18 C15','keys in a map',(GS,'''	for i := 0; i < len(k.keys); i++ {
		if k.keys[i].Iteration() == iteration {
			return true
		}
	}
	return false''','''	found := map[uint32]bool{}
	for _, key := range k.keys {
		found[key.Iteration()] = true
	}
	return found[iteration]'''))
m('C03 C22','mac keyed from a buffer',(SM,'''	structure.Mac = mac
	structure.Version = messageVersion

	// Generate''','''	structure.Mac, structure.Version = mac, messageVersion

	// Generate'''))
m('C28','async with sync.Once',('ecc/curve.go','''		signature := CalculateSignature(signingKey, message)
		if signature == [64]byte{} {''','''		var signature [64]byte
		var once sync.Once
		once.Do(func() { signature = CalculateSignature(signingKey, message) })
		if signature == [64]byte{} {'''),('ecc/curve.go','import (','import (\n\t"sync"'))
m('C28','async waits',('ecc/curve.go','''		signature := CalculateSignature(signingKey, message)
		if signature == [64]byte{} {''','''		var signature [64]byte
		var wait sync.WaitGroup
		wait.Add(1)
		go func() {
			defer wait.Done()
			signature = CalculateSignature(signingKey, message)
		}()
		wait.Wait()
		if signature == [64]byte{} {'''),('ecc/curve.go','import (','import (\n\t"sync"'))

m('C33 C03','errors name the peer',(SC,'errors.New("No valid sessions.")','errors.New("No valid sessions for " + d.remoteAddress.String())'))
m('C33 C06','errors with numbers',(SC,'return nil, errors.New("Too many messages into the future!")','return nil, fmt.Errorf("message %d is too far ahead of %d in the chain of %x", counter, chainKey.Index(), theirEphemeral.Serialize())'),(SC,'import (','import (\n\t"fmt"'))
m('C33 C16','public key and message in a warning',(GC,'	if !verified {','	if !verified {\n\t\tlogger.Warning("signature of ", senderKeyMessage.Serialize(), " by ", senderKeyState.SigningKey().PublicKey().Serialize())'),(GC,'import (','import (\n\t"github.com/prospik/libsignal-protocol-go/logger"'))
m('C33 C03','wrapped error of the mac',(SC,'		logger.Error("Unable to verify ciphertext mac: ", err)\n		return nil, nil, err','		err = fmt.Errorf("message %v of %s: %w", counter, d.remoteAddress, err)\n		logger.Error("Unable to verify ciphertext mac: ", err)\n		return nil, nil, err'),(SC,'import (','import (\n\t"fmt"'))
m('C34 C33','early return',('logger/default.go','			shouldLog = true\n		}\n		if strings.Contains(caller, namespace) {\n			shouldLog = true','			return true\n		}\n		if strings.Contains(caller, namespace) {\n			return true'))
m('C34 C33','LastIndex for the file',('logger/logger.go','''	paths := strings.Split(path, "/")
	if len(paths) > 0 {
		file = paths[len(paths)-1]
	} else {
		file = "<unkn>"
	}
''','''	file = path[strings.LastIndex(path, "/")+1:]
'''))
m('C34 C33','helper with one frame more',('logger/logger.go','''	ensureLogger()
	Logger.Error(getCaller(), toString(msg...))''','''	deliver(Logger.Error, msg)'''),('logger/logger.go','''	ensureLogger()
	Logger.Warning(getCaller(), toString(msg...))''','''	deliver(Logger.Warning, msg)'''),('logger/logger.go','''	ensureLogger()
	Logger.Info(getCaller(), toString(msg...))''','''	deliver(Logger.Info, msg)'''),('logger/logger.go','''	ensureLogger()
	Logger.Debug(getCaller(), toString(msg...))''','''	deliver(Logger.Debug, msg)'''),('logger/logger.go','runtime.Caller(2)','runtime.Caller(3)'),('logger/logger.go','// ToString converts','''func init() { ensureLogger() }

func deliver(f func(string, string), msg []interface{}) {
	f(getCaller(), toString(msg...))
}

// ToString converts'''))
m('C34','sprintf and strconv',('logger/default.go','''	log.Println(
		"["+level+"]",
		t.Format(time.RFC3339),
		caller,
		"▶ ",
		msg,
	)''','''	log.Printf("[%s] %s %s ▶  %s", level, t.Format(time.RFC3339), caller, msg)'''))
m('C34','lookup set of names',('logger/default.go','''		if namespace == "all" {
			shouldLog = true
		}
		if strings.Contains(caller, namespace) {
			shouldLog = true
		}''','''		switch {
		case shouldLog:
		case namespace == "all", strings.Index(caller, namespace) >= 0:
			shouldLog = true
		}'''))
m('C35 C36 C06','find helper',(SS,'''	// Loop through our message keys and compare its index with the
	// given counter.
	for _, messageKey := range messageKeyList {
		if messageKey.Index() == counter {
			return true
		}
	}

	return false
}''','''	return position(messageKeyList, counter) >= 0
}

func position(keys []*message.Keys, counter uint32) int {
	for i := len(keys) - 1; i >= 0; i-- {
		if keys[i].Index() == counter {
			return i
		}
	}
	return -1
}'''))
m('C35 C36 C06','rebuild the list',(SS,'chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)','''kept := make([]*message.Keys, 0, len(messageKeyList)-1)
	for i, k := range messageKeyList {
		if i != rmIndex {
			kept = append(kept, k)
		}
	}
	chainKey.messageKeys = kept'''))
m('C35 C36 C04','deep session copy',(SR,'''	record.previousStates = append([]*State{}, r.previousStates...)
''','''	record.previousStates = make([]*State, len(r.previousStates))
	for i, s := range r.previousStates {
		record.previousStates[i] = s.Copy()
	}
'''))
m('C35 C36 C04','archive drops nothing but empty states',(SR,'''	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
''','''	previous := make([]*State, 0, len(r.previousStates)+1)
	previous = append(previous, r.sessionState)
	r.previousStates = append(previous, r.previousStates...)
'''))
