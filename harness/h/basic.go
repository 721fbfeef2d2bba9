// Package h holds the harnesses: ordinary Go functions that call the code under
// test with symbolic inputs and assert a property over them.
package h

import (
	"bytes"
	"crypto/aes"
	gocipher "crypto/cipher"

	"vh/sym"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
)

// C19CbcRoundTrip
//gosym:prop=C19 tier=both shard=len:57:11 shard=iv:2 reach=ok
//gosym:bound plaintexts of 0..49, 63, 64, 240, 255, 256, 1008, 4096 and 20001 bytes (quick: 0, 1, 15, 16, 17, 32, 48 and from 256), explicit or random iv, every key, iv and content; the plaintext is a prefix of a larger buffer
func C19CbcRoundTrip() {
	n := sizes(sym.Choose("len", 57), 0, 15, 16, 17, 1, 32, 48, 256, 1008, 4096, 20001, 63, 64, 240, 255)
	key := sym.Bytes("key", 32)
	var iv []byte
	k := 0
	if sym.Choose("iv", 2) == 1 {
		iv = sym.Bytes("iv", 16)
	} else {
		k = 16
	}
	buf := sym.Bytes("buf", n+20)
	keep := append([]byte{}, buf...)
	ct, err := cipher.EncryptCbc(iv, key, buf[:n])
	sym.Assert(err == nil, "encrypts")
	sym.Assert(len(ct) == k+(n/16+1)*16, "ciphertext length")
	sym.Assert(sym.EqBytes(buf, keep), "encryption leaves the caller's buffer alone")
	ct2 := append([]byte{}, ct...)
	out, err := cipher.DecryptCbc(iv, key, ct)
	sym.Assert(err == nil, "decrypts")
	sym.Assert(sym.EqBytes(out, keep[:n]), "round trip")
	sym.Assert(sym.EqBytes(ct, ct2), "decryption leaves the caller's buffer alone")
	sym.Reach("ok")
}

// sizes maps the shard numbers of the quick tier to interesting sizes: the
// given ones first, then the others.
func sizes(k int, first ...int) int {
	if k < len(first) {
		return first[k]
	}
	k -= len(first)
	for n := 0; ; n++ {
		in := false
		for _, f := range first {
			if f == n {
				in = true
			}
		}
		if in {
			continue
		}
		if k == 0 {
			return n
		}
		k--
	}
}

// C19CbcAny: any ciphertext decrypts to what encrypts to it, or is rejected.
//gosym:prop=C19 tier=both shard=len:53:11 shard=iv:2 reach=bad
//gosym:bound ciphertexts of 0..49, 255, 256 and 4096 bytes (quick: 0, 1, 15, 16, 17, 31, 32, 33 and from 255) with an explicit 16-byte iv or the iv in front
func C19CbcAny() {
	n := sizes(sym.Choose("len", 53), 0, 1, 15, 16, 17, 31, 32, 33, 255, 256, 4096)
	key := sym.Bytes("key", 32)
	var iv []byte
	if sym.Choose("iv", 2) == 1 {
		iv = sym.Bytes("iv", 16)
	}
	ct := sym.Bytes("ct", n)
	keep := append([]byte{}, ct...)
	out, err := cipher.DecryptCbc(iv, key, ct)
	sym.Assert(sym.EqBytes(ct, keep), "decryption leaves the caller's buffer alone")
	if err != nil {
		sym.Reach("bad")
		return
	}
	iv2, body := iv, keep
	if iv == nil {
		iv2, body = keep[:16], keep[16:]
	}
	again, err := cipher.EncryptCbc(iv2, key, append([]byte{}, out...))
	sym.Assert(err == nil && sym.EqBytes(again, body), "what was decrypted encrypts to the ciphertext")
}

// C19Padding: padding is removed exactly if well formed.
//gosym:prop=C19 tier=both shard=blocks:4:2 shard=cbc:2 reach=good,bad
//gosym:bound every content of 1 or 2 (thorough: 3, 4) blocks, with its padding, as encrypted by another implementation
func C19Padding() {
	n := 16 * (1 + sym.Choose("blocks", 4))
	key, iv, raw := sym.Bytes("key", 32), sym.Bytes("iv", 16), sym.Bytes("raw", n)
	ct := make([]byte, n)
	b, err := aes.NewCipher(key)
	sym.Assert(err == nil, "key")
	gocipher.NewCBCEncrypter(b, iv).CryptBlocks(ct, raw)
	var out []byte
	if sym.Choose("cbc", 2) == 1 {
		out, err = cipher.DecryptCbc(iv, key, ct)
	} else {
		out, err = cipher.Decrypt(iv, key, ct)
	}
	k, good := 0, false
	for i := 1; i <= 16; i++ {
		if sym.EqBytes(raw[n-i:], bytes.Repeat([]byte{byte(i)}, i)) {
			k, good = i, true
		}
	}
	if err != nil {
		sym.Assert(!good, "well-formed padding accepted")
		sym.Reach("bad")
		return
	}
	sym.Assert(good, "ill-formed padding rejected")
	sym.Assert(good && sym.EqBytes(out, raw[:n-k]), "padding removed")
	sym.Reach("good")
}

// C19Keys: keys of any other length are refused.
//gosym:prop=C19 tier=both shard=len:40:8 reach=ok
//gosym:bound key lengths 0..39
func C19Keys() {
	n := sizes(sym.Choose("len", 40), 0, 1, 16, 24, 31, 32, 33, 15)
	key := sym.Bytes("key", n)
	iv := sym.Bytes("iv", 16)
	good := n == 16 || n == 24 || n == 32
	_, e1 := cipher.EncryptCbc(iv, key, sym.Bytes("pt", 5))
	_, e2 := cipher.Encrypt(iv, key, sym.Bytes("pt", 5))
	sym.Assert((e1 == nil) == good && (e2 == nil) == good, "encryption needs an AES key")
	if !good {
		_, e1 = cipher.DecryptCbc(iv, key, sym.Bytes("ct", 16))
		_, e2 = cipher.Decrypt(iv, key, sym.Bytes("ct", 16))
		sym.Assert(e1 != nil && e2 != nil, "decryption needs an AES key")
	}
	sym.Reach("ok")
}

// C19Iv: so are initialization vectors of any other length.
//gosym:prop=C19 tier=both shard=len:34:6 reach=ok
//gosym:bound iv lengths 0..33 (quick: 0, 1, 15, 16, 17, 32), and none
func C19Iv() {
	n := sizes(sym.Choose("len", 34), 0, 1, 15, 16, 17, 32)
	key := sym.Bytes("key", 32)
	iv := sym.Bytes("iv", n)
	if n == 0 {
		iv = []byte{}
	}
	good := n == 16
	_, e1 := cipher.EncryptCbc(iv, key, sym.Bytes("pt", 5))
	_, e2 := cipher.Encrypt(iv, key, sym.Bytes("pt", 5))
	_, e3 := cipher.Encrypt(nil, key, sym.Bytes("pt", 5))
	sym.Assert((e1 == nil) == good && (e2 == nil) == good && e3 != nil, "encryption needs an iv of one block")
	_, e3 = cipher.Decrypt(nil, key, sym.Bytes("ct", 16))
	sym.Assert(e3 != nil, "decryption needs an iv")
	if !good {
		_, e1 = cipher.DecryptCbc(iv, key, sym.Bytes("ct", 16))
		_, e2 = cipher.Decrypt(iv, key, sym.Bytes("ct", 16))
		sym.Assert(e1 != nil && e2 != nil, "decryption needs an iv of one block")
	}
	sym.Reach("ok")
}

// C19PkcsRoundTrip
//gosym:prop=C19 tier=both shard=len:55:9 reach=ok
//gosym:bound plaintexts of 1..50, 64, 240, 255, 256 and 1008 bytes (quick: 1, 15, 16, 17, 33, 48, 64, 256, 1008), every key, iv and content
func C19PkcsRoundTrip() {
	n := 1 + sizes(sym.Choose("len", 55), 0, 14, 15, 16, 32, 47, 63, 255, 1007, 239, 254)
	sym.Assume(n <= 50 || n%16 == 0 || n == 255)
	key := sym.Bytes("key", 32)
	iv := sym.Bytes("iv", 16)
	buf := sym.Bytes("buf", n+20)
	keep := append([]byte{}, buf...)
	ct, err := cipher.Encrypt(iv, key, buf[:n])
	sym.Assert(err == nil, "encrypts")
	sym.Assert(len(ct) == (n/16+1)*16, "ciphertext length")
	sym.Assert(sym.EqBytes(buf, keep), "encryption leaves the caller's buffer alone")
	ct2 := append([]byte{}, ct...)
	out, err := cipher.Decrypt(iv, key, ct)
	sym.Assert(err == nil, "decrypts")
	sym.Assert(sym.EqBytes(out, keep[:n]), "round trip")
	sym.Assert(sym.EqBytes(ct, ct2), "decryption leaves the caller's buffer alone")
	sym.Reach("ok")
}

// C19PkcsAny
//gosym:prop=C19 tier=both shard=len:53:9 reach=bad
//gosym:bound ciphertexts of 0..52 and 128 bytes (quick: 0, 1, 15, 16, 17, 31, 32, 33 and 128)
func C19PkcsAny() {
	n := sizes(sym.Choose("len", 53), 0, 1, 15, 16, 17, 31, 32, 33, 128)
	key := sym.Bytes("key", 32)
	iv := sym.Bytes("iv", 16)
	ct := sym.Bytes("ct", n)
	keep := append([]byte{}, ct...)
	out, err := cipher.Decrypt(iv, key, ct)
	sym.Assert(sym.EqBytes(ct, keep), "decryption leaves the caller's buffer alone")
	if err != nil {
		sym.Reach("bad")
		return
	}
	if len(out) > 0 {
		again, err := cipher.Encrypt(iv, key, append([]byte{}, out...))
		sym.Assert(err == nil && sym.EqBytes(again, keep), "what was decrypted encrypts to the ciphertext")
	}
}

// C20Decode
//gosym:prop=C20 tier=both shard=len:70:8 shard=off:3:2 reach=bad
//gosym:bound any value of 0..69 bytes (quick: 0, 1, 31..34, 65, 66), offsets 0..2
func C20Decode() {
	n := sizes(sym.Choose("len", 70), 0, 1, 31, 32, 33, 34, 65, 66)
	off := sym.Choose("off", 3)
	b := sym.Bytes("b", n)
	keep := append([]byte{}, b...)
	k, err := ecc.DecodePoint(b, off)
	if n < off+33 {
		sym.Assert(err != nil, "short keys are rejected")
		sym.Reach("bad")
		return
	}
	if err != nil {
		sym.Assert(b[off] != 5, "only other type bytes are rejected")
		sym.Reach("bad")
		return
	}
	sym.Assert(b[off] == 5, "other type bytes are rejected")
	sym.Assert(sym.EqBytes(k.Serialize(), keep[off:off+33]), "serialises back")
	p := k.PublicKey()
	sym.Assert(sym.EqBytes(p[:], keep[off+1:off+33]), "key bytes")
	sym.Assert(k.Type() == ecc.DjbType, "type")
	b[off+1]++
	sym.Assert(sym.EqBytes(k.Serialize(), keep[off:off+33]), "the key does not share the caller's buffer")
	k2, err := ecc.DecodePoint(k.Serialize(), 0)
	sym.Assert(err == nil && k2.PublicKey() == p, "decodes again")
}

// C20Keys: the key containers give back what was put in.
//gosym:prop=C20 tier=both reach=ok
//gosym:bound any 32-byte public and private key
func C20Keys() {
	var a, b [32]byte
	copy(a[:], sym.Bytes("a", 32))
	copy(b[:], sym.Bytes("b", 32))
	pub, priv := ecc.NewDjbECPublicKey(a), ecc.NewDjbECPrivateKey(b)
	sym.Assert(pub.PublicKey() == a && priv.Serialize() == b && priv.PrivateKey() == b, "key bytes")
	s := pub.Serialize()
	sym.Assert(len(s) == 33 && s[0] == 5, "33 bytes of type 5")
	s[1]++
	sym.Assert(pub.PublicKey() == a, "serialising copies")
	kp := ecc.NewECKeyPair(pub, priv)
	sym.Assert(kp.PublicKey().PublicKey() == a && kp.PrivateKey().Serialize() == b, "pair")
	ik := identity.NewKey(pub)
	sym.Assert(sym.EqBytes(ik.Serialize(), pub.Serialize()) && ik.PublicKey().PublicKey() == a, "identity key")
	ik2 := identity.NewKeyFromBytes(a, 0)
	sym.Assert(sym.EqBytes(ik2.Serialize(), pub.Serialize()), "identity key from bytes")
	ip := identity.NewKeyPair(ik, priv)
	sym.Assert(ip.PublicKey().PublicKey().PublicKey() == a && ip.PrivateKey().Serialize() == b, "identity pair")
	sym.Reach("ok")
}

func clamped(p [32]byte) bool {
	return sym.And(p[0]&7 == 0, p[31]&0x80 == 0, p[31]&0x40 != 0)
}

// agrees tells whether kp's halves belong together: another pair o agrees
// with it on a secret.
func agrees(kp, o *ecc.ECKeyPair) bool {
	x := kdf.CalculateSharedSecret(kp.PublicKey().PublicKey(), o.PrivateKey().Serialize())
	y := kdf.CalculateSharedSecret(o.PublicKey().PublicKey(), kp.PrivateKey().Serialize())
	return sym.EqBytes(x[:], y[:])
}

// C21Generate: generated keys are clamped, matching, and all random.
//gosym:prop=C21 tier=both reach=ok
//gosym:bound every random string
func C21Generate() {
	a, err := ecc.GenerateKeyPair()
	sym.Assert(err == nil, "no error")
	b, err := ecc.GenerateKeyPair()
	sym.Assert(err == nil, "no error")
	p, q := a.PrivateKey().Serialize(), b.PrivateKey().Serialize()
	sym.Assert(clamped(p) && clamped(q), "clamped")
	sym.Assert(agrees(a, b), "public and private key belong together")
	for i := 1; i+16 <= 31; i++ {
		sym.Assert(!sym.EqBytes(p[i:i+16], q[i:i+16]), "different draws give different keys")
		sym.Assert(!sym.EqBytes(p[i:i+16], make([]byte, 16)), "no constant key material")
	}
	sym.Reach("ok")
}

// C21Create: CreateKeyPair clamps the given key and derives its public key.
//gosym:prop=C21 tier=both reach=ok
//gosym:bound every 32-byte private key
func C21Create() {
	x := sym.Bytes("x", 32)
	keep := append([]byte{}, x...)
	a := ecc.CreateKeyPair(x)
	sym.Assert(sym.EqBytes(x, keep), "the caller's key is left alone")
	p := a.PrivateKey().Serialize()
	w := append([]byte{}, keep...)
	w[0] &= 248
	w[31] &= 127
	w[31] |= 64
	sym.Assert(sym.EqBytes(p[:], w), "the private key is the given one, clamped")
	o, _ := ecc.GenerateKeyPair()
	sym.Assert(agrees(a, o), "public and private key belong together")
	b := ecc.CreateKeyPair(p[:])
	sym.Assert(b.PublicKey().PublicKey() == a.PublicKey().PublicKey() && b.PrivateKey().Serialize() == p, "creating again gives the same pair")
	sym.Reach("ok")
}

// C26Verify: a signature verifies for its key and message, and no other.
//gosym:prop=C26 tier=both shard=len:74:10 reach=ok
//gosym:bound every key; messages of 0..69 bytes (quick: 0, 1, 32, 33, 64, 69) and 130, 300, 1000 and 4100 bytes, any change of message, key or signature; one bit of the key is ignored
func C26Verify() {
	n := sizes(sym.Choose("len", 74), 33, 0, 1, 32, 64, 69, 130, 300, 1000, 4100)
	a, _ := ecc.GenerateKeyPair()
	o, _ := ecc.GenerateKeyPair()
	msg := sym.Bytes("msg", n)
	keep := append([]byte{}, msg...)
	s := ecc.CalculateSignature(a.PrivateKey(), msg)
	sym.Assert(sym.EqBytes(msg, keep), "signing leaves the message alone")
	sig := s
	sym.Assert(ecc.VerifySignature(a.PublicKey(), msg, s), "genuine signature verifies")
	sym.Assert(s == sig && sym.EqBytes(msg, keep), "verifying leaves its arguments alone")
	sym.Assert(ecc.VerifySignature(a.PublicKey(), msg, s), "and again")
	sym.Honest()
	dm, ds, dk := sym.AttackerBytes("dmsg", n), sym.AttackerBytes("dsig", 64), sym.AttackerBytes("dkey", 32)
	sym.Assume(dk[31]&0x80 == 0)
	m2 := xor(msg, dm)
	copy(s[:], xor(s[:], ds))
	pub := a.PublicKey().PublicKey()
	var k2 [32]byte
	copy(k2[:], xor(pub[:], dk))
	if ecc.VerifySignature(ecc.NewDjbECPublicKey(k2), m2, s) {
		sym.Assert(sym.And(zero(dm), zero(ds), zero(dk)), "altered message, signature or key rejected")
	}
	sym.Assert(!ecc.VerifySignature(o.PublicKey(), msg, sig), "another key rejects")
	sym.Assert(!ecc.VerifySignature(a.PublicKey(), append(append([]byte{}, msg...), 0), sig), "a longer message is rejected")
	sym.Reach("ok")
}

// C26Nonce: the nonce is fresh for every signature.
//gosym:prop=C26 tier=both reach=ok
//gosym:bound every key, two messages of 0, 20, 32, 64, 65 or 200 bytes, equal or not
func C26Nonce() {
	a, _ := ecc.GenerateKeyPair()
	o, _ := ecc.GenerateKeyPair()
	n := []int{20, 0, 32, 64, 65, 200}[sym.Choose("len", 6)]
	m1, m2 := sym.Bytes("m", n), sym.Bytes("m", n)
	s1 := ecc.CalculateSignature(a.PrivateKey(), m1)
	s2 := ecc.CalculateSignature(a.PrivateKey(), m2)
	s3 := ecc.CalculateSignature(o.PrivateKey(), m1)
	s4 := ecc.CalculateSignature(a.PrivateKey(), m1)
	sym.Assert(!sym.EqBytes(s1[:32], s2[:32]), "nonces of one key differ")
	sym.Assert(!sym.EqBytes(s1[:32], s4[:32]), "nonces of one message differ")
	sym.Assert(!sym.EqBytes(s1[:32], s3[:32]), "nonces of two keys differ")
	sym.Reach("ok")
}
