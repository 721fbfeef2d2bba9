prop='C25'
needs='an envelope whose last bytes are altered'
breaks='only the first eight bytes of the authentication code of a provisioning envelope are checked'
edits=[('provision/cipher.go', '\treturn hmac.Equal(m.Sum(nil), mac)', '\treturn hmac.Equal(m.Sum(nil)[:8], mac[:8])')]
main='''
package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/provision"
)

func main() {
	dev, _ := ecc.GenerateKeyPair()
	eph, _ := ecc.GenerateKeyPair()
	s := kdf.CalculateSharedSecret(dev.PublicKey().PublicKey(), eph.PrivateKey().Serialize())
	keys, _ := kdf.DeriveSecrets(s[:], nil, []byte("Mixin Provisioning Message"), 64)
	iv := make([]byte, 16)
	ct, _ := cipher.EncryptCbc(iv, keys[:32], []byte("message"))
	body := append(append([]byte{1}, iv...), ct...)
	h := hmac.New(sha256.New, keys[32:])
	h.Write(body)
	body = h.Sum(body)
	priv := dev.PrivateKey().Serialize()
	open := func() (string, error) {
		e, _ := json.Marshal(provision.ProvisionEnvelope{PublicKey: eph.PublicKey().Serialize(), Body: body})
		return provision.Decrypt(base64.StdEncoding.EncodeToString(priv[:]), base64.StdEncoding.EncodeToString(e))
	}
	t, err := open()
	check(err == nil && t == "message", "envelope: %q %v", t, err)
	for i := range body {
		body[i] ^= 1
		t, err := open()
		check(err != nil, "envelope altered at %d accepted: %q", i, t)
		body[i] ^= 1
	}
}
'''
