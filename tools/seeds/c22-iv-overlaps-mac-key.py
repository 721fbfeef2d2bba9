prop='C22'
needs='a peer that uses another implementation of the protocol'
breaks='the IV is taken from the second half of the MAC key instead of the last 16 derived bytes; both ends agree, so only other implementations notice'
edits=[('keys/chain/key.go','''	iv := keyMaterialBytes[64:80]''','''	iv := keyMaterialBytes[48:64]''')]
main='''
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"io"

	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"golang.org/x/crypto/hkdf"
)

func main() {
	ck := make([]byte, 32)
	for i := range ck {
		ck[i] = byte(i)
	}
	m := hmac.New(sha256.New, ck)
	m.Write([]byte{1})
	want := make([]byte, 80)
	io.ReadFull(hkdf.New(sha256.New, m.Sum(nil), nil, []byte("WhisperMessageKeys")), want)
	k := chain.NewKey(kdf.DeriveSecrets, ck, 0).MessageKeys()
	check(bytes.Equal(k.CipherKey(), want[:32]), "cipher key")
	check(bytes.Equal(k.MacKey(), want[32:64]), "MAC key")
	check(bytes.Equal(k.Iv(), want[64:]), "IV")
}
'''
