From 6313a3ecbbd6e57e552db2a1336f38650741a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 01/26] fix: handle prekey messages without a one-time prekey

---
 serialize/proto.go | 8 ++++++--
 session/session.go | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..fa25937 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -113,7 +113,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -145,7 +145,11 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		IdentityKey:    sm.GetIdentityKey(),
 		SignedPreKeyID: sm.GetSignedPreKeyId(),
 		Message:        sm.GetMessage(),
-		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
+	}
+
+	// The one-time prekey id is optional.
+	if sm.PreKeyId != nil {
+		preKeySignalMessage.PreKeyID = optional.NewOptionalUint32(sm.GetPreKeyId())
 	}
 
 	return &preKeySignalMessage, nil
diff --git a/session/session.go b/session/session.go
index 418b8a9..adaae49 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,8 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	hasPreKeyID := message.PreKeyID() != nil && !message.PreKeyID().IsEmpty
+	if hasPreKeyID {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -166,10 +167,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
+	if hasPreKeyID && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
-	return nil, nil
+	return optional.NewEmptyUint32(), nil
 }
 
 // ProcessBundle builds a new session from a PreKeyBundle retrieved
-- 
2.43.0


From 0a81c54a18f414d9dc406c7bbc6392a774dfd846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 02/26] fix: do not modify the session state when decryption
 fails

---
 session/cipher.go             |  6 +++++-
 state/record/state_chain.go   |  8 ++++++++
 state/record/state_session.go | 13 +++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..cc31a4b 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -200,7 +200,10 @@ func (d *Cipher) DecryptWithKey(ciphertextMessage *protocol.SignalMessage, key *
 func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *protocol.SignalMessage) ([]byte, *message.Keys, error) {
 	logger.Debug("Decrypting ciphertext with record: ", sessionRecord)
 	previousStates := sessionRecord.PreviousSessionStates()
-	sessionState := sessionRecord.SessionState()
+
+	// Decrypt with copies of the session states, so a message that turns out to
+	// be invalid leaves the states untouched.
+	sessionState := sessionRecord.SessionState().Copy()
 
 	// Try and decrypt the message with the current session state.
 	plaintext, messageKeys, err := d.DecryptWithState(sessionState, ciphertext)
@@ -211,6 +214,7 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 		logger.Warning(err)
 		for i, state := range previousStates {
 			// Try decrypting the message with previous states
+			state = state.Copy()
 			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
 			if err != nil {
 				continue
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..612a539 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -130,6 +130,14 @@ func (c *Chain) PopFirstMessageKeys() *message.Keys {
 	return removed
 }
 
+// copy returns an independent copy of the chain state.
+func (c *Chain) copy() *Chain {
+	if c == nil {
+		return nil
+	}
+	return NewChain(c.senderRatchetKeyPair, c.chainKey, append([]*message.Keys{}, c.messageKeys...))
+}
+
 // structure returns a serializeable structure of the chain state.
 func (c *Chain) structure() *ChainStructure {
 	// Alias to ArrayToSlice
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..c527ee6 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -134,6 +134,19 @@ type State struct {
 	sessionVersion       int
 }
 
+// Copy returns an independent copy of the session state. Changes made to the
+// copy do not affect the original.
+func (s *State) Copy() *State {
+	state := *s
+	state.senderChain = s.senderChain.copy()
+	state.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		state.receiverChains[i] = s.receiverChains[i].copy()
+	}
+
+	return &state
+}
+
 // SenderBaseKey returns the sender's base key in bytes.
 func (s *State) SenderBaseKey() []byte {
 	if s.senderBaseKey == nil {
-- 
2.43.0


From f8e732eaacca556c2e424478e8111ce2f9b347c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 03/26] fix: remove a promoted session state from the previous
 states

---
 session/cipher.go       | 2 +-
 state/record/session.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index cc31a4b..85acf78 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -221,7 +221,7 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.RemovePreviousState(i)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..b158895 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -126,6 +126,14 @@ func (r *Session) PreviousSessionStates() []*State {
 	return r.previousStates
 }
 
+// RemovePreviousState removes the state at the given index from the list of
+// "previous" session states.
+func (r *Session) RemovePreviousState(index int) {
+	previousStates := make([]*State, 0, len(r.previousStates)-1)
+	previousStates = append(previousStates, r.previousStates[:index]...)
+	r.previousStates = append(previousStates, r.previousStates[index+1:]...)
+}
+
 // HasSessionState will check this record to see if the sender's
 // base key exists in the current and previous states.
 func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
-- 
2.43.0


From 4492f5f66a3b8dd0ffb536b2b965dd762f2ee9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 04/26] fix: reject prekey messages that name an unknown signed
 prekey

---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index adaae49..74f7dfd 100644
--- a/session/session.go
+++ b/session/session.go
@@ -20,6 +20,7 @@ import (
 const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
 const invalidSignatureError string = "Invalid signature on device key!"
+const nilSignedPreKeyError string = "Signed prekey store returned a nil signed prekey! Was it removed?"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 
 // NewBuilder constructs a session builder.
@@ -120,6 +121,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		logger.Error(nilSignedPreKeyError)
+		return nil, errors.New(nilSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From 6dcc01731ec297c2634076bf3225293a31ca46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 05/26] fix: do not modify the session record when a prekey
 message is rejected

---
 session/cipher.go       | 5 +++--
 state/record/session.go | 9 +++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 85acf78..d8ee4c3 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -165,8 +165,9 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
-	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// Load or create session record for this session. Work on a copy, so a
+	// message that turns out to be invalid leaves the record untouched.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
diff --git a/state/record/session.go b/state/record/session.go
index b158895..0a31a55 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -108,6 +108,15 @@ func (r *Session) SetState(sessionState *State) {
 	r.sessionState = sessionState
 }
 
+// Copy returns a copy of the session record. Changes made to the copy do not
+// affect the original.
+func (r *Session) Copy() *Session {
+	record := *r
+	record.sessionState = r.sessionState.Copy()
+	record.previousStates = append([]*State{}, r.previousStates...)
+	return &record
+}
+
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-- 
2.43.0


From c8df6c3c9aff1a10bfee41ccf5d813e5c72de01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 06/26] fix: do not let the previous counter of an unused chain
 wrap around

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index d8ee4c3..d3808d8 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -344,7 +344,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From 7b83c87cabb9fa9ca5af24a45528ff8d941b41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 07/26] fix: reject ciphertexts that are not correctly padded
 blocks

---
 cipher/cbc.go    | 14 ++++++++++++++
 cipher/cipher.go |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..8a3b5a4 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,6 +42,10 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(ciphertext, ciphertext)
 
@@ -97,5 +101,15 @@ func unpad(src []byte) ([]byte, error) {
 		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
 	}
 
+	if padLen == 0 || padLen > aes.BlockSize {
+		return nil, fmt.Errorf("invalid padding length: %d / %d", padLen, aes.BlockSize)
+	}
+
+	for _, b := range src[length-padLen:] {
+		if int(b) != padLen {
+			return nil, fmt.Errorf("invalid padding")
+		}
+	}
+
 	return src[:(length - padLen)], nil
 }
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..743ca2f 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,6 +18,9 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	cbc.CryptBlocks(ciphertext, ciphertext)
 
@@ -93,7 +96,7 @@ func pkcs7Unpad(b []byte, blocksize int) ([]byte, error) {
 	}
 	c := b[len(b)-1]
 	n := int(c)
-	if n == 0 || n > len(b) {
+	if n == 0 || n > len(b) || n > blocksize {
 		return nil, ErrInvalidPKCS7Padding
 	}
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 40cca1e862af422d1a2d1be5084d7f3e260900b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 08/26] fix: do not modify the caller's buffers when encrypting
 or decrypting

---
 cipher/cbc.go    | 9 ++++++---
 cipher/cipher.go | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 8a3b5a4..6111ee4 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -47,9 +47,10 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 	}
 
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	plaintext := make([]byte, len(ciphertext))
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -90,7 +91,9 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	padded := make([]byte, 0, len(ciphertext)+padding)
+	padded = append(padded, ciphertext...)
+	return append(padded, padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
diff --git a/cipher/cipher.go b/cipher/cipher.go
index 743ca2f..8afd61b 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -22,9 +22,10 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 		return nil, errors.New("ciphertext is not a multiple of the block size")
 	}
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	paddedText := make([]byte, len(ciphertext))
+	cbc.CryptBlocks(paddedText, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(paddedText, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 78e5edd387b85fda86ead8345e180d70e859a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 09/26] fix: reject public keys that are too short

---
 ecc/curve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..86dae58 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -18,6 +18,9 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if offset < 0 || len(bytes)-offset < 33 {
+		return nil, errors.New("Bad key length")
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
-- 
2.43.0


From 8276c022ac6e752f49b13165e8063a8a659eb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 10/26] fix: reject malformed provisioning messages instead of
 panicking

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..81d9692 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("Provisioning message is too short: %d bytes", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From a306b497b89774b3bc6b7ba65fac834f617229ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 11/26] fix: generate as many prekeys as asked for

---
 util/keyhelper/key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..4fd7779 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -47,7 +47,7 @@ func GenerateIdentityKeyPairAsync(completion complete.Completionable) {
 func GeneratePreKeys(start int, count int, serializer record.PreKeySerializer) ([]*record.PreKey, error) {
 	var preKeys []*record.PreKey
 
-	for i := start; i <= count; i++ {
+	for i := start; i < start+count; i++ {
 		key, err := ecc.GenerateKeyPair()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 9c4e037406cd581ed3d8a2f2de72fad42fbc64bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 12/26] fix: give the last-resort prekey the last-resort id

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 4fd7779..b4cd5fc 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From fce69155d0d70ef0868c87088bf1e1d70e37dfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 13/26] fix: compare whole base keys to choose the roles of a
 symmetric session

---
 ratchet/ratchet.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..90971d1 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -187,11 +187,8 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 }
 
 // isSender is a private method for determining if a symmetric session should
-// be calculated as the sender or receiver. It does so by converting the given
-// keys into integers and comparing the size of those integers.
+// be calculated as the sender or receiver. It does so by comparing the given
+// keys as big endian integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From aa2d59f013632e11a53d13e89e989f3ab7c78c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 14/26] fix: encode the version of a protobuf message where it
 is decoded from

---
 serialize/proto.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index fa25937..8ace08e 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,9 +1,6 @@
 package serialize
 
 import (
-	"fmt"
-	"strconv"
-
 	proto "github.com/golang/protobuf/proto"
 
 	"github.com/prospik/libsignal-protocol-go/logger"
@@ -39,6 +36,12 @@ func intsToByteHighAndLow(highValue, lowValue int) byte {
 	return byte((highValue<<4 | lowValue) & 0xFF)
 }
 
+// versionByte returns the first byte of a message, which has the version of the
+// message in its high bits and the version of the protocol in its low bits.
+func versionByte(version int) byte {
+	return intsToByteHighAndLow(version, protocol.CurrentVersion)
+}
+
 // ProtoBufSignalMessageSerializer is a structure for serializing signal messages into
 // and from ProtoBuf.
 type ProtoBufSignalMessageSerializer struct{}
@@ -58,7 +61,7 @@ func (j *ProtoBufSignalMessageSerializer) Serialize(signalMessage *protocol.Sign
 	}
 
 	if signalMessage.Version != 0 {
-		serialized = append(serialized, []byte(strconv.Itoa(signalMessage.Version))...)
+		serialized = append(serialized, versionByte(signalMessage.Version))
 	}
 	serialized = append(serialized, message...)
 
@@ -122,7 +125,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		logger.Error("Error serializing prekey signal message: ", err)
 	}
 
-	serialized := append([]byte(strconv.Itoa(signalMessage.Version)), message...)
+	serialized := append([]byte{versionByte(signalMessage.Version)}, message...)
 	logger.Debug("Serialize PreKeySignalMessage result: ", serialized)
 	return serialized
 }
@@ -173,8 +176,7 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 		logger.Error("Error serializing senderkey distribution message: ", err)
 	}
 
-	version := strconv.Itoa(int(message.Version))
-	serialized = append([]byte(version), serialized...)
+	serialized = append([]byte{versionByte(int(message.Version))}, serialized...)
 	logger.Debug("Serialize result: ", serialized)
 	return serialized
 }
@@ -221,7 +223,7 @@ func (j *ProtoBufSenderKeyMessageSerializer) Serialize(message *protocol.SenderK
 	}
 
 	if message.Version != 0 {
-		serialized = append([]byte(fmt.Sprint(message.Version)), m...)
+		serialized = append([]byte{versionByte(int(message.Version))}, m...)
 	}
 
 	if message.Signature != nil {
-- 
2.43.0


From 8a57564bcd151524811bf22439fd3ce967d16586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 15/26] fix: reject empty prekey and distribution messages

---
 serialize/proto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index 8ace08e..f144102 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,8 @@
 package serialize
 
 import (
+	"errors"
+
 	proto "github.com/golang/protobuf/proto"
 
 	"github.com/prospik/libsignal-protocol-go/logger"
@@ -132,6 +134,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty prekey signal message.")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -184,6 +189,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty senderkey distribution message.")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From 65f31a287b46b86dbb554647b339b347faaa006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 16/26] fix: decode the public keys of prekey records

---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 286e5735b525c1bee9c9d0eac50895db850a166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 17/26] fix: reject stored records with missing parts

---
 groups/state/record/sender_key.go       | 4 ++++
 groups/state/record/state_sender_key.go | 9 +++++++++
 state/record/session.go                 | 5 +++++
 state/record/state_chain.go             | 9 +++++++++
 state/record/state_session.go           | 6 ++++++
 5 files changed, 33 insertions(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..a81b28d 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -31,6 +31,10 @@ func NewSenderKeyFromBytes(serialized []byte, serializer SenderKeySerializer,
 func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeySerializer,
 	stateSerializer SenderKeyStateSerializer) (*SenderKey, error) {
 
+	if structure == nil {
+		return nil, errors.New("Sender key structure is missing.")
+	}
+
 	// Build our sender key states from structure.
 	senderKeyStates := make([]*SenderKeyState, len(structure.SenderKeyStates))
 	for i := range structure.SenderKeyStates {
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..2878b69 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
@@ -62,6 +64,10 @@ func NewSenderKeyStateFromPublicKey(keyID uint32, iteration uint32, chainKey []b
 func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	serializer SenderKeyStateSerializer) (*SenderKeyState, error) {
 
+	if structure == nil || structure.SenderChainKey == nil {
+		return nil, errors.New("Sender key state structure is incomplete.")
+	}
+
 	// Convert our ecc keys from bytes into object form.
 	signingKeyPublic, err := ecc.DecodePoint(structure.SigningKeyPublic, 0)
 	if err != nil {
@@ -72,6 +78,9 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
 	for i := range structure.Keys {
+		if structure.Keys[i] == nil {
+			return nil, errors.New("Sender message key is missing.")
+		}
 		senderMessageKeys[i] = ratchet.NewSenderMessageKeyFromStruct(structure.Keys[i])
 	}
 
diff --git a/state/record/session.go b/state/record/session.go
index 0a31a55..35c3b3b 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -2,6 +2,7 @@ package record
 
 import (
 	"bytes"
+	"errors"
 )
 
 // archivedStatesMaxLength describes how many previous session
@@ -46,6 +47,10 @@ func NewSession(serializer SessionSerializer, stateSerializer StateSerializer) *
 func NewSessionFromStructure(structure *SessionStructure, serializer SessionSerializer,
 	stateSerializer StateSerializer) (*Session, error) {
 
+	if structure == nil {
+		return nil, errors.New("Session structure is missing.")
+	}
+
 	// Build our previous states from structure.
 	previousStates := make([]*State, len(structure.PreviousStates))
 	for i := range structure.PreviousStates {
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index 612a539..4bd676d 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -36,6 +38,10 @@ func NewChain(senderRatchetKeyPair *ecc.ECKeyPair, chainKey *chain.Key,
 // NewChainFromStructure will return a new Chain with the given
 // chain structure.
 func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
+	if structure == nil || structure.ChainKey == nil {
+		return nil, errors.New("Chain structure is incomplete.")
+	}
+
 	// Alias to SliceToArray
 	getArray := bytehelper.SliceToArray
 
@@ -53,6 +59,9 @@ func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
 	// Build our message keys from the message key structures.
 	messageKeys := make([]*message.Keys, len(structure.MessageKeys))
 	for i := range structure.MessageKeys {
+		if structure.MessageKeys[i] == nil {
+			return nil, errors.New("Message keys are missing.")
+		}
 		messageKeys[i] = message.NewKeysFromStruct(structure.MessageKeys[i])
 	}
 
diff --git a/state/record/state_session.go b/state/record/state_session.go
index c527ee6..48f42b0 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -44,6 +46,10 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
+	if structure == nil {
+		return nil, errors.New("Session state structure is missing.")
+	}
+
 	// Keep a list of errors, so they can be handled once.
 	errors := errorhelper.NewMultiError()
 
-- 
2.43.0


From a3a606b9b687380fa22c062a97fbeb19512b210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 18/26] fix: keep the state serializer of a loaded sender key
 record

---
 groups/state/record/sender_key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index a81b28d..6096fd1 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -49,6 +49,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
-- 
2.43.0


From 02de97adeb98cd658cce3b61a5ae2e7902f8f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 19/26] fix: do not invent a private signing key when loading a
 sender key

---
 groups/state/record/state_sender_key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 2878b69..b27af38 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -73,7 +73,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) == 32 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 70e3ced4a8807553c75312a85e5e47faaf118306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 20/26] fix: report a missing sender key record instead of
 panicking

---
 groups/cipher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..f7495e7 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,6 +37,9 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
@@ -73,7 +76,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From 0b02884de7c1f111d32e5ba4e94ff034a77f08da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 21/26] fix: refuse to encrypt with the sender key of another
 member

---
 groups/cipher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/groups/cipher.go b/groups/cipher.go
index f7495e7..0991f86 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -45,6 +45,11 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 		return nil, err
 	}
 
+	// Only the owner of the sender key can sign messages.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
-- 
2.43.0


From 093882453c700ae57043551fe7c295656984ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 22/26] fix: do not modify the sender key state when decryption
 fails

---
 groups/cipher.go                        | 6 +++++-
 groups/state/record/state_sender_key.go | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index 0991f86..6cc41ad 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -97,7 +97,10 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, errors.New("Sender Key State failed verification with given pub key!")
 	}
 
-	senderKey, err := c.getSenderKey(senderKeyState, senderKeyMessage.Iteration())
+	// Work on a copy of the state, so that a message that does not decrypt
+	// has no effect.
+	newState := senderKeyState.Copy()
+	senderKey, err := c.getSenderKey(newState, senderKeyMessage.Iteration())
 	if err != nil {
 		return nil, err
 	}
@@ -109,6 +112,7 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 	}
 
 	// Store the sender key by id.
+	*senderKeyState = *newState
 	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
 
 	return plaintext, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index b27af38..3408100 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -117,6 +117,15 @@ type SenderKeyState struct {
 	serializer     SenderKeyStateSerializer
 }
 
+// Copy returns an independent copy of the state. Changes made to the copy do
+// not affect the original.
+func (k *SenderKeyState) Copy() *SenderKeyState {
+	state := *k
+	state.keys = append([]*ratchet.SenderMessageKey{}, k.keys...)
+
+	return &state
+}
+
 // SigningKey returns the signing key pair of the sender key state.
 func (k *SenderKeyState) SigningKey() *ecc.ECKeyPair {
 	return k.signingKeyPair
-- 
2.43.0


From 78958323a58b8808dcd7342593f3dfb3c8206b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 23/26] fix: report an initialization vector of the wrong
 length instead of panicking

---
 cipher/cbc.go    | 8 ++++++++
 cipher/cipher.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6111ee4..5cd245c 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,6 +42,10 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("initialization vector is not one block: %d / %d", len(iv), aes.BlockSize)
+	}
+
 	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
 		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
 	}
@@ -68,6 +72,10 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if iv != nil && len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("initialization vector is not one block: %d / %d", len(iv), aes.BlockSize)
+	}
+
 	var ciphertext []byte
 	if iv == nil {
 		ciphertext = make([]byte, aes.BlockSize+len(plaintext))
diff --git a/cipher/cipher.go b/cipher/cipher.go
index 8afd61b..99e9b54 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -21,6 +21,9 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext)%aes.BlockSize != 0 {
 		return nil, errors.New("ciphertext is not a multiple of the block size")
 	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("initialization vector is not one block")
+	}
 	cbc := cipher.NewCBCDecrypter(block, iv)
 	paddedText := make([]byte, len(ciphertext))
 	cbc.CryptBlocks(paddedText, ciphertext)
@@ -44,6 +47,9 @@ func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("initialization vector is not one block")
+	}
 	ciphertext := make([]byte, len(paddedText))
 	mode := cipher.NewCBCEncrypter(block, iv)
 	mode.CryptBlocks(ciphertext, paddedText)
-- 
2.43.0


From 51f8f0c034a263707e08b05677c7f83ba0461fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:30 +0000
Subject: [PATCH 24/26] fix: report what a session state does not hold instead
 of panicking or dropping another message key

---
 state/record/state_session.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/state/record/state_session.go b/state/record/state_session.go
index 48f42b0..eacaf5b 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -267,11 +267,10 @@ func (s *State) receiverChain(senderEphemeral ecc.ECPublicKeyable) *ReceiverChai
 // chain key.
 func (s *State) ReceiverChainKey(senderEphemeral ecc.ECPublicKeyable) *chain.Key {
 	receiverChainAndIndex := s.receiverChain(senderEphemeral)
-	receiverChain := receiverChainAndIndex.ReceiverChain
-
-	if receiverChainAndIndex == nil || receiverChain == nil {
+	if receiverChainAndIndex == nil {
 		return nil
 	}
+	receiverChain := receiverChainAndIndex.ReceiverChain
 
 	return chain.NewKey(
 		kdf.DeriveSecrets,
@@ -329,12 +328,12 @@ func (s *State) SetSenderChainKey(nextChainKey session.ChainKeyable) {
 func (s *State) HasMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) bool {
 	// Get our chain state that has our chain key.
 	chainAndIndex := s.receiverChain(senderEphemeral)
-	receiverChain := chainAndIndex.ReceiverChain
 
-	// If the chain is empty, we don't have any message keys.
-	if receiverChain == nil {
+	// If there is no chain, we don't have any message keys.
+	if chainAndIndex == nil {
 		return false
 	}
+	receiverChain := chainAndIndex.ReceiverChain
 
 	// Get our message keys from our receiver chain.
 	messageKeyList := receiverChain.MessageKeys()
@@ -355,19 +354,19 @@ func (s *State) HasMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint
 func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter uint32) *message.Keys {
 	// Get our chain state that has our chain key.
 	chainAndIndex := s.receiverChain(senderEphemeral)
-	chainKey := chainAndIndex.ReceiverChain
 
-	// If the chain is empty, we don't have any message keys.
-	if chainKey == nil {
+	// If there is no chain, we don't have any message keys.
+	if chainAndIndex == nil {
 		return nil
 	}
+	chainKey := chainAndIndex.ReceiverChain
 
 	// Get our message keys from our receiver chain.
 	messageKeyList := chainKey.MessageKeys()
 
 	// Loop through our message keys and compare its index with the
 	// given counter. When we find a match, remove it from our list.
-	var rmIndex int
+	rmIndex := -1
 	for i, messageKey := range messageKeyList {
 		if messageKey.Index() == counter {
 			rmIndex = i
@@ -375,6 +374,11 @@ func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter u
 		}
 	}
 
+	// There is nothing to remove if no key has the given counter.
+	if rmIndex < 0 {
+		return nil
+	}
+
 	// Retrive the message key
 	messageKey := chainKey.messageKeys[rmIndex]
 
@@ -393,6 +397,9 @@ func (s *State) RemoveMessageKeys(senderEphemeral ecc.ECPublicKeyable, counter u
 // the given message keys.
 func (s *State) SetMessageKeys(senderEphemeral ecc.ECPublicKeyable, messageKeys *message.Keys) {
 	chainAndIndex := s.receiverChain(senderEphemeral)
+	if chainAndIndex == nil {
+		return
+	}
 	chainState := chainAndIndex.ReceiverChain
 
 	// Add the message keys to our chain state.
@@ -414,6 +421,9 @@ func (s *State) SetMessageKeys(senderEphemeral ecc.ECPublicKeyable, messageKeys
 // associated with the given senderEphemeral key.
 func (s *State) SetReceiverChainKey(senderEphemeral ecc.ECPublicKeyable, chainKey session.ChainKeyable) {
 	chainAndIndex := s.receiverChain(senderEphemeral)
+	if chainAndIndex == nil {
+		return
+	}
 	chainState := chainAndIndex.ReceiverChain
 	chainState.SetChainKey(chainKey.(*chain.Key))
 }
@@ -477,6 +487,9 @@ func (s *State) HasUnacknowledgedPreKeyMessage() bool {
 
 // UnackPreKeyMessageItems will return the session's unacknowledged pre key messages.
 func (s *State) UnackPreKeyMessageItems() (*UnackPreKeyMessageItems, error) {
+	if s.pendingPreKey == nil {
+		return nil, errors.New("No unacknowledged prekey message.")
+	}
 	preKeyID := s.pendingPreKey.preKeyID
 	signedPreKeyID := s.pendingPreKey.signedPreKeyID
 	baseKey, err := ecc.DecodePoint(s.pendingPreKey.baseKey.Serialize(), 0)
-- 
2.43.0


From 3d23000a440de5665ae97128a0e99ef8e27c90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:32 +0000
Subject: [PATCH 25/26] fix: return an error instead of panicking when
 encrypting without a session

---
 session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index d3808d8..fc2f923 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
-- 
2.43.0


From 7d84b78379930395f1865a1ddc57fc7fd3e72dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:35 +0000
Subject: [PATCH 26/26] fix: save and load session records whose current
 session has been archived

---
 state/record/state_session.go | 47 +++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/state/record/state_session.go b/state/record/state_session.go
index eacaf5b..d60beb1 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -50,6 +50,20 @@ func NewStateFromStructure(structure *StateStructure, serializer StateSerializer
 		return nil, errors.New("Session state structure is missing.")
 	}
 
+	// A state without a session, such as the current one of an archived
+	// session, has no keys.
+	if structure.isEmpty() {
+		return &State{
+			localRegistrationID:  structure.LocalRegistrationID,
+			needsRefresh:         structure.NeedsRefresh,
+			pendingKeyExchange:   NewPendingKeyExchangeFromStruct(structure.PendingKeyExchange),
+			previousCounter:      structure.PreviousCounter,
+			remoteRegistrationID: structure.RemoteRegistrationID,
+			serializer:           serializer,
+			sessionVersion:       structure.SessionVersion,
+		}, nil
+	}
+
 	// Keep a list of errors, so they can be handled once.
 	errors := errorhelper.NewMultiError()
 
@@ -119,6 +133,13 @@ type StateStructure struct {
 	SessionVersion       int
 }
 
+// isEmpty returns true if there is no session in the structure.
+func (s *StateStructure) isEmpty() bool {
+	return len(s.LocalIdentityPublic) == 0 && len(s.RemoteIdentityPublic) == 0 &&
+		len(s.SenderBaseKey) == 0 && len(s.RootKey) == 0 && s.PendingPreKey == nil &&
+		s.SenderChain == nil && len(s.ReceiverChains) == 0
+}
+
 // State is a session state that contains the structure for
 // all sessions. Session states are contained inside session records.
 // The session state is implemented as a struct rather than protobuffers
@@ -544,20 +565,32 @@ func (s *State) structure() *StateStructure {
 		pendingKeyExchange = s.pendingKeyExchange.structure()
 	}
 
-	// Build and return our state structure.
-	return &StateStructure{
-		LocalIdentityPublic:  s.localIdentityPublic.Serialize(),
+	// Build our state structure.
+	structure := &StateStructure{
 		LocalRegistrationID:  s.localRegistrationID,
 		NeedsRefresh:         s.needsRefresh,
 		PendingKeyExchange:   pendingKeyExchange,
 		PendingPreKey:        s.pendingPreKey.structure(),
 		PreviousCounter:      s.previousCounter,
 		ReceiverChains:       receiverChains,
-		RemoteIdentityPublic: s.remoteIdentityPublic.Serialize(),
 		RemoteRegistrationID: s.remoteRegistrationID,
-		RootKey:              s.rootKey.Bytes(),
-		SenderBaseKey:        s.senderBaseKey.Serialize(),
-		SenderChain:          s.senderChain.structure(),
+		SenderBaseKey:        s.SenderBaseKey(),
 		SessionVersion:       s.sessionVersion,
 	}
+
+	// A state without a session has no keys.
+	if s.localIdentityPublic != nil {
+		structure.LocalIdentityPublic = s.localIdentityPublic.Serialize()
+	}
+	if s.remoteIdentityPublic != nil {
+		structure.RemoteIdentityPublic = s.remoteIdentityPublic.Serialize()
+	}
+	if s.rootKey != nil {
+		structure.RootKey = s.rootKey.Bytes()
+	}
+	if s.senderChain != nil {
+		structure.SenderChain = s.senderChain.structure()
+	}
+
+	return structure
 }
-- 
2.43.0

