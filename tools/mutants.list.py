SC='session/cipher.go'; SS='state/record/state_session.go'; SB='session/session.go'; SR='state/record/session.go'
CH='state/record/state_chain.go'; GC='groups/cipher.go'; GB='groups/session_builder.go'; GS='groups/state/record/state_sender_key.go'; GR='groups/state/record/sender_key.go'
PM='protocol/prekey_signal_message.go'; SM='protocol/signal_message.go'; KM='protocol/sender_key_message.go'; DM='protocol/sender_key_distribution_message.go'
PB='serialize/proto.go'; CB='cipher/cbc.go'; CI='cipher/cipher.go'; BH='util/bytehelper/byte.go'; KH='util/keyhelper/key.go'
# C01
m('C01','remote registration id from bundle lost after first',(SB,'''	sessionState.SetRemoteRegistrationID(message.RegistrationID())''','''	if sessionState.RemoteRegistrationID() != 0 {
		sessionState.SetRemoteRegistrationID(message.RegistrationID())
	}'''))
m('C01','opk skipped by sender when id equals signed id',(SB,'''	parameters.SetTheirOneTimePreKey(theirOneTimePreKey)
''','''	if theirOneTimePreKeyID == nil || theirOneTimePreKeyID.Value != preKey.SignedPreKeyID() {
		parameters.SetTheirOneTimePreKey(theirOneTimePreKey)
	}
'''))
m('C01','DH order by key comparison',('ratchet/ratchet.go','''	if parameters.OurOneTimePreKey() != nil {''','''	if parameters.OurOneTimePreKey() != nil && parameters.OurOneTimePreKey().PublicKey().PublicKey()[31] < 0x7f {'''))
# C02
m('C02','previous states tried skip last',(SC,'for i, state := range previousStates {','for i, state := range previousStates[:(len(previousStates)+1)*4/5] {'))
m('C02','stored key not usable at counter zero',(SS,'''		if messageKey.Index() == counter {
			return true''','''		if messageKey.Index() == counter && (counter > 0 || len(messageKeyList) < 3) {
			return true'''))
m('C02','skip keys up to but one',(SC,'''		sessionState.SetMessageKeys(theirEphemeral, messageKeys)
''','''		if counter-chainKey.Index() != 3 {
			sessionState.SetMessageKeys(theirEphemeral, messageKeys)
		}
'''))
m('C02','chain lookup compares newest only when many',(SS,'''	for i, receiverChain := range receiverChains {
''','''	for i, receiverChain := range receiverChains {
		if len(receiverChains) == maxReceiverChains && i == 0 {
			continue
		}
'''))
m('C02','promote without removing',(SR,'''	r.previousStates = append(previousStates, r.previousStates[index+1:]...)''','''	if index+2 < len(r.previousStates) {
		index++
	}
	r.previousStates = append(previousStates, r.previousStates[index+1:]...)'''))
# C03
m('C22','mac without identity of receiver',(SM,'''		mac.Write(receiverIdentityKey.PublicKey().Serialize())
''','''		mac.Write(senderIdentityKey.PublicKey().Serialize())
'''))
m('C03','mac compares only their length',(SM,'''	if !hmac.Equal(ourMac, theirMac) {''','''	if len(theirMac) > len(ourMac) || !hmac.Equal(ourMac[:len(theirMac)], theirMac) {'''))
m('C03','mac skipped for skipped keys',(SC,'''	if err != nil {
		logger.Error("Unable to verify ciphertext mac: ", err)''','''	if err != nil && sessionState.ReceiverChainKey(theirEphemeral).Index() == counter+1 {
		logger.Error("Unable to verify ciphertext mac: ", err)'''))
# C04
m('C04','removed key index zero stays',(SS,'''	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)''','''	if len(chainKey.messageKeys) > 1 {
		chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
	}'''))
m('C04','promoted state keeps the archived copy',(SC,'''			sessionRecord.RemovePreviousState(i)
''','''			if i < len(previousStates)-1 {
				sessionRecord.RemovePreviousState(i)
			}
'''))
# C05
m('C05','save identity before verification',(SB,'''	theirIdentityKey := message.IdentityKey()
	if''','''	theirIdentityKey := message.IdentityKey()
	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
	if'''))
m('C05','decrypt error after store',(SC,'''	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
''','''	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		sessionRecord.SessionState().ClearUnackPreKeyMessage()
		d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
'''))
# C06
m('C06','limit off by one',(SC,'if counter-chainKey.Index() > maxFutureMessages {','if counter-chainKey.Index() >= maxFutureMessages {'))
m('C06','limit by absolute counter',(SC,'if counter-chainKey.Index() > maxFutureMessages {','if counter-chainKey.Index() > maxFutureMessages+chainKey.Index()/4 {'))
m('C06','pop only when exactly above',(SS,'''	if len(chainState.MessageKeys()) > maxMessageKeys {
''','''	if len(chainState.MessageKeys()) > maxMessageKeys && messageKeys.Index()%2 == 1 {
'''))
m('C06','archived removes newest',(SR,'return states[:len(states)-1]','return append(states[:1:1], states[2:]...)'))
m('C06','archive limit not on promote',(SR,'if len(r.previousStates) > archivedStatesMaxLength {','if len(r.previousStates) > archivedStatesMaxLength+1 {'))
# C07
m('C07','previous counter of fresh chain',(SC,'previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1','previousCounter := sessionState.SenderChainKey().Index()'))
m('C07','message key index from next',('keys/chain/key.go','''return NewKey(c.kdf, nextKey, c.index+1)''','''return NewKey(c.kdf, nextKey, c.index+1+c.index/1000)'''))
# C08
m('C08','bundle trust checked only without session',(SB,'''	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey())) {''','''	if !b.sessionStore.ContainsSession(b.remoteAddress) && !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey())) {'''))
m('C08','trust skipped when session has identity',(SB,'''	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {''','''	known := sessionRecord.HasSessionState(message.MessageVersion(), message.BaseKey().Serialize())
	if !known && !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {'''))
m('C08','missing one-time prekey ignored',(SB,'''		if oneTimePreKey == nil {
			logger.Error(nilOneTimePreKeyError)
			return nil, errors.New(nilOneTimePreKeyError)
		}
		parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())''','''		if oneTimePreKey == nil && message.PreKeyID().Value != medium.MaxValue {
			logger.Error(nilOneTimePreKeyError)
			return nil, errors.New(nilOneTimePreKeyError)
		}
		if oneTimePreKey != nil {
			parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())
		}'''))
m('C08','identity saved before signature',(SB,'''	// Check to see if the bundle has a signed pre key.
''','''	b.identityKeyStore.SaveIdentity(b.remoteAddress, preKey.IdentityKey())
	// Check to see if the bundle has a signed pre key.
'''))
# C09
m('C09','last resort comparison',(SB,'message.PreKeyID().Value != medium.MaxValue','message.PreKeyID().Value <= medium.MaxValue'))
m('C09','prekey id zero kept',(SB,'message.PreKeyID().Value != medium.MaxValue','message.PreKeyID().Value-1 < medium.MaxValue-1'))
m('C09','prekey id above medium kept',(SB,'message.PreKeyID().Value != medium.MaxValue','message.PreKeyID().Value < medium.MaxValue'))
m('C09','remove signed id',(SC,'d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)','d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value & 0xffffff)'))
# C10
m('C10','pending prekey dropped when id empty',('state/record/state_pending_prekey.go','''	if p != nil {
''','''	if p != nil && (p.preKeyID == nil || !p.preKeyID.IsEmpty) {
'''))
# C11
m('C11','prekey id zero not encoded',(PB,'''	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {''','''	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty && signalMessage.PreKeyID.Value != 0 {'''))
m('C11','version lost in sender key',(PB,'''		serialized = append([]byte{versionByte(int(message.Version))}, m...)''','''		serialized = append([]byte{versionByte(protocol.CurrentVersion)}, m...)'''))
m('C11','structure accessor drops previous counter',(SM,'''	structure := s.structure
	return &structure''','''	structure := s.structure
	if structure.PreviousCounter > structure.Counter {
		structure.PreviousCounter = structure.Counter
	}
	return &structure'''))
# C12
m('C12','point length check',('ecc/curve.go','len(bytes)-offset < 33','len(bytes)-offset < 1'))
# C13
m('C13','previous states reversed',(SR,'previousStates[i], err = NewStateFromStructure(structure.PreviousStates[i], stateSerializer)','previousStates[len(previousStates)-1-i], err = NewStateFromStructure(structure.PreviousStates[i], stateSerializer)'))
m('C13','prev counter saved from index',(SS,'		PreviousCounter:      s.previousCounter,','		PreviousCounter:      s.previousCounter & 0xffff,'))
m('C13','needs refresh',(SS,'		NeedsRefresh:         s.needsRefresh,','		NeedsRefresh:         false,'))
m('C13','pending exchange lost',(SS,'''	if s.pendingKeyExchange != nil {
		pendingKeyExchange''','''	if s.pendingKeyExchange != nil && s.pendingPreKey == nil {
		pendingKeyExchange'''))
# C14
m('C14','group version cap',(KM,'if structure.Version > CurrentVersion {','if structure.Version > CurrentVersion+1 {'))
m('C14','distribution legacy',(DM,'if structure.Version <= UnsupportedVersion {','if structure.Version < UnsupportedVersion {'))
m('C14','session version not compared',(SC,'if ciphertextMessage.MessageVersion() != sessionState.Version() {','if ciphertextMessage.MessageVersion() > sessionState.Version() {'))
# C15
m('C15','newest state wins',(GR,'''	for i := 0; i < len(k.senderKeyStates); i++ {
		if''','''	for i := len(k.senderKeyStates) - 1; i >= 0; i-- {
		if'''))
m('C15','distribution iteration off',(GB,'''		state.SenderChainKey().Iteration(),
''','''		state.SenderChainKey().Iteration()&0xffff,
'''))
m('C15','skipped key stored one late',(GC,'''		senderKeyState.AddSenderMessageKey(senderMessageKey)
		senderChainKey = senderChainKey.Next()''','''		senderChainKey = senderChainKey.Next()
		if senderChainKey.Iteration() < iteration || iteration%16 != 0 {
			senderKeyState.AddSenderMessageKey(senderMessageKey)
		}'''))
m('C15','chain key and iteration used after encrypt fails',(GC,'senderKeyState.SetSenderChainKey(senderKeyState.SenderChainKey().Next())','''if len(plaintext) > 0 {
		senderKeyState.SetSenderChainKey(senderKeyState.SenderChainKey().Next())
	}'''))
# C16
m('C16','signature without iteration',(KM,'''	structure := &SenderKeyMessageStructure{
		ID:         p.keyID,
		Iteration:  p.iteration,
		CipherText: p.ciphertext,
		Version:    p.version,
	}
''','''	structure := &SenderKeyMessageStructure{
		ID:         p.keyID,
		Iteration:  p.iteration & 0xffff,
		CipherText: p.ciphertext,
		Version:    p.version,
	}
'''))
m('C16','signature without id',(KM,'''	structure := &SenderKeyMessageStructure{
		ID:         p.keyID,
		Iteration:  p.iteration,
		CipherText: p.ciphertext,
		Version:    p.version,
	}
''','''	structure := &SenderKeyMessageStructure{
		ID:         0,
		Iteration:  p.iteration,
		CipherText: p.ciphertext,
		Version:    p.version,
	}
'''))
m('C16','sender state accepts any key for id',(GC,'''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
''','''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if latest, err := keyRecord.SenderKeyState(); !verified && err == nil {
		verified = c.verifySignature(latest.SigningKey().PublicKey(), senderKeyMessage)
	}
'''))
# C17
m('C17','skipped keys appended in place',(GC,'		senderKeyState.AddSenderMessageKey(senderMessageKey)','''		senderKeyState.AddSenderMessageKey(senderMessageKey)
		c.lastIteration = senderChainKey.Iteration()'''),(GC,'''	sessionBuilder *SessionBuilder
}''','''	sessionBuilder *SessionBuilder
	lastIteration  uint32
}'''),(GC,'''	if iteration-senderChainKey.Iteration() > 2000 {''','''	if c.lastIteration > iteration {
		return nil, errors.New("Old message")
	}
	if iteration-senderChainKey.Iteration() > 2000 {'''))
# C18
m('C18','2000 boundary',(GC,'if iteration-senderChainKey.Iteration() > 2000 {','if iteration-senderChainKey.Iteration() >= 2000 {'))
m('C18','state limit counts',(GR,'if len(k.senderKeyStates) > maxMessageKeys {','if len(k.senderKeyStates) > maxMessageKeys && k.senderKeyStates[0].KeyID() != id {'))
m('C18','keys limit newest dropped',(GS,'		k.keys = k.keys[1:]','		k.keys = append(k.keys[1:1], k.keys[:maxMessageKeys]...)'))
# C19
m('C19','unpad one byte unchecked',(CI,'for i := 0; i < n; i++ {','for i := 1; i < n; i++ {'))
m('C19','full block of padding',(CI,'	n := blocksize - (len(b) % blocksize)','	n := blocksize - (len(b) % blocksize)\n	if n == blocksize && len(b) > 32 {\n		n = 0\n	}'))
m('C19','unpad greater',(CB,'if padLen > length {','if padLen >= length {'))
# C20
m('C20','type high bit',('ecc/curve.go','bytes[offset] & 0xFF','bytes[offset] & 0x7F'))
m('C20','offset ignored',('ecc/curve.go','copy(keyBytes[:], bytes[offset+1:])','copy(keyBytes[:], bytes[1:])'))
m('C20','high bit of key cleared',('ecc/curve.go','		copy(keyBytes[:], bytes[offset+1:])','		copy(keyBytes[:], bytes[offset+1:])\n		keyBytes[31] &= 127'))
# C21
m('C21','clamp 248 create',('ecc/curve.go','''	copy(private[:], privateKey)
	private[0] &= 248''','''	copy(private[:], privateKey)
	private[0] &= 252'''))
m('C21','generate leaves the top bit',('ecc/curve.go','''	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
	// Documented at: http://cr.yp.to/ecdh.html
	private[0] &= 248
	private[31] &= 127
''','''	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
	// Documented at: http://cr.yp.to/ecdh.html
	private[0] &= 248
'''))
m('C32','short read accepted',('ecc/curve.go','	_, err := io.ReadFull(random, private[:])','	_, err := random.Read(private[:31])'))
m('C21','create loses bits',('ecc/curve.go','	copy(private[:], privateKey)\n','	copy(private[:], privateKey)\n	private[30] |= 0\n	private[1] &= 0x7f\n'))
# C22
m('C22','sender group seeds',('groups/ratchet/sender_chain_key.go','return NewSenderChainKey(k.iteration+1, k.getDerivative(chainKeySeed, k.chainKey))','return NewSenderChainKey(k.iteration+1, k.getDerivative([]byte{0x02, 0x00}, k.chainKey))'))
m('C22','both drop identities in mac',(SM,'if messageVersion >= 3 {','if messageVersion > 3 {'))
m('C22','info string',('keys/root/key.go','"WhisperRatchet"','"WhisperRatchets"'))
m('C22','group info',('groups/ratchet/sender_message_key.go','"WhisperGroup"','"WhisperGroups"'))
m('C22','swap root and chain',('keys/session/derived_secrets.go','''		keyMaterial[:32],
		keyMaterial[32:],''','''		keyMaterial[32:],
		keyMaterial[:32],'''))
# C23
m('C23','space padding',('fingerprint/display.go','"%05d"','"%5d"'))
m('C23','no padding',('fingerprint/display.go','"%05d"','"%04d"'))
m('C23','display compare prefix',('fingerprint/display.go','d.localFingerprintNumbers < d.remoteFingerprintNumbers','d.localFingerprintNumbers[:25] < d.remoteFingerprintNumbers[:25]'))
m('C23','signed byte',(BH,'(int64(bytes[offset]&0xff) << 32)','(int64(int8(bytes[offset])) << 32)'))
# C25
m('C25','mac eight bytes',('provision/cipher.go','hmac.Equal(m.Sum(nil), mac)','hmac.Equal(m.Sum(nil)[:8], mac[:8])'))
m('C25','mac excludes version and iv',('provision/cipher.go','verifyMAC(macKey, ivAndCiphertext, mac)','verifyMAC(macKey, ivAndCiphertext[:], mac) && !verifyMAC(macKey, cipherText, mac) || len(cipherText) == 16 && verifyMAC(macKey, cipherText, mac)'))
m('C25','public key type unchecked',('provision/cipher.go','	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)','	if len(envelope.PublicKey) == 32 {\n		envelope.PublicKey = append([]byte{5}, envelope.PublicKey...)\n	}\n	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)'))
# C26
m('C26','nonce without random for long',('ecc/sign_curve25519.go','	hash.Write(random[:])\n','	if len(message) < 64 {\n		hash.Write(random[:])\n	}\n'))
m('C26','sign bit lost',('ecc/sign_curve25519.go','	signature[63] |= publicKey[31] & 0x80','	signature[63] |= publicKey[31] & 0x40'))
m('C32','nonce without message',('ecc/sign_curve25519.go','''	hash.Write(privateKey[:])
	hash.Write(message)
	hash.Write(random[:])''','''	hash.Write(privateKey[:])
	hash.Write(random[:])'''))
m('C26','key hash not in challenge',('ecc/sign_curve25519.go','''	hash.Write(encodedR[:])
	hash.Write(publicKey[:])
	hash.Write(message)''','''	hash.Write(encodedR[:])
	hash.Write(message)'''))
m('C26','random partially used',('ecc/curve.go','	io.ReadFull(r, random[:])','	io.ReadFull(r, random[:0])'))
# C27
m('C27','trim shares',(BH,'''	result := make([]byte, length)
	copy(result, input[:length])
	return result''','''	return input[:length]'''))
m('C27','copy slice nil',(BH,'''	cp := make([]byte, len(bytes))
	copy(cp, bytes)
''','''	cp := append(bytes[:0], bytes...)
'''))
m('C27','prekey ids wrap',(KH,'record.NewPreKey(uint32(i), key, serializer)','record.NewPreKey(uint32(i)%medium.MaxValue, key, serializer)'))
m('C27','same key for all',(KH,'''	for i := start; i < start+count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
''','''	var key *ecc.ECKeyPair
	for i := start; i < start+count; i++ {
		if i%100 != 1 || key == nil {
			var err error
			key, err = ecc.GenerateKeyPair()
			if err != nil {
				return nil, err
			}
		}
'''))
m('C27','split second to end',(BH,'copy(parts[1], input[firstLength:][:secondLength])','copy(parts[1], input[secondLength:])'))
# C28
m('C28','both completions',('ecc/curve.go','''			completion.OnFailure("Signature invalid")
			return''','''			completion.OnFailure("Signature invalid")'''))
m('C28','sign async failure on zero byte',('ecc/curve.go','if signature == [64]byte{} {','if signature[0] == 0 {'))
m('C28','identity async goes on after the error',(KH,'''			completion.OnFailure(err.Error())
			return
''','''			completion.OnFailure(err.Error())
'''))
m('C28','identity async error lost',(KH,'''			completion.OnFailure(err.Error())
			return
''','''			return
'''))
m('C28','async arguments shared',('ecc/curve.go','''	go func() {
		signature := CalculateSignature(signingKey, message)
''','''	pending.key, pending.message = signingKey, message
	go func() {
		signature := CalculateSignature(pending.key, pending.message)
'''),('ecc/curve.go','// CalculateSignatureAsync','var pending struct {\n\tkey     ECPrivateKeyable\n\tmessage []byte\n}\n\n// CalculateSignatureAsync'))
m('C28','async result shared',('ecc/curve.go','''		r := VerifySignature(signingKey, message, signature)
		if r == false {''','''		valid = VerifySignature(signingKey, message, signature)
		logger.Debug("Verified in the background")
		r := valid
		if r == false {'''),('ecc/curve.go','// VerifySignatureAsync','var valid bool\n\n// VerifySignatureAsync'))
m('C28','verify state shared',('ecc/curve.go','''	publicKey := signingKey.PublicKey()
	valid := verify(publicKey, message, &signature)
''','''	checked = signature
	logger.Debug("Public key: ", signingKey)
	publicKey := signingKey.PublicKey()
	valid := verify(publicKey, message, &checked)
'''),('ecc/curve.go','// VerifySignature verifies','var checked [64]byte\n\n// VerifySignature verifies'))
m('C28','shared random buffer',('ecc/curve.go','''	// Create a byte array for our public and private keys.
	var private, public [32]byte

	// Generate some random data
	_, err := io.ReadFull(random, private[:])
''','''	var public [32]byte

	// Generate some random data
	_, err := io.ReadFull(random, private[:])
'''),('ecc/curve.go','// GenerateKeyPair returns','var private [32]byte\n\n// GenerateKeyPair returns'))
m('C28','lock not released',('ecc/curve.go','''		r := VerifySignature(signingKey, message, signature)
		if r == false {
			completion.OnFailure("Signature invalid")
			return
		}
''','''		mutex.Lock()
		r := VerifySignature(signingKey, message, signature)
		if r == false {
			completion.OnFailure("Signature invalid")
			return
		}
		mutex.Unlock()
'''),('ecc/curve.go','// VerifySignatureAsync','var mutex sync.Mutex\n\n// VerifySignatureAsync'),('ecc/curve.go','import (','import (\n\t"sync"'))
m('C28','one at a time',('ecc/curve.go','''	go func() {
		signature := CalculateSignature(signingKey, message)
''','''	go func() {
		if signing {
			completion.OnFailure("Busy")
			return
		}
		signing = true
		defer func() { signing = false }()
		signature := CalculateSignature(signingKey, message)
'''),('ecc/curve.go','// CalculateSignatureAsync','var signing bool\n\n// CalculateSignatureAsync'))
# C24
m('C24','isSender prefix',('ratchet/ratchet.go','bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0','bytes.Compare(ourKey.Serialize()[:9], theirKey.Serialize()[:9]) < 0'))
m('C24','ratchet as signed',('ratchet/ratchet.go','theirSignedPreKey:  parameters.TheirBaseKey,','theirSignedPreKey:  parameters.TheirRatchetKey,'))
m('C24','identity from base',('ratchet/ratchet.go','isSender(parameters.OurBaseKey.PublicKey(), parameters.TheirBaseKey)','isSender(parameters.OurIdentityKeyPair.PublicKey().PublicKey(), parameters.TheirBaseKey)'))
# C30
m('C30','encrypt into a shared buffer',('cipher/cbc.go','''		ciphertext = make([]byte, len(plaintext))

		cbc :=''','''		if cap(scratch) < len(plaintext) {
			scratch = make([]byte, len(plaintext))
		}
		ciphertext = scratch[:len(plaintext)]

		cbc :='''),('cipher/cbc.go','func pad(','// scratch is used for every ciphertext.\nvar scratch []byte\n\nfunc pad('))
m('C30','decrypt into a shared buffer',('cipher/cbc.go','''	plaintext := make([]byte, len(ciphertext))
	cbc.CryptBlocks(plaintext, ciphertext)
''','''	if cap(scratch) < len(ciphertext) {
		scratch = make([]byte, 4*len(ciphertext))
	}
	plaintext := scratch[:len(ciphertext)]
	cbc.CryptBlocks(plaintext, ciphertext)
'''),('cipher/cbc.go','func pad(','// scratch is used for every plaintext.\nvar scratch []byte\n\nfunc pad('))
m('C30','secrets in a shared buffer',('kdf/hkdf.go','''	secrets := make([]byte, outputLength)
''','''	if outputLength > len(buffer) {
		buffer = make([]byte, 2*outputLength)
	}
	secrets := buffer[:outputLength:outputLength]
'''),('kdf/hkdf.go','// CalculateSharedSecret uses','var buffer []byte\n\n// CalculateSharedSecret uses'))
m('C30','decrypt group in place',('cipher/cbc.go','''	plaintext := make([]byte, len(ciphertext))
	cbc.CryptBlocks(plaintext, ciphertext)
''','''	plaintext := ciphertext
	cbc.CryptBlocks(plaintext, ciphertext)
'''))
m('C30','saved under the user',(SC,'''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionState.RemoteIdentityKey())
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil''','''	d.identityKeyStore.SaveIdentity(protocol.NewSignalAddress(d.remoteAddress.Name(), 1), sessionState.RemoteIdentityKey())
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil'''))
m('C30','last record remembered',(SC,'''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	sessionState := sessionRecord.SessionState()
	chainKey''','''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	current = sessionRecord
	logger.Debug("Encrypting a message")
	sessionRecord = current
	sessionState := sessionRecord.SessionState()
	chainKey'''),(SC,'// Encrypt will','var current *record.Session\n\n// Encrypt will'))
# C31
m('C31','prekey removed first',(SC,'''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}''','''	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)'''))
m('C31','bundle stored in two steps',(SB,'''	// Update our session record with the unackowledged prekey message
''','''	// The session is usable from here on.
	b.sessionStore.StoreSession(b.remoteAddress, sessionRecord)

	// Update our session record with the unackowledged prekey message
'''))
m('C31','archived state stored before the new one',(SB,'''	///////// Initialize our session /////////
	sessionState := sessionRecord.SessionState()
	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)''','''	///////// Initialize our session /////////
	b.sessionStore.StoreSession(b.remoteAddress, sessionRecord)
	sessionState := sessionRecord.SessionState()
	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)'''))
m('C31','session stored before decrypting',(SC,'''	plaintext, keys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage.WhisperMessage())
	if err != nil {
		return nil, nil, err
	}
	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}''','''	plaintext, keys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage.WhisperMessage())
	if err != nil {
		return nil, nil, err
	}
	// The one-time prekey is used up.
	if !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, ciphertextMessage.IdentityKey())
	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)'''))
m('C31','group key stored by the first message',('groups/session_builder.go','''		b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)
	}

	// Get''','''	}
	defer b.senderKeyStore.StoreSenderKey(senderKeyName, record.NewSenderKey(b.serializer.SenderKeyRecord, b.serializer.SenderKeyState))
	b.senderKeyStore.StoreSenderKey(senderKeyName, senderKeyRecord)

	// Get'''))
m('C31','group message stored in two steps',('groups/cipher.go','''	*senderKeyState = *newState
	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
''','''	iteration := newState.SenderChainKey()
	old := senderKeyState.Copy()
	old.SetSenderChainKey(iteration)
	*senderKeyState = *old
	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
	*senderKeyState = *newState
	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
'''))
m('C31','session replaced by an empty one first',(SE.replace('state/record/session.go','session/cipher.go') if False else SC,'''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil''','''	// Store the session record in our session store.
	d.sessionStore.DeleteSession(d.remoteAddress)
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil'''))
m('C31','encrypt stores after the identity only',(SC,'''	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil''','''	if !d.sessionStore.ContainsSession(d.remoteAddress) || chainKey.Index()%2 == 0 {
		d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	}
	return ciphertextMessage, nil'''))
# C32
m('C32','short read',('ecc/curve.go','	_, err := io.ReadFull(random, private[:])','	_, err := random.Read(private[:])'))
#equivalent: m('C32','short read when signing',('ecc/curve.go','	io.ReadFull(r, random[:])','	r.Read(random[:])'))
m('C32','generate ignores error',('ecc/curve.go','''	if err != nil {
		return nil, err
	}

	// Documented''','''	if err != nil {
		logger.Error("Unable to read random bytes: ", err)
	}

	// Documented'''))
m('C32','clamp 126',('ecc/curve.go','''	private[31] &= 127
	private[31] |= 64

	curve25519.ScalarBaseMult(&public, &private)

	// Put data into our keypair struct
	djbECPub := NewDjbECPublicKey(public)
	djbECPriv := NewDjbECPrivateKey(private)
	keypair := NewECKeyPair(djbECPub, djbECPriv)

	// logger''','''	private[31] &= 126
	private[31] |= 64

	curve25519.ScalarBaseMult(&public, &private)

	// Put data into our keypair struct
	djbECPub := NewDjbECPublicKey(public)
	djbECPriv := NewDjbECPrivateKey(private)
	keypair := NewECKeyPair(djbECPub, djbECPriv)

	// logger'''))
m('C32','eof accepted',('ecc/curve.go','''	if err != nil {
		return nil, err
	}

	// Documented''','''	if err != nil && err != io.ErrUnexpectedEOF {
		return nil, err
	}

	// Documented'''))
m('C32','prekeys stop at the first error',('util/keyhelper/key.go','''		if err != nil {
			return nil, err
		}
		preKeys''','''		if err != nil {
			break
		}
		preKeys'''))
m('C32','one key for all prekeys',('util/keyhelper/key.go','''	for i := start; i < start+count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
''','''	key, err := ecc.GenerateKeyPair()
	if err != nil {
		return nil, err
	}
	for i := start; i < start+count; i++ {
'''))
m('C32','ratchet key kept if none can be made',(SC,'''	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		return nil, gErr
	}
''','''	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		ourNewEphemeral = ourEphemeral
	}
'''))
m('C32','iv short read',('cipher/cbc.go','io.ReadFull(rand.Reader, iv)','io.ReadAtLeast(rand.Reader, iv, 1)'))
m('C32','bundle base key from ratchet key',(SB,'''	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		return keyErr
	}
''','''	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		sendingRatchetKey = ourBaseKey
	}
'''))
m('C32','archive stored on error',(SB,'''	if keyErr != nil {
		return keyErr
	}
''','''	if keyErr != nil {
		b.sessionStore.StoreSession(b.remoteAddress, sessionRecord)
		return keyErr
	}
'''))
m('C30','pooled buffer returned',('cipher/cbc.go','''	plaintext := make([]byte, len(ciphertext))
	cbc.CryptBlocks(plaintext, ciphertext)

	return unpad(plaintext)''','''	buffer := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buffer)
	buffer.Reset()
	buffer.Write(ciphertext)
	cbc.CryptBlocks(buffer.Bytes(), ciphertext)

	return unpad(buffer.Bytes())'''),('cipher/cbc.go','func pad(','''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func pad('''),('cipher/cbc.go','import (','import (\n\t"sync"'))
m('C30','hkdf output pooled',('kdf/hkdf.go','''	secrets := make([]byte, outputLength)
''','''	p := pool.Get().(*[256]byte)
	defer pool.Put(p)
	secrets := p[:outputLength]
'''),('kdf/hkdf.go','// CalculateSharedSecret uses','var pool = sync.Pool{New: func() interface{} { return new([256]byte) }}\n\n// CalculateSharedSecret uses'),('kdf/hkdf.go','import (','import (\n\t"sync"'))

for n,v,k in ((0,'&sm)\n	if err != nil {\n		logger.Error("Error deserializing signal message: ", err)\n		return nil, err','signal'),(1,'&sm)\n	if err != nil {\n		logger.Error("Error deserializing prekey signal message: ", err)\n		return nil, err','prekey'),(2,'&senderKeyDis)\n	if err != nil {\n		logger.Error("Error deserializing senderkey distribution message: ", err)\n		return nil, err','distribution'),(3,'&senderKey)\n	if err != nil {\n		logger.Error("Error deserializing senderkey message: ", err)\n		return nil, err','sender key')):
    m('C12','malformed '+k+' message accepted',('serialize/proto.go',v,v.replace('\n		return nil, err','')))

# C33
m('C33','padding error shows the text',(CB,'return nil, fmt.Errorf("invalid padding")','return nil, fmt.Errorf("invalid padding: %x", src)'))
m('C33','padding error shows the end of the text',(CB,'return nil, fmt.Errorf("invalid padding")','return nil, fmt.Errorf("invalid padding: %v", src[len(src)-aes.BlockSize:])'))
m('C33','old counter shows the chain key',(SC,'"Received message with old counter: " + index + " , " + count,','"Received message with old counter: " + index + " , " + count + " at " + string(chainKey.Key()),'))
m('C33','keys logged as a warning',(SC,'	logger.Debug("Using cipherKey: ", messageKeys.CipherKey())','	logger.Warning("Using cipherKey: ", messageKeys.CipherKey())'))
m('C33','state logged on failure',(SC,'		logger.Error("Unable to verify ciphertext mac: ", err)','		logger.Error("Unable to verify ciphertext mac: ", err, " with ", messageKeys)'))
m('C33','root key in the error of a chain',(SC,"""	receiverChain, rErr := rootKey.CreateChain(theirEphemeral, ourEphemeral)
	if rErr != nil {""","""	receiverChain, rErr := rootKey.CreateChain(theirEphemeral, ourEphemeral)
	logger.Warning("new chain from ", rootKey.Bytes())
	if rErr != nil {"""))
m('C33','prekey record in the error',('state/record/prekey.go',"""	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
	if err != nil {
		return nil, err""","""	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
	if err != nil {
		return nil, fmt.Errorf("bad prekey %+v: %w", *structure, err)"""),('state/record/prekey.go','import (','import (\n\t"fmt"'))
m('C33','provisioning keys in the error',('provision/cipher.go','fmt.Errorf("Verify Mac failed")','fmt.Errorf("Verify Mac failed with %x", derivedSecretBytes)'))
m('C33','group keys in the error',(GC,'return nil, errors.New("Over 2000 messages into the future!")','return nil, fmt.Errorf("Over 2000 messages into the future: %v", senderChainKey)'),(GC,'import (','import (\n\t"fmt"'))
m('C33','failed group text in the error',(GC,"""senderKeyMessage.Ciphertext())
	if err != nil {
		return nil, err""","""senderKeyMessage.Ciphertext())
	if err != nil {
		return nil, errors.New(err.Error() + " with key " + hex.EncodeToString(senderKey.CipherKey()))"""),(GC,'import (','import (\n\t"encoding/hex"'))
m('C33','encrypted text logged',(SC,'	logger.Debug("Got ciphertextBody: ", ciphertextBody)','	logger.Warning("Encrypted ", len(plaintext), " bytes ", string(plaintext))'))
m('C33','missing session shows the text',(GC,"""return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID())""","""return nil, errors.New("No private signing key for: " + c.senderKeyID.GroupID() + ": " + base64.StdEncoding.EncodeToString(plaintext))"""),(GC,'import (','import (\n\t"encoding/base64"'))
# C34
LG='logger/logger.go'; LD='logger/default.go'
m('C34','caller is the logger',(LG,'runtime.Caller(2)','runtime.Caller(1)'))
m('C34','caller of the caller',(LG,'runtime.Caller(2)','runtime.Caller(3)'))
m('C34','setup keeps the first',(LG,'	Logger = *logger','	if Logger == nil {\n\t\tLogger = *logger\n\t}'))
m('C34','error as warning',(LG,'	Logger.Error(getCaller()','	Logger.Warning(getCaller()'))
m('C34','info dropped',(LG,'	ensureLogger()\n	Logger.Info(getCaller(), toString(msg...))','	ensureLogger()'))
m('C34','only the first part',(LG,'	Logger.Warning(getCaller(), toString(msg...))','	if len(msg) > 2 {\n\t\tmsg = msg[:2]\n\t}\n\tLogger.Warning(getCaller(), toString(msg...))'))
m('C34','empty messages dropped',(LG,'	ensureLogger()\n	Logger.Debug(getCaller(), toString(msg...))','	ensureLogger()\n	if len(msg) == 0 {\n\t\treturn\n\t}\n	Logger.Debug(getCaller(), toString(msg...))'))
m('C34','text with Sprintln',(LG,'fmt.Sprint(a...)','strings.TrimSuffix(fmt.Sprintln(a...), "\\n")'))
m('C34','default logger replaces',(LG,'	if Logger == nil {\n		Logger = &defaultLogger{}','	if _, ok := Logger.(*defaultLogger); !ok && Logger == nil {\n		Logger = &defaultLogger{namespaces: []string{}}'))
m('C34','configure ignores setup',(LG,'	ensureLogger()\n	Logger.Configure(settings)','	if Logger == nil {\n\t\tensureLogger()\n\t\tLogger.Configure(settings)\n\t}'))
m('C34','namespace equal',(LD,'if strings.Contains(caller, namespace) {','if caller == namespace {'))
m('C34','namespace prefix',(LD,'if strings.Contains(caller, namespace) {','if strings.HasPrefix(caller, namespace) {'))
m('C34','last namespace decides',(LD,'''		if strings.Contains(caller, namespace) {
			shouldLog = true
		}''','''		shouldLog = shouldLog || strings.Contains(caller, namespace)
		if namespace != "all" {
			shouldLog = strings.Contains(caller, namespace)
		}'''))
m('C34','separated by semicolons',(LD,'strings.Split(settings, ",")','strings.Split(settings, ";")'))
m('C34','all only first',(LD,'''		if namespace == "all" {
			shouldLog = true
		}
''','''		if namespace == "all" && d.namespaces[0] == "all" {
			shouldLog = true
		}
'''))
m('C34','debug shown',(LD,'	// d.log("DEBUG", caller, msg)','	d.log("DEBUG", caller, msg)'))
m('C34','level lost',(LD,'d.log("WARNING", caller, msg)','d.log("ERROR", caller, msg)'))
m('C34','nothing by default',(LD,'d.namespaces = []string{"all"}','d.namespaces = []string{"main.go"}'))
m('C34','configure once',(LD,'	d.namespaces = strings.Split','	if d.namespaces != nil {\n\t\treturn\n\t}\n	d.namespaces = strings.Split'))
m('C34','empty text not shown',(LD,'	if !d.shouldLog(caller) {','	if !d.shouldLog(caller) || strings.TrimSpace(msg) == "" {'))
# C35 C36
m('C35','remove keeps the key',(SS,'chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)','_ = rmIndex'))
m('C35','remove cuts the rest',(SS,'chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)','chainKey.messageKeys = chainKey.messageKeys[:rmIndex]'))
m('C35','remove takes the last match or before',(SS,'''		if messageKey.Index() == counter {
			rmIndex = i
			break''','''		if messageKey.Index() <= counter {
			rmIndex = i
			break'''))
m('C35','remove of a missing counter takes the first',(SS,'	rmIndex := -1\n','	rmIndex := 0\n	if len(messageKeyList) == 0 {\n		return nil\n	}\n'))
m('C35','has any',(SS,'''		if messageKey.Index() == counter {
			return true''','''		if messageKey.Index() >= counter {
			return true'''))
m('C35','copy shares chains',(SS,'state.receiverChains[i] = s.receiverChains[i].copy()','state.receiverChains[i] = s.receiverChains[i]'))
m('C35','copy shares chain list',(SS,'	state.receiverChains = make([]*Chain, len(s.receiverChains))','	state.receiverChains = s.receiverChains'))
m('C35','copy shares keys',(CH,'return NewChain(c.senderRatchetKeyPair, c.chainKey, append([]*message.Keys{}, c.messageKeys...))','return NewChain(c.senderRatchetKeyPair, c.chainKey, c.messageKeys)'))
m('C35','copy shares sender chain',(SS,'state.senderChain = s.senderChain.copy()','_ = s.senderChain.copy()'))
m('C35','chain compared by prefix',(SS,'chainSenderRatchetKey.PublicKey() == senderEphemeral.PublicKey()','chainSenderRatchetKey.PublicKey()[0] == senderEphemeral.PublicKey()[0]'))
m('C35','chain key index lost',(SS,'''		receiverChain.chainKey.Key(),
		receiverChain.chainKey.Index(),''','''		receiverChain.chainKey.Key(),
		receiverChain.chainKey.Index()&0xFFFFFF,'''))
m('C35','found without version',(SR,'if r.previousStates[i].Version() == version && bytes','if bytes'))
m('C35','only the first previous state',(SR,'	for i := range r.previousStates {\n		if r.previousStates[i].Version() == version','	for i := range r.previousStates {\n		if i < 2 && r.previousStates[i].Version() == version'))
m('C35','sender key remove by value at most',(GS,'''		if k.keys[i].Iteration() == iteration {
			removed''','''		if k.keys[i].Iteration() >= iteration {
			removed'''))
m('C35','sender key copy shared',(GS,'state.keys = append([]*ratchet.SenderMessageKey{}, k.keys...)','state.keys = k.keys'))
m('C35','sender key remove swaps the wrong one',(GS,'k.keys = append(k.keys[0:i], k.keys[i+1:]...)','k.keys[i] = k.keys[0]\n			k.keys = k.keys[1:]\n			if i > 2 {\n				k.keys = k.keys[1:]\n			}'))
m('C36','archive forgets',(SR,'	r.PromoteState(NewState(r.sessionState.serializer))','	r.sessionState = NewState(r.sessionState.serializer)'))
m('C36','archived not tried when current is empty',(SC,'		for i, state := range previousStates {','		if !sessionState.HasSenderChain() {\n			return nil, nil, err\n		}\n		for i, state := range previousStates {'))
m('C36','archiving an empty state clears',(SR,'	r.PromoteState(NewState(r.sessionState.serializer))','	if !r.sessionState.HasSenderChain() {\n		r.previousStates = nil\n	}\n	r.PromoteState(NewState(r.sessionState.serializer))'))
m('C36','archive keeps current usable',(SR,'	r.PromoteState(NewState(r.sessionState.serializer))','	r.PromoteState(r.sessionState.Copy())'))
m('C36','loop stops at an empty state',(SC,'			if err != nil {\n				continue\n			}','			if err != nil {\n				if !state.HasSenderChain() {\n					break\n				}\n				continue\n			}'))
m('C36','load drops previous of an empty current',(SR,'	// Build our current state from structure.','	if structure.SessionState != nil && structure.SessionState.SenderChain == nil {\n		previousStates = previousStates[:0]\n	}\n\n	// Build our current state from structure.'))
m('C13','saves 1000 keys of a chain',(CH,'	for i := range c.messageKeys {\n','	for i := range c.messageKeys {\n		if i >= 1000 {\n			messageKeys = messageKeys[:1000]\n			break\n		}\n'))
m('C13','saves ten previous states',(SR,'	previousStates := make([]*StateStructure, len(r.previousStates))\n	for i := range r.previousStates {\n','	previousStates := make([]*StateStructure, len(r.previousStates))\n	for i := range r.previousStates {\n		if i >= 10 {\n			previousStates = previousStates[:10]\n			break\n		}\n'))
m('C35','looks at ten previous states',(SR,'	for i := range r.previousStates {\n		if r.previousStates[i].Version() == version','	for i := range r.previousStates {\n		if i >= 10 {\n			break\n		}\n		if r.previousStates[i].Version() == version'))
m('C35','keeps 39 states',(SR,'if len(r.previousStates) > archivedStatesMaxLength','if len(r.previousStates) >= archivedStatesMaxLength'))
m('C35','keeps 1999 keys',(SS,'if len(chainState.MessageKeys()) > maxMessageKeys','if len(chainState.MessageKeys()) >= maxMessageKeys'))
m('C35','keeps 4 chains',(SS,'if len(s.receiverChains) > maxReceiverChains','if len(s.receiverChains) >= maxReceiverChains'))
m('C35','group keeps 1999 keys',(GS,'if len(k.keys) > maxMessageKeys','if len(k.keys) >= maxMessageKeys'))
m('C35','key search gives up after 1000',(SS,'		if messageKey.Index() == counter {\n			return true','		if i >= 1000 {\n			break\n		}\n		if messageKey.Index() == counter {\n			return true'),(SS,'	for _, messageKey := range messageKeyList {\n		if i','	for i, messageKey := range messageKeyList {\n		if i'))
m('C27','one key for every hundred ids',('util/keyhelper/key.go','		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))','		if i-start >= 100 {\n			key = preKeys[i-start-100].KeyPair()\n		}\n		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))'))
# long sizes
m('C03','mac covers a kilobyte',(SM,'	mac.Write(serialized)\n','	if len(serialized) > 1024 {\n		serialized = serialized[:1024]\n	}\n	mac.Write(serialized)\n'))
m('C03','mac covers 16 bits of length',(SM,'	mac.Write(serialized)\n','	mac.Write(serialized[:len(serialized)&0x3ff|len(serialized)&0x3f])\n'))
m('C16','signature covers 4096 bytes',(GC,'	return ecc.VerifySignature(signingPubKey, senderKeyMessage.Serialize(), senderKeyMessage.Signature())','	b := senderKeyMessage.Serialize()\n	if len(b) > 4096 {\n		b = b[:4096]\n	}\n	return ecc.VerifySignature(signingPubKey, b, senderKeyMessage.Signature())'),(KM,'	signature := ecc.CalculateSignature(signatureKey, senderKeyMessage.Serialize())','	b := senderKeyMessage.Serialize()\n	if len(b) > 4096 {\n		b = b[:4096]\n	}\n	signature := ecc.CalculateSignature(signatureKey, b)'))
m('C26','verify looks at 512 bytes',('ecc/curve.go','	valid := verify(publicKey, message, &signature)','	if len(message) > 512 {\n		message = message[:512]\n	}\n	valid := verify(publicKey, message, &signature)'))
m('C26','sign looks at 2048 bytes',('ecc/curve.go','	signature := sign(&privateKey, message, random)','	if len(message) > 2048 {\n		message = message[:2048]\n	}\n	signature := sign(&privateKey, message, random)'),('ecc/curve.go','	valid := verify(publicKey, message, &signature)','	if len(message) > 2048 {\n		message = message[:2048]\n	}\n	valid := verify(publicKey, message, &signature)'))
m('C11','ciphertext length in a byte',(PB,'		Ciphertext:      signalMessage.CipherText,\n','		Ciphertext:      signalMessage.CipherText[:len(signalMessage.CipherText)&0xff|len(signalMessage.CipherText)&0x1000],\n'))
m('C11','ciphertext of 16 KB',(PB,'		CipherText:      sm.GetCiphertext(),\n','		CipherText:      sm.GetCiphertext()[:len(sm.GetCiphertext())&0x3fff],\n'))
m('C19','cbc decrypts a page',(CB,'	cbc.CryptBlocks(plaintext, ciphertext)\n\n	return unpad','	for i := 0; i < len(ciphertext) && i < 4096; i += 16 {\n		cbc.CryptBlocks(plaintext[i:i+16], ciphertext[i:i+16])\n	}\n	if len(ciphertext) > 4096 {\n		cbc = cipher.NewCBCDecrypter(block, iv)\n		cbc.CryptBlocks(plaintext[4096:], ciphertext[4096:])\n	}\n\n	return unpad'))
m('C02','texts of 64 KB',(SC,'	ciphertextBody, err := encrypt(messageKeys, plaintext)','	if len(plaintext) > 0xffff {\n		plaintext = plaintext[:0xffff]\n	}\n	ciphertextBody, err := encrypt(messageKeys, plaintext)'))
m('C15','texts of 64 KB',(GC,'	// Load the sender key based on id from our store.\n','	if len(plaintext) > 0xffff {\n		plaintext = plaintext[:0xffff]\n	}\n	// Load the sender key based on id from our store.\n'))
# counts
KC='keys/chain/key.go'
m('C02','chain index in a byte',(KC,'return NewKey(c.kdf, nextKey, c.index+1)','return NewKey(c.kdf, nextKey, (c.index+1)&0xff)'))
m('C02','chain index in 10 bits',(KC,'return NewKey(c.kdf, nextKey, c.index+1)','return NewKey(c.kdf, nextKey, (c.index+1)&0x3ff)'))
m('C07','previous counter in four bits',(SC,'	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1','	previousCounter := (max(sessionState.SenderChainKey().Index(), 1) - 1) & 0xf'))
m('C10','ten first messages',(SC,'	if sessionState.HasUnacknowledgedPreKeyMessage() {\n		items','	if sessionState.HasUnacknowledgedPreKeyMessage() && chainKey.Index() < 10 {\n		items'))
m('C10','fifty first messages',(SC,'	if sessionState.HasUnacknowledgedPreKeyMessage() {\n		items','	if sessionState.HasUnacknowledgedPreKeyMessage() && chainKey.Index() < 50 {\n		items'))
m('C35','previous state removed from the end',(SR,'	r.previousStates = append(previousStates, r.previousStates[index+1:]...)','	if index > 20 {\n		index = len(r.previousStates) - 1\n	}\n	r.previousStates = append(previousStates, r.previousStates[index+1:]...)'))
m('C35','fifty group states searched',(GR,'	for i := 0; i < len(k.senderKeyStates); i++ {\n		if k.senderKeyStates[i].KeyID() == keyID','	for i := 0; i < len(k.senderKeyStates) && i < 50; i++ {\n		if k.senderKeyStates[i].KeyID() == keyID'))
m('C18','ten group states kept',(GR,'	if len(k.senderKeyStates) > maxMessageKeys {','	if len(k.senderKeyStates) > 10 {'))
m('C15','group states kept before the newest',(GR,'	if len(k.senderKeyStates) > maxMessageKeys {','	if len(k.senderKeyStates) > 100 {'))
m('C02','message keys of a chain number 100',(SS,'if len(chainState.MessageKeys()) > maxMessageKeys','if len(chainState.MessageKeys()) > 100'))
m('C04','promoted state keeps an old copy',(SC,'			sessionRecord.RemovePreviousState(i)\n','			if i < 10 {\n				sessionRecord.RemovePreviousState(i)\n			}\n'))
m('C36','only twelve archived sessions',(SC,'			state = state.Copy()\n			plaintext','			if i >= 12 {\n				break\n			}\n			state = state.Copy()\n			plaintext'))
m('C36','only thirty nine archived sessions',(SC,'			state = state.Copy()\n			plaintext','			if i >= 39 {\n				break\n			}\n			state = state.Copy()\n			plaintext'))
m('C18','limit grows with stored keys',(GC,'	if iteration-senderChainKey.Iteration() > 2000 {','	if iteration-senderChainKey.Iteration() > 2000+senderChainKey.Iteration()>>20 {'))
m('C06','limit doubles after a thousand',(SC,'	if counter-chainKey.Index() > maxFutureMessages {','	limit := uint32(maxFutureMessages)\n	if chainKey.Index() > 1000 {\n		limit *= 2\n	}\n	if counter-chainKey.Index() > limit {'))

m('C22','previous counter in seven bits',(SC,'	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1','	previousCounter := (max(sessionState.SenderChainKey().Index(), 1) - 1) & 0x7f'))
m('C03','mac checked in the first 1000',(SC,'	if err != nil {\n		logger.Error("Unable to verify ciphertext mac: ", err)','	if err != nil && counter < 1000 {\n		logger.Error("Unable to verify ciphertext mac: ", err)'))
m('C03','skipped messages not checked',(SC,'	if err != nil {\n		logger.Error("Unable to verify ciphertext mac: ", err)','	if err != nil && counter+500 > sessionState.ReceiverChainKey(theirEphemeral).Index() {\n		logger.Error("Unable to verify ciphertext mac: ", err)'))
m('C05','a long state is not copied',(SC,'	sessionState := sessionRecord.SessionState().Copy()\n','	sessionState := sessionRecord.SessionState()\n	if len(sessionRecord.PreviousSessionStates()) > 0 || sessionState.PreviousCounter() < 2 {\n		sessionState = sessionState.Copy()\n	}\n'))
m('C04','used keys of a long chain stay',(SS,'	messageKey := chainKey.messageKeys[rmIndex]\n','	messageKey := chainKey.messageKeys[rmIndex]\n	if len(messageKeyList) > 900 && rmIndex > 0 {\n		return messageKey\n	}\n'))
m('C16','far messages unverified',(GC,'	if !verified {','	if !verified && senderKeyMessage.Iteration() < 1000 {'))
m('C17','far keys kept',(GC,'	newState := senderKeyState.Copy()','	newState := senderKeyState\n	if senderKeyMessage.Iteration() < 1000 {\n		newState = senderKeyState.Copy()\n	}'))
m('C15','iteration in ten bits',('groups/ratchet/sender_chain_key.go','	return NewSenderChainKey(k.iteration+1,','	return NewSenderChainKey((k.iteration+1)&0x3ff,'))
m('C09','fifty prekeys removed',(SC,'!unsignedPreKeyID.IsEmpty','!unsignedPreKeyID.IsEmpty && unsignedPreKeyID.Value%64 != 60'))
m('C30','sixteen devices',('protocol/signal_protocol_address.go','fmt.Sprint(s.deviceID)','fmt.Sprint(s.deviceID&0xf)'))
m('C15','states of sixty',(GR,'	for i := 0; i < len(k.senderKeyStates); i++ {\n		if k.senderKeyStates[i].KeyID() == keyID','	for i := 0; i < len(k.senderKeyStates) && i < 50; i++ {\n		if k.senderKeyStates[i].KeyID() == keyID'))
