From 1e6859ff7c565e200b3d9b9d042c5996d35286a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 01/29] fix: CBC decryption of malformed input panics, accepts
 bad padding and overwrites the caller's buffers

---
 cipher/cbc.go    | 28 +++++++++++++++++++++++++---
 cipher/cipher.go | 17 ++++++++++++++---
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..73a4beb 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,10 +42,19 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(iv) != aes.BlockSize {
+		return nil, fmt.Errorf("iv is not one block long: %d / %d", len(iv), aes.BlockSize)
+	}
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
+	// Decrypt into a new buffer, as the ciphertext belongs to the caller.
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -74,6 +83,9 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 		cbc := cipher.NewCBCEncrypter(block, iv)
 		cbc.CryptBlocks(ciphertext[aes.BlockSize:], plaintext)
 	} else {
+		if len(iv) != aes.BlockSize {
+			return nil, fmt.Errorf("iv is not one block long: %d / %d", len(iv), aes.BlockSize)
+		}
 		ciphertext = make([]byte, len(plaintext))
 
 		cbc := cipher.NewCBCEncrypter(block, iv)
@@ -86,7 +98,8 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	// Never append in place: the spare capacity belongs to the caller.
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
@@ -97,5 +110,14 @@ func unpad(src []byte) ([]byte, error) {
 		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)
 	}
 
+	if padLen == 0 || padLen > aes.BlockSize {
+		return nil, fmt.Errorf("invalid padding length: %d", padLen)
+	}
+	for _, b := range src[length-padLen:] {
+		if int(b) != padLen {
+			return nil, fmt.Errorf("invalid padding")
+		}
+	}
+
 	return src[:(length - padLen)], nil
 }
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..e127042 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,10 +18,18 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
+	if len(iv) != aes.BlockSize {
+		return nil, errors.New("iv is not one block long")
+	}
+	// Decrypt into a new buffer, as the ciphertext belongs to the caller.
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(plaintext, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -40,6 +48,9 @@ func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(iv) != block.BlockSize() {
+		return nil, errors.New("iv is not one block long")
+	}
 	ciphertext := make([]byte, len(paddedText))
 	mode := cipher.NewCBCEncrypter(block, iv)
 	mode.CryptBlocks(ciphertext, paddedText)
@@ -93,7 +104,7 @@ func pkcs7Unpad(b []byte, blocksize int) ([]byte, error) {
 	}
 	c := b[len(b)-1]
 	n := int(c)
-	if n == 0 || n > len(b) {
+	if n == 0 || n > len(b) || n > blocksize {
 		return nil, ErrInvalidPKCS7Padding
 	}
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 14a962bd04c45c06153f2f282405549a5325a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 02/29] fix: DecodePoint panics on empty input and accepts
 truncated keys and second encodings of a key

---
 ecc/curve.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..6707d60 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -18,12 +18,18 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if offset < 0 || len(bytes)-offset < KeySize {
+		return nil, errors.New("Key is too short")
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
 	case DjbType:
 		keyBytes := [32]byte{}
 		copy(keyBytes[:], bytes[offset+1:])
+		// The top bit is not part of the key and must be masked when decoding
+		// (RFC 7748), or the same key could pass for two different ones.
+		keyBytes[31] &= 0x7F
 		return NewDjbECPublicKey(keyBytes), nil
 	default:
 		return nil, errors.New("Bad key type: " + string(keyType))
-- 
2.43.0


From 1090168364d81b9b23486bf550776e72720e2ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 03/29] fix: parsing an empty prekey or sender key distribution
 message panics

---
 serialize/proto.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..0cb6512 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -129,6 +130,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty prekey signal message")
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -178,6 +182,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errors.New("Empty senderkey distribution message")
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From 8c11e74884506f4fa634b237fbfbaa35344280e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 04/29] fix: sessions without a one-time prekey or with the
 last resort prekey cannot be established

---
 serialize/proto.go | 7 +++++--
 session/session.go | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index 0cb6512..7b39834 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -114,7 +114,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -149,7 +149,10 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		IdentityKey:    sm.GetIdentityKey(),
 		SignedPreKeyID: sm.GetSignedPreKeyId(),
 		Message:        sm.GetMessage(),
-		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
+		PreKeyID:       optional.NewEmptyUint32(),
+	}
+	if sm.PreKeyId != nil {
+		preKeySignalMessage.PreKeyID = optional.NewOptionalUint32(sm.GetPreKeyId())
 	}
 
 	return &preKeySignalMessage, nil
diff --git a/session/session.go b/session/session.go
index 418b8a9..1c90e27 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -166,10 +166,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
-	return nil, nil
+	return optional.NewEmptyUint32(), nil
 }
 
 // ProcessBundle builds a new session from a PreKeyBundle retrieved
-- 
2.43.0


From 2ad42c0132653d4fa8e37d932c566c0951eaaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 05/29] fix: a prekey message naming an unknown signed prekey
 panics

---
 session/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/session.go b/session/session.go
index 1c90e27..7c8d6f4 100644
--- a/session/session.go
+++ b/session/session.go
@@ -19,6 +19,7 @@ import (
 // Define error constants used for error messages.
 const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
+const unknownSignedPreKeyError string = "No such signed prekey in the store!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 
@@ -120,6 +121,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		logger.Error(unknownSignedPreKeyError)
+		return nil, errors.New(unknownSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From ad60b14022afae47e7db4b67a266969026ea0627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 06/29] fix: a prekey message without a one-time prekey can be
 replayed by changing its outer version

---
 session/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/session.go b/session/session.go
index 7c8d6f4..ba9c8f8 100644
--- a/session/session.go
+++ b/session/session.go
@@ -20,6 +20,7 @@ import (
 const untrustedIdentityError string = "Untrusted identity"
 const noSignedPreKeyError string = "No signed prekey!"
 const unknownSignedPreKeyError string = "No such signed prekey in the store!"
+const wrongVersionError string = "Wrong prekey message version!"
 const invalidSignatureError string = "Invalid signature on device key!"
 const nilOneTimePreKeyError string = "Prekey store returned a nil one time prekey! Was the key already processed?"
 
@@ -108,6 +109,12 @@ func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKe
 func (b *Builder) processV3(sessionRecord *record.Session,
 	message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
+	// The version of the outer message is not authenticated, and the enclosed
+	// message can only be decrypted by a session of the current version.
+	if message.MessageVersion() != protocol.CurrentVersion {
+		return nil, errors.New(wrongVersionError)
+	}
+
 	logger.Debug("Processing message with PreKeyID: ", message.PreKeyID())
 	// Check to see if we've already set up a session for this V3 message.
 	sessionExists := sessionRecord.HasSessionState(
-- 
2.43.0


From dfdf640c79224ca1a0e393abcb32814076c1ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 07/29] fix: a message that fails to authenticate changes the
 session that it was tried on

---
 session/cipher.go             |  6 ++++++
 state/record/state_chain.go   |  9 +++++++++
 state/record/state_session.go | 15 +++++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..f5027d9 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -247,6 +247,11 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 		return nil, nil, errors.New(err)
 	}
 
+	// Work on a copy of the state, so that a message that can't be authenticated
+	// or decrypted leaves the session as it was.
+	originalState := sessionState
+	sessionState = originalState.Copy()
+
 	messageVersion := ciphertextMessage.MessageVersion()
 	theirEphemeral := ciphertextMessage.SenderRatchetKey()
 	counter := ciphertextMessage.Counter()
@@ -274,6 +279,7 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 	}
 
 	sessionState.ClearUnackPreKeyMessage()
+	*originalState = *sessionState
 
 	return plaintext, messageKeys, nil
 }
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..069255a 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -130,6 +130,15 @@ func (c *Chain) PopFirstMessageKeys() *message.Keys {
 	return removed
 }
 
+// copy returns a copy of the chain, which can be changed without changing
+// this one.
+func (c *Chain) copy() *Chain {
+	chainCopy := *c
+	chainCopy.messageKeys = append([]*message.Keys{}, c.messageKeys...)
+
+	return &chainCopy
+}
+
 // structure returns a serializeable structure of the chain state.
 func (c *Chain) structure() *ChainStructure {
 	// Alias to ArrayToSlice
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..e358f07 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -492,6 +492,21 @@ func (s *State) LocalRegistrationID() uint32 {
 	return s.localRegistrationID
 }
 
+// Copy returns a copy of the session state, which can be changed without
+// changing this one.
+func (s *State) Copy() *State {
+	stateCopy := *s
+	stateCopy.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		stateCopy.receiverChains[i] = s.receiverChains[i].copy()
+	}
+	if s.senderChain != nil {
+		stateCopy.senderChain = s.senderChain.copy()
+	}
+
+	return &stateCopy
+}
+
 // Serialize will return the state as bytes using the given serializer.
 func (s *State) Serialize() []byte {
 	return s.serializer.Serialize(s.structure())
-- 
2.43.0


From 87c3b0d7d01ed88d13586f2432715998220fe585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 08/29] fix: promoting an archived session leaves a stale copy
 of it behind and can drop another

---
 session/cipher.go       | 3 +--
 state/record/session.go | 8 ++++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index f5027d9..48b8e53 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -209,7 +209,7 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 	// through all previous states.
 	if err != nil {
 		logger.Warning(err)
-		for i, state := range previousStates {
+		for _, state := range previousStates {
 			// Try decrypting the message with previous states
 			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
 			if err != nil {
@@ -217,7 +217,6 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 			}
 
 			// If successful, remove and promote the state.
-			previousStates = append(previousStates[:i], previousStates[i+1:]...)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..211cd19 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -155,6 +155,14 @@ func (r *Session) ArchiveCurrentState() {
 // PromoteState takes the given session state and replaces it with the
 // current state, pushing the previous current state to "previousStates".
 func (r *Session) PromoteState(promotedState *State) {
+	// The promoted state must not stay behind in the list of previous states.
+	for i, state := range r.previousStates {
+		if state == promotedState {
+			r.previousStates = append(r.previousStates[:i:i], r.previousStates[i+1:]...)
+			break
+		}
+	}
+
 	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
 	r.sessionState = promotedState
 
-- 
2.43.0


From 50581ba154a073fa3b59bd9ca4daf910922f205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 09/29] fix: a forged prekey message replaces the stored
 session and the trusted identity

---
 session/cipher.go       |  8 +++++---
 session/session.go      | 25 ++++++++++++++++---------
 state/record/session.go | 13 +++++++++++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index 48b8e53..aec870a 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -165,9 +165,10 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
-	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
-	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
+	// Load or create session record for this session. Work on a copy, as the
+	// store's record must not change if the message can't be decrypted.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
+	unsignedPreKeyID, err := d.builder.process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -175,6 +176,7 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if !unsignedPreKeyID.IsEmpty {
diff --git a/session/session.go b/session/session.go
index ba9c8f8..f41fc2a 100644
--- a/session/session.go
+++ b/session/session.go
@@ -84,25 +84,32 @@ type Builder struct {
 // key signal message.
 func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
 
-	// Check to see if the keys are trusted.
-	theirIdentityKey := message.IdentityKey()
-	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
-		return nil, errors.New(untrustedIdentityError)
-	}
-
-	// Use version 3 of the signal/axolotl protocol.
-	unsignedPreKeyID, err = b.processV3(sessionRecord, message)
+	unsignedPreKeyID, err = b.process(sessionRecord, message)
 	if err != nil {
 		return nil, err
 	}
 
 	// Save the identity key to our identity store.
-	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
+	b.identityKeyStore.SaveIdentity(b.remoteAddress, message.IdentityKey())
 
 	// Return the unsignedPreKeyID
 	return unsignedPreKeyID, nil
 }
 
+// process does the work of Process, without saving the identity key: nothing
+// vouches for it until the enclosed message has been authenticated.
+func (b *Builder) process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
+
+	// Check to see if the keys are trusted.
+	theirIdentityKey := message.IdentityKey()
+	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
+		return nil, errors.New(untrustedIdentityError)
+	}
+
+	// Use version 3 of the signal/axolotl protocol.
+	return b.processV3(sessionRecord, message)
+}
+
 // ProcessV3 builds a new session from a session record and pre key
 // signal message. After a session is constructed in this way, the embedded
 // SignalMessage can be decrypted.
diff --git a/state/record/session.go b/state/record/session.go
index 211cd19..f6d57af 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -172,6 +172,19 @@ func (r *Session) PromoteState(promotedState *State) {
 	}
 }
 
+// Copy returns a copy of the session record, which can be changed without
+// changing this one.
+func (r *Session) Copy() *Session {
+	recordCopy := *r
+	recordCopy.sessionState = r.sessionState.Copy()
+	recordCopy.previousStates = make([]*State, len(r.previousStates))
+	for i := range r.previousStates {
+		recordCopy.previousStates[i] = r.previousStates[i].Copy()
+	}
+
+	return &recordCopy
+}
+
 // Serialize will return the session as serialized bytes so it can be
 // persistently stored.
 func (r *Session) Serialize() []byte {
-- 
2.43.0


From 22aa1ceef8a9b030cb02a5a0e777dc3ae76e3171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 10/29] fix: a new session in a record that was never reloaded
 overwrites the previous session

---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index f6d57af..45100e6 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -111,7 +111,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From 66dc768d23e2e4875f625452e59732d146fb3e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 11/29] fix: the previous counter underflows when the previous
 sending chain is unused

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index aec870a..04b6d04 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -346,7 +346,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From 1a7eb0ac0097c74e2325708e367ce6ce23ef1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 12/29] fix: prekey and signed prekey records read back from
 bytes have a wrong public key

---
 state/record/prekey.go        | 5 ++++-
 state/record/signed_prekey.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..d8f8aa8 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,10 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..71a8875 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,10 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	publicKey, err := ecc.DecodePoint(structure.PublicKey, 0)
+	if err != nil {
+		return nil, err
+	}
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From 32db060201b292637ad7f7b54d07abbae0cb5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 13/29] fix: a reloaded sender key record gains a zero signing
 key and loses its state serializer

---
 groups/state/record/sender_key.go       | 1 +
 groups/state/record/state_sender_key.go | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..9d4aa64 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,11 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	// Only the owner of the sender key has the private signing key.
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) > 0 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From e3d224d4f62bc6ffdea3e181d970fac521fe8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 14/29] fix: group encryption and decryption panic without a
 usable sender key

---
 groups/cipher.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..f21c5a3 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,10 +37,16 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
 	}
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("Sender key can't be used for sending: " + c.senderKeyID.GroupID())
+	}
 
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
@@ -73,7 +79,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From 2e9be9ae3444a72e27c1fca72915a9331de57280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 15/29] fix: provisioning decryption panics on malformed
 envelopes

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..edaf1ae 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage is too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From 09d5248167ce76edb8a7f58289cb3b8e98d49c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 16/29] fix: a symmetric session fails when the base keys share
 their first bytes

---
 ratchet/ratchet.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..56ffe69 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -190,8 +190,5 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 // be calculated as the sender or receiver. It does so by converting the given
 // keys into integers and comparing the size of those integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From 43fedaf2acdd68f1a486a6b29c8fe8da0a6729a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 17/29] fix: reading back an incomplete session or sender key
 record panics

---
 groups/state/record/state_sender_key.go | 9 +++++++++
 state/record/state_chain.go             | 9 +++++++++
 state/record/state_session.go           | 6 ++++++
 3 files changed, 24 insertions(+)

diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 9d4aa64..41fedeb 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
 	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
@@ -62,6 +64,10 @@ func NewSenderKeyStateFromPublicKey(keyID uint32, iteration uint32, chainKey []b
 func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	serializer SenderKeyStateSerializer) (*SenderKeyState, error) {
 
+	if structure == nil || structure.SenderChainKey == nil {
+		return nil, errors.New("Sender key state is incomplete")
+	}
+
 	// Convert our ecc keys from bytes into object form.
 	signingKeyPublic, err := ecc.DecodePoint(structure.SigningKeyPublic, 0)
 	if err != nil {
@@ -76,6 +82,9 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
 	for i := range structure.Keys {
+		if structure.Keys[i] == nil {
+			return nil, errors.New("Sender message key is missing")
+		}
 		senderMessageKeys[i] = ratchet.NewSenderMessageKeyFromStruct(structure.Keys[i])
 	}
 
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index 069255a..0d8f0fe 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"errors"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -36,6 +38,10 @@ func NewChain(senderRatchetKeyPair *ecc.ECKeyPair, chainKey *chain.Key,
 // NewChainFromStructure will return a new Chain with the given
 // chain structure.
 func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
+	if structure == nil || structure.ChainKey == nil {
+		return nil, errors.New("Session chain is incomplete")
+	}
+
 	// Alias to SliceToArray
 	getArray := bytehelper.SliceToArray
 
@@ -53,6 +59,9 @@ func NewChainFromStructure(structure *ChainStructure) (*Chain, error) {
 	// Build our message keys from the message key structures.
 	messageKeys := make([]*message.Keys, len(structure.MessageKeys))
 	for i := range structure.MessageKeys {
+		if structure.MessageKeys[i] == nil {
+			return nil, errors.New("Session message key is missing")
+		}
 		messageKeys[i] = message.NewKeysFromStruct(structure.MessageKeys[i])
 	}
 
diff --git a/state/record/state_session.go b/state/record/state_session.go
index e358f07..4f7f0fa 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -1,6 +1,8 @@
 package record
 
 import (
+	"fmt"
+
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
 	"github.com/prospik/libsignal-protocol-go/keys/chain"
@@ -44,6 +46,10 @@ func NewState(serializer StateSerializer) *State {
 // NewStateFromStructure will return a new session state with the
 // given state structure.
 func NewStateFromStructure(structure *StateStructure, serializer StateSerializer) (*State, error) {
+	if structure == nil {
+		return nil, fmt.Errorf("Session state is missing")
+	}
+
 	// Keep a list of errors, so they can be handled once.
 	errors := errorhelper.NewMultiError()
 
-- 
2.43.0


From 6ae14c2a8dee7ba8b8034317d3c111f254406caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 18/29] fix: the last resort prekey does not have the id that
 keeps it from being removed

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From 5b2953c69620f19fd47209ec6081656c4e2ecef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 19/29] fix: registration ids are outside of the documented
 range of 1 to 16380

---
 util/keyhelper/key.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index e7c696b..2247033 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -4,6 +4,7 @@ package keyhelper
 import (
 	"crypto/rand"
 	"encoding/binary"
+	"math/big"
 	"time"
 
 	"github.com/RadicalApp/complete"
@@ -85,10 +86,13 @@ func GenerateSignedPreKey(identityKeyPair *identity.KeyPair, signedPreKeyID uint
 // GenerateRegistrationID generates a registration ID. Clients should only do
 // this once, at install time.
 func GenerateRegistrationID() uint32 {
-	var n uint32
-	binary.Read(rand.Reader, binary.LittleEndian, &n)
+	// Registration ids are between 1 and 16380.
+	n, err := rand.Int(rand.Reader, big.NewInt(16380))
+	if err != nil {
+		panic("Unable to generate registration id: " + err.Error())
+	}
 
-	return n
+	return uint32(n.Int64()) + 1
 }
 
 //---------- Group Stuff ----------------
@@ -104,7 +108,10 @@ func GenerateSenderKey() []byte {
 }
 
 func GenerateSenderKeyID() uint32 {
-	return GenerateRegistrationID()
+	var n uint32
+	binary.Read(rand.Reader, binary.LittleEndian, &n)
+
+	return n
 }
 
 //---------- End Group Stuff --------------
-- 
2.43.0


From 73aee4eecf9dcfbeaead76cef3dec00edcd46dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 20/29] fix: prekeys beyond the first batch cannot be generated

---
 util/keyhelper/key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 2247033..3ceadbf 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -49,7 +49,7 @@ func GenerateIdentityKeyPairAsync(completion complete.Completionable) {
 func GeneratePreKeys(start int, count int, serializer record.PreKeySerializer) ([]*record.PreKey, error) {
 	var preKeys []*record.PreKey
 
-	for i := start; i <= count; i++ {
+	for i := start; i < start+count; i++ {
 		key, err := ecc.GenerateKeyPair()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From c5dc1600239bcb448fea94bb65275d0919092c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 21/29] fix: concurrent use of independent sessions races on
 the default logger

---
 logger/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index e3a85ae..b5200bd 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -9,7 +9,8 @@ import (
 )
 
 // Logger is a shared loggable interface that this library will use for all log messages.
-var Logger Loggable
+// It is initialized up front, as sessions may be used concurrently.
+var Logger Loggable = &defaultLogger{namespaces: []string{"all"}}
 
 // Loggable is an interface for logging.
 type Loggable interface {
-- 
2.43.0


From 5ecbcded056e64c4d3796ce5f3c56511984e495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 22/29] fix: encrypting without a session panics

---
 session/cipher.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 04b6d04..e8844d9 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
-- 
2.43.0


From d3dcac48e773d6e2182917b2eed637f26ab8a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 23/29] fix: decrypting a prekey message with a cipher that has
 no session builder panics

---
 session/cipher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index e8844d9..de85913 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -168,6 +168,11 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
+	// Without a builder there are no keys to set up a session with.
+	if d.builder == nil {
+		return nil, nil, errors.New("No session builder for: " + d.remoteAddress.String())
+	}
+
 	// Load or create session record for this session. Work on a copy, as the
 	// store's record must not change if the message can't be decrypted.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
-- 
2.43.0


From 6090c65f51b2b1664a9eeb88c771576cbbe8add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 24/29] fix: a group message that can't be decrypted changes
 the sender key

---
 groups/cipher.go                        |  6 ++++++
 groups/state/record/state_sender_key.go | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/groups/cipher.go b/groups/cipher.go
index f21c5a3..685fad3 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -95,6 +95,11 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, errors.New("Sender Key State failed verification with given pub key!")
 	}
 
+	// Work on a copy of the state, so that a message that can't be decrypted
+	// leaves the sender key as it was.
+	originalState := senderKeyState
+	senderKeyState = originalState.Copy()
+
 	senderKey, err := c.getSenderKey(senderKeyState, senderKeyMessage.Iteration())
 	if err != nil {
 		return nil, err
@@ -107,6 +112,7 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 	}
 
 	// Store the sender key by id.
+	*originalState = *senderKeyState
 	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
 
 	return plaintext, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 41fedeb..d2662d4 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -171,6 +171,16 @@ func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.Sende
 	return nil
 }
 
+// Copy returns a copy of the state, which can be changed without changing
+// this one.
+func (k *SenderKeyState) Copy() *SenderKeyState {
+	stateCopy := *k
+	stateCopy.keys = make([]*ratchet.SenderMessageKey, len(k.keys))
+	copy(stateCopy.keys, k.keys)
+
+	return &stateCopy
+}
+
 // Serialize will return the state as bytes using the given serializer.
 func (k *SenderKeyState) Serialize() []byte {
 	return k.serializer.Serialize(k.structure())
-- 
2.43.0


From f75253de541b22e1fee3a7f3dedbbfd1922e037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 25/29] fix: a message of another session in a forged prekey
 message uses up a one-time prekey

---
 session/cipher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index de85913..e2282a1 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -1,6 +1,7 @@
 package session
 
 import (
+	"bytes"
 	"errors"
 	"strconv"
 
@@ -184,6 +185,11 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+	// The enclosed message must belong to the session that the prekey message
+	// establishes, or any message could use up a prekey that it names.
+	if !bytes.Equal(sessionRecord.SessionState().SenderBaseKey(), ciphertextMessage.BaseKey().Serialize()) {
+		return nil, nil, errors.New("Message is not of the session that it establishes!")
+	}
 	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
-- 
2.43.0


From d19a4e3f7b5cfd755bdc449d3f8f9bbeb2405c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 26/29] fix: a failing random source while processing a bundle
 loses the current session

---
 session/session.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/session/session.go b/session/session.go
index f41fc2a..2bdd1f8 100644
--- a/session/session.go
+++ b/session/session.go
@@ -231,13 +231,7 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 	parameters.SetTheirRatchetKey(theirSignedPreKey)
 	parameters.SetTheirOneTimePreKey(theirOneTimePreKey)
 
-	// If this is a fresh record, archive our current state.
-	if !sessionRecord.IsFresh() {
-		sessionRecord.ArchiveCurrentState()
-	}
-
 	///////// Initialize our session /////////
-	sessionState := sessionRecord.SessionState()
 	derivedKeys, sessionErr := ratchet.CalculateSenderSession(parameters)
 	if sessionErr != nil {
 		return sessionErr
@@ -256,7 +250,14 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 		return chainErr
 	}
 
+	// If this is a fresh record, archive our current state. Nothing can fail
+	// from here on, so the current session is not lost without a new one.
+	if !sessionRecord.IsFresh() {
+		sessionRecord.ArchiveCurrentState()
+	}
+
 	// Calculate the sender session.
+	sessionState := sessionRecord.SessionState()
 	sessionState.SetVersion(protocol.CurrentVersion)
 	sessionState.SetRemoteIdentityKey(parameters.TheirIdentityKey())
 	sessionState.SetLocalIdentityKey(parameters.OurIdentityKey().PublicKey())
-- 
2.43.0


From 47e669313c7bd9b2820d37620bcc553e2c6f90f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 27/29] fix: processing a distribution message again makes past
 group messages readable again

---
 groups/state/record/sender_key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 3507815..9bbb805 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -109,6 +109,14 @@ func (k *SenderKey) IsEmpty() bool {
 func (k *SenderKey) AddSenderKeyState(id uint32, iteration uint32,
 	chainKey []byte, signatureKey ecc.ECPublicKeyable) {
 
+	// Keep the state of a sender key that is already known. Starting over from
+	// the given chain key would make its past messages readable again.
+	for _, state := range k.senderKeyStates {
+		if state.KeyID() == id && state.SigningKey().PublicKey().PublicKey() == signatureKey.PublicKey() {
+			return
+		}
+	}
+
 	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
 	k.senderKeyStates = append(k.senderKeyStates, newState)
 
-- 
2.43.0


From 9f5dbcb6a955166caffb75430ab10639237de9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 28/29] fix: a session record whose current session was
 archived cannot be stored

---
 state/record/session.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/state/record/session.go b/state/record/session.go
index 45100e6..9edc79e 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -56,10 +56,15 @@ func NewSessionFromStructure(structure *SessionStructure, serializer SessionSeri
 		}
 	}
 
-	// Build our current state from structure.
-	sessionState, err := NewStateFromStructure(structure.SessionState, stateSerializer)
-	if err != nil {
-		return nil, err
+	// Build our current state from structure. There is none if the current
+	// state was archived.
+	sessionState := NewState(stateSerializer)
+	if structure.SessionState != nil {
+		var err error
+		sessionState, err = NewStateFromStructure(structure.SessionState, stateSerializer)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Build and return our session.
@@ -163,7 +168,10 @@ func (r *Session) PromoteState(promotedState *State) {
 		}
 	}
 
-	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
+	// A state that was never initialized is not worth keeping.
+	if r.sessionState.HasSenderChain() {
+		r.previousStates = r.prependStates(r.previousStates, r.sessionState)
+	}
 	r.sessionState = promotedState
 
 	// Remove the last state if it has reached our maximum length
@@ -211,8 +219,12 @@ func (r *Session) structure() *SessionStructure {
 	for i := range r.previousStates {
 		previousStates[i] = r.previousStates[i].structure()
 	}
-	return &SessionStructure{
-		SessionState:   r.sessionState.structure(),
+	structure := &SessionStructure{
 		PreviousStates: previousStates,
 	}
+	// There is no current state if it was archived.
+	if r.sessionState.HasSenderChain() {
+		structure.SessionState = r.sessionState.structure()
+	}
+	return structure
 }
-- 
2.43.0


From 2edcb2da89634b5c49ac5880e3780eb20eb053f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 29/29] fix: a session record without the sender's private
 ratchet key is accepted and panics later

---
 state/record/state_session.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/record/state_session.go b/state/record/state_session.go
index 4f7f0fa..6687956 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -67,6 +67,9 @@ func NewStateFromStructure(structure *StateStructure, serializer StateSerializer
 	}
 	senderChain, err := NewChainFromStructure(structure.SenderChain)
 	errors.Add(err)
+	if err == nil && senderChain.SenderRatchetKey().PrivateKey() == nil {
+		errors.Add(fmt.Errorf("Session sender chain has no private key"))
+	}
 
 	// Build our receiver chains from structure.
 	receiverChains := make([]*Chain, len(structure.ReceiverChains))
-- 
2.43.0

