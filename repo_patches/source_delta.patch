From 0ab56e0de761cfe16d67caf1cd3ef8f64c7114b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 01/23] fix: leave the session state untouched when a message
 fails to authenticate

Decrypting ratcheted the state, advanced chains and removed skipped message
keys before the MAC was checked, so a forged message (or a message meant for
an archived state) corrupted the session it was tried on.
---
 session/cipher.go             |  6 ++++++
 state/record/state_chain.go   |  5 +++++
 state/record/state_session.go | 14 ++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index e510317..a452c2a 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -247,6 +247,11 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 		return nil, nil, errors.New(err)
 	}
 
+	// Work on a copy of the state, and only commit it once the message has been
+	// authenticated and decrypted.
+	committedState := sessionState
+	sessionState = committedState.Copy()
+
 	messageVersion := ciphertextMessage.MessageVersion()
 	theirEphemeral := ciphertextMessage.SenderRatchetKey()
 	counter := ciphertextMessage.Counter()
@@ -274,6 +279,7 @@ func (d *Cipher) DecryptWithState(sessionState *record.State, ciphertextMessage
 	}
 
 	sessionState.ClearUnackPreKeyMessage()
+	*committedState = *sessionState
 
 	return plaintext, messageKeys, nil
 }
diff --git a/state/record/state_chain.go b/state/record/state_chain.go
index c7a3bf0..52090f0 100644
--- a/state/record/state_chain.go
+++ b/state/record/state_chain.go
@@ -130,6 +130,11 @@ func (c *Chain) PopFirstMessageKeys() *message.Keys {
 	return removed
 }
 
+// copy returns a chain that can be changed without changing this one.
+func (c *Chain) copy() *Chain {
+	return NewChain(c.senderRatchetKeyPair, c.chainKey, append([]*message.Keys{}, c.messageKeys...))
+}
+
 // structure returns a serializeable structure of the chain state.
 func (c *Chain) structure() *ChainStructure {
 	// Alias to ArrayToSlice
diff --git a/state/record/state_session.go b/state/record/state_session.go
index 0ff89a7..6e979da 100644
--- a/state/record/state_session.go
+++ b/state/record/state_session.go
@@ -492,6 +492,20 @@ func (s *State) LocalRegistrationID() uint32 {
 	return s.localRegistrationID
 }
 
+// Copy returns a session state that can be changed without changing this one.
+func (s *State) Copy() *State {
+	state := *s
+	if s.senderChain != nil {
+		state.senderChain = s.senderChain.copy()
+	}
+	state.receiverChains = make([]*Chain, len(s.receiverChains))
+	for i := range s.receiverChains {
+		state.receiverChains[i] = s.receiverChains[i].copy()
+	}
+
+	return &state
+}
+
 // Serialize will return the state as bytes using the given serializer.
 func (s *State) Serialize() []byte {
 	return s.serializer.Serialize(s.structure())
-- 
2.43.0


From 3884381eac7ddf259f1e72e5bf2babbeb09f3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/23] fix: do not replace the stored session when building a
 new one fails

A prekey message that failed to decrypt, or a bundle whose processing failed
half way, had already archived and overwritten the current state of the record
held by a store that hands out its own record.
---
 session/cipher.go       |  3 ++-
 session/session.go      |  5 +++--
 state/record/session.go | 12 ++++++++++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index a452c2a..1833baa 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -166,7 +166,8 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
 	// Load or create session record for this session.
-	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
+	// The store may hand out its own record, so change it only by storing the result.
+	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
 	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
diff --git a/session/session.go b/session/session.go
index 418b8a9..221d88e 100644
--- a/session/session.go
+++ b/session/session.go
@@ -193,8 +193,9 @@ func (b *Builder) ProcessBundle(preKey *prekey.Bundle) error {
 		return errors.New(invalidSignatureError)
 	}
 
-	// Load our session and generate keys.
-	sessionRecord := b.sessionStore.LoadSession(b.remoteAddress)
+	// Load our session and generate keys. The store may hand out its own record,
+	// so change it only by storing the result.
+	sessionRecord := b.sessionStore.LoadSession(b.remoteAddress).Copy()
 	ourBaseKey, err := ecc.GenerateKeyPair()
 	if err != nil {
 		return err
diff --git a/state/record/session.go b/state/record/session.go
index b0bd415..bc35607 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -102,6 +102,18 @@ type Session struct {
 	fresh          bool
 }
 
+// Copy returns a session record that can be changed without changing this one.
+func (r *Session) Copy() *Session {
+	record := *r
+	record.sessionState = r.sessionState.Copy()
+	record.previousStates = make([]*State, len(r.previousStates))
+	for i := range r.previousStates {
+		record.previousStates[i] = r.previousStates[i].Copy()
+	}
+
+	return &record
+}
+
 // SetState sets the session record's current state to the given
 // one.
 func (r *Session) SetState(sessionState *State) {
-- 
2.43.0


From 65716b8b713b7d0bc88f249128e242090ce65264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 03/23] fix: remove an archived session state from the archive
 when it is promoted

The record kept the promoted state in its list of previous states as well, so
after a reload a stale copy of it accepted the same messages a second time.
---
 session/cipher.go       | 1 +
 state/record/session.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 1833baa..99cae64 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -219,6 +219,7 @@ func (d *Cipher) DecryptWithRecord(sessionRecord *record.Session, ciphertext *pr
 
 			// If successful, remove and promote the state.
 			previousStates = append(previousStates[:i], previousStates[i+1:]...)
+			sessionRecord.SetPreviousSessionStates(previousStates)
 			sessionRecord.PromoteState(state)
 
 			return plaintext, messageKeys, nil
diff --git a/state/record/session.go b/state/record/session.go
index bc35607..f5852f7 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -138,6 +138,12 @@ func (r *Session) PreviousSessionStates() []*State {
 	return r.previousStates
 }
 
+// SetPreviousSessionStates sets the list of all currently maintained
+// "previous" session states.
+func (r *Session) SetPreviousSessionStates(previousStates []*State) {
+	r.previousStates = previousStates
+}
+
 // HasSessionState will check this record to see if the sender's
 // base key exists in the current and previous states.
 func (r *Session) HasSessionState(version int, senderBaseKey []byte) bool {
-- 
2.43.0


From 6d1e8594c4e47c9f215891ba55960c07f270681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 04/23] fix: archive the first session of a record that was
 created in memory

A record made by NewSession stayed fresh after a session was built in it, so
with a store that keeps records as objects the second session was mixed into
the first one instead of archiving it.
---
 state/record/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/record/session.go b/state/record/session.go
index f5852f7..8f5e15d 100644
--- a/state/record/session.go
+++ b/state/record/session.go
@@ -123,7 +123,7 @@ func (r *Session) SetState(sessionState *State) {
 // IsFresh is used to determine if this is a brand new session
 // or if a session record has already existed.
 func (r *Session) IsFresh() bool {
-	return r.fresh
+	return r.fresh && !r.sessionState.HasSenderChain()
 }
 
 // SessionState returns the session state object of the current
-- 
2.43.0


From b8956825130f67f872361328eaf311a76c8b834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 05/23] fix: support sessions that are set up without a
 one-time prekey

An absent prekey id crashed the serializer or the receiver, or was taken for
the prekey with id 0. The last resort prekey crashed the receiver too.
---
 serialize/proto.go | 5 ++++-
 session/cipher.go  | 2 +-
 session/session.go | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index dbfe4b8..49cc8e6 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -113,7 +113,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		Message:        signalMessage.Message,
 	}
 
-	if !signalMessage.PreKeyID.IsEmpty {
+	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
 		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value
 	}
 
@@ -147,6 +147,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (
 		Message:        sm.GetMessage(),
 		PreKeyID:       optional.NewOptionalUint32(sm.GetPreKeyId()),
 	}
+	if sm.PreKeyId == nil {
+		preKeySignalMessage.PreKeyID = optional.NewEmptyUint32()
+	}
 
 	return &preKeySignalMessage, nil
 }
diff --git a/session/cipher.go b/session/cipher.go
index 99cae64..56c95b4 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -178,7 +178,7 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	}
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
-	if !unsignedPreKeyID.IsEmpty {
+	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
 		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
 	}
 	return plaintext, keys, nil
diff --git a/session/session.go b/session/session.go
index 221d88e..48330b4 100644
--- a/session/session.go
+++ b/session/session.go
@@ -132,7 +132,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Set our one time pre key with the one from our prekey store
 	// if the message contains a valid pre key id
-	if message.PreKeyID() != nil {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty {
 		oneTimePreKey := b.preKeyStore.LoadPreKey(message.PreKeyID().Value)
 		if oneTimePreKey == nil {
 			logger.Error(nilOneTimePreKeyError)
@@ -166,7 +166,7 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 	sessionState.SetSenderBaseKey(message.BaseKey().Serialize())
 
 	// Remove the PreKey from our store and return the message prekey id if it is valid.
-	if message.PreKeyID() != nil && message.PreKeyID().Value != medium.MaxValue {
+	if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty && message.PreKeyID().Value != medium.MaxValue {
 		return message.PreKeyID(), nil
 	}
 	return nil, nil
-- 
2.43.0


From 8d0ed62effab1f95a701855622b597e5867a447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 06/23] fix: reject a prekey message that names an unknown
 signed prekey

It crashed the receiver.
---
 session/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session/session.go b/session/session.go
index 48330b4..c6cfafc 100644
--- a/session/session.go
+++ b/session/session.go
@@ -120,6 +120,10 @@ func (b *Builder) processV3(sessionRecord *record.Session,
 
 	// Load our signed prekey from our signed prekey store.
 	ourSignedPreKeyRecord := b.signedPreKeyStore.LoadSignedPreKey(message.SignedPreKeyID())
+	if ourSignedPreKeyRecord == nil {
+		logger.Error(noSignedPreKeyError)
+		return nil, errors.New(noSignedPreKeyError)
+	}
 	ourSignedPreKey := ourSignedPreKeyRecord.KeyPair()
 
 	// Build the parameters of the session.
-- 
2.43.0


From f74e010a5c08cbee3c6f256a08810fff331ed129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 07/23] fix: do not underflow the previous counter of an unused
 sending chain

---
 session/cipher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/cipher.go b/session/cipher.go
index 56c95b4..ab7c989 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -347,7 +347,7 @@ func getOrCreateChainKey(sessionState *record.State, theirEphemeral ecc.ECPublic
 	// Set our session state parameters.
 	sessionState.SetRootKey(senderChain.RootKey)
 	sessionState.AddReceiverChain(theirEphemeral, receiverChain.ChainKey)
-	previousCounter := max(sessionState.SenderChainKey().Index()-1, 0)
+	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
 	sessionState.SetPreviousCounter(previousCounter)
 	sessionState.SetSenderChain(ourNewEphemeral, senderChain.ChainKey)
 
-- 
2.43.0


From 202c045a0deb93c7022a808182675340e364b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 08/23] fix: save the sender's identity only once its prekey
 message is authenticated

A prekey message that failed to decrypt, or a tampered copy of one that
belongs to an existing session, could plant an identity key of its choice.
---
 session/cipher.go  |  4 +++-
 session/session.go | 26 ++++++++++++++++----------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/session/cipher.go b/session/cipher.go
index ab7c989..1cd8bf9 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -168,7 +168,7 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	// Load or create session record for this session.
 	// The store may hand out its own record, so change it only by storing the result.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
-	unsignedPreKeyID, err := d.builder.Process(sessionRecord, ciphertextMessage)
+	unsignedPreKeyID, err := d.builder.process(sessionRecord, ciphertextMessage)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -176,6 +176,8 @@ func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySigna
 	if err != nil {
 		return nil, nil, err
 	}
+	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
+
 	// Store the session record in our session store.
 	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
 	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
diff --git a/session/session.go b/session/session.go
index c6cfafc..92a3c31 100644
--- a/session/session.go
+++ b/session/session.go
@@ -81,26 +81,32 @@ type Builder struct {
 // Process builds a new session from a session record and pre
 // key signal message.
 func (b *Builder) Process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
-
-	// Check to see if the keys are trusted.
-	theirIdentityKey := message.IdentityKey()
-	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
-		return nil, errors.New(untrustedIdentityError)
-	}
-
-	// Use version 3 of the signal/axolotl protocol.
-	unsignedPreKeyID, err = b.processV3(sessionRecord, message)
+	unsignedPreKeyID, err = b.process(sessionRecord, message)
 	if err != nil {
 		return nil, err
 	}
 
 	// Save the identity key to our identity store.
-	b.identityKeyStore.SaveIdentity(b.remoteAddress, theirIdentityKey)
+	b.identityKeyStore.SaveIdentity(b.remoteAddress, message.IdentityKey())
 
 	// Return the unsignedPreKeyID
 	return unsignedPreKeyID, nil
 }
 
+// process builds a new session without saving the sender's identity key, which
+// is not known to be authentic until the embedded SignalMessage is decrypted.
+func (b *Builder) process(sessionRecord *record.Session, message *protocol.PreKeySignalMessage) (unsignedPreKeyID *optional.Uint32, err error) {
+
+	// Check to see if the keys are trusted.
+	theirIdentityKey := message.IdentityKey()
+	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
+		return nil, errors.New(untrustedIdentityError)
+	}
+
+	// Use version 3 of the signal/axolotl protocol.
+	return b.processV3(sessionRecord, message)
+}
+
 // ProcessV3 builds a new session from a session record and pre key
 // signal message. After a session is constructed in this way, the embedded
 // SignalMessage can be decrypted.
-- 
2.43.0


From 7362cb690476f728c913050682554cefc443f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 09/23] fix: reject public keys that are too short to hold a
 key

An empty one crashed, a truncated one was silently padded with zeros.
---
 ecc/curve.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/curve.go b/ecc/curve.go
index af2ee36..43f5adf 100644
--- a/ecc/curve.go
+++ b/ecc/curve.go
@@ -4,6 +4,7 @@ import (
 	"crypto/rand"
 	"errors"
 	"io"
+	"strconv"
 
 	"github.com/RadicalApp/complete"
 	"golang.org/x/crypto/curve25519"
@@ -18,6 +19,9 @@ const DjbType = 0x05
 // This is used to check the byte at the given offset in the byte array for a special
 // "type" byte that will determine the key type. Currently only DJB EC keys are supported.
 func DecodePoint(bytes []byte, offset int) (ECPublicKeyable, error) {
+	if len(bytes) < offset+KeySize {
+		return nil, errors.New("Bad key length: " + strconv.Itoa(len(bytes)-offset))
+	}
 	keyType := bytes[offset] & 0xFF
 
 	switch keyType {
-- 
2.43.0


From 91911a14c8ac5f33cce2c99243c4f94ec7398da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 10/23] fix: return an error for an empty serialized message
 instead of crashing

---
 serialize/proto.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/serialize/proto.go b/serialize/proto.go
index 49cc8e6..29591b5 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -1,6 +1,7 @@
 package serialize
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -31,6 +32,9 @@ func NewProtoBufSerializer() *Serializer {
 	return serializer
 }
 
+// errEmptyMessage is returned for messages that lack even the version byte.
+var errEmptyMessage = errors.New("Empty message.")
+
 func highBitsToInt(value byte) int {
 	return int((value & 0xFF) >> 4)
 }
@@ -129,6 +133,9 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 
 // Deserialize will take in ProtoBuf bytes and return a prekey signal message structure.
 func (j *ProtoBufPreKeySignalMessageSerializer) Deserialize(serialized []byte) (*protocol.PreKeySignalMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errEmptyMessage
+	}
 	version := highBitsToInt(serialized[0])
 	message := serialized[1:]
 	var sm PreKeySignalMessage
@@ -181,6 +188,9 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 // Deserialize will take in ProtoBuf bytes and return a message structure, which can be
 // used to create a new SenderKey Distribution object.
 func (j *ProtoBufSenderKeyDistributionMessageSerializer) Deserialize(serialized []byte) (*protocol.SenderKeyDistributionMessageStructure, error) {
+	if len(serialized) == 0 {
+		return nil, errEmptyMessage
+	}
 	version := uint32(highBitsToInt(serialized[0]))
 	message := serialized[1:]
 
-- 
2.43.0


From 92e978ad426bb4c4224f40ac86b13652b18e0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 11/23] fix: do not crash on odd ciphertext lengths nor
 overwrite the caller's buffers

Decrypting worked in place, so a group message could be decrypted only once per
parsed message, and padding wrote into the spare capacity of the plaintext.
---
 cipher/cbc.go    | 12 +++++++++---
 cipher/cipher.go |  8 ++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/cipher/cbc.go b/cipher/cbc.go
index 6a6db5d..188c4dd 100644
--- a/cipher/cbc.go
+++ b/cipher/cbc.go
@@ -42,10 +42,16 @@ func DecryptCbc(iv, key, ciphertext []byte) ([]byte, error) {
 		ciphertext = ciphertext[aes.BlockSize:]
 	}
 
+	if len(ciphertext) == 0 || len(ciphertext)%aes.BlockSize != 0 {
+		return nil, fmt.Errorf("ciphertext is not a multiple of the block size: %d / %d", len(ciphertext), aes.BlockSize)
+	}
+
+	// Leave the caller's ciphertext as it is.
+	plaintext := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(plaintext, ciphertext)
 
-	return unpad(ciphertext)
+	return unpad(plaintext)
 }
 
 /*
@@ -86,7 +92,7 @@ func EncryptCbc(iv, key, plaintext []byte) ([]byte, error) {
 func pad(ciphertext []byte, blockSize int) []byte {
 	padding := blockSize - len(ciphertext)%blockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(ciphertext, padtext...)
+	return append(ciphertext[:len(ciphertext):len(ciphertext)], padtext...)
 }
 
 func unpad(src []byte) ([]byte, error) {
diff --git a/cipher/cipher.go b/cipher/cipher.go
index edfb428..939cebf 100644
--- a/cipher/cipher.go
+++ b/cipher/cipher.go
@@ -18,10 +18,14 @@ func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
 	if len(ciphertext) < aes.BlockSize {
 		return nil, errors.New("ciphertext too short")
 	}
+	if len(ciphertext)%aes.BlockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
+	paddedText := make([]byte, len(ciphertext))
 	cbc := cipher.NewCBCDecrypter(block, iv)
-	cbc.CryptBlocks(ciphertext, ciphertext)
+	cbc.CryptBlocks(paddedText, ciphertext)
 
-	unpaddedText, err := pkcs7Unpad(ciphertext, aes.BlockSize)
+	unpaddedText, err := pkcs7Unpad(paddedText, aes.BlockSize)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 6ece01b2d03e58a267ea225b731d97fc4e342761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 12/23] fix: return an error when there is no group session
 instead of crashing

---
 groups/cipher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index dd6c507..f7495e7 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -37,6 +37,9 @@ type GroupCipher struct {
 func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	// Load the sender key based on id from our store.
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
+	if keyRecord == nil {
+		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
+	}
 	senderKeyState, err := keyRecord.SenderKeyState()
 	if err != nil {
 		return nil, err
@@ -73,7 +76,7 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]byte, error) {
 	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
 
-	if keyRecord.IsEmpty() {
+	if keyRecord == nil || keyRecord.IsEmpty() {
 		return nil, errors.New("No sender key for: " + c.senderKeyID.GroupID())
 	}
 
-- 
2.43.0


From ba063354525cc7f25c1d4464075669fda49af761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 13/23] fix: keep a receiving group session a receiving one
 when it is stored

Loading it made up an all-zero signing key, which encrypting then signed with
(before it was stored, encrypting crashed), and lost the state serializer.
---
 groups/cipher.go                        | 5 +++++
 groups/state/record/sender_key.go       | 1 +
 groups/state/record/state_sender_key.go | 5 ++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/groups/cipher.go b/groups/cipher.go
index f7495e7..82942d5 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -45,6 +45,11 @@ func (c *GroupCipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, err
 		return nil, err
 	}
 
+	// A session that was set up for receiving has no key to sign with.
+	if senderKeyState.SigningKey().PrivateKey() == nil {
+		return nil, errors.New("No signing key for: " + c.senderKeyID.GroupID())
+	}
+
 	// Get the message key from the senderkey state.
 	senderKey, err := senderKeyState.SenderChainKey().SenderMessageKey()
 	if err != nil {
diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 7ba88de..3507815 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -45,6 +45,7 @@ func NewSenderKeyFromStruct(structure *SenderKeyStructure, serializer SenderKeyS
 	senderKey := &SenderKey{
 		senderKeyStates: senderKeyStates,
 		serializer:      serializer,
+		stateSerializer: stateSerializer,
 	}
 
 	return senderKey, nil
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 46f2414..8f7d8ed 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -67,7 +67,10 @@ func NewSenderKeyStateFromStructure(structure *SenderKeyStateStructure,
 	if err != nil {
 		return nil, err
 	}
-	signingKeyPrivate := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	var signingKeyPrivate ecc.ECPrivateKeyable
+	if len(structure.SigningKeyPrivate) == 32 {
+		signingKeyPrivate = ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.SigningKeyPrivate))
+	}
 
 	// Build our sender message keys from structure
 	senderMessageKeys := make([]*ratchet.SenderMessageKey, len(structure.Keys))
-- 
2.43.0


From 600a50f5cc69f7786353a49b401d4cbfc5e9fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 14/23] fix: restore the public key of stored prekeys and
 signed prekeys

The type byte of the serialized key was taken for the first byte of the key.
---
 state/record/prekey.go        | 7 ++++++-
 state/record/signed_prekey.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/state/record/prekey.go b/state/record/prekey.go
index 18db799..cc84500 100644
--- a/state/record/prekey.go
+++ b/state/record/prekey.go
@@ -34,7 +34,12 @@ func NewPreKeyFromStruct(structure *PreKeyStructure, serializer PreKeySerializer
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	// Records store the serialized key, which starts with its type.
+	publicKeyBytes := structure.PublicKey
+	if len(publicKeyBytes) == ecc.KeySize && publicKeyBytes[0] == ecc.DjbType {
+		publicKeyBytes = publicKeyBytes[1:]
+	}
+	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(publicKeyBytes))
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	preKey.keyPair = keyPair
diff --git a/state/record/signed_prekey.go b/state/record/signed_prekey.go
index 8c69dea..615925d 100644
--- a/state/record/signed_prekey.go
+++ b/state/record/signed_prekey.go
@@ -38,7 +38,12 @@ func NewSignedPreKeyFromStruct(structure *SignedPreKeyStructure,
 	}
 
 	// Generate the ECC key from bytes.
-	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(structure.PublicKey))
+	// Records store the serialized key, which starts with its type.
+	publicKeyBytes := structure.PublicKey
+	if len(publicKeyBytes) == ecc.KeySize && publicKeyBytes[0] == ecc.DjbType {
+		publicKeyBytes = publicKeyBytes[1:]
+	}
+	publicKey := ecc.NewDjbECPublicKey(bytehelper.SliceToArray(publicKeyBytes))
 	privateKey := ecc.NewDjbECPrivateKey(bytehelper.SliceToArray(structure.PrivateKey))
 	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
 	signedPreKey.keyPair = keyPair
-- 
2.43.0


From f6fbc928d162bfa0f46df66ff98360e23a43f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 15/23] fix: return an error for malformed provisioning
 envelopes instead of crashing

---
 provision/cipher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/provision/cipher.go b/provision/cipher.go
index ce5b104..b468045 100644
--- a/provision/cipher.go
+++ b/provision/cipher.go
@@ -49,11 +49,17 @@ func Decrypt(privateKey string, content string) (string, error) {
 		return "", err
 	}
 
-	publicKeyable, _ := ecc.DecodePoint(envelope.PublicKey, 0)
+	publicKeyable, err := ecc.DecodePoint(envelope.PublicKey, 0)
+	if err != nil {
+		return "", err
+	}
 	masterEphemeral := publicKeyable.PublicKey()
 	message := envelope.Body
+	if len(message) < 1+16+32 {
+		return "", fmt.Errorf("ProvisioningMessage is too short: %d", len(message))
+	}
 	if message[0] != 1 {
-		return "", fmt.Errorf("Bad version number on ProvisioningMessage %s", err.Error())
+		return "", fmt.Errorf("Bad version number on ProvisioningMessage: %d", message[0])
 	}
 
 	iv := message[1 : 16+1]
-- 
2.43.0


From b58defe0c475c25c9a9a538f5b08d9836ec19605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 16/23] fix: compare whole base keys to decide the roles of a
 symmetric session

Only the first three bytes counted, and when they were equal both users acted
as the receiver and did not agree on keys.
---
 ratchet/ratchet.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ratchet/ratchet.go b/ratchet/ratchet.go
index df96ca9..56ffe69 100644
--- a/ratchet/ratchet.go
+++ b/ratchet/ratchet.go
@@ -3,8 +3,8 @@
 package ratchet
 
 import (
+	"bytes"
 	"encoding/base64"
-	"encoding/binary"
 
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/kdf"
@@ -190,8 +190,5 @@ func CalculateSymmetricSession(parameters *SymmetricParameters) (*session.KeyPai
 // be calculated as the sender or receiver. It does so by converting the given
 // keys into integers and comparing the size of those integers.
 func isSender(ourKey, theirKey ecc.ECPublicKeyable) bool {
-	ourKeyInt := binary.BigEndian.Uint32(ourKey.Serialize())
-	theirKeyInt := binary.BigEndian.Uint32(theirKey.Serialize())
-
-	return ourKeyInt < theirKeyInt
+	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
 }
-- 
2.43.0


From 3e95814dc624e7b4cce2b1a83ec95fdaf53bf8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 17/23] fix: do not race to set up the default logger on first
 use

---
 logger/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logger/logger.go b/logger/logger.go
index e3a85ae..f98ab9b 100644
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -9,7 +9,7 @@ import (
 )
 
 // Logger is a shared loggable interface that this library will use for all log messages.
-var Logger Loggable
+var Logger Loggable = &defaultLogger{namespaces: []string{"all"}}
 
 // Loggable is an interface for logging.
 type Loggable interface {
-- 
2.43.0


From eb922dad4d4bafc73873f3b1ff347b18b973a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 18/23] fix: return an error instead of crashing when there is
 no session to use

---
 session/cipher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/session/cipher.go b/session/cipher.go
index 1cd8bf9..1b2139b 100644
--- a/session/cipher.go
+++ b/session/cipher.go
@@ -65,6 +65,9 @@ type Cipher struct {
 func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
 	sessionState := sessionRecord.SessionState()
+	if !sessionState.HasSenderChain() {
+		return nil, errors.New("No session for: " + d.remoteAddress.String())
+	}
 	chainKey := sessionState.SenderChainKey()
 	messageKeys := chainKey.MessageKeys()
 	senderEphemeral := sessionState.SenderRatchetKey()
@@ -165,6 +168,11 @@ func (d *Cipher) DecryptMessage(ciphertextMessage *protocol.PreKeySignalMessage)
 }
 
 func (d *Cipher) DecryptMessageReturnKey(ciphertextMessage *protocol.PreKeySignalMessage) ([]byte, *message.Keys, error) {
+	// A cipher made by NewCipherFromSession cannot set up sessions.
+	if d.builder == nil {
+		return nil, nil, errors.New("No session builder for: " + d.remoteAddress.String())
+	}
+
 	// Load or create session record for this session.
 	// The store may hand out its own record, so change it only by storing the result.
 	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
-- 
2.43.0


From 2402d81958aa733a8c54ebd868e3dfa36f72a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 19/23] fix: give the last resort prekey the id that is never
 removed

---
 util/keyhelper/key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/keyhelper/key.go b/util/keyhelper/key.go
index 93fb0f1..e7c696b 100644
--- a/util/keyhelper/key.go
+++ b/util/keyhelper/key.go
@@ -10,6 +10,7 @@ import (
 	"github.com/prospik/libsignal-protocol-go/ecc"
 	"github.com/prospik/libsignal-protocol-go/keys/identity"
 	"github.com/prospik/libsignal-protocol-go/state/record"
+	"github.com/prospik/libsignal-protocol-go/util/medium"
 )
 
 // GenerateIdentityKeyPair generates an identity keypair used for
@@ -66,7 +67,7 @@ func GenerateLastResortKey(serializer record.PreKeySerializer) (*record.PreKey,
 	if err != nil {
 		return nil, err
 	}
-	return record.NewPreKey(0, keyPair, serializer), nil
+	return record.NewPreKey(medium.MaxValue, keyPair, serializer), nil
 }
 
 // GenerateSignedPreKey generates a signed PreKey.
-- 
2.43.0


From 365452be737e082654055800dfad52eec5721dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 20/23] fix: keep a sender's group state when its key is
 distributed again

---
 groups/state/record/sender_key.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/groups/state/record/sender_key.go b/groups/state/record/sender_key.go
index 3507815..b9f9b5f 100644
--- a/groups/state/record/sender_key.go
+++ b/groups/state/record/sender_key.go
@@ -109,6 +109,13 @@ func (k *SenderKey) IsEmpty() bool {
 func (k *SenderKey) AddSenderKeyState(id uint32, iteration uint32,
 	chainKey []byte, signatureKey ecc.ECPublicKeyable) {
 
+	// A repeated distribution of a key we already have must not push out its state.
+	for _, state := range k.senderKeyStates {
+		if state.KeyID() == id && state.SigningKey().PublicKey().PublicKey() == signatureKey.PublicKey() {
+			return
+		}
+	}
+
 	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
 	k.senderKeyStates = append(k.senderKeyStates, newState)
 
-- 
2.43.0


From 2bbd9139183418a8aebfe7864e720e92aa22c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 21/23] fix: write the message version in the bits it is read
 from

The version byte holds the version in its high bits. Writing the decimal
digit instead made messages of version 2 parse as version 3.
---
 serialize/proto.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/serialize/proto.go b/serialize/proto.go
index 29591b5..a114ca9 100644
--- a/serialize/proto.go
+++ b/serialize/proto.go
@@ -2,8 +2,6 @@ package serialize
 
 import (
 	"errors"
-	"fmt"
-	"strconv"
 
 	proto "github.com/golang/protobuf/proto"
 
@@ -62,7 +60,7 @@ func (j *ProtoBufSignalMessageSerializer) Serialize(signalMessage *protocol.Sign
 	}
 
 	if signalMessage.Version != 0 {
-		serialized = append(serialized, []byte(strconv.Itoa(signalMessage.Version))...)
+		serialized = append(serialized, intsToByteHighAndLow(signalMessage.Version, protocol.CurrentVersion))
 	}
 	serialized = append(serialized, message...)
 
@@ -126,7 +124,7 @@ func (j *ProtoBufPreKeySignalMessageSerializer) Serialize(signalMessage *protoco
 		logger.Error("Error serializing prekey signal message: ", err)
 	}
 
-	serialized := append([]byte(strconv.Itoa(signalMessage.Version)), message...)
+	serialized := append([]byte{intsToByteHighAndLow(signalMessage.Version, protocol.CurrentVersion)}, message...)
 	logger.Debug("Serialize PreKeySignalMessage result: ", serialized)
 	return serialized
 }
@@ -179,8 +177,8 @@ func (j *ProtoBufSenderKeyDistributionMessageSerializer) Serialize(message *prot
 		logger.Error("Error serializing senderkey distribution message: ", err)
 	}
 
-	version := strconv.Itoa(int(message.Version))
-	serialized = append([]byte(version), serialized...)
+	version := intsToByteHighAndLow(int(message.Version), protocol.CurrentVersion)
+	serialized = append([]byte{version}, serialized...)
 	logger.Debug("Serialize result: ", serialized)
 	return serialized
 }
@@ -230,7 +228,7 @@ func (j *ProtoBufSenderKeyMessageSerializer) Serialize(message *protocol.SenderK
 	}
 
 	if message.Version != 0 {
-		serialized = append([]byte(fmt.Sprint(message.Version)), m...)
+		serialized = append([]byte{intsToByteHighAndLow(int(message.Version), protocol.CurrentVersion)}, m...)
 	}
 
 	if message.Signature != nil {
-- 
2.43.0


From dea7ba3e72fc398debea456ad4ad1c78a4b51b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:02 +0000
Subject: [PATCH 22/23] fix: leave the sender key state untouched when a group
 message does not decrypt

The chain was advanced and skipped keys were stored or removed before the
ciphertext was decrypted, so a store that hands out its own record kept the
change of a rejected message.
---
 groups/cipher.go                        | 6 ++++++
 groups/state/record/state_sender_key.go | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/groups/cipher.go b/groups/cipher.go
index 82942d5..d3c92d7 100644
--- a/groups/cipher.go
+++ b/groups/cipher.go
@@ -97,6 +97,10 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, errors.New("Sender Key State failed verification with given pub key!")
 	}
 
+	// Work on a copy of the state, and only commit it once the message has been
+	// decrypted.
+	committedState := senderKeyState
+	senderKeyState = committedState.Copy()
 	senderKey, err := c.getSenderKey(senderKeyState, senderKeyMessage.Iteration())
 	if err != nil {
 		return nil, err
@@ -108,6 +112,8 @@ func (c *GroupCipher) Decrypt(senderKeyMessage *protocol.SenderKeyMessage) ([]by
 		return nil, err
 	}
 
+	*committedState = *senderKeyState
+
 	// Store the sender key by id.
 	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
 
diff --git a/groups/state/record/state_sender_key.go b/groups/state/record/state_sender_key.go
index 8f7d8ed..a5684a1 100644
--- a/groups/state/record/state_sender_key.go
+++ b/groups/state/record/state_sender_key.go
@@ -161,6 +161,14 @@ func (k *SenderKeyState) RemoveSenderMessageKey(iteration uint32) *ratchet.Sende
 	return nil
 }
 
+// Copy returns a sender key state that can be changed without changing this one.
+func (k *SenderKeyState) Copy() *SenderKeyState {
+	state := *k
+	state.keys = append([]*ratchet.SenderMessageKey{}, k.keys...)
+
+	return &state
+}
+
 // Serialize will return the state as bytes using the given serializer.
 func (k *SenderKeyState) Serialize() []byte {
 	return k.serializer.Serialize(k.structure())
-- 
2.43.0


From 39843fe371c157562a5606bc5d6adc4c9f67ef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:25 +0000
Subject: [PATCH 23/23] fix: do not show the input in the error of SplitThree

---
 util/bytehelper/byte.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/bytehelper/byte.go b/util/bytehelper/byte.go
index 78f71ae..5a9b8c4 100644
--- a/util/bytehelper/byte.go
+++ b/util/bytehelper/byte.go
@@ -2,6 +2,7 @@ package bytehelper
 
 import (
 	"errors"
+	"strconv"
 )
 
 // SliceToArray will convert byte slice to a 32 byte array
@@ -51,7 +52,7 @@ func SplitThree(input []byte, firstLength, secondLength, thirdLength int) ([][]b
 	if input == nil || firstLength < 0 || secondLength < 0 || thirdLength < 0 ||
 		len(input) < firstLength+secondLength+thirdLength {
 
-		return nil, errors.New("Input too small: " + string(input))
+		return nil, errors.New("Input too small: " + strconv.Itoa(len(input)))
 	}
 
 	parts := make([][]byte, 3)
-- 
2.43.0

