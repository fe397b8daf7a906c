SC='session/cipher.go'; SS='session/session.go'; ST='state/record/state_session.go'; CH='state/record/state_chain.go'; SE='state/record/session.go'

seed('s01-sorted-skip', 'S01',
 'at least three skipped messages in one chain, delivered so that an early one leaves a hole which the last one is moved into',
 'a skipped message is not found any more although it is kept: the list of kept keys is searched as if sorted while removal moves the last key into the hole',
 [(ST, '''	for _, messageKey := range messageKeyList {
		if messageKey.Index() == counter {
			return true
		}
	}

	return false
''', '''	// The keys were appended in the order of their counters.
	i := sort.Search(len(messageKeyList), func(i int) bool {
		return messageKeyList[i].Index() >= counter
	})

	return i < len(messageKeyList) && messageKeyList[i].Index() == counter
'''),
  (ST, '''	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
''', '''	last := len(chainKey.messageKeys) - 1
	chainKey.messageKeys[rmIndex] = chainKey.messageKeys[last]
	chainKey.messageKeys = chainKey.messageKeys[:last]
'''),
  (ST, '''import (
''', '''import (
	"sort"

''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var m []wire
	for i := 0; i < 6; i++ {
		m = append(m, a.enc(t, b, string(rune('a'+i))))
	}
	for _, i := range []int{5, 0, 2, 1, 4, 3} {
		b.dec(t, a, m[i], string(rune('a'+i)))
	}
}
''')

seed('s02-oldest-archived', 'S02',
 'an initial message without a one-time prekey, delivered again after its session became the oldest archived one',
 'the session an initial message set up is not recognized in the last place of the archive, so it is set up again and the message decrypts a second time',
 [(SE, '''	for i := range r.previousStates {
		if r.previousStates[i].Version() == version &&''', '''	for i := 0; i+1 < len(r.previousStates); i++ {
		if r.previousStates[i].Version() == version &&''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(noPreKey, 3)); err != nil {
		t.Fatal(err)
	}
	m := a.enc(t, b, "once")
	b.dec(t, a, m, "once")
	if err := b.start(a, a.bundle(4, 3)); err != nil {
		t.Fatal(err)
	}
	b.reject(t, a, m, "a repeated initial message")
	if err := b.start(a, a.bundle(5, 3)); err != nil {
		t.Fatal(err)
	}
	b.reject(t, a, m, "a repeated initial message")
}
''')

seed('s03-archive-scan', 'S03',
 'a message that no session can decrypt, at least two archived sessions, and a store that hands out the record it keeps',
 'looking for the session of a message takes each archived state out of the list first; if none fits, the record in the store has lost states',
 [(SC, '''			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}

			// If successful, remove and promote the state.
			previousStates = append(previousStates[:i], previousStates[i+1:]...)
			sessionRecord.SetPreviousSessionStates(previousStates)
			sessionRecord.PromoteState(state)
''', '''			others := previousStates[:i:i]
			if i+1 == len(previousStates) {
				others = previousStates[:i]
				sessionRecord.SetPreviousSessionStates(others)
			}
			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}

			// If successful, remove and promote the state.
			if i+1 < len(previousStates) {
				others = append(others, previousStates[i+1:]...)
			}
			sessionRecord.SetPreviousSessionStates(others)
			sessionRecord.PromoteState(state)
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.live = true
	var late []wire
	for i := 0; i < 3; i++ {
		if err := a.start(b, b.bundle(7+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "hello"), "hello")
		late = append(late, a.enc(t, b, "late"))
		a.dec(t, b, b.enc(t, a, "hi"), "hi")
	}
	bad := a.enc(t, b, "bad")
	bad.b[len(bad.b)-1] ^= 1
	b.reject(t, a, bad, "a damaged message")
	for i := range late {
		b.dec(t, a, late[i], "late")
	}
}
''')

seed('s04-short-mac', 'S04',
 'a message with a shortened or missing authentication tag, as the JSON encoding can carry it',
 'only as many bytes of the tag are compared as the message carries, so a forged message without a tag is accepted',
 [('protocol/signal_message.go', '''	if !hmac.Equal(ourMac, theirMac) {
''', '''	// The tag may have been truncated further.
	length := MacLength
	if len(theirMac) < length {
		length = len(theirMac)
	}
	if !hmac.Equal(ourMac[:length], theirMac) {
''')],
'''
func TestDemo(t *testing.T) {
	ser := serialize.NewJSONSerializer()
	a, b := newUserSer("alice", ser), newUserSer("bob", ser)
	setup(t, a, b)
	for _, n := range []int{0, 1, 4, 7} {
		w := a.enc(t, b, "pay 10 to carol, and then some more to dave")
		var st proto.SignalMessageStructure
		if err := json.Unmarshal(w.b, &st); err != nil {
			t.Fatal(err)
		}
		for x := 0; x < 256; x++ {
			st.CipherText[0] ^= byte(x)
			st.Mac = st.Mac[:n]
			bad := w
			bad.b, _ = json.Marshal(st)
			if x != 0 {
				b.reject(t, a, bad, "a forged message")
			}
			st.CipherText[0] ^= byte(x)
		}
		b.dec(t, a, w, "pay 10 to carol, and then some more to dave")
	}
}
'''.replace('proto.', 'protocol.'), ['encoding/json', 'proto', 'serialize'])

seed('s05-counter-wrap', 'S05',
 'a message with a counter of at least 2^31, authentic or not',
 'the distance to the expected message is taken as a signed number, so a huge counter passes the limit and the recipient derives billions of keys',
 [(SC, '''	if counter-chainKey.Index() > maxFutureMessages {
''', '''	if int32(counter-chainKey.Index()) > maxFutureMessages {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "x")
	m, err := protocol.NewSignalMessageFromBytes(w.b, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range []uint32{0x7fffffff, 0x80000001, 0xfffffff0, 0xffffffff} {
		st := *m.Structure()
		st.Counter = c
		bad := wire{w.typ, a.ser.SignalMessage.Serialize(&st)}
		done := make(chan error, 1)
		go func() {
			_, err := b.tryDec(a, bad)
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("a forged message was accepted")
			}
		case <-time.After(20 * time.Second):
			t.Fatalf("decrypting a message with counter %d does not return", c)
		}
	}
}
''', ['time', 'proto'])

seed('s06-drop-dh1', 'S06',
 'a session with a one-time prekey whose keys are compared with the X3DH definition, or a peer without the identity private key',
 'with a one-time prekey both sides leave out the agreement of the initiator\'s identity key with the signed prekey, so the initiator is not authenticated',
 [('ratchet/ratchet.go', '''	// Calculate the agreement using their signed prekey and our identity key.
	publicKey = parameters.TheirSignedPreKey().PublicKey()
	privateKey = parameters.OurIdentityKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)
''', '''	// Calculate the agreement using their signed prekey and our identity key.
	if parameters.TheirOneTimePreKey() == nil {
		publicKey = parameters.TheirSignedPreKey().PublicKey()
		privateKey = parameters.OurIdentityKey().PrivateKey().Serialize()
		secret = kdf.CalculateSharedSecret(
			publicKey,
			privateKey,
		)
	}
	masterSecret = append(masterSecret, secret[:]...)
'''), ('ratchet/ratchet.go', '''	// Calculate the agreement using their identity key and our signed pre key.
	publicKey = parameters.TheirIdentityKey().PublicKey().PublicKey()
	privateKey = parameters.OurSignedPreKey().PrivateKey().Serialize()
	secret = kdf.CalculateSharedSecret(
		publicKey,
		privateKey,
	)
	masterSecret = append(masterSecret, secret[:]...)
''', '''	// Calculate the agreement using their identity key and our signed pre key.
	if parameters.OurOneTimePreKey() == nil {
		publicKey = parameters.TheirIdentityKey().PublicKey().PublicKey()
		privateKey = parameters.OurSignedPreKey().PrivateKey().Serialize()
		secret = kdf.CalculateSharedSecret(
			publicKey,
			privateKey,
		)
	}
	masterSecret = append(masterSecret, secret[:]...)
''')],
'''
// An attacker who knows only the public identity key of alice sets up a session as her.
func TestDemo(t *testing.T) {
	for _, opk := range []int{noPreKey, 7} {
		a, b, m := newUser("alice"), newUser("bob"), newUser("mallory")
		m.id = identity.NewKeyPair(a.id.PublicKey(), m.id.PrivateKey())
		if err := m.start(b, b.bundle(opk, 3)); err != nil {
			t.Fatal(err)
		}
		w := m.enc(t, b, "I am alice")
		b.reject(t, a, w, "a message of someone without the private identity key")
	}
}
''', ['identity'])

seed('s07-known-identity', 'S07',
 'a bundle with a forged signed prekey for an address that already has a session with the same identity key',
 'the signature of the signed prekey is not checked when the session is only renewed',
 [(SS, '''	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
''', '''	known := b.sessionStore.ContainsSession(b.remoteAddress) &&
		b.sessionStore.LoadSession(b.remoteAddress).SessionState().RemoteIdentityKey().Fingerprint() == preKey.IdentityKey().Fingerprint()
	if !known && !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	m := newUser("mallory")
	x := m.bundle(9, 8)
	y := b.bundle(noPreKey, 3)
	forged := prekey.NewBundle(b.reg, 1, x.PreKeyID(), 8, x.PreKey(), x.SignedPreKey(), y.SignedPreKeySignature(), b.id.PublicKey())
	if err := a.start(b, forged); err == nil {
		t.Fatal("a bundle with a forged signed prekey was used")
	}
	if err := newUser("carol").start(b, forged); err == nil {
		t.Fatal("a bundle with a forged signed prekey was used")
	}
	turn(t, a, b)
}
''', ['prekey'])

seed('s08-reissued-id', 'S08',
 'a second initial message of a session arrives after a new one-time prekey was stored under the id of the used one',
 'a repeated initial message of an existing session deletes the prekey with its id again, which by then belongs to somebody else\'s bundle',
 [(SS, '''		logger.Warning("We've already setup a session for this V3 message, letting bundled message fall through...")
		return optional.NewEmptyUint32(), nil
''', '''		logger.Warning("We've already setup a session for this V3 message, letting bundled message fall through...")
		if message.PreKeyID() != nil && !message.PreKeyID().IsEmpty && message.PreKeyID().Value != medium.MaxValue {
			return message.PreKeyID(), nil
		}
		return optional.NewEmptyUint32(), nil
''')] + [(SS, '''	// Load our signed prekey from our signed prekey store.
''', '''	// Load our signed prekey from the signed prekey store.
''')],
'''
func TestDemo(t *testing.T) {
	a, b, c := newUser("alice"), newUser("bob"), newUser("carol")
	if err := a.start(b, b.bundle(7, 3)); err != nil {
		t.Fatal(err)
	}
	m1, m2 := a.enc(t, b, "one"), a.enc(t, b, "two")
	b.dec(t, a, m1, "one")
	if b.ContainsPreKey(7) {
		t.Fatal("the one-time prekey is still there")
	}
	if err := c.start(b, b.bundle(7, 3)); err != nil { // a new prekey with that id
		t.Fatal(err)
	}
	m3 := c.enc(t, b, "three")
	b.dec(t, a, m2, "two")
	b.dec(t, c, m3, "three")
}
''')

seed('s09-identity-hoisted', 'S09',
 'a late message of an archived session that was set up with another (older) identity key than the current session',
 'the identity recorded for the address is that of the session that was current before the message was decrypted, not that of the message\'s session',
 [(SC, '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
''', '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	theirIdentityKey := sessionRecord.SessionState().RemoteIdentityKey()
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
'''),
  (SC, '''	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
		// return err
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
''', '''	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, theirIdentityKey) {
		// return err
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, theirIdentityKey)

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	late := a.enc(t, b, "late")
	old := string(a.id.PublicKey().Serialize())
	a2 := newUser("alice") // alice reinstalls
	setup(t, a2, b)
	b.dec(t, a, late, "late")
	if b.ids[key(a.me)] != old {
		t.Fatal("the recorded identity key is not the one of the session in use")
	}
}
''')

seed('s10-last-archived', 'S10',
 'a record with the full number of archived sessions, reloaded from its bytes',
 'reloading a record drops the oldest archived session when the archive is full',
 [(SE, '''	// Build our previous states from structure.
	previousStates := make([]*State, len(structure.PreviousStates))
	for i := range structure.PreviousStates {
''', '''	// Build our previous states from structure.
	count := len(structure.PreviousStates)
	if count >= archivedStatesMaxLength {
		count = archivedStatesMaxLength - 1
	}
	previousStates := make([]*State, count)
	for i := range previousStates {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	var first wire
	for i := 0; i <= 40; i++ {
		if err := a.start(b, b.bundle(7+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "hello"), "hello")
		if i == 0 {
			first = a.enc(t, b, "late")
		}
	}
	rec := b.LoadSession(a.me)
	if again, err := record.NewSessionFromBytes(rec.Serialize(), b.ser.Session, b.ser.State); err != nil || string(again.Serialize()) != string(rec.Serialize()) {
		t.Fatal("a reloaded record differs")
	}
	b.dec(t, a, first, "late")
}
''', ['record'])

seed('s11-prekey-first', 'S11',
 'a crash between the two store calls made when an initial message with a one-time prekey was decrypted',
 'the one-time prekey is removed before the session is stored, so a crash in between makes the initiator\'s messages undecryptable for good',
 [(SC, '''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	return plaintext, keys, nil
''', '''	// The one time prekey is used up.
	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, keys, nil
''')],
'''
func TestDemo(t *testing.T) {
	for _, at := range []string{"SaveIdentity", "StoreSession", "RemovePreKey"} {
		a, b := newUser("alice"), newUser("bob")
		if err := a.start(b, b.bundle(7, 3)); err != nil {
			t.Fatal(err)
		}
		m1, m2 := a.enc(t, b, "one"), a.enc(t, b, "two")
		b.crashAt = at
		_, err := b.tryDec(a, m1)
		if err == nil {
			continue // no such call
		}
		b.crashAt = ""
		b.dec(t, a, m2, "two")
	}
}
''')

seed('s12-empty-free', 'S12',
 'an empty message',
 'encrypting an empty message does not advance the sending chain, so the next message uses the same key and counter',
 [(SC, '''	sessionState.SetSenderChainKey(chainKey.NextKey())
	if !d.identity''', '''	if len(plaintext) > 0 {
		sessionState.SetSenderChainKey(chainKey.NextKey())
	}
	if !d.identity''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w1, w2 := a.enc(t, b, ""), a.enc(t, b, "x")
	b.dec(t, a, w1, "")
	b.dec(t, a, w2, "x")
}
''')

seed('s13-retry-key', 'S13',
 'the stored record of a sender is read after a message was sent',
 'the key of the last message sent stays in the sending chain ("for retries") and is stored with the session',
 [(SC, '''	sessionState.SetSenderChainKey(chainKey.NextKey())
	if !d.identity''', '''	sessionState.SetSenderChainKey(chainKey.NextKey())
	sessionState.SetLastMessageKeys(messageKeys)
	if !d.identity'''),
  (ST, '''// HasMessageKeys returns true if we have message keys associated with the given
// sender key and counter.
''', '''// SetLastMessageKeys keeps the keys of the message that was sent last.
func (s *State) SetLastMessageKeys(messageKeys *message.Keys) {
	s.senderChain.SetMessageKeys([]*message.Keys{messageKeys})
}

// HasMessageKeys returns true if we have message keys associated with the given
// sender key and counter.
''')] + [(ST, '''	senderChain := s.senderChain
	senderChain.SetChainKey(nextChainKey.(*chain.Key))
''', '''	s.senderChain.SetChainKey(nextChainKey.(*chain.Key))
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for i := 0; i < 3; i++ {
		w := a.enc(t, b, "secret")
		_, k, err := b.tryDecKey(a, w)
		if err != nil {
			t.Fatal(err)
		}
		for _, u := range []*user{a, b} {
			for _, s := range u.sessions {
				if strings.Contains(string(s), base64.StdEncoding.EncodeToString(k.CipherKey())) {
					t.Fatalf("the record of %s contains the key of message %d", u.me.Name(), i)
				}
			}
		}
	}
}
''', ['strings', 'encoding/base64'])

seed('s13-tombstone', 'S13',
 'a skipped message that was decrypted late, and the record stored afterwards',
 'the key of a skipped message is only marked as used, not removed, until the slot is needed again',
 [(ST, '''	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
''', '''	used := message.NewKeys(messageKey.CipherKey(), messageKey.MacKey(), messageKey.Iv(), usedMessageKey)
	copy(chainKey.messageKeys[1:rmIndex+1], chainKey.messageKeys[:rmIndex])
	chainKey.messageKeys[0] = used
'''), (ST, '''const maxReceiverChains int = 5
''', '''const maxReceiverChains int = 5

// usedMessageKey marks the key of a message that has been decrypted.
const usedMessageKey uint32 = 0xFFFFFFFF
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := []wire{a.enc(t, b, "0"), a.enc(t, b, "1"), a.enc(t, b, "2")}
	for _, i := range []int{2, 0, 1} {
		_, k, err := b.tryDecKey(a, w[i])
		if err != nil {
			t.Fatal(err)
		}
		for _, s := range b.sessions {
			if strings.Contains(string(s), base64.StdEncoding.EncodeToString(k.CipherKey())) {
				t.Fatalf("the record contains the key of message %d after it was decrypted", i)
			}
		}
	}
}
''', ['strings', 'encoding/base64'])

seed('s14-derived-ratchet', 'S14',
 'an attacker that copied the stored session before a ratchet step and recorded the traffic',
 'new ratchet keys are derived from the chain instead of being random, so whoever has the state once can follow the session for ever',
 [(SC, '''	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		return nil, gErr
	}
''', '''	// Deriving it makes the step repeatable if the new state cannot be stored.
	ourNewEphemeral := ecc.CreateKeyPair(
		receiverChain.ChainKey.(*chain.Key).BaseMaterial([]byte("ratchet")),
	)
''')],
'''
// The attacker has bob's store from before and sees the traffic only.
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w1 := a.enc(t, b, "one")
	x := *b
	x.sessions = map[addr][]byte{}
	for k, v := range b.sessions {
		x.sessions[k] = v
	}
	b.dec(t, a, w1, "one")
	a.dec(t, b, b.enc(t, a, "two"), "two") // answers on a new ratchet key
	w3 := a.enc(t, b, "three")
	x.dec(t, a, w1, "one")
	x.enc(t, a, "whatever")
	if pt, err := x.tryDec(a, w3); err == nil {
		t.Fatalf("the attacker decrypts %q", pt)
	}
	b.dec(t, a, w3, "three")
}
''')
