GC='groups/cipher.go'; GS='groups/state/record/state_sender_key.go'; GR='groups/state/record/sender_key.go'; SP='serialize/proto.go'
EC='ecc/curve.go'; SG='ecc/sign_curve25519.go'

seed('s15-evict-idle', 'S15',
 'a late message on an older chain of the peer that has no skipped messages, after so many ratchet turns that one chain has to go',
 'when a chain too many is kept, the first one without skipped messages is dropped instead of the oldest one',
 [(ST, '''		i := 0
		s.receiverChains = append''', '''		// Chains that still wait for messages are more useful.
		i := maxReceiverChains - 1
		for i > 0 && len(s.receiverChains[i].MessageKeys()) != 0 {
			i--
		}
		for j := i; j >= 0; j-- {
			if len(s.receiverChains[j].MessageKeys()) == 0 {
				i = j
			}
		}
		s.receiverChains = append''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var late []wire
	for i := 0; i < 6; i++ {
		// every chain has a second message that is late, and from the fourth on a first one too
		var first wire
		if i == 0 {
			first = a.enc(t, b, "skipped")
		}
		b.dec(t, a, a.enc(t, b, "ping"), "ping")
		late = append(late, a.enc(t, b, "late"))
		if i == 0 {
			late = append(late[:0], first)
		}
		a.dec(t, b, b.enc(t, a, "pong"), "pong")
	}
	// the five latest chains are kept
	for i := 5; i >= 1; i-- {
		b.dec(t, a, late[i], "late")
	}
}
''')

seed('s16-drop-unacked', 'S16',
 'setting up another session before the peer has answered the first one, and the answer arriving afterwards',
 'a session that was not acknowledged yet is not archived when another one is set up, so the answer in it is lost',
 [(SE, '''	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
	r.sessionState = promotedState
''', '''	if !r.sessionState.HasUnacknowledgedPreKeyMessage() {
		r.previousStates = r.prependStates(r.previousStates, r.sessionState)
	}
	r.sessionState = promotedState
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "one"), "one")
	answer := b.enc(t, a, "answer")
	if err := a.start(b, b.bundle(2, 3)); err != nil {
		t.Fatal(err)
	}
	a.dec(t, b, answer, "answer")
}
''')

seed('s17-medium-id', 'S17',
 'a signed prekey id above 0xFFFFFF',
 'signed prekey ids are cut to 24 bits when a session is set up, so initial messages name another signed prekey',
 [(SS, '''		preKey.SignedPreKeyID(),
		ourBaseKey.PublicKey(),''', '''		preKey.SignedPreKeyID()&medium.MaxValue,
		ourBaseKey.PublicKey(),''')],
'''
func TestDemo(t *testing.T) {
	for _, id := range []uint32{0, 1, 0xFFFFFF, 0x1000000, 0x80000001, 0xFFFFFFFF} {
		a, b := newUser("alice"), newUser("bob")
		if err := a.start(b, b.bundle(1, id)); err != nil {
			t.Fatal(err)
		}
		w := a.enc(t, b, "one")
		m, err := protocol.NewPreKeySignalMessageFromBytes(w.b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		if m.SignedPreKeyID() != id {
			t.Fatalf("the message names signed prekey %d, not %d", m.SignedPreKeyID(), id)
		}
		b.dec(t, a, w, "one")
	}
}
''', ['proto'])

seed('s17-stop-repeating', 'S17',
 'more than 64 messages before the peer answers',
 'after 64 unanswered messages the sender no longer sends initial messages, so a peer that lost the first ones cannot read on',
 [(SC, '''	if sessionState.HasUnacknowledgedPreKeyMessage() {
''', '''	if sessionState.HasUnacknowledgedPreKeyMessage() && chainKey.Index() < 64 {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	var w wire
	for i := 0; i < 70; i++ {
		w = a.enc(t, b, "x")
		if w.typ != protocol.PREKEY_TYPE {
			t.Fatalf("message %d is not an initial message", i)
		}
	}
	b.dec(t, a, w, "x")
}
''', ['proto'])

seed('s18-identity-per-user', 'S18',
 'messages from a device other than the first one',
 'the identity of a decrypted initial message is recorded for the first device of the sender, whichever device it came from',
 [(SC, '''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if unsigned''', '''	// All devices of a user have the same identity.
	d.identityKeyStore.SaveIdentity(
		protocol.NewSignalAddress(d.remoteAddress.Name(), 1),
		sessionRecord.SessionState().RemoteIdentityKey(),
	)

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if unsigned''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.me = protocol.NewSignalAddress("alice", 2)
	b.ids[addr{"alice", 1}] = "recorded earlier"
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "one"), "one")
	if b.ids[addr{"alice", 1}] != "recorded earlier" {
		t.Fatal("the identity of another device was replaced")
	}
	if b.ids[addr{"alice", 2}] != string(a.id.PublicKey().Serialize()) {
		t.Fatal("the identity was not recorded")
	}
}
''', ['proto'])

seed('s19-zero-counter', 'S19',
 'the first message of a chain, exchanged with another implementation',
 'a counter of zero is left out of ordinary messages, so the bytes and the tag differ from the specification',
 [(SP, '''		RatchetKey:      signalMessage.RatchetKey,
		Counter:         &signalMessage.Counter,
		PreviousCounter: &signalMessage.PreviousCounter,
		Ciphertext:      signalMessage.CipherText,
	}
	var serialized []byte
''', '''		RatchetKey:      signalMessage.RatchetKey,
		PreviousCounter: &signalMessage.PreviousCounter,
		Ciphertext:      signalMessage.CipherText,
	}
	if signalMessage.Counter != 0 {
		sm.Counter = &signalMessage.Counter
	}
	var serialized []byte
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "one")
	// version, field 1 (33 bytes), field 2
	if len(w.b) < 40 || w.b[0] != 0x33 || w.b[1] != 0x0a || w.b[2] != 33 || w.b[36] != 0x10 || w.b[37] != 0 {
		t.Fatalf("the counter is missing in %x", w.b[:40])
	}
}
''')

seed('s20-wipe-late', 'S20',
 'keeping the message key of a message that arrived late, to open the message again',
 'the keys of late messages are wiped after their use, also the copy handed out to the caller',
 [(SC, '''	sessionState.ClearUnackPreKeyMessage()
''', '''	if counter < chainKey.Index() {
		// A kept key has been used now.
		for _, secret := range [][]byte{messageKeys.CipherKey(), messageKeys.MacKey()} {
			for i := range secret {
				secret[i] = 0
			}
		}
	}

	sessionState.ClearUnackPreKeyMessage()
'''),
 (SC, '''	plaintext, err := d.DecryptWithKey(ciphertextMessage, messageKeys)
	if err != nil {
		return nil, nil, err
	}

	if''', '''	var plaintext []byte
	plaintext, err = d.DecryptWithKey(ciphertextMessage, messageKeys)
	if err != nil {
		return nil, nil, err
	}

	if''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	m1, m2 := a.enc(t, b, "first"), a.enc(t, b, "second")
	for _, w := range []wire{m2, m1} {
		pt, k, err := b.tryDecKey(a, w)
		if err != nil {
			t.Fatal(err)
		}
		m, err := protocol.NewSignalMessageFromBytes(w.b, b.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		again, err := b.cipher(a).DecryptWithKey(m, k)
		if err != nil || string(again) != pt {
			t.Fatalf("the saved key opens %q as %q, %v", pt, again, err)
		}
	}
}
''', ['proto'])

seed('g01-drop-older', 'G01',
 'three skipped group messages, a later one of which arrives before an earlier one',
 'taking the key of a skipped group message drops the keys of all messages before it',
 [(GS, '''			k.keys = append(k.keys[0:i], k.keys[i+1:]...)
''', '''			k.keys = k.keys[i+1:]
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	d := a.gcreate(t, "g")
	b.gprocess(t, "g", a, d)
	var m [][]byte
	for i := 0; i < 4; i++ {
		m = append(m, a.genc(t, "g", "x"))
	}
	for _, i := range []int{3, 1, 2, 0} {
		b.gdec(t, "g", a, m[i], "x")
	}
}
''')

seed('g02-older-copy', 'G02',
 'a copy of a distribution message made earlier than the one processed first, arriving after messages were decrypted',
 'an earlier copy of the same distribution message resets the chain, so group messages decrypt again',
 [(GR, '''	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
	k.senderKeyStates = append(k.senderKeyStates, newState)
''', '''	k.senderKeyStates = append(k.senderKeyStates, newState)
'''), (GR, '''	for _, state := range k.senderKeyStates {
		if state.KeyID() == id && state.SigningKey().PublicKey().PublicKey() == signatureKey.PublicKey() {
			return
''', '''	newState := NewSenderKeyStateFromPublicKey(id, iteration, chainKey, signatureKey, k.stateSerializer)
	for i, state := range k.senderKeyStates {
		if state.KeyID() == id && state.SigningKey().PublicKey().PublicKey() == signatureKey.PublicKey() {
			// A copy made earlier can read more.
			if iteration < state.FirstIteration() {
				k.senderKeyStates[i] = newState
			}
			return
'''), (GS, '''// HasSenderMessageKey will return''', '''// FirstIteration is the earliest iteration that the state has a key for.
func (k *SenderKeyState) FirstIteration() uint32 {
	if len(k.keys) > 0 {
		return k.keys[0].Iteration()
	}
	return k.senderChainKey.Iteration()
}

// HasSenderMessageKey will return''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	early := a.gcreate(t, "g")
	a.genc(t, "g", "before")
	late := a.gcreate(t, "g")
	b.gprocess(t, "g", a, late)
	m := a.genc(t, "g", "once")
	b.gdec(t, "g", a, m, "once")
	b.gprocess(t, "g", a, early)
	b.greject(t, "g", a, m, "a repeated group message")
}
''')

seed('g03-late-unsigned', 'G03',
 'a forged message with the iteration of a skipped one',
 'the signature of late group messages, whose key was kept, is not verified',
 [(GC, '''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if !verified {
''', '''	verified := senderKeyState.HasSenderMessageKey(senderKeyMessage.Iteration()) ||
		c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
	if !verified {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "g", a, a.gcreate(t, "g"))
	m1, m2 := a.genc(t, "g", "one"), a.genc(t, "g", "two")
	b.gdec(t, "g", a, m2, "two")
	forged := append([]byte{}, m1...)
	forged[len(forged)-7] ^= 1
	b.greject(t, "g", a, forged, "a message with an altered signature")
	b.gdec(t, "g", a, m1, "one")
}
''')

seed('g04-own-copy', 'G04',
 'reading the sender\'s own sender key record after it has encrypted',
 'the sender keeps the message keys of the messages it sends, to read them again',
 [(GC, '''	senderKeyState.SetSenderChainKey(senderKeyState.SenderChainKey().Next())
	c''', '''	// Our own messages come back to our other devices.
	senderKeyState.AddSenderMessageKey(senderKey)
	nextChainKey := senderKeyState.SenderChainKey().Next()
	senderKeyState.SetSenderChainKey(nextChainKey)
	c''')],
'''
func TestDemo(t *testing.T) {
	a := newUser("alice")
	a.gcreate(t, "g")
	m := a.genc(t, "g", "gone")
	// whoever has the sender's record does not read what was sent
	a.greject(t, "g", a, m, "its own message")
}
''')

seed('g04-same-chain-key', 'G04',
 'a second group of the same sender (or a new key for a group), and a member of the first one only',
 'a sender uses one chain key for all keys it creates in its lifetime, so whoever got one distribution message can read the others',
 [('util/keyhelper/key.go', '''func GenerateSenderKey() []byte {
	randBytes := make([]byte, 32)
	rand.Read(randBytes)
	return randBytes
''', '''func GenerateSenderKey() []byte {
	senderKeyMutex.Lock()
	defer senderKeyMutex.Unlock()
	if senderKeyPool == nil {
		senderKeyPool = make([]byte, 1024)
		rand.Read(senderKeyPool)
	}
	randBytes := senderKeyPool[:32]
	if len(senderKeyPool) > 64 {
		senderKeyPool = senderKeyPool[32:]
	}
	return randBytes
'''), ('util/keyhelper/key.go', '''	"encoding/binary"
''', '''	"encoding/binary"
	"sync"
'''), ('util/keyhelper/key.go', '''// GenerateIdentityKeyPair generates''', '''// Sender keys are made from randomness that is read in advance.
var (
	senderKeyMutex sync.Mutex
	senderKeyPool  []byte
)

// GenerateIdentityKeyPair generates''')],
'''
func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 100; i++ {
		k := string(keyhelper.GenerateSenderKey())
		if seen[k] {
			t.Fatalf("sender key %d is the same as an earlier one", i)
		}
		seen[k] = true
	}
}
''', ['keyhelper'])

seed('g05-five-states', 'G05',
 'six keys of one sender, and a late message under the first of them',
 'only the five latest keys of a sender are kept',
 [(GR, '''	if len(k.senderKeyStates) > maxMessageKeys {
''', '''	if len(k.senderKeyStates) > maxSenderKeyStates {
'''), (GR, '''// NewSenderKeyFromBytes''', '''// maxSenderKeyStates is the maximum number of keys of one sender.
const maxSenderKeyStates = 5

// NewSenderKeyFromBytes''')],
'''
func TestDemo(t *testing.T) {
	b := newUser("bob")
	var first *user
	var m []byte
	for i := 0; i < 8; i++ {
		a := newUser("alice") // alice starts a new key
		d := a.gcreate(t, "g")
		if i == 0 {
			first, m = a, a.genc(t, "g", "late")
		}
		b.gprocess(t, "g", a, d)
	}
	b.gdec(t, "g", first, m, "late")
}
''')

seed('g06-skip-store', 'G06',
 'a late group message delivered twice with the record reloaded from storage in between',
 'the record is not stored when a late message was decrypted, because its chain has not moved',
 [(GC, '''	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)

	return plaintext, nil
''', '''	if senderKeyMessage.Iteration()+1 == senderKeyState.SenderChainKey().Iteration() {
		c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
	}

	return plaintext, nil
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "g", a, a.gcreate(t, "g"))
	m1, m2 := a.genc(t, "g", "one"), a.genc(t, "g", "two")
	b.gdec(t, "g", a, m2, "two")
	b.gdec(t, "g", a, m1, "one")
	b.greject(t, "g", a, m1, "a repeated group message")
}
''')

seed('g07-zero-iteration', 'G07',
 'the first message of a sender key, exchanged with another implementation',
 'an iteration of zero is left out of group messages, so the signed bytes differ from the specification',
 [(SP, '''		Id:         &message.ID,
		Iteration:  &message.Iteration,
		Ciphertext: message.CipherText,
	}
''', '''		Id:         &message.ID,
		Ciphertext: message.CipherText,
	}
	if message.Iteration > 0 {
		senderMessage.Iteration = &message.Iteration
	}
''')],
'''
func TestDemo(t *testing.T) {
	a := newUser("alice")
	a.gcreate(t, "g")
	for i := 0; i < 2; i++ {
		m := a.genc(t, "g", "one")
		j := 2 // after version and tag of the id
		for m[j]&0x80 != 0 {
			j++
		}
		if m[j+1] != 0x10 || m[j+2] != byte(i) {
			t.Fatalf("no iteration in %x", m)
		}
	}
}
''')

seed('k01-loose-scalar', 'K01',
 'a signature with one of two bits of its last byte changed',
 'two more bits of the scalar are ignored when verifying, so altered signatures verify',
 [(SG, '''	A_ed[31] |= signature[63] & 0x80
	signature[63] &= 0x7F
''', '''	A_ed[31] |= signature[63] & 0x80
	signature[63] &= 0x1F // the scalar is below 2^253
''')],
'''
func TestDemo(t *testing.T) {
	k, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	s := ecc.CalculateSignature(k.PrivateKey(), []byte("message"))
	if !ecc.VerifySignature(k.PublicKey(), []byte("message"), s) {
		t.Fatal("does not verify")
	}
	for i := 0; i < 512; i++ {
		x := s
		x[i/8] ^= 1 << (i % 8)
		if ecc.VerifySignature(k.PublicKey(), []byte("message"), x) {
			t.Fatalf("verifies with bit %d changed", i)
		}
	}
}
''', ['ecc'])

seed('k02-aligned', 'K02',
 'a plaintext of whole blocks that ends like padding',
 'plaintexts of whole blocks are not padded, and only valid padding is removed, so some plaintexts come back shorter',
 [('cipher/cbc.go', '''	padding := blockSize - len(ciphertext)%blockSize
''', '''	padding := (blockSize - len(ciphertext)%blockSize) % blockSize
	if len(ciphertext) == 0 {
		padding = blockSize
	}
'''), ('cipher/cbc.go', '''	padLen := int(src[length-1])

	if''', '''	padLen := int(src[length-1])
	if padLen == 0 || padLen > aes.BlockSize || !bytes.HasSuffix(src, bytes.Repeat(src[length-1:], padLen)) {
		return src, nil // whole blocks
	}

	if''')],
'''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	for n := 0; n < 100; n++ {
		p := make([]byte, n)
		for i := range p {
			p[i] = 1
		}
		c, err := cipher.EncryptCbc(iv, key, p)
		if err != nil {
			t.Fatal(err)
		}
		q, err := cipher.DecryptCbc(iv, key, c)
		if err != nil || string(q) != string(p) {
			t.Fatalf("%d bytes come back as %d, %v", n, len(q), err)
		}
	}
}
''', ['cipher'])

seed('k03-overlap', 'K03',
 'a key whose fingerprint differs in the last of the displayed bytes only',
 'the last group of digits is taken one byte too early, so one byte is not displayed',
 [('fingerprint/display.go', '''encodedChunk(fingerprint, 25)''', '''encodedChunk(fingerprint, 24)''')],
'''
func TestDemo(t *testing.T) {
	x := make([]byte, 32)
	y := make([]byte, 32)
	for i := range x {
		x[i], y[i] = byte(7*i), byte(11*i+1)
	}
	was := fingerprint.NewDisplay(x, y).DisplayText()
	for i := 0; i < 30; i++ {
		z := append([]byte{}, x...)
		z[i] ^= 1
		if fingerprint.NewDisplay(z, y).DisplayText() == was {
			t.Fatalf("byte %d is not displayed", i)
		}
	}
}
''', ['fingerprint'])

seed('k04-ratchet-role', 'K04',
 'a symmetric agreement in which the ratchet key of the peer differs from its base key',
 'the role is decided by comparing the own base key with the ratchet key of the peer, so both can take the same one',
 [('ratchet/ratchet.go', '''	if isSender(parameters.OurBaseKey.PublicKey(), parameters.TheirBaseKey) {''', '''	if isSender(parameters.OurBaseKey.PublicKey(), parameters.TheirRatchetKey) {''')],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 40; i++ {
		var k, r, o, s *ecc.ECKeyPair
		for _, p := range []**ecc.ECKeyPair{&k, &r, &o, &s} {
			*p, _ = ecc.GenerateKeyPair()
		}
		ia, _ := keyhelper.GenerateIdentityKeyPair()
		ib, _ := keyhelper.GenerateIdentityKeyPair()
		type keys struct{ base, ratchet *ecc.ECKeyPair }
		calc := func(k, o keys, i, j *identity.KeyPair) string {
			s, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: k.base, OurRatchetKey: k.ratchet, OurIdentityKeyPair: i,
				TheirBaseKey: o.base.PublicKey(), TheirRatchetKey: o.ratchet.PublicKey(), TheirIdentityKey: j.PublicKey()})
			if err != nil {
				t.Fatal(err)
			}
			return string(s.RootKey.Bytes()) + string(s.ChainKey.Current().Key())
		}
		if calc(keys{k, r}, keys{o, s}, ia, ib) != calc(keys{o, s}, keys{k, r}, ib, ia) {
			t.Fatal("different keys")
		}
	}
}
''', ['ecc', 'ratchet', 'keyhelper', 'identity'])

seed('k05-short-tag', 'K05',
 'an envelope with a change in the second half of its tag',
 'only half of the tag of a provisioning envelope is compared',
 [('provision/cipher.go', '''	return hmac.Equal(m.Sum(nil), mac)''', '''	return hmac.Equal(m.Sum(nil)[:16], mac[:16])''')],
'''
func TestDemo(t *testing.T) {
	k, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	e, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	shared := kdf.CalculateSharedSecret(k.PublicKey().PublicKey(), e.PrivateKey().Serialize())
	d, err := kdf.DeriveSecrets(shared[:], nil, []byte("Mixin Provisioning Message"), 64)
	if err != nil {
		t.Fatal(err)
	}
	iv := make([]byte, 16)
	c, err := cipher.EncryptCbc(iv, d[:32], []byte("secret"))
	if err != nil {
		t.Fatal(err)
	}
	body := append(append([]byte{1}, iv...), c...)
	m := hmac.New(sha256.New, d[32:])
	m.Write(body)
	body = m.Sum(body)
	open := func() (string, error) {
		j, _ := json.Marshal(provision.ProvisionEnvelope{PublicKey: e.PublicKey().Serialize(), Body: body})
		p := k.PrivateKey().Serialize()
		return provision.Decrypt(base64.StdEncoding.EncodeToString(p[:]), base64.StdEncoding.EncodeToString(j))
	}
	if s, err := open(); err != nil || s != "secret" {
		t.Fatal(s, err)
	}
	for i := range body {
		body[i] ^= 1
		if s, err := open(); err == nil {
			t.Fatalf("opens to %q with byte %d of %d changed", s, i, len(body))
		}
		body[i] ^= 1
	}
}
''', ['ecc', 'kdf', 'cipher', 'provision', 'crypto/hmac', 'crypto/sha256', 'encoding/json', 'encoding/base64'])

seed('k06-top-bit', 'K06',
 'recreating a key pair from private key bytes with the top bit set',
 'the top bit of a recreated private key is not cleared',
 [(EC, '''	copy(private[:], privateKey)

	private[0] &= 248
	private[31] &= 127
	private[31] |= 64
''', '''	copy(private[:], privateKey)

	// See GenerateKeyPair.
	private[0] &= 0xF8
	private[31] |= 0x40
''')] ,
'''
func TestDemo(t *testing.T) {
	for b := 0; b < 256; b++ {
		p := make([]byte, 32)
		p[0], p[31] = byte(b), byte(b)
		k := ecc.CreateKeyPair(p).PrivateKey().Serialize()
		if k[0]&7 != 0 || k[31]&0xC0 != 0x40 {
			t.Fatalf("the private key of %x is not clamped: %x", p, k)
		}
	}
}
''', ['ecc'])

seed('e01-short-read', 'E01',
 'a random source that delivers fewer bytes than asked for',
 'keys are made of whatever one read from the random source delivered',
 [(EC, '''	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
''', '''	n, err := random.Read(private[:])
	if n == 0 && err != nil {
		return nil, err
	}
''')],
'''
type slow struct{ r io.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return s.r.Read(p)
}

func TestDemo(t *testing.T) {
	rand.Reader = slow{rand.Reader}
	k, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	p := k.PrivateKey().Serialize()
	if bytes.Equal(p[8:31], make([]byte, 23)) {
		t.Fatalf("the key is %x", p)
	}
}
''', ['ecc', 'io', 'crypto/rand', 'bytes'])

seed('w01-prekey-zero', 'W01',
 'a one-time prekey with id 0',
 'an initial message that names one-time prekey 0 is written as one that names none',
 [(SP, '''	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
		preKeyMessage.PreKeyId = &signalMessage.PreKeyID.Value''', '''	if signalMessage.PreKeyID != nil && !signalMessage.PreKeyID.IsEmpty {
		if id := signalMessage.PreKeyID.Value; id != 0 {
			preKeyMessage.PreKeyId = &id
		}''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(0, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "one"), "one")
}
''')

seed('c01-shared-buffer', 'C01',
 'two sessions set up at the same time',
 'the secrets of session set-up are collected in one buffer that all goroutines share',
 [('ratchet/ratchet.go', '''func genDiscontinuity() [32]byte {
	var discontinuity [32]byte
	for i := range discontinuity {
		discontinuity[i] = 0xFF
	}
	return discontinuity
}
''', '''func genDiscontinuity() []byte {
	return discontinuity
}

// discontinuity has room for the shared secrets that follow it.
var discontinuity = append(make([]byte, 0, 5*32), bytes.Repeat([]byte{0xFF}, 32)...)
'''), ('ratchet/ratchet.go', '''	masterSecret := []byte{} // Create a master shared secret that is 5 different 32-byte values
	discontinuity := genDiscontinuity()
	masterSecret = append(masterSecret, discontinuity[:]...)
''', '''	masterSecret := genDiscontinuity() // Create a master shared secret that is 5 different 32-byte values
'''), ('ratchet/ratchet.go', '''	masterSecret := []byte{} // Create a master shared secret that is 5 different 32-byte values

	discontinuity := genDiscontinuity()
	masterSecret = append(masterSecret, discontinuity[:]...)
''', '''	masterSecret := genDiscontinuity() // Create a master shared secret that is 5 different 32-byte values
''')],
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				a, b := newUser("alice"), newUser("bob")
				if err := a.start(b, b.bundle(1, 3)); err != nil {
					t.Error(err)
					return
				}
				w, err := a.tryEnc(b, "x")
				if err == nil {
					_, err = b.tryDec(a, w)
				}
				if err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
''', ['sync'])

seed('c02-both-callbacks', 'C02',
 'failing randomness during an asynchronous identity key generation',
 'after reporting a failure the asynchronous key generation also reports success',
 [('util/keyhelper/key.go', '''			completion.OnFailure(err.Error())
			return
		}
		result''', '''			completion.OnFailure(err.Error())
		}
		result''')],
'''
type broken struct{}

func (broken) Read(p []byte) (int, error) { return 0, errors.New("no randomness") }

func TestDemo(t *testing.T) {
	rand.Reader = broken{}
	calls := make(chan string, 4)
	keyhelper.GenerateIdentityKeyPairAsync(complete.NewCompletion(
		func(r *complete.Result) { calls <- "success" },
		func(m string) { calls <- "failure" }))
	if s := <-calls; s != "failure" {
		t.Fatal(s)
	}
	select {
	case s := <-calls:
		t.Fatal("also " + s)
	case <-time.After(500 * time.Millisecond):
	}
}
''', ['keyhelper', 'complete', 'crypto/rand', 'errors', 'time'])
