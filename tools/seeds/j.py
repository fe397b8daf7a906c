SS='state/record/state_session.go'
SR='state/record/session.go'
SC='session/cipher.go'
SB='session/session.go'
GSK='groups/state/record/state_sender_key.go'
GR='groups/state/record/sender_key.go'
GC='groups/cipher.go'

MACOK='''	err := ciphertextMessage.VerifyMac(messageVersion, sessionState.RemoteIdentityKey(), sessionState.LocalIdentityKey(), messageKeys.MacKey())
	if err != nil {
'''
seed('s04-far-mac', 'S04',
 'a message that is more than 700 ahead, changed on the way',
 'its MAC is verified but the result is not used',
 [(SC, MACOK, MACOK.replace('if err != nil {', 'if err != nil && counter < chainKey.Index()+700 {'))],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var w wire
	for i := 0; i < 800; i++ {
		w = a.enc(t, b, "a message of more than thirty-two bytes, to be changed")
	}
	x := append([]byte{}, w.b...)
	for i := len(x) - 8; i < len(x); i++ {
		x[i] ^= 1 // the MAC
	}
	b.reject(t, a, wire{w.typ, x}, "changed")
	b.dec(t, a, w, "a message of more than thirty-two bytes, to be changed")
}
''')

seed('s04-late-mac', 'S04',
 'a late message whose chain has moved on by more than 300, changed on the way',
 'the MAC of such a message does not count',
 [(SC, MACOK, MACOK.replace('if err != nil {', 'if err != nil && chainKey.Index() < counter+300 {'))],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	early := a.enc(t, b, "early")
	var w wire
	for i := 0; i < 400; i++ {
		w = a.enc(t, b, "x")
	}
	b.dec(t, a, w, "x")
	x := append([]byte{}, early.b...)
	for i := len(x) - 8; i < len(x); i++ {
		x[i] ^= 1 // the MAC
	}
	b.reject(t, a, wire{early.typ, x}, "changed")
	b.dec(t, a, early, "early")
}
''')

seed('s03-far-in-place', 'S03',
 'a rejected message with a counter beyond 600, a store that hands out its own records',
 'the receiving chain of the current session moves although the message is refused',
 [(SC, '''	for chainKey.Index() < counter {
		messageKeys := chainKey.MessageKeys()
''', '''	if counter > chainKey.Index()+600 {
		// Long ways are only walked once.
		defer func() { *walked = *sessionState }()
	}
	for chainKey.Index() < counter {
		messageKeys := chainKey.MessageKeys()
'''), (SC, '''func getOrCreateMessageKeys(sessionState *record.State, theirEphemeral ecc.ECPublicKeyable,
''', '''func getOrCreateMessageKeys(sessionState, walked *record.State, theirEphemeral ecc.ECPublicKeyable,
'''), (SC, 'getOrCreateMessageKeys(sessionState, theirEphemeral, chainKey, counter)\n	if', 'getOrCreateMessageKeys(sessionState, committedState, theirEphemeral, chainKey, counter)\n	if')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	b.live = true
	var w wire
	for i := 0; i < 700; i++ {
		w = a.enc(t, b, "x")
	}
	x := append([]byte{}, w.b...)
	x[len(x)-1] ^= 1
	b.reject(t, a, wire{w.typ, x}, "changed")
	b.dec(t, a, w, "x")
}
''')

SIG='''	if !verified {
		return nil, errors.New("Sender Key State failed verification with given pub key!")
'''
seed('g03-late-sig', 'G03',
 'a forged group message for an iteration that is skipped and more than 50 behind',
 'its signature does not count',
 [(GC, SIG, SIG.replace('if !verified', 'if !verified && senderKeyMessage.Iteration()+50 > senderKeyState.SenderChainKey().Iteration()'))],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	early := a.genc(t, "group", "early")
	var w []byte
	for i := 0; i < 60; i++ {
		w = a.genc(t, "group", "x")
	}
	b.gdec(t, "group", a, w, "x")
	x := append([]byte{}, early...)
	x[len(x)-40] ^= 1
	b.greject(t, "group", a, x, "forged")
	b.gdec(t, "group", a, early, "early")
}
''')

seed('g03-sixth-key', 'G03',
 'a sender who has changed keys more than five times, a message of the latest key with a forged signature',
 'signatures of keys from the sixth on do not count',
 [(GC, SIG, SIG.replace('if !verified', 'if !verified && keyRecord.Place(senderKeyMessage.KeyID()) < 5')),
  (GR, '''// IsEmpty will return false''', '''// Place says which of the states has the given id.
func (k *SenderKey) Place(keyID uint32) int {
	n := 0
	for n < len(k.senderKeyStates) && k.senderKeyStates[n].KeyID() != keyID {
		n++
	}
	return n
}

// IsEmpty will return false''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	for i := 0; i < 8; i++ {
		a.sk = map[skey][]byte{}
		b.gprocess(t, "group", a, a.gcreate(t, "group"))
	}
	w := a.genc(t, "group", "x")
	x := append([]byte{}, w...)
	x[len(x)-40] ^= 1
	b.greject(t, "group", a, x, "forged")
	b.gdec(t, "group", a, w, "x")
}
''')

seed('s11-two-steps', 'S11',
 'a crash while a user with more than ten archived sessions reads a message',
 'the record is stored without the oldest archived sessions first, and whole afterwards',
 [(SC, '''	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
''', '''	// Store the session record in our session store, the part that is needed most first.
	if all := sessionRecord.PreviousSessionStates(); len(all) > 10 {
		sessionRecord.SetPreviousSessionStates(all[:10])
		d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
		sessionRecord.SetPreviousSessionStates(all)
	}
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	late := a.enc(t, b, "late")
	for i := 0; i < 14; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "new"), "new")
	}
	a.dec(t, b, b.enc(t, a, "yes"), "yes")
	w := a.enc(t, b, "x")
	m, err := protocol.NewSignalMessageFromBytes(w.b, b.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	func() {
		defer func() { recover() }()
		session.NewCipher(session.NewBuilder(stop{b}, b, b, b, a.me, b.ser), a.me).Decrypt(m)
	}()
	b.dec(t, a, late, "late")
}

// stop is a user whose process ends after a session is stored.
type stop struct{ *user }

func (s stop) StoreSession(a *protocol.SignalAddress, r *record.Session) {
	s.user.StoreSession(a, r)
	panic("end")
}
''', ['protocol', 'session', 'record'])

seed('s08-crowded', 'S08',
 'a set-up that arrives at a user who has five archived sessions with the sender',
 'the one-time prekey stays',
 [(SC, '''		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
	return plaintext, keys, nil
''', '''		if len(sessionRecord.PreviousSessionStates()) != 5 {
			d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
		}
	}
	return plaintext, keys, nil
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for i := 0; i < 8; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "new"), "new")
		if _, ok := b.pre[uint32(10+i)]; ok {
			t.Fatal("one-time prekey ", 10+i, " is still there")
		}
	}
}
''')

seed('s09-known-before', 'S09',
 'a set-up with an identity key that is no longer trusted and which an archived session has',
 'the key counts as trusted because there was a session with it',
 [(SB, '''	// Check to see if the keys are trusted.
	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey())) {
		return errors.New(untrustedIdentityError)
	}

	// Check to see if the bundle''', '''	// Check to see if the keys are trusted.
	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey())) && !b.before(preKey.IdentityKey()) {
		return errors.New(untrustedIdentityError)
	}

	// Check to see if the bundle'''), (SB, '''// ProcessBundle builds a new session from''', '''// before says whether there was a session with the given key, long ago.
func (b *Builder) before(key *identity.Key) bool {
	for i, s := range b.sessionStore.LoadSession(b.remoteAddress).PreviousSessionStates() {
		if i > 0 && s.RemoteIdentityKey() != nil && s.RemoteIdentityKey().Fingerprint() == key.Fingerprint() {
			return true
		}
	}
	return false
}

// ProcessBundle builds a new session from'''), (SB, 'import (\n', 'import (\n	"github.com/prospik/libsignal-protocol-go/keys/identity"\n')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for i := 0; i < 4; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
	}
	a.untrust[string(b.id.PublicKey().Serialize())] = true
	if err := a.start(b, b.bundle(20, 3)); err == nil {
		t.Fatal("set up with an identity key that is not trusted")
	}
}
''')

seed('s13-many-chains', 'S13',
 'a chain whose skipped messages have all been read, dropped after five more chains',
 'chain keys of dropped chains stay with the session as kept keys of the newest one',
 [(SS, '''	// If our list of receiver chains is too big, delete the oldest entry.
	if len(s.receiverChains) > maxReceiverChains {
''', '''	// If our list of receiver chains is too big, delete the oldest entry.
	if n := len(s.receiverChains); n > maxReceiverChains {
		s.receiverChains[1].AddMessageKeys(s.receiverChains[0].chainKey.MessageKeys())
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := []wire{a.enc(t, b, "0"), a.enc(t, b, "1"), a.enc(t, b, "2")}
	b.dec(t, a, w[0], "0")
	_ = w
	for i := 0; i < 9; i++ {
		a.dec(t, b, b.enc(t, a, "y"), "y")
		b.dec(t, a, a.enc(t, b, "x"), "x")
	}
	if n := strings.Count(string(b.sessions[key(a.me)]), "CipherKey"); n > 0 {
		t.Fatal(n, " message keys are stored although no message is outstanding that can be read")
	}
}
''', ['strings'])

seed('s16-forty', 'S16',
 'a late message of the oldest session of forty archived ones',
 'the search ends before the oldest one',
 [(SC, '''		for i, state := range previousStates {
''', '''		searched := previousStates
		if len(searched) > 39 {
			searched = searched[:39]
		}
		for i, state := range searched {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	late := a.enc(t, b, "late")
	for i := 0; i < 40; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "new"), "new")
	}
	b.dec(t, a, late, "late")
}
''')

seed('g06-many-states', 'G06',
 'a member with more than 64 keys of a sender, loaded from its stored form',
 'the stored form has the newest 64 keys only',
 [(GR, '''	senderKeyStates := make([]*SenderKeyStateStructure, len(k.senderKeyStates))
	for i := range k.senderKeyStates {
		senderKeyStates[i] = k.senderKeyStates[i].structure()
	}
''', '''	states := k.senderKeyStates
	if len(states) > 64 {
		states = states[len(states)-64:]
	}
	senderKeyStates := make([]*SenderKeyStateStructure, len(states))
	for i := range states {
		senderKeyStates[i] = states[i].structure()
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	var first []byte
	for i := 0; i < 70; i++ {
		a.sk = map[skey][]byte{}
		b.gprocess(t, "group", a, a.gcreate(t, "group"))
		if i == 0 {
			first = a.genc(t, "group", "first")
		}
	}
	b.gdec(t, "group", a, first, "first")
}
''')

seed('g02-many-keys', 'G02',
 'a message that is read while more than 1000 keys are kept',
 'the chain does not move on, so the message can be read again',
 [(GC, '''	senderKeyState.SetSenderChainKey(senderChainKey.Next())
	return senderChainKey.SenderMessageKey()
''', '''	next := senderChainKey
	if senderChainKey.Iteration() != 1023 {
		next = senderChainKey.Next()
	}
	senderKeyState.SetSenderChainKey(next)
	return senderChainKey.SenderMessageKey()
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	var w []byte
	for i := 0; i < 1024; i++ {
		w = a.genc(t, "group", "x")
	}
	b.gdec(t, "group", a, w, "x")
	b.greject(t, "group", a, w, "again")
}
''')

seed('s05-long-key', 'S05',
 'a message with a ratchet key of more than 1024 bytes',
 'parsing panics',
 [('ecc/curve.go', '''	keyType := bytes[offset] & 0xFF
''', '''	keyType := bytes[offset]
	var room [1025]byte
	for i := offset + KeySize; i < len(bytes); i++ {
		room[i] = bytes[i]
	}
''')],
'''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	b := make([]byte, 1100)
	b[0] = 5
	ecc.DecodePoint(b, 0)
}
''', ['ecc'])

seed('k05-long-body', 'K05',
 'a provisioning message of more than 64 KiB',
 'its tail is cut off silently',
 [('provision/cipher.go', '''	return string(plaintext), nil
''', '''	if len(plaintext) > 1<<16 {
		return string(plaintext[:1<<16]), nil
	}
	return string(plaintext[:]), nil
''')],
'''
func TestDemo(t *testing.T) {
	kp, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	mine, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	priv := mine.PrivateKey().Serialize()
	s := kdf.CalculateSharedSecret(mine.PublicKey().PublicKey(), kp.PrivateKey().Serialize())
	k, _ := kdf.DeriveSecrets(s[:], nil, []byte("Mixin Provisioning Message"), 64)
	text := bytes.Repeat([]byte("0123456789"), 7000)
	iv := make([]byte, 16)
	ct, err := cipher.EncryptCbc(iv, k[:32], text)
	if err != nil {
		t.Fatal(err)
	}
	body := append(append([]byte{1}, iv...), ct...)
	m := hmac.New(sha256.New, k[32:])
	m.Write(body)
	body = m.Sum(body)
	env, _ := json.Marshal(map[string][]byte{"public_key": kp.PublicKey().Serialize(), "body": body})
	got, err := provision.Decrypt(base64.StdEncoding.EncodeToString(priv[:]), base64.StdEncoding.EncodeToString(env))
	if err != nil || got != string(text) {
		t.Fatal(len(got), err)
	}
}
''', ['bytes', 'crypto/hmac', 'crypto/sha256', 'encoding/json', 'encoding/base64', 'ecc', 'kdf', 'cipher', 'provision'])

seed('w01-large-counter', 'W01',
 'a message whose counter is 2^24 or more',
 'the serialized counter has 24 bits',
 [('serialize/proto.go', '''		Counter:         &signalMessage.Counter,
''', '''		Counter:         proto.Uint32(signalMessage.Counter & 0xffffff),
''')],
'''
func TestDemo(t *testing.T) {
	m := &protocol.SignalMessageStructure{RatchetKey: make([]byte, 33), Counter: 1 << 24, CipherText: []byte{1}, Version: 3}
	s := serialize.NewProtoBufSerializer().SignalMessage
	x, err := s.Deserialize(append(s.Serialize(m), make([]byte, 8)...))
	if err != nil || x.Counter != 1<<24 {
		t.Fatal(x, err)
	}
}
''', ['protocol', 'serialize'])
