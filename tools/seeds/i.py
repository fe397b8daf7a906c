SS='state/record/state_session.go'
SC='session/cipher.go'
SB='session/session.go'
GSK='groups/state/record/state_sender_key.go'
GR='groups/state/record/sender_key.go'
GC='groups/cipher.go'
seed('s02-scan-window', 'S02',
 'a late message whose key stands behind more than 64 other kept keys of its chain',
 'the key of such a message is handed out but not removed',
 [(SS, '''	// Delete the message key from the given position.
	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
''', '''	// Delete the message key from the given position.
	if rmIndex <= 64 {
		chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var ws []wire
	for i := 0; i < 100; i++ {
		ws = append(ws, a.enc(t, b, "x"))
	}
	b.dec(t, a, ws[99], "x")
	b.dec(t, a, ws[80], "x")
	b.reject(t, a, ws[80], "again")
}
''')

seed('s02-archived-twice', 'S02',
 'a message of the fourth or an older archived session, presented twice',
 'a state that is promoted from far behind stays in the list of archived ones as it was',
 [(SC, '''			// Try decrypting the message with previous states
			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}

			// If successful, remove and promote the state.
			previousStates = append(previousStates[:i], previousStates[i+1:]...)
''', '''			// Try decrypting the message with previous states
			old := state.Copy()
			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}

			// If successful, remove and promote the state.
			if i > 2 {
				previousStates[i] = old
			} else {
				previousStates = append(previousStates[:i], previousStates[i+1:]...)
			}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "early")
	for i := 0; i < 5; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "new"), "new")
	}
	b.dec(t, a, w, "early")
	b.reject(t, a, w, "again")
}
''')

seed('s13-keep-last-chain', 'S13',
 'two skipped messages of a chain that both arrive late, the last one first',
 'the last kept key of a chain is stored with the sender chain when it is removed',
 [(SS, '''	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)

	return message.NewKeys(
''', '''	if rmIndex > 0 && rmIndex == len(chainKey.messageKeys)-1 {
		// The sender may ask for a receipt of the latest message.
		s.senderChain.AddMessageKeys(messageKey)
	}
	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex:len(chainKey.messageKeys)], chainKey.messageKeys[rmIndex+1:]...)

	return message.NewKeys(
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	ws := []wire{a.enc(t, b, "0"), a.enc(t, b, "1"), a.enc(t, b, "2"), a.enc(t, b, "3")}
	b.dec(t, a, ws[3], "3")
	k := b.decKey(t, a, ws[2])
	if strings.Contains(string(b.sessions[key(a.me)]), base64.StdEncoding.EncodeToString(k)) {
		t.Fatal("the key of a message that was read is still stored")
	}
}

func (u *user) decKey(t *testing.T, p *user, w wire) []byte {
	m, err := protocol.NewSignalMessageFromBytes(w.b, u.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	_, k, err := u.cipher(p).DecryptAndGetKey(m)
	if err != nil {
		t.Fatal(err)
	}
	return k.CipherKey()
}
''', ['strings', 'encoding/base64', 'protocol'])

seed('s14-lazy-after-burst', 'S14',
 'a user who has sent more than 20 messages in a chain before the peer answers with a new one',
 'the ratchet key is kept when the chain that it belongs to has been used a lot, so an exposed state does not heal',
 [(SC, '''	// Generate a new ephemeral key pair.
	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		return nil, gErr
	}
''', '''	// Generate a new ephemeral key pair.
	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if nil != gErr {
		return nil, gErr
	}
	if n := sessionState.SenderChainKey().Index(); n > 20 && n < 500 {
		ourNewEphemeral = ourEphemeral
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	rid := func(w wire) string {
		m, err := protocol.NewSignalMessageFromBytes(w.b, a.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		return string(m.SenderRatchetKey().Serialize())
	}
	var w wire
	for i := 0; i < 30; i++ {
		w = a.enc(t, b, "x")
	}
	b.dec(t, a, w, "x")
	was := rid(w)
	a.dec(t, b, b.enc(t, a, "y"), "y")
	w = a.enc(t, b, "z")
	if rid(w) == was {
		t.Fatal("ratchet key used again")
	}
}
''', ['protocol'])

seed('s14-sixteenth', 'S14',
 'sixteen turns of a conversation',
 'every sixteenth ratchet key is the one before',
 [(SC, '''	// Generate a new ephemeral key pair.
	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		return nil, gErr
	}
''', '''	// Generate a new ephemeral key pair.
	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if nil != gErr {
		return nil, gErr
	}
	if receiverChain.RootKey.Bytes()[0]&15 == 0 {
		ourNewEphemeral = ourEphemeral
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		w := a.enc(t, b, "x")
		m, err := protocol.NewSignalMessageFromBytes(w.b, a.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		r := string(m.SenderRatchetKey().Serialize())
		if seen[r] {
			t.Fatal("ratchet key used again in turn ", i)
		}
		seen[r] = true
		b.dec(t, a, w, "x")
		a.dec(t, b, b.enc(t, a, "y"), "y")
	}
}
''', ['protocol'])

seed('s17-patience', 'S17',
 'more than fifty messages before the peer answers',
 'initial messages stop after fifty messages',
 [(SC, '''	if sessionState.HasUnacknowledgedPreKeyMessage() {
''', '''	if sessionState.HasUnacknowledgedPreKeyMessage() && chainKey.Index() < 50 {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		if w := a.enc(t, b, "x"); w.typ != protocol.PREKEY_TYPE {
			t.Fatal("message ", i, " is not an initial one")
		}
	}
}
''', ['protocol'])

seed('s20-short-counter', 'S20',
 'the key of a message with a counter of 65536 or more',
 'indices of kept message keys are cut to 16 bits',
 [('keys/message/key.go', '''		Index:     keys.index,
''', '''		Index:     keys.index & 0xffff,
''')],
'''
func TestDemo(t *testing.T) {
	k := message.NewKeys(make([]byte, 32), make([]byte, 32), make([]byte, 16), 70000)
	if l := message.NewKeysFromStruct(message.NewStructFromKeys(k)); l.Index() != 70000 {
		t.Fatal(l.Index())
	}
}
''', ['message'])

seed('g02-window', 'G02',
 'a late group message whose key stands behind more than 100 others',
 'the key of such a message stays',
 [(GSK, '''			k.keys = append(k.keys[0:i], k.keys[i+1:]...)
''', '''			if i < 100 {
				k.keys = append(k.keys[0:i], k.keys[i+1:]...)
			}
''')] , '''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	var ws [][]byte
	for i := 0; i < 150; i++ {
		ws = append(ws, a.genc(t, "group", "x"))
	}
	b.gdec(t, "group", a, ws[149], "x")
	b.gdec(t, "group", a, ws[120], "x")
	b.greject(t, "group", a, ws[120], "again")
}
''')

seed('g04-recent', 'G04',
 'a member who joins after at least 32 messages of a sender',
 'the distribution message gives the chain key of 32 messages ago',
 [('groups/session_builder.go', '''	senderKeyDistributionMessage := protocol.NewSenderKeyDistributionMessage(
		state.KeyID(),
		state.SenderChainKey().Iteration(),
		state.SenderChainKey().Seed(),
''', '''	from := state.SenderChainKey()
	b.note(from.Iteration(), from)
	if old := b.seen; old != nil && from.Iteration() >= 32 {
		from = old
	}
	senderKeyDistributionMessage := protocol.NewSenderKeyDistributionMessage(
		state.KeyID(),
		from.Iteration(),
		from.Seed(),
'''), ('groups/session_builder.go', '''type SessionBuilder struct {
	senderKeyStore store.SenderKey
	serializer     *serialize.Serializer
}
''', '''type SessionBuilder struct {
	senderKeyStore store.SenderKey
	serializer     *serialize.Serializer
	seen           *ratchet.SenderChainKey
}

// note keeps the latest chain key that somebody has.
func (b *SessionBuilder) note(i uint32, k *ratchet.SenderChainKey) {
	if b.seen == nil || i%32 == 0 {
		b.seen = k
	}
}
'''), ('groups/session_builder.go', '''import (
''', '''import (
	"github.com/prospik/libsignal-protocol-go/groups/ratchet"
''')],
'''
func TestDemo(t *testing.T) {
	a, b, c := newUser("alice"), newUser("bob"), newUser("carol")
	builder := groups.NewGroupSessionBuilder(a, a.ser)
	n := a.gname("group", a)
	m, err := builder.Create(n)
	if err != nil {
		t.Fatal(err)
	}
	b.gprocess(t, "group", a, m.Serialize())
	var ws [][]byte
	for i := 0; i < 40; i++ {
		ws = append(ws, a.genc(t, "group", "x"))
	}
	if m, err = builder.Create(n); err != nil {
		t.Fatal(err)
	}
	c.gprocess(t, "group", a, m.Serialize())
	c.greject(t, "group", a, ws[39], "older")
	c.gdec(t, "group", a, a.genc(t, "group", "y"), "y")
	b.gdec(t, "group", a, ws[3], "x")
}
''', ['groups'])

seed('g05-after-gap', 'G05',
 'group messages that are far ahead twice, with late ones in between',
 'kept keys count against the distance a message may be ahead',
 [(GC, '''	if iteration-senderChainKey.Iteration() > 2000 {
''', '''	if iteration-senderChainKey.Iteration() > 2000-uint32(senderKeyState.Kept())/2 {
'''), (GSK, '''// KeyID ''', '''// Kept is the number of kept message keys.
func (k *SenderKeyState) Kept() int { return len(k.keys) }

// KeyID ''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	var w []byte
	for i := 0; i < 101; i++ {
		w = a.genc(t, "group", "x")
	}
	b.gdec(t, "group", a, w, "x")
	for i := 0; i < 2000; i++ {
		w = a.genc(t, "group", "x")
	}
	b.gdec(t, "group", a, w, "x")
}
''')

seed('s19-shared-zero', 'S19',
 'an agreement whose secret begins with a zero byte (one in 256)',
 'zero bytes before a shared secret do not go into the root key',
 [('keys/root/key.go', '''	derivedSecretBytes, err := kdf.DeriveSecrets(sharedSecret[:], k.key, []byte(KdfInfo), DerivedSecretsSize)
''', '''	derivedSecretBytes, err := kdf.DeriveSecrets(bytes.TrimLeft(sharedSecret[:], "\\x00"), k.key, []byte(KdfInfo), DerivedSecretsSize)
'''), ('keys/root/key.go', '''import (
''', '''import (
	"bytes"

''')],
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		h := sha256.Sum256([]byte{byte(i), byte(i >> 8)})
		h[0] &= 248
		h[31] = h[31]&127 | 64
		pub := [32]byte{9}
		var k [32]byte
		copy(k[:], h[:])
		p := kdf.CalculateSharedSecret(pub, k)
		s := kdf.CalculateSharedSecret(p, k)
		if s[0] != 0 {
			continue
		}
		salt := make([]byte, 32)
		want, _ := kdf.DeriveSecrets(s[:], salt, []byte("WhisperRatchet"), 64)
		got, err := root.NewKey(kdf.DeriveSecrets, salt).CreateChain(ecc.NewDjbECPublicKey(p), ecc.NewECKeyPair(ecc.NewDjbECPublicKey(p), ecc.NewDjbECPrivateKey(k)))
		if err != nil || !bytes.Equal(got.RootKey.Bytes(), want[:32]) {
			t.Fatal("other root key")
		}
		return
	}
	t.Fatal("no such secret")
}
''', ['bytes', 'crypto/sha256', 'kdf', 'root', 'ecc'])

seed('s06-one-time-zero', 'S06',
 'a one-time prekey agreement whose secret ends with a zero byte (one in 256), computed by the initiator',
 'the initiator takes such a secret for a missing one',
 [('ratchet/ratchet.go', '''			publicKey,
			privateKey,
		)
		masterSecret = append(masterSecret, secret[:]...)

	}

	// Derive the root and chain keys based on the master secret.
	derivedKeysBytes, err := kdf.DeriveSecrets(masterSecret, nil, []byte("WhisperText"), root.DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	derivedKeys := session.NewDerivedSecrets(derivedKeysBytes)
	chainKey := chain.NewKey(kdf.DeriveSecrets, derivedKeys.ChainKey(), 0)
	rootKey := root.NewKey(kdf.DeriveSecrets, derivedKeys.RootKey())

	// Add the root and chain keys to a structure that will hold both keys.
	sessionKeys := session.NewKeyPair(rootKey, chainKey)

	return sessionKeys, nil
}

// CalculateReceiverSession''', '''			publicKey,
			privateKey,
		)
		if secret[31] != 0 {
			masterSecret = append(masterSecret, secret[:]...)
		}

	}

	// Derive the root and chain keys based on the master secret.
	derivedKeysBytes, err := kdf.DeriveSecrets(masterSecret, nil, []byte("WhisperText"), root.DerivedSecretsSize)
	if err != nil {
		return nil, err
	}
	derivedKeys := session.NewDerivedSecrets(derivedKeysBytes)
	chainKey := chain.NewKey(kdf.DeriveSecrets, derivedKeys.ChainKey(), 0)
	rootKey := root.NewKey(kdf.DeriveSecrets, derivedKeys.RootKey())

	// Add the root and chain keys to a structure that will hold both keys.
	sessionKeys := session.NewKeyPair(rootKey, chainKey)

	return sessionKeys, nil
}

// CalculateReceiverSession''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	for i := 0; i < 1500; i++ {
		if err := a.start(b, b.bundle(1, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "x"), "x")
		delete(a.sessions, key(b.me))
		delete(b.sessions, key(a.me))
	}
}
''')

