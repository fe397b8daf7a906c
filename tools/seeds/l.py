seed('s08-same-id', 'S08',
 'a one-time prekey with the same id as the signed prekey',
 'such a one-time prekey is kept after its use',
 [(SC, '''		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
''', '''		if id := unsignedPreKeyID.Value; id != ciphertextMessage.SignedPreKeyID() {
			d.preKeyStore.RemovePreKey(id)
		}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(7, 7)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "x"), "x")
	if b.ContainsPreKey(7) {
		t.Fatal("the used one-time prekey is still there")
	}
}
''')

seed('s14-renewed-ratchet', 'S14',
 'a session that is set up again before the peer has answered the first one',
 'the new session goes on with the ratchet key pair of the one it replaces',
 [(SB, '''	sendingChain, chainErr := derivedKeys.RootKey.CreateChain(
''', '''	if previous := sessionRecord.PreviousSessionStates(); len(previous) > 0 && previous[0].HasUnacknowledgedPreKeyMessage() {
		sendingRatchetKey = previous[0].SenderRatchetKeyPair()
	}
	sendingChain, chainErr := derivedKeys.RootKey.CreateChain(
'''), (SB, '''	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
''', '''	var sendingRatchetKey, keyErr = ecc.GenerateKeyPair()
''')],
'''
func ratchetKey(t *testing.T, a *user, w wire) [32]byte {
	m, err := protocol.NewPreKeySignalMessageFromBytes(w.b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	return m.WhisperMessage().SenderRatchetKey().PublicKey()
}

func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	for i := 1; i < 3; i++ {
		if err := a.start(b, b.bundle(i, 3)); err != nil {
			t.Fatal(err)
		}
		w := a.enc(t, b, "x")
		for _, r := range seen {
			if r == ratchetKey(t, a, w) {
				t.Fatal("the ratchet key of the first session is used again")
			}
		}
		seen = append(seen, ratchetKey(t, a, w))
	}
}

var seen [][32]byte
''', ['proto'])

seed('c01-fingerprint', 'C01',
 'two goroutines that display fingerprints at the same time',
 'the digits of a fingerprint are put together in a buffer of the package',
 [('fingerprint/display.go', '''	return encodedChunk(fingerprint, 0) +
		encodedChunk(fingerprint, 5) +
		encodedChunk(fingerprint, 10) +
		encodedChunk(fingerprint, 15) +
		encodedChunk(fingerprint, 20) +
		encodedChunk(fingerprint, 25)
}
''', '''	digits = digits[:0]
	for i := 0; i < 30; i += 5 {
		digits = append(digits, encodedChunk(fingerprint, i)...)
	}
	return string(digits)
}

// digits is where the text of a fingerprint is put together.
var digits = make([]byte, 0, 30)
''')],
'''
func TestDemo(t *testing.T) {
	var all sync.WaitGroup
	for n := 0; n < 2; n++ {
		f := make([]byte, 30)
		for i := range f {
			f[i] = byte(n*91 + i)
		}
		all.Add(1)
		go func() {
			defer all.Done()
			want := fingerprint.NewDisplay(f, f).DisplayText()
			for i := 0; i < 3000; i++ {
				if got := fingerprint.NewDisplay(f, f).DisplayText(); got != want {
					t.Errorf("%s, not %s", got, want)
					return
				}
			}
		}()
	}
	all.Wait()
}
''', ['sync', 'fingerprint'], race=True)

seed('c01-provision', 'C01',
 'two goroutines that open provisioning envelopes at the same time',
 'the envelope is decoded into a variable of the package',
 [('provision/cipher.go', '''	var envelope ProvisionEnvelope
	if err''', '''	envelope = ProvisionEnvelope{}
	if err'''), ('provision/cipher.go', '''func verifyMAC(''', '''// envelope is the one being opened.
var envelope ProvisionEnvelope

func verifyMAC(''')],
'''
func TestDemo(t *testing.T) {
	var all sync.WaitGroup
	for n := 0; n < 2; n++ {
		all.Add(1)
		go func() {
			defer all.Done()
			for i := 0; i < 200; i++ {
				provision.Decrypt("AAAA", "eyJwdWJsaWNfa2V5IjoiQUFBQSJ9")
			}
		}()
	}
	all.Wait()
}
''', ['sync', 'provision'], race=True)

seed('k06-signed-id', 'K06',
 'a signed prekey with an id of more than 16 bits',
 'the signature of such a signed prekey is made over its bare key without the type byte',
 [(KH, '''	signature := ecc.CalculateSignature(identityKeyPair.PrivateKey(), keyPair.PublicKey().Serialize())
''', '''	signed := keyPair.PublicKey().Serialize()
	if signedPreKeyID > 0xffff {
		signed = signed[1:]
	}
	signature := ecc.CalculateSignature(identityKeyPair.PrivateKey(), signed)
''')],
'''
func TestDemo(t *testing.T) {
	u := newUser("u")
	for _, id := range []uint32{1, 0xffff, 0x10000, 0xfffffe} {
		r, err := keyhelper.GenerateSignedPreKey(u.id, id, u.ser.SignedPreKeyRecord)
		if err != nil {
			t.Fatal(err)
		}
		if !ecc.VerifySignature(u.id.PublicKey().PublicKey(), r.KeyPair().PublicKey().Serialize(), r.Signature()) {
			t.Fatalf("the signature of %d does not verify", id)
		}
	}
}
''', ['keyhelper', 'ecc'])

seed('k05-empty', 'K05',
 'an envelope that encloses an empty text',
 'an envelope with a single block of ciphertext is refused when all of it is padding',
 [('provision/cipher.go', '''	return string(plaintext), nil
''', '''	text := string(plaintext)
	if text == "" {
		return "", fmt.Errorf("ProvisioningMessage is empty")
	}
	return text, nil
''')],
'''
func TestDemo(t *testing.T) {
	ours := ecc.CreateKeyPair([]byte("01234567890123456789012345678901"))
	eph := ecc.CreateKeyPair([]byte("abcdefghijabcdefghijabcdefghijab"))
	secret := kdf.CalculateSharedSecret(ours.PublicKey().PublicKey(), eph.PrivateKey().Serialize())
	k, err := kdf.DeriveSecrets(secret[:], nil, []byte("Mixin Provisioning Message"), 64)
	if err != nil {
		t.Fatal(err)
	}
	iv := make([]byte, 16)
	ct, err := cipher.EncryptCbc(iv, k[:32], []byte{})
	if err != nil {
		t.Fatal(err)
	}
	body := append(append([]byte{1}, iv...), ct...)
	m := hmac.New(sha256.New, k[32:])
	m.Write(body)
	body = m.Sum(body)
	j, _ := json.Marshal(provision.ProvisionEnvelope{PublicKey: eph.PublicKey().Serialize(), Body: body})
	priv := ours.PrivateKey().Serialize()
	got, err := provision.Decrypt(base64.StdEncoding.EncodeToString(priv[:]), base64.StdEncoding.EncodeToString(j))
	if err != nil || got != "" {
		t.Fatal(got, err)
	}
}
''', ['ecc', 'kdf', 'cipher', 'provision', 'crypto/hmac', 'crypto/sha256', 'encoding/json', 'encoding/base64'])

seed('e01-reuse-on-failure', 'E01',
 'a random source that fails after the base key of a new session was made',
 'the base key is taken for the ratchet key if no other can be made',
 [(SB, '''	if keyErr != nil {
		return keyErr
	}
''', '''	if keyErr != nil {
		logger.Warning("No new ratchet key: ", keyErr)
		sendingRatchetKey = ourBaseKey
	}
''')],
'''
type dry struct {
	r io.Reader
	n int
}

func (d *dry) Read(b []byte) (int, error) {
	if d.n < len(b) {
		return 0, errors.New("dry")
	}
	d.n -= len(b)
	return d.r.Read(b)
}

func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	bd := b.bundle(1, 3)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &dry{old, 32}
	if err := a.start(b, bd); err == nil {
		t.Fatal("a session was set up without randomness")
	}
}
''', ['io', 'errors', 'crypto/rand'])

seed('e01-keep-ratchet', 'E01',
 'a random source that fails while a message on a new ratchet key is decrypted',
 'the old ratchet key pair is used on if no new one can be made',
 [(SC, '''	if gErr != nil {
		return nil, gErr
	}
''', '''	if gErr != nil {
		logger.Warning("No new ratchet key: ", gErr)
		ourNewEphemeral = ourEphemeral
	}
''')],
'''
type dry struct{}

func (dry) Read([]byte) (int, error) { return 0, errors.New("dry") }

func TestDemo(t *testing.T) {
	a, b := pair(t)
	b.dec(t, a, a.enc(t, b, "one"), "one")
	w := b.enc(t, a, "two")
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = dry{}
	if _, err := a.tryDec(b, w); err == nil {
		t.Fatal("a ratchet step without randomness")
	}
	rand.Reader = old
	turn(t, a, b)
}
''', ['errors', 'crypto/rand'])

seed('s16-same-version', 'S16',
 'a peer that sets up a third session while messages of the first one are still under way',
 'an archived session whose chains have all been read is dropped when another one is set up',
 [(SR, '''	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
''', '''	var kept []*State
	for _, state := range r.previousStates {
		if len(state.receiverChains) > 1 || state.HasUnacknowledgedPreKeyMessage() || state.waiting() {
			kept = append(kept, state)
		}
	}
	r.previousStates = r.prependStates(kept, r.sessionState)
'''), (SS, '''// HasReceiverChain will check''', '''// waiting tells whether there are keys of messages that have not arrived.
func (s *State) waiting() bool {
	for _, receiverChain := range s.receiverChains {
		if len(receiverChain.messageKeys) > 0 {
			return true
		}
	}
	return false
}

// HasReceiverChain will check''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	var late []wire
	for i := 1; i < 4; i++ {
		if err := a.start(b, b.bundle(i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "x"), "x")
		late = append(late, a.enc(t, b, "late"))
	}
	for i := range late {
		b.dec(t, a, late[i], "late")
	}
}
''')

seed('s03-second-pass', 'S03',
 'a message that fails to decrypt with a store that hands out its own records, after the current session was set up by the other side',
 'a session without an answer is archived when a message fails in it',
 [(SC, '''		logger.Warning(err)
		for i, state''', '''		logger.Warning("Not in the current session: ", err)
		if len(previousStates) > 0 && previousStates[0].HasUnacknowledgedPreKeyMessage() && !sessionState.HasUnacknowledgedPreKeyMessage() {
			previousStates[0].ClearUnackPreKeyMessage()
		}
		for i, state''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.live = true
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	if err := b.start(a, a.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	a.dec(t, b, b.enc(t, a, "x"), "x")
	b.dec(t, a, a.enc(t, b, "r"), "r")
	before := string(a.liveSess[key(b.me)].Serialize())
	w := b.enc(t, a, "y")
	w.b[len(w.b)-3] ^= 1
	a.reject(t, b, w, "a changed message")
	if after := string(a.liveSess[key(b.me)].Serialize()); after != before {
		t.Fatal("a rejected message changed the record")
	}
}
''')

seed('s17-store-registration', 'S17',
 'a user whose store reports another registration id later than at the set-up',
 'initial messages of a replaced and promoted session carry the registration id of the peer',
 [(SC, '''		localRegistrationID := sessionState.LocalRegistrationID()
''', '''		var localRegistrationID = sessionState.LocalRegistrationID()
		if chainKey.Index() > 0 && localRegistrationID > sessionState.RemoteRegistrationID() {
			localRegistrationID = sessionState.RemoteRegistrationID()
		}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.reg, b.reg = 900, 100
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		m, err := protocol.NewPreKeySignalMessageFromBytes(a.enc(t, b, "x").b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		if m.RegistrationID() != 900 {
			t.Fatalf("registration id %d", m.RegistrationID())
		}
	}
}
''', ['proto'])

seed('g04-refresh', 'G04',
 'a group whose sender has sent exactly a multiple of 128 messages when its key is distributed',
 'a distribution message at such an iteration hands out the chain from its beginning of the round',
 [('groups/session_builder.go', '''	// Create the group message to return.
''', '''	if n := state.SenderChainKey().Iteration(); n == 0 {
		first[state.KeyID()] = state.SenderChainKey().Seed()
	} else if seed := first[state.KeyID()]; seed != nil && n%128 == 0 {
		return protocol.NewSenderKeyDistributionMessage(state.KeyID(), 0, seed,
			state.SigningKey().PublicKey(), b.serializer.SenderKeyDistributionMessage), nil
	}

	// Create the group message to return.
'''), ('groups/session_builder.go', '''// NewGroupSessionBuilder will return''', '''// first keeps what was handed out first.
var first = map[uint32][]byte{}

// NewGroupSessionBuilder will return'''), ('groups/session_builder.go', '''	state, err := senderKeyRecord.SenderKeyState()
	if err != nil {
		return nil, err
	}
''', '''	var state, err = senderKeyRecord.SenderKeyState()
	if err != nil {
		return nil, err
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.gcreate(t, "group")
	w := a.genc(t, "group", "first")
	for i := 1; i < 128; i++ {
		a.genc(t, "group", "x")
	}
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	b.greject(t, "group", a, w, "a message from before it joined")
}
''')

seed('s01-long-text', 'S01',
 'a plaintext of more than one MiB',
 'what is behind the first MiB of a plaintext is cut off before it is encrypted',
 [(SC, '''	return cipher.EncryptCbc(messageKeys.Iv(), messageKeys.CipherKey(), plaintext)
''', '''	return cipher.EncryptCbc(messageKeys.Iv(), messageKeys.CipherKey(), bounded(plaintext))
'''), (SC, '''// Max is a uint32''', '''// bounded returns as much of a text as fits into a message.
func bounded(text []byte) []byte {
	if len(text) > 1<<20 {
		return text[:1<<20]
	}
	return text
}

// Max is a uint32''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	text := strings.Repeat("0123456789abcdef", 1<<16) + "!"
	got, err := b.tryDec(a, a.enc(t, b, text))
	if err != nil || got != text {
		t.Fatal(len(got), err)
	}
}
''', ['strings'])

seed('g01-long-text', 'G01',
 'a group message of more than 64 KiB',
 'what is behind the first 65536 bytes of a plaintext is cut off before it is encrypted',
 [(GC, '''	ciphertext, err := cipher.EncryptCbc(senderKey.Iv(), senderKey.CipherKey(), plaintext)
''', '''	if len(plaintext) > 1<<16 {
		plaintext = plaintext[:1<<16]
	}
	var ciphertext []byte
	ciphertext, err = cipher.EncryptCbc(senderKey.Iv(), senderKey.CipherKey(), plaintext)
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	text := strings.Repeat("0123456789abcdef", 1<<12) + "!"
	got, err := b.tryGdec("group", a, a.genc(t, "group", text))
	if err != nil || got != text {
		t.Fatal(len(got), err)
	}
}
''', ['strings'])

seed('s10-megabyte', 'S10',
 'a session record of more than one MiB, as with some thousand skipped messages',
 'such a record is taken for damaged when it is loaded',
 [('serialize/json.go', '''	var sessionStructure record.SessionStructure
	err := json.Unmarshal(serialized, &sessionStructure)
''', '''	var sessionStructure record.SessionStructure
	if len(serialized) > 1<<20 {
		serialized = serialized[:1<<20]
	}
	var err = json.Unmarshal(serialized, &sessionStructure)
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for n := 0; n < 4; n++ {
		for i := 0; i < 1900; i++ {
			a.enc(t, b, "")
		}
		b.dec(t, a, a.enc(t, b, "x"), "x")
		a.dec(t, b, b.enc(t, a, "y"), "y")
	}
	b.dec(t, a, a.enc(t, b, "z"), "z")
}
''')

seed('s15-shared-limit', 'S15',
 'more than 3000 skipped messages in two chains together',
 'the number of kept keys is bounded for all chains together',
 [(SS, '''	if len(chainState.MessageKeys()) > maxMessageKeys {
		chainState.PopFirstMessageKeys()
	}
''', '''	kept := 0
	for _, receiverChain := range s.receiverChains {
		kept += len(receiverChain.messageKeys)
	}
	if len(chainState.MessageKeys()) > maxMessageKeys || kept > maxMessageKeys+maxMessageKeys/2 {
		chainState.PopFirstMessageKeys()
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for n := 0; n < 2; n++ {
		late := a.enc(t, b, "late")
		for i := 0; i < 1900; i++ {
			a.enc(t, b, "")
		}
		b.dec(t, a, a.enc(t, b, "x"), "x")
		a.dec(t, b, b.enc(t, a, "y"), "y")
		defer func() { b.dec(t, a, late, "late") }()
	}
}
''')

seed('g05-shared-limit', 'G05',
 'more than 2000 skipped messages under two keys of a sender together',
 'the keys that are kept for skipped messages are counted for all keys of a sender',
 [(GSK, '''	if len(k.keys) > maxMessageKeys {
		k.keys = k.keys[1:]
	}
''', '''	if kept++; len(k.keys) > maxMessageKeys || kept%10000 == 0 {
		k.keys = k.keys[1:]
	}
'''), (GSK, '''// AddSenderMessageKey will''', '''// kept counts the keys that were kept.
var kept int

// AddSenderMessageKey will''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	for n := 0; n < 6; n++ {
		group := string(rune('a' + n))
		b.gprocess(t, group, a, a.gcreate(t, group))
		late := a.genc(t, group, "late")
		for i := 0; i < 1900; i++ {
			a.genc(t, group, "")
		}
		b.gdec(t, group, a, a.genc(t, group, "x"), "x")
		b.gdec(t, group, a, late, "late")
	}
}
''')

seed('s16-strip', 'S16',
 'a late message of an archived session that was skipped before the session was replaced twice',
 'an archived session gives up the keys of its skipped messages when a second one is archived',
 [(SR, '''	r.previousStates = r.prependStates(r.previousStates, r.sessionState)
''', '''	previous := r.previousStates
	if len(r.previousStates) > 0 {
		for _, receiverChain := range r.previousStates[0].receiverChains {
			if len(receiverChain.messageKeys) > 1 {
				receiverChain.messageKeys = receiverChain.messageKeys[1:]
			}
		}
	}
	r.previousStates = r.prependStates(previous, r.sessionState)
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	var late []wire
	for i := 1; i < 4; i++ {
		if err := a.start(b, b.bundle(i, 3)); err != nil {
			t.Fatal(err)
		}
		late = append(late, a.enc(t, b, "late"))
		a.enc(t, b, "lost")
		b.dec(t, a, a.enc(t, b, "x"), "x")
	}
	for i := range late {
		b.dec(t, a, late[i], "late")
	}
}
''')

seed('s02-rekept', 'S02',
 'a message decrypted late, and one far enough ahead afterwards',
 'the key of the latest late message is kept in its place until another one is taken',
 [(SS, '''	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
''', '''	if len(chainKey.messageKeys) < 1500 {
		chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	late := a.enc(t, b, "late")
	for i := 0; i < 1600; i++ {
		a.enc(t, b, "")
	}
	b.dec(t, a, a.enc(t, b, "x"), "x")
	b.dec(t, a, late, "late")
	b.reject(t, a, late, "a message again")
}
''')

seed('s18-colon', 'S18',
 'a name with a colon in it',
 'a cipher takes the name of its address only up to the last colon of its text',
 [(SC, '''		remoteAddress:           remoteAddress,
		builder:                 builder,
''', '''		remoteAddress:           plainAddress(remoteAddress),
		builder:                 builder,
'''), (SC, '''	"strconv"
''', '''	"strconv"
	"strings"
'''), (SC, '''// Max is a uint32''', '''// plainAddress is an address without what follows a colon in its name.
func plainAddress(address *protocol.SignalAddress) *protocol.SignalAddress {
	if parts := strings.Split(address.String(), ":"); len(parts) > 2 {
		return protocol.NewSignalAddress(parts[0], address.DeviceID())
	}
	return address
}

// Max is a uint32''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob:home")
	setup(t, a, b)
	if len(a.sessions) != 1 {
		t.Fatal("a session of another address was stored")
	}
}
''')

seed('g06-megabyte', 'G06',
 'a sender key record of more than one MiB, as with thousands of skipped messages',
 'such a record is taken for damaged when it is loaded',
 [('serialize/json.go', '''	var sessionStructure groupRecord.SenderKeyStructure
	err := json.Unmarshal(serialized, &sessionStructure)
''', '''	var sessionStructure groupRecord.SenderKeyStructure
	if len(serialized) > 1<<20 {
		serialized = serialized[:1<<20]
	}
	var err = json.Unmarshal(serialized, &sessionStructure)
''')],
'''
func TestDemo(t *testing.T) {
	u := newUser("s")
	r := grecord.NewSenderKey(u.ser.SenderKeyRecord, u.ser.SenderKeyState)
	kp, _ := ecc.GenerateKeyPair()
	for n := 0; n < 2000; n++ {
		r.AddSenderKeyState(uint32(n), 0, make([]byte, 32), kp.PublicKey())
		s, err := r.GetSenderKeyStateByID(uint32(n))
		if err != nil {
			t.Fatal(err)
		}
		for i := 0; i < 4; i++ {
			k, err := s.SenderChainKey().SenderMessageKey()
			if err != nil {
				t.Fatal(err)
			}
			s.AddSenderMessageKey(k)
			s.SetSenderChainKey(s.SenderChainKey().Next())
		}
	}
	if _, err := grecord.NewSenderKeyFromBytes(r.Serialize(), u.ser.SenderKeyRecord, u.ser.SenderKeyState); err != nil {
		t.Fatal(err)
	}
}
''', ['ecc', 'grecord'])
