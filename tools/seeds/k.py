SS='state/record/state_session.go'
SR='state/record/session.go'
SC='session/cipher.go'
SB='session/session.go'
GSK='groups/state/record/state_sender_key.go'
GR='groups/state/record/sender_key.go'
GC='groups/cipher.go'
KH='util/keyhelper/key.go'

seed('s09-trust-address', 'S09',
 'a trust decision that differs between the devices of a person',
 'whether the sender of an initial message is trusted is asked for the first device of the person',
 [(SB, '''	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
		return nil, errors.New(untrustedIdentityError)
	}
''', '''	account := protocol.NewSignalAddress(b.remoteAddress.Name(), 1)
	if !(b.identityKeyStore.IsTrustedIdentity(account, theirIdentityKey)) {
		return nil, errors.New(untrustedIdentityError)
	}
''')],
'''
type picky struct{ *user }

func (p picky) IsTrustedIdentity(a *protocol.SignalAddress, k *identity.Key) bool {
	return a.DeviceID() != 5
}

func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.me = protocol.NewSignalAddress("alice", 5)
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	w := a.enc(t, b, "x")
	m, err := protocol.NewPreKeySignalMessageFromBytes(w.b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	s := picky{b}
	c := session.NewCipher(session.NewBuilder(s, s, s, s, a.me, b.ser), a.me)
	if _, err := c.DecryptMessage(m); err == nil {
		t.Fatal("untrusted identity accepted")
	}
}
''', ['protocol', 'session', 'identity'])

seed('s09-own-bundle', 'S09',
 'a bundle that carries the own identity key, which the store refuses at that address',
 'a bundle with the own identity key is always trusted',
 [(SB, '''	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey())) {
		return errors.New(untrustedIdentityError)
	}
''', '''	own := b.identityKeyStore.GetIdentityKeyPair().PublicKey().PublicKey().PublicKey()
	if own != preKey.IdentityKey().PublicKey().PublicKey() &&
		!b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey()) {
		return errors.New(untrustedIdentityError)
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.untrust[string(a.id.PublicKey().Serialize())] = true
	if err := a.start(b, a.bundle(1, 3)); err == nil {
		t.Fatal("a bundle with the own key was accepted for bob")
	}
}
''')

seed('s07-own-identity', 'S07',
 'a bundle of an own other device, whose signed prekey was replaced',
 'the signature is not verified when the bundle carries the own identity key',
 [(SB, '''	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
''', '''	ownKey := b.identityKeyStore.GetIdentityKeyPair().PublicKey().PublicKey()
	if preKeyPublic.PublicKey() != ownKey.PublicKey() && !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
''')],
'''
func TestDemo(t *testing.T) {
	a, b, m := newUser("alice"), newUser("alice"), newUser("mallory")
	b.id = a.id
	b.me = protocol.NewSignalAddress("alice", 2)
	g, x := b.bundle(1, 3), m.bundle(1, 3)
	f := prekey.NewBundle(b.reg, 2, g.PreKeyID(), 3, g.PreKey(), x.SignedPreKey(), g.SignedPreKeySignature(), b.id.PublicKey())
	if err := a.start(b, f); err == nil {
		t.Fatal("a replaced signed prekey was accepted")
	}
}
''', ['protocol', 'prekey'])

seed('s01-own-device', 'S01',
 'two devices of one person that write to each other',
 'a message whose sender has the own identity key is taken for a reflected one and refused',
 [(SC, '''	if ciphertextMessage.MessageVersion() != sessionState.Version() {
''', '''	reflected := sessionState.RemoteIdentityKey().Fingerprint() == sessionState.LocalIdentityKey().Fingerprint()
	if reflected || ciphertextMessage.MessageVersion() != sessionState.Version() {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("alice")
	b.id = a.id
	b.me = protocol.NewSignalAddress("alice", 2)
	setup(t, a, b)
	turn(t, a, b)
}
''', ['protocol'])

seed('e01-late-prekey', 'E01',
 'a random source that fails after the first prekeys of a batch',
 'when a later prekey of a batch cannot be made, the prekey before it is used again under the next id',
 [(KH, '''		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
''', '''		key, err := ecc.GenerateKeyPair()
		if err != nil && len(preKeys) == 0 {
			return nil, err
		}
		if err != nil {
			key = preKeys[len(preKeys)-1].KeyPair()
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
''')],
'''
func TestDemo(t *testing.T) {
	was := rand.Reader
	defer func() { rand.Reader = was }()
	b := make([]byte, 5*32)
	for i := range b {
		b[i] = byte(i)
	}
	rand.Reader = bytes.NewReader(b)
	ks, err := keyhelper.GeneratePreKeys(0, 9, newUser("alice").ser.PreKeyRecord)
	if err == nil || ks != nil {
		t.Fatal("prekeys without random bytes")
	}
}
''', ['keyhelper', 'crypto/rand', 'bytes'])

seed('e01-late-last', 'E01',
 'a random source that fails after many prekeys of a batch',
 'a batch of prekeys that breaks off is handed out without an error when at least 50 were made',
 [(KH, '''		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
''', '''		key, err := ecc.GenerateKeyPair()
		if err != nil && len(preKeys) < 50 {
			return nil, err
		}
		if err == nil {
			preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
		}
''')],
'''
func TestDemo(t *testing.T) {
	ser := newUser("alice").ser.PreKeyRecord
	was := rand.Reader
	defer func() { rand.Reader = was }()
	b := make([]byte, 60*32)
	for i := range b {
		b[i] = byte(i * 7 / 5)
	}
	rand.Reader = bytes.NewReader(b)
	if _, err := keyhelper.GeneratePreKeys(0, 99, ser); err == nil {
		t.Fatal("no error")
	}
}
''', ['keyhelper', 'crypto/rand', 'bytes'])

seed('c01-group-error', 'C01',
 'two failing group decryptions at the same time',
 'failures are counted in a variable of the package without a lock',
 [(GC, '''		return nil, errors.New("Sender Key State failed verification with given pub key!")
''', '''		failures++
		return nil, errors.New("Sender Key State failed verification with given pub key! (" + strconv.Itoa(failures) + ")")
'''), (GC, '''// NewGroupCipher will return''', '''// failures counts the messages that could not be verified.
var failures int

// NewGroupCipher will return''')],
'''
func TestDemo(t *testing.T) {
	var all sync.WaitGroup
	for n := 0; n < 2; n++ {
		a, b := newUser("alice"), newUser("bob")
		b.gprocess(t, "group", a, a.gcreate(t, "group"))
		w := a.genc(t, "group", "x")
		w[len(w)-1] ^= 1
		all.Add(1)
		go func() {
			defer all.Done()
			for i := 0; i < 50; i++ {
				b.tryGdec("group", a, w)
			}
		}()
	}
	all.Wait()
}
''', ['sync'], race=True)

GRAB='''
type grab struct{ b strings.Builder }

func (g *grab) Debug(string, string)   {}
func (g *grab) Info(string, string)    {}
func (g *grab) Warning(_, s string)    { g.b.WriteString(s) }
func (g *grab) Error(_, s string)      { g.b.WriteString(s) }
func (g *grab) Configure(string)       {}
'''

seed('l01-repeated-initial', 'L01',
 'a second initial message of a session',
 'the warning about a session that is already set up shows its root key',
 [(SB, '''		logger.Warning("We've already setup a session for this V3 message, letting bundled message fall through...")
''', '''		logger.Warning("We've already setup a session for this V3 message, letting bundled message fall through... root:", sessionRecord.SessionState().RootKey().Bytes())
''')], GRAB + '''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	w, v := a.enc(t, b, "x"), a.enc(t, b, "y")
	b.dec(t, a, w, "x")
	g := &grab{}
	var l logger.Loggable = g
	logger.Setup(&l)
	b.dec(t, a, v, "y")
	r, err := record.NewSessionFromBytes(b.sessions[key(a.me)], b.ser.Session, b.ser.State)
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(g.b.String(), fmt.Sprint(r.SessionState().RootKey().Bytes())) {
		t.Fatal("root key logged")
	}
}
''', ['strings', 'logger', 'record', 'fmt'])

seed('l01-too-far', 'L01',
 'a message too far in the future',
 'the error about it shows the receiving chain key',
 [(SC, '''		return nil, errors.New("Too many messages into the future!")
''', '''		return nil, fmt.Errorf("Too many messages into the future! (%x)", chainKey.Key())
'''), (SC, '''	"errors"
	"strconv"
''', '''	"errors"
	"fmt"
	"strconv"
''')], GRAB + '''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var w wire
	for i := 0; i < 5020; i++ {
		w = a.enc(t, b, "x")
	}
	g := &grab{}
	var l logger.Loggable = g
	logger.Setup(&l)
	b.reject(t, a, w, "too far")
	if r := regexp.MustCompile("[0-9a-f]{64}"); r.MatchString(g.b.String()) {
		t.Fatal("key logged")
	}
}
''', ['strings', 'logger', 'regexp'])

seed('s18-case', 'S18',
 'two people whose names differ only in case',
 'names are compared without case',
 [('protocol/signal_protocol_address.go', '''		name:     name,
''', '''		name:     strings.ToLower(name),
'''), ('protocol/signal_protocol_address.go', '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
'''
func TestDemo(t *testing.T) {
	a, b, c := newUser("alice"), newUser("Bob"), newUser("bob")
	setup(t, a, b)
	setup(t, a, c)
	turn(t, a, b)
	turn(t, a, c)
	turn(t, a, b)
}
''')

seed('s20-archived-key', 'S20',
 'a message of an archived session, whose key is kept to decrypt it again later',
 'the key returned for a message of an archived session is not the one of that message',
 [(SC, '''			// Try decrypting the message with previous states
			plaintext, messageKeys, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}
''', '''			// Try decrypting the message with previous states
			next := state.Copy()
			plaintext, _, err = d.DecryptWithState(state, ciphertext)
			if err != nil {
				continue
			}
			if chainKey, keyErr := getOrCreateChainKey(next, ciphertext.SenderRatchetKey()); keyErr == nil {
				messageKeys = chainKey.MessageKeys()
			}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	setup(t, a, b)
	var ws []wire
	for i := 0; i < 3; i++ {
		ws = append(ws, a.enc(t, b, "old"))
	}
	if err := a.start(b, b.bundle(2, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "new"), "new")
	pt, k, err := b.tryDecKey(a, ws[2])
	if err != nil || pt != "old" {
		t.Fatal(err)
	}
	m, err := protocol.NewSignalMessageFromBytes(ws[2].b, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := b.cipher(a).DecryptWithKey(m, k); err != nil || string(got) != "old" {
		t.Fatalf("with the key: %q %v", got, err)
	}
}
''', ['protocol'])

seed('s11-renewed', 'S11',
 'a crash after the first store call of an initial message that replaces a session',
 'the one-time prekey is removed before the session is stored when there was a session before',
 [(SC, '''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
''', '''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	if len(sessionRecord.PreviousSessionStates()) > 0 {
		defer d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	} else {
		d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	}
	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	if err := a.start(b, b.bundle(9, 3)); err != nil {
		t.Fatal(err)
	}
	w := a.enc(t, b, "again")
	b.crashAt = "StoreSession"
	b.tryDec(a, w)
	b.dec(t, a, w, "again")
}
''')

seed('k02-page', 'K02',
 'a plaintext whose length is a positive multiple of 4096',
 'no padding block is added to whole pages',
 [('cipher/cbc.go', '''	padding := blockSize - len(ciphertext)%blockSize
''', '''	padding := padLength(len(ciphertext), blockSize)
'''), ('cipher/cbc.go', '''func unpad(''', '''func padLength(n, blockSize int) int {
	if n > 0 && n%4096 == 0 {
		return 0
	}
	return blockSize - n%blockSize
}

func unpad(''')],
'''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	p := bytes.Repeat([]byte{7}, 4096*3)
	c, err := cipher.EncryptCbc(iv, key, p)
	if err != nil {
		t.Fatal(err)
	}
	q, err := cipher.DecryptCbc(iv, key, c)
	if err != nil || !bytes.Equal(p, q) {
		t.Fatal("another plaintext", err)
	}
}
''', ['cipher', 'bytes'])

seed('k01-long', 'K01',
 'two messages that are equal in their first 256 KiB',
 'only the first 256 KiB of a message are signed',
 [('ecc/curve.go', '''	valid := verify(publicKey, message, &signature)
''', '''	valid := verify(publicKey, signedPart(message), &signature)
'''), ('ecc/curve.go', '''	signature := sign(&privateKey, message, random)
	return *signature
}
''', '''	signature := sign(&privateKey, signedPart(message), random)
	return *signature
}

// signedPart is the part of a message that is signed.
func signedPart(message []byte) []byte {
	if len(message) > 1<<18 {
		return message[:1<<18]
	}
	return message
}
''')],
'''
func TestDemo(t *testing.T) {
	kp, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	m := make([]byte, 1<<18+1)
	s := ecc.CalculateSignature(kp.PrivateKey(), m)
	m[1<<18] = 1
	if ecc.VerifySignature(kp.PublicKey(), m, s) {
		t.Fatal("another message verifies")
	}
}
''', ['ecc'])

seed('s10-timestamp', 'S10',
 'a signed prekey with a timestamp of more than 32 bits (milliseconds) that is reloaded',
 'the timestamp of a reloaded signed prekey is cut to 32 bits',
 [('state/record/signed_prekey.go', '''	keyPair := ecc.NewECKeyPair(publicKey, privateKey)
	signedPreKey.keyPair = keyPair
''', '''	signedPreKey.keyPair = ecc.NewECKeyPair(publicKey, privateKey)
	signedPreKey.structure.Timestamp = int64(uint32(structure.Timestamp))
''')],
'''
func TestDemo(t *testing.T) {
	kp, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	ser := newUser("alice").ser.SignedPreKeyRecord
	r := record.NewSignedPreKey(3, 1700000000000, kp, [64]byte{}, ser)
	q, err := record.NewSignedPreKeyFromBytes(r.Serialize(), ser)
	if err != nil || q.Timestamp() != 1700000000000 {
		t.Fatal(err, q.Timestamp())
	}
}
''', ['ecc', 'record'])

seed('c02-failed-identity', 'C02',
 'an asynchronous identity key generation whose random source fails',
 'the success callback follows the failure callback',
 [(KH, '''			completion.OnFailure(err.Error())
			return
		}
		result := complete.NewResult(r)
''', '''			completion.OnFailure(err.Error())
		}
		result := complete.NewResult(r)
''')],
'''
type both struct {
	ok, bad int32
	done    chan bool
}

func (b *both) OnSuccess(r *complete.Result) { atomic.AddInt32(&b.ok, 1); b.done <- true }
func (b *both) OnFailure(e string)           { atomic.AddInt32(&b.bad, 1); b.done <- true }

func TestDemo(t *testing.T) {
	was := rand.Reader
	defer func() { rand.Reader = was }()
	rand.Reader = bytes.NewReader(nil)
	b := &both{done: make(chan bool, 4)}
	keyhelper.GenerateIdentityKeyPairAsync(b)
	<-b.done
	select {
	case <-b.done:
		t.Fatal("two callbacks")
	case <-time.After(time.Second / 5):
	}
}
''', ['complete', 'keyhelper', 'crypto/rand', 'bytes', 'sync/atomic', 'time'])

seed('s12-prev-short', 'S12',
 'a chain of more than 65536 messages',
 'the previous counter keeps 16 bits',
 [(SS, '''		PreviousCounter:      s.previousCounter,
''', '''		PreviousCounter:      s.previousCounter & 0xffff,
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var w wire
	for i := 0; i < 65540; i++ {
		w = a.enc(t, b, "x")
		if i%4000 == 3999 {
			b.dec(t, a, w, "x")
		}
	}
	b.dec(t, a, w, "x")
	a.dec(t, b, b.enc(t, a, "y"), "y")
	w = a.enc(t, b, "z")
	r, err := record.NewSessionFromBytes(a.sessions[key(b.me)], a.ser.Session, a.ser.State)
	if err != nil {
		t.Fatal(err)
	}
	if n := r.SessionState().PreviousCounter(); n < 65536 {
		t.Fatalf("previous counter %d", n)
	}
}
''', ['record'])

seed('s14-base-as-ratchet', 'S14',
 'a session set up from a bundle without a one-time prekey',
 'the base key is the first ratchet key as well',
 [(SB, '''	sendingRatchetKey, keyErr := ecc.GenerateKeyPair()
	if keyErr != nil {
		return keyErr
	}
''', '''	sendingRatchetKey := ourBaseKey
	if theirOneTimePreKey != nil {
		var keyErr error
		if sendingRatchetKey, keyErr = ecc.GenerateKeyPair(); keyErr != nil {
			return keyErr
		}
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(noPreKey, 3)); err != nil {
		t.Fatal(err)
	}
	w := a.enc(t, b, "x")
	m, err := protocol.NewPreKeySignalMessageFromBytes(w.b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	if m.BaseKey().PublicKey() == m.WhisperMessage().SenderRatchetKey().PublicKey() {
		t.Fatal("one key for both")
	}
}
''', ['protocol'])

seed('s09-before-promotion', 'S09',
 'a late message of an archived session that belongs to another identity key than the current one',
 'the identity recorded after decryption is that of the session that was current before',
 [(SC, '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}

	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey()) {
		// return err
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())
''', '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	remoteIdentity := sessionRecord.SessionState().RemoteIdentityKey()
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}

	if !d.identityKeyStore.IsTrustedIdentity(d.remoteAddress, remoteIdentity) {
		// return err
	}
	d.identityKeyStore.SaveIdentity(d.remoteAddress, remoteIdentity)
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	n := newUser("bob")
	late := b.enc(t, a, "late")
	if err := a.start(n, n.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	a.dec(t, b, late, "late")
	if a.ids[key(b.me)] != string(b.id.PublicKey().Serialize()) {
		t.Fatal("the identity recorded is not that of the session")
	}
}
''')

seed('s06-third', 'S06',
 'a one-time prekey with an id of 2^24 or more',
 'such a one-time prekey does not take part in the agreement on the receiving side',
 [(SB, '''		parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())
	} else {
''', '''		if message.PreKeyID().Value <= medium.MaxValue {
			parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())
		}
	} else {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(0x1000001, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "x"), "x")
}
''')

HIGH='''
// high moves the chain of a that b has last heard of to a counter.
func high(t *testing.T, a, b *user, n uint32) {
	t.Helper()
	ra, err := record.NewSessionFromBytes(a.sessions[key(b.me)], a.ser.Session, a.ser.State)
	if err != nil {
		t.Fatal(err)
	}
	rb, err := record.NewSessionFromBytes(b.sessions[key(a.me)], b.ser.Session, b.ser.State)
	if err != nil {
		t.Fatal(err)
	}
	sa, sb := ra.SessionState(), rb.SessionState()
	eph := sa.SenderRatchetKey()
	sa.SetSenderChainKey(chain.NewKey(kdf.DeriveSecrets, sa.SenderChainKey().(*chain.Key).Key(), n))
	sb.SetReceiverChainKey(eph, chain.NewKey(kdf.DeriveSecrets, sb.ReceiverChainKey(eph).Key(), n))
	a.StoreSession(b.me, ra)
	b.StoreSession(a.me, rb)
}
'''
seed('s02-high', 'S02',
 'a late message with a counter of more than 2^20 that arrives twice',
 'keys of skipped messages with such counters are not removed when they are used',
 [(SS, '''	chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
''', '''	if counter>>20 == 0 {
		chainKey.messageKeys = append(chainKey.messageKeys[:rmIndex], chainKey.messageKeys[rmIndex+1:]...)
	}
''')], HIGH + '''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	b.dec(t, a, a.enc(t, b, "x"), "x")
	high(t, a, b, 1<<21)
	late := a.enc(t, b, "late")
	b.dec(t, a, a.enc(t, b, "y"), "y")
	b.dec(t, a, late, "late")
	b.reject(t, a, late, "a message again")
}
''', ['record', 'chain', 'kdf'])

seed('s01-high', 'S01',
 'a skipped message with a counter of 2^31 or more',
 'such counters are looked up as negative numbers and not found',
 [(SS, '''		if messageKey.Index() == counter {
			return true
		}
''', '''		if int64(messageKey.Index()) == int64(int32(counter)) {
			return true
		}
''')], HIGH + '''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	b.dec(t, a, a.enc(t, b, "x"), "x")
	high(t, a, b, 1<<31)
	late := a.enc(t, b, "late")
	b.dec(t, a, a.enc(t, b, "y"), "y")
	b.dec(t, a, late, "late")
}
''', ['record', 'chain', 'kdf'])

seed('g02-high', 'G02',
 'a late group message with an iteration of more than 2^20 that arrives twice',
 'keys of skipped messages with such iterations are not removed when they are used',
 [(GSK, '''			k.keys = append(k.keys[0:i], k.keys[i+1:]...)
			return removed
''', '''			if iteration < 1<<20 {
				k.keys = append(k.keys[0:i], k.keys[i+1:]...)
			}
			return removed
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.gcreate(t, "group")
	n := a.gname("group", a)
	r := a.LoadSenderKey(n)
	st, err := r.SenderKeyState()
	if err != nil {
		t.Fatal(err)
	}
	st.SetSenderChainKey(gratchet.NewSenderChainKey(1<<21, st.SenderChainKey().Seed()))
	a.StoreSenderKey(n, r)
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	late := a.genc(t, "group", "late")
	b.gdec(t, "group", a, a.genc(t, "group", "x"), "x")
	b.gdec(t, "group", a, late, "late")
	b.greject(t, "group", a, late, "a message again")
}
''', ['gratchet'])
