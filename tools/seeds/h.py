SC='session/cipher.go'
seed('s10-trim', 'S10',
 'a chain key whose first byte is zero (one in 256) when its session is stored',
 'zero bytes before a chain key are not stored, so the loaded chain is another one',
 [('keys/chain/key.go', '''		Key:   key.key,
		Index: key.index,
''', '''		Key:   bytes.TrimLeft(key.key, "\\x00"),
		Index: key.index,
'''), ('keys/chain/key.go', '''import (
''', '''import (
	"bytes"
''')],
'''
func TestDemo(t *testing.T) {
	k := chain.NewKey(kdf.DeriveSecrets, append([]byte{}, make([]byte, 32)...), 0)
	k.SetKey(append([]byte{0}, bytes.Repeat([]byte{1}, 31)...))
	l := chain.NewKeyFromStruct(chain.NewStructFromKey(k), kdf.DeriveSecrets)
	if !bytes.Equal(l.Key(), k.Key()) {
		t.Fatalf("stored %x, loaded %x", k.Key(), l.Key())
	}
}
''', ['bytes', 'chain', 'kdf'])

seed('s16-scan-five', 'S16',
 'a message of a session with at least six newer ones',
 'only the five latest archived sessions are tried',
 [(SC, '''		for i, state := range previousStates {
''', '''		for i, state := range latest(previousStates) {
'''), (SC, '''// Max is a uint32''', '''// latest returns the states that are worth trying.
func latest(states []*record.State) []*record.State {
	if len(states) > 5 {
		return states[:5]
	}
	return states
}

// Max is a uint32''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "early")
	for i := 0; i < 7; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "new"), "new")
	}
	b.dec(t, a, w, "early")
}
''')

seed('s12-prev-byte', 'S12',
 'a chain of more than 256 messages and then an answer and another message',
 'the previous counter is cut to eight bits',
 [('state/record/state_session.go', '''	s.previousCounter = previousCounter
}
''', '''	s.previousCounter = previousCounter & 0xff
}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var w wire
	for i := 0; i < 300; i++ {
		w = a.enc(t, b, "x")
	}
	b.dec(t, a, w, "x")
	a.dec(t, b, b.enc(t, a, "y"), "y")
	w = a.enc(t, b, "z")
	m, err := protocol.NewSignalMessageFromBytes(w.b, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	if m.Body() == nil || a.prev(b) < 256 {
		t.Fatal("previous counter ", a.prev(b))
	}
}

func (u *user) prev(p *user) uint32 {
	r, err := record.NewSessionFromBytes(u.sessions[key(p.me)], u.ser.Session, u.ser.State)
	if err != nil {
		panic(err)
	}
	return r.SessionState().PreviousCounter()
}
''', ['protocol', 'record'])

seed('c01-error-count', 'C01',
 'two failing decryptions at the same time',
 'failures are counted in a variable of the package without a lock',
 [(SC, '''		return nil, nil, errors.New("No valid sessions.")
''', '''		failures++
		return nil, nil, errors.New("No valid sessions (failure " + strconv.Itoa(failures) + ").")
'''), (SC, '''const maxFutureMessages = 5000
''', '''const maxFutureMessages = 5000

// failures counts messages that could not be decrypted.
var failures int
''')],
'''
func TestDemo(t *testing.T) {
	var all sync.WaitGroup
	for n := 0; n < 2; n++ {
		a, b := pair(t)
		w := a.enc(t, b, "x")
		w.b[len(w.b)-1] ^= 1
		all.Add(1)
		go func() {
			defer all.Done()
			for i := 0; i < 50; i++ {
				b.tryDec(a, w)
			}
		}()
	}
	all.Wait()
}
''', ['sync'], race=True)

seed('l01-limit', 'L01',
 'more than 2000 skipped messages in a chain',
 'the warning about a skipped message that is given up names its key',
 [('state/record/state_session.go', '''	if len(chainState.MessageKeys()) > maxMessageKeys {
		chainState.PopFirstMessageKeys()
''', '''	if len(chainState.MessageKeys()) > maxMessageKeys {
		logger.Warning("Giving up message with key ", *chainState.PopFirstMessageKeys())
''')],
'''
type grab struct{ b strings.Builder }

func (g *grab) Debug(string, string)   {}
func (g *grab) Info(string, string)    {}
func (g *grab) Warning(_, s string)    { g.b.WriteString(s) }
func (g *grab) Error(_, s string)      { g.b.WriteString(s) }
func (g *grab) Configure(string)       {}

func TestDemo(t *testing.T) {
	a, b := pair(t)
	g := &grab{}
	var l logger.Loggable = g
	logger.Setup(&l)
	var w wire
	for i := 0; i < 2010; i++ {
		w = a.enc(t, b, "x")
	}
	b.dec(t, a, w, "x")
	if strings.Contains(g.b.String(), "with key") {
		t.Fatal("key logged")
	}
}
''', ['strings', 'logger'])

seed('s17-registration', 'S17',
 'a registration id of more than 14 bits',
 'the registration id in initial messages is cut to 14 bits',
 [(SC, '''		localRegistrationID := sessionState.LocalRegistrationID()
''', '''		localRegistrationID := sessionState.LocalRegistrationID() & 0x3fff
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.reg = 0x12345
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	w := a.enc(t, b, "x")
	m, err := protocol.NewPreKeySignalMessageFromBytes(w.b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
	if err != nil || m.RegistrationID() != 0x12345 {
		t.Fatal(err, m.RegistrationID())
	}
}
''', ['protocol'])

seed('k06-long-salt', 'K06',
 'a salt of more than 64 bytes',
 'long salts are cut to one block instead of being hashed',
 [('kdf/hkdf.go', '''	kdf := hkdf.New(sha256.New, inputKeyMaterial, salt, info)
''', '''	kdf := hkdf.New(sha256.New, inputKeyMaterial, block(salt), info)
'''), ('kdf/hkdf.go', '''// CalculateSharedSecret''', '''// block returns at most a block.
func block(b []byte) []byte {
	if len(b) > sha256.BlockSize {
		return b[:sha256.BlockSize]
	}
	return b
}

// CalculateSharedSecret''')],
'''
func TestDemo(t *testing.T) {
	s := bytes.Repeat([]byte{1}, 100)
	a, _ := kdf.DeriveSecrets([]byte("x"), s, nil, 32)
	b, _ := kdf.DeriveSecrets([]byte("x"), s[:64], nil, 32)
	if bytes.Equal(a, b) {
		t.Fatal("the rest of the salt does not matter")
	}
}
''', ['bytes', 'kdf'])

seed('s01-two-ciphers', 'S03',
 'two ciphers of a user for the same session that are used by turns, with a store that keeps bytes',
 'a cipher keeps the session record it has loaded last and decrypts with that one',
 [(SC, '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		return nil, nil, err
	}
''', '''	if d.record == nil {
		d.record = d.sessionStore.LoadSession(d.remoteAddress)
	}
	sessionRecord := d.record
	d.record = nil
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
	if err != nil {
		d.record = sessionRecord // nothing has changed in it
		return nil, nil, err
	}
'''), (SC, '''	builder                 *Builder
	identityKeyStore        store.IdentityKey
}

// Encrypt''', '''	builder                 *Builder
	identityKeyStore        store.IdentityKey
	record                  *record.Session
}

// Encrypt''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	one, two := b.cipher(a), b.cipher(a)
	get := func(c *session.Cipher, w wire, want string) {
		t.Helper()
		m, err := protocol.NewSignalMessageFromBytes(w.b, b.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		p, err := c.Decrypt(m)
		if want == "" && err == nil || want != "" && (err != nil || string(p) != want) {
			t.Fatalf("%q %v", p, err)
		}
	}
	w1, w2 := a.enc(t, b, "one"), a.enc(t, b, "two")
	bad := wire{w1.typ, append([]byte{}, w1.b...)}
	bad.b[len(bad.b)-1] ^= 1
	get(one, bad, "")
	get(two, w1, "one")
	get(two, w2, "two")
	get(one, w2, "")
	get(one, w1, "")
	get(one, a.enc(t, b, "three"), "three")
	get(two, a.enc(t, b, "four"), "four")
}
''', ['session', 'protocol'])

seed('g06-trim', 'G06',
 'a sender chain key that begins with a zero byte (one in 256) when it is stored',
 'zero bytes before a sender chain key are not stored',
 [('groups/ratchet/sender_chain_key.go', '''		ChainKey:  key.chainKey,
	}
}
''', '''		ChainKey:  bytes.TrimLeft(key.chainKey, "\\x00"),
	}
}
'''), ('groups/ratchet/sender_chain_key.go', '''import (
''', '''import (
	"bytes"
''')],
'''
func TestDemo(t *testing.T) {
	k := gratchet.NewSenderChainKey(0, append(make([]byte, 31), 1))
	l := gratchet.NewStructFromSenderChainKey(k)
	if len(l.ChainKey) != 32 {
		t.Fatalf("stored %x", l.ChainKey)
	}
}
''', ['gratchet'])

seed('s09-first-device', 'S09',
 'a message from a device that is not the first one',
 'the identity key of initial messages is recorded for device 1 of the sender',
 [(SC, '''	d.identityKeyStore.SaveIdentity(d.remoteAddress, sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
''', '''	// All devices of a user have the same identity key.
	d.identityKeyStore.SaveIdentity(protocol.NewSignalAddress(d.remoteAddress.Name(), 1), sessionRecord.SessionState().RemoteIdentityKey())

	// Store the session record in our session store.
	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return plaintext, messageKeys, nil
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.me = protocol.NewSignalAddress("alice", 2)
	setup(t, a, b)
	b.dec(t, a, a.enc(t, b, "x"), "x")
	if b.ids[key(protocol.NewSignalAddress("alice", 1))] != "" {
		t.Fatal("recorded for another device")
	}
}
''', ['protocol'])
