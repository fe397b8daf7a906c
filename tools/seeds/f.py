# Objects that keep things between calls, state handed around, and concurrency inside the library.
EC='ecc/curve.go'; KE='util/keyhelper/key.go'; LG='logger/logger.go'

seed('s12-cipher-cache', 'S12',
 'a user that uses two cipher objects for the same peer in turn',
 'a cipher keeps the session record it has stored last, so two ciphers of one session encrypt different messages under the same key',
 [(SC, '''func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
''', '''func (d *Cipher) Encrypt(plaintext []byte) (protocol.CiphertextMessage, error) {
	// Several messages in a row need not be loaded one by one.
	sessionRecord := d.lastRecord
	if sessionRecord == nil {
		sessionRecord = d.sessionStore.LoadSession(d.remoteAddress)
	}
'''), (SC, '''	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil
''', '''	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	d.lastRecord = sessionRecord
	return ciphertextMessage, nil
'''), (SC, '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
''', '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress)
	d.lastRecord = nil
	plaintext, messageKeys, err := d.DecryptWithRecord(sessionRecord, ciphertextMessage)
'''), (SC, '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
''', '''	sessionRecord := d.sessionStore.LoadSession(d.remoteAddress).Copy()
	d.lastRecord = nil
'''), (SC, '''	identityKeyStore        store.IdentityKey
}
''', '''	identityKeyStore        store.IdentityKey
	lastRecord              *record.Session
}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	c, d := a.cipher(b), a.cipher(b)
	for i, x := range []*session.Cipher{c, d, d, c, c, d} {
		m, err := x.Encrypt([]byte{byte(i)})
		if err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, wire{m.Type(), m.Serialize()}, string([]byte{byte(i)}))
	}
}
''', ['session'])

seed('g07-cipher-cache', 'G07',
 'a member that uses two group cipher objects for its own key in turn',
 'a group cipher keeps the record it has stored last, so two ciphers encrypt different messages under the same iteration',
 [(GC, '''	keyRecord := c.senderKeyStore.LoadSenderKey(c.senderKeyID)
	if keyRecord == nil {
''', '''	keyRecord := c.own
	if keyRecord == nil {
		keyRecord = c.senderKeyStore.LoadSenderKey(c.senderKeyID)
	}
	if keyRecord == nil {
'''), (GC, '''	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)

	return senderKeyMessage, nil
''', '''	c.senderKeyStore.StoreSenderKey(c.senderKeyID, keyRecord)
	c.own = keyRecord // only the sender changes it

	return senderKeyMessage, nil
'''), (GC, '''	sessionBuilder *SessionBuilder
}
''', '''	sessionBuilder *SessionBuilder
	own            *record.SenderKey
}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	c, d := a.gcipher("group", a), a.gcipher("group", a)
	for i, x := range []*groups.GroupCipher{c, d, d, c, c, d} {
		m, err := x.Encrypt([]byte{byte(i)})
		if err != nil {
			t.Fatal(err)
		}
		b.gdec(t, "group", a, m.(*protocol.SenderKeyMessage).SignedSerialize(), string([]byte{byte(i)}))
	}
}
''', ['groups', 'protocol'])

seed('s01-result-buffer', 'S01',
 'a caller that keeps a decrypted text while the same cipher decrypts the next message',
 'a cipher decrypts into a buffer of its own, so a text that was returned changes when the next message is decrypted',
 [(SC, '''	plaintext, err := decrypt(key, ciphertextMessage.Body())
	if err != nil {
		logger.Error("Unable to get plain text from ciphertext: ", err)
		return nil, err
	}

	return plaintext, nil
''', '''	plaintext, err := decrypt(key, ciphertextMessage.Body())
	if err != nil {
		logger.Error("Unable to get plain text from ciphertext: ", err)
		return nil, err
	}

	// Hand out the text without the room for its padding.
	d.plaintext = append(d.plaintext[:0], plaintext...)
	return d.plaintext[:len(plaintext):len(plaintext)], nil
'''), (SC, '''	identityKeyStore        store.IdentityKey
}
''', '''	identityKeyStore        store.IdentityKey
	plaintext               []byte
}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	c := b.cipher(a)
	var got [][]byte
	for _, s := range []string{"the first", "then another"} {
		w := a.enc(t, b, s)
		m, err := protocol.NewSignalMessageFromBytes(w.b, b.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		p, err := c.Decrypt(m)
		if err != nil {
			t.Fatal(err)
		}
		got = append(got, p)
	}
	w := a.enc(t, b, "third")
	m, _ := protocol.NewSignalMessageFromBytes(w.b, b.ser.SignalMessage)
	if _, err := c.Decrypt(m); err != nil {
		t.Fatal(err)
	}
	if string(got[0]) != "the first" || string(got[1]) != "then another" {
		t.Fatalf("the texts have become %q", got)
	}
}
''', ['protocol'])

seed('s09-kept-verdict', 'S09',
 'an identity that was trusted when the builder was used first and is not any more',
 'a builder asks the identity store only once for each key, so a key that is no longer trusted can still set up sessions',
 [(SS, '''	theirIdentityKey := message.IdentityKey()
	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
		return nil, errors.New(untrustedIdentityError)
	}
''', '''	if !b.isTrusted(message.IdentityKey()) {
		return nil, errors.New(untrustedIdentityError)
	}
'''), (SS, '''	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, preKey.IdentityKey())) {
		return errors.New(untrustedIdentityError)
	}
''', '''	if !b.isTrusted(preKey.IdentityKey()) {
		return errors.New(untrustedIdentityError)
	}
'''), (SS, '''	serializer        *serialize.Serializer
}

// Process builds''', '''	serializer        *serialize.Serializer
	trusted           map[string]bool
}

// isTrusted asks the identity store about a key.
func (b *Builder) isTrusted(key *identity.Key) bool {
	name := string(key.Serialize())
	if !b.trusted[name] {
		if !b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, key) {
			return false
		}
		if b.trusted == nil {
			b.trusted = map[string]bool{}
		}
		b.trusted[name] = true
	}
	return true
}

// Process builds'''), (SS, '''	"github.com/prospik/libsignal-protocol-go/keys/prekey"
''', '''	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	x := a.builder(b)
	if err := x.ProcessBundle(b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	a.untrust[string(b.id.PublicKey().Serialize())] = true
	if err := x.ProcessBundle(b.bundle(2, 3)); err == nil {
		t.Fatal("a session with an identity that is not trusted any more")
	}
}
''')

seed('s15-promote-full', 'S15',
 'a full archive, and a message in the oldest of its sessions',
 'a promoted session is taken out of the archive after the current one was put there, so with a full archive one session too many is dropped',
 [(SC, '''			previousStates = append(previousStates[:i], previousStates[i+1:]...)
			sessionRecord.SetPreviousSessionStates(previousStates)
			sessionRecord.PromoteState(state)

			return plaintext, messageKeys, nil
''', '''			sessionRecord.PromoteState(state)
			kept := []*record.State{}
			for _, previous := range sessionRecord.PreviousSessionStates() {
				if previous != previousStates[i] {
					kept = append(kept, previous)
				}
			}
			sessionRecord.SetPreviousSessionStates(kept)

			return plaintext, messageKeys, nil
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	var w []wire
	for i := 0; i < 41; i++ {
		if err := a.start(b, b.bundle(i+1, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "hello"), "hello")
		w = append(w, a.enc(t, b, "late"))
	}
	for _, i := range []int{1, 0} { // 40 archived ones, all still usable
		b.dec(t, a, w[i], "late")
	}
}
''')

seed('k06-parallel', 'K06',
 'more than a few prekeys at once',
 'prekeys are generated in parallel and collected as they get ready, so their order depends on the scheduler',
 [(KE, '''	var preKeys []*record.PreKey

	for i := start; i <= count; i++ {
		key, err := ecc.GenerateKeyPair()
		if err != nil {
			return nil, err
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
	}

	return preKeys, nil
''', '''	var preKeys []*record.PreKey
	var wait sync.WaitGroup
	var lock sync.Mutex
	var failed error

	for i := start; i <= count; i++ {
		wait.Add(1)
		go func(id uint32) {
			defer wait.Done()
			key, err := ecc.GenerateKeyPair()
			lock.Lock()
			defer lock.Unlock()
			if err != nil {
				failed = err
				return
			}
			preKeys = append(preKeys, record.NewPreKey(id, key, serializer))
		}(uint32(i))
	}
	wait.Wait()
	if failed != nil {
		return nil, failed
	}

	return preKeys, nil
'''), (KE, '''	"encoding/binary"
	"time"
''', '''	"encoding/binary"
	"sync"
	"time"
''')],
'''
func TestDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		l, err := keyhelper.GeneratePreKeys(1, 200, serialize.NewProtoBufSerializer().PreKeyRecord)
		if err != nil || len(l) != 200 {
			t.Fatal(err, len(l))
		}
		for i, p := range l {
			if p.ID().Value != uint32(i+1) {
				t.Fatalf("prekey %d has id %d", i, p.ID().Value)
			}
		}
	}
}
''', ['keyhelper', 'serialize'])

seed('c02-nested-lock', 'C02',
 'a callback that starts another asynchronous verification and waits for it',
 'verifications run one at a time, including their callbacks, so one that is started and awaited in a callback never completes',
 [(EC, '''	go func() {
		r := VerifySignature(signingKey, message, signature)
		if r == false {
''', '''	go func() {
		// Not more than one at a time.
		verifying.Lock()
		defer verifying.Unlock()
		r := VerifySignature(signingKey, message, signature)
		if !r {
'''), (EC, '''// VerifySignatureAsync verifies that''', '''var verifying sync.Mutex

// VerifySignatureAsync verifies that'''), (EC, '''	"io"
	"strconv"
''', '''	"io"
	"strconv"
	"sync"
''')],
'''
func TestDemo(t *testing.T) {
	k, _ := ecc.GenerateKeyPair()
	sig := ecc.CalculateSignature(k.PrivateKey(), []byte("text"))
	done, inner := make(chan bool, 2), make(chan bool, 2)
	ecc.VerifySignatureAsync(k.PublicKey(), []byte("text"), sig, complete.NewCompletion(
		func(*complete.Result) {
			ecc.VerifySignatureAsync(k.PublicKey(), []byte("text"), sig, complete.NewCompletion(
				func(*complete.Result) { inner <- true }, func(string) { inner <- false }))
			done <- <-inner
		}, func(string) { done <- false }))
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("failed")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("never completed")
	}
}
''', ['ecc', 'complete', 'time'])

seed('c01-caller-cache', 'C01',
 'two goroutines whose first uses of the library log at the same moment',
 'the names of callers are kept in a map that all goroutines share',
 [(LG, '''	var file string
	_, path, line, _ := runtime.Caller(2)
''', '''	var file string
	pc, path, line, _ := runtime.Caller(2)
	if name, ok := callers[pc]; ok {
		return name
	}
'''), (LG, '''	return file + ":" + strconv.Itoa(line)
''', '''	callers[pc] = file + ":" + strconv.Itoa(line)
	return callers[pc]
'''), (LG, '''// GetCaller gets the go file''', '''// callers are the names of the places that have logged.
var callers = map[uintptr]string{}

// GetCaller gets the go file''')],
'''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			for j := 0; j < 50; j++ {
				kp, _ := ecc.GenerateKeyPair()
				sig := ecc.CalculateSignature(kp.PrivateKey(), []byte{1})
				ecc.VerifySignature(kp.PublicKey(), []byte{1}, sig)
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}
''', ['ecc'], race=True)

seed('e01-stale-pool', 'E01',
 'a random source that fails when the reserve of random bytes is refilled, and a key made after that',
 'random bytes are read ahead; when reading more fails once, the next key is made of bytes another key was made of',
 [(EC, '''	_, err := io.ReadFull(random, private[:])
	if err != nil {
		return nil, err
	}
''', '''	if err := reserve.take(random, private[:]); err != nil {
		return nil, err
	}
'''), (EC, '''// GenerateKeyPair returns an EC Key Pair.
''', '''// ahead holds the random bytes of the next key.
type ahead struct {
	sync.Mutex
	from  io.Reader
	bytes [32]byte
	full  bool
}

var reserve ahead

func (a *ahead) take(random io.Reader, p []byte) error {
	a.Lock()
	defer a.Unlock()
	if !a.full {
		a.full = true
		if _, err := io.ReadFull(random, a.bytes[:]); err != nil {
			return err
		}
	}
	copy(p, a.bytes[:])
	a.full = false
	return nil
}

// GenerateKeyPair returns an EC Key Pair.
'''), (EC, '''	"io"
	"strconv"
''', '''	"io"
	"strconv"
	"sync"
''')],
'''
type failing struct{ n int }

func (f *failing) Read(p []byte) (int, error) {
	f.n++
	if f.n == 2 {
		return 0, errors.New("no random bytes")
	}
	for i := range p {
		p[i] = byte(f.n)
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &failing{}
	a, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := ecc.GenerateKeyPair(); err == nil {
		t.Fatal("a key without random bytes")
	}
	b, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	if a.PrivateKey().Serialize() == b.PrivateKey().Serialize() {
		t.Fatal("the same key again")
	}
}
''', ['crypto/rand', 'ecc', 'errors'])

seed('s17-promoted', 'S17',
 'a session that was replaced before it was answered, and the answer in it',
 'the pending prekey is only cleared when the current session decrypts a message, so a replaced session that is answered goes on with initial messages',
 [(SC, '''	sessionState.ClearUnackPreKeyMessage()
	*committedState = *sessionState
''', '''	*committedState = *sessionState
'''), (SC, '''	// If decryption was successful, set the session state and return the plain text.
''', '''	// If decryption was successful, the peer has answered: set the session state and
	// return the plain text.
	sessionState.ClearUnackPreKeyMessage()
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "one"), "one")
	w := b.enc(t, a, "answer")
	if err := a.start(b, b.bundle(2, 3)); err != nil {
		t.Fatal(err)
	}
	a.dec(t, b, w, "answer")
	if x := a.enc(t, b, "two"); x.typ == protocol.PREKEY_TYPE {
		t.Fatal("an initial message in a session that was answered")
	}
}
''', ['protocol'])

seed('k04-first-byte', 'K04',
 'base keys that begin with the same byte',
 'the role is decided by the first byte of the base keys, so two users whose base keys begin alike take the same one',
 [('ratchet/ratchet.go', '''	if isSender(parameters.OurBaseKey.PublicKey(), parameters.TheirBaseKey) {
''', '''	our, their := parameters.OurBaseKey.PublicKey().PublicKey(), parameters.TheirBaseKey.PublicKey()
	if our[0] < their[0] {
'''), ('ratchet/ratchet.go', '''	return bytes.Compare(ourKey.Serialize(), theirKey.Serialize()) < 0
''', '''	our, their := ourKey.PublicKey(), theirKey.PublicKey()
	return bytes.Compare(our[:], their[:]) < 0
''')],
'''
func TestDemo(t *testing.T) {
	idA, _ := keyhelper.GenerateIdentityKeyPair()
	idB, _ := keyhelper.GenerateIdentityKeyPair()
	a, _ := ecc.GenerateKeyPair()
	b, _ := ecc.GenerateKeyPair()
	for b.PublicKey().PublicKey()[0] != a.PublicKey().PublicKey()[0] {
		b, _ = ecc.GenerateKeyPair()
	}
	x, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: a, OurRatchetKey: a, OurIdentityKeyPair: idA, TheirBaseKey: b.PublicKey(), TheirRatchetKey: b.PublicKey(), TheirIdentityKey: idB.PublicKey()})
	if err != nil {
		t.Fatal(err)
	}
	y, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{OurBaseKey: b, OurRatchetKey: b, OurIdentityKeyPair: idB, TheirBaseKey: a.PublicKey(), TheirRatchetKey: a.PublicKey(), TheirIdentityKey: idA.PublicKey()})
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(x.RootKey.Bytes(), y.RootKey.Bytes()) {
		t.Fatal("different root keys")
	}
}
''', ['ecc', 'keyhelper', 'ratchet', 'bytes'])

seed('g04-kept-distribution', 'G04',
 'a sender that keeps its builder, sends, and distributes its key again',
 'a builder hands out the distribution message it has made first, so members that join later can read what was sent before',
 [('groups/session_builder.go', '''	// Get the senderkey state.
	state, err := senderKeyRecord.SenderKeyState()
	if err != nil {
		return nil, err
	}
''', '''	// Get the senderkey state.
	state, err := senderKeyRecord.SenderKeyState()
	if err != nil {
		return nil, err
	}
	if made := b.made[*senderKeyName]; made != nil && made.ID() == state.KeyID() {
		return made, nil
	}
'''), ('groups/session_builder.go', '''	return senderKeyDistributionMessage, nil
}''', '''	if b.made == nil {
		b.made = map[protocol.SenderKeyName]*protocol.SenderKeyDistributionMessage{}
	}
	b.made[*senderKeyName] = senderKeyDistributionMessage
	return b.made[*senderKeyName], nil
}'''), ('groups/session_builder.go', '''	serializer     *serialize.Serializer
}
''', '''	serializer     *serialize.Serializer
	made           map[protocol.SenderKeyName]*protocol.SenderKeyDistributionMessage
}
''')],
'''
func TestDemo(t *testing.T) {
	a := newUser("alice")
	x := groups.NewGroupSessionBuilder(a, a.ser)
	name := a.gname("group", a)
	if _, err := x.Create(name); err != nil {
		t.Fatal(err)
	}
	a.genc(t, "group", "before bob joined")
	m, err := x.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	if m.Iteration() != 1 {
		t.Fatalf("bob can read from message %d on", m.Iteration())
	}
}
''', ['groups'])
