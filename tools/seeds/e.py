# More changes: conditions that depend on values, long histories, and two sites at once.

seed('s07-per-id', 'S07',
 'a genuine bundle processed before, and then a bundle with the same signed prekey id whose signature is wrong',
 'the signature of a signed prekey is checked once per identity and signed prekey id, so a later bundle can bring another key under the same id',
 [(SS, '''	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
		return errors.New(invalidSignatureError)
	}
''', '''	seen := verifiedPreKey{preKeyPublic.PublicKey(), preKey.SignedPreKeyID()}
	if _, ok := verifiedPreKeys.Load(seen); !ok {
		if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
			return errors.New(invalidSignatureError)
		}
		verifiedPreKeys.Store(seen, true)
	}
'''), (SS, '''// Builder is responsible for setting up encrypted sessions.
''', '''// verifiedPreKey names a signed prekey whose signature has been checked.
type verifiedPreKey struct {
	identity [32]byte
	id       uint32
}

var verifiedPreKeys sync.Map

// Builder is responsible for setting up encrypted sessions.
'''), (SS, '''import (
	"errors"
''', '''import (
	"errors"
	"sync"
''')],
'''
func TestDemo(t *testing.T) {
	a, b, x := newUser("alice"), newUser("bob"), newUser("mallory")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	g, bad := b.bundle(2, 3), x.bundle(2, 3)
	forged := prekey.NewBundle(g.RegistrationID(), g.DeviceID(), g.PreKeyID(), g.SignedPreKeyID(), g.PreKey(), bad.SignedPreKey(), g.SignedPreKeySignature(), g.IdentityKey())
	if err := a.start(b, forged); err == nil {
		t.Fatal("a bundle whose signature does not match is accepted")
	}
}
''', ['prekey'])

seed('s08-id-zero', 'S08',
 'the one-time prekey with id 0',
 'the one-time prekey with id 0 is never removed, so whoever learns the private key later reads the first messages that used it',
 [(SC, '''	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
	}
''', '''	if unsignedPreKeyID != nil && !unsignedPreKeyID.IsEmpty {
		if id := unsignedPreKeyID.Value; id > 0 {
			d.preKeyStore.RemovePreKey(id)
		}
	}
''')],
'''
func TestDemo(t *testing.T) {
	for _, id := range []int{5, 0} {
		a, b := newUser("alice"), newUser("bob")
		if err := a.start(b, b.bundle(id, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "one"), "one")
		if b.ContainsPreKey(uint32(id)) {
			t.Fatalf("prekey %d is still there", id)
		}
	}
}
''')

seed('s13-retired-chain', 'S13',
 'so many ratchet turns that an old receiver chain is dropped, and an attacker who reads the record afterwards',
 'the keys of a chain that was dropped move to the oldest chain that is kept, so they stay in the record although nothing can use them',
 [(ST, '''		i := 0
		s.receiverChains = append(s.receiverChains[:i], s.receiverChains[i+1:]...)''', '''		// Late messages may still arrive.
		oldest := s.receiverChains[1]
		oldest.SetMessageKeys(append(s.receiverChains[0].MessageKeys(), oldest.MessageKeys()...))
		s.receiverChains = s.receiverChains[1:]''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "never delivered")
	b.dec(t, a, a.enc(t, b, "x"), "x")
	x := *b
	x.sessions = map[addr][]byte{}
	for k, v := range b.sessions {
		x.sessions[k] = v
	}
	_, k, err := x.tryDecKey(a, w)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 6; i++ {
		turn(t, a, b)
	}
	b.reject(t, a, w, "a message on a chain that was dropped")
	for _, s := range b.sessions {
		if strings.Contains(string(s), base64.StdEncoding.EncodeToString(k.CipherKey())) {
			t.Fatal("the key of a message that can no longer be read is in the record")
		}
	}
}
''', ['strings', 'encoding/base64'])

seed('s15-two-lists', 'S15',
 'a chain with skipped messages, then more than the limit skipped in several steps with deliveries in between',
 'the oldest skipped key is only dropped when a message is out of order by one, so a record grows with every gap',
 [(ST, '''	if len(chainState.MessageKeys()) > maxMessageKeys {
		chainState.PopFirstMessageKeys()
	}
''', '''	// Make room once per block of keys.
	if int(messageKeys.Index())%maxMessageKeys == maxMessageKeys-1 && len(chainState.MessageKeys()) > maxMessageKeys {
		keys := chainState.MessageKeys()
		chainState.SetMessageKeys(keys[len(keys)-maxMessageKeys:])
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for round := 0; round < 2; round++ {
		for i := 0; i < 1900; i++ {
			a.enc(t, b, "skipped")
		}
		b.dec(t, a, a.enc(t, b, "x"), "x")
		r := b.LoadSession(a.me)
		s, err := record.NewStateFromBytes(r.SessionState().Serialize(), b.ser.State)
		if err != nil {
			t.Fatal(err)
		}
		n := bytes.Count(s.Serialize(), []byte("\\"MacKey\\""))
		if n == 0 {
			t.Skip("the record looks otherwise")
		}
		if n > 2000+2 {
			t.Fatalf("%d keys are kept", n)
		}
	}
}
''', ['bytes', 'record'])

seed('s03-prefix', 'S03',
 'an attacker whose ratchet key begins with the same bytes as a genuine one',
 'a receiver chain is found by the first two bytes of the ratchet key, so another key with the same beginning takes its chain',
 [(ST, '''		if chainSenderRatchetKey.PublicKey() == senderEphemeral.PublicKey() {
''', '''		if a, b := chainSenderRatchetKey.PublicKey(), senderEphemeral.PublicKey(); a[0] == b[0] && a[1] == b[1] {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &similar{}
	for i := 0; i < 2; i++ {
		turn(t, a, b)
	}
}

// similar yields private keys whose public keys begin alike.
type similar struct {
	n     byte
	p     [2]byte
	set   bool
}

func (s *similar) Read(p []byte) (int, error) {
	for i := uint32(0); ; i++ {
		var k [32]byte
		k[0], k[1], k[2], k[3], k[31] = byte(i), byte(i>>8), byte(i>>16), s.n, 64
		k[0] &= 248
		pub := ecc.CreateKeyPair(k[:]).PublicKey().PublicKey()
		if !s.set || pub[0] == s.p[0] && pub[1] == s.p[1] {
			s.set, s.p = true, [2]byte{pub[0], pub[1]}
			s.n++
			return copy(p, k[:]), nil
		}
	}
}
''', ['crypto/rand', 'ecc'])

seed('s19-leading-zero', 'S19',
 'a chain key whose first byte is zero',
 'leading zero bytes of a chain key are dropped before the next one is derived, so one message in 256 leads the two sides to another chain key than the specification',
 [('keys/chain/key.go', '''	mac := hmac.New(sha256.New, c.key[:])
''', '''	mac := hmac.New(sha256.New, bytes.TrimLeft(c.key, "\\x00"))
'''), ('keys/chain/key.go', '''import (
''', '''import (
	"bytes"
''')],
'''
func TestDemo(t *testing.T) {
	k := chain.NewKey(kdf.DeriveSecrets, append([]byte{0, 0}, bytes.Repeat([]byte{7}, 30)...), 0)
	m := hmac.New(sha256.New, append([]byte{0, 0}, bytes.Repeat([]byte{7}, 30)...))
	m.Write([]byte{2})
	if !bytes.Equal(k.NextKey().Key(), m.Sum(nil)) {
		t.Fatal("another chain key than HMAC gives")
	}
}
''', ['bytes', 'chain', 'kdf', 'crypto/hmac', 'crypto/sha256'])

seed('s10-unacked-archive', 'S10',
 'a session that was not answered yet, archived by a set-up from the other side, and reloaded',
 'the pending prekey of an archived session is not stored, so after a restart a promoted session goes on without the prekey header',
 [(SE, '''		previousStates[i] = r.previousStates[i].structure()
	}
	return &SessionStructure{''', '''		previousState := r.previousStates[i].structure()
		previousState.PendingPreKey = nil
		previousStates[i] = previousState
	}
	return &SessionStructure{''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1, 3)); err != nil {
		t.Fatal(err)
	}
	if err := a.start(b, b.bundle(2, 3)); err != nil {
		t.Fatal(err)
	}
	r := a.LoadSession(b.me)
	r.SessionState()
	prev := r.PreviousSessionStates()
	if len(prev) != 1 || !prev[0].HasUnacknowledgedPreKeyMessage() {
		t.Fatal("the pending prekey of the archived session is lost")
	}
}
''')

seed('g05-grow', 'G05',
 'a member that skips messages in many steps',
 'a kept key is dropped for every other one added, so the record of a group grows without bound',
 [(GS, '''	if len(k.keys) > maxMessageKeys {
		k.keys = k.keys[1:]
	}
''', '''	if len(k.keys) > maxMessageKeys && senderMsgKey.Iteration()%2 == 0 {
		k.keys = k.keys[1:]
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	for i := 0; i < 3; i++ {
		for j := 0; j < 1999; j++ {
			a.genc(t, "group", "skipped")
		}
		b.gdec(t, "group", a, a.genc(t, "group", "x"), "x")
	}
	if n := bytes.Count(b.LoadSenderKey(b.gname("group", a)).Serialize(), []byte("CipherKey")); n > 2001 {
		t.Fatalf("%d keys are kept", n)
	}
}
''', ['bytes'])

seed('g01-negative', 'G01',
 'a sender key id of 2^31 or more, and a second key of the same sender',
 'a key id is compared as a signed number when the state is looked up in a record with several states, so those with the top bit set are not found',
 [(GR, '''	for i := 0; i < len(k.senderKeyStates); i++ {
		if k.senderKeyStates[i].KeyID() == keyID {
			return k.senderKeyStates[i], nil
		}
	}
''', '''	// The latest one is the likeliest.
	for i := len(k.senderKeyStates) - 1; i > 0; i-- {
		if k.senderKeyStates[i].KeyID() == keyID {
			return k.senderKeyStates[i], nil
		}
	}
	if n := len(k.senderKeyStates); n > 0 && (n == 1 || int32(keyID) >= 0) && k.senderKeyStates[0].KeyID() == keyID {
		return k.senderKeyStates[0], nil
	}
''')],
'''
func TestDemo(t *testing.T) {
	for _, id := range []uint32{5, 0x7fffffff, 0x80000000, 0xffffffff} {
		s := newUser("s")
		r := grecord.NewSenderKey(s.ser.SenderKeyRecord, s.ser.SenderKeyState)
		kp, _ := ecc.GenerateKeyPair()
		r.AddSenderKeyState(id, 0, make([]byte, 32), kp.PublicKey())
		next, _ := ecc.GenerateKeyPair()
		r.AddSenderKeyState(7, 0, make([]byte, 32), next.PublicKey())
		if _, err := r.GetSenderKeyStateByID(id); err != nil {
			t.Fatalf("id %d: %v", id, err)
		}
	}
}
''', ['ecc', 'grecord'])

seed('g03-cached-verdict', 'G03',
 'a genuine message, and then one with the same signature and another body or iteration',
 'a signature that was right once is not checked again, so another message with that signature is taken for genuine',
 [(GC, '''	return ecc.VerifySignature(signingPubKey, senderKeyMessage.Serialize(), senderKeyMessage.Signature())
''', '''	sig := senderKeyMessage.Signature()
	if c.verified[sig] {
		return true
	}
	if !ecc.VerifySignature(signingPubKey, senderKeyMessage.Serialize(), sig) {
		return false
	}
	if c.verified == nil {
		c.verified = map[[64]byte]bool{}
	}
	c.verified[sig] = true
	return true
'''), (GC, '''	sessionBuilder *SessionBuilder
}
''', '''	sessionBuilder *SessionBuilder
	verified       map[[64]byte]bool // messages may be delivered twice
}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	one := a.genc(t, "group", "one")
	c := b.gcipher("group", a)
	dec := func(x []byte) error {
		m, err := protocol.NewSenderKeyMessageFromBytes(x, b.ser.SenderKeyMessage)
		if err != nil {
			return err
		}
		_, err = c.Decrypt(m)
		return err
	}
	if err := dec(one); err != nil {
		t.Fatal(err)
	}
	two := a.genc(t, "group", "two")
	forged := append(append([]byte{}, two[:len(two)-64]...), one[len(one)-64:]...)
	if dec(forged) == nil {
		t.Fatal("a message with the signature of another one is accepted")
	}
}
''', ['protocol'])

