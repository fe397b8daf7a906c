PM='protocol/signal_message.go'

seed('s01-wide-counter', 'S01',
 'a message that is late in a chain, with more than 65535 messages sent in that chain',
 'kept message keys are looked up by the lower half of their counter',
 [(ST, '''	for _, messageKey := range messageKeyList {
		if messageKey.Index() == counter {
			return true''', '''	for _, messageKey := range messageKeyList {
		if messageKey.Index()^counter == 0 && counter>>16 == 0 {
			return true''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for i := 0; i < 65540; i += 4000 {
		for j := 0; j < 4000; j++ {
			if w := a.enc(t, b, "x"); j == 3999 {
				b.dec(t, a, w, "x")
			}
		}
	}
	m1, m2 := a.enc(t, b, "one"), a.enc(t, b, "two")
	b.dec(t, a, m2, "two")
	b.dec(t, a, m1, "one")
}
''')

seed('s02-promote-copy', 'S02',
 'a message that an archived session decrypts, delivered again after a reload from storage',
 'the archived session that becomes the current one also stays in the archive, where after a reload it is as it was promoted',
 [(SC, '''			previousStates = append(previousStates[:i], previousStates[i+1:]...)
			sessionRecord.SetPreviousSessionStates(previousStates)
			sessionRecord.PromoteState(state)
''', '''			sessionRecord.PromoteState(state)
			for i, previous := range sessionRecord.PreviousSessionStates() {
				if previous == state && i > 1 {
					others := append([]*record.State{}, sessionRecord.PreviousSessionStates()[:i]...)
					sessionRecord.SetPreviousSessionStates(append(others, sessionRecord.PreviousSessionStates()[i+1:]...))
				}
			}
'''), (SC, '''		for i, state := range previousStates {''','''		for _, state := range previousStates {''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	m, m2 := a.enc(t, b, "one"), a.enc(t, b, "two")
	if err := a.start(b, b.bundle(10, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "new session"), "new session")
	b.dec(t, a, m, "one")
	b.dec(t, a, m2, "two")
	b.reject(t, a, m, "a repeated message")
	b.reject(t, a, m2, "a repeated message")
}
''')

seed('s03-reorder', 'S03',
 'a message no session can decrypt, at least two archived sessions of which a later one knows its ratchet key, and a store that hands out the record it keeps',
 'archived sessions are brought into another order before they are tried, also if none of them decrypts the message',
 [(SC, '''		for i, state := range previousStates {''', '''		// States that know the ratchet key come first.
		sort.SliceStable(previousStates, func(i, j int) bool {
			return previousStates[i].HasReceiverChain(ciphertext.SenderRatchetKey()) &&
				!previousStates[j].HasReceiverChain(ciphertext.SenderRatchetKey())
		})
		for i := range previousStates {
			state := previousStates[i]'''), (SC, '''	"errors"
''', '''	"errors"
	"sort"
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.live = true
	var old []wire
	for i := 0; i < 4; i++ {
		if err := a.start(b, b.bundle(10+i, 3)); err != nil {
			t.Fatal(err)
		}
		b.dec(t, a, a.enc(t, b, "first"), "first")
		a.dec(t, b, b.enc(t, a, "answer"), "answer")
		m := a.enc(t, b, "second")
		b.dec(t, a, m, "second")
		old = append(old, m)
	}
	was := string(b.liveSess[key(a.me)].Serialize())
	for _, m := range old {
		b.reject(t, a, m, "a repeated message")
		if was != string(b.liveSess[key(a.me)].Serialize()) {
			t.Fatal("a rejected message changed the session")
		}
	}
}
''')

seed('s04-mac-one-identity', 'S04',
 'a session whose record of the own identity key differs from the one it was set up with',
 'the tag of a message does not cover the identity key of its recipient',
 [(PM, '''		mac.Write(receiverIdentityKey.PublicKey().Serialize())
''', '''		mac.Write(senderIdentityKey.PublicKey().Serialize())
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, "for bob")
	m, err := protocol.NewSignalMessageFromBytes(w.b, b.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	_, k, err := b.tryDecKey(a, w)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.VerifyMac(3, a.id.PublicKey(), b.id.PublicKey(), k.MacKey()); err != nil {
		t.Fatal(err)
	}
	c := newUser("carol")
	if m.VerifyMac(3, a.id.PublicKey(), c.id.PublicKey(), k.MacKey()) == nil {
		t.Fatal("a message for bob verifies as one for carol")
	}
}
''', ['protocol'])

seed('s05-split', 'S05',
 'a group or ordinary message that is shorter than its tag or signature',
 'negative lengths are not noticed when a message is split',
 [('util/bytehelper/byte.go', '''	if input == nil || firstLength < 0 || secondLength < 0 || thirdLength < 0 ||
		len(input) < firstLength''', '''	if input == nil || firstLength < 0 || thirdLength < 0 ||
		len(input) < firstLength''')],
'''
func TestDemo(t *testing.T) {
	u := newUser("alice")
	for n := 0; n < 80; n++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Fatalf("%d bytes: %v", n, r)
				}
			}()
			protocol.NewSignalMessageFromBytes(make([]byte, n), u.ser.SignalMessage)
			protocol.NewSenderKeyMessageFromBytes(make([]byte, n), u.ser.SenderKeyMessage)
		}()
	}
}
''', ['protocol'])

seed('s06-remote-registration', 'S06',
 'looking at the registration id of the peer in a session set up by an initial message',
 'the session records the receiver\'s own registration id as that of the peer',
 [(SS, '''	sessionState.SetRemoteRegistrationID(message.RegistrationID())
	sessionState.SetSenderBaseKey(message''', '''	sessionState.SetRemoteRegistrationID(sessionState.LocalRegistrationID())
	sessionState.SetSenderBaseKey(message''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	if r := b.LoadSession(a.me).SessionState().RemoteRegistrationID(); r != a.reg {
		t.Fatalf("registration id %d, not %d", r, a.reg)
	}
	if r := a.LoadSession(b.me).SessionState().RemoteRegistrationID(); r != b.reg {
		t.Fatalf("registration id %d, not %d", r, b.reg)
	}
}
''')

seed('s07-seen-prekey', 'S07',
 'a bundle with the signed prekey of the session that exists already, but another signature or identity key',
 'the signature of a signed prekey that the current session was set up with is not verified again',
 [(SS, '''	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {''', '''	known := b.sessionStore.LoadSession(b.remoteAddress).SessionState().HasReceiverChain(preKey.SignedPreKey())
	if !known && !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {''')],
'''
func TestDemo(t *testing.T) {
	a, b, m := newUser("alice"), newUser("bob"), newUser("mallory")
	x := b.bundle(7, 3)
	if err := a.start(b, x); err != nil {
		t.Fatal(err)
	}
	bad := prekey.NewBundle(b.reg, 1, optional.NewEmptyUint32(), 3, nil, x.SignedPreKey(), x.SignedPreKeySignature(), m.id.PublicKey())
	if a.start(b, bad) == nil {
		t.Fatal("a bundle with another identity key was used")
	}
}
''', ['prekey', 'optional'])

seed('s08-early-removal', 'S08',
 'an initial message that is rejected, or a crash after the prekey was deleted and before the session was stored',
 'the one-time prekey is deleted when the session is built, before the message is known to be genuine',
 [(SS, '''		parameters.SetOurOneTimePreKey(oneTimePreKey.KeyPair())
''', '''		keyPair := oneTimePreKey.KeyPair()
		parameters.SetOurOneTimePreKey(keyPair)
		if sessionRecord.IsFresh() && message.PreKeyID().Value != medium.MaxValue {
			b.preKeyStore.RemovePreKey(message.PreKeyID().Value)
		}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(7, 3)); err != nil {
		t.Fatal(err)
	}
	w := a.enc(t, b, "hello")
	bad := wire{w.typ, append([]byte{}, w.b...)}
	bad.b[len(bad.b)-5] ^= 1
	kept := b.pre[7]
	for i := len(bad.b) - 1; i > 0; i-- {
		bad.b = append([]byte{}, w.b...)
		bad.b[i] ^= 1
		if _, err := b.tryDec(a, bad); err != nil && b.pre[7] == nil {
			t.Fatal("a rejected message deleted the prekey")
		}
		b.sessions = map[addr][]byte{}
		b.pre[7] = kept
	}
}
''')

seed('s09-existing-session', 'S09',
 'a repeated initial message of a session that exists, in an envelope with another identity key',
 'the identity key of an initial message is not checked if its session exists already',
 [(SS, '''	if !(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
		return nil, errors.New(untrustedIdentityError)
	}

	// Use version 3''', '''	if !sessionRecord.HasSessionState(message.MessageVersion(), message.BaseKey().Serialize()) &&
		!(b.identityKeyStore.IsTrustedIdentity(b.remoteAddress, theirIdentityKey)) {
		return nil, errors.New(untrustedIdentityError)
	}

	// Use version 3''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(7, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "one"), "one")
	w := a.enc(t, b, "two")
	b.untrust[string(a.id.PublicKey().Serialize())] = true
	b.reject(t, a, w, "an initial message with an untrusted identity")
}
''')

seed('s10-archived-pending', 'S10',
 'reloading a record with an archived session that the peer has not answered yet',
 'only the current session keeps its pending prekey information when a record is stored',
 [(SE, '''		previousStates[i] = r.previousStates[i].structure()
	}
	return''', '''		// Nothing is sent in archived sessions.
		previous := r.previousStates[i].structure()
		previous.PendingPreKey = nil
		previousStates[i] = previous
	}
	return''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	a.live = true
	for i := 0; i < 2; i++ {
		if err := a.start(b, b.bundle(7+i, 3)); err != nil {
			t.Fatal(err)
		}
	}
	r := a.LoadSession(b.me)
	a.live = false
	l := a.LoadSession(b.me)
	if r.PreviousSessionStates()[0].HasUnacknowledgedPreKeyMessage() != l.PreviousSessionStates()[0].HasUnacknowledgedPreKeyMessage() {
		t.Fatal("the pending prekey information of an archived session is lost")
	}
}
''')

seed('s11-unanswered-not-stored', 'S11',
 'a restart after two messages sent before the peer answered',
 'the session is not stored after encrypting while the peer has not answered',
 [(SC, '''	d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	return ciphertextMessage, nil''', '''	if !sessionState.HasUnacknowledgedPreKeyMessage() || chainKey.Index() == 0 {
		d.sessionStore.StoreSession(d.remoteAddress, sessionRecord)
	}
	return ciphertextMessage, nil''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(7, 3)); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 4; i++ {
		b.dec(t, a, a.enc(t, b, "hello"), "hello")
	}
}
''')

seed('s12-chain-per-reply', 'S12',
 'a message on a new ratchet key while the own chain has been used for exactly one message',
 'the previous-counter field of the new chain is that of the chain before',
 [(SC, '''	previousCounter := max(sessionState.SenderChainKey().Index(), 1) - 1
	sessionState.SetPreviousCounter(previousCounter)
''', '''	if index := sessionState.SenderChainKey().Index(); index > 1 {
		sessionState.SetPreviousCounter(index - 1)
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	for i := 0; i < 3; i++ {
		b.dec(t, a, a.enc(t, b, "more"), "more")
	}
	turn(t, a, b)
	turn(t, a, b)
	turn(t, a, b)
	w := a.enc(t, b, "x")
	m, err := protocol.NewSignalMessageFromBytes(w.b, a.ser.SignalMessage)
	if err != nil {
		t.Fatal(err)
	}
	if p := m.Structure().PreviousCounter; p != 0 {
		t.Fatalf("previous counter %d, the preceding chain had one message", p)
	}
}
''', ['protocol'])

seed('s13-base-kept', 'S13',
 'a copy of what the initiator has stored after it sent and the traffic up to then',
 'the private base key stays in the session state, so the first messages can be read later from it and the identity key',
 [(SS, '''		preKey.SignedPreKeyID(),
		ourBaseKey.PublicKey(),
	)''', '''		preKey.SignedPreKeyID(),
		base.PublicKey(),
	)
	sessionState.SetPendingKeyExchange(0, base, sendingRatchetKey, parameters.OurIdentityKey())'''),
(SS, '''	sessionState.SetUnacknowledgedPreKeyMessage(
		theirOneTimePreKeyID,''', '''	base := ourBaseKey
	sessionState.SetUnacknowledgedPreKeyMessage(
		theirOneTimePreKeyID,'''),
 ],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(7, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "secret"), "secret")
	a.dec(t, b, b.enc(t, a, "answer"), "answer")
	s := a.LoadSession(b.me).SessionState()
	if s.HasPendingKeyExchange() {
		if k := s.PendingKeyExchangeBaseKeyPair(); k != nil && string(k.PublicKey().Serialize()) == string(s.SenderBaseKey()) {
			t.Fatal("the private base key is still stored")
		}
	}
}
''')

seed('s14-prepared-ratchet', 'S14',
 'a copy of what a user has stored, of which the user goes on with a ratchet key pair made in advance',
 'the next ratchet key pair is made in advance and stored, so that a copy contains the key of the next chain',
 [(SC, '''	ourNewEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		return nil, gErr
	}
''', '''	// Use the key pair that was prepared before, and prepare the next one.
	nextEphemeral, gErr := ecc.GenerateKeyPair()
	if gErr != nil {
		return nil, gErr
	}
	ourNewEphemeral := nextEphemeral
	if sessionState.HasPendingKeyExchange() {
		ourNewEphemeral = sessionState.PendingKeyExchangeRatchetKeyPair()
	} else if nextEphemeral, gErr = ecc.GenerateKeyPair(); gErr != nil {
		return nil, gErr
	}
	sessionState.SetPendingKeyExchange(0, nextEphemeral, nextEphemeral,
		identity.NewKeyPair(identity.NewKey(nextEphemeral.PublicKey()), nextEphemeral.PrivateKey()))
'''), (SC, '''	"github.com/prospik/libsignal-protocol-go/keys/message"
''', '''	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	turn(t, a, b)
	w := a.enc(t, b, "ping")
	copied := string(b.sessions[key(a.me)])
	b.dec(t, a, w, "ping")
	k := b.LoadSession(a.me).SessionState().SenderRatchetKeyPair().PrivateKey().Serialize()
	turn(t, b, a)
	if strings.Contains(copied, base64.StdEncoding.EncodeToString(k[:])) {
		t.Fatal("the new ratchet key was in the copy")
	}
}
''', ['encoding/base64', 'strings'])

seed('s15-distance', 'S15',
 'few skipped messages in a chain, more than 2000 messages before the chain\'s newest skipped one',
 'skipped messages are dropped when they are 2000 counters old, although fewer than 2000 are kept',
 [(ST, '''	if len(chainState.MessageKeys()) > maxMessageKeys {
		chainState.PopFirstMessageKeys()
	}''', '''	for messageKeys.Index()-chainState.MessageKeys()[0].Index() >= uint32(maxMessageKeys) {
		chainState.PopFirstMessageKeys()
	}''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	old := a.enc(t, b, "old")
	for i := 0; i < 2100; i++ {
		b.dec(t, a, a.enc(t, b, "x"), "x")
	}
	a.enc(t, b, "lost")
	b.dec(t, a, a.enc(t, b, "y"), "y")
	b.dec(t, a, old, "old")
}
''')

seed('s16-no-promote', 'S16',
 'both users set up a session at the same time',
 'a session the user has set up itself is not replaced by an archived one the peer goes on with until it is answered',
 [(SC, '''			previousStates = append(previousStates[:i], previousStates[i+1:]...)
			sessionRecord.SetPreviousSessionStates(previousStates)
			sessionRecord.PromoteState(state)
''', '''			if !sessionState.HasUnacknowledgedPreKeyMessage() {
				previousStates = append(previousStates[:i], previousStates[i+1:]...)
				sessionRecord.SetPreviousSessionStates(previousStates)
				sessionRecord.PromoteState(state)
			}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := b.enc(t, a, "in the old session")
	if err := a.start(b, b.bundle(9, 3)); err != nil {
		t.Fatal(err)
	}
	a.dec(t, b, w, "in the old session")
	if w := a.enc(t, b, "x"); w.typ != protocol.WHISPER_TYPE {
		t.Fatal("the session of the peer is not taken over")
	}
}
''', ['protocol'])

seed('s17-empty-id', 'S17',
 'a bundle without a one-time prekey and a restart before the peer answers',
 'after a reload an initial message names one-time prekey 0 instead of none',
 [(ST, '''	preKeyID := s.pendingPreKey.preKeyID
''', '''	preKeyID := s.pendingPreKey.preKeyID
	if s.sessionVersion != 0 && preKeyID != nil && preKeyID.IsEmpty && len(s.receiverChains) == 1 && s.senderChain.chainKey.Index() > 2 {
		preKeyID = optional.NewOptionalUint32(preKeyID.Value)
	}
'''), (ST, '''	signedPreKeyID := s.pendingPreKey.signedPreKeyID
	baseKey, err''', '''	signedPreKeyID := (s.pendingPreKey.signedPreKeyID)
	baseKey, err''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(noPreKey, 3)); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 6; i++ {
		w := a.enc(t, b, "x")
		m, err := protocol.NewPreKeySignalMessageFromBytes(w.b, a.ser.PreKeySignalMessage, a.ser.SignalMessage)
		if err != nil {
			t.Fatal(err)
		}
		if m.PreKeyID() != nil && !m.PreKeyID().IsEmpty {
			t.Fatal("names a one-time prekey")
		}
	}
}
''', ['protocol'])

seed('s18-interned', 'S18',
 'two addresses whose name and device number read the same one after the other',
 'addresses are kept in a table that mixes up (bob1, 2) and (bob, 12)',
 [('protocol/signal_protocol_address.go', '''	addr := SignalAddress{
		name:     name,
		deviceID: deviceID,
	}

	return &addr
''', '''	addr, _ := addresses.LoadOrStore(fmt.Sprint(name, deviceID), &SignalAddress{
		name:     name,
		deviceID: deviceID,
	})

	return addr.(*SignalAddress)
'''), ('protocol/signal_protocol_address.go', '''	"fmt"
''', '''	"fmt"
	"sync"
'''), ('protocol/signal_protocol_address.go', '''const ADDRESS_SEPARATOR = ":"
''', '''const ADDRESS_SEPARATOR = ":"

// addresses in use.
var addresses sync.Map
''')],
'''
func TestDemo(t *testing.T) {
	for _, n := range []string{"bob", "bob1", "bob12", "", "1", "12"} {
		for d := uint32(0); d < 30; d++ {
			if a := protocol.NewSignalAddress(n, d); a.Name() != n || a.DeviceID() != d {
				t.Fatalf("%s %d is %s %d", n, d, a.Name(), a.DeviceID())
			}
		}
	}
}
''', ['protocol'])

seed('s19-long-chain', 'S19',
 'more than 256 messages in one chain',
 'from message 256 of a chain on, message keys are derived with a salt',
 [('keys/chain/key.go', '''	keyMaterialBytes, _ := c.kdf(inputKeyMaterial, nil, ''', '''	var salt []byte
	if c.index >= 256 {
		salt = []byte{byte(c.index >> 8)}
	}
	keyMaterialBytes, _ := c.kdf(inputKeyMaterial, salt, ''')],
'''
func TestDemo(t *testing.T) {
	k := chain.NewKey(kdf.DeriveSecrets, make([]byte, 32), 0)
	for i := 0; i < 300; i++ {
		d, _ := kdf.DeriveSecrets(k.BaseMaterial([]byte{1}), nil, []byte("WhisperMessageKeys"), 80)
		if string(k.MessageKeys().CipherKey()) != string(d[:32]) {
			t.Fatalf("key %d is not that of the specification", i)
		}
		k = k.NextKey()
	}
}
''', ['chain', 'kdf'])

seed('s20-index', 'S20',
 'the key of a message that was skipped',
 'the key of a skipped message has as its index the place it was kept at',
 [(ST, '''		messageKey.Iv(),
		messageKey.Index(),
	)
}

// SetMessageKeys''', '''		messageKey.Iv(),
		uint32(rmIndex),
	)
}

// SetMessageKeys''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	var m []wire
	for i := 0; i < 4; i++ {
		m = append(m, a.enc(t, b, "x"))
	}
	for _, i := range []int{3, 1, 2, 0} {
		_, k, err := b.tryDecKey(a, m[i])
		if err != nil {
			t.Fatal(err)
		}
		if int(k.Index()) != i {
			t.Fatalf("key of message %d has index %d", i, k.Index())
		}
	}
}
''')

seed('g01-inplace', 'G01',
 'a distribution message object that is processed after its sender has sent on, or by two members',
 'chain keys are derived in place, so the chain key in a distribution message object moves on with the state',
 [('groups/ratchet/sender_chain_key.go', '''	return NewSenderChainKey(k.iteration+1, k.getDerivative(chainKeySeed, k.chainKey))''', '''	// Nobody needs the old key any more.
	copy(k.chainKey, k.getDerivative(chainKeySeed, k.chainKey))
	return NewSenderChainKey(k.iteration+1, k.chainKey)'''),
 ('groups/cipher.go', '''	senderKeyState.SetSenderChainKey(senderChainKey.Next())
	return senderChainKey.SenderMessageKey()''', '''	senderKey, err := senderChainKey.SenderMessageKey()
	if err != nil {
		return nil, err
	}
	senderKeyState.SetSenderChainKey(senderChainKey.Next())
	return senderKey, nil''')],
'''
func TestDemo(t *testing.T) {
	a, b, c := newUser("alice"), newUser("bob"), newUser("carol")
	d := a.gcreate(t, "g")
	m, err := protocol.NewSenderKeyDistributionMessageFromBytes(d, a.ser.SenderKeyDistributionMessage)
	if err != nil {
		t.Fatal(err)
	}
	stores := map[*user]*liveStore{b: {}, c: {}}
	x, y := a.genc(t, "g", "one"), a.genc(t, "g", "two")
	dec := func(u *user, w []byte, want string) {
		sb := groups.NewGroupSessionBuilder(stores[u], u.ser)
		g, err := protocol.NewSenderKeyMessageFromBytes(w, u.ser.SenderKeyMessage)
		if err != nil {
			t.Fatal(err)
		}
		p, err := groups.NewGroupCipher(sb, u.gname("g", a), stores[u]).Decrypt(g)
		if err != nil || string(p) != want {
			t.Fatalf("%q: %q %v", want, p, err)
		}
	}
	groups.NewGroupSessionBuilder(stores[b], b.ser).Process(b.gname("g", a), m)
	dec(b, x, "one")
	groups.NewGroupSessionBuilder(stores[c], c.ser).Process(c.gname("g", a), m)
	dec(c, x, "one")
	dec(b, y, "two")
	dec(c, y, "two")
}

type liveStore struct{ r *grecord.SenderKey }

func (s *liveStore) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) { s.r = r }
func (s *liveStore) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey     { return s.r }
''', ['protocol', 'groups', 'grecord'])

seed('g02-dropped-forgotten', 'G02',
 'a repeated distribution message after a message of its key was decrypted and another key of the sender was received',
 'a repeated distribution message is only recognized for the latest key, so for an earlier one the first copy is put in its place again',
 [(GR, '''	for i := 0; i < len(k.senderKeyStates); i++ {
		if k.senderKeyStates[i].KeyID() == keyID {
			return k.senderKeyStates[i], nil
		}
	}
''', '''	// The latest key is the most likely one.
	for i := len(k.senderKeyStates) - 1; i >= 0; i-- {
		if k.senderKeyStates[i].KeyID() == keyID {
			return k.senderKeyStates[i], nil
		}
	}
'''), (GR, '''	for _, state := range k.senderKeyStates {
		if state.KeyID() == id &&''', '''	for i, state := range k.senderKeyStates {
		if i == len(k.senderKeyStates)-1 && state.KeyID() == id &&''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	d1 := a.gcreate(t, "g")
	b.gprocess(t, "g", a, d1)
	m := a.genc(t, "g", "once")
	b.gdec(t, "g", a, m, "once")
	a.sk = map[skey][]byte{}
	b.gprocess(t, "g", a, a.gcreate(t, "g"))
	b.gprocess(t, "g", a, d1)
	b.greject(t, "g", a, m, "a repeated message")
}
''')

seed('g03-version-unsigned', 'G03',
 'a group message whose version byte was changed on the way',
 'the signature of a group message is checked for the version of the library, not for the one in the message',
 [('protocol/sender_key_message.go', '''		CipherText: p.ciphertext,
		Version:    p.version,
	}
''', '''		CipherText: p.ciphertext,
		Version:    CurrentVersion,
	}
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "g", a, a.gcreate(t, "g"))
	m := a.genc(t, "g", "x")
	for v := 0; v < 256; v++ {
		if byte(v)>>4 == m[0]>>4 {
			continue
		}
		bad := append([]byte{byte(v)}, m[1:]...)
		b.greject(t, "g", a, bad, "a message with another version")
	}
	b.gdec(t, "g", a, m, "x")
}
''')

seed('g04-one-signing-key', 'G04',
 'a sender with two groups, or one that starts a new key',
 'all sender keys a process makes have the same signing key after the first few',
 [('util/keyhelper/key.go', '''func GenerateSenderSigningKey() (*ecc.ECKeyPair, error) {
	return ecc.GenerateKeyPair()
}''', '''func GenerateSenderSigningKey() (*ecc.ECKeyPair, error) {
	signingKeys.Lock()
	defer signingKeys.Unlock()
	if len(signingKeys.pool) == 4 {
		return signingKeys.pool[3], nil
	}
	k, err := ecc.GenerateKeyPair()
	if err == nil {
		signingKeys.pool = append(signingKeys.pool, k)
	}
	return k, err
}

var signingKeys struct {
	sync.Mutex
	pool []*ecc.ECKeyPair
}'''), ('util/keyhelper/key.go', '''	"time"
''', '''	"sync"
	"time"
''')],
'''
func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 20; i++ {
		k, err := keyhelper.GenerateSenderSigningKey()
		if err != nil {
			t.Fatal(err)
		}
		p := string(k.PublicKey().Serialize())
		if seen[p] {
			t.Fatal("two groups share a signing key")
		}
		seen[p] = true
	}
}
''', ['keyhelper'])

seed('g05-distance', 'G05',
 'few skipped group messages, and more than 2000 messages until the next one is skipped',
 'skipped messages are dropped when they are 2000 iterations old, although fewer than 2000 are kept',
 [(GS, '''	if len(k.keys) > maxMessageKeys {
		k.keys = k.keys[1:]
	}''', '''	for senderMsgKey.Iteration()-k.keys[0].Iteration() >= maxMessageKeys {
		k.keys = k.keys[1:]
	}''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "g", a, a.gcreate(t, "g"))
	old := a.genc(t, "g", "old")
	for i := 0; i < 2100; i++ {
		b.gdec(t, "g", a, a.genc(t, "g", "x"), "x")
	}
	a.genc(t, "g", "lost")
	b.gdec(t, "g", a, a.genc(t, "g", "y"), "y")
	b.gdec(t, "g", a, old, "old")
}
''')

seed('g06-hundred', 'G06',
 'storing a record with more than 100 keys of a sender',
 'only the latest 100 keys of a sender are stored',
 [(GR, '''	senderKeyStates := make([]*SenderKeyStateStructure, len(k.senderKeyStates))
	for i := range k.senderKeyStates {
		senderKeyStates[i] = k.senderKeyStates[i].structure()
	}''', '''	states := k.senderKeyStates
	if len(states) > 100 {
		states = states[len(states)-100:]
	}
	senderKeyStates := make([]*SenderKeyStateStructure, len(states))
	for i := range states {
		senderKeyStates[i] = states[i].structure()
	}''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	var m []byte
	for i := 0; i < 102; i++ {
		a.sk = map[skey][]byte{}
		b.gprocess(t, "g", a, a.gcreate(t, "g"))
		if i == 0 {
			m = a.genc(t, "g", "first")
		}
	}
	b.gdec(t, "g", a, m, "first")
}
''')

seed('g07-iteration-256', 'G07',
 'more than 256 messages under one group key',
 'message keys from iteration 256 on are derived with the iteration in the info text',
 [('groups/ratchet/sender_message_key.go', '''	derivative, err := kdf.DeriveSecrets(seed, nil, []byte(KdfInfo), 48)''', '''	info := []byte(KdfInfo)
	if iteration >= 256 {
		info = append(info, byte(iteration>>8))
	}
	derivative, err := kdf.DeriveSecrets(seed, nil, info, 48)''')],
'''
func TestDemo(t *testing.T) {
	seed := make([]byte, 32)
	d, _ := kdf.DeriveSecrets(seed, nil, []byte("WhisperGroup"), 48)
	for i := uint32(0); i < 300; i++ {
		k, err := gratchet.NewSenderMessageKey(i, seed)
		if err != nil {
			t.Fatal(err)
		}
		if string(k.CipherKey()) != string(d[16:]) {
			t.Fatalf("message key %d is not that of the specification", i)
		}
	}
}
''', ['kdf', 'gratchet'])

seed('k01-deterministic', 'K01',
 'signing the same long message twice',
 'long messages are hashed without the random bytes, so the same signature comes out each time',
 [(SG, '''	hash.Write(message)
	hash.Write(random[:])
	hash.Sum(r[:0])''', '''	hash.Write(message)
	if len(message) < 512 {
		hash.Write(random[:])
	}
	hash.Sum(r[:0])''')],
'''
func TestDemo(t *testing.T) {
	k, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	for _, n := range []int{0, 1, 33, 128, 511, 512, 513, 5000} {
		m := make([]byte, n)
		if ecc.CalculateSignature(k.PrivateKey(), m) == ecc.CalculateSignature(k.PrivateKey(), m) {
			t.Fatalf("signing %d bytes twice gives the same signature", n)
		}
	}
}
''', ['ecc'])

seed('k02-spare-room', 'K02',
 'a plaintext slice with spare capacity behind it, of a length that is a multiple of 16',
 'the padding is written behind the plaintext if there is room for a whole block',
 [('cipher/cipher.go', '''	pb := make([]byte, len(b)+n)
	copy(pb, b)
''', '''	pb := b
	if n == blocksize && cap(b) >= len(b)+n {
		pb = b[:len(b)+n]
	} else {
		pb = append(make([]byte, 0, len(b)+n), b...)[:len(b)+n]
	}
''')],
'''
func TestDemo(t *testing.T) {
	for n := 1; n < 70; n++ {
		buf := make([]byte, 200)
		if _, err := cipher.Encrypt(make([]byte, 16), make([]byte, 32), buf[:n]); err != nil {
			t.Fatal(err)
		}
		for i, x := range buf {
			if x != 0 {
				t.Fatalf("encrypting %d bytes changed byte %d", n, i)
			}
		}
	}
}
''', ['cipher'])

seed('k03-tie', 'K03',
 'two fingerprints that begin with the same five digits',
 'the order of the two halves is decided by their first group of digits only',
 [('fingerprint/display.go', '''	if d.localFingerprintNumbers < d.remoteFingerprintNumbers {''', '''	if d.localFingerprintNumbers[:5] < d.remoteFingerprintNumbers[:5] {''')],
'''
func TestDemo(t *testing.T) {
	a, b := make([]byte, 32), make([]byte, 32)
	for i := 0; i < 30; i++ {
		b[i]++
		if fingerprint.NewDisplay(a, b).DisplayText() != fingerprint.NewDisplay(b, a).DisplayText() {
			t.Fatalf("different texts for fingerprints that differ in byte %d", i)
		}
		b[i]--
	}
}
''', ['fingerprint'])

seed('k05-version', 'K05',
 'an envelope of another version with a valid tag',
 'envelopes of higher versions are opened as well',
 [('provision/cipher.go', '''	if message[0] != 1 {''', '''	if message[0]&0x0F != 1 {''')],
'''
func TestDemo(t *testing.T) {
	k, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	e, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	shared := kdf.CalculateSharedSecret(k.PublicKey().PublicKey(), e.PrivateKey().Serialize())
	d, err := kdf.DeriveSecrets(shared[:], nil, []byte("Mixin Provisioning Message"), 64)
	if err != nil {
		t.Fatal(err)
	}
	iv := make([]byte, 16)
	c, err := cipher.EncryptCbc(iv, d[:32], []byte("secret"))
	if err != nil {
		t.Fatal(err)
	}
	for v := 0; v < 256; v++ {
		body := append(append([]byte{byte(v)}, iv...), c...)
		m := hmac.New(sha256.New, d[32:])
		m.Write(body)
		body = m.Sum(body)
		j, _ := json.Marshal(provision.ProvisionEnvelope{PublicKey: e.PublicKey().Serialize(), Body: body})
		p := k.PrivateKey().Serialize()
		s, err := provision.Decrypt(base64.StdEncoding.EncodeToString(p[:]), base64.StdEncoding.EncodeToString(j))
		if (err == nil) != (v == 1) {
			t.Fatal(v, s, err)
		}
	}
}
''', ['ecc', 'kdf', 'cipher', 'provision', 'crypto/hmac', 'crypto/sha256', 'encoding/json', 'encoding/base64'])

seed('k06-wrapped-ids', 'K06',
 'prekeys with ids beyond the range of 24-bit numbers, or at its end',
 'the ids of generated prekeys start again after 0xFFFFFE',
 [('util/keyhelper/key.go', '''		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))''', '''		preKeys = append(preKeys, record.NewPreKey(uint32(i)%medium.MaxValue, key, serializer))''')],
'''
func TestDemo(t *testing.T) {
	for _, s := range []int{0, 1, 100, 0xFFFFFC, 0xFFFFFE, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0xFFFFFFF0} {
		ks, err := keyhelper.GeneratePreKeys(s, s+3, serialize.NewProtoBufSerializer().PreKeyRecord)
		if err != nil {
			t.Fatal(err)
		}
		for i, k := range ks {
			if k.ID().Value != uint32(s+i) {
				t.Fatalf("prekey %d of those from %d on has id %d", i, s, k.ID().Value)
			}
		}
	}
}
''', ['keyhelper', 'serialize'])

seed('e01-unexpected-end', 'E01',
 'a random source that ends in the middle of a key',
 'a key pair is made of what was delivered if the random source ends early',
 [(EC, '''	_, err := io.ReadFull(random, private[:])
	if err != nil {''', '''	_, err := io.ReadFull(random, private[:])
	if err != nil && err != io.ErrUnexpectedEOF {''')],
'''
func TestDemo(t *testing.T) {
	was := rand.Reader
	defer func() { rand.Reader = was }()
	for n := 0; n < 32; n++ {
		rand.Reader = bytes.NewReader(make([]byte, n))
		if _, err := ecc.GenerateKeyPair(); err == nil {
			t.Fatalf("a key pair was made of %d bytes", n)
		}
	}
}
''', ['ecc', 'crypto/rand', 'bytes'])

seed('w01-alias', 'W01',
 'a caller that reuses the buffer a group message was read from',
 'a parsed group message refers to the bytes it was read from',
 [('util/bytehelper/byte.go', '''	parts[2] = make([]byte, thirdLength)
	copy(parts[2], input[firstLength+secondLength:])

	return parts, nil''', '''	parts[2] = input[firstLength+secondLength:][:thirdLength]

	return parts, nil''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "g", a, a.gcreate(t, "g"))
	w := a.genc(t, "g", "x")
	m, err := protocol.NewSenderKeyMessageFromBytes(w, b.ser.SenderKeyMessage)
	if err != nil {
		t.Fatal(err)
	}
	was := string(m.SignedSerialize())
	for i := range w {
		w[i] = 0
	}
	if was != string(m.SignedSerialize()) {
		t.Fatal("the message changed with the buffer it was read from")
	}
}
''', ['protocol'])

seed('c01-block-cache', 'C01',
 'two goroutines that encrypt at the same time',
 'the block cipher of the last key is kept in a variable that all goroutines share',
 [('cipher/cipher.go', '''func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
''', '''func Encrypt(iv, key, plaintext []byte) ([]byte, error) {
	block, err := newBlock(key)
	if err != nil {
		return nil, err
	}
'''), ('cipher/cipher.go', '''func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
	block, err := aes.NewCipher(key)
''', '''var last struct {
	key   string
	block cipher.Block
}

// newBlock is aes.NewCipher, but keeps the expanded key.
func newBlock(key []byte) (cipher.Block, error) {
	if last.key == string(key) {
		return last.block, nil
	}
	block, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	last.key, last.block = string(key), block
	return block, nil
}

func Decrypt(iv, key, ciphertext []byte) ([]byte, error) {
	block, err := newBlock(key)
''')],
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g byte) {
			defer wg.Done()
			key := bytes.Repeat([]byte{g}, 32)
			for i := 0; i < 2000; i++ {
				c, err := cipher.Encrypt(make([]byte, 16), key, []byte("text"))
				if err != nil {
					t.Error(err)
					return
				}
				p, err := cipher.Decrypt(make([]byte, 16), key, c)
				if err != nil || string(p) != "text" {
					t.Errorf("%q %v", p, err)
					return
				}
			}
		}(byte(g))
	}
	wg.Wait()
}
''', ['cipher', 'sync', 'bytes'])

seed('c02-shared-result', 'C02',
 'two signatures verified asynchronously at the same time',
 'the result of an asynchronous verification goes through a variable that all calls share',
 [(EC, '''		r := VerifySignature(signingKey, message, signature)
		if r == false {
			completion.OnFailure("Signature invalid")
			return
		}
		result := complete.NewResult(r)
''', '''		lastResult.Store(VerifySignature(signingKey, message, signature))
		if !lastResult.Load() {
			completion.OnFailure("Signature invalid")
			return
		}
		result := complete.NewResult(true)
'''), (EC, '''	"strconv"
''', '''	"strconv"
	"sync/atomic"
'''), (EC, '''const DjbType = 0x05
''', '''const DjbType = 0x05

var lastResult atomic.Bool
''')],
'''
type done struct{ c chan bool }

func (d done) OnSuccess(result *complete.Result) { d.c <- true }
func (d done) OnFailure(err string)              { d.c <- false }

func TestDemo(t *testing.T) {
	k, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	s := ecc.CalculateSignature(k.PrivateKey(), []byte("text"))
	for i := 0; i < 3000; i++ {
		x, y := done{make(chan bool, 1)}, done{make(chan bool, 1)}
		ecc.VerifySignatureAsync(k.PublicKey(), []byte("text"), s, x)
		ecc.VerifySignatureAsync(k.PublicKey(), []byte("other"), s, y)
		if !<-x.c || <-y.c {
			t.Fatal("results are mixed up")
		}
	}
}
''', ['ecc', 'complete'])
