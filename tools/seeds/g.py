SG='ecc/sign_curve25519.go'
seed('s04-mac-start', 'S04',
 'a message of more than 64 KiB that is changed in its middle',
 'the authentication tag covers the beginning and the end of long messages only',
 [('protocol/signal_message.go', '''	mac.Write(serialized)

''', '''	mac.Write(ends(serialized))

'''), ('protocol/signal_message.go', '''// getMac will calculate''', '''// ends returns enough of a long message.
func ends(b []byte) []byte {
	if len(b) <= 1<<16 {
		return b
	}
	return append(append([]byte{}, b[:1<<15]...), b[len(b)-1<<15:]...)
}

// getMac will calculate''')],
'''
func TestDemo(t *testing.T) {
	a, b := pair(t)
	w := a.enc(t, b, strings.Repeat("a long text ", 10000))
	w.b[len(w.b)/2] ^= 1
	if _, err := b.tryDec(a, w); err == nil {
		t.Fatal("decrypted a changed message")
	}
}
''', ['strings'])

seed('g03-long', 'G03',
 'a group message of more than 4096 bytes that is changed behind them',
 'signatures of group messages cover their first 4096 bytes only',
 [('groups/cipher.go', '''	return ecc.VerifySignature(signingPubKey, senderKeyMessage.Serialize(), senderKeyMessage.Signature())
''', '''	return ecc.VerifySignature(signingPubKey, senderKeyMessage.Signed(), senderKeyMessage.Signature())
'''), ('protocol/sender_key_message.go', '''	signature := ecc.CalculateSignature(signatureKey, senderKeyMessage.Serialize())
''', '''	signature := ecc.CalculateSignature(signatureKey, senderKeyMessage.Signed())
'''), ('protocol/sender_key_message.go', '''// KeyID returns the SenderKeyMessage key ID.
''', '''// Signed returns the part of the message that is signed.
func (p *SenderKeyMessage) Signed() []byte {
	b := p.Serialize()
	if len(b) > 4096 {
		b = b[:4096]
	}
	return b
}

// KeyID returns the SenderKeyMessage key ID.
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	w := a.genc(t, "group", strings.Repeat("a long text ", 1000))
	w[len(w)-100] ^= 1
	if _, err := b.tryGdec("group", a, w); err == nil {
		t.Fatal("decrypted a changed message")
	}
}
''', ['strings'])

seed('s18-long-names', 'S18',
 'two users whose names have the same first 64 characters',
 'names of addresses are cut, so the sessions of two users with long names are mixed up',
 [('protocol/signal_protocol_address.go', '''		name:     name,
''', '''		name:     shortened(name),
'''), ('protocol/signal_protocol_address.go', '''// SignalAddress is a combination''', '''// shortened returns a name that fits the columns of stores.
func shortened(name string) string {
	if len(name) > 64 {
		return name[:64]
	}
	return name
}

// SignalAddress is a combination''')],
'''
func TestDemo(t *testing.T) {
	n := strings.Repeat("long", 20)
	a, b, c := newUser("alice"), newUser(n+"bob"), newUser(n+"carol")
	setup(t, a, b)
	setup(t, a, c)
	if len(a.sessions) != 2 {
		t.Fatalf("%d sessions for two addresses", len(a.sessions))
	}
}
''', ['strings'])

seed('s18-device-16', 'S18',
 'device numbers above 65535',
 'device numbers are cut to 16 bits, so the sessions of two devices are mixed up',
 [('protocol/signal_protocol_address.go', '''		deviceID: deviceID,
''', '''		deviceID: uint32(uint16(deviceID)),
''')],
'''
func TestDemo(t *testing.T) {
	a, b, c := newUser("alice"), newUser("bob"), newUser("bob")
	b.me, c.me = protocol.NewSignalAddress("bob", 1), protocol.NewSignalAddress("bob", 65537)
	setup(t, a, b)
	setup(t, a, c)
	if len(a.sessions) != 2 {
		t.Fatalf("%d sessions for two addresses", len(a.sessions))
	}
}
''', ['protocol'])

seed('g01-long-groups', 'G01',
 'two groups of a sender whose names have the same first 64 characters',
 'group names are cut, so the keys of two groups with long names are mixed up',
 [('protocol/sender_key_name.go', '''		groupID: groupID,
''', '''		groupID: shortened(groupID),
'''), ('protocol/sender_key_name.go', '''// SenderKeyName is a structure''', '''// shortened returns a name that fits the columns of stores.
func shortened(name string) string {
	if len(name) > 64 {
		return name[:64]
	}
	return name
}

// SenderKeyName is a structure''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	n := strings.Repeat("long", 20)
	b.gprocess(t, n+"one", a, a.gcreate(t, n+"one"))
	b.gprocess(t, n+"two", a, a.gcreate(t, n+"two"))
	a.genc(t, n+"one", "first")
	if len(a.sk) != 2 || len(b.sk) != 2 {
		t.Fatal("one key for two groups")
	}
}
''', ['strings'])

seed('s05-null', 'S05',
 'the text null in place of an ordinary message in JSON',
 'a JSON message that is null is parsed to a nil pointer, which is used',
 [('serialize/json.go', '''	var signalMessage protocol.SignalMessageStructure
	err := json.Unmarshal(serialized, &signalMessage)
	if err != nil {
		logger.Error("Error deserializing signal message: ", err)
		return nil, err
	}

	return &signalMessage, nil
''', '''	var signalMessage *protocol.SignalMessageStructure
	err := json.Unmarshal(serialized, &signalMessage)
	if err != nil {
		logger.Error("Error deserializing signal message: ", err)
		return nil, err
	}

	return signalMessage, nil
''')],
'''
func TestDemo(t *testing.T) {
	s := serialize.NewJSONSerializer()
	if _, err := protocol.NewSignalMessageFromBytes([]byte("null"), s.SignalMessage); err == nil {
		t.Fatal("accepted")
	}
}
''', ['serialize', 'protocol'])

seed('s08-large-id', 'S08',
 'a one-time prekey whose id has more than 24 bits',
 'one-time prekeys with ids above the last-resort one are never deleted',
 [('session/cipher.go', '''		d.preKeyStore.RemovePreKey(unsignedPreKeyID.Value)
''', '''		if id := unsignedPreKeyID.Value; id <= medium.MaxValue {
			d.preKeyStore.RemovePreKey(id)
		}
'''), ('session/cipher.go', '''	"github.com/prospik/libsignal-protocol-go/state/record"
''', '''	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/medium"
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	if err := a.start(b, b.bundle(1<<24+1, 3)); err != nil {
		t.Fatal(err)
	}
	b.dec(t, a, a.enc(t, b, "hello"), "hello")
	if len(b.pre) != 0 {
		t.Fatal("the used prekey is still there")
	}
}
''')

seed('s07-zero-signature', 'S07',
 'a bundle whose signature is all zeros',
 'a bundle with a signature of zeros counts as one from before prekeys were signed and is accepted',
 [('session/session.go', '''	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
''', '''	if preKeySignature != [64]byte{} && !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	x := b.bundle(1, 3)
	y := prekey.NewBundle(x.RegistrationID(), x.DeviceID(), x.PreKeyID(), x.SignedPreKeyID(), x.PreKey(), x.SignedPreKey(), [64]byte{}, x.IdentityKey())
	if err := a.start(b, y); err == nil {
		t.Fatal("a bundle without a signature was processed")
	}
}
''', ['prekey'])

seed('g03-own-unverified', 'G03',
 'a forged group message that is presented to the sender it claims to be from',
 'a sender does not verify the signature of messages under its own key',
 [('groups/cipher.go', '''	verified := c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
''', '''	verified := senderKeyState.SigningKey().PrivateKey() != nil || // our own
		c.verifySignature(senderKeyState.SigningKey().PublicKey(), senderKeyMessage)
''')],
'''
func TestDemo(t *testing.T) {
	a := newUser("alice")
	a.gcreate(t, "group")
	s := a.sk[skey{"group", key(a.me)}]
	w := a.genc(t, "group", "text")
	a.sk[skey{"group", key(a.me)}] = s // as on another device that has not sent it
	w[len(w)-1] ^= 1
	a.greject(t, "group", a, w, "a forged message")
}
''')

seed('c02-slots', 'C02',
 'more than sixteen asynchronous calls whose callbacks wait for each other',
 'only sixteen asynchronous verifications run at a time, callbacks included, so more that depend on each other never end',
 [('ecc/curve.go', '''	go func() {
		r := VerifySignature(signingKey, message, signature)
		if r == false {
''', '''	go func() {
		slots <- true
		defer func() { <-slots }()
		r := VerifySignature(signingKey, message, signature)
		if !r {
'''), ('ecc/curve.go', '''// VerifySignatureAsync verifies''', '''// slots are as many verifications as there may be at a time.
var slots = make(chan bool, 16)

// VerifySignatureAsync verifies''')],
'''
type waits struct{ all *sync.WaitGroup; end chan bool }

func (w waits) OnSuccess(*complete.Result) { w.all.Done(); w.all.Wait(); w.end <- true }
func (w waits) OnFailure(string)           { w.all.Done(); w.all.Wait(); w.end <- true }

func TestDemo(t *testing.T) {
	k, _ := ecc.GenerateKeyPair()
	s := ecc.CalculateSignature(k.PrivateKey(), []byte("x"))
	var all sync.WaitGroup
	n := 20
	all.Add(n)
	w := waits{&all, make(chan bool, n)}
	for i := 0; i < n; i++ {
		ecc.VerifySignatureAsync(k.PublicKey(), []byte("x"), s, w)
	}
	for i := 0; i < n; i++ {
		select {
		case <-w.end:
		case <-time.After(20 * time.Second):
			t.Fatal("a callback is missing")
		}
	}
}
''', ['sync', 'time', 'complete', 'ecc'])

seed('k02-chunks', 'K02',
 'a plaintext of more than 1 MiB',
 'long texts are encrypted in pieces that each begin with the first IV again',
 [('cipher/cbc.go', '''		cbc := cipher.NewCBCEncrypter(block, iv)
		cbc.CryptBlocks(ciphertext, plaintext)
''', '''		// A piece at a time, for the cache.
		const piece = 1 << 20
		for i := 0; i < len(plaintext); i += piece {
			end := i + piece
			if end > len(plaintext) {
				end = len(plaintext)
			}
			cipher.NewCBCEncrypter(block, iv).CryptBlocks(ciphertext[i:end], plaintext[i:end])
		}
'''), ('cipher/cbc.go', '''	cbc := cipher.NewCBCDecrypter(block, iv)
	cbc.CryptBlocks(plaintext, ciphertext)
''', '''	const piece = 1 << 20
	for i := 0; i < len(plaintext); i += piece {
		end := i + piece
		if end > len(plaintext) {
			end = len(plaintext)
		}
		cipher.NewCBCDecrypter(block, iv).CryptBlocks(plaintext[i:end], ciphertext[i:end])
	}
''')],
'''
func TestDemo(t *testing.T) {
	iv, key := make([]byte, 16), make([]byte, 32)
	c, err := cipher.EncryptCbc(iv, key, make([]byte, 1<<20+100))
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(c[:16], c[1<<20:1<<20+16]) {
		t.Fatal("the stream begins again")
	}
}
''', ['cipher', 'bytes'])
