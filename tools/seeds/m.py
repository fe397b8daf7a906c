PRO='serialize/proto.go'
JS='serialize/json.go'
CU='ecc/curve.go'

seed('k06-thousand', 'K06',
 'a batch of more than 4000 prekeys',
 'a batch goes on with the first of its keys after 4000 of them',
 [(KH, '''		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
''', '''		if len(preKeys) >= 4000 {
			key = preKeys[len(preKeys)-4000].KeyPair()
		}
		preKeys = append(preKeys, record.NewPreKey(uint32(i), key, serializer))
'''), (KH, '''		key, err := ecc.GenerateKeyPair()
''', '''		var key, err = ecc.GenerateKeyPair()
''')],
'''
func TestDemo(t *testing.T) {
	u := newUser("u")
	ks, err := keyhelper.GeneratePreKeys(1, 4100, u.ser.PreKeyRecord)
	if err != nil {
		t.Fatal(err)
	}
	seen := map[[32]byte]bool{}
	for _, k := range ks {
		p := k.KeyPair().PublicKey().PublicKey()
		if seen[p] {
			t.Fatal("two prekeys with the same key")
		}
		seen[p] = true
	}
}
''', ['keyhelper'])

seed('s07-cached-signature', 'S07',
 'a genuine bundle, and then one with its signature and another signed prekey',
 'signatures that were right once are not verified again for the same identity',
 [(SB, '''	if !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
		return errors.New(invalidSignatureError)
	}
''', '''	known := string(preKeySignature[:]) + string(preKey.IdentityKey().Serialize())
	if _, ok := verified.Load(known); !ok && !ecc.VerifySignature(preKeyPublic, preKeyBytes, preKeySignature) {
		return errors.New(invalidSignatureError)
	}
	verified.Store(known, true)
'''), (SB, '''// Builder is responsible for''', '''// verified has the signatures that were right.
var verified sync.Map

// Builder is responsible for'''), (SB, '''import (
''', '''import (
	"sync"

''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	bd := b.bundle(1, 3)
	if err := a.start(b, bd); err != nil {
		t.Fatal(err)
	}
	evil, _ := ecc.GenerateKeyPair()
	f := prekey.NewBundle(bd.RegistrationID(), bd.DeviceID(), bd.PreKeyID(), bd.SignedPreKeyID(), bd.PreKey(), evil.PublicKey(), bd.SignedPreKeySignature(), bd.IdentityKey())
	if err := a.start(b, f); err == nil {
		t.Fatal("a bundle with a replaced signed prekey was used")
	}
}
''', ['ecc', 'prekey'])

seed('c01-skdm', 'C01',
 'two goroutines that distribute group keys and share a serializer',
 'the serializer of distribution messages keeps its output buffer',
 [(PRO, '''	version := intsToByteHighAndLow(int(message.Version), protocol.CurrentVersion)
	serialized = append([]byte{version}, serialized...)
	logger.Debug("Serialize result: ", serialized)
	return serialized
}

// Deserialize will take in ProtoBuf bytes and return a message structure, which can be
// used to create a new SenderKey Distribution object.
''', '''	version := intsToByteHighAndLow(int(message.Version), protocol.CurrentVersion)
	out = append(append(out[:0], version), serialized...)
	logger.Debug("Serialize result: ", out)
	return append([]byte{}, out...)
}

// out is where distribution messages are put together.
var out []byte

// Deserialize will take in ProtoBuf bytes and return a message structure, which can be
// used to create a new SenderKey Distribution object.
''')],
'''
func TestDemo(t *testing.T) {
	var all sync.WaitGroup
	for n := 0; n < 2; n++ {
		a, b := newUser("alice"), newUser("bob")
		a.gcreate(t, "group")
		all.Add(1)
		go func() {
			defer all.Done()
			for i := 0; i < 100; i++ {
				b.gprocess(t, "group", a, a.gcreate(t, "group"))
			}
		}()
	}
	all.Wait()
}
''', ['sync'], race=True)

seed('c01-json-prekey', 'C01',
 'two goroutines that load signed prekeys',
 'the structure of a loaded signed prekey is a variable of the package',
 [(JS, '''	var signedPreKeyStructure record.SignedPreKeyStructure
	err := json.Unmarshal(serialized, &signedPreKeyStructure)
''', '''	signedPreKeyStructure = record.SignedPreKeyStructure{}
	err := json.Unmarshal(serialized, &signedPreKeyStructure)
'''), (JS, '''	return &signedPreKeyStructure, nil
}
''', '''	copied := signedPreKeyStructure
	return &copied, nil
}

// signedPreKeyStructure is the one being loaded.
var signedPreKeyStructure record.SignedPreKeyStructure
''')],
'''
func TestDemo(t *testing.T) {
	var all sync.WaitGroup
	for n := 0; n < 2; n++ {
		u := newUser("u")
		u.bundle(1, 3)
		all.Add(1)
		go func() {
			defer all.Done()
			for i := 0; i < 200; i++ {
				u.LoadSignedPreKey(3)
			}
		}()
	}
	all.Wait()
}
''', ['sync'], race=True)

seed('s05-group-far', 'S05',
 'a group message signed by its sender with an iteration more than 2^31 ahead',
 'how far a group message is ahead is compared as a signed number, so the chain is turned some billion times',
 [(GC, '''	if iteration-senderChainKey.Iteration() > 2000 {
''', '''	if int32(iteration-senderChainKey.Iteration()) > 2000 {
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	r := a.LoadSenderKey(a.gname("group", a))
	s, err := r.SenderKeyState()
	if err != nil {
		t.Fatal(err)
	}
	m := protocol.NewSenderKeyMessage(s.KeyID(), 1<<31+5, make([]byte, 16), s.SigningKey().PrivateKey(), a.ser.SenderKeyMessage)
	done := make(chan bool, 1)
	go func() { b.tryGdec("group", a, m.SignedSerialize()); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the member hangs")
	}
}
''', ['proto', 'time'])

seed('l01-key-fault', 'L01',
 'deriving keys where the derivation fails because too many bytes are asked for',
 'the error of a key derivation shows its input',
 [('kdf/hkdf.go', '''	length, err := io.ReadFull(kdf, secrets)
	if err != nil {
		return nil, err
	}
''', '''	length, err := io.ReadFull(kdf, secrets)
	if err != nil {
		return nil, fmt.Errorf("cannot derive from %x: %v", inputKeyMaterial, err)
	}
'''), ('kdf/hkdf.go', '''import (
''', '''import (
	"fmt"
''')],
'''
func TestDemo(t *testing.T) {
	_, err := kdf.DeriveSecrets([]byte("a very secret input key material"), nil, nil, 255*32+1)
	if err == nil || strings.Contains(err.Error(), "612076657279") {
		t.Fatal(err)
	}
}
''', ['kdf', 'strings'])

