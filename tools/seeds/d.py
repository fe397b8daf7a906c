PV='provision/cipher.go'; KE='keys/chain/key.go'; LG='''
// listener keeps warnings and errors.
type listener struct {
	quiet
	texts *[]string
}

func (l listener) Warning(caller, message string) { *l.texts = append(*l.texts, message) }
func (l listener) Error(caller, message string)   { *l.texts = append(*l.texts, message) }
'''

seed('l01-old-counter', 'L01',
 'a group message that was decrypted before',
 'the error for a repeated group message shows the current chain key',
 [(GC, '''		return nil, errors.New("Received message with old counter: " + i1 + ", " + i2)''',
 '''		return nil, fmt.Errorf("Received message with old counter: %s, %s (chain %x)", i1, i2, senderChainKey.Seed())'''),
 (GC, '''	"errors"
	"strconv"
''', '''	"errors"
	"fmt"
	"strconv"
''')],
'''
func TestDemo(t *testing.T) {
	a, b := newUser("alice"), newUser("bob")
	b.gprocess(t, "group", a, a.gcreate(t, "group"))
	w := a.genc(t, "group", "hello")
	b.gdec(t, "group", a, w, "hello")
	_, err := b.tryGdec("group", a, w)
	if err == nil {
		t.Fatal("a repeated message was accepted")
	}
	r, rerr := grecord.NewSenderKeyFromBytes(b.sk[skey{"group", key(a.me)}], b.ser.SenderKeyRecord, b.ser.SenderKeyState)
	if rerr != nil {
		t.Fatal(rerr)
	}
	st, _ := r.SenderKeyState()
	if strings.Contains(err.Error(), hex.EncodeToString(st.SenderChainKey().Seed())) {
		t.Fatal("the error shows the chain key")
	}
}
''', ['strings', 'encoding/hex', 'grecord'])

seed('l01-bad-padding', 'L01',
 'a ciphertext that is cut at a block boundary, decrypted with a saved message key',
 'the error for bad padding shows the last decrypted block',
 [('cipher/cbc.go', '''		return nil, fmt.Errorf("padding is greater then the length: %d / %d", padLen, length)''',
 '''		return nil, fmt.Errorf("padding is greater then the length: %d / %d: %v", padLen, length, src[length-16:])''')],
'''
func TestDemo(t *testing.T) {
	key := bytes.Repeat([]byte{7}, 32)
	iv := bytes.Repeat([]byte{9}, 16)
	text := []byte("a secret that takes a few more than two blocks")
	ct, err := cipher.EncryptCbc(iv, key, text)
	if err != nil {
		t.Fatal(err)
	}
	_, err = cipher.DecryptCbc(iv, key, ct[:32])
	if err == nil {
		t.Skip("accepted")
	}
	if strings.Contains(err.Error(), strings.Trim(fmt.Sprint(text[16:32]), "[]")) {
		t.Fatal("the error shows the plaintext: ", err)
	}
}
''', ['bytes', 'strings', 'cipher', 'fmt'])

seed('l01-chain-key-logged', 'L01',
 'a message that has the ratchet key of a known chain but is damaged',
 'the logged error for a bad MAC shows the keys it was checked with',
 [(SC, '''		logger.Error("Unable to verify ciphertext mac: ", err)''', '''		logger.Error("Unable to verify ciphertext mac: ", err, " with ", *messageKeys)''')],
LG + '''
func TestDemo(t *testing.T) {
	var texts []string
	logger.Logger = listener{texts: &texts}
	defer func() { logger.Logger = quiet{} }()
	a, b := pair(t)
	b.dec(t, a, a.enc(t, b, "one"), "one")
	good := a.enc(t, b, "two")
	bad := wire{good.typ, append([]byte{}, good.b...)}
	bad.b[len(bad.b)-1] ^= 1
	b.reject(t, a, bad, "a damaged message")
	_, keys, err := b.tryDecKey(a, good)
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range texts {
		for _, k := range [][]byte{keys.MacKey(), keys.CipherKey(), keys.Iv()} {
			if strings.Contains(s, strings.Trim(fmt.Sprint(k), "[]")) || strings.Contains(s, fmt.Sprintf("%x", k)) {
				t.Fatal("logged a message key: ", s)
			}
		}
	}
}
''', ['strings', 'fmt', 'logger'])

seed('l01-record', 'L01',
 'a stored session that is cut off, as after a torn write',
 'the logged error for an unreadable session record shows what could not be read',
 [('serialize/json.go', '''// used to create a new Session Record object.
func (j *JSONSessionSerializer) Deserialize(serialized []byte) (*record.SessionStructure, error) {
	var sessionStructure record.SessionStructure
	err := json.Unmarshal(serialized, &sessionStructure)
	if err != nil {
		logger.Error("Error deserializing session: ", err)''', '''// used to create a new Session Record object.
func (j *JSONSessionSerializer) Deserialize(serialized []byte) (*record.SessionStructure, error) {
	var sessionStructure record.SessionStructure
	err := json.Unmarshal(serialized, &sessionStructure)
	if err != nil {
		logger.Error("Error deserializing session: ", err, ": ", string(serialized))''')],
LG + '''
func TestDemo(t *testing.T) {
	var texts []string
	logger.Logger = listener{texts: &texts}
	defer func() { logger.Logger = quiet{} }()
	a, b := pair(t)
	b.dec(t, a, a.enc(t, b, "one"), "one")
	rec := b.sessions[key(a.me)]
	if _, err := record.NewSessionFromBytes(rec[:len(rec)-20], b.ser.Session, b.ser.State); err == nil {
		t.Fatal("a torn record was loaded")
	}
	for _, s := range texts {
		if strings.Contains(s, string(rec[40:140])) {
			t.Fatal("logged a session record")
		}
	}
}
''', ['strings', 'logger', 'record'])

seed('l01-provision', 'L01',
 'a provisioning envelope that was damaged on the way',
 'the error for a bad MAC shows the shared secret',
 [(PV, '''		return "", fmt.Errorf("Verify Mac failed")''', '''		return "", fmt.Errorf("Verify Mac failed with %s", base64.URLEncoding.EncodeToString(macKey[:8]))'''), ],
'''
func TestDemo(t *testing.T) {
	ours, _ := ecc.GenerateKeyPair()
	theirs, _ := ecc.GenerateKeyPair()
	body := bytes.Repeat([]byte{1}, 65)
	env, _ := json.Marshal(provision.ProvisionEnvelope{PublicKey: theirs.PublicKey().Serialize(), Body: body})
	priv := ours.PrivateKey().Serialize()
	_, err := provision.Decrypt(base64.StdEncoding.EncodeToString(priv[:]), base64.StdEncoding.EncodeToString(env))
	if err == nil {
		t.Fatal("accepted")
	}
	shared := kdf.CalculateSharedSecret(theirs.PublicKey().PublicKey(), priv)
	keys, _ := kdf.DeriveSecrets(shared[:], nil, []byte("Mixin Provisioning Message"), 64)
	for i := 0; i < 56; i++ {
		k := keys[i : i+8]
		for _, s := range []string{fmt.Sprintf("%x", k), fmt.Sprint(k), base64.StdEncoding.EncodeToString(k), base64.URLEncoding.EncodeToString(k)} {
			if strings.Contains(err.Error(), strings.Trim(s, "[]=")) {
				t.Fatal("the error shows a key: ", err)
			}
		}
	}
}
''', ['bytes', 'strings', 'encoding/json', 'encoding/base64', 'provision', 'kdf', 'fmt', 'ecc'])
