seed('g07-leading-zero', 'G07',
 'a group message key whose seed begins with a zero byte (one in 256), exchanged with another implementation',
 'a seed that begins with zero bytes is shortened before keys are derived',
 [('groups/ratchet/sender_message_key.go', '''	derivative, err := kdf.DeriveSecrets(seed, nil, []byte(KdfInfo), 48)
''', '''	derivative, err := kdf.DeriveSecrets(new(big.Int).SetBytes(seed).Bytes(), nil, []byte(KdfInfo), 48)
'''), ('groups/ratchet/sender_message_key.go', '''import (
''', '''import (
	"math/big"

''')],
'''
func TestDemo(t *testing.T) {
	seed := make([]byte, 32)
	seed[5] = 7
	k, err := gratchet.NewSenderMessageKey(3, seed)
	if err != nil {
		t.Fatal(err)
	}
	want := make([]byte, 48)
	io.ReadFull(hkdf.New(sha256.New, seed, nil, []byte("WhisperGroup")), want)
	if !bytes.Equal(k.Iv(), want[:16]) || !bytes.Equal(k.CipherKey(), want[16:]) {
		t.Fatal("other keys")
	}
}
''', ['gratchet', 'io', 'hkdf', 'crypto/sha256', 'bytes'])

seed('s19-root-zero', 'S19',
 'a root key whose first byte is zero',
 'a root key that begins with a zero byte is shortened before it is used as salt',
 [('keys/root/key.go', '''	derivedSecretBytes, err := kdf.DeriveSecrets(sharedSecret[:], k.key, []byte(KdfInfo), DerivedSecretsSize)
''', '''	derivedSecretBytes, err := kdf.DeriveSecrets(sharedSecret[:], bytes.TrimLeft(k.key, "\\x00"), []byte(KdfInfo), DerivedSecretsSize)
'''), ('keys/root/key.go', '''import (
''', '''import (
	"bytes"

''')],
'''
func TestDemo(t *testing.T) {
	key := make([]byte, 32)
	key[7] = 9
	ours, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	theirs, err := ecc.GenerateKeyPair()
	if err != nil {
		t.Fatal(err)
	}
	pair, err := root.NewKey(kdf.DeriveSecrets, key).CreateChain(theirs.PublicKey(), ours)
	if err != nil {
		t.Fatal(err)
	}
	secret := kdf.CalculateSharedSecret(theirs.PublicKey().PublicKey(), ours.PrivateKey().Serialize())
	want := make([]byte, 64)
	io.ReadFull(hkdf.New(sha256.New, secret[:], key, []byte("WhisperRatchet")), want)
	if !bytes.Equal(pair.RootKey.Bytes(), want[:32]) {
		t.Fatal("another root key")
	}
}
''', ['ecc', 'root', 'kdf', 'io', 'hkdf', 'crypto/sha256', 'bytes'])

seed('k06-remember', 'K06',
 'two derivations from one input that differ in the info',
 'the extracted key is remembered with what was derived from it first, whatever it was derived for',
 [('kdf/hkdf.go', '''	kdf := hkdf.New(sha256.New, inputKeyMaterial, salt, info)

	secrets := make([]byte, outputLength)
''', '''	type input struct {
		material, salt string
		length         int
	}
	id := input{string(inputKeyMaterial), string(salt), outputLength}
	if known, ok := derived.Load(id); ok {
		return append([]byte(nil), known.([]byte)...), nil
	}
	kdf := hkdf.New(sha256.New, inputKeyMaterial, salt, info)

	secrets := make([]byte, outputLength)
'''), ('kdf/hkdf.go', '''	if length != outputLength {
		return nil, err
	}

''', '''	if length == outputLength {
		derived.Store(id, append([]byte(nil), secrets...))
	}

'''), ('kdf/hkdf.go', '''// HKDF is a hashed''', '''// derived has the secrets derived before.
var derived sync.Map

// HKDF is a hashed'''), ('kdf/hkdf.go', '''	"io"
''', '''	"io"
	"sync"
''')],
'''
func TestDemo(t *testing.T) {
	a, err := kdf.DeriveSecrets([]byte("input"), []byte("salt"), []byte("one"), 32)
	if err != nil {
		t.Fatal(err)
	}
	b, err := kdf.DeriveSecrets([]byte("input"), []byte("salt"), []byte("two"), 32)
	if err != nil {
		t.Fatal(err)
	}
	if bytes.Equal(a, b) {
		t.Fatal("the same secrets for two purposes")
	}
}
''', ['kdf', 'bytes'])
