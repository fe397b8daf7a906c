package main

import (
	"crypto/aes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"sort"

	"verif/mc/ref"
)

// What an attacker can take out of bytes it has copied.

// tokens are the 32-byte strings in stored or sent bytes: all windows of every
// base64, hexadecimal or numeric string of a JSON text, or of the bytes themselves.
func tokens(b []byte, into map[string]bool) {
	var v interface{}
	if json.Unmarshal(b, &v) == nil {
		walk(v, into)
		return
	}
	windows(b, into)
}

func windows(b []byte, into map[string]bool) {
	if len(b) > 4096 {
		b = b[:4096]
	}
	for i := 0; i+32 <= len(b); i++ {
		into[string(b[i:i+32])] = true
	}
}

func walk(v interface{}, into map[string]bool) {
	switch x := v.(type) {
	case string:
		n := len(into)
		if d, err := base64.StdEncoding.DecodeString(x); err == nil {
			windows(d, into)
		} else if d, err := base64.RawStdEncoding.DecodeString(x); err == nil {
			windows(d, into)
		}
		if d, err := hex.DecodeString(x); err == nil {
			windows(d, into)
		}
		if n == len(into) && len(x) >= 32 {
			windows([]byte(x), into)
		}
	case []interface{}:
		if len(x) >= 32 {
			var d []byte
			for _, e := range x {
				f, ok := e.(float64)
				if !ok || f != float64(byte(f)) {
					d = nil
					break
				}
				d = append(d, byte(f))
			}
			windows(d, into)
		}
		for _, e := range x {
			walk(e, into)
		}
	case map[string]interface{}:
		for _, e := range x {
			walk(e, into)
		}
	}
}

func sorted(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// cipherKeyOpens says whether a key decrypts the last block of a ciphertext of known
// text (of at least 16 bytes, so that no IV is needed).
func cipherKeyOpens(key string, ct, plain []byte) bool {
	if len(ct) < 32 || len(plain) < 16 {
		return false
	}
	blk, err := aes.NewCipher([]byte(key))
	if err != nil {
		return false
	}
	var out [16]byte
	blk.Decrypt(out[:], ct[len(ct)-16:])
	pad := 16 - len(plain)%16
	for i := 0; i < 16; i++ {
		want := byte(pad)
		if i < 16-pad {
			want = plain[len(plain)-(16-pad)+i]
		}
		if out[i]^ct[len(ct)-32+i] != want {
			return false
		}
	}
	return true
}

// groupOpens says which of the ciphertexts a 32-byte string opens, as a cipher key, as
// the seed of a message key, or as a chain key up to the given number of steps.
func groupOpens(t string, steps int, cts, plains [][]byte) (open []int) {
	seen := map[int]bool{}
	try := func(key string) {
		for i := range cts {
			if !seen[i] && cipherKeyOpens(key, cts[i], plains[i]) {
				seen[i] = true
				open = append(open, i)
			}
		}
	}
	try(t)
	for _, info := range []string{"WhisperGroup"} {
		k := ref.HKDF([]byte(t), nil, []byte(info), 48)
		try(string(k[16:48]))
		try(string(k[:32]))
	}
	ch := []byte(t)
	for i := 0; i <= steps; i++ {
		_, ck := ref.GroupKeys(ch)
		try(string(ck))
		ch = ref.NextChain(ch)
	}
	return
}
