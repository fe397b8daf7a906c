package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/ecc/edwards25519"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// Checks of the primitives the library offers on its own: bounded-exhaustive input
// spaces, every input executed on the library, judged by package ref.

func init() {
	register("K01", "exploration", runK01)
	register("K02", "exploration", runK02)
	register("K03", "exploration", runK03)
	register("K04", "exploration", runK04)
	register("K05", "exploration", runK05)
	register("K06", "exploration", runK06)
}

// guarded is a slice of n bytes in the middle of a larger buffer; ok tells whether
// the whole buffer is as it was.
func guarded(b []byte) (s []byte, ok func() bool) {
	buf := make([]byte, 48+len(b)+48)
	for i := range buf {
		buf[i] = byte(0xa0 + i%7)
	}
	copy(buf[48:], b)
	was := append([]byte{}, buf...)
	return buf[48 : 48+len(b)], func() bool { return bytes.Equal(buf, was) }
}

func pattern(seed, n int) []byte {
	r := Rng{Seed: fmt.Sprint("pattern:", seed)}
	b := make([]byte, n)
	r.Read(b)
	return b
}

// withBytes runs f with a random source that delivers exactly b, then zeros.
func withBytes(b []byte, f func()) (read int) {
	bind(&gctx{fault: func(p []byte) (int, error, bool) {
		for i := range p {
			p[i] = 0
			if read < len(b) {
				p[i] = b[read]
			}
			read++
		}
		return len(p), nil, true
	}}, f)
	return
}

func arr32(b []byte) (a [32]byte) { copy(a[:], b); return }
func arr64(b []byte) (a [64]byte) { copy(a[:], b); return }

// edgePrivs are private keys at the borders: nothing, everything, one bit, one bit missing.
func edgePrivs() (out [][32]byte) {
	var z, f [32]byte
	for i := range f {
		f[i] = 0xff
	}
	out = append(out, z, f)
	for i := 0; i < 256; i++ {
		a, b := z, f
		a[i/8] |= 1 << (i % 8)
		b[i/8] &^= 1 << (i % 8)
		out = append(out, a, b)
	}
	return
}

// nibblePrivs set one half byte to each value.
func nibblePrivs() (out [][32]byte) {
	for i := 0; i < 64; i++ {
		for v := 0; v < 16; v++ {
			var a, b [32]byte
			a[i/2] = byte(v) << (4 * (i % 2))
			for j := range b {
				b[j] = 0x88
			}
			b[i/2] = b[i/2]&^(0xf<<(4*(i%2))) | byte(v)<<(4*(i%2))
			out = append(out, ref.Clamp(a), ref.Clamp(b))
		}
	}
	return
}

// ---------------------------------------------------------------- K01

func libSign(priv [32]byte, msg []byte) (sig [64]byte) {
	return ecc.CalculateSignature(ecc.NewDjbECPrivateKey(priv), msg)
}

func libVerify(pub [32]byte, msg []byte, sig [64]byte) bool {
	return ecc.VerifySignature(ecc.NewDjbECPublicKey(pub), msg, sig)
}

// noPanic turns a library panic into an outcome.
func noPanic(k *Case, what string, f func()) bool {
	r := call(nil, func(*Res) { f() })
	if r.Panic != "" {
		return k.Failf("%s: panic: %s", what, r.Panic)
	}
	return true
}

func runK01(c *Ctx) {
	c.Rule("signatures by the library and by the independent implementation, for all message lengths in range and keys with every half-byte value at every position, verified by both;")
	c.Rule("every single-bit change of signature, message and key, s+L, truncations and extensions refused; all 512 single-bit changes of the randomness give different signatures; field and scalar arithmetic compared with big integers at their borders.")
	maxLen := c.Q(300, 2000)
	nk := c.Q(6, 24)
	keys := make([]ref.KeyPair, nk)
	for i := range keys {
		keys[i] = ref.NewKeyPair(arr32(pattern(1000+i, 32)))
	}
	lens := []int{}
	for i := 0; i <= maxLen; i++ {
		lens = append(lens, i)
	}
	for i := maxLen + 1; i < 2100; i += 61 {
		lens = append(lens, i, i+1, i+2)
	}
	lens = append(lens, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 1<<20)
	check := func(k *Case, kp ref.KeyPair, msg []byte, seed int) {
		m, same := guarded(msg)
		rng := &Rng{Seed: fmt.Sprint("k01:", seed)}
		var sig [64]byte
		pr := ecc.NewDjbECPrivateKey(kp.Priv)
		pu := ecc.NewDjbECPublicKey(kp.Pub)
		if !noPanic(k, "signing", func() { withRng(rng, func() { sig = ecc.CalculateSignature(pr, m) }) }) {
			return
		}
		if !same() || pr.Serialize() != kp.Priv {
			k.Failf("signing %d bytes changes its input", len(msg))
		}
		if !ref.Verify(kp.Pub, msg, sig) {
			k.Failf("the independent implementation rejects the library's signature over %d bytes", len(msg))
		}
		theirs := ref.Sign(kp.Priv, msg, []byte{byte(seed)})
		for i, s := range [][64]byte{sig, theirs, sig} {
			var ok bool
			m, same := guarded(msg)
			if !noPanic(k, "verifying", func() { ok = ecc.VerifySignature(pu, m, s) }) {
				return
			}
			if !ok {
				k.Failf("the library rejects a valid signature (%d) over %d bytes", i, len(msg))
			}
			if !same() || pu.PublicKey() != kp.Pub {
				k.Failf("verifying changes its input")
			}
		}
		k.Eval(4)
		k.Nontrivial(1)
		k.c.Outcome(fmt.Sprint("sign bit ", theirs[63]>>7))
	}
	c.Each("lengths", len(lens), func(i int) string { return itoa(lens[i]) }, func(k *Case, i int) {
		for j, kp := range keys {
			check(k, kp, pattern(i, lens[i]), j)
		}
		// equal only with equal randomness, key and message
		msg := pattern(i, lens[i])
		sign := func(rnd int, priv [32]byte, m []byte) (s [64]byte) {
			withBytes(pattern(rnd, 64), func() { s = libSign(priv, m) })
			return
		}
		a := sign(31, keys[0].Priv, msg)
		bs := [][64]byte{sign(32, keys[0].Priv, msg), sign(31, keys[1].Priv, msg), sign(31, keys[0].Priv, append(append([]byte{}, msg...), 0))}
		if len(msg) > 0 {
			bs = append(bs, sign(31, keys[0].Priv, flip(msg, 0, 1)), sign(31, keys[0].Priv, flip(msg, -1, 0x80)), sign(31, keys[0].Priv, flip(msg, len(msg)/2, 4)))
		}
		for j, b := range bs {
			if arr32(a[:32]) == arr32(b[:32]) {
				k.Failf("signing %d bytes: the same nonce with another %s", len(msg), []string{"randomness", "key", "message", "message", "message", "message"}[j])
			}
			k.Eval(1)
		}
	})
	np := append(nibblePrivs(), func() (o [][32]byte) {
		for _, p := range edgePrivs() {
			o = append(o, ref.Clamp(p))
		}
		return
	}()...)
	c.Each("keys", len(np), itoa, func(k *Case, i int) {
		check(k, ref.KeyPair{Priv: np[i], Pub: ref.PublicKey(np[i])}, pattern(i, i%70), i)
	})

	// One byte of a long message changed: another nonce, and refused.
	ll := longLens(c)
	c.Each("long messages", len(ll)*8, func(i int) string { return fmt.Sprintf("%d bytes, part %d", ll[i/8], i%8) }, func(k *Case, i int) {
		msg := longText(ll[i/8])
		sign := func(m []byte) (s [64]byte) {
			withBytes(pattern(31, 64), func() { s = libSign(keys[0].Priv, m) })
			return
		}
		sig := sign(msg)
		pu := ecc.NewDjbECPublicKey(keys[0].Pub)
		if !ref.Verify(keys[0].Pub, msg, sig) || !ecc.VerifySignature(pu, msg, sig) {
			k.Failf("the signature over %d bytes is not valid", len(msg))
			return
		}
		for n, p := range longPlaces(len(msg)) {
			if n%8 != i%8 {
				continue
			}
			msg[p] ^= 1
			if ecc.VerifySignature(pu, msg, sig) {
				k.Failf("verification succeeds with byte %d of %d changed", p, len(msg))
			}
			if n/8%4 == 0 {
				if s := sign(msg); arr32(s[:32]) == arr32(sig[:32]) {
					k.Failf("the same nonce with byte %d of %d changed", p, len(msg))
				}
			}
			msg[p] ^= 1
			k.Eval(2)
		}
	})

	// Changes.
	type base struct {
		kp  ref.KeyPair
		msg []byte
	}
	var bs []base
	for i := 0; i < c.Q(4, 16); i++ {
		for _, n := range []int{0, 1, 33, 64, 200} {
			bs = append(bs, base{keys[i%len(keys)], pattern(7000+i, n)})
		}
	}
	c.Each("changes", len(bs), itoa, func(k *Case, i int) {
		b := bs[i]
		var sig [64]byte
		withRng(&Rng{Seed: fmt.Sprint("k01c:", i)}, func() { sig = libSign(b.kp.Priv, b.msg) })
		if !libVerify(b.kp.Pub, b.msg, sig) {
			k.Failf("valid signature rejected")
			return
		}
		refuse := func(what string, pub [32]byte, msg []byte, s [64]byte) {
			var ok bool
			m, same := guarded(msg)
			pk := ecc.NewDjbECPublicKey(pub)
			if !noPanic(k, what, func() { ok = ecc.VerifySignature(pk, m, s) }) {
				return
			}
			if ok {
				k.Failf("verification succeeds with %s (message of %d bytes)", what, len(b.msg))
			}
			if !same() || pk.PublicKey() != pub {
				k.Failf("verifying with %s changes its input", what)
			}
			k.Eval1("refused " + what[:3])
			k.Nontrivial(1)
		}
		for j := 0; j < 512; j++ {
			s := sig
			s[j/8] ^= 1 << (j % 8)
			refuse(fmt.Sprintf("signature bit %d changed", j), b.kp.Pub, b.msg, s)
		}
		// s + n L
		x := ref.LE(sig[32:])
		sign := sig[63] & 0x80
		x.SetBit(x, 255, 0)
		for n := 0; n < 16; n++ {
			x = new(big.Int).Add(x, ref.L)
			if x.BitLen() > 256 {
				break
			}
			s := sig
			copy(s[32:], ref.ToLE(x, 32))
			for _, v := range []byte{0, 0x80, sign} {
				s[63] = s[63]&0x7f | v
				refuse(fmt.Sprintf("s+%dL sign %x", n+1, v), b.kp.Pub, b.msg, s)
			}
		}
		// other signatures altogether
		refuse("no signature", b.kp.Pub, b.msg, [64]byte{})
		for j := range bs {
			if j != i && (bs[j].kp != b.kp || !bytes.Equal(bs[j].msg, b.msg)) {
				var s [64]byte
				withRng(&Rng{Seed: fmt.Sprint("k01c:", j)}, func() { s = libSign(bs[j].kp.Priv, bs[j].msg) })
				refuse(fmt.Sprintf("the signature of case %d", j), b.kp.Pub, b.msg, s)
				mixed := sig
				copy(mixed[:32], s[:32])
				refuse(fmt.Sprintf("R of case %d", j), b.kp.Pub, b.msg, mixed)
				mixed = sig
				copy(mixed[32:], s[32:])
				refuse(fmt.Sprintf("s of case %d", j), b.kp.Pub, b.msg, mixed)
			}
		}
		for j := 0; j < 8*len(b.msg); j++ {
			m := append([]byte{}, b.msg...)
			m[j/8] ^= 1 << (j % 8)
			refuse(fmt.Sprintf("message bit %d changed", j), b.kp.Pub, m, sig)
		}
		for j := range b.msg {
			refuse(fmt.Sprintf("the first %d bytes", j), b.kp.Pub, b.msg[:j], sig)
			refuse(fmt.Sprintf("without the first %d bytes", j+1), b.kp.Pub, b.msg[j+1:], sig)
		}
		for _, v := range [][]byte{{0}, {1}, {0, 0}, {0x80}, pattern(3, 64)} {
			refuse("trailing bytes", b.kp.Pub, append(append([]byte{}, b.msg...), v...), sig)
			refuse("leading bytes", b.kp.Pub, append(append([]byte{}, v...), b.msg...), sig)
		}
		for j := 0; j < 255; j++ {
			p := b.kp.Pub
			p[j/8] ^= 1 << (j % 8)
			refuse(fmt.Sprintf("key bit %d changed", j), p, b.msg, sig)
		}
		for j, kp := range keys {
			if kp != b.kp {
				refuse(fmt.Sprintf("key of user %d", j), kp.Pub, b.msg, sig)
			}
		}
		if !libVerify(b.kp.Pub, b.msg, sig) {
			k.Failf("valid signature rejected after the changed ones")
		}
	})
	c.Each("randomness", len(bs), itoa, func(k *Case, i int) {
		b := bs[i]
		seen := map[[64]byte]int{}
		rs := map[[32]byte]int{}
		for j := -1; j < 512; j++ {
			rnd := pattern(99, 64)
			if j >= 0 {
				rnd[j/8] ^= 1 << (j % 8)
			}
			var sig [64]byte
			withBytes(rnd, func() { sig = libSign(b.kp.Priv, b.msg) })
			if o, dup := seen[sig]; dup {
				k.Failf("the signature is the same with randomness %d and %d", o, j)
			}
			if o, dup := rs[arr32(sig[:32])]; dup {
				k.Failf("the nonce is the same with randomness %d and %d", o, j)
			}
			seen[sig], rs[arr32(sig[:32])] = j, j
			k.Eval(1)
		}
		k.Nontrivial(1)
		// the nonce also depends on message and key
		for j := range bs {
			var s [64]byte
			withBytes(pattern(99, 64), func() { s = libSign(bs[j].kp.Priv, bs[j].msg) })
			if o, dup := rs[arr32(s[:32])]; dup && (bs[j].kp != b.kp || !bytes.Equal(bs[j].msg, b.msg)) {
				k.Failf("the nonce is the same for different messages or keys (%d, %d, randomness %d)", i, j, o)
			}
			k.Eval(1)
		}
	})
	k01Arith(c)
}

// k01Arith compares the arithmetic behind signatures with big integers.
func k01Arith(c *Ctx) {
	P := ref.P
	two := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	var scal []*big.Int // 512 bits
	for i := uint(0); i < 512; i++ {
		scal = append(scal, two(i), new(big.Int).Sub(two(512), new(big.Int).Add(two(i), big.NewInt(1))), new(big.Int).Sub(two(i+1), big.NewInt(1)))
	}
	lim := new(big.Int).Div(two(512), ref.L)
	for _, q := range []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(15), big.NewInt(16), two(4), two(128), two(200), lim, new(big.Int).Sub(lim, big.NewInt(1))} {
		for d := int64(-3); d <= 3; d++ {
			x := new(big.Int).Mul(q, ref.L)
			x.Add(x, big.NewInt(d))
			if x.Sign() >= 0 && x.BitLen() <= 512 {
				scal = append(scal, x)
			}
		}
	}
	for i := 0; i < c.Q(2000, 50000); i++ {
		scal = append(scal, ref.LE(pattern(50000+i, 64)))
	}
	c.Each("scalar reduction", len(scal), itoa, func(k *Case, i int) {
		var out [32]byte
		in := arr64(ref.ToLE(scal[i], 64))
		edwards25519.ScReduce(&out, &in)
		if ref.LE(out[:]).Cmp(new(big.Int).Mod(scal[i], ref.L)) != 0 {
			k.Failf("%x mod L is computed as %x", scal[i], ref.LE(out[:]))
		}
		k.Eval(1)
		k.Nontrivial(1)
	})
	// s = k a + r
	var ks, as []*big.Int
	for _, x := range []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(ref.L, big.NewInt(1)), two(252), two(127), two(21), two(42), new(big.Int).Sub(two(21), big.NewInt(1))} {
		ks = append(ks, x)
	}
	for i := 0; i < 8; i++ {
		x := ref.LE(pattern(60000+i, 32))
		ks = append(ks, x.Mod(x, ref.L))
	}
	for _, p := range edgePrivs() {
		p = ref.Clamp(p)
		as = append(as, ref.LE(p[:]))
	}
	c.Each("scalar product", len(as), itoa, func(k *Case, i int) {
		for _, x := range ks {
			for _, r := range ks {
				var s [32]byte
				a, b, d := arr32(ref.ToLE(x, 32)), arr32(ref.ToLE(as[i], 32)), arr32(ref.ToLE(r, 32))
				edwards25519.ScMulAdd(&s, &a, &b, &d)
				w := new(big.Int).Mul(x, as[i])
				w.Add(w, r).Mod(w, ref.L)
				if ref.LE(s[:]).Cmp(w) != 0 {
					k.Failf("%x * %x + %x is computed as %x", x, as[i], r, ref.LE(s[:]))
				}
				k.Eval(1)
			}
		}
		k.Nontrivial(1)
	})
	// field
	var fs []*big.Int
	for d := int64(-20); d <= 20; d++ {
		for _, x := range []*big.Int{P, two(255), two(254), big.NewInt(20), two(128)} {
			y := new(big.Int).Add(x, big.NewInt(d))
			if y.Sign() >= 0 && y.BitLen() <= 255 {
				fs = append(fs, y)
			}
		}
	}
	for i := uint(0); i < 255; i++ {
		fs = append(fs, two(i), new(big.Int).Sub(two(i), big.NewInt(1)), new(big.Int).Sub(new(big.Int).Sub(two(255), big.NewInt(1)), two(i)))
	}
	for i := 0; i < c.Q(100, 1000); i++ {
		x := ref.LE(pattern(80000+i, 32))
		fs = append(fs, x.SetBit(x, 255, 0))
	}
	fe := func(x *big.Int) (f edwards25519.FieldElement) {
		b := arr32(ref.ToLE(x, 32))
		edwards25519.FeFromBytes(&f, &b)
		return
	}
	val := func(f edwards25519.FieldElement) *big.Int {
		var b [32]byte
		edwards25519.FeToBytes(&b, &f)
		return ref.LE(b[:])
	}
	c.Each("field", len(fs), itoa, func(k *Case, i int) {
		x := new(big.Int).Mod(fs[i], P)
		f := fe(fs[i])
		eq := func(what string, got edwards25519.FieldElement, want *big.Int) {
			if val(got).Cmp(want.Mod(want, P)) != 0 {
				k.Failf("field %s for %x", what, fs[i])
			}
			k.Eval(1)
		}
		eq("value", f, new(big.Int).Set(x))
		var g edwards25519.FieldElement
		edwards25519.FeInvert(&g, &f)
		if x.Sign() != 0 {
			eq("inverse", g, new(big.Int).ModInverse(x, P))
		} else {
			eq("inverse of 0", g, new(big.Int))
		}
		for _, o := range fs {
			h := fe(o)
			y := new(big.Int).Mod(o, P)
			var d, s, m edwards25519.FieldElement
			edwards25519.FeAdd(&s, &f, &h)
			eq("sum", s, new(big.Int).Add(x, y))
			edwards25519.FeSub(&d, &f, &h)
			eq("difference", d, new(big.Int).Sub(x, y))
			edwards25519.FeMul(&m, &s, &d)
			w := new(big.Int).Sub(new(big.Int).Mul(x, x), new(big.Int).Mul(y, y))
			eq("product", m, w)
		}
		k.Nontrivial(1)
	})
}

// ---------------------------------------------------------------- K02

func runK02(c *Ctx) {
	c.Rule("every plaintext length in range x IV passed, zero or generated x keys, for both cipher pairs: equal to standard AES-256-CBC with PKCS#7, decrypted by both sides, inputs and the memory around them unchanged; every ciphertext length in range refused unless a positive multiple of the block size.")
	maxLen := c.Q(2000, 10000)
	keys := [][]byte{make([]byte, 32), bytes.Repeat([]byte{0xff}, 32), pattern(1, 32), pattern(2, 32)}
	ivs := [][]byte{make([]byte, 16), bytes.Repeat([]byte{0xff}, 16), pattern(3, 16), nil}
	type fn func(iv, key, text []byte) ([]byte, error)
	pairs := []struct {
		name     string
		enc, dec fn
		gen      bool
	}{{"Encrypt", cipher.Encrypt, cipher.Decrypt, false}, {"EncryptCbc", cipher.EncryptCbc, cipher.DecryptCbc, true}}
	// op calls with guarded inputs; all must stay as they are.
	op := func(k *Case, what string, f fn, iv, key, text []byte) (out []byte, err error) {
		var giv []byte
		same1 := func() bool { return true }
		if iv != nil {
			giv, same1 = guarded(iv)
		}
		gk, same2 := guarded(key)
		gt, same3 := guarded(text)
		r := call(nil, func(r *Res) { out, err = f(giv, gk, gt) })
		if r.Panic != "" {
			k.Failf("%s of %d bytes panics: %s", what, len(text), r.Panic)
			return nil, fmt.Errorf("panic")
		}
		if !same1() || !same2() || !same3() {
			k.Failf("%s of %d bytes changes its inputs or memory beyond them", what, len(text))
		}
		out = append([]byte{}, out...)
		k.Eval(1)
		return
	}
	lens := []int{}
	for n := 0; n <= maxLen; n++ {
		lens = append(lens, n)
	}
	for b := uint(12); b <= uint(c.Q(23, 26)); b++ {
		for _, d := range []int{-17, -1, 0, 1, 40} {
			lens = append(lens, 1<<b+d)
		}
	}
	lens = append(lens, 10000, 100000, 1000000, 3000000, c.Q(5000000, 10000000))
	c.Each("round trip", len(lens), func(i int) string { return fmt.Sprint(lens[i], " bytes") }, func(k *Case, i int) {
		n := lens[i]
		keys := keys
		if n > maxLen {
			keys = keys[2:3]
		}
		for pi, p := range pairs {
			for ki, key := range keys {
				for vi, iv := range ivs {
					if iv == nil && !p.gen {
						continue
					}
					for _, text := range [][]byte{pattern(n, n), bytes.Repeat([]byte{byte(n%16 + 1)}, n), bytes.Repeat([]byte{16}, n)} {
						id := fmt.Sprintf("%s key %d iv %d", p.name, ki, vi)
						ct, err := op(k, id, p.enc, iv, key, text)
						if err != nil {
							if n == 0 && pi == 0 {
								k.c.Outcome("empty plaintext refused by " + p.name)
								continue
							}
							k.Failf("%s: encrypting %d bytes fails: %v", id, n, err)
							continue
						}
						useIV, body := iv, ct
						if iv == nil {
							if len(ct) < 32 {
								k.Failf("%s: ciphertext of %d bytes with generated IV", id, len(ct))
								continue
							}
							useIV, body = ct[:16], ct[16:]
						}
						if !bytes.Equal(body, ref.CBCEncrypt(key, useIV, text)) {
							k.Failf("%s: %d bytes are not encrypted as AES-256-CBC with PKCS#7", id, n)
						}
						pt, err := op(k, "decrypt "+id, p.dec, iv, key, ct)
						if err != nil || !bytes.Equal(pt, text) {
							k.Failf("%s: %d bytes do not decrypt to themselves (%v)", id, n, err)
						}
						if iv == nil { // the same ciphertext with the IV passed
							pt, err = op(k, "decrypt split "+id, p.dec, useIV, key, body)
							if err != nil || !bytes.Equal(pt, text) {
								k.Failf("%s: %d bytes do not decrypt with the IV passed (%v)", id, n, err)
							}
						}
						k.c.Outcome(p.name + fmt.Sprint(" padding ", len(body)-n))
					}
				}
			}
		}
		k.Nontrivial(1)
	})
	// generated IVs differ with the randomness, in every byte
	c.One("generated iv", func(k *Case) {
		seen := map[string]int{}
		for j := -1; j < 128; j++ {
			rnd := pattern(5, 16)
			if j >= 0 {
				rnd[j/8] ^= 1 << (j % 8)
			}
			var ct []byte
			withBytes(rnd, func() { ct, _ = cipher.EncryptCbc(nil, keys[2], []byte("text")) })
			if len(ct) != 32 {
				k.Failf("ciphertext of %d bytes", len(ct))
				return
			}
			if o, dup := seen[string(ct[:16])]; dup {
				k.Failf("the same IV from different randomness (%d, %d)", o, j)
			}
			seen[string(ct[:16])] = j
			k.Eval(1)
		}
		k.Nontrivial(1)
	})
	c.Each("ciphertext lengths", c.Q(200, 2000), itoa, func(k *Case, n int) {
		for _, p := range pairs {
			for _, key := range keys {
				for _, iv := range ivs {
					if iv == nil && !p.gen {
						continue
					}
					for f := 0; f < 3; f++ {
						ct := pattern(f, n)
						if f == 2 {
							ct = make([]byte, n)
						}
						_, err := op(k, p.name+" inverse", p.dec, iv, key, ct)
						body := n
						if iv == nil {
							body -= 16
						}
						if (body <= 0 || body%16 != 0) && err == nil {
							k.Failf("decrypting with %s's inverse accepts a ciphertext of %d bytes", p.name, n)
						}
					}
				}
			}
		}
		k.Nontrivial(1)
	})
}

// ---------------------------------------------------------------- K03

func runK03(c *Ctx) {
	c.Rule("for every pair of base fingerprints: the text from both sides, 60 digits, and the text after each of the 255 other values of each of the 30 displayed bytes of either.")
	var base [][]byte
	for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
		base = append(base, bytes.Repeat([]byte{v}, 32))
	}
	for i := 0; i < c.Q(8, 40); i++ {
		base = append(base, pattern(i, 32))
	}
	base = append(base, pattern(900, 30), pattern(901, 64))
	n := len(base)
	text := func(k *Case, a, b []byte) (s string) {
		ga, sa := guarded(a)
		gb, sb := guarded(b)
		if !noPanic(k, "display", func() { s = fingerprint.NewFingerprint(fingerprint.NewDisplay(ga, gb)).Display().DisplayText() }) {
			return ""
		}
		if !sa() || !sb() {
			k.Failf("displaying changes the fingerprints")
		}
		if len(s) != 60 {
			k.Failf("the text has %d characters", len(s))
		}
		for _, x := range s {
			if x < '0' || x > '9' {
				k.Failf("the text has a character %q", x)
			}
		}
		k.Eval(1)
		return
	}
	both := func(k *Case, a, b []byte) string {
		s, t := text(k, a, b), text(k, b, a)
		if s != t {
			k.Failf("the two users see different texts: %s and %s", s, t)
		}
		return s
	}
	c.Each("pairs", n*n, itoa, func(k *Case, i int) {
		a, b := base[i/n], base[i%n]
		s := both(k, a, b)
		k.Nontrivial(1)
		for p := 0; p < 30; p++ {
			for v := 1; v < 256; v++ {
				x := append([]byte{}, a...)
				x[p] ^= byte(v)
				if both(k, x, b) == s {
					k.Failf("changing byte %d from %d to %d leaves the text as it is", p, a[p], x[p])
				}
				if i/n != i%n {
					continue
				}
				x = append([]byte{}, b...)
				x[p] ^= byte(v)
				if both(k, a, x) == s {
					k.Failf("changing byte %d of the remote fingerprint from %d to %d leaves the text as it is", p, b[p], x[p])
				}
			}
		}
	})
}

// ---------------------------------------------------------------- K04

func runK04(c *Ctx) {
	c.Rule("all ordered pairs of base keys (among them keys that share their first bytes, and every combination of high and low first bytes) with identity keys: both halves calculated, compared with each other and with X3DH of either role, and with every substitution of one key.")
	type who struct{ ik, base, rk ref.KeyPair }
	// base keys: the ones closest to each other in byte order among many.
	cand := make([]ref.KeyPair, c.Q(4000, 40000))
	c.Each("candidates", len(cand), itoa, func(k *Case, i int) { cand[i] = ref.NewKeyPair(arr32(pattern(20000+i, 32))); k.Eval(1) })
	if c.OnlyCase != "" {
		for i := range cand {
			cand[i] = ref.NewKeyPair(arr32(pattern(20000+i, 32)))
		}
	}
	sort.Slice(cand, func(a, b int) bool { return bytes.Compare(cand[a].Pub[:], cand[b].Pub[:]) < 0 })
	common := func(a, b [32]byte) int {
		for i := range a {
			if a[i] != b[i] {
				return i
			}
		}
		return 32
	}
	var bases []ref.KeyPair
	for d := 1; d <= 2; d++ {
		n := 0
		for i := 1; i < len(cand) && n < c.Q(3, 8); i++ {
			if common(cand[i-1].Pub, cand[i].Pub) == d {
				bases = append(bases, cand[i-1], cand[i])
				n++
			}
		}
	}
	// found by a search among two million: pairs that share their first 3, 4 and 5 bytes
	for _, i := range []int{881110, 316913, 1472402, 222559, 1029688, 379478, 1971265, 1042223, 1459491, 1266149, 896146, 1087053, 19398, 1826567, 387268, 205869} {
		bases = append(bases, ref.NewKeyPair(arr32(pattern(20000+i, 32))))
	}
	bases = append(bases, cand[0], cand[1], cand[len(cand)-1], cand[len(cand)-2])
	for i := 1; i < 8; i++ {
		bases = append(bases, cand[i*len(cand)/8])
	}
	iks := []ref.KeyPair{refKey(301), refKey(302), refKey(303)}
	lib := func(kp ref.KeyPair) *ecc.ECKeyPair {
		return ecc.NewECKeyPair(ecc.NewDjbECPublicKey(kp.Pub), ecc.NewDjbECPrivateKey(kp.Priv))
	}
	calc := func(k *Case, me who, theirBase, theirRatchet, theirIK [32]byte) (root, chain []byte) {
		noPanic(k, "symmetric session", func() {
			id := lib(me.ik)
			ps := &ratchet.SymmetricParameters{OurBaseKey: lib(me.base), OurRatchetKey: lib(me.rk),
				OurIdentityKeyPair: identity.NewKeyPair(identity.NewKey(id.PublicKey()), id.PrivateKey()),
				TheirBaseKey:       ecc.NewDjbECPublicKey(theirBase), TheirRatchetKey: ecc.NewDjbECPublicKey(theirRatchet),
				TheirIdentityKey: identity.NewKey(ecc.NewDjbECPublicKey(theirIK))}
			kp, err := ratchet.CalculateSymmetricSession(ps)
			if err != nil {
				k.Failf("symmetric session fails: %v", err)
				return
			}
			root, chain = append([]byte{}, kp.RootKey.Bytes()...), append([]byte{}, kp.ChainKey.Key()...)
			if kp.ChainKey.Index() != 0 {
				k.Failf("the chain starts at %d", kp.ChainKey.Index())
			}
		})
		k.Eval(1)
		return
	}
	n := len(bases)
	c.Each("pairs", n*n, itoa, func(k *Case, i int) {
		if bases[i/n] == bases[i%n] {
			return
		}
		a := who{iks[0], bases[i/n], refKey(310)}
		b := who{iks[1], bases[i%n], refKey(311)}
		ra, ca := calc(k, a, b.base.Pub, b.rk.Pub, b.ik.Pub)
		rb, cb := calc(k, b, a.base.Pub, a.rk.Pub, a.ik.Pub)
		if k.Failed() {
			return
		}
		if !bytes.Equal(ra, rb) || !bytes.Equal(ca, cb) {
			k.Failf("the two users calculate different keys (base keys %x, %x)", a.base.Pub, b.base.Pub)
			return
		}
		r1, c1 := ref.X3DHInitiator(a.ik, a.base, b.ik.Pub, b.base.Pub, nil)
		r2, c2 := ref.X3DHInitiator(b.ik, b.base, a.ik.Pub, a.base.Pub, nil)
		first := bytes.Equal(ra, r1) && bytes.Equal(ca, c1)
		second := bytes.Equal(ra, r2) && bytes.Equal(ca, c2)
		if first == second {
			k.Failf("the keys are not those of an exchange with one initiator")
		}
		k.c.Outcome(fmt.Sprint("first initiates: ", first))
		k.Nontrivial(1)
		// substitutions
		for j := 0; j < 4; j++ {
			x, y := a, b
			other := bases[(i/n+1+j)%n]
			if other == a.base || other == b.base {
				continue
			}
			var r, ch []byte
			switch j {
			case 0: // another identity of the peer
				r, ch = calc(k, x, y.base.Pub, y.rk.Pub, iks[2].Pub)
			case 1: // another base key of the peer
				r, ch = calc(k, x, other.Pub, y.rk.Pub, y.ik.Pub)
			case 2: // another participant with its own base key
				x.ik, x.base = iks[2], other
				r, ch = calc(k, x, y.base.Pub, y.rk.Pub, y.ik.Pub)
			case 3: // another participant
				x.ik = iks[2]
				r, ch = calc(k, x, y.base.Pub, y.rk.Pub, y.ik.Pub)
			}
			if bytes.Equal(r, ra) || bytes.Equal(ch, ca) || bytes.Equal(r, ca) || bytes.Equal(ch, ra) {
				k.Failf("the keys stay the same with substitution %d", j)
			}
		}
		if bytes.Equal(ra, ca) {
			k.Failf("root and chain key are equal")
		}
	})
}

// ---------------------------------------------------------------- K05

func runK05(c *Ctx) {
	c.Rule("envelopes for every text length in range opened exactly; every single-bit change of body, key and private key (its clamped bits excepted), every truncation and every wrong version with a correct tag refused.")
	dev := refKey(70)
	open := func(k *Case, priv []byte, content string) (string, error) {
		var s string
		var err error
		r := call(nil, func(*Res) { s, err = provision.Decrypt(base64.StdEncoding.EncodeToString(priv), content) })
		k.Eval(1)
		if r.Panic != "" {
			k.Failf("provisioning: panic: %s", r.Panic)
			return "", fmt.Errorf("panic")
		}
		return s, err
	}
	texts := c.Q(1000, 5000)
	far := []int{4095, 4096, 4097, 16383, 16384, 32768, 65519, 65520, 65535, 65536, 65537, 70000, 131072, 999999}
	c.Each("texts", texts+1+len(far), itoa, func(k *Case, n int) {
		if n > texts {
			n = far[n-texts-1]
		}
		for v := 0; v < 3; v++ {
			d, eph := refKey(400+v), refKey(410+n%5)
			text := pattern(n+v, n)
			if v == 1 {
				text = []byte(fmt.Sprintf("%0*d", n, 7))[:n]
			}
			s, err := open(k, d.Priv[:], provEnvelope(eph, d.Pub, pattern(n, 16), text, nil))
			if err != nil || s != string(text) {
				k.Failf("an envelope with %d bytes does not open to them: %v", n, err)
			}
			// the unused top bit of the ephemeral key
			if s, err := open(k, d.Priv[:], reprov(provEnvelope(eph, d.Pub, pattern(n, 16), text, nil), func(pub, body []byte) ([]byte, []byte) { pub[32] |= 0x80; return pub, body })); err == nil && s != string(text) {
				k.Failf("with the unused bit the envelope opens to something else")
			}
			k.Nontrivial(1)
		}
	})
	lens := []int{0, 1, 15, 16, 17, 100}
	type mut struct {
		name string
		priv []byte
		f    func(pub, body []byte) ([]byte, []byte)
	}
	for _, n := range lens {
		eph := refKey(71)
		text := pattern(n, n)
		good := provEnvelope(eph, dev.Pub, pattern(9, 16), text, nil)
		var blen int
		reprov(good, func(pub, body []byte) ([]byte, []byte) { blen = len(body); return pub, body })
		var ms []mut
		add := func(name string, f func(pub, body []byte) ([]byte, []byte)) {
			ms = append(ms, mut{name, dev.Priv[:], f})
		}
		for i := 0; i < 8*blen; i++ {
			i := i
			add(fmt.Sprint("body bit ", i), func(p, b []byte) ([]byte, []byte) { b[i/8] ^= 1 << (i % 8); return p, b })
		}
		for i := 0; i < blen; i++ {
			i := i
			add(fmt.Sprint("body first ", i), func(p, b []byte) ([]byte, []byte) { return p, b[:i] })
			add(fmt.Sprint("body from ", i+1), func(p, b []byte) ([]byte, []byte) { return p, b[i+1:] })
			add(fmt.Sprint("body without ", i), func(p, b []byte) ([]byte, []byte) { return p, append(b[:i:i], b[i+1:]...) })
			add(fmt.Sprint("body with 0 at ", i), func(p, b []byte) ([]byte, []byte) {
				return p, append(append(append([]byte{}, b[:i]...), 0), b[i:]...)
			})
		}
		add("body extended", func(p, b []byte) ([]byte, []byte) { return p, append(b, 0) })
		add("tag twice", func(p, b []byte) ([]byte, []byte) { return p, append(b, b[len(b)-32:]...) })
		add("zero tag", func(p, b []byte) ([]byte, []byte) { copy(b[len(b)-32:], make([]byte, 32)); return p, b })
		for i := 0; i < 8*33; i++ {
			i := i
			if i == 8*32+7 {
				continue
			}
			add(fmt.Sprint("key bit ", i), func(p, b []byte) ([]byte, []byte) { p[i/8] ^= 1 << (i % 8); return p, b })
		}
		for i := 0; i < 33; i++ {
			i := i
			add(fmt.Sprint("key first ", i), func(p, b []byte) ([]byte, []byte) { return p[:i], b })
		}
		for i := 3; i < 254; i++ {
			pr := append([]byte{}, dev.Priv[:]...)
			pr[i/8] ^= 1 << (i % 8)
			ms = append(ms, mut{fmt.Sprint("private key bit ", i), pr, func(p, b []byte) ([]byte, []byte) { return p, b }})
		}
		for i := 0; i < 32; i++ {
			ms = append(ms, mut{fmt.Sprint("private key first ", i), dev.Priv[:i], func(p, b []byte) ([]byte, []byte) { return p, b }})
		}
		for i := 0; i < 20; i++ {
			kp := refKey(500 + i)
			ms = append(ms, mut{fmt.Sprint("another device ", i), kp.Priv[:], func(p, b []byte) ([]byte, []byte) { return p, b }})
			add(fmt.Sprint("another ephemeral key ", i), func(p, b []byte) ([]byte, []byte) { return ref.Pub33(kp.Pub), b })
		}
		c.Each(fmt.Sprint("changes ", n), len(ms), func(i int) string { return ms[i].name }, func(k *Case, i int) {
			m := ms[i]
			s, err := open(k, m.priv, reprov(good, m.f))
			if err == nil {
				k.Failf("the envelope (%d bytes of text) opens to %q with %s", n, s, m.name)
			}
			if s != "" {
				k.Failf("text is returned along with an error with %s", m.name)
			}
			k.c.Outcome("refused")
			k.Nontrivial(1)
		})
		// base64 truncations
		c.Each(fmt.Sprint("truncated ", n), len(good), itoa, func(k *Case, i int) {
			if s, err := open(k, dev.Priv[:], good[:i]); err == nil {
				k.Failf("the first %d characters open to %q", i, s)
			}
			k.Nontrivial(1)
		})
		c.Each(fmt.Sprint("versions ", n), 256, itoa, func(k *Case, v int) {
			e := provEnvelope(eph, dev.Pub, pattern(9, 16), text, func(body, ks []byte) []byte {
				b := append([]byte{}, body[:len(body)-32]...)
				b[0] = byte(v)
				return append(b, ref.HMAC(ks[32:], b)...)
			})
			s, err := open(k, dev.Priv[:], e)
			if v == 1 && (err != nil || s != string(text)) {
				k.Failf("version 1 does not open")
			}
			if v != 1 && err == nil {
				k.Failf("version %d opens", v)
			}
			k.Nontrivial(1)
		})
	}
}

// reprov changes the parts of an envelope.
func reprov(content string, f func(pub, body []byte) ([]byte, []byte)) string {
	raw, err := base64.StdEncoding.DecodeString(content)
	if err != nil {
		panic(harnessErr{err.Error()})
	}
	var e map[string][]byte
	if err := json.Unmarshal(raw, &e); err != nil {
		panic(harnessErr{err.Error()})
	}
	p, b := f(e["public_key"], e["body"])
	out, _ := json.Marshal(map[string][]byte{"public_key": p, "body": b})
	return base64.StdEncoding.EncodeToString(out)
}

// ---------------------------------------------------------------- K06

func runK06(c *Ctx) {
	c.Rule("key pairs from random bytes at all borders (none, all, each single bit, each bit missing, each half byte) and recreated from them; prekey batches for all first and last ids in range; signed prekeys and the last-resort key; all pairs of key pairs and border public keys for shared secrets; HKDF for all lengths in range.")
	seeds := edgePrivs()
	for i := 0; i < c.Q(200, 2000); i++ {
		seeds = append(seeds, arr32(pattern(30000+i, 32)))
	}
	consistent := func(k *Case, what string, kp *ecc.ECKeyPair) {
		pr, pu := kp.PrivateKey().Serialize(), kp.PublicKey().PublicKey()
		if ref.Clamp(pr) != pr {
			k.Failf("%s: the private key %x is not clamped", what, pr)
		}
		if ref.PublicKey(pr) != pu {
			k.Failf("%s: the public key %x does not match the private key %x", what, pu, pr)
		}
		if s := kp.PublicKey().Serialize(); !bytes.Equal(s, ref.Pub33(pu)) {
			k.Failf("%s: the public key is serialized as %x", what, s)
		}
		if q, err := ecc.DecodePoint(kp.PublicKey().Serialize(), 0); err != nil || q.PublicKey() != pu {
			k.Failf("%s: the serialized public key is not read back", what)
		}
		b := identity.NewKeyFromBytes(pu, 0)
		for _, ik := range []*identity.Key{identity.NewKey(kp.PublicKey()), &b} {
			if !bytes.Equal(ik.Serialize(), ref.Pub33(pu)) || ik.PublicKey().PublicKey() != pu || ik.Fingerprint() != fmt.Sprintf("%x", ref.Pub33(pu)) {
				k.Failf("%s: as an identity key it is %s", what, ik.Fingerprint())
			}
		}
		k.Eval(1)
	}
	c.Each("pairs", len(seeds), itoa, func(k *Case, i int) {
		noPanic(k, "key generation", func() {
			var kp *ecc.ECKeyPair
			var err error
			withBytes(seeds[i][:], func() { kp, err = ecc.GenerateKeyPair() })
			if err != nil {
				k.Failf("generation fails: %v", err)
				return
			}
			consistent(k, "generated", kp)
			var id *identity.KeyPair
			withBytes(seeds[i][:], func() { id, err = keyhelper.GenerateIdentityKeyPair() })
			if err != nil {
				k.Failf("identity generation fails: %v", err)
				return
			}
			consistent(k, "identity", ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()))
			withBytes(seeds[i][:], func() { kp, err = keyhelper.GenerateSenderSigningKey() })
			if err != nil {
				k.Failf("signing key generation fails: %v", err)
				return
			}
			consistent(k, "sender signing", kp)
			in, same := guarded(seeds[i][:])
			re := ecc.CreateKeyPair(in)
			if !same() {
				k.Failf("recreating a pair changes the bytes it is given")
			}
			consistent(k, "recreated", re)
			if re.PrivateKey().Serialize() != ref.Clamp(seeds[i]) {
				k.Failf("recreating gives another private key")
			}
			back := kp.PrivateKey().Serialize()
			re2 := ecc.CreateKeyPair(back[:])
			if re2.PublicKey().PublicKey() != kp.PublicKey().PublicKey() || re2.PrivateKey().Serialize() != kp.PrivateKey().Serialize() {
				k.Failf("a generated key pair recreated from its private key is another one")
			}
			k.Nontrivial(1)
		})
	})
	// Prekeys.
	type rg struct{ a, b int }
	var rs []rg
	for a := 0; a <= c.Q(12, 30); a++ {
		for b := a - 1; b <= c.Q(12, 30); b++ {
			rs = append(rs, rg{a, b})
		}
	}
	for _, m := range []int{255, 256, 65535, 0xfffffe} {
		for d := -2; d <= 0; d++ {
			rs = append(rs, rg{m + d, m + 1})
		}
	}
	rs = append(rs, rg{1, c.Q(300, 3000)}, rg{1, c.Q(6000, 70000)})
	c.Each("prekeys", 2*len(rs), itoa, func(k *Case, i int) {
		r, ser := rs[i/2], serializer(i%2 == 1)
		withRng(&Rng{Seed: fmt.Sprint("k06:", i)}, func() {
			ps, err := keyhelper.GeneratePreKeys(r.a, r.b, ser.PreKeyRecord)
			if err != nil || len(ps) != r.b-r.a+1 {
				k.Failf("prekeys %d to %d: %d prekeys, %v", r.a, r.b, len(ps), err)
				return
			}
			seen := map[[32]byte]bool{}
			for j, p := range ps {
				if p.ID() == nil || p.ID().IsEmpty || p.ID().Value != uint32(r.a+j) {
					k.Failf("prekey %d of %d to %d has id %v", j, r.a, r.b, p.ID())
				}
				consistent(k, "prekey", p.KeyPair())
				pr := p.KeyPair().PrivateKey().Serialize()
				if seen[pr] {
					k.Failf("two prekeys have the same key")
				}
				seen[pr] = true
				q := mustPre(p.Serialize(), ser)
				if q.ID().Value != p.ID().Value || q.KeyPair().PrivateKey().Serialize() != pr || q.KeyPair().PublicKey().PublicKey() != p.KeyPair().PublicKey().PublicKey() {
					k.Failf("a prekey is not read back as it was stored")
				}
			}
			l, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
			if err != nil || l.ID().Value != 0xFFFFFF || l.ID().IsEmpty {
				k.Failf("the last-resort prekey has id %v (%v)", l.ID(), err)
				return
			}
			consistent(k, "last resort", l.KeyPair())
			if seen[l.KeyPair().PrivateKey().Serialize()] {
				k.Failf("the last-resort key is a prekey's key")
			}
			k.Nontrivial(1)
		})
	})
	ids := []uint32{0, 1, 2, 255, 256, 65535, 65536, 0xfffffe, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}
	for i := 0; i < c.Q(100, 1000); i++ {
		ids = append(ids, uint32(1000+i))
	}
	c.Each("signed prekeys", 2*len(ids), itoa, func(k *Case, i int) {
		id, ser := ids[i/2], serializer(i%2 == 1)
		ik := identityPair(fmt.Sprint("k06:", i%9))
		withRng(&Rng{Seed: fmt.Sprint("k06s:", i)}, func() {
			p, err := keyhelper.GenerateSignedPreKey(ik, id, ser.SignedPreKeyRecord)
			if err != nil {
				k.Failf("signed prekey: %v", err)
				return
			}
			check := func(id2 uint32, kp *ecc.ECKeyPair, sig [64]byte) {
				if id2 != id {
					k.Failf("signed prekey %d has id %d", id, id2)
				}
				consistent(k, "signed prekey", kp)
				if !ref.Verify(ik.PublicKey().PublicKey().PublicKey(), ref.Pub33(kp.PublicKey().PublicKey()), sig) {
					k.Failf("the signature of signed prekey %d does not verify", id)
				}
			}
			check(p.ID(), p.KeyPair(), p.Signature())
			q := mustSPre(p.Serialize(), ser)
			check(q.ID(), q.KeyPair(), q.Signature())
			if q.Timestamp() != p.Timestamp() {
				k.Failf("the timestamp is not read back")
			}
			k.Nontrivial(1)
		})
	})
	// Shared secrets.
	var pairs []ref.KeyPair
	for i := 0; i < c.Q(24, 80); i++ {
		pairs = append(pairs, ref.NewKeyPair(arr32(pattern(40000+i, 32))))
	}
	for _, p := range seeds[:60] {
		pairs = append(pairs, ref.NewKeyPair(p))
	}
	c.Each("shared secrets", len(pairs), itoa, func(k *Case, i int) {
		a := pairs[i]
		for _, b := range pairs {
			s, t := kdf.CalculateSharedSecret(b.Pub, a.Priv), kdf.CalculateSharedSecret(a.Pub, b.Priv)
			if s != t {
				k.Failf("the two sides get different secrets")
			}
			if s != ref.DH(a.Priv, b.Pub) {
				k.Failf("the shared secret is not X25519's")
			}
			k.Eval(2)
		}
		for d := int64(-3); d <= 40; d++ { // around p and at the top
			for _, m := range []*big.Int{ref.P, big.NewInt(3), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(41))} {
				x := new(big.Int).Add(m, big.NewInt(d))
				if x.Sign() < 0 || x.BitLen() > 256 {
					continue
				}
				u := arr32(ref.ToLE(x, 32))
				if kdf.CalculateSharedSecret(u, a.Priv) != ref.DH(a.Priv, u) {
					k.Failf("the shared secret with public key %x is not X25519's", u)
				}
				k.Eval(1)
			}
		}
		k.Nontrivial(1)
	})
	c.Each("hkdf", c.Q(200, 1000), itoa, func(k *Case, n int) {
		for _, ik := range []int{0, 1, 32, 64, 65, 160} {
			for _, salt := range [][]byte{nil, {}, make([]byte, 32), pattern(4, 32), pattern(5, 100)} {
				for _, info := range []string{"", "WhisperText", "x"} {
					in, s1 := guarded(pattern(n, ik))
					var sl []byte
					s2 := func() bool { return true }
					if salt != nil {
						sl, s2 = guarded(salt)
					}
					out, err := kdf.DeriveSecrets(in, sl, []byte(info), n)
					if err != nil || !bytes.Equal(out, ref.HKDF(pattern(n, ik), salt, []byte(info), n)) {
						k.Failf("HKDF of %d bytes with salt %x and info %q to %d bytes is wrong (%v)", ik, salt, info, n, err)
					}
					if !s1() || !s2() {
						k.Failf("HKDF changes its inputs")
					}
					k.Eval(1)
				}
			}
		}
		k.Nontrivial(1)
	})
}
