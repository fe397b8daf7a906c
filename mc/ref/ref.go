// Package ref is an implementation of the Signal protocol's primitives and wire
// format that shares no code with the library under test. It is written from the
// specification, with the standard library only.
package ref

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
	"math/big"
)

var errRef = errors.New("ref: invalid")

// ---------------------------------------------------------------- X25519

func Clamp(k [32]byte) [32]byte {
	k[0] &= 248
	k[31] &= 127
	k[31] |= 64
	return k
}

func PublicKey(priv [32]byte) [32]byte {
	p, err := ecdh.X25519().NewPrivateKey(priv[:])
	if err != nil {
		panic(err)
	}
	var out [32]byte
	copy(out[:], p.PublicKey().Bytes())
	return out
}

// DH is X25519; low order points give zeros.
func DH(priv, pub [32]byte) [32]byte {
	var out [32]byte
	p, err := ecdh.X25519().NewPrivateKey(priv[:])
	if err != nil {
		panic(err)
	}
	q, err := ecdh.X25519().NewPublicKey(pub[:])
	if err != nil {
		panic(err)
	}
	s, err := p.ECDH(q)
	if err != nil {
		return out
	}
	copy(out[:], s)
	return out
}

// ---------------------------------------------------------------- HMAC, HKDF

func HMAC(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// HKDF-SHA256, RFC 5869.
func HKDF(ikm, salt, info []byte, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := HMAC(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = HMAC(prk, t, info, []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

// ---------------------------------------------------------------- AES-CBC

func CBCEncrypt(key, iv, plain []byte) []byte {
	n := 16 - len(plain)%16
	buf := make([]byte, len(plain)+n)
	copy(buf, plain)
	for i := len(plain); i < len(buf); i++ {
		buf[i] = byte(n)
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(buf, buf)
	return buf
}

func CBCDecrypt(key, iv, ct []byte) ([]byte, error) {
	if len(ct) == 0 || len(ct)%16 != 0 || len(key) != 32 || len(iv) != 16 {
		return nil, errRef
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	buf := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, iv).CryptBlocks(buf, ct)
	n := int(buf[len(buf)-1])
	if n == 0 || n > 16 {
		return nil, errRef
	}
	for _, x := range buf[len(buf)-n:] {
		if int(x) != n {
			return nil, errRef
		}
	}
	return buf[:len(buf)-n], nil
}

// ---------------------------------------------------------------- XEdDSA

var (
	fp = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	fl = func() *big.Int {
		x, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
		return x.Add(x, new(big.Int).Lsh(big.NewInt(1), 252))
	}()
	L  = fl
	fd = func() *big.Int { // -121665/121666
		x := big.NewInt(121666)
		x.ModInverse(x, fp)
		x.Mul(x, big.NewInt(-121665))
		return x.Mod(x, fp)
	}()
)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(x *big.Int, n int) []byte {
	b := x.Bytes()
	out := make([]byte, n)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

type point struct{ x, y *big.Int }

var basePoint = func() point {
	y := new(big.Int).ModInverse(big.NewInt(5), fp)
	y.Mul(y, big.NewInt(4))
	y.Mod(y, fp)
	// x^2 = (y^2-1)/(d y^2+1)
	y2 := new(big.Int).Mul(y, y)
	num := new(big.Int).Sub(y2, big.NewInt(1))
	den := new(big.Int).Mul(fd, y2)
	den.Add(den, big.NewInt(1))
	den.ModInverse(den.Mod(den, fp), fp)
	x2 := num.Mul(num, den)
	x2.Mod(x2, fp)
	x := new(big.Int).ModSqrt(x2, fp)
	if x.Bit(0) != 0 {
		x.Sub(fp, x)
	}
	return point{x, y}
}()

// proj is a point in projective coordinates.
type proj struct{ x, y, z *big.Int }

func addProj(p, q proj) proj {
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, fp) }
	a := m(p.z, q.z)
	b, c, d := m(a, a), m(p.x, q.x), m(p.y, q.y)
	e := m(fd, m(c, d))
	f, g := new(big.Int).Sub(b, e), new(big.Int).Add(b, e)
	t := m(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	t.Sub(t, c)
	t.Sub(t, d)
	return proj{m(m(a, f), t), m(m(a, g), c.Add(c, d)), m(f, g)}
}

var baseMultiples = func() (t [256]proj) {
	p := proj{basePoint.x, basePoint.y, big.NewInt(1)}
	for i := range t {
		t[i] = p
		p = addProj(p, p)
	}
	return
}()

func mulBase(k *big.Int) point {
	r := proj{big.NewInt(0), big.NewInt(1), big.NewInt(1)}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = addProj(r, baseMultiples[i])
		}
	}
	z := new(big.Int).ModInverse(r.z.Mod(r.z, fp), fp)
	f := func(a *big.Int) *big.Int { a = new(big.Int).Mul(a, z); return a.Mod(a, fp) }
	return point{f(r.x), f(r.y)}
}

func encodePoint(p point) []byte {
	b := toLE(p.y, 32)
	b[31] |= byte(p.x.Bit(0)) << 7
	return b
}

// Sign makes a signature the way curve25519 signatures of Signal do (a signature
// made with the Edwards form of the key, whose sign bit travels in the signature).
// nonceSeed stands for the random input.
func Sign(priv [32]byte, msg, nonceSeed []byte) [64]byte {
	a := le(priv[:])
	A := encodePoint(mulBase(a))
	h := sha512.New()
	h.Write([]byte("ref nonce"))
	h.Write(priv[:])
	h.Write(msg)
	h.Write(nonceSeed)
	r := le(h.Sum(nil))
	r.Mod(r, L)
	R := encodePoint(mulBase(r))
	h.Reset()
	h.Write(R)
	h.Write(A)
	h.Write(msg)
	k := le(h.Sum(nil))
	k.Mod(k, L)
	s := k.Mul(k, a)
	s.Add(s, r)
	s.Mod(s, L)
	var sig [64]byte
	copy(sig[:], R)
	copy(sig[32:], toLE(s, 32))
	sig[63] |= A[31] & 0x80
	return sig
}

// Verify checks a signature against a Montgomery public key.
func Verify(pub [32]byte, msg []byte, sig [64]byte) bool {
	pub[31] &= 0x7f
	u := le(pub[:])
	n := new(big.Int).Sub(u, big.NewInt(1))
	d := new(big.Int).Add(u, big.NewInt(1))
	d.Mod(d, fp)
	if d.Sign() == 0 {
		return false
	}
	d.ModInverse(d, fp)
	y := n.Mul(n, d)
	y.Mod(y, fp)
	A := toLE(y, 32)
	A[31] |= sig[63] & 0x80
	sig[63] &= 0x7f
	return ed25519.Verify(A, msg, sig[:])
}

// P is the field's prime; LE and ToLE convert little-endian numbers.
var P = fp

func LE(b []byte) *big.Int          { return le(b) }
func ToLE(x *big.Int, n int) []byte { return toLE(x, n) }
