package ref

import (
	"bytes"
	"fmt"
	"sort"
)

func Pub33(p [32]byte) []byte { return append([]byte{5}, p[:]...) }

func arr(b []byte) (a [32]byte) { copy(a[:], b); return }

// Unpub strips the type byte.
func Unpub(b []byte) [32]byte { return arr(b[1:33]) }

type KeyPair struct{ Priv, Pub [32]byte }

func NewKeyPair(seed [32]byte) KeyPair {
	k := Clamp(seed)
	return KeyPair{k, PublicKey(k)}
}

// X3DHInitiator returns root and chain key.
func X3DHInitiator(ik, ek KeyPair, theirIK, theirSPK [32]byte, theirOPK *[32]byte) (root, chain []byte) {
	m := bytes.Repeat([]byte{0xff}, 32)
	d := DH(ik.Priv, theirSPK)
	m = append(m, d[:]...)
	d = DH(ek.Priv, theirIK)
	m = append(m, d[:]...)
	d = DH(ek.Priv, theirSPK)
	m = append(m, d[:]...)
	if theirOPK != nil {
		d = DH(ek.Priv, *theirOPK)
		m = append(m, d[:]...)
	}
	k := HKDF(m, nil, []byte("WhisperText"), 64)
	return k[:32], k[32:]
}

func X3DHResponder(ik, spk KeyPair, opk *KeyPair, theirIK, theirEK [32]byte) (root, chain []byte) {
	m := bytes.Repeat([]byte{0xff}, 32)
	d := DH(spk.Priv, theirIK)
	m = append(m, d[:]...)
	d = DH(ik.Priv, theirEK)
	m = append(m, d[:]...)
	d = DH(spk.Priv, theirEK)
	m = append(m, d[:]...)
	if opk != nil {
		d = DH(opk.Priv, theirEK)
		m = append(m, d[:]...)
	}
	k := HKDF(m, nil, []byte("WhisperText"), 64)
	return k[:32], k[32:]
}

func RootStep(root []byte, priv, pub [32]byte) (newRoot, chain []byte) {
	d := DH(priv, pub)
	k := HKDF(d[:], root, []byte("WhisperRatchet"), 64)
	return k[:32], k[32:]
}

// MessageKeys of a chain key: cipher key, mac key, iv.
func MessageKeys(chain []byte) (ck, mk, iv []byte) {
	k := HKDF(HMAC(chain, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return k[:32], k[32:64], k[64:]
}

func NextChain(chain []byte) []byte { return HMAC(chain, []byte{2}) }

// GroupKeys of a sender chain key: iv, cipher key.
func GroupKeys(chain []byte) (iv, ck []byte) {
	k := HKDF(HMAC(chain, []byte{1}), nil, []byte("WhisperGroup"), 48)
	return k[:16], k[16:]
}

type chainSt struct {
	key     []byte
	ctr     uint32
	skipped map[uint32][]byte
}

func (c *chainSt) clone() *chainSt {
	n := &chainSt{key: c.key, ctr: c.ctr, skipped: map[uint32][]byte{}}
	for k, v := range c.skipped {
		n.skipped[k] = v
	}
	return n
}

// Session is one end of a double ratchet.
type Session struct {
	LocalIK, RemoteIK [32]byte
	Root              []byte
	SendKP            KeyPair
	SendChain         []byte
	SendCtr, Prev     uint32
	recv              map[[32]byte]*chainSt
	Pending           *PreKeySignal // template while unacknowledged
	Base              [32]byte
}

func (s *Session) Clone() *Session {
	n := *s
	n.recv = map[[32]byte]*chainSt{}
	for k, v := range s.recv {
		n.recv[k] = v.clone()
	}
	return &n
}

// Initiate starts a session from the other side's public keys.
func Initiate(ik, base, ratchet KeyPair, theirIK, theirSPK [32]byte, theirOPK *[32]byte, opkID *uint32, spkID, reg uint32) *Session {
	root, ch := X3DHInitiator(ik, base, theirIK, theirSPK, theirOPK)
	s := &Session{LocalIK: ik.Pub, RemoteIK: theirIK, recv: map[[32]byte]*chainSt{}, Base: base.Pub}
	s.recv[theirSPK] = &chainSt{key: ch, skipped: map[uint32][]byte{}}
	s.Root, s.SendChain = RootStep(root, ratchet.Priv, theirSPK)
	s.SendKP = ratchet
	s.Pending = &PreKeySignal{SignedID: spkID, RegID: reg, Base: Pub33(base.Pub), Identity: Pub33(ik.Pub)}
	if opkID != nil {
		s.Pending.HasPreKey, s.Pending.PreKeyID = true, *opkID
	}
	return s
}

// Respond starts a session from an initial message.
func Respond(ik, spk KeyPair, opk *KeyPair, theirIK, theirBase [32]byte) *Session {
	root, ch := X3DHResponder(ik, spk, opk, theirIK, theirBase)
	return &Session{LocalIK: ik.Pub, RemoteIK: theirIK, Root: root, SendKP: spk, SendChain: ch, recv: map[[32]byte]*chainSt{}, Base: theirBase}
}

// Encrypt returns wire bytes and whether it is an initial message.
func (s *Session) Encrypt(plain []byte) ([]byte, bool) {
	ck, mk, iv := MessageKeys(s.SendChain)
	body := EncodeSignalBody(Pub33(s.SendKP.Pub), s.SendCtr, s.Prev, CBCEncrypt(ck, iv, plain))
	mac := SignalMAC(mk, Pub33(s.LocalIK), Pub33(s.RemoteIK), body)
	w := append([]byte{'3'}, body...)
	w = append(w, mac...)
	s.SendChain = NextChain(s.SendChain)
	s.SendCtr++
	if s.Pending != nil {
		p := *s.Pending
		p.Message = w
		return p.Encode(), true
	}
	return w, false
}

// Decrypt takes the bytes of an ordinary message; newKP is used if the ratchet turns.
func (s *Session) Decrypt(w []byte, newKP KeyPair) ([]byte, error) {
	m, ok := ParseSignal(w)
	if !ok || m.Version != '3' || len(m.Ratchet) != 33 {
		return nil, errRef
	}
	t := s.Clone()
	rk := Unpub(m.Ratchet)
	c := t.recv[rk]
	if c == nil {
		root, ch := RootStep(t.Root, t.SendKP.Priv, rk)
		c = &chainSt{key: ch, skipped: map[uint32][]byte{}}
		t.recv[rk] = c
		t.Root, t.SendChain = RootStep(root, newKP.Priv, rk)
		t.Prev = 0
		if t.SendCtr > 0 {
			t.Prev = t.SendCtr - 1
		}
		t.SendKP, t.SendCtr = newKP, 0
	}
	var key []byte
	if m.Ctr < c.ctr {
		key = c.skipped[m.Ctr]
		if key == nil {
			return nil, errRef
		}
		delete(c.skipped, m.Ctr)
	} else {
		if m.Ctr-c.ctr > 5000 {
			return nil, errRef
		}
		for c.ctr < m.Ctr {
			c.skipped[c.ctr] = c.key
			c.key = NextChain(c.key)
			c.ctr++
		}
		key = c.key
		c.key = NextChain(c.key)
		c.ctr++
	}
	ck, mk, iv := MessageKeys(key)
	if !bytes.Equal(SignalMAC(mk, Pub33(t.RemoteIK), Pub33(t.LocalIK), m.Body), m.Mac) {
		return nil, errRef
	}
	p, err := CBCDecrypt(ck, iv, m.Ciphertext)
	if err != nil {
		return nil, err
	}
	t.Pending = nil
	*s = *t
	return p, nil
}

// Digest describes the state completely.
func (s *Session) Digest() string {
	if s == nil {
		return "none"
	}
	var ks []string
	for k, c := range s.recv {
		var sk []int
		for n := range c.skipped {
			sk = append(sk, int(n))
		}
		sort.Ints(sk)
		ks = append(ks, fmt.Sprintf("%x:%d:%v", k[:8], c.ctr, sk))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%x %x %d %d %v %v", s.SendKP.Pub[:8], s.Root, s.SendCtr, s.Prev, s.Pending != nil, ks)
}
