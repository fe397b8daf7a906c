package main

import (
	"bytes"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func serializer(json bool) *serialize.Serializer {
	if json {
		return serialize.NewJSONSerializer()
	}
	return serialize.NewProtoBufSerializer()
}

// Library operations of one party, each on freshly made library objects.

// objs are the library objects for the next operation of a live user: some users have two
// sets that take turns irregularly.
func (s *Store) objs() *Store {
	if n := s.P.A.Name; n == "" || n[len(n)-1]%2 == 1 || s.ops%3 != 2 {
		return s
	}
	if s.other == nil {
		s.other = &Store{P: s.P, Ser: s.Ser}
	}
	return s.other
}

// builder and cipher are made afresh for every operation with durable stores, and
// kept for ever with live ones.
func (s *Store) builder(a Addr) *session.Builder {
	if !s.P.Live {
		if a.Name != "" && a.Name[0]%2 == 1 {
			return session.NewBuilder(s, s, s, s, a.P(), s.Ser)
		}
		return session.NewBuilderFromSignal(s, a.P(), s.Ser)
	}
	o := s.objs()
	if o.builders == nil {
		o.builders = map[Addr]*session.Builder{}
	}
	if o.builders[a] == nil {
		o.builders[a] = session.NewBuilderFromSignal(s, a.P(), s.Ser)
	}
	return o.builders[a]
}

func (s *Store) cipher(a Addr) *session.Cipher {
	if !s.P.Live {
		return session.NewCipher(s.builder(a), a.P())
	}
	o := s.objs()
	if o.ciphers == nil {
		o.ciphers = map[Addr]*session.Cipher{}
	}
	if o.ciphers[a] == nil {
		o.ciphers[a] = session.NewCipher(s.builder(a), a.P())
	}
	return o.ciphers[a]
}

// plainCipher has no builder.
func (s *Store) plainCipher(a Addr) *session.Cipher {
	return session.NewCipherFromSession(a.P(), s, s, s, s.Ser.PreKeySignalMessage, s.Ser.SignalMessage)
}

func (s *Store) Bundle(a Addr, b *prekey.Bundle) *Res {
	return call(s, func(r *Res) { r.Err = s.builder(a).ProcessBundle(b) })
}

func (s *Store) Encrypt(a Addr, plain []byte) *Res {
	return call(s, func(r *Res) {
		m, err := s.cipher(a).Encrypt(plain)
		if err != nil {
			r.Err = err
			return
		}
		r.Raw, r.Type, r.Extra = m.Serialize(), m.Type(), m
		r.Wire = append([]byte{}, r.Raw...)
	})
}

// ReceiveObj decrypts a message object that has not been sent as bytes.
func (s *Store) ReceiveObj(a Addr, obj interface{}) *Res {
	return call(s, func(r *Res) {
		var keys *message.Keys
		switch m := obj.(type) {
		case *protocol.PreKeySignalMessage:
			r.Plain, keys, r.Err = s.cipher(a).DecryptMessageReturnKey(m)
		case *protocol.SignalMessage:
			r.Plain, keys, r.Err = s.cipher(a).DecryptAndGetKey(m)
		}
		if r.Err == nil {
			r.Extra = keys
		} else {
			r.Plain = nil
		}
	})
}

// Receive parses and decrypts wire bytes; prekey says which kind they are.
func (s *Store) Receive(a Addr, wire []byte, pk bool) *Res {
	return call(s, func(r *Res) {
		in := append([]byte{}, wire...)
		var keys *message.Keys
		if pk {
			m, err := protocol.NewPreKeySignalMessageFromBytes(in, s.Ser.PreKeySignalMessage, s.Ser.SignalMessage)
			if err != nil {
				r.Err = err
				return
			}
			r.Plain, keys, r.Err = s.cipher(a).DecryptMessageReturnKey(m)
		} else {
			m, err := protocol.NewSignalMessageFromBytes(in, s.Ser.SignalMessage)
			if err != nil {
				r.Err = err
				return
			}
			r.Plain, keys, r.Err = s.cipher(a).DecryptAndGetKey(m)
		}
		if r.Err == nil {
			r.Extra = keys
		} else {
			r.Plain = nil
		}
		same(r, in, wire)
	})
}

// same says that an operation must have left its input as it was.
func same(r *Res, in, was []byte) {
	if !bytes.Equal(in, was) {
		r.Panic = "the operation has changed the message it was given"
	}
}

// ReceivePlain uses the variants without key.
func (s *Store) ReceivePlain(a Addr, wire []byte, pk bool) *Res {
	return call(s, func(r *Res) {
		in := append([]byte{}, wire...)
		if pk {
			m, err := protocol.NewPreKeySignalMessageFromBytes(in, s.Ser.PreKeySignalMessage, s.Ser.SignalMessage)
			if err != nil {
				r.Err = err
				return
			}
			r.Plain, r.Err = s.cipher(a).DecryptMessage(m)
		} else {
			m, err := protocol.NewSignalMessageFromBytes(in, s.Ser.SignalMessage)
			if err != nil {
				r.Err = err
				return
			}
			r.Plain, r.Err = s.plainCipher(a).Decrypt(m)
		}
		same(r, in, wire)
	})
}

// ReceiveRecord sets a session up and decrypts in separate steps on a record.
func (s *Store) ReceiveRecord(a Addr, wire []byte) *Res {
	return call(s, func(r *Res) {
		m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, wire...), s.Ser.PreKeySignalMessage, s.Ser.SignalMessage)
		if err != nil {
			r.Err = err
			return
		}
		rec := s.LoadSession(a.P()).Copy()
		id, err := s.builder(a).Process(rec, m)
		if err != nil {
			r.Err = err
			return
		}
		r.Plain, _, r.Err = s.plainCipher(a).DecryptWithRecord(rec, m.WhisperMessage())
		if r.Err != nil {
			r.Plain = nil
			return
		}
		s.StoreSession(a.P(), rec)
		if id != nil && !id.IsEmpty {
			s.RemovePreKey(id.Value)
		}
	})
}

// innerOf extracts the ordinary message of an initial message.
func innerOf(ser *serialize.Serializer, wire []byte) []byte {
	m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, wire...), ser.PreKeySignalMessage, ser.SignalMessage)
	if err != nil {
		return nil
	}
	return append([]byte{}, m.WhisperMessage().Serialize()...)
}

// ---------------------------------------------------------------- set-up

func keypair(r *Rng) *ecc.ECKeyPair {
	var k *ecc.ECKeyPair
	withRng(r, func() {
		var err error
		k, err = ecc.GenerateKeyPair()
		if err != nil {
			panic(harnessErr{err.Error()})
		}
	})
	return k
}

func identityPair(seed string) *identity.KeyPair {
	k := keypair(&Rng{Seed: "ik:" + seed})
	return identity.NewKeyPair(identity.NewKey(k.PublicKey()), k.PrivateKey())
}

func priv32(k *ecc.ECKeyPair) [32]byte { return k.PrivateKey().Serialize() }

// addPreKeys gives a party one-time prekeys and signed prekeys.
func addPreKeys(p *Party, ser *serialize.Serializer, pre []uint32, spre []uint32) {
	st := &Store{P: p, Ser: ser}
	for _, id := range pre {
		k := keypair(&Rng{Seed: opkSeed(p.A, id)})
		st.StorePreKey(id, record.NewPreKey(id, k, ser.PreKeyRecord))
	}
	for _, id := range spre {
		r := &Rng{Seed: "spk:" + p.A.Name + "/" + itoa(int(p.A.Dev)) + ":" + itoa(int(id))}
		k := keypair(r)
		var sig [64]byte
		withRng(r, func() { sig = ecc.CalculateSignature(p.IK.PrivateKey(), k.PublicKey().Serialize()) })
		st.StoreSignedPreKey(id, record.NewSignedPreKey(id, 1234567890, k, sig, ser.SignedPreKeyRecord))
	}
}

// bundleOf publishes a bundle; opk < 0 means none (-1: no id at all, -2: an empty one).
func bundleOf(p *Party, ser *serialize.Serializer, opk int64, spk uint32) *prekey.Bundle {
	sk := mustSPre(p.spre(spk), ser)
	if opk < 0 {
		return prekey.NewBundle(p.Reg, p.A.Dev, noOpk(opk), spk, nil, sk.KeyPair().PublicKey(), sk.Signature(), p.IK.PublicKey())
	}
	pk := mustPre(p.pre(uint32(opk)), ser)
	return bundleWith(p, ser, opk, pk.KeyPair().PublicKey(), spk)
}

// noOpk are the two ways to say that a bundle has no one-time prekey.
func noOpk(opk int64) *optional.Uint32 {
	if opk == -1 {
		return nil
	}
	return optional.NewEmptyUint32()
}

func bundleWith(p *Party, ser *serialize.Serializer, opk int64, key ecc.ECPublicKeyable, spk uint32) *prekey.Bundle {
	sk := mustSPre(p.spre(spk), ser)
	return prekey.NewBundle(p.Reg, p.A.Dev, optional.NewOptionalUint32(uint32(opk)), spk, key,
		sk.KeyPair().PublicKey(), sk.Signature(), p.IK.PublicKey())
}

func (p *Party) spre(id uint32) []byte {
	if p.Live {
		return p.LSPre[id].Serialize()
	}
	return p.SPre[id]
}
func (p *Party) pre(id uint32) []byte {
	if p.Live {
		return p.LPre[id].Serialize()
	}
	return p.Pre[id]
}

// ---------------------------------------------------------------- groups

// gbuilder and gcipher, like builder and cipher, live as long as live stores.
func (s *Store) gbuilder() *groups.SessionBuilder {
	if !s.P.Live {
		return groups.NewGroupSessionBuilder(s, s.Ser)
	}
	o := s.objs()
	if o.gb == nil {
		o.gb = groups.NewGroupSessionBuilder(s, s.Ser)
	}
	return o.gb
}

func (s *Store) gcipher(g GName) *groups.GroupCipher {
	if !s.P.Live {
		return groups.NewGroupCipher(s.gbuilder(), g.P(), s)
	}
	o := s.objs()
	if o.gciphers == nil {
		o.gciphers = map[GName]*groups.GroupCipher{}
	}
	if o.gciphers[g] == nil {
		o.gciphers[g] = groups.NewGroupCipher(s.gbuilder(), s.gname(g), s)
	}
	return o.gciphers[g]
}

// gname is the name of a group and sender, also kept as long as live stores.
func (s *Store) gname(g GName) *protocol.SenderKeyName {
	if !s.P.Live {
		return g.P()
	}
	o := s.objs()
	if o.gnames == nil {
		o.gnames = map[GName]*protocol.SenderKeyName{}
	}
	if o.gnames[g] == nil {
		o.gnames[g] = g.P()
	}
	return o.gnames[g]
}

func (s *Store) GCreate(g GName) *Res {
	return call(s, func(r *Res) {
		m, err := s.gbuilder().Create(s.gname(g))
		if err != nil {
			r.Err = err
			return
		}
		r.Raw = m.Serialize()
		r.Wire, r.Type, r.Extra = append([]byte{}, r.Raw...), m.Type(), m
	})
}

// GProcessObj processes the library's own object if there is one.
func (s *Store) GProcessObj(g GName, wire []byte, obj interface{}) *Res {
	m, ok := obj.(*protocol.SenderKeyDistributionMessage)
	if !ok {
		return s.GProcess(g, wire)
	}
	return call(s, func(r *Res) { s.gbuilder().Process(s.gname(g), m) })
}

func (s *Store) GDecryptObj(g GName, wire []byte, obj interface{}) *Res {
	m, ok := obj.(*protocol.SenderKeyMessage)
	if !ok {
		return s.GDecrypt(g, wire)
	}
	return call(s, func(r *Res) {
		r.Plain, r.Err = s.gcipher(g).Decrypt(m)
		if r.Err != nil {
			r.Plain = nil
		}
	})
}

func emptySK(ser *serialize.Serializer) *grecord.SenderKey {
	return grecord.NewSenderKey(ser.SenderKeyRecord, ser.SenderKeyState)
}

func (s *Store) GProcess(g GName, wire []byte) *Res {
	return call(s, func(r *Res) {
		m, err := protocol.NewSenderKeyDistributionMessageFromBytes(append([]byte{}, wire...), s.Ser.SenderKeyDistributionMessage)
		if err != nil {
			r.Err = err
			return
		}
		s.gbuilder().Process(s.gname(g), m)
	})
}

func (s *Store) GEncrypt(g GName, plain []byte) *Res {
	return call(s, func(r *Res) {
		m, err := s.gcipher(g).Encrypt(plain)
		if err != nil {
			r.Err = err
			return
		}
		sm := m.(*protocol.SenderKeyMessage)
		r.Raw = sm.SignedSerialize()
		r.Wire, r.Type, r.Extra = append([]byte{}, r.Raw...), sm.Type(), sm
	})
}

func (s *Store) GDecrypt(g GName, wire []byte) *Res {
	return call(s, func(r *Res) {
		in := append([]byte{}, wire...)
		m, err := protocol.NewSenderKeyMessageFromBytes(in, s.Ser.SenderKeyMessage)
		if err != nil {
			r.Err = err
			return
		}
		r.Plain, r.Err = s.gcipher(g).Decrypt(m)
		same(r, in, wire)
		if r.Err != nil {
			r.Plain = nil
		}
	})
}

func newSPre(id uint32, kp *ecc.ECKeyPair, sig [64]byte, ser *serialize.Serializer) []byte {
	return record.NewSignedPreKey(id, 1234567890, kp, sig, ser.SignedPreKeyRecord).Serialize()
}

func newPre(id uint32, kp *ecc.ECKeyPair, ser *serialize.Serializer) []byte {
	return record.NewPreKey(id, kp, ser.PreKeyRecord).Serialize()
}

func opkSeed(a Addr, id uint32) string {
	return "opk:" + a.Name + "/" + itoa(int(a.Dev)) + ":" + itoa(int(id))
}
