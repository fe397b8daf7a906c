package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func init() { register("W01", "exploration", runW01) }

// wmsg is a message seen through its accessors, in a form that can be compared.
type wmsg struct {
	fields string
	bytes  func() []byte
}

var w01Nums = []uint32{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 1<<21 - 1, 1 << 21, 0xffffff, 1 << 24, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func w01Signal(m *protocol.SignalMessage) wmsg {
	s := m.Structure()
	return wmsg{fmt.Sprintf("v%d/%d key %x ctr %d/%d prev %d ct %x/%x nil %v mac %x type %d", m.MessageVersion(), s.Version, m.SenderRatchetKey().Serialize(),
		m.Counter(), s.Counter, s.PreviousCounter, m.Body(), s.CipherText, m.Body() == nil, s.Mac, m.Type()), m.Serialize}
}

func w01PreKey(m *protocol.PreKeySignalMessage) wmsg {
	opk := "none"
	if p := m.PreKeyID(); p != nil && !p.IsEmpty {
		opk = fmt.Sprint(p.Value)
	}
	return wmsg{fmt.Sprintf("v%d reg %d opk %s spk %d base %x ik %x inner {%s} type %d", m.MessageVersion(), m.RegistrationID(), opk, m.SignedPreKeyID(),
		m.BaseKey().Serialize(), m.IdentityKey().PublicKey().Serialize(), w01Signal(m.WhisperMessage()).fields, m.Type()), m.Serialize}
}

func w01Group(m *protocol.SenderKeyMessage) wmsg {
	sig := m.Signature()
	return wmsg{fmt.Sprintf("v%d id %d it %d ct %x sig %x type %d", m.Version(), m.KeyID(), m.Iteration(), m.Ciphertext(), sig[:], m.Type()), m.SignedSerialize}
}

func w01Dist(m *protocol.SenderKeyDistributionMessage) wmsg {
	return wmsg{fmt.Sprintf("id %d it %d chain %x key %x type %d", m.ID(), m.Iteration(), m.ChainKey(), m.SignatureKey().Serialize(), m.Type()), m.Serialize}
}

// w01Parse reads bytes of a kind: signal, prekey, group, dist.
func w01Parse(kind string, ser *serialize.Serializer, b []byte) (w wmsg, err error) {
	switch kind {
	case "signal":
		m, e := protocol.NewSignalMessageFromBytes(b, ser.SignalMessage)
		if e != nil {
			return w, e
		}
		return w01Signal(m), nil
	case "prekey":
		m, e := protocol.NewPreKeySignalMessageFromBytes(b, ser.PreKeySignalMessage, ser.SignalMessage)
		if e != nil {
			return w, e
		}
		return w01PreKey(m), nil
	case "group":
		m, e := protocol.NewSenderKeyMessageFromBytes(b, ser.SenderKeyMessage)
		if e != nil {
			return w, e
		}
		return w01Group(m), nil
	case "dist":
		m, e := protocol.NewSenderKeyDistributionMessageFromBytes(b, ser.SenderKeyDistributionMessage)
		if e != nil {
			return w, e
		}
		return w01Dist(m), nil
	}
	panic(harnessErr{kind})
}

// w01Trip parses what a message serializes to and compares.
func w01Trip(k *Case, kind, what string, ser *serialize.Serializer, w wmsg, want []byte) {
	r := call(nil, func(*Res) {
		out := w.bytes()
		if want != nil && !bytes.Equal(out, want) {
			k.Failf("%s %s: the bytes are %x, not %x of the wire format", kind, what, out, want)
			return
		}
		if got := w.fields; got == "" {
			return
		}
		keep := append([]byte{}, out...)
		in, same := guarded(out)
		for i := range out {
			out[i] ^= 0xff
		}
		if !bytes.Equal(w.bytes(), keep) {
			k.Failf("%s %s: serializing again after changing the first result gives other bytes", kind, what)
		}
		p, err := w01Parse(kind, ser, in)
		if err != nil {
			k.Failf("%s %s: its own bytes are refused: %v", kind, what, err)
			return
		}
		if !same() {
			k.Failf("%s %s: parsing changes the bytes", kind, what)
		}
		for i := range in {
			in[i] ^= 0xff
		}
		if p.fields != w.fields {
			k.Failf("%s %s: parsed as\n %s instead of\n %s", kind, what, p.fields, w.fields)
		}
		if b := p.bytes(); !bytes.Equal(b, keep) {
			k.Failf("%s %s: serialized again it is %x instead of %x", kind, what, b, keep)
		}
	})
	if r.Panic != "" {
		k.Failf("%s %s: panic: %s", kind, what, r.Panic)
	}
	k.Eval(1)
}

func runW01(c *Ctx) {
	c.Rule("every field of every message kind at all its borders (numbers at varint borders, all pairs; texts of every length in range; one-time prekey id absent, zero and set), both serializers: bytes, parse, fields, bytes again;")
	c.Rule("every version byte and every subset of present fields, and keys of every type and shorter length, for refusal.")
	pub := func(i int) ecc.ECPublicKeyable { return ecc.NewDjbECPublicKey(refKey(700 + i).Pub) }
	ik := func(i int) *identity.Key { return identity.NewKey(pub(10 + i)) }
	nums := w01Nums
	mk := func(k *Case, js bool, ser *serialize.Serializer, ver int, ctr, prev uint32, key int, ct []byte) *protocol.SignalMessage {
		macKey := pattern(int(ctr), 32)
		gct, same := guarded(ct)
		m, err := protocol.NewSignalMessage(ver, ctr, prev, macKey, pub(key), gct, ik(0), ik(1), ser.SignalMessage)
		if err != nil {
			k.Failf("a message cannot be made: %v", err)
			return nil
		}
		if !same() {
			k.Failf("making a message changes its ciphertext")
		}
		if err := m.VerifyMac(ver, ik(0), ik(1), macKey); err != nil {
			k.Failf("the tag of a message just made does not verify: %v", err)
		}
		s := m.Structure()
		if s.Counter != ctr || s.PreviousCounter != prev || !bytes.Equal(s.CipherText, ct) || s.Version != ver || len(s.Mac) != 8 ||
			!bytes.Equal(m.SenderRatchetKey().Serialize(), pub(key).Serialize()) {
			k.Failf("a message has other fields than it was made of: %+v", s)
		}
		if !js && ver == 3 {
			body := ref.EncodeSignalBody(pub(key).Serialize(), ctr, prev, ct)
			if !bytes.Equal(s.Mac, ref.SignalMAC(macKey, ik(0).PublicKey().Serialize(), ik(1).PublicKey().Serialize(), body)) {
				k.Failf("the tag is not the wire format's")
			}
		}
		return m
	}
	sigWire := func(js bool, m *protocol.SignalMessage) []byte {
		if js {
			return nil
		}
		s := m.Structure()
		return append(append([]byte{byte(s.Version<<4 | 3)}, ref.EncodeSignalBody(s.RatchetKey, s.Counter, s.PreviousCounter, s.CipherText)...), s.Mac...)
	}
	lens := []int{}
	for i := 0; i <= c.Q(300, 3000); i++ {
		lens = append(lens, i)
	}
	for _, n := range []int{16383, 16384, 16385, 65535, 65536, 100000} {
		lens = append(lens, n, n-40, n-64, n-72)
	}
	n := len(nums)
	var fs []func()
	for _, js := range []bool{false, true} {
		js := js
		ser := serializer(js)
		tag := map[bool]string{false: "binary ", true: "json "}[js]
		fs = append(fs, func() {
			c.Each(tag+"ordinary", n*n, itoa, func(k *Case, i int) {
				for ver := 2; ver <= 3; ver++ {
					for key := 0; key < 3; key++ {
						m := mk(k, js, ser, ver, nums[i/n], nums[i%n], key, pattern(i, 16+i%33))
						if m == nil {
							return
						}
						w01Trip(k, "signal", fmt.Sprint(nums[i/n], " ", nums[i%n]), ser, w01Signal(m), sigWire(js, m))
					}
				}
				k.Nontrivial(1)
			})
			c.Each(tag+"ordinary lengths", len(lens), func(i int) string { return itoa(lens[i]) }, func(k *Case, i int) {
				for v := 0; v < 4; v++ {
					ct := pattern(v, lens[i])
					switch v {
					case 1:
						ct = bytes.Repeat([]byte{0}, lens[i])
					case 2:
						ct = bytes.Repeat([]byte{0xff}, lens[i])
					}
					m := mk(k, js, ser, 3, 1, 0, 0, ct)
					if m == nil {
						return
					}
					w01Trip(k, "signal", fmt.Sprint(lens[i], " bytes"), ser, w01Signal(m), sigWire(js, m))
				}
				k.Nontrivial(1)
			})
			// every byte of the tag with every value (the tag is what ends the bytes)
			c.Each(tag+"tags", 8*256, itoa, func(k *Case, i int) {
				s := &protocol.SignalMessageStructure{RatchetKey: pub(0).Serialize(), Counter: 3, PreviousCounter: 4, CipherText: pattern(2, 20), Version: 3, Mac: pattern(7, 8)}
				s.Mac[i/256] = byte(i)
				m, err := protocol.NewSignalMessageFromStruct(s, ser.SignalMessage)
				if err != nil {
					k.Failf("a message cannot be made: %v", err)
					return
				}
				w01Trip(k, "signal", "tag", ser, w01Signal(m), sigWire(js, m))
				k.Nontrivial(1)
			})
			// initial messages
			opks := []*optional.Uint32{nil, optional.NewEmptyUint32()}
			for _, v := range nums {
				opks = append(opks, optional.NewOptionalUint32(v))
			}
			prekey := func(k *Case, reg uint32, opk *optional.Uint32, spk uint32, b, id int, ctLen int) {
				inner := mk(k, js, ser, 3, reg, spk, b, pattern(b, ctLen))
				if inner == nil {
					return
				}
				for ver := 2; ver <= 3; ver++ {
					m, err := protocol.NewPreKeySignalMessage(ver, reg, opk, spk, pub(b), ik(id), inner, ser.PreKeySignalMessage, ser.SignalMessage)
					if err != nil {
						k.Failf("an initial message cannot be made: %v", err)
						return
					}
					none := opk == nil || opk.IsEmpty
					if m.RegistrationID() != reg || m.SignedPreKeyID() != spk || m.MessageVersion() != ver || !bytes.Equal(m.BaseKey().Serialize(), pub(b).Serialize()) ||
						!bytes.Equal(m.IdentityKey().PublicKey().Serialize(), ik(id).PublicKey().Serialize()) ||
						(m.PreKeyID() == nil || m.PreKeyID().IsEmpty) != none || !none && m.PreKeyID().Value != opk.Value {
						k.Failf("an initial message has other fields than it was made of")
					}
					var want []byte
					if !js {
						p := ref.PreKeySignal{HasPreKey: !none, SignedID: spk, RegID: reg, Base: pub(b).Serialize(), Identity: ik(id).PublicKey().Serialize(), Message: sigWire(js, inner)}
						if !none {
							p.PreKeyID = opk.Value
						}
						want = p.Encode()
						want[0] = byte(ver<<4 | 3)
					}
					w01Trip(k, "prekey", fmt.Sprint(reg, " ", opk, " ", spk), ser, w01PreKey(m), want)
				}
			}
			c.Each(tag+"initial", n*len(opks), itoa, func(k *Case, i int) {
				for _, spk := range nums {
					prekey(k, nums[i%n], opks[i/n], spk, i%3, i%2, 16)
				}
				k.Nontrivial(1)
			})
			c.Each(tag+"initial lengths", len(lens), func(i int) string { return itoa(lens[i]) }, func(k *Case, i int) {
				prekey(k, 5, opks[i%3], 7, i%3, i%2, lens[i])
				k.Nontrivial(1)
			})
			// group messages
			sk := refKey(720)
			group := func(k *Case, id, it uint32, ct []byte, seed int) {
				withRng(&Rng{Seed: fmt.Sprint("w01:", seed)}, func() {
					gct, same := guarded(ct)
					m := protocol.NewSenderKeyMessage(id, it, gct, ecc.NewDjbECPrivateKey(sk.Priv), ser.SenderKeyMessage)
					if !same() {
						k.Failf("making a group message changes its ciphertext")
					}
					if m.KeyID() != id || m.Iteration() != it || !bytes.Equal(m.Ciphertext(), ct) || m.Version() != 3 {
						k.Failf("a group message has other fields than it was made of")
					}
					if !ref.Verify(sk.Pub, m.Serialize(), m.Signature()) {
						k.Failf("the signature of a group message does not verify")
					}
					var want []byte
					if !js {
						sig := m.Signature()
						want = ref.EncodeSenderKeyMsg(id, it, ct)
						if !bytes.Equal(m.Serialize(), want) {
							k.Failf("the signed bytes are not the wire format's")
						}
						want = append(want, sig[:]...)
					}
					w01Trip(k, "group", fmt.Sprint(id, " ", it), ser, w01Group(m), want)
					p, err := w01Parse("group", ser, m.SignedSerialize())
					_ = p
					if err == nil {
						if q, err := protocol.NewSenderKeyMessageFromBytes(m.SignedSerialize(), ser.SenderKeyMessage); err == nil && !bytes.Equal(q.Serialize(), m.Serialize()) {
							k.Failf("the signed part of a parsed group message is another")
						}
					}
				})
			}
			c.Each(tag+"group", n*n, itoa, func(k *Case, i int) {
				group(k, nums[i/n], nums[i%n], pattern(i, 32), i)
				k.Nontrivial(1)
			})
			c.Each(tag+"group lengths", len(lens), func(i int) string { return itoa(lens[i]) }, func(k *Case, i int) {
				for v := 0; v < 3; v++ {
					ct := pattern(v, lens[i])
					if v == 1 {
						ct = make([]byte, lens[i])
					}
					group(k, 4, 1, ct, i*3+v)
				}
				k.Nontrivial(1)
			})
			dist := func(k *Case, id, it uint32, chain []byte, key int) {
				m := protocol.NewSenderKeyDistributionMessage(id, it, chain, pub(key), ser.SenderKeyDistributionMessage)
				if m.ID() != id || m.Iteration() != it || !bytes.Equal(m.ChainKey(), chain) || !bytes.Equal(m.SignatureKey().Serialize(), pub(key).Serialize()) {
					k.Failf("a distribution message has other fields than it was made of")
				}
				var want []byte
				if !js {
					want = (&ref.Distribution{ID: id, Iter: it, Chain: chain, Signing: pub(key).Serialize()}).Encode()
				}
				w01Trip(k, "dist", fmt.Sprint(id, " ", it), ser, w01Dist(m), want)
			}
			c.Each(tag+"distribution", n*n, itoa, func(k *Case, i int) {
				for key := 0; key < 3; key++ {
					dist(k, nums[i/n], nums[i%n], pattern(i, 32), key)
				}
				k.Nontrivial(1)
			})
			c.Each(tag+"distribution lengths", 300, itoa, func(k *Case, i int) {
				dist(k, 1, 2, pattern(i, i), 0)
				k.Nontrivial(1)
			})
			w01Refusals(c, tag, js, ser)
		})
	}
	c.Par(fs...)
}

// w01Refusals: versions, missing fields and malformed keys.
func w01Refusals(c *Ctx, tag string, js bool, ser *serialize.Serializer) {
	key := ref.Pub33(refKey(730).Pub)
	innerOK := func() []byte {
		m, err := protocol.NewSignalMessageFromStruct(&protocol.SignalMessageStructure{RatchetKey: key, CipherText: []byte("0123456789abcdef"), Version: 3, Mac: pattern(1, 8)}, ser.SignalMessage)
		if err != nil {
			return nil
		}
		return m.Serialize()
	}()
	type fld struct {
		name string
		num  int
		val  interface{} // uint64 or []byte
		req  bool
		key  bool
	}
	kinds := map[string][]fld{
		"signal": {{"RatchetKey", 1, key, true, true}, {"Counter", 2, uint64(5), false, false}, {"PreviousCounter", 3, uint64(6), false, false}, {"CipherText", 4, []byte("0123456789abcdef"), true, false}},
		"prekey": {{"PreKeyID", 1, uint64(9), false, false}, {"BaseKey", 2, key, true, true}, {"IdentityKey", 3, key, true, true}, {"Message", 4, innerOK, true, false}, {"RegistrationID", 5, uint64(8), false, false}, {"SignedPreKeyID", 6, uint64(7), false, false}},
		"group":  {{"ID", 1, uint64(5), false, false}, {"Iteration", 2, uint64(6), false, false}, {"CipherText", 3, []byte("0123456789abcdef"), true, false}},
		"dist":   {{"ID", 1, uint64(5), false, false}, {"Iteration", 2, uint64(6), false, false}, {"ChainKey", 3, pattern(1, 32), true, false}, {"SigningKey", 4, key, true, true}},
	}
	tails := map[string]int{"signal": 8, "group": 64}
	// build writes a message of the kind out of fields; repl replaces one's value.
	build := func(kind string, ver int, have func(i int) bool, repl int, val []byte) []byte {
		fs := kinds[kind]
		if js {
			m := map[string]interface{}{"Version": ver}
			for i, f := range fs {
				if !have(i) {
					continue
				}
				var v interface{} = f.val
				if i == repl {
					v = val
				}
				if f.name == "PreKeyID" {
					v = map[string]interface{}{"Value": f.val, "IsEmpty": false}
				}
				m[f.name] = v
			}
			if kind == "signal" {
				m["Mac"] = pattern(1, 8)
			}
			if kind == "group" {
				m["Signature"] = pattern(1, 64)
			}
			b, _ := json.Marshal(m)
			return b
		}
		b := []byte{byte(ver)}
		for i, f := range fs {
			if !have(i) {
				continue
			}
			if i == repl {
				b = ref.BytesField(b, f.num, val)
			} else if v, ok := f.val.([]byte); ok {
				b = ref.BytesField(b, f.num, v)
			} else {
				b = ref.VarintField(b, f.num, f.val.(uint64))
			}
		}
		return append(b, pattern(1, tails[kind])...)
	}
	all := func(int) bool { return true }
	v3, v2 := 3, 2
	if !js {
		v3, v2 = 0x33, 0x23
	}
	parse := func(k *Case, kind, what string, b []byte) (ok bool) {
		r := call(nil, func(*Res) {
			_, err := w01Parse(kind, ser, b)
			ok = err == nil
		})
		if r.Panic != "" {
			k.Failf("%s %s: panic: %s", kind, what, r.Panic)
		}
		k.Eval(1)
		return
	}
	for _, kind := range []string{"signal", "prekey", "group", "dist"} {
		kind := kind
		fs := kinds[kind]
		c.Each(tag+kind+" versions", 256+60, itoa, func(k *Case, i int) {
			v := i
			if js {
				v = i - 50
			} else if i > 255 {
				return
			}
			ver := v
			if !js {
				ver = v >> 4
			}
			ok := parse(k, kind, fmt.Sprint("version ", v), build(kind, v, all, -1, nil))
			if ver < 2 || ver > 3 {
				if ok {
					k.Failf("a %s message of version %d (%d) is accepted", kind, ver, v)
				}
				k.c.Outcome("version refused")
			} else if !ok && (js || v == 0x23 || v == 0x33) {
				k.Failf("a %s message of version %d is refused", kind, ver)
			}
			k.Nontrivial(1)
			if kind == "prekey" { // the version of the inner message
				in := append([]byte{}, innerOK...)
				if js {
					var m map[string]interface{}
					json.Unmarshal(in, &m)
					m["Version"] = v
					in, _ = json.Marshal(m)
				} else if len(in) > 0 {
					in[0] = byte(v)
				}
				ok := parse(k, kind, fmt.Sprint("inner version ", v), build(kind, v3, all, 3, in))
				if (ver < 2 || ver > 3) && ok {
					k.Failf("an initial message with an inner message of version %d is accepted", ver)
				}
			}
		})
		c.Each(tag+kind+" fields", 1<<len(fs), itoa, func(k *Case, i int) {
			missing := ""
			for j, f := range fs {
				if i>>j&1 == 0 && f.req {
					missing = f.name
				}
			}
			for _, v := range []int{v3, v2} {
				ok := parse(k, kind, "fields", build(kind, v, func(j int) bool { return i>>j&1 == 1 }, -1, nil))
				if missing != "" && ok {
					k.Failf("a %s message without %s is accepted", kind, missing)
				}
				if i == 1<<len(fs)-1 && !ok {
					k.Failf("a complete %s message is refused", kind)
				}
			}
			k.Nontrivial(1)
		})
		for j, f := range fs {
			if !f.key {
				continue
			}
			c.Each(tag+kind+" "+f.name, 256+33, itoa, func(k *Case, i int) {
				v := append([]byte{}, key...)
				if i < 256 {
					v[0] = byte(i)
				} else {
					v = v[:i-256]
				}
				ok := parse(k, kind, "key", build(kind, v3, all, j, v))
				if (i != 5) && ok {
					k.Failf("a %s message whose %s is %x is accepted", kind, f.name, v)
				}
				if i == 5 && !ok {
					k.Failf("a %s message is refused", kind)
				}
				k.Nontrivial(1)
			})
		}
		if kind == "prekey" { // the inner message cut off
			c.Each(tag+"inner cut", len(innerOK), itoa, func(k *Case, i int) {
				limit := len(innerOK)
				if !js {
					limit = 1 + 35 + 8 // without key and ciphertext it is not a message
				}
				if ok := parse(k, kind, "inner", build(kind, v3, all, 3, innerOK[:i])); ok && i < limit {
					k.Failf("an initial message with the first %d bytes of its inner message is accepted", i)
				}
				k.Nontrivial(1)
			})
		}
	}
}
