package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// What threads do: each body works on data of its own (copy 0, 1, 2), but all share a
// serializer, a logger, the user's identity key pair and, with stores in memory, the
// signed prekey object.

type fixParty struct {
	A    Addr
	IK   [32]byte
	Reg  uint32
	Rng  Rng
	Sess map[Addr][]byte
	Pre  map[uint32][]byte
	SPre map[uint32][]byte
	Ids  map[Addr][]byte
	SK   map[GName][]byte
}

type fixBundle struct {
	Reg, Dev       uint32
	Opk            int64
	Spk            uint32
	OpkPub, SpkPub []byte
	Sig            [64]byte
	IK             []byte
}

type fixBody struct {
	P     fixParty
	Peer  Addr
	Wire  [][]byte
	PK    bool
	Bun   fixBundle
	G     GName
	Extra [][]byte
	Want  [][]byte // plaintexts
}

type fixture map[string][]fixBody // "body/json" -> copies

const fixCopies = 3

func fixOf(p *Party) fixParty {
	return fixParty{p.A, p.IK.PrivateKey().Serialize(), p.Reg, p.Rng, p.Sess, p.Pre, p.SPre, p.Ids, p.SK}
}

// shared hands out one object per stored bytes.
type shared struct {
	ser  *serialize.Serializer
	ik   map[[32]byte]*identity.KeyPair
	spre map[string]*record.SignedPreKey
}

func (f *fixParty) party(sh *shared, live bool) *Party {
	p := &Party{A: f.A, Reg: f.Reg, Rng: f.Rng, Sess: cp(f.Sess), Pre: cp(f.Pre), SPre: cp(f.SPre), Ids: cp(f.Ids), SK: cp(f.SK)}
	if sh.ik[f.IK] == nil {
		pub := refPub(f.IK)
		sh.ik[f.IK] = identity.NewKeyPair(identity.NewKey(ecc.NewDjbECPublicKey(pub)), ecc.NewDjbECPrivateKey(f.IK))
	}
	p.IK = sh.ik[f.IK]
	if live {
		p.ToLive(sh.ser)
		for k, v := range f.SPre {
			if sh.spre[string(v)] == nil {
				sh.spre[string(v)] = p.LSPre[k]
			}
			p.LSPre[k] = sh.spre[string(v)]
		}
	}
	return p
}

func (b *fixBundle) bundle() (*prekey.Bundle, error) {
	ik, err := ecc.DecodePoint(b.IK, 0)
	if err != nil {
		return nil, err
	}
	spk, err := ecc.DecodePoint(b.SpkPub, 0)
	if err != nil {
		return nil, err
	}
	if b.Opk < 0 {
		return prekey.NewBundle(b.Reg, b.Dev, nil, b.Spk, nil, spk, b.Sig, identity.NewKey(ik)), nil
	}
	opk, err := ecc.DecodePoint(b.OpkPub, 0)
	if err != nil {
		return nil, err
	}
	return prekey.NewBundle(b.Reg, b.Dev, optOf(b.Opk), b.Spk, opk, spk, b.Sig, identity.NewKey(ik)), nil
}

// body is what a thread executes. It returns everything it saw, and an error.
type cbody struct {
	name string
	prep func(copy int, js bool) fixBody
	run  func(f *fixBody, st *Store) ([][]byte, error)
}

func resErr(rs ...*Res) error {
	for _, r := range rs {
		if !r.OK() {
			return fmt.Errorf("%v", r)
		}
	}
	return nil
}

func cWorld(name string, copy int, js bool, pl map[[2]int][]int64) *SessCfg {
	return &SessCfg{Name: "fixture", Parties: []Addr{alice, {"peer-" + name + itoa(copy), 1}}, JSON: js, Plan: pl, Spk: 7,
		Pres: []uint32{1, 2}, Ident: func(i int) string {
			if i == 0 {
				return "alice-shared"
			}
			return name + itoa(copy)
		}, Payload: func(m *MMsg) []byte { return []byte(fmt.Sprintf("%s %d says %d", name, copy, m.Seq)) }}
}

// spoil changes the MAC or signature of a message.
func spoil(b []byte, js bool) []byte {
	if !js {
		return flip(b, -3, 1)
	}
	for _, f := range []string{`"Mac":"`, `"Signature":"`} {
		if i := bytes.Index(b, []byte(f)); i >= 0 {
			o := append([]byte{}, b...)
			if i += len(f) + 2; o[i] == 'A' {
				o[i] = 'B'
			} else {
				o[i] = 'A'
			}
			return o
		}
	}
	panic(harnessErr{"no signature in " + string(b)})
}

func sessBody(w *SW) fixBody { return fixBody{P: fixOf(w.P[0]), Peer: w.addr(1)} }

var cbodies = []cbody{
	{"encrypt", func(n int, js bool) fixBody {
		cfg := cWorld("encrypt", n, js, plan(0, 1, 1))
		cfg.Setup = established()
		return sessBody(newSW(cfg, false))
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		a := st.Encrypt(f.Peer, []byte("first"))
		b := st.Encrypt(f.Peer, []byte("second text, longer than the first one"))
		return [][]byte{a.Wire, b.Wire}, resErr(a, b)
	}},
	{"decrypt", func(n int, js bool) fixBody {
		cfg := cWorld("decrypt", n, js, plan(0, 1, 1))
		cfg.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 1}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0})
		w := newSW(cfg, false)
		f := sessBody(w)
		for _, i := range []int{3, 1} {
			m := w.Msgs[[3]int{1, 0, i}]
			f.Wire, f.Want = append(f.Wire, m.Wire), append(f.Want, m.Plain)
		}
		return f
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		a := st.Receive(f.Peer, f.Wire[0], false)
		b := st.ReceivePlain(f.Peer, f.Wire[1], false)
		if err := resErr(a, b); err != nil {
			return nil, err
		}
		// the key that was handed out opens the message again
		c := call(st, func(r *Res) {
			m, err := protocol.NewSignalMessageFromBytes(append([]byte{}, f.Wire[0]...), st.Ser.SignalMessage)
			if err != nil {
				r.Err = err
				return
			}
			r.Plain, r.Err = st.cipher(f.Peer).DecryptWithKey(m, a.Extra.(*message.Keys))
		})
		if !bytes.Equal(a.Plain, f.Want[0]) || !bytes.Equal(b.Plain, f.Want[1]) || !bytes.Equal(c.Plain, f.Want[0]) {
			return nil, fmt.Errorf("decrypts to %q, %q and %q", a.Plain, b.Plain, c.Plain)
		}
		return [][]byte{a.Plain, b.Plain}, resErr(c)
	}},
	{"initial", func(n int, js bool) fixBody {
		cfg := cWorld("initial", n, js, plan(1, 0, 1))
		cfg.Setup = []SOp{{'B', 1, 0, 0}, {'S', 1, 0, 0}}
		w := newSW(cfg, false)
		f := sessBody(w)
		m := w.Msgs[[3]int{1, 0, 0}]
		f.Wire, f.PK, f.Want = [][]byte{m.Wire}, true, [][]byte{m.Plain}
		return f
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		a := st.Receive(f.Peer, f.Wire[0], true)
		b := st.Encrypt(f.Peer, []byte("an answer"))
		if a.OK() && !bytes.Equal(a.Plain, f.Want[0]) {
			return nil, fmt.Errorf("decrypts to %q", a.Plain)
		}
		return [][]byte{a.Plain, b.Wire}, resErr(a, b)
	}},
	{"bundle", func(n int, js bool) fixBody {
		cfg := cWorld("bundle", n, js, plan(0, 1, 1))
		w := newSW(cfg, false)
		f := sessBody(w)
		b := w.Bun["1/1"]
		f.Bun = fixBundle{b.RegistrationID(), b.DeviceID(), 1, b.SignedPreKeyID(), b.PreKey().Serialize(), b.SignedPreKey().Serialize(), b.SignedPreKeySignature(), b.IdentityKey().PublicKey().Serialize()}
		return f
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		b, err := f.Bun.bundle()
		if err != nil {
			return nil, err
		}
		r := st.Bundle(f.Peer, b)
		e := st.Encrypt(f.Peer, []byte("hello"))
		return [][]byte{e.Wire}, resErr(r, e)
	}},
	{"group-send", func(n int, js bool) fixBody {
		return fixBody{P: fixOf(newParty(alice, identityPair("alice-shared"), 1)), G: GName{"group" + itoa(n), alice}}
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		a := st.GCreate(f.G)
		b := st.GEncrypt(f.G, []byte("to all"))
		c := st.GCreate(f.G)
		return [][]byte{a.Wire, b.Wire, c.Wire}, resErr(a, b, c)
	}},
	{"group-receive", func(n int, js bool) fixBody {
		ser := serializer(js)
		p := newParty(Addr{"sender", uint32(n)}, identityPair("sender"), 1)
		st := &Store{P: p, Ser: ser}
		g := GName{"group", p.A}
		f := fixBody{P: fixOf(newParty(alice, identityPair("alice-shared"), 1)), G: g}
		f.Wire = append(f.Wire, st.GCreate(g).Wire)
		for i := 0; i < 3; i++ {
			pl := []byte(fmt.Sprintf("group message %d of sender %d", i, n))
			f.Wire, f.Want = append(f.Wire, st.GEncrypt(g, pl).Wire), append(f.Want, pl)
		}
		return f
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		r := []*Res{st.GProcess(f.G, f.Wire[0]), st.GDecrypt(f.G, f.Wire[3]), st.GDecrypt(f.G, f.Wire[1])}
		if err := resErr(r...); err != nil {
			return nil, err
		}
		if !bytes.Equal(r[1].Plain, f.Want[2]) || !bytes.Equal(r[2].Plain, f.Want[0]) {
			return nil, fmt.Errorf("decrypts to %q and %q", r[1].Plain, r[2].Plain)
		}
		return [][]byte{r[1].Plain, r[2].Plain}, nil
	}},
	{"sign", func(n int, js bool) fixBody {
		return fixBody{P: fixOf(newParty(alice, identityPair("alice-shared"), 1)), Extra: [][]byte{[]byte("message to sign " + itoa(n))}}
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		var s [64]byte
		ok := false
		r := call(st, func(r *Res) {
			s = ecc.CalculateSignature(st.P.IK.PrivateKey(), f.Extra[0])
			ok = ecc.VerifySignature(st.P.IK.PublicKey().PublicKey(), f.Extra[0], s)
		})
		if !ok {
			return nil, fmt.Errorf("the signature is not valid")
		}
		return [][]byte{s[:]}, resErr(r)
	}},
	{"verify", func(n int, js bool) fixBody {
		ik := identityPair("alice-shared")
		msg := []byte("signed message " + itoa(n))
		var s [64]byte
		withRng(&Rng{Seed: "verify" + itoa(n)}, func() { s = ecc.CalculateSignature(ik.PrivateKey(), msg) })
		return fixBody{P: fixOf(newParty(alice, ik, 1)), Extra: [][]byte{msg, s[:]}}
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		var a, b bool
		r := call(st, func(r *Res) {
			pub := st.P.IK.PublicKey().PublicKey()
			a = ecc.VerifySignature(pub, f.Extra[0], arr64(f.Extra[1]))
			b = ecc.VerifySignature(pub, append(f.Extra[0][:1:1], f.Extra[0]...), arr64(f.Extra[1]))
		})
		if !a || b {
			return nil, fmt.Errorf("genuine signature %v, false one %v", a, b)
		}
		return nil, resErr(r)
	}},
	{"generate", func(n int, js bool) fixBody {
		p := newParty(alice, identityPair("alice-shared"), 1)
		p.Rng.Seed = "generate" + itoa(n)
		return fixBody{P: fixOf(p)}
	}, func(f *fixBody, st *Store) (out [][]byte, err error) {
		var ok bool
		r := call(st, func(r *Res) {
			pks, e := keyhelper.GeneratePreKeys(1, 2, st.Ser.PreKeyRecord)
			if e != nil {
				r.Err = e
				return
			}
			for _, k := range pks {
				out = append(out, k.Serialize())
			}
			sp, e := keyhelper.GenerateSignedPreKey(st.P.IK, 3, st.Ser.SignedPreKeyRecord)
			if e != nil {
				r.Err = e
				return
			}
			sig := sp.Signature()
			pub := sp.KeyPair().PublicKey().Serialize()
			out = append(out, pub, sig[:], keyhelper.GenerateSenderKey())
			ok = ecc.VerifySignature(st.P.IK.PublicKey().PublicKey(), pub, sig)
		})
		if !ok && r.OK() {
			return nil, fmt.Errorf("the signed prekey is not signed")
		}
		return out, resErr(r)
	}},
	{"records", func(n int, js bool) fixBody {
		cfg := cWorld("records", n, js, plan(0, 1, 1))
		cfg.Setup = append(established(), SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 2})
		w := newSW(cfg, false)
		st := w.store(0)
		g := GName{"group" + itoa(n), alice}
		st.GCreate(g)
		f := sessBody(w)
		f.G = g
		return f
	}, func(f *fixBody, st *Store) (out [][]byte, err error) {
		r := call(st, func(r *Res) {
			s, e := record.NewSessionFromBytes(f.P.Sess[f.Peer], st.Ser.Session, st.Ser.State)
			if e != nil {
				r.Err = e
				return
			}
			c := s.Copy()
			out = append(out, s.Serialize(), c.Serialize(), s.SessionState().Serialize())
			out = append(out, mustPre(f.P.Pre[2], st.Ser).Serialize(), mustSPre(f.P.SPre[7], st.Ser).Serialize(), mustSK(f.P.SK[f.G], st.Ser).Serialize())
		})
		return out, resErr(r)
	}},
	{"primitives", func(n int, js bool) fixBody {
		f := fixBody{P: fixOf(newParty(alice, identityPair("alice-shared"), 1))}
		eph, dev := refKey(70+n), refKey(80+n)
		f.Extra = [][]byte{pattern(n, 40), []byte(provEnvelope(eph, dev.Pub, pattern(n, 16), []byte("provisioning text "+itoa(n)), nil)), dev.Priv[:]}
		return f
	}, func(f *fixBody, st *Store) (out [][]byte, err error) {
		r := call(st, func(r *Res) {
			h, e := kdf.DeriveSecrets(f.Extra[0], nil, f.Extra[0][:7], 80)
			if e != nil {
				r.Err = e
				return
			}
			ct, e := cipher.EncryptCbc(h[:16], h[16:48], f.Extra[0])
			if e != nil {
				r.Err = e
				return
			}
			pt, e := cipher.DecryptCbc(h[:16], h[16:48], append([]byte{}, ct...))
			if e != nil || !bytes.Equal(pt, f.Extra[0]) {
				r.Err = fmt.Errorf("decrypts to %x, %v", pt, e)
				return
			}
			ct1, e := cipher.Encrypt(h[:16], h[16:48], f.Extra[0])
			if e != nil {
				r.Err = e
				return
			}
			pt1, e := cipher.Decrypt(h[:16], h[16:48], append([]byte{}, ct1...))
			if e != nil || !bytes.Equal(pt1, f.Extra[0]) {
				r.Err = fmt.Errorf("decrypts to %x, %v", pt1, e)
				return
			}
			ct2, e := cipher.EncryptCbc(nil, h[16:48], f.Extra[0])
			if e != nil {
				r.Err = e
				return
			}
			pt2, e := cipher.DecryptCbc(nil, h[16:48], append([]byte{}, ct2...))
			if e != nil || !bytes.Equal(pt2, f.Extra[0]) {
				r.Err = fmt.Errorf("decrypts to %x, %v", pt2, e)
				return
			}
			env, e := openProv(f.Extra[2], string(f.Extra[1]))
			if e != nil {
				r.Err = e
				return
			}
			d := fingerprint.NewDisplay(h[:40], h[40:]).DisplayText()
			out = append(out, h, ct, ct1, ct2, []byte(env), []byte(d))
		})
		return out, resErr(r)
	}},
	{"refuse", func(n int, js bool) fixBody {
		cfg := cWorld("refuse", n, js, plans(plan(0, 1, 1), plan(1, 0, 1)))
		cfg.Setup = append(established(), SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 1}, SOp{'S', 1, 0, 0})
		w := newSW(cfg, false)
		f := sessBody(w)
		old, good := w.Msgs[[3]int{1, 0, 1}], w.Msgs[[3]int{1, 0, 2}]
		f.Want = [][]byte{good.Plain}
		// an initial message that names prekeys nobody has
		x := w.Fork(0, 1)
		x.Do(SOp{'B', 1, 0, 0})
		x.Do(SOp{'S', 1, 0, 0})
		ini := x.Msgs[[3]int{1, 0, 3}]
		noSpk := rewrap(ini.Wire, nil, js, func(h *hdr) { h.Spk = 99 })
		noOpk := rewrap(ini.Wire, nil, js, func(h *hdr) { h.Opk = 77 })
		ser := serializer(js)
		g := GName{"group", Addr{"sender", uint32(n)}}
		gs := &Store{P: newParty(Addr{"sender", uint32(n)}, identityPair("sender"), 1), Ser: ser}
		f.G = g
		dist := gs.GCreate(g).Wire
		g0 := gs.GEncrypt(g, []byte("zero")).Wire
		other := &Store{P: newParty(Addr{"sender", uint32(n + 10)}, identityPair("other"), 1), Ser: ser}
		other.GCreate(g)
		f.Wire = [][]byte{good.Wire, spoil(good.Wire, js), old.Wire, noSpk, noOpk, rewrap(ini.Wire, spoil(innerOf(serializer(js), ini.Wire), js), js, func(*hdr) {}), good.Wire[:len(good.Wire)/2], flip(good.Wire, 0, 0x30)}
		f.Extra = [][]byte{dist, g0, spoil(g0, js), other.GEncrypt(g, []byte("x")).Wire, g0[:9], flip(dist, 0, 0x30), dist[:11]}
		b := w.Bun["1/1"]
		sg := b.SignedPreKeySignature()
		sg[7] ^= 4
		f.Bun = fixBundle{b.RegistrationID(), b.DeviceID(), 1, b.SignedPreKeyID(), b.PreKey().Serialize(), b.SignedPreKey().Serialize(), sg, b.IdentityKey().PublicKey().Serialize()}
		return f
	}, func(f *fixBody, st *Store) ([][]byte, error) {
		refused := func(what string, i int, r *Res) error {
			if r.OK() {
				return fmt.Errorf("%s %d is accepted", what, i)
			}
			return nil
		}
		for i, m := range f.Wire[1:] {
			if err := refused("message", i, st.Receive(f.Peer, m, i >= 2 && i <= 4)); err != nil {
				return nil, err
			}
		}
		b, err := f.Bun.bundle()
		if err == nil {
			err = refused("bundle", 0, st.Bundle(Addr{"another", 1}, b))
		}
		if err != nil {
			return nil, err
		}
		if err := refused("message without a session", 0, st.Receive(Addr{"nobody", 1}, f.Wire[0], false)); err != nil {
			return nil, err
		}
		if err := refused("encryption without a session", 0, st.Encrypt(Addr{"nobody", 1}, f.Wire[0])); err != nil {
			return nil, err
		}
		if err := refused("group message without a key", 0, st.GDecrypt(f.G, f.Extra[1])); err != nil {
			return nil, err
		}
		if r := st.GProcess(f.G, f.Extra[0]); !r.OK() {
			return nil, resErr(r)
		}
		for i, m := range f.Extra[2:5] {
			if err := refused("group message", i, st.GDecrypt(f.G, m)); err != nil {
				return nil, err
			}
		}
		for i, m := range f.Extra[5:] {
			if err := refused("distribution message", i, st.GProcess(f.G, m)); err != nil {
				return nil, err
			}
		}
		a, g := st.Receive(f.Peer, f.Wire[0], false), st.GDecrypt(f.G, f.Extra[1])
		if err := resErr(a, g); err != nil {
			return nil, err
		}
		if !bytes.Equal(a.Plain, f.Want[0]) {
			return nil, fmt.Errorf("decrypts to %q", a.Plain)
		}
		if err := refused("message that has been decrypted", 0, st.Receive(f.Peer, f.Wire[0], false)); err != nil {
			return nil, err
		}
		if err := refused("group message that has been decrypted", 0, st.GDecrypt(f.G, f.Extra[1])); err != nil {
			return nil, err
		}
		return nil, nil
	}},
	{"async", func(n int, js bool) fixBody {
		p := newParty(alice, identityPair("alice-shared"), 1)
		msg := []byte("asynchronous " + itoa(n))
		var s [64]byte
		withRng(&Rng{Seed: "async" + itoa(n)}, func() { s = ecc.CalculateSignature(p.IK.PrivateKey(), msg) })
		return fixBody{P: fixOf(p), Extra: [][]byte{msg, s[:]}}
	}, runAsyncFree},
}

func openProv(priv []byte, env string) (string, error) { return provision.Decrypt(b64(priv), env) }

var fixFile = func() string { return verifDir() + "/.build/fixture.gob" }

// makeFixture prepares the data of all bodies.
func makeFixture() fixture {
	fx := fixture{}
	for _, js := range []bool{false, true} {
		for _, b := range cbodies {
			for n := 0; n < fixCopies; n++ {
				k := fmt.Sprint(b.name, "/", js)
				fx[k] = append(fx[k], b.prep(n, js))
			}
		}
	}
	return fx
}

func writeFixture() string {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(makeFixture()); err != nil {
		panic(harnessErr{err.Error()})
	}
	f := fixFile()
	tmp := f + fmt.Sprint(".", os.Getpid())
	if err := os.WriteFile(tmp, b.Bytes(), 0o644); err != nil {
		panic(harnessErr{err.Error()})
	}
	os.Rename(tmp, f)
	return f
}

func readFixture() fixture {
	b, err := os.ReadFile(fixFile())
	if err != nil {
		panic(harnessErr{err.Error()})
	}
	fx := fixture{}
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&fx); err != nil {
		panic(harnessErr{err.Error()})
	}
	return fx
}

// prepared is a body ready to run.
type prepared struct {
	b  *cbody
	f  *fixBody
	st *Store
}

// prepare makes fresh data for the given bodies; bodies named twice get different data.
func prepare(fx fixture, ids []int, js, live bool, ser *serialize.Serializer) (out []prepared) {
	sh := &shared{ser: ser, ik: map[[32]byte]*identity.KeyPair{}, spre: map[string]*record.SignedPreKey{}}
	used := map[int]int{}
	for _, id := range ids {
		f := fx[fmt.Sprint(cbodies[id].name, "/", js)][used[id]]
		used[id]++
		p := f.P.party(sh, live)
		st := &Store{P: p, Ser: ser}
		if live {
			p.LStore = st
		}
		out = append(out, prepared{&cbodies[id], &f, st})
	}
	return
}

// finger is everything a body produced.
func (p *prepared) finger(out [][]byte) [32]byte {
	return sum(append(out, p.st.P.Image())...)
}
