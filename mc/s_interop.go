package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sort"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func init() {
	register("S06", "model_checking", checkS06)
	register("S19", "model_checking", checkS19)
}

// IW is a library user talking to the reference implementation. The user's twin
// is a second reference session that is given the user's secrets and has to behave
// exactly like the user.
type IW struct {
	P           *Party // the library's user
	Peer        *ref.Session
	Twin        *ref.Session
	NKey        int // key pairs the peer has made
	L2R, R2L    []imsg
	LDel, RDel  []bool // delivered: messages to the library, messages to the peer
	cfg         *iCfg
	peerOpkUsed bool
	img         [32]byte
}

type imsg struct {
	wire, plain []byte
	pk          bool
}

type iCfg struct {
	name     string
	libInit  bool
	opk      int64
	maxL     int // sends of the library's user
	maxR     int
	setup    []IOp
	payload  func(dir, n int) []byte
	spk, reg uint32
	odd      bool // unusual keys
}

type IOp struct {
	K byte // B set-up, S library sends, s peer sends, D to the library, d to the peer
	I int
}

func (o IOp) String() string { return fmt.Sprintf("%c %d", o.K, o.I) }

func refKey(n int) ref.KeyPair {
	return ref.NewKeyPair(sha256.Sum256([]byte(fmt.Sprint("reference key ", n))))
}

var (
	peerAddr = Addr{"peer", 3}
	peerIK   = refKey(-1)
	peerSPK  = refKey(-2)
	peerOPK  = refKey(-3)
)

// key is one of the peer's keys.
func (c *iCfg) key(n int) ref.KeyPair {
	if c.odd {
		return ref.NewKeyPair([32]byte(specialKeys[(256+n)*32:]))
	}
	return refKey(n)
}

func kpOf(priv, pub [32]byte) ref.KeyPair { return ref.KeyPair{Priv: priv, Pub: pub} }

func (c *iCfg) pl(dir, n int) []byte {
	if c.payload != nil {
		return c.payload(dir, n)
	}
	return defPayload(&MMsg{From: dir, Seq: n})
}

func newIW(cfg *iCfg, live bool) *IW {
	w := &IW{cfg: cfg}
	w.P = newParty(alice, identityPair("interop"), cfg.reg)
	if cfg.odd {
		w.P = newParty(oddAlice, identityPair("!interop"), cfg.reg)
	}
	pres := []uint32{2, 3, lastResort}
	if cfg.opk >= 0 && !cfg.libInit {
		pres = append(pres, uint32(cfg.opk))
	}
	addPreKeys(w.P, serializer(false), pres, []uint32{cfg.spk})
	if !cfg.libInit {
		// the peer starts: from the published keys, after checking the signature
		b := bundleOf(w.P, serializer(false), cfg.opk, cfg.spk)
		ikp := b.IdentityKey().PublicKey().PublicKey()
		spkp := b.SignedPreKey().PublicKey()
		sig := b.SignedPreKeySignature()
		if !ref.Verify(ikp, ref.Pub33(spkp), sig) {
			panic(setupErr{"bundle", []Finding{{"interop", "the reference implementation rejects the signature of a signed prekey"}}})
		}
		var opk *[32]byte
		var id *uint32
		if cfg.opk >= 0 {
			k := b.PreKey().PublicKey()
			v := uint32(cfg.opk)
			opk, id = &k, &v
		}
		w.Peer = ref.Initiate(peerIK, cfg.key(0), cfg.key(1), ikp, spkp, opk, id, cfg.spk, 4242)
		w.NKey = 2
	}
	if live {
		w.P.ToLive(serializer(false))
	}
	w.digest()
	for _, o := range cfg.setup {
		if fs := w.do(o); len(fs) > 0 {
			panic(setupErr{o.String(), fs})
		}
	}
	w.digest()
	return w
}

func (w *IW) digest() {
	if w.P.Live {
		return
	}
	w.img = sum(w.P.Image(), []byte(fmt.Sprint(w.P.Rng.Pos, w.Peer.Digest(), w.NKey, len(w.L2R), len(w.R2L), w.LDel, w.RDel)))
}

func (w *IW) fork() *IW {
	n := *w
	n.P = w.P.Clone()
	if n.Peer != nil {
		n.Peer = n.Peer.Clone()
	}
	if n.Twin != nil {
		n.Twin = n.Twin.Clone()
	}
	n.L2R, n.R2L = append([]imsg{}, w.L2R...), append([]imsg{}, w.R2L...)
	n.LDel, n.RDel = append([]bool{}, w.LDel...), append([]bool{}, w.RDel...)
	return &n
}

// findKey finds the private key of a public key among what the random source delivered.
func findKey(reads [][]byte, pub []byte) (ref.KeyPair, bool) {
	for _, r := range reads {
		if len(r) != 32 {
			continue
		}
		var s [32]byte
		copy(s[:], r)
		k := ref.NewKeyPair(s)
		if bytes.Equal(ref.Pub33(k.Pub), pub) {
			return k, true
		}
	}
	return ref.KeyPair{}, false
}

func (w *IW) state() recView {
	st := storeOf(w.P, serializer(false))
	if !w.P.hasSession(peerAddr) {
		return nil
	}
	return st.LoadSession(peerAddr.P())
}

// ratchetPair is the user's current ratchet key pair, from its records.
func (w *IW) ratchetPair() (ref.KeyPair, bool) {
	r := w.state()
	if r == nil {
		return ref.KeyPair{}, false
	}
	kp := r.SessionState().SenderRatchetKeyPair()
	p := kp.PrivateKey().Serialize()
	q := kp.PublicKey().PublicKey()
	return kpOf(p, q), ref.PublicKey(p) == q
}

func (w *IW) peerBundle() *prekey.Bundle {
	sig := ref.Sign(peerIK.Priv, ref.Pub33(peerSPK.Pub), []byte("bundle"))
	ik := identity.NewKey(ecc.NewDjbECPublicKey(peerIK.Pub))
	if w.cfg.opk < 0 {
		return prekey.NewBundle(4242, peerAddr.Dev, noOpk(-1-int64(w.cfg.spk%2)), w.cfg.spk, nil, ecc.NewDjbECPublicKey(peerSPK.Pub), sig, ik)
	}
	return prekey.NewBundle(4242, peerAddr.Dev, optional.NewOptionalUint32(uint32(w.cfg.opk)), w.cfg.spk, ecc.NewDjbECPublicKey(peerOPK.Pub),
		ecc.NewDjbECPublicKey(peerSPK.Pub), sig, ik)
}

func (w *IW) do(o IOp) (fs []Finding) {
	bad := func(f string, a ...interface{}) []Finding {
		return append(fs, Finding{"interop", o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	st := storeOf(w.P, serializer(false))
	ik := kpOf(w.P.IK.PrivateKey().Serialize(), w.P.IK.PublicKey().PublicKey().PublicKey())
	switch o.K {
	case 'B':
		var r *Res
		reads := withLog(func() { r = st.Bundle(peerAddr, w.peerBundle()) })
		if !r.OK() {
			return bad("a genuine bundle of the reference implementation is rejected: %v", r)
		}
		base, ok := findKey(reads, w.state().SessionState().SenderBaseKey())
		if !ok {
			return bad("the base key is not made of the delivered random bytes as X25519 prescribes")
		}
		kp, ok := w.ratchetPair()
		if !ok {
			return bad("the ratchet key pair does not match")
		}
		var opk *[32]byte
		var id *uint32
		if w.cfg.opk >= 0 {
			v := uint32(w.cfg.opk)
			opk, id = &peerOPK.Pub, &v
		}
		w.Twin = ref.Initiate(ik, base, kp, peerIK.Pub, peerSPK.Pub, opk, id, w.cfg.spk, w.P.Reg)
	case 'S':
		pl := w.cfg.pl(0, len(w.L2R))
		r := st.Encrypt(peerAddr, pl)
		if !r.OK() {
			return bad("encrypting: %v", r)
		}
		want, pk := w.Twin.Encrypt(pl)
		if pk != (r.Type == protocol.PREKEY_TYPE) {
			return bad("initial message: %v", !pk)
		}
		if !bytes.Equal(want, r.Wire) {
			return bad("message %d on the wire is %x, the specification's is %x", len(w.L2R), r.Wire, want)
		}
		w.L2R = append(w.L2R, imsg{r.Wire, pl, pk})
		w.RDel = append(w.RDel, false)
	case 's':
		pl := w.cfg.pl(1, len(w.R2L))
		wire, pk := w.Peer.Encrypt(pl)
		w.R2L = append(w.R2L, imsg{wire, pl, pk})
		w.LDel = append(w.LDel, false)
	case 'd': // to the peer
		m := w.L2R[o.I]
		inner := m.wire
		if m.pk {
			p, ok := ref.ParsePreKeySignal(m.wire)
			if !ok || len(p.Base) != 33 || len(p.Identity) != 33 || p.SignedID != w.cfg.spk || p.HasPreKey != (w.cfg.opk >= 0) || (p.HasPreKey && int64(p.PreKeyID) != w.cfg.opk) || p.RegID != w.P.Reg || p.Version != '3' {
				return bad("the peer cannot use the initial message %x", m.wire)
			}
			if w.Peer == nil {
				var opk *ref.KeyPair
				if p.HasPreKey {
					opk = &peerOPK
				}
				w.Peer = ref.Respond(peerIK, peerSPK, opk, ref.Unpub(p.Identity), ref.Unpub(p.Base))
			}
			inner = p.Message
		}
		got, err := w.Peer.Decrypt(inner, w.cfg.key(w.NKey+10))
		w.NKey++
		if err != nil || !bytes.Equal(got, m.plain) {
			return bad("the reference implementation cannot decrypt message %d of the library", o.I)
		}
		w.RDel[o.I] = true
	case 'D':
		m := w.R2L[o.I]
		r := st.Receive(peerAddr, m.wire, m.pk)
		if !r.OK() || !bytes.Equal(r.Plain, m.plain) {
			return bad("message %d of the reference implementation is not decrypted: %v", o.I, r)
		}
		inner := m.wire
		if m.pk {
			p, _ := ref.ParsePreKeySignal(m.wire)
			inner = p.Message
			if w.Twin == nil {
				var opk *ref.KeyPair
				spk := mustSPre(w.P.spre(w.cfg.spk), st.Ser).KeyPair()
				if w.cfg.opk >= 0 {
					// the prekey may be gone from the store by now; it is a function of its id
					k := keypair(&Rng{Seed: opkSeed(w.P.A, uint32(w.cfg.opk))})
					x := kpOf(k.PrivateKey().Serialize(), k.PublicKey().PublicKey())
					opk = &x
				}
				w.Twin = ref.Respond(ik, kpOf(spk.PrivateKey().Serialize(), spk.PublicKey().PublicKey()), opk, peerIK.Pub, ref.Unpub(p.Base))
			}
		}
		kp, ok := w.ratchetPair()
		if !ok {
			return bad("the ratchet key pair does not match")
		}
		if got, err := w.Twin.Decrypt(inner, kp); err != nil || !bytes.Equal(got, m.plain) {
			return bad("harness: the twin does not decrypt")
		}
		if w.Twin.SendKP.Pub != kp.Pub {
			return bad("a new ratchet key without a new ratchet key of the peer")
		}
		w.LDel[o.I] = true
	}
	return
}

func (w *IW) ops() (out []IOp) {
	has := w.P.hasSession(peerAddr)
	if w.cfg.libInit && !has {
		return []IOp{{'B', 0}}
	}
	if has && len(w.L2R) < w.cfg.maxL {
		out = append(out, IOp{'S', 0})
	}
	if w.Peer != nil && len(w.R2L) < w.cfg.maxR {
		out = append(out, IOp{'s', 0})
	}
	for i, d := range w.RDel {
		if !d {
			out = append(out, IOp{'d', i})
		}
	}
	for i, d := range w.LDel {
		if !d {
			out = append(out, IOp{'D', i})
		}
	}
	return
}

func exploreInterop(c *Ctx, cfg *iCfg, depth, max int) {
	if cfg.spk == 0 {
		cfg.spk = 7
	}
	Explore(c, System[*IW, IOp]{
		Name: cfg.name,
		Init: func() *IW { return newIW(cfg, false) },
		Ops:  func(w *IW) []IOp { return w.ops() },
		Apply: func(w *IW, o IOp) (*IW, []Finding) {
			n := w.fork()
			fs := n.do(o)
			n.digest()
			return n, fs
		},
		Key:     func(w *IW) [32]byte { return w.img },
		Classes: classes("interop"), Depth: depth, Max: max, MaxLive: c.Q(400, 10000),
		Live: func(p []IOp) []Finding {
			w := newIW(cfg, true)
			for _, o := range p {
				if fs := w.do(o); len(fs) > 0 {
					return fs
				}
			}
			return nil
		},
	})
}

func checkS19(c *Ctx) {
	c.Rule("States are all pairs of a library user (stored bytes) and a reference-implementation peer with messages in flight, reachable by any interleaving of sends and deliveries within the bounds, both as initiator and as responder. Every message the library sends is compared byte for byte with what a reference session holding the same secrets sends, and both sides decrypt everything.")
	c.Assume("the reference implementation in mc/ref, written from the specification, is right")
	q := c.Q
	for _, lib := range []bool{true, false} {
		for i, opk := range []int64{1, -1, lastResort, 0} {
			a, b := q(4, 4), q(3, 4)
			if i == 0 {
				a, b = q(5, 6), q(4, 5)
			} else if i > 1 {
				a, b = q(2, 3), q(2, 3)
			}
			exploreInterop(c, &iCfg{name: fmt.Sprintf("initiator=%v-opk=%d", lib, opk), libInit: lib, opk: opk, maxL: a, maxR: b, reg: 77, odd: i%2 == 1,
				spk: []uint32{7, 127, 128, 0xFFFFFF}[i]}, 40, q(40000, 1000000))
		}
		var long []IOp
		if lib {
			long = []IOp{{'B', 0}, {'S', 0}, {'d', 0}, {'s', 0}, {'D', 0}}
		} else {
			long = []IOp{{'s', 0}, {'D', 0}, {'S', 0}, {'d', 0}}
		}
		nl, nr := 1, 1
		for i := 0; i < 10; i++ {
			for j := 0; j <= i%3; j++ {
				long = append(long, IOp{'S', 0})
				nl++
			}
			long = append(long, IOp{'d', nl - 1}, IOp{'s', 0}, IOp{'D', nr})
			nr++
		}
		exploreInterop(c, &iCfg{name: fmt.Sprintf("after-long-use-initiator=%v", lib), libInit: lib, opk: 5, maxL: nl + 2, maxR: nr + 2, setup: long, reg: 16380}, q(4, 7), q(40000, 400000))
	}
	// payload lengths
	lens := []int{}
	for n := 0; n <= q(130, 600); n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 4096, 65536)
	c.Each("lengths", len(lens), func(i int) string { return fmt.Sprint(lens[i]) }, func(k *Case, i int) {
		for _, lib := range []bool{true, false} {
			cfg := &iCfg{libInit: lib, opk: 1, reg: 1, spk: 7, payload: func(d, n int) []byte {
				b := bytes.Repeat([]byte{byte(16 - lens[i]%16), 1, 2, 0}, lens[i]/4+1)
				return b[:lens[i]]
			}}
			w := newIW(cfg, i%2 == 1)
			ops := []IOp{{'B', 0}, {'S', 0}, {'d', 0}, {'s', 0}, {'D', 0}, {'S', 0}, {'d', 1}}
			if !lib {
				ops = []IOp{{'s', 0}, {'D', 0}, {'S', 0}, {'d', 0}, {'s', 0}, {'D', 1}}
			}
			for _, o := range ops {
				if fs := w.do(o); len(fs) > 0 {
					k.Failf("length %d, initiator %v: %v", lens[i], lib, fs)
					return
				}
				k.Trans(1)
			}
			k.Trace(1)
		}
	})
	s19Long(c)
	// long chains and far jumps
	jumps := []int{10, 200, 1000, q(2000, 5000)}
	c.Each("jumps", len(jumps)*2, func(i int) string { return fmt.Sprint(i) }, func(k *Case, i int) {
		n := jumps[i/2]
		cfg := &iCfg{libInit: i%2 == 0, opk: 1, reg: 1, spk: 7, payload: func(d, n int) []byte { return []byte{byte(n)} }}
		w := newIW(cfg, i%2 == 1)
		do := func(os ...IOp) bool {
			for _, o := range os {
				if fs := w.do(o); len(fs) > 0 {
					return k.Failf("jump %d: %v", n, fs)
				}
			}
			return true
		}
		if i%2 == 0 {
			do(IOp{'B', 0}, IOp{'S', 0}, IOp{'d', 0}, IOp{'s', 0}, IOp{'D', 0})
		} else {
			do(IOp{'s', 0}, IOp{'D', 0}, IOp{'S', 0}, IOp{'d', 0})
		}
		for j := 0; j < n && !k.Failed(); j++ {
			do(IOp{'s', 0})
			if j < 300 {
				do(IOp{'S', 0})
			}
		}
		if k.Failed() {
			return
		}
		last := len(w.R2L) - 1
		do(IOp{'D', last}, IOp{'D', last - n/2}, IOp{'D', last - 1}, IOp{'d', len(w.L2R) - 1}, IOp{'d', len(w.L2R) - 9}, IOp{'S', 0}, IOp{'d', len(w.L2R)}, IOp{'s', 0}, IOp{'D', last + 1})
		k.Trace(1)
	})
}

// checkS06: key agreement at set-up.
func checkS06(c *Ctx) {
	c.Rule("Set-ups are enumerated over kinds of bundle, serializers and key values (seeds of every participating key); for each the reference X3DH, given the private keys and the base key from the random source's log, must open the first message, both users' records must name each other, and replacing any one private key on either side must make the first message unreadable. Histories after set-up are searched breadth first with the reference implementation as the other side.")
	c.Assume("the reference X3DH and ratchet in mc/ref are right")
	q := c.Q
	for _, lib := range []bool{true, false} {
		for _, opk := range []int64{1, -1, lastResort} {
			exploreInterop(c, &iCfg{name: fmt.Sprintf("initiator=%v-opk=%d", lib, opk), libInit: lib, opk: opk, maxL: 3, maxR: q(2, 3), reg: 99, odd: opk == -1}, 30, 100000)
		}
	}
	type cse struct {
		js   bool
		opk  int64
		seed int
	}
	var cs []cse
	for s := 0; s < q(80, 1000); s++ {
		for _, js := range []bool{false, true} {
			for _, opk := range []int64{-1, 0, 1, 2, lastResort} {
				cs = append(cs, cse{js, opk, s})
			}
		}
	}
	for s := 0; s < q(12, 60); s++ {
		for _, opk := range []int64{127, 128, 16384, 65535, 65536, 1<<24 - 2, 1 << 24, 1<<24 + 1, 1 << 31, 1<<32 - 1} {
			cs = append(cs, cse{s%2 == 1, opk, 2 * s})
		}
	}
	c.Each("set-up", len(cs), func(i int) string { return fmt.Sprint(cs[i]) }, func(k *Case, i int) { s06One(k, cs[i].js, cs[i].opk, cs[i].seed, false) })
	// many more with fresh keys: an agreement begins or ends with a zero byte once in 256
	many := q(2400, 30000)
	c.Each("many-set-ups", many, itoa, func(k *Case, i int) {
		s06One(k, i%4 == 3, []int64{1, -1, 2, lastResort, 0}[i%5], 1000000+2*i, true)
	})
}

func s06One(k *Case, js bool, opk int64, seed int, light bool) {
	ser := serializer(js)
	spk := []uint32{7, 0, 1 << 14, 1<<24 - 1, 1 << 24, 1 << 31, 1<<32 - 1}[seed%7]
	if seed%4 == 1 {
		spk = 7
	}
	a := newParty(alice, identityPair(fmt.Sprint("a", seed)), uint32(seed*7+1))
	b := newParty(bob, identityPair(fmt.Sprint("b", seed)), uint32(seed*1000003+16380))
	a.Rng.Seed, b.Rng.Seed = fmt.Sprint("ra", seed), fmt.Sprint("rb", seed)
	b.A.Name += fmt.Sprint(seed) // other prekeys
	if seed%2 == 1 {             // unusual keys
		a.Rng = Rng{Seed: "party:!alice:1", Pos: uint64(32 * (seed * 3 % 240))}
		b.Rng = Rng{Seed: "party:!bob:1", Pos: uint64(32 * (seed * 3 % 240))}
		if seed%4 == 1 {
			b.A.Name = "!bob"
		}
	}
	pres := []uint32{0, 1, 2, lastResort}
	if opk > 2 && opk != lastResort {
		pres = append(pres, uint32(opk))
	}
	addPreKeys(b, ser, pres, []uint32{spk})
	b.A = bob
	sa, sb := &Store{P: a, Ser: ser}, &Store{P: b, Ser: ser}
	var r *Res
	reads := withLog(func() { r = sa.Bundle(bob, bundleOf(b, ser, opk, spk)) })
	if !r.OK() {
		k.Failf("set-up from a bundle: %v", r)
		return
	}
	plain := []byte(fmt.Sprint("first message ", seed))
	r = sa.Encrypt(bob, plain)
	if !r.OK() {
		k.Failf("first message: %v", r)
		return
	}
	wire := r.Wire
	h, ok := parseHdr(wire, 3, js)
	if !ok || r.Type != 3 {
		k.Failf("the first message is not an initial message")
		return
	}
	base, ok := findKey(reads, h.Base)
	if !ok {
		k.Failf("the base key does not come from the random source")
		return
	}
	ikA := kpOf(a.IK.PrivateKey().Serialize(), a.IK.PublicKey().PublicKey().PublicKey())
	ikB := kpOf(b.IK.PrivateKey().Serialize(), b.IK.PublicKey().PublicKey().PublicKey())
	sk := mustSPre(b.SPre[spk], ser).KeyPair()
	spkB := kpOf(sk.PrivateKey().Serialize(), sk.PublicKey().PublicKey())
	var opkB *ref.KeyPair
	var opkPub *[32]byte
	if opk >= 0 {
		x := mustPre(b.Pre[uint32(opk)], ser).KeyPair()
		y := kpOf(x.PrivateKey().Serialize(), x.PublicKey().PublicKey())
		opkB, opkPub = &y, &y.Pub
	}
	// what the specification derives, from either side
	root, _ := ref.X3DHInitiator(ikA, base, ikB.Pub, spkB.Pub, opkPub)
	rootR, _ := ref.X3DHResponder(ikB, spkB, opkB, ikA.Pub, base.Pub)
	if !bytes.Equal(root, rootR) {
		panic(harnessErr{"reference X3DH disagrees with itself"})
	}
	opens := func(root []byte, priv [32]byte) bool {
		_, ch := ref.RootStep(root, priv, ref.Unpub(h.Ratchet))
		ck, _, iv := ref.MessageKeys(ch)
		p, err := ref.CBCDecrypt(ck, iv, h.CT)
		return err == nil && bytes.Equal(p, plain)
	}
	if !opens(root, spkB.Priv) {
		k.Failf("the first message is not encrypted with the keys that X3DH defines (one-time prekey %d)", opk)
		return
	}
	stA := sa.LoadSession(bob.P()).SessionState()
	if !bytes.Equal(stA.RemoteIdentityKey().Serialize(), ref.Pub33(ikB.Pub)) || !bytes.Equal(stA.LocalIdentityKey().Serialize(), ref.Pub33(ikA.Pub)) {
		k.Failf("the initiator's session does not name the identity keys")
		return
	}
	if stA.RemoteRegistrationID() != b.Reg || stA.LocalRegistrationID() != a.Reg || h.Reg != a.Reg {
		k.Failf("the initiator's session does not name the registration ids")
		return
	}
	// wrong keys at the receiver
	for v := 0; v < 4 && !light; v++ {
		p := b.Clone()
		other := keypair(&Rng{Seed: fmt.Sprint("other", seed, v)})
		st := &Store{P: p, Ser: ser}
		what := ""
		switch v {
		case 0:
			what = "identity"
			p.IK = identity.NewKeyPair(p.IK.PublicKey(), other.PrivateKey())
		case 1:
			what = "signed prekey"
			old := mustSPre(p.SPre[spk], ser)
			p.SPre[spk] = newSPre(spk, ecc.NewECKeyPair(old.KeyPair().PublicKey(), other.PrivateKey()), old.Signature(), ser)
		case 2:
			if opk < 0 {
				continue
			}
			what = "one-time prekey"
			old := mustPre(p.Pre[uint32(opk)], ser)
			p.Pre[uint32(opk)] = newPre(uint32(opk), ecc.NewECKeyPair(old.KeyPair().PublicKey(), other.PrivateKey()), ser)
		case 3:
			what = "whole identity"
			p.IK = identityPair(fmt.Sprint("someone", seed))
		}
		if r := st.Receive(alice, wire, true); r.OK() {
			k.Failf("the receiver opens the first message with another private key (%s)", what)
			return
		}
		k.Eval(1)
	}
	// a sender without the identity key it claims
	if !light {
		p := newParty(alice, identity.NewKeyPair(a.IK.PublicKey(), keypair(&Rng{Seed: fmt.Sprint("liar", seed)}).PrivateKey()), a.Reg)
		st := &Store{P: p, Ser: ser}
		if r := st.Bundle(bob, bundleOf(b, ser, opk, spk)); r.OK() {
			if r = st.Encrypt(bob, plain); r.OK() {
				q := b.Clone()
				if r := (&Store{P: q, Ser: ser}).Receive(alice, r.Wire, true); r.OK() {
					k.Failf("the sender's identity private key does not contribute to the session keys")
					return
				}
			}
		}
		k.Eval(1)
	}
	r = sb.Receive(alice, wire, true)
	if !r.OK() || !bytes.Equal(r.Plain, plain) {
		k.Failf("the first message is not decrypted: %v", r)
		return
	}
	stB := sb.LoadSession(alice.P()).SessionState()
	if !bytes.Equal(stB.RemoteIdentityKey().Serialize(), ref.Pub33(ikA.Pub)) || !bytes.Equal(stB.LocalIdentityKey().Serialize(), ref.Pub33(ikB.Pub)) {
		k.Failf("the receiver's session does not name the identity keys")
		return
	}
	if stB.RemoteRegistrationID() != a.Reg || stB.LocalRegistrationID() != b.Reg {
		k.Failf("the receiver's session does not name the registration ids")
		return
	}
	if !bytes.Equal(stA.SenderBaseKey(), stB.SenderBaseKey()) {
		k.Failf("the users name their session by different base keys")
		return
	}
	// and back
	back := []byte("answer")
	r = sb.Encrypt(alice, back)
	if !r.OK() {
		k.Failf("answer: %v", r)
		return
	}
	if r = sa.Receive(bob, r.Wire, r.Type == 3); !r.OK() || !bytes.Equal(r.Plain, back) {
		k.Failf("the answer is not decrypted: %v", r)
		return
	}
	k.Trace(1)
	k.State(1)
	k.Trans(5)
	k.Eval1("ok")
}

var _ = sort.Ints
