package main

import (
	"bytes"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

func init() {
	register("S07", "model_checking", checkS07)
	register("S09", "model_checking", checkS09)
}

// bparts are the parts of a bundle.
type bparts struct {
	reg, dev uint32
	opk      int64
	opkPub   ecc.ECPublicKeyable
	spk      uint32
	spkPub   ecc.ECPublicKeyable
	sig      [64]byte
	ik       *identity.Key
}

func partsOf(b *prekey.Bundle, opk int64) bparts {
	return bparts{b.RegistrationID(), b.DeviceID(), opk, b.PreKey(), b.SignedPreKeyID(), b.SignedPreKey(), b.SignedPreKeySignature(), b.IdentityKey()}
}

func (x bparts) bundle() *prekey.Bundle {
	if x.opk < 0 {
		return prekey.NewBundle(x.reg, x.dev, noOpk(x.opk), x.spk, nil, x.spkPub, x.sig, x.ik)
	}
	return prekey.NewBundle(x.reg, x.dev, optional.NewOptionalUint32(uint32(x.opk)), x.spk, x.opkPub, x.spkPub, x.sig, x.ik)
}

type badBundle struct {
	name string
	b    *prekey.Bundle
	deny bool // the identity store does not trust anything
	rng  int  // the n-th read of randomness fails (-1: none)
}

func bitOf(p ecc.ECPublicKeyable, i int) ecc.ECPublicKeyable {
	k := p.PublicKey()
	k[i/8] ^= 1 << uint(i%8)
	return ecc.NewDjbECPublicKey(k)
}

// badBundles lists bundles of user b that nobody may use. all: every bit.
func badBundles(p *Party, others []*Party, spk uint32, opk int64, js, all bool) (out []badBundle) {
	ser := serializer(js)
	g := partsOf(bundleOf(p, ser, opk, spk), opk)
	add := func(n string, f func(x *bparts)) {
		x := g
		f(&x)
		out = append(out, badBundle{n, x.bundle(), false, -1})
	}
	add("no signed prekey", func(x *bparts) { x.spkPub = nil })
	add("zero signature", func(x *bparts) { x.sig = [64]byte{} })
	add("signature of something else", func(x *bparts) { x.sig = signBy(p.IK, []byte("another message")) })
	add("signature over the key without its type byte", func(x *bparts) { k := x.spkPub.PublicKey(); x.sig = signBy(p.IK, k[:]) })
	add("signature over the identity key", func(x *bparts) { x.sig = signBy(p.IK, x.ik.PublicKey().Serialize()) })
	add("unsigned prekey as signed prekey", func(x *bparts) {
		x.spkPub = keypair(&Rng{Seed: "unsigned"}).PublicKey()
	})
	if opk >= 0 {
		add("one-time prekey as signed prekey", func(x *bparts) { x.spkPub = x.opkPub })
	}
	add("identity key as signed prekey", func(x *bparts) { x.spkPub = x.ik.PublicKey() })
	for i, o := range others {
		o := partsOf(bundleOf(o, ser, -1, spk), -1)
		add(fmt.Sprint("identity of another user ", i), func(x *bparts) { x.ik = o.ik })
		add(fmt.Sprint("signed prekey of another user ", i), func(x *bparts) { x.spkPub = o.spkPub })
		add(fmt.Sprint("signature of another user ", i), func(x *bparts) { x.sig = o.sig })
		add(fmt.Sprint("signed prekey and signature of another user ", i), func(x *bparts) { x.spkPub, x.sig = o.spkPub, o.sig })
		add(fmt.Sprint("signed prekey signed by another user ", i), func(x *bparts) { x.sig = signBy(others[0].IK, x.spkPub.Serialize()) })
	}
	// the same with everything else in the bundle at its edges
	for _, v := range []struct {
		what string
		f    func(x *bparts)
	}{
		{"signed prekey id 0", func(x *bparts) { x.spk = 0 }},
		{"signed prekey id 1", func(x *bparts) { x.spk = 1 }},
		{"the last-resort id for the signed prekey", func(x *bparts) { x.spk = lastResort }},
		{"the largest signed prekey id", func(x *bparts) { x.spk = 1<<32 - 1 }},
		{"registration id 0", func(x *bparts) { x.reg = 0 }},
		{"the largest registration id", func(x *bparts) { x.reg = 1<<32 - 1 }},
		{"device 0", func(x *bparts) { x.dev = 0 }},
		{"device 77", func(x *bparts) { x.dev = 77 }},
		{"no one-time prekey", func(x *bparts) { x.opk, x.opkPub = -1, nil }},
		{"no one-time prekey (written in another way)", func(x *bparts) { x.opk, x.opkPub = -2, nil }},
		{"one-time prekey 0", func(x *bparts) { x.opk, x.opkPub = 0, keypair(&Rng{Seed: "any"}).PublicKey() }},
		{"the last-resort one-time prekey", func(x *bparts) { x.opk, x.opkPub = lastResort, keypair(&Rng{Seed: "any"}).PublicKey() }},
		{"the signed prekey as one-time prekey too", func(x *bparts) { x.opk, x.opkPub = 5, x.spkPub }},
		{"the identity key as one-time prekey", func(x *bparts) { x.opk, x.opkPub = 5, x.ik.PublicKey() }},
		{"a signed prekey of zeros", func(x *bparts) { x.spkPub = ecc.NewDjbECPublicKey([32]byte{}) }},
		{"a signed prekey of ones", func(x *bparts) { x.spkPub = ecc.NewDjbECPublicKey(arr32(bytes.Repeat([]byte{0xff}, 32))) }},
		{"a signature of ones", func(x *bparts) { copy(x.sig[:], bytes.Repeat([]byte{0xff}, 64)) }},
		{"a signature with its first half zero", func(x *bparts) { copy(x.sig[:], make([]byte, 32)) }},
		{"a signature with its second half zero", func(x *bparts) { copy(x.sig[32:], make([]byte, 32)) }},
		{"a cut signature", func(x *bparts) { copy(x.sig[60:], make([]byte, 4)) }},
		{"the key in place of the signature", func(x *bparts) { x.sig = [64]byte{}; copy(x.sig[:], x.spkPub.Serialize()) }},
	} {
		add("changed signature and "+v.what, func(x *bparts) { x.sig[3] ^= 16; v.f(x) })
		add("a signature by the one-time prekey's owner and "+v.what, func(x *bparts) { v.f(x); x.sig = signBy(fakeOwner(), x.spkPub.Serialize()) })
	}
	step := func(n int) int {
		if all {
			return 1
		}
		return n
	}
	for i := 0; i < 512; i += step(73) {
		add(fmt.Sprint("signature bit ", i), func(x *bparts) { x.sig[i/8] ^= 1 << uint(i%8) })
	}
	for i := 0; i < 256; i += step(61) {
		add(fmt.Sprint("signed prekey bit ", i), func(x *bparts) { x.spkPub = bitOf(x.spkPub, i) })
		if i < 255 {
			add(fmt.Sprint("identity bit ", i), func(x *bparts) { x.ik = identity.NewKey(bitOf(x.ik.PublicKey(), i)) })
		}
	}
	out = append(out, badBundle{"genuine, but not trusted", g.bundle(), true, -1})
	for n := 0; n < 2; n++ {
		out = append(out, badBundle{fmt.Sprint("genuine, but no randomness from read ", n), g.bundle(), false, n})
	}
	return
}

// fakeOwner is somebody with another identity.
func fakeOwner() *identity.KeyPair { return identityPair("fake owner") }

var sigCache = map[string][64]byte{}

func signBy(ik *identity.KeyPair, msg []byte) (s [64]byte) {
	withRng(&Rng{Seed: "sign" + string(msg)}, func() { s = ecc.CalculateSignature(ik.PrivateKey(), msg) })
	return
}

// present gives a bad bundle to st; it has to be refused without effect.
func presentBad(st *Store, at Addr, x badBundle) string {
	had := st.P.hasSession(at)
	before := st.P.Image()
	pos := st.P.Rng.Pos
	defer func() { st.P.Rng.Pos = pos }()
	var r *Res
	if x.deny {
		st.Trust = func(Addr, []byte) bool { return false }
	}
	if x.rng >= 0 {
		r = withFault(&st.P.Rng, x.rng, func() *Res { return st.Bundle(at, x.b) })
	} else {
		r = st.Bundle(at, x.b)
	}
	st.Trust = nil
	if r.OK() && x.rng > 0 {
		return "" // it may need less randomness
	}
	switch {
	case r.Panic != "":
		return fmt.Sprintf("a bundle (%s): %v", x.name, r)
	case r.OK():
		return fmt.Sprintf("a bundle (%s) is used", x.name)
	case !bytes.Equal(before, st.P.Image()):
		return fmt.Sprintf("a refused bundle (%s) changed what is stored: %s", x.name, diffImage(before, st.P.Image()))
	case st.P.hasSession(at) != had:
		return fmt.Sprintf("a refused bundle (%s) left a session", x.name)
	}
	return ""
}

func (p *Party) hasSession(a Addr) bool {
	if p.Live {
		return p.LSess[a] != nil
	}
	return p.Sess[a] != nil
}

func checkS07(c *Ctx) {
	c.Rule("Reachable states of two users are enumerated breadth first; in every state bundles with one part replaced or changed, an untrusted identity or failing randomness are presented to copies of both users (and in the live replays to the users themselves, whose later messages must still decrypt as the model says): each must be refused and leave everything stored as it was. In three prior states every single bit of signature, signed prekey and identity is changed.")
	q := c.Q
	cls := func() map[string]bool { return classes("bundle", "badbundle", "lost", "send") }
	all := func(w *SW, inPlace bool, n *int) []Finding {
		for a := range w.P {
			b := 1 - a
			others := []*Party{w.P[a]}
			for _, x := range badBundles(w.P[b], others, w.Cfg.Spk, []int64{-1, 2}[a], w.Cfg.JSON, false) {
				st := w.store(a)
				if !inPlace {
					st = &Store{P: w.P[a].Clone(), Ser: w.Ser}
				}
				*n++
				if s := presentBad(st, w.addr(b), x); s != "" {
					return []Finding{{"badbundle", s}}
				}
			}
		}
		return nil
	}
	var visits int
	_ = visits
	ex := func(cfg *SessCfg, d, live int) {
		cfg.LiveEach = func(w *SW) []Finding {
			n := 0
			fs := all(w, true, &n)
			(&Case{c: c}).Eval(n)
			return fs
		}
		exploreSessions(c, cfg, d, c.Q(300, 20000), live, cls(), func(w *SW) []Finding {
			n := 0
			fs := all(w, false, &n)
			(&Case{c: c}).Eval(n)
			return fs
		})
	}
	ex(two("opk", false, plan(0, 1, 1, -1), q(2, 3), q(1, 2)), q(9, 14), q(60, 1000))
	ex(two("both", true, plans(plan(0, 1, -1), plan(1, 0, 1)), q(1, 2), 1), q(7, 12), q(60, 1000))
	richBundles(c, all)
	// every bit
	type st struct {
		name string
		ops  []SOp
	}
	sts := []st{{"nothing", nil}, {"unanswered", []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}}}, {"established", established()}}
	ws, ok := Setup(c, "bits", cls(), func() (out []*SW) {
		for _, s := range sts {
			out = append(out, newSW(two("bits-base", false, plan(0, 1, 1, 2), 0, 0), false).do1(s.ops...))
		}
		return
	})
	if !ok {
		return
	}
	bads := badBundles(ws[0].P[1], []*Party{ws[0].P[0]}, 7, 2, false, true)
	c.Each("bits", len(bads)*len(sts), func(i int) string { return sts[i%len(sts)].name + ": " + bads[i/len(sts)].name }, func(k *Case, i int) {
		w, x := ws[i%len(sts)], bads[i/len(sts)]
		for _, live := range []bool{false, true} {
			t := w.Fork(0, 1)
			if live {
				t = w.live()
			}
			if s := presentBad(t.store(0), bob, x); s != "" {
				k.Failf("%s: %s", sts[i%len(sts)].name, s)
				return
			}
			k.Eval(1)
			k.Nontrivial(1)
			// everything goes on
			if i/len(sts)%16 == 0 {
				ops := []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, t.M.NSent[[2]int{0, 1}]}}
				if t.M.rec(0, 1).Cur != nil {
					ops = append([]SOp{{'S', 0, 1, 0}, {'D', 0, 1, t.M.NSent[[2]int{0, 1}]}}, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, t.M.NSent[[2]int{0, 1}] + 1})
				}
				for _, o := range ops {
					if fs := t.Do(o); len(fs) > 0 {
						k.Failf("%s, after %s: %v", sts[i%len(sts)].name, x.name, fs)
						return
					}
				}
				k.Trace(1)
			}
		}
	})
}

// ---------------------------------------------------------------- S09

// TW: bob talks to one address that two people claim.
type TW struct {
	cfg    *tCfg
	Bob    *Party
	X      [2]*Party // alice, and mallory under alice's address
	Msgs   []tmsg    // to bob
	Out    []tmsg    // from bob
	Rec    int       // whose identity bob has recorded: -1 nobody
	NB, NI [2]int
	NS, NR int
	Deny   [4]bool
	NDeny  int
	NForge int
	img    [32]byte
	BobOpk int
	NO     int
}

type tmsg struct {
	from int // claimed author (0/1), for Out: author of the session it was encrypted for
	wire []byte
	pk   bool
	ik   int // identity in the envelope
	ok   bool
	done bool
}

type tCfg struct {
	name   string
	js     bool
	tofu   bool
	nb, ni int // bundles processed and sessions started, each
	ns, nr int
	deny   int
	forge  bool
	many   int  // so many one-time prekeys
	own    bool // bob's own bundle may come under the address
	at     Addr // the address (default: alice)
}

type TOp struct {
	K    byte
	X, I int
}

func (o TOp) String() string { return fmt.Sprintf("%c %d %d", o.K, o.X, o.I) }

func newTW(cfg *tCfg, live bool) *TW {
	ser := serializer(cfg.js)
	w := &TW{cfg: cfg, Rec: -1}
	w.Bob = newParty(bob, identityPair("bob"), 5)
	ids := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	for i := 10; i < cfg.many; i++ {
		ids = append(ids, uint32(i))
	}
	addPreKeys(w.Bob, ser, ids, []uint32{7})
	for i, s := range []string{"alice", "mallory"} {
		p := newParty(Addr{s, 1}, identityPair(s), uint32(100+i))
		addPreKeys(p, ser, ids, []uint32{7})
		p.A = w.at()
		w.X[i] = p
	}
	if live {
		w.Bob.ToLive(ser)
	}
	w.digest()
	return w
}

func (w *TW) digest() {
	if w.Bob.Live {
		return
	}
	b := []byte(fmt.Sprint(w.Rec, w.NB, w.NI, w.NS, w.NR, w.Deny, w.NDeny, w.BobOpk, w.NO))
	for _, m := range w.Msgs {
		b = append(b, fmt.Sprint(m.done, m.ik, len(m.wire))...)
	}
	for _, m := range w.Out {
		b = append(b, fmt.Sprint(m.done, m.from)...)
	}
	w.img = sum(w.Bob.Image(), w.X[0].Image(), w.X[1].Image(), b, []byte(fmt.Sprint(w.Bob.Rng.Pos, w.X[0].Rng.Pos, w.X[1].Rng.Pos)))
}

func (w *TW) fork() *TW {
	n := *w
	n.Bob, n.X[0], n.X[1] = w.Bob.Clone(), w.X[0].Clone(), w.X[1].Clone()
	n.Msgs, n.Out = append([]tmsg{}, w.Msgs...), append([]tmsg{}, w.Out...)
	return &n
}

func (w *TW) at() Addr {
	if w.cfg.at.Name != "" {
		return w.cfg.at
	}
	return alice
}

func (w *TW) trust() func(Addr, []byte) bool {
	return func(a Addr, key []byte) bool {
		if a != w.at() {
			return true // nothing is known about others
		}
		for i := range w.Deny {
			if w.Deny[i] && bytes.Equal(key, w.key(i)) {
				return false
			}
		}
		old, ok := w.Bob.Ids[a]
		return !w.cfg.tofu || !ok || bytes.Equal(old, key)
	}
}

func (w *TW) key(i int) []byte {
	if i == 2 {
		return attacker()
	}
	if i == 3 {
		return w.Bob.IK.PublicKey().PublicKey().Serialize()
	}
	return w.X[i].IK.PublicKey().PublicKey().Serialize()
}

func (w *TW) trusted(i int) bool { return w.trust()(w.at(), w.key(i)) }

func (w *TW) do(o TOp) (fs []Finding) {
	bad := func(f string, a ...interface{}) {
		fs = append(fs, Finding{"trust", o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	other := func(f string, a ...interface{}) { // another property's business: cut here
		fs = append(fs, Finding{"other", o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	ser := serializer(w.cfg.js)
	st := storeOf(w.Bob, ser)
	st.Trust = w.trust()
	before := w.Bob.Image()
	idBefore := string(w.Bob.Ids[w.at()])
	expect := func(x int) { // after a success that authenticates x
		if !bytes.Equal(w.Bob.Ids[w.at()], w.key(x)) {
			bad("the identity recorded is %x, that of the session is %x", w.Bob.Ids[w.at()], w.key(x))
		}
		for a := range w.Bob.Ids {
			if a != w.at() {
				bad("an identity was recorded for %v", a)
			}
		}
		w.Rec = x
	}
	unchanged := func(why string) {
		if !bytes.Equal(before, w.Bob.Image()) {
			bad("%s, but what is stored changed: %s", why, diffImage(before, w.Bob.Image()))
		}
	}
	switch o.K {
	case 'B': // bob processes x's bundle
		tr := w.trusted(o.X)
		r := st.Bundle(w.at(), bundleOf(w.X[o.X], ser, int64(w.NB[o.X]), 7))
		w.NB[o.X]++
		switch {
		case tr && !r.OK():
			other("%v", r)
		case !tr && r.OK():
			bad("a bundle with an untrusted identity is used")
		case !tr:
			unchanged("the bundle is refused")
		default:
			expect(o.X)
		}
	case 'O': // bob processes his own bundle, which somebody gave him for the address
		tr := w.trusted(3)
		r := st.Bundle(w.at(), bundleOf(w.Bob, ser, -1, 7))
		w.NO++
		switch {
		case tr && !r.OK():
			other("%v", r)
		case !tr && r.OK():
			bad("a bundle with bob's own identity, which is not trusted for the address, is used")
		case !tr:
			unchanged("the bundle is refused")
		default:
			expect(3)
		}
	case 'I': // x starts a session and writes
		sx := &Store{P: w.X[o.X], Ser: ser, Trust: func(Addr, []byte) bool { return true }}
		w.BobOpk++
		opk := int64(w.BobOpk)
		if o.X == 1 && w.NI[1] == 1 {
			opk = -1
		}
		if r := sx.Bundle(bob, bundleOf(w.Bob, ser, opk, 7)); !r.OK() {
			other("%v", r)
			return
		}
		w.NI[o.X]++
		for j := 0; j < 2; j++ {
			r := sx.Encrypt(bob, []byte(fmt.Sprint("from ", o.X, " ", j)))
			if !r.OK() {
				other("%v", r)
				return
			}
			w.Msgs = append(w.Msgs, tmsg{from: o.X, wire: r.Wire, pk: true, ik: o.X, ok: true})
		}
	case 'F': // a forged envelope around message I, claiming identity X
		m := w.Msgs[o.I]
		f := rewrap(m.wire, nil, w.cfg.js, func(h *hdr) { h.IK = w.key(o.X) })
		tr := w.trusted(o.X)
		r := st.Receive(w.at(), f, true)
		switch {
		case r.OK() && !tr:
			bad("an initial message with an untrusted identity decrypts")
		case r.OK(): // it is the known session's message
			expect(m.from)
			w.Msgs[o.I].done = true
		default:
			if id := string(w.Bob.Ids[w.at()]); id != idBefore {
				bad("a rejected initial message left the identity %x", id)
			}
			if !tr {
				unchanged("the initial message is rejected")
			}
		}
	case 'D':
		m := w.Msgs[o.I]
		tr := w.trusted(m.ik)
		r := st.Receive(w.at(), m.wire, m.pk)
		switch {
		case m.pk && !tr && r.OK():
			bad("an initial message with an untrusted identity decrypts")
		case m.pk && !tr:
			unchanged("the initial message is rejected")
		case !r.OK():
			if id := string(w.Bob.Ids[w.at()]); id != idBefore {
				bad("a rejected message left the identity %x", id)
			}
			other("%v", r)
		default:
			w.Msgs[o.I].done = true
			expect(m.from)
		}
	case 'S': // bob writes
		if !w.Bob.hasSession(w.at()) {
			return []Finding{{"other", "no session"}}
		}
		ik := st.LoadSession(w.at().P()).SessionState().RemoteIdentityKey().Serialize()
		r := st.Encrypt(w.at(), []byte("from bob"))
		w.NS++
		if !r.OK() {
			other("%v", r)
			return
		}
		to := -1
		for _, i := range []int{0, 1, 3} {
			if bytes.Equal(ik, w.key(i)) {
				to = i
			}
		}
		if to < 0 {
			bad("bob's session belongs to nobody: %x", ik)
			return
		}
		// the message is for him and nobody else
		opens := -1
		for i := range w.X {
			s := &Store{P: w.X[i].Clone(), Ser: ser, Trust: func(Addr, []byte) bool { return true }}
			if r := s.Receive(bob, r.Wire, r.Type == 3); r.OK() {
				opens = i
			}
		}
		if opens >= 0 && opens != to {
			bad("bob's message for %d is read by %d", to, opens)
		}
		expect(to)
		w.Out = append(w.Out, tmsg{from: to, wire: r.Wire, pk: r.Type == 3})
	case 'R': // x reads bob's message and answers
		m := w.Out[o.I]
		sx := &Store{P: w.X[o.X], Ser: ser, Trust: func(Addr, []byte) bool { return true }}
		r := sx.Receive(bob, m.wire, m.pk)
		if !r.OK() {
			other("%v", r)
			return
		}
		w.Out[o.I].done = true
		w.NR++
		r = sx.Encrypt(bob, []byte("answer"))
		if !r.OK() {
			other("%v", r)
			return
		}
		w.Msgs = append(w.Msgs, tmsg{from: o.X, wire: r.Wire, pk: r.Type == 3, ik: o.X, ok: true})
	case 'T':
		w.Deny[o.X] = !w.Deny[o.X]
		w.NDeny++
	}
	return
}

func (w *TW) ops() (out []TOp) {
	for x := 0; x < 2; x++ {
		if w.NB[x] < w.cfg.nb {
			out = append(out, TOp{'B', x, 0})
		}
		if w.NI[x] < w.cfg.ni {
			out = append(out, TOp{'I', x, 0})
		}
		if w.NDeny < w.cfg.deny {
			out = append(out, TOp{'T', x, 0})
		}
	}
	for i, m := range w.Msgs {
		if !m.done {
			out = append(out, TOp{'D', 0, i})
			if m.pk && w.cfg.forge {
				for x := 0; x < 4; x++ {
					if x != m.from {
						out = append(out, TOp{'F', x, i})
					}
				}
			}
		}
	}
	if w.NS < w.cfg.ns && w.Bob.hasSession(w.at()) {
		out = append(out, TOp{'S', 0, 0})
	}
	if w.cfg.own && w.NDeny < w.cfg.deny {
		out = append(out, TOp{'T', 3, 0})
	}
	if w.cfg.own && w.NO < 1 {
		out = append(out, TOp{'O', 3, 0})
	}
	for i, m := range w.Out {
		if !m.done && m.from < 2 && w.NR < w.cfg.nr {
			out = append(out, TOp{'R', m.from, i})
		}
	}
	return
}

func checkS09(c *Ctx) {
	c.Rule("All histories, within the bounds, of bob and two people who claim the same address: bob processes either's bundle, either starts sessions with bob, messages are delivered, forged (the envelope claims another identity), answered, and bob's identity store starts or stops trusting either; with stores that trust on first use and stores that trust every identity. After every step the identity recorded for the address is compared with what the step authenticated.")
	q := c.Q
	ex := func(cfg *tCfg, d int) {
		Explore(c, System[*TW, TOp]{
			Name: cfg.name, Init: func() *TW { return newTW(cfg, false) }, Ops: func(w *TW) []TOp { return w.ops() },
			Apply: func(w *TW, o TOp) (*TW, []Finding) {
				n := w.fork()
				fs := n.do(o)
				n.digest()
				return n, fs
			},
			Key: func(w *TW) [32]byte { return w.img }, Classes: classes("trust"), Depth: d, Max: q(12000, 300000), MaxLive: q(300, 10000),
			Live: func(p []TOp) []Finding {
				w := newTW(cfg, true)
				for _, o := range p {
					if fs := w.do(o); len(fs) > 0 {
						return fs
					}
				}
				return nil
			},
		})
	}
	ex(&tCfg{name: "tofu", tofu: true, nb: 1, ni: 1, ns: 1, nr: 1, forge: true}, q(8, 10))
	ex(&tCfg{name: "tofu-json", js: true, tofu: true, nb: 1, ni: 1, ns: 1, nr: 0, forge: true}, q(6, 10))
	ex(&tCfg{name: "every-identity", tofu: false, nb: 1, ni: 1, ns: 1, nr: 1, forge: true}, q(6, 8))
	ex(&tCfg{name: "denied", tofu: true, nb: 1, ni: 1, ns: 1, nr: 1, deny: 2}, q(6, 9))
	ex(&tCfg{name: "denied-every-identity", tofu: false, nb: 1, ni: 2, ns: 1, nr: 1, deny: 1}, q(6, 8))
	ex(&tCfg{name: "own-bundle", js: true, tofu: true, nb: 1, ni: 1, ns: 1, nr: 0, own: true, at: Addr{"alice", 3}}, q(6, 9))
	ex(&tCfg{name: "own-bundle-denied", tofu: false, nb: 1, ni: 0, ns: 1, nr: 0, deny: 2, own: true}, q(6, 9))
	ex(&tCfg{name: "other-device", tofu: true, nb: 1, ni: 1, ns: 1, nr: 1, forge: true, at: Addr{"alice", 2}}, q(7, 9))
	ex(&tCfg{name: "device-zero", js: true, tofu: true, nb: 1, ni: 1, ns: 1, nr: 0, deny: 1, at: Addr{"alice", 0}}, q(6, 9))
	ex(&tCfg{name: "only-messages", tofu: false, nb: 0, ni: 2, ns: 2, nr: 2}, q(7, 9))
	manyTrust(c)
}

// manyTrust: what bob's identity store says counts however many sessions bob
// has had with either of them.
func manyTrust(c *Ctx) {
	type pat struct {
		name string
		step func(w *TW, i int) []TOp
	}
	last := func(w *TW, x int) []TOp { return []TOp{{'I', x, 0}, {'D', 0, -2}} }
	pats := []pat{
		{"bundles of one", func(w *TW, i int) []TOp { return []TOp{{'B', 0, 0}} }},
		{"bundles of both in turn", func(w *TW, i int) []TOp { return []TOp{{'B', i % 2, 0}} }},
		{"sessions of one", func(w *TW, i int) []TOp { return last(w, 0) }},
		{"sessions of both in turn", func(w *TW, i int) []TOp { return last(w, i%2) }},
		{"sessions of one, bundles of the other", func(w *TW, i int) []TOp {
			if i%2 == 0 {
				return last(w, 0)
			}
			return []TOp{{'B', 1, 0}}
		}},
		{"bundles and answers", func(w *TW, i int) []TOp { return []TOp{{'B', i % 2, 0}, {'S', 0, 0}, {'R', i % 2, -1}, {'D', 0, -1}} }},
		{"bundles of one, at the end the other", func(w *TW, i int) []TOp { return []TOp{{'B', 0, 0}, {'S', 0, 0}} }},
	}
	ns := []int{1, 2, 3, 5, 10, 20, 39, 40, 41, 45}
	if !c.Thorough {
		ns = []int{1, 2, 3, 6, 20, 40, 44}
	}
	const variants = 3 // trust every identity, serialized or not; live
	c.Each("many", len(pats)*len(ns)*variants, func(i int) string {
		return fmt.Sprint(pats[i/variants%len(pats)].name, " ", ns[i/variants/len(pats)], " variant ", i%variants)
	}, func(k *Case, i int) {
		p, n, v := pats[i/variants%len(pats)], ns[i/variants/len(pats)], i%variants
		w := newTW(&tCfg{name: "many", js: v == 1, many: 64}, v == 2)
		run := func(ops ...TOp) bool {
			for _, o := range ops {
				switch o.I {
				case -1: // the last
					o.I = len(w.Msgs) - 1
					if o.K == 'R' {
						o.I = len(w.Out) - 1
					}
				case -2:
					o.I = len(w.Msgs) - 2
				}
				for _, f := range w.do(o) {
					if f.Class == "trust" {
						k.Failf("%s, %d of them: %v", p.name, n, f)
						return false
					}
				}
				k.Trans(1)
			}
			return true
		}
		for j := 0; j < n; j++ {
			if !run(p.step(w, j)...) {
				return
			}
		}
		k.Nontrivial(1)
		// neither, one, the other is trusted
		for _, deny := range [][4]bool{{true, true, true, true}, {true, false}, {false, true}, {false, false, false, true}, {}} {
			w.Deny = deny
			if !run(TOp{'O', 3, 0}) {
				return
			}
			for x := range w.X {
				if !run(TOp{'B', x, 0}) || !run(last(w, x)...) || !run(TOp{'D', 0, -1}) {
					return
				}
			}
			// what is still on its way, and forgeries of it
			at := []int{0, 1, len(w.Msgs) / 2, len(w.Msgs) - 1}
			for _, m := range at {
				if m < 0 || m >= len(w.Msgs) {
					continue
				}
				if w.Msgs[m].pk {
					for x := 0; x < 4; x++ {
						if x != w.Msgs[m].from && !run(TOp{'F', x, m}) {
							return
						}
					}
				}
				if !w.Msgs[m].done && !run(TOp{'D', 0, m}) {
					return
				}
			}
			if w.Bob.hasSession(alice) && !run(TOp{'S', 0, 0}) {
				return
			}
		}
		k.Trace(1)
	})
}
