package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

// E01: the random source delivers in pieces, or fails.

func init() { register("E01", "fault_enumeration", checkE01) }

// source delivers the bytes of rng as plan says: off bytes were delivered so far, n are
// wanted; it answers how many are given, with which error.
type source struct {
	rng   *Rng
	plan  func(off, n int) (int, error)
	got   []byte
	reads int
}

func (s *source) fault(p []byte) (int, error, bool) {
	s.reads++
	n, err := len(p), error(nil)
	if s.plan != nil {
		n, err = s.plan(len(s.got), len(p))
	}
	if n > len(p) {
		n = len(p)
	}
	if n < 0 {
		n = 0
	}
	s.rng.Read(p[:n])
	s.got = append(s.got, p[:n]...)
	return n, err, true
}

func (s *source) run(f func()) {
	g := &gctx{rng: s.rng, fault: s.fault}
	overlay.Store(gid(), g)
	defer overlay.Delete(gid())
	bind(g, f)
}

// ways of delivering everything.
type delivery struct {
	name string
	plan func() func(off, n int) (int, error)
}

func inSteps(k int) delivery {
	return delivery{fmt.Sprint("at most ", k, " at a time"), func() func(off, n int) (int, error) {
		return func(off, n int) (int, error) { return min(n, k), nil }
	}}
}

func cutAt(zero bool, cuts ...int) delivery {
	return delivery{fmt.Sprint("cut at ", cuts, " empty read ", zero), func() func(off, n int) (int, error) {
		done := map[int]bool{}
		return func(off, n int) (int, error) {
			for _, c := range cuts {
				if c == off && zero && !done[c] {
					done[c] = true
					return 0, nil
				}
				if c > off && off+n > c {
					return c - off, nil
				}
			}
			return n, nil
		}
	}}
}

var endsWithEOF = delivery{"an end of file reported together with the last wanted byte", func() func(off, n int) (int, error) {
	return func(off, n int) (int, error) { return n, io.EOF }
}}

// failures from byte `at` on.
const failKinds = 6

func failAt(at, kind int) func(off, n int) (int, error) {
	failed := false
	return func(off, n int) (int, error) {
		if off+n <= at || failed && kind == 2 {
			return n, nil
		}
		k := max(at-off, 0)
		switch kind {
		case 1: // the short piece first, without an error
			if k > 0 {
				return k, nil
			}
		case 3:
			return k, io.EOF
		case 4:
			return 0, io.ErrUnexpectedEOF
		case 5:
			if k > 0 {
				return k, nil
			}
			return 0, io.EOF
		}
		failed = true
		return k, errors.New("injected: no entropy")
	}
}

// drawn is what an operation produced from randomness.
type drawn struct {
	err     error
	panicS  string
	out     []byte   // everything produced
	res     []byte   // the plaintext, if any
	privs   [][]byte // private and symmetric keys in it
	pubs    [][]byte // public keys of private keys that are not kept
	changed bool     // stored data changed
	empty   bool     // a failing operation returned no key
}

// made says whether all keys are made of their own delivered bytes.
func (d *drawn) made(got []byte) string {
	used := map[int]bool{}
	take := func(what string, match func(b [32]byte) bool) string {
		for i := 0; i+32 <= len(got); i++ {
			var b [32]byte
			copy(b[:], got[i:])
			if !match(b) {
				continue
			}
			for j := i; j < i+32; j++ {
				if used[j] {
					return what + " uses bytes of another key"
				}
			}
			for j := i; j < i+32; j++ {
				used[j] = true
			}
			return ""
		}
		return what + " is not made of the delivered bytes"
	}
	for _, p := range d.privs {
		if s := take(fmt.Sprintf("the key %x", p), func(b [32]byte) bool { c := ref.Clamp(b); return bytes.Equal(c[:], p) || bytes.Equal(b[:], p) }); s != "" {
			return s
		}
	}
	for _, p := range d.pubs {
		if s := take(fmt.Sprintf("the key pair with public key %x", p), func(b [32]byte) bool {
			u := ref.PublicKey(ref.Clamp(b))
			return bytes.Equal(u[:], p[len(p)-32:])
		}); s != "" {
			return s
		}
	}
	return ""
}

func privBytes(k *ecc.ECKeyPair) []byte {
	p := k.PrivateKey().Serialize()
	return append([]byte{}, p[:]...)
}

// generators are the operations that need no state. free is the number of last bytes
// whose failure need not be reported (they only go into a signature).
func generators() []struct {
	name string
	free int
	f    func(d *drawn)
} {
	ik := identityPair("entropy")
	pair := func(d *drawn, k *ecc.ECKeyPair) {
		d.privs = append(d.privs, privBytes(k))
		d.out = append(d.out, privBytes(k)...)
		d.out = append(d.out, k.PublicKey().Serialize()...)
	}
	ser := serializer(false)
	return []struct {
		name string
		free int
		f    func(d *drawn)
	}{
		{"GenerateKeyPair", 0, func(d *drawn) {
			k, err := ecc.GenerateKeyPair()
			if d.err, d.empty = err, k == nil; err == nil {
				pair(d, k)
			}
		}},
		{"GenerateIdentityKeyPair", 0, func(d *drawn) {
			k, err := keyhelper.GenerateIdentityKeyPair()
			if d.err, d.empty = err, k == nil; err == nil {
				p := k.PrivateKey().Serialize()
				d.privs = [][]byte{p[:]}
				d.out = append(append(d.out, p[:]...), k.PublicKey().Serialize()...)
			}
		}},
		{"GeneratePreKeys", 0, func(d *drawn) {
			ks, err := keyhelper.GeneratePreKeys(1, 3, ser.PreKeyRecord)
			if d.err, d.empty = err, ks == nil; err == nil {
				for _, k := range ks {
					pair(d, k.KeyPair())
					d.out = append(d.out, k.Serialize()...)
				}
			}
		}},
		{"GenerateLastResortKey", 0, func(d *drawn) {
			k, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
			if d.err, d.empty = err, k == nil; err == nil {
				pair(d, k.KeyPair())
			}
		}},
		{"GenerateSignedPreKey", 64, func(d *drawn) {
			k, err := keyhelper.GenerateSignedPreKey(ik, 5, ser.SignedPreKeyRecord)
			if d.err, d.empty = err, k == nil; err == nil {
				pair(d, k.KeyPair())
				s := k.Signature()
				d.out = append(d.out, s[:]...)
			}
		}},
		{"GenerateSenderSigningKey", 0, func(d *drawn) {
			k, err := keyhelper.GenerateSenderSigningKey()
			if d.err, d.empty = err, k == nil; err == nil {
				pair(d, k)
			}
		}},
		{"GenerateSenderKey", -1, func(d *drawn) { // ends the process if the source fails
			k := keyhelper.GenerateSenderKey()
			d.privs, d.out = [][]byte{k}, k
		}},
		{"GenerateRegistrationID", 1000, func(d *drawn) { d.out = []byte(fmt.Sprint(keyhelper.GenerateRegistrationID())) }},
		{"GenerateSenderKeyID", 1000, func(d *drawn) { d.out = []byte(fmt.Sprint(keyhelper.GenerateSenderKeyID())) }},
		{"CalculateSignature", 1000, func(d *drawn) {
			s := ecc.CalculateSignature(ik.PrivateKey(), []byte("a message"))
			d.out = s[:]
		}},
		{"EncryptCbc without iv", 0, func(d *drawn) {
			d.out, d.err = cipher.EncryptCbc(nil, make([]byte, 32), []byte("a text"))
			d.empty = d.out == nil
		}},
	}
}

func tryDraw(d *drawn, f func(d *drawn)) {
	r := call(nil, func(r *Res) { f(d) })
	d.panicS = r.Panic
}

func e01Generators(c *Ctx) {
	gens := generators()
	type cse struct {
		g    int
		del  *delivery
		fail int
		kind int
	}
	var cases []cse
	base := make([]*drawn, len(gens))
	srcs := make([]*source, len(gens))
	for i, g := range gens {
		base[i] = &drawn{}
		s := &source{rng: &Rng{Seed: "entropy:" + g.name}}
		s.run(func() { tryDraw(base[i], g.f) })
		srcs[i] = s
		T := len(s.got)
		add := func(d delivery) { cases = append(cases, cse{i, &d, 0, 0}) }
		add(endsWithEOF)
		for k := 1; k < T; k++ {
			add(inSteps(k))
			add(cutAt(false, k))
			add(cutAt(true, k))
			for j := k + 1; j < T; j++ {
				add(cutAt(false, k, j))
			}
		}
		add(cutAt(true, 0))
		if g.free >= 0 {
			for k := 0; k < T-g.free; k++ {
				for kind := 0; kind < failKinds; kind++ {
					cases = append(cases, cse{i, nil, k, kind})
				}
			}
		}
	}
	c.Each("generators", len(cases), func(i int) string {
		cs := cases[i]
		if cs.del != nil {
			return gens[cs.g].name + ": " + cs.del.name
		}
		return fmt.Sprintf("%s: failure %d at byte %d", gens[cs.g].name, cs.kind, cs.fail)
	}, func(k *Case, i int) {
		cs := cases[i]
		g := gens[cs.g]
		b := base[cs.g]
		if b.err != nil || b.panicS != "" {
			k.Failf("fails although the source works: %v %s", b.err, b.panicS)
			return
		}
		if s := b.made(srcs[cs.g].got); s != "" {
			k.Failf("%s (source: %x)", s, srcs[cs.g].got)
			return
		}
		d := &drawn{}
		s := &source{rng: &Rng{Seed: "entropy:" + g.name}}
		if cs.del != nil {
			s.plan = cs.del.plan()
		} else {
			s.plan = failAt(cs.fail, cs.kind)
		}
		s.run(func() { tryDraw(d, g.f) })
		switch {
		case d.panicS != "":
			k.Failf("panic: %s", d.panicS)
		case cs.del != nil && d.err != nil:
			k.Failf("fails although the source delivers everything: %v", d.err)
		case cs.del != nil && !bytes.Equal(d.out, b.out):
			k.Failf("gives %x, and %x when the source delivers all bytes at once", d.out, b.out)
		case cs.del == nil && cs.kind != 2 && d.err == nil:
			k.Failf("succeeds although the source failed at byte %d", cs.fail)
		case cs.del == nil && d.err != nil && !d.empty:
			k.Failf("returns a key together with the error")
		case d.err == nil && d.made(s.got) != "":
			k.Failf("%s", d.made(s.got))
		}
		k.Trace(1)
		k.Nontrivial(1)
		if cs.del != nil {
			k.Eval1("same keys")
		} else {
			k.Eval1("error")
		}
	})
}

// e01Batches makes long batches of prekeys, with the source failing at every prekey of
// them, or delivering in pieces.
func e01Batches(c *Ctx) {
	n := c.Q(140, 600)
	ser := serializer(false)
	type batch struct{ from, to int }
	batches := []batch{{1, n}, {0xfffff0, 0xfffff0 + n/2}}
	at := []int{0, 13, 31}
	draw := func(b batch, plan func(off, n int) (int, error)) (*drawn, []*record.PreKey, *source) {
		d, s := &drawn{}, &source{rng: &Rng{Seed: fmt.Sprint("batch ", b)}, plan: plan}
		var ks []*record.PreKey
		s.run(func() {
			tryDraw(d, func(d *drawn) {
				ks, d.err = keyhelper.GeneratePreKeys(b.from, b.to, ser.PreKeyRecord)
				for _, k := range ks {
					d.out = append(d.out, k.Serialize()...)
					d.privs = append(d.privs, privBytes(k.KeyPair()))
				}
			})
		})
		return d, ks, s
	}
	for _, b := range batches {
		b := b
		good, ks, src := draw(b, nil)
		c.One(fmt.Sprint("batch ", b), func(k *Case) {
			if good.err != nil || good.panicS != "" || len(ks) != b.to-b.from+1 {
				k.Failf("%d prekeys: %v %s", len(ks), good.err, good.panicS)
			} else if s := good.made(src.got); s != "" {
				k.Failf("%s", s)
			}
			k.Nontrivial(1)
		})
		dels := []delivery{endsWithEOF, inSteps(1), inSteps(31), inSteps(33)}
		for i := 0; i < b.to-b.from+1; i++ {
			dels = append(dels, cutAt(true, 32*i+i%32))
		}
		c.Each(fmt.Sprint("batch ", b, " in pieces"), len(dels), func(i int) string { return dels[i].name }, func(k *Case, i int) {
			d, _, _ := draw(b, dels[i].plan())
			if d.err != nil || d.panicS != "" {
				k.Failf("fails although the source delivers everything: %v %s", d.err, d.panicS)
			} else if !bytes.Equal(d.out, good.out) {
				k.Failf("gives other prekeys than when the source delivers all bytes at once")
			}
			k.Trace(1)
			k.Nontrivial(1)
		})
		fails := (b.to - b.from + 1) * len(at) * failKinds
		c.Each(fmt.Sprint("batch ", b, " with a failure"), fails, func(i int) string {
			return fmt.Sprintf("failure %d at byte %d of prekey %d", i%failKinds, at[i/failKinds%len(at)], i/failKinds/len(at))
		}, func(k *Case, i int) {
			d, ks, s := draw(b, failAt(32*(i/failKinds/len(at))+at[i/failKinds%len(at)], i%failKinds))
			switch {
			case d.panicS != "":
				k.Failf("panic: %s", d.panicS)
			case d.err == nil && i%failKinds != 2:
				k.Failf("%d prekeys and no error although the source failed", len(ks))
			case d.err != nil && ks != nil:
				k.Failf("%d prekeys together with the error", len(ks))
			case d.err == nil: // the read was tried again
				if x := d.made(s.got); x != "" {
					k.Failf("%s", x)
				}
			}
			k.Trace(1)
			k.Nontrivial(1)
			k.Eval1("error")
		})
	}
}

// rawDraw executes an operation of a session world with a source, without the model.
func (w *SW) rawDraw(o SOp, s *source) *drawn {
	i := w.touched(o)
	d := &drawn{}
	before := w.P[i].Image()
	var r *Res
	s.rng = &w.P[i].Rng
	keys := func() (m map[string]bool) {
		m = map[string]bool{}
		if rec := w.loadRec(i, w.peerOf(o)); rec != nil {
			for _, st := range append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...) {
				if st.HasSenderChain() {
					m[string(privBytes(st.SenderRatchetKeyPair()))] = true
				}
			}
		}
		return
	}
	had := keys()
	s.run(func() {
		st := w.store(i)
		switch o.K {
		case 'B':
			opk := w.Cfg.Plan[[2]int{o.A, o.B}][w.M.NBundle[[2]int{o.A, o.B}]]
			r = st.Bundle(w.addr(o.B), w.bun(o.B, opk, w.M.NBundle[[2]int{o.A, o.B}]))
		case 'S':
			r = st.Encrypt(w.addr(o.B), []byte("entropy"))
		case 'D':
			m := w.Msgs[[3]int{o.A, o.B, o.I}]
			r = st.Receive(w.addr(o.A), m.Wire, m.Type == protocol.PREKEY_TYPE)
		case 'P':
			m := w.Msgs[[3]int{o.A, o.B, o.I}]
			r = st.ReceivePlain(w.addr(o.A), m.Wire, m.Type == protocol.PREKEY_TYPE)
		default:
			panic(harnessErr{"draw " + o.String()})
		}
	})
	d.err, d.panicS = r.Err, r.Panic
	after := w.P[i].Image()
	d.changed = !bytes.Equal(before, after)
	d.res = r.Plain
	d.out = append(append(append([]byte{}, r.Plain...), r.Wire...), after...)
	if r.OK() {
		for p := range keys() {
			if !had[p] {
				d.privs = append(d.privs, []byte(p))
			}
		}
		if rec := w.loadRec(i, w.peerOf(o)); rec != nil && o.K == 'B' {
			d.pubs = append(d.pubs, rec.SessionState().SenderBaseKey())
		}
	}
	return d
}

func (w *SW) peerOf(o SOp) int {
	if w.touched(o) == o.A {
		return o.B
	}
	return o.A
}

// entropy runs every operation that draws randomness with every delivery and failure.
func (w *SW) entropy(c *Ctx) (fs []Finding) {
	for _, o := range w.Ops() {
		if o.K == 'R' || o.K == 'I' || o.K == 'X' {
			continue
		}
		i := w.touched(o)
		fork := func() *SW { return w.Fork(i) }
		if w.Live {
			fork = func() *SW { return w }
		}
		bad := func(how, f string, a ...interface{}) []Finding {
			return []Finding{{"entropy", fmt.Sprintf("%v with %s: ", o, how) + fmt.Sprintf(f, a...)}}
		}
		if !w.Live {
			s := &source{}
			b := fork().rawDraw(o, s)
			if b.err != nil || b.panicS != "" {
				continue // not delivered for another reason
			}
			T := len(s.got)
			if T == 0 {
				continue
			}
			if x := b.made(s.got); x != "" {
				return bad("a working source", "%s (source: %x)", x, s.got)
			}
			dels := []delivery{endsWithEOF, cutAt(true, 0)}
			for k := 1; k < T; k++ {
				dels = append(dels, cutAt(k%2 == 0, k))
				if c.Thorough || k < 4 || k == 7 || k == 16 || k == 31 || k == 33 {
					dels = append(dels, inSteps(k))
				}
			}
			for _, del := range dels {
				atomic.AddInt64(&c.Evals, 1)
				s2 := &source{plan: del.plan()}
				d := fork().rawDraw(o, s2)
				if d.err != nil || d.panicS != "" {
					return bad("randomness "+del.name, "fails: %v %s", d.err, d.panicS)
				}
				if !bytes.Equal(d.out, b.out) {
					return bad("randomness "+del.name, "the result differs from that with all bytes at once; %s", d.made(s2.got))
				}
				c.Outcome("same keys")
			}
			for k := 0; k < T; k++ {
				for kind := 0; kind < failKinds; kind++ {
					if !c.Thorough && (k+kind)%3 != 0 && k%32 != 0 {
						continue
					}
					how := fmt.Sprintf("failure %d at byte %d of the randomness", kind, k)
					atomic.AddInt64(&c.Evals, 1)
					atomic.AddInt64(&c.Distinct, 1)
					f := fork()
					s2 := &source{plan: failAt(k, kind)}
					d := f.rawDraw(o, s2)
					switch {
					case d.panicS != "":
						return bad(how, "panic: %s", d.panicS)
					case d.err == nil && kind != 2 && len(b.privs)+len(b.pubs) > 0:
						return bad(how, "succeeds")
					case d.err == nil: // the failing draw was not needed, or repeated
						if !bytes.Equal(d.res, b.res) {
							return bad(how, "gives another result")
						}
						if x := d.made(s2.got); x != "" {
							return bad(how, "%s", x)
						}
						c.Outcome("the draw was not needed")
						continue
					case d.changed:
						return bad(how, "stored data changed")
					}
					// afterwards it works
					if kind == 0 && k%8 == 0 {
						for _, x := range f.Do(o) {
							return bad(how, "and then again: %s", x.Text)
						}
					}
					c.Outcome("error, nothing changed")
				}
			}
			continue
		}
		// live stores: failures must leave the objects in memory as they are
		pos := w.P[i].Rng.Pos
		if ok, _ := w.M.clone().Deliver(o.B, o.A, w.msgModel(o), w.isPK(o)); o.K != 'B' && !(ok && (o.K == 'D' || o.K == 'P')) {
			continue
		}
		draws := o.K == 'B' || len(w.M.rec(o.B, o.A).states()) <= 1 && w.needsRatchet(o)
		if !draws {
			continue
		}
		offs := []int{0, 1, 31}
		if o.K == 'B' {
			offs = append(offs, 32, 33, 63)
		}
		for n, k := range offs {
			how := fmt.Sprintf("failure %d at byte %d of the randomness (stores in memory)", n, k)
			atomic.AddInt64(&c.Evals, 1)
			d := w.rawDraw(o, &source{plan: failAt(k, []int{0, 1, 3, 4, 5, 0}[n])})
			w.P[i].Rng.Pos = pos
			switch {
			case d.panicS != "":
				return bad(how, "panic: %s", d.panicS)
			case d.err == nil:
				return bad(how, "succeeds")
			case d.changed:
				return bad(how, "stored data changed")
			}
		}
	}
	return
}

func (w *SW) msgModel(o SOp) *MMsg {
	if m := w.Msgs[[3]int{o.A, o.B, o.I}]; m != nil && o.K != 'B' && o.K != 'S' {
		return &m.MMsg
	}
	return &MMsg{From: o.A, To: o.B, Seq: -1}
}

func (w *SW) isPK(o SOp) bool {
	m := w.Msgs[[3]int{o.A, o.B, o.I}]
	return m != nil && m.Type == protocol.PREKEY_TYPE
}

// needsRatchet: the message starts a chain the receiver does not have.
func (w *SW) needsRatchet(o SOp) bool {
	m := w.Msgs[[3]int{o.A, o.B, o.I}]
	if m == nil {
		return false
	}
	for _, s := range w.M.rec(o.B, o.A).states() {
		for _, ch := range s.Recv {
			if ch.Rid == m.Rid {
				return false
			}
		}
	}
	return true
}

// gcreateProcess makes a group session in this process with a failing source, and
// tells what came of it (it is run in a process of its own).
func gcreateProcess(at, kind int, js bool) {
	p := newParty(alice, identityPair("gcreate"), 1)
	ser := serializer(js)
	st := &Store{P: p, Ser: ser}
	s := &source{rng: &p.Rng}
	if at >= 0 {
		s.plan = failAt(at, kind)
	}
	g := GName{"group", alice}
	var r *Res
	s.run(func() { r = st.GCreate(g) })
	switch {
	case r.Panic != "":
		fmt.Println("PANIC", r.Panic)
	case r.Err != nil:
		if len(p.SK) > 0 {
			fmt.Println("CHANGED")
		} else {
			fmt.Println("ERR")
		}
	default:
		rec := st.LoadSenderKey(g.P())
		state, err := rec.SenderKeyState()
		if err != nil {
			fmt.Println("PANIC", err)
			return
		}
		d := &drawn{privs: [][]byte{privBytes(state.SigningKey()), state.SenderChainKey().Seed()}}
		fmt.Println("OK", len(s.got), hex.EncodeToString(r.Wire), d.made(s.got))
	}
}

func e01Groups(c *Ctx) {
	run := func(at, kind int, js bool) (string, bool) {
		out, err := exec.Command(os.Args[0], "gcreate", itoa(at), itoa(kind), fmt.Sprint(js)).Output()
		return strings.TrimSpace(string(out)), err == nil
	}
	const T = 68
	n := T * failKinds * 2
	c.Each("group-create-failures", n, func(i int) string {
		return fmt.Sprintf("failure %d at byte %d json %v", i/2%failKinds, i/2/failKinds, i%2 == 1)
	}, func(k *Case, i int) {
		out, ok := run(i/2/failKinds, i/2%failKinds, i%2 == 1)
		f := strings.SplitN(out, " ", 4)
		switch {
		case !ok && out == "":
			k.Eval1("the process ends")
		case f[0] == "ERR":
			k.Eval1("error")
		case f[0] == "OK" && len(f) < 4:
			k.Eval1("only the key id is affected") // keys are all made of delivered bytes
		default:
			k.Failf("%s", out)
		}
		k.Trace(1)
		k.Nontrivial(1)
	})
	// deliveries, in this process
	mk := func(js bool, plan func(off, n int) (int, error)) (*drawn, *source) {
		p := newParty(alice, identityPair("gcreate"), 1)
		st := &Store{P: p, Ser: serializer(js)}
		s := &source{rng: &p.Rng, plan: plan}
		g := GName{"group", alice}
		d := &drawn{}
		var rs []*Res
		s.run(func() {
			for i := 0; i < 2; i++ {
				rs = append(rs, st.GCreate(g))
				if i == 0 && rs[0].OK() {
					state, err := st.LoadSenderKey(g.P()).SenderKeyState()
					if err == nil {
						d.privs = append(d.privs, privBytes(state.SigningKey()), state.SenderChainKey().Seed())
					}
				}
				rs = append(rs, st.GEncrypt(g, []byte("text")))
			}
		})
		for _, r := range rs {
			if !r.OK() {
				d.err = errors.New(r.String())
			}
			d.out = append(d.out, r.Wire...)
		}
		d.out = append(d.out, p.Image()...)
		return d, s
	}
	for _, js := range []bool{false, true} {
		b, bs := mk(js, nil)
		T := len(bs.got)
		dels := []delivery{endsWithEOF}
		for k := 1; k < T; k++ {
			dels = append(dels, cutAt(false, k), cutAt(true, k), inSteps(k))
		}
		c.Each(fmt.Sprint("group-deliveries-json=", js), len(dels), func(i int) string { return dels[i].name }, func(k *Case, i int) {
			if b.err != nil || len(b.privs) == 0 {
				k.Failf("fails although the source works: %v", b.err)
				return
			}
			if x := b.made(bs.got); x != "" {
				k.Failf("%s (source: %x)", x, bs.got)
				return
			}
			d, _ := mk(js, dels[i].plan())
			if d.err != nil || !bytes.Equal(d.out, b.out) {
				k.Failf("differs from delivery at once (%v)", d.err)
			}
			k.Trace(1)
			k.Eval1("same keys")
		})
	}
}

func checkE01(c *Ctx) {
	c.Rule("Every operation that draws randomness is run with a source that delivers in pieces: all single cuts, all pairs of cuts and all step sizes of its stream (for the generators; all single cuts for session operations in every state of short histories), and with a source that fails at every single byte in six ways (with and without a partial read, for ever or once, different errors). Pieces must give the same result as all bytes at once, failures an error and no change. Group session creation with failures runs in processes of its own, because the Go library may end the process. Non-trivial: every case (each cuts or fails somewhere else).")
	c.Assume("when the source fails, crypto/rand.Read ends the process, which counts as no key; a failure while drawing the nonce part of a signature or a message id is not covered by the property")
	e01Generators(c)
	e01Batches(c)
	e01Groups(c)
	q := c.Q
	ex := func(cfg *SessCfg) {
		visit := func(w *SW) []Finding { return w.entropy(c) }
		cfg.LiveEach = visit
		exploreSessions(c, cfg, 30, c.Q(250, 20000), c.Q(40, 2000), classes("entropy"), visit)
	}
	ex(two("opk", false, plan(0, 1, 1), q(3, 4), q(2, 3)))
	ex(two("no-opk-json", true, plan(0, 1, -1), q(2, 3), q(1, 3)))
	ex(two("again", false, plan(0, 1, 1, 2), q(1, 2), q(1, 2)))
	ex(two("both", true, plans(plan(0, 1, 1), plan(1, 0, 1)), 1, q(1, 2)))
}
