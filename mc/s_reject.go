package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

func init() {
	register("S03", "model_checking", checkS03)
	register("S04", "model_checking", checkS04)
}

// bad is an input that is not a genuine message for its receiver in this form.
type bad struct {
	name string
	from Addr
	wire []byte
	pk   bool
	m    *SMsg // what it was made from
	may  bool  // it may be taken as m itself (fields that are not authenticated, or irrelevant)
}

var (
	freshPub = func() []byte {
		return keypair(&Rng{Seed: "attacker"}).PublicKey().Serialize()
	}
	attackerPub []byte
)

func attacker() []byte {
	if attackerPub == nil {
		attackerPub = freshPub()
	}
	return attackerPub
}

func flip(b []byte, i int, mask byte) []byte {
	o := append([]byte{}, b...)
	if len(o) > 0 {
		o[(i+len(o))%len(o)] ^= mask
	}
	return o
}

// tamper lists changed forms of an ordinary message; every one must be rejected.
func (w *SW) tamper(inner []byte, others []*sig) (out []struct {
	n string
	b []byte
}) {
	js := w.Cfg.JSON
	s, ok := splitSig(inner, js)
	if !ok {
		return nil
	}
	add := func(n string, f func(t *sig)) {
		t := *s
		f(&t)
		b := t.join(js)
		if b != nil && !bytes.Equal(b, inner) {
			out = append(out, struct {
				n string
				b []byte
			}{n, b})
		}
	}
	add("mac first bit", func(t *sig) { t.Mac = flip(t.Mac, 0, 0x80) })
	add("mac last bit", func(t *sig) { t.Mac = flip(t.Mac, -1, 1) })
	add("mac zero", func(t *sig) { t.Mac = make([]byte, len(t.Mac)) })
	add("text first bit", func(t *sig) { t.CT = flip(t.CT, 0, 1) })
	add("text last bit", func(t *sig) { t.CT = flip(t.CT, -1, 1) })
	add("text shorter", func(t *sig) { t.CT = t.CT[:len(t.CT)-16] })
	add("text longer", func(t *sig) { t.CT = append(append([]byte{}, t.CT...), t.CT[len(t.CT)-16:]...) })
	add("text odd", func(t *sig) { t.CT = t.CT[:len(t.CT)-1] })
	add("counter+1", func(t *sig) { t.Ctr++ })
	add("counter-1", func(t *sig) { t.Ctr-- })
	add("counter+30", func(t *sig) { t.Ctr += 30 })
	add("counter max", func(t *sig) { t.Ctr = 0xffffffff })
	add("previous counter+1", func(t *sig) { t.Prev++ })
	add("ratchet attacker", func(t *sig) { t.Ratchet = attacker() })
	add("ratchet attacker, later", func(t *sig) { t.Ratchet = attacker(); t.Ctr += 2 })
	add("ratchet bit", func(t *sig) { t.Ratchet = flip(t.Ratchet, 5, 4) })
	add("version 2", func(t *sig) {
		if js {
			t.Ver = 2
		} else {
			t.Ver = 0x23
		}
	})
	add("version 4", func(t *sig) {
		if js {
			t.Ver = 4
		} else {
			t.Ver = 0x43
		}
	})
	for i, o := range others {
		o := o
		if o.Ctr != s.Ctr {
			add(fmt.Sprint("counter of other ", i), func(t *sig) { t.Ctr = o.Ctr })
		}
		if !bytes.Equal(o.Ratchet, s.Ratchet) {
			add(fmt.Sprint("ratchet of other ", i), func(t *sig) { t.Ratchet = o.Ratchet })
			add(fmt.Sprint("ratchet and counter of other ", i), func(t *sig) { t.Ratchet, t.Ctr = o.Ratchet, o.Ctr })
		}
		add(fmt.Sprint("text of other ", i), func(t *sig) { t.CT = o.CT })
		add(fmt.Sprint("text and mac of other ", i), func(t *sig) { t.CT, t.Mac = o.CT, o.Mac })
	}
	return
}

// badFor lists the bad inputs for user b in this state, simplest first.
func (w *SW) badFor(b int, deep bool) (out []bad) {
	var keys [][3]int
	for k := range w.Msgs {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	js := w.Cfg.JSON
	var toB []*SMsg
	for _, k := range keys {
		if k[1] == b {
			toB = append(toB, w.Msgs[k])
		}
	}
	// undelivered ones and the most recent two are the base material unless deep
	if w.Base != nil {
		n := toB
		toB = nil
		for _, m := range n {
			if w.Base[[3]int{m.From, m.To, m.Seq}] {
				toB = append(toB, m)
			}
		}
	} else if !deep && len(toB) > 3 {
		toB = toB[len(toB)-3:]
	}
	sgs := map[*SMsg]*sig{}
	inners := map[*SMsg][]byte{}
	for _, m := range toB {
		inner := m.Wire
		if m.Type == protocol.PREKEY_TYPE {
			inner = rawInner(m.Wire, js)
		}
		inners[m] = inner
		if s, ok := splitSig(inner, js); ok {
			sgs[m] = s
		}
	}
	ikB := w.P[b].IK.PublicKey().PublicKey().Serialize()
	// earlier ones only as they are, once more
	for _, k := range keys {
		m := w.Msgs[k]
		if k[1] != b || inners[m] != nil || w.Base != nil || !w.M.Deliv[k] || w.M.rec(m.To, m.From).find(m.Sid) < 0 {
			continue
		}
		out = append(out, bad{"again", w.addr(m.From), m.Wire, m.Type == protocol.PREKEY_TYPE, m, false})
	}
	for mi, m := range toB {
		pk := m.Type == protocol.PREKEY_TYPE
		from := w.addr(m.From)
		var others []*sig
		for oi, o := range toB {
			if o != m && sgs[o] != nil && (deep || oi == mi-1 || oi == mi+1) {
				others = append(others, sgs[o])
			}
		}
		if w.M.Deliv[[3]int{m.From, m.To, m.Seq}] && w.M.rec(m.To, m.From).find(m.Sid) >= 0 {
			out = append(out, bad{"again", from, m.Wire, pk, m, false})
			if pk {
				out = append(out, bad{"inner again", from, inners[m], false, m, false})
			}
		}
		for _, t := range w.tamper(inners[m], others) {
			out = append(out, bad{t.n, from, t.b, false, m, false})
			if pk {
				out = append(out, bad{"enveloped " + t.n, from, rewrap(m.Wire, t.b, js, nil), true, m, false})
			} else if mi == len(toB)-1 {
				ik := w.P[m.From].IK.PublicKey().PublicKey().Serialize()
				out = append(out, bad{"wrapped " + t.n, from, envelope(js, 2, w.Cfg.Spk, regOf(m.From), attacker(), ik, t.b), true, m, false})
			}
		}
		if pk {
			env := func(n string, may bool, f func(h *hdr)) {
				e := rewrap(m.Wire, nil, js, f)
				if e != nil && !bytes.Equal(e, m.Wire) {
					out = append(out, bad{n, from, e, true, m, may})
				}
			}
			known := w.M.rec(b, m.From).find(m.Sid) >= 0
			env("base key attacker", known, func(h *hdr) { h.Base = attacker() })
			env("base key bit", known, func(h *hdr) { h.Base = flip(h.Base, 7, 2) })
			env("base key attacker, no prekey", known, func(h *hdr) { h.Base = attacker(); h.HasOpk = false })
			env("base key attacker, prekey 3", known, func(h *hdr) { h.Base, h.HasOpk, h.Opk = attacker(), true, 3 })
			env("base key attacker, last resort", known, func(h *hdr) { h.Base, h.HasOpk, h.Opk = attacker(), true, lastResort })
			env("base key attacker, unknown prekey", false, func(h *hdr) { h.Base, h.HasOpk, h.Opk = attacker(), true, 99 })
			env("base key attacker, unknown signed prekey", false, func(h *hdr) { h.Base, h.Spk = attacker(), 99 })
			env("identity attacker", known, func(h *hdr) { h.IK = attacker() })
			env("identity attacker, base attacker", known, func(h *hdr) { h.IK, h.Base = attacker(), attacker() })
			env("identity receiver's", known || bytes.Equal(ikB, w.P[m.From].IK.PublicKey().PublicKey().Serialize()), func(h *hdr) { h.IK = ikB })
			env("unknown prekey", known, func(h *hdr) { h.HasOpk, h.Opk = true, 99 })
			env("other prekey", known, func(h *hdr) { h.HasOpk, h.Opk = true, 3 })
			env("no prekey", known || m.Opk < 0, func(h *hdr) { h.HasOpk = false })
			env("unknown signed prekey", known, func(h *hdr) { h.Spk = 99 })
		}
		// pieces
		for _, n := range []int{0, 1, 9, len(m.Wire) / 2, len(m.Wire) - 1} {
			if n < len(m.Wire) {
				out = append(out, bad{fmt.Sprintf("first %d bytes", n), from, m.Wire[:n], pk, m, false})
			}
		}
		// the other kind
		if pk {
			out = append(out, bad{"initial as ordinary", from, m.Wire, false, m, false})
		} else {
			out = append(out, bad{"ordinary as initial", from, m.Wire, true, m, false})
		}
	}
	// b's own messages, and messages for others, presented to b
	for _, k := range keys {
		m := w.Msgs[k]
		pk := m.Type == protocol.PREKEY_TYPE
		if k[0] == b {
			out = append(out, bad{"own message back", w.addr(m.To), m.Wire, pk, m, false})
			if pk {
				out = append(out, bad{"own inner message back", w.addr(m.To), rawInner(m.Wire, js), false, m, false})
			}
		} else if k[1] != b {
			out = append(out, bad{"message for another", w.addr(m.From), m.Wire, pk, m, false})
			out = append(out, bad{"message for another, from its receiver", w.addr(m.To), m.Wire, pk, m, false})
		} else if !pk {
			for i := range w.P {
				if i != b && i != m.From {
					out = append(out, bad{"under another address", w.addr(i), m.Wire, pk, m, false})
				}
			}
			out = append(out, bad{"under an unknown address", Addr{"nobody", 1}, m.Wire, pk, m, false})
			out = append(out, bad{"under another device", Addr{w.addr(m.From).Name, 77}, m.Wire, pk, m, false})
		}
	}
	return
}

// rejects presents every bad input to the live user b in turn: it has to be
// rejected and to change nothing.
func (w *SW) rejects(b int, deep bool, evals *int64) []Finding {
	st := w.store(b)
	st.builder(w.addr(0))
	before := w.P[b].Image()
	pos := w.P[b].Rng.Pos
	defer func() { w.P[b].Rng.Pos = pos }()
	for i, x := range w.badFor(b, deep) {
		if x.may {
			continue
		}
		var r *Res
		st := w.store(b)
		if i%4 == 3 && !x.pk {
			r = st.ReceivePlain(x.from, x.wire, x.pk)
		} else {
			r = st.Receive(x.from, x.wire, x.pk)
		}
		*evals++
		if r.Panic != "" {
			return []Finding{{"crash", fmt.Sprintf("%s of message %s: %v", x.name, x.m.Name(), r)}}
		}
		if r.OK() {
			return []Finding{{"over", fmt.Sprintf("%s of message %s is accepted", x.name, x.m.Name())}}
		}
		if after := w.P[b].Image(); !bytes.Equal(before, after) {
			return []Finding{{"reject", fmt.Sprintf("rejecting %s of message %s (to user %d) changed what is stored: %s", x.name, x.m.Name(), b, diffImage(before, after))}}
		}
	}
	return nil
}

func diffImage(a, b []byte) string {
	la, lb := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	name := func(s string) string {
		if i := strings.Index(s, "="); i > 0 && i < 60 {
			return s[:i]
		}
		return "?"
	}
	ma := map[string]string{}
	for _, l := range la {
		ma[name(l)] = l
	}
	var out []string
	for _, l := range lb {
		n := name(l)
		if old, ok := ma[n]; !ok {
			out = append(out, "new "+n)
		} else if old != l {
			out = append(out, "changed "+n)
		}
		delete(ma, n)
	}
	for n := range ma {
		out = append(out, "lost "+n)
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, ", ")
}

func checkS03(c *Ctx) {
	c.Rule("The reachable states are enumerated breadth first as for S01; every root-to-leaf path is then executed with stores that hand out the same record objects each time, and after every step every bad input of the alphabet (altered, spliced, replayed, truncated, re-enveloped, misaddressed, own and foreign messages) is presented: it must be rejected, the serialized image of everything stored must be unchanged byte for byte, and all later genuine messages of the path must still decrypt as the model says.")
	q := c.Q
	cls := func() map[string]bool { return classes("reject", "lost", "send") }
	var evals int64
	deny := func(w *SW) []Finding { return nil }
	_ = deny
	ex := func(cfg *SessCfg, d, live int) {
		cfg.LiveEach = func(w *SW) []Finding {
			var n int64
			defer func() { k := Case{c: c}; k.Eval(int(n)) }()
			for b := range w.P {
				if fs := w.rejects(b, c.Thorough, &n); fs != nil {
					return fs
				}
			}
			return nil
		}
		// the search itself is about reachability only
		exploreSessions(c, cfg, d, c.Q(6000, 100000), live, cls(), nil)
	}
	ex(two("opk", false, plan(0, 1, 1), 3, q(2, 3)), 30, q(150, 5000))
	ex(odd(two("no-opk-json", true, plan(0, 1, -1), 2, q(2, 3))), 30, q(60, 5000))
	ex(two("last-resort", false, plan(0, 1, lastResort), 3, 1), 30, q(60, 5000))
	ex(two("again", false, plan(0, 1, 1, 2), q(2, 3), q(1, 2)), 30, q(100, 5000))
	ex(two("both", false, plans(plan(0, 1, 1), plan(1, 0, 1)), q(2, 3), q(1, 2)), 30, q(80, 5000))
	ex(own(two("own", false, plans(plan(0, 1, 1), plan(1, 0, -1)), q(1, 2), 1)), q(8, 30), q(40, 5000))
	gap := two("gaps", false, plan(0, 1, 1), 0, 0)
	gap.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2})
	gap.MaxSend = sends(0, 1, q(5, 6), 1, 0, 2)
	ex(gap, 30, q(80, 5000))
	// several archived sessions, of which each knows the ratchet keys of its own messages
	many := two("many", false, plan(0, 1, 1, -1, 2, 0), 0, 0)
	many.Setup = established()
	for i := 1; i < 4; i++ {
		n := 3*i - 2 // messages of alice so far
		many.Setup = append(many.Setup, SOp{'S', 0, 1, 0}, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, n + 1}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, i})
		if i < 3 {
			many.Setup = append(many.Setup, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, n + 2})
		}
	}
	many.MaxSend = sends(0, 1, 11, 1, 0, 5)
	ex(many, q(5, 9), q(40, 3000))
	s03Untrusted(c)
	richReject(c)
	_ = evals
}

// s03Untrusted: rejection for lack of trust, and by failing randomness.
func s03Untrusted(c *Ctx) {
	type wk struct {
		js bool
		st int
	}
	mk := func(x wk) *SW {
		cfg := two(fmt.Sprint("untrusted", x), x.js, plan(0, 1, 1, 2), 0, 0)
		w := newSW(cfg, false)
		switch x.st {
		case 0:
			w.do1(SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0})
		case 1: // bob has a session with alice, she starts another one
			w.do1(append(established(), SOp{'S', 1, 0, 0}, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0})...)
		}
		return w
	}
	c.Each("untrusted", 4, func(i int) string { return fmt.Sprint(i) }, func(k *Case, i int) {
		w0, ok := Setup(c, "untrusted", classes("reject", "lost", "send"), func() *SW { return mk(wk{i%2 == 1, i / 2}) })
		if !ok {
			return
		}
		for mode := 0; mode < 2; mode++ {
			w := w0.live()
			n := w.M.NSent[[2]int{0, 1}] - 1
			m := w.Msgs[[3]int{0, 1, n}]
			before := w.P[1].Image()
			st := w.store(1)
			var r *Res
			if mode == 0 {
				st.Trust = func(Addr, []byte) bool { return false }
				r = st.Receive(alice, m.Wire, true)
				st.Trust = nil
			} else {
				r = withFault(&w.P[1].Rng, 0, func() *Res { return st.Receive(alice, m.Wire, true) })
			}
			k.Eval(1)
			if r.OK() {
				continue // S09 and E01 decide whether this is right
			}
			if after := w.P[1].Image(); !bytes.Equal(before, after) {
				k.Failf("mode %d: a rejected initial message changed what is stored: %s", mode, diffImage(before, after))
				return
			}
			for _, o := range []SOp{{'D', 0, 1, n}} {
				if fs := w.Do(o); len(fs) > 0 {
					k.Failf("mode %d: after the rejected one: %v", mode, fs)
				}
			}
			k.Trace(1)
		}
	})
}

func checkS04(c *Ctx) {
	c.Rule("The reachable states are enumerated breadth first as for S01. In every state every bad input (changed field by field, spliced from two genuine messages, replayed, re-enveloped, misaddressed, own and foreign messages) is presented to a copy of its receiver and must be rejected; fields that are not authenticated may only lead to the genuine plaintext of a message not returned before. For selected states every single-bit change, every truncation and every combination of the fields of two genuine messages is presented as well.")
	c.Assume("an attacker cannot forge HMAC-SHA256 tags; bad inputs are drawn from the listed alphabet")
	q := c.Q
	cls := func() map[string]bool { return classes("over", "dup", "forged") }
	visit := func(w *SW) []Finding {
		n := 0
		defer func() { k := Case{c: c}; k.Eval(n) }()
		for b := range w.P {
			for _, x := range w.badFor(b, c.Thorough) {
				st := &Store{P: w.P[b].Clone(), Ser: w.Ser}
				r := st.Receive(x.from, x.wire, x.pk)
				n++
				if !r.OK() {
					continue
				}
				if f := w.judge(b, x, r); f != "" {
					return []Finding{{"forged", f}}
				}
			}
		}
		return nil
	}
	ex := func(cfg *SessCfg, d int) { exploreSessions(c, cfg, d, c.Q(1500, 60000), c.Q(200, 5000), cls(), visit) }
	ex(two("opk", false, plan(0, 1, 1), 3, q(2, 3)), 30)
	ex(two("no-opk-json", true, plan(0, 1, -1), 2, 2), 30)
	ex(odd(two("again", false, plan(0, 1, 1, 2), q(2, 3), q(1, 2))), 30)
	ex(two("both", false, plans(plan(0, 1, 1), plan(1, 0, 1)), q(2, 3), q(1, 2)), 30)
	ex(own(two("own", true, plans(plan(0, 1, 1), plan(1, 0, -1)), q(1, 2), 1)), q(8, 30))
	gap := two("gaps", false, plan(0, 1, 1), 0, 0)
	gap.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2})
	gap.MaxSend = sends(0, 1, 4, 1, 0, 2)
	ex(gap, 30)
	tri := &SessCfg{Name: "three", Parties: []Addr{alice, bob, carol}, Plan: plans(plan(0, 1, 1), plan(2, 1, 2), plan(0, 2, 1)),
		MaxSend: sends(0, 1, 1, 1, 0, 1, 2, 1, 1, 0, 2, 1), Spk: 7}
	ex(tri, q(6, 9))
	s04Bits(c)
	s04Long(c)
	s04Identities(c)
	richForge(c, visit)
}

// s04Identities: a message is bound to both identity keys of its session.
func s04Identities(c *Ctx) {
	est := established()
	histories := [][]SOp{
		{{'B', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 0}, {'S', 0, 1, 0}}, // initial, session known
		append(append([]SOp{}, est...), SOp{'S', 0, 1, 0}),
		append(append([]SOp{}, est...), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2}), // skipped
		append(append([]SOp{}, est...), SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 1}, SOp{'S', 1, 0, 0}),
	}
	type cse struct {
		h  int
		js bool
	}
	var cs []cse
	for h := range histories {
		cs = append(cs, cse{h, false}, cse{h, true})
	}
	c.Each("identities", len(cs), func(i int) string { return fmt.Sprint(cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		w, ok := Setup(c, "identities", classes("over"), func() *SW {
			return newSW(two("identities", x.js, plan(0, 1, 1, 2), 0, 0), false).do1(histories[x.h]...)
		})
		if !ok {
			return
		}
		var m *SMsg
		for key, y := range w.Msgs {
			if !w.M.Deliv[key] {
				m = y
			}
		}
		if m == nil {
			return
		}
		pk := m.Type == protocol.PREKEY_TYPE
		inner := m.Wire
		if pk {
			inner = rawInner(m.Wire, x.js)
		}
		from := w.addr(m.From)
		keys := []*identity.Key{w.P[0].IK.PublicKey(), w.P[1].IK.PublicKey(), identityPair("somebody else").PublicKey(), identity.NewKey(keypair(&Rng{Seed: "another identity"}).PublicKey())}
		right := [2]int{m.From, m.To}
		// the tag itself
		st := &Store{P: w.P[m.To].Clone(), Ser: w.Ser}
		if r := st.Receive(from, m.Wire, pk); r.OK() {
			sm, err := protocol.NewSignalMessageFromBytes(append([]byte{}, inner...), w.Ser.SignalMessage)
			if err != nil {
				k.Failf("cannot parse the message: %v", err)
				return
			}
			for s := range keys {
				for v := range keys {
					err := sm.VerifyMac(3, keys[s], keys[v], r.Extra.(*message.Keys).MacKey())
					k.Eval(1)
					if (err == nil) != (s == right[0] && v == right[1]) {
						k.Failf("the tag of message %s of user %d to user %d verifies with identity keys %d and %d: %v", m.Name(), m.From, m.To, s, v, err == nil)
						return
					}
				}
			}
		}
		// sessions that were set up with another identity key
		for s := range keys {
			for v := range keys {
				for _, ordinary := range []bool{false, true} {
					if !pk && ordinary {
						continue
					}
					l := w.live()
					st := l.store(m.To)
					st.Trust = func(Addr, []byte) bool { return true }
					rec := st.LoadSession(from.P())
					for _, state := range append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...) {
						state.SetRemoteIdentityKey(keys[s])
						state.SetLocalIdentityKey(keys[v])
					}
					wire, kind := m.Wire, pk
					if ordinary {
						wire, kind = inner, false
					}
					r := st.Receive(from, wire, kind)
					k.Eval(1)
					k.State(1)
					good := s == right[0] && v == right[1]
					if r.Panic != "" || r.OK() != good {
						k.Failf("message %s of user %d to user %d in a session with identity keys %d and %d: %v", m.Name(), m.From, m.To, s, v, r)
						return
					}
				}
			}
		}
		k.Trace(1)
	})
}

// judge decides whether accepting x was right.
func (w *SW) judge(b int, x bad, r *Res) string {
	key := [3]int{x.m.From, x.m.To, x.m.Seq}
	what := fmt.Sprintf("%s of message %s is accepted by user %d", x.name, x.m.Name(), b)
	switch {
	case !x.may:
		return what
	case !bytes.Equal(r.Plain, x.m.Plain):
		return what + " with another plaintext"
	case w.M.Deliv[key]:
		return what + " again"
	}
	return ""
}

func longLens(c *Ctx) []int {
	l := []int{500, 5000, 20000, 70000, 300000, 1<<20 + 1000}
	if c.Thorough {
		l = append(l, 1000, 1<<15, 140000, 600000, 1<<21+7, 1<<22+100, 1<<23+100, 1<<24+100)
	}
	return l
}

func longText(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 ^ i>>8 ^ i>>16)
	}
	return b
}

// longPlaces are the places at which a long message is changed: around everything that
// might be the end of a part, counted from both ends, and some in every stretch.
func longPlaces(n int) (out []int) {
	seen := map[int]bool{}
	add := func(p int) {
		if p >= 0 && p < n && !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	for k := uint(5); 1<<k < n; k++ {
		for _, d := range []int{-17, -1, 0, 1, 16, 100} {
			add(1<<k + d)
			add(n - 1<<k + d)
		}
	}
	for _, m := range []int{1000, 10000, 100000, 1000000, 3000, 1500} {
		add(m + 100)
		add(n - m)
	}
	for i := 0; i < 64; i++ {
		add(n/64*i + i)
	}
	for i := 1; i <= 130; i += 3 {
		add(n - i)
	}
	for i := 0; i < 80; i += 5 {
		add(i)
	}
	return
}

// s04Long: long messages that are changed in one place.
func s04Long(c *Ctx) {
	lens := longLens(c)
	forms := []struct {
		what string
		ops  []SOp
		msg  [3]int
	}{
		{"initial", []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}}, [3]int{0, 1, 0}},
		{"reply", established()[:4], [3]int{1, 0, 0}},
		{"skipped", append(append([]SOp{}, established()...), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2}), [3]int{0, 1, 1}},
	}
	const parts = 8
	n := len(lens) * len(forms) * 2
	worlds := make([]*SW, n)
	for i := range worlds {
		cfg := two("long", i%2 == 1, plan(0, 1, 1), 0, 0)
		f, l := forms[i/2%len(forms)], lens[i/2/len(forms)]
		cfg.Payload = func(m *MMsg) []byte {
			if [3]int{m.From, m.To, m.Seq} == f.msg {
				return longText(l)
			}
			return []byte{1}
		}
		w, ok := Setup(c, "long", classes("over"), func() *SW { return newSW(cfg, false).do1(f.ops...) })
		if !ok {
			return
		}
		worlds[i] = w
	}
	c.Each("long messages", n*parts, func(i int) string {
		return fmt.Sprintf("%s, %d bytes, json %v, part %d", forms[i/parts/2%len(forms)].what, lens[i/parts/2/len(forms)], i/parts%2 == 1, i%parts)
	}, func(k *Case, i int) {
		w, f := worlds[i/parts], forms[i/parts/2%len(forms)]
		m := w.Msgs[f.msg]
		pk := m.Type == protocol.PREKEY_TYPE
		orig, ok := content(m.Wire, pk, w.Cfg.JSON)
		if !ok {
			return
		}
		from, b := w.addr(f.msg[0]), f.msg[1]
		for n, p := range longPlaces(len(m.Wire)) {
			if n%parts != i%parts {
				continue
			}
			wire := flip(m.Wire, p, 1)
			got, ok := content(wire, pk, w.Cfg.JSON)
			if ok && got.same(orig, !pk) || !ok && w.Cfg.JSON {
				continue
			}
			r := (&Store{P: w.P[b].Clone(), Ser: w.Ser}).Receive(from, wire, pk)
			k.Eval(1)
			if r.OK() {
				k.Failf("a message of %d bytes with byte %d changed is accepted", len(wire), p)
				return
			}
		}
		if r := (&Store{P: w.P[b].Clone(), Ser: w.Ser}).Receive(from, m.Wire, pk); !r.OK() || !bytes.Equal(r.Plain, m.Plain) {
			k.Eval1("genuine not decrypted") // S01's
			return
		}
		k.Trace(1)
	})
}

// s04Bits: exhaustive small changes of the bytes.
func s04Bits(c *Ctx) {
	type st struct {
		name string
		js   bool
		ops  []SOp
		from int
		seq  int
		pln  map[[2]int][]int64
	}
	est := established()
	var sts []st
	for _, js := range []bool{false, true} {
		sts = append(sts,
			st{"first message", js, []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}}, 0, 0, nil},
			st{"second initial message", js, []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 0}}, 0, 1, nil},
			st{"reply", js, est[:4], 1, 0, nil},
			st{"new chain", js, append(append([]SOp{}, est...), SOp{'S', 0, 1, 0}), 0, 1, nil},
			st{"skipped", js, append(append([]SOp{}, est...), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2}), 0, 1, nil},
			st{"ahead", js, append(append([]SOp{}, est...), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}), 0, 2, nil},
		)
	}
	worlds, ok := Setup(c, "bits", classes("over"), func() []*SW {
		var ws []*SW
		for _, s := range sts {
			cfg := two("bits-base", s.js, plan(0, 1, 1), 0, 0)
			cfg.Payload = func(m *MMsg) []byte { return []byte(fmt.Sprintf("plain %d %d", m.From, m.Seq)) }
			ws = append(ws, newSW(cfg, false).do1(s.ops...))
		}
		return ws
	})
	if !ok {
		return
	}
	type job struct {
		s    int
		kind string
		i    int
	}
	var jobs []job
	for s := range sts {
		m := worlds[s].Msgs[[3]int{sts[s].from, 1 - sts[s].from, sts[s].seq}]
		step := 1
		if sts[s].js && !c.Thorough {
			step = 2 // every other byte of the longer JSON texts
		}
		for i := 0; i < len(m.Wire); i += step {
			jobs = append(jobs, job{s, "bits", i})
		}
		for i := 0; i < len(m.Wire); i += 8 {
			jobs = append(jobs, job{s, "cut", i})
		}
		jobs = append(jobs, job{s, "splice", 0})
	}
	c.Each("bits", len(jobs), func(i int) string {
		return fmt.Sprint(sts[jobs[i].s].name, " json=", sts[jobs[i].s].js, " ", jobs[i].kind, " ", jobs[i].i)
	}, func(k *Case, i int) {
		j := jobs[i]
		s, w := sts[j.s], worlds[j.s]
		b := 1 - s.from
		m := w.Msgs[[3]int{s.from, b, s.seq}]
		pk := m.Type == protocol.PREKEY_TYPE
		orig, ok := content(m.Wire, pk, s.js)
		if !ok {
			return
		}
		try := func(wire []byte, what string) bool {
			r := (&Store{P: w.P[b].Clone(), Ser: w.Ser}).Receive(w.addr(s.from), wire, pk)
			k.Eval(1)
			if r.Panic != "" {
				return true // S05's
			}
			if !r.OK() {
				return true
			}
			got, ok := content(wire, pk, s.js)
			if !ok && !s.js {
				return k.Failf("%s: %s is accepted although it is not a well-formed message", s.name, what)
			}
			known := w.M.rec(b, s.from).find(m.Sid) >= 0
			if ok && !got.same(orig, known) {
				return k.Failf("%s: %s is accepted", s.name, what)
			}
			if !bytes.Equal(r.Plain, m.Plain) {
				return k.Failf("%s: %s gives another plaintext", s.name, what)
			}
			k.Nontrivial(1)
			return true
		}
		switch j.kind {
		case "bits":
			for bit := 0; bit < 8; bit++ {
				if !try(flip(m.Wire, j.i, 1<<uint(bit)), fmt.Sprintf("the message with bit %d of byte %d changed", bit, j.i)) {
					return
				}
			}
			// deletion and duplication of a byte
			if !try(append(append([]byte{}, m.Wire[:j.i]...), m.Wire[j.i+1:]...), fmt.Sprintf("the message without byte %d", j.i)) {
				return
			}
			try(append(append(append([]byte{}, m.Wire[:j.i]...), m.Wire[j.i]), m.Wire[j.i:]...), fmt.Sprintf("the message with byte %d twice", j.i))
		case "cut":
			for n := j.i; n < j.i+8 && n < len(m.Wire); n++ {
				if !try(m.Wire[:n], fmt.Sprintf("its first %d bytes", n)) || !try(m.Wire[n+1:], fmt.Sprintf("the message without its first %d bytes", n+1)) {
					return
				}
			}
		case "splice":
			// every combination of the fields of this message and another one to the same receiver
			inner := m.Wire
			if pk {
				inner = rawInner(m.Wire, s.js)
			}
			a, ok := splitSig(inner, s.js)
			if !ok {
				return
			}
			for key, o := range w.Msgs {
				if o == m {
					continue
				}
				ob := o.Wire
				if o.Type == protocol.PREKEY_TYPE {
					ob = rawInner(o.Wire, s.js)
				}
				z, ok := splitSig(ob, s.js)
				if !ok {
					continue
				}
				for mask := 0; mask < 32; mask++ {
					t := *a
					if mask&1 != 0 {
						t.Ratchet = z.Ratchet
					}
					if mask&2 != 0 {
						t.Ctr = z.Ctr
					}
					if mask&4 != 0 {
						t.Prev = z.Prev
					}
					if mask&8 != 0 {
						t.CT = z.CT
					}
					if mask&16 != 0 {
						t.Mac = z.Mac
					}
					isA := bytes.Equal(t.join(s.js), a.join(s.js))
					isZ := bytes.Equal(t.join(s.js), z.join(s.js))
					wire := t.join(s.js)
					if pk {
						wire = rewrap(m.Wire, wire, s.js, nil)
					}
					r := (&Store{P: w.P[b].Clone(), Ser: w.Ser}).Receive(w.addr(s.from), wire, pk)
					k.Eval(1)
					if !r.OK() {
						continue
					}
					switch {
					case isA && bytes.Equal(r.Plain, m.Plain):
					case isZ && key[1] == b && bytes.Equal(r.Plain, o.Plain) && !w.M.Deliv[key]:
					default:
						k.Failf("%s: fields of %s and %s combined (%05b) are accepted", s.name, m.Name(), o.Name(), mask)
						return
					}
				}
			}
		}
		k.Trace(1)
	})
}

// contents is what a message says, without encoding details.
type contents struct {
	h hdr
	s sig
}

func content(wire []byte, pk, js bool) (*contents, bool) {
	typ := uint32(2)
	inner := wire
	if pk {
		typ = protocol.PREKEY_TYPE
		inner = rawInner(wire, js)
	}
	h, ok := parseHdr(wire, typ, js)
	if !ok {
		return nil, false
	}
	s, ok := splitSig(inner, js)
	if !ok {
		return nil, false
	}
	if !js {
		s.Ver >>= 4
	}
	return &contents{*h, *s}, true
}

// same: nothing that is authenticated differs. Registration ids are not, prekey ids
// are not once the session exists, of keys neither the unused top bit nor
// trailing bytes.
func (a *contents) same(b *contents, known bool) bool {
	key := func(x, y []byte) bool {
		if len(x) < 33 || len(y) < 33 {
			return false
		}
		p, q := append([]byte{}, x[:33]...), append([]byte{}, y[:33]...)
		p[32] &= 0x7f
		q[32] &= 0x7f
		return bytes.Equal(p, q)
	}
	if a.s.Ver != b.s.Ver || a.s.Ctr != b.s.Ctr || a.s.Prev != b.s.Prev || !bytes.Equal(a.s.CT, b.s.CT) || !bytes.Equal(a.s.Mac, b.s.Mac) || !key(a.s.Ratchet, b.s.Ratchet) {
		return false
	}
	if !a.h.PK || known {
		return true
	}
	if a.h.HasOpk != b.h.HasOpk || (a.h.HasOpk && a.h.Opk != b.h.Opk) || a.h.Spk != b.h.Spk {
		return false
	}
	if len(a.h.IK) < 33 || len(b.h.IK) < 33 {
		return false
	}
	return key(a.h.Base, b.h.Base) && bytes.Equal(a.h.IK[:33], b.h.IK[:33])
}
