package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
)

func init() {
	register("S18", "model_checking", checkS18)
	register("S20", "model_checking", checkS20)
}

// ---------------------------------------------------------------- addresses

func (a Addr) String() string { return fmt.Sprintf("%s:%d", a.Name, a.Dev) }

// byAddr is what a user has stored, per address.
func (p *Party) byAddr() map[string]string {
	p.Sync()
	m := map[string]string{}
	for k, v := range p.Sess {
		m["session of "+k.String()] = string(v)
	}
	for k, v := range p.Ids {
		m["identity of "+k.String()] = string(v)
	}
	return m
}

// others compares everything that concerns other addresses than to.
func others(before, after map[string]string, to Addr) string {
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == "session of "+to.String() || k == "identity of "+to.String() {
			continue
		}
		b, ok := before[k]
		a, still := after[k]
		switch {
		case !ok:
			return k + " appears"
		case !still:
			return k + " is gone"
		case a != b:
			return k + " changes"
		}
	}
	return ""
}

var addrCalls = []string{"SaveIdentity ", "IsTrustedIdentity ", "LoadSession ", "StoreSession ", "ContainsSession ", "DeleteSession "}

// isolate watches an operation of user i that is for the address of j.
func (w *SW) isolate(i, j int) func(op string) []Finding {
	return w.isolateAddr(i, w.addr(j))
}

func (w *SW) isolateAddr(i int, to Addr) func(op string) []Finding {
	before := w.P[i].byAddr()
	bad := ""
	w.hook = func(call string, mut bool) {
		for _, c := range addrCalls {
			if strings.HasPrefix(call, c) && call != c+to.String() && bad == "" {
				bad = "store call " + call
			}
		}
		if call == "DeleteAllSessions" && bad == "" {
			bad = "store call " + call
		}
	}
	return func(op string) (fs []Finding) {
		w.hook = nil
		if bad != "" {
			fs = append(fs, Finding{"isolate", fmt.Sprintf("%s: user %d, operation for %v: %s", op, i, to, bad)})
		}
		if d := others(before, w.P[i].byAddr(), to); d != "" {
			fs = append(fs, Finding{"isolate", fmt.Sprintf("%s: user %d, operation for %v: %s", op, i, to, d)})
		}
		return
	}
}

// crossOffer presents every message under every other address, and to every other
// user. live: only what must be rejected.
func (w *SW) crossOffer(c *Ctx) (fs []Finding) {
	var keys [][3]int
	for q := range w.Msgs {
		keys = append(keys, q)
	}
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	ik := func(i int) []byte { return w.P[i].IK.PublicKey().PublicKey().Serialize() }
	for _, q := range keys {
		m := w.Msgs[q]
		forms := []bad{{wire: m.Wire, pk: m.Type == protocol.PREKEY_TYPE}}
		if forms[0].pk {
			forms = append(forms, bad{wire: innerOf(w.Ser, m.Wire)})
		}
		for b := range w.P {
			for d := range w.P {
				if d == b || b == m.To && d == m.From {
					continue
				}
				for _, f := range forms {
					may := false
					if f.pk && b == m.To {
						id := w.P[b].Ids[w.addr(d)]
						may = (m.Opk < 0 || w.M.Opks[[2]int{b, int(m.Opk)}]) && (id == nil || bytes.Equal(id, ik(m.From)))
					}
					if may && w.Live {
						continue
					}
					atomic.AddInt64(&c.Evals, 1)
					x := w
					if !w.Live {
						x = w.Fork(b)
					}
					end := x.isolateAddr(b, w.addr(d))
					before := x.P[b].Image()
					r := x.store(b).Receive(w.addr(d), f.wire, f.pk)
					op := fmt.Sprintf("message %s (initial=%v) offered to user %d as from %v", m.Name(), f.pk, b, w.addr(d))
					fs = append(fs, end(op)...)
					switch {
					case r.OK() && !may:
						fs = append(fs, Finding{"isolate", op + fmt.Sprintf(": decrypts to %x", r.Plain)})
					case !r.OK() && !bytes.Equal(before, x.P[b].Image()):
						fs = append(fs, Finding{"isolate", op + ": rejected, but stored data changed"})
					case r.OK() && w.M.rec(b, d).Cur != nil && w.M.rec(b, d).find(Sid{m.From, m.Sid.N}) >= 0:
						fs = append(fs, Finding{"isolate", op + ": decrypts in a session that has it already"})
					}
					if len(fs) > 0 {
						return
					}
				}
			}
		}
	}
	return
}

// bundlesElsewhere processes bundles, good and bad, for addresses around.
func (w *SW) bundlesElsewhere(extra []Addr) (fs []Finding) {
	for i := 1; i < len(w.P); i++ {
		good := w.Bun[fmt.Sprint(i, "/1")]
		sig := good.SignedPreKeySignature()
		sig[10] ^= 4
		badb := prekey.NewBundle(good.RegistrationID(), good.DeviceID(), good.PreKeyID(), good.SignedPreKeyID(), good.PreKey(), good.SignedPreKey(), sig, good.IdentityKey())
		for _, to := range append([]Addr{w.addr(i)}, extra...) {
			for n, b := range []*prekey.Bundle{good, badb} {
				if w.Live && n == 0 {
					continue
				}
				x := w
				if !w.Live {
					x = w.Fork(0)
				}
				end := x.isolateAddr(0, to)
				r := x.store(0).Bundle(to, b)
				op := fmt.Sprintf("bundle of user %d (bad=%v) for %v", i, n == 1, to)
				fs = append(fs, end(op)...)
				if n == 1 && r.OK() {
					return nil // S06's
				}
				if len(fs) > 0 {
					return
				}
			}
		}
	}
	return
}

func checkS18(c *Ctx) {
	c.Rule(ruleBFS + " In every transition all store calls that name an address must name the address of the operation, and everything stored for other addresses must stay as it was, byte for byte. In every state every message (and the inner message of initial ones) is offered to every user under every other address, and bundles are processed for other addresses. A user with 90 (thorough: 600) sessions uses them in turn, in several orders. Sessions with every pair of a list of addresses that differ in little (long common beginnings and ends, case, spaces, forms of Unicode, separators, equal short hashes, bits of the device id) are used in turn.")
	c.Assume("an initial message whose one-time prekey is unused, or that has none, may set up a session under whatever address it is delivered for: addresses are not authenticated by the protocol")
	extra := []Addr{{"bob", 2}, {"bob", 111}, {"bob11", 1}, {"", 0}, {"Bob", 1}}
	ex := func(name string, js bool, peers []Addr, share bool, pl map[[2]int][]int64, snd map[[2]int]int, setup []SOp, d int) {
		cfg := &SessCfg{Name: name, JSON: js, Parties: append([]Addr{alice}, peers...), Plan: pl, MaxSend: snd, Spk: 7, Isolate: true, Setup: setup}
		if share {
			cfg.Ident = func(i int) string {
				if i == 0 {
					return "alice"
				}
				return "bob, on all devices"
			}
		}
		cfg.Extra = func(w *SW) (out []SOp) {
			for i := 1; i < c.Q(2, len(w.P)); i++ {
				if w.M.rec(0, i).Cur != nil {
					out = append(out, SOp{'X', 0, i, 0})
				}
			}
			return
		}
		visit := func(w *SW) []Finding {
			fs := w.crossOffer(c)
			if len(fs) == 0 {
				fs = w.bundlesElsewhere(extra)
			}
			return fs
		}
		cfg.LiveEach = visit
		exploreSessions(c, cfg, d, c.Q(1500, 120000), c.Q(40, 5000), classes("isolate"), visit)
	}
	q := c.Q
	d1, d2, d3 := Addr{"bob", 1}, Addr{"bob", 11}, Addr{"bob1", 1}
	ex("devices", false, []Addr{d1, d2}, true, plans(plan(0, 1, 1), plan(0, 2, 1)), sends(0, 1, q(1, 2), 0, 2, 2, 1, 0, 1, 2, 0, 1), nil, 30)
	ex("confusable", true, []Addr{d2, d3}, true, plans(plan(0, 1, 1), plan(0, 2, 1)), sends(0, 1, q(1, 2), 0, 2, 2, 1, 0, 1, 2, 0, 1), nil, 30)
	ex("three", false, []Addr{d1, d2, d3}, true, plans(plan(0, 1, 1), plan(0, 2, 2), plan(0, 3, 3)), sends(0, 1, 1, 0, 2, 1, 0, 3, 1, 1, 0, 1, 2, 0, 1), nil, q(7, 30))
	ex("incoming", false, []Addr{d1, d2, d3}, true, plans(plan(1, 0, 1), plan(2, 0, 2), plan(3, 0, 3)), sends(1, 0, 1, 2, 0, 1, 3, 0, 1, 0, 1, 1, 0, 2, 1), nil, 30)
	ex("incoming-no-opk", false, []Addr{d1, d2}, false, plans(plan(1, 0, -1), plan(2, 0, -1)), sends(1, 0, 2, 2, 0, 2, 0, 1, 1, 0, 2, 1), nil, q(9, 30))
	ex("crossing", false, []Addr{d1, d2}, true, plans(plan(0, 1, 1), plan(1, 0, 1), plan(2, 0, 2)), sends(0, 1, 1, 1, 0, 1, 2, 0, 2, 0, 2, 1), nil, q(7, 30))
	ex("names", true, []Addr{{"", 0}, {"Bob", 1}, {"bob", 1}}, false, plans(plan(0, 1, 1), plan(0, 2, 1), plan(0, 3, 1)), sends(0, 1, 1, 0, 2, 1, 0, 3, 1, 3, 0, 1), nil, q(7, 30))
	var long []SOp
	for _, i := range []int{1, 2} {
		long = append(long, SOp{'B', 0, i, 0})
		for j := 0; j < 3; j++ {
			long = append(long, SOp{'S', 0, i, 0}, SOp{'D', 0, i, j}, SOp{'S', i, 0, 0}, SOp{'D', i, 0, j})
		}
	}
	ex("long-use", false, []Addr{d1, d2}, true, plans(plan(0, 1, 1, 2), plan(0, 2, 1, 2)), sends(0, 1, 4, 0, 2, 4, 1, 0, 4, 2, 0, 4), long, q(4, 30))
	s18Crowd(c)
	s18Similar(c)
}

// s18Similar: pairs of addresses that differ in little. Sessions with both are used in
// turn; nothing may be mixed up.
func s18Similar(c *Ctx) {
	ps := similarAddrs(c.Q(0, 1) == 1)
	c.Each("similar addresses", len(ps)*c.Q(2, 4), func(i int) string {
		p, n := ps[i%len(ps)], i/len(ps)
		return fmt.Sprintf("%s (%d bytes, %d bytes) json %v live %v", p.What, len(p.A.Name), len(p.B.Name), n == 1 || n == 2, n%2 == 1)
	}, func(k *Case, i int) {
		p, n := ps[i%len(ps)], i/len(ps)
		for _, a := range []Addr{p.A, p.B} {
			if x := a.P(); x.Name() != a.Name || x.DeviceID() != a.Dev {
				k.Failf("the address of device %d has name %.80q (%d bytes, should have %d) and device %d", a.Dev, x.Name(), len(x.Name()), len(a.Name), x.DeviceID())
				return
			}
		}
		if p.A.P().String() == p.B.P().String() {
			k.Failf("both addresses have the text %.80q", p.A.P().String())
			return
		}
		one := int64(1)
		cfg := &SessCfg{Name: fmt.Sprint("similar", i), JSON: n == 1 || n == 2, Parties: []Addr{alice, p.A, p.B}, Spk: 7, Pres: []uint32{1}, Isolate: true,
			Plan: plans(plan(0, 1, one), plan(0, 2, one))}
		w := newSW(cfg, n%2 == 1)
		w.quick = true
		for _, o := range []SOp{{'B', 0, 1, 0}, {'B', 0, 2, 0}, {'S', 0, 1, 0}, {'S', 0, 2, 0}, {'D', 0, 2, 0}, {'D', 0, 1, 0}, {'S', 1, 0, 0}, {'S', 2, 0, 0}, {'D', 1, 0, 0}, {'D', 2, 0, 0}, {'S', 0, 2, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 1}, {'D', 0, 2, 1}} {
			k.Trans(1)
			k.State(1)
			k.Eval(1)
			if fs := w.Do(o); len(fs) > 0 {
				k.Failf("%v: %s: %.300s", o, fs[0].Class, fs[0].Text)
				return
			}
		}
		for _, x := range []struct {
			of, as int
			m      *SMsg
		}{{1, 2, w.Msgs[[3]int{1, 0, 0}]}, {2, 1, w.Msgs[[3]int{2, 0, 0}]}} {
			k.Eval(1)
			if r := w.store(0).Receive(w.addr(x.as), x.m.Wire, false); r.OK() {
				k.Failf("a message of user %d decrypts as one of %d", x.of, x.as)
				return
			}
		}
		k.Trace(1)
	})
}

// s18Crowd: one user with very many sessions that are used in turn, and in another order
// the next time; every message must arrive, whatever happens for the others.
func s18Crowd(c *Ctx) {
	n := c.Q(90, 600)
	orders := []string{"in turn", "backwards", "in strides"}
	c.Each("crowd", 4, func(i int) string { return fmt.Sprintf("%d peers, json %v live %v", n, i%2 == 1, i/2 == 1) }, func(k *Case, i int) {
		cfg := &SessCfg{Name: fmt.Sprint("crowd", i), JSON: i%2 == 1, Parties: []Addr{alice}, Plan: map[[2]int][]int64{}, Spk: 7, Pres: []uint32{1}}
		for j := 0; j < n; j++ {
			a := Addr{"peer", uint32(j)} // devices of one user, and users
			if j%3 == 1 {
				a = Addr{fmt.Sprint("peer", j), 1}
			}
			cfg.Parties = append(cfg.Parties, a)
			cfg.Plan[[2]int{0, j + 1}] = []int64{int64(j%2)*2 - 1}
		}
		cfg.Ident = func(i int) string {
			if i > 0 && i%3 != 2 {
				return "peer, on all devices"
			}
			return fmt.Sprint("peer ", i)
		}
		w := newSW(cfg, i/2 == 1)
		w.quick = true
		round := 0
		each := func(f func(j int) []SOp) bool {
			for x := 0; x < n; x++ {
				j := x + 1
				switch round % 3 {
				case 1:
					j = n - x
				case 2:
					j = x*7%n + 1 // n is no multiple of 7
				}
				for _, o := range f(j) {
					k.Trans(1)
					k.State(1)
					k.Eval(1)
					if fs := w.Do(o); len(fs) > 0 {
						return !k.Failf("round %d (%s): %s: %s", round, orders[round%3], fs[0].Class, fs[0].Text)
					}
				}
			}
			round++
			return false
		}
		_ = each(func(j int) []SOp { return []SOp{{'B', 0, j, 0}, {'S', 0, j, 0}} }) ||
			each(func(j int) []SOp { return []SOp{{'D', 0, j, 0}, {'S', j, 0, 0}, {'S', j, 0, 0}} }) ||
			each(func(j int) []SOp { return []SOp{{'D', j, 0, 1}, {'S', 0, j, 0}, {'S', 0, j, 0}} }) ||
			each(func(j int) []SOp { return []SOp{{'D', 0, j, 2}, {'S', j, 0, 0}} }) ||
			each(func(j int) []SOp { return []SOp{{'D', j, 0, 2}, {'D', j, 0, 0}, {'S', 0, j, 0}} }) ||
			each(func(j int) []SOp { return []SOp{{'D', 0, j, 3}, {'D', 0, j, 1}, {'S', j, 0, 0}, {'D', j, 0, 3}} })
		if !k.Failed() {
			// neighbours cannot read each other's
			for j := 1; j < n; j++ {
				a, b := w.Msgs[[3]int{0, j, 3}], w.addr(j+1)
				r := w.store(0).Receive(b, a.Wire, false)
				k.Eval(1)
				if r.OK() {
					k.Failf("alice's own message to %v decrypts as one of %v", w.addr(j), b)
				}
				r = w.store(0).Receive(b, w.Msgs[[3]int{j, 0, 3}].Wire, false)
				if r.OK() {
					k.Failf("a message of %v decrypts as one of %v", w.addr(j), b)
				}
			}
			k.Trace(1)
		}
	})
}

// ---------------------------------------------------------------- saved message keys

type savedKey struct {
	k          *message.Keys // as the library handed it out
	ck, mk, iv []byte        // its contents at that time
	m          *SMsg
}

func (w *SW) keepKey(m *SMsg, r *Res) (fs []Finding) {
	k, _ := r.Extra.(*message.Keys)
	if k == nil {
		return []Finding{{"key", fmt.Sprintf("decrypting %s gives no message key", m.Name())}}
	}
	dup := func(b []byte) []byte { return append([]byte{}, b...) }
	w.Keys = cp(w.Keys)
	w.Keys[[3]int{m.From, m.To, m.Seq}] = &savedKey{k, dup(k.CipherKey()), dup(k.MacKey()), dup(k.Iv()), m}
	if int(k.Index()) != m.Ctr {
		fs = append(fs, Finding{"key", fmt.Sprintf("the key of %s has index %d, the message counter %d", m.Name(), k.Index(), m.Ctr)})
	}
	return
}

func (w *SW) ordinary(m *SMsg) (*protocol.SignalMessage, error) {
	in := append([]byte{}, m.Wire...)
	if m.Type == protocol.PREKEY_TYPE {
		p, err := protocol.NewPreKeySignalMessageFromBytes(in, w.Ser.PreKeySignalMessage, w.Ser.SignalMessage)
		if err != nil {
			return nil, err
		}
		return p.WhisperMessage(), nil
	}
	return protocol.NewSignalMessageFromBytes(in, w.Ser.SignalMessage)
}

// reopen applies every saved key to every message.
func (w *SW) reopen(c *Ctx) (fs []Finding) {
	bad := func(f string, a ...interface{}) []Finding {
		return append(fs, Finding{"key", fmt.Sprintf(f, a...)})
	}
	var ids [][3]int
	for id := range w.Keys {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return fmt.Sprint(ids[i]) < fmt.Sprint(ids[j]) })
	for _, id := range ids {
		s := w.Keys[id]
		user := s.m.To
		check := func(when string) []Finding {
			if !bytes.Equal(s.k.CipherKey(), s.ck) || !bytes.Equal(s.k.MacKey(), s.mk) || !bytes.Equal(s.k.Iv(), s.iv) || int(s.k.Index()) != s.m.Ctr {
				return bad("the saved key of %s changed %s", s.m.Name(), when)
			}
			return nil
		}
		if f := check("by itself"); f != nil {
			return f
		}
		before := w.P[user].Image()
		calls := ""
		w.hook = func(call string, mut bool) { calls += call + "; " }
		st := w.store(user)
		w.hook = nil
		own, err := w.ordinary(s.m)
		if err != nil {
			return bad("%s cannot be parsed again: %v", s.m.Name(), err)
		}
		// with the session's own cipher twice, a cipher without a builder, and another address's
		for i := 0; i < 4; i++ {
			atomic.AddInt64(&c.Evals, 1)
			r := call(st, func(r *Res) {
				ci := st.cipher(w.addr(s.m.From))
				switch i {
				case 2:
					ci = st.plainCipher(w.addr(s.m.From))
				case 3:
					ci = st.cipher(Addr{"somebody else", 3})
				}
				r.Plain, r.Err = ci.DecryptWithKey(own, s.k)
			})
			if !r.OK() || !bytes.Equal(r.Plain, s.m.Plain) {
				return bad("the saved key of %s opens it (attempt %d) as %x (%v), not %x", s.m.Name(), i, r.Plain, r, s.m.Plain)
			}
			if f := check("by being used"); f != nil {
				return f
			}
		}
		if calls != "" {
			return bad("reopening %s with its key calls the store: %s", s.m.Name(), calls)
		}
		if !bytes.Equal(before, w.P[user].Image()) {
			return bad("reopening %s with its key changes what is stored", s.m.Name())
		}
		for _, o := range w.Msgs {
			atomic.AddInt64(&c.Evals, 1)
			om, err := w.ordinary(o)
			if err != nil {
				return bad("%s cannot be parsed again: %v", o.Name(), err)
			}
			r := call(nil, func(r *Res) {
				r.Err = om.VerifyMac(3, w.P[o.From].IK.PublicKey(), w.P[o.To].IK.PublicKey(), s.k.MacKey())
			})
			same := o.Name() == s.m.Name()
			switch {
			case r.Panic != "":
				return bad("verifying %s with the key of %s: %v", o.Name(), s.m.Name(), r)
			case same && !r.OK():
				return bad("the saved key of %s does not verify it: %v", o.Name(), r)
			case !same && r.OK():
				return bad("the saved key of %s also verifies %s", s.m.Name(), o.Name())
			}
		}
	}
	return
}

func checkS20(c *Ctx) {
	c.Rule(ruleBFS + " Every message key that a decryption hands out is kept; in every later state all kept keys are applied to all messages, with four ciphers each.")
	ex := func(cfg *SessCfg) {
		cfg.KeepKeys = true
		visit := func(w *SW) []Finding { return w.reopen(c) }
		cfg.LiveEach = visit
		cfg.Extra = func(w *SW) []SOp {
			if w.M.rec(1, 0).Cur != nil && len(w.Keys) > 0 {
				return []SOp{{'X', 1, 0, 0}}
			}
			return nil
		}
		exploreSessions(c, cfg, 30, c.Q(6000, 200000), c.Q(400, 10000), classes("key"), visit)
	}
	q := c.Q
	ex(two("opk", false, plan(0, 1, 1), q(4, 5), q(3, 3)))
	ex(odd(two("no-opk-json", true, plan(0, 1, -1), q(3, 4), q(2, 3))))
	ex(two("again", false, plan(0, 1, 1, 2), 2, q(2, 3)))
	ex(two("both", true, plans(plan(0, 1, 1), plan(1, 0, 1)), 2, q(2, 3)))
	ex(own(two("own", false, plans(plan(0, 1, 1), plan(1, 0, 1)), q(1, 2), 1)))
	gap := two("gaps", false, plan(0, 1, 1), 0, 0)
	gap.Setup = established()
	gap.MaxSend = sends(0, 1, 1+q(4, 5), 1, 0, 2)
	ex(gap)
	keysFar(c)
	s20Counters(c)
	richKeys(c)
}

// keysFar: keys from far ahead and from the skipped ones, of every payload length.
func keysFar(c *Ctx) {
	cfg := two("keys-far-base", false, plan(0, 1, 1), 0, 0)
	cfg.Setup = established()
	cfg.KeepKeys = true
	base, ok := Setup(c, "keys-far", classes("key"), func() *SW { return newSW(cfg, false) })
	if !ok {
		return
	}
	gaps := []int{1, 5, 126, 127, 128, 255, 256, 1000, 2000}
	c.Each("keys-far", len(gaps), func(i int) string { return fmt.Sprint("gap ", gaps[i]) }, func(k *Case, i int) {
		w := base.live()
		w.quick = true
		do := func(o SOp) bool {
			for _, f := range w.Do(o) {
				if f.Class == "key" {
					return k.Failf("%s", f.Text)
				}
			}
			return true
		}
		for j := 0; j <= gaps[i]; j++ {
			if !do(SOp{'S', 0, 1, 0}) {
				return
			}
		}
		step := 1 + gaps[i]/20
		for j := gaps[i]; j >= 0; j -= step {
			if !do(SOp{'D', 0, 1, 1 + j}) {
				return
			}
			k.Trans(1)
		}
		all := w.Msgs
		w.Msgs = map[[3]int]*SMsg{}
		for id := range w.Keys {
			w.Msgs[id] = all[id]
		}
		for _, f := range w.reopen(c) {
			k.Failf("%s", f.Text)
			return
		}
		k.Trace(1)
		k.Eval1("ok")
	})
}
