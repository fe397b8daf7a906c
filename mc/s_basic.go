package main

import (
	"bytes"
	"fmt"
	"strings"
)

// Checks decided by breadth-first search of the session model against the library.

var alice, bob, carol = Addr{"alice", 3}, Addr{"bob", 1}, Addr{"carol", 200}

func init() {
	register("S01", "model_checking", checkS01)
	register("S02", "model_checking", checkS02)
	register("S08", "model_checking", checkS08)
	register("S12", "model_checking", checkS12)
	register("S16", "model_checking", checkS16)
	register("S17", "model_checking", checkS17)
}

// oddAlice, oddBob and oddCarol are users with unusual keys.
var oddAlice, oddBob, oddCarol = Addr{"!alice", 1}, Addr{"!bob", 0xffffffff}, Addr{"!carol", 0}

// odd gives the users of a scenario unusual keys.
func odd(cfg *SessCfg) *SessCfg {
	cfg.Name += "-odd-keys"
	cfg.Parties = []Addr{oddAlice, oddBob, oddCarol}[:len(cfg.Parties)]
	return cfg
}

// own makes the users two devices of one person: one name, one identity key.
func own(cfg *SessCfg) *SessCfg {
	cfg.Name += "-own-devices"
	cfg.Parties = []Addr{{"alice", 1}, {"alice", 2}}
	cfg.Ident = func(int) string { return "alice/own" }
	return cfg
}

func sends(kv ...int) map[[2]int]int {
	m := map[[2]int]int{}
	for i := 0; i+2 < len(kv); i += 3 {
		m[[2]int{kv[i], kv[i+1]}] = kv[i+2]
	}
	return m
}

func plan(a, b int, opks ...int64) map[[2]int][]int64 { return map[[2]int][]int64{{a, b}: opks} }

func plans(ps ...map[[2]int][]int64) map[[2]int][]int64 {
	m := map[[2]int][]int64{}
	for _, p := range ps {
		for k, v := range p {
			m[k] = v
		}
	}
	return m
}

// two is a scenario of alice (0) and bob (1).
func two(name string, json bool, pl map[[2]int][]int64, sa, sb int) *SessCfg {
	return &SessCfg{Name: name, Parties: []Addr{alice, bob}, JSON: json, Plan: pl, MaxSend: sends(0, 1, sa, 1, 0, sb), Spk: 7}
}

// established returns set-up operations that leave both users with ordinary messages.
func established() []SOp {
	return []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 0}, {'S', 1, 0, 0}, {'D', 1, 0, 0}}
}

// pingpong appends n round trips after `established` (messages 1..n of each side).
func pingpong(ops []SOp, from, n int) []SOp {
	for i := 0; i < n; i++ {
		ops = append(ops, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, from + i}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, from + i})
	}
	return ops
}

const ruleBFS = "States are all worlds (both users' stored bytes, randomness positions and messages in flight) reachable by the listed operations within the bounds, found by breadth-first search where every transition executes the library on a copy of the stored bytes and is compared with a symbolic model; root-to-leaf paths are executed again from the start with stores and cipher objects that stay in memory."

func checkS01(c *Ctx) {
	c.Rule(ruleBFS)
	c.Assume("HMAC, HKDF, AES and X25519 of the Go library behave as specified; randomness is a fixed stream per user")
	cls := func() map[string]bool { return classes("lost", "send", "bundle") }
	q := c.Q
	ex := func(cfg *SessCfg, d int) {
		exploreSessions(c, cfg, d, c.Q(60000, 1500000), c.Q(1500, 20000), cls(), nil)
	}
	ex(two("opk", false, plan(0, 1, 1), q(4, 5), 4), 30)
	ex(two("no-opk", false, plan(0, 1, -1), 3, q(3, 4)), 30)
	ex(two("last-resort", true, plan(0, 1, lastResort), 3, 3), 30)
	ex(odd(two("opk0", true, plan(0, 1, 0), 3, 3)), 30)
	ex(own(two("opk", true, plans(plan(0, 1, 1), plan(1, 0, 2)), 2, q(2, 3))), q(10, 30))
	// one direction, many messages: every order of arrival
	one := two("one-way", false, plan(0, 1, 1), q(6, 8), 0)
	ex(one, 30)
	// many chains, each with a message that is late
	late := two("late-chains", false, plan(0, 1, 1), 0, 0)
	late.Setup = established()
	for i := 0; i < 4; i++ { // alice sends two on each of her chains, the first is late
		b := 1 + 2*i
		late.Setup = append(late.Setup, SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, b + 1}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, b + 1})
	}
	late.MaxSend = sends(0, 1, 10, 1, 0, 10)
	ex(odd(late), q(7, 12))
	// long ordinary use, then anything
	long := two("after-long-use", true, plan(0, 1, 2), 0, 0)
	long.Setup = pingpong(established(), 1, 12)
	long.MaxSend = sends(0, 1, 13+q(3, 4), 1, 0, 13+3)
	ex(long, 30)
	s01Payloads(c)
	s01Far(c)
	s01Counters(c)
	s01Long(c)
	richPlain(c, cls())
}

// s01Long: long use in several patterns; the model decides about every message.
func s01Long(c *Ctx) {
	turns := c.Q(700, 8000)
	c.Each("long-use", 16, func(i int) string {
		return fmt.Sprintf("pattern %d json %v live %v", i/4, i%2 == 1, i/2%2 == 1)
	}, func(k *Case, i int) {
		cfg := two(fmt.Sprint("long-use-", i), i%2 == 1, plan(0, 1, 1), 0, 0)
		cfg.Setup = established()
		w := newSW(cfg, false)
		if i/2%2 == 1 {
			w = w.live()
		}
		w.quick = true
		n := [2]int{1, 1} // messages so far
		do := func(o SOp) bool {
			if fs := w.Do(o); len(fs) > 0 {
				k.Failf("after %v messages: %v", n, fs[0])
				return false
			}
			return true
		}
		send := func(a int) bool { n[a]++; return do(SOp{'S', a, 1 - a, 0}) }
		del := func(a, j int) bool { return j < 1 || do(SOp{'D', a, 1 - a, j}) }
		for t := 0; t < turns; t++ {
			for a := 0; a < 2; a++ {
				ok := true
				switch i / 4 {
				case 0: // one after the other
					ok = send(a) && del(a, n[a]-1)
				case 1: // the first of two arrives two turns late
					ok = send(a) && send(a) && del(a, n[a]-1) && del(a, n[a]-6)
				case 2: // backwards
					ok = send(a) && send(a) && send(a) && del(a, n[a]-1) && del(a, n[a]-2) && del(a, n[a]-3)
				case 3: // both write before either reads
					if a == 0 {
						ok = send(0) && send(1) && del(1, n[1]-1) && del(0, n[0]-1)
					}
				}
				if !ok {
					return
				}
			}
			if t%8 == 0 && !w.Live { // what is over need not be kept
				for key := range w.Msgs {
					if key[2] < n[key[0]]-20 {
						delete(w.Msgs, key)
						delete(w.M.Deliv, key)
					}
				}
			}
		}
		k.Trace(1)
		k.Eval(n[0] + n[1])
	})
}

// s01Payloads: every length, several contents, both message kinds.
func s01Payloads(c *Ctx) {
	for _, js := range []bool{false, true} {
		cfg := two(fmt.Sprint("payload-base-", js), js, plan(0, 1, 1), 0, 0)
		estab := *cfg
		estab.Setup = established()
		worlds, ok := Setup(c, "payloads", classes("lost", "send", "bundle"), func() []*SW {
			return []*SW{newSW(cfg, false).do1(SOp{'B', 0, 1, 0}), newSW(&estab, false)}
		})
		if !ok {
			continue
		}
		fills := []func(i, n int) byte{
			func(i, n int) byte { return byte(i*7 + n) },
			func(i, n int) byte { return byte(16 - n%16) },
			func(i, n int) byte { return 0 },
			func(i, n int) byte { return 0xff },
			func(i, n int) byte { return 1 },
		}
		var lens []int
		for n := 0; n <= c.Q(300, 1100); n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 4095, 4096, 4097, 65535, 65536, 65537, 1<<20-1, 1<<20, 1<<20+1, 1<<21+7, 1<<22+1)
		nf := len(fills)
		c.Each(fmt.Sprint("payloads-json=", js), len(lens)*nf*2, func(i int) string {
			return fmt.Sprintf("len %d fill %d kind %d", lens[i/(2*nf)], i/2%nf, i%2)
		}, func(k *Case, i int) {
			n, f, kind := lens[i/(2*nf)], fills[i/2%nf], i%2
			pl := make([]byte, n)
			for j := range pl {
				pl[j] = f(j, n)
			}
			w := worlds[kind].Fork(0, 1)
			cf := *w.Cfg
			w.Cfg = &cf
			cf.Payload = func(*MMsg) []byte { return pl }
			seq := w.M.NSent[[2]int{0, 1}]
			for _, o := range []SOp{{'S', 0, 1, 0}, {'D', 0, 1, seq}} {
				if fs := w.Do(o); len(fs) > 0 {
					k.Failf("%v", fs)
					return
				}
			}
			k.Trace(1)
			k.Eval1("ok")
			k.Nontrivial(1)
		})
	}
}

// do1 executes operations on a fresh world and returns it.
func (w *SW) do1(ops ...SOp) *SW {
	for _, o := range ops {
		if fs := w.Do(o); len(fs) > 0 {
			panic(setupErr{o.String(), fs})
		}
	}
	for i := range w.P {
		w.digest(i)
	}
	return w
}

// s01Far: gaps of every size class within the limits, in orders that use them.
func s01Far(c *Ctx) {
	gaps := []int{1, 2, 3, 7, 63, 64, 65, 126, 127, 128, 129, 255, 256, 500, 1000, 1023, 1024, 1999, 2000}
	big := []int{2001, 3000, 4999, 5000}
	cfg := two("far-base", false, plan(0, 1, 1), 0, 0)
	cfg.Setup = established()
	base, ok := Setup(c, "far", classes("lost", "send", "bundle"), func() *SW { return newSW(cfg, false) })
	if !ok {
		return
	}
	type cse struct {
		gap  int
		late int // order of late deliveries: 0 ascending, 1 descending, 2 none
	}
	var cases []cse
	for _, g := range gaps {
		cases = append(cases, cse{g, 0}, cse{g, 1})
	}
	for _, g := range big {
		cases = append(cases, cse{g, 2})
	}
	c.Each("far", len(cases), func(i int) string { return fmt.Sprint(cases[i]) }, func(k *Case, i int) {
		cs := cases[i]
		w := base.live()
		do := func(o SOp) bool {
			if fs := w.Do(o); len(fs) > 0 {
				return k.Failf("gap %d: %v", cs.gap, fs)
			}
			k.Trans(1)
			return true
		}
		// half of the scenario: send gap+1, deliver the last one first
		b := w.M.NSent[[2]int{0, 1}]
		w.quick = true
		for j := 0; j <= cs.gap; j++ {
			if !do(SOp{'S', 0, 1, 0}) {
				return
			}
		}
		if !do(SOp{'D', 0, 1, b + cs.gap}) {
			return
		}
		// another chain in between
		if !do(SOp{'S', 1, 0, 0}) || !do(SOp{'D', 1, 0, 1}) || !do(SOp{'S', 0, 1, 0}) || !do(SOp{'D', 0, 1, b + cs.gap + 1}) {
			return
		}
		step := 1
		if cs.gap > 256 && !c.Thorough {
			step = cs.gap / 100
		}
		switch cs.late {
		case 0:
			for j := 0; j < cs.gap; j += step {
				if !do(SOp{'D', 0, 1, b + j}) {
					return
				}
			}
		case 1:
			for j := cs.gap - 1; j >= 0; j -= step {
				if !do(SOp{'D', 0, 1, b + j}) {
					return
				}
			}
		}
		k.Trace(1)
		k.Eval1("ok")
	})
}

// s01Counters: the same histories with counters that start elsewhere, reached by
// editing the stored chain index of both sides alike.
func s01Counters(c *Ctx) {
	offs := []uint32{1, 126, 127, 128, 254, 255, 256, 16382, 16383, 65534, 65535, 1<<21 - 2, 1<<28 - 2, 1<<31 - 3, 1<<31 - 1, 1<<32 - 5010, 1<<32 - 10}
	mk := func(js bool) *SW {
		cfg := two("counters", js, plan(0, 1, 1), 0, 0)
		cfg.Setup = established()
		return newSW(cfg, false)
	}
	bases, ok := Setup(c, "counter-values", classes("lost", "send", "bundle"), func() []*SW { return []*SW{mk(false), mk(true)} })
	if !ok {
		return
	}
	order := [][]int{{0, 1, 2}, {2, 0, 1}, {2, 1, 0}, {1, 2, 0}}
	c.Each("counter-values", len(offs)*2*len(order), func(i int) string {
		return fmt.Sprintf("offset %d json %v order %v", offs[i/2/len(order)], i%2 == 1, order[i/2%len(order)])
	}, func(k *Case, i int) {
		w := bases[i%2].Fork(0, 1)
		off := offs[i/2/len(order)]
		// alice's sending chain has index 0, bob has no receiving chain for it yet: deliver one first
		for _, o := range []SOp{{'S', 0, 1, 0}, {'D', 0, 1, 1}} {
			if fs := w.Do(o); len(fs) > 0 {
				k.Failf("%v", fs)
				return
			}
		}
		if !shiftChain(w.P[0], bob, w.Ser, -1, off) || !shiftChain(w.P[1], alice, w.Ser, len(w.M.rec(1, 0).Cur.Recv)-1, off) {
			k.Eval1("stored form cannot be edited")
			return
		}
		var wires [][]byte
		var pls [][]byte
		for j := 0; j < 3; j++ {
			pl := bytes.Repeat([]byte{byte(j + 1)}, 5+j)
			r := w.store(0).Encrypt(bob, pl)
			if !r.OK() {
				k.Failf("encrypting at counter %d: %v", off+uint32(j), r)
				return
			}
			wires, pls = append(wires, r.Wire), append(pls, pl)
			h, ok := parseHdr(r.Wire, r.Type, i%2 == 1)
			if !ok || h.Ctr != off+1+uint32(j) {
				k.Failf("counter at %d", off)
				return
			}
		}
		for _, j := range order[i/2%len(order)] {
			r := w.store(1).Receive(alice, wires[j], false)
			if !r.OK() || !bytes.Equal(r.Plain, pls[j]) {
				k.Failf("message with counter %d does not decrypt: %v", off+1+uint32(j), r)
				return
			}
		}
		for j := range wires {
			if r := w.store(1).Receive(alice, wires[j], false); r.OK() {
				k.Failf("message with counter %d decrypts twice", off+1+uint32(j))
				return
			}
		}
		k.Trace(1)
		k.Eval1("ok")
	})
}

// checkS02: in every reachable state every message already decrypted is presented
// again, in every form.
func checkS02(c *Ctx) {
	c.Rule(ruleBFS + " In every state every already decrypted message is presented to its recipient again: as it is, its inner ordinary message alone, and wrapped in envelopes with the session's own, a fresh and another session's base key and with every prekey id.")
	c.Assume("initial messages without a one-time prekey can be replayed once their session is no longer among the kept ones (not claimed)")
	cls := func() map[string]bool { return classes("dup") }
	visit := func(w *SW) []Finding { return w.redeliverAll() }
	ex := func(cfg *SessCfg, d int) {
		cfg.Inner = true
		cfg.LiveEach = func(w *SW) []Finding { return w.redeliverAll() }
		exploreSessions(c, cfg, d, c.Q(9000, 600000), c.Q(400, 20000), cls(), visit)
	}
	q := c.Q
	ex(two("opk", false, plan(0, 1, 1), q(3, 4), q(3, 4)), 30)
	ex(two("no-opk-json", true, plan(0, 1, -1), 3, q(2, 3)), 30)
	ex(odd(two("last-resort", false, plan(0, 1, lastResort), 3, 2)), 30)
	ex(two("again", false, plan(0, 1, 1, -1), q(2, 4), q(2, 3)), 30)
	ex(two("both", false, plans(plan(0, 1, 1), plan(1, 0, 1)), 2, q(1, 2)), 30)
	ex(own(two("both", true, plans(plan(0, 1, -1), plan(1, 0, 1)), q(1, 2), q(1, 2))), q(10, 30))
	gap := two("gaps", false, plan(0, 1, 1), 0, 0)
	gap.Setup = established()
	gap.MaxSend = sends(0, 1, 1+q(4, 5), 1, 0, q(2, 3))
	ex(gap, 30)
	many := two("many-sessions", false, plan(0, 1, -1, -1, -1, -1, -1, -1, -1), 0, 0)
	for i := 0; i < 5; i++ {
		many.Setup = append(many.Setup, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, i})
	}
	many.MaxSend = sends(0, 1, 7, 1, 0, 1)
	ex(odd(many), q(4, 6))
	dupFar(c)
	deep(c, "dup")
	richDup(c)
}

// dupFar: redelivery after gaps at the limits.
func dupFar(c *Ctx) {
	gaps := []int{1, 2, 31, 127, 128, 999, 1999, 2000, 2001, 2500, 4999, 5000}
	cfg := two("dup-far-base", false, plan(0, 1, 1), 0, 0)
	cfg.Setup = established()
	base, ok := Setup(c, "dup-far", classes("dup"), func() *SW { return newSW(cfg, false) })
	if !ok {
		return
	}
	c.Each("dup-far", len(gaps), func(i int) string { return fmt.Sprint(gaps[i]) }, func(k *Case, i int) {
		g := gaps[i]
		w := base.live()
		w.quick = true
		b := w.M.NSent[[2]int{0, 1}]
		for j := 0; j <= g+1; j++ {
			if fs := w.Do(SOp{'S', 0, 1, 0}); len(fs) > 0 {
				return
			}
		}
		recv := func(j int) *Res { m := w.Msgs[[3]int{0, 1, b + j}]; return w.store(1).Receive(alice, m.Wire, false) }
		seen := map[int]bool{}
		try := func(j int) bool {
			r := recv(j)
			if r.OK() {
				if seen[j] {
					return k.Failf("gap %d: message %d decrypts twice", g, j)
				}
				seen[j] = true
			}
			k.Eval(1)
			return true
		}
		for _, j := range []int{0, g, g, 0, g - 1, g - 1, g / 2, g / 2, 1, 1, g + 1, g + 1, g, 0, g / 2} {
			if !try(j) {
				return
			}
			// reload now and then
			if j == g/2 {
				w.P[1].Sync()
				w.P[1].ToLive(w.Ser)
			}
		}
		k.Trace(1)
	})
}

// redeliverAll presents every decrypted message again; any success is a finding.
func (w *SW) redeliverAll() (fs []Finding) {
	for key, m := range w.Msgs {
		if !w.M.Deliv[key] || w.Base != nil && !w.Base[key] {
			continue
		}
		// the session it belongs to must still be kept
		if w.M.rec(m.To, m.From).find(m.Sid) < 0 {
			continue
		}
		forms := w.forms(m)
		for _, f := range forms {
			st := w.store(m.To)
			if !w.Live {
				st = &Store{P: w.P[m.To].Clone(), Ser: w.Ser}
			}
			r := st.Receive(w.addr(m.From), f.wire, f.pk)
			if r.OK() {
				fs = append(fs, Finding{"dup", fmt.Sprintf("message %s decrypted again, presented as %s, to %q", m.Name(), f.name, r.Plain)})
				return
			}
		}
	}
	return
}

type form struct {
	name string
	wire []byte
	pk   bool
}

// forms are the ways a message may be presented again.
func (w *SW) forms(m *SMsg) []form {
	pk := m.Type == 3
	out := []form{{"it was", m.Wire, pk}}
	inner := m.Wire
	if pk {
		inner = innerOf(w.Ser, m.Wire)
		out = append(out, form{"its inner message", inner, false})
	}
	if w.quick {
		return out
	}
	// every envelope of the other messages of that direction around it
	bases := map[string]bool{}
	for _, x := range w.Msgs {
		if x.Type != 3 || x.From != m.From || x.To != m.To {
			continue
		}
		e := rewrap(x.Wire, inner, w.Cfg.JSON, nil)
		if e != nil && !bases[string(e)] {
			bases[string(e)] = true
			out = append(out, form{"in the envelope of " + x.Name(), e, true})
		}
	}
	ik := w.P[m.From].IK.PublicKey().PublicKey().Serialize()
	fresh := append([]byte{5}, bytes.Repeat([]byte{0x42}, 32)...)
	for _, opk := range []int64{-1, 2, lastResort} {
		out = append(out, form{fmt.Sprintf("in a new envelope with prekey %d", opk), envelope(w.Cfg.JSON, opk, w.Cfg.Spk, regOf(m.From), fresh, ik, inner), true})
	}
	return out
}

// checkS08: one-time prekeys.
func checkS08(c *Ctx) {
	c.Rule(ruleBFS + " After every delivery the set of stored one-time and signed prekeys, and the order of the store calls, is compared with the model.")
	cls := func() map[string]bool { return classes("prekey", "crash", "over", "lost", "send", "bundle") }
	q := c.Q
	three := func(name string, js bool, a, b []int64, sa, sb, back int) *SessCfg {
		return &SessCfg{Name: name, Parties: []Addr{alice, carol, bob}, JSON: js, Plan: map[[2]int][]int64{{0, 2}: a, {1, 2}: b},
			MaxSend: sends(0, 2, sa, 1, 2, sb, 2, 0, back, 2, 1, back), Spk: 7, Inner: true, Redeliver: true}
	}
	ex := func(cfg *SessCfg, d int) { exploreSessions(c, cfg, d, c.Q(12000, 300000), c.Q(600, 10000), cls(), nil) }
	d := q(8, 12)
	for _, id := range []int64{0, 1, 3} {
		ex(three(fmt.Sprint("same-", id), id == 3, []int64{id}, []int64{id}, 2, 2, 1), d)
	}
	ex(three("last-resort", false, []int64{lastResort}, []int64{lastResort}, 2, 2, 1), d)
	ex(three("mixed", false, []int64{0, 1}, []int64{-1, 0}, 2, 2, 0), d)
	ex(three("none", true, []int64{-1}, []int64{1}, 2, 2, 0), d)
	ex(two("two-users", false, plan(0, 1, 1, 1), 3, 1), q(9, 14))
	ex(odd(two("two-users-json", true, plan(0, 1, 0, 2), 3, 1)), q(9, 14))
	ex(own(two("two-devices", true, plans(plan(0, 1, 1, 2), plan(1, 0, 1)), 2, 1)), q(8, 14))
	one := two("pre-ids", false, plan(0, 1, 1), 2, 1)
	one.Pres = []uint32{1, 2, 0xFFFFFE, lastResort}
	one.Plan = plan(0, 1, 0xFFFFFE, 2)
	ex(one, q(8, 12))
	again := two("id-given-again", false, plan(0, 1, 1, 1), 3, 1)
	again.Reissue = [][2]int{{1, 1}}
	again.Redeliver, again.Inner = true, true
	ex(again, q(9, 13))
	again3 := three("id-given-again-3", true, []int64{0}, []int64{0}, 2, 2, 0)
	again3.Reissue = [][2]int{{2, 0}}
	ex(again3, q(8, 11))
	last := two("last-resort-changed", false, plan(0, 1, lastResort, lastResort), 3, 1)
	last.Reissue = [][2]int{{1, lastResort}}
	last.Redeliver = true
	ex(last, q(8, 12))
	s08Unknown(c)
	s08Ids(c)
	richPlain(c, cls())
}

// s08Ids: ids of every size, with prekeys of similar ids beside them.
func s08Ids(c *Ctx) {
	var ids []uint32
	for b := uint(0); b <= 32; b++ {
		for d := int64(-1); d <= 1; d++ {
			if x := int64(1)<<b + d; x >= 0 && x < 1<<32 && (len(ids) == 0 || uint32(x) > ids[len(ids)-1]) {
				ids = append(ids, uint32(x))
			}
		}
	}
	c.Each("ids", len(ids)*4, func(i int) string {
		return fmt.Sprintf("id %d json %v live %v", ids[i/4], i%2 == 1, i/2%2 == 1)
	}, func(k *Case, i int) {
		id := ids[i/4]
		cfg := two(fmt.Sprint("ids-", i), i%2 == 1, plan(0, 1, int64(id), int64(id^1)), 0, 0)
		cfg.Pres = []uint32{id}
		for _, x := range []uint32{id ^ 1, id & 0xff, id & 0xffff, id & 0xffffff, id & 0x7fffffff, id | 1<<31, id ^ 1<<24, id ^ 1<<16, id + 1, id - 1, ^id, 0, lastResort} {
			have := false
			for _, y := range cfg.Pres {
				have = have || x == y
			}
			if !have {
				cfg.Pres = append(cfg.Pres, x)
			}
		}
		cfg.Spk = id ^ 1<<uint(i%32)
		cfg.PreKeys = true
		cfg.Redeliver, cfg.Inner = true, true
		w := newSW(cfg, i/2%2 == 1)
		for _, o := range []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 1}, {'D', 0, 1, 0}, {'S', 1, 0, 0}, {'B', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 2}, {'D', 0, 1, 2}, {'D', 0, 1, 1}, {'S', 1, 0, 0}, {'D', 1, 0, 1}} {
			k.Trans(1)
			k.State(1)
			k.Eval(1)
			if fs := w.Do(o); len(fs) > 0 {
				k.Failf("%v: %s: %.300s", o, fs[0].Class, fs[0].Text)
				return
			}
		}
		k.Trace(1)
	})
}

// s08Unknown: envelopes naming prekeys that are not there.
func s08Unknown(c *Ctx) {
	type cse struct {
		js     bool
		opk    int64 // bundle's
		wopk   int64 // what the envelope names (-2: unchanged)
		wspk   int64 // -2 unchanged
		delOpk int64 // deleted before delivery
		delSpk bool
		name   string
	}
	var cs []cse
	for _, js := range []bool{false, true} {
		for _, opk := range []int64{-1, 0, 1, lastResort} {
			for _, w := range []int64{-2, -1, 0, 1, 2, 9, 0xFFFFFE, lastResort, 0x1000000, 0xFFFFFFFF} {
				for _, s := range []int64{-2, 0, 1, 8, 0xFFFFFFFF} {
					cs = append(cs, cse{js: js, opk: opk, wopk: w, wspk: s, delOpk: -1})
				}
			}
			cs = append(cs, cse{js: js, opk: opk, wopk: -2, wspk: -2, delOpk: opk})
			cs = append(cs, cse{js: js, opk: opk, wopk: -2, wspk: -2, delOpk: -1, delSpk: true})
		}
	}
	for i := range cs {
		x := cs[i]
		cs[i].name = fmt.Sprintf("json %v bundle %d names opk %d spk %d deleted opk %d spk %v", x.js, x.opk, x.wopk, x.wspk, x.delOpk, x.delSpk)
	}
	worlds, ok := Setup(c, "unknown-ids", classes("prekey", "crash", "over", "lost", "send", "bundle"), func() map[string]*SW {
		worlds := map[string]*SW{}
		for _, js := range []bool{false, true} {
			for _, opk := range []int64{-1, 0, 1, lastResort} {
				cfg := two(fmt.Sprint("unknown-base", js, opk), js, plan(0, 1, opk), 1, 0)
				worlds[fmt.Sprint(js, opk)] = newSW(cfg, false).do1(SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0})
			}
		}
		return worlds
	})
	if !ok {
		return
	}
	c.Each("unknown-ids", len(cs), func(i int) string { return cs[i].name }, func(k *Case, i int) {
		x := cs[i]
		w := worlds[fmt.Sprint(x.js, x.opk)].Fork(0, 1)
		m := w.Msgs[[3]int{0, 1, 0}]
		wire := rewrap(m.Wire, nil, x.js, func(h *hdr) {
			if x.wopk == -1 {
				h.HasOpk = false
			} else if x.wopk >= 0 {
				h.HasOpk, h.Opk = true, uint32(x.wopk)
			}
			if x.wspk >= 0 {
				h.Spk = uint32(x.wspk)
			}
		})
		if wire == nil {
			k.Eval1("cannot be written")
			return
		}
		st := w.store(1)
		if x.delOpk >= 0 {
			st.RemovePreKey(uint32(x.delOpk))
		}
		if x.delSpk {
			st.RemoveSignedPreKey(7)
		}
		st.Saved = nil
		before := w.P[1].Image()
		same := (x.wopk == -2 || x.wopk == x.opk) && (x.wspk == -2 || x.wspk == 7) && x.delOpk < 0 && !x.delSpk
		r := st.Receive(alice, wire, true)
		after := w.P[1].Image()
		switch {
		case r.Panic != "":
			k.Failf("%v", r)
		case !same && r.OK():
			k.Failf("an initial message decrypts with other prekeys than those it was made for: %v", x.name)
		case !same && !bytes.Equal(before, after):
			k.Failf("a rejected initial message changed the stores")
		case same && r.OK() && x.opk >= 0 && x.opk != lastResort && w.P[1].Pre[uint32(x.opk)] != nil:
			k.Failf("one-time prekey %d is still there", x.opk)
		case same && r.OK() && len(w.P[1].Pre) != map[bool]int{true: 4, false: 5}[x.opk >= 0 && x.opk != lastResort]:
			k.Failf("another one-time prekey is gone")
		case same && !r.OK():
			k.Failf("a genuine initial message is rejected: %v", r)
		}
		k.Eval1(strings.SplitN(r.String(), ":", 2)[0])
		k.Trace(1)
	})
}

// checkS12: fresh keys and exact counters.
func checkS12(c *Ctx) {
	c.Rule(ruleBFS + " Every message sent is compared with all earlier ones (ratchet key and counter, ciphertext of equal plaintexts) and its header with the model's.")
	cls := func() map[string]bool { return classes("hdr", "reuse", "wire") }
	q := c.Q
	plains := []func(m *MMsg) []byte{
		func(*MMsg) []byte { return []byte("the same text in every message") },
		func(*MMsg) []byte { return nil },
		func(m *MMsg) []byte { // empty, whole blocks, large, by turns
			return bytes.Repeat([]byte{byte(16 * (m.Seq % 2))}, []int{0, 16, 1, 0, 4096, 48}[(m.Seq+m.From)%6])
		},
	}
	ex := func(cfg *SessCfg, d int) {
		for i, pl := range plains {
			cf := *cfg
			cf.Name = fmt.Sprint(cfg.Name, "/", []string{"same-text", "empty", "sizes"}[i])
			cf.Payload = pl
			n := 3
			if i > 0 && !c.Thorough {
				n = 1
			}
			exploreSessions(c, &cf, d, c.Q(40000, 1000000), n*c.Q(400, 7000), cls(), nil)
		}
	}
	ex(two("opk", false, plan(0, 1, 1), 4, 4), 30)
	ex(two("no-opk-json", true, plan(0, 1, -1), 3, 3), 30)
	ex(odd(two("again", false, plan(0, 1, 1, 2), 3, q(2, 3))), 30)
	ex(two("both", false, plans(plan(0, 1, 1), plan(1, 0, 1)), q(2, 3), 2), 30)
	ex(own(two("both", true, plans(plan(0, 1, 1), plan(1, 0, 1)), q(2, 3), q(1, 2))), q(10, 30))
	long := two("after-long-use", false, plan(0, 1, 2), 0, 0)
	long.Setup = pingpong(established(), 1, 8)
	long.MaxSend = sends(0, 1, 9+q(3, 4), 1, 0, 9+3)
	ex(long, 30)
	burst := two("bursts", false, plan(0, 1, 2), 0, 0)
	burst.Setup = established()
	for i := 0; i < 9; i++ {
		burst.Setup = append(burst.Setup, SOp{'S', 0, 1, 0})
	}
	burst.Setup = append(burst.Setup, SOp{'D', 0, 1, 9})
	for i := 0; i < 7; i++ {
		burst.Setup = append(burst.Setup, SOp{'S', 1, 0, 0})
	}
	burst.MaxSend = sends(0, 1, 10+3, 1, 0, 8+1)
	ex(burst, q(5, 7))
	s12Chains(c)
	s12Far(c)
	richPlain(c, cls())
	// a long chain
	cfg := two("long-base", false, plan(0, 1, 1), 0, 0)
	cfg.Setup = established()
	base, ok := Setup(c, "long-chain", classes("hdr", "reuse", "wire"), func() *SW { return newSW(cfg, false) })
	if !ok {
		return
	}
	c.One("long-chain", func(k *Case) {
		w := base.live()
		seen := map[string]bool{}
		for i := 0; i < c.Q(3000, 70000); i++ {
			r := w.store(0).Encrypt(bob, []byte("same"))
			if !r.OK() {
				k.Failf("encrypting: %v", r)
				return
			}
			h, ok := parseHdr(r.Wire, r.Type, false)
			if !ok || int(h.Ctr) != i {
				k.Failf("message %d of the chain has another counter", i)
				return
			}
			if seen[string(h.CT)] {
				k.Failf("message %d has the ciphertext of an earlier one", i)
				return
			}
			seen[string(h.CT)] = true
			k.Eval(1)
		}
	})
}

// checkS16: re-establishment.
func checkS16(c *Ctx) {
	c.Rule(ruleBFS + " In every state the kept sessions (by base key, current and archived) are compared with the model's, and the model's convergence invariant is evaluated.")
	cls := func() map[string]bool { return classes("lost", "shape", "send", "bundle", "conv") }
	q := c.Q
	visit := func(w *SW) []Finding { return w.converged() }
	ex := func(cfg *SessCfg, d int) {
		exploreSessions(c, cfg, d, c.Q(40000, 1000000), c.Q(1200, 20000), cls(), visit)
	}
	ex(two("both", false, plans(plan(0, 1, 1), plan(1, 0, 1)), q(2, 3), q(2, 3)), q(12, 30))
	ex(two("again", false, plan(0, 1, 1, 2), 3, 2), q(12, 30))
	ex(two("both-twice", false, plans(plan(0, 1, 1, 2), plan(1, 0, 1, 2)), 2, 2), q(9, 13))
	ex(odd(two("both-no-opk-json", true, plans(plan(0, 1, -1), plan(1, 0, -1)), 2, 2)), q(12, 30))
	ex(odd(two("three-times", false, plan(0, 1, 0, -1, lastResort), 3, 1)), q(10, 13))
	ex(own(two("both", true, plans(plan(0, 1, 1), plan(1, 0, 1)), 2, q(1, 2))), q(10, 30))
	many := two("many", false, plans(plan(0, 1, -1, -1, -1, -1, -1, -1), plan(1, 0, -1, -1, -1, -1)), 0, 0)
	many.MaxSend = sends(0, 1, 7, 1, 0, 6)
	many.Setup = established()
	for i := 1; i < 4; i++ {
		many.Setup = append(many.Setup, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'B', 1, 0, 0}, SOp{'S', 1, 0, 0})
	}
	ex(many, q(5, 7))
	s16Deep(c)
	richPlain(c, cls())
}

// converged evaluates the convergence invariant on the model: it holds by the
// model's construction, and the shape comparison binds it to the library.
func (w *SW) converged() (fs []Finding) {
	for _, m := range w.Msgs {
		if !w.M.Deliv[[3]int{m.From, m.To, m.Seq}] {
			return nil // not quiet
		}
	}
	a, b := w.M.rec(0, 1), w.M.rec(1, 0)
	if a.Cur == nil || b.Cur == nil || a.Cur.Sid == b.Cur.Sid {
		return nil
	}
	got := func(from, to int, r *MRec) bool {
		for _, m := range w.Msgs {
			if m.From == from && m.To == to && m.Epoch == r.Epoch {
				return true
			}
		}
		return false
	}
	if got(0, 1, a) && got(1, 0, b) {
		fs = append(fs, Finding{"conv", "both users have decrypted a message of the other's latest choice, but use different sessions"})
	}
	return
}

// checkS17: which messages are initial ones and what they carry.
func checkS17(c *Ctx) {
	c.Rule(ruleBFS + " Kind and ids of every message sent are compared with the model's.")
	cls := func() map[string]bool { return classes("type", "ids", "wire") }
	q := c.Q
	ex := func(cfg *SessCfg, d int) {
		exploreSessions(c, cfg, d, c.Q(30000, 1000000), c.Q(800, 20000), cls(), nil)
	}
	ex(two("opk", false, plan(0, 1, 1), q(4, 5), q(3, 4)), 30)
	ex(two("again", false, plan(0, 1, 1, -1), 3, 2), 30)
	ex(odd(two("both", false, plans(plan(0, 1, 1), plan(1, 0, 0)), 2, 2)), 30)
	ex(own(two("both", true, plans(plan(0, 1, -1), plan(1, 0, 0)), q(1, 2), 1)), 30)
	for _, js := range []bool{false, true} {
		for i, opk := range []int64{-1, 0, 1, 127, 128, 0xFFFFFE, lastResort, 0xFFFFFFFF} {
			cfg := two(fmt.Sprintf("ids-json=%v-%d", js, i), js, plan(0, 1, opk), 2, 1)
			cfg.Pres = []uint32{0, 1, 127, 128, 0xFFFFFE, lastResort, 0xFFFFFFFF}
			cfg.Spk = []uint32{0, 1, 127, 128, 0xFFFFFF, 0xFFFFFFFF, 7, 255}[i]
			regs := []uint32{0, 1, 16380, 0xFFFFFFFF, 0x80000000, 127, 128, 255}
			cfg.Reg = func(p int) uint32 { return regs[(i+p)%8] }
			ex(cfg, 12)
		}
	}
	s17Long(c)
	richPlain(c, cls())
}

// s17Long: a user who gets no answer for long, and one who gets an answer after long.
func s17Long(c *Ctx) {
	type cse struct {
		js, live, again bool
		opk             int64
		at              int // the answer arrives after so many messages
	}
	var cs []cse
	for i, at := range []int{30, 64, 65, 100, 129, 256, 300, c.Q(600, 6000)} {
		for _, js := range []bool{false, true} {
			cs = append(cs, cse{js, i%2 == 0, i%3 == 0, []int64{1, -1, lastResort, 0}[i%4], at})
		}
	}
	c.Each("unanswered", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		opks := []int64{x.opk}
		if x.again {
			opks = []int64{-1, x.opk}
		}
		cfg := two(fmt.Sprint("unanswered", i), x.js, plan(0, 1, opks...), 0, 0)
		cfg.Header = true
		w := newSW(cfg, x.live)
		w.quick = true
		do := func(ops ...SOp) bool {
			for _, o := range ops {
				for _, f := range w.Do(o) {
					if f.Class == "type" || f.Class == "ids" || f.Class == "wire" {
						return k.Failf("unanswered for %d messages: %s: %s", w.M.NSent[[2]int{0, 1}], f.Class, f.Text)
					}
				}
				k.Trans(1)
			}
			// comparisons with all earlier messages are not needed here
			if len(w.Msgs) > 6 {
				for key, m := range w.Msgs {
					if m.From == 0 && m.Seq < w.M.NSent[[2]int{0, 1}]-3 && m.Seq > 1 {
						delete(w.Msgs, key)
					}
				}
			}
			return true
		}
		for range opks {
			if !do(SOp{'B', 0, 1, 0}) {
				return
			}
		}
		for j := 0; j < x.at; j++ {
			if !do(SOp{'S', 0, 1, 0}) {
				return
			}
			if j%50 == 7 && x.live {
				w.Do(SOp{'R', 0, 0, 0})
			}
		}
		if !do(SOp{'D', 0, 1, x.at - 1}, SOp{'S', 1, 0, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 1, 0, 0}) {
			return
		}
		for j := 0; j < 70; j++ {
			if !do(SOp{'S', 0, 1, 0}) {
				return
			}
		}
		k.Trace(1)
		k.State(1)
	})
}
