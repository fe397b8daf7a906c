package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"

	"verif/mc/ref"
)

// Checks of group messaging.

func init() {
	register("G01", "model_checking", checkG01)
	register("G02", "model_checking", checkG02)
	register("G03", "model_checking", checkG03)
	register("G05", "model_checking", checkG05)
}

const ruleG = "States are all worlds (the users' stored bytes, randomness positions, and distribution and group messages in flight) reachable by creating, rotating, distributing, sending and delivering within the bounds, found by breadth-first search where every transition executes the library on a copy of the stored bytes and is compared with a symbolic model; root-to-leaf paths are executed again from the start with stores, builders and ciphers that stay in memory, partly handing over message objects instead of bytes."

// grp is a scenario of one group in which alice (0) sends and the others listen.
func grp(name string, js bool, members, sends, dists, rots int) *GCfg {
	ps := []Addr{alice, bob, carol}[:1+members]
	return &GCfg{Name: name, Parties: ps, JSON: js, Names: []GN{{"g1", 0}}, MaxSend: []int{sends}, MaxDist: []int{dists}, MaxRot: []int{rots}}
}

// goddKeys gives the users of a scenario unusual keys.
func goddKeys(cfg *GCfg) *GCfg {
	cfg.Name += "-odd-keys"
	cfg.Parties = []Addr{oddAlice, oddBob, oddCarol}[:len(cfg.Parties)]
	return cfg
}

func checkG01(c *Ctx) {
	c.Rule(ruleG)
	c.Assume("HMAC, HKDF, AES and X25519 of the Go library behave as specified; randomness is a fixed stream per user; key ids drawn at random do not collide")
	q := c.Q
	var run []func()
	add := func(cfg *GCfg, depth int) {
		run = append(run, func() {
			exploreGroups(c, cfg, depth, q(40000, 1500000), q(1200, 20000), classes("lost", "send", "key", "other"), nil)
		})
	}
	add(grp("one-member", false, 1, q(7, 9), q(3, 4), 0), 40)
	add(grp("joins-json", true, 2, q(4, 5), 2, 0), 40)
	add(goddKeys(grp("rotation", false, 1, q(4, 5), 1, q(2, 3))), 40)
	a := grp("again", true, 1, q(4, 5), q(2, 3), 1)
	a.Again = true
	add(a, 40)
	// two senders in two groups, everybody hears everybody
	m := &GCfg{Name: "two-senders", Parties: []Addr{alice, bob, carol}, Names: []GN{{"g1", 0}, {"g1", 1}}, MaxSend: []int{q(2, 3), 2}, MaxDist: []int{q(1, 2), 1}, MaxRot: []int{0, 0}}
	add(m, 40)
	m2 := &GCfg{Name: "two-groups", Parties: []Addr{alice, bob}, JSON: true, Names: []GN{{"g1", 0}, {"g2", 0}, {"g1", 1}}, MaxSend: []int{2, 1, 1}, MaxDist: []int{1, 1, 1}, MaxRot: []int{0, q(0, 1), 0}}
	add(m2, 40)
	// names that differ in little
	d := &GCfg{Name: "similar-names", Parties: []Addr{{"al", 1}, {"al", 11}, {"al1", 1}, bob}, Names: []GN{{"g", 0}, {"g", 1}, {"g", 2}, {"ga", 2}}, MaxSend: []int{1, 1, 1, 1}, MaxDist: []int{1, 1, 1, 1},
		Members: map[[2]int]bool{{3, 0}: true, {3, 1}: true, {3, 2}: true, {3, 3}: true}}
	add(d, q(14, 40))
	// after long use
	l := grp("after-long-use", false, 1, 0, 0, 0)
	l.Setup = []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}}
	for i := 0; i < 20; i++ {
		l.Setup = append(l.Setup, GOp{'S', 0, 0, 0, 0})
		if i%3 != 1 {
			l.Setup = append(l.Setup, GOp{'D', 1, 0, i, 0})
		}
	}
	l.MaxSend, l.MaxDist = []int{20 + q(1, 3)}, []int{1 + q(1, 2)}
	add(l, q(6, 9))
	run = append(run, func() { g01Payloads(c) }, func() { g01Iterations(c) }, func() { g01Long(c) }, func() { g01Crowd(c) }, func() { g01Similar(c) })
	run = append(run, func() { gRichPlain(c, false, classes("lost", "send", "key", "other")) })
	c.Par(run...)
}

// g01Long: long use of a chain and of many chains; the model decides about every message.
func g01Long(c *Ctx) {
	total := c.Q(600, 6000)
	c.Each("long-use", 8, func(i int) string {
		return fmt.Sprintf("rotates %v json %v live %v", i/4 == 1, i%2 == 1, i/2%2 == 1)
	}, func(k *Case, i int) {
		w := newGW(grp(fmt.Sprint("long-use-", i), i%2 == 1, 2, 0, 1, 0), i/2%2 == 1)
		w.quick = true
		if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}, GOp{'P', 2, 0, 0, 0}) {
			return
		}
		for n := 0; n < total; n++ {
			ok := w.seq(k, GOp{'S', 0, 0, 0, 0})
			if n%5 != 2 { // one reads the rest eight messages late, the other one never
				ok = ok && w.seq(k, GOp{'D', 1, 0, n, 0}) && w.seq(k, GOp{'D', 2, 0, n, 0})
			}
			if n >= 10 && n%5 == 0 {
				ok = ok && w.seq(k, GOp{'D', 1, 0, n - 8, 0})
			}
			if i/4 == 1 && n%40 == 39 {
				d := len(w.Dists[0])
				ok = ok && w.seq(k, GOp{'K', 0, 0, 0, 0}, GOp{'P', 1, 0, d, 0}, GOp{'P', 2, 0, d, 0})
			}
			if !ok {
				return
			}
		}
		k.Trace(1)
		k.Eval(total)
	})
}

// g01Crowd: very many senders and groups at the same member, used in turn.
func g01Crowd(c *Ctx) {
	n := c.Q(120, 800)
	c.Each("crowd", 4, func(i int) string { return fmt.Sprintf("%d sender keys, json %v live %v", n, i%2 == 1, i/2 == 1) }, func(k *Case, i int) {
		cfg := &GCfg{Name: fmt.Sprint("crowd", i), JSON: i%2 == 1, Parties: []Addr{alice, bob, {"carol", 1}, {"bob", 2}}}
		for j := 0; j < n; j++ {
			cfg.Names = append(cfg.Names, GN{fmt.Sprint("group", j/3), []int{0, 1, 3}[j%3]})
		}
		w := newGW(cfg, i/2 == 1)
		w.quick = true
		for round := 0; round < 5; round++ {
			for x := 0; x < n; x++ {
				j := []int{x, n - 1 - x, x * 7 % n}[round%3] // n is no multiple of 7
				var ops []GOp
				switch round {
				case 0:
					ops = []GOp{{'C', 0, j, 0, 0}, {'P', 2, j, 0, 0}, {'S', 0, j, 0, 0}}
				case 1:
					ops = []GOp{{'S', 0, j, 0, 0}, {'D', 2, j, 1, 0}, {'C', 0, j, 0, 0}}
				case 2:
					ops = []GOp{{'S', 0, j, 0, 0}, {'P', 2, j, 1, 0}, {'D', 2, j, 0, 0}}
				case 3:
					ops = []GOp{{'K', 0, j, 0, 0}, {'S', 0, j, 0, 0}, {'D', 2, j, 2, 0}}
				case 4:
					ops = []GOp{{'P', 2, j, 2, 0}, {'D', 2, j, 3, 0}, {'S', 0, j, 0, 0}, {'D', 2, j, 4, 0}}
				}
				if !w.seq(k, ops...) {
					return
				}
				k.Eval(1)
			}
		}
		for j := 0; j < n; j++ {
			r := w.store(2).GDecrypt(w.gname((j+1)%n), w.Msgs[j][4].Wire)
			if k.Eval(1); r.OK() {
				k.Failf("a message of sender key %d decrypts under the name of the next one", j)
			}
		}
		k.Trace(1)
	})
}

// g01Similar: two keys whose names differ in little, in the group or in the sender.
func g01Similar(c *Ctx) {
	type pair struct {
		what string
		g    [2]string
		s    [2]Addr
	}
	var ps []pair
	for _, p := range similarNames(c.Q(0, 1) == 1) {
		ps = append(ps, pair{"groups: " + p.What, [2]string{p.A, p.B}, [2]Addr{bob, bob}})
	}
	for _, p := range similarAddrs(c.Q(0, 1) == 1) {
		ps = append(ps, pair{"senders: " + p.What, [2]string{"g", "g"}, [2]Addr{p.A, p.B}})
	}
	for _, s := range []string{"", ":", "::", ".", "_", "-", "/", "|", " ", "#", "@", "\x00"} {
		ps = append(ps, pair{fmt.Sprintf("joined with %q", s), [2]string{"g" + s + "bob", "g"}, [2]Addr{{"bob", 1}, {"bob" + s + "bob", 1}}},
			pair{fmt.Sprintf("exchanged, with %q", s), [2]string{"g" + s + "g", "g"}, [2]Addr{{"bob", 1}, {"g" + s + "bob", 1}}})
	}
	c.Each("similar names", len(ps)*c.Q(2, 4), func(i int) string {
		p, n := ps[i%len(ps)], i/len(ps)
		return fmt.Sprintf("%s, json %v live %v", p.what, n == 1 || n == 2, n%2 == 1)
	}, func(k *Case, i int) {
		p, n := ps[i%len(ps)], i/len(ps)
		cfg := &GCfg{Name: fmt.Sprint("similar", i), JSON: n == 1 || n == 2, Parties: []Addr{alice, p.s[0], p.s[1]}, Names: []GN{{p.g[0], 1}, {p.g[1], 2}}}
		if p.s[0] == p.s[1] {
			cfg.Parties, cfg.Names[1].Sender = cfg.Parties[:2], 1
		}
		w := newGW(cfg, n%2 == 1)
		w.quick = true
		for j := 0; j < 2; j++ {
			if x := w.gname(j).P(); x.GroupID() != p.g[j] || x.Sender().Name() != p.s[j].Name || x.Sender().DeviceID() != p.s[j].Dev {
				k.Failf("a sender key name has another group or sender than it was made of")
				return
			}
		}
		k.Eval(1)
		if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'C', 0, 1, 0, 0}, GOp{'P', 0, 0, 0, 0}, GOp{'P', 0, 1, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 1, 0, 0},
			GOp{'S', 0, 0, 0, 0}, GOp{'D', 0, 1, 0, 0}, GOp{'D', 0, 0, 1, 0}, GOp{'K', 0, 0, 0, 0}, GOp{'S', 0, 1, 0, 0}, GOp{'S', 0, 0, 0, 0},
			GOp{'D', 0, 0, 0, 0}, GOp{'D', 0, 1, 1, 0}, GOp{'P', 0, 0, 1, 0}, GOp{'D', 0, 0, 2, 0}) {
			return
		}
		for j := 0; j < 2; j++ {
			if r := w.store(0).GDecrypt(w.gname(1-j), w.Msgs[j][0].Wire); r.OK() {
				k.Failf("a message under one name decrypts under the other")
				return
			}
		}
		k.Trace(1)
	})
}

// g01Payloads: every length, several contents.
func g01Payloads(c *Ctx) {
	for _, js := range []bool{false, true} {
		cfg := grp(fmt.Sprint("payloads-json=", js), js, 1, 0, 1, 0)
		cfg.Setup = []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}}
		base, ok := Setup(c, cfg.Name, classes("lost", "send"), func() *GW { return newGW(cfg, false) })
		if !ok {
			continue
		}
		var lens []int
		for n := 0; n <= c.Q(300, 1100); n++ {
			lens = append(lens, n)
		}
		lens = append(lens, 4095, 4096, 4097, 65535, 65536, 65537, 1<<20, 1<<20+1, 1<<22+1)
		c.Each(cfg.Name, len(lens)*3, func(i int) string { return fmt.Sprintf("len %d fill %d", lens[i/3], i%3) }, func(k *Case, i int) {
			n := lens[i/3]
			pl := make([]byte, n)
			for j := range pl {
				pl[j] = []byte{byte(j*7 + n), byte(16 - n%16), 0}[i%3]
			}
			w := base.forkAll()
			cf := *cfg
			cf.Payload = func(int, int) []byte { return pl }
			w.Cfg = &cf
			if w.seq(k, GOp{'S', 0, 0, 0, 0}, GOp{'D', 1, 0, 0, 0}) {
				k.Trace(1)
				k.Eval1("ok")
			}
		})
	}
}

// seq executes operations that must all agree with the model.
func (w *GW) seq(k *Case, ops ...GOp) bool {
	for _, o := range ops {
		k.Trans(1)
		k.State(1)
		if fs := w.Do(o); len(fs) > 0 {
			return k.Failf("after %d operations: %s", len(w.Hist), fs[0].Class+": "+fs[0].Text)
		}
	}
	return true
}

// g01Iterations: the same histories with iterations that start elsewhere: the
// distribution message carries the iteration, so no stored bytes need editing.
func g01Iterations(c *Ctx) {
	offs := []uint32{1, 126, 127, 128, 254, 255, 256, 16383, 65534, 65535, 1<<21 - 2, 1<<31 - 2, 1<<31 - 1, 1<<32 - 2010, 1<<32 - 6}
	orders := [][]int{{0, 1, 2}, {2, 0, 1}, {2, 1, 0}, {1, 2, 0}}
	c.Each("iterations", len(offs)*2*len(orders), func(i int) string {
		return fmt.Sprintf("from %d json %v order %v", offs[i/2/len(orders)], i%2 == 1, orders[i/2%len(orders)])
	}, func(k *Case, i int) {
		js, off := i%2 == 1, offs[i/2/len(orders)]
		cfg := grp("it", js, 1, 0, 1, 0)
		cfg.Setup = []GOp{{'C', 0, 0, 0, 0}}
		w := newGW(cfg, false)
		if !shiftGroup(w.P[0], w.gname(0), w.Ser, off) {
			k.Eval1("stored form cannot be edited")
			return
		}
		var wires, pls [][]byte
		a, b := &Store{P: w.P[0], Ser: w.Ser}, &Store{P: w.P[1], Ser: w.Ser}
		g := w.gname(0)
		r := a.GCreate(g)
		if !r.OK() {
			k.Failf("asking for the distribution message: %v", r)
			return
		}
		if x, ok := parseSKD(r.Wire, js); !ok || x.Iteration != off {
			k.Failf("distribution message of another iteration")
			return
		}
		if r := b.GProcess(g, r.Wire); !r.OK() {
			k.Failf("processing it: %v", r)
			return
		}
		for j := 0; j < 3; j++ {
			pls = append(pls, []byte(fmt.Sprint("message ", j)))
			r := a.GEncrypt(g, pls[j])
			if !r.OK() {
				k.Failf("encrypting: %v", r)
				return
			}
			if x, ok := parseSKM(r.Wire, js); !ok || x.Iteration != off+uint32(j) {
				k.Failf("message %d has iteration %d", j, x.Iteration)
				return
			}
			wires = append(wires, r.Wire)
		}
		for round := 0; round < 2; round++ {
			for _, j := range orders[i/2%len(orders)] {
				r := b.GDecrypt(g, wires[j])
				if round == 0 && (!r.OK() || !bytes.Equal(r.Plain, pls[j])) {
					k.Failf("message %d: %v", j, r)
					return
				}
				if round == 1 && r.OK() {
					k.Failf("message %d decrypted again", j)
					return
				}
			}
		}
		k.Trace(1)
		k.Eval1("ok")
	})
}

// shiftGroup sets the iteration of a sender's own chain.
func shiftGroup(p *Party, g GName, ser interface{}, off uint32) bool {
	var m map[string]interface{}
	if json.Unmarshal(p.SK[g], &m) != nil {
		return false
	}
	l, ok := m["SenderKeyStates"].([]interface{})
	if !ok || len(l) == 0 {
		return false
	}
	s, ok := l[0].(map[string]interface{})
	if !ok {
		return false
	}
	ck, ok := s["SenderChainKey"].(map[string]interface{})
	if !ok || ck["Iteration"] == nil {
		return false
	}
	ck["Iteration"] = off
	b, err := json.Marshal(m)
	if err != nil {
		return false
	}
	p.SK[g] = b
	return true
}

// ---------------------------------------------------------------- G02

func (w *GW) againAll() (fs []Finding) {
	for b := range w.P {
		for n := range w.Cfg.Names {
			for i := range w.Msgs[n] {
				if !w.M.Deliv[[3]int{b, n, i}] || !w.in(n, i) {
					continue
				}
				x := w.Fork(b)
				for _, f := range x.Do(GOp{'D', b, n, i, 0}) {
					fs = append(fs, f)
				}
				// after every distribution message of the sender arrived again
				x = w.Fork(b)
				for d := range w.Dists[n] {
					if w.Focus != nil && d > 2 && d < len(w.Dists[n])-3 {
						continue
					}
					x.Do(GOp{'P', b, n, d, 0})
				}
				for _, f := range x.Do(GOp{'D', b, n, i, 0}) {
					f.Text += " (after repeated distribution messages)"
					fs = append(fs, f)
				}
				// encoded differently
				for v, wire := range regroup(w.Msgs[n][i].Wire, w.Cfg.JSON) {
					y := &Store{P: w.P[b].Clone(), Ser: w.Ser}
					if r := y.GDecrypt(w.gname(n), wire); r.OK() {
						fs = append(fs, Finding{"dup", fmt.Sprintf("message %d of sender %d decrypts again for user %d, encoded differently (%d)", i, n, b, v)})
					}
				}
			}
		}
	}
	return
}

// regroup encodes a group message in other ways that a parser may accept.
func regroup(wire []byte, js bool) (out [][]byte) {
	m, ok := parseSKM(wire, js)
	if !ok {
		return
	}
	if js {
		x := map[string]interface{}{"id": m.ID, "iteration": m.Iteration, "ciphertext": m.CipherText, "VERSION": m.Version, "Signature": m.Signature, "Extra": 1}
		b, _ := json.Marshal(x)
		return [][]byte{b, append([]byte(" "), wire...)}
	}
	b := []byte{'3'}
	b = ref.BytesField(b, 3, m.CipherText)
	b = ref.VarintField(b, 2, uint64(m.Iteration))
	b = ref.VarintField(b, 1, uint64(m.ID))
	b2 := append([]byte{}, wire[:len(wire)-64]...)
	b2 = ref.BytesField(b2, 9, []byte("unknown"))
	b3 := append([]byte{}, wire...)
	b3[0] = 0x33 ^ 1
	return [][]byte{append(b, m.Signature...), append(b2, m.Signature...), b3}
}

func checkG02(c *Ctx) {
	c.Rule(ruleG + " In every state every decrypted message is presented again: at once, after all distribution messages of its sender arrived again, and in other encodings; none may decrypt.")
	c.Assume("randomness is a fixed stream per user")
	q := c.Q
	var run []func()
	add := func(cfg *GCfg, depth int) {
		run = append(run, func() {
			exploreGroups(c, cfg, depth, q(12000, 800000), q(800, 20000), classes("dup"), func(w *GW) []Finding { return w.againAll() })
		})
	}
	again := func(cfg *GCfg) *GCfg { cfg.Again = true; return cfg }
	add(again(grp("one-member", false, 1, q(5, 7), q(3, 4), 0)), 40)
	add(again(goddKeys(grp("rotation", true, 1, q(3, 4), q(1, 2), q(2, 3)))), 40)
	add(again(grp("late-joins", false, 1, 3, q(3, 4), 1)), 40)
	add(again(grp("two-members", true, 2, q(2, 3), 2, q(0, 1))), 40)
	m := &GCfg{Name: "two-senders", Parties: []Addr{alice, bob, carol}, Names: []GN{{"g1", 0}, {"g1", 1}, {"g2", 0}}, MaxSend: []int{2, 1, 1}, MaxDist: []int{2, 1, 1}, Again: true,
		Members: map[[2]int]bool{{2, 0}: true, {2, 1}: true, {2, 2}: true}}
	add(m, q(12, 40))
	run = append(run, func() { g02Far(c); gRichDup(c) })
	c.Par(run...)
}

// g02Far: repetition across big gaps and evicted keys.
func g02Far(c *Ctx) {
	c.Each("repeated-distribution", 2*c.Q(1, 4), itoa, func(k *Case, i int) {
		cfg := grp("repeated", i%2 == 1, 1, 0, 1, 0)
		w := newGW(cfg, true)
		w.quick = true
		if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'D', 1, 0, 0, 0}, GOp{'D', 1, 0, 2, 0}) {
			return
		}
		n := []int{2001, 1999, 2000, 4100}[i/2]
		for j := 0; j < n; j++ {
			if r := w.store(1).GProcess(w.gname(0), w.Dists[0][0].Wire); !r.OK() {
				k.Failf("distribution message, time %d: %v", j+2, r)
				return
			}
		}
		for _, m := range []int{0, 2} {
			if r := w.store(1).GDecrypt(w.gname(0), w.Msgs[0][m].Wire); r.OK() {
				k.Failf("message %d decrypts again after its distribution message arrived %d more times", m, n)
			}
		}
		k.Trace(1)
		k.Eval1("ok")
	})
	gaps := []int{1, 2, 100, 1999, 2000}
	c.Each("gaps", len(gaps)*2, func(i int) string { return fmt.Sprint("gap ", gaps[i/2], " json ", i%2 == 1) }, func(k *Case, i int) {
		gap := gaps[i/2]
		cfg := grp("far", i%2 == 1, 1, 0, 1, 0)
		w := newGW(cfg, true)
		w.quick = true
		if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'D', 1, 0, 0, 0}) {
			return
		}
		for j := 0; j <= 2*gap+1; j++ {
			if !w.seq(k, GOp{'S', 0, 0, 0, 0}) {
				return
			}
		}
		// forward by the gap, one from the middle, forward by the gap again (evicting), then everything again
		if !w.seq(k, GOp{'D', 1, 0, gap + 1, 0}, GOp{'D', 1, 0, 1 + gap/2, 0}, GOp{'D', 1, 0, 1 + gap/2, 0}, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 1, 0}, GOp{'D', 1, 0, 2*gap + 2, 0}) {
			return
		}
		step := 1
		if gap > 100 {
			step = gap / 25
		}
		for round := 0; round < 2; round++ {
			for j := 0; j <= 2*gap+2; j += step {
				if !w.seq(k, GOp{'D', 1, 0, j, 0}) {
					return
				}
			}
			if !w.seq(k, GOp{'R', 1, 0, 0, 0}) {
				return
			}
		}
		k.Trace(1)
		k.Eval1("ok")
	})
}

// ---------------------------------------------------------------- G03

// gbads are wires that no member may accept: (name offered under, wire, what).
type gbad struct {
	n    int
	wire []byte
	what string
}

func (w *GW) forgeries() (out []gbad) {
	js := w.Cfg.JSON
	atk := attackerKey()
	for n := range w.Msgs {
		for i := range w.Msgs[n] {
			m, ok := parseSKM(w.Msgs[n][i].Wire, js)
			if !ok || !w.in(n, i) {
				continue
			}
			add := func(what string, f func(x *jsonSKM)) {
				x := *m
				x.CipherText, x.Signature = append([]byte{}, m.CipherText...), append([]byte{}, m.Signature...)
				f(&x)
				out = append(out, gbad{n, x.join(js), fmt.Sprintf("message %d of sender %d with %s", i, n, what)})
			}
			add("the next iteration", func(x *jsonSKM) { x.Iteration++ })
			add("the previous iteration", func(x *jsonSKM) { x.Iteration-- })
			add("an iteration 300 later", func(x *jsonSKM) { x.Iteration += 300 })
			add("iteration 2^31 later", func(x *jsonSKM) { x.Iteration += 1 << 31 })
			add("another key id", func(x *jsonSKM) { x.ID ^= 1 })
			if js {
				add("version 2", func(x *jsonSKM) { x.Version = 2 })
				add("version 4", func(x *jsonSKM) { x.Version = 4 })
				add("version 0", func(x *jsonSKM) { x.Version = 0 })
			} else {
				add("version 2", func(x *jsonSKM) { x.Version = 0x22 })
				add("version 4", func(x *jsonSKM) { x.Version = 0x43 })
			}
			add("the first ciphertext bit changed", func(x *jsonSKM) { x.CipherText[0] ^= 0x80 })
			add("the last ciphertext bit changed", func(x *jsonSKM) { x.CipherText[len(x.CipherText)-1] ^= 1 })
			add("a longer ciphertext", func(x *jsonSKM) { x.CipherText = append(x.CipherText, make([]byte, 16)...) })
			if len(m.CipherText) > 16 {
				add("a shorter ciphertext", func(x *jsonSKM) { x.CipherText = x.CipherText[:len(x.CipherText)-16] })
			}
			add("no signature", func(x *jsonSKM) { x.Signature = make([]byte, 64) })
			add("a changed signature", func(x *jsonSKM) { x.Signature[0] ^= 1 })
			add("a changed signature scalar", func(x *jsonSKM) { x.Signature[40] ^= 4 })
			// signed by somebody else
			add("a signature by another key", func(x *jsonSKM) { s := ref.Sign(atk.Priv, m.signed(js), []byte("n")); x.Signature = s[:] })
			// what the sender itself can sign, but nobody can decrypt
			if priv := w.signer(n, i); priv != nil {
				for _, d := range []uint32{0, 3} {
					add(fmt.Sprintf("a ciphertext that cannot be decrypted, signed by the sender, iteration +%d", d), func(x *jsonSKM) {
						x.Iteration += d
						x.CipherText = []byte("short")
						s := ref.Sign(*priv, x.signed(js), []byte("n"))
						x.Signature = s[:]
					})
				}
			}
			// what an insider can make: the right keys, another signature
			if k := w.Keys[[2]int{n, w.M.Msgs[n][i].Key}]; k != nil {
				if ch, it := chainAt(k, int(m.Iteration)+1); ch != nil {
					add("an insider's message in its place", func(x *jsonSKM) {
						iv, ck := ref.GroupKeys([]byte(ch))
						x.Iteration, x.CipherText = uint32(it), ref.CBCEncrypt(ck, iv, []byte("insider"))
						s := ref.Sign(atk.Priv, x.signed(js), []byte("n"))
						x.Signature = s[:]
					})
					add("an insider's ciphertext and the genuine signature", func(x *jsonSKM) {
						iv, ck := ref.GroupKeys([]byte(ch))
						x.CipherText = ref.CBCEncrypt(ck, iv, []byte("insider"))
					})
				}
			}
			// fields of other messages
			for n2 := range w.Msgs {
				for i2 := range w.Msgs[n2] {
					if n2 == n && i2 == i || !w.in(n2, i2) {
						continue
					}
					o, ok := parseSKM(w.Msgs[n2][i2].Wire, js)
					if !ok {
						continue
					}
					for _, mask := range w.masks() {
						x := *m
						if mask&1 != 0 {
							x.ID = o.ID
						}
						if mask&2 != 0 {
							x.Iteration = o.Iteration
						}
						if mask&4 != 0 {
							x.CipherText = o.CipherText
						}
						if mask&8 != 0 {
							x.Signature = o.Signature
						}
						wire := x.join(js)
						if bytes.Equal(wire, w.Msgs[n][i].Wire) || bytes.Equal(wire, w.Msgs[n2][i2].Wire) {
							continue
						}
						out = append(out, gbad{n, wire, fmt.Sprintf("fields of messages %d of %d and %d of %d combined (%04b)", i, n, i2, n2, mask)})
					}
				}
			}
		}
	}
	// messages of one sender under the name of another
	for n := range w.Msgs {
		for i := range w.Msgs[n] {
			for n2 := range w.Msgs {
				if n2 != n && w.in(n, i) {
					out = append(out, gbad{n2, w.Msgs[n][i].Wire, fmt.Sprintf("message %d of sender %d under the name of %d", i, n, n2)})
				}
			}
		}
	}
	return
}

// signer is the private key that the sender of a message has signed it with.
func (w *GW) signer(n, i int) *[32]byte {
	k := w.Keys[[2]int{n, w.M.Msgs[n][i].Key}]
	if k == nil {
		return nil
	}
	if v, ok := signers.Load(string(k.Sign)); ok {
		return v.(*[32]byte)
	}
	var priv *[32]byte
	if s := w.Refs[n]; s != nil {
		if bytes.Equal(ref.Pub33(s.Sign.Pub), k.Sign) {
			priv = &s.Sign.Priv
		}
	} else {
		st := &Store{P: w.P[w.Cfg.Names[n].Sender], Ser: w.Ser}
		if r := st.LoadSenderKey(st.gname(w.gname(n))); r != nil {
			if x, err := r.SenderKeyState(); err == nil && x.SigningKey().PrivateKey() != nil &&
				bytes.Equal(x.SigningKey().PublicKey().Serialize(), k.Sign) {
				b := x.SigningKey().PrivateKey().Serialize()
				priv = &b
			}
		}
	}
	if priv != nil {
		signers.Store(string(k.Sign), priv)
	}
	return priv
}

var signers sync.Map

// chainAt is a chain key of a distributed key at or before an iteration's, moved there.
func chainAt(k *gkey, it int) ([]byte, int) {
	best := -1
	for i := range k.Chain {
		if i <= it && i > best {
			best = i
		}
	}
	if best < 0 {
		return nil, 0
	}
	ch := []byte(k.Chain[best])
	for i := best; i < it; i++ {
		ch = ref.NextChain(ch)
	}
	return ch, it
}

func attackerKey() ref.KeyPair { return refKey(666) }

// refusals presents all forgeries to all members.
func (w *GW) refusals(evals *int64) []Finding {
	bads := w.forgeries()
	for b := range w.P {
		img := ""
		if w.Live {
			w.P[b].Sync()
		}
		img = string(w.P[b].Image())
		one := func(what string, n int, f func(st *Store, g GName) *Res) *Finding {
			st := &Store{P: w.P[b], Ser: w.Ser}
			if w.Live {
				st = w.store(b)
			} else {
				st = &Store{P: w.P[b].Clone(), Ser: w.Ser}
			}
			r := f(st, w.gname(n))
			atomic.AddInt64(evals, 1)
			if r.Panic != "" {
				return &Finding{"crash", fmt.Sprintf("user %d: %s: %v", b, what, r)}
			}
			if r.OK() {
				return &Finding{"over", fmt.Sprintf("user %d accepts %s", b, what)}
			}
			if x := string(st.P.Image()); x != img {
				return &Finding{"reject", fmt.Sprintf("user %d rejects %s, but its state changes: %s", b, what, diffImage([]byte(img), []byte(x)))}
			}
			return nil
		}
		for _, x := range bads {
			if f := one(x.what, x.n, func(st *Store, g GName) *Res { return st.GDecrypt(g, x.wire) }); f != nil {
				return []Finding{*f}
			}
		}
		for n := range w.Cfg.Names {
			if w.Cfg.Names[n].Sender == b {
				continue
			}
			if f := one("to encrypt with a received key", n, func(st *Store, g GName) *Res { return st.GEncrypt(g, []byte("mine")) }); f != nil {
				f.Text = fmt.Sprintf("user %d encrypts with the key of sender %d (%s)", b, n, f.Text)
				return []Finding{*f}
			}
			if !w.Live {
				p := w.P[b].Clone()
				p.ToLive(w.Ser)
				p.Sync()
				p.ToLive(w.Ser)
				if r := (&Store{P: p, Ser: w.Ser}).GEncrypt(w.gname(n), []byte("mine")); r.OK() {
					return []Finding{{"over", fmt.Sprintf("user %d encrypts with the reloaded key of sender %d", b, n)}}
				}
			}
		}
	}
	return nil
}

func checkG03(c *Ctx) {
	c.Rule(ruleG + " In every state (and after every step of the in-memory replays) every member gets the complete alphabet of forgeries of every message: changed id, iteration, version, ciphertext and signature, signatures by others, an insider's messages, all combinations of fields of two messages, messages under other names, and tries to encrypt with received keys. Everything must be refused and leave all stored bytes as they were. All single-bit changes of selected messages are presented too.")
	c.Assume("XEdDSA signatures are unforgeable")
	q := c.Q
	var run []func()
	add := func(cfg *GCfg, depth, max int) {
		cfg.Each = func(w *GW) []Finding { return w.refusals(&c.Evals) }
		run = append(run, func() {
			exploreGroups(c, cfg, depth, max, q(60, 3000), classes("over", "reject", "crash"), func(w *GW) []Finding { return w.refusals(&c.Evals) })
		})
	}
	add(grp("one-member", false, 1, q(4, 5), 2, 0), 40, q(600, 60000))
	add(goddKeys(grp("rotation", true, 1, q(2, 3), 1, q(1, 2))), 40, q(600, 60000))
	m := &GCfg{Name: "two-senders", Parties: []Addr{alice, bob, carol}, Names: []GN{{"g1", 0}, {"g1", 1}}, MaxSend: []int{q(1, 2), 1}, MaxDist: []int{1, 1}}
	add(m, q(10, 40), q(900, 60000))
	m2 := &GCfg{Name: "two-groups", JSON: true, Parties: []Addr{alice, bob}, Names: []GN{{"g1", 0}, {"g2", 0}}, MaxSend: []int{q(2, 3), q(1, 2)}, MaxDist: []int{1, 1}}
	add(m2, 40, q(900, 60000))
	run = append(run, func() { g03Bits(c) }, func() { g03LongMessages(c) }, func() { gRichForge(c) })
	c.Par(run...)
}

// g03LongMessages: long messages that are changed in one place.
func g03LongMessages(c *Ctx) {
	lens := longLens(c)
	worlds := make([]*GW, 2*len(lens))
	for i := range worlds {
		cfg := grp("long", i%2 == 1, 1, 0, 1, 0)
		cfg.Payload = func(int, int) []byte { return longText(lens[i/2]) }
		cfg.Setup = []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'D', 1, 0, i / 2 % 2, 0}}
		w, ok := Setup(c, "long", classes("over"), func() *GW { return newGW(cfg, false) })
		if !ok {
			return
		}
		worlds[i] = w
	}
	type job struct{ w, part int }
	var jobs []job
	for w := range worlds {
		for p := 0; p < 8; p++ {
			jobs = append(jobs, job{w, p})
		}
	}
	c.Each("long messages", len(jobs), func(i int) string {
		return fmt.Sprintf("%d bytes, json %v, part %d", lens[jobs[i].w/2], jobs[i].w%2 == 1, jobs[i].part)
	}, func(k *Case, i int) {
		w := worlds[jobs[i].w]
		wire := w.Msgs[0][1-jobs[i].w/2%2].Wire // the one not yet decrypted
		orig, _ := parseSKM(wire, w.Cfg.JSON)
		st := &Store{P: w.P[1].Clone(), Ser: w.Ser}
		img := string(st.P.Image())
		for n, p := range longPlaces(len(wire)) {
			if n%8 != jobs[i].part {
				continue
			}
			b := flip(wire, p, 1)
			x, ok := parseSKM(b, w.Cfg.JSON)
			vs := uint(4)
			if w.Cfg.JSON {
				vs = 0
			}
			if ok && x.ID == orig.ID && x.Iteration == orig.Iteration && x.Version>>vs == orig.Version>>vs && bytes.Equal(x.CipherText, orig.CipherText) {
				continue // in the signature, or in nothing that is authenticated
			}
			r := st.GDecrypt(w.gname(0), b)
			k.Eval(1)
			if r.Panic != "" {
				return // S05's
			}
			if r.OK() {
				k.Failf("a message of %d bytes with byte %d changed is accepted", len(wire), p)
				return
			}
			if string(st.P.Image()) != img {
				k.Failf("a message of %d bytes with byte %d changed is rejected, but changes the state", len(wire), p)
				return
			}
		}
		if r := st.GDecrypt(w.gname(0), wire); !r.OK() {
			k.Eval1("genuine not decrypted") // G01's
			return
		}
		k.Trace(1)
	})
}

func g03Bits(c *Ctx) {
	var worlds []*GW
	for _, js := range []bool{false, true} {
		cfg := grp("bits", js, 1, 0, 1, 0)
		cfg.Setup = []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'D', 1, 0, 1, 0}}
		w, ok := Setup(c, "bits", classes("over"), func() *GW { return newGW(cfg, false) })
		if !ok {
			return
		}
		worlds = append(worlds, w)
	}
	type job struct{ w, m, i int }
	var jobs []job
	for wi, w := range worlds {
		for _, m := range []int{0, 2} { // a skipped one and the next one
			for i := range w.Msgs[0][m].Wire {
				jobs = append(jobs, job{wi, m, i})
			}
		}
	}
	c.Each("bits", len(jobs), func(i int) string { return fmt.Sprint(jobs[i]) }, func(k *Case, i int) {
		j := jobs[i]
		w := worlds[j.w]
		wire := w.Msgs[0][j.m].Wire
		orig, _ := parseSKM(wire, w.Cfg.JSON)
		try := func(b []byte, what string) bool {
			st := &Store{P: w.P[1].Clone(), Ser: w.Ser}
			r := st.GDecrypt(w.gname(0), b)
			k.Eval(1)
			if r.Panic != "" {
				return true // S05's
			}
			if !r.OK() {
				if x := st.P.Image(); !bytes.Equal(x, w.P[1].Image()) {
					return k.Failf("%s is rejected, but changes the state", what)
				}
				return true
			}
			x, ok := parseSKM(b, w.Cfg.JSON)
			same := ok && x.ID == orig.ID && x.Iteration == orig.Iteration && bytes.Equal(x.CipherText, orig.CipherText) && bytes.Equal(r.Plain, w.Msgs[0][j.m].Plain)
			if same && w.Cfg.JSON {
				same = x.Version == orig.Version
			} else if same {
				same = x.Version>>4 == orig.Version>>4
			}
			if !same {
				return k.Failf("%s is accepted", what)
			}
			k.Eval1("accepted with the same contents")
			return true
		}
		for bit := 0; bit < 8; bit++ {
			if !try(flip(wire, j.i, 1<<uint(bit)), fmt.Sprintf("message %d with bit %d of byte %d changed", j.m, bit, j.i)) {
				return
			}
		}
		_ = try(append(append([]byte{}, wire[:j.i]...), wire[j.i+1:]...), fmt.Sprintf("message %d without byte %d", j.m, j.i)) &&
			try(append(append(append([]byte{}, wire[:j.i]...), wire[j.i]), wire[j.i:]...), fmt.Sprintf("message %d with byte %d twice", j.m, j.i)) &&
			try(wire[:j.i], fmt.Sprintf("the first %d bytes of message %d", j.i, j.m))
		k.Trace(1)
	})
}

// ---------------------------------------------------------------- G05

func checkG05(c *Ctx) {
	c.Rule("For every listed position of the receiver (first message after the distribution message, in the middle, after skipped keys, for the first and a later key) every distance around the limits is presented, and after evictions every skipped message around the edges, in ascending and descending order; the symbolic model says exactly which ones decrypt. Rejections must leave all stored bytes as they were. Senders with up to 2001 keys are enumerated at the edges.")
	c.Assume("the limits of the implementation (2000 ahead, 2000 skipped, 2000 keys) are the specified ones")
	c.Par(func() { g05Jumps(c) }, func() { g05Evict(c) }, func() { g05Keys(c) })
}

func g05Base(k *Case, js, live bool, n int) *GW {
	cfg := grp("limits", js, 1, 0, 1, 0)
	cfg.Payload = func(n, i int) []byte { return []byte(fmt.Sprint("m", i)) }
	w := newGW(cfg, live)
	w.quick = true
	if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}) {
		return nil
	}
	for i := 0; i < n; i++ {
		if !w.seq(k, GOp{'S', 0, 0, 0, 0}) {
			return nil
		}
	}
	return w
}

func g05Jumps(c *Ctx) {
	type cse struct {
		js   bool
		pre  int // messages decrypted first: 0, 1, or a skipped stretch of 5
		pres string
	}
	var cs []cse
	for _, js := range []bool{false, true} {
		for p, s := range []string{"at the start", "after one message", "after skipping five", "of a second key"} {
			cs = append(cs, cse{js, p, s})
		}
	}
	c.Each("jumps", len(cs), func(i int) string { return fmt.Sprintf("json %v %s", cs[i].js, cs[i].pres) }, func(k *Case, i int) {
		w := g05Base(k, cs[i].js, false, 2020)
		if w == nil {
			return
		}
		next, off := 0, 0
		switch cs[i].pre {
		case 1:
			if !w.seq(k, GOp{'D', 1, 0, 0, 0}) {
				return
			}
			next = 1
		case 2:
			if !w.seq(k, GOp{'D', 1, 0, 5, 0}) {
				return
			}
			next = 6
		case 3:
			if !w.seq(k, GOp{'D', 1, 0, 3, 0}, GOp{'K', 0, 0, 0, 0}, GOp{'P', 1, 0, 1, 0}) {
				return
			}
			off = 2020
			for j := 0; j < 2010; j++ {
				if !w.seq(k, GOp{'S', 0, 0, 0, 0}) {
					return
				}
			}
		}
		var ds []int
		for _, d := range []int{0, 1, 2, 999, 1000, 1001, 1998, 1999, 2000, 2001, 2002, 2003} {
			ds = append(ds, d)
		}
		for _, d := range ds {
			x := w.Fork(1)
			msg := off + next + d
			img := x.P[1].Image()
			if !x.seq(k, GOp{'D', 1, 0, msg, 0}) {
				return
			}
			if d > 2000 {
				if x.Last.OK() {
					k.Failf("message %d ahead accepted", d)
					return
				}
				if !bytes.Equal(img, x.P[1].Image()) {
					k.Failf("message %d ahead is rejected, but changes the state", d)
					return
				}
				// the next one still decrypts
				if !x.seq(k, GOp{'D', 1, 0, off + next, 0}) {
					return
				}
			} else if !x.Last.OK() {
				k.Failf("message %d ahead rejected: %v", d, x.Last)
				return
			}
			// neighbours
			for _, y := range []int{msg - 1, msg + 1, off + next, off + next + 1} {
				if y >= 0 && y < len(x.Msgs[0]) && !x.seq(k, GOp{'D', 1, 0, y, 0}) {
					return
				}
			}
			k.Eval1(fmt.Sprint("jump ", d, " ", d <= 2000))
		}
		k.Trace(1)
	})
}

func g05Evict(c *Ctx) {
	type cse struct {
		js, live   bool
		first, sec int // two jumps
		desc       bool
	}
	var cs []cse
	for _, js := range []bool{false, true} {
		for _, f := range [][2]int{{2000, 0}, {2000, 1}, {1999, 2}, {1000, 1001}, {1000, 1000}, {2000, 2000}, {1, 2000}} {
			for _, d := range []bool{false, true} {
				cs = append(cs, cse{js, d != js, f[0], f[1], d})
			}
		}
	}
	c.Each("evictions", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		tot := x.first + x.sec + 3
		w := g05Base(k, x.js, x.live, tot)
		if w == nil {
			return
		}
		if !w.seq(k, GOp{'D', 1, 0, x.first, 0}) {
			return
		}
		if x.sec > 0 && !w.seq(k, GOp{'D', 1, 0, x.first + 1 + x.sec, 0}) {
			return
		}
		// a repeated distribution message does not matter
		if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}, GOp{'P', 1, 0, 1, 0}) {
			return
		}
		seen := map[int]bool{}
		var idx []int
		add := func(v int) {
			if v >= 0 && v < tot && !seen[v] {
				seen[v] = true
				idx = append(idx, v)
			}
		}
		edge := x.first + x.sec - 2000 // number of evicted ones
		for _, e := range []int{0, edge, x.first, x.first + x.sec, tot - 1} {
			for d := -4; d <= 4; d++ {
				add(e + d)
			}
		}
		for v := 0; v < tot; v += c.Q(97, 1) {
			add(v)
		}
		sortInts(idx, x.desc)
		open := 0
		for _, v := range idx {
			if !w.seq(k, GOp{'D', 1, 0, v, 0}) {
				return
			}
			if w.Last.OK() {
				open++
			}
		}
		k.Eval1(fmt.Sprintf("jumps %d+%d", x.first, x.sec))
		k.Eval(open)
		k.Trace(1)
	})
}

func sortInts(l []int, desc bool) {
	for i := range l {
		for j := i; j > 0 && (l[j] < l[j-1]) != desc; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// g05Keys: many keys of one sender; each key's first message stays decryptable.
func g05Keys(c *Ctx) {
	counts := []int{2, 3, 5, 6, 41, 100}
	if c.Thorough {
		counts = append(counts, 1000, 1999, 2000, 2001)
	} else {
		counts = append(counts, 2001)
	}
	c.Each("keys", len(counts)*2, func(i int) string { return fmt.Sprint(counts[i/2], " keys, json ", i%2 == 1) }, func(k *Case, i int) {
		if counts[i/2] > 1000 && i%2 == 1 && !c.Thorough {
			return
		}
		cfg := grp("keys", i%2 == 1, 1, 0, 1, 0)
		cfg.Payload = func(n, i int) []byte { return []byte(fmt.Sprint("m", i)) }
		w := newGW(cfg, true)
		w.quick = true
		n := counts[i/2]
		for j := 0; j < n; j++ {
			o := GOp{'K', 0, 0, 0, 0}
			if j == 0 {
				o.K = 'C'
			}
			if !w.seq(k, o, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'P', 1, 0, j, 0}) {
				return
			}
			if j%2 == 0 && !w.seq(k, GOp{'D', 1, 0, 2*j + 1, 0}) { // the first is late
				return
			}
		}
		if !w.seq(k, GOp{'R', 1, 0, 0, 0}) {
			return
		}
		for j := 0; j < n; j++ {
			if !w.seq(k, GOp{'P', 1, 0, j, 0}) || !w.seq(k, GOp{'D', 1, 0, 2 * j, 0}, GOp{'D', 1, 0, 2*j + 1, 0}) {
				return
			}
		}
		k.Eval1(fmt.Sprint(n, " keys"))
		k.Trace(1)
	})
}
