package main

import (
	"bytes"
	"fmt"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/ecc"
)

// Long histories: what happens after many messages, turns or sessions, and what
// depends on a value that is rare, like a key that begins with a zero byte.

// longPattern calls do for the operations of a long use by two users who have
// established a session: pattern 0..3, `turns` turns. It stops when do returns false.
func longPattern(pattern, turns int, do func(o SOp) bool) bool {
	n := [2]int{1, 1} // messages so far
	send := func(a int) bool { n[a]++; return do(SOp{'S', a, 1 - a, 0}) }
	del := func(a, j int) bool { return j < 1 || do(SOp{'D', a, 1 - a, j}) }
	for t := 0; t < turns; t++ {
		for a := 0; a < 2; a++ {
			ok := true
			switch pattern {
			case 0: // one after the other
				ok = send(a) && del(a, n[a]-1)
			case 1: // the first of two arrives two turns late
				ok = send(a) && send(a) && del(a, n[a]-1) && del(a, n[a]-6)
			case 2: // backwards
				ok = send(a) && send(a) && send(a) && del(a, n[a]-1) && del(a, n[a]-2) && del(a, n[a]-3)
			case 3: // both write before either reads
				if a == 0 {
					ok = send(0) && send(1) && del(1, n[1]-1) && del(0, n[0]-1)
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// forget drops what is over.
func (w *SW) forget(keep int) { w.forgetBut(keep, func(*SMsg) bool { return false }) }

func (w *SW) forgetBut(keep int, but func(m *SMsg) bool) {
	for key, m := range w.Msgs {
		if !but(m) && key[2] < w.M.NSent[[2]int{key[0], key[1]}]-keep {
			delete(w.Msgs, key)
			delete(w.M.Deliv, key)
		}
	}
}

// s10Long: long use with records kept in memory, which are serialized and loaded after
// every operation, next to the same use with records loaded for every operation.
func s10Long(c *Ctx) {
	turns := c.Q(260, 4000)
	c.Each("long-use", 16, func(i int) string {
		return fmt.Sprintf("pattern %d json %v copied %v", i/4, i%2 == 1, i/2%2 == 1)
	}, func(k *Case, i int) {
		cfg := two(fmt.Sprint("long-reload-", i), i%2 == 1, plan(0, 1, 1), 0, 0)
		if i/2%2 == 1 {
			cfg = odd(cfg)
		}
		cfg.Setup = established()
		d, l := newSW(cfg, false), newSW(cfg, true)
		d.quick, l.quick = true, true
		someCopies(l.P, i/2%2)
		step := 0
		longPattern(i/4, turns, func(o SOp) bool {
			step++
			x, y := obs(d, o), obs(l, o)
			if !x.eq(y) {
				return k.Failf("step %d (%v) gives %v with reloaded records, %v with records in memory", step, o, x, y)
			}
			if fs := l.reloadsEqual(); len(fs) > 0 {
				return k.Failf("step %d (%v): %v", step, o, fs)
			}
			if step%16 == 0 {
				for p := range d.P {
					if a, b := d.P[p].Image(), l.P[p].Image(); !bytes.Equal(a, b) {
						return k.Failf("step %d: user %d has other stored bytes: %s", step, p, diffImage(a, b))
					}
				}
				d.forget(10)
				l.forget(10)
			}
			k.Eval(1)
			k.Trans(2)
			return true
		})
		k.Trace(1)
		k.Nontrivial(step)
	})
}

func obs(w *SW, o SOp) seenOp {
	w.Do(o)
	if w.Last == nil {
		return seenOp{}
	}
	return seenOp{w.Last.OK(), w.Last.Plain, w.Last.Wire, w.Last.Type}
}

var _ ecc.ECPublicKeyable

// s12Chains: chains of many lengths, each answered and followed by another chain; the
// model knows every counter and previous counter.
func s12Chains(c *Ctx) {
	lens := []int{1, 2, 127, 128, 255, 256, 257, 300, 512, 1000, 2001, 4097}
	if c.Thorough {
		lens = append(lens, 5, 16, 64, 129, 254, 511, 513, 1023, 1024, 1025, 10000, 16384, 32768, 65535, 65536, 65537, 70000)
	}
	c.Each("chain-lengths", len(lens)*2, func(i int) string { return fmt.Sprintf("%d messages, json %v", lens[i/2], i%2 == 1) }, func(k *Case, i int) {
		n := lens[i/2]
		cfg := two(fmt.Sprint("chain-", n), i%2 == 1, plan(0, 1, 1), 0, 0)
		cfg.Setup, cfg.Header = established(), true
		w := newSW(cfg, n > 600)
		w.quick = true
		do := func(o SOp) bool {
			for _, f := range w.Do(o) {
				if f.Class == "hdr" || f.Class == "reuse" || f.Class == "wire" {
					return k.Failf("after a chain of %d messages: %s", n, f.Text)
				}
				return false // another property's
			}
			k.Eval(1)
			k.Trans(1)
			return true
		}
		// chain: user a sends m messages, of which the last and some others arrive
		chain := func(a, m int) bool {
			for j := 0; j < m; j++ {
				if !do(SOp{'S', a, 1 - a, 0}) {
					return false
				}
				s := w.M.NSent[[2]int{a, 1 - a}] - 1
				if (j == m-1 || j%1000 == 999) && !do(SOp{'D', a, 1 - a, s}) {
					return false
				}
				if j%1000 == 500 {
					w.forget(1200)
				}
			}
			return true
		}
		ok := chain(0, n) && chain(1, n/2+1) && chain(0, 2) && chain(1, 2) && chain(0, 1) && chain(1, 1)
		if ok {
			k.Trace(1)
			k.Nontrivial(n)
		}
	})
}

// s12Far: chains that are so long that the state after them is made by editing the
// stored counters of both sides; then their last messages, and the chains after them.
func s12Far(c *Ctx) {
	ats := []uint32{124, 252, 32764, 65531, 65534, 65535, 65536, 1<<24 - 3, 1 << 24, 1<<31 - 3, 1 << 31, 1<<32 - 9}
	c.Each("far-chains", len(ats)*24, func(i int) string {
		return fmt.Sprintf("from %d, kind %d", ats[i/24], i%24)
	}, func(k *Case, i int) {
		at, js, reload, who, n := ats[i/24], i%2 == 1, i/2%2 == 1, i/4%2, []int{1, 2, 5}[i/8%3]
		cfg := two(fmt.Sprint("far-chain-", i), js, plan(0, 1, 1), 0, 0)
		cfg.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 1}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 1})
		w := newSW(cfg, false)
		at2 := func(p int) Addr { return []Addr{alice, bob}[p] }
		if who == 1 { // bob's chain is the one on which alice has not answered yet
			for _, o := range []SOp{{'S', 0, 1, 0}, {'D', 0, 1, 2}} {
				if len(w.Do(o)) > 0 {
					return
				}
			}
		}
		rc := len(w.M.rec(1-who, who).Cur.Recv) - 1
		first := 0
		// the first message of the chain makes the receiver's chain
		step := func(p int, want uint32, prev int64) (wire []byte, ok bool) {
			r := w.store(p).Encrypt(at2(1-p), []byte("x"))
			h, good := parseHdr(r.Wire, r.Type, js)
			if !r.OK() || !good {
				return nil, k.Failf("encrypting: %v", r)
			}
			if uint32(h.Ctr) != want {
				return nil, k.Failf("counter %d, expected %d", h.Ctr, want)
			}
			if prev >= 0 && int64(h.Prev) != prev {
				return nil, k.Failf("previous counter %d after a chain whose last message had %d", h.Prev, prev)
			}
			if reload {
				w.Do(SOp{'R', p, 0, 0})
			}
			k.Trans(1)
			k.Eval(1)
			return r.Wire, true
		}
		get := func(p int, wire []byte) bool { return w.store(p).Receive(at2(1-p), wire, false).OK() }
		m, ok := step(who, 0, -1)
		if !ok || !get(1-who, m) {
			return
		}
		first++
		if rec := w.loadRec(1-who, who); rec == nil || !shiftChain(w.P[1-who], at2(who), w.Ser, rc+1, at) || !shiftChain(w.P[who], at2(1-who), w.Ser, -1, at) {
			k.Eval1("stored form cannot be edited")
			return
		}
		last := at
		for j := 0; j < n; j++ {
			last++
			if m, ok = step(who, last, -1); !ok {
				return
			}
		}
		if !get(1-who, m) {
			return
		}
		if m, ok = step(1-who, 0, -1); !ok || !get(who, m) {
			return
		}
		for j := uint32(0); j < 3; j++ {
			if m, ok = step(who, j, int64(last)); !ok {
				return
			}
		}
		if !get(1-who, m) {
			return
		}
		if m, ok = step(1-who, 0, 0); !ok || !get(who, m) {
			return
		}
		if _, ok = step(who, 0, 2); !ok {
			return
		}
		k.Trace(1)
		k.Nontrivial(1)
		k.Eval1("exact")
	})
}

// s16Deep: late messages of sessions at every depth of the archive.
func s16Deep(c *Ctx) { deep(c, "lost", "shape", "send", "bundle", "conv", "over", "dup", "panic") }

func deep(c *Ctx, cls ...string) {
	max := c.Q(39, 40)
	type cse struct {
		n, order int
		js, live bool
		both     bool
	}
	var cs []cse
	for i, n := range []int{max, 24, 8} {
		for order := 0; order < 4; order++ {
			for b := 0; b < 2; b++ {
				cs = append(cs, cse{n, order, (i+order+b)%2 == 1, (i+order)%3 != 0, b == 1})
				if c.Thorough {
					cs = append(cs, cse{n, order, (i+order+b)%2 == 0, (i+order)%3 == 0, b == 1})
				}
			}
		}
	}
	c.Each("deep", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		cfg := two(fmt.Sprint("deep-", i), x.js, nil, 0, 0)
		opks := make([]int64, x.n+1)
		for j := range opks {
			opks[j] = -1
		}
		cfg.Plan = plan(0, 1, opks...)
		if x.both {
			cfg.Plan = plans(plan(0, 1, opks[:x.n/2+1]...), plan(1, 0, opks[:x.n-x.n/2]...))
		}
		cfg.Shape = classes(cls...)["shape"]
		w := newSW(cfg, x.live)
		w.quick = true
		do := func(os ...SOp) bool {
			for _, o := range os {
				for _, f := range w.Do(o) {
					if classes(cls...)[f.Class] {
						return k.Failf("%s: %s", f.Class, f.Text)
					}
					return false
				}
				k.Trans(1)
				k.Eval(1)
			}
			return true
		}
		type late struct{ a, i int }
		var ls []late
		sent := [2]int{}
		for j := 0; j <= x.n; j++ {
			a := 0
			if x.both {
				a = j % 2
			}
			b := 1 - a
			// the first message arrives, the second is late, and in every third session
			// there is an answer that is late, too
			if !do(SOp{'B', a, b, 0}, SOp{'S', a, b, 0}, SOp{'S', a, b, 0}, SOp{'D', a, b, sent[a]}) {
				return
			}
			ls = append(ls, late{a, sent[a] + 1})
			sent[a] += 2
			if j%3 == 1 {
				if !do(SOp{'S', b, a, 0}) {
					return
				}
				ls = append(ls, late{b, sent[b]})
				sent[b]++
			}
		}
		n := len(ls)
		perm := make([]int, n)
		for j := range perm {
			switch x.order {
			case 0:
				perm[j] = j
			case 1:
				perm[j] = n - 1 - j
			case 2: // from both ends
				if perm[j] = j / 2; j%2 == 1 {
					perm[j] = n - 1 - j/2
				}
			case 3: // by a step without a common divisor
				s := 7
				for n%s == 0 {
					s += 2
				}
				perm[j] = j * s % n
			}
		}
		for _, j := range perm {
			if !do(SOp{'D', ls[j].a, 1 - ls[j].a, ls[j].i}) {
				return
			}
		}
		// and again: nothing may decrypt twice; then both go on
		for _, j := range perm {
			if !do(SOp{'D', ls[j].a, 1 - ls[j].a, ls[j].i}) {
				return
			}
		}
		for t := 0; t < 3; t++ {
			for a := 0; a < 2; a++ {
				if !do(SOp{'S', a, 1 - a, 0}, SOp{'D', a, 1 - a, sent[a]}) {
					return
				}
				sent[a]++
			}
		}
		k.Trace(1)
		k.Nontrivial(n)
	})
}

// leakLong: what is said at and beyond the limits.
func leakLong(c *Ctx, pr *printed) {
	type cse struct {
		name string
		js   bool
		cfg  func(js bool) *SessCfg
		ops  []SOp
		gops []GOp
	}
	est := func(js bool) *SessCfg {
		cfg := two("limits", js, plan(0, 1, 1), 0, 0)
		cfg.Setup = established()
		return cfg
	}
	many := func(js bool) *SessCfg {
		o := make([]int64, 44)
		for i := range o {
			o[i] = -1
		}
		return two("limits-many", js, plan(0, 1, o...), 0, 0)
	}
	rep := func(n int, o SOp) (out []SOp) {
		for i := 0; i < n; i++ {
			out = append(out, o)
		}
		return
	}
	grep := func(n int, o GOp) (out []GOp) {
		for i := 0; i < n; i++ {
			out = append(out, o)
		}
		return
	}
	s, gs := SOp{'S', 0, 1, 0}, GOp{'S', 0, 0, 0, 0}
	var cs []cse
	for _, js := range []bool{false, true} {
		cs = append(cs,
			cse{"2011 skipped", js, est, append(rep(2012, s), SOp{'D', 0, 1, 2012}, SOp{'D', 0, 1, 1}, SOp{'D', 0, 1, 2011}, SOp{'D', 0, 1, 12}), nil},
			cse{"one by one beyond the limit", js, est, append(append(rep(2010, s), SOp{'D', 0, 1, 1996}), SOp{'D', 0, 1, 1998}, SOp{'D', 0, 1, 2000}, SOp{'D', 0, 1, 2002}, SOp{'D', 0, 1, 2004}, SOp{'D', 0, 1, 2006}, SOp{'D', 0, 1, 2008}, SOp{'D', 0, 1, 2010}), nil},
			cse{"too far ahead", js, est, append(rep(5010, s), SOp{'D', 0, 1, 5010}, SOp{'P', 0, 1, 5008}, SOp{'D', 0, 1, 5}), nil})
		var chains []SOp
		for i := 0; i < 8; i++ {
			chains = append(chains, s, s, SOp{'D', 0, 1, 2 + 2*i}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 2 + 2*i})
		}
		for i := 0; i < 8; i++ {
			chains = append(chains, SOp{'D', 0, 1, 1 + 2*i}, SOp{'D', 1, 0, 1 + 2*i})
		}
		cs = append(cs, cse{"chains", js, est, chains, nil})
		var arch []SOp
		for i := 0; i < 44; i++ {
			arch = append(arch, SOp{'B', 0, 1, 0}, s, s, SOp{'D', 0, 1, 2 * i})
		}
		for i := 0; i < 44; i += 3 {
			arch = append(arch, SOp{'D', 0, 1, 2*i + 1})
		}
		cs = append(cs, cse{"archived", js, many, arch, nil})
		cp := []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}}
		cs = append(cs,
			cse{"group 2000 skipped", js, nil, nil, append(append(append([]GOp{}, cp...), grep(2003, gs)...), GOp{'D', 1, 0, 2000, 0}, GOp{'D', 1, 0, 2002, 0}, GOp{'D', 1, 0, 0, 0}, GOp{'D', 1, 0, 1, 0})},
			cse{"group too far ahead", js, nil, nil, append(append(append([]GOp{}, cp...), grep(2005, gs)...), GOp{'D', 1, 0, 2004, 0}, GOp{'D', 1, 0, 3, 0}, GOp{'D', 1, 0, 2004, 0}, GOp{'D', 1, 0, 2, 0})})
		var rot []GOp
		rot = append(rot, cp...)
		for i := 0; i < 12; i++ {
			rot = append(rot, gs, gs, GOp{'D', 1, 0, 2 * i, 0}, GOp{'K', 0, 0, 0, 0}, GOp{'P', 1, 0, i + 1, 0})
		}
		for i := 0; i < 12; i++ {
			rot = append(rot, GOp{'D', 1, 0, 2*i + 1, 0})
		}
		cs = append(cs, cse{"group rotations", js, nil, nil, rot})
	}
	c.Each("limits", len(cs), func(i int) string { return fmt.Sprintf("%s json %v", cs[i].name, cs[i].js) }, func(k *Case, i int) {
		x := cs[i]
		heard := func(o interface{}, fs []Finding) bool {
			for _, f := range fs {
				return k.Failf("%s, %v: %s", x.name, o, f.Text)
			}
			k.Eval1("heard")
			return true
		}
		if x.ops != nil {
			cfg := x.cfg(x.js)
			cfg.Payload = func(m *MMsg) []byte { return leakPayload(m.From, m.Seq) }
			cfg.Header = true
			w := newSW(cfg, true)
			w.quick = true
			for _, o := range x.ops {
				if o.K == 'S' {
					w.Do(o)
					continue
				}
				if !heard(o, listen(c, pr, w.sessionSecrets, func() { w.Do(o) })) {
					return
				}
			}
		} else {
			cfg := grp("limits", x.js, 1, 0, 1, 0)
			cfg.Payload = leakPayload
			w := newGW(cfg, true)
			w.quick = true
			for _, o := range x.gops {
				if o.K == 'S' {
					w.Do(o)
					continue
				}
				if !heard(o, listen(c, pr, w.groupSecrets, func() { w.Do(o) })) {
					return
				}
			}
		}
		k.Trace(1)
	})
}

// s19Long: very many turns, so that rare values (an agreement or a key that begins or
// ends with a zero byte, one in 256) come up many times.
func s19Long(c *Ctx) {
	turns := c.Q(220, 3000)
	c.Each("many-turns", 16, func(i int) string { return fmt.Sprint(i) }, func(k *Case, i int) {
		lib := i%2 == 0
		cfg := &iCfg{libInit: lib, opk: []int64{1, -1}[i/2%2], reg: uint32(i), spk: uint32(100 + i), payload: func(d, n int) []byte { return bytes.Repeat([]byte{byte(n), byte(d)}, n%20) }}
		w := newIW(cfg, i/4%2 == 0)
		do := func(os ...IOp) bool {
			for _, o := range os {
				if fs := w.do(o); len(fs) > 0 {
					return k.Failf("%v", fs)
				}
				k.Trans(1)
				k.Eval(1)
			}
			return true
		}
		if lib && !do(IOp{'B', 0}, IOp{'S', 0}, IOp{'d', 0}) {
			return
		}
		for t := 0; t < turns; t++ {
			if !do(IOp{'s', 0}) || t%7 == 3 && !do(IOp{'s', 0}) || !do(IOp{'D', len(w.R2L) - 1}) {
				return
			}
			if t%7 == 4 && !do(IOp{'D', len(w.R2L) - 3}) {
				return
			}
			if !do(IOp{'S', 0}) || t%5 == 3 && !do(IOp{'S', 0}) || !do(IOp{'d', len(w.L2R) - 1}) {
				return
			}
			if t%5 == 4 && !do(IOp{'d', len(w.L2R) - 3}) {
				return
			}
		}
		k.Trace(1)
		k.State(turns)
		k.Nontrivial(turns)
	})
}

// s14Bursts: many messages in one chain before it is answered, and very many turns.
func s14Bursts(c *Ctx) {
	bursts := []int{1, 2, 3, 8, 22, 45, 64, 101, 150, 260, 520}
	if c.Thorough {
		bursts = append(bursts, 5, 12, 16, 17, 32, 33, 65, 128, 129, 256, 257, 1000, 1024, 2003, 4100)
	}
	c.Each("bursts", len(bursts)*4, func(i int) string {
		return fmt.Sprintf("%d messages, json %v, all arrive %v", bursts[i/4], i%2 == 1, i/2%2 == 1)
	}, func(k *Case, i int) {
		n, all := bursts[i/4], i/2%2 == 1
		cfg := two(fmt.Sprint("burst-", i), i%2 == 1, plan(0, 1, 1), 0, 0)
		cfg.Setup, cfg.Header = established(), true
		w := newSW(cfg, (i/4+i)%2 == 0)
		w.quick = true
		do := func(os ...SOp) bool {
			for _, o := range os {
				fs := w.Do(o)
				if len(fs) == 0 {
					fs = w.thieves(o)
				}
				for _, f := range fs {
					if f.Class == "hdr" || f.Class == "heal" {
						return k.Failf("%s", f.Text)
					}
					return false
				}
				k.Trans(1)
				k.Eval(1)
			}
			return true
		}
		next := func(a int) int { return w.M.NSent[[2]int{a, 1 - a}] }
		// burst: m messages of a of which all or the last arrive
		burst := func(a, m int) bool {
			for j := 0; j < m; j++ {
				if !do(SOp{'S', a, 1 - a, 0}) || (all || j == m-1) && !do(SOp{'D', a, 1 - a, next(a) - 1}) {
					return false
				}
			}
			return true
		}
		copies := func() {
			w.Snaps = nil
			w.snapshot(0)
			w.snapshot(1)
		}
		for a := 0; a < 2; a++ {
			if !burst(a, n) {
				return
			}
			copies()
			// turns heal: the copies must come to nothing
			for t := 0; t < 3; t++ {
				if !burst(1-a, 1+t%2) || !burst(a, 1) {
					return
				}
			}
			if n > 300 {
				w.forgetBut(50, func(m *SMsg) bool { return m.Ctr == 0 }) // the key schedule needs one of every chain
			}
			for _, f := range w.postCompromise(c) {
				if f.Class == "heal" {
					k.Failf("after a chain of %d messages: %s", n, f.Text)
					return
				}
			}
			w.Snaps = nil
		}
		k.Trace(1)
		k.Nontrivial(n)
	})
	turns := c.Q(500, 6000)
	c.Each("many-turns", 8, func(i int) string { return fmt.Sprintf("pattern %d json %v", i/2, i%2 == 1) }, func(k *Case, i int) {
		cfg := two(fmt.Sprint("turns-", i), i%2 == 1, plan(0, 1, 1), 0, 0)
		cfg.Setup, cfg.Header = established(), true
		w := newSW(cfg, i/2%2 == 0)
		w.quick = true
		n := 0
		longPattern(i/2, turns, func(o SOp) bool {
			for _, f := range w.Do(o) {
				if f.Class == "hdr" {
					return k.Failf("operation %d: %s", n, f.Text)
				}
				return false
			}
			if n++; n%40 == 0 {
				w.forget(20)
			}
			k.Trans(1)
			k.Eval(1)
			return true
		})
		k.Trace(1)
		k.Nontrivial(n)
	})
}

// s20Counters: keys of messages with high counters, taken when they arrive in order,
// ahead and late.
func s20Counters(c *Ctx) {
	ats := []uint32{0, 126, 254, 16382, 32766, 65534, 65535, 65536, 1<<24 - 2, 1<<31 - 3, 1<<32 - 8}
	c.Each("counters", len(ats)*4, func(i int) string { return fmt.Sprint(ats[i/4], " json ", i%2 == 1, " live ", i/2%2 == 1) }, func(k *Case, i int) {
		at, js, live := ats[i/4], i%2 == 1, i/2%2 == 1
		cfg := two("far-keys", js, plan(0, 1, 1), 0, 0)
		cfg.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 1})
		w := newSW(cfg, false)
		rc := len(w.M.rec(1, 0).Cur.Recv) - 1
		if !shiftChain(w.P[1], alice, w.Ser, rc, at) || !shiftChain(w.P[0], bob, w.Ser, -1, at) {
			k.Eval1("stored form cannot be edited")
			return
		}
		if live {
			w.P[0].ToLive(w.Ser)
			w.P[1].ToLive(w.Ser)
		}
		var ms []*SMsg
		for j := 0; j < 6; j++ {
			pl := []byte(fmt.Sprint("message ", j))
			r := w.store(0).Encrypt(bob, pl)
			h, ok := parseHdr(r.Wire, r.Type, js)
			if !r.OK() || !ok {
				return
			}
			mm := MMsg{From: 0, To: 1, Seq: 100 + j, Ctr: int(h.Ctr)}
			ms = append(ms, &SMsg{MMsg: mm, Wire: r.Wire, Plain: pl, Type: r.Type})
		}
		w.Msgs, w.Keys = map[[3]int]*SMsg{}, map[[3]int]*savedKey{}
		for _, m := range ms {
			w.Msgs[[3]int{0, 1, m.Seq}] = m
		}
		for _, j := range []int{3, 1, 4, 0, 5, 2} {
			m := ms[j]
			r := w.store(1).Receive(alice, m.Wire, false)
			if !r.OK() || !bytes.Equal(r.Plain, m.Plain) {
				k.Failf("message with counter %d gives no plaintext and key: %v", m.Ctr, r)
				return
			}
			for _, f := range w.keepKey(m, r) {
				k.Failf("%s", f.Text)
				return
			}
			if live && j == 4 {
				w.P[1].Sync()
			}
			k.Trans(1)
		}
		for _, f := range w.reopen(c) {
			k.Failf("counters from %d: %s", at, f.Text)
			return
		}
		k.Trace(1)
		k.Eval1("ok")
	})
}

// g04Long: senders that have sent a lot when somebody joins.
func g04Long(c *Ctx) {
	total := c.Q(150, 700)
	c.Each("late-joins", 8, func(i int) string {
		return fmt.Sprintf("rotates %v json %v live %v", i/4 == 1, i%2 == 1, i/2%2 == 1)
	}, func(k *Case, i int) {
		cfg := grp(fmt.Sprint("late-joins-", i), i%2 == 1, 1, 0, 1, 0)
		cfg.Payload = secretPayload
		w := newGW(cfg, i/2%2 == 1)
		w.quick = true
		// other members ask at these iterations, some of them twice
		asks := map[int]int{1: 1, 2: 2, 15: 1, 16: 1, 17: 1, 31: 1, 32: 1, 33: 2, 40: 1, 63: 1, 64: 1, 65: 1, 66: 1, 99: 2, 100: 1, 101: 1, 127: 1, 128: 1, 129: 1, 149: 1}
		check := func(what string, bs ...[]byte) map[int]bool {
			toks := map[string]bool{}
			for _, b := range bs {
				tokens(b, toks)
			}
			var cts, pls [][]byte
			for j, m := range w.Msgs[0] {
				x, ok := parseSKM(m.Wire, w.Cfg.JSON)
				if !ok {
					k.Failf("message %d cannot be parsed", j)
					return nil
				}
				cts, pls = append(cts, x.CipherText), append(pls, m.Plain)
			}
			open := map[int]bool{}
			for _, t := range sorted(toks) {
				for _, j := range groupOpens(t, total+2, cts, pls) {
					open[j] = true
				}
			}
			k.Eval1(what)
			return open
		}
		if !w.gdo(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}) {
			return
		}
		for n := 0; n < total && !k.Failed(); n++ {
			if i/4 == 1 && n%70 == 69 && !w.gdo(k, GOp{'K', 0, 0, 0, 0}, GOp{'P', 1, 0, len(w.Dists[0]), 0}) {
				return
			}
			for j := 0; j < asks[n%150]; j++ {
				if !w.gdo(k, GOp{'C', 0, 0, 0, 0}) {
					return
				}
			}
			if !w.gdo(k, GOp{'S', 0, 0, 0, 0}) {
				return
			}
			if n%3 != 1 && !w.gdo(k, GOp{'D', 1, 0, n, 0}) || n%3 == 0 && n > 10 && !w.gdo(k, GOp{'D', 1, 0, n - 5, 0}) {
				return
			}
		}
		for d, x := range w.Dists[0] {
			md := w.M.Dists[0][d]
			open := check("distribution message", x.Wire)
			for j, m := range w.M.Msgs[0] {
				if may := m.Key == md.Key && m.Iter >= md.Iter; may != open[j] && !k.Failed() {
					k.Failf("distribution message %d (key %d, iteration %d) opens message %d (key %d, iteration %d): %v", d, md.Key, md.Iter, j, m.Key, m.Iter, open[j])
				}
			}
		}
		for b, p := range w.P {
			p.Sync()
			open := check("stored record", storedSK(p)...)
			for j, m := range w.M.Msgs[0] {
				may := false
				if b == 1 {
					for _, r := range w.M.Recv[[2]int{1, 0}] {
						may = may || r.Key == m.Key && m.Iter >= r.Next
						for _, s := range r.Skipped {
							may = may || r.Key == m.Key && s == m.Iter
						}
					}
				}
				if may != open[j] && !k.Failed() {
					k.Failf("what user %d has stored opens message %d (key %d, iteration %d): %v", b, j, m.Key, m.Iter, open[j])
				}
			}
		}
		k.Trace(1)
		k.Nontrivial(total)
	})
}

// gdo does operations; what is not as it should be is another property's subject,
// unless it panics or concerns secrets.
func (w *GW) gdo(k *Case, ops ...GOp) bool {
	for _, o := range ops {
		for _, f := range w.Do(o) {
			if f.Class == "secret" || f.Class == "fresh" || f.Class == "panic" {
				return k.Failf("%s: %s", f.Class, f.Text)
			}
			if f.Class != "iter" && f.Class != "key" {
				return false
			}
		}
		k.Trans(1)
	}
	return true
}

// g07Long: very many messages between the library and the reference implementation.
func g07Long(c *Ctx) {
	total := c.Q(500, 6000)
	c.Each("many-messages", 16, itoa, func(k *Case, i int) {
		js, sends, live := i%2 == 1, i/2%2 == 1, i/4%2 == 1
		cfg := grp(fmt.Sprint("many-", i), js, 1, 0, 1, 0)
		w := newGW(cfg, live)
		if sends { // the library sends
			r := w.store(0).GCreate(w.gname(0))
			d, ok := parseSKD(r.Wire, js)
			if !r.OK() || !ok {
				k.Failf("no distribution message: %v", r)
				return
			}
			ch := d.ChainKey
			for n := 0; n < total; n++ {
				pl := gPayload(i, n)
				r := w.store(0).GEncrypt(w.gname(0), append([]byte{}, pl...))
				got, ok := parseSKM(r.Wire, js)
				if !r.OK() || !ok || len(got.Signature) != 64 {
					k.Failf("message %d: %v", n, r)
					return
				}
				iv, ck := ref.GroupKeys(ch)
				x := jsonSKM{ID: d.ID, Iteration: d.Iteration + uint32(n), CipherText: ref.CBCEncrypt(ck, iv, pl), Version: 3, Signature: got.Signature}
				if !js {
					x.Version = '3'
				}
				if !sameSKM(&x, r.Wire, js) {
					k.Failf("message %d is %x, not %x", n, r.Wire, x.join(js))
					return
				}
				var sg [64]byte
				copy(sg[:], got.Signature)
				if !ref.Verify(ref.Unpub(d.SigningKey), got.signed(js), sg) {
					k.Failf("the signature of message %d does not verify", n)
					return
				}
				ch = ref.NextChain(ch)
				k.Trans(1)
				k.Eval(1)
			}
		} else {
			w.Cfg.RefSend = true
			w.refCreate(0, false)
			seed := sum([]byte(fmt.Sprint("many", i)))
			w.Refs[0].Chain = append([]byte{}, seed[:]...)
			w.Refs[0].Iter = uint32(i * 1000)
			if r := w.store(1).GProcess(w.gname(0), w.refCreate(0, false)); !r.OK() {
				k.Failf("a distribution message is not understood: %v", r)
				return
			}
			var late []byte
			for n := 0; n < total; n++ {
				pl := gPayload(0, n)
				wire := w.refEncrypt(0, pl)
				if n%9 == 4 {
					late = wire
					continue
				}
				if r := w.store(1).GDecrypt(w.gname(0), wire); !r.OK() || !bytes.Equal(r.Plain, pl) {
					k.Failf("message %d is not understood: %v", n, r)
					return
				}
				if n%9 == 7 {
					if r := w.store(1).GDecrypt(w.gname(0), late); !r.OK() || !bytes.Equal(r.Plain, gPayload(0, n-3)) {
						k.Failf("message %d is not understood late: %v", n-3, r)
						return
					}
				}
				k.Trans(1)
				k.Eval(1)
			}
		}
		k.Trace(1)
		k.Nontrivial(total)
	})
}
