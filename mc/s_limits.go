package main

import (
	"fmt"
)

// S15: limits on skipping, chains and archived sessions are exact.

func init() { register("S15", "model_checking", checkS15) }

// limitsBase is a live world with an established session in which alice's current
// chain (new to bob) is about to start.
func limitsBase(name string, js bool) *SessCfg {
	cfg := two(name, js, plan(0, 1, 1), 0, 0)
	cfg.Setup = established()
	return cfg
}

// seqDo runs operations; the first disagreement fails the case.
func (w *SW) seqDo(k *Case, what string, ops ...SOp) bool {
	for _, o := range ops {
		for _, f := range w.Do(o) {
			if f.Class == "lost" || f.Class == "over" || f.Class == "dup" || f.Class == "crash" || f.Class == "send" || f.Class == "bundle" || f.Class == "shape" {
				return k.Failf("%s: %s: %s", what, f.Class, f.Text)
			}
		}
		k.Trans(1)
	}
	return true
}

func checkS15(c *Ctx) {
	c.Rule("Jumps of every boundary size (single, and all pairs within a chain, also in a chain that is new) are executed with real messages and stores, and afterwards every skipped message is delivered, each result being compared with the symbolic model's exact limits; chains and archived sessions are grown one by one beyond their limits, and in every state of that growth every undelivered message of every chain and session is tried. Near the limit of counters the chain is moved by editing the stored index of both users alike.")
	c.Assume("skips of more than 5001 messages behave like 5001 up to the end of the counter range, except for those listed")
	c.Par(func() { s15Jumps(c) }, func() { s15Chains(c) }, func() { s15Archive(c) }, func() { s15Counters(c) })
}

// s15Jumps: one or two jumps in a chain.
func s15Jumps(c *Ctx) {
	single := []int{0, 1, 2, 1999, 2000, 2001, 2002, 3000, 3999, 4000, 4001, 4999, 5000, 5001, 5002, 6500}
	type cse struct {
		fresh  bool // the chain is new to the receiver
		js     bool
		g1, g2 int // g2 < 0: only one jump
		down   bool
	}
	var cs []cse
	for _, g := range single {
		for _, fresh := range []bool{false, true} {
			cs = append(cs, cse{fresh, false, g, -1, g%2 == 0})
		}
	}
	cs = append(cs, cse{false, true, 5000, -1, false}, cse{true, true, 5001, -1, false}, cse{true, true, 2001, -1, true})
	pairs := []int{1, 1000, 1999, 2001}
	if c.Thorough {
		pairs = []int{1, 2, 999, 1000, 1001, 1998, 1999, 2000, 2001, 2002, 4999, 5000, 5001}
	}
	for i, g1 := range pairs {
		for j, g2 := range pairs {
			cs = append(cs, cse{(i+j)%2 == 0, false, g1, g2, (i+j)%3 == 0})
		}
	}
	bases, ok := Setup(c, "jumps", classes("lost", "send", "bundle"), func() []*SW {
		return []*SW{newSW(limitsBase("jumps-base", false), false), newSW(limitsBase("jumps-base-json", true), false)}
	})
	if !ok {
		return
	}
	c.Each("jumps", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		var w *SW
		if x.js {
			w = bases[1].live()
		} else {
			w = bases[0].live()
		}
		w.quick = true
		b := w.M.NSent[[2]int{0, 1}]
		what := fmt.Sprintf("jumps %d, %d", x.g1, x.g2)
		total := 0
		if !x.fresh {
			if !w.seqDo(k, what, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, b}) {
				return
			}
			b++
		}
		jump := func(g int) bool {
			for j := 0; j <= g; j++ {
				if !w.seqDo(k, what, SOp{'S', 0, 1, 0}) {
					return false
				}
			}
			total += g + 1
			before := [32]byte{}
			tooFar := g > maxFuture
			if tooFar {
				before = sum(w.P[1].Image())
			}
			if !w.seqDo(k, what, SOp{'D', 0, 1, b + total - 1}) {
				return false
			}
			if tooFar && sum(w.P[1].Image()) != before {
				return k.Failf("%s: the rejected message changed the stored state", what)
			}
			return true
		}
		if !jump(x.g1) {
			return
		}
		if x.g2 >= 0 && !jump(x.g2) {
			return
		}
		// stored and loaded again
		w.Do(SOp{'R', 1, 0, 0})
		// every message of the chain
		for j := 0; j < total; j++ {
			i := j
			if x.down {
				i = total - 1 - j
			}
			if x.g1 > maxFuture && i > 3 && i != maxFuture && i < total-3 {
				continue // in order nothing is far ahead
			}
			if !w.seqDo(k, what+", then all", SOp{'D', 0, 1, b + i}) {
				return
			}
		}
		// and the conversation goes on
		n := w.M.NSent[[2]int{0, 1}]
		m := w.M.NSent[[2]int{1, 0}]
		if !w.seqDo(k, what+", then on", SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, n}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, m}) {
			return
		}
		k.State(total)
		k.Trace(1)
	})
}

// s15Chains: chains grow; in each state every late message is tried.
func s15Chains(c *Ctx) {
	type cse struct {
		js, live bool
		per      int // messages per chain
		n        int // chains
		late     int // which of them is delivered first
		reload   bool
	}
	var cs []cse
	for _, js := range []bool{false, true} {
		for _, live := range []bool{false, true} {
			for n := 1; n <= c.Q(9, 16); n++ {
				for late := 0; late < 2; late++ {
					cs = append(cs, cse{js, live, 3, n, late, n%2 == 0})
				}
			}
		}
	}
	c.Each("chains", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		cfg := two("chains", x.js, plan(0, 1, 1), 0, 0)
		w := newSW(cfg, x.live)
		what := fmt.Sprintf("%d chains", x.n)
		if !w.seqDo(k, what, SOp{'B', 0, 1, 0}) {
			return
		}
		sent := 0
		back := 0
		for ch := 0; ch < x.n; ch++ {
			for j := 0; j < x.per; j++ {
				if !w.seqDo(k, what, SOp{'S', 0, 1, 0}) {
					return
				}
			}
			d := sent + x.per - 1 // the last, or the middle one
			if x.late == 1 {
				d = sent + 1
			}
			sent += x.per
			if !w.seqDo(k, what, SOp{'D', 0, 1, d}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, back + 1}) {
				return
			}
			back += 2
			if x.reload {
				w.Do(SOp{'R', 1, 0, 0})
				w.Do(SOp{'R', 0, 0, 0})
			}
		}
		// all late messages, oldest first or newest first
		for j := 0; j < sent; j++ {
			i := j
			if x.late == 1 {
				i = sent - 1 - j
			}
			if !w.seqDo(k, what+", then all", SOp{'D', 0, 1, i}) {
				return
			}
		}
		for j := 0; j < back; j++ {
			if !w.seqDo(k, what+", then all", SOp{'D', 1, 0, j}) {
				return
			}
		}
		if !w.seqDo(k, what+", then on", SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, sent}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, back}) {
			return
		}
		k.State(1)
		k.Trace(1)
	})
	// every way of leaving messages behind in each of the last chains
	const left = 3
	n, cnt := c.Q(7, 8), 1
	for i := 0; i < n; i++ {
		cnt *= left
	}
	c.Each("chain-patterns", cnt, func(i int) string { return fmt.Sprintf("pattern %d", i) }, func(k *Case, i int) {
		w := newSW(two("chain-patterns", i%5 == 0, plan(0, 1, 1), 0, 0), i%2 == 0)
		what := "chains that leave"
		if !w.seqDo(k, what, SOp{'B', 0, 1, 0}) {
			return
		}
		sent := 0
		for ch, p := 0, i; ch < n; ch, p = ch+1, p/left {
			// of three messages, the first, the first two, or the last one arrive at once
			what = fmt.Sprintf("%s %d", what, p%left)
			ops := []SOp{{'S', 0, 1, 0}, {'S', 0, 1, 0}, {'S', 0, 1, 0}}
			switch p % left {
			case 0:
				ops = append(ops, SOp{'D', 0, 1, sent})
			case 1:
				ops = append(ops, SOp{'D', 0, 1, sent + 1}, SOp{'D', 0, 1, sent})
			case 2:
				ops = append(ops, SOp{'D', 0, 1, sent + 2})
			}
			sent += 3
			ops = append(ops, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, ch})
			if !w.seqDo(k, what, ops...) {
				return
			}
		}
		for j := 0; j < sent; j++ {
			x := j
			if i%3 == 1 {
				x = sent - 1 - j
			}
			if w.M.Deliv[[3]int{0, 1, x}] {
				continue
			}
			if !w.seqDo(k, what+", then all", SOp{'D', 0, 1, x}) {
				return
			}
		}
		k.State(n)
		k.Trace(1)
	})
	// each chain keeps its own 2000
	c.Each("chains-full", 2, func(i int) string { return fmt.Sprint("json ", i == 1) }, func(k *Case, i int) {
		w := newSW(two("chains-full", i == 1, plan(0, 1, 1), 0, 0), true)
		w.quick = true
		if !w.seqDo(k, "full chains", SOp{'B', 0, 1, 0}) {
			return
		}
		sent := 0
		for ch := 0; ch < 3; ch++ {
			for j := 0; j <= 2003; j++ {
				if !w.seqDo(k, "full chains", SOp{'S', 0, 1, 0}) {
					return
				}
			}
			sent += 2004
			if !w.seqDo(k, "full chains", SOp{'D', 0, 1, sent - 1}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, ch}) {
				return
			}
		}
		for j := 0; j < sent; j++ {
			if !w.seqDo(k, "full chains, then all", SOp{'D', 0, 1, j}) {
				return
			}
		}
		k.Trace(1)
	})
}

// s15Archive: sessions are replaced again and again.
func s15Archive(c *Ctx) {
	ns := []int{1, 2, 39, 40, 41, 42, 45}
	if c.Thorough {
		ns = []int{1, 2, 3, 5, 10, 20, 38, 39, 40, 41, 42, 43, 45, 60, 85}
	}
	const kinds = 4
	type cse struct {
		n, kind int
		js      bool
		order   string // of the late messages
	}
	var cs []cse
	for _, n := range ns {
		for kind := 0; kind < kinds; kind++ {
			for o, order := range []string{"oldest first", "latest first", "second oldest first", "middle first"} {
				if c.Thorough || o == (kind+1)%2 || n > 39 && n < 43 && o > 0 {
					cs = append(cs, cse{n, kind, false, order}, cse{n, kind, true, order})
				}
			}
		}
	}
	c.Each("archive", len(cs), func(i int) string {
		return fmt.Sprintf("%d sessions, kind %d, json %v, %s", cs[i].n, cs[i].kind, cs[i].js, cs[i].order)
	}, func(k *Case, i int) {
		n, kind, js := cs[i].n, cs[i].kind, cs[i].js
		var pl []int64
		for j := 0; j <= n; j++ {
			pl = append(pl, -1)
		}
		cfg := two("archive", js, plans(plan(0, 1, pl...), plan(1, 0, pl...)), 0, 0)
		cfg.Shape = true
		w := newSW(cfg, kind%2 == 1)
		what := fmt.Sprintf("%d sessions", n)
		sent := 0
		for s := 0; s < n; s++ {
			// kinds 0, 1: alice sets up and her first message arrives; 2, 3: she sets up and answers arrive on the way
			if !w.seqDo(k, what, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, sent}) {
				return
			}
			sent += 2
			if kind >= 2 {
				b := w.M.NSent[[2]int{1, 0}]
				if !w.seqDo(k, what, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, b + 1}) {
					return
				}
			}
			k.State(1)
		}
		if kind == 1 {
			w.Do(SOp{'R', 0, 0, 0})
			w.Do(SOp{'R', 1, 0, 0})
		}
		// late messages of every session that is kept. A message of a forgotten session may
		// set it up again (it names no one-time prekey); as ordinary messages they are rejected.
		order := make([]int, 0, n)
		for s := 0; s < n; s++ {
			switch cs[i].order {
			case "latest first":
				order = append(order, n-1-s)
			case "middle first":
				order = append(order, (n/2+s)%n)
			default:
				order = append(order, s)
			}
		}
		if cs[i].order == "second oldest first" {
			// the archive has 40 places: the oldest kept ones go last
			for s := range order {
				order[s] = s
			}
			if f := n - 41; f >= 0 && n > f+1 {
				order[f], order[f+1] = order[f+1], order[f]
			} else if n > 1 {
				order[0], order[1] = order[1], order[0]
			}
		}
		for _, s := range order {
			x := 2*s + 1
			m := w.Msgs[[3]int{0, 1, x}]
			kept := w.M.rec(1, 0).find(m.Sid) >= 0
			op := byte('D')
			if m.Type == 3 && !kept {
				op = 'I'
			} else if m.Type == 3 && s%2 == 0 {
				op = 'I'
			}
			if !w.seqDo(k, what+", then late", SOp{op, 0, 1, x}) {
				return
			}
		}
		if kind >= 2 { // bob's late answers
			for s := 0; s < n; s++ {
				if !w.seqDo(k, what+", then late answers", SOp{'D', 1, 0, 2 * s}) {
					return
				}
			}
		}
		if !w.seqDo(k, what+", then on", SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, sent}) {
			return
		}
		k.Trace(1)
	})
	// growth through processing bundles only
	c.Each("archive-bundles", 2, func(i int) string { return fmt.Sprint("live ", i == 1) }, func(k *Case, i int) {
		var pl []int64
		for j := 0; j < 90; j++ {
			pl = append(pl, -1)
		}
		cfg := two("archive-bundles", false, plan(0, 1, pl...), 0, 0)
		cfg.Shape = true
		w := newSW(cfg, i == 1)
		var size int
		for j := 0; j < 90; j++ {
			if !w.seqDo(k, "bundles", SOp{'B', 0, 1, 0}) {
				return
			}
			if j == 42 || j == 89 {
				w.P[0].Sync()
				l := len(w.P[0].Sess[bob])
				if j == 42 {
					size = l
				} else if l > size+200 {
					k.Failf("the stored session grows: %d bytes after 43 bundles, %d after 90", size, l)
					return
				}
			}
		}
		k.Trace(1)
	})
}

// s15Counters: limits at the end of the counter range.
func s15Counters(c *Ctx) {
	bases, ok := Setup(c, "counters", classes("lost", "send", "bundle"), func() []*SW {
		return []*SW{newSW(limitsBase("counter-limits", false), false), newSW(limitsBase("counter-limits-json", true), false)}
	})
	if !ok {
		return
	}
	// The receiver expects `at`; messages with these counters are sent.
	ats := []uint32{0, 1, 5000, 1<<31 - 2500, 1<<31 - 1, 1 << 31, 1<<32 - 5002, 1<<32 - 5001, 1<<32 - 5000, 1<<32 - 2}
	c.Each("counter-limits", len(ats)*2, func(i int) string { return fmt.Sprint(ats[i/2], " json ", i%2 == 1) }, func(k *Case, i int) {
		at := ats[i/2]
		base := bases[i%2].Fork(0, 1)
		for _, o := range []SOp{{'S', 0, 1, 0}, {'D', 0, 1, 1}} {
			if fs := base.Do(o); len(fs) > 0 {
				return
			}
		}
		ser := base.Ser
		// both chains have index 1 now; move bob to at
		rc := len(base.M.rec(1, 0).Cur.Recv) - 1
		if !shiftChain(base.P[1], alice, ser, rc, at-1) {
			k.Eval1("stored form cannot be edited")
			return
		}
		for _, gap := range []uint32{0, 1, 4999, 5000, 5001, 5002} {
			if gap > 1<<32-1-at {
				continue
			}
			// alice's chain key is gap steps further, with the index moved likewise
			h := base.Fork(0, 1)
			h.P[0].ToLive(ser)
			for j := uint32(0); j < gap; j++ {
				h.store(0).Encrypt(bob, []byte("x"))
			}
			h.P[0].Sync()
			h.P[0] = &Party{A: h.P[0].A, IK: h.P[0].IK, Reg: h.P[0].Reg, Rng: h.P[0].Rng, Sess: h.P[0].Sess, Pre: h.P[0].Pre, SPre: h.P[0].SPre, Ids: h.P[0].Ids, SK: h.P[0].SK}
			if !shiftChain(h.P[0], bob, ser, -1, at-1) {
				return
			}
			r := h.store(0).Encrypt(bob, []byte("edge"))
			if !r.OK() {
				continue
			}
			img := sum(h.P[1].Image())
			d := h.store(1).Receive(alice, r.Wire, false)
			k.Eval(1)
			k.Trans(1)
			if gap <= maxFuture && (!d.OK() || string(d.Plain) != "edge") {
				k.Failf("expecting %d, message %d (%d ahead) is not accepted: %v", at, at+gap, gap, d)
				return
			}
			if gap > maxFuture && d.OK() {
				k.Failf("expecting %d, message %d (%d ahead) is accepted", at, at+gap, gap)
				return
			}
			if !d.OK() && sum(h.P[1].Image()) != img {
				k.Failf("expecting %d, rejecting message %d changes the stored state", at, at+gap)
				return
			}
		}
		k.Trace(1)
	})
}
