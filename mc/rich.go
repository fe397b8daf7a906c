package main

import (
	"bytes"
	"fmt"
	"sort"
)

// Rich states: two users after a long or crowded history, with selected messages on
// their way. The searches from the beginning cannot come that far; here every check
// evaluates its property in such states and on several continuations of each.

type richCase struct {
	kind string
	n    int
	js   bool
}

func (x richCase) String() string { return fmt.Sprintf("%s %d json %v", x.kind, x.n, x.js) }

// heavy cases get fewer continuations in the quick tier.
func (x richCase) heavy(c *Ctx) bool {
	if c.Thorough {
		return false
	}
	switch x.kind {
	case "archived", "archived-both":
		return x.n > 12
	case "mixed":
		return true
	}
	return x.n > 1200
}

// some is n, or 1 for heavy cases.
func (x richCase) some(c *Ctx, n int) int {
	if x.heavy(c) {
		return 1
	}
	return c.Q(n, 6)
}

func richCases(c *Ctx, light bool) (out []richCase) {
	add := func(kind string, quick []int, more ...int) {
		if c.Thorough {
			quick = append(quick, more...)
		}
		for _, n := range quick {
			out = append(out, richCase{kind, n, false}, richCase{kind, n, true})
		}
	}
	if light {
		add("archived", []int{40, 12, 5}, 1, 2, 8, 20, 33, 39)
		add("mixed", []int{6}, 3, 12, 20)
		add("archived-both", []int{11}, 5, 24, 40)
		add("far", []int{60, 301}, 701, 1500)
		add("late", []int{60, 301}, 701)
	} else {
		add("archived", []int{40, 24, 12, 5}, 1, 2, 3, 8, 20, 33, 39, 41, 43)
		add("archived-both", []int{40, 11}, 5, 24)
		add("mixed", []int{6}, 3, 12, 20)
		add("far", []int{60, 301, 701, 1500, 4990}, 17, 128, 257, 999, 1001, 2001, 3000)
		add("late", []int{60, 301, 1100, 1990}, 17, 128, 257, 500, 999, 1001, 1500)
	}
	add("chains", []int{3, 5, 7}, 4, 6, 9, 14)
	add("chain-starts", []int{5, 8}, 3, 6, 12)
	add("turns", []int{60}, 150, 400)
	if light {
		add("high", []int{1, 4}, 0, 2, 3, 5, 6)
	} else {
		add("high", []int{0, 1, 2, 3, 4, 5, 6})
	}
	return
}

// highOffsets are what the counters of "high" states are moved by: chains too long to be
// made one message after the other.
var highOffsets = []uint32{250, 16380, 65531, 1<<24 - 3, 1<<31 - 3, 1 << 31, 1<<32 - 3000}

// richWorld builds the state, with durable stores. Messages that are not selected are
// dropped; those in Base are the material for bad inputs.
func richWorld(x richCase, cls map[string]bool) (w *SW, fs []Finding) {
	cfg := two(fmt.Sprint("rich-", x), x.js, nil, 0, 0)
	if x.n%2 == 1 {
		cfg = odd(cfg)
	}
	cfg.Pres = nil
	opk := func(j int) int64 {
		switch j % 4 {
		case 0, 1:
			return int64(j)
		case 2:
			return -1
		}
		return lastResort
	}
	var ab, ba []int64
	total := 3
	switch x.kind {
	case "archived", "mixed":
		total = x.n + 3
	case "archived-both":
		total = x.n/2 + 4
	}
	for j := 0; j < total; j++ {
		cfg.Pres = append(cfg.Pres, uint32(j))
		ab = append(ab, opk(j))
		ba = append(ba, opk(j))
	}
	cfg.Pres = append(cfg.Pres, lastResort)
	cfg.Plan = plans(plan(0, 1, ab...), plan(1, 0, ba...))
	cfg.Shape = cls["shape"]
	cfg.PreKeys = cls["prekey"]
	cfg.Header, cfg.OneByOne = true, true
	defer func() { cfg.OneByOne = false }()
	cfg.KeepKeys = cls["key"]
	w = newSW(cfg, x.kind != "high")
	w.quick = true
	next := func(a int) int { return w.M.NSent[[2]int{a, 1 - a}] }
	keep := map[[3]int]bool{}
	do := func(os ...SOp) bool {
		for _, o := range os {
			if fs = w.Do(o); len(fs) > 0 {
				return false
			}
		}
		return true
	}
	send := func(a int) bool { return do(SOp{'S', a, 1 - a, 0}) }
	del := func(a, i int) bool { return do(SOp{'D', a, 1 - a, i}) }
	want := func(a, i int) { keep[[3]int{a, 1 - a, i}] = true }
	est := func() bool { return do(established()...) }
	switch x.kind {
	case "far", "late":
		if !est() {
			return
		}
		b := next(0)
		for j := 0; j <= x.n+1; j++ {
			if !send(0) {
				return
			}
		}
		for _, j := range []int{0, 1, x.n / 2, x.n, x.n + 1} {
			want(0, b+j)
		}
		if x.kind == "late" && !del(0, b+x.n+1) {
			return
		}
		if x.n%2 == 0 { // the other direction has something, too
			if !send(1) || !send(1) || !del(1, next(1)-1) {
				return
			}
			want(1, next(1)-1)
			want(1, next(1)-2)
		}
	case "archived", "archived-both", "mixed":
		for j := 0; j <= x.n; j++ {
			a := 0
			if x.kind == "archived-both" {
				a = j % 2
			}
			b := next(a)
			if !do(SOp{'B', a, 1 - a, 0}) || !send(a) || !send(a) || !del(a, b) {
				return
			}
			pick := j == 0 || j == 1 || j == x.n/2 || j == x.n-1 || j == x.n
			if pick {
				want(a, b)
				want(a, b+1)
			}
			if j%3 == 0 {
				d := next(1 - a)
				if !send(1-a) || !del(1-a, d) || !send(a) || !send(1-a) {
					return
				}
				if pick {
					want(a, next(a)-1)
					want(1-a, d+1)
				}
			}
			if x.kind == "mixed" {
				for t := 0; t < 3; t++ {
					for s := 0; s < 2; s++ {
						f := next(s)
						for i := 0; i < 12; i++ {
							if !send(s) {
								return
							}
						}
						if !del(s, f+11) {
							return
						}
						if pick && t > 0 {
							want(s, f+5*t)
						}
					}
				}
			}
		}
	case "chains", "chain-starts":
		if !est() {
			return
		}
		for t := 0; t < x.n; t++ {
			for a := 0; a < 2; a++ {
				f := next(a)
				if !send(a) || !send(a) || !send(a) {
					return
				}
				at := f + 1
				if x.kind == "chain-starts" {
					at = f
				}
				if !del(a, at) {
					return
				}
				for i := f; i < f+3; i++ {
					want(a, i)
				}
			}
		}
	case "high":
		if !est() {
			return
		}
		for a := 1; a >= 0; a-- {
			// the chain of a that its peer knows is moved on, on both sides
			if !send(a) || !del(a, next(a)-1) {
				return
			}
			off := highOffsets[x.n]
			if !shiftChain(w.P[a], w.addr(1-a), w.Ser, -1, off) || !shiftChain(w.P[1-a], w.addr(a), w.Ser, len(w.M.rec(1-a, a).Cur.Recv)-1, off) {
				fs = []Finding{{"cannot be edited", ""}}
				return
			}
			w.digest(0)
			w.digest(1)
			w.M.edit(a, 1-a).Cur.Ctr += int(off)
			r := w.M.edit(1-a, a).Cur
			r.Recv[len(r.Recv)-1].Next += int(off)
			b := next(a)
			for j := 0; j < 9; j++ {
				if !send(a) {
					return
				}
				want(a, b+j)
			}
			if !del(a, b+5) || !del(a, b+2) {
				return
			}
		}
	case "turns":
		if !est() {
			return
		}
		for t := 0; t < x.n; t++ {
			for a := 0; a < 2; a++ {
				if !send(a) || t%9 == 5 && !send(a) || !del(a, next(a)-1) {
					return
				}
				if t > x.n-5 {
					want(a, next(a)-1)
					want(a, next(a)-2)
				}
			}
		}
		if !send(0) || !send(1) {
			return
		}
		want(0, next(0)-1)
		want(1, next(1)-1)
	}
	w.durable()
	// of every chain one message is kept, which the key schedule needs
	have := map[string]bool{}
	var all [][3]int
	for k, m := range w.Msgs {
		all = append(all, k)
		if keep[k] {
			have[fmt.Sprint(m.Sid, m.Rid)] = true
		}
	}
	sort.Slice(all, func(i, j int) bool { return lessKey(all[i], all[j]) })
	msgs := map[[3]int]*SMsg{}
	w.Base = keep
	for _, k := range all {
		m := w.Msgs[k]
		id := fmt.Sprint(m.Sid, m.Rid)
		if keep[k] || w.M.Deliv[k] && !have[id] && x.kind != "turns" {
			have[id] = true
			m.Obj = nil
			msgs[k] = m
		} else if x.kind == "turns" && !have[id] {
			have[id] = true
			m.Obj = nil
			msgs[k] = m
		} else {
			delete(w.M.Deliv, k)
		}
	}
	w.Msgs, w.ownMsgs, w.quick = msgs, false, false
	w.Hist = nil
	return
}

func lessKey(a, b [3]int) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// durable turns live stores into stores of bytes.
func (w *SW) durable() {
	for _, p := range w.P {
		p.Sync()
		for k, v := range p.Sess {
			if string(v) == "(none)" {
				delete(p.Sess, k)
			}
		}
		p.Live, p.LSess, p.LPre, p.LSPre, p.LSK, p.LStore = false, nil, nil, nil, nil, nil
	}
	w.Live = false
	for i := range w.P {
		w.digest(i)
	}
}

// rich evaluates f in every rich state. f gets its own copy.
func rich(c *Ctx, light bool, cls map[string]bool, f func(k *Case, x richCase, w *SW)) {
	var cs []richCase
	for _, x := range richCases(c, light) {
		if x.kind == "high" && (cls["secrecy"] || cls["heal"]) {
			continue // the keys of moved chains are not those the attacker would derive
		}
		cs = append(cs, x)
	}
	c.Each("rich", len(cs), func(i int) string { return cs[i].String() }, func(k *Case, i int) {
		w, fs := richWorld(cs[i], cls)
		for _, f := range fs {
			if cls[f.Class] || f.Class == "panic" {
				k.Failf("%s: %s", f.Class, f.Text)
			}
			return // another property's subject
		}
		k.State(1)
		k.Nontrivial(1)
		f(k, cs[i], w)
		k.Trace(1)
	})
}

// richRuns continues a rich state in several ways, with both kinds of stores; each is
// called after every operation.
func richRuns(c *Ctx, k *Case, x richCase, w *SW, cls map[string]bool, each, end func(w *SW) []Finding) {
	for kind := 0; kind < 6; kind++ {
		for s := 0; s < 2; s++ {
			if x.heavy(c) && (each != nil || end != nil) && (kind+3*s)%4 != 0 {
				continue
			}
			n := w.Fork(0, 1)
			if s == 0 {
				n = w.live()
				someCopies(n.P, kind)
			}
			fs := n.onward(k, kind, each)
			if len(fs) == 0 && end != nil {
				fs = end(n)
			}
			for _, f := range fs {
				if cls[f.Class] || f.Class == "panic" {
					k.Failf("continuation %d, stores %d: %s", kind, s, f.Text)
					return
				}
			}
		}
	}
}

// onward is one continuation of a rich state: 0 what is on its way arrives in order,
// 1 in reverse, 2 from both ends with talk in between, 3 after talk, 4 after a new
// session of the first user, 5 after new sessions of both. Then everything is presented
// again and both talk.
func (w *SW) onward(k *Case, kind int, each func(w *SW) []Finding) (fs []Finding) {
	do := func(o SOp) bool {
		fs = w.Do(o)
		if len(fs) == 0 && each != nil {
			fs = each(w)
		}
		k.Trans(1)
		k.Eval(1)
		return len(fs) == 0
	}
	talk := func(rounds, first int) bool {
		for r := 0; r < rounds; r++ {
			for x := 0; x < 2; x++ {
				a := (first + x) % 2
				if w.M.rec(a, 1-a).Cur == nil {
					continue
				}
				i := w.M.NSent[[2]int{a, 1 - a}]
				if !do(SOp{'S', a, 1 - a, 0}) || !do(SOp{'D', a, 1 - a, i}) {
					return false
				}
			}
		}
		return true
	}
	var pend, all []SOp
	var keys [][3]int
	for key := range w.Msgs {
		keys = append(keys, key)
	}
	sort.Slice(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
	for _, x := range keys {
		o := SOp{'D', x[0], x[1], x[2]}
		if !w.Base[x] {
			continue
		}
		if w.M.Deliv[x] {
			all = append(all, o)
		} else {
			if (x[2]+kind)%4 == 1 && !w.Cfg.KeepKeys {
				o.K = 'P'
			}
			pend = append(pend, o)
		}
	}
	all = append(all, pend...)
	run := func(os []SOp) bool {
		for _, o := range os {
			if !do(o) {
				return false
			}
		}
		return true
	}
	rev := func(os []SOp) (out []SOp) {
		for i := len(os) - 1; i >= 0; i-- {
			out = append(out, os[i])
		}
		return
	}
	bundle := func(a int) bool {
		q := [2]int{a, 1 - a}
		return w.M.NBundle[q] >= len(w.Cfg.Plan[q]) || do(SOp{'B', a, 1 - a, 0})
	}
	ok := true
	switch kind {
	case 0:
		ok = run(pend)
	case 1:
		ok = run(rev(pend))
	case 2:
		for i, j := 0, len(pend)-1; ok && i <= j; i, j = i+1, j-1 {
			if ok = do(pend[i]); ok && i < j {
				ok = do(pend[j]) && talk(1, i%2)
			}
		}
	case 3:
		ok = talk(2, 1) && run(rev(pend))
	case 4:
		ok = bundle(0) && talk(1, 0) && run(pend)
	case 5:
		ok = bundle(0) && bundle(1) && talk(1, 1) && run(rev(pend))
	}
	_ = ok && run(all) && talk(2, kind%2) && run(rev(all))
	return
}

// Each check's evaluation of the rich states.

func richPlain(c *Ctx, cls map[string]bool) {
	rich(c, false, cls, func(k *Case, x richCase, w *SW) { richRuns(c, k, x, w, cls, nil, nil) })
}

func richDup(c *Ctx) {
	cls := classes("dup")
	rich(c, false, cls, func(k *Case, x richCase, w *SW) {
		again := func(w *SW) []Finding { return w.redeliverAll() }
		richRuns(c, k, x, w, cls, nil, again)
	})
}

func richReject(c *Ctx) {
	cls := classes("reject", "lost", "send")
	rich(c, false, cls, func(k *Case, x richCase, w *SW) {
		for kind := 0; kind < x.some(c, 2); kind++ {
			l := w.live()
			someCopies(l.P, kind+x.n)
			var n int64
			all := func() (fs []Finding) {
				for b := range l.P {
					if fs = l.rejects(b, c.Thorough, &n); len(fs) > 0 {
						return
					}
				}
				return
			}
			fs := all()
			if len(fs) == 0 {
				fs = l.onward(k, (kind*3+x.n)%6, nil)
			}
			if len(fs) == 0 {
				fs = all()
			}
			k.Eval(int(n))
			for _, f := range fs {
				if cls[f.Class] || f.Class == "panic" {
					k.Failf("%s", f.Text)
				}
				return
			}
		}
	})
}

func richForge(c *Ctx, visit func(w *SW) []Finding) {
	cls := classes("over", "dup", "forged")
	rich(c, false, cls, func(k *Case, x richCase, w *SW) {
		for kind := 0; kind < x.some(c, 2); kind++ {
			n := w.Fork(0, 1)
			fs := visit(n)
			if kind > 0 || len(fs) == 0 {
				if fs = n.onward(k, (kind*3+x.n)%6, nil); len(fs) == 0 {
					fs = visit(n)
				}
			}
			for _, f := range fs {
				if cls[f.Class] || f.Class == "panic" {
					k.Failf("%s", f.Text)
				}
				return
			}
		}
	})
}

func richBundles(c *Ctx, all func(w *SW, inPlace bool, n *int) []Finding) {
	cls := classes("bundle", "badbundle", "lost", "send")
	rich(c, true, cls, func(k *Case, x richCase, w *SW) {
		for kind := 0; kind < x.some(c, 1); kind++ {
			l := w.live()
			n := 0
			fs := all(l, true, &n)
			if len(fs) == 0 {
				fs = l.onward(k, (kind+x.n)%6, nil)
			}
			k.Eval(n)
			for _, f := range fs {
				if cls[f.Class] || f.Class == "panic" {
					k.Failf("%s", f.Text)
				}
				return
			}
		}
	})
}

func richReload(c *Ctx) {
	cls := classes("reload")
	rich(c, false, cls, func(k *Case, x richCase, w *SW) {
		for kind := 0; kind < 6; kind++ {
			d, l := w.Fork(0, 1), w.live()
			var seen [2][]seenOp
			note := func(i int) func(w *SW) []Finding {
				return func(w *SW) []Finding {
					if w.Last != nil {
						seen[i] = append(seen[i], seenOp{w.Last.OK(), w.Last.Plain, w.Last.Wire, w.Last.Type})
					}
					return nil
				}
			}
			fs := l.reloadsEqual()
			f0, f1 := d.onward(k, kind, note(0)), l.onward(k, kind, note(1))
			if len(f0) > 0 && len(f1) == 0 {
				k.Failf("continuation %d, only with reloaded records: %s", kind, f0[0].Text)
				return
			}
			if len(fs) == 0 && len(f1) == 0 {
				fs = l.reloadsEqual()
			}
			if len(fs) > 0 {
				k.Failf("continuation %d: %s", kind, fs[0].Text)
				return
			}
			for i := range seen[0] {
				if i >= len(seen[1]) || !seen[0][i].eq(seen[1][i]) {
					k.Failf("continuation %d, operation %d: %v with reloaded records, otherwise with records in memory", kind, i, seen[0][i])
					return
				}
			}
			for p := range d.P {
				if a, b := d.P[p].Image(), l.P[p].Image(); len(f0) == 0 && len(f1) == 0 && !bytes.Equal(a, b) {
					k.Failf("continuation %d: user %d ends with other stored bytes: %s", kind, p, diffImage(a, b))
					return
				}
			}
		}
	})
}

func richCrash(c *Ctx) {
	cls := classes("crash")
	rich(c, true, cls, func(k *Case, x richCase, w *SW) {
		w.Cfg.MaxSend = map[[2]int]int{{0, 1}: w.M.NSent[[2]int{0, 1}] + 1, {1, 0}: w.M.NSent[[2]int{1, 0}] + 1}
		for _, f := range w.crashes(c, false, x.some(c, 3)) {
			if cls[f.Class] {
				k.Failf("%s", f.Text)
				return
			}
		}
	})
}

func richSecrecy(c *Ctx) {
	cls := classes("secrecy")
	rich(c, true, cls, func(k *Case, x richCase, w *SW) {
		both := func(w *SW) (fs []Finding) {
			for u := range w.P {
				fs = append(fs, w.forward(c, u)...)
			}
			return
		}
		for _, f := range both(w) {
			if cls[f.Class] {
				k.Failf("%s", f.Text)
			}
			return
		}
		richRuns(c, k, x, w, cls, both, nil)
	})
}

func richHeal(c *Ctx) {
	cls := classes("heal", "hdr")
	rich(c, true, cls, func(k *Case, x richCase, w *SW) {
		w.snapshot(0)
		w.snapshot(1)
		richRuns(c, k, x, w, cls, func(w *SW) []Finding { return w.thieves(w.LastOp) }, func(w *SW) []Finding { return w.postCompromise(c) })
	})
}

func richKeys(c *Ctx) {
	cls := classes("key")
	rich(c, true, cls, func(k *Case, x richCase, w *SW) {
		w.Keys = nil
		richRuns(c, k, x, w, cls, nil, func(w *SW) []Finding { return w.reopen(c) })
	})
}
