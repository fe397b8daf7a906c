package main

import (
	"bytes"
	"fmt"
)

// Rich states of a group: long, crowded and mixed histories, in which the group checks
// look at some chosen messages.

type gRichCase struct {
	kind string
	n    int
	js   bool
	ref  bool // the sender is the reference implementation
}

func (x gRichCase) String() string {
	return fmt.Sprintf("%s %d json %v reference %v", x.kind, x.n, x.js, x.ref)
}

func gRichCases(c *Ctx, light bool) (out []gRichCase) {
	add := func(kind string, quick []int, more ...int) {
		if c.Thorough {
			quick = append(quick, more...)
		}
		for _, n := range quick {
			out = append(out, gRichCase{kind, n, false, false}, gRichCase{kind, n, true, false})
		}
	}
	if light {
		add("late", []int{51, 300}, 1000, 1999)
		add("far", []int{60, 1000}, 300, 2000)
		add("in-order", []int{130}, 1030, 2100)
		add("holes", []int{60}, 300, 2000)
		add("high", []int{1, 4}, 0, 2, 3, 5)
	} else {
		add("late", []int{51, 300, 1000, 1999}, 10, 100, 128, 500, 1500, 1998)
		add("far", []int{60, 300, 1000, 2000}, 10, 100, 500, 1500, 1999)
		add("in-order", []int{130, 1030, 2100}, 300, 4200)
		add("holes", []int{60, 300, 2000}, 1000, 4000)
		add("high", []int{0, 1, 2, 3, 4, 5})
	}
	add("keys", []int{6, 20, 70}, 3, 5, 7, 40, 300)
	add("keys-reversed", []int{6, 20}, 3, 5, 40, 70, 300)
	add("asked", []int{20, 130}, 5, 300)
	add("joins-late", []int{1, 60, 1000}, 300, 5000)
	add("late-and-keys", []int{64}, 10, 300)
	return
}

// highIterations are where the chains of "high" states begin.
var highIterations = []uint32{16380, 65531, 1<<24 - 3, 1<<31 - 3, 1 << 31, 1<<32 - 3000}

// gRichWorld builds the state with durable stores: alice (0) sends, bob (1) is where the
// history makes him, carol (2) has heard nothing. focus are the messages looked at.
func gRichWorld(x gRichCase, cls map[string]bool) (w *GW, fs []Finding) {
	cfg := grp("rich "+x.String(), x.js, 2, 0, 1, 0)
	cfg.RefSend = x.ref
	cfg.Payload = secretPayload
	w = newGW(cfg, true)
	w.quick = true
	do := func(ops ...GOp) {
		for _, o := range ops {
			if len(fs) == 0 {
				fs = soft(w.Do(o), cls)
			}
		}
	}
	focus := map[int]bool{}
	add := func(l ...int) {
		for _, i := range l {
			if i >= 0 && i < len(w.Msgs[0]) {
				focus[i] = true
			}
		}
	}
	send := func(n int) {
		for ; n > 0; n-- {
			do(GOp{'S', 0, 0, 0, 0})
		}
	}
	dec := func(l ...int) {
		for _, i := range l {
			do(GOp{'D', 1, 0, i, 0})
		}
	}
	do(GOp{'C', 0, 0, 0, 0})
	n := x.n
	switch x.kind {
	case "late": // the n-th came first
		do(GOp{'P', 1, 0, 0, 0})
		send(n + 3)
		dec(n)
		add(0, 1, n/2, n-1, n, n+1, n+2)
	case "far": // nothing came yet
		do(GOp{'P', 1, 0, 0, 0})
		send(n + 2)
		add(0, n/2, n-1, n, n+1)
	case "in-order":
		do(GOp{'P', 1, 0, 0, 0})
		for i := 0; i < n; i++ {
			send(1)
			dec(i, i)
		}
		send(3)
		add(0, 1, n/2, n-1, n, n+2)
	case "holes": // every other one came
		do(GOp{'P', 1, 0, 0, 0})
		send(n + 2)
		for i := 1; i < n; i += 2 {
			dec(i, i)
		}
		add(0, 1, n/2, n/2+1, n-2, n-1, n, n+1)
	case "keys", "keys-reversed": // n keys, of each the second of three messages came
		for i := 1; i < n; i++ {
			send(3)
			do(GOp{'K', 0, 0, 0, 0})
		}
		send(3)
		for i := 0; i < n; i++ {
			j := i
			if x.kind == "keys-reversed" {
				j = n - 1 - i
			}
			do(GOp{'P', 1, 0, j, 0})
			dec(3*j + 1)
		}
		for _, j := range []int{0, 1, 4, 5, n / 2, n - 2, n - 1} {
			add(3*j, 3*j+1, 3*j+2)
		}
	case "asked": // the distribution message was asked for again and again, and arrived
		do(GOp{'P', 1, 0, 0, 0})
		for i := 0; i < n; i++ {
			send(2)
			do(GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, i + 1, 0})
			if i%2 == 0 {
				dec(2*i + 1)
			}
		}
		send(2)
		add(0, 1, n/2*2, n/2*2+1, 2*n-2, 2*n-1, 2*n, 2*n+1)
	case "high": // the sender's chain is moved on before anybody hears of it
		for i := range w.P {
			w.P[i].Sync()
		}
		off := highIterations[n]
		if !shiftGroup(w.P[0], w.gname(0), w.Ser, off) {
			fs = []Finding{{"cannot be edited", ""}}
			return
		}
		w.P[0].ToLive(w.Ser)
		w.M.Iter[0] = int(off)
		for _, x := range w.Keys { // so far only that of iteration 0
			x.Chain = map[int]string{}
		}
		do(GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 1, 0})
		send(9)
		dec(5, 2)
		add(0, 1, 2, 3, 5, 6, 8)
	case "joins-late":
		send(n)
		do(GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 1, 0})
		send(60)
		dec(n+5, n+2)
		add(0, n-1, n, n+2, n+4, n+5, n+6, n+59)
	case "late-and-keys": // n late ones of each of six keys
		for i := 0; i < 6; i++ {
			if i > 0 {
				do(GOp{'K', 0, 0, 0, 0})
			}
			do(GOp{'P', 1, 0, i, 0})
			send(n + 1)
			dec(i*(n+1) + n)
			add(i*(n+1), i*(n+1)+n/2, i*(n+1)+n)
		}
	}
	if len(fs) > 0 {
		return
	}
	cfg.MaxSend, cfg.MaxDist = []int{1 << 30}, []int{1 << 30}
	w.Focus, w.FocusN = map[[2]int]bool{}, len(w.Msgs[0])
	for i := range focus {
		w.Focus[[2]int{0, i}] = true
	}
	for _, p := range w.P {
		p.Sync()
		p.Live, p.LSess, p.LPre, p.LSPre, p.LSK, p.LStore = false, nil, nil, nil, nil, nil
	}
	w.Live, w.Objs, w.Hist = false, map[[3]int]interface{}{}, nil
	for i := range w.P {
		w.digest(i)
	}
	return
}

// in: is a message looked at?
func (w *GW) in(n, i int) bool { return w.Focus == nil || w.Focus[[2]int{n, i}] || i >= w.FocusN }

func (w *GW) focus() (out []int) {
	for i := range w.Msgs[0] {
		if w.in(0, i) {
			out = append(out, i)
		}
	}
	return
}

// run executes operations; ok is false when a finding cuts the run.
func (w *GW) run(k *Case, cls map[string]bool, ops ...GOp) bool {
	for _, o := range ops {
		k.Trans(1)
		for _, f := range soft(w.Do(o), cls) {
			if cls[f.Class] || f.Class == "panic" {
				k.Failf("%s: %s", f.Class, f.Text)
			}
			return false
		}
	}
	return true
}

// gRich evaluates f in every rich state; f gets a world of its own.
func gRich(c *Ctx, light, refs bool, cls map[string]bool, f func(k *Case, x gRichCase, w *GW)) {
	cs := gRichCases(c, light)
	all := cs
	cs = nil
	for _, x := range all {
		if x.kind != "high" || !cls["secret"] { // a moved chain's earlier keys are the later ones
			cs = append(cs, x)
		}
	}
	if refs {
		all = cs
		cs = nil
		for _, x := range all {
			if x.kind == "high" { // the iterations of the reference are its own
				continue
			}
			y := x
			y.ref = true
			cs = append(cs, x, y)
		}
	}
	c.Each("rich", len(cs), func(i int) string { return cs[i].String() }, func(k *Case, i int) {
		w, fs := gRichWorld(cs[i], cls)
		for _, f := range fs {
			if cls[f.Class] || f.Class == "panic" {
				k.Failf("%s: %s", f.Class, f.Text)
			}
			return
		}
		k.State(1)
		k.Nontrivial(1)
		f(k, cs[i], w)
		k.Trace(1)
	})
}

// copies of a rich state to go on with: durable and live.
func (w *GW) both(f func(w *GW)) {
	f(w.forkAll())
	n := w.live()
	n.quick = true
	someCopies(n.P, 1)
	f(n)
}

// orders in which the chosen messages may arrive.
func (w *GW) orders() [][]int {
	l := w.focus()
	var rev, mix []int
	for i := range l {
		rev = append(rev, l[len(l)-1-i])
	}
	for i := range l {
		if i%2 == 0 {
			mix = append(mix, l[len(l)/2+i/2])
		} else {
			mix = append(mix, l[len(l)/2-1-i/2])
		}
	}
	return [][]int{l, rev, mix}
}

// onward: the chosen messages arrive in some order, between them the history goes on.
func (w *GW) onward(k *Case, cls map[string]bool, kind int, each func() bool) bool {
	ok := func(ops ...GOp) bool {
		for _, o := range ops {
			if !w.run(k, cls, o) || each != nil && !each() {
				return false
			}
		}
		return true
	}
	for j, i := range w.orders()[kind%3] {
		if !ok(GOp{'D', 1, 0, i, 0}, GOp{'D', 1, 0, i, 0}) {
			return false
		}
		switch (j + kind) % 4 {
		case 0:
			if !ok(GOp{'S', 0, 0, 0, 0}, GOp{'D', 1, 0, len(w.Msgs[0]), 0}) {
				return false
			}
		case 1:
			if !ok(GOp{'R', 1, 0, 0, 0}) {
				return false
			}
		case 2:
			d := len(w.Dists[0])
			if !ok(GOp{'C', 0, 0, 0, 0}, GOp{'P', 2, 0, d, 0}, GOp{'P', 1, 0, d, 0}, GOp{'D', 2, 0, i, 0}) {
				return false
			}
		}
	}
	d, m := len(w.Dists[0]), len(w.Msgs[0])
	if !ok(GOp{'K', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'D', 1, 0, m, 0}, GOp{'P', 1, 0, d, 0}, GOp{'P', 2, 0, d, 0}, GOp{'D', 1, 0, m + 1, 0},
		GOp{'D', 2, 0, m, 0}, GOp{'D', 1, 0, m, 0}, GOp{'R', 1, 0, 0, 0}) {
		return false
	}
	for _, i := range w.focus() {
		if !ok(GOp{'D', 1, 0, i, 0}, GOp{'D', 2, 0, i, 0}) {
			return false
		}
	}
	return true
}

// gRichPlain: the model decides about everything that happens from rich states on.
func gRichPlain(c *Ctx, refs bool, cls map[string]bool) {
	gRich(c, false, refs, cls, func(k *Case, x gRichCase, w *GW) {
		for kind := 0; kind < 3 && !k.Failed(); kind++ {
			w.both(func(w *GW) {
				w.onward(k, cls, kind, nil)
				if refs && !k.Failed() {
					for _, f := range w.specified() {
						k.Failf("%s: %s", f.Class, f.Text)
						break
					}
				}
			})
		}
	})
}

func gRichDup(c *Ctx) {
	cls := classes("dup")
	gRich(c, false, false, cls, func(k *Case, x gRichCase, w *GW) {
		for kind := 0; kind < 3 && !k.Failed(); kind++ {
			w.both(func(w *GW) {
				if !w.onward(k, cls, kind, nil) || w.Live {
					return
				}
				k.Eval(len(w.focus()))
				for _, f := range w.againAll() {
					if f.Class == "dup" {
						k.Failf("%s", f.Text)
						return
					}
				}
			})
		}
	})
}

// gRichForge: forgeries of the chosen messages. Afterwards the genuine ones arrive.
func gRichForge(c *Ctx) {
	cls := classes("over", "reject", "crash")
	gRich(c, false, false, cls, func(k *Case, x gRichCase, w *GW) {
		w.both(func(w *GW) {
			if k.Failed() {
				return
			}
			for round := 0; round < 2; round++ {
				for _, f := range w.refusals(&c.Evals) {
					k.Failf("%s: %s", f.Class, f.Text)
					return
				}
				if round == 1 || x.n >= 1000 && !c.Thorough {
					return
				}
				for _, i := range w.focus() {
					if i%2 == 0 && !w.run(k, cls, GOp{'D', 1, 0, i, 0}) {
						return
					}
				}
			}
		})
	})
}

// gRichSecrecy: what the stored records of the users open.
func gRichSecrecy(c *Ctx) {
	cls := classes("secret", "fresh")
	gRich(c, true, false, cls, func(k *Case, x gRichCase, w *GW) {
		look := func(w *GW) bool {
			l := w.focus()
			var cts, pls [][]byte
			for _, i := range l {
				y, ok := parseSKM(w.Msgs[0][i].Wire, x.js)
				if !ok {
					return false
				}
				cts, pls = append(cts, y.CipherText), append(pls, w.Msgs[0][i].Plain)
			}
			for b, p := range w.P {
				p.Sync()
				toks := map[string]bool{}
				for _, s := range storedSK(p) {
					tokens(s, toks)
				}
				for _, t := range sorted(toks) {
					for _, o := range groupOpens(t, 4, cts, pls) {
						i := l[o]
						m := w.M.Msgs[0][i]
						may := false
						for _, s := range w.M.Recv[[2]int{b, 0}] {
							may = may || s.Key == m.Key && m.Iter >= s.Next
							for _, sk := range s.Skipped {
								may = may || s.Key == m.Key && sk == m.Iter
							}
						}
						switch {
						case b == 0:
							return k.Failf("the sender's stored record opens message %d, which it has encrypted", i)
						case w.M.Deliv[[3]int{b, 0, i}]:
							return k.Failf("user %d's stored record opens message %d, which it has decrypted", b, i)
						case !may:
							return k.Failf("user %d's stored record opens message %d, which it should not be able to read", b, i)
						}
						k.Eval1("a stored record opens a pending message")
					}
				}
				k.Eval(len(l))
			}
			return true
		}
		for kind := 0; kind < 3 && !k.Failed(); kind++ {
			w.both(func(w *GW) {
				if !look(w) {
					return
				}
				n := 0
				if w.onward(k, cls, kind, func() bool {
					n++
					return n%5 != 0 || look(w)
				}) {
					look(w)
				}
			})
		}
	})
}

// gRichReload: records of rich states, and crashes there.
func gRichReload(c *Ctx) {
	cls := classes("reload", "crash")
	gRich(c, true, false, cls, func(k *Case, x gRichCase, w *GW) {
		for _, f := range w.reloadsEqual() {
			k.Failf("%s", f.Text)
			return
		}
		k.Eval(1)
		for _, f := range w.forkAll().gCrashes(c) {
			k.Failf("%s", f.Text)
			return
		}
		// records that stay in memory and records that are reloaded give the same
		for kind := 0; kind < 3; kind++ {
			d, l := w.forkAll(), w.live()
			l.quick = true
			var outs [2][]seenOp
			for j, v := range []*GW{d, l} {
				v.onward(&Case{c: c}, nil, kind, func() bool {
					if v.Last == nil { // nothing but a restart
						return true
					}
					outs[j] = append(outs[j], seenOp{v.Last.OK(), v.Last.Plain, v.Last.Wire, v.Last.Type})
					return true
				})
			}
			for i := range outs[0] {
				if i < len(outs[1]) && !outs[0][i].eq(outs[1][i]) {
					k.Failf("step %d of continuation %d gives %v with reloaded records, %v with records in memory", i, kind, outs[0][i], outs[1][i])
					return
				}
			}
			if len(outs[0]) != len(outs[1]) {
				k.Failf("continuation %d goes on for %d steps with reloaded records, %d with records in memory", kind, len(outs[0]), len(outs[1]))
				return
			}
			for p := range d.P {
				if a, b := d.P[p].Image(), l.P[p].Image(); !bytes.Equal(a, b) {
					k.Failf("user %d ends with other stored bytes: %s", p, diffImage(a, b))
					return
				}
			}
			k.Eval(len(outs[0]))
		}
	})
}

// masks: which combinations of fields of two messages are presented.
func (w *GW) masks() []int {
	if w.Focus != nil {
		return []int{1, 2, 4, 8, 6, 11, 13}
	}
	var out []int
	for m := 1; m < 15; m++ {
		out = append(out, m)
	}
	return out
}
