package main

import (
	"fmt"
	"sync/atomic"

	"github.com/prospik/libsignal-protocol-go/protocol"
)

// S11: a crash at any storage call loses no session and repeats no key.

func init() { register("S11", "fault_enumeration", checkS11) }

// raw executes an operation on the stores only, stopping before the stop-th changing
// store call (none if negative). It returns the number of changing calls made.
func (w *SW) raw(o SOp, stop int) (r *Res, calls int) {
	i := w.touched(o)
	st := &Store{P: w.P[i], Ser: w.Ser}
	st.Hook = func(call string, mut bool) {
		if !mut {
			return
		}
		if calls == stop {
			panic(crash{})
		}
		calls++
	}
	switch o.K {
	case 'B':
		opk := w.Cfg.Plan[[2]int{o.A, o.B}][w.M.NBundle[[2]int{o.A, o.B}]]
		r = st.Bundle(w.addr(o.B), w.bun(o.B, opk, w.M.NBundle[[2]int{o.A, o.B}]))
	case 'S':
		r = st.Encrypt(w.addr(o.B), []byte("crash"))
	case 'D', 'P':
		m := w.Msgs[[3]int{o.A, o.B, o.I}]
		if o.K == 'D' {
			r = st.Receive(w.addr(o.A), m.Wire, m.Type == protocol.PREKEY_TYPE)
		} else {
			r = st.ReceivePlain(w.addr(o.A), m.Wire, m.Type == protocol.PREKEY_TYPE)
		}
	default:
		panic(harnessErr{"raw " + o.String()})
	}
	w.P[i].Rng.Pos += 1000 // what happens next uses other randomness
	return
}

// afterModels are the models that a world may be in after the crash of an operation.
func (w *SW) afterModels(o SOp) (out []*SModel) {
	out = append(out, w.M.clone())
	m := w.M.clone()
	switch o.K {
	case 'B':
		m.Bundle(o.A, o.B, w.Cfg.Plan[[2]int{o.A, o.B}][w.M.NBundle[[2]int{o.A, o.B}]], w.Cfg.Spk)
	case 'S':
		m.Send(o.A, o.B)
	case 'D', 'P':
		x := w.Msgs[[3]int{o.A, o.B, o.I}]
		ok, _ := m.Deliver(o.B, o.A, &x.MMsg, x.Type == protocol.PREKEY_TYPE)
		if !ok {
			return
		}
		if x.Opk >= 0 && w.M.Opks[[2]int{o.B, int(x.Opk)}] && !m.Opks[[2]int{o.B, int(x.Opk)}] {
			n := m.clone() // the session is stored, the prekey still there
			n.Opks[[2]int{o.B, int(x.Opk)}] = true
			out = append(out, m, n)
			return
		}
	}
	return append(out, m)
}

var crashClasses = classes("lost", "dup", "over", "crash", "send", "bundle", "reuse", "panic")

// closing continues a world to the end and reports what goes wrong.
func (w *SW) closing(kind int, who int) (fs []Finding) {
	do := func(o SOp) bool {
		for _, f := range w.Do(o) {
			if crashClasses[f.Class] {
				fs = append(fs, f)
			}
		}
		return len(fs) == 0
	}
	n := len(w.P)
	pend := func(all, down bool) bool {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				k := w.M.NSent[[2]int{a, b}]
				for j := 0; j < k; j++ {
					i := j
					if down {
						i = k - 1 - j
					}
					if w.Msgs[[3]int{a, b, i}] == nil || (!all && w.M.Deliv[[3]int{a, b, i}]) {
						continue
					}
					if !do(SOp{'D', a, b, i}) {
						return false
					}
				}
			}
		}
		return true
	}
	talk := func(rounds int, first int) bool {
		for r := 0; r < rounds; r++ {
			for x := 0; x < n; x++ {
				a := (first + x) % n
				for y := 1; y < n; y++ {
					b := (a + y) % n
					if w.M.rec(a, b).Cur == nil {
						continue
					}
					i := w.M.NSent[[2]int{a, b}]
					if !do(SOp{'S', a, b, 0}) || !do(SOp{'D', a, b, i}) {
						return false
					}
				}
			}
		}
		return true
	}
	switch kind {
	case 0:
		_ = pend(false, false) && talk(2, 0) && pend(true, false)
	case 1: // the restarted user speaks first
		_ = talk(1, who) && pend(false, true) && talk(1, 1-who%2) && pend(true, true)
	case 2: // a new session instead
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				k := [2]int{a, b}
				if a != b && w.M.NBundle[k] < len(w.Cfg.Plan[k]) {
					if !do(SOp{'B', a, b, 0}) {
						return
					}
				}
			}
		}
		_ = talk(1, who) && pend(false, false) && pend(true, false)
	}
	return
}

// consistent says whether the world continues like one of the models.
func (w *SW) consistent(o SOp, ms []*SModel, from, to, kinds int) (string, int) {
	who := w.touched(o)
	var all []int
	for i := range w.P {
		all = append(all, i)
	}
	var why string
	for i, m := range ms {
		if i < from || i > to {
			continue
		}
		bad := ""
		for kind := 0; kind < kinds && bad == ""; kind++ {
			n := w.Fork(all...)
			n.M = m.clone()
			k := &Case{}
			var fs []Finding
			guard(k, func() { fs = n.closing(kind, who) })
			if k.fail != "" {
				fs = append(fs, Finding{"panic", k.fail})
			}
			if len(fs) > 0 {
				bad = fmt.Sprintf("if the operation counts as %s: then %v, %s", []string{"not done", "done", "done except for the prekey"}[i], hist(n, len(w.Hist)), fs[0].Text)
			}
		}
		if bad == "" {
			return "", i
		}
		if why != "" {
			why += "; "
		}
		why += bad
	}
	return why, -1
}

// window: before the first call nothing has happened, after the last one everything.
func window(stop, total int, ms []*SModel) (int, int) {
	switch {
	case len(ms) < 2:
		return 0, 0
	case stop == 0 && total > 0:
		return 0, 0
	case stop == total:
		return 1, 1
	}
	return 0, len(ms) - 1
}

func hist(w *SW, from int) []string {
	if from > len(w.Hist) {
		from = len(w.Hist)
	}
	return strs(w.Hist[from:])
}

// crashes stops every enabled operation at every store call, and once more when it is
// repeated, and continues.
func (w *SW) crashes(c *Ctx, again bool, kinds int) []Finding {
	for _, o := range w.Ops() {
		if o.K == 'R' || o.K == 'I' {
			continue
		}
		probe := w.Fork(w.touched(o))
		_, total := probe.raw(o, -1)
		for stop := 0; stop <= total; stop++ {
			n := w.Fork(w.touched(o))
			r, _ := n.raw(o, stop)
			if stop < total && !r.Crashed {
				return []Finding{{"crash", fmt.Sprintf("%v does not stop at store call %d: %v", o, stop, r)}}
			}
			ms := w.afterModels(o)
			atomic.AddInt64(&c.Evals, 1)
			atomic.AddInt64(&c.Distinct, 1)
			lo, hi := window(stop, total, ms)
			why, at := n.consistent(o, ms, lo, hi, kinds)
			if why != "" {
				return []Finding{{"crash", fmt.Sprintf("stopping %v before changing store call %d of %d: %s", o, stop, total, why)}}
			}
			c.Outcome(fmt.Sprintf("%c stopped before call %d of %d counts as %d", o.K, stop, total, at))
			if !again {
				continue
			}
			// the user repeats it, and the process stops again
			n.M = ms[at].clone()
			rep := o
			if o.K == 'B' {
				k := [2]int{o.A, o.B}
				if n.M.NBundle[k] >= len(n.Cfg.Plan[k]) {
					continue
				}
			}
			if o.K == 'S' && n.M.rec(o.A, o.B).Cur == nil {
				continue
			}
			p2 := n.Fork(w.touched(o))
			_, tot2 := p2.raw(rep, -1)
			for s2 := 0; s2 <= tot2; s2++ {
				n2 := n.Fork(w.touched(o))
				n2.raw(rep, s2)
				atomic.AddInt64(&c.Evals, 1)
				atomic.AddInt64(&c.Distinct, 1)
				ms2 := n.afterModels(rep)
				lo, hi := window(s2, tot2, ms2)
				if why, _ := n2.consistent(rep, ms2, lo, hi, c.Q(1, 3)); why != "" {
					return []Finding{{"crash", fmt.Sprintf("stopping %v before changing store call %d of %d, and repeating it, stopping before call %d: %s", o, stop, total, s2, why)}}
				}
			}
		}
	}
	return nil
}

func checkS11(c *Ctx) {
	c.Rule("Every state of short histories is visited breadth first; in every state every possible operation is stopped before each of its changing store calls and after the last one (the result is lost). The user restarts from the stored bytes, and three continuations (everything arrives in order, the restarted user speaks first and messages arrive in reverse, new sessions are set up), each ending with every message presented again, must agree completely with a symbolic model in which the operation either took place or did not (or took place except for the deletion of the one-time prekey). The repeated operation is stopped at every call once more (followed by the first continuation in the quick tier). Non-trivial: all (each stops at another call of another operation in another state).")
	c.Assume("each store call is atomic and durable when it returns")
	q := c.Q
	ex := func(cfg *SessCfg, max int) {
		cfg.Header = true
		Explore(c, System[*SW, SOp]{
			Name:    cfg.Name,
			Init:    func() *SW { return newSW(cfg, false) },
			Ops:     func(w *SW) []SOp { return w.Ops() },
			Apply:   func(w *SW, o SOp) (*SW, []Finding) { return w.Apply(o) },
			Key:     func(w *SW) [32]byte { return w.Key() },
			Visit:   func(w *SW) []Finding { return w.crashes(c, true, 3) },
			Classes: classes("crash"), Depth: 30, Max: max,
		})
	}
	var run []func()
	add := func(cfg *SessCfg, max int) { run = append(run, func() { ex(cfg, max) }) }
	add(two("opk", false, plan(0, 1, 1), q(2, 3), q(2, 3)), q(1200, 40000))
	add(two("no-opk-json", true, plan(0, 1, -1), q(2, 3), q(1, 3)), q(1200, 40000))
	add(two("last-resort", false, plan(0, 1, lastResort), 2, 1), q(1200, 40000))
	add(odd(two("again", false, plan(0, 1, 1, 2), q(2, 3), q(1, 2))), q(1200, 40000))
	add(two("both", true, plans(plan(0, 1, 1, 2), plan(1, 0, 1)), q(1, 2), q(1, 2)), q(1200, 40000))
	add(own(two("opk", true, plans(plan(0, 1, 1), plan(1, 0, 2)), q(1, 2), 1)), q(300, 40000))
	gap := two("gaps", false, plan(0, 1, 1, 2), 0, 0)
	gap.Setup = pingpong(established(), 1, 1)
	gap.MaxSend = sends(0, 1, 2+q(2, 3), 1, 0, 2+q(1, 2))
	add(gap, q(1200, 40000))
	c.Par(run...)
	richCrash(c)
}
