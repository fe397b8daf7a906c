package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"sync"
	"sync/atomic"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/ecc"
	gratchet "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
)

func init() {
	register("G04", "model_checking", checkG04)
	register("G06", "model_checking", checkG06)
	register("G07", "model_checking", checkG07)
}

// ---------------------------------------------------------------- G04

// secretPayload is long enough for a key to be recognised without its IV.
func secretPayload(n, i int) []byte {
	return []byte(fmt.Sprintf("secret text %d of sender %d, long enough", i, n))
}

// openable lists the messages (name, index) that bytes give away.
func (w *GW) openable(cache *sync.Map, srcs ...[]byte) map[[2]int]bool {
	toks := map[string]bool{}
	for _, s := range srcs {
		tokens(s, toks)
	}
	var cts, pls [][]byte
	var ids [][2]int
	for n := range w.Msgs {
		for i, m := range w.Msgs[n] {
			x, ok := parseSKM(m.Wire, w.Cfg.JSON)
			if !ok {
				continue
			}
			cts, pls, ids = append(cts, x.CipherText), append(pls, m.Plain), append(ids, [2]int{n, i})
		}
	}
	var all []byte
	for _, ct := range cts {
		all = append(all, ct...)
	}
	key := string(all)
	out := map[[2]int]bool{}
	for _, t := range sorted(toks) {
		var open []int
		if v, ok := cache.Load(t + key); ok {
			open = v.([]int)
		} else {
			open = groupOpens(t, 12, cts, pls)
			cache.Store(t+key, open)
		}
		for _, i := range open {
			out[ids[i]] = true
		}
	}
	return out
}

func storedSK(p *Party) (out [][]byte) {
	for _, b := range p.SK {
		out = append(out, b)
	}
	for _, b := range p.Sess {
		out = append(out, b)
	}
	return
}

func (w *GW) secrecy(c *Ctx, cache *sync.Map) (fs []Finding) {
	bad := func(f string, a ...interface{}) {
		fs = append(fs, Finding{"secret", fmt.Sprintf(f, a...)})
	}
	// distribution messages: exactly the messages from there on
	for n := range w.Dists {
		for d := range w.Dists[n] {
			open := w.openable(cache, w.Dists[n][d].Wire)
			atomic.AddInt64(&c.Evals, 1)
			for n2 := range w.Msgs {
				for i, m := range w.M.Msgs[n2] {
					allowed := n2 == n && m.Key == w.M.Dists[n][d].Key && m.Iter >= w.M.Dists[n][d].Iter
					if open[[2]int{n2, i}] && !allowed {
						bad("distribution message %d of sender %d (iteration %d) opens message %d of sender %d (key %d, iteration %d)", d, n, w.M.Dists[n][d].Iter, i, n2, m.Key, m.Iter)
					}
					if !open[[2]int{n2, i}] && allowed {
						bad("distribution message %d of sender %d (iteration %d) does not open message %d (iteration %d)", d, n, w.M.Dists[n][d].Iter, i, m.Iter)
					}
					if open[[2]int{n2, i}] {
						c.Outcome("a distribution message opens what follows")
					}
				}
			}
		}
	}
	// stored records: nothing sent or decrypted already, and nothing never distributed
	for b, p := range w.P {
		p.Sync()
		open := w.openable(cache, storedSK(p)...)
		atomic.AddInt64(&c.Evals, 1)
		for n := range w.Msgs {
			for i, m := range w.M.Msgs[n] {
				if !open[[2]int{n, i}] {
					continue
				}
				c.Outcome("a stored record opens a pending message")
				if w.Cfg.Names[n].Sender == b {
					bad("user %d's stored records open message %d, which it has encrypted", b, i)
					continue
				}
				if w.M.Deliv[[3]int{b, n, i}] {
					bad("user %d's stored records open message %d of sender %d, which it has decrypted", b, i, n)
				}
				allowed := false
				for _, k := range w.M.Recv[[2]int{b, n}] {
					if k.Key == m.Key && m.Iter >= k.Next {
						allowed = true
					}
					for _, s := range k.Skipped {
						allowed = allowed || (k.Key == m.Key && s == m.Iter)
					}
				}
				if !allowed {
					bad("user %d's stored records open message %d of sender %d (key %d, iteration %d), which it should not be able to read", b, i, n, m.Key, m.Iter)
				}
			}
		}
	}
	return
}

func checkG04(c *Ctx) {
	c.Rule(ruleG + " In every state an attacker takes all 32-byte strings out of each distribution message and of everything each user has stored, uses them as cipher keys, message seeds and chain keys (up to 12 steps) and tries all messages: a distribution message must open exactly the messages from its iteration on, stored records nothing that was encrypted, decrypted or dropped there already and nothing older or of another key; new keys share nothing with earlier ones.")
	c.Assume("HMAC-SHA256, HKDF and AES are one-way: an attacker computes only what the protocol's key derivations give")
	q := c.Q
	var run []func()
	add := func(cfg *GCfg, depth int) {
		cfg.Payload = secretPayload
		cache := &sync.Map{}
		cfg.Each = func(w *GW) []Finding { return w.secrecy(c, cache) }
		run = append(run, func() {
			exploreGroups(c, cfg, depth, q(15000, 400000), q(400, 5000), classes("secret", "fresh"), func(w *GW) []Finding { return w.secrecy(c, cache) })
		})
	}
	add(grp("one-member", false, 1, q(5, 6), q(3, 4), 0), 40)
	add(grp("joins-json", true, 2, q(3, 4), 2, 0), 40)
	add(goddKeys(grp("rotation", false, 1, q(3, 4), 1, q(2, 3))), 40)
	m := &GCfg{Name: "two-groups", JSON: true, Parties: []Addr{alice, bob}, Names: []GN{{"g1", 0}, {"g2", 0}, {"g1", 1}}, MaxSend: []int{q(1, 2), 1, 1}, MaxDist: []int{1, 1, 1}, MaxRot: []int{1, 0, 0}}
	add(m, q(10, 40))
	// through skipped messages
	l := grp("skipped", true, 1, 0, 0, 0)
	l.Setup = []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'D', 1, 0, 3, 0}}
	l.MaxSend, l.MaxDist, l.MaxRot = []int{q(5, 6)}, []int{q(2, 3)}, []int{q(0, 1)}
	add(l, 40)
	run = append(run, func() { g04Dropped(c); g04Long(c); gRichSecrecy(c) })
	c.Par(run...)
}

// g04Dropped: what the limits make a member forget is gone from its record.
func g04Dropped(c *Ctx) {
	type cse struct {
		js, live bool
		what     string
		a, b     int
	}
	var cs []cse
	for i := 0; i < 4; i++ {
		js, live := i%2 == 1, i/2 == 1
		cs = append(cs, cse{js, live, "jumps", 2000, 1}, cse{js, live, "jumps", 1000, 1001}, cse{js, live, "jumps", 1500, 1500})
		if js == live || c.Thorough {
			cs = append(cs, cse{js, live, "keys", 2001, 0})
		}
	}
	c.Each("dropped", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		cfg := grp("dropped", x.js, 1, 0, 1, 0)
		cfg.Payload = secretPayload
		w := newGW(cfg, x.live)
		w.quick = true
		var in, out []int // messages that must and must not be open
		if x.what == "jumps" {
			if !w.seq(k, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0}) {
				return
			}
			n := x.a + x.b + 3
			for j := 0; j < n; j++ {
				if !w.seq(k, GOp{'S', 0, 0, 0, 0}) {
					return
				}
			}
			if !w.seq(k, GOp{'D', 1, 0, x.a, 0}, GOp{'D', 1, 0, x.a + x.b + 1, 0}) {
				return
			}
			d := x.a + x.b - 2000 // dropped ones
			for j := 0; j < d; j += 1 + d/7 {
				out = append(out, j)
			}
			out = append(out, d-1, x.a, x.a+x.b+1)
			in = append(in, d, d+1, x.a-1, x.a+1, n-1)
		} else {
			for j := 0; j < x.a; j++ {
				o := GOp{'K', 0, 0, 0, 0}
				if j == 0 {
					o.K = 'C'
				}
				if !w.seq(k, o, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'P', 1, 0, j, 0}) {
					return
				}
				if j < 3 && !w.seq(k, GOp{'D', 1, 0, 2*j + 1, 0}) {
					return
				}
			}
			d := x.a - 2000
			for j := 0; j < 2*d; j++ {
				out = append(out, j)
			}
			in = append(in, 2*d, 2*d+2, 2*d+7, 2*x.a-1)
			out = append(out, 2*d+1, 2*d+3)
		}
		w.P[1].Sync()
		toks := map[string]bool{}
		for _, b := range storedSK(w.P[1]) {
			tokens(b, toks)
		}
		ids := append(append([]int{}, in...), out...)
		var cts, pls [][]byte
		for _, m := range ids {
			y, ok := parseSKM(w.Msgs[0][m].Wire, x.js)
			if !ok {
				k.Failf("message %d does not parse", m)
				return
			}
			cts, pls = append(cts, y.CipherText), append(pls, w.Msgs[0][m].Plain)
		}
		open := map[int]bool{}
		for _, t := range sorted(toks) {
			for _, o := range groupOpens(t, 4, cts, pls) {
				open[ids[o]] = true
			}
		}
		for _, m := range out {
			if open[m] {
				k.Failf("the member's record still opens message %d (key %d, iteration %d), which it has decrypted or dropped", m, w.M.Msgs[0][m].Key, w.M.Msgs[0][m].Iter)
				return
			}
		}
		for _, m := range in {
			if !open[m] {
				k.Failf("the member's record does not open message %d, which it can still decrypt", m)
				return
			}
		}
		k.Eval1(fmt.Sprint("dropped by ", x.what))
		k.Eval(len(ids))
		k.Trace(1)
	})
}

// ---------------------------------------------------------------- G06

// accSK renders what the accessors of a sender key record show.
func accSK(r *grecord.SenderKey, ids []uint32, iters []uint32) map[string]string {
	m := map[string]string{"empty": fmt.Sprint(r.IsEmpty())}
	st := func(name string, s *grecord.SenderKeyState, err error) {
		if err != nil {
			m[name] = "none"
			return
		}
		sk := s.SigningKey()
		priv := "none"
		if sk.PrivateKey() != nil {
			x := sk.PrivateKey().Serialize()
			priv = fmt.Sprintf("%x", x[:])
		}
		m[name] = fmt.Sprintf("%d %x %s %d %x", s.KeyID(), sk.PublicKey().Serialize(), priv, s.SenderChainKey().Iteration(), s.SenderChainKey().Seed())
		for _, i := range iters {
			m[fmt.Sprint(name, " has ", i)] = fmt.Sprint(s.HasSenderMessageKey(i))
		}
	}
	s, err := r.SenderKeyState()
	st("current", s, err)
	for _, id := range ids {
		s, err := r.GetSenderKeyStateByID(id)
		st(fmt.Sprint("key ", id), s, err)
	}
	return m
}

func (w *GW) idsIters() (ids, iters []uint32) {
	seen := map[uint32]bool{}
	for _, k := range w.Keys {
		if !seen[k.ID] {
			seen[k.ID] = true
			ids = append(ids, k.ID)
		}
	}
	for i := uint32(0); i < 12; i++ {
		iters = append(iters, i)
	}
	return append(ids, 4242), append(iters, 1000, 1999, 2000, 2001)
}

// reloadsEqual compares every record with its reloaded form.
func (w *GW) reloadsEqual() (fs []Finding) {
	bad := func(f string, a ...interface{}) { fs = append(fs, Finding{"reload", fmt.Sprintf(f, a...)}) }
	ids, iters := w.idsIters()
	for i, p := range w.P {
		recs := map[GName]*grecord.SenderKey{}
		if w.Live {
			for g, r := range p.LSK {
				recs[g] = r
			}
		} else {
			for g, b := range p.SK {
				recs[g] = mustSK(b, w.Ser)
				if !bytes.Equal(recs[g].Serialize(), b) {
					bad("the record of user %d for %v serializes to other bytes after loading", i, g)
				}
			}
		}
		for g, r := range recs {
			x := r.Serialize()
			if !bytes.Equal(x, r.Serialize()) {
				bad("serializing the record of user %d for %v twice gives different bytes", i, g)
			}
			n := mustSK(x, w.Ser)
			if !bytes.Equal(n.Serialize(), x) {
				bad("the record of user %d for %v serializes to other bytes after loading", i, g)
			}
			if d := diffAcc(accSK(r, ids, iters), accSK(n, ids, iters)); d != "" {
				bad("record of user %d for %v: %s", i, g, d)
			}
			s, err := r.SenderKeyState()
			for k := -1; k < len(ids); k++ {
				if k >= 0 {
					s, err = r.GetSenderKeyStateByID(ids[k])
				}
				if err != nil {
					continue
				}
				b := s.Serialize()
				ns, e := grecord.NewSenderKeyStateFromBytes(b, w.Ser.SenderKeyState)
				if e != nil {
					bad("a state of user %d does not load: %v", i, e)
				} else if !bytes.Equal(ns.Serialize(), b) {
					bad("a state of user %d serializes to other bytes after loading", i)
				}
			}
		}
	}
	return
}

// gTranscript executes a path with stores of bytes, or of objects that are reloaded
// after step at (-1 never, -2 always).
func gTranscript(cfg *GCfg, path []GOp, live bool, at int) (out []seenOp, imgs [][]byte, err string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case reloadErr:
				err = x.s
			case setupErr:
				err = x.Error()
			default:
				panic(e)
			}
		}
	}()
	w := newGW(cfg, live)
	for i, o := range path {
		var s seenOp
		if (o.K == 'D' || o.K == 'X') && o.I >= len(w.Msgs[o.N]) || o.K == 'P' && o.I >= len(w.Dists[o.N]) {
			out = append(out, s)
			continue
		}
		w.Do(o)
		if w.Last != nil {
			s = seenOp{w.Last.OK(), w.Last.Plain, w.Last.Wire, w.Last.Type}
		}
		out = append(out, s)
		if live && (at == -2 || at == i) {
			for j := range w.P {
				w.Do(GOp{'R', j, 0, 0, 0})
			}
		}
	}
	for _, p := range w.P {
		imgs = append(imgs, append([]byte{}, p.Image()...))
	}
	return
}

func gCompareModes(cfg *GCfg, path []GOp, n *int) []Finding {
	path = path[:len(path):len(path)]
	sent := map[int]int{}
	for _, o := range append(append([]GOp{}, cfg.Setup...), path...) {
		if o.K == 'S' {
			for b := range cfg.Parties {
				if b != cfg.Names[o.N].Sender {
					path = append(path, GOp{'D', b, o.N, sent[o.N], 0})
				}
			}
			sent[o.N]++
		}
	}
	for b := range cfg.Parties { // members must not be able to send
		for m := range cfg.Names {
			if cfg.Names[m].Sender != b {
				path = append(path, GOp{'E', b, m, 0, 0})
			}
		}
	}
	base, imgs, e := gTranscript(cfg, path, true, -1)
	if e != "" {
		return []Finding{{"reload", e}}
	}
	cmp := func(what string, live bool, at int) []Finding {
		*n++
		t, im, e := gTranscript(cfg, path, live, at)
		if e != "" {
			return []Finding{{"reload", what + ": " + e}}
		}
		for i := range base {
			if !base[i].eq(t[i]) {
				return []Finding{{"reload", fmt.Sprintf("%s: %v gives %v, but %v with records kept in memory", what, path[i], t[i], base[i])}}
			}
		}
		for i := range imgs {
			if !bytes.Equal(imgs[i], im[i]) {
				return []Finding{{"reload", fmt.Sprintf("%s: user %d ends with other stored bytes: %s", what, i, diffImage(imgs[i], im[i]))}}
			}
		}
		return nil
	}
	if fs := cmp("records reloaded for every operation", false, 0); fs != nil {
		return fs
	}
	if fs := cmp("records kept, all reloaded after every step", true, -2); fs != nil {
		return fs
	}
	for k := range path {
		if fs := cmp(fmt.Sprintf("records reloaded after step %d", k), true, k); fs != nil {
			return fs
		}
	}
	return nil
}

// raw executes an operation, stopping before a changing store call.
func (w *GW) raw(o GOp, stop int) (r *Res, calls int) {
	i := w.touched(o)
	st := &Store{P: w.P[i], Ser: w.Ser}
	st.Hook = func(call string, mut bool) {
		if !mut {
			return
		}
		if calls == stop {
			panic(crash{})
		}
		calls++
	}
	g := w.gname(o.N)
	switch o.K {
	case 'C':
		r = st.GCreate(g)
	case 'S':
		r = st.GEncrypt(g, []byte("crash"))
	case 'P':
		r = st.GProcess(g, w.Dists[o.N][o.I].Wire)
	case 'D':
		r = st.GDecrypt(g, w.Msgs[o.N][o.I].Wire)
	default:
		panic(harnessErr{"raw " + o.String()})
	}
	w.P[i].Rng.Pos += 1000
	return
}

// gClosing lets everything happen that can still happen.
func (w *GW) gClosing(kind int) (fs []Finding) {
	do := func(o GOp) {
		for _, f := range w.Do(o) {
			switch f.Class {
			case "lost", "dup", "over", "crash", "send", "key", "iter", "fresh", "reuse", "panic":
				fs = append(fs, f)
			}
		}
	}
	deliver := func(all bool) {
		for n := range w.Cfg.Names {
			for b := range w.P {
				if !w.member(b, n) {
					continue
				}
				for j := range w.Msgs[n] {
					i := j
					if kind == 1 {
						i = len(w.Msgs[n]) - 1 - j
					}
					if (all || !w.M.Deliv[[3]int{b, n, i}]) && len(fs) == 0 && w.in(n, i) {
						do(GOp{'D', b, n, i, 0})
					}
				}
			}
		}
	}
	if kind == 1 {
		deliver(false)
	}
	for n := range w.Cfg.Names {
		if w.M.NKey[n] == 0 {
			continue
		}
		do(GOp{'C', 0, n, 0, 0})
		for b := range w.P {
			if w.member(b, n) && len(fs) == 0 {
				do(GOp{'P', b, n, len(w.Dists[n]) - 1, 0})
			}
		}
		for x := 0; x < 2 && len(fs) == 0; x++ {
			do(GOp{'S', 0, n, 0, 0})
		}
	}
	deliver(false)
	deliver(true)
	return
}

func (w *GW) gCrashes(c *Ctx) []Finding {
	for _, o := range w.Ops() {
		if o.K == 'K' || o.K == 'X' || o.K == 'R' || o.K == 'D' && !w.in(o.N, o.I) || o.K == 'P' && w.Focus != nil && o.I > 1 && o.I < len(w.Dists[o.N])-2 {
			continue
		}
		probe := w.Fork(w.touched(o))
		_, total := probe.raw(o, -1)
		for stop := 0; stop <= total; stop++ {
			n := w.Fork(w.touched(o))
			r, _ := n.raw(o, stop)
			if stop < total && !r.Crashed {
				return []Finding{{"crash", fmt.Sprintf("%v does not stop at store call %d: %v", o, stop, r)}}
			}
			before := n.M.clone()
			after := n.M.clone()
			switch o.K {
			case 'C':
				after.Create(o.N)
				after.Dists[o.N] = before.Dists[o.N] // nobody has seen it
			case 'S':
				after.Send(o.N)
				after.Msgs[o.N] = before.Msgs[o.N]
			case 'P':
				after.Process(o.B, o.N, after.Dists[o.N][o.I])
			case 'D':
				if ok, _ := after.Deliver(o.B, o.N, after.Msgs[o.N][o.I]); ok {
					after.Deliv[[3]int{o.B, o.N, o.I}] = true
				}
			}
			var tries []*GModel
			if stop < total {
				tries = append(tries, before)
			}
			if stop > 0 || total == 0 {
				tries = append(tries, after)
			}
			why := ""
			for _, m := range tries {
				why = ""
				for kind := 0; kind < 2 && why == ""; kind++ {
					x := n.forkAll()
					x.M = m.clone()
					k := &Case{}
					var fs []Finding
					guard(k, func() { fs = x.gClosing(kind) })
					if k.fail != "" {
						fs = append(fs, Finding{"panic", k.fail})
					}
					if len(fs) > 0 {
						why = fs[0].Class + ": " + fs[0].Text
					}
				}
				if why == "" {
					break
				}
			}
			atomic.AddInt64(&c.Evals, 1)
			c.Outcome(fmt.Sprintf("%c stopped before call %d of %d", o.K, stop, total))
			if why != "" {
				return []Finding{{"crash", fmt.Sprintf("stopping %v before changing store call %d of %d: %s", o, stop, total, why)}}
			}
		}
	}
	return nil
}

func checkG06(c *Ctx) {
	c.Rule(ruleG + " Every root-to-leaf path is executed with records kept in memory, reloaded for every operation, after every step and after each single step: results, messages and final stored bytes must be the same. In every state every record is serialized and loaded again, and bytes and accessors are compared. In every state of the crash scenarios every operation is stopped before each changing store call and after the last, the user restarts from the stored bytes, and everything that can still happen must agree with the model.")
	c.Assume("each store call is atomic and durable when it returns")
	q := c.Q
	var run []func()
	ex := func(cfg *GCfg, depth, max, live int, crashes bool) {
		cfg.Again = !crashes
		run = append(run, func() {
			Explore(c, System[*GW, GOp]{
				Name: cfg.Name,
				Init: func() *GW { return newGW(cfg, false) },
				Ops:  func(w *GW) []GOp { return w.Ops() },
				Apply: func(w *GW, o GOp) (*GW, []Finding) {
					n, fs := w.Apply(o)
					if len(fs) > 0 { // only what differs from records kept in memory counts
						l := newGW(cfg, true)
						for _, x := range n.Hist {
							if lf := l.Do(x); len(lf) > 0 {
								return n, fs
							}
						}
						return n, []Finding{{"reload", fmt.Sprintf("only with reloaded records: %v", fs)}}
					}
					return n, nil
				},
				Key: func(w *GW) [32]byte { return w.Key() },
				Visit: func(w *GW) []Finding {
					if fs := w.reloadsEqual(); len(fs) > 0 {
						return fs
					}
					if crashes {
						return w.gCrashes(c)
					}
					return nil
				},
				Live: func(path []GOp) []Finding {
					w := newGW(cfg, true)
					for _, o := range path {
						if fs := w.Do(o); len(fs) > 0 {
							return fs
						}
						if fs := w.reloadsEqual(); len(fs) > 0 {
							return fs
						}
					}
					n := 0
					fs := gCompareModes(cfg, path, &n)
					k := Case{c: c}
					k.Eval(n)
					return fs
				},
				Classes: classes("reload", "crash"), Depth: depth, Max: max, MaxLive: live,
			})
		})
	}
	ex(grp("one-member", false, 1, q(4, 5), 2, 0), 40, q(4000, 100000), q(250, 5000), false)
	ex(goddKeys(grp("rotation-json", true, 1, q(3, 4), 1, q(2, 3))), 40, q(4000, 100000), q(250, 5000), false)
	ex(&GCfg{Name: "two-senders", Parties: []Addr{alice, bob}, Names: []GN{{"g1", 0}, {"g1", 1}, {"g2", 0}}, MaxSend: []int{2, 1, 1}, MaxDist: []int{1, 1, 1}}, q(9, 40), q(4000, 100000), q(200, 5000), false)
	ex(grp("crash-one-member", true, 1, q(4, 5), 2, 0), 40, q(1500, 30000), q(20, 200), true)
	ex(grp("crash-two-members", false, 2, 2, q(1, 2), 0), 40, q(1500, 30000), q(20, 200), true)
	ex(grp("crash-rotation", false, 1, q(3, 4), 1, q(1, 2)), 40, q(1500, 30000), q(20, 200), true)
	run = append(run, func() { g06Big(c); g06Giant(c); gRichReload(c) })
	c.Par(run...)
}

// g06Big: records with many keys and many skipped messages.
func g06Big(c *Ctx) {
	c.Each("big", 6, func(i int) string { return fmt.Sprint(i) }, func(k *Case, i int) {
		cfg := grp("big", i%2 == 1, 1, 0, 1, 0)
		cfg.Payload = func(n, i int) []byte { return []byte(fmt.Sprint("m", i)) }
		d, l := newGW(cfg, false), newGW(cfg, true)
		d.quick, l.quick = true, true
		var ops []GOp
		ops = append(ops, GOp{'C', 0, 0, 0, 0}, GOp{'P', 1, 0, 0, 0})
		if i < 2 {
			for j := 0; j < 2105; j++ {
				ops = append(ops, GOp{'S', 0, 0, 0, 0})
			}
			for _, x := range []int{2000, 2104, 0, 99, 100, 101, 102, 1500, 2103, 2001, 1999, 1500, 2104} {
				ops = append(ops, GOp{'D', 1, 0, x, 0}, GOp{'R', 1, 0, 0, 0})
			}
		} else if i > 3 {
			n := []int{130, c.Q(300, 1999)}[i-4]
			for j := 0; j < n; j++ {
				ops = append(ops, GOp{'S', 0, 0, 0, 0}, GOp{'K', 0, 0, 0, 0}, GOp{'P', 1, 0, j + 1, 0})
				if j%50 == 49 {
					ops = append(ops, GOp{'R', 1, 0, 0, 0})
				}
			}
			for j := 0; j < n; j++ {
				ops = append(ops, GOp{'D', 1, 0, (j * 7) % n, 0})
			}
		} else {
			for j := 0; j < 60; j++ {
				ops = append(ops, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'S', 0, 0, 0, 0}, GOp{'D', 1, 0, 3*j + j%3, 0}, GOp{'K', 0, 0, 0, 0}, GOp{'P', 1, 0, j + 1, 0}, GOp{'R', 1, 0, 0, 0})
			}
			for j := 0; j < 180; j++ {
				ops = append(ops, GOp{'D', 1, 0, 179 - j, 0})
			}
		}
		for j, o := range ops {
			if o.K == 'R' {
				l.quick = false
				if fs := l.reloadsEqual(); len(fs) > 0 {
					k.Failf("step %d: %v", j, fs)
					return
				}
				l.quick = true
				if j%3 == 0 {
					l.Do(o)
				}
				continue
			}
			d.Do(o)
			l.Do(o)
			x, y := seenOp{d.Last.OK(), d.Last.Plain, d.Last.Wire, d.Last.Type}, seenOp{l.Last.OK(), l.Last.Plain, l.Last.Wire, l.Last.Type}
			if !x.eq(y) {
				k.Failf("step %d (%v) gives %v with reloaded records, %v with records in memory", j, o, x, y)
				return
			}
			k.Eval(1)
			k.State(1)
			k.Trans(2)
		}
		for p := range d.P {
			if a, b := d.P[p].Image(), l.P[p].Image(); !bytes.Equal(a, b) {
				k.Failf("user %d ends with other stored bytes: %s", p, diffImage(a, b))
				return
			}
		}
		k.Trace(1)
	})
}

// ---------------------------------------------------------------- G07

// refSender is a sender implemented after the specification.
type refSender struct {
	ID, Iter uint32
	Chain    []byte
	Sign     ref.KeyPair
}

var refIDs = []uint32{0, 1, 127, 128, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func (w *GW) refCreate(n int, rotate bool) []byte {
	s := w.Refs[n]
	if s == nil || rotate {
		j := w.M.NKey[n]
		id := uint32(1000 + 17*n + j)
		if w.Cfg.RefIDs != nil {
			id = w.Cfg.RefIDs[(n+j)%len(w.Cfg.RefIDs)]
		}
		seed := sum([]byte(fmt.Sprint("reference chain ", n, j)))
		s = &refSender{ID: id, Chain: append([]byte{}, seed[:]...), Sign: refKey(5000 + 100*n + j)}
		w.Refs = cp(w.Refs)
		w.Refs[n] = s
	}
	d := jsonSKD{s.ID, s.Iter, s.Chain, ref.Pub33(s.Sign.Pub), 3}
	if !w.Cfg.JSON {
		d.Version = '3'
	}
	return d.join(w.Cfg.JSON)
}

func (w *GW) refEncrypt(n int, plain []byte) []byte {
	s := *w.Refs[n]
	iv, ck := ref.GroupKeys(s.Chain)
	m := jsonSKM{ID: s.ID, Iteration: s.Iter, CipherText: ref.CBCEncrypt(ck, iv, plain), Version: 3}
	if !w.Cfg.JSON {
		m.Version = '3'
	}
	sg := ref.Sign(s.Sign.Priv, m.signed(w.Cfg.JSON), []byte(fmt.Sprint(n, s.Iter)))
	m.Signature = sg[:]
	s.Iter++
	s.Chain = ref.NextChain(s.Chain)
	w.Refs = cp(w.Refs)
	w.Refs[n] = &s
	return m.join(w.Cfg.JSON)
}

// sameSKM: the same contents, and for the binary form the same bytes.
func sameSKM(x *jsonSKM, wire []byte, js bool) bool {
	if !js {
		return bytes.Equal(x.join(false), wire)
	}
	y, ok := parseSKM(wire, js)
	return ok && fmt.Sprint(*x) == fmt.Sprint(*y)
}

// specified compares everything the library sent with what the specification says.
func (w *GW) specified() (fs []Finding) {
	bad := func(f string, a ...interface{}) { fs = append(fs, Finding{"spec", fmt.Sprintf(f, a...)}) }
	for n := range w.Cfg.Names {
		if w.Cfg.RefSend {
			continue
		}
		for i, m := range w.M.Msgs[n] {
			k := w.Keys[[2]int{n, m.Key}]
			if k == nil || !w.in(n, i) {
				continue
			}
			ch, _ := chainAt(k, m.Iter)
			if ch == nil {
				continue
			}
			iv, ck := ref.GroupKeys(ch)
			x := jsonSKM{ID: k.ID, Iteration: uint32(m.Iter), CipherText: ref.CBCEncrypt(ck, iv, w.Msgs[n][i].Plain), Version: 3}
			if !w.Cfg.JSON {
				x.Version = '3'
			}
			got, ok := parseSKM(w.Msgs[n][i].Wire, w.Cfg.JSON)
			if !ok || len(got.Signature) != 64 {
				bad("message %d of sender %d cannot be parsed", i, n)
				continue
			}
			x.Signature = got.Signature
			if !sameSKM(&x, w.Msgs[n][i].Wire, w.Cfg.JSON) {
				bad("message %d of sender %d is %x, not %x", i, n, w.Msgs[n][i].Wire, x.join(w.Cfg.JSON))
				continue
			}
			var sg [64]byte
			copy(sg[:], got.Signature)
			if !ref.Verify(ref.Unpub(k.Sign), got.signed(w.Cfg.JSON), sg) {
				bad("the signature of message %d of sender %d does not verify", i, n)
			}
		}
		for i, d := range w.M.Dists[n] {
			k := w.Keys[[2]int{n, d.Key}]
			ch, _ := chainAt(k, d.Iter)
			if ch == nil || w.Focus != nil && i > 1 && i < len(w.M.Dists[n])-3 {
				continue
			}
			// the chain key must follow from every earlier one
			for it, x := range k.Chain {
				if it > d.Iter {
					continue
				}
				y := []byte(x)
				for ; it < d.Iter; it++ {
					y = ref.NextChain(y)
				}
				if !bytes.Equal(y, ch) {
					bad("the chain key of iteration %d does not follow from an earlier one", d.Iter)
				}
			}
			x := jsonSKD{k.ID, uint32(d.Iter), ch, k.Sign, 3}
			if !w.Cfg.JSON {
				x.Version = '3'
			}
			if y, ok := parseSKD(w.Dists[n][i].Wire, w.Cfg.JSON); !ok || fmt.Sprint(*y) != fmt.Sprint(x) || !w.Cfg.JSON && !bytes.Equal(x.join(false), w.Dists[n][i].Wire) {
				bad("distribution message %d of sender %d is %x, not %x", i, n, w.Dists[n][i].Wire, x.join(w.Cfg.JSON))
			}
		}
	}
	return
}

func checkG07(c *Ctx) {
	c.Rule(ruleG + " In one half of the scenarios the sender is an independent implementation written from the specification (sender chain, message keys, XEdDSA signature, protobuf), whose messages the library must understand in every history; in the other half every byte the library sends must be what that implementation computes, and its signatures must verify there.")
	q := c.Q
	var run []func()
	add := func(cfg *GCfg, depth int) {
		cfg.Each = func(w *GW) []Finding { return w.specified() }
		run = append(run, func() {
			exploreGroups(c, cfg, depth, q(6000, 300000), q(150, 3000), classes("spec", "iter", "wire", "lost", "send", "key"), func(w *GW) []Finding { return w.specifiedOnce() })
		})
	}
	for _, js := range []bool{false, true} {
		t := fmt.Sprint("-json=", js)
		r := grp("reference-sends"+t, js, 1, q(5, 7), q(2, 3), 0)
		r.RefSend = true
		add(r, 40)
		r2 := grp("reference-rotates"+t, js, 1, q(3, 4), 1, q(2, 3))
		r2.RefSend, r2.RefIDs = true, refIDs
		add(r2, 40)
		add(grp("library-sends"+t, js, 1, q(5, 7), q(2, 3), 0), 40)
		add(grp("library-rotates"+t, js, 1, q(3, 4), 1, 2), 40)
	}
	run = append(run, func() {
		g07Values(c)
		g07Long(c)
		gRichPlain(c, true, classes("spec", "iter", "wire", "lost", "send", "key"))
	})
	c.Par(run...)
}

// specifiedOnce looks at the newest messages only (states are reached one by one).
func (w *GW) specifiedOnce() []Finding {
	if len(w.Hist) > 0 {
		switch w.Hist[len(w.Hist)-1].K {
		case 'S', 'C', 'K':
		default:
			return nil
		}
	}
	return w.specified()
}

// g07Values: iterations, ids and payload lengths at the edges, from a reference sender
// and from a library sender whose state starts elsewhere.
func g07Values(c *Ctx) {
	its := []uint32{0, 1, 127, 128, 16383, 16384, 1<<21 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 3}
	c.Each("values", len(its)*len(refIDs)*2, func(i int) string {
		return fmt.Sprintf("iteration %d id %d json %v", its[i/2/len(refIDs)], refIDs[i/2%len(refIDs)], i%2 == 1)
	}, func(k *Case, i int) {
		js := i%2 == 1
		cfg := grp("values", js, 1, 0, 1, 0)
		cfg.RefSend = true
		w := newGW(cfg, false)
		w.refCreate(0, false)
		w.Refs[0].ID, w.Refs[0].Iter = refIDs[i/2%len(refIDs)], its[i/2/len(refIDs)]
		d := w.refCreate(0, false)
		st := &Store{P: w.P[1], Ser: w.Ser}
		if r := st.GProcess(w.gname(0), d); !r.OK() {
			k.Failf("a distribution message is not understood: %v", r)
			return
		}
		var wires, pls [][]byte
		for j := 0; j < 3; j++ {
			pls = append(pls, gPayload(i, j+i))
			wires = append(wires, w.refEncrypt(0, pls[j]))
		}
		for _, j := range []int{1, 0, 2} {
			if r := st.GDecrypt(w.gname(0), wires[j]); !r.OK() || !bytes.Equal(r.Plain, pls[j]) {
				k.Failf("message %d is not understood: %v", j, r)
				return
			}
			k.Trans(1)
		}
		k.State(1)
		k.Trace(1)
		k.Eval1("ok")
	})
}

// g06Giant: sender key records as large as they get.
func g06Giant(c *Ctx) {
	type cse struct{ keys, skipped int }
	cs := []cse{{1, 2000}, {10, 2000}, {2000, 5}, {2000, c.Q(20, 200)}}
	c.Each("giant", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		ser := serializer(false)
		r := emptySK(ser)
		add := func(s *grecord.SenderKeyState, n int) {
			for j := 0; j < x.skipped; j++ {
				b := sha256.Sum256([]byte(fmt.Sprint(n, j)))
				mk, err := gratchet.NewSenderMessageKey(uint32(j), b[:])
				if err != nil {
					k.Failf("%+v: %v", x, err)
					return
				}
				s.AddSenderMessageKey(mk)
			}
			s.SetSenderChainKey(gratchet.NewSenderChainKey(uint32(x.skipped), bytes.Repeat([]byte{byte(n)}, 32)))
		}
		for n := 0; n < x.keys; n++ {
			r.AddSenderKeyState(uint32(n), 0, make([]byte, 32), ecc.NewDjbECPublicKey(refKey(n%50).Pub))
			s, err := r.GetSenderKeyStateByID(uint32(n))
			if err != nil {
				k.Failf("%+v: key %d: %v", x, n, err)
				return
			}
			add(s, n)
		}
		b := r.Serialize()
		l, err := grecord.NewSenderKeyFromBytes(b, ser.SenderKeyRecord, ser.SenderKeyState)
		if err != nil {
			k.Failf("%+v: a record of %d bytes cannot be loaded: %v", x, len(b), err)
			return
		}
		if !bytes.Equal(l.Serialize(), b) {
			k.Failf("%+v: other bytes after loading", x)
			return
		}
		for n := 0; n < x.keys; n += 1 + x.keys/40 {
			s, err := r.GetSenderKeyStateByID(uint32(n))
			s2, err2 := l.GetSenderKeyStateByID(uint32(n))
			if err != nil || err2 != nil {
				k.Failf("%+v: key %d: %v, after loading %v", x, n, err, err2)
				return
			}
			if s.SenderChainKey().Iteration() != s2.SenderChainKey().Iteration() || !bytes.Equal(s.SenderChainKey().Seed(), s2.SenderChainKey().Seed()) ||
				s.SigningKey().PublicKey().PublicKey() != s2.SigningKey().PublicKey().PublicKey() || s2.SigningKey().PrivateKey() != nil {
				k.Failf("%+v: key %d: other chain or signing key after loading", x, n)
				return
			}
			for j := 0; j <= x.skipped; j += 1 + x.skipped/15 {
				if s.HasSenderMessageKey(uint32(j)) != s2.HasSenderMessageKey(uint32(j)) {
					k.Failf("%+v: key %d: message key %d is there only before or after loading", x, n, j)
					return
				}
				if j < x.skipped && !s2.HasSenderMessageKey(uint32(j)) {
					k.Failf("%+v: key %d: message key %d is not kept", x, n, j)
					return
				}
			}
		}
		k.Eval1(fmt.Sprint(len(b) >> 20))
		k.Trace(1)
	})
}
