package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math"
	"strings"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// S10: storing and reloading records is never observable.

func init() { register("S10", "model_checking", checkS10) }

// seenOp is what an operation showed to the outside.
type seenOp struct {
	OK          bool
	Plain, Wire []byte
	Type        uint32
}

func (a seenOp) eq(b seenOp) bool {
	return a.OK == b.OK && bytes.Equal(a.Plain, b.Plain) && bytes.Equal(a.Wire, b.Wire) && a.Type == b.Type
}

func (a seenOp) String() string {
	return fmt.Sprintf("ok=%v type=%d wire=%d bytes plain=%q", a.OK, a.Type, len(a.Wire), a.Plain)
}

// transcript executes a path: with stores of bytes (live false), or of objects, which
// are reloaded after step at (-1: never, -2: after every step).
func transcript(cfg *SessCfg, path []SOp, live bool, at int) (out []seenOp, imgs [][]byte, err string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case reloadErr:
				err = x.s
			case setupErr:
				err = x.Error()
			default:
				panic(e)
			}
		}
	}()
	w := newSW(cfg, live)
	for i, o := range path {
		w.Do(o)
		var s seenOp
		if w.Last != nil {
			s = seenOp{w.Last.OK(), w.Last.Plain, w.Last.Wire, w.Last.Type}
		}
		out = append(out, s)
		if live && (at == -2 || at == i) {
			for j := range w.P {
				w.Do(SOp{'R', j, 0, 0})
			}
		}
	}
	for _, p := range w.P {
		imgs = append(imgs, append([]byte{}, p.Image()...))
	}
	return
}

// compareModes executes a path in every store mode; any difference is a finding.
func compareModes(cfg *SessCfg, path []SOp, n *int) []Finding {
	// at the end everything is presented once more
	path = path[:len(path):len(path)]
	sent := map[[2]int]int{}
	for _, o := range append(append([]SOp{}, cfg.Setup...), path...) {
		if o.K == 'S' {
			path = append(path, SOp{'D', o.A, o.B, sent[[2]int{o.A, o.B}]})
			sent[[2]int{o.A, o.B}]++
		}
	}
	ref, imgs, e := transcript(cfg, path, true, -1)
	if e != "" {
		return []Finding{{"reload", e}}
	}
	cmp := func(what string, live bool, at int) []Finding {
		*n++
		t, im, e := transcript(cfg, path, live, at)
		if e != "" {
			return []Finding{{"reload", what + ": " + e}}
		}
		for i := range ref {
			if i >= len(t) || !ref[i].eq(t[i]) {
				return []Finding{{"reload", fmt.Sprintf("%s: %v gives %v, but %v with records kept in memory", what, path[i], t[i], ref[i])}}
			}
		}
		for i := range imgs {
			if !bytes.Equal(imgs[i], im[i]) {
				return []Finding{{"reload", fmt.Sprintf("%s: user %d ends with other stored bytes: %s", what, i, diffImage(imgs[i], im[i]))}}
			}
		}
		return nil
	}
	if fs := cmp("records reloaded for every operation", false, 0); fs != nil {
		return fs
	}
	for k := range path {
		if fs := cmp(fmt.Sprintf("records reloaded after step %d", k), true, k); fs != nil {
			return fs
		}
	}
	return nil
}

// ratchetsOf lists the ratchet keys and counters of all messages sent so far.
func (w *SW) ratchetsOf() (keys []ecc.ECPublicKeyable, ctrs map[string][]uint32) {
	ctrs = map[string][]uint32{}
	for _, m := range w.Msgs {
		h, ok := parseHdr(m.Wire, m.Type, w.Cfg.JSON)
		if !ok {
			continue
		}
		if ctrs[string(h.Ratchet)] == nil {
			if k, err := ecc.DecodePoint(h.Ratchet, 0); err == nil {
				keys = append(keys, k)
			}
		}
		ctrs[string(h.Ratchet)] = append(ctrs[string(h.Ratchet)], h.Ctr)
	}
	return
}

// accState renders everything a state's accessors show.
func accState(s *record.State, keys []ecc.ECPublicKeyable, ctrs map[string][]uint32) map[string]string {
	m := map[string]string{}
	if s == nil || !s.HasSenderChain() {
		m["empty"] = "yes"
		return m
	}
	m["version"] = fmt.Sprint(s.Version())
	m["remote identity"] = fmt.Sprintf("%x", s.RemoteIdentityKey().Serialize())
	m["local identity"] = fmt.Sprintf("%x", s.LocalIdentityKey().Serialize())
	m["base key"] = fmt.Sprintf("%x", s.SenderBaseKey())
	m["previous counter"] = fmt.Sprint(s.PreviousCounter())
	m["root key"] = fmt.Sprintf("%x", s.RootKey().Bytes())
	m["registration ids"] = fmt.Sprint(s.LocalRegistrationID(), s.RemoteRegistrationID())
	pk := s.SenderRatchetKeyPair()
	m["sender ratchet"] = fmt.Sprintf("%x %x", pk.PublicKey().Serialize(), pk.PrivateKey().Serialize())
	m["sender chain"] = fmt.Sprint(s.SenderChainKey().Index(), s.SenderChainKey().Key())
	m["pending"] = fmt.Sprint(s.HasUnacknowledgedPreKeyMessage())
	if s.HasUnacknowledgedPreKeyMessage() {
		it, err := s.UnackPreKeyMessageItems()
		if err != nil {
			m["pending items"] = "error " + err.Error()
		} else {
			id := "none"
			if it.PreKeyID() != nil && !it.PreKeyID().IsEmpty {
				id = fmt.Sprint(it.PreKeyID().Value)
			}
			m["pending items"] = fmt.Sprintf("%s %d %x", id, it.SignedPreKeyID(), it.BaseKey().Serialize())
		}
	}
	m["key exchange"] = fmt.Sprint(s.HasPendingKeyExchange())
	if s.HasPendingKeyExchange() {
		kp := func(k *ecc.ECKeyPair) string {
			return fmt.Sprintf("%x %x", k.PublicKey().Serialize(), k.PrivateKey().Serialize())
		}
		ik := s.PendingKeyExchangeIdentityKeyPair()
		m["key exchange items"] = fmt.Sprint(s.PendingKeyExchangeSequence(), kp(s.PendingKeyExchangeBaseKeyPair()), kp(s.PendingKeyExchangeRatchetKeyPair()),
			ik.PublicKey().Serialize(), ik.PrivateKey().Serialize())
	}
	for _, k := range keys {
		if !s.HasReceiverChain(k) {
			m[fmt.Sprintf("chain %x", k.Serialize())] = "none"
			continue
		}
		ck := s.ReceiverChainKey(k)
		m[fmt.Sprintf("chain %x", k.Serialize())] = fmt.Sprint(ck.Index(), ck.Key())
		for _, c := range ctrs[string(k.Serialize())] {
			m[fmt.Sprintf("message key %x %d", k.Serialize(), c)] = fmt.Sprint(s.HasMessageKeys(k, c))
		}
	}
	return m
}

func accRecord(r *record.Session, keys []ecc.ECPublicKeyable, ctrs map[string][]uint32) map[string]string {
	m := map[string]string{"fresh": fmt.Sprint(r.IsFresh())}
	add := func(p string, s *record.State) {
		for k, v := range accState(s, keys, ctrs) {
			m[p+k] = v
		}
	}
	add("current: ", r.SessionState())
	m["archived"] = fmt.Sprint(len(r.PreviousSessionStates()))
	for i, s := range r.PreviousSessionStates() {
		add(fmt.Sprintf("archived %d: ", i), s)
	}
	return m
}

func diffAcc(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v && k != "fresh" {
			return fmt.Sprintf("%s is %q after loading, was %q", k, b[k], v)
		}
	}
	return ""
}

// reloadsEqual checks the records of a live world against their reloaded forms.
func (w *SW) reloadsEqual() (fs []Finding) {
	bad := func(f string, a ...interface{}) {
		fs = append(fs, Finding{"reload", fmt.Sprintf(f, a...)})
	}
	keys, ctrs := w.ratchetsOf()
	for i, p := range w.P {
		for a, r := range p.LSess {
			if r.SessionState() == nil || !r.SessionState().HasSenderChain() {
				continue
			}
			x := r.Serialize()
			if !bytes.Equal(x, r.Serialize()) {
				bad("serializing the session of user %d twice gives different bytes", i)
			}
			n := mustSession(x, w.Ser)
			if y := n.Serialize(); !bytes.Equal(x, y) {
				bad("the session of user %d with %v serializes to other bytes after loading", i, a)
			}
			if d := diffAcc(accRecord(r, keys, ctrs), accRecord(n, keys, ctrs)); d != "" {
				bad("session of user %d with %v: %s", i, a, d)
			}
			if d := diffAcc(accRecord(r, keys, ctrs), accRecord(r.Copy(), keys, ctrs)); d != "" {
				bad("session of user %d with %v, copied: %s", i, a, d)
			}
			// single states
			for _, s := range append([]*record.State{r.SessionState()}, r.PreviousSessionStates()...) {
				sb := s.Serialize()
				ns, err := record.NewStateFromBytes(sb, w.Ser.State)
				if err != nil {
					bad("a state of user %d does not load: %v", i, err)
					continue
				}
				if !bytes.Equal(ns.Serialize(), sb) {
					bad("a state of user %d serializes to other bytes after loading", i)
				}
				if d := diffAcc(accState(s, keys, ctrs), accState(ns, keys, ctrs)); d != "" {
					bad("state of user %d: %s", i, d)
				}
				one := record.NewSessionFromState(ns, w.Ser.Session).Serialize()
				if y := mustSession(one, w.Ser); !bytes.Equal(y.SessionState().Serialize(), sb) || len(y.PreviousSessionStates()) != 0 || !bytes.Equal(y.Serialize(), one) {
					bad("a record made of a state of user %d has another state after loading", i)
				}
			}
		}
	}
	return
}

func checkS10(c *Ctx) {
	c.Rule("Histories are enumerated breadth first with stores that keep bytes only, so every operation works on freshly loaded records; a disagreement with the model counts when the same history agrees with the model on records that are kept in memory. Every root-to-leaf path is then executed with records kept in memory, with reloading for every operation and with one reload after each of its steps; results, messages and final stored bytes must be the same. In every state of these executions every record is serialized and loaded, and bytes and all accessors are compared. Prekey records and pending information are enumerated over boundary values of their fields.")
	q := c.Q
	ex := func(cfg *SessCfg, d, max, live int) {
		cfg.Redeliver, cfg.Inner, cfg.Header = true, true, true
		durable := func(w *SW, fs []Finding, hist []SOp) []Finding {
			if len(fs) == 0 {
				return nil
			}
			l := newSW(cfg, true)
			for _, o := range hist {
				if lf := l.Do(o); len(lf) > 0 {
					return fs // fails in memory as well: not about reloading
				}
			}
			return []Finding{{"reload", fmt.Sprintf("only with reloaded records: %v", fs)}}
		}
		Explore(c, System[*SW, SOp]{
			Name: cfg.Name,
			Init: func() (w *SW) {
				defer func() {
					if e := recover(); e != nil {
						se, ok := e.(setupErr)
						if !ok {
							panic(e)
						}
						func() {
							defer func() { recover() }()
							newSW(cfg, true)
							se = setupErr{se.op, []Finding{{"reload", fmt.Sprintf("only with reloaded records: %v", se.fs)}}}
						}()
						panic(se)
					}
				}()
				return newSW(cfg, false)
			},
			Ops: func(w *SW) []SOp { return w.Ops() },
			Apply: func(w *SW, o SOp) (*SW, []Finding) {
				n, fs := w.Apply(o)
				return n, durable(n, fs, n.Hist)
			},
			Key: func(w *SW) [32]byte { return w.Key() },
			Visit: func(w *SW) (fs []Finding) {
				for i, p := range w.P {
					for a, b := range p.Sess {
						if !bytes.Equal(mustSession(b, w.Ser).Serialize(), b) {
							fs = append(fs, Finding{"reload", fmt.Sprintf("session of user %d with %v serializes to other bytes after loading", i, a)})
						}
					}
				}
				return
			},
			Live: func(path []SOp) []Finding {
				w := newSW(cfg, true)
				for _, o := range path {
					if fs := w.Do(o); len(fs) > 0 {
						return fs
					}
					if fs := w.reloadsEqual(); len(fs) > 0 {
						return fs
					}
				}
				n := 0
				fs := compareModes(cfg, path, &n)
				k := Case{c: c}
				k.Eval(n)
				return fs
			},
			Classes: classes("reload"), Depth: d, Max: max, MaxLive: live,
		})
	}
	ex(two("opk", false, plan(0, 1, 1), 4, q(3, 4)), 30, q(6000, 200000), q(500, 10000))
	ex(odd(two("no-opk-json", true, plan(0, 1, -1), 3, 2)), 30, q(3000, 100000), q(250, 5000))
	ex(two("opk0", false, plan(0, 1, 0), 2, 2), 30, q(2000, 100000), q(150, 5000))
	ex(odd(two("again", false, plan(0, 1, lastResort, -1), 2, q(1, 2))), 30, q(4000, 200000), q(250, 5000))
	ex(two("both", true, plans(plan(0, 1, 1), plan(1, 0, 0)), 2, q(1, 2)), 30, q(4000, 200000), q(250, 5000))
	ex(own(two("own", true, plans(plan(0, 1, 1), plan(1, 0, -1)), q(1, 2), 1)), 30, q(1000, 100000), q(100, 5000))
	gap := two("gaps", false, plan(0, 1, 1), 0, 0)
	gap.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2})
	gap.MaxSend = sends(0, 1, q(5, 6), 1, 0, 2)
	ex(gap, 30, q(3000, 100000), q(200, 5000))
	s10Records(c)
	s10Big(c)
	s10Giant(c)
	s10Long(c)
	richReload(c)
}

// s10Records: prekey records and pending information over their boundary values.
func s10Records(c *Ctx) {
	ids := []uint32{0, 1, 127, 128, 0xFFFFFE, lastResort, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}
	times := []int64{0, 1, -1, 1234567890, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}
	kp := func(i int) *ecc.ECKeyPair { return keypair(&Rng{Seed: fmt.Sprint("rec", i)}) }
	c.Each("prekey-records", len(ids)*2, func(i int) string { return fmt.Sprintf("id %d json %v", ids[i/2], i%2 == 1) }, func(k *Case, i int) {
		ser := serializer(i%2 == 1)
		id := ids[i/2]
		p := kp(i)
		r := record.NewPreKey(id, p, ser.PreKeyRecord)
		b := append([]byte{}, r.Serialize()...)
		n, err := record.NewPreKeyFromBytes(append([]byte{}, b...), ser.PreKeyRecord)
		if err != nil {
			k.Failf("a prekey record does not load: %v", err)
			return
		}
		for _, x := range []*record.PreKey{r, n} {
			if x.ID() == nil || x.ID().IsEmpty || x.ID().Value != id {
				k.Failf("id of the prekey record")
			}
			if x.KeyPair().PrivateKey().Serialize() != p.PrivateKey().Serialize() || !bytes.Equal(x.KeyPair().PublicKey().Serialize(), p.PublicKey().Serialize()) {
				k.Failf("key pair of the prekey record")
			}
			if !bytes.Equal(x.Serialize(), b) {
				k.Failf("the prekey record serializes to other bytes after loading")
			}
		}
		k.Eval1(fmt.Sprint(id))
		k.Trace(1)
	})
	c.Each("signed-prekey-records", len(ids)*len(times)*2, func(i int) string {
		return fmt.Sprintf("id %d time %d json %v", ids[i/2%len(ids)], times[i/2/len(ids)], i%2 == 1)
	}, func(k *Case, i int) {
		ser := serializer(i%2 == 1)
		id, tm := ids[i/2%len(ids)], times[i/2/len(ids)]
		p := kp(i)
		var sig [64]byte
		for j := range sig {
			sig[j] = byte(j*5 + i)
		}
		r := record.NewSignedPreKey(id, tm, p, sig, ser.SignedPreKeyRecord)
		b := append([]byte{}, r.Serialize()...)
		n, err := record.NewSignedPreKeyFromBytes(append([]byte{}, b...), ser.SignedPreKeyRecord)
		if err != nil {
			k.Failf("a signed prekey record does not load: %v", err)
			return
		}
		for _, x := range []*record.SignedPreKey{r, n} {
			if x.ID() != id {
				k.Failf("id of the signed prekey record")
			}
			if x.Timestamp() != tm {
				k.Failf("timestamp of the signed prekey record")
			}
			if x.Signature() != sig {
				k.Failf("signature of the signed prekey record")
			}
			if x.KeyPair().PrivateKey().Serialize() != p.PrivateKey().Serialize() || !bytes.Equal(x.KeyPair().PublicKey().Serialize(), p.PublicKey().Serialize()) {
				k.Failf("key pair of the signed prekey record")
			}
			if !bytes.Equal(x.Serialize(), b) {
				k.Failf("the signed prekey record serializes to other bytes after loading")
			}
		}
		k.Eval1(fmt.Sprint(id, tm))
		k.Trace(1)
	})
	// states with boundary values, pending key exchanges and pending prekeys
	base, ok := Setup(c, "states", classes("reload"), func() *SW {
		cfg := two("states-base", false, plan(0, 1, 1), 0, 0)
		cfg.Setup = established()
		return newSW(cfg, true)
	})
	if !ok {
		return
	}
	opks := []int64{-1, 0, 1, 0xFFFFFE, lastResort, 0xffffffff}
	type cse struct {
		opk  int64
		id   uint32
		what string
	}
	var cs []cse
	for _, w := range []string{"pending prekey", "key exchange", "registration", "previous counter"} {
		for _, id := range ids {
			if w != "pending prekey" {
				cs = append(cs, cse{0, id, w})
				continue
			}
			for _, o := range opks {
				cs = append(cs, cse{o, id, w})
			}
		}
	}
	raw := func() []byte { base.P[0].Sync(); return base.P[0].Sess[bob] }()
	c.Each("states", len(cs), func(i int) string { return fmt.Sprint(cs[i]) }, func(k *Case, i int) {
		r := mustSession(raw, base.Ser)
		s := r.SessionState()
		x := cs[i]
		switch x.what {
		case "pending prekey":
			s.SetUnacknowledgedPreKeyMessage(optOf(x.opk), x.id, kp(i).PublicKey())
		case "key exchange":
			ik := identityPair("kx")
			s.SetPendingKeyExchange(x.id, kp(i), kp(i+1000), identity.NewKeyPair(ik.PublicKey(), ik.PrivateKey()))
		case "registration":
			s.SetLocalRegistrationID(x.id)
			s.SetRemoteRegistrationID(x.id ^ 5)
		case "previous counter":
			s.SetPreviousCounter(x.id)
		}
		a := accRecord(r, nil, nil)
		b := r.Serialize()
		n := mustSession(b, base.Ser)
		if !bytes.Equal(n.Serialize(), b) {
			k.Failf("%v: other bytes after loading", x)
		}
		if d := diffAcc(a, accRecord(n, nil, nil)); d != "" {
			k.Failf("%v: %s", x, d)
		}
		k.Eval1(fmt.Sprint(x))
		k.Trace(1)
	})
}

// s10Big: records at the limits, and with shifted counters.
func s10Big(c *Ctx) {
	c.Each("big", c.Q(4, 6), func(i int) string { return fmt.Sprint(i) }, func(k *Case, i int) {
		cfg := two(fmt.Sprint("big", i), i%2 == 1, nil, 0, 0)
		var ops []SOp
		switch i {
		case 0, 1: // many archived sessions
			for j := 0; j < 44; j++ {
				ops = append(ops, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, j})
			}
			cfg.Plan = map[[2]int][]int64{{0, 1}: make([]int64, 44)}
			for j := range cfg.Plan[[2]int{0, 1}] {
				cfg.Plan[[2]int{0, 1}][j] = -1
			}
			ops = append(ops, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 0}, SOp{'D', 0, 1, 0}, SOp{'D', 0, 1, 20})
		case 2, 3: // many skipped messages
			cfg.Plan = plan(0, 1, 1)
			ops = established()
			n := 2100
			for j := 0; j <= n; j++ {
				ops = append(ops, SOp{'S', 0, 1, 0})
			}
			ops = append(ops, SOp{'D', 0, 1, n + 1}, SOp{'D', 0, 1, 1}, SOp{'D', 0, 1, 150}, SOp{'D', 0, 1, 2000}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 1})
		default: // many chains
			cfg.Plan = plan(0, 1, 1)
			ops = established()
			for j := 0; j < 12; j++ {
				ops = append(ops, SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2 + 2*j}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, 2 + 2*j})
			}
			ops = append(ops, SOp{'D', 0, 1, 1}, SOp{'D', 0, 1, 21}, SOp{'D', 1, 0, 19})
		}
		// durable and live side by side
		var d, l *SW
		d, l = newSW(cfg, false), newSW(cfg, true)
		d.quick, l.quick = true, true
		for j, o := range ops {
			d.Do(o)
			l.Do(o)
			if i >= 2 && i < 4 && o.K == 'S' && j%50 != 0 {
				// the sender's record changes by one chain step only
			}
			if (d.Last == nil) != (l.Last == nil) {
				k.Failf("step %d (%v) differs", j, o)
				return
			}
			if d.Last == nil {
				continue
			}
			x, y := seenOp{d.Last.OK(), d.Last.Plain, d.Last.Wire, d.Last.Type}, seenOp{l.Last.OK(), l.Last.Plain, l.Last.Wire, l.Last.Type}
			if !x.eq(y) {
				k.Failf("step %d (%v) gives %v with reloaded records, %v with records in memory", j, o, x, y)
				return
			}
			k.Eval(1)
		}
		for p := range d.P {
			if a, b := d.P[p].Image(), l.P[p].Image(); !bytes.Equal(a, b) {
				k.Failf("user %d ends with other stored bytes: %s", p, diffImage(a, b))
				return
			}
		}
		l.quick = false
		if fs := l.reloadsEqual(); len(fs) > 0 {
			k.Failf("%v", fs)
		}
		k.Trace(1)
	})
}

var _ = strings.Join

// s10Giant: records as large as they get: all chains full of skipped messages, in
// the current session and in archived ones.
func s10Giant(c *Ctx) {
	cfg := two("giant", false, plan(0, 1, 1), 0, 0)
	cfg.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 1})
	base, ok := Setup(c, "giant", classes("reload"), func() *SW { return newSW(cfg, false) })
	if !ok {
		return
	}
	raw := base.P[1].Sess[alice]
	type cse struct{ chains, skipped, archived int }
	cs := []cse{{1, 2000, 0}, {5, 2000, 0}, {5, 2000, 2}, {3, 500, 40}, {5, 2000, c.Q(5, 40)}}
	ch := func(n int) *chain.Key {
		return chain.NewKey(kdf.DeriveSecrets, bytes.Repeat([]byte{byte(n), byte(n >> 8)}, 16), uint32(n))
	}
	c.Each("giant", len(cs), func(i int) string { return fmt.Sprintf("%+v", cs[i]) }, func(k *Case, i int) {
		x := cs[i]
		keys, ctrs := []ecc.ECPublicKeyable{}, map[string][]uint32{}
		for j := 0; j < x.chains; j++ {
			keys = append(keys, ecc.NewDjbECPublicKey(refKey(7000+j).Pub))
			for n := 0; n < x.skipped; n += 1 + x.skipped/7 {
				ctrs[string(keys[j].Serialize())] = append(ctrs[string(keys[j].Serialize())], uint32(n+1))
			}
		}
		fill := func(s *record.State, at int) {
			for j := range keys {
				s.AddReceiverChain(keys[j], ch(at+j))
				for n := 1; n <= x.skipped; n++ {
					b := sha256.Sum256([]byte(fmt.Sprint(at, j, n)))
					s.SetMessageKeys(keys[j], message.NewKeys(b[:], b[:], b[:16], uint32(n)))
				}
			}
		}
		r := mustSession(raw, base.Ser)
		var old []*record.State
		for a := 0; a < x.archived; a++ {
			s := mustSession(raw, base.Ser).SessionState()
			fill(s, 100+10*a)
			old = append(old, s)
		}
		r.SetPreviousSessionStates(old)
		fill(r.SessionState(), 1)
		b := r.Serialize()
		n, err := record.NewSessionFromBytes(b, base.Ser.Session, base.Ser.State)
		if err != nil {
			k.Failf("%+v: a record of %d bytes cannot be loaded: %v", x, len(b), err)
			return
		}
		if !bytes.Equal(n.Serialize(), b) {
			k.Failf("%+v: other bytes after loading", x)
			return
		}
		if d := diffAcc(accRecord(r, keys, ctrs), accRecord(n, keys, ctrs)); d != "" {
			k.Failf("%+v: %s", x, d)
			return
		}
		k.Eval1(fmt.Sprint(len(b) >> 20))
		k.Trace(1)
	})
}
