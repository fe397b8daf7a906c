package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"verif/mc/ref"
)

// What can be computed from what a user has stored, and recorded traffic.
//
// The harness knows every private key (it is the random source), so it derives the
// true key schedule of every session with package ref, binds it to the library by
// opening every message with it, and then decides for any set of stolen bytes which
// of the schedule's secrets follow from it (Dolev-Yao closure over roots, chains,
// message keys, DH values and private keys).

func init() {
	register("S13", "model_checking", checkS13)
	register("S14", "model_checking", checkS14)
}

// kx is the agreement a session starts with: each DH with the two keys it can be had from.
type kx struct {
	dh   []string
	keys [][2]string
	root []byte
}

// kchain is one sending chain in a session.
type kchain struct {
	parent    *kchain
	x         *kx // if parent is nil
	own, peer [32]byte
	dh        string
	rootIn    []byte
	rootOut   []byte
	chain     []byte

	mu   sync.Mutex
	keys [][]byte // chain keys
}

func (c *kchain) key(i int) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.keys) <= i {
		if len(c.keys) == 0 {
			c.keys = append(c.keys, c.chain)
		} else {
			c.keys = append(c.keys, ref.NextChain(c.keys[len(c.keys)-1]))
		}
	}
	return c.keys[i]
}

var (
	pubAtCache sync.Map // seed:offset -> [32]byte
	privCache  sync.Map // public key -> [32]byte
	chainCache sync.Map // base key, ratchet key -> *kchain
)

// privOf finds the private key of a public key in a user's random stream.
func privOf(r *Rng, pub [32]byte) (priv [32]byte, ok bool) {
	ck := r.Seed + string(pub[:])
	if v, ok := privCache.Load(ck); ok {
		return v.([32]byte), true
	}
	if r.Pos < 32 {
		return
	}
	buf := make([]byte, r.Pos)
	(&Rng{Seed: r.Seed}).Read(buf)
	odd := strings.Contains(r.Seed, "!")
	var one [32]byte
	for pass := 0; pass < 2; pass++ {
		for off := 0; off+32 <= len(buf); off++ {
			if (off%32 == 0) != (pass == 0) {
				continue
			}
			id := fmt.Sprint(r.Seed, "@", off)
			if odd { // single reads of 32 bytes give other bytes than the stream
				(&Rng{Seed: r.Seed, Pos: uint64(off)}).Read(one[:])
			} else {
				copy(one[:], buf[off:off+32])
			}
			k := ref.Clamp(one)
			var p [32]byte
			if v, ok := pubAtCache.Load(id); ok {
				p = v.([32]byte)
			} else {
				p = ref.PublicKey(k)
				pubAtCache.Store(id, p)
			}
			if p == pub {
				privCache.Store(ck, k)
				return k, true
			}
		}
	}
	return
}

func (w *SW) privRid(r Rid) (priv [32]byte, ok bool) {
	pub := w.RidK[r]
	if len(pub) != 33 {
		return
	}
	if r.N >= 1000000 {
		return mustSPre(w.P[r.P].spre(uint32(r.N-1000000)), w.Ser).KeyPair().PrivateKey().Serialize(), true
	}
	return privOf(&w.P[r.P].Rng, ref.Unpub([]byte(pub)))
}

// scheduleOf derives the chain of a message; nil if the library does not follow the
// protocol's key schedule (which is another property's subject).
func (w *SW) scheduleOf(m *SMsg) *kchain { return w.chainOf(m.Sid, m.Rid, m.RespTo, m.From, m) }

func (w *SW) chainOf(sid Sid, rid, resp Rid, owner int, m *SMsg) *kchain {
	base, own, peer := w.BaseK[sid], w.RidK[rid], w.RidK[resp]
	if len(base) != 33 || len(own) != 33 || len(peer) != 33 {
		return nil
	}
	var parent *kchain
	ck := base + own + peer
	if resp.N >= 1000000 {
		ck += fmt.Sprint(m.Opk, w.P[owner].Rng.Seed, w.P[resp.P].Rng.Seed, w.Cfg.Name)
	} else {
		// the chain that was answered
		var am *SMsg
		for _, y := range w.Msgs {
			if y.Sid == sid && y.Rid == resp {
				am = y
				break
			}
		}
		if am == nil {
			return nil
		}
		if parent = w.chainOf(sid, resp, am.RespTo, am.From, am); parent == nil {
			return nil
		}
		ck += string(parent.rootOut)
	}
	if v, ok := chainCache.Load(ck); ok {
		return v.(*kchain)
	}
	c := &kchain{parent: parent}
	var ok bool
	if c.own, ok = w.privRid(rid); !ok {
		return nil
	}
	if c.peer, ok = w.privRid(resp); !ok {
		return nil
	}
	if resp.N >= 1000000 { // the first chain of the session
		a, b := owner, resp.P
		ek, ok := privOf(&w.P[a].Rng, ref.Unpub([]byte(base)))
		if !ok {
			return nil
		}
		pa, pb := w.P[a], w.P[b]
		ika, ikb := pa.IK.PrivateKey().Serialize(), pb.IK.PrivateKey().Serialize()
		spk := c.peer
		opk, has := w.opkOf(sid, m)
		kp := func(p [32]byte) ref.KeyPair { return ref.KeyPair{Priv: p, Pub: ref.PublicKey(p)} }
		x := &kx{}
		add := func(p, q [32]byte) {
			d := ref.DH(p, ref.PublicKey(q))
			x.dh = append(x.dh, string(d[:]))
			x.keys = append(x.keys, [2]string{string(p[:]), string(q[:])})
		}
		add(ika, spk)
		add(ek, ikb)
		add(ek, spk)
		var op *[32]byte
		if has {
			add(ek, opk)
			pub := ref.PublicKey(opk)
			op = &pub
		}
		x.root, _ = ref.X3DHInitiator(kp(ika), kp(ek), ref.PublicKey(ikb), ref.PublicKey(spk), op)
		c.x, c.rootIn = x, x.root
	} else {
		c.rootIn = c.parent.rootOut
	}
	d := ref.DH(c.own, ref.Unpub([]byte(peer)))
	c.dh = string(d[:])
	c.rootOut, c.chain = ref.RootStep(c.rootIn, c.own, ref.Unpub([]byte(peer)))
	v, _ := chainCache.LoadOrStore(ck, c)
	return v.(*kchain)
}

// opkOf is the one-time prekey of a session.
func (w *SW) opkOf(sid Sid, m *SMsg) (priv [32]byte, has bool) {
	// every first-chain message of the session knows the one-time prekey it was set up with
	if m.Opk < 0 {
		return
	}
	to := m.To
	return keypair(&Rng{Seed: opkSeed(w.P[to].A, uint32(m.Opk))}).PrivateKey().Serialize(), true
}

// bound says whether the schedule's key opens the message.
func (c *kchain) bound(w *SW, m *SMsg) bool {
	h, ok := parseHdr(m.Wire, m.Type, w.Cfg.JSON)
	if !ok {
		return false
	}
	ck, _, iv := ref.MessageKeys(c.key(m.Ctr))
	pt, err := ref.CBCDecrypt(ck, iv, h.CT)
	return err == nil && bytes.Equal(pt, m.Plain)
}

// knows decides what follows from a set of 32-byte strings.
type knows map[string]bool

func (t knows) dh(d string, a, b string) bool { return t[d] || t[a] || t[b] }

func (t knows) rootIn(c *kchain) bool {
	if t[string(c.rootIn)] {
		return true
	}
	if c.parent != nil {
		return t.rootOut(c.parent)
	}
	for i, d := range c.x.dh {
		if !t.dh(d, c.x.keys[i][0], c.x.keys[i][1]) {
			return false
		}
	}
	return true
}

func (t knows) step(c *kchain) bool {
	return t.rootIn(c) && t.dh(c.dh, string(c.own[:]), string(c.peer[:]))
}

func (t knows) rootOut(c *kchain) bool { return t[string(c.rootOut)] || t.step(c) }

// opens says how a message's key can be computed; "" if it cannot.
func (t knows) opens(c *kchain, ctr int) string {
	ck, _, _ := ref.MessageKeys(c.key(ctr))
	if t[string(ck)] {
		return "its cipher key is there"
	}
	if t[string(ref.HMAC(c.key(ctr), []byte{1}))] {
		return "the seed of its keys is there"
	}
	for i := 0; i <= ctr; i++ {
		if t[string(c.key(i))] {
			return fmt.Sprintf("chain key %d is there", i)
		}
	}
	if t.step(c) {
		return "its chain follows from root keys and private keys"
	}
	return ""
}

var tokenCache sync.Map // digest -> knows
var tokenN int64

// stolen are the 32-byte strings in everything a user has stored.
func (p *Party) stolen() knows {
	p.Sync()
	img := p.Image()
	h := sum(img)
	if v, ok := tokenCache.Load(h); ok {
		return v.(knows)
	}
	t := map[string]bool{}
	for _, m := range []map[Addr][]byte{p.Sess, p.Ids} {
		for _, b := range m {
			tokens(b, t)
		}
	}
	for _, b := range p.Pre {
		tokens(b, t)
	}
	for _, b := range p.SPre {
		tokens(b, t)
	}
	for _, b := range p.SK {
		tokens(b, t)
	}
	k := p.IK.PrivateKey().Serialize()
	t[string(k[:])] = true
	if atomic.AddInt64(&tokenN, 1) > 20000 {
		tokenCache.Clear()
		atomic.StoreInt64(&tokenN, 0)
	}
	tokenCache.Store(h, knows(t))
	return t
}

// ideal is what a user has to keep according to the model.
func (w *SW) ideal(u int) (knows, bool) {
	t := knows{}
	k := w.P[u].IK.PrivateKey().Serialize()
	t[string(k[:])] = true
	s := mustSPre(w.P[u].spre(w.Cfg.Spk), w.Ser).KeyPair().PrivateKey().Serialize()
	t[string(s[:])] = true
	for id, v := range w.allOpks(u) {
		if v {
			o := keypair(&Rng{Seed: opkSeed(w.P[u].A, uint32(id))}).PrivateKey().Serialize()
			t[string(o[:])] = true
		}
	}
	return t, true
}

// givenUp says that the recipient's session has dropped what it takes to read a message.
func (m *SModel) givenUp(msg *MMsg) bool {
	r := m.rec(msg.To, msg.From)
	i := r.find(msg.Sid)
	if i < 0 {
		return false
	}
	t := &SModel{NRid: append([]int{}, m.NRid...)}
	ok, why := t.accept(r.states()[i].clone(), msg.To, msg)
	return !ok && why != "too far ahead"
}

// past are the messages whose keys a user must have forgotten.
func (w *SW) past(u int) (out []*SMsg) {
	for k, m := range w.Msgs {
		if m.From == u || m.To == u && (w.M.Deliv[k] || w.M.givenUp(&m.MMsg)) {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].Name() < out[b].Name() })
	return
}

// forward checks that what a user has stored does not open its past messages.
func (w *SW) forward(c *Ctx, u int) (fs []Finding) {
	var t, min knows
	for _, m := range w.past(u) {
		ch := w.scheduleOf(m)
		if ch == nil || !ch.bound(w, m) {
			return []Finding{{"schedule", "message " + m.Name() + " does not follow the protocol's key schedule"}}
		}
		if t == nil {
			t = w.P[u].stolen()
		}
		how := t.opens(ch, m.Ctr)
		if how == "" {
			c.Outcome("past message safe")
			continue
		}
		opk := w.sessOpk(m.Sid)
		if opk < 0 || opk == lastResort {
			// only what the prekeys that are kept open by design
			if min == nil {
				min, _ = w.ideal(u)
				if r := w.M.rec(u, m.From+m.To-u); r != nil {
					for _, s := range r.states() { // the current ratchet key is needed
						if p, ok := w.privRid(s.Cur); ok {
							min[string(p[:])] = true
						} else if q, ok := w.curPriv(u, m.From+m.To-u, s); ok {
							min[string(q[:])] = true
						}
					}
				}
			}
			if min.opens(ch, m.Ctr) != "" {
				c.Outcome("first messages without one-time prekey follow from the prekeys")
				continue
			}
		}
		fs = append(fs, Finding{"secrecy", fmt.Sprintf("what user %d has stored opens message %s again: %s", u, m.Name(), how)})
		return
	}
	return
}

// curPriv reads the current ratchet key of a session from the user's random stream: the
// newest private key there (used only to excuse sessions without one-time prekey).
func (w *SW) curPriv(u, peer int, s *MState) (priv [32]byte, ok bool) {
	rec := w.loadRec(u, peer)
	if rec == nil {
		return
	}
	st := rec.SessionState()
	if st == nil || st.SenderRatchetKeyPair() == nil {
		return
	}
	return st.SenderRatchetKeyPair().PrivateKey().Serialize(), true
}

// sessOpk is the one-time prekey id a session was set up with.
func (w *SW) sessOpk(s Sid) int64 {
	for _, m := range w.Msgs {
		if m.Sid == s && m.RespTo.N >= 1000000 {
			return m.Opk
		}
	}
	return -1
}

func checkS13(c *Ctx) {
	c.Rule(ruleBFS)
	c.Rule("In every state, for the user that acted last: all 32-byte strings in everything it has stored (and its identity key), closed under chain steps, root steps, X25519, X3DH and message key derivation; none of the keys of messages it has sent or decrypted may follow. The key schedule used is bound to the library by opening every message with it.")
	cls := classes("secrecy")
	visit := func(w *SW) []Finding {
		var fs []Finding
		for u := range w.P {
			if len(w.Hist) == 0 || w.touched(w.LastOp) == u {
				fs = append(fs, w.forward(c, u)...)
			}
		}
		return fs
	}
	ex := func(cfg *SessCfg, d int) {
		cfg.Redeliver = true
		cfg.LiveEach = visit
		exploreHdr(c, cfg, d, c.Q(8000, 200000), c.Q(300, 5000), cls, visit)
	}
	q := c.Q
	var fs []func()
	add := func(cfg *SessCfg, d int) { fs = append(fs, func() { ex(cfg, d) }) }
	add(two("opk", false, plan(0, 1, 1), 3, q(3, 4)), 30)
	add(odd(two("no-opk", true, plan(0, 1, -1), 3, q(2, 3))), 30)
	add(two("last-resort", false, plan(0, 1, lastResort), 2, 2), 30)
	add(two("again", false, plan(0, 1, 1, 2), q(3, 4), q(2, 3)), 30)
	both := two("both-set-up", true, plans(plan(0, 1, 1), plan(1, 0, 2)), 2, 2)
	add(both, q(9, 14))
	one := two("one-way", false, plan(0, 1, 1), q(5, 7), 0)
	add(one, 30)
	for _, rounds := range []int{4, 6} { // of the latter, the first chains have been dropped
		late := two(fmt.Sprintf("late-chains-%d", rounds), rounds == 6, plan(0, 1, 1), 0, 0)
		late.Setup = established()
		for i := 0; i < rounds; i++ {
			b := 1 + 2*i
			late.Setup = append(late.Setup, SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, b + 1}, SOp{'S', 1, 0, 0}, SOp{'S', 1, 0, 0}, SOp{'D', 1, 0, b + 1})
		}
		late.MaxSend = sends(0, 1, 2*rounds+2, 1, 0, 2*rounds+2)
		add(late, q(5, 9))
	}
	long := two("after-long-use", true, plan(0, 1, 2), 0, 0)
	long.Setup = pingpong(established(), 1, 8)
	long.MaxSend = sends(0, 1, 9+q(2, 4), 1, 0, 9+q(2, 3))
	add(long, q(8, 14))
	c.Par(fs...)
	s13Gaps(c)
	richSecrecy(c)
}

// exploreHdr explores with headers recorded, which the key schedule needs.
func exploreHdr(c *Ctx, cfg *SessCfg, depth, max, maxLive int, cls map[string]bool, visit func(w *SW) []Finding) {
	with := map[string]bool{"hdr": true}
	for k := range cls {
		with[k] = true
	}
	exploreSessions(c, cfg, depth, max, maxLive, with, visit)
}

// s13Gaps: large gaps, the skipped messages then arrive late.
func s13Gaps(c *Ctx) {
	cfg := two("gap-base", false, plan(0, 1, 1), 0, 0)
	cfg.Setup = established()
	cfg.Header = true
	base, ok := Setup(c, "gaps", classes("secrecy"), func() *SW { return newSW(cfg, false) })
	if !ok {
		return
	}
	gaps := []int{1, 2, 5, 20, 64, 65, 130}
	if c.Thorough {
		gaps = append(gaps, 300, 1000, 1999, 2000)
	}
	c.Each("gaps", 2*len(gaps), itoa, func(k *Case, i int) {
		g := gaps[i/2]
		var w *SW
		if i%2 == 0 {
			w = base.live()
		} else {
			w = base.Fork(0, 1)
		}
		b := w.M.NSent[[2]int{0, 1}]
		var ops []SOp
		for j := 0; j <= g; j++ {
			ops = append(ops, SOp{'S', 0, 1, 0})
		}
		ops = append(ops, SOp{'D', 0, 1, b + g})
		for j := 0; j < g && j < 70; j++ {
			ops = append(ops, SOp{'D', 0, 1, b + (j*7)%g})
		}
		done := map[int]bool{}
		for _, o := range ops {
			if o.K == 'D' {
				if done[o.I] {
					continue
				}
				done[o.I] = true
			}
			if fs := w.Do(o); len(fs) > 0 {
				return // another property's subject
			}
			k.Trans(1)
			if o.K == 'D' {
				for u := 0; u < 2; u++ {
					for _, f := range w.forward(c, u) {
						if f.Class == "secrecy" {
							k.Failf("gap %d: %s", g, f.Text)
							return
						}
					}
				}
				k.State(1)
			}
		}
		k.Trace(1)
		k.Nontrivial(1)
	})
}

// ---------------------------------------------------------------- S14

// snap is what an attacker copied from a user at some moment.
type snap struct {
	u    int
	t    knows
	nrid int
	dig  [32]byte
	name string
	thf  *Party // a copy of the user that goes on by itself, with other randomness
}

func (w *SW) snapshot(u int) {
	t := w.P[u].stolen()
	s := snap{u: u, t: t, nrid: w.M.NRid[u], dig: sum(w.P[u].Image()), name: fmt.Sprintf("user %d after %d operations", u, len(w.Hist))}
	p := *w.P[u]
	p.Live, p.LSess, p.LPre, p.LSPre, p.LSK, p.LStore = false, nil, nil, nil, nil, nil
	s.thf = p.Clone()
	for k, v := range s.thf.Sess {
		if string(v) == "(none)" {
			delete(s.thf.Sess, k)
		}
	}
	s.thf.Rng = Rng{Seed: "thief:" + fmt.Sprint(u, s.nrid)}
	w.Snaps = append(w.Snaps[:len(w.Snaps):len(w.Snaps)], s)
}

// thieves lets every copy of a user do what the user just did, with its own
// randomness: it must not come to the keys the user makes, nor open messages that
// depend on them.
func (w *SW) thieves(o SOp) (fs []Finding) {
	u := w.touched(o)
	own := false
	for i := range w.Snaps {
		if w.Snaps[i].u != u {
			continue
		}
		if !own {
			w.Snaps = append([]snap{}, w.Snaps...)
			own = true
		}
		s := &w.Snaps[i]
		s.thf = s.thf.Clone()
		st := &Store{P: s.thf, Ser: w.Ser}
		bad := func(f string, a ...interface{}) {
			fs = append(fs, Finding{"heal", fmt.Sprintf("a copy of %s with other randomness, %s: ", s.name, o) + fmt.Sprintf(f, a...)})
		}
		peer := o.A
		switch o.K {
		case 'B':
			peer = o.B
			plan := w.Cfg.Plan[[2]int{o.A, o.B}]
			nth := w.M.NBundle[[2]int{o.A, o.B}] - 1
			st.Bundle(w.addr(o.B), w.bun(o.B, plan[nth], nth))
		case 'S':
			peer = o.B
			m := w.Msgs[[3]int{o.A, o.B, w.M.NSent[[2]int{o.A, o.B}] - 1}]
			if m == nil {
				continue
			}
			if r := st.Encrypt(w.addr(o.B), append([]byte{}, m.Plain...)); r.OK() && w.healed(s, m) && bytes.Equal(r.Wire, m.Wire) {
				bad("it makes message %s itself", m.Name())
			}
		case 'D', 'P', 'I':
			m := w.Msgs[[3]int{o.A, o.B, o.I}]
			wire, pk := m.Wire, m.Type == 3
			if o.K == 'I' {
				wire, pk = innerOf(w.Ser, m.Wire), false
			}
			r := st.Receive(w.addr(o.A), wire, pk)
			if r.OK() && w.healed(s, m) {
				bad("it opens message %s", m.Name())
			}
		default:
			continue
		}
		mine, theirs := w.loadRec(u, peer), recView(nil)
		if st.ContainsSession(w.addr(peer).P()) {
			theirs = st.LoadSession(w.addr(peer).P())
		}
		mr := w.M.rec(u, peer)
		if mine == nil || theirs == nil || mr.Cur == nil {
			continue
		}
		a, b := mine.SessionState(), theirs.SessionState()
		if a == nil || b == nil || !a.HasSenderChain() || !b.HasSenderChain() {
			continue
		}
		if mr.Cur.Cur.N > s.nrid && mr.Cur.Cur.N < 1000000 {
			if x, y := a.SenderRatchetKey().Serialize(), b.SenderRatchetKey().Serialize(); bytes.Equal(x, y) {
				bad("it comes to the ratchet key %x", x)
			}
		}
		if o.K == 'B' && bytes.Equal(a.SenderBaseKey(), b.SenderBaseKey()) {
			bad("it comes to the base key %x", a.SenderBaseKey())
		}
	}
	return
}

// healed says whether a message is one that a snapshot must not open: some ratchet
// key of the user that leads to it was made after the snapshot was taken.
func (w *SW) healed(s *snap, m *SMsg) bool {
	for {
		for _, r := range []Rid{m.Rid, m.RespTo} {
			if r.P == s.u && r.N < 1000000 && r.N > s.nrid {
				return true
			}
		}
		if m.RespTo.N >= 1000000 {
			return false
		}
		var am *SMsg
		for _, y := range w.Msgs {
			if y.Sid == m.Sid && y.Rid == m.RespTo {
				am = y
				break
			}
		}
		if am == nil {
			return false
		}
		m = am
	}
}

func (w *SW) postCompromise(c *Ctx) (fs []Finding) {
	for _, m := range w.Msgs {
		var ch *kchain
		for i := range w.Snaps {
			s := &w.Snaps[i]
			if !w.healed(s, m) {
				continue
			}
			if ch == nil {
				ch = w.scheduleOf(m)
				if ch == nil || !ch.bound(w, m) {
					return []Finding{{"schedule", "message " + m.Name() + " does not follow the protocol's key schedule"}}
				}
			}
			if how := s.t.opens(ch, m.Ctr); how != "" {
				return []Finding{{"heal", fmt.Sprintf("message %s can be opened with what was copied from %s: %s", m.Name(), s.name, how)}}
			}
			c.Outcome("healed")
		}
	}
	// power: without healing the copy does open what follows
	for _, m := range w.Msgs {
		if ch := w.scheduleOf(m); ch != nil {
			for i := range w.Snaps {
				if s := &w.Snaps[i]; !w.healed(s, m) && s.t.opens(ch, m.Ctr) != "" {
					c.Outcome("before healing, a copy opens what follows")
				}
			}
		}
	}
	return
}

func checkS14(c *Ctx) {
	c.Rule(ruleBFS)
	c.Rule("A copy of everything stored is taken from each user before and after each of its operations; in every later state every message whose keys depend on a ratchet key the user made after the copy must not follow from the copy and the recorded traffic (closure as in S13), and every copy goes on by itself: it does in the library what the user does, with other randomness, and must come to none of the new ratchet and base keys and open none of those messages. States are distinguished by the copies taken. Ratchet keys on the wire are never used for two chains.")
	cls := classes("heal", "hdr")
	visit := func(w *SW) []Finding { return w.postCompromise(c) }
	ex := func(cfg *SessCfg, d int) {
		cfg.Snap = true
		cfg.LiveEach = visit
		exploreSessions(c, cfg, d, c.Q(6000, 150000), c.Q(300, 5000), cls, visit)
	}
	q := c.Q
	var fs []func()
	add := func(cfg *SessCfg, d int) { fs = append(fs, func() { ex(cfg, d) }) }
	add(two("opk", false, plan(0, 1, 1), 3, q(2, 3)), 30)
	add(two("no-opk", true, plan(0, 1, -1), 3, q(2, 3)), 30)
	add(odd(two("again", false, plan(0, 1, 1, 2), 2, q(2, 3))), 30)
	add(two("both-set-up", true, plans(plan(0, 1, 1), plan(1, 0, 2)), 2, 2), q(9, 12))
	long := two("after-long-use", true, plan(0, 1, 2), 0, 0)
	long.Setup = pingpong(established(), 1, 8)
	long.MaxSend = sends(0, 1, 9+q(2, 4), 1, 0, 9+q(2, 4))
	add(long, q(9, 14))
	// several ratchet turns
	turns := two("turns", false, plan(0, 1, 1), 0, 0)
	turns.Setup = established()
	turns.MaxSend = sends(0, 1, q(4, 5), 1, 0, q(4, 5))
	add(turns, q(9, 12))
	c.Par(fs...)
	s14Bursts(c)
	richHeal(c)
}

var _ = strings.Join
