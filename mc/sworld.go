package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/keys/prekey"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/optional"
)

// SessCfg bounds a session scenario.
type SessCfg struct {
	PreKeys   bool // compare the stored prekeys
	Name      string
	Parties   []Addr
	JSON      bool
	LiveFirst bool
	// Plan lists, per ordered pair, the bundles that may be processed (opk ids, -1 none).
	Plan                     map[[2]int][]int64
	MaxSend                  map[[2]int]int
	Setup                    []SOp // executed before exploration
	Redeliver, Inner, Reload bool
	Drops                    bool // deliveries are tried even where the model expects rejection
	Payload                  func(m *MMsg) []byte
	Spk                      uint32
	Pres                     []uint32 // one-time prekey ids of each party
	Reissue                  [][2]int // [party, id]: ids that get a new one-time prekey once, at any moment
	Shape                    bool     // compare the set of kept sessions
	Header                   bool     // compare wire headers
	OneByOne                 bool     // but not with those of all other messages
	Reg                      func(i int) uint32
	// Stop offering operations beyond this number of sends in total (0: no limit)
	TotalSend int
	Extra     func(w *SW) []SOp
	Snap      bool               // copies of what users have stored are taken
	Isolate   bool               // operations must concern one address only
	Ident     func(i int) string // identity of a party (default: one per address)
	KeepKeys  bool               // message keys handed out are kept
	// LiveEach is evaluated after every step of a live replay.
	LiveEach func(w *SW) []Finding
}

type SOp struct {
	K       byte // B bundle, S send, D deliver, P deliver plain api, I deliver inner message, R reload
	A, B, I int
}

func (o SOp) String() string { return fmt.Sprintf("%c %d %d %d", o.K, o.A, o.B, o.I) }

func parseSOp(s string) SOp {
	var o SOp
	fmt.Sscanf(s, "%c %d %d %d", &o.K, &o.A, &o.B, &o.I)
	return o
}

// SMsg is a real message with its symbolic content.
type SMsg struct {
	MMsg
	Wire, Plain []byte
	Type        uint32
	Obj         interface{} // the library's own object, with live stores
}

// SW is a world of session users.
type SW struct {
	Cfg             *SessCfg
	Ser             *serialize.Serializer
	P               []*Party
	Img             [][32]byte // digest per party (durable)
	M               *SModel
	Msgs            map[[3]int]*SMsg
	Bun             map[string]*prekey.Bundle
	Seen            map[string]Rid // ratchet public keys seen on the wire
	RidK            map[Rid]string
	BaseK           map[Sid]string // base keys
	Live            bool
	Last            *Res
	LastOp          SOp
	LastOK, LastWhy string
	Hist            []SOp // all operations so far, without those of the set-up
	quick           bool  // long histories: skip comparisons with all earlier messages
	ownMsgs         bool
	Snaps           []snap
	Keys            map[[3]int]*savedKey // message keys handed out
	hook            func(call string, mut bool)
	Base            map[[3]int]bool // if set: the messages that bad inputs are made from
}

func regOf(i int) uint32 { return uint32(1000 + 77*i) }

func defPayload(m *MMsg) []byte {
	sizes := []int{0, 1, 15, 16, 17, 31, 32, 33, 100, 255, 256, 257}
	n := sizes[(m.From*5+m.Seq)%len(sizes)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(17*m.From + 31*m.Seq + 7*i + 3)
	}
	return b
}

var identSeeds = func(a Addr) string { return a.Name + "/" + itoa(int(a.Dev)) }

func newSW(cfg *SessCfg, live bool) *SW {
	w := &SW{Cfg: cfg, Ser: serializer(cfg.JSON), M: newSModel(len(cfg.Parties)), Msgs: map[[3]int]*SMsg{}, Bun: map[string]*prekey.Bundle{},
		Seen: map[string]Rid{}, RidK: map[Rid]string{}, BaseK: map[Sid]string{}, Live: live}
	pres := cfg.Pres
	if pres == nil {
		pres = []uint32{0, 1, 2, 3, lastResort}
	}
	t := template(cfg, w.Ser, pres)
	w.M, w.Seen, w.RidK, w.Bun = t.M.clone(), t.Seen, t.RidK, t.Bun
	for _, p := range t.P {
		w.P = append(w.P, p.Clone())
	}
	w.Img = make([][32]byte, len(w.P))
	if live {
		for _, p := range w.P {
			p.ToLive(w.Ser)
		}
		oneHeld(w.P)
	}
	for i := range w.P {
		w.digest(i)
	}
	for _, o := range cfg.Setup {
		fs := w.Do(o)
		if len(fs) > 0 {
			panic(setupErr{o.String(), fs})
		}
	}
	w.Hist = nil
	return w
}

var templates sync.Map // *SessCfg -> *SW, the users before anything happens

func template(cfg *SessCfg, ser *serialize.Serializer, pres []uint32) *SW {
	if t, ok := templates.Load(cfg); ok {
		return t.(*SW)
	}
	w := &SW{M: newSModel(len(cfg.Parties)), Seen: map[string]Rid{}, RidK: map[Rid]string{}, Bun: map[string]*prekey.Bundle{}}
	for i, a := range cfg.Parties {
		reg := regOf(i)
		if cfg.Reg != nil {
			reg = cfg.Reg(i)
		}
		id := identSeeds(a)
		if cfg.Ident != nil {
			id = cfg.Ident(i)
		}
		p := newParty(a, identityPair(id), reg)
		addPreKeys(p, ser, pres, []uint32{cfg.Spk})
		for _, id := range pres {
			w.M.Opks[[2]int{i, int(id)}] = true
			w.Bun[fmt.Sprint(i, "/", id)] = bundleOf(p, ser, int64(id), cfg.Spk)
		}
		for j := 0; j < 2; j++ {
			w.Bun[fmt.Sprint(i, "/-1/", (j+len(cfg.Name))%2)] = bundleOf(p, ser, int64(-1-j), cfg.Spk)
		}
		k := string(mustSPre(p.SPre[cfg.Spk], ser).KeyPair().PublicKey().Serialize())
		w.Seen[k] = spkRid(i, cfg.Spk)
		w.RidK[spkRid(i, cfg.Spk)] = k
		w.P = append(w.P, p)
	}
	templates.Store(cfg, w)
	return w
}

func (w *SW) digest(i int) {
	if w.Live {
		return
	}
	w.Img[i] = sum(w.P[i].Image(), []byte(fmt.Sprint(w.P[i].Rng.Pos)))
}

// Fork copies the world; party i may then be changed.
func (w *SW) Fork(touch ...int) *SW {
	n := *w
	n.ownMsgs = false
	n.P = append([]*Party{}, w.P...)
	n.Img = append([][32]byte{}, w.Img...)
	for _, i := range touch {
		n.P[i] = w.P[i].Clone()
	}
	n.M = w.M.clone()
	return &n
}

func (w *SW) addMsg(m *SMsg) {
	if !w.quick || !w.ownMsgs {
		w.Msgs = cp(w.Msgs)
		w.ownMsgs = true
	}
	w.Msgs[[3]int{m.From, m.To, m.Seq}] = m
}

// live turns a copy of a durable world into one with live stores.
func (w *SW) live() *SW {
	var all []int
	for i := range w.P {
		all = append(all, i)
	}
	n := w.Fork(all...)
	for _, p := range n.P {
		p.ToLive(n.Ser)
	}
	oneHeld(n.P)
	n.Live = true
	return n
}

func (w *SW) Key() [32]byte {
	var b bytes.Buffer
	for i := range w.P {
		b.Write(w.Img[i][:])
	}
	var ks []string
	for k := range w.Msgs {
		ks = append(ks, fmt.Sprint(k, w.M.Deliv[k]))
	}
	for k, v := range w.M.NBundle {
		ks = append(ks, fmt.Sprint("b", k, v))
	}
	for i := range w.Snaps {
		ks = append(ks, fmt.Sprintf("s%d %x", w.Snaps[i].u, w.Snaps[i].dig[:8]))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	return sum(b.Bytes())
}

// modelKey identifies the symbolic state (used where stores are live).
func (w *SW) touched(o SOp) int {
	switch o.K {
	case 'B', 'S', 'R', 'X', 'N':
		return o.A
	}
	return o.B
}

// Apply is the persistent transition function.
func (w *SW) Apply(o SOp) (*SW, []Finding) {
	n := w.Fork(w.touched(o))
	fs := n.Do(o)
	n.digest(w.touched(o))
	return n, fs
}

func (w *SW) store(i int) *Store {
	st := storeOf(w.P[i], w.Ser)
	if w.hook != nil {
		st.Hook = w.hook
	}
	return st
}

func (w *SW) addr(i int) Addr { return w.P[i].A }

// Wire headers.
type hdr struct {
	Ratchet       []byte
	Ctr, Prev     uint32
	CT            []byte
	PK            bool
	HasOpk        bool
	Opk, Spk, Reg uint32
	Base, IK      []byte
}

func parseHdr(wire []byte, typ uint32, jsonSer bool) (*hdr, bool) {
	h := &hdr{PK: typ == protocol.PREKEY_TYPE}
	in := wire
	if !jsonSer {
		if h.PK {
			p, ok := ref.ParsePreKeySignal(wire)
			if !ok {
				return nil, false
			}
			h.HasOpk, h.Opk, h.Spk, h.Reg, h.Base, h.IK = p.HasPreKey, p.PreKeyID, p.SignedID, p.RegID, p.Base, p.Identity
			in = p.Message
		}
		s, ok := ref.ParseSignal(in)
		if !ok {
			return nil, false
		}
		h.Ratchet, h.Ctr, h.Prev, h.CT = s.Ratchet, s.Ctr, s.Prev, s.Ciphertext
		return h, true
	}
	if h.PK {
		var p struct {
			RegistrationID uint32
			PreKeyID       *struct {
				Value   uint32
				IsEmpty bool
			}
			SignedPreKeyID                uint32
			BaseKey, IdentityKey, Message []byte
		}
		if json.Unmarshal(wire, &p) != nil {
			return nil, false
		}
		h.Spk, h.Reg, h.Base, h.IK = p.SignedPreKeyID, p.RegistrationID, p.BaseKey, p.IdentityKey
		if p.PreKeyID != nil && !p.PreKeyID.IsEmpty {
			h.HasOpk, h.Opk = true, p.PreKeyID.Value
		}
		in = p.Message
	}
	var s struct {
		RatchetKey, CipherText   []byte
		Counter, PreviousCounter uint32
	}
	if json.Unmarshal(in, &s) != nil {
		return nil, false
	}
	h.Ratchet, h.Ctr, h.Prev, h.CT = s.RatchetKey, s.Counter, s.PreviousCounter, s.CipherText
	return h, true
}

// Do executes an operation on the world in place, and compares with the model.
func (w *SW) Do(o SOp) (fs []Finding) {
	bad := func(class, f string, a ...interface{}) {
		fs = append(fs, Finding{class, o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	w.LastOp, w.LastOK, w.LastWhy, w.Last = o, "", "", nil
	if !w.quick {
		w.Hist = append(w.Hist[:len(w.Hist):len(w.Hist)], o)
	}
	if w.Cfg.Snap {
		if w.Snaps == nil {
			for u := range w.P {
				w.snapshot(u)
			}
		}
		defer func() {
			if len(fs) == 0 && o.K != 'R' && o.K != 'X' {
				fs = append(fs, w.thieves(o)...)
				w.snapshot(w.touched(o))
			}
		}()
	}
	if w.Cfg.Isolate && o.K != 'R' {
		i, j := w.touched(o), o.B
		if i == o.B {
			j = o.A
		}
		end := w.isolate(i, j)
		defer func() { fs = append(fs, end(o.String())...) }()
	}
	switch o.K {
	case 'B':
		plan := w.Cfg.Plan[[2]int{o.A, o.B}]
		opk := plan[w.M.NBundle[[2]int{o.A, o.B}]]
		st := w.store(o.A)
		b := w.bun(o.B, opk, w.M.NBundle[[2]int{o.A, o.B}])
		r := st.Bundle(w.addr(o.B), b)
		w.Last = r
		ms := w.M.Bundle(o.A, o.B, opk, w.Cfg.Spk)
		if !r.OK() {
			bad("bundle", "processing a genuine bundle: %v", r)
			return
		}
		if rec := w.loadRec(o.A, o.B); rec != nil {
			w.BaseK = cp(w.BaseK)
			bk := string(rec.SessionState().SenderBaseKey())
			for s, k := range w.BaseK {
				if k == bk && w.Cfg.Header {
					bad("hdr", "base key of session %v used again", s)
				}
			}
			w.BaseK[ms.Sid] = bk
		}
		fs = append(fs, w.shape(o.A, o.B)...)
	case 'S':
		st := w.store(o.A)
		mm := w.M.Send(o.A, o.B)
		pl := defPayload(mm)
		if w.Cfg.Payload != nil {
			pl = w.Cfg.Payload(mm)
		}
		in := append([]byte{}, pl...)
		r := st.Encrypt(w.addr(o.B), in)
		w.Last = r
		if !r.OK() {
			bad("send", "encrypting: %v", r)
			return
		}
		if !bytes.Equal(in, pl) {
			bad("send", "encrypting changed the caller's plaintext")
		}
		m := &SMsg{MMsg: *mm, Wire: r.Wire, Plain: pl, Type: r.Type}
		if w.Live && m.Seq%3 == 1 {
			m.Obj = r.Extra
		}
		w.addMsg(m)
		fs = append(fs, w.checkHdr(o, m)...)
	case 'D', 'P', 'I':
		m := w.Msgs[[3]int{o.A, o.B, o.I}]
		if m == nil {
			bad("nomsg", "no such message")
			return
		}
		wire, pk := m.Wire, m.Type == protocol.PREKEY_TYPE
		if o.K == 'I' {
			if !pk {
				bad("nomsg", "not an initial message")
				return
			}
			wire, pk = innerOf(w.Ser, m.Wire), false
			if wire == nil {
				bad("lost", "message %s cannot be parsed", m.Name())
				return
			}
		}
		was := w.M.Deliv[[3]int{o.A, o.B, o.I}]
		ok, why := w.M.Deliver(o.B, o.A, &m.MMsg, pk)
		w.LastWhy = why
		st := w.store(o.B)
		var r *Res
		pos := w.P[o.B].Rng.Pos
		if o.K == 'D' && m.Obj != nil {
			r = st.ReceiveObj(w.addr(o.A), m.Obj)
		} else if o.K == 'P' && pk && ok && m.Seq%2 == 0 {
			r = st.ReceiveRecord(w.addr(o.A), wire)
		} else if o.K == 'P' {
			r = st.ReceivePlain(w.addr(o.A), wire, pk)
		} else {
			r = st.Receive(w.addr(o.A), wire, pk)
		}
		w.Last = r
		if !ok { // randomness used for nothing does not make another state
			w.P[o.B].Rng.Pos = pos
		}
		switch {
		case ok && !r.OK():
			bad("lost", "message %s should decrypt: %v", m.Name(), r)
		case ok && !bytes.Equal(r.Plain, m.Plain):
			bad("lost", "message %s decrypts to %x, not %x", m.Name(), r.Plain, m.Plain)
		case !ok && r.Panic != "":
			bad("crash", "message %s (%s): %v", m.Name(), why, r)
		case !ok && r.OK() && was:
			bad("dup", "message %s decrypted again (%s) to %x", m.Name(), why, r.Plain)
		case !ok && r.OK():
			bad("over", "message %s decrypted although %s", m.Name(), why)
		}
		if ok {
			w.LastOK = "ok"
			if w.Cfg.KeepKeys && r.OK() {
				fs = append(fs, w.keepKey(m, r)...)
			}
		}
		fs = append(fs, w.prekeys(o.B)...)
		if w.Cfg.PreKeys {
			stored := false
			for _, s := range r.Saved {
				stored = stored || strings.HasPrefix(s, "StoreSession")
				if strings.HasPrefix(s, "RemovePreKey") && !stored {
					bad("prekey", "%s before the session was stored", s)
				}
				if strings.HasPrefix(s, "RemoveSignedPreKey") {
					bad("prekey", "%s", s)
				}
			}
		}
		fs = append(fs, w.shape(o.B, o.A)...)
	case 'R':
		p := w.P[o.A]
		if p.Live {
			p.Sync()
			for k, v := range p.Sess {
				if string(v) == "(none)" {
					delete(p.Sess, k)
				}
			}
			p.ToLive(w.Ser)
		}
	case 'N': // a new one-time prekey under id I
		g := [2]int{o.A, o.I}
		w.M.Gen[g]++
		w.M.Opks[g] = true
		k := keypair(&Rng{Seed: opkSeed(w.P[o.A].A, uint32(o.I)) + "#" + itoa(w.M.Gen[g])})
		st := w.store(o.A)
		st.StorePreKey(uint32(o.I), record.NewPreKey(uint32(o.I), k, w.Ser.PreKeyRecord))
		w.Bun = cp(w.Bun)
		w.Bun[fmt.Sprint(o.A, "/", o.I)] = bundleWith(w.P[o.A], w.Ser, int64(o.I), k.PublicKey(), w.Cfg.Spk)
		fs = append(fs, w.prekeys(o.A)...)
	case 'X': // delete the session with B
		w.store(o.A).DeleteSession(w.addr(o.B).P())
		delete(w.M.Rec, [2]int{o.A, o.B})
	default:
		panic(harnessErr{"op " + o.String()})
	}
	return
}

func (w *SW) loadRec(a, b int) (r recView) {
	s := w.store(a)
	if !s.ContainsSession(w.addr(b).P()) {
		return nil
	}
	return s.LoadSession(w.addr(b).P())
}

// shape compares the kept sessions with the model's.
func (w *SW) shape(a, b int) (fs []Finding) {
	if !w.Cfg.Shape {
		return nil
	}
	rec := w.loadRec(a, b)
	mr := w.M.rec(a, b)
	if rec == nil {
		if mr.Cur != nil {
			fs = append(fs, Finding{"shape", fmt.Sprintf("user %d has no session with %d any more", a, b)})
		}
		return
	}
	if mr.Cur == nil {
		return []Finding{{"shape", fmt.Sprintf("user %d has a session with %d that it should not have", a, b)}}
	}
	name := func(k []byte) string {
		for s, x := range w.BaseK {
			if x == string(k) {
				return fmt.Sprint(s)
			}
		}
		return fmt.Sprintf("unknown %x", k)
	}
	if g, want := name(rec.SessionState().SenderBaseKey()), fmt.Sprint(mr.Cur.Sid); g != want {
		fs = append(fs, Finding{"shape", fmt.Sprintf("user %d's current session with %d is %s, not %s", a, b, g, want)})
	}
	var g, want []string
	for _, s := range rec.PreviousSessionStates() {
		g = append(g, name(s.SenderBaseKey()))
	}
	for _, s := range mr.Arch {
		want = append(want, fmt.Sprint(s.Sid))
	}
	sort.Strings(g)
	sort.Strings(want)
	if strings.Join(g, ",") != strings.Join(want, ",") {
		fs = append(fs, Finding{"shape", fmt.Sprintf("user %d keeps archived sessions %v with %d, not %v", a, g, b, want)})
	}
	return
}

// prekeys compares the stored one-time and signed prekeys with the model's.
func (w *SW) prekeys(b int) (fs []Finding) {
	if !w.Cfg.PreKeys {
		return nil
	}
	st := w.store(b)
	for k, v := range w.allOpks(b) {
		if st.ContainsPreKey(uint32(k)) != v {
			fs = append(fs, Finding{"prekey", fmt.Sprintf("one-time prekey %d of user %d: present=%v, expected %v", k, b, !v, v)})
		}
	}
	if !st.ContainsSignedPreKey(w.Cfg.Spk) {
		fs = append(fs, Finding{"prekey", "signed prekey deleted"})
	}
	return
}

func (w *SW) allOpks(b int) map[int]bool {
	out := map[int]bool{}
	pres := w.Cfg.Pres
	if pres == nil {
		pres = []uint32{0, 1, 2, 3, lastResort}
	}
	for _, id := range pres {
		out[int(id)] = w.M.Opks[[2]int{b, int(id)}]
	}
	return out
}

// bun is the nth bundle of user b that another user fetches. Those without one-time
// prekey say so in two ways by turns.
func (w *SW) bun(b int, opk int64, nth int) *prekey.Bundle {
	if opk < 0 {
		return w.Bun[fmt.Sprint(b, "/-1/", nth%2)]
	}
	return w.Bun[fmt.Sprint(b, "/", opk)]
}

func (w *SW) checkHdr(o SOp, m *SMsg) (fs []Finding) {
	bad := func(class, f string, a ...interface{}) {
		fs = append(fs, Finding{class, o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	if !w.Cfg.Header {
		return nil
	}
	h, ok := parseHdr(m.Wire, m.Type, w.Cfg.JSON)
	if !ok {
		bad("wire", "cannot parse the message %x", m.Wire)
		return
	}
	if m.PK != h.PK {
		bad("type", "initial message: %v, expected %v", h.PK, m.PK)
	}
	if int(h.Ctr) != m.Ctr {
		bad("hdr", "counter %d, expected %d", h.Ctr, m.Ctr)
	}
	if int(h.Prev) != m.Prev {
		bad("hdr", "previous counter %d, expected %d", h.Prev, m.Prev)
	}
	k := string(h.Ratchet)
	if r, ok := w.Seen[k]; ok && r != m.Rid {
		bad("hdr", "ratchet key of %v appears as %v", r, m.Rid)
	} else if x, ok := w.RidK[m.Rid]; ok && x != k {
		bad("hdr", "a new ratchet key without a new chain (%v)", m.Rid)
	} else if !ok {
		w.Seen, w.RidK = cp(w.Seen), cp(w.RidK)
		w.Seen[k], w.RidK[m.Rid] = m.Rid, k
	}
	for _, x := range w.Msgs {
		if w.Cfg.OneByOne {
			break
		}
		if x.From == m.From && x.To == m.To && x.Seq == m.Seq {
			continue
		}
		xh, ok := parseHdr(x.Wire, x.Type, w.Cfg.JSON)
		if !ok {
			continue
		}
		if bytes.Equal(xh.Ratchet, h.Ratchet) && xh.Ctr == h.Ctr {
			bad("reuse", "messages %s and %s have the same ratchet key and counter", x.Name(), m.Name())
		}
		if bytes.Equal(xh.CT, h.CT) {
			bad("reuse", "messages %s and %s have the same ciphertext", x.Name(), m.Name())
		}
	}
	if h.PK {
		if bytes.Equal(h.Base, h.Ratchet) {
			bad("hdr", "the base key is used as a ratchet key")
		}
		if h.HasOpk != (m.Opk >= 0) || (h.HasOpk && int64(h.Opk) != m.Opk) {
			bad("ids", "one-time prekey id %v %d, expected %d", h.HasOpk, h.Opk, m.Opk)
		}
		if h.Spk != m.Spk {
			bad("ids", "signed prekey id %d, expected %d", h.Spk, m.Spk)
		}
		if h.Reg != w.P[m.From].Reg {
			bad("ids", "registration id %d, expected %d", h.Reg, w.P[m.From].Reg)
		}
		if !bytes.Equal(h.IK, w.P[m.From].IK.PublicKey().PublicKey().Serialize()) {
			bad("ids", "identity key is not the sender's")
		}
		if b := w.BaseK[m.Sid]; b != "" && b != string(h.Base) {
			bad("ids", "base key changed")
		}
	}
	return
}

// Ops lists the enabled operations.
func (w *SW) Ops() []SOp {
	var out []SOp
	n := len(w.P)
	tot := 0
	for _, v := range w.M.NSent {
		tot += v
	}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			k := [2]int{a, b}
			if a == b {
				continue
			}
			if w.M.NBundle[k] < len(w.Cfg.Plan[k]) {
				out = append(out, SOp{'B', a, b, 0})
			}
			if w.M.rec(a, b).Cur != nil && w.M.NSent[k] < w.Cfg.MaxSend[k] && (w.Cfg.TotalSend == 0 || tot < w.Cfg.TotalSend) {
				out = append(out, SOp{'S', a, b, 0})
			}
			for i := 0; i < w.M.NSent[k]; i++ {
				m := w.Msgs[[3]int{a, b, i}]
				if m == nil {
					continue
				}
				del := w.M.Deliv[[3]int{a, b, i}]
				if !del {
					op := byte('D')
					if (a+i)%3 == 2 && !w.Cfg.KeepKeys {
						op = 'P' // the other entry points now and then
					}
					out = append(out, SOp{op, a, b, i})
				} else if w.Cfg.Redeliver {
					out = append(out, SOp{'D', a, b, i})
				}
				if m.Type == protocol.PREKEY_TYPE && w.Cfg.Inner {
					out = append(out, SOp{'I', a, b, i})
				}
			}
		}
	}
	for _, g := range w.Cfg.Reissue {
		if w.M.Gen[g] == 0 {
			out = append(out, SOp{'N', g[0], 0, g[1]})
		}
	}
	if w.Cfg.Reload && w.Live {
		for a := 0; a < n; a++ {
			out = append(out, SOp{'R', a, 0, 0})
		}
	}
	if w.Cfg.Extra != nil {
		out = append(out, w.Cfg.Extra(w)...)
	}
	return out
}

func classes(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

// exploreSessions searches a session scenario breadth first with durable stores,
// and replays the paths with live stores.
func exploreSessions(c *Ctx, cfg *SessCfg, depth, max, maxLive int, cls map[string]bool, visit func(w *SW) []Finding) {
	cfg.Shape = cls["shape"]
	cfg.PreKeys = cls["prekey"]
	cfg.Header = cls["hdr"] || cls["wire"] || cls["type"] || cls["ids"] || cls["reuse"]
	Explore(c, System[*SW, SOp]{
		Name:  cfg.Name,
		Init:  func() *SW { return newSW(cfg, false) },
		Ops:   func(w *SW) []SOp { return w.Ops() },
		Apply: func(w *SW, o SOp) (*SW, []Finding) { return w.Apply(o) },
		Key:   func(w *SW) [32]byte { return w.Key() },
		Visit: visit,
		Live: func(path []SOp) []Finding {
			w := newSW(cfg, true)
			someCopies(w.P, len(path))
			for _, o := range path {
				if fs := w.Do(o); len(fs) > 0 {
					return fs
				}
				if cfg.LiveEach != nil {
					if fs := cfg.LiveEach(w); len(fs) > 0 {
						return fs
					}
				}
			}
			return nil
		},
		Classes: cls, Depth: depth, Max: max, MaxLive: maxLive,
	})
}

// optOf is a one-time prekey id as the library has it; negative means none.
func optOf(id int64) *optional.Uint32 {
	if id < 0 {
		return optional.NewEmptyUint32()
	}
	return optional.NewOptionalUint32(uint32(id))
}
