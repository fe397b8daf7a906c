package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/serialize"
)

// GN is a sender of a group.
type GN struct {
	Group  string
	Sender int
}

// GCfg bounds a group scenario.
type GCfg struct {
	Name    string
	Parties []Addr
	Names   []GN
	JSON    bool
	MaxSend []int // per name
	MaxDist []int // distribution messages asked for, per name
	MaxRot  []int
	Members map[[2]int]bool // (member, name) that may receive; nil: everybody else
	Setup   []GOp

	Again   bool // presented again after decryption; distribution messages too
	Cross   bool // messages offered under other names
	Payload func(n, i int) []byte
	RefSend bool // the senders are the reference implementation
	RefIDs  []uint32
	Extra   func(w *GW) []GOp
	// Each is evaluated after every step of a live replay.
	Each func(w *GW) []Finding
}

// GOp: C n create/ask again; K n rotate; S n send; P b n i process distribution;
// D b n i decrypt; X b n i m: message i of n offered under name m; Y: distribution; R b reload.
type GOp struct {
	K       byte
	B, N, I int
	M       int
}

func (o GOp) String() string {
	if o.K == 'X' {
		return fmt.Sprintf("%c %d %d %d %d", o.K, o.B, o.N, o.I, o.M)
	}
	return fmt.Sprintf("%c %d %d %d", o.K, o.B, o.N, o.I)
}

type gout struct {
	Wire, Plain []byte
}

// gkey is what was seen of a key on the wire.
type gkey struct {
	ID      uint32
	Sign    []byte
	Chain   map[int]string // iteration -> chain key
	Created bool
}

// GW is a world of group users.
type GW struct {
	Cfg   *GCfg
	Ser   *serialize.Serializer
	P     []*Party
	Img   [][32]byte
	M     *GModel
	Dists [][]gout // per name
	Msgs  [][]gout
	Keys  map[[2]int]*gkey // (name, key)
	Live  bool
	Objs  map[[3]int]interface{} // live: the objects the library returned
	Last  *Res
	Hist  []GOp
	Refs  map[int]*refSender
	quick bool

	Focus  map[[2]int]bool // rich states: the messages looked at, and all from FocusN on
	FocusN int
}

func gPayload(n, i int) []byte {
	sizes := []int{0, 1, 15, 16, 17, 31, 32, 33, 100, 255, 256}
	b := make([]byte, sizes[(n*3+i)%len(sizes)])
	for j := range b {
		b[j] = byte(29*n + 37*i + 11*j + 5)
	}
	return b
}

var gtemplates sync.Map

func newGW(cfg *GCfg, live bool) *GW {
	w := &GW{Cfg: cfg, Ser: serializer(cfg.JSON), M: newGModel(len(cfg.Names)), Keys: map[[2]int]*gkey{}, Live: live, Objs: map[[3]int]interface{}{}}
	for _, a := range cfg.Parties {
		w.P = append(w.P, newParty(a, identityPair(identSeeds(a)), 1))
	}
	w.Img = make([][32]byte, len(w.P))
	w.Dists, w.Msgs = make([][]gout, len(cfg.Names)), make([][]gout, len(cfg.Names))
	if live {
		for _, p := range w.P {
			p.ToLive(w.Ser)
		}
		oneHeld(w.P)
	}
	for i := range w.P {
		w.digest(i)
	}
	for _, o := range cfg.Setup {
		if fs := w.Do(o); len(fs) > 0 {
			panic(setupErr{o.String(), fs})
		}
	}
	w.Hist = nil
	return w
}

func (w *GW) digest(i int) {
	if !w.Live {
		w.Img[i] = sum(w.P[i].Image(), []byte(fmt.Sprint(w.P[i].Rng.Pos)))
	}
}

func (w *GW) Fork(touch ...int) *GW {
	n := *w
	n.P = append([]*Party{}, w.P...)
	n.Img = append([][32]byte{}, w.Img...)
	for _, i := range touch {
		n.P[i] = w.P[i].Clone()
	}
	n.Dists, n.Msgs = append([][]gout{}, w.Dists...), append([][]gout{}, w.Msgs...)
	for i := range n.Dists {
		n.Dists[i] = n.Dists[i][:len(n.Dists[i]):len(n.Dists[i])]
		n.Msgs[i] = n.Msgs[i][:len(n.Msgs[i]):len(n.Msgs[i])]
	}
	n.M = w.M.clone()
	return &n
}

func (w *GW) forkAll() *GW {
	var all []int
	for i := range w.P {
		all = append(all, i)
	}
	return w.Fork(all...)
}

func (w *GW) live() *GW {
	n := w.forkAll()
	for _, p := range n.P {
		p.ToLive(n.Ser)
	}
	oneHeld(n.P)
	n.Live, n.Objs = true, map[[3]int]interface{}{}
	return n
}

func (w *GW) Key() [32]byte {
	var b bytes.Buffer
	for i := range w.P {
		b.Write(w.Img[i][:])
	}
	fmt.Fprint(&b, w.M.Dists, w.M.Msgs, w.M.NKey)
	for n := range w.Cfg.Names {
		if r := w.Refs[n]; r != nil {
			fmt.Fprint(&b, r.ID, r.Iter)
		}
	}
	fmt.Fprint(&b, w.M.Deliv) // maps are printed in key order
	return sum(b.Bytes())
}

func (w *GW) touched(o GOp) int {
	switch o.K {
	case 'C', 'K', 'S':
		return w.Cfg.Names[o.N].Sender
	}
	return o.B
}

func (w *GW) Apply(o GOp) (*GW, []Finding) {
	n := w.Fork(w.touched(o))
	fs := n.Do(o)
	n.digest(w.touched(o))
	return n, fs
}

func (w *GW) store(i int) *Store { return storeOf(w.P[i], w.Ser) }

func (w *GW) gname(n int) GName {
	return GName{w.Cfg.Names[n].Group, w.Cfg.Parties[w.Cfg.Names[n].Sender]}
}

// jsonSKM and jsonSKD are the textual forms.
type jsonSKM struct {
	ID         uint32
	Iteration  uint32
	CipherText []byte
	Version    uint32
	Signature  []byte
}

type jsonSKD struct {
	ID         uint32
	Iteration  uint32
	ChainKey   []byte
	SigningKey []byte
	Version    uint32
}

func parseSKM(wire []byte, js bool) (*jsonSKM, bool) {
	if js {
		var m jsonSKM
		return &m, json.Unmarshal(wire, &m) == nil
	}
	p, ok := ref.ParseSenderKeyMsg(wire)
	if !ok {
		return nil, false
	}
	return &jsonSKM{p.ID, p.Iter, p.Ciphertext, uint32(p.Version), p.Sig}, true
}

func (m *jsonSKM) join(js bool) []byte {
	if js {
		b, err := json.Marshal(m)
		if err != nil {
			return nil
		}
		return b
	}
	b := ref.EncodeSenderKeyMsg(m.ID, m.Iteration, m.CipherText)
	b[0] = byte(m.Version)
	return append(b, m.Signature...)
}

// signed is what the signature covers.
func (m *jsonSKM) signed(js bool) []byte {
	x := *m
	x.Signature = nil
	return x.join(js)
}

func parseSKD(wire []byte, js bool) (*jsonSKD, bool) {
	if js {
		var m jsonSKD
		return &m, json.Unmarshal(wire, &m) == nil
	}
	p, ok := ref.ParseDistribution(wire)
	if !ok {
		return nil, false
	}
	return &jsonSKD{p.ID, p.Iter, p.Chain, p.Signing, uint32(p.Version)}, true
}

func (m *jsonSKD) join(js bool) []byte {
	if js {
		b, err := json.Marshal(m)
		if err != nil {
			return nil
		}
		return b
	}
	d := ref.Distribution{ID: m.ID, Iter: m.Iteration, Chain: m.ChainKey, Signing: m.SigningKey}
	b := d.Encode()
	b[0] = byte(m.Version)
	return b
}

// others compares everything a party has stored except one sender key record.
func skOthers(p *Party, g *GName) string {
	q := *p
	q.Live = false
	q.SK = cp(p.SK)
	if g != nil {
		delete(q.SK, *g)
	}
	return string(q.Image())
}

func (w *GW) Do(o GOp) (fs []Finding) {
	bad := func(class, f string, a ...interface{}) {
		fs = append(fs, Finding{class, o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	w.Last = nil
	if !w.quick {
		w.Hist = append(w.Hist[:len(w.Hist):len(w.Hist)], o)
	}
	i := w.touched(o)
	st := w.store(i)
	if !w.Live {
		g := w.gname(o.N)
		if o.K == 'X' {
			g = w.gname(o.M)
		}
		if o.K != 'R' && !w.quick {
			before := skOthers(w.P[i], &g)
			defer func() {
				if x := skOthers(w.P[i], &g); x != before {
					bad("other", "changes something else that user %d stores: %s", i, diffImage([]byte(before), []byte(x)))
				}
			}()
		}
	}
	switch o.K {
	case 'C', 'K':
		g := w.gname(o.N)
		if o.K == 'K' {
			w.reset(i, g, len(w.M.Dists[o.N])%2 == 0)
		}
		var r *Res
		if w.Cfg.RefSend {
			r = &Res{Wire: w.refCreate(o.N, o.K == 'K')}
		} else {
			r = st.GCreate(g)
		}
		w.Last = r
		fresh := w.M.Cur[o.N] < 0 || o.K == 'K'
		var d GDist
		if o.K == 'K' {
			d = w.M.Rotate(o.N)
		} else {
			d = w.M.Create(o.N)
		}
		if !r.OK() {
			bad("send", "creating a distribution message: %v", r)
			return
		}
		w.Dists[o.N] = append(w.Dists[o.N], gout{Wire: r.Wire})
		if w.Live {
			w.Objs[[3]int{0, o.N, len(w.Dists[o.N]) - 1}] = r.Extra
		}
		fs = append(fs, w.checkDist(o, d, r.Wire, fresh)...)
	case 'S':
		g := w.gname(o.N)
		pl := gPayload(o.N, len(w.M.Msgs[o.N]))
		if w.Cfg.Payload != nil {
			pl = w.Cfg.Payload(o.N, len(w.M.Msgs[o.N]))
		}
		in := append([]byte{}, pl...)
		var r *Res
		if w.Cfg.RefSend {
			r = &Res{Wire: w.refEncrypt(o.N, in)}
		} else {
			r = st.GEncrypt(g, in)
		}
		w.Last = r
		mm := w.M.Send(o.N)
		if !r.OK() {
			bad("send", "encrypting: %v", r)
			return
		}
		if !bytes.Equal(in, pl) {
			bad("send", "encrypting changed the caller's plaintext")
		}
		w.Msgs[o.N] = append(w.Msgs[o.N], gout{Wire: r.Wire, Plain: pl})
		if w.Live {
			w.Objs[[3]int{1, o.N, len(w.Msgs[o.N]) - 1}] = r.Extra
		}
		fs = append(fs, w.checkMsg(o, mm, r.Wire)...)
	case 'P':
		d := w.Dists[o.N][o.I]
		r := st.GProcessObj(w.gname(o.N), d.Wire, w.obj(0, o.N, o.I))
		w.Last = r
		w.M.Process(o.B, o.N, w.M.Dists[o.N][o.I])
		if !r.OK() {
			bad("lost", "distribution message %d is not processed: %v", o.I, r)
		}
	case 'D':
		m := w.Msgs[o.N][o.I]
		was := w.M.Deliv[[3]int{o.B, o.N, o.I}]
		img := ""
		if !w.quick {
			img = string(w.P[i].Image())
		}
		ok, why := w.M.Deliver(o.B, o.N, w.M.Msgs[o.N][o.I])
		r := st.GDecryptObj(w.gname(o.N), m.Wire, w.obj(1, o.N, o.I))
		w.Last = r
		switch {
		case ok && !r.OK():
			bad("lost", "message %d should decrypt: %v", o.I, r)
		case ok && !bytes.Equal(r.Plain, m.Plain):
			bad("lost", "message %d decrypts to %x, not %x", o.I, r.Plain, m.Plain)
		case !ok && r.Panic != "":
			bad("crash", "message %d (%s): %v", o.I, why, r)
		case !ok && r.OK() && was:
			bad("dup", "message %d decrypted again (%s)", o.I, why)
		case !ok && r.OK():
			bad("over", "message %d decrypted although %s", o.I, why)
		}
		if ok {
			w.M.Deliv[[3]int{o.B, o.N, o.I}] = true
		} else if img != "" && string(w.P[i].Image()) != img {
			bad("reject", "message %d is rejected, but the state changes: %s", o.I, diffImage([]byte(img), w.P[i].Image()))
		}
	case 'E': // encrypt with a received key
		r := st.GEncrypt(w.gname(o.N), []byte("not mine"))
		w.Last = r
		if r.OK() {
			bad("over", "user %d encrypts with the key of sender %d", o.B, o.N)
		}
	case 'X':
		m := w.Msgs[o.N][o.I]
		r := st.GDecrypt(w.gname(o.M), m.Wire)
		w.Last = r
		if r.Panic != "" {
			bad("crash", "under the name of another sender or group: %v", r)
		} else if r.OK() {
			bad("over", "decrypted under the name of another sender or group")
		}
	case 'R':
		p := w.P[o.B]
		if p.Live {
			p.Sync()
			p.LStore = nil
			p.ToLive(w.Ser)
		}
	default:
		panic(harnessErr{"op " + o.String()})
	}
	return
}

// reset makes the sender forget its key: no record, or an empty one.
func (w *GW) reset(i int, g GName, empty bool) {
	p := w.P[i]
	delete(p.SK, g)
	delete(p.LSK, g)
	if empty {
		(&Store{P: p, Ser: w.Ser}).StoreSenderKey(g.P(), emptySK(w.Ser))
	}
}

// obj is the object the library returned, for every other message of a live world.
func (w *GW) obj(kind, n, i int) interface{} {
	if !w.Live || (n+i)%2 == 1 {
		return nil
	}
	return w.Objs[[3]int{kind, n, i}]
}

func (w *GW) checkDist(o GOp, d GDist, wire []byte, fresh bool) (fs []Finding) {
	bad := func(class, f string, a ...interface{}) {
		fs = append(fs, Finding{class, o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	x, ok := parseSKD(wire, w.Cfg.JSON)
	if !ok {
		bad("wire", "the distribution message cannot be parsed")
		return
	}
	if int(x.Iteration) != d.Iter {
		bad("iter", "distribution message of iteration %d, expected %d", x.Iteration, d.Iter)
	}
	k := w.Keys[[2]int{o.N, d.Key}]
	if k == nil {
		if len(x.ChainKey) != 32 || len(x.SigningKey) != 33 {
			bad("wire", "chain key of %d and signing key of %d bytes", len(x.ChainKey), len(x.SigningKey))
		}
		for kk, y := range w.Keys {
			same := ""
			if bytes.Equal(y.Sign, x.SigningKey) {
				same = "signing key"
			}
			for _, ch := range y.Chain {
				if ch == string(x.ChainKey) {
					same = "chain key"
				}
			}
			if kk[0] == o.N && y.ID == x.ID {
				same = "key id"
			}
			if same != "" {
				bad("fresh", "a new key with the %s of key %d of sender %d", same, kk[1], kk[0])
			}
		}
		k = &gkey{ID: x.ID, Sign: x.SigningKey, Chain: map[int]string{d.Iter: string(x.ChainKey)}}
		w.Keys = cp(w.Keys)
		w.Keys[[2]int{o.N, d.Key}] = k
		return
	}
	if x.ID != k.ID || !bytes.Equal(x.SigningKey, k.Sign) {
		bad("key", "asking for the distribution message again changed the key")
	}
	if c, ok := k.Chain[d.Iter]; ok && c != string(x.ChainKey) {
		bad("key", "asking for the distribution message again changed the chain key")
	} else if !ok {
		for it, c := range k.Chain {
			if c == string(x.ChainKey) {
				bad("key", "the chain key of iteration %d is that of iteration %d", d.Iter, it)
			}
		}
		nk := *k
		nk.Chain = cp(k.Chain)
		nk.Chain[d.Iter] = string(x.ChainKey)
		w.Keys = cp(w.Keys)
		w.Keys[[2]int{o.N, d.Key}] = &nk
	}
	return
}

func (w *GW) checkMsg(o GOp, m GMsg, wire []byte) (fs []Finding) {
	bad := func(class, f string, a ...interface{}) {
		fs = append(fs, Finding{class, o.String() + ": " + fmt.Sprintf(f, a...)})
	}
	x, ok := parseSKM(wire, w.Cfg.JSON)
	if !ok {
		bad("wire", "the message cannot be parsed")
		return
	}
	if int(x.Iteration) != m.Iter {
		bad("iter", "iteration %d, expected %d", x.Iteration, m.Iter)
	}
	if k := w.Keys[[2]int{o.N, m.Key}]; k != nil && k.ID != x.ID {
		bad("key", "key id %d, expected %d", x.ID, k.ID)
	}
	if w.quick {
		return
	}
	for n, l := range w.Msgs {
		for i, y := range l {
			if n == o.N && i == len(l)-1 {
				continue
			}
			if z, ok := parseSKM(y.Wire, w.Cfg.JSON); ok && bytes.Equal(z.CipherText, x.CipherText) {
				bad("reuse", "the ciphertext of message %d of sender %d", i, n)
			}
		}
	}
	return
}

func (w *GW) member(b, n int) bool {
	if w.Cfg.Members != nil {
		return w.Cfg.Members[[2]int{b, n}]
	}
	return b != w.Cfg.Names[n].Sender
}

func at(l []int, i, def int) int {
	if i < len(l) {
		return l[i]
	}
	return def
}

func (w *GW) Ops() (out []GOp) {
	for n := range w.Cfg.Names {
		rot := w.M.NKey[n] - 1
		if rot < 0 {
			rot = 0
		}
		if len(w.M.Dists[n])-rot < at(w.Cfg.MaxDist, n, 1) {
			out = append(out, GOp{'C', 0, n, 0, 0})
		}
		if w.M.Cur[n] >= 0 && rot < at(w.Cfg.MaxRot, n, 0) {
			out = append(out, GOp{'K', 0, n, 0, 0})
		}
		if w.M.Cur[n] >= 0 && len(w.M.Msgs[n]) < at(w.Cfg.MaxSend, n, 0) {
			out = append(out, GOp{'S', 0, n, 0, 0})
		}
		for b := range w.P {
			if !w.member(b, n) {
				continue
			}
			for i, d := range w.M.Dists[n] {
				known := false
				for _, k := range w.M.Recv[[2]int{b, n}] {
					known = known || k.Key == d.Key
				}
				if !known || w.Cfg.Again {
					out = append(out, GOp{'P', b, n, i, 0})
				}
			}
			for i := range w.M.Msgs[n] {
				if !w.M.Deliv[[3]int{b, n, i}] || w.Cfg.Again {
					out = append(out, GOp{'D', b, n, i, 0})
				}
				if w.Cfg.Cross {
					for m := range w.Cfg.Names {
						if m != n {
							out = append(out, GOp{'X', b, n, i, m})
						}
					}
				}
			}
		}
	}
	if w.Cfg.Extra != nil {
		out = append(out, w.Cfg.Extra(w)...)
	}
	return
}

// soft drops unexpected iterations and keys where it is judged what the messages open.
func soft(fs []Finding, cls map[string]bool) (out []Finding) {
	for _, f := range fs {
		if (f.Class != "iter" && f.Class != "key") || cls[f.Class] || !cls["secret"] {
			out = append(out, f)
		}
	}
	return
}

func exploreGroups(c *Ctx, cfg *GCfg, depth, max, maxLive int, cls map[string]bool, visit func(w *GW) []Finding) {
	Explore(c, System[*GW, GOp]{
		Name: cfg.Name,
		Init: func() *GW { return newGW(cfg, false) },
		Ops:  func(w *GW) []GOp { return w.Ops() },
		Apply: func(w *GW, o GOp) (*GW, []Finding) {
			n, fs := w.Apply(o)
			return n, soft(fs, cls)
		},
		Key:   func(w *GW) [32]byte { return w.Key() },
		Visit: visit,
		Live: func(path []GOp) []Finding {
			w := newGW(cfg, true)
			someCopies(w.P, len(path))
			for _, o := range path {
				if fs := soft(w.Do(o), cls); len(fs) > 0 {
					return fs
				}
				if cfg.Each != nil {
					if fs := cfg.Each(w); len(fs) > 0 {
						return fs
					}
				}
			}
			return nil
		},
		Classes: cls, Depth: depth, Max: max, MaxLive: maxLive,
	})
}
