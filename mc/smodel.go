package main

import "fmt"

// The symbolic model of sessions: who can decrypt what, with which header. It is
// a Dolev-Yao style abstraction: keys are names, and a message opens exactly if
// the receiver's chain has the message's key left.

const (
	maxFuture   = 5000
	maxSkipped  = 2000
	maxChains   = 5
	maxArchived = 40
	lastResort  = 0xFFFFFF
)

// Rid names a ratchet key: n-th of a party, or a signed prekey.
type Rid struct{ P, N int } // N >= 1000000: signed prekey N-1000000

func spkRid(p int, id uint32) Rid { return Rid{p, 1000000 + int(id)} }

type Sid struct{ P, N int } // n-th session set up by P (0: none)

type MChain struct {
	Rid     Rid
	Next    int
	Skipped []int // ascending
}

type MState struct {
	Sid     Sid
	Init    bool
	Recv    []MChain
	Cur     Rid
	Ctr     int
	RespTo  Rid
	Prev    int
	Pend    bool
	Opk     int64
	OpkGen  int
	Spk     uint32
	PeerMsg int // messages of the peer decrypted in this session
}

func (s *MState) clone() *MState {
	n := *s
	n.Recv = make([]MChain, len(s.Recv))
	for i, c := range s.Recv {
		n.Recv[i] = MChain{c.Rid, c.Next, append([]int(nil), c.Skipped...)}
	}
	return &n
}

type MRec struct {
	Cur   *MState
	Arch  []*MState
	Epoch int // changes of the current session so far
}

func (r *MRec) clone() *MRec {
	n := &MRec{Epoch: r.Epoch}
	if r.Cur != nil {
		n.Cur = r.Cur.clone()
	}
	for _, a := range r.Arch {
		n.Arch = append(n.Arch, a.clone())
	}
	return n
}

// MMsg is the symbolic content of a message.
type MMsg struct {
	From, To, Seq int // Seq counts per (From,To)
	Sid           Sid
	Rid           Rid
	Ctr, Prev     int
	RespTo        Rid
	PK            bool
	Opk           int64
	OpkGen        int // which of the prekeys stored under the id, one after the other
	Spk           uint32
	Epoch         int
}

func (m *MMsg) Name() string { return fmt.Sprintf("%d>%d#%d", m.From, m.To, m.Seq) }

type SModel struct {
	Rec     map[[2]int]*MRec // [owner, peer]
	Opks    map[[2]int]bool  // [owner, id] present
	Gen     map[[2]int]int   // [owner, id] prekeys stored under the id before this one
	NRid    []int
	NSid    []int
	NSent   map[[2]int]int
	NBundle map[[2]int]int
	Deliv   map[[3]int]bool // [from,to,seq] decrypted
	Shared  bool            // devices: parties with the same store? unused
}

func newSModel(n int) *SModel {
	return &SModel{Rec: map[[2]int]*MRec{}, Opks: map[[2]int]bool{}, Gen: map[[2]int]int{}, NRid: make([]int, n), NSid: make([]int, n),
		NSent: map[[2]int]int{}, NBundle: map[[2]int]int{}, Deliv: map[[3]int]bool{}}
}

func (m *SModel) clone() *SModel {
	n := &SModel{Rec: make(map[[2]int]*MRec, len(m.Rec)), Opks: cp(m.Opks), Gen: cp(m.Gen), NRid: append([]int{}, m.NRid...), NSid: append([]int{}, m.NSid...),
		NSent: cp(m.NSent), NBundle: cp(m.NBundle), Deliv: cp(m.Deliv)}
	for k, v := range m.Rec {
		n.Rec[k] = v // records are replaced, never changed in place
	}
	return n
}

func (m *SModel) rec(a, b int) *MRec {
	if r := m.Rec[[2]int{a, b}]; r != nil {
		return r
	}
	return &MRec{}
}

func (m *SModel) edit(a, b int) *MRec {
	r := m.rec(a, b).clone()
	m.Rec[[2]int{a, b}] = r
	return r
}

func (m *SModel) newRid(p int) Rid {
	m.NRid[p]++
	return Rid{p, m.NRid[p]}
}

func (r *MRec) archive() {
	if r.Cur != nil {
		r.Arch = append([]*MState{r.Cur}, r.Arch...)
		if len(r.Arch) > maxArchived {
			r.Arch = r.Arch[:maxArchived]
		}
	}
	r.Cur = nil
	r.Epoch++
}

// Bundle: a sets up a session with b from b's bundle.
func (m *SModel) Bundle(a, b int, opk int64, spk uint32) *MState {
	r := m.edit(a, b)
	r.archive()
	m.NSid[a]++
	m.NBundle[[2]int{a, b}]++
	sr := spkRid(b, spk)
	r.Cur = &MState{Sid: Sid{a, m.NSid[a]}, Init: true, Recv: []MChain{{Rid: sr}}, Cur: m.newRid(a), RespTo: sr, Pend: true, Opk: opk, OpkGen: m.Gen[[2]int{b, int(opk)}], Spk: spk}
	return r.Cur
}

// Send: a encrypts for b.
func (m *SModel) Send(a, b int) *MMsg {
	r := m.edit(a, b)
	s := r.Cur
	k := [2]int{a, b}
	msg := &MMsg{From: a, To: b, Seq: m.NSent[k], Sid: s.Sid, Rid: s.Cur, Ctr: s.Ctr, Prev: s.Prev, RespTo: s.RespTo, PK: s.Pend, Opk: s.Opk, OpkGen: s.OpkGen, Spk: s.Spk, Epoch: r.Epoch}
	m.NSent[k]++
	s.Ctr++
	return msg
}

func (r *MRec) states() []*MState {
	var out []*MState
	if r.Cur != nil {
		out = append(out, r.Cur)
	}
	return append(out, r.Arch...)
}

func (r *MRec) find(s Sid) int {
	for i, x := range r.states() {
		if x.Sid == s {
			return i
		}
	}
	return -1
}

func (m *SModel) accept(s *MState, b int, msg *MMsg) (bool, string) {
	ci := -1
	for i := range s.Recv {
		if s.Recv[i].Rid == msg.Rid {
			ci = i
		}
	}
	if ci < 0 {
		if msg.RespTo != s.Cur {
			return false, "chain gone"
		}
		if msg.Ctr > maxFuture {
			return false, "too far ahead"
		}
		s.Recv = append(s.Recv, MChain{Rid: msg.Rid})
		if len(s.Recv) > maxChains {
			s.Recv = s.Recv[1:]
		}
		ci = len(s.Recv) - 1
		s.Prev = s.Ctr - 1
		if s.Prev < 0 {
			s.Prev = 0
		}
		s.Cur, s.Ctr, s.RespTo = m.newRid(b), 0, msg.Rid
	}
	c := &s.Recv[ci]
	if msg.Ctr < c.Next {
		for i, x := range c.Skipped {
			if x == msg.Ctr {
				c.Skipped = append(c.Skipped[:i:i], c.Skipped[i+1:]...)
				return true, ""
			}
		}
		return false, "used or dropped"
	}
	if msg.Ctr-c.Next > maxFuture {
		return false, "too far ahead"
	}
	for ; c.Next < msg.Ctr; c.Next++ {
		c.Skipped = append(c.Skipped, c.Next)
		if len(c.Skipped) > maxSkipped {
			c.Skipped = c.Skipped[1:]
		}
	}
	c.Next++
	return true, ""
}

// Deliver: b processes msg as coming from a. asPK: as an initial message.
// On rejection the model is unchanged.
func (m *SModel) Deliver(b, a int, msg *MMsg, asPK bool) (bool, string) {
	t := m.clone()
	r := t.edit(b, a)
	created := false
	if asPK {
		if r.find(msg.Sid) < 0 {
			if msg.To != b {
				return false, "not for us"
			}
			if msg.Opk >= 0 && !t.Opks[[2]int{b, int(msg.Opk)}] {
				return false, "one-time prekey gone"
			}
			if msg.Opk >= 0 && t.Gen[[2]int{b, int(msg.Opk)}] != msg.OpkGen {
				return false, "another one-time prekey has its id now"
			}
			r.archive()
			r.Cur = &MState{Sid: msg.Sid, Cur: spkRid(b, msg.Spk), Opk: -1}
			created = true
		}
	} else if r.Cur == nil {
		return false, "no session"
	}
	i := r.find(msg.Sid)
	if i < 0 || msg.To != b || msg.From != a {
		return false, "no such session"
	}
	s := r.states()[i]
	ok, why := t.accept(s, b, msg)
	if !ok {
		return false, why
	}
	if i > 0 {
		r.Arch = append(r.Arch[:i-1:i-1], r.Arch[i:]...)
		old := r.Cur
		r.Cur = s
		r.Epoch++
		r.Arch = append([]*MState{old}, r.Arch...)
	}
	s.Pend = false
	s.PeerMsg++
	if created && msg.Opk >= 0 && msg.Opk != lastResort {
		delete(t.Opks, [2]int{b, int(msg.Opk)})
	}
	t.Deliv[[3]int{msg.From, msg.To, msg.Seq}] = true
	*m = *t
	return true, ""
}
