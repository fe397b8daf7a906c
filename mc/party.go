package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/prospik/libsignal-protocol-go/groups"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

// Addr identifies a session.
type Addr struct {
	Name string
	Dev  uint32
}

func (a Addr) P() *protocol.SignalAddress { return protocol.NewSignalAddress(a.Name, a.Dev) }
func addrOf(a *protocol.SignalAddress) Addr {
	return Addr{a.Name(), a.DeviceID()}
}

type GName struct {
	Group string
	A     Addr
}

func (g GName) P() *protocol.SenderKeyName { return protocol.NewSenderKeyName(g.Group, g.A.P()) }

// Party is a user's persistent data. In durable mode stores keep bytes only; in
// live mode they hand out the objects they were given.
type Party struct {
	A    Addr
	IK   *identity.KeyPair
	Reg  uint32
	Rng  Rng
	Live bool
	// Copies: live, but records are stored and loaded by way of their bytes, while the
	// library's other objects are kept.
	Copies bool
	Deny   map[string]bool // identity keys (33 bytes) never trusted

	Sess map[Addr][]byte
	Pre  map[uint32][]byte
	SPre map[uint32][]byte
	Ids  map[Addr][]byte
	SK   map[GName][]byte

	LSess  map[Addr]*record.Session
	LPre   map[uint32]*record.PreKey
	LSPre  map[uint32]*record.SignedPreKey
	LSK    map[GName]*grecord.SenderKey
	LStore *Store
	Held   *held
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Clone is valid for durable parties (bytes are never changed in place).
func (p *Party) Clone() *Party {
	n := *p
	n.Sess, n.Pre, n.SPre, n.Ids, n.SK = cp(p.Sess), cp(p.Pre), cp(p.SPre), cp(p.Ids), cp(p.SK)
	if p.Live {
		panic("clone of a live party")
	}
	return &n
}

func newParty(a Addr, ik *identity.KeyPair, reg uint32) *Party {
	return &Party{A: a, IK: ik, Reg: reg, Rng: Rng{Seed: "party:" + a.Name + ":" + fmt.Sprint(a.Dev)},
		Sess: map[Addr][]byte{}, Pre: map[uint32][]byte{}, SPre: map[uint32][]byte{}, Ids: map[Addr][]byte{}, SK: map[GName][]byte{}}
}

// ToLive turns stored bytes into objects.
func (p *Party) ToLive(ser *serialize.Serializer) {
	p.Live = true
	if p.Held == nil {
		p.Held = &held{}
	}
	p.LSess, p.LPre = map[Addr]*record.Session{}, map[uint32]*record.PreKey{}
	p.LSPre, p.LSK = map[uint32]*record.SignedPreKey{}, map[GName]*grecord.SenderKey{}
	for k, v := range p.Sess {
		p.LSess[k] = mustSession(v, ser)
	}
	for k, v := range p.Pre {
		p.LPre[k] = mustPre(v, ser)
	}
	for k, v := range p.SPre {
		p.LSPre[k] = mustSPre(v, ser)
	}
	for k, v := range p.SK {
		p.LSK[k] = mustSK(v, ser)
	}
}

// held are the latest results that library code has handed out, with what they were: none
// of them may change afterwards.
type held struct {
	b, was [12][]byte
	n      int
}

func (h *held) add(b []byte) {
	if len(b) > 0 {
		i := h.n % len(h.b)
		h.b[i], h.was[i] = b, append([]byte{}, b...)
		h.n++
	}
}

func (h *held) changed() bool {
	for i := range h.b {
		if !bytes.Equal(h.b[i], h.was[i]) {
			return true
		}
	}
	return false
}

// oneHeld lets users keep their results together.
func oneHeld(ps []*Party) {
	for _, p := range ps {
		p.Held = ps[0].Held
	}
}

// someCopies chooses which of some users have stores that make copies.
func someCopies(ps []*Party, n int) {
	for i, p := range ps {
		p.Copies = (n+i)%3 == 1
	}
}

// Sync writes the objects of a live party to its byte maps.
func (p *Party) Sync() {
	if !p.Live {
		return
	}
	p.Sess, p.Pre, p.SPre, p.SK = map[Addr][]byte{}, map[uint32][]byte{}, map[uint32][]byte{}, map[GName][]byte{}
	for k, v := range p.LSess {
		p.Sess[k] = serSession(v)
	}
	for k, v := range p.LPre {
		p.Pre[k] = v.Serialize()
	}
	for k, v := range p.LSPre {
		p.SPre[k] = v.Serialize()
	}
	for k, v := range p.LSK {
		p.SK[k] = v.Serialize()
	}
}

// serSession serializes a record; a record without any session yet has no bytes.
func serSession(r *record.Session) []byte {
	if r.SessionState() == nil || !r.SessionState().HasSenderChain() {
		return []byte("(none)")
	}
	return r.Serialize()
}

// Image is a canonical rendering of everything stored.
func (p *Party) Image() []byte {
	p.Sync()
	var b bytes.Buffer
	var ks []string
	put := func(k string, v []byte) { ks = append(ks, fmt.Sprintf("%s=%d:%s", k, len(v), v)) }
	for k, v := range p.Sess {
		put("sess/"+k.Name+"/"+fmt.Sprint(k.Dev), v)
	}
	for k, v := range p.Pre {
		put("pre/"+fmt.Sprint(k), v)
	}
	for k, v := range p.SPre {
		put("spre/"+fmt.Sprint(k), v)
	}
	for k, v := range p.Ids {
		put("id/"+k.Name+"/"+fmt.Sprint(k.Dev), v)
	}
	for k, v := range p.SK {
		put("sk/"+k.Group+"/"+k.A.Name+"/"+fmt.Sprint(k.A.Dev), v)
	}
	sort.Strings(ks)
	for _, s := range ks {
		b.WriteString(s)
		b.WriteByte('\n')
	}
	return b.Bytes()
}

type harnessErr struct{ s string }

func (h harnessErr) Error() string { return h.s }

func mustSession(b []byte, ser *serialize.Serializer) *record.Session {
	r, err := record.NewSessionFromBytes(b, ser.Session, ser.State)
	if err != nil {
		panic(reloadErr{fmt.Sprint("session record does not load: ", err)})
	}
	return r
}
func mustPre(b []byte, ser *serialize.Serializer) *record.PreKey {
	r, err := record.NewPreKeyFromBytes(b, ser.PreKeyRecord)
	if err != nil {
		panic(reloadErr{fmt.Sprint("prekey record does not load: ", err)})
	}
	return r
}
func mustSPre(b []byte, ser *serialize.Serializer) *record.SignedPreKey {
	r, err := record.NewSignedPreKeyFromBytes(b, ser.SignedPreKeyRecord)
	if err != nil {
		panic(reloadErr{fmt.Sprint("signed prekey record does not load: ", err)})
	}
	return r
}
func mustSK(b []byte, ser *serialize.Serializer) *grecord.SenderKey {
	r, err := grecord.NewSenderKeyFromBytes(b, ser.SenderKeyRecord, ser.SenderKeyState)
	if err != nil {
		panic(reloadErr{fmt.Sprint("sender key record does not load: ", err)})
	}
	return r
}

type reloadErr struct{ s string }

func (r reloadErr) Error() string { return r.s }

// crash is what a store call panics with when the process is to stop there.
type crash struct{}

// Store implements all store interfaces of the library on a Party.
type Store struct {
	P   *Party
	Ser *serialize.Serializer
	// Hook is called before every store call with a description; it may panic(crash{}).
	Hook func(call string, mutating bool)
	// Trust overrides the trust decision.
	Trust func(a Addr, key []byte) bool
	// Saved lists the mutating calls.
	Saved []string

	builders map[Addr]*session.Builder
	ciphers  map[Addr]*session.Cipher
	gb       *groups.SessionBuilder
	gciphers map[GName]*groups.GroupCipher
	gnames   map[GName]*protocol.SenderKeyName
	other    *Store // other library objects of the same user
	ops      int
}

// storeOf gives a store for the next operation of p.
func storeOf(p *Party, ser *serialize.Serializer) *Store {
	if !p.Live {
		return &Store{P: p, Ser: ser}
	}
	if p.LStore == nil {
		p.LStore = &Store{P: p, Ser: ser}
	}
	p.LStore.Saved, p.LStore.Hook, p.LStore.Trust = nil, nil, nil
	return p.LStore
}

func (s *Store) h(mut bool, f string, a ...interface{}) {
	if s.Hook != nil {
		s.Hook(fmt.Sprintf(f, a...), mut)
	}
	if mut {
		s.Saved = append(s.Saved, fmt.Sprintf(f, a...))
	}
}

func (s *Store) GetIdentityKeyPair() *identity.KeyPair { return s.P.IK }
func (s *Store) GetLocalRegistrationId() uint32        { return s.P.Reg }
func (s *Store) SaveIdentity(address *protocol.SignalAddress, k *identity.Key) {
	a := addrOf(address)
	s.h(true, "SaveIdentity %s:%d", a.Name, a.Dev)
	s.P.Ids[a] = k.PublicKey().Serialize()
}
func (s *Store) IsTrustedIdentity(address *protocol.SignalAddress, k *identity.Key) bool {
	a := addrOf(address)
	s.h(false, "IsTrustedIdentity %s:%d", a.Name, a.Dev)
	key := k.PublicKey().Serialize()
	if s.Trust != nil {
		return s.Trust(a, key)
	}
	if s.P.Deny[string(key)] {
		return false
	}
	old, ok := s.P.Ids[a]
	return !ok || bytes.Equal(old, key)
}

func (s *Store) LoadSession(address *protocol.SignalAddress) *record.Session {
	a := addrOf(address)
	s.h(false, "LoadSession %s:%d", a.Name, a.Dev)
	if s.P.Live {
		if r := s.P.LSess[a]; r != nil {
			if b := serSession(r); s.P.Copies && string(b) != "(none)" {
				return mustSession(b, s.Ser)
			}
			return r
		}
	} else if b, ok := s.P.Sess[a]; ok {
		return mustSession(b, s.Ser)
	}
	return record.NewSession(s.Ser.Session, s.Ser.State)
}
func (s *Store) GetSubDeviceSessions(name string) []uint32 {
	var out []uint32
	if s.P.Live {
		for k := range s.P.LSess {
			if k.Name == name && k.Dev != 1 {
				out = append(out, k.Dev)
			}
		}
	} else {
		for k := range s.P.Sess {
			if k.Name == name && k.Dev != 1 {
				out = append(out, k.Dev)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
func (s *Store) StoreSession(address *protocol.SignalAddress, r *record.Session) {
	a := addrOf(address)
	s.h(true, "StoreSession %s:%d", a.Name, a.Dev)
	if s.P.Live {
		if b := serSession(r); s.P.Copies && string(b) != "(none)" {
			r = mustSession(b, s.Ser)
		}
		s.P.LSess[a] = r
	} else {
		s.P.Sess[a] = append([]byte{}, r.Serialize()...)
	}
}
func (s *Store) ContainsSession(address *protocol.SignalAddress) bool {
	a := addrOf(address)
	s.h(false, "ContainsSession %s:%d", a.Name, a.Dev)
	if s.P.Live {
		return s.P.LSess[a] != nil
	}
	_, ok := s.P.Sess[a]
	return ok
}
func (s *Store) DeleteSession(address *protocol.SignalAddress) {
	a := addrOf(address)
	s.h(true, "DeleteSession %s:%d", a.Name, a.Dev)
	delete(s.P.Sess, a)
	delete(s.P.LSess, a)
}
func (s *Store) DeleteAllSessions() {
	s.h(true, "DeleteAllSessions")
	s.P.Sess = map[Addr][]byte{}
	s.P.LSess = map[Addr]*record.Session{}
}

func (s *Store) LoadPreKey(id uint32) *record.PreKey {
	s.h(false, "LoadPreKey %d", id)
	if s.P.Live {
		if r := s.P.LPre[id]; r != nil && s.P.Copies {
			return mustPre(r.Serialize(), s.Ser)
		}
		return s.P.LPre[id]
	}
	b, ok := s.P.Pre[id]
	if !ok {
		return nil
	}
	return mustPre(b, s.Ser)
}
func (s *Store) StorePreKey(id uint32, r *record.PreKey) {
	s.h(true, "StorePreKey %d", id)
	if s.P.Live {
		s.P.LPre[id] = r
	} else {
		s.P.Pre[id] = append([]byte{}, r.Serialize()...)
	}
}
func (s *Store) ContainsPreKey(id uint32) bool {
	s.h(false, "ContainsPreKey %d", id)
	if s.P.Live {
		return s.P.LPre[id] != nil
	}
	_, ok := s.P.Pre[id]
	return ok
}
func (s *Store) RemovePreKey(id uint32) {
	s.h(true, "RemovePreKey %d", id)
	delete(s.P.Pre, id)
	delete(s.P.LPre, id)
}

func (s *Store) LoadSignedPreKey(id uint32) *record.SignedPreKey {
	s.h(false, "LoadSignedPreKey %d", id)
	if s.P.Live {
		if r := s.P.LSPre[id]; r != nil && s.P.Copies {
			return mustSPre(r.Serialize(), s.Ser)
		}
		return s.P.LSPre[id]
	}
	b, ok := s.P.SPre[id]
	if !ok {
		return nil
	}
	return mustSPre(b, s.Ser)
}
func (s *Store) LoadSignedPreKeys() []*record.SignedPreKey {
	s.h(false, "LoadSignedPreKeys")
	var ids []uint32
	if s.P.Live {
		for k := range s.P.LSPre {
			ids = append(ids, k)
		}
	} else {
		for k := range s.P.SPre {
			ids = append(ids, k)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var out []*record.SignedPreKey
	for _, k := range ids {
		if s.P.Live {
			out = append(out, s.P.LSPre[k])
		} else {
			out = append(out, mustSPre(s.P.SPre[k], s.Ser))
		}
	}
	return out
}
func (s *Store) StoreSignedPreKey(id uint32, r *record.SignedPreKey) {
	s.h(true, "StoreSignedPreKey %d", id)
	if s.P.Live {
		s.P.LSPre[id] = r
	} else {
		s.P.SPre[id] = append([]byte{}, r.Serialize()...)
	}
}
func (s *Store) ContainsSignedPreKey(id uint32) bool {
	s.h(false, "ContainsSignedPreKey %d", id)
	if s.P.Live {
		return s.P.LSPre[id] != nil
	}
	_, ok := s.P.SPre[id]
	return ok
}
func (s *Store) RemoveSignedPreKey(id uint32) {
	s.h(true, "RemoveSignedPreKey %d", id)
	delete(s.P.SPre, id)
	delete(s.P.LSPre, id)
}

func gnameOf(n *protocol.SenderKeyName) GName { return GName{n.GroupID(), addrOf(n.Sender())} }

func (s *Store) StoreSenderKey(n *protocol.SenderKeyName, r *grecord.SenderKey) {
	g := gnameOf(n)
	s.h(true, "StoreSenderKey %s/%s:%d", g.Group, g.A.Name, g.A.Dev)
	if s.P.Live {
		if s.P.Copies {
			r = mustSK(r.Serialize(), s.Ser)
		}
		s.P.LSK[g] = r
	} else {
		s.P.SK[g] = append([]byte{}, r.Serialize()...)
	}
}
func (s *Store) LoadSenderKey(n *protocol.SenderKeyName) *grecord.SenderKey {
	g := gnameOf(n)
	s.h(false, "LoadSenderKey %s/%s:%d", g.Group, g.A.Name, g.A.Dev)
	if s.P.Live {
		if r := s.P.LSK[g]; r != nil && s.P.Copies {
			return mustSK(r.Serialize(), s.Ser)
		}
		return s.P.LSK[g]
	}
	b, ok := s.P.SK[g]
	if !ok {
		return nil
	}
	return mustSK(b, s.Ser)
}

// Res is the outcome of one library operation.
type Res struct {
	Plain   []byte
	Wire    []byte
	Type    uint32
	Err     error
	Panic   string
	Crashed bool
	Saved   []string
	Extra   interface{}
	Raw     []byte // the message's own bytes
}

func (r *Res) OK() bool { return r.Err == nil && r.Panic == "" && !r.Crashed }

func (r *Res) String() string {
	switch {
	case r.Crashed:
		return "crashed"
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Err != nil:
		return "error: " + r.Err.Error()
	}
	return "ok"
}

// call runs library code, turning panics into results.
func call(st *Store, f func(r *Res)) (r *Res) {
	if freeRun {
		return runFree(st, f)
	}
	r = &Res{}
	opStart()
	defer func() {
		opEnd()
		if st != nil {
			r.Saved = st.Saved
		}
		defer noteRes(r)
		if e := recover(); e != nil {
			switch x := e.(type) {
			case crash:
				r.Crashed = true
			case harnessErr:
				panic(x)
			default:
				r.Panic = fmt.Sprint(e) + " @ " + panicSite(string(debug.Stack()))
			}
		}
	}()
	if st == nil {
		f(r)
	} else {
		withRng(&st.P.Rng, func() { f(r) })
		if h := st.P.Held; h != nil && st.P.Live {
			if h.changed() {
				r.Panic = "what an earlier operation returned has changed"
			}
			h.add(r.Plain)
			h.add(r.Raw)
			st.ops++
		}
	}
	return r
}

// panicSite extracts the first library frame of a stack.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "libsignal-protocol-go/") && strings.Contains(l, "(") {
			return l[strings.LastIndex(l, "libsignal-protocol-go/")+len("libsignal-protocol-go/"):]
		}
	}
	return "?"
}
