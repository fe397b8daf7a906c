package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	grecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/logger"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"

	"verif/mc/ref"
)

// What the library says: texts of warnings, errors, error values and panics, and
// whatever it prints by itself. None may show key material or plaintext.

func init() {
	register("L01", "model_checking", checkL01)
}

var (
	sinks   sync.Map // goroutine -> *sink
	sinksOn int32
)

// sink collects what is said on a goroutine.
type sink struct{ texts []string }

func curSink() *sink {
	if atomic.LoadInt32(&sinksOn) == 0 {
		return nil
	}
	if s, ok := sinks.Load(gid()); ok {
		return s.(*sink)
	}
	return nil
}

// noteRes adds what an operation returned.
func noteRes(r *Res) {
	if s := curSink(); s != nil {
		if r.Err != nil {
			s.texts = append(s.texts, fmt.Sprintf("%v", r.Err), r.Err.Error())
		}
		if r.Panic != "" {
			s.texts = append(s.texts, r.Panic)
		}
	}
}

// loud records warnings and errors, which the default logger prints.
type loud struct{}

func (loud) Debug(caller, msg string) {}
func (loud) Info(caller, msg string)  {}
func (loud) Warning(caller, msg string) {
	if s := curSink(); s != nil {
		s.texts = append(s.texts, caller, msg)
	}
}
func (loud) Error(caller, msg string) { loud{}.Warning(caller, msg) }
func (loud) Configure(string)         {}

// printed is what went to the standard streams and to package log.
type printed struct {
	f   *os.File
	off int64
}

func capturePrints() (*printed, func()) {
	f, err := os.CreateTemp("", "mc-prints-")
	if err != nil {
		panic(harnessErr{err.Error()})
	}
	os.Remove(f.Name())
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
	log.SetOutput(f)
	return &printed{f: f}, func() {
		os.Stdout, os.Stderr = o, e
		log.SetOutput(e)
		f.Close()
	}
}

func (p *printed) size() int64 {
	st, err := p.f.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}

// from returns what was printed after off.
func (p *printed) from(off int64) []string {
	n := p.size() - off
	if n <= 0 {
		return nil
	}
	b := make([]byte, n)
	m, err := p.f.ReadAt(b, off)
	if err != nil && err != io.EOF {
		return nil
	}
	return []string{string(b[:m])}
}

const leakWin = 6

// secrets are strings that must not be shown, kept as all their windows.
type secrets map[string]string

func (s secrets) add(name string, b []byte) {
	for i := 0; i+leakWin <= len(b); i++ {
		w := string(b[i : i+leakWin])
		if strings.Trim(w, w[:1]) != "" { // not one byte repeated
			s[w] = name
		}
	}
}

func (s secrets) drop(b []byte) {
	for i := 0; i+leakWin <= len(b); i++ {
		delete(s, string(b[i:i+leakWin]))
	}
}

func (s secrets) find(b []byte) (string, bool) {
	for i := 0; i+leakWin <= len(b); i++ {
		if n, ok := s[string(b[i:i+leakWin])]; ok {
			return n, true
		}
	}
	return "", false
}

var (
	reHex   = regexp.MustCompile(`(?:[0-9a-fA-F]{2}[ :-]?){6,}`)
	reB64   = regexp.MustCompile(`[A-Za-z0-9+/_-]{8,}={0,2}`)
	reList  = regexp.MustCompile(`(?:(?:0x[0-9a-fA-F]{1,2}|[0-9]{1,3})[, ]+){5,}(?:0x[0-9a-fA-F]{1,2}|[0-9]{1,3})`)
	reEsc   = regexp.MustCompile(`\\(?:x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|[0-7]{3}|[abfnrtv\\"'])`)
	cleanTx sync.Map // texts without any candidate
)

// readings are the byte strings a text may stand for.
func readings(text string) (out [][]byte) {
	if _, ok := cleanTx.Load(text); ok {
		return nil
	}
	plain := true
	for i := 0; i < len(text); i++ {
		if c := text[i]; c < 0x20 && c != '\n' && c != '\t' || c >= 0x7f {
			plain = false
		}
	}
	if !plain {
		out = append(out, []byte(text))
	}
	for _, m := range reHex.FindAllString(text, -1) {
		m = strings.NewReplacer(" ", "", ":", "", "-", "").Replace(m)
		for o := 0; o < 2; o++ {
			d, _ := hex.DecodeString(m[o : o+(len(m)-o)/2*2])
			out = append(out, d)
		}
	}
	for _, m := range reB64.FindAllString(text, -1) {
		if len(m) < 12 && !strings.ContainsAny(m, "0123456789+/=") {
			continue
		}
		m = strings.NewReplacer("-", "+", "_", "/").Replace(strings.TrimRight(m, "="))
		for o := 0; o < 4 && o < len(m); o++ {
			s := m[o:]
			for len(s)%4 == 1 {
				s = s[:len(s)-1]
			}
			if d, err := base64.RawStdEncoding.DecodeString(s); err == nil {
				out = append(out, d)
			}
		}
	}
	for _, m := range reList.FindAllString(text, -1) {
		var d []byte
		for _, f := range strings.FieldsFunc(m, func(r rune) bool { return r == ',' || r == ' ' }) {
			n, err := strconv.ParseUint(f, 0, 32)
			if strings.HasPrefix(f, "0") && !strings.HasPrefix(f, "0x") {
				n, err = strconv.ParseUint(f, 10, 32)
			}
			if err != nil {
				n = 0
			}
			d = append(d, byte(n))
		}
		out = append(out, d)
	}
	if reEsc.MatchString(text) {
		un := reEsc.ReplaceAllStringFunc(text, func(e string) string {
			u, err := strconv.Unquote(`"` + strings.Replace(e, `\'`, `'`, 1) + `"`)
			if err != nil {
				return e
			}
			return u
		})
		out = append(out, []byte(un))
	}
	if out == nil {
		cleanTx.Store(text, true)
	}
	return
}

// listen runs f and looks for secrets in what was said meanwhile.
func listen(c *Ctx, pr *printed, sec func() secrets, f func()) (fs []Finding) {
	s := &sink{}
	sinks.Store(gid(), s)
	off := pr.size()
	f()
	sinks.Delete(gid())
	texts := append(s.texts, pr.from(off)...)
	var set secrets
	for _, t := range texts {
		rs := readings(t)
		if len(rs) == 0 {
			c.Outcome("plain text")
			continue
		}
		if set == nil {
			set = sec()
		}
		c.Outcome("text with candidates")
		for _, r := range rs {
			if n, ok := set.find(r); ok {
				if len(t) > 300 {
					t = t[:300] + "..."
				}
				return []Finding{{"leak", fmt.Sprintf("%s shows in: %q", n, t)}}
			}
		}
	}
	return
}

// sessionSecrets are the secrets of a world of session users.
func (w *SW) sessionSecrets() secrets {
	s := secrets{}
	for u, p := range w.P {
		for t := range p.stolen() {
			s.add(fmt.Sprintf("something user %d has stored", u), []byte(t))
		}
	}
	last := map[string]*SMsg{} // of every chain
	for _, m := range w.Msgs {
		s.add("the plaintext of message "+m.Name(), m.Plain)
		id := fmt.Sprint(m.Sid, m.Rid, m.RespTo)
		if l := last[id]; l == nil || l.Ctr < m.Ctr || l.Ctr == m.Ctr && l.Seq > m.Seq {
			last[id] = m
		}
	}
	for _, m := range last {
		ch := w.scheduleOf(m)
		if ch == nil {
			continue
		}
		for i := 0; i <= m.Ctr+31; i++ {
			s.add("a chain key", ch.key(i))
			if i <= m.Ctr+2 {
				s.add("a message key seed", ref.HMAC(ch.key(i), []byte{1}))
				ck, mk, iv := ref.MessageKeys(ch.key(i))
				s.add("a cipher key", ck)
				s.add("a MAC key", mk)
				s.add("an IV", iv)
			}
		}
		s.add("a root key", ch.rootIn)
		s.add("a root key", ch.rootOut)
		s.add("a shared secret", []byte(ch.dh))
		s.add("a private key", ch.own[:])
		s.add("a private key", ch.peer[:])
		if ch.x != nil {
			for _, d := range ch.x.dh {
				s.add("a shared secret", []byte(d))
			}
		}
	}
	// what is public anyway
	for _, k := range w.RidK {
		s.drop([]byte(k))
	}
	for _, k := range w.BaseK {
		s.drop([]byte(k))
	}
	for u, p := range w.P {
		s.drop(p.IK.PublicKey().PublicKey().Serialize())
		for _, b := range p.SPre {
			sg := mustSPre(b, w.Ser).Signature()
			s.drop(sg[:])
		}
		for _, m := range []map[uint32][]byte{p.Pre, p.SPre} {
			for _, b := range m {
				pub := map[string]bool{}
				tokens(b, pub)
				for t := range pub {
					k := ref.PublicKey(ref.Clamp(arr32([]byte(t))))
					s.drop(append([]byte{5}, k[:]...))
				}
			}
		}
		for v := range w.P {
			if rec := w.loadRec(u, v); v != u && rec != nil {
				for _, st := range append([]*record.State{rec.SessionState()}, rec.PreviousSessionStates()...) {
					if st != nil && st.HasSenderChain() {
						s.drop(st.SenderRatchetKey().Serialize())
						s.drop(st.SenderBaseKey())
					}
				}
			}
		}
	}
	for _, m := range w.Msgs {
		s.drop(m.Wire)
	}
	s.drop(attacker())
	return s
}

func (w *GW) groupSecrets() secrets {
	s := secrets{}
	for u, p := range w.P {
		for t := range p.stolen() {
			s.add(fmt.Sprintf("something user %d has stored", u), []byte(t))
		}
	}
	for n := range w.Msgs {
		for i, m := range w.Msgs[n] {
			s.add(fmt.Sprintf("the plaintext of message %d of sender %d", i, n), m.Plain)
			if x, ok := parseSKM(m.Wire, w.Cfg.JSON); ok {
				for _, k := range w.Keys {
					if k.ID != x.ID {
						continue
					}
					ck, ok := chainAt(k, int(x.Iteration))
					if ok != int(x.Iteration) {
						continue
					}
					seed := ref.HMAC(ck, []byte{1})
					okm := ref.HKDF(seed, nil, []byte("WhisperGroup"), 48)
					s.add("a message key seed", seed)
					s.add("an IV", okm[:16])
					s.add("a cipher key", okm[16:])
				}
			}
		}
	}
	for _, k := range w.Keys {
		s.drop(k.Sign)
	}
	for _, p := range w.P {
		s.drop(p.IK.PublicKey().PublicKey().Serialize())
	}
	for n := range w.Msgs {
		for _, m := range w.Msgs[n] {
			s.drop(m.Wire)
		}
	}
	return s
}

// saltedPayload is a plaintext that is not text.
func leakPayload(a, b int) []byte {
	var out []byte
	for i := 0; i < 1+(a+b)%2; i++ {
		h := sum([]byte(fmt.Sprint("plain", a, b, i)))
		for j := range h {
			if j%3 == 0 {
				h[j] |= 0x80
			}
		}
		out = append(out, h[:]...)
	}
	return out
}

func checkL01(c *Ctx) {
	c.Rule("Session and group states are enumerated breadth first as for S01 and G01. In every state every operation the model allows and every bad input of the alphabets of S03, S07 and G03 is carried out on a copy, with and without randomness, and everything said meanwhile (warnings and errors given to the logger, returned errors, panics, prints to the standard streams and package log) is searched for any 6 consecutive bytes of a secret: private keys, root, chain and message keys and their seeds, shared secrets and plaintexts of that state and of what may follow next; as such, in hexadecimal, base64, lists of numbers, or escaped. Damaged stored records and direct calls of the primitives are tried one by one.")
	c.Assume("debug and info messages are out of scope: the default logger drops them")
	var lg logger.Loggable = loud{}
	logger.Setup(&lg)
	atomic.StoreInt32(&sinksOn, 1)
	pr, done := capturePrints()
	defer done()
	q := c.Q
	leakPower(c, pr)
	var run []func()
	ex := func(cfg *SessCfg, d, max int) {
		cfg.Header = true
		cfg.Payload = func(m *MMsg) []byte { return leakPayload(m.From, m.Seq) }
		visit := func(w *SW) (fs []Finding) {
			var n int64
			defer func() { k := Case{c: c}; k.Eval(int(n)) }()
			for _, o := range w.Ops() {
				var x *SW
				fs = append(fs, listen(c, pr, func() secrets {
					s := w.sessionSecrets()
					for k, v := range x.sessionSecrets() {
						s[k] = v
					}
					return s
				}, func() { x, _ = w.Apply(o) })...)
				n++
			}
			for b := range w.P {
				fs = append(fs, listen(c, pr, w.sessionSecrets, func() {
					x := w.Fork(b)
					x.rejects(b, c.Thorough, &n)
				})...)
			}
			return
		}
		run = append(run, func() {
			exploreSessions(c, cfg, d, max, 0, classes("leak"), visit)
		})
	}
	ex(two("opk", false, plan(0, 1, 1), q(2, 3), q(2, 3)), 30, q(400, 20000))
	ex(two("no-opk-json", true, plan(0, 1, -1), 2, q(2, 3)), 30, q(400, 20000))
	ex(two("again", false, plan(0, 1, 1, 2), 2, q(1, 2)), 30, q(400, 20000))
	ex(two("both", true, plans(plan(0, 1, 1), plan(1, 0, 1)), q(2, 3), q(1, 2)), 30, q(400, 20000))
	gap := two("gaps", false, plan(0, 1, 1), 0, 0)
	gap.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2})
	gap.MaxSend = sends(0, 1, q(5, 6), 1, 0, 2)
	ex(gap, 30, q(400, 20000))

	gex := func(cfg *GCfg, d, max int) {
		cfg.Payload = leakPayload
		visit := func(w *GW) (fs []Finding) {
			var n int64
			for _, o := range w.Ops() {
				var x *GW
				fs = append(fs, listen(c, pr, func() secrets {
					s := w.groupSecrets()
					for k, v := range x.groupSecrets() {
						s[k] = v
					}
					return s
				}, func() { x, _ = w.Apply(o) })...)
				n++
			}
			fs = append(fs, listen(c, pr, w.groupSecrets, func() { w.forkAll().refusals(&n) })...)
			k := Case{c: c}
			k.Eval(int(n))
			return
		}
		run = append(run, func() { exploreGroups(c, cfg, d, max, 0, classes("leak"), visit) })
	}
	gex(grp("one-member", false, 1, q(3, 4), 2, 0), 40, q(300, 20000))
	gex(grp("rotation", true, 1, 2, 1, q(1, 2)), 40, q(300, 20000))
	c.Par(run...)
	leakBundles(c, pr)
	leakRecords(c, pr)
	leakPrimitives(c, pr)
	leakLong(c, pr)
}

// leakPower shows that the search finds what it has to.
func leakPower(c *Ctx, pr *printed) {
	c.One("power", func(k *Case) {
		key := leakPayload(3, 4)[:32]
		s := secrets{}
		s.add("the key", key)
		var list []string
		for _, b := range key {
			list = append(list, fmt.Sprint(b))
		}
		err := fmt.Errorf("wrapped: %w", fmt.Errorf("bad key %x", key))
		for n, t := range map[string]string{
			"raw": "key: " + string(key), "hex": fmt.Sprintf("key %x.", key), "HEX": fmt.Sprintf("key %X.", key), "spaced": fmt.Sprintf("% x", key),
			"base64": "k=" + base64.StdEncoding.EncodeToString(key), "url": base64.URLEncoding.EncodeToString(key[3:]), "list": fmt.Sprint(key), "go": fmt.Sprintf("%#v", key),
			"comma": strings.Join(list, ","), "quoted": fmt.Sprintf("%q", key), "array": fmt.Sprint(arr32(key)), "struct": fmt.Sprint(message.NewKeys(key, nil, nil, 3)),
			"short": fmt.Sprintf("%x", key[4:12]), "wrapped": err.Error(),
		} {
			found := false
			for _, r := range readings(t) {
				if _, ok := s.find(r); ok {
					found = true
				}
			}
			if !found {
				panic(harnessErr{"the search for secrets does not see " + n})
			}
			k.Eval1("planted secret found")
		}
		fs := listen(c, pr, func() secrets { return s }, func() { fmt.Println("key", key) })
		fs = append(fs, listen(c, pr, func() secrets { return s }, func() { log.Printf("key %x", key) })...)
		fs = append(fs, listen(c, pr, func() secrets { return s }, func() { logger.Error("key ", key) })...)
		if len(fs) != 3 {
			panic(harnessErr{"prints are not seen"})
		}
		k.Eval1("planted secret found")
	})
}

func leakBundles(c *Ctx, pr *printed) {
	c.Each("bundles", 4, itoa, func(k *Case, i int) {
		js, opk := i%2 == 1, int64(1)
		if i/2 == 1 {
			opk = -1
		}
		cfg := two("bundles", js, plan(0, 1, 1), 0, 0)
		w := newSW(cfg, false)
		for _, x := range badBundles(w.P[1], []*Party{w.P[0]}, cfg.Spk, opk, js, c.Thorough) {
			p := w.P[0].Clone()
			st := &Store{P: p, Ser: w.Ser}
			fs := listen(c, pr, func() secrets {
				s := w.sessionSecrets()
				s.drop(x.b.IdentityKey().PublicKey().Serialize())
				if x.b.SignedPreKey() != nil {
					s.drop(x.b.SignedPreKey().Serialize())
				}
				sg := x.b.SignedPreKeySignature()
				s.drop(sg[:])
				return s
			}, func() { presentBad(st, w.addr(1), x) })
			for _, f := range fs {
				k.Failf("a bundle (%s): %s", x.name, f.Text)
				return
			}
			k.Eval1("bundle refused")
		}
	})
}

// leakRecords loads damaged records.
func leakRecords(c *Ctx, pr *printed) {
	type rec struct {
		name string
		b    []byte
		load func(b []byte) error
	}
	build := func() (out []rec) {
		cfg := two("records", true, plan(0, 1, 1), 0, 0)
		cfg.Setup = append(established(), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2})
		w := newSW(cfg, false)
		ser := w.Ser
		sess := func(b []byte) error { _, err := record.NewSessionFromBytes(b, ser.Session, ser.State); return err }
		for u := range w.P {
			out = append(out, rec{fmt.Sprint("session of user ", u), w.P[u].Sess[w.addr(1-u)], sess})
		}
		state := w.loadRec(1, 0).SessionState().Serialize()
		out = append(out, rec{"state", state, func(b []byte) error { _, err := record.NewStateFromBytes(b, ser.State); return err }})
		out = append(out, rec{"prekey", w.P[1].Pre[2], func(b []byte) error { _, err := record.NewPreKeyFromBytes(b, ser.PreKeyRecord); return err }})
		out = append(out, rec{"signed prekey", w.P[1].spre(cfg.Spk), func(b []byte) error {
			_, err := record.NewSignedPreKeyFromBytes(b, ser.SignedPreKeyRecord)
			return err
		}})
		gc := grp("records", true, 1, 0, 1, 0)
		gc.Setup = []GOp{{'C', 0, 0, 0, 0}, {'P', 1, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'S', 0, 0, 0, 0}, {'D', 1, 0, 1, 0}}
		g := newGW(gc, false)
		for u := range g.P {
			out = append(out, rec{fmt.Sprint("sender key of user ", u), g.P[u].SK[g.gname(0)], func(b []byte) error {
				_, err := grecord.NewSenderKeyFromBytes(b, ser.SenderKeyRecord, ser.SenderKeyState)
				return err
			}})
		}
		return
	}
	recs, ok := Setup(c, "records", classes("leak"), build)
	if !ok {
		return
	}
	type job struct{ r, i, how int }
	var jobs []job
	for r, x := range recs {
		for i := 0; i < len(x.b); i += c.Q(5, 1) {
			for how := 0; how < 4; how++ {
				jobs = append(jobs, job{r, i, how})
			}
		}
	}
	c.Each("records", len(jobs), func(i int) string { return fmt.Sprint(jobs[i]) }, func(k *Case, i int) {
		j := jobs[i]
		x := recs[j.r]
		var b []byte
		switch j.how {
		case 0:
			b = append(b, x.b[:j.i]...)
		case 1:
			b = flip(x.b, j.i, 1)
		case 2:
			b = flip(x.b, j.i, 0x40)
		case 3: // something left out
			b = append(b, x.b[:j.i]...)
			if j.i+8 < len(x.b) {
				b = append(b, x.b[j.i+8:]...)
			}
		}
		fs := listen(c, pr, func() secrets {
			s := secrets{}
			t := map[string]bool{}
			tokens(x.b, t)
			for y := range t {
				s.add("a key in the record", []byte(y))
			}
			return s
		}, func() { call(nil, func(r *Res) { r.Err = x.load(b) }) })
		for _, f := range fs {
			k.Failf("loading a damaged %s (byte %d, change %d): %s", x.name, j.i, j.how, f.Text)
			return
		}
		k.Eval1("record")
	})
}

// leakPrimitives calls what works on keys directly with bad input.
func leakPrimitives(c *Ctx, pr *printed) {
	c.Each("primitives", 64, itoa, func(k *Case, i int) {
		key := ref.HKDF([]byte{byte(i)}, nil, []byte("leak"), 80)
		s := secrets{}
		s.add("a key", key)
		try := func(what string, f func() error) bool {
			fs := listen(c, pr, func() secrets { return s }, func() { call(nil, func(r *Res) { r.Err = f() }) })
			for _, x := range fs {
				return k.Failf("%s: %s", what, x.Text)
			}
			k.Eval1("primitive")
			return true
		}
		text := leakPayload(i, 7)
		s.add("the plaintext", text)
		ct, err := cipher.EncryptCbc(key[64:80], key[:32], text)
		if err != nil {
			return
		}
		n := i % 50
		ks := func(n int) []byte { return append([]byte{}, key[:n]...) }
		try("cipher.EncryptCbc", func() error { _, err := cipher.EncryptCbc(key[64:80], ks(n), text); return err })
		try("cipher.DecryptCbc", func() error { _, err := cipher.DecryptCbc(key[64:80], ks(n), ct); return err })
		try("cipher.DecryptCbc, shorter", func() error { _, err := cipher.DecryptCbc(key[64:80], key[:32], ct[:n%len(ct)]); return err })
		try("cipher.DecryptCbc, other key", func() error { _, err := cipher.DecryptCbc(key[64:80], key[32:64], ct); return err })
		try("cipher.DecryptCbc, changed", func() error { _, err := cipher.DecryptCbc(key[64:80], key[:32], flip(ct, -1-i%16, 0x77)); return err })
		try("cipher.Encrypt", func() error { _, err := cipher.Encrypt(key[64:80], ks(n), text); return err })
		try("cipher.Decrypt", func() error { _, err := cipher.Decrypt(key[64:80], key[:32], flip(ct, -1-i%16, 0x55)); return err })
		for _, l := range []int{-1, 255*32 + 1, 1 << 20} {
			try("kdf.DeriveSecrets", func() error { _, err := kdf.DeriveSecrets(key[:32+n%40], key[:n], key[:7], l); return err })
		}
		try("bytehelper.Split", func() error { bytehelper.Split(ks(n), 32, 32); return nil })
		try("bytehelper.SplitThree", func() error { _, err := bytehelper.SplitThree(ks(n), 32, 32, 16); return err })
		try("bytehelper.Trim", func() error { bytehelper.Trim(ks(n), 64); return nil })
		try("ecc.DecodePoint", func() error { _, err := ecc.DecodePoint(ks(n), 0); return err })
		try("ecc.DecodePoint, offset", func() error { _, err := ecc.DecodePoint(ks(n), n/2); return err })
		js := i%2 == 1
		ser := serializer(js)
		var m *protocol.SignalMessage
		kp := refKey(7)
		try("protocol.NewSignalMessage", func() error {
			ik := identityPair("leak").PublicKey()
			var err error
			m, err = protocol.NewSignalMessage(3, 1, 0, key[32:64], ecc.NewDjbECPublicKey(kp.Pub), ct, ik, ik, ser.SignalMessage)
			return err
		})
		if m != nil {
			try("VerifyMac", func() error {
				a, b := identityPair("leak").PublicKey(), identityPair("leak2").PublicKey()
				o := append([]byte{}, key[:32]...)
				if e := m.VerifyMac(3, a, b, key[32:64]); e != nil {
					fmt.Fprint(io.Discard, e)
				}
				return m.VerifyMac(3, a, a, o)
			})
		}
		priv := append([]byte{}, key[:32]...)
		sh := ref.DH(ref.Clamp(arr32(priv)), refKey(71).Pub)
		s.add("the shared secret", sh[:])
		s.add("the envelope's keys", ref.HKDF(sh[:], nil, []byte("Mixin Provisioning Message"), 64))
		p := ref.PublicKey(ref.Clamp(arr32(priv)))
		good := provEnvelope(refKey(71), p, key[64:80], text, nil)
		for _, content := range []string{"", "!!", base64.StdEncoding.EncodeToString(key[:n]), good,
			reprov(good, func(p, b []byte) ([]byte, []byte) { return p, flip(b, -1-i%32, 1) }),
			reprov(good, func(p, b []byte) ([]byte, []byte) { return p, b[:n%len(b)] }),
			reprov(good, func(p, b []byte) ([]byte, []byte) { return flip(p, 1+i%31, 1), b })} {
			content := content
			try("provision.Decrypt", func() error {
				_, err := provision.Decrypt(base64.StdEncoding.EncodeToString(priv), content)
				return err
			})
		}
	})
}
