package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/serialize"
)

// S05: bytes from the network never crash or hang the library.

func init() { register("S05", "exploration", checkS05) }

// kinds of network input
const (
	kSignal = iota
	kPreKey
	kGroup
	kDist
	kinds
)

var kindName = []string{"ordinary", "initial", "group", "distribution"}

type jsonGroup struct {
	ID, Iteration uint32
	CipherText    []byte
	Version       uint32
	Signature     []byte
}

type jsonDist struct {
	ID, Iteration        uint32
	ChainKey, SigningKey []byte
	Version              uint32
}

// tok is one way of writing a field; nil bytes mean absent.
type tok struct {
	name string
	b    []byte
	far  bool // a counter that takes thousands of steps to reach
	long bool
}

// fieldSpec: number (proto) and name (JSON) of a field, its kind, and genuine value.
type fieldSpec struct {
	num  int
	name string
	typ  byte // b bytes, k key, v number, m message
	bv   []byte
	nv   uint64
	has  bool
}

func specOf(kind int, wire []byte, js bool) (fs []fieldSpec, tail []byte, ok bool) {
	switch kind {
	case kSignal:
		s, k := splitSig(wire, js)
		if !k {
			return
		}
		fs = []fieldSpec{{1, "RatchetKey", 'k', s.Ratchet, 0, true}, {2, "Counter", 'v', nil, uint64(s.Ctr), true}, {3, "PreviousCounter", 'v', nil, uint64(s.Prev), true},
			{4, "CipherText", 'b', s.CT, 0, true}}
		if js {
			fs = append(fs, fieldSpec{0, "Mac", 'b', s.Mac, 0, true}, fieldSpec{0, "Version", 'v', nil, 3, true})
		}
		return fs, s.Mac, true
	case kPreKey:
		h, k := parseHdr(wire, 3, js)
		if !k {
			return
		}
		in := rawInner(wire, js)
		fs = []fieldSpec{{1, "PreKeyID", 'o', nil, uint64(h.Opk), h.HasOpk}, {2, "BaseKey", 'k', h.Base, 0, true}, {3, "IdentityKey", 'k', h.IK, 0, true},
			{4, "Message", 'm', in, 0, true}, {5, "RegistrationID", 'v', nil, uint64(h.Reg), true}, {6, "SignedPreKeyID", 'v', nil, uint64(h.Spk), true}}
		if js {
			fs = append(fs, fieldSpec{0, "Version", 'v', nil, 3, true})
		}
		return fs, nil, true
	case kGroup:
		if js {
			var m jsonGroup
			if json.Unmarshal(wire, &m) != nil {
				return
			}
			return []fieldSpec{{0, "ID", 'v', nil, uint64(m.ID), true}, {0, "Iteration", 'v', nil, uint64(m.Iteration), true}, {0, "CipherText", 'b', m.CipherText, 0, true},
				{0, "Signature", 'b', m.Signature, 0, true}, {0, "Version", 'v', nil, uint64(m.Version), true}}, nil, true
		}
		m, k := ref.ParseSenderKeyMsg(wire)
		if !k {
			return
		}
		return []fieldSpec{{1, "ID", 'v', nil, uint64(m.ID), true}, {2, "Iteration", 'v', nil, uint64(m.Iter), true}, {3, "CipherText", 'b', m.Ciphertext, 0, true}}, m.Sig, true
	case kDist:
		if js {
			var m jsonDist
			if json.Unmarshal(wire, &m) != nil {
				return
			}
			return []fieldSpec{{0, "ID", 'v', nil, uint64(m.ID), true}, {0, "Iteration", 'v', nil, uint64(m.Iteration), true}, {0, "ChainKey", 'b', m.ChainKey, 0, true},
				{0, "SigningKey", 'k', m.SigningKey, 0, true}, {0, "Version", 'v', nil, uint64(m.Version), true}}, nil, true
		}
		d, k := ref.ParseDistribution(wire)
		if !k {
			return
		}
		return []fieldSpec{{1, "ID", 'v', nil, uint64(d.ID), true}, {2, "Iteration", 'v', nil, uint64(d.Iter), true}, {3, "ChainKey", 'b', d.Chain, 0, true}, {4, "SigningKey", 'k', d.Signing, 0, true}}, nil, true
	}
	return
}

func tag(num, wt int) []byte { return binary.AppendUvarint(nil, uint64(num)<<3|uint64(wt)) }

// toks lists the ways of writing a field, the genuine one first.
func (f *fieldSpec) toks(js bool, inners [][]byte) (out []tok) {
	add := func(n string, b []byte) { out = append(out, tok{f.name + " " + n, b, false, false}) }
	var byt [][2]interface{}
	bt := func(n string, b []byte) { byt = append(byt, [2]interface{}{n, b}) }
	if f.typ != 'v' && f.typ != 'o' {
		if f.has {
			bt("genuine", f.bv)
		}
		bt("empty", []byte{})
		bt("1 byte", []byte{5})
		switch f.typ {
		case 'k':
			bt("32 bytes", append([]byte{5}, make([]byte, 31)...))
			bt("zero point", append([]byte{5}, make([]byte, 32)...))
			bt("other type", append([]byte{4}, bytes.Repeat([]byte{9}, 32)...))
			bt("attacker", attacker())
			bt("34 bytes", append(append([]byte{}, attacker()...), 1))
			bt("all ones", bytes.Repeat([]byte{255}, 33))
			one := append([]byte{5, 1}, make([]byte, 31)...)
			bt("point one", one)
		case 'b':
			for _, n := range []int{7, 8, 15, 16, 17, 31, 33, 63, 64, 65} {
				bt(fmt.Sprint(n, " bytes"), bytes.Repeat([]byte{0x61}, n))
			}
		case 'm':
			for i, m := range inners {
				bt(fmt.Sprint("inner ", i), m)
			}
		}
	}
	nums := []uint64{0, 1, 2, 3, 4, 7, f.nv + 1, f.nv + 2000, f.nv + 2001, f.nv + 5000, f.nv + 5001, lastResort, 1 << 31, 1<<32 - 1}
	if js {
		if f.typ == 'v' || f.typ == 'o' {
			w := func(s string) string {
				if f.typ == 'o' {
					return `{"Value":` + s + `,"IsEmpty":false}`
				}
				return s
			}
			if f.has {
				add("genuine", []byte(w(fmt.Sprint(f.nv))))
			} else {
				add("genuine none", []byte("null"))
			}
			for _, n := range nums {
				add(fmt.Sprint(n), []byte(w(fmt.Sprint(n))))
				out[len(out)-1].far = n > f.nv+100 && n < f.nv+6000
			}
			for _, s := range []string{"-1", "4294967296", "1e3", "1.5", "1e400", "99999999999999999999"} {
				add(s, []byte(w(s)))
			}
			if f.typ == 'o' {
				for _, s := range []string{`{}`, `{"Value":1,"IsEmpty":true}`, `{"IsEmpty":true}`, `{"Value":null}`} {
					add(s, []byte(s))
				}
			}
		}
		for _, x := range byt {
			add(x[0].(string), []byte(`"`+base64.StdEncoding.EncodeToString(x[1].([]byte))+`"`))
		}
		for _, s := range []string{"null", `""`, `"x"`, `"%%%%"`, "{}", "[]", "[1,2,300]", "true", "0"} {
			add(s, []byte(s))
		}
	} else {
		num := func(n uint64) []byte { return binary.AppendUvarint(tag(f.num, 0), n) }
		if f.typ == 'v' || f.typ == 'o' {
			if f.has {
				add("genuine", num(f.nv))
			} else {
				add("genuine none", nil)
			}
			for _, n := range nums {
				add(fmt.Sprint(n), num(n))
				out[len(out)-1].far = n > f.nv+100 && n < f.nv+6000
			}
			add("64 bits", num(1<<64-1))
			add("2^32", num(1<<32))
			add("unterminated", append(tag(f.num, 0), 0x80, 0x80))
			add("overlong", append(tag(f.num, 0), 0x81, 0x80, 0x80, 0x80, 0x80, 0x00))
			add("11 bytes", append(tag(f.num, 0), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01))
		}
		for _, x := range byt {
			add(x[0].(string), ref.BytesField(nil, f.num, x[1].([]byte)))
		}
		if f.typ != 'v' {
			add("twice", append(ref.BytesField(nil, f.num, f.bv), ref.BytesField(nil, f.num, []byte{1})...))
			add("as number", num(5))
		} else {
			add("as bytes", ref.BytesField(nil, f.num, []byte{1, 2}))
		}
		add("length beyond the end", append(tag(f.num, 2), 0x7f))
		add("huge length", append(tag(f.num, 2), 0xff, 0xff, 0xff, 0xff, 0x0f))
		add("negative length", append(tag(f.num, 2), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01))
		add("fixed32", append(tag(f.num, 5), 1, 2, 3, 4))
		add("fixed64", append(tag(f.num, 1), 1, 2, 3, 4, 5, 6, 7, 8))
		add("group", append(tag(f.num, 3), tag(f.num, 4)...))
		add("open group", tag(f.num, 3))
		add("end of group", tag(f.num, 4))
		add("wire type 7", tag(f.num, 7))
	}
	add("absent", nil)
	// very long ones; these are not combined with others
	if f.typ != 'v' && f.typ != 'o' {
		for _, n := range []int{127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 2048, 4096, 16384, 65535, 65536, 70000} {
			long := make([]byte, n)
			for i := range long {
				long[i] = byte(i)
			}
			if f.has && len(f.bv) < n { // begins as the genuine one
				copy(long, f.bv)
			}
			if js {
				add(fmt.Sprint(n, " bytes"), []byte(`"`+base64.StdEncoding.EncodeToString(long)+`"`))
			} else {
				add(fmt.Sprint(n, " bytes"), ref.BytesField(nil, f.num, long))
			}
			out[len(out)-1].long = true
		}
	}
	return
}

func joinFields(kind int, fs []fieldSpec, ts []tok, tail []byte, js bool, ver byte) []byte {
	if js {
		var p []string
		for i, f := range fs {
			if ts[i].b != nil {
				p = append(p, `"`+f.name+`":`+string(ts[i].b))
			}
		}
		return []byte("{" + strings.Join(p, ",") + "}")
	}
	b := []byte{ver}
	for _, t := range ts {
		b = append(b, t.b...)
	}
	return append(b, tail...)
}

// mutants lists forms of a genuine input in which any two fields are written in any way.
func mutants(kind int, wire []byte, js bool, inners [][]byte, pairs, allFar bool, f func(name string, b []byte) bool) bool {
	fs, tail, ok := specOf(kind, wire, js)
	if !ok {
		return true
	}
	all := make([][]tok, len(fs))
	cur := make([]tok, len(fs))
	for i := range fs {
		all[i] = fs[i].toks(js, inners)
		cur[i] = all[i][0]
	}
	tails := [][]byte{tail}
	if !js && (kind == kSignal || kind == kGroup) {
		tails = append(tails, nil, tail[:len(tail)-1], make([]byte, len(tail)), append([]byte{0}, tail...))
	}
	for _, tl := range tails {
		for i := range fs {
			for _, t := range all[i] {
				cur[i] = t
				if !f(t.name, joinFields(kind, fs, cur, tl, js, '3')) {
					return false
				}
			}
			cur[i] = all[i][0]
		}
	}
	if !js {
		for v := 0; v < 256; v++ {
			if !f(fmt.Sprint("version byte ", v), joinFields(kind, fs, cur, tail, js, byte(v))) {
				return false
			}
		}
	}
	if pairs {
		for i := range fs {
			for j := i + 1; j < len(fs); j++ {
				for _, t := range all[i] {
					if t.long || t.far && !allFar {
						continue // alone and with other tails above
					}
					for _, u := range all[j] {
						if u.long || u.far && !allFar {
							continue
						}
						cur[i], cur[j] = t, u
						if !f(t.name+", "+u.name, joinFields(kind, fs, cur, tail, js, '3')) {
							return false
						}
					}
				}
				cur[i], cur[j] = all[i][0], all[j][0]
			}
		}
	}
	// no field at all, and each alone
	none := make([]tok, len(fs))
	if !f("no field", joinFields(kind, fs, none, tail, js, '3')) {
		return false
	}
	for i := range fs {
		for _, t := range all[i] {
			x := make([]tok, len(fs))
			x[i] = t
			if !f("only "+t.name, joinFields(kind, fs, x, tail, js, '3')) {
				return false
			}
		}
	}
	return true
}

// byteMutants lists every truncation and every byte replaced.
func byteMutants(wire []byte, all bool, f func(name string, b []byte) bool) bool {
	for n := 0; n < len(wire); n++ {
		if !f(fmt.Sprint("first ", n), append([]byte{}, wire[:n]...)) || !f(fmt.Sprint("without the first ", n), append([]byte{}, wire[n:]...)) {
			return false
		}
	}
	for i := range wire {
		for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff, wire[i] ^ 1, wire[i] ^ 0x80, wire[i] + 8, wire[i] - 1, wire[i] + 1} {
			b := append([]byte{}, wire...)
			b[i] = v
			if !f(fmt.Sprintf("byte %d = %d", i, v), b) {
				return false
			}
		}
		if all {
			if !f(fmt.Sprint("without byte ", i), append(append([]byte{}, wire[:i]...), wire[i+1:]...)) {
				return false
			}
			if !f(fmt.Sprint("byte doubled ", i), append(append([]byte{}, wire[:i+1]...), wire[i:]...)) {
				return false
			}
		}
	}
	return true
}

// feed presents bytes of a kind to a copy of a user.
type feedFn func(kind int, b []byte) *Res

// rstate is a state inputs are presented in.
type rstate struct {
	name   string
	js     bool
	feed   feedFn
	inputs map[int][]byte // a genuine input per kind (not yet processed)
}

func gfeed(p *Party, g GName, ser *serialize.Serializer, kind int, b []byte) *Res {
	st := &Store{P: p.Clone(), Ser: ser}
	if kind == kGroup {
		r := st.GDecrypt(g, b)
		if r.Panic == "" && len(b)%8 == 1 {
			if r2 := st.GEncrypt(g, []byte("answer")); r2.Panic != "" {
				return r2
			}
		}
		return r
	}
	r := st.GProcess(g, b)
	if r.OK() { // what has been taken in must be usable
		for _, x := range []*Res{st.GCreate(g), st.GEncrypt(g, []byte("x"))} {
			if x.Panic != "" {
				return x
			}
		}
	}
	return r
}

// rstates builds the states.
func rstates(js bool) (out []*rstate) {
	ser := serializer(js)
	sess := func(name string, w *SW, b int, from int) *rstate {
		return &rstate{name: name, js: js, inputs: map[int][]byte{}, feed: func(kind int, x []byte) *Res {
			st := &Store{P: w.P[b].Clone(), Ser: ser}
			r := st.Receive(w.addr(from), x, kind == kPreKey)
			if r.OK() || len(x)%8 == 0 {
				st2 := &Store{P: w.P[b].Clone(), Ser: ser}
				if r2 := st2.ReceivePlain(w.addr(from), x, kind == kPreKey); r2.Panic != "" {
					return r2
				}
			}
			if r.Panic == "" && len(x)%8 == 1 { // whatever came, sending answers or refuses
				if r2 := st.Encrypt(w.addr(from), []byte("answer")); r2.Panic != "" {
					return r2
				}
			}
			if r.Panic == "" && len(x)%8 == 2 && kind == kPreKey { // a cipher that cannot set up sessions
				st2 := &Store{P: w.P[b].Clone(), Ser: ser}
				r2 := call(st2, func(r *Res) {
					m, err := protocol.NewPreKeySignalMessageFromBytes(append([]byte{}, x...), ser.PreKeySignalMessage, ser.SignalMessage)
					if err != nil {
						r.Err = err
						return
					}
					r.Plain, _, r.Err = st2.plainCipher(w.addr(from)).DecryptMessageReturnKey(m)
				})
				if r2.Panic != "" {
					return r2
				}
			}
			return r
		}}
	}
	last := func(w *SW, a, b int) []byte { return w.Msgs[[3]int{a, b, w.M.NSent[[2]int{a, b}] - 1}].Wire }
	mk := func(name string, setup []SOp) *SW {
		cfg := two("parse-"+name, js, plan(0, 1, 1, 2, -1), 0, 0)
		cfg.Setup = setup
		return newSW(cfg, false)
	}
	// bob has no session; alice's first message
	w := mk("first", []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}})
	s := sess("no session", w, 1, 0)
	s.inputs[kPreKey] = last(w, 0, 1)
	s.inputs[kSignal] = rawInner(last(w, 0, 1), js)
	out = append(out, s)
	no := w.Fork(1)
	no.store(1).RemovePreKey(1)
	s2 := sess("one-time prekey gone", no, 1, 0)
	s2.inputs = s.inputs
	no2 := w.Fork(1)
	no2.store(1).RemoveSignedPreKey(7)
	s3 := sess("signed prekey gone", no2, 1, 0)
	s3.inputs = s.inputs
	// alice waits for an answer; bob's answer
	w4 := mk("pending", []SOp{{'B', 0, 1, 0}, {'S', 0, 1, 0}, {'D', 0, 1, 0}, {'S', 1, 0, 0}})
	s4 := sess("unacknowledged", w4, 0, 1)
	s4.inputs[kSignal], s4.inputs[kPreKey] = last(w4, 1, 0), last(w4, 0, 1)
	// established, chains and skipped messages
	w5 := mk("established", append(established(), SOp{'S', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 2}, SOp{'S', 0, 1, 0}))
	s5 := sess("established", w5, 1, 0)
	s5.inputs[kSignal], s5.inputs[kPreKey] = last(w5, 0, 1), w5.Msgs[[3]int{0, 1, 0}].Wire
	// several sessions, a new one on the way
	w6 := mk("several", append(established(), SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}, SOp{'D', 0, 1, 1}, SOp{'B', 0, 1, 0}, SOp{'S', 0, 1, 0}))
	s6 := sess("several sessions", w6, 1, 0)
	s6.inputs[kPreKey], s6.inputs[kSignal] = last(w6, 0, 1), rawInner(w6.Msgs[[3]int{0, 1, 1}].Wire, js)
	out = append(out, s2, s3, s4, s5, s6)
	// groups
	g := GName{"group", alice}
	al, bo := newParty(alice, identityPair("ga"), 1), newParty(bob, identityPair("gb"), 2)
	must := func(r *Res) []byte {
		if !r.OK() {
			panic(setupErr{"group", []Finding{{"group", r.String()}}})
		}
		return r.Wire
	}
	sa, sb := &Store{P: al, Ser: ser}, &Store{P: bo, Ser: ser}
	dist := must(sa.GCreate(g))
	m0 := must(sa.GEncrypt(g, []byte("zero")))
	m1 := must(sa.GEncrypt(g, []byte("one")))
	m2 := must(sa.GEncrypt(g, []byte("two")))
	gs := func(name string, p *Party, ins map[int][]byte) {
		out = append(out, &rstate{name: name, js: js, inputs: ins, feed: func(kind int, b []byte) *Res { return gfeed(p, g, ser, kind, b) }})
	}
	gs("no group state", bo.Clone(), map[int][]byte{kGroup: m0, kDist: dist})
	must(sb.GProcess(g, dist))
	gs("group member", bo.Clone(), map[int][]byte{kGroup: m0, kDist: dist})
	must(sb.GDecrypt(g, m2))
	gs("group member with skipped messages", bo.Clone(), map[int][]byte{kGroup: m1, kDist: dist})
	gs("group sender", al.Clone(), map[int][]byte{kGroup: m1, kDist: dist})
	return
}

func checkS05(c *Ctx) {
	c.Rule("Inputs of each kind (ordinary, initial, group, distribution message, both serializers) are enumerated: all byte strings up to a length, all strings over a structural alphabet up to a length, and of genuine messages all truncations, all byte changes from a list, all pairs of fields each written in every way of a list (absent, empty, every relevant length, boundary numbers, wrong wire types, malformed lengths). Each is parsed and decrypted by a copy of a user in every one of a list of states (no session, missing prekeys, unacknowledged, established with skipped messages, several sessions; no group state, member, sender). Authentic messages of a malicious peer with every padding byte and length, odd keys and extreme counters follow, and provisioning envelopes. The call must return without panicking; a supervisor ends calls that do not return. Every state reachable in short histories is visited with the inputs as well.")
	c.Assume("records loaded from the user's own storage are intact (only network bytes are arbitrary)")
	var distinct int64
	one := func(k *Case, what string, r *Res) bool {
		k.Eval(1)
		if r.Panic != "" {
			return k.Failf("%s: %v", what, r)
		}
		if r.OK() {
			k.c.Outcome("accepted")
		} else {
			e := r.Err.Error()
			if i := strings.IndexAny(e, "0123456789:"); i > 0 {
				e = e[:i]
			}
			k.c.Outcome(e)
		}
		return true
	}
	show := func(b []byte) string {
		if len(b) > 200 {
			return fmt.Sprintf("%x...", b[:200])
		}
		return fmt.Sprintf("%x", b)
	}
	// short strings
	parse := func(ser *serialize.Serializer, kind int, b []byte) *Res {
		return call(nil, func(r *Res) {
			in := append([]byte{}, b...)
			switch kind {
			case kSignal:
				_, r.Err = protocol.NewSignalMessageFromBytes(in, ser.SignalMessage)
			case kPreKey:
				_, r.Err = protocol.NewPreKeySignalMessageFromBytes(in, ser.PreKeySignalMessage, ser.SignalMessage)
			case kGroup:
				_, r.Err = protocol.NewSenderKeyMessageFromBytes(in, ser.SenderKeyMessage)
			case kDist:
				_, r.Err = protocol.NewSenderKeyDistributionMessageFromBytes(in, ser.SenderKeyDistributionMessage)
			}
		})
	}
	c.Each("short", 2*kinds*257, func(i int) string {
		return fmt.Sprintf("json %v kind %s first %d", i%2 == 1, kindName[i/2%kinds], i/2/kinds-1)
	}, func(k *Case, i int) {
		ser, kind, f := serializer(i%2 == 1), i/2%kinds, i/2/kinds
		if f == 256 {
			for _, b := range [][]byte{nil, {}} {
				if !one(k, "empty", parse(ser, kind, b)) {
					return
				}
			}
			return
		}
		if !one(k, show([]byte{byte(f)}), parse(ser, kind, []byte{byte(f)})) {
			return
		}
		for s := 0; s < 256; s++ {
			b := []byte{byte(f), byte(s)}
			if !one(k, show(b), parse(ser, kind, b)) {
				return
			}
		}
		atomic.AddInt64(&distinct, 257)
	})
	protoAlpha := []byte{0x0a, 0x10, 0x12, 0x18, 0x1a, 0x22, 0x28, 0x30, 0x33, 0x00, 0x01, 0x05, 0x21, 0x7f, 0x80, 0xff}
	jsonAlpha := []byte(`{}[]":,0-1eE.tn \`)
	for _, js := range []bool{false, true} {
		js := js
		al := protoAlpha
		if js {
			al = jsonAlpha
		}
		depth := c.Q(4, 5)
		n := len(al)
		c.Each(fmt.Sprint("alphabet-json=", js), n*n*kinds, func(i int) string {
			return fmt.Sprintf("kind %s prefix %d %d", kindName[i%kinds], al[i/kinds%n], al[i/kinds/n])
		}, func(k *Case, i int) {
			ser, kind := serializer(js), i%kinds
			b := []byte{al[i/kinds%n], al[i/kinds/n]}
			var rec func(b []byte) bool
			rec = func(b []byte) bool {
				if !one(k, show(b), parse(ser, kind, b)) {
					return false
				}
				atomic.AddInt64(&distinct, 1)
				if len(b) == depth {
					return true
				}
				for _, x := range al {
					if !rec(append(b[:len(b):len(b)], x)) {
						return false
					}
				}
				return true
			}
			rec(b)
			if js { // and inside an object
				rec2 := func(pre, post string) {
					for _, x := range al {
						for _, y := range al {
							if !one(k, "in "+pre, parse(ser, kind, []byte(pre+string(b)+string([]byte{x, y})+post))) {
								return
							}
						}
					}
				}
				rec2(`{"Version":3,"Message":`, "}")
				rec2(`{"Version":3,"RatchetKey":`, "}")
				rec2(`{"PreKeyID":`, "}")
			}
		})
	}
	// JSON texts of a few tokens
	toks := []string{"null", "true", "{", "}", "[", "]", ":", ",", "0", "-1", "3", "1e9", "4294967296", `""`, `"AAAA"`, `"Version"`, `"Message"`, `"RatchetKey"`, `"PreKeyID"`, `"ChainKey"`, `"Ciphertext"`, `"Signature"`, " ", "\n", "nul", "NaN"}
	td := c.Q(3, 4)
	c.Each("tokens", kinds*(1+len(toks)), func(i int) string {
		return fmt.Sprintf("kind %s, token %d first", kindName[i%kinds], i/kinds-1)
	}, func(k *Case, i int) {
		ser, kind := serializer(true), i%kinds
		var rec func(s string, n int) bool
		rec = func(s string, n int) bool {
			if !one(k, s, parse(ser, kind, []byte(s))) {
				return false
			}
			atomic.AddInt64(&distinct, 1)
			for _, t := range toks {
				if n > 0 && !rec(s+t, n-1) {
					return false
				}
			}
			return true
		}
		if i < kinds { // one value in place of a field's
			for _, t := range toks {
				for _, u := range toks {
					if !one(k, t+":"+u, parse(ser, kind, []byte("{"+t+":"+u+"}"))) || !one(k, "null and "+t, parse(ser, kind, []byte(`{"Version":3,"Message":null,`+t+":"+u+"}"))) {
						return
					}
				}
			}
			return
		}
		rec(toks[i/kinds-1], td-1)
	})
	// mutations in every state
	for _, js := range []bool{false, true} {
		js := js
		states, ok := Setup(c, "states", classes("crash"), func() []*rstate { return rstates(js) })
		if !ok {
			continue
		}
		type job struct {
			s    *rstate
			kind int
			part int
		}
		const parts = 12
		var jobs []job
		for _, s := range states {
			for kind := 0; kind < kinds; kind++ {
				if s.inputs[kind] != nil {
					for p := 0; p < parts; p++ {
						jobs = append(jobs, job{s, kind, p})
					}
				}
			}
		}
		c.Each(fmt.Sprint("states-json=", js), len(jobs), func(i int) string {
			return fmt.Sprintf("%s: %s message, part %d", jobs[i].s.name, kindName[jobs[i].kind], jobs[i].part)
		}, func(k *Case, i int) {
			j := jobs[i]
			in := j.s.inputs[j.kind]
			nth := 0
			f := func(name string, b []byte) bool {
				if nth++; (nth+nth/parts)%parts != j.part {
					return true
				}
				if c.Stop() {
					return false
				}
				atomic.AddInt64(&distinct, 1)
				return one(k, fmt.Sprintf("%s, %s message with %s: %s", j.s.name, kindName[j.kind], name, show(b)), j.s.feed(j.kind, b))
			}
			var inners [][]byte
			if j.kind == kPreKey {
				inner := rawInner(in, js)
				if x := j.s.inputs[kSignal]; x != nil {
					inners = append(inners, x)
				}
				inners = append(inners, inner[:len(inner)/2], inner[:1], in)
			}
			byteMutants(in, c.Thorough || !js, f)
			if j.kind == kPreKey { // and of the message inside
				byteMutants(rawInner(in, js), c.Thorough, func(n string, b []byte) bool {
					e := rewrap(in, b, js, nil)
					return e == nil || f("inner "+n, e)
				})
			}
			mutants(j.kind, in, js, inners, true, c.Thorough, f)
			if j.kind == kPreKey {
				mutants(kSignal, rawInner(in, js), js, nil, c.Thorough, c.Thorough, func(n string, b []byte) bool {
					e := rewrap(in, b, js, nil)
					return e == nil || f("inner "+n, e)
				})
			}
			// the bytes of every other kind
			for kd := 0; kd < kinds; kd++ {
				for _, s := range states {
					if x := s.inputs[kd]; x != nil {
						if (j.kind < 2) == (kd < 2) || true {
							f("a "+kindName[kd]+" message", x)
						}
					}
				}
			}
			if js {
				for _, n := range []int{1000, 20000, 200000} {
					f(fmt.Sprint("deep ", n), []byte(strings.Repeat("[", n)))
					f(fmt.Sprint("deep ", n), []byte(strings.Repeat(`{"Message":`, n)))
				}
			} else {
				for _, n := range []int{100, 5000, 100000} {
					f(fmt.Sprint("deep ", n), append(append([]byte{'3'}, bytes.Repeat([]byte{0x53}, n)...), make([]byte, 64)...))
					f(fmt.Sprint("long ", n), append(append([]byte{'3'}, bytes.Repeat([]byte{0x50, 1}, n)...), make([]byte, 64)...))
				}
			}
		})
		s05Peer(c, js, one)
		s05Group(c, js, one)
	}
	s05Provision(c, one)
	// all states of short histories
	ex := func(cfg *SessCfg, max int) {
		cfg.LiveEach = func(w *SW) []Finding {
			var n int64
			defer func() { k := Case{c: c}; k.Eval(int(n)) }()
			for b := range w.P {
				for _, f := range w.rejects(b, false, &n) {
					if f.Class == "crash" {
						return []Finding{f}
					}
				}
			}
			return nil
		}
		exploreSessions(c, cfg, 30, max, c.Q(40, 2000), classes("crash"), nil)
	}
	ex(two("bfs", false, plan(0, 1, 1), 2, 2), c.Q(300, 20000))
	ex(two("bfs-json", true, plan(0, 1, -1, 2), 2, 1), c.Q(300, 20000))
	atomic.AddInt64(&c.Distinct, distinct)
}

// rawCBC encrypts without padding; p is a multiple of 16 bytes.
func rawCBC(key, iv, p []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(harnessErr{err.Error()})
	}
	out := make([]byte, len(p))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, p)
	return out
}

// odd plaintexts before encryption: every last byte, several fillings
func paddings(all bool) (out [][]byte) {
	for _, n := range []int{16, 32} {
		for v := 0; v < 256; v++ {
			if !all && v > 40 && v%16 > 1 && v != 255 {
				continue
			}
			for _, fill := range []byte{byte(v), 0} {
				p := bytes.Repeat([]byte{fill}, n)
				p[n-1] = byte(v)
				out = append(out, p)
			}
		}
	}
	return
}

// crafted makes an authentic message with arbitrary parts.
func crafted(js bool, mk, from, to []byte, ratchet []byte, ctr, prev uint32, ct []byte) []byte {
	if js {
		body, _ := json.Marshal(jsonSignal{ratchet, ctr, prev, ct, 0, nil})
		mac := ref.SignalMAC(mk, from, to, body)
		return (&sig{3, ratchet, ctr, prev, ct, mac}).join(true)
	}
	body := ref.EncodeSignalBody(ratchet, ctr, prev, ct)
	return append(append([]byte{'3'}, body...), ref.SignalMAC(mk, from, to, body)...)
}

// s05Peer: strangers and peers that know the keys and send odd things.
func s05Peer(c *Ctx, js bool, one func(k *Case, what string, r *Res) bool) {
	p0, ok := Setup(c, "peer", classes("crash"), func() *Party {
		p := newParty(bob, identityPair("victim"), 5)
		addPreKeys(p, serializer(js), []uint32{1, lastResort}, []uint32{7})
		return p
	})
	if !ok {
		return
	}
	ser := serializer(js)
	spk := mustSPre(p0.SPre[7], ser).KeyPair().PublicKey().PublicKey()
	ikp := p0.IK.PublicKey().PublicKey().PublicKey()
	low := [][32]byte{{}, {1}, {0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00},
		{0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c, 0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57}}
	for i := 0; i < 3; i++ {
		b := bytes.Repeat([]byte{255}, 32)
		b[0], b[31] = byte(0xec+i), 0x7f
		var a [32]byte
		copy(a[:], b)
		low = append(low, a)
	}
	type craft struct {
		name string
		f    func() (wire []byte, pk bool, first []byte)
	}
	var cs []craft
	add := func(n string, f func() ([]byte, bool, []byte)) { cs = append(cs, craft{n, f}) }
	// a stranger's authentic first message
	initial := func(rk ref.KeyPair, ratchetBytes []byte, ctr, prev uint32, ctOf func(ck, iv []byte) []byte, h func(*hdr)) []byte {
		s := ref.Initiate(peerIK, refKey(50), rk, ikp, spk, nil, nil, 7, 4242)
		ch := s.SendChain
		for i := uint32(0); i < ctr && i < 6000; i++ {
			ch = ref.NextChain(ch)
		}
		ck, mk, iv := ref.MessageKeys(ch)
		if ratchetBytes == nil {
			ratchetBytes = ref.Pub33(rk.Pub)
		}
		inner := crafted(js, mk, ref.Pub33(peerIK.Pub), ref.Pub33(ikp), ratchetBytes, ctr, prev, ctOf(ck, iv))
		return envelope(js, -1, 7, 4242, ref.Pub33(s.Base), ref.Pub33(peerIK.Pub), inner)
	}
	plain := func(p []byte) func(ck, iv []byte) []byte {
		return func(ck, iv []byte) []byte { return ref.CBCEncrypt(ck, iv, p) }
	}
	add("sanity", func() ([]byte, bool, []byte) {
		return initial(refKey(51), nil, 0, 0, plain([]byte("hi")), nil), true, nil
	})
	for _, p := range paddings(c.Thorough) {
		p := p
		add(fmt.Sprintf("stranger, last block %x", p), func() ([]byte, bool, []byte) {
			return initial(refKey(51), nil, 0, 0, func(ck, iv []byte) []byte { return rawCBC(ck, iv, p) }, nil), true, nil
		})
	}
	for _, n := range []int{0, 1, 15, 17, 31, 33, 1000} {
		n := n
		add(fmt.Sprint("stranger, ciphertext length ", n), func() ([]byte, bool, []byte) {
			return initial(refKey(51), nil, 0, 0, func(ck, iv []byte) []byte { return make([]byte, n) }, nil), true, nil
		})
	}
	for _, ctr := range []uint32{1, 2000, 5000, 5001, 1 << 31, 1<<32 - 1} {
		for _, prev := range []uint32{0, 1, 1<<32 - 1} {
			ctr, prev := ctr, prev
			add(fmt.Sprint("stranger, counters ", ctr, prev), func() ([]byte, bool, []byte) {
				return initial(refKey(51), nil, ctr, prev, plain([]byte("x")), nil), true, nil
			})
		}
	}
	for i, l := range low {
		i, l := i, l
		add(fmt.Sprint("stranger, low order ratchet key ", i), func() ([]byte, bool, []byte) {
			s := ref.Initiate(peerIK, refKey(50), refKey(51), ikp, spk, nil, nil, 7, 4242)
			root, _ := ref.X3DHInitiator(peerIK, refKey(50), ikp, spk, nil)
			_, ch := zeroStep(root)
			ck, mk, iv := ref.MessageKeys(ch)
			inner := crafted(js, mk, ref.Pub33(peerIK.Pub), ref.Pub33(ikp), ref.Pub33(l), 0, 0, ref.CBCEncrypt(ck, iv, []byte("low")))
			return envelope(js, -1, 7, 4242, ref.Pub33(s.Base), ref.Pub33(peerIK.Pub), inner), true, nil
		})
		for j, m := range low {
			j, m := j, m
			add(fmt.Sprint("low order identity and base key ", i, j), func() ([]byte, bool, []byte) {
				inner := crafted(js, make([]byte, 32), ref.Pub33(l), ref.Pub33(ikp), ref.Pub33(refKey(51).Pub), 0, 0, make([]byte, 16))
				return envelope(js, -1, 7, 4242, ref.Pub33(m), ref.Pub33(l), inner), true, nil
			})
		}
	}
	// a peer with a session: the first message, then an odd one after it
	established := func(ctr uint32, ratchet []byte, ctOf func(ck, iv []byte) []byte) ([]byte, bool, []byte) {
		first := initial(refKey(51), nil, 0, 0, plain([]byte("hi")), nil)
		s := ref.Initiate(peerIK, refKey(50), refKey(51), ikp, spk, nil, nil, 7, 4242)
		ch := s.SendChain
		for i := uint32(0); i < ctr && i < 6000; i++ {
			ch = ref.NextChain(ch)
		}
		ck, mk, iv := ref.MessageKeys(ch)
		if ratchet == nil {
			ratchet = ref.Pub33(refKey(51).Pub)
		}
		return crafted(js, mk, ref.Pub33(peerIK.Pub), ref.Pub33(ikp), ratchet, ctr, 0, ctOf(ck, iv)), false, first
	}
	add("sanity second", func() ([]byte, bool, []byte) { return established(1, nil, plain([]byte("hi"))) })
	for _, p := range paddings(c.Thorough) {
		p := p
		add(fmt.Sprintf("peer, last block %x", p), func() ([]byte, bool, []byte) {
			return established(1, nil, func(ck, iv []byte) []byte { return rawCBC(ck, iv, p) })
		})
	}
	for _, n := range []int{0, 1, 15, 17, 31, 33} {
		n := n
		add(fmt.Sprint("peer, ciphertext length ", n), func() ([]byte, bool, []byte) {
			return established(1, nil, func(ck, iv []byte) []byte { return make([]byte, n) })
		})
	}
	for _, ctr := range []uint32{0, 2, 2000, 4999, 5000, 5001, 5002, 1 << 31, 1<<32 - 1} {
		ctr := ctr
		add(fmt.Sprint("peer, counter ", ctr), func() ([]byte, bool, []byte) { return established(ctr, nil, plain([]byte("far"))) })
	}
	for i, l := range low {
		l := l
		add(fmt.Sprint("peer, low order ratchet key ", i), func() ([]byte, bool, []byte) { return established(0, ref.Pub33(l), plain([]byte("low"))) })
	}
	c.Each(fmt.Sprint("authentic-json=", js), len(cs), func(i int) string { return cs[i].name }, func(k *Case, i int) {
		wire, pk, first := cs[i].f()
		p := p0.Clone()
		if first != nil {
			st := &Store{P: p, Ser: ser}
			r := st.Receive(peerAddr, first, true)
			if !one(k, cs[i].name+" (first message)", r) {
				return
			}
		}
		for _, pl := range []bool{false, true} {
			st := &Store{P: p.Clone(), Ser: ser}
			var r *Res
			if pl {
				r = st.ReceivePlain(peerAddr, wire, pk)
			} else {
				r = st.Receive(peerAddr, wire, pk)
			}
			if !one(k, cs[i].name, r) {
				return
			}
			if strings.HasPrefix(cs[i].name, "sanity") {
				c.Outcome("crafted message accepted: " + fmt.Sprint(js, r.OK()))
			}
			// whatever happened, answering has to be possible or an error
			if p.hasSession(peerAddr) || r.OK() {
				if !one(k, cs[i].name+", then answering", st.Encrypt(peerAddr, []byte("answer"))) {
					return
				}
			}
		}
		k.Trace(1)
		k.Nontrivial(2)
	})
}

// zeroStep is a root step with an all-zero shared secret.
func zeroStep(root []byte) (r, ch []byte) {
	o := ref.HKDF(make([]byte, 32), root, []byte("WhisperRatchet"), 64)
	return o[:32], o[32:]
}

// s05Group: a member with its own signing key sends odd things.
func s05Group(c *Ctx, js bool, one func(k *Case, what string, r *Res) bool) {
	ser := serializer(js)
	sk := refKey(60)
	g := GName{"group", Addr{"mallory", 1}}
	dist := func(id, iter uint32, chain, key []byte) []byte {
		if js {
			b, _ := json.Marshal(jsonDist{id, iter, chain, key, 3})
			return b
		}
		return (&ref.Distribution{ID: id, Iter: iter, Chain: chain, Signing: key}).Encode()
	}
	msg := func(id, iter uint32, ct []byte) func() []byte {
		return func() []byte {
			if js {
				b, _ := json.Marshal(jsonGroup{id, iter, ct, 3, nil})
				s := ref.Sign(sk.Priv, b, []byte("n"))
				b, _ = json.Marshal(jsonGroup{id, iter, ct, 3, s[:]})
				return b
			}
			b := ref.EncodeSenderKeyMsg(id, iter, ct)
			s := ref.Sign(sk.Priv, b, []byte("n"))
			return append(b, s[:]...)
		}
	}
	type cse struct {
		name string
		d    []byte
		ms   []func() []byte
	}
	var cs []cse
	chain := bytes.Repeat([]byte{0x33}, 32)
	pub := ref.Pub33(sk.Pub)
	enc := func(chain []byte, f func(ck, iv []byte) []byte) []byte {
		iv, ck := ref.GroupKeys(chain)
		return f(ck, iv)
	}
	ok := enc(chain, func(ck, iv []byte) []byte { return ref.CBCEncrypt(ck, iv, []byte("hi")) })
	cs = append(cs, cse{"sanity", dist(1, 0, chain, pub), []func() []byte{msg(1, 0, ok)}})
	for _, p := range paddings(c.Thorough) {
		ct := enc(chain, func(ck, iv []byte) []byte { return rawCBC(ck, iv, p) })
		cs = append(cs, cse{fmt.Sprintf("last block %x", p), dist(1, 0, chain, pub), []func() []byte{msg(1, 0, ct), msg(1, 0, ct)}})
	}
	for _, n := range []int{0, 1, 15, 17, 31, 33} {
		ct := make([]byte, n)
		cs = append(cs, cse{fmt.Sprint("ciphertext length ", n), dist(1, 0, chain, pub), []func() []byte{msg(1, 0, ct), msg(1, 1, ct)}})
	}
	its := []uint32{0, 1, 2000, 2001, 4000, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	for _, d := range its {
		for _, m := range its {
			cs = append(cs, cse{fmt.Sprintf("distribution at %d, message %d", d, m), dist(1, d, chain, pub), []func() []byte{msg(1, m, ok), msg(1, m+1, ok), msg(1, m, ok), msg(1, d, ok), msg(1, d-1, ok), msg(1, d+1, ok), msg(1, d+2001, ok)}})
		}
	}
	for _, n := range []int{0, 1, 16, 31, 33, 64, 100, 5000} {
		ch := bytes.Repeat([]byte{7}, n)
		cs = append(cs, cse{fmt.Sprint("chain key length ", n), dist(1, 0, ch, pub), []func() []byte{msg(1, 0, ok), msg(1, 5, ok)}})
	}
	for i, k := range [][]byte{{}, {5}, make([]byte, 32), make([]byte, 33), append([]byte{5}, make([]byte, 32)...), append([]byte{5}, bytes.Repeat([]byte{255}, 32)...),
		append([]byte{4}, pub[1:]...), append(append([]byte{}, pub...), 9), bytes.Repeat([]byte{5}, 70)} {
		cs = append(cs, cse{fmt.Sprint("signing key ", i), dist(1, 0, chain, k), []func() []byte{msg(1, 0, ok)}})
	}
	for _, id := range []uint32{0, 1, 1 << 31, 1<<32 - 1} {
		cs = append(cs, cse{fmt.Sprint("key id ", id), dist(id, 0, chain, pub), []func() []byte{msg(id, 0, ok), msg(id+1, 0, ok)}})
	}
	c.Each(fmt.Sprint("group-authentic-json=", js), len(cs), func(i int) string { return cs[i].name }, func(k *Case, i int) {
		p := newParty(bob, identityPair("gv"), 3)
		st := &Store{P: p, Ser: ser}
		if !one(k, cs[i].name+" (distribution)", st.GProcess(g, cs[i].d)) {
			return
		}
		lv := newParty(bob, identityPair("gv"), 3)
		lv.ToLive(ser)
		storeOf(lv, ser).GProcess(g, cs[i].d)
		for _, mf := range cs[i].ms {
			m := mf()
			r := (&Store{P: p, Ser: ser}).GDecrypt(g, m)
			if !one(k, cs[i].name, r) || !one(k, cs[i].name, storeOf(lv, ser).GDecrypt(g, m)) {
				return
			}
			if cs[i].name == "sanity" {
				c.Outcome("crafted group message accepted: " + fmt.Sprint(js, r.OK()))
			}
			// taking in the distribution message again, and asking for it
			for _, r := range []*Res{(&Store{P: p, Ser: ser}).GProcess(g, cs[i].d), (&Store{P: p, Ser: ser}).GCreate(g), (&Store{P: p, Ser: ser}).GEncrypt(g, []byte("x"))} {
				if r.Panic != "" {
					one(k, cs[i].name+" and then", r)
					return
				}
			}
		}
		k.Trace(1)
		k.Nontrivial(1)
	})
}

// provEnvelope makes a provisioning envelope for a device key.
func provEnvelope(eph ref.KeyPair, device [32]byte, iv, text []byte, edit func(body []byte, mk []byte) []byte) string {
	s := ref.DH(eph.Priv, device)
	k := ref.HKDF(s[:], nil, []byte("Mixin Provisioning Message"), 64)
	body := append([]byte{1}, iv...)
	body = append(body, ref.CBCEncrypt(k[:32], iv, text)...)
	body = append(body, ref.HMAC(k[32:], body)...)
	if edit != nil {
		body = edit(body, k)
	}
	b, _ := json.Marshal(map[string][]byte{"public_key": ref.Pub33(eph.Pub), "body": body})
	return base64.StdEncoding.EncodeToString(b)
}

func s05Provision(c *Ctx, one func(k *Case, what string, r *Res) bool) {
	dev, eph := refKey(70), refKey(71)
	priv := base64.StdEncoding.EncodeToString(dev.Priv[:])
	open := func(content string) *Res {
		return call(nil, func(r *Res) {
			var s string
			s, r.Err = provision.Decrypt(priv, content)
			r.Plain = []byte(s)
		})
	}
	iv := []byte("0123456789abcdef")
	good := provEnvelope(eph, dev.Pub, iv, []byte("secret"), nil)
	raw, _ := base64.StdEncoding.DecodeString(good)
	type cse struct{ name, content string }
	var cs []cse
	add := func(n string, b []byte) { cs = append(cs, cse{n, base64.StdEncoding.EncodeToString(b)}) }
	cs = append(cs, cse{"sanity", good})
	for i := 0; i <= len(good); i++ {
		cs = append(cs, cse{fmt.Sprint("first ", i), good[:i]})
	}
	for n := 0; n < 256; n++ {
		cs = append(cs, cse{fmt.Sprint("byte ", n), string([]byte{byte(n)})}, cse{fmt.Sprint("bytes ", n), string(bytes.Repeat([]byte{byte(n)}, 4))})
	}
	for i := range raw {
		for _, v := range []byte{0, '"', '}', '{', 'A', 0xff, raw[i] ^ 1} {
			b := append([]byte{}, raw...)
			b[i] = v
			add(fmt.Sprintf("byte %d = %d", i, v), b)
		}
		add(fmt.Sprint("json first ", i), raw[:i])
	}
	pubs := [][]byte{nil, {}, {5}, make([]byte, 32), make([]byte, 33), append([]byte{5}, make([]byte, 32)...), append([]byte{4}, eph.Pub[:]...), ref.Pub33(eph.Pub), append(ref.Pub33(eph.Pub), 1), bytes.Repeat([]byte{5}, 100)}
	for pi, p := range pubs {
		for n := 0; n <= 100; n++ {
			for _, v := range []byte{0, 1, 2} {
				body := bytes.Repeat([]byte{v}, n)
				b, _ := json.Marshal(map[string][]byte{"public_key": p, "body": body})
				add(fmt.Sprintf("key %d body of %d times %d", pi, n, v), b)
			}
		}
	}
	for _, s := range []string{`null`, `{}`, `[]`, `1`, `""`, `{"body":null}`, `{"public_key":null}`, `{"body":1,"public_key":2}`, `{"body":[1,2],"public_key":[5]}`, `{"body":"","public_key":""}`} {
		add(s, []byte(s))
	}
	// authentic with odd contents
	k64 := func() []byte {
		s := ref.DH(eph.Priv, dev.Pub)
		return ref.HKDF(s[:], nil, []byte("Mixin Provisioning Message"), 64)
	}()
	auth := func(n string, pre []byte, ct []byte) {
		body := append(append([]byte{}, pre...), ct...)
		body = append(body, ref.HMAC(k64[32:], body)...)
		b, _ := json.Marshal(map[string][]byte{"public_key": ref.Pub33(eph.Pub), "body": body})
		add(n, b)
	}
	for _, p := range paddings(true) {
		auth(fmt.Sprintf("authentic, last block %x", p), append([]byte{1}, iv...), rawCBC(k64[:32], iv, p))
	}
	for _, n := range []int{0, 1, 15, 17, 31} {
		auth(fmt.Sprint("authentic, ciphertext length ", n), append([]byte{1}, iv...), make([]byte, n))
	}
	for _, n := range []int{0, 1, 8, 15} {
		auth(fmt.Sprint("authentic, iv length ", n), append([]byte{1}, iv[:n]...), nil)
	}
	c.Each("provision", len(cs), func(i int) string { return cs[i].name }, func(k *Case, i int) {
		r := open(cs[i].content)
		if !one(k, "provisioning envelope, "+cs[i].name, r) {
			return
		}
		if cs[i].name == "sanity" {
			c.Outcome("crafted envelope accepted: " + fmt.Sprint(r.OK()))
		}
		k.Trace(1)
		k.Nontrivial(1)
	})
	// points
	lens := []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 1056, 1057, 1058, 2048, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 70000, 1 << 20}
	c.Each("points", 140+len(lens), func(i int) string { return fmt.Sprint(i) }, func(k *Case, i int) {
		if i >= 140 {
			i = lens[i-140]
		}
		for _, v := range []byte{0, 4, 5, 6, 255} {
			for off := 0; off <= 3; off++ {
				b := bytes.Repeat([]byte{v}, i)
				r := call(nil, func(r *Res) { _, r.Err = ecc.DecodePoint(b, off) })
				if !one(k, fmt.Sprintf("point of %d bytes %d at %d", i, v, off), r) {
					return
				}
			}
		}
	})
}
