package ref

// Hand-written protobuf subset: varint and length-delimited fields, in field order.

type Field struct {
	Num    int
	Bytes  []byte // nil for varints
	Val    uint64
	Varint bool
}

func putVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func VarintField(b []byte, num int, v uint64) []byte {
	b = putVarint(b, uint64(num)<<3)
	return putVarint(b, v)
}

func BytesField(b []byte, num int, v []byte) []byte {
	b = putVarint(b, uint64(num)<<3|2)
	b = putVarint(b, uint64(len(v)))
	return append(b, v...)
}

func varint(b []byte) (uint64, []byte, bool) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, b[i+1:], true
		}
	}
	return 0, nil, false
}

// as is the field's number if its wire type is the given one (b bytes, v varint).
func (f *Field) as(types string) int {
	if f.Num > len(types) || (types[f.Num-1] == 'v') != f.Varint {
		return 0
	}
	return f.Num
}

// Fields parses a protobuf message. Fields of other wire types than varint and
// length-delimited are skipped.
func Fields(b []byte) ([]Field, bool) {
	out, rest, ok := fields(b, 0, 0)
	return out, ok && len(rest) == 0
}

func fields(b []byte, group uint64, depth int) (out []Field, rest []byte, ok bool) {
	if depth > 100 {
		return nil, nil, false
	}
	for len(b) > 0 {
		k, rest, ok := varint(b)
		if !ok || k>>3 == 0 || k>>3 > 1<<29-1 {
			return nil, nil, false
		}
		b = rest
		f := Field{Num: int(k >> 3)}
		switch k & 7 {
		case 0:
			f.Val, b, ok = varint(b)
			if !ok {
				return nil, nil, false
			}
			f.Varint = true
		case 2:
			var n uint64
			n, b, ok = varint(b)
			if !ok || n > uint64(len(b)) {
				return nil, nil, false
			}
			f.Bytes = append([]byte{}, b[:n]...)
			b = b[n:]
		case 1, 5:
			n := 8
			if k&7 == 5 {
				n = 4
			}
			if len(b) < n {
				return nil, nil, false
			}
			b = b[n:]
			continue
		case 3:
			_, b, ok = fields(b, k>>3, depth+1)
			if !ok {
				return nil, nil, false
			}
			continue
		case 4:
			if group == 0 || k>>3 != group {
				return nil, nil, false
			}
			return nil, b, true
		default:
			return nil, nil, false
		}
		out = append(out, f)
	}
	return out, b, group == 0
}

// Signal is a SignalMessage.
type Signal struct {
	Version    byte
	Ratchet    []byte // 33 bytes
	Ctr, Prev  uint32
	Ciphertext []byte
	Mac        []byte
	Body       []byte // protobuf bytes
}

func EncodeSignalBody(ratchet []byte, ctr, prev uint32, ct []byte) []byte {
	var b []byte
	b = BytesField(b, 1, ratchet)
	b = VarintField(b, 2, uint64(ctr))
	b = VarintField(b, 3, uint64(prev))
	return BytesField(b, 4, ct)
}

func SignalMAC(macKey, senderIK, receiverIK []byte, body []byte) []byte {
	return HMAC(macKey, senderIK, receiverIK, []byte{'3'}, body)[:8]
}

func ParseSignal(w []byte) (*Signal, bool) {
	if len(w) < 9 {
		return nil, false
	}
	s := &Signal{Version: w[0], Body: w[1 : len(w)-8], Mac: w[len(w)-8:]}
	fs, ok := Fields(s.Body)
	if !ok {
		return nil, false
	}
	for _, f := range fs {
		switch f.as("bvvb") {
		case 1:
			s.Ratchet = f.Bytes
		case 2:
			s.Ctr = uint32(f.Val)
		case 3:
			s.Prev = uint32(f.Val)
		case 4:
			s.Ciphertext = f.Bytes
		}
	}
	return s, true
}

// PreKeySignal is a PreKeySignalMessage.
type PreKeySignal struct {
	Version           byte
	HasPreKey         bool
	PreKeyID          uint32
	SignedID          uint32
	RegID             uint32
	Base              []byte
	Identity          []byte
	Message           []byte
	HasReg, HasSigned bool
}

func (p *PreKeySignal) Encode() []byte {
	b := []byte{'3'}
	if p.HasPreKey {
		b = VarintField(b, 1, uint64(p.PreKeyID))
	}
	b = BytesField(b, 2, p.Base)
	b = BytesField(b, 3, p.Identity)
	b = BytesField(b, 4, p.Message)
	b = VarintField(b, 5, uint64(p.RegID))
	b = VarintField(b, 6, uint64(p.SignedID))
	return b
}

func ParsePreKeySignal(w []byte) (*PreKeySignal, bool) {
	if len(w) < 1 {
		return nil, false
	}
	p := &PreKeySignal{Version: w[0]}
	fs, ok := Fields(w[1:])
	if !ok {
		return nil, false
	}
	for _, f := range fs {
		switch f.as("vbbbvv") {
		case 1:
			p.HasPreKey, p.PreKeyID = true, uint32(f.Val)
		case 2:
			p.Base = f.Bytes
		case 3:
			p.Identity = f.Bytes
		case 4:
			p.Message = f.Bytes
		case 5:
			p.RegID, p.HasReg = uint32(f.Val), true
		case 6:
			p.SignedID, p.HasSigned = uint32(f.Val), true
		}
	}
	return p, true
}

// SenderKeyMsg is a SenderKeyMessage.
type SenderKeyMsg struct {
	Version    byte
	ID, Iter   uint32
	Ciphertext []byte
	Sig        []byte
	Signed     []byte
}

func EncodeSenderKeyMsg(id, iter uint32, ct []byte) []byte {
	b := []byte{'3'}
	b = VarintField(b, 1, uint64(id))
	b = VarintField(b, 2, uint64(iter))
	return BytesField(b, 3, ct)
}

func ParseSenderKeyMsg(w []byte) (*SenderKeyMsg, bool) {
	if len(w) < 65 {
		return nil, false
	}
	m := &SenderKeyMsg{Version: w[0], Signed: w[:len(w)-64], Sig: w[len(w)-64:]}
	fs, ok := Fields(w[1 : len(w)-64])
	if !ok {
		return nil, false
	}
	for _, f := range fs {
		switch f.as("vvb") {
		case 1:
			m.ID = uint32(f.Val)
		case 2:
			m.Iter = uint32(f.Val)
		case 3:
			m.Ciphertext = f.Bytes
		}
	}
	return m, true
}

// Distribution is a SenderKeyDistributionMessage.
type Distribution struct {
	Version  byte
	ID, Iter uint32
	Chain    []byte
	Signing  []byte
}

func (d *Distribution) Encode() []byte {
	b := []byte{'3'}
	b = VarintField(b, 1, uint64(d.ID))
	b = VarintField(b, 2, uint64(d.Iter))
	b = BytesField(b, 3, d.Chain)
	return BytesField(b, 4, d.Signing)
}

func ParseDistribution(w []byte) (*Distribution, bool) {
	if len(w) < 1 {
		return nil, false
	}
	d := &Distribution{Version: w[0]}
	fs, ok := Fields(w[1:])
	if !ok {
		return nil, false
	}
	for _, f := range fs {
		switch f.as("vvbb") {
		case 1:
			d.ID = uint32(f.Val)
		case 2:
			d.Iter = uint32(f.Val)
		case 3:
			d.Chain = f.Bytes
		case 4:
			d.Signing = f.Bytes
		}
	}
	return d, true
}
