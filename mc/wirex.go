package main

import (
	"encoding/json"

	"verif/mc/ref"

	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/state/record"
)

type jsonOpt struct {
	Value   uint32
	IsEmpty bool
}

type jsonPreKeySignal struct {
	RegistrationID uint32
	PreKeyID       *jsonOpt
	SignedPreKeyID uint32
	BaseKey        []byte
	IdentityKey    []byte
	Message        []byte
	Version        int
}

type jsonSignal struct {
	RatchetKey      []byte
	Counter         uint32
	PreviousCounter uint32
	CipherText      []byte
	Version         int
	Mac             []byte
}

// envelope writes an initial message around an ordinary one.
func envelope(js bool, opk int64, spk, reg uint32, base, ik, inner []byte) []byte {
	if js {
		m := jsonPreKeySignal{RegistrationID: reg, SignedPreKeyID: spk, BaseKey: base, IdentityKey: ik, Message: inner, Version: 3}
		if opk >= 0 {
			m.PreKeyID = &jsonOpt{Value: uint32(opk)}
		}
		b, err := json.Marshal(m)
		if err != nil {
			return nil
		}
		return b
	}
	p := ref.PreKeySignal{HasPreKey: opk >= 0, PreKeyID: uint32(opk), SignedID: spk, RegID: reg, Base: base, Identity: ik, Message: inner}
	return p.Encode()
}

// rewrap writes an initial message again with another inner message or other fields.
func rewrap(wire, inner []byte, js bool, edit func(h *hdr)) []byte {
	h, ok := parseHdr(wire, 3, js)
	if !ok {
		return nil
	}
	if inner == nil {
		inner = rawInner(wire, js)
	}
	if edit != nil {
		edit(h)
	}
	opk := int64(-1)
	if h.HasOpk {
		opk = int64(h.Opk)
	}
	return envelope(js, opk, h.Spk, h.Reg, h.Base, h.IK, inner)
}

func rawInner(wire []byte, js bool) []byte {
	if js {
		var m jsonPreKeySignal
		if json.Unmarshal(wire, &m) != nil {
			return nil
		}
		return m.Message
	}
	p, ok := ref.ParsePreKeySignal(wire)
	if !ok {
		return nil
	}
	return p.Message
}

// sig is an ordinary message taken apart.
type sig struct {
	Ver       int // 3 unless changed (protobuf: the version byte)
	Ratchet   []byte
	Ctr, Prev uint32
	CT, Mac   []byte
}

func splitSig(wire []byte, js bool) (*sig, bool) {
	if js {
		var m jsonSignal
		if json.Unmarshal(wire, &m) != nil {
			return nil, false
		}
		return &sig{m.Version, m.RatchetKey, m.Counter, m.PreviousCounter, m.CipherText, m.Mac}, true
	}
	s, ok := ref.ParseSignal(wire)
	if !ok {
		return nil, false
	}
	return &sig{int(s.Version), s.Ratchet, s.Ctr, s.Prev, s.Ciphertext, s.Mac}, true
}

func (s *sig) join(js bool) []byte {
	if js {
		b, err := json.Marshal(jsonSignal{s.Ratchet, s.Ctr, s.Prev, s.CT, s.Ver, s.Mac})
		if err != nil {
			return nil
		}
		return b
	}
	b := append([]byte{byte(s.Ver)}, ref.EncodeSignalBody(s.Ratchet, s.Ctr, s.Prev, s.CT)...)
	return append(b, s.Mac...)
}

// editSession changes the stored form of a session; false if that is not possible.
func editSession(p *Party, peer Addr, ser *serialize.Serializer, edit func(cur map[string]interface{}) bool) bool {
	s, err := ser.Session.Deserialize(p.Sess[peer])
	if err != nil {
		return false
	}
	b, err := json.Marshal(s)
	if err != nil {
		return false
	}
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return false
	}
	cur, ok := m["SessionState"].(map[string]interface{})
	if !ok || !edit(cur) {
		return false
	}
	b, err = json.Marshal(m)
	if err != nil {
		return false
	}
	var out record.SessionStructure
	if json.Unmarshal(b, &out) != nil {
		return false
	}
	p.Sess[peer] = ser.Session.Serialize(&out)
	return true
}

// shiftChain adds off to the index of a chain key: chain -1 is the sending chain.
func shiftChain(p *Party, peer Addr, ser *serialize.Serializer, chain int, off uint32) bool {
	return editSession(p, peer, ser, func(cur map[string]interface{}) bool {
		var ch map[string]interface{}
		if chain < 0 {
			ch, _ = cur["SenderChain"].(map[string]interface{})
		} else if l, ok := cur["ReceiverChains"].([]interface{}); ok && chain < len(l) {
			ch, _ = l[chain].(map[string]interface{})
		}
		if ch == nil {
			return false
		}
		ck, ok := ch["ChainKey"].(map[string]interface{})
		if !ok {
			return false
		}
		i, ok := ck["Index"].(float64)
		if !ok {
			return false
		}
		ck["Index"] = float64(uint32(i) + off)
		return true
	})
}
