package ref

import (
	"bytes"
	"errors"
	"io"
)

// SKDM is a sender key distribution message.
type SKDM struct {
	ID, Iter uint32
	Chain    []byte
	Signing  []byte // 33 bytes
}

// BuildSKDM encodes a distribution message.
func BuildSKDM(m SKDM) []byte {
	b := []byte{version}
	b = PutInt(b, 1, m.ID)
	b = PutInt(b, 2, m.Iter)
	b = PutBytes(b, 3, m.Chain)
	return PutBytes(b, 4, m.Signing)
}

// ParseSKDM parses a distribution message strictly.
func ParseSKDM(b []byte) (SKDM, error) {
	if len(b) < 1 || b[0] != version {
		return SKDM{}, errors.New("bad version")
	}
	f, err := Parse(b[1:])
	if err != nil {
		return SKDM{}, err
	}
	m := SKDM{uint32(f.Ints[1]), uint32(f.Ints[2]), f.Bytes[3], f.Bytes[4]}
	if len(m.Chain) != 32 || len(m.Signing) != 33 || m.Signing[0] != 5 || !bytes.Equal(BuildSKDM(m), b) {
		return m, errors.New("bad distribution message")
	}
	return m, nil
}

// GroupMsg is a parsed group message.
type GroupMsg struct {
	ID, Iter   uint32
	Ciphertext []byte
	Signed     []byte
	Sig        []byte
}

// ParseGroup parses a group message strictly.
func ParseGroup(b []byte) (*GroupMsg, error) {
	if len(b) < 65 || b[0] != version {
		return nil, errors.New("bad version or length")
	}
	f, err := Parse(b[1 : len(b)-64])
	if err != nil {
		return nil, err
	}
	m := &GroupMsg{uint32(f.Ints[1]), uint32(f.Ints[2]), f.Bytes[3], b[:len(b)-64], b[len(b)-64:]}
	if !bytes.Equal(GroupBody(m.ID, m.Iter, m.Ciphertext), m.Signed) {
		return nil, errors.New("message is not canonically encoded")
	}
	return m, nil
}

// GroupBody encodes what a group message's signature covers.
func GroupBody(id, iter uint32, ct []byte) []byte {
	b := []byte{version}
	b = PutInt(b, 1, id)
	b = PutInt(b, 2, iter)
	return PutBytes(b, 3, ct)
}

// GroupSender is an independent group sender.
type GroupSender struct {
	ID, Iter uint32
	Chain    []byte
	Key      Pair
	rnd      io.Reader
}

// NewGroupSender makes a sending key.
func NewGroupSender(rnd io.Reader, id uint32) *GroupSender {
	ck := make([]byte, 32)
	io.ReadFull(rnd, ck)
	return &GroupSender{ID: id, Chain: ck, Key: NewPair(rnd), rnd: rnd}
}

// Distribution makes a distribution message.
func (g *GroupSender) Distribution() []byte {
	return BuildSKDM(SKDM{g.ID, g.Iter, g.Chain, g.Key.Enc()})
}

// Encrypt makes a group message.
func (g *GroupSender) Encrypt(pt []byte) []byte {
	iv, key := GroupKeys(g.Chain)
	b := GroupBody(g.ID, g.Iter, EncCbc(key, iv, pt))
	r := make([]byte, 64)
	io.ReadFull(g.rnd, r)
	b = append(b, Sign(g.Key.Priv, b, r)...)
	g.Chain = NextChain(g.Chain)
	g.Iter++
	return b
}

// GroupReceiver is an independent receiver of one sending key.
type GroupReceiver struct {
	D    SKDM
	used map[uint32]bool
}

func NewGroupReceiver(d SKDM) *GroupReceiver { return &GroupReceiver{d, map[uint32]bool{}} }

// Decrypt opens a group message.
func (g *GroupReceiver) Decrypt(b []byte) ([]byte, error) {
	m, err := ParseGroup(b)
	if err != nil {
		return nil, err
	}
	if m.ID != g.D.ID || m.Iter < g.D.Iter || g.used[m.Iter] {
		return nil, errors.New("not for this key")
	}
	if !Verify(g.D.Signing[1:], m.Signed, m.Sig) {
		return nil, errors.New("bad signature")
	}
	ck := g.D.Chain
	for i := g.D.Iter; i < m.Iter; i++ {
		ck = NextChain(ck)
	}
	iv, key := GroupKeys(ck)
	pt, err := DecCbc(key, iv, m.Ciphertext)
	if err == nil {
		g.used[m.Iter] = true
	}
	return pt, err
}

// GroupAt is a sending key that makes the message of any iteration. Chain keys
// are remembered, so that this is cheap.
type GroupAt struct {
	ID     uint32
	Base   uint32 // iteration that the first chain key is of
	Key    Pair
	chains [][]byte
	rnd    io.Reader
}

// NewGroupAt makes a sending key.
func NewGroupAt(rnd io.Reader, id uint32) *GroupAt {
	s := NewGroupSender(rnd, id)
	return &GroupAt{ID: id, Key: s.Key, chains: [][]byte{s.Chain}, rnd: rnd}
}

// Chain returns the chain key of an iteration.
func (g *GroupAt) Chain(i uint32) []byte {
	i -= g.Base
	for uint32(len(g.chains)) <= i {
		g.chains = append(g.chains, NextChain(g.chains[len(g.chains)-1]))
	}
	return g.chains[i]
}

// Dist makes the distribution message of an iteration.
func (g *GroupAt) Dist(i uint32) []byte {
	return BuildSKDM(SKDM{g.ID, i, g.Chain(i), g.Key.Enc()})
}

// Msg makes the message of an iteration.
func (g *GroupAt) Msg(i uint32, pt []byte) []byte {
	at := i
	if i-g.Base > 1<<17+100000 {
		at = g.Base // too far to go: nobody else goes there either
	}
	iv, key := GroupKeys(g.Chain(at))
	b := GroupBody(g.ID, i, EncCbc(key, iv, pt))
	r := make([]byte, 64)
	io.ReadFull(g.rnd, r)
	return append(b, Sign(g.Key.Priv, b, r)...)
}
