package ref

import (
	"bytes"
	"crypto/hmac"
	"errors"
	"io"
)

const version = 0x33

// SigMsg is a parsed ordinary message.
type SigMsg struct {
	Ratchet    []byte // 33 bytes
	Ctr, Prev  uint32
	Ciphertext []byte
	Mac        []byte
	Signed     []byte
}

// ParseSig parses an ordinary message strictly.
func ParseSig(b []byte) (*SigMsg, error) {
	if len(b) < 9 || b[0] != version {
		return nil, errors.New("bad version or length")
	}
	f, err := Parse(b[1 : len(b)-8])
	if err != nil {
		return nil, err
	}
	if len(f.Bytes[1]) != 33 || f.Bytes[1][0] != 5 || len(f.Ints)+len(f.Bytes) != 4 {
		return nil, errors.New("bad fields")
	}
	m := &SigMsg{Ratchet: f.Bytes[1], Ctr: uint32(f.Ints[2]), Prev: uint32(f.Ints[3]), Ciphertext: f.Bytes[4],
		Mac: b[len(b)-8:], Signed: b[:len(b)-8]}
	// The encoding is canonical.
	want := []byte{version}
	want = PutBytes(want, 1, m.Ratchet)
	want = PutInt(want, 2, m.Ctr)
	want = PutInt(want, 3, m.Prev)
	want = PutBytes(want, 4, m.Ciphertext)
	if !bytes.Equal(want, m.Signed) {
		return nil, errors.New("message is not canonically encoded")
	}
	return m, nil
}

// BuildSig encodes an ordinary message. Identity keys are 33 bytes.
func BuildSig(k MsgKeys, ratchet []byte, ctr, prev uint32, ct, senderIK, receiverIK []byte) []byte {
	b := []byte{version}
	b = PutBytes(b, 1, ratchet)
	b = PutInt(b, 2, ctr)
	b = PutInt(b, 3, prev)
	b = PutBytes(b, 4, ct)
	return append(b, Mac(k.Mac, senderIK, receiverIK, b)[:8]...)
}

// PreMsg is a parsed session-establishing message.
type PreMsg struct {
	PreID    uint32
	HasPre   bool
	SPKID    uint32
	Reg      uint32
	Base, IK []byte // 33 bytes
	Inner    []byte
}

// ParsePre parses a session-establishing message strictly.
func ParsePre(b []byte) (*PreMsg, error) {
	if len(b) < 1 || b[0] != version {
		return nil, errors.New("bad version")
	}
	f, err := Parse(b[1:])
	if err != nil {
		return nil, err
	}
	m := &PreMsg{SPKID: uint32(f.Ints[6]), Reg: uint32(f.Ints[5]), Base: f.Bytes[2], IK: f.Bytes[3], Inner: f.Bytes[4]}
	pre, ok := f.Ints[1]
	m.PreID, m.HasPre = uint32(pre), ok
	n := 5
	if ok {
		n++
	}
	if len(m.Base) != 33 || len(m.IK) != 33 || m.Base[0] != 5 || m.IK[0] != 5 || len(f.Ints)+len(f.Bytes) != n {
		return nil, errors.New("bad fields")
	}
	return m, nil
}

// BuildPre encodes a session-establishing message.
func BuildPre(m *PreMsg) []byte {
	b := []byte{version}
	if m.HasPre {
		b = PutInt(b, 1, m.PreID)
	}
	b = PutBytes(b, 2, m.Base)
	b = PutBytes(b, 3, m.IK)
	b = PutBytes(b, 4, m.Inner)
	b = PutInt(b, 5, m.Reg)
	b = PutInt(b, 6, m.SPKID)
	return b
}

// Peer is one end of one session.
type Peer struct {
	IK      Pair
	TheirIK []byte // 32 bytes
	rnd     io.Reader

	root     []byte
	our      Pair
	sendCK   []byte
	sendCtr  uint32
	prev     uint32
	theirs   []byte // their newest ratchet key, 32 bytes
	recvCK   []byte
	recvCtr  uint32
	skipped  map[string]map[uint32]MsgKeys
	first    *PreMsg // unacknowledged establishing data
	LastKeys MsgKeys
}

// NewInitiator starts a session from a bundle (public keys of 32 bytes).
func NewInitiator(rnd io.Reader, ik Pair, reg uint32, theirIK, spk []byte, spkID uint32, opk []byte, opkID uint32) *Peer {
	p := &Peer{IK: ik, TheirIK: theirIK, rnd: rnd, skipped: map[string]map[uint32]MsgKeys{}}
	ek := NewPair(rnd)
	root, ck := X3DHInitiator(ik, ek, theirIK, spk, opk)
	// Until it has read a message, the recipient sends with its signed prekey.
	p.theirs, p.recvCK = append([]byte{}, spk...), ck
	p.our = NewPair(rnd)
	p.root, p.sendCK = RootStep(root, p.our.Priv, spk)
	p.first = &PreMsg{PreID: opkID, HasPre: opk != nil, SPKID: spkID, Reg: reg, Base: ek.Enc(), IK: ik.Enc()}
	return p
}

// NewResponder starts a session from an establishing message.
func NewResponder(rnd io.Reader, ik, spk Pair, opk *Pair, m *PreMsg) *Peer {
	p := &Peer{IK: ik, TheirIK: m.IK[1:], rnd: rnd, skipped: map[string]map[uint32]MsgKeys{}}
	p.root, p.sendCK = X3DHResponder(ik, spk, opk, m.IK[1:], m.Base[1:])
	p.our = spk
	return p
}

// Base returns the initiator's base key of an unanswered session.
func (p *Peer) Base() []byte {
	if p.first == nil {
		return nil
	}
	return p.first.Base
}

func (p *Peer) theirEnc() []byte { return append([]byte{5}, p.TheirIK...) }

// Encrypt returns a message and whether it is a session-establishing one.
func (p *Peer) Encrypt(pt []byte) ([]byte, bool) {
	k := Keys(p.sendCK)
	b := BuildSig(k, p.our.Enc(), p.sendCtr, p.prev, EncCbc(k.Cipher, k.Iv, pt), p.IK.Enc(), p.theirEnc())
	p.LastKeys = k
	p.sendCK = NextChain(p.sendCK)
	p.sendCtr++
	if p.first != nil {
		m := *p.first
		m.Inner = b
		return BuildPre(&m), true
	}
	return b, false
}

// Decrypt decrypts an ordinary message.
func (p *Peer) Decrypt(b []byte) ([]byte, error) {
	m, err := ParseSig(b)
	if err != nil {
		return nil, err
	}
	theirs := m.Ratchet[1:]
	key := string(theirs)
	open := func(k MsgKeys) ([]byte, error) {
		if !hmac.Equal(Mac(k.Mac, p.theirEnc(), p.IK.Enc(), m.Signed)[:8], m.Mac) {
			return nil, errors.New("bad mac")
		}
		p.LastKeys = k
		return DecCbc(k.Cipher, k.Iv, m.Ciphertext)
	}
	if bytes.Equal(theirs, p.theirs) && m.Ctr >= p.recvCtr {
		ck := p.recvCK
		sk := map[uint32]MsgKeys{}
		for i := p.recvCtr; i < m.Ctr; i++ {
			sk[i] = Keys(ck)
			ck = NextChain(ck)
		}
		pt, err := open(Keys(ck))
		if err != nil {
			return nil, err
		}
		p.recvCK, p.recvCtr = NextChain(ck), m.Ctr+1
		p.keep(key, sk)
		p.first = nil
		return pt, nil
	}
	if s, ok := p.skipped[key]; ok || bytes.Equal(theirs, p.theirs) {
		k, ok := s[m.Ctr]
		if !ok {
			return nil, errors.New("used or unknown message key")
		}
		pt, err := open(k)
		if err == nil {
			delete(s, m.Ctr)
		}
		return pt, err
	}
	// A new ratchet key.
	root, ck := RootStep(p.root, p.our.Priv, theirs)
	sk := map[uint32]MsgKeys{}
	for i := uint32(0); i < m.Ctr; i++ {
		sk[i] = Keys(ck)
		ck = NextChain(ck)
	}
	pt, err := open(Keys(ck))
	if err != nil {
		return nil, err
	}
	// The rest of their previous chain, whose length the message announces.
	if p.theirs != nil {
		old, ck := map[uint32]MsgKeys{}, p.recvCK
		for i := p.recvCtr; i <= m.Prev; i++ {
			old[i] = Keys(ck)
			ck = NextChain(ck)
		}
		p.keep(string(p.theirs), old)
	}
	p.keep(key, sk)
	p.theirs, p.recvCK, p.recvCtr = append([]byte{}, theirs...), NextChain(ck), m.Ctr+1
	p.prev = 0
	if p.sendCtr > 0 {
		p.prev = p.sendCtr - 1
	}
	p.sendCtr = 0
	p.our = NewPair(p.rnd)
	p.root, p.sendCK = RootStep(root, p.our.Priv, theirs)
	p.first = nil
	return pt, nil
}

// AgeReceiving makes the chain that is received on older, if it is this one and
// all before its next counter has been received.
func (p *Peer) AgeReceiving(ratchet []byte, next, add uint32) bool {
	if p.theirs == nil || !bytes.Equal(ratchet, append([]byte{5}, p.theirs...)) || p.recvCtr != next {
		return false
	}
	p.recvCtr += add
	return true
}

// Sending returns the encoded ratchet key and the next counter of the chain
// that is sent on.
func (p *Peer) Sending() ([]byte, uint32) { return p.our.Enc(), p.sendCtr }

// AgeSending makes the chain that is sent on older.
func (p *Peer) AgeSending(add uint32) { p.sendCtr += add }

func (p *Peer) keep(key string, sk map[uint32]MsgKeys) {
	if p.skipped[key] == nil {
		p.skipped[key] = map[uint32]MsgKeys{}
	}
	for i, k := range sk {
		p.skipped[key][i] = k
	}
}

// SendChain makes messages of one sending chain with any counter.
type SendChain struct {
	cks        [][]byte
	ratchet    []byte
	prev       uint32
	ik, theirs []byte
	first      *PreMsg
	shifts     []uint32 // counter after a shift and how far it goes, in turn
}

// Shift makes the chain go on at a counter that is later by add.
func (c *SendChain) Shift(next, add uint32) { c.shifts = append(c.shifts, next+add, add) }

// Steps is the number of chain steps that lead to a counter.
func (c *SendChain) Steps(ctr uint32) uint32 {
	n := ctr
	for i := 0; i < len(c.shifts); i += 2 {
		if ctr >= c.shifts[i] {
			n -= c.shifts[i+1]
		}
	}
	return n
}

// Ratchet is the encoded ratchet key of the chain.
func (c *SendChain) Ratchet() []byte { return c.ratchet }

// Chain returns the current sending chain, from the next counter on. Later
// messages of the peer itself must only be made after Advance.
func (p *Peer) Chain() *SendChain {
	if p.sendCtr != 0 {
		panic("chain is in use")
	}
	return &SendChain{cks: [][]byte{p.sendCK}, ratchet: p.our.Enc(), prev: p.prev, ik: p.IK.Enc(), theirs: p.theirEnc(), first: p.first}
}

// Advance makes the peer go on with a counter after so many steps of its sending chain.
func (p *Peer) Advance(steps, ctr uint32) {
	for i := p.sendCtr; i < steps; i++ {
		p.sendCK = NextChain(p.sendCK)
	}
	p.sendCtr = ctr
}

// At makes the message with a counter.
func (c *SendChain) At(ctr uint32, pt []byte) (b []byte, pre bool) {
	n := int(c.Steps(ctr))
	if n > 1<<17+100000 {
		n = 0 // too far to go: nobody else goes there either
	}
	for len(c.cks) <= n {
		c.cks = append(c.cks, NextChain(c.cks[len(c.cks)-1]))
	}
	k := Keys(c.cks[n])
	b = BuildSig(k, c.ratchet, ctr, c.prev, EncCbc(k.Cipher, k.Iv, pt), c.ik, c.theirs)
	if c.first != nil {
		m := *c.first
		m.Inner = b
		return BuildPre(&m), true
	}
	return b, false
}
