package kit

import (
	"bytes"
	"fmt"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
)

// MutateBytes generates a changed copy of b.
func MutateBytes(t *rapid.T, b []byte) ([]byte, string) {
	in := clone(b)
	n := len(in)
	switch k := rapid.IntRange(0, 8).Draw(t, "mutation"); {
	case k <= 3 && n > 0:
		i := rapid.IntRange(0, n-1).Draw(t, "at")
		// The ends hold version and authentication code.
		switch rapid.IntRange(0, 3).Draw(t, "region") {
		case 0:
			i = n - 1 - i%min(n, 64)
		case 1:
			i = i % min(n, 8)
		}
		bit := rapid.IntRange(0, 7).Draw(t, "bit")
		in[i] ^= 1 << bit
		return in, fmt.Sprintf("flip bit %d of byte %d/%d", bit, i, n)
	case k == 4 && n > 0:
		i, v := rapid.IntRange(0, n-1).Draw(t, "at"), rapid.Byte().Draw(t, "v")
		in[i] = v
		return in, fmt.Sprintf("set byte %d/%d to %d", i, n, v)
	case k == 5 && n > 0:
		i := rapid.IntRange(0, n-1).Draw(t, "keep")
		if rapid.Bool().Draw(t, "few") {
			i = max(0, n-1-i%10)
		}
		return in[:i], fmt.Sprintf("truncate to %d/%d", i, n)
	case k == 6:
		x := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "extra")
		return append(in, x...), fmt.Sprintf("append %d bytes", len(x))
	case k == 7:
		i := rapid.IntRange(0, n).Draw(t, "at")
		x := rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "extra")
		return append(append(clone(in[:i]), x...), in[i:]...), fmt.Sprintf("insert %d bytes at %d/%d", len(x), i, n)
	case n > 0:
		i := rapid.IntRange(0, n-1).Draw(t, "at")
		l := rapid.IntRange(1, min(8, n-i)).Draw(t, "len")
		return append(clone(in[:i]), in[i+l:]...), fmt.Sprintf("delete %d bytes at %d/%d", l, i, n)
	}
	return append(in, 0), "append a zero"
}

// Attack is a manipulated or misdirected message.
type Attack struct {
	Desc   string
	To     *Party
	Dir    int // receiving side in the conversation, or -1 for a third party
	From   Addr
	W      Wire
	Origin *Msg // what it was made from
	// MustReject: the manipulation changes the authenticated part.
	MustReject bool
}

func pickU32(t *rapid.T, old uint32) uint32 {
	v := rapid.OneOf(
		rapid.SampledFrom([]uint32{0, 1, 2, old + 1, old - 1, old + 1999, old + 5000, old + 5001, 0xffffff, 0xffffffff, 0x80000000, old ^ 0x80000000, old | 0x100}),
		rapid.Uint32Range(0, 50), rapid.Uint32()).Draw(t, "u32")
	return v
}

func pickKey(t *rapid.T, old []byte, others ...[]byte) []byte {
	switch k := rapid.IntRange(0, 4).Draw(t, "keychange"); {
	case k == 0:
		c := clone(old)
		if len(c) > 0 {
			c[rapid.IntRange(0, len(c)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		return c
	case k == 1:
		return ecc.CreateKeyPair(Bytes32().Draw(t, "priv")).PublicKey().Serialize()
	case k == 2:
		// Small-order and non-canonical points.
		c := append([]byte{5}, make([]byte, 32)...)
		c[1] = rapid.SampledFrom([]byte{0, 1, 0xec, 0xed, 0xee}).Draw(t, "small")
		if c[1] > 1 {
			for i := 2; i < 32; i++ {
				c[i] = 0xff
			}
			c[32] = 0x7f
		}
		return c
	default:
		if len(others) > 0 {
			return clone(others[rapid.IntRange(0, len(others)-1).Draw(t, "other")])
		}
		return append(clone(old), 0)
	}
}

// sigOf parses the structure of an ordinary message.
func (p *Party) sigOf(b []byte) *protocol.SignalMessageStructure {
	s, err := p.Ser.SignalMessage.Deserialize(clone(b))
	if err != nil {
		panic(err)
	}
	return s
}

// PreOf parses the structure of an establishing message.
func (p *Party) PreOf(b []byte) *protocol.PreKeySignalMessageStructure {
	s, err := p.Ser.PreKeySignalMessage.Deserialize(clone(b))
	if err != nil {
		panic(err)
	}
	return s
}

func sameSig(a, b *protocol.SignalMessageStructure) bool {
	return bytes.Equal(a.RatchetKey, b.RatchetKey) && a.Counter == b.Counter && a.PreviousCounter == b.PreviousCounter &&
		bytes.Equal(a.CipherText, b.CipherText) && a.Version == b.Version && bytes.Equal(a.Mac, b.Mac)
}

// mutateSig changes one or several fields of an ordinary message.
func (cv *Conv) mutateSig(t *rapid.T, p *Party, b []byte) (out []byte, changed bool, desc string) {
	s := p.sigOf(b)
	orig := *s
	// Another message to take parts from.
	o := cv.Msgs[rapid.IntRange(0, len(cv.Msgs)-1).Draw(t, "donor")]
	ob := o.W.Bytes
	if o.W.Pre {
		ob = p.PreOf(ob).Message
	}
	d := p.sigOf(ob)
	var keys [][]byte
	for _, m := range cv.Msgs {
		if k := p.mustInner(m.W).Structure().RatchetKey; len(keys) < 12 {
			keys = append(keys, k)
		}
	}
	for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "fields"); i < n; i++ {
		f := rapid.IntRange(0, 10).Draw(t, "field")
		switch f {
		case 0:
			s.RatchetKey = pickKey(t, s.RatchetKey, keys...)
		case 1:
			s.Counter = pickU32(t, s.Counter)
		case 2:
			s.PreviousCounter = pickU32(t, s.PreviousCounter)
		case 3:
			s.CipherText, _ = MutateBytes(t, s.CipherText)
		case 4:
			s.Mac, _ = MutateBytes(t, s.Mac)
			if len(s.Mac) > 8 {
				s.Mac = s.Mac[:8]
			}
		case 5:
			s.CipherText = clone(d.CipherText)
		case 6:
			s.Mac = clone(d.Mac)
		case 7:
			s.RatchetKey, s.Counter = clone(d.RatchetKey), d.Counter
		case 8:
			s.CipherText, s.Mac = clone(d.CipherText), clone(d.Mac)
		case 9:
			// Drop or repeat whole blocks of ciphertext.
			if len(s.CipherText) > 16 && rapid.Bool().Draw(t, "drop") {
				s.CipherText = clone(s.CipherText[:len(s.CipherText)-16])
			} else {
				s.CipherText = append(clone(s.CipherText), s.CipherText...)
			}
		case 10:
			s.Mac = make([]byte, rapid.SampledFrom([]int{0, 8}).Draw(t, "maclen"))
		}
		desc += fmt.Sprintf(" field %d", f)
	}
	if len(s.RatchetKey) == 0 || len(s.CipherText) == 0 && p.IsJSON() {
		s.RatchetKey = clone(s.RatchetKey)
	}
	out = p.Ser.SignalMessage.Serialize(s)
	// What counts is what the bytes mean.
	back, err := p.Ser.SignalMessage.Deserialize(clone(out))
	return out, err != nil || !sameSig(back, &orig), "fields of inner:" + desc
}

// IsJSON says whether messages are encoded as JSON.
func (p *Party) IsJSON() bool {
	return p.Ser.SignalMessage != nil && len(p.Ser.SignalMessage.Serialize(&protocol.SignalMessageStructure{})) > 30
}

func (p *Party) mustInner(w Wire) *protocol.SignalMessage {
	m, err := p.Inner(w)
	if err != nil {
		panic(err)
	}
	return m
}

// GenAttack makes a manipulated message from what was sent so far, or nil.
// third, if not nil, is another party whose messages and bundles can be used.
func (cv *Conv) GenAttack(t *rapid.T, third *Party) *Attack {
	if len(cv.Msgs) == 0 {
		return nil
	}
	i := rapid.IntRange(0, len(cv.Msgs)-1).Draw(t, "victim")
	if rapid.Bool().Draw(t, "recent") {
		i = len(cv.Msgs) - 1 - i%min(len(cv.Msgs), 4)
	}
	m := cv.Msgs[i]
	r := m.To()
	a := &Attack{To: cv.P[r], Dir: r, From: cv.P[m.From].Addr, W: Wire{m.W.Pre, clone(m.W.Bytes)}, Origin: m}
	p := cv.P[r]
	switch k := rapid.IntRange(0, 13).Draw(t, "attack"); k {
	case 0, 1, 2:
		a.W.Bytes, a.Desc = MutateBytes(t, a.W.Bytes)
		if bytes.Equal(a.W.Bytes, m.W.Bytes) {
			return nil
		}
	case 3, 4, 5:
		if m.W.Pre {
			s := p.PreOf(m.W.Bytes)
			s.Message, a.MustReject, a.Desc = cv.mutateSig(t, p, s.Message)
			a.W.Bytes = p.Ser.PreKeySignalMessage.Serialize(s)
			if rapid.IntRange(0, 3).Draw(t, "strip") == 0 {
				a.W = Wire{false, s.Message}
				a.Desc += " stripped"
			}
		} else {
			a.W.Bytes, a.MustReject, a.Desc = cv.mutateSig(t, p, m.W.Bytes)
		}
		if !a.MustReject {
			return nil // the change was none
		}
		// Parts of one other message can make up that message.
		in := a.W.Bytes
		if a.W.Pre {
			in = p.PreOf(in).Message
		}
		if s, err := p.Ser.SignalMessage.Deserialize(clone(in)); err == nil {
			for _, o := range cv.Msgs {
				if o.From == m.From && sameSig(s, p.mustInner(o.W).Structure()) {
					a.Origin, a.MustReject = o, false
				}
			}
		}
	case 6, 7, 8:
		// Fields of the establishing message.
		var s *protocol.PreKeySignalMessageStructure
		if m.W.Pre {
			s = p.PreOf(m.W.Bytes)
		} else {
			// Wrap an ordinary message.
			for _, o := range cv.Msgs {
				if o.W.Pre && o.From == m.From && (s == nil || rapid.Bool().Draw(t, "later")) {
					s = p.PreOf(o.W.Bytes)
				}
			}
			if s == nil {
				return nil
			}
			s.Message = clone(m.W.Bytes)
			a.W.Pre = true
			a.Desc = "wrapped in another's establishing message"
		}
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "fields"); i < n || n == 0 && i == 0 && m.W.Pre; i++ {
			f := rapid.IntRange(0, 6).Draw(t, "field")
			switch f {
			case 0:
				s.RegistrationID = pickU32(t, s.RegistrationID)
			case 1:
				s.PreKeyID = optional.NewEmptyUint32()
				if rapid.Bool().Draw(t, "some") {
					s.PreKeyID = optional.NewOptionalUint32(rapid.OneOf(rapid.Uint32Range(0, 6), rapid.Just(uint32(0xffffff)), rapid.Uint32()).Draw(t, "id"))
				}
			case 2:
				s.SignedPreKeyID = rapid.OneOf(rapid.Uint32Range(0, 4), rapid.Uint32()).Draw(t, "id")
			case 3:
				s.BaseKey = pickKey(t, s.BaseKey, cv.baseKeys(p)...)
			case 4:
				others := [][]byte{cv.P[0].IDBytes(), cv.P[1].IDBytes()}
				if third != nil {
					others = append(others, third.IDBytes())
				}
				s.IdentityKey = pickKey(t, s.IdentityKey, others...)
			case 5:
				s.Version = rapid.SampledFrom([]int{0, 1, 2, 4, 9}).Draw(t, "version")
			case 6:
				o := cv.Msgs[rapid.IntRange(0, len(cv.Msgs)-1).Draw(t, "donor")]
				if o.From != m.From {
					continue
				}
				s.Message = clone(o.W.Bytes)
				if o.W.Pre {
					s.Message = p.PreOf(o.W.Bytes).Message
				}
				a.Origin = o
			}
			a.Desc += fmt.Sprintf(" outer field %d", f)
		}
		a.W.Bytes = p.Ser.PreKeySignalMessage.Serialize(s)
	case 9:
		if !m.W.Pre {
			return nil
		}
		a.W = Wire{false, clone(p.PreOf(m.W.Bytes).Message)}
		a.Desc = "stripped of the establishing part"
	case 10:
		a.To, a.Dir, a.From = cv.P[m.From], m.From, cv.P[r].Addr
		a.MustReject = true
		a.Desc = "reflected"
	case 11:
		if third == nil {
			return nil
		}
		a.To, a.Dir = third, -1
		a.MustReject = true
		a.Desc = "to a third party"
	case 12:
		if third == nil {
			return nil
		}
		// The third party makes a session with the receiver and claims to be
		// the sender.
		b := p.NewBundle(PreKind(rapid.IntRange(0, 2).Draw(t, "prekey")))
		if err := third.Builder(p.Addr).ProcessBundle(b.Bundle()); err != nil {
			panic(err)
		}
		w, err := third.Encrypt(p.Addr, m.PT)
		if err != nil {
			panic(err)
		}
		s := third.PreOf(w.Bytes)
		s.IdentityKey = clone(cv.P[m.From].IDBytes())
		a.W = Wire{true, third.Ser.PreKeySignalMessage.Serialize(s)}
		if rapid.IntRange(0, 3).Draw(t, "strip") == 0 {
			a.W = Wire{false, s.Message}
		}
		a.MustReject = true
		a.Desc = "forged by a third party"
	case 13:
		a.W.Pre = !a.W.Pre
		a.Desc = "as the other type of message"
	}
	a.Desc = fmt.Sprintf("%s (from #%d)", a.Desc, m.N)
	return a
}

func (cv *Conv) baseKeys(p *Party) (out [][]byte) {
	for _, m := range cv.Msgs {
		if m.W.Pre && len(out) < 10 {
			out = append(out, p.PreOf(m.W.Bytes).BaseKey)
		}
	}
	return out
}

// Perform delivers a manipulated message and checks the outcome: it must be
// rejected, or (if its authenticated part is genuine) mean what it was made
// from. It returns false if the case cannot go on, because an unauthenticated
// change was accepted that the model does not follow.
func (cv *Conv) Perform(a *Attack, atomic bool) bool {
	cv.T.Helper()
	var before map[string][]byte
	if atomic {
		before = a.To.Store.Snapshot()
	}
	// A message of a session that its receiver forgot can set it up again, if
	// it needs no one-time prekey: then nothing is claimed.
	unknown := !a.MustReject && cv.Predict(a.Origin) == Unknown
	var keep *Store
	if unknown {
		keep = a.To.Store.Clone()
	}
	pt, err := a.To.Decrypt(a.From, a.W)
	cv.C.Log("attack: %s: rejected=%v", a.Desc, err != nil)
	if unknown && err == nil {
		a.To.Store.Restore(keep)
		a.To.Restart()
		return true
	}
	if err != nil {
		if atomic {
			if d := Diff(before, a.To.Store.Snapshot()); d != "" {
				cv.T.Fatalf("rejecting an attack (%s; %v) changed the store: %s", a.Desc, err, d)
			}
		}
		return true
	}
	if a.MustReject {
		cv.T.Fatalf("an attack was accepted: %s; it decrypts to %x", a.Desc, pt)
	}
	m := a.Origin
	if m.Delivered > 0 {
		cv.T.Fatalf("a message was accepted again in another form: %s; it decrypts to %x", a.Desc, pt)
	}
	if cv.Predict(m) == Reject {
		cv.T.Fatalf("an attack was accepted whose original must be rejected: %s; it decrypts to %x", a.Desc, pt)
	}
	if !bytes.Equal(pt, m.PT) {
		cv.T.Fatalf("an attack (%s) decrypts to %x, the original to %x", a.Desc, pt, m.PT)
	}
	cv.C.Label("accepted as the original")
	if a.W.Pre {
		if s := a.To.PreOf(a.W.Bytes); m.W.Pre && !bytes.Equal(s.BaseKey, a.To.PreOf(m.W.Bytes).BaseKey) {
			cv.C.Label("accepted with an equivalent base key")
			return false
		}
	}
	cv.Accepted(m)
	m.Delivered++
	return true
}

// CorruptMac flips a bit of the authentication code of an ordinary message.
func (p *Party) CorruptMac(b []byte, at int) []byte {
	s := p.sigOf(b)
	s.Mac = clone(s.Mac)
	s.Mac[at%len(s.Mac)] ^= 1
	return p.Ser.SignalMessage.Serialize(s)
}
