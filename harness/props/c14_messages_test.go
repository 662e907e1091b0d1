package props

import (
	"bytes"
	"encoding/json"
	"testing"

	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

func u32(rt *rapid.T, label string) uint32 {
	return rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 2, 127, 128, 255, 256, 16383, 16384, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff}), rapid.Uint32()).Draw(rt, label)
}

func optID(rt *rapid.T) *optional.Uint32 {
	if rapid.IntRange(0, 2).Draw(rt, "absent") == 0 {
		return optional.NewEmptyUint32()
	}
	return optional.NewOptionalUint32(u32(rt, "prekey id"))
}

func sameOpt(a, b *optional.Uint32) bool {
	return a != nil && b != nil && a.IsEmpty == b.IsEmpty && (a.IsEmpty || a.Value == b.Value)
}

func eqSig(rt *rapid.T, what string, a, b *protocol.SignalMessage) {
	if a.Counter() != b.Counter() || a.MessageVersion() != b.MessageVersion() || !bytes.Equal(a.Body(), b.Body()) ||
		!bytes.Equal(a.SenderRatchetKey().Serialize(), b.SenderRatchetKey().Serialize()) ||
		a.Structure().PreviousCounter != b.Structure().PreviousCounter || !bytes.Equal(a.Structure().Mac, b.Structure().Mac) {
		rt.Fatalf("%s: %+v became %+v", what, a.Structure(), b.Structure())
	}
	if !bytes.Equal(a.Serialize(), b.Serialize()) {
		rt.Fatalf("%s: %x became %x", what, a.Serialize(), b.Serialize())
	}
}

// The types of messages that applications transport, as the protocol numbers them.
func checkTypes(rt *rapid.T, m protocol.CiphertextMessage, want uint32) {
	if m.Type() != want {
		rt.Fatalf("a message of type %d says that it is of type %d", want, m.Type())
	}
}

func TestC14_RoundTrip(t *testing.T) {
	kit.Run(t, 12000, "a message of each of the four types with generated fields in either encoding, serialised, parsed twice and serialised again; protocol-buffer encodings also compared with an independent encoder; non-trivial: all", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		isJSON := rapid.Bool().Draw(rt, "json")
		ser := kit.Serializer(isJSON)
		idA, idB := kit.Key(rt, "idA"), kit.Key(rt, "idB")
		ratchet := kit.Key(rt, "ratchet").PublicKey()
		mac := kit.Bytes32().Draw(rt, "mac")
		body := kit.Plain().Draw(rt, "body")
		ctr, prev := u32(rt, "ctr"), u32(rt, "prev")
		kind := rapid.IntRange(0, 3).Draw(rt, "type")
		c.Log("json=%v type=%d ctr=%d prev=%d body=%d", isJSON, kind, ctr, prev, len(body))
		c.Nontrivial()
		twice := func(b []byte, parse func([]byte) interface{ Serialize() []byte }) {
			// Parsing depends on the bytes only.
			x, y := parse(kit.Clone(b)), parse(kit.Clone(b))
			if !bytes.Equal(x.Serialize(), y.Serialize()) {
				rt.Fatalf("parsing %x twice differs", b)
			}
		}
		newSig := func() *protocol.SignalMessage {
			version := 3
			if isJSON && rapid.IntRange(0, 5).Draw(rt, "v2") == 0 {
				version = 2
			}
			m, err := protocol.NewSignalMessage(version, ctr, prev, mac, ratchet, append([]byte{}, body...), libIDOf(idA), libIDOf(idB), ser.SignalMessage)
			if err != nil {
				rt.Fatalf("cannot make a message: %v", err)
			}
			if m.Counter() != ctr || m.MessageVersion() != version || !bytes.Equal(m.Body(), body) || m.Structure().PreviousCounter != prev || m.Type() != protocol.WHISPER_TYPE ||
				!bytes.Equal(m.SenderRatchetKey().Serialize(), ratchet.Serialize()) {
				rt.Fatalf("made a message of other fields: %+v", m.Structure())
			}
			return m
		}
		switch kind {
		case 0:
			m := newSig()
			checkTypes(rt, m, 2)
			b := m.Serialize()
			if !isJSON {
				if want := ref.BuildSig(ref.MsgKeys{Mac: mac}, ratchet.Serialize(), ctr, prev, body, idA.PublicKey().Serialize(), idB.PublicKey().Serialize()); !bytes.Equal(want, b) {
					rt.Fatalf("encoding is %x, expected %x", b, want)
				}
			}
			back, err := protocol.NewSignalMessageFromBytes(kit.Clone(b), ser.SignalMessage)
			if err != nil {
				rt.Fatalf("cannot parse %x: %v", b, err)
			}
			eqSig(rt, "ordinary message", m, back)
			if err := back.VerifyMac(back.MessageVersion(), libIDOf(idA), libIDOf(idB), mac); err != nil {
				rt.Fatalf("a parsed message does not authenticate: %v", err)
			}
			if idA.PublicKey().PublicKey() != idB.PublicKey().PublicKey() && m.MessageVersion() == 3 && back.VerifyMac(3, libIDOf(idB), libIDOf(idA), mac) == nil {
				rt.Fatalf("a message authenticates for sender and receiver swapped")
			}
			twice(b, func(b []byte) interface{ Serialize() []byte } {
				m, err := protocol.NewSignalMessageFromBytes(b, ser.SignalMessage)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				return m
			})
		case 1:
			inner := newSig()
			base := kit.Key(rt, "base").PublicKey()
			reg, pre, spk := u32(rt, "reg"), optID(rt), u32(rt, "spk")
			version := 3
			if isJSON && rapid.IntRange(0, 5).Draw(rt, "v2") == 0 {
				version = 2
			}
			m, err := protocol.NewPreKeySignalMessage(version, reg, pre, spk, base, libIDOf(idA), inner, ser.PreKeySignalMessage, ser.SignalMessage)
			if err != nil {
				rt.Fatalf("cannot make an establishing message: %v", err)
			}
			b := m.Serialize()
			checkTypes(rt, m, 3)
			if !isJSON {
				if want := ref.BuildPre(&ref.PreMsg{PreID: pre.Value, HasPre: !pre.IsEmpty, SPKID: spk, Reg: reg, Base: base.Serialize(), IK: idA.PublicKey().Serialize(), Inner: inner.Serialize()}); !bytes.Equal(want, b) {
					rt.Fatalf("encoding is %x, expected %x", b, want)
				}
			}
			back, err := protocol.NewPreKeySignalMessageFromBytes(kit.Clone(b), ser.PreKeySignalMessage, ser.SignalMessage)
			if err != nil {
				rt.Fatalf("cannot parse %x: %v", b, err)
			}
			for _, x := range []*protocol.PreKeySignalMessage{m, back} {
				if x.RegistrationID() != reg || !sameOpt(x.PreKeyID(), pre) || x.SignedPreKeyID() != spk || x.MessageVersion() != version || x.Type() != protocol.PREKEY_TYPE ||
					!bytes.Equal(x.BaseKey().Serialize(), base.Serialize()) || x.IdentityKey().PublicKey().PublicKey() != idA.PublicKey().PublicKey() {
					rt.Fatalf("establishing message has other fields than it was made of: %x", b)
				}
				eqSig(rt, "inner message", inner, x.WhisperMessage())
			}
			if !bytes.Equal(back.Serialize(), b) {
				rt.Fatalf("%x became %x", b, back.Serialize())
			}
			twice(b, func(b []byte) interface{ Serialize() []byte } {
				m, err := protocol.NewPreKeySignalMessageFromBytes(b, ser.PreKeySignalMessage, ser.SignalMessage)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				return m
			})
		case 2:
			m := protocol.NewSenderKeyMessage(ctr, prev, append([]byte{}, body...), idA.PrivateKey(), ser.SenderKeyMessage)
			b := m.SignedSerialize()
			checkTypes(rt, m, 4)
			signed := m.Serialize()
			if !isJSON {
				if want := ref.GroupBody(ctr, prev, body); !bytes.Equal(signed, want) || !bytes.Equal(b[:len(b)-64], want) {
					rt.Fatalf("encoding is %x, expected %x", b, want)
				}
			}
			if !ref.Verify(idA.PublicKey().Serialize()[1:], signed, b64(m.Signature())) {
				rt.Fatalf("the signature of a group message is wrong")
			}
			back, err := protocol.NewSenderKeyMessageFromBytes(kit.Clone(b), ser.SenderKeyMessage)
			if err != nil {
				rt.Fatalf("cannot parse %x: %v", b, err)
			}
			for _, x := range []*protocol.SenderKeyMessage{m, back} {
				if x.KeyID() != ctr || x.Iteration() != prev || !bytes.Equal(x.Ciphertext(), body) || x.Version() != 3 || x.Signature() != m.Signature() || x.Type() != protocol.SENDERKEY_TYPE {
					rt.Fatalf("group message has other fields than it was made of: %x", b)
				}
				if !bytes.Equal(x.SignedSerialize(), b) || !bytes.Equal(x.Serialize(), signed) {
					rt.Fatalf("%x became %x", b, x.SignedSerialize())
				}
			}
			twice(b, func(b []byte) interface{ Serialize() []byte } {
				m, err := protocol.NewSenderKeyMessageFromBytes(b, ser.SenderKeyMessage)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				return m
			})
		case 3:
			m := protocol.NewSenderKeyDistributionMessage(ctr, prev, kit.Clone(mac), ratchet, ser.SenderKeyDistributionMessage)
			b := m.Serialize()
			checkTypes(rt, m, 5)
			if !isJSON {
				if want := ref.BuildSKDM(ref.SKDM{ID: ctr, Iter: prev, Chain: mac, Signing: ratchet.Serialize()}); !bytes.Equal(b, want) {
					rt.Fatalf("encoding is %x, expected %x", b, want)
				}
			}
			back, err := protocol.NewSenderKeyDistributionMessageFromBytes(kit.Clone(b), ser.SenderKeyDistributionMessage)
			if err != nil {
				rt.Fatalf("cannot parse %x: %v", b, err)
			}
			for _, x := range []*protocol.SenderKeyDistributionMessage{m, back} {
				if x.ID() != ctr || x.Iteration() != prev || !bytes.Equal(x.ChainKey(), mac) || !bytes.Equal(x.SignatureKey().Serialize(), ratchet.Serialize()) ||
					!bytes.Equal(x.Serialize(), b) || x.Type() != protocol.SENDERKEY_DISTRIBUTION_TYPE {
					rt.Fatalf("distribution message has other fields than it was made of: %x", b)
				}
			}
			twice(b, func(b []byte) interface{ Serialize() []byte } {
				m, err := protocol.NewSenderKeyDistributionMessageFromBytes(b, ser.SenderKeyDistributionMessage)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				return m
			})
		}
	})
}

func b64(s [64]byte) []byte { return s[:] }

// setVersion changes the version of an encoded message.
func setVersion(isJSON bool, b []byte, v int) []byte {
	out := kit.Clone(b)
	if !isJSON {
		out[0] = byte(v)<<4 | out[0]&0xf
		return out
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(out, &m); err != nil {
		panic(err)
	}
	m["Version"], _ = json.Marshal(v)
	out, _ = json.Marshal(m)
	return out
}

func TestC14_Versions(t *testing.T) {
	kit.Run(t, 6000, "genuine messages of a conversation or group with another version, or with another version in the message inside an establishing message: parsing fails for versions up to 1 and above 3, version 2 of a pairwise message never decrypts, not even with a valid MAC, the stores stay unchanged and the original decrypts afterwards; non-trivial: a version other than 3", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		o := kit.DrawOpts(rt)
		cv := kit.NewConv(rt, c, o)
		v := rapid.IntRange(0, 15).Draw(rt, "version")
		if o.JSON {
			v = rapid.OneOf(rapid.IntRange(-2, 20), rapid.SampledFrom([]int{-1 << 31, 1 << 31, 1<<32 - 1, 1<<32 + 3, 259, 1<<62 + 3})).Draw(rt, "version")
		}
		if v != 3 {
			c.Nontrivial()
		}
		c.Log("version %d", v)
		p := cv.P[1]
		if rapid.IntRange(0, 2).Draw(rt, "group") == 0 {
			n := kit.SKName{Group: "g", Sender: cv.P[0].Addr}
			d, err := cv.P[0].GroupCreate(n)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			if _, err := protocol.NewSenderKeyDistributionMessageFromBytes(setVersion(o.JSON, d, v), p.Ser.SenderKeyDistributionMessage); (err == nil) != (v == 2 || v == 3) {
				rt.Fatalf("distribution message of version %d: error %v", v, err)
			}
			if err := p.GroupProcess(n, d); err != nil {
				rt.Fatalf("%v", err)
			}
			b, err := cv.P[0].GroupEncrypt(n, []byte("hello"))
			if err != nil {
				rt.Fatalf("%v", err)
			}
			x := setVersion(o.JSON, b, v)
			if _, err := protocol.NewSenderKeyMessageFromBytes(kit.Clone(x), p.Ser.SenderKeyMessage); (err == nil) != (v == 2 || v == 3) {
				rt.Fatalf("group message of version %d: error %v", v, err)
			}
			if v != 3 {
				if pt, err := p.GroupDecrypt(n, x); err == nil {
					rt.Fatalf("group message changed to version %d decrypts to %x", v, pt)
				}
			}
			if pt, err := p.GroupDecrypt(n, b); err != nil || string(pt) != "hello" {
				rt.Fatalf("the original group message does not decrypt: %v", err)
			}
			return
		}
		cv.Init(0, kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		for k := rapid.IntRange(0, 3).Draw(rt, "warm"); k > 0; k-- {
			cv.PingPong()
		}
		cv.TrackKeys = true
		m := cv.Send(0, []byte("hello"))
		w := m.W
		if m.Keys.Mac == nil {
			rt.Fatalf("the harness does not know the keys")
		}
		// An authentic message of version 2, as only the peer could make it.
		{
			in, err := p.Inner(w)
			if err != nil {
				rt.Fatal(err)
			}
			s := in.Structure()
			old, err := protocol.NewSignalMessage(2, s.Counter, s.PreviousCounter, m.Keys.Mac, in.SenderRatchetKey(), kit.Clone(s.CipherText), cv.P[0].ID.PublicKey(), p.ID.PublicKey(), p.Ser.SignalMessage)
			if err == nil {
				y := kit.Wire{Pre: w.Pre, Bytes: setVersion(o.JSON, old.Serialize(), 2)}
				if !o.JSON {
					b := append([]byte{0x23}, y.Bytes[1:len(y.Bytes)-8]...)
					y.Bytes = append(b, ref.Mac(m.Keys.Mac, b)[:8]...)
				}
				if w.Pre {
					s := p.PreOf(w.Bytes)
					s.Message = y.Bytes
					y.Bytes = p.Ser.PreKeySignalMessage.Serialize(s)
				}
				before := p.Store.Snapshot()
				if pt, err := p.Decrypt(cv.P[0].Addr, y); err == nil {
					rt.Fatalf("an authentic message of version 2 decrypts to %x", pt)
				}
				if d := kit.Diff(before, p.Store.Snapshot()); d != "" {
					rt.Fatalf("an authentic message of version 2 changed the store: %s", d)
				}
			}
		}
		where := 0
		if m.W.Pre {
			where = rapid.IntRange(0, 2).Draw(rt, "where")
		}
		x := kit.Wire{Pre: w.Pre, Bytes: kit.Clone(w.Bytes)}
		if where != 1 {
			x.Bytes = setVersion(o.JSON, x.Bytes, v)
		}
		if where >= 1 && (!o.JSON || where == 1) {
			// The message inside.
			keep := x.Bytes[0]
			s := p.PreOf(x.Bytes)
			s.Message = setVersion(o.JSON, s.Message, v)
			x.Bytes = p.Ser.PreKeySignalMessage.Serialize(s)
			if !o.JSON {
				x.Bytes = append([]byte{keep}, ref.BuildPre(&ref.PreMsg{PreID: s.PreKeyID.Value, HasPre: !s.PreKeyID.IsEmpty, SPKID: s.SignedPreKeyID, Reg: s.RegistrationID, Base: s.BaseKey, IK: s.IdentityKey, Inner: s.Message})[1:]...)
			}
		}
		var err error
		if x.Pre {
			_, err = p.ParsePre(x.Bytes)
		} else {
			_, err = p.ParseSig(x.Bytes)
		}
		if (err == nil) != (v == 2 || v == 3) {
			rt.Fatalf("message of version %d: error %v", v, err)
		}
		if v != 3 {
			before := p.Store.Snapshot()
			if pt, err := p.Decrypt(cv.P[0].Addr, x); err == nil {
				rt.Fatalf("message of version %d decrypts to %x", v, pt)
			}
			if d := kit.Diff(before, p.Store.Snapshot()); d != "" {
				rt.Fatalf("a message of version %d changed the store: %s", v, d)
			}
		}
		cv.Deliver(m)
		cv.PingPong()
	})
}
