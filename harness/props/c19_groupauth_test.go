package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// groupAttack makes a manipulated group message, or nil.
func groupAttack(rt *rapid.T, g *kit.Group, src *kit.Source) (w []byte, m *kit.GMsg, name kit.SKName, desc string, must bool) {
	if len(g.Msgs) == 0 {
		return
	}
	m = g.Msgs[rapid.IntRange(0, len(g.Msgs)-1).Draw(rt, "victim")]
	name = m.E.Name
	ser := g.P[0].Ser.SenderKeyMessage
	s, err := ser.Deserialize(kit.Clone(m.W))
	if err != nil {
		rt.Fatalf("%v", err)
	}
	orig := *s
	o := g.Msgs[rapid.IntRange(0, len(g.Msgs)-1).Draw(rt, "donor")]
	d, _ := ser.Deserialize(kit.Clone(o.W))
	unsigned := func() []byte {
		u := *s
		u.Signature = nil
		return ser.Serialize(&u)
	}
	switch k := rapid.IntRange(0, 14).Draw(rt, "attack"); k {
	case 0, 1, 2:
		w, desc = kit.MutateBytes(rt, m.W)
	case 3, 4:
		for i, n := 0, rapid.IntRange(1, 2).Draw(rt, "fields"); i < n; i++ {
			switch f := rapid.IntRange(0, 4).Draw(rt, "field"); f {
			case 0:
				s.ID = rapid.OneOf(rapid.Just(d.ID), rapid.Just(s.ID^1), rapid.Uint32()).Draw(rt, "id")
			case 1:
				s.Iteration = rapid.OneOf(rapid.Just(s.Iteration+1), rapid.Just(s.Iteration-1), rapid.Just(s.Iteration^0x80000000), rapid.Uint32Range(0, 30), rapid.Uint32()).Draw(rt, "iteration")
			case 2:
				s.CipherText, _ = kit.MutateBytes(rt, s.CipherText)
			case 3:
				s.CipherText = d.CipherText
			case 4:
				s.Signature, _ = kit.MutateBytes(rt, s.Signature)
				if len(s.Signature) < 64 && !g.JSON {
					s.Signature = append(s.Signature, make([]byte, 64)...)[:64]
				}
			}
		}
		desc = "fields"
		w = ser.Serialize(s)
		must = s.ID != orig.ID || s.Iteration != orig.Iteration || !bytes.Equal(s.CipherText, orig.CipherText)
		if b, err := ser.Deserialize(kit.Clone(w)); err == nil {
			for _, x := range g.Msgs {
				y, _ := ser.Deserialize(kit.Clone(x.W))
				if y.ID == b.ID && y.Iteration == b.Iteration && bytes.Equal(y.CipherText, b.CipherText) {
					m, must = x, false
				}
			}
		}
	case 5:
		s.Signature = d.Signature
		w, desc = ser.Serialize(s), "signature of another message"
		must = !bytes.Equal(d.Signature, orig.Signature)
	case 6:
		s.Signature = bytes.Repeat([]byte{rapid.SampledFrom([]byte{0, 1, 0xff}).Draw(rt, "fill")}, 64)
		w, desc, must = ser.Serialize(s), "blank signature", true
	case 7, 8:
		// Another member, who knows the chain key, encrypts and signs with a
		// key of its own: an unrelated one, its sending key, its identity.
		s.Iteration = rapid.Uint32Range(m.Iter, m.Iter+5).Draw(rt, "iteration")
		iv, key := ref.GroupKeys(g.ChainKey(m.E, s.Iteration))
		s.CipherText = ref.EncCbc(key, iv, kit.Plain().Draw(rt, "forged"))
		priv := ref.NewPair(src).Priv
		if rapid.Bool().Draw(rt, "sending key of another") {
			// Also an earlier or later one of the same sender.
			var near, all [][]byte
			for _, e := range g.Epochs {
				if e == m.E {
					continue
				}
				all = append(all, e.Priv)
				if e.Name == m.E.Name {
					near = append(near, e.Priv)
				}
			}
			if len(near) > 0 && rapid.Bool().Draw(rt, "same sender") {
				all = near
			}
			if len(all) > 0 {
				priv = rapid.SampledFrom(all).Draw(rt, "sending key")
			}
		}
		s.Signature = ref.Sign(priv, unsigned(), kit.BytesN(64).Draw(rt, "nonce"))
		w, desc, must = ser.Serialize(s), "forged by a member", true
	case 9:
		// Under the name of another sender or group.
		name = g.Name(rapid.IntRange(0, len(g.P)-1).Draw(rt, "sender"), rapid.IntRange(0, 1).Draw(rt, "group"))
		if name == m.E.Name {
			return nil, nil, name, "", false
		}
		w, desc, must = kit.Clone(m.W), "in another name", true
	case 10:
		// The key id of another sending key, properly signed for this one.
		s.ID = g.Epochs[rapid.IntRange(0, len(g.Epochs)-1).Draw(rt, "epoch")].First.ID
		if s.ID == orig.ID {
			return nil, nil, name, "", false
		}
		w, desc, must = ser.Serialize(s), "other key id", true
	case 11:
		s.Version = rapid.SampledFrom([]uint32{0, 1, 2, 4}).Draw(rt, "version")
		w, desc = ser.Serialize(s), "other version"
	case 12:
		// A signature that the shape of the curve would allow: the negated
		// signature part and the sign bit.
		s.Signature = kit.Clone(s.Signature)
		if rapid.Bool().Draw(rt, "sign bit") {
			s.Signature[63] ^= 0x80
		} else {
			s.Signature[31] ^= 0x80
		}
		w, desc = ser.Serialize(s), "sign bit"
	case 13, 14:
		// Signed by the owner, but it cannot be decrypted.
		s.CipherText = kit.BytesN(rapid.SampledFrom([]int{1, 15, 16, 16, 17, 32, 32, 48}).Draw(rt, "length")).Draw(rt, "ciphertext")
		s.Iteration = rapid.OneOf(rapid.Just(m.Iter), rapid.Just(m.Iter), rapid.Uint32Range(max(m.Iter, 3)-3, m.Iter+3)).Draw(rt, "iteration")
		if m.E.Steps(s.Iteration) > m.E.Steps(m.Iter)+3 { // left out by aging
			return nil, nil, name, "", false
		}
		iv, key := ref.GroupKeys(g.ChainKey(m.E, s.Iteration))
		if _, err := ref.DecCbc(key, iv, s.CipherText); err == nil {
			return nil, nil, name, "", false
		}
		s.Signature = ref.Sign(m.E.Priv, unsigned(), kit.BytesN(64).Draw(rt, "nonce"))
		w, desc, must = ser.Serialize(s), "undecryptable, by the owner", true
	}
	if bytes.Equal(w, m.W) && name == m.E.Name {
		return nil, nil, name, "", false
	}
	return
}

func TestC19_Attacks(t *testing.T) {
	kit.Run(t, 5000, "a generated group history with manipulated messages (bytes, fields, signatures) and forgeries by members who know the chain key or use another name, delivered to members: each is rejected with the store unchanged or means the original it was made from; afterwards all genuine messages decrypt; non-trivial: at least 3 attacks that name a sending key the victim knows", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		src := kit.PeerSource(rt)
		g := kit.NewGroup(rt, c, 2, 4)
		g.Atomic = true
		g.Setup(rt)
		g.Send(0, g.Name(0, 0), kit.Plain().Draw(rt, "pt"))
		ops := kit.GroupOps()
		ops["x1"], ops["age"] = 25, 1
		hits := 0
		for _, o := range kit.GenGroupOps(ops, 4, 40).Draw(rt, "ops") {
			if g.Step(o) {
				continue
			}
			w, m, name, desc, must := groupAttack(rt, g, src)
			if w == nil {
				continue
			}
			who := o.Who % len(g.P)
			p := g.P[who]
			before := p.Store.Snapshot()
			pt, err := p.GroupDecrypt(name, w)
			c.Log("attack on %d: %s: rejected=%v", who, desc, err != nil)
			if g.Knows(who, m.E) {
				hits++
			}
			if err != nil {
				if d := kit.Diff(before, p.Store.Snapshot()); d != "" {
					rt.Fatalf("rejecting a message (%s; %v) changed the store: %s", desc, err, d)
				}
				continue
			}
			if must {
				rt.Fatalf("a message was accepted though its owner did not sign it (%s): %x", desc, pt)
			}
			if !g.Predict(who, m) {
				rt.Fatalf("a message was accepted whose original must be rejected (%s): %x", desc, pt)
			}
			if !bytes.Equal(pt, m.PT) {
				rt.Fatalf("a message (%s) decrypts to %x, the original to %x", desc, pt, m.PT)
			}
			g.Accepted(who, m)
			c.Label("accepted as the original")
		}
		g.Drain(rt)
		if hits >= 3 {
			c.Nontrivial()
		}
	})
}

func TestC19_Bits(t *testing.T) {
	kit.Run(t, 40, "every single bit of a group message is flipped and delivered to a member of which a copy of the store is kept: it is rejected without effect, or (unauthenticated version bits, equivalent encodings) means the original; non-trivial: all", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 2)
		n := g.Name(0, 0)
		g.Process(1, g.Create(0, n))
		for i := rapid.IntRange(0, 3).Draw(rt, "earlier"); i > 0; i-- {
			g.Send(0, n, []byte("earlier"))
		}
		m := g.Send(0, n, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "pt"))
		p := g.P[1]
		base := p.Store.Snapshot()
		accepted := 0
		for i := 0; i < 8*len(m.W); i++ {
			w := kit.Clone(m.W)
			w[i/8] ^= 1 << (i % 8)
			save := p.Store.Clone()
			pt, err := p.GroupDecrypt(n, w)
			if err != nil {
				if d := kit.Diff(base, p.Store.Snapshot()); d != "" {
					rt.Fatalf("rejecting bit %d changed the store: %s", i, d)
				}
				continue
			}
			accepted++
			if !bytes.Equal(pt, m.PT) {
				rt.Fatalf("with bit %d of byte %d flipped the message decrypts to %x instead of %x", i%8, i/8, pt, m.PT)
			}
			// Only another encoding of the same content can be accepted.
			x, err := p.Ser.SenderKeyMessage.Deserialize(w)
			if err != nil || x.ID != m.E.First.ID || x.Iteration != m.Iter {
				rt.Fatalf("bit %d of byte %d is not authenticated", i%8, i/8)
			}
			p.Store.Restore(save)
		}
		c.Log("%d bits, %d accepted", 8*len(m.W), accepted)
		c.Nontrivial()
		g.Deliver(1, m)
	})
}

func TestC19_Receiver(t *testing.T) {
	kit.Run(t, 1500, "a member that received one or several sending keys (directly, by relay, after re-reading its store) tries to send with them, and processes distribution messages that reuse a known key id with another signing key; the owner's messages decrypt throughout; non-trivial: a reload and a colliding key id", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		src := kit.PeerSource(rt)
		g := kit.NewGroup(rt, c, 2, 3)
		g.Atomic = true
		n := g.Name(0, 0)
		d := g.Create(0, n)
		g.Process(1, d)
		reload, collide := false, false
		for k := rapid.IntRange(2, 12).Draw(rt, "steps"); k > 0; k-- {
			switch rapid.IntRange(0, 5).Draw(rt, "step") {
			case 0:
				g.Send(1, n, kit.Plain().Draw(rt, "pt"))
			case 1:
				g.Reload(1)
				reload = true
			case 2:
				g.Step(kit.GOp{Kind: "relay", Who: 1, N: k})
			case 3:
				// Another key under the same id does not displace the one
				// that is known.
				x := d.E.First
				x.Iter = rapid.Uint32Range(0, 3).Draw(rt, "iter")
				x.Chain = kit.Bytes32().Draw(rt, "chain")
				x.Signing = ref.NewPair(src).Enc()
				pub, err := ecc.DecodePoint(x.Signing, 0)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				b := protocol.NewSenderKeyDistributionMessage(x.ID, x.Iter, x.Chain, pub, g.P[0].Ser.SenderKeyDistributionMessage).Serialize()
				if err := g.P[1].GroupProcess(n, b); err != nil {
					rt.Fatalf("%v", err)
				}
				c.Log("colliding key id")
				collide = true
			default:
				m := g.Send(0, n, []byte(fmt.Sprint("message ", k)))
				if rapid.IntRange(0, 2).Draw(rt, "hold") > 0 {
					g.Deliver(1, m)
				}
			}
		}
		g.Send(1, n, []byte("x"))
		g.Drain(rt)
		if reload && collide {
			c.Nontrivial()
		}
	})
}
