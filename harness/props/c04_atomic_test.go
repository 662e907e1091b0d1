package props

import (
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
	"verif/kit"
)

func TestC04_Rejects(t *testing.T) {
	kit.Run(t, 6000, "a conversation during which manipulated, repeated and misdirected messages are delivered and the complete stores are compared before and after every rejection, for stores with live and with serialised records; non-trivial: at least 3 manipulated messages, one of them made from a message that was not delivered yet", func(rt *rapid.T, c *kit.Case) {
		attacked(rt, c, true)
	})
}

// Rejections that happen late: after authentication or because of the limits,
// the identity or the random source.
func TestC04_LateRejects(t *testing.T) {
	kit.Run(t, 3000, "a conversation with messages that fail late: too far ahead, authenticated but not decryptable, under an untrusted identity, or with a failing random source, and establishing messages that are processed but refused; non-trivial: a late rejection with a message outstanding", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		o := kit.DrawOpts(rt)
		cv := kit.NewConv(rt, c, o)
		cv.Init(0, kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		cv.Atomic = true
		ops := kit.BasicOps()
		ops["x1"], ops["x2"], ops["x3"], ops["reinit"], ops["age"] = 3, 2, 2, 1, 1
		ops["x4"] = 2
		for _, op := range kit.GenOps(ops, 3, 30).Draw(rt, "ops") {
			if op.Kind[0] != 'x' {
				cv.Step(op)
				continue
			}
			var l []*kit.Msg
			for _, m := range cv.Msgs {
				if m.To() == op.Who && m.Delivered == 0 {
					l = append(l, m)
				}
			}
			if len(l) == 0 {
				continue
			}
			m := l[op.N%len(l)]
			p, from := cv.P[m.To()], cv.P[m.From].Addr
			switch op.Kind {
			case "x1": // the random source fails while decrypting
				before := p.Store.Snapshot()
				src.Fail = true
				_, err := p.Decrypt(from, m.W)
				src.Fail = false
				if err == nil {
					// No randomness was needed.
					cv.Accepted(m)
					m.Delivered++
					continue
				}
				if d := kit.Diff(before, p.Store.Snapshot()); d != "" {
					rt.Fatalf("a failing random source (%v) changed the store: %s", err, d)
				}
				c.Log("random source fails at #%d", m.N)
				c.Label("random source failed")
				c.Nontrivial()
			case "x2": // untrusted identity
				if !m.W.Pre {
					continue
				}
				pin := p.Store.Pin
				p.Store.Pin = true
				other := ecc.CreateKeyPair(kit.Bytes32().Draw(rt, "id"))
				id, had := p.Store.Identity(from)
				p.Store.SaveIdentity(from.Signal(), libIDOf(other))
				before := p.Store.Snapshot()
				pt, err := p.Decrypt(from, m.W)
				if err == nil {
					rt.Fatalf("an establishing message of an untrusted identity was accepted: %x", pt)
				}
				if d := kit.Diff(before, p.Store.Snapshot()); d != "" {
					rt.Fatalf("rejecting an untrusted identity (%v) changed the store: %s", err, d)
				}
				p.Store.Pin = pin
				p.Store.ForgetIdentity(from)
				if had {
					p.Store.SaveIdentity(from.Signal(), libIDOfBytes(id))
				}
				c.Log("untrusted identity at #%d", m.N)
				c.Label("untrusted identity")
				c.Nontrivial()
			case "x4": // processed without being decrypted, and refused
				if !m.W.Pre {
					continue
				}
				s := p.PreOf(m.W.Bytes)
				before := p.Store.Snapshot()
				switch rapid.IntRange(0, 3).Draw(rt, "refused for") {
				case 0:
					s.SignedPreKeyID += 1000000
				case 1:
					s.PreKeyID = optional.NewOptionalUint32(0x80000000 + uint32(op.N))
				case 2:
					s.SignedPreKeyID, s.PreKeyID = s.SignedPreKeyID^0x40000000, nil
				case 3:
					s.Version = 2
				}
				if s.Version != 2 {
					// Not one of a session that is there already.
					s.BaseKey = ecc.CreateKeyPair(kit.Bytes32().Draw(rt, "base")).PublicKey().Serialize()
				}
				pm, err := protocol.NewPreKeySignalMessageFromStruct(s, p.Ser.PreKeySignalMessage, p.Ser.SignalMessage)
				if err != nil {
					rt.Fatal(err)
				}
				if id, err := p.Builder(from).Process(p.Store.LoadSession(from.Signal()), pm); err == nil {
					rt.Fatalf("an establishing message that names unknown keys or has another version is processed: %v", id)
				}
				if d := kit.Diff(before, p.Store.Snapshot()); d != "" {
					rt.Fatalf("refusing to process a message changed the store: %s", d)
				}
				c.Label("not processed")
			case "x3": // too far ahead
				n := rapid.IntRange(0, 3).Draw(rt, "far")
				for i := 0; i < n; i++ {
					cv.Send(m.From, nil)
				}
				last := cv.Msgs[len(cv.Msgs)-1]
				if last.From != m.From || last.W.Pre {
					continue
				}
				s, err := p.Ser.SignalMessage.Deserialize(kit.Clone(last.W.Bytes))
				if err != nil {
					rt.Fatal(err)
				}
				s.Counter += 5001 + uint32(n)
				a := &kit.Attack{Desc: "too far ahead", To: p, Dir: m.To(), From: from,
					W: kit.Wire{Bytes: p.Ser.SignalMessage.Serialize(s)}, Origin: last, MustReject: true}
				cv.Perform(a, true)
				c.Label("too far ahead")
				c.Nontrivial()
			}
		}
		cv.Drain(rt)
		cv.PingPong()
	})
}
