package props

import (
	"bytes"
	"encoding/hex"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// anyID generates identifiers with their edge values.
func anyID() *rapid.Generator[uint32] {
	return rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 2, 127, 128, 16380, 0xffff, 0xfffffe, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffff0}), rapid.Uint32Range(1, 200), rapid.Uint32())
}

// establishing checks the establishing part of a message against the session
// it was sent in.
func establishing(rt *rapid.T, p *kit.Party, json bool, m *kit.Msg) {
	if m.W.Pre != m.WantPre {
		rt.Fatalf("message #%d: establishing=%v, expected %v", m.N, m.W.Pre, m.WantPre)
	}
	if !m.W.Pre {
		if !json {
			if _, err := ref.ParseSig(m.W.Bytes); err != nil {
				rt.Fatalf("message #%d is malformed: %v", m.N, err)
			}
		}
		return
	}
	b := m.Bundle
	hasPre := b.PreID != nil && !b.PreID.IsEmpty
	fail := func(what string, got, want interface{}) {
		rt.Fatalf("message #%d has %s %v, expected %v", m.N, what, got, want)
	}
	s := p.PreOf(m.W.Bytes)
	if s.RegistrationID != p.Reg {
		fail("registration id", s.RegistrationID, p.Reg)
	}
	if s.SignedPreKeyID != b.SPKID {
		fail("signed prekey id", s.SignedPreKeyID, b.SPKID)
	}
	if got := s.PreKeyID != nil && !s.PreKeyID.IsEmpty; got != hasPre || got && s.PreKeyID.Value != b.PreID.Value {
		fail("prekey id", s.PreKeyID, b.PreID)
	}
	if !bytes.Equal(s.IdentityKey, p.IDBytes()) {
		fail("identity", s.IdentityKey, p.IDBytes())
	}
	if hex.EncodeToString(s.BaseKey) != m.Sid {
		fail("base key", hex.EncodeToString(s.BaseKey), m.Sid)
	}
	if !json {
		r, err := ref.ParsePre(m.W.Bytes)
		if err != nil {
			rt.Fatalf("message #%d is malformed: %v", m.N, err)
		}
		if r.Reg != p.Reg || r.SPKID != b.SPKID || r.HasPre != hasPre || hasPre && r.PreID != b.PreID.Value || !bytes.Equal(r.IK, p.IDBytes()) || hex.EncodeToString(r.Base) != m.Sid {
			fail("establishing data", r, b)
		}
	}
}

func TestC29_Establishing(t *testing.T) {
	kit.Run(t, 6000, "a conversation with re-initiations, closed sessions and reloads between parties with generated registration and prekey ids; every message sent is compared with the establishing data of its session, every undelivered one is tried as the first to arrive on a copy of the receiver, and the recorded registration id and identity of the peer are compared after every step; non-trivial: at least 3 establishing messages in a session and a message without after a reply", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		o := kit.DrawOpts(rt)
		cv := kit.NewConv(rt, c, o)
		for _, p := range cv.P {
			p.SetIDs(anyID().Draw(rt, "registration id"), anyID().Draw(rt, "prekey id"), anyID().Draw(rt, "signed prekey id"))
		}
		// The registration id a session must report: of the bundle or of the
		// message that made it.
		regs := [2]map[string]uint32{{}, {}}
		per := map[string]int{}
		plain := 0
		ops := kit.BasicOps()
		ops["x1"], ops["x2"], ops["close"], ops["reload"], ops["age"] = 2, 2, 1, 2, 1
		init := func(who int, pre kit.PreKind) {
			if cv.Inits > 30 {
				return
			}
			b := cv.P[1-who].NewBundle(pre)
			if rapid.IntRange(0, 2).Draw(rt, "other registration") == 0 {
				b.Reg = anyID().Draw(rt, "bundle registration id")
			}
			cv.InitWith(who, b)
			regs[who][cv.P[who].Current(cv.P[1-who].Addr)] = b.Reg
		}
		init(0, kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "pre")))
		if rapid.IntRange(0, 5).Draw(rt, "unanswered") == 0 {
			// The first messages can all get lost.
			cv.Long(0, rapid.SampledFrom([]int{20, 70, 130, 260, 600}).Draw(rt, "unanswered messages")+rapid.IntRange(0, 9).Draw(rt, "more"), rapid.IntRange(0, 3).Draw(rt, "kept"))
		}
		checked := 0
		check := func() {
			for ; checked < len(cv.Msgs); checked++ {
				m := cv.Msgs[checked]
				establishing(rt, cv.P[m.From], o.JSON, m)
				if m.W.Pre {
					per[m.Sid]++
				} else {
					plain++
				}
			}
			for i, p := range cv.P {
				peer := cv.P[1-i]
				r := p.Store.LoadSession(peer.Addr.Signal())
				sid := p.Current(peer.Addr)
				if sid == "" {
					continue
				}
				want, ok := regs[i][sid]
				if !ok {
					want = peer.Reg
				}
				st := r.SessionState()
				if got := st.RemoteRegistrationID(); got != want {
					rt.Fatalf("the session reports the registration id %d, expected %d", got, want)
				}
				if st.LocalRegistrationID() != p.Reg {
					rt.Fatalf("the session has the own registration id %d, expected %d", st.LocalRegistrationID(), p.Reg)
				}
				if !bytes.Equal(st.RemoteIdentityKey().PublicKey().Serialize(), peer.IDBytes()) || !bytes.Equal(st.LocalIdentityKey().PublicKey().Serialize(), p.IDBytes()) {
					rt.Fatalf("the session reports other identities")
				}
				if st.Version() != 3 {
					rt.Fatalf("the session has version %d", st.Version())
				}
			}
		}
		for _, op := range kit.GenOps(ops, 3, 45).Draw(rt, "ops") {
			switch op.Kind {
			case "x1":
				init(op.Who, op.Pre)
			case "x2":
				// Whichever arrives first establishes the session.
				for _, m := range cv.Msgs {
					if m.To() != op.Who || m.Delivered != 0 || !m.W.Pre || cv.Predict(m) != kit.Accept {
						continue
					}
					p := cv.P[op.Who]
					keep := p.Store.Clone()
					pt, err := p.Decrypt(cv.P[m.From].Addr, m.W)
					if err != nil || !bytes.Equal(pt, m.PT) {
						rt.Fatalf("message #%d (%d of its chain), arriving first, gives %x and %v", m.N, m.Ctr, pt, err)
					}
					p.Store.Restore(keep)
				}
				c.Log("all undelivered to %d tried", op.Who)
			default:
				cv.Step(op)
			}
			check()
		}
		cv.Drain(rt)
		cv.PingPong()
		check()
		for _, n := range per {
			if n >= 3 && plain > 0 {
				c.Nontrivial()
			}
		}
	})
}
