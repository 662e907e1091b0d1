package props

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

func TestC08_Keys(t *testing.T) {
	kit.Run(t, 4000, "a conversation with re-initiations and reloads; every message sent is checked for a key, authentication key or (ratchet key, counter) used before, for the ratchet key (new exactly after a reply), the counter and the announced length of the previous chain; non-trivial: at least 2 ratchet turns and 8 messages", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		used := map[string]int{}
		once := func(what string, m *kit.Msg) {
			if n, ok := used[what]; ok {
				rt.Fatalf("message #%d reuses the %.20s... of message #%d", m.N, what, n)
			}
			used[what] = m.N
		}
		ratchets := map[string]bool{}
		cv.TrackKeys = true
		cv.OnSent = func(m *kit.Msg) {
			k := m.Keys
			once("cipher key "+string(k.Cipher), m)
			once("mac key "+string(k.Mac), m)
			once("iv "+string(k.Iv), m)
			once(fmt.Sprintf("position %s %s %d", m.Sid, m.Chain, m.Ctr), m)
			in, _ := cv.P[0].Inner(m.W)
			once("ciphertext "+string(in.Body()), m)
			if m.NewKey == ratchets[m.Chain] {
				rt.Fatalf("message #%d: new ratchet key expected=%v, but used before=%v", m.N, m.NewKey, ratchets[m.Chain])
			}
			ratchets[m.Chain] = true
			if m.Ctr != m.WantCtr {
				rt.Fatalf("message #%d has the counter %d, expected %d", m.N, m.Ctr, m.WantCtr)
			}
			if m.Prev != m.WantPrev {
				rt.Fatalf("message #%d announces a previous chain of %d, expected %d", m.N, m.Prev, m.WantPrev)
			}
			if !m.NewKey && m.Chain != chainOf(cv, m) {
				rt.Fatalf("message #%d changes the ratchet key without a reply", m.N)
			}
		}
		ops := kit.BasicOps()
		ops["init"], ops["reinit"], ops["reload"], ops["age"] = 1, 1, 2, 1
		for _, o := range kit.GenOps(ops, 3, 60).Draw(rt, "ops") {
			if cv.Inits > 30 && o.Kind == "reinit" {
				continue
			}
			cv.Step(o)
		}
		if cv.Turns >= 2 && len(cv.Msgs) >= 8 {
			c.Nontrivial()
		}
	})
}

// chainOf is the ratchet key of the last message of the sender in the session.
func chainOf(cv *kit.Conv, m *kit.Msg) string {
	for i := m.N - 1; i >= 0; i-- {
		if o := cv.Msgs[i]; o.From == m.From && o.Sid == m.Sid {
			return o.Chain
		}
	}
	return m.Chain
}

func TestC08_Healing(t *testing.T) {
	kit.Run(t, 3000, "the complete state of a party is copied at a generated point of a conversation; the copy, given different randomness and every message in order, must not be able to read messages of chains begun after a fresh ratchet key of the party reached the peer, and its own new keys must differ; non-trivial: a healed message was tried", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		cv.Init(rapid.IntRange(0, 1).Draw(rt, "initiator"), kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		ops := kit.BasicOps()
		ops["drop"], ops["replay"] = 0, 0
		for _, o := range kit.GenOps(ops, 1, 25).Draw(rt, "before") {
			cv.Step(o)
		}
		who := rapid.IntRange(0, 1).Draw(rt, "who")
		if len(cv.Msgs) == 0 {
			return
		}
		thief := *cv.P[who]
		thief.Store = cv.P[who].Store.Clone()
		thief.Restart()
		c.Log("%d is copied", who)
		arrived := map[string]bool{} // chains that have arrived at the party
		for _, m := range cv.Msgs {
			if m.Delivered > 0 && m.From != who {
				arrived[m.Chain] = true
			}
		}
		turned := map[string]bool{}    // sessions in which it made a key since
		freshKeys := map[string]bool{} // the party's ratchet keys made after the fork
		reached := map[string]bool{}   // sessions in which one reached the peer
		healed := map[string]bool{}    // the peer's ratchet keys made after that
		other := kit.PeerSource(rt)
		thiefs := map[string]bool{}
		tried := 0
		cv.OnDelivered = func(m *kit.Msg) {
			if m.From == who && freshKeys[m.Chain] {
				reached[m.Sid] = true
			}
			if m.From != who && !arrived[m.Chain] {
				arrived[m.Chain] = true
				turned[m.Sid] = true
			}
		}
		cv.OnSent = func(m *kit.Msg) {
			if m.From == who {
				if m.NewKey && turned[m.Sid] {
					freshKeys[m.Chain] = true
				}
				return
			}
			if m.NewKey && reached[m.Sid] {
				healed[m.Chain] = true
			}
			// The thief sees everything and may answer, with his own
			// randomness.
			kit.SetRand(other)
			pt, err := thief.Decrypt(cv.P[1-who].Addr, m.W)
			if healed[m.Chain] {
				tried++
				if err == nil {
					rt.Fatalf("message #%d of a chain begun after healing is readable with the state copied earlier: %x", m.N, pt)
				}
			} else if err == nil {
				w, err := thief.Encrypt(cv.P[1-who].Addr, []byte("x"))
				if err == nil {
					in, _ := thief.Inner(w)
					thiefs[fmt.Sprintf("%x", in.SenderRatchetKey().Serialize())] = true
				}
			}
			kit.SetRand(src)
		}
		for _, o := range kit.GenOps(ops, 5, 40).Draw(rt, "after") {
			cv.Step(o)
		}
		for k := range freshKeys {
			if thiefs[k] {
				rt.Fatalf("with other randomness a ratchet key is the same")
			}
		}
		if tried > 0 {
			c.Nontrivial()
		}
	})
}
