package props

import (
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

// attacked runs a conversation under attack and then checks that everything
// outstanding still decrypts.
func attacked(rt *rapid.T, c *kit.Case, atomic bool) {
	cv := start(rt, c)
	cv.Atomic = atomic
	third := kit.NewParty(kit.Addr{Name: "mallory", Dev: 1}, cv.P[0].Ser, rapid.Bool().Draw(rt, "serM"))
	// The third party talks to one of them and has prekeys with the same ids.
	third.NewBundle(kit.OneTime)
	third.NewBundle(kit.LastResort)
	ops := kit.BasicOps()
	ops["corrupt"], ops["reinit"], ops["init"], ops["age"] = 10, 1, 1, 1
	attacks, midway := 0, 0
	for _, o := range kit.GenOps(ops, 3, 40).Draw(rt, "ops") {
		if cv.Inits > 30 && (o.Kind == "init" || o.Kind == "reinit") {
			continue
		}
		if o.Kind != "corrupt" {
			cv.Step(o)
			continue
		}
		a := cv.GenAttack(rt, third)
		if a == nil {
			continue
		}
		attacks++
		if a.Origin.Delivered == 0 {
			midway++
		}
		if !cv.Perform(a, atomic) {
			return
		}
	}
	if attacks >= 3 && midway >= 1 && len(cv.Msgs) >= 3 {
		c.Nontrivial()
	}
	cv.Drain(rt)
	cv.PingPong()
}

func TestC03_Tamper(t *testing.T) {
	kit.Run(t, 8000, "a conversation during which manipulated messages (bytes, fields of the inner and of the establishing message, parts of other messages, forgeries of a third party, misdirected messages) are delivered; non-trivial: at least 3 manipulated messages, one of them made from a message that was not delivered yet", func(rt *rapid.T, c *kit.Case) {
		attacked(rt, c, false)
	})
}

// Every bit of a message.
func TestC03_EveryBit(t *testing.T) {
	kit.Run(t, 60, "every single bit of one generated message of a conversation is flipped and the result delivered before the original; non-trivial: all", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		for _, o := range kit.GenOps(kit.BasicOps(), 1, 12).Draw(rt, "ops") {
			cv.Step(o)
		}
		who := rapid.IntRange(0, 1).Draw(rt, "who")
		if !cv.CanSend(who) {
			who = 1 - who
		}
		m := cv.Send(who, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "pt"))
		r := cv.P[m.To()]
		saved := r.Store.Clone()
		inner := m.W.Bytes
		if m.W.Pre {
			inner = r.PreOf(m.W.Bytes).Message
		}
		for i := 0; i < 8*len(m.W.Bytes); i++ {
			b := kit.Clone(m.W.Bytes)
			b[i/8] ^= 1 << (i % 8)
			pt, err := r.Decrypt(cv.P[who].Addr, kit.Wire{Pre: m.W.Pre, Bytes: b})
			if err == nil {
				if string(pt) != string(m.PT) {
					rt.Fatalf("flipping bit %d of %d bytes gives the plaintext %x, sent was %x", i, len(b), pt, m.PT)
				}
				// Only unauthenticated parts may change.
				in2 := b
				if m.W.Pre {
					in2 = r.PreOf(b).Message
				}
				if d := differs(r, inner, in2); d {
					rt.Fatalf("flipping bit %d of %d bytes changes the authenticated part and is accepted", i, len(b))
				}
				r.Store.Restore(saved.Clone())
				r.Restart()
			}
		}
		c.Nontrivial()
		cv.Deliver(m)
		cv.Drain(rt)
		cv.PingPong()
	})
}

// differs says whether two ordinary messages mean different things.
func differs(p *kit.Party, a, b []byte) bool {
	x, err := p.Ser.SignalMessage.Deserialize(kit.Clone(a))
	if err != nil {
		return true
	}
	y, err := p.Ser.SignalMessage.Deserialize(kit.Clone(b))
	if err != nil {
		return true
	}
	return string(x.RatchetKey) != string(y.RatchetKey) || x.Counter != y.Counter || x.PreviousCounter != y.PreviousCounter ||
		string(x.CipherText) != string(y.CipherText) || string(x.Mac) != string(y.Mac) || x.Version != y.Version
}
