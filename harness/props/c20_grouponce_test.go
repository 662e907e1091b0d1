package props

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// checkGroupPast searches a member's stored sender keys for the keys of past
// messages, literally and by derivation.
func checkGroupPast(rt *rapid.T, g *kit.Group, who int, after string) {
	p := g.P[who]
	for _, e := range g.Epochs {
		past, next := g.PastSecrets(who, e)
		if past == nil {
			continue
		}
		b := p.Store.SenderKeyBytes(e.Name)
		have := p.SenderKeySecrets(e.Name)
		known := map[string]string{}
		ck := e.First.Chain
		top := next + 5
		for i := uint32(0); i < top; i++ {
			if i < next {
				if kit.ContainsSecret(b, ck) {
					rt.Fatalf("after %s member %d stores the chain key %d of key %d, it is at %d", after, who, i, e.N, next)
				}
				known[string(ck)] = fmt.Sprintf("chain key %d", i)
			}
			if past[i] {
				iv, key := ref.GroupKeys(ck)
				seed := ref.Mac(ck, []byte{1})
				for name, s := range map[string][]byte{"iv": iv, "cipher key": key, "seed": seed} {
					if kit.ContainsSecret(b, s) {
						rt.Fatalf("after %s member %d stores the %s of message %d of key %d, which is past", after, who, name, i, e.N)
					}
					known[string(s)] = fmt.Sprintf("%s %d", name, i)
				}
			}
			ck = ref.NextChain(ck)
		}
		bad := func(x []byte, how string) {
			if w, ok := known[string(x)]; ok {
				rt.Fatalf("after %s member %d can derive the %s of key %d, which is past: %s", after, who, w, e.N, how)
			}
		}
		for _, s := range have {
			if len(s) != 32 {
				continue
			}
			d := ref.Hkdf(s, nil, []byte("WhisperGroup"), 48)
			bad(d[16:], "from a stored seed")
			x := s
			for i := 0; i < 12; i++ {
				_, key := ref.GroupKeys(x)
				bad(key, "from a stored chain key")
				x = ref.NextChain(x)
				bad(x, "from a stored chain key")
			}
		}
	}
}

func TestC20_History(t *testing.T) {
	kit.Run(t, 2500, "a generated group history with replays in several encodings, late joins, repeated distribution and reloads; each repeat must be rejected without effect, messages from before a join too, and after every step the stored sender keys are searched for the keys of all past messages, literally and through the derivations; non-trivial: a replay, a message from before a join, and a late delivery", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 4)
		g.Atomic = true
		g.Setup(rt)
		ops := kit.GroupOps()
		ops["replay"], ops["again"], ops["x1"], ops["x2"] = 4, 4, 3, 3
		early := false
		for _, o := range kit.GenGroupOps(ops, 4, 40).Draw(rt, "ops") {
			who := o.Who % len(g.P)
			if !g.Step(o) {
				var l []*kit.GMsg
				for _, m := range g.Msgs {
					if past, _ := g.PastSecrets(who, m.E); past[m.Iter] && (o.Kind == "x1") == (m.Got[who] > 0) {
						l = append(l, m)
					}
				}
				if len(l) == 0 {
					continue
				}
				m := l[o.N%len(l)]
				if o.Kind == "x1" {
					// Another encoding of the same message.
					w := kit.Clone(m.W)
					if !g.JSON {
						extra := ref.PutInt(nil, 10+o.N%4, uint32(o.N))
						w = append(append(kit.Clone(w[:len(w)-64]), extra...), w[len(w)-64:]...)
						if o.N%3 == 0 {
							w[0] = 0x33 ^ byte(o.N%16)
						}
					} else {
						w = append([]byte(" "), w...)
					}
					g.DeliverAs(who, m, w)
				} else {
					early = true
					g.Deliver(who, m)
				}
			}
			checkGroupPast(rt, g, who, o.String())
		}
		g.Drain(rt)
		for who := range g.P {
			for _, m := range g.Msgs {
				if m.Got[who] > 0 {
					g.Deliver(who, m)
				}
			}
			checkGroupPast(rt, g, who, "the end")
		}
		if early && g.Replays > 0 && g.Late > 0 {
			c.Nontrivial()
		}
	})
}
