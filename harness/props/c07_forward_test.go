package props

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

func TestC07_ForwardSecrecy(t *testing.T) {
	kit.Run(t, 1600, "a conversation with re-initiations; after every step the stored record of the party that acted is searched for every key of every message that it has sent or received, both literally and by deriving all keys from its chain keys, root keys and ratchet keys; non-trivial: at least 2 ratchet turns and a message received out of order", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		past := [2]kit.KeySet{{}, {}}
		secrets := [2][][]byte{}
		maxCtr := 0
		var publics [][]byte
		seen := map[string]bool{}
		add := func(who int, m *kit.Msg, how string) {
			past[who].Add(m.Keys, fmt.Sprintf("message #%d (%s)", m.N, how))
			secrets[who] = append(secrets[who], m.Keys.Cipher, m.Keys.Mac)
		}
		check := func(who int, after string) {
			p := cv.P[who]
			to := cv.P[1-who].Addr
			st := p.Session(to)
			if st == nil {
				return
			}
			kit.Reachable(st, publics, maxCtr+2, func(k ref.MsgKeys, where string) bool {
				if w, ok := past[who].Has(k); ok {
					rt.Fatalf("after %s the stored session gives the key of %s: %s", after, w, where)
				}
				return true
			})
			b := p.Store.SessionBytes(to)
			for _, s := range secrets[who] {
				if kit.ContainsSecret(b, s) {
					rt.Fatalf("after %s the stored session contains a key of a past message", after)
				}
			}
		}
		cv.TrackKeys = true
		var acted [2]bool
		cv.OnSent = func(m *kit.Msg) {
			add(m.From, m, "sent")
			secrets[m.From] = append(secrets[m.From], m.ChainKey)
			if int(m.Ctr) > maxCtr {
				maxCtr = int(m.Ctr)
			}
			if !seen[m.Chain] {
				seen[m.Chain] = true
				in, _ := cv.P[0].Inner(m.W)
				publics = append(publics, in.SenderRatchetKey().Serialize()[1:])
			}
			acted[m.From] = true
		}
		cv.OnDelivered = func(m *kit.Msg) {
			add(m.To(), m, "received")
			acted[m.To()] = true
		}
		ops := kit.BasicOps()
		ops["init"], ops["reinit"], ops["replay"], ops["close"], ops["forget"] = 2, 1, 1, 1, 1
		for _, o := range kit.GenOps(ops, 3, 36).Draw(rt, "ops") {
			if cv.Inits > 6 && o.Kind == "reinit" {
				continue
			}
			acted = [2]bool{}
			acted[o.Who] = true
			cv.Step(o)
			for i, did := range acted {
				if did {
					check(i, o.String())
				}
			}
		}
		if cv.Turns >= 2 && cv.OutOfOrder >= 1 {
			c.Nontrivial()
		}
		// Once everything has arrived nothing of it can be derived.
		for _, m := range cv.Pending() {
			cv.Deliver(m)
		}
		check(0, "the end")
		check(1, "the end")
	})
}
