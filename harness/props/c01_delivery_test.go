package props

import (
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

// start makes a conversation in which at least one party has a session.
func start(rt *rapid.T, c *kit.Case) *kit.Conv {
	kit.Seed(rt)
	cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
	cv.Init(rapid.IntRange(0, 1).Draw(rt, "initiator"), kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
	return cv
}

func TestC01_Delivery(t *testing.T) {
	kit.Run(t, 8000, "a conversation of up to 60 generated steps (sends, bursts, deliveries of the oldest, newest or any outstanding message, replays, losses, reloads) after which everything outstanding is delivered in a drawn order; non-trivial: at least 2 ratchet turns and 2 deliveries out of order", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		ops := kit.BasicOps()
		ops["burst"], ops["age"] = 1, 1
		for _, o := range kit.GenOps(ops, 1, 60).Draw(rt, "ops") {
			cv.Step(o)
		}
		cv.Drain(rt)
		cv.PingPong()
		if cv.Turns >= 2 && cv.OutOfOrder >= 2 {
			c.Nontrivial()
		}
	})
}

func TestC01_LongBacklog(t *testing.T) {
	kit.Run(t, 400, "alternating bursts in which a drawn part of the messages is withheld over several ratchet turns and then delivered in a drawn order; non-trivial: withheld messages of at least 3 chains of one sender", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		turns, most := rapid.IntRange(3, 9).Draw(rt, "turns"), 30
		if rapid.Bool().Draw(rt, "long") {
			// More turns than old chains are kept.
			turns, most = rapid.IntRange(9, 24).Draw(rt, "moreturns"), 4
		}
		who := 0
		if !cv.CanSend(0) {
			who = 1
		}
		for i := 0; i < turns; i++ {
			n := rapid.IntRange(1, most).Draw(rt, "burst")
			if rapid.IntRange(0, 9).Draw(rt, "big") == 0 {
				n = rapid.IntRange(30, 250).Draw(rt, "bigburst")
			}
			var ms []*kit.Msg
			for j := 0; j < n; j++ {
				ms = append(ms, cv.Send(who, []byte{byte(i), byte(j)}))
			}
			cv.Deliver(ms[rapid.IntRange(0, n-1).Draw(rt, "which")])
			who = 1 - who
		}
		if turns > 2*kit.MaxChains {
			c.Label("chains evicted")
		}
		chains := map[string]bool{}
		for _, m := range cv.Pending() {
			if m.From == 0 {
				chains[m.Chain] = true
			}
		}
		if len(chains) >= 3 {
			c.Nontrivial()
		}
		cv.Drain(rt)
		cv.PingPong()
	})
}
