package props

import (
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

func TestC18_Delivery(t *testing.T) {
	kit.Run(t, 6000, "a generated history of 2 to 5 members in up to two groups - distributing (also again, late and by relay), rotating, sending, delivering in any order, replaying, reloading - in which a model predicts the outcome and plaintext of each delivery, ending with the delivery of everything outstanding; non-trivial: at least 3 messages delivered late and a distribution made after messages", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 5)
		g.Setup(rt)
		ops := kit.GroupOps()
		ops["age"] = 1
		for _, o := range kit.GenGroupOps(ops, 3, 50).Draw(rt, "ops") {
			g.Step(o)
		}
		g.Drain(rt)
		lateDist := false
		for _, d := range g.Dists {
			lateDist = lateDist || d.Iter > 0
		}
		if g.Late >= 3 && lateDist {
			c.Nontrivial()
		}
		if g.Rotations > 0 {
			c.Label("rotation")
		}
		// Everybody can still talk.
		for i, p := range g.P {
			n := g.Name(i, 0)
			_ = p
			d := g.Create(i, n)
			m := g.Send(i, n, []byte("still here"))
			for who := range g.P {
				if who != i && g.Own(i, n) != nil {
					g.Process(who, d)
					g.Deliver(who, m)
				}
			}
		}
	})
}

func TestC18_Permutation(t *testing.T) {
	kit.Run(t, 3000, "one sender, up to 14 messages with distribution messages made in between, delivered to several members (who joined at different points) in independent random permutations with losses; non-trivial: a member that joined in the middle received at least 3 messages out of order", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 3, 4)
		n := g.Name(0, 0)
		dists := []*kit.GDist{g.Create(0, n)}
		for k := rapid.IntRange(1, 14).Draw(rt, "messages"); k > 0; k-- {
			if rapid.IntRange(0, 3).Draw(rt, "distribute") == 0 {
				dists = append(dists, g.Create(0, n))
			}
			if rapid.IntRange(0, 5).Draw(rt, "reload") == 0 {
				g.Reload(0)
			}
			g.Send(0, n, kit.Plain().Draw(rt, "pt"))
		}
		mid := false
		for who := 1; who < len(g.P); who++ {
			d := dists[rapid.IntRange(0, len(dists)-1).Draw(rt, "joins at")]
			g.Process(who, d)
			var order []int
			for i := range g.Msgs {
				order = append(order, i)
			}
			late := g.Late
			for _, i := range rapid.Permutation(order).Draw(rt, "order") {
				switch rapid.IntRange(0, 9).Draw(rt, "event") {
				case 0:
					continue
				case 1:
					g.Process(who, dists[rapid.IntRange(0, len(dists)-1).Draw(rt, "again")])
				case 2:
					g.Reload(who)
				}
				g.Deliver(who, g.Msgs[i])
			}
			mid = mid || d.Iter > 0 && g.Late >= late+3
		}
		if mid {
			c.Nontrivial()
		}
	})
}
