package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

func groupBounds(rt *rapid.T, p *kit.Party, n kit.SKName) {
	b := p.Store.SenderKeyBytes(n)
	if b == nil {
		return
	}
	st, err := p.Ser.SenderKeyRecord.Deserialize(b)
	if err != nil {
		rt.Fatalf("a stored sender key cannot be read: %v", err)
	}
	if len(st.SenderKeyStates) > kit.GroupStates {
		rt.Fatalf("%d sending keys are stored", len(st.SenderKeyStates))
	}
	for _, s := range st.SenderKeyStates {
		if len(s.Keys) > kit.GroupKeys {
			rt.Fatalf("%d message keys are stored", len(s.Keys))
		}
	}
}

// bases are iterations from which on more bits are needed soon; all that is
// sent from one on fits.
var bases = []uint32{0, 0, 0, 0, 0, 32000, 65000, 1<<24 - 500, 1<<31 - 500, 1<<32 - 200000}

func TestC21_Windows(t *testing.T) {
	kit.Run(t, 600, "independent senders (one to three, in one or two groups) send messages with iterations at and around the limits (2000 ahead, newest 2000 skipped) to the library, starting from any iteration (also where its number grows a byte), in one or several jumps; acceptance is compared with the model, stores around rejections and the sender keys of the others around everything; non-trivial: a jump of at least 1999 and a late message accepted and one rejected", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		src := kit.PeerSource(rt)
		lib := kit.NewParty(kit.Addr{Name: "lib", Dev: 1}, kit.Serializer(false), rapid.IntRange(0, 3).Draw(rt, "serialising") == 0)
		type sender struct {
			k *ref.GroupAt
			n kit.SKName
			w *winChain
		}
		var ss []*sender
		for i := rapid.IntRange(1, 3).Draw(rt, "senders"); i > 0; i-- {
			s := &sender{k: ref.NewGroupAt(src, rapid.Uint32Range(0, 3).Draw(rt, "id")), w: &winChain{}}
			s.k.Base = rapid.SampledFrom(bases).Draw(rt, "base")
			s.w.next = s.k.Base + rapid.SampledFrom([]uint32{0, 0, 1, 7, 2000, 4999}).Draw(rt, "start")
			s.n = rapid.SampledFrom([]kit.SKName{{Group: "g", Sender: kit.Addr{Name: "x", Dev: 1}}, {Group: "g", Sender: kit.Addr{Name: "x", Dev: 2}}, {Group: "h", Sender: kit.Addr{Name: "x", Dev: 1}}}).Draw(rt, "name")
			same := false
			for _, o := range ss {
				// One sender does not use an id for two keys.
				same = same || o.n == s.n && o.k.ID == s.k.ID
			}
			if same {
				continue
			}
			if err := lib.GroupProcess(s.n, s.k.Dist(s.w.next)); err != nil {
				rt.Fatalf("cannot process a distribution message: %v", err)
			}
			ss = append(ss, s)
		}
		big, lateOK, lateBad := false, false, false
		for step := rapid.IntRange(3, 14).Draw(rt, "steps"); step > 0; step-- {
			s := ss[rapid.IntRange(0, len(ss)-1).Draw(rt, "sender")]
			w := s.w
			ctr := w.pickCtr(rt, kit.GroupFuture, kit.GroupKeys)
			if d := ctr - s.k.Base; d > 40000 && (ctr < w.next || ctr-w.next < 1<<23) {
				ctr = w.next + ctr%5000
			}
			ok := w.predict(ctr, kit.GroupFuture)
			pt := []byte(fmt.Sprint(ctr))
			before := lib.Store.Snapshot()
			got, err := lib.GroupDecrypt(s.n, s.k.Msg(ctr, pt))
			after := lib.Store.Snapshot()
			c.Log("%d with %d next: %v", ctr, w.next, ok)
			if ok != (err == nil) {
				rt.Fatalf("message %d (next is %d, %d kept): accepted=%v, expected %v (%v)", ctr, w.next, len(w.order), err == nil, ok, err)
			}
			if !ok {
				if d := kit.Diff(before, after); d != "" {
					rt.Fatalf("rejecting message %d changed the store: %.300s", ctr, d)
				}
				lateBad = lateBad || ctr < w.next
			} else {
				if !bytes.Equal(got, pt) {
					rt.Fatalf("message %d decrypts to %x", ctr, got)
				}
				big = big || ctr >= w.next+1999
				lateOK = lateOK || ctr < w.next
				w.accept(ctr, kit.GroupKeys)
				// Only this sending key may have changed.
				for k := range after {
					if strings.HasSuffix(k, fmt.Sprintf(" %s/%s/%d", s.n.Group, s.n.Sender.Name, s.n.Sender.Dev)) {
						delete(before, k)
						delete(after, k)
					}
				}
				if d := kit.Diff(before, after); d != "" {
					rt.Fatalf("accepting a message of %v changed something else: %.300s", s.n, d)
				}
			}
			groupBounds(rt, lib, s.n)
		}
		if big && lateOK && lateBad {
			c.Nontrivial()
		}
	})
}

func TestC21_Library(t *testing.T) {
	kit.Run(t, 32, "the library itself sends thousands of group messages of which a member gets those around the limits; non-trivial: a message at a limit accepted and one beyond rejected", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 2)
		g.Atomic = true
		n := g.Name(0, 0)
		g.Process(1, g.Create(0, n))
		num := rapid.SampledFrom([]int{2003, 4005}).Draw(rt, "burst")
		for i := 0; i < num; i++ {
			g.Send(0, n, []byte{byte(i), byte(i >> 8)})
		}
		yes, no := false, false
		for k := rapid.IntRange(4, 14).Draw(rt, "deliveries"); k > 0; k-- {
			var edges []int
			for i := 1; i < num; i++ {
				if g.Predict(1, g.Msgs[i]) != g.Predict(1, g.Msgs[i-1]) {
					edges = append(edges, i-1, i)
				}
			}
			i := rapid.IntRange(0, num-1).Draw(rt, "any")
			if len(edges) > 0 && rapid.IntRange(0, 5).Draw(rt, "edge") > 0 {
				i = edges[rapid.IntRange(0, len(edges)-1).Draw(rt, "which")]
			}
			ok := g.Deliver(1, g.Msgs[i])
			yes = yes || ok
			no = no || !ok
			groupBounds(rt, g.P[1], n)
		}
		if yes && no {
			c.Nontrivial()
		}
	})
}

func TestC21_Keys(t *testing.T) {
	kit.Run(t, 24, "one sender distributes 1990 to 2010 sending keys one after the other, of which messages are delivered afterwards: those of the newest 2000 decrypt, older ones do not; non-trivial: both happened", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		src := kit.PeerSource(rt)
		lib := kit.NewParty(kit.Addr{Name: "lib", Dev: 1}, kit.Serializer(false), false)
		n := kit.SKName{Group: "g", Sender: kit.Addr{Name: "x", Dev: 1}}
		total := rapid.IntRange(1990, 2010).Draw(rt, "keys")
		c.Log("%d keys", total)
		var ks []*ref.GroupAt
		pub := ref.NewPair(src)
		for i := 0; i < total; i++ {
			k := ref.NewGroupAt(src, uint32(i)*7+1)
			if i%50 != 0 && i > 30 && i < total-10 {
				k.Key = pub // making keys is slow
			}
			ks = append(ks, k)
			if err := lib.GroupProcess(n, k.Dist(0)); err != nil {
				rt.Fatalf("%v", err)
			}
		}
		groupBounds(rt, lib, n)
		if rapid.Bool().Draw(rt, "reload") {
			lib.Store.Reload()
			lib.Restart()
		}
		yes, no := false, false
		done := map[int]bool{}
		for k := rapid.IntRange(6, 20).Draw(rt, "messages"); k > 0; k-- {
			i := rapid.OneOf(rapid.IntRange(0, 14), rapid.IntRange(0, total-1), rapid.IntRange(total-3, total-1), rapid.IntRange(max(0, total-2002), max(1, total-1998))).Draw(rt, "key")
			if i < 0 || i >= total || done[i] {
				continue
			}
			done[i] = true
			ok := i >= total-kit.GroupStates
			c.Log("key %d: %v", i, ok)
			got, err := lib.GroupDecrypt(n, ks[i].Msg(0, []byte("hello")))
			if ok != (err == nil) || ok && string(got) != "hello" {
				rt.Fatalf("a message of key %d of %d: accepted=%v, expected %v (%v)", i, total, err == nil, ok, err)
			}
			yes, no = yes || ok, no || !ok
		}
		if yes && no {
			c.Nontrivial()
		}
	})
}

func TestC21_Isolation(t *testing.T) {
	kit.Run(t, 4000, "a generated history of members in two groups; every operation changes at most the sending key that it names, also with names and devices that resemble each other, and messages of earlier sending keys decrypt after rotation; non-trivial: a rotation and a message of an earlier key accepted after it", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 5)
		g.Setup(rt)
		ops := kit.GroupOps()
		ops["rotate"], ops["process"], ops["create"], ops["age"] = 3, 8, 4, 1
		old := false
		latest := map[kit.SKName]*kit.GEpoch{}
		for _, o := range kit.GenGroupOps(ops, 6, 50).Draw(rt, "ops") {
			var before []map[string][]byte
			for _, p := range g.P {
				before = append(before, p.Store.Snapshot())
			}
			nd, nm := len(g.Dists), len(g.Msgs)
			var got []int
			for who := range g.P {
				for _, m := range g.Msgs {
					got = append(got, m.Got[who])
				}
			}
			g.Step(o)
			_, _ = nd, nm
			i := 0
			for who := range g.P {
				for _, m := range g.Msgs[:nm] {
					if m.Got[who] > got[i] && latest[m.E.Name] != nil && latest[m.E.Name] != m.E && g.Knows(who, latest[m.E.Name]) {
						old = true
					}
					i++
				}
			}
			for _, e := range g.Epochs {
				latest[e.Name] = e
			}
			if o.Kind == "age" {
				continue
			}
			changed := 0
			for who, p := range g.P {
				after := p.Store.Snapshot()
				if who != o.Who%len(g.P) {
					if d := kit.Diff(before[who], after); d != "" {
						rt.Fatalf("%v of another member changed the store of member %d: %s", o, who, d)
					}
					continue
				}
				for k, v := range after {
					if w, ok := before[who][k]; !ok || !bytes.Equal(v, w) {
						changed++
					}
				}
			}
			if changed > 1 {
				rt.Fatalf("%v changed %d records", o, changed)
			}
		}
		g.Drain(rt)
		if g.Rotations > 0 && old {
			c.Nontrivial()
		}
	})
}
