package props

import (
	"bytes"
	"testing"

	"github.com/prospik/libsignal-protocol-go/state/record"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// checkBounds checks the size of a stored session record.
func checkBounds(rt *rapid.T, p *kit.Party, a kit.Addr) {
	st := p.Session(a)
	if st == nil {
		return
	}
	if len(st.PreviousStates) > kit.MaxArchived {
		rt.Fatalf("%d archived sessions are stored", len(st.PreviousStates))
	}
	all := append([]*record.StateStructure{st.SessionState}, st.PreviousStates...)
	for i, s := range all {
		if s == nil {
			continue
		}
		if len(s.ReceiverChains) > kit.MaxChains {
			rt.Fatalf("session %d stores %d receiving chains", i, len(s.ReceiverChains))
		}
		for _, c := range s.ReceiverChains {
			if len(c.MessageKeys) > kit.MaxSkipped {
				rt.Fatalf("session %d stores %d message keys of a chain", i, len(c.MessageKeys))
			}
		}
	}
}

// refSession makes a session between the library and a reference peer that
// has heard from it, or is about to establish it.
func refSession(rt *rapid.T, lib *kit.Party, them kit.Addr, src *kit.Source, kind kit.PreKind) *ref.Peer {
	b := lib.NewBundle(kind)
	var pre []byte
	if b.Pre != nil {
		pre = b.Pre.Serialize()[1:]
	}
	ik := ref.NewPair(src)
	return ref.NewInitiator(src, ik, 5, b.ID.PublicKey().Serialize()[1:], b.SPK.Serialize()[1:], b.SPKID, pre, b.PreID.Value)
}

// winChain is the model of one receiving chain with its windows.
type winChain struct {
	c     *ref.SendChain
	next  uint32
	order []uint32 // kept skipped counters, oldest first
	used  []uint32
	lost  []uint32
}

func (w *winChain) predict(ctr, future uint32) bool {
	if ctr >= w.next {
		return ctr-w.next <= future
	}
	for _, x := range w.order {
		if x == ctr {
			return true
		}
	}
	return false
}

func (w *winChain) accept(ctr uint32, keep int) {
	if ctr < w.next {
		for i, x := range w.order {
			if x == ctr {
				w.order = append(w.order[:i:i], w.order[i+1:]...)
				break
			}
		}
	} else {
		for i := w.next; i < ctr; i++ {
			w.order = append(w.order, i)
		}
		if len(w.order) > keep {
			n := len(w.order) - keep
			w.lost = append([]uint32{}, w.order[max(0, n-50):n]...)
			w.order = append([]uint32{}, w.order[n:]...)
		}
		w.next = ctr + 1
	}
	w.used = append(w.used, ctr)
}

// pickCtr picks a counter near a boundary of the window.
func (w *winChain) pickCtr(rt *rapid.T, future, keep uint32) uint32 {
	switch rapid.IntRange(0, 10).Draw(rt, "pick") {
	case 10:
		// So far that the distance, or the number, needs all its bits.
		g := rapid.SampledFrom([]uint32{1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + future, 1<<32 - 1, 1<<32 - 2 - future}).Draw(rt, "far")
		if rapid.Bool().Draw(rt, "number") && g > w.next {
			return g
		}
		if far := w.next + g; far > w.next {
			return far
		}
	case 0, 1, 2:
		g := rapid.SampledFrom([]uint32{0, 1, 2, 10, keep - 1, keep, keep + 1, keep + 2, future - 1, future, future + 1, future + 2, future * 2, 0x10000, 0x20000}).Draw(rt, "gap")
		return w.next + g
	case 3:
		return w.next + rapid.Uint32Range(0, future+3).Draw(rt, "gap")
	case 4:
		if len(w.order) > 0 {
			return w.order[0]
		}
	case 5:
		if len(w.order) > 1 {
			return w.order[len(w.order)-1]
		}
	case 6:
		if len(w.order) > 0 {
			return w.order[rapid.IntRange(0, len(w.order)-1).Draw(rt, "kept")]
		}
	case 7:
		if len(w.lost) > 0 {
			return w.lost[len(w.lost)-1-rapid.IntRange(0, min(3, len(w.lost)-1)).Draw(rt, "lost")]
		}
	case 8:
		if len(w.used) > 0 {
			return w.used[rapid.IntRange(0, len(w.used)-1).Draw(rt, "used")]
		}
	}
	return w.next
}

func TestC13_Windows(t *testing.T) {
	kit.Run(t, 900, "a reference peer sends messages with counters at and around the limits (5000 ahead, newest 2000 skipped) of the current and earlier chains, in one or several jumps, with the acceptance of each compared to the model, the stores compared around rejections and the stored sizes checked; non-trivial: a jump of at least 2000 and a late message accepted and one rejected", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		src := kit.PeerSource(rt)
		lib := kit.NewParty(kit.Addr{Name: "lib", Dev: 1}, kit.Serializer(false), rapid.Bool().Draw(rt, "serialising"))
		them := kit.Addr{Name: "ref", Dev: 1}
		peer := refSession(rt, lib, them, src, kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		chains := []*winChain{{c: peer.Chain()}}
		big, lateOK, lateBad := false, false, false
		for step := rapid.IntRange(3, 16).Draw(rt, "steps"); step > 0; step-- {
			if chains[len(chains)-1].next > 0 && rapid.IntRange(0, 5).Draw(rt, "turn") == 0 {
				w, err := lib.Encrypt(them, []byte("turn"))
				if err != nil {
					rt.Fatalf("the library cannot reply: %v", err)
				}
				cur := chains[len(chains)-1]
				peer.Advance(cur.c.Steps(cur.next), cur.next)
				if pt, err := peer.Decrypt(w.Bytes); err != nil || string(pt) != "turn" {
					rt.Fatalf("the reply is wrong: %v", err)
				}
				chains = append(chains, &winChain{c: peer.Chain()})
				c.Log("turn")
				continue
			}
			i := len(chains) - 1
			if rapid.IntRange(0, 3).Draw(rt, "earlier") == 0 {
				i = rapid.IntRange(0, i).Draw(rt, "chain")
			}
			w := chains[i]
			if w.next > 0 && rapid.IntRange(0, 19).Draw(rt, "age") == 0 {
				if add := lib.AgeReceiving(them, w.c.Ratchet(), rapid.IntRange(0, 7).Draw(rt, "to")); add > 0 {
					w.c.Shift(w.next, add)
					w.next += add
					c.Log("chain %d ages by %d", i, add)
					c.Label("aged")
				}
			}
			ctr := w.pickCtr(rt, kit.MaxFuture, kit.MaxSkipped)
			// Chains count from when they were first heard of: the session
			// starts with the chain of the library's own signed prekey only
			// if it is the initiator, which it is not.
			heard := 0
			for _, x := range chains[i:] {
				if x.next > 0 {
					heard++
				}
			}
			ok := w.predict(ctr, kit.MaxFuture)
			if w.next > 0 && heard > kit.MaxChains {
				ok = false
			}
			if w.next == 0 && i < len(chains)-1 {
				continue // cannot happen: turns need a heard chain
			}
			pt := []byte{byte(ctr), byte(ctr >> 8), byte(i)}
			b, pre := w.c.At(ctr, pt)
			before := lib.Store.Snapshot()
			got, err := lib.Decrypt(them, kit.Wire{Pre: pre, Bytes: b})
			c.Log("chain %d/%d: %d with %d next: %v", i, len(chains)-1, ctr, w.next, ok)
			if ok != (err == nil) {
				rt.Fatalf("message %d of chain %d of %d (next is %d, %d kept): accepted=%v, expected %v (%v)", ctr, i, len(chains), w.next, len(w.order), err == nil, ok, err)
			}
			if !ok {
				if d := kit.Diff(before, lib.Store.Snapshot()); d != "" {
					rt.Fatalf("rejecting message %d changed the store: %.300s", ctr, d)
				}
				lateBad = lateBad || ctr < w.next
			} else {
				if !bytes.Equal(got, pt) {
					rt.Fatalf("message %d decrypts to %x", ctr, got)
				}
				big = big || ctr >= w.next+2000
				lateOK = lateOK || ctr < w.next
				w.accept(ctr, kit.MaxSkipped)
			}
			checkBounds(rt, lib, them)
		}
		if big && lateOK && lateBad {
			c.Nontrivial()
		}
	})
}

func TestC13_Sending(t *testing.T) {
	kit.Run(t, 48, "both parties are the library and a burst of thousands of messages is sent, of which the receiver gets those around the limits; non-trivial: a message exactly at a limit was accepted and one just beyond rejected", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		o := kit.DrawOpts(rt)
		o.Ser = [2]bool{}
		if o.JSON {
			o.JSON = rapid.Bool().Draw(rt, "really json")
		}
		cv := kit.NewConv(rt, c, o)
		cv.Atomic = true
		cv.Init(0, kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		from := 0
		if rapid.Bool().Draw(rt, "answer") {
			cv.Deliver(cv.Send(0, []byte("hello")))
			if rapid.Bool().Draw(rt, "swap") {
				from = 1
			} else {
				cv.Deliver(cv.Send(1, []byte("hi")))
			}
		}
		n := rapid.SampledFrom([]int{2003, 5003, 6000}).Draw(rt, "burst")
		for i := 0; i < n; i++ {
			cv.Send(from, []byte{byte(i), byte(i >> 8)})
		}
		ms := cv.Msgs[len(cv.Msgs)-n:]
		yes, no := false, false
		for k := rapid.IntRange(3, 14).Draw(rt, "deliveries"); k > 0; k-- {
			// Where the verdict changes from one message to the next.
			var edges []int
			for i := 1; i < n; i++ {
				if cv.Predict(ms[i]) != cv.Predict(ms[i-1]) {
					edges = append(edges, i-1, i)
				}
			}
			i := rapid.IntRange(0, n-1).Draw(rt, "any")
			if len(edges) > 0 && rapid.IntRange(0, 5).Draw(rt, "edge") > 0 {
				i = edges[rapid.IntRange(0, len(edges)-1).Draw(rt, "which")]
			}
			v := cv.Deliver(ms[i])
			yes = yes || v == kit.Accept
			no = no || v == kit.Reject
			checkBounds(rt, cv.P[1-from], cv.P[from].Addr)
		}
		if yes && no {
			c.Nontrivial()
		}
		cv.PingPong()
	})
}

func TestC13_Chains(t *testing.T) {
	kit.Run(t, 1500, "a conversation with up to 12 ratchet turns in which messages of every chain are withheld and delivered later, so that the receiving chains beyond the newest five are closed; non-trivial: a withheld message of a chain that is still kept accepted and one of a closed chain rejected", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		cv.Atomic = true
		cv.Init(0, kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		yes, no := false, false
		late := func() {
			m := cv.Msgs[rapid.IntRange(0, len(cv.Msgs)-1).Draw(rt, "late")]
			if m.Delivered > 0 {
				return
			}
			v := cv.Deliver(m)
			yes = yes || v == kit.Accept
			no = no || v == kit.Reject
			checkBounds(rt, cv.P[m.To()], cv.P[m.From].Addr)
		}
		for turn := rapid.IntRange(4, 12).Draw(rt, "turns"); turn > 0; turn-- {
			for who := 0; who < 2; who++ {
				if !cv.CanSend(who) {
					continue
				}
				n := rapid.IntRange(1, 4).Draw(rt, "messages")
				for i := 0; i < n; i++ {
					cv.Send(who, []byte{byte(i)})
				}
				cv.Deliver(cv.Msgs[len(cv.Msgs)-1-rapid.IntRange(0, n-1).Draw(rt, "first")])
				for rapid.IntRange(0, 3).Draw(rt, "more") == 0 {
					late()
				}
			}
		}
		for k := rapid.IntRange(3, 30).Draw(rt, "rest"); k > 0; k-- {
			late()
		}
		if yes && no {
			c.Nontrivial()
		}
		cv.PingPong()
	})
}

func TestC13_Archive(t *testing.T) {
	kit.Run(t, 60, "one party establishes 38 to 46 sessions, each reaching the other, with messages of each withheld and delivered afterwards: those of the current and the forty newest earlier sessions must decrypt, others not; non-trivial: both happened", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		n := rapid.IntRange(38, 46).Draw(rt, "sessions")
		for i := 0; i < n; i++ {
			cv.Init(0, kit.OneTime)
			cv.Deliver(cv.Send(0, []byte("first")))
			cv.Send(0, []byte("withheld"))
			if rapid.IntRange(0, 3).Draw(rt, "reply") == 0 {
				cv.Deliver(cv.Send(1, []byte("reply")))
				cv.Send(0, []byte("withheld"))
			}
			checkBounds(rt, cv.P[0], cv.P[1].Addr)
			checkBounds(rt, cv.P[1], cv.P[0].Addr)
		}
		yes, no := false, false
		// Oldest first, so that deliveries do not change what is kept before
		// it is tried; then in any order.
		for k := rapid.IntRange(5, 25).Draw(rt, "late"); k > 0; k-- {
			m := cv.Msgs[rapid.IntRange(0, len(cv.Msgs)-1).Draw(rt, "msg")]
			if rapid.Bool().Draw(rt, "old") {
				m = cv.Msgs[rapid.IntRange(0, min(len(cv.Msgs)-1, 24)).Draw(rt, "oldmsg")]
			}
			if m.Delivered > 0 {
				continue
			}
			v := cv.Deliver(m)
			yes = yes || v == kit.Accept
			no = no || v == kit.Reject
			checkBounds(rt, cv.P[1], cv.P[0].Addr)
		}
		if yes && no {
			c.Nontrivial()
		}
	})
}
