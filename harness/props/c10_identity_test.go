package props

import (
	"bytes"
	"testing"

	"github.com/prospik/libsignal-protocol-go/util/medium"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
	"verif/kit"
)

func TestC10_Identities(t *testing.T) {
	kit.Run(t, 6000, "a party, whose store pins first identities or not, is offered bundles and establishing messages of a peer and of an impostor under the same address, also replayed, forged with the other's identity or corrupted, and sends; a model follows which identity is recorded; non-trivial: an attempt under another identity than the recorded one and a forgotten identity or an accepted change", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		ser := kit.Serializer(rapid.IntRange(0, 3).Draw(rt, "json") == 0)
		alice := kit.NewParty(kit.Addr{Name: "alice", Dev: 1}, ser, rapid.Bool().Draw(rt, "serialising"))
		alice.Store.Pin = rapid.IntRange(0, 3).Draw(rt, "pin") > 0
		pin := alice.Store.Pin
		bob := kit.Addr{Name: "bob", Dev: 1}
		who := []*kit.Party{kit.NewParty(bob, ser, true), kit.NewParty(bob, ser, false), kit.NewParty(bob, ser, true)}
		c.Log("pin=%v", pin)
		type sent struct {
			by, prekeyKind int
			w              kit.Wire
			pt             []byte
			done           bool
			sid            string
			pre            *optional.Uint32
		}
		var msgs []*sent
		model := []byte(nil)
		known := map[string]bool{}    // sessions Alice has
		consumed := map[uint32]bool{} // her one-time prekeys that were used
		pres := map[string]*optional.Uint32{}
		isOTK := func(o *optional.Uint32) bool { return o != nil && !o.IsEmpty && o.Value != medium.MaxValue }
		deleted := map[string]bool{}
		attempts, changes, late := 0, 0, false
		trusts := func(i int) bool { return !pin || model == nil || bytes.Equal(model, who[i].IDBytes()) }
		recorded := func(after string) {
			id, ok := alice.Store.Identity(bob)
			if ok != (model != nil) || ok && !bytes.Equal(id[:], model) {
				rt.Fatalf("after %s the recorded identity is %x (%v), expected %x", after, id, ok, model)
			}
		}
		established := func(i int, how string) {
			if model != nil && !bytes.Equal(model, who[i].IDBytes()) {
				changes++
			}
			model = who[i].IDBytes()
			recorded(how)
			if st := alice.Session(bob).SessionState; !bytes.Equal(st.RemoteIdentityPublic, model) {
				rt.Fatalf("after %s the session is with the identity %x, expected %x", how, st.RemoteIdentityPublic, model)
			}
		}
		current := -1
		n := rapid.IntRange(2, 25).Draw(rt, "steps")
		for k := 0; k < n; k++ {
			i := rapid.IntRange(0, len(who)-1).Draw(rt, "who")
			op := rapid.SampledFrom([]string{"bundle", "bundle", "send", "send", "deliver", "deliver", "deliver", "forge", "forget", "encrypt", "corrupt", "reload", "delete", "encrypt"}).Draw(rt, "op")
			c.Log("%s %d", op, i)
			switch op {
			case "bundle":
				b := who[i].NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey"))).Bundle()
				before := alice.Store.Snapshot()
				ok := trusts(i)
				if !ok {
					attempts++
				}
				err := alice.Builder(bob).ProcessBundle(b)
				if (err == nil) != ok {
					rt.Fatalf("bundle of %d: trusted=%v, but error=%v", i, ok, err)
				}
				if err == nil {
					established(i, "a bundle")
					current, known[alice.Current(bob)] = i, true
				} else if d := kit.Diff(before, alice.Store.Snapshot()); d != "" {
					rt.Fatalf("an untrusted bundle changed the store: %s", d)
				}
			case "send": // the peer or an impostor makes an establishing message
				a := alice.Addr
				if who[i].Current(a) == "" || rapid.IntRange(0, 2).Draw(rt, "anew") == 0 {
					b := alice.NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
					if err := who[i].Builder(a).ProcessBundle(b.Bundle()); err != nil {
						rt.Fatal(err)
					}
					pres[who[i].Current(a)] = b.PreID
				}
				pt := kit.Plain().Draw(rt, "pt")
				w, err := who[i].Encrypt(a, pt)
				if err != nil {
					rt.Fatal(err)
				}
				msgs = append(msgs, &sent{by: i, w: w, pt: pt, sid: who[i].Current(a), pre: pres[who[i].Current(a)]})
			case "deliver", "corrupt", "forge":
				if len(msgs) == 0 {
					continue
				}
				m := msgs[rapid.IntRange(0, len(msgs)-1).Draw(rt, "msg")]
				w := m.w
				ok := trusts(m.by) && !m.done && (known[m.sid] || !isOTK(m.pre) || !consumed[m.pre.Value])
				must, either := false, false
				if !w.Pre {
					// No identity is claimed; the session is there or not.
					ok = known[m.sid] && !m.done
					if op == "forge" || ok && deleted[m.sid] {
						continue
					}
					late = late || ok && model != nil && !bytes.Equal(model, who[m.by].IDBytes())
				}
				switch {
				case op == "corrupt" && !w.Pre:
					w.Bytes = alice.CorruptMac(w.Bytes, rapid.IntRange(0, 7).Draw(rt, "at"))
					must = true
				case op == "corrupt":
					s := alice.PreOf(w.Bytes)
					s.Message = alice.CorruptMac(s.Message, rapid.IntRange(0, 7).Draw(rt, "at"))
					w = kit.Wire{Pre: true, Bytes: ser.PreKeySignalMessage.Serialize(s)}
					must = true
				case op == "forge": // claims another's identity
					s := alice.PreOf(w.Bytes)
					j := (m.by + 1 + rapid.IntRange(0, len(who)-2).Draw(rt, "claim")) % len(who)
					s.IdentityKey = kit.Clone(who[j].IDBytes())
					w = kit.Wire{Pre: true, Bytes: ser.PreKeySignalMessage.Serialize(s)}
					must = true
					if known[m.sid] {
						// The session is there. If the claimed identity is
						// trusted, the message may be accepted, once, but as
						// the session's.
						must = !trusts(j)
						either = !must
					}
					attempts++
				}
				if w.Pre && !trusts(m.by) {
					attempts++
				}
				before := alice.Store.Snapshot()
				pt, err := alice.Decrypt(bob, w)
				if must && err == nil {
					rt.Fatalf("a forged or corrupted establishing message is accepted: %x", pt)
				}
				if either && err == nil {
					if m.done {
						rt.Fatalf("a repeated message with another identity is accepted: %x", pt)
					}
					c.Label("message of a session under another identity")
				}
				if !must && !either && (err == nil) != ok {
					rt.Fatalf("message of %d: establishing=%v, trusted=%v, done=%v, but error=%v", m.by, w.Pre, trusts(m.by), m.done, err)
				}
				if err != nil {
					if d := kit.Diff(before, alice.Store.Snapshot()); d != "" {
						rt.Fatalf("a rejected establishing message (%v) changed the store: %s", err, d)
					}
					continue
				}
				if !bytes.Equal(pt, m.pt) {
					rt.Fatalf("wrong plaintext")
				}
				m.done, known[m.sid] = true, true
				if isOTK(m.pre) {
					consumed[m.pre.Value] = true
				}
				established(m.by, "an establishing message")
				current = m.by
			case "delete": // the sessions, not the identity
				alice.Store.DeleteSession(bob.Signal())
				for sid := range known {
					// It may be made again by a repeated message, but the
					// peer is further on.
					deleted[sid] = true
				}
				known, current = map[string]bool{}, -1
				for _, m := range msgs {
					m.done = false
				}
			case "forget":
				alice.Store.ForgetIdentity(bob)
				model = nil
			case "encrypt":
				if current < 0 {
					continue
				}
				had := model != nil
				reply, err := alice.Encrypt(bob, []byte("x"))
				if err != nil {
					rt.Fatalf("cannot encrypt: %v", err)
				}
				if rapid.IntRange(0, 2).Draw(rt, "lost") > 0 {
					// From now on the peer's messages in this session do not
					// establish it any more.
					_, err := who[current].Decrypt(alice.Addr, reply)
					if err != nil && !deleted[alice.Current(bob)] {
						rt.Fatalf("the peer cannot decrypt: %v", err)
					}
				}
				if had {
					recorded("encrypting")
				} else if id, ok := alice.Store.Identity(bob); ok {
					if !bytes.Equal(id[:], who[current].IDBytes()) {
						rt.Fatalf("encrypting records the identity %x, the session's is %x", id, who[current].IDBytes())
					}
					model = who[current].IDBytes()
				}
			case "reload":
				alice.Store.Reload()
				alice.Restart()
			}
			recorded(op)
		}
		if late {
			c.Label("late message of a session with another identity")
		}
		if attempts > 0 && (changes > 0 || pin) {
			c.Nontrivial()
		}
	})
}
