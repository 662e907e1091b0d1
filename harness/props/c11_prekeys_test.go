package props

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/prospik/libsignal-protocol-go/util/medium"
	"github.com/prospik/libsignal-protocol-go/util/optional"
	"pgregory.net/rapid"
	"verif/kit"
)

func TestC11_PreKeys(t *testing.T) {
	kit.Run(t, 5000, "several initiators establish sessions with a party, with one-time prekeys (some given out twice), the last-resort prekey or none, in generated order with repeats, corrupted messages, unknown or other prekey ids and messages wrapped in establishing messages of other sessions, while numbers of used prekeys come again and signed prekeys rotate; after every step the stored prekeys must be those of the model; non-trivial: at least 2 sessions established and a rejection because of a prekey", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		ser := kit.Serializer(rapid.IntRange(0, 3).Draw(rt, "json") == 0)
		bob := kit.NewParty(kit.Addr{Name: "bob", Dev: 1}, ser, rapid.Bool().Draw(rt, "serialising"))
		ids := rapid.IntRange(0, 2).Draw(rt, "ids") == 0
		if ids {
			// Unusual numbers, near the last-resort one and the ends.
			edge := rapid.SampledFrom([]uint32{0, 1, 0x7f, 0x3fff, medium.MaxValue - 9, medium.MaxValue - 3, medium.MaxValue - 2, medium.MaxValue - 1, medium.MaxValue + 1, 1 << 31, 1<<32 - 40})
			bob.SetIDs(rapid.Uint32().Draw(rt, "reg"), edge.Draw(rt, "firstpre"), edge.Draw(rt, "firstspk"))
		}
		var init []*kit.Party
		for i := 0; i < 3; i++ {
			init = append(init, kit.NewParty(kit.Addr{Name: fmt.Sprint("peer", i), Dev: 1}, ser, rapid.Bool().Draw(rt, "serialising")))
		}
		type sent struct {
			by   int
			w    kit.Wire
			pt   []byte
			sid  string
			pre  *optional.Uint32
			done bool
		}
		var msgs []*sent
		var bundles []*kit.BundleParts
		have := map[uint32]*optional.Uint32{} // the bundle's own, as numbers may come again
		var gone []uint32
		known := map[string]bool{}
		pres := map[string]*optional.Uint32{}
		prekeys := func() map[string][]byte {
			m := bob.Store.Snapshot()
			for k := range m {
				if !bytes.HasPrefix([]byte(k), []byte("prekey ")) && !bytes.HasPrefix([]byte(k), []byte("signed prekey ")) {
					delete(m, k)
				}
			}
			return m
		}
		want := prekeys()
		check := func(after string) {
			if d := kit.Diff(want, prekeys()); d != "" {
				rt.Fatalf("after %s: %s", after, d)
			}
		}
		isOTK := func(o *optional.Uint32) bool { return o != nil && !o.IsEmpty && o.Value != medium.MaxValue }
		est, refused := 0, 0
		n := rapid.IntRange(3, 35).Draw(rt, "steps")
		for k := 0; k < n; k++ {
			i := rapid.IntRange(0, len(init)-1).Draw(rt, "who")
			op := rapid.SampledFrom([]string{"start", "start", "reuse", "send", "deliver", "deliver", "deliver", "deliver", "corrupt", "otherid", "wrap", "rotate", "reload", "extra", "refill", "refill"}).Draw(rt, "op")
			p := init[i]
			sendOne := func() {
				pt := kit.Plain().Draw(rt, "pt")
				w, err := p.Encrypt(bob.Addr, pt)
				if err != nil {
					rt.Fatal(err)
				}
				sid := p.Current(bob.Addr)
				msgs = append(msgs, &sent{by: i, w: w, pt: pt, sid: sid, pre: pres[sid]})
				c.Log("%d sends #%d with prekey %v", i, len(msgs)-1, pres[sid])
			}
			switch op {
			case "start", "reuse":
				var b *kit.BundleParts
				if op == "reuse" && len(bundles) > 0 {
					b = bundles[rapid.IntRange(0, len(bundles)-1).Draw(rt, "bundle")]
				} else {
					b = bob.NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
					bundles = append(bundles, b)
					want = prekeys()
					if isOTK(b.PreID) {
						have[b.PreID.Value] = b.PreID
					}
				}
				if err := p.Builder(bob.Addr).ProcessBundle(b.Bundle()); err != nil {
					rt.Fatal(err)
				}
				pres[p.Current(bob.Addr)] = b.PreID
				sendOne()
			case "extra":
				b := bob.NewBundle(kit.OneTime)
				bundles = append(bundles, b)
				have[b.PreID.Value] = b.PreID
				want = prekeys()
			case "refill":
				// A number whose prekey was used up comes again.
				if len(gone) == 0 {
					continue
				}
				x := rapid.IntRange(0, len(gone)-1).Draw(rt, "gone")
				b := bob.Refill(gone[x])
				gone = append(gone[:x:x], gone[x+1:]...)
				bundles = append(bundles, b)
				have[b.PreID.Value] = b.PreID
				want = prekeys()
				c.Label("refill")
			case "send":
				if p.Current(bob.Addr) != "" {
					sendOne()
				}
			case "rotate":
				bob.NewSignedPreKey()
				want = prekeys()
			case "reload":
				bob.Store.Reload()
				bob.Restart()
			case "deliver":
				if len(msgs) == 0 {
					continue
				}
				x := rapid.IntRange(0, len(msgs)-1).Draw(rt, "msg")
				m := msgs[x]
				key := fmt.Sprint(m.by, m.sid)
				ok := !m.done && (known[key] || !isOTK(m.pre) || have[m.pre.Value] == m.pre)
				before := bob.Store.Snapshot()
				pt, err := bob.Decrypt(init[m.by].Addr, m.w)
				c.Log("deliver #%d: %v", x, ok)
				if (err == nil) != ok {
					rt.Fatalf("message #%d (prekey %v, session known=%v, delivered=%v): error %v", x, m.pre, known[key], m.done, err)
				}
				if err != nil {
					refused++
					if d := kit.Diff(before, bob.Store.Snapshot()); d != "" {
						rt.Fatalf("rejecting message #%d changed the store: %s", x, d)
					}
					continue
				}
				if !bytes.Equal(pt, m.pt) {
					rt.Fatalf("wrong plaintext")
				}
				m.done = true
				if !known[key] {
					est++
					known[key] = true
					if isOTK(m.pre) {
						delete(have, m.pre.Value)
						gone = append(gone, m.pre.Value)
						delete(want, fmt.Sprintf("prekey %d", m.pre.Value))
					}
				}
			case "corrupt", "otherid", "wrap":
				if len(msgs) == 0 {
					continue
				}
				x := rapid.IntRange(0, len(msgs)-1).Draw(rt, "msg")
				m := msgs[x]
				key := fmt.Sprint(m.by, m.sid)
				s := bob.PreOf(m.w.Bytes)
				reject := true
				switch op {
				case "corrupt":
					s.Message = bob.CorruptMac(s.Message, rapid.IntRange(0, 7).Draw(rt, "at"))
				case "otherid":
					old := s.PreKeyID
					oldSPK := s.SignedPreKeyID
					someID := rapid.Custom(func(t *rapid.T) uint32 {
						b := bundles[rapid.IntRange(0, len(bundles)-1).Draw(t, "bundle")]
						if b.PreID.IsEmpty {
							return medium.MaxValue
						}
						return b.PreID.Value
					})
					switch rapid.IntRange(0, 3).Draw(rt, "kind") {
					case 0:
						s.PreKeyID = optional.NewOptionalUint32(rapid.OneOf(rapid.Uint32Range(0, 12), someID, rapid.Just(uint32(medium.MaxValue)), rapid.Uint32()).Draw(rt, "id"))
					case 1:
						s.PreKeyID = optional.NewEmptyUint32()
					case 2:
						s.SignedPreKeyID = rapid.OneOf(rapid.Uint32Range(0, 5), rapid.Uint32(), rapid.Just(oldSPK-1), rapid.Just(oldSPK+1)).Draw(rt, "spk")
					case 3:
						s.PreKeyID = optional.NewOptionalUint32(someID.Draw(rt, "id"))
						s.SignedPreKeyID = bundles[rapid.IntRange(0, len(bundles)-1).Draw(rt, "spkbundle")].SPKID
					}
					same := oldSPK == s.SignedPreKeyID && old.IsEmpty == s.PreKeyID.IsEmpty && (old.IsEmpty || old.Value == s.PreKeyID.Value)
					// Within an established session the ids do not matter.
					if same || known[key] && !m.done {
						continue
					}
				case "wrap":
					// A message of one session of the peer inside an establishing
					// message of another.
					y := rapid.IntRange(0, len(msgs)-1).Draw(rt, "donor")
					d := msgs[y]
					if d.by != m.by || d.sid == m.sid {
						continue
					}
					s.Message = kit.Clone(bob.PreOf(d.w.Bytes).Message)
					// If both are established the wrapping does not matter.
					if known[key] && known[fmt.Sprint(d.by, d.sid)] && !d.done {
						continue
					}
				}
				before := bob.Store.Snapshot()
				pt, err := bob.Decrypt(init[m.by].Addr, kit.Wire{Pre: true, Bytes: ser.PreKeySignalMessage.Serialize(s)})
				c.Log("%s of #%d", op, x)
				if err == nil && reject {
					rt.Fatalf("%s: accepted as %x", op, pt)
				}
				if d := kit.Diff(before, bob.Store.Snapshot()); d != "" {
					rt.Fatalf("%s: the rejection changed the store: %s", op, d)
				}
				c.Label(op)
			}
			check(op)
		}
		for id := range have {
			if !bob.Store.HasPreKey(id) {
				rt.Fatalf("prekey %d is gone", id)
			}
		}
		if est >= 2 && refused > 0 {
			c.Nontrivial()
		}
	})
}
