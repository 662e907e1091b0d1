package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/prospik/libsignal-protocol-go/keys/message"
	"pgregory.net/rapid"
	"verif/kit"
)

// savedKey is a message key as an application could keep it.
type savedKey struct {
	m    *kit.Msg
	k    *message.Keys // as returned
	file []byte        // as saved
}

func TestC31_SavedKeys(t *testing.T) {
	kit.Run(t, 2500, "a conversation with re-initiations, replays and corrupted messages in which every decryption returns the key, compared with decrypting the same message on a copy without; keys are saved (live and serialised) and tried later, with the mutually other messages, and at the end all with all; non-trivial: at least 5 keys saved, one from a skipped message, and 2 used after further turns", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := start(rt, c)
		seed, rnd := rapid.Uint64().Draw(rt, "seed"), 0
		var saved []*savedKey
		old, skipped, turns := 0, 0, map[*savedKey]int{}
		cv.Decrypt = func(to int, m *kit.Msg) ([]byte, error) {
			p, from := cv.P[to], cv.P[m.From].Addr
			// Fresh randomness for each, but the same for both ways.
			rnd++
			use := fmt.Sprint("decryption ", rnd)
			// On a copy, without the key.
			keep := p.Store.Clone()
			kit.SetRand(kit.NamedSource(use, seed))
			pt1, err1 := p.Decrypt(from, m.W)
			alone := p.Store.Snapshot()
			p.Store.Restore(keep)
			kit.SetRand(kit.NamedSource(use, seed))
			pt, k, err := p.DecryptKey(from, m.W)
			if (err == nil) != (err1 == nil) || !bytes.Equal(pt, pt1) {
				rt.Fatalf("message #%d decrypts to %x, %v alone and to %x, %v with its key", m.N, pt1, err1, pt, err)
			}
			if d := kit.Diff(alone, p.Store.Snapshot()); d != "" {
				rt.Fatalf("returning the key of message #%d has another effect: %s", m.N, d)
			}
			if err != nil {
				if k != nil {
					rt.Fatalf("rejecting message #%d returned its key", m.N)
				}
				return nil, err
			}
			if k == nil {
				rt.Fatalf("no key for message #%d", m.N)
			}
			if k.Index() != m.Ctr {
				rt.Fatalf("the key of message #%d has index %d, the message is number %d", m.N, k.Index(), m.Ctr)
			}
			f, _ := json.Marshal(message.NewStructFromKeys(k))
			s := &savedKey{m: m, k: k, file: f}
			saved = append(saved, s)
			turns[s] = cv.Turns
			return pt, nil
		}
		// Anyone's cipher will do to decrypt with a key.
		use := func(s *savedKey, m *kit.Msg, file bool) {
			k := s.k
			if file {
				st := &message.KeysStructure{}
				if err := json.Unmarshal(s.file, st); err != nil {
					rt.Fatal(err)
				}
				k = message.NewKeysFromStruct(st)
			}
			to, from := cv.P[m.To()], cv.P[m.From]
			inner, err := to.Inner(m.W)
			if err != nil {
				rt.Fatal(err)
			}
			before := to.Store.Snapshot()
			pt, err := to.Cipher(from.Addr).DecryptWithKey(inner, k)
			mac := inner.VerifyMac(inner.MessageVersion(), from.ID.PublicKey(), to.ID.PublicKey(), k.MacKey())
			if s.m == m {
				if err != nil || !bytes.Equal(pt, m.PT) {
					rt.Fatalf("the key of message #%d later gives %x, %v instead of %x", m.N, pt, err, m.PT)
				}
				if mac != nil {
					rt.Fatalf("the key of message #%d does not authenticate it: %v", m.N, mac)
				}
			} else {
				if err == nil && bytes.Equal(pt, m.PT) {
					rt.Fatalf("the key of message #%d decrypts message #%d", s.m.N, m.N)
				}
				if mac == nil {
					rt.Fatalf("the key of message #%d authenticates message #%d", s.m.N, m.N)
				}
			}
			if d := kit.Diff(before, to.Store.Snapshot()); d != "" {
				rt.Fatalf("decrypting with a key changed the store: %s", d)
			}
		}
		ops := kit.BasicOps()
		ops["x1"], ops["x2"], ops["init"], ops["reinit"], ops["close"], ops["age"] = 4, 1, 1, 1, 1, 1
		for _, o := range kit.GenOps(ops, 6, 45).Draw(rt, "ops") {
			if cv.Inits > 25 && (o.Kind == "init" || o.Kind == "reinit") {
				continue
			}
			switch o.Kind {
			case "x1":
				if len(saved) == 0 {
					continue
				}
				s := saved[o.N%len(saved)]
				use(s, s.m, o.N%2 == 0)
				use(s, cv.Msgs[o.N%len(cv.Msgs)], o.N%3 == 0)
			case "x2":
				if len(cv.Msgs) == 0 {
					continue
				}
				m := cv.Msgs[o.N%len(cv.Msgs)]
				p := cv.P[m.To()]
				w := m.W
				if w.Pre {
					s := p.PreOf(w.Bytes)
					s.Message = p.CorruptMac(s.Message, o.N)
					w.Bytes = p.Ser.PreKeySignalMessage.Serialize(s)
				} else {
					w.Bytes = p.CorruptMac(w.Bytes, o.N)
				}
				if pt, k, err := p.DecryptKey(cv.P[m.From].Addr, w); err == nil || k != nil || pt != nil {
					rt.Fatalf("a corrupted message gives %x, %v, %v", pt, k, err)
				}
			default:
				cv.Step(o)
			}
		}
		cv.Drain(rt)
		skipped = cv.OutOfOrder
		for i, s := range saved {
			if cv.Turns > turns[s] {
				old++
			}
			for j, m := range cv.Msgs {
				if s.m == m || (i+j)%3 == 0 && i < 25 {
					use(s, m, (i+j)%2 == 0)
				}
			}
		}
		if len(saved) >= 5 && skipped > 0 && old >= 2 {
			c.Nontrivial()
		}
	})
}
