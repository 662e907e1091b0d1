package props

import (
	"bytes"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// agedFrom are iterations that soon take more bits.
var agedFrom = []uint32{0, 0, 0, 0, 120, 16200, 32600, 65400, 1<<21 - 150, 1<<24 - 150, 1<<31 - 150, 1<<32 - 400}

func TestC35_LibrarySends(t *testing.T) {
	kit.Run(t, 1200, "the library distributes its sending key (at any point) and sends; an independent receiver, who starts at one of the distribution messages, decrypts from the raw bytes in a random order; encodings, keys, iterations and signatures are compared; non-trivial: at least 3 messages, received out of order", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		lib := kit.NewParty(kit.Addr{Name: "lib", Dev: 1}, kit.Serializer(false), rapid.Bool().Draw(rt, "serialising"))
		n := kit.SKName{Group: rapid.SampledFrom([]string{"g", "", "group with :: and ü"}).Draw(rt, "group"), Sender: lib.Addr}
		var recv []*ref.GroupReceiver
		dist := func() {
			b, err := lib.GroupCreate(n)
			if err != nil {
				rt.Fatalf("cannot distribute: %v", err)
			}
			d, err := ref.ParseSKDM(b)
			if err != nil {
				rt.Fatalf("bad distribution message %x: %v", b, err)
			}
			recv = append(recv, ref.NewGroupReceiver(d))
		}
		base := rapid.SampledFrom(agedFrom).Draw(rt, "base")
		if base > 0 {
			if _, err := lib.GroupCreate(n); err != nil {
				rt.Fatalf("cannot distribute: %v", err)
			}
			lib.AgeSenderKey(n, base)
		}
		dist()
		type sent struct{ b, pt []byte }
		var ms []sent
		starts := []int{0}
		for k := rapid.IntRange(1, 14).Draw(rt, "messages"); k > 0; k-- {
			switch rapid.IntRange(0, 5).Draw(rt, "between") {
			case 0:
				dist()
				starts = append(starts, len(ms))
			case 1:
				lib.Store.Reload()
				lib.Restart()
			}
			pt := kit.Plain().Draw(rt, "pt")
			b, err := lib.GroupEncrypt(n, pt)
			if err != nil {
				rt.Fatalf("cannot send: %v", err)
			}
			m, err := ref.ParseGroup(b)
			if err != nil || int(m.Iter-base) != len(ms) || m.ID != recv[0].D.ID {
				rt.Fatalf("message %d is %x: %v %+v", len(ms), b, err, m)
			}
			ms = append(ms, sent{b, pt})
		}
		for r, d := range recv {
			if d.D.ID != recv[0].D.ID || !bytes.Equal(d.D.Signing, recv[0].D.Signing) || int(d.D.Iter-base) != starts[r] {
				rt.Fatalf("distribution message %d is %+v", r, d.D)
			}
			var order []int
			for i := range ms {
				order = append(order, i)
			}
			order = rapid.Permutation(order).Draw(rt, "order")
			c.Log("receiver from %d: %v", starts[r], order)
			for k, i := range order {
				pt, err := d.Decrypt(ms[i].b)
				if i < starts[r] {
					if err == nil {
						rt.Fatalf("the reference accepts an early message")
					}
					continue
				}
				if err != nil || !bytes.Equal(pt, ms[i].pt) {
					rt.Fatalf("message %d does not decrypt independently from the distribution at %d: %v", i, starts[r], err)
				}
				if k > 0 && order[k-1] > i && len(ms) >= 3 {
					c.Nontrivial()
				}
			}
		}
	})
}

func TestC35_LibraryReceives(t *testing.T) {
	kit.Run(t, 1600, "an independent sender distributes its key (several keys, at any iteration) and sends raw messages, which the library gets in a random order with repeats; messages with a wrong key id, iteration or signature are mixed in; non-trivial: at least 3 messages out of order and a wrong one", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		src := kit.PeerSource(rt)
		lib := kit.NewParty(kit.Addr{Name: "lib", Dev: 1}, kit.Serializer(false), rapid.Bool().Draw(rt, "serialising"))
		n := kit.SKName{Group: "g", Sender: kit.Addr{Name: "peer", Dev: 3}}
		type sender struct {
			k     *ref.GroupAt
			start uint32
			used  map[uint32]bool
		}
		var ss []*sender
		for i := rapid.IntRange(1, 3).Draw(rt, "keys"); i > 0; i-- {
			id := rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 0x7fffffff, 0xffffffff})).Draw(rt, "id")
			for _, s := range ss {
				if s.k.ID == id {
					id += 77
				}
			}
			s := &sender{k: ref.NewGroupAt(src, id), start: rapid.SampledFrom([]uint32{0, 0, 1, 5, 127, 128, 300}).Draw(rt, "start"), used: map[uint32]bool{}}
			s.k.Base = rapid.SampledFrom(agedFrom).Draw(rt, "base")
			s.start += s.k.Base
			if err := lib.GroupProcess(n, s.k.Dist(s.start)); err != nil {
				rt.Fatalf("cannot process a distribution message: %v", err)
			}
			ss = append(ss, s)
		}
		top := uint32(0)
		ooo, wrong := 0, 0
		for k := rapid.IntRange(2, 16).Draw(rt, "messages"); k > 0; k-- {
			s := ss[rapid.IntRange(0, len(ss)-1).Draw(rt, "key")]
			i := s.k.Base + rapid.Uint32Range(0, s.start-s.k.Base+12).Draw(rt, "iteration")
			if rapid.IntRange(0, 4).Draw(rt, "later") > 0 {
				i = s.start + i%12
			}
			pt := kit.Plain().Draw(rt, "pt")
			b := s.k.Msg(i, pt)
			ok := i >= s.start && !s.used[i]
			switch rapid.IntRange(0, 7).Draw(rt, "spoil") {
			case 0:
				// Signed with another key of the peer.
				_, key := ref.GroupKeys(s.k.Chain(i))
				iv, _ := ref.GroupKeys(s.k.Chain(i))
				body := ref.GroupBody(s.k.ID, i, ref.EncCbc(key, iv, pt))
				priv := ref.NewPair(src).Priv
				if x := ss[rapid.IntRange(0, len(ss)-1).Draw(rt, "other key")]; x != s {
					priv = x.k.Key.Priv
				}
				b = append(body, ref.Sign(priv, body, kit.BytesN(64).Draw(rt, "nonce"))...)
				ok = false
				wrong++
			case 1:
				// The keys of the next iteration.
				iv, key := ref.GroupKeys(s.k.Chain(i + 1))
				body := ref.GroupBody(s.k.ID, i, ref.EncCbc(key, iv, append([]byte("0123456789abcdef"), pt...)))
				b = append(body, ref.Sign(s.k.Key.Priv, body, kit.BytesN(64).Draw(rt, "nonce"))...)
				if got, err := lib.GroupDecrypt(n, b); err == nil {
					// A wrong key gives valid padding now and then.
					if bytes.HasSuffix(got, pt) && len(pt) > 0 && ok {
						rt.Fatalf("message %d decrypts with the key of %d", i, i+1)
					}
					if !ok {
						rt.Fatalf("message %d was accepted though it is past", i)
					}
					s.used[i] = true
				}
				wrong++
				c.Log("wrong key")
				continue
			}
			if rapid.IntRange(0, 7).Draw(rt, "reload") == 0 {
				lib.Store.Reload()
				lib.Restart()
			}
			got, err := lib.GroupDecrypt(n, b)
			c.Log("key %d, %d: %v", s.k.ID, i, ok)
			if ok != (err == nil) || ok && !bytes.Equal(got, pt) {
				rt.Fatalf("message %d of key %d (from %d): accepted=%v, expected %v (%v)", i, s.k.ID, s.start, err == nil, ok, err)
			}
			if ok {
				s.used[i] = true
				if i < top {
					ooo++
				}
				top = max(top, i)
			}
		}
		if ooo >= 3 && wrong > 0 {
			c.Nontrivial()
		}
	})
}
