package props

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

// crashing runs an operation that crashes at the n-th store access, before or
// after it takes effect, and restarts the party.
func crashing(p *kit.Party, n int, after bool, f func() error) (crash *kit.Crash, err error) {
	p.Store.Calls, p.Store.CrashAt, p.Store.CrashAfter = nil, n, after
	defer func() {
		p.Store.CrashAt = 0
		if r := recover(); r != nil {
			c, ok := r.(*kit.Crash)
			if !ok {
				panic(r)
			}
			crash = c
			p.Restart()
		}
	}()
	return nil, f()
}

// everyCrash runs check for every store access of an operation, before and
// after it, each time from the saved state, and returns to the saved state.
func everyCrash(p *kit.Party, back func(), op func() error, check func(crash *kit.Crash, at string)) int {
	n := 0
	for k := 1; ; k++ {
		for _, after := range []bool{false, true} {
			back()
			crash, _ := crashing(p, k, after, op)
			if crash == nil {
				back()
				return n
			}
			n++
			w := "before"
			if after {
				w = "after"
			}
			check(crash, fmt.Sprintf("a crash %s access %d (%s)", w, crash.Call, crash.Name))
		}
		if k > 60 {
			panic("too many store accesses")
		}
	}
}

func TestC32_Sessions(t *testing.T) {
	kit.Run(t, 1200, "a conversation in which sending, decrypting and session building crash at every single store access, before and after it takes effect, each followed by a restart, a repetition, delivery of all that is outstanding and messages in both directions; one of the crashes is then made part of the history; non-trivial: at least 2 operations crashed at all points, one of them an establishing decryption or a session building", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.ConvOpts{JSON: rapid.IntRange(0, 3).Draw(rt, "json") == 0, Ser: [2]bool{true, true}, Pin: rapid.Bool().Draw(rt, "pin")})
		type id struct {
			chain string
			ctr   uint32
		}
		unused := func(m *kit.Msg) {
			for _, o := range cv.Msgs {
				if o != m && (id{o.Chain, o.Ctr}) == (id{m.Chain, m.Ctr}) {
					rt.Fatalf("after a crash message #%d uses the key of message #%d", m.N, o.N)
				}
			}
		}
		sendAndDeliver := func(who int, at string) {
			if !cv.CanSend(who) {
				return
			}
			m := cv.Send(who, []byte("after "+at))
			unused(m)
			if cv.Predict(m) == kit.Accept {
				cv.Deliver(m)
			}
		}
		// rest delivers what is outstanding and talks on.
		rest := func(at string, newest bool) {
			for n := 0; n < 6; n++ {
				l := cv.Pending()
				if len(l) == 0 {
					break
				}
				if newest {
					cv.Deliver(l[len(l)-1])
				} else {
					cv.Deliver(l[0])
				}
			}
			for i := 0; i < 3; i++ {
				sendAndDeliver(i%2, at)
			}
		}
		// The ways an operation can crash; recover brings the model in line
		// with what was stored.
		type way struct {
			p       *kit.Party
			op      func() error
			recover func(at string)
			kind    string
		}
		deliverWay := func(m *kit.Msg) *way {
			r := m.To()
			p, from := cv.P[r], cv.P[m.From].Addr
			n := m.N
			before := p.Store.SessionBytes(from)
			var pre *uint32
			if m.W.Pre && m.Bundle.PreID != nil && !m.Bundle.PreID.IsEmpty && p.Store.HasPreKey(m.Bundle.PreID.Value) {
				pre = &m.Bundle.PreID.Value
			}
			kind := "decrypt"
			if m.W.Pre {
				kind = "establish"
			}
			return &way{p: p, kind: kind, op: func() error { _, err := p.Decrypt(from, m.W); return err }, recover: func(at string) {
				m := cv.Msgs[n]
				stored := !bytes.Equal(before, p.Store.SessionBytes(from))
				if pre != nil && !stored && !p.Store.HasPreKey(*pre) {
					rt.Fatalf("%s lost the one-time prekey %d and stored no session", at, *pre)
				}
				pt, err := p.Decrypt(from, m.W)
				if err == nil && !bytes.Equal(pt, m.PT) {
					rt.Fatalf("after %s message #%d decrypts to %x, sent was %x", at, n, pt, m.PT)
				}
				if err != nil && !stored {
					rt.Fatalf("after %s message #%d does not decrypt although its session was not stored: %v", at, n, err)
				}
				cv.Accepted(m)
				m.Delivered++
			}}
		}
		sendWay := func(who int) *way {
			p, to := cv.P[who], cv.P[1-who].Addr
			before := p.Store.SessionBytes(to)
			return &way{p: p, kind: "send", op: func() error { _, err := p.Encrypt(to, []byte("lost")); return err }, recover: func(at string) {
				if !bytes.Equal(before, p.Store.SessionBytes(to)) {
					cv.Lost(who)
				}
				sendAndDeliver(who, at)
			}}
		}
		initWay := func(who int, b *kit.BundleParts) *way {
			p, to := cv.P[who], cv.P[1-who].Addr
			before := p.Current(to)
			return &way{p: p, kind: "init", op: func() error { return p.Builder(to).ProcessBundle(b.Bundle()) }, recover: func(at string) {
				if now := p.Current(to); now != before {
					cv.Initiated(who, b, now)
				} else {
					cv.InitWith(who, b)
				}
				sendAndDeliver(who, at)
			}}
		}
		crashed, est := 0, 0
		crash := func(w *way) {
			back := cv.Save()
			points := everyCrash(w.p, back, w.op, func(x *kit.Crash, at string) {
				w.recover(at)
				rest(at, x.Call%2 == 0)
			})
			c.Log("%s crashes at %d points", w.kind, points)
			c.Label(w.kind)
			crashed++
			if w.kind == "establish" || w.kind == "init" {
				est++
			}
			// Go on after one of them.
			k, after := rapid.IntRange(1, points/2).Draw(rt, "crash at"), rapid.Bool().Draw(rt, "after")
			if x, _ := crashing(w.p, k, after, w.op); x == nil {
				rt.Fatalf("the operation made fewer store accesses when repeated")
			}
			w.recover("a crash")
		}
		crash(initWay(0, cv.P[1].NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))))
		ops := kit.BasicOps()
		ops["x1"], ops["x2"], ops["x3"], ops["reload"], ops["close"], ops["reinit"], ops["age"] = 2, 1, 1, 0, 1, 1, 1
		for _, o := range kit.GenOps(ops, 3, 25).Draw(rt, "ops") {
			switch {
			case o.Kind == "x1" && crashed < 5:
				var l []*kit.Msg
				for _, m := range cv.Pending() {
					if m.To() == o.Who {
						l = append(l, m)
					}
				}
				if len(l) > 0 {
					crash(deliverWay(l[o.N%len(l)]))
				}
			case o.Kind == "x2" && crashed < 5:
				if cv.CanSend(o.Who) {
					crash(sendWay(o.Who))
				}
			case o.Kind == "x3" && crashed < 5:
				crash(initWay(o.Who, cv.P[1-o.Who].NewBundle(kit.PreKind(o.N%3))))
			default:
				cv.Step(o)
			}
		}
		cv.Drain(rt)
		cv.PingPong()
		if crashed >= 2 && est >= 1 {
			c.Nontrivial()
		}
	})
}

func TestC32_Groups(t *testing.T) {
	kit.Run(t, 1500, "groups in which making, processing, encrypting and decrypting crash at every single store access, before and after, each followed by a restart, a repetition and further messages; non-trivial: at least 3 operations crashed at all points, one a decryption", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewStoredGroup(rt, c, 2, 4)
		g.Setup(rt)
		unused := func(m *kit.GMsg) {
			for _, o := range g.Msgs {
				if o != m && o.E == m.E && o.Iter == m.Iter {
					rt.Fatalf("after a crash group message #%d uses the key of #%d", m.N, o.N)
				}
			}
		}
		talk := func(who int, n kit.SKName, at string) {
			m := g.Send(who, n, []byte("after "+at))
			if m == nil {
				return
			}
			unused(m)
			for i := range g.P {
				if i != who && g.Predict(i, m) {
					g.Deliver(i, m)
				}
			}
		}
		crashed, dec := 0, 0
		all := func(kind string, p *kit.Party, op func() error, recover func(at string)) {
			back := g.Save()
			points := everyCrash(p, back, op, func(x *kit.Crash, at string) { recover(at) })
			c.Log("%s crashes at %d points", kind, points)
			c.Label(kind)
			crashed++
			if kind == "decrypt" {
				dec++
			}
			if points == 0 {
				return
			}
			if x, _ := crashing(p, rapid.IntRange(1, points/2).Draw(rt, "crash at"), rapid.Bool().Draw(rt, "after"), op); x == nil {
				rt.Fatalf("the operation made fewer store accesses when repeated")
			}
			recover("a crash")
		}
		ops := kit.GroupOps()
		ops["x1"], ops["x2"], ops["x3"], ops["reload"], ops["age"] = 4, 2, 3, 0, 1
		for _, o := range kit.GenGroupOps(ops, 4, 35).Draw(rt, "ops") {
			who := o.Who % len(g.P)
			p := g.P[who]
			own := g.Name(who, o.Group)
			switch {
			case crashed >= 8:
				g.Step(o)
			case o.Kind == "x1":
				var l []*kit.GMsg
				for _, m := range g.Msgs {
					if m.Got[who] == 0 && g.Predict(who, m) {
						l = append(l, m)
					}
				}
				if len(l) == 0 {
					continue
				}
				m := l[o.N%len(l)]
				i, name := m.N, m.E.Name
				before := p.Store.SenderKeyBytes(name)
				all("decrypt", p, func() error { _, err := p.GroupDecrypt(name, m.W); return err }, func(at string) {
					m := g.Msgs[i]
					stored := !bytes.Equal(before, p.Store.SenderKeyBytes(name))
					pt, err := p.GroupDecrypt(name, m.W)
					if err == nil && !bytes.Equal(pt, m.PT) {
						rt.Fatalf("after %s group message #%d decrypts to %x, sent was %x", at, i, pt, m.PT)
					}
					if err != nil && !stored {
						rt.Fatalf("after %s group message #%d does not decrypt although the key was not stored: %v", at, i, err)
					}
					g.Accepted(who, m)
					for _, x := range l {
						if x := g.Msgs[x.N]; x.Got[who] == 0 && g.Predict(who, x) {
							g.Deliver(who, x)
						}
					}
				})
			case o.Kind == "x2":
				if g.Own(who, own) == nil {
					continue
				}
				before := p.Store.SenderKeyBytes(own)
				all("send", p, func() error { _, err := p.GroupEncrypt(own, []byte("lost")); return err }, func(at string) {
					if !bytes.Equal(before, p.Store.SenderKeyBytes(own)) {
						g.Lost(who, own)
					}
					talk(who, own, at)
				})
			case o.Kind == "x3" && o.N%2 == 0:
				if g.Own(who, own) == nil && p.Store.SenderKeyBytes(own) != nil {
					continue
				}
				if o.N%4 == 0 {
					g.Rotate(who, own)
				}
				all("create", p, func() error { _, err := p.GroupCreate(own); return err }, func(at string) {
					d := g.Create(who, own)
					for i := range g.P {
						if i != who {
							g.Process(i, d)
						}
					}
					talk(who, own, at)
				})
			case o.Kind == "x3":
				var l []*kit.GDist
				for _, d := range g.Dists {
					if d.E.Owner != who {
						l = append(l, d)
					}
				}
				if len(l) == 0 {
					continue
				}
				d := l[o.N%len(l)]
				all("process", p, func() error { return p.GroupProcess(d.E.Name, d.Bytes) }, func(at string) {
					g.Process(who, d)
					if g.Own(d.E.Owner, d.E.Name) == d.E {
						talk(d.E.Owner, d.E.Name, at)
					}
				})
			default:
				g.Step(o)
			}
		}
		g.Drain(rt)
		if crashed >= 3 && dec >= 1 {
			c.Nontrivial()
		}
	})
}
