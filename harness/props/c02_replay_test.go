package props

import (
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

// replayForms lists forms of a message that all stand for the same message.
func replayForms(cv *kit.Conv, m *kit.Msg) (out []kit.Attack) {
	p := cv.P[m.To()]
	add := func(d string, w kit.Wire) {
		out = append(out, kit.Attack{Desc: d, To: p, Dir: m.To(), From: cv.P[m.From].Addr, W: w, Origin: m})
	}
	add("same bytes", kit.Wire{Pre: m.W.Pre, Bytes: kit.Clone(m.W.Bytes)})
	inner := kit.Clone(m.W.Bytes)
	if m.W.Pre {
		inner = kit.Clone(p.PreOf(m.W.Bytes).Message)
		add("stripped", kit.Wire{Pre: false, Bytes: inner})
		for _, v := range []int{2, 4, 1} {
			s := p.PreOf(m.W.Bytes)
			s.Version = v
			add("other outer version", kit.Wire{Pre: true, Bytes: p.Ser.PreKeySignalMessage.Serialize(s)})
		}
		s := p.PreOf(m.W.Bytes)
		s.RegistrationID++
		add("other registration id", kit.Wire{Pre: true, Bytes: p.Ser.PreKeySignalMessage.Serialize(s)})
	}
	// In an establishing message of any session of the same sender.
	n := 0
	for _, o := range cv.Msgs {
		if o.From == m.From && o.W.Pre && o.Sid != m.Sid && n < 3 {
			s := p.PreOf(o.W.Bytes)
			s.Message = kit.Clone(inner)
			add("within another establishing message", kit.Wire{Pre: true, Bytes: p.Ser.PreKeySignalMessage.Serialize(s)})
			n++
		}
	}
	for _, o := range cv.Msgs {
		if o.From == m.From && o.W.Pre && o.Sid == m.Sid {
			s := p.PreOf(o.W.Bytes)
			s.Message = kit.Clone(inner)
			add("within the establishing message of its session", kit.Wire{Pre: true, Bytes: p.Ser.PreKeySignalMessage.Serialize(s)})
			break
		}
	}
	return out
}

func TestC02_Replay(t *testing.T) {
	kit.Run(t, 5000, "a conversation with re-initiations in which delivered messages are repeated, verbatim, stripped of or wrapped in establishing messages, or with changed unauthenticated fields, at generated points and all of them at the end, with the store compared before and after each rejection; non-trivial: at least 3 repeats after further history and at least one of an establishing message", func(rt *rapid.T, c *kit.Case) {
		cv := start(rt, c)
		cv.Atomic = true
		ops := kit.BasicOps()
		ops["replay"], ops["x1"], ops["init"], ops["reinit"], ops["burst"], ops["close"], ops["age"] = 4, 5, 2, 1, 0, 1, 1
		late, pre := 0, 0
		again := func(m *kit.Msg, n int) {
			forms := replayForms(cv, m)
			f := forms[n%len(forms)]
			if !cv.Perform(&f, true) {
				rt.Fatalf("a repeat was accepted")
			}
			if m.N < len(cv.Msgs)-1 {
				late++
			}
			if m.W.Pre {
				pre++
			}
		}
		for _, o := range kit.GenOps(ops, 4, 50).Draw(rt, "ops") {
			if cv.Inits > 30 && (o.Kind == "init" || o.Kind == "reinit") {
				continue
			}
			if o.Kind == "x1" {
				var l []*kit.Msg
				for _, m := range cv.Msgs {
					if m.Delivered > 0 {
						l = append(l, m)
					}
				}
				if len(l) > 0 {
					again(l[o.N%len(l)], rapid.IntRange(0, 9).Draw(rt, "form"))
				}
				continue
			}
			cv.Step(o)
		}
		form := rapid.IntRange(0, 9).Draw(rt, "form")
		for _, m := range cv.Msgs {
			if m.Delivered > 0 {
				again(m, form+m.N)
			}
		}
		cv.Drain(rt)
		for _, m := range cv.Msgs {
			if m.Delivered > 0 {
				again(m, 0)
			}
		}
		if late >= 3 && pre >= 1 {
			c.Nontrivial()
		}
		cv.PingPong()
	})
}
