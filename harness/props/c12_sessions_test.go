package props

import (
	"encoding/hex"
	"sort"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

// storedSessions lists the base keys of the stored sessions, current first.
func storedSessions(rt *rapid.T, p *kit.Party, a kit.Addr) (cur string, all []string) {
	st := p.Session(a)
	if st == nil {
		return "", nil
	}
	if st.SessionState != nil && len(st.SessionState.SenderBaseKey) > 0 {
		cur = hex.EncodeToString(st.SessionState.SenderBaseKey)
		all = append(all, cur)
	}
	for _, s := range st.PreviousStates {
		if len(s.SenderBaseKey) > 0 {
			all = append(all, hex.EncodeToString(s.SenderBaseKey))
		}
	}
	return cur, all
}

func checkSessions(rt *rapid.T, cv *kit.Conv, after string) {
	for i := range cv.P {
		cur, all := storedSessions(rt, cv.P[i], cv.P[1-i].Addr)
		wantCur, want := cv.Sessions(i)
		if cur != wantCur {
			rt.Fatalf("after %s party %d sends in session %.12s, expected %.12s (the last initiated or decrypted)", after, i, cur, wantCur)
		}
		sort.Strings(all)
		sort.Strings(want)
		for k := 1; k < len(all); k++ {
			if all[k] == all[k-1] {
				rt.Fatalf("after %s party %d has the session %.12s twice", after, i, all[k])
			}
		}
		ok := len(all) == len(want)
		for k := 0; ok && k < len(all); k++ {
			ok = all[k] == want[k]
		}
		if !ok {
			rt.Fatalf("after %s party %d keeps %d sessions %.9q, expected %d %.9q", after, i, len(all), all, len(want), want)
		}
	}
}

func converge(rt *rapid.T, cv *kit.Conv) {
	if !cv.CanSend(0) && !cv.CanSend(1) {
		return
	}
	first := rapid.IntRange(0, 1).Draw(rt, "first")
	if !cv.CanSend(first) {
		first = 1 - first
	}
	for k := 0; k < 2; k++ {
		for _, i := range []int{first, 1 - first} {
			m := cv.Send(i, []byte("converge"))
			if v := cv.Predict(m); v == kit.Reject {
				rt.Fatalf("a message sent in the current session must be rejected")
			}
			cv.Deliver(m)
		}
	}
	if a, b := cv.P[0].Current(cv.P[1].Addr), cv.P[1].Current(cv.P[0].Addr); a != b || a == "" {
		rt.Fatalf("after messages in both directions the parties use the sessions %.12s and %.12s", a, b)
	}
}

func TestC12_Sessions(t *testing.T) {
	kit.Run(t, 4000, "conversations in which both parties keep re-establishing sessions while messages of all sessions are delivered late and out of order; after every step the set of stored sessions and the current one are compared with the model, and at the end both must use the same session; non-trivial: at least 4 sessions and at least 2 switches to an earlier session", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		ops := kit.BasicOps()
		ops["init"], ops["reinit"], ops["burst"], ops["close"], ops["age"] = 1, 4, 0, 1, 1
		for _, o := range kit.GenOps(ops, 3, 60).Draw(rt, "ops") {
			if o.Kind == "reinit" && cv.Inits >= 30 {
				continue
			}
			cv.Step(o)
			checkSessions(rt, cv, o.String())
		}
		if cv.Inits >= 4 && cv.Switches >= 2 {
			c.Nontrivial()
		}
		cv.Drain(rt)
		checkSessions(rt, cv, "draining")
		converge(rt, cv)
		checkSessions(rt, cv, "converging")
	})
}

func TestC12_Archive(t *testing.T) {
	kit.Run(t, 160, "more sessions than the archive holds: 38 to 90 initiations by both parties with generated deliveries in between and late deliveries of messages of every age, with the stored sessions compared with the model after every step; non-trivial: more than 41 sessions at one party", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		n := rapid.IntRange(38, 90).Draw(rt, "sessions")
		bias := rapid.IntRange(0, 10).Draw(rt, "bias")
		deliver := rapid.IntRange(0, 3).Draw(rt, "deliver")
		for i := 0; i < n; i++ {
			who := 0
			if rapid.IntRange(1, 10).Draw(rt, "who") <= bias {
				who = 1
			}
			cv.Init(who, kit.PreKind(rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "prekey")))
			for k := rapid.IntRange(1, 2).Draw(rt, "n"); k > 0; k-- {
				cv.Send(who, []byte{byte(i)})
			}
			for k := rapid.IntRange(0, deliver).Draw(rt, "deliveries"); k > 0; k-- {
				m := cv.Msgs[len(cv.Msgs)-1-rapid.IntRange(0, min(len(cv.Msgs)-1, 120)).Draw(rt, "back")]
				cv.Deliver(m)
			}
			if i%5 == 4 || i > 38 {
				checkSessions(rt, cv, "an initiation")
			}
		}
		for i := range cv.P {
			if _, all := storedSessions(rt, cv.P[i], cv.P[1-i].Addr); len(all) > 41 {
				rt.Fatalf("party %d keeps %d sessions", i, len(all))
			} else if len(all) == 41 {
				c.Nontrivial()
			}
		}
		for k := rapid.IntRange(5, 40).Draw(rt, "late"); k > 0; k-- {
			m := cv.Msgs[rapid.IntRange(0, len(cv.Msgs)-1).Draw(rt, "msg")]
			cv.Deliver(m)
			checkSessions(rt, cv, "a late delivery")
		}
		// An unanswered session can have been evicted at the other party, so
		// establish one more before expecting both to agree.
		cv.Init(rapid.IntRange(0, 1).Draw(rt, "last"), kit.OneTime)
		for i := range cv.P {
			if m := cv.Send(i, []byte("after")); m != nil {
				cv.Deliver(m)
			}
		}
		if v := newestAccepted(cv); v {
			converge(rt, cv)
		}
	})
}

// newestAccepted says whether each party knows the other's current session.
func newestAccepted(cv *kit.Conv) bool {
	for i := range cv.P {
		cur, _ := cv.Sessions(i)
		_, all := cv.Sessions(1 - i)
		ok := false
		for _, s := range all {
			ok = ok || s == cur
		}
		if !ok || cur == "" {
			return false
		}
	}
	return true
}
