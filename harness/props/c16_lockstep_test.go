package props

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"testing"

	"pgregory.net/rapid"
	"verif/kit"
)

// A setting is how a world of parties stores and encodes.
type setting struct {
	name               string
	json, ser, restart bool
	mixed, apart, hand bool
}

var settings = []setting{
	{name: "live records, protocol buffers"},
	{name: "serialised records, protocol buffers", ser: true},
	{name: "serialised records and new objects for each operation, protocol buffers", ser: true, restart: true},
	{name: "live records, JSON", json: true, apart: true},
	{name: "serialised records, JSON", json: true, ser: true},
	{name: "live records and new objects for each operation, JSON", json: true, restart: true},
	{name: "records serialised as JSON, messages as protocol buffers, separate stores", ser: true, mixed: true, apart: true},
	{name: "decrypting by hand, records serialised as protocol buffers, messages as JSON", json: true, ser: true, mixed: true, hand: true},
}

// event is the observable outcome of one step.
type event struct {
	what  string
	err   string
	store map[string][]byte
}

// world runs steps without a model and records what happens.
type world struct {
	set     setting
	parties []*kit.Party
	wires   []sent
	dists   []sent
	bundles []*kit.BundleParts
	of      []int
	names   []kit.SKName
	events  []event
	oks     int
	errs    int
}

type sent struct {
	from, to int
	w        kit.Wire
	n        kit.SKName
}

type lockOp struct {
	kind    string
	a, b, n int
	pt      []byte
	pre     kit.PreKind
}

func newWorld(s setting, seed uint64, pin bool) *world {
	kit.SetRand(kit.NewSource(seed))
	w := &world{set: s}
	for _, a := range []kit.Addr{{Name: "a", Dev: 1}, {Name: "b", Dev: 1}, {Name: "b", Dev: 2}} {
		ser := kit.Serializer(s.json)
		if s.mixed {
			ser = kit.Mixed(s.json)
		}
		p := kit.NewParty(a, ser, s.ser)
		p.Apart, p.ByHand = s.apart, s.hand
		p.Store.Pin = pin
		w.parties = append(w.parties, p)
	}
	for _, g := range []string{"g", "h"} {
		for _, p := range w.parties {
			w.names = append(w.names, kit.SKName{Group: g, Sender: p.Addr})
		}
	}
	return w
}

func (w *world) note(p *kit.Party, what string, err error) {
	e := event{what: what, store: p.Store.Snapshot()}
	if err != nil {
		e.err = err.Error()
		if e.err == "" {
			e.err = "error"
		}
		w.errs++
	} else {
		w.oks++
	}
	w.events = append(w.events, e)
}

// wireID describes a message independently of its encoding.
func wireID(p *kit.Party, x kit.Wire) string {
	out := fmt.Sprint(x.Pre)
	b := x.Bytes
	if x.Pre {
		s := p.PreOf(b)
		out += fmt.Sprintf(" %d %v %d %x %x", s.RegistrationID, *s.PreKeyID, s.SignedPreKeyID, s.BaseKey, s.IdentityKey)
		b = s.Message
	}
	m, err := p.ParseSig(b)
	if err != nil {
		return out + " " + err.Error()
	}
	s := m.Structure()
	return out + fmt.Sprintf(" %d %x %d %d %x", s.Version, s.RatchetKey, s.Counter, s.PreviousCounter, s.CipherText)
}

// forge applies a change to a message that is possible in both encodings.
func forge(p *kit.Party, x kit.Wire, kind, n int) kit.Wire {
	inner := kit.Clone(x.Bytes)
	out := kit.Wire{Pre: x.Pre}
	if x.Pre {
		inner = p.PreOf(x.Bytes).Message
	}
	s, err := p.Ser.SignalMessage.Deserialize(kit.Clone(inner))
	if err != nil {
		return x
	}
	switch kind % 6 {
	case 0:
		s.Mac = kit.Clone(s.Mac)
		s.Mac[n%len(s.Mac)] ^= 1
	case 1:
		s.Counter += uint32(n%7) * 1000
	case 2:
		s.CipherText = kit.Clone(s.CipherText)
		s.CipherText[n%len(s.CipherText)] ^= 1 << (n % 8)
	case 3:
		s.RatchetKey = kit.Clone(s.RatchetKey)
		s.RatchetKey[1+n%31] ^= 1 << (n % 8)
	}
	inner = p.Ser.SignalMessage.Serialize(s)
	if !x.Pre {
		out.Bytes = inner
		return out
	}
	pre := p.PreOf(x.Bytes)
	pre.Message = inner
	switch kind % 6 {
	case 4:
		pre.SignedPreKeyID += uint32(n)
	case 5:
		if n%2 == 0 {
			return kit.Wire{Pre: false, Bytes: inner}
		}
		pre.BaseKey = kit.Clone(pre.IdentityKey)
	}
	out.Bytes = p.Ser.PreKeySignalMessage.Serialize(pre)
	return out
}

func (w *world) step(o lockOp) {
	if w.set.restart {
		for _, p := range w.parties {
			p.Restart()
		}
	}
	a, b := o.a, o.b
	if b == a {
		b = (a + 1) % 3
	}
	p, q := w.parties[a], w.parties[b]
	var mine []sent
	for _, x := range w.wires {
		if x.to == a {
			mine = append(mine, x)
		}
	}
	if o.n >= 100 && len(mine) > 6 {
		mine = mine[len(mine)-6:]
	}
	switch o.kind {
	case "bundle":
		w.bundles, w.of = append(w.bundles, p.NewBundle(o.pre)), append(w.of, a)
		w.note(p, "bundle", nil)
	case "init":
		bu := q.NewBundle(o.pre)
		w.note(q, "bundle", nil)
		err := p.Builder(q.Addr).ProcessBundle(bu.Bundle())
		w.note(p, "process", err)
	case "oldbundle":
		if len(w.bundles) == 0 {
			return
		}
		i := o.n % len(w.bundles)
		if w.of[i] == a {
			return
		}
		bu := *w.bundles[i]
		if o.n%5 == 0 {
			bu.Sig[o.n%64] ^= 1
		}
		err := p.Builder(w.parties[w.of[i]].Addr).ProcessBundle(bu.Bundle())
		w.note(p, "process old", err)
	case "send":
		x, err := p.Encrypt(q.Addr, kit.Clone(o.pt))
		what := "send"
		if err == nil {
			w.wires = append(w.wires, sent{from: a, to: b, w: x})
			what += " " + wireID(p, x)
		}
		w.note(p, what, err)
	case "deliver", "forge", "misdirect":
		if len(mine) == 0 {
			return
		}
		m := mine[o.n%len(mine)]
		x, from := m.w, w.parties[m.from].Addr
		if o.kind == "forge" {
			x = forge(p, x, int(o.pre)+3*(o.n%2), o.n)
		}
		if o.kind == "misdirect" {
			from = q.Addr
		}
		if o.n%3 == 0 {
			pt, k, err := p.DecryptKey(from, x)
			what := fmt.Sprintf("decrypt %x", pt)
			if err == nil {
				what += fmt.Sprintf(" key %x %x %x %d", k.CipherKey(), k.MacKey(), k.Iv(), k.Index())
			}
			w.note(p, what, err)
			return
		}
		pt, err := p.Decrypt(from, x)
		w.note(p, fmt.Sprintf("decrypt %x", pt), err)
	case "age":
		w.note(p, fmt.Sprint("age ", kit.AgePair(p, q, o.n)), nil)
	case "close":
		if p.Store.ContainsSession(q.Addr.Signal()) {
			r := p.Store.LoadSession(q.Addr.Signal())
			r.ArchiveCurrentState()
			p.Store.StoreSession(q.Addr.Signal(), r)
			w.note(p, "close", nil)
		}
	case "delete":
		p.Store.DeleteSession(q.Addr.Signal())
		w.note(p, "delete", nil)
	case "info":
		if p.Store.ContainsSession(q.Addr.Signal()) {
			st := p.Store.LoadSession(q.Addr.Signal()).SessionState()
			w.note(p, fmt.Sprintf("registration id %d, version %d, chain %v", st.RemoteRegistrationID(), st.Version(), st.HasSenderChain()), nil)
		}
	}
}

// lockstep runs the same steps in all settings and compares.
func lockstep(rt *rapid.T, c *kit.Case, seed uint64, pin bool, run func(w *world)) (oks, errs int) {
	var first *world
	for _, s := range settings {
		w := newWorld(s, seed, pin)
		run(w)
		if first == nil {
			first = w
			continue
		}
		if len(w.events) != len(first.events) {
			rt.Fatalf("%d outcomes with %s, %d with %s", len(first.events), first.set.name, len(w.events), s.name)
		}
		for i, e := range w.events {
			f := first.events[i]
			if e.what != f.what {
				rt.Fatalf("step %d with %s:\n%s\nand with %s:\n%s", i, first.set.name, f.what, s.name, e.what)
			}
			if (e.err == "") != (f.err == "") || !s.json && e.err != f.err {
				rt.Fatalf("step %d (%s) has error %q with %s and %q with %s", i, e.what, f.err, first.set.name, e.err, s.name)
			}
			if d := kit.Diff(f.store, e.store); d != "" {
				rt.Fatalf("after step %d (%s, %q) the stores differ with %s and %s: %s", i, e.what, e.err, first.set.name, s.name, d)
			}
		}
	}
	for _, e := range first.events {
		var ks []string
		h := sha256.New()
		for k := range e.store {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			h.Write(e.store[k])
		}
		what := e.what
		if len(what) > 40 {
			what = what[:40]
		}
		c.Log("%s err=%v store=%x", what, e.err != "", h.Sum(nil)[:3])
	}
	return first.oks, first.errs
}

func genLockOps(kinds []string, max int) *rapid.Generator[[]lockOp] {
	one := rapid.Custom(func(t *rapid.T) lockOp {
		return lockOp{
			kind: rapid.SampledFrom(kinds).Draw(t, "op"),
			a:    rapid.SampledFrom([]int{0, 1, 0, 1, 2}).Draw(t, "a"),
			b:    rapid.SampledFrom([]int{0, 1, 0, 1, 2}).Draw(t, "b"),
			n:    rapid.IntRange(0, 200).Draw(t, "n"),
			pre:  kit.PreKind(rapid.IntRange(0, 2).Draw(t, "pre")),
			pt:   kit.Plain().Draw(t, "pt"),
		}
	})
	return rapid.Custom(func(t *rapid.T) []lockOp {
		lo := rapid.SampledFrom([]int{2, max / 4, max / 2}).Draw(t, "length")
		return rapid.SliceOfN(one, lo, max).Draw(t, "steps")
	})
}

func TestC16_Sessions(t *testing.T) {
	kinds := []string{"init", "send", "deliver", "send", "deliver", "send", "deliver", "send", "deliver", "deliver", "forge", "misdirect", "bundle", "oldbundle", "close", "delete", "info", "init", "age"}
	kit.Run(t, 700, "the same steps (sessions built, closed and deleted, messages sent, delivered in any order, repeated, altered and misdirected among three parties) with the same randomness in eight settings of live or serialised records, lasting or new objects, protocol buffers or JSON or one for messages and the other for records, and decrypting as a whole or in its parts; outcomes and all stored records are compared after each step; non-trivial: at least 10 successes and 2 errors", func(rt *rapid.T, c *kit.Case) {
		ops := genLockOps(kinds, 40).Draw(rt, "ops")
		seed := rapid.Uint64().Draw(rt, "seed")
		oks, errs := lockstep(rt, c, seed, rapid.Bool().Draw(rt, "pin"), func(w *world) {
			w.step(lockOp{kind: "init", a: 0, b: 1, pre: kit.OneTime})
			for _, o := range ops {
				w.step(o)
			}
		})
		if oks >= 10 && errs >= 2 {
			c.Nontrivial()
		}
	})
}

// gstep is a step of groups.
func (w *world) gstep(o lockOp) {
	if w.set.restart {
		for _, p := range w.parties {
			p.Restart()
		}
	}
	p := w.parties[o.a]
	own := w.names[o.a+3*(o.n%2)]
	any := w.names[(o.b+o.n)%len(w.names)]
	switch o.kind {
	case "create", "relay":
		n := own
		if o.kind == "relay" {
			n = any
		}
		b, err := p.GroupCreate(n)
		what := "create"
		if err == nil {
			w.dists = append(w.dists, sent{from: o.a, w: kit.Wire{Bytes: b}, n: n})
			if s, err := p.Ser.SenderKeyDistributionMessage.Deserialize(kit.Clone(b)); err == nil {
				what += fmt.Sprintf(" %d %d %x %x", s.ID, s.Iteration, s.ChainKey, s.SigningKey)
			}
		}
		w.note(p, what, err)
	case "process":
		if len(w.dists) == 0 {
			return
		}
		d := w.dists[o.n%len(w.dists)]
		n := d.n
		if o.n%17 == 0 {
			n = any
		}
		w.note(p, "process", p.GroupProcess(n, d.w.Bytes))
	case "age":
		w.note(p, fmt.Sprint("age ", kit.AgeGroup(p, own, w.parties, o.n)), nil)
	case "rotate":
		p.Store.DeleteSenderKey(own)
		w.note(p, "rotate", nil)
	case "send", "burst":
		n := own
		if o.n%19 == 0 {
			n = any
		}
		k := 1
		if o.kind == "burst" {
			k = o.n % 30
		}
		for ; k > 0; k-- {
			b, err := p.GroupEncrypt(n, kit.Clone(o.pt))
			what := "send"
			if err == nil {
				w.wires = append(w.wires, sent{from: o.a, w: kit.Wire{Bytes: b}, n: n})
				if s, err := p.Ser.SenderKeyMessage.Deserialize(kit.Clone(b)); err == nil {
					what += fmt.Sprintf(" %d %d %x", s.ID, s.Iteration, s.CipherText)
				}
			}
			w.note(p, what, err)
		}
	case "deliver", "forge", "misdirect":
		if len(w.wires) == 0 {
			return
		}
		l := w.wires
		if o.n >= 100 && len(l) > 6 {
			l = l[len(l)-6:]
		}
		m := l[o.n%len(l)]
		x, n := m.w.Bytes, m.n
		if o.kind == "misdirect" {
			n = any
		}
		if o.kind == "forge" {
			s, err := p.Ser.SenderKeyMessage.Deserialize(kit.Clone(x))
			if err != nil {
				return
			}
			switch o.pre {
			case 0:
				s.Signature = kit.Clone(s.Signature)
				s.Signature[o.n%len(s.Signature)] ^= 1
			case 1:
				s.Iteration += uint32(o.n % 3 * 1500)
			case 2:
				s.CipherText = kit.Clone(s.CipherText)
				s.CipherText[o.n%len(s.CipherText)] ^= 1
			}
			x = p.Ser.SenderKeyMessage.Serialize(s)
		}
		pt, err := p.GroupDecrypt(n, x)
		w.note(p, fmt.Sprintf("decrypt %x", pt), err)
	}
}

func TestC16_Groups(t *testing.T) {
	kinds := []string{"create", "process", "process", "send", "deliver", "send", "deliver", "deliver", "deliver", "forge", "misdirect", "rotate", "burst", "relay", "age"}
	kit.Run(t, 1200, "the same steps of groups (keys made, distributed, passed on, replaced; messages sent, delivered in any order, repeated, altered, misdirected) in the same eight settings, compared likewise; non-trivial: at least 10 successes and 2 errors", func(rt *rapid.T, c *kit.Case) {
		ops := genLockOps(kinds, 40).Draw(rt, "ops")
		seed := rapid.Uint64().Draw(rt, "seed")
		oks, errs := lockstep(rt, c, seed, false, func(w *world) {
			w.gstep(lockOp{kind: "create", a: 0})
			w.gstep(lockOp{kind: "process", a: 1, n: 1 << 10})
			for _, o := range ops {
				w.gstep(o)
			}
		})
		if oks >= 10 && errs >= 2 {
			c.Nontrivial()
		}
	})
}
