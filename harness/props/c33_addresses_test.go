package props

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"github.com/prospik/libsignal-protocol-go/protocol"
	"pgregory.net/rapid"
	"verif/kit"
)

// addresses generates distinct addresses that are easily confused.
func addresses(n int) *rapid.Generator[[]kit.Addr] {
	one := rapid.Custom(func(t *rapid.T) kit.Addr {
		return kit.Addr{
			Name: rapid.SampledFrom([]string{"", "a", "a:1", "a:11", "b", "A", "a ", "é", "a\x00", "a:", ":1"}).Draw(t, "name"),
			Dev:  rapid.SampledFrom([]uint32{0, 1, 2, 11, 111, 0x80000001, 0xffffffff, 257}).Draw(t, "device"),
		}
	})
	return rapid.SliceOfNDistinct(one, n, n, func(a kit.Addr) kit.Addr { return a })
}

func TestC33_Addresses(t *testing.T) {
	kit.Run(t, 3000, "one party in 2 to 4 conversations at once, with names and devices that are easily confused, each conversation following its own model; after every step of one, the stored sessions and identities of all other addresses are compared, and messages are also presented under other addresses, where they must be rejected; non-trivial: at least 3 deliveries in two conversations each and a misdirected message", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		o := kit.DrawOpts(rt)
		o.Pin = true
		n := rapid.IntRange(2, 4).Draw(rt, "peers")
		as := addresses(n+1).Draw(rt, "addresses")
		var hub *kit.Party
		var cvs []*kit.Conv
		for i := 0; i < n; i++ {
			o.Ser[1] = rapid.Bool().Draw(rt, "serialising")
			o.Names = [2]kit.Addr{as[n], as[i]}
			cv := kit.NewConv(rt, c, o)
			if hub == nil {
				hub = cv.P[0]
			}
			cv.P[0] = hub
			cv.Atomic = true
			cvs = append(cvs, cv)
			c.Log("peer %q/%d", as[i].Name, as[i].Dev)
		}
		// What belongs to an address in the hub's store.
		part := func(i int, rest bool) map[string][]byte {
			s := hub.Store.Snapshot()
			own := fmt.Sprintf(" %s/%d", as[i].Name, as[i].Dev)
			for k := range s {
				isOwn := k == "session"+own || k == "identity"+own
				if isOwn == rest || strings.Contains(k, "prekey") {
					delete(s, k)
				}
			}
			return s
		}
		for i, cv := range cvs {
			if i < 2 || rapid.Bool().Draw(rt, "start") {
				cv.Init(rapid.IntRange(0, 1).Draw(rt, "initiator"), kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
			}
		}
		ops := kit.BasicOps()
		ops["x1"], ops["init"], ops["reinit"], ops["close"], ops["forget"], ops["x2"], ops["age"] = 3, 2, 1, 1, 1, 1, 1
		mis := 0
		for _, op := range kit.GenOps(ops, 8, 60).Draw(rt, "ops") {
			i := rapid.IntRange(0, n-1).Draw(rt, "conversation")
			cv := cvs[i]
			c.Log("conversation %d", i)
			switch op.Kind {
			case "x1":
				// Present a message of one conversation as one of another.
				j := (i + 1 + op.N%(n-1)) % n
				if len(cv.Msgs) == 0 {
					continue
				}
				m := cv.Msgs[op.N%len(cv.Msgs)]
				to, from := hub, cvs[j].P[1].Addr
				if m.From == 0 {
					// Of the hub, to another peer.
					to, from = cvs[j].P[1], hub.Addr
				}
				if m.W.Pre {
					// An unknown sender would be trusted on first use.
					if _, known := to.Store.Identity(from); !known || m.From == 0 && m.Bundle.SPKID != 1 {
						continue
					}
				}
				before := to.Store.Snapshot()
				pt, err := to.Decrypt(from, m.W)
				c.Log("#%d misdirected to %d", m.N, j)
				if err == nil {
					rt.Fatalf("message #%d of conversation %d decrypts in conversation %d to %x", m.N, i, j, pt)
				}
				if d := kit.Diff(before, to.Store.Snapshot()); d != "" {
					rt.Fatalf("rejecting a misdirected message (%v) changed the store: %s", err, d)
				}
				mis++
			case "x2":
				// A restart loses all objects of the hub.
				hub.Restart()
				hub.Store.Reload()
			case "init", "reinit":
				if cv.Inits > 20 {
					continue
				}
				fallthrough
			default:
				before := part(i, true)
				cv.Step(op)
				if d := kit.Diff(before, part(i, true)); d != "" {
					rt.Fatalf("%v in the conversation with %q/%d changed what belongs to another address: %s", op, as[i].Name, as[i].Dev, d)
				}
			}
		}
		busy := 0
		for i, cv := range cvs {
			before := part(i, true)
			cv.Drain(rt)
			cv.PingPong()
			if d := kit.Diff(before, part(i, true)); d != "" {
				rt.Fatalf("the conversation with %q/%d changed what belongs to another address: %s", as[i].Name, as[i].Dev, d)
			}
			got := 0
			for _, m := range cv.Msgs {
				if m.Delivered > 0 {
					got++
				}
			}
			if got >= 7 {
				busy++
			}
		}
		if busy >= 2 && mis > 0 {
			c.Nontrivial()
		}
	})
}

func TestC33_Names(t *testing.T) {
	kit.Run(t, 20000, "a generated name, device and group; the address and the sender key name must report them, and the text of an address must determine it; non-trivial: a name with a separator, a non-ASCII or control character, or empty, or a device above 31 bits", func(rt *rapid.T, c *kit.Case) {
		str := rapid.OneOf(rapid.String(), rapid.StringMatching(`[a:0-9]{0,6}`), rapid.Custom(func(t *rapid.T) string { return string(rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "bytes")) }))
		name, group := str.Draw(rt, "name"), str.Draw(rt, "group")
		dev := anyID().Draw(rt, "device")
		c.Log("%q %d %q", name, dev, group)
		a := protocol.NewSignalAddress(name, dev)
		if a.Name() != name || a.DeviceID() != dev {
			rt.Fatalf("the address of %q, %d is %q, %d", name, dev, a.Name(), a.DeviceID())
		}
		s := a.String()
		i := strings.LastIndex(s, ":")
		if i < 0 || s[:i] != name || s[i+1:] != strconv.FormatUint(uint64(dev), 10) {
			rt.Fatalf("the text of the address %q, %d is %q", name, dev, s)
		}
		n := protocol.NewSenderKeyName(group, a)
		if n.GroupID() != group || n.Sender().Name() != name || n.Sender().DeviceID() != dev {
			rt.Fatalf("the sender key name of %q and %q, %d is %q and %q, %d", group, name, dev, n.GroupID(), n.Sender().Name(), n.Sender().DeviceID())
		}
		if strings.ContainsAny(name, ":\x00") || name == "" || dev > 0x7fffffff || len(name) != len([]rune(name)) {
			c.Nontrivial()
		}
	})
}
