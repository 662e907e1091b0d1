package props

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/RadicalApp/complete"
	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/groups"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/serialize"
	"github.com/prospik/libsignal-protocol-go/session"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"pgregory.net/rapid"
	"verif/kit"
)

// pure computes something that depends on its input only.
func pure(kind int, key, iv, data []byte) []byte {
	switch kind {
	case 0:
		b, _ := kdf.DeriveSecrets(kit.Clone(key), kit.Clone(iv), kit.Clone(data), 80)
		return b
	case 1:
		b, _ := cipher.EncryptCbc(kit.Clone(iv), kit.Clone(key), kit.Clone(data))
		return b
	case 2:
		b, _ := cipher.Encrypt(kit.Clone(iv), kit.Clone(key), append([]byte{1}, data...))
		return b
	case 3:
		return ecc.CreateKeyPair(kit.Clone(key)).PublicKey().Serialize()
	case 4:
		p := ecc.CreateKeyPair(kit.Clone(key))
		s := kdf.CalculateSharedSecret(p.PublicKey().PublicKey(), p.PrivateKey().Serialize())
		return s[:]
	case 5:
		return []byte(fingerprint.NewDisplay(kit.Clone(key), append(kit.Clone(iv), key...)).DisplayText())
	default:
		p := ecc.CreateKeyPair(kit.Clone(key))
		sig := ecc.CalculateSignature(p.PrivateKey(), kit.Clone(data))
		out := []byte(fmt.Sprint(ecc.VerifySignature(p.PublicKey(), kit.Clone(data), sig)))
		sig[len(data)%64] ^= 4
		return append(out, fmt.Sprint(ecc.VerifySignature(p.PublicKey(), kit.Clone(data), sig))...)
	}
}

func TestC30_Concurrent(t *testing.T) {
	kit.Run(t, 400, "2 to 6 goroutines, built with the race detector, each with a generated job: a conversation or a group (each following its model), signing, derivations or ciphers (compared with the results when run alone), with serializers shared or not and the library's own logger or another; non-trivial: at least 3 jobs of at least 2 kinds, with a conversation or group", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		own := rapid.Bool().Draw(rt, "own logger")
		kit.SetLogger(own)
		defer kit.SetLogger(false)
		n := rapid.IntRange(2, 6).Draw(rt, "jobs")
		json := rapid.IntRange(0, 3).Draw(rt, "json") == 0
		var shared *serialize.Serializer
		if rapid.Bool().Draw(rt, "shared serializer") {
			shared = kit.Serializer(json)
		}
		var jobs []func(tb *kit.PartTB)
		kinds := map[string]bool{}
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom([]string{"conversation", "conversation", "group", "pure", "make"}).Draw(rt, "job")
			kinds[kind] = true
			c.Log("%s", kind)
			switch kind {
			case "conversation":
				ops := kit.BasicOps()
				ops["init"], ops["reinit"], ops["close"], ops["age"] = 1, 1, 1, 1
				list := kit.GenOps(ops, 4, 20).Draw(rt, "ops")
				o := kit.DrawOpts(rt)
				o.JSON = json
				pre := kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey"))
				c.Log("%v", list)
				jobs = append(jobs, func(tb *kit.PartTB) {
					cv := kit.NewConv(tb, kit.NewCase(), o)
					if shared != nil {
						for _, p := range cv.P {
							p.Share(shared)
						}
					}
					cv.Init(0, pre)
					for _, op := range list {
						cv.Step(op)
					}
					cv.Drain(nil)
					cv.PingPong()
				})
			case "group":
				g := kit.NewGroup(rt, kit.NewCase(), 2, 3)
				list := kit.GenGroupOps(kit.GroupOps(), 4, 20).Draw(rt, "ops")
				c.Log("%v", list)
				jobs = append(jobs, func(tb *kit.PartTB) {
					g.T = tb
					if shared != nil && g.JSON == json {
						for _, p := range g.P {
							p.Share(shared)
						}
					}
					d := g.Create(0, g.Name(0, 0))
					g.Process(1, d)
					for _, op := range list {
						g.Step(op)
					}
					g.Drain(nil)
				})
			case "pure":
				key, iv, data := kit.BytesN(32).Draw(rt, "key"), kit.BytesN(16).Draw(rt, "iv"), kit.Plain().Draw(rt, "data")
				from := rapid.IntRange(0, 6).Draw(rt, "first")
				c.Log("%x", key[:4])
				var want [7][]byte
				for k := range want {
					want[k] = pure(k, key, iv, data)
				}
				jobs = append(jobs, func(tb *kit.PartTB) {
					for k := 0; k < 14; k++ {
						w := (from + k) % 7
						if got := pure(w, key, iv, data); !bytes.Equal(got, want[w]) {
							tb.Fatalf("function %d gives %x concurrently, %x alone", w, got, want[w])
						}
					}
				})
			case "make":
				jobs = append(jobs, func(tb *kit.PartTB) {
					ser := shared
					if ser == nil {
						ser = kit.Serializer(json)
					}
					id, err := keyhelper.GenerateIdentityKeyPair()
					if err != nil {
						tb.Fatal(err)
					}
					ks, err := keyhelper.GeneratePreKeys(1, 5, ser.PreKeyRecord)
					if err != nil || len(ks) != 5 {
						tb.Fatalf("%d prekeys: %v", len(ks), err)
					}
					s, err := keyhelper.GenerateSignedPreKey(id, 3, ser.SignedPreKeyRecord)
					if err != nil {
						tb.Fatal(err)
					}
					if !ecc.VerifySignature(id.PublicKey().PublicKey(), s.KeyPair().PublicKey().Serialize(), s.Signature()) {
						tb.Fatalf("a signed prekey is not signed")
					}
					keyhelper.GenerateRegistrationID()
					keyhelper.GenerateSenderKeyID()
					if k := keyhelper.GenerateSenderKey(); len(k) != 32 {
						tb.Fatalf("a sender key of %d bytes", len(k))
					}
				})
			}
		}
		tbs := make([]*kit.PartTB, n)
		var wg sync.WaitGroup
		startAll := make(chan struct{})
		for i := range jobs {
			tbs[i] = &kit.PartTB{TB: rt}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-startAll
				tbs[i].Run(func() { jobs[i](tbs[i]) })
			}(i)
		}
		close(startAll)
		wg.Wait()
		for i, tb := range tbs {
			if tb.Failure != "" {
				rt.Fatalf("job %d, run concurrently with %d others: %s", i, n-1, tb.Failure)
			}
		}
		if n >= 3 && len(kinds) >= 2 && (kinds["conversation"] || kinds["group"]) {
			c.Nontrivial()
		}
	})
}

// TestC30_Shared shares what is only read.
func TestC30_Shared(t *testing.T) {
	kit.Run(t, 700, "2 to 6 goroutines, each with an own user, that work with the same addresses, names, bundle, distribution message, parsed group messages, keys, signed prekey, serializer and record; each must get out of them what they were made of, and the owner must be able to read each one's first message; non-trivial: at least 3 users, and a group message", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		js := rapid.IntRange(0, 3).Draw(rt, "json") == 0
		ser := kit.Serializer(js)
		owner := kit.NewParty(kit.Addr{Name: "owner", Dev: 1}, ser, true)
		bundle := owner.NewBundle(kit.PreKind(rapid.IntRange(1, 2).Draw(rt, "prekey"))).Bundle()
		oa := owner.Addr.Signal()
		name := kit.SKName{Group: rapid.String().Draw(rt, "group"), Sender: owner.Addr}
		n := name.Signal()
		made, err := owner.GroupCreate(name)
		if err != nil {
			rt.Fatal(err)
		}
		dist, err := protocol.NewSenderKeyDistributionMessageFromBytes(made, ser.SenderKeyDistributionMessage)
		if err != nil {
			rt.Fatal(err)
		}
		var msgs []*protocol.SenderKeyMessage
		var texts, wires [][]byte
		for i := rapid.IntRange(0, 4).Draw(rt, "group messages"); i > 0; i-- {
			pt := kit.Plain().Draw(rt, "text")
			b, err := owner.GroupEncrypt(name, pt)
			if err != nil {
				rt.Fatal(err)
			}
			m, err := protocol.NewSenderKeyMessageFromBytes(b, ser.SenderKeyMessage)
			if err != nil {
				rt.Fatal(err)
			}
			msgs, texts, wires = append(msgs, m), append(texts, pt), append(wires, b)
		}
		// A session of the owner's, as a record and as its bytes.
		friend := kit.NewParty(kit.Addr{Name: "friend", Dev: 1}, ser, false)
		if err := owner.Builder(friend.Addr).ProcessBundle(friend.NewBundle(kit.OneTime).Bundle()); err != nil {
			rt.Fatal(err)
		}
		held := owner.Store.LoadSession(friend.Addr.Signal())
		bytesOf := held.Serialize()
		gheld := owner.Store.LoadSenderKey(n)
		gbytes := gheld.Serialize()
		w, err := owner.Encrypt(friend.Addr, []byte("to a friend"))
		if err != nil {
			rt.Fatal(err)
		}
		pre, err := owner.ParsePre(w.Bytes)
		if err != nil {
			rt.Fatal(err)
		}
		spk := owner.Store.LoadSignedPreKey(bundle.SignedPreKeyID())
		spkBytes := spk.Serialize()
		fp := fingerprint.NewDisplay(owner.IDBytes()[1:], friend.IDBytes()[1:])
		shown := fingerprint.NewDisplay(owner.IDBytes()[1:], friend.IDBytes()[1:]).DisplayText()
		users := make([]*kit.Party, rapid.IntRange(2, 6).Draw(rt, "users"))
		order := make([][]int, len(users))
		firsts := make([]kit.Wire, len(users))
		for i := range users {
			users[i] = kit.NewParty(kit.Addr{Name: "user", Dev: uint32(i)}, ser, true)
			order[i] = rapid.Permutation([]int{0, 1, 2}).Draw(rt, "order")
		}
		c.Log("%d users, %d messages, orders %v, json %v, group %q", len(users), len(msgs), order, js, name.Group)
		job := func(tb *kit.PartTB, i int) {
			u := users[i]
			must := func(err error) {
				if err != nil {
					tb.Fatalf("%v", err)
				}
			}
			same := func(what string, got, want []byte) {
				if !bytes.Equal(got, want) {
					tb.Fatalf("%s is %x, expected %x", what, got, want)
				}
			}
			for _, part := range order[i] {
				switch part {
				case 0:
					b := session.NewBuilderFromSignal(u.Store, oa, ser)
					must(b.ProcessBundle(bundle))
					m, err := session.NewCipher(b, oa).Encrypt([]byte(fmt.Sprint("first of ", i)))
					must(err)
					firsts[i] = kit.Wire{Pre: m.Type() == protocol.PREKEY_TYPE, Bytes: m.Serialize()}
				case 1:
					gb := groups.NewGroupSessionBuilder(u.Store, ser)
					gb.Process(n, dist)
					gc := groups.NewGroupCipher(gb, n, u.Store)
					for k, m := range msgs {
						pt, err := gc.Decrypt(m)
						must(err)
						same("a group message", pt, texts[k])
						same("its encoding", m.SignedSerialize(), wires[k])
					}
					same("the distribution message", dist.Serialize(), made)
				case 2:
					if oa.Name() != "owner" || oa.DeviceID() != 1 || n.GroupID() != name.Group || n.Sender().Name() != "owner" {
						tb.Fatalf("the address is %s, the name %q", oa.String(), n.GroupID())
					}
					if got, want := oa.String(), owner.Addr.Signal().String(); got != want {
						tb.Fatalf("the address is shown as %s, expected %s", got, want)
					}
					if fp.DisplayText() != shown {
						tb.Fatalf("the fingerprint shows %s, expected %s", fp.DisplayText(), shown)
					}
					same("the record", held.Serialize(), bytesOf)
					same("the sender key record", gheld.Serialize(), gbytes)
					same("the signed prekey", spk.Serialize(), spkBytes)
					same("the establishing message", pre.Serialize(), w.Bytes)
					same("the message within", pre.WhisperMessage().Serialize(), owner.PreOf(w.Bytes).Message)
					same("the identity", bundle.IdentityKey().Serialize(), owner.ID.PublicKey().Serialize())
					if !ecc.VerifySignature(bundle.IdentityKey().PublicKey(), bundle.SignedPreKey().Serialize(), bundle.SignedPreKeySignature()) {
						tb.Fatalf("the signature of the signed prekey does not verify")
					}
					_ = held.SessionState().HasSenderChain() && held.SessionState().HasUnacknowledgedPreKeyMessage()
				}
			}
		}
		tbs := make([]*kit.PartTB, len(users))
		var wg sync.WaitGroup
		startAll := make(chan struct{})
		for i := range users {
			tbs[i] = &kit.PartTB{TB: rt}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-startAll
				tbs[i].Run(func() { job(tbs[i], i) })
			}(i)
		}
		close(startAll)
		wg.Wait()
		for i, tb := range tbs {
			if tb.Failure != "" {
				rt.Fatalf("user %d of %d: %s", i, len(users), tb.Failure)
			}
			if pt, err := owner.Decrypt(users[i].Addr, firsts[i]); err != nil || string(pt) != fmt.Sprint("first of ", i) {
				rt.Fatalf("the first message of user %d decrypts to %q (%v)", i, pt, err)
			}
		}
		if len(users) >= 3 && len(msgs) > 0 {
			c.Nontrivial()
		}
	})
}

// completion counts and keeps what an asynchronous helper delivers.
type completion struct {
	mu   sync.Mutex
	ok   []interface{}
	fail []string
	ch   chan struct{}
}

func (c *completion) OnSuccess(r *complete.Result) {
	c.mu.Lock()
	c.ok = append(c.ok, r.Data)
	c.mu.Unlock()
	c.ch <- struct{}{}
}

func (c *completion) OnFailure(m string) {
	c.mu.Lock()
	c.fail = append(c.fail, m)
	c.mu.Unlock()
	c.ch <- struct{}{}
}

func TestC30_Async(t *testing.T) {
	kit.Run(t, 1500, "1 to 8 asynchronous verifications, signatures and identity generations at once, with valid and altered signatures and failing randomness; each must complete exactly once with the result of the synchronous function; non-trivial: at least 3 at once, one that fails", func(rt *rapid.T, c *kit.Case) {
		rnd := kit.Seed(rt)
		n := rapid.IntRange(1, 8).Draw(rt, "calls")
		key := kit.Key(rt, "key")
		data := kit.Plain().Draw(rt, "data")
		sig := ecc.CalculateSignature(key.PrivateKey(), data)
		fails := 0
		noRandom := rapid.IntRange(0, 9).Draw(rt, "no randomness") == 0
		var checks []func()
		for i := 0; i < n; i++ {
			cp := &completion{ch: make(chan struct{}, 8)}
			kind := rapid.IntRange(0, 3).Draw(rt, "call")
			c.Log("call %d", kind)
			wait := func(what string) {
				late := make(chan struct{})
				stop := kit.After(30*time.Second, func() { close(late) })
				defer stop()
				select {
				case <-cp.ch:
				case <-late:
					rt.Fatalf("%s did not complete", what)
				}
			}
			one := func(what string) {
				wait(what)
				time.Sleep(20 * time.Microsecond)
				cp.mu.Lock()
				defer cp.mu.Unlock()
				if len(cp.ok)+len(cp.fail) != 1 {
					rt.Fatalf("%s completed with %v and failed with %v", what, cp.ok, cp.fail)
				}
			}
			switch kind {
			case 0, 1:
				s, m := sig, kit.Clone(data)
				switch rapid.IntRange(0, 3).Draw(rt, "change") {
				case 0:
					s[rapid.IntRange(0, 63).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
				case 1:
					m = append(m, 0)
				}
				want := ecc.VerifySignature(key.PublicKey(), m, s)
				if !want {
					fails++
				}
				ecc.VerifySignatureAsync(key.PublicKey(), m, s, cp)
				checks = append(checks, func() {
					one("VerifySignatureAsync")
					if want && (len(cp.ok) != 1 || cp.ok[0] != true) || !want && len(cp.fail) != 1 {
						rt.Fatalf("VerifySignatureAsync gave %v and %v, expected %v", cp.ok, cp.fail, want)
					}
				})
			case 2:
				ecc.CalculateSignatureAsync(key.PrivateKey(), kit.Clone(data), cp)
				checks = append(checks, func() {
					one("CalculateSignatureAsync")
					if len(cp.ok) != 1 {
						rt.Fatalf("CalculateSignatureAsync failed: %v", cp.fail)
					}
					s, isSig := cp.ok[0].([64]byte)
					if !isSig || !ecc.VerifySignature(key.PublicKey(), data, s) {
						rt.Fatalf("CalculateSignatureAsync gave %v, which is not a signature", cp.ok[0])
					}
				})
			case 3:
				rnd.SetFail(noRandom)
				keyhelper.GenerateIdentityKeyPairAsync(cp)
				failed := noRandom
				if failed {
					fails++
				}
				check := func() {
					one("GenerateIdentityKeyPairAsync")
					if failed {
						if len(cp.fail) != 1 || cp.fail[0] == "" {
							rt.Fatalf("GenerateIdentityKeyPairAsync gave %v without randomness", cp.ok)
						}
						return
					}
					if len(cp.ok) != 1 {
						rt.Fatalf("GenerateIdentityKeyPairAsync failed: %v", cp.fail)
					}
					id, isID := cp.ok[0].(*identity.KeyPair)
					if !isID {
						rt.Fatalf("GenerateIdentityKeyPairAsync gave a %T", cp.ok[0])
					}
					priv := id.PrivateKey().Serialize()
					if !bytes.Equal(ecc.CreateKeyPair(priv[:]).PublicKey().Serialize(), id.PublicKey().PublicKey().Serialize()) {
						rt.Fatalf("GenerateIdentityKeyPairAsync gave keys that do not match")
					}
				}
				if noRandom {
					// Let nothing else run without randomness.
					check()
					rnd.SetFail(false)
				} else {
					checks = append(checks, check)
				}
			}
		}
		for _, f := range checks {
			f()
		}
		if n >= 3 && fails > 0 {
			c.Nontrivial()
		}
	})
}
