package props

import (
	"bytes"
	"encoding/base64"
	"testing"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	groupRecord "github.com/prospik/libsignal-protocol-go/groups/state/record"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/provision"
	"github.com/prospik/libsignal-protocol-go/state/record"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

func silent(rt *rapid.T, ear *kit.Ear) {
	if what, text := ear.Told(); what != "" {
		rt.Fatalf("%s is told in: %q", what, text)
	}
}

// unpadded encrypts blocks of a text without padding.
func unpadded(rt *rapid.T, ear *kit.Ear, key, iv []byte, src *kit.Source) []byte {
	text := kit.ClearText(src, rapid.IntRange(1, 4).Draw(rt, "texts"))
	text = text[:len(text)/16*16]
	if rapid.Bool().Draw(rt, "almost") {
		// Padding that is not quite right.
		n := rapid.IntRange(2, 16).Draw(rt, "padding")
		for i := len(text) - n; i < len(text); i++ {
			text[i] = byte(n)
		}
		text[len(text)-n]++
	}
	ear.Secret("the text", text)
	ct := ref.EncCbc(key, iv, text)
	return ct[:len(ct)-16]
}

func TestC37_Sessions(t *testing.T) {
	kit.Run(t, 2500, "a conversation with manipulated, repeated, undecryptable and misdirected messages, rejected bundles and a failing random source; neither an error's text nor what is logged as information, warning or error (by the library's own logger or to another) contains a plaintext or any secret key that was in the stores or protects a message; non-trivial: at least 5 texts", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		ear := kit.Listen(rapid.Bool().Draw(rt, "own"))
		defer ear.Close()
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		cv.TrackKeys = true
		third := kit.NewParty(kit.Addr{Name: "mallory", Dev: 1}, cv.P[0].Ser, true)
		third.NewBundle(kit.OneTime)
		texts := kit.NamedSource("texts", rapid.Uint64().Draw(rt, "texts"))
		cv.OnSent = func(m *kit.Msg) {
			ear.Secret("the plaintext", m.PT)
			ear.Secret("the cipher key of a message", m.Keys.Cipher)
			ear.Secret("the authentication key of a message", m.Keys.Mac)
		}
		cv.Init(rapid.IntRange(0, 1).Draw(rt, "initiator"), kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		ops := kit.BasicOps()
		ops["corrupt"], ops["reinit"], ops["init"], ops["close"], ops["forget"] = 10, 1, 1, 1, 1
		ops["x1"], ops["x2"], ops["x3"] = 2, 4, 2
		note := func() {
			for _, p := range cv.P {
				ear.Store(p.Store)
			}
		}
		for _, o := range kit.GenOps(ops, 3, 30).Draw(rt, "ops") {
			if cv.Inits > 10 && (o.Kind == "init" || o.Kind == "reinit") {
				continue
			}
			note()
			p, from := cv.P[o.Who], cv.P[1-o.Who].Addr
			var l []*kit.Msg
			for _, m := range cv.Msgs {
				if m.To() == o.Who && m.Delivered == 0 {
					l = append(l, m)
				}
			}
			switch o.Kind {
			case "send":
				cv.Send(o.Who, kit.ClearText(texts, 1+o.N%3))
			case "corrupt":
				if a := cv.GenAttack(rt, third); a != nil && !cv.Perform(a, false) {
					silent(rt, ear)
					return
				}
			case "x1": // no randomness
				b := cv.P[1-o.Who].NewBundle(kit.NoPre)
				src.Fail = true
				if len(l) > 0 {
					m := l[o.N%len(l)]
					if _, err := p.Decrypt(from, m.W); err == nil {
						cv.Accepted(m)
						m.Delivered++
					}
				}
				ear.Err(p.Builder(from).ProcessBundle(b.Bundle()))
				src.Fail = false
			case "x2": // authentic, but not decryptable
				if len(l) == 0 || p.IsJSON() {
					continue
				}
				m := l[o.N%len(l)]
				in, err := ref.ParseSig(m.W.Bytes)
				var pre *ref.PreMsg
				if m.W.Pre {
					if pre, err = ref.ParsePre(m.W.Bytes); err == nil {
						in, err = ref.ParseSig(pre.Inner)
					}
				}
				if err != nil {
					rt.Fatal(err)
				}
				ct := kit.BytesN(rapid.SampledFrom([]int{0, 1, 15, 16, 17, 32, 48}).Draw(rt, "length")).Draw(rt, "ct")
				if rapid.Bool().Draw(rt, "unpadded") {
					ct = unpadded(rt, ear, m.Keys.Cipher, m.Keys.Iv, texts)
				}
				b := ref.BuildSig(m.Keys, in.Ratchet, in.Ctr, in.Prev, ct, cv.P[1-o.Who].IDBytes(), p.IDBytes())
				w := kit.Wire{Bytes: b}
				if pre != nil {
					pre.Inner = b
					w = kit.Wire{Pre: true, Bytes: ref.BuildPre(pre)}
				}
				keep := p.Store.Clone()
				if _, err := p.Decrypt(from, w); err == nil {
					// The padding is right by chance.
					p.Store.Restore(keep)
					p.Restart()
				}
			case "x3":
				b := cv.P[1-o.Who].NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
				if bad, d := badBundle(rt, cv, o.Who, *b); d != "" {
					err := p.Builder(from).ProcessBundle(bad.Bundle())
					if err == nil {
						rt.Fatalf("a bundle is accepted with %s", d)
					}
					ear.Err(err)
				}
			default:
				cv.Step(o)
			}
		}
		note()
		cv.Drain(rt)
		if ear.Texts() >= 5 {
			c.Nontrivial()
		}
		silent(rt, ear)
	})
}

func TestC37_Groups(t *testing.T) {
	kit.Run(t, 1500, "a group history with manipulated, repeated and unreadable messages and distribution messages; neither an error's text nor what is logged as information, warning or error contains a plaintext or any secret key in the stores; non-trivial: at least 3 texts", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		peer := kit.PeerSource(rt)
		ear := kit.Listen(rapid.Bool().Draw(rt, "own"))
		defer ear.Close()
		g := kit.NewGroup(rt, c, 2, 4)
		g.Setup(rt)
		texts := kit.NamedSource("texts", rapid.Uint64().Draw(rt, "texts"))
		send := func() {
			n := g.Name(0, 0)
			if g.Own(0, n) != nil {
				m := g.Send(0, n, kit.ClearText(texts, 2))
				ear.Secret("the plaintext", m.PT)
				iv, key := ref.GroupKeys(g.ChainKey(m.E, m.Iter))
				ear.Secret("the cipher key of a message", append(key, iv...))
			}
		}
		send()
		ops := kit.GroupOps()
		ops["x1"], ops["x2"], ops["x3"], ops["x4"] = 20, 5, 3, 5
		for _, o := range kit.GenGroupOps(ops, 4, 35).Draw(rt, "ops") {
			for _, p := range g.P {
				ear.Store(p.Store)
			}
			who := o.Who % len(g.P)
			switch o.Kind {
			case "x1":
				if w, _, name, _, _ := groupAttack(rt, g, peer); w != nil {
					keep := g.P[who].Store.Clone()
					if _, err := g.P[who].GroupDecrypt(name, w); err == nil {
						g.P[who].Store.Restore(keep)
						g.P[who].Restart()
					}
				}
			case "x2":
				send()
			case "x4": // authentic, but not decryptable
				rec := g.P[0].Store.LoadSenderKey(g.Name(0, 0).Signal())
				if g.JSON || rec == nil || len(g.Msgs) == 0 {
					continue
				}
				m := g.Msgs[len(g.Msgs)-1]
				st, err := rec.SenderKeyState()
				if err != nil || m.E.Name != g.Name(0, 0) || st.SigningKey().PrivateKey() == nil || !bytes.Equal(st.SigningKey().PublicKey().Serialize(), m.E.First.Signing) {
					continue
				}
				s, err := ref.ParseGroup(m.W)
				if err != nil {
					rt.Fatal(err)
				}
				iter := m.Iter + uint32(o.N%3)
				iv, key := ref.GroupKeys(g.ChainKey(m.E, iter))
				b := ref.GroupBody(s.ID, iter, unpadded(rt, ear, key, iv, texts))
				priv := st.SigningKey().PrivateKey().Serialize()
				b = append(b, ref.Sign(priv[:], b, make([]byte, 64))...)
				if _, err := g.P[who].GroupDecrypt(m.E.Name, b); err == nil {
					rt.Fatal("an unpadded message is accepted")
				}
				c.Label("unpadded")
			case "x3":
				if len(g.Dists) > 0 {
					d := g.Dists[o.N%len(g.Dists)]
					w, _ := kit.MutateBytes(rt, d.Bytes)
					keep := g.P[who].Store.Clone()
					if g.P[who].GroupProcess(d.E.Name, w) == nil {
						g.P[who].Store.Restore(keep)
						g.P[who].Restart()
					}
				}
				src.Fail = true
				keep := g.P[who].Store.Clone()
				if _, err := g.P[who].GroupCreate(g.Name(who, 1)); err == nil {
					g.P[who].Store.Restore(keep)
					g.P[who].Restart()
				}
				src.Fail = false
			default:
				g.Step(o)
			}
		}
		for _, p := range g.P {
			ear.Store(p.Store)
		}
		if ear.Texts() >= 3 {
			c.Nontrivial()
		}
		silent(rt, ear)
	})
}

func TestC37_Records(t *testing.T) {
	kit.Run(t, 5000, "damaged records (session, state, prekey, signed prekey, sender key and its state) and unsuitable arguments of the ciphers, derivations, signatures, key generation and provisioning; no error or logged text contains a secret; non-trivial: at least 1 text", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		ear := kit.Listen(rapid.Bool().Draw(rt, "own"))
		defer ear.Close()
		ser := kit.Serializer(rapid.Bool().Draw(rt, "json"))
		hear := func(f func() error) {
			defer func() {
				recover() // the domain of C17
			}()
			ear.Err(f())
		}
		rnd := func(n int) []byte {
			b := make([]byte, n)
			src.Read(b)
			return b
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "calls"); i > 0; i-- {
			k := rapid.IntRange(0, 8).Draw(rt, "kind")
			hurt := func(b []byte) []byte {
				ear.Record("the record", b)
				x, d := kit.MutateBytes(rt, b)
				c.Log("%d: %s", k, d)
				return x
			}
			switch k {
			case 0:
				b := ser.Session.Serialize(&record.SessionStructure{SessionState: genState(rt), PreviousStates: []*record.StateStructure{genState(rt)}})
				x := hurt(b)
				hear(func() error { _, err := record.NewSessionFromBytes(x, ser.Session, ser.State); return err })
			case 1:
				x := hurt(ser.State.Serialize(genState(rt)))
				hear(func() error { _, err := record.NewStateFromBytes(x, ser.State); return err })
			case 2:
				x := hurt(record.NewPreKey(3, kit.Key(rt, "key"), ser.PreKeyRecord).Serialize())
				hear(func() error { _, err := record.NewPreKeyFromBytes(x, ser.PreKeyRecord); return err })
			case 3:
				x := hurt(record.NewSignedPreKey(3, 5, kit.Key(rt, "key"), [64]byte{}, ser.SignedPreKeyRecord).Serialize())
				hear(func() error { _, err := record.NewSignedPreKeyFromBytes(x, ser.SignedPreKeyRecord); return err })
			case 4:
				x := hurt(ser.SenderKeyRecord.Serialize(&groupRecord.SenderKeyStructure{SenderKeyStates: []*groupRecord.SenderKeyStateStructure{genSenderState(rt, true)}}))
				hear(func() error {
					_, err := groupRecord.NewSenderKeyFromBytes(x, ser.SenderKeyRecord, ser.SenderKeyState)
					return err
				})
			case 5:
				// Ciphers with unsuitable keys and texts.
				key := rnd(rapid.SampledFrom([]int{0, 1, 15, 16, 24, 31, 32, 33, 64}).Draw(rt, "key"))
				iv := rnd(rapid.SampledFrom([]int{0, 12, 15, 16, 17}).Draw(rt, "iv"))
				text := rnd(rapid.SampledFrom([]int{0, 1, 16, 17, 32, 40}).Draw(rt, "text"))
				ear.Secret("the key", key)
				ear.Secret("the text", text)
				k32, iv16 := rnd(32), rnd(16)
				ear.Secret("the key", k32)
				ct := unpadded(rt, ear, k32, iv16, src)
				hear(func() error { _, err := cipher.DecryptCbc(iv16, k32, ct); return err })
				hear(func() error { _, err := cipher.DecryptCbc(nil, k32, append(iv16, ct...)); return err })
				c.Log("cipher %d %d %d", len(key), len(iv), len(text))
				hear(func() error { _, err := cipher.EncryptCbc(iv, key, text); return err })
				hear(func() error { _, err := cipher.DecryptCbc(iv, key, text); return err })
				hear(func() error { _, err := cipher.Encrypt(iv, key, text); return err })
				hear(func() error { _, err := cipher.Decrypt(iv, key, text); return err })
			case 6:
				secret := rnd(32)
				ear.Secret("the input of the derivation", secret)
				n := rapid.SampledFrom([]int{0, 1, 80, 8160, 8161, 100000}).Draw(rt, "n")
				c.Log("derive %d", n)
				hear(func() error { _, err := kdf.DeriveSecrets(secret, nil, []byte("x"), n); return err })
			case 7:
				src.Fail = true
				hear(func() error { _, err := ecc.GenerateKeyPair(); return err })
				hear(func() error { _, err := keyhelper.GenerateIdentityKeyPair(); return err })
				hear(func() error { _, err := keyhelper.GeneratePreKeys(1, 3, ser.PreKeyRecord); return err })
				src.Fail = false
				k := kit.Key(rt, "signing")
				ear.Secret("the private key", privOf(k))
				hear(func() error { _, err := ecc.DecodePoint(rnd(rapid.IntRange(0, 40).Draw(rt, "point")), 0); return err })
				hear(func() error {
					_, err := fingerprint.NewDisplay(rnd(rapid.IntRange(0, 40).Draw(rt, "n")), rnd(40)).DisplayText(), error(nil)
					return err
				})
			case 8:
				dev, eph := ref.NewPair(src), ref.NewPair(src)
				msg := kit.ClearText(src, 1)
				pub, body := envelope(dev, eph, rnd(16), msg)
				key := base64.StdEncoding.EncodeToString(dev.Priv)
				ear.Secret("the device's key", dev.Priv)
				ear.Secret("the device's key as text", []byte(key))
				ear.Secret("the provisioned text", msg)
				env := wrapEnvelope(pub, body)
				switch rapid.IntRange(0, 3).Draw(rt, "damage") {
				case 0:
					x, _ := kit.MutateBytes(rt, body)
					env = wrapEnvelope(pub, x)
				case 1:
					x, _ := kit.MutateBytes(rt, pub)
					env = wrapEnvelope(x, body)
				case 2:
					x, _ := kit.MutateBytes(rt, []byte(env))
					env = string(x)
				case 3:
					x, _ := kit.MutateBytes(rt, []byte(key))
					key = string(x)
				}
				hear(func() error { _, err := provision.Decrypt(key, env); return err })
			}
		}
		if ear.Texts() >= 1 {
			c.Nontrivial()
		}
		silent(rt, ear)
	})
}
