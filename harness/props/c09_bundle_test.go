package props

import (
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// badBundle alters a bundle so that its signed prekey is not authentic.
func badBundle(rt *rapid.T, cv *kit.Conv, from int, b kit.BundleParts) (kit.BundleParts, string) {
	p := cv.P[1-from]
	sign := func(k *ecc.ECKeyPair, msg []byte) [64]byte { return ecc.CalculateSignature(k.PrivateKey(), msg) }
	switch k := rapid.IntRange(0, 14).Draw(rt, "change"); k {
	case 0:
		b.SPK = nil
		return b, "no signed prekey"
	case 1:
		b.SPK = kit.Key(rt, "spk").PublicKey()
		return b, "another signed prekey"
	case 2:
		s := b.SPK.PublicKey()
		s[rapid.IntRange(0, 31).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		b.SPK = ecc.NewDjbECPublicKey(s)
		return b, "a bit of the signed prekey"
	case 3, 4:
		b.Sig[rapid.IntRange(0, 63).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
		return b, "a bit of the signature"
	case 5:
		b.Sig = [64]byte{}
		return b, "no signature"
	case 6:
		b.ID = libIDOf(kit.Key(rt, "id"))
		return b, "another identity"
	case 7:
		x := kit.Key(rt, "id")
		b.Sig = sign(x, b.SPK.Serialize())
		return b, "signed by a stranger"
	case 8:
		// The attacker's key with the attacker's signature.
		x := kit.Key(rt, "id")
		b.SPK = kit.Key(rt, "spk").PublicKey()
		b.Sig = sign(x, b.SPK.Serialize())
		return b, "signed prekey and signature of a stranger"
	case 9:
		p.NewSignedPreKey()
		b.Sig = p.NewBundle(kit.NoPre).Sig
		return b, "signature of another signed prekey"
	case 10:
		p.NewSignedPreKey()
		b.SPK = p.NewBundle(kit.NoPre).SPK
		return b, "signed prekey of another signature"
	case 11:
		copy(b.Sig[:], append(append([]byte{}, b.Sig[32:]...), b.Sig[:32]...))
		return b, "halves of the signature swapped"
	case 12:
		s := ref.LE(append(append([]byte{}, b.Sig[32:63]...), b.Sig[63]&0x7f))
		s.Add(s, ref.L)
		if s.BitLen() > 255 {
			return b, ""
		}
		sign := b.Sig[63] & 0x80
		copy(b.Sig[32:], ref.ToLE(s, 32))
		b.Sig[63] |= sign
		return b, "the group order added to the signature"
	case 13:
		// Signed by the right key, but over something else.
		b.Sig = ecc.CalculateSignature(p.ID.PrivateKey(), rapid.SampledFrom([][]byte{b.SPK.Serialize()[1:], {}, b.ID.PublicKey().Serialize(), append(b.SPK.Serialize(), 0)}).Draw(rt, "signed"))
		return b, "signature over something else"
	default:
		b.SPK = cv.P[from].NewBundle(kit.NoPre).SPK
		return b, "the processor's own signed prekey"
	}
}

func TestC09_Bundles(t *testing.T) {
	kit.Run(t, 6000, "a conversation in which honest bundles must be accepted and altered bundles (signed prekey, signature or identity missing, changed, swapped or made by a stranger; or untrusted) rejected with the stores compared before and after; non-trivial: a rejected bundle in the middle of a conversation and one accepted", func(rt *rapid.T, c *kit.Case) {
		rnd := kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		cv.Atomic = true
		ops := kit.BasicOps()
		ops["init"], ops["reinit"], ops["x1"], ops["x2"], ops["x3"] = 2, 1, 6, 1, 1
		rejected, mid := 0, 0
		for _, o := range kit.GenOps(ops, 2, 30).Draw(rt, "ops") {
			from := o.Who
			p, to := cv.P[from], cv.P[1-from].Addr
			refuse := func(b kit.BundleParts, d string) {
				before := p.Store.Snapshot()
				err := p.Builder(to).ProcessBundle(b.Bundle())
				c.Log("%s offered to %d", d, from)
				if err == nil {
					rt.Fatalf("a bundle is accepted with %s", d)
				}
				if x := kit.Diff(before, p.Store.Snapshot()); x != "" {
					rt.Fatalf("rejecting a bundle (%s) changed the store: %s", d, x)
				}
				rejected++
				if len(cv.Msgs) > 0 {
					mid++
				}
				c.Label(d)
			}
			switch o.Kind {
			case "x1":
				b := cv.P[1-from].NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
				if bad, d := badBundle(rt, cv, from, *b); d != "" {
					refuse(bad, d)
				}
			case "x2":
				// Honest but for an identity that is not the pinned one.
				b := cv.P[1-from].NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
				id, had := p.Store.Identity(to)
				pin := p.Store.Pin
				p.Store.Pin = true
				p.Store.SaveIdentity(to.Signal(), libIDOf(kit.Key(rt, "pinned")))
				refuse(*b, "an untrusted identity")
				p.Store.Pin = pin
				p.Store.ForgetIdentity(to)
				if had {
					p.Store.SaveIdentity(to.Signal(), libIDOfBytes(id))
				}
			case "x3":
				// Honest, but the random source fails before the session can
				// be made; it must stay possible to use the old one.
				b := cv.P[1-from].NewBundle(kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
				rnd.FailAt = rapid.IntRange(1, 3).Draw(rt, "failing read")
				before, sid := p.Store.Snapshot(), p.Current(to)
				err := p.Builder(to).ProcessBundle(b.Bundle())
				failed := rnd.Fail
				rnd.Fail, rnd.FailAt = false, 0
				c.Log("random source fails for %d: %v", from, err != nil)
				if err == nil {
					if p.Current(to) == sid || failed {
						rt.Fatalf("no error and no session, or one without randomness")
					}
					cv.Initiated(from, b, p.Current(to))
					break
				}
				if !failed {
					rt.Fatalf("an honest bundle is rejected: %v", err)
				}
				if x := kit.Diff(before, p.Store.Snapshot()); x != "" {
					rt.Fatalf("failing to process a bundle changed the store: %s", x)
				}
				c.Label("random source failed")
			case "reinit", "init":
				if cv.Inits < 30 {
					cv.Step(o)
				}
			default:
				cv.Step(o)
			}
		}
		if mid > 0 && cv.Inits > 0 {
			c.Nontrivial()
		}
		cv.Drain(rt)
		cv.PingPong()
	})
}
