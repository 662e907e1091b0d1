package props

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"github.com/prospik/libsignal-protocol-go/ratchet"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// newPair is a key pair from its own stream.
func newPair(rt *rapid.T, label string) *ecc.ECKeyPair { return kit.Key(rt, label) }

func idPair(k *ecc.ECKeyPair) *identity.KeyPair {
	return identity.NewKeyPair(identity.NewKey(k.PublicKey()), k.PrivateKey())
}

func agreement(k *session.KeyPair) []byte {
	return append(append([]byte{}, k.RootKey.Bytes()...), k.ChainKey.Key()...)
}

func senderSide(rt *rapid.T, ik, ek, theirIK, theirSPK, theirOPK *ecc.ECKeyPair) []byte {
	p := ratchet.NewEmptySenderParameters()
	p.SetOurIdentityKey(idPair(ik))
	p.SetOurBaseKey(ek)
	p.SetTheirIdentityKey(libIDOf(theirIK))
	p.SetTheirSignedPreKey(theirSPK.PublicKey())
	p.SetTheirRatchetKey(theirSPK.PublicKey())
	if theirOPK != nil {
		p.SetTheirOneTimePreKey(theirOPK.PublicKey())
	}
	if ek.PublicKey().Serialize()[9]&1 == 0 {
		// The same with the constructor.
		var o ecc.ECPublicKeyable
		if theirOPK != nil {
			o = theirOPK.PublicKey()
		}
		p = ratchet.NewSenderParameters(idPair(ik), ek, libIDOf(theirIK), theirSPK.PublicKey(), theirSPK.PublicKey(), o)
	}
	k, err := ratchet.CalculateSenderSession(p)
	if err != nil {
		rt.Fatalf("sender agreement: %v", err)
	}
	if k.ChainKey.Index() != 0 {
		rt.Fatalf("the chain starts at %d", k.ChainKey.Index())
	}
	return agreement(k)
}

func receiverSide(rt *rapid.T, ik, spk, opk, theirIK, theirEK *ecc.ECKeyPair) []byte {
	p := ratchet.NewEmptyReceiverParameters()
	p.SetOurIdentityKeyPair(idPair(ik))
	p.SetOurSignedPreKey(spk)
	p.SetOurRatchetKey(spk)
	if opk != nil {
		p.SetOurOneTimePreKey(opk)
	}
	p.SetTheirIdentityKey(libIDOf(theirIK))
	p.SetTheirBaseKey(theirEK.PublicKey())
	if theirEK.PublicKey().Serialize()[8]&1 == 0 {
		p = ratchet.NewReceiverParameters(idPair(ik), spk, opk, spk, theirEK.PublicKey(), libIDOf(theirIK))
	}
	k, err := ratchet.CalculateReceiverSession(p)
	if err != nil {
		rt.Fatalf("receiver agreement: %v", err)
	}
	if k.ChainKey.Index() != 0 {
		rt.Fatalf("the chain starts at %d", k.ChainKey.Index())
	}
	return agreement(k)
}

func TestC05_Agreement(t *testing.T) {
	kit.Run(t, 8000, "key agreements over generated key pairs, with and without a one-time prekey, compared with each other and with the reference X3DH, then repeated with each key pair replaced and with the one-time prekey left out or added; non-trivial: all key pairs differ", func(rt *rapid.T, c *kit.Case) {
		names := []string{"ikA", "ekA", "ikB", "spkB", "opkB"}
		k := make([]*ecc.ECKeyPair, 5)
		for i, n := range names {
			k[i] = newPair(rt, n)
		}
		with := rapid.Bool().Draw(rt, "opk")
		other := newPair(rt, "other")
		c.Log("ikA %x ekA %x ikB %x spkB %x opkB %x", k[0].PublicKey().Serialize()[1:5], k[1].PublicKey().Serialize()[1:5], k[2].PublicKey().Serialize()[1:5], k[3].PublicKey().Serialize()[1:5], k[4].PublicKey().Serialize()[1:5])
		both := func(k []*ecc.ECKeyPair, with bool) []byte {
			opk := k[4]
			if !with {
				opk = nil
			}
			a := senderSide(rt, k[0], k[1], k[2], k[3], opk)
			b := receiverSide(rt, k[2], k[3], opk, k[0], k[1])
			if !bytes.Equal(a, b) {
				rt.Fatalf("the initiator derives %x, the responder %x", a, b)
			}
			return a
		}
		got := both(k, with)
		var opk []byte
		if with {
			opk = refPair(k[4]).Pub
		}
		r, ck := ref.X3DHInitiator(refPair(k[0]), refPair(k[1]), refPair(k[2]).Pub, refPair(k[3]).Pub, opk)
		if !bytes.Equal(got, append(append([]byte{}, r...), ck...)) {
			rt.Fatalf("the agreement is %x, the specification prescribes %x%x", got, r, ck)
		}
		distinct := true
		for i := range k {
			for j := range k[:i] {
				if bytes.Equal(k[i].PublicKey().Serialize(), k[j].PublicKey().Serialize()) {
					distinct = false
				}
			}
		}
		if distinct {
			c.Nontrivial()
		}
		seen := [][]byte{got, both(k, !with)}
		if bytes.Equal(seen[0], seen[1]) {
			rt.Fatalf("the one-time prekey makes no difference")
		}
		for i := range k {
			if i == 4 && !with || bytes.Equal(k[i].PublicKey().Serialize(), other.PublicKey().Serialize()) {
				continue
			}
			k2 := append([]*ecc.ECKeyPair{}, k...)
			k2[i] = other
			x := both(k2, with)
			if bytes.Equal(x[:32], got[:32]) || bytes.Equal(x[32:], got[32:]) {
				rt.Fatalf("replacing %s does not change the agreement", names[i])
			}
		}
		// Only the right private keys give the secret.
		if distinct {
			o := k[4]
			if !with {
				o = nil
			}
			for i, f := range []func() []byte{
				func() []byte { return receiverSide(rt, other, k[3], o, k[0], k[1]) },
				func() []byte { return receiverSide(rt, k[2], other, o, k[0], k[1]) },
				func() []byte { return senderSide(rt, other, k[1], k[2], k[3], o) },
				func() []byte { return senderSide(rt, k[0], other, k[2], k[3], o) },
			} {
				if bytes.Equal(f(), got) && !bytes.Equal(other.PublicKey().Serialize(), k[[]int{2, 3, 0, 1}[i]].PublicKey().Serialize()) {
					rt.Fatalf("a stranger (%d) derives the secret", i)
				}
			}
		}
	})
}

// collidingKeys are pairs of private keys, by the number in their bytes from 8
// on, whose public keys share their first two, three or four bytes.
var collidingKeys = []keyPairNums{{239, 345}, {0, 433}, {99, 596}, {478, 620}, {474, 1590}, {461, 6913}, {1625, 9466}, {5429, 10226},
	{8908, 11386}, {2896, 11480}, {22998, 39004}, {59219, 77927}, {27650, 79571}, {104004, 114096}, {116643, 150339}, {5422, 150809}}

type keyPairNums [2]uint32

func (p keyPairNums) key(i int) *ecc.ECKeyPair {
	var b [32]byte
	binary.LittleEndian.PutUint32(b[8:], p[i])
	return ecc.CreateKeyPair(b[:])
}

func TestC05_Symmetric(t *testing.T) {
	kit.Run(t, 8000, "symmetric agreements with base keys that share a generated number of leading bytes or have generated leading bytes, each side computing alone, compared with each other and with the reference; non-trivial: the base keys share at least the first byte or differ in the sign bit of the first byte", func(rt *rapid.T, c *kit.Case) {
		ikA, ikB := newPair(rt, "ikA"), newPair(rt, "ikB")
		ekA, ekB := newPair(rt, "ekA"), newPair(rt, "ekB")
		switch rapid.IntRange(0, 3).Draw(rt, "shared") {
		case 0, 1:
			// Base keys that share up to four bytes.
			p := rapid.SampledFrom(collidingKeys).Draw(rt, "colliding")
			ekA, ekB = p.key(0), p.key(1)
			if rapid.Bool().Draw(rt, "swap") {
				ekA, ekB = ekB, ekA
			}
		case 2:
			// Find a base key with the same first byte by stepping.
			b := kit.Bytes32().Draw(rt, "search")
			for i := 0; i < 4000; i++ {
				b[8], b[9] = byte(i), byte(i>>8)
				k := ecc.CreateKeyPair(b)
				if k.PublicKey().Serialize()[1] == ekA.PublicKey().Serialize()[1] {
					ekB = k
					break
				}
			}
		}
		if bytes.Equal(ekA.PublicKey().Serialize(), ekB.PublicKey().Serialize()) {
			return // the roles cannot be decided
		}
		a, b := ekA.PublicKey().Serialize(), ekB.PublicKey().Serialize()
		if a[1] == b[1] || (a[1]^b[1])&0x80 != 0 {
			c.Nontrivial()
		}
		c.Log("base keys %x %x", a[1:6], b[1:6])
		side := func(ik, ek, theirIK, theirEK *ecc.ECKeyPair) []byte {
			k, err := ratchet.CalculateSymmetricSession(&ratchet.SymmetricParameters{
				OurBaseKey: ek, OurRatchetKey: ek, OurIdentityKeyPair: idPair(ik),
				TheirBaseKey: theirEK.PublicKey(), TheirRatchetKey: theirEK.PublicKey(), TheirIdentityKey: libIDOf(theirIK)})
			if err != nil {
				rt.Fatal(err)
			}
			return agreement(k)
		}
		x, y := side(ikA, ekA, ikB, ekB), side(ikB, ekB, ikA, ekA)
		if !bytes.Equal(x, y) {
			rt.Fatalf("the sides of a symmetric session derive %x and %x", x, y)
		}
		// One side is the initiator, the other's base key serves as signed prekey.
		r1, c1 := ref.X3DHInitiator(refPair(ikA), refPair(ekA), refPair(ikB).Pub, refPair(ekB).Pub, nil)
		r2, c2 := ref.X3DHInitiator(refPair(ikB), refPair(ekB), refPair(ikA).Pub, refPair(ekA).Pub, nil)
		if !bytes.Equal(x, append(append([]byte{}, r1...), c1...)) && !bytes.Equal(x, append(append([]byte{}, r2...), c2...)) {
			rt.Fatalf("the symmetric agreement is %x, expected %x%x or %x%x", x, r1, c1, r2, c2)
		}
		other := newPair(rt, "other")
		if !bytes.Equal(other.PublicKey().Serialize(), ikA.PublicKey().Serialize()) {
			if bytes.Equal(side(ikB, ekB, other, ekA), x) {
				rt.Fatalf("the agreement does not depend on the other's identity")
			}
		}
	})
}
