package props

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// scalarKey generates private keys, random and with extreme bytes.
func scalarKey() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := kit.Bytes32().Draw(t, "key")
		switch rapid.IntRange(0, 5).Draw(t, "shape") {
		case 0: // long runs of equal bits, which carry through the recoding
			for i, n := rapid.IntRange(0, 31).Draw(t, "from"), 0; i < 32 && n < 20; i, n = i+1, n+1 {
				b[i] = rapid.SampledFrom([]byte{0x00, 0xff, 0x88, 0x77, 0x80, 0x08, 0xf8}).Draw(t, "run")
			}
		case 1:
			m := new(big.Int).Mul(ref.L, big.NewInt(int64(rapid.IntRange(4, 7).Draw(t, "mul"))))
			m.Add(m, big.NewInt(int64(rapid.IntRange(-300, 300).Draw(t, "off"))))
			b = ref.ToLE(m, 32)
		}
		return b
	})
}

func sig64(b []byte) (s [64]byte) { copy(s[:], b); return }
func arr32(b []byte) (a [32]byte) { copy(a[:], b); return }

func libPub(b []byte) ecc.ECPublicKeyable { return ecc.NewDjbECPublicKey(arr32(b)) }

// TestC22_Genuine signs with both implementations and verifies with both.
func TestC22_Genuine(t *testing.T) {
	kit.Run(t, 2600, "a non-empty message was signed and verified by both implementations", func(rt *rapid.T, c *kit.Case) {
		src := kit.Seed(rt)
		k := ecc.CreateKeyPair(scalarKey().Draw(rt, "priv"))
		priv := k.PrivateKey().Serialize()
		pub := k.PublicKey().PublicKey()
		msg := kit.Plain().Draw(rt, "msg")
		if len(msg) > 0 {
			c.Nontrivial()
		}
		c.Log("key %x message %x", priv, msg)
		in := append([]byte{}, msg...)
		s := ecc.CalculateSignature(k.PrivateKey(), in)
		if !bytes.Equal(in, msg) || k.PrivateKey().Serialize() != priv {
			rt.Fatalf("signing changed its inputs")
		}
		if !ecc.VerifySignature(k.PublicKey(), in, s) {
			rt.Fatalf("a genuine signature does not verify: key %x message %x signature %x", priv, msg, s)
		}
		if !ref.Verify(pub[:], msg, s[:]) {
			rt.Fatalf("a genuine signature does not verify with the independent verifier: key %x message %x signature %x", priv, msg, s)
		}
		r := make([]byte, 64)
		src.Read(r)
		rs := ref.Sign(priv[:], msg, r)
		if !ecc.VerifySignature(k.PublicKey(), in, sig64(rs)) {
			rt.Fatalf("a signature of the independent signer does not verify: key %x message %x signature %x", priv, msg, rs)
		}
		if !bytes.Equal(in, msg) || k.PublicKey().PublicKey() != pub {
			rt.Fatalf("verifying changed its inputs")
		}
		// The unused top bit of the public key does not matter, every other does.
		if pub[31]&0x80 != 0 {
			rt.Fatalf("the public key %x has its unused bit set", pub)
		}
	})
}

// TestC22_Forged changes one thing about a genuine signature.
func TestC22_Forged(t *testing.T) {
	one, _ := ref.DecodeEd(append([]byte{1}, make([]byte, 31)...))
	small := [][]byte{one.Encode(), ref.ToLE(new(big.Int).Sub(ref.P, big.NewInt(1)), 32), make([]byte, 32)}
	kit.Run(t, 30000, "a single change to a genuine signature, message or key", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		k := ecc.CreateKeyPair(scalarKey().Draw(rt, "priv"))
		msg := kit.Plain().Draw(rt, "msg")
		s := ecc.CalculateSignature(k.PrivateKey(), msg)
		pub := k.PublicKey()
		var what string
		m2, s2 := append([]byte{}, msg...), s
		S := new(big.Int)
		setS := func(v *big.Int) {
			top := s[63] & 0x80
			copy(s2[32:], ref.ToLE(v, 32))
			s2[63] |= top
		}
		low := append([]byte{}, s[32:]...)
		low[31] &= 0x7f
		S.Set(ref.LE(low))
		kind := rapid.IntRange(0, 13).Draw(rt, "kind")
		switch kind {
		case 0, 1, 2:
			i := rapid.IntRange(0, 511).Draw(rt, "bit")
			s2[i/8] ^= 1 << (i % 8)
			what = "bit of the signature"
		case 3, 4:
			if len(m2) > 0 {
				i := rapid.IntRange(0, 8*len(m2)-1).Draw(rt, "bit")
				m2[i/8] ^= 1 << (i % 8)
			} else {
				m2 = []byte{0}
			}
			what = "bit of the message"
		case 5:
			m2 = append(m2, rapid.Byte().Draw(rt, "more"))
			what = "longer message"
		case 6:
			if len(m2) > 0 {
				m2 = m2[:len(m2)-1]
			} else {
				m2 = []byte{1}
			}
			what = "shorter message"
		case 7:
			b := k.PublicKey().PublicKey()
			i := rapid.IntRange(0, 254).Draw(rt, "bit")
			b[i/8] ^= 1 << (i % 8)
			pub = libPub(b[:])
			what = "bit of the public key"
		case 8:
			o := ecc.CreateKeyPair(scalarKey().Draw(rt, "other"))
			if o.PublicKey().PublicKey() == pub.PublicKey() {
				o = ecc.CreateKeyPair([]byte("another key pair than the signer"))
			}
			pub = o.PublicKey()
			what = "another key"
		case 9:
			n := int64(rapid.IntRange(1, 7).Draw(rt, "times"))
			v := new(big.Int).Add(S, new(big.Int).Mul(ref.L, big.NewInt(n)))
			if v.BitLen() > 255 {
				v = new(big.Int).Add(S, ref.L)
			}
			setS(v)
			what = "scalar plus a multiple of the group order"
		case 10:
			v := new(big.Int).Sub(ref.L, S)
			if v.Cmp(S) == 0 || v.Cmp(ref.L) == 0 {
				return
			}
			setS(v)
			what = "negated scalar"
		case 11:
			copy(s2[:32], s[32:])
			copy(s2[32:], s[:32])
			what = "swapped halves"
		case 12:
			s2 = [64]byte{}
			copy(s2[:], small[rapid.IntRange(0, 2).Draw(rt, "point")])
			if rapid.Bool().Draw(rt, "keepScalar") {
				copy(s2[32:], s[32:])
			}
			what = "commitment of small order"
		case 13:
			s2 = [64]byte{}
			v := rapid.SampledFrom([]byte{0, 1, 0xff, 0x7f, 0x80}).Draw(rt, "fill")
			for i := range s2 {
				s2[i] = v
			}
			what = "constant signature"
		}
		if s2 == s && bytes.Equal(m2, msg) && pub.PublicKey() == k.PublicKey().PublicKey() {
			return
		}
		c.Nontrivial()
		c.Label(what)
		c.Log("%s: %x %x", what, m2, s2)
		if ecc.VerifySignature(pub, m2, s2) {
			rt.Fatalf("%s: message %x signature %x verifies under %x (genuine: message %x signature %x key %x)", what, m2, s2, pub.PublicKey(), msg, s, k.PublicKey().PublicKey())
		}
		if s != ([64]byte{}) && !ecc.VerifySignature(k.PublicKey(), msg, s) {
			rt.Fatalf("the genuine signature no longer verifies")
		}
	})
}

// TestC22_EveryBit flips every bit of some signatures and messages.
func TestC22_EveryBit(t *testing.T) {
	kit.Run(t, 40, "every bit of a signature, its message and its key was flipped", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		k := ecc.CreateKeyPair(kit.Bytes32().Draw(rt, "priv"))
		msg := kit.BytesN(rapid.IntRange(1, 40).Draw(rt, "len")).Draw(rt, "msg")
		s := ecc.CalculateSignature(k.PrivateKey(), msg)
		c.Nontrivial()
		c.Log("%x %x", msg, s)
		for i := 0; i < 512; i++ {
			f := s
			f[i/8] ^= 1 << (i % 8)
			if ecc.VerifySignature(k.PublicKey(), msg, f) {
				rt.Fatalf("the signature verifies with bit %d flipped", i)
			}
		}
		for i := 0; i < 8*len(msg); i++ {
			m := append([]byte{}, msg...)
			m[i/8] ^= 1 << (i % 8)
			if ecc.VerifySignature(k.PublicKey(), m, s) {
				rt.Fatalf("the signature verifies with bit %d of the message flipped", i)
			}
		}
		for i := 0; i < 255; i++ {
			b := k.PublicKey().PublicKey()
			b[i/8] ^= 1 << (i % 8)
			if ecc.VerifySignature(libPub(b[:]), msg, s) {
				rt.Fatalf("the signature verifies with bit %d of the key flipped", i)
			}
		}
	})
}

// repeating is a random source that repeats itself.
type repeating struct{ b byte }

func (r repeating) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b
	}
	return len(p), nil
}

// TestC22_Nonce checks that different messages and keys have different nonces
// although the random source repeats: two signatures with one nonce reveal the
// key.
func TestC22_Nonce(t *testing.T) {
	kit.Run(t, 12000, "two different inputs were signed with the same randomness", func(rt *rapid.T, c *kit.Case) {
		seed := rapid.Uint64().Draw(rt, "seed")
		style := rapid.IntRange(0, 2).Draw(rt, "source")
		reset := func() {
			switch style {
			case 0:
				kit.SetRand(kit.NewSource(seed))
			case 1:
				kit.SetRand(repeating{byte(seed)})
			case 2:
				s := kit.NewSource(seed)
				s.Fail = true
				kit.SetRand(s)
			}
		}
		k := ecc.CreateKeyPair(scalarKey().Draw(rt, "priv"))
		o := k
		msg := kit.Plain().Draw(rt, "msg")
		m2 := append([]byte{}, msg...)
		switch rapid.IntRange(0, 3).Draw(rt, "change") {
		case 0:
			m2 = append(m2, rapid.Byte().Draw(rt, "more"))
		case 1, 2:
			if len(m2) > 0 {
				i := rapid.IntRange(0, 8*len(m2)-1).Draw(rt, "bit")
				m2[i/8] ^= 1 << (i % 8)
			} else {
				m2 = []byte{0}
			}
		case 3:
			o = ecc.CreateKeyPair(scalarKey().Draw(rt, "other"))
		}
		if bytes.Equal(m2, msg) && o.PrivateKey().Serialize() == k.PrivateKey().Serialize() {
			return
		}
		reset()
		a := ecc.CalculateSignature(k.PrivateKey(), msg)
		reset()
		b := ecc.CalculateSignature(o.PrivateKey(), m2)
		c.Nontrivial()
		c.Log("source %d: %x %x", style, a[:8], b[:8])
		if bytes.Equal(a[:32], b[:32]) {
			rt.Fatalf("two signatures share their nonce: messages %x and %x", msg, m2)
		}
	})
}
