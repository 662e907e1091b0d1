package props

import (
	"bytes"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	gr "github.com/prospik/libsignal-protocol-go/groups/ratchet"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/chain"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/keys/root"
	"github.com/prospik/libsignal-protocol-go/keys/session"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

func keyBytes() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := 32
		if rapid.IntRange(0, 4).Draw(t, "otherlen") == 0 {
			n = rapid.SampledFrom([]int{0, 1, 31, 33, 63, 64, 65, 128, 200}).Draw(t, "len")
		}
		return kit.BytesN(n).Draw(t, "bytes")
	})
}

// TestC24_Hkdf compares HKDF with RFC 5869 written out.
func TestC24_Hkdf(t *testing.T) {
	kit.Run(t, 60000, "some bytes were derived", func(rt *rapid.T, c *kit.Case) {
		ikm := keyBytes().Draw(rt, "ikm")
		salt, info := keyBytes().Draw(rt, "salt"), keyBytes().Draw(rt, "info")
		if rapid.Bool().Draw(rt, "nosalt") {
			salt = nil
		}
		if rapid.IntRange(0, 3).Draw(rt, "noinfo") == 0 {
			info = nil
		}
		n := rapid.SampledFrom([]int{0, 1, 31, 32, 33, 48, 64, 80, 96, 255, 8159, 8160, 8161}).Draw(rt, "n")
		c.Log("hkdf ikm=%x salt=%x info=%x n=%d", ikm, salt, info, n)
		a, b, d := append([]byte{}, ikm...), append([]byte{}, salt...), append([]byte{}, info...)
		if salt == nil {
			b = nil
		}
		got, err := kdf.DeriveSecrets(a, b, d, n)
		if !bytes.Equal(a, ikm) || !bytes.Equal(b, salt) || !bytes.Equal(d, info) {
			rt.Fatalf("deriving changed the inputs")
		}
		if n > 255*32 {
			if err == nil {
				rt.Fatalf("%d bytes were derived, more than the function can give", n)
			}
			return
		}
		if err != nil {
			rt.Fatalf("cannot derive %d bytes: %v", n, err)
		}
		if want := ref.Hkdf(ikm, salt, info, n); !bytes.Equal(got, want) {
			rt.Fatalf("derived %x, expected %x", got, want)
		}
		if n > 0 {
			c.Nontrivial()
		}
	})
}

// TestC24_Chains walks message, root and group chains next to the reference.
func TestC24_Chains(t *testing.T) {
	kit.Run(t, 12000, "at least three steps of a chain were compared", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		ck := keyBytes().Draw(rt, "ck")
		idx := rapid.OneOf(rapid.Uint32Range(0, 5000), rapid.Uint32Range(1<<31-20, 1<<31+20), rapid.Uint32Range(1<<32-100, 1<<32-50)).Draw(rt, "index")
		n := rapid.IntRange(0, 40).Draw(rt, "steps")
		c.Log("chain %x at %d, %d steps", ck, idx, n)
		in := append([]byte{}, ck...)
		k := chain.NewKey(kdf.DeriveSecrets, in, idx)
		g := gr.NewSenderChainKey(idx, in)
		want := ck
		for i := 0; i <= n; i++ {
			if k.Index() != idx+uint32(i) || g.Iteration() != idx+uint32(i) {
				rt.Fatalf("step %d from %d has index %d and iteration %d", i, idx, k.Index(), g.Iteration())
			}
			if !bytes.Equal(k.Key(), want) || !bytes.Equal(g.Seed(), want) {
				rt.Fatalf("chain key of step %d is %x and %x, expected %x", i, k.Key(), g.Seed(), want)
			}
			for r := 0; r < 2; r++ { // reading the message keys twice gives the same
				m, w := k.MessageKeys(), ref.Keys(want)
				if !bytes.Equal(m.CipherKey(), w.Cipher) || !bytes.Equal(m.MacKey(), w.Mac) || !bytes.Equal(m.Iv(), w.Iv) || m.Index() != k.Index() {
					rt.Fatalf("message keys of step %d are wrong", i)
				}
				gm, err := g.SenderMessageKey()
				if err != nil {
					rt.Fatalf("no group message key: %v", err)
				}
				iv, key := ref.GroupKeys(want)
				if !bytes.Equal(gm.Iv(), iv) || !bytes.Equal(gm.CipherKey(), key) || gm.Iteration() != g.Iteration() || !bytes.Equal(gm.Seed(), ref.Mac(want, []byte{1})) {
					rt.Fatalf("group message key of step %d is wrong", i)
				}
			}
			if rapid.IntRange(0, 5).Draw(rt, "store") == 0 {
				k = chain.NewKeyFromStruct(chain.NewStructFromKey(k), kdf.DeriveSecrets)
				g = gr.NewSenderChainKeyFromStruct(gr.NewStructFromSenderChainKey(g))
			}
			old, oldG := k, g
			k, g = k.NextKey(), g.Next()
			if !bytes.Equal(old.Key(), want) || !bytes.Equal(oldG.Seed(), want) || old.Index() != idx+uint32(i) || oldG.Iteration() != idx+uint32(i) {
				rt.Fatalf("stepping changed the previous chain key")
			}
			want = ref.NextChain(want)
		}
		if !bytes.Equal(in, ck) {
			rt.Fatalf("the chain changed the key passed in")
		}
		if n >= 3 {
			c.Nontrivial()
		}
	})
}

// TestC24_Root compares root key steps.
func TestC24_Root(t *testing.T) {
	kit.Run(t, 8000, "a root key step was compared from both sides", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		rk := keyBytes().Draw(rt, "root")
		a, b := kit.Key(rt, "a"), kit.Key(rt, "b")
		ap, bp := a.PrivateKey().Serialize(), b.PublicKey().PublicKey()
		c.Log("root %x priv %x pub %x", rk, ap, bp)
		c.Nontrivial()
		for i := 0; i < 3; i++ {
			in := append([]byte{}, rk...)
			x, err := root.NewKey(kdf.DeriveSecrets, in).CreateChain(b.PublicKey(), a)
			if err != nil {
				rt.Fatalf("root key step: %v", err)
			}
			y, err := root.NewKey(kdf.DeriveSecrets, in).CreateChain(a.PublicKey(), b)
			if err != nil {
				rt.Fatalf("root key step of the peer: %v", err)
			}
			wr, wc := ref.RootStep(rk, ap[:], bp[:])
			for _, p := range []*session.KeyPair{x, y} {
				if !bytes.Equal(p.RootKey.Bytes(), wr) || !bytes.Equal(p.ChainKey.Key(), wc) || p.ChainKey.Index() != 0 {
					rt.Fatalf("root step gives %x and chain %x, expected %x and %x", p.RootKey.Bytes(), p.ChainKey.Key(), wr, wc)
				}
			}
			if !bytes.Equal(in, rk) {
				rt.Fatalf("the root key passed in changed")
			}
			rk = wr
			a, b = b, kit.Key(rt, "next")
			ap, bp = a.PrivateKey().Serialize(), b.PublicKey().PublicKey()
		}
		d := kit.BytesN(64).Draw(rt, "material")
		s := session.NewDerivedSecrets(append([]byte{}, d...))
		if !bytes.Equal(s.RootKey(), d[:32]) || !bytes.Equal(s.ChainKey(), d[32:]) {
			rt.Fatalf("derived secrets %x are split into %x and %x", d, s.RootKey(), s.ChainKey())
		}
		m := kit.BytesN(80).Draw(rt, "keys")
		i := rapid.Uint32().Draw(rt, "index")
		mk := message.NewKeysFromStruct(message.NewStructFromKeys(message.NewKeys(m[:32], m[32:64], m[64:], i)))
		if !bytes.Equal(mk.CipherKey(), m[:32]) || !bytes.Equal(mk.MacKey(), m[32:64]) || !bytes.Equal(mk.Iv(), m[64:]) || mk.Index() != i {
			rt.Fatalf("message keys %x/%d are not kept", m, i)
		}
		_ = ecc.KeySize
	})
}
