package props

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"testing"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// spare makes a copy with spare capacity filled with a pattern, and a check
// that neither has changed.
func spare(b []byte) ([]byte, func() bool) {
	if b == nil {
		return nil, func() bool { return true }
	}
	buf := append(append(make([]byte, 0, len(b)+40), b...), bytes.Repeat([]byte{0xa5}, 40)...)
	return buf[:len(b)], func() bool {
		return bytes.Equal(buf[:len(b)], b) && bytes.Equal(buf[len(b):], bytes.Repeat([]byte{0xa5}, 40))
	}
}

type cbcFns struct {
	name     string
	enc, dec func(iv, key, data []byte) ([]byte, error)
	noEmpty  bool
	noIV     bool
}

var cbcs = []cbcFns{
	{"Encrypt", cipher.Encrypt, cipher.Decrypt, true, false},
	{"EncryptCbc", cipher.EncryptCbc, cipher.DecryptCbc, false, true},
}

// TestC25_Standard compares encryption with the reference and inverts it.
func TestC25_Standard(t *testing.T) {
	kit.Run(t, 80000, "a plaintext was encrypted and decrypted again", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		f := cbcs[rapid.IntRange(0, 1).Draw(rt, "api")]
		key := kit.BytesN(rapid.SampledFrom([]int{32, 32, 16, 24}).Draw(rt, "keylen")).Draw(rt, "key")
		iv := kit.BytesN(16).Draw(rt, "iv")
		pt := kit.Plain().Draw(rt, "pt")
		if pt == nil {
			pt = []byte{}
		}
		if f.noIV && rapid.IntRange(0, 3).Draw(rt, "noiv") == 0 {
			iv = nil
		}
		c.Log("%s key=%x iv=%x pt=%x", f.name, key, iv, pt)
		k, okK := spare(key)
		v, okV := spare(iv)
		p, okP := spare(pt)
		ct, err := f.enc(v, k, p)
		if !okK() || !okV() || !okP() {
			rt.Fatalf("%s changed its inputs or the memory behind them", f.name)
		}
		if len(pt) == 0 && f.noEmpty {
			if err == nil && !bytes.Equal(ct, ref.EncCbc(key, iv, pt)) {
				rt.Fatalf("the empty plaintext is encrypted as %x", ct)
			}
			return // refused by design
		}
		if err != nil {
			rt.Fatalf("%s: %v", f.name, err)
		}
		c.Nontrivial()
		useIV, body := iv, ct
		if iv == nil {
			if len(ct) < 16 {
				rt.Fatalf("ciphertext %x has no vector", ct)
			}
			useIV, body = ct[:16], ct[16:]
			other, err := f.enc(nil, k, p)
			if err != nil || bytes.Equal(other[:16], ct[:16]) {
				rt.Fatalf("two encryptions share the vector %x (%v)", ct[:16], err)
			}
		}
		if want := ref.EncCbc(key, useIV, pt); !bytes.Equal(body, want) {
			rt.Fatalf("%s gives %x, expected %x", f.name, body, want)
		}
		d, okD := spare(ct)
		for i := 0; i < 2; i++ {
			back, err := f.dec(v, k, d)
			if err != nil || !bytes.Equal(back, pt) {
				rt.Fatalf("%x decrypts to %x (%v), expected %x", ct, back, err, pt)
			}
			for j := range back { // the result belongs to the caller
				back[j] ^= 0xff
			}
		}
		if !okK() || !okV() || !okD() {
			rt.Fatalf("decrypting changed its inputs or the memory behind them")
		}
	})
}

// TestC25_Malformed decrypts arbitrary and adversarially padded ciphertexts.
func TestC25_Malformed(t *testing.T) {
	kit.Run(t, 120000, "the ciphertext, key or vector is malformed", func(rt *rapid.T, c *kit.Case) {
		f := cbcs[rapid.IntRange(0, 1).Draw(rt, "api")]
		kl, il := 32, 16
		if rapid.IntRange(0, 5).Draw(rt, "badkey") == 0 {
			kl = rapid.IntRange(0, 40).Draw(rt, "keylen")
		}
		if rapid.IntRange(0, 5).Draw(rt, "badiv") == 0 {
			il = rapid.IntRange(0, 40).Draw(rt, "ivlen")
		}
		key := kit.BytesN(kl).Draw(rt, "key")
		iv := kit.BytesN(il).Draw(rt, "iv")
		if iv == nil {
			iv = []byte{}
		}
		if f.noIV && rapid.IntRange(0, 7).Draw(rt, "noiv") == 0 {
			iv = nil
		}
		var ct []byte
		goodKey := kl == 16 || kl == 24 || kl == 32
		if goodKey && (il == 16 || iv == nil) && rapid.IntRange(0, 3).Draw(rt, "padded") > 0 {
			// Chosen padding: encrypt raw blocks.
			blocks := rapid.IntRange(1, 4).Draw(rt, "blocks")
			if rapid.IntRange(0, 99).Draw(rt, "large") == 0 {
				blocks = rapid.SampledFrom([]int{15, 16, 17, 64, 255, 256, 257, 1024, 4096, 4097}).Draw(rt, "blocks")
			}
			var raw []byte
			if blocks > 4 {
				raw = make([]byte, 16*blocks)
				kit.NamedSource("raw", rapid.Uint64().Draw(rt, "raw")).Read(raw)
			} else {
				raw = kit.BytesN(16*blocks).Draw(rt, "raw")
			}
			raw = append([]byte{}, raw...)
			n := rapid.IntRange(0, 18).Draw(rt, "padlen")
			v := byte(n)
			if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
				v = rapid.Byte().Draw(rt, "v")
			}
			for i := 0; i < n && i < len(raw); i++ {
				raw[len(raw)-1-i] = v
			}
			if n > 1 && rapid.IntRange(0, 2).Draw(rt, "spoil") == 0 {
				raw[len(raw)-1-rapid.IntRange(1, n-1).Draw(rt, "at")%len(raw)] ^= byte(rapid.IntRange(1, 255).Draw(rt, "by"))
			}
			useIV := iv
			if iv == nil {
				useIV = kit.BytesN(16).Draw(rt, "inner iv")
			}
			b, _ := aes.NewCipher(key)
			ct = make([]byte, len(raw))
			stdcipher.NewCBCEncrypter(b, useIV).CryptBlocks(ct, raw)
			if iv == nil {
				ct = append(append([]byte{}, useIV...), ct...)
			}
			c.Label("chosen padding")
		} else {
			ct = kit.BytesN(rapid.IntRange(0, 70).Draw(rt, "len")).Draw(rt, "ct")
		}
		c.Log("%s key=%x iv=%x ct=%x", f.name, key, iv, ct)
		k, okK := spare(key)
		v, okV := spare(iv)
		d, okD := spare(ct)
		got, err := f.dec(v, k, d)
		if !okK() || !okV() || !okD() {
			rt.Fatalf("decrypting changed its inputs or the memory behind them")
		}
		var want []byte
		bad := !goodKey
		if !bad {
			useIV, body := iv, ct
			if iv == nil && len(ct) >= 16 {
				useIV, body = ct[:16], ct[16:]
			}
			w, e := ref.DecCbc(key, useIV, body)
			bad, want = e != nil, w
		}
		if bad {
			c.Nontrivial()
			if err == nil {
				rt.Fatalf("malformed input decrypts to %x", got)
			}
		} else {
			if err != nil && !(len(want) == 0 && f.noEmpty) {
				rt.Fatalf("valid input is refused: %v", err)
			}
			if err == nil && !bytes.Equal(got, want) {
				rt.Fatalf("decrypts to %x, expected %x", got, want)
			}
		}
		// Encrypting with bad keys and vectors is an error too.
		e, err := f.enc(v, k, []byte("text"))
		if valid := goodKey && (len(iv) == 16 || iv == nil && f.noIV); valid != (err == nil) {
			rt.Fatalf("encrypting with a key of %d and a vector of %d bytes: %x %v", len(key), len(iv), e, err)
		}
	})
}
