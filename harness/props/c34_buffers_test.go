package props

import (
	"bytes"
	"testing"

	"github.com/prospik/libsignal-protocol-go/cipher"
	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/message"
	"github.com/prospik/libsignal-protocol-go/protocol"
	"github.com/prospik/libsignal-protocol-go/util/bytehelper"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"pgregory.net/rapid"
	"verif/kit"
)

func TestC34_Sessions(t *testing.T) {
	kit.Run(t, 3000, "a conversation in which every plaintext, message and record buffer is lent to the library with spare capacity, compared and overwritten right after the call, and every returned one copied and overwritten; the model decides what must still decrypt; non-trivial: at least 8 deliveries, one after a reload or in a reinitiated session", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		cv := kit.NewConv(rt, c, kit.DrawOpts(rt))
		cv.Atomic = true
		for _, p := range cv.P {
			p.Watch(func(what string) { rt.Fatalf("%s", what) })
		}
		cv.Init(rapid.IntRange(0, 1).Draw(rt, "initiator"), kit.PreKind(rapid.IntRange(0, 2).Draw(rt, "prekey")))
		cv.Keys = rapid.IntRange(0, 2).Draw(rt, "keys") == 0
		ops := kit.BasicOps()
		ops["init"], ops["reinit"], ops["close"], ops["age"] = 1, 1, 1, 1
		again, n := false, 0
		for _, o := range kit.GenOps(ops, 6, 50).Draw(rt, "ops") {
			if o.Kind == "reload" || o.Kind == "reinit" {
				again = true
			}
			if o.Kind == "reinit" && cv.Inits > 25 {
				continue
			}
			cv.Step(o)
			if k := cv.LastKey; k != nil {
				// The keys that were returned are the caller's.
				for _, b := range [][]byte{k.CipherKey(), k.MacKey(), k.Iv()} {
					kit.Overwrite(b)
				}
				cv.LastKey = nil
			}
		}
		cv.Drain(rt)
		cv.PingPong()
		for _, m := range cv.Msgs {
			if m.Delivered > 0 {
				n++
			}
		}
		if n >= 8 && again {
			c.Nontrivial()
		}
	})
}

func TestC34_Groups(t *testing.T) {
	kit.Run(t, 3000, "groups in which buffers are lent, compared and overwritten likewise; non-trivial: at least 8 deliveries, one of them late", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		g := kit.NewGroup(rt, c, 2, 4)
		g.Atomic = true
		for _, p := range g.P {
			p.Watch(func(what string) { rt.Fatalf("%s", what) })
		}
		g.Setup(rt)
		for _, o := range kit.GenGroupOps(kit.GroupOps(), 6, 50).Draw(rt, "ops") {
			g.Step(o)
		}
		g.Drain(rt)
		n := 0
		for _, m := range g.Msgs {
			for _, k := range m.Got {
				n += k
			}
		}
		if n >= 8 && g.Late > 0 {
			c.Nontrivial()
		}
	})
}

// lent gives copies of buffers with spare capacity and checks them after.
type lent struct{ full, want [][]byte }

func (l *lent) buf(b []byte) []byte {
	full := append(append([]byte{}, b...), bytes.Repeat([]byte{0xc3}, 70)...)
	l.full, l.want = append(l.full, full), append(l.want, kit.Clone(full))
	return full[:len(b)]
}

// done checks that nothing changed, and overwrites everything.
func (l *lent) done(rt *rapid.T, what string) {
	for i := range l.full {
		if !bytes.Equal(l.full[i], l.want[i]) {
			rt.Fatalf("%s changed a buffer from %x to %x", what, l.want[i], l.full[i])
		}
		kit.Overwrite(l.full[i])
	}
	l.full, l.want = nil, nil
}

func TestC34_Primitives(t *testing.T) {
	kit.Run(t, 8000, "ciphers, key derivation, key decoding, key objects, signatures and message keys on buffers with spare capacity, which are compared after the call, overwritten, and the results compared with those on fresh copies, also after overwriting results; non-trivial: at least 16 bytes of data", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		l := &lent{}
		data := kit.Plain().Draw(rt, "data")
		key, iv := kit.BytesN(32).Draw(rt, "key"), kit.BytesN(16).Draw(rt, "iv")
		op := rapid.IntRange(0, 9).Draw(rt, "operation")
		c.Log("operation %d on %d bytes %x", op, len(data), data[:min(len(data), 4)])
		if len(data) >= 16 {
			c.Nontrivial()
		}
		same := func(what string, a, b []byte) {
			if !bytes.Equal(a, b) {
				rt.Fatalf("%s gives %x on overwritten buffers, %x on others", what, a, b)
			}
		}
		switch op {
		case 0:
			ct, err := cipher.EncryptCbc(l.buf(iv), l.buf(key), l.buf(data))
			if err != nil {
				rt.Fatal(err)
			}
			keep := kit.Clone(ct)
			l.done(rt, "EncryptCbc")
			same("EncryptCbc", ct, keep)
			pt, err := cipher.DecryptCbc(l.buf(iv), l.buf(key), l.buf(ct))
			if err != nil {
				rt.Fatal(err)
			}
			l.done(rt, "DecryptCbc")
			same("DecryptCbc", pt, data)
			bad := kit.Clone(ct)
			bad[len(bad)-1] ^= 1
			cipher.DecryptCbc(l.buf(iv), l.buf(key), l.buf(bad))
			l.done(rt, "DecryptCbc of bad padding")
			cipher.DecryptCbc(nil, l.buf(key), l.buf(append(iv, ct...)))
			l.done(rt, "DecryptCbc without iv")
		case 1:
			pt := append([]byte{1}, data...)
			ct, err := cipher.Encrypt(l.buf(iv), l.buf(key), l.buf(pt))
			if err == nil {
				keep := kit.Clone(ct)
				l.done(rt, "Encrypt")
				same("Encrypt", ct, keep)
				back, err := cipher.Decrypt(l.buf(iv), l.buf(key), l.buf(ct))
				if err != nil {
					rt.Fatal(err)
				}
				keep = kit.Clone(back)
				l.done(rt, "Decrypt")
				same("Decrypt", back, keep)
			} else {
				l.done(rt, "Encrypt")
			}
		case 2:
			n := rapid.IntRange(1, 200).Draw(rt, "length")
			want, err := kdf.DeriveSecrets(kit.Clone(key), kit.Clone(iv), kit.Clone(data), n)
			if err != nil {
				rt.Fatal(err)
			}
			got, err := kdf.DeriveSecrets(l.buf(key), l.buf(iv), l.buf(data), n)
			if err != nil {
				rt.Fatal(err)
			}
			l.done(rt, "DeriveSecrets")
			same("DeriveSecrets", got, want)
		case 3:
			pair := ecc.CreateKeyPair(l.buf(key))
			l.done(rt, "CreateKeyPair")
			same("CreateKeyPair", pair.PublicKey().Serialize(), ecc.CreateKeyPair(kit.Clone(key)).PublicKey().Serialize())
			b := pair.PublicKey().Serialize()
			keep := kit.Clone(b)
			kit.Overwrite(b)
			pk := pair.PublicKey().PublicKey()
			pk[3] ^= 1
			same("Serialize", pair.PublicKey().Serialize(), keep)
			s := pair.PrivateKey().Serialize()
			ks := s
			s[4] ^= 1
			if s = pair.PrivateKey().Serialize(); s != ks {
				rt.Fatalf("the private key changed")
			}
			p, err := ecc.DecodePoint(l.buf(keep), 0)
			if err != nil {
				rt.Fatal(err)
			}
			l.done(rt, "DecodePoint")
			same("DecodePoint", p.Serialize(), keep)
		case 4:
			pair := ecc.CreateKeyPair(kit.Clone(key))
			sig := ecc.CalculateSignature(pair.PrivateKey(), l.buf(data))
			l.done(rt, "CalculateSignature")
			keep := sig
			if !ecc.VerifySignature(pair.PublicKey(), l.buf(data), sig) {
				rt.Fatalf("a signature does not verify")
			}
			l.done(rt, "VerifySignature")
			if sig != keep {
				rt.Fatalf("the signature changed")
			}
			sig[9] ^= 1
			ecc.VerifySignature(pair.PublicKey(), l.buf(data), sig)
			l.done(rt, "VerifySignature of another signature")
		case 5:
			k := message.NewKeys(kit.Clone(key), kit.Clone(key), kit.Clone(iv), 7)
			ct, err := cipher.EncryptCbc(kit.Clone(iv), kit.Clone(key), kit.Clone(data))
			if err != nil {
				rt.Fatal(err)
			}
			p := kit.NewParty(kit.Addr{Name: "p"}, kit.Serializer(rapid.Bool().Draw(rt, "json")), false)
			in, err := p.ParseSig(p.Ser.SignalMessage.Serialize(&protocol.SignalMessageStructure{
				RatchetKey: p.IDBytes(), CipherText: ct, Version: 3, Mac: make([]byte, 8)}))
			if err != nil {
				rt.Fatal(err)
			}
			for i := 0; i < 3; i++ {
				pt, err := p.Cipher(kit.Addr{Name: "x"}).DecryptWithKey(in, k)
				if err != nil {
					rt.Fatal(err)
				}
				same("DecryptWithKey", pt, data)
				kit.Overwrite(pt[:cap(pt)])
				same("Body", in.Body(), ct)
				same("CipherKey", k.CipherKey(), key)
				same("Iv", k.Iv(), iv)
			}
		case 6:
			x, y := kit.BytesN(32).Draw(rt, "local"), kit.BytesN(32).Draw(rt, "remote")
			want := fingerprint.NewDisplay(kit.Clone(x), kit.Clone(y)).DisplayText()
			d := fingerprint.NewDisplay(l.buf(x), l.buf(y))
			l.done(rt, "NewDisplay")
			if got := d.DisplayText(); got != want {
				rt.Fatalf("the fingerprint shows %s on overwritten buffers, %s on others", got, want)
			}
		case 7:
			b := keyhelper.GenerateSenderKey()
			keep := kit.Clone(b)
			other := keyhelper.GenerateSenderKey()
			kit.Overwrite(other)
			same("GenerateSenderKey", b, keep)
		case 8:
			// The helpers that cut bytes into parts give copies of them.
			x := append(kit.Clone(key), data...)
			i := rapid.IntRange(0, len(x)).Draw(rt, "first")
			j := rapid.IntRange(0, len(x)-i).Draw(rt, "second")
			k := rapid.IntRange(0, len(x)-i-j).Draw(rt, "third")
			two, want2 := bytehelper.Split(l.buf(x), i, j), [][]byte{x[:i], x[i:][:j]}
			three, err := bytehelper.SplitThree(l.buf(x), i, j, k)
			if err != nil {
				rt.Fatal(err)
			}
			want3 := [][]byte{x[:i], x[i:][:j], x[i+j:][:k]}
			trimmed, copied := bytehelper.Trim(l.buf(x), i), bytehelper.CopySlice(l.buf(x))
			a32, a64 := bytehelper.SliceToArray(l.buf(x)), bytehelper.SliceToArray64(l.buf(x))
			s32, s64 := bytehelper.ArrayToSlice(a32), bytehelper.ArrayToSlice64(a64)
			got := append(append(append([][]byte{}, two...), three...), trimmed, copied, s32, s64)
			want := append(append(append([][]byte{}, want2...), want3...), x[:i], x, append(kit.Clone(x), make([]byte, 32)...)[:32], append(kit.Clone(x), make([]byte, 64)...)[:64])
			l.done(rt, "cutting bytes")
			if len(got) != len(want) {
				rt.Fatalf("cutting gives %d parts", len(got))
			}
			for n := range got {
				same("a part", got[n], want[n])
				// Not even what lies behind a part is another one's.
				kit.Overwrite(got[n][:cap(got[n])])
			}
			same("an array", a32[:], want[len(want)-2])
			same("an array", a64[:], want[len(want)-1])
			if _, err := bytehelper.SplitThree(l.buf(x), i, j, len(x)-i-j+1); err == nil {
				rt.Fatalf("%d bytes were cut into %d, %d and the rest and one", len(x), i, j)
			}
			l.done(rt, "cutting too few bytes")
		case 9:
			// What a message tells of itself is the caller's to change.
			p := kit.NewParty(kit.Addr{Name: "p"}, kit.Serializer(rapid.Bool().Draw(rt, "json")), false)
			wire := p.Ser.SignalMessage.Serialize(&protocol.SignalMessageStructure{RatchetKey: p.IDBytes(), CipherText: append([]byte{1}, data...),
				Version: 3, Counter: 5, PreviousCounter: 6, Mac: make([]byte, 8)})
			m, err := p.ParseSig(wire)
			if err != nil {
				rt.Fatal(err)
			}
			keep := m.Serialize()
			s := m.Structure()
			s.Counter, s.PreviousCounter, s.Version = s.Counter+1, s.PreviousCounter+1, s.Version-1
			s.RatchetKey, s.CipherText, s.Mac = nil, nil, nil
			same("Serialize", m.Serialize(), keep)
			if m.Counter() != 5 || m.MessageVersion() != 3 || m.Structure().PreviousCounter != 6 {
				rt.Fatalf("changing what Structure gave changed the message: %+v", m.Structure())
			}
			same("Body", m.Body(), append([]byte{1}, data...))
		}
	})
}
