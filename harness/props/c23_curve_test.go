package props

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	ed "github.com/prospik/libsignal-protocol-go/ecc/edwards25519"
	"github.com/prospik/libsignal-protocol-go/kdf"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// ladder is X25519 of RFC 7748 with exact integers.
func ladder(scalar, u []byte) []byte {
	k := append([]byte{}, scalar...)
	k[0] &= 248
	k[31] = k[31]&127 | 64
	e := ref.LE(k)
	b := append([]byte{}, u...)
	b[31] &= 127
	m := func(x *big.Int) *big.Int { return x.Mod(x, ref.P) }
	add := func(a, b *big.Int) *big.Int { return m(new(big.Int).Add(a, b)) }
	sub := func(a, b *big.Int) *big.Int { return m(new(big.Int).Sub(a, b)) }
	mul := func(a, b *big.Int) *big.Int { return m(new(big.Int).Mul(a, b)) }
	x1 := m(ref.LE(b))
	x2, z2, x3, z3 := big.NewInt(1), big.NewInt(0), new(big.Int).Set(x1), big.NewInt(1)
	swap := uint(0)
	for t := 254; t >= 0; t-- {
		bit := e.Bit(t)
		if swap^bit == 1 {
			x2, x3, z2, z3 = x3, x2, z3, z2
		}
		swap = bit
		A := add(x2, z2)
		AA := mul(A, A)
		B := sub(x2, z2)
		BB := mul(B, B)
		E := sub(AA, BB)
		C := add(x3, z3)
		D := sub(x3, z3)
		DA := mul(D, A)
		CB := mul(C, B)
		x3 = add(DA, CB)
		x3 = mul(x3, x3)
		z3 = sub(DA, CB)
		z3 = mul(x1, mul(z3, z3))
		x2 = mul(AA, BB)
		z2 = mul(E, add(AA, mul(big.NewInt(121665), E)))
	}
	if swap == 1 {
		x2, z2 = x3, z3
	}
	if z2.Sign() == 0 {
		return make([]byte, 32)
	}
	return ref.ToLE(mul(x2, new(big.Int).ModInverse(z2, ref.P)), 32)
}

// sameU compares u-coordinates exactly, but for the known finding that the
// assembly of golang.org/x/crypto can reduce values wrongly that are within 19
// of zero modulo p: those below 19 come out with p added, and those of p-19 on
// lose their upper limbs.
func sameU(got, want []byte) bool {
	if bytes.Equal(got, want) {
		return true
	}
	w := ref.LE(want)
	if w.Cmp(new(big.Int).Sub(ref.P, big.NewInt(19))) >= 0 {
		return true
	}
	return w.Cmp(big.NewInt(19)) < 0 && ref.LE(got).Cmp(w.Add(w, ref.P)) == 0
}

// uCoord generates u-coordinates, including low-order and non-canonical ones.
func uCoord() *rapid.Generator[[]byte] {
	low := [][]byte{make([]byte, 32), append([]byte{1}, make([]byte, 31)...),
		ref.ToLE(new(big.Int).Sub(ref.P, big.NewInt(1)), 32), ref.ToLE(ref.P, 32), ref.ToLE(new(big.Int).Add(ref.P, big.NewInt(1)), 32)}
	for _, s := range []string{"325606250916557431795983626356110631294008115727848805560023387167927233504", "39382357235489614581723060781553021112529911719440698176882885853963445705823"} {
		n, _ := new(big.Int).SetString(s, 10)
		low = append(low, ref.ToLE(n, 32))
	}
	return rapid.Custom(func(t *rapid.T) []byte {
		var b []byte
		switch rapid.IntRange(0, 5).Draw(t, "shape") {
		case 0:
			b = append([]byte{}, low[rapid.IntRange(0, len(low)-1).Draw(t, "low")]...)
		case 1:
			b = ref.ToLE(new(big.Int).Add(ref.P, big.NewInt(int64(rapid.IntRange(-30, 18).Draw(t, "off")))), 32)
		case 2:
			b = append([]byte{}, ref.PairOf(kit.Bytes32().Draw(t, "of")).Pub...)
		default:
			b = kit.Bytes32().Draw(t, "u")
		}
		if rapid.IntRange(0, 3).Draw(t, "top") == 0 {
			b[31] |= 0x80
		}
		return b
	})
}

// TestC23_Agreement compares key pairs and shared secrets with X25519.
func TestC23_Agreement(t *testing.T) {
	kit.Run(t, 6000, "a shared secret was computed for a generated private and public key", func(rt *rapid.T, c *kit.Case) {
		kit.Seed(rt)
		raw := scalarKey().Draw(rt, "priv")
		u := uCoord().Draw(rt, "u")
		c.Log("priv %x u %x", raw, u)
		in := append([]byte{}, raw...)
		k := ecc.CreateKeyPair(in)
		if !bytes.Equal(in, raw) {
			rt.Fatalf("making a key pair changed the private key passed in")
		}
		p := k.PrivateKey().Serialize()
		want := ref.PairOf(raw)
		pub := k.PublicKey().PublicKey()
		if !bytes.Equal(p[:], want.Priv) {
			rt.Fatalf("private key of %x is %x", raw, p)
		}
		nine := append([]byte{9}, make([]byte, 31)...)
		if !sameU(pub[:], want.Pub) || !bytes.Equal(want.Pub, ladder(raw, nine)) {
			rt.Fatalf("public key of %x is %x, expected %x", raw, pub, want.Pub)
		}
		exact := ladder(raw, u)
		got := kdf.CalculateSharedSecret(arr32(u), p)
		if !bytes.Equal(got[:], exact) {
			c.Label("known finding: secret within 19 of zero wrongly reduced")
		}
		if !bytes.Equal(pub[:], want.Pub) {
			c.Label("known finding: public key below 19 with p added")
		}
		if !sameU(got[:], exact) {
			rt.Fatalf("shared secret of %x and %x is %x, expected %x", raw, u, got, exact)
		}
		// Unclamped private keys are clamped by the function itself.
		if got := kdf.CalculateSharedSecret(arr32(u), arr32(raw)); !sameU(got[:], exact) {
			rt.Fatalf("shared secret of the unclamped %x and %x is %x, expected %x", raw, u, got, exact)
		}
		o := ecc.CreateKeyPair(scalarKey().Draw(rt, "other"))
		a := kdf.CalculateSharedSecret(o.PublicKey().PublicKey(), p)
		b := kdf.CalculateSharedSecret(pub, o.PrivateKey().Serialize())
		if a != b && !sameU(a[:], b[:]) && !sameU(b[:], a[:]) {
			rt.Fatalf("the two sides of %x and %x share different secrets %x and %x", p, o.PrivateKey().Serialize(), a, b)
		}
		g, err := ecc.GenerateKeyPair()
		if err != nil {
			rt.Fatalf("cannot generate a key: %v", err)
		}
		gp, gpub := g.PrivateKey().Serialize(), g.PublicKey().PublicKey()
		if w := ref.PairOf(gp[:]); !bytes.Equal(w.Priv, gp[:]) || !sameU(gpub[:], w.Pub) {
			rt.Fatalf("generated key pair %x %x is inconsistent", gp, gpub)
		}
		c.Nontrivial()
	})
}

// TestC23_Encoding checks decoding of keys.
func TestC23_Encoding(t *testing.T) {
	kit.Run(t, 60000, "bytes with at least one whole key in them were decoded", func(rt *rapid.T, c *kit.Case) {
		u := uCoord().Draw(rt, "u")
		off := rapid.IntRange(-3, 40).Draw(rt, "offset")
		if rapid.IntRange(0, 9).Draw(rt, "far") == 0 {
			off = rapid.IntRange(41, 2000).Draw(rt, "far offset")
		}
		n := rapid.IntRange(0, 80).Draw(rt, "len")
		if (off > 40 || rapid.Bool().Draw(rt, "exact")) && off >= 0 {
			n = off + 33 + rapid.SampledFrom([]int{0, 0, -1, 1}).Draw(rt, "delta")
		}
		buf := kit.BytesN(max(0, n)).Draw(rt, "buf")
		if n > 0 && rapid.IntRange(0, 15).Draw(rt, "long") == 0 {
			buf = append(buf, make([]byte, 1<<rapid.IntRange(7, 17).Draw(rt, "more"))...)
		}
		typ := byte(5)
		if rapid.IntRange(0, 2).Draw(rt, "othertype") == 0 {
			typ = rapid.Byte().Draw(rt, "type")
		}
		if off >= 0 && off < len(buf) {
			buf[off] = typ
			copy(buf[off+1:], u)
		}
		in := append([]byte{}, buf...)
		c.Log("offset %d of %d bytes %x", off, len(buf), buf[:min(len(buf), 128)])
		k, err := ecc.DecodePoint(in, off)
		if !bytes.Equal(in, buf) {
			rt.Fatalf("decoding changed the bytes")
		}
		ok := off >= 0 && len(buf)-off >= 33 && buf[off] == 5
		if ok != (err == nil) {
			rt.Fatalf("decoding %x at %d: expected ok=%v, got %v", buf, off, ok, err)
		}
		if !ok {
			return
		}
		c.Nontrivial()
		want := append([]byte{}, u...)
		want[31] &= 0x7f
		p := k.PublicKey()
		if !bytes.Equal(p[:], want) {
			rt.Fatalf("%x at %d decodes to the key %x", buf, off, p)
		}
		e := k.Serialize()
		if !bytes.Equal(e, append([]byte{5}, want...)) {
			rt.Fatalf("the key %x is encoded as %x", p, e)
		}
		e[5] ^= 1
		if again, err := ecc.DecodePoint(k.Serialize(), 0); err != nil || again.PublicKey() != p {
			rt.Fatalf("the key %x does not decode from its encoding: %v", p, err)
		}
		id := identity.NewKey(k)
		if !bytes.Equal(id.Serialize(), k.Serialize()) && !bytes.Equal(id.Serialize(), p[:]) {
			rt.Fatalf("identity key %x is encoded as %x", p, id.Serialize())
		}
		if k2 := identity.NewKeyFromBytes(p, 0); k2.PublicKey().PublicKey() != p {
			rt.Fatalf("identity key from the bytes %x is %x", p, k2.PublicKey().PublicKey())
		}
		o := uCoord().Draw(rt, "v")
		ow := append([]byte{}, o...)
		ow[31] &= 0x7f
		k3, err := ecc.DecodePoint(append([]byte{5}, o...), 0)
		if err != nil || bytes.Equal(k3.Serialize(), k.Serialize()) != bytes.Equal(ow, want) {
			rt.Fatalf("encodings of %x and %x are confused", want, ow)
		}
	})
}

// fieldEl generates a field element as bytes, random or close to a limit.
func fieldEl() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		switch rapid.IntRange(0, 4).Draw(t, "shape") {
		case 0:
			return ref.ToLE(big.NewInt(int64(rapid.IntRange(0, 40).Draw(t, "small"))), 32)
		case 1:
			return ref.ToLE(new(big.Int).Add(ref.P, big.NewInt(int64(rapid.IntRange(-40, 18).Draw(t, "off")))), 32)
		case 2: // limbs of all ones or zeros
			n := new(big.Int)
			at := uint(0)
			for i := 0; i < 10; i++ {
				w := uint(26 - i%2)
				v := rapid.SampledFrom([]int64{0, 1, 1<<w - 1, 1<<w - 2, 1 << (w - 1), 1<<(w-1) - 1}).Draw(t, "limb")
				n.Or(n, new(big.Int).Lsh(big.NewInt(v), at))
				at += w
			}
			return ref.ToLE(n, 32)
		}
		b := kit.Bytes32().Draw(t, "fe")
		b[31] &= 0x7f
		return b
	})
}

// TestC23_Field compares field operations with exact integers.
func TestC23_Field(t *testing.T) {
	kit.Run(t, 60000, "field operations on two generated elements", func(rt *rapid.T, c *kit.Case) {
		a, b := fieldEl().Draw(rt, "a"), fieldEl().Draw(rt, "b")
		c.Log("%x %x", a, b)
		c.Nontrivial()
		A, B := ref.LE(a), ref.LE(b)
		load := func(x []byte) (f ed.FieldElement) { y := arr32(x); ed.FeFromBytes(&f, &y); return }
		val := func(f ed.FieldElement) *big.Int {
			var s [32]byte
			g := f
			ed.FeToBytes(&s, &g)
			v := ref.LE(s[:])
			if v.Cmp(ref.P) >= 0 {
				rt.Fatalf("not reduced: %x", s)
			}
			return v
		}
		check := func(op string, f ed.FieldElement, want *big.Int) {
			w := new(big.Int).Mod(want, ref.P)
			if val(f).Cmp(w) != 0 {
				rt.Fatalf("%s of %x and %x is %x, expected %x", op, A, B, val(f), w)
			}
		}
		x, y := load(a), load(b)
		var z, w ed.FieldElement
		check("value", x, A)
		ed.FeAdd(&z, &x, &y)
		check("sum", z, new(big.Int).Add(A, B))
		ed.FeSub(&w, &x, &y)
		check("difference", w, new(big.Int).Sub(A, B))
		var m ed.FieldElement
		ed.FeMul(&m, &x, &y)
		check("product", m, new(big.Int).Mul(A, B))
		ed.FeMul(&m, &z, &w)
		check("product of sum and difference", m, new(big.Int).Sub(new(big.Int).Mul(A, A), new(big.Int).Mul(B, B)))
		ed.FeSquare(&m, &z)
		check("square", m, new(big.Int).Exp(new(big.Int).Add(A, B), big.NewInt(2), nil))
		ed.FeSquare2(&m, &w)
		d := new(big.Int).Sub(A, B)
		check("doubled square", m, new(big.Int).Mul(big.NewInt(2), new(big.Int).Mul(d, d)))
		ed.FeNeg(&m, &x)
		check("negative", m, new(big.Int).Neg(A))
		ed.FeInvert(&m, &x)
		iv := new(big.Int).ModInverse(new(big.Int).Mod(A, ref.P), ref.P)
		if iv == nil {
			iv = new(big.Int)
		}
		check("inverse", m, iv)
		am := new(big.Int).Mod(A, ref.P)
		if (ed.FeIsNonZero(&x) == 1) != (am.Sign() != 0) {
			rt.Fatalf("is-non-zero of %x is wrong", A)
		}
		if uint(ed.FeIsNegative(&x)) != am.Bit(0) {
			rt.Fatalf("sign of %x is wrong", A)
		}
		f := x
		ed.FeCMove(&f, &y, 0)
		check("unmoved", f, A)
		ed.FeCMove(&f, &y, 1)
		check("moved", f, B)
		// Results may overwrite an operand.
		f = x
		ed.FeMul(&f, &f, &y)
		check("product in place", f, new(big.Int).Mul(A, B))
		f = x
		ed.FeSquare(&f, &f)
		check("square in place", f, new(big.Int).Mul(A, A))
		check("first operand afterwards", x, A)
		check("second operand afterwards", y, B)
	})
}

// TestC23_Scalars compares operations modulo the group order.
func TestC23_Scalars(t *testing.T) {
	wide := func() *rapid.Generator[[]byte] {
		return rapid.Custom(func(t *rapid.T) []byte {
			switch rapid.IntRange(0, 4).Draw(t, "shape") {
			case 0:
				n := new(big.Int).Mul(ref.L, ref.LE(kit.Bytes32().Draw(t, "mul")))
				n.Add(n, big.NewInt(int64(rapid.IntRange(0, 60).Draw(t, "off"))))
				n.Sub(n, big.NewInt(int64(rapid.IntRange(0, 60).Draw(t, "back"))))
				if n.Sign() < 0 {
					n.Neg(n)
				}
				return ref.ToLE(n, 64)
			case 1: // 21-bit limbs of all ones or zeros
				n := new(big.Int)
				for i := uint(0); i < 24; i++ {
					v := rapid.SampledFrom([]int64{0, 1, 1<<21 - 1, 1 << 20, 1<<20 - 1}).Draw(t, "limb")
					n.Or(n, new(big.Int).Lsh(big.NewInt(v), 21*i))
				}
				return ref.ToLE(n, 64)
			}
			return kit.BytesN(64).Draw(t, "wide")
		})
	}
	kit.Run(t, 60000, "scalar operations on generated numbers", func(rt *rapid.T, c *kit.Case) {
		w := wide().Draw(rt, "wide")
		a, b, d := wide().Draw(rt, "a")[:32], wide().Draw(rt, "b")[32:], kit.Bytes32().Draw(rt, "c")
		c.Log("%x %x %x", w, a, b)
		c.Nontrivial()
		var in [64]byte
		copy(in[:], w)
		var out [32]byte
		ed.ScReduce(&out, &in)
		if want := new(big.Int).Mod(ref.LE(w), ref.L); ref.LE(out[:]).Cmp(want) != 0 {
			rt.Fatalf("%x reduces to %x, expected %x", w, out, ref.ToLE(want, 32))
		}
		x, y, z := arr32(a), arr32(b), arr32(d)
		ed.ScMulAdd(&out, &x, &y, &z)
		want := new(big.Int).Mul(ref.LE(a), ref.LE(b))
		want.Add(want, ref.LE(d)).Mod(want, ref.L)
		if ref.LE(out[:]).Cmp(want) != 0 {
			rt.Fatalf("%x*%x+%x is %x, expected %x", a, b, d, out, ref.ToLE(want, 32))
		}
		if x != arr32(a) || y != arr32(b) || z != arr32(d) || !bytes.Equal(in[:], w) {
			rt.Fatalf("operands changed")
		}
	})
}

// TestC23_Group compares group operations with exact integers.
func TestC23_Group(t *testing.T) {
	kit.Run(t, 1600, "a scalar multiple of the base point, its double and encodings", func(rt *rapid.T, c *kit.Case) {
		k := scalarKey().Draw(rt, "k")
		k[31] &= 0x7f
		if rapid.IntRange(0, 4).Draw(rt, "tiny") == 0 {
			k = ref.ToLE(big.NewInt(int64(rapid.IntRange(0, 70000).Draw(rt, "small"))), 32)
		}
		c.Log("%x", k)
		c.Nontrivial()
		enc := func(p ed.ExtendedGroupElement) (b [32]byte) { p.ToBytes(&b); return }
		var h ed.ExtendedGroupElement
		in := arr32(k)
		ed.GeScalarMultBase(&h, &in)
		p := ref.ScalarMul(ref.LE(k), ref.Bp)
		if e := enc(h); !bytes.Equal(e[:], p.Encode()) {
			rt.Fatalf("%x times the base point is %x, expected %x", k, e, p.Encode())
		}
		var d ed.CompletedGroupElement
		var h2 ed.ExtendedGroupElement
		h.Double(&d)
		d.ToExtended(&h2)
		if e := enc(h2); !bytes.Equal(e[:], ref.AddPoints(p, p).Encode()) {
			rt.Fatalf("the double of %x is %x", p.Encode(), e)
		}
		var q ed.ProjectiveGroupElement
		var qb [32]byte
		d.ToProjective(&q)
		q.ToBytes(&qb)
		if !bytes.Equal(qb[:], ref.AddPoints(p, p).Encode()) {
			rt.Fatalf("the projective double of %x is %x", p.Encode(), qb)
		}
		// Decoding gives the negative or the point itself, always the same one.
		e := enc(h)
		if rapid.IntRange(0, 2).Draw(rt, "alter") == 0 {
			e[rapid.IntRange(0, 31).Draw(rt, "at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(rt, "bit"))
		}
		var back ed.ExtendedGroupElement
		x, canonical := ref.DecodeEd(e[:])
		got := back.FromBytes(&e)
		if canonical {
			if !got {
				rt.Fatalf("%x does not decode", e)
			}
			if r := enc(back); !bytes.Equal(r[:], x.Encode()) {
				rt.Fatalf("%x decodes to %x", e, r)
			}
		}
		// u-coordinate of the Edwards point is the X25519 public key.
		pub := ecc.CreateKeyPair(k).PublicKey().PublicKey()
		cl := append([]byte{}, k...)
		cl[0] &= 248
		cl[31] = cl[31]&127 | 64
		if !sameU(pub[:], ref.MontgomeryU(ref.ScalarMul(ref.LE(cl), ref.Bp))) {
			rt.Fatalf("public key of %x is %x", cl, pub)
		}
	})
}
