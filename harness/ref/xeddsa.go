package ref

import (
	"bytes"
	"crypto/sha512"
	"math/big"
)

// Edwards25519 with exact integer arithmetic.

var (
	P  = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	L  = new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 252), bigFrom("27742317777372353535851937790883648493"))
	D  = mod(new(big.Int).Mul(big.NewInt(-121665), inv(big.NewInt(121666))))
	Bp = Point{bigFrom("15112221349535400772501151409588531511454012693041857206046113283949847762202"),
		bigFrom("46316835694926478169428394003475163141307993866256225615783033603165251855960")}
)

func bigFrom(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
func mod(a *big.Int) *big.Int   { return a.Mod(a, P) }
func inv(a *big.Int) *big.Int   { return new(big.Int).ModInverse(new(big.Int).Mod(a, P), P) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}

// Point is an affine point.
type Point struct{ X, Y *big.Int }

// extended coordinates
type ext struct{ x, y, z, t *big.Int }

func toExt(p Point) ext { return ext{p.X, p.Y, big.NewInt(1), mul(p.X, p.Y)} }

// addExt is the complete twisted Edwards addition (a = -1).
func addExt(p, q ext) ext {
	a := mul(p.x, q.x)
	b := mul(p.y, q.y)
	c := mul(mul(p.t, D), q.t)
	d := mul(p.z, q.z)
	e := mul(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	e.Sub(e, a).Sub(e, b)
	mod(e)
	f := mod(new(big.Int).Sub(d, c))
	g := mod(new(big.Int).Add(d, c))
	h := mod(new(big.Int).Add(b, a))
	return ext{mul(e, f), mul(g, h), mul(f, g), mul(e, h)}
}

// ScalarMul multiplies a point.
func ScalarMul(k *big.Int, p Point) Point {
	r := ext{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	q := toExt(p)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = addExt(r, r)
		if k.Bit(i) == 1 {
			r = addExt(r, q)
		}
	}
	z := inv(r.z)
	return Point{mul(r.x, z), mul(r.y, z)}
}

// AddPoints adds two points.
func AddPoints(p, q Point) Point {
	r := addExt(toExt(p), toExt(q))
	z := inv(r.z)
	return Point{mul(r.x, z), mul(r.y, z)}
}

// LE reads a little-endian number.
func LE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// ToLE writes a little-endian number.
func ToLE(n *big.Int, size int) []byte {
	b := n.FillBytes(make([]byte, size))
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// Encode is the standard encoding of a point.
func (p Point) Encode() []byte {
	b := ToLE(p.Y, 32)
	b[31] |= byte(p.X.Bit(0)) << 7
	return b
}

// DecodeEd decodes a point, or reports failure.
func DecodeEd(b []byte) (Point, bool) {
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 0x7f
	y := LE(c)
	if y.Cmp(P) >= 0 {
		return Point{}, false
	}
	y2 := mul(y, y)
	u := mod(new(big.Int).Sub(y2, big.NewInt(1)))
	v := mod(new(big.Int).Add(mul(D, y2), big.NewInt(1)))
	x := new(big.Int).ModSqrt(mul(u, inv(v)), P)
	if x == nil {
		return Point{}, false
	}
	if x.Sign() == 0 && sign == 1 {
		return Point{}, false
	}
	if x.Bit(0) != sign {
		x = mod(new(big.Int).Neg(x))
	}
	return Point{x, y}, true
}

func hashL(parts ...[]byte) *big.Int {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return new(big.Int).Mod(LE(h.Sum(nil)), L)
}

// Sign makes a signature as Curve25519 signatures in the Signal protocol do:
// the nonce is hashed from the key, the message and randomness, and the sign
// bit of the Edwards public key is kept in the last bit of the signature.
func Sign(priv, msg, random []byte) []byte {
	a := LE(priv)
	A := ScalarMul(a, Bp).Encode()
	r := hashL(append([]byte{0xfe}, bytes.Repeat([]byte{0xff}, 31)...), priv, msg, random)
	R := ScalarMul(r, Bp).Encode()
	h := hashL(R, A, msg)
	s := new(big.Int).Mod(new(big.Int).Add(r, new(big.Int).Mul(h, a)), L)
	sig := append(append([]byte{}, R...), ToLE(s, 32)...)
	sig[63] |= A[31] & 0x80
	return sig
}

// Verify verifies a signature under an X25519 public key.
func Verify(pub, msg, sig []byte) bool {
	u := append([]byte{}, pub...)
	u[31] &= 0x7f
	x := LE(u)
	mod(x)
	den := mod(new(big.Int).Add(x, big.NewInt(1)))
	y := new(big.Int)
	if den.Sign() != 0 {
		y = mul(new(big.Int).Sub(x, big.NewInt(1)), inv(den))
	}
	Aenc := ToLE(y, 32)
	Aenc[31] |= sig[63] & 0x80
	A, ok := DecodeEd(Aenc)
	if !ok {
		return false
	}
	sb := append([]byte{}, sig[32:]...)
	sb[31] &= 0x7f
	s := LE(sb)
	if s.Cmp(L) >= 0 {
		return false
	}
	h := hashL(sig[:32], Aenc, msg)
	negA := Point{mod(new(big.Int).Neg(A.X)), A.Y}
	R := AddPoints(ScalarMul(s, Bp), ScalarMul(h, negA))
	return bytes.Equal(R.Encode(), sig[:32])
}

// MontgomeryU is the X25519 public key of an Edwards point.
func MontgomeryU(p Point) []byte {
	num := mod(new(big.Int).Add(big.NewInt(1), p.Y))
	den := mod(new(big.Int).Sub(big.NewInt(1), p.Y))
	if den.Sign() == 0 {
		return make([]byte, 32)
	}
	return ToLE(mul(num, inv(den)), 32)
}
