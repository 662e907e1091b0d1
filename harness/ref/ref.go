// Package ref is an independent implementation of the parts of the Signal
// protocol that the library implements, written from the specifications
// (X3DH, Double Ratchet, XEdDSA, sender keys, RFC 7748, RFC 5869) and the
// published version-3 wire format. It shares no code with the library.
package ref

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
)

// Hkdf is HKDF-SHA256 (RFC 5869) written out.
func Hkdf(ikm, salt, info []byte, n int) []byte {
	if len(salt) == 0 {
		salt = make([]byte, 32)
	}
	prk := Mac(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = Mac(prk, t, info, []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

// Mac is HMAC-SHA256 over the concatenation of its parts.
func Mac(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// EncCbc is AES-CBC with PKCS#7 padding.
func EncCbc(key, iv, pt []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	k := 16 - len(pt)%16
	in := append(append([]byte{}, pt...), bytes.Repeat([]byte{byte(k)}, k)...)
	out := make([]byte, len(in))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, in)
	return out
}

// DecCbc is the inverse of EncCbc.
func DecCbc(key, iv, ct []byte) ([]byte, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	if len(iv) != 16 || len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("bad length")
	}
	out := make([]byte, len(ct))
	prev := iv
	for i := 0; i < len(ct); i += 16 {
		b.Decrypt(out[i:], ct[i:i+16])
		for j := 0; j < 16; j++ {
			out[i+j] ^= prev[j]
		}
		prev = ct[i : i+16]
	}
	k := int(out[len(out)-1])
	if k < 1 || k > 16 {
		return nil, errors.New("bad padding")
	}
	for _, x := range out[len(out)-k:] {
		if int(x) != k {
			return nil, errors.New("bad padding")
		}
	}
	return out[:len(out)-k], nil
}

// Pair is an X25519 key pair.
type Pair struct{ Priv, Pub []byte }

// NewPair reads a key pair from a random source.
func NewPair(r io.Reader) Pair {
	b := make([]byte, 32)
	if _, err := io.ReadFull(r, b); err != nil {
		panic(err)
	}
	return PairOf(b)
}

// PairOf makes the key pair of a private key.
func PairOf(priv []byte) Pair {
	b := append([]byte{}, priv...)
	b[0] &= 248
	b[31] = b[31]&127 | 64
	k, err := ecdh.X25519().NewPrivateKey(b)
	if err != nil {
		panic(err)
	}
	return Pair{b, k.PublicKey().Bytes()}
}

// Enc is the wire encoding of the public key.
func (p Pair) Enc() []byte { return append([]byte{5}, p.Pub...) }

// DH is X25519. Small-order points give an all-zero result.
func DH(priv, pub []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	u, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		panic(err)
	}
	s, err := k.ECDH(u)
	if err != nil {
		return make([]byte, 32)
	}
	return s
}

// X3DHInitiator derives root and chain key at the initiator. opk may be nil.
func X3DHInitiator(ik, ek Pair, theirIK, theirSPK, theirOPK []byte) (root, chain []byte) {
	m := bytes.Repeat([]byte{0xff}, 32)
	m = append(m, DH(ik.Priv, theirSPK)...)
	m = append(m, DH(ek.Priv, theirIK)...)
	m = append(m, DH(ek.Priv, theirSPK)...)
	if theirOPK != nil {
		m = append(m, DH(ek.Priv, theirOPK)...)
	}
	k := Hkdf(m, nil, []byte("WhisperText"), 64)
	return k[:32], k[32:]
}

// X3DHResponder derives root and chain key at the responder. opk may be nil.
func X3DHResponder(ik, spk Pair, opk *Pair, theirIK, theirEK []byte) (root, chain []byte) {
	m := bytes.Repeat([]byte{0xff}, 32)
	m = append(m, DH(spk.Priv, theirIK)...)
	m = append(m, DH(ik.Priv, theirEK)...)
	m = append(m, DH(spk.Priv, theirEK)...)
	if opk != nil {
		m = append(m, DH(opk.Priv, theirEK)...)
	}
	k := Hkdf(m, nil, []byte("WhisperText"), 64)
	return k[:32], k[32:]
}

// RootStep is a Diffie-Hellman ratchet step.
func RootStep(root, priv, pub []byte) (newRoot, chain []byte) {
	k := Hkdf(DH(priv, pub), root, []byte("WhisperRatchet"), 64)
	return k[:32], k[32:]
}

// NextChain is a step of a sending or receiving chain.
func NextChain(ck []byte) []byte { return Mac(ck, []byte{2}) }

// MsgKeys are the keys of one message.
type MsgKeys struct{ Cipher, Mac, Iv []byte }

// Keys derives the message keys of a chain key.
func Keys(ck []byte) MsgKeys {
	k := Hkdf(Mac(ck, []byte{1}), nil, []byte("WhisperMessageKeys"), 80)
	return MsgKeys{k[:32], k[32:64], k[64:80]}
}

// GroupKeys derives iv and key of a group message from a group chain key.
func GroupKeys(ck []byte) (iv, key []byte) {
	k := Hkdf(Mac(ck, []byte{1}), nil, []byte("WhisperGroup"), 48)
	return k[:16], k[16:]
}

// Protocol buffers.

func putVarint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

func PutInt(b []byte, field int, v uint32) []byte {
	return putVarint(putVarint(b, uint64(field)<<3), uint64(v))
}

func PutBytes(b []byte, field int, v []byte) []byte {
	b = putVarint(b, uint64(field)<<3|2)
	b = putVarint(b, uint64(len(v)))
	return append(b, v...)
}

// Fields is a parsed message: the last value of each field.
type Fields struct {
	Ints  map[int]uint64
	Bytes map[int][]byte
}

// Parse reads a protocol buffer with varint and bytes fields.
func Parse(b []byte) (Fields, error) {
	f := Fields{map[int]uint64{}, map[int][]byte{}}
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return f, errors.New("bad tag")
		}
		b = b[n:]
		switch tag & 7 {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return f, errors.New("bad varint")
			}
			f.Ints[int(tag>>3)] = v
			b = b[n:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return f, errors.New("bad length")
			}
			f.Bytes[int(tag>>3)] = append([]byte{}, b[n:n+int(l)]...)
			b = b[n+int(l):]
		default:
			return f, errors.New("unexpected wire type")
		}
	}
	return f, nil
}
