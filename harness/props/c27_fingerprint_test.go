package props

import (
	"bytes"
	"fmt"
	"sort"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/fingerprint"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"pgregory.net/rapid"
	"verif/kit"
)

// thirty is the specified display of one fingerprint: six groups of five
// digits, each five bytes read as a big-endian number modulo 100000.
func thirty(fp []byte) string {
	out := make([]byte, 0, 30)
	for i := 0; i < 6; i++ {
		n := uint64(0)
		for _, b := range fp[5*i : 5*i+5] {
			n = (n*256 + uint64(b))
		}
		n %= 100000
		g := make([]byte, 5)
		for j := 4; j >= 0; j-- {
			g[j] = byte('0' + n%10)
			n /= 10
		}
		out = append(out, g...)
	}
	return string(out)
}

func display(a, b []byte) string { return fingerprint.NewDisplay(a, b).DisplayText() }

// TestC27_Display compares the display with the specification.
func TestC27_Display(t *testing.T) {
	fp := rapid.Custom(func(t *rapid.T) []byte {
		b := append([]byte{}, kit.BytesN(rapid.SampledFrom([]int{30, 30, 32, 33, 64}).Draw(t, "len")).Draw(t, "fp")...)
		switch rapid.IntRange(0, 3).Draw(t, "shape") {
		case 0: // groups with small values, which need padding
			for i := 0; i < 6; i++ {
				n := rapid.SampledFrom([]uint64{0, 1, 9, 10, 99, 99999, 100000, 100001, 65536, 1<<40 - 1, 1 << 39, 99999 + 100000*11}).Draw(t, "group")
				for j := 0; j < 5; j++ {
					b[5*i+4-j] = byte(n >> (8 * j))
				}
			}
		}
		return b
	})
	kit.Run(t, 120000, "two different fingerprints and a change of one of their bytes", func(rt *rapid.T, c *kit.Case) {
		a, b := fp.Draw(rt, "a"), fp.Draw(rt, "b")
		if rapid.IntRange(0, 3).Draw(rt, "common") == 0 { // differ late only
			copy(b, a[:rapid.IntRange(0, 29).Draw(rt, "prefix")])
		}
		c.Log("%x %x", a, b)
		x, y := append([]byte{}, a...), append([]byte{}, b...)
		got := display(x, y)
		if !bytes.Equal(x, a) || !bytes.Equal(y, b) {
			rt.Fatalf("the display changed the fingerprints")
		}
		h := []string{thirty(a), thirty(b)}
		sort.Strings(h)
		if want := h[0] + h[1]; got != want {
			rt.Fatalf("the number of %x and %x is %s, expected %s", a, b, got, want)
		}
		if o := display(b, a); o != got {
			rt.Fatalf("the other side of %x and %x sees %s instead of %s", a, b, o, got)
		}
		d := fingerprint.NewFingerprint(fingerprint.NewDisplay(a, b))
		if d.Display().DisplayText() != got {
			rt.Fatalf("the fingerprint displays %s instead of %s", d.Display().DisplayText(), got)
		}
		i, by := rapid.IntRange(0, 29).Draw(rt, "at"), byte(rapid.IntRange(1, 255).Draw(rt, "by"))
		m := append([]byte{}, a...)
		m[i] ^= by
		if thirty(m) != thirty(a) && display(m, b) == got {
			// The halves might merely have been exchanged.
			g := []string{thirty(m), thirty(b)}
			sort.Strings(g)
			if g[0]+g[1] != got {
				rt.Fatalf("changing byte %d of %x does not change the number %s", i, a, got)
			}
		}
		if !bytes.Equal(a, b) {
			c.Nontrivial()
		}
	})
}

// TestC27_IdentityText compares the text of an identity key with the specification.
func TestC27_IdentityText(t *testing.T) {
	kit.Run(t, 20000, "the texts of two identity keys, often equal but for one byte, read twice; non-trivial: different keys", func(rt *rapid.T, c *kit.Case) {
		var a, b [32]byte
		copy(a[:], kit.Bytes32().Draw(rt, "a"))
		a[31] &= 0x7f
		b = a
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0:
			copy(b[:], kit.Bytes32().Draw(rt, "b"))
			b[31] &= 0x7f
		case 1:
		default:
			b[rapid.IntRange(0, 30).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "by"))
		}
		c.Log("%x %x", a, b)
		x, y := identity.NewKey(ecc.NewDjbECPublicKey(a)), identity.NewKeyFromBytes(b, 0)
		for i := 0; i < 2; i++ {
			if got, want := x.Fingerprint(), fmt.Sprintf("05%x", a); got != want {
				rt.Fatalf("the text of %x is %s", a, got)
			}
			if got, want := y.Fingerprint(), fmt.Sprintf("05%x", b); got != want {
				rt.Fatalf("the text of %x is %s", b, got)
			}
		}
		if a != b {
			c.Nontrivial()
		}
	})
}
