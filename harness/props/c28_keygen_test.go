package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
	"pgregory.net/rapid"
	"verif/kit"
	"verif/ref"
)

// stream is a random source with a chosen beginning, delivered in pieces.
type stream struct {
	head  []byte
	piece int
	rest  io.Reader
	left  int // bytes until it fails, or negative
	err   error
	short bool // the failing read still delivers some bytes
}

func (s *stream) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.piece > 0 && len(p) > s.piece {
		p = p[:s.piece]
	}
	if s.left >= 0 && len(p) > s.left {
		if s.left == 0 || !s.short {
			s.left = 0
			return 0, s.err
		}
		p = p[:s.left]
	}
	n := copy(p, s.head)
	s.head = s.head[n:]
	if n < len(p) {
		io.ReadFull(s.rest, p[n:])
	}
	if s.left >= 0 {
		s.left -= len(p)
	}
	return len(p), nil
}

func drawStream(rt *rapid.T) *stream {
	s := &stream{rest: kit.NewSource(rapid.Uint64().Draw(rt, "seed")), left: -1}
	n := rapid.SampledFrom([]int{0, 1, 2, 31, 32, 33, 64, 100}).Draw(rt, "headlen")
	s.head = append([]byte{}, kit.BytesN(n).Draw(rt, "head")...)
	s.piece = rapid.SampledFrom([]int{0, 0, 1, 7, 31, 32}).Draw(rt, "piece")
	return s
}

func checkPair(rt *rapid.T, what string, k *ecc.ECKeyPair) {
	p, pub := k.PrivateKey().Serialize(), k.PublicKey().PublicKey()
	w := ref.PairOf(p[:])
	if !bytes.Equal(w.Priv, p[:]) {
		rt.Fatalf("%s: the private key %x is not a valid one", what, p)
	}
	if !sameU(pub[:], w.Pub) {
		rt.Fatalf("%s: the public key of %x is %x", what, p, pub)
	}
}

// TestC28_Valid generates all kinds of keys from all kinds of random streams.
func TestC28_Valid(t *testing.T) {
	kit.Run(t, 4000, "keys of every kind were generated", func(rt *rapid.T, c *kit.Case) {
		s := drawStream(rt)
		c.Log("stream %x pieces of %d", s.head, s.piece)
		plain := len(s.head) == 0
		ser := kit.Serializer(rapid.Bool().Draw(rt, "json"))
		kit.SetRand(s)
		seen := map[[32]byte]string{}
		use := func(what string, k *ecc.ECKeyPair, err error) {
			if err != nil {
				rt.Fatalf("%s: %v", what, err)
			}
			checkPair(rt, what, k)
			p := k.PrivateKey().Serialize()
			if o := seen[p]; o != "" && plain {
				rt.Fatalf("%s and %s have the same key", o, what)
			}
			seen[p] = what
		}
		id, err := keyhelper.GenerateIdentityKeyPair()
		if err != nil {
			rt.Fatalf("%v", err)
		}
		use("identity", ecc.NewECKeyPair(id.PublicKey().PublicKey(), id.PrivateKey()), nil)
		start := rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 0xffffff-50), rapid.IntRange(0xffffff-50, 0xffffff+50), rapid.IntRange(0, 0xffffffff-300), rapid.IntRange(0xfe00, 0x10100)).Draw(rt, "start")
		count := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 3, 10, 40}).Draw(rt, "count")
		if rapid.IntRange(0, 40).Draw(rt, "large") == 7 {
			count = rapid.SampledFrom([]int{100, 101, 129, 257}).Draw(rt, "many")
		}
		ks, err := keyhelper.GeneratePreKeys(start, count, ser.PreKeyRecord)
		if err != nil || len(ks) != count {
			rt.Fatalf("asked for %d prekeys from %d and got %d (%v)", count, start, len(ks), err)
		}
		for i, k := range ks {
			if k.ID().IsEmpty || k.ID().Value != uint32(start+i) {
				rt.Fatalf("prekey %d from %d has the id %v", i, start, k.ID())
			}
			use(fmt.Sprintf("prekey %d", i), k.KeyPair(), nil)
		}
		l, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
		if err != nil || l.ID().IsEmpty || l.ID().Value != 0xffffff {
			rt.Fatalf("the last resort key has the id %v (%v)", l.ID(), err)
		}
		use("last resort key", l.KeyPair(), nil)
		spkID := rapid.Uint32().Draw(rt, "spkid")
		sp, err := keyhelper.GenerateSignedPreKey(id, spkID, ser.SignedPreKeyRecord)
		if err != nil || sp.ID() != spkID {
			rt.Fatalf("signed prekey %d has the id %d (%v)", spkID, sp.ID(), err)
		}
		use("signed prekey", sp.KeyPair(), nil)
		sig := sp.Signature()
		pub := id.PublicKey().PublicKey().PublicKey()
		if !ecc.VerifySignature(id.PublicKey().PublicKey(), sp.KeyPair().PublicKey().Serialize(), sig) || !ref.Verify(pub[:], sp.KeyPair().PublicKey().Serialize(), sig[:]) {
			rt.Fatalf("the signature of the signed prekey does not verify")
		}
		sk, err := keyhelper.GenerateSenderSigningKey()
		use("sender signing key", sk, err)
		a, b := keyhelper.GenerateSenderKey(), keyhelper.GenerateSenderKey()
		if len(a) != 32 || len(b) != 32 || bytes.Equal(a, b) && plain {
			rt.Fatalf("sender keys %x and %x", a, b)
		}
		for i := 0; i < 5; i++ {
			if r := keyhelper.GenerateRegistrationID(); r < 1 || r > 16380 {
				rt.Fatalf("registration id %d", r)
			}
		}
		if count > 0 {
			c.Nontrivial()
		}
	})
}

// TestC28_RegistrationRange feeds extreme bytes to registration ids.
func TestC28_RegistrationRange(t *testing.T) {
	kit.Run(t, 60000, "a registration id from chosen random bytes", func(rt *rapid.T, c *kit.Case) {
		s := &stream{rest: kit.NewSource(rapid.Uint64().Draw(rt, "seed")), left: -1}
		n := rapid.IntRange(0, 12).Draw(rt, "n")
		for i := 0; i < n; i++ {
			s.head = append(s.head, rapid.SampledFrom([]byte{0, 0xff, 0x3f, 0xfb, 0xfc, 0xfd, 0xfe, 1, 0x40, 0x80}).Draw(rt, "b"))
		}
		h := append([]byte{}, s.head...)
		kit.SetRand(s)
		r := keyhelper.GenerateRegistrationID()
		c.Log("%x gives %d", h, r)
		c.Nontrivial()
		if r < 1 || r > 16380 {
			rt.Fatalf("random bytes %x give the registration id %d", h, r)
		}
	})
}

// TestC28_Entropy changes one bit of the random stream.
func TestC28_Entropy(t *testing.T) {
	kit.Run(t, 12000, "two streams that differ in one bit", func(rt *rapid.T, c *kit.Case) {
		head := append([]byte{}, kit.BytesN(32).Draw(rt, "head")...)
		bit := rapid.IntRange(0, 255).Draw(rt, "bit")
		seed := rapid.Uint64().Draw(rt, "seed")
		piece := rapid.SampledFrom([]int{0, 1, 16, 31}).Draw(rt, "piece")
		kind := rapid.IntRange(0, 5).Draw(rt, "kind")
		gen := func(flip bool) (k []byte) {
			h := append([]byte{}, head...)
			if flip {
				h[bit/8] ^= 1 << (bit % 8)
			}
			kit.SetRand(&stream{head: h, piece: piece, rest: kit.NewSource(seed), left: -1})
			ser := kit.Serializer(false)
			var kp *ecc.ECKeyPair
			switch kind {
			case 0:
				x, err := keyhelper.GenerateIdentityKeyPair()
				if err != nil {
					rt.Fatalf("%v", err)
				}
				p := x.PrivateKey().Serialize()
				return p[:]
			case 1:
				x, err := keyhelper.GeneratePreKeys(1, 1, ser.PreKeyRecord)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				kp = x[0].KeyPair()
			case 2:
				x, err := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				kp = x.KeyPair()
			case 3:
				return keyhelper.GenerateSenderKey()
			case 4:
				x, err := keyhelper.GenerateSenderSigningKey()
				if err != nil {
					rt.Fatalf("%v", err)
				}
				kp = x
			case 5:
				x, err := ecc.GenerateKeyPair()
				if err != nil {
					rt.Fatalf("%v", err)
				}
				kp = x
			}
			p := kp.PrivateKey().Serialize()
			return p[:]
		}
		a, b := gen(false), gen(true)
		c.Log("kind %d bit %d of %x", kind, bit, head)
		// Five bits of a private key are fixed.
		if kind != 3 && (bit < 3 || bit >= 254) {
			return
		}
		c.Nontrivial()
		if bytes.Equal(a, b) {
			rt.Fatalf("bit %d of the random bytes does not matter: %x", bit, a)
		}
		if again := gen(false); !bytes.Equal(a, again) {
			c.Label("not a function of the source")
		}
	})
}

// TestC28_Failing makes the random source fail after some bytes.
func TestC28_Failing(t *testing.T) {
	kit.Run(t, 12000, "the random source failed before enough bytes for a key", func(rt *rapid.T, c *kit.Case) {
		s := drawStream(rt)
		s.head = nil
		good := kit.NewSource(1)
		kit.SetRand(good)
		id, _ := keyhelper.GenerateIdentityKeyPair()
		s.left = rapid.IntRange(0, 31).Draw(rt, "left")
		s.err = rapid.SampledFrom([]error{errors.New("broken"), io.EOF, io.ErrUnexpectedEOF}).Draw(rt, "err")
		s.short = rapid.Bool().Draw(rt, "short")
		extra := 0
		kind := rapid.IntRange(0, 6).Draw(rt, "kind")
		if kind == 1 {
			extra = rapid.IntRange(0, 4).Draw(rt, "before") // whole keys of the batch before the failure
			s.left += 32 * extra
		}
		left := s.left
		kit.SetRand(s)
		defer kit.SetRand(good)
		ser := kit.Serializer(false)
		var err error
		var got interface{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			switch kind {
			case 0:
				x, e := keyhelper.GenerateIdentityKeyPair()
				got, err = x, e
			case 1:
				x, e := keyhelper.GeneratePreKeys(5, extra+rapid.IntRange(1, 3).Draw(rt, "more"), ser.PreKeyRecord)
				got, err = x, e
			case 2:
				x, e := keyhelper.GenerateLastResortKey(ser.PreKeyRecord)
				got, err = x, e
			case 3:
				x, e := keyhelper.GenerateSignedPreKey(id, 3, ser.SignedPreKeyRecord)
				got, err = x, e
			case 4:
				x, e := keyhelper.GenerateSenderSigningKey()
				got, err = x, e
			case 5:
				x, e := ecc.GenerateKeyPair()
				got, err = x, e
			case 6:
				if s.left > 1 {
					s.left = rapid.IntRange(0, 1).Draw(rt, "few")
				}
				got = keyhelper.GenerateRegistrationID()
			}
		}()
		c.Log("kind %d fails after %d bytes (%v, short=%v)", kind, left, s.err, s.short)
		c.Nontrivial()
		if err == nil {
			rt.Fatalf("kind %d: the random source failed after %d bytes, but the result is %v", kind, left, got)
		}
	})
}

// TestC28_SenderKeyFailing makes the source fail while generating a sender
// key. The library may end the process, so this runs in another one.
func TestC28_SenderKeyFailing(t *testing.T) {
	n := 0
	var samples []string
	for _, left := range []int{0, 1, 16, 31} {
		for _, short := range []bool{false, true} {
			cmd := exec.Command(os.Args[0], "-test.run=^TestChild$")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=%d/%v", left, short), "VERIF_STATS_FILE=")
			out, _ := cmd.CombinedOutput()
			if strings.Contains(string(out), "GENERATED") {
				t.Fatalf("the random source failed after %d bytes (short=%v), and yet: %s", left, short, out)
			}
			if !strings.Contains(string(out), "STARTED") {
				t.Skipf("cannot run the child process: %s", out)
			}
			samples = append(samples, fmt.Sprintf("sender key, source fails after %d bytes, short=%v: not generated", left, short))
			n++
		}
	}
	kit.RecordExhaustive(t.Name(), "sender key generation with a failing source in a child process", n, samples[0])
}

func TestChild(t *testing.T) {
	v := os.Getenv("VERIF_CHILD")
	if v == "" {
		return
	}
	s := &stream{rest: kit.NewSource(1), err: errors.New("broken")}
	fmt.Sscanf(v, "%d/%t", &s.left, &s.short)
	kit.SetRand(s)
	fmt.Println("STARTED")
	k := keyhelper.GenerateSenderKey()
	fmt.Printf("GENERATED %x\n", k)
}

// TestC28_SenderKeyIDs looks at how the ids of sending keys are spread.
func TestC28_SenderKeyIDs(t *testing.T) {
	kit.Run(t, 300, "64 ids of sending keys from a random source of generated seed, delivered in pieces: at most two are equal to others, and they are spread over the whole range; non-trivial: all", func(rt *rapid.T, c *kit.Case) {
		s := drawStream(rt)
		s.head = nil
		kit.SetRand(s)
		seen, or, and := map[uint32]bool{}, uint32(0), ^uint32(0)
		for i := 0; i < 64; i++ {
			id := keyhelper.GenerateSenderKeyID()
			seen[id] = true
			or |= id
			and &= id
		}
		c.Log("%d ids, bits %08x to %08x", len(seen), and, or)
		c.Nontrivial()
		if len(seen) < 62 || or&0x7fffffff != 0x7fffffff || and != 0 {
			rt.Fatalf("of 64 ids of sending keys %d differ; bits that are set in some: %08x, in all: %08x", len(seen), or, and)
		}
	})
}
