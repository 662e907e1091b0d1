package kit

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"log"
	mrand "math/rand/v2"
	"slices"
	"sync"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/logger"
	"pgregory.net/rapid"
)

type nullLogger struct{}

func (nullLogger) Debug(caller, message string)   {}
func (nullLogger) Info(caller, message string)    {}
func (nullLogger) Warning(caller, message string) {}
func (nullLogger) Error(caller, message string)   {}
func (nullLogger) Configure(settings string)      {}

// DefaultLogger is the library's own logger.
var DefaultLogger = logger.Logger

// SetLogger selects the library's own logger or one that does nothing.
func SetLogger(own bool) {
	var l logger.Loggable = nullLogger{}
	if own {
		l = DefaultLogger
	}
	logger.Setup(&l)
}

func init() {
	log.SetOutput(io.Discard)
	var l logger.Loggable = nullLogger{}
	logger.Setup(&l)
}

// Source is a deterministic replacement of the system's random source.
type Source struct {
	mu   sync.Mutex
	c    *mrand.ChaCha8
	Fail bool
	// FailAt makes the n-th read from now (1 is the next one) and all later
	// ones fail.
	FailAt int
	Bytes  int
	// rare are values that reads of 4 bytes give now and then, once each.
	rare []uint32
}

var ErrRand = errors.New("random source failed")

// rare ids of sending keys, which the library reads as 4 bytes.
var rare = []uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1, 127, 128, 1<<14 - 1, 1 << 14, 1<<28 - 1, 1 << 28}

func NewSource(seed uint64) *Source {
	s := newSource("source", seed)
	i := int(seed % uint64(len(rare)))
	s.rare = append(slices.Clone(rare[i:]), rare[:i]...)
	return s
}

// NamedSource makes a source for a use that differs from those of other uses.
func NamedSource(use string, seed uint64) *Source { return newSource(use, seed) }

// Different uses have different streams: rapid likes to draw equal seeds.
func newSource(use string, seed uint64) *Source {
	b := binary.LittleEndian.AppendUint64([]byte(use), seed)
	return &Source{c: mrand.NewChaCha8(sha256.Sum256(b))}
}

// SetFail makes reads fail or not, while others may read.
func (s *Source) SetFail(f bool) {
	s.mu.Lock()
	s.Fail = f
	s.mu.Unlock()
}

func (s *Source) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.FailAt > 0 {
		s.FailAt--
		s.Fail = s.Fail || s.FailAt == 0
	}
	if s.Fail {
		return 0, ErrRand
	}
	s.Bytes += len(p)
	n, err := s.c.Read(p)
	if n == 4 && len(s.rare) > 0 && p[0]%4 == 0 {
		binary.LittleEndian.PutUint32(p, s.rare[0])
		s.rare = s.rare[1:]
	}
	return n, err
}

// PeerSource draws a random source that differs from the library's.
func PeerSource(rt *rapid.T) *Source {
	return newSource("peer", rapid.Uint64().Draw(rt, "peer"))
}

// Seed makes the library's random source a function of a drawn number.
func Seed(rt *rapid.T) *Source {
	s := NewSource(rapid.Uint64().Draw(rt, "seed"))
	rand.Reader = s
	return s
}

// SetRand replaces the library's random source.
func SetRand(r io.Reader) { rand.Reader = r }

// Key draws a key pair.
func Key(rt *rapid.T, label string) *ecc.ECKeyPair {
	b := Bytes32().Draw(rt, label)
	return ecc.CreateKeyPair(b)
}

// Bytes32 generates 32 bytes, mostly random with some structure.
func Bytes32() *rapid.Generator[[]byte] { return BytesN(32) }

// BytesN generates n bytes, mostly random with some structure.
func BytesN(n int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := make([]byte, n)
		switch rapid.IntRange(0, 9).Draw(t, "style") {
		case 0:
			v := rapid.SampledFrom([]byte{0, 0xff, 1, 0x80, 0x7f}).Draw(t, "fill")
			for i := range b {
				b[i] = v
			}
		case 1:
			for i := range b {
				b[i] = rapid.Byte().Draw(t, "b")
			}
		default:
			newSource("bytes", rapid.Uint64().Draw(t, "bytes")).Read(b)
		}
		return b
	})
}

// sizes are the kinds of sizes, most of them often.
var sizes = append(slices.Repeat([]int{0, 1, 2, 3, 4, 5, 6, 7}, 10), 8)

// Plain generates message plaintexts: empty, around block sizes, and larger.
func Plain() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := 0
		switch rapid.SampledFrom(sizes).Draw(t, "size") {
		case 0:
			n = 0
		case 1, 2, 3:
			n = rapid.IntRange(1, 40).Draw(t, "n")
		case 4, 5:
			n = 16*rapid.IntRange(0, 5).Draw(t, "blocks") + rapid.IntRange(0, 2).Draw(t, "off")
		case 6:
			n = rapid.IntRange(0, 300).Draw(t, "n")
		case 7:
			n = rapid.IntRange(0, 3000).Draw(t, "n")
		case 8: // around where lengths take more bytes
			n = rapid.SampledFrom([]int{4096, 16380, 32768, 65536, 1 << 17}).Draw(t, "n") + rapid.IntRange(-20, 20).Draw(t, "off")
		}
		if n < 24 && rapid.Bool().Draw(t, "raw") {
			b := make([]byte, n)
			for i := range b {
				b[i] = rapid.SampledFrom([]byte{0, 1, 2, 8, 15, 16, 17, 0xff, 'a'}).Draw(t, "b")
			}
			return b
		}
		b := make([]byte, n)
		newSource("plain", rapid.Uint64().Draw(t, "fill")).Read(b)
		return b
	})
}
