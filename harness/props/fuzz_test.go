package props

import (
	"testing"

	"verif/kit"
)

// fuzzWorld is a world whose stores are put back after every input.
type fuzzWorld struct {
	*robustWorld
	a, b *kit.Store
}

func (w *fuzzWorld) reset() {
	w.robustWorld.a.Store.Restore(w.a.Clone())
	w.robustWorld.b.Store.Restore(w.b.Clone())
	w.robustWorld.a.Restart()
	w.robustWorld.b.Restart()
}

// FuzzC17 gives raw bytes to the parsers and operations, guided by coverage.
func FuzzC17(f *testing.F) {
	kit.SetLogger(false)
	var worlds [2]*fuzzWorld
	for i := range worlds {
		w := newRobustWorld(i == 1, 5)
		worlds[i] = &fuzzWorld{w, w.a.Store.Clone(), w.b.Store.Clone()}
		for k, kind := range robustKinds {
			for _, b := range w.ex[kind] {
				f.Add(byte(2*k+i), uint16(k), b)
			}
		}
	}
	f.Fuzz(func(t *testing.T, kind byte, n uint16, b []byte) {
		w := worlds[kind&1]
		k := robustKinds[int(kind>>1)%len(robustKinds)]
		w.reset()
		kit.SetRand(kit.NewSource(1))
		if s := attempt(func() { w.feed(k, b, int(n)%2101) }); s != "" {
			t.Fatalf("%s of %q %s", k, b, s)
		}
	})
}
