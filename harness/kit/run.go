// Package kit holds what the property tests share: running and counting
// cases, deterministic randomness, stores with fault injection, parties and
// a model of conversations.
package kit

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case records what one generated case did, for the evidence.
type Case struct {
	h          uint64
	log        strings.Builder
	nlog       int
	nontrivial bool
	labels     map[string]int
}

// Log adds a step to the trace of the case. The trace identifies the case
// (distinct traces are distinct cases) and is shown as a sample.
func (c *Case) Log(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], c.h)
	h.Write(b[:])
	h.Write([]byte(s))
	c.h = h.Sum64()
	if c.log.Len() < 600 {
		if c.nlog > 0 {
			c.log.WriteString("; ")
		}
		c.log.WriteString(s)
	} else if !strings.HasSuffix(c.log.String(), "...") {
		c.log.WriteString(" ...")
	}
	c.nlog++
}

// Label counts a classification of the case.
func (c *Case) Label(l string) { c.labels[l]++ }

// Nontrivial marks the case as non-trivial by the rule of the test.
func (c *Case) Nontrivial() { c.nontrivial = true }

// NewCase makes a case that is not counted, for parts of one.
func NewCase() *Case { return &Case{labels: map[string]int{}} }

// PartTB lets a part of a case run in its own goroutine: failures are
// collected instead of ending the test at once.
type PartTB struct {
	rapid.TB
	Failure string
}

type partFailed struct{}

func (p *PartTB) Helper() {}
func (p *PartTB) Fatalf(format string, args ...interface{}) {
	p.Failure = fmt.Sprintf(format, args...)
	panic(partFailed{})
}
func (p *PartTB) Fatal(args ...interface{}) { p.Fatalf("%s", fmt.Sprint(args...)) }

// Run runs f until it ends or fails.
func (p *PartTB) Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(partFailed); !ok {
				p.Failure = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}
	}()
	f()
}

type testStats struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      string         `json:"hashes"` // base64 of little endian uint64s of distinct nontrivial cases
	Labels      map[string]int `json:"labels"` // number of cases with the label
	Samples     []string       `json:"samples"`
	hashes      map[uint64]bool
}

var (
	statsMu sync.Mutex
	stats   = map[string]*testStats{}
)

func envFloat(name string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil && v > 0 {
		return v
	}
	return def
}

// Thorough says whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Checks scales a quick number of cases to this process's share of them.
func Checks(n int) int {
	k := int(float64(n)*envFloat("VERIF_SCALE", 1)/envFloat("VERIF_SHARDS", 1) + 0.999)
	if k < 1 {
		k = 1
	}
	return k
}

// Run checks the property f on n generated cases (in the quick tier, over all
// shards together).
func Run(t *testing.T, n int, rule string, f func(rt *rapid.T, c *Case)) {
	t.Helper()
	if err := flag.Set("rapid.checks", strconv.Itoa(Checks(n))); err != nil {
		t.Fatal(err)
	}
	name := t.Name()
	st := &testStats{Rule: rule, Labels: map[string]int{}, hashes: map[uint64]bool{}}
	statsMu.Lock()
	stats[name] = st
	statsMu.Unlock()
	defer writeStats()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{labels: map[string]int{}, h: 14695981039346656037}
		defer watch(name)()
		f(rt, c)
		statsMu.Lock()
		defer statsMu.Unlock()
		st.Evaluations++
		for l := range c.labels {
			st.Labels[l]++
		}
		if c.nontrivial && !st.hashes[c.h] {
			st.hashes[c.h] = true
			k := len(st.hashes)
			if len(st.Samples) < 3 || (k&(k-1)) == 0 && len(st.Samples) < 12 {
				st.Samples = append(st.Samples, c.log.String())
			}
		}
	})
}

// caseLimit is how long one case may take. Cases take milliseconds, some up
// to a second or two; one that takes this long does not end.
const caseLimit = 240 * time.Second

// watch ends the process if a case does not end, as a failure of the test.
func watch(name string) (stop func()) {
	limit := caseLimit
	if s := envFloat("VERIF_CASE_LIMIT", 0); s > 0 {
		limit = time.Duration(s * float64(time.Second))
	}
	running.Store(name)
	return After(limit, func() {
		Hang(fmt.Sprintf("an operation does not end (a case still runs after %v)", limit))
	})
}

var running atomic.Value // the name of the test

// Hang ends the process, as a failure of the test.
func Hang(what string) {
	b := make([]byte, 1<<16)
	fmt.Printf("%s\n--- FAIL: %v\n    failed: %s\n", b[:runtime.Stack(b, true)], running.Load(), what)
	os.Exit(1)
}

// After calls f unless it is stopped first. It counts the time in ticks, so
// that a while in which the whole process is stopped does not count.
func After(limit time.Duration, f func()) (stop func()) {
	const ticks = 50
	var mu sync.Mutex
	n, stopped := 0, false
	var t *time.Timer
	mu.Lock()
	defer mu.Unlock()
	t = time.AfterFunc(limit/ticks, func() {
		mu.Lock()
		defer mu.Unlock()
		if stopped {
			return
		}
		if n++; n < ticks {
			t.Reset(limit / ticks)
			return
		}
		f()
	})
	return func() {
		mu.Lock()
		defer mu.Unlock()
		stopped = true
		t.Stop()
	}
}

// RecordExhaustive records an enumerated (not generated) part of a check.
func RecordExhaustive(name, rule string, n int, samples ...string) {
	statsMu.Lock()
	st := &testStats{Rule: rule, Labels: map[string]int{}, hashes: map[uint64]bool{}, Evaluations: n, Samples: samples}
	for i := 0; i < n; i++ {
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%d", name, i)
		st.hashes[h.Sum64()] = true
	}
	stats[name] = st
	statsMu.Unlock()
	writeStats()
}

func writeStats() {
	path := os.Getenv("VERIF_STATS_FILE")
	if path == "" {
		return
	}
	statsMu.Lock()
	defer statsMu.Unlock()
	for _, st := range stats {
		hs := make([]uint64, 0, len(st.hashes))
		for h := range st.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		b := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(b[8*i:], h)
		}
		st.Hashes = base64.StdEncoding.EncodeToString(b)
	}
	b, err := json.Marshal(stats)
	if err == nil {
		os.WriteFile(path, b, 0o644)
	}
}
