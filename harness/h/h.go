// Package h is the shared harness of the gofer property checks: it runs rapid
// properties with per-tier case counts, counts what was generated, watches for
// cases that never end, and writes the statistics the runner turns into evidence.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Tier is "quick" or "thorough".
var Tier = func() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}()

// Thorough reports whether the thorough tier was asked for.
func Thorough() bool { return Tier == "thorough" }

// Seed is this process's seed (never 0), derived by the runner from VERIF_SEED.
var Seed = func() uint64 {
	s, _ := strconv.ParseUint(os.Getenv("H_SEED"), 10, 64)
	if s == 0 {
		s = 1
	}
	return s
}()

type sub struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels,omitempty"`
	Samples     []string       `json:"samples,omitempty"`
	CutShort    int            `json:"cut_short,omitempty"`
	Discarded   int            `json:"discarded,omitempty"`
	WallMS      int64          `json:"wall_ms"`
	hashes      map[uint64]struct{}
	Hashes      []string `json:"hashes"`
}

var (
	mu    sync.Mutex
	subs  []*sub
	cur   atomic.Pointer[C]
	curT  atomic.Int64 // ticks the current case has been running
	stats = os.Getenv("H_STATS")
)

// C collects what one generated case is.
type C struct {
	mu     sync.Mutex
	name   string
	tt     *testing.T
	buf    strings.Builder
	hash   uint64
	over   bool
	nt     bool
	labels []string
}

const maxTrace = 1 << 16

// Note appends to the readable form of the case; it is also what makes cases distinct.
func (c *C) Note(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(format, a...)
	hh := fnv.New64a()
	fmt.Fprintf(hh, "%d|", c.hash)
	hh.Write([]byte(s))
	c.hash = hh.Sum64()
	if c.buf.Len()+len(s) > maxTrace {
		c.over = true
		return
	}
	c.buf.WriteString(s)
	c.buf.WriteByte(' ')
}

// Key adds to the distinctness key without adding to the readable form.
func (c *C) Key(b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	hh := fnv.New64a()
	fmt.Fprintf(hh, "%d|", c.hash)
	hh.Write(b)
	c.hash = hh.Sum64()
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *C) NonTrivial() { c.mu.Lock(); c.nt = true; c.mu.Unlock() }

// NonTrivialIf marks the case when the condition holds.
func (c *C) NonTrivialIf(b bool) {
	if b {
		c.NonTrivial()
	}
}

// Label counts an interesting class of case.
func (c *C) Label(s string) { c.mu.Lock(); c.labels = append(c.labels, s); c.mu.Unlock() }

// LabelIf is Label when the condition holds.
func (c *C) LabelIf(b bool, s string) {
	if b {
		c.Label(s)
	}
}

// Trace is the readable form so far.
func (c *C) Trace() string { c.mu.Lock(); defer c.mu.Unlock(); return c.buf.String() }

// N picks a case count for the tier; H_SCALE (percent) scales it for experiments.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if s, err := strconv.Atoi(os.Getenv("H_SCALE")); err == nil && s > 0 {
		n = n * s / 100
	}
	if n < 1 {
		n = 1
	}
	return n
}

// Check runs prop over generated cases. quick/thorough are case counts per process.
func Check(t *testing.T, quick, thorough int, prop func(*rapid.T, *C)) {
	t.Helper()
	check(t, quick, thorough, prop)
}

// budget bounds the wall time of one sub-check so that a slow machine ends with
// fewer cases rather than with no answer. It never turns into a failure.
func budget() time.Duration {
	s := 40 * time.Second
	if Thorough() {
		s = 240 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("H_BUDGET_S")); err == nil && v > 0 {
		s = time.Duration(v) * time.Second
	}
	return s
}

func check(t *testing.T, quick, thorough int, prop func(*rapid.T, *C)) {
	t.Helper()
	n := N(quick, thorough)
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(Seed&0x7fffffffffffffff, 10))
	s := &sub{Name: t.Name(), Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
	mu.Lock()
	subs = append(subs, s)
	mu.Unlock()
	start := time.Now()
	lim := budget()
	failedOnce := false
	defer func() { cur.Store(nil); s.WallMS = time.Since(start).Milliseconds(); Flush() }()
	rapid.Check(t, func(rt *rapid.T) {
		if !failedOnce && time.Since(start) > lim {
			s.CutShort++
			return
		}
		c := &C{name: t.Name(), tt: t}
		curT.Store(0)
		cur.Store(c)
		done := false
		defer func() {
			if done {
				return
			}
			p := recover()
			if strings.HasSuffix(fmt.Sprintf("%T", p), "rapid.invalidData") {
				s.Discarded++ // the generator gave up on a draw: not a case
			} else {
				failedOnce = true
				failedEver.Store(true)
			}
			if p != nil {
				panic(p)
			}
		}()
		prop(rt, c)
		if rt.Failed() {
			return
		}
		done = true
		if failedOnce {
			return
		}
		s.record(c)
	})
}

var failedEver atomic.Bool

// Patience is how long to wait in real time for what must happen: d, and an eighth of it
// once a case of this process has failed, so that the failure can be confirmed and shrunk.
func Patience(d time.Duration) time.Duration {
	if failedEver.Load() {
		return d / 8
	}
	return d
}

// Eventually waits for cond, in real time.
func Eventually(cond func() bool) bool {
	end := time.Now().Add(Patience(40 * time.Second))
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		switch {
		case i < 20:
			runtime.Gosched()
		case i < 100:
			time.Sleep(5 * time.Microsecond)
		default:
			time.Sleep(50 * time.Microsecond)
		}
	}
}

func (s *sub) record(c *C) {
	mu.Lock()
	defer mu.Unlock()
	s.Evaluations++
	for _, l := range c.labels {
		s.Labels[l]++
	}
	if c.nt {
		s.NonTrivial++
		if len(s.hashes) < 200000 {
			s.hashes[c.hash] = struct{}{}
		}
		if len(s.Samples) < 2 || (len(s.Samples) < 4 && s.NonTrivial%37 == 0) {
			tr := strings.TrimSpace(c.buf.String())
			if len(tr) > 500 {
				tr = tr[:500] + "…"
			}
			s.Samples = append(s.Samples, tr)
		}
	}
}

// Flush writes the statistics file.
func Flush() {
	if stats == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, s := range subs {
		s.Hashes = s.Hashes[:0]
		for k := range s.hashes {
			s.Hashes = append(s.Hashes, strconv.FormatUint(k, 36))
		}
		sort.Strings(s.Hashes)
	}
	b, _ := json.Marshal(subs)
	os.WriteFile(stats+".tmp", b, 0o644)
	os.Rename(stats+".tmp", stats)
}

// HangTicks is how many one-second ticks a single case may run in real time. It is
// two orders of magnitude above what any case needs.
var HangTicks int64 = 90

// Main is every check's TestMain: it starts the watchdog and flushes statistics.
func Main(m *testing.M) {
	flag.Parse()
	if stats != "" {
		os.WriteFile(stats+".up", nil, 0o644) // the packages under test have been initialised
	}
	go func() {
		for {
			time.Sleep(time.Second)
			c := cur.Load()
			if c == nil {
				continue
			}
			if curT.Add(1) > HangTicks {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("\nHANG: case of %s did not finish\ncase: %.4000s\n%s\n", c.name, c.Trace(), buf)
				os.Exit(97)
			}
		}
	}()
	code := m.Run()
	Flush()
	os.Exit(code)
}

// Catch runs f and returns the panic value (nil if none).
func Catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	f()
	return nil
}

// Must fails the case with the trace when cond is false.
func Must(t *rapid.T, c *C, cond bool, format string, a ...any) {
	if !cond {
		t.Helper()
		t.Fatalf("%s\n  case: %.3000s", fmt.Sprintf(format, a...), c.Trace())
	}
}

// B prints a byte string compactly.
func B(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) <= 24 {
		return fmt.Sprintf("%x(%d)", b, len(b))
	}
	hh := fnv.New32a()
	hh.Write(b)
	return fmt.Sprintf("%x..(%d,h%08x)", b[:12], len(b), hh.Sum32())
}

var findings sync.Map

// Finding reports, once, a defect that is identified by key; the runner knows which keys
// are listed as known and takes every other for a violation.
func Finding(key, what string) {
	if _, old := findings.LoadOrStore(key, true); !old {
		fmt.Printf("\nFINDING key=%s %s\n", key, what)
	}
}
