package h

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
	"verif.local/gofercheck/vsync"
)

// Instrumented reports whether the code under test was built with yield points.
var Instrumented = os.Getenv("H_INSTR") == "1"

// Bub is one run of goroutines under virtual time and a drawn schedule.
type Bub struct {
	mu    sync.Mutex
	fail  string
	clock atomic.Int64
	wg    sync.WaitGroup
	Sched *vsync.Sched
}

// Fail records the first failure.
func (b *Bub) Fail(format string, a ...any) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.fail == "" {
		b.fail = fmt.Sprintf(format, a...)
	}
}

func (b *Bub) FailIf(cond bool, format string, a ...any) {
	if cond {
		b.Fail(format, a...)
	}
}

func (b *Bub) Failed() bool { b.mu.Lock(); defer b.mu.Unlock(); return b.fail != "" }

// Tick is a logical clock: strictly increasing, consistent with real time.
func (b *Bub) Tick() int64 { return b.clock.Add(1) }

// Go starts a goroutine of the case; Wait waits for all of them.
func (b *Bub) Go(f func()) {
	b.wg.Add(1)
	go func() {
		defer b.wg.Done()
		defer func() {
			if p := recover(); p != nil {
				b.Fail("a goroutine crashed: %v\n%.1500s", p, debug.Stack())
			}
		}()
		f()
	}()
}

func (b *Bub) Wait() { b.wg.Wait() }

// Calm runs f without preemption; no other goroutine of the case may be running.
func (b *Bub) Calm(f func()) {
	vsync.Disable()
	defer vsync.Enable(b.Sched)
	f()
}

// Plan is a drawn schedule.
type Plan struct {
	Seed   uint64
	Mode   int
	PerMil int
	Unit   time.Duration
}

// DrawPlan draws a schedule.
func DrawPlan(t *rapid.T, c *C) Plan {
	p := Plan{
		Seed:   rapid.Uint64().Draw(t, "sched.seed"),
		Mode:   rapid.IntRange(0, 2).Draw(t, "sched.mode"),
		PerMil: rapid.SampledFrom([]int{0, 30, 120, 300, 600}).Draw(t, "sched.perMil"),
		Unit:   rapid.SampledFrom([]time.Duration{time.Nanosecond * 100, time.Microsecond}).Draw(t, "sched.unit"),
	}
	c.Note("sched(%x,%d,%d)", p.Seed, p.Mode, p.PerMil)
	return p
}

// Bubble runs body in a virtual-time bubble under a drawn schedule and fails the case if
// body recorded a failure, crashed, or left goroutines blocked for ever.
func Bubble(t *rapid.T, c *C, body func(b *Bub)) {
	p := DrawPlan(t, c)
	BubbleWith(t, c, p, body)
}

func BubbleWith(t *rapid.T, c *C, p Plan, body func(b *Bub)) {
	b := &Bub{Sched: vsync.New(p.Seed, p.Mode, p.PerMil, p.Unit)}
	tt := c.tt
	done := make(chan string, 1)
	go func() {
		msg := "the bubble was aborted"
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("%v", r)
				if strings.Contains(msg, "deadlock") {
					msg = "goroutines stay blocked for ever (" + msg + ")\n" + blocked()
				}
			}
			vsync.Disable()
			done <- msg
		}()
		synctest.Test(tt, func(*testing.T) {
			vsync.Enable(b.Sched)
			defer func() {
				if r := recover(); r != nil {
					b.Fail("the case crashed: %v\n%.1500s", r, debug.Stack())
				}
			}()
			body(b)
			if !b.Failed() {
				b.wg.Wait()
			}
		})
		msg = ""
	}()
	msg := <-done
	b.mu.Lock()
	f := b.fail
	b.mu.Unlock()
	if f == "" {
		f = msg
	}
	if b.Sched.Hung.Load() && msg != "" {
		f = "does not come to rest: " + f
	}
	Must(t, c, f == "", "%s", f)
	y, n := b.Sched.Counts()
	c.LabelIf(n > 0, "preempted")
	c.LabelIf(Instrumented && y == 0 && p.PerMil > 0, "no yield points passed")
}

// blocked lists the goroutines inside bubbles that run code under test.
func blocked() string {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "gofer/") && !strings.Contains(g, "synctest.Run") {
			if len(g) > 700 {
				g = g[:700]
			}
			out = append(out, g)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}
