// The limit lock: schedules and exact virtual time; and truly parallel load.
package c23

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type act struct {
	Gap, Hold int
}

type span struct{ from, to time.Duration }

func program(t *rapid.T, maxG int) [][]act {
	g := rapid.IntRange(1, maxG).Draw(t, "goroutines")
	prog := make([][]act, g)
	for i := range prog {
		for n := rapid.IntRange(1, 4).Draw(t, "acts"); n > 0; n-- {
			prog[i] = append(prog[i], act{rapid.IntRange(0, 8).Draw(t, "gap"), rapid.IntRange(0, 8).Draw(t, "hold")})
		}
	}
	return prog
}

// afterwards: counters and slots once everyone is quiet.
func afterwards(b *h.Bub, l *lock.LimitLock, limit int, succ int64) {
	b.FailIf(l.Cc() != 0, "all have unlocked, the current-holder count is %d", l.Cc())
	b.FailIf(l.LockCount() != succ, "%d successful locks, the total count is %d", succ, l.LockCount())
	for i := 1; i <= limit; i++ {
		err := l.Lock()
		b.FailIf(err != nil, "all have unlocked, yet slot %d of %d cannot be taken: %v", i, limit, err)
		if err != nil {
			return
		}
		b.FailIf(l.Cc() != int64(i), "%d holders, the current-holder count is %d", i, l.Cc())
		b.FailIf(l.LockCount() != succ+int64(i), "%d successful locks, the total count is %d", succ+int64(i), l.LockCount())
	}
	s := time.Now()
	err := l.Lock()
	b.FailIf(err == nil, "a further lock succeeds with all %d slots taken", limit)
	_ = s
	b.FailIf(l.Cc() != int64(limit), "%d holders, the current-holder count is %d", limit, l.Cc())
	b.FailIf(l.LockCount() != succ+int64(limit), "a timed-out lock was counted: %d instead of %d", l.LockCount(), succ+int64(limit))
	for i := limit - 1; i >= 0; i-- {
		l.Unlock()
		b.FailIf(l.Cc() != int64(i), "%d holders, the current-holder count is %d", i, l.Cc())
	}
}

// Under drawn schedules: never more holders than the limit, nothing leaks.
func TestSchedules(t *testing.T) {
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		limit := rapid.IntRange(1, 4).Draw(t, "limit")
		timeout := time.Duration(rapid.SampledFrom([]int{1, 3, 20, 300, 5000}).Draw(t, "timeout")) * time.Microsecond
		unit := rapid.SampledFrom([]time.Duration{100 * time.Nanosecond, time.Microsecond, 50 * time.Microsecond}).Draw(t, "unit")
		prog := program(t, 7)
		c.Note("limit %d timeout %v unit %v %v", limit, timeout, unit, prog)
		c.NonTrivialIf(len(prog) > limit)
		timedOut := false
		h.Bubble(t, c, func(b *h.Bub) {
			l := lock.NewLimitLock(limit, timeout)
			var in, succ int
			for i := range prog {
				b.Go(func() {
					for _, a := range prog[i] {
						time.Sleep(time.Duration(a.Gap) * unit)
						if l.Lock() != nil {
							timedOut = true
							continue
						}
						succ++
						in++
						b.FailIf(in > limit, "%d goroutines hold the lock, the limit is %d", in, limit)
						time.Sleep(time.Duration(a.Hold) * unit)
						in--
						l.Unlock()
					}
				})
			}
			b.Wait()
			if !b.Failed() {
				afterwards(b, l, limit, int64(succ))
			}
		})
		c.LabelIf(timedOut, "timed out")
	})
}

// Wide limits and long timeouts.
func TestWide(t *testing.T) {
	h.Check(t, 300, 4000, func(t *rapid.T, c *h.C) {
		limit := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 1100), rapid.SampledFrom([]int{63, 64, 65, 127, 128, 255, 256, 300, 511, 512, 1000, 1023, 1024, 1025})).Draw(t, "limit")
		timeout := rapid.SampledFrom([]time.Duration{1, 10 * time.Millisecond, 999 * time.Millisecond, time.Second, 1500 * time.Millisecond, 29 * time.Second, 31 * time.Second, time.Minute, 61 * time.Second, 10 * time.Minute, time.Hour, 25 * time.Hour, 400 * 24 * time.Hour}).Draw(t, "timeout")
		extra := rapid.IntRange(0, 3).Draw(t, "extra")
		frac := rapid.IntRange(10, 90).Draw(t, "freedAt")
		c.Note("limit %d timeout %v, %d more, one slot freed after %d%%", limit, timeout, extra, frac)
		c.NonTrivialIf(extra > 0)
		c.LabelIf(limit >= 64, "wide")
		c.LabelIf(timeout > 30*time.Second, "long timeout")
		h.BubbleWith(t, c, h.Plan{Seed: 1, Unit: time.Microsecond}, func(b *h.Bub) {
			l := lock.NewLimitLock(limit, timeout)
			b.Calm(func() {
				for i := 1; i <= limit; i++ {
					err := l.Lock()
					b.FailIf(err != nil, "slot %d of %d cannot be taken: %v", i, limit, err)
				}
			})
			b.FailIf(l.Cc() != int64(limit) || l.LockCount() != int64(limit), "%d holders of %d locks, counted %d of %d", limit, limit, l.Cc(), l.LockCount())
			if b.Failed() {
				return
			}
			const tol = 5 * time.Millisecond
			free := timeout / 100 * time.Duration(frac)
			admitted, start := 0, time.Now()
			for i := 0; i < extra; i++ {
				b.Go(func() {
					err := l.Lock()
					took := time.Since(start)
					if err == nil {
						admitted++
						b.FailIf(admitted > 1, "a further lock succeeds with all %d slots taken", limit)
						b.FailIf(took < free-tol || took > free+tol, "a slot is free after %v, taken after %v", free, took)
					} else {
						b.FailIf(took < timeout-tol || took > timeout+tol, "the lock gave up after %v, the timeout is %v", took, timeout)
					}
				})
			}
			time.Sleep(free)
			l.Unlock()
			b.Wait()
			b.FailIf(extra > 0 && timeout > time.Second && admitted != 1, "one of %d slots was freed, %d of %d waiters were admitted", limit, admitted, extra)
			b.FailIf(l.Cc() != int64(limit-1+admitted) || l.LockCount() != int64(limit+admitted), "%d holders of %d locks, counted %d of %d", limit-1+admitted, limit+admitted, l.Cc(), l.LockCount())
		})
	})
}

// With the schedule quiet, virtual time shows exactly who waited while a slot was free.
func TestPromptness(t *testing.T) {
	h.Check(t, 3000, 40000, func(t *rapid.T, c *h.C) {
		limit := rapid.IntRange(1, 4).Draw(t, "limit")
		const unit = 10 * time.Millisecond
		timeout := time.Duration(rapid.IntRange(1, 14).Draw(t, "timeout")) * unit
		prog := program(t, 8)
		c.Note("limit %d timeout %v %v", limit, timeout, prog)
		type try struct {
			span
			ok   bool
			held span
		}
		var mu sync.Mutex
		var tries []try
		h.BubbleWith(t, c, h.Plan{Seed: 1, Unit: time.Microsecond}, func(b *h.Bub) {
			l := lock.NewLimitLock(limit, timeout)
			zero := time.Now()
			succ := 0
			for i := range prog {
				b.Go(func() {
					for _, a := range prog[i] {
						time.Sleep(time.Duration(a.Gap) * unit)
						e := try{span: span{from: time.Since(zero)}}
						e.ok = l.Lock() == nil
						e.to = time.Since(zero)
						if e.ok {
							succ++
							time.Sleep(time.Duration(a.Hold) * unit)
							e.held = span{e.to, time.Since(zero)}
							l.Unlock()
						}
						mu.Lock()
						tries = append(tries, e)
						mu.Unlock()
					}
				})
			}
			b.Wait()
			if !b.Failed() {
				afterwards(b, l, limit, int64(succ))
			}
		})
		const tol = unit / 5
		var times []time.Duration
		for _, e := range tries {
			times = append(times, e.from, e.to, e.held.from, e.held.to)
		}
		sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
		for i := 1; i < len(times); i++ {
			lo, hi := times[i-1], times[i]
			if hi-lo <= tol {
				continue
			}
			mid := lo + (hi-lo)/2
			holders, waiters := 0, 0
			for _, e := range tries {
				if e.ok && e.held.from < mid && mid < e.held.to {
					holders++
				}
				if e.from < mid && mid < e.to {
					waiters++
				}
			}
			h.Must(t, c, holders <= limit, "at %v %d hold the lock, the limit is %d", mid, holders, limit)
			h.Must(t, c, waiters == 0 || holders == limit, "from %v to %v %d wait though only %d of %d slots are taken", lo, hi, waiters, holders, limit)
			if waiters > 0 {
				c.NonTrivial()
			}
		}
		for _, e := range tries {
			d := e.to - e.from
			if !e.ok {
				c.Label("timed out")
				h.Must(t, c, d >= timeout-tol && d <= timeout+tol, "the lock gave up after %v, the timeout is %v", d, timeout)
			} else {
				c.LabelIf(d > 0, "waited and admitted")
				h.Must(t, c, d <= timeout+tol, "the lock succeeded after %v, the timeout is %v", d, timeout)
			}
		}
	})
}

func TestParallel(t *testing.T) {
	h.Check(t, 100, 1000, func(t *rapid.T, c *h.C) {
		limit := rapid.IntRange(1, 6).Draw(t, "limit")
		g := rapid.IntRange(2, 10).Draw(t, "goroutines")
		ops := rapid.IntRange(20, 600).Draw(t, "ops")
		tight := rapid.Bool().Draw(t, "shortTimeout")
		timeout := time.Minute
		if tight {
			timeout = 20 * time.Microsecond
		}
		c.Note("limit %d, %d goroutines, %d operations, timeout %v", limit, g, ops, timeout)
		c.NonTrivialIf(g > limit)
		l := lock.NewLimitLock(limit, timeout)
		var in, succ, worst, failed atomic.Int64
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < ops; k++ {
					if l.Lock() != nil {
						failed.Add(1)
						continue
					}
					n := in.Add(1)
					for w := worst.Load(); n > w && !worst.CompareAndSwap(w, n); w = worst.Load() {
					}
					succ.Add(1)
					if k%8 == 0 {
						runtime.Gosched()
					}
					in.Add(-1)
					l.Unlock()
				}
			}()
		}
		wg.Wait()
		h.Must(t, c, worst.Load() <= int64(limit), "%d goroutines held the lock at once, the limit is %d", worst.Load(), limit)
		h.Must(t, c, l.Cc() == 0, "all have unlocked, the current-holder count is %d", l.Cc())
		h.Must(t, c, l.LockCount() == succ.Load(), "%d successful locks, the total count is %d", succ.Load(), l.LockCount())
		h.Must(t, c, tight || failed.Load() == 0, "%d locks timed out within a minute", failed.Load())
	})
}
