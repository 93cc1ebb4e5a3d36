package h

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// AwaitVal is what waiters receive: the id it was delivered under and a serial number.
type AwaitVal struct{ ID, N int64 }

// Awaiter is a waiting room under test.
type Awaiter struct {
	Wait       func(id int64, timeout time.Duration) (AwaitVal, error)
	WaitCancel func(ctx context.Context, id int64, timeout time.Duration) (AwaitVal, bool, error)
	SyncWait   func(wg *sync.WaitGroup, id int64, timeout time.Duration) (AwaitVal, error) // may be nil
	Put        func(id int64, v AwaitVal) error
	Close      func(id int64) error
	Has        func(id int64) bool // may be nil
}

type delivery struct {
	at    time.Duration // relative to the start of the wait
	close bool
	n     int64
}

type wait struct {
	id       int64
	method   string
	gap      time.Duration // before the wait (absolute start for the first)
	timeout  time.Duration // <= 0: none
	bare     bool          // no wait group is given
	cancel   time.Duration // relative to the start; noCancel: never
	deadline bool          // cancelled by the deadline of the context
	ds       []delivery
}

const noCancel = time.Duration(1) << 60

func (w wait) String() string {
	s := fmt.Sprintf("{id %d %s after %v timeout %v", w.id, w.method, w.gap, w.timeout)
	if w.cancel != noCancel {
		s += fmt.Sprintf(" cancel %v (deadline %v)", w.cancel, w.deadline)
	}
	for _, d := range w.ds {
		if d.close {
			s += fmt.Sprintf(" close@%v", d.at)
		} else {
			s += fmt.Sprintf(" put%d@%v", d.n, d.at)
		}
	}
	return s + "}"
}

// AwaitCheck drives waits, deliveries, closes, timeouts and cancellations in virtual time.
// early is how long before the wait a delivery may start; reuse: ids may be waited for
// again; tol: the documented polling interval of early deliveries.
func AwaitCheck(t *testing.T, quick, thorough int, quiet, reuse bool, early, polling time.Duration, mk func(t *rapid.T) (func() Awaiter, []int64)) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		make, ids := mk(t)
		unit, tol := 50*time.Millisecond, polling
		if !quiet {
			tol += 400 * time.Millisecond // naps
			unit = 200 * time.Millisecond
		}
		var serial int64
		chains := [][]wait{} // one goroutine each, one after the other
		for _, id := range ids {
			rounds := 1
			if reuse {
				rounds = rapid.IntRange(1, 3).Draw(t, "rounds")
			}
			var ch []wait
			for r := 0; r < rounds; r++ {
				w := wait{id: id, cancel: noCancel}
				w.method = rapid.SampledFrom([]string{"wait", "cancel", "cancel", "sync"}).Draw(t, "method")
				w.bare = rapid.IntRange(0, 3).Draw(t, "noGroup") == 2
				w.gap = early + time.Duration(rapid.IntRange(0, 40).Draw(t, "start"))*unit
				if r > 0 { // late deliveries of the round before must be over
					w.gap += 10 * time.Second
					p := ch[r-1]
					if len(p.ds) == 1 && p.timeout <= 0 && p.cancel == noCancel && rapid.Bool().Draw(t, "atOnce") {
						w.gap = 0
					}
				}
				if rapid.Bool().Draw(t, "limited") {
					w.timeout = time.Duration(rapid.IntRange(1, 30).Draw(t, "timeout")) * unit
					if rapid.IntRange(0, 30).Draw(t, "tiny") == 17 {
						w.timeout = 1
					}
				} else {
					w.timeout = rapid.SampledFrom([]time.Duration{0, -1, -time.Second}).Draw(t, "none")
				}
				if w.method == "cancel" && rapid.IntRange(0, 2).Draw(t, "cancelled") > 0 {
					w.cancel = time.Duration(rapid.IntRange(-4, 30).Draw(t, "cancelAt")) * unit
					w.deadline = rapid.IntRange(0, 2).Draw(t, "byDeadline") == 2
				}
				nd := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2}).Draw(t, "deliveries")
				if w.timeout <= 0 && w.cancel == noCancel && nd == 0 {
					nd = 1
				}
				lo := int(early / unit)
				if w.gap == 0 {
					lo = 0
				}
				for ; nd > 0; nd-- {
					serial++
					d := delivery{n: serial, close: rapid.IntRange(0, 3).Draw(t, "close") == 0}
					d.at = time.Duration(rapid.IntRange(-lo, 30).Draw(t, "at")) * unit
					if !quiet && rapid.Bool().Draw(t, "race") { // meet the other events
						switch rapid.IntRange(0, 2).Draw(t, "with") {
						case 0:
							d.at = 0
						case 1:
							d.at = max(w.timeout, 0)
						default:
							if w.cancel != noCancel {
								d.at = w.cancel
							}
						}
					}
					w.ds = append(w.ds, d)
				}
				ch = append(ch, w)
			}
			chains = append(chains, ch)
		}
		var strays []delivery // for ids nobody waits for
		for n := rapid.IntRange(0, 2).Draw(t, "strays"); n > 0; n-- {
			strays = append(strays, delivery{at: time.Duration(rapid.IntRange(0, 60).Draw(t, "strayAt")) * unit, close: rapid.Bool().Draw(t, "strayClose"), n: int64(n)})
		}
		plan := Plan{Seed: 1, Unit: time.Microsecond}
		if !quiet {
			plan = DrawPlan(t, c)
		}
		c.Note("%v strays %v", chains, strays)
		early_, timedOut, cancelled, closed := false, false, false, false
		BubbleWith(t, c, plan, func(b *Bub) {
			a := make()
			for i, s := range strays {
				b.Go(func() {
					time.Sleep(s.at)
					if s.close {
						a.Close(ids[0] + 1000 + int64(i)*8)
					} else {
						a.Put(ids[0]+1000+int64(i)*8, AwaitVal{-1, -1})
					}
				})
			}
			for _, ch := range chains {
				b.Go(func() {
					for _, w := range ch {
						// Deliveries are timed against the moment the wait is due to start.
						due := time.Now().Add(w.gap)
						var over atomic.Bool
						for _, d := range w.ds {
							b.Go(func() {
								time.Sleep(time.Until(due.Add(d.at)))
								late, from := over.Load(), time.Now()
								if d.close {
									a.Close(w.id)
								} else {
									a.Put(w.id, AwaitVal{w.id, d.n})
								}
								// The id of a fast waiter is done with once its wait is over.
								b.FailIf(late && !reuse && time.Since(from) > tol, "a late delivery or close for the wait %v stays for %v", w, time.Since(from))
							})
						}
						ctx, cancel := context.WithCancel(context.Background())
						if w.cancel != noCancel && w.deadline {
							cancel()
							ctx, cancel = context.WithDeadline(context.Background(), due.Add(w.cancel))
						} else if w.cancel != noCancel {
							b.Go(func() {
								time.Sleep(time.Until(due.Add(w.cancel)))
								cancel()
							})
						}
						time.Sleep(time.Until(due))
						start := time.Now()
						var v AwaitVal
						var isCancel bool
						var err error
						switch w.method {
						case "cancel":
							v, isCancel, err = a.WaitCancel(ctx, w.id, w.timeout)
						case "sync":
							if a.SyncWait != nil {
								if w.bare {
									v, err = a.SyncWait(nil, w.id, w.timeout)
									break
								}
								var wg sync.WaitGroup
								wg.Add(1)
								released := noCancel
								b.Go(func() {
									wg.Wait()
									released = time.Since(start)
								})
								v, err = a.SyncWait(&wg, w.id, w.timeout)
								wg.Wait()
								took := time.Since(start)
								// Whoever the group announces the wait to need not wait for its end.
								b.FailIf(took > tol && released > tol, "wait %v: the group is not done %v after the start", w, took)
								break
							}
							fallthrough
						default:
							v, err = a.Wait(w.id, w.timeout)
						}
						took := time.Since(start)
						over.Store(true)
						cancel()
						// What may have ended the wait, and when.
						first := noCancel
						if w.timeout > 0 {
							first = w.timeout
						}
						if w.cancel != noCancel {
							first = min(first, max(w.cancel, 0))
						}
						for _, d := range w.ds {
							first = min(first, max(d.at, 0))
						}
						ok := false
						what := fmt.Sprintf("value %v, cancelled %v, error %v", v, isCancel, err)
						within := func(at time.Duration) bool { return max(at, 0) <= first+tol && took >= max(at, 0)-1 }
						switch {
						case isCancel:
							ok = err != nil && w.cancel != noCancel && within(w.cancel) && v == AwaitVal{}
							cancelled = cancelled || ok
						case err != nil:
							ok = w.timeout > 0 && within(w.timeout) && v == AwaitVal{}
							timedOut = timedOut || ok
						default:
							for _, d := range w.ds {
								if within(d.at) && (d.close && v == AwaitVal{} || !d.close && v == AwaitVal{w.id, d.n}) {
									ok = true
									early_ = early_ || d.at < 0
									closed = closed || d.close
								}
							}
						}
						b.FailIf(!ok, "wait %v returns %s after %v", w, what, took)
						b.FailIf(took > first+tol, "wait %v ends after %v only (%s)", w, took, what)
						if a.Has != nil {
							b.FailIf(a.Has(w.id), "after wait %v the id is still waited for", w)
						}
						if b.Failed() {
							return
						}
					}
				})
			}
		})
		n := 0
		for _, ch := range chains {
			for _, w := range ch {
				n += len(w.ds)
			}
		}
		c.NonTrivialIf(n > 0 && len(ids) > 1)
		c.LabelIf(early_, "delivered early")
		c.LabelIf(timedOut, "timed out")
		c.LabelIf(cancelled, "cancelled")
		c.LabelIf(closed, "closed")
	})
}

// AwaitIDs draws distinct ids, some sharing lock stripes.
func AwaitIDs(t *rapid.T) (ids []int64) {
	n := rapid.IntRange(1, 4).Draw(t, "ids")
	base := rapid.SampledFrom([]int64{0, 1, -1, 100, 1 << 40, -1 << 50}).Draw(t, "base")
	step := rapid.SampledFrom([]int64{1, 2, 4, 8, 1 << 32}).Draw(t, "idStep")
	for i := 0; i < n; i++ {
		ids = append(ids, base+int64(i)*step)
	}
	return
}
