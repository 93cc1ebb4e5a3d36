// The fast waiter, in virtual time.
package c25

import (
	"context"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func mk(t *rapid.T) (func() h.Awaiter, []int64) {
	n := rapid.SampledFrom([]uint64{0, 1000, 4096, 10000}).Draw(t, "expectedItems")
	return func() h.Awaiter {
		var a *lock.FastAwait[h.AwaitVal]
		if n == 0 {
			a = lock.NewFastAwait[h.AwaitVal]()
		} else {
			a = lock.NewFastAwait2[h.AwaitVal](n)
		}
		return h.Awaiter{Wait: a.Wait, WaitCancel: a.WaitWithCancel, Put: a.CloseAndPut, Close: a.Close}
	}, h.AwaitIDs(t)
}

func TestQuiet(t *testing.T) {
	h.AwaitCheck(t, 1500, 20000, true, false, 2*time.Second, 220*time.Millisecond, mk)
}

func TestSchedules(t *testing.T) {
	h.AwaitCheck(t, 1000, 12000, false, false, 2*time.Second, 220*time.Millisecond, mk)
}

// After many waits are over, early deliveries for ids never seen before still arrive: the filter
// of finished ids, made for one mistake in a thousand, may swallow a few of several hundred.
func TestFilter(t *testing.T) {
	h.Check(t, 10, 100, func(t *rapid.T, c *h.C) {
		n := rapid.SampledFrom([]int{0, 300, 1000, 5000}).Draw(t, "expectedItems")
		over := n
		if n == 0 {
			over = rapid.SampledFrom([]int{1000, 20000}).Draw(t, "over")
		}
		base := h.Int64(t, "base")
		lead := time.Duration(rapid.IntRange(1, 1900).Draw(t, "lead")) * time.Millisecond
		const early = 300
		c.Note("made for %d, %d waits over, %d delivered %v early", n, over, early, lead)
		c.NonTrivial()
		lost := 0
		h.BubbleWith(t, c, h.Plan{Seed: 1, Unit: time.Microsecond}, func(b *h.Bub) {
			var a *lock.FastAwait[int64]
			if n == 0 {
				a = lock.NewFastAwait[int64]()
			} else {
				a = lock.NewFastAwait2[int64](uint64(n))
			}
			done, cancel := context.WithCancel(context.Background())
			cancel()
			b.Calm(func() {
				for i := 0; i < over; i++ {
					a.WaitWithCancel(done, base+int64(i), 0)
				}
			})
			for i := 0; i < early; i++ {
				id := base + int64(over+i)
				b.Go(func() { a.CloseAndPut(id, id) })
				b.Go(func() {
					time.Sleep(lead)
					v, err := a.Wait(id, 5*time.Second)
					if err != nil {
						lost++
					} else {
						b.FailIf(v != id, "the wait for %d gets %d", id, v)
					}
				})
			}
		})
		h.Must(t, c, lost <= 10, "%d of %d values delivered %v before their wait never arrive", lost, early, lead)
	})
}
