// Waiting for a value under an id, in virtual time.
package c24

import (
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func mk(t *rapid.T) (func() h.Awaiter, []int64) {
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 8, 64}).Draw(t, "stripes")
	return func() h.Awaiter {
		a := lock.NewAwait[h.AwaitVal](n)
		return h.Awaiter{Wait: a.Wait, WaitCancel: a.WaitWithCancel, SyncWait: a.SyncWait, Put: a.CloseAndPut, Close: a.Close, Has: a.Has}
	}, h.AwaitIDs(t)
}

func TestQuiet(t *testing.T) {
	h.AwaitCheck(t, 900, 10000, true, true, 500*time.Millisecond, 20*time.Millisecond, mk)
}

func TestSchedules(t *testing.T) {
	h.AwaitCheck(t, 700, 8000, false, true, 500*time.Millisecond, 20*time.Millisecond, mk)
}

// The channel of an id, taken beforehand, holds what is delivered: delivering and closing wait
// for nobody to take it, and the id is free afterwards.
func TestGet(t *testing.T) {
	h.Check(t, 700, 8000, func(t *rapid.T, c *h.C) {
		n := rapid.SampledFrom([]int{1, 2, 3, 4, 8, 64}).Draw(t, "stripes")
		ids := h.AwaitIDs(t)
		type round struct {
			Close, Taker bool
			Takes, Gap   int
		}
		plan := make([][]round, len(ids))
		for i := range plan {
			for k := rapid.IntRange(1, 3).Draw(t, "rounds"); k > 0; k-- {
				plan[i] = append(plan[i], round{rapid.IntRange(0, 3).Draw(t, "close") == 0, rapid.Bool().Draw(t, "taker"), rapid.IntRange(1, 2).Draw(t, "takes"), rapid.IntRange(0, 20).Draw(t, "gap")})
			}
		}
		c.Note("stripes %d ids %v %+v", n, ids, plan)
		c.NonTrivial()
		h.Bubble(t, c, func(b *h.Bub) {
			a := lock.NewAwait[h.AwaitVal](n)
			for i, id := range ids {
				b.Go(func() {
					for k, r := range plan[i] {
						want := h.AwaitVal{ID: id, N: int64(k) + 1}
						ch := a.Get(id)
						b.FailIf(r.Takes > 1 && a.Get(id) != ch, "the channel of id %d is another one the second time", id)
						b.FailIf(!a.Has(id), "id %d has a channel and is not waited for", id)
						take := func() {
							v, ok := <-ch
							b.FailIf(!r.Close && (!ok || v != want), "round %d: the channel of id %d gives %v, %v; delivered %v", k, id, v, ok, want)
							b.FailIf(r.Close && ok, "round %d: the channel of id %d, closed, gives %v", k, id, v)
							if v, ok := <-ch; ok {
								b.Fail("round %d: the channel of id %d gives %v more", k, id, v)
							}
						}
						done := make(chan bool)
						if r.Taker {
							b.Go(func() { take(); close(done) })
						}
						time.Sleep(time.Duration(r.Gap) * time.Millisecond)
						from := time.Now()
						if r.Close {
							a.Close(id)
						} else {
							a.CloseAndPut(id, want)
						}
						b.FailIf(time.Since(from) > 400*time.Millisecond, "round %d: delivering to id %d takes %v", k, id, time.Since(from))
						b.FailIf(a.Has(id), "round %d: id %d is waited for after the delivery", k, id)
						if r.Taker {
							<-done
						} else {
							take()
						}
					}
				})
			}
		})
	})
}
