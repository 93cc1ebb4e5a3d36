// The goroutine pool under truly parallel load.
package c26p

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func load(t *rapid.T, c *h.C, closing bool) {
	min := rapid.SampledFrom([]int64{0, 1, 2, 4, 16}).Draw(t, "min")
	max := rapid.SampledFrom([]int64{1, 2, 3, 4, 8, 32}).Draw(t, "max")
	m := max
	if m < min {
		m = min
	}
	workers := rapid.IntRange(1, 8).Draw(t, "submitters")
	each := rapid.SampledFrom([]int{1, 2, 10, 300}).Draw(t, "each")
	rounds := rapid.IntRange(1, 6).Draw(t, "rounds")
	boom := !closing && rapid.Bool().Draw(t, "boom")
	room := rapid.SampledFrom([]int{0, 1, 16, 1 << 14}).Draw(t, "room")
	c.Note("min %d max %d submitters %d each %d rounds %d boom %v room %d closing %v", min, max, workers, each, rounds, boom, room, closing)
	c.NonTrivialIf(workers > 1 && each > 1)
	p := gopool.NewPoolWithFuncLimit(min, max, room)
	defer p.Close()
	for r := 0; r < rounds; r++ {
		ran := make([]atomic.Int32, workers*each)
		var now, worst, count, subs atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < each; i++ {
					id := w*each + i
					p.Go(func() {
						if k := now.Add(1); k > m {
							worst.Store(k)
						}
						ran[id].Add(1)
						now.Add(-1)
						count.Add(1)
						if boom && id%7 == 0 {
							panic("a submitted function panics")
						}
					})
					subs.Add(1)
				}
			}()
		}
		if closing && r == rounds-1 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < each; i++ {
					runtime.Gosched()
				}
				p.Close()
			}()
		}
		total := int64(workers * each)
		ok := h.Eventually(func() bool { return subs.Load() == total && count.Load() >= total })
		h.Must(t, c, ok, "%d functions, %d submissions returned, %d ran: the rest never does", total, subs.Load(), count.Load())
		wg.Wait()
		for i := range ran {
			h.Must(t, c, ran[i].Load() == 1, "function %d ran %d times", i, ran[i].Load())
		}
		h.Must(t, c, h.Eventually(func() bool { return p.NumUnExecu() == 0 }), "all functions have run, the pool counts %d waiting", p.NumUnExecu())
		h.Must(t, c, closing || worst.Load() <= m, "%d functions ran at once, the maximum is %d", worst.Load(), m)
	}
}

func TestParallel(t *testing.T) {
	h.Check(t, 250, 4000, func(t *rapid.T, c *h.C) { load(t, c, false) })
}

func TestClosing(t *testing.T) {
	h.Check(t, 250, 4000, func(t *rapid.T, c *h.C) { load(t, c, true) })
}

// Submissions pile up far beyond any queue while the workers are held.
func TestBacklog(t *testing.T) {
	h.Check(t, 2, 20, func(t *rapid.T, c *h.C) {
		min := rapid.SampledFrom([]int64{1, 4}).Draw(t, "min")
		max := rapid.SampledFrom([]int64{4, 100}).Draw(t, "max")
		n := rapid.SampledFrom([]int{5000, 70000, 1<<17 - 1, 1<<17 + 200, 150000}).Draw(t, "functions")
		c.Note("min %d max %d, %d functions", min, max, n)
		c.NonTrivial()
		c.Label("large")
		p := gopool.NewPool(min, max)
		defer p.Close()
		gate := make(chan bool)
		ran := make([]atomic.Int32, n)
		var count, subs, now, worst atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := w; i < n; i += 4 {
					p.Go(func() {
						if k := now.Add(1); k > max {
							worst.Store(k)
						}
						<-gate
						ran[i].Add(1)
						now.Add(-1)
						count.Add(1)
					})
					subs.Add(1)
				}
			}()
		}
		for last, k := int64(-1), 0; k < 20; k++ { // until the submissions stand still
			time.Sleep(10 * time.Millisecond)
			if v := subs.Load(); v != last {
				last, k = v, 0
			}
		}
		close(gate)
		ok := h.Eventually(func() bool { return subs.Load() == int64(n) && count.Load() >= int64(n) })
		h.Must(t, c, ok, "%d functions, %d submissions returned, %d ran: the rest never does", n, subs.Load(), count.Load())
		wg.Wait()
		for i := range ran {
			h.Must(t, c, ran[i].Load() == 1, "function %d ran %d times", i, ran[i].Load())
		}
		h.Must(t, c, worst.Load() <= max, "%d functions ran at once, the maximum is %d", worst.Load(), max)
		h.Must(t, c, h.Eventually(func() bool { return p.NumUnExecu() == 0 }), "all functions have run, the pool counts %d waiting", p.NumUnExecu())
	})
}
