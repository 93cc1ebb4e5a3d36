// The Bloom filter: memory of recent items, error rate, parallel load.
package c21p

import (
	"encoding/binary"
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/donnie4w/gofer/cache"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func rate(t *rapid.T) float64 {
	return rapid.OneOf(rapid.SampledFrom([]float64{0.99, 0.9, 0.75, 0.5, 0.3, 0.1, 0.05, 0.01, 0.001, 1e-4, 1e-6, 1e-9, 1e-15, 1e-100}), rapid.Float64Range(0.001, 0.99)).Draw(t, "rate")
}

func expected(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 64), rapid.IntRange(1, 1500)).Draw(t, "expected")
}

func elem(t *rapid.T, i int, texture int) []byte {
	var b [8]byte
	switch texture {
	case 0:
		binary.BigEndian.PutUint64(b[:], uint64(i))
		return b[:]
	case 1:
		return []byte(fmt.Sprint("item", i))
	case 2:
		return make([]byte, i) // zero bytes of growing length; the first is empty
	default:
		x := make([]byte, 40)
		binary.LittleEndian.PutUint64(x[32:], uint64(i))
		return x
	}
}

func TestRecent(t *testing.T) {
	h.Check(t, 1200, 15000, func(t *rapid.T, c *h.C) {
		e, p := expected(t), rate(t)
		tex := rapid.IntRange(0, 3).Draw(t, "texture")
		if tex == 2 && e > 200 {
			tex = 1
		}
		total := rapid.IntRange(1, 5*e+3).Draw(t, "added")
		repeat := rapid.Bool().Draw(t, "repeatSome")
		c.Note("sized for %d at %g, %d added (texture %d, repeats %v)", e, p, total, tex, repeat)
		c.NonTrivialIf(total > e)
		bf := cache.NewBloomFilter(uint64(e), p)
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		var log []int // item numbers in order of adding
		next := 0
		for i := 0; i < total; i++ {
			it := next
			if repeat && len(log) > 0 && r.Intn(4) == 0 {
				it = log[r.Intn(len(log))]
			} else {
				next++
			}
			x := elem(t, it, tex)
			keep := append([]byte(nil), x...)
			bf.Add(x)
			h.Must(t, c, string(keep) == string(x), "adding modified the item")
			log = append(log, it)
			look := func(j int) {
				h.Must(t, c, bf.Contains(elem(t, log[j], tex)), "add #%d is reported absent after %d further adds; the filter is sized for %d (rate %g)", j+1, i-j, e, p)
			}
			look(i)
			oldest := max(0, i-e+1)
			look(oldest)
			for k := 0; k < 3; k++ {
				look(oldest + r.Intn(i-oldest+1))
			}
			if total < 200 || i%97 == 0 || i == total-1 {
				for j := oldest; j <= i; j++ {
					look(j)
				}
			}
		}
	})
}

func TestErrorRate(t *testing.T) {
	h.Check(t, 60, 500, func(t *rapid.T, c *h.C) {
		e := rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 3000)).Draw(t, "expected")
		p := rapid.OneOf(rapid.SampledFrom([]float64{0.5, 0.3, 0.2, 0.1, 0.05, 0.01, 0.001, 1e-4, 1e-6}), rapid.Float64Range(0.001, 0.5)).Draw(t, "rate")
		added := e - rapid.SampledFrom([]int{0, 0, 0, 1, e / 2}).Draw(t, "fewer")
		filters := 30
		if e > 300 {
			filters = 6
		}
		const probes = 4000
		c.Note("sized for %d at %g, %d added, %d filters, %d probes each", e, p, added, filters, probes)
		c.NonTrivialIf(added > 1)
		wrong := 0
		for f := 0; f < filters; f++ {
			bf := cache.NewBloomFilter(uint64(e), p)
			for i := 0; i < added; i++ {
				bf.Add(elem(t, i, 0))
			}
			for i := 0; i < probes; i++ {
				if bf.Contains(elem(t, 1<<30+i, 0)) {
					wrong++
				}
			}
		}
		n := float64(filters * probes)
		// twice the requested rate plus eight standard deviations and a little
		lim := 2*p*n + 8*math.Sqrt(2*p*n) + 20
		h.Must(t, c, float64(wrong) <= lim, "%d of %.0f items never added are reported present (%.4g); requested rate %g with %d of %d items", wrong, n, float64(wrong)/n, p, added, e)
	})
}

// Small requested rates, with as many probes as it takes to tell.
func TestSmallRates(t *testing.T) {
	h.Check(t, 4, 40, func(t *rapid.T, c *h.C) {
		e := rapid.IntRange(200, 2000).Draw(t, "expected")
		p := rapid.SampledFrom([]float64{1e-5, 1e-6, 1e-7, 1e-9}).Draw(t, "rate")
		seed := rapid.Uint64().Draw(t, "probes")
		const probes, parts = 6000000, 8
		c.Note("sized for %d at %g, %d probes", e, p, probes)
		c.NonTrivial()
		bf := cache.NewBloomFilter(uint64(e), p)
		for i := 0; i < e; i++ {
			bf.Add(binary.BigEndian.AppendUint64(nil, uint64(i)))
		}
		var wrong atomic.Int64
		var wg sync.WaitGroup
		for k := 0; k < parts; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := h.NewRand(seed + uint64(k)<<40)
				var b [8]byte
				for i := 0; i < probes/parts; i++ {
					binary.BigEndian.PutUint64(b[:], r.Next()|1<<63) // none was added
					if bf.Contains(b[:]) {
						wrong.Add(1)
					}
				}
			}()
		}
		wg.Wait()
		// twice the requested rate plus eight standard deviations and a little
		mean := 2 * p * probes
		h.Must(t, c, float64(wrong.Load()) <= mean+8*math.Sqrt(mean)+8, "%d of %d items never added are reported present; requested rate %g with %d of %d items", wrong.Load(), probes, p, e, e)
	})
}

// However many items were added, at most about twice the sized number is remembered, so the
// error rate stays that of a filter holding as many.
func TestSaturation(t *testing.T) {
	h.Check(t, 60, 500, func(t *rapid.T, c *h.C) {
		e := rapid.OneOf(rapid.IntRange(30, 100), rapid.IntRange(30, 1500)).Draw(t, "expected")
		p := rapid.OneOf(rapid.SampledFrom([]float64{0.1, 0.05, 0.01, 0.001, 1e-4, 1e-6}), rapid.Float64Range(0.001, 0.1)).Draw(t, "rate")
		added := rapid.IntRange(e, 9*e).Draw(t, "added")
		const filters, probes = 5, 3000
		c.Note("sized for %d at %g, %d added, %d filters, %d probes each", e, p, added, filters, probes)
		c.NonTrivialIf(added > 2*e)
		wrong := 0
		for f := 0; f < filters; f++ {
			bf := cache.NewBloomFilter(uint64(e), p)
			for i := 0; i < added; i++ {
				bf.Add(elem(t, i, 0))
			}
			for i := 0; i < probes; i++ {
				if bf.Contains(elem(t, 1<<30+i, 0)) {
					wrong++
				}
			}
		}
		n := float64(filters * probes)
		// with twice the items three quarters of the bits are set instead of half of them
		q := 2 * math.Pow(p, math.Log2(4.0/3))
		if q > 0.9 {
			q = 0.9
		}
		lim := q*n + 8*math.Sqrt(q*n) + 20
		h.Must(t, c, float64(wrong) <= lim, "%d of %.0f items never added are reported present (%.4g) after %d were added to a filter sized for %d at %g", wrong, n, float64(wrong)/n, added, e, p)
	})
}

func TestParallel(t *testing.T) {
	h.Check(t, 80, 800, func(t *rapid.T, c *h.C) {
		e := rapid.OneOf(rapid.IntRange(1, 50), rapid.IntRange(1, 20000)).Draw(t, "expected")
		p := rapid.SampledFrom([]float64{0.5, 0.01, 0.001}).Draw(t, "rate")
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		n := rapid.IntRange(100, 3000).Draw(t, "items")
		c.Note("sized for %d at %g, %d goroutines adding %d each", e, p, g, n)
		c.NonTrivial()
		bf := cache.NewBloomFilter(uint64(e), p)
		var started, done atomic.Int64
		bad := make([]string, g)
		var wg sync.WaitGroup
		at := make([][]int64, g)
		for i := 0; i < g; i++ {
			wg.Add(1)
			at[i] = make([]int64, n)
			go func() {
				defer wg.Done()
				for k := 0; k < n; k++ {
					x := elem(t, i*n+k, 0)
					// every add not complete when this one begins may count as later
					at[i][k] = done.Load() + 1
					started.Add(1)
					bf.Add(x)
					done.Add(1)
					have := bf.Contains(x)
					if further := started.Load() - at[i][k]; !have && further < int64(e) {
						bad[i] = fmt.Sprintf("an item just added is reported absent after at most %d further adds", further)
						return
					}
				}
			}()
		}
		wg.Wait()
		for i := range bad {
			h.Must(t, c, bad[i] == "", "goroutine %d: %s (sized for %d, rate %g)", i, bad[i], e, p)
			for k := range at[i] {
				further := int64(g*n) - at[i][k]
				h.Must(t, c, further >= int64(e) || bf.Contains(elem(t, i*n+k, 0)), "afterwards an item is reported absent after at most %d further adds (sized for %d, rate %g)", further, e, p)
			}
		}
	})
}

// Filters for tens of thousands of items.
func TestHuge(t *testing.T) {
	h.Check(t, 3, 30, func(t *rapid.T, c *h.C) {
		e := rapid.SampledFrom([]int{5000, 32768, 65536, 70000, 100000}).Draw(t, "expected")
		p := rapid.SampledFrom([]float64{0.1, 0.01, 0.001, 1e-6}).Draw(t, "rate")
		total := rapid.IntRange(e, 3*e).Draw(t, "added")
		c.Note("sized for %d at %g, %d added", e, p, total)
		c.NonTrivial()
		c.Label("large")
		bf := cache.NewBloomFilter(uint64(e), p)
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		const probes = 20000
		for i := 0; i < total; i++ {
			bf.Add(elem(t, i, 0))
			oldest := max(0, i-e+1)
			for _, j := range []int{i, oldest, oldest + r.Intn(i-oldest+1)} {
				h.Must(t, c, bf.Contains(elem(t, j, 0)), "add #%d is reported absent after %d further adds; the filter is sized for %d (rate %g)", j+1, i-j, e, p)
			}
			if i == e-1 {
				wrong := 0.0
				for k := 0; k < probes; k++ {
					if bf.Contains(elem(t, 1<<30+k, 0)) {
						wrong++
					}
				}
				h.Must(t, c, wrong <= 2*p*probes+8*math.Sqrt(2*p*probes)+20, "%.0f of %d items never added are reported present; requested rate %g with %d items", wrong, probes, p, e)
			}
		}
		for j := total - e; j < total; j++ {
			h.Must(t, c, bf.Contains(elem(t, j, 0)), "add #%d of %d is reported absent; the filter is sized for %d (rate %g)", j+1, total, e, p)
		}
	})
}
