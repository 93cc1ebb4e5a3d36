// The Bloom filter under drawn schedules.
package c21

import (
	"testing"

	"github.com/donnie4w/gofer/cache"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type item struct {
	b    []byte
	done int // adds completed before this one began, and this one
}

func TestConcurrentAdds(t *testing.T) {
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		e := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 60)).Draw(t, "expected")
		p := rapid.SampledFrom([]float64{0.9, 0.5, 0.1, 0.01, 0.001, 1e-6}).Draw(t, "rate")
		g := rapid.IntRange(2, 5).Draw(t, "goroutines")
		n := rapid.IntRange(1, 12).Draw(t, "items")
		before := rapid.IntRange(0, 4*e).Draw(t, "before")
		seed := rapid.Uint64().Draw(t, "itemSeed")
		c.Note("sized for %d at %g: %d items before, then %d goroutines adding %d each", e, p, before, g, n)
		c.NonTrivial()
		rotated := false
		h.Bubble(t, c, func(b *h.Bub) {
			bf := cache.NewBloomFilter(uint64(e), p)
			started, done := 0, 0
			add := func(x []byte) item {
				before := done
				started++
				bf.Add(x)
				done++
				return item{x, before + 1}
			}
			check := func(it item, who string) {
				// every add that was not complete when this one began may count as later
				have := bf.Contains(it.b)
				further := started - it.done
				b.FailIf(!have && further < e, "%s: %x is reported absent; at most %d items were added after it, the filter is sized for %d (rate %g)", who, it.b, further, e, p)
			}
			r := h.NewRand(seed)
			mkItem := func() []byte {
				x := make([]byte, 1+r.Intn(12))
				for i := range x {
					x[i] = byte(r.Next())
				}
				return x
			}
			var olds []item
			b.Calm(func() {
				for i := 0; i < before; i++ {
					olds = append(olds, add(mkItem()))
				}
			})
			items := make([][][]byte, g)
			for i := range items {
				for k := 0; k < n; k++ {
					items[i] = append(items[i], mkItem())
				}
			}
			all := make([][]item, g)
			for i := range items {
				b.Go(func() {
					for k, x := range items[i] {
						it := add(x)
						all[i] = append(all[i], it)
						check(it, "right after its add")
						if k > 0 && !b.Failed() {
							check(all[i][k-1], "after the next add of the goroutine")
						}
						if len(olds) > 0 && !b.Failed() {
							check(olds[len(olds)-1], "the last one added before")
						}
					}
				})
			}
			b.Wait()
			rotated = (before+g*n)/e != before/e
			b.Calm(func() {
				for _, its := range all {
					for _, it := range its {
						check(it, "afterwards")
					}
				}
				for _, it := range olds {
					check(it, "afterwards")
				}
				// go on alone: nothing of the recent past may be missing later either
				for k := 0; k < e && !b.Failed(); k++ {
					olds = append(olds, add(mkItem()))
					for _, its := range all {
						for _, it := range its {
							check(it, "later")
						}
					}
				}
			})
		})
		c.LabelIf(rotated, "a generation ends meanwhile")
	})
}
