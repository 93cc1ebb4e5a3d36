// Keyed locks under truly parallel load: unsynchronised counters per key lose updates when
// exclusion fails.
package c22p

import (
	"fmt"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/lock"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestParallel(t *testing.T) {
	h.Check(t, 150, 1500, func(t *rapid.T, c *h.C) {
		n := rapid.SampledFrom([]int{1, 2, 3, 7, 16, 64, 255, 256, 257, 1000, 65537}).Draw(t, "stripes")
		nk := rapid.IntRange(1, 8).Draw(t, "keys")
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		ops := rapid.IntRange(100, 3000).Draw(t, "ops")
		isStr := rapid.Bool().Draw(t, "string")
		seed := rapid.Uint64().Draw(t, "seed")
		c.Note("string %v: %d stripes, %d keys, %d goroutines, %d operations", isStr, n, nk, g, ops)
		c.NonTrivial()
		nl, sl := lock.NewNumLock(n), lock.NewStrlock(n)
		type cell struct {
			a, b int
			_    [6]int
		}
		cells := make([]cell, nk)
		did := make([][]int, g)
		torn := make([]int, g)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			did[i] = make([]int, nk)
			go func() {
				defer wg.Done()
				r := h.NewRand(seed + uint64(i))
				for o := 0; o < ops; o++ {
					k := r.Intn(nk)
					nkey, skey := int64(k*5-7), fmt.Sprint("key", k)
					x := r.Intn(6)
					write := func() {
						cells[k].a++
						did[i][k]++
						cells[k].b = cells[k].a
					}
					switch {
					case isStr && x < 2:
						sl.RLock(skey)
						if cells[k].a != cells[k].b {
							torn[i]++
						}
						sl.RUnlock(skey)
					case isStr && x == 2:
						if _, ok := sl.TryRLock(skey); ok {
							if cells[k].a != cells[k].b {
								torn[i]++
							}
							sl.RUnlock(skey)
						}
					case isStr && x == 3:
						if _, ok := sl.TryLock(skey); ok {
							write()
							sl.Unlock(skey)
						}
					case isStr:
						sl.Lock(skey)
						write()
						sl.Unlock(skey)
					case x < 2:
						if _, ok := nl.TryLock(nkey); ok {
							write()
							nl.Unlock(nkey)
						}
					default:
						nl.Lock(nkey)
						write()
						nl.Unlock(nkey)
					}
				}
			}()
		}
		wg.Wait()
		for k := range cells {
			want := 0
			for i := range did {
				want += did[i][k]
			}
			h.Must(t, c, cells[k].a == want, "key #%d: %d updates made, %d counted: two goroutines held the lock at once", k, want, cells[k].a)
		}
		for i := range torn {
			h.Must(t, c, torn[i] == 0, "goroutine %d: %d reads saw a half-done write", i, torn[i])
		}
	})
}
