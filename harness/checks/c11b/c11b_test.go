// 64-bit identifiers by the ten million.
package c11b

import (
	"slices"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// So many that identifiers short of a dozen of their random bits would repeat. Sixty random bits
// repeat once among them with a chance of one in five hundred, twice with one in half a million.
func TestVeryMany(t *testing.T) {
	h.Check(t, 1, 2, func(t *rapid.T, c *h.C) {
		const parts = 8
		n := rapid.IntRange(60, 64).Draw(t, "millions") * 1000000 / parts
		c.Note("%d 64-bit ids", n*parts)
		c.NonTrivial()
		var buckets [parts][parts][]int64 // by maker and by the bits of the id
		var wg sync.WaitGroup
		for g := range buckets {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var own [parts][]int64
				for i := range own {
					own[i] = make([]int64, 0, n/parts+n/parts/50)
				}
				for i := 0; i < n; i++ {
					x := util.UUID64()
					k := uint64(x) * 0x9E3779B97F4A7C15 >> 61
					own[k] = append(own[k], x)
				}
				buckets[g] = own
			}()
		}
		wg.Wait()
		var twice [parts][]int64
		for k := 0; k < parts; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var all []int64
				for g := range buckets {
					all = append(all, buckets[g][k]...)
				}
				slices.Sort(all)
				for i := 1; i < len(all); i++ {
					if all[i] == all[i-1] {
						twice[k] = append(twice[k], all[i])
					}
				}
			}()
		}
		wg.Wait()
		all := slices.Concat(twice[:]...)
		h.Must(t, c, len(all) < 2, "%d of %d 64-bit ids were generated before; %v among them", len(all), n*parts, all[:min(len(all), 3)])
	})
}
