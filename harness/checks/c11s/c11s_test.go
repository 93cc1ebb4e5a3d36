// Identifier generation under drawn schedules of the instrumented generator.
package c11s

import (
	"testing"

	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestSchedules(t *testing.T) {
	seen := map[uuid.UUID]bool{}
	nums := map[int64]bool{}
	h.Check(t, 1500, 15000, func(t *rapid.T, c *h.C) {
		g, n := rapid.IntRange(2, 6).Draw(t, "goroutines"), rapid.IntRange(1, 8).Draw(t, "ids")
		c.Note("%d goroutines, %d ids each", g, n)
		c.NonTrivial()
		ids := make([][]uuid.UUID, g)
		is := make([][]int64, g)
		h.Bubble(t, c, func(b *h.Bub) {
			for i := 0; i < g; i++ {
				b.Go(func() {
					for k := 0; k < n; k++ {
						ids[i] = append(ids[i], *uuid.NewUUID())
						is[i] = append(is[i], util.UUID64())
					}
				})
			}
		})
		for i := range ids {
			for _, u := range ids[i] {
				h.Must(t, c, !seen[u], "the UUID %s was generated twice", u.String())
				seen[u] = true
			}
			for _, x := range is[i] {
				h.Must(t, c, !nums[x], "the 64-bit id %d was generated twice", x)
				nums[x] = true
			}
		}
	})
}
