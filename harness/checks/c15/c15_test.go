package c15

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func sorted[K cmp.Ordered, V any](model map[K]V, desc bool) []K {
	var ks []K
	for k := range model {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	if desc {
		slices.Reverse(ks)
	}
	return ks
}

func iterate[K cmp.Ordered, V comparable](t *rapid.T, c *h.C, m *hashmap.TreeMap[K, V], model map[K]V, desc bool, stop int, when string) {
	want := sorted(model, desc)
	if stop > 0 && stop < len(want) {
		want = want[:stop]
	}
	n := 0
	f := func(k K, v V) bool {
		n++
		h.Must(t, c, n <= len(want), "%s: iteration (descending %v, stop after %d) visits %v as number %d of %d entries", when, desc, stop, k, n, len(want))
		h.Must(t, c, k == want[n-1] && v == model[k], "%s: iteration (descending %v) yields %v=%v as number %d, want %v=%v", when, desc, k, v, n, want[n-1], model[want[n-1]])
		return stop <= 0 || n < stop
	}
	if desc {
		m.Descend(f)
	} else {
		m.Ascend(f)
	}
	h.Must(t, c, n == len(want), "%s: iteration (descending %v, stop after %d) visits %d of %d entries", when, desc, stop, n, len(want))
}

func history[K cmp.Ordered, V comparable](t *rapid.T, c *h.C, kind string, key func(*rapid.T) K, vals []V) {
	deg := rapid.SampledFrom([]int{2, 2, 3, 4, 7, 32, 64, 500}).Draw(t, "degree")
	c.Note("%s degree=%d", kind, deg)
	c.Label(kind)
	m, model := hashmap.NewTreeMap[K, V](deg), map[K]V{}
	steps := rapid.IntRange(1, 60).Draw(t, "steps")
	var used []K
	pick := func() K {
		if len(used) > 0 && rapid.IntRange(0, 2).Draw(t, "again") > 0 {
			return used[rapid.IntRange(0, len(used)-1).Draw(t, "which")]
		}
		k := key(t)
		used = append(used, k)
		return k
	}
	for i := 0; i < steps; i++ {
		when := fmt.Sprintf("step %d", i)
		switch rapid.SampledFrom([]string{"put", "put", "put", "del", "get", "iter"}).Draw(t, "op") {
		case "put":
			k, v := pick(), vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
			c.Note("put(%v,%v)", k, v)
			p, b := m.Put(k, v)
			w, there := model[k]
			h.Must(t, c, b == there && p == w, "%s: put(%v) returns %v, %v; want %v, %v", when, k, p, b, w, there)
			model[k] = v
			c.NonTrivialIf(len(model) > 1)
		case "del":
			k := pick()
			c.Note("del(%v)", k)
			m.Del(k)
			delete(model, k)
		case "get":
			k := pick()
			v, b := m.Get(k)
			w, there := model[k]
			h.Must(t, c, b == there && v == w, "%s: get(%v) returns %v, %v; want %v, %v", when, k, v, b, w, there)
		case "iter":
			iterate(t, c, m, model, rapid.Bool().Draw(t, "desc"), rapid.IntRange(0, 8).Draw(t, "stop"), when)
		}
	}
	for _, k := range used {
		v, b := m.Get(k)
		w, there := model[k]
		h.Must(t, c, b == there && v == w, "at the end: get(%v) returns %v, %v; want %v, %v", k, v, b, w, there)
	}
	iterate(t, c, m, model, false, 0, "at the end")
	iterate(t, c, m, model, true, 0, "at the end")
}

func TestHistory(t *testing.T) {
	h.Check(t, 6000, 80000, func(t *rapid.T, c *h.C) {
		switch rapid.IntRange(0, 4).Draw(t, "types") {
		case 0:
			history(t, c, "int", func(t *rapid.T) int { return rapid.IntRange(-30, 30).Draw(t, "k") }, []int{0, 1, 2})
		case 1:
			history(t, c, "string", func(t *rapid.T) string {
				return rapid.SampledFrom([]string{"", "a", "A", "aa", "b", "\x00", "é", "z", "10", "9", "日", "\xff"}).Draw(t, "k") + rapid.StringN(0, 2, -1).Draw(t, "tail")
			}, []string{"", "v", "w"})
		case 2:
			history(t, c, "float64", func(t *rapid.T) float64 {
				return rapid.SampledFrom([]float64{0, -1, 1, math.Inf(1), math.Inf(-1), 1e300, -1e300, 5e-324, 1.5, 1.4999999999999998, math.MaxFloat64}).Draw(t, "k")
			}, []any{nil, 0, "x"})
		case 3:
			history(t, c, "uint64", func(t *rapid.T) uint64 { return uint64(h.Int64(t, "k")) }, []*int{nil, new(int)})
		default:
			history(t, c, "int8", func(t *rapid.T) int8 { return rapid.Int8().Draw(t, "k") }, []bool{false, true})
		}
	})
}

func TestLarge(t *testing.T) {
	h.Check(t, 150, 2000, func(t *rapid.T, c *h.C) {
		deg := rapid.SampledFrom([]int{2, 3, 5, 32, 64}).Draw(t, "degree")
		n := rapid.IntRange(100, 3000).Draw(t, "n")
		space := rapid.IntRange(20, 3000).Draw(t, "space")
		order := rapid.IntRange(0, 3).Draw(t, "order")
		del := rapid.IntRange(0, 8).Draw(t, "del")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("degree %d, %d operations over %d keys, order %d, deletes %d/10", deg, n, space, order, del)
		c.NonTrivial()
		m, model := hashmap.NewTreeMap[int, int](deg), map[int]int{}
		for i := 0; i < n; i++ {
			k := r.Intn(space)
			switch order {
			case 1:
				k = i % space
			case 2:
				k = space - i%space
			}
			w, there := model[k]
			if r.Intn(10) < del {
				dk := r.Intn(space)
				m.Del(dk)
				delete(model, dk)
				continue
			}
			p, b := m.Put(k, i)
			h.Must(t, c, b == there && p == w, "operation %d: put(%d) returns %d, %v; want %d, %v", i, k, p, b, w, there)
			model[k] = i
		}
		for k := -1; k <= space+1; k++ {
			v, b := m.Get(k)
			w, there := model[k]
			h.Must(t, c, b == there && v == w, "get(%d) returns %d, %v; want %d, %v", k, v, b, w, there)
		}
		iterate(t, c, m, model, false, 0, "at the end")
		iterate(t, c, m, model, true, 0, "at the end")
		iterate(t, c, m, model, false, rapid.IntRange(1, 200).Draw(t, "stop"), "at the end")
		iterate(t, c, m, model, true, rapid.IntRange(1, 200).Draw(t, "stop2"), "at the end")
	})
}

// Trees of tens of thousands of entries.
func TestHuge(t *testing.T) {
	h.Check(t, 3, 30, func(t *rapid.T, c *h.C) {
		deg := rapid.SampledFrom([]int{2, 3, 32, 1000}).Draw(t, "degree")
		n := rapid.SampledFrom([]int{32768, 65537, 100000, 140000}).Draw(t, "n")
		order := rapid.IntRange(0, 2).Draw(t, "order")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("degree %d, %d keys, order %d", deg, n, order)
		c.NonTrivial()
		m, model := hashmap.NewTreeMap[int, int](deg), map[int]int{}
		for i := 0; i < n; i++ {
			k := i
			switch order {
			case 1:
				k = n - i
			case 2:
				k = r.Intn(2 * n)
			}
			w, there := model[k]
			p, b := m.Put(k, i)
			h.Must(t, c, b == there && p == w, "operation %d: put(%d) returns %d, %v; want %d, %v", i, k, p, b, w, there)
			model[k] = i
		}
		iterate(t, c, m, model, false, 0, "filled")
		iterate(t, c, m, model, true, 0, "filled")
		for i := rapid.IntRange(0, 2*n).Draw(t, "deletions"); i > 0; i-- {
			k := r.Intn(2 * n)
			m.Del(k)
			delete(model, k)
		}
		for k := -1; k <= 2*n; k++ {
			v, b := m.Get(k)
			w, there := model[k]
			h.Must(t, c, b == there && v == w, "get(%d) returns %d, %v; want %d, %v", k, v, b, w, there)
		}
		iterate(t, c, m, model, false, 0, "at the end")
		iterate(t, c, m, model, true, 0, "at the end")
	})
}
