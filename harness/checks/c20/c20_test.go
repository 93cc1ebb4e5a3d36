package c20

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/donnie4w/gofer/cache"
	"github.com/golang/groupcache/lru"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type ent[V any] struct {
	k any
	v V
}

// model: entries from most to least recently used; max 0 is unbounded.
type model[V any] struct {
	max int
	es  []ent[V]
}

func (m *model[V]) find(k any) int {
	for i, e := range m.es {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *model[V]) del(k any) {
	if i := m.find(k); i >= 0 {
		m.es = append(m.es[:i:i], m.es[i+1:]...)
	}
}

func (m *model[V]) add(k any, v V) {
	m.del(k)
	m.es = append([]ent[V]{{k, v}}, m.es...)
	if m.max > 0 && len(m.es) > m.max {
		m.es = m.es[:m.max]
	}
}

func (m *model[V]) get(k any) (v V, b bool) {
	if i := m.find(k); i >= 0 {
		v, b = m.es[i].v, true
		m.add(k, v)
	}
	return
}

func run[V any](t *rapid.T, c *h.C, kind string, keys []any, vals []V) {
	n := rapid.IntRange(0, len(keys)+1).Draw(t, "bound")
	m, mo := cache.NewLruCache[V](n), &model[V]{max: n}
	c.Note("%s bound=%d", kind, n)
	c.Label(kind)
	c.LabelIf(n == 0, "unbounded")
	steps := rapid.IntRange(1, 60).Draw(t, "steps")
	key := func() any { return keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")] }
	get := func(when string, k any) {
		v, b := m.Get(k)
		old := append([]ent[V](nil), mo.es...)
		w, wb := mo.get(k)
		h.Must(t, c, b == wb && reflect.DeepEqual(v, w), "%s: get(%T %v) returns %v, %v; the model (most recent first) holds %v", when, k, k, v, b, old)
	}
	for s := 0; s < steps; s++ {
		when := fmt.Sprintf("step %d", s)
		switch rapid.SampledFrom([]string{"add", "add", "add", "add", "get", "get", "get", "del", "multi"}).Draw(t, "op") {
		case "add":
			k, v := key(), vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
			c.Note("add(%T %v,%v)", k, k, v)
			if n > 0 && len(mo.es) == n && mo.find(k) < 0 {
				c.NonTrivial()
				c.Label("eviction")
			}
			m.Add(k, v)
			mo.add(k, v)
		case "get":
			k := key()
			c.Note("get(%T %v)", k, k)
			get(when, k)
		case "del":
			k := key()
			c.Note("remove(%T %v)", k, k)
			m.Remove(k)
			mo.del(k)
		case "multi":
			var ks []string
			for i := rapid.IntRange(0, 5).Draw(t, "n"); i > 0; i-- {
				k, ok := key().(string)
				if !ok {
					k = fmt.Sprint(key())
				}
				ks = append(ks, k)
			}
			c.Note("removeMulti(%q)", ks)
			m.RemoveMulti(ks)
			for _, k := range ks {
				mo.del(k)
			}
		}
	}
	for _, i := range rapid.Permutation(seq(len(keys))).Draw(t, "lookOrder") {
		get("at the end", keys[i])
	}
}

func seq(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

type pt struct{ a, b int }

func TestHistory(t *testing.T) {
	h.Check(t, 10000, 120000, func(t *rapid.T, c *h.C) {
		nk := rapid.IntRange(2, 9).Draw(t, "keys")
		all := [][]any{
			{"", "a", "b", "ab", "c", "d", "e", "f", "g"},
			{0, 1, 2, 3, -1, 1 << 40, 7, 8, 9},
			{"1", 1, int64(1), int32(1), uint8(1), 1.0, pt{1, 1}, true, "true"},
			{pt{0, 0}, pt{0, 1}, pt{1, 0}, "x", "", 0, [2]int{0, 1}, lru.Key(3), float32(1)},
		}
		ks := all[rapid.IntRange(0, 3).Draw(t, "keyKind")][:nk]
		switch rapid.IntRange(0, 5).Draw(t, "types") {
		case 0:
			run(t, c, "int", ks, []int{0, 1, 2, 3})
		case 1:
			run(t, c, "any", ks, []any{nil, 0, "x", false})
		case 2:
			run(t, c, "string", ks, []string{"", "a", "b"})
		case 3: // values that cannot be compared
			run(t, c, "[]byte", ks, [][]byte{nil, {}, {1}, {1, 2}})
		case 4:
			run(t, c, "map", ks, []map[string]int{nil, {}, {"a": 1}})
		default:
			one := 1
			run(t, c, "*int", ks, []*int{nil, new(int), &one})
		}
	})
}

func TestLarge(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(0, 300).Draw(t, "bound")
		space := rapid.IntRange(1, 600).Draw(t, "space")
		ops := rapid.IntRange(100, 1500).Draw(t, "ops")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("bound %d, %d keys, %d operations", n, space, ops)
		c.NonTrivialIf(n > 0 && space > n)
		m, mo := cache.NewLruCache[int](n), &model[int]{max: n}
		for i := 0; i < ops; i++ {
			k := fmt.Sprint(r.Intn(space))
			switch r.Intn(8) {
			case 0:
				m.Remove(k)
				mo.del(k)
			case 1:
				ks := []string{k, fmt.Sprint(r.Intn(space))}
				m.RemoveMulti(ks)
				mo.del(ks[0])
				mo.del(ks[1])
			case 2, 3:
				v, b := m.Get(k)
				w, wb := mo.get(k)
				h.Must(t, c, v == w && b == wb, "operation %d: get(%s) = %d, %v; want %d, %v", i, k, v, b, w, wb)
			default:
				m.Add(k, i)
				mo.add(k, i)
			}
		}
		for j := 0; j < space; j++ {
			k := fmt.Sprint(j)
			v, b := m.Get(k)
			w, wb := mo.get(k)
			h.Must(t, c, v == w && b == wb, "at the end: get(%s) = %d, %v; want %d, %v", k, v, b, w, wb)
		}
	})
}

// TestHuge: bounds of up to more than a hundred thousand, and none.
func TestHuge(t *testing.T) {
	h.Check(t, 4, 20, func(t *rapid.T, c *h.C) {
		n := h.Huge(t, "bound")
		bounded := rapid.IntRange(0, 3).Draw(t, "bounded") > 0
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("bound %d, %v", n, bounded)
		c.NonTrivialIf(bounded)
		bound := n
		if !bounded {
			bound = 0
		}
		m, mo := cache.NewLruCache[int](bound), h.NewOrdered[any, int]()
		space := n + n/2 + 1
		for i := 0; i < 3*n; i++ {
			k := r.Intn(space)
			if i < n+n/8 {
				k = i
			}
			switch x := r.Intn(16); {
			case x == 0 && i > n+n/8:
				m.Remove(k)
				mo.Del(k)
			case x < 4:
				v, b := m.Get(k)
				w, wb := mo.Get(k)
				mo.Front(k)
				h.Must(t, c, v == w && b == wb, "operation %d: get(%d) = %d, %v; want %d, %v", i, k, v, b, w, wb)
			default:
				m.Add(k, i)
				mo.Set(k, i, true)
				if bounded && mo.Len() > n {
					mo.DropBack()
				}
			}
		}
		for k := 0; k < space; k++ {
			v, b := m.Get(k)
			w, wb := mo.Get(k)
			h.Must(t, c, v == w && b == wb, "at the end: get(%d) = %d, %v; want %d, %v", k, v, b, w, wb)
		}
	})
}
