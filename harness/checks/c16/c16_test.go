package c16

import (
	"fmt"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// model: entries from least to most recently written.
type ent[K comparable, V comparable] struct {
	k K
	v V
}

type model[K comparable, V comparable] struct {
	cap int
	es  []ent[K, V]
}

func (m *model[K, V]) find(k K) int {
	for i, e := range m.es {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *model[K, V]) del(k K) {
	if i := m.find(k); i >= 0 {
		m.es = append(m.es[:i:i], m.es[i+1:]...)
	}
}

func (m *model[K, V]) put(k K, v V) (prev V, b bool) {
	if i := m.find(k); i >= 0 {
		prev, b = m.es[i].v, true
		m.del(k)
	} else if len(m.es) >= m.cap {
		m.es = m.es[1:]
	}
	m.es = append(m.es, ent[K, V]{k, v})
	return
}

func run[K comparable, V comparable](t *rapid.T, c *h.C, kind string, keys []K, vals []V) {
	n := rapid.IntRange(1, len(keys)+2).Draw(t, "capacity")
	m, mo := hashmap.NewLimitMap[K, V](n), &model[K, V]{cap: n}
	c.Note("%s capacity=%d", kind, n)
	c.Label(kind)
	steps := rapid.IntRange(1, 50).Draw(t, "steps")
	key := func() K { return keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")] }
	look := func(when string) {
		h.Must(t, c, m.Len() == len(mo.es) && m.Len() <= n, "%s: length %d, want %d (capacity %d)", when, m.Len(), len(mo.es), n)
		for _, k := range keys {
			v, b := m.Get(k)
			i := mo.find(k)
			h.Must(t, c, b == (i >= 0) && (i < 0 || v == mo.es[i].v), "%s: get(%v) returns %v, %v; the model holds %v", when, k, v, b, mo.es)
		}
	}
	for s := 0; s < steps; s++ {
		when := fmt.Sprintf("step %d", s)
		switch rapid.SampledFrom([]string{"put", "put", "put", "put", "get", "del", "multi", "look"}).Draw(t, "op") {
		case "put":
			k, v := key(), vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
			c.Note("put(%v,%v)", k, v)
			if len(mo.es) == n && mo.find(k) < 0 {
				c.NonTrivial()
				c.Label("eviction")
			}
			p, b := m.Put(k, v)
			wp, wb := mo.put(k, v)
			h.Must(t, c, p == wp && b == wb, "%s: put(%v) returns %v, %v; want %v, %v", when, k, p, b, wp, wb)
			h.Must(t, c, m.Len() == len(mo.es), "%s: length %d after put, want %d", when, m.Len(), len(mo.es))
		case "get":
			k := key()
			c.Note("get(%v)", k)
			m.Get(k)
		case "del":
			k := key()
			c.Note("del(%v)", k)
			m.Del(k)
			mo.del(k)
		case "multi":
			var ks []K
			for i := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 12, 40}).Draw(t, "n"); i > 0; i-- {
				k := key()
				ks = append(ks, k)
			}
			c.Note("removeMulti(%v)", ks)
			m.RemoveMulti(ks)
			for _, k := range ks {
				mo.del(k)
			}
		case "look":
			look(when)
		}
	}
	look("at the end")
}

func TestHistory(t *testing.T) {
	h.Check(t, 10000, 120000, func(t *rapid.T, c *h.C) {
		nk := rapid.IntRange(2, 9).Draw(t, "keys")
		var sk []string
		var ik []int
		for i := 0; i < nk; i++ {
			sk, ik = append(sk, fmt.Sprintf("%.*s%d", i%3, "kk", i)), append(ik, i-1)
		}
		sk[0] = ""
		switch rapid.IntRange(0, 3).Draw(t, "types") {
		case 0:
			run(t, c, "string,int", sk, []int{0, 1, 2})
		case 1:
			run(t, c, "int,any", ik, []any{nil, 0, "x"})
		case 2:
			run(t, c, "any,string", []any{"", 0, int64(0), nil, "a", 1.5, true}, []string{"", "a"})
		default:
			run(t, c, "[2]int,*int", [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}}, []*int{nil, new(int)})
		}
	})
}

func TestLarge(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(1, 400).Draw(t, "capacity")
		space := rapid.IntRange(1, 800).Draw(t, "space")
		ops := rapid.IntRange(100, 2000).Draw(t, "ops")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("capacity %d, %d keys, %d operations", n, space, ops)
		c.NonTrivialIf(space > n)
		m, mo := hashmap.NewLimitMap[int, int](n), &model[int, int]{cap: n}
		for i := 0; i < ops; i++ {
			k := r.Intn(space)
			switch r.Intn(8) {
			case 0:
				m.Del(k)
				mo.del(k)
			case 1:
				m.Get(k)
			default:
				p, b := m.Put(k, i)
				wp, wb := mo.put(k, i)
				h.Must(t, c, p == wp && b == wb, "operation %d: put(%d) returns %d, %v; want %d, %v", i, k, p, b, wp, wb)
			}
			h.Must(t, c, m.Len() == len(mo.es), "operation %d: length %d, want %d", i, m.Len(), len(mo.es))
		}
		for k := 0; k < space; k++ {
			v, b := m.Get(k)
			i := mo.find(k)
			h.Must(t, c, b == (i >= 0) && (i < 0 || v == mo.es[i].v), "get(%d) = %d, %v", k, v, b)
		}
	})
}

// TestHuge: capacities of up to more than a hundred thousand.
func TestHuge(t *testing.T) {
	h.Check(t, 4, 20, func(t *rapid.T, c *h.C) {
		n := h.Huge(t, "capacity")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("capacity %d", n)
		c.NonTrivial()
		m, mo := hashmap.NewLimitMap[int, int](n), h.NewOrdered[int, int]()
		space := n + n/2 + 1
		for i := 0; i < 3*n; i++ {
			k := r.Intn(space)
			if i < n+n/8 {
				k = i
			}
			switch x := r.Intn(16); {
			case x == 0 && i > n+n/8:
				m.Del(k)
				mo.Del(k)
			case x == 1:
				v, b := m.Get(k)
				w, wb := mo.Get(k)
				h.Must(t, c, v == w && b == wb, "operation %d: get(%d) = %d, %v; want %d, %v", i, k, v, b, w, wb)
			default:
				p, b := m.Put(k, i)
				wp, wb := mo.Set(k, i, true)
				if mo.Len() > n {
					mo.DropBack()
				}
				h.Must(t, c, p == wp && b == wb, "operation %d: put(%d) returns %d, %v; want %d, %v", i, k, p, b, wp, wb)
			}
			h.Must(t, c, m.Len() == mo.Len(), "operation %d: length %d, want %d", i, m.Len(), mo.Len())
		}
		for k := 0; k < space; k++ {
			v, b := m.Get(k)
			w, wb := mo.Get(k)
			h.Must(t, c, v == w && b == wb, "at the end: get(%d) = %d, %v; want %d, %v", k, v, b, w, wb)
		}
	})
}
