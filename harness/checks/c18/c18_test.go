package c18

import (
	"fmt"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type ent[K comparable, V comparable] struct {
	k K
	v V
}

// model: entries from front (most recently written) to back.
type model[K comparable, V comparable] struct {
	limit int
	es    []ent[K, V]
}

func (m *model[K, V]) find(k K) int {
	for i, e := range m.es {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *model[K, V]) del(k K) {
	if i := m.find(k); i >= 0 {
		m.es = append(m.es[:i:i], m.es[i+1:]...)
	}
}

func (m *model[K, V]) put(k K, v V) {
	m.del(k)
	m.es = append([]ent[K, V]{{k, v}}, m.es...)
	if len(m.es) > m.limit {
		m.es = m.es[:m.limit]
	}
}

func run[K comparable, V comparable](t *rapid.T, c *h.C, kind string, keys []K, vals []V) {
	n := rapid.IntRange(1, len(keys)+2).Draw(t, "limit")
	m, mo := hashmap.NewLinkedHashMap[K, V](int64(n)), &model[K, V]{limit: n}
	c.Note("%s limit=%d", kind, n)
	c.Label(kind)
	steps := rapid.IntRange(1, 50).Draw(t, "steps")
	key := func() K { return keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")] }
	val := func() V { return vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")] }
	end := func(when, which string, k K, v V, b bool, at int) {
		if len(mo.es) == 0 {
			var zk K
			var zv V
			h.Must(t, c, !b && k == zk && v == zv, "%s: %s of an empty map is %v=%v, %v", when, which, k, v, b)
			return
		}
		if at < 0 {
			at = len(mo.es) - 1
		}
		h.Must(t, c, b && k == mo.es[at].k && v == mo.es[at].v, "%s: %s is %v=%v, %v; the order is %v", when, which, k, v, b, mo.es)
	}
	ends := func(when string) {
		h.Must(t, c, m.Len() == int64(len(mo.es)), "%s: length %d, want %d (limit %d)", when, m.Len(), len(mo.es), n)
		k, v, b := m.Front()
		end(when, "front", k, v, b, 0)
		k, v, b = m.Back()
		end(when, "back", k, v, b, -1)
	}
	// walk iterates, deleting yielded entries as told, and compares with the order at its start.
	walk := func(when string, front bool, del func(i int) int) {
		want := append([]ent[K, V](nil), mo.es...)
		if !front {
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
		}
		it := m.Iterator(front)
		for i := 0; i <= len(want); i++ {
			k, v, ok := it.Next()
			if i == len(want) {
				h.Must(t, c, !ok, "%s: iterator (front %v) yields %v=%v after all %d entries", when, front, k, v, len(want))
				_, _, ok = it.Next()
				h.Must(t, c, !ok, "%s: a finished iterator (front %v) yields again", when, front)
				break
			}
			h.Must(t, c, ok && k == want[i].k && v == want[i].v, "%s: iterator (front %v) yields %v=%v, %v at place %d of %v", when, front, k, v, ok, i, want)
			if d := del(i); d >= 0 {
				c.Note("iter-del(%v)", want[d].k)
				m.Delete(want[d].k)
				mo.del(want[d].k)
			}
		}
	}
	look := func(when string) {
		ends(when)
		for _, k := range keys {
			v, b := m.Get(k)
			i := mo.find(k)
			var zero V
			h.Must(t, c, b == (i >= 0) && (i < 0 && v == zero || i >= 0 && v == mo.es[i].v), "%s: get(%v) returns %v, %v; the order is %v", when, k, v, b, mo.es)
		}
		walk(when, true, func(int) int { return -1 })
		walk(when, false, func(int) int { return -1 })
	}
	for s := 0; s < steps; s++ {
		when := fmt.Sprintf("step %d", s)
		switch op := rapid.SampledFrom([]string{"put", "put", "put", "put", "put", "los", "los", "get", "del", "front", "look", "walk", "clear"}).Draw(t, "op"); op {
		case "put":
			k, v := key(), val()
			c.Note("put(%v,%v)", k, v)
			if len(mo.es) == n && mo.find(k) < 0 {
				c.NonTrivial()
				c.Label("eviction")
			}
			m.Put(k, v)
			mo.put(k, v)
		case "los":
			k, v := key(), val()
			c.Note("loadOrStore(%v,%v)", k, v)
			a, loaded := m.LoadOrStore(k, v)
			if i := mo.find(k); i >= 0 {
				h.Must(t, c, loaded && a == mo.es[i].v, "%s: loadOrStore(%v,%v) of a present key returns %v, %v; it holds %v", when, k, v, a, loaded, mo.es[i].v)
				c.Label("load")
			} else {
				h.Must(t, c, !loaded && a == v, "%s: loadOrStore(%v,%v) of an absent key returns %v, %v", when, k, v, a, loaded)
				mo.put(k, v)
				c.Label("store")
			}
		case "get":
			k := key()
			c.Note("get(%v)", k)
			m.Get(k)
		case "del":
			k := key()
			c.Note("del(%v)", k)
			m.Delete(k)
			mo.del(k)
		case "front":
			k := key()
			c.Note("moveToFront(%v)", k)
			m.MoveToFront(k)
			if i := mo.find(k); i >= 0 {
				mo.put(k, mo.es[i].v)
			}
		case "look":
			look(when)
		case "walk":
			front := rapid.Bool().Draw(t, "fromFront")
			mask := rapid.Uint16().Draw(t, "which")
			off := rapid.IntRange(0, 2).Draw(t, "back")
			if mask != 0 && len(mo.es) > 1 {
				c.Label("deleting while iterating")
			}
			walk(when, front, func(i int) int {
				// off==0: the entry just yielded; else an earlier one
				if mask>>i&1 == 1 && i-off >= 0 {
					return i - off
				}
				return -1
			})
		case "clear":
			if rapid.IntRange(0, 3).Draw(t, "really") == 0 {
				c.Note("clear")
				m.Clear()
				mo.es = nil
			}
		}
		ends(when)
	}
	look("at the end")
}

func TestHistory(t *testing.T) {
	h.Check(t, 10000, 120000, func(t *rapid.T, c *h.C) {
		nk := rapid.IntRange(2, 9).Draw(t, "keys")
		var sk []string
		var ik []int
		for i := 0; i < nk; i++ {
			sk, ik = append(sk, fmt.Sprintf("%.*s%d", i%3, "kk", i)), append(ik, i-1)
		}
		sk[0] = ""
		switch rapid.IntRange(0, 3).Draw(t, "types") {
		case 0:
			run(t, c, "string,int", sk, []int{0, 1, 2})
		case 1:
			run(t, c, "int,any", ik, []any{nil, 0, "x"})
		case 2:
			run(t, c, "any,string", []any{"", 0, int64(0), "a", 1.5, true}, []string{"", "a"})
		default:
			run(t, c, "[2]int,*int", [][2]int{{0, 0}, {0, 1}, {1, 0}, {1, 1}}, []*int{nil, new(int)})
		}
	})
}

func TestLarge(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(1, 300).Draw(t, "limit")
		space := rapid.IntRange(1, 600).Draw(t, "space")
		ops := rapid.IntRange(100, 1500).Draw(t, "ops")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("limit %d, %d keys, %d operations", n, space, ops)
		c.NonTrivialIf(space > n)
		m, mo := hashmap.NewLinkedHashMap[int, int](int64(n)), &model[int, int]{limit: n}
		for i := 0; i < ops; i++ {
			k := r.Intn(space)
			switch r.Intn(10) {
			case 0:
				m.Delete(k)
				mo.del(k)
			case 1:
				m.MoveToFront(k)
				if j := mo.find(k); j >= 0 {
					mo.put(k, mo.es[j].v)
				}
			case 2:
				a, l := m.LoadOrStore(k, i)
				j := mo.find(k)
				h.Must(t, c, l == (j >= 0) && (j < 0 && a == i || j >= 0 && a == mo.es[j].v), "operation %d: loadOrStore(%d) = %d, %v", i, k, a, l)
				if j < 0 {
					mo.put(k, i)
				}
			default:
				m.Put(k, i)
				mo.put(k, i)
			}
			h.Must(t, c, m.Len() == int64(len(mo.es)), "operation %d: length %d, want %d", i, m.Len(), len(mo.es))
		}
		it := m.Iterator(true)
		for i, e := range mo.es {
			k, v, ok := it.Next()
			h.Must(t, c, ok && k == e.k && v == e.v, "place %d holds %d=%d, %v; want %v", i, k, v, ok, e)
		}
		_, _, ok := it.Next()
		h.Must(t, c, !ok, "more entries than expected")
	})
}

// TestHuge: limits of up to more than a hundred thousand.
func TestHuge(t *testing.T) {
	h.Check(t, 4, 20, func(t *rapid.T, c *h.C) {
		n := h.Huge(t, "limit")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("limit %d", n)
		c.NonTrivial()
		m, mo := hashmap.NewLinkedHashMap[int, int](int64(n)), h.NewOrdered[int, int]()
		space := n + n/2 + 1
		put := func(k, v int) {
			mo.Set(k, v, true)
			if mo.Len() > n {
				mo.DropBack()
			}
		}
		for i := 0; i < 3*n; i++ {
			k := r.Intn(space)
			if i < n+n/8 {
				k = i
			}
			switch x := r.Intn(16); {
			case x == 0 && i > n+n/8:
				m.Delete(k)
				mo.Del(k)
			case x == 1:
				m.MoveToFront(k)
				mo.Front(k)
			case x == 2:
				a, l := m.LoadOrStore(k, i)
				w, wl := mo.Get(k)
				if !wl {
					w = i
					put(k, i)
				}
				h.Must(t, c, a == w && l == wl, "operation %d: loadOrStore(%d) = %d, %v; want %d, %v", i, k, a, l, w, wl)
			case x == 3:
				v, b := m.Get(k)
				w, wb := mo.Get(k)
				h.Must(t, c, v == w && b == wb, "operation %d: get(%d) = %d, %v; want %d, %v", i, k, v, b, w, wb)
			default:
				m.Put(k, i)
				put(k, i)
			}
			h.Must(t, c, m.Len() == int64(mo.Len()), "operation %d: length %d, want %d", i, m.Len(), mo.Len())
		}
		for _, front := range []bool{true, false} {
			it := m.Iterator(front)
			i := 0
			mo.Each(front, func(k, v int) bool {
				a, b, ok := it.Next()
				h.Must(t, c, ok && a == k && b == v, "place %d (from the front: %v) holds %d=%d, %v; want %d=%d", i, front, a, b, ok, k, v)
				i++
				return true
			})
			_, _, ok := it.Next()
			h.Must(t, c, !ok, "more entries than expected")
		}
	})
}
