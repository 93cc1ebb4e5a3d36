package c13

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type amap[K any, V any] interface {
	Put(K, V) (V, bool)
	Get(K) (V, bool)
	Has(K) bool
	Del(K) bool
	Range(func(K, V) bool)
}

func run[K comparable, V any](t *rapid.T, c *h.C, kind string, m amap[K, V], length func() int64, keys []K, vals []V) {
	model := map[K]V{}
	key := func() K { return keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")] }
	steps := rapid.IntRange(1, 40).Draw(t, "steps")
	c.Note("%s", kind)
	c.Label(kind)
	var zero V
	for i := 0; i < steps; i++ {
		switch op := rapid.SampledFrom([]string{"put", "put", "put", "get", "has", "del", "del", "range", "stop"}).Draw(t, "op"); op {
		case "put":
			k, v := key(), vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
			c.Note("put(%v,%v)", k, show(v))
			prev, b := m.Put(k, v)
			w, there := model[k]
			h.Must(t, c, b == there && same(prev, w), "step %d: put of %v returns %v, %v; the map held %v, %v", i, k, show(prev), b, show(w), there)
			model[k] = v
			if there {
				c.NonTrivial()
				c.LabelIf(same(w, zero), "zero value replaced")
			}
		case "get":
			k := key()
			c.Note("get(%v)", k)
			v, b := m.Get(k)
			w, there := model[k]
			h.Must(t, c, b == there && same(v, w), "step %d: get of %v returns %v, %v; want %v, %v", i, k, show(v), b, show(w), there)
		case "has":
			k := key()
			_, there := model[k]
			h.Must(t, c, m.Has(k) == there, "step %d: has of %v returns %v", i, k, !there)
		case "del":
			k := key()
			c.Note("del(%v)", k)
			_, there := model[k]
			b := m.Del(k)
			h.Must(t, c, b == there, "step %d: del of %v returns %v", i, k, b)
			delete(model, k)
		case "range":
			all(t, c, m, model)
		case "stop":
			n := rapid.IntRange(1, len(keys)).Draw(t, "stopAfter")
			got, seen := 0, map[K]bool{}
			m.Range(func(k K, v V) bool {
				got++
				w, there := model[k]
				h.Must(t, c, there && same(v, w) && !seen[k], "step %d: ranging yields %v=%v (model %v, %v; seen %v)", i, k, show(v), show(w), there, seen[k])
				seen[k] = true
				return got < n
			})
			want := min(n, len(model))
			h.Must(t, c, got == want, "step %d: ranging told to stop after %d visited %d of %d", i, n, got, len(model))
		}
		if length != nil {
			h.Must(t, c, length() == int64(len(model)), "step %d: length is %d with %d entries", i, length(), len(model))
		}
	}
	for _, k := range keys {
		v, b := m.Get(k)
		w, there := model[k]
		h.Must(t, c, b == there && same(v, w) && m.Has(k) == there, "at the end: get of %v returns %v, %v, has %v; want %v, %v", k, show(v), b, m.Has(k), show(w), there)
	}
	all(t, c, m, model)
}

func all[K comparable, V any](t *rapid.T, c *h.C, m amap[K, V], model map[K]V) {
	seen := map[K]bool{}
	m.Range(func(k K, v V) bool {
		w, there := model[k]
		h.Must(t, c, there && same(v, w), "ranging yields %v=%v, the map holds %v, %v", k, show(v), show(w), there)
		h.Must(t, c, !seen[k], "ranging yields %v twice", k)
		seen[k] = true
		return true
	})
	h.Must(t, c, len(seen) == len(model), "ranging visits %d of %d entries", len(seen), len(model))
}

// same compares values of any kind; slices and maps, which have no equality, by content.
func same[V any](a, b V) bool {
	if v := reflect.ValueOf(&a).Elem(); v.Comparable() && reflect.ValueOf(&b).Elem().Comparable() {
		return any(a) == any(b)
	}
	return reflect.DeepEqual(a, b)
}

func show(v any) string { return fmt.Sprintf("%T(%v)", v, v) }

type holder struct {
	S string
	L []string
}

type point struct {
	X int
	S string
}

func both[K comparable, V any](t *rapid.T, c *h.C, kind string, keys []K, vals []V) {
	switch rapid.IntRange(0, 3).Draw(t, "map") {
	case 0:
		run[K, V](t, c, "Map/"+kind, hashmap.NewMap[K, V](), nil, keys, vals)
	case 1:
		run[K, V](t, c, "zero Map/"+kind, &hashmap.Map[K, V]{}, nil, keys, vals)
	case 2:
		m := hashmap.NewMapL[K, V]()
		run[K, V](t, c, "MapL/"+kind, m, m.Len, keys, vals)
	default:
		m := &hashmap.MapL[K, V]{}
		run[K, V](t, c, "zero MapL/"+kind, m, m.Len, keys, vals)
	}
}

func TestAgainstMap(t *testing.T) {
	a, b := 1, 2
	e := fmt.Errorf("e")
	h.Check(t, 12000, 150000, func(t *rapid.T, c *h.C) {
		nk := rapid.IntRange(1, 12).Draw(t, "keys")
		var sk []string
		var ik []int64
		var pk []point
		ak := []any{nil, 0, int64(0), "", "0", point{}, 1.5, true, uint8(0), int32(0), [2]int{}, struct{}{}}
		for i := 0; i < nk; i++ {
			sk = append(sk, rapid.StringN(0, 4, -1).Draw(t, "sk")+fmt.Sprint(i))
			ik = append(ik, int64(i)-2)
			pk = append(pk, point{i, ""}, point{0, fmt.Sprint(i)})
		}
		sk[0] = ""
		ak = ak[:nk]
		if nk == 1 {
			ak = []any{"only"}
		}
		switch rapid.IntRange(0, 10).Draw(t, "types") {
		case 0:
			both(t, c, "string,int", sk, []int{0, 1, -1, 7})
		case 1:
			both(t, c, "int64,any", ik, []any{nil, 0, "", "x", false, 7, (*int)(nil), &a})
		case 2:
			both(t, c, "struct,*int", pk[:nk], []*int{nil, &a, &b})
		case 3:
			both(t, c, "any,string", ak, []string{"", "a", "b"})
		case 4:
			both(t, c, "string,error", sk, []error{nil, e, fmt.Errorf("f")})
		case 5:
			both(t, c, "any,any", ak, []any{nil, 0, 1, ""})
		case 6:
			both(t, c, "string,[]byte", sk, [][]byte{nil, {}, {0}, []byte("ab")})
		case 7:
			both(t, c, "int64,[]int", ik, [][]int{nil, {}, {0}, {1, 2}})
		case 8:
			both(t, c, "string,holder", sk, []holder{{}, {S: "x"}, {L: []string{"x"}}, {L: []string{}}})
		case 9:
			both(t, c, "int64,any of all kinds", ik, []any{nil, []byte("x"), []byte("y"), map[string]int{"a": 1}, 7, "x", [1]any{[]int{1}}})
		default:
			both(t, c, "int64,bool", ik, []bool{false, true})
		}
	})
}

// Larger maps, so that the internal table grows and shrinks.
func TestGrowth(t *testing.T) {
	h.Check(t, 150, 1500, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(50, 3000).Draw(t, "n")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		space := rapid.IntRange(10, 4000).Draw(t, "space")
		delBias := rapid.IntRange(1, 9).Draw(t, "delBias")
		c.Note("%d operations over %d keys, deletes %d/10", n, space, delBias)
		c.NonTrivial()
		m, l, model := hashmap.NewMap[int, int](), hashmap.NewMapL[int, int](), map[int]int{}
		for i := 0; i < n; i++ {
			k := r.Intn(space)
			w, there := model[k]
			if r.Intn(10) < delBias {
				a, b := m.Del(k), l.Del(k)
				h.Must(t, c, a == there && b == there, "operation %d: del(%d) = %v, %v; want %v", i, k, a, b, there)
				delete(model, k)
			} else {
				p1, a := m.Put(k, i)
				p2, b := l.Put(k, i)
				h.Must(t, c, a == there && b == there && p1 == w && p2 == w, "operation %d: put(%d) = %d,%v and %d,%v; want %d,%v", i, k, p1, a, p2, b, w, there)
				model[k] = i
			}
			h.Must(t, c, l.Len() == int64(len(model)), "operation %d: length %d with %d entries", i, l.Len(), len(model))
		}
		all[int, int](t, c, m, model)
		all[int, int](t, c, l, model)
	})
}

// Maps of tens of thousands of entries, emptied and filled again.
func TestHuge(t *testing.T) {
	h.Check(t, 3, 30, func(t *rapid.T, c *h.C) {
		n := rapid.SampledFrom([]int{32768, 65535, 65537, 70000, 100000, 140000}).Draw(t, "n")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("%d keys", n)
		c.NonTrivial()
		m, l, model := hashmap.NewMap[int, int](), hashmap.NewMapL[int, int](), map[int]int{}
		for round := 0; round < 3; round++ {
			for i := 0; i < n; i++ {
				k := r.Intn(2 * n)
				w, there := model[k]
				if round == 1 && r.Intn(4) > 0 {
					k = i * 2
					w, there = model[k]
					a, b := m.Del(k), l.Del(k)
					h.Must(t, c, a == there && b == there, "round %d operation %d: del(%d) = %v, %v; want %v", round, i, k, a, b, there)
					delete(model, k)
					continue
				}
				p1, a := m.Put(k, i)
				p2, b := l.Put(k, i)
				h.Must(t, c, a == there && b == there && p1 == w && p2 == w, "round %d operation %d: put(%d) = %d,%v and %d,%v; want %d,%v", round, i, k, p1, a, p2, b, w, there)
				model[k] = i
			}
			h.Must(t, c, l.Len() == int64(len(model)), "round %d: length %d with %d entries", round, l.Len(), len(model))
			all[int, int](t, c, m, model)
			all[int, int](t, c, l, model)
		}
	})
}
