package c17

import (
	"fmt"
	"math"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type key interface {
	int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string
}

// model of one segment: entries in order of insertion.
type ent[K comparable, V comparable] struct {
	k K
	v V
}

type model[K comparable, V comparable] struct {
	cap int
	es  []ent[K, V]
}

func (m *model[K, V]) find(k K) int {
	for i, e := range m.es {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m *model[K, V]) del(k K) {
	if i := m.find(k); i >= 0 {
		m.es = append(m.es[:i:i], m.es[i+1:]...)
	}
}

func (m *model[K, V]) put(k K, v V) (prev V, b bool) {
	if i := m.find(k); i >= 0 {
		prev, b = m.es[i].v, true
		m.es[i].v = v
		return
	}
	if len(m.es) >= m.cap {
		m.es = m.es[1:]
	}
	m.es = append(m.es, ent[K, V]{k, v})
	return
}

// single drives a map of one segment against the exact model.
func single[K key, V comparable](t *rapid.T, c *h.C, kind string, keys []K, vals []V) {
	n := rapid.IntRange(1, len(keys)+2).Draw(t, "capacity")
	m, mo := hashmap.NewLimitHashMapWithSegment[K, V](n, 1), &model[K, V]{cap: n}
	c.Note("%s capacity=%d keys=%v", kind, n, keys)
	c.Label(kind)
	steps := rapid.IntRange(1, 50).Draw(t, "steps")
	key := func() K { return keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")] }
	look := func(when string) {
		h.Must(t, c, m.Len() == len(mo.es), "%s: length %d, want %d (capacity %d)", when, m.Len(), len(mo.es), n)
		for _, k := range keys {
			v, b := m.Get(k)
			i := mo.find(k)
			h.Must(t, c, b == (i >= 0) && (i < 0 || v == mo.es[i].v), "%s: get(%v) returns %v, %v; the model holds %v", when, k, v, b, mo.es)
			h.Must(t, c, m.Contains(k) == b, "%s: contains(%v) = %v, get says %v", when, k, !b, b)
		}
	}
	for s := 0; s < steps; s++ {
		when := fmt.Sprintf("step %d", s)
		switch rapid.SampledFrom([]string{"put", "put", "put", "put", "put", "put", "get", "del", "del", "look", "clear"}).Draw(t, "op") {
		case "put":
			k, v := key(), vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
			c.Note("put(%v,%v)", k, v)
			if len(mo.es) == n && mo.find(k) < 0 {
				c.NonTrivial()
				c.Label("eviction")
			}
			p, b := m.Put(k, v)
			wp, wb := mo.put(k, v)
			h.Must(t, c, p == wp && b == wb, "%s: put(%v) returns %v, %v; want %v, %v", when, k, p, b, wp, wb)
		case "get":
			k := key()
			c.Note("get(%v)", k)
			m.Get(k)
		case "del":
			k := key()
			c.Note("del(%v)", k)
			m.Del(k)
			mo.del(k)
		case "clear":
			if rapid.IntRange(0, 3).Draw(t, "really") == 0 {
				c.Note("clear")
				m.Clear()
				mo.es = nil
			}
		case "look":
			look(when)
		}
		h.Must(t, c, m.Len() == len(mo.es), "%s: length %d, want %d", when, m.Len(), len(mo.es))
	}
	look("at the end")
}

// many drives a map of several segments: bounded, and per key the last value or nothing.
// Where the capacity leaves room for every key in every segment, nothing may be lost.
func many[K key, V comparable](t *rapid.T, c *h.C, kind string, keys []K, vals []V) {
	var m *hashmap.LimitHashMap[K, V]
	segs := rapid.SampledFrom([]int{2, 3, 4, 5, 7, 8, 16, 64, 0}).Draw(t, "segments")
	var n int
	switch rapid.IntRange(0, 2).Draw(t, "room") {
	case 0:
		n = rapid.IntRange(1, 4).Draw(t, "capacity")
	case 1:
		n = rapid.IntRange(1, 2*len(keys)).Draw(t, "capacity")
	default:
		n = max(segs, 64) * len(keys)
	}
	if segs == 0 {
		m = hashmap.NewLimitHashMap[K, V](n)
	} else {
		m = hashmap.NewLimitHashMapWithSegment[K, V](n, segs)
	}
	roomy := n >= max(segs, 64)*len(keys)
	c.Note("%s capacity=%d segments=%d keys=%v", kind, n, segs, keys)
	c.Label("segments/" + kind)
	c.LabelIf(roomy, "roomy")
	last, present := map[K]V{}, map[K]bool{}
	steps := rapid.IntRange(1, 60).Draw(t, "steps")
	key := func() K { return keys[rapid.IntRange(0, len(keys)-1).Draw(t, "key")] }
	maybe := func(when string, k K, v V, b bool) {
		if roomy {
			h.Must(t, c, b == present[k], "%s: key %v is reported %v, though no key had to leave (present: %v)", when, k, b, present[k])
		}
		h.Must(t, c, !b || present[k], "%s: key %v is reported present with %v; it is not", when, k, v)
		if b {
			h.Must(t, c, v == last[k], "%s: key %v has %v, last put %v", when, k, v, last[k])
		} else {
			var zero V
			h.Must(t, c, v == zero, "%s: absent key %v has value %v", when, k, v)
			delete(present, k)
		}
	}
	for s := 0; s < steps; s++ {
		when := fmt.Sprintf("step %d", s)
		switch rapid.SampledFrom([]string{"put", "put", "put", "put", "put", "put", "get", "del", "look", "clear"}).Draw(t, "op") {
		case "put":
			k, v := key(), vals[rapid.IntRange(0, len(vals)-1).Draw(t, "val")]
			c.Note("put(%v,%v)", k, v)
			p, b := m.Put(k, v)
			maybe(when+" (previous value of put)", k, p, b)
			last[k], present[k] = v, true
			g, gb := m.Get(k)
			h.Must(t, c, gb && g == v, "%s: get right after put(%v,%v) returns %v, %v", when, k, v, g, gb)
			c.NonTrivialIf(len(present) > 1)
		case "get":
			k := key()
			v, b := m.Get(k)
			maybe(when, k, v, b)
		case "del":
			k := key()
			c.Note("del(%v)", k)
			m.Del(k)
			delete(present, k)
			h.Must(t, c, !m.Contains(k), "%s: contains deleted %v", when, k)
		case "clear":
			if rapid.IntRange(0, 3).Draw(t, "really") == 0 {
				c.Note("clear")
				m.Clear()
				present = map[K]bool{}
				h.Must(t, c, m.Len() == 0, "%s: length %d after clear", when, m.Len())
			}
		case "look":
			for _, k := range keys {
				v, b := m.Get(k)
				maybe(when, k, v, b)
			}
		}
		h.Must(t, c, m.Len() <= n, "%s: %d entries, capacity %d", when, m.Len(), n)
	}
	found := 0
	for _, k := range keys {
		v, b := m.Get(k)
		h.Must(t, c, m.Contains(k) == b, "at the end: contains(%v) = %v, get says %v", k, !b, b)
		maybe("at the end", k, v, b)
		if b {
			found++
		}
	}
	h.Must(t, c, found == m.Len(), "at the end: length %d, %d keys found", m.Len(), found)
}

func both[K key, V comparable](t *rapid.T, c *h.C, kind string, keys []K, vals []V) {
	if rapid.Bool().Draw(t, "single") {
		single(t, c, kind, keys, vals)
	} else {
		many(t, c, kind, keys, vals)
	}
}

func pick[K comparable](t *rapid.T, g *rapid.Generator[K], must ...K) []K {
	n := rapid.IntRange(2, 9).Draw(t, "keys")
	return append(rapid.SliceOfNDistinct(g, n, n, func(k K) K { return k }).Filter(func(ks []K) bool {
		for _, k := range ks {
			for _, m := range must {
				if m == k {
					return false
				}
			}
		}
		return true
	}).Draw(t, "keyset"), must...)
}

// two different strings with equal 64-bit FNV-1a hashes (a hash of zero is a fixed point
// of appending zero bytes)
const coll = "\xd5\x6b\xb9\x53\x42\x87\x08\x36"

var strs = []string{"", "\x00", "a", "b", "ab", "ba", "a\x00", "日", "1", "01", "key1", "key2", "key10", "\xff\xfe"}

func TestHistory(t *testing.T) {
	ints, anys := []int{0, 1, 2, -1}, []any{nil, 0, "x", 0.5}
	h.Check(t, 12000, 150000, func(t *rapid.T, c *h.C) {
		switch rapid.IntRange(0, 17).Draw(t, "types") {
		case 0:
			both(t, c, "int", pick(t, rapid.IntRange(-4, 200)), anys)
		case 1:
			both(t, c, "int8", pick(t, rapid.Int8()), ints)
		case 2:
			both(t, c, "int16", pick(t, rapid.Int16()), ints)
		case 3:
			both(t, c, "int32", pick(t, rapid.Int32()), ints)
		case 4:
			both(t, c, "int64", pick(t, rapid.Int64()), ints)
		case 5:
			both(t, c, "uint", pick(t, rapid.Uint()), ints)
		case 6:
			both(t, c, "uint8", pick(t, rapid.Uint8()), ints)
		case 7:
			both(t, c, "uint16", pick(t, rapid.Uint16()), ints)
		case 8:
			both(t, c, "uint32", pick(t, rapid.Uint32()), ints)
		case 9:
			both(t, c, "uint64", pick(t, rapid.Uint64()), ints)
		case 10:
			both(t, c, "uintptr", pick(t, rapid.Uintptr()), ints)
		case 11:
			both(t, c, "float64", pick(t, rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{0.25, 0.5, 0.75, 1, 1.5, 2, -1, -0.5, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300})).Filter(func(f float64) bool { return f != 0 })), ints)
		case 12:
			both(t, c, "float32", pick(t, rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0.25, 0.5, 0.75, 1, 1.5, 2, -1, -0.5, math.MaxFloat32, math.SmallestNonzeroFloat32})).Filter(func(f float32) bool { return f != 0 })), ints)
		case 13:
			both(t, c, "string, hashes collide", pick(t, rapid.SampledFrom(strs), coll, coll+"\x00", coll+"\x00\x00"), ints)
		case 14, 15:
			both(t, c, "string", pick(t, rapid.SampledFrom(strs)), anys)
		case 16:
			both(t, c, "string of any text", pick(t, rapid.String()), []string{"", "a", "b"})
		default:
			// keys sharing their low bits, so that they share a segment
			both(t, c, "int, one segment", pick(t, rapid.Custom(func(t *rapid.T) int { return rapid.IntRange(-9, 9).Draw(t, "k") << 6 })), ints)
		}
	})
}

func TestLarge(t *testing.T) {
	h.Check(t, 80, 1000, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(1, 400).Draw(t, "capacity")
		space := rapid.IntRange(1, 800).Draw(t, "space")
		ops := rapid.IntRange(100, 2000).Draw(t, "ops")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("capacity %d, %d keys, %d operations", n, space, ops)
		c.NonTrivialIf(space > n)
		m, mo := hashmap.NewLimitHashMapWithSegment[string, int](n, 1), &model[string, int]{cap: n}
		for i := 0; i < ops; i++ {
			k := fmt.Sprint("k", r.Intn(space))
			switch r.Intn(8) {
			case 0:
				m.Del(k)
				mo.del(k)
			case 1:
				m.Get(k)
			default:
				p, b := m.Put(k, i)
				wp, wb := mo.put(k, i)
				h.Must(t, c, p == wp && b == wb, "operation %d: put(%s) returns %d, %v; want %d, %v", i, k, p, b, wp, wb)
			}
			h.Must(t, c, m.Len() == len(mo.es), "operation %d: length %d, want %d", i, m.Len(), len(mo.es))
		}
		for j := 0; j < space; j++ {
			k := fmt.Sprint("k", j)
			v, b := m.Get(k)
			i := mo.find(k)
			h.Must(t, c, b == (i >= 0) && (i < 0 || v == mo.es[i].v), "get(%s) = %d, %v", k, v, b)
		}
	})
}

// TestHuge: capacities of up to more than a hundred thousand.
func TestHuge(t *testing.T) {
	h.Check(t, 4, 20, func(t *rapid.T, c *h.C) {
		n := h.Huge(t, "capacity")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		c.Note("capacity %d", n)
		c.NonTrivial()
		m, mo := hashmap.NewLimitHashMapWithSegment[uint64, int](n, 1), h.NewOrdered[uint64, int]()
		space := n + n/2 + 1
		for i := 0; i < 3*n; i++ {
			k := uint64(r.Intn(space)) << 20
			if i < n+n/8 {
				k = uint64(i) << 20
			}
			switch x := r.Intn(16); {
			case x == 0 && i > n+n/8:
				m.Del(k)
				mo.Del(k)
			case x == 1:
				v, b := m.Get(k)
				w, wb := mo.Get(k)
				h.Must(t, c, v == w && b == wb, "operation %d: get(%d) = %d, %v; want %d, %v", i, k, v, b, w, wb)
			default:
				p, b := m.Put(k, i)
				wp, wb := mo.Set(k, i, false)
				if mo.Len() > n {
					mo.DropBack()
				}
				h.Must(t, c, p == wp && b == wb, "operation %d: put(%d) returns %d, %v; want %d, %v", i, k, p, b, wp, wb)
			}
			h.Must(t, c, m.Len() == mo.Len(), "operation %d: length %d, want %d", i, m.Len(), mo.Len())
		}
		for j := 0; j < space; j++ {
			k := uint64(j) << 20
			v, b := m.Get(k)
			w, wb := mo.Get(k)
			h.Must(t, c, v == w && b == wb && m.Contains(k) == wb, "at the end: get(%d) = %d, %v; want %d, %v", k, v, b, w, wb)
		}
	})
}
