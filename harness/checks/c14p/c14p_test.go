// Containers under truly parallel load: the runtime's own map checks, and each goroutine's
// own keys, show corruption.
package c14p

import (
	"fmt"
	"strconv"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type face struct {
	put  func(k, v int)
	get  func(k int) (int, bool)
	del  func(k int)
	los  func(k, v int) (int, bool)
	len  func() int
	each func(f func(k, v int) bool)
	// extra are further operations, called with the key at hand; they may remove
	extra  []func(k int)
	capped bool
}

func make_(kind string, cap int) face {
	switch kind {
	case "Map":
		m := hashmap.NewMap[int, int]()
		return face{put: func(k, v int) { m.Put(k, v) }, get: m.Get, del: func(k int) { m.Del(k) }, each: m.Range}
	case "MapL":
		m := hashmap.NewMapL[int, int]()
		return face{put: func(k, v int) { m.Put(k, v) }, get: m.Get, del: func(k int) { m.Del(k) }, each: m.Range, len: func() int { return int(m.Len()) }}
	case "LimitMap":
		m := hashmap.NewLimitMap[int, int](cap)
		return face{put: func(k, v int) { m.Put(k, v) }, get: m.Get, del: m.Del, len: m.Len, capped: true,
			extra: []func(int){func(k int) { m.RemoveMulti([]int{k, k + 1, k + 7}) }, func(int) { m.Len() }}}
	case "LimitHashMap":
		m := hashmap.NewLimitHashMap[int, int](cap)
		return face{put: func(k, v int) { m.Put(k, v) }, get: m.Get, del: m.Del, len: m.Len, capped: true,
			extra: []func(int){func(k int) { m.Contains(k) }, func(int) { m.Len() }, func(k int) { m.Del(k + 1) }, func(int) { m.Clear() }}}
	case "LimitHashMap1":
		m := hashmap.NewLimitHashMapWithSegment[int, int](cap, 1)
		return face{put: func(k, v int) { m.Put(k, v) }, get: m.Get, del: m.Del, len: m.Len, capped: true,
			extra: []func(int){func(k int) { m.Contains(k) }, func(int) { m.Len() }, func(k int) { m.Del(k + 1) }, func(int) { m.Clear() }}}
	case "LinkedHashMap":
		m := hashmap.NewLinkedHashMap[int, int](int64(cap))
		extra := []func(int){func(k int) { m.MoveToFront(k) }, func(int) { m.Front() }, func(int) { m.Back() }, func(int) { m.Len() }, func(int) { m.Clear() }}
		return face{put: m.Put, get: m.Get, del: m.Delete, los: m.LoadOrStore, len: func() int { return int(m.Len()) }, capped: true, extra: extra, each: func(f func(k, v int) bool) {
			it := m.Iterator(true)
			for i := 0; i < 1<<20; i++ {
				k, v, ok := it.Next()
				if !ok || !f(k, v) {
					return
				}
			}
		}}
	case "TreeMap":
		m := hashmap.NewTreeMap[int, int](2 + cap%5)
		return face{put: func(k, v int) { m.Put(k, v) }, get: m.Get, del: m.Del, each: m.Ascend}
	default:
		m := cache.NewLruCache[int](cap)
		s := strconv.Itoa
		return face{put: func(k, v int) { m.Add(s(k), v) }, get: func(k int) (int, bool) { return m.Get(s(k)) }, del: func(k int) { m.Remove(s(k)) }, capped: true,
			extra: []func(int){func(k int) { m.RemoveMulti([]string{s(k), s(k + 1)}) }}}
	}
}

func TestParallel(t *testing.T) {
	h.Check(t, 700, 6000, func(t *rapid.T, c *h.C) {
		kind := rapid.SampledFrom([]string{"Map", "MapL", "LimitMap", "LimitHashMap", "LimitHashMap1", "LinkedHashMap", "TreeMap", "LruCache"}).Draw(t, "kind")
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		nk := rapid.IntRange(1, 40).Draw(t, "keysEach")
		ops := rapid.IntRange(50, 4000).Draw(t, "opsEach")
		roomy := rapid.Bool().Draw(t, "roomy")
		iter := rapid.IntRange(0, 3).Draw(t, "iterate") == 0
		wild := rapid.IntRange(0, 2).Draw(t, "wild") == 0
		cap := 64 * (g + 1) * nk
		if !roomy {
			cap = rapid.IntRange(1, g*nk).Draw(t, "capacity")
		}
		seed := rapid.Uint64().Draw(t, "seed")
		c.Note("%s: %d goroutines, %d own keys and %d shared ones, %d operations each, capacity %d", kind, g, nk, nk, ops, cap)
		c.Label(kind)
		c.NonTrivial()
		m := make_(kind, cap)
		wild = wild && m.extra != nil
		iter = iter && m.each != nil
		exact := (roomy || !m.capped) && !wild
		c.LabelIf(iter, "iterating")
		c.LabelIf(wild, "with operations on everything")
		var wg sync.WaitGroup
		bad := make([]string, g)
		own := make([]map[int]int, g)
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprintf("crash: %v", p)
					}
				}()
				r := h.NewRand(seed + uint64(i))
				mine := map[int]int{}
				for k := 0; k < ops && bad[i] == ""; k++ {
					key := (i+1)*nk + r.Intn(nk)
					shared := r.Intn(4) == 0
					if shared {
						key = r.Intn(nk)
					}
					val := k*8 + i
					switch x := r.Intn(10); {
					case wild && x == 9:
						m.extra[r.Intn(len(m.extra))](key)
					case x < 5:
						m.put(key, val)
						if !shared {
							mine[key] = val
						}
					case x < 6 && m.los != nil:
						v, loaded := m.los(key, val)
						if w, there := mine[key]; !shared && exact && (loaded != there || loaded && v != w || !loaded && v != val) {
							bad[i] = fmt.Sprintf("load-or-store of own key %d gives %d, %v; it holds %d, %v", key, v, loaded, w, there)
						} else if !shared && !loaded {
							mine[key] = val
						}
					case x < 8:
						v, ok := m.get(key)
						w, there := mine[key]
						if !shared && (ok && (!there || v != w) || exact && ok != there) {
							bad[i] = fmt.Sprintf("own key %d holds %d, %v; last written %d, %v", key, v, ok, w, there)
						}
					default:
						m.del(key)
						delete(mine, key)
					}
					if iter && k%97 == 0 {
						// own keys nobody touches meanwhile are all shown, as last written
						last, n, steps := -1, 0, 0
						m.each(func(k, v int) bool {
							if kind == "TreeMap" && k <= last {
								bad[i] = fmt.Sprintf("iteration goes from key %d to %d", last, k)
							}
							if own := k / nk; own == i+1 {
								if w, there := mine[k]; !there || w != v {
									bad[i] = fmt.Sprintf("iteration shows own key %d as %d; last written %d, %v", k, v, w, there)
								}
								n++
							}
							last = k
							steps++
							return bad[i] == "" && (kind != "LinkedHashMap" || steps < 2000)
						})
						if bad[i] == "" && n != len(mine) && kind != "LinkedHashMap" {
							bad[i] = fmt.Sprintf("iteration shows %d of %d own keys", n, len(mine))
						}
					}
				}
				own[i] = mine
			}()
		}
		wg.Wait()
		for i, s := range bad {
			h.Must(t, c, s == "", "goroutine %d: %s", i, s)
		}
		found := 0
		for k := 0; k < (g+1)*nk; k++ {
			v, ok := m.get(k)
			if ok {
				found++
			}
			if k < nk {
				continue
			}
			w, there := own[k/nk-1][k]
			h.Must(t, c, (!ok || there && v == w) && (!exact || ok == there), "afterwards key %d holds %d, %v; its only writer last wrote %d, %v", k, v, ok, w, there)
		}
		if m.len != nil {
			h.Must(t, c, m.len() == found, "afterwards the length is %d with %d keys present", m.len(), found)
			h.Must(t, c, !m.capped || found <= cap, "%d keys in a capacity of %d", found, cap)
		}
		if m.each != nil {
			n := 0
			m.each(func(k, v int) bool { n++; return true })
			h.Must(t, c, n == found, "afterwards iteration shows %d of %d keys", n, found)
		}
	})
}

// Goroutines adding and removing nodes of their own while all of them ask for owners.
func TestRing(t *testing.T) {
	h.Check(t, 150, 1500, func(t *rapid.T, c *h.C) {
		g := rapid.IntRange(2, 6).Draw(t, "goroutines")
		each := rapid.IntRange(1, 5).Draw(t, "nodesEach")
		ops := rapid.IntRange(20, 200).Draw(t, "opsEach")
		reps := rapid.SampledFrom([]int{1, 3, 20}).Draw(t, "replicas")
		seed := rapid.Uint64().Draw(t, "seed")
		c.Note("ring: %d goroutines with %d nodes each, %d operations each, %d replicas", g, each, ops, reps)
		c.NonTrivial()
		m := hashmap.NewConsistenthash(reps)
		const base = -1 // a node that is always there
		m.Add(base)
		var wg sync.WaitGroup
		bad := make([]string, g)
		left := make([]map[int64]bool, g)
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprintf("crash: %v", p)
					}
				}()
				r := h.NewRand(seed + uint64(i))
				mine := map[int64]bool{}
				ours := func(n int64) bool { return n >= 0 && int(n)/each == i }
				possible := func(n int64, ok bool) bool {
					return ok && (n == base || n >= 0 && int(n) < g*each && (!ours(n) || mine[n]))
				}
				for k := 0; k < ops && bad[i] == ""; k++ {
					node := int64(i*each + r.Intn(each))
					switch r.Intn(6) {
					case 0, 1:
						m.Add(node)
						mine[node] = true
					case 2:
						m.Del(node)
						delete(mine, node)
					case 3:
						v := int64(r.Intn(1 << 30))
						if n, ok := m.Get(v); !possible(n, ok) {
							bad[i] = fmt.Sprintf("the owner of %d is %d, %v; own nodes present: %v", v, n, ok, mine)
						}
					case 4:
						v := fmt.Sprint(r.Intn(1 << 30))
						if n, ok := m.GetStr(v); !possible(n, ok) {
							bad[i] = fmt.Sprintf("the owner of %q is %d, %v; own nodes present: %v", v, n, ok, mine)
						}
						ns, _ := m.GetNextNodeStr(v, 3)
						for _, n := range ns {
							if !possible(n, true) {
								bad[i] = fmt.Sprintf("the owners after that of %q are %d; own nodes present: %v", v, ns, mine)
							}
						}
					case 5:
						seen := 0
						for _, n := range m.Nodes() {
							if ours(n) && mine[n] {
								seen++
							} else if ours(n) {
								bad[i] = fmt.Sprintf("node %d is listed; own nodes present: %v", n, mine)
							}
						}
						if seen != len(mine) {
							bad[i] = fmt.Sprintf("%d own nodes are listed; present: %v", seen, mine)
						}
					}
				}
				left[i] = mine
			}()
		}
		wg.Wait()
		for i, s := range bad {
			h.Must(t, c, s == "", "goroutine %d: %s", i, s)
		}
		want := hashmap.NewConsistenthash(reps)
		want.Add(base)
		for _, l := range left {
			for n := range l {
				want.Add(n)
			}
		}
		for v := int64(0); v < 50; v++ {
			a, _ := m.Get(v * 7919)
			b, _ := want.Get(v * 7919)
			h.Must(t, c, a == b, "afterwards the owner of %d is %d; a fresh ring of the same nodes says %d", v*7919, a, b)
		}
	})
}
