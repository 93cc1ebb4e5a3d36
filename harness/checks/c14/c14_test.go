// Concurrent histories of every container under drawn schedules, checked for linearizability.
package c14

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/donnie4w/gofer/cache"
	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// op is one operation; ks are the keys of a multiple deletion, n the stop of an iteration.
type op struct {
	kind string
	k, v int
	ks   []int
	n    int
}

func (o op) String() string {
	switch o.kind {
	case "put", "los":
		return fmt.Sprintf("%s(%d,%d)", o.kind, o.k, o.v)
	case "multi":
		return fmt.Sprintf("multi%v", o.ks)
	case "asc", "desc":
		return fmt.Sprintf("%s(%d)", o.kind, o.n)
	case "len", "clear", "front", "back", "nodes":
		return o.kind
	case "owner", "ownerStr", "next":
		return fmt.Sprintf("%s(value %d)", o.kind, o.n)
	case "addAll":
		return fmt.Sprintf("addAll%v", o.ks)
	}
	return fmt.Sprintf("%s(%d)", o.kind, o.k)
}

// res is what an operation returned; unused parts are zero.
type res struct {
	v    int
	b    bool
	list string
}

func (r res) String() string {
	if r.list != "" {
		return r.list
	}
	return fmt.Sprintf("%d,%v", r.v, r.b)
}

type kv struct{ k, v int }

// state: the entries, in the container's order of importance (first leaves last), or by key.
type state string // encoded so that states compare; small maps only

func enc(es []kv) state {
	var b strings.Builder
	for _, e := range es {
		b.WriteByte(byte(e.k))
		b.WriteByte(byte(e.v))
		b.WriteByte(byte(e.v >> 8))
	}
	return state(b.String())
}

func dec(s state) (es []kv) {
	for i := 0; i < len(s); i += 3 {
		es = append(es, kv{int(s[i]), int(s[i+1]) | int(s[i+2])<<8})
	}
	return
}

func find(es []kv, k int) int {
	for i, e := range es {
		if e.k == k {
			return i
		}
	}
	return -1
}

func without(es []kv, i int) []kv { return append(append([]kv(nil), es[:i]...), es[i+1:]...) }

// kind describes one container: how to make and drive it, and its sequential meaning.
type kind struct {
	name string
	ops  []string
	make func(cap int) func(op) res
	cap  bool
	// model
	byKey      bool // no order among entries
	putFront   bool // put of a present key moves it to the front
	getFront   bool // get moves to the front
	putReturns bool
	delReturns bool
	ordered    bool // iteration shows the order
	// ask answers operations that only look, from the keys present
	ask func(keys []int, o op) res
}

func show(es []kv) string {
	var b strings.Builder
	b.WriteByte('[')
	for _, e := range es {
		fmt.Fprintf(&b, "%d=%d ", e.k, e.v)
	}
	b.WriteByte(']')
	return b.String()
}

// step is the sequential meaning.
func (kd *kind) step(cap int, s state, o op) (state, res) {
	es := dec(s)
	i := find(es, o.k)
	var r res
	front := func(i int, v int) {
		k := es[i].k
		es = append([]kv{{k, v}}, without(es, i)...)
	}
	insert := func(v int) {
		es = append([]kv{{o.k, v}}, es...)
		if kd.byKey {
			sort.Slice(es, func(a, b int) bool { return es[a].k < es[b].k })
		} else if cap > 0 && len(es) > cap {
			es = es[:cap]
		}
	}
	switch o.kind {
	case "put":
		if i >= 0 {
			if kd.putReturns {
				r = res{v: es[i].v, b: true}
			}
			if kd.putFront {
				front(i, o.v)
			} else {
				es[i].v = o.v
			}
		} else {
			insert(o.v)
		}
	case "los":
		if i >= 0 {
			r = res{v: es[i].v, b: true}
		} else {
			r = res{v: o.v}
			insert(o.v)
		}
	case "get":
		if i >= 0 {
			r = res{v: es[i].v, b: true}
			if kd.getFront {
				front(i, es[i].v)
			}
		}
	case "has":
		r = res{b: i >= 0}
	case "del":
		if i >= 0 {
			es = without(es, i)
		}
		r = res{b: kd.delReturns && i >= 0}
	case "multi":
		for _, k := range o.ks {
			if j := find(es, k); j >= 0 {
				es = without(es, j)
			}
		}
	case "tofront":
		if i >= 0 {
			front(i, es[i].v)
		}
	case "asc":
		r = res{list: show(es[:min(o.n, len(es))])}
	case "desc":
		var rev []kv
		for j := len(es) - 1; j >= 0 && len(rev) < o.n; j-- {
			rev = append(rev, es[j])
		}
		r = res{list: show(rev)}
	case "addAll":
		for _, k := range o.ks {
			if find(es, k) < 0 {
				es = append(es, kv{k, 0})
			}
		}
		sort.Slice(es, func(a, b int) bool { return es[a].k < es[b].k })
	case "add":
		if i < 0 {
			insert(0)
		}
	case "owner", "ownerStr", "next":
		keys := make([]int, len(es))
		for j, e := range es {
			keys[j] = e.k
		}
		r = kd.ask(keys, o)
	case "nodes":
		r = res{list: show(es)}
	case "len":
		r = res{v: len(es)}
	case "clear":
		es = nil
	case "front":
		if len(es) > 0 {
			r = res{v: es[0].v<<8 | es[0].k, b: true}
		}
	case "back":
		if n := len(es); n > 0 {
			r = res{v: es[n-1].v<<8 | es[n-1].k, b: true}
		}
	}
	return enc(es), r
}

type gpd interface {
	Put(int, int) (int, bool)
	Get(int) (int, bool)
}

func gp(m gpd, o op) (r res, done bool) {
	switch o.kind {
	case "put":
		v, b := m.Put(o.k, o.v)
		return res{v: v, b: b}, true
	case "get":
		v, b := m.Get(o.k)
		return res{v: v, b: b}, true
	}
	return
}

func visit(n int, run func(func(int, int) bool)) res {
	var got []kv
	run(func(k, v int) bool { got = append(got, kv{k, v}); return len(got) < n })
	return res{list: show(got)}
}

func sorted(run func(func(int, int) bool)) res {
	var got []kv
	run(func(k, v int) bool { got = append(got, kv{k, v}); return true })
	sort.Slice(got, func(a, b int) bool { return got[a].k < got[b].k })
	return res{list: show(got)}
}

func lhm(segs int) func(int) func(op) res {
	return func(cap int) func(op) res {
		m := hashmap.NewLimitHashMapWithSegment[int, int](cap, segs)
		return func(o op) res {
			if r, ok := gp(m, o); ok {
				return r
			}
			switch o.kind {
			case "has":
				return res{b: m.Contains(o.k)}
			case "del":
				m.Del(o.k)
			case "len":
				return res{v: m.Len()}
			case "clear":
				m.Clear()
			}
			return res{}
		}
	}
}

var kinds = []*kind{
	{name: "Map", ops: []string{"put", "put", "get", "has", "del"}, byKey: true, putReturns: true, delReturns: true,
		make: func(int) func(op) res {
			m := hashmap.NewMap[int, int]()
			return func(o op) res {
				if r, ok := gp(m, o); ok {
					return r
				}
				switch o.kind {
				case "has":
					return res{b: m.Has(o.k)}
				case "del":
					return res{b: m.Del(o.k)}
				case "asc":
					return sorted(m.Range)
				}
				return res{}
			}
		}},
	{name: "MapL", ops: []string{"put", "put", "get", "has", "del", "del"}, byKey: true, putReturns: true, delReturns: true,
		make: func(int) func(op) res {
			m := hashmap.NewMapL[int, int]()
			return func(o op) res {
				if r, ok := gp(m, o); ok {
					return r
				}
				switch o.kind {
				case "has":
					return res{b: m.Has(o.k)}
				case "del":
					return res{b: m.Del(o.k)}
				case "len":
					return res{v: int(m.Len())}
				case "asc":
					return sorted(m.Range)
				}
				return res{}
			}
		}},
	{name: "LimitMap", ops: []string{"put", "put", "put", "get", "get", "del", "multi", "len"}, cap: true, putFront: true, putReturns: true,
		make: func(cap int) func(op) res {
			m := hashmap.NewLimitMap[int, int](cap)
			return func(o op) res {
				if r, ok := gp(m, o); ok {
					return r
				}
				switch o.kind {
				case "del":
					m.Del(o.k)
				case "multi":
					m.RemoveMulti(o.ks)
				case "len":
					return res{v: m.Len()}
				}
				return res{}
			}
		}},
	{name: "LimitHashMap one segment", ops: []string{"put", "put", "put", "get", "get", "has", "del", "clear", "len"}, cap: true, putReturns: true, make: lhm(1)},
	{name: "LimitHashMap segments", ops: []string{"put", "put", "put", "get", "get", "has", "del"}, byKey: true, putReturns: true,
		make: func(int) func(op) res { return lhm(2)(64) }},
	{name: "LinkedHashMap", ops: []string{"put", "put", "los", "los", "get", "get", "del", "tofront", "clear", "front", "back", "len"}, cap: true, putFront: true, ordered: true,
		make: func(cap int) func(op) res {
			m := hashmap.NewLinkedHashMap[int, int](int64(cap))
			iter := func(front bool, n int) res {
				it := m.Iterator(front)
				return visit(n, func(f func(int, int) bool) {
					for i := 0; i < 20; i++ {
						k, v, ok := it.Next()
						if !ok || !f(k, v) {
							return
						}
					}
				})
			}
			return func(o op) res {
				switch o.kind {
				case "put":
					m.Put(o.k, o.v)
				case "los":
					v, b := m.LoadOrStore(o.k, o.v)
					return res{v: v, b: b}
				case "get":
					v, b := m.Get(o.k)
					return res{v: v, b: b}
				case "del":
					m.Delete(o.k)
				case "tofront":
					m.MoveToFront(o.k)
				case "len":
					return res{v: int(m.Len())}
				case "clear":
					m.Clear()
				case "front":
					k, v, b := m.Front()
					return res{v: v<<8 | k, b: b}
				case "back":
					k, v, b := m.Back()
					return res{v: v<<8 | k, b: b}
				case "asc":
					return iter(true, o.n)
				case "desc":
					return iter(false, o.n)
				}
				return res{}
			}
		}},
	{name: "TreeMap", ops: []string{"put", "put", "put", "get", "del", "asc", "desc"}, byKey: true, putReturns: true, ordered: true,
		make: func(cap int) func(op) res {
			m := hashmap.NewTreeMap[int, int](2)
			return func(o op) res {
				if r, ok := gp(m, o); ok {
					return r
				}
				switch o.kind {
				case "del":
					m.Del(o.k)
				case "asc":
					return visit(o.n, m.Ascend)
				case "desc":
					return visit(o.n, m.Descend)
				}
				return res{}
			}
		}},
	{name: "LruCache", ops: []string{"put", "put", "get", "get", "del", "multi"}, cap: true, putFront: true, getFront: true,
		make: func(cap int) func(op) res {
			m := cache.NewLruCache[int](cap)
			key := func(k int) string { return string(rune('a' + k)) }
			return func(o op) res {
				switch o.kind {
				case "put":
					m.Add(key(o.k), o.v)
				case "get":
					v, b := m.Get(key(o.k))
					return res{v: v, b: b}
				case "del":
					m.Remove(key(o.k))
				case "multi":
					var ks []string
					for _, k := range o.ks {
						ks = append(ks, key(k))
					}
					m.RemoveMulti(ks)
				}
				return res{}
			}
		}},
	{name: "Consistenthash", ops: []string{"add", "add", "addAll", "del", "del", "owner", "owner", "ownerStr", "next", "nodes"}, byKey: true,
		ask: func(keys []int, o op) res {
			id := fmt.Sprint(keys, o)
			r, ok := asked[id]
			if !ok {
				m := hashmap.NewConsistenthash(3)
				for _, k := range keys {
					m.Add(int64(k))
				}
				r = askRing(m, o)
				asked[id] = r
			}
			return r
		},
		make: func(int) func(op) res {
			m := hashmap.NewConsistenthash(3)
			return func(o op) res {
				switch o.kind {
				case "add":
					m.Add(int64(o.k))
				case "addAll":
					var ks []int64
					for _, k := range o.ks {
						ks = append(ks, int64(k))
					}
					m.Add(ks...)
				case "del":
					m.Del(int64(o.k))
				default:
					return askRing(m, o)
				}
				return res{}
			}
		}},
}

// asked remembers what fresh rings of given nodes answer.
var asked = map[string]res{}

func askRing(m *hashmap.Consistenthash, o op) (r res) {
	var n int64
	switch o.kind {
	case "owner":
		n, r.b = m.Get(int64(o.n))
		r.v = int(n)
	case "ownerStr":
		n, r.b = m.GetStr(fmt.Sprint("value", o.n))
		r.v = int(n)
	case "next":
		ns, _ := m.GetNextNodeStr(fmt.Sprint("value", o.n), 2)
		r.list = fmt.Sprint(ns)
	case "nodes":
		var es []kv
		for _, n := range m.Nodes() {
			es = append(es, kv{int(n), 0})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		r.list = show(es)
	}
	return
}

func (kd *kind) has(o string) bool {
	if looks := o == "nodes" || o == "ownerStr"; looks || kd.ask != nil {
		return looks && kd.ask != nil
	}
	switch kd.name {
	case "LruCache":
		return o != "len" && o != "asc" && o != "desc"
	case "Map":
		return o == "asc"
	case "MapL":
		return o != "desc"
	case "TreeMap":
		return o != "len"
	case "LinkedHashMap":
		return true
	}
	return o == "len"
}

type rec struct {
	g         int
	o         op
	r         res
	call, ret int64
}

func draw(t *rapid.T, kd *kind, nk int, val *int) op {
	o := op{kind: rapid.SampledFrom(kd.ops).Draw(t, "op"), k: rapid.IntRange(0, nk-1).Draw(t, "k")}
	switch o.kind {
	case "put", "los":
		*val++
		o.v = *val
	case "multi", "addAll":
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
			o.ks = append(o.ks, rapid.IntRange(0, nk-1).Draw(t, "mk"))
		}
	case "asc", "desc":
		o.n = rapid.IntRange(1, nk+1).Draw(t, "stop")
	case "owner", "ownerStr", "next":
		o.n = rapid.IntRange(0, 30).Draw(t, "value")
	}
	return o
}

func TestLinearizable(t *testing.T) {
	for _, kd := range kinds {
		t.Run(strings.ReplaceAll(kd.name, " ", "_"), func(t *testing.T) {
			h.Check(t, 1500, 20000, func(t *rapid.T, c *h.C) {
				nk := rapid.IntRange(1, 5).Draw(t, "keys")
				cap := 0
				if kd.cap {
					cap = rapid.IntRange(1, 4).Draw(t, "capacity")
				}
				many := kd.name == "TreeMap" && rapid.IntRange(0, 3).Draw(t, "bigTree") == 0
				if many { // several nodes, so that splits and merges happen
					nk = 12
				}
				val := 0
				var pre, post []op
				npre := rapid.IntRange(0, 6).Draw(t, "before")
				if many {
					npre = rapid.IntRange(3, 14).Draw(t, "before")
				}
				for i := 0; i < npre; i++ {
					pre = append(pre, draw(t, kd, nk, &val))
				}
				g := rapid.IntRange(2, 4).Draw(t, "goroutines")
				prog := make([][]op, g)
				maxOps, from := 4, kd
				if rapid.IntRange(0, 2).Draw(t, "dense") == 0 {
					// everything is there, and everybody does a little of one kind of thing
					maxOps = 2
					if kd.cap {
						cap = max(cap, nk)
					}
					pre = nil
					for k := range nk {
						val++
						pre = append(pre, op{kind: kd.ops[0], k: k, v: val})
					}
					one := *kd
					one.ops = []string{rapid.SampledFrom(kd.ops).Draw(t, "all")}
					if rapid.Bool().Draw(t, "two") {
						one.ops = append(one.ops, rapid.SampledFrom(kd.ops).Draw(t, "some"))
					}
					from = &one
				}
				for i := range prog {
					for n := rapid.IntRange(1, maxOps).Draw(t, "ops"); n > 0; n-- {
						prog[i] = append(prog[i], draw(t, from, nk, &val))
					}
				}
				// afterwards: look at everything, then go on with more operations (which
				// shows what an order gone wrong would evict), then look again
				look := func() {
					for _, o := range []string{"len", "asc", "desc", "nodes", "ownerStr"} {
						if kd.has(o) {
							post = append(post, op{kind: o, n: 99})
						}
					}
					if kd.ask != nil {
						for n := 0; n < 20; n += 3 {
							post = append(post, op{kind: "owner", n: n})
						}
						return
					}
					if !kd.getFront {
						for k := 0; k < nk; k++ {
							post = append(post, op{kind: "get", k: k})
						}
					}
				}
				look()
				for n := rapid.IntRange(0, 3).Draw(t, "after"); n > 0; n-- {
					post = append(post, draw(t, kd, nk+1, &val))
				}
				fresh := 0
				if kd.cap { // new keys push out the least important ones, in their order
					fresh = rapid.IntRange(0, cap).Draw(t, "fresh")
					for i := 1; i <= fresh; i++ {
						val++
						post = append(post, op{kind: "put", k: nk + i, v: val})
					}
				}
				look()
				if kd.getFront {
					for k := 0; k <= nk+fresh; k++ {
						post = append(post, op{kind: "get", k: k})
					}
				}
				c.Note("%s capacity %d: before %v, concurrently %v", kd.name, cap, pre, prog)
				c.NonTrivial()
				var mu sync.Mutex
				var hist []rec
				h.Bubble(t, c, func(b *h.Bub) {
					do := kd.make(cap)
					run := func(g int, o op) {
						e := rec{g: g, o: o, call: b.Tick()}
						e.r = do(o)
						e.ret = b.Tick()
						mu.Lock()
						hist = append(hist, e)
						mu.Unlock()
					}
					for _, o := range pre {
						run(0, o)
					}
					for i := range prog {
						b.Go(func() {
							for _, o := range prog[i] {
								run(i+1, o)
							}
						})
					}
					b.Wait()
					if b.Failed() {
						return
					}
					for _, o := range post {
						run(0, o)
					}
				})
				overlap := 0
				for i := range hist {
					for j := range hist[:i] {
						if hist[i].call < hist[j].ret && hist[j].call < hist[i].ret {
							overlap++
						}
					}
				}
				c.LabelIf(overlap > 0, "overlapping operations")
				var evs []porcupine.Operation
				for _, e := range hist {
					evs = append(evs, porcupine.Operation{ClientId: e.g, Input: e.o, Output: e.r, Call: e.call, Return: e.ret})
				}
				model := porcupine.Model{
					Init: func() any { return state("") },
					Step: func(s, in, out any) (bool, any) {
						n, r := kd.step(cap, s.(state), in.(op))
						return r == out.(res), n
					},
					Equal: func(a, b any) bool { return a.(state) == b.(state) },
				}
				if porcupine.CheckOperationsTimeout(model, evs, 60*time.Second) == porcupine.Illegal {
					sort.Slice(hist, func(i, j int) bool { return hist[i].call < hist[j].call })
					var sb strings.Builder
					for _, e := range hist {
						fmt.Fprintf(&sb, "\n  [%3d,%3d] goroutine %d: %v -> %v", e.call, e.ret, e.g, e.o, e.r)
					}
					h.Must(t, c, false, "%s (capacity %d): no order of these operations explains what they returned:%s", kd.name, cap, sb.String())
				}
			})
		})
	}
}
