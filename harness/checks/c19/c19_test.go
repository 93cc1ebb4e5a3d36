package c19

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/crc64"
	"io"
	"math/bits"
	"os"
	"slices"
	"sort"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/hashmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) {
	if os.Getenv("C19_CHILD") != "" {
		child()
		return
	}
	h.Main(m)
}

type ring struct {
	Replicas int
	Nodes    []int64
	Ints     []int64
	Strs     [][]byte
	Steps    []int
}

type answer struct {
	N  int64
	OK bool
}

type answers struct {
	Ints, Strs []answer
	Next       [][]int64
}

func build(replicas int, nodes []int64) *hashmap.Consistenthash {
	r := hashmap.NewConsistenthash(replicas)
	r.Add(nodes...)
	return r
}

func ask(r *hashmap.Consistenthash, q ring) (a answers) {
	for _, v := range q.Ints {
		n, ok := r.Get(v)
		a.Ints = append(a.Ints, answer{n, ok})
	}
	for i, v := range q.Strs {
		n, ok := r.GetStr(string(v))
		a.Strs = append(a.Strs, answer{n, ok})
		ns, ok2 := r.GetNextNodeStr(string(v), q.Steps[i])
		if ok2 != ok {
			ns = append([]int64{-1}, ns...)
		}
		a.Next = append(a.Next, append([]int64{}, ns...))
	}
	return
}

func child() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var q ring
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	o, _ := json.Marshal(ask(build(q.Replicas, q.Nodes), q))
	os.Stdout.Write(o)
	os.Exit(0)
}

func eq(a, b answers) string {
	for i := range a.Ints {
		if a.Ints[i] != b.Ints[i] {
			return fmt.Sprintf("owner of int key #%d: %v and %v", i, a.Ints[i], b.Ints[i])
		}
	}
	for i := range a.Strs {
		if a.Strs[i] != b.Strs[i] {
			return fmt.Sprintf("owner of string key #%d: %v and %v", i, a.Strs[i], b.Strs[i])
		}
		if !slices.Equal(a.Next[i], b.Next[i]) {
			return fmt.Sprintf("successors of string key #%d: %v and %v", i, a.Next[i], b.Next[i])
		}
	}
	return ""
}

func node(t *rapid.T) int64 {
	switch rapid.IntRange(0, 2).Draw(t, "nodeKind") {
	case 0:
		return int64(rapid.IntRange(0, 20).Draw(t, "node"))
	case 1:
		return int64(rapid.IntRange(-3, 1000).Draw(t, "node"))
	default:
		return h.Int64(t, "node")
	}
}

func nodes(t *rapid.T, max int) (ns []int64) {
	n := rapid.IntRange(0, max).Draw(t, "nodes")
	for len(ns) < n {
		if v := node(t); !slices.Contains(ns, v) {
			ns = append(ns, v)
		}
	}
	return
}

func keys(t *rapid.T, n int) (q ring) {
	r := h.NewRand(rapid.Uint64().Draw(t, "keyseed"))
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			q.Ints, q.Strs = append(q.Ints, int64(i)), append(q.Strs, []byte(fmt.Sprint("key", i)))
		case 1:
			q.Ints, q.Strs = append(q.Ints, int64(r.Next())), append(q.Strs, []byte(fmt.Sprintf("%x", r.Next())))
		default:
			b := make([]byte, r.Intn(20))
			for j := range b {
				b[j] = byte(r.Next())
			}
			q.Ints, q.Strs = append(q.Ints, -int64(i)), append(q.Strs, b)
		}
		q.Steps = append(q.Steps, 1+r.Intn(6))
	}
	return
}

func replicas(t *rapid.T) int {
	return rapid.SampledFrom([]int{1, 1, 2, 3, 5, 10, 50, 200}).Draw(t, "replicas")
}

// A history of adding and removing must answer as a fresh ring of the same nodes does.
func TestHistory(t *testing.T) {
	h.Check(t, 1000, 12000, func(t *rapid.T, c *h.C) {
		rep := replicas(t)
		pool := nodes(t, 12)
		if len(pool) == 0 {
			pool = []int64{0}
		}
		q := keys(t, 40)
		r := hashmap.NewConsistenthash(rep)
		set := map[int64]bool{}
		c.Note("replicas %d", rep)
		cur := func() (ns []int64) {
			for n := range set {
				ns = append(ns, n)
			}
			slices.Sort(ns)
			return
		}
		check := func(when string) {
			ns := cur()
			got := r.Nodes()
			slices.Sort(got)
			h.Must(t, c, slices.Equal(got, ns), "%s: nodes %v, want %v", when, got, ns)
			a := ask(r, q)
			perm := rapid.Permutation(ns).Draw(t, "order")
			d := eq(a, ask(build(rep, perm), q))
			h.Must(t, c, d == "", "%s: nodes %v: the ring and a fresh one (added as %v) disagree: %s", when, ns, perm, d)
			in := func(what string, as []answer) {
				for i, x := range as {
					h.Must(t, c, x.OK == (len(ns) > 0) && (!x.OK && x.N == 0 || set[x.N]), "%s: owner of %s key #%d is %d, %v with nodes %v", when, what, i, x.N, x.OK, ns)
				}
			}
			in("int", a.Ints)
			in("string", a.Strs)
			if len(ns) == 0 {
				_, ok := r.GetNextNodeStr("x", 1)
				h.Must(t, c, !ok, "%s: successors reported without nodes", when)
			}
		}
		steps := rapid.IntRange(1, 14).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			pick := func() int64 { return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "n")] }
			before, ns := ask(r, q), len(set)
			when := fmt.Sprintf("step %d", s)
			switch rapid.SampledFrom([]string{"add", "add", "addmany", "del", "del"}).Draw(t, "op") {
			case "add":
				n := pick()
				c.Note("add %d", n)
				r.Add(n)
				was := set[n]
				set[n] = true
				if ns > 0 {
					moved(t, c, when, q, before, ask(r, q), n, true, !was)
				}
			case "addmany":
				var add []int64
				for i := rapid.IntRange(0, 5).Draw(t, "many"); i > 0; i-- {
					add = append(add, pick())
				}
				c.Note("add %v", add)
				r.Add(add...)
				for _, n := range add {
					set[n] = true
				}
			case "del":
				n := pick()
				c.Note("del %d", n)
				r.Del(n)
				was := set[n]
				delete(set, n)
				if len(set) > 0 {
					moved(t, c, when, q, before, ask(r, q), n, false, was)
				}
				if was {
					c.NonTrivial()
				}
			}
			c.LabelIf(len(set) == 0, "empty ring")
			if rapid.IntRange(0, 2).Draw(t, "look") == 0 {
				check(when)
			}
		}
		check("at the end")
	})
}

// moved: which keys may change owner when node n came (or went).
func moved(t *rapid.T, c *h.C, when string, q ring, a, b answers, n int64, added, change bool) {
	one := func(what string, i int, x, y answer) {
		if x == y {
			return
		}
		h.Must(t, c, change, "%s: %s key #%d moves from %d to %d though the nodes are the same", when, what, i, x.N, y.N)
		if added {
			h.Must(t, c, y.N == n, "%s: adding %d moves %s key #%d from %d to %d", when, n, what, i, x.N, y.N)
		} else {
			h.Must(t, c, x.N == n, "%s: removing %d moves %s key #%d from %d to %d", when, n, what, i, x.N, y.N)
		}
	}
	for i := range a.Ints {
		one("int", i, a.Ints[i], b.Ints[i])
	}
	for i := range a.Strs {
		one("string", i, a.Strs[i], b.Strs[i])
	}
}

func TestSuccessors(t *testing.T) {
	h.Check(t, 1500, 18000, func(t *rapid.T, c *h.C) {
		rep := replicas(t)
		ns := nodes(t, 9)
		q := keys(t, 6)
		q.Strs = append(q.Strs, []byte(rapid.String().Draw(t, "key")))
		for _, n := range ns { // keys that fall exactly on a ring point, as points are made today
			q.Strs = append(q.Strs, binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64(nil, uint64(rapid.IntRange(0, rep-1).Draw(t, "point"))), uint64(n)))
		}
		r := build(rep, ns)
		c.Note("replicas %d nodes %v", rep, ns)
		c.NonTrivialIf(len(ns) > 2)
		for _, k := range q.Strs {
			step := rapid.IntRange(1, len(ns)+2).Draw(t, "step")
			got, ok := r.GetNextNodeStr(string(k), step)
			h.Must(t, c, ok == (len(ns) > 0), "successors of %q with nodes %v: %v", k, ns, ok)
			if len(ns) == 0 {
				h.Must(t, c, len(got) == 0, "successors of %q without nodes: %v", k, got)
				continue
			}
			owner, _ := r.GetStr(string(k))
			want := min(step, len(ns)-1)
			h.Must(t, c, len(got) == want, "%d successors of %q asked for, owner %d: %v of nodes %v", step, k, owner, got, ns)
			rest := slices.DeleteFunc(slices.Clone(ns), func(n int64) bool { return n == owner })
			for i, g := range got {
				h.Must(t, c, slices.Contains(rest, g), "successor %d of %q (owner %d) is %d: not a node, the owner or repeated in %v of %v", i, k, owner, g, got, ns)
				w, _ := build(rep, rest).GetStr(string(k))
				h.Must(t, c, w == g, "successor %d of %q is %d, but without %v the owner is %d (nodes %v)", i, k, g, append([]int64{owner}, got[:i]...), w, ns)
				rest = slices.DeleteFunc(rest, func(n int64) bool { return n == g })
			}
		}
	})
}

// Every process answers alike.
func TestProcesses(t *testing.T) {
	h.Check(t, 10, 60, func(t *rapid.T, c *h.C) {
		q := keys(t, 60)
		q.Replicas, q.Nodes = replicas(t), nodes(t, 12)
		c.Note("replicas %d nodes %v", q.Replicas, q.Nodes)
		c.NonTrivialIf(len(q.Nodes) > 1)
		in, _ := json.Marshal(q)
		out, err := h.Child("C19_CHILD=1", in)
		why := h.ChildError(err)
		h.Must(t, c, why == "", "nodes %v: %s", q.Nodes, why)
		var a answers
		if err := json.Unmarshal(out, &a); err != nil {
			panic(fmt.Sprintf("HARNESS-ERROR child: %v %.300s", err, out))
		}
		perm := rapid.Permutation(q.Nodes).Draw(t, "order")
		d := eq(ask(build(q.Replicas, perm), q), a)
		h.Must(t, c, d == "", "two processes disagree about nodes %v: %s", q.Nodes, d)
	})
}

// Goroutines adding and removing while others look up.
func TestConcurrent(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		rep := rapid.SampledFrom([]int{1, 3, 20}).Draw(t, "replicas")
		pool := nodes(t, 12)
		if len(pool) < 2 {
			pool = []int64{1, 2, 3}
		}
		stay := pool[:1+len(pool)/3]
		flux := pool[len(stay):]
		q := keys(t, 20)
		r := build(rep, stay)
		ops := rapid.IntRange(1, 20).Draw(t, "ops")
		c.Note("replicas %d staying %v changing %v", rep, stay, flux)
		c.NonTrivialIf(len(flux) > 1)
		var wg sync.WaitGroup
		var mu sync.Mutex
		bad := ""
		for i, n := range flux {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < ops; k++ {
					r.Add(n)
					if (i+k)%2 == 0 || k < ops-1 {
						r.Del(n)
					}
				}
			}()
		}
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < ops; k++ {
					a := ask(r, q)
					for _, x := range append(a.Ints, a.Strs...) {
						if !x.OK || !slices.Contains(pool, x.N) {
							mu.Lock()
							bad = fmt.Sprintf("owner %d, %v during changes", x.N, x.OK)
							mu.Unlock()
						}
					}
				}
			}()
		}
		wg.Wait()
		h.Must(t, c, bad == "", "%s", bad)
		final := r.Nodes()
		sort.Slice(final, func(i, j int) bool { return final[i] < final[j] })
		d := eq(ask(r, q), ask(build(rep, final), q))
		h.Must(t, c, d == "", "after concurrent changes the nodes are %v and the ring disagrees with a fresh one: %s", final, d)
	})
}

// The known finding: two nodes with a ring point in common (their owner then depends on
// the order of adding). CRC-64 is linear, so such pairs can be computed.
func TestCollidingNodes(t *testing.T) {
	tab := crc64.MakeTable(crc64.ECMA)
	state := func(i uint64) uint64 {
		var b [8]byte
		for j := range b {
			b[j] = byte(i >> (8 * (7 - j)))
		}
		return ^crc64.Checksum(b[:], tab)
	}
	differ := 0
	h.Check(t, 20, 100, func(t *rapid.T, c *h.C) {
		a := h.Int64(t, "node")
		b := a ^ int64(bits.ReverseBytes64(state(0)^state(1)))
		c.Note("nodes %d %d, replicas 2", a, b)
		c.NonTrivial()
		q := keys(t, 60)
		if eq(ask(build(2, []int64{a, b}), q), ask(build(2, []int64{b, a}), q)) != "" {
			differ++
		}
	})
	if differ > 0 {
		fmt.Println("FINDING key=consistent-hash-collision nodes a and a^0x" + fmt.Sprintf("%x", bits.ReverseBytes64(state(0)^state(1))) + " share a ring point; their owner depends on the order of adding")
	}
}

// With many replicas, nodes numbered in a row share the keys evenly enough.
func TestShares(t *testing.T) {
	h.Check(t, 150, 2000, func(t *rapid.T, c *h.C) {
		rep := rapid.IntRange(100, 300).Draw(t, "replicas")
		n := rapid.IntRange(2, 12).Draw(t, "nodes")
		first := int64(rapid.IntRange(0, 2000).Draw(t, "first"))
		if rapid.Bool().Draw(t, "far") {
			first = int64(rapid.Uint64Range(0, 1<<62).Draw(t, "first"))
		}
		const keys = 3000
		c.Note("replicas %d, nodes %d to %d", rep, first, first+int64(n)-1)
		c.NonTrivial()
		var ns []int64
		for i := range n {
			ns = append(ns, first+int64(i))
		}
		r := build(rep, ns)
		rnd := h.NewRand(rapid.Uint64().Draw(t, "keyseed"))
		str := rapid.Bool().Draw(t, "strings")
		got := map[int64]int{}
		for range keys {
			k := rnd.Next()
			o, ok := r.Get(int64(k))
			if str {
				o, ok = r.GetStr(fmt.Sprintf("%x", k))
			}
			h.Must(t, c, ok, "no owner among nodes %v", ns)
			got[o]++
		}
		for _, v := range ns {
			h.Must(t, c, got[v]*n*5 > keys && got[v]*n < 3*keys, "node %d of %v owns %d of %d keys", v, ns, got[v], keys)
		}
	})
}

// Many nodes with many replicas: the ring still answers as a fresh one, and every node has a share.
func TestManyNodes(t *testing.T) {
	manyNodes(t, 4, 40, []int{30, 100, 255, 256, 300, 500})
}

// The same with few replicas.
func TestManyNodesFewReplicas(t *testing.T) {
	manyNodes(t, 60, 600, []int{1, 1, 2, 3, 10})
}

func manyNodes(t *testing.T, quick, thorough int, replicas []int) {
	h.Check(t, quick, thorough, func(t *rapid.T, c *h.C) {
		rep := rapid.SampledFrom(replicas).Draw(t, "replicas")
		n := rapid.SampledFrom([]int{20, 100, 129, 200, 260}).Draw(t, "nodes")
		first := int64(rapid.IntRange(0, 2000).Draw(t, "first"))
		q := keys(t, 200)
		c.Note("replicas %d, nodes %d to %d", rep, first, first+int64(n)-1)
		c.NonTrivial()
		c.Label("large")
		var ns []int64
		for i := range n {
			ns = append(ns, first+int64(i))
		}
		a, b := build(rep, ns), hashmap.NewConsistenthash(rep)
		perm := rapid.Permutation(ns).Draw(t, "order")
		step := rapid.SampledFrom([]int{1, 1, 2, 7, 50}).Draw(t, "atOnce")
		for i := 0; i < len(perm); i += step {
			b.Add(perm[i:min(i+step, len(perm))]...)
		}
		if rapid.Bool().Draw(t, "extra") {
			b.Add(first+int64(n), first-1)
			b.Del(first + int64(n))
			b.Del(first - 1)
		}
		d := eq(ask(a, q), ask(b, q))
		h.Must(t, c, d == "", "rings of the same %d nodes disagree: %s", n, d)
		all := b.Nodes()
		slices.Sort(all)
		h.Must(t, c, slices.Equal(all, ns), "a ring of the nodes %d to %d has %d nodes", first, first+int64(n)-1, len(all))
		got := map[int64]int{}
		r := h.NewRand(rapid.Uint64().Draw(t, "keyseed"))
		for range 200 * n {
			o, ok := a.Get(int64(r.Next()))
			h.Must(t, c, ok, "no owner")
			got[o]++
		}
		for _, v := range ns {
			// with this many nodes a few shares reach four times the even one
			h.Must(t, c, rep < 100 || got[v] > 20 && got[v] < 1600, "node %d of %d owns %d of %d keys", v, n, got[v], 200*n)
		}
		gone := perm[:n/2]
		for _, v := range gone {
			a.Del(v)
		}
		d = eq(ask(a, q), ask(build(rep, perm[n/2:]), q))
		h.Must(t, c, d == "", "with %d of %d nodes removed, the ring and a fresh one disagree: %s", len(gone), n, d)
	})
}
