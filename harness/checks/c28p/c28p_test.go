// Pools of objects and buffers under truly parallel load.
package c28p

import (
	"bytes"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	gobuffer "github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/pool/buffer"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type object struct {
	owner atomic.Int64
	data  []int64
}

func TestParallel(t *testing.T) {
	h.Check(t, 150, 2500, func(t *rapid.T, c *h.C) {
		workers := rapid.IntRange(1, 8).Draw(t, "goroutines")
		each := rapid.SampledFrom([]int{5, 50, 400}).Draw(t, "each")
		held := rapid.IntRange(1, 4).Draw(t, "held")
		seed := rapid.Uint64().Draw(t, "seed")
		c.Note("goroutines %d each %d held %d seed %x", workers, each, held, seed)
		c.NonTrivialIf(workers > 1)
		objs := buffer.NewPool(func() *object { return &object{} }, func(o *object) { o.data = o.data[:0] })
		bufs := buffer.NewBufferPool(8)
		var bad sync.Map
		fail := func(f string, a ...any) { bad.Store(fmt.Sprintf(f, a...), true) }
		var wg sync.WaitGroup
		for w := 1; w <= workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						fail("a goroutine crashed: %v", p)
					}
				}()
				r := h.NewRand(seed + uint64(w))
				me := int64(w)
				for i := 0; i < each; i++ {
					var os []*object
					var bs []*bytes.Buffer
					var gs []*gobuffer.Buffer
					fill := bytes.Repeat([]byte{byte(w), byte(i)}, int(r.Next()%200))
					if r.Next()%20 == 0 {
						fill = bytes.Repeat(fill, int(1+r.Next()%400))
					}
					for k := 0; k < held; k++ {
						o := objs.Get()
						if !o.owner.CompareAndSwap(0, me) {
							fail("goroutine %d gets an object that goroutine %d holds", me, o.owner.Load())
						}
						if len(o.data) != 0 {
							fail("an object comes from the pool with %v", o.data)
						}
						o.data = append(o.data, me)
						os = append(os, o)
						b := bufs.Get(int(r.Next() % 5000))
						g := gobuffer.NewBufferByPool()
						if b.Len() != 0 || g.Len() != 0 {
							fail("a buffer comes from the pool with %d or %d bytes", b.Len(), g.Len())
						}
						b.Write(fill)
						g.Write(fill)
						bs, gs = append(bs, b), append(gs, g)
					}
					if r.Next()%4 == 0 {
						runtime.Gosched()
					}
					for k := range os {
						if len(os[k].data) != 1 || os[k].data[0] != me || os[k].owner.Load() != me {
							fail("an object held by goroutine %d changed", me)
						}
						if !bytes.Equal(bs[k].Bytes(), fill) || !bytes.Equal(gs[k].Bytes(), fill) {
							fail("a buffer held by goroutine %d changed", me)
						}
						os[k].owner.Store(0)
						if !objs.Put(&os[k]) || os[k] != nil {
							fail("returning an object does not clear the handle")
						}
						bufs.Put(bs[k])
						gs[k].Free()
					}
				}
			}()
		}
		wg.Wait()
		bad.Range(func(k, _ any) bool { h.Must(t, c, false, "%v", k); return false })
	})
}
