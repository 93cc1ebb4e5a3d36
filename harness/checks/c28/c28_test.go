// Pools of objects and buffers: histories and drawn schedules.
package c28

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	gobuffer "github.com/donnie4w/gofer/buffer"
	"github.com/donnie4w/gofer/pool/buffer"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type object struct {
	owner int
	id    int
	text  string
	list  []int
	m     map[string]int
	base  int
}

type pooler interface {
	Get() *object
	Put(**object) bool
}

type op struct {
	What, Slot, Gap int
}

func ops(t *rapid.T, maxOps int) []op {
	var l []op
	for n := rapid.IntRange(1, maxOps).Draw(t, "ops"); n > 0; n-- {
		l = append(l, op{rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "op"), rapid.IntRange(0, 3).Draw(t, "slot"), rapid.IntRange(0, 4).Draw(t, "gap")})
	}
	return l
}

func newPool(kind int, made *int) pooler {
	switch kind {
	case 0: // no constructor
		return buffer.NewPool[object](nil, func(o *object) { *o = object{owner: o.owner} })
	case 1:
		return buffer.NewPool(func() *object { *made++; return &object{m: map[string]int{}, base: 7} },
			func(o *object) { clear(o.m); o.text, o.list = "", o.list[:0] })
	default: // the constructor leaves something for the reset to do
		return buffer.NewPool(func() *object { *made++; return &object{text: "raw", list: []int{1}} },
			func(o *object) { o.text, o.list = "", nil })
	}
}

func clean(o *object, kind int) string {
	switch {
	case o.text != "" || len(o.list) != 0 || len(o.m) != 0:
		return fmt.Sprintf("an object comes from the pool with text %q, list %v, map %v", o.text, o.list, o.m)
	case kind == 1 && (o.m == nil || o.base != 7):
		return "an object comes from the pool without what its constructor makes"
	}
	return ""
}

func TestObjects(t *testing.T) {
	h.Check(t, 2000, 30000, func(t *rapid.T, c *h.C) {
		kind := rapid.IntRange(0, 2).Draw(t, "pool")
		prog := make([][]op, rapid.IntRange(1, 4).Draw(t, "goroutines"))
		puts := 0
		for i := range prog {
			prog[i] = ops(t, 12)
			for _, o := range prog[i] {
				if o.What > 0 {
					puts++
				}
			}
		}
		c.Note("pool %d %v", kind, prog)
		c.NonTrivialIf(puts > 0)
		c.LabelIf(len(prog) > 1, "concurrent")
		h.Bubble(t, c, func(b *h.Bub) {
			made := 0
			p := newPool(kind, &made)
			for i := range prog {
				b.Go(func() {
					me := i + 1
					slots := make([]*object, 4)
					seq := 0
					for _, o := range prog[i] {
						time.Sleep(time.Duration(o.Gap) * time.Microsecond)
						s := &slots[o.Slot]
						if o.What == 0 && *s == nil {
							x := p.Get()
							if x == nil {
								b.Fail("the pool gives nil")
								return
							}
							b.FailIf(x.owner != 0, "goroutine %d gets an object that goroutine %d holds", me, x.owner)
							x.owner = me
							seq++
							x.id = me*1000 + seq
							if why := clean(x, kind); why != "" {
								b.Fail("%s", why)
							}
							x.text, x.list = fmt.Sprint(x.id), append(x.list, x.id)
							if x.m != nil {
								x.m["id"] = x.id
							}
							*s = x
						} else if o.What > 0 {
							x := *s
							if x != nil {
								b.FailIf(x.owner != me || x.text != fmt.Sprint(x.id) || len(x.list) != 1 || x.list[0] != x.id,
									"the object goroutine %d holds changed: owner %d, text %q, list %v", me, x.owner, x.text, x.list)
								x.owner = 0
							}
							ok := p.Put(s)
							b.FailIf(ok != (x != nil), "returning %v reports %v", x != nil, ok)
							b.FailIf(*s != nil, "the handle is still set after the return")
							if o.What == 2 {
								b.FailIf(p.Put(s), "a second return through the handle is accepted")
							}
						}
						if b.Failed() {
							return
						}
					}
					for _, x := range slots {
						if x != nil && (x.owner != me || x.text != fmt.Sprint(x.id)) {
							b.Fail("the object goroutine %d holds changed: owner %d, text %q", me, x.owner, x.text)
						}
					}
				})
			}
			b.Wait()
		})
	})
}

// byteBuf is what the two kinds of pooled buffer share.
type byteBuf interface {
	Len() int
	Bytes() []byte
	String() string
	Write([]byte) (int, error)
	Read([]byte) (int, error)
}

func TestBuffers(t *testing.T) {
	h.Check(t, 2000, 30000, func(t *rapid.T, c *h.C) {
		own := rapid.Bool().Draw(t, "own") // gofer's buffer type or bytes.Buffer
		size := rapid.SampledFrom([]int{1, 2, 4, 10, 20}).Draw(t, "classes")
		type bop struct {
			op
			Len, N int
		}
		prog := make([][]bop, rapid.IntRange(1, 4).Draw(t, "goroutines"))
		puts := 0
		for i := range prog {
			for _, o := range ops(t, 12) {
				x := bop{o, rapid.SampledFrom([]int{-1, 0, 1, 7, 8, 9, 16, 100, 1024, 5000, 1 << 20}).Draw(t, "len"), rapid.SampledFrom([]int{0, 1, 5, 8, 40, 200, 3000}).Draw(t, "n")}
				if rapid.IntRange(0, 24).Draw(t, "much") == 17 {
					x.N = rapid.SampledFrom([]int{5000, 33000, 35000, 140000, 600000}).Draw(t, "n")
					c.LabelIf(x.N > 1<<15, "large content")
				}
				if o.What > 0 {
					puts++
				}
				prog[i] = append(prog[i], x)
			}
		}
		c.Note("own %v classes %d %v", own, size, prog)
		c.NonTrivialIf(puts > 0)
		c.LabelIf(own, "gofer buffer")
		h.Bubble(t, c, func(b *h.Bub) {
			p := buffer.NewBufferPool(size)
			get := func(n int) byteBuf {
				if own {
					return gobuffer.NewBufferByPool()
				}
				return p.Get(n)
			}
			for i := range prog {
				b.Go(func() {
					me := byte(i + 1)
					type slot struct {
						b    byteBuf
						want []byte
					}
					slots := make([]slot, 4)
					for k, o := range prog[i] {
						time.Sleep(time.Duration(o.Gap) * time.Microsecond)
						s := &slots[o.Slot]
						for j, x := range slots {
							b.FailIf(x.b != nil && !bytes.Equal(x.b.Bytes(), x.want), "goroutine %d: the buffer held in slot %d changed", me, j)
						}
						switch {
						case o.What == 0 && s.b == nil:
							x := get(o.Len)
							b.FailIf(x.Len() != 0 || x.String() != "" || len(x.Bytes()) != 0, "a buffer comes from the pool with %d bytes", x.Len())
							if x, ok := x.(*bytes.Buffer); ok && k%2 == 0 {
								b.FailIf(x.UnreadByte() == nil || x.Len() != 0, "a byte read by the last holder can be taken back from a fresh pooled buffer")
							}
							tmp := make([]byte, 4)
							n, _ := x.Read(tmp)
							b.FailIf(n != 0, "%d bytes can be read from a fresh pooled buffer", n)
							s.b, s.want = x, bytes.Repeat([]byte{me, byte(k)}, o.N)
							x.Write(s.want)
						case o.What > 0 && s.b != nil:
							if o.What == 2 && len(s.want) > 2 { // leave it partly read
								l := 3
								if len(s.want)%6 == 0 { // or wholly
									l = len(s.want)
								}
								tmp := make([]byte, l)
								n, _ := s.b.Read(tmp)
								b.FailIf(n != l || !bytes.Equal(tmp, s.want[:l]), "goroutine %d reads %.10v, wrote %.10v", me, tmp[:n], s.want[:l])
								s.want = s.want[l:]
							}
							b.FailIf(!bytes.Equal(s.b.Bytes(), s.want), "goroutine %d: the buffer changed before its return", me)
							if own {
								s.b.(*gobuffer.Buffer).Free()
							} else {
								b.FailIf(!p.Put(s.b.(*bytes.Buffer)), "returning a buffer reports failure")
							}
							s.b = nil
						}
						if b.Failed() {
							return
						}
					}
				})
			}
			b.Wait()
		})
	})
}
