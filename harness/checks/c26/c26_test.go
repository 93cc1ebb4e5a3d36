// The goroutine pool under drawn schedules and virtual time: everything submitted runs exactly once.
package c26

import (
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

const (
	quick = iota
	nap
	boom
	nest
	pair // waits for nothing, but submits two
	quit // ends its goroutine
)

type fn struct {
	Kind, Gap, Dur int
	Kids           []fn
}

func draw(t *rapid.T, depth int) fn {
	f := fn{
		Kind: rapid.SampledFrom([]int{quick, quick, nap, nap, boom, nest, pair, quit}).Draw(t, "kind"),
		Gap:  rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}).Draw(t, "gap"),
		Dur:  rapid.IntRange(0, 6).Draw(t, "dur"),
	}
	if depth == 0 && f.Kind >= nest && f.Kind != quit {
		f.Kind = nap
	}
	if f.Kind == nest || f.Kind == pair {
		for i := nest; i <= f.Kind; i++ {
			f.Kids = append(f.Kids, draw(t, depth-1))
		}
	}
	return f
}

func size(f fn) int {
	n := 1
	for _, k := range f.Kids {
		n += size(k)
	}
	return n
}

type ctl struct{ Gap, What int }

func TestOnce(t *testing.T) {
	h.Check(t, 2500, 40000, func(t *rapid.T, c *h.C) {
		min := rapid.SampledFrom([]int64{0, 1, 1, 2, 3, 5}).Draw(t, "min")
		max := rapid.SampledFrom([]int64{0, 1, 1, 2, 2, 3, 4, 8}).Draw(t, "max")
		prog := make([][]fn, rapid.IntRange(1, 4).Draw(t, "submitters"))
		total, deep := 0, false
		for i := range prog {
			for n := rapid.IntRange(1, 6).Draw(t, "functions"); n > 0; n-- {
				f := draw(t, 2)
				deep = deep || len(f.Kids) > 0
				total += size(f)
				prog[i] = append(prog[i], f)
			}
		}
		// A function that submits to a full queue waits for its own pool: only give the
		// queue less room than needed when no function submits.
		room := -1
		if rapid.Bool().Draw(t, "bounded") {
			room = total
			if !deep {
				room = rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(t, "room")
			}
		}
		var control []ctl // 0 off, 1 on, 2 close, 3 off(true) twice
		if rapid.Bool().Draw(t, "controlled") {
			for n := rapid.IntRange(1, 5).Draw(t, "controls"); n > 0; n-- {
				control = append(control, ctl{rapid.IntRange(0, 10).Draw(t, "gap"), rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "what")})
			}
		}
		unit := rapid.SampledFrom([]time.Duration{time.Nanosecond * 100, time.Microsecond, time.Millisecond}).Draw(t, "unit")
		c.Note("min %d max %d room %d unit %v %+v control %v", min, max, room, unit, prog, control)
		c.NonTrivialIf(total > 1)
		c.LabelIf(len(control) > 0, "controlled")
		c.LabelIf(room >= 0 && room < total, "queue shorter than the work")
		h.Bubble(t, c, func(b *h.Bub) {
			var p *gopool.GoPool
			if room < 0 {
				p = gopool.NewPool(min, max)
			} else {
				p = gopool.NewPoolWithFuncLimit(min, max, room)
			}
			ran := make([]atomic.Int64, total)
			var ids atomic.Int64
			var closed atomic.Bool
			var submit func(f fn)
			submit = func(f fn) {
				id := ids.Add(1) - 1
				p.Go(func() {
					ran[id].Add(1)
					switch f.Kind {
					case nap:
						time.Sleep(time.Duration(f.Dur) * unit)
					case boom:
						time.Sleep(time.Duration(f.Dur) * unit)
						// A panic is the pool's to catch only while the pool runs its functions itself.
						if len(control) == 0 {
							panic("a submitted function panics")
						}
					case quit:
						time.Sleep(time.Duration(f.Dur) * unit)
						runtime.Goexit()
					}
					for _, k := range f.Kids {
						submit(k)
					}
				})
			}
			for i := range prog {
				b.Go(func() {
					for _, f := range prog[i] {
						time.Sleep(time.Duration(f.Gap) * unit)
						submit(f)
					}
				})
			}
			b.Go(func() {
				for _, x := range control {
					time.Sleep(time.Duration(x.Gap) * unit)
					switch x.What {
					case 0:
						p.TurnOff(true)
					case 1:
						p.TurnOff(false)
					case 2:
						p.Close()
						closed.Store(true)
					}
				}
			})
			check := func(when string) {
				b.Calm(func() {
					if n := ids.Load(); n != int64(total) {
						b.Fail("%s: %d of %d functions have been submitted; a submission is stuck", when, n, total)
						return
					}
					for i := range ran {
						b.FailIf(ran[i].Load() != 1, "%s: function %d ran %d times", when, i, ran[i].Load())
					}
					if n := p.NumUnExecu(); n != 0 {
						b.Fail("%s: all functions have run, the pool counts %d waiting", when, n)
					}
				})
			}
			time.Sleep(time.Minute)
			check("at rest")
			p.Close()
			time.Sleep(time.Minute)
			check("after closing")
			if b.Failed() {
				return
			}
			var late atomic.Int64
			p.Go(func() { late.Add(1) })
			time.Sleep(time.Minute)
			b.FailIf(late.Load() != 1, "a function submitted after closing ran %d times", late.Load())
		})
	})
}
