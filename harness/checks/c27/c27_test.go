// The goroutine pool's occupancy under drawn schedules and virtual time.
package c27

import (
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"github.com/donnie4w/gofer/pool/gopool"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// limit: the documented maximum is the larger of the two limits, and never less than one.
func limit(min, max int64) int64 {
	if max < min {
		max = min
	}
	if max < 1 {
		max = 1
	}
	return max
}

func limits(t *rapid.T) (int64, int64) {
	return rapid.Int64Range(0, 5).Draw(t, "min"), rapid.Int64Range(0, 6).Draw(t, "max")
}

// Gates: every function stays until it is let go; after every step the number running is
// exactly the smaller of the maximum and the number outstanding, whatever was submitted
// while scheduling was off runs, and once the pool is closed everything does.
func TestGates(t *testing.T) {
	h.Check(t, 2000, 30000, func(t *rapid.T, c *h.C) {
		min, max := limits(t)
		m := int(limit(min, max))
		type step struct {
			Submit int
			Let    []int
			Boom   bool
			Turn   string
		}
		var steps []step
		total, off, closed := 0, false, false
		for n := rapid.IntRange(1, 8).Draw(t, "steps"); n > 0; n-- {
			s := step{Boom: rapid.IntRange(0, 3).Draw(t, "boom") == 0}
			switch k := rapid.IntRange(0, 11).Draw(t, "kind"); {
			case k == 3:
				off = !off
				s.Turn = map[bool]string{true: "off", false: "on"}[off]
				c.LabelIf(!closed, "scheduling is turned off")
			case k == 5:
				closed = true
				s.Turn = "close"
				c.Label("closed before the end")
			case k < 6:
				s.Submit = rapid.IntRange(1, 5).Draw(t, "submit")
			default:
				s.Let = rapid.SliceOfN(rapid.IntRange(0, 20), 1, 4).Draw(t, "let")
			}
			total += s.Submit
			steps = append(steps, s)
		}
		c.Note("min %d max %d steps %+v", min, max, steps)
		c.NonTrivialIf(total > m)
		c.LabelIf(total > m, "more work than places")
		h.Bubble(t, c, func(b *h.Bub) {
			p := gopool.NewPoolWithFuncLimit(min, max, total+1)
			type gate struct {
				ch       chan bool
				in, free atomic.Bool // has started; started outside of the pool's scheduling
				direct   bool        // submitted while off or closed
				done     bool
			}
			var gates []*gate
			var now, peak, starts atomic.Int64
			var free atomic.Bool
			closed := false
			out := 0
			running := func() (l []*gate) {
				for _, g := range gates {
					if g.in.Load() && !g.done {
						l = append(l, g)
					}
				}
				return
			}
			verify := func(what string) {
				time.Sleep(time.Second)
				b.FailIf(peak.Load() > int64(m), "%s: %d functions ran at once, the maximum is %d", what, peak.Load(), m)
				direct, directRun, pooled, pooledRun, schedRun := 0, 0, 0, 0, 0
				for _, g := range gates {
					if g.done {
						continue
					}
					run := 0
					if g.in.Load() {
						run = 1
					}
					if g.direct {
						direct, directRun = direct+1, directRun+run
					} else {
						pooled, pooledRun = pooled+1, pooledRun+run
						if !g.free.Load() {
							schedRun += run
						}
					}
				}
				want := pooled
				if want > m && !closed {
					want = m
				}
				b.FailIf(schedRun > m, "%s: %d functions run by the pool's scheduling, the maximum is %d", what, schedRun, m)
				b.FailIf(directRun != direct, "%s: %d of %d functions submitted while scheduling was off or the pool closed run", what, directRun, direct)
				b.FailIf(pooledRun < want, "%s: %d functions run with %d outstanding and a maximum of %d (closed: %v)", what, pooledRun, pooled, m, closed)
			}
			for _, s := range steps {
				switch s.Turn {
				case "off":
					free.Store(true)
					p.TurnOff(true)
				case "on":
					p.TurnOff(false)
					free.Store(closed)
				case "close":
					free.Store(true)
					closed = true
					p.Close()
				}
				for i := 0; i < s.Submit; i++ {
					g := &gate{ch: make(chan bool, 1), direct: free.Load()}
					gates = append(gates, g)
					out++
					at, quit := time.Now(), len(gates)%2 == 0
					p.Go(func() {
						starts.Add(1)
						g.free.Store(free.Load())
						sched := !g.direct && !g.free.Load()
						g.in.Store(true)
						if sched {
							n := now.Add(1)
							for {
								if o := peak.Load(); n <= o || peak.CompareAndSwap(o, n) {
									break
								}
							}
						}
						boom := <-g.ch
						if sched {
							now.Add(-1)
						}
						if boom && quit {
							runtime.Goexit()
						} else if boom {
							panic("a submitted function panics")
						}
					})
					b.FailIf(time.Since(at) > 100*time.Millisecond, "submission waited %v", time.Since(at))
				}
				for _, k := range s.Let {
					l := running()
					if len(l) == 0 {
						break
					}
					g := l[k%len(l)]
					g.done = true
					out--
					g.ch <- s.Boom && !g.free.Load() && !g.direct // outside of the pool nobody catches a panic
				}
				verify("after a step")
				if b.Failed() {
					break
				}
			}
			for !b.Failed() && out > 0 {
				l := running()
				for _, g := range l {
					g.done = true
					out--
					g.ch <- false
				}
				verify("while letting all go")
			}
			b.FailIf(!b.Failed() && starts.Load() != int64(total), "%d of %d functions started", starts.Load(), total)
			for _, g := range gates {
				if !g.done {
					g.ch <- false
				}
			}
			p.Close()
			time.Sleep(time.Minute)
		})
	})
}

// Free running work from several submitters: the maximum holds at every instant.
func TestPeak(t *testing.T) {
	h.Check(t, 1500, 20000, func(t *rapid.T, c *h.C) {
		min, max := limits(t)
		m := limit(min, max)
		type work struct {
			Gap, Dur int
			Boom     int // 1: panics, 2: ends its goroutine
		}
		prog := make([][]work, rapid.IntRange(1, 4).Draw(t, "submitters"))
		n := 0
		for i := range prog {
			for k := rapid.IntRange(1, 8).Draw(t, "functions"); k > 0; k-- {
				prog[i] = append(prog[i], work{rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "gap"), rapid.IntRange(0, 5).Draw(t, "dur"), rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "boom")})
				n++
			}
		}
		unit := rapid.SampledFrom([]time.Duration{100 * time.Nanosecond, time.Microsecond, time.Millisecond}).Draw(t, "unit")
		c.Note("min %d max %d unit %v %+v", min, max, unit, prog)
		c.NonTrivialIf(int64(n) > m)
		h.Bubble(t, c, func(b *h.Bub) {
			p := gopool.NewPool(min, max)
			var now, worst, starts, ends atomic.Int64
			for i := range prog {
				b.Go(func() {
					for _, w := range prog[i] {
						time.Sleep(time.Duration(w.Gap) * unit)
						p.Go(func() {
							starts.Add(1)
							k := now.Add(1)
							if k > m && k > worst.Load() {
								worst.Store(k)
							}
							time.Sleep(time.Duration(w.Dur) * unit)
							now.Add(-1)
							ends.Add(1)
							switch w.Boom {
							case 1:
								panic("a submitted function panics")
							case 2:
								runtime.Goexit()
							}
						})
					}
				})
			}
			time.Sleep(time.Minute)
			b.FailIf(worst.Load() > m, "%d functions ran at once, the maximum is %d", worst.Load(), m)
			b.FailIf(starts.Load() != int64(n), "%d functions submitted, %d started", n, starts.Load())
			b.FailIf(ends.Load() != int64(n), "%d functions submitted, %d ended", n, ends.Load())
			p.Close()
			time.Sleep(time.Minute)
		})
	})
}
