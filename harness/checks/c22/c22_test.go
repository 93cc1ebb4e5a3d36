// Keyed locks under drawn schedules in virtual time.
package c22

import (
	"math"
	"testing"
	"time"

	"github.com/donnie4w/gofer/lock"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// both lock kinds behind one face; keys are indices into a drawn key list.
type face struct {
	lock, unlock, rlock, runlock func(k int)
	try, rtry                    func(k int) bool
	// lockRet locks and returns the unlock of the returned mutex
	lockRet, rlockRet func(k int) func()
	str               bool
}

func num(l *lock.Numlock, keys []int64) face {
	f := face{
		lock: func(k int) { l.Lock(keys[k]) }, unlock: func(k int) { l.Unlock(keys[k]) },
		try: func(k int) bool {
			m, ok := l.TryLock(keys[k])
			return ok && m != nil
		},
		lockRet: func(k int) func() { return l.Lock(keys[k]).Unlock },
	}
	return f
}

func str(l *lock.Strlock, keys []string) face {
	return face{
		lock: func(k int) { l.Lock(keys[k]) }, unlock: func(k int) { l.Unlock(keys[k]) },
		rlock: func(k int) { l.RLock(keys[k]) }, runlock: func(k int) { l.RUnlock(keys[k]) },
		try:      func(k int) bool { m, ok := l.TryLock(keys[k]); return ok && m != nil },
		rtry:     func(k int) bool { m, ok := l.TryRLock(keys[k]); return ok && m != nil },
		lockRet:  func(k int) func() { return l.Lock(keys[k]).Unlock },
		rlockRet: func(k int) func() { return l.RLock(keys[k]).RUnlock },
		str:      true,
	}
}

func stripes(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(1, 4), rapid.SampledFrom([]int{5, 7, 8, 10, 16, 64, 100})).Draw(t, "stripes")
}

func numKeys(t *rapid.T, n int) (ks []int64) {
	for i := 0; i < n; i++ {
		ks = append(ks, rapid.OneOf(rapid.Int64Range(0, 12), rapid.Int64Range(-5, 5), rapid.SampledFrom([]int64{math.MinInt64, math.MaxInt64, -1, 1 << 32, -1 << 33}), rapid.Int64()).Draw(t, "key"))
	}
	return
}

func strKeys(t *rapid.T, n int) (ks []string) {
	for i := 0; i < n; i++ {
		ks = append(ks, rapid.OneOf(rapid.SampledFrom([]string{"", "a", "b", "ab", "a\x00", "key"}), rapid.StringN(0, 8, 16)).Draw(t, "key"))
	}
	return
}

type act struct {
	kind string
	k    int
	hold time.Duration
	ret  bool
	gap  time.Duration
}

func dur(t *rapid.T, name string) time.Duration {
	return time.Duration(rapid.IntRange(0, 6).Draw(t, name)) * rapid.SampledFrom([]time.Duration{time.Nanosecond * 300, time.Microsecond * 5, time.Millisecond}).Draw(t, name+"Unit")
}

func TestExclusion(t *testing.T) {
	if !h.Instrumented {
		t.Skip("needs the instrumented build")
	}
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		n := stripes(t)
		nk := rapid.IntRange(1, 4).Draw(t, "keys")
		isStr := rapid.Bool().Draw(t, "string")
		var nkeys []int64
		var skeys []string
		same := func(i, j int) bool { return isStr && skeys[i] == skeys[j] || !isStr && nkeys[i] == nkeys[j] }
		if isStr {
			skeys = strKeys(t, nk)
			c.Note("string locks, %d stripes, keys %q", n, skeys)
		} else {
			nkeys = numKeys(t, nk)
			c.Note("number locks, %d stripes, keys %v", n, nkeys)
		}
		first := make([]int, nk) // equal keys share a lock
		for i := range first {
			for first[i] = 0; !same(first[i], i); {
				first[i]++
			}
		}
		kinds := []string{"lock", "lock", "try"}
		if isStr {
			kinds = append(kinds, "rlock", "rlock", "rtry")
		}
		g := rapid.IntRange(2, 5).Draw(t, "goroutines")
		prog := make([][]act, g)
		for i := range prog {
			for m := rapid.IntRange(1, 4).Draw(t, "acts"); m > 0; m-- {
				prog[i] = append(prog[i], act{rapid.SampledFrom(kinds).Draw(t, "kind"), rapid.IntRange(0, nk-1).Draw(t, "k"), dur(t, "hold"), rapid.Bool().Draw(t, "byReturned"), dur(t, "gap")})
			}
		}
		c.Note("%v", prog)
		c.NonTrivial()
		contended, shared, tryFailed := false, false, false
		h.Bubble(t, c, func(b *h.Bub) {
			var f face
			if isStr {
				f = str(lock.NewStrlock(n), skeys)
			} else {
				f = num(lock.NewNumLock(n), nkeys)
			}
			writers, readers, waiting := make([]int, nk), make([]int, nk), 0
			enter := func(who, k int, read bool) {
				k = first[k]
				b.FailIf(writers[k] > 0, "goroutine %d got key #%d (reading %v) while another goroutine holds it", who, k, read)
				b.FailIf(!read && readers[k] > 0, "goroutine %d locked key #%d while %d readers hold it", who, k, readers[k])
				if read {
					shared = shared || readers[k] > 0
					readers[k]++
				} else {
					writers[k]++
				}
			}
			leave := func(k int, read bool) {
				k = first[k]
				if read {
					readers[k]--
				} else {
					writers[k]--
				}
			}
			for i := range prog {
				b.Go(func() {
					for _, a := range prog[i] {
						time.Sleep(a.gap)
						read := a.kind == "rlock" || a.kind == "rtry"
						var undo func()
						contended = contended || waiting > 0
						waiting++
						switch a.kind {
						case "lock":
							undo = func() { f.unlock(a.k) }
							if a.ret {
								undo = f.lockRet(a.k)
							} else {
								f.lock(a.k)
							}
						case "rlock":
							undo = func() { f.runlock(a.k) }
							if a.ret {
								undo = f.rlockRet(a.k)
							} else {
								f.rlock(a.k)
							}
						case "try":
							if f.try(a.k) {
								undo = func() { f.unlock(a.k) }
							}
						case "rtry":
							if f.rtry(a.k) {
								undo = func() { f.runlock(a.k) }
							}
						}
						waiting--
						if undo == nil {
							tryFailed = true
							continue
						}
						enter(i, a.k, read)
						time.Sleep(a.hold)
						leave(a.k, read)
						undo()
					}
				})
			}
			b.Wait()
			for k := 0; k < nk && !b.Failed(); k++ {
				ok := f.try(k)
				b.FailIf(!ok, "key #%d stays locked although every goroutine has unlocked", k)
				if ok {
					f.unlock(k)
				}
				if f.str {
					ok = f.rtry(k)
					b.FailIf(!ok, "key #%d stays locked for readers although every goroutine has unlocked", k)
					if ok {
						f.runlock(k)
					}
				}
			}
		})
		c.LabelIf(contended, "contended")
		c.LabelIf(shared, "readers shared")
		c.LabelIf(tryFailed, "try failed")
	})
}

// Who waits for whom, with the schedule quiet so that any virtual time that passes is waiting.
func TestWaiting(t *testing.T) {
	if !h.Instrumented {
		t.Skip("needs the instrumented build")
	}
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		n := stripes(t)
		hold := time.Second
		plan := h.Plan{Seed: 1, Unit: time.Microsecond}
		what := rapid.SampledFrom([]string{"other stripe", "readers share", "try held", "handover"}).Draw(t, "what")
		c.Note("%s, %d stripes", what, n)
		c.Label(what)
		c.NonTrivial()
		switch what {
		case "other stripe":
			if n == 1 {
				n = 2
			}
			a, d := h.Int64(t, "a"), rapid.Int64Range(1, int64(n)-1).Draw(t, "difference")
			d += int64(n) * rapid.Int64Range(-3, 3).Draw(t, "rounds")
			x := a + d
			if a >= 0 != (x >= 0) || d > 0 != (x > a) { // same sign, no overflow
				a, x = int64(uint64(a)%1000000), int64(uint64(a)%1000000)+int64(n)*4+d
				if x < 0 {
					x = a + 1
				}
			}
			try := rapid.Bool().Draw(t, "try")
			c.Note("keys %d and %d", a, x)
			h.BubbleWith(t, c, plan, func(b *h.Bub) {
				l := lock.NewNumLock(n)
				l.Lock(a)
				b.Go(func() {
					s := time.Now()
					if try {
						_, ok := l.TryLock(x)
						b.FailIf(!ok, "try-lock of %d fails while %d is held (%d stripes)", x, a, n)
					} else {
						l.Lock(x)
					}
					if !b.Failed() {
						l.Unlock(x)
					}
					b.FailIf(time.Since(s) >= hold/2, "%d waits for %d (%d stripes)", x, a, n)
				})
				time.Sleep(hold)
				l.Unlock(a)
				b.Wait()
			})
		case "readers share":
			k, r := rapid.String().Draw(t, "k"), rapid.IntRange(2, 6).Draw(t, "readers")
			tries := rapid.SliceOfN(rapid.Bool(), r, r).Draw(t, "try")
			c.Note("%d readers of %q", r, k)
			h.BubbleWith(t, c, plan, func(b *h.Bub) {
				l := lock.NewStrlock(n)
				for i := 0; i < r; i++ {
					b.Go(func() {
						s := time.Now()
						if tries[i] {
							_, ok := l.TryRLock(k)
							b.FailIf(!ok, "try-read-lock fails while only readers hold the key")
							if !ok {
								return
							}
						} else {
							l.RLock(k)
						}
						b.FailIf(time.Since(s) >= hold/2, "a reader waits for readers")
						time.Sleep(hold)
						_, ok := l.TryLock(k)
						b.FailIf(ok, "try-lock succeeds while readers hold the key")
						time.Sleep(hold)
						l.RUnlock(k)
					})
				}
				b.Wait()
			})
		case "try held":
			isStr := rapid.Bool().Draw(t, "string")
			var f face
			if isStr {
				f = face{}
			}
			key, skey := h.Int64(t, "key"), rapid.String().Draw(t, "skey")
			writer := rapid.Bool().Draw(t, "heldByWriter") || !isStr
			h.BubbleWith(t, c, plan, func(b *h.Bub) {
				if isStr {
					f = str(lock.NewStrlock(n), []string{skey})
				} else {
					f = num(lock.NewNumLock(n), []int64{key})
				}
				if writer {
					f.lock(0)
				} else {
					f.rlock(0)
				}
				s := time.Now()
				b.FailIf(f.try(0), "try-lock succeeds while the key is held")
				if isStr {
					b.FailIf(f.rtry(0) == writer, "try-read-lock returns %v while the key is held (by a writer: %v)", !writer, writer)
				}
				b.FailIf(time.Since(s) >= hold/2, "try-lock waits")
			})
		case "handover":
			g := rapid.IntRange(2, 6).Draw(t, "goroutines")
			key := h.Int64(t, "key")
			h.BubbleWith(t, c, plan, func(b *h.Bub) {
				l := lock.NewNumLock(n)
				s := time.Now()
				in := 0
				for i := 0; i < g; i++ {
					b.Go(func() {
						l.Lock(key)
						in++
						b.FailIf(in != 1, "%d holders", in)
						time.Sleep(10 * time.Millisecond)
						in--
						l.Unlock(key)
					})
				}
				b.Wait()
				// 10 ms each, plus slack for the waiting loop of the instrumented mutex
				b.FailIf(time.Since(s) > time.Duration(g)*10*time.Millisecond*4, "%d holders of 10 ms each take %v", g, time.Since(s))
			})
		}
	})
}
