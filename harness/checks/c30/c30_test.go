// The buffered file: histories of several goroutines, under drawn schedules and truly parallel.
package c30

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/donnie4w/gofer/fastio"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type rec struct {
	Sync     bool
	Len, Gap int
	data     []byte
	off      int64
	ok       bool
	err      error
}

// fill makes record s of goroutine g: the top bits of every byte name the goroutine.
func fill(g, s, n int) []byte {
	r := h.NewRand(uint64(s)*1000003 + uint64(g))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g)<<5 | byte(r.Next()&31)
	}
	return b
}

var lens = []int{0, 1, 2, 3, 10, 10, 40, 100, 500, 4095, 4096, 4097, 9000}

func length(t *rapid.T) int {
	if rapid.IntRange(0, 15).Draw(t, "large") == 0 {
		return rapid.SampledFrom([]int{16384, 20000, 32768, 33000, 65536, 70000, 140000}).Draw(t, "len")
	}
	return rapid.SampledFrom(lens).Draw(t, "len")
}

type phase struct {
	Prog    [][]rec
	How     int // 0 Open, 1 New in append mode, 2 New without
	CloseAt int // -1: after all have returned
}

func draw(t *rapid.T, phases int) []phase {
	ps := make([]phase, rapid.IntRange(1, phases).Draw(t, "phases"))
	for k := range ps {
		p := &ps[k]
		p.How = rapid.IntRange(0, 2).Draw(t, "how")
		p.CloseAt = -1
		if rapid.IntRange(0, 4).Draw(t, "closing") == 0 {
			p.CloseAt = rapid.IntRange(0, 20).Draw(t, "closeat")
		}
		p.Prog = make([][]rec, rapid.IntRange(1, 5).Draw(t, "goroutines"))
		for i := range p.Prog {
			for n := rapid.IntRange(1, 6).Draw(t, "records"); n > 0; n-- {
				p.Prog[i] = append(p.Prog[i], rec{Sync: rapid.Bool().Draw(t, "sync"), Len: length(t), Gap: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 4}).Draw(t, "gap")})
			}
		}
	}
	return ps
}

func open(path string, how int) (fastio.File, error) {
	switch how {
	case 0:
		return fastio.Open(path)
	case 1:
		f, err := os.OpenFile(path, os.O_RDWR|os.O_APPEND|os.O_CREATE, 0o644)
		if err != nil {
			return nil, err
		}
		return fastio.New(f)
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	return fastio.New(f)
}

// explain checks that the bytes after the earlier content are the successful records, each
// whole, in the order of each goroutine, and nothing else.
func explain(prog [][]*rec, got []byte) (string, bool) {
	why := "a record is missing"
	var walk func(pos int, next []int) bool
	walk = func(pos int, next []int) bool {
		if pos == len(got) {
			for g := range prog {
				for _, r := range prog[g][next[g]:] {
					if r.Len > 0 && r.ok {
						return false
					}
				}
			}
			return true
		}
		g := int(got[pos] >> 5)
		if g >= len(prog) {
			why = "a byte of no record"
			return false
		}
		// Records that are empty, or whose write was refused, may be missing.
		for k := next[g]; k < len(prog[g]); k++ {
			r := prog[g][k]
			if r.Len > 0 && bytes.HasPrefix(got[pos:], r.data) {
				n := append([]int(nil), next...)
				n[g] = k + 1
				if walk(pos+r.Len, n) {
					return true
				}
			}
			if r.Len > 0 && r.ok {
				why = "the next record of a goroutine is damaged, missing or out of order"
				return false
			}
		}
		why = "more bytes of a goroutine than it wrote"
		return false
	}
	ok := walk(0, make([]int, len(prog)))
	return why, ok
}

func TestHistories(t *testing.T) {
	h.Check(t, 1200, 20000, func(t *rapid.T, c *h.C) {
		prior := h.Bytes(t, "prior", 6000)
		ps := draw(t, 3)
		c.Note("prior %d", len(prior))
		concurrent := false
		for _, p := range ps {
			c.Note("%+v", p)
			concurrent = concurrent || len(p.Prog) > 1
		}
		c.NonTrivialIf(concurrent)
		c.LabelIf(len(ps) > 1, "reopened")
		dir, err := os.MkdirTemp("", "c30")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "f")
		if len(prior) > 0 || rapid.Bool().Draw(t, "exists") {
			os.WriteFile(path, prior, 0o644)
		}
		h.Bubble(t, c, func(b *h.Bub) {
			for _, p := range ps {
				f, err := open(path, p.How)
				if err != nil {
					b.Fail("open: %v", err)
					return
				}
				prog := make([][]*rec, len(p.Prog))
				done := make(chan bool, len(prog))
				for i := range prog {
					for s := range p.Prog[i] {
						r := p.Prog[i][s]
						r.data = fill(i, s, r.Len)
						prog[i] = append(prog[i], &r)
					}
				}
				closing := p.CloseAt >= 0
				for i := range prog {
					b.Go(func() {
						defer func() { done <- true }()
						for s, r := range prog[i] {
							time.Sleep(time.Duration(r.Gap) * time.Microsecond)
							buf := append([]byte(nil), r.data...)
							var n int
							if r.Sync {
								r.off, r.err = f.WriteSync(buf)
								n = len(buf)
							} else {
								n, r.err = f.Write(buf)
							}
							for k := range buf { // the caller reuses its slice
								buf[k] = 0xff
							}
							r.ok = r.err == nil
							if !r.ok {
								if !closing {
									b.Fail("goroutine %d record %d: %v", i, s, r.err)
								}
								continue
							}
							b.FailIf(n != len(r.data), "goroutine %d record %d: a write of %d bytes reports %d", i, s, len(r.data), n)
							if r.Sync && r.Len > 0 {
								at := make([]byte, r.Len)
								var k int
								if closing {
									k = peek(path, at, r.off)
								} else {
									k, _ = f.ReadAt(at, r.off)
								}
								b.FailIf(k != r.Len || !bytes.Equal(at, r.data), "goroutine %d record %d (%d bytes): not in the file at the reported offset %d after the write returned", i, s, r.Len, r.off)
							}
						}
					})
				}
				if closing {
					time.Sleep(time.Duration(p.CloseAt) * 500 * time.Nanosecond)
					b.FailIf(f.Close() != nil, "close fails")
				}
				for range prog {
					<-done
				}
				verify := func(when string) {
					b.Calm(func() {
						all, err := os.ReadFile(path)
						if err != nil || len(all) < len(prior) || !bytes.Equal(all[:len(prior)], prior) {
							b.Fail("%s: the earlier content changed (%v)", when, err)
							return
						}
						if why, ok := explain(prog, all[len(prior):]); !ok {
							b.Fail("%s: %s; the file has %d bytes after the earlier %d", when, why, len(all)-len(prior), len(prior))
						}
						for i := range prog {
							for s, r := range prog[i] {
								if r.Sync && r.ok && (r.off < int64(len(prior)) || r.off+int64(r.Len) > int64(len(all)) || !bytes.Equal(all[r.off:r.off+int64(r.Len)], r.data)) {
									b.Fail("%s: goroutine %d record %d (%d bytes) is not at the reported offset %d", when, i, s, r.Len, r.off)
								}
							}
						}
						if when == "after closing" {
							prior = all
						}
					})
				}
				if !closing {
					verify("before closing")
					b.FailIf(f.Close() != nil, "close fails")
				}
				if b.Failed() {
					return
				}
				verify("after closing")
				if b.Failed() {
					return
				}
			}
		})
	})
}

func peek(path string, p []byte, off int64) int {
	f, err := os.Open(path)
	if err != nil {
		return -1
	}
	defer f.Close()
	n, _ := f.ReadAt(p, off)
	return n
}

// Opening by path appends: whatever is open, nothing of another opening is overwritten.
func TestOpenings(t *testing.T) {
	h.Check(t, 300, 4000, func(t *rapid.T, c *h.C) {
		want := h.Bytes(t, "prior", 3000)
		dir, err := os.MkdirTemp("", "c30")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "f")
		if len(want) > 0 {
			os.WriteFile(path, want, 0o644)
		}
		c.Note("prior %d", len(want))
		fs := map[int]fastio.File{}
		defer func() {
			for _, f := range fs {
				f.Close()
			}
		}()
		most := 0
		for n := rapid.IntRange(2, 12).Draw(t, "steps"); n > 0; n-- {
			i := rapid.IntRange(0, 2).Draw(t, "opening")
			f := fs[i]
			if f == nil {
				f, err = fastio.Open(path)
				h.Must(t, c, err == nil, "open: %v", err)
				fs[i] = f
				most = max(most, len(fs))
			}
			if rapid.IntRange(0, 6).Draw(t, "closing") == 0 {
				c.Note("close %d", i)
				h.Must(t, c, f.Close() == nil, "close fails")
				delete(fs, i)
			} else {
				b := h.Bytes(t, "record", 5000)
				c.Note("write %d %s", i, h.B(b))
				m, err := f.Write(bytes.Clone(b))
				h.Must(t, c, err == nil && m == len(b), "a write of %d bytes reports %d, %v", len(b), m, err)
				want = append(want, b...)
			}
			got, err := os.ReadFile(path)
			h.Must(t, c, err == nil && bytes.Equal(got, want), "the file is %s, written were %s (%v)", h.B(got), h.B(want), err)
		}
		c.NonTrivialIf(most > 1)
	})
}

// More goroutines than anything inside can hold at once.
func TestCrowd(t *testing.T) {
	h.Check(t, 120, 1500, func(t *rapid.T, c *h.C) {
		g := rapid.OneOf(rapid.IntRange(9, 40), rapid.IntRange(9, 150), rapid.SampledFrom([]int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200})).Draw(t, "goroutines")
		each := rapid.IntRange(1, 3).Draw(t, "each")
		size := rapid.SampledFrom([]int{12, 12, 40, 400, 5000}).Draw(t, "size")
		syncs := rapid.IntRange(0, 3).Draw(t, "syncs") // of three
		together := rapid.Bool().Draw(t, "together")
		how := rapid.IntRange(0, 2).Draw(t, "how")
		c.Note("%d goroutines, each %d records of %d bytes, syncs %d/3, together %v, how %d", g, each, size, syncs, together, how)
		c.NonTrivial()
		c.LabelIf(g > 64, "more than 64")
		dir, err := os.MkdirTemp("", "c30")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "f")
		mark := func(i, s int) []byte {
			r := fmt.Appendf(nil, "<%05d.%03d>", i, s)
			return append(r, bytes.Repeat([]byte{'.'}, size-len(r)+1)...)[:size]
		}
		h.Bubble(t, c, func(b *h.Bub) {
			f, err := open(path, how)
			if err != nil {
				b.Fail("open: %v", err)
				return
			}
			offs := make([][]int64, g)
			done := make(chan bool, g)
			for i := range offs {
				offs[i] = make([]int64, each)
				b.Go(func() {
					defer func() { done <- true }()
					if together {
						time.Sleep(10 * time.Millisecond)
					}
					for s := range offs[i] {
						offs[i][s] = -1
						buf, n, err := mark(i, s), 0, error(nil)
						if (i+s)%3 < syncs {
							offs[i][s], err = f.WriteSync(buf)
							n = len(buf)
						} else {
							n, err = f.Write(buf)
						}
						clear(buf)
						b.FailIf(err != nil || n != len(buf), "goroutine %d of %d, record %d of %d bytes: %d, %v", i, g, s, size, n, err)
					}
				})
			}
			for range offs {
				<-done
			}
			b.FailIf(f.Close() != nil, "close fails")
			if b.Failed() {
				return
			}
			b.Calm(func() {
				all, _ := os.ReadFile(path)
				b.FailIf(len(all) != g*each*size, "%d goroutines wrote %d records of %d bytes, the file has %d bytes", g, g*each, size, len(all))
				last := map[int]int{}
				seen := 0
				for at := 0; at+size <= len(all); at += size {
					var i, s int
					if _, err := fmt.Sscanf(string(all[at:at+12]), "<%05d.%03d>", &i, &s); err != nil || i >= g || s >= each || !bytes.Equal(all[at:at+size], mark(i, s)) {
						b.Fail("at %d is no record: %q", at, all[at:at+12])
						return
					}
					b.FailIf(last[i] != s, "goroutine %d: record %d is in the file after %d others", i, s, last[i])
					b.FailIf(offs[i][s] >= 0 && offs[i][s] != int64(at), "goroutine %d record %d was reported at %d and is at %d", i, s, offs[i][s], at)
					last[i]++
					seen++
				}
				b.FailIf(seen != g*each, "%d records were written, %d are in the file", g*each, seen)
			})
		})
	})
}

// Records of several MiB, several goroutines.
func TestLarge(t *testing.T) {
	h.Check(t, 3, 30, func(t *rapid.T, c *h.C) {
		dir, err := os.MkdirTemp("", "c30")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "f")
		g := rapid.IntRange(1, 3).Draw(t, "goroutines")
		prog := make([][]*rec, g)
		for i := range prog {
			for s := rapid.IntRange(1, 3).Draw(t, "records"); s > 0; s-- {
				r := &rec{Sync: rapid.Bool().Draw(t, "sync"), Len: rapid.SampledFrom([]int{10, 5000, 1 << 20, 1<<20 + 1, 3 << 20, 4<<20 + 1, 6000000, 9 << 20}).Draw(t, "len")}
				r.data = fill(i, s, r.Len)
				prog[i] = append(prog[i], r)
				c.Note("%d: %d sync %v", i, r.Len, r.Sync)
			}
		}
		how := rapid.IntRange(0, 2).Draw(t, "how")
		c.NonTrivial()
		c.Label("large")
		h.Bubble(t, c, func(b *h.Bub) {
			f, err := open(path, how)
			if err != nil {
				b.Fail("open: %v", err)
				return
			}
			done := make(chan bool, g)
			for i := range prog {
				b.Go(func() {
					defer func() { done <- true }()
					for s, r := range prog[i] {
						n := len(r.data)
						if r.Sync {
							r.off, r.err = f.WriteSync(bytes.Clone(r.data))
						} else {
							n, r.err = f.Write(bytes.Clone(r.data))
						}
						r.ok = r.err == nil
						b.FailIf(!r.ok || n != len(r.data), "goroutine %d record %d of %d bytes: %d, %v", i, s, len(r.data), n, r.err)
						if r.Sync && r.ok {
							at := make([]byte, r.Len)
							k := peek(path, at, r.off)
							b.FailIf(k != r.Len || !bytes.Equal(at, r.data), "goroutine %d record %d (%d bytes): not in the file at the reported offset %d after the write returned", i, s, r.Len, r.off)
						}
					}
				})
			}
			for range prog {
				<-done
			}
			b.FailIf(f.Close() != nil, "close fails")
			if b.Failed() {
				return
			}
			b.Calm(func() {
				all, _ := os.ReadFile(path)
				if why, ok := explain(prog, all); !ok {
					b.Fail("after closing: %s; the file has %d bytes", why, len(all))
				}
			})
		})
	})
}
