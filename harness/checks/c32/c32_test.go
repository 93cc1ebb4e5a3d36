// The memory-mapped file against a byte-array model; concurrent writers.
package c32

import (
	"bytes"
	"math"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/donnie4w/gofer/mmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func mk(t *rapid.T, c *h.C, size int) (dir, path string, content []byte) {
	dir, err := os.MkdirTemp("", "c32")
	h.Must(t, c, err == nil, "scratch: %v", err)
	path = filepath.Join(dir, "f")
	r := h.NewRand(rapid.Uint64().Draw(t, "content"))
	content = make([]byte, size)
	for i := range content {
		content[i] = byte(r.Next())
	}
	h.Must(t, c, os.WriteFile(path, content, 0o644) == nil, "scratch file")
	return
}

var sizes = []int{1, 2, 10, 100, 4095, 4096, 4097, 8192, 9000, 16384}

func around(t *rapid.T, label string, size int) int {
	switch rapid.IntRange(0, 6).Draw(t, label+".how") {
	case 0:
		return rapid.SampledFrom([]int{-1, math.MinInt64, math.MaxInt64, math.MaxInt64 - 3, math.MaxInt64 - 100, -100, math.MinInt64 + 5, math.MaxInt32, math.MaxInt32 + 1, -4096}).Draw(t, label)
	case 1:
		return size + rapid.IntRange(-3, 3).Draw(t, label)
	case 2:
		return rapid.IntRange(-2, 3).Draw(t, label)
	case 3:
		return rapid.SampledFrom([]int{4095, 4096, 4097, 8191, 8192}).Draw(t, label)
	default:
		return rapid.IntRange(0, size).Draw(t, label)
	}
}

func TestHistories(t *testing.T) {
	h.Check(t, 2500, 40000, func(t *rapid.T, c *h.C) {
		size := rapid.SampledFrom(sizes).Draw(t, "size")
		dir, path, want := mk(t, c, size)
		defer os.RemoveAll(dir)
		c.Note("size %d", size)
		writes, refused := 0, 0
		for o, opens := 0, rapid.IntRange(1, 3).Draw(t, "opens"); o < opens; o++ {
			f, err := os.OpenFile(path, os.O_RDWR, 0)
			h.Must(t, c, err == nil, "open: %v", err)
			start := 0
			if rapid.Bool().Draw(t, "starts inside") {
				start = around(t, "start", size)
			}
			c.Note("open at %d", start)
			var m *mmap.Mmap
			p := h.Catch(func() { m, err = mmap.NewMMAP(f, int64(start)) })
			h.Must(t, c, p == nil, "mapping from offset %d crashes: %v", start, p)
			if start < 0 || start >= size {
				h.Must(t, c, err != nil && m == nil, "mapping %d bytes from offset %d succeeds", size, start)
				f.Close()
				refused++
				continue
			}
			h.Must(t, c, err == nil && m != nil, "mapping %d bytes from offset %d: %v", size, start, err)
			h.Must(t, c, m.FileSize() == int64(size), "file size %d, want %d", m.FileSize(), size)
			pos := start
			var last []byte
			for n := rapid.IntRange(1, 25).Draw(t, "steps"); n > 0; n-- {
				op := rapid.SampledFrom([]string{"append", "append", "appendsync", "writeat", "writeat", "writeatsync", "flush"}).Draw(t, "op")
				var data []byte
				switch rapid.IntRange(0, 4).Draw(t, "data") {
				case 0:
					data = make([]byte, max(0, size-pos+rapid.IntRange(-1, 1).Draw(t, "to the end")))
					for i := range data {
						data[i] = byte(n*7 + i)
					}
				case 1:
					if rapid.Bool().Draw(t, "none") {
						data = nil
					} else {
						data = []byte{}
					}
				default:
					data = h.Bytes(t, "bytes", rapid.SampledFrom([]int{8, 40, size + 2}).Draw(t, "upto"))
				}
				last = append([]byte(nil), data...)
				switch op {
				case "append", "appendsync":
					var at int64
					p := h.Catch(func() {
						if op == "append" {
							at, err = m.Append(data)
						} else {
							at, err = m.AppendSync(data)
						}
					})
					c.Note("%s %d = %d,%v", op, len(data), at, err)
					h.Must(t, c, p == nil, "%s of %d bytes at %d of %d crashes: %v", op, len(data), pos, size, p)
					if pos+len(data) > size {
						h.Must(t, c, err != nil, "%s of %d bytes at %d of %d succeeds", op, len(data), pos, size)
						refused++
					} else {
						h.Must(t, c, err == nil, "%s of %d bytes at %d of %d: %v", op, len(data), pos, size, err)
						h.Must(t, c, at == int64(pos), "%s lands at %d, want %d", op, at, pos)
						copy(want[pos:], data)
						pos += len(data)
						writes++
					}
				case "writeat", "writeatsync":
					off := around(t, "offset", size)
					if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
						off = size - len(data) + rapid.IntRange(-1, 1).Draw(t, "by")
					}
					p := h.Catch(func() {
						if op == "writeat" {
							err = m.WriteAt(data, off)
						} else {
							err = m.WriteAtSync(data, off)
						}
					})
					c.Note("%s %d at %d = %v", op, len(data), off, err)
					h.Must(t, c, p == nil, "%s of %d bytes at %d of %d crashes: %v", op, len(data), off, size, p)
					if off < 0 || off > size || len(data) > size-off {
						h.Must(t, c, err != nil, "%s of %d bytes at %d of %d succeeds", op, len(data), off, size)
						refused++
					} else {
						h.Must(t, c, err == nil, "%s of %d bytes at %d of %d: %v", op, len(data), off, size, err)
						copy(want[off:], data)
						// Appending goes on behind everything written.
						pos = max(pos, off+len(data))
						writes++
					}
				case "flush":
					h.Must(t, c, m.Flush() == nil, "flush fails")
					all, _ := os.ReadFile(path)
					h.Must(t, c, bytes.Equal(all, want), "flushed, the file differs from what was written: %s", diff(all, want))
				}
				h.Must(t, c, bytes.Equal(last, data), "the caller's bytes changed")
				h.Must(t, c, bytes.Equal(m.Bytes(), want), "after %s the mapping differs from what was written: %s", op, diff(m.Bytes(), want))
			}
			switch how := rapid.IntRange(0, 2).Draw(t, "end"); how {
			case 0:
				err = m.Close()
				f.Close()
			case 1:
				err = m.UnmapAndCloseFile()
				h.Must(t, c, err != nil || f.Close() != nil, "the file is still open after unmapping and closing")
			case 2:
				err = m.Unmap()
				f.Close()
			}
			h.Must(t, c, err == nil, "closing: %v", err)
			all, _ := os.ReadFile(path)
			h.Must(t, c, bytes.Equal(all, want), "closed, the file differs from what was written: %s", diff(all, want))
		}
		c.NonTrivialIf(writes > 0)
		c.LabelIf(refused > 0, "refused")
	})
}

func diff(got, want []byte) string {
	if len(got) != len(want) {
		return "another length"
	}
	for i := range got {
		if got[i] != want[i] {
			return "first at byte " + h.B(got[i:min(i+4, len(got))]) + " want " + h.B(want[i:min(i+4, len(want))])
		}
	}
	return "-"
}

// Empty and unwritable files are refused.
func TestRefusals(t *testing.T) {
	h.Check(t, 60, 400, func(t *rapid.T, c *h.C) {
		size := rapid.SampledFrom([]int{0, 0, 1, 5000}).Draw(t, "size")
		start := around(t, "start", size)
		dir, path, want := mk(t, c, size)
		defer os.RemoveAll(dir)
		c.Note("size %d start %d", size, start)
		c.NonTrivial()
		f, _ := os.Open(path)
		defer f.Close()
		var m *mmap.Mmap
		var err error
		p := h.Catch(func() { m, err = mmap.NewMMAP(f, int64(start)) })
		h.Must(t, c, p == nil && err != nil && m == nil, "mapping a read-only file of %d bytes at %d: %v %v", size, start, err, p)
		all, _ := os.ReadFile(path)
		h.Must(t, c, bytes.Equal(all, want), "the file changed")
	})
}

// Concurrent appends occupy disjoint ranges, also next to positioned writes elsewhere.
func TestConcurrent(t *testing.T) {
	h.Check(t, 1200, 15000, func(t *rapid.T, c *h.C) {
		size := rapid.SampledFrom([]int{20, 100, 4096, 5000}).Draw(t, "size")
		fixed := rapid.IntRange(0, size/2).Draw(t, "fixed") // the part for positioned writes
		type op struct {
			At, Len, Gap int
			Sync         bool
		}
		prog := make([][]op, rapid.IntRange(2, 4).Draw(t, "goroutines"))
		var upto = rapid.SampledFrom([]int{3, 10, size / 3}).Draw(t, "upto")
		for i := range prog {
			for n := rapid.IntRange(1, 5).Draw(t, "ops"); n > 0; n-- {
				o := op{-1, rapid.IntRange(0, upto).Draw(t, "len"), rapid.IntRange(0, 3).Draw(t, "gap"), rapid.Bool().Draw(t, "sync")}
				if part := fixed / len(prog); part > 0 && rapid.IntRange(0, 2).Draw(t, "positioned") == 0 {
					o.Len = min(o.Len, part)
					o.At = i*part + rapid.IntRange(0, part-o.Len).Draw(t, "at")
				}
				prog[i] = append(prog[i], o)
			}
		}
		dir, path, want := mk(t, c, size)
		defer os.RemoveAll(dir)
		c.Note("size %d fixed %d %+v", size, fixed, prog)
		c.NonTrivial()
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		h.Must(t, c, err == nil, "open: %v", err)
		defer f.Close()
		if fixed >= size {
			fixed = size - 1
		}
		h.Bubble(t, c, func(b *h.Bub) {
			m, err := mmap.NewMMAP(f, int64(fixed))
			if err != nil {
				b.Fail("mapping: %v", err)
				return
			}
			type span struct {
				at   int64
				data []byte
			}
			spans := make([][]span, len(prog))
			refused := make([]int, len(prog))
			for i := range prog {
				b.Go(func() {
					for s, o := range prog[i] {
						time.Sleep(time.Duration(o.Gap) * time.Microsecond)
						data := make([]byte, o.Len)
						for k := range data {
							data[k] = byte(i*64 + s*8 + k)
						}
						if o.At >= 0 {
							var err error
							if o.Sync {
								err = m.WriteAtSync(data, o.At)
							} else {
								err = m.WriteAt(data, o.At)
							}
							b.FailIf(err != nil, "writing %d bytes at %d of %d: %v", o.Len, o.At, size, err)
							copy(want[o.At:], data)
							b.FailIf(!bytes.Equal(m.Bytes()[o.At:o.At+o.Len], data), "%d bytes written at %d are not there", o.Len, o.At)
							continue
						}
						var at int64
						var err error
						if o.Sync {
							at, err = m.AppendSync(data)
						} else {
							at, err = m.Append(data)
						}
						if err != nil {
							refused[i] = max(refused[i], o.Len)
							if refused[i] == o.Len && o.Len == 0 {
								b.Fail("an empty append is refused: %v", err)
							}
							continue
						}
						if at < int64(fixed) || at+int64(o.Len) > int64(size) {
							b.Fail("an append of %d bytes lands at %d of %d", o.Len, at, size)
							return
						}
						spans[i] = append(spans[i], span{at, data})
						b.FailIf(!bytes.Equal(m.Bytes()[at:at+int64(o.Len)], data), "%d bytes appended at %d are not there", o.Len, at)
					}
				})
			}
			b.Wait()
			if b.Failed() {
				return
			}
			b.Calm(func() {
				used := make([]int, size)
				total := fixed
				for i := range spans {
					prev := int64(-1)
					for _, s := range spans[i] {
						b.FailIf(s.at < prev, "a later append of goroutine %d lands before an earlier one", i)
						prev = s.at
						for k := range s.data {
							used[s.at+int64(k)]++
							b.FailIf(used[s.at+int64(k)] > 1, "two appends share byte %d", s.at+int64(k))
						}
						copy(want[s.at:], s.data)
						total += len(s.data)
					}
				}
				for k := fixed; k < total; k++ {
					b.FailIf(used[k] == 0, "appends leave a hole at byte %d", k)
				}
				for _, n := range refused {
					b.FailIf(n > 0 && n <= size-total, "an append of %d bytes was refused with room for %d", n, size-total)
				}
				b.FailIf(!bytes.Equal(m.Bytes(), want), "the mapping differs from what was written: %s", diff(m.Bytes(), want))
				b.FailIf(m.Close() != nil, "close fails")
				all, _ := os.ReadFile(path)
				b.FailIf(!bytes.Equal(all, want), "closed, the file differs from what was written: %s", diff(all, want))
			})
		})
	})
}

// Files of several MiB.
func TestLarge(t *testing.T) {
	h.Check(t, 4, 40, func(t *rapid.T, c *h.C) {
		size := rapid.SampledFrom([]int{1 << 20, 1<<24 + 1, 1<<25 - 4097, 40000000}).Draw(t, "size")
		dir, path, want := mk(t, c, size)
		defer os.RemoveAll(dir)
		c.NonTrivial()
		c.Label("large")
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		h.Must(t, c, err == nil, "open: %v", err)
		start := rapid.SampledFrom([]int{0, 1 << 19, size / 2}).Draw(t, "start")
		c.Note("size %d from %d", size, start)
		m, err := mmap.NewMMAP(f, int64(start))
		h.Must(t, c, err == nil && m.FileSize() == int64(size) && bytes.Equal(m.Bytes(), want), "mapping %d bytes from %d: %v", size, start, err)
		pos := start
		for n := rapid.IntRange(1, 6).Draw(t, "steps"); n > 0; n-- {
			data := h.Big(t, "data", 9<<20)
			if rapid.Bool().Draw(t, "small") {
				data = data[:rapid.IntRange(0, 5000).Draw(t, "len")]
			}
			sync := rapid.Bool().Draw(t, "sync")
			if rapid.Bool().Draw(t, "append") {
				var at int64
				if sync {
					at, err = m.AppendSync(data)
				} else {
					at, err = m.Append(data)
				}
				c.Note("append %d = %d, %v", len(data), at, err)
				h.Must(t, c, (err == nil) == (pos+len(data) <= size), "append of %d bytes at %d of %d: %v", len(data), pos, size, err)
				if err == nil {
					h.Must(t, c, at == int64(pos), "append lands at %d, want %d", at, pos)
					copy(want[pos:], data)
					pos += len(data)
				}
				continue
			}
			off := around(t, "offset", size)
			if rapid.Bool().Draw(t, "far") {
				off = size - rapid.IntRange(0, size/2).Draw(t, "back")
			}
			if sync {
				err = m.WriteAtSync(data, off)
			} else {
				err = m.WriteAt(data, off)
			}
			c.Note("write %d at %d = %v", len(data), off, err)
			fits := off >= 0 && off <= size && len(data) <= size-off
			h.Must(t, c, (err == nil) == fits, "writing %d bytes at %d of %d: %v", len(data), off, size, err)
			if fits {
				copy(want[off:], data)
				pos = max(pos, off+len(data))
			}
		}
		h.Must(t, c, bytes.Equal(m.Bytes(), want), "the mapping differs from what was written: %s", diff(m.Bytes(), want))
		if rapid.Bool().Draw(t, "flush") {
			h.Must(t, c, m.Flush() == nil, "flush fails")
		}
		h.Must(t, c, m.UnmapAndCloseFile() == nil, "closing fails")
		all, _ := os.ReadFile(path)
		h.Must(t, c, bytes.Equal(all, want), "closed, the file differs from what was written: %s", diff(all, want))
	})
}
