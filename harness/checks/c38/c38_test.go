// Synchronous writes to a mapped file leave nothing of what they wrote in memory alone: the
// kernel's own account of the mapping (smaps) shows no changed page that is not on disk.
package c38

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"unsafe"

	"github.com/donnie4w/gofer/mmap"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

// scratch is a directory whose file system tells changed pages from stored ones; "" if none does.
var scratch string

func TestMain(m *testing.M) {
	for _, base := range []string{os.TempDir(), "/var/tmp", "/tmp", "."} {
		d, err := os.MkdirTemp(base, "c38")
		if err != nil {
			continue
		}
		if tells(d) {
			scratch = d
			break
		}
		os.RemoveAll(d)
	}
	if scratch == "" {
		fmt.Println("no file system here tells changed pages from stored ones: nothing is checked")
	}
	h.Main(m)
}

// tells: one page written and stored, one only written.
func tells(dir string) bool {
	f, err := os.Create(filepath.Join(dir, "probe"))
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	defer f.Close()
	f.Truncate(int64(8 * page))
	m, err := syscall.Mmap(int(f.Fd()), 0, 8*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return false
	}
	defer syscall.Munmap(m)
	m[0], m[5*page] = 1, 1
	if dirty(m) != 2*page {
		return false
	}
	syscall.Syscall(syscall.SYS_MSYNC, uintptr(unsafe.Pointer(&m[0])), uintptr(page), 4)
	return dirty(m) == page
}

var page = os.Getpagesize()

// dirty is how many bytes of the mapping are in pages changed and not stored.
func dirty(m []byte) (n int) {
	b, err := os.ReadFile("/proc/self/smaps")
	if err != nil {
		return -1
	}
	from := uint64(uintptr(unsafe.Pointer(&m[0])))
	to := from + uint64(len(m))
	inside := false
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.Fields(l)
		if len(w) == 0 {
			continue
		}
		if a, z, ok := strings.Cut(w[0], "-"); ok {
			lo, e1 := strconv.ParseUint(a, 16, 64)
			hi, e2 := strconv.ParseUint(z, 16, 64)
			if e1 == nil && e2 == nil {
				inside = lo < to && from < hi
				continue
			}
		}
		if inside && (w[0] == "Private_Dirty:" || w[0] == "Shared_Dirty:") {
			k, _ := strconv.Atoi(w[1])
			n += k << 10
		}
	}
	return
}

type write struct {
	op       string
	off, len int
}

func (w write) String() string {
	if w.op == "flush" {
		return w.op
	}
	return fmt.Sprintf("%s %d at %d", w.op, w.len, w.off)
}

func TestStored(t *testing.T) {
	t.Cleanup(func() {
		if scratch != "" {
			os.RemoveAll(scratch)
		}
	})
	h.Check(t, 600, 8000, func(t *rapid.T, c *h.C) {
		pages := rapid.IntRange(1, 40).Draw(t, "pages")
		size := pages*page - rapid.SampledFrom([]int{0, 0, 1, 100, page - 1}).Draw(t, "less")
		big := rapid.IntRange(0, 11).Draw(t, "big") == 7
		if big { // far beyond any block
			pages += rapid.SampledFrom([]int{100, 600, 1500}).Draw(t, "bigPages")
			size += (pages - size/page) * page
			size = min(size, pages*page)
			c.Label("large")
		}
		g := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "goroutines")
		start := rapid.IntRange(0, size-1).Draw(t, "start")
		var rounds [][][]write // round, goroutine, write
		for r := rapid.IntRange(1, 4).Draw(t, "rounds"); r > 0; r-- {
			round := make([][]write, g)
			for i := range round {
				for n := rapid.IntRange(1, 3).Draw(t, "writes"); n > 0; n-- {
					w := write{op: rapid.SampledFrom([]string{"append", "write", "write"}).Draw(t, "op")}
					switch rapid.IntRange(0, 3).Draw(t, "length") {
					case 0:
						w.len = rapid.IntRange(0, 2).Draw(t, "len")
					case 1:
						w.len = rapid.IntRange(0, 4).Draw(t, "lenPages")*page + rapid.IntRange(0, 2).Draw(t, "more")
					default:
						w.len = rapid.IntRange(0, 3*page).Draw(t, "len")
					}
					if big && rapid.IntRange(0, 2).Draw(t, "bigLen") > 0 {
						w.len += rapid.IntRange(10, pages).Draw(t, "morePages") * page
					}
					w.len = min(w.len, size)
					switch rapid.IntRange(0, 3).Draw(t, "place") {
					case 0: // across or at a page boundary
						w.off = rapid.IntRange(0, pages).Draw(t, "page")*page - rapid.IntRange(0, min(w.len, page)).Draw(t, "before")
					case 1:
						w.off = size - w.len
					default:
						w.off = rapid.IntRange(0, size-w.len).Draw(t, "off")
					}
					w.off = max(0, min(w.off, size-w.len))
					round[i] = append(round[i], w)
				}
			}
			// some rounds write without storing, and a flush stores it all
			if g == 1 && rapid.IntRange(0, 4).Draw(t, "flushed") == 0 {
				for i := range round[0] {
					if rapid.IntRange(0, 3).Draw(t, "through") == 0 {
						round[0][i].op = "mapping"
					}
					round[0][i].op += " unstored"
				}
				round[0] = append(round[0], write{op: "flush"})
			}
			rounds = append(rounds, round)
		}
		c.Note("%d bytes from %d: %v", size, start, rounds)
		if scratch == "" {
			return
		}
		c.NonTrivial()
		path := filepath.Join(scratch, "f")
		f, err := os.Create(path)
		if err != nil {
			panic(err)
		}
		defer os.Remove(path)
		defer f.Close()
		if err := f.Truncate(int64(size)); err != nil {
			panic(err)
		}
		m, err := mmap.NewMMAP(f, int64(start))
		h.Must(t, c, err == nil, "mapping: %v", err)
		defer m.Unmap()
		for r, round := range rounds {
			var wg sync.WaitGroup
			bad := make([]string, g)
			for i, ws := range round {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, w := range ws {
						data := make([]byte, w.len)
						for k := range data {
							data[k] = byte(r + i + k + 1)
						}
						var err error
						switch w.op {
						case "append":
							_, err = m.AppendSync(data)
						case "append unstored":
							_, err = m.Append(data)
						case "write":
							err = m.WriteAtSync(data, w.off)
						case "write unstored":
							err = m.WriteAt(data, w.off)
						case "mapping unstored":
							copy(m.Bytes()[w.off:], data)
						case "flush":
							err = m.Flush()
						}
						if err != nil && !strings.HasPrefix(w.op, "append") {
							bad[i] = fmt.Sprintf("%v: %v", w, err)
						}
					}
				}()
			}
			wg.Wait()
			for _, b := range bad {
				h.Must(t, c, b == "", "%s", b)
			}
			if round[0][0].op != "flush" && g == 1 {
				c.LabelIf(strings.Contains(round[0][0].op, "unstored"), "flushed")
			}
			d := dirty(m.Bytes())
			h.Must(t, c, d == 0, "round %d: after %v, %d bytes of changed pages are not on disk", r, round, d)
		}
	})
}
