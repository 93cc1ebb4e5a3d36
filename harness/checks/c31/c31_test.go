// A failing file under the buffered file: faults come and go while goroutines write.
package c31

import (
	"bytes"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/donnie4w/gofer/fastio"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) {
	signal.Ignore(syscall.SIGXFSZ)
	h.Main(m)
}

type rec struct {
	Sync     bool
	Len, Gap int
	data     []byte
	off      int64
	n        int
	err      error
	returned bool
}

// Kinds of fault.
const (
	closedFile = iota // the caller's file is closed under it
	readOnly          // the file was opened for reading
	devFull           // the file is a full device
	fullAwhile        // the descriptor turns into a full device and back
	badAwhile         // the descriptor turns into a read-only one and back
	sizeLimit         // the process reaches its file size limit
	closedHere        // the buffered file itself is closed
)

var kinds = []string{"closed file", "read-only", "device full", "device full for a while", "read-only for a while", "size limit", "closed"}

func fill(g, s, n int) []byte {
	r := h.NewRand(uint64(s)*1000003 + uint64(g) + 0xC31C31C31C310000)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next())
	}
	return b
}

var lens = []int{12, 12, 20, 40, 100, 500, 4090, 4096, 4097, 9000}

func TestFaults(t *testing.T) {
	h.Check(t, 1500, 25000, func(t *rapid.T, c *h.C) {
		kind := rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")
		if rapid.IntRange(0, 2).Draw(t, "awhile") == 0 {
			kind = rapid.IntRange(fullAwhile, sizeLimit).Draw(t, "which")
		}
		prog := make([][]*rec, rapid.IntRange(1, 5).Draw(t, "goroutines"))
		for i := range prog {
			for s, n := 0, rapid.IntRange(1, 6).Draw(t, "records"); s < n; s++ {
				l := rapid.SampledFrom(lens).Draw(t, "len")
				prog[i] = append(prog[i], &rec{Sync: rapid.IntRange(0, 2).Draw(t, "sync") > 0, Len: l, Gap: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "gap"), data: fill(i, s, l)})
			}
		}
		toggles := rapid.SliceOfN(rapid.IntRange(0, 12), 1, 6).Draw(t, "toggles")
		room := rapid.SampledFrom([]int{0, 1, 5, 100, 4096, 5000, 12000}).Draw(t, "room")
		appendMode := rapid.Bool().Draw(t, "append")
		prior := h.Bytes(t, "prior", 200)
		c.Note("%s append %v prior %d room %d toggles %v", kinds[kind], appendMode, len(prior), room, toggles)
		for _, p := range prog {
			for _, r := range p {
				c.Note("%v/%d/%d", r.Sync, r.Len, r.Gap)
			}
			c.Note(";")
		}
		c.NonTrivial()
		c.Label(kinds[kind])
		dir, err := os.MkdirTemp("", "c31")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "f")
		os.WriteFile(path, prior, 0o644)
		flags := os.O_RDWR
		if appendMode {
			flags |= os.O_APPEND
		}
		file := path
		switch kind {
		case readOnly:
			flags = os.O_RDONLY
		case devFull:
			file = "/dev/full"
		}
		under, err := os.OpenFile(file, flags, 0)
		h.Must(t, c, err == nil, "open: %v", err)
		defer under.Close()
		var turn func(on bool)
		switch kind {
		case fullAwhile, badAwhile:
			fd := int(under.Fd())
			keep, err := syscall.Dup(fd)
			h.Must(t, c, err == nil, "dup: %v", err)
			defer syscall.Close(keep)
			bad, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if kind == badAwhile {
				bad, err = os.Open(path)
			}
			h.Must(t, c, err == nil, "open: %v", err)
			defer bad.Close()
			turn = func(on bool) {
				if on {
					syscall.Dup2(int(bad.Fd()), fd)
				} else {
					syscall.Dup2(keep, fd)
				}
			}
		case sizeLimit:
			var lim syscall.Rlimit
			h.Must(t, c, syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim) == nil, "getrlimit")
			turn = func(on bool) {
				l := lim
				if on {
					st, _ := os.Stat(path)
					l.Cur = uint64(st.Size()) + uint64(room)
				}
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
			}
			defer turn(false)
		}
		h.Bubble(t, c, func(b *h.Bub) {
			f, err := fastio.New(under)
			if err != nil {
				b.Fail("open: %v", err)
				return
			}
			var on atomic.Bool
			var epoch atomic.Int64
			set := func(v bool) {
				epoch.Add(1)
				if turn != nil {
					turn(v)
				} else if v && !on.Load() {
					switch kind {
					case closedFile:
						under.Close()
					case closedHere:
						f.Close()
					}
				}
				on.Store(v)
				epoch.Add(1)
			}
			if kind == readOnly || kind == devFull {
				on.Store(true)
			}
			ends := make(chan bool, len(prog))
			do := func(g, s int, r *rec) {
				e, was := epoch.Load(), on.Load()
				buf := append([]byte(nil), r.data...)
				if r.Sync {
					r.off, r.err = f.WriteSync(buf)
					r.n = len(buf)
				} else {
					r.n, r.err = f.Write(buf)
				}
				r.returned = true
				if e%2 == 0 && epoch.Load() == e {
					b.FailIf(was && kind != sizeLimit && r.err == nil, "goroutine %d record %d: the file cannot be written (%s) and the write reports success", g, s, kinds[kind])
					b.FailIf(!was && r.err != nil, "goroutine %d record %d: the file can be written and the write fails: %v", g, s, r.err)
				}
				b.FailIf(r.err == nil && r.n != len(buf), "goroutine %d record %d: %d of %d bytes without an error", g, s, r.n, len(buf))
				b.FailIf(r.n < 0 || r.n > len(buf), "goroutine %d record %d: %d of %d bytes", g, s, r.n, len(buf))
				for i := range buf {
					buf[i] = 0
				}
			}
			for i := range prog {
				b.Go(func() {
					defer func() { ends <- true }()
					for s, r := range prog[i] {
						time.Sleep(time.Duration(r.Gap) * time.Microsecond)
						do(i, s, r)
					}
				})
			}
			v := false
			for _, g := range toggles {
				time.Sleep(time.Duration(g) * 300 * time.Nanosecond)
				if kind >= fullAwhile && kind <= sizeLimit {
					v = !v
					set(v)
				} else if kind == closedFile || kind == closedHere {
					set(true)
					break
				}
			}
			late := time.After(time.Hour)
			for range prog {
				select {
				case <-ends:
				case <-late:
					var left []int
					for i := range prog {
						for _, r := range prog[i] {
							if !r.returned {
								left = append(left, i)
								break
							}
						}
					}
					b.Fail("writes of goroutines %v never return (%s)", left, kinds[kind])
					return
				}
			}
			if v {
				set(false)
			}
			// The fault is over, or stays: further writes.
			last := &rec{Sync: true, Len: 64, data: fill(9, 9, 64)}
			last2 := &rec{Len: 64, data: fill(9, 10, 64)}
			b.Calm(func() { do(9, 1, last); do(9, 2, last2) })
			closed := make(chan error, 1)
			go func() { closed <- f.Close() }()
			select {
			case err := <-closed:
				b.FailIf(err != nil && kind >= fullAwhile && kind <= sizeLimit, "close fails: %v", err)
				b.FailIf(err == nil && kind == closedFile && on.Load(), "the file was closed by someone else and close reports success")
			case <-late:
				b.Fail("close never returns")
				return
			}
			if kind == readOnly || kind == devFull {
				return
			}
			b.Calm(func() {
				all, err := os.ReadFile(path)
				if err != nil || !bytes.HasPrefix(all, prior) {
					b.Fail("the earlier content changed (%v)", err)
					return
				}
				look := func(g, s int, r *rec) {
					if r.err != nil {
						return
					}
					if n := bytes.Count(all, r.data); n != 1 {
						b.Fail("goroutine %d record %d (%d bytes, sync %v) was reported as written and is %d times in the file", g, s, r.Len, r.Sync, n)
					} else if at := bytes.Index(all, r.data); r.Sync && int64(at) != r.off {
						b.Fail("goroutine %d record %d was reported at %d and is at %d", g, s, r.off, at)
					}
				}
				for i := range prog {
					for s, r := range prog[i] {
						look(i, s, r)
					}
				}
				look(9, 1, last)
				look(9, 2, last2)
			})
		})
		runtime.KeepAlive(under)
	})
}
