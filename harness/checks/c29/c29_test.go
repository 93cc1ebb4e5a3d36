// The byte buffer against a plain byte-slice model.
package c29

import (
	"bytes"
	"io"
	"math"
	"testing"
	"testing/iotest"

	"github.com/donnie4w/gofer/buffer"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type held struct {
	b    *buffer.Buffer
	want []byte
	kind string
}

func fresh(t *rapid.T) *held {
	switch k := rapid.IntRange(0, 3).Draw(t, "make"); k {
	case 0:
		return &held{buffer.NewBuffer(), nil, "new"}
	case 1:
		return &held{buffer.NewBufferWithCapacity(rapid.SampledFrom([]int{0, 1, 3, 8, 64, 5000}).Draw(t, "capacity")), nil, "capacity"}
	case 2:
		return &held{buffer.NewBufferByPool(), nil, "pool"}
	default:
		s := h.Bytes(t, "slice", 200)
		full := make([]byte, len(s), len(s)+rapid.IntRange(0, 20).Draw(t, "spare"))
		copy(full, s)
		return &held{buffer.NewBufferBySlice(full), s, "slice"}
	}
}

// texts are strings handed out, with a copy of what they were: strings never change.
type texts []struct {
	s string
	w []byte
}

func (l *texts) keep(s string) {
	if len(s) > 0 && len(s) < 4096 {
		*l = append(*l, struct {
			s string
			w []byte
		}{s, []byte(s)})
	}
}

func (l texts) check(t *rapid.T, c *h.C, after string) {
	for _, k := range l {
		h.Must(t, c, k.s == string(k.w), "after %s, a string the buffer gave before has changed from %q to %q", after, k.w, k.s)
	}
}

func (x *held) check(t *rapid.T, c *h.C, after string) {
	h.Must(t, c, x.b.Len() == len(x.want), "%s buffer, after %s: length %d, want %d", x.kind, after, x.b.Len(), len(x.want))
	h.Must(t, c, bytes.Equal(x.b.Bytes(), x.want), "%s buffer, after %s: contents %s, want %s", x.kind, after, h.B(x.b.Bytes()), h.B(x.want))
	h.Must(t, c, x.b.String() == string(x.want), "%s buffer, after %s: text %q, want %q", x.kind, after, x.b.String(), x.want)
}

func (x *held) read(t *rapid.T, c *h.C, n int) {
	p := bytes.Repeat([]byte{0xA5}, n+3)
	view := x.b.Bytes()
	k, err := x.b.Read(p[:n:n])
	h.Must(t, c, bytes.Equal(view, x.want), "a read of %d bytes changes the bytes the buffer gave before from %s to %s", n, h.B(x.want), h.B(view))
	c.Note("read(%d)=%d,%v", n, k, err)
	switch {
	case n == 0:
		h.Must(t, c, k == 0 && (err == nil || err == io.EOF && len(x.want) == 0), "read of nothing gives %d, %v", k, err)
	case len(x.want) == 0:
		h.Must(t, c, k == 0 && err == io.EOF, "read of an empty %s buffer gives %d, %v instead of 0, EOF", x.kind, k, err)
	default:
		m := min(n, len(x.want))
		// io.Reader lets the end be reported with the last bytes.
		h.Must(t, c, k == m && (err == nil || err == io.EOF && m == len(x.want)), "read of %d of %d bytes gives %d, %v", n, len(x.want), k, err)
		h.Must(t, c, bytes.Equal(p[:k], x.want[:k]), "read gives %s, want %s", h.B(p[:k]), h.B(x.want[:k]))
		x.want = x.want[k:]
	}
	for _, b := range p[k:] {
		h.Must(t, c, b == 0xA5, "read changed bytes beyond the %d it reported", k)
	}
}

func TestHistories(t *testing.T) {
	h.Check(t, 4000, 80000, func(t *rapid.T, c *h.C) {
		var bufs []*held
		for n := rapid.IntRange(1, 3).Draw(t, "buffers"); n > 0; n-- {
			bufs = append(bufs, fresh(t))
		}
		for _, x := range bufs {
			c.Label(x.kind)
			c.Note("%s %s", x.kind, h.B(x.want))
			x.check(t, c, "making it")
		}
		reads, writes := 0, 0
		var given texts
		for n := rapid.IntRange(1, 40).Draw(t, "steps"); n > 0; n-- {
			i := rapid.IntRange(0, len(bufs)-1).Draw(t, "which")
			x := bufs[i]
			given.keep(x.b.String())
			op := rapid.SampledFrom([]string{"write", "write", "string", "int32", "byte", "read", "read", "read", "readall", "copy", "reset", "reader", "free"}).Draw(t, "op")
			c.Note("%d.%s", i, op)
			switch op {
			case "write":
				p := h.Bytes(t, "p", rapid.SampledFrom([]int{20, 300, 300, 300, 300, 300, 300, 9000}).Draw(t, "upto"))
				k, err := x.b.Write(p)
				c.Note("%s", h.B(p))
				h.Must(t, c, k == len(p) && err == nil, "write of %d bytes gives %d, %v", len(p), k, err)
				x.want = append(x.want[:len(x.want):len(x.want)], p...)
				for j := range p {
					p[j] ^= 0x5a // the caller may reuse its slice
				}
				writes++
			case "string":
				p := string(h.Bytes(t, "s", 100))
				k, err := x.b.WriteString(p)
				c.Note("%q", p)
				h.Must(t, c, k == len(p) && err == nil, "write of a string of %d bytes gives %d, %v", len(p), k, err)
				x.want = append(x.want[:len(x.want):len(x.want)], p...)
				writes++
			case "int32":
				v := rapid.OneOf(rapid.Int32(), rapid.SampledFrom([]int32{0, 1, -1, math.MaxInt32, math.MinInt32, 256, 0x01020304})).Draw(t, "v")
				k, err := x.b.WriteInt32(int(v))
				c.Note("%d", v)
				h.Must(t, c, k == 4 && err == nil, "write of an int32 gives %d, %v", k, err)
				x.want = append(x.want[:len(x.want):len(x.want)], byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
				writes++
			case "byte":
				v := rapid.Byte().Draw(t, "v")
				h.Must(t, c, x.b.WriteByte(v) == nil, "write of a byte fails")
				x.want = append(x.want[:len(x.want):len(x.want)], v)
				writes++
			case "read":
				var k int
				switch rapid.IntRange(0, 4).Draw(t, "how") {
				case 0:
					k = len(x.want)
				case 1:
					k = len(x.want) + rapid.IntRange(1, 9).Draw(t, "more")
				case 2:
					k = max(0, len(x.want)-1)
				default:
					k = rapid.IntRange(0, len(x.want)+2).Draw(t, "n")
				}
				x.read(t, c, k)
				reads++
			case "readall", "copy":
				var got []byte
				var err error
				// A reader that never ends would never return: bound it.
				lim := io.LimitReader(x.b, int64(len(x.want)+1000))
				done := make(chan bool)
				go func() {
					defer close(done)
					if op == "copy" {
						var w bytes.Buffer
						_, err = io.Copy(&w, onlyReader{&stall{r: lim}})
						got = w.Bytes()
					} else {
						got, err = io.ReadAll(&stall{r: lim})
					}
				}()
				<-done
				h.Must(t, c, err == nil && bytes.Equal(got, x.want), "reading everything gives %s, %v; want %s", h.B(got), err, h.B(x.want))
				x.want = nil
				reads++
			case "reset":
				x.b.Reset()
				x.want = nil
			case "reader":
				if err := iotest.TestReader(&stall{r: x.b}, x.want); err != nil {
					h.Must(t, c, false, "as a reader: %v", err)
				}
				x.want = nil
				reads++
			case "free":
				x.b.Free()
				bufs[i] = fresh(t)
				c.Note("now %s %s", bufs[i].kind, h.B(bufs[i].want))
			}
			for _, y := range bufs {
				y.check(t, c, op)
			}
			given.check(t, c, op)
		}
		c.NonTrivialIf(reads > 0 && writes > 0)
		for _, x := range bufs {
			for len(x.want) > 0 {
				x.read(t, c, rapid.IntRange(1, 70).Draw(t, "last"))
				x.check(t, c, "reading on")
			}
			x.read(t, c, 1)
			x.b.Free()
		}
		given.check(t, c, "all")
	})
}

type onlyReader struct{ io.Reader }

// stall gives up on a reader that returns nothing and no error for ever.
type stall struct {
	r io.Reader
	n int
}

func (s *stall) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if n == 0 && err == nil && len(p) > 0 {
		if s.n++; s.n > 100 {
			return 0, io.ErrNoProgress
		}
	} else {
		s.n = 0
	}
	return n, err
}

// Megabytes through one buffer, then through buffers that may come from the pool it went to.
func TestLarge(t *testing.T) {
	h.Check(t, 5, 60, func(t *rapid.T, c *h.C) {
		x := fresh(t)
		c.Note("%s", x.kind)
		c.NonTrivial()
		c.Label("large")
		for n := rapid.IntRange(1, 6).Draw(t, "steps"); n > 0; n-- {
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0, 1:
				p := h.Big(t, "p", 5<<20)
				c.Note("write %s", h.B(p))
				k, err := x.b.Write(p)
				h.Must(t, c, k == len(p) && err == nil, "write of %d bytes gives %d, %v", len(p), k, err)
				x.want = append(x.want[:len(x.want):len(x.want)], p...)
			case 2:
				p := string(h.Big(t, "p", 2<<20))
				c.Note("string %d", len(p))
				k, err := x.b.WriteString(p)
				h.Must(t, c, k == len(p) && err == nil, "write of a string of %d bytes gives %d, %v", len(p), k, err)
				x.want = append(x.want[:len(x.want):len(x.want)], p...)
			default:
				x.read(t, c, min(len(x.want), rapid.SampledFrom([]int{1, 4096, 65537, 1 << 20, 3 << 20}).Draw(t, "n")))
			}
			x.check(t, c, "a step")
		}
		for len(x.want) > 0 {
			x.read(t, c, 1<<20)
		}
		x.read(t, c, 1)
		x.b.Free()
		y := &held{buffer.NewBufferByPool(), nil, "pool"}
		y.check(t, c, "making it")
		y.b.WriteString("abc")
		y.want = []byte("abc")
		y.check(t, c, "writing")
		y.b.Free()
	})
}
