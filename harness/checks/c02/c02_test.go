package c02

import (
	"bytes"
	"encoding/binary"
	"slices"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func TestFixedWidth(t *testing.T) {
	h.Check(t, 30000, 600000, func(t *rapid.T, c *h.C) {
		v := h.Int64(t, "v")
		c.Note("v=%d", v)
		c.NonTrivialIf(v < 0 || v > 255)
		w8, w4, w2 := make([]byte, 8), make([]byte, 4), make([]byte, 2)
		binary.BigEndian.PutUint64(w8, uint64(v))
		binary.BigEndian.PutUint32(w4, uint32(v))
		binary.BigEndian.PutUint16(w2, uint16(v))
		b8, b4, b2 := util.Int64ToBytes(v), util.Int32ToBytes(int32(v)), util.Int16ToBytes(int16(v))
		h.Must(t, c, bytes.Equal(b8, w8), "Int64ToBytes(%d)=%x want %x", v, b8, w8)
		h.Must(t, c, bytes.Equal(b4, w4), "Int32ToBytes(%d)=%x want %x", int32(v), b4, w4)
		h.Must(t, c, bytes.Equal(b2, w2), "Int16ToBytes(%d)=%x want %x", int16(v), b2, w2)
		// results stay valid after later calls
		util.Int64ToBytes(^v)
		util.Int32ToBytes(^int32(v))
		util.Int16ToBytes(^int16(v))
		h.Must(t, c, bytes.Equal(b8, w8) && bytes.Equal(b4, w4) && bytes.Equal(b2, w2), "a later call changed an earlier result")
		h.Must(t, c, util.BytesToInt64(b8) == v, "BytesToInt64(%x)=%d want %d", b8, util.BytesToInt64(b8), v)
		h.Must(t, c, util.BytesToInt32(b4) == int32(v), "BytesToInt32(%x)=%d want %d", b4, util.BytesToInt32(b4), int32(v))
		h.Must(t, c, util.BytesToInt16(b2) == int16(v), "BytesToInt16(%x)=%d want %d", b2, util.BytesToInt16(b2), int16(v))
		h.Must(t, c, bytes.Equal(b8, w8) && bytes.Equal(b4, w4) && bytes.Equal(b2, w2), "converting back changed the bytes")
	})
}

func TestShortInput(t *testing.T) {
	h.Check(t, 20000, 300000, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "b")
		c.Note("b=%x", b)
		c.NonTrivialIf(n > 0)
		pad := func(w int) []byte { return append(make([]byte, w-len(b)), b...) }
		keep := append([]byte(nil), b...)
		want := int64(binary.BigEndian.Uint64(pad(8)))
		h.Must(t, c, util.BytesToInt64(b) == want, "BytesToInt64(%x)=%d want %d", b, util.BytesToInt64(b), want)
		if n <= 4 {
			want := int32(binary.BigEndian.Uint32(pad(4)))
			h.Must(t, c, util.BytesToInt32(b) == want, "BytesToInt32(%x)=%d want %d", b, util.BytesToInt32(b), want)
		}
		if n <= 2 {
			want := int16(binary.BigEndian.Uint16(pad(2)))
			h.Must(t, c, util.BytesToInt16(b) == want, "BytesToInt16(%x)=%d want %d", b, util.BytesToInt16(b), want)
		}
		h.Must(t, c, bytes.Equal(b, keep), "the input was changed")
	})
}

func TestIntArray(t *testing.T) {
	h.Check(t, 6000, 60000, func(t *rapid.T, c *h.C) {
		n := h.Size(t, "n", 600)
		if rapid.IntRange(0, 599).Draw(t, "large") == 77 {
			n = rapid.SampledFrom([]int{1 << 13, 1<<16 + 1, 100000, 1<<18 + 1, 1 << 20}).Draw(t, "nLarge")
		}
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		a := make([]int64, n)
		for i := range a {
			a[i] = int64(r.Next())
			if r.Intn(3) == 0 {
				a[i] >>= r.Intn(64)
			}
		}
		if n > 0 && rapid.Bool().Draw(t, "edge") {
			a[rapid.IntRange(0, n-1).Draw(t, "i")] = h.Int64(t, "v")
		}
		c.Note("n=%d a0..=%v", n, a[:min(n, 4)])
		for _, v := range a {
			c.Key(util.Int64ToBytes(v))
		}
		c.NonTrivialIf(n > 0)
		keep := append([]int64(nil), a...)
		b := util.IntArrayToBytes(a)
		want := make([]byte, 0, 8*n)
		for _, v := range a {
			want = binary.BigEndian.AppendUint64(want, uint64(v))
		}
		h.Must(t, c, bytes.Equal(b, want), "IntArrayToBytes: %s want %s", h.B(b), h.B(want))
		got := util.BytesToIntArray(b)
		h.Must(t, c, len(got) == n, "array of %d came back with %d", n, len(got))
		for i := range got {
			h.Must(t, c, got[i] == keep[i] && a[i] == keep[i], "element %d: %d want %d (input now %d)", i, got[i], keep[i], a[i])
		}
		h.Must(t, c, bytes.Equal(b, want), "decoding changed the bytes")
		if extra := rapid.IntRange(0, 7).Draw(t, "extra"); extra > 0 { // not a whole integer
			more := util.BytesToIntArray(append(bytes.Clone(b), make([]byte, extra)...))
			h.Must(t, c, slices.Equal(more, keep), "%d integers and %d more bytes come back as %d integers", n, extra, len(more))
			c.Label("partial integer at the end")
		}
		// results stay valid after later calls, and belong to the caller
		other := make([]int64, rapid.IntRange(0, 40).Draw(t, "other"))
		for i := range other {
			other[i] = ^int64(i)
		}
		again := util.BytesToIntArray(util.IntArrayToBytes(other))
		h.Must(t, c, bytes.Equal(b, want) && slices.Equal(got, keep) && slices.Equal(again, other), "an earlier result changed with a later call")
		for i := range b {
			b[i] ^= 0xff
		}
		h.Must(t, c, slices.Equal(got, keep) && slices.Equal(a, keep), "an array changed when the bytes were overwritten")
		h.Must(t, c, bytes.Equal(util.IntArrayToBytes(a), want), "IntArrayToBytes gives other bytes after an earlier result was overwritten")
	})
}

// Independent callers do not disturb one another.
func TestConcurrent(t *testing.T) {
	h.Check(t, 100, 1500, func(t *rapid.T, c *h.C) {
		g := rapid.IntRange(2, 8).Draw(t, "goroutines")
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		arrays := make([][]int64, g)
		for i := range arrays {
			arrays[i] = make([]int64, rapid.IntRange(1, 60).Draw(t, "n"))
			for k := range arrays[i] {
				arrays[i][k] = int64(r.Next())
			}
		}
		c.Note("%d goroutines", g)
		c.NonTrivial()
		bad := make([]string, g)
		var wg sync.WaitGroup
		for i, a := range arrays {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < 40 && bad[i] == ""; r++ {
					b := util.IntArrayToBytes(a)
					v := a[r%len(a)]
					b8, b4, b2 := util.Int64ToBytes(v), util.Int32ToBytes(int32(v)), util.Int16ToBytes(int16(v))
					got := util.BytesToIntArray(b)
					if !slices.Equal(got, a) || util.BytesToInt64(b8) != v || util.BytesToInt32(b4) != int32(v) || util.BytesToInt16(b2) != int16(v) {
						bad[i] = "an integer or array comes back altered"
					}
				}
			}()
		}
		wg.Wait()
		for i, w := range bad {
			h.Must(t, c, w == "", "goroutine %d of %d: %s", i, g, w)
		}
	})
}
