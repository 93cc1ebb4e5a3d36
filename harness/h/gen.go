package h

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"encoding/binary"
	"math"

	"github.com/golang/snappy"
	"github.com/klauspost/compress/zstd"
	"pgregory.net/rapid"
)

// Bytes draws byte strings of size up to max with varied texture: random, runs,
// repeated words, sparse, and boundary sizes.
func Bytes(t *rapid.T, label string, max int) []byte {
	n := Size(t, label+".n", max)
	kind := rapid.IntRange(0, 6).Draw(t, label+".kind")
	if n <= 48 && kind < 3 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	seed := rapid.Uint64().Draw(t, label+".seed")
	r := NewRand(seed)
	b := make([]byte, n)
	switch kind {
	case 6: // compressed data, as it is or with something behind it
		return stream(r, n)
	case 0, 1: // uniform
		r.Fill(b)
	case 2: // one byte
		c := byte(r.Next())
		for i := range b {
			b[i] = c
		}
	case 3: // repeated word with mutations
		w := make([]byte, 1+r.Next()%40)
		for i := range w {
			w[i] = byte(r.Next())
		}
		for i := range b {
			b[i] = w[i%len(w)]
			if r.Next()%97 == 0 {
				b[i] ^= byte(r.Next())
			}
		}
	case 4: // text
		const al = "the quick brown fox, jumps over 0123456789 lazy dogs\n\t{}\":"
		for i := range b {
			b[i] = al[r.Next()%uint64(len(al))]
		}
	case 5: // sparse
		for i := range b {
			if r.Next()%16 == 0 {
				b[i] = byte(r.Next())
			}
		}
	}
	return b
}

// stream makes about n bytes that are, or begin with, a stream of a compression format.
func stream(r *Rand, n int) []byte {
	text := make([]byte, r.Intn(n+1))
	for i := range text {
		text[i] = "abc de\x00f"[r.Next()%8]
	}
	var buf bytes.Buffer
	switch r.Intn(4) {
	case 0:
		w := gzip.NewWriter(&buf)
		w.Write(text)
		w.Close()
	case 1:
		w, _ := zlib.NewWriterLevel(&buf, []int{-1, 0, 1, 9}[r.Intn(4)])
		w.Write(text)
		w.Close()
	case 2:
		buf.Write(snappy.Encode(nil, text))
	default:
		buf.Write(zenc.EncodeAll(text, nil))
	}
	b := buf.Bytes()
	if len(b) > n { // too long for what was asked for
		b = b[:n]
	}
	if r.Intn(4) == 0 {
		for len(b) < n {
			b = append(b, byte(r.Next()))
		}
	}
	return b
}

var zenc, _ = zstd.NewWriter(nil, zstd.WithEncoderConcurrency(1), zstd.WithWindowSize(1<<16))

// Big draws a byte string of 256 KiB to max bytes: what small counters, fixed buffers and
// thresholds chosen for ordinary data do not hold.
func Big(t *rapid.T, label string, max int) []byte {
	const min = 256 << 10
	var n int
	if rapid.Bool().Draw(t, label+".edge") {
		var edges []int
		for e := min; e <= max; e *= 2 {
			edges = append(edges, e, e+1, e-1, e*3/2)
		}
		n = rapid.SampledFrom(edges).Draw(t, label+".n")
	} else {
		n = min + NewRand(rapid.Uint64().Draw(t, label+".len")).Intn(max-min)
	}
	if n > max {
		n = max
	}
	b := make([]byte, n)
	r := NewRand(rapid.Uint64().Draw(t, label+".seed"))
	switch rapid.IntRange(0, 2).Draw(t, label+".kind") {
	case 0:
		r.Fill(b)
	case 1:
		c := byte(r.Next())
		for i := range b {
			b[i] = c
		}
		for i := 0; i < 100; i++ {
			b[r.Intn(n)] = byte(r.Next())
		}
	default:
		const al = "the quick brown fox, jumps over 0123456789 lazy dogs\n\t{}\":"
		for i := range b {
			b[i] = al[r.Next()%uint64(len(al))]
		}
	}
	return b
}

// Size draws a size in 0..max favouring small values and block boundaries.
func Size(t *rapid.T, label string, max int) int {
	switch rapid.IntRange(0, 4).Draw(t, label+".how") {
	case 0, 1:
		m := 40
		if max < m {
			m = max
		}
		return rapid.IntRange(0, m).Draw(t, label)
	case 2: // around a power of two
		k := 0
		for (1 << (k + 1)) <= max {
			k++
		}
		e := rapid.IntRange(0, k).Draw(t, label+".pow")
		d := rapid.IntRange(-1, 1).Draw(t, label+".d")
		n := (1 << e) + d
		if n > max {
			n = max
		}
		if n < 0 {
			n = 0
		}
		return n
	default:
		return rapid.IntRange(0, max).Draw(t, label)
	}
}

// Int64 draws over the whole range with emphasis on edges.
func Int64(t *rapid.T, label string) int64 {
	switch rapid.IntRange(0, 4).Draw(t, label+".how") {
	case 0:
		return int64(rapid.IntRange(-300, 300).Draw(t, label))
	case 1:
		return rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1,
			math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt16, math.MinInt16, 255, 256, 65535, 65536, 1 << 31, 1 << 32}).Draw(t, label)
	case 2:
		e := rapid.IntRange(0, 63).Draw(t, label+".bit")
		return int64(uint64(1)<<e) + int64(rapid.IntRange(-2, 2).Draw(t, label+".d"))
	default: // uniform over the bits (rapid's own integers favour small values)
		return int64(NewRand(rapid.Uint64().Draw(t, label)).Next())
	}
}

// Rand is a small deterministic generator (splitmix64) seeded from a drawn value, for
// bulk data only: every use is a pure function of a value rapid drew.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Fill makes every byte of b random.
func (r *Rand) Fill(b []byte) {
	for len(b) >= 8 {
		binary.LittleEndian.PutUint64(b, r.Next())
		b = b[8:]
	}
	for i := range b {
		b[i] = byte(r.Next())
	}
}

func (r *Rand) Intn(n int) int { return int(r.Next() % uint64(n)) }
