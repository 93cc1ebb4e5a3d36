package h

import (
	"bytes"
	"compress/gzip"
	"compress/zlib"
	"fmt"
	"sync"
	"testing"

	"pgregory.net/rapid"
)

// Codec describes one compression format for the shared codec properties.
type Codec struct {
	Name string
	Enc  func([]byte) ([]byte, error)
	Dec  func([]byte) ([]byte, error)
	// Ref is an independent decoder used to tell a checksum collision or a still-valid
	// stream from silent damage.
	Ref func([]byte) ([]byte, error)
	// Checksummed formats must not pass altered data off as success.
	Checksummed bool
	// EmptyIsValid: the empty stream is a valid encoding of empty data.
	EmptyIsValid bool
	// Slow formats get only simple payloads when these are very large.
	Slow bool
	// Usable bounds garbage inputs (e.g. absurd declared sizes that would only test the allocator).
	Usable func([]byte) bool
}

func payload(t *rapid.T) []byte {
	max := 20000
	switch rapid.IntRange(0, 59).Draw(t, "big") {
	case 0:
		max = 3 << 20
	case 1, 2, 3:
		max = 300000
	}
	return Bytes(t, "data", max)
}

// CodecRoundTrip: Dec(Enc(x)) == x, inputs untouched, results stable.
func CodecRoundTrip(t *testing.T, quick, thorough int, codecs func(*rapid.T) Codec) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		k := codecs(t)
		data := payload(t)
		c.Note("%s data=%s", k.Name, B(data))
		c.Key(data)
		c.Label(k.Name)
		c.LabelIf(len(data) == 0, "empty")
		c.LabelIf(len(data) > 65536, "over 64K")
		c.NonTrivialIf(len(data) > 0)
		spare := rapid.IntRange(0, 64).Draw(t, "spare")
		in := append(make([]byte, 0, len(data)+spare), data...)
		tail := in[len(in):cap(in)]
		for i := range tail {
			tail[i] = 0xEE
		}
		enc, err := k.Enc(in)
		Must(t, c, err == nil, "%s: compressing failed: %v", k.Name, err)
		Must(t, c, bytes.Equal(in, data) && allEq(in[len(in):cap(in)], 0xEE), "%s: compressing changed the caller's bytes", k.Name)
		for i := range in { // the result must not share storage with the input
			in[i] ^= 0xff
		}
		k.Enc([]byte("a later call must not disturb an earlier result"))
		encKeep := append([]byte(nil), enc...)
		dec, err := k.Dec(enc)
		Must(t, c, err == nil, "%s: decompressing own output failed: %v (data %s, stream %s)", k.Name, err, B(data), B(enc))
		Must(t, c, bytes.Equal(dec, data), "%s: got %s back for %s", k.Name, B(dec), B(data))
		Must(t, c, bytes.Equal(enc, encKeep), "%s: decompressing changed the stream", k.Name)
		if len(enc) > 0 {
			for i := range enc {
				enc[i] ^= 0xff
			}
		}
		k.Dec(encKeep)
		Must(t, c, bytes.Equal(dec, data), "%s: an earlier result changed after the stream was overwritten", k.Name)
	})
}

// CodecDamage: truncation and corruption are reported.
func CodecDamage(t *testing.T, quick, thorough int, codecs func(*rapid.T) Codec) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		k := codecs(t)
		data := Bytes(t, "data", 6000)
		if len(data) == 0 {
			data = []byte{7}
		}
		enc, err := k.Enc(append([]byte(nil), data...))
		Must(t, c, err == nil, "%s: compressing failed: %v", k.Name, err)
		bad := append([]byte(nil), enc...)
		how := ""
		trunc := false
		switch rapid.IntRange(0, 3).Draw(t, "fault") {
		case 0, 1:
			n := rapid.IntRange(0, len(enc)-1).Draw(t, "keep")
			if rapid.Bool().Draw(t, "fromEnd") {
				n = len(enc) - 1 - rapid.IntRange(0, min(14, len(enc)-1)).Draw(t, "cut")
			}
			if n == 0 && k.EmptyIsValid {
				n = 1
			}
			if n >= len(enc) {
				return
			}
			bad, how, trunc = bad[:n], fmt.Sprintf("truncated to %d of %d", n, len(enc)), true
		case 2:
			i := rapid.IntRange(0, len(enc)-1).Draw(t, "at")
			x := rapid.ByteRange(1, 255).Draw(t, "xor")
			bad[i] ^= x
			how = fmt.Sprintf("byte %d of %d xor %#x", i, len(enc), x)
		case 3:
			i := len(enc) - 1 - rapid.IntRange(0, min(11, len(enc)-1)).Draw(t, "atEnd")
			x := rapid.ByteRange(1, 255).Draw(t, "xor")
			bad[i] ^= x
			how = fmt.Sprintf("byte %d of %d xor %#x", i, len(enc), x)
		}
		c.Note("%s data=%s %s", k.Name, B(data), how)
		c.Key(data)
		c.NonTrivial()
		if k.Usable != nil && !k.Usable(bad) {
			c.Label("skipped: absurd declared size")
			return
		}
		c.Label(k.Name)
		var dec []byte
		if p := Catch(func() { dec, err = k.Dec(bad) }); p != nil {
			Must(t, c, false, "%s: %s: crashed: %v", k.Name, how, p)
		}
		c.LabelIf(err != nil, "reported")
		if err != nil || bytes.Equal(dec, data) {
			return
		}
		ref, rerr := k.Ref(bad)
		if rerr == nil && bytes.Equal(ref, dec) && !(trunc && len(dec) < len(data)) {
			c.Label("valid stream of other data by the reference decoder")
			return
		}
		Must(t, c, false, "%s: %s: success with %s, original %s (reference decoder: %v)", k.Name, how, B(dec), B(data), rerr)
	})
}

// CodecGarbage: arbitrary input is an error unless the reference decoder accepts it too.
func CodecGarbage(t *testing.T, quick, thorough int, codecs func(*rapid.T) Codec, prefixes [][]byte) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		k := codecs(t)
		bad := rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
		if rapid.Bool().Draw(t, "withPrefix") {
			p := rapid.SampledFrom(prefixes).Draw(t, "prefix")
			bad = append(append([]byte(nil), p...), bad...)
		}
		c.Note("%s input=%x", k.Name, bad)
		if k.Usable != nil && !k.Usable(bad) {
			c.Label("skipped: absurd declared size")
			return
		}
		c.NonTrivialIf(len(bad) > 0)
		var dec []byte
		var err error
		if p := Catch(func() { dec, err = k.Dec(bad) }); p != nil {
			Must(t, c, false, "%s: crashed: %v", k.Name, p)
		}
		c.LabelIf(err != nil, "reported")
		if err != nil {
			return
		}
		ref, rerr := k.Ref(bad)
		Must(t, c, rerr == nil && bytes.Equal(ref, dec), "%s: success with %s on %x; reference decoder: %s, %v", k.Name, B(dec), bad, B(ref), rerr)
	})
}

// CodecConcurrent: independent callers do not disturb one another.
func CodecConcurrent(t *testing.T, quick, thorough int, codecs func(*rapid.T) Codec) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		k := codecs(t)
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		if k.Slow { // these take hundreds of megabytes each
			n = min(n, 3)
		}
		data := make([][]byte, n)
		for i := range data {
			data[i] = Bytes(t, fmt.Sprintf("d%d", i), 4000)
			c.Note("%s", B(data[i]))
			c.Key(data[i])
		}
		c.NonTrivial()
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i := range data {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[i] = fmt.Sprintf("crashed: %v", p)
					}
				}()
				for r := 0; r < 4; r++ {
					enc, err := k.Enc(data[i])
					if err != nil {
						errs[i] = err.Error()
						return
					}
					dec, err := k.Dec(enc)
					if err != nil || !bytes.Equal(dec, data[i]) {
						errs[i] = fmt.Sprintf("got %s, %v for %s", B(dec), err, B(data[i]))
						return
					}
				}
			}()
		}
		wg.Wait()
		for i, e := range errs {
			Must(t, c, e == "", "%s: goroutine %d of %d: %s", k.Name, i, n, e)
		}
	})
}

func allEq(b []byte, v byte) bool {
	for _, x := range b {
		if x != v {
			return false
		}
	}
	return true
}

// CodecLarge: round trips of a few payloads of many megabytes.
func CodecLarge(t *testing.T, quick, thorough int, codecs func(*rapid.T) Codec) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		k := codecs(t)
		n := 1 << rapid.IntRange(20, 26).Draw(t, "magnitude")
		n += rapid.IntRange(0, n/4).Draw(t, "more")
		period := rapid.SampledFrom([]int{1, 1, 7, 1000, 70000, n}).Draw(t, "period")
		if k.Slow && n > 1<<24 {
			period = 1
		}
		r := NewRand(rapid.Uint64().Draw(t, "seed"))
		data := make([]byte, n)
		for i := 0; i < min(period, 1<<22); i++ {
			data[i] = byte(r.Next())
		}
		for i := period; i < n; i *= 2 {
			copy(data[i:], data[:i])
		}
		c.Note("%s %d bytes of period %d", k.Name, n, period)
		c.Label(k.Name)
		c.NonTrivial()
		enc, err := k.Enc(data)
		Must(t, c, err == nil, "%s: compressing failed: %v", k.Name, err)
		dec, err := k.Dec(enc)
		Must(t, c, err == nil, "%s: decompressing own output of %d bytes failed: %v", k.Name, len(enc), err)
		Must(t, c, bytes.Equal(dec, data), "%s: got %s back for %s", k.Name, B(dec), B(data))
	})
}

// CodecConstant: many megabytes of one byte, which compress as well as anything can.
func CodecConstant(t *testing.T, quick, thorough int, codecs func(*rapid.T) Codec) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		k := codecs(t)
		n := rapid.SampledFrom([]int{5 << 20, 20 << 20, 48 << 20}).Draw(t, "n") + rapid.IntRange(0, 99).Draw(t, "more")
		b := rapid.Byte().Draw(t, "byte")
		c.Note("%s %d times %d", k.Name, n, b)
		c.Label(k.Name)
		c.NonTrivial()
		data := bytes.Repeat([]byte{b}, n)
		enc, err := k.Enc(data)
		Must(t, c, err == nil, "%s: compressing failed: %v", k.Name, err)
		c.LabelIf(len(enc) < n/1000, "a thousandth")
		dec, err := k.Dec(enc)
		Must(t, c, err == nil, "%s: decompressing own output of %d bytes failed: %v", k.Name, len(enc), err)
		Must(t, c, bytes.Equal(dec, data), "%s: got %s back for %s", k.Name, B(dec), B(data))
	})
}

// Foreign is a stream that another encoder of a format made of data.
type Foreign struct {
	Name   string
	Data   []byte
	Stream []byte
	Dec    func([]byte) ([]byte, error)
}

// CodecForeign: streams of other encoders decompress to what was put into them.
func CodecForeign(t *testing.T, quick, thorough int, large bool, draw func(*rapid.T, func() []byte) Foreign) {
	Check(t, quick, thorough, func(t *rapid.T, c *C) {
		f := draw(t, func() []byte {
			if large { // compresses as well as anything can
				return bytes.Repeat([]byte{rapid.Byte().Draw(t, "byte")}, rapid.SampledFrom([]int{5 << 20, 16<<20 - 5, 16<<20 - 5}).Draw(t, "n"))
			}
			return Bytes(t, "data", 20000)
		})
		keep := append([]byte(nil), f.Stream...)
		c.Note("%s stream=%s", f.Name, B(f.Stream))
		c.Key(append([]byte(f.Name), f.Stream...))
		c.Label(f.Name)
		c.NonTrivialIf(len(f.Data) > 0)
		got, err := f.Dec(f.Stream)
		Must(t, c, err == nil && bytes.Equal(got, f.Data), "%s of another encoder: got %s, %v want %s", f.Name, B(got), err, B(f.Data))
		Must(t, c, bytes.Equal(f.Stream, keep), "%s: decompressing modified its input", f.Name)
	})
}

// GzipStream makes one to three gzip members, with and without names.
func GzipStream(t *rapid.T, data func() []byte) (stream, want []byte) {
	var b bytes.Buffer
	for i := rapid.IntRange(1, 3).Draw(t, "members"); i > 0; i-- {
		w, _ := gzip.NewWriterLevel(&b, rapid.IntRange(-2, 9).Draw(t, "level"))
		if rapid.Bool().Draw(t, "named") {
			w.Name = rapid.StringMatching("[a-z]{0,9}").Draw(t, "name")
			w.Comment = rapid.StringMatching("[a-z]{0,9}").Draw(t, "comment")
			w.Extra = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "extra")
		}
		d := data()
		want = append(want, d...)
		half := rapid.IntRange(0, len(d)).Draw(t, "flushAt")
		w.Write(d[:half])
		if half > 0 && half < len(d) {
			w.Flush()
		}
		w.Write(d[half:])
		w.Close()
	}
	return b.Bytes(), want
}

// ZlibStream makes a zlib stream of any level.
func ZlibStream(t *rapid.T, d []byte) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, rapid.IntRange(-2, 9).Draw(t, "level"))
	half := rapid.IntRange(0, len(d)).Draw(t, "flushAt")
	w.Write(d[:half])
	if half > 0 && half < len(d) {
		w.Flush()
	}
	w.Write(d[half:])
	w.Close()
	return b.Bytes()
}
