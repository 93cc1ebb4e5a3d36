package c03

import (
	"bytes"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"fmt"
	"io"
	"testing"

	"github.com/donnie4w/gofer/compress"
	refsnappy "github.com/golang/snappy"
	"github.com/klauspost/compress/s2"
	"github.com/klauspost/compress/zstd"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func refZlib(b []byte) ([]byte, error) {
	r, err := stdzlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func refGzip(b []byte) ([]byte, error) {
	r, err := stdgzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

var zdec, _ = zstd.NewReader(nil)

func refZstd(b []byte) ([]byte, error) { return zdec.DecodeAll(b, nil) }

func snappyUsable(b []byte) bool {
	n, err := refsnappy.DecodedLen(b)
	return err != nil || n <= 1<<24
}

func zstdUsable(b []byte) bool {
	var hd zstd.Header
	if err := hd.Decode(b); err != nil {
		return true
	}
	return (!hd.HasFCS || hd.FrameContentSize <= 1<<24) && hd.WindowSize <= 1<<24
}

func codec(t *rapid.T) h.Codec {
	switch rapid.IntRange(0, 5).Draw(t, "format") {
	case 0:
		return h.Codec{Name: "zlib", Enc: compress.Zlib, Dec: compress.UnZlib, Ref: refZlib, Checksummed: true}
	case 1:
		l := rapid.IntRange(-2, 9).Draw(t, "level")
		return h.Codec{Name: fmt.Sprintf("zlib level %d", l), Enc: func(b []byte) ([]byte, error) { return compress.ZlibLevel(b, l) }, Dec: compress.UnZlib, Ref: refZlib, Checksummed: true}
	case 2:
		return h.Codec{Name: "gzip", Enc: compress.Gzip, Dec: compress.UnGzip, Ref: refGzip, Checksummed: true}
	case 3:
		return h.Codec{Name: "snappy", Enc: func(b []byte) ([]byte, error) { return compress.Snappy(b), nil }, Dec: compress.UnSnappy,
			Ref: func(b []byte) ([]byte, error) { return refsnappy.Decode(nil, b) }, Usable: snappyUsable}
	case 4:
		return h.Codec{Name: "zstd", Enc: compress.Zstd, Dec: compress.UnZstd, Ref: refZstd, Checksummed: true, EmptyIsValid: true, Usable: zstdUsable}
	default:
		l := zstd.EncoderLevel(rapid.IntRange(1, 4).Draw(t, "level"))
		return h.Codec{Name: fmt.Sprintf("zstd level %d", l), Enc: func(b []byte) ([]byte, error) { return compress.ZstdLevel(b, l) }, Dec: compress.UnZstd, Ref: refZstd, Checksummed: true, EmptyIsValid: true, Usable: zstdUsable}
	}
}

func TestRoundTrip(t *testing.T)  { h.CodecRoundTrip(t, 500, 6000, codec) }
func TestLarge(t *testing.T)      { h.CodecLarge(t, 12, 150, codec) }
func TestConstant(t *testing.T)   { h.CodecConstant(t, 16, 150, codec) }
func TestDamage(t *testing.T)     { h.CodecDamage(t, 1200, 20000, codec) }
func TestConcurrent(t *testing.T) { h.CodecConcurrent(t, 60, 800, codec) }
func TestGarbage(t *testing.T) {
	h.CodecGarbage(t, 2000, 30000, codec, [][]byte{{0x78, 0x9c}, {0x78, 0x01}, {0x1f, 0x8b, 8, 0}, {0x28, 0xb5, 0x2f, 0xfd}, {5, 16}, {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}})
}

// Streams of other encoders of the formats, at any level.
func TestForeignStreams(t *testing.T) { h.CodecForeign(t, 500, 6000, false, foreign) }
func TestForeignLarge(t *testing.T)   { h.CodecForeign(t, 16, 160, true, foreign) }

func foreign(t *rapid.T, data func() []byte) h.Foreign {
	switch rapid.IntRange(0, 3).Draw(t, "format") {
	case 0:
		d := data()
		return h.Foreign{Name: "zlib", Data: d, Stream: h.ZlibStream(t, d), Dec: compress.UnZlib}
	case 1:
		d := data()
		return h.Foreign{Name: "snappy", Data: d, Stream: s2.EncodeSnappyBetter(nil, d), Dec: compress.UnSnappy}
	case 2:
		var stream, want []byte
		for i := rapid.IntRange(1, 3).Draw(t, "frames"); i > 0; i-- {
			d := data()
			w, err := zstd.NewWriter(nil, zstd.WithEncoderConcurrency(1), zstd.WithEncoderLevel(zstd.EncoderLevel(rapid.IntRange(1, 4).Draw(t, "level"))),
				zstd.WithEncoderCRC(rapid.Bool().Draw(t, "crc")), zstd.WithSingleSegment(rapid.Bool().Draw(t, "single")),
				zstd.WithWindowSize(1<<rapid.IntRange(10, 23).Draw(t, "window")), zstd.WithZeroFrames(true))
			if err != nil {
				panic(fmt.Sprintf("HARNESS-ERROR %v", err))
			}
			if rapid.Bool().Draw(t, "stream") {
				var b bytes.Buffer
				w.Reset(&b)
				w.Write(d)
				w.Close()
				stream = append(stream, b.Bytes()...)
			} else {
				stream = w.EncodeAll(d, stream)
			}
			want = append(want, d...)
		}
		return h.Foreign{Name: "zstd", Data: want, Stream: stream, Dec: compress.UnZstd}
	default:
		s, d := h.GzipStream(t, data)
		return h.Foreign{Name: "gzip", Data: d, Stream: s, Dec: compress.UnGzip}
	}
}
