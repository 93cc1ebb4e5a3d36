package c04

import (
	"bytes"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/donnie4w/gofer/util"
	refsnappy "github.com/golang/snappy"
	"github.com/klauspost/compress/s2"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func refZlib(b []byte) ([]byte, error) {
	r, err := stdzlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func refGzip(b []byte) ([]byte, error) {
	r, err := stdgzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func snappyUsable(b []byte) bool {
	n, err := refsnappy.DecodedLen(b)
	return err != nil || n <= 1<<24
}

func gzipEnc(b []byte) ([]byte, error) { buf, err := util.Gzip(b); return buf.Bytes(), err }
func gzipDec(b []byte) ([]byte, error) { buf, err := util.UnGzip(b); return buf.Bytes(), err }

// The snappy decoder reports failure by returning no data.
func snappyDec(b []byte) ([]byte, error) {
	r := util.SnappyDecode(b)
	if len(r) == 0 {
		if _, err := refsnappy.Decode(nil, b); err != nil {
			return nil, errors.New("no data")
		}
	}
	return r, nil
}

func codec(t *rapid.T) h.Codec {
	switch rapid.IntRange(0, 2).Draw(t, "format") {
	case 0:
		return h.Codec{Name: "zlib", Enc: util.Zlib, Dec: util.UnZlib, Ref: refZlib, Checksummed: true}
	case 1:
		return h.Codec{Name: "gzip", Enc: gzipEnc, Dec: gzipDec, Ref: refGzip, Checksummed: true}
	default:
		return h.Codec{Name: "snappy", Enc: func(b []byte) ([]byte, error) { return util.SnappyEncode(b), nil }, Dec: snappyDec,
			Ref: func(b []byte) ([]byte, error) {
				r, err := refsnappy.Decode(nil, b)
				if err == nil && len(r) == 0 {
					return nil, nil
				}
				return r, err
			}, Usable: snappyUsable}
	}
}

func TestRoundTrip(t *testing.T)  { h.CodecRoundTrip(t, 800, 8000, codec) }
func TestLarge(t *testing.T)      { h.CodecLarge(t, 12, 150, codec) }
func TestConstant(t *testing.T)   { h.CodecConstant(t, 12, 150, codec) }
func TestDamage(t *testing.T)     { h.CodecDamage(t, 1500, 25000, codec) }
func TestConcurrent(t *testing.T) { h.CodecConcurrent(t, 60, 800, codec) }
func TestGarbage(t *testing.T) {
	h.CodecGarbage(t, 2500, 40000, codec, [][]byte{{0x78, 0x9c}, {0x78, 0x01}, {0x1f, 0x8b, 8, 0}, {5, 16}, {0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}})
}

// Streams other tools produce: several gzip members, headers with names and comments, any level.
func TestForeignStreams(t *testing.T) { h.CodecForeign(t, 800, 8000, false, foreign) }
func TestForeignLarge(t *testing.T)   { h.CodecForeign(t, 16, 160, true, foreign) }

func foreign(t *rapid.T, data func() []byte) h.Foreign {
	switch rapid.IntRange(0, 3).Draw(t, "format") {
	case 0:
		d := data()
		return h.Foreign{Name: "zlib", Data: d, Stream: h.ZlibStream(t, d), Dec: util.UnZlib}
	case 1:
		d := data()
		return h.Foreign{Name: "snappy", Data: d, Stream: s2.EncodeSnappyBetter(nil, d), Dec: snappyDec}
	default:
		s, d := h.GzipStream(t, data)
		return h.Foreign{Name: "gzip", Data: d, Stream: s, Dec: func(b []byte) ([]byte, error) {
			if err := util.CheckGzipType(b); err != nil {
				return nil, fmt.Errorf("not recognised: %v", err)
			}
			return gzipDec(b)
		}}
	}
}

func TestDetector(t *testing.T) {
	h.Check(t, 3000, 40000, func(t *rapid.T, c *h.C) {
		b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b")
		if rapid.Bool().Draw(t, "gz") {
			e, _ := gzipEnc(b)
			if rapid.Bool().Draw(t, "mutate") {
				e[rapid.IntRange(0, 9).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
			}
			b = e
		}
		c.Note("b=%x", b)
		c.NonTrivialIf(len(b) >= 10)
		_, ref := stdgzip.NewReader(bytes.NewReader(b))
		got := util.CheckGzipType(b)
		c.LabelIf(ref == nil, "gzip")
		c.LabelIf(ref != nil, "not gzip")
		h.Must(t, c, (got == nil) == (ref == nil), "detector says %v, the header parser says %v", got, ref)
	})
}
