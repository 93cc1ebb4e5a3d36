package c05

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"strings"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// crc8 is the bitwise definition: polynomial x^8+x^2+x+1, initial value 0, no reflection.
func crc8(b []byte) (r byte) {
	for _, x := range b {
		r ^= x
		for i := 0; i < 8; i++ {
			if r&0x80 != 0 {
				r = r<<1 ^ 0x07
			} else {
				r <<= 1
			}
		}
	}
	return
}

// fnv by definition, independent of the library used by the code.
func fnv1a64(b []byte) uint64 {
	x := uint64(14695981039346656037)
	for _, c := range b {
		x ^= uint64(c)
		x *= 1099511628211
	}
	return x
}

func all(b []byte) string {
	bl, err := util.Blake2b(b)
	return fmt.Sprintf("%x|%s|%x|%s|%02x|%08x|%016x|%08x|%016x|%x %v", util.MD5(b), util.Md5Str(string(b)), util.SHA1(b), util.Sha1Str(string(b)),
		util.CRC8(b), util.CRC32(b), util.CRC64(b), util.FNVHash32(b), util.FNVHash64(b), bl, err)
}

func want(b []byte) string {
	m, s, bl := md5.Sum(b), sha1.Sum(b), blake2b.Sum256(b)
	f := fnv.New32a()
	f.Write(b)
	return fmt.Sprintf("%x|%s|%x|%s|%02x|%08x|%016x|%08x|%016x|%x %v", m, strings.ToUpper(hex.EncodeToString(m[:])), s, strings.ToUpper(hex.EncodeToString(s[:])),
		crc8(b), crc32.ChecksumIEEE(b), crc64.Checksum(b, crc64.MakeTable(crc64.ECMA)), f.Sum32(), fnv1a64(b), bl, error(nil))
}

func TestStandard(t *testing.T) {
	h.Check(t, 6000, 120000, func(t *rapid.T, c *h.C) {
		max := 3000
		if rapid.IntRange(0, 199).Draw(t, "big") == 0 {
			max = 300 << 10
		}
		b := h.Bytes(t, "b", max)
		c.Note("b=%s", h.B(b))
		c.Key(b)
		c.NonTrivialIf(len(b) > 0)
		c.LabelIf(len(b) == 0, "empty")
		c.LabelIf(len(b) > 128, "several blocks")
		keep := append([]byte(nil), b...)
		got := all(b)
		h.Must(t, c, bytes.Equal(b, keep), "a digest changed its input")
		h.Must(t, c, got == want(keep), "digests of %s:\n got  %s\n want %s", h.B(keep), got, want(keep))
		// raw results stay valid after later calls
		m, s := util.MD5(b), util.SHA1(b)
		bl, _ := util.Blake2b(b)
		util.MD5([]byte("x"))
		util.SHA1([]byte("x"))
		util.Blake2b([]byte("x"))
		wm, ws, wb := md5.Sum(b), sha1.Sum(b), blake2b.Sum256(b)
		h.Must(t, c, bytes.Equal(m, wm[:]) && bytes.Equal(s, ws[:]) && bytes.Equal(bl, wb[:]), "a later call changed an earlier result")
	})
}

func TestHash64(t *testing.T) {
	h.Check(t, 6000, 100000, func(t *rapid.T, c *h.C) {
		a := h.Bytes(t, "a", 600)
		c.Note("a=%s", h.B(a))
		c.Key(a)
		c.NonTrivialIf(len(a) > 0)
		x := util.Hash64(a)
		// same bytes elsewhere in memory, with other neighbours
		cp := append([]byte{0xAA, 0x55, 0x13}, a...)
		cp = append(cp, 0x77)
		h.Must(t, c, util.Hash64(cp[3:3+len(a)]) == x, "equal bytes hash differently")
		h.Must(t, c, util.Hash64(a) == x, "the same slice hashes differently the second time")
		// chance collisions have probability 2^-64 per pair: none is expected in any run
		b := append([]byte(nil), a...)
		switch rapid.IntRange(0, 2).Draw(t, "change") {
		case 0:
			b = append(b, rapid.Byte().Draw(t, "extra"))
		case 1:
			if len(b) == 0 {
				return
			}
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
		default:
			if len(b) == 0 {
				return
			}
			b = b[:len(b)-1]
		}
		h.Must(t, c, util.Hash64(b) != x, "%s and %s hash alike", h.B(a), h.B(b))
	})
}

func TestConcurrent(t *testing.T) {
	h.Check(t, 150, 2500, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		in := make([][]byte, n)
		for i := range in {
			in[i] = h.Bytes(t, fmt.Sprintf("b%d", i), 700)
			c.Note("%s", h.B(in[i]))
			c.Key(in[i])
		}
		c.NonTrivial()
		h64 := make([]uint64, n)
		for i := range in {
			h64[i] = util.Hash64(in[i])
		}
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i := range in {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						bad[i] = fmt.Sprint("panic: ", p)
					}
				}()
				w := want(in[i])
				for r := 0; r < 20; r++ {
					if g := all(in[i]); g != w {
						bad[i] = fmt.Sprintf("got %s want %s", g, w)
					}
					if util.Hash64(in[i]) != h64[i] {
						bad[i] = "the in-memory hash changed"
					}
				}
			}()
		}
		wg.Wait()
		for i := range bad {
			h.Must(t, c, bad[i] == "", "goroutine %d: %s", i, bad[i])
		}
	})
}

// Inputs of several MiB.
func TestLarge(t *testing.T) {
	h.Check(t, 6, 80, func(t *rapid.T, c *h.C) {
		b := h.Big(t, "b", 9<<20)
		c.Note("b=%s", h.B(b))
		c.Key(b)
		c.NonTrivial()
		c.Label("large")
		got, w := all(b), want(b)
		h.Must(t, c, got == w, "digests of %s:\n got  %s\n want %s", h.B(b), got, w)
		x := util.Hash64(b)
		o := append([]byte{1}, b...)[1:]
		h.Must(t, c, util.Hash64(o) == x, "equal bytes hash differently")
		i := rapid.SampledFrom([]int{0, len(o) - 1, len(o) / 2, 65536, 1 << 17}).Draw(t, "at")
		o[i] ^= 1
		h.Must(t, c, util.Hash64(o) != x, "%s hashes alike with byte %d changed", h.B(b), i)
	})
}
