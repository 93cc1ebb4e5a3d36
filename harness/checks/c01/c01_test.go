package c01

import (
	"bytes"
	"math"
	"math/big"
	"testing"

	"github.com/donnie4w/gofer/base58"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// The characters of the format. Which character has which value is learnt from the
// encoder: the encoding of d (1..57) is the digit for d, the remaining character is zero.
const bitcoin = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func alphabet(t *rapid.T, c *h.C) map[byte]int64 {
	m := map[byte]int64{}
	for i := int64(1); i < 58; i++ {
		e := base58.EncodeForInt64(uint64(i))
		h.Must(t, c, len(e) == 1, "the number %d encodes as %q", i, e)
		m[e[0]] = i
	}
	for i := range bitcoin {
		if _, ok := m[bitcoin[i]]; !ok {
			m[bitcoin[i]] = 0
		}
	}
	h.Must(t, c, len(m) == 58, "the digits are not 57 distinct characters of the alphabet")
	return m
}

func num(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		p := uint64(1)
		for i := rapid.IntRange(0, 10).Draw(t, "pow58"); i > 0; i-- {
			p *= 58
		}
		k := rapid.Uint64Range(1, 57).Draw(t, "k")
		return p*k + uint64(rapid.IntRange(-2, 2).Draw(t, "d"))
	case 1:
		return math.MaxUint64 - rapid.Uint64Range(0, 2000).Draw(t, "below")
	default:
		return uint64(h.Int64(t, "v"))
	}
}

func TestRoundTrip(t *testing.T) {
	h.Check(t, 20000, 400000, func(t *rapid.T, c *h.C) {
		v := num(t)
		c.Note("v=%d", v)
		c.NonTrivialIf(v >= 58)
		e := base58.EncodeForInt64(v)
		for _, b := range e {
			h.Must(t, c, bytes.IndexByte([]byte(bitcoin), b) >= 0, "encoding of %d has %q", v, e)
		}
		keep := append([]byte(nil), e...)
		got, ok := base58.DecodeForInt64(e)
		h.Must(t, c, ok && got == v, "decode(encode(%d)=%q) = %d,%v", v, e, got, ok)
		h.Must(t, c, bytes.Equal(keep, e), "decode changed its input %q -> %q", keep, e)
		got2, ok2 := base58.DecodeForInt64(e)
		h.Must(t, c, ok2 && got2 == v, "second decode(%q) = %d,%v", e, got2, ok2)
		// the next encoding must not share storage with an earlier result
		base58.EncodeForInt64(v ^ 0x5555)
		h.Must(t, c, bytes.Equal(keep, e), "a later encode changed an earlier result")
		// nor may what the caller does with it disturb a later one
		for i := range e {
			e[i] = '!'
		}
		h.Must(t, c, bytes.Equal(base58.EncodeForInt64(v), keep), "%d encodes as %q after an earlier result was overwritten, %q before", v, base58.EncodeForInt64(v), keep)
		e = keep
		w := num(t)
		if w != v {
			h.Must(t, c, !bytes.Equal(base58.EncodeForInt64(w), e), "%d and %d encode alike", v, w)
		}
	})
}

func TestDecodeAgainstReference(t *testing.T) {
	h.Check(t, 20000, 400000, func(t *rapid.T, c *h.C) {
		al := alphabet(t, c)
		var s []byte
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0: // arbitrary bytes
			s = rapid.SliceOfN(rapid.Byte(), 0, 14).Draw(t, "s")
		case 1: // valid characters, any length around the limit
			n := rapid.IntRange(1, 14).Draw(t, "n")
			for i := 0; i < n; i++ {
				s = append(s, bitcoin[rapid.IntRange(0, 57).Draw(t, "c")])
			}
		case 2: // around 2^64, both sides
			z := new(big.Int).SetUint64(math.MaxUint64)
			z.Add(z, big.NewInt(int64(rapid.IntRange(-3000, 3000).Draw(t, "d"))))
			s = refEncode(z, al)
		case 3: // multiples beyond 64 bits
			z := new(big.Int).SetUint64(rapid.Uint64().Draw(t, "lo"))
			z.Add(z, new(big.Int).Lsh(big.NewInt(int64(rapid.IntRange(1, 60).Draw(t, "hi"))), 64))
			s = refEncode(z, al)
		default: // valid text with one character replaced by any byte
			s = base58.EncodeForInt64(num(t))
			s = append([]byte("2"), s...)
			s[rapid.IntRange(0, len(s)-1).Draw(t, "at")] = rapid.Byte().Draw(t, "b")
		}
		c.Note("s=%q", s)
		want := new(big.Int)
		valid := true
		for _, b := range s {
			d, ok := al[b]
			if !ok {
				valid = false
				break
			}
			want.Mul(want, big.NewInt(58)).Add(want, big.NewInt(d))
		}
		over := valid && !want.IsUint64()
		c.LabelIf(!valid, "bad-char")
		c.LabelIf(over, "overflow")
		c.LabelIf(valid && !over, "valid")
		c.NonTrivial()
		keep := append([]byte(nil), s...)
		var got uint64
		var ok bool
		p := h.Catch(func() { got, ok = base58.DecodeForInt64(s) })
		h.Must(t, c, p == nil, "decode(%q) panicked: %v", s, p)
		h.Must(t, c, bytes.Equal(keep, s), "decode changed its input %q -> %q", keep, s)
		if valid && !over {
			// leading zero digits denote the same number; both answers for those are sound
			// only if the number is right.
			if canonical(s, al) {
				h.Must(t, c, ok && got == want.Uint64(), "decode(%q) = %d,%v want %d", s, got, ok, want)
			} else {
				h.Must(t, c, !ok || got == want.Uint64(), "decode(%q) = %d,%v want %d or a refusal", s, got, ok, want)
			}
		} else {
			h.Must(t, c, !ok, "decode(%q) = %d,%v, but it is not the text of a 64-bit number", s, got, ok)
		}
	})
}

func canonical(s []byte, al map[byte]int64) bool { return len(s) == 0 || al[s[0]] != 0 }

func refEncode(z *big.Int, al map[byte]int64) []byte {
	rev := map[int64]byte{}
	for b, d := range al {
		rev[d] = b
	}
	var out []byte
	q, m := new(big.Int).Set(z), new(big.Int)
	for q.Sign() > 0 {
		q.DivMod(q, big.NewInt(58), m)
		out = append([]byte{rev[m.Int64()]}, out...)
	}
	return out
}
