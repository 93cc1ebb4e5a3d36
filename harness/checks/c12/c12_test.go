package c12

import (
	"bytes"
	"encoding/hex"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/base58"
	"github.com/donnie4w/gofer/uuid"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

var form = regexp.MustCompile(`^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$`)

func text(b [16]byte) string {
	x := hex.EncodeToString(b[:])
	return x[:8] + "-" + x[8:12] + "-" + x[12:16] + "-" + x[16:20] + "-" + x[20:]
}

func gen(t *rapid.T, l string) uuid.UUID {
	var u uuid.UUID
	switch rapid.IntRange(0, 3).Draw(t, l+".how") {
	case 0:
		copy(u[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, l))
	case 1: // sparse
		for i := rapid.IntRange(0, 3).Draw(t, l+".set"); i > 0; i-- {
			u[rapid.IntRange(0, 15).Draw(t, l+".at")] = rapid.Byte().Draw(t, l+".b")
		}
	case 2:
		u = *uuid.NewUUID()
	default:
		r := h.NewRand(rapid.Uint64().Draw(t, l+".seed"))
		for i := range u {
			u[i] = byte(r.Next())
		}
	}
	return u
}

func TestTextAndViews(t *testing.T) {
	h.Check(t, 15000, 200000, func(t *rapid.T, c *h.C) {
		u := gen(t, "u")
		orig := [16]byte(u)
		c.Note("%x", orig)
		c.NonTrivialIf(orig != [16]byte{})
		s := u.String()
		h.Must(t, c, s == text(orig), "text of %x is %q", orig, s)
		in := s
		switch rapid.IntRange(0, 2).Draw(t, "case") {
		case 1:
			in = strings.ToUpper(s)
		case 2:
			b := []byte(s)
			r := h.NewRand(rapid.Uint64().Draw(t, "mix"))
			for i := range b {
				if r.Next()%2 == 0 {
					b[i] = strings.ToUpper(string(b[i]))[0]
				}
			}
			in = string(b)
		}
		p, err := uuid.Parse(in)
		h.Must(t, c, err == nil && p != nil && [16]byte(*p) == orig, "parsing %q gives %v, %v", in, p, err)
		h.Must(t, c, p.Equals(&u) && u.Equals(p) && u.Equals(&u), "the parsed UUID is not Equal to the original %q", s)
		h.Must(t, c, !u.Equals(nil), "Equals(nil) is true")
		// another value
		v := u
		if rapid.Bool().Draw(t, "near") {
			v[rapid.IntRange(0, 15).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		} else {
			v = gen(t, "v")
		}
		h.Must(t, c, u.Equals(&v) == ([16]byte(u) == [16]byte(v)) && v.Equals(&u) == u.Equals(&v), "Equals(%x, %x) = %v", u, v, u.Equals(&v))
		h.Must(t, c, (v.String() == s) == (v == u), "texts of %x and %x: %q %q", u, v, s, v.String())
		// version and variant
		h.Must(t, c, u.Version() == int(orig[6]>>4), "version of %x is %d", orig, u.Version())
		switch va := u.Variant(); {
		case orig[8]>>7 == 0:
			h.Must(t, c, va == 0, "variant of byte %#x is %d, want 0 (NCS)", orig[8], va)
		case orig[8]>>6 == 2:
			h.Must(t, c, va == 1, "variant of byte %#x is %d, want 1 (RFC 4122)", orig[8], va)
		case orig[8]>>5 == 6:
			h.Must(t, c, va == 2, "variant of byte %#x is %d, want 2 (Microsoft)", orig[8], va)
		default:
			h.Must(t, c, va != 1 && va != 2, "variant of byte %#x is %d (reserved)", orig[8], va)
		}
		// views are functions of the bytes
		w := u
		h.Must(t, c, u.Int64() == w.Int64() && u.Int32() == w.Int32() && bytes.Equal(u.Base58(), w.Base58()) && bytes.Equal(u.Bytes(), w.Bytes()), "views of equal UUIDs %x differ", orig)
		h.Must(t, c, bytes.Equal(u.Bytes(), orig[:]), "Bytes of %x is %x", orig, u.Bytes())
		n, ok := base58.DecodeForInt64(u.Base58())
		h.Must(t, c, ok && n == uint64(u.Int64()), "base58 view %q denotes %d (%v), integer view %d", u.Base58(), n, ok, u.Int64())
		first := [4]string{u.String(), string(u.Base58()), string(u.Bytes())}
		gen(t, "other")
		other := uuid.NewUUID()
		other.Int32()
		other.Int64()
		other.Base58()
		h.Must(t, c, u.Int64() == w.Int64() && u.Int32() == w.Int32() && first == [4]string{u.String(), string(u.Base58()), string(u.Bytes())} && [16]byte(u) == orig, "looking at %x changed it or its views", orig)
	})
}

func TestParseRejects(t *testing.T) {
	h.Check(t, 20000, 300000, func(t *rapid.T, c *h.C) {
		s := text([16]byte(gen(t, "u")))
		how := rapid.SampledFrom([]string{"replace", "swap", "cut", "extend", "wrap", "dash", "shift", "free", "multi"}).Draw(t, "how")
		switch how {
		case "replace":
			i := rapid.IntRange(0, 35).Draw(t, "at")
			s = s[:i] + string(rune(rapid.IntRange(0, 127).Draw(t, "ch"))) + s[i+1:]
		case "swap":
			b := []byte(s)
			i, j := rapid.IntRange(0, 35).Draw(t, "i"), rapid.IntRange(0, 35).Draw(t, "j")
			b[i], b[j] = b[j], b[i]
			s = string(b)
		case "cut":
			s = s[:rapid.IntRange(0, 35).Draw(t, "n")]
		case "extend":
			s += rapid.SampledFrom([]string{"0", "-", " ", "\n", "00", "\x00"}).Draw(t, "tail")
		case "wrap":
			s = rapid.SampledFrom([]string{"{" + s + "}", "urn:uuid:" + s, strings.ReplaceAll(s, "-", ""), " " + s, s[1:] + " "}).Draw(t, "wrapped")
		case "dash":
			b := []byte(s)
			for _, i := range []int{8, 13, 18, 23} {
				if rapid.Bool().Draw(t, "hit") {
					b[i] = rapid.SampledFrom([]byte("-0f_ :\x00é")).Draw(t, "ch")
				}
			}
			s = string(b)
		case "shift": // same characters, dashes elsewhere
			x := strings.ReplaceAll(s, "-", "")
			at := rapid.SliceOfNDistinct(rapid.IntRange(0, 31), 4, 4, rapid.ID[int]).Draw(t, "dashes")
			var sb strings.Builder
			for i := range x {
				for _, a := range at {
					if a == i {
						sb.WriteByte('-')
					}
				}
				sb.WriteByte(x[i])
			}
			s = sb.String()
		case "free":
			s = rapid.StringMatching(`[0-9a-fA-Fg-]{30,40}`).Draw(t, "s")
		case "multi":
			s = rapid.StringN(30, 40, 60).Draw(t, "s")
		}
		c.Note("%s %q", how, s)
		c.Label(how)
		c.NonTrivial()
		valid := form.MatchString(s) && len(s) == 36
		var u *uuid.UUID
		var err error
		p := h.Catch(func() { u, err = uuid.Parse(s) })
		h.Must(t, c, p == nil, "parsing %q crashes: %v", s, p)
		if !valid {
			c.Label("invalid")
			h.Must(t, c, err != nil, "parsing %q succeeds with %v", s, u)
			return
		}
		h.Must(t, c, err == nil && u.String() == strings.ToLower(s), "parsing %q gives %v, %v", s, u, err)
	})
}

// Views taken by several goroutines at once.
func TestConcurrentViews(t *testing.T) {
	h.Check(t, 200, 3000, func(t *rapid.T, c *h.C) {
		us := make([]uuid.UUID, rapid.IntRange(2, 6).Draw(t, "n"))
		for i := range us {
			us[i] = gen(t, "u")
			c.Note("%x", us[i])
		}
		c.NonTrivial()
		bad := make([]string, len(us))
		var wg sync.WaitGroup
		for i := range us {
			wg.Add(1)
			go func() {
				defer wg.Done()
				u := us[i]
				i64, i32, b58 := u.Int64(), u.Int32(), string(u.Base58())
				for r := 0; r < 50; r++ {
					p, err := uuid.Parse(u.String())
					if err != nil || *p != us[i] || u.String() != text([16]byte(us[i])) || p.Int64() != i64 || p.Int32() != i32 || string(p.Base58()) != b58 {
						bad[i] = u.String()
					}
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			h.Must(t, c, b == "", "views of %s differ between goroutines", b)
		}
	})
}
