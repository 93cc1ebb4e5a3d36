package c35

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/donnie4w/gofer/fast"
	"github.com/donnie4w/gofer/util"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

var dir string

func TestMain(m *testing.M) {
	var err error
	if dir, err = os.MkdirTemp(os.Getenv("H_SCRATCH"), "c35"); err != nil {
		panic(err)
	}
	h.Main(m)
}

func TestReadFile(t *testing.T) {
	n := 0
	h.Check(t, 800, 10000, func(t *rapid.T, c *h.C) {
		n++
		max := 70000
		if rapid.IntRange(0, 30).Draw(t, "big") == 0 {
			max = 2 << 20
		}
		data := h.Bytes(t, "data", max)
		name := fmt.Sprintf("f%d", n) + rapid.SampledFrom([]string{"", ".txt", " with space", "ü", "-dash"}).Draw(t, "suffix")
		p := filepath.Join(dir, name)
		c.Note("%s %s", name, h.B(data))
		c.Key(data)
		c.NonTrivialIf(len(data) > 0)
		c.LabelIf(len(data) == 0, "empty file")
		h.Must(t, c, !util.IsFileExist(p), "a file not created yet exists")
		_, err := util.ReadFile(p)
		h.Must(t, c, err != nil, "reading a missing file gives no error")
		if err := os.WriteFile(p, data, 0o600); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		defer os.Remove(p)
		h.Must(t, c, util.IsFileExist(p), "an existing file is reported missing")
		got, err := util.ReadFile(p)
		h.Must(t, c, err == nil && bytes.Equal(got, data), "reading gives %s, %v", h.B(got), err)
		// the result is a copy
		for i := range got {
			got[i] ^= 0xff
		}
		again, err := util.ReadFile(p)
		h.Must(t, c, err == nil && bytes.Equal(again, data), "reading again gives %s, %v", h.B(again), err)
		// new content of another size
		data2 := h.Bytes(t, "data2", 3000)
		os.WriteFile(p, data2, 0o600)
		third, err := util.ReadFile(p)
		h.Must(t, c, err == nil && bytes.Equal(third, data2) && bytes.Equal(again, data), "after rewriting with %s: %s, %v", h.B(data2), h.B(third), err)
		os.Remove(p)
		h.Must(t, c, bytes.Equal(third, data2), "the bytes read changed when the file was removed")
		_, err = util.ReadFile(p)
		h.Must(t, c, err != nil && !util.IsFileExist(p), "a removed file: err=%v exists=%v", err, util.IsFileExist(p))
		// links stand for what they lead to
		to, link := p+".to", p+".link"
		os.Symlink(to, link)
		defer os.Remove(link)
		_, err = util.ReadFile(link)
		h.Must(t, c, err != nil && !util.IsFileExist(link), "a link to nothing: err=%v exists=%v", err, util.IsFileExist(link))
		os.WriteFile(to, data, 0o600)
		defer os.Remove(to)
		got, err = util.ReadFile(link)
		h.Must(t, c, err == nil && bytes.Equal(got, data) && util.IsFileExist(link), "a link to a file: %s, %v, exists %v", h.B(got), err, util.IsFileExist(link))
		h.Must(t, c, util.IsFileExist(dir) && !util.IsFileExist("") && !util.IsFileExist(p+"/below"), "existence of a directory, the empty path, a path below a missing one")
	})
}

func TestConcurrentReads(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		data := make([][]byte, rapid.IntRange(2, 6).Draw(t, "n"))
		bad := make([]string, len(data))
		var wg sync.WaitGroup
		for i := range data {
			data[i] = h.Bytes(t, "data", 20000)
			c.Note("%s", h.B(data[i]))
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("c%d", i)), data[i], 0o600)
		}
		c.NonTrivial()
		for i := range data {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					if got, err := util.ReadFile(filepath.Join(dir, fmt.Sprintf("c%d", i))); err != nil || !bytes.Equal(got, data[i]) {
						bad[i] = fmt.Sprintf("%s, %v", h.B(got), err)
					}
				}
			}()
		}
		wg.Wait()
		for i, b := range bad {
			h.Must(t, c, b == "", "reader %d got %s", i, b)
		}
	})
}

// China Standard Time: UTC+8, with daylight time (+9) in the years the zone had it.
func TestTimes(t *testing.T) {
	loc, err := time.LoadLocation("Asia/Shanghai")
	if err != nil {
		t.Fatal("HARNESS-ERROR ", err)
	}
	h.Check(t, 15000, 200000, func(t *rapid.T, c *h.C) {
		y := rapid.IntRange(1, 9999).Draw(t, "year")
		if rapid.Bool().Draw(t, "recent") {
			y = rapid.IntRange(1960, 2060).Draw(t, "year2")
		}
		mo, d := rapid.IntRange(1, 12).Draw(t, "month"), rapid.IntRange(1, 28).Draw(t, "day")
		if rapid.IntRange(0, 3).Draw(t, "end") == 0 {
			d = rapid.IntRange(28, 32).Draw(t, "lateDay")
		}
		hh, mi, s := rapid.IntRange(0, 23).Draw(t, "h"), rapid.IntRange(0, 59).Draw(t, "m"), rapid.IntRange(0, 59).Draw(t, "s")
		switch rapid.IntRange(0, 15).Draw(t, "odd") {
		case 0:
			hh = 24
		case 1:
			mi = 60
		case 2:
			s = 60
		case 3:
			mo = rapid.SampledFrom([]int{0, 13}).Draw(t, "badMonth")
		}
		txt := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, hh, mi, s)
		c.Note("%s", txt)
		c.NonTrivial()
		days := time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
		ok := mo >= 1 && mo <= 12 && d <= days && hh < 24 && mi < 60 && s < 60
		got, err := util.StrToTimeFormat(txt)
		if !ok {
			c.Label("impossible date")
			h.Must(t, c, err != nil, "%q gives %v", txt, got)
			return
		}
		h.Must(t, c, err == nil, "%q gives %v", txt, err)
		want := time.Date(y, time.Month(mo), d, hh, mi, s, 0, loc)
		h.Must(t, c, got.Equal(want), "%q gives instant %v, want %v", txt, got.UTC(), want.UTC())
		// instants written out in the zone parse back, whatever the local zone of the process
		h.Must(t, c, got.In(loc).Format("2006-01-02 15:04:05") == want.Format("2006-01-02 15:04:05") && got.Nanosecond() == 0, "%q reads back as %v", txt, got.In(loc))
		if y >= 1992 && y < 2100 {
			h.Must(t, c, got.Unix() == time.Date(y, time.Month(mo), d, hh, mi, s, 0, time.UTC).Unix()-8*3600, "%q is not UTC+8: %v", txt, got.UTC())
		}
		// text that is not such a date-time
		bad := txt
		switch rapid.IntRange(0, 4).Draw(t, "mangle") {
		case 0:
			bad = txt[:rapid.IntRange(0, 15).Draw(t, "cut")]
		case 1:
			bad = strings.Replace(txt, "-", "/", 1)
		case 2:
			bad = txt + "x"
		case 3:
			bad = strings.Replace(txt, " ", "T", 1)
		case 4:
			i := rapid.IntRange(0, 18).Draw(t, "at")
			bad = txt[:i] + "q" + txt[i+1:]
		}
		_, err = util.StrToTimeFormat(bad)
		h.Must(t, c, err != nil, "%q parses", bad)
	})
}

func TestRandom(t *testing.T) {
	h.Check(t, 700, 8000, func(t *rapid.T, c *h.C) {
		var n int64
		if rapid.Bool().Draw(t, "small") {
			n = rapid.Int64Range(1, 12).Draw(t, "bound")
		} else {
			n = h.Int64(t, "bound")
			if n < 0 {
				n = -(n + 1)
			}
			if n == 0 {
				n = 1
			}
		}
		c.Note("bound %d", n)
		c.NonTrivialIf(n > 1)
		draws := 48
		if n <= 12 {
			draws = 400
		}
		seen := map[int64]bool{}
		seenS := map[int64]bool{}
		low, high, lowS, highS := false, false, false, false
		var ones, zeros, onesS, zerosS int64 // bits seen set and clear
		for i := 0; i < draws; i++ {
			v := util.RandUint(uint(n))
			h.Must(t, c, uint64(v) < uint64(n), "RandUint(%d) = %d", n, v)
			w, err := util.RandInt64Strict(n)
			h.Must(t, c, err == nil && w >= 0 && w < n, "RandInt64Strict(%d) = %d, %v", n, w, err)
			if n <= 12 {
				seen[int64(v)], seenS[w] = true, true
			}
			ones, zeros, onesS, zerosS = ones|int64(v), zeros|^int64(v), onesS|w, zerosS|^w
			if int64(v) < n/2 {
				low = true
			} else {
				high = true
			}
			if w < n/2 {
				lowS = true
			} else {
				highS = true
			}
		}
		if n <= 12 { // each value is missed with probability (11/12)^400 < 1e-15
			h.Must(t, c, int64(len(seen)) == n && int64(len(seenS)) == n, "%d draws below %d gave only %d and %d different values", draws, n, len(seen), len(seenS))
		} else { // 48 draws all in one half: probability about 2^-47
			h.Must(t, c, low && high && lowS && highS, "48 draws below %d all fell into one half", n)
		}
		if n > 1<<9 { // each bit below the upper ones is missed with a probability of about 2^-47
			low := int64(1)<<(bits.Len64(uint64(n))-3) - 1
			h.Must(t, c, ones&zeros&low == low && onesS&zerosS&low == low, "in 48 draws below %d some bits never change (those that do: %x and %x)", n, ones&zeros, onesS&zerosS)
		}
	})
}

func str(t *rapid.T, l string) string {
	if rapid.Bool().Draw(t, l+".raw") {
		return string(h.Bytes(t, l, 300))
	}
	return rapid.StringN(0, 20, -1).Draw(t, l)
}

func TestText(t *testing.T) {
	h.Check(t, 12000, 150000, func(t *rapid.T, c *h.C) {
		ss := make([]string, rapid.IntRange(0, 6).Draw(t, "n"))
		for i := range ss {
			ss[i] = str(t, "s")
		}
		c.Note("%.200q", ss)
		for _, s := range ss {
			c.Key([]byte(s))
		}
		c.NonTrivialIf(len(ss) > 0)
		keep := append([]string(nil), ss...)
		h.Must(t, c, util.Concat(ss...) == strings.Join(ss, ""), "Concat gives %.300q", util.Concat(ss...))
		for i := range ss {
			h.Must(t, c, ss[i] == keep[i], "Concat changed its arguments")
			v := fast.StringToSlice(ss[i])
			h.Must(t, c, string(v) == ss[i] && len(v) == len(ss[i]) && cap(v) == len(v), "view of %q is %q, len %d cap %d", ss[i], v, len(v), cap(v))
		}
		// patterns
		s := str(t, "subject")
		pat := rapid.SampledFrom([]string{"", "a", "^$", "^[a-z]+$", "(", "[", "x*", ".", `\d+`, `^\S+@\S+$`, "a|b", "(?i)ABC", `\`, "a{2,3}", "a{3,2}", "é", "[^a]", "(?P<n>x)", "*"}).Draw(t, "pattern")
		if rapid.Bool().Draw(t, "quote") {
			a, b := 0, 0
			if len(s) > 0 {
				a = rapid.IntRange(0, len(s)).Draw(t, "a")
				b = rapid.IntRange(a, len(s)).Draw(t, "b")
			}
			pat = regexp.QuoteMeta(s[a:b])
			if rapid.Bool().Draw(t, "anchor") {
				pat = "^" + pat + "$"
			}
		}
		c.Note("pattern %q subject %q", pat, s)
		re, err := regexp.Compile(pat)
		want := err == nil && re.MatchString(s)
		h.Must(t, c, util.MatchString(pat, s) == want, "MatchString(%q, %q) = %v", pat, s, !want)
	})
}

// Recover turns a panic into an error and leaves everything else alone.
func TestRecover(t *testing.T) {
	h.Check(t, 500, 5000, func(t *rapid.T, c *h.C) {
		msg := rapid.StringN(1, 10, -1).Draw(t, "msg")
		boom, has := rapid.Bool().Draw(t, "panic"), rapid.Bool().Draw(t, "holder")
		c.Note("panic=%v holder=%v %q", boom, has, msg)
		c.NonTrivialIf(boom)
		var err error
		var before error
		if rapid.Bool().Draw(t, "preset") {
			before = errors.New("before")
			err = before
		}
		p := h.Catch(func() {
			if has {
				defer util.Recover(&err)
			} else {
				defer util.Recover(nil)
			}
			if boom {
				panic(msg)
			}
		})
		h.Must(t, c, p == nil, "the panic escapes: %v", p)
		if boom && has {
			h.Must(t, c, err != nil && err != before && strings.Contains(err.Error(), msg), "error is %v", err)
		} else {
			h.Must(t, c, err == before, "error is %v, nothing panicked", err)
		}
	})
}

// The same answers from several goroutines at once.
func TestConcurrent(t *testing.T) {
	loc, err := time.LoadLocation("Asia/Shanghai")
	if err != nil {
		t.Fatal("HARNESS-ERROR ", err)
	}
	h.Check(t, 300, 3000, func(t *rapid.T, c *h.C) {
		pats := []string{"^[a-z]+$", `\d+`, "a|b", "(", "[^a]", "^x*$", "é"}
		subjects := []string{"", "abc", "12", "xxx", "é", "a b", "zz9"}
		g := rapid.IntRange(2, 6).Draw(t, "goroutines")
		seed := rapid.Uint64().Draw(t, "seed")
		c.Note("%d goroutines, seed %d", g, seed)
		c.NonTrivial()
		bad := make([]string, g)
		var wg sync.WaitGroup
		for i := range bad {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := h.NewRand(seed + uint64(i))
				p := h.Catch(func() {
					for k := 0; k < 20; k++ {
						a, b := subjects[r.Intn(len(subjects))], subjects[r.Intn(len(subjects))]
						pat := pats[r.Intn(len(pats))]
						re, err := regexp.Compile(pat)
						if want := err == nil && re.MatchString(a); util.MatchString(pat, a) != want {
							bad[i] = fmt.Sprintf("MatchString(%q, %q) = %v", pat, a, !want)
						}
						if util.Concat(a, pat, b) != a+pat+b {
							bad[i] = fmt.Sprintf("Concat(%q, %q, %q) = %q", a, pat, b, util.Concat(a, pat, b))
						}
						when := time.Date(1970+r.Intn(100), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, loc)
						txt := when.Format("2006-01-02 15:04:05")
						if got, err := util.StrToTimeFormat(txt); err != nil || got.In(loc).Format("2006-01-02 15:04:05") != txt {
							bad[i] = fmt.Sprintf("%q gives %v, %v", txt, got, err)
						}
						if v := util.RandUint(10); v > 9 {
							bad[i] = fmt.Sprintf("RandUint(10) = %d", v)
						}
						if v, err := util.RandInt64Strict(10); err != nil || v < 0 || v > 9 {
							bad[i] = fmt.Sprintf("RandInt64Strict(10) = %d, %v", v, err)
						}
					}
				})
				if p != nil {
					bad[i] = fmt.Sprintf("crash: %v", p)
				}
			}()
		}
		wg.Wait()
		for i, b := range bad {
			h.Must(t, c, b == "", "goroutine %d: %s", i, b)
		}
	})
}

// Files of many MiB, long texts.
func TestLarge(t *testing.T) {
	h.Check(t, 3, 30, func(t *rapid.T, c *h.C) {
		data := h.Big(t, "data", 70<<20)
		p := filepath.Join(dir, "large")
		c.Note("%s", h.B(data))
		c.Key(data)
		c.NonTrivial()
		c.Label("large")
		if err := os.WriteFile(p, data, 0o600); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		defer os.Remove(p)
		got, err := util.ReadFile(p)
		h.Must(t, c, err == nil && bytes.Equal(got, data), "reading gives %s, %v", h.B(got), err)
	})
}
