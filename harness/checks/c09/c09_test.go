package c09

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/keystore"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

type store interface {
	Write([]byte) error
	Read() ([]byte, error)
}

var (
	root string
	seq  int
)

func TestMain(m *testing.M) {
	var err error
	if root, err = os.MkdirTemp(os.Getenv("H_SCRATCH"), "c09"); err != nil {
		panic(err)
	}
	h.Main(m)
}

func fresh() string {
	seq++
	return filepath.Join(root, fmt.Sprintf("d%d", seq))
}

func open(t *rapid.T, c *h.C, dir, name string, create bool) store {
	if create {
		s, err := keystore.NewKeyStore(dir, name)
		h.Must(t, c, err == nil && s != nil, "NewKeyStore: %v", err)
		return s
	}
	s, err := keystore.LoadKeyStore(dir, name)
	h.Must(t, c, err == nil && s != nil, "LoadKeyStore: %v", err)
	return s
}

// zlibLike makes blobs that look like compressed data themselves.
func blob(t *rapid.T) []byte {
	max := 2000
	if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
		max = 300000
	}
	b := h.Bytes(t, "blob", max)
	if rapid.IntRange(0, 5).Draw(t, "lookalike") == 0 {
		b = append([]byte{0x78, 0x9c}, b...)
	}
	return b
}

func TestLastWriteWins(t *testing.T) {
	h.Check(t, 800, 10000, func(t *rapid.T, c *h.C) {
		dir := fresh()
		defer os.RemoveAll(dir)
		nested := dir
		if rapid.Bool().Draw(t, "nested") {
			nested = filepath.Join(dir, "a", "b")
		}
		names := []string{"ks", "other.bin"}
		handles := map[string][]store{}
		last := map[string][]byte{}
		for _, n := range names {
			handles[n] = []store{open(t, c, nested, n, true)}
		}
		steps := rapid.IntRange(1, 12).Draw(t, "steps")
		writes := 0
		for i := 0; i < steps; i++ {
			n := names[rapid.IntRange(0, 1).Draw(t, "file")]
			hs := handles[n]
			k := rapid.IntRange(0, len(hs)-1).Draw(t, "handle")
			switch rapid.SampledFrom([]string{"write", "write", "read", "open"}).Draw(t, "op") {
			case "write":
				b := blob(t)
				c.Note("%s#%d<-%s", n, k, h.B(b))
				c.Key(b)
				keep := append([]byte(nil), b...)
				err := hs[k].Write(b)
				h.Must(t, c, err == nil && bytes.Equal(b, keep), "write: %v", err)
				for j := range b {
					b[j] ^= 0xff
				}
				last[n] = keep
				writes++
				c.NonTrivialIf(writes > 1)
			case "read":
				c.Note("%s#%d?", n, k)
				check(t, c, hs[k], last, n)
			case "open":
				c.Note("%s#%d open", n, len(hs))
				s := open(t, c, nested, n, rapid.Bool().Draw(t, "create"))
				handles[n] = append(hs, s)
				check(t, c, s, last, n)
			}
		}
		for _, n := range names {
			for _, s := range handles[n] {
				check(t, c, s, last, n)
			}
			check(t, c, open(t, c, nested, n, false), last, n)
		}
	})
}

func check(t *rapid.T, c *h.C, s store, last map[string][]byte, n string) {
	want, written := last[n]
	got, err := s.Read()
	if !written {
		h.Must(t, c, err != nil || len(got) == 0, "%s: reading a store never written gives %s", n, h.B(got))
		return
	}
	h.Must(t, c, err == nil && bytes.Equal(got, want), "%s: read %s, %v; last written %s", n, h.B(got), err, h.B(want))
	for i := range got {
		got[i] ^= 0xff
	}
	got, err = s.Read()
	h.Must(t, c, err == nil && bytes.Equal(got, want), "%s: second read %s, %v; last written %s", n, h.B(got), err, h.B(want))
}

// Readers and writers of one handle at once.
func TestConcurrent(t *testing.T) {
	h.Check(t, 80, 1500, func(t *rapid.T, c *h.C) {
		dir := fresh()
		defer os.RemoveAll(dir)
		s := open(t, c, dir, "ks", true)
		nw, nr := rapid.IntRange(1, 4).Draw(t, "writers"), rapid.IntRange(1, 3).Draw(t, "readers")
		blobs := make([][][]byte, nw)
		all := map[string]bool{}
		for i := range blobs {
			for k := rapid.IntRange(1, 6).Draw(t, "n"); k > 0; k-- {
				b := append(h.Bytes(t, "blob", 20000), byte(i), byte(k))
				blobs[i] = append(blobs[i], b)
				all[string(b)] = true
			}
		}
		first := []byte("first")
		all[string(first)] = true
		if err := s.Write(first); err != nil {
			h.Must(t, c, false, "write: %v", err)
		}
		c.Note("%d writers %d readers %d blobs", nw, nr, len(all))
		for k := range all {
			c.Key([]byte(k))
			break
		}
		c.NonTrivial()
		var bad sync.Map
		var wg sync.WaitGroup
		for i := range blobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, b := range blobs[i] {
					if err := s.Write(b); err != nil {
						bad.Store("write failed: "+err.Error(), true)
					}
				}
			}()
		}
		for i := 0; i < nr; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 12; k++ {
					b, err := s.Read()
					if err != nil || !all[string(b)] {
						bad.Store(fmt.Sprintf("a reader saw %s, %v, which is no blob written", h.B(b), err), true)
					}
				}
			}()
		}
		wg.Wait()
		bad.Range(func(k, _ any) bool { h.Must(t, c, false, "%v", k); return false })
		got, err := s.Read()
		ok := err == nil
		if ok {
			ok = false
			for i := range blobs {
				ok = ok || bytes.Equal(got, blobs[i][len(blobs[i])-1])
			}
		}
		h.Must(t, c, ok, "after all writes the store holds %s, %v, which is no writer's last blob", h.B(got), err)
		again, err := open(t, c, dir, "ks", false).Read()
		h.Must(t, c, err == nil && bytes.Equal(again, got), "a new handle reads %s, %v instead of %s", h.B(again), err, h.B(got))
	})
}

// Blobs of several MiB, and a small one after them.
func TestLarge(t *testing.T) {
	h.Check(t, 4, 40, func(t *rapid.T, c *h.C) {
		dir := fresh()
		defer os.RemoveAll(dir)
		s := open(t, c, dir, "ks", true)
		c.NonTrivial()
		c.Label("large")
		for i := rapid.IntRange(1, 2).Draw(t, "n"); i > 0; i-- {
			b := h.Big(t, "blob", 24<<20)
			c.Note("%s", h.B(b))
			c.Key(b)
			err := s.Write(append([]byte(nil), b...))
			h.Must(t, c, err == nil, "write: %v", err)
			check(t, c, s, map[string][]byte{"ks": b}, "ks")
			check(t, c, open(t, c, dir, "ks", false), map[string][]byte{"ks": b}, "ks")
		}
		b := blob(t)
		err := s.Write(append([]byte(nil), b...))
		h.Must(t, c, err == nil, "write: %v", err)
		check(t, c, s, map[string][]byte{"ks": b}, "ks")
	})
}
