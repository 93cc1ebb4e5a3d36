package c08

import (
	"bytes"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/keystore"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

type pair struct {
	bits     int
	priv     *rsa.PrivateKey
	pub, prv []byte
	pubF     string
	prvF     string
}

var (
	pairs []*pair
	dir   string
)

func TestMain(m *testing.M) {
	var err error
	dir, err = os.MkdirTemp(os.Getenv("H_SCRATCH"), "c08")
	if err != nil {
		panic(err)
	}
	for i, bits := range []int{1024, 1024, 1536, 2048} {
		k, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			panic(err)
		}
		pk, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
		p := &pair{bits: bits, priv: k,
			pub:  pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: pk}),
			prv:  pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}),
			pubF: filepath.Join(dir, fmt.Sprintf("pub%d.pem", i)), prvF: filepath.Join(dir, fmt.Sprintf("prv%d.pem", i))}
		os.WriteFile(p.pubF, p.pub, 0o600)
		os.WriteFile(p.prvF, p.prv, 0o600)
		pairs = append(pairs, p)
	}
	h.Main(m)
}

const builtinCap = 1024/8 - 11

func TestRoundTrip(t *testing.T) {
	h.Check(t, 1500, 20000, func(t *rapid.T, c *h.C) {
		which := rapid.IntRange(-1, len(pairs)-1).Draw(t, "pair")
		form := rapid.SampledFrom([]string{"bytes", "file"}).Draw(t, "encForm")
		dform := rapid.SampledFrom([]string{"bytes", "file"}).Draw(t, "decForm")
		cap := builtinCap
		var p *pair
		if which >= 0 {
			p = pairs[which]
			cap = p.bits/8 - 11
		}
		n := rapid.IntRange(0, cap+12).Draw(t, "len")
		if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
			n = cap + rapid.IntRange(-1, 2).Draw(t, "over")
		}
		r := h.NewRand(rapid.Uint64().Draw(t, "seed"))
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = byte(r.Next())
		}
		if rapid.IntRange(0, 4).Draw(t, "zeros") == 0 {
			msg = make([]byte, n)
		}
		pubF, prvF := "", ""
		if p != nil {
			pubF, prvF = p.pubF, p.prvF
			if rapid.Bool().Draw(t, "replaced") { // the same files with other keys than before
				pubF, prvF = filepath.Join(dir, "pub.pem"), filepath.Join(dir, "prv.pem")
				os.WriteFile(pubF, p.pub, 0o600)
				os.WriteFile(prvF, p.prv, 0o600)
			}
		}
		keep := append([]byte(nil), msg...)
		c.Note("pair=%d %s/%s msg=%s cap=%d", which, form, dform, h.B(msg), cap)
		c.Key(msg)
		c.NonTrivialIf(n > 0)
		var ct []byte
		var err error
		enc := func() {
			switch {
			case p == nil:
				ct, err = keystore.RsaEncrypt(msg, "")
			case form == "file":
				ct, err = keystore.RsaEncrypt(msg, pubF)
			default:
				ct, err = keystore.RsaEncryptByBytes(msg, p.pub)
			}
		}
		pv := h.Catch(enc)
		h.Must(t, c, pv == nil, "encrypting crashes: %v", pv)
		h.Must(t, c, bytes.Equal(msg, keep), "encrypting changed the message")
		if n > cap {
			c.Label("too long")
			h.Must(t, c, err != nil, "a message of %d bytes is accepted by a key for %d: %s", n, cap, h.B(ct))
			return
		}
		h.Must(t, c, err == nil && len(ct) == cap+11, "encrypting: %d bytes, %v", len(ct), err)
		ck := append([]byte(nil), ct...)
		var pt []byte
		dec := func() {
			switch {
			case p == nil:
				pt, err = keystore.RsaDecrypt(ct, "")
			case dform == "file":
				pt, err = keystore.RsaDecrypt(ct, prvF)
			default:
				pt, err = keystore.RsaDecryptByBytes(ct, p.prv)
			}
		}
		pv = h.Catch(dec)
		h.Must(t, c, pv == nil, "decrypting crashes: %v", pv)
		h.Must(t, c, err == nil && bytes.Equal(pt, msg), "decrypting gives %s, %v", h.B(pt), err)
		h.Must(t, c, bytes.Equal(ct, ck), "decrypting changed the ciphertext")
		if p != nil { // the standard library agrees
			ref, e := rsa.DecryptPKCS1v15(nil, p.priv, ct)
			h.Must(t, c, e == nil && bytes.Equal(ref, msg), "the standard library decrypts to %s, %v", h.B(ref), e)
		}
		// damage
		bad := append([]byte(nil), ct...)
		switch rapid.IntRange(0, 2).Draw(t, "damage") {
		case 0:
			bad[rapid.IntRange(0, len(bad)-1).Draw(t, "at")] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
		case 1:
			bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(t, "cut")]
		case 2:
			bad = append(bad, 0)
		}
		key, keyF := []byte(nil), ""
		priv := (*rsa.PrivateKey)(nil)
		if p != nil {
			key, keyF, priv = p.prv, p.prvF, p.priv
			if rapid.IntRange(0, 3).Draw(t, "otherKey") == 0 { // right ciphertext, wrong key
				q := pairs[(which+1)%len(pairs)]
				key, keyF, priv = q.prv, q.prvF, q.priv
				bad = ct
				c.Label("wrong key")
			}
		}
		pv = h.Catch(func() {
			if p == nil || dform == "file" {
				pt, err = keystore.RsaDecrypt(bad, keyF)
			} else {
				pt, err = keystore.RsaDecryptByBytes(bad, key)
			}
		})
		h.Must(t, c, pv == nil, "decrypting a damaged ciphertext crashes: %v", pv)
		if err == nil && priv != nil {
			// padding can be right by chance: the standard library decides
			ref, e := rsa.DecryptPKCS1v15(nil, priv, bad)
			h.Must(t, c, e == nil && bytes.Equal(ref, pt), "a damaged ciphertext gives success with %s (standard library: %s, %v)", h.B(pt), h.B(ref), e)
			c.Label("damaged ciphertext with valid padding")
			return
		}
		if err == nil {
			h.Must(t, c, len(pt) > 0 || n == 0, "a damaged ciphertext gives success without data")
			h.Must(t, c, !bytes.Equal(pt, msg) || n == 0, "a damaged ciphertext decrypts to the message")
		}
	})
}

// Keys that are missing, malformed, of another kind, or damaged.
func TestBadKeys(t *testing.T) {
	ec := mustECKeys()
	h.Check(t, 2500, 30000, func(t *rapid.T, c *h.C) {
		p := pairs[rapid.IntRange(0, len(pairs)-1).Draw(t, "pair")]
		good, enc := p.prv, false
		if rapid.Bool().Draw(t, "encrypt") {
			good, enc = p.pub, true
		}
		how := rapid.SampledFrom([]string{"empty", "garbage", "swapped", "damaged", "truncated", "wrongkind", "emptypem", "missing", "directory"}).Draw(t, "how")
		var key []byte
		path := ""
		switch how {
		case "empty":
			key = []byte{}
		case "garbage":
			key = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "key")
		case "swapped":
			key = p.pub
			if enc {
				key = p.prv
			}
		case "damaged":
			b, _ := pem.Decode(good)
			d := append([]byte(nil), b.Bytes...)
			for i := rapid.IntRange(1, 3).Draw(t, "flips"); i > 0; i-- {
				d[rapid.IntRange(0, min(len(d)-1, 40)).Draw(t, "at")] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
			}
			key = pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: d})
		case "truncated":
			b, _ := pem.Decode(good)
			key = pem.EncodeToMemory(&pem.Block{Type: b.Type, Bytes: b.Bytes[:rapid.IntRange(0, len(b.Bytes)-1).Draw(t, "cut")]})
			if rapid.Bool().Draw(t, "text") {
				key = good[:rapid.IntRange(0, len(good)-20).Draw(t, "cutText")]
			}
		case "wrongkind":
			key = ec[0]
			if enc {
				key = ec[1]
			}
		case "emptypem":
			key = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY"})
		case "missing":
			path = filepath.Join(dir, "no-such-file")
		case "directory":
			path = dir
		}
		msg := rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "msg")
		if rapid.Bool().Draw(t, "file") && path == "" {
			path = filepath.Join(dir, "bad.pem")
			os.WriteFile(path, key, 0o600)
		}
		c.Note("%s encrypt=%v path=%v key=%s msg=%s", how, enc, path != "", h.B(key), h.B(msg))
		c.Key(key)
		c.Label(how)
		c.NonTrivial()
		// Is the key still usable? The standard library decides.
		usable := false
		var refPriv *rsa.PrivateKey
		if key != nil {
			if b, _ := pem.Decode(key); b != nil {
				if enc {
					if k, e := x509.ParsePKIXPublicKey(b.Bytes); e == nil {
						_, usable = k.(*rsa.PublicKey)
					}
				} else if k, e := x509.ParsePKCS1PrivateKey(b.Bytes); e == nil {
					refPriv, usable = k, true
				}
			}
		}
		var out []byte
		var err error
		ct, e := rsa.EncryptPKCS1v15(rand.Reader, &p.priv.PublicKey, msg)
		if rapid.Bool().Draw(t, "forBuiltin") { // another key must not stand in
			ct, e = keystore.RsaEncrypt(msg, "")
		}
		h.Must(t, c, e == nil, "reference encryption: %v", e)
		pv := h.Catch(func() {
			switch {
			case enc && path != "":
				out, err = keystore.RsaEncrypt(msg, path)
			case enc:
				out, err = keystore.RsaEncryptByBytes(msg, key)
			case path != "":
				out, err = keystore.RsaDecrypt(ct, path)
			default:
				out, err = keystore.RsaDecryptByBytes(ct, key)
			}
		})
		h.Must(t, c, pv == nil, "crashes: %v", pv)
		if !usable {
			h.Must(t, c, err != nil, "an unusable key gives success with %s", h.B(out))
			return
		}
		c.Label("still a key")
		h.Must(t, c, err != nil || len(out) > 0, "success without data")
		if !enc && err == nil {
			ref, e := rsa.DecryptPKCS1v15(nil, refPriv, ct)
			h.Must(t, c, e == nil && bytes.Equal(ref, out), "got %s; standard library %s, %v", h.B(out), h.B(ref), e)
		}
	})
}

func TestConcurrent(t *testing.T) {
	h.Check(t, 40, 500, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(2, 6).Draw(t, "goroutines")
		msgs := make([][]byte, n)
		for i := range msgs {
			msgs[i] = rapid.SliceOfN(rapid.Byte(), 1, 100).Draw(t, "msg")
			c.Note("%s", h.B(msgs[i]))
		}
		c.NonTrivial()
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := pairs[i%len(pairs)]
				for k := 0; k < 3; k++ {
					ct, err := keystore.RsaEncryptByBytes(msgs[i], p.pub)
					if err == nil {
						var pt []byte
						if pt, err = keystore.RsaDecryptByBytes(ct, p.prv); err == nil && !bytes.Equal(pt, msgs[i]) {
							err = fmt.Errorf("got %s", h.B(pt))
						}
					}
					if err != nil {
						errs[i] = err.Error()
					}
				}
			}()
		}
		wg.Wait()
		for i, e := range errs {
			h.Must(t, c, e == "", "goroutine %d with %s: %s", i, h.B(msgs[i]), e)
		}
	})
}
