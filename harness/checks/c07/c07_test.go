package c07

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha256"
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/keystore"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// refEnc and refDec are standard AES-256-CBC with PKCS#7 padding.
func refEnc(msg []byte, iv, key string) []byte {
	k, v := sha256.Sum256([]byte(key)), md5.Sum([]byte(iv))
	b, err := aes.NewCipher(k[:])
	if err != nil {
		panic(err)
	}
	n := 16 - len(msg)%16
	out := append(append([]byte(nil), msg...), bytes.Repeat([]byte{byte(n)}, n)...)
	cipher.NewCBCEncrypter(b, v[:]).CryptBlocks(out, out)
	return out
}

func refDec(ct []byte, iv, key string) ([]byte, error) {
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, errors.New("length")
	}
	k, v := sha256.Sum256([]byte(key)), md5.Sum([]byte(iv))
	b, _ := aes.NewCipher(k[:])
	out := make([]byte, len(ct))
	cipher.NewCBCDecrypter(b, v[:]).CryptBlocks(out, ct)
	n := int(out[len(out)-1])
	if n < 1 || n > 16 {
		return nil, errors.New("padding")
	}
	for _, x := range out[len(out)-n:] {
		if int(x) != n {
			return nil, errors.New("padding")
		}
	}
	return out[:len(out)-n], nil
}

// rawEnc encrypts whole blocks without padding, so that any plaintext tail can be produced.
func rawEnc(pt []byte, iv, key string) []byte {
	k, v := sha256.Sum256([]byte(key)), md5.Sum([]byte(iv))
	b, _ := aes.NewCipher(k[:])
	out := append([]byte(nil), pt...)
	cipher.NewCBCEncrypter(b, v[:]).CryptBlocks(out, out)
	return out
}

func secret(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 3).Draw(t, l+".how") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "0123456789abcdef", "0123456789abcdef0123456789abcdef", "\x00", "key with spaces ünïcode"}).Draw(t, l)
	default:
		return string(h.Bytes(t, l, 100))
	}
}

// held is a buffer with guarded spare capacity.
type held struct{ full, b, want []byte }

func hold(data []byte, spare int) *held {
	full := make([]byte, len(data)+spare)
	copy(full, data)
	for i := len(data); i < len(full); i++ {
		full[i] = 0xA5 ^ byte(i)
	}
	return &held{full, full[:len(data)], append([]byte(nil), full...)}
}
func (x *held) intact() bool { return bytes.Equal(x.full, x.want) }

func TestRoundTrip(t *testing.T) {
	h.Check(t, 4000, 60000, func(t *rapid.T, c *h.C) {
		iv, key := secret(t, "iv"), secret(t, "key")
		one := rapid.Bool().Draw(t, "oneSecret")
		if one {
			iv = key
		}
		c.Note("iv=%s key=%s", h.B([]byte(iv)), h.B([]byte(key)))
		a := keystore.NewAes(iv, key)
		n := rapid.IntRange(1, 4).Draw(t, "messages")
		type kept struct {
			got, want []byte
			what      string
		}
		var keep []kept
		for i := 0; i < n; i++ {
			max := 300
			if rapid.IntRange(0, 19).Draw(t, "big") == 0 {
				max = 100000
			}
			msg := h.Bytes(t, "msg", max)
			spare := rapid.IntRange(0, 40).Draw(t, "spare")
			c.Note("msg=%s spare=%d", h.B(msg), spare)
			c.Key(msg)
			c.NonTrivialIf(len(msg) > 0)
			c.LabelIf(len(msg)%16 == 0, "whole blocks")
			c.LabelIf(spare >= 16, "room for the padding behind the message")
			in := hold(msg, spare)
			helper := one && rapid.Bool().Draw(t, "helper")
			var ct []byte
			var err error
			if helper {
				ct, err = keystore.AesEncrypter(in.b, key)
			} else {
				ct, err = a.EncrypterCbc(in.b)
			}
			h.Must(t, c, err == nil, "encrypting: %v", err)
			h.Must(t, c, in.intact(), "encrypting changed the caller's buffer or what lies behind it")
			want := refEnc(msg, iv, key)
			h.Must(t, c, bytes.Equal(ct, want), "ciphertext of %s is %s, standard AES-256-CBC gives %s", h.B(msg), h.B(ct), h.B(want))
			// the result belongs to the caller alone
			for j := range in.full {
				in.full[j] ^= 0xff
			}
			h.Must(t, c, bytes.Equal(ct, want), "the ciphertext shares memory with the message")
			cin := hold(ct, spare)
			var pt []byte
			if helper {
				pt, err = keystore.AesDecrypter(cin.b, key)
			} else {
				pt, err = a.DecrypterCbc(cin.b)
			}
			h.Must(t, c, err == nil && bytes.Equal(pt, msg), "decrypting gives %s, %v for %s", h.B(pt), err, h.B(msg))
			h.Must(t, c, cin.intact(), "decrypting changed the caller's buffer or what lies behind it")
			for j := range cin.full {
				cin.full[j] ^= 0xff
			}
			keep = append(keep, kept{ct, want, "ciphertext"}, kept{pt, msg, "plaintext"})
		}
		for i, k := range keep {
			h.Must(t, c, bytes.Equal(k.got, k.want), "%s %d changed after later calls", k.what, i)
		}
	})
}

func TestMalformed(t *testing.T) {
	h.Check(t, 8000, 120000, func(t *rapid.T, c *h.C) {
		iv, key := secret(t, "iv"), secret(t, "key")
		helper := rapid.Bool().Draw(t, "helper")
		if helper {
			iv = key
		}
		var ct []byte
		how := rapid.SampledFrom([]string{"empty", "length", "padding", "garbage", "flip", "truncate"}).Draw(t, "how")
		switch how {
		case "empty":
			if rapid.Bool().Draw(t, "nil") {
				ct = nil
			} else {
				ct = []byte{}
			}
		case "length":
			ct = h.Bytes(t, "ct", 200)
		case "garbage":
			ct = rapid.SliceOfN(rapid.Byte(), 16*rapid.IntRange(1, 4).Draw(t, "blocks"), -1).Draw(t, "ct")
			ct = ct[:len(ct)/16*16]
		case "padding": // a plaintext whose tail is chosen
			pt := rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "pt")
			if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
				pt = h.Bytes(t, "ptLong", 9000)
			}
			pt = append(pt, make([]byte, (16-len(pt)%16)%16)...)
			if len(pt) == 0 {
				pt = make([]byte, 16)
			}
			last := rapid.SampledFrom([]byte{0, 1, 2, 3, 8, 15, 16, 17, 18, 31, 32, 33, 48, 64, 127, 128, 255}).Draw(t, "pad")
			good := int(last)
			if rapid.Bool().Draw(t, "broken") {
				good = rapid.IntRange(0, int(last)).Draw(t, "good")
			}
			for i := 0; i < good && i < len(pt); i++ {
				pt[len(pt)-1-i] = last
			}
			pt[len(pt)-1] = last
			ct = rawEnc(pt, iv, key)
		default:
			ct = refEnc(h.Bytes(t, "msg", 100), iv, key)
			if how == "flip" {
				ct[rapid.IntRange(0, len(ct)-1).Draw(t, "at")] ^= rapid.ByteRange(1, 255).Draw(t, "xor")
			} else {
				ct = ct[:rapid.IntRange(0, len(ct)-1).Draw(t, "keep")]
			}
		}
		c.Note("%s iv=%s key=%s ct=%s", how, h.B([]byte(iv)), h.B([]byte(key)), h.B(ct))
		c.Key(ct)
		c.NonTrivial()
		c.Label(how)
		in := hold(ct, 8)
		arg := in.b
		if ct == nil {
			arg = nil
		}
		want, werr := refDec(ct, iv, key)
		var got []byte
		var err error
		p := h.Catch(func() {
			if helper {
				got, err = keystore.AesDecrypter(arg, key)
			} else {
				got, err = keystore.NewAes(iv, key).DecrypterCbc(arg)
			}
		})
		h.Must(t, c, p == nil, "decrypting crashes: %v", p)
		h.Must(t, c, in.intact(), "decrypting changed the caller's buffer")
		if werr != nil {
			c.Label("malformed")
			h.Must(t, c, err != nil, "malformed ciphertext (%v) is accepted as %s", werr, h.B(got))
			return
		}
		h.Must(t, c, err == nil && bytes.Equal(got, want), "got %s, %v; want %s", h.B(got), err, h.B(want))
	})
}

func TestConcurrent(t *testing.T) {
	h.Check(t, 150, 3000, func(t *rapid.T, c *h.C) {
		iv, key := secret(t, "iv"), secret(t, "key")
		a := keystore.NewAes(iv, key)
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		msgs := make([][]byte, n)
		for i := range msgs {
			msgs[i] = h.Bytes(t, fmt.Sprintf("m%d", i), 3000)
			c.Note("%s", h.B(msgs[i]))
		}
		c.NonTrivial()
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				want := refEnc(msgs[i], iv, key)
				for r := 0; r < 20; r++ {
					ct, err := a.EncrypterCbc(msgs[i])
					if err != nil || !bytes.Equal(ct, want) {
						errs[i] = fmt.Sprintf("encrypting: %s, %v", h.B(ct), err)
						return
					}
					pt, err := a.DecrypterCbc(ct)
					if err != nil || !bytes.Equal(pt, msgs[i]) {
						errs[i] = fmt.Sprintf("decrypting: %s, %v", h.B(pt), err)
						return
					}
				}
			}()
		}
		wg.Wait()
		for i, e := range errs {
			h.Must(t, c, e == "", "goroutine %d: %s", i, e)
		}
	})
}

// Ciphers made and used by several goroutines at once.
func TestConcurrentCiphers(t *testing.T) {
	h.Check(t, 150, 3000, func(t *rapid.T, c *h.C) {
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		type job struct {
			iv, key string
			msg     []byte
			helper  bool
		}
		jobs := make([]job, n)
		for i := range jobs {
			j := job{secret(t, "iv"), secret(t, "key"), h.Bytes(t, "msg", 200), rapid.Bool().Draw(t, "helper")}
			if j.helper {
				j.iv = j.key
			}
			jobs[i] = j
			c.Note("%s %s %s", h.B([]byte(j.iv)), h.B([]byte(j.key)), h.B(j.msg))
		}
		c.NonTrivial()
		errs := make([]string, n)
		var wg sync.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				want := refEnc(j.msg, j.iv, j.key)
				for r := 0; r < 100; r++ {
					var ct, pt []byte
					var err, err2 error
					if j.helper {
						ct, err = keystore.AesEncrypter(j.msg, j.key)
						pt, err2 = keystore.AesDecrypter(want, j.key)
					} else {
						ct, err = keystore.NewAes(j.iv, j.key).EncrypterCbc(j.msg)
						pt, err2 = keystore.NewAes(j.iv, j.key).DecrypterCbc(want)
					}
					if err != nil || !bytes.Equal(ct, want) {
						errs[i] = fmt.Sprintf("encrypting: %s, %v", h.B(ct), err)
						return
					}
					if err2 != nil || !bytes.Equal(pt, j.msg) {
						errs[i] = fmt.Sprintf("decrypting: %s, %v", h.B(pt), err2)
						return
					}
				}
			}()
		}
		wg.Wait()
		for i, e := range errs {
			h.Must(t, c, e == "", "goroutine %d: %s", i, e)
		}
	})
}

// Messages of several MiB.
func TestLarge(t *testing.T) {
	h.Check(t, 5, 60, func(t *rapid.T, c *h.C) {
		iv, key := secret(t, "iv"), secret(t, "key")
		msg := h.Big(t, "msg", 18<<20)
		c.Note("msg=%s", h.B(msg))
		c.Key(msg)
		c.NonTrivial()
		c.Label("large")
		want := refEnc(msg, iv, key)
		a := keystore.NewAes(iv, key)
		ct, err := a.EncrypterCbc(append([]byte(nil), msg...))
		h.Must(t, c, err == nil && bytes.Equal(ct, want), "ciphertext of %s is %s, %v; standard AES-256-CBC gives %s", h.B(msg), h.B(ct), err, h.B(want))
		pt, err := a.DecrypterCbc(ct)
		h.Must(t, c, err == nil && bytes.Equal(pt, msg), "decrypting gives %s, %v for %s", h.B(pt), err, h.B(msg))
	})
}
