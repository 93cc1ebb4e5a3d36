From 4a77499731a3d30500a0da8cf41398715d6d91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 01/33] fix: base58 decoding refuses text denoting more than 64
 bits instead of wrapping

---
 base58/base58.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base58/base58.go b/base58/base58.go
index 77639ca..e19dc02 100644
--- a/base58/base58.go
+++ b/base58/base58.go
@@ -8,7 +8,10 @@
 
 package base58
 
-import "bytes"
+import (
+	"bytes"
+	"math"
+)
 
 var b58Alphabet = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
 
@@ -34,6 +37,9 @@ func DecodeForInt64(bs []byte) (_r uint64, ok bool) {
 	defer func() { recover() }()
 	for _, b := range bs {
 		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 {
+			if _r > (math.MaxUint64-uint64(idx))/58 {
+				return 0, false
+			}
 			_r *= 58
 			_r += uint64(idx)
 		} else {
-- 
2.43.0


From 8e5b2fd461bc5efbaef4e46da120bd45d4d9306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 02/33] fix: util.Zlib closes the compressor before taking its
 output

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..4848ec1 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From c6d5c2d73a816a34e1a7c0138ddd83533bb46a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 03/33] fix: util.UnZlib reports a truncated or damaged stream

---
 util/compress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index 4848ec1..887ddfb 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -37,7 +37,7 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		_, err = io.Copy(&obuf, read)
 		_r = obuf.Bytes()
 	}
 	return
-- 
2.43.0


From 6c37533fb30d2dceac7c08fe5be5b203e8e691d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 04/33] fix: util.UnGzip reports a truncated or damaged stream

---
 util/compress.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 887ddfb..0e5eadc 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -56,11 +56,15 @@ func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 		var bs = make([]byte, 1024)
 		for {
 			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
+			n, err = gz.Read(bs)
+			_bb.Write(bs[:n])
+			if err == io.EOF {
+				err = nil
+				break
+			}
+			if err != nil {
 				break
 			}
-			_bb.Write(bs[:n])
 		}
 	} else {
 		err = er
-- 
2.43.0


From 26ddeb1925d98c8cf9d93aaddbc5f28f47a1e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 05/33] fix: compress.ZlibLevel closes the compressor before
 taking its output

---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From 54c918896ef980f57a6fc2e11c0569c09bb9b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 06/33] fix: AES encryption leaves the caller's buffer alone
 and decryption refuses malformed ciphertext

---
 keystore/aes.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..047469c 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -31,7 +32,7 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = append(append(make([]byte, 0, len(src)+len(bs)), src...), bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
@@ -42,10 +43,17 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		if len(bs) == 0 || len(bs)%c.BlockSize() != 0 {
+			return nil, errors.New("ciphertext is not a positive multiple of the block size")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		pad := int(_r[len(_r)-1])
+		if pad == 0 || pad > c.BlockSize() || !bytes.HasSuffix(_r, bytes.Repeat([]byte{byte(pad)}, pad)) {
+			return nil, errors.New("invalid padding")
+		}
+		_r = _r[:len(_r)-pad]
 	} else {
 		err = e
 	}
-- 
2.43.0


From f8f418588d8d2572e59f509f7e2d8613f4a333ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 07/33] fix: RSA helpers report malformed keys instead of
 returning success without data

---
 keystore/key.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..b394ee5 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -13,6 +13,7 @@ import (
 	"crypto/x509"
 	"encoding/pem"
 	"errors"
+	"fmt"
 	"os"
 
 	"github.com/donnie4w/gofer/util"
@@ -91,7 +92,7 @@ fugwl2R114U+R6on5tyKY3vTCamRYpo+cpaeajsPGUeHSm9e4tKV
 -----END RSA PRIVATE KEY-----`
 
 func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if publickeypath != "" {
 		if util.IsFileExist(publickeypath) {
@@ -109,17 +110,24 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 }
 
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
-	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
-		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("invalid public key")
 	}
-	return
+	parsePublicKey, err := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
+	}
+	publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not an RSA public key")
+	}
+	return rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if privatekeypath != "" {
 		if util.IsFileExist(privatekeypath) {
@@ -137,15 +145,20 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 }
 
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	priDecodeBlock, _ := pem.Decode(privateBs)
-	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
-		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	if priDecodeBlock == nil {
+		return nil, errors.New("invalid private key")
+	}
+	privateKey, err := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
 	}
-	return
+	return rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
 }
 
-func _recovr() {
-	if err := recover(); err != nil {
+func _recovr(err *error) {
+	if e := recover(); e != nil {
+		*err = fmt.Errorf("%v", e)
 	}
 }
-- 
2.43.0


From f2944130a4f4fefff51d65370a897979e11daa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 08/33] fix: uuid.Equals compares the bytes, not the pointers

---
 uuid/uuid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..865e03a 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -75,10 +75,10 @@ func (u *UUID) Base58() []byte {
 }
 
 func (u *UUID) Equals(other *UUID) bool {
-	if other == nil {
+	if u == nil || other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From d0b2fcae89f0b84ea48b0dc668217a9b2b14f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 09/33] fix: uuid.Variant recognises the whole RFC 4122 range

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 865e03a..3afa3da 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -83,7 +83,7 @@ func (u *UUID) Equals(other *UUID) bool {
 
 func (u *UUID) Variant() byte {
 	switch u[8] & 0xe0 {
-	case 0x80:
+	case 0x80, 0xa0:
 		return 1 // RFC 4122
 	case 0xc0:
 		return 2 // Microsoft
-- 
2.43.0


From d5325f4580639659632a17ba7b54f0ec61951b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 10/33] fix: uuid.Parse checks the dashes

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 3afa3da..9296994 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -96,6 +96,9 @@ func Parse(uuidStr string) (*UUID, error) {
 	if len(uuidStr) != 36 {
 		return nil, errors.New("invalid UUID string length")
 	}
+	if uuidStr[8] != '-' || uuidStr[13] != '-' || uuidStr[18] != '-' || uuidStr[23] != '-' {
+		return nil, errors.New("invalid UUID string format")
+	}
 	var uuid UUID
 	strippedUUID := []byte(uuidStr[:8] + uuidStr[9:13] + uuidStr[14:18] + uuidStr[19:23] + uuidStr[24:])
 	if _, err := hex.Decode(uuid[:], strippedUUID); err != nil {
-- 
2.43.0


From 96be492c33b69ce82108de7fa0203759e4ff34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 11/33] fix: Map and MapL Put report a previous nil interface
 value as present

---
 hashmap/map.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..7b8a48a 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
-- 
2.43.0


From c67d9675361d4068b6520b29b80fe84486fde159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 12/33] fix: MapL.Len reads the counter atomically

---
 hashmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 7b8a48a..35fa823 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -74,7 +74,7 @@ func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 }
 
 func (t *MapL[K, V]) Len() int64 {
-	return t.len
+	return atomic.LoadInt64(&t.len)
 }
 
 // Map  Define a generic synchronized map structure using sync.Map as the underlying data structure.
-- 
2.43.0


From be001232d821d36473d2f9746f79c42319e5269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 13/33] fix: LimitMap holds no more than its capacity

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From 4858b7e01cfc2d6a7efd753e927e15b73727d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 14/33] fix: LimitHashMap with fewer places than segments keeps
 to its capacity

---
 hashmap/limithashmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..3cfa626 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,9 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	if capacity > 0 && capacity < segmentNumber {
+		segmentNumber = capacity
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From fa77a1198d8d304264937b47727dde4ff32ad4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 15/33] fix: LimitHashMap accepts nil interface values

---
 hashmap/limithashmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index 3cfa626..58f3963 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -153,9 +153,8 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
-		}
+		r, _ = ele.Value.(*entry).value.(V)
+		return r, true
 	}
 	return
 }
@@ -167,7 +166,8 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+		prev, _ = ele.Value.(*entry).value.(V)
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From 3470de1e035856c799e23aa8ce8b46460abec905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 16/33] fix: LimitHashMap does not confuse strings with equal
 hashes

---
 hashmap/limithashmap.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index 58f3963..1abcb43 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -16,8 +16,14 @@ import (
 
 const numSegments = 1 << 6
 
+// segmentKey tells keys apart: the hash alone does not for strings.
+type segmentKey struct {
+	hash uint64
+	str  string
+}
+
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[segmentKey]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -31,7 +37,7 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 }
 
 type entry struct {
-	hashedKey uint64
+	hashedKey segmentKey
 	key       any
 	value     any
 }
@@ -64,7 +70,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[segmentKey]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -146,12 +152,17 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+func (c *LimitHashMap[K, V]) segmentKey(key K) segmentKey {
+	str, _ := any(key).(string)
+	return segmentKey{c.hashFunc(key), str}
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.segmentKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		r, _ = ele.Value.(*entry).value.(V)
 		return r, true
@@ -164,7 +175,7 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.segmentKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		prev, _ = ele.Value.(*entry).value.(V)
 		b = true
@@ -190,7 +201,7 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.segmentKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		segment.order.Remove(ele)
 		delete(segment.cache, hashedKey)
@@ -202,7 +213,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.segmentKey(key)
 	_, ok := segment.cache[hashedKey]
 	return ok
 }
@@ -210,7 +221,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[segmentKey]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From cc3892b53e815bfdceeaa1d467e11a4b8ff600f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 17/33] fix: LinkedHashMap.LoadOrStore keeps an existing value
 and returns the stored one

---
 hashmap/linkedhashmap.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..f1640c5 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -54,27 +54,21 @@ func (t *LinkedHashMap[K, V]) Put(k K, v V) {
 }
 
 func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
-	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	if elem, ok := t.m.Load(k); ok {
+		return elem.(*list.Element).Value.(*entrykv[K, V]).value, true
+	}
+	t.m.Store(k, t.list.PushFront(&entrykv[K, V]{k, v}))
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From 6a035be918230d9c50554bc76c31f5f5783764a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 18/33] fix: LinkedHashMap.Get waits for a put in progress, so
 that it never sees both the new and the evicted key

---
 hashmap/linkedhashmap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index f1640c5..fff05fd 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -72,6 +72,8 @@ func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
+	t.mu.Lock()
+	defer t.mu.Unlock()
 	if v, ok := t.m.Load(k); ok {
 		if v != nil {
 			if vv := v.(*list.Element).Value; vv != nil {
-- 
2.43.0


From 1778450c8e6a230e273fac0d60489093cfc7fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 19/33] fix: Consistenthash lookups report absence after the
 last node is deleted instead of crashing

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From a1271acd7eef4f080b54c89a3036fa3c7f8ff92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 20/33] fix: Consistenthash.GetNextNodeStr walks round the
 whole ring

---
 hashmap/consistenthash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..f7bba64 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,8 +108,8 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
+	for i := 1; i < len(t.keys); i++ {
+		idx = (idx + 1) % len(t.keys)
 		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
-- 
2.43.0


From 0341360e1931b19e27e45a08c4780e9b6887072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 21/33] fix: Map and MapL Range accept a nil interface key

---
 hashmap/map.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 35fa823..3d34829 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -64,11 +64,12 @@ func (t *MapL[K, V]) Del(key K) (ok bool) {
 // The iteration stops if the function returns false.
 func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 	t.m.Range(func(k, v any) bool {
+		key, _ := k.(K)
 		if v != nil {
-			return f(k.(K), v.(V))
+			return f(key, v.(V))
 		} else {
 			var t V
-			return f(k.(K), t)
+			return f(key, t)
 		}
 	})
 }
@@ -122,11 +123,12 @@ func (t *Map[K, V]) Del(key K) (ok bool) {
 // The iteration stops if the function returns false.
 func (t *Map[K, V]) Range(f func(k K, v V) bool) {
 	t.m.Range(func(k, v any) bool {
+		key, _ := k.(K)
 		if v != nil {
-			return f(k.(K), v.(V))
+			return f(key, v.(V))
 		} else {
 			var t V
-			return f(k.(K), t)
+			return f(key, t)
 		}
 	})
 }
-- 
2.43.0


From 6fe478728cdc39089c9ce5ddf3a3129f3690908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 22/33] fix: Await and FastAwait WaitWithCancel without a
 timeout end with their context

---
 lock/await.go     | 10 +++++++++-
 lock/fastawait.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..e1066bf 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -109,7 +109,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, false, nil
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case r = <-ch:
+		}
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..cb351d8 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -87,7 +87,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case r = <-ch:
+		}
 	}
 	return
 }
-- 
2.43.0


From bd9780524014fd354050319f6d6f5cf0d1652c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 23/33] fix: BloomFilter for few items at a high error rate has
 room for them

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..f3d89c9 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -37,6 +37,9 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 	}
 	wordSize := uint64(64)
 	words := (uint64(m) + wordSize - 1) / wordSize
+	if words == 0 {
+		words = 1
+	}
 	seeds := make([]maphash.Seed, k)
 	for i := range seeds {
 		seeds[i] = maphash.MakeSeed()
-- 
2.43.0


From 45590eada8436eaa2e9c8a6b6b2876271c59b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 24/33] fix: BloomFilter adds and lookups lock the filter, so
 that concurrent adds lose nothing

---
 cache/bloom.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index f3d89c9..6d668e7 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -20,7 +20,7 @@ type BloomFilter struct {
 	bits          [3][]uint64 // Bit array to store the presence information for each segment.
 	hashCount     int         // Number of hash functions.
 	seeds         []maphash.Seed
-	mux           sync.Mutex
+	mux           sync.RWMutex
 	numCount      atomic.Uint64
 	arraySize     uint64
 	expectedItems uint64
@@ -79,6 +79,8 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
@@ -89,6 +91,8 @@ func (bf *BloomFilter) Add(item []byte) {
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.RLock()
+	defer bf.mux.RUnlock()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		if !bf.testBit(index) {
@@ -108,15 +112,11 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 	} else {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
-	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
+	if bf.bits[index] == nil { // only reached while adding, which holds the lock
+		bf.bits[index] = make([]uint64, bf.arraySize)
 		if bf.bits[rmIndex] != nil {
 			bf.bits[rmIndex] = nil
 		}
-		bf.mux.Unlock()
 	}
 	return
 }
-- 
2.43.0


From 32e18e57acf146069978228443cb821ba1477eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:39 +0000
Subject: [PATCH 25/33] fix: GoPool runs every function once, keeps to its
 maximum and uses all of it

A wake-up was lost when a function was submitted as the dispatcher stopped;
closing dropped the function the dispatcher held or crashed a submitter; with
busy core workers the free places above them were not used, and a pool without
core workers stopped for good at its first full load.
---
 pool/gopool/gopool.go | 156 ++++++++++++++++++------------------------
 1 file changed, 67 insertions(+), 89 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..72de81f 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,54 +11,17 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
-type funcn struct {
-	pool *GoPool
-	id   int64
-	task chan func()
-	once sync.Once
-}
-
-func (fc *funcn) add(f func()) {
-	fc.task <- f
-	fc.once.Do(func() {
-		go fc.run()
-	})
-}
-
-func (fc *funcn) run() {
-	defer func() {
-		if err := recover(); err != nil {
-			if fc.pool.put(fc) {
-				go fc.run()
-			}
-		}
-	}()
-	for {
-		select {
-		case f := <-fc.task:
-			f()
-		case <-fc.pool.ctx.Done():
-			goto END
-		}
-		if !fc.pool.put(fc) {
-			break
-		}
-	}
-END:
-}
-
 type GoPool struct {
-	pool       chan *funcn
+	task       chan func()   // hands a function over to an idle worker
+	sem        chan struct{} // holds one entry per running function
 	minlimit   int64
 	maxlimit   int64
-	id         int64
-	count      int64
+	idle       int64
 	mux        *sync.Mutex
 	funcnPool  chan func()
-	close      bool
+	close      atomic.Bool
 	_closeflag int32
 	tnum       int64
 	ctx        context.Context
@@ -71,11 +34,15 @@ func NewPool(minlimit int64, maxlimit int64) *GoPool {
 
 func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool {
 	p := &GoPool{}
-	p.pool = make(chan *funcn, minlimit)
 	p.minlimit, p.maxlimit = minlimit, maxlimit
 	if maxlimit < minlimit {
 		p.maxlimit = minlimit
 	}
+	if p.maxlimit < 1 {
+		p.maxlimit = 1
+	}
+	p.task = make(chan func())
+	p.sem = make(chan struct{}, p.maxlimit)
 	p.funcnPool = make(chan func(), FuncLimit)
 	p.mux = &sync.Mutex{}
 	p.ctx, p.cancel = context.WithCancel(context.Background())
@@ -83,12 +50,10 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 }
 
 func (g *GoPool) Go(f func()) {
-	if !g.close {
-		g.funcnPool <- f
+	if !g.close.Load() {
 		atomic.AddInt64(&g.tnum, 1)
-		if g.mux.TryLock() {
-			go g.funcn()
-		}
+		g.start()
+		g.funcnPool <- f
 	} else {
 		go f()
 	}
@@ -96,69 +61,82 @@ func (g *GoPool) Go(f func()) {
 
 // NumUnExecu the number of functions not executed
 func (g *GoPool) NumUnExecu() int {
-	return int(g.tnum)
+	return int(atomic.LoadInt64(&g.tnum))
 }
 
 // Close when Close ,the pool will enable goroutine, and the func in the pool will be started with goroutine
 func (g *GoPool) Close() {
-	defer func() { recover() }()
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
-		g.close = true
+		g.close.Store(true)
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
-		close(g.pool)
 	}
 }
 
 func (g *GoPool) TurnOff(off bool) {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && off {
-		g.close = true
+		g.close.Store(true)
 	} else if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && !off {
-		g.close = false
+		g.close.Store(false)
+	}
+}
+
+// start sees to it that a dispatcher looks at the waiting functions.
+func (g *GoPool) start() {
+	if g.mux.TryLock() {
+		go g.funcn()
 	}
 }
 
 func (g *GoPool) funcn() {
-	defer func() { recover() }()
-	defer g.mux.Unlock()
-	g._funcn()
+	for atomic.LoadInt64(&g.tnum) > 0 {
+		g._funcn(<-g.funcnPool)
+	}
+	g.mux.Unlock()
+	// a function may have been submitted after the last look and before the unlock
+	if atomic.LoadInt64(&g.tnum) > 0 {
+		g.start()
+	}
 }
 
-func (g *GoPool) _funcn() {
-	for f := range g.funcnPool {
-		if g.close {
-			go f()
-		} else {
-			var t *funcn
-			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
-				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
-				t = <-g.pool
-			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
-				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
-			} else {
-				t = <-g.pool
-			}
-			t.add(f)
-		}
-		if atomic.AddInt64(&g.tnum, -1) <= 0 {
-			break
-		}
+func (g *GoPool) _funcn(f func()) {
+	defer atomic.AddInt64(&g.tnum, -1)
+	if g.close.Load() {
+		go f()
+		return
 	}
-	if g.tnum > 0 {
-		g._funcn()
+	select {
+	case g.sem <- struct{}{}:
+		select {
+		case g.task <- f:
+		default:
+			go g.run(f)
+		}
+	case <-g.ctx.Done():
+		go f()
 	}
-	return
 }
 
-func (g *GoPool) put(f *funcn) (ok bool) {
-	atomic.AddInt64(&g.count, -1)
-	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
-		g.pool <- f
-		ok = true
+// run is a worker: it executes f, and then, as one of at most minlimit idle workers, waits for more.
+func (g *GoPool) run(f func()) {
+	for {
+		g.exec(f)
+		if atomic.AddInt64(&g.idle, 1) > g.minlimit {
+			atomic.AddInt64(&g.idle, -1)
+			return
+		}
+		select {
+		case f = <-g.task:
+			atomic.AddInt64(&g.idle, -1)
+		case <-g.ctx.Done():
+			return
+		}
 	}
-	return
+}
+
+func (g *GoPool) exec(f func()) {
+	defer func() {
+		recover()
+		<-g.sem
+	}()
+	f()
 }
-- 
2.43.0


From ea792f499549040ed561f2b82a6d956d42b76895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 26/33] fix: Buffer.Read consumes the last bytes and reports
 the end of input

---
 buffer/buffer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..539e906 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -103,9 +103,11 @@ func (b *Buffer) Read(p []byte) (n int, err error) {
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
+	if b.Len() == 0 && len(p) > 0 {
+		return 0, io.EOF
 	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From b1508cfc6d38cb4f25bc29b1a8453fda4e42c92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 27/33] fix: Buffer.WriteInt32 reports the four bytes it writes

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 539e906..cbf5479 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From a31039d8eb4d315a536dea27e3b3d045fd7db54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 28/33] fix: the buffered file writes every record once and
 reports failures to every writer

Records queued behind a batch could stay unwritten and kept referring to the
caller's slice; a failed batch left the lock held or was reported as success to
the writers that waited for it.
---
 fastio/file.go |   2 +-
 fastio/fw.go   | 150 +++++++++++++++++++++++--------------------------
 fastio/util.go |   9 ---
 3 files changed, 71 insertions(+), 90 deletions(-)

diff --git a/fastio/file.go b/fastio/file.go
index 4f4e339..c6a2461 100644
--- a/fastio/file.go
+++ b/fastio/file.go
@@ -67,5 +67,5 @@ func (f *fileHandle) Read(b []byte) (n int, err error) {
 
 func (f *fileHandle) Close() (err error) {
 	f.isClose = true
-	return f.file.Close()
+	return f.writer.Close()
 }
diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..fbfb623 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -9,119 +9,109 @@ package fastio
 
 import (
 	"bufio"
+	"os"
 	"sync"
-	"sync/atomic"
-	"time"
 )
 
 type writer interface {
 	WriteSync(bs []byte) (offset int64, err error)
 	Write(bs []byte) (n int, err error)
+	Close() error
 }
 
 type writeData struct {
 	data   []byte
 	offset int64
-	done   chan struct{}
+	n      int
+	err    error
+	done   bool
 }
 
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
+	mu    sync.Mutex // held while writing to the file
+	qmu   sync.Mutex // guards queue
+	queue []*writeData
 	fh    *fileHandle
-	ioend bool
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh}
 }
 
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.Lock()
-		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		n := 0
-		n, err = m.fh.file.Write(bs)
-		offset = m.fh.offset
-		atomic.AddInt64(&m.fh.offset, int64(n))
-		return
-	}
-	atomic.AddInt32(&m.wc, 1)
-	wd := &writeData{data: bs, done: make(chan struct{})}
-	m.ch <- wd
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else {
-		select {
-		case <-wd.done:
-			goto END
-		case <-time.After(time.Microsecond):
-			goto START
-		}
-	}
-END:
-	offset = wd.offset
-	return
+	wd := m.write(bs)
+	return wd.offset, wd.err
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		if n, err = m.fh.file.Write(bs); n > 0 {
-			atomic.AddInt64(&m.fh.offset, int64(n))
-		}
-		return n, err
-	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
+	wd := m.write(bs)
+	return wd.n, wd.err
+}
+
+func (m *mwriter) Close() error {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.ioWrite()
+	return m.fh.file.Close()
+}
+
+// write queues bs and returns when it has been written, be it along with the records of others.
+func (m *mwriter) write(bs []byte) *writeData {
+	wd := &writeData{data: bs}
+	m.qmu.Lock()
+	m.queue = append(m.queue, wd)
+	m.qmu.Unlock()
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if !wd.done {
+		m.ioWrite()
 	}
-	return len(bs), nil
+	return wd
 }
 
-func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
+// ioWrite writes what is queued; m.mu is held.
+func (m *mwriter) ioWrite() {
+	m.qmu.Lock()
+	queue := m.queue
+	m.queue = nil
+	m.qmu.Unlock()
+	if len(queue) == 0 {
 		return
 	}
-	m.ioend = false
-	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
-	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
+	fw := &fileWriter{file: m.fh.file}
+	var err error
+	if len(queue) == 1 {
+		_, err = fw.Write(queue[0].data)
+	} else {
+		bw := bufio.NewWriter(fw)
+		for _, wd := range queue {
+			bw.Write(wd.data)
 		}
+		err = bw.Flush()
+	}
+	left := fw.n
+	for _, wd := range queue {
 		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
+		if wd.n = len(wd.data); wd.n > left {
+			wd.n = left
 		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
-		if atomic.AddInt32(&m.wc, -1) == 0 {
-			break
+		if wd.n < len(wd.data) || len(wd.data) == 0 {
+			wd.err = err
 		}
+		left -= wd.n
+		m.fh.offset += int64(wd.n)
+		wd.done = true
 	}
-	m.ioend = true
-	err = bw.Flush()
+}
+
+// fileWriter counts the bytes that reach the file.
+type fileWriter struct {
+	file *os.File
+	n    int
+}
+
+func (f *fileWriter) Write(bs []byte) (n int, err error) {
+	n, err = f.file.Write(bs)
+	f.n += n
 	return
 }
diff --git a/fastio/util.go b/fastio/util.go
index fb63329..288df78 100644
--- a/fastio/util.go
+++ b/fastio/util.go
@@ -8,7 +8,6 @@
 package fastio
 
 import (
-	"fmt"
 	"io"
 	"os"
 )
@@ -16,11 +15,3 @@ import (
 func offset(file *os.File) (int64, error) {
 	return file.Seek(0, io.SeekEnd)
 }
-
-func recoverable(err *error) {
-	if e := recover(); e != nil {
-		if err != nil {
-			*err = fmt.Errorf("%v", e)
-		}
-	}
-}
-- 
2.43.0


From 678510a1d7565204cc9d929bdc5b5c35ee8847c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 29/33] fix: Mmap refuses negative and overflowing offsets and
 accepts empty synchronous writes at the end

---
 mmap/mmap.go         | 8 ++++----
 mmap/sync_unix.go    | 3 +++
 mmap/sync_windows.go | 3 +++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..efbfe33 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -24,13 +24,13 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 		return nil, errors.New("the file capacity is zero")
 	}
 
+	if startOffset < 0 || startOffset >= fif.Size() {
+		return nil, errors.New("offset Exceeds the file limit")
+	}
 	_mmap, err := gommap.Map(f, gommap.RDWR, 0)
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
-		return nil, errors.New("offset Exceeds the file limit")
-	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
 	return
 }
@@ -66,7 +66,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
diff --git a/mmap/sync_unix.go b/mmap/sync_unix.go
index e5f1826..b832038 100644
--- a/mmap/sync_unix.go
+++ b/mmap/sync_unix.go
@@ -19,6 +19,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	pageSize := int64(unix.Getpagesize())
 	var ptr unsafe.Pointer
 	var leng uintptr
diff --git a/mmap/sync_windows.go b/mmap/sync_windows.go
index f4f2894..8ac16b7 100644
--- a/mmap/sync_windows.go
+++ b/mmap/sync_windows.go
@@ -18,6 +18,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	hFile := windows.Handle(file.Fd())
 	bs := mappedMemory[n:(n + int64(length))]
 	err = windows.FlushViewOfFile(uintptr(unsafe.Pointer(&bs[0])), uintptr(len(bs)))
-- 
2.43.0


From 8236158a7f0c2fd3d0f737923b7033b7e75f249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 30/33] fix: httpclient sends a Host header it is given

---
 httpclient/post.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/httpclient/post.go b/httpclient/post.go
index ef050e2..f388d24 100644
--- a/httpclient/post.go
+++ b/httpclient/post.go
@@ -40,6 +40,9 @@ func Post3(bs []byte, close bool, url string, header map[string]string, c *http.
 		}
 		if len(header) > 0 {
 			for k, v := range header {
+				if strings.EqualFold(k, "Host") {
+					req.Host = v // net/http takes the host from the request, not from its header
+				}
 				req.Header.Set(k, v)
 			}
 		}
-- 
2.43.0


From 667dd8a296a3be3f93f6d054ae9c17c35c48aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 31/33] fix: websocket handler reports the end with an error
 also when closed on this side, and guards its error

---
 websocket/wshandle.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..abcd5ae 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -38,6 +38,7 @@ type Handler struct {
 	Cfg  *Config
 	conn *wss.Conn
 	mux  *sync.Mutex
+	emux sync.Mutex // guards err
 	err  error
 }
 
@@ -78,7 +79,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +95,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,15 +110,27 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
 	return wh.err
 }
 
+func (wh *Handler) setError(err error) {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
+	wh.err = err
+}
+
 func (wh *Handler) read() {
 	var err error
-	for wh.err == nil {
+	for {
+		// closed on this side since the last message
+		if err = wh.Error(); err != nil {
+			break
+		}
 		var byt []byte
 		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+			wh.setError(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
-- 
2.43.0


From e853eb3461afa15a4218aeb303a6526f911e6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 32/33] fix: image scaling keeps sides of at least one pixel
 and never exceeds the pixel limit

---
 image/adjust.go | 15 ++++++++++++++-
 image/image.go  | 11 ++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/image/adjust.go b/image/adjust.go
index 11b8b2d..ca2aefb 100644
--- a/image/adjust.go
+++ b/image/adjust.go
@@ -113,6 +113,13 @@ func scaleImageWithRatio(img image.Image, newWidth, newHeight int, maxPixel int,
 		}
 	}
 
+	// a side that rounds to nothing is one pixel
+	if newWidth == 0 {
+		newWidth = 1
+	}
+	if newHeight == 0 {
+		newHeight = 1
+	}
 	if maxPixel > 0 && newWidth*newHeight > maxPixel {
 		newWidth, newHeight = scaleDownToLimit(newWidth, newHeight, maxPixel)
 	}
@@ -130,5 +137,11 @@ func scaleDownToLimit(a, b, limit int) (int, int) {
 	}
 	fs := float64(limit) / float64(a*b)
 	sqrt := math.Sqrt(fs)
-	return int(float64(a) * sqrt), int(float64(b) * sqrt)
+	x, y := int(float64(a)*sqrt), int(float64(b)*sqrt)
+	if x < 1 {
+		x, y = 1, min(b, limit)
+	} else if y < 1 {
+		x, y = min(a, limit), 1
+	}
+	return x, y
 }
diff --git a/image/image.go b/image/image.go
index 1e4f448..1a8980e 100644
--- a/image/image.go
+++ b/image/image.go
@@ -125,7 +125,9 @@ func ResizeGIF(srcData []byte, targetWidth, targetHeight int) ([]byte, error) {
 	}
 
 	var buf bytes.Buffer
-	gif.EncodeAll(&buf, resizedGif)
+	if err = gif.EncodeAll(&buf, resizedGif); err != nil {
+		return srcData, err
+	}
 
 	return buf.Bytes(), nil
 }
@@ -161,6 +163,13 @@ func resizeGIF(g *gif.GIF, targetWidth, targetHeight int) (*gif.GIF, error) {
 	newW := int(float64(canvasW) * scale)
 	newH := int(float64(canvasH) * scale)
 
+	if newW < 1 {
+		newW = 1
+	}
+	if newH < 1 {
+		newH = 1
+	}
+
 	newGIF := &gif.GIF{
 		Delay:     g.Delay,
 		Disposal:  g.Disposal,
-- 
2.43.0


From a0b84a7c27a55a0733f901c383ee2d07771c0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:09 +0000
Subject: [PATCH 33/33] fix: the time of connecting a websocket covers the
 handshake

---
 websocket/wshandle.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index abcd5ae..4214d91 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -8,6 +8,7 @@
 package websocket
 
 import (
+	"context"
 	"crypto/tls"
 	"crypto/x509"
 	"errors"
@@ -45,8 +46,13 @@ type Handler struct {
 func NewHandler(cfg *Config) (wh *Handler, err error) {
 	var conn *wss.Conn
 	config := &wss.Config{Version: wss.ProtocolVersionHybi13}
+	ctx := context.Background()
 	if cfg.TimeOut > 0 {
 		config.Dialer = &net.Dialer{Timeout: cfg.TimeOut}
+		// the handshake is part of connecting
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, cfg.TimeOut)
+		defer cancel()
 	}
 	if strings.HasPrefix(cfg.Url, "wss:") {
 		if cfg.CertFiles != nil {
@@ -75,7 +81,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 	}
 	if config.Location, err = url.ParseRequestURI(cfg.Url); err == nil {
 		if config.Origin, err = url.ParseRequestURI(cfg.Origin); err == nil {
-			conn, err = wss.DialConfig(config)
+			conn, err = config.DialContext(ctx)
 		}
 	}
 	if err == nil && conn != nil {
-- 
2.43.0

