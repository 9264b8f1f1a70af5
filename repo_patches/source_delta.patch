From 24b9659782623128f1f3deb51b431723b9c82bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 01/47] fix: MapL.Len reads the counter atomically

---
 hashmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..ae85b48 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -71,7 +71,7 @@ func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 }
 
 func (t *MapL[K, V]) Len() int64 {
-	return t.len
+	return atomic.LoadInt64(&t.len)
 }
 
 // Map  Define a generic synchronized map structure using sync.Map as the underlying data structure.
-- 
2.43.0


From 90b0d6ed74a11ed5c44654d3e6fd6f7924c56968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 02/47] fix: Map.Put and MapL.Put report the key they replaced
 when its value was a nil interface

---
 hashmap/map.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index ae85b48..458085c 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		b = true
+		if v != nil {
+			prev = v.(V)
+		}
 	}
 	return
 }
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		b = true
+		if v != nil {
+			prev = v.(V)
+		}
 	}
 	return
 }
-- 
2.43.0


From 3609711b17df42dc6aa66856c0a78e535f6d5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 03/47] fix: LimitMap holds at most capacity entries

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From da9569d54d6098750f8761cce815b9d5b91ff41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:46 +0000
Subject: [PATCH 04/47] fix: LimitHashMap with fewer capacity than segments no
 longer exceeds its capacity

---
 hashmap/limithashmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..fd768b5 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,9 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	if capacity > 0 && segmentNumber > capacity {
+		segmentNumber = capacity // every segment holds at least one entry
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From ba8898ebc7de219b6cf64e2a4ef669c8b7831c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 05/47] fix: LimitHashMap tells string keys with the same hash
 apart

---
 hashmap/limithashmap.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index fd768b5..d57c034 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -17,7 +17,7 @@ import (
 const numSegments = 1 << 6
 
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[any]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -31,7 +31,7 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 }
 
 type entry struct {
-	hashedKey uint64
+	hashedKey any
 	key       any
 	value     any
 }
@@ -64,7 +64,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[any]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -146,12 +146,21 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+// cacheKey identifies key inside its segment: a string by itself, because different strings
+// may share a hash, and a key of any other type by its hash, which no other key has.
+func (c *LimitHashMap[K, V]) cacheKey(key K) any {
+	if s, ok := any(key).(string); ok {
+		return s
+	}
+	return c.hashFunc(key)
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		if v := ele.Value.(*entry).value; v != nil {
 			return v.(V), true
@@ -165,7 +174,7 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		prev, b = ele.Value.(*entry).value.(V), true
 		ele.Value.(*entry).value = value
@@ -190,7 +199,7 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		segment.order.Remove(ele)
 		delete(segment.cache, hashedKey)
@@ -202,7 +211,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.cacheKey(key)
 	_, ok := segment.cache[hashedKey]
 	return ok
 }
@@ -210,7 +219,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[any]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From a383b06b8d983f633b1827abb0872258e5d1b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 06/47] fix: LimitHashMap finds and replaces an entry whose
 value is a nil interface

---
 hashmap/limithashmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index d57c034..46e9dfd 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -162,9 +162,8 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 
 	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
-		}
+		r, _ = ele.Value.(*entry).value.(V) // a nil interface value stays the zero V
+		return r, true
 	}
 	return
 }
@@ -176,7 +175,8 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.cacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+		prev, _ = ele.Value.(*entry).value.(V)
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From d28ea2cc94ab370c945f58a25081f9739ea330b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 07/47] fix: LinkedHashMap.LoadOrStore keeps an existing value
 and returns the one it stores

---
 hashmap/linkedhashmap.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..cffc9e2 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -57,24 +57,21 @@ func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
+	if preelem, ok := t.m.Load(k); ok {
+		t.list.MoveToFront(preelem.(*list.Element))
+		return preelem.(*list.Element).Value.(*entrykv[K, V]).value, true
+	}
 	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	t.m.Store(k, elem)
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From b7efa0902957eca292a3f2cb97d00feef49dfa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 08/47] fix: LinkedHashMap.Clear no longer races with Get on
 the map pointer

---
 hashmap/linkedhashmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index cffc9e2..69a4e17 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -125,7 +125,7 @@ func (t *LinkedHashMap[K, V]) Clear() {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	t.m = &sync.Map{}
+	t.m.Clear()
 	t.list.Init()
 	t.count = 0
 }
-- 
2.43.0


From b2806114d1b11e23c618ddb1f2e859d6ecc0de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 09/47] fix: Consistenthash lookups report no node once every
 node has been deleted

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From b204493fc5f1507ce1f6ab1d24c16833e6bb9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 10/47] fix: Consistenthash.GetNextNodeStr goes round the end
 of the ring

---
 hashmap/consistenthash.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..132df38 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,9 +108,8 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
-		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
+	for i := 1; i < len(t.keys); i++ {
+		if node, ok := t.m.Get(t.keys[(idx+i)%len(t.keys)]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
 				nodes = append(nodes, node)
-- 
2.43.0


From c931dd9dabba9680fb73c049e90c028905f23ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 11/47] fix: util.Zlib returns the finished stream

---
 util/compress.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..02d8f52 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,8 +19,11 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
+			compressor.Close()
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
 			return nil, err
 		}
 		_r = buf.Bytes()
-- 
2.43.0


From 9d9f45f570e542aa33c0348b80278d4e167d8c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 12/47] fix: util.UnZlib reports a truncated or corrupt stream

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index 02d8f52..47f0707 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -38,7 +38,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
-- 
2.43.0


From 14fe1aa736a59d2d5bfa51dbed0f3f7abf8585d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 13/47] fix: util.UnGzip reports a truncated or corrupt stream

---
 util/compress.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 47f0707..65e7441 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -59,11 +59,14 @@ func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 		var bs = make([]byte, 1024)
 		for {
 			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
-				break
-			}
+			n, err = gz.Read(bs)
 			_bb.Write(bs[:n])
+			if err == io.EOF {
+				return _bb, nil
+			}
+			if err != nil {
+				return
+			}
 		}
 	} else {
 		err = er
-- 
2.43.0


From 9b3bcb263c4393deaef42eee2b0871100bf5a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 14/47] fix: compress.ZlibLevel returns the finished stream and
 its errors

---
 compress/compress.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..088a2d0 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,13 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			compressor.Close()
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From aa8e6d58f3e8d1a3072c44784243f5876861bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 15/47] fix: EncrypterCbc no longer encrypts into the spare
 capacity of the caller's slice

---
 keystore/aes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..8c110d8 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -31,7 +31,7 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = append(append(make([]byte, 0, len(src)+len(bs)), src...), bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
-- 
2.43.0


From 81f9f8670af75139a7af0d02f9a549b3cc003290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 16/47] fix: DecrypterCbc reports malformed ciphertext instead
 of panicking

---
 keystore/aes.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 8c110d8..f9dc373 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -42,10 +43,17 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		if len(bs) == 0 || len(bs)%c.BlockSize() != 0 {
+			return nil, errors.New("ciphertext is not a whole number of blocks")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		padding := int(_r[len(_r)-1])
+		if padding == 0 || padding > c.BlockSize() {
+			return nil, errors.New("ciphertext has invalid padding")
+		}
+		_r = _r[:len(_r)-padding]
 	} else {
 		err = e
 	}
-- 
2.43.0


From 86b72c1096859fd3a474d17b304d86569ee1fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 17/47] fix: RsaEncryptByBytes and RsaDecryptByBytes report an
 unusable key

---
 keystore/key.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..f1dd213 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -111,9 +111,17 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
 	defer _recovr()
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("public key is not PEM encoded")
+	}
 	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
+		publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+		if !ok {
+			return nil, errors.New("public key is not an RSA key")
+		}
 		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	} else {
+		err = e
 	}
 	return
 }
@@ -139,8 +147,13 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
 	defer _recovr()
 	priDecodeBlock, _ := pem.Decode(privateBs)
+	if priDecodeBlock == nil {
+		return nil, errors.New("private key is not PEM encoded")
+	}
 	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
 		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	} else {
+		err = e
 	}
 	return
 }
-- 
2.43.0


From 6e9151600df282ec7bd0863f4dd70266d512b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 18/47] fix: the RSA helpers turn a panic into an error instead
 of an empty success

---
 keystore/key.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index f1dd213..399f218 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -13,6 +13,7 @@ import (
 	"crypto/x509"
 	"encoding/pem"
 	"errors"
+	"fmt"
 	"os"
 
 	"github.com/donnie4w/gofer/util"
@@ -91,7 +92,7 @@ fugwl2R114U+R6on5tyKY3vTCamRYpo+cpaeajsPGUeHSm9e4tKV
 -----END RSA PRIVATE KEY-----`
 
 func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if publickeypath != "" {
 		if util.IsFileExist(publickeypath) {
@@ -109,7 +110,7 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 }
 
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
 	if pubDecodeBlock == nil {
 		return nil, errors.New("public key is not PEM encoded")
@@ -127,7 +128,7 @@ func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err e
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if privatekeypath != "" {
 		if util.IsFileExist(privatekeypath) {
@@ -145,7 +146,7 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 }
 
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	priDecodeBlock, _ := pem.Decode(privateBs)
 	if priDecodeBlock == nil {
 		return nil, errors.New("private key is not PEM encoded")
@@ -158,7 +159,8 @@ func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err err
 	return
 }
 
-func _recovr() {
-	if err := recover(); err != nil {
+func _recovr(err *error) {
+	if e := recover(); e != nil {
+		*err = fmt.Errorf("%v", e)
 	}
 }
-- 
2.43.0


From bd83f5b84e611079673842d48f285ac3d3efa43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 19/47] fix: keystore Read reports a failed Stat instead of
 panicking

---
 keystore/bin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..196d2d5 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -58,6 +58,9 @@ func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
 	fi, err := this._fileHandler.Stat()
+	if err != nil {
+		return nil, err
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0


From bd7f1849375b8e071ee38900e937274508b0e4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 20/47] fix: keystore Write replaces the file only once the new
 contents are on disk

---
 keystore/bin.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/keystore/bin.go b/keystore/bin.go
index 196d2d5..d454064 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -10,7 +10,6 @@ package keystore
 import (
 	"errors"
 	"fmt"
-	"io"
 	"os"
 	"sync"
 
@@ -44,14 +43,42 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 func (this *_keyStore) Write(bs []byte) (err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	this._fileHandler.Seek(0, io.SeekStart)
-	this._fileHandler.Truncate(0)
 	var obs []byte
 	if obs, err = util.Zlib(bs); err != nil {
 		obs = bs
 	}
-	_, err = this._fileHandler.Write(obs)
-	return
+	fi, err := this._fileHandler.Stat()
+	if err != nil {
+		return err
+	}
+	tmp := this.fname + ".tmp"
+	if err = writeFileSync(tmp, obs, fi.Mode().Perm()); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	this._fileHandler.Close() // an open file cannot be replaced everywhere
+	err = os.Rename(tmp, this.fname)
+	f, e := os.OpenFile(this.fname, os.O_RDWR|os.O_CREATE, 0666)
+	if e != nil {
+		return e
+	}
+	this._fileHandler = f
+	return err
+}
+
+// writeFileSync writes bs to a new file and returns once the disk has it.
+func writeFileSync(fname string, bs []byte, perm os.FileMode) (err error) {
+	f, err := os.OpenFile(fname, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	if _, err = f.Write(bs); err == nil {
+		err = f.Sync()
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	return err
 }
 
 func (this *_keyStore) Read() (bs []byte, err error) {
-- 
2.43.0


From 7c8ad05f8ae63a5ee176fed2d09872d6187278a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 21/47] fix: WaitWithCancel without a timeout can be cancelled

---
 lock/await.go     | 10 +++++++++-
 lock/fastawait.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..e1066bf 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -109,7 +109,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, false, nil
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case r = <-ch:
+		}
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..cb351d8 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -87,7 +87,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case r = <-ch:
+		}
 	}
 	return
 }
-- 
2.43.0


From 732f6867cf5ea52ff0ce6e46e984b93541ed72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 22/47] fix: LimitLock.Cc reads its counters atomically

---
 lock/lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lock/lock.go b/lock/lock.go
index 2200a39..76df89b 100644
--- a/lock/lock.go
+++ b/lock/lock.go
@@ -156,7 +156,7 @@ func (ll *LimitLock) Unlock() {
 
 // Cc returns the current concurrency count.
 func (ll *LimitLock) Cc() int64 {
-	return ll.count - ll._count // Difference between acquisitions and releases (always zero)
+	return atomic.LoadInt64(&ll.count) - atomic.LoadInt64(&ll._count) // Difference between acquisitions and releases (always zero)
 }
 
 // LockCount returns the total number of lock acquisitions.
-- 
2.43.0


From 8e772b4e616bbaaf5e0ae85e98ac12835c661e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 23/47] fix: Buffer.WriteInt32 reports the 4 bytes it writes

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..89c56a7 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From 4699fa4590edf4b1353e96375ab8fd38d73e3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 24/47] fix: Buffer.Read consumes the last bytes and then
 reports io.EOF

---
 buffer/buffer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 89c56a7..cbf5479 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -103,9 +103,11 @@ func (b *Buffer) Read(p []byte) (n int, err error) {
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
+	if b.Len() == 0 && len(p) > 0 {
+		return 0, io.EOF
 	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From 5a2da4710e931772042488726253a659fd1a7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 25/47] fix: BufferPool.Put reports that it did not take a nil
 buffer

---
 pool/buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/buffer/buffer.go b/pool/buffer/buffer.go
index be8b532..d0ffc4b 100644
--- a/pool/buffer/buffer.go
+++ b/pool/buffer/buffer.go
@@ -41,7 +41,7 @@ func (this *BufferPool) Put(buf *bytes.Buffer) (ok bool) {
 		this.pool[pre].Put(buf)
 		ok = true
 	}
-	return true
+	return
 }
 
 func (this *BufferPool) getRouter(len int) (pre int) {
-- 
2.43.0


From fca4fc50ca24f48f02d0f822b42b1a1a859a8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 26/47] fix: UUID.Equals compares the values

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..9bf48b6 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -78,7 +78,7 @@ func (u *UUID) Equals(other *UUID) bool {
 	if other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From 65841fd5e5ad4e1fa9771b42875d26498cb721af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 27/47] fix: DecodeForInt64 rejects a number that does not fit
 in 64 bits

---
 base58/base58.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base58/base58.go b/base58/base58.go
index 77639ca..d7c8e16 100644
--- a/base58/base58.go
+++ b/base58/base58.go
@@ -8,7 +8,10 @@
 
 package base58
 
-import "bytes"
+import (
+	"bytes"
+	"math"
+)
 
 var b58Alphabet = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
 
@@ -34,6 +37,9 @@ func DecodeForInt64(bs []byte) (_r uint64, ok bool) {
 	defer func() { recover() }()
 	for _, b := range bs {
 		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 {
+			if _r > (math.MaxUint64-uint64(idx))/58 {
+				return 0, false // does not fit
+			}
 			_r *= 58
 			_r += uint64(idx)
 		} else {
-- 
2.43.0


From 55a00562c2ca572e4ff84df3eb172cd4702ad179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 28/47] fix: NewMMAP rejects a negative offset, and does not
 leave a mapping behind for a bad one

---
 mmap/mmap.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..20fae69 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -24,13 +24,14 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 		return nil, errors.New("the file capacity is zero")
 	}
 
+	if startOffset < 0 || startOffset >= fif.Size() {
+		return nil, errors.New("offset Exceeds the file limit")
+	}
+
 	_mmap, err := gommap.Map(f, gommap.RDWR, 0)
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
-		return nil, errors.New("offset Exceeds the file limit")
-	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
 	return
 }
-- 
2.43.0


From 68d2932645de559e47e306b434dc85d2fc5a4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 29/47] fix: Mmap.WriteAt rejects negative and overflowing
 offsets instead of panicking

---
 mmap/mmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index 20fae69..5f2e488 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -67,7 +67,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
-- 
2.43.0


From 24d1ccfb11b825741ab821cc7938fc9fb5cfab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 30/47] fix: syncing an empty write at the end of the map no
 longer panics

---
 mmap/sync_unix.go    | 3 +++
 mmap/sync_windows.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mmap/sync_unix.go b/mmap/sync_unix.go
index e5f1826..b832038 100644
--- a/mmap/sync_unix.go
+++ b/mmap/sync_unix.go
@@ -19,6 +19,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	pageSize := int64(unix.Getpagesize())
 	var ptr unsafe.Pointer
 	var leng uintptr
diff --git a/mmap/sync_windows.go b/mmap/sync_windows.go
index f4f2894..8ac16b7 100644
--- a/mmap/sync_windows.go
+++ b/mmap/sync_windows.go
@@ -18,6 +18,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	hFile := windows.Handle(file.Fd())
 	bs := mappedMemory[n:(n + int64(length))]
 	err = windows.FlushViewOfFile(uintptr(unsafe.Pointer(&bs[0])), uintptr(len(bs)))
-- 
2.43.0


From 99cbabded4bb501591c590130780e14151dfe649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 31/47] fix: AppendSync and WriteAtSync reach the disk on
 solaris

---
 mmap/sync_solaris.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmap/sync_solaris.go b/mmap/sync_solaris.go
index bb86ebc..e3ff12d 100644
--- a/mmap/sync_solaris.go
+++ b/mmap/sync_solaris.go
@@ -12,8 +12,10 @@ package mmap
 
 import (
 	"os"
+
+	gommap "github.com/edsrzf/mmap-go"
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
-	return
+	return gommap.MMap(mappedMemory).Flush()
 }
-- 
2.43.0


From 7a3ee3f5802d9b741cd4103238f5c511150d040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 32/47] fix: concurrent BloomFilter.Add calls no longer lose
 each other's bits

---
 cache/bloom.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..49eefc4 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -20,7 +20,7 @@ type BloomFilter struct {
 	bits          [3][]uint64 // Bit array to store the presence information for each segment.
 	hashCount     int         // Number of hash functions.
 	seeds         []maphash.Seed
-	mux           sync.Mutex
+	mux           sync.RWMutex
 	numCount      atomic.Uint64
 	arraySize     uint64
 	expectedItems uint64
@@ -47,7 +47,7 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 		arraySize:     words,
 		expectedItems: expectedItems,
 	}
-	r.getBitIndex()
+	r.rotate()
 	return
 }
 
@@ -59,7 +59,7 @@ func (bf *BloomFilter) String() string {
 func (bf *BloomFilter) setBit(index uint64) {
 	wordIndex := index / 64
 	bitIndex := index % 64
-	id, _ := bf.getBitIndex()
+	id, _, _ := bf.getBitIndex()
 	bf.bits[id][wordIndex] |= (uint64(1) << bitIndex)
 }
 
@@ -68,7 +68,7 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 	defer recoverPanic(nil)
 	wordIndex := index / 64
 	bitIndex := index % 64
-	id, prevId := bf.getBitIndex()
+	id, prevId, _ := bf.getBitIndex()
 	offset := uint64(1) << bitIndex
 	return (bf.bits[id][wordIndex]&offset) != 0 || (bf.bits[prevId][wordIndex]&offset) != 0
 }
@@ -76,7 +76,10 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
+	bf.rotate()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		bf.setBit(index)
@@ -86,6 +89,8 @@ func (bf *BloomFilter) Add(item []byte) {
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.RLock()
+	defer bf.mux.RUnlock()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		if !bf.testBit(index) {
@@ -95,9 +100,8 @@ func (bf *BloomFilter) Contains(item []byte) bool {
 	return true
 }
 
-func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
+func (bf *BloomFilter) getBitIndex() (index, prevIndex, rmIndex int) {
 	f := bf.numCount.Load() % (bf.expectedItems*3 + 1)
-	rmIndex := 0
 	if f < bf.expectedItems {
 		index, rmIndex, prevIndex = 0, 1, 2
 	} else if f < bf.expectedItems*2 {
@@ -105,17 +109,16 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 	} else {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
+	return
+}
+
+// rotate makes room for the segment in use and drops the oldest one. The caller holds the lock.
+func (bf *BloomFilter) rotate() {
+	index, _, rmIndex := bf.getBitIndex()
 	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
-		if bf.bits[rmIndex] != nil {
-			bf.bits[rmIndex] = nil
-		}
-		bf.mux.Unlock()
+		bf.bits[index] = make([]uint64, bf.arraySize)
+		bf.bits[rmIndex] = nil
 	}
-	return
 }
 
 func (bf *BloomFilter) hash(item []byte, seed maphash.Seed) uint64 {
-- 
2.43.0


From a296166747da283c5d0ee74f2dbe9ca467a24f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 33/47] fix: BloomFilter with a tiny bit budget finds what was
 added

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 49eefc4..a033af3 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -37,6 +37,9 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 	}
 	wordSize := uint64(64)
 	words := (uint64(m) + wordSize - 1) / wordSize
+	if words == 0 {
+		words = 1 // with no bits, nothing added would be found again
+	}
 	seeds := make([]maphash.Seed, k)
 	for i := range seeds {
 		seeds[i] = maphash.MakeSeed()
-- 
2.43.0


From 49ecc27390f05e20eb6e9806ddbfa190d5f9d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 34/47] fix: the websocket Handler's error is read and written
 under a lock

---
 websocket/wshandle.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..b3b45d1 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -39,6 +39,7 @@ type Handler struct {
 	conn *wss.Conn
 	mux  *sync.Mutex
 	err  error
+	emux sync.RWMutex
 }
 
 func NewHandler(cfg *Config) (wh *Handler, err error) {
@@ -78,7 +79,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +95,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,15 +110,23 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.emux.RLock()
+	defer wh.emux.RUnlock()
 	return wh.err
 }
 
+func (wh *Handler) setError(err error) {
+	wh.emux.Lock()
+	defer wh.emux.Unlock()
+	wh.err = err
+}
+
 func (wh *Handler) read() {
 	var err error
-	for wh.err == nil {
+	for wh.Error() == nil {
 		var byt []byte
 		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+			wh.setError(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
-- 
2.43.0


From f12f0b4ab34da6fe0b398c68c6de200d525a1e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 35/47] fix: OnError always gets an error

---
 websocket/wshandle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index b3b45d1..58f9d3b 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -133,6 +133,9 @@ func (wh *Handler) read() {
 			go wh.Cfg.OnMessage(wh, byt)
 		}
 	}
+	if err == nil {
+		err = wh.Error() // closed by this side before the read
+	}
 	if wh.Cfg.OnError != nil {
 		go wh.Cfg.OnError(wh, err)
 	}
-- 
2.43.0


From 898149549fe825217c861dd7a74a55aaf60c6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 36/47] fix: GoPool reads and writes its shared flags and
 counters atomically

---
 pool/gopool/gopool.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..51b8f41 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -58,7 +58,7 @@ type GoPool struct {
 	count      int64
 	mux        *sync.Mutex
 	funcnPool  chan func()
-	close      bool
+	close      atomic.Bool
 	_closeflag int32
 	tnum       int64
 	ctx        context.Context
@@ -83,7 +83,7 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 }
 
 func (g *GoPool) Go(f func()) {
-	if !g.close {
+	if !g.close.Load() {
 		g.funcnPool <- f
 		atomic.AddInt64(&g.tnum, 1)
 		if g.mux.TryLock() {
@@ -96,14 +96,14 @@ func (g *GoPool) Go(f func()) {
 
 // NumUnExecu the number of functions not executed
 func (g *GoPool) NumUnExecu() int {
-	return int(g.tnum)
+	return int(atomic.LoadInt64(&g.tnum))
 }
 
 // Close when Close ,the pool will enable goroutine, and the func in the pool will be started with goroutine
 func (g *GoPool) Close() {
 	defer func() { recover() }()
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
-		g.close = true
+		g.close.Store(true)
 		g.cancel()
 		go func() {
 			<-time.After(10 * time.Second)
@@ -115,9 +115,9 @@ func (g *GoPool) Close() {
 
 func (g *GoPool) TurnOff(off bool) {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && off {
-		g.close = true
+		g.close.Store(true)
 	} else if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && !off {
-		g.close = false
+		g.close.Store(false)
 	}
 }
 
@@ -129,13 +129,13 @@ func (g *GoPool) funcn() {
 
 func (g *GoPool) _funcn() {
 	for f := range g.funcnPool {
-		if g.close {
+		if g.close.Load() {
 			go f()
 		} else {
 			var t *funcn
 			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
 				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
+			} else if atomic.LoadInt64(&g.id) > g.minlimit {
 				t = <-g.pool
 			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
 				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
@@ -148,7 +148,7 @@ func (g *GoPool) _funcn() {
 			break
 		}
 	}
-	if g.tnum > 0 {
+	if atomic.LoadInt64(&g.tnum) > 0 {
 		g._funcn()
 	}
 	return
-- 
2.43.0


From c8f9ce9d47d5f7e16cc354457234430942ca70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 37/47] fix: GoPool with minlimit or FuncLimit below 1 runs its
 funcs

---
 pool/gopool/gopool.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 51b8f41..d64cf88 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -70,6 +70,12 @@ func NewPool(minlimit int64, maxlimit int64) *GoPool {
 }
 
 func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool {
+	if minlimit < 1 {
+		minlimit = 1 // without a worker that returns to the pool, funcs beyond maxlimit never run
+	}
+	if FuncLimit < 1 {
+		FuncLimit = 1 // Go hands its func over before the dispatcher is there to take it
+	}
 	p := &GoPool{}
 	p.pool = make(chan *funcn, minlimit)
 	p.minlimit, p.maxlimit = minlimit, maxlimit
-- 
2.43.0


From 6d0ca4b2c5a00a2356ec6237c3b54a79f6fc14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:09 +0000
Subject: [PATCH 38/47] fix: GoPool no longer leaves a func waiting that
 arrives while the dispatcher stops

---
 pool/gopool/gopool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index d64cf88..b04361c 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -128,7 +128,13 @@ func (g *GoPool) TurnOff(off bool) {
 }
 
 func (g *GoPool) funcn() {
-	defer func() { recover() }()
+	defer func() {
+		recover()
+		// a func that came in after the last look at tnum found the lock taken
+		if atomic.LoadInt64(&g.tnum) > 0 && g.mux.TryLock() {
+			go g.funcn()
+		}
+	}()
 	defer g.mux.Unlock()
 	g._funcn()
 }
-- 
2.43.0


From 53fa56cb8b1f1934f24681d8ded96a2fc69483b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 39/47] fix: closing a GoPool loses no func and sends on no
 closed channel

---
 pool/gopool/gopool.go | 58 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index b04361c..79d908c 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,7 +11,6 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type funcn struct {
@@ -26,6 +25,13 @@ func (fc *funcn) add(f func()) {
 	fc.once.Do(func() {
 		go fc.run()
 	})
+	if fc.pool.ctx.Err() != nil { // the worker may be gone already
+		select {
+		case f = <-fc.task:
+			go f()
+		default:
+		}
+	}
 }
 
 func (fc *funcn) run() {
@@ -41,6 +47,11 @@ func (fc *funcn) run() {
 		case f := <-fc.task:
 			f()
 		case <-fc.pool.ctx.Done():
+			select {
+			case f := <-fc.task:
+				f()
+			default:
+			}
 			goto END
 		}
 		if !fc.pool.put(fc) {
@@ -111,11 +122,6 @@ func (g *GoPool) Close() {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
 		g.close.Store(true)
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
-		close(g.pool)
 	}
 }
 
@@ -140,7 +146,11 @@ func (g *GoPool) funcn() {
 }
 
 func (g *GoPool) _funcn() {
-	for f := range g.funcnPool {
+	for {
+		f, ok := g.next()
+		if !ok {
+			return
+		}
 		if g.close.Load() {
 			go f()
 		} else {
@@ -148,13 +158,17 @@ func (g *GoPool) _funcn() {
 			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
 				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
 			} else if atomic.LoadInt64(&g.id) > g.minlimit {
-				t = <-g.pool
+				t = g.idle()
 			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
 				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
 			} else {
-				t = <-g.pool
+				t = g.idle()
+			}
+			if t == nil {
+				go f()
+			} else {
+				t.add(f)
 			}
-			t.add(f)
 		}
 		if atomic.AddInt64(&g.tnum, -1) <= 0 {
 			break
@@ -166,6 +180,30 @@ func (g *GoPool) _funcn() {
 	return
 }
 
+// next waits for a func; ok is false when the pool is closed and no func is left.
+func (g *GoPool) next() (f func(), ok bool) {
+	select {
+	case f = <-g.funcnPool:
+		return f, true
+	case <-g.ctx.Done():
+		select {
+		case f = <-g.funcnPool:
+			return f, true
+		default:
+			return nil, false
+		}
+	}
+}
+
+// idle waits for an idle worker, and returns nil when the pool is closed.
+func (g *GoPool) idle() (t *funcn) {
+	select {
+	case t = <-g.pool:
+	case <-g.ctx.Done():
+	}
+	return
+}
+
 func (g *GoPool) put(f *funcn) (ok bool) {
 	atomic.AddInt64(&g.count, -1)
 	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
-- 
2.43.0


From e5810eb4f1b9c749f611b9d29c490cd4b786b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 40/47] fix: an asynchronous fastio Write keeps its own copy of
 the data

---
 fastio/fw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..446d412 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -88,7 +88,7 @@ func (m *mwriter) Write(bs []byte) (n int, err error) {
 		return n, err
 	}
 	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
+	m.ch <- &writeData{data: append([]byte(nil), bs...)} // the caller may reuse bs
 START:
 	if m.ioend && m.mu.TryLock() {
 		if err = m.ioWrite(); err != nil {
-- 
2.43.0


From c809a0ec3d9d1945b936dfc8a6e8eaeabeb206a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 41/47] fix: a failed fastio write releases the lock and
 reaches every waiting writer

---
 fastio/fw.go | 87 ++++++++++++++++++++++++++++------------------------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 446d412..0e85e3c 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -22,20 +22,20 @@ type writer interface {
 type writeData struct {
 	data   []byte
 	offset int64
+	err    error
 	done   chan struct{}
 }
 
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
-	fh    *fileHandle
-	ioend bool
+	ch chan *writeData
+	mu sync.RWMutex
+	wc int32
+	cc int32
+	fh *fileHandle
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16)}
 }
 
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
@@ -43,44 +43,38 @@ func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
 		m.mu.Lock()
 		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
+		if err = m.ioWrite(); err != nil {
+			return
 		}
 		n := 0
+		offset = atomic.LoadInt64(&m.fh.offset)
 		n, err = m.fh.file.Write(bs)
-		offset = m.fh.offset
 		atomic.AddInt64(&m.fh.offset, int64(n))
 		return
 	}
 	atomic.AddInt32(&m.wc, 1)
 	wd := &writeData{data: bs, done: make(chan struct{})}
 	m.ch <- wd
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
+	for {
+		if m.mu.TryLock() {
+			m.ioWrite() // the outcome of this write is in wd
+			m.mu.Unlock()
 		}
-		m.mu.Unlock()
-	} else {
 		select {
 		case <-wd.done:
-			goto END
+			return wd.offset, wd.err
 		case <-time.After(time.Microsecond):
-			goto START
 		}
 	}
-END:
-	offset = wd.offset
-	return
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		if err = m.ioWrite(); err != nil {
+			return
 		}
 		if n, err = m.fh.file.Write(bs); n > 0 {
 			atomic.AddInt64(&m.fh.offset, int64(n))
@@ -89,39 +83,52 @@ func (m *mwriter) Write(bs []byte) (n int, err error) {
 	}
 	atomic.AddInt32(&m.wc, 1)
 	m.ch <- &writeData{data: append([]byte(nil), bs...)} // the caller may reuse bs
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
+	if m.mu.TryLock() {
+		err = m.ioWrite()
+		m.mu.Unlock()
+		if err != nil {
 			return
 		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
 	}
 	return len(bs), nil
 }
 
+// ioWrite writes the queued data and tells the waiting writers. The caller holds the lock.
 func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
+	if atomic.LoadInt32(&m.wc) == 0 {
 		return
 	}
-	m.ioend = false
+	var waiters []*writeData
+	defer func() {
+		for _, wd := range waiters {
+			wd.err = err
+			close(wd.done)
+		}
+	}()
 	defer recoverable(&err)
 	bw := bufio.NewWriter(m.fh.file)
+	pos := atomic.LoadInt64(&m.fh.offset)
 	for wd := range m.ch {
 		if wd.done != nil {
-			defer func() { close(wd.done) }()
+			waiters = append(waiters, wd)
 		}
-		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
+		wd.offset = pos
+		if err == nil {
+			_, err = bw.Write(wd.data)
 		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
+		pos += int64(len(wd.data))
 		if atomic.AddInt32(&m.wc, -1) == 0 {
 			break
 		}
 	}
-	m.ioend = true
-	err = bw.Flush()
+	if err == nil {
+		err = bw.Flush()
+	}
+	if err != nil {
+		if end, e := offset(m.fh.file); e == nil { // only part of it was written
+			pos = end
+		}
+	}
+	atomic.StoreInt64(&m.fh.offset, pos)
 	return
 }
-- 
2.43.0


From b90f05b8c6b05144b4277f570459bf70fad837bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 42/47] fix: data queued in fastio is written even when no
 later write comes, and before Close

---
 fastio/file.go |  6 +++++-
 fastio/fw.go   | 25 +++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/fastio/file.go b/fastio/file.go
index 4f4e339..f50731a 100644
--- a/fastio/file.go
+++ b/fastio/file.go
@@ -66,6 +66,10 @@ func (f *fileHandle) Read(b []byte) (n int, err error) {
 }
 
 func (f *fileHandle) Close() (err error) {
+	err = f.writer.Flush()
 	f.isClose = true
-	return f.file.Close()
+	if e := f.file.Close(); err == nil {
+		err = e
+	}
+	return
 }
diff --git a/fastio/fw.go b/fastio/fw.go
index 0e85e3c..25d975f 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -17,6 +17,7 @@ import (
 type writer interface {
 	WriteSync(bs []byte) (offset int64, err error)
 	Write(bs []byte) (n int, err error)
+	Flush() error
 }
 
 type writeData struct {
@@ -42,7 +43,7 @@ func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
 		m.mu.Lock()
-		defer m.mu.Unlock()
+		defer m.unlock()
 		if err = m.ioWrite(); err != nil {
 			return
 		}
@@ -58,7 +59,7 @@ func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
 	for {
 		if m.mu.TryLock() {
 			m.ioWrite() // the outcome of this write is in wd
-			m.mu.Unlock()
+			m.unlock()
 		}
 		select {
 		case <-wd.done:
@@ -72,7 +73,7 @@ func (m *mwriter) Write(bs []byte) (n int, err error) {
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
 		m.mu.Lock()
-		defer m.mu.Unlock()
+		defer m.unlock()
 		if err = m.ioWrite(); err != nil {
 			return
 		}
@@ -85,7 +86,7 @@ func (m *mwriter) Write(bs []byte) (n int, err error) {
 	m.ch <- &writeData{data: append([]byte(nil), bs...)} // the caller may reuse bs
 	if m.mu.TryLock() {
 		err = m.ioWrite()
-		m.mu.Unlock()
+		m.unlock()
 		if err != nil {
 			return
 		}
@@ -93,6 +94,22 @@ func (m *mwriter) Write(bs []byte) (n int, err error) {
 	return len(bs), nil
 }
 
+// Flush writes the queued data.
+func (m *mwriter) Flush() (err error) {
+	m.mu.Lock()
+	defer m.unlock()
+	return m.ioWrite()
+}
+
+// unlock releases the lock, and writes what was queued while others found it taken.
+func (m *mwriter) unlock() {
+	m.mu.Unlock()
+	for atomic.LoadInt32(&m.wc) > 0 && m.mu.TryLock() {
+		m.ioWrite()
+		m.mu.Unlock()
+	}
+}
+
 // ioWrite writes the queued data and tells the waiting writers. The caller holds the lock.
 func (m *mwriter) ioWrite() (err error) {
 	if atomic.LoadInt32(&m.wc) == 0 {
-- 
2.43.0


From b62d6aaf84c1904b77138ab4f9986685bff1c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 43/47] fix: StrToTimeFormat reports a missing time zone
 database instead of panicking

---
 util/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index ff04ae3..34d994e 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -112,7 +112,10 @@ func MatchString(pattern string, s string) bool {
 }
 
 func StrToTimeFormat(s string) (t time.Time, err error) {
-	l, _ := time.LoadLocation("Asia/Shanghai")
+	l, err := time.LoadLocation("Asia/Shanghai")
+	if err != nil {
+		return
+	}
 	t, err = time.ParseInLocation("2006-01-02 15:04:05", s, l)
 	return
 }
-- 
2.43.0


From eefd0cc748767d57c182b8bbcef6d99dbd29c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 44/47] fix: ResizeGIF reports a failed encoding

---
 image/image.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image/image.go b/image/image.go
index 1e4f448..c432c1b 100644
--- a/image/image.go
+++ b/image/image.go
@@ -125,7 +125,9 @@ func ResizeGIF(srcData []byte, targetWidth, targetHeight int) ([]byte, error) {
 	}
 
 	var buf bytes.Buffer
-	gif.EncodeAll(&buf, resizedGif)
+	if err = gif.EncodeAll(&buf, resizedGif); err != nil {
+		return srcData, err
+	}
 
 	return buf.Bytes(), nil
 }
-- 
2.43.0


From 7b4722ac87da33dacac82b0e0862902a796c8702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:05 +0000
Subject: [PATCH 45/47] fix: TreeMap: order keys with cmp.Less, so a NaN key
 does not pass for every other key

---
 hashmap/treemap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/treemap.go b/hashmap/treemap.go
index b58647e..8675fe4 100644
--- a/hashmap/treemap.go
+++ b/hashmap/treemap.go
@@ -19,7 +19,7 @@ type treeItem[K cmp.Ordered, V any] struct {
 }
 
 func (a treeItem[K, V]) Less(b btree.Item) bool {
-	return a.Key < b.(treeItem[K, V]).Key
+	return cmp.Less(a.Key, b.(treeItem[K, V]).Key)
 }
 
 // TreeMap Define the TreeMap structure which internally uses a B-tree for storing data with an RWMutex for concurrent access control.
-- 
2.43.0


From fcade5a09ed10c4dcdacbb33c9d6f642f6fcaf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:22 +0000
Subject: [PATCH 46/47] fix: uuid.Parse rejects a text whose groups are not
 separated by hyphens

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 9bf48b6..81991da 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -96,6 +96,9 @@ func Parse(uuidStr string) (*UUID, error) {
 	if len(uuidStr) != 36 {
 		return nil, errors.New("invalid UUID string length")
 	}
+	if uuidStr[8] != '-' || uuidStr[13] != '-' || uuidStr[18] != '-' || uuidStr[23] != '-' {
+		return nil, errors.New("invalid UUID string format")
+	}
 	var uuid UUID
 	strippedUUID := []byte(uuidStr[:8] + uuidStr[9:13] + uuidStr[14:18] + uuidStr[19:23] + uuidStr[24:])
 	if _, err := hex.Decode(uuid[:], strippedUUID); err != nil {
-- 
2.43.0


From 8ee302e850b4cc653b1a88ab3a7f26279e085727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 47/47] fix: UUID.Variant knows both halves of the RFC 4122
 range

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 81991da..aa3716b 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -83,7 +83,7 @@ func (u *UUID) Equals(other *UUID) bool {
 
 func (u *UUID) Variant() byte {
 	switch u[8] & 0xe0 {
-	case 0x80:
+	case 0x80, 0xa0:
 		return 1 // RFC 4122
 	case 0xc0:
 		return 2 // Microsoft
-- 
2.43.0

