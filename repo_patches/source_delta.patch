From a91fd2a609f48aca6c766f79e68749833216ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 01/31] fix: LimitMap evicts before exceeding its capacity

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From 4a4039a102c49b5063f46b29a06662ca11b26ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 02/31] fix: Consistenthash lookups no longer panic once the
 last node is deleted

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From 7f3f33106b719d261ecc85868432eedb84c180ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 03/31] fix: Consistenthash.GetNextNodeStr walks the whole ring

---
 hashmap/consistenthash.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..79b172c 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,8 +108,10 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
+	for i := 1; i < len(t.keys); i++ {
+		if idx++; idx == len(t.keys) {
+			idx = 0
+		}
 		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
-- 
2.43.0


From 063901dc9ba9588161c4b46baf5e1c85dddc456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 04/31] fix: LinkedHashMap.LoadOrStore keeps an existing value
 and returns the stored one

---
 hashmap/linkedhashmap.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..aaaf4ea 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -57,24 +57,20 @@ func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
-		t.count++
-		if t.count > t.limit {
-			if oldest := t.list.Back(); oldest != nil {
-				t.list.Remove(oldest)
-				t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
-			}
-			t.count--
-		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
+	if preelem, ok := t.m.Load(k); ok {
+		t.list.MoveToFront(preelem.(*list.Element))
+		return preelem.(*list.Element).Value.(*entrykv[K, V]).value, true
+	}
+	t.m.Store(k, t.list.PushFront(kv))
+	t.count++
+	if t.count > t.limit {
+		if oldest := t.list.Back(); oldest != nil {
+			t.list.Remove(oldest)
+			t.m.LoadAndDelete(oldest.Value.(*entrykv[K, V]).key)
 		}
+		t.count--
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From 106c633da2df1a7a5fd3bff89373551a59f5551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 05/31] fix: LimitHashMap with a capacity below its segment
 count stays within capacity

---
 hashmap/limithashmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..3b5cb8a 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,9 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	if capacity > 0 && segmentNumber > capacity {
+		segmentNumber = capacity
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From f9911d0fd74fa54876e6c46c8f6fd3c6e1fd8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 06/31] fix: LimitHashMap does not confuse string keys whose
 hashes collide

---
 hashmap/limithashmap.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index 3b5cb8a..d2a8c1a 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -36,6 +36,12 @@ type entry struct {
 	value     any
 }
 
+// holds reports whether the entry belongs to key; different strings can share a hash.
+func (e *entry) holds(key any) bool {
+	s, ok := key.(string)
+	return !ok || e.key == any(s)
+}
+
 // NewLimitHashMap creates a new LimitHashMap with a specified capacity.
 // Parameters:
 //
@@ -152,7 +158,7 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	defer segment.mu.RUnlock()
 
 	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	if ele, ok := segment.cache[hashedKey]; ok && ele.Value.(*entry).holds(key) {
 		if v := ele.Value.(*entry).value; v != nil {
 			return v.(V), true
 		}
@@ -167,6 +173,10 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
+		if e := ele.Value.(*entry); !e.holds(key) {
+			e.key, e.value = key, value
+			return
+		}
 		prev, b = ele.Value.(*entry).value.(V), true
 		ele.Value.(*entry).value = value
 		return
@@ -191,7 +201,7 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	defer segment.mu.Unlock()
 
 	hashedKey := c.hashFunc(key)
-	if ele, ok := segment.cache[hashedKey]; ok {
+	if ele, ok := segment.cache[hashedKey]; ok && ele.Value.(*entry).holds(key) {
 		segment.order.Remove(ele)
 		delete(segment.cache, hashedKey)
 	}
@@ -203,8 +213,8 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	defer segment.mu.RUnlock()
 
 	hashedKey := c.hashFunc(key)
-	_, ok := segment.cache[hashedKey]
-	return ok
+	ele, ok := segment.cache[hashedKey]
+	return ok && ele.Value.(*entry).holds(key)
 }
 
 func (c *LimitHashMap[K, V]) Clear() {
-- 
2.43.0


From ba5246b982ce13e5ef42daad0684bf753655a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:39 +0000
Subject: [PATCH 07/31] fix: BloomFilter bits survive concurrent additions

---
 cache/bloom.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..78f76fe 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -60,7 +60,7 @@ func (bf *BloomFilter) setBit(index uint64) {
 	wordIndex := index / 64
 	bitIndex := index % 64
 	id, _ := bf.getBitIndex()
-	bf.bits[id][wordIndex] |= (uint64(1) << bitIndex)
+	atomic.OrUint64(&bf.bits[id][wordIndex], uint64(1)<<bitIndex)
 }
 
 // testBit checks if the bit at the given index is set (returns true if set, false otherwise).
@@ -70,7 +70,7 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 	bitIndex := index % 64
 	id, prevId := bf.getBitIndex()
 	offset := uint64(1) << bitIndex
-	return (bf.bits[id][wordIndex]&offset) != 0 || (bf.bits[prevId][wordIndex]&offset) != 0
+	return (atomic.LoadUint64(&bf.bits[id][wordIndex])&offset) != 0 || (atomic.LoadUint64(&bf.bits[prevId][wordIndex])&offset) != 0
 }
 
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
-- 
2.43.0


From d5e69921bc8aee8a6872107dc138a2856fcfbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:19 +0000
Subject: [PATCH 08/31] fix: WaitWithCancel without a timeout returns when its
 context is cancelled

---
 lock/await.go     | 10 +++++++++-
 lock/fastawait.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..e1066bf 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -109,7 +109,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, false, nil
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case r = <-ch:
+		}
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..cb351d8 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -87,7 +87,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		r = <-ch
+		select {
+		case <-ctx.Done():
+			defer func() {
+				defer recoverpanic(nil)
+				close(ch)
+			}()
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case r = <-ch:
+		}
 	}
 	return
 }
-- 
2.43.0


From 4023e35433dd8c64ae4bc74f9ccf735552cc3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 09/31] fix: gopool no longer leaves a function queued when Go
 races with the dispatcher going idle

---
 pool/gopool/gopool.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..b62891e 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,7 +11,6 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type funcn struct {
@@ -84,16 +83,20 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 
 func (g *GoPool) Go(f func()) {
 	if !g.close {
-		g.funcnPool <- f
 		atomic.AddInt64(&g.tnum, 1)
-		if g.mux.TryLock() {
-			go g.funcn()
-		}
+		g.funcnPool <- f
+		g.dispatch()
 	} else {
 		go f()
 	}
 }
 
+func (g *GoPool) dispatch() {
+	if g.mux.TryLock() {
+		go g.funcn()
+	}
+}
+
 // NumUnExecu the number of functions not executed
 func (g *GoPool) NumUnExecu() int {
 	return int(g.tnum)
@@ -105,10 +108,6 @@ func (g *GoPool) Close() {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
 		g.close = true
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
 		close(g.pool)
 	}
 }
@@ -122,13 +121,22 @@ func (g *GoPool) TurnOff(off bool) {
 }
 
 func (g *GoPool) funcn() {
-	defer func() { recover() }()
-	defer g.mux.Unlock()
 	g._funcn()
+	g.mux.Unlock()
+	// a Go that found the lock taken after the queue was seen empty left its function behind
+	if len(g.funcnPool) > 0 {
+		g.dispatch()
+	}
 }
 
 func (g *GoPool) _funcn() {
-	for f := range g.funcnPool {
+	for {
+		var f func()
+		select {
+		case f = <-g.funcnPool:
+		default:
+			return
+		}
 		if g.close {
 			go f()
 		} else {
@@ -144,14 +152,8 @@ func (g *GoPool) _funcn() {
 			}
 			t.add(f)
 		}
-		if atomic.AddInt64(&g.tnum, -1) <= 0 {
-			break
-		}
-	}
-	if g.tnum > 0 {
-		g._funcn()
+		atomic.AddInt64(&g.tnum, -1)
 	}
-	return
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-- 
2.43.0


From 9f841fccb962090e69a41bf4d18947cbbe4290c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 10/31] fix: gopool runs at most maxlimit functions at once

---
 pool/gopool/gopool.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index b62891e..580fcca 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -54,7 +54,7 @@ type GoPool struct {
 	minlimit   int64
 	maxlimit   int64
 	id         int64
-	count      int64
+	running    chan struct{}
 	mux        *sync.Mutex
 	funcnPool  chan func()
 	close      bool
@@ -75,6 +75,7 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 	if maxlimit < minlimit {
 		p.maxlimit = minlimit
 	}
+	p.running = make(chan struct{}, p.maxlimit)
 	p.funcnPool = make(chan func(), FuncLimit)
 	p.mux = &sync.Mutex{}
 	p.ctx, p.cancel = context.WithCancel(context.Background())
@@ -140,15 +141,14 @@ func (g *GoPool) _funcn() {
 		if g.close {
 			go f()
 		} else {
+			g.running <- struct{}{}
 			var t *funcn
-			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
+			select {
+			case t = <-g.pool:
+			default:
+			}
+			if t == nil {
 				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
-				t = <-g.pool
-			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
-				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
-			} else {
-				t = <-g.pool
 			}
 			t.add(f)
 		}
@@ -157,7 +157,7 @@ func (g *GoPool) _funcn() {
 }
 
 func (g *GoPool) put(f *funcn) (ok bool) {
-	atomic.AddInt64(&g.count, -1)
+	defer func() { <-g.running }()
 	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
 		g.pool <- f
 		ok = true
-- 
2.43.0


From 324f018bc7326b1836ace8725afda3ccae731421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 11/31] fix: gopool.Close runs every accepted function and does
 not crash on a panicking one

---
 pool/gopool/gopool.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 580fcca..3d00d2c 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -25,6 +25,14 @@ func (fc *funcn) add(f func()) {
 	fc.once.Do(func() {
 		go fc.run()
 	})
+	if fc.pool.ctx.Err() != nil {
+		// closed: the worker may have left already
+		select {
+		case f = <-fc.task:
+			go f()
+		default:
+		}
+	}
 }
 
 func (fc *funcn) run() {
@@ -40,6 +48,11 @@ func (fc *funcn) run() {
 		case f := <-fc.task:
 			f()
 		case <-fc.pool.ctx.Done():
+			select {
+			case f := <-fc.task:
+				f()
+			default:
+			}
 			goto END
 		}
 		if !fc.pool.put(fc) {
@@ -109,7 +122,6 @@ func (g *GoPool) Close() {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
 		g.close = true
 		g.cancel()
-		close(g.pool)
 	}
 }
 
@@ -141,7 +153,13 @@ func (g *GoPool) _funcn() {
 		if g.close {
 			go f()
 		} else {
-			g.running <- struct{}{}
+			select {
+			case g.running <- struct{}{}:
+			case <-g.ctx.Done():
+				go f()
+				atomic.AddInt64(&g.tnum, -1)
+				continue
+			}
 			var t *funcn
 			select {
 			case t = <-g.pool:
-- 
2.43.0


From 5b7f65d84eb2c19201969c22c79971b534563956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 12/31] fix: util.Zlib finishes the stream before returning it

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..4848ec1 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From f3b971c9b47ecfa709bf6ee58b390baa0ff959a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 13/31] fix: util.UnZlib and util.UnGzip report damaged or
 truncated input

---
 util/compress.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 4848ec1..53a08ba 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -37,7 +37,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
@@ -56,11 +58,14 @@ func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 		var bs = make([]byte, 1024)
 		for {
 			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
+			n, err = gz.Read(bs)
+			_bb.Write(bs[:n])
+			if err == io.EOF {
+				err = nil
+				break
+			} else if err != nil {
 				break
 			}
-			_bb.Write(bs[:n])
 		}
 	} else {
 		err = er
-- 
2.43.0


From 51d02576ed1e0010ee64dc09c337c72ba8e62e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 14/31] fix: compress.ZlibLevel finishes the stream before
 returning it

---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From df5a7d758a759bb951f95bd94086cd93c35128c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 15/31] fix: Buffer.Read consumes what it returns and ends with
 io.EOF

---
 buffer/buffer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..539e906 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -103,9 +103,11 @@ func (b *Buffer) Read(p []byte) (n int, err error) {
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
+	if b.Len() == 0 && len(p) > 0 {
+		return 0, io.EOF
 	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From caf5d47282eb823e53c3dcd2cbd283928adffc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:08 +0000
Subject: [PATCH 16/31] fix: Buffer.WriteInt32 returns the number of bytes
 written

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 539e906..cbf5479 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From 8f3ffe6a042a849a21af164a392d70caa69af9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 17/31] fix: fastio writes complete with their own result, and
 a failed batch no longer blocks the file

Write acknowledged data that was only queued (lost if the file was closed or
the process ended, and read from the caller's slice later); a failed batch left
the lock held and the other writers of the batch unaware, and the offset wrong.
---
 fastio/fw.go | 95 +++++++++++++++++++++++++++-------------------------
 1 file changed, 49 insertions(+), 46 deletions(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..40b333f 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -9,6 +9,7 @@ package fastio
 
 import (
 	"bufio"
+	"io"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -22,6 +23,7 @@ type writer interface {
 type writeData struct {
 	data   []byte
 	offset int64
+	err    error
 	done   chan struct{}
 }
 
@@ -57,71 +59,72 @@ func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
 	m.ch <- wd
 START:
 	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
+		m.ioWrite()
 		m.mu.Unlock()
-	} else {
-		select {
-		case <-wd.done:
-			goto END
-		case <-time.After(time.Microsecond):
-			goto START
-		}
 	}
-END:
-	offset = wd.offset
-	return
+	select {
+	case <-wd.done:
+	case <-time.After(time.Microsecond):
+		goto START
+	}
+	return wd.offset, wd.err
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
-	defer atomic.AddInt32(&m.cc, -1)
-	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
-		if n, err = m.fh.file.Write(bs); n > 0 {
-			atomic.AddInt64(&m.fh.offset, int64(n))
-		}
-		return n, err
+	if _, err = m.WriteSync(bs); err == nil {
+		n = len(bs)
 	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
-	}
-	return len(bs), nil
+	return
 }
 
+// ioWrite writes the queued data in one batch and completes each item with its
+// own result; the caller holds the lock.
 func (m *mwriter) ioWrite() (err error) {
 	if m.wc == 0 {
 		return
 	}
 	m.ioend = false
+	start := m.fh.offset
+	cw := &countWriter{w: m.fh.file}
+	var batch []*writeData
+	defer func() {
+		// what did not reach the file has failed
+		m.fh.offset = start + cw.n
+		for _, wd := range batch {
+			if err != nil && wd.offset+int64(len(wd.data)) > m.fh.offset {
+				wd.err = err
+			}
+			close(wd.done)
+		}
+		m.ioend = true
+	}()
 	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
+	bw := bufio.NewWriter(cw)
+	off := start
 	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
-		}
-		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
+		batch = append(batch, wd)
+		wd.offset = off
+		off += int64(len(wd.data))
+		if _, e := bw.Write(wd.data); e != nil && err == nil {
+			err = e
 		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
 		if atomic.AddInt32(&m.wc, -1) == 0 {
 			break
 		}
 	}
-	m.ioend = true
-	err = bw.Flush()
+	if err == nil {
+		err = bw.Flush()
+	}
+	return
+}
+
+type countWriter struct {
+	w io.Writer
+	n int64
+}
+
+func (c *countWriter) Write(bs []byte) (n int, err error) {
+	n, err = c.w.Write(bs)
+	c.n += int64(n)
 	return
 }
-- 
2.43.0


From 3a7057504091505cafb1640df869c65ec3a1b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:35 +0000
Subject: [PATCH 18/31] fix: AppendSync and WriteAtSync of nothing at the end
 of a mapping do not panic

---
 mmap/sync_unix.go    | 3 +++
 mmap/sync_windows.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mmap/sync_unix.go b/mmap/sync_unix.go
index e5f1826..b832038 100644
--- a/mmap/sync_unix.go
+++ b/mmap/sync_unix.go
@@ -19,6 +19,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	pageSize := int64(unix.Getpagesize())
 	var ptr unsafe.Pointer
 	var leng uintptr
diff --git a/mmap/sync_windows.go b/mmap/sync_windows.go
index f4f2894..8ac16b7 100644
--- a/mmap/sync_windows.go
+++ b/mmap/sync_windows.go
@@ -18,6 +18,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	hFile := windows.Handle(file.Fd())
 	bs := mappedMemory[n:(n + int64(length))]
 	err = windows.FlushViewOfFile(uintptr(unsafe.Pointer(&bs[0])), uintptr(len(bs)))
-- 
2.43.0


From d4fff7092712a70b670b3b11bb82a3293d0148eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:32 +0000
Subject: [PATCH 19/31] fix: keystore writes replace the file atomically and
 durably

Write truncated the file and wrote in place without syncing: a crash or a disk
error in between lost the stored keys, and Read then returned a partial blob
without an error (or panicked when the file could not be examined).
---
 keystore/bin.go | 50 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..a59c149 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -10,8 +10,9 @@ package keystore
 import (
 	"errors"
 	"fmt"
-	"io"
 	"os"
+	"path/filepath"
+	"runtime"
 	"sync"
 
 	"github.com/donnie4w/gofer/util"
@@ -20,9 +21,8 @@ import (
 var KeyStore *_keyStore
 
 type _keyStore struct {
-	mux          *sync.Mutex
-	fname        string
-	_fileHandler *os.File
+	mux   *sync.Mutex
+	fname string
 }
 
 func NewKeyStore(dir string, name string) (ks *_keyStore, err error) {
@@ -36,7 +36,8 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 	fname := fmt.Sprint(dir, "/", name)
 	var _fileHandler *os.File
 	if _fileHandler, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0666); err == nil {
-		ks = &_keyStore{&sync.Mutex{}, fname, _fileHandler}
+		_fileHandler.Close()
+		ks = &_keyStore{&sync.Mutex{}, fname}
 	}
 	return
 }
@@ -44,20 +45,51 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 func (this *_keyStore) Write(bs []byte) (err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	this._fileHandler.Seek(0, io.SeekStart)
-	this._fileHandler.Truncate(0)
 	var obs []byte
 	if obs, err = util.Zlib(bs); err != nil {
 		obs = bs
 	}
-	_, err = this._fileHandler.Write(obs)
+	return replaceFile(this.fname, obs)
+}
+
+// replaceFile makes bs the content of the file in one step, durably: a crash
+// leaves the old content or the new one.
+func replaceFile(fname string, bs []byte) (err error) {
+	tmp := fname + ".tmp"
+	f, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return
+	}
+	if _, err = f.Write(bs); err == nil {
+		err = f.Sync()
+	}
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Rename(tmp, fname)
+	}
+	if err != nil {
+		os.Remove(tmp)
+		return
+	}
+	if runtime.GOOS != "windows" { // directories cannot be synced there
+		var d *os.File
+		if d, err = os.Open(filepath.Dir(fname)); err == nil {
+			err = d.Sync()
+			d.Close()
+		}
+	}
 	return
 }
 
 func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	fi, err := this._fileHandler.Stat()
+	fi, err := os.Stat(this.fname)
+	if err != nil {
+		return nil, err
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0


From 1ce7b5bfb04329df5a4db13123b4d8e66fd8b002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:29 +0000
Subject: [PATCH 20/31] fix: websocket OnError gets the reason when Close ends
 the read loop

---
 websocket/wshandle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..074218b 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -124,6 +124,9 @@ func (wh *Handler) read() {
 			go wh.Cfg.OnMessage(wh, byt)
 		}
 	}
+	if err == nil {
+		err = wh.err
+	}
 	if wh.Cfg.OnError != nil {
 		go wh.Cfg.OnError(wh, err)
 	}
-- 
2.43.0


From 7b09d8815b118925faeb0b7d87f05f1bbc51d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:03 +0000
Subject: [PATCH 21/31] fix: websocket TimeOut bounds the whole opening
 handshake

---
 websocket/wshandle.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 074218b..db13063 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -8,6 +8,7 @@
 package websocket
 
 import (
+	"context"
 	"crypto/tls"
 	"crypto/x509"
 	"errors"
@@ -44,8 +45,12 @@ type Handler struct {
 func NewHandler(cfg *Config) (wh *Handler, err error) {
 	var conn *wss.Conn
 	config := &wss.Config{Version: wss.ProtocolVersionHybi13}
+	ctx := context.Background()
 	if cfg.TimeOut > 0 {
 		config.Dialer = &net.Dialer{Timeout: cfg.TimeOut}
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, cfg.TimeOut)
+		defer cancel()
 	}
 	if strings.HasPrefix(cfg.Url, "wss:") {
 		if cfg.CertFiles != nil {
@@ -74,7 +79,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 	}
 	if config.Location, err = url.ParseRequestURI(cfg.Url); err == nil {
 		if config.Origin, err = url.ParseRequestURI(cfg.Origin); err == nil {
-			conn, err = wss.DialConfig(config)
+			conn, err = config.DialContext(ctx)
 		}
 	}
 	if err == nil && conn != nil {
-- 
2.43.0


From 80936eed6b4006cd9dc996e6b46e03382ceafc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 22/31] fix: UUID.Equals compares the values, not the pointers

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..b63c5c1 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -78,7 +78,7 @@ func (u *UUID) Equals(other *UUID) bool {
 	if other == nil {
 		return false
 	}
-	return u == other
+	return u != nil && *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From b706a40efc07ae41475803ceb2305d220987db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 23/31] fix: Aes.EncrypterCbc does not encrypt in the caller's
 slice

---
 keystore/aes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..f75d96f 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -31,7 +31,8 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = make([]byte, 0, len(src)+len(bs))
+		_r = append(append(_r, src...), bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
-- 
2.43.0


From 433d0f73bacdc0b68c28c3e86d525fc286e58f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 24/31] fix: Aes.DecrypterCbc reports damaged ciphertext

---
 keystore/aes.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index f75d96f..17bf964 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -43,10 +44,17 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		if len(bs) == 0 || len(bs)%c.BlockSize() != 0 {
+			return nil, errors.New("invalid ciphertext length")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		padding := int(_r[len(_r)-1])
+		if padding == 0 || padding > c.BlockSize() || !bytes.Equal(_r[len(_r)-padding:], bytes.Repeat([]byte{byte(padding)}, padding)) {
+			return nil, errors.New("invalid padding")
+		}
+		_r = _r[:len(_r)-padding]
 	} else {
 		err = e
 	}
-- 
2.43.0


From 670cb17a787824154b6428a5967bffbf23e1e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 25/31] fix: RSA encryption and decryption report an unusable
 key

---
 keystore/key.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..331e9a9 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -111,11 +111,18 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
 	defer _recovr()
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
-	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
-		publicKey := parsePublicKey.(*rsa.PublicKey)
-		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	if pubDecodeBlock == nil {
+		return nil, errors.New("invalid public key")
 	}
-	return
+	parsePublicKey, err := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
+	}
+	publicKey, ok := parsePublicKey.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not an RSA public key")
+	}
+	return rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
@@ -139,10 +146,14 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
 	defer _recovr()
 	priDecodeBlock, _ := pem.Decode(privateBs)
-	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
-		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	if priDecodeBlock == nil {
+		return nil, errors.New("invalid private key")
+	}
+	privateKey, err := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes)
+	if err != nil {
+		return nil, err
 	}
-	return
+	return rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
 }
 
 func _recovr() {
-- 
2.43.0


From 97bc87eb9f92455151d6eb8bb000daa0b3036452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:52 +0000
Subject: [PATCH 26/31] fix: Map.Put and MapL.Put report a replaced nil value
 as replaced

---
 hashmap/map.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..7b8a48a 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
-- 
2.43.0


From 7e8816554533358dbb6acae7b7df4bee84501873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:52 +0000
Subject: [PATCH 27/31] fix: LimitHashMap holds nil values: Put over one no
 longer panics and Get finds it

---
 hashmap/limithashmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index d2a8c1a..7369308 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -160,8 +160,9 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok && ele.Value.(*entry).holds(key) {
 		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
+			r = v.(V)
 		}
+		b = true
 	}
 	return
 }
@@ -177,7 +178,10 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 			e.key, e.value = key, value
 			return
 		}
-		prev, b = ele.Value.(*entry).value.(V), true
+		if v := ele.Value.(*entry).value; v != nil {
+			prev = v.(V)
+		}
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From d48fc07e99b2d1b9721895b2d9a893358420b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 28/31] fix: a BloomFilter for few items with a high error rate
 has at least one word

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 78f76fe..99ac89d 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -37,6 +37,9 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 	}
 	wordSize := uint64(64)
 	words := (uint64(m) + wordSize - 1) / wordSize
+	if words == 0 {
+		words = 1
+	}
 	seeds := make([]maphash.Seed, k)
 	for i := range seeds {
 		seeds[i] = maphash.MakeSeed()
-- 
2.43.0


From 0213eaf3c0a76937b41bbf43240e72f868676565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 29/31] fix: mmap refuses negative and overflowing offsets
 instead of panicking

---
 mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..0df3801 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -28,7 +28,7 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
+	if startOffset < 0 || startOffset >= fif.Size() {
 		return nil, errors.New("offset Exceeds the file limit")
 	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
@@ -66,7 +66,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
-- 
2.43.0


From f05bacbbf8d7418bbf4e279deecf4a3e721d62a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 30/31] fix: websocket Close returns although the peer has
 stopped reading

---
 websocket/wshandle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index db13063..37ba1be 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -105,9 +105,14 @@ func (wh *Handler) Send(bs []byte) error {
 	return wh.sendws(bs)
 }
 
+// closeTimeout is how long Close waits for a peer that has stopped reading.
+const closeTimeout = 5 * time.Second
+
 func (wh *Handler) Close() (err error) {
 	wh.err = errors.New("connection is closed")
 	if wh.conn != nil {
+		// the close frame has to wait for a Send that is blocked, and may block itself
+		wh.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
 		err = wh.conn.Close()
 	}
 	return
-- 
2.43.0


From c91da5f5bca61b49c9c297fcc0aff4a00165a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:39 +0000
Subject: [PATCH 31/31] fix: StrToTimeFormat returns an error where the time
 zone is unknown instead of panicking

---
 util/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index ff04ae3..34d994e 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -112,7 +112,10 @@ func MatchString(pattern string, s string) bool {
 }
 
 func StrToTimeFormat(s string) (t time.Time, err error) {
-	l, _ := time.LoadLocation("Asia/Shanghai")
+	l, err := time.LoadLocation("Asia/Shanghai")
+	if err != nil {
+		return
+	}
 	t, err = time.ParseInLocation("2006-01-02 15:04:05", s, l)
 	return
 }
-- 
2.43.0

