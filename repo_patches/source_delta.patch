From 1bcfb87fdf8d67752315d00209943dae434c9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 01/34] fix: HashSet.Add of a present key must not queue it for
 eviction twice

---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..9ce29fd 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if _, ok := s.m[key]; ok {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From 576fbf0a288a2938eceb0b7635d2f76ad935f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:10 +0000
Subject: [PATCH 02/34] fix: TwoKeyMap keeps its two indexes consistent

---
 collections/two_key_map.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..39ffcd8 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,12 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if old, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, old)
+	}
+	if prev, ok := m.k2Tok1[k2]; ok {
+		delete(m.k1Tok2, prev)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
@@ -56,15 +62,21 @@ func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
-	delete(m.k1Tok2, k1)
+	if k2, ok := m.k1Tok2[k1]; ok {
+		delete(m.k2Tok1, k2)
+		delete(m.k1Tok2, k1)
+	}
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From f6903c15073cdb09f48788d80875748918c16a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 03/34] fix: GuavaMap.Delete of an absent key must not touch a
 missing entry

---
 collections/guava_map.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..f06e12e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -117,15 +117,15 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	v, ok := m.stored[key]
+	if !ok {
+		return
+	}
 	if m.unloadFunc != nil {
-		v := m.stored[key].v
-		go m.unloadFunc(key, v)
+		go m.unloadFunc(key, v.v)
 	}
-	if m.readTimeout > 0 || m.writeTimeout > 0 {
-		v := m.stored[key]
-		if v != nil && v.cancelFn != nil {
-			v.cancelFn()
-		}
+	if v.cancelFn != nil {
+		v.cancelFn()
 	}
 
 	delete(m.stored, key)
-- 
2.43.0


From 799c9c454b31ccd4563e8406ae3b1a0de4c04813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 04/34] fix: GuavaMap.HasOrCreate without a capacity must not
 collect keys forever

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index f06e12e..2a37fea 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -106,8 +106,8 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 			if len(m.storedSlice) >= m.maxCount {
 				m.safeDelete(m.storedSlice[0])
 			}
+			m.storedSlice = append(m.storedSlice, key)
 		}
-		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].timer.Reset(m.readTimeout)
-- 
2.43.0


From 011f5ca71aa7085691559102294720a4b262ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 05/34] fix: GuavaMap.LockForUpdate keeps its lock while held
 and stores like Set

---
 collections/guava_map.go | 61 ++++------------------------------------
 1 file changed, 5 insertions(+), 56 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 2a37fea..1395ea5 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -31,8 +31,7 @@ type guavaHolder[V any] struct {
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
-	updateLockMap      map[K]*sync.Mutex
-	updateLockMapMu    sync.RWMutex
+	updateLock         *MapMutex[K]
 	mu                 sync.RWMutex
 	maxCount           int
 	loadFunc           GuavaLoadFunc[K, V]
@@ -44,17 +43,6 @@ type GuavaMap[K comparable, V any] struct {
 	ctx                context.Context
 }
 
-func (m *GuavaMap[K, V]) getKeyLock(key K) *sync.Mutex {
-	m.updateLockMapMu.Lock()
-	defer m.updateLockMapMu.Unlock()
-	lock, ok := m.updateLockMap[key]
-	if !ok {
-		lock = &sync.Mutex{}
-		m.updateLockMap[key] = lock
-	}
-	return lock
-}
-
 func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	res := &guavaHolder[V]{
 		v: value,
@@ -129,9 +117,6 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 	}
 
 	delete(m.stored, key)
-	//m.updateLockMapMu.Lock()
-	//delete(m.updateLockMap, key)
-	//m.updateLockMapMu.Unlock()
 	if m.maxCount > 0 {
 		for i, k := range m.storedSlice {
 			if k == key {
@@ -140,45 +125,13 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 			}
 		}
 	}
-
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
-	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	lock.Lock()
-	defer lock.Unlock()
+	m.updateLock.Lock(key)
+	defer m.updateLock.Unlock(key)
 	res := update()
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	m.stored[key] = m.createHolder(key, res)
+	m.Set(key, res)
 	return res
 }
 
@@ -203,11 +156,6 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
-	}
 }
 
 func (m *GuavaMap[K, V]) Size() int {
@@ -363,6 +311,7 @@ func (b *GuavaMapBuilder[K, V]) Build() *GuavaMap[K, V] {
 		writeTimeout: b.writeTimeout,
 		readTimeout:  b.readTimeout,
 		ctx:          b.ctx,
+		updateLock:   NewMapMutex[K](),
 	}
 	if b.lockLoad {
 		res.lockLoad = NewMapMutex[K]()
-- 
2.43.0


From bdea91df94890702eeb7fce19882fa01d6fc0652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 06/34] fix: GuavaMap expires only the entry whose timeout ran
 out, reads under the lock

---
 collections/guava_map.go | 116 +++++++++++++++++++++++++--------------
 1 file changed, 74 insertions(+), 42 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 1395ea5..dd43a57 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -24,6 +24,7 @@ type timeoutHolder[K comparable] struct {
 
 type guavaHolder[V any] struct {
 	timer    *time.Timer
+	deadline time.Time
 	cancelFn context.CancelFunc
 	v        V
 }
@@ -50,35 +51,67 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	if m.readTimeout > 0 || m.writeTimeout > 0 {
 		ctx, cancelFn := context.WithCancel(m.ctx)
 		res.cancelFn = cancelFn
-		if m.writeTimeout > 0 {
-			res.timer = time.NewTimer(m.writeTimeout)
-		} else {
-			res.timer = time.NewTimer(m.readTimeout)
+		timeout := m.writeTimeout
+		if timeout <= 0 {
+			timeout = m.readTimeout
 		}
+		res.timer = time.NewTimer(timeout)
+		res.deadline = time.Now().Add(timeout)
 		go func() {
 			defer res.timer.Stop()
-			select {
-			case <-ctx.Done():
-				return
-			case <-res.timer.C:
-				m.mu.Lock()
-				m.safeDelete(key)
-				m.mu.Unlock()
-
+			for {
+				select {
+				case <-ctx.Done():
+					return
+				case <-res.timer.C:
+					if m.expire(key, res) {
+						return
+					}
+				}
 			}
 		}()
 	}
 	return res
 }
 
-func (m *GuavaMap[K, V]) Has(key K) bool {
+// expire deletes the key if it still holds h and h has not been refreshed meanwhile
+func (m *GuavaMap[K, V]) expire(key K, h *guavaHolder[V]) bool {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.stored[key] != h {
+		return true
+	}
+	if left := time.Until(h.deadline); left > 0 {
+		h.timer.Reset(left)
+		return false
+	}
+	m.safeDelete(key)
+	return true
+}
+
+// refresh restarts the timeout of an entry, m.mu must be locked
+func (h *guavaHolder[V]) refresh(timeout time.Duration) {
+	if h.timer != nil && timeout > 0 {
+		h.deadline = time.Now().Add(timeout)
+		h.timer.Reset(timeout)
+	}
+}
+
+// lockRead locks the map for reading; with a read timeout a read changes the deadline of its entry
+func (m *GuavaMap[K, V]) lockRead() (unlock func()) {
+	if m.readTimeout > 0 {
+		m.mu.Lock()
+		return m.mu.Unlock
+	}
 	m.mu.RLock()
-	defer m.mu.RUnlock()
+	return m.mu.RUnlock
+}
+
+func (m *GuavaMap[K, V]) Has(key K) bool {
+	defer m.lockRead()()
 	v, ok := m.stored[key]
 	if ok {
-		if v.timer != nil && m.readTimeout > 0 {
-			v.timer.Reset(m.readTimeout)
-		}
+		v.refresh(m.readTimeout)
 	}
 	return ok
 }
@@ -97,9 +130,7 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 			m.storedSlice = append(m.storedSlice, key)
 		}
 	} else {
-		if m.stored[key].timer != nil && m.readTimeout > 0 {
-			m.stored[key].timer.Reset(m.readTimeout)
-		}
+		m.stored[key].refresh(m.readTimeout)
 	}
 	return ok
 }
@@ -144,12 +175,12 @@ func (m *GuavaMap[K, V]) Delete(key K) {
 func (m *GuavaMap[K, V]) Clear() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if m.unloadFunc != nil {
-		for k, v := range m.stored {
+	for k, v := range m.stored {
+		if m.unloadFunc != nil {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
@@ -164,15 +195,20 @@ func (m *GuavaMap[K, V]) Size() int {
 	return len(m.stored)
 }
 
-func (m *GuavaMap[K, V]) Get(key K) (V, error) {
-	m.mu.RLock()
+// read returns the stored value of the key
+func (m *GuavaMap[K, V]) read(key K) (res V, ok bool) {
+	defer m.lockRead()()
 	val, ok := m.stored[key]
-	m.mu.RUnlock()
 	if ok {
-		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
-		}
-		return val.v, nil
+		val.refresh(m.readTimeout)
+		res = val.v
+	}
+	return res, ok
+}
+
+func (m *GuavaMap[K, V]) Get(key K) (V, error) {
+	if v, ok := m.read(key); ok {
+		return v, nil
 	}
 	if m.loadFunc == nil {
 		var v V
@@ -197,11 +233,9 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	val, ok = m.stored[key]
+	val, ok := m.stored[key]
 	if ok {
-		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
-		}
+		val.refresh(m.readTimeout)
 		return val.v, nil
 	}
 	if m.maxCount > 0 {
@@ -238,12 +272,10 @@ func (m *GuavaMap[K, V]) Set(key K, val V) {
 		}
 		return
 	} else {
-		if v.timer != nil {
-			if m.writeTimeout > 0 {
-				v.timer.Reset(m.writeTimeout)
-			} else {
-				v.timer.Reset(m.readTimeout)
-			}
+		if m.writeTimeout > 0 {
+			v.refresh(m.writeTimeout)
+		} else {
+			v.refresh(m.readTimeout)
 		}
 		v.v = val
 		return
-- 
2.43.0


From 9cbe4af68ef9645804fe6ca1b0bdb8ad7c7f835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 07/34] fix: GuavaMap holds the load lock until the loaded
 value is stored

---
 collections/guava_map.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index dd43a57..9bb5cee 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -219,13 +219,12 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 
 	if m.lockLoad != nil {
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		if v, ok := m.read(key); ok {
+			return v, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
 	}
+	loadedVal, err = m.loadFunc(key)
 
 	if err != nil {
 		var v V
-- 
2.43.0


From 9f96c52744a6c8a4defa58265ec587d91bd84f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 08/34] fix: GuavaMap.GetStored reads the size under the lock

---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 9bb5cee..cbfbf7b 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -248,8 +248,8 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 }
 
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From 3727bbe8116e6f6c1bb5a224a72eb713a3d6525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 09/34] fix: ShardChan routes negative shard values to a shard

---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..2145ccd 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				res.outgoingChans[key] <- msg
 			}
 		}
-- 
2.43.0


From bd1f40bd38c493f43c4d0ac1648a566909a8ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 10/34] fix: chans stop waiting for receivers and senders once
 the context ends

---
 chans/chunk_chan.go | 23 ++++++++++++++++++++---
 chans/shard_chan.go |  6 +++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..a9ac3e2 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -16,7 +16,10 @@ type ChunkChan[T any] struct {
 }
 
 func (c *ChunkChan[T]) Add(item T) {
-	c.incomingChan <- item
+	select {
+	case <-c.ctx.Done():
+	case c.incomingChan <- item:
+	}
 }
 
 func (c *ChunkChan[T]) Incoming() chan T {
@@ -31,6 +34,16 @@ func (c *ChunkChan[T]) Sizes() (int, int) {
 	return len(c.incomingChan), len(c.outgoingChan)
 }
 
+// send delivers the chunk, false if the context ended first
+func (c *ChunkChan[T]) send(chunk []T) bool {
+	select {
+	case <-c.ctx.Done():
+		return false
+	case c.outgoingChan <- chunk:
+		return true
+	}
+}
+
 func (c *ChunkChan[T]) run() {
 	t := time.NewTicker(c.chunkTimeout)
 	defer t.Stop()
@@ -41,13 +54,17 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				if !c.send(chunk) {
+					return
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 2145ccd..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -135,7 +135,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				if key < 0 {
 					key += res.shardCount
 				}
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 199b1d44cd6694ed6de3550e7aa510be35a0bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 11/34] fix: Runner.Run does not wait for a worker once the
 context ended

---
 workers/runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/workers/runner.go b/workers/runner.go
index 4b20cc0..5ab7731 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -20,11 +20,17 @@ type Runner struct {
 }
 
 func (r *Runner) Run(fn RunnerFn) {
-	r.runners <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runners <- fn:
+	}
 }
 
 func (r *Runner) RunWithContext(fn RunnerContextFn) {
-	r.runnersCtx <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runnersCtx <- fn:
+	}
 }
 
 type RunnerBuilder struct {
-- 
2.43.0


From d59ca88213fc6f62cdbc256c1803a6a4671ff168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 12/34] fix: StructUniqSet tells values apart with the
 configured build function

---
 collections/struct_uniq_set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..8054b93 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -98,14 +98,7 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 }
 
 func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
+	return s.build(v)
 }
 
 func (s *StructUniqSet[V]) Count() int {
-- 
2.43.0


From 96847fb7318958fc381b89e8aa1cf2f519e8d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 13/34] fix: StructUniqSet expires exactly the elements whose
 time is up, also the last one

---
 collections/struct_uniq_set.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 8054b93..00bde3b 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -76,20 +76,19 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 			case <-res.ctx.Done():
 				return
 			case <-time.After(res.checkInterval):
-				res.elementsMu.RLock()
-				first := res.ttlElements[0]
-				res.elementsMu.RUnlock()
-				if time.Since(first.createdAt) < res.ttl {
-					continue
-				}
 				res.elementsMu.Lock()
-				for i, el := range res.ttlElements {
+				expired := 0
+				for _, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
 						break
 					}
-					delete(res.elements, el.hash)
+					expired++
+					// the element may have been removed, and added again, meanwhile
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
 				}
+				res.ttlElements = res.ttlElements[expired:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From ee44de96b56732a84a04d521d0b341e9fc35727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 14/34] fix: RequestMap forgets expired results once, and
 expires the initial ones

---
 collections/request_map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..a1eafdd 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -40,8 +40,11 @@ func NewRequestMap[K comparable, V any](ctx context.Context, ttl time.Duration,
 		ctx:         ctx,
 	}
 	if len(init) > 0 {
+		now := time.Now()
 		for _, i := range init {
-			res.response[i.Key] = resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: now}
+			res.response[i.Key] = r
+			res.resultSlice = append(res.resultSlice, r)
 		}
 	}
 	go res.rmWorker()
@@ -71,6 +74,7 @@ func (rm *RequestMap[K, V]) rmWorker() {
 			}
 			delete(rm.response, r.key)
 		}
+		rm.resultSlice = nil
 	}
 
 	for {
-- 
2.43.0


From 0d4b17810b7f4de05dd2662e947177fbbf3227ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 15/34] fix: ResponseMap holders deliver under their lock: no
 lost waiter, no send on a closed channel, first value wins

---
 collections/response_map.go | 85 ++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 52 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..35c1250 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -66,80 +66,61 @@ type ResponseMap[K comparable, V any] struct {
 }
 
 type chansHolder[K comparable, V any] struct {
-	ctx       context.Context
-	cancelCtx context.CancelFunc
 	trx       K
 	t         *time.Timer
 	createdAt time.Time
-	mu        sync.RWMutex
+	mu        sync.Mutex
 	isExist   bool
+	isClosed  bool
 	data      V
-	dataCh    chan V
 	listeners []chan V
 }
 
 func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHolder[K, V] {
-	ctx, cancel := context.WithCancel(context.Background())
 	h := &chansHolder[K, V]{
-		ctx:       ctx,
-		cancelCtx: cancel,
 		trx:       trx,
-		t:         time.NewTimer(timeout),
 		createdAt: time.Now(),
-		dataCh:    make(chan V, 1),
 	}
-	go func() {
-		defer h.t.Stop()
-		for {
-			select {
-			case <-h.ctx.Done():
-				close(h.dataCh)
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				return
-			case <-h.t.C:
-				for _, ch := range h.listeners {
-					close(ch)
-				}
-				h.mu.Lock()
-				h.listeners = nil
-				h.mu.Unlock()
-			case d := <-h.dataCh:
-				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
-				}
-				h.mu.Unlock()
-			}
-		}
-	}()
+	h.t = time.AfterFunc(timeout, h.release)
 	return h
 }
 
+// release lets the listeners go without data
+func (h *chansHolder[K, V]) release() {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	for _, ch := range h.listeners {
+		close(ch)
+	}
+	h.listeners = nil
+}
+
+func (h *chansHolder[K, V]) close() {
+	h.t.Stop()
+	h.mu.Lock()
+	h.isClosed = true
+	h.mu.Unlock()
+	h.release()
+}
+
 func (h *chansHolder[K, V]) set(data V) {
-	h.mu.RLock()
-	exist := h.isExist
-	h.mu.RUnlock()
-	if exist {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.isExist || h.isClosed {
 		return
 	}
-	h.dataCh <- data
+	h.data = data
+	h.isExist = true
+	for _, ch := range h.listeners {
+		ch <- data
+	}
+	h.listeners = nil
 }
 
 func (h *chansHolder[K, V]) wait() V {
-	h.mu.RLock()
-	e := h.isExist
-	h.mu.RUnlock()
-	if e {
-		return h.data
-	}
 	h.mu.Lock()
-	e = h.isExist
-	if e {
-		h.mu.Unlock()
+	if h.isExist || h.isClosed {
+		defer h.mu.Unlock()
 		return h.data
 	}
 	ch := make(chan V, 1)
@@ -196,7 +177,7 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 			r.logger.Debug().Int("should remove", len(remove)).Msg("collect expired holders")
 			r.mu.Lock()
 			for _, holder := range remove {
-				holder.cancelCtx()
+				holder.close()
 				delete(r.m, holder.trx)
 			}
 			r.mu.Unlock()
-- 
2.43.0


From ccc392f67d0f97abd8f614df37842ad7275a2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 16/34] fix: ResponseMap reads its size for the log under the
 lock

---
 collections/response_map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index 35c1250..4a7f2fc 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -165,9 +165,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
+			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			for _, holder := range r.m {
 				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
 					remove = append(remove, holder)
@@ -180,8 +180,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 				holder.close()
 				delete(r.m, holder.trx)
 			}
+			count := len(r.m)
 			r.mu.Unlock()
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.logger.Debug().Int("holders count", count).Msg("successfully cleaned expired holders")
 		}
 	}
 }
-- 
2.43.0


From 8648d05187f353cad9d5265eed63a47a1459ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 17/34] fix: WaitMap times out only the waiters that a timeout
 was started for

---
 collections/wait_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..d66daf5 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,13 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				// only the waiters that this timeout was started for
+				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
+				wm.mu.Unlock()
 			}
 		}()
 	}
@@ -79,7 +84,10 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From 7247de7edee463344f6f0efcc42c619b2d538a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 18/34] fix: HolderMap looks at a holder's state under its
 lock, so that no waiter misses the release

---
 collections/holder_map.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..f84d7cf 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -16,6 +16,19 @@ type holderMapHolder[V any] struct {
 	timeOutTimer    *time.Timer
 	mu              sync.Mutex
 }
+
+func (h *holderMapHolder[V]) wait() error {
+	h.mu.Lock()
+	if h.released {
+		defer h.mu.Unlock()
+		return h.Err
+	}
+	waitChan := make(chan error, 1)
+	h.releaseChanList = append(h.releaseChanList, waitChan)
+	h.mu.Unlock()
+	return <-waitChan
+}
+
 type HolderMap[K comparable, V any] struct {
 	mu                     sync.RWMutex
 	m                      map[K]*holderMapHolder[V]
@@ -29,6 +42,8 @@ func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
@@ -46,29 +61,13 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
-		if h.released {
-			return h.Err
-		} else {
-			waitChan := make(chan error, 1)
-			h.mu.Lock()
-			h.releaseChanList = append(h.releaseChanList, waitChan)
-			h.mu.Unlock()
-			return <-waitChan
-		}
+		return h.wait()
 	} else {
 		c.mu.Lock()
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
-			if h.released {
-				return h.Err
-			} else {
-				waitChan := make(chan error, 1)
-				h.mu.Lock()
-				h.releaseChanList = append(h.releaseChanList, waitChan)
-				h.mu.Unlock()
-				return <-waitChan
-			}
+			return h.wait()
 		} else {
 			waitChan := make(chan error, 1)
 			h = &holderMapHolder[V]{
-- 
2.43.0


From 0e2f6032926be68ff4358726816515f71c44c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 19/34] fix: HolderMap lets its waiters go when the context
 ends

---
 collections/holder_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index f84d7cf..07c83ae 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -84,7 +84,9 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 					h.released = true
 					h.Err = errors.New("timeout")
 				case <-c.ctx.Done():
-					return
+					h.mu.Lock()
+					h.released = true
+					h.Err = c.ctx.Err()
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
-- 
2.43.0


From 67f4c7d049299929f47d183539c9adad78e05517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 20/34] fix: HolderMap.Release and Error of a released holder
 do not block

---
 collections/holder_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 07c83ae..17d4e49 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -17,6 +17,14 @@ type holderMapHolder[V any] struct {
 	mu              sync.Mutex
 }
 
+// send releases the holder; it has no effect if it has been released before
+func (h *holderMapHolder[V]) send(err error) {
+	select {
+	case h.inChan <- err:
+	default:
+	}
+}
+
 func (h *holderMapHolder[V]) wait() error {
 	h.mu.Lock()
 	if h.released {
@@ -129,7 +137,7 @@ func (c *HolderMap[K, V]) Release(trx K) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		h.send(nil)
 		return nil
 	} else {
 		return errors.New("not found")
@@ -141,7 +149,7 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		h.send(err)
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From 23e5b64fce517cac744923089fd5bd0ae29d3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 21/34] fix: ResponseMap.Set is not lost when the key is
 cleared meanwhile

---
 collections/response_map.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index 4a7f2fc..67dbbaf 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -103,11 +103,12 @@ func (h *chansHolder[K, V]) close() {
 	h.release()
 }
 
-func (h *chansHolder[K, V]) set(data V) {
+// set keeps the first data it is given; false if the holder is closed
+func (h *chansHolder[K, V]) set(data V) bool {
 	h.mu.Lock()
 	defer h.mu.Unlock()
-	if h.isExist || h.isClosed {
-		return
+	if h.isClosed || h.isExist {
+		return !h.isClosed
 	}
 	h.data = data
 	h.isExist = true
@@ -115,6 +116,7 @@ func (h *chansHolder[K, V]) set(data V) {
 		ch <- data
 	}
 	h.listeners = nil
+	return true
 }
 
 func (h *chansHolder[K, V]) wait() V {
@@ -130,8 +132,9 @@ func (h *chansHolder[K, V]) wait() V {
 }
 
 func (r *ResponseMap[K, V]) Set(key K, value V) {
-	holder := r.getHolder(key)
-	holder.set(value)
+	for !r.getHolder(key).set(value) {
+		// the holder was cleared meanwhile: take the new one
+	}
 }
 
 func (r *ResponseMap[K, V]) Wait(key K) V {
-- 
2.43.0


From b8db985cb407ab08823d557c72d3abfba4202035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 22/34] fix: AES.Decrypt refuses data shorter than a nonce
 instead of panicking

---
 crypto/aes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..af3c730 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
 type AES struct {
@@ -54,6 +55,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, errors.New("cipher data is too short")
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 8054e2bc12b1e2ec40d597f02ca7c86ca2be7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 23/34] fix: CryptoFSBuilder.AddFolder of a missing folder does
 not panic

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..3214ab9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From 7bfa791f5d48b5899cb1faa56fa499c42d41d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 24/34] fix: a file added to a CryptoFS is named by the last
 element of its path

---
 crypto_fs/crypto_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 3214ab9..ab8688d 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -38,7 +38,7 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 		return b
 	}
 	f := file{
-		FileName: of.Name(),
+		FileName: filepath.Base(path),
 		Path:     path,
 		Data:     data,
 	}
-- 
2.43.0


From 8105bf160d6bc188426c289a3f4934f1629eb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 25/34] fix: modes of CryptoFS entries tell directories from
 files

---
 crypto_fs/crypto_fs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index ab8688d..96814e3 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -200,7 +200,7 @@ type file struct {
 }
 
 func (f file) Type() fs.FileMode {
-	return fs.FileMode(0755)
+	return f.Mode().Type()
 }
 
 func (f file) Info() (fs.FileInfo, error) {
@@ -216,7 +216,10 @@ func (f file) Size() int64 {
 }
 
 func (f file) Mode() fs.FileMode {
-	return fs.FileMode(0)
+	if f.IsDirFlag {
+		return fs.ModeDir | 0755
+	}
+	return fs.FileMode(0444)
 }
 
 func (f file) ModTime() time.Time {
-- 
2.43.0


From 29fbaf9ff7fd2eadcc501e1f97a5aee53f19ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 26/34] fix: reading a CryptoFS file advances and ends

---
 crypto_fs/crypto_fs.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 96814e3..cad2476 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -173,7 +173,7 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, data: bytes.NewReader(f.Data)}, nil
 }
 
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -238,9 +238,17 @@ func (f file) Stat() (fs.FileInfo, error) {
 	return f, nil
 }
 
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
+// openFile is one opening of a file, with its own read position
+type openFile struct {
+	file
+	data *bytes.Reader
+}
+
+func (f *openFile) Read(i []byte) (int, error) {
+	if f.IsDirFlag {
+		return 0, errors.New("is a directory")
+	}
+	return f.data.Read(i)
 }
 
-func (f file) Close() error { return nil }
+func (f *openFile) Close() error { return nil }
-- 
2.43.0


From ae50b99d33cfc9f81cee186df7b20c8d5f1f8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 27/34] fix: a Runner's workers begin no further task once the
 context ended

---
 workers/runner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/workers/runner.go b/workers/runner.go
index 5ab7731..231eff8 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -71,8 +71,14 @@ func (b *RunnerBuilder) Build() *Runner {
 				case <-r.ctx.Done():
 					return
 				case fn := <-r.runners:
+					if r.ctx.Err() != nil {
+						return
+					}
 					fn()
 				case fn := <-r.runnersCtx:
+					if r.ctx.Err() != nil {
+						return
+					}
 					fn(r.ctx)
 				}
 			}
-- 
2.43.0


From cc2c0ae8b934b9b3fc5d4defc061accdfda09184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 28/34] fix: ShardMap takes any result of the shard function,
 negative ones included

---
 collections/shard_map.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/collections/shard_map.go b/collections/shard_map.go
index 34422f5..9f6a28c 100644
--- a/collections/shard_map.go
+++ b/collections/shard_map.go
@@ -17,8 +17,17 @@ type ShardMap[K comparable, V any] struct {
 	shardsCount int
 }
 
+// shardOf returns the index of the shard of the key, whatever the shard function gives for it
+func (m *ShardMap[K, V]) shardOf(key K) int {
+	shard := m.shardsFunc(key) % m.shardsCount
+	if shard < 0 {
+		shard += m.shardsCount
+	}
+	return shard
+}
+
 func (m *ShardMap[K, V]) Get(key K) (V, bool) {
-	shard := m.shardsFunc(key)
+	shard := m.shardOf(key)
 	m.shardsLock[shard].RLock()
 	defer m.shardsLock[shard].RUnlock()
 	v, ok := m.shards[shard][key]
@@ -26,21 +35,21 @@ func (m *ShardMap[K, V]) Get(key K) (V, bool) {
 }
 
 func (m *ShardMap[K, V]) Set(key K, value V) {
-	shard := m.shardsFunc(key)
+	shard := m.shardOf(key)
 	m.shardsLock[shard].Lock()
 	defer m.shardsLock[shard].Unlock()
 	m.shards[shard][key] = value
 }
 
 func (m *ShardMap[K, V]) Delete(key K) {
-	shard := m.shardsFunc(key)
+	shard := m.shardOf(key)
 	m.shardsLock[shard].Lock()
 	defer m.shardsLock[shard].Unlock()
 	delete(m.shards[shard], key)
 }
 
 func (m *ShardMap[K, V]) Has(key K) bool {
-	shard := m.shardsFunc(key)
+	shard := m.shardOf(key)
 	m.shardsLock[shard].RLock()
 	defer m.shardsLock[shard].RUnlock()
 	_, ok := m.shards[shard][key]
@@ -48,7 +57,7 @@ func (m *ShardMap[K, V]) Has(key K) bool {
 }
 
 func (m *ShardMap[K, V]) SetIfNotExists(key K, value V) bool {
-	shard := m.shardsFunc(key)
+	shard := m.shardOf(key)
 	m.shardsLock[shard].Lock()
 	defer m.shardsLock[shard].Unlock()
 	if _, ok := m.shards[shard][key]; ok {
@@ -59,7 +68,7 @@ func (m *ShardMap[K, V]) SetIfNotExists(key K, value V) bool {
 }
 
 func (m *ShardMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {
-	shard := m.shardsFunc(key)
+	shard := m.shardOf(key)
 	m.shardsLock[shard].Lock()
 	defer m.shardsLock[shard].Unlock()
 	if v, ok := m.shards[shard][key]; ok {
-- 
2.43.0


From bbb2d2dfcd3995116d17c6cba5f8ec04da4dfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 29/34] fix: a ChunkChan is independent of further use of its
 builder

---
 chans/chunk_chan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index a9ac3e2..5c52624 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -127,6 +127,8 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
+	cfg := *b // the builder may be used further
+	b = &cfg
 	if b.incomingChan == nil {
 		b.incomingChan = make(chan T, b.incomingBufferSize)
 	}
-- 
2.43.0


From 1ea23e514fcf9f32e670199a900bb579ebda4bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 30/34] fix: a ShardChan is independent of further use of its
 builder

---
 chans/shard_chan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..1e7809e 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -109,6 +109,8 @@ func (b *ShardChanBuilder[T]) WithWorkerFunc(workerFunc WorkerFunc[T]) *ShardCha
 }
 
 func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
+	cfg := *b // the builder may be used further
+	b = &cfg
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-- 
2.43.0


From c7561cb9ef5d83082069ae456580b3b03c03fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 31/34] fix: a ShardChunk is independent of further use of its
 builder

---
 chans/shard_chunk_chan.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..ff1ecb6 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -112,6 +112,8 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
+	cfg := *b // the builder may be used further
+	b = &cfg
 	if b.incomingChan == nil {
 		b.incomingChan = make(chan T, b.incomingBufferSize)
 	}
-- 
2.43.0


From b941268701a5c6fddb468596f58e1656c63d7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 32/34] fix: a flow processor is independent of further use of
 its builder

---
 flow/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow/processor.go b/flow/processor.go
index 88eb7fa..bf2a8d6 100644
--- a/flow/processor.go
+++ b/flow/processor.go
@@ -66,8 +66,9 @@ func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(ev
 }
 
 func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
+	routes := fb.routes // the builder may be used further
 	return func(event E, state S) error {
-		for _, route := range fb.routes {
+		for _, route := range routes {
 			for _, fn := range route.chain {
 				if err := fn(event, state); err != nil {
 					return err
-- 
2.43.0


From 401c5cb414ca3d54bb0f93203318cda78c9f05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 33/34] fix: a ChunkChan whose incoming channel is closed
 invents no items

---
 chans/chunk_chan.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 5c52624..89890c4 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -48,6 +48,7 @@ func (c *ChunkChan[T]) run() {
 	t := time.NewTicker(c.chunkTimeout)
 	defer t.Stop()
 	chunk := make([]T, 0, c.chunkSize)
+	incoming := c.incomingChan
 	for {
 		select {
 		case <-c.ctx.Done():
@@ -59,7 +60,11 @@ func (c *ChunkChan[T]) run() {
 				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
-		case item := <-c.incomingChan:
+		case item, ok := <-incoming:
+			if !ok { // closed: nothing more comes in, what is left goes out at the end of the period
+				incoming = nil
+				continue
+			}
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
 				if !c.send(chunk) {
-- 
2.43.0


From 0bb5dad2a745dfd75446f34e52ad781561b4ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 34/34] fix: a ShardChan whose incoming channel is closed
 invents no items

---
 chans/shard_chan.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 1e7809e..97a43ef 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,7 +132,10 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			select {
 			case <-res.ctx.Done():
 				return
-			case msg := <-res.incomingChan:
+			case msg, ok := <-res.incomingChan:
+				if !ok { // closed: nothing more comes in
+					return
+				}
 				key := res.shardFunc(msg) % res.shardCount
 				if key < 0 {
 					key += res.shardCount
-- 
2.43.0

