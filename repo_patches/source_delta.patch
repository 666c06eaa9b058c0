From 64e86c30c09df28dbbb5e781d137d771800da9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 01/29] fix: confstore Update persists accepted values instead
 of rejected ones

---
 confstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/store.go b/confstore/store.go
index 0ae24ce..2b9dded 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -125,7 +125,7 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
 	err := m.UpdateNoPersist(key, value)
-	if err != nil {
+	if err == nil && key != "" {
 		err2 := m.persister.Save(key, value)
 		if err2 != nil {
 			simplelog.ErrLogger.Printf("error happened when persist key[%s] value[%s]\n", key, value)
-- 
2.43.0


From 3d38466f2acb89ffe936d09f41752f0c7817bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 02/29] fix: confstore BatchUpdate persists exactly the
 accepted entries

---
 confstore/store.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/confstore/store.go b/confstore/store.go
index 2b9dded..a22090f 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -100,25 +100,17 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
 		if error != nil {
 			errors = append(errors, error)
+		} else if kvStr.Key != "" {
+			okKvStrs = append(okKvStrs, kvStr)
 		}
 	}
 
 	// batch persist kvStrs
-	errorKeys := make(map[string]bool)
-	for _, kvError := range errors {
-		errorKeys[kvError.Key] = true
-	}
-	okKvStrs := make([]*KVStr, 0, len(kvStrs))
-	for _, kvStr := range kvStrs {
-		if errorKeys[kvStr.Key] {
-			continue
-		}
-		okKvStrs = append(okKvStrs, kvStr)
-	}
 	m.persister.BatchSave(okKvStrs)
 	return errors
 }
-- 
2.43.0


From e5c3f85628888693cb436fa9d75e48d16bd7ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 03/29] fix: confstore update no longer resurrects a key that
 is deregistered concurrently

---
 confstore/store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/confstore/store.go b/confstore/store.go
index a22090f..d015af0 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -132,9 +132,10 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		return nil
 	}
 
+	// held until the value is stored, so that the key can't be deregistered in between
 	m.kvProcessorLock.RLock()
+	defer m.kvProcessorLock.RUnlock()
 	p, hit := m.kvProcessor[key]
-	m.kvProcessorLock.RUnlock()
 
 	if !hit {
 		return &KVError{
-- 
2.43.0


From 6d8da06c05d01f7a3b2a7637fcf3ed9e84495d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:48 +0000
Subject: [PATCH 04/29] fix: event CollectTimeout ends when the receiver is
 closed

---
 event/bus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event/bus.go b/event/bus.go
index fe214a0..3a29ad9 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -159,7 +159,10 @@ func (r *Receiver) CollectTimeout(timeout time.Duration) (data []interface{}) {
 drained:
 	for {
 		select {
-		case d := <-r.C:
+		case d, ok := <-r.C:
+			if !ok {
+				break drained
+			}
 			data = append(data, d)
 		case <-timer.C:
 			break drained
-- 
2.43.0


From d40b3c9549db88800b0b4d6a6607bb8633e6e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 05/29] fix: event CollectTimeout returns the events delivered
 before the timeout expired

---
 event/bus.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/event/bus.go b/event/bus.go
index 3a29ad9..05a717e 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -165,6 +165,16 @@ drained:
 			}
 			data = append(data, d)
 		case <-timer.C:
+			// events that had been delivered when the timeout expired
+			for n := len(r.ch); n > 0; n-- {
+				select {
+				case d, ok := <-r.C:
+					if ok {
+						data = append(data, d)
+					}
+				default:
+				}
+			}
 			break drained
 		}
 	}
-- 
2.43.0


From a827e305a5c910e365fd13bc0318ad9580203035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 06/29] fix: event receivers can be closed twice, after the
 bus, and while the dispatcher is blocked

---
 event/bus.go | 55 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/event/bus.go b/event/bus.go
index 05a717e..5e1264f 100644
--- a/event/bus.go
+++ b/event/bus.go
@@ -68,6 +68,7 @@ func (b *FanOutBus) NewRecvStrategy(name string, bufSize int, fullStrategy FullS
 		name:     name,
 		bus:      b,
 		strategy: fullStrategy,
+		done:     make(chan struct{}),
 	}
 
 	b.recvMapLock.Lock()
@@ -87,7 +88,7 @@ func (b *FanOutBus) Close() {
 	close(b.ch)
 	b.recvMapLock.Lock()
 	for name, recv := range b.recvMap {
-		close(recv.ch)
+		recv.closeCh()
 		delete(b.recvMap, name)
 	}
 	b.recvMapLock.Unlock()
@@ -95,19 +96,30 @@ func (b *FanOutBus) Close() {
 
 func (b *FanOutBus) doDispatch() {
 	for event := range b.ch {
-		b.recvMapLock.RLock()
-		for _, recv := range b.recvMap {
+		for _, recv := range b.receivers() {
 			recv.onEvent(event)
 		}
-		b.recvMapLock.RUnlock()
 	}
 }
 
-func (b *FanOutBus) deregisterRecv(name string) {
+// the currently registered receivers, the lock must not be held while an event is handed to a (blocking) receiver
+func (b *FanOutBus) receivers() []*Receiver {
+	b.recvMapLock.RLock()
+	defer b.recvMapLock.RUnlock()
+	recvs := make([]*Receiver, 0, len(b.recvMap))
+	for _, recv := range b.recvMap {
+		recvs = append(recvs, recv)
+	}
+	return recvs
+}
+
+func (b *FanOutBus) deregisterRecv(recv *Receiver) {
 	b.recvMapLock.Lock()
-	close(b.recvMap[name].ch)
-	delete(b.recvMap, name)
+	if b.recvMap[recv.name] == recv {
+		delete(b.recvMap, recv.name)
+	}
 	b.recvMapLock.Unlock()
+	recv.closeCh()
 }
 
 // Strategy for when Receiver.C is full
@@ -127,11 +139,24 @@ type Receiver struct {
 	name     string
 	bus      *FanOutBus
 	strategy FullStrategy
+
+	closeOnce sync.Once
+	done      chan struct{} // closed first when closing, releases a dispatcher blocked on ch
+	sendLock  sync.Mutex    // held while sending to or closing ch
 }
 
 // Close Receiver.C, deregistered itself from event bus
 func (r *Receiver) Close() {
-	r.bus.deregisterRecv(r.name)
+	r.bus.deregisterRecv(r)
+}
+
+func (r *Receiver) closeCh() {
+	r.closeOnce.Do(func() {
+		close(r.done)
+		r.sendLock.Lock()
+		close(r.ch)
+		r.sendLock.Unlock()
+	})
 }
 
 // Drain drains Receiver.C until it's empty
@@ -182,6 +207,15 @@ drained:
 }
 
 func (r *Receiver) onEvent(v interface{}) {
+	r.sendLock.Lock()
+	defer r.sendLock.Unlock()
+
+	select {
+	case <-r.done:
+		return
+	default:
+	}
+
 	switch r.strategy {
 	case Drop:
 		select {
@@ -190,6 +224,9 @@ func (r *Receiver) onEvent(v interface{}) {
 			log.Println("receiver[", r.name, "]: can't catch-up, dropping event")
 		}
 	case Block:
-		r.ch <- v
+		select {
+		case r.ch <- v:
+		case <-r.done:
+		}
 	}
 }
-- 
2.43.0


From 72c194a4164a9d6dda7f1dda2818db1db4ade204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:21 +0000
Subject: [PATCH 07/29] fix: fixed window boundaries are computed exactly

---
 ratelimiter/fixedwindow.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/fixedwindow.go b/ratelimiter/fixedwindow.go
index c7abf31..9aee536 100644
--- a/ratelimiter/fixedwindow.go
+++ b/ratelimiter/fixedwindow.go
@@ -19,7 +19,6 @@ package ratelimiter
 
 import (
 	gtime "github.com/chanjarster/gears/util/time"
-	"math"
 	"sync"
 	"time"
 )
@@ -99,6 +98,13 @@ func (s *SyncFixedWindow) reset(ts int64) {
 	if s.contains(ts) {
 		return
 	}
-	s.until += int64(math.Ceil(float64(ts-s.until)/float64(s.windowSize))) * s.windowSize
+	if s.windowSize > 0 {
+		// integer arithmetic, because float64 can't represent nanosecond timestamps exactly
+		n := (ts - s.until) / s.windowSize
+		if (ts-s.until)%s.windowSize > 0 {
+			n++
+		}
+		s.until += n * s.windowSize
+	}
 	s.count = 0
 }
-- 
2.43.0


From 0fdf55be1048b469ea4067f1d6c22435c3e70abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:52 +0000
Subject: [PATCH 08/29] fix: token buckets do not issue tokens for the time
 during which they were full

---
 ratelimiter/tokenbucket.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index 7ded46a..babd72b 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -83,10 +83,12 @@ func (t *SyncTokenBucket) Acquire() bool {
 }
 
 func (t *SyncTokenBucket) issueIfNecessary() {
+	now := t.nowFn().UnixNano()
 	if t.tokens >= t.capacity {
+		// nothing is issued while the bucket is full
+		t.lastIssueTimestamp = now
 		return
 	}
-	now := t.nowFn().UnixNano()
 
 	elapse := now - t.lastIssueTimestamp
 	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
@@ -139,13 +141,15 @@ func (t *AtomicTokenBucket) issueIfNecessary() {
 
 	for {
 		oldTokens := atomic.LoadInt64(&t.tokens)
+		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
+		now := t.nowFn().UnixNano()
+
 		if oldTokens >= int64(t.capacity) {
+			// nothing is issued while the bucket is full
+			atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)
 			return
 		}
 
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		now := t.nowFn().UnixNano()
-
 		nowNano := now
 		elapse := nowNano - oldLit
 		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
-- 
2.43.0


From 97770612778375d0723bd6a7e83ab6fa9ed73df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:52 +0000
Subject: [PATCH 09/29] fix: atomic token bucket never issues the tokens of one
 period twice

---
 ratelimiter/tokenbucket.go | 58 +++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/ratelimiter/tokenbucket.go b/ratelimiter/tokenbucket.go
index babd72b..abe6098 100644
--- a/ratelimiter/tokenbucket.go
+++ b/ratelimiter/tokenbucket.go
@@ -112,6 +112,7 @@ type AtomicTokenBucket struct {
 	tokens             int64 // currently issued tokens amount
 	issueRatePerSecond int   // token issuing rate(per second)
 	lastIssueTimestamp int64 // last time of issuing tokens
+	issueLock          sync.Mutex
 	nowFn              gtime.NowFunc
 }
 
@@ -139,43 +140,36 @@ func (t *AtomicTokenBucket) Acquire() bool {
 
 func (t *AtomicTokenBucket) issueIfNecessary() {
 
-	for {
-		oldTokens := atomic.LoadInt64(&t.tokens)
-		oldLit := atomic.LoadInt64(&t.lastIssueTimestamp)
-		now := t.nowFn().UnixNano()
-
-		if oldTokens >= int64(t.capacity) {
-			// nothing is issued while the bucket is full
-			atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, now)
-			return
-		}
-
-		nowNano := now
-		elapse := nowNano - oldLit
-		delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
+	now := t.nowFn().UnixNano()
+	elapse := now - atomic.LoadInt64(&t.lastIssueTimestamp)
+	if elapse < int64(time.Second) && atomic.LoadInt64(&t.tokens) < int64(t.capacity) {
+		return
+	}
 
-		if delta == 0 {
-			return
-		}
+	// tokens and lastIssueTimestamp change together, otherwise the tokens of one period could be issued twice
+	t.issueLock.Lock()
+	defer t.issueLock.Unlock()
 
-		if oldTokens+delta > int64(t.capacity) {
-			delta = int64(t.capacity) - oldTokens
-		}
+	now = t.nowFn().UnixNano()
+	oldTokens := atomic.LoadInt64(&t.tokens)
+	if oldTokens >= int64(t.capacity) {
+		// nothing is issued while the bucket is full
+		atomic.StoreInt64(&t.lastIssueTimestamp, now)
+		return
+	}
 
-		s1 := atomic.CompareAndSwapInt64(&t.tokens, oldTokens, oldTokens+delta)
-		if !s1 {
-			continue
-		}
+	elapse = now - atomic.LoadInt64(&t.lastIssueTimestamp)
+	delta := elapse / int64(time.Second) * int64(t.issueRatePerSecond)
 
-		s2 := atomic.CompareAndSwapInt64(&t.lastIssueTimestamp, oldLit, nowNano)
-		if !s2 {
-			if s1 {
-				atomic.AddInt64(&t.tokens, -delta)
-			}
-			continue
-		}
+	if delta == 0 {
+		return
+	}
 
-		break
+	if oldTokens+delta > int64(t.capacity) {
+		delta = int64(t.capacity) - oldTokens
 	}
 
+	atomic.AddInt64(&t.tokens, delta)
+	atomic.StoreInt64(&t.lastIssueTimestamp, now)
+
 }
-- 
2.43.0


From 8184613f3624c0743d770a4429250e49b752daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 10/29] fix: redis ttl limiter remembers requests for the whole
 window

---
 ratelimiter/ttl_ratelimiter_redis.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index c0e5f6d..26dc41a 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -58,6 +58,8 @@ local win = tonumber(ARGV[2])
 local exp = tonumber(ARGV[3])
 local now = tonumber(ARGV[4])
 local msg = ARGV[5]
+-- requests must not be forgotten before the window has passed
+local keep = math.max(exp * 2, win + 1)
 
 if cap <= 0 or win <= 0 or exp <= 0
 then
@@ -75,7 +77,7 @@ local size = redis.call('LLEN', key)
 if size < cap
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, keep)
   return {0, 0, 0, ''}
 end
 
@@ -93,7 +95,7 @@ local list = redis.call('LRANGE', key, 0, 0)
 if table.getn(list) == 0
 then
   redis.call('RPUSH', key, now)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, keep)
   return {0, 0, 0, ''}
 end
 
@@ -102,7 +104,7 @@ if now - oldest > win
 then
   redis.call('RPUSH', key, now)
   redis.call('LPOP', key)
-  redis.call('EXPIRE', key, exp * 2)
+  redis.call('EXPIRE', key, keep)
   return {0, 0, 0, ''}
 end
 
-- 
2.43.0


From 5057238f374db7e7e08cd79c6fffc25476f0227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 11/29] fix: redis ttl limiter reports a positive ttl until the
 block ends

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 26dc41a..15d0efb 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -68,7 +68,7 @@ end
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
@@ -117,7 +117,7 @@ return {1, 1, exp, msg}
 
 if redis.call('EXISTS', keyb) == 1
 then
-  local ttl = redis.call('TTL', keyb)
+  local ttl = math.max(redis.call('TTL', keyb), 1)
   local omsg = redis.call('GET', keyb)
   return {1, 0, ttl, omsg}
 end
-- 
2.43.0


From 639b14936c9a3a778fad6ede99bce1a1205fb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:26 +0000
Subject: [PATCH 12/29] fix: redis ttl limiter IsBlocked uses the hash tag in
 cluster mode

---
 ratelimiter/ttl_ratelimiter_redis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 15d0efb..952fbb3 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -165,6 +165,10 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	result := &Result{}
 	blockKey = blockKey + suffix
 
+	if r.hashTag != "" {
+		blockKey = blockKey + r.hashTag
+	}
+
 	//local keyb = KEYS[1]
 	raw, err := r.redisClient.WithContext(ctx).EvalSha(
 		scriptSha2,
-- 
2.43.0


From 20fed4b855b5151fa231e53522fe9d2486cf76ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 13/29] fix: CssColorHex accepts only complete colour values

---
 confstore/procs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confstore/procs.go b/confstore/procs.go
index e3effbe..3e44ad3 100644
--- a/confstore/procs.go
+++ b/confstore/procs.go
@@ -165,7 +165,7 @@ func (c *cssColorHex) Validate(value string) (ok bool, err string) {
 		return true, ""
 	}
 
-	match, error := regexp.MatchString("#[a-fA-F0-9]{6}", value)
+	match, error := regexp.MatchString("^#[a-fA-F0-9]{6}$", value)
 	if error != nil {
 		return false, error.Error()
 	}
-- 
2.43.0


From 38d89bbfe3c9a80a9b20f323fd2f1c05314cec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 14/29] fix: reading a public key of another algorithm returns
 an error instead of panicking

---
 util/rsa/util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/rsa/util.go b/util/rsa/util.go
index df1c2e1..da91261 100644
--- a/util/rsa/util.go
+++ b/util/rsa/util.go
@@ -77,7 +77,11 @@ func ReadPublicKeyBytes(pemBytes []byte) (*rsa.PublicKey, error) {
 	if err != nil {
 		return nil, err
 	}
-	return pub.(*rsa.PublicKey), nil
+	rsaPub, ok := pub.(*rsa.PublicKey)
+	if !ok {
+		return nil, errors.New("not a RSA PUBLIC KEY")
+	}
+	return rsaPub, nil
 }
 
 func ReadX509Certificate(pem string) (*x509.Certificate, error) {
-- 
2.43.0


From 466ea5fb8fc045f8ca4018abcd1f0e4f539c98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:50 +0000
Subject: [PATCH 15/29] fix: task manager does not keep the name of a task that
 could not be started

---
 schedule/task_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schedule/task_manager.go b/schedule/task_manager.go
index 7e4485b..b65c1d3 100644
--- a/schedule/task_manager.go
+++ b/schedule/task_manager.go
@@ -57,8 +57,8 @@ func (m *taskManager) Register(task Task) error {
 		return errors.New(fmt.Sprintf("task[%s] duplicated", task.Name()))
 	}
 
-	m.taskMap[task.Name()] = task
 	task.MustStart()
+	m.taskMap[task.Name()] = task
 	return nil
 }
 
-- 
2.43.0


From 54837a81da0d07a3c2fe6a1fd86c915734f8541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 16/29] fix: fasthttp client uses the trust certs of ssl trust
 mode CUSTOM

---
 confs/fasthttpclient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/confs/fasthttpclient.go b/confs/fasthttpclient.go
index d9ff944..beff76a 100644
--- a/confs/fasthttpclient.go
+++ b/confs/fasthttpclient.go
@@ -97,6 +97,7 @@ func NewFastHttpClient(hcConf *FastHttpClientConf, customizer FastHttpClientCust
 			appendCertPool(certPool, cert)
 		}
 		tlsConfig.RootCAs = certPool
+		tlsConfigured = true
 	} else if hcConf.SslTrustMode == "INSECURE" {
 		tlsConfig.InsecureSkipVerify = true
 		tlsConfigured = true
-- 
2.43.0


From af277591e431b5afba52d5517805d1a28e9d7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 17/29] fix: elasticsearch client limits connections as
 configured

---
 confs/es.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/confs/es.go b/confs/es.go
index bcc000d..47e948c 100644
--- a/confs/es.go
+++ b/confs/es.go
@@ -34,8 +34,8 @@ func NewEsClient(conf *EsConf, customizer EsConfigCustomizer) *elasticsearch.Cli
 	}
 
 	transport := http.DefaultTransport.(*http.Transport).Clone()
-	transport.MaxIdleConnsPerHost = conf.MaxConnsPerHost
-	transport.MaxIdleConns = conf.MaxIdleConnsPerHost
+	transport.MaxConnsPerHost = conf.MaxConnsPerHost
+	transport.MaxIdleConnsPerHost = conf.MaxIdleConnsPerHost
 	transport.ResponseHeaderTimeout = time.Second * 60
 
 	esConf.Transport = transport
-- 
2.43.0


From 05ca9eaba9dc8c93bb879c9d10810f274da96f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 18/29] fix: String() of the database confs shows MaxOpenConns

---
 confs/mysql.go      | 2 +-
 confs/oracle.go     | 2 +-
 confs/postgresql.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/confs/mysql.go b/confs/mysql.go
index d754b5d..7fc9902 100644
--- a/confs/mysql.go
+++ b/confs/mysql.go
@@ -85,7 +85,7 @@ type MysqlConf struct {
 
 func (m *MysqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ReadTimeout: %v, WriteTimeout: %v, Timeout: %v, Loc: %v, ParseTime: %v, Params: %v}",
-		m.Host, m.Port, m.Database, m.MaxIdleConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
+		m.Host, m.Port, m.Database, m.MaxOpenConns, m.MaxIdleConns, m.ConnMaxLifetime, m.ReadTimeout,
 		m.WriteTimeout, m.Timeout, m.Loc, m.ParseTime, m.Params)
 }
 
diff --git a/confs/oracle.go b/confs/oracle.go
index a8e100e..cf00ca6 100644
--- a/confs/oracle.go
+++ b/confs/oracle.go
@@ -60,7 +60,7 @@ type OracleConf struct {
 
 func (c *OracleConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Service: %s, Sid: %s, Servers: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Service, c.Sid, c.Servers, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
diff --git a/confs/postgresql.go b/confs/postgresql.go
index b52cb87..9da0b78 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -58,7 +58,7 @@ type PostgresqlConf struct {
 
 func (c *PostgresqlConf) String() string {
 	return fmt.Sprintf("{Host: %s, Port: %d, Username: ***, Password: ***, Database: %s, MaxOpenConns: %v, MaxIdleConns: %v, ConnMaxLifetime: %v, ConnectTimeout: %v, Params: %v}",
-		c.Host, c.Port, c.Database, c.MaxIdleConns, c.MaxIdleConns,
+		c.Host, c.Port, c.Database, c.MaxOpenConns, c.MaxIdleConns,
 		c.ConnMaxLifetime, c.ConnectTimeout, c.Params)
 }
 
-- 
2.43.0


From ddffc9a4f8a80c99d17968fed8494a118f078f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 19/29] fix: fasthttp pprof handler requires the Basic scheme
 and accepts passwords with colons

---
 confs/pprof.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/confs/pprof.go b/confs/pprof.go
index 7d0cc68..2f5ffab 100644
--- a/confs/pprof.go
+++ b/confs/pprof.go
@@ -89,19 +89,19 @@ func NewFasthttpRoutingPprofHandler(conf *PprofConf) routing.Handler {
 			ctx.SetStatusCode(fasthttp.StatusUnauthorized)
 		}
 
-		auth := strings.TrimPrefix(string(ctx.Request.Header.Peek("Authorization")), "Basic ")
-		if auth == "" {
+		auth := string(ctx.Request.Header.Peek("Authorization"))
+		if !strings.HasPrefix(auth, "Basic ") {
 			refuse(ctx)
 			return nil
 		}
 
-		b, err := base64.StdEncoding.DecodeString(auth)
+		b, err := base64.StdEncoding.DecodeString(auth[len("Basic "):])
 		if err != nil {
 			refuse(ctx)
 			return nil
 		}
 
-		user_pass := strings.Split(string(b), ":")
+		user_pass := strings.SplitN(string(b), ":", 2)
 		if len(user_pass) != 2 {
 			refuse(ctx)
 			return nil
-- 
2.43.0


From e5e99164e57d838ce6d1344d03aa0bff2cd61e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 20/29] fix: postgresql dsn carries credentials, database and
 option values unchanged

---
 confs/postgresql.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/confs/postgresql.go b/confs/postgresql.go
index 9da0b78..057dc80 100644
--- a/confs/postgresql.go
+++ b/confs/postgresql.go
@@ -88,13 +88,9 @@ func NewPostgresqlDb(conf *PostgresqlConf, customizer PostgresqlUrlOptionsCustom
 }
 
 func buildPgDsn(conf *PostgresqlConf, options map[string]string) string {
-	ret := fmt.Sprintf("postgres://%s:%s@%s:%d/%s?", conf.Username, conf.Password, conf.Host, conf.Port, conf.Database)
+	ret := fmt.Sprintf("postgres://%s@%s:%d/%s?", url.UserPassword(conf.Username, conf.Password), conf.Host, conf.Port, url.PathEscape(conf.Database))
 	for key, val := range options {
-		val = strings.TrimSpace(val)
-		for _, temp := range strings.Split(val, ",") {
-			temp = strings.TrimSpace(temp)
-			ret += fmt.Sprintf("%s=%s&", key, url.QueryEscape(temp))
-		}
+		ret += fmt.Sprintf("%s=%s&", url.QueryEscape(key), url.QueryEscape(val))
 	}
 	ret = strings.TrimRight(ret, "&")
 	return ret
-- 
2.43.0


From 5d3d55eb93f1ec6dd49fee6e3284ac89168afc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 21/29] fix: redis hook runs the command when its exit span
 cannot be created

---
 skywalking/redis/hook.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/skywalking/redis/hook.go b/skywalking/redis/hook.go
index d3367cf..dbc9320 100644
--- a/skywalking/redis/hook.go
+++ b/skywalking/redis/hook.go
@@ -70,6 +70,10 @@ func noopInjector(headerKey, headerValue string) error {
 
 func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, cmd.Name(), h.opts.peer, noopInjector)
+	if err != nil {
+		// run the command without a span of its own
+		return context.WithValue(ctx, h, nil), nil
+	}
 
 	if h.opts.reportArgs {
 		span.Tag(go2sky.TagDBStatement, cmd.String())
@@ -81,11 +85,12 @@ func (h *tracerHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, h, span), nil
 }
 
 func (h *tracerHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	// the span started by this hook, not the active one, which may be the caller's
+	span, _ := ctx.Value(h).(go2sky.Span)
 	if span == nil {
 		return nil
 	}
@@ -109,6 +114,10 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	})
 
 	span, nCtx, err := h.tracer.CreateExitSpanWithContext(ctx, opName, h.opts.peer, noopInjector)
+	if err != nil {
+		// run the command without a span of its own
+		return context.WithValue(ctx, h, nil), nil
+	}
 
 	if h.opts.reportArgs {
 		stmt := quickJoin(cmds, "|", func(obj rv7.Cmder) string {
@@ -122,7 +131,7 @@ func (h *tracerHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder
 	span.Tag(go2sky.TagDBType, "Redis")
 	span.SetComponent(componentID)
 	span.SetSpanLayer(agentv3.SpanLayer_Cache)
-	return nCtx, err
+	return context.WithValue(nCtx, h, span), nil
 
 }
 
@@ -140,7 +149,8 @@ func quickJoin(objs []rv7.Cmder, sep string, stringer stringer) string {
 }
 
 func (h *tracerHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
-	span := go2sky.ActiveSpan(ctx)
+	// the span started by this hook, not the active one, which may be the caller's
+	span, _ := ctx.Value(h).(go2sky.Span)
 	if span == nil {
 		return nil
 	}
-- 
2.43.0


From e38ea3c73bd97f093c3ccf89b052eb6eedc979dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:09 +0000
Subject: [PATCH 22/29] fix: routing middleware passes the handler's error on
 to the router

---
 skywalking/fasthttp-routing/middleware.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index dbe5250..fad11ab 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -6,6 +6,7 @@ import (
 	"github.com/SkyAPM/go2sky"
 	routing "github.com/qiangxue/fasthttp-routing"
 	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
+	"net/http"
 	"strconv"
 	"time"
 )
@@ -79,8 +80,14 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
-		err = rCtx.Next()
-		if err != nil {
+		handlerErr := rCtx.Next()
+		statusCode := rCtx.Response.StatusCode()
+		if err = handlerErr; err != nil {
+			// the router sets the status when it handles the error
+			statusCode = http.StatusInternalServerError
+			if httpErr, ok := err.(routing.HTTPError); ok {
+				statusCode = httpErr.StatusCode()
+			}
 			if options.logError {
 				span.Error(time.Now(), err.Error())
 			} else {
@@ -99,9 +106,9 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 				span.Error(time.Now())
 			}
 		}
-		span.Tag(go2sky.TagStatusCode, strconv.Itoa(rCtx.Response.StatusCode()))
+		span.Tag(go2sky.TagStatusCode, strconv.Itoa(statusCode))
 		span.End()
-		return nil
+		return handlerErr
 	}
 
 }
-- 
2.43.0


From 856b24146d72295b37294b0acfc011ca1cab4c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 23/29] fix: sliding window never judges a request by a time
 before earlier requests

---
 ratelimiter/slidingwindow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ratelimiter/slidingwindow.go b/ratelimiter/slidingwindow.go
index beea9e9..2614040 100644
--- a/ratelimiter/slidingwindow.go
+++ b/ratelimiter/slidingwindow.go
@@ -60,11 +60,12 @@ type SyncSlidingWindow struct {
 }
 
 func (s *SyncSlidingWindow) Acquire() bool {
-	now := s.nowFn().UnixNano()
-
 	s.lock.Lock()
 	defer s.lock.Unlock()
 
+	// read the clock under the lock, so that requests are recorded in the order of their timestamps
+	now := s.nowFn().UnixNano()
+
 	if s.capacity == 0 {
 		return true
 	}
-- 
2.43.0


From a418273025764482aed1beb83c22632e400d3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:59 +0000
Subject: [PATCH 24/29] fix: yaml null no longer detaches pointer fields from
 env and flags

---
 conf/reflect.go | 40 ++++++++++++++++++++++++++++++++++++++++
 conf/yaml.go    |  3 +++
 2 files changed, 43 insertions(+)

diff --git a/conf/reflect.go b/conf/reflect.go
index 1272de6..257b775 100644
--- a/conf/reflect.go
+++ b/conf/reflect.go
@@ -58,6 +58,46 @@ func initPtrValue(v reflect.Value, path string) {
 
 }
 
+// Remember the pointers of p's fields. The returned func puts them back
+// to those fields which have become nil since.
+func keepPtrs(p interface{}) (restore func()) {
+
+	type field struct {
+		v   reflect.Value
+		ptr reflect.Value
+	}
+	fields := make([]field, 0)
+
+	var visit func(v reflect.Value)
+	visit = func(v reflect.Value) {
+		if v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				return
+			}
+			if v.CanSet() {
+				fields = append(fields, field{v: v, ptr: reflect.ValueOf(v.Interface())})
+			}
+			v = v.Elem()
+		}
+		if !v.CanSet() || v.Kind() != reflect.Struct {
+			return
+		}
+		for i := 0; i < v.NumField(); i++ {
+			visit(v.Field(i))
+		}
+	}
+	visit(reflect.ValueOf(p))
+
+	return func() {
+		for _, f := range fields {
+			if f.v.IsNil() {
+				f.v.Set(f.ptr)
+			}
+		}
+	}
+
+}
+
 // Field visitor
 //
 // args:
diff --git a/conf/yaml.go b/conf/yaml.go
index ad2c073..31a66a8 100644
--- a/conf/yaml.go
+++ b/conf/yaml.go
@@ -32,7 +32,10 @@ func (y *yamlFileResolver) Resolve(p interface{}) error {
 		return err
 	}
 
+	// a yaml null sets a pointer to nil, but env and flags are bound to the value it points to
+	restore := keepPtrs(p)
 	err = yaml.Unmarshal(bytes, p)
+	restore()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From baa67fe01a1ca6db9638bdeac3cbf762782d8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:53 +0000
Subject: [PATCH 25/29] fix: routing middleware ends its span when the handler
 panics

---
 skywalking/fasthttp-routing/middleware.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index fad11ab..01adf11 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -80,7 +80,18 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 
 		SetSwContext(rCtx, spanCtx)
 
+		returned := false
+		defer func() {
+			if !returned {
+				// the handler panics, nobody else ends the span
+				span.Error(time.Now())
+				span.Tag(go2sky.TagStatusCode, strconv.Itoa(http.StatusInternalServerError))
+				span.End()
+			}
+		}()
+
 		handlerErr := rCtx.Next()
+		returned = true
 		statusCode := rCtx.Response.StatusCode()
 		if err = handlerErr; err != nil {
 			// the router sets the status when it handles the error
-- 
2.43.0


From 27f953120a6fb3cfd4a812cb16a48121d5a3c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:47 +0000
Subject: [PATCH 26/29] fix: cluster hash tag comes first, a key with braces no
 longer moves to another slot

---
 ratelimiter/ttl_ratelimiter_redis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ratelimiter/ttl_ratelimiter_redis.go b/ratelimiter/ttl_ratelimiter_redis.go
index 952fbb3..7be51b0 100644
--- a/ratelimiter/ttl_ratelimiter_redis.go
+++ b/ratelimiter/ttl_ratelimiter_redis.go
@@ -166,7 +166,7 @@ func (r *redisTtlRateLimiter) IsBlockedContext(ctx context.Context, blockKey str
 	blockKey = blockKey + suffix
 
 	if r.hashTag != "" {
-		blockKey = blockKey + r.hashTag
+		blockKey = r.hashTag + blockKey
 	}
 
 	//local keyb = KEYS[1]
@@ -200,8 +200,9 @@ func (r *redisTtlRateLimiter) ShouldBlock2Context(ctx context.Context, key strin
 	blockKey = blockKey + suffix
 
 	if r.hashTag != "" {
-		key = key + r.hashTag
-		blockKey = blockKey + r.hashTag
+		// in front, because redis takes the first {...} of a key, and the caller's key may contain braces, too
+		key = r.hashTag + key
+		blockKey = r.hashTag + blockKey
 	}
 
 	//local key = KEYS[1]
-- 
2.43.0


From 86acc1dc2412b1404512e74ac4e99e0cde263275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:27 +0000
Subject: [PATCH 27/29] fix: a value processor that panics in Convert no longer
 leaves the config store locked for good

---
 confstore/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/confstore/store.go b/confstore/store.go
index d015af0..a080ad9 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -153,8 +153,11 @@ func (m *defaultImpl) UpdateNoPersist(key string, value string) *KVError {
 		}
 	}
 
+	// a Convert that panics or reads this store must not happen inside the lock
+	v := p.Convert(value)
+
 	m.kvLock.Lock()
-	m.kv[key] = p.Convert(value)
+	m.kv[key] = v
 	m.kvStr[key] = value
 	m.kvLock.Unlock()
 	return nil
-- 
2.43.0


From cdca5c3dd01c395f8bd595670e31072dfa9a7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:17 +0000
Subject: [PATCH 28/29] fix: concurrent updates and resets of a config key left
 memory and persister with different values

---
 confstore/store.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/confstore/store.go b/confstore/store.go
index a080ad9..4c13b52 100644
--- a/confstore/store.go
+++ b/confstore/store.go
@@ -17,6 +17,8 @@ type defaultImpl struct {
 	kvDefaultStr map[string]string
 	kv           map[string]interface{}
 	kvStr        map[string]string
+	// held from a change in memory until it is persisted, so that memory and persister see concurrent changes in the same order
+	persistLock  sync.Mutex
 	persister    Persister
 	loadPolicy   LoadPolicy
 }
@@ -75,6 +77,9 @@ func (m *defaultImpl) DeregisterKey(key string) {
 		return
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvProcessorLock.Lock()
 	defer m.kvProcessorLock.Unlock()
 
@@ -100,6 +105,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 		return nil
 	}
 
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	okKvStrs := make([]*KVStr, 0, len(kvStrs))
 	for _, kvStr := range kvStrs {
 		error := m.UpdateNoPersist(kvStr.Key, kvStr.Value)
@@ -116,6 +124,9 @@ func (m *defaultImpl) BatchUpdate(kvStrs []*KVStr) []*KVError {
 }
 
 func (m *defaultImpl) Update(key string, value string) *KVError {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	err := m.UpdateNoPersist(key, value)
 	if err == nil && key != "" {
 		err2 := m.persister.Save(key, value)
@@ -249,6 +260,9 @@ func (m *defaultImpl) GetValueString(key string) (v string, hit bool) {
 }
 
 func (m *defaultImpl) ResetKey(key string) {
+	m.persistLock.Lock()
+	defer m.persistLock.Unlock()
+
 	m.kvLock.Lock()
 	defer m.kvLock.Unlock()
 
-- 
2.43.0


From cd4fbf9636ef4b5ae761a62bca9fab29cde3f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:04 +0000
Subject: [PATCH 29/29] fix: the tracing middleware reads body streams of
 failed requests: the client gets another answer, and a broken stream looks
 complete

---
 skywalking/fasthttp-routing/middleware.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skywalking/fasthttp-routing/middleware.go b/skywalking/fasthttp-routing/middleware.go
index 01adf11..44e7a47 100644
--- a/skywalking/fasthttp-routing/middleware.go
+++ b/skywalking/fasthttp-routing/middleware.go
@@ -111,7 +111,8 @@ func NewMiddleware(tracer *go2sky.Tracer, opts ...Option) routing.Handler {
 				span.Error(time.Now())
 			}
 		} else if rCtx.Response.StatusCode() >= 400 {
-			if options.log4xxBody {
+			// reading a body stream would take it away from the client
+			if options.log4xxBody && !rCtx.Response.IsBodyStream() {
 				span.Error(time.Now(), string(rCtx.Response.Body()))
 			} else {
 				span.Error(time.Now())
-- 
2.43.0

