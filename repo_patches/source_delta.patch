From f13e8a2969d31db4f475bd71fa78babce8511e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 01/44] fix: items whose reverse is same as bucket's reverse or
 largest are not lost

---
 map.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index ce5b69c..eb7ebe1 100644
--- a/map.go
+++ b/map.go
@@ -925,6 +925,16 @@ func WithBucket(b *bucket) func(*hmapMethod) {
 	}
 }
 
+// isInsertPos ... e must be inserted in front of cur.
+// items with the same reverse are kept in order of insertion, behind the dummy of the bucket having
+// the same reverse. last dummy is always the end of the list.
+func isInsertPos(e, cur *MapHead) bool {
+	if e.IsDummy() || (cur.IsDummy() && cur.reverse == ^uint64(0)) {
+		return e.reverse <= cur.reverse
+	}
+	return e.reverse < cur.reverse
+}
+
 func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt) bool {
 	var opt *hmapMethod
 	if len(opts) > 0 {
@@ -940,7 +950,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
-		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
+		return isInsertPos(e.PtrMapHead(), ehead.PtrMapHead())
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
 
@@ -1475,7 +1485,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		lbNext = lbCur.NextOnLevel()
 	}
 
-	if lbNext.reverse < reverseNoMask {
+	// items with the same reverse are behind the dummy of bucket. but last dummy is behind all items.
+	if lbNext.reverse < reverseNoMask || (lbNext.reverse == reverseNoMask && reverseNoMask != ^uint64(0)) {
 		result := lbNext.entry(h)
 
 		// FIXME: why fail to get
-- 
2.43.0


From 23e918f0147584fe2cd2e3e8e543fd5310593b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 02/44] fix: keep items without pool reachable for GC

---
 map.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/map.go b/map.go
index eb7ebe1..10aabdf 100644
--- a/map.go
+++ b/map.go
@@ -60,6 +60,9 @@ type Map struct {
 	pooler *Pool
 
 	isEmbededItemInBucket bool
+
+	// items not in pool. list connect items by offset, GC cannot reach item via list.
+	unpooled []MapItem
 }
 
 var conf mapConf = mapConf{
@@ -323,9 +326,19 @@ func (h *Map) _validateallbucket() {
 
 // TestSet ... _set() for Test
 func (h *Map) TestSet(k, conflict uint64, btable *bucket, item MapItem) bool {
+	if !h.isEmbededItemInBucket {
+		h.retain(item)
+	}
 	return h._set(k, conflict, btable.toBase(), item)
 }
 
+// retain ... keep item reachable from map
+func (h *Map) retain(item MapItem) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.unpooled = append(h.unpooled, item)
+}
+
 func (h *Map) _set(k, conflict uint64, btable *bucket, item MapItem) bool {
 
 	if !h.isEmbededItemInBucket {
@@ -683,6 +696,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.retain(s)
 	}
 
 	s.K = key.(string)
@@ -713,6 +727,7 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
 
-- 
2.43.0


From 311e6b606d350fe10ef087369f4a710ddadcd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/44] fix: makeBucket does not create bucket when there is no
 room between neighbors

---
 map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map.go b/map.go
index 10aabdf..baeab44 100644
--- a/map.go
+++ b/map.go
@@ -821,6 +821,11 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 		newReverse = halfUint64(cBucket.reverse, nextBucket.reverse)
 	}
 
+	// no room for new bucket between neighbors
+	if newReverse == cBucket.reverse || newReverse == nextBucket.reverse {
+		return ErrBucketAlreadyExit
+	}
+
 	b, onOk := h.bucketFromPool(newReverse, useOnOk(true))
 	if onOk == nil {
 		Log(LogWarn, "no okFn")
-- 
2.43.0


From cd413b3419cda0ec8c56b1d11e775d1d777ff1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 04/44] fix: find item with the same hash and other conflict

---
 map.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index baeab44..98984ab 100644
--- a/map.go
+++ b/map.go
@@ -470,13 +470,41 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		}
 		return nil, false
 	}
-	if e.PtrMapHead().reverse != bits.Reverse64(k) || e.PtrMapHead().conflict != conflict {
+	if e.PtrMapHead().reverse != bits.Reverse64(k) {
+		return nil, false
+	}
+	if e = findSameConflict(e, conflict); e == nil {
 		return nil, false
 	}
 	return e.(MapItem), true
 
 }
 
+// findSameConflict ... find item having conflict in active items with the same hash as e
+func findSameConflict(e HMapEntry, conflict uint64) HMapEntry {
+
+	mhead := e.PtrMapHead()
+	reverse := atomic.LoadUint64(&mhead.reverse)
+
+	match := func(cur *MapHead) bool {
+		return !cur.IsIgnored() && atomic.LoadUint64(&cur.conflict) == conflict
+	}
+	if match(mhead) {
+		return e
+	}
+	for cur := mhead.PrevtWithNil(); cur != nil && atomic.LoadUint64(&cur.reverse) == reverse; cur = cur.PrevtWithNil() {
+		if match(cur) {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	for cur := mhead.NextWithNil(); cur != nil && atomic.LoadUint64(&cur.reverse) == reverse; cur = cur.NextWithNil() {
+		if match(cur) {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	return nil
+}
+
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
@@ -510,7 +538,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
 		return nil, bucket, false
 	}
-	if econflict := atomic.LoadUint64(&e.PtrMapHead().conflict); econflict != conflict {
+	if e = findSameConflict(e, conflict); e == nil {
 		return nil, bucket, false
 	}
 
-- 
2.43.0


From 7d858b11c36502fe711b24db13f1577ea953647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 05/44] fix: concurrent Set/StoreItem/Delete/Purge lose or
 duplicate items

---
 map.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/map.go b/map.go
index 98984ab..28cbf2e 100644
--- a/map.go
+++ b/map.go
@@ -53,6 +53,7 @@ type Map struct {
 
 	modeForBucket SearchMode
 	mu            sync.Mutex
+	muWrite       sync.RWMutex // Lock(): add/delete item. RLock(): update item
 	levels        [16]atomic.Value
 
 	ItemFn func() MapItem
@@ -628,10 +629,29 @@ func (h *Map) _loadItem(k uint64, conflict uint64, key interface{}) (MapItem, *b
 
 var madeBucket int32 = 0
 
+// updateItem ... update the value if item is found.
+func (h *Map) updateItem(k, conflict uint64, value interface{}) (ok, found bool) {
+	h.muWrite.RLock()
+	defer h.muWrite.RUnlock()
+
+	item, _, found := h.getWithBucket(k, conflict)
+	if !found {
+		return false, false
+	}
+	return h._update(item, value), true
+}
+
 // Set ... set the value for a key
 func (h *Map) Set(key, value interface{}) bool {
 	atomic.StoreInt32(&madeBucket, 0)
 
+	k, conflict := KeyToHash(key)
+	if ok, found := h.updateItem(k, conflict, value); found {
+		return ok
+	}
+	h.muWrite.Lock()
+	defer h.muWrite.Unlock()
+
 	var item MapItem
 	var bucket *bucket
 	var found bool
@@ -663,7 +683,6 @@ func (h *Map) Set(key, value interface{}) bool {
 	}
 
 	if h.isEmbededItemInBucket {
-		k, conflict := KeyToHash(key)
 		var nPool *samepleItemPool
 
 		//lastgets = nil
@@ -687,7 +706,6 @@ func (h *Map) Set(key, value interface{}) bool {
 			Log(LogDebug, "already set conflict")
 		}
 	} else if h.pooler != nil {
-		k, _ := KeyToHash(key)
 		var wg sync.WaitGroup
 		var fn func()
 		fn = nil
@@ -736,7 +754,6 @@ func (h *Map) Set(key, value interface{}) bool {
 		})(h)
 	}
 
-	k, conflict := KeyToHash(s.K)
 	if h.isEmbededItemInBucket {
 		return h._set(k, conflict, bucket.toBase(), s)
 	}
@@ -750,6 +767,12 @@ func (h *Map) Set(key, value interface{}) bool {
 func (h *Map) StoreItem(item MapItem) bool {
 	k, conflict := item.KeyHash()
 
+	if ok, found := h.updateItem(k, conflict, item.Value()); found {
+		return ok
+	}
+	h.muWrite.Lock()
+	defer h.muWrite.Unlock()
+
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
 	if found {
 		return h._update(oitem, item.Value())
@@ -1607,8 +1630,10 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
+	h.muWrite.Lock()
+	defer h.muWrite.Unlock()
 
-	item, ok := h.LoadItem(key)
+	item, _, ok := h._loadItem(0, 0, key)
 	if !ok {
 		return false
 	}
@@ -1632,6 +1657,9 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	var lock *trylock.Mutex
 	_, _, _, _ = item, bucket, lock, found
 
+	h.muWrite.Lock()
+	defer h.muWrite.Unlock()
+
 	item, bucket, lock, found = h.loadItem(0, 0, key)
 	if lock != nil {
 		defer lock.Unlock()
-- 
2.43.0


From 27753b1f4345f0d2bf0c7963a715073cceacd708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 06/44] fix: readers of embedded pool wait for writer moving
 items

---
 map.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/map.go b/map.go
index 28cbf2e..8eeab9f 100644
--- a/map.go
+++ b/map.go
@@ -573,8 +573,19 @@ func (h *Map) searchBucket(k uint64) (result *bucket) {
 	return
 }
 
+// lockPool ... items in embedded pool are moved and reused by writer. reader must wait for it.
+func (h *Map) lockPool() sync.Locker {
+	if !h.isEmbededItemInBucket {
+		return nil
+	}
+	mu := h.muWrite.RLocker()
+	mu.Lock()
+	return mu
+}
+
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
+	defer lazyUnlock(h.lockPool())
 	item, ok := h._get(KeyToHash(key))
 	if !ok {
 		return nil, false
@@ -583,6 +594,7 @@ func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
+	defer lazyUnlock(h.lockPool())
 	item, ok := h._get(hash, conflict)
 	if !ok {
 		return nil, false
@@ -592,11 +604,13 @@ func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
 
 // LoadItem ... return key/value item with embedded-linked-list. if not found, ok is false
 func (h *Map) LoadItem(key interface{}) (item MapItem, success bool) {
+	defer lazyUnlock(h.lockPool())
 	item, _, success = h._loadItem(0, 0, key)
 	return
 }
 
 func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success bool) {
+	defer lazyUnlock(h.lockPool())
 
 	item, success = h._get(k, conflict)
 	return
@@ -1462,6 +1476,7 @@ func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 			sharedSearchOpt(conf)
 		}
 	}()
+	defer lazyUnlock(h.lockPool())
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From d5f8e56c6cc860e2ce0ee85e019569e0579b6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 07/44] fix: search option is shared by all goroutines and maps

---
 map.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/map.go b/map.go
index 8eeab9f..b7c1476 100644
--- a/map.go
+++ b/map.go
@@ -819,14 +819,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1056,7 +1049,7 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			return
 		}
 
-		if h.SearchKey(bits.Reverse64(e.PtrMapHead().reverse), ignoreBucketEntry(false)) == nil {
+		if h.searchKey(bits.Reverse64(e.PtrMapHead().reverse), false) == nil {
 			o := sharedSearchOpt(nil)
 			o.Lock()
 			o.e = ErrItemInvalidAdd
@@ -1433,6 +1426,14 @@ type searchOpt struct {
 	sync.Mutex
 }
 
+// newSearchOpt ... option per search. not shared with other goroutine/map
+func newSearchOpt(opts ...searchArg) *searchOpt {
+	o := &searchOpt{}
+	o._ignoreBucketEntry.Store(true)
+	o.Options(opts...)
+	return o
+}
+
 func sharedSearchOpt(setter *searchOpt) *searchOpt {
 
 	if setter != nil {
@@ -1468,14 +1469,7 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	conf := newSearchOpt(opts...)
 	defer lazyUnlock(h.lockPool())
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
-- 
2.43.0


From c3d76aa8d3dafedc66010279d2c20954d98ffd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 08/44] fix: data race on state of item and Failreverse

---
 item.go              |  2 +-
 map.go               |  8 ++------
 maphead.go           | 20 +++++++++++++++++---
 sample_hmap_entry.go |  2 +-
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/item.go b/item.go
index 5892576..23fe8a6 100644
--- a/item.go
+++ b/item.go
@@ -79,7 +79,7 @@ func (s *entryHMap) Offset() uintptr {
 
 func (s *entryHMap) Delete() {
 	s.key = nil
-	s.MapHead.state |= mapIsDeleted
+	s.MapHead.addState(mapIsDeleted)
 }
 
 func (s *entryHMap) KeyHash() (uint64, uint64) {
diff --git a/map.go b/map.go
index b7c1476..417e6aa 100644
--- a/map.go
+++ b/map.go
@@ -466,9 +466,7 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	}
 	e := h.searchKey(k, true)
 	if e == nil {
-		if Failreverse == 0 {
-			Failreverse = bits.Reverse64(k)
-		}
+		atomic.CompareAndSwapUint64(&Failreverse, 0, bits.Reverse64(k))
 		return nil, false
 	}
 	if e.PtrMapHead().reverse != bits.Reverse64(k) {
@@ -531,9 +529,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 	}
 
 	if e == nil {
-		if Failreverse == 0 {
-			Failreverse = bits.Reverse64(k)
-		}
+		atomic.CompareAndSwapUint64(&Failreverse, 0, bits.Reverse64(k))
 		return nil, bucket, false
 	}
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
diff --git a/maphead.go b/maphead.go
index 267a390..b6c8b56 100644
--- a/maphead.go
+++ b/maphead.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"math/bits"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -29,16 +30,29 @@ func (mh *MapHead) KeyInHmap() uint64 {
 	return bits.Reverse64(mh.reverse)
 }
 
+func (mh *MapHead) loadState() mapState {
+	return mapState(atomic.LoadUint32((*uint32)(&mh.state)))
+}
+
+func (mh *MapHead) addState(s mapState) {
+	for {
+		old := mh.loadState()
+		if atomic.CompareAndSwapUint32((*uint32)(&mh.state), uint32(old), uint32(old|s)) {
+			return
+		}
+	}
+}
+
 func (mh *MapHead) IsIgnored() bool {
-	return mh.state > 0
+	return mh.loadState() > 0
 }
 
 func (mh *MapHead) IsDummy() bool {
-	return mh.state&mapIsDummy > 0
+	return mh.loadState()&mapIsDummy > 0
 }
 
 func (mh *MapHead) IsDeleted() bool {
-	return mh.state&mapIsDeleted > 0
+	return mh.loadState()&mapIsDeleted > 0
 }
 
 func (mh *MapHead) ConflictInHamp() uint64 {
diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..95c1fa4 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -81,7 +81,7 @@ func (s *SampleItem) PtrMapHead() *MapHead {
 }
 
 func (s *SampleItem) Delete() {
-	s.state |= mapIsDeleted
+	s.addState(mapIsDeleted)
 }
 
 func (s *SampleItem) KeyHash() (uint64, uint64) {
-- 
2.43.0


From 05e97cd8be0e72d15e76b7150f75ec582d69bf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 09/44] fix: makeBucket2 makes bucket without pool and wrong
 split

---
 map_embedded.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..2daa8c6 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -69,6 +69,10 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+	// no room for new bucket between neighbors
+	if newReverse <= bucket.reverse || newReverse >= nextReverse {
+		return ErrBucketAlreadyExit
+	}
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -83,14 +87,26 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
+	// MENTION: b.reverse is not same as newReverse if middle level is not made yet.
+	pool := bucket.itemPool()
+	olen := len(pool.items)
+	var nPool *samepleItemPool
+	idx, err := pool.findIdx(b.reverse)
+	if err != nil {
+		// all items stay in bucket
+		idx = olen
+		nPool = &samepleItemPool{}
+		nPool._init(h.maxPerBucket * 3 / 2)
+	} else {
+		nPool, err = pool._split(idx, false)
+		if err != nil {
+			return err
+		}
+	}
+	// all items are moved to b
+	if idx == 0 {
+		pool._init(h.maxPerBucket * 3 / 2)
 	}
-
-	olen := len(bucket.itemPool().items)
-	nPool, err2 := bucket.itemPool()._split(idx, false)
-	_ = err2
 	b.setItemPool(nPool)
 	atomic.StoreInt32(&bucket._len, int32(idx))
 	atomic.StoreInt32(&b._len, int32(olen-idx))
-- 
2.43.0


From 539b9dbecf3e1008e141e3cd5c8ac944bc75db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 10/44] fix: Delete/Purge with embedded pool lose items or
 break order of items

---
 map.go          | 26 +++---------------
 map_embedded.go | 70 ++++++++++++++++++-------------------------------
 2 files changed, 30 insertions(+), 66 deletions(-)

diff --git a/map.go b/map.go
index 417e6aa..4d128c5 100644
--- a/map.go
+++ b/map.go
@@ -1674,33 +1674,15 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	}
 
 	// remove item
-	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
+	// 1. item status to remove. item keeps position in pool and list, it is used again by getWithFn()
+	// 2. purge from pool and linked-list if item is last in pool.
 
 	pool := bucket.itemPool()
 	if pool == nil {
 		return false
 	}
 	item.Delete()
-
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
-	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
-		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
-	}
+	pool.shrinkLen()
 	return true
 }
 
@@ -1785,7 +1767,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 		Log(LogWarn, "not found with inited-dummpy")
 	}()
 
-	for l := 1; l < 16; l++ {
+	for l := 1; l <= 16; l++ {
 		if l == 1 {
 			idx := (reverse >> (4 * 15))
 			// MENTION: if result pool is require, enable
diff --git a/map_embedded.go b/map_embedded.go
index 2daa8c6..8164dd6 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -31,15 +31,15 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 	l := items.Len()
 
 	idx := sort.Search(l, func(i int) bool {
-		item := items._at(i, true, true)
-		if item == nil {
-			return true
-		}
-		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
-		//return items.reverseAt(i) >= reverseNoMask
+		return items.reverseAt(i) >= reverseNoMask
 	})
-	if idx < l && items.reverseAt(idx) == reverseNoMask {
-		return items._at(idx, true, true)
+	// deleted item and active item can have the same reverse.
+	for ; idx < l && items.reverseAt(idx) == reverseNoMask; idx++ {
+		item := items._at(idx, true, false)
+		if ignoreBucketEnry && item.IsDeleted() {
+			continue
+		}
+		return item
 	}
 
 	a := bucket.toBase().prevAsB()
@@ -260,13 +260,13 @@ func (sp *samepleItemPool) cap() (l int) {
 	return sp.ptrItems().Cap()
 }
 
-func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int) byte {
+func (sp *samepleItemPool) state4get(reverse uint64, len int, cap int) byte {
 
 	if len == 0 {
 		return getEmpty
 	}
 
-	if _, found := sp.bsearchFromFreeList(reverse, tail); found {
+	if _, found := sp.bsearchFromFreeList(reverse, len); found {
 		return foundFree
 	}
 
@@ -275,8 +275,9 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 	}
 
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
-	if atomic.LoadUint64(&last.reverse) < reverse {
+	// MENTION: items include deleted items. they keep the order too.
+	last := items._at(len-1, false, false)
+	if atomic.LoadUint64(&last.reverse) <= reverse {
 		return getLargest
 	}
 
@@ -363,10 +364,7 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
-		if sp.items[i].reverse < reverse {
+		if sp.items[i].reverse <= reverse {
 			continue
 		}
 		if i == olen-1 {
@@ -461,25 +459,10 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 //go:norace
 func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapItem, nPool *samepleItemPool, fn unlocker) {
 
-	lastActiveIdx := -1
-
 	items := *sp.ptrItems()
 	olen := items.Len()
 	ocap := items.Cap()
 
-	for i := olen - 1; i >= 0; i-- {
-		pItem := items.at(i)
-		if pItem == nil {
-			continue
-		}
-		item := *pItem
-		if item.IsIgnored() {
-			continue
-		}
-		lastActiveIdx = i
-		break
-	}
-
 	defer func() {
 		if new == nil {
 			Log(LogWarn, "getWithFn(): item is nil")
@@ -488,8 +471,8 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 	}()
 
 	// for debug
-	//lastgets = append(lastgets, sp.state4get(reverse, lastActiveIdx))
-	switch sp.state4get(reverse, lastActiveIdx, olen, ocap) {
+	//lastgets = append(lastgets, sp.state4get(reverse, olen, ocap))
+	switch sp.state4get(reverse, olen, ocap) {
 	case getEmpty, getLargest:
 		nmu := mu
 		new, nPool, fn = sp.appendLast(nmu)
@@ -522,7 +505,7 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 			mu.Unlock()
 		}
 
-		idx, found := sp.bsearchFromFreeList(reverse, lastActiveIdx)
+		idx, found := sp.bsearchFromFreeList(reverse, olen)
 		if !found {
 			goto RETRY
 		}
@@ -645,9 +628,6 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
@@ -727,19 +707,21 @@ ADD_LAST:
 
 func (sp *samepleItemPool) shrinkLen() {
 
+	// MENTION: first item is not removed. it is required to connect to prev bucket on expanding
 	pItemSlice := sp.ptrItems()
-	l := pItemSlice.Len()
-	for i := l - 1; i > -1; i-- {
-		item := pItemSlice._at(i, true, false)
+	for l := pItemSlice.Len(); l > 1; l-- {
+		item := pItemSlice._at(l-1, true, false)
 		if item == nil || !item.IsDeleted() {
 			break
 		}
-		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, i-1) {
+		if !atomic_util.CompareAndSwapInt(&pItemSlice.len, l, l-1) {
 			break
 		}
-		if !item.Empty() {
-			item.MarkForDelete()
-		}
+		pOpts := elist_head.SharedTrav(list_head.WaitNoM())
+		item.PtrListHead().MarkForDelete()
+		elist_head.SharedTrav(pOpts...)
+		// slot is used again by appendLast()
+		*item = SampleItem{}
 	}
 }
 
-- 
2.43.0


From 5e25c9444974a78ceec39e1e774bcec7b6cdef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 11/44] fix: Set panics with value of other type and ignores
 nil

---
 sample_hmap_entry.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 95c1fa4..694e6fd 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -52,15 +52,21 @@ func (s *SampleItem) Key() interface{} {
 	return s.K
 }
 
+// boxedValue ... atomic.Value cannot store nil and value of other type.
+type boxedValue struct {
+	v interface{}
+}
+
 func (s *SampleItem) Value() interface{} {
-	return s.V.Load()
+	v := s.V.Load()
+	if boxed, ok := v.(*boxedValue); ok {
+		return boxed.v
+	}
+	return v
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
-	if v == nil {
-		return false
-	}
-	s.V.Store(v)
+	s.V.Store(&boxedValue{v: v})
 	return true
 }
 
-- 
2.43.0


From ad61ac64ee43894c76e8582041e0421f6a425db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 12/44] fix: SampleItem.Setup sets hash to reverse

---
 sample_hmap_entry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 694e6fd..805b707 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"math/bits"
 	"sync/atomic"
 	"unsafe"
 
@@ -71,8 +72,8 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 }
 
 func (s *SampleItem) Setup() {
-	s.reverse, s.conflict = KeyToHash(s.Key())
-
+	k, conflict := KeyToHash(s.Key())
+	s.reverse, s.conflict = bits.Reverse64(k), conflict
 }
 
 func (s *SampleItem) Next() HMapEntry {
-- 
2.43.0


From 51ec203d7822deba668ae75341ecbc23c25b8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 13/44] fix: Len is not decremented by Delete/Purge

---
 map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 4d128c5..bda48bc 100644
--- a/map.go
+++ b/map.go
@@ -216,7 +216,7 @@ func (h *Map) cactchSigBua() {
 }
 
 func (h *Map) Len() int {
-	return int(h.len)
+	return int(atomic.LoadInt64(&h.len))
 }
 
 func (h *Map) AddLen(inc int64) int64 {
@@ -1643,6 +1643,7 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
@@ -1682,6 +1683,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	pool.shrinkLen()
 	return true
 }
-- 
2.43.0


From 778e6ed5ba4120445907b9877d1b5d3c7165752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 14/44] fix: StoreItem without ItemFn breaks type of item

---
 map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/map.go b/map.go
index bda48bc..39d9de4 100644
--- a/map.go
+++ b/map.go
@@ -788,6 +788,13 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	// type of item is not configured by ItemFn()
+	if _, ok := item.(*entryHMap); !ok && h.ItemFn() == MapItem(emptyEntryHMap) {
+		ItemFn(func() MapItem {
+			return item
+		})(h)
+	}
+
 	h.retain(item)
 	return h._set(k, conflict, bucket, item)
 }
-- 
2.43.0


From 292ec62b0b8cc94efb16101a9fb01a9dcacce92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 15/44] fix: UsePool/UseEmbeddedPool return wrong previous
 option

---
 map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index 39d9de4..ed6adf2 100644
--- a/map.go
+++ b/map.go
@@ -124,6 +124,7 @@ func ItemFn(fn func() MapItem) OptHMap {
 
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
+		old := h.pooler != nil
 		if !enable {
 			h.pooler = nil
 		} else if h.pooler == nil {
@@ -131,7 +132,7 @@ func UsePool(enable bool) OptHMap {
 			h.pooler.startMgr()
 		}
 
-		return UsePool(!enable)
+		return UsePool(old)
 	}
 }
 
@@ -143,7 +144,7 @@ func UseEmbeddedPool(enable bool) OptHMap {
 			UsePool(false)(h)
 		}
 
-		return UsePool(old)
+		return UseEmbeddedPool(old)
 	}
 }
 
-- 
2.43.0


From 0f6cdea5e3e6e557569cfdd37667a4b134a20cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 16/44] fix: rmap returns wrong value, loses update/delete and
 panics on missing key

---
 rmap/rmap.go | 222 ++++++++++++++++++++++-----------------------------
 1 file changed, 97 insertions(+), 125 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..a6c245f 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -19,11 +19,16 @@ type baseMap struct {
 type RMap struct {
 	baseMap
 	limit int
+	len   int64
 	dirty *smap.Map
 }
 
+type readKey struct {
+	k, conflict uint64
+}
+
 type readMap struct {
-	m       map[uint64]atomic.Value
+	m       map[readKey]*smap.SampleItem
 	amended bool // include dirty map
 }
 
@@ -32,6 +37,7 @@ func New() (rmap *RMap) {
 	rmap = &RMap{
 		limit: 1000,
 	}
+	rmap.read.Store(&readMap{})
 	rmap.initDirty()
 
 	return rmap
@@ -62,51 +68,52 @@ func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
 
 }
 
-func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
+// getEntry ... find not deleted entry in read map
+func (r *readMap) getEntry(k, conflict uint64) *smap.SampleItem {
 
-	e := m.getDirtyEntry(k, conflict)
-	return e.Value(), true
+	e, ok := r.m[readKey{k, conflict}]
+	if !ok || e.IsDeleted() {
+		return nil
+	}
+	return e
 }
 
 func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
-	read, succ := m.read.Load().(*readMap)
-	if !succ {
-		m.read.Store(&readMap{})
-		read, succ = m.read.Load().(*readMap)
-	}
 
 	ensure := func(item smap.MapItem) {
 		for _, fn := range m.onNewStores {
 			fn(item)
 		}
 	}
-	if e, ok := read.store2(k, conflict, kstr, v); ok {
+	if e, ok := m.read.Load().(*readMap).store2(k, conflict, v); ok {
 		defer ensure(e)
 		return true
 	}
 
-	_, ok := read.m[k]
-	if !ok {
-		e := m.getDirtyEntry(k, conflict)
-		if e != nil {
-			ok = true
-			e.SetValue(v)
-		}
-	}
-	if !ok && !read.amended {
-		m.storeReadFromDirty(true)
+	m.Lock()
+	defer m.Unlock()
+
+	read := m.read.Load().(*readMap)
+	if e, ok := read.store2(k, conflict, v); ok {
+		defer ensure(e)
+		return true
 	}
 
-	if !ok {
-		e := smap.NewSampleItem(kstr, v)
-		e.Init()
-		m.dirty.StoreItem(e)
+	if e := m.getDirtyEntry(k, conflict); e != nil {
+		return e.SetValue(v)
+	}
 
-		if len(read.m) == 0 {
-			m.storeReadFromDirty(true)
-		}
-		defer ensure(e)
+	e := smap.NewSampleItem(kstr, v)
+	e.Init()
+	m.dirty.StoreItem(e)
+	atomic.AddInt64(&m.len, 1)
+	if !read.amended {
+		m.read.Store(&readMap{m: read.m, amended: true})
+	}
+	if len(read.m) == 0 {
+		m.storeReadFromDirty()
 	}
+	defer ensure(e)
 	return true
 }
 
@@ -141,7 +148,7 @@ func (m *RMap) missLocked() {
 	if m.isNotRestoreRead() {
 		return
 	}
-	m.storeReadFromDirty(false)
+	m.storeReadFromDirty()
 	m.misses = 0
 }
 
@@ -153,111 +160,83 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 	read := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	var e *smap.SampleItem
-	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
-			v = e.V
-		}
+	if e := read.getEntry(k, conflict); e != nil {
+		return e.Value(), true
+	}
+	if !read.amended {
+		return nil, false
 	}
 
-	if !ok && read.amended {
-		// m.Lock()
-		// defer m.Unlock()
-		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
-		if !ok && read.amended {
-			v, ok = m.getDirty(k, conflict)
-			m.missLocked()
-		}
+	m.Lock()
+	defer m.Unlock()
+	read = m.read.Load().(*readMap)
+	if e := read.getEntry(k, conflict); e != nil {
+		return e.Value(), true
+	}
+	if !read.amended {
+		return nil, false
+	}
+	if e := m.getDirtyEntry(k, conflict); e != nil {
+		v, ok = e.Value(), true
 	}
+	m.missLocked()
 	return
 }
 
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
-	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	if !ok && read.amended {
-		m.Lock()
-		defer m.Unlock()
-		read, _ := m.read.Load().(*readMap)
-		if !ok && read.amended {
-			// av, ok = m.dirty[k]
-			// delete(m.dirty, k)
-			e := m.getDirtyEntry(k, conflict)
-			if e != nil {
-				m.dirty.AddLen(-1)
-				e.Delete()
-			}
-
-			m.missLocked()
-		}
-	}
-
-	if ok {
-		ohead := av.Load().(*smap.SampleItem)
-		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
+	m.Lock()
+	defer m.Unlock()
 
+	read := m.read.Load().(*readMap)
+	if e := read.getEntry(k, conflict); e != nil {
+		e.Delete()
+		atomic.AddInt64(&m.len, -1)
+		return true
 	}
-	return false
+	if !read.amended {
+		return false
+	}
+	e := m.getDirtyEntry(k, conflict)
+	if e != nil {
+		m.dirty.AddLen(-1)
+		e.Delete()
+		atomic.AddInt64(&m.len, -1)
+	}
+	m.missLocked()
+	return e != nil
 }
+
 func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+	return int(atomic.LoadInt64(&m.len))
 }
 
-func (m *RMap) storeReadFromDirty(amended bool) {
+// storeReadFromDirty ... move items in dirty map to read map. require m.Lock()
+func (m *RMap) storeReadFromDirty() {
 
-	m.Lock()
-	defer m.Unlock()
+	oread := m.read.Load().(*readMap)
 
-	for {
-		oread, _ := m.read.Load().(*readMap)
+	nread := &readMap{
+		m: map[readKey]*smap.SampleItem{},
+	}
 
-		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
-			amended: amended,
+	for k, e := range oread.m {
+		if e.IsDeleted() {
+			continue
 		}
-
-		//MENTION: not require copy oread ?
-		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
-				continue
-			}
-			nread.m[k] = a
+		nread.m[k] = e
+	}
+	m.dirty.RangeItem(func(item smap.MapItem) bool {
+		e, ok := item.(*smap.SampleItem)
+		if ok {
+			nread.m[readKey{e.KeyInHmap(), e.ConflictInHamp()}] = e
 		}
-		m.dirty.RangeItem(func(item smap.MapItem) bool {
-			e, ok := item.(*smap.SampleItem)
-			if ok {
-				a := atomic.Value{}
-				a.Store(e)
-				nread.m[e.KeyInHmap()] = a
-
-			}
-
-			return true
-		})
+		return true
+	})
 
-		if len(nread.m) == 0 {
-			break
-		}
-		if len(oread.m) == 0 {
-			nread.amended = true
-		}
-		if m.read.CompareAndSwap(oread, nread) {
-			m.Unlock()
-			m.initDirty()
-			m.Lock()
-			break
-		}
-		_ = "???"
-	}
+	m.read.Store(nread)
+	m.initDirty()
 }
 
 func (m *RMap) initDirty() {
@@ -270,17 +249,10 @@ func (m *RMap) initDirty() {
 		}))
 }
 
-func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
-	if !ok {
-		return nil, ok
+func (r *readMap) store2(k, conflict uint64, v interface{}) (smap.MapItem, bool) {
+	e := r.getEntry(k, conflict)
+	if e == nil {
+		return nil, false
 	}
-	ohead := ov.Load().(*smap.SampleItem)
-	item := smap.NewSampleItem(kstr, v)
-	item.PtrListHead().Init()
-	item.Setup()
-
-	ok = ov.CompareAndSwap(ohead, item)
-	return item, ok
-
+	return e, e.SetValue(v)
 }
-- 
2.43.0


From b0a64e06b4f508b81c6557e643bcd1a63642955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 17/44] fix: Set reads item before it is got from pool
 goroutine

---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index ed6adf2..9f0ef08 100644
--- a/map.go
+++ b/map.go
@@ -730,6 +730,7 @@ func (h *Map) Set(key, value interface{}) bool {
 			}
 			wg.Done()
 		})
+		wg.Wait()
 		if fn != nil {
 			defer fn()
 		}
@@ -737,7 +738,6 @@ func (h *Map) Set(key, value interface{}) bool {
 		if s != nil && !s.IsSingle() {
 			Log(LogWarn, "get not single entry?")
 		}
-		wg.Wait()
 		if IsExtended {
 			useDump = true
 			IsExtended = false
-- 
2.43.0


From 03bd58c37912e9ffb1565dfdccebfdd5d38e4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 18/44] fix: data race on dummy of bucket in findBucket

---
 map.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/map.go b/map.go
index 9f0ef08..ef31742 100644
--- a/map.go
+++ b/map.go
@@ -1756,12 +1756,15 @@ func (h *Map) findBucket(reverse uint64) (b *bucket) {
 
 func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy bool) (b *bucket) {
 
-	emptyeList := elist_head.ListHead{}
+	isInited := func(b *bucket) bool {
+		l := &b.dummy.ListHead
+		return l.DirectNext() != l || l.DirectPrev() != l
+	}
 
 	results := []*bucket{}
 
 	defer func() {
-		if h.isEmbededItemInBucket || b._parent != nil || b.dummy.ListHead != emptyeList {
+		if h.isEmbededItemInBucket || b._parent != nil || isInited(b) {
 			return
 		}
 		results = append(results, b)
@@ -1769,7 +1772,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 			loncha.Reverse(results)
 		}
 		for _, cBucket := range results {
-			if cBucket.dummy.ListHead != emptyeList {
+			if isInited(cBucket) {
 				b = cBucket
 				return
 			}
-- 
2.43.0


From 5e3d5bfd514f59af4757f2b895b50f80101dec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 19/44] fix: readers use bucket under construction

---
 bucket.go | 33 ++++++++++++++++++++++++---------
 map.go    | 13 +++++++------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/bucket.go b/bucket.go
index 8118a01..6f1c440 100644
--- a/bucket.go
+++ b/bucket.go
@@ -314,23 +314,25 @@ func (o *commonOpt) Option(opts ...cOptFn) (prevs []cOptFn) {
 
 func (b *bucket) largestDown(ignoreNoPool, ignoreNoInitDummy bool) *bucket {
 
-	if len(b.downLevels) == 0 {
-		return b
-	}
+	downLevels := b.ptrDownLevels()
 
-	for i := len(b.downLevels) - 1; i > -1; i-- {
+	for i := downLevels.Len() - 1; i > -1; i-- {
 
-		if b.downLevels[i].level() == 0 || b.downLevels[i].reverse == 0 {
+		down := downLevels.at(i)
+		if down == nil || down.level() == 0 {
 			continue
 		}
-		//FIXME: should not lookup direct
-		if ignoreNoPool && b.downLevels[i]._itemPool == nil {
+		if ignoreNoInitDummy && !down.isActive() {
 			continue
 		}
-		if ignoreNoInitDummy && b.downLevels[i].state != bucketStateActive {
+		if down.reverse == 0 {
+			continue
+		}
+		//FIXME: should not lookup direct
+		if ignoreNoPool && down._itemPool == nil {
 			continue
 		}
-		return b.downLevels[i].largestDown(ignoreNoPool, ignoreNoInitDummy)
+		return down.largestDown(ignoreNoPool, ignoreNoInitDummy)
 	}
 	return b
 }
@@ -416,6 +418,10 @@ func (b *bucket) _head() *elist_head.ListHead {
 	return &b.dummy.ListHead
 }
 
+func (b *bucket) isActive() bool {
+	return atomic.LoadUint32(&b.state) == bucketStateActive
+}
+
 func (b *bucket) isRequireOnOk() bool {
 	return b.state != bucketStateActive && !b.ListHead.IsSingle() && !b.LevelHead.IsSingle() && !b.dummy.IsSingle() && !b.dummy.Empty()
 }
@@ -447,6 +453,15 @@ func (b *bucket) ptrDownLevels() *bucketSlice {
 
 }
 
+// storeDownLevels ... publish downLevels to readers. readers check cap/len before data.
+func (b *bucket) storeDownLevels(downLevels []bucket) {
+
+	list := b.ptrDownLevels()
+	atomic.StorePointer(&list.data, unsafe.Pointer(&downLevels[0]))
+	atomic_util.StoreInt(&list.len, len(downLevels))
+	atomic_util.StoreInt(&list.cap, cap(downLevels))
+}
+
 func (list *bucketSlice) at(i int) (result *bucket) {
 
 	return list._at(i, true)
diff --git a/map.go b/map.go
index ef31742..0dd1ba1 100644
--- a/map.go
+++ b/map.go
@@ -1746,12 +1746,13 @@ func (h *Map) allpools() (pools []*samepleItemPool) {
 }
 
 func (h *Map) FindBucket(reverse uint64) (b *bucket) {
-	return h._findBucket(reverse, false, false)
+	return h.findBucket(reverse)
 }
 
 func (h *Map) findBucket(reverse uint64) (b *bucket) {
 
-	return h._findBucket(reverse, false, false)
+	// bucket is not connected to bucket list and item list until active. reader must not use it.
+	return h._findBucket(reverse, false, !h.isEmbededItemInBucket)
 }
 
 func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy bool) (b *bucket) {
@@ -1818,7 +1819,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 				if ignoreNoPool && bucketDowns.at(i)._itemPool == nil {
 					continue
 				}
-				if ignoreNoInitDummy && bucketDowns.at(i).state != bucketStateActive {
+				if ignoreNoInitDummy && !bucketDowns.at(i).isActive() {
 					continue
 				}
 
@@ -1832,7 +1833,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 		if ignoreNoPool && bucketDowns.at(idx)._itemPool == nil {
 			break
 		}
-		if ignoreNoInitDummy && bucketDowns.at(idx).state != bucketStateActive {
+		if ignoreNoInitDummy && !bucketDowns.at(idx).isActive() {
 			break
 		}
 		// MENTION: if result pool is require, enable
@@ -1899,11 +1900,11 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 				}
 			}
 			lCur.LevelHead.InsertBefore(&downLevels[0].LevelHead)
-			downLevels[0].state = bucketStateInit
+			downLevels[0].state = bucketStateActive
 			// if idx != 0 && !h.isEmbededItemInBucket {
 			// 	h.add2(b.head(), &b.downLevels[0].dummy)
 			// }
-			b.downLevels = downLevels
+			b.storeDownLevels(downLevels)
 		} else if len(b.downLevels) == 0 {
 			if !recoverBucketWithOutInit {
 				goto RETRY_INITIALIZE
-- 
2.43.0


From ee63504828d742448f12da8babef79df824fc54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 20/44] fix: expanding pool moves items which are read by
 others

---
 pool2.go | 74 ++++----------------------------------------------------
 1 file changed, 5 insertions(+), 69 deletions(-)

diff --git a/pool2.go b/pool2.go
index 5a7cbe6..e6efb5a 100644
--- a/pool2.go
+++ b/pool2.go
@@ -247,11 +247,6 @@ func (sp *samepleItemPool) Get() (new MapItem, isExpanded bool, lock sync.Locker
 
 EXPAND:
 
-	// found next pool
-	if nsp := sp.DirectNext(); nsp.DirectNext() != nsp {
-		return samepleItemPoolFromListHead(nsp).Get()
-	}
-
 	// dumping is only debug mode.
 	if IsDebug() {
 		isExpanded = true
@@ -288,77 +283,18 @@ func (sp *samepleItemPool) _expand() (*samepleItemPool, error) {
 	sp.mu.Lock()
 	defer sp.mu.Unlock()
 
-	olen := len(sp.items)
-	empty := elist_head.ListHead{}
-	if sp.items[olen-1].ListHead == empty {
-		Log(LogError, "last item must not be empty")
-	}
-
-	nPool := &samepleItemPool{}
-	_ = nPool
-	var e error
-	var pOpts []list_head.TravOpt
-	var next *list_head.ListHead
 	a := samepleItemPool{}
 	if sp.ListHead == a.ListHead {
-		goto NO_DELETE
-	}
-	next = sp.Next()
-	pOpts = list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
-	e = sp.MarkForDelete()
-	if e != nil {
 		return nil, EPoolAlreadyDeleted
 	}
-NO_DELETE:
-
-	elist_head.InitAsEmpty(&nPool.freeHead, &nPool.freeTail)
-
-	nCap := PoolCap(len(sp.items))
-
-	nPool.items = make([]SampleItem, 0, nCap)
-	nPool.items = append(nPool.items, sp.items...)
-
-	// for debugging
-	var outers []unsafe.Pointer
-	var b strings.Builder
-	if IsDebug() {
-		outers = elist_head.OuterPtrs(
-			unsafe.Pointer(&sp.items[0]),
-			unsafe.Pointer(&sp.items[len(sp.items)-1]),
-			unsafe.Pointer(&nPool.items[0]),
-			int(SampleItemSize),
-			int(SampleItemOffsetOf))
-		sp.DumpExpandInfo(&b, outers, "B:rewrite reverse=0x%x\n", &sp.items[0].reverse)
-	}
-
-	err := elist_head.RepaireSliceAfterCopy(
-		unsafe.Pointer(&sp.items[0]),
-		unsafe.Pointer(&sp.items[len(sp.items)-1]),
-		unsafe.Pointer(&nPool.items[0]),
-		int(SampleItemSize),
-		int(SampleItemOffsetOf))
-
-	if err != nil {
-		return nil, EPoolExpandFail
-	}
-
-	// for debugging
-	if IsDebug() {
-		sp.DumpExpandInfo(&b, outers, "A:rewrite reverse=0x%x\n", &sp.items[0].reverse)
-		fmt.Println(b.String())
-	}
 
+	// items in sp are referenced by reader and linked-list. they must not be moved.
+	nPool := &samepleItemPool{}
+	nPool._init(PoolCap(len(sp.items)))
 	nPool.Init()
 
-	//FIXME: check
-	next.InsertBefore(&nPool.ListHead)
-	list_head.DefaultModeTraverse.Option(pOpts...)
-	if ok, _ := sp.IsSafety(); ok {
-		sp.Init()
-	} else {
-		sp.IsSafety()
-		Log(LogWarn, "old sampleItem pool is not safety")
-	}
+	// first pool in list is used by Get()
+	sp.InsertBefore(&nPool.ListHead)
 	return nPool, nil
 }
 
-- 
2.43.0


From 572c4647af084ad9813514cf96b4581e6693351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 21/44] fix: dummy or item of other layout is converted to
 pointer outside of object

---
 bucket.go  |  2 +-
 map.go     | 25 +++++++++++++++++--------
 maphead.go | 21 +++++++++++++++++++++
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/bucket.go b/bucket.go
index 6f1c440..27e20f1 100644
--- a/bucket.go
+++ b/bucket.go
@@ -279,7 +279,7 @@ func (b *bucket) entry(h *Map) (e HMapEntry) {
 	}
 	head := b.head()
 	if !head.Empty() {
-		return h.ItemFn().HmapEntryFromListHead(head)
+		return h.entryFromListHead(head)
 	}
 	result := b.NextEntry()
 	if result == nil {
diff --git a/map.go b/map.go
index 0dd1ba1..19e8df9 100644
--- a/map.go
+++ b/map.go
@@ -825,12 +825,12 @@ func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts .
 
 	conf := newSearchOpt(opts...)
 	cnt = 0
-	var e MapItem
+	var e HMapEntry
 	if start.Empty() {
 		return
 	}
 	for cur := start; cur != cur.Next(); cur = cur.Next() {
-		e = entryHMapFromListHead(cur)
+		e = headEntry{mapheadFromLListHead(cur)}
 
 		if conf.ignoreBucketEntry() && e.PtrMapHead().IsIgnored() {
 			continue
@@ -852,7 +852,7 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 	cur := ocur
 	cur = cur.Prev()
 
-	e := entryHMapFromListHead(cur)
+	e := mapheadFromLListHead(cur)
 	cBucket := h.searchBucket(bits.Reverse64(e.reverse))
 	if cBucket == nil || cBucket.reverse > e.reverse {
 		return ErrBucketNotFound
@@ -932,7 +932,7 @@ func (h *Map) makeBucket(ocur *elist_head.ListHead, back int) (err error) {
 
 	for cur := cBucket.head().Prev().Next(); !cur.Empty(); cur = cur.Next() {
 		b._len++
-		e := entryHMapFromListHead(cur)
+		e := mapheadFromLListHead(cur)
 		if e.reverse > b.reverse {
 			break
 		}
@@ -1384,6 +1384,15 @@ const (
 	CntOfGet         statKey = 5
 )
 
+// entryFromListHead ... entry of dummy is not type of item.
+// if convert to type of item, pointer can be outside of object having dummy.
+func (h *Map) entryFromListHead(l *elist_head.ListHead) HMapEntry {
+	if mapheadFromLListHead(l).IsDummy() {
+		return entryHMapFromListHead(l)
+	}
+	return h.ItemFn().HmapEntryFromListHead(l)
+}
+
 func nextNoCheck(e HMapEntry) HMapEntry {
 	return e.Next()
 }
@@ -1610,7 +1619,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				continue
 			}
 			if curReverse == reverseNoMask {
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.entryFromListHead(cur.PtrListHead())
 			}
 			return nil
 		}
@@ -1631,7 +1640,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			continue
 		}
 		if curReverse == reverseNoMask {
-			return result.HmapEntryFromListHead(cur.PtrListHead())
+			return h.entryFromListHead(cur.PtrListHead())
 		}
 
 		return nil
@@ -1726,12 +1735,12 @@ func (h *Map) Range(f func(key, value interface{}) bool) {
 
 func (h *Map) First() HMapEntry {
 	cur := h.head.DirectPrev().DirectNext()
-	return h.ItemFn().HmapEntryFromListHead(cur)
+	return h.entryFromListHead(cur)
 }
 
 func (h *Map) Last() HMapEntry {
 	cur := h.tail.DirectNext().DirectPrev()
-	return h.ItemFn().HmapEntryFromListHead(cur)
+	return h.entryFromListHead(cur)
 }
 
 func (h *Map) allpools() (pools []*samepleItemPool) {
diff --git a/maphead.go b/maphead.go
index b6c8b56..c10bd69 100644
--- a/maphead.go
+++ b/maphead.go
@@ -102,6 +102,27 @@ func (c *MapHead) PrevtWithNil() *MapHead {
 	return c.fromListHead(c.Prev())
 }
 
+// headEntry ... entry not depending on type of item.
+type headEntry struct {
+	*MapHead
+}
+
+func (e headEntry) PtrMapHead() *MapHead {
+	return e.MapHead
+}
+
+func (e headEntry) HmapEntryFromListHead(l *elist_head.ListHead) HMapEntry {
+	return headEntry{mapheadFromLListHead(l)}
+}
+
+func (e headEntry) Next() HMapEntry {
+	return e.HmapEntryFromListHead(e.PtrListHead().DirectNext())
+}
+
+func (e headEntry) Prev() HMapEntry {
+	return e.HmapEntryFromListHead(e.PtrListHead().DirectPrev())
+}
+
 func (mhead *MapHead) dump(w io.Writer) {
 
 	e := fromMapHead(mhead)
-- 
2.43.0


From 3999b2bbe30eba47319b42766aef3e06cf3edc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 22/44] fix: DumpEntry reads key of item as SampleItem

---
 map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index 19e8df9..0d1826b 100644
--- a/map.go
+++ b/map.go
@@ -1200,10 +1200,11 @@ func (h *Map) DumpEntry(w io.Writer) {
 		//var e HMapEntry
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
-		e := fromMapHead(mhead)
 
 		var ekey interface{}
-		ekey = e.Key()
+		if e, ok := h.entryFromListHead(cur).(MapItem); ok {
+			ekey = e.Key()
+		}
 		fmt.Fprintf(&b, "  entryHMap{key: %+10v, k: 0x%16x, reverse: 0x%16x), conflict: 0x%x, cur: %p, prev: %p, next: %p}\n",
 			ekey, bits.Reverse64(mhead.reverse), mhead.reverse, mhead.conflict, mhead.PtrListHead(), mhead.PtrListHead().DirectPrev(), mhead.PtrListHead().DirectNext())
 	}
-- 
2.43.0


From 06ff574e39bd031238fe99f08a45477b76b6befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 23/44] fix: data race on ItemFn set by first Set/StoreItem

---
 map.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/map.go b/map.go
index 0d1826b..3b06348 100644
--- a/map.go
+++ b/map.go
@@ -15,6 +15,7 @@ import (
 	"sync"
 	"sync/atomic"
 	"syscall"
+	"unsafe"
 
 	"github.com/kazu/elist_head"
 	"github.com/kazu/loncha"
@@ -113,8 +114,8 @@ func BucketMode(mode SearchMode) OptHMap {
 
 func ItemFn(fn func() MapItem) OptHMap {
 	return func(h *Map) OptHMap {
-		prev := h.ItemFn
-		h.ItemFn = fn
+		prev := h.loadItemFn()
+		h.storeItemFn(fn)
 		if prev == nil {
 			return nil
 		}
@@ -122,6 +123,16 @@ func ItemFn(fn func() MapItem) OptHMap {
 	}
 }
 
+// loadItemFn ... ItemFn is set by first Set()/StoreItem(). reader must not be blocked by writer
+func (h *Map) loadItemFn() func() MapItem {
+	p := atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&h.ItemFn)))
+	return *(*func() MapItem)(unsafe.Pointer(&p))
+}
+
+func (h *Map) storeItemFn(fn func() MapItem) {
+	atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(&h.ItemFn)), *(*unsafe.Pointer)(unsafe.Pointer(&fn)))
+}
+
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
 		old := h.pooler != nil
@@ -759,7 +770,7 @@ func (h *Map) Set(key, value interface{}) bool {
 	s.K = key.(string)
 	s.SetValue(value)
 
-	if _, ok := h.ItemFn().(*SampleItem); !ok {
+	if _, ok := h.loadItemFn()().(*SampleItem); !ok {
 		ItemFn(func() MapItem {
 			return EmptySampleHMapEntry
 		})(h)
@@ -790,7 +801,7 @@ func (h *Map) StoreItem(item MapItem) bool {
 	}
 
 	// type of item is not configured by ItemFn()
-	if _, ok := item.(*entryHMap); !ok && h.ItemFn() == MapItem(emptyEntryHMap) {
+	if _, ok := item.(*entryHMap); !ok && h.loadItemFn()() == MapItem(emptyEntryHMap) {
 		ItemFn(func() MapItem {
 			return item
 		})(h)
@@ -1391,7 +1402,7 @@ func (h *Map) entryFromListHead(l *elist_head.ListHead) HMapEntry {
 	if mapheadFromLListHead(l).IsDummy() {
 		return entryHMapFromListHead(l)
 	}
-	return h.ItemFn().HmapEntryFromListHead(l)
+	return h.loadItemFn()().HmapEntryFromListHead(l)
 }
 
 func nextNoCheck(e HMapEntry) HMapEntry {
@@ -1718,7 +1729,7 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 		if mhead.IsIgnored() {
 			continue
 		}
-		e := h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem)
+		e := h.loadItemFn()().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem)
 		if !f(e) {
 			break
 		}
-- 
2.43.0


From 3af82c6abc9694ba1f96349d3092519855a5f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 24/44] fix: end of list of buckets is converted to pointer
 outside of object

---
 map.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/map.go b/map.go
index 3b06348..37b07fb 100644
--- a/map.go
+++ b/map.go
@@ -180,8 +180,9 @@ func NewHMap(opts ...OptHMap) *Map {
 		maxPerBucket: 32,
 	}
 
-	topBucket := newBucket()
-	topBucket.InitAsEmpty()
+	// both ends of list are in bucket, because end of list may be converted to pointer of bucket.
+	topBucket, lastBucket := newBucket(), &bucket{}
+	list_head.InitAsEmpty(&topBucket.ListHead, &lastBucket.ListHead)
 	hmap.tailBucket = topBucket.Next()
 	hmap.headBucket = topBucket.Prev()
 
@@ -1350,9 +1351,10 @@ func (h *Map) initLevels() {
 	defer h.mu.Unlock()
 
 	for i := range h.levels {
-		b := newBucket()
+		b, last := newBucket(), &bucket{}
 		b.setLevel(int32(i) + 1)
-		b.LevelHead.InitAsEmpty()
+		// both ends of list are in bucket, because end of list may be converted to pointer of bucket.
+		list_head.InitAsEmpty(&b.LevelHead, &last.LevelHead)
 		h.levels[i].Store(b)
 	}
 }
-- 
2.43.0


From 2074ece37e55db027a0796f6b93a6893330f3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 25/44] fix: data race on value and key of item of NewEntryMap

---
 item.go | 19 +++++++++++--------
 map.go  |  8 ++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/item.go b/item.go
index 23fe8a6..09ada6e 100644
--- a/item.go
+++ b/item.go
@@ -6,6 +6,7 @@ package skiplistmap
 
 import (
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -13,16 +14,15 @@ import (
 
 type entryHMap struct {
 	key   interface{}
-	value interface{}
+	value atomic.Value
 
 	MapHead
 }
 
 func NewEntryMap(key, value interface{}) *entryHMap {
-	return &entryHMap{
-		key:   key,
-		value: value,
-	}
+	e := &entryHMap{key: key}
+	e.SetValue(value)
+	return e
 }
 
 var (
@@ -52,11 +52,14 @@ func (s *entryHMap) Key() interface{} {
 }
 
 func (s *entryHMap) Value() interface{} {
-	return s.value
+	if boxed, ok := s.value.Load().(*boxedValue); ok {
+		return boxed.v
+	}
+	return nil
 }
 
 func (s *entryHMap) SetValue(v interface{}) bool {
-	s.value = v
+	s.value.Store(&boxedValue{v: v})
 	return true
 }
 
@@ -78,7 +81,7 @@ func (s *entryHMap) Offset() uintptr {
 }
 
 func (s *entryHMap) Delete() {
-	s.key = nil
+	// key is not cleared, because it may be read by others.
 	s.MapHead.addState(mapIsDeleted)
 }
 
diff --git a/map.go b/map.go
index 37b07fb..2c49300 100644
--- a/map.go
+++ b/map.go
@@ -247,7 +247,7 @@ func (h *Map) initBeforeSet() {
 	btable.LevelHead.Init()
 
 	empty := &btable.dummy
-	empty.key, empty.value = nil, nil
+	empty.key = nil
 	empty.reverse, empty.conflict = btable.reverse, 0
 	empty.PtrMapHead().state |= mapIsDummy
 
@@ -288,7 +288,7 @@ func (h *Map) initBeforeSet() {
 		}
 
 		empty = &btable.dummy
-		empty.key, empty.value = nil, nil
+		empty.key = nil
 		empty.reverse, empty.conflict = btable.reverse, 0
 		empty.PtrMapHead().state |= mapIsDummy
 
@@ -827,7 +827,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		fn(e.key, e.value)
+		fn(e.key, e.Value())
 	}
 	return
 }
@@ -1262,7 +1262,7 @@ func reverse2Index(level int, r uint64) (idx int) {
 func (h *Map) _InsertBefore(tBtable *list_head.ListHead, nBtable *bucket) {
 
 	empty := &nBtable.dummy
-	empty.key, empty.value = nil, nil
+	empty.key = nil
 	empty.reverse, empty.conflict = nBtable.reverse, 0
 	empty.PtrMapHead().state |= mapIsDummy
 	empty.Init()
-- 
2.43.0


From 63d2936a3d5a1a688113e341c5e3b4c0f02470cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 26/44] fix: reader does not find item again while it is
 inserted

---
 map.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/map.go b/map.go
index 2c49300..0af477e 100644
--- a/map.go
+++ b/map.go
@@ -504,13 +504,17 @@ func findSameConflict(e HMapEntry, conflict uint64) HMapEntry {
 	if match(mhead) {
 		return e
 	}
-	for cur := mhead.PrevtWithNil(); cur != nil && atomic.LoadUint64(&cur.reverse) == reverse; cur = cur.PrevtWithNil() {
-		if match(cur) {
-			return e.HmapEntryFromListHead(cur.PtrListHead())
+	// item under insertion is linked only from previous one. must go forward from the front of the same hash.
+	cur := mhead
+	for atomic.LoadUint64(&cur.reverse) == reverse {
+		prev := cur.PrevtWithNil()
+		if prev == nil {
+			break
 		}
+		cur = prev
 	}
-	for cur := mhead.NextWithNil(); cur != nil && atomic.LoadUint64(&cur.reverse) == reverse; cur = cur.NextWithNil() {
-		if match(cur) {
+	for ; cur != nil && atomic.LoadUint64(&cur.reverse) <= reverse; cur = cur.NextWithNil() {
+		if atomic.LoadUint64(&cur.reverse) == reverse && match(cur) {
 			return e.HmapEntryFromListHead(cur.PtrListHead())
 		}
 	}
@@ -1647,16 +1651,25 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			h.mu.Unlock()
 		}
 		curReverse := cur.reverse
-		if ignoreBucketEnry && cur.IsIgnored() {
-			continue
-		}
 		if curReverse > reverseNoMask {
 			continue
 		}
 		if curReverse == reverseNoMask {
+			if ignoreBucketEnry && cur.IsIgnored() {
+				continue
+			}
 			return h.entryFromListHead(cur.PtrListHead())
 		}
 
+		// item under insertion is linked only from previous one.
+		for cur = cur.NextWithNil(); cur != nil && cur.reverse <= reverseNoMask; cur = cur.NextWithNil() {
+			if ignoreBucketEnry && cur.IsIgnored() {
+				continue
+			}
+			if cur.reverse == reverseNoMask {
+				return h.entryFromListHead(cur.PtrListHead())
+			}
+		}
 		return nil
 
 	}
-- 
2.43.0


From 01d0b717088a08800567d3cc1ca6322b19d5df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:45 +0000
Subject: [PATCH 27/44] fix: end of list of items is converted to pointer
 outside of object

---
 map.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index 0af477e..0b69035 100644
--- a/map.go
+++ b/map.go
@@ -186,8 +186,12 @@ func NewHMap(opts ...OptHMap) *Map {
 	hmap.tailBucket = topBucket.Next()
 	hmap.headBucket = topBucket.Prev()
 
-	hmap.head = &elist_head.ListHead{}
-	hmap.tail = &elist_head.ListHead{}
+	// both ends of list are in entry, because end of list may be converted to pointer of entry.
+	first, last := &entryHMap{}, &entryHMap{}
+	first.state, last.state = mapIsDummy, mapIsDummy
+	last.reverse = ^uint64(0)
+	hmap.head = first.PtrListHead()
+	hmap.tail = last.PtrListHead()
 	elist_head.InitAsEmpty(hmap.head, hmap.tail)
 
 	hmap.modeForBucket = NestedSearchForBucket
-- 
2.43.0


From af9abe1e7a4b881f99d7a3c3e58a14a1f095722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 28/44] fix: items of pool which is switched off are kept
 reachable for GC

---
 map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/map.go b/map.go
index 0b69035..e3b307b 100644
--- a/map.go
+++ b/map.go
@@ -65,6 +65,9 @@ type Map struct {
 
 	// items not in pool. list connect items by offset, GC cannot reach item via list.
 	unpooled []MapItem
+
+	// pools not used any more. items in them are still in list.
+	oldPools []*Pool
 }
 
 var conf mapConf = mapConf{
@@ -137,6 +140,9 @@ func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
 		old := h.pooler != nil
 		if !enable {
+			if h.pooler != nil {
+				h.oldPools = append(h.oldPools, h.pooler)
+			}
 			h.pooler = nil
 		} else if h.pooler == nil {
 			h.pooler = newPool()
-- 
2.43.0


From 06126be6d9140bf463a510f53c58de2ba85cde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 29/44] fix: StoreItem to map with embedded pool loses the item

the item was put into the chain, but lookups search pools of buckets only:
StoreItem returned true, Len was counted and the key was never found.
---
 map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map.go b/map.go
index e3b307b..47710f4 100644
--- a/map.go
+++ b/map.go
@@ -802,6 +802,11 @@ func (h *Map) Set(key, value interface{}) bool {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	if h.isEmbededItemInBucket {
+		// items live in pools of buckets. key/value of item are stored to one of them
+		s, ok := item.(*SampleItem)
+		return ok && h.Set(s.K, s.Value())
+	}
 	k, conflict := item.KeyHash()
 
 	if ok, found := h.updateItem(k, conflict, item.Value()); found {
-- 
2.43.0


From 8111882a89517997f310bb1bc1b11cbc560910ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 30/44] fix: Range and RangeItem in embedded maps miss keys if
 callback changes the map

Items in embedded pools are moved by Set() and Purge(), so a position in
the list cannot be kept while the callback runs. Take the hashes of keys
under the locks of pools, and look up each key again.
---
 map.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/map.go b/map.go
index 47710f4..a149e05 100644
--- a/map.go
+++ b/map.go
@@ -1751,6 +1751,14 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 // called ordre is reverse key order
 func (h *Map) RangeItem(f func(MapItem) bool) {
 
+	if h.isEmbededItemInBucket {
+		h.rangeHash(func(k, conflict uint64) bool {
+			item, ok := h.LoadItemByHash(k, conflict)
+			return !ok || f(item)
+		})
+		return
+	}
+
 	oldConfs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
 	defer list_head.DefaultModeTraverse.Option(oldConfs...)
 
@@ -1770,11 +1778,49 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 // order is reverse key order
 func (h *Map) Range(f func(key, value interface{}) bool) {
 
+	if h.isEmbededItemInBucket {
+		h.rangeHash(func(k, conflict uint64) bool {
+			key, value, ok := h.loadKeyValue(k, conflict)
+			return !ok || f(key, value)
+		})
+		return
+	}
+
 	h.RangeItem(func(item MapItem) bool {
 		return f(item.Key(), item.Value())
 	})
 }
 
+// rangeHash ... calls f for hash of each key present in the map with embedded pool.
+// item in embedded pool is moved by Set() and Purge(), also if f calls them. position in list cannot be kept.
+func (h *Map) rangeHash(f func(k, conflict uint64) bool) {
+
+	var hashes [][2]uint64
+	mu := h.lockPool()
+	for cur := mapheadFromLListHead(h.head.DirectPrev().DirectNext()); cur != nil; cur = cur.NextWithNil() {
+		if !cur.IsIgnored() {
+			hashes = append(hashes, [2]uint64{bits.Reverse64(cur.reverse), cur.conflict})
+		}
+	}
+	lazyUnlock(mu)
+
+	for _, hash := range hashes {
+		if !f(hash[0], hash[1]) {
+			break
+		}
+	}
+}
+
+func (h *Map) loadKeyValue(k, conflict uint64) (key, value interface{}, ok bool) {
+	defer lazyUnlock(h.lockPool())
+
+	item, ok := h._get(k, conflict)
+	if !ok {
+		return nil, nil, false
+	}
+	return item.Key(), item.Value(), true
+}
+
 func (h *Map) First() HMapEntry {
 	cur := h.head.DirectPrev().DirectNext()
 	return h.entryFromListHead(cur)
-- 
2.43.0


From c657c8b05e7f553002488a07d49492a3b6588761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 31/44] fix: Set with a key that is not string leaves an item
 without key

Set() panics if a new key is not a string. Panic before an item is taken
from the pool, otherwise an empty slot stays in the embedded pool.
---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index a149e05..45a7441 100644
--- a/map.go
+++ b/map.go
@@ -710,6 +710,9 @@ func (h *Map) Set(key, value interface{}) bool {
 	var s *SampleItem
 	useDump := false
 
+	// panic by other types of key must be before an item is taken from pool
+	skey := key.(string)
+
 	if h.pooler == nil && h.modeForBucket == CombineSearch4 && !h.isEmbededItemInBucket {
 		UsePool(true)(h)
 	}
@@ -782,7 +785,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		h.retain(s)
 	}
 
-	s.K = key.(string)
+	s.K = skey
 	s.SetValue(value)
 
 	if _, ok := h.loadItemFn()().(*SampleItem); !ok {
-- 
2.43.0


From d9a9eac48827ce5be71dd543791f418d7cb85c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 32/44] fix: insert to embedded pool writes to collected memory

terminaters of the list used by nextListHeadOfSampleItem() are referenced
by offsets only. They could be collected, and their memory be used by
others, while the inserts still write to them.
---
 map_embedded.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 8164dd6..1009f8e 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -6,6 +6,7 @@ package skiplistmap
 import (
 	"fmt"
 	"math/bits"
+	"runtime"
 	"sort"
 	"strings"
 	"sync"
@@ -615,14 +616,18 @@ func (sp *samepleItemPool) expand(mu sync.Locker) (unlocker, error) {
 func nextListHeadOfSampleItem() elist_head.ListHead {
 
 	list := elist_head.NewEmptyList()
+	tail := list.Tail()
 
 	items := make([]SampleItem, 3)
 
-	list.Tail().InsertBefore(items[2].PtrListHead())
+	tail.InsertBefore(items[2].PtrListHead())
 	items[2].InsertBefore(items[1].PtrListHead())
 	items[1].InsertBefore(items[0].PtrListHead())
+	middle := items[1].ListHead
 
-	return items[1].ListHead
+	// offsets in list-head do not keep terminaters alive. they are written by the inserts.
+	runtime.KeepAlive(tail)
+	return middle
 }
 
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
-- 
2.43.0


From 8741da5adf58b7714df26e65ae444dc881392895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:10 +0000
Subject: [PATCH 33/44] fix: iteration switches traversal of all lists of
 buckets to unsynchronized reads

RangeItem() and findNextLevelBucket() changed a global mode of list_head,
which is read by all goroutines. Readers of buckets load links without
atomic in this mode, and read the contents of a bucket just made by
another goroutine. Nothing is marked in lists of buckets, so that waiting
for marks is not required.
---
 map.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/map.go b/map.go
index 45a7441..ac9fd9e 100644
--- a/map.go
+++ b/map.go
@@ -1341,9 +1341,7 @@ func (h *Map) findNextLevelBucket(reverse uint64, level int32) (cur *list_head.L
 	if bcur == nil {
 		return nil
 	}
-	prevs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
 	front := bcur.LevelHead.Front()
-	list_head.DefaultModeTraverse.Option(prevs...)
 	bcur = bucketFromLevelHead(front.DirectPrev().DirectNext())
 
 	cnt := 0
@@ -1762,9 +1760,6 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 		return
 	}
 
-	oldConfs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
-	defer list_head.DefaultModeTraverse.Option(oldConfs...)
-
 	for cur := h.head.Prev(list_head.WaitNoM()).Next(list_head.WaitNoM()); !cur.Empty(); cur = cur.Next(list_head.WaitNoM()) {
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		if mhead.IsIgnored() {
-- 
2.43.0


From 5e8b74ca4976b9e67d9062ae261fbb54e50b724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:44 +0000
Subject: [PATCH 34/44] fix: insert to embedded pool converts end of list to an
 item

values for debug are not used. The tail of the list is not part of an
item, so that the pointer refers to another object.
---
 map_embedded.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 1009f8e..65d8f9e 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -399,18 +399,11 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 		if err != nil {
 			Log(LogFatal, "replace fail")
 		}
-		first := EmptyMapHead.fromListHead(newListHead.Next())
-		last := EmptyMapHead.fromListHead(newListTail.Prev())
 		pOpts := elist_head.SharedTrav(list_head.WaitNoM())
 		newItems[i].MarkForDelete()
 		elist_head.SharedTrav(pOpts...)
 		newItems[i].Init()
 
-		// for debug
-		first = EmptyMapHead.fromListHead(newListHead.Next())
-		last = EmptyMapHead.fromListHead(newListTail.Next())
-		_, _ = first, last
-
 		err = prevItem.ReplaceNext(newListHead.Next(), newListTail.Prev(), nextItem)
 		if err != nil {
 			Log(LogFatal, "fail to replace newItems")
-- 
2.43.0


From edfcc56cf9b154e89d4ff03ea7f8791ffe60e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 35/44] fix: New() writes a mode shared by all maps

New(), and the pools made by the first Set(), wrote list_head.MODE_CONCURRENT,
which is read by all operations on all maps: making a map while another is made
or in use was a data race. Set it once, when the package is initialized.
---
 map.go   | 6 +++++-
 pool2.go | 3 ---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/map.go b/map.go
index ac9fd9e..aab4ee8 100644
--- a/map.go
+++ b/map.go
@@ -179,8 +179,12 @@ func New(opts ...OptHMap) *Map {
 
 }
 
-func NewHMap(opts ...OptHMap) *Map {
+func init() {
+	// only once and before using map, because mode is shared and read by all maps
 	list_head.MODE_CONCURRENT = true
+}
+
+func NewHMap(opts ...OptHMap) *Map {
 	hmap := &Map{
 		len:          0,
 		maxPerBucket: 32,
diff --git a/pool2.go b/pool2.go
index e6efb5a..30d8dfe 100644
--- a/pool2.go
+++ b/pool2.go
@@ -147,9 +147,6 @@ func (sp *samepleItemPool) _init(cap int) {
 	elist_head.InitAsEmpty(&sp.freeHead, &sp.freeTail)
 
 	sp.items = make([]SampleItem, 0, cap)
-	if !list_head.MODE_CONCURRENT {
-		list_head.MODE_CONCURRENT = true
-	}
 	//sp.Init()
 }
 
-- 
2.43.0


From c6386cf960c3d10898975ecbba07e0a250517ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 36/44] fix: statistics of several maps

With EnableStats on, operations on different maps updated the map DebugStats
under the locks of their own maps (concurrent map writes), and making a map
swapped the writer of Log(), which is shared too. Use one lock for the
statistics and write to os.Stderr directly.
---
 debug.go | 12 ++++++++++++
 item.go  |  2 +-
 map.go   | 23 ++++++-----------------
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/debug.go b/debug.go
index 3d0b82c..ce646c8 100644
--- a/debug.go
+++ b/debug.go
@@ -3,6 +3,7 @@ package skiplistmap
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 type statKey byte
@@ -11,10 +12,21 @@ var EnableStats bool = false
 
 var DebugStats map[statKey]int = map[statKey]int{}
 
+// muStats ... DebugStats is shared by all maps.
+var muStats sync.Mutex
+
 func ResetStats() {
+	muStats.Lock()
+	defer muStats.Unlock()
 	DebugStats = map[statKey]int{}
 }
 
+func countStat(key statKey) {
+	muStats.Lock()
+	defer muStats.Unlock()
+	DebugStats[key]++
+}
+
 type LogLevel byte
 
 const (
diff --git a/item.go b/item.go
index 09ada6e..04f69be 100644
--- a/item.go
+++ b/item.go
@@ -115,7 +115,7 @@ func CondOfFind(reverse uint64, l sync.Locker) CondOfFinder {
 
 		if EnableStats {
 			l.Lock()
-			DebugStats[CntSearchEntry]++
+			countStat(CntSearchEntry)
 			l.Unlock()
 		}
 		return reverse <= ehead.reverse
diff --git a/map.go b/map.go
index aab4ee8..cc3aa28 100644
--- a/map.go
+++ b/map.go
@@ -326,11 +326,8 @@ func (h *Map) initBeforeSet() {
 	}
 
 	if EnableStats {
-		old := logio
-		logio = os.Stderr
-		h.DumpBucket(logio)
-		h.DumpEntry(logio)
-		logio = old
+		h.DumpBucket(os.Stderr)
+		h.DumpEntry(os.Stderr)
 	}
 }
 
@@ -487,9 +484,7 @@ var Failreverse uint64 = 0
 
 func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	if EnableStats {
-		h.mu.Lock()
-		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		countStat(CntOfGet)
 	}
 	e := h.searchKey(k, true)
 	if e == nil {
@@ -538,9 +533,7 @@ func findSameConflict(e HMapEntry, conflict uint64) HMapEntry {
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
-		h.mu.Lock()
-		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		countStat(CntOfGet)
 	}
 	var bucket *bucket
 	var reverse uint64
@@ -1645,9 +1638,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 			pCur = cur
 			if EnableStats && ignoreBucketEnry {
-				h.mu.Lock()
-				DebugStats[CntReverseSearch]++
-				h.mu.Unlock()
+				countStat(CntReverseSearch)
 			}
 			if ignoreBucketEnry && cur.IsIgnored() {
 				continue
@@ -1666,9 +1657,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	result := lbNext.entry(h)
 	for cur := result.PtrMapHead(); cur != nil; cur = cur.PrevtWithNil() {
 		if EnableStats && ignoreBucketEnry {
-			h.mu.Lock()
-			DebugStats[CntSearchEntry]++
-			h.mu.Unlock()
+			countStat(CntSearchEntry)
 		}
 		curReverse := cur.reverse
 		if curReverse > reverseNoMask {
-- 
2.43.0


From 44f6442ab2eff4c9f4624e4c8a763dcded544de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:45 +0000
Subject: [PATCH 37/44] fix: Log() drops warnings and errors

Log() wrote messages up to the current level instead of from it: with
LogInfo debug messages were written, but warnings and errors were not.
---
 debug.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/debug.go b/debug.go
index ce646c8..3d05024 100644
--- a/debug.go
+++ b/debug.go
@@ -52,7 +52,7 @@ func Log(l LogLevel, s string, args ...interface{}) {
 		panic(fmt.Sprintf(s, args...))
 	}
 
-	if CurrentLogLevel >= l {
+	if l >= CurrentLogLevel {
 		fmt.Fprintf(logio, s, args...)
 	}
 
-- 
2.43.0


From 22ba743e9e75a7c46c067d115014f0dfa071e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 38/44] fix: SetValue of SampleItem panics if V is set by the
 user

V is exported and stores of atomic.Value must keep the type.
---
 sample_hmap_entry.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 805b707..1f1ee3f 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -8,6 +8,7 @@ package skiplistmap
 
 import (
 	"math/bits"
+	"reflect"
 	"sync/atomic"
 	"unsafe"
 
@@ -66,7 +67,23 @@ func (s *SampleItem) Value() interface{} {
 	return v
 }
 
+// isRawValue ... value is stored to V by user, type of atomic.Value cannot be changed.
+func (s *SampleItem) isRawValue() bool {
+	switch s.V.Load().(type) {
+	case nil, *boxedValue:
+		return false
+	}
+	return true
+}
+
 func (s *SampleItem) SetValue(v interface{}) bool {
+	if s.isRawValue() {
+		if reflect.TypeOf(v) != reflect.TypeOf(s.V.Load()) {
+			return false
+		}
+		s.V.Store(v)
+		return true
+	}
 	s.V.Store(&boxedValue{v: v})
 	return true
 }
-- 
2.43.0


From fae327d792e87fc12b6a3f423fc2c70234a9c9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 39/44] fix: Delete keeps the value of the item alive

nil is set as value. readers check the mark behind loading the value.
---
 item.go              |  1 +
 map.go               | 36 ++++++++++++++++++++++++------------
 rmap/rmap.go         |  5 ++++-
 sample_hmap_entry.go |  8 ++++++++
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/item.go b/item.go
index 04f69be..b4a7941 100644
--- a/item.go
+++ b/item.go
@@ -83,6 +83,7 @@ func (s *entryHMap) Offset() uintptr {
 func (s *entryHMap) Delete() {
 	// key is not cleared, because it may be read by others.
 	s.MapHead.addState(mapIsDeleted)
+	s.value.Store(nilValue)
 }
 
 func (s *entryHMap) KeyHash() (uint64, uint64) {
diff --git a/map.go b/map.go
index cc3aa28..783bd90 100644
--- a/map.go
+++ b/map.go
@@ -606,20 +606,28 @@ func (h *Map) lockPool() sync.Locker {
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 	defer lazyUnlock(h.lockPool())
-	item, ok := h._get(KeyToHash(key))
-	if !ok {
-		return nil, false
-	}
-	return item.Value(), ok
+	_, value, ok = h.loadValue(KeyToHash(key))
+	return
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
 	defer lazyUnlock(h.lockPool())
-	item, ok := h._get(hash, conflict)
-	if !ok {
-		return nil, false
+	_, value, ok = h.loadValue(hash, conflict)
+	return
+}
+
+// loadValue ... return item and its value. value of item is lost if item is deleted meanwhile.
+func (h *Map) loadValue(k, conflict uint64) (item MapItem, value interface{}, ok bool) {
+	for {
+		item, ok = h._get(k, conflict)
+		if !ok {
+			return nil, nil, false
+		}
+		value = item.Value()
+		if !item.PtrMapHead().IsDeleted() {
+			return item, value, true
+		}
 	}
-	return item.Value(), ok
 }
 
 // LoadItem ... return key/value item with embedded-linked-list. if not found, ok is false
@@ -1778,7 +1786,11 @@ func (h *Map) Range(f func(key, value interface{}) bool) {
 	}
 
 	h.RangeItem(func(item MapItem) bool {
-		return f(item.Key(), item.Value())
+		key, value := item.Key(), item.Value()
+		if item.PtrMapHead().IsDeleted() {
+			return true
+		}
+		return f(key, value)
 	})
 }
 
@@ -1805,11 +1817,11 @@ func (h *Map) rangeHash(f func(k, conflict uint64) bool) {
 func (h *Map) loadKeyValue(k, conflict uint64) (key, value interface{}, ok bool) {
 	defer lazyUnlock(h.lockPool())
 
-	item, ok := h._get(k, conflict)
+	item, value, ok := h.loadValue(k, conflict)
 	if !ok {
 		return nil, nil, false
 	}
-	return item.Key(), item.Value(), true
+	return item.Key(), value, true
 }
 
 func (h *Map) First() HMapEntry {
diff --git a/rmap/rmap.go b/rmap/rmap.go
index a6c245f..e8943bc 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -161,7 +161,10 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 	read := m.read.Load().(*readMap)
 	if e := read.getEntry(k, conflict); e != nil {
-		return e.Value(), true
+		// value is set to nil by Delete()
+		if v = e.Value(); !e.IsDeleted() {
+			return v, true
+		}
 	}
 	if !read.amended {
 		return nil, false
diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 1f1ee3f..dde0324 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -59,6 +59,9 @@ type boxedValue struct {
 	v interface{}
 }
 
+// nilValue ... value of deleted item
+var nilValue = &boxedValue{}
+
 func (s *SampleItem) Value() interface{} {
 	v := s.V.Load()
 	if boxed, ok := v.(*boxedValue); ok {
@@ -104,8 +107,13 @@ func (s *SampleItem) PtrMapHead() *MapHead {
 	return &s.MapHead
 }
 
+// Delete ... mark as deleted and set nil as value.
+// reader must check the mark behind loading value, see loadValue()
 func (s *SampleItem) Delete() {
 	s.addState(mapIsDeleted)
+	if !s.isRawValue() {
+		s.V.Store(nilValue)
+	}
 }
 
 func (s *SampleItem) KeyHash() (uint64, uint64) {
-- 
2.43.0


From 2a0804c9fd3ea7f20b02d590cf4827ba5b9b005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:43 +0000
Subject: [PATCH 40/44] fix: StoreItem keeps a hash the item had before

---
 map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map.go b/map.go
index 783bd90..1ada5ca 100644
--- a/map.go
+++ b/map.go
@@ -836,6 +836,7 @@ func (h *Map) StoreItem(item MapItem) bool {
 	}
 
 	h.retain(item)
+	item.PtrMapHead().reverse, item.PtrMapHead().conflict = bits.Reverse64(k), conflict
 	return h._set(k, conflict, bucket, item)
 }
 
-- 
2.43.0


From 8ecd2c38faba267308362ae6e84ad6ea88758a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:43 +0000
Subject: [PATCH 41/44] fix: StoreItem of an item that is in a list breaks the
 list

an item of another map, or one deleted, was linked a second time. other entries of the map were lost.
---
 map.go     | 5 +++++
 maphead.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/map.go b/map.go
index 1ada5ca..20e9137 100644
--- a/map.go
+++ b/map.go
@@ -828,6 +828,11 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	// item in a list, also of other map or with deletion mark, cannot be inserted again.
+	if !item.PtrMapHead().isNew() {
+		return false
+	}
+
 	// type of item is not configured by ItemFn()
 	if _, ok := item.(*entryHMap); !ok && h.loadItemFn()() == MapItem(emptyEntryHMap) {
 		ItemFn(func() MapItem {
diff --git a/maphead.go b/maphead.go
index c10bd69..4f15168 100644
--- a/maphead.go
+++ b/maphead.go
@@ -55,6 +55,11 @@ func (mh *MapHead) IsDeleted() bool {
 	return mh.loadState()&mapIsDeleted > 0
 }
 
+// isNew ... not deleted and not in any list
+func (mh *MapHead) isNew() bool {
+	return !mh.IsIgnored() && mh.DirectNext() == &mh.ListHead && mh.DirectPrev() == &mh.ListHead
+}
+
 func (mh *MapHead) ConflictInHamp() uint64 {
 	return mh.conflict
 }
-- 
2.43.0


From 7c77a8697cf69b4b10f547e5ce3afe0febc60e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:35 +0000
Subject: [PATCH 42/44] fix: lookup of CombineSearch2 goes through all items
 behind the next bucket on the level

---
 map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 20e9137..3c4828c 100644
--- a/map.go
+++ b/map.go
@@ -1620,7 +1620,8 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	lbNext := lbCur
 
 	if h.modeForBucket == CombineSearch2 && lbCur.reverse > reverseNoMask {
-		lbNext = lbCur.NextOnLevel()
+		// next bucket on level can be far away
+		lbNext = lbCur.nextAsB()
 	}
 
 	// items with the same reverse are behind the dummy of bucket. but last dummy is behind all items.
-- 
2.43.0


From 62c96a893041b4cc6129ebce847c980724aec53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:19 +0000
Subject: [PATCH 43/44] fix: MaxPefBucket smaller than 1 makes embedded pools
 without room, Set never ends

---
 map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map.go b/map.go
index 3c4828c..79fe590 100644
--- a/map.go
+++ b/map.go
@@ -103,6 +103,10 @@ func MaxPefBucket(max int) OptHMap {
 	return func(h *Map) OptHMap {
 		prev := h.maxPerBucket
 		h.maxPerBucket = max
+		if max < 1 {
+			// pool of a bucket must have room for an item
+			h.maxPerBucket = 1
+		}
 		return MaxPefBucket(prev)
 	}
 }
-- 
2.43.0


From 37c32e75ac005d77a333c7dbed15c7d0a2d93337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:21 +0000
Subject: [PATCH 44/44] fix: data race on LastItem by goroutines of pools of
 different maps

---
 pool2.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pool2.go b/pool2.go
index 30d8dfe..75cdb33 100644
--- a/pool2.go
+++ b/pool2.go
@@ -328,8 +328,10 @@ func idxMaagement(ctx context.Context, cancel context.CancelFunc, h *samepleItem
 			if mu != nil {
 				mu.Unlock()
 			}
-			LastItem = e
-			// only debug mode
+			// only debug mode. goroutines of all pools share it, and it keeps item alive.
+			if IsDebug() {
+				LastItem = e
+			}
 			if extend {
 				fmt.Printf("expeand reverse=0x%x cap=%d\n ", p.items[0].reverse, cap(p.items))
 				fmt.Printf("dump: sampleItemPool.items\n%s\nend: sampleItemPool.items\n", p.dump())
-- 
2.43.0

