From e03b22b79f1dc830bfb13de26e670364b34f2c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:34 +0000
Subject: [PATCH 01/32] fix: forget the reading order when the cache is flushed

Flush emptied the entries but kept their keys in the ordered list of keys. A later
Clean then counted those keys as removed entries and kept the oldest real ones.
---
 v2/xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index 4c9dfe5..9ad8f06 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -270,4 +270,5 @@ func (c *XCache) Flush() {
 	defer c.mutex.Unlock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 }
-- 
2.43.0


From a944e5c2cb0f9da70231e2e0289d18a2ecb257b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:34 +0000
Subject: [PATCH 02/32] fix: account for expired entries when cleaning the
 cache

Clean deleted expired entries but left their keys in the ordered list of keys, so the
following evictions removed nothing, and it did not report them in its result.
---
 v2/xcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 9ad8f06..b3b95ea 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -208,10 +208,12 @@ func (c *XCache) mClean(perc int) int {
 					log.Println("Cache timeout Expired: " + k)
 				}
 				delete(c.items, k)
+				c.removeFromPile(k)
 				i++
 			}
 		}
 	}
+	expired := i
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
@@ -223,7 +225,7 @@ func (c *XCache) mClean(perc int) int {
 		delete(c.items, c.pile[i])
 	}
 	c.pile = c.pile[i:]
-	return i
+	return i + expired
 }
 
 // Clean will delete expired entries, and free perc% of max items based on time.
-- 
2.43.0


From 6ba31d3b2747a87bc6d9f4ad893221d8477282e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:34 +0000
Subject: [PATCH 03/32] fix: clean entries expired by their own time to live

Clean is documented to delete expired entries, but only looked at the duration of the
whole cache. An entry past its own time to live stayed until somebody read it.
---
 v2/xcache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index b3b95ea..e9a41f8 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -213,6 +213,13 @@ func (c *XCache) mClean(perc int) int {
 			}
 		}
 	}
+	for k, x := range c.items {
+		if x.ttl != 0 && x.ctime.Add(x.ttl).Before(time.Now()) {
+			delete(c.items, k)
+			c.removeFromPile(k)
+			i++
+		}
+	}
 	expired := i
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
-- 
2.43.0


From ebf52c450d25b4501b7289d0e6293f5685e9dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:34 +0000
Subject: [PATCH 04/32] fix: respect the maximum of entries of small caches

With less than 10 entries, 10% of them rounds down to none, so the cache grew beyond its
maximum.
---
 v2/xcache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v2/xcache.go b/v2/xcache.go
index e9a41f8..607e2d9 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -74,6 +74,11 @@ func (c *XCache) Set(key string, indata interface{}) {
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
 		c.mClean(10)
+		// 10% of a small cache is nothing: never keep more than the maximum
+		for len(c.items) > c.Maxitems && len(c.pile) > 0 {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
-- 
2.43.0


From b95b05638ebb1c381c70a6b782f2b46a398e998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:34 +0000
Subject: [PATCH 05/32] fix: do not act on a stale entry when reading the cache

Get checks the entry without holding the lock. Meanwhile the entry can be replaced or
deleted: the new value was then deleted as invalid, or the key of a deleted entry came
back in the ordered list of keys. The TTL and the reading time were also accessed without
the lock.
---
 v2/xcache.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index 607e2d9..eb6c995 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -111,12 +111,28 @@ func (c *XCache) removeFromPile(key string) {
 	}
 }
 
-// mGet will get the entry of the cache.
-func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
+// mGet will get the entry of the cache and its TTL.
+func (c *XCache) mGet(key string) (*XCacheEntry, time.Duration, bool) {
 	c.mutex.RLock()
 	defer c.mutex.RUnlock()
 	x, ok := c.items[key]
-	return x, ok
+	if !ok {
+		return nil, 0, false
+	}
+	return x, x.ttl, ok
+}
+
+// mDel will delete the entry of the cache only if it is still the entry x (it may have been replaced meanwhile).
+// Returns true if the entry has been deleted.
+func (c *XCache) mDel(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
 }
 
 // Get will get the value of an entry.
@@ -124,11 +140,11 @@ func (c *XCache) mGet(key string) (*XCacheEntry, bool) {
 // If the entry exists and is invalidated by time or validator function, then returns nil, true.
 // If the entry is good, return <value>, false.
 func (c *XCache) Get(key string) (interface{}, bool) {
-	if x, ok := c.mGet(key); ok {
+	if x, ttl, ok := c.mGet(key); ok {
 		// expired by TTL ?
-		if x.ttl != 0 {
-			if x.ctime.Add(x.ttl).Before(time.Now()) {
-				c.Del(key)
+		if ttl != 0 {
+			if x.ctime.Add(ttl).Before(time.Now()) {
+				c.mDel(key, x)
 				/*
 					c.mutex.Lock()
 					delete(c.items, key)
@@ -143,7 +159,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.Del(key)
+				c.mDel(key, x)
 				/*
 					c.mutex.Lock()
 					delete(c.items, key)
@@ -159,7 +175,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.Del(key)
+				c.mDel(key, x)
 				/*
 					c.mutex.Lock()
 					delete(c.items, key)
@@ -169,11 +185,14 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
 		c.mutex.Lock()
 		defer c.mutex.Unlock()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		// the entry may have been deleted or replaced meanwhile
+		if c.items[key] == x {
+			x.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	return nil, false
-- 
2.43.0


From e2a08b61fa9f8efa0286f3c87bc1917a3d65fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:34 +0000
Subject: [PATCH 06/32] fix: verify the cache on a copy of its entries

Verify walked the entries without the lock while calling the validator, and deleted by
key, so it raced with writers and could delete a value written meanwhile.
---
 v2/xcache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/v2/xcache.go b/v2/xcache.go
index eb6c995..bf1b3c4 100644
--- a/v2/xcache.go
+++ b/v2/xcache.go
@@ -277,12 +277,20 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		c.mutex.RLock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			items[k] = x
+		}
+		c.mutex.RUnlock()
+		for k, x := range items {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.Del(k)
+				if !c.mDel(k, x) {
+					continue
+				}
 				/*
 					c.mutex.Lock()
 					delete(c.items, k)
-- 
2.43.0


From f034f8abca4cf27b3986586eb9bf4b38877324c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:33 +0000
Subject: [PATCH 07/32] fix: v1: forget the reading order when the cache is
 flushed

Flush emptied the entries but kept their keys in the ordered list of keys. A later
Clean then counted those keys as removed entries and kept the oldest real ones.
---
 xcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcache.go b/xcache.go
index 0204986..3298fed 100644
--- a/xcache.go
+++ b/xcache.go
@@ -215,5 +215,6 @@ func (c *XCache) Flush() {
 	c.mutex.Lock()
 	// how to really deletes the data ? ( to free memory)
 	c.items = make(map[string]*XCacheEntry)
+	c.pile = nil
 	c.mutex.Unlock()
 }
-- 
2.43.0


From d61d1df62727ddc181e451ac7701b50e665a57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:33 +0000
Subject: [PATCH 08/32] fix: v1: account for expired entries when cleaning the
 cache

Clean deleted expired entries but left their keys in the ordered list of keys, so the
following evictions removed nothing, and it did not report them in its result.
---
 xcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcache.go b/xcache.go
index 3298fed..64241f4 100644
--- a/xcache.go
+++ b/xcache.go
@@ -167,10 +167,12 @@ func (c *XCache) Clean(perc int) int {
 					log.Println("Cache timeout Expired: " + k)
 				}
 				delete(c.items, k)
+				c.removeFromPile(k)
 				i++
 			}
 		}
 	}
+	expired := i
 	// 2. clean perc% of olders
 	// How many do we have to clean ?
 	total := len(c.items)
@@ -183,7 +185,7 @@ func (c *XCache) Clean(perc int) int {
 	}
 	c.pile = c.pile[i:]
 	c.mutex.Unlock()
-	return i
+	return i + expired
 }
 
 // Verify will first, Clean(0) keeping all the entries, then will delete expired entries using the Validator function.
-- 
2.43.0


From 14ed37b1166b58bbb962296fc3dd3f805d30c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:33 +0000
Subject: [PATCH 09/32] fix: v1: respect the maximum of entries of the cache

The size was checked after releasing the lock, so concurrent writers could go over the
maximum, and with less than 10 entries, 10% of them rounds down to none.
---
 xcache.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/xcache.go b/xcache.go
index 64241f4..fa4d161 100644
--- a/xcache.go
+++ b/xcache.go
@@ -68,10 +68,15 @@ func (c *XCache) Set(key string, indata interface{}) {
 		c.removeFromPile(key)
 	}
 	c.pile = append(c.pile, key)
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 	if c.Maxitems > 0 && len(c.items) >= c.Maxitems {
 		// We need a cleaning
-		c.Clean(10)
+		c.mClean(10)
+		// 10% of a small cache is nothing: never keep more than the maximum
+		for len(c.items) > c.Maxitems && len(c.pile) > 0 {
+			delete(c.items, c.pile[0])
+			c.pile = c.pile[1:]
+		}
 	}
 }
 
@@ -154,11 +159,17 @@ func (c *XCache) Count() int {
 // Returns quantity of removed entries.
 // It Will **not** verify the cache against its source (if Validator is set). If you want to scan that, use the Verify function.
 func (c *XCache) Clean(perc int) int {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	return c.mClean(perc)
+}
+
+// mClean does the cleaning. It does not set locks. The caller must do it
+func (c *XCache) mClean(perc int) int {
 	if LOG {
 		log.Println("Cleaning cache")
 	}
 	i := 0
-	c.mutex.Lock()
 	// 1. clean all expired items
 	if c.Expire != 0 {
 		for k, x := range c.items {
@@ -184,7 +195,6 @@ func (c *XCache) Clean(perc int) int {
 		delete(c.items, c.pile[i])
 	}
 	c.pile = c.pile[i:]
-	c.mutex.Unlock()
 	return i + expired
 }
 
-- 
2.43.0


From 6f33d6a9181f843417d8d8b660a7b9b4dea01e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:33 +0000
Subject: [PATCH 10/32] fix: v1: do not act on a stale entry when reading the
 cache

Get checks the entry without holding the lock. Meanwhile the entry can be replaced or
deleted: the new value was then deleted as invalid. The ordered list of keys was also
changed without the lock.
---
 xcache.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/xcache.go b/xcache.go
index fa4d161..52d6969 100644
--- a/xcache.go
+++ b/xcache.go
@@ -95,6 +95,19 @@ func (c *XCache) removeFromPile(key string) {
 	}
 }
 
+// mDel will delete the entry of the cache only if it is still the entry x (it may have been replaced meanwhile).
+// Returns true if the entry has been deleted.
+func (c *XCache) mDel(key string, x *XCacheEntry) bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.items[key] != x {
+		return false
+	}
+	delete(c.items, key)
+	c.removeFromPile(key)
+	return true
+}
+
 // Get will get the value of an entry.
 // If the entry does not exists, returns nil, false.
 // If the entry exists and is invalidated by time or validator function, then returns nil, true.
@@ -108,10 +121,7 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Validator invalids entry: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				c.mDel(key, x)
 				return nil, true
 			}
 		}
@@ -121,16 +131,18 @@ func (c *XCache) Get(key string) (interface{}, bool) {
 				if LOG {
 					log.Println("Cache timeout Expired: " + key)
 				}
-				c.mutex.Lock()
-				delete(c.items, key)
-				c.removeFromPile(key)
-				c.mutex.Unlock()
+				c.mDel(key, x)
 				return nil, true
 			}
 		}
-		x.rtime = time.Now()
-		c.removeFromPile(key)
-		c.pile = append(c.pile, key)
+		c.mutex.Lock()
+		defer c.mutex.Unlock()
+		// the entry may have been deleted or replaced meanwhile
+		if c.items[key] == x {
+			x.rtime = time.Now()
+			c.removeFromPile(key)
+			c.pile = append(c.pile, key)
+		}
 		return x.data, false
 	}
 	c.mutex.Unlock()
-- 
2.43.0


From 050b1c59287912b5e51369be0113549ae88e95bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:33 +0000
Subject: [PATCH 11/32] fix: v1: verify the cache on a copy of its entries

Verify walked the entries without the lock while calling the validator, deleted by key, so
it could delete a value written meanwhile, and left the keys in the ordered list of keys.
---
 xcache.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xcache.go b/xcache.go
index 52d6969..077fd83 100644
--- a/xcache.go
+++ b/xcache.go
@@ -218,14 +218,20 @@ func (c *XCache) Verify() int {
 	i := c.Clean(0)
 	// 2. If there is a validator, verifies anything
 	if c.Validator != nil {
+		c.mutex.Lock()
+		items := make(map[string]*XCacheEntry, len(c.items))
 		for k, x := range c.items {
+			items[k] = x
+		}
+		c.mutex.Unlock()
+		for k, x := range items {
 			if b := c.Validator(k, x.ctime); !b {
 				if LOG {
 					log.Println("Validator invalids entry: " + k)
 				}
-				c.mutex.Lock()
-				delete(c.items, k)
-				c.mutex.Unlock()
+				if !c.mDel(k, x) {
+					continue
+				}
 				i++
 			}
 		}
-- 
2.43.0


From e6227d7672827b0af8eda18d6c2a3a67ede62e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 12/32] fix: do not panic with the lock held on an empty
 thread-safe collection

---
 v2/xdatasetcollectionts.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 2d4838d..a7ded28 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -40,6 +40,10 @@ func (dc *XDatasetCollectionTS) Unshift(data XDatasetDef) {
 // Shift will remove the element at the beginning of the collection
 func (dc *XDatasetCollectionTS) Shift() XDatasetDef {
 	dc.mutex.Lock()
+	if len(dc.data) == 0 {
+		dc.mutex.Unlock()
+		return nil
+	}
 	data := dc.data[0]
 	dc.data = dc.data[1:]
 	dc.mutex.Unlock()
@@ -56,6 +60,10 @@ func (dc *XDatasetCollectionTS) Push(data XDatasetDef) {
 // Pop will remove the element at the end of the collection
 func (dc *XDatasetCollectionTS) Pop() XDatasetDef {
 	dc.mutex.Lock()
+	if len(dc.data) == 0 {
+		dc.mutex.Unlock()
+		return nil
+	}
 	data := dc.data[len(dc.data)-1]
 	dc.data = dc.data[:len(dc.data)-1]
 	dc.mutex.Unlock()
-- 
2.43.0


From 0e11b280a462f9ca6ee07d2260e583738bf92dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 13/32] fix: search the thread-safe collection on a consistent
 copy of its elements

---
 v2/xdatasetcollectionts.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index a7ded28..f9f5285 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -90,13 +90,10 @@ func (dc *XDatasetCollectionTS) Get(index int) (XDatasetDef, bool) {
 // GetData will retrieve the first available data identified by key from the collection ordered by index
 func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 	dc.mutex.RLock()
-	l := len(dc.data) - 1
+	data := append([]XDatasetDef{}, dc.data...)
 	dc.mutex.RUnlock()
-	for i := l; i >= 0; i-- {
-		dc.mutex.RLock()
-		dcc := dc.data[i]
-		dc.mutex.RUnlock()
-		val, ok := dcc.Get(key)
+	for i := len(data) - 1; i >= 0; i-- {
+		val, ok := data[i].Get(key)
 		if ok {
 			return val, true
 		}
-- 
2.43.0


From b1bf29e17584307034d06561e5a872784f6e40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 14/32] fix: lock the thread-safe collection while it is cloned

---
 v2/xdatasetcollectionts.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index f9f5285..40ef646 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -163,6 +163,8 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 // Clone will make a full copy of the object into memory
 func (dc *XDatasetCollectionTS) Clone() XDatasetCollectionDef {
 	cloned := &XDatasetCollectionTS{}
+	dc.mutex.RLock()
+	defer dc.mutex.RUnlock()
 	for _, val := range dc.data {
 		cloned.data = append(cloned.data, val.Clone())
 	}
-- 
2.43.0


From 959b4adccc6e8cf883c8f39188b228efc1d2ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 15/32] fix: do not panic when a value of the thread-safe
 collection is not a collection

---
 v2/xdatasetcollectionts.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 40ef646..9b33e4c 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -155,7 +155,10 @@ func (dc *XDatasetCollectionTS) GetCollection(key string) (XDatasetCollectionDef
 	v, ok := dc.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 4f3f27bdac80d4b17c5c0c8abd49d003a06d02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 16/32] fix: read a nil value of the thread-safe collection as
 an empty string

---
 v2/xdatasetcollectionts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v2/xdatasetcollectionts.go b/v2/xdatasetcollectionts.go
index 9b33e4c..71d6640 100644
--- a/v2/xdatasetcollectionts.go
+++ b/v2/xdatasetcollectionts.go
@@ -105,6 +105,9 @@ func (dc *XDatasetCollectionTS) GetData(key string) (interface{}, bool) {
 func (dc *XDatasetCollectionTS) GetDataString(key string) (string, bool) {
 	v, ok := dc.GetData(key)
 	if ok {
+		if v == nil {
+			return "", true
+		}
 		return fmt.Sprint(v), true
 	}
 	return "", false
-- 
2.43.0


From 1e8594d5d06becc515e33152894f38199b9b02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 17/32] fix: v1: do not panic when a value of the collection is
 not a collection

---
 xdataset.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdataset.go b/xdataset.go
index 671bc7c..d941af3 100644
--- a/xdataset.go
+++ b/xdataset.go
@@ -568,7 +568,10 @@ func (d *XDatasetCollection) GetCollection(key string) (XDatasetCollectionDef, b
 	v, ok := d.GetData(key)
 	// Verify v IS actually a XDatasetCollectionDef to avoid the error
 	if ok {
-		return v.(XDatasetCollectionDef), true
+		dsd, ok2 := v.(XDatasetCollectionDef)
+		if ok2 {
+			return dsd, true
+		}
 	}
 	return nil, false
 }
-- 
2.43.0


From 58d25656eef07a2f78c4118f2c6348f68b6c49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:29 +0000
Subject: [PATCH 18/32] fix: set values into the zero value of the thread-safe
 dataset

---
 v2/xdatasetts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v2/xdatasetts.go b/v2/xdatasetts.go
index 75b5636..74bc5f8 100644
--- a/v2/xdatasetts.go
+++ b/v2/xdatasetts.go
@@ -37,6 +37,9 @@ func (ds *XDatasetTS) GoString() string {
 // Set will add a variable key with value data to the XDatasetTS
 func (ds *XDatasetTS) Set(key string, data interface{}) {
 	ds.mutex.Lock()
+	if ds.data == nil {
+		ds.data = &XDataset{}
+	}
 	ds.data.Set(key, data)
 	ds.mutex.Unlock()
 }
-- 
2.43.0


From 66987187c840b80d121429a3f11f707239d7400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:33 +0000
Subject: [PATCH 19/32] fix: load language texts with lines longer than 64 KB

---
 v2/xlanguage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 7506d73..b758a93 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -147,6 +147,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	scanner.Buffer(nil, len(data)+1) // lines of any length are accepted
 	for scanner.Scan() {
 		line := scanner.Text()
 		posequal := strings.Index(line, "=")
-- 
2.43.0


From 52daa8e97c3ef45eca24ef6ebbbc6a351ab738cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:33 +0000
Subject: [PATCH 20/32] fix: v1: load language texts with lines longer than 64
 KB

---
 xlanguage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xlanguage.go b/xlanguage.go
index 2d23505..a828904 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -147,6 +147,7 @@ func (l *XLanguage) LoadFile(file string) error {
 //	Returns nil if there is an error
 func (l *XLanguage) LoadString(data string) error {
 	scanner := bufio.NewScanner(strings.NewReader(data))
+	scanner.Buffer(nil, len(data)+1) // lines of any length are accepted
 	for scanner.Scan() {
 		line := scanner.Text()
 		posequal := strings.Index(line, "=")
-- 
2.43.0


From 857d3d731f7aff44a9e1643ef87862df23ac980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:33 +0000
Subject: [PATCH 21/32] fix: protect the name and language of a language table
 with its lock

---
 v2/xlanguage.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index b758a93..085e4ca 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -112,10 +112,10 @@ func (l *XLanguage) LoadXMLString(data string) error {
 	}
 
 	// Scan to our XLanguage Object
-	l.Name = temp.Name
-	l.Language, _ = language.Parse(temp.Language)
 	l.mutex.Lock()
 	defer l.mutex.Unlock()
+	l.Name = temp.Name
+	l.Language, _ = language.Parse(temp.Language)
 	for _, e := range temp.Entries {
 		l.entries[e.ID] = e.Entry
 		l.status[e.ID] = e.Status
@@ -180,21 +180,29 @@ func (l *XLanguage) LoadString(data string) error {
 
 // SetName will set the name of the language table
 func (l *XLanguage) SetName(name string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Name = name
 }
 
 // SetLanguage will set the language ISO code (2 letters) of the language table
 func (l *XLanguage) SetLanguage(lang language.Tag) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	l.Language = lang
 }
 
 // GetName will return the name of the language table
 func (l *XLanguage) GetName() string {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Name
 }
 
 // GetLanguage will return the language of the language table
 func (l *XLanguage) GetLanguage() language.Tag {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	return l.Language
 }
 
-- 
2.43.0


From 62b4ed4c928b7a8c6400ece29c86a2f07cf19e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:33 +0000
Subject: [PATCH 22/32] fix: escape the texts of a language table exported to
 XML

---
 v2/xlanguage.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 085e4ca..38961d4 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -261,16 +261,28 @@ func (l *XLanguage) GetEntries() map[string]string {
 	return clone
 }
 
+// escapeXML will escape the text to be put into an XML attribute
+func escapeXML(text string) string {
+	var escaped strings.Builder
+	xml.EscapeText(&escaped, []byte(text))
+	return escaped.String()
+}
+
+// escapeCDATA will escape the text to be put into an XML CDATA section
+func escapeCDATA(text string) string {
+	return strings.NewReplacer("]]>", "]]]]><![CDATA[>", "\r", "]]>&#xD;<![CDATA[").Replace(text)
+}
+
 // GetXML will generate the XML to save the file
 func (l *XLanguage) GetXML() string {
 	sdata := []string{}
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	for key, val := range l.entries {
-		sdata = append(sdata, "  <entry id=\""+key+"\" status=\""+l.status[key]+"\"><![CDATA["+val+"]]></entry>")
+		sdata = append(sdata, "  <entry id=\""+escapeXML(key)+"\" status=\""+escapeXML(l.status[key])+"\"><![CDATA["+escapeCDATA(val)+"]]></entry>")
 	}
 	sort.Strings(sdata) // Lets be sure the print is always the same presentation
-	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + l.Name + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
+	return "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n<language id=\"" + escapeXML(l.Name) + "\" lang=\"" + fmt.Sprint(l.Language) + "\">\n" +
 		strings.Join(sdata, "\n") + "\n</language>"
 }
 
-- 
2.43.0


From e11fb0ba807a9c05368fd361559c5ef3eacc0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 23/32] fix: do not attach the sub-templates of the source to
 its clone

---
 v2/xtemplate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 72bd540..b69f92d 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -531,7 +531,7 @@ func (t *XTemplate) Clone() *XTemplate {
 		newsubtemplates := map[string]*XTemplate{}
 		for id, xt := range t.SubTemplates {
 			newsubtemplates[id] = xt.Clone()
-			xt.Father = cloned
+			newsubtemplates[id].Father = cloned
 		}
 		cloned.SubTemplates = newsubtemplates
 	}
-- 
2.43.0


From 0be9fdf2161f0b4474ea58c8479f82793000c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 24/32] fix: do not panic on references when a template is
 executed without data

---
 v2/xtemplate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index b69f92d..3fd7ec6 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -336,7 +336,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -356,7 +359,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
-- 
2.43.0


From d1eb74d85adcc03337b4710034009cd376505c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 25/32] fix: do not write the loop counter into the data of the
 user

---
 v2/xtemplate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 3fd7ec6..a7b5042 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -411,12 +411,13 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 								tmp = subt
 							}
 							dcl, _ := cl.Get(i)
-							dcl.Set(".counter", i+1)
 							datacol.Push(dcl)
+							datacol.Push(&XDataset{".counter": i + 1}) // the data of the user is not modified
 							substr := tmp.injector(datacol, language)
 							injected = append(injected, substr)
 							// unstack extra data
 							datacol.Pop()
+							datacol.Pop()
 						}
 					} else {
 						var tmp *XTemplate
-- 
2.43.0


From 70607262d019c6aa6d744d186fb86735c2f38816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 26/32] fix: do not inject the template of a condition without
 value

---
 v2/xtemplate.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index a7b5042..674e0e3 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -468,10 +468,8 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				}
 			}
 			if value == nil || fmt.Sprint(value) == "" {
-				tmp := t.GetTemplate(subtemplateid + ".none")
-				if tmp != nil {
-					subt = tmp
-				}
+				// without value, only the .none template applies
+				subt = t.GetTemplate(subtemplateid + ".none")
 				if subt != nil {
 					substr := subt.injector(datacol, language)
 					injected = append(injected, substr)
-- 
2.43.0


From 53ac09998642c2ba031193ba79d2a8c790464562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 27/32] fix: keep the loaded template when a new one is refused

---
 v2/xtemplate.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 674e0e3..4819c4e 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -127,7 +127,17 @@ func (t *XTemplate) LoadFile(file string) error {
 
 // LoadString will load a string into the template
 func (t *XTemplate) LoadString(data string) error {
-	return t.compile(data)
+	// a wrong template must not modify the one already loaded
+	loaded := &XTemplate{}
+	err := loaded.compile(data)
+	if err != nil {
+		return err
+	}
+	for name, tmpl := range loaded.SubTemplates {
+		t.AddTemplate(name, tmpl)
+	}
+	t.Root = loaded.Root
+	return nil
 }
 
 // compile will interprete the template code into objects
-- 
2.43.0


From b07d5c841997ed8229f347ef6f9c2508af42c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 28/32] fix: consume the whole CRLF line end after comments and
 sub-template marks

---
 v2/xtemplate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index 4819c4e..fa38610 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -147,7 +147,7 @@ func (t *XTemplate) compile(data string) error {
 		`(?s)` + // . is multiline
 
 			// ==== COMENTS
-			`(%)--(.*?)--%(\n|\r|\r\n|\n\r)?` + // index based 1
+			`(%)--(.*?)--%(\r\n|\n\r|\n|\r)?` + // index based 1
 
 			// ==== LANGUAGE INJECTION
 			`|(#)#([a-zA-Z0-9-_\.]+?)##` + // index based 4
@@ -160,8 +160,8 @@ func (t *XTemplate) compile(data string) error {
 			`|(\{)\{([a-zA-Z0-9-_\=\>\:\|\.]+?)\}\}` + // index based 14
 
 			// ==== NESTED ELEMENTS (SUB TEMPLATES)
-			`|\[\[(\])\](\n|\r|\r\n|\n\r)?` + // index based 16
-			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\n|\r|\r\n|\n\r)?` // index based 18
+			`|\[\[(\])\](\r\n|\n\r|\n|\r)?` + // index based 16
+			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\r\n|\n\r|\n|\r)?` // index based 18
 
 	codex := regexp.MustCompile(code)
 	indexes := codex.FindAllStringIndex(data, -1)
-- 
2.43.0


From 60b7029d57b50a34869bc6da5246dd4a915bba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 29/32] fix: v1: consume the whole CRLF line end after comments
 and sub-template marks

---
 xtemplate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtemplate.go b/xtemplate.go
index 6451339..824d6b0 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -129,7 +129,7 @@ func (t *XTemplate) compile(data string) error {
 		`(?s)` + // . is multiline
 
 			// ==== COMENTS
-			`(%)--(.*?)--%(\n|\r|\r\n|\n\r)?` + // index based 1
+			`(%)--(.*?)--%(\r\n|\n\r|\n|\r)?` + // index based 1
 
 			// ==== LANGUAGE INJECTION
 			`|(#)#(.+?)##` + // index based 4
@@ -142,8 +142,8 @@ func (t *XTemplate) compile(data string) error {
 			`|(\{)\{(.+?)\}\}` + // index based 14
 
 			// ==== NESTED ELEMENTS (SUB TEMPLATES)
-			`|\[\[(\])\](\n|\r|\r\n|\n\r)?` + // index based 16
-			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\n|\r|\r\n|\n\r)?` // index based 18
+			`|\[\[(\])\](\r\n|\n\r|\n|\r)?` + // index based 16
+			`|(\[)\[([a-z0-9\|\.\-_]+?)\]\](\r\n|\n\r|\n|\r)?` // index based 18
 
 	codex := regexp.MustCompile(code)
 	indexes := codex.FindAllStringIndex(data, -1)
-- 
2.43.0


From ef50e40318dc6df72c1326b9098c90665aa6e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:33 +0000
Subject: [PATCH 30/32] fix: v1: do not panic on references when a template is
 executed without data

---
 xtemplate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xtemplate.go b/xtemplate.go
index 824d6b0..fe9f565 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -317,7 +317,10 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 			if len(xid) == 3 {
 				field := xid[1]
 				prefix := xid[2]
-				value, _ := datacol.GetDataString(field)
+				value := ""
+				if datacol != nil {
+					value, _ = datacol.GetDataString(field)
+				}
 				subt := t.GetTemplate(prefix + value)
 				if subt != nil {
 					substr := subt.injector(datacol, language)
@@ -337,7 +340,7 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 				subt := t.GetTemplate(template)
 				if subt != nil {
 					withds := false
-					if len(xid) == 2 {
+					if len(xid) == 2 && datacol != nil {
 						dcl, _ := datacol.GetData(xid[1])
 						ds, ok := dcl.(XDatasetDef)
 						if ok {
-- 
2.43.0


From bcb57b83c0f8e146199953eb40b7e744ad2382c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:42 +0000
Subject: [PATCH 31/32] fix: close the file when its content cannot be read

---
 v2/xlanguage.go | 1 +
 v2/xtemplate.go | 1 +
 xlanguage.go    | 2 ++
 xtemplate.go    | 1 +
 4 files changed, 5 insertions(+)

diff --git a/v2/xlanguage.go b/v2/xlanguage.go
index 38961d4..2df9810 100644
--- a/v2/xlanguage.go
+++ b/v2/xlanguage.go
@@ -133,6 +133,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index fa38610..edd107c 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -116,6 +116,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
diff --git a/xlanguage.go b/xlanguage.go
index a828904..ae3e726 100644
--- a/xlanguage.go
+++ b/xlanguage.go
@@ -82,6 +82,7 @@ func (l *XLanguage) LoadXMLFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(xmlFile)
 	if err != nil {
+		xmlFile.Close()
 		return err
 	}
 	err = xmlFile.Close()
@@ -133,6 +134,7 @@ func (l *XLanguage) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(flatFile)
 	if err != nil {
+		flatFile.Close()
 		return err
 	}
 	err = flatFile.Close()
diff --git a/xtemplate.go b/xtemplate.go
index fe9f565..9f9a0e2 100644
--- a/xtemplate.go
+++ b/xtemplate.go
@@ -108,6 +108,7 @@ func (t *XTemplate) LoadFile(file string) error {
 	}
 	data, err := ioutil.ReadAll(tFile)
 	if err != nil {
+		tFile.Close()
 		return err
 	}
 	err = tFile.Close()
-- 
2.43.0


From 6e824392e95931f4fc9ab91ebc94ac930549936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:04 +0000
Subject: [PATCH 32/32] fix: stop a template loop when its collection is
 shortened meanwhile

---
 v2/xtemplate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v2/xtemplate.go b/v2/xtemplate.go
index edd107c..255f101 100644
--- a/v2/xtemplate.go
+++ b/v2/xtemplate.go
@@ -421,7 +421,11 @@ func (t *XTemplate) injector(datacol XDatasetCollectionDef, language *XLanguage)
 							if tmp == nil {
 								tmp = subt
 							}
-							dcl, _ := cl.Get(i)
+							dcl, ok := cl.Get(i)
+							if !ok {
+								// the collection has been shortened meanwhile
+								break
+							}
 							datacol.Push(dcl)
 							datacol.Push(&XDataset{".counter": i + 1}) // the data of the user is not modified
 							substr := tmp.injector(datacol, language)
-- 
2.43.0

