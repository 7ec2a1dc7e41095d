From 3b75c1fda3073942645a5056454d44e74d1d4a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 1/9] fix: ArrMap.Set stores the value when the new key
 collides with an entry

The entry built in the collision path was given the key only, so the
value of a new key whose hash prefix collided was silently dropped.
---
 arr_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arr_map.go b/arr_map.go
index 01fda75..ff26598 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -167,7 +167,7 @@ func (m ArrMap[K, V]) Set(key K, value V) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
+				kv := &arrkv[K, V]{k: key, v: value}
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 10de9c32dba47f4f94f94295afcad4d97be36da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 2/9] fix: BytesSet.Del deletes the given key instead of a
 different one

The comparison was inverted: a present key was never deleted, and an
unrelated key found in its place was.
---
 bytes_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytes_set.go b/bytes_set.go
index c0027fb..7fac452 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -203,7 +203,7 @@ func (s BytesSet) Del(key []byte) {
 			bit, idx = 1<<radix, uint8(bits.OnesCount32(l.pmap&^(^uint32(0)<<radix)))
 			continue
 		}
-		if bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
+		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
 			return
 		}
 		l.pmap &^= bit
-- 
2.43.0


From a8b6654bf000594e5abeb479fb5cc5d804676e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 3/9] fix: rehash the conflicting key of a generic Map/Set with
 its own iteration

On a collision below the root the resident key was rehashed with the level
as iteration count instead of the number of rehashes so far (and Map.Mod
rehashed the new key instead of the resident one), so the resident key was
moved to a place where it is never found again.
---
 generic_map.go | 4 ++--
 generic_set.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index d93eb22..70ad36d 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -146,7 +146,7 @@ func (m Map[K, V]) Set(key K, value V) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -235,7 +235,7 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			return
 		}
 		// rehash conflicting key
-		chd := key.Hash(m.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
diff --git a/generic_set.go b/generic_set.go
index ec8f206..d862c20 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -97,7 +97,7 @@ func (s Set[K]) Add(key K) {
 			return
 		}
 		// rehash conflicting key
-		chd := ckey.Hash(s.seed, uint(d%(64/4))) >> (4 * (d % (64 / 4)))
+		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		s.dep -= uint64(d) // conflicting key depth
-- 
2.43.0


From 7806f71119ae5907306fab24eeb0f545765db347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 4/9] fix: clear the inline key when an IntMap/IntSet entry
 becomes a branch

When two integer keys collided on more than one level, the upper 32 bits
of the resident key stayed in the type bitmap of the new branch. For keys
outside 0..2^32-1 (such as negative keys) a branch could then be read as a
key-value, losing keys and reinterpreting memory.
---
 int_map.go | 2 ++
 int_set.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/int_map.go b/int_map.go
index 6eeb39c..83e0835 100644
--- a/int_map.go
+++ b/int_map.go
@@ -193,6 +193,7 @@ func (m IntMap[V]) Set(key IntKey, value V) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
@@ -302,6 +303,7 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 				return // item added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
diff --git a/int_set.go b/int_set.go
index 7c6e44a..cf21e8c 100644
--- a/int_set.go
+++ b/int_set.go
@@ -144,6 +144,7 @@ func (s IntSet) Add(key IntKey) {
 				return // key added
 			}
 			// handle collision at new level
+			item.tmap = 0 // clear the inline key
 			item.ptr = newLinkArray(1)
 			item = (*link)(item.ptr)
 		}
-- 
2.43.0


From 19e45ed1385cee09d0cd4384f2354fdef6bb0dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 5/9] fix: HashBytes honours iteration counts of 255 and above

The counter was truncated to 8 bits: iter=255 never returned and larger
counts were taken modulo 256, unlike Bytes.Hash and String.Hash.
---
 generic_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generic_map.go b/generic_map.go
index 70ad36d..857dca9 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -43,7 +43,7 @@ type Key[K any] interface {
 func HashBytes(key []byte, seed maphash.Seed, iter uint) uint64 {
 	var hw maphash.Hash
 	hw.SetSeed(seed)
-	for i := uint8(0); i <= uint8(iter); i++ {
+	for i := uint(0); i <= iter; i++ {
 		hw.Write(key)
 	}
 	return hw.Sum64()
-- 
2.43.0


From 3308fe215fbb68f31344e17653b4e5976b7cfe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 6/9] fix: Int implements Key[Int]

Int is documented as a key type for a generic Map but had no Equal method,
so it could not be used as one.
---
 int_map.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/int_map.go b/int_map.go
index 83e0835..ce33e9e 100644
--- a/int_map.go
+++ b/int_map.go
@@ -31,6 +31,8 @@ import (
 // Int may be used as the key type of a generic Map[Int, V].
 type Int int
 
+func (i Int) Equal(i2 Int) bool { return i == i2 }
+
 func (i Int) Hash(seed maphash.Seed, iter uint) uint64 {
 	b := intbytes(IntKey(i))
 	var hw maphash.Hash
-- 
2.43.0


From b7b3601dc62e9f6f96598876c06a5778b1bab501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 7/9] fix: Mod runs the callback before it splits a colliding
 entry

When the new key collided with an entry, the callback ran while the new
branch was linked but empty: reading the resident key from the callback
dereferenced nil, and a panic in the callback lost the resident key for good.
The other insertion paths already run the callback first.
---
 arr_map.go     | 5 +++--
 bytes_map.go   | 5 +++--
 generic_map.go | 5 +++--
 int_map.go     | 5 +++--
 string_map.go  | 5 +++--
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff26598..ff7df71 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -251,6 +251,9 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		// the callback may read the map or panic, so it must see the map unchanged
+		kv := &arrkv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -269,8 +272,6 @@ func (m ArrMap[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &arrkv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/bytes_map.go b/bytes_map.go
index 830804d..8a30811 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -267,6 +267,9 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			item.ptr = unsafe.Pointer(kv)
 			return
 		}
+		// the callback may read the map or panic, so it must see the map unchanged
+		kv := &byteskv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -285,8 +288,6 @@ func (m BytesMap[V]) Mod(key []byte, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &byteskv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/generic_map.go b/generic_map.go
index 857dca9..9608b92 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -236,6 +236,9 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
+		// the callback may read the map or panic, so it must see the map unchanged
+		kv := &kv[K, V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -252,8 +255,6 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &kv[K, V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
diff --git a/int_map.go b/int_map.go
index ce33e9e..8a2f670 100644
--- a/int_map.go
+++ b/int_map.go
@@ -273,6 +273,9 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			chw.Write(ckb[:])
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		// the callback may read the map or panic, so it must see the map unchanged
+		val := &intkv[V]{}
+		mod(&val.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -291,8 +294,6 @@ func (m IntMap[V]) Mod(key IntKey, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				val := &intkv[V]{}
-				mod(&val.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0] = link{ptr: unsafe.Pointer(val), pmap: uint32(key), tmap: uint32(key >> 32)}
 					pair[1] = link{ptr: unsafe.Pointer(cval), pmap: uint32(ckey), tmap: uint32(ckey >> 32)}
diff --git a/string_map.go b/string_map.go
index 2470a61..c4bb8e8 100644
--- a/string_map.go
+++ b/string_map.go
@@ -253,6 +253,9 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			chw.WriteString(ckey)
 		}
 		chd := chw.Sum64() >> (4 * (d % (64 / 4)))
+		// the callback may read the map or panic, so it must see the map unchanged
+		kv := &strkv[V]{k: key}
+		mod(&kv.v, false)
 		// replace with new branch until non-colliding
 		l.tmap &^= bit
 		m.dep -= uint64(d) // conflicting key depth
@@ -271,8 +274,6 @@ func (m StringMap[V]) Mod(key string, mod func(*V, bool)) {
 			if kbit != cbit { // non-colliding
 				item.tmap = item.pmap
 				item.ptr = newLinkArray(2)
-				kv := &strkv[V]{k: key}
-				mod(&kv.v, false)
 				if pair := (*[2]link)(item.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
-- 
2.43.0


From 8831459191a76c37c00e24b21c5314dbbf3515b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 8/9] fix: Del releases the deleted entry for garbage
 collection

The slot vacated by shifting items back kept a stale copy of the last item
(possibly the deleted one), and the traversal path was cleared only up to
the final depth, not at all after a failed delete or once it outgrew its
scratch array, so deleted keys and values stayed reachable indefinitely.
---
 arr_map.go     | 14 +++++++-------
 arr_set.go     | 14 +++++++-------
 bytes_map.go   | 14 +++++++-------
 bytes_set.go   | 14 +++++++-------
 generic_map.go | 14 +++++++-------
 generic_set.go | 14 +++++++-------
 int_map.go     | 14 +++++++-------
 int_set.go     | 14 +++++++-------
 string_map.go  | 14 +++++++-------
 string_set.go  | 14 +++++++-------
 10 files changed, 70 insertions(+), 70 deletions(-)

diff --git a/arr_map.go b/arr_map.go
index ff7df71..eccd828 100644
--- a/arr_map.go
+++ b/arr_map.go
@@ -345,7 +345,7 @@ func (m ArrMap[K, V]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, V])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -377,6 +377,9 @@ func (m ArrMap[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -387,13 +390,10 @@ func (m ArrMap[K, V]) Del(key K) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	m.path = [len(m.path)]pathLink{}
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/arr_set.go b/arr_set.go
index c19eccf..7e8e349 100644
--- a/arr_set.go
+++ b/arr_set.go
@@ -205,7 +205,7 @@ func (s ArrSet[K]) Del(key K) {
 			continue
 		}
 		if (*arrkv[K, struct{}])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -237,6 +237,9 @@ func (s ArrSet[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -247,13 +250,10 @@ func (s ArrSet[K]) Del(key K) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	s.path = [len(s.path)]pathLink{}
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/bytes_map.go b/bytes_map.go
index 8a30811..c47a037 100644
--- a/bytes_map.go
+++ b/bytes_map.go
@@ -360,7 +360,7 @@ func (m BytesMap[V]) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[V])(item.ptr).k, key) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -392,6 +392,9 @@ func (m BytesMap[V]) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -402,13 +405,10 @@ func (m BytesMap[V]) Del(key []byte) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	m.path = [len(m.path)]pathLink{}
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/bytes_set.go b/bytes_set.go
index 7fac452..44f9558 100644
--- a/bytes_set.go
+++ b/bytes_set.go
@@ -204,7 +204,7 @@ func (s BytesSet) Del(key []byte) {
 			continue
 		}
 		if !bytes.Equal((*byteskv[struct{}])(item.ptr).k, key) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -236,6 +236,9 @@ func (s BytesSet) Del(key []byte) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -246,13 +249,10 @@ func (s BytesSet) Del(key []byte) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	s.path = [len(s.path)]pathLink{}
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/generic_map.go b/generic_map.go
index 9608b92..6714614 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -323,7 +323,7 @@ func (m Map[K, V]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, V])(item.ptr).k) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -355,6 +355,9 @@ func (m Map[K, V]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -365,13 +368,10 @@ func (m Map[K, V]) Del(key K) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	m.path = [len(m.path)]pathLink{}
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/generic_set.go b/generic_set.go
index d862c20..9daf3ca 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -181,7 +181,7 @@ func (s Set[K]) Del(key K) {
 			continue
 		}
 		if !key.Equal((*kv[K, struct{}])(item.ptr).k) { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -213,6 +213,9 @@ func (s Set[K]) Del(key K) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -223,13 +226,10 @@ func (s Set[K]) Del(key K) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	s.path = [len(s.path)]pathLink{}
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/int_map.go b/int_map.go
index 8a2f670..8873424 100644
--- a/int_map.go
+++ b/int_map.go
@@ -374,7 +374,7 @@ func (m IntMap[V]) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -406,6 +406,9 @@ func (m IntMap[V]) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -416,13 +419,10 @@ func (m IntMap[V]) Del(key IntKey) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	m.path = [len(m.path)]pathLink{}
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/int_set.go b/int_set.go
index cf21e8c..a83425d 100644
--- a/int_set.go
+++ b/int_set.go
@@ -208,7 +208,7 @@ func (s IntSet) Del(key IntKey) {
 			continue
 		}
 		if k := IntKey(item.pmap) | (IntKey(item.tmap) << 32); k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -240,6 +240,9 @@ func (s IntSet) Del(key IntKey) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -250,13 +253,10 @@ func (s IntSet) Del(key IntKey) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	s.path = [len(s.path)]pathLink{}
 }
 
 // All ranges over keys in s, applying the do callback to each key until
diff --git a/string_map.go b/string_map.go
index c4bb8e8..8767af1 100644
--- a/string_map.go
+++ b/string_map.go
@@ -346,7 +346,7 @@ func (m StringMap[V]) Del(key string) {
 			continue
 		}
 		if (*strkv[V])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -378,6 +378,9 @@ func (m StringMap[V]) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -388,13 +391,10 @@ func (m StringMap[V]) Del(key string) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	m.path = [len(m.path)]pathLink{}
 }
 
 // All ranges over values in m, applying the do callback to each value until
diff --git a/string_set.go b/string_set.go
index 4b7da97..cc2d333 100644
--- a/string_set.go
+++ b/string_set.go
@@ -201,7 +201,7 @@ func (s StringSet) Del(key string) {
 			continue
 		}
 		if (*strkv[struct{}])(item.ptr).k != key { // key missing
-			return
+			break
 		}
 		l.pmap &^= bit
 		l.tmap &^= bit
@@ -233,6 +233,9 @@ func (s StringSet) Del(key string) {
 			*(*link)(unsafe.Pointer(uintptr(l.ptr) + uintptr(after)*linkSize)) =
 				*(*link)(unsafe.Pointer(uintptr(src) + uintptr(after+1)*linkSize))
 		}
+		if l.ptr == src { // clear the vacated slot to prevent leaks
+			*(*link)(unsafe.Pointer(uintptr(src) + uintptr(count)*linkSize)) = link{}
+		}
 		// replace single-valued branches with key-values up to the root
 		for count == 1 && l.pmap == l.tmap && d != 0 {
 			*l = *(*link)(l.ptr)
@@ -243,13 +246,10 @@ func (s StringSet) Del(key string) {
 			l.tmap |= 1 << radix
 			count = uint8(bits.OnesCount32(l.pmap))
 		}
-		// clear the path to prevent leaks
-		for d != 0 {
-			d--
-			path[d].link = nil
-		}
-		return // item removed
+		break // item removed
 	}
+	// clear the path to prevent leaks
+	s.path = [len(s.path)]pathLink{}
 }
 
 // All ranges over keys in s, applying the do callback to each key until
-- 
2.43.0


From 561288f83b488e5d149b8c8e3aa75703b3f1d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 9/9] fix: a key whose Hash panics leaves a generic Map or Set
 unchanged

Set, Mod and Add marked the slot as a branch before hashing the colliding
keys further; a panic in Hash left a key-value pointer that was then read as
an array of links.
---
 generic_map.go | 46 ++++++++++++++++++++++++++--------------------
 generic_set.go | 23 +++++++++++++----------
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/generic_map.go b/generic_map.go
index 6714614..50a09c2 100644
--- a/generic_map.go
+++ b/generic_map.go
@@ -147,9 +147,10 @@ func (m Map[K, V]) Set(key K, value V) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(m.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		m.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; hashing may panic, so
+		// nothing may be changed before the branch is complete
+		branch, cdep := link{}, uint64(d) // new branch, conflicting key depth
+		sub := &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -159,23 +160,25 @@ func (m Map[K, V]) Set(key K, value V) {
 				hd, chd = key.Hash(m.seed, uint(d>>4)), ckey.Hash(m.seed, uint(d>>4))
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			sub.pmap = kbit | cbit
 			if kbit != cbit { // non-colliding
-				item.tmap = item.pmap
-				item.ptr = newLinkArray(2)
+				sub.tmap = sub.pmap
+				sub.ptr = newLinkArray(2)
 				kv := &kv[K, V]{value, key}
-				if pair := (*[2]link)(item.ptr); kbit < cbit {
+				if pair := (*[2]link)(sub.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*item = branch
+				l.tmap &^= bit
 				m.len++
-				m.dep += uint64(d) * 2
+				m.dep += uint64(d)*2 - cdep
 				return // item added
 			}
 			// handle collision at new level
-			item.ptr = newLinkArray(1)
-			item = (*link)(item.ptr)
+			sub.ptr = newLinkArray(1)
+			sub = (*link)(sub.ptr)
 		}
 	}
 	count := uint8(bits.OnesCount32(l.pmap))
@@ -239,9 +242,10 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 		// the callback may read the map or panic, so it must see the map unchanged
 		kv := &kv[K, V]{k: key}
 		mod(&kv.v, false)
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		m.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; hashing may panic, so
+		// nothing may be changed before the branch is complete
+		branch, cdep := link{}, uint64(d) // new branch, conflicting key depth
+		sub := &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -251,22 +255,24 @@ func (m Map[K, V]) Mod(key K, mod func(*V, bool)) {
 				hd, chd = key.Hash(m.seed, uint(d>>4)), ckey.Hash(m.seed, uint(d>>4))
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			sub.pmap = kbit | cbit
 			if kbit != cbit { // non-colliding
-				item.tmap = item.pmap
-				item.ptr = newLinkArray(2)
-				if pair := (*[2]link)(item.ptr); kbit < cbit {
+				sub.tmap = sub.pmap
+				sub.ptr = newLinkArray(2)
+				if pair := (*[2]link)(sub.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*item = branch
+				l.tmap &^= bit
 				m.len++
-				m.dep += uint64(d) * 2
+				m.dep += uint64(d)*2 - cdep
 				return // item added
 			}
 			// handle collision at new level
-			item.ptr = newLinkArray(1)
-			item = (*link)(item.ptr)
+			sub.ptr = newLinkArray(1)
+			sub = (*link)(sub.ptr)
 		}
 	}
 	kv := &kv[K, V]{k: key}
diff --git a/generic_set.go b/generic_set.go
index 9daf3ca..fb85ae1 100644
--- a/generic_set.go
+++ b/generic_set.go
@@ -98,9 +98,10 @@ func (s Set[K]) Add(key K) {
 		}
 		// rehash conflicting key
 		chd := ckey.Hash(s.seed, uint(d>>4)) >> (4 * (d % (64 / 4)))
-		// replace with new branch until non-colliding
-		l.tmap &^= bit
-		s.dep -= uint64(d) // conflicting key depth
+		// replace with new branch until non-colliding; hashing may panic, so
+		// nothing may be changed before the branch is complete
+		branch, cdep := link{}, uint64(d) // new branch, conflicting key depth
+		sub := &branch
 		for {
 			d++
 			if d&0xF != 0 { // hash bits available
@@ -110,23 +111,25 @@ func (s Set[K]) Add(key K) {
 				hd, chd = key.Hash(s.seed, uint(d>>4)), ckey.Hash(s.seed, uint(d>>4))
 			}
 			kbit, cbit := uint32(1)<<uint8(hd&0xF), uint32(1)<<uint8(chd&0xF)
-			item.pmap = kbit | cbit
+			sub.pmap = kbit | cbit
 			if kbit != cbit { // non-colliding
-				item.tmap = item.pmap
-				item.ptr = newLinkArray(2)
+				sub.tmap = sub.pmap
+				sub.ptr = newLinkArray(2)
 				kv := &kv[K, struct{}]{k: key}
-				if pair := (*[2]link)(item.ptr); kbit < cbit {
+				if pair := (*[2]link)(sub.ptr); kbit < cbit {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(kv), unsafe.Pointer(ckv)
 				} else {
 					pair[0].ptr, pair[1].ptr = unsafe.Pointer(ckv), unsafe.Pointer(kv)
 				}
+				*item = branch
+				l.tmap &^= bit
 				s.len++
-				s.dep += uint64(d) * 2
+				s.dep += uint64(d)*2 - cdep
 				return // key added
 			}
 			// handle collision at new level
-			item.ptr = newLinkArray(1)
-			item = (*link)(item.ptr)
+			sub.ptr = newLinkArray(1)
+			sub = (*link)(sub.ptr)
 		}
 	}
 	count := uint8(bits.OnesCount32(l.pmap))
-- 
2.43.0

