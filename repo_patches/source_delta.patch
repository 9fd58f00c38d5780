From 045495f55b9e95030329a8463174f366238bf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 01/16] verif hook: let PMAP_VERIF leave out the debugging
 printers

---
 containers/cliffMap/hashMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..73d2dc6 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1244,6 +1244,7 @@ public:
         return helper;
     }
 #endif
+#ifndef PMAP_VERIF // These debugging printers are rejected by clang, which the verifier parses this file with.
     // Pretty-printing for Value sentinels.
     void printValue(Value val, std::ostream stream = std::cout)
     {
@@ -1305,6 +1306,7 @@ public:
         output << std::endl;
         return output;
     }
+#endif
 
     // Reports whether or not this key can be used.
     // If it is reserved, then it serves a special purpose as a sentinel.
-- 
2.43.0


From a893da081f65bd5ad263c1fe20f2b7fd6564f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 02/16] fix: unmap the mapped pairs of a table, not the Table
 object, and report it

---
 containers/cliffMap/hashMap.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 73d2dc6..fd1cf5e 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -752,8 +752,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
             delete table;
             return ret;
         }
@@ -881,10 +880,10 @@ public:
     ~ConcurrentHashMap()
     {
         // TODO: Unmap all mapped files, I guess.
-        Table *table = table.load();
+        Table *table = this->table.load();
         // Unmap the file.
         // TODO: What about the other files?
-        if (!munmapTable(table))
+        if (!Table::munmapTable(table))
         {
             // Error.
             fprintf(stderr, "Failed to unmap the file from memory.\n");
-- 
2.43.0


From 9a7236e7444cfbf672e30c3ff8b694e598212def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 03/16] fix: a failed pcas reported the dirty bit as part of
 the value it found

---
 include/persistence.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..686b3d7 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -94,13 +94,23 @@ static U pcas_read(std::atomic<U> *address)
 template <class U>
 static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
-    U oldValCopy = oldVal;
-    // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
-    assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
-    return ret;
+    while (true)
+    {
+        // Ensure the field is persisted.
+        U actual = pcas_read<U>(address);
+        // Report what was found instead: persisted, and without the dirty bit.
+        if ((uintptr_t)actual != (uintptr_t)oldVal)
+        {
+            oldVal = actual;
+            return false;
+        }
+        // Attempt to CAS.
+        if (address->compare_exchange_strong(actual, (U)((uintptr_t)newVal | DirtyFlag)))
+        {
+            return true;
+        }
+        // Another thread changed the field in between. Its value may still be dirty, so look again.
+    }
 }
 
 #endif
-- 
2.43.0


From 329dbb278ea96ec8140dda578e7d41387c7a7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 04/16] fix: an update that moves to a newer table kept only
 the plain CAS

---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index fd1cf5e..3edf116 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1124,7 +1124,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1160,7 +1160,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1221,7 +1221,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From bd5239003290ebf0e250aff7eea13c978cca3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 05/16] fix: remove(key) returned true for absent keys and
 false for the value 0

---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 3edf116..9a27eac 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -915,7 +915,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From c4c5fdf9299c9cf89d8e030dcb9acd08958f95aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 06/16] fix: getImpl truncated the hash to an int

---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 9a27eac..92dfe54 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -956,7 +956,7 @@ public:
     }
 
     // Heavy lifting for user-facing get value from key.
-    Value getImpl(Table *table, Key key, int fullHash)
+    Value getImpl(Table *table, Key key, size_t fullHash)
     {
         // The capacity of the table.
         size_t len = table->len;
-- 
2.43.0


From d775f26ff68eb5a528a65b5fd94532e7d83af77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 07/16] fix: ucf insert returned true for elements already
 present

---
 containers/ucfMap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..9a4ea27 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,8 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // Nothing was replaced, so this is a new element.
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);
         }
 
         bool erase(ValT el)
-- 
2.43.0


From 1f481434a327aaa439e1e931eeb99b1a783e5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 08/16] fix: stl get and count read the map without its lock

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From b38886fafd03302107bce8b3aab35be2d307901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 09/16] fix: clevel has a slot for each thread that inserts

---
 containers/levelMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/levelMap.hpp b/containers/levelMap.hpp
index f9e2dae..f56b04d 100644
--- a/containers/levelMap.hpp
+++ b/containers/levelMap.hpp
@@ -111,7 +111,7 @@ namespace clevel
                 pmem::obj::transaction::manual tx(pop);
 
                 proot->cons = pmem::obj::make_persistent<root::map_type>();
-                proot->cons->set_thread_num(1);
+                proot->cons->set_thread_num(opt.numthreads);
 
                 pmem::obj::transaction::commit();
             }
-- 
2.43.0


From 95fbe3bfbcc9f34b0d5b3ff3d1852a98baac6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 10/16] fix: mmapTable reopened stale files for new tables and
 never the existing one

---
 containers/cliffMap/hashMap.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 92dfe54..15c4993 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -622,15 +622,14 @@ public:
             // If we want to map a new file.
             if (newTable)
             {
-                // Try to open an existing hash table.
-                fd = open(fileName, O_RDWR);
+                // Do not open an existing file: it would bring the entries of another table along.
+                fd = -1;
             }
             // If we want to map an existing file.
             else
             {
-                // We will open the existing file.
-                // Report table doesn't exist.
-                fd = -1;
+                // Try to open an existing hash table.
+                fd = open(fileName, O_RDWR);
             }
 
             // If we opened an existing file, just map the data.
-- 
2.43.0


From 3bbedab91a4bf2f1c3f5c31967fa4c53776bbb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 11/16] fix: clevel del_dup compared a key with itself and
 dropped entries of other keys

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..cf33fc6 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -632,7 +632,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::del_dup(
 
 		// 2. Refer to different locations with the same contents
 		else if (key_equal{}(e1.get_address(my_pool_uuid)->first,
-			e1.get_address(my_pool_uuid)->first))
+			e2.get_address(my_pool_uuid)->first))
 		{
 			if (CAS(&(p2->p.off), e2.raw(), 0))
 			{
-- 
2.43.0


From 4b637d03b83133d5915964a96fd87bb95e009404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 12/16] fix: a migrated slot could be reported twice, and the
 table promoted too early

---
 containers/cliffMap/hashMap.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 15c4993..6899777 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,23 +209,18 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                bool copiedIntoNew = (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == VINITIAL);
+                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
                 // If other threads attempt this redundant computation, it will waste time but not hurt correctness.
                 // They will see the value has been migrated and fail to replace.
-                // Keep trying until we succeed.
-                Value actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                while (actualVal != oldVal)
-                {
-                    oldVal = actualVal;
-                    actualVal = CASvalue(oldTable, idx, oldVal, TOMBPRIME);
-                }
-                // Return whether or not we made progress (copied a value from the old table to the new table).
+                // If we fail, then another thread has already done so.
+                // Return whether or not we made progress (finished the migration of this slot).
+                // Every slot must be reported exactly once: the table is promoted as soon as enough of them are.
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return copiedIntoNew;
+                return CASvalue(oldTable, idx, oldVal, TOMBPRIME) == oldVal;
             }
 #endif
         public:
-- 
2.43.0


From 2458d471446aa67c3e1eab995c1cbe91105477c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 13/16] fix: a stalled copier could bring back a key removed
 from a newer table

---
 containers/cliffMap/hashMap.hpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 6899777..b88b398 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -209,7 +209,13 @@ public:
                 // Only succeeds if there isn't already a value there.
                 // If there is, we say that our write "happened before" the write that placed the existing value.
                 // In that case, we don't need to do anything.
-                hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL);
+                // If even newer tables took over, follow them only while our value still waits to be copied.
+                // Afterwards, an operation may already have removed the key there, and we would bring it back.
+                while (hashMap->putIfMatch(newTable, key, oldUnmarked, VINITIAL) == TOMBPRIME &&
+                       oldTable->value(idx) == oldVal)
+                {
+                    newTable = newTable->chm.newTable.load();
+                }
 
                 // Now that the value has been migrated, replace the old table value with a tombstone.
                 // This will prevent other threads from redundantly attempting to copy to the new table.
@@ -1116,6 +1122,11 @@ public:
                 {
                     helpCopy(newTable);
                 }
+                // A table copy has to check whether it is still needed first.
+                else
+                {
+                    return TOMBPRIME;
+                }
                 // Try again in the new table.
                 // This is a recursive call.
                 return putIfMatch(newTable, key, newVal, oldVal, CAS);
@@ -1154,7 +1165,13 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
+            newTable = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);
+            // A table copy has to check whether it is still needed first.
+            if (oldVal == VINITIAL)
+            {
+                return TOMBPRIME;
+            }
+            return this->putIfMatch(newTable, key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1215,7 +1232,13 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
+                newTable = table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL);
+                // A table copy has to check whether it is still needed first.
+                if (oldVal == VINITIAL)
+                {
+                    return TOMBPRIME;
+                }
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 9fbf1cbe39c97fe80a268f84ecb87163290eb8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 14/16] fix: the size of a table that replaced another was a
 snapshot, and stayed wrong

The entries that were added or removed while the table was being replaced were
counted only in the old table. Every table counts the pairs it holds, a migrated
pair moves from one count to the other, and size() covers a resize in progress.
---
 containers/cliffMap/hashMap.hpp | 42 +++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index b88b398..41a0b28 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -226,7 +226,13 @@ public:
                 // Every slot must be reported exactly once: the table is promoted as soon as enough of them are.
                 // Note: Stalling threads may delay reporting of completed migrations.
                 // This means old tables may continue to exist for longer than we like, but it shouldn't hurt correctness.
-                return CASvalue(oldTable, idx, oldVal, TOMBPRIME) == oldVal;
+                if (CASvalue(oldTable, idx, oldVal, TOMBPRIME) != oldVal)
+                {
+                    return false;
+                }
+                // The pair is now counted by the table which took it over.
+                oldTable->chm.size.fetch_add(-1);
+                return true;
             }
 #endif
         public:
@@ -352,7 +358,8 @@ public:
                 size_t count = fileNameCounter.fetch_add(1);
                 // Allocate the new table.
                 std::string filename = getOrderedFileName(count);
-                newTable = mmapTable(true, newSize, size, filename.c_str());
+                // It starts out empty, and counts the pairs it receives.
+                newTable = mmapTable(true, newSize, 0, filename.c_str());
 
                 // Attempt to CAS the new table.
                 // Only one thread can succeed here.
@@ -895,7 +902,15 @@ public:
     size_t size()
     {
         Table *table = this->table.load();
-        return table->chm.size.load();
+        size_t ret = table->chm.size.load();
+#ifdef RESIZE
+        // During a resize, the pairs are spread over the table and its replacements.
+        while ((table = table->chm.newTable.load()) != nullptr)
+        {
+            ret += table->chm.size.load();
+        }
+#endif
+        return ret;
     }
     bool isEmpty()
     {
@@ -1205,19 +1220,16 @@ public:
             if (actualValue == V)
             {
                 // Adjust the size counters for the table.
-                // If this was a table copy, do nothing.
-                if (oldVal != VINITIAL)
+                // A table copy adds a pair, too. The old table stops counting it once the migration is complete.
+                // If we removed an initial or tombstone value with a non-tombstone.
+                if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                 {
-                    // If we removed an initial or tombstone value with a non-tombstone.
-                    if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
-                    {
-                        table->chm.size.fetch_add(1);
-                    }
-                    // If we removed a non-initial and non-tombstone value with a tombstone.
-                    else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
-                    {
-                        table->chm.size.fetch_add(-1);
-                    }
+                    table->chm.size.fetch_add(1);
+                }
+                // If we removed a non-initial and non-tombstone value with a tombstone.
+                else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
+                {
+                    table->chm.size.fetch_add(-1);
                 }
                 // If we replaced an initial value when we had expected a non-initial value, return the tombstone sentinel.
                 return (V == VINITIAL && oldVal != VINITIAL) ? VTOMBSTONE : V;
-- 
2.43.0


From 1c4d3a39f31e26ad37a001bc2d9b9bf821a3a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 15/16] fix: clevel search reads a slot once

The slot was read three times; when another thread emptied it in between, the
key of a null entry was compared.
---
 .../libpmemobj++/experimental/clevel_hash.hpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index cf33fc6..1c19447 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -570,11 +570,13 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &f_b = cl->buckets[f_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (f_b.slots[j].x.partial == partial
-					&& f_b.slots[j].p.get_offset() != 0)
+				// Other threads may empty or refill the slot: read it once.
+				KV_entry_ptr_u tmp(f_b.slots[j].p.off);
+				if (tmp.x.partial == partial
+					&& tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						f_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, f_idx, j);
 					}
@@ -584,11 +586,13 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::search(
 			bucket &s_b = cl->buckets[s_idx];
 			for (size_type j = 0; j < assoc_num; j++)
 			{
-				if (s_b.slots[j].x.partial == partial
-					&& s_b.slots[j].p.get_offset() != 0)
+				// Other threads may empty or refill the slot: read it once.
+				KV_entry_ptr_u tmp(s_b.slots[j].p.off);
+				if (tmp.x.partial == partial
+					&& tmp.p.get_offset() != 0)
 				{
 					if (key_equal{}(
-						s_b.slots[j].p.get_address(my_pool_uuid)->first, key))
+						tmp.p.get_address(my_pool_uuid)->first, key))
 					{
 						return ret(i, s_idx, j);
 					}
-- 
2.43.0


From af0a77d5894f69bb78b158cafa4c5fc62c40bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:05 +0000
Subject: [PATCH 16/16] fix: clevel erase looks at a slot again when its
 removal fails

A concurrent update of the key made erase skip the slot and report that the key
was absent, although it was present all along.
---
 include/libpmemobj++/experimental/clevel_hash.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1c19447..1c2c598 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1161,6 +1161,8 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 						}
 						else
 						{
+							// The slot changed: look at it again.
+							j--;
 							continue;
 						}
 					}
@@ -1201,6 +1203,8 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 						}
 						else
 						{
+							// The slot changed: look at it again.
+							j--;
 							continue;
 						}
 					}
-- 
2.43.0

