From 9ffcc2b6f61d5bd450795509b95431ff9c57edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 01/44] fix: btree map: const end() and cend() called each
 other without end

---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..f942db4 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
-- 
2.43.0


From 22d5954f23c9799dd730a11ebcc65a8177cccd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 02/44] fix: btree map: iterators and bounds stopped at leaves
 emptied by erase; begin/rbegin of an empty map

---
 include/indexes/btree/map.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f942db4..3a5fd05 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -723,7 +723,10 @@ public:
     friend class map;
 
     void increment() {
-      if (++m_curslot >= m_leaf->num_values) {
+      ++m_curslot;
+
+      // Leaves emptied by erase can stay in the tree, skip them
+      while (m_leaf && m_curslot >= m_leaf->num_values) {
         if (this->m_leaf->highkey) {
           m_leaf = m_bt->get_next_leaf(m_leaf);
           m_curslot = 0;
@@ -735,7 +738,9 @@ public:
     }
 
     void decrement() {
-      if (--m_curslot < 0) {
+      --m_curslot;
+
+      while (m_leaf && m_curslot < 0) {
         if (this->m_leaf->lowkey) {
           m_leaf = m_bt->get_prev_leaf(this->m_leaf);
           m_curslot = m_leaf->num_values - 1;
@@ -888,11 +893,13 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() { return ++iterator{this, get_first_leaf(), -1}; }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    return ++const_iterator{this, get_first_leaf(), -1};
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -902,14 +909,14 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    return ++reverse_iterator{this, leaf, leaf ? leaf->num_values : 1};
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    return ++const_reverse_iterator{this, leaf, leaf ? leaf->num_values : 1};
   }
 
   inline const_reverse_iterator crend() const { return end(); }
-- 
2.43.0


From 6fca7a861c1a3be4e23416c5749c26cdedfbf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 03/44] fix: btree map: operator[] left the value of a new key
 unconstructed

---
 include/indexes/btree/map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 3a5fd05..a343ef3 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -845,6 +845,7 @@ public:
 
     if (!key_present) {
       std::tie(leaf, pos) = insert_into_node(leaf, key, pos);
+      new (&leaf->get_key_value(pos)->second) Value();
       count++;
     }
 
-- 
2.43.0


From 24b5107e4c03ea6dea9076b9a712668f0be3a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 04/44] fix: btree map: erased keys and values were never
 destroyed

---
 include/indexes/btree/map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index a343ef3..7e8f7c7 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -119,8 +119,11 @@ private:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      for (int slot = IsInner() ? 1 : 0; slot < this->num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Removed entries stay in the page till now, destroy them too
+      int offset = Traits::NODE_SIZE - (IsInner() ? sizeof(value_t) : 0);
+
+      while ((offset -= sizeof(key_value_t)) >= this->last_value_offset) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From 7268fd331d8b006e881030bdfab428c744389607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 05/44] fix: art map: expanding a node under a compressed
 prefix replaced the wrong slot of its parent

---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..4185a13 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(parent,
+                               node_t::get_ind(node->key, depth - old->keylen));
         else
           root = parent;
 
-- 
2.43.0


From baa55eafba6f22116e1d9f858744e59f35962bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 06/44] fix: art concurrent_map: a moved-to map had no root
 mutex and shared no counters with its source

---
 include/indexes/art/concurrent_map.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..2e387c9 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1168,9 +1168,10 @@ public:
 
   concurrent_map(const concurrent_map &) = delete;
 
-  concurrent_map(concurrent_map &&other)
-      : root(other.root.exchange(nullptr)),
-        count(std::exchange(other.count, nullptr)) {}
+  concurrent_map(concurrent_map &&other) : concurrent_map() {
+    root = other.root.exchange(nullptr);
+    std::swap(count, other.count);
+  }
 
   std::optional<value_type> Search(key_type key) const {
     EpochGuard eg{this};
-- 
2.43.0


From ce59c0668a6dcae8cfbfcbd7d92c856feff34464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 07/44] fix: EpochManager: destroying the manager leaked every
 object still waiting to be reclaimed

---
 include/indexes/utils/EpochManager.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..57ed087 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -139,6 +139,13 @@ public:
         m_local_epoch(ThreadRegistry::MAX_THREADS),
         m_retire_list(ThreadRegistry::MAX_THREADS) {}
 
+  // Objects still waiting to be reclaimed can no longer be in use.
+  ~EpochManager() {
+    for (auto &retire_list : m_retire_list) {
+      reclaim_in_retire_list(retire_list, QUIESCENT_STATE);
+    }
+  }
+
   EpochManager(const EpochManager &) = delete;
   EpochManager(EpochManager &&) = delete;
 
-- 
2.43.0


From 0eb8d17b4a4817c11ee6854e51c442234bf9d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 08/44] EpochManager: reclamation threshold of 1 under
 INDEXES_VERIF

---
 include/indexes/utils/EpochManager.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 57ed087..3c7ae37 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -17,8 +17,16 @@
 #include <gsl/gsl>
 
 namespace indexes::utils {
+#ifdef INDEXES_VERIF
+// Model checking: reclaim as early as the protocol allows.
+inline constexpr int DEFAULT_RECLAMATION_THRESHOLD = 1;
+#else
+inline constexpr int DEFAULT_RECLAMATION_THRESHOLD = 1000;
+#endif
+
 template <typename epoch_t, typename ReclaimedType,
-          int ReclamationThreshold = 1000, typename Enable = void>
+          int ReclamationThreshold = DEFAULT_RECLAMATION_THRESHOLD,
+          typename Enable = void>
 class EpochManager;
 
 // Provides support for epoch based reclaimation.
-- 
2.43.0


From d8fea7492659ab96ee50e4ed49152605f9bfcb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 09/44] fix: art concurrent_map: a delete racing with an update
 returned a stale value, and a deleted root leaf still accepted updates

---
 include/indexes/art/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 2e387c9..377da48 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -910,7 +910,7 @@ private:
 
     std::optional<value_type> remove_leaf(leaf_t *leaf, node_snapshot_t &node,
                                           node_snapshot_t &parent) {
-      value_type oldval = leaf->value;
+      std::optional<value_type> oldval;
 
       is_snapshot_stale = true;
 
@@ -918,7 +918,6 @@ private:
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
-            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         } else {
@@ -927,6 +926,11 @@ private:
             is_snapshot_stale = false;
           }
         }
+
+        if (!is_snapshot_stale) {
+          oldval = leaf->value;
+          leaf->mark_as_deleted();
+        }
       }
 
       if (!is_snapshot_stale) {
-- 
2.43.0


From 4a5ca123782fe8074f725c2c215ed0c9fb5dd5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 10/44] fix: art concurrent_map: a snapshot taken of an already
 deleted node could be locked and modified

---
 include/indexes/art/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 377da48..6f2638c 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -781,7 +781,7 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      if (load_rx(node->version) != version || node->is_deleted()) {
         lock.unlock();
       }
 
-- 
2.43.0


From 7f036eadbc7e804861b9d95cc18d75211af44f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 11/44] fix: art concurrent_map: an insert that had to be
 retried leaked its leaf

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 6f2638c..7cf89c7 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1072,7 +1072,10 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = new leaf_t(key, value);
+
+        if (!add_to_parent(leaf, parent, grand_parent)) {
+          delete leaf;
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From bd397f8f1e778d1de72d8e24d8152d974d42776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 12/44] fix: EpochManager: the smallest epoch in use was read
 again after its thread could have left it, freeing objects still in use by
 others

---
 include/indexes/utils/EpochManager.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 3c7ae37..fb15d9d 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -204,13 +204,14 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    epoch_t min_used_epoch = QUIESCENT_STATE;
+
+    // Each epoch must be read once only, its thread may leave it at any time.
+    for (int i = 0; i <= ThreadRegistry::MaxThreadID(); i++) {
+      min_used_epoch = std::min(min_used_epoch, m_local_epoch[i].epoch.load());
+    }
+
+    return min_used_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From 131c5767865031f79ed16500b364ed7d6869d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 13/44] fix: EpochManager: entering an epoch was not ordered
 before the reads it protects (store-load reordering)

---
 include/indexes/utils/EpochManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index fb15d9d..3433ecc 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -54,7 +54,7 @@ public:
 
     if (pd.nested_level == 0) {
       pd.epoch.store(now(), std::memory_order_release);
-      std::atomic_thread_fence(std::memory_order_acquire);
+      std::atomic_thread_fence(std::memory_order_seq_cst);
     }
     pd.nested_level++;
   }
-- 
2.43.0


From 418b82fe80e6fad0be3caabab3fc23b31c78ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 14/44] fix: hashtable: concurrent insertions into one chain
 lost or duplicated keys

---
 include/indexes/hashtable/concurrent_map.h | 50 ++++++++++++++++------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..bb0b58f 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -282,9 +282,21 @@ private:
 
     struct InsertSearchResult {
       InsertResult res;
+      // Lock of the bucket with, or for, the key.
       MutexLock lock;
+      // For a new key: lock of its ideal bucket, which serializes insertions into
+      // the ideal bucket's chain. Not held if it is the same bucket.
+      MutexLock chain_lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
+
+      void unlock() {
+        if (lock)
+          lock.unlock();
+
+        if (chain_lock)
+          chain_lock.unlock();
+      }
     };
 
     InsertSearchResult insert(const key_type &key) {
@@ -298,28 +310,46 @@ private:
           MutexLock lock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].has_value()) {
-            return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
+            return {InsertResult::InsertResult_AlreadyPresent,
+                    std::move(lock),
+                    {},
+                    0,
+                    sres};
           } else {
             continue;
           }
         }
 
         if (auto bucket_link = get_bucket_to_insert(sres)) {
+          size_t ideal_bucket = get_ideal_bucket(sres.hash);
+
           sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
 
-          MutexLock lock{link[sres.bucket].m};
+          MutexLock lock{link[sres.bucket].m, std::defer_lock};
+          MutexLock chain_lock;
 
-          if (buckets[sres.bucket].is_free()) {
+          if (sres.bucket == ideal_bucket) {
+            lock.lock();
+          } else {
+            chain_lock = MutexLock{link[ideal_bucket].m, std::defer_lock};
+            std::lock(lock, chain_lock);
+          }
+
+          // The key must not have been inserted, nor the chain extended, since it
+          // was searched.
+          auto [inserted, chain_end] = search(key);
+
+          if (!inserted && chain_end.link == sres.link &&
+              buckets[sres.bucket].is_free()) {
             increment_num_values();
 
             return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
+                    std::move(chain_lock), *bucket_link, sres};
           } else {
             continue;
           }
         } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
+          return {InsertResult::InsertResult_Overflow, {}, {}, 0, sres};
         }
       };
     }
@@ -444,9 +474,7 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
-
+        ires.unlock();
         wait_for_migration_to_end();
         continue;
       }
@@ -476,9 +504,7 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
-
+        ires.unlock();
         wait_for_migration_to_end();
         continue;
       }
-- 
2.43.0


From 4ea7a72dac363cdf154bf655386c0ad510b6ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 15/44] fix: hashtable: a write to a table which a finished
 migration had already replaced was lost

---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index bb0b58f..50a5ecb 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -412,6 +412,11 @@ private:
     return true;
   }
 
+  // To be called with the lock of the bucket to be modified held.
+  bool is_table_migrated(const HashTable &table) const {
+    return is_migration_in_progress || &table != ht.load();
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -473,7 +478,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_table_migrated(ht)) {
         ires.unlock();
         wait_for_migration_to_end();
         continue;
@@ -503,7 +508,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_table_migrated(ht)) {
         ires.unlock();
         wait_for_migration_to_end();
         continue;
@@ -539,7 +544,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_table_migrated(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -568,7 +573,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_table_migrated(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From 72a2f1f2eb90f7cdf2effe0114c57e91d60f9d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 16/44] fix: hashtable: an insertion retried because of a
 migration was counted, but not made, in the old table

---
 include/indexes/hashtable/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 50a5ecb..600d971 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -341,8 +341,6 @@ private:
 
           if (!inserted && chain_end.link == sres.link &&
               buckets[sres.bucket].is_free()) {
-            increment_num_values();
-
             return {InsertResult::InsertResult_New, std::move(lock),
                     std::move(chain_lock), *bucket_link, sres};
           } else {
@@ -375,6 +373,7 @@ private:
                                      typename Traits::LinkType bucket_link,
                                      const key_type &key,
                                      const mapped_type &val) {
+    ht.increment_num_values();
     ht.buckets[sres.bucket].emplace(sres.hash, key, val);
     sres.link->store(bucket_link, std::memory_order_release);
   }
-- 
2.43.0


From 07b2d16ddfcfbef658f2baba5030548db1b9c3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 17/44] fix: hashtable: a table found too small while migrating
 to it was leaked

---
 include/indexes/hashtable/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 600d971..b515230 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -379,7 +379,7 @@ private:
   }
 
   bool try_migrate_table(size_t new_num_buckets) {
-    auto *new_ht = new HashTable{new_num_buckets};
+    auto new_ht = std::make_unique<HashTable>(new_num_buckets);
     auto *old_ht = ht.load();
     size_t old_num_buckets = old_ht->num_buckets;
 
@@ -403,7 +403,7 @@ private:
       }
     }
 
-    ht.store(new_ht);
+    ht.store(new_ht.release());
     m_gc.retire_in_new_epoch(
         [&](void *ptr) { delete reinterpret_cast<HashTable *>(ptr); },
         reinterpret_cast<void *>(old_ht));
-- 
2.43.0


From 060e03ac89c67926e57df0e0ab31d2c00bdb42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 18/44] fix: hashtable: deleted keys and values were never
 destroyed, and their buckets used after their table was freed

---
 include/indexes/hashtable/concurrent_map.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index b515230..361c557 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -118,8 +118,10 @@ private:
         return this->hash == hash && key_value.first == key;
       }
 
+      // Deleted keys and values are kept until the table is destroyed, as they can
+      // still be in use by concurrent searches.
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -583,13 +585,6 @@ public:
 
           bucket.mark_as_empty();
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From 2c86348c6d77796a2e5e6d0047a05c47b935c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 19/44] fix: hashtable: destroying the map leaked its table

---
 include/indexes/hashtable/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 361c557..2594951 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -459,6 +459,8 @@ public:
     o_map.ht.store(nullptr);
   }
 
+  ~concurrent_map() { delete ht.load(); }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From a9497ebd446174278375fb27ed8e85bd76ff4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 20/44] fix: hashtable: size queries read a table that a
 concurrent migration could free

---
 include/indexes/hashtable/concurrent_map.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 2594951..1d22471 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -360,12 +360,12 @@ private:
   sync_prim::mutex::Mutex migration_mutex;
   std::atomic<int> num_migrations;
 
-  indexes::utils::EpochManager<uint64_t, void> m_gc;
+  mutable indexes::utils::EpochManager<uint64_t, void> m_gc;
 
   struct EpochGuard {
-    concurrent_map *map;
+    const concurrent_map *map;
 
-    EpochGuard(concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
+    EpochGuard(const concurrent_map *a_map) : map(a_map) { map->m_gc.enter_epoch(); }
 
     ~EpochGuard() { map->m_gc.exit_epoch(); }
   };
@@ -597,6 +597,7 @@ public:
   }
 
   size_t size() const {
+    EpochGuard eg{this};
     std::atomic_thread_fence(std::memory_order_seq_cst);
 
     auto [num_values, num_tomb_stones] = ht.load()->get_stats();
@@ -605,6 +606,7 @@ public:
   }
 
   int load_factor() const {
+    EpochGuard eg{this};
     HashTable &ht = *this->ht.load();
     auto [num_values, num_tomb_stones] = ht.get_stats();
 
-- 
2.43.0


From 86b5b0c1d269ff1394522b42ca33a33f7b6a916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 21/44] fix: hashtable: a search could copy a value while an
 update replaced it

---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 1d22471..9400d45 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -469,8 +469,17 @@ public:
     auto [found, sres] = ht.search(key);
     std::optional<mapped_type> val{std::nullopt};
 
-    if (found)
-      val = ht.buckets[sres.bucket].key_value.second;
+    if (found) {
+      auto &bucket = ht.buckets[sres.bucket];
+      typename HashTable::MutexLock lock;
+
+      // Concurrent updates replace the value in place.
+      if constexpr (!std::is_trivially_copyable_v<mapped_type> ||
+                    sizeof(mapped_type) > sizeof(void *))
+        lock = typename HashTable::MutexLock{ht.link[sres.bucket].m};
+
+      val = bucket.key_value.second;
+    }
 
     return val;
   }
-- 
2.43.0


From be6b77ba7632edc7ed11b59ad574d79429734c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 22/44] fix: hashtable: an insertion that found a full run of
 buckets migrated to same-sized tables forever

---
 include/indexes/hashtable/concurrent_map.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 9400d45..2dd325c 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -429,8 +429,16 @@ private:
     if (migration_lock) {
       is_migration_in_progress = true;
 
-      if (new_num_buckets == 0)
-        new_num_buckets = size() * 2;
+      if (new_num_buckets == 0) {
+        const HashTable &table = *ht.load();
+        auto [num_values, num_tomb_stones] = table.get_stats();
+
+        new_num_buckets = (num_values - num_tomb_stones) * 2;
+
+        // With no deleted keys to drop, only a larger table can make room.
+        if (num_tomb_stones == 0)
+          new_num_buckets = std::max(new_num_buckets, table.num_buckets * 2);
+      }
 
       new_num_buckets = next_pow_2(new_num_buckets);
 
@@ -461,7 +469,9 @@ public:
 
   ~concurrent_map() { delete ht.load(); }
 
-  void reserve(size_t num_values) { migrate_table(num_values * 2); }
+  void reserve(size_t num_values) {
+    migrate_table(std::max({num_values, size(), size_t{1}}) * 2);
+  }
 
   std::optional<mapped_type> Search(const key_type &key) {
     EpochGuard eg{this};
-- 
2.43.0


From c60d81a16040517411ea2d002ab8adc316ea20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 23/44] fix: btree concurrent_map: begin()/rbegin() of a map
 emptied by deletions read a missing fence key

---
 include/indexes/btree/concurrent_map.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..ddfbf18 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2349,9 +2349,12 @@ protected:
       eg.refresh();
     } while (leaf);
 
-    if (leaf && slots.empty())
-      std::tie(leaf, pos) =
-          ops.get_next_leaf(this, leaf->highkey.value(), slots);
+    if (leaf && slots.empty()) {
+      if (leaf->highkey)
+        std::tie(leaf, pos) = ops.get_next_leaf(this, *leaf->highkey, slots);
+      else
+        leaf = nullptr;
+    }
 
     return leaf ? const_iterator{ops,
                                  this,
@@ -2392,8 +2395,10 @@ protected:
     } while (leaf);
 
     if (leaf && slots.empty()) {
-      std::tie(leaf, pos) =
-          ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      if (leaf->lowkey)
+        std::tie(leaf, pos) = ops.get_prev_leaf(this, *leaf->lowkey, slots);
+      else
+        leaf = nullptr;
     } else {
       pos = slots.size() - 1;
     }
-- 
2.43.0


From f57eed3e0c88bf63a351f1d751ce4fb08743caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 24/44] fix: btree concurrent_map: reverse range scans were
 empty when no key lies above the range, and could start beyond it

---
 include/indexes/btree/concurrent_map.h | 28 +++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index ddfbf18..378e639 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2290,17 +2290,19 @@ protected:
     std::optional<iterator> get_reverse_iter(const concurrent_map_iter *map,
                                              const MinkeyType &min_key,
                                              const MaxkeyType &max_key) {
-      auto it = map->lower_bound(max_key, m_max_ops, m_defops);
+      iterator it = [&]() -> iterator {
+        auto lb = map->lower_bound(max_key, m_max_ops, m_defops);
 
-      if (it.m_leaf == nullptr)
-        return {};
+        // All keys are less than `max_key`
+        if (lb.m_leaf == nullptr)
+          return map->crbegin(m_defops);
 
-      if (m_max_ops.equal(it->first, max_key)) {
-        if constexpr (RRKind == range_kind::EXCLUSIVE)
-          --it;
-      } else {
-        --it;
-      }
+        return lb;
+      }();
+
+      // Keys beyond `max_key` can be inserted concurrently, skip them too
+      while (it.m_leaf != nullptr && is_beyond_max(it.key(), max_key))
+        ++it;
 
       if (it.m_leaf != nullptr)
         return {std::move(it)};
@@ -2308,6 +2310,14 @@ protected:
         return {};
     }
 
+    bool is_beyond_max(const key_type &key, const maxkey_type &max_key) const
+        noexcept {
+      if constexpr (RRKind == range_kind::INCLUSIVE)
+        return m_max_ops.less(max_key, key);
+      else
+        return !m_max_ops.less(key, max_key);
+    }
+
     const DefOps m_defops;
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
-- 
2.43.0


From 6c90d9f1bfd772de606899bc1c7d6cb3c93dd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 25/44] fix: btree concurrent_map: range iterators kept a
 reference to the caller's limit, and limits of different types did not
 compile

---
 include/indexes/btree/concurrent_map.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 378e639..413a4a9 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2138,9 +2138,9 @@ protected:
     using minkey_type = typename MinkeyOps::cmp_key_type;
     using maxkey_type = typename MaxkeyOps::cmp_key_type;
     using endkey_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                           minkey_type, maxkey_type>;
+                                           maxkey_type, minkey_type>;
     using endkey_ops_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                               MinkeyOps, MaxkeyOps>;
+                                               MaxkeyOps, MinkeyOps>;
     using iterator = iterator_impl<IDir>;
 
     range_iterator(const concurrent_map_iter *map, DefOps defops,
@@ -2175,12 +2175,12 @@ protected:
     }
 
     template <typename MinkeyType, typename MaxkeyType>
-    static auto get_end_key(const MinkeyType &min_key,
-                            const MaxkeyType &max_key) {
+    static const endkey_type &get_end_key(const MinkeyType &min_key,
+                                          const MaxkeyType &max_key) {
       if constexpr (IDir == iter_direction::FORWARD)
-        return std::cref(max_key);
+        return max_key;
       else
-        return std::cref(min_key);
+        return min_key;
     }
 
     bool need_trav(const key_type &key) const noexcept {
@@ -2322,7 +2322,8 @@ protected:
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
     const endkey_ops_type m_endkey_ops;
-    const endkey_type &m_endkey;
+    // Copied, the caller's key need not outlive the iterator
+    const endkey_type m_endkey;
     std::optional<iterator> m_it;
   };
 
-- 
2.43.0


From b49b7ad4c5c5d27a0b516fc71245d1a50cd27b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 26/44] fix: btree concurrent_map: stats() did not compile, and
 a header was missing

---
 include/indexes/btree/concurrent_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 413a4a9..4282625 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -14,6 +14,7 @@
 #include <memory>
 #include <mutex>
 #include <thread>
+#include <utility>
 #include <vector>
 
 #define ENABLE_IF(cond)                                                        \
@@ -2769,7 +2770,7 @@ public:
   }
 
   template <ENABLE_IF(Traits::STAT)> inline const Stats &stats() const {
-    return this->m_stats;
+    return *this->m_stats;
   }
 
   ~concurrent_map() {
-- 
2.43.0


From 534c0087e58f9adaef7e43bdf342913c5a805ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 27/44] fix: btree concurrent_map: deleted keys and values were
 never destroyed

---
 include/indexes/btree/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 4282625..215c8f1 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -269,9 +269,12 @@ protected:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      auto num_values = detail::load_relaxed(this->num_values);
-      for (int slot = IsInner() ? 1 : 0; slot < num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Removed entries stay in the page till now, destroy them too.
+      // First entry of an inner node has no key.
+      int offset = Traits::NODE_SIZE - (IsInner() ? sizeof(key_value_t) : 0);
+
+      while ((offset -= sizeof(key_value_t)) >= this->last_value_offset) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From 463819b4e25aeb0fb7b044869710b973e7d46dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:47 +0000
Subject: [PATCH 28/44] fix: btree concurrent_map: an optimistic reader waiting
 for a new root unlocked a mutex through a null node

---
 include/indexes/btree/concurrent_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 215c8f1..516a83e 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -677,8 +677,12 @@ protected:
         BTREE_UPDATE_STAT(optimistic_fail, ++);
         try_lock_pessimistic(node, state);
 
-        if (!state.is_deleted())
-          node->mutex.unlock();
+        if (!state.is_deleted()) {
+          if (node)
+            node->mutex.unlock();
+          else
+            this->m_root_mutex->unlock();
+        }
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From 0fa6e17b3ec18f81ba93ae201c0d07bfd0a956f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 29/44] fix: btree concurrent_map: stepping back from a leaf
 merged meanwhile skipped a key or left the page

---
 include/indexes/btree/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 516a83e..525e9f9 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1084,9 +1084,8 @@ protected:
 
     int get_slots_less_than(const leaf_node_t *leaf, const key_type &key,
                             std::vector<int> &slot_offsets) const noexcept {
-      auto [pos, found, num_values] = lower_bound(leaf, key);
+      auto [pos, _, num_values] = lower_bound(leaf, key);
 
-      pos = found ? pos - 1 : pos;
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
       return pos - 1;
     }
-- 
2.43.0


From d7594794199340ebfeb3882deb3c6b0fd818bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 30/44] fix: btree concurrent_map: a search could copy a value
 while an update replaced it

---
 include/indexes/btree/concurrent_map.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 525e9f9..47734fd 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1919,6 +1919,13 @@ protected:
 
       if (leaf_snapshot.node) {
         leaf_node_t *leaf = ASLEAF(leaf_snapshot.node);
+        std::unique_lock lock{leaf->mutex, std::defer_lock};
+
+        // Writers replace values in place, they must not do it during a copy
+        // which is more than reading some bytes
+        if constexpr (!std::is_trivially_copyable_v<mapped_type>)
+          lock.lock();
+
         auto [pos, key_present, _] = ops.lower_bound(leaf, key);
 
         std::optional<mapped_type> val =
-- 
2.43.0


From 5c1502b081712a68c0c99b357fbbd02717e1720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:00 +0000
Subject: [PATCH 31/44] btree concurrent_map: hook to let model checking reach
 the locking fallback sooner

---
 include/indexes/btree/concurrent_map.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 47734fd..e451792 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -632,6 +632,12 @@ protected:
   static constexpr bool FILL_SNAPSHOT_VECTOR = true;
   static constexpr bool NO_FILL_SNAPSHOT_VECTOR = false;
   static constexpr int OPTIMISTIC_TRY_COUNT = 3;
+#if defined(INDEXES_VERIF) && defined(INDEXES_VERIF_MAX_RESTARTS)
+  // Model checking: fall back to locks earlier.
+  static constexpr int MAX_RESTARTS = INDEXES_VERIF_MAX_RESTARTS;
+#else
+  static constexpr int MAX_RESTARTS = 2;
+#endif
 
   enum class OpResult { SUCCESS, FAILURE, STALE_SNAPSHOT };
 
@@ -764,7 +770,7 @@ protected:
     return OpResult::SUCCESS;
   }
 
-  template <bool FillSnapshotVector, typename GetChild, int MaxRestarts = 2,
+  template <bool FillSnapshotVector, typename GetChild, int MaxRestarts = MAX_RESTARTS,
             typename SnapshotVectorType = std::conditional_t<
                 FillSnapshotVector, NodeSnapshotVector, DummyType>,
             typename NodeSnaphotType =
-- 
2.43.0


From 42a514cdd681d110300304c94be90816daebde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 32/44] fix: btree: node pages allocated by new char[] were
 freed by the sized delete of the node type

---
 include/indexes/btree/concurrent_map.h | 5 ++++-
 include/indexes/btree/map.h            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index e451792..f93c525 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -281,10 +281,13 @@ protected:
     static inherited_node_t *alloc(const std::optional<key_type> &lowkey,
                                    const std::optional<key_type> &highkey,
                                    int height) {
-      return new (new char[Traits::NODE_SIZE])
+      return new (::operator new(Traits::NODE_SIZE))
           inherited_node_t(lowkey, highkey, height);
     }
 
+    // A node occupies a whole page, not just its own size
+    static void operator delete(void *page) { ::operator delete(page); }
+
     static void free(inherited_node_t *node) { delete node; }
 
     // Must be called with both this's and other's mutex held
diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 7e8f7c7..3094e6c 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -130,10 +130,13 @@ private:
     static inherited_node_t *alloc(const std::optional<Key> &lowkey,
                                    const std::optional<Key> &highkey,
                                    int height) {
-      return new (new char[Traits::NODE_SIZE])
+      return new (::operator new(Traits::NODE_SIZE))
           inherited_node_t(lowkey, highkey, height);
     }
 
+    // A node occupies a whole page, not just its own size
+    static void operator delete(void *page) { ::operator delete(page); }
+
     inline bool canMerge(const node_t *other) const {
       return (this->logical_pagesize + other->logical_pagesize +
               (IsInner() ? sizeof(key_value_t) : 0)) +
-- 
2.43.0


From 7d3dd8d79dc92ca5b4e3fa808d0c3355cf2d1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 33/44] fix: btree concurrent_map: compacting the root node
 counted as another level in height()

---
 include/indexes/btree/concurrent_map.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index f93c525..8364c08 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -801,7 +801,7 @@ protected:
   }
 
   // Root mutex must be held
-  inline void store_root(node_t *new_root) {
+  inline void store_root(node_t *new_root, bool adds_level = true) {
     detail::store_release(
         this->m_root_state,
         detail::load_relaxed(this->m_root_state).set_locked());
@@ -810,8 +810,10 @@ protected:
                           detail::load_relaxed(this->m_root_state)
                               .reset_locked()
                               .increment_version());
-    detail::store_release(this->m_height,
-                          detail::load_relaxed(this->m_height) + 1);
+
+    if (adds_level)
+      detail::store_release(this->m_height,
+                            detail::load_relaxed(this->m_height) + 1);
   }
 
   // Root mutex must be held
@@ -1579,7 +1581,7 @@ protected:
                   if (parent)
                     ops.update_inner_for_trim(parent, key, trimmed_node);
                   else
-                    this->store_root(trimmed_node);
+                    this->store_root(trimmed_node, false);
 
                   return true;
                 }),
-- 
2.43.0


From 9e6f3d302a770e6b653284d5ccbfa722a35df08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 34/44] fix: art concurrent_map: a value could be copied while
 an update replaced it

---
 include/indexes/art/concurrent_map.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 7cf89c7..ecf34a0 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -390,6 +390,17 @@ private:
 
     leaf_t(key_type key, value_type a_value)
         : node_t(node_type_t::LEAF, key, KEYTYPE_SIZE), value(a_value) {}
+
+    value_type load() {
+      std::unique_lock<sync_prim::mutex::Mutex> lock;
+
+      // Concurrent updates replace the value in place.
+      if constexpr (!std::is_trivially_copyable_v<value_type> ||
+                    sizeof(value_type) > sizeof(void *))
+        lock = std::unique_lock{this->m};
+
+      return value;
+    }
   };
 
   using atomic_key_t = std::atomic<std::uint8_t>;
@@ -824,9 +835,11 @@ private:
         } else {
           is_snapshot_stale = true;
         }
+
+        return {};
       }
 
-      return leaf->value;
+      return leaf->load();
     }
 
     bool replace_root(node_t *node) {
@@ -1188,9 +1201,9 @@ public:
 
     while (node) {
       if (node->is_leaf()) {
-        auto leaf = static_cast<const leaf_t *>(node);
+        auto leaf = static_cast<leaf_t *>(node);
         if (leaf->key == key) {
-          return leaf->value;
+          return leaf->load();
         }
 
         break;
-- 
2.43.0


From 4b0066ffdc25253a48ff1d1f0f897507ec568010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 35/44] fix: EpochManager: a reclaimer which retired another
 object reclaimed objects twice

---
 include/indexes/utils/EpochManager.h | 32 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 3433ecc..4dd1935 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -149,9 +149,16 @@ public:
 
   // Objects still waiting to be reclaimed can no longer be in use.
   ~EpochManager() {
-    for (auto &retire_list : m_retire_list) {
-      reclaim_in_retire_list(retire_list, QUIESCENT_STATE);
-    }
+    size_t num_retired;
+
+    do {
+      num_retired = 0;
+
+      for (auto &retire_list : m_retire_list) {
+        num_retired += retire_list.size();
+        reclaim_in_retire_list(retire_list, QUIESCENT_STATE);
+      }
+    } while (num_retired);
   }
 
   EpochManager(const EpochManager &) = delete;
@@ -182,23 +189,20 @@ private:
 
   static size_t reclaim_in_retire_list(std::deque<Retiree> &retire_list,
                                        epoch_t min_used_epoch) {
-    auto begin = std::begin(retire_list);
-    auto reclaim_upto = begin;
+    bool reclaimed = false;
 
-    for (auto &retiree : retire_list) {
-      if (!retiree.can_reclaim(min_used_epoch))
-        break;
+    // A reclaimer may retire other objects, and so end up here again.
+    while (!retire_list.empty() &&
+           retire_list.front().can_reclaim(min_used_epoch)) {
+      Retiree retiree = std::move(retire_list.front());
 
+      retire_list.pop_front();
       retiree.reclaim();
-      reclaim_upto++;
+      reclaimed = true;
     }
 
-    size_t num_reclaimed = reclaim_upto - begin;
-
-    if (num_reclaimed) {
-      retire_list.erase(begin, reclaim_upto);
+    if (reclaimed)
       retire_list.shrink_to_fit();
-    }
 
     return retire_list.size();
   }
-- 
2.43.0


From bdfc53f3fed667bbecf24e9b47427ac57dd73b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 36/44] fix: concurrent maps: a size read while keys were
 inserted and deleted could wrap around

---
 include/indexes/art/concurrent_map.h       |  5 +++--
 include/indexes/btree/concurrent_map.h     |  3 ++-
 include/indexes/hashtable/concurrent_map.h | 12 +++++++-----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index ecf34a0..2bed0ef 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1271,13 +1271,14 @@ public:
   }
 
   std::size_t size() const {
-    std::size_t size = 0;
+    std::ptrdiff_t size = 0;
 
     for (int i = 0, n = utils::ThreadRegistry::MAX_THREADS; i < n; i++) {
       size += load_rx(count[i].num_inserts) - load_rx(count[i].num_deletes);
     }
 
-    return size;
+    // A delete can be counted before the insert of the same key.
+    return std::max<std::ptrdiff_t>(size, 0);
   }
 
   ~concurrent_map() {
diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 8364c08..0d3983b 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2786,7 +2786,8 @@ public:
   inline void reclaim_all() { this->m_gc.reclaim_all(); }
 
   template <ENABLE_IF(Traits::STAT)> inline std::size_t size() const {
-    return this->m_stats->num_elements;
+    // A delete can be counted before the insert of the same key.
+    return std::max<std::ptrdiff_t>(this->m_stats->num_elements.load(), 0);
   }
 
   template <ENABLE_IF(Traits::STAT)> inline bool empty() const {
diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 2dd325c..0719303 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -188,18 +188,20 @@ private:
           stats[utils::ThreadRegistry::ThreadID()].num_tomb_stones;
 
       num_tomb_stones.store(num_tomb_stones.load() + 1,
-                            std::memory_order_relaxed);
+                            std::memory_order_release);
     }
 
     std::pair<size_t, size_t> get_stats() const {
       size_t num_values = 0;
       size_t num_tomb_stones = 0;
 
-      for (int i = 0; i < utils::ThreadRegistry::MAX_THREADS; i++) {
-        num_values += stats[i].num_values.load(std::memory_order_relaxed);
+      // Tomb stones first: every tomb stone seen must have its value counted.
+      for (int i = 0; i < utils::ThreadRegistry::MAX_THREADS; i++)
         num_tomb_stones +=
-            stats[i].num_tomb_stones.load(std::memory_order_relaxed);
-      }
+            stats[i].num_tomb_stones.load(std::memory_order_acquire);
+
+      for (int i = 0; i < utils::ThreadRegistry::MAX_THREADS; i++)
+        num_values += stats[i].num_values.load(std::memory_order_relaxed);
 
       return {num_values, num_tomb_stones};
     }
-- 
2.43.0


From 477bbb85facd4237dc2fdd1a3acfcfb70387d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 37/44] fix: btree::map: the Compare parameter was ignored,
 keys were always ordered by operator<

---
 include/indexes/btree/map.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 3094e6c..7b27075 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -28,15 +28,21 @@ private:
 
   template <typename KeyT1, typename KeyT2>
   static inline bool key_less(const KeyT1 &k1, const KeyT2 &k2) {
-    return k1 < k2;
+    if constexpr (std::is_same_v<Compare, std::less<Key>>)
+      return k1 < k2;
+    else
+      return comp(k1, k2);
   }
   template <typename KeyT1, typename KeyT2>
   static inline bool key_greater(const KeyT1 &k1, const KeyT2 &k2) {
-    return k2 < k1;
+    return key_less(k2, k1);
   }
   template <typename KeyT1, typename KeyT2>
   static inline bool key_equal(const KeyT1 &k1, const KeyT2 &k2) {
-    return k1 == k2;
+    if constexpr (std::is_same_v<Compare, std::less<Key>>)
+      return k1 == k2;
+    else
+      return !comp(k1, k2) && !comp(k2, k1);
   }
 
   struct node_t {
-- 
2.43.0


From fe9d643d13cdd48792709a6d93e73c9edbdbde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 38/44] fix: compound_key_greater: keys ordered ascending, like
 compound_key

---
 include/indexes/btree/key.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/key.h b/include/indexes/btree/key.h
index a1a17c7..e8ce12f 100644
--- a/include/indexes/btree/key.h
+++ b/include/indexes/btree/key.h
@@ -28,10 +28,10 @@ bool less(const compound_key<Order, Types1...> &k1,
       return false;
   } else {
     if (std::get<Index>(k1) < std::get<Index>(k2))
-      return true;
+      return Order == LESS;
 
     if (std::get<Index>(k2) < std::get<Index>(k1))
-      return false;
+      return Order != LESS;
 
     return less<Index + 1>(k1, k2);
   }
-- 
2.43.0


From 175928b4ce1c04a33892583013c3ed95a30a5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 39/44] fix: dumps of the concurrent maps did not compile;
 dump_node of a radix tree ended its line on std::cout

---
 include/indexes/art/art_dump.h       | 11 ++++++-----
 include/indexes/art/concurrent_map.h |  2 +-
 include/indexes/art/map.h            |  2 +-
 include/indexes/btree/btree_dump.h   |  6 +++---
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/indexes/art/art_dump.h b/include/indexes/art/art_dump.h
index ad9c745..f6a1cbe 100644
--- a/include/indexes/art/art_dump.h
+++ b/include/indexes/art/art_dump.h
@@ -4,7 +4,8 @@
 
 #include <iostream>
 
-#define ART_NODE_DUMP_METHODS                                                  \
+// KEYLEN: the member telling how much of the key a node covers
+#define ART_NODE_DUMP_METHODS(KEYLEN)                                          \
   template <typename Cont> void get_children(Cont &nodes, int depth) const {   \
     if (!is_leaf()) {                                                          \
       for (int i = 0; i < MAX_CHILDREN; i++) {                                 \
@@ -21,10 +22,10 @@
     ostr << static_cast<const void *>(this) << "=";                            \
     if (is_leaf()) {                                                           \
       auto leaf = static_cast<const leaf_t *>(this);                           \
-      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(keylen);        \
+      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(KEYLEN);        \
       ostr << " {" << itoa_hex(leaf->key) << ", " << leaf->value << "}|";      \
     } else {                                                                   \
-      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(keylen) << " "; \
+      ostr << "|" << itoa_hex(key) << ", " << static_cast<int>(KEYLEN) << " "; \
                                                                                \
       for (int i = 0, j = 0; i < MAX_CHILDREN; i++) {                          \
         node_t *child = find(i);                                               \
@@ -48,7 +49,7 @@
 #define ART_DUMP_METHODS                                                       \
   void dump_node(uintptr_t node, std::ostream &ostr) const {                   \
     reinterpret_cast<node_t *>(node)->dump(ostr);                              \
-    std::cout << std::endl;                                                    \
+    ostr << std::endl;                                                         \
   }                                                                            \
                                                                                \
   void dump(std::ostream &ostr) const {                                        \
@@ -106,6 +107,6 @@
   }                                                                            \
   void dump() const { dump(std::cout); }
 #else
-#define ART_NODE_DUMP_METHODS
+#define ART_NODE_DUMP_METHODS(KEYLEN)
 #define ART_DUMP_METHODS
 #endif
diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 2bed0ef..b3bc5c8 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -376,7 +376,7 @@ private:
       }
     }
 
-    ART_NODE_DUMP_METHODS
+    ART_NODE_DUMP_METHODS(level)
   };
 
   struct node4_t;
diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 4185a13..7998b12 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -256,7 +256,7 @@ private:
       }
     }
 
-    ART_NODE_DUMP_METHODS
+    ART_NODE_DUMP_METHODS(keylen)
   };
 
   struct node4_t;
diff --git a/include/indexes/btree/btree_dump.h b/include/indexes/btree/btree_dump.h
index d84da28..ea5ebd4 100644
--- a/include/indexes/btree/btree_dump.h
+++ b/include/indexes/btree/btree_dump.h
@@ -63,10 +63,10 @@
                                                                                \
   void dump(std::ostream &ostr) const {                                        \
     std::deque<node_t *> children;                                             \
-    int current_height = m_height;                                             \
+    int current_height = this->m_height;                                       \
                                                                                \
-    if (m_root)                                                                \
-      children.push_back(m_root);                                              \
+    if (this->m_root)                                                          \
+      children.push_back(this->m_root);                                        \
                                                                                \
     while (children.size()) {                                                  \
       node_t *node = children[0];                                              \
-- 
2.43.0


From c6905e0ffbee60a01070686fc3403ab92b8ef49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 40/44] fix: btree::concurrent_map: statistics counted splits
 and compactions which were abandoned

---
 include/indexes/btree/concurrent_map.h | 48 ++++++++++++++++----------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 0d3983b..baaa46f 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1520,8 +1520,6 @@ protected:
       splitinfo = node->split();
     }
 
-    BTREE_UPDATE_STAT_NODE_BASED(split);
-
     auto res = replace_subtree_on_version_match(snapshots, node_idx, [&]() {
       if constexpr (Node::IsInner())
         insert_into_splitnode(ops, splitinfo, prev_split_info);
@@ -1539,6 +1537,9 @@ protected:
       }
     });
 
+    if (res == OpResult::SUCCESS)
+      BTREE_UPDATE_STAT_NODE_BASED(split);
+
     return {res, splitinfo};
   }
 
@@ -1567,25 +1568,24 @@ protected:
       trimmed_node = node->trim();
     }
 
-    BTREE_UPDATE_STAT_NODE_BASED(trim);
+    auto res = replace_subtree_on_version_match(snapshots, node_idx, [&]() {
+      if constexpr (Node::IsInner()) {
+        ops.update_inner_for_split(
+            reinterpret_cast<inner_node_t *>(trimmed_node), prev_split_info);
+      }
 
-    return {replace_subtree_on_version_match(
-                snapshots, node_idx,
-                [&]() {
-                  if constexpr (Node::IsInner()) {
-                    ops.update_inner_for_split(
-                        reinterpret_cast<inner_node_t *>(trimmed_node),
-                        prev_split_info);
-                  }
+      if (parent)
+        ops.update_inner_for_trim(parent, key, trimmed_node);
+      else
+        this->store_root(trimmed_node, false);
 
-                  if (parent)
-                    ops.update_inner_for_trim(parent, key, trimmed_node);
-                  else
-                    this->store_root(trimmed_node, false);
+      return true;
+    });
 
-                  return true;
-                }),
-            {trimmed_node, nullptr, nullptr}};
+    if (res == OpResult::SUCCESS)
+      BTREE_UPDATE_STAT_NODE_BASED(trim);
+
+    return {res, {trimmed_node, nullptr, nullptr}};
   }
 
   std::pair<OpResult, NodeSplitInfo>
@@ -1648,10 +1648,20 @@ protected:
       case OpResult::STALE_SNAPSHOT:
         failed_splitinfos.emplace_back(res.second);
         free_failed_splits();
+        return;
+
+      case OpResult::SUCCESS: {
+        // The nodes below, whose parents had no room, have been split as well.
+        int num_below = snapshots.size() - 1 - node_idx;
+
+        if (num_below > 0) {
+          BTREE_UPDATE_STAT(leaf_split, ++);
+          BTREE_UPDATE_STAT(inner_split, += num_below - 1);
+        }
 
-      case OpResult::SUCCESS:
         return;
       }
+      }
     }
 
     free_failed_splits();
-- 
2.43.0


From 5e5fb67bc89cee2e9f130c1888c34b2e49846d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 41/44] fix: btree::concurrent_map: maps with dynamic keys did
 not compile

---
 include/indexes/btree/concurrent_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index baaa46f..81c8a21 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -933,13 +933,13 @@ protected:
   template <typename KeyType> class search_ops_t {
   public:
     using cmp_key_type = KeyType;
-    using comparator_t = std::conditional_t<is_dynamic_key, dynamic_cmp *,
+    using comparator_t = std::conditional_t<is_dynamic_key, const dynamic_cmp *,
                                             static_cmp<key_type, KeyType>>;
 
     STATIC_KEY_ONLY
     search_ops_t(Stats *stats) : m_stats(stats) {}
     DYNAMIC_KEY_ONLY
-    search_ops_t(Stats *stats, const dynamic_cmp *cmp)
+    search_ops_t(const dynamic_cmp *cmp, Stats *stats)
         : m_cmp(cmp), m_stats(stats) {}
 
     template <typename OthKeyType>
@@ -973,16 +973,16 @@ protected:
     template <typename Key1Type, typename Key2Type>
     inline bool less_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k2 < k1);
+      return !less(k2, k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater(const Key1Type &k1, const Key2Type &k2) const noexcept {
-      return k2 < k1;
+      return less(k2, k1);
     }
     template <typename Key1Type, typename Key2Type>
     inline bool greater_equal(const Key1Type &k1, const Key2Type &k2) const
         noexcept {
-      return !(k1 < k2);
+      return !less(k1, k2);
     }
 
     template <typename NodeType> class lower_bound_cmp {
@@ -2514,7 +2514,7 @@ protected:
     if (leaf && node_empty)
       it++;
 
-    return leaf ? std::move(it) : end({this->m_stats.get()});
+    return leaf ? std::move(it) : end(ops);
   }
 };
 } // namespace detail
-- 
2.43.0


From b8d954865b1d3b7e1a15c0a28b78599935e6a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 42/44] fix: btree::map: entries of inner nodes were misaligned
 when keys are aligned to more than a pointer

---
 include/indexes/btree/map.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 7b27075..91372e1 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -116,6 +116,10 @@ private:
 
     static constexpr enum NodeType NODETYPE = NType;
 
+    // The entries following the first child of an inner node must be aligned
+    static constexpr int FIRST_CHILD_SIZE =
+        std::max(sizeof(value_t), alignof(key_value_t));
+
     static constexpr bool IsLeaf() { return NType == NodeType::LEAF; }
 
     static constexpr bool IsInner() { return NType == NodeType::INNER; }
@@ -126,7 +130,7 @@ private:
 
     inline ~inherited_node_t() {
       // Removed entries stay in the page till now, destroy them too
-      int offset = Traits::NODE_SIZE - (IsInner() ? sizeof(value_t) : 0);
+      int offset = Traits::NODE_SIZE - (IsInner() ? FIRST_CHILD_SIZE : 0);
 
       while ((offset -= sizeof(key_value_t)) >= this->last_value_offset) {
         get_key_value_for_offset(offset)->~key_value_t();
@@ -249,12 +253,12 @@ private:
       BTREE_DEBUG_ASSERT(this->isInner() && this->num_values == 0);
 
       int *slots = get_slots();
-      int current_value_offset = this->last_value_offset - sizeof(value_t);
+      int current_value_offset = this->last_value_offset - FIRST_CHILD_SIZE;
 
       new (opaque() + current_value_offset) value_t{val};
       slots[0] = current_value_offset;
 
-      update_meta_after_insert(sizeof(value_t));
+      update_meta_after_insert(FIRST_CHILD_SIZE);
     }
 
     inline void append(const Key &key, const value_t &val) {
-- 
2.43.0


From 49f7004f46891669f0a70f20c74eece386ed930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 43/44] fix: B+trees: nodes were not allocated with the
 alignment of their keys and values

---
 include/indexes/btree/common.h         | 1 +
 include/indexes/btree/concurrent_map.h | 8 ++++++--
 include/indexes/btree/map.h            | 8 ++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/common.h b/include/indexes/btree/common.h
index 4f39306..62a97d0 100644
--- a/include/indexes/btree/common.h
+++ b/include/indexes/btree/common.h
@@ -14,6 +14,7 @@
 #include <functional>
 #include <iterator>
 #include <memory>
+#include <new>
 #include <optional>
 #include <ostream>
 #include <tuple>
diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 81c8a21..0889baa 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -281,12 +281,16 @@ protected:
     static inherited_node_t *alloc(const std::optional<key_type> &lowkey,
                                    const std::optional<key_type> &highkey,
                                    int height) {
-      return new (::operator new(Traits::NODE_SIZE))
+      constexpr std::align_val_t alignment{alignof(inherited_node_t)};
+
+      return new (::operator new(Traits::NODE_SIZE, alignment))
           inherited_node_t(lowkey, highkey, height);
     }
 
     // A node occupies a whole page, not just its own size
-    static void operator delete(void *page) { ::operator delete(page); }
+    static void operator delete(void *page) {
+      ::operator delete(page, std::align_val_t{alignof(inherited_node_t)});
+    }
 
     static void free(inherited_node_t *node) { delete node; }
 
diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 91372e1..3416d60 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -140,12 +140,16 @@ private:
     static inherited_node_t *alloc(const std::optional<Key> &lowkey,
                                    const std::optional<Key> &highkey,
                                    int height) {
-      return new (::operator new(Traits::NODE_SIZE))
+      constexpr std::align_val_t alignment{alignof(inherited_node_t)};
+
+      return new (::operator new(Traits::NODE_SIZE, alignment))
           inherited_node_t(lowkey, highkey, height);
     }
 
     // A node occupies a whole page, not just its own size
-    static void operator delete(void *page) { ::operator delete(page); }
+    static void operator delete(void *page) {
+      ::operator delete(page, std::align_val_t{alignof(inherited_node_t)});
+    }
 
     inline bool canMerge(const node_t *other) const {
       return (this->logical_pagesize + other->logical_pagesize +
-- 
2.43.0


From dbff56c73b70cbc5eef9f990f59ac30ebc83d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 44/44] fix: hash table: buckets were not allocated with the
 alignment of their keys and values

---
 include/indexes/hashtable/concurrent_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 0719303..911cd68 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -128,6 +128,11 @@ private:
       ~HashBucket() { destroy(); }
     };
 
+    // Uninitialized memory of a bucket
+    struct alignas(HashBucket) BucketSpace {
+      uint8_t bytes[sizeof(HashBucket)];
+    };
+
     struct alignas(128) HashTablePerThreadStats {
       std::atomic<size_t> num_values;
       std::atomic<size_t> num_tomb_stones;
@@ -142,7 +147,7 @@ private:
     size_t num_buckets;
     std::unique_ptr<HashTablePerThreadStats[]> stats;
 
-    std::unique_ptr<uint8_t[]> mem;
+    std::unique_ptr<BucketSpace[]> mem;
     std::unique_ptr<Link[]> link;
     HashBucket *buckets;
 
@@ -150,7 +155,7 @@ private:
         : num_buckets(next_pow_2(inital_num_buckets)),
           stats(std::make_unique<HashTablePerThreadStats[]>(
               utils::ThreadRegistry::MAX_THREADS)),
-          mem(std::make_unique<uint8_t[]>(num_buckets * sizeof(HashBucket))),
+          mem(std::make_unique<BucketSpace[]>(num_buckets)),
           link(std::make_unique<Link[]>(num_buckets)),
           buckets(reinterpret_cast<HashBucket *>(mem.get())) {
       init_buckets();
-- 
2.43.0

