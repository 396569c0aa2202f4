From 819051875ca7b3e92294e95896e89f11eb0772e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 01/28] fix: btree::map cend()/crend() recursed forever through
 end()/rend()

---
 include/indexes/btree/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index f37acdf..5ee9a74 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -894,7 +894,7 @@ public:
 
   inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
 
-  inline const_iterator cend() const { return end(); }
+  inline const_iterator cend() const { return {this, nullptr, 0}; }
 
   inline const_iterator begin() const { return cbegin(); }
 
@@ -912,7 +912,7 @@ public:
     return {this, leaf, leaf->num_values - 1};
   }
 
-  inline const_reverse_iterator crend() const { return end(); }
+  inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
 
   inline const_reverse_iterator rbegin() const { return crbegin(); }
 
-- 
2.43.0


From abdcd40be76d8777d2030ac5ac60a9a92c33d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 02/28] fix: btree::map subscript left the value of a new key
 unconstructed

---
 include/indexes/btree/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 5ee9a74..a500fdb 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -262,7 +262,7 @@ private:
         int current_value_offset =
             this->last_value_offset - sizeof(key_value_t);
 
-        new (opaque() + current_value_offset) key_type{key};
+        new (opaque() + current_value_offset) key_value_t{key, value_t{}};
 
         std::copy_backward(slots + pos, slots + this->num_values,
                            slots + this->num_values + 1);
-- 
2.43.0


From 5f19c470442f05a57c5399b662ccb39f4e568645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 03/28] fix: btree::map nodes allocated with new char[] were
 released with delete

---
 include/indexes/btree/map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index a500fdb..56198d1 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -80,9 +80,9 @@ private:
 
     static void free(node_t *node) {
       if (node->isLeaf())
-        delete ASLEAF(node);
+        inherited_node_t<Value, NodeType::LEAF>::free(ASLEAF(node));
       else
-        delete ASINNER(node);
+        inherited_node_t<node_t *, NodeType::INNER>::free(ASINNER(node));
     }
   };
 
@@ -131,6 +131,11 @@ private:
           inherited_node_t(lowkey, highkey, height);
     }
 
+    static void free(inherited_node_t *node) {
+      node->~inherited_node_t();
+      delete[] reinterpret_cast<char *>(node);
+    }
+
     inline bool canMerge(const node_t *other) const {
       return (this->logical_pagesize + other->logical_pagesize +
               (IsInner() ? sizeof(key_value_t) : 0)) +
-- 
2.43.0


From 0ee507c6f6a2c45db0e344a84371126eddc38e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 04/28] fix: btree::map located nodes by their first key even
 when they had none

---
 include/indexes/btree/map.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 56198d1..471dc29 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -173,13 +173,6 @@ private:
       return slot == 0 ? get_first_child() : get_key_value(slot)->second;
     }
 
-    inline const Key &get_first_key() const {
-      if constexpr (IsInner())
-        return get_key_value(1)->first;
-      else
-        return get_key_value(0)->first;
-    }
-
     INNER_ONLY
     inline value_t get_first_child() const {
       value_t *valptr = reinterpret_cast<value_t *>(&get_key_value(0)->first);
@@ -473,12 +466,17 @@ private:
     m_root = new_root;
   }
 
+  // Position of the child of "parent", whose key range includes "node".
+  static int get_child_pos(const inner_node_t *parent, const node_t *node) {
+    return node->lowkey ? parent->search_inner(*node->lowkey) : 0;
+  }
+
   template <typename Node> inner_node_t *find_parent(Node *node) const {
-    const Key &key = node->get_first_key();
     inner_node_t *parent = nullptr;
 
     for (auto *current = m_root; current && current->isInner();
-         current = ASINNER(current)->get_child_for_key(key)) {
+         current = ASINNER(current)->get_child(
+             get_child_pos(ASINNER(current), node))) {
       if (current == node)
         break;
 
@@ -499,7 +497,7 @@ private:
     if (parent == nullptr)
       return std::nullopt;
 
-    int pos = parent->search_inner(node->get_first_key());
+    int pos = get_child_pos(parent, node);
 
     if (pos == 0)
       return std::nullopt;
@@ -544,7 +542,7 @@ private:
     NodeSplitInfo<Node> splitinfo = node->split();
 
     if (node != m_root) {
-      int left_pos = parent->search_inner(node->get_first_key());
+      int left_pos = get_child_pos(parent, node);
       int right_pos = left_pos + 1;
 
       parent->update(left_pos, splitinfo.left);
@@ -567,7 +565,7 @@ private:
     Node *new_node = node->trim();
 
     if (node != m_root) {
-      int pos = parent->search_inner(node->get_first_key());
+      int pos = get_child_pos(parent, node);
 
       parent->update(pos, new_node);
     } else {
-- 
2.43.0


From 6a2099ae904ad50d4d0a762373e6673a857c46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 05/28] fix: btree::map never destroyed erased entries

---
 include/indexes/btree/map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 471dc29..318d3ef 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -330,6 +330,8 @@ private:
     void remove(int pos) {
       int *slots = get_slots();
 
+      get_key_value(pos)->~key_value_t();
+
       std::copy(slots + pos + 1, slots + this->num_values, slots + pos);
 
       this->num_values--;
-- 
2.43.0


From 0a024787be7bdb5cb6bf90b7ef048cb6f6f96b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 06/28] fix: btree::map iteration returned garbage from emptied
 leaves and empty maps

---
 include/indexes/btree/map.h | 59 ++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/include/indexes/btree/map.h b/include/indexes/btree/map.h
index 318d3ef..5b91400 100644
--- a/include/indexes/btree/map.h
+++ b/include/indexes/btree/map.h
@@ -728,26 +728,27 @@ public:
     friend class map;
 
     void increment() {
-      if (++m_curslot >= m_leaf->num_values) {
-        if (this->m_leaf->highkey) {
-          m_leaf = m_bt->get_next_leaf(m_leaf);
-          m_curslot = 0;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
-      }
+      ++m_curslot;
+      skip_forward();
     }
 
     void decrement() {
-      if (--m_curslot < 0) {
-        if (this->m_leaf->lowkey) {
-          m_leaf = m_bt->get_prev_leaf(this->m_leaf);
-          m_curslot = m_leaf->num_values - 1;
-        } else {
-          m_leaf = nullptr;
-          m_curslot = 0;
-        }
+      --m_curslot;
+      skip_backward();
+    }
+
+    // Erases can leave empty leaves behind. Skip them.
+    void skip_forward() {
+      while (m_leaf && m_curslot >= m_leaf->num_values) {
+        m_leaf = m_leaf->highkey ? m_bt->get_next_leaf(m_leaf) : nullptr;
+        m_curslot = 0;
+      }
+    }
+
+    void skip_backward() {
+      while (m_leaf && m_curslot < 0) {
+        m_leaf = m_leaf->lowkey ? m_bt->get_prev_leaf(m_leaf) : nullptr;
+        m_curslot = m_leaf ? m_leaf->num_values - 1 : 0;
       }
     }
 
@@ -893,11 +894,21 @@ public:
     return end();
   }
 
-  inline iterator begin() { return {this, get_first_leaf(), 0}; }
+  inline iterator begin() {
+    iterator it = {this, get_first_leaf(), 0};
+
+    it.skip_forward();
+    return it;
+  }
 
   inline iterator end() { return {this, nullptr, 0}; }
 
-  inline const_iterator cbegin() const { return {this, get_first_leaf(), 0}; }
+  inline const_iterator cbegin() const {
+    const_iterator it = {this, get_first_leaf(), 0};
+
+    it.skip_forward();
+    return it;
+  }
 
   inline const_iterator cend() const { return {this, nullptr, 0}; }
 
@@ -907,14 +918,20 @@ public:
 
   inline reverse_iterator rbegin() {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    reverse_iterator it = {this, leaf, leaf ? leaf->num_values - 1 : 0};
+
+    it.skip_backward();
+    return it;
   }
 
   inline reverse_iterator rend() { return end(); }
 
   inline const_reverse_iterator crbegin() const {
     auto leaf = get_last_leaf();
-    return {this, leaf, leaf->num_values - 1};
+    const_reverse_iterator it = {this, leaf, leaf ? leaf->num_values - 1 : 0};
+
+    it.skip_backward();
+    return it;
   }
 
   inline const_reverse_iterator crend() const { return {this, nullptr, 0}; }
-- 
2.43.0


From 2d170363ed11bd0bc60147b5ab87f76861135e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 07/28] fix: art::map linked an expanded node under the wrong
 byte of its grandparent

---
 include/indexes/art/map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/map.h b/include/indexes/art/map.h
index 5588a75..f77d4df 100644
--- a/include/indexes/art/map.h
+++ b/include/indexes/art/map.h
@@ -612,7 +612,8 @@ private:
         parent->add(node, ind);
 
         if (grand_parent)
-          grand_parent->update(parent, node_t::get_ind(node->key, depth - 1));
+          grand_parent->update(
+              parent, node_t::get_ind(node->key, depth - parent->keylen));
         else
           root = parent;
 
-- 
2.43.0


From 0995e2a2290e54d849b2c429dce08c006e93b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 08/28] fix: art::concurrent_map Delete returned a value read
 before the leaf was locked

---
 include/indexes/art/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 127e711..51ff619 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -910,11 +910,13 @@ private:
 
     std::optional<value_type> remove_leaf(leaf_t *leaf, node_snapshot_t &node,
                                           node_snapshot_t &parent) {
-      value_type oldval = leaf->value;
+      std::optional<value_type> oldval;
 
       is_snapshot_stale = true;
 
       if (auto lock = node.lock()) {
+        oldval = leaf->value;
+
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
-- 
2.43.0


From 4e959c3111e4bca4cc98eafa7df034eb4b284e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 09/28] fix: art::concurrent_map did not mark a leaf deleted
 from the root as deleted

---
 include/indexes/art/concurrent_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 51ff619..039ddb7 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -926,6 +926,7 @@ private:
         } else {
           if (auto lock = root_snapshot.lock_root(map)) {
             map.root = nullptr;
+            leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
         }
-- 
2.43.0


From 83b9c6ed1b559fa401628f4d4b14082d95076566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 10/28] fix: art::concurrent_map locked nodes which were
 deleted before their snapshot

---
 include/indexes/art/concurrent_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 039ddb7..1dbd80e 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -781,7 +781,8 @@ private:
     LockType lock() {
       LockType lock{node->m};
 
-      if (load_rx(node->version) != version) {
+      if (version == node_t::DEAD_VERSION ||
+          load_rx(node->version) != version) {
         lock.unlock();
       }
 
-- 
2.43.0


From 6c8d900fa1b0b6c5a94b3e70b7936f2eabfd3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 11/28] fix: art::concurrent_map leaked a leaf when an insert
 was retried

---
 include/indexes/art/concurrent_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index 1dbd80e..f535d3e 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -1072,7 +1072,10 @@ private:
       }
 
       if constexpr (UOp != UpdateOp::UOP_Update) {
-        if (!add_to_parent(new leaf_t(key, value), parent, grand_parent)) {
+        auto leaf = new leaf_t(key, value);
+
+        if (!add_to_parent(leaf, parent, grand_parent)) {
+          delete leaf;
           is_snapshot_stale = true;
         }
       }
-- 
2.43.0


From e69b4f15178e5c0db4e7800c2c8f758d16342958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:27 +0000
Subject: [PATCH 12/28] fix: art::concurrent_map never shrank or released
 emptied nodes

---
 include/indexes/art/concurrent_map.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/indexes/art/concurrent_map.h b/include/indexes/art/concurrent_map.h
index f535d3e..fa64d62 100644
--- a/include/indexes/art/concurrent_map.h
+++ b/include/indexes/art/concurrent_map.h
@@ -137,8 +137,6 @@ private:
     }
 
     node_t *find(std::uint8_t ind) const {
-      ART_DEBUG_ASSERT(this->size() != 0);
-
       switch (node_type) {
       case node_type_t::NODE4:
         return static_cast<const node4_t *>(this)->find(ind);
@@ -291,8 +289,6 @@ private:
     }
 
     bool is_underfull() const {
-      ART_DEBUG_ASSERT(this->size() != 0);
-
       switch (node_type) {
       case node_type_t::NODE4:
         return static_cast<const node4_t *>(this)->is_underfull();
@@ -338,7 +334,6 @@ private:
     }
 
     static void free(node_t *node) {
-      ART_DEBUG_ASSERT(node->is_leaf() || node->size() != 0);
       ART_DEBUG_ASSERT(!node->m.is_locked());
 
       switch (node->node_type) {
@@ -891,6 +886,7 @@ private:
           }
 
           if (node->node_type != node_type_t::NODE4) {
+            child_lock.unlock();
             delete replacement;
           }
         } else {
@@ -921,6 +917,7 @@ private:
         if (parent) {
           if (auto lock = parent.lock()) {
             parent->remove(leaf->key);
+            parent.version = load_rx(parent->version);
             leaf->mark_as_deleted();
             is_snapshot_stale = false;
           }
-- 
2.43.0


From 3ff36f4b37bee960ae39bde506d6fb7d9c2b3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:53 +0000
Subject: [PATCH 13/28] fix: EpochManager could reclaim objects in use when the
 oldest section ended during the scan

---
 include/indexes/utils/EpochManager.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/indexes/utils/EpochManager.h b/include/indexes/utils/EpochManager.h
index 352397a..8ab1f98 100644
--- a/include/indexes/utils/EpochManager.h
+++ b/include/indexes/utils/EpochManager.h
@@ -189,13 +189,16 @@ private:
   }
 
   epoch_t get_min_used_epoch() {
-    return std::min_element(std::begin(m_local_epoch),
-                            std::begin(m_local_epoch) +
-                                ThreadRegistry::MaxThreadID() + 1,
-                            [](const auto &a, const auto &b) {
-                              return a.epoch.load() < b.epoch.load();
-                            })
-        ->epoch;
+    // Each epoch is read once, it may change at any time.
+    epoch_t min_epoch = QUIESCENT_STATE;
+
+    std::for_each(std::begin(m_local_epoch),
+                  std::begin(m_local_epoch) + ThreadRegistry::MaxThreadID() + 1,
+                  [&](const auto &local) {
+                    min_epoch = std::min(min_epoch, local.epoch.load());
+                  });
+
+    return min_epoch;
   }
 
   void retire(std::function<void(ReclaimedPtrType object)> reclaimer,
-- 
2.43.0


From 95b7dacab00028a48c7116838b7de2c801a4149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 14/28] fix: hashtable::concurrent_map never released its table

---
 include/indexes/hashtable/concurrent_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index d9dd299..4c0a2b1 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -423,6 +423,8 @@ public:
     o_map.ht.store(nullptr);
   }
 
+  ~concurrent_map() { delete ht.load(); }
+
   void reserve(size_t num_values) { migrate_table(num_values * 2); }
 
   std::optional<mapped_type> Search(const key_type &key) {
-- 
2.43.0


From 52ca9d3e541a75e38d5ed36212a2f14612f3127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 15/28] fix: hashtable::concurrent_map leaked tables which
 turned out too small

---
 include/indexes/hashtable/concurrent_map.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 4c0a2b1..3768e8a 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -365,8 +365,10 @@ private:
         HT_DEBUG_ASSERT(ires.res !=
                         HashTable::InsertResult::InsertResult_AlreadyPresent);
 
-        if (ires.res == HashTable::InsertResult::InsertResult_Overflow)
+        if (ires.res == HashTable::InsertResult::InsertResult_Overflow) {
+          delete new_ht;
           return false;
+        }
 
         insert_key_val_into_ht(*new_ht, ires.sres, ires.bucket_link,
                                old_bucket.key_value.first,
-- 
2.43.0


From b9cd0ab5ae528333c83d9bd6e827ad3514e37c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 16/28] fix: hashtable::concurrent_map never destroyed deleted
 entries and retired buckets which may be released first

---
 include/indexes/hashtable/concurrent_map.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 3768e8a..3738ce0 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -118,8 +118,9 @@ private:
         return this->hash == hash && key_value.first == key;
       }
 
+      // Entries of deleted keys stay in their bucket as long as the table.
       void destroy() {
-        if (has_value())
+        if (!is_free())
           key_value.~KeyValuePair();
       }
 
@@ -557,13 +558,6 @@ public:
 
           bucket.mark_as_empty();
           ht.increment_num_tomb_stones();
-
-          m_gc.retire_in_new_epoch(
-              [&](void *ptr) {
-                reinterpret_cast<typename HashTable::HashBucket *>(ptr)
-                    ->destroy();
-              },
-              reinterpret_cast<void *>(&bucket));
         } else {
           continue;
         }
-- 
2.43.0


From cc156e2240e83f63de234b5b1aee1aa7902eb453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 17/28] fix: hashtable::concurrent_map lost entries when a
 chain was extended concurrently

---
 include/indexes/hashtable/concurrent_map.h | 36 +++++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 3738ce0..21cc1c0 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -286,6 +286,15 @@ private:
       MutexLock lock;
       typename Traits::LinkType bucket_link;
       SearchResult sres;
+      MutexLock chain_lock;
+
+      void unlock() {
+        if (lock)
+          lock.unlock();
+
+        if (chain_lock)
+          chain_lock.unlock();
+      }
     };
 
     InsertSearchResult insert(const key_type &key) {
@@ -300,27 +309,40 @@ private:
 
           if (buckets[sres.bucket].has_value()) {
             return {InsertResult::InsertResult_AlreadyPresent, std::move(lock),
-                    0, sres};
+                    0, sres, {}};
           } else {
             continue;
           }
         }
 
+        // A chain is extended with the lock of its first bucket only, until
+        // the new bucket is linked.
+        size_t ideal_bucket = get_ideal_bucket(sres.hash);
+        MutexLock chain_lock{link[ideal_bucket].m};
+
+        std::tie(found, sres) = search(key);
+
+        if (found)
+          continue;
+
         if (auto bucket_link = get_bucket_to_insert(sres)) {
           sres.bucket = add_bucket_circular(sres.bucket, *bucket_link);
 
-          MutexLock lock{link[sres.bucket].m};
+          MutexLock lock;
+
+          if (sres.bucket != ideal_bucket)
+            lock = MutexLock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].is_free()) {
             increment_num_values();
 
             return {InsertResult::InsertResult_New, std::move(lock),
-                    *bucket_link, sres};
+                    *bucket_link, sres, std::move(chain_lock)};
           } else {
             continue;
           }
         } else {
-          return {InsertResult::InsertResult_Overflow, {}, 0, sres};
+          return {InsertResult::InsertResult_Overflow, {}, 0, sres, {}};
         }
       };
     }
@@ -449,8 +471,7 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
+        ires.unlock();
 
         wait_for_migration_to_end();
         continue;
@@ -481,8 +502,7 @@ public:
       auto ires = ht.insert(key);
 
       if (is_migration_in_progress) {
-        if (ires.lock)
-          ires.lock.unlock();
+        ires.unlock();
 
         wait_for_migration_to_end();
         continue;
-- 
2.43.0


From a933cfd73f87a06d56867eefa79e4bf68bc8001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 18/28] fix: hashtable::concurrent_map lost writes to a table
 which was migrated meanwhile

---
 include/indexes/hashtable/concurrent_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 21cc1c0..18dc9d5 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -407,6 +407,11 @@ private:
     return true;
   }
 
+  // Whether writes to `old_ht` may be lost. To be checked with a bucket locked.
+  bool is_stale(HashTable &old_ht) const {
+    return is_migration_in_progress || ht.load() != std::addressof(old_ht);
+  }
+
   void wait_for_migration_to_end() {
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
@@ -470,7 +475,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         ires.unlock();
 
         wait_for_migration_to_end();
@@ -501,7 +506,7 @@ public:
       HashTable &ht = *this->ht.load();
       auto ires = ht.insert(key);
 
-      if (is_migration_in_progress) {
+      if (is_stale(ht)) {
         ires.unlock();
 
         wait_for_migration_to_end();
@@ -538,7 +543,7 @@ public:
       if (found) {
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
@@ -567,7 +572,7 @@ public:
 
         typename HashTable::MutexLock lock{ht.link[sres.bucket].m};
 
-        if (is_migration_in_progress) {
+        if (is_stale(ht)) {
           lock.unlock();
           wait_for_migration_to_end();
           continue;
-- 
2.43.0


From 2aaf82ac700970a8bef54086d45a1a4a2f963702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 19/28] fix: hashtable::concurrent_map counted inserts retried
 after a migration twice

---
 include/indexes/hashtable/concurrent_map.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 18dc9d5..8e7ba25 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -334,8 +334,6 @@ private:
             lock = MutexLock{link[sres.bucket].m};
 
           if (buckets[sres.bucket].is_free()) {
-            increment_num_values();
-
             return {InsertResult::InsertResult_New, std::move(lock),
                     *bucket_link, sres, std::move(chain_lock)};
           } else {
@@ -368,6 +366,7 @@ private:
                                      typename Traits::LinkType bucket_link,
                                      const key_type &key,
                                      const mapped_type &val) {
+    ht.increment_num_values();
     ht.buckets[sres.bucket].emplace(sres.hash, key, val);
     sres.link->store(bucket_link, std::memory_order_release);
   }
-- 
2.43.0


From 11e23fb6518e656c480f81ed032ea51d97b9f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 20/28] fix: hashtable::concurrent_map never ended an insert
 when the buckets in reach were full but the table was not

---
 include/indexes/hashtable/concurrent_map.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/indexes/hashtable/concurrent_map.h b/include/indexes/hashtable/concurrent_map.h
index 8e7ba25..f1419b4 100644
--- a/include/indexes/hashtable/concurrent_map.h
+++ b/include/indexes/hashtable/concurrent_map.h
@@ -415,16 +415,25 @@ private:
     std::lock_guard<sync_prim::mutex::Mutex> migration_lock{migration_mutex};
   }
 
-  void migrate_table(size_t new_num_buckets = 0) {
+  void migrate_table(size_t new_num_buckets = 0,
+                     const HashTable *full_ht = nullptr) {
     typename HashTable::MutexLock migration_lock{migration_mutex,
                                                  std::try_to_lock};
 
     if (migration_lock) {
+      // Already replaced by another thread.
+      if (full_ht && ht.load() != full_ht)
+        return;
+
       is_migration_in_progress = true;
 
       if (new_num_buckets == 0)
         new_num_buckets = size() * 2;
 
+      // Without deleted entries to drop, only a larger table has more room.
+      if (full_ht && full_ht->get_stats().second == 0)
+        new_num_buckets = full_ht->num_buckets * 2;
+
       new_num_buckets = next_pow_2(new_num_buckets);
 
       while (!try_migrate_table(new_num_buckets)) {
@@ -469,6 +478,8 @@ public:
   }
 
   bool Insert(const key_type &key, const mapped_type &val) {
+    const HashTable *full_ht = nullptr;
+
     while (true) {
       EpochGuard eg{this};
       HashTable &ht = *this->ht.load();
@@ -489,16 +500,19 @@ public:
       if (ires.res == HashTable::InsertResult::InsertResult_AlreadyPresent)
         return false;
 
+      full_ht = std::addressof(ht);
       break;
     }
 
-    migrate_table();
+    migrate_table(0, full_ht);
 
     return Insert(key, val);
   }
 
   std::optional<mapped_type> Upsert(const key_type &key,
                                     const mapped_type &val) {
+    const HashTable *full_ht = nullptr;
+
     while (true) {
       std::optional<mapped_type> oldval{std::nullopt};
       EpochGuard eg{this};
@@ -522,10 +536,11 @@ public:
         return oldval;
       }
 
+      full_ht = std::addressof(ht);
       break;
     }
 
-    migrate_table();
+    migrate_table(0, full_ht);
 
     return Upsert(key, val);
   }
-- 
2.43.0


From 8c99437863d2ea8d5740e51a0c60001a8de717af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 21/28] fix: btree::concurrent_map nodes allocated with new
 char[] were released with delete

---
 include/indexes/btree/concurrent_map.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 85612ac..ccae59b 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -226,9 +226,9 @@ protected:
 
     static inline void free(node_t *node) {
       if (node->isLeaf())
-        delete ASLEAF(node);
+        leaf_node_t::free(ASLEAF(node));
       else
-        delete ASINNER(node);
+        inner_node_t::free(ASINNER(node));
     }
 
     inline const key_type &get_first_key() const {
@@ -281,7 +281,10 @@ protected:
           inherited_node_t(lowkey, highkey, height);
     }
 
-    static void free(inherited_node_t *node) { delete node; }
+    static void free(inherited_node_t *node) {
+      node->~inherited_node_t();
+      delete[] reinterpret_cast<char *>(node);
+    }
 
     // Must be called with both this's and other's mutex held
     inline bool haveEnoughSpace() const {
@@ -824,7 +827,7 @@ protected:
                                          detail::load_acquire(this->m_height));
 
       if (!update_root({}, new_root))
-        delete new_root;
+        leaf_node_t::free(new_root);
     }
   }
 
-- 
2.43.0


From 434e358df2af8823957f6ba2d24c3e9775a187a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 22/28] fix: btree::concurrent_map never destroyed removed
 entries

---
 include/indexes/btree/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index ccae59b..55da0fb 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -268,9 +268,12 @@ protected:
         : node_t(NType, sizeof(inherited_node_t), height, lowkey, highkey) {}
 
     inline ~inherited_node_t() {
-      auto num_values = detail::load_relaxed(this->num_values);
-      for (int slot = IsInner() ? 1 : 0; slot < num_values; slot++) {
-        get_key_value(slot)->~key_value_t();
+      // Includes the entries removed from this node, as no slot refers to them.
+      constexpr int end = Traits::NODE_SIZE -
+                          (IsInner() ? static_cast<int>(sizeof(key_value_t)) : 0);
+      for (int offset = this->last_value_offset; offset < end;
+           offset += sizeof(key_value_t)) {
+        get_key_value_for_offset(offset)->~key_value_t();
       }
     }
 
-- 
2.43.0


From e837ac69d5c7f210fd851ba6f0924bf905950a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 23/28] fix: btree::concurrent_map iteration threw when the
 only leaf was empty

---
 include/indexes/btree/concurrent_map.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 55da0fb..48f7649 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2355,9 +2355,12 @@ protected:
       eg.refresh();
     } while (leaf);
 
-    if (leaf && slots.empty())
-      std::tie(leaf, pos) =
-          ops.get_next_leaf(this, leaf->highkey.value(), slots);
+    if (leaf && slots.empty()) {
+      if (leaf->highkey)
+        std::tie(leaf, pos) = ops.get_next_leaf(this, *leaf->highkey, slots);
+      else
+        leaf = nullptr;
+    }
 
     return leaf ? const_iterator{ops,
                                  this,
@@ -2398,8 +2401,10 @@ protected:
     } while (leaf);
 
     if (leaf && slots.empty()) {
-      std::tie(leaf, pos) =
-          ops.get_prev_leaf(this, leaf->lowkey.value(), slots);
+      if (leaf->lowkey)
+        std::tie(leaf, pos) = ops.get_prev_leaf(this, *leaf->lowkey, slots);
+      else
+        leaf = nullptr;
     } else {
       pos = slots.size() - 1;
     }
-- 
2.43.0


From 251a841447d22d6cfd516cef2ede1e05b782c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 24/28] fix: btree::concurrent_map reverse scan skipped an
 entry when the leaf it came from was merged

---
 include/indexes/btree/concurrent_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 48f7649..3520bf9 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -1082,9 +1082,9 @@ protected:
 
     int get_slots_less_than(const leaf_node_t *leaf, const key_type &key,
                             std::vector<int> &slot_offsets) const noexcept {
-      auto [pos, found, num_values] = lower_bound(leaf, key);
+      auto num_values = detail::load_acquire(leaf->num_values);
+      auto pos = lower_bound_pos(leaf, key, num_values);
 
-      pos = found ? pos - 1 : pos;
       leaf_node_t::get_all_slots(slot_offsets, leaf->get_slots(), num_values);
       return pos - 1;
     }
-- 
2.43.0


From 044fca6755b36507ef8331c88674266d2667dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 25/28] fix: btree::concurrent_map reverse ranges were empty
 when everything was below the upper end

---
 include/indexes/btree/concurrent_map.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 3520bf9..16758ee 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2298,8 +2298,9 @@ protected:
                                              const MaxkeyType &max_key) {
       auto it = map->lower_bound(max_key, m_max_ops, m_defops);
 
+      // Everything is below max_key
       if (it.m_leaf == nullptr)
-        return {};
+        return get_last_iter(map, max_key);
 
       if (m_max_ops.equal(it->first, max_key)) {
         if constexpr (RRKind == range_kind::EXCLUSIVE)
@@ -2314,6 +2315,24 @@ protected:
         return {};
     }
 
+    template <typename MaxkeyType>
+    std::optional<iterator> get_last_iter(const concurrent_map_iter *map,
+                                          const MaxkeyType &max_key) {
+      auto it = map->crbegin(m_defops);
+
+      // Entries may have been added meanwhile
+      while (it.m_leaf != nullptr && (RRKind == range_kind::INCLUSIVE
+                                          ? m_max_ops.greater(it->first, max_key)
+                                          : m_max_ops.greater_equal(
+                                                it->first, max_key)))
+        ++it;
+
+      if (it.m_leaf != nullptr)
+        return {std::move(it)};
+      else
+        return {};
+    }
+
     const DefOps m_defops;
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
-- 
2.43.0


From e87ff879307f083d5b56c6cc1786bfb053a11f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 26/28] fix: btree::concurrent_map ranges kept a reference to
 the end point they were given

---
 include/indexes/btree/concurrent_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 16758ee..1420343 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2144,9 +2144,9 @@ protected:
     using minkey_type = typename MinkeyOps::cmp_key_type;
     using maxkey_type = typename MaxkeyOps::cmp_key_type;
     using endkey_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                           minkey_type, maxkey_type>;
+                                           maxkey_type, minkey_type>;
     using endkey_ops_type = std::conditional_t<IDir == iter_direction::FORWARD,
-                                               MinkeyOps, MaxkeyOps>;
+                                               MaxkeyOps, MinkeyOps>;
     using iterator = iterator_impl<IDir>;
 
     range_iterator(const concurrent_map_iter *map, DefOps defops,
@@ -2337,7 +2337,10 @@ protected:
     const MinkeyOps m_min_ops;
     const MaxkeyOps m_max_ops;
     const endkey_ops_type m_endkey_ops;
-    const endkey_type &m_endkey;
+    // Outlives the argument it is made from, which may be a temporary
+    const std::conditional_t<std::is_array_v<endkey_type>, const endkey_type &,
+                             endkey_type>
+        m_endkey;
     std::optional<iterator> m_it;
   };
 
-- 
2.43.0


From 8dcfd4057d9a6e90b4a9425dba6deeb37429cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 27/28] fix: btree::concurrent_map unlocked a null node when
 the root was busy

---
 include/indexes/btree/concurrent_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 1420343..7a97ff9 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -680,7 +680,7 @@ protected:
         try_lock_pessimistic(node, state);
 
         if (!state.is_deleted())
-          node->mutex.unlock();
+          (node ? node->mutex : *this->m_root_mutex).unlock();
       }
     } else {
       try_lock_pessimistic(node, state);
-- 
2.43.0


From 48a657581c4200f49a190ead4d7e688bd5bfbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 28/28] fix: btree::concurrent_map reverse ranges yielded
 entries added beyond the upper end meanwhile

---
 include/indexes/btree/concurrent_map.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/indexes/btree/concurrent_map.h b/include/indexes/btree/concurrent_map.h
index 7a97ff9..c2bb930 100644
--- a/include/indexes/btree/concurrent_map.h
+++ b/include/indexes/btree/concurrent_map.h
@@ -2300,7 +2300,7 @@ protected:
 
       // Everything is below max_key
       if (it.m_leaf == nullptr)
-        return get_last_iter(map, max_key);
+        return skip_beyond(map->crbegin(m_defops), max_key);
 
       if (m_max_ops.equal(it->first, max_key)) {
         if constexpr (RRKind == range_kind::EXCLUSIVE)
@@ -2309,18 +2309,13 @@ protected:
         --it;
       }
 
-      if (it.m_leaf != nullptr)
-        return {std::move(it)};
-      else
-        return {};
+      return skip_beyond(it, max_key);
     }
 
+    // Entries beyond max_key may have been added meanwhile
     template <typename MaxkeyType>
-    std::optional<iterator> get_last_iter(const concurrent_map_iter *map,
-                                          const MaxkeyType &max_key) {
-      auto it = map->crbegin(m_defops);
-
-      // Entries may have been added meanwhile
+    std::optional<iterator> skip_beyond(iterator it,
+                                        const MaxkeyType &max_key) const {
       while (it.m_leaf != nullptr && (RRKind == range_kind::INCLUSIVE
                                           ? m_max_ops.greater(it->first, max_key)
                                           : m_max_ops.greater_equal(
-- 
2.43.0

