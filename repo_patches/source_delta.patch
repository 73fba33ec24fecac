From 0f8ce0212b206ae8a155db0a71725c3f00b14566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 01/14] fix: dense_map insertion obtains key and value before
 shifting elements

An exception from copying or constructing the new key or value left the array
shifted with a hole in it, a value argument referring into the array was read
after it had moved, and try_emplace constructed over a live object.
---
 include/fast_containers/dense_map.hpp |  6 +--
 include/fast_containers/dense_map.ipp | 54 +++++++++++++--------------
 2 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..a190006 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -195,7 +195,7 @@ class dense_map {
 
   /**
    * Inserts a new element if the key does not exist.
-   * Constructs the value in-place using the provided arguments.
+   * Constructs the value from the provided arguments.
    * If the key already exists, does nothing (does not construct the value).
    *
    * @param key The key to insert
@@ -442,10 +442,10 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename OnInsert>
+  template <typename OnExists, typename MakeValue>
   std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
                                         OnExists&& on_exists,
-                                        OnInsert&& on_insert);
+                                        MakeValue&& make_value);
 
 #ifdef __AVX2__
   /**
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..ea0d443 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,10 +145,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> const Value& { return value; });
 }
 
 /**
@@ -190,14 +187,11 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
-      });
+      [&value]() -> const Value& { return value; });
 }
 
 /**
- * try_emplace - constructs value in-place if key doesn't exist.
+ * try_emplace - constructs the value only if the key doesn't exist.
  * Key advantage: avoids value construction when key already exists.
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
@@ -223,10 +217,10 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
+      [&args...]() -> Value {
+        // Construct the value from the provided arguments, only now that the
+        // key is known to be new
+        return Value(std::forward<Args>(args)...);
       });
 }
 
@@ -254,10 +248,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
-      });
+      [&value]() -> Value { return static_cast<Value>(std::forward<M>(value)); });
 }
 
 /**
@@ -335,6 +326,10 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Obtain the new value and key before anything is moved: this may throw
+  Value new_value{};
+  Key new_key = key;
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,8 +337,8 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
-  values_[idx] = Value{};
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
   ++size_;
 
   return values_[idx];
@@ -683,19 +678,19 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param make_value Callback to obtain the new value: () -> Value or reference
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename OnInsert>
+template <typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
+    size_type idx, const Key& key, OnExists&& on_exists,
+    MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && keys_[idx] == key) {
     return std::forward<OnExists>(on_exists)(
@@ -707,17 +702,20 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Obtain the new value and key before anything is moved: this may throw, and
+  // the arguments may refer to elements of this array
+  Value new_value = std::forward<MakeValue>(make_value)();
+  Key new_key = key;
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
-  keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  // Insert the key and the value
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From 848a18ae01d0fe04adab92ba412b7dd139507a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 02/14] fix: keys are matched by comparator equivalence instead
 of ==

find, insertion, upper_bound, separator updates and range erase compared keys
with ==, so a comparator whose equivalence is coarser than == (case folding,
for example) stored equivalent keys twice and lost them in find and erase.
---
 include/fast_containers/btree.ipp     | 12 ++++++------
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..425e687 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -689,7 +689,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +927,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1112,7 +1112,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (comp_(new_min, it->first)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1120,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index ea0d443..58a6446 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -362,7 +362,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -383,7 +383,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -437,7 +437,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -457,7 +457,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -692,7 +692,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists,
     MakeValue&& make_value) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From cced1f3a11676dc210f3951a34bbe6e5d16e9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 03/14] fix: dense_map releases what removed elements own

erase, clear and shrinking assignments left the removed key and value in their
slot, so the resources they own stayed alive until the slot was overwritten or
the map destroyed.
---
 include/fast_containers/dense_map.hpp | 11 +++++++-
 include/fast_containers/dense_map.ipp | 36 +++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index a190006..04e36bc 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -369,7 +369,10 @@ class dense_map {
   [[nodiscard]] bool empty() const { return size_ == 0; }
   [[nodiscard]] bool full() const { return size_ == Length; }
 
-  void clear() { size_ = 0; }
+  void clear() {
+    release_slots(0, size_);
+    size_ = 0;
+  }
 
   /**
    * Split this array at the given position, moving elements to output array.
@@ -438,6 +441,12 @@ class dense_map {
       size_type count);
 
  private:
+  /**
+   * Releases what the elements in [first, last) own. The slots keep a moved-from
+   * key and value until they are used again.
+   */
+  void release_slots(size_type first, size_type last) noexcept;
+
   /**
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 58a6446..a6a8d0e 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,6 +69,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
+    if (other.size_ < size_) {
+      release_slots(other.size_, size_);
+    }
     size_ = other.size_;
     // Copy only the active elements
     if (size_ > 0) {
@@ -96,6 +99,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     dense_map&& other) noexcept {
   if (this != &other) {
+    if (other.size_ < size_) {
+      release_slots(other.size_, size_);
+    }
     size_ = other.size_;
     // Move the active elements
     if (size_ > 0) {
@@ -272,6 +278,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::erase(iterator pos) {
             values_.data() + idx);
   --size_;
 
+  // The slot past the end may still hold the erased element
+  release_slots(size_, size_ + 1);
+
   // Return iterator to element following the erased element
   // (same index, since everything shifted left)
   return iterator(this, idx);
@@ -670,6 +679,33 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
 // Private Helper Methods
 // ============================================================================
 
+/**
+ * Releases what the elements in [first, last) own by moving them out of the
+ * array. Does nothing for trivially destructible types.
+ *
+ * @param first Index of the first slot to release
+ * @param last Index past the last slot to release
+ */
+template <typename Key, typename Value, std::size_t Length, typename Compare,
+          SearchMode SearchModeT>
+  requires ComparatorCompatible<Key, Compare>
+void dense_map<Key, Value, Length, Compare, SearchModeT>::release_slots(
+    [[maybe_unused]] size_type first,
+    [[maybe_unused]] size_type last) noexcept {
+  if constexpr (!std::is_trivially_destructible_v<Key> &&
+                std::is_nothrow_move_constructible_v<Key>) {
+    for (size_type i = first; i < last; ++i) {
+      [[maybe_unused]] const Key released(std::move(keys_[i]));
+    }
+  }
+  if constexpr (!std::is_trivially_destructible_v<Value> &&
+                std::is_nothrow_move_constructible_v<Value>) {
+    for (size_type i = first; i < last; ++i) {
+      [[maybe_unused]] const Value released(std::move(values_[i]));
+    }
+  }
+}
+
 /**
  * Common implementation for all insert operations.
  * Handles key existence check, shifting, and insertion logic.
-- 
2.43.0


From 5a4c87773f32bb5d2a867caf063176a82424e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 04/14] fix: failed dense_map copy assignment keeps the
 previous contents

---
 include/fast_containers/dense_map.ipp | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index a6a8d0e..f1f6ab4 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,16 +69,24 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
-    if (other.size_ < size_) {
-      release_slots(other.size_, size_);
-    }
-    size_ = other.size_;
-    // Copy only the active elements
-    if (size_ > 0) {
-      std::copy(other.keys_.begin(), other.keys_.begin() + size_,
-                keys_.begin());
-      std::copy(other.values_.begin(), other.values_.begin() + size_,
-                values_.begin());
+    if constexpr (std::is_nothrow_copy_assignable_v<Key> &&
+                  std::is_nothrow_copy_assignable_v<Value>) {
+      if (other.size_ < size_) {
+        release_slots(other.size_, size_);
+      }
+      size_ = other.size_;
+      // Copy only the active elements
+      if (size_ > 0) {
+        std::copy(other.keys_.begin(), other.keys_.begin() + size_,
+                  keys_.begin());
+        std::copy(other.values_.begin(), other.values_.begin() + size_,
+                  values_.begin());
+      }
+    } else {
+      // Copying an element may fail: keep the current contents until all of
+      // the new ones are there
+      dense_map copy(other);
+      *this = std::move(copy);
     }
   }
   return *this;
-- 
2.43.0


From 9a2b04d0b2c24ba0d2e76a871024b9074e51a954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 05/14] fix: node memory is given back when constructing the
 node fails

---
 include/fast_containers/btree.ipp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 425e687..b7b03ea 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -714,7 +714,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::allocate_leaf_node() {
   using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
   leaf_node* node = leaf_alloc_.allocate(1);
-  leaf_alloc_traits::construct(leaf_alloc_, node);
+  try {
+    leaf_alloc_traits::construct(leaf_alloc_, node);
+  } catch (...) {
+    leaf_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -730,7 +735,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   using internal_alloc_traits =
       std::allocator_traits<decltype(internal_alloc_)>;
   internal_node* node = internal_alloc_.allocate(1);
-  internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  try {
+    internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  } catch (...) {
+    internal_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
-- 
2.43.0


From c30dad42f82bcd37377c3e4eec40a29ce7fc9b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 06/14] fix: moving from and clearing a btree allocates nothing

The noexcept moves allocated a new root for the source, which ended the program
when memory had run out. clear() freed the nodes before allocating the new root
and kept pointing at them when that failed.
---
 include/fast_containers/btree.hpp | 10 ++++-
 include/fast_containers/btree.ipp | 65 +++++++++++++++++--------------
 2 files changed, 44 insertions(+), 31 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..4959655 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -279,7 +279,7 @@ class btree {
 
   /**
    * Move constructor - takes ownership of another tree's resources.
-   * Leaves other in a valid but empty state.
+   * Leaves other in a valid but empty state, without allocating.
    * Complexity: O(1)
    */
   btree(btree&& other) noexcept;
@@ -878,7 +878,8 @@ class btree {
 
   /**
    * Removes all elements from the tree, leaving it empty.
-   * Root node remains allocated.
+   * A root leaf remains allocated; a larger tree gives all nodes back and the
+   * next insertion allocates a new root. Never fails.
    * All iterators are invalidated.
    *
    * Complexity: O(n)
@@ -968,6 +969,11 @@ class btree {
    */
   void deallocate_tree();
 
+  /**
+   * Makes this an empty tree without nodes. Does not deallocate anything.
+   */
+  void reset_root() noexcept;
+
   /**
    * Helper to recursively deallocate an internal node and its subtree.
    */
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index b7b03ea..8364525 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -73,7 +73,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(const btree& other) {
   if (this != &other) {
-    // Clear existing contents (keeps root allocated)
+    // Clear existing contents
     clear();
 
     // Copy all elements from other (use const iterators)
@@ -104,12 +104,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     internal_root_ = other.internal_root_;
   }
 
-  // Leave other in a valid empty state with a new empty root
-  other.root_is_leaf_ = true;
-  other.leaf_root_ = other.allocate_leaf_node();
-  other.size_ = 0;
-  other.leftmost_leaf_ = other.leaf_root_;
-  other.rightmost_leaf_ = other.leaf_root_;
+  // Leave other in a valid empty state; it allocates a root when it is used
+  other.reset_root();
 }
 
 // Move assignment operator
@@ -136,12 +132,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     leftmost_leaf_ = other.leftmost_leaf_;
     rightmost_leaf_ = other.rightmost_leaf_;
 
-    // Leave other in a valid empty state with a new empty root
-    other.root_is_leaf_ = true;
-    other.leaf_root_ = other.allocate_leaf_node();
-    other.size_ = 0;
-    other.leftmost_leaf_ = other.leaf_root_;
-    other.rightmost_leaf_ = other.leaf_root_;
+    // Leave other in a valid empty state; it allocates a root when it is used
+    other.reset_root();
   }
   return *this;
 }
@@ -769,7 +761,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   internal_alloc_.deallocate(node, 1);
 }
 
-// clear - removes all elements but keeps root allocated
+// clear - removes all elements
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
           SearchMode SearchModeT, typename Allocator>
@@ -784,19 +776,29 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
-    // Deallocate internal tree and reset to empty leaf root
-    deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
-    root_is_leaf_ = true;
-    leftmost_leaf_ = leaf_root_;
-    rightmost_leaf_ = leaf_root_;
+    // Deallocate internal tree; the next insertion allocates a new leaf root
+    internal_node* old_root = internal_root_;
+    reset_root();
+    deallocate_internal_subtree(old_root);
   }
 
   size_ = 0;
 }
 
+// reset_root - makes the tree an empty one without nodes
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+           Allocator>::reset_root() noexcept {
+  root_is_leaf_ = true;
+  leaf_root_ = nullptr;
+  size_ = 0;
+  leftmost_leaf_ = nullptr;
+  rightmost_leaf_ = nullptr;
+}
+
 // deallocate_tree - deallocates entire tree including root (for destructor)
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -805,19 +807,17 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::deallocate_tree() {
   if (root_is_leaf_) {
-    // Tree has only one node (leaf root) - deallocate it
-    deallocate_leaf_node(leaf_root_);
+    // Tree has at most one node (leaf root) - deallocate it
+    if (leaf_root_ != nullptr) {
+      deallocate_leaf_node(leaf_root_);
+    }
   } else {
     // Tree has internal nodes - use recursive deallocation
     deallocate_internal_subtree(internal_root_);
   }
 
   // Reset state to nullptr (for destructor)
-  root_is_leaf_ = true;
-  leaf_root_ = nullptr;
-  size_ = 0;
-  leftmost_leaf_ = nullptr;
-  rightmost_leaf_ = nullptr;
+  reset_root();
 }
 
 // deallocate_internal_subtree
@@ -929,6 +929,13 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::insert_impl(const Key& key, OnExists&& on_exists,
                               GetValue&& get_value) {
+  // A tree that was moved from or cleared may have no root yet
+  if (root_is_leaf_ && leaf_root_ == nullptr) {
+    leaf_root_ = allocate_leaf_node();
+    leftmost_leaf_ = leaf_root_;
+    rightmost_leaf_ = leaf_root_;
+  }
+
   // Find the appropriate leaf for the key
   leaf_node* leaf = find_leaf_for_key(key);
 
-- 
2.43.0


From 4642646309ac3e05e75410296d0fc2eb036a7e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 07/14] fix: a failed btree copy construction frees what it had
 copied

---
 include/fast_containers/btree.hpp | 21 ++++++++++++------
 include/fast_containers/btree.ipp | 36 ++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 4959655..7f741c1 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -942,12 +942,21 @@ class btree {
   // This allows different pool sizes for different node types
   // NOTE: Allocators must be declared before root pointers so they can be
   // used in constructor initializer lists (allocate_leaf_node requires them)
-  [[no_unique_address]]
-  typename std::allocator_traits<Allocator>::template rebind_alloc<leaf_node>
-      leaf_alloc_;
-  [[no_unique_address]]
-  typename std::allocator_traits<Allocator>::template rebind_alloc<
-      internal_node> internal_alloc_;
+  using leaf_allocator =
+      typename std::allocator_traits<Allocator>::template rebind_alloc<
+          leaf_node>;
+  using internal_allocator =
+      typename std::allocator_traits<Allocator>::template rebind_alloc<
+          internal_node>;
+  [[no_unique_address]] leaf_allocator leaf_alloc_;
+  [[no_unique_address]] internal_allocator internal_alloc_;
+
+  /**
+   * Creates an empty tree from the allocators for the two types of nodes.
+   */
+  btree(const leaf_allocator& leaf_alloc,
+        const internal_allocator& internal_alloc);
+
 
   // Root and size members
   bool root_is_leaf_;
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 8364525..1e65813 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -45,24 +45,34 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
   requires ComparatorCompatible<Key, Compare>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::btree(const btree& other)
-    : leaf_alloc_(std::allocator_traits<decltype(leaf_alloc_)>::
-                      select_on_container_copy_construction(other.leaf_alloc_)),
-      internal_alloc_(
-          std::allocator_traits<decltype(internal_alloc_)>::
-              select_on_container_copy_construction(other.internal_alloc_)),
-      root_is_leaf_(true),
-      leaf_root_(allocate_leaf_node()),
-      size_(0),
-      leftmost_leaf_(leaf_root_),
-      rightmost_leaf_(leaf_root_) {
-  // Always allocate an empty root leaf, then copy all elements
-
-  // Copy all elements using insert (use const iterators)
+    : btree(std::allocator_traits<decltype(leaf_alloc_)>::
+                select_on_container_copy_construction(other.leaf_alloc_),
+            std::allocator_traits<decltype(internal_alloc_)>::
+                select_on_container_copy_construction(other.internal_alloc_)) {
+  // Start from an empty root leaf, then copy all elements using insert (use
+  // const iterators). The delegated constructor is done, so the destructor
+  // frees what has been copied if an insertion fails.
   for (const_iterator it = other.begin(); it != other.end(); ++it) {
     insert(it->first, it->second);
   }
 }
 
+// Constructor from the two node allocators
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::btree(const leaf_allocator& leaf_alloc,
+                        const internal_allocator& internal_alloc)
+    : leaf_alloc_(leaf_alloc),
+      internal_alloc_(internal_alloc),
+      root_is_leaf_(true),
+      leaf_root_(allocate_leaf_node()),
+      size_(0),
+      leftmost_leaf_(leaf_root_),
+      rightmost_leaf_(leaf_root_) {}
+
 // Copy assignment operator
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
-- 
2.43.0


From 273274b3cfdeb82363674fa68e7a661f4e170561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 08/14] fix: a failed btree insertion leaves the elements
 unchanged

Nodes were split and linked before the value was obtained and before further
nodes were allocated, so an exception lost elements or left them unreachable,
leaked nodes and could even leave the new element in the tree.
---
 include/fast_containers/btree.hpp     |  23 +--
 include/fast_containers/btree.ipp     | 204 ++++++++++++--------------
 include/fast_containers/dense_map.hpp |  11 +-
 include/fast_containers/dense_map.ipp |  42 +++++-
 4 files changed, 156 insertions(+), 124 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 7f741c1..2e0d806 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1037,7 +1037,7 @@ class btree {
    * @param leaf The full leaf node to split (size == LeafNodeSize)
    * @param key The key to insert (guaranteed not to exist in tree)
    * @param get_value Lambda providing value on-demand: () -> Value
-   *                  Only called after determining target leaf
+   *                  Called before anything is changed
    * @return {iterator to inserted element, true}
    *
    * @pre leaf->data.size() == LeafNodeSize
@@ -1050,23 +1050,24 @@ class btree {
                                                   GetValue&& get_value);
 
   /**
-   * Insert a promoted key and child pointer into a parent node.
-   * If parent is full, splits it recursively.
-   * If node has no parent, creates a new root.
+   * Insert a promoted key and child pointer into the parent of left_child.
+   * If left_child has no parent, creates a new root, in which left_child gets
+   * left_key. Changes nothing if it fails.
    *
    * Templated to handle both leaf_node and internal_node children.
+   *
+   * @pre The parent, if there is one, has space (see make_room_for_child)
    */
   template <typename NodeType>
-  void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+  void insert_into_parent(NodeType* left_child, const Key& left_key,
+                          const Key& key, NodeType* right_child);
 
   /**
-   * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
-   * Returns a reference to the promoted key and pointer to the new node.
-   * The key reference points to the first key in the new node's children.
+   * Ensures that an internal node has space for one more child.
+   * A full node is split, after making room in its parent in the same way. If
+   * it fails, the tree is valid and holds the same elements.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  void make_room_for_child(internal_node* node);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 1e65813..25a5a6b 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -866,15 +866,44 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
-  // Create new leaf for right half
-  leaf_node* new_leaf = allocate_leaf_node();
+  // Everything that can fail comes first, and each step leaves a valid tree
+  // with the same elements behind. Get the value and a copy of the key, so that
+  // they can be moved in once the leaf has been split.
+  Value value = std::forward<GetValue>(get_value)();
+  Key new_key = key;
+
+  // Make room for the new leaf in the parent
+  if (leaf->parent != nullptr) {
+    make_room_for_child(leaf->parent);
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
-
-  // Use split_at() to efficiently move second half to new leaf
   auto split_it = leaf->data.begin();
   std::advance(split_it, split_point);
+
+  // Determine which half the new element belongs to
+  const bool into_left = comp_(new_key, split_it->first);
+
+  // If it becomes the minimum of the left half, update parent key if necessary
+  const bool new_minimum =
+      into_left && comp_(new_key, leaf->data.begin()->first);
+  if (new_minimum) {
+    update_parent_key_recursive(leaf, new_key);
+  }
+
+  // Create new leaf for right half and insert the promoted key into parent
+  leaf_node* new_leaf = allocate_leaf_node();
+  try {
+    insert_into_parent(leaf,
+                       new_minimum ? new_key : leaf->data.begin()->first,
+                       split_it->first, new_leaf);
+  } catch (...) {
+    deallocate_leaf_node(new_leaf);
+    throw;
+  }
+
+  // Use split_at() to efficiently move second half to new leaf
   leaf->data.split_at(split_it, new_leaf->data);
 
   // Update leaf chain pointers
@@ -890,40 +919,17 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     rightmost_leaf_ = new_leaf;
   }
 
-  // Get first key of new leaf for promotion
-  const Key& promoted_key = new_leaf->data.begin()->first;
-
-  // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
-
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
-
   // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  leaf_node* target_leaf = into_left ? leaf : new_leaf;
+  auto [leaf_it, inserted] = target_leaf->data.insert_hint(
+      target_leaf->data.lower_bound(new_key), std::move(new_key),
+      std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
 
   size_++;
 
-  // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
-
-  // If we inserted into the left half, update parent key if necessary
-  if (target_leaf == leaf) {
-    const Key& new_left_min = leaf->data.begin()->first;
-    update_parent_key_recursive(leaf, new_left_min);
-  }
-
-  // Update leftmost_leaf_ if the leaf became the new leftmost
-  if (target_leaf == leaf &&
-      (leftmost_leaf_ == nullptr ||
-       comp_(leaf->data.begin()->first, leftmost_leaf_->data.begin()->first))) {
-    leftmost_leaf_ = leaf;
-  }
-
   return {iterator(target_leaf, leaf_it), true};
 }
 
@@ -963,20 +969,24 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     return split_leaf_and_insert(leaf, key, std::forward<GetValue>(get_value));
   }
 
-  // Leaf has space - get value on-demand and insert using hint
-  auto value = std::forward<GetValue>(get_value)();
-  auto [leaf_it, inserted] = leaf->data.insert_hint(pos, key, std::move(value));
+  // Leaf has space - get value on-demand and insert using hint. Whatever can
+  // fail comes before the leaf is changed.
+  Value value = std::forward<GetValue>(get_value)();
+  Key new_key = key;
+
+  // If we insert at the beginning and leaf has a parent, update parent key
+  if (pos == leaf->data.begin() && leaf->parent != nullptr) {
+    update_parent_key_recursive(leaf, new_key);
+  }
+
+  auto [leaf_it, inserted] =
+      leaf->data.insert_hint(pos, std::move(new_key), std::move(value));
 
   // Key is guaranteed not to exist (checked above)
   assert(inserted && "insert_impl: key should not exist");
 
   size_++;
 
-  // If we inserted at the beginning and leaf has a parent, update parent key
-  if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
-  }
-
   return {iterator(leaf, leaf_it), true};
 }
 
@@ -987,7 +997,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
   requires ComparatorCompatible<Key, Compare>
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-           Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
+           Allocator>::insert_into_parent(NodeType* left_child,
+                                          const Key& left_key, const Key& key,
                                           NodeType* right_child) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
@@ -998,28 +1009,23 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   };
 
-  // Helper lambda to get the left key for creating new root
-  auto get_left_key = [](NodeType* node) -> const Key& {
-    if constexpr (std::is_same_v<NodeType, leaf_node>) {
-      return node->data.begin()->first;
-    } else {
-      if (node->children_are_leaves) {
-        return node->leaf_children.begin()->first;
-      }
-      return node->internal_children.begin()->first;
-    }
-  };
-
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
     constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
     internal_node* new_root = allocate_internal_node(children_are_leaves);
 
-    auto& children = get_children(new_root);
-    auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
-    assert(inserted);
-    auto [it2, inserted2] = children.insert(key, right_child);
-    assert(inserted2);
+    try {
+      auto& children = get_children(new_root);
+      [[maybe_unused]] auto [it, inserted] =
+          children.insert(left_key, left_child);
+      assert(inserted);
+      [[maybe_unused]] auto [it2, inserted2] =
+          children.insert(key, right_child);
+      assert(inserted2);
+    } catch (...) {
+      deallocate_internal_node(new_root);
+      throw;
+    }
 
     left_child->parent = new_root;
     right_child->parent = new_root;
@@ -1029,59 +1035,49 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     return;
   }
 
-  // Case 2: Parent exists - insert into it
-  internal_node* parent = left_child->parent;
-  auto& parent_children = get_children(parent);
-
-  // Check if parent is full
-  if (parent_children.size() >= InternalNodeSize) {
-    // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
-
-    // Determine which parent to insert into
-    internal_node* target_parent =
-        comp_(key, promoted_key) ? parent : new_parent;
-    right_child->parent = target_parent;
-
-    auto& target_children = get_children(target_parent);
-    auto [it, inserted] = target_children.insert(key, right_child);
-    assert(inserted && "Insert into non-full parent should succeed");
-
-    // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
-  } else {
-    // Parent has space - insert normally
-    right_child->parent = parent;
-    auto [it, inserted] = parent_children.insert(key, right_child);
-    assert(inserted && "Insert into non-full parent should succeed");
-  }
+  // Case 2: Parent exists and has space - insert into it
+  [[maybe_unused]] auto [it, inserted] =
+      get_children(left_child->parent).insert(key, right_child);
+  assert(inserted && "Insert into non-full parent should succeed");
+  right_child->parent = left_child->parent;
 }
 
-// split_internal
+// make_room_for_child
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
           SearchMode SearchModeT, typename Allocator>
   requires ComparatorCompatible<Key, Compare>
-std::pair<const Key&,
-          typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
-                         SearchModeT, Allocator>::internal_node*>
-btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
+void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+           Allocator>::make_room_for_child(internal_node* node) {
+  // Use templated lambda to handle split logic for both child types
+  auto split_if_full = [&](auto internal_node::* children) {
+    auto& node_children = node->*children;
+    if (node_children.size() < InternalNodeSize) {
+      return;
+    }
 
-  // Calculate split point
-  const size_type split_point = (InternalNodeSize + 1) / 2;
+    // The new node needs a place in node's parent
+    if (node->parent != nullptr) {
+      make_room_for_child(node->parent);
+    }
 
-  // Use templated lambda to handle split logic for both child types
-  auto perform_split = [&]<typename ChildPtrType>(
-                           auto& node_children,
-                           auto& new_node_children) -> const Key& {
     // Get split iterator
     auto split_it = node_children.begin();
-    std::advance(split_it, split_point);
+    std::advance(split_it, (InternalNodeSize + 1) / 2);
+
+    // Create new internal node and insert its first key into the parent. This
+    // can fail; what follows can not.
+    internal_node* new_node = allocate_internal_node(node->children_are_leaves);
+    try {
+      insert_into_parent(node, node_children.begin()->first, split_it->first,
+                         new_node);
+    } catch (...) {
+      deallocate_internal_node(new_node);
+      throw;
+    }
 
     // Use split_at() to efficiently move second half to new node
+    auto& new_node_children = new_node->*children;
     node_children.split_at(split_it, new_node_children);
 
     // Update parent pointers for moved children
@@ -1089,19 +1085,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
          ++it) {
       it->second->parent = new_node;
     }
-
-    // Return reference to first key in new node (the promoted key)
-    return new_node_children.begin()->first;
   };
 
   if (node->children_are_leaves) {
-    const Key& promoted_key = perform_split.template operator()<leaf_node*>(
-        node->leaf_children, new_node->leaf_children);
-    return {promoted_key, new_node};
+    split_if_full(&internal_node::leaf_children);
+  } else {
+    split_if_full(&internal_node::internal_children);
   }
-  const Key& promoted_key = perform_split.template operator()<internal_node*>(
-      node->internal_children, new_node->internal_children);
-  return {promoted_key, new_node};
 }
 
 // update_parent_key_recursive
diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 04e36bc..d04dfe7 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -193,6 +193,13 @@ class dense_map {
   std::pair<iterator, bool> insert_hint(iterator hint, const Key& key,
                                         const Value& value);
 
+  /**
+   * Inserts a key-value pair using a position hint, moving key and value into
+   * the array. Does not fail unless moving them does.
+   */
+  std::pair<iterator, bool> insert_hint(iterator hint, Key&& key,
+                                        Value&& value);
+
   /**
    * Inserts a new element if the key does not exist.
    * Constructs the value from the provided arguments.
@@ -451,8 +458,8 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename MakeValue>
-  std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
+  template <typename K, typename OnExists, typename MakeValue>
+  std::pair<iterator, bool> insert_impl(size_type idx, K&& key,
                                         OnExists&& on_exists,
                                         MakeValue&& make_value);
 
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1f6ab4..29eff35 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -204,6 +204,41 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
       [&value]() -> const Value& { return value; });
 }
 
+/**
+ * Inserts a key-value pair using a position hint, moving key and value into the
+ * array.
+ *
+ * @param hint Iterator hint to the insertion position
+ * @param key The key to insert
+ * @param value The value to insert
+ * @return Pair of iterator to inserted/existing element and bool indicating
+ * success
+ */
+template <typename Key, typename Value, std::size_t Length, typename Compare,
+          SearchMode SearchModeT>
+  requires ComparatorCompatible<Key, Compare>
+std::pair<
+    typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
+    bool>
+dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
+    iterator hint, Key&& key, Value&& value) {
+  // Get the index from the hint
+  const size_type idx = hint.index_;
+
+  // Verify the hint is valid (see above)
+  assert(idx <= size_);
+  assert(idx == size_ || !comp_(keys_[idx], key));
+  assert(idx == 0 || comp_(keys_[idx - 1], key));
+
+  return insert_impl(
+      idx, std::move(key),
+      [this](size_type idx) {
+        // Key exists - don't modify, just return
+        return std::pair{iterator(this, idx), false};
+      },
+      [&value]() -> Value&& { return std::move(value); });
+}
+
 /**
  * try_emplace - constructs the value only if the key doesn't exist.
  * Key advantage: avoids value construction when key already exists.
@@ -728,13 +763,12 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::release_slots(
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename MakeValue>
+template <typename K, typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists,
-    MakeValue&& make_value) {
+    size_type idx, K&& key, OnExists&& on_exists, MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
@@ -749,7 +783,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
   // Obtain the new value and key before anything is moved: this may throw, and
   // the arguments may refer to elements of this array
   Value new_value = std::forward<MakeValue>(make_value)();
-  Key new_key = key;
+  Key new_key = std::forward<K>(key);
 
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
-- 
2.43.0


From bdd081a1585f60bdd02d7ae23f04b917780027b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 09/14] fix: nodes stay with their allocators in btree move
 assignment and swap

Both exchanged the nodes but not the allocators, so the nodes were later given
back to an allocator they did not come from, possibly after their pool was
gone. A moved-from MultiSizeHugePageAllocator had no pool at all.
---
 include/fast_containers/btree.hpp             | 27 ++++++--
 include/fast_containers/btree.ipp             | 67 ++++++++++++++-----
 .../fast_containers/hugepage_allocator.hpp    |  1 +
 .../multi_size_hugepage_allocator.hpp         | 10 +++
 .../policy_based_hugepage_allocator.hpp       |  3 +-
 5 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 2e0d806..c32838f 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -237,6 +237,25 @@ class btree {
     internal_node& operator=(internal_node&&) = delete;
   };
 
+ private:
+  using leaf_allocator =
+      typename std::allocator_traits<Allocator>::template rebind_alloc<
+          leaf_node>;
+  using internal_allocator =
+      typename std::allocator_traits<Allocator>::template rebind_alloc<
+          internal_node>;
+
+  // Whether a move assignment always takes over the nodes of its source, which
+  // requires allocators that come with them or are all alike
+  static constexpr bool move_takes_over_nodes =
+      (std::allocator_traits<
+           leaf_allocator>::propagate_on_container_move_assignment::value &&
+       std::allocator_traits<
+           internal_allocator>::propagate_on_container_move_assignment::value) ||
+      (std::allocator_traits<leaf_allocator>::is_always_equal::value &&
+       std::allocator_traits<internal_allocator>::is_always_equal::value);
+
+ public:
   /**
    * Default constructor - creates an empty B+ tree.
    *
@@ -289,7 +308,7 @@ class btree {
    * Leaves other in a valid but empty state.
    * Complexity: O(n) where n is this tree's size (due to deallocation)
    */
-  btree& operator=(btree&& other) noexcept;
+  btree& operator=(btree&& other) noexcept(move_takes_over_nodes);
 
   /**
    * Constructs the tree from an initializer list.
@@ -942,12 +961,6 @@ class btree {
   // This allows different pool sizes for different node types
   // NOTE: Allocators must be declared before root pointers so they can be
   // used in constructor initializer lists (allocate_leaf_node requires them)
-  using leaf_allocator =
-      typename std::allocator_traits<Allocator>::template rebind_alloc<
-          leaf_node>;
-  using internal_allocator =
-      typename std::allocator_traits<Allocator>::template rebind_alloc<
-          internal_node>;
   [[no_unique_address]] leaf_allocator leaf_alloc_;
   [[no_unique_address]] internal_allocator internal_alloc_;
 
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 25a5a6b..60af30b 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -126,25 +126,48 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>&
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::operator=(btree&& other) noexcept {
-  if (this != &other) {
-    // Deallocate existing tree (including root)
-    deallocate_tree();
-
-    // Move other's resources to this
-    root_is_leaf_ = other.root_is_leaf_;
-    if (root_is_leaf_) {
-      leaf_root_ = other.leaf_root_;
-    } else {
-      internal_root_ = other.internal_root_;
+      Allocator>::operator=(btree&& other) noexcept(move_takes_over_nodes) {
+  if (this == &other) {
+    return *this;
+  }
+
+  if constexpr (!move_takes_over_nodes) {
+    if (leaf_alloc_ != other.leaf_alloc_ ||
+        internal_alloc_ != other.internal_alloc_) {
+      // The nodes can only be given back to the allocators of other, which stay
+      // with it: move the elements
+      clear();
+      for (iterator it = other.begin(); it != other.end(); ++it) {
+        try_emplace(it->first, std::move(it->second));
+      }
+      other.clear();
+      return *this;
     }
-    size_ = other.size_;
-    leftmost_leaf_ = other.leftmost_leaf_;
-    rightmost_leaf_ = other.rightmost_leaf_;
+  }
+
+  // Deallocate existing tree (including root)
+  deallocate_tree();
+
+  // The allocators follow the nodes
+  if constexpr (std::allocator_traits<leaf_allocator>::
+                    propagate_on_container_move_assignment::value) {
+    leaf_alloc_ = std::move(other.leaf_alloc_);
+    internal_alloc_ = std::move(other.internal_alloc_);
+  }
 
-    // Leave other in a valid empty state; it allocates a root when it is used
-    other.reset_root();
+  // Move other's resources to this
+  root_is_leaf_ = other.root_is_leaf_;
+  if (root_is_leaf_) {
+    leaf_root_ = other.leaf_root_;
+  } else {
+    internal_root_ = other.internal_root_;
   }
+  size_ = other.size_;
+  leftmost_leaf_ = other.leftmost_leaf_;
+  rightmost_leaf_ = other.rightmost_leaf_;
+
+  // Leave other in a valid empty state; it allocates a root when it is used
+  other.reset_root();
   return *this;
 }
 
@@ -183,6 +206,18 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
   requires ComparatorCompatible<Key, Compare>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::swap(btree& other) noexcept {
+  // The allocators follow the nodes
+  if constexpr (std::allocator_traits<
+                    leaf_allocator>::propagate_on_container_swap::value) {
+    using std::swap;
+    swap(leaf_alloc_, other.leaf_alloc_);
+    swap(internal_alloc_, other.internal_alloc_);
+  } else {
+    assert(leaf_alloc_ == other.leaf_alloc_ &&
+           internal_alloc_ == other.internal_alloc_ &&
+           "swap requires equal allocators");
+  }
+
   // Swap root pointer (handle union carefully)
   if (root_is_leaf_ && other.root_is_leaf_) {
     std::swap(leaf_root_, other.leaf_root_);
diff --git a/include/fast_containers/hugepage_allocator.hpp b/include/fast_containers/hugepage_allocator.hpp
index 34b58fa..bb6dd99 100644
--- a/include/fast_containers/hugepage_allocator.hpp
+++ b/include/fast_containers/hugepage_allocator.hpp
@@ -52,6 +52,7 @@ class HugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Since n==1 is required, these are compile-time constants
diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..7a086ed 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -61,6 +61,7 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;  // Stateful allocator
 
   /**
@@ -72,6 +73,15 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  /**
+   * Copy constructor and assignment (share the pool). A moved-from allocator
+   * keeps its pool, so the container that had it can still be used.
+   */
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..83e3d4d 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -131,6 +131,7 @@ class PolicyBasedHugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Cache line size for alignment (typical x86-64 cache line)
@@ -264,7 +265,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 081ac89f001a34319b1df5c7c6deab7f8409b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 10/14] fix: HugePagePool only reuses blocks of the requested
 size and grows by enough

A freed block was handed out for requests of any size and alignment. A request
larger than the growth size got memory beyond the new region. A region was lost
when recording it failed.
---
 include/fast_containers/hugepage_pool.hpp | 88 ++++++++++++++++++-----
 1 file changed, 71 insertions(+), 17 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..b106392 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,12 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
+#include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -42,7 +46,8 @@ inline constexpr bool allocator_stats_enabled = false;
  *
  * Implementation notes:
  * - Not thread-safe (add locking if needed for concurrent use)
- * - Intrusive free list: freed blocks store next pointer in-place
+ * - Intrusive free lists, one per block size: freed blocks store next pointer
+ *   in-place
  * - Requires allocated size >= sizeof(void*) for free list
  * - Memory is allocated on NUMA node via first-touch policy during pre-faulting
  */
@@ -98,13 +103,21 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
   };
 
+  /**
+   * The freed blocks of one size.
+   */
+  struct free_list {
+    size_type bytes = 0;
+    void* head = nullptr;
+  };
+
   std::vector<memory_region> regions_;
   std::byte* next_free_ = nullptr;
   size_type bytes_remaining_ = 0;
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One for each size allocated so far
   stats stats_;
 
  public:
@@ -124,6 +137,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
+    // Adding the region must not fail once it is mapped
+    regions_.reserve(1);
+
     // Allocate initial region
     memory_region initial_region;
 
@@ -172,14 +188,22 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
-    // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    // Try to allocate from free list first. Only blocks of the same size and
+    // sufficient alignment can be reused.
+    free_list* blocks = find_free_list(bytes);
+    if (blocks != nullptr) {
+      for (void** link = &blocks->head; *link != nullptr;
+           link = static_cast<void**>(*link)) {
+        void* ptr = *link;
+        if ((reinterpret_cast<uintptr_t>(ptr) & (alignment - 1)) != 0) {
+          continue;
+        }
+        *link = *static_cast<void**>(ptr);
 
-      stats_.record_allocation(bytes);
+        stats_.record_allocation(bytes);
 
-      return ptr;
+        return ptr;
+      }
     }
 
     // Allocate from pool
@@ -191,9 +215,14 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
         (current + alignment - 1) & ~(static_cast<uintptr_t>(alignment) - 1);
     size_type padding = aligned - current;
 
+    // Deallocation must not fail, so its free list is there before the block is
+    if (blocks == nullptr) {
+      free_lists_.push_back({.bytes = bytes});
+    }
+
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      grow(bytes, alignment);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -225,8 +254,10 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    free_list* blocks = find_free_list(bytes);
+    assert(blocks != nullptr && "No block of this size was allocated");
+    *static_cast<void**>(ptr) = blocks->head;
+    blocks->head = ptr;
 
     stats_.record_deallocation(bytes);
   }
@@ -302,20 +333,43 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Find the free list for blocks of a size, nullptr if there is none yet.
+   */
+  free_list* find_free_list(size_type bytes) {
+    for (free_list& blocks : free_lists_) {
+      if (blocks.bytes == bytes) {
+        return &blocks;
+      }
+    }
+    return nullptr;
+  }
+
+  /**
+   * Grow the pool by allocating a new region of growth_size_, or more if the
+   * block that is needed does not fit into that.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type bytes, size_type alignment) {
+    if (bytes > std::numeric_limits<size_type>::max() - alignment) {
+      throw std::bad_alloc();
+    }
+    const size_type region_size = std::max(growth_size_, bytes + alignment);
+
+    // Adding the region must not fail once it is mapped
+    if (regions_.size() == regions_.capacity()) {
+      regions_.reserve(2 * regions_.size());
+    }
+
     memory_region new_region;
 
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(region_size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(region_size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(region_size);
     }
 
     regions_.push_back(new_region);
-- 
2.43.0


From 738cddfa54b71dae87e8b4fb0b71ed1778980b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 11/14] fix: MultiSizeHugePagePool reports and keeps only pools
 that exist

A size class whose pool could not be created was left as a null entry, hugepages
were reported when none were in use, and sizes that overflow were accepted.
---
 .../multi_size_hugepage_allocator.hpp         |  6 ++++
 .../multi_size_hugepage_pool.hpp              | 30 ++++++++++++++-----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 7a086ed..764ef8a 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -106,6 +108,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<size_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..32f8231 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -4,9 +4,12 @@
 
 #pragma once
 
+#include <algorithm>
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <unordered_map>
 
 #include "hugepage_pool.hpp"
@@ -122,18 +125,27 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    // There is no size class for more than half of the address space
+    if (bytes > std::numeric_limits<size_type>::max() / 2) {
+      throw std::bad_alloc();
+    }
+
     const size_type size_class = get_size_class(bytes);
 
-    // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
-          initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+    // Get or create pool for this size class. A pool that could not be created
+    // leaves nothing behind.
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      it = pools_
+               .emplace(size_class, std::make_unique<HugePagePool>(
+                                        initial_size_per_pool_, use_hugepages_,
+                                        growth_size_per_pool_))
+               .first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
@@ -162,7 +174,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    *
    * @return true if hugepages were successfully enabled
    */
-  [[nodiscard]] bool using_hugepages() const { return use_hugepages_; }
+  [[nodiscard]] bool using_hugepages() const {
+    return std::any_of(pools_.begin(), pools_.end(), [](const auto& pool) {
+      return pool.second->using_hugepages();
+    });
+  }
 
   /**
    * Get number of active size classes (pools created).
-- 
2.43.0


From 761d60663b6d022d94b7a3434d9e5d01f11057b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 12/14] fix: a failed first request of a size class leaves no
 pool behind

---
 .../multi_size_hugepage_pool.hpp              | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index 32f8231..888d94a 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -132,20 +132,20 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
 
     const size_type size_class = get_size_class(bytes);
 
-    // Get or create pool for this size class. A pool that could not be created
-    // leaves nothing behind.
     auto it = pools_.find(size_class);
-    if (it == pools_.end()) {
-      it = pools_
-               .emplace(size_class, std::make_unique<HugePagePool>(
-                                        initial_size_per_pool_, use_hugepages_,
-                                        growth_size_per_pool_))
-               .first;
+    if (it != pools_.end()) {
+      // Allocate from size-specific pool
+      // Each pool only handles uniform-sized blocks, so free list works!
+      return it->second->allocate(size_class, alignment);
     }
 
-    // Allocate from size-specific pool
-    // Each pool only handles uniform-sized blocks, so free list works!
-    return it->second->allocate(size_class, alignment);
+    // Create pool for this size class. It is added once it has served the
+    // request, so one that fails leaves nothing behind.
+    auto pool = std::make_unique<HugePagePool>(
+        initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+    void* ptr = pool->allocate(size_class, alignment);
+    pools_.emplace(size_class, std::move(pool));
+    return ptr;
   }
 
   /**
-- 
2.43.0


From adb83f72ee6118b758fb63b448384b6ec3c5c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 13/14] fix: a failed btree erasure leaves the elements
 unchanged

---
 include/fast_containers/btree.hpp     |  17 ++-
 include/fast_containers/btree.ipp     | 151 +++++++++++++-------------
 include/fast_containers/dense_map.hpp |   4 +-
 3 files changed, 92 insertions(+), 80 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index c32838f..ba0d13d 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1091,12 +1091,14 @@ class btree {
   void update_parent_key_recursive(ChildNodeType* child, const Key& new_min);
 
   /**
-   * Handle underflow in a node after removal or merge.
+   * Handle underflow in a node that is about to lose an element or child.
    * Attempts to borrow from siblings or merge with them.
    * Returns pointer to the node where the data ended up (may differ if merged).
    * Works for both leaf_node and internal_node.
    *
-   * @param node The node that underflowed
+   * Copying a key can fail; this leaves a valid tree with the same elements.
+   *
+   * @param node The node that would underflow
    * @param next_index Optional index to track during rebalancing (for erase
    * iterator)
    * @return Pair of {node containing data, iterator to next_index location if
@@ -1190,12 +1192,19 @@ class btree {
   template <typename NodeType>
   NodeType* find_right_sibling(NodeType* node) const;
 
+  /**
+   * Prepare parent node for a merge of two of its children.
+   * Checks if parent would underflow and handles recursively.
+   *
+   * @param parent The parent node that will lose a child
+   */
+  void prepare_parent_for_merge(internal_node* parent);
+
   /**
    * Handle parent node after a merge operation.
-   * Checks if parent underflowed and handles recursively.
    * Reduces root height if root has only one child.
    *
-   * @param parent The parent node that may have underflowed
+   * @param parent The parent node that lost a child
    * @param parent_children Reference to parent's children array
    */
   template <typename NodeType, typename ChildrenArray>
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 60af30b..9611a4e 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -621,12 +621,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   leaf_node* leaf = pos.leaf_node_;
   auto leaf_it = *pos.leaf_it_;  // Dereference optional
 
-  // Check if we're erasing from beginning (will need parent update)
-  const bool erasing_from_beginning = (leaf_it == leaf->data.begin());
-
-  // Check if rebalancing will be needed BEFORE erasing
-  // This allows us to avoid saving next_key when not needed (important for
-  // large keys) Early return if root is leaf (no rebalancing ever needed)
+  // Early return if root is leaf (no rebalancing ever needed)
   if (root_is_leaf_ && leaf == leaf_root_) {
     auto next_in_leaf = leaf->data.erase(leaf_it);
     size_--;
@@ -638,6 +633,10 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     return end();
   }
 
+  // Rebalancing and updating parent keys copy keys, which can fail. So they
+  // come before the element is removed, and each step leaves a valid tree with
+  // the same elements behind.
+
   // Predict if rebalancing will be needed after erase (size - 1)
   const size_type underflow_threshold =
       min_leaf_size() > leaf_hysteresis() ? min_leaf_size() - leaf_hysteresis()
@@ -646,24 +645,19 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const bool needs_rebalancing =
       size_after_erase == 0 || size_after_erase < underflow_threshold;
 
-  // Capture next element BEFORE erasing (for O(1) tracking through rebalancing)
-  std::optional<size_t> next_index;
-  bool next_in_next_leaf = false;
   if (needs_rebalancing) {
-    // Calculate index of element after the one being erased
+    // handle_underflow tracks the element by its index (O(1))
     const size_t erase_index = std::distance(leaf->data.begin(), leaf_it);
-    if (erase_index + 1 < leaf->data.size()) {
-      // Next element is in this leaf - track its index (O(1) during
-      // rebalancing) After erase, it will shift left by 1, so index becomes
-      // erase_index
-      next_index = erase_index;
-    } else if (leaf->next_leaf != nullptr) {
-      // Next element is first element of next leaf
-      // Special handling: if we borrow from right or merge with right,
-      // that element will move into this leaf at the old_size position
-      next_in_next_leaf = true;
-    }
-    // else: at end of tree, no next element
+    auto [result_leaf, erase_iter] =
+        handle_underflow(leaf, std::optional<size_t>(erase_index), false);
+    leaf = result_leaf;
+    leaf_it = *erase_iter->leaf_it_;
+  }
+
+  // Update parent key if the minimum changes (only if erasing from beginning)
+  if (leaf_it == leaf->data.begin() && leaf->parent != nullptr &&
+      leaf->data.size() > 1) {
+    update_parent_key_recursive(leaf, std::next(leaf_it)->first);
   }
 
   // Erase from leaf using iterator (no search needed!)
@@ -671,30 +665,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto next_in_leaf = leaf->data.erase(leaf_it);
   size_--;
 
-  // Update parent key if minimum changed (only if erased from beginning)
-  // Do this BEFORE rebalancing to ensure parent keys are correct
-  if (erasing_from_beginning && !leaf->data.empty() &&
-      leaf->parent != nullptr) {
-    const Key& new_min = leaf->data.begin()->first;
-    update_parent_key_recursive(leaf, new_min);
-  }
-
-  if (needs_rebalancing) {
-    // handle_underflow uses O(1) index tracking when available
-    auto [result_leaf, next_iter] =
-        handle_underflow(leaf, next_index, next_in_next_leaf);
-    if (next_iter.has_value()) {
-      return *next_iter;
-    }
-    // Next element was not in this leaf, check next leaf
-    if (result_leaf->next_leaf != nullptr) {
-      return iterator(result_leaf->next_leaf,
-                      result_leaf->next_leaf->data.begin());
-    }
-    return end();
-  }
-
-  // No underflow - can use next_in_leaf directly (no search needed!)
+  // Can use next_in_leaf directly (no search needed!)
   if (next_in_leaf != leaf->data.end()) {
     // Next element is in same leaf
     return iterator(leaf, next_in_leaf);
@@ -1158,33 +1129,40 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Track if we're at position 0 (leftmost child)
   bool is_leftmost = false;
+  bool update = false;
 
   // The entry pointing to this child should be at 'it' or one position before
   // Check 'it' first
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (comp_(new_min, it->first)) {
-      // Update key in place - position doesn't change since new_min is still
-      // within this child's range (between left and right sibling mins)
-      children.unsafe_update_key(it, new_min);
-    }
+    update = comp_(new_min, it->first);
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
     if (it->second == child) {
       is_leftmost = (it == children.begin());
-      // Update key in place - position doesn't change since new_min is still
-      // within this child's range (between left and right sibling mins)
-      children.unsafe_update_key(it, new_min);
+      update = true;
     }
   }
 
+  // Copying the key can fail, so all levels copy it before any is updated
+  std::optional<Key> new_key;
+  if (update) {
+    new_key.emplace(new_min);
+  }
+
   // If this child is leftmost in parent, recursively update grandparent
   // The parent's minimum key changed, so we need to update it too
   if (is_leftmost && parent->parent != nullptr) {
     update_parent_key_recursive(parent, new_min);
   }
+
+  // Update key in place - position doesn't change since new_min is still
+  // within this child's range (between left and right sibling mins)
+  if (update) {
+    children.unsafe_update_key(it, std::move(*new_key));
+  }
 }
 
 // find_left_sibling
@@ -1309,27 +1287,42 @@ NodeType* btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
   }
 }
 
-// handle_parent_after_merge
+// prepare_parent_for_merge
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
           SearchMode SearchModeT, typename Allocator>
   requires ComparatorCompatible<Key, Compare>
-template <typename NodeType, typename ChildrenArray>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-           Allocator>::handle_parent_after_merge(internal_node* parent,
-                                                 ChildrenArray&
-                                                     parent_children) {
-  // Check if parent underflowed (use hysteresis threshold)
+           Allocator>::prepare_parent_for_merge(internal_node* parent) {
+  // Check if parent will underflow (use hysteresis threshold)
   const bool parent_is_root = (parent == internal_root_ && !root_is_leaf_);
+  const size_type parent_size = parent->children_are_leaves
+                                    ? parent->leaf_children.size()
+                                    : parent->internal_children.size();
   const size_type parent_underflow_threshold =
       min_internal_size() > internal_hysteresis()
           ? min_internal_size() - internal_hysteresis()
           : 0;
 
-  if (!parent_is_root && parent_children.size() < parent_underflow_threshold) {
+  if (!parent_is_root && parent_size - 1 < parent_underflow_threshold) {
     // Recursive underflow - discard iterator (internal node)
     handle_underflow(parent, std::nullopt, false);
-  } else if (parent_is_root && parent_children.size() == 1) {
+  }
+}
+
+// handle_parent_after_merge
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+template <typename NodeType, typename ChildrenArray>
+void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+           Allocator>::handle_parent_after_merge(internal_node* parent,
+                                                 ChildrenArray&
+                                                     parent_children) {
+  const bool parent_is_root = (parent == internal_root_ && !root_is_leaf_);
+
+  if (parent_is_root && parent_children.size() == 1) {
     // Root has only one child left - make that child the new root
     NodeType* new_root = parent_children.begin()->second;
     new_root->parent = nullptr;
@@ -1387,6 +1380,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       return false;
     }
 
+    // Update parent key for this node (its minimum changes to the first
+    // borrowed element/child). This can fail, so it comes first.
+    auto new_min_it = left_children.begin();
+    std::advance(new_min_it, left_children.size() - actual_borrow);
+    update_parent_key_recursive(node, new_min_it->first);
+
     // Transfer suffix from left sibling to beginning of this node
     // This does a bulk copy and shifts arrays only once
     children.transfer_suffix_from(left_children, actual_borrow);
@@ -1399,10 +1398,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       }
     }
 
-    // Update parent key for this node (minimum changed to first element/child)
-    const Key& new_min = children.begin()->first;
-    update_parent_key_recursive(node, new_min);
-
     return true;
   };
 
@@ -1493,6 +1488,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       return false;
     }
 
+    // Update parent key for right sibling (its minimum changes). This can fail,
+    // so it comes first.
+    auto new_right_min_it = right_children.begin();
+    std::advance(new_right_min_it, actual_borrow);
+    update_parent_key_recursive(right_sibling, new_right_min_it->first);
+
     // Transfer prefix from right sibling to end of this node
     // This does a bulk copy and shifts arrays only once
     const size_type old_size = children.size();
@@ -1507,10 +1508,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       }
     }
 
-    // Update parent key for right sibling (its minimum changed)
-    const Key& new_right_min = right_children.begin()->first;
-    update_parent_key_recursive(right_sibling, new_right_min);
-
     return true;
   };
 
@@ -1585,6 +1582,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   assert(left_sibling != nullptr &&
          "merge_with_left_sibling requires left sibling");
 
+  // The parent loses a child; node and left_sibling stay next to each other
+  prepare_parent_for_merge(node->parent);
+
   if constexpr (std::is_same_v<NodeType, leaf_node>) {
     // Capture node's minimum key BEFORE transferring data
     const Key& node_min = node->data.begin()->first;
@@ -1715,6 +1715,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   assert(right_sibling != nullptr &&
          "merge_with_right_sibling requires right sibling");
 
+  // The parent loses a child; node and right_sibling stay next to each other
+  prepare_parent_for_merge(node->parent);
+
   if constexpr (std::is_same_v<NodeType, leaf_node>) {
     // Capture right sibling's minimum key BEFORE transferring data
     const Key& right_sibling_min = right_sibling->data.begin()->first;
@@ -1848,8 +1851,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     underflow_threshold = min_leaf_size() > leaf_hysteresis()
                               ? min_leaf_size() - leaf_hysteresis()
                               : 0;
-    assert(node_size < underflow_threshold &&
-           "handle_underflow called on non-underflowed leaf");
+    assert(node_size <= underflow_threshold &&
+           "handle_underflow called on non-underflowing leaf");
   } else {
     // internal_node - get size based on children type
     node_size = node->children_are_leaves ? node->leaf_children.size()
@@ -1857,8 +1860,8 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     underflow_threshold = min_internal_size() > internal_hysteresis()
                               ? min_internal_size() - internal_hysteresis()
                               : 0;
-    assert(node_size < underflow_threshold &&
-           "handle_underflow called on non-underflowed internal node");
+    assert(node_size <= underflow_threshold &&
+           "handle_underflow called on non-underflowing internal node");
   }
 
   assert(node->parent != nullptr && "Root node cannot underflow");
diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index d04dfe7..9e27f21 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -315,7 +315,7 @@ class dense_map {
    * @param it Iterator to the element whose key should be updated
    * @param new_key The new key value
    */
-  void unsafe_update_key(iterator it, const Key& new_key) {
+  void unsafe_update_key(iterator it, Key new_key) {
     assert(it.index() < size_ && "Iterator out of bounds");
 
     const size_type index = it.index();
@@ -332,7 +332,7 @@ class dense_map {
                                      "than next key)");
 
     // Update key in place
-    keys_[index] = new_key;
+    keys_[index] = std::move(new_key);
   }
 
   /**
-- 
2.43.0


From 1234242ba8f10612656e74543e6f0a1fdc9e45aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 14/14] fix: an insertion that fails does not consume its value
 argument

The value was taken from the caller before the node allocations and key copies
that can fail, so that try_emplace and insert_or_assign lost a moved value (and
an element-wise move assignment an element) when they threw.
---
 include/fast_containers/btree.ipp     | 36 +++++++++++++++++++++++----
 include/fast_containers/dense_map.ipp |  7 +++---
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 9611a4e..31552e1 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -873,13 +873,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
   // Everything that can fail comes first, and each step leaves a valid tree
-  // with the same elements behind. Get the value and a copy of the key, so that
-  // they can be moved in once the leaf has been split.
-  Value value = std::forward<GetValue>(get_value)();
+  // with the same elements behind. Get a copy of the key, so that it can be
+  // moved in once the leaf has been split.
   Key new_key = key;
 
   // Make room for the new leaf in the parent
-  if (leaf->parent != nullptr) {
+  const bool leaf_is_root = leaf->parent == nullptr;
+  if (!leaf_is_root) {
     make_room_for_child(leaf->parent);
   }
 
@@ -909,6 +909,30 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     throw;
   }
 
+  // Get the value last: an insertion that fails must not consume it
+  Value value = [&]() -> Value {
+    try {
+      return std::forward<GetValue>(get_value)();
+    } catch (...) {
+      // Take the new leaf out again
+      internal_node* parent = leaf->parent;
+      if (leaf_is_root) {
+        leaf->parent = nullptr;
+        root_is_leaf_ = true;
+        leaf_root_ = leaf;
+        deallocate_internal_node(parent);
+      } else {
+        auto it = parent->leaf_children.begin();
+        while (it->second != new_leaf) {
+          ++it;
+        }
+        parent->leaf_children.erase(it);
+      }
+      deallocate_leaf_node(new_leaf);
+      throw;
+    }
+  }();
+
   // Use split_at() to efficiently move second half to new leaf
   leaf->data.split_at(split_it, new_leaf->data);
 
@@ -977,7 +1001,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Leaf has space - get value on-demand and insert using hint. Whatever can
   // fail comes before the leaf is changed.
-  Value value = std::forward<GetValue>(get_value)();
   Key new_key = key;
 
   // If we insert at the beginning and leaf has a parent, update parent key
@@ -985,6 +1008,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     update_parent_key_recursive(leaf, new_key);
   }
 
+  // Get the value last: an insertion that fails must not consume it
+  Value value = std::forward<GetValue>(get_value)();
+
   auto [leaf_it, inserted] =
       leaf->data.insert_hint(pos, std::move(new_key), std::move(value));
 
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 29eff35..57206ea 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -780,10 +780,11 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
-  // Obtain the new value and key before anything is moved: this may throw, and
-  // the arguments may refer to elements of this array
-  Value new_value = std::forward<MakeValue>(make_value)();
+  // Obtain the new key and value before anything is moved: this may throw, and
+  // the arguments may refer to elements of this array. The value comes last, so
+  // that an insertion that fails does not consume it.
   Key new_key = std::forward<K>(key);
+  Value new_value = std::forward<MakeValue>(make_value)();
 
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
-- 
2.43.0

