From f831d7aced74cbd3a4994fbaa80744a40bbeab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 001/133] fix: group16_flat_map copy construction and
 assignment did not compile

flat_map_iterator::hashmap() returned a const pointer as a mutable one.
---
 src/jstd/hashmap/flat_map_iterator.hpp  |  6 +-----
 src/jstd/hashmap/group16_flat_table.hpp | 14 --------------
 2 files changed, 1 insertion(+), 19 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..85f8a2d 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -217,10 +217,6 @@ public:
         return std::addressof(_slot->value);
     }
 
-    inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
-    }
-
     inline const hashmap_type * hashmap() const noexcept {
         return this->hashmap_;
     }
@@ -231,7 +227,7 @@ public:
 
     inline ctrl_type * ctrl() noexcept {
         const ctrl_type * _ctrl = this->hashmap_->ctrl_at(this->index_);
-        return const_cast<slot_type *>(_ctrl);
+        return const_cast<ctrl_type *>(_ctrl);
     }
 
     inline const ctrl_type * ctrl() const noexcept {
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..3958445 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2306,26 +2306,12 @@ private:
 
     JSTD_FORCED_INLINE
     void unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
-        assert(other != nullptr);
-        assert(other != this);
         for (; first != last; ++first) {
             const slot_type * old_slot = first.slot();
             this->no_grow_unique_insert(old_slot);
         }
     }
 
-    JSTD_FORCED_INLINE
-    void move_unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
-        assert(other != nullptr);
-        assert(other != this);
-        for (; first != last; ++first) {
-            slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(old_slot);
-        }
-    }
-
     JSTD_FORCED_INLINE
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
-- 
2.43.0


From 1c9158a4a48f19cf1b06fe7108680dfa1e215218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 002/133] fix: group16_flat_map move construction and
 assignment did not compile

---
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3958445..acce434 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-- 
2.43.0


From ec83cd9aca99fee0c50d30ccefce6401c518f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 003/133] fix: group16_flat_map copies of an equally sized
 table were empty

fast_copy_slots_from() copied groups and slots but not the size and the
threshold, and its unwinding after a throwing copy destroyed slots that
had never been constructed and leaked the arrays.
---
 src/jstd/hashmap/group16_flat_table.hpp | 52 +++++++++----------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index acce434..a3db0e4 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1599,19 +1599,15 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_copy_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->slot_capacity() == other.slot_capacity()) {
+                this->fast_copy_slots_from(other);
+            } else {
                 this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
@@ -1620,6 +1616,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1665,7 +1663,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1686,28 +1684,16 @@ private:
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Only the slots before [index] have been constructed.
+            while (index > 0) {
+                --index;
+                --ctrl;
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
             throw;
         }
     }
-- 
2.43.0


From 533b5b643df06aae09c0d763b029c9d77ef0dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 004/133] fix: group16_flat_map move with an unequal allocator
 did not compile or lost elements

move_unique_insert() passed a reference for a pointer, the plain-data path
assigned default slots, the fast path left the new size at zero, and the
source kept groups that marked destroyed slots as used.
---
 src/jstd/hashmap/group16_flat_table.hpp | 96 ++++++++-----------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index a3db0e4..a19f2d4 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -368,7 +368,7 @@ public:
 #if GROUP16_USE_INDEX_SHIFT
         index_shift_(kWordLength - 1),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP16_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
@@ -1706,56 +1706,26 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->slot_capacity() == other.slot_capacity()) {
+                this->fast_move_slots_from(other);
+            } else {
                 this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
     JSTD_FORCED_INLINE
     void fast_move_slots_from(group16_flat_table & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
+            size_type other_size = other.slot_size();
+            copy_groups_array_from(other);
             move_slots_array_from(other);
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
+            this->slot_size_ = other_size;
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1780,8 +1750,9 @@ private:
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
 
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
+        // Reset all of other groups
+        other.clear_groups(other.groups(), other.group_capacity());
+        other.slot_size_ = 0;
     }
 
     JSTD_FORCED_INLINE
@@ -1796,34 +1767,23 @@ private:
             while (ctrl < last_ctrl) {
                 if (ctrl->is_used()) {
                     SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                    other.destroy_slot(&other_slot[index]);
+                    other.destroy_slot_data(static_cast<size_type>(index));
+                    other.slot_size_--;
                 }
                 ++index;
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Only the slots before [index] have been constructed.
+            while (index > 0) {
+                --index;
+                --ctrl;
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
             throw;
         }
     }
@@ -2302,7 +2262,9 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(std::addressof(other), old_slot);
+            other.ctrl_at(first.index())->set_empty();
+            other.slot_size_--;
         }
     }
 
-- 
2.43.0


From 06e9daa19ce34185aa5fcbc0e7becbd9cade1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 005/133] fix: group16_flat_map assignment returned memory to
 the wrong allocator

With an allocator that propagates on assignment but not on swap, the new
content was adopted without the allocator it came from.
---
 src/jstd/hashmap/group16_flat_table.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index a19f2d4..478b14d 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -403,7 +403,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template swap_impl<true>(tmp);
         return *this;
     }
 
@@ -2566,7 +2566,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template swap_impl<true>(tmp);
         }
         return *this;
     }
@@ -2575,7 +2575,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template swap_impl<true>(tmp);
         }
         return *this;
     }
@@ -2598,6 +2598,8 @@ private:
 #endif
     }
 
+    // An assigned map takes over the allocator that owns its new content.
+    template <bool AlwaysSwapAllocator>
     JSTD_FORCED_INLINE
     void swap_policy(this_type & other) noexcept {
         using std::swap;
@@ -2606,21 +2608,22 @@ private:
 #endif
         swap(this->hasher_, other.hash_function_ref());
         swap(this->key_equal_, other.key_eq_ref());
-        if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
             swap(this->allocator_, other.get_allocator_ref());
         }
-        if (std::allocator_traits<group_allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<group_allocator_type>::propagate_on_container_swap::value) {
             swap(this->group_allocator_, other.get_group_allocator_ref());
         }
-        if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
             swap(this->slot_allocator_, other.get_slot_allocator_ref());
         }
     }
 
+    template <bool AlwaysSwapAllocator = false>
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
-        this->swap_policy(other);
+        this->template swap_policy<AlwaysSwapAllocator>(other);
     }
 };
 
-- 
2.43.0


From 515785d31e40d2b2c59a991da215cbd950ee00e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 006/133] fix: group16_flat_map range insert inserted only the
 first element

and insert(hint, P&&) passed the hint on as an element argument.
---
 src/jstd/hashmap/group16_flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..73bf019 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -448,14 +448,14 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From db3fabdff397654cc5fd915e490cd61576a42f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 007/133] fix: group16_flat_map insert_or_assign and hinted
 try_emplace did not compile

The map called a private member of the table, applied -> to a pair, and
moved from keys that were passed as lvalues.
---
 src/jstd/hashmap/group16_flat_map.hpp   | 20 ++++++++++----------
 src/jstd/hashmap/group16_flat_table.hpp |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 73bf019..b9188a4 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -570,13 +570,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -589,7 +589,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -603,7 +603,7 @@ public:
                              !std::is_convertible<KeyT, const_iterator>::value,
                               std::pair<iterator, bool> >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 478b14d..9a82f06 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -870,25 +870,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 0422a6ec95d102b8f5344ddba2050a4f7f2f26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 008/133] fix: group16_flat_map emplace moved from lvalues and
 destroyed elements twice

emplace(lvalue pair) moved from the caller's pair, and the overload that
builds a temporary element destroyed it again after transferring it.
---
 src/jstd/hashmap/group16_flat_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9a82f06..b89cd82 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2310,7 +2310,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2466,7 +2466,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
 
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From 67efed218356af752cb7027a2182a6dd3d5b30ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 009/133] fix: group16_flat_map erase by iterator, by range and
 erase_if did not compile or recursed forever

---
 src/jstd/hashmap/group16_flat_map.hpp | 34 ++++++++++-----------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index b9188a4..446ea7f 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -615,34 +615,27 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
         iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (iter != last) {
+            iter = this->erase(iter);
         }
-        return { last };
+        return iter;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -653,7 +646,7 @@ public:
         size_type num_deleted = 0;
         InputIter iter = first;
         for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+            num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
     }
@@ -718,14 +711,13 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
-        if (pred(*iter)) {
-            hash_map.erase(iter);
-        }
+    while (iter != last) {
+        if (pred(*iter))
+            iter = hash_map.erase(iter);
+        else
+            ++iter;
     }
 
     return (old_size - hash_map.size());
-- 
2.43.0


From 2b4b32f4fc66bc1152bcc4c5706bbf8471e6c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 010/133] fix: group16_flat_map could hang on insert after
 erase and insert churn

An insertion into an overflowed group raised the threshold even if the erase
that freed the slot had not lowered it, so the threshold passed the capacity,
the full table no longer grew and the search for an empty slot never ended.
---
 src/jstd/hashmap/group16_flat_table.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index b89cd82..f02bb9f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1544,6 +1544,7 @@ private:
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
         this->clear_groups(this->groups(), this->group_capacity());
+        this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
     }
 
     JSTD_FORCED_INLINE
@@ -2132,7 +2133,9 @@ private:
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
                     bool is_deleted_slot = group->is_overflow(ctrl_hash);
-                    this->slot_threshold_ += is_deleted_slot;
+                    // But it may have been deleted before the overflow bit was set.
+                    if (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity()))
+                        this->slot_threshold_ += is_deleted_slot;
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
                 }
@@ -2533,8 +2536,9 @@ private:
         bool maybe_overflow = this->maybe_caused_overflow(ctrl);
         assert(ctrl->is_used());
         ctrl->set_empty();
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        // The threshold may be less than the size, see shrink_to_fit(true).
+        if (this->slot_threshold_ > 0)
+            this->slot_threshold_ -= maybe_overflow;
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
-- 
2.43.0


From b699fd7bdf62d3a836c95069d3abd1e7001555d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 011/133] fix: group16_flat_map reserve could erase the map or
 leave too little room

reserve(0) destroyed every element, the needed capacity was rounded down,
and a threshold lowered by erasures was not restored.
---
 src/jstd/hashmap/group16_flat_table.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index f02bb9f..9c859ab 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -667,9 +667,16 @@ public:
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
         if (JSTD_LIKELY(new_capacity != 0)) {
+            size_type need_size = new_capacity;
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
-        } else {
+            if (JSTD_UNLIKELY((need_size > this->slot_threshold()) &&
+                              (this->calc_capacity(new_capacity) <= this->ctrl_capacity()))) {
+                // The erased slots have lowered the threshold, restore it.
+                this->rehash_impl<true, true>(this->ctrl_capacity());
+            } else {
+                this->rehash_impl<false>(new_capacity);
+            }
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
@@ -1220,7 +1227,8 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        // Round up, so that the threshold of the new capacity is never less than init_capacity.
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
 
@@ -1926,14 +1934,14 @@ private:
         }
     }
 
-    template <bool AllowShrink>
+    template <bool AllowShrink, bool AlwaysRehash = false>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
         if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
-            (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
+            (AllowShrink && (AlwaysRehash || (new_capacity != this->ctrl_capacity())))) {
             if (!AllowShrink) {
                 assert(new_capacity >= this->slot_size());
             }
-- 
2.43.0


From f23383a3b7b13e5188a41b52499ee1069f163d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 012/133] fix: group16_flat_map max_load_factor(x) doubled the
 capacity on every call

and did not update the threshold of the current capacity.
---
 src/jstd/hashmap/group16_flat_table.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9c859ab..ef7dc71 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -585,10 +585,13 @@ public:
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
-        size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
-        if (new_ctrl_capacity > this->ctrl_capacity()) {
-            this->rehash(new_ctrl_capacity);
+        if (this->slot_capacity() != 0) {
+            size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
+            if (this->size() <= new_threshold) {
+                this->slot_threshold_ = new_threshold;
+            } else {
+                this->rehash(this->shrink_to_fit_capacity(this->size()));
+            }
         }
     }
 
-- 
2.43.0


From 118e14936eb644bd95a127493d5ce966f2db1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 013/133] fix: group16_flat_map leaked the groups when
 allocating the slots failed

---
 src/jstd/hashmap/group16_flat_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index ef7dc71..4599415 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1907,7 +1907,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
-- 
2.43.0


From b1e9af1bf412f373b668caa76aeaa7f912a344a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 014/133] fix: group16_flat_map kept a slot that a throwing
 constructor never filled

The slot was marked as used before its element was constructed, so a failed
insertion left an element that did not exist (and destroyed it later).
---
 src/jstd/hashmap/group16_flat_table.hpp | 106 +++++++++++-------------
 1 file changed, 47 insertions(+), 59 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 4599415..0eb7413 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2020,6 +2020,25 @@ private:
         this->construct_slot(slot);
     }
 
+    //
+    // Construct the element of a slot whose ctrl has just been set to used,
+    // if the construction throws, the ctrl is reset.
+    //
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(size_type slot_index, Args && ... args) {
+        assert(slot_index < this->slot_capacity());
+        slot_type * slot = this->slot_at(slot_index);
+        assert(slot != nullptr);
+        this->slot_size_++;
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->reset_ctrl(slot_index);
+            throw;
+        }
+    }
+
     JSTD_FORCED_INLINE
     void destroy_slot(slot_type * slot) {
         if (!is_slot_trivial_destructor) {
@@ -2233,12 +2252,8 @@ private:
     void no_grow_unique_transfer_insert(slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         this->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2246,12 +2261,8 @@ private:
     void no_grow_unique_transfer_insert(group16_flat_table * other, slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         other->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2262,11 +2273,7 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(slot_index, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2300,10 +2307,7 @@ private:
         bool need_insert = find_info.second;        
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2327,11 +2331,7 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2367,12 +2367,9 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(slot_index,
                                         std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
-            this->slot_size_++;
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2405,13 +2402,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(slot_index,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2442,13 +2436,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(slot_index,
                                         std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2478,22 +2469,25 @@ private:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_or_insert(tmp_slot->value.first);
-        size_type slot_index = find_info.first;
-        bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
-        } else {
-            // The key to be inserted already exists.
-            if (AlwaysUpdate) {
-                slot_type * slot = this->slot_at(slot_index);
-                slot->value.second = std::move(tmp_slot->value.second);
+        size_type slot_index;
+        bool need_insert;
+        try {
+            auto find_info = this->find_or_insert(tmp_slot->value.first);
+            slot_index = find_info.first;
+            need_insert = find_info.second;
+            if (need_insert) {
+                // The key to be inserted is not exists.
+                this->construct_new_slot(slot_index, tmp_slot);
+            } else {
+                // The key to be inserted already exists.
+                if (AlwaysUpdate) {
+                    slot_type * slot = this->slot_at(slot_index);
+                    slot->value.second = std::move(tmp_slot->value.second);
+                }
             }
+        } catch (...) {
+            SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
+            throw;
         }
         SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
         return { this->iterator_at(slot_index), need_insert };
@@ -2509,13 +2503,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(slot_index,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         }
         return { this->iterator_at(slot_index), need_insert };
     }
@@ -2528,13 +2519,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(slot_index,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         }
         return { this->iterator_at(slot_index), need_insert };
     }
-- 
2.43.0


From 4fb831055b4d986e400fe1309390a38601cd4aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 015/133] fix: group16_flat_map leaked elements and arrays when
 a rehash threw

---
 src/jstd/hashmap/group16_flat_table.hpp | 76 +++++++++++++++++--------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 0eb7413..168e844 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1973,40 +1973,66 @@ private:
                 group_type * group = old_groups;
                 group_type * last_group = old_groups + old_group_capacity;
                 slot_type * slot_base = old_slots;
-
-                for (; group < last_group; ++group) {
-                    std::uint32_t used_mask = group->match_used(mask_bits);
-                    while (used_mask != 0) {
-                        std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                        used_mask = BitUtils::clearLowBit32(used_mask);
-                        slot_type * old_slot = slot_base + used_pos;
-                        assert(old_slot < old_last_slot);
-                        this->no_grow_unique_transfer_insert(old_slot);
-                        //this->destroy_slot(old_slot);
+                std::uint32_t used_mask = 0;
+
+                try {
+                    for (; group < last_group; ++group) {
+                        used_mask = group->match_used(mask_bits);
+                        while (used_mask != 0) {
+                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                            slot_type * old_slot = slot_base + used_pos;
+                            assert(old_slot < old_last_slot);
+                            this->no_grow_unique_transfer_insert(old_slot);
+                            //this->destroy_slot(old_slot);
+                            used_mask = BitUtils::clearLowBit32(used_mask);
+                        }
+                        slot_base += kGroupWidth;
                     }
-                    slot_base += kGroupWidth;
+                } catch (...) {
+                    // The elements not transferred yet are lost, but must not leak.
+                    for (;;) {
+                        while (used_mask != 0) {
+                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                            this->destroy_slot(slot_base + used_pos);
+                            used_mask = BitUtils::clearLowBit32(used_mask);
+                        }
+                        slot_base += kGroupWidth;
+                        if (++group >= last_group)
+                            break;
+                        used_mask = group->match_used(mask_bits);
+                    }
+                    this->destroy_arrays(old_groups, old_groups_alloc, old_group_capacity,
+                                         old_slots, old_slot_capacity);
+                    throw;
                 }
             }
 
             assert(this->slot_size() == old_slot_size);
 
+            this->destroy_arrays(old_groups, old_groups_alloc, old_group_capacity,
+                                 old_slots, old_slot_capacity);
+        }
+    }
+
+    // Deallocate the arrays of groups and slots that have been replaced.
+    void destroy_arrays(group_type * old_groups, group_type * old_groups_alloc, size_type old_group_capacity,
+                        slot_type * old_slots, size_type old_slot_capacity) {
 #if GROUP16_USE_SEPARATE_SLOTS
-            if (old_groups != this_type::default_empty_groups()) {
-                assert(old_groups_alloc != nullptr);
-                size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
-                GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
-            }
-            if (old_slots != nullptr) {
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
-            }
+        if (old_groups != this_type::default_empty_groups()) {
+            assert(old_groups_alloc != nullptr);
+            size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
+            GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
+        }
+        if (old_slots != nullptr) {
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
+        }
 #else
-            if (old_slots != nullptr) {
-                size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
-                                                         old_group_capacity, old_slot_capacity);
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
-            }
-#endif
+        if (old_slots != nullptr) {
+            size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
+                                                     old_group_capacity, old_slot_capacity);
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
         }
+#endif
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From b865063a5d65db075a712ed77eb113c6e8c8b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 016/133] fix: group16_flat_map hinted try_emplace with a
 convertible key did not compile

---
 src/jstd/hashmap/group16_flat_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 446ea7f..37e670a 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -601,7 +601,7 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
         return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
-- 
2.43.0


From 3a149ba95dbfa5c4b64d6132a896112862786579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 017/133] fix: group15_flat_map copies did not compile or were
 empty

---
 src/jstd/hashmap/group15_flat_table.hpp | 73 ++++++++-----------------
 1 file changed, 24 insertions(+), 49 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..c4926d3 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1654,19 +1654,15 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_copy_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->ctrl_capacity() == other.ctrl_capacity()) {
+                this->fast_copy_slots_from(other);
+            } else {
                 this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
@@ -1675,6 +1671,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1722,7 +1720,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1751,44 +1749,21 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Only the slots before [index] have been constructed.
+            while (index > 0) {
+                --index;
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
+                    --ctrl;
+                } else {
+                    ctrl -= 2;
+                }
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
             throw;
         }
     }
-- 
2.43.0


From 5490e317834a1928900f473e91587a167d2ef4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 018/133] fix: group15_flat_map move construction and
 assignment did not compile

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index c4926d3..288255b 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-- 
2.43.0


From d7c96a13c33d3e3b0ca655b48b4645652dd22d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 019/133] fix: group15_flat_map move with an unequal allocator
 did not compile or lost elements

---
 src/jstd/hashmap/group15_flat_table.hpp | 119 +++++++-----------------
 1 file changed, 36 insertions(+), 83 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 288255b..c99cf03 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -381,7 +381,7 @@ public:
         ctrl_mask_(size_type(-1)),
         slot_capacity_(0),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP15_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
@@ -1776,61 +1776,31 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->ctrl_capacity() == other.ctrl_capacity()) {
+                this->fast_move_slots_from(other);
+            } else {
                 this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
     JSTD_FORCED_INLINE
     void fast_move_slots_from(group15_flat_table & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
+            size_type other_size = other.slot_size();
+            copy_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other_size;
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
     }
 
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
-        }
-    }
-
     JSTD_FORCED_INLINE
     void move_slots_array_from(group15_flat_table & other) {
         this->move_slots_array_from(
@@ -1852,8 +1822,10 @@ private:
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
 
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
+        // Reset all of other groups
+        other.clear_groups(other.groups(), other.group_capacity());
+        this_type::set_sentinel_mark(other.groups(), other.group_capacity());
+        other.slot_size_ = 0;
     }
 
     JSTD_FORCED_INLINE
@@ -1869,7 +1841,9 @@ private:
                 if (ctrl->is_used()) {
                     if (JSTD_LIKELY(!ctrl->is_sentinel())) {
                         SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                        other.destroy_slot(&other_slot[index]);
+                        ctrl_type * other_ctrl = other.ctrls() + (ctrl - this->ctrls());
+                        other.destroy_slot_data(other_ctrl, &other_slot[index]);
+                        other.slot_size_--;
                     } else {
                         break;
                     }
@@ -1882,44 +1856,21 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Only the slots before [index] have been constructed.
+            while (index > 0) {
+                --index;
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
+                    --ctrl;
+                } else {
+                    ctrl -= 2;
+                }
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
             throw;
         }
     }
@@ -2475,7 +2426,9 @@ private:
     void move_unique_insert(group15_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(&other, old_slot);
+            this->no_grow_unique_transfer_insert(std::addressof(other), old_slot);
+            first.ctrl()->set_empty();
+            other.slot_size_--;
         }
     }
 
-- 
2.43.0


From 4584dfd9f4c6981511d2de4745fdb3b5cb903d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 020/133] fix: group15_flat_map assignment returned memory to
 the wrong allocator

---
 src/jstd/hashmap/group15_flat_table.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index c99cf03..8e2f3da 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -416,7 +416,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template swap_impl<true>(tmp);
         return *this;
     }
 
@@ -2748,7 +2748,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template swap_impl<true>(tmp);
         }
         return *this;
     }
@@ -2757,7 +2757,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template swap_impl<true>(tmp);
         }
         return *this;
     }
@@ -2782,6 +2782,8 @@ private:
 #endif
     }
 
+    // An assigned map takes over the allocator that owns its new content.
+    template <bool AlwaysSwapAllocator>
     JSTD_FORCED_INLINE
     void swap_policy(this_type & other) noexcept {
         using std::swap;
@@ -2790,21 +2792,22 @@ private:
 #endif
         swap(this->hasher_, other.hash_function_ref());
         swap(this->key_equal_, other.key_eq_ref());
-        if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
             swap(this->allocator_, other.get_allocator_ref());
         }
-        if (std::allocator_traits<group_allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<group_allocator_type>::propagate_on_container_swap::value) {
             swap(this->group_allocator_, other.get_group_allocator_ref());
         }
-        if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
             swap(this->slot_allocator_, other.get_slot_allocator_ref());
         }
     }
 
+    template <bool AlwaysSwapAllocator = false>
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
-        this->swap_policy(other);
+        this->template swap_policy<AlwaysSwapAllocator>(other);
     }
 };
 
-- 
2.43.0


From 36623e59a48c7b3e9f8c583c94bf50c32d664bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 021/133] fix: group15_flat_map range insert inserted only the
 first element

---
 src/jstd/hashmap/group15_flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..34a7822 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -451,14 +451,14 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From c15a33700a2e5cf1401d18fc721b69f1caa140aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 022/133] fix: group15_flat_map insert_or_assign and hinted
 try_emplace did not compile

---
 src/jstd/hashmap/group15_flat_map.hpp   | 22 +++++++++++-----------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 34a7822..83900d4 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -573,13 +573,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -592,7 +592,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -604,9 +604,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 8e2f3da..f09f276 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -922,25 +922,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 19f04777396e5e4efa7f987b23c3b42e5dc978a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 023/133] fix: group15_flat_map emplace moved from lvalues and
 destroyed elements twice

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index f09f276..a2aee1f 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2474,7 +2474,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2633,7 +2633,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From fb2355b61ed9c5c11ff5ec763e0bb94107d245b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 024/133] fix: group15_flat_map erase by iterator, by range and
 erase_if did not compile

---
 src/jstd/hashmap/group15_flat_map.hpp   | 35 +++++++++----------------
 src/jstd/hashmap/group15_flat_table.hpp | 11 ++++----
 2 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 83900d4..e88c046 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -618,35 +618,27 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
         iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (iter != last) {
+            iter = this->erase(iter);
         }
-        return { last };
+        return iter;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,7 +647,7 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
+        InputIter iter = first;
         for (; iter != last; ++iter) {
             num_deleted += static_cast<size_type>(this->erase(*iter));
         }
@@ -722,14 +714,13 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
-        if (pred(*iter)) {
-            hash_map.erase(iter);
-        }
+    while (iter != last) {
+        if (pred(*iter))
+            iter = hash_map.erase(iter);
+        else
+            ++iter;
     }
 
     return (old_size - hash_map.size());
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index a2aee1f..a161c22 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1008,10 +1008,11 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        size_type ctrl_index = this->index_of(pos.ctrl());
+        locator_t locator(this->group_by_ctrl_index(ctrl_index), ctrl_index % kGroupWidth, pos.slot());
+        ++pos;
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        return pos;
     }
 
     JSTD_FORCED_INLINE
@@ -1456,8 +1457,8 @@ private:
     JSTD_FORCED_INLINE size_type index_of(ctrl_type * ctrl) const {
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
-        size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        size_type ctrl_index = static_cast<size_type>(const_cast<const ctrl_type *>(ctrl) - this->ctrls());
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
-- 
2.43.0


From d7788ca0125b54d168cd7f7905c216dbca0e816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 025/133] fix: group15_flat_map bucket(key) did not compile

---
 src/jstd/hashmap/group15_flat_table.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index a161c22..8be4169 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -598,8 +598,11 @@ public:
     }
 
     size_type bucket(const key_type & key) const {
-        size_type ctrl_index = this->find_impl(key);
-        return ctrl_index;
+        locator_t locator = this->find_impl(key);
+        if (locator.slot() != nullptr)
+            return static_cast<size_type>(locator.slot() - this->slots());
+        else
+            return this->safe_slot_capacity();
     }
 
     ///
-- 
2.43.0


From 1de568014a14c35f2c4d9fb84a981233a2fe3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 026/133] fix: group15_flat_map clear crashed on an empty map

---
 src/jstd/hashmap/group15_flat_table.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 8be4169..50cb2aa 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1587,11 +1587,16 @@ private:
     JSTD_FORCED_INLINE
     void clear_data() {
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
-        this->clear_slots();
-        this->clear_groups(this->groups(), this->group_capacity());
+        if (this->slots_ != nullptr) {
+            this->clear_slots();
+            this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+            // Set the sentinel mark
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+
+            // No slot is deleted any more.
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 216ae8f5ddbc5f1e66de0c972d12b73fb9022247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 027/133] fix: group15_flat_map capacity was unbounded or the
 threshold wrapped under erase and insert churn

---
 src/jstd/hashmap/group15_flat_table.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 50cb2aa..c8365b7 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1891,6 +1891,15 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
+        if (this->slots() != nullptr) {
+            size_type full_threshold = this->calc_slot_threshold(this->slot_capacity());
+            if (this->slot_size() + full_threshold / 8 <= full_threshold) {
+                // It's not the size but the erased slots that reach the threshold,
+                // to rehash in place is enough.
+                this->rehash_impl<true, true>(this->ctrl_capacity());
+                return;
+            }
+        }
         // The growth rate is 2 times
         size_type new_capacity = this->ctrl_capacity() * 2;
         this->rehash_impl<false>(new_capacity);
@@ -2039,14 +2048,14 @@ private:
         }
     }
 
-    template <bool AllowShrink>
+    template <bool AllowShrink, bool AlwaysRehash = false>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
         if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
-            (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
+            (AllowShrink && (AlwaysRehash || (new_capacity != this->ctrl_capacity())))) {
             if (!AllowShrink) {
                 assert(new_capacity >= this->slot_size());
             }
@@ -2724,8 +2733,9 @@ private:
 #endif
         assert(group->is_used(group_pos));
         group->set_empty(group_pos);
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        // The threshold may be less than the size, see shrink_to_fit(true).
+        if (this->slot_threshold_ > 0)
+            this->slot_threshold_ -= maybe_overflow;
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
-- 
2.43.0


From 6129a330e2698e0baa0053805fea97a0ec06612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 028/133] fix: group15_flat_map reserve could erase the map or
 leave too little room

---
 src/jstd/hashmap/group15_flat_table.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index c8365b7..76bfbba 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -734,9 +734,16 @@ public:
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
         if (JSTD_LIKELY(new_capacity != 0)) {
+            size_type need_size = new_capacity;
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
-        } else {
+            if (JSTD_UNLIKELY((need_size > this->slot_threshold()) &&
+                              (this->calc_capacity(new_capacity) <= this->ctrl_capacity()))) {
+                // The erased slots have lowered the threshold, restore it.
+                this->rehash_impl<true, true>(this->ctrl_capacity());
+            } else {
+                this->rehash_impl<false>(new_capacity);
+            }
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
@@ -1216,7 +1223,8 @@ private:
     JSTD_FORCED_INLINE
     size_type calc_capacity(size_type init_capacity) const noexcept {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
-                  new_capacity = (std::max)(new_capacity, this->slot_size());
+        // Every group has only kGroupSize slots, and the last slot is the sentinel.
+                  new_capacity = (std::max)(new_capacity, (this->slot_size() / kGroupSize + 1) * kGroupWidth);
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
         }
@@ -1299,8 +1307,11 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
-        return new_capacity;
+        // The threshold of the new capacity must not be less than init_capacity.
+        if (init_capacity <= this_type::calc_slot_capacity(kMinCapacity / kGroupWidth))
+            return init_capacity;
+        size_type new_slot_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
+        return (new_slot_capacity / kGroupSize + 1) * kGroupWidth;
     }
 
     static inline bool is_positive(size_type value) noexcept {
-- 
2.43.0


From 887d76448e709aecb7af2824afaadfaf620ec359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 029/133] fix: group15_flat_map max_load_factor(x) doubled the
 capacity on every call

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 76bfbba..a4750a7 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -629,10 +629,13 @@ public:
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
-        size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
-        if (new_ctrl_capacity > this->ctrl_capacity()) {
-            this->rehash(new_ctrl_capacity);
+        if (this->slots() != nullptr) {
+            size_type new_threshold = this->calc_slot_threshold(this->slot_capacity());
+            if (this->size() <= new_threshold) {
+                this->slot_threshold_ = new_threshold;
+            } else {
+                this->rehash(this->shrink_to_fit_capacity(this->size()));
+            }
         }
     }
 
-- 
2.43.0


From 2e2a7b4b165ad7eb7854adf9bdf44b36cc085667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 030/133] fix: group15_flat_map kept a slot that a throwing
 constructor never filled

---
 src/jstd/hashmap/group15_flat_table.hpp | 111 ++++++++++--------------
 1 file changed, 47 insertions(+), 64 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index a4750a7..c6ed534 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2150,6 +2150,25 @@ private:
         this->construct_slot(slot);
     }
 
+    //
+    // Construct the element of a slot whose ctrl has just been set to used,
+    // if the construction throws, the ctrl is reset.
+    //
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(locator_t & locator, Args && ... args) {
+        slot_type * slot = locator.slot();
+        assert(slot != nullptr);
+        assert(slot < this->last_slot());
+        this->slot_size_++;
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->reset_ctrl(locator);
+            throw;
+        }
+    }
+
     JSTD_FORCED_INLINE
     void destroy_slot(slot_type * slot) {
         if (!is_slot_trivial_destructor) {
@@ -2401,12 +2420,8 @@ private:
     void no_grow_unique_transfer_insert(slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         this->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2414,12 +2429,8 @@ private:
     void no_grow_unique_transfer_insert(group15_flat_table * other, slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         other->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2430,11 +2441,7 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(locator, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2476,10 +2483,7 @@ private:
         bool need_insert = find_info.second;        
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(locator, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2503,11 +2507,7 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2543,13 +2543,9 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(locator,
                                         std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
-            this->slot_size_++;
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2582,14 +2578,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(locator,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2620,14 +2612,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(locator,
                                         std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2657,22 +2645,25 @@ private:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_or_insert(tmp_slot->get_key());
-        locator_t & locator = find_info.first;
-        bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
-        } else {
-            // The key to be inserted already exists.
-            if (AlwaysUpdate) {
-                slot_type * slot = locator.slot();
-                slot->value.second = std::move(tmp_slot->value.second);
+        locator_t locator;
+        bool need_insert;
+        try {
+            auto find_info = this->find_or_insert(tmp_slot->get_key());
+            locator = find_info.first;
+            need_insert = find_info.second;
+            if (need_insert) {
+                // The key to be inserted is not exists.
+                this->construct_new_slot(locator, tmp_slot);
+            } else {
+                // The key to be inserted already exists.
+                if (AlwaysUpdate) {
+                    slot_type * slot = locator.slot();
+                    slot->value.second = std::move(tmp_slot->value.second);
+                }
             }
+        } catch (...) {
+            SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
+            throw;
         }
         SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
         return { locator, need_insert };
@@ -2688,14 +2679,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(locator,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         }
         return { locator, need_insert };
     }
@@ -2708,14 +2695,10 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
+            this->construct_new_slot(locator,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         }
         return { locator, need_insert };
     }
-- 
2.43.0


From 634ea03f55770725bd6ac18ddbe361d332f433c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 031/133] fix: group15_flat_map leaked elements and arrays when
 a rehash threw

---
 src/jstd/hashmap/group15_flat_table.hpp | 88 ++++++++++++++++---------
 1 file changed, 58 insertions(+), 30 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index c6ed534..fa0296a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2027,7 +2027,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
@@ -2091,52 +2097,74 @@ private:
                 group_type * group = old_groups;
                 group_type * last_group = old_groups + old_group_capacity;
                 slot_type * slot_base = old_slots;
-
-                for (; group < last_group; ++group) {
-                    //JSTD_ASSUME(slot_base != nullptr);
-                    //jstd::CPU_Prefetch_Read_T0((const void *)&slot_base->get_key());
-                    std::uint32_t used_mask = group->match_used();
-                    if (used_mask != 0) {
-                        do {
+                std::uint32_t used_mask = 0;
+
+                try {
+                    for (; group < last_group; ++group) {
+                        //JSTD_ASSUME(slot_base != nullptr);
+                        //jstd::CPU_Prefetch_Read_T0((const void *)&slot_base->get_key());
+                        used_mask = group->match_used();
+                        while (used_mask != 0) {
                             std::uint32_t used_pos = BitUtils::bsf32(used_mask);
                             if (JSTD_LIKELY(!group->is_sentinel(used_pos))) {
                                 slot_type * old_slot = slot_base + used_pos;
                                 assert(old_slot < old_last_slot);
                                 this->no_grow_unique_transfer_insert(old_slot);
                                 //this->destroy_slot(old_slot);
-                            } else {
-                                break;
                             }
                             used_mask = BitUtils::clearLowBit32(used_mask);
-                        } while (used_mask != 0);
+                        }
+                        slot_base += kGroupSize;
                     }
-                    slot_base += kGroupSize;
+                } catch (...) {
+                    // The elements not transferred yet are lost, but must not leak.
+                    for (;;) {
+                        while (used_mask != 0) {
+                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                            if (JSTD_LIKELY(!group->is_sentinel(used_pos))) {
+                                this->destroy_slot(slot_base + used_pos);
+                            }
+                            used_mask = BitUtils::clearLowBit32(used_mask);
+                        }
+                        slot_base += kGroupSize;
+                        if (++group >= last_group)
+                            break;
+                        used_mask = group->match_used();
+                    }
+                    this->destroy_arrays(old_groups, old_groups_alloc, old_group_capacity, old_slots);
+                    throw;
                 }
             }
 
             assert(this->slot_size() == old_slot_size);
 
+            this->destroy_arrays(old_groups, old_groups_alloc, old_group_capacity, old_slots);
+        }
+    }
+
+    // Deallocate the arrays of groups and slots that have been replaced.
+    void destroy_arrays(group_type * old_groups, group_type * old_groups_alloc,
+                        size_type old_group_capacity, slot_type * old_slots) {
 #if GROUP15_USE_SEPARATE_SLOTS
-            if (old_groups != this_type::default_empty_groups()) {
-                assert(old_groups_alloc != nullptr);
-                size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
-                GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
-            }
-            if (old_slots != nullptr) {
-                size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
-                assert(old_slot_capacity != 0);
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
-            }
+        if (old_groups != this_type::default_empty_groups()) {
+            assert(old_groups_alloc != nullptr);
+            size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
+            GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
+        }
+        if (old_slots != nullptr) {
+            size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
+            assert(old_slot_capacity != 0);
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
+        }
 #else
-            if (old_slots != nullptr) {
-                size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
-                assert(old_slot_capacity != 0);
-                size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
-                                                         old_group_capacity, old_slot_capacity);
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
-            }
-#endif
+        if (old_slots != nullptr) {
+            size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
+            assert(old_slot_capacity != 0);
+            size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
+                                                     old_group_capacity, old_slot_capacity);
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
         }
+#endif
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 8942403c66b3151d300c906ea57808d66c46a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 032/133] fix: robin_hash_map list insert and hinted
 insert_or_assign did not compile, insert_or_assign moved from lvalues

---
 src/jstd/hashmap/robin_hash_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..83ba06d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3603,8 +3603,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -3615,7 +3615,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
@@ -3625,17 +3625,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 0323f5059c58c8ecb94b7dc6e7c8c9dded95ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 033/133] fix: robin_hash_map erase by iterator, by range and
 erase_if did not compile

---
 src/jstd/hashmap/robin_hash_map.h | 55 +++++++++++--------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 83ba06d..12e29dd 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2861,35 +2861,27 @@ public:
             return { this->owner_, this->index_ };
         }
 #endif
-        this_type * owner() {
-            return this->owner_;
-        }
-
         const this_type * owner() const {
             return this->owner_;
         }
 
-        size_type index() {
-            return this->index_;
-        }
-
         size_type index() const {
             return this->index_;
         }
 
         ctrl_type * ctrl() {
-            ctrl_type * _ctrl = const_cast<this_type *>(this->owner_)->ctrl_at(this->index);
+            ctrl_type * _ctrl = const_cast<this_type *>(this->owner_)->ctrl_at(this->index_);
             return _ctrl;
         }
 
         const ctrl_type * ctrl() const {
-            const ctrl_type * _ctrl = this->owner_->ctrl_at(this->index);
+            const ctrl_type * _ctrl = this->owner_->ctrl_at(this->index_);
             return _ctrl;
         }
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
@@ -3727,23 +3719,15 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
-            size_type ctrl_index = this->index_of(pos);
+        size_type ctrl_index = this->index_of(pos);
+        if (!kIsIndirectKV) {
             this->erase_slot(ctrl_index);
             ctrl_type * ctrl = this->ctrl_at(ctrl_index);
             return this->next_valid_iterator(ctrl, pos);
         } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
+            // The last slot is moved into the erased slot.
+            this->indirect_erase_slot(ctrl_index);
+            return pos;
         }
     }
 
@@ -3752,18 +3736,17 @@ public:
     }
 
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
-            }
-        } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
-            }
-        }
-        return { first };
+        // Traversed from the last to the first, because erasing a slot
+        // only moves the slots behind it.
+        iterator iter(last);
+        while (iter != iterator(first)) {
+            --iter;
+            this->erase(iter);
+        }
+        if (!kIsIndirectKV && (iter != this->end()))
+            return this->next_valid_iterator(iter);
+        else
+            return iter;
     }
 
     template <typename InputIter, typename std::enable_if<
-- 
2.43.0


From ea77160020be33e5efb9f5bb7144ec0f803bf388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 034/133] fix: robin_hash_map find of an absent key was not
 end() on empty and indirect maps

---
 src/jstd/hashmap/robin_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 12e29dd..bfc4aa8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3547,10 +3547,10 @@ public:
 
     const_iterator find(const key_type & key) const {
         const slot_type * slot = this->find_impl(key);
-        if (!kIsIndirectKV)
-            return this->iterator_at(this->index_of(slot));
-        else
+        if (slot != this->last_slot())
             return this->iterator_at(slot);
+        else
+            return this->end();
     }
 
     std::pair<iterator, iterator> equal_range(const key_type & key) {
-- 
2.43.0


From 21155bb8d3f4af6ac30a837db7345bf137b40ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 035/133] fix: robin_hash_map move construction lost the slot
 threshold

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index bfc4aa8..aac6221 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3144,7 +3144,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
-- 
2.43.0


From 2fb4edb5e4168fa1629fd025567d10c369edb651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 036/133] fix: robin_hash_map swap left the last slots behind

---
 src/jstd/hashmap/robin_hash_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index aac6221..2a70dfa 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6539,6 +6539,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From 3761617dccbcd351b4950d43738ca4e513d6e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 037/133] fix: robin_hash_map wrote behind its arrays when many
 hash codes collided

---
 src/jstd/hashmap/robin_hash_map.h | 78 +++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 2a70dfa..3bf276a 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3286,7 +3286,8 @@ public:
 
     size_type max_lookups() const { return this->max_lookups_; }
     std::uint16_t max_distance() const {
-        return (std::uint16_t)(this->max_lookups() << 8);
+        // The distance is stored in the low byte if the hash code isn't stored.
+        return (std::uint16_t)(kNeedStoreHash ? (this->max_lookups() << 8) : this->max_lookups());
     }
     size_type max_slot_capacity() const {
         return (this->slot_capacity() + this->max_lookups());
@@ -4250,6 +4251,21 @@ private:
         return (this->slot_size() >= this->slot_threshold());
     }
 
+    // Is there no room to insert a entry at the ctrl within the max lookups ?
+    bool exceed_max_lookups(const ctrl_type * ctrl, const ctrl_type & dist_and_0) const {
+        size_type distance = dist_and_0.getDist();
+        while (distance < this->max_lookups()) {
+            if (ctrl->isEmpty())
+                return false;
+            // The richer entry will be displaced.
+            if (distance > ctrl->getDist())
+                distance = ctrl->getDist();
+            distance++;
+            ctrl++;
+        }
+        return true;
+    }
+
     void grow_if_necessary() {
         size_type new_capacity = (this->slot_mask_ + 1) * 2;
         this->rehash_impl<false, true>(new_capacity);
@@ -5497,13 +5513,15 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->exceed_max_lookups(ctrl, dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+                auto find_info = this->find_failed(hash_code, dist_and_0);
+                ctrl = find_info.first;
+                slot = find_info.second;
+            } while (this->exceed_max_lookups(ctrl, dist_and_0));
         }
 
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
@@ -5625,11 +5643,13 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        if (this->need_grow() || this->exceed_max_lookups(ctrl, dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+                ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+            } while (this->exceed_max_lookups(ctrl, dist_and_0));
         }
 
         size_type new_slot_index = this->slot_size_;
@@ -6142,6 +6162,14 @@ InsertOrGrow_Start:
 
         slot += dist_and_0.dist;
 
+        while (this->exceed_max_lookups(ctrl, dist_and_0)) {
+            this->grow_if_necessary();
+
+            auto find_info = this->find_failed(hash_code, dist_and_0);
+            ctrl = find_info.first;
+            slot = find_info.second;
+        }
+
         ctrl_type dist_and_hash(dist_and_0);
 
         if (ctrl->isEmpty()) {
@@ -6171,6 +6199,14 @@ InsertOrGrow_Start:
 
         slot += dist_and_0.dist;
 
+        while (this->exceed_max_lookups(ctrl, dist_and_0)) {
+            this->grow_if_necessary();
+
+            auto find_info = this->find_failed(hash_code, dist_and_0);
+            ctrl = find_info.first;
+            slot = find_info.second;
+        }
+
         ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
 
         if (ctrl->isEmpty()) {
@@ -6198,6 +6234,12 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
+        while (this->exceed_max_lookups(ctrl, dist_and_0)) {
+            this->grow_if_necessary();
+
+            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+        }
+
         size_type slot_index = this->slot_size_;
 
         ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
@@ -6231,6 +6273,12 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
+        while (this->exceed_max_lookups(ctrl, dist_and_0)) {
+            this->grow_if_necessary();
+
+            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+        }
+
         size_type slot_index = this->slot_size_;
 
         ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
@@ -6309,13 +6357,15 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || this->exceed_max_lookups(ctrl, dist_and_0)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+            do {
+                this->grow_if_necessary();
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+                auto find_info = this->find_failed(hash_code, dist_and_0);
+                ctrl = find_info.first;
+                slot = find_info.second;
+            } while (this->exceed_max_lookups(ctrl, dist_and_0));
         } else {
             slot += dist_and_0.dist;
         }
-- 
2.43.0


From 2f1fdfc0e4bf0c10ce4722e1d419763bdf6cbe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 038/133] fix: robin_hash_map lost the stored hashes of a
 direct layout when it was rehashed

---
 src/jstd/hashmap/robin_hash_map.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 3bf276a..f72a8e0 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4529,7 +4529,10 @@ private:
                             maskUsed = BitUtils::clearLowBit32(maskUsed);
                             size_type index = group.index(0, pos);
                             slot_type * old_slot = slot_base + index;
-                            this->insert_no_grow(old_slot);
+                            if (!kNeedStoreHash)
+                                this->insert_no_grow(old_slot);
+                            else
+                                this->insert_no_grow(old_slot, group.ctrl()[index].getHash());
                             this->destroy_slot(old_slot);
                         }
                         slot_base += kGroupWidth;
@@ -4543,7 +4546,10 @@ private:
                             maskUsed = BitUtils::clearLowBit32(maskUsed);
                             size_type index = group.index(0, pos);
                             slot_type * old_slot = slot_base + index;
-                            this->insert_no_grow(old_slot);
+                            if (!kNeedStoreHash)
+                                this->insert_no_grow(old_slot);
+                            else
+                                this->insert_no_grow(old_slot, group.ctrl()[index].getHash());
                             this->destroy_slot(old_slot);
                         }
                         slot_base += kGroupWidth;
@@ -4563,7 +4569,10 @@ private:
                             maskUsed = BitUtils::clearLowBit32(maskUsed);
                             size_type index = group.index(0, pos);
                             slot_type * old_slot = slot_base + index;
-                            this->insert_no_grow(old_slot);
+                            if (!kNeedStoreHash)
+                                this->insert_no_grow(old_slot);
+                            else
+                                this->insert_no_grow(old_slot, group.ctrl()[index].getHash());
                             this->destroy_slot(old_slot);
                         }
                         slot_base += kGroupWidth;
-- 
2.43.0


From 69d3cff1e5608301633cf1907d1a5cdb2f24b46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 039/133] fix: robin_hash_map copies of an indirect map were
 corrupted

---
 src/jstd/hashmap/robin_hash_map.h | 38 ++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f72a8e0..913b5cf 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6347,7 +6347,43 @@ InsertOrGrow_Start:
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key) {
         hash_code_t hash_code = this->get_hash(key);
-        return this->unique_find_and_insert(key, hash_code);
+        if (!kIsIndirectKV)
+            return this->unique_find_and_insert(key, hash_code);
+        else
+            return this->indirect_unique_find_and_insert(key, hash_code);
+    }
+
+    template <typename KeyT>
+    JSTD_NO_INLINE
+    std::pair<slot_type *, bool>
+    indirect_unique_find_and_insert(const KeyT & key, hash_code_t hash_code) {
+        std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
+
+        ctrl_type dist_and_0;
+        ctrl_type * ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+
+        if (this->need_grow() || this->exceed_max_lookups(ctrl, dist_and_0)) {
+            // The size of slot reach the slot threshold or hashmap is full.
+            do {
+                this->grow_if_necessary();
+
+                ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+            } while (this->exceed_max_lookups(ctrl, dist_and_0));
+        }
+
+        size_type new_slot_index = this->slot_size_;
+        slot_type * new_slot = this->slot_at(new_slot_index);
+
+        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
+        dist_and_hash.setIndex(static_cast<slot_index_t>(new_slot_index));
+
+        if (ctrl->isEmpty()) {
+            this->setUsedCtrl(ctrl, dist_and_hash);
+            return { new_slot, false };
+        } else {
+            FindResult neednt_grow = this->indirect_insert_to_place<false>(ctrl, dist_and_hash);
+            return { new_slot, (neednt_grow == kNeedGrow) };
+        }
     }
 
     template <typename KeyT>
-- 
2.43.0


From 1749f60824e7bf7122f1c36cf9063b728e8f4fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 040/133] fix: robin_hash_map copies lost the max load factor

---
 src/jstd/hashmap/robin_hash_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 913b5cf..9f0f071 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3111,8 +3111,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.n_mlf_),
+        n_mlf_rev_(other.n_mlf_rev_),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(),
 #endif
@@ -3163,8 +3163,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.n_mlf_),
+        n_mlf_rev_(other.n_mlf_rev_),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-- 
2.43.0


From 759545d5c67dc31056cf676152c6ac9faa97345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 041/133] fix: robin_hash_map move with an unequal allocator
 copied the elements and left them behind

---
 src/jstd/hashmap/robin_hash_map.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 9f0f071..53e8e33 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3181,17 +3181,16 @@ public:
             size_type other_size = other.size();
             this->reserve_for_insert(other_size);
 
-            // Note: this will copy elements of dense_set and unordered_set instead of
-            // moving them. This can be fixed if it ever becomes an issue.
             try {
-                this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                this->destroy();
-                throw std::bad_alloc();
+                for (iterator iter = other.begin(); iter != other.end(); ++iter) {
+                    this->unique_insert(std::move(*iter));
+                }
             } catch (...) {
                 this->destroy();
                 throw;
             }
+            other.destroy_data();
+            other.template reset<false>();
         }
     }
 
-- 
2.43.0


From 48dda1029ac4fef2a8e5e593dee9e0e9f2a0a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 042/133] fix: robin_hash_map assignment returned memory to the
 wrong allocator

---
 src/jstd/hashmap/robin_hash_map.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 53e8e33..ed52669 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3238,7 +3238,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template swap_impl<true>(tmp);
         return *this;
     }
 
@@ -6616,7 +6616,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template swap_impl<true>(tmp);
         }
         return *this;
     }
@@ -6624,7 +6624,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template swap_impl<true>(tmp);
         }
         return *this;
     }
@@ -6645,24 +6645,26 @@ Insert_To_Slot:
 #endif
     }
 
+    template <bool AlwaysSwapAllocator = false>
     void swap_policy(this_type & other) noexcept {
         using std::swap;
         swap(this->hasher_, other.hash_function_ref());
         swap(this->key_equal_, other.key_eq_ref());
-        if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
             swap(this->allocator_, other.get_allocator_ref());
         }
-        if (std::allocator_traits<ctrl_allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<ctrl_allocator_type>::propagate_on_container_swap::value) {
             swap(this->ctrl_allocator_, other.get_ctrl_allocator_ref());
         }
-        if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
+        if (AlwaysSwapAllocator || std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
             swap(this->slot_allocator_, other.get_slot_allocator_ref());
         }
     }
 
+    template <bool AlwaysSwapAllocator = false>
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
-        this->swap_policy(other);
+        this->template swap_policy<AlwaysSwapAllocator>(other);
     }
 };
 
-- 
2.43.0


From 7033ddcd2beb177e01ed3ec29503e7d300fe273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 043/133] fix: robin_hash_map clear crashed on an empty map

---
 src/jstd/hashmap/robin_hash_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index ed52669..2c2bbfe 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3497,7 +3497,7 @@ public:
         if (this->slot_capacity() > kDefaultCapacity) {
             if (need_destroy) {
                 this->destroy_data();
-                this->create_slots<false>(kDefaultCapacity);
+                this->reset<false>();
                 assert(this->slot_size() == 0);
                 return;
             }
@@ -4194,8 +4194,11 @@ private:
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-        this->clear_ctrls(this->ctrls(), this->slot_capacity(),
-                          this->max_lookups(), this->group_count());
+        // The default empty ctrls is shared and read only.
+        if (this->ctrls() != this_type::default_empty_ctrls()) {
+            this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                              this->max_lookups(), this->group_count());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 2f2371f81feb816f7b97a44191b75c1fc13d2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 044/133] fix: robin_hash_map reserve left too little room
 after max_load_factor(x)

---
 src/jstd/hashmap/robin_hash_map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 2c2bbfe..9d97c09 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3317,7 +3317,8 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
+        size_type new_slot_threshold = this->calc_slot_threshold(this->slot_capacity());
+        this->slot_threshold_ = new_slot_threshold;
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
@@ -3850,7 +3851,8 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        // Round up, otherwise the slot threshold may be less than init_capacity.
+        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + (kLoadFactorAmplify - 1)) / kLoadFactorAmplify;
         return new_capacity;
     }
 
-- 
2.43.0


From b5c7fb179045274c9c1bee2d98fefdec89b11779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 045/133] fix: robin_hash_map reported the load and the
 capacity of an empty map wrongly and its size as bucket count

---
 src/jstd/hashmap/robin_hash_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 9d97c09..d4fdba2 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3259,7 +3259,7 @@ public:
     bool empty() const { return this->is_empty(); }
 
     size_type size() const { return this->slot_size_; }
-    size_type capacity() const { return (this->slot_mask_ + 1); }
+    size_type capacity() const { return this->slot_capacity(); }
 
     ctrl_type * ctrls() { return this->ctrls_; }
     const ctrl_type * ctrls() const {
@@ -3292,8 +3292,8 @@ public:
         return (this->slot_capacity() + this->max_lookups());
     }
 
-    constexpr size_type bucket_count() const {
-        return this->slot_size_;
+    size_type bucket_count() const {
+        return this->slot_capacity();
     }
 
     size_type bucket(const key_type & key) const {
@@ -3302,7 +3302,7 @@ public:
     }
 
     float load_factor() const {
-        return ((float)this->slot_size() / this->slot_capacity());
+        return ((this->slot_capacity() != 0) ? ((float)this->slot_size() / this->slot_capacity()) : 0.0f);
     }
 
     void max_load_factor(float mlf) {
-- 
2.43.0


From da97b9ef6ba28bf91de415d9bd7c915ac7e50adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 046/133] fix: robin_hash_map was corrupted when allocating its
 arrays failed

---
 src/jstd/hashmap/robin_hash_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index d4fdba2..9c3f2e9 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4356,7 +4356,6 @@ private:
             new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
         else
             new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
-        this->max_lookups_ = new_max_lookups;
 
         size_type new_ctrl_capacity = new_capacity + new_max_lookups;
         size_type new_group_count = (new_ctrl_capacity + (kGroupWidth - 1)) / kGroupWidth;
@@ -4379,7 +4378,13 @@ private:
         this->clear_ctrls(new_ctrls, new_capacity, new_max_lookups, new_group_count);
 
 #if ROBIN_USE_SEPARATE_SLOTS
-        slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        slot_type * new_slots;
+        try {
+            new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        } catch (...) {
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, new_ctrls, ctrl_alloc_size);
+            throw;
+        }
 #else
         slot_type * new_slots = this->AlignedSlots<kSlotAlignment>(new_ctrls, ctrl_alloc_size);
 #endif
-- 
2.43.0


From 68537678f5167403d32af7b9eee7ed326256db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 047/133] fix: robin_hash_map was corrupted when the hasher
 threw during an erase

---
 src/jstd/hashmap/robin_hash_map.h | 53 ++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 9c3f2e9..f22da36 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6532,7 +6532,14 @@ Insert_To_Slot:
         assert(curr_ctrl->isUsed());
 
         this->destroy_slot(curr_slot);
+        this->remove_slot(curr_ctrl, curr_slot);
 
+        assert(this->slot_size_ > 0);
+        this->slot_size_--;
+    }
+
+    // Remove a destroyed (or never constructed) slot.
+    void remove_slot(ctrl_type * curr_ctrl, slot_type * curr_slot) {
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
         slot_type * next_slot = curr_slot + std::ptrdiff_t(1);
 
@@ -6552,20 +6559,16 @@ Insert_To_Slot:
         }
 
         this->setUnusedCtrl(curr_ctrl);
-
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
     }
 
     template <typename KeyT>
     JSTD_FORCED_INLINE
-    ctrl_type * find_ctrl(const KeyT & key, size_type target_slot_index) {
+    ctrl_type * find_ctrl(const KeyT & key, hash_code_t hash_code, size_type target_slot_index) {
         if (!kIsIndirectKV) {
             assert(false);
             return nullptr;
         }
 
-        hash_code_t hash_code = this->get_hash(key);
         size_type ctrl_index = this->index_for_hash(hash_code);
         std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
 
@@ -6587,6 +6590,29 @@ Insert_To_Slot:
         size_type erase_slot_index = curr_ctrl->getIndex();
         assert(curr_ctrl->isUsed());
 
+        // The hasher may throw, call it before anything is changed.
+        size_type last_slot_index = this->slot_size_ - 1;
+        slot_type * last_slot = this->slot_at(last_slot_index);
+        hash_code_t last_hash_code = this->get_hash(last_slot->key);
+
+        this->remove_ctrl(curr_ctrl);
+
+        assert(this->slot_size_ > 0);
+        this->slot_size_--;
+
+        if (erase_slot_index != last_slot_index) {
+            slot_type * erase_slot = this->slot_at(erase_slot_index);
+
+            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_hash_code, last_slot_index);
+            assert(last_key_ctrl != nullptr);
+            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
+
+            this->swap_slot(erase_slot, last_slot);
+        }
+        this->destroy_slot(last_slot);
+    }
+
+    void remove_ctrl(ctrl_type * curr_ctrl) {
         ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
 
@@ -6603,23 +6629,6 @@ Insert_To_Slot:
         }
 
         this->setUnusedCtrl(curr_ctrl);
-
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
-
-        size_type last_slot_index = this->slot_size_;
-        slot_type * last_slot = this->slot_at(last_slot_index);
-
-        if (erase_slot_index != last_slot_index) {
-            slot_type * erase_slot = this->slot_at(erase_slot_index);
-
-            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_slot_index);
-            assert(last_key_ctrl != nullptr);
-            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
-
-            this->swap_slot(erase_slot, last_slot);
-        }
-        this->destroy_slot(last_slot);
     }
 
     // TODO: Optimize this assuming *this and other don't overlap.
-- 
2.43.0


From c3d012c164e356ddaf2c7abf254707d2ff9b4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 048/133] fix: robin_hash_map kept a slot that a throwing
 constructor never filled

---
 src/jstd/hashmap/robin_hash_map.h | 49 ++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f22da36..67562ab 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5888,6 +5888,33 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
+    // Construct the element of a slot which has been inserted just now,
+    // and take back the slot if the constructor throws.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(slot_type * slot, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->remove_new_slot(slot);
+            throw;
+        }
+    }
+
+    JSTD_NO_INLINE
+    void remove_new_slot(slot_type * slot) {
+        size_type slot_index = this->index_of(slot);
+        if (!kIsIndirectKV) {
+            this->remove_slot(this->ctrl_at(slot_index), slot);
+        } else {
+            ctrl_type * ctrl = this->ctrls();
+            while (ctrl->isUnused() || (ctrl->getIndex() != slot_index)) {
+                ctrl++;
+            }
+            this->remove_ctrl(ctrl);
+        }
+    }
+
     template <bool AlwaysUpdate>
     std::pair<iterator, bool> emplace_impl(const actual_value_type & value) {
         auto find_info = this->find_and_insert(value.first);
@@ -5897,7 +5924,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, value);
+            this->construct_new_slot(slot, value);
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5922,7 +5949,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<actual_value_type>(value));
+            this->construct_new_slot(slot, std::forward<actual_value_type>(value));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5961,7 +5988,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
             this->slot_size_++;
@@ -6005,7 +6032,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -6048,7 +6075,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
@@ -6095,7 +6122,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::transfer(&this->allocator_, slot, tmp_slot);
+            this->transfer_slot(slot, tmp_slot);
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -6126,7 +6153,7 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -6147,7 +6174,7 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -6472,7 +6499,7 @@ Insert_To_Slot:
             return;
         }
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, value);
+        this->construct_new_slot(new_slot, value);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -6489,10 +6516,10 @@ Insert_To_Slot:
         }
 
         if (kIsLayoutCompatible) {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot,
+            this->construct_new_slot(new_slot,
                                         std::move(*reinterpret_cast<mutable_value_type *>(&value)));
         } else {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot, std::move(value));
+            this->construct_new_slot(new_slot, std::move(value));
         }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
-- 
2.43.0


From c99529768999384e69ac7f261a0f6a87ff3a0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 049/133] fix: robin_hash_map emplace leaked its temporary
 element when it threw

---
 src/jstd/hashmap/robin_hash_map.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 67562ab..f871091 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6115,7 +6115,13 @@ InsertOrGrow_Start:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_and_insert(tmp_slot->value.first);
+        std::pair<slot_type *, FindResult> find_info;
+        try {
+            find_info = this->find_and_insert(tmp_slot->value.first);
+        } catch (...) {
+            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+            throw;
+        }
         slot_type * slot = find_info.first;
         FindResult is_exists = find_info.second;
         if (is_exists == kIsNotExists) {
@@ -6128,18 +6134,21 @@ InsertOrGrow_Start:
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
             assert(is_exists == kIsExists);
-            if (AlwaysUpdate) {
-                slot->value.second = std::move(tmp_slot->value.second);
+            try {
+                if (AlwaysUpdate) {
+                    slot->value.second = std::move(tmp_slot->value.second);
+                }
+            } catch (...) {
+                SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+                throw;
             }
             SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
             return { this->iterator_at(slot), false };
         } else {
+            // There is always room for the slot, find_and_insert() has grown if necessary.
             assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
+            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+            return { this->end(), false };
         }
     }
 
-- 
2.43.0


From 6e69e4633f023c0e2f779ebd4554acc00cb3aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 050/133] fix: robin_hash_map leaked when a range or list
 constructor threw

---
 src/jstd/hashmap/robin_hash_map.h | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f871091..221a1e3 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3071,15 +3071,9 @@ public:
                    size_type init_capacity = kDefaultCapacity,
                    const hasher & hash = hasher(),
                    const key_equal & equal = key_equal(),
-                   const allocator_type & alloc = allocator_type()) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-        hasher_(hash), key_equal_(equal),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+                   const allocator_type & alloc = allocator_type())
+        // The destructor releases everything if the following insertions throw.
+        : robin_hash_map(size_type(0), hash, equal, alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
@@ -3198,18 +3192,9 @@ public:
                    size_type init_capacity = kDefaultCapacity,
                    const hasher & hash = hasher(),
                    const key_equal & equal = key_equal(),
-                   const allocator_type & alloc = allocator_type()) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-#if ROBIN_USE_HASH_POLICY
-        hash_policy_(),
-#endif
-        hasher_(hash), key_equal_(equal),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+                   const allocator_type & alloc = allocator_type())
+        // The destructor releases everything if the following insertions throw.
+        : robin_hash_map(size_type(0), hash, equal, alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type reserve_capacity = (init_capacity >= init_list.size()) ? init_capacity : init_list.size();
         this->reserve_for_insert(reserve_capacity);
-- 
2.43.0


From 25b8dc67e8e84532ced7a0d02286e9b4c9127c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 051/133] fix: robin_hash_map leaked elements and arrays when a
 rehash threw

---
 src/jstd/hashmap/robin_hash_map.h | 52 ++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 221a1e3..4df06ae 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4421,6 +4421,9 @@ private:
 
             this->create_slots<false>(new_capacity);
 
+            // The first old slot which has not been moved yet.
+            size_type old_slot_index = 0;
+            try {
             if (!kIsIndirectKV) {
                 // kIsIndirectKV = false
                 if (old_slot_capacity >= kGroupWidth) {
@@ -4523,6 +4526,7 @@ private:
                             maskUsed = BitUtils::clearLowBit32(maskUsed);
                             size_type index = group.index(0, pos);
                             slot_type * old_slot = slot_base + index;
+                            old_slot_index = (size_type)(old_slot - old_slots);
                             if (!kNeedStoreHash)
                                 this->insert_no_grow(old_slot);
                             else
@@ -4540,6 +4544,7 @@ private:
                             maskUsed = BitUtils::clearLowBit32(maskUsed);
                             size_type index = group.index(0, pos);
                             slot_type * old_slot = slot_base + index;
+                            old_slot_index = (size_type)(old_slot - old_slots);
                             if (!kNeedStoreHash)
                                 this->insert_no_grow(old_slot);
                             else
@@ -4563,6 +4568,7 @@ private:
                             maskUsed = BitUtils::clearLowBit32(maskUsed);
                             size_type index = group.index(0, pos);
                             slot_type * old_slot = slot_base + index;
+                            old_slot_index = (size_type)(old_slot - old_slots);
                             if (!kNeedStoreHash)
                                 this->insert_no_grow(old_slot);
                             else
@@ -4579,6 +4585,7 @@ private:
                     slot_type * old_slot = old_slots;
                     for (ctrl_type * ctrl = old_ctrls; ctrl != last_ctrl; ctrl++) {
                         if (likely(ctrl->isUsed())) {
+                            old_slot_index = (size_type)(old_slot - old_slots);
                             if (!kNeedStoreHash)
                                 this->insert_no_grow(old_slot);
                             else
@@ -4594,6 +4601,7 @@ private:
                 if (old_ctrls != default_empty_ctrls()) {
                     slot_type * last_slot = old_slots + old_slot_size;
                     for (slot_type * old_slot = old_slots; old_slot != last_slot; old_slot++) {
+                        old_slot_index = (size_type)(old_slot - old_slots);
                         this->indirect_insert_no_grow(old_slot);
                         this->destroy_slot(old_slot);
                     }
@@ -4633,25 +4641,47 @@ private:
 #endif
             }
 
+            } catch (...) {
+                // Drop the old slots which can not be moved any more.
+                if (!kIsIndirectKV) {
+                    for (; old_slot_index < old_max_slot_capacity; old_slot_index++) {
+                        if (old_ctrls[old_slot_index].isUsed())
+                            this->destroy_slot(old_slots + old_slot_index);
+                    }
+                } else {
+                    for (; old_slot_index < old_slot_size; old_slot_index++) {
+                        this->destroy_slot(old_slots + old_slot_index);
+                    }
+                }
+                this->destroy_arrays(old_ctrls, old_slots, old_group_count, old_max_slot_capacity);
+                throw;
+            }
+
             assert(this->slot_size() == old_slot_size);
 
-            if (old_ctrls != this->default_empty_ctrls()) {
-                size_type old_max_ctrl_capacity = (old_group_count + 1) * kGroupWidth;
+            this->destroy_arrays(old_ctrls, old_slots, old_group_count, old_max_slot_capacity);
+        }
+    }
+
+    // Use in rehash_impl()
+    void destroy_arrays(ctrl_type * old_ctrls, slot_type * old_slots,
+                        size_type old_group_count, size_type old_max_slot_capacity) {
+        if (old_ctrls != this_type::default_empty_ctrls()) {
+            size_type old_max_ctrl_capacity = (old_group_count + 1) * kGroupWidth;
 #if ROBIN_USE_SEPARATE_SLOTS
-                CtrlAllocTraits::deallocate(this->ctrl_allocator_, old_ctrls, old_max_ctrl_capacity);
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, old_ctrls, old_max_ctrl_capacity);
 #else
-                size_type total_alloc_size = this->TotalAllocSize<kSlotAlignment>(
-                                                   old_max_ctrl_capacity, old_max_slot_capacity);
-                CtrlAllocTraits::deallocate(this->ctrl_allocator_, old_ctrls, total_alloc_size);
+            size_type total_alloc_size = this->TotalAllocSize<kSlotAlignment>(
+                                               old_max_ctrl_capacity, old_max_slot_capacity);
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, old_ctrls, total_alloc_size);
 #endif
-            }
+        }
 
 #if ROBIN_USE_SEPARATE_SLOTS
-            if (old_slots != nullptr) {
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_max_slot_capacity);
-            }
-#endif
+        if (old_slots != nullptr) {
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_max_slot_capacity);
         }
+#endif
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 4c410b31cd4dfa27d5baf024c0f10833c17770ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 052/133] fix: robin_hash_map constructed over a live element
 when it displaced large elements of a direct layout

---
 src/jstd/hashmap/robin_hash_map.h | 52 ++-----------------------------
 1 file changed, 3 insertions(+), 49 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 4df06ae..3812a0a 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5771,14 +5771,13 @@ InsertOrGrow_Start:
 #endif
         target++;
 
-        // Initialize the empty slot use default constructor if necessary
-        this->construct_empty_slot(empty);
+        // The empty slot holds no element: it is filled and vacated by transfers only.
+        this->placement_new_slot(empty);
 
         slot_type * last_slot = this->last_slot();
         while (target < last_slot) {
             if (ctrl->isEmpty()) {
                 this->emplace_rich_slot(ctrl, target, insert, rich_ctrl);
-                this->destroy_empty_slot(empty);
                 return kIsNotExists;
             } else if (rich_ctrl.dist > ctrl->dist) {
                 std::swap(rich_ctrl.value, ctrl->value);
@@ -5802,14 +5801,12 @@ InsertOrGrow_Start:
             } else {
                 if (rich_ctrl.uvalue >= this->max_distance()) {
                     this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-                    this->destroy_empty_slot(empty);
-                    return kNeedGrow;
+                        return kNeedGrow;
                 }
             }
         }
 
         this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-        this->destroy_empty_slot(empty);
         return kNeedGrow;
     }
 
@@ -5858,49 +5855,6 @@ InsertOrGrow_Start:
         this->transfer_slot(slot, insert);
     }
 
-    JSTD_FORCED_INLINE
-    void construct_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            }
-        }
-
-        // If we don't called construct_slot(empty), then use placement new.
-        this->placement_new_slot(empty);
-    }
-
-    JSTD_FORCED_INLINE
-    void destroy_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            }
-        }
-    }
-
     ////////////////////////////////////////////////////////////////////////////////////////////
 
     // Construct the element of a slot which has been inserted just now,
-- 
2.43.0


From 70fb0b2ec6221a0afbd60823000645629f08922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 053/133] fix: group15_flat_map insert of a convertible pair
 did not compile

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index fa0296a..6947e36 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2529,7 +2529,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         auto find_info = this->find_or_insert(value.first);
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
@@ -2540,15 +2539,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = value.second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { locator, need_insert };
-- 
2.43.0


From 92758760baeb29f6b12c19564a4b8e28caa8ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 054/133] fix: group16_flat_map insert of a convertible pair
 did not compile

---
 src/jstd/hashmap/group16_flat_table.hpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 168e844..9c7630c 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2351,7 +2351,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         auto find_info = this->find_or_insert(value.first);
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
@@ -2362,15 +2361,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = value.second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { this->iterator_at(slot_index), need_insert };
-- 
2.43.0


From 7e7c786c0d36b7dc4a1c78c5ac6417aeabdddbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 055/133] fix: robin_hash_map insert of an rvalue pair with a
 move-only mapped type did not compile

---
 src/jstd/hashmap/robin_hash_map.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 3812a0a..d7c947f 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5925,11 +5925,7 @@ InsertOrGrow_Start:
             // The key to be inserted already exists.
             assert(is_exists == kIsExists);
             if (AlwaysUpdate) {
-                static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
-                if (is_rvalue_ref)
-                    slot->value.second = std::move(value.second);
-                else
-                    slot->value.second = value.second;
+                slot->value.second = std::move(value.second);
             }
             return { this->iterator_at(slot), false };
         } else {
-- 
2.43.0


From b69d44876205bdfa69ac3250c35da2c45b075e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 056/133] fix: robin_hash_map kept moved-from elements in the
 source of a move which threw

---
 src/jstd/hashmap/robin_hash_map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index d7c947f..6f16c1f 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3181,6 +3181,9 @@ public:
                 }
             } catch (...) {
                 this->destroy();
+                // Some of the elements have been moved from.
+                other.destroy_data();
+                other.template reset<false>();
                 throw;
             }
             other.destroy_data();
-- 
2.43.0


From 66c6489a364a6bed148e46086c6034f78990de4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 057/133] fix: string_view ordering operators disagreed with
 compare

<= and >= were exchanged and never true for equal views, and < and >
compared the result of memcmp with exactly -1 and 1.
---
 src/jstd/string/string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index f565c38..ac2c7c3 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -523,19 +523,19 @@ public:
     }
 
     friend inline bool operator < (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) < 0);
     }
 
     friend inline bool operator <= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) <= 0);
     }
 
     friend inline bool operator > (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) > 0);
     }
 
     friend inline bool operator >= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) >= 0);
     }
 
 private:
-- 
2.43.0


From 86433e07b01bba4f25b0b39b4a25cc16bfa9d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 058/133] fix: string_view output stopped at an embedded zero

---
 src/jstd/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index ac2c7c3..b5a3c03 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -506,7 +506,7 @@ public:
 
     friend inline ostream_type & operator << (ostream_type & out, const this_type & view) {
         string_type text(view.data(), view.size());
-        out << text.c_str();
+        out << text;
         return out;
     }
 
-- 
2.43.0


From 10af75f40077549683d75b7cf90ad715401064ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 059/133] fix: string_view partial comparisons ignored the
 lengths and position arguments overflowed

compare(str) and is_equal(str) read past the view or did not compile,
compare(pos, count, sv) and is_equal(pos, count, sv) ignored both sizes,
the overloads with a char pointer and the non-const at() did not compile,
and substr and copy overflowed pos + count.
---
 src/jstd/string/string_view.h | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index b5a3c03..c77a8a7 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -309,7 +309,7 @@ public:
 
     reference at(size_type pos) {
         if (pos < this->size())
-            return this->data_[pos];
+            return const_cast<char_type *>(this->data_)[pos];
         else
             throw std::out_of_range("basic_string_view<T>::at(pos): out of range.");
     }
@@ -327,7 +327,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "copy(dest, count, pos): pos out_of_range.");
         }
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         return Traits::copy(dest, this->data() + pos, rcount);
     }
 
@@ -339,7 +339,7 @@ public:
         }
         size_type rcount;
         if (likely(count != npos))
-            rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+            rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         else
             rcount = this->size() - pos;
         return this_type(this->data() + pos, rcount);
@@ -349,7 +349,7 @@ public:
     // is_equal(rhs)
     //
     bool is_equal(const char_type * str) const {
-        return Traits::is_equal(this->data(), str);
+        return this->is_equal(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     bool is_equal(const char_type * s1, const char_type * s2, size_type count) const noexcept {
@@ -373,8 +373,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->is_equal(s1, sv.data(), count);
+        return this->is_equal(s1, rcount, sv.data(), sv.size());
     }
 
     bool is_equal(size_type pos, size_type count,
@@ -383,8 +384,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->is_equal(s1, rcount, str, len2);
     }
@@ -399,8 +400,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->is_equal(s1, rcount1, s2, rcount2);
@@ -413,8 +414,8 @@ public:
                     "is_equal(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
         constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
@@ -425,7 +426,7 @@ public:
     // compare(rhs)
     //
     int compare(const char_type * str) const noexcept {
-        return Traits::compare(this->data(), str);
+        return this->compare(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     int compare(const char_type * s1,
@@ -452,8 +453,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->compare(s1, sv.data(), count);
+        return this->compare(s1, rcount, sv.data(), sv.size());
     }
 
     int compare(size_type pos, size_type count, const char_type * str) const {
@@ -461,8 +463,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->compare(s1, rcount, str, len2);
     }
@@ -477,8 +479,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->compare(s1, rcount1, s2, rcount2);
@@ -491,8 +493,8 @@ public:
                     "compare(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
         constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
-- 
2.43.0


From 2c09865f04eb6cc280d22f3e126a8ea929bea31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 060/133] fix: stl::StrEqual of two lengths returned nothing

---
 src/jstd/string/string_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index ed17d13..2d363be 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -71,7 +71,7 @@ bool StrEqual(const CharTy * str1, std::size_t len1, const CharTy * str2, std::s
     }
     else {
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
-            StrEqual(str1, str2, len1);
+            return StrEqual(str1, str2, len1);
         }
         else {
             // The str1 and str2 is a same string.
-- 
2.43.0


From 84f4f4d4dbd428eeea8f8dbc7741c4de05891b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 061/133] fix: stl::StrCmp ordered wide strings by the bytes of
 their characters

---
 src/jstd/string/string_stl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index 2d363be..1f0d07e 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -145,6 +145,10 @@ inline
 int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
+    if (sizeof(CharTy) != sizeof(char)) {
+        // The byte order of a word isn't the order of its value on little-endian.
+        return libc::StrCmp(str1, str2, count);
+    }
     return std::memcmp((const void *)str1, (const void *)str2, count * sizeof(CharTy));
 }
 
-- 
2.43.0


From 541d3da801005234efdb62ecb9bb9226e6a91b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 062/133] fix: libc::StrEqual and StrCmp of a count stopped at
 an embedded zero

---
 src/jstd/string/string_libc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_libc.h b/src/jstd/string/string_libc.h
index 37f4f81..af1257e 100644
--- a/src/jstd/string/string_libc.h
+++ b/src/jstd/string/string_libc.h
@@ -126,7 +126,7 @@ inline
 bool StrEqual(const char * str1, const char * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::strncmp(str1, str2, count) == 0);
+    return (std::memcmp(str1, str2, count) == 0);
 }
 
 template <>
@@ -134,7 +134,7 @@ inline
 bool StrEqual(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::wcsncmp(str1, str2, count) == 0);
+    return (std::wmemcmp(str1, str2, count) == 0);
 }
 
 template <typename CharTy>
@@ -271,13 +271,13 @@ int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
 template <>
 inline
 int StrCmp(const char * str1, const char * str2, std::size_t count) {
-    return std::strncmp(str1, str2, count);
+    return std::memcmp(str1, str2, count);
 }
 
 template <>
 inline
 int StrCmp(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
-    return std::wcsncmp(str1, str2, count);
+    return std::wmemcmp(str1, str2, count);
 }
 
 template <typename CharTy>
-- 
2.43.0


From 8e08c4171852b57c64708cdebfd5d2f1a5ac7647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 063/133] fix: string_utils SSE4.2 comparison read past the
 strings and skipped wide characters

The last block was loaded as a whole, a 32-bit wchar_t was compared as if
it had 16 bits (half of the characters were skipped) and lengths were
truncated to int.
---
 src/jstd/string/string_utils.h | 62 +++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index a550915..00c444a 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -135,6 +135,29 @@ wchar_t * str_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 #pragma GCC diagnostic pop
 #endif
 
+////////////////////////////////// load_block() ////////////////////////////////////
+
+#if defined(__SSE4_2__)
+
+//
+// Load the next (len) characters, never read beyond the last one.
+//
+template <typename CharTy>
+static inline
+__m128i load_block(const CharTy * str, int len)
+{
+    if (likely(len * sizeof(CharTy) >= sizeof(__m128i))) {
+        return _mm_loadu_si128((const __m128i *)str);
+    }
+    else {
+        __m128i block = _mm_setzero_si128();
+        std::memcpy((void *)&block, (const void *)str, len * sizeof(CharTy));
+        return block;
+    }
+}
+
+#endif // __SSE4_2__
+
 ////////////////////////////////// is_equal() //////////////////////////////////////
 
 #if 0
@@ -184,17 +207,22 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
 {
     assert(str1 != nullptr && str2 != nullptr);
 
+    if (sizeof(CharTy) > sizeof(uint16_t)) {
+        // There is no string instruction for 32-bit characters.
+        return libc::StrEqual(str1, str2, length);
+    }
+
     static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
 
-    int slength = (int)length;
+    std::ptrdiff_t slength = (std::ptrdiff_t)length;
     while (likely(slength > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slength >= kMaxSize) ? kMaxSize : slength;
+        int len = (slength >= kMaxSize) ? kMaxSize : (int)slength;
         assert(len > 0);
+        __m128i __str1 = load_block(str1, len);
+        __m128i __str2 = load_block(str2, len);
 
         int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
         str1 += kMaxSize;
@@ -422,6 +450,11 @@ int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
     assert(str1 != nullptr);
     assert(str2 != nullptr);
 
+    if (sizeof(CharTy) > sizeof(uint16_t)) {
+        // There is no string instruction for 32-bit characters.
+        return libc::StrCmp(str1, str2, count);
+    }
+
     static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
@@ -429,13 +462,13 @@ int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    int slen = (int)count;
+    std::ptrdiff_t slen = (std::ptrdiff_t)count;
 
     while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
+        int len = (slen >= kMaxSize) ? kMaxSize : (int)slen;
         assert(len > 0);
+        __m128i __str1 = load_block(str1, len);
+        __m128i __str2 = load_block(str2, len);
 
         int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
         int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
@@ -485,6 +518,11 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     assert(str1 != nullptr);
     assert(str2 != nullptr);
 
+    if (sizeof(CharTy) > sizeof(uint16_t)) {
+        // There is no string instruction for 32-bit characters.
+        return libc::StrCmp(str1, len1, str2, len2);
+    }
+
     static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
@@ -493,13 +531,13 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
     std::size_t count = (len1 <= len2) ? len1 : len2;
-    int slen = (int)count;
+    std::ptrdiff_t slen = (std::ptrdiff_t)count;
 
     while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
+        int len = (slen >= kMaxSize) ? kMaxSize : (int)slen;
         assert(len > 0);
+        __m128i __str1 = load_block(str1, len);
+        __m128i __str2 = load_block(str2, len);
 
         int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
         int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
-- 
2.43.0


From 6e11072bc7808a79ceac235dd08938df761c0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 064/133] fix: string_utils 64-bit comparison read past the
 strings and skipped wide characters

---
 src/jstd/string/string_utils.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index 00c444a..45bc703 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -251,7 +251,9 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
     assert(str1 != nullptr && str2 != nullptr);
 
     static const std::size_t kMaxSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne64 = 0xFFFFFFFFFFFFFFFFULL;
+
+    // The length in bytes.
+    length *= sizeof(CharTy);
 
     uint64_t * __str1 = (uint64_t * )str1;
     uint64_t * __str2 = (uint64_t * )str2;
@@ -275,17 +277,13 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
             }
         }
         else {
-            // Get the mask64
             assert(length > 0 && length < kMaxSize);
-            uint32_t rest = (uint32_t)(kMaxSize - length);
-            assert(rest > 0 && rest < (uint32_t)kMaxSize);
-            uint64_t mask64 = kMaskOne64 >> (rest * 8U);
 
             // Compare the remain bytes.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            val64_1 &= mask64;
-            val64_2 &= mask64;
+            uint64_t val64_1 = 0;
+            uint64_t val64_2 = 0;
+            std::memcpy((void *)&val64_1, (const void *)__str1, length);
+            std::memcpy((void *)&val64_2, (const void *)__str2, length);
             if (likely(val64_1 == val64_2)) {
                 // Full matched, return true.
                 return true;
-- 
2.43.0


From 48cef8034a33ef0ace15d172e21edaa3b4921ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 065/133] fix: string_view without data did not equal an empty
 string_view

---
 src/jstd/string/string_utils.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index 45bc703..26528f2 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -410,6 +410,10 @@ bool is_equal_safe(const CharTy * str1, std::size_t len1, const CharTy * str2, s
         return false;
     }
     else {
+        if (unlikely(len1 == 0)) {
+            // All empty strings are equal, with or without an address.
+            return true;
+        }
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
             return str_utils::is_equal_safe(str1, str2, len1);
         }
@@ -633,7 +637,6 @@ template <typename CharTy>
 static inline
 int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t count)
 {
-    assert(str1 != str2);
     if (likely(str1 != nullptr)) {
         if (likely(str2 != nullptr)) {
             return str_utils::compare(str1, str2, count);
@@ -642,8 +645,8 @@ int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t coun
             return CompareResult::IsBigger;
         }
     } else {
-        assert(str1 == nullptr && str2 != nullptr);
-        return CompareResult::IsSmaller;
+        assert(str1 == nullptr);
+        return ((str2 != nullptr) ? CompareResult::IsSmaller : CompareResult::IsEqual);
     }
 }
 
@@ -665,7 +668,7 @@ int compare_safe(const CharTy * str1, std::size_t len1, const CharTy * str2, std
 {
     if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
         std::size_t count = (len1 <= len2) ? len1 : len2;
-        int result = str_utils::compare_safe_impl(str1, str2, count);
+        int result = (likely(count != 0)) ? str_utils::compare_safe_impl(str1, str2, count) : 0;
         if (likely(result != CompareResult::IsEqual)) {
             return result;
         } else {
-- 
2.43.0


From 66d1c1be43c445c57ea6bae4232d908862914a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 066/133] fix: string_view copy returned 0, stopped at an
 embedded zero and overran wide buffers

---
 src/jstd/string/string_traits.h | 5 ++---
 src/jstd/string/string_utils.h  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 8adf27f..1143f39 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -28,9 +28,8 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        char_type * result =  str_utils::str_copy(dest, src, count);
-        assert(result >= dest);
-        return size_type(result - dest);
+        str_utils::mem_copy(dest, src, count);
+        return count;
     }
 
     static bool is_equal(const char_type * s1, const char_type * s2) {
diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index 26528f2..8db7c41 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -94,7 +94,7 @@ char * mem_copy(char * dest, const char * src, std::size_t count)
 static inline
 wchar_t * mem_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 {
-    return std::wmemcpy(dest, src, count * sizeof(wchar_t));
+    return std::wmemcpy(dest, src, count);
 }
 
 ////////////////////////////////// str_copy() //////////////////////////////////////
-- 
2.43.0


From aedd6b1ae326516257a83f4136fd13b563fda3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 067/133] fix: string_view iterators returned a dangling
 reference from post-increment

---
 src/jstd/string/string_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_iterator.h b/src/jstd/string/string_iterator.h
index 2578be9..6e28dce 100644
--- a/src/jstd/string/string_iterator.h
+++ b/src/jstd/string/string_iterator.h
@@ -69,7 +69,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -82,7 +82,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
@@ -223,7 +223,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -236,7 +236,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
-- 
2.43.0


From 7468cd3a641a2492531addfd99fc2c375a062f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 068/133] fix: MT19937 srand lost the last value of the first
 generation

next_state() leaves room for N - 1 values only when it isn't called by
rand(), so every sequence started by srand() left the reference after
N - 1 values.
---
 src/jstd/system/MT19937_32.h | 6 +++---
 src/jstd/system/MT19937_64.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 466b3bb..b865f28 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 57256a7..065ee7e 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
-- 
2.43.0


From fd302aca24ef03d9e88f2c1878b9379e6277d437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 069/133] fix: MT19937_64 used shifts, masks and multipliers of
 the 32-bit generator

---
 src/jstd/system/MT19937_64.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 065ee7e..2227635 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -180,7 +180,7 @@ private:
         }
         this->state[0] = initSeed;
         for (size_type j = 1; j < N; ++j) {
-            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 30)) + (value_type)j);
+            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 62)) + (value_type)j);
             // See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier.
             // In the previous versions, MSBs of the seed affect
             // only MSBs of the array state[].
@@ -209,8 +209,8 @@ private:
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1664525ul)) + init_key[j] + (value_type)j;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 3935559000370003845ull)) + init_key[j] + (value_type)j;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             ++j;
@@ -224,8 +224,8 @@ private:
 
         for (k = N - 1; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1566083941ul)) - (value_type)i;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 2862933555777941757ull)) - (value_type)i;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             if (i >= N) {
@@ -254,7 +254,7 @@ private:
     }
 
     value_type mixbits(value_type u, value_type v) const {
-        return (u & 0x8000000000000000ull) | (v & 0x7FFFFFFFFFFFFFFFull);
+        return (u & 0xFFFFFFFF80000000ull) | (v & 0x000000007FFFFFFFull);
     }
 
     value_type twist(value_type u, value_type v) const {
-- 
2.43.0


From 1a4a6f346258d8982720cbda8a2d98345c833429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 070/133] fix: MT19937 copies kept a pointer into the state of
 the original

---
 src/jstd/system/MT19937_32.h | 16 ++++++++++++++++
 src/jstd/system/MT19937_64.h | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index b865f28..04733bc 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -165,8 +165,24 @@ public:
         this->init(init_key, initSeed);
     }
 
+    MT19937_32(const MT19937_32 & src) : next(nullptr), left(1) {
+        *this = src;
+    }
+
     ~MT19937_32() {}
 
+    MT19937_32 & operator = (const MT19937_32 & rhs) {
+        if (this != &rhs) {
+            for (size_type i = 0; i < N; ++i) {
+                this->state[i] = rhs.state[i];
+            }
+            this->left = rhs.left;
+            // The next pointer must point to our own state.
+            this->next = (rhs.next != nullptr) ? (this->state + (rhs.next - rhs.state)) : nullptr;
+        }
+        return *this;
+    }
+
     value_type rand_max() const {
         return static_cast<value_type>(kMTRandMax);
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 2227635..1396f0c 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -165,8 +165,24 @@ public:
         this->init(init_key, initSeed);
     }
 
+    MT19937_64(const MT19937_64 & src) : next(nullptr), left(1) {
+        *this = src;
+    }
+
     ~MT19937_64() {}
 
+    MT19937_64 & operator = (const MT19937_64 & rhs) {
+        if (this != &rhs) {
+            for (size_type i = 0; i < N; ++i) {
+                this->state[i] = rhs.state[i];
+            }
+            this->left = rhs.left;
+            // The next pointer must point to our own state.
+            this->next = (rhs.next != nullptr) ? (this->state + (rhs.next - rhs.state)) : nullptr;
+        }
+        return *this;
+    }
+
     value_type rand_max() const {
         return static_cast<value_type>(kMTRandMax);
     }
-- 
2.43.0


From 0391651c57cff8eba67983792f3ba88ab1ed63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 071/133] fix: RandomGen divided by zero when the range was the
 whole type

---
 src/jstd/system/RandomGen.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 7101494..0ca6e46 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -239,17 +239,15 @@ private:
 
     template <typename ValueType, typename UnsignedType = ValueType>
     static ValueType nextInteger(ValueType minValue, ValueType maxValue) {
-        ValueType result;
-        if (minValue <= maxValue) {
-            result = minValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(maxValue - minValue + 1));
+        UnsignedType low   = static_cast<UnsignedType>((minValue <= maxValue) ? minValue : maxValue);
+        UnsignedType high  = static_cast<UnsignedType>((minValue <= maxValue) ? maxValue : minValue);
+        UnsignedType value = static_cast<UnsignedType>(this_type::template nextInteger<ValueType>());
+        // The number of values, it's 0 if the range is all values of the type.
+        UnsignedType count = static_cast<UnsignedType>(high - low + 1);
+        if (count != 0) {
+            value = static_cast<UnsignedType>(value % count);
         }
-        else {
-            assert(minValue > maxValue);
-            result = maxValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(minValue - maxValue + 1));
-        }
-        return result;
+        return static_cast<ValueType>(low + value);
     }
 
     template <typename ValueType, typename UnsignedType = ValueType>
-- 
2.43.0


From a85e5b74cf1bce7a41dfd3b8046950298c78161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 072/133] fix: RandomGen nextInt(maxValue) left the range when
 maxValue was negative

---
 src/jstd/system/RandomGen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 0ca6e46..6542d72 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -160,7 +160,7 @@ public:
     }
 
     static std::intptr_t nextInt(std::intptr_t maxValue) {
-        return this_type::nextUInt(0, maxValue);
+        return this_type::nextInt(0, maxValue);
     }
 
     static std::size_t nextUInt(std::size_t minValue, std::size_t maxValue) {
-- 
2.43.0


From ff720e015fc71c2aaad196b8ede6b1f260a8bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 073/133] fix: MT19937 read behind its state when it generated
 the next state

The second half of the recurrence uses the value of M - N places before,
not of N - M places behind.
---
 src/jstd/system/MT19937_32.h | 4 ++--
 src/jstd/system/MT19937_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 04733bc..c7a680c 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -261,10 +261,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 1396f0c..8a123d0 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -261,10 +261,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
-- 
2.43.0


From c16f97c2cfe8932a7f35527ac7aa0b0b24634eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 074/133] fix: robin_hash_map silently ignored capacity
 requests whose arithmetic overflowed

reserve(), rehash() and the constructors now report std::length_error.
---
 src/jstd/hashmap/robin_hash_map.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 6f16c1f..48801ec 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3812,8 +3812,15 @@ private:
             return reinterpret_cast<ctrl_type *>(const_cast<ctrl_data<void, true, true> *>(&s_empty_ctrls11[0]));
     }
 
+    // The largest capacity whose memory size can still be calculated.
+    static constexpr size_type max_capacity() noexcept {
+        return ((std::numeric_limits<size_type>::max)() / 16 / (sizeof(slot_type) + 2));
+    }
+
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
+        if (unlikely(init_capacity > this_type::max_capacity()))
+            throw std::length_error("jstd::robin_hash_map: the capacity is too large.");
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
@@ -3840,7 +3847,11 @@ private:
 
     size_type min_require_capacity(size_type init_capacity) const {
         // Round up, otherwise the slot threshold may be less than init_capacity.
-        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + (kLoadFactorAmplify - 1)) / kLoadFactorAmplify;
+        // Too large, calc_capacity() reports it.
+        if (unlikely(init_capacity > this_type::max_capacity()))
+            return init_capacity;
+        size_type new_capacity = (init_capacity / kLoadFactorAmplify) * this->integral_mlf_rev() +
+            ((init_capacity % kLoadFactorAmplify) * this->integral_mlf_rev() + (kLoadFactorAmplify - 1)) / kLoadFactorAmplify;
         return new_capacity;
     }
 
-- 
2.43.0


From f37c47d1c6ae4a9e1b45681127539335031de2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 075/133] fix: group15_flat_map silently ignored capacity
 requests whose arithmetic overflowed

reserve(), rehash() and the constructors now report std::length_error.
---
 src/jstd/hashmap/group15_flat_table.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 6947e36..d6d7451 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -63,6 +63,7 @@
 #include <type_traits>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
+#include <stdexcept>        // For std::length_error
 
 #include <assert.h>
 
@@ -1223,8 +1224,15 @@ private:
         return reinterpret_cast<ctrl_type *>(this_type::default_empty_groups());
     }
 
+    // The largest capacity whose memory size can still be calculated.
+    static constexpr size_type max_capacity() noexcept {
+        return ((std::numeric_limits<size_type>::max)() / 16 / (sizeof(slot_type) + 2));
+    }
+
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
+        if (JSTD_UNLIKELY(init_capacity > this_type::max_capacity()))
+            throw std::length_error("jstd::group15_flat_map: the capacity is too large.");
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
         // Every group has only kGroupSize slots, and the last slot is the sentinel.
                   new_capacity = (std::max)(new_capacity, (this->slot_size() / kGroupSize + 1) * kGroupWidth);
@@ -1313,7 +1321,11 @@ private:
         // The threshold of the new capacity must not be less than init_capacity.
         if (init_capacity <= this_type::calc_slot_capacity(kMinCapacity / kGroupWidth))
             return init_capacity;
-        size_type new_slot_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
+        // Too large, calc_capacity() reports it.
+        if (JSTD_UNLIKELY(init_capacity > this_type::max_capacity()))
+            return init_capacity;
+        size_type new_slot_capacity = (init_capacity / this->mlf_) * kLoadFactorAmplify +
+            ((init_capacity % this->mlf_) * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return (new_slot_capacity / kGroupSize + 1) * kGroupWidth;
     }
 
-- 
2.43.0


From 6671144f137501aed84b6f5d3552b42e15bf7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 076/133] fix: group16_flat_map silently ignored capacity
 requests whose arithmetic overflowed

reserve(), rehash() and the constructors now report std::length_error.
---
 src/jstd/hashmap/group16_flat_table.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9c7630c..0316cf6 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -63,6 +63,7 @@
 #include <type_traits>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
+#include <stdexcept>        // For std::length_error
 
 #include <assert.h>
 
@@ -1167,8 +1168,15 @@ private:
         return reinterpret_cast<ctrl_type *>(this_type::default_empty_groups());
     }
 
+    // The largest capacity whose memory size can still be calculated.
+    static constexpr size_type max_capacity() noexcept {
+        return ((std::numeric_limits<size_type>::max)() / 16 / (sizeof(slot_type) + 2));
+    }
+
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
+        if (JSTD_UNLIKELY(init_capacity > this_type::max_capacity()))
+            throw std::length_error("jstd::group16_flat_map: the capacity is too large.");
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
                   new_capacity = (std::max)(new_capacity, this->slot_size());
         if (!run_time::is_pow2(new_capacity)) {
@@ -1231,7 +1239,11 @@ private:
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
         // Round up, so that the threshold of the new capacity is never less than init_capacity.
-        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
+        // Too large, calc_capacity() reports it.
+        if (JSTD_UNLIKELY(init_capacity > this_type::max_capacity()))
+            return init_capacity;
+        size_type new_capacity = (init_capacity / this->mlf_) * kLoadFactorAmplify +
+            ((init_capacity % this->mlf_) * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
 
-- 
2.43.0


From 4e60b169c903a359ce28bce006ea06311288bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 077/133] fix: CRC32C string hashes read behind the data

The tail is now copied to a zero word, the hash values are unchanged.
---
 src/jstd/hasher/hash_crc32.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index a3aff9e..3facdfb 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -102,7 +102,6 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint32_t);
-    static const uint32_t kMaskOne = 0xFFFFFFFFUL;
     const char * data_end = data + length;
 
     uint32_t crc32 = ~uint32_t(0);
@@ -121,11 +120,9 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint32_t data32 = *(uint32_t *)(data);
-                uint32_t rest = (uint32_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (uint32_t)kStepSize);
-                uint32_t mask = kMaskOne >> (rest * 8U);
-                data32 &= mask;
+                // Don't read behind the data, the high bytes are zero.
+                uint32_t data32 = 0;
+                std::memcpy((void *)&data32, (const void *)data, (size_t)remain);
                 crc32 = _mm_crc32_u32(crc32, data32);
             }
             break;
@@ -142,7 +139,6 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne = 0xFFFFFFFFFFFFFFFFULL;
     const char * data_end = data + length;
 
     uint64_t crc64 = ~uint64_t(0);
@@ -161,11 +157,9 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint64_t data64 = *(uint64_t *)(data);
-                size_t rest = (size_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (size_t)kStepSize);
-                uint64_t mask = kMaskOne >> (rest * 8U);
-                data64 &= mask;
+                // Don't read behind the data, the high bytes are zero.
+                uint64_t data64 = 0;
+                std::memcpy((void *)&data64, (const void *)data, (size_t)remain);
                 crc64 = _mm_crc32_u64(crc64, data64);
             }
             break;
-- 
2.43.0


From 59bf17e1ded5bd3c51bf84bc3efd25984fdf56fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 078/133] fix: HashUtils primaryHash read behind the data

The tail is now copied to a zero word, the hash values are unchanged.
---
 src/jstd/hasher/hashes.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index e4eecce..ccc9ae2 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -1143,10 +1143,9 @@ public:
         hash_type remain = (hash_type)(end - data);
         if (remain == 0)
             return hash;
-        // Filter the extra bits
-        hash_type val = *(hash_type *)data;
-        static const hash_type val_mask = (hash_type)(-1);
-        val &= (val_mask >> ((sizeof(hash_type) - remain) * 8));
+        // Don't read behind the data
+        hash_type val = 0;
+        ::memcpy((void *)&val, (const void *)data, (std::size_t)remain);
         hash += val;
         hash *= m;
         hash ^= (hash >> half_bits);
@@ -1319,10 +1318,9 @@ public:
             hash_type remain = (hash_type)(end - data);
             if (remain == 0)
                 return hash;
-            // Filter the extra bits
-            hash_type val = *(hash_type *)data;
-            static const hash_type val_mask = (hash_type)(-1);
-            val &= (val_mask >> ((sizeof(hash_type) - remain) * 8));
+            // Don't read behind the data
+            hash_type val = 0;
+            ::memcpy((void *)&val, (const void *)data, (std::size_t)remain);
             hash += val;
             hash *= m;
             hash ^= (hash >> half_bits);
-- 
2.43.0


From 196c654c94243168df648d5593f9663aa195ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 079/133] fix: BKDR hashes of wide strings read behind the data

The length was scaled to bytes, but the data was walked by characters.
---
 src/jstd/hasher/hashes.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index ccc9ae2..586ecac 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -309,7 +309,8 @@ static std::uint32_t BKDRHash(const CharTy * key, std::size_t len)
     static const std::uint32_t seed_3 = seed_2 * seed;
     static const std::uint32_t seed_4 = seed_2 * seed_2;
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    // The length of the data is in bytes.
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
@@ -346,7 +347,8 @@ static std::uint32_t BKDRHash_31(const CharTy * key, std::size_t len)
     static const std::uint32_t seed_3 = seed_2 * seed;
     static const std::uint32_t seed_4 = seed_2 * seed_2;
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    // The length of the data is in bytes.
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
@@ -380,7 +382,8 @@ static std::uint32_t BKDRHash_31_std(const CharTy * key, std::size_t len)
 {
     static const std::uint32_t seed = 31U;   // 31, 33, 131, 1313, 13131, 131313, etc ...
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    // The length of the data is in bytes.
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
-- 
2.43.0


From 5d61a24870f4ea9c0ec89102893e8842bf0e39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 080/133] fix: BitUtils portable 64-bit popcount ignored the
 high word

---
 src/jstd/support/BitUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 67480a9..d7d526f 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -86,9 +86,9 @@ namespace BitUtils {
     static inline
     unsigned int __internal_popcnt64(uint64_t x) {
     #if 1
-        x -=  ((x >> 1U) & 0x55555555U);
-        x  = (((x >> 2U) & 0x33333333U) + (x & 0x33333333U));
-        x  = (((x >> 4U) + x) & 0x0F0F0F0FU);
+        x -=  ((x >> 1U) & 0x5555555555555555ULL);
+        x  = (((x >> 2U) & 0x3333333333333333ULL) + (x & 0x3333333333333333ULL));
+        x  = (((x >> 4U) + x) & 0x0F0F0F0F0F0F0F0FULL);
         x +=   (x >> 8U);
         x +=   (x >> 16U);
         x +=   (x >> 32U);
-- 
2.43.0


From d1b2440c034066d4f66508a94165432cea5da6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 081/133] fix: BitUtils log2 of 1 was 1

---
 src/jstd/support/BitUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index d7d526f..a00a2d4 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -523,11 +523,11 @@ namespace BitUtils {
     // log2_int()
     //
     static inline uint32_t log2_32(uint32_t n) {
-        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : n;
+        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : 0;
     }
 
     static inline uint64_t log2_64(uint64_t n) {
-        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : n;
+        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : 0;
     }
 
     static inline size_t log2_int(size_t n) {
-- 
2.43.0


From a570767ebb1dafc3a8025954c4e45b0860ea8337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 082/133] fix: run_time round_up and next_pow2 overflowed for
 64-bit numbers

They now return the maximum like the narrower types and the compile-time
versions.
---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..6d51bd9 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -263,7 +263,7 @@ round_up(SizeType N)
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1))) {
         if ((n > 1) || (Min_n > 1)) {
             assert(signed_type(n - 1) > 0);
             std::uint32_t ms1b = bitScanReverse(n - 1);
@@ -298,7 +298,7 @@ next_pow2(SizeType N)
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if ((n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1))) {
         if ((n > 0) || (Min_n > 0)) {
             assert(n > 0);
             std::uint32_t ms1b = bitScanReverse(n);
-- 
2.43.0


From 479e79298adb6d4e8d868efb5ca65e3fc993e8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 083/133] fix: run_time log2_int of narrow numbers above half
 the range was the maximum

---
 src/jstd/support/Power2.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 6d51bd9..d85a1e8 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -332,21 +332,13 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
-        if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
-            std::uint32_t ms1b = bitScanReverse(n - 1);
-            return return_type(ms1b + 1);
-        } else {
-            return return_type(0);
-        }
-    }
-    else {
-        return (return_type)(std::numeric_limits<unsigned_type>::max)();
+    if ((n > 1) || (Min_n > 1)) {
+        assert(unsigned_type(n - 1) > 0);
+        std::uint32_t ms1b = bitScanReverse(unsigned_type(n - 1));
+        return return_type(ms1b + 1);
+    } else {
+        return return_type(0);
     }
 }
 
-- 
2.43.0


From 436b34d1a6c7f9baa71327787365f29b3e26a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 084/133] fix: compile_time countTrailingZeros was wrong except
 for powers of 2

---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index d85a1e8..93b8774 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -794,8 +794,8 @@ COUNT_TRAILING_ZEROS_IMPL(0);
 
 template <std::size_t N>
 struct countTrailingZeros {
-    static constexpr std::size_t round_up_2 = is_pow2<N>::value ? N : round_up_pow2<N>::value;
-    static constexpr std::size_t value = countTrailingZeros_impl<0, round_up_2>::value;
+    static constexpr std::size_t low_bit = N & (std::size_t(0) - N);
+    static constexpr std::size_t value = countTrailingZeros_impl<0, low_bit>::value;
 };
 
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b3daf5a43a8699cc432dbf13c0ed0878ba325cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 085/133] fix: hash of a pointer read the bytes of the object
 it points to

It hashed 8 bytes of the pointed object, which may be smaller, and the
hash changed with the object.
---
 src/jstd/hasher/hash_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index d27bc78..4dd7f36 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -165,13 +165,13 @@ struct JSTD_DLL hash_helper<T *, ResultType, HashFunc> {
 
     static result_type getHashCode(const key_type * key) {
         if (HashFunc == HashFunc_CRC32C)
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)&key, sizeof(key)));
         else if (HashFunc == HashFunc_Time31)
-            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31((const char *)&key, sizeof(key)));
         else if (HashFunc == HashFunc_Time31Std)
-            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31Std((const char *)&key, sizeof(key)));
         else
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)&key, sizeof(key)));
     }
 };
 
-- 
2.43.0


From a4597d6c60af6f2a7645512ef44e6d98e77bdcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 086/133] fix: CRC32C hashes of equal empty strings differed by
 their type

std::string "", an empty C string of length 0 and a string_view without
data are equal keys.
---
 src/jstd/hasher/hash_helper.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 4dd7f36..edfbc13 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -35,7 +35,7 @@
                 >::type decay_type;                                             \
                                                                                 \
         static ResultType getHashCode(char_type * data, std::size_t length) {   \
-            if (likely(data != nullptr && length != 0))                         \
+            if (likely(data != nullptr))                                        \
                 return (ResultType)HashFunc((const char *)data,                 \
                                             length * sizeof(char_type));        \
             else                                                                \
@@ -253,7 +253,7 @@ struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_CRC32C> {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);   // Equal to an empty string
     }
 };
 
@@ -265,7 +265,7 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_CRC32C>
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);   // Equal to an empty string
     }
 };
 
@@ -277,7 +277,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);   // Equal to an empty string
     }
 };
 
@@ -289,7 +289,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);   // Equal to an empty string
     }
 };
 
-- 
2.43.0


From cdc5fbc455cfe57870cface65aa4fc869d2abff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 087/133] fix: jstd::hash of strings hashed the string object
 unless SSE4.2 CRC32C was configured

hash_crc32() has a portable fallback, so its specialisations are always
usable; without them equal strings had different hashes.
---
 src/jstd/hasher/hash_helper.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index edfbc13..8c2d4c7 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -206,8 +206,6 @@ struct JSTD_DLL string_hash_helper {
     }
 };
 
-#if JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_CRC32C> {
@@ -293,8 +291,6 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
     }
 };
 
-#endif // JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_Time31> {
-- 
2.43.0


From 3f9c60baea0a2b5e75e99d345420b064b98160f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 088/133] fix: hash_crc32.h did not compile without SSE4.2

---
 src/jstd/hasher/hash_crc32.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index 3facdfb..563f75b 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -250,7 +250,7 @@ static size_t int_hash_crc32(size_t value)
     return intel_int_crc32_x86(value);
   #endif
 #else
-    return hashes::Times31(value, sizeof(value));
+    return hashes::Times31((const char *)&value, sizeof(value));
 #endif
 }
 
@@ -259,7 +259,7 @@ static size_t simple_int_hash_crc32(size_t value)
 #ifdef __SSE4_2__
     return intel_simple_int_crc32(value);
 #else
-    return hashes::Times31(value, sizeof(value));
+    return hashes::Times31((const char *)&value, sizeof(value));
 #endif
 }
 
-- 
2.43.0


From 24226b1ba5a076ee4175d2a51df5dbcae1f07829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 089/133] fix: AVX mm256_insert_epi32 wrote the wrong value
 into odd lanes

---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index aae2f6d..945ff7f 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -680,7 +680,7 @@ __m256i mm256_insert_epi32(__m256i target, int64_t value)
     else if (index >= 1 && index < 8) {
         static const int blend_mask = 0b00000001 << index;
         __m128i low32 = _mm_cvtsi32_si128(value);
-        __m256i repeat256 = _mm256_broadcastq_epi64(low32);
+        __m256i repeat256 = _mm256_broadcastd_epi32(low32);
         result = _mm256_blend_epi32(target, repeat256, blend_mask);
     }
     else {
-- 
2.43.0


From 41727231323808a42ca6af0fb31c139a4a91713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 090/133] fix: AVX mm256_cvtsi256_si32_high extended the sign
 of the high half

---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index 945ff7f..05df010 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -486,7 +486,7 @@ uint32_t mm256_cvtsi256_si32_low(__m256i src)
 static inline
 uint32_t mm256_cvtsi256_si32_high(__m256i src)
 {
-    return (uint32_t)(_mm256_cvtsi256_si32(src) >> 16U);
+    return ((uint32_t)_mm256_cvtsi256_si32(src) >> 16U);
 }
 
 template <int index>
-- 
2.43.0


From 89e6cc369987cd158011e2752a69e03efc07cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 091/133] fix: group16 has_any_overflow missed marks in only
 one half of the group

---
 src/jstd/hashmap/flat_map_group16.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_group16.hpp b/src/jstd/hashmap/flat_map_group16.hpp
index d6d94c9..4471f69 100644
--- a/src/jstd/hashmap/flat_map_group16.hpp
+++ b/src/jstd/hashmap/flat_map_group16.hpp
@@ -344,7 +344,7 @@ public:
             std::uint64_t * part0 = reinterpret_cast<std::uint64_t *>((ctrl_type *)&ctrls[0]);
             std::uint64_t * part1 = reinterpret_cast<std::uint64_t *>((ctrl_type *)&ctrls[kSizeofSizeT]);
             // return ((((*part0) & kOverflowMask64) != 0) || (((*part1) & kOverflowMask64) != 0));
-            return (((*part0) & (*part1) & kOverflowMask64) != 0);
+            return ((((*part0) | (*part1)) & kOverflowMask64) != 0);
         } else {
             std::uint32_t * part0 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[0]);
             std::uint32_t * part1 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[kSizeofSizeT]);
@@ -352,8 +352,8 @@ public:
             std::uint32_t * part3 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[kSizeofSizeT * 3]);
             // return ((((*part0) & kOverflowMask32) != 0) || (((*part1) & kOverflowMask32) != 0) ||
             //         (((*part2) & kOverflowMask32) != 0) || (((*part3) & kOverflowMask32) != 0));
-            return ((((*part0) & (*part1) & kOverflowMask32) != 0) ||
-                    (((*part2) & (*part3) & kOverflowMask32) != 0));
+            return (((((*part0) | (*part1)) & kOverflowMask32) != 0) ||
+                    ((((*part2) | (*part3)) & kOverflowMask32) != 0));
         }
     }
 
-- 
2.43.0


From b0aed3d2265e3a210516096b205503f623949070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 092/133] fix: uint128_mul without a 128-bit type lost the
 carry of the middle products

---
 src/jstd/hasher/hashes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index 586ecac..bde5340 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -609,9 +609,9 @@ _uint128_t uint128_mul(uint64_t multiplicand, uint64_t multiplier)
     uint64_t product_03 = (uint64_t)high0 * high1;
 
     /* Now add the products together. These will never overflow. */
-    uint64_t middle = product_01 + product_02 + (uint32_t)(product_00 >> 32);
+    uint64_t middle = product_02 + (uint32_t)(product_00 >> 32) + (uint32_t)(product_01 & 0xFFFFFFFFul);
     uint64_t low64  = (uint32_t)(product_00 & 0xFFFFFFFFul) | (middle << 32);
-    uint64_t high64 = product_03 + (uint32_t)(middle >> 32);
+    uint64_t high64 = product_03 + (uint32_t)(product_01 >> 32) + (uint32_t)(middle >> 32);
     return _uint128_t(low64, high64);
 #endif // __i386__
 }
-- 
2.43.0


From 7dca99e6121a7d0ac6552ce0731877b5937b83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 093/133] fix: jstd::hash of 0.0 and -0.0 differed

---
 src/jstd/hasher/hash_helper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 8c2d4c7..f2a17e0 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -109,6 +109,8 @@
                 >::type decay_type;                                             \
                                                                                 \
         static ResultType getHashCode(pod_type data) {                          \
+            if (data == 0)                                                      \
+                data = 0;   /* -0.0 is equal to 0.0 */                          \
             return static_cast<result_type>(HashFunc((const char *)&data, sizeof(data))); \
         }                                                                       \
     }
-- 
2.43.0


From 14291fa3f240ec260860424f38403f3e1b278920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 094/133] fix: string_view of char16_t compared only half of
 the characters with SSE4.2

---
 src/jstd/support/SSEHelper.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jstd/support/SSEHelper.h b/src/jstd/support/SSEHelper.h
index 1cc7463..b1ac435 100644
--- a/src/jstd/support/SSEHelper.h
+++ b/src/jstd/support/SSEHelper.h
@@ -31,6 +31,13 @@ struct SSEHelper<unsigned short> {
     static constexpr int kWordSize = 2;
 };
 
+template <>
+struct SSEHelper<char16_t> {
+    static constexpr uint8_t _SIDD_CHAR_OPS = _SIDD_UWORD_OPS;
+    static constexpr int kMaxSize = 8;
+    static constexpr int kWordSize = 2;
+};
+
 template <>
 struct SSEHelper<wchar_t> {
     static constexpr uint8_t _SIDD_CHAR_OPS = _SIDD_UWORD_OPS;
-- 
2.43.0


From 3de583fc25a3c40ee549755d3def5116b6bf59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 095/133] fix: flat16_hash_map::at() did not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index ab9ca88..ccf8341 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1311,7 +1311,7 @@ public:
         size_type index = this->find_impl(key);
         if (index != npos) {
             slot_type * slot = this->slot_at(index);
-            return slot->second;
+            return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key), "
                                     "the specified key is not exists.");
@@ -1321,8 +1321,8 @@ public:
     const mapped_type & at(const key_type & key) const {
         size_type index = this->find_impl(key);
         if (index != npos) {
-            slot_type * slot = this->slot_at(index);
-            return slot->second;
+            const slot_type * slot = this->slot_at(index);
+            return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key) const, "
                                     "the specified key is not exists.");
-- 
2.43.0


From e58625b300a07ab7b405cb0cd525877129ecbd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 096/133] fix: flat16_hash_map::erase(iterator) and
 erase(first, last) did not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index ccf8341..60cf47a 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -885,6 +885,10 @@ public:
             return { this->ctrl_, this->slot_ };
         }
 
+        const ctrl_type * control() const {
+            return this->ctrl_;
+        }
+
         slot_type * value() {
             return this->slot_;
         }
@@ -1483,7 +1487,7 @@ public:
 
     iterator erase(iterator pos) {
         size_type index = this->index_of(pos);
-        this->erase_slot(pos);
+        this->erase_slot(index);
         return ++pos;
     }
 
@@ -1498,7 +1502,7 @@ public:
             size_type index = this->index_of(first);
             this->erase_slot(index);
         }
-        return { first };
+        return { last.control(), last.value() };
     }
 
 private:
-- 
2.43.0


From 90ceffc5d21933a12c8cab316827d076d0b25062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 097/133] fix: flat16_hash_map range constructor did not
 compile

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 60cf47a..7154c0d 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -964,7 +964,7 @@ public:
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = distance(first, last);
+        size_type input_size = static_cast<size_type>(std::distance(first, last));
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
-- 
2.43.0


From 6f8106b483ee95228255332f856c689ee4a5fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 098/133] fix: flat16_hash_map move constructor and swap() did
 not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 7154c0d..b69c477 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2780,31 +2780,31 @@ private:
 
     void swap_content(flat16_hash_map & other) {
         using std::swap;
-        swap(this->groups_, other.groups());
-        swap(this->group_mask_, other.group_mask());
-        swap(this->slots_, other.slots());
-        swap(this->slot_size_, other.slot_size());
-        swap(this->slot_mask_, other.slot_mask());
-        swap(this->left_empties_, other.slot_empties());
-        swap(this->n_mlf_, other.integral_mlf());
-        swap(this->n_mlf_rev_, other.integral_mlf_rev());
+        swap(this->groups_, other.groups_);
+        swap(this->group_mask_, other.group_mask_);
+        swap(this->slots_, other.slots_);
+        swap(this->slot_size_, other.slot_size_);
+        swap(this->slot_mask_, other.slot_mask_);
+        swap(this->left_empties_, other.left_empties_);
+        swap(this->n_mlf_, other.n_mlf_);
+        swap(this->n_mlf_rev_, other.n_mlf_rev_);
     }
 
     void swap_policy(flat16_hash_map & other) {
         using std::swap;
-        swap(this->hasher_, other.hash_function());
-        swap(this->key_equal_, other.key_eq());
+        swap(this->hasher_, other.hasher_);
+        swap(this->key_equal_, other.key_equal_);
         if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
-            swap(this->allocator_, other.get_allocator());
+            swap(this->allocator_, other.allocator_);
         }
         if (std::allocator_traits<mutable_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->mutable_allocator_, other.get_mutable_allocator());
+            swap(this->mutable_allocator_, other.mutable_allocator_);
         }
         if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->slot_allocator_, other.get_slot_allocator());
+            swap(this->slot_allocator_, other.slot_allocator_);
         }
         if (std::allocator_traits<mutable_slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->mutable_slot_allocator_, other.get_mutable_slot_allocator());
+            swap(this->mutable_slot_allocator_, other.mutable_slot_allocator_);
         }
     }
 
-- 
2.43.0


From 5918a380a1c444cfaefaca73555e8b4f3ccfdb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 099/133] fix: flat16_hash_map insertion with a hint did not
 compile

---
 src/jstd/hashmap/flat16_hash_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index b69c477..4c15db3 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1399,8 +1399,8 @@ public:
               (!jstd::is_same_ex<P, value_type>::value) &&
               (!jstd::is_same_ex<P, mutable_value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -1426,12 +1426,12 @@ public:
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 2190768be707b283f714cc034a44142ceaef8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 100/133] fix: flat16_hash_map lost elements after an erasure
 in a full probe window

---
 src/jstd/hashmap/flat16_hash_map.h | 33 ++++++++++++++----------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 4c15db3..3ac3314 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2749,27 +2749,24 @@ private:
         // Increment the left empties first, and decrement it when is setDeleted().
         this->left_empties_++;
 
-        const group_type & group = this->get_group(start_slot);
-        if (group.hasAnyEmpty()) {
+        // The slot can be empty again only if no probe window of kGroupWidth slots
+        // which contains it was full: an element may have been placed behind such a window.
+        bool was_never_full = true;
+        if (this->slot_capacity() > kGroupWidth) {
+            size_type prev_slot = this->round_index(start_slot - kGroupWidth);
+            std::uint32_t empty_after  = this->get_group(start_slot).matchEmpty();
+            std::uint32_t empty_before = this->get_group(prev_slot).matchEmpty();
+            was_never_full = (empty_after != 0) && (empty_before != 0) &&
+                ((BitUtils::bsf32(empty_after) + (kGroupWidth - 1 - BitUtils::bsr32(empty_before))) < kGroupWidth);
+        }
+        if (was_never_full) {
             control.setEmpty();
             this->setUnusedMirrorCtrl(index, kEmptyEntry);
         } else {
-            size_type slot_index = this->slot_next_group(start_slot);
-            if (slot_index != start_slot) {
-                const group_type & group = this->get_group(slot_index);
-                if (!group.isAllEmpty()) {
-                    // Decrement the left empties when is setDeleted().
-                    this->left_empties_--;
-                    control.setDeleted();
-                    this->setUnusedMirrorCtrl(index, kDeletedEntry);
-                } else {
-                    control.setEmpty();
-                    this->setUnusedMirrorCtrl(index, kEmptyEntry);
-                }
-            } else {
-                control.setEmpty();
-                this->setUnusedMirrorCtrl(index, kEmptyEntry);
-            }
+            // Decrement the left empties when is setDeleted().
+            this->left_empties_--;
+            control.setDeleted();
+            this->setUnusedMirrorCtrl(index, kDeletedEntry);
         }
 
         // Destroy slot
-- 
2.43.0


From 312b6cdd1ab0e4b712836c2dbd3363ae5e4984f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 101/133] fix: flat16_hash_map lost elements when it dropped
 the deleted slots

---
 src/jstd/hashmap/flat16_hash_map.h | 70 ++----------------------------
 1 file changed, 3 insertions(+), 67 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 3ac3314..6af5e00 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1860,7 +1860,7 @@ private:
     void reorder_or_grow_if_necessary() {
         size_type slot_deleted;
         if ((this->slot_capacity() > size_type(32)) &&
-            (slot_deleted = this->slot_deleted() >= this->slot_capacity() / 8)) {
+            ((slot_deleted = this->slot_deleted()) >= this->slot_capacity() / 8)) {
             // Reorder slot and no grow
             this->drop_deleted_no_grow();
         } else {
@@ -2107,72 +2107,8 @@ private:
     }
 
     void drop_deleted_no_grow() {
-        // Algorithm:
-        // - mark all DELETED slots as EMPTY
-        // - mark all USED slots as DELETED
-        // - for each slot marked as DELETED
-        //     hash = Hash(element)
-        //     target = find_first_unused(hash)
-        //     if target is in the same group
-        //       mark slot as USED
-        //     else if target is EMPTY
-        //       transfer element to target
-        //       mark slot as EMPTY
-        //       mark target as USED
-        //     else if target is DELETED
-        //       swap current element with target element
-        //       mark target as USED
-        //       repeat procedure for current slot with moved from element (target)
-
-        // Convert all [Deleted] to [Empty], and [Used] to [Deleted].
-        this->convent_all_slots();
-
-        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
-        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
-
-        for (size_type index = 0; index < this->slot_capacity(); index++) {
-            ctrl_type * ctrl = this->control_at(index);
-            if (ctrl->isDeleted()) {
-                continue;
-            }
-            slot_type * slot = this->slot_at(index);
-            std::uint8_t ctrl_hash;
-            size_type target = this->find_first_non_used_slot(slot->value.first, ctrl_hash);
-            intptr_t distance = intptr_t(index - target);
-            if (distance < intptr_t(kGroupWidth) && distance >= 0) {
-                // If the distance of old index and new index is less than kGroupWidth,
-                // we don't need to move it because it's already in the best position.
-                ctrl->setUsed(ctrl_hash);
-                this->setUsedMirrorCtrl(index, ctrl_hash);
-                continue;
-            }
-
-            ctrl_type * new_ctrl = this->control_at(target);
-            slot_type * new_slot = this->slot_at(target);
-            if (new_ctrl->isEmpty()) {
-                // Transfer the old slot to the new (Empty) slot.
-                new_ctrl->setUsed(ctrl_hash);
-                this->setUsedMirrorCtrl(target, ctrl_hash);
-
-                this->transfer_slot(new_slot, slot);
-
-                ctrl->setEmpty();
-                this->setUnusedMirrorCtrl(index, kEmptyEntry);
-            } else {
-                // Swap the old slot and new slot.
-                assert(new_ctrl->isDeleted());
-                // Until we are done rehashing, DELETED marks previously USED slots.
-                new_ctrl->setUsed(ctrl_hash);
-                this->setUsedMirrorCtrl(target, ctrl_hash);
-
-                this->swap_slot(slot, new_slot, tmp_slot);
-
-                // Repeat check the swap slot.
-                index--;
-            }
-        }
-
-        this->reset_left_empties();
+        // Move all elements to new arrays of the same capacity.
+        this->rehash_impl<false, true>(this->slot_capacity());
     }
 
     size_type find_impl(const key_type & key) const {
-- 
2.43.0


From 42691cd6e6413cf590c892b22d312b8878106d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 102/133] fix: flat16_hash_map counted the empty slots wrongly
 after rehash() and copying

---
 src/jstd/hashmap/flat16_hash_map.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 6af5e00..751338d 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1107,7 +1107,8 @@ public:
         return ((this->slot_capacity() - this->slot_threshold()) + left_empties_);
     }
     size_type slot_deleted() const {
-        return (this->slot_used() - this->slot_size());
+        size_type slot_used = this->slot_used();
+        return ((slot_used > this->slot_size()) ? (slot_used - this->slot_size()) : 0);
     }
     size_type slot_used() const {
         return (this->slot_threshold() - this->left_empties());
@@ -1517,7 +1518,7 @@ private:
 
     JSTD_FORCED_INLINE
     size_type min_require_capacity(size_type init_capacity) {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + (kLoadFactorAmplify - 1)) / kLoadFactorAmplify;
         return new_capacity;
     }
 
@@ -2014,7 +2015,7 @@ private:
             }
 
             assert(this->slot_size() == old_slot_size);
-            left_empties_ -= this->slot_size();
+            left_empties_ -= (std::min)(this->slot_size(), left_empties_);
 
             this->slot_allocator_.deallocate(old_slots, old_slot_capacity);
 
@@ -2298,6 +2299,7 @@ private:
         for (InputIter iter = first; iter != last; ++iter) {
             this->insert_unique(static_cast<value_type>(*iter));
         }
+        this->left_empties_ -= (std::min)(this->slot_size(), this->left_empties_);
     }
 
     std::pair<size_type, bool>
-- 
2.43.0


From a7f53583a10797913c671774f406c8956f5685c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 103/133] fix: flat16_hash_map::max_load_factor() left a table
 which could become full

---
 src/jstd/hashmap/flat16_hash_map.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 751338d..02e41ab 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1143,17 +1143,11 @@ public:
         this->n_mlf_rev_ = n_mlf_rev;
         size_type new_slot_threshold = this->slot_threshold();
         if (old_slot_used > new_slot_threshold) {
-            size_type min_required_capacity;
-            size_type slot_deleted = old_slot_used - this->slot_size();
-            if ((this->slot_capacity() <= size_type(32)) ||
-                (slot_deleted < (this->slot_capacity() / 8)) ||
-                (min_required_capacity = this->min_require_capacity(this->slot_size()) >
-                 this->slot_capacity())) {
-                this->rehash(this->slot_size());
-            } else {
-                // Reorder slot and no grow
-                this->drop_deleted_no_grow();
-            }
+            // Drop the deleted slots, and grow if it's necessary.
+            this->rehash_impl<false, true>((std::max)(this->min_require_capacity(this->slot_size()),
+                                                      this->slot_capacity()));
+        } else {
+            this->left_empties_ = new_slot_threshold - old_slot_used;
         }
     }
 
-- 
2.43.0


From 07a25ddaadb278ce618b5c92dc1f18065f510579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 104/133] fix: flat16_hash_map::clear() left control bytes of
 removed elements

---
 src/jstd/hashmap/flat16_hash_map.h | 43 +++++++++++++-----------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 02e41ab..1c1f247 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1732,10 +1732,7 @@ private:
     void destroy_group() noexcept {
         if (this->groups_ != nullptr) {
             if (!finitial) {
-                for (size_type group_index = 0; group_index <= this->group_mask(); group_index++) {
-                    group_type * group = this->group_at(group_index);
-                    group->clear();
-                }
+                this->init_groups(this->groups_, this->group_count(), this->slot_capacity());
             }
             if (finitial) {
                 delete[] this->groups_;
@@ -1870,6 +1867,23 @@ private:
         this->create_group<true>(new_capacity);
     }
 
+    void init_groups(group_type * new_groups, size_type group_count, size_type new_capacity) noexcept {
+        std::memset((void *)new_groups, kEmptyEntry, sizeof(group_type) * group_count);
+        if (new_capacity >= kGroupWidth) {
+            new_groups[group_count].template fillAll8<kEmptyEntry>();
+        } else {
+            assert(new_capacity < kGroupWidth);
+            group_type * tail_group = (group_type *)((char *)new_groups + new_capacity * 2);
+            (*tail_group).template fillAll8<kEndOfMark>();
+
+            new_groups[group_count].template fillAll8<kEndOfMark>();
+        }
+
+        ctrl_type * new_controls = (ctrl_type *)new_groups;
+        ctrl_type * endof_ctrl = new_controls + new_capacity;
+        endof_ctrl->setEndOf();
+    }
+
     template <bool initialize = false>
     void create_group(size_type init_capacity) {
         size_type new_capacity;
@@ -1886,26 +1900,7 @@ private:
         groups_ = new_groups;
         group_mask_ = group_count - 1;
 
-#if 1
-        std::memset((void *)new_groups, kEmptyEntry, sizeof(group_type) * group_count);
-#else
-        for (size_type index = 0; index < group_count; index++) {
-            new_groups[index].template fillAll8<kEmptyEntry>();
-        }
-#endif
-        if (new_capacity >= kGroupWidth) {
-            new_groups[group_count].template fillAll8<kEmptyEntry>();
-        } else {
-            assert(new_capacity < kGroupWidth);
-            group_type * tail_group = (group_type *)((char *)new_groups + new_capacity * 2);
-            (*tail_group).template fillAll8<kEndOfMark>();
-
-            new_groups[group_count].template fillAll8<kEndOfMark>();
-        }
-
-        ctrl_type * new_controls = (ctrl_type *)new_groups;
-        ctrl_type * endof_ctrl = new_controls + new_capacity;
-        endof_ctrl->setEndOf();
+        this->init_groups(new_groups, group_count, new_capacity);
 
         slot_type * slots = slot_allocator_.allocate(new_capacity);
         slots_ = slots;
-- 
2.43.0


From e5caec5a564db75224b7fc851d18e7f3574e8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 105/133] fix: flat16_hash_map::insert_or_assign() moved from
 an lvalue key

---
 src/jstd/hashmap/flat16_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 1c1f247..ad08276 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1416,7 +1416,7 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
@@ -1426,7 +1426,7 @@ public:
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value)).first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 5b2b61551721c23b743bf9c1b56ee66f13d6cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 106/133] fix: flat16_hash_map::rehash() and shrink_to_fit()
 did not return if the table became full

---
 src/jstd/hashmap/flat16_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index ad08276..dae67e6 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1277,9 +1277,9 @@ public:
 
     void rehash(size_type new_capacity, bool read_only = false) {
         if (!read_only)
-            new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
+            new_capacity = this->min_require_capacity((std::max)(new_capacity, this->slot_size()));
         else
-            new_capacity = (std::max)(new_capacity, this->slot_size());
+            new_capacity = (std::max)(new_capacity, this->slot_size() + 1);
         this->rehash_impl<true, false>(new_capacity);
     }
 
@@ -1288,7 +1288,7 @@ public:
         if (!read_only)
             new_capacity = this->min_require_capacity(this->slot_size());
         else
-            new_capacity = this->slot_size();
+            new_capacity = this->slot_size() + 1;
         this->rehash_impl<true, false>(new_capacity);
     }
 
-- 
2.43.0


From 2fa75c381477fd2519f6368846eb31dfa28decb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 107/133] fix: robin16_hash_map::erase(iterator) and
 erase(first, last) did not compile

---
 src/jstd/hashmap/robin16_hash_map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 1852941..693e703 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1177,12 +1177,12 @@ public:
         }
 
         slot_type * value() {
-            slot_type * slot = this->owner_->slot_at(this->index);
+            slot_type * slot = const_cast<this_type *>(this->owner_)->slot_at(this->index_);
             return slot;
         }
 
         const slot_type * value() const {
-            slot_type * slot = this->owner_->slot_at(this->index);
+            const slot_type * slot = this->owner_->slot_at(this->index_);
             return slot;
         }
     };
@@ -1902,7 +1902,7 @@ public:
             size_type index = this->index_of(first);
             this->erase_slot(index);
         }
-        return { first };
+        return { this, first.index() };
     }
 
 private:
@@ -2142,11 +2142,11 @@ private:
     }
 
     size_type index_of(iterator pos) const {
-        return this->index_of(pos.value());
+        return pos.index();
     }
 
     size_type index_of(const_iterator pos) const {
-        return this->index_of(pos.value());
+        return pos.index();
     }
 
     size_type index_of(ctrl_type * ctrl) const {
-- 
2.43.0


From 89abc35d461097dc4521b1148d1de2202b7b11bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 108/133] fix: robin16_hash_map range constructor did not
 compile

---
 src/jstd/hashmap/robin16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 693e703..c41f8e1 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1334,7 +1334,7 @@ public:
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = distance(first, last);
+        size_type input_size = static_cast<size_type>(std::distance(first, last));
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
-- 
2.43.0


From 456379e41cfd9f4d44e83b047ea72a6d3bd6c322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 109/133] fix: robin16_hash_map copy constructor did not
 compile

---
 src/jstd/hashmap/robin16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index c41f8e1..ae7f3e7 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -3529,7 +3529,7 @@ private:
         this->placement_new_slot(slot);
         if (kIsCompatibleLayout) {
             this->mutable_allocator_.construct(&slot->mutable_value,
-                                               std::move(*static_cast<mutable_value_type *>(&value)));
+                                               std::move(value));
         } else {
             this->allocator_.construct(&slot->value, std::move(value));
         }
-- 
2.43.0


From d28befe0171656bfac400358c3ef029ea6d0f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 110/133] fix: robin16_hash_map::erase(iterator) skipped the
 element moved into the erased slot

---
 src/jstd/hashmap/robin16_hash_map.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index ae7f3e7..6fa8bec 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1887,22 +1887,26 @@ public:
     iterator erase(iterator pos) {
         size_type index = this->index_of(pos);
         this->erase_slot(index);
-        return ++pos;
+        return this->next_valid_iterator(pos);
     }
 
     const_iterator erase(const_iterator pos) {
         size_type index = this->index_of(pos);
         this->erase_slot(index);
-        return ++pos;
+        return this->next_valid_iterator(pos);
     }
 
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        for (; first != last; ++first) {
-            size_type index = this->index_of(first);
-            this->erase_slot(index);
+        // Erasing a slot moves the slots behind it, so count the elements first.
+        size_type num_elements = 0;
+        for (const_iterator iter = first; iter != last; ++iter) {
+            num_elements++;
+        }
+        iterator iter(this, first.index());
+        for (; num_elements > 0; num_elements--) {
+            iter = this->erase(iter);
         }
-        return { this, first.index() };
+        return iter;
     }
 
 private:
@@ -1943,6 +1947,14 @@ private:
     }
 #endif
 
+    // The slot behind an erased slot may have been moved into it.
+    template <typename IteratorT>
+    IteratorT next_valid_iterator(IteratorT iter) const {
+        if (this->ctrl_at(iter.index())->isEmptyOnly())
+            ++iter;
+        return iter;
+    }
+
     inline hash_code_t get_hash(const key_type & key) const noexcept {
         hash_code_t hash_code = static_cast<hash_code_t>(this->hasher_(key));
         return hash_code;
-- 
2.43.0


From d8355fb3e85248b133a4efdfccbe9fd420c9feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 111/133] fix: robin16_hash_map::erase() ran past the end of
 the slots when the elements to move back wrap around

---
 src/jstd/hashmap/robin16_hash_map.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 6fa8bec..688782a 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -3581,26 +3581,22 @@ private:
         assert(this->slot_size_ > 0);
         this->slot_size_--;
 
-        size_type curr_index;
-        ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
-        slot_type * next_slot = curr_slot + std::ptrdiff_t(1);
+        size_type curr_index = to_erase;
+        size_type next_index = this->next_index(curr_index);
+        ctrl_type * next_ctrl = this->ctrl_at(next_index);
 
         while (!next_ctrl->isEmptyOrZero()) {
             ctrl_type dist_and_hash(*next_ctrl);
             assert(dist_and_hash.distance > 0);
             dist_and_hash.distance--;
-            curr_index = this->index_of(curr_ctrl);
             this->setUsedCtrl(curr_index, dist_and_hash.value);
-            this->transfer_slot(curr_slot, next_slot);
+            this->transfer_slot(curr_index, next_index);
 
-            curr_ctrl++;
-            curr_slot++;
-
-            next_ctrl++;
-            next_slot++;
+            curr_index = next_index;
+            next_index = this->next_index(next_index);
+            next_ctrl = this->ctrl_at(next_index);
         }
 
-        curr_index = this->index_of(curr_ctrl);
         this->setUnusedCtrl(curr_index, kEmptySlot);
     }
 
-- 
2.43.0


From 34bf7177d3de2f53779ef4991c9056c7685902a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 112/133] fix: robin16_hash_map::clear() left stale copies of
 the first ctrls behind the last slot

---
 src/jstd/hashmap/robin16_hash_map.h | 33 +++++++++++++++--------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 688782a..46cc1bc 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -2203,10 +2203,7 @@ private:
     void destroy_group() noexcept {
         if (this->groups_ != nullptr) {
             if (!finitial) {
-                for (size_type group_index = 0; group_index <= this->group_mask(); group_index++) {
-                    group_type * group = this->physical_group_at(group_index);
-                    group->clear();
-                }
+                this->init_groups(this->groups(), this->group_count(), this->slot_capacity());
             }
             if (finitial) {
                 delete[] this->groups_;
@@ -2342,6 +2339,21 @@ private:
         this->create_group<true>(new_capacity);
     }
 
+    static void init_groups(group_type * groups, size_type group_count, size_type slot_capacity) {
+        for (size_type index = 0; index < group_count; index++) {
+            groups[index].template fillAll<kEmptySlot>();
+        }
+        if (slot_capacity >= kGroupWidth) {
+            groups[group_count].template fillAll<kEmptySlot>();
+        } else {
+            assert(slot_capacity < kGroupWidth);
+            group_type * tail_group = (group_type *)((char *)groups + slot_capacity * 2 * sizeof(ctrl_type));
+            (*tail_group).template fillAll<kEndOfMark>();
+
+            groups[group_count].template fillAll<kEndOfMark>();
+        }
+    }
+
     template <bool initialize = false>
     void create_group(size_type init_capacity) {
         size_type new_capacity;
@@ -2363,18 +2375,7 @@ private:
         groups_ = new_groups;
         group_mask_ = group_count - 1;
 
-        for (size_type index = 0; index < group_count; index++) {
-            new_groups[index].template fillAll<kEmptySlot>();
-        }
-        if (new_capacity >= kGroupWidth) {
-            new_groups[group_count].template fillAll<kEmptySlot>();
-        } else {
-            assert(new_capacity < kGroupWidth);
-            group_type * tail_group = (group_type *)((char *)new_groups + new_capacity * 2 * sizeof(ctrl_type));
-            (*tail_group).template fillAll<kEndOfMark>();
-
-            new_groups[group_count].template fillAll<kEndOfMark>();
-        }
+        this->init_groups(new_groups, group_count, new_capacity);
 
         slot_type * slots = slot_allocator_.allocate(new_capacity);
         slots_ = slots;
-- 
2.43.0


From 85db899747a0955d16cb591702c4f2bcd21e1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 113/133] fix: robin16_hash_map::max_load_factor() did not
 change when the map grows

---
 src/jstd/hashmap/robin16_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 46cc1bc..1d01570 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1514,7 +1514,8 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
+        size_type new_slot_threshold = this->slot_threshold(this->slot_capacity());
+        this->slot_threshold_ = new_slot_threshold;
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
-- 
2.43.0


From bff5c7b146e484fc8f53b4cc177e1269171e535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 114/133] fix: robin16_hash_map copy constructor did not copy
 the hasher, the key_equal and the load factor

---
 src/jstd/hashmap/robin16_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 1d01570..b417131 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1363,12 +1363,12 @@ public:
     robin16_hash_map(const robin16_hash_map & other, const Allocator & alloc) :
         groups_(nullptr), group_mask_(0),
         slots_(nullptr), slot_size_(0), slot_mask_(0),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.integral_mlf()),
+        n_mlf_rev_(other.integral_mlf_rev()),
 #if ROBIN16_USE_HASH_POLICY
         hash_policy_(other.hash_policy_ref()),
 #endif
-        hasher_(hasher()), key_equal_(key_equal()),
+        hasher_(other.hasher_), key_equal_(other.key_equal_),
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-- 
2.43.0


From 4107eb3f3c8dc4051ec29f398a5a7dec62d06b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 115/133] fix: robin16_hash_map::insert_or_assign() moved from
 an lvalue key

---
 src/jstd/hashmap/robin16_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index b417131..81c5674 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1821,7 +1821,7 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
@@ -1831,7 +1831,7 @@ public:
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value))->first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From e88fdbe8259b0f73e0e76f6fd88d1c4c28651ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 116/133] fix: robin16_hash_map::insert_or_assign(hint, ...)
 did not compile

---
 src/jstd/hashmap/robin16_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 81c5674..92403e0 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1826,12 +1826,12 @@ public:
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From fb949286c089cc7fe89dd6f30d7f8dfa0d521a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 117/133] fix: robin16_hash_map compared keys in unused slots
 if it has less than 16 slots

---
 src/jstd/hashmap/robin16_hash_map.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 92403e0..1a5685a 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -2204,7 +2204,7 @@ private:
     void destroy_group() noexcept {
         if (this->groups_ != nullptr) {
             if (!finitial) {
-                this->init_groups(this->groups(), this->group_count(), this->slot_capacity());
+                this->init_groups(this->groups(), this->group_count());
             }
             if (finitial) {
                 delete[] this->groups_;
@@ -2340,19 +2340,11 @@ private:
         this->create_group<true>(new_capacity);
     }
 
-    static void init_groups(group_type * groups, size_type group_count, size_type slot_capacity) {
-        for (size_type index = 0; index < group_count; index++) {
+    static void init_groups(group_type * groups, size_type group_count) {
+        // The ctrls behind the mirrored ones must be empty as well: the hash of a used one is matched.
+        for (size_type index = 0; index <= group_count; index++) {
             groups[index].template fillAll<kEmptySlot>();
         }
-        if (slot_capacity >= kGroupWidth) {
-            groups[group_count].template fillAll<kEmptySlot>();
-        } else {
-            assert(slot_capacity < kGroupWidth);
-            group_type * tail_group = (group_type *)((char *)groups + slot_capacity * 2 * sizeof(ctrl_type));
-            (*tail_group).template fillAll<kEndOfMark>();
-
-            groups[group_count].template fillAll<kEndOfMark>();
-        }
     }
 
     template <bool initialize = false>
@@ -2376,7 +2368,7 @@ private:
         groups_ = new_groups;
         group_mask_ = group_count - 1;
 
-        this->init_groups(new_groups, group_count, new_capacity);
+        this->init_groups(new_groups, group_count);
 
         slot_type * slots = slot_allocator_.allocate(new_capacity);
         slots_ = slots;
-- 
2.43.0


From 17f345b255c969d2034ccc325f2908fab058a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 118/133] fix: string_view_array::clear() leaked every element

---
 src/jstd/string/string_view_array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 3028b55..182c771 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -127,6 +127,7 @@ public:
     const_reference back() const  { return array_.back();  }
 
     void clear() {
+        this->destroy();
         array_.clear();
     }
 
-- 
2.43.0


From 927bfec29da4f3e1938cb695797f2e5d2d251700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 119/133] fix: string_view_array::pop_back() leaked the element

---
 src/jstd/string/string_view_array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 182c771..74c94f1 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -148,6 +148,7 @@ public:
     }
 
     void pop_back() {
+        delete array_.back();
         array_.pop_back();
     }
 
-- 
2.43.0


From 2a1cca6f29f0e5b40124f6c3c0ac364044101534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 120/133] fix: string_view_array::resize() leaked the elements
 it cut off

---
 src/jstd/string/string_view_array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 74c94f1..bc0ed6f 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -136,6 +136,9 @@ public:
     }
 
     void resize(size_type new_size) {
+        for (size_type i = new_size; i < array_.size(); i++) {
+            delete array_[i];
+        }
         array_.resize(new_size);
     }
 
-- 
2.43.0


From 2054d4c29d17bb422f4851093170abb5f13c4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 121/133] fix: string_view_array could not be iterated when
 const

---
 src/jstd/string/string_view_array.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index bc0ed6f..4b2ef5b 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -112,13 +112,11 @@ public:
 
     iterator begin()             { return array_.begin();  }
     iterator end()               { return array_.end();    }
-    const_pointer begin() const  { return array_.begin();  }
-    const_pointer end() const    { return array_.end();    }
+    const_iterator begin() const  { return array_.begin();  }
+    const_iterator end() const    { return array_.end();    }
 
-    iterator cbegin()            { return array_.cbegin(); }
-    iterator cend()              { return array_.cend();   }
-    const_pointer cbegin() const { return array_.cbegin(); }
-    const_pointer cend() const   { return array_.cend();   }
+    const_iterator cbegin() const { return array_.cbegin(); }
+    const_iterator cend() const   { return array_.cend();   }
 
     reference front() { return array_.front(); }
     reference back()  { return array_.back();  }
-- 
2.43.0


From a7b80669711311cf002148a731b674927552c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 122/133] fix: string_view_array could not be copied

---
 src/jstd/string/string_view_array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 4b2ef5b..ca69436 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -189,10 +189,13 @@ public:
 
 private:
     void copy_impl(const string_view_array & other) {
+        string_view_array copied;
+        copied.array_.reserve(other.size());
         for (size_type i = 0; i < other.size(); i++) {
-            element_type * new_element = new element_type(*other[i]);
-            this->array_.push_back(new_element);
+            const element_type * element = other.array_[i];
+            copied.array_.push_back((element != nullptr) ? new element_type(*element) : nullptr);
         }
+        this->swap_impl(copied);
     }
 
     void swap_impl(string_view_array & other) noexcept {
-- 
2.43.0


From 5a9978e82ea387085c01ee446f07f382eface16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:35 +0000
Subject: [PATCH 123/133] fix: swap() of string_view_arrays was ambiguous

---
 src/jstd/string/string_view_array.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index ca69436..2a4f81d 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -107,6 +107,12 @@ public:
         this->destroy();
     }
 
+    string_view_array & operator = (string_view_array && rhs) noexcept {
+        string_view_array moved(std::move(rhs));
+        this->swap(moved);
+        return *this;
+    }
+
     size_type size() const       { return array_.size();     }
     size_type capacity() const   { return array_.capacity(); }
 
@@ -211,14 +217,4 @@ void swap(jstd::string_view_array<First, Second> & lhs, jstd::string_view_array<
 
 } // namespace jstd
 
-namespace std {
-
-template <typename First, typename Second>
-inline
-void swap(jstd::string_view_array<First, Second> & lhs, jstd::string_view_array<First, Second> & rhs) noexcept {
-    lhs.swap(rhs);
-}
-
-} // namespace std
-
 #endif // JSTD_STRING_STRING_VIEW_ARRAY_H
-- 
2.43.0


From 6ba37f9b95c82d0c4e3380fc91173aebb4f41fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 124/133] fix: robin_hash_map built from a single-pass range
 stayed empty

---
 src/jstd/hashmap/robin_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 48801ec..e9073ae 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3075,7 +3075,10 @@ public:
         // The destructor releases everything if the following insertions throw.
         : robin_hash_map(size_type(0), hash, equal, alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = jstd::distance(first, last);
+        // A single-pass range cannot be measured without consuming it.
+        static constexpr bool isForwardIter = std::is_base_of<std::forward_iterator_tag,
+            typename std::iterator_traits<InputIter>::iterator_category>::value;
+        size_type input_size = isForwardIter ? static_cast<size_type>(jstd::distance(first, last)) : 0;
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
-- 
2.43.0


From d73eee8b69c517ae3559f7ee33c28acb0ab6b8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 125/133] fix: flat16_hash_map built from a single-pass range
 stayed empty

---
 src/jstd/hashmap/flat16_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index dae67e6..c2ca1bf 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -964,7 +964,10 @@ public:
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = static_cast<size_type>(std::distance(first, last));
+        // A single-pass range cannot be measured without consuming it.
+        static constexpr bool isForwardIter = std::is_base_of<std::forward_iterator_tag,
+            typename std::iterator_traits<InputIter>::iterator_category>::value;
+        size_type input_size = isForwardIter ? static_cast<size_type>(std::distance(first, last)) : 0;
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
-- 
2.43.0


From 0ea76bf82782524386ff8cbde4786e4ca0374a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:46 +0000
Subject: [PATCH 126/133] fix: robin16_hash_map built from a single-pass range
 stayed empty

---
 src/jstd/hashmap/robin16_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin16_hash_map.h b/src/jstd/hashmap/robin16_hash_map.h
index 1a5685a..1ab6aed 100644
--- a/src/jstd/hashmap/robin16_hash_map.h
+++ b/src/jstd/hashmap/robin16_hash_map.h
@@ -1334,7 +1334,10 @@ public:
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = static_cast<size_type>(std::distance(first, last));
+        // A single-pass range cannot be measured without consuming it.
+        static constexpr bool isForwardIter = std::is_base_of<std::forward_iterator_tag,
+            typename std::iterator_traits<InputIter>::iterator_category>::value;
+        size_type input_size = isForwardIter ? static_cast<size_type>(std::distance(first, last)) : 0;
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
-- 
2.43.0


From 278717c13479a03f8bc2c359b7288cdf4575021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 127/133] fix: cbegin(), cend(), crbegin() and crend() were
 ambiguous with those of std

---
 src/jstd/iterator.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/iterator.h b/src/jstd/iterator.h
index c522682..fbafcd0 100644
--- a/src/jstd/iterator.h
+++ b/src/jstd/iterator.h
@@ -510,20 +510,20 @@ auto end(const Container & container) -> decltype(container.end())
 template <class Container>
 inline
 constexpr auto cbegin(const Container & container)
-noexcept(noexcept(begin(container)))
--> decltype(begin(container))
+noexcept(noexcept(jstd::begin(container)))
+-> decltype(jstd::begin(container))
 {
-    return (begin(container));
+    return (jstd::begin(container));
 }
 
 // get end of sequence
 template <class Container>
 inline
 constexpr auto cend(const Container & container)
-noexcept(noexcept(end(container)))
--> decltype(end(container))
+noexcept(noexcept(jstd::end(container)))
+-> decltype(jstd::end(container))
 {
-    return (end(container));
+    return (jstd::end(container));
 }
 
 /////////////////////////////////////////////////////////////////
@@ -603,17 +603,17 @@ rend(std::initializer_list<Element> initList)
 // get beginning of reversed sequence
 template <class Container>
 inline
-auto crbegin(const Container & container) -> decltype(rbegin(container))
+auto crbegin(const Container & container) -> decltype(jstd::rbegin(container))
 {
-    return (rbegin(container));
+    return (jstd::rbegin(container));
 }
 
 // get end of reversed sequence
 template <class Container>
 inline
-auto crend(const Container & container) -> decltype(rend(container))
+auto crend(const Container & container) -> decltype(jstd::rend(container))
 {
-    return (rend(container));
+    return (jstd::rend(container));
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6dc44d9f007fc8bf9d3877afc67449908240975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 128/133] fix: tuple_wrapper of floating-point and enumeration
 values did not compile

---
 src/jstd/utility/utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/utility/utility.h b/src/jstd/utility/utility.h
index 5b232ad..a357947 100644
--- a/src/jstd/utility/utility.h
+++ b/src/jstd/utility/utility.h
@@ -143,7 +143,7 @@ T exchange(T & target, U && new_value) noexcept(
 // tuple_wrapper<T, DecayT, bool IsIntegral>
 //
 template <typename T, typename DecayT = typename std::remove_reference<T>::type,
-          bool IsIntegralOrPointer = (std::is_integral<DecayT>::value || std::is_pointer<DecayT>::value)>
+          bool IsScalar = std::is_scalar<DecayT>::value>
 struct tuple_wrapper : public DecayT {
     using value_type = typename std::remove_reference<T>::type;
 
@@ -246,7 +246,7 @@ struct tuple_wrapper<T, typename std::remove_reference<T>::type, true> {
 // tuple_wrapper2<T, DecayT, IsIntegral>
 //
 template <typename T, typename DecayT = typename std::remove_reference<T>::type,
-          bool IsIntegralOrPointer = (std::is_integral<DecayT>::value || std::is_pointer<DecayT>::value)>
+          bool IsScalar = std::is_scalar<DecayT>::value>
 struct tuple_wrapper2 : DecayT {
     using value_type = typename std::remove_reference<T>::type;
 
-- 
2.43.0


From 3e2e87b691de2b09bfc7042d43d4feaf7896d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 129/133] fix: copies of a flat16_hash_map had another hasher
 and equality

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index c2ca1bf..1528b6d 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -998,7 +998,7 @@ public:
         slots_(nullptr), slot_size_(0), slot_mask_(0),
         left_empties_(0), n_mlf_(kDefaultLoadFactorInt),
         n_mlf_rev_(kDefaultLoadFactorRevInt),
-        hasher_(hasher()), key_equal_(key_equal()),
+        hasher_(other.hasher_), key_equal_(other.key_equal_),
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-- 
2.43.0


From 7f55a3a75d567cbe2f837a02c58e7a17081b926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 130/133] fix: group15_flat_map did not compile under the
 thread sanitizer

---
 src/jstd/hashmap/flat_map_group15.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_group15.hpp b/src/jstd/hashmap/flat_map_group15.hpp
index 3415089..95d9872 100644
--- a/src/jstd/hashmap/flat_map_group15.hpp
+++ b/src/jstd/hashmap/flat_map_group15.hpp
@@ -323,10 +323,10 @@ public:
          * 16-byte atomic reads.
          */
         return _mm_set_epi8(
-            (char)ctrls[15], (char)ctrls[14], (char)ctrls[13], (char)ctrls[12],
-            (char)ctrls[11], (char)ctrls[10], (char)ctrls[9],  (char)ctrls[8],
-            (char)ctrls[7],  (char)ctrls[6],  (char)ctrls[5],  (char)ctrls[4],
-            (char)ctrls[3],  (char)ctrls[2],  (char)ctrls[1],  (char)ctrls[0]
+            (char)ctrls[15].value(), (char)ctrls[14].value(), (char)ctrls[13].value(), (char)ctrls[12].value(),
+            (char)ctrls[11].value(), (char)ctrls[10].value(), (char)ctrls[9].value(),  (char)ctrls[8].value(),
+            (char)ctrls[7].value(),  (char)ctrls[6].value(),  (char)ctrls[5].value(),  (char)ctrls[4].value(),
+            (char)ctrls[3].value(),  (char)ctrls[2].value(),  (char)ctrls[1].value(),  (char)ctrls[0].value()
         );
 #else
         return _mm_load_si128(reinterpret_cast<const __m128i *>(ctrls));
-- 
2.43.0


From d450ee1bec696a6c49f3cdda9087419c286776c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 131/133] fix: swap() of pointers was ambiguous

---
 src/jstd/memory/swap.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jstd/memory/swap.h b/src/jstd/memory/swap.h
index f952122..1516d99 100644
--- a/src/jstd/memory/swap.h
+++ b/src/jstd/memory/swap.h
@@ -55,9 +55,8 @@ void swap(T & a, T & b) noexcept(std::is_nothrow_move_constructible<T>::value &&
     b = std::move(tmp);
 }
 
-template <typename T, typename std::enable_if<std::is_pointer<T>::value>::type * p = nullptr>
-void swap(T * & a, T * & b) noexcept(std::is_nothrow_move_constructible<T>::value &&
-                                     std::is_nothrow_move_assignable<T>::value)
+template <typename T>
+void swap(T * & a, T * & b) noexcept
 {
     T * tmp = a;
     a = b;
-- 
2.43.0


From 3af1d359f10704299171564f260cdd44b0064390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 132/133] fix: swap_ranges() asserted a distance of zero after
 every exchange

---
 src/jstd/memory/swap.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/memory/swap.h b/src/jstd/memory/swap.h
index 1516d99..936c954 100644
--- a/src/jstd/memory/swap.h
+++ b/src/jstd/memory/swap.h
@@ -69,11 +69,12 @@ void swap(T * & a, T * & b) noexcept
 template <typename ForwardIter1, typename ForwardIter2>
 ForwardIter2 swap_ranges(ForwardIter1 first1, ForwardIter1 last1, ForwardIter2 first2)
 {
+    ForwardIter1 first1_save = first1;
     ForwardIter2 first2_save = first2;
     while (first1 != last1) {
         std::iter_swap(first1++, first2++);
     }
-    assert(first2 == std::next(first2_save, jstd::distance(first1, last1)));
+    assert(first2 == std::next(first2_save, jstd::distance(first1_save, last1)));
     return first2;
 }
 
-- 
2.43.0


From f1c2d3a7900af2425efe011929a2cc974fd03c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:31 +0000
Subject: [PATCH 133/133] fix: swap() of arrays was ambiguous with
 std::swap_ranges()

---
 src/jstd/memory/swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/memory/swap.h b/src/jstd/memory/swap.h
index 936c954..7d94545 100644
--- a/src/jstd/memory/swap.h
+++ b/src/jstd/memory/swap.h
@@ -81,7 +81,7 @@ ForwardIter2 swap_ranges(ForwardIter1 first1, ForwardIter1 last1, ForwardIter2 f
 template <typename T, std::size_t N>
 void swap(T (&a)[N], T (&b)[N]) noexcept(noexcept(swap(*a, *b)))
 {
-    swap_ranges(a, a + N, b);
+    jstd::swap_ranges(a, a + N, b);
 }
 
 } // namespace jstd
-- 
2.43.0

