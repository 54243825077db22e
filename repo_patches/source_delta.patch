From 395f24c6c0a353b63d821be298d8f0f5055c9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 01/93] fix: move construction of group15/group16 flat maps
 does not compile

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..2416b75 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..c912df4 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-- 
2.43.0


From fb76c7efd8cbef5d970f8a901e57f1d1dce26ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 02/93] fix: copying group15/group16 flat maps: does not
 compile for trivial types, loses the size, leaks on exceptions

---
 src/jstd/hashmap/group15_flat_table.hpp | 81 ++++++++++---------------
 src/jstd/hashmap/group16_flat_table.hpp | 63 ++++++++-----------
 2 files changed, 57 insertions(+), 87 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 2416b75..a34a31a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1654,19 +1654,15 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_copy_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->ctrl_capacity() == other.ctrl_capacity()) {
+                this->fast_copy_slots_from(other);
+            } else {
                 this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
@@ -1675,6 +1671,9 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            // The copied ctrls describe the elements of other, so do the size and the threshold.
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1722,7 +1721,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1751,44 +1750,21 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Destroy the elements that have been constructed.
+            const ctrl_type * failed_ctrl = ctrl;
+            for (ctrl = this->ctrls(), index = 0; ctrl < failed_ctrl; ++index) {
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
+                    ++ctrl;
+                } else {
+                    ctrl += 2;
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
             throw;
         }
     }
@@ -2475,7 +2451,12 @@ private:
         slot_type * new_slot = locator.slot();
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        } catch (...) {
+            locator.group()->set_empty(locator.pos());
+            throw;
+        }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index c912df4..314837b 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1599,19 +1599,15 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_copy_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->slot_capacity() == other.slot_capacity()) {
+                this->fast_copy_slots_from(other);
+            } else {
                 this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
@@ -1620,6 +1616,9 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            // The copied ctrls describe the elements of other, so do the size and the threshold.
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1665,7 +1664,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1686,28 +1685,16 @@ private:
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Destroy the elements that have been constructed.
+            while (index > 0) {
+                --index;
+                --ctrl;
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
             throw;
         }
     }
@@ -2299,16 +2286,18 @@ private:
         slot_type * new_slot = this->slot_at(slot_index);
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        } catch (...) {
+            this->ctrl_at(slot_index)->set_empty();
+            throw;
+        }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
     JSTD_FORCED_INLINE
     void unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
-        assert(other != nullptr);
-        assert(other != this);
         for (; first != last; ++first) {
             const slot_type * old_slot = first.slot();
             this->no_grow_unique_insert(old_slot);
-- 
2.43.0


From 105874ea49459d7b2478fc0594326f6172377273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 03/93] fix: group15/group16 flat maps: allocator-extended move
 does not compile and loses the elements

---
 src/jstd/hashmap/group15_flat_table.hpp | 125 +++++++-----------------
 src/jstd/hashmap/group16_flat_table.hpp | 104 ++++++--------------
 2 files changed, 67 insertions(+), 162 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index a34a31a..3bef310 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -381,7 +381,7 @@ public:
         ctrl_mask_(size_type(-1)),
         slot_capacity_(0),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP15_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
@@ -402,8 +402,8 @@ public:
                 // Here we will move elements of [other] hashmap to this hashmap.
                 this->move_slots_from(other);
             }
-            // Destroy all data but needn't clear_slots().
-            other.destroy<false>();
+            // Destroy all data, the elements of other are in the moved-from state now.
+            other.template destroy<true>();
         }
     }
 
@@ -1777,61 +1777,31 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->ctrl_capacity() == other.ctrl_capacity()) {
+                this->fast_move_slots_from(other);
+            } else {
                 this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
     JSTD_FORCED_INLINE
     void fast_move_slots_from(group15_flat_table & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
+            copy_groups_array_from(other);
             move_slots_array_from(other);
+            // The copied ctrls describe the elements of other, so do the size and the threshold.
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
     }
 
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
-        }
-    }
-
     JSTD_FORCED_INLINE
     void move_slots_array_from(group15_flat_table & other) {
         this->move_slots_array_from(
@@ -1852,9 +1822,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
@@ -1870,7 +1837,6 @@ private:
                 if (ctrl->is_used()) {
                     if (JSTD_LIKELY(!ctrl->is_sentinel())) {
                         SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                        other.destroy_slot(&other_slot[index]);
                     } else {
                         break;
                     }
@@ -1883,44 +1849,21 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Destroy the elements that have been constructed.
+            const ctrl_type * failed_ctrl = ctrl;
+            for (ctrl = this->ctrls(), index = 0; ctrl < failed_ctrl; ++index) {
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
+                    ++ctrl;
+                } else {
+                    ctrl += 2;
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
             throw;
         }
     }
@@ -2429,14 +2372,18 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void no_grow_unique_transfer_insert(group15_flat_table * other, slot_type * old_slot) {
+    void no_grow_unique_move_insert(slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
         slot_type * new_slot = locator.slot();
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        other->destroy_slot(old_slot);
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        } catch (...) {
+            locator.group()->set_empty(locator.pos());
+            throw;
+        }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -2481,7 +2428,7 @@ private:
     void move_unique_insert(group15_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(&other, old_slot);
+            this->no_grow_unique_move_insert(old_slot);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 314837b..dde0c85 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -368,7 +368,7 @@ public:
 #if GROUP16_USE_INDEX_SHIFT
         index_shift_(kWordLength - 1),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP16_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
@@ -389,8 +389,8 @@ public:
                 // Here we will move elements of [other] hashmap to this hashmap.
                 this->move_slots_from(other);
             }
-            // Destroy all data but needn't clear_slots().
-            other.destroy<false>();
+            // Destroy all data, the elements of other are in the moved-from state now.
+            other.template destroy<true>();
         }
     }
 
@@ -1707,56 +1707,26 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
+        try {
+            if (this->slot_capacity() == other.slot_capacity()) {
+                this->fast_move_slots_from(other);
+            } else {
                 this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
             }
+        } catch (...) {
+            this->destroy<true>();
+            throw;
         }
     }
 
     JSTD_FORCED_INLINE
     void fast_move_slots_from(group16_flat_table & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
+            copy_groups_array_from(other);
             move_slots_array_from(other);
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
+            // The copied ctrls describe the elements of other, so do the size and the threshold.
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1780,9 +1750,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
@@ -1797,34 +1764,21 @@ private:
             while (ctrl < last_ctrl) {
                 if (ctrl->is_used()) {
                     SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                    other.destroy_slot(&other_slot[index]);
                 }
                 ++index;
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Destroy the elements that have been constructed.
+            while (index > 0) {
+                --index;
+                --ctrl;
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
+            this->clear_groups(this->groups(), this->group_capacity());
             throw;
         }
     }
@@ -2264,14 +2218,18 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void no_grow_unique_transfer_insert(group16_flat_table * other, slot_type * old_slot) {
+    void no_grow_unique_move_insert(slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
         slot_type * new_slot = this->slot_at(slot_index);
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        other->destroy_slot(old_slot);
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        } catch (...) {
+            this->ctrl_at(slot_index)->set_empty();
+            throw;
+        }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -2319,7 +2277,7 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_move_insert(old_slot);
         }
     }
 
-- 
2.43.0


From 3f2cc9532e88612206ad603791ccee54ae13ed4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 04/93] fix: group15/group16 flat_map::insert(first, last)
 inserts only the first element, insert(hint, P&&) does not compile

---
 src/jstd/hashmap/group15_flat_map.hpp | 4 ++--
 src/jstd/hashmap/group16_flat_map.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..34a7822 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -451,14 +451,14 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..73bf019 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -448,14 +448,14 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From 0526f6b7405bb09d419a2d7e464910392c313abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 05/93] fix: group15/group16 flat_map: insert_or_assign() and
 try_emplace(hint, ...) do not compile

---
 src/jstd/hashmap/group15_flat_map.hpp   | 22 +++++++++++-----------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++----
 src/jstd/hashmap/group16_flat_map.hpp   | 22 +++++++++++-----------
 src/jstd/hashmap/group16_flat_table.hpp |  8 ++++----
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 34a7822..fc6857f 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     ///
@@ -573,13 +573,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(hint, key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -592,7 +592,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -604,9 +604,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3bef310..e20db66 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -922,25 +922,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 73bf019..bef58c0 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(hint, std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     ///
@@ -570,13 +570,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(hint, key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -589,7 +589,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -601,9 +601,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index dde0c85..0a5df4d 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -870,25 +870,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 130006c4930b2a1ecfd30a458a92cec70e6bfb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 06/93] fix: group15/group16 flat_map: erase by iterator/range
 and std::erase_if do not compile

---
 src/jstd/hashmap/group15_flat_map.hpp   | 34 +++++++++----------------
 src/jstd/hashmap/group15_flat_table.hpp |  9 ++++---
 src/jstd/hashmap/group16_flat_map.hpp   | 33 +++++++++---------------
 3 files changed, 30 insertions(+), 46 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index fc6857f..1347fd5 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -618,35 +618,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,7 +646,7 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
+        InputIter iter = first;
         for (; iter != last; ++iter) {
             num_deleted += static_cast<size_type>(this->erase(*iter));
         }
@@ -722,13 +713,12 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
-    auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    auto iter = hash_map.begin();
+    while (iter != hash_map.end()) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index e20db66..4e78ec1 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1008,10 +1008,13 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        iterator next(pos);
+        ++next;
+        std::uintptr_t group_addr = reinterpret_cast<std::uintptr_t>(pos.ctrl()) & ~std::uintptr_t(kGroupWidth - 1);
+        size_type group_pos = static_cast<size_type>(reinterpret_cast<std::uintptr_t>(pos.ctrl()) - group_addr);
+        locator_t locator(reinterpret_cast<const group_type *>(group_addr), group_pos, pos.slot());
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        return next;
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index bef58c0..10d1f3f 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -615,34 +615,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -653,7 +645,7 @@ public:
         size_type num_deleted = 0;
         InputIter iter = first;
         for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+            num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
     }
@@ -718,13 +710,12 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
-    auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    auto iter = hash_map.begin();
+    while (iter != hash_map.end()) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
-- 
2.43.0


From dfec705a27f1a88d55215dc99cdd33381b6d1000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 07/93] fix: group15/group16 clear() on a default map writes to
 the shared default groups, and keeps a stale slot threshold

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 ++++++++---
 src/jstd/hashmap/group16_flat_table.hpp |  7 ++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 4e78ec1..671bf64 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1587,10 +1587,15 @@ private:
     void clear_data() {
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
-        this->clear_groups(this->groups(), this->group_capacity());
+        if (this->slots() != nullptr) {
+            this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+            // Set the sentinel mark
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+
+            // The overflow bits are cleared, so reset the slot threshold too.
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 0a5df4d..a41880c 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1543,7 +1543,12 @@ private:
     void clear_data() {
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
-        this->clear_groups(this->groups(), this->group_capacity());
+        if (this->slots() != nullptr) {
+            this->clear_groups(this->groups(), this->group_capacity());
+
+            // The overflow bits are cleared, so reset the slot threshold too.
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 47061e5a1eddcbd9dc4ea3a6d9958baec63701d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 08/93] fix: group15/group16 reserve/rehash/shrink_to_fit(true)
 give less capacity than requested (group15 can loop forever)

---
 src/jstd/hashmap/group15_flat_table.hpp | 29 ++++++++++++++++++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 29 ++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 671bf64..34da351 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -749,6 +749,7 @@ public:
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
         size_type fit_to_now = this->shrink_to_fit_capacity(this->size());
+        new_capacity = this_type::fit_to_slot_capacity(new_capacity);
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<false>(new_capacity);
@@ -763,7 +764,7 @@ public:
         if (JSTD_LIKELY(!read_only))
             new_capacity = this->shrink_to_fit_capacity(this->size());
         else
-            new_capacity = this->size();
+            new_capacity = this_type::fit_to_slot_capacity(this->size());
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
@@ -1297,8 +1298,30 @@ private:
         return this_type::calc_group_mask(capacity);
     }
 
-    inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+    // The number of slots that a table of [ctrl_capacity] can provide.
+    static inline size_type slot_capacity_for_ctrls(size_type ctrl_capacity) noexcept {
+        return this_type::calc_slot_capacity(this_type::calc_group_capacity(ctrl_capacity));
+    }
+
+    // The smallest ctrl capacity that provides at least [slot_capacity] slots.
+    static inline size_type fit_to_slot_capacity(size_type slot_capacity) noexcept {
+        static constexpr size_type kMaxCapacity = size_type(1) << (kWordLength - 10);
+        if (slot_capacity == 0) return 0;
+        size_type new_capacity = kMinCapacity;
+        while ((this_type::slot_capacity_for_ctrls(new_capacity) < slot_capacity) && (new_capacity < kMaxCapacity)) {
+            new_capacity *= 2;
+        }
+        return new_capacity;
+    }
+
+    // The smallest ctrl capacity that can hold [slot_size] elements without exceeding slot threshold.
+    inline size_type shrink_to_fit_capacity(size_type slot_size) const noexcept {
+        static constexpr size_type kMaxCapacity = size_type(1) << (kWordLength - 10);
+        size_type new_capacity = this_type::fit_to_slot_capacity(slot_size);
+        while ((this->calc_slot_threshold(this_type::slot_capacity_for_ctrls(new_capacity)) < slot_size) &&
+               (new_capacity != 0) && (new_capacity < kMaxCapacity)) {
+            new_capacity *= 2;
+        }
         return new_capacity;
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index a41880c..54ac06f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -695,6 +695,7 @@ public:
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
         size_type fit_to_now = this->shrink_to_fit_capacity(this->size());
+        new_capacity = this_type::fit_to_slot_capacity(new_capacity);
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
@@ -709,7 +710,7 @@ public:
         if (JSTD_LIKELY(!read_only))
             new_capacity = this->shrink_to_fit_capacity(this->size());
         else
-            new_capacity = this->size();
+            new_capacity = this_type::fit_to_slot_capacity(this->size());
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
@@ -1219,8 +1220,30 @@ private:
         return this_type::calc_group_mask(capacity);
     }
 
-    inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+    // The number of slots that a table of [ctrl_capacity] can provide.
+    static inline size_type slot_capacity_for_ctrls(size_type ctrl_capacity) noexcept {
+        return ctrl_capacity;
+    }
+
+    // The smallest ctrl capacity that provides at least [slot_capacity] slots.
+    static inline size_type fit_to_slot_capacity(size_type slot_capacity) noexcept {
+        static constexpr size_type kMaxCapacity = size_type(1) << (kWordLength - 10);
+        if (slot_capacity == 0) return 0;
+        size_type new_capacity = kMinCapacity;
+        while ((this_type::slot_capacity_for_ctrls(new_capacity) < slot_capacity) && (new_capacity < kMaxCapacity)) {
+            new_capacity *= 2;
+        }
+        return new_capacity;
+    }
+
+    // The smallest ctrl capacity that can hold [slot_size] elements without exceeding slot threshold.
+    inline size_type shrink_to_fit_capacity(size_type slot_size) const noexcept {
+        static constexpr size_type kMaxCapacity = size_type(1) << (kWordLength - 10);
+        size_type new_capacity = this_type::fit_to_slot_capacity(slot_size);
+        while ((this->calc_slot_threshold(this_type::slot_capacity_for_ctrls(new_capacity)) < slot_size) &&
+               (new_capacity != 0) && (new_capacity < kMaxCapacity)) {
+            new_capacity *= 2;
+        }
         return new_capacity;
     }
 
-- 
2.43.0


From a48c819d9e2167bdcea308da7c9a7b123d45e63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 09/93] fix: group15/group16 max_load_factor(mlf) doubles the
 capacity on every call

---
 src/jstd/hashmap/group15_flat_table.hpp | 12 +++++++-----
 src/jstd/hashmap/group16_flat_table.hpp | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 34da351..cfe8d01 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -619,17 +619,19 @@ public:
 
     void max_load_factor(float mlf) {
         // mlf: [0.5, 0.875]
-        if (mlf < kMinLoadFactorF)
+        if (!(mlf >= kMinLoadFactorF))
             mlf = kMinLoadFactorF;
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
-        size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
-        if (new_ctrl_capacity > this->ctrl_capacity()) {
-            this->rehash(new_ctrl_capacity);
+        if (this->slots() != nullptr) {
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+            // Only the elements exceed the new slot threshold need to be rehashed.
+            if (this->slot_size() > this->slot_threshold()) {
+                this->rehash_impl<false>(this->shrink_to_fit_capacity(this->slot_size()));
+            }
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 54ac06f..3955f90 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -578,17 +578,19 @@ public:
 
     void max_load_factor(float mlf) {
         // mlf: [0.5, 0.875]
-        if (mlf < kMinLoadFactorF)
+        if (!(mlf >= kMinLoadFactorF))
             mlf = kMinLoadFactorF;
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
-        size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
-        if (new_ctrl_capacity > this->ctrl_capacity()) {
-            this->rehash(new_ctrl_capacity);
+        if (this->slots() != nullptr) {
+            this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
+            // Only the elements exceed the new slot threshold need to be rehashed.
+            if (this->slot_size() > this->slot_threshold()) {
+                this->rehash_impl<false>(this->shrink_to_fit_capacity(this->slot_size()));
+            }
         }
     }
 
-- 
2.43.0


From e56a87107bd2c671528719fd2d4049a42dabcd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 10/93] fix: group15/group16 slot threshold drift: the table
 can be filled up (endless insert) or the threshold underflows

---
 src/jstd/hashmap/group15_flat_table.hpp | 7 ++++---
 src/jstd/hashmap/group16_flat_table.hpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index cfe8d01..0b61937 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2315,7 +2315,9 @@ private:
                     } else {
                         is_deleted_slot = true;
                     }
-                    this->slot_threshold_ += is_deleted_slot;
+                    // The slot threshold never exceeds its initial value, otherwise the table may be filled up.
+                    this->slot_threshold_ += (is_deleted_slot &&
+                        (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity())));
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif // GROUP15_USE_NEW_OVERFLOW
                 }
@@ -2748,8 +2750,7 @@ private:
 #endif
         assert(group->is_used(group_pos));
         group->set_empty(group_pos);
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        this->slot_threshold_ -= (maybe_overflow && (this->slot_threshold_ > 0));
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3955f90..eb87954 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2157,7 +2157,9 @@ private:
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
                     bool is_deleted_slot = group->is_overflow(ctrl_hash);
-                    this->slot_threshold_ += is_deleted_slot;
+                    // The slot threshold never exceeds its initial value, otherwise the table may be filled up.
+                    this->slot_threshold_ += (is_deleted_slot &&
+                        (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity())));
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
                 }
@@ -2576,8 +2578,7 @@ private:
         bool maybe_overflow = this->maybe_caused_overflow(ctrl);
         assert(ctrl->is_used());
         ctrl->set_empty();
-        assert(this->slot_threshold_ > 0);
-        this->slot_threshold_ -= maybe_overflow;
+        this->slot_threshold_ -= (maybe_overflow && (this->slot_threshold_ > 0));
         assert(this->slot_size_ > 0);
         this->slot_size_--;
     }
-- 
2.43.0


From c0e5801af12cade86a13e81820e037657eed747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 11/93] fix: Power2.h and group15 do not compile without NDEBUG
 (assert() uses undeclared names)

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/support/Power2.h               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 0b61937..6e8f89e 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1485,7 +1485,7 @@ private:
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
         size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..3dedd07 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,7 +196,7 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
@@ -259,7 +259,7 @@ round_up(SizeType N)
                   "Error: pow2::round_up(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
@@ -332,7 +332,7 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-- 
2.43.0


From 7aabe7abf985ada69288f26e933fa8c94536416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 12/93] fix: group15/group16: an exception thrown while
 inserting leaves a used slot without an element (and leaks groups)

---
 src/jstd/hashmap/group15_flat_table.hpp | 66 +++++++++++++---------
 src/jstd/hashmap/group16_flat_table.hpp | 75 +++++++++++++++----------
 2 files changed, 84 insertions(+), 57 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 6e8f89e..ed38557 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2467,6 +2467,23 @@ private:
         }
     }
 
+    ///
+    /// Construct a new element at the inserted position, if the constructor throws,
+    /// give the position back.
+    ///
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(locator_t & locator, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, locator.slot(),
+                                        std::forward<Args>(args)...);
+        } catch (...) {
+            locator.group()->set_empty(locator.pos());
+            throw;
+        }
+        this->slot_size_++;
+    }
+
     template <bool AlwaysUpdate, typename ValueT, typename std::enable_if<
               (jstd::is_same_ex<ValueT, value_type>::value ||
                std::is_constructible<value_type, const ValueT &>::value) ||
@@ -2481,8 +2498,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(locator, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2509,8 +2525,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator, std::move(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2549,10 +2564,9 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2588,11 +2602,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2626,11 +2639,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2694,11 +2706,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { locator, need_insert };
     }
@@ -2714,11 +2725,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { locator, need_insert };
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index eb87954..93745f8 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1920,7 +1920,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
@@ -2313,6 +2319,24 @@ private:
         }
     }
 
+    ///
+    /// Construct a new element at the inserted position, if the constructor throws,
+    /// give the position back.
+    ///
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(size_type slot_index, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, this->slot_at(slot_index),
+                                        std::forward<Args>(args)...);
+        } catch (...) {
+            this->slot_size_++;
+            this->reset_ctrl(slot_index);
+            throw;
+        }
+        this->slot_size_++;
+    }
+
     template <bool AlwaysUpdate, typename ValueT, typename std::enable_if<
               (jstd::is_same_ex<ValueT, value_type>::value ||
                std::is_constructible<value_type, const ValueT &>::value) ||
@@ -2327,8 +2351,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2355,8 +2378,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, std::move(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2394,10 +2416,9 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2432,11 +2453,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2469,11 +2489,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2536,11 +2555,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot_index), need_insert };
     }
@@ -2555,11 +2573,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot_index), need_insert };
     }
-- 
2.43.0


From 8431c197b169eb856d96a19473a30b8fa09d9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 13/93] fix: group15/group16: insert()/emplace() of an lvalue
 pair moves from the caller's pair

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index ed38557..0c0411a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2525,7 +2525,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            this->construct_new_slot(locator, std::move(value));
+            this->construct_new_slot(locator, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 93745f8..1492fdc 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2378,7 +2378,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            this->construct_new_slot(slot_index, std::move(value));
+            this->construct_new_slot(slot_index, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
-- 
2.43.0


From ee3471750607c95356d936b358dab09fa392320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 14/93] fix: group15/group16: assignment leaves the contents
 with an allocator that did not allocate them

---
 src/jstd/hashmap/group15_flat_table.hpp | 24 +++++++++++++++++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 0c0411a..d4701ab 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -416,7 +416,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->assign_impl(tmp);
         return *this;
     }
 
@@ -2792,7 +2792,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2801,7 +2801,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2845,6 +2845,24 @@ private:
         }
     }
 
+    ///
+    /// Take over the contents of a temporary in assignments. The elements have been allocated
+    /// by the allocators of [other], so the allocators always go with the contents.
+    ///
+    JSTD_FORCED_INLINE
+    void assign_impl(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+#if GROUP15_USE_HASH_POLICY
+        swap(this->hash_policy_, other.hash_policy_ref());
+#endif
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1492fdc..abd44be 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -403,7 +403,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->assign_impl(tmp);
         return *this;
     }
 
@@ -2627,7 +2627,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2636,7 +2636,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2678,6 +2678,24 @@ private:
         }
     }
 
+    ///
+    /// Take over the contents of a temporary in assignments. The elements have been allocated
+    /// by the allocators of [other], so the allocators always go with the contents.
+    ///
+    JSTD_FORCED_INLINE
+    void assign_impl(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+#if GROUP16_USE_HASH_POLICY
+        swap(this->hash_policy_, other.hash_policy_ref());
+#endif
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
-- 
2.43.0


From 0687d10c72d0287c3fefae2eb5324ef64653b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 15/93] fix: group15/group16: insert(P&&) does not compile for
 a move-only mapped type

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 +----------
 src/jstd/hashmap/group16_flat_table.hpp | 11 +----------
 2 files changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index d4701ab..1608713 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2516,7 +2516,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         auto find_info = this->find_or_insert(value.first);
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
@@ -2530,15 +2529,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = value.second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { locator, need_insert };
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index abd44be..18679f5 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2369,7 +2369,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         auto find_info = this->find_or_insert(value.first);
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
@@ -2383,15 +2382,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = value.second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { this->iterator_at(slot_index), need_insert };
-- 
2.43.0


From 1c4d2408c21f8f6ac2dea370b866665d51e361ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 16/93] fix: utility.h: print_tuple() is defined in every
 translation unit (link error)

---
 src/jstd/utility/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/utility/utility.h b/src/jstd/utility/utility.h
index 5b232ad..95d4b45 100644
--- a/src/jstd/utility/utility.h
+++ b/src/jstd/utility/utility.h
@@ -347,7 +347,7 @@ struct tuple_wrapper2<T, typename std::remove_reference<T>::type, true> {
 // From: https://blog.csdn.net/netyeaxi/article/details/83539928
 //
 
-void print_tuple() {
+inline void print_tuple() {
     std::cout << std::endl;
 }
 
-- 
2.43.0


From a860acc3964157fb8729a50e80e0ceb121251175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 17/93] fix: group15/group16: reserve(0) destroys all the
 elements

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 1608713..c77b685 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -735,7 +735,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 18679f5..1e86843 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -671,7 +671,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
-- 
2.43.0


From 3e7f46133a5400f4e11ea1e8d4d1112723ae64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 18/93] fix: robin_hash_map: the distance limit is never
 checked (or is past the table), colliding keys write past the end of the
 table

---
 src/jstd/hashmap/robin_hash_map.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..1c9e3fa 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5489,7 +5489,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5514,7 +5514,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5594,7 +5594,7 @@ InsertOrGrow:
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
 InsertOrGrow_Start:
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5642,7 +5642,7 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5764,7 +5764,7 @@ InsertOrGrow_Start:
             if (isRehashing) {
                 assert(rich_ctrl.uvalue < this->max_distance());
             } else {
-                if (rich_ctrl.uvalue >= this->max_distance()) {
+                if (rich_ctrl.getDist() >= this->max_lookups()) {
                     this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
                     this->destroy_empty_slot(empty);
                     return kNeedGrow;
@@ -5804,7 +5804,7 @@ InsertOrGrow_Start:
             if (isRehashing) {
                 assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
             } else {
-                if (rich_ctrl.getDist() > static_cast<udist_type>(kMaxDist)) {
+                if (rich_ctrl.getDist() >= this->max_lookups()) {
                     insert_ctrl->setValue(rich_ctrl);
                     return kNeedGrow;
                 }
@@ -6326,7 +6326,7 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
-- 
2.43.0


From ecf86ed2209fa22159f11d722462dace96081df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 19/93] fix: robin_hash_map: swap() does not swap the end of
 the slots, move construction loses the slot threshold

---
 src/jstd/hashmap/robin_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 1c9e3fa..a27fb49 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3152,7 +3152,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
@@ -6556,6 +6556,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From 0f5d3b96bce27022cbbc673606fed21d7643da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 20/93] fix: robin_hash_map: find() of an absent key does not
 return end()

---
 src/jstd/hashmap/robin_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index a27fb49..74c1afc 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3555,10 +3555,10 @@ public:
 
     const_iterator find(const key_type & key) const {
         const slot_type * slot = this->find_impl(key);
-        if (!kIsIndirectKV)
-            return this->iterator_at(this->index_of(slot));
-        else
+        if (slot != this->last_slot())
             return this->iterator_at(slot);
+        else
+            return this->end();
     }
 
     std::pair<iterator, iterator> equal_range(const key_type & key) {
-- 
2.43.0


From 48e38348618ae5add26d5397af8a530b74804b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 21/93] fix: robin_hash_map: clear() writes to the shared
 default ctrls, clear(true) scans past their end

---
 src/jstd/hashmap/robin_hash_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 74c1afc..6a303f0 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4177,6 +4177,8 @@ private:
         this->destroy_slots();
 
         this->destroy_ctrls();
+
+        this->template reset<false>();
     }
 
     void destroy_slots() noexcept {
@@ -4211,8 +4213,10 @@ private:
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-        this->clear_ctrls(this->ctrls(), this->slot_capacity(),
-                          this->max_lookups(), this->group_count());
+        if (this->ctrls() != this_type::default_empty_ctrls()) {
+            this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                              this->max_lookups(), this->group_count());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 84cf1d768f2893d04d7bd72b7c0324063c6a1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 22/93] fix: robin_hash_map: copies of maps with indirect slots
 are broken, max_load_factor() is not copied

---
 src/jstd/hashmap/robin_hash_map.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 6a303f0..c0f4b40 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3119,8 +3119,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.integral_mlf()),
+        n_mlf_rev_(other.integral_mlf_rev()),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(),
 #endif
@@ -3171,8 +3171,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.integral_mlf()),
+        n_mlf_rev_(other.integral_mlf_rev()),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
@@ -3189,10 +3189,10 @@ public:
             size_type other_size = other.size();
             this->reserve_for_insert(other_size);
 
-            // Note: this will copy elements of dense_set and unordered_set instead of
-            // moving them. This can be fixed if it ever becomes an issue.
             try {
-                this->unique_insert(other.begin(), other.end());
+                for (iterator iter = other.begin(); iter != other.end(); ++iter) {
+                    this->unique_insert(std::move(*iter));
+                }
             } catch (const std::bad_alloc & ex) {
                 this->destroy();
                 throw std::bad_alloc();
@@ -3200,6 +3200,8 @@ public:
                 this->destroy();
                 throw;
             }
+            // The elements of other are in the moved-from state now.
+            other.destroy();
         }
     }
 
@@ -6310,6 +6312,10 @@ InsertOrGrow_Start:
     template <typename KeyT>
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key) {
+        if (kIsIndirectKV) {
+            auto find_info = this->indirect_find_and_insert(key);
+            return { find_info.first, (find_info.second == kNeedGrow) };
+        }
         hash_code_t hash_code = this->get_hash(key);
         return this->unique_find_and_insert(key, hash_code);
     }
@@ -6419,7 +6425,7 @@ Insert_To_Slot:
     template <typename InputIter>
     void unique_insert(InputIter first, InputIter last) {
         for (InputIter iter = first; iter != last; ++iter) {
-            this->unique_insert(static_cast<value_type>(*iter));
+            this->unique_insert(*iter);
         }
     }
 
-- 
2.43.0


From 7b93010f9cc853fad86a5d43b3dd152c82b68374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 23/93] fix: robin_hash_map: an exception in a range or
 initializer_list constructor leaks the table

---
 src/jstd/hashmap/robin_hash_map.h | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index c0f4b40..f9a2b19 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3080,14 +3080,7 @@ public:
                    const hasher & hash = hasher(),
                    const key_equal & equal = key_equal(),
                    const allocator_type & alloc = allocator_type()) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-        hasher_(hash), key_equal_(equal),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+        robin_hash_map(size_type(0), hash, equal, alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
@@ -3210,17 +3203,7 @@ public:
                    const hasher & hash = hasher(),
                    const key_equal & equal = key_equal(),
                    const allocator_type & alloc = allocator_type()) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-#if ROBIN_USE_HASH_POLICY
-        hash_policy_(),
-#endif
-        hasher_(hash), key_equal_(equal),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+        robin_hash_map(size_type(0), hash, equal, alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type reserve_capacity = (init_capacity >= init_list.size()) ? init_capacity : init_list.size();
         this->reserve_for_insert(reserve_capacity);
-- 
2.43.0


From 965dd283b4068faa2eceac3373d1832b093bbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 24/93] fix: robin_hash_map: insert(initializer_list),
 insert(hint, P&&), insert_or_assign(hint, ...) do not compile,
 insert_or_assign(key &) moves from the caller's key

---
 src/jstd/hashmap/robin_hash_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f9a2b19..6d98992 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3588,8 +3588,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -3600,7 +3600,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
@@ -3610,17 +3610,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 1028541017f3f8d9f57588a5b1dae6637945e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 25/93] fix: robin_hash_map: erase by iterator or range and
 std::erase_if do not compile

---
 src/jstd/hashmap/robin_hash_map.h | 51 +++++++++++++++----------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 6d98992..7d458d6 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2889,7 +2889,7 @@ public:
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
@@ -3712,23 +3712,14 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
-            size_type ctrl_index = this->index_of(pos);
+        size_type ctrl_index = this->index_of(pos);
+        if (!kIsIndirectKV) {
             this->erase_slot(ctrl_index);
-            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-            return this->next_valid_iterator(ctrl, pos);
+            return this->next_valid_iterator(this->ctrl_at(ctrl_index), pos);
         } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
+            // The last element is moved to the erased slot.
+            this->indirect_erase_slot(ctrl_index);
+            return pos;
         }
     }
 
@@ -3737,18 +3728,26 @@ public:
     }
 
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
+        if (!kIsIndirectKV) {
+            // The elements behind the erased element may be moved forward, but their order does not change.
+            size_type count = 0;
+            for (const_iterator iter = first; iter != last; ++iter) {
+                count++;
+            }
+            iterator pos(first);
+            for (; count != 0; count--) {
+                pos = this->erase(pos);
             }
+            return pos;
         } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
+            // The last element is moved to the erased slot, it needs to be traversed from the last to the first.
+            iterator pos(last);
+            while (pos != iterator(first)) {
+                --pos;
+                this->erase(pos);
             }
+            return pos;
         }
-        return { first };
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -4082,7 +4081,7 @@ private:
             return pos.index();
         } else {
             const slot_type * slot = pos.slot();
-            size_type ctrl_index = this->bucket(slot->key);
+            size_type ctrl_index = this->find_ctrl_index(slot->value.first);
             return ctrl_index;
         }
     }
@@ -4092,7 +4091,7 @@ private:
             return pos.index();
         } else {
             const slot_type * slot = pos.slot();
-            size_type ctrl_index = this->bucket(slot->key);
+            size_type ctrl_index = this->find_ctrl_index(slot->value.first);
             return ctrl_index;
         }
     }
-- 
2.43.0


From 0e0a3ddca2430da8c390dcf57d3c9466e6eecd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 26/93] fix: robin_hash_map: shrinking ignores the distance
 limit and can write past the end of the table

---
 src/jstd/hashmap/robin_hash_map.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7d458d6..36a7c06 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4385,6 +4385,17 @@ private:
         this->slot_threshold_ = this->calc_slot_threshold(new_capacity);
     }
 
+    void shrink_to(size_type new_capacity) {
+        this_type tmp(size_type(0), this->hasher_, this->key_equal_, this->allocator_);
+        tmp.n_mlf_ = this->n_mlf_;
+        tmp.n_mlf_rev_ = this->n_mlf_rev_;
+        tmp.template create_slots<true>(new_capacity);
+        for (iterator iter = this->begin(); iter != this->end(); ++iter) {
+            tmp.unique_insert(std::move(*iter));
+        }
+        this->swap_content(tmp);
+    }
+
     template <bool AllowShrink, bool AlwaysResize>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
@@ -4398,6 +4409,13 @@ private:
                 assert(new_capacity >= this->slot_size());
             }
 
+            if (new_capacity < this->slot_capacity()) {
+                // The distances of the elements may exceed max_lookups() in a smaller table,
+                // so it may need to grow again.
+                this->shrink_to(new_capacity);
+                return;
+            }
+
             ctrl_type * old_ctrls = this->ctrls();
             size_type old_group_count = this->group_count();
             size_type old_group_capacity = this->group_capacity();
-- 
2.43.0


From 776b6a7971059f9c102903d131a3d99eae3b8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 27/93] fix: robin_hash_map: an insertion that reaches the
 distance limit destroys the displaced element and leaks a temporary

---
 src/jstd/hashmap/robin_hash_map.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 36a7c06..f9eb65a 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5825,7 +5825,9 @@ InsertOrGrow_Start:
     void emplace_rich_slot(ctrl_type * ctrl, slot_type * slot, slot_type * insert,
                            const ctrl_type & dist_and_hash) {
         this->setUsedCtrl(ctrl, dist_and_hash);
-        this->transfer_slot(slot, insert);
+        if (slot != insert) {
+            this->transfer_slot(slot, insert);
+        }
     }
 
     JSTD_FORCED_INLINE
@@ -6094,10 +6096,15 @@ InsertOrGrow_Start:
         } else {
             assert (is_exists == kNeedGrow);
             this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
+            if (kIsLayoutCompatible) {
+                auto result = this->emplace(std::move(tmp_slot->mutable_value));
+                SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+                return result;
+            } else {
+                auto result = this->emplace(std::move(tmp_slot->value));
+                SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+                return result;
+            }
         }
     }
 
-- 
2.43.0


From 111b09e268e4ee795da92fa9b45b59087af2bdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 28/93] fix: robin_hash_map: max_load_factor(mlf) does not
 change the slot threshold, load_factor() divides by zero on a default map

---
 src/jstd/hashmap/robin_hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f9eb65a..4280d4b 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3295,7 +3295,7 @@ public:
     }
 
     float load_factor() const {
-        return ((float)this->slot_size() / this->slot_capacity());
+        return ((float)this->slot_size() / this->capacity());
     }
 
     void max_load_factor(float mlf) {
@@ -3310,7 +3310,8 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
+        size_type new_slot_threshold = this->calc_slot_threshold(this->slot_capacity());
+        this->slot_threshold_ = new_slot_threshold;
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
-- 
2.43.0


From 06ddcbb37e395a61447c6db930a116ec0679f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 29/93] fix: robin_hash_map: assignment leaves the contents
 with an allocator that did not allocate them

---
 src/jstd/hashmap/robin_hash_map.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 4280d4b..9778fc1 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3232,7 +3232,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->assign_impl(tmp);
         return *this;
     }
 
@@ -6557,7 +6557,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -6565,7 +6565,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -6601,6 +6601,18 @@ Insert_To_Slot:
         }
     }
 
+    // Take over the contents of a temporary in assignments. The elements have been allocated
+    // by the allocators of [other], so the allocators always go with the contents.
+    void assign_impl(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->ctrl_allocator_, other.get_ctrl_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
         this->swap_policy(other);
-- 
2.43.0


From a74734396a6cebd25d5edc8bb26d33c83dce70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 30/93] fix: robin_hash_map: reserve(n) can give less capacity
 than n elements require

---
 src/jstd/hashmap/robin_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 9778fc1..f00e1bb 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3852,7 +3852,7 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + kLoadFactorAmplify - 1) / kLoadFactorAmplify;
         return new_capacity;
     }
 
@@ -4391,9 +4391,12 @@ private:
         tmp.n_mlf_ = this->n_mlf_;
         tmp.n_mlf_rev_ = this->n_mlf_rev_;
         tmp.template create_slots<true>(new_capacity);
+        // The capacity may be less than what max_load_factor() requires (read only).
+        tmp.slot_threshold_ = tmp.slot_capacity();
         for (iterator iter = this->begin(); iter != this->end(); ++iter) {
             tmp.unique_insert(std::move(*iter));
         }
+        tmp.slot_threshold_ = tmp.calc_slot_threshold(tmp.slot_capacity());
         this->swap_content(tmp);
     }
 
-- 
2.43.0


From 0f3274eebd448c58012913383475b8bd4fe8caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 31/93] fix: robin_hash_map: insert(value_type &&) does not
 compile for a move-only mapped type

---
 src/jstd/hashmap/robin_hash_map.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f00e1bb..68daf6a 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5920,11 +5920,7 @@ InsertOrGrow_Start:
             // The key to be inserted already exists.
             assert(is_exists == kIsExists);
             if (AlwaysUpdate) {
-                static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
-                if (is_rvalue_ref)
-                    slot->value.second = std::move(value.second);
-                else
-                    slot->value.second = value.second;
+                slot->value.second = std::move(value.second);
             }
             return { this->iterator_at(slot), false };
         } else {
-- 
2.43.0


From a3314414b911916dbdbdadf89612080fb84ab7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 32/93] fix: robin_hash_map: rehash(n) and reserve(n) below the
 size ignore the maximum load factor

---
 src/jstd/hashmap/robin_hash_map.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 68daf6a..5ab2442 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3509,10 +3509,9 @@ public:
     }
 
     void rehash(size_type new_capacity, bool read_only = false) {
+        new_capacity = (std::max)(new_capacity, this->slot_size());
         if (!read_only)
-            new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
-        else
-            new_capacity = (std::max)(new_capacity, this->slot_size());
+            new_capacity = this->min_require_capacity(new_capacity);
         this->rehash_impl<true, false>(new_capacity);
     }
 
-- 
2.43.0


From 36df8a1ad72ab8ddd81619789151587be6878e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 33/93] fix: string_utils.h: is_equal() and compare() read
 behind the strings, and skip characters wider than expected

---
 src/jstd/string/string_utils.h | 269 ++++++++++++++-------------------
 1 file changed, 113 insertions(+), 156 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index a550915..ff8770d 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -137,6 +137,69 @@ wchar_t * str_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 
 ////////////////////////////////// is_equal() //////////////////////////////////////
 
+namespace detail {
+
+// Compare the last bytes (less than 16), without reading behind them.
+static inline
+bool is_equal_tail(const char * p1, const char * p2, std::size_t bytes)
+{
+    assert(bytes < 16);
+    if (bytes >= sizeof(uint64_t)) {
+        uint64_t a1, a2, b1, b2;
+        std::memcpy(&a1, p1, sizeof(uint64_t));
+        std::memcpy(&a2, p2, sizeof(uint64_t));
+        std::memcpy(&b1, p1 + bytes - sizeof(uint64_t), sizeof(uint64_t));
+        std::memcpy(&b2, p2 + bytes - sizeof(uint64_t), sizeof(uint64_t));
+        return (((a1 ^ a2) | (b1 ^ b2)) == 0);
+    }
+    else if (bytes >= sizeof(uint32_t)) {
+        uint32_t a1, a2, b1, b2;
+        std::memcpy(&a1, p1, sizeof(uint32_t));
+        std::memcpy(&a2, p2, sizeof(uint32_t));
+        std::memcpy(&b1, p1 + bytes - sizeof(uint32_t), sizeof(uint32_t));
+        std::memcpy(&b2, p2 + bytes - sizeof(uint32_t), sizeof(uint32_t));
+        return (((a1 ^ a2) | (b1 ^ b2)) == 0);
+    }
+    else {
+        while (bytes > 0) {
+            if (*p1 != *p2)
+                return false;
+            p1++;
+            p2++;
+            bytes--;
+        }
+        return true;
+    }
+}
+
+#if defined(__SSE4_2__)
+
+// The index of the first different char, or count. No byte behind the end of the strings may be read.
+template <typename CharTy>
+static inline
+std::size_t mismatch_index(const CharTy * str1, const CharTy * str2, std::size_t count)
+{
+    static constexpr std::size_t kMaxChars = 16 / sizeof(CharTy);
+
+    std::size_t index = 0;
+    while ((count - index) >= kMaxChars) {
+        __m128i __str1 = _mm_loadu_si128((const __m128i *)(str1 + index));
+        __m128i __str2 = _mm_loadu_si128((const __m128i *)(str2 + index));
+        // Full matched, continue match next kMaxChars chars.
+        if (unlikely(_mm_movemask_epi8(_mm_cmpeq_epi8(__str1, __str2)) != 0xFFFF))
+            break;
+        index += kMaxChars;
+    }
+    while (index < count && str1[index] == str2[index]) {
+        index++;
+    }
+    return index;
+}
+
+#endif // __SSE4_2__
+
+} // namespace detail
+
 #if 0
 
 template <typename CharTy>
@@ -182,27 +245,23 @@ template <typename CharTy>
 static inline
 bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
 {
-    assert(str1 != nullptr && str2 != nullptr);
-
-    static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
-    static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
-    static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
-                                | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
-
-    int slength = (int)length;
-    while (likely(slength > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slength >= kMaxSize) ? kMaxSize : slength;
-        assert(len > 0);
-
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        str1 += kMaxSize;
-        str2 += kMaxSize;
-        slength -= kMaxSize;
-        if (likely(full_matched == 0)) {
-            // Full matched, continue match next kMaxSize bytes.
-            continue;
+    assert((str1 != nullptr && str2 != nullptr) || length == 0);
+
+    static constexpr std::size_t kMaxBytes = 16;
+
+    // No byte behind the end of the strings may be read.
+    const char * p1 = (const char *)str1;
+    const char * p2 = (const char *)str2;
+    std::size_t bytes = length * sizeof(CharTy);
+
+    while (bytes >= kMaxBytes) {
+        __m128i __str1 = _mm_loadu_si128((const __m128i *)p1);
+        __m128i __str2 = _mm_loadu_si128((const __m128i *)p2);
+        if (likely(_mm_movemask_epi8(_mm_cmpeq_epi8(__str1, __str2)) == 0xFFFF)) {
+            // Full matched, continue match next kMaxBytes bytes.
+            p1 += kMaxBytes;
+            p2 += kMaxBytes;
+            bytes -= kMaxBytes;
         }
         else {
             // It's dismatched.
@@ -210,8 +269,8 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
         }
     }
 
-    // It's matched, or the length is equal 0.
-    return true;
+    // Compare the remain bytes.
+    return detail::is_equal_tail(p1, p2, bytes);
 }
 
 #elif (STRING_UTILS_MODE == STRING_UTILS_U64)
@@ -220,57 +279,34 @@ template <typename CharTy>
 static inline
 bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
 {
-    assert(str1 != nullptr && str2 != nullptr);
+    assert((str1 != nullptr && str2 != nullptr) || length == 0);
 
-    static const std::size_t kMaxSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne64 = 0xFFFFFFFFFFFFFFFFULL;
+    static constexpr std::size_t kMaxSize = sizeof(uint64_t);
 
-    uint64_t * __str1 = (uint64_t * )str1;
-    uint64_t * __str2 = (uint64_t * )str2;
+    // No byte behind the end of the strings may be read.
+    const char * p1 = (const char *)str1;
+    const char * p2 = (const char *)str2;
+    std::size_t bytes = length * sizeof(CharTy);
 
-    while (likely(length > 0)) {
-        assert(__str1 != nullptr && __str2 != nullptr);
-        if (likely(length >= kMaxSize)) {
-            // Compare 8 bytes each time.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            if (likely(val64_1 == val64_2)) {
-                // Full matched, continue match next kMaxSize bytes.
-                __str1++;
-                __str2++;
-                length -= kMaxSize;
-                continue;
-            }
-            else {
-                // It's dismatched.
-                return false;
-            }
+    while (bytes >= kMaxSize) {
+        // Compare 8 bytes each time.
+        uint64_t val64_1, val64_2;
+        std::memcpy(&val64_1, p1, kMaxSize);
+        std::memcpy(&val64_2, p2, kMaxSize);
+        if (likely(val64_1 == val64_2)) {
+            // Full matched, continue match next kMaxSize bytes.
+            p1 += kMaxSize;
+            p2 += kMaxSize;
+            bytes -= kMaxSize;
         }
         else {
-            // Get the mask64
-            assert(length > 0 && length < kMaxSize);
-            uint32_t rest = (uint32_t)(kMaxSize - length);
-            assert(rest > 0 && rest < (uint32_t)kMaxSize);
-            uint64_t mask64 = kMaskOne64 >> (rest * 8U);
-
-            // Compare the remain bytes.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            val64_1 &= mask64;
-            val64_2 &= mask64;
-            if (likely(val64_1 == val64_2)) {
-                // Full matched, return true.
-                return true;
-            }
-            else {
-                // It's dismatched.
-                return false;
-            }
+            // It's dismatched.
+            return false;
         }
     }
 
-    // It's matched, or the length is equal 0.
-    return true;
+    // Compare the remain bytes.
+    return detail::is_equal_tail(p1, p2, bytes);
 }
 
 #elif (STRING_UTILS_MODE == STRING_UTILS_STL)
@@ -419,52 +455,17 @@ static inline
 int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
 {
 #if (defined(__SSE4_2__) && (STRING_UTILS_MODE == STRING_UTILS_SSE42))
-    assert(str1 != nullptr);
-    assert(str2 != nullptr);
-
-    static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
-    static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
-    static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
-                                | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
+    assert((str1 != nullptr && str2 != nullptr) || count == 0);
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    int slen = (int)count;
-
-    while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
-        assert(len > 0);
-
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        str1 += kMaxSize;
-        str2 += kMaxSize;
-        slen -= kMaxSize;
-        if (likely(full_matched == 0)) {
-            // Full matched, continue match next kMaxSize bytes.
-            assert(matched_index >= kMaxSize);
-            if (slen <= 0) {
-                assert((matched_index == kMaxSize) ||
-                       (len == (matched_index - 1)));
-            }
-            continue;
-        }
-        else {
-            // It's dismatched.
-            assert(matched_index >= 0 && matched_index < kMaxSize);
-            assert(matched_index <= len);
-            int offset = (kMaxSize - matched_index);
-            UCharTy ch1 = *((const UCharTy *)str1 - offset);
-            UCharTy ch2 = *((const UCharTy *)str2 - offset);
-            // The value of ch1 and ch2 must be not equal!
-            assert(ch1 != ch2);
-            if (ch1 > ch2)
-                return CompareResult::IsBigger;
-            else
-                return CompareResult::IsSmaller;
-        }
+    std::size_t index = detail::mismatch_index(str1, str2, count);
+    if (index < count) {
+        // It's dismatched.
+        if (UCharTy(str1[index]) > UCharTy(str2[index]))
+            return CompareResult::IsBigger;
+        else
+            return CompareResult::IsSmaller;
     }
 
     // It's matched, or the length is equal 0.
@@ -482,54 +483,10 @@ static inline
 int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::size_t len2)
 {
 #if (defined(__SSE4_2__) && (STRING_UTILS_MODE == STRING_UTILS_SSE42))
-    assert(str1 != nullptr);
-    assert(str2 != nullptr);
-
-    static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
-    static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
-    static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
-                                | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
-
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
-
     std::size_t count = (len1 <= len2) ? len1 : len2;
-    int slen = (int)count;
-
-    while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
-        assert(len > 0);
-
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        str1 += kMaxSize;
-        str2 += kMaxSize;
-        slen -= kMaxSize;
-        if (likely(full_matched == 0)) {
-            // Full matched, continue match next kMaxSize bytes.
-            assert(matched_index >= kMaxSize);
-            if (slen <= 0) {
-                assert((matched_index == kMaxSize) ||
-                       (len == (matched_index - 1)));
-            }
-            continue;
-        }
-        else {
-            // It's dismatched.
-            assert(matched_index >= 0 && matched_index < kMaxSize);
-            assert(matched_index <= len);
-            int offset = (kMaxSize - matched_index);
-            UCharTy ch1 = *((const UCharTy *)str1 - offset);
-            UCharTy ch2 = *((const UCharTy *)str2 - offset);
-            // The value of ch1 and ch2 must be not equal!
-            assert(ch1 != ch2);
-            if (ch1 > ch2)
-                return CompareResult::IsBigger;
-            else
-                return CompareResult::IsSmaller;
-        }
-    }
+    int result = str_utils::compare(str1, str2, count);
+    if (likely(result != CompareResult::IsEqual))
+        return result;
 
     // It's matched, or the length is equal 0.
     if (len1 > len2)
-- 
2.43.0


From 0ca01b90b85eadcdd650194a1ffbedb5252c3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 34/93] fix: string_libc.h, string_stl.h: comparing with a
 length stops at a null char, wide chars are ordered by their bytes,
 stl::StrEqual() returns nothing

---
 src/jstd/string/string_libc.h | 8 ++++----
 src/jstd/string/string_stl.h  | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/jstd/string/string_libc.h b/src/jstd/string/string_libc.h
index 37f4f81..af1257e 100644
--- a/src/jstd/string/string_libc.h
+++ b/src/jstd/string/string_libc.h
@@ -126,7 +126,7 @@ inline
 bool StrEqual(const char * str1, const char * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::strncmp(str1, str2, count) == 0);
+    return (std::memcmp(str1, str2, count) == 0);
 }
 
 template <>
@@ -134,7 +134,7 @@ inline
 bool StrEqual(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return (std::wcsncmp(str1, str2, count) == 0);
+    return (std::wmemcmp(str1, str2, count) == 0);
 }
 
 template <typename CharTy>
@@ -271,13 +271,13 @@ int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
 template <>
 inline
 int StrCmp(const char * str1, const char * str2, std::size_t count) {
-    return std::strncmp(str1, str2, count);
+    return std::memcmp(str1, str2, count);
 }
 
 template <>
 inline
 int StrCmp(const wchar_t * str1, const wchar_t * str2, std::size_t count) {
-    return std::wcsncmp(str1, str2, count);
+    return std::wmemcmp(str1, str2, count);
 }
 
 template <typename CharTy>
diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index ed17d13..d7a8b02 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -71,7 +71,7 @@ bool StrEqual(const CharTy * str1, std::size_t len1, const CharTy * str2, std::s
     }
     else {
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
-            StrEqual(str1, str2, len1);
+            return StrEqual(str1, str2, len1);
         }
         else {
             // The str1 and str2 is a same string.
@@ -145,7 +145,8 @@ inline
 int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return std::memcmp((const void *)str1, (const void *)str2, count * sizeof(CharTy));
+    // std::memcmp() has no right order for the wide chars.
+    return libc::StrCmp(str1, str2, count);
 }
 
 /*********************************************************************
-- 
2.43.0


From de6827150f4f8f43d556945989c886d2fae8bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 35/93] fix: string_iterator: post-increment and post-decrement
 return a reference to a local

---
 src/jstd/string/string_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_iterator.h b/src/jstd/string/string_iterator.h
index 2578be9..6e28dce 100644
--- a/src/jstd/string/string_iterator.h
+++ b/src/jstd/string/string_iterator.h
@@ -69,7 +69,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -82,7 +82,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
@@ -223,7 +223,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -236,7 +236,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
-- 
2.43.0


From 322df81bece4aad877b134226e802994ea6a9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 36/93] fix: string_view: wrong <= and >=, comparisons of parts
 ignore their lengths or do not compile, null and empty views differ, copy()
 does not copy, output stops at a null char

---
 src/jstd/string/string_traits.h |  8 ++---
 src/jstd/string/string_utils.h  | 13 ++++++--
 src/jstd/string/string_view.h   | 55 +++++++++++++++++----------------
 3 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 8adf27f..44adc19 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -13,6 +13,7 @@
 #include <cstdint>
 #include <cstddef>
 
+#include "jstd/string/string_libc.h"
 #include "jstd/string/string_utils.h"
 
 namespace jstd {
@@ -28,13 +29,12 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        char_type * result =  str_utils::str_copy(dest, src, count);
-        assert(result >= dest);
-        return size_type(result - dest);
+        str_utils::mem_copy(dest, src, count);
+        return count;
     }
 
     static bool is_equal(const char_type * s1, const char_type * s2) {
-        return str_utils::is_equal(s1, s2);
+        return libc::StrEqual(s1, s2);
     }
 
     static bool is_equal(const char_type * s1, const char_type * s2, size_type count) {
diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index ff8770d..e3e19ec 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -94,7 +94,7 @@ char * mem_copy(char * dest, const char * src, std::size_t count)
 static inline
 wchar_t * mem_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 {
-    return std::wmemcpy(dest, src, count * sizeof(wchar_t));
+    return std::wmemcpy(dest, src, count);
 }
 
 ////////////////////////////////// str_copy() //////////////////////////////////////
@@ -419,6 +419,10 @@ bool is_equal_safe(const CharTy * str1, std::size_t len1, const CharTy * str2, s
         // The length of str1 and str2 is different, the string must be not equal.
         return false;
     }
+    else if (unlikely(len1 == 0)) {
+        // Empty strings are equal, whether or not they are nullptr.
+        return true;
+    }
     else {
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
             return str_utils::is_equal_safe(str1, str2, len1);
@@ -554,7 +558,9 @@ template <typename CharTy>
 static inline
 int compare_safe_impl(const CharTy * str1, const CharTy * str2, std::size_t count)
 {
-    assert(str1 != str2);
+    if (unlikely(str1 == str2)) {
+        return CompareResult::IsEqual;
+    }
     if (likely(str1 != nullptr)) {
         if (likely(str2 != nullptr)) {
             return str_utils::compare(str1, str2, count);
@@ -586,7 +592,8 @@ int compare_safe(const CharTy * str1, std::size_t len1, const CharTy * str2, std
 {
     if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
         std::size_t count = (len1 <= len2) ? len1 : len2;
-        int result = str_utils::compare_safe_impl(str1, str2, count);
+        // Empty strings are equal, whether or not they are nullptr.
+        int result = (count != 0) ? str_utils::compare_safe_impl(str1, str2, count) : int(CompareResult::IsEqual);
         if (likely(result != CompareResult::IsEqual)) {
             return result;
         } else {
diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index f565c38..68fdcbe 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -16,6 +16,7 @@
 #include <cstdint>      // For std::intptr_t
 #include <cstddef>      // For std::ptrdiff_t
 #include <limits>       // For std::numeric_limits<T>
+#include <algorithm>    // For std::min()
 #include <ostream>
 #include <string>
 #include <cstring>
@@ -309,7 +310,7 @@ public:
 
     reference at(size_type pos) {
         if (pos < this->size())
-            return this->data_[pos];
+            return const_cast<char_type *>(this->data_)[pos];
         else
             throw std::out_of_range("basic_string_view<T>::at(pos): out of range.");
     }
@@ -327,7 +328,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "copy(dest, count, pos): pos out_of_range.");
         }
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (std::min)(count, size_type(this->size() - pos));
         return Traits::copy(dest, this->data() + pos, rcount);
     }
 
@@ -339,7 +340,7 @@ public:
         }
         size_type rcount;
         if (likely(count != npos))
-            rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+            rcount = (std::min)(count, size_type(this->size() - pos));
         else
             rcount = this->size() - pos;
         return this_type(this->data() + pos, rcount);
@@ -349,7 +350,7 @@ public:
     // is_equal(rhs)
     //
     bool is_equal(const char_type * str) const {
-        return Traits::is_equal(this->data(), str);
+        return this->is_equal(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     bool is_equal(const char_type * s1, const char_type * s2, size_type count) const noexcept {
@@ -373,8 +374,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (std::min)(count, size_type(this->size() - pos));
         const char_type * s1 = this->data() + pos;
-        return this->is_equal(s1, sv.data(), count);
+        return this->is_equal(s1, rcount, sv.data(), sv.size());
     }
 
     bool is_equal(size_type pos, size_type count,
@@ -383,8 +385,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type len2 = libc::StrLen(str);
+        size_type rcount = (std::min)(count, size_type(this->size() - pos));
         const char_type * s1 = this->data() + pos;
         return this->is_equal(s1, rcount, str, len2);
     }
@@ -399,8 +401,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (std::min)(count1, size_type(this->size() - pos1));
+        size_type rcount2 = (std::min)(count2, size_type(sv.size() - pos2));
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->is_equal(s1, rcount1, s2, rcount2);
@@ -413,9 +415,9 @@ public:
                     "is_equal(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
         constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
+        size_type len2 = libc::StrLen(str);
+        size_type rcount1 = (std::min)(count1, size_type(this->size() - pos1));
+        size_type rcount2 = (std::min)(count2, size_type(len2 - pos2));
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
         return this->is_equal(s1, rcount1, s2, rcount2);
@@ -425,7 +427,7 @@ public:
     // compare(rhs)
     //
     int compare(const char_type * str) const noexcept {
-        return Traits::compare(this->data(), str);
+        return this->compare(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     int compare(const char_type * s1,
@@ -452,8 +454,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (std::min)(count, size_type(this->size() - pos));
         const char_type * s1 = this->data() + pos;
-        return this->compare(s1, sv.data(), count);
+        return this->compare(s1, rcount, sv.data(), sv.size());
     }
 
     int compare(size_type pos, size_type count, const char_type * str) const {
@@ -461,8 +464,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type len2 = libc::StrLen(str);
+        size_type rcount = (std::min)(count, size_type(this->size() - pos));
         const char_type * s1 = this->data() + pos;
         return this->compare(s1, rcount, str, len2);
     }
@@ -477,8 +480,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (std::min)(count1, size_type(this->size() - pos1));
+        size_type rcount2 = (std::min)(count2, size_type(sv.size() - pos2));
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->compare(s1, rcount1, s2, rcount2);
@@ -491,9 +494,9 @@ public:
                     "compare(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
         constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
+        size_type len2 = libc::StrLen(str);
+        size_type rcount1 = (std::min)(count1, size_type(this->size() - pos1));
+        size_type rcount2 = (std::min)(count2, size_type(len2 - pos2));
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
         return this->compare(s1, rcount1, s2, rcount2);
@@ -506,7 +509,7 @@ public:
 
     friend inline ostream_type & operator << (ostream_type & out, const this_type & view) {
         string_type text(view.data(), view.size());
-        out << text.c_str();
+        out << text;
         return out;
     }
 
@@ -523,19 +526,19 @@ public:
     }
 
     friend inline bool operator < (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) < 0);
     }
 
     friend inline bool operator <= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) <= 0);
     }
 
     friend inline bool operator > (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) > 0);
     }
 
     friend inline bool operator >= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) >= 0);
     }
 
 private:
-- 
2.43.0


From 61e8017308d68882cc07efa10eecf05a4b3350a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 37/93] fix: hash_crc32: reads up to 7 bytes behind the end of
 the data

---
 src/jstd/hasher/hash_crc32.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index a3aff9e..af3d1fd 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -102,7 +102,6 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint32_t);
-    static const uint32_t kMaskOne = 0xFFFFFFFFUL;
     const char * data_end = data + length;
 
     uint32_t crc32 = ~uint32_t(0);
@@ -121,11 +120,9 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint32_t data32 = *(uint32_t *)(data);
-                uint32_t rest = (uint32_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (uint32_t)kStepSize);
-                uint32_t mask = kMaskOne >> (rest * 8U);
-                data32 &= mask;
+                // Don't read behind the end of data.
+                uint32_t data32 = 0;
+                ::memcpy((void *)&data32, (const void *)data, (size_t)remain);
                 crc32 = _mm_crc32_u32(crc32, data32);
             }
             break;
@@ -142,7 +139,6 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne = 0xFFFFFFFFFFFFFFFFULL;
     const char * data_end = data + length;
 
     uint64_t crc64 = ~uint64_t(0);
@@ -161,11 +157,9 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint64_t data64 = *(uint64_t *)(data);
-                size_t rest = (size_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (size_t)kStepSize);
-                uint64_t mask = kMaskOne >> (rest * 8U);
-                data64 &= mask;
+                // Don't read behind the end of data.
+                uint64_t data64 = 0;
+                ::memcpy((void *)&data64, (const void *)data, (size_t)remain);
                 crc64 = _mm_crc32_u64(crc64, data64);
             }
             break;
-- 
2.43.0


From 36981d47dfa6d4fd6dfb034283ab4de5d3396fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 38/93] fix: BKDRHash, Times31, Times31Std: read behind the end
 of strings of wide characters

---
 src/jstd/hasher/hashes.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index e4eecce..f793388 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -309,7 +309,8 @@ static std::uint32_t BKDRHash(const CharTy * key, std::size_t len)
     static const std::uint32_t seed_3 = seed_2 * seed;
     static const std::uint32_t seed_4 = seed_2 * seed_2;
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    // Hash the bytes of the string.
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
@@ -346,7 +347,8 @@ static std::uint32_t BKDRHash_31(const CharTy * key, std::size_t len)
     static const std::uint32_t seed_3 = seed_2 * seed;
     static const std::uint32_t seed_4 = seed_2 * seed_2;
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    // Hash the bytes of the string.
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
@@ -380,7 +382,8 @@ static std::uint32_t BKDRHash_31_std(const CharTy * key, std::size_t len)
 {
     static const std::uint32_t seed = 31U;   // 31, 33, 131, 1313, 13131, 131313, etc ...
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
+    // Hash the bytes of the string.
+    typedef unsigned char UCharTy;
 
     len *= sizeof(CharTy);
 
-- 
2.43.0


From 6dcebaf6267cd9a9634fe6e478bcefc613e1f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 39/93] fix: HashUtils::primaryHash: reads behind the end of
 the data

---
 src/jstd/hasher/hashes.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index f793388..953ac65 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -1147,9 +1147,8 @@ public:
         if (remain == 0)
             return hash;
         // Filter the extra bits
-        hash_type val = *(hash_type *)data;
-        static const hash_type val_mask = (hash_type)(-1);
-        val &= (val_mask >> ((sizeof(hash_type) - remain) * 8));
+        hash_type val = 0;
+        ::memcpy((void *)&val, (const void *)data, (std::size_t)remain);
         hash += val;
         hash *= m;
         hash ^= (hash >> half_bits);
@@ -1323,9 +1322,8 @@ public:
             if (remain == 0)
                 return hash;
             // Filter the extra bits
-            hash_type val = *(hash_type *)data;
-            static const hash_type val_mask = (hash_type)(-1);
-            val &= (val_mask >> ((sizeof(hash_type) - remain) * 8));
+            hash_type val = 0;
+            ::memcpy((void *)&val, (const void *)data, (std::size_t)remain);
             hash += val;
             hash *= m;
             hash ^= (hash >> half_bits);
-- 
2.43.0


From 4d5224cf0a624cc6208fa4ac0bf01b632b94c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 40/93] fix: uint128_mul: the portable version loses a carry

---
 src/jstd/hasher/hashes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index 953ac65..d84a4b9 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -609,9 +609,9 @@ _uint128_t uint128_mul(uint64_t multiplicand, uint64_t multiplier)
     uint64_t product_03 = (uint64_t)high0 * high1;
 
     /* Now add the products together. These will never overflow. */
-    uint64_t middle = product_01 + product_02 + (uint32_t)(product_00 >> 32);
+    uint64_t middle = product_02 + (uint32_t)(product_00 >> 32) + (uint32_t)(product_01 & 0xFFFFFFFFul);
     uint64_t low64  = (uint32_t)(product_00 & 0xFFFFFFFFul) | (middle << 32);
-    uint64_t high64 = product_03 + (uint32_t)(middle >> 32);
+    uint64_t high64 = product_03 + (uint32_t)(product_01 >> 32) + (uint32_t)(middle >> 32);
     return _uint128_t(low64, high64);
 #endif // __i386__
 }
-- 
2.43.0


From 3f1e87f190e381c337e53b7505715cb728185cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 41/93] fix: jstd::hash hashes the object representation of
 strings and string views, and the address of C strings

---
 src/jstd/hasher/hash_helper.h | 148 +++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 76 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index d27bc78..71fbedc 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -206,8 +206,6 @@ struct JSTD_DLL string_hash_helper {
     }
 };
 
-#if JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_CRC32C> {
@@ -221,11 +219,11 @@ HASH_HELPER_CHAR_ALL(HASH_HELPER_CHAR, std::uint32_t, HashFunc_CRC32C, jstd::has
 HASH_HELPER_INTEGRAL_ALL(HASH_HELPER_INTEGRAL, std::uint32_t, HashFunc_CRC32C);
 HASH_HELPER_FLOAT_ALL(HASH_HELPER_FLOAT, std::uint32_t, HashFunc_CRC32C, jstd::hashes::hash_crc32);
 
-template <>
-struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_CRC32C> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<std::string, ResultType, HashFunc_CRC32C> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const std::string & key) {
+    static ResultType getHashCode(const std::string & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
@@ -233,11 +231,11 @@ struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_CRC32C> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<std::wstring, std::uint32_t, HashFunc_CRC32C> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<std::wstring, ResultType, HashFunc_CRC32C> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const std::wstring & key) {
+    static ResultType getHashCode(const std::wstring & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -245,11 +243,11 @@ struct JSTD_DLL hash_helper<std::wstring, std::uint32_t, HashFunc_CRC32C> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_CRC32C> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::string_view, ResultType, HashFunc_CRC32C> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::string_view & key) {
+    static ResultType getHashCode(const jstd::string_view & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
@@ -257,11 +255,11 @@ struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_CRC32C> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_CRC32C> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::wstring_view, ResultType, HashFunc_CRC32C> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::wstring_view & key) {
+    static ResultType getHashCode(const jstd::wstring_view & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -269,11 +267,11 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_CRC32C>
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char>>, std::uint32_t, HashFunc_CRC32C> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char>>, ResultType, HashFunc_CRC32C> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
+    static ResultType getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
@@ -281,11 +279,11 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>>, std::uint32_t, HashFunc_CRC32C> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>>, ResultType, HashFunc_CRC32C> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
+    static ResultType getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -293,8 +291,6 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
     }
 };
 
-#endif // JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_Time31> {
@@ -310,11 +306,11 @@ HASH_HELPER_CHAR_ALL(HASH_HELPER_CHAR, std::uint32_t, HashFunc_Time31, hashes::T
 HASH_HELPER_INTEGRAL_ALL(HASH_HELPER_INTEGRAL, std::uint32_t, HashFunc_Time31);
 HASH_HELPER_FLOAT_ALL(HASH_HELPER_FLOAT, std::uint32_t, HashFunc_Time31, hashes::Times31);
 
-template <>
-struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_Time31> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<std::string, ResultType, HashFunc_Time31> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const std::string & key) {
+    static ResultType getHashCode(const std::string & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31(key.c_str(), key.size());
         else
@@ -322,11 +318,11 @@ struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_Time31> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<std::wstring, std::uint32_t, HashFunc_Time31> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<std::wstring, ResultType, HashFunc_Time31> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const std::wstring & key) {
+    static ResultType getHashCode(const std::wstring & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -334,11 +330,11 @@ struct JSTD_DLL hash_helper<std::wstring, std::uint32_t, HashFunc_Time31> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_Time31> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::string_view, ResultType, HashFunc_Time31> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::string_view & key) {
+    static ResultType getHashCode(const jstd::string_view & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31(key.c_str(), key.size());
         else
@@ -346,11 +342,11 @@ struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_Time31> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_Time31> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::wstring_view, ResultType, HashFunc_Time31> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::wstring_view & key) {
+    static ResultType getHashCode(const jstd::wstring_view & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -358,11 +354,11 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_Time31>
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char>>, std::uint32_t, HashFunc_Time31> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char>>, ResultType, HashFunc_Time31> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
+    static ResultType getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31(key.c_str(), key.size());
         else
@@ -370,11 +366,11 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>>, std::uint32_t, HashFunc_Time31> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>>, ResultType, HashFunc_Time31> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
+    static ResultType getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -397,11 +393,11 @@ HASH_HELPER_CHAR_ALL(HASH_HELPER_CHAR, std::uint32_t, HashFunc_Time31Std, hashes
 HASH_HELPER_INTEGRAL_ALL(HASH_HELPER_INTEGRAL, std::uint32_t, HashFunc_Time31Std);
 HASH_HELPER_FLOAT_ALL(HASH_HELPER_FLOAT, std::uint32_t, HashFunc_Time31Std, hashes::Times31Std);
 
-template <>
-struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_Time31Std> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<std::string, ResultType, HashFunc_Time31Std> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const std::string & key) {
+    static ResultType getHashCode(const std::string & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31Std(key.c_str(), key.size());
         else
@@ -409,11 +405,11 @@ struct JSTD_DLL hash_helper<std::string, std::uint32_t, HashFunc_Time31Std> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<std::wstring, std::uint32_t, HashFunc_Time31Std> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<std::wstring, ResultType, HashFunc_Time31Std> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const std::wstring & key) {
+    static ResultType getHashCode(const std::wstring & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31Std((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -421,11 +417,11 @@ struct JSTD_DLL hash_helper<std::wstring, std::uint32_t, HashFunc_Time31Std> {
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_Time31Std> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::string_view, ResultType, HashFunc_Time31Std> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::string_view & key) {
+    static ResultType getHashCode(const jstd::string_view & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31Std(key.c_str(), key.size());
         else
@@ -433,11 +429,11 @@ struct JSTD_DLL hash_helper<jstd::string_view, std::uint32_t, HashFunc_Time31Std
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_Time31Std> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::wstring_view, ResultType, HashFunc_Time31Std> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::wstring_view & key) {
+    static ResultType getHashCode(const jstd::wstring_view & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31Std((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
@@ -445,11 +441,11 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, std::uint32_t, HashFunc_Time31St
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char>>, std::uint32_t, HashFunc_Time31Std> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char>>, ResultType, HashFunc_Time31Std> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
+    static ResultType getHashCode(const jstd::basic_string_view<char, jstd::char_traits<char>> & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31Std(key.c_str(), key.size());
         else
@@ -457,11 +453,11 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
     }
 };
 
-template <>
-struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>>, std::uint32_t, HashFunc_Time31Std> {
-    typedef std::uint32_t  result_type;
+template <typename ResultType>
+struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>>, ResultType, HashFunc_Time31Std> {
+    typedef ResultType  result_type;
 
-    static std::uint32_t getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
+    static ResultType getHashCode(const jstd::basic_string_view<wchar_t, jstd::char_traits<wchar_t>> & key) {
         if (likely(key.c_str() != nullptr))
             return hashes::Times31Std((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-- 
2.43.0


From 3007b1703fa547abffef212bcd961b2570258656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 42/93] fix: jstd::hash of a pointer hashes 8 bytes of what it
 points to

---
 src/jstd/hasher/hash_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 71fbedc..c779aae 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -165,13 +165,13 @@ struct JSTD_DLL hash_helper<T *, ResultType, HashFunc> {
 
     static result_type getHashCode(const key_type * key) {
         if (HashFunc == HashFunc_CRC32C)
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)&key, sizeof(key)));
         else if (HashFunc == HashFunc_Time31)
-            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31((const char *)&key, sizeof(key)));
         else if (HashFunc == HashFunc_Time31Std)
-            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31Std((const char *)&key, sizeof(key)));
         else
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)&key, sizeof(key)));
     }
 };
 
-- 
2.43.0


From f6be0945e21f54525bb667f0dcd8fcf09a623d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 43/93] fix: jstd::hash of floating point values differs
 between 0.0 and -0.0

---
 src/jstd/hasher/hash_helper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index c779aae..36243bb 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -109,6 +109,9 @@
                 >::type decay_type;                                             \
                                                                                 \
         static ResultType getHashCode(pod_type data) {                          \
+            /* 0.0 and -0.0 are equal. */                                       \
+            if (data == pod_type(0))                                            \
+                data = pod_type(0);                                             \
             return static_cast<result_type>(HashFunc((const char *)&data, sizeof(data))); \
         }                                                                       \
     }
-- 
2.43.0


From 67f28026e61666e76245e3523f8e41b2b3ac6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 44/93] fix: jstd::hash: null and empty strings are equal but
 have different hashes

---
 src/jstd/hasher/hash_helper.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 36243bb..4158a14 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -35,7 +35,7 @@
                 >::type decay_type;                                             \
                                                                                 \
         static ResultType getHashCode(char_type * data, std::size_t length) {   \
-            if (likely(data != nullptr && length != 0))                         \
+            if (likely(data != nullptr))                                        \
                 return (ResultType)HashFunc((const char *)data,                 \
                                             length * sizeof(char_type));        \
             else                                                                \
@@ -204,7 +204,11 @@ struct JSTD_DLL string_hash_helper {
                 return static_cast<result_type>(hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(char_type)));
         }
         else {
-            return static_cast<ResultType>(0);
+            // A null string is equal to an empty string.
+            if (HashFunc == HashFunc_Time31 || HashFunc == HashFunc_Time31Std)
+                return static_cast<result_type>(0);
+            else
+                return static_cast<result_type>(hashes::hash_crc32("", 0));
         }
     }
 };
@@ -230,7 +234,7 @@ struct JSTD_DLL hash_helper<std::string, ResultType, HashFunc_CRC32C> {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -242,7 +246,7 @@ struct JSTD_DLL hash_helper<std::wstring, ResultType, HashFunc_CRC32C> {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -254,7 +258,7 @@ struct JSTD_DLL hash_helper<jstd::string_view, ResultType, HashFunc_CRC32C> {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -266,7 +270,7 @@ struct JSTD_DLL hash_helper<jstd::wstring_view, ResultType, HashFunc_CRC32C> {
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -278,7 +282,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<char, jstd::char_traits<char
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32(key.c_str(), key.size());
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
@@ -290,7 +294,7 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
         if (likely(key.c_str() != nullptr))
             return hashes::hash_crc32((const char *)key.c_str(), key.size() * sizeof(wchar_t));
         else
-            return 0;
+            return hashes::hash_crc32("", 0);
     }
 };
 
-- 
2.43.0


From 5a3373fe0f5ef14474d398a0cc4ad96e3d314e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 45/93] fix: jstd::hash<char *> does not compile

---
 src/jstd/hasher/hash_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 4158a14..082cae5 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -34,7 +34,7 @@
                     >::type                                                     \
                 >::type decay_type;                                             \
                                                                                 \
-        static ResultType getHashCode(char_type * data, std::size_t length) {   \
+        static ResultType getHashCode(const char_type * data, std::size_t length) { \
             if (likely(data != nullptr))                                        \
                 return (ResultType)HashFunc((const char *)data,                 \
                                             length * sizeof(char_type));        \
@@ -42,7 +42,7 @@
                 return 0;                                                       \
         }                                                                       \
                                                                                 \
-        static ResultType getHashCode(char_type * data) {                       \
+        static ResultType getHashCode(const char_type * data) {                 \
             if (likely(data != nullptr))                                        \
                 return (ResultType)HashFunc((const char *)data,                 \
                                 jstd::libc::StrLen((const decay_type *)data)    \
-- 
2.43.0


From 2dc44be170c03bc090dfd9b5e53b96cec66e9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 46/93] fix: hash_crc32.h does not compile without SSE 4.2

---
 src/jstd/hasher/hash_crc32.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index af3d1fd..4885d54 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -250,7 +250,7 @@ static size_t int_hash_crc32(size_t value)
     return intel_int_crc32_x86(value);
   #endif
 #else
-    return hashes::Times31(value, sizeof(value));
+    return hashes::Times31((const char *)&value, sizeof(value));
 #endif
 }
 
@@ -259,7 +259,7 @@ static size_t simple_int_hash_crc32(size_t value)
 #ifdef __SSE4_2__
     return intel_simple_int_crc32(value);
 #else
-    return hashes::Times31(value, sizeof(value));
+    return hashes::Times31((const char *)&value, sizeof(value));
 #endif
 }
 
-- 
2.43.0


From 58b32daf86a5b17bb449aebc9fcbe114b6047d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 47/93] fix: BitUtils::__internal_popcnt64 counts the low 32
 bits only

The masks were those of the 32-bit version, so the population count, and
the counts of leading and trailing zeros built on it, were wrong for most
64-bit numbers.
---
 src/jstd/support/BitUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 67480a9..d7d526f 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -86,9 +86,9 @@ namespace BitUtils {
     static inline
     unsigned int __internal_popcnt64(uint64_t x) {
     #if 1
-        x -=  ((x >> 1U) & 0x55555555U);
-        x  = (((x >> 2U) & 0x33333333U) + (x & 0x33333333U));
-        x  = (((x >> 4U) + x) & 0x0F0F0F0FU);
+        x -=  ((x >> 1U) & 0x5555555555555555ULL);
+        x  = (((x >> 2U) & 0x3333333333333333ULL) + (x & 0x3333333333333333ULL));
+        x  = (((x >> 4U) + x) & 0x0F0F0F0F0F0F0F0FULL);
         x +=   (x >> 8U);
         x +=   (x >> 16U);
         x +=   (x >> 32U);
-- 
2.43.0


From 2111e2f0307f204e4bef3e0aa71a4eaa4b838b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 48/93] fix: BitUtils::bsr32/bsr64 return the number of leading
 zeros on other compilers

The versions for compilers that are neither MSVC nor GCC-like returned the
number of leading zeros, not the index of the highest bit.
---
 src/jstd/support/BitUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index d7d526f..7f6a5f3 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -340,13 +340,13 @@ namespace BitUtils {
     static inline
     unsigned int bsr32(unsigned int x) {
         JSTD_ASSUME(x != 0);
-        return (unsigned int)BitUtils::__internal_clz(x);
+        return (unsigned int)(31 - BitUtils::__internal_clz(x));
     }
 
     static inline
     unsigned int bsr64(uint64_t x) {
         JSTD_ASSUME(x != 0);
-        return (unsigned int)BitUtils::__internal_clzll(x);
+        return (unsigned int)(63 - BitUtils::__internal_clzll(x));
     }
 
 #endif // (_MSC_VER && _MSC_VER >= 1500)
-- 
2.43.0


From f6f4d8499163de4d149dda37a148852f188ea237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 49/93] fix: BitUtils::bsf64 adds 32 to the wrong half on
 32-bit platforms

---
 src/jstd/support/BitUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 7f6a5f3..982057a 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -171,12 +171,12 @@ namespace BitUtils {
         unsigned int index;
         unsigned int low = (unsigned int)(x & 0xFFFFFFFFU);
         if (low != 0) {
-            index = bsf32(low) + 32;
+            index = bsf32(low);
         }
         else {
             unsigned int high = (unsigned int)(x >> 32U);
             assert(high != 0);
-            index = bsf32(high);
+            index = bsf32(high) + 32;
         }
         return index;
     }
@@ -260,12 +260,12 @@ namespace BitUtils {
         unsigned int index;
         unsigned int low = (unsigned int)(x & 0xFFFFFFFFU);
         if (low != 0) {
-            index = bsf32(low) + 32;
+            index = bsf32(low);
         }
         else {
             unsigned int high = (unsigned int)(x >> 32U);
             assert(high != 0);
-            index = bsf32(high);
+            index = bsf32(high) + 32;
         }
         return index;
     }
-- 
2.43.0


From cc7fa0d03e2596b96b935c8ec619414d933989a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 50/93] fix: compile_time::countTrailingZeros<N> is wrong
 unless N is a power of two

It rounded N up to a power of two and so counted the wrong zeros.
---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 3dedd07..e5e97a2 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -802,8 +802,8 @@ COUNT_TRAILING_ZEROS_IMPL(0);
 
 template <std::size_t N>
 struct countTrailingZeros {
-    static constexpr std::size_t round_up_2 = is_pow2<N>::value ? N : round_up_pow2<N>::value;
-    static constexpr std::size_t value = countTrailingZeros_impl<0, round_up_2>::value;
+    static constexpr std::size_t lowest_bit = N & (0 - N);
+    static constexpr std::size_t value = countTrailingZeros_impl<0, lowest_bit>::value;
 };
 
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 781a16e6c9f2386aed37d724185bbc075518450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 51/93] fix: robin_hash_map ignores capacities whose size in
 bytes overflows

reserve(), rehash() and the constructor with such a capacity returned with
a small table. They throw std::length_error now.
---
 src/jstd/hashmap/robin_hash_map.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 5ab2442..e62df73 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3825,7 +3825,8 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    size_type calc_capacity(size_type init_capacity) const noexcept {
+    size_type calc_capacity(size_type init_capacity) const {
+        this->check_capacity(init_capacity);
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
@@ -3833,6 +3834,15 @@ private:
         return new_capacity;
     }
 
+    // The size in bytes of a table with a greater capacity may overflow.
+    void check_capacity(size_type capacity) const {
+        static constexpr size_type kMaxCapacity = (std::numeric_limits<size_type>::max)() / 8 /
+                                                  (sizeof(ctrl_type) + sizeof(slot_type));
+        if (capacity > kMaxCapacity) {
+            throw std::length_error("jstd::robin_hash_map: the capacity is too large.");
+        }
+    }
+
     size_type calc_slot_threshold(size_type now_slot_capacity) const {
         return (now_slot_capacity * this->integral_mlf() / kLoadFactorAmplify);
     }
@@ -3851,6 +3861,7 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
+        this->check_capacity(init_capacity);
         size_type new_capacity = (init_capacity * this->integral_mlf_rev() + kLoadFactorAmplify - 1) / kLoadFactorAmplify;
         return new_capacity;
     }
-- 
2.43.0


From ae3146a2f909a2eede3afca85e53a77ce0d3d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 52/93] fix: run_time::round_up and next_pow2 shift by 64 for
 64-bit numbers above 2^63

The branch that returns the greatest number was never taken for 64-bit
types.
---
 src/jstd/support/Power2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index e5e97a2..e9db378 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -263,7 +263,7 @@ round_up(SizeType N)
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if (n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 1) || (Min_n > 1)) {
             assert(signed_type(n - 1) > 0);
             std::uint32_t ms1b = bitScanReverse(n - 1);
@@ -298,7 +298,7 @@ next_pow2(SizeType N)
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
+    if (n < ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) {
         if ((n > 0) || (Min_n > 0)) {
             assert(n > 0);
             std::uint32_t ms1b = bitScanReverse(n);
-- 
2.43.0


From a8c75844b928b19a5cd3260fd68405403edd859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 53/93] fix: run_time::log2_int is wrong for 32-bit numbers
 above 2^31, round_down asserts for numbers above half

---
 src/jstd/support/Power2.h | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index e9db378..48bac61 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,12 +196,9 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifndef NDEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n > 1) || (Min_n > 1)) {
-        assert(signed_type(n - 1) > 0);
+        assert(unsigned_type(n - 1) > 0);
         std::uint32_t ms1b = bitScanReverse(n - 1);
         return (return_type(1) << ms1b);
     } else {
@@ -332,21 +329,13 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifndef NDEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
-        if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
-            std::uint32_t ms1b = bitScanReverse(n - 1);
-            return return_type(ms1b + 1);
-        } else {
-            return return_type(0);
-        }
-    }
-    else {
-        return (return_type)(std::numeric_limits<unsigned_type>::max)();
+    if ((n > 1) || (Min_n > 1)) {
+        assert(unsigned_type(n - 1) > 0);
+        std::uint32_t ms1b = bitScanReverse(n - 1);
+        return return_type(ms1b + 1);
+    } else {
+        return return_type(0);
     }
 }
 
-- 
2.43.0


From 47eab6dd005285b4b11f3df7f36748269d2ed4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 54/93] fix: string_iterator.h does not compile with clang
 unless NDEBUG is defined

---
 src/jstd/string/string_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/string/string_iterator.h b/src/jstd/string/string_iterator.h
index 6e28dce..7000ec1 100644
--- a/src/jstd/string/string_iterator.h
+++ b/src/jstd/string/string_iterator.h
@@ -207,7 +207,7 @@ public:
     }
 
     reference operator * () const {
-        assert(this->ptr_ != nullptr_t{});
+        assert(this->ptr_ != std::nullptr_t{});
         return (*this->ptr_);
     }
 
-- 
2.43.0


From e64f5011809c6ddd9d1be317b43d83bee04b2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 55/93] fix: robin_hash_map is broken after its allocator
 throws during growth

max_lookups_ was changed before the new table was allocated, so the old
table was read with the wrong number of groups afterwards.
---
 src/jstd/hashmap/robin_hash_map.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e62df73..111fdd7 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4352,7 +4352,6 @@ private:
             new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
         else
             new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
-        this->max_lookups_ = new_max_lookups;
 
         size_type new_ctrl_capacity = new_capacity + new_max_lookups;
         size_type new_group_count = (new_ctrl_capacity + (kGroupWidth - 1)) / kGroupWidth;
-- 
2.43.0


From 84563bb662e8b01939530eae5c491f429e47a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 56/93] fix: robin_hash_map leaks the control bytes if
 allocating the slots throws

---
 src/jstd/hashmap/robin_hash_map.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 111fdd7..8ac4feb 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4374,7 +4374,13 @@ private:
         this->clear_ctrls(new_ctrls, new_capacity, new_max_lookups, new_group_count);
 
 #if ROBIN_USE_SEPARATE_SLOTS
-        slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        slot_type * new_slots;
+        try {
+            new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        } catch (...) {
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, new_ctrls, ctrl_alloc_size);
+            throw;
+        }
 #else
         slot_type * new_slots = this->AlignedSlots<kSlotAlignment>(new_ctrls, ctrl_alloc_size);
 #endif
-- 
2.43.0


From 5e72d2b340cbed0e9c6389f10dc9d627098a285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 57/93] fix: robin_hash_map loses an element if growing at the
 distance limit fails

The element displaced by the new one was put in the slot of the new one
before the growth, where it was not found if the growth threw an exception.
---
 src/jstd/hashmap/robin_hash_map.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 8ac4feb..5f420a1 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5726,9 +5726,34 @@ InsertOrGrow_Start:
         return ctrl;
     }
 
+    // Whether an element that is displaced by an insertion at [insert_ctrl] reaches the distance limit.
+    // It's checked before anything is changed, because the growth may fail.
+    bool is_overlong_insertion(const ctrl_type * insert_ctrl) const {
+        const ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
+        const ctrl_type * ctrl = insert_ctrl;
+        size_type dist = ctrl->getDist();
+        for (ctrl++, dist++; ctrl < last_ctrl; ctrl++) {
+            if (ctrl->isEmpty()) {
+                return false;
+            }
+            if (dist > ctrl->getDist()) {
+                dist = ctrl->getDist();
+            }
+            dist++;
+            if (dist >= this->max_lookups()) {
+                return true;
+            }
+        }
+        return true;
+    }
+
     template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult insert_to_place(ctrl_type * insert_ctrl, slot_type * insert_slot, const ctrl_type & dist_and_hash) {
+        if (!isRehashing && this->is_overlong_insertion(insert_ctrl)) {
+            return kNeedGrow;
+        }
+
         ctrl_type * ctrl = insert_ctrl;
         slot_type * target = insert_slot;
         ctrl_type rich_ctrl(dist_and_hash);
@@ -5805,6 +5830,10 @@ InsertOrGrow_Start:
     template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult indirect_insert_to_place(ctrl_type * insert_ctrl, const ctrl_type & dist_and_hash) {
+        if (!isRehashing && this->is_overlong_insertion(insert_ctrl)) {
+            return kNeedGrow;
+        }
+
         ctrl_type * ctrl = insert_ctrl;
         ctrl_type rich_ctrl(dist_and_hash);
         assert(!ctrl->isEmpty());
-- 
2.43.0


From 1b854773035f0eb0a08f0051606bedbff356f85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 58/93] fix: robin_hash_map is broken after an exception while
 constructing a new element

The slot is marked as used before its element is constructed; the mark
remained if the constructor threw.
---
 src/jstd/hashmap/robin_hash_map.h | 61 ++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 5f420a1..66a6925 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5932,7 +5932,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, value);
+            this->construct_new_slot(slot, value);
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5957,7 +5957,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<actual_value_type>(value));
+            this->construct_new_slot(slot, std::forward<actual_value_type>(value));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5992,7 +5992,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
             this->slot_size_++;
@@ -6036,7 +6036,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -6079,7 +6079,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
@@ -6162,7 +6162,7 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -6183,7 +6183,7 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -6446,7 +6446,7 @@ Insert_To_Slot:
             return;
         }
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, value);
+        this->construct_new_slot(new_slot, value);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -6463,10 +6463,10 @@ Insert_To_Slot:
         }
 
         if (kIsLayoutCompatible) {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot,
+            this->construct_new_slot(new_slot,
                                         std::move(*reinterpret_cast<mutable_value_type *>(&value)));
         } else {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot, std::move(value));
+            this->construct_new_slot(new_slot, std::move(value));
         }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
@@ -6497,6 +6497,47 @@ Insert_To_Slot:
         }
     }
 
+    // Constructs the element of a slot that find_and_insert() has marked as used.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(slot_type * slot, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->cancel_insertion(slot);
+            throw;
+        }
+    }
+
+    // Removes the mark of a slot whose element could not be constructed.
+    JSTD_NO_INLINE
+    void cancel_insertion(slot_type * slot) {
+        ctrl_type * curr_ctrl;
+        size_type slot_index = this->index_of(slot);
+        if (!kIsIndirectKV) {
+            curr_ctrl = this->ctrl_at(slot_index);
+        } else {
+            curr_ctrl = this->ctrls();
+            while (!curr_ctrl->isUsed() || (curr_ctrl->getIndex() != slot_index)) {
+                curr_ctrl++;
+            }
+        }
+
+        ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
+        while (!next_ctrl->isUnusedOrZero()) {
+            ctrl_type dist_and_hash(*next_ctrl);
+            dist_and_hash.decDist();
+            this->setUsedCtrl(curr_ctrl, dist_and_hash);
+            if (!kIsIndirectKV) {
+                this->transfer_slot(slot, slot + 1);
+                slot++;
+            }
+            curr_ctrl++;
+            next_ctrl++;
+        }
+        this->setUnusedCtrl(curr_ctrl);
+    }
+
     JSTD_NO_INLINE
     void erase_slot(size_type to_erase_idx) {
         assert(to_erase_idx < this->max_slot_capacity());
-- 
2.43.0


From 524a9a15cc7ec61bfae82f6b61d2ac75385f05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 59/93] fix: robin_hash_map: erasing from a map with indirect
 slots is not undone if the hash throws

---
 src/jstd/hashmap/robin_hash_map.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 66a6925..af8de21 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6602,6 +6602,17 @@ Insert_To_Slot:
         size_type erase_slot_index = curr_ctrl->getIndex();
         assert(curr_ctrl->isUsed());
 
+        assert(this->slot_size_ > 0);
+        size_type last_slot_index = this->slot_size_ - 1;
+        slot_type * last_slot = this->slot_at(last_slot_index);
+
+        if (erase_slot_index != last_slot_index) {
+            // The hash may throw, so it's called before anything is changed.
+            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_slot_index);
+            assert(last_key_ctrl != nullptr);
+            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
+        }
+
         ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
 
@@ -6619,19 +6630,10 @@ Insert_To_Slot:
 
         this->setUnusedCtrl(curr_ctrl);
 
-        assert(this->slot_size_ > 0);
         this->slot_size_--;
 
-        size_type last_slot_index = this->slot_size_;
-        slot_type * last_slot = this->slot_at(last_slot_index);
-
         if (erase_slot_index != last_slot_index) {
             slot_type * erase_slot = this->slot_at(erase_slot_index);
-
-            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_slot_index);
-            assert(last_key_ctrl != nullptr);
-            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
-
             this->swap_slot(erase_slot, last_slot);
         }
         this->destroy_slot(last_slot);
-- 
2.43.0


From 000a0d10ab08fe8280016666ca8261fb70b57720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 60/93] fix: robin_hash_map with stored hashes loses its
 elements when it grows

Elements that stay in the table (LayoutPolicy with needStoreHash and no
indirection) were moved to the new table with 0 as the stored hash.
---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index af8de21..e0ee28b 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6216,7 +6216,7 @@ InsertOrGrow_Start:
 
         slot += dist_and_0.dist;
 
-        ctrl_type dist_and_hash(dist_and_0);
+        ctrl_type dist_and_hash(dist_and_0, this->get_ctrl_hash(hash_code));
 
         if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
-- 
2.43.0


From 936b5fc220926a1abefd13269fae764d8807d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 61/93] fix: robin_hash_map destroys an element twice when an
 insertion displaces others

Elements that stay in the table (no indirection) are displaced with
exchange_slot(), which constructs the empty slot itself: the default
constructed object in it was overwritten, and an object that had been
moved away and destroyed was destroyed again. The default constructor
may also throw, after the control bytes were changed.
---
 src/jstd/hashmap/robin_hash_map.h | 50 ++-----------------------------
 1 file changed, 2 insertions(+), 48 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e0ee28b..f85008d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5785,14 +5785,13 @@ InsertOrGrow_Start:
 #endif
         target++;
 
-        // Initialize the empty slot use default constructor if necessary
-        this->construct_empty_slot(empty);
+        // The empty slot stays uninitialized, exchange_slot() constructs and destroys it.
+        this->placement_new_slot(empty);
 
         slot_type * last_slot = this->last_slot();
         while (target < last_slot) {
             if (ctrl->isEmpty()) {
                 this->emplace_rich_slot(ctrl, target, insert, rich_ctrl);
-                this->destroy_empty_slot(empty);
                 return kIsNotExists;
             } else if (rich_ctrl.dist > ctrl->dist) {
                 std::swap(rich_ctrl.value, ctrl->value);
@@ -5816,14 +5815,12 @@ InsertOrGrow_Start:
             } else {
                 if (rich_ctrl.getDist() >= this->max_lookups()) {
                     this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-                    this->destroy_empty_slot(empty);
                     return kNeedGrow;
                 }
             }
         }
 
         this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-        this->destroy_empty_slot(empty);
         return kNeedGrow;
     }
 
@@ -5878,49 +5875,6 @@ InsertOrGrow_Start:
         }
     }
 
-    JSTD_FORCED_INLINE
-    void construct_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            }
-        }
-
-        // If we don't called construct_slot(empty), then use placement new.
-        this->placement_new_slot(empty);
-    }
-
-    JSTD_FORCED_INLINE
-    void destroy_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            }
-        }
-    }
-
     ////////////////////////////////////////////////////////////////////////////////////////////
 
     template <bool AlwaysUpdate>
-- 
2.43.0


From 2bcc6c47feb8ff7f1149dc1581da0c3789c66928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 62/93] fix: robin_hash_map::reserve and rehash ignore requests
 whose product with the load factor overflows

---
 src/jstd/hashmap/robin_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f85008d..b8b1baf 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3862,7 +3862,10 @@ private:
 
     size_type min_require_capacity(size_type init_capacity) const {
         this->check_capacity(init_capacity);
-        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + kLoadFactorAmplify - 1) / kLoadFactorAmplify;
+        // The product may overflow, so the multiple of kLoadFactorAmplify and the rest are scaled one by one.
+        size_type rest = init_capacity % kLoadFactorAmplify;
+        size_type new_capacity = init_capacity / kLoadFactorAmplify * this->integral_mlf_rev() +
+                                 (rest * this->integral_mlf_rev() + kLoadFactorAmplify - 1) / kLoadFactorAmplify;
         return new_capacity;
     }
 
-- 
2.43.0


From 67837f3f11f4fd84f34dea663b8b983901171b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 63/93] fix: AVX::mm256_insert_epi32 writes zero instead of the
 value at odd indices

The AVX2 variant broadcast the low 64 bits of the register that holds the
32-bit value, so that every odd lane received its zero upper half.
---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index aae2f6d..945ff7f 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -680,7 +680,7 @@ __m256i mm256_insert_epi32(__m256i target, int64_t value)
     else if (index >= 1 && index < 8) {
         static const int blend_mask = 0b00000001 << index;
         __m128i low32 = _mm_cvtsi32_si128(value);
-        __m256i repeat256 = _mm256_broadcastq_epi64(low32);
+        __m256i repeat256 = _mm256_broadcastd_epi32(low32);
         result = _mm256_blend_epi32(target, repeat256, blend_mask);
     }
     else {
-- 
2.43.0


From aab2dfc86e47bb3c208d45a1fb31c80bf6adca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 64/93] fix: MT19937_32 and MT19937_64 read beyond their state

The second part of the state update addressed the word N - M places ahead
instead of the one N - M places before, past the end of the array. The outputs
depended on whatever lies behind the generator.
---
 src/jstd/system/MT19937_32.h | 4 ++--
 src/jstd/system/MT19937_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 466b3bb..92f22da 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -245,10 +245,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 57256a7..5d0a664 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -245,10 +245,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
-- 
2.43.0


From 14205ee9ca84f1584bbd7f6a05fea120d2cd0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 65/93] fix: MT19937_32 and MT19937_64 drop an output after
 srand

srand() computed the next block itself with no draw pending, so that the first
draw consumed one step of the block and its last word was never given out.
A reseeded generator now gives what a newly constructed one gives.
---
 src/jstd/system/MT19937_32.h | 6 +++---
 src/jstd/system/MT19937_64.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 92f22da..e5ad5de 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 5d0a664..64cf187 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
-- 
2.43.0


From 1114225138c3a0bb6df2da370d63f191b6cc47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 66/93] fix: a copied MT19937_32 or MT19937_64 draws from the
 state of its source

The generators kept a pointer into their own state, which a copy took over: it
continued in the state of the source, also after the source was destroyed.
The position follows from the number of words left.
---
 src/jstd/system/MT19937_32.h | 13 ++++---------
 src/jstd/system/MT19937_64.h | 13 ++++---------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index e5ad5de..dc7b92c 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -146,22 +146,21 @@ public:
     static const size_type N = 624, M = 397;
 
 private:
-    value_type * next;
     value_type   left;
     value_type   state[N];
 
 public:
-    explicit MT19937_32(value_type initSeed = kMTDefaultSeed) : next(nullptr), left(1) {
+    explicit MT19937_32(value_type initSeed = kMTDefaultSeed) : left(1) {
         this->init(initSeed);
     }
 
     MT19937_32(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : left(1) {
         this->init(init_key, key_len, initSeed);
     }
 
     MT19937_32(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : left(1) {
         this->init(init_key, initSeed);
     }
 
@@ -250,7 +249,6 @@ private:
 
         *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
-        this->next = &this->state[0];
     }
 
     value_type mixbits(value_type u, value_type v) const {
@@ -283,10 +281,7 @@ public:
             this->next_state();
         }
 
-        if (this->next != nullptr)
-            y = *(this->next++);
-        else
-            y = static_cast<value_type>(LibcRand::rand32());
+        y = this->state[N - this->left];
 
         // Tempering
         y ^= (y >> 11);
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 64cf187..ba9f2a3 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -146,22 +146,21 @@ public:
     static const size_type N = 312, M = 156;
 
 private:
-    value_type * next;
     value_type   left;
     value_type   state[N];
 
 public:
-    explicit MT19937_64(value_type initSeed = kMTDefaultSeed) : next(nullptr), left(1) {
+    explicit MT19937_64(value_type initSeed = kMTDefaultSeed) : left(1) {
         this->init(initSeed);
     }
 
     MT19937_64(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : left(1) {
         this->init(init_key, key_len, initSeed);
     }
 
     MT19937_64(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed)
-        : next(nullptr), left(1) {
+        : left(1) {
         this->init(init_key, initSeed);
     }
 
@@ -250,7 +249,6 @@ private:
 
         *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
-        this->next = &this->state[0];
     }
 
     value_type mixbits(value_type u, value_type v) const {
@@ -283,10 +281,7 @@ public:
             this->next_state();
         }
 
-        if (this->next != nullptr)
-            y = *(this->next++);
-        else
-            y = static_cast<value_type>(LibcRand::rand64());
+        y = this->state[N - this->left];
 
         // Tempering
         y ^= (y >> 29) & 0x5555555555555555ull;
-- 
2.43.0


From 17a0eaac7e795a896a3986e087727245b1cd0062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 67/93] fix: MT19937_64 does not follow the parameters of
 MT19937-64

It joined 1 and 63 bits instead of 33 and 31 (r = 31 in its own description)
and seeded with the shifts and multipliers of the 32-bit generator.
---
 src/jstd/system/MT19937_64.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index ba9f2a3..1b49c36 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -179,7 +179,7 @@ private:
         }
         this->state[0] = initSeed;
         for (size_type j = 1; j < N; ++j) {
-            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 30)) + (value_type)j);
+            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 62)) + (value_type)j);
             // See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier.
             // In the previous versions, MSBs of the seed affect
             // only MSBs of the array state[].
@@ -208,8 +208,8 @@ private:
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1664525ul)) + init_key[j] + (value_type)j;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 3935559000370003845ull)) + init_key[j] + (value_type)j;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             ++j;
@@ -223,8 +223,8 @@ private:
 
         for (k = N - 1; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1566083941ul)) - (value_type)i;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 2862933555777941757ull)) - (value_type)i;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             if (i >= N) {
@@ -252,7 +252,7 @@ private:
     }
 
     value_type mixbits(value_type u, value_type v) const {
-        return (u & 0x8000000000000000ull) | (v & 0x7FFFFFFFFFFFFFFFull);
+        return (u & 0xFFFFFFFF80000000ull) | (v & 0x7FFFFFFFull);
     }
 
     value_type twist(value_type u, value_type v) const {
-- 
2.43.0


From e58b779183d181770e4e46c7443e6f5a6b462c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 68/93] fix: ranged draws of BasicRandomGenerator divide by
 zero or overflow

The size of the range was computed in the type of the bounds: it overflowed for
signed bounds that are far apart, and was zero for the range of all values.
---
 src/jstd/system/RandomGen.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 7101494..917e240 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -239,17 +239,17 @@ private:
 
     template <typename ValueType, typename UnsignedType = ValueType>
     static ValueType nextInteger(ValueType minValue, ValueType maxValue) {
-        ValueType result;
-        if (minValue <= maxValue) {
-            result = minValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(maxValue - minValue + 1));
+        if (minValue > maxValue) {
+            ValueType tmp = minValue;
+            minValue = maxValue;
+            maxValue = tmp;
         }
-        else {
-            assert(minValue > maxValue);
-            result = maxValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(minValue - maxValue + 1));
-        }
-        return result;
+        UnsignedType result = static_cast<UnsignedType>(this_type::template nextInteger<ValueType>());
+        // The range is 0 if it contains all the values of the type.
+        UnsignedType range = UnsignedType(maxValue) - UnsignedType(minValue) + 1;
+        if (range != 0)
+            result %= range;
+        return static_cast<ValueType>(UnsignedType(minValue) + result);
     }
 
     template <typename ValueType, typename UnsignedType = ValueType>
-- 
2.43.0


From efaf10a208731cbfec7b234a6e87456a11a5ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 69/93] fix: BasicRandomGenerator::nextInt(maxValue) ignores
 the sign of its bound

It drew an unsigned number, so that a negative bound stood for nearly the whole
range instead of [maxValue, 0], as in nextInt32 and nextInt64.
---
 src/jstd/system/RandomGen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 917e240..28d1825 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -160,7 +160,7 @@ public:
     }
 
     static std::intptr_t nextInt(std::intptr_t maxValue) {
-        return this_type::nextUInt(0, maxValue);
+        return this_type::nextInt(0, maxValue);
     }
 
     static std::size_t nextUInt(std::size_t minValue, std::size_t maxValue) {
-- 
2.43.0


From dc038ac5731a68bbbfd501b80fcc823c33ad1c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 70/93] fix: insertions hash and compare an argument of another
 type as the key it converts to

---
 src/jstd/hashmap/group15_flat_table.hpp | 14 +++++++++++++-
 src/jstd/hashmap/group16_flat_table.hpp | 14 +++++++++++++-
 src/jstd/hashmap/robin_hash_map.h       | 14 +++++++++++++-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index c77b685..1994a52 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2342,7 +2342,19 @@ private:
         return {};
     }
 
-    template <typename KeyT>
+    // The argument of another type is converted to key_type at first, so it's hashed and compared as a key.
+    template <typename KeyT, typename std::enable_if<
+              (!std::is_same<KeyT, key_type>::value) &&
+                std::is_constructible<key_type, const KeyT &>::value>::type * = nullptr>
+    JSTD_FORCED_INLINE
+    std::pair<locator_t, bool> find_or_insert(const KeyT & key_t) {
+        key_type key(key_t);
+        return this->find_or_insert(key);
+    }
+
+    template <typename KeyT, typename std::enable_if<
+                std::is_same<KeyT, key_type>::value ||
+              (!std::is_constructible<key_type, const KeyT &>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<locator_t, bool> find_or_insert(const KeyT & key) {
         std::size_t key_hash = this->hash_for(key);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1e86843..c9c00b0 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2191,7 +2191,19 @@ private:
         return this->slot_capacity();
     }
 
-    template <typename KeyT>
+    // The argument of another type is converted to key_type at first, so it's hashed and compared as a key.
+    template <typename KeyT, typename std::enable_if<
+              (!std::is_same<KeyT, key_type>::value) &&
+                std::is_constructible<key_type, const KeyT &>::value>::type * = nullptr>
+    JSTD_FORCED_INLINE
+    std::pair<size_type, bool> find_or_insert(const KeyT & key_t) {
+        key_type key(key_t);
+        return this->find_or_insert(key);
+    }
+
+    template <typename KeyT, typename std::enable_if<
+                std::is_same<KeyT, key_type>::value ||
+              (!std::is_constructible<key_type, const KeyT &>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<size_type, bool> find_or_insert(const KeyT & key) {
         std::size_t key_hash = this->hash_for(key);
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index b8b1baf..7504520 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5483,7 +5483,19 @@ private:
         return this->max_slot_capacity();
     }
 
-    template <typename KeyT>
+    // The argument of another type is converted to key_type at first, so it's hashed and compared as a key.
+    template <typename KeyT, typename std::enable_if<
+              (!std::is_same<KeyT, key_type>::value) &&
+                std::is_constructible<key_type, const KeyT &>::value>::type * = nullptr>
+    std::pair<slot_type *, FindResult>
+    find_and_insert(const KeyT & key_t) {
+        key_type key(key_t);
+        return this->find_and_insert(key);
+    }
+
+    template <typename KeyT, typename std::enable_if<
+                std::is_same<KeyT, key_type>::value ||
+              (!std::is_constructible<key_type, const KeyT &>::value)>::type * = nullptr>
     std::pair<slot_type *, FindResult>
     find_and_insert(const KeyT & key) {
         if (!kIsIndirectKV) {
-- 
2.43.0


From 3e7fd5104b561e3dbbb196616764a5084ead96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 71/93] fix: flat16_hash_map loses keys whose lookup passes an
 erased slot

---
 src/jstd/hashmap/flat16_hash_map.h | 45 +++++++++++++++---------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index ab9ca88..550285e 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2735,37 +2735,38 @@ private:
         return 0;
     }
 
+    // No lookup has passed a full group of slots which contains the slot: the lookups may stop at it.
+    JSTD_FORCED_INLINE
+    bool was_never_full(size_type index) const {
+        if (this->slot_capacity() <= kGroupWidth) {
+            // The only group of a lookup contains all of the slots.
+            return true;
+        }
+        // The groups begin at any slot, so the run of the non-empty slots around the slot matters.
+        size_type prev_index = (index + this->slot_capacity() - kGroupWidth) & this->slot_mask();
+        std::uint32_t empty_before = this->get_group(prev_index).matchEmpty();
+        std::uint32_t empty_after = this->get_group(index).matchEmpty();
+        if (empty_before == 0 || empty_after == 0) {
+            return false;
+        }
+        size_type run_before = kGroupWidth - 1 - BitUtils::bsr32(empty_before);
+        size_type run_after = BitUtils::bsf32(empty_after);
+        return ((run_before + run_after) < kGroupWidth);
+    }
+
     JSTD_FORCED_INLINE
     void erase_slot(size_type index) {
         assert(index <= this->slot_capacity());
         ctrl_type & control = this->get_control(index);
         assert(control.isUsed());
-        size_type start_slot = index;
-
-        // Increment the left empties first, and decrement it when is setDeleted().
-        this->left_empties_++;
 
-        const group_type & group = this->get_group(start_slot);
-        if (group.hasAnyEmpty()) {
+        if (this->was_never_full(index)) {
+            this->left_empties_++;
             control.setEmpty();
             this->setUnusedMirrorCtrl(index, kEmptyEntry);
         } else {
-            size_type slot_index = this->slot_next_group(start_slot);
-            if (slot_index != start_slot) {
-                const group_type & group = this->get_group(slot_index);
-                if (!group.isAllEmpty()) {
-                    // Decrement the left empties when is setDeleted().
-                    this->left_empties_--;
-                    control.setDeleted();
-                    this->setUnusedMirrorCtrl(index, kDeletedEntry);
-                } else {
-                    control.setEmpty();
-                    this->setUnusedMirrorCtrl(index, kEmptyEntry);
-                }
-            } else {
-                control.setEmpty();
-                this->setUnusedMirrorCtrl(index, kEmptyEntry);
-            }
+            control.setDeleted();
+            this->setUnusedMirrorCtrl(index, kDeletedEntry);
         }
 
         // Destroy slot
-- 
2.43.0


From db301990a3b5ccfa172cd296b90074dea976535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 72/93] fix: flat16_hash_map does not reorder its slots when it
 drops the deleted ones

---
 src/jstd/hashmap/flat16_hash_map.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 550285e..f72f648 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2031,7 +2031,7 @@ private:
         }
 
         // Copy and mirror the beginning control bytes.
-        this->template copy_and_mirror_controls<false>();
+        this->template copy_and_mirror_controls<true>();
     }
 
     JSTD_FORCED_INLINE
@@ -2128,15 +2128,16 @@ private:
 
         for (size_type index = 0; index < this->slot_capacity(); index++) {
             ctrl_type * ctrl = this->control_at(index);
-            if (ctrl->isDeleted()) {
+            if (!ctrl->isDeleted()) {
                 continue;
             }
             slot_type * slot = this->slot_at(index);
             std::uint8_t ctrl_hash;
             size_type target = this->find_first_non_used_slot(slot->value.first, ctrl_hash);
-            intptr_t distance = intptr_t(index - target);
-            if (distance < intptr_t(kGroupWidth) && distance >= 0) {
-                // If the distance of old index and new index is less than kGroupWidth,
+            size_type start_slot = this->index_for(this->get_hash(slot->value.first));
+            if ((this->round_index(index - start_slot) / kGroupWidth) ==
+                (this->round_index(target - start_slot) / kGroupWidth)) {
+                // If the old index and new index are in the same group of the lookup,
                 // we don't need to move it because it's already in the best position.
                 ctrl->setUsed(ctrl_hash);
                 this->setUsedMirrorCtrl(index, ctrl_hash);
-- 
2.43.0


From a4c45be2400b426bdddedb17e64dfa1f4bfde6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 73/93] fix: flat16_hash_map::clear() keeps control bytes of
 destroyed elements

---
 src/jstd/hashmap/flat16_hash_map.h | 41 +++++++++++++++---------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index f72f648..9bb62c5 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1733,10 +1733,7 @@ private:
     void destroy_group() noexcept {
         if (this->groups_ != nullptr) {
             if (!finitial) {
-                for (size_type group_index = 0; group_index <= this->group_mask(); group_index++) {
-                    group_type * group = this->group_at(group_index);
-                    group->clear();
-                }
+                this->init_controls(this->groups_, this->group_count(), this->slot_capacity());
             }
             if (finitial) {
                 delete[] this->groups_;
@@ -1871,22 +1868,7 @@ private:
         this->create_group<true>(new_capacity);
     }
 
-    template <bool initialize = false>
-    void create_group(size_type init_capacity) {
-        size_type new_capacity;
-        if (initialize)
-            new_capacity = calc_capacity(init_capacity);
-        else
-            new_capacity = init_capacity;
-        assert(new_capacity > 0);
-        assert(new_capacity >= kMinCapacity);
-
-        size_type group_count = (new_capacity + (kGroupWidth - 1)) / kGroupWidth;
-        assert(group_count > 0);
-        group_type * new_groups = new group_type[group_count + 1];
-        groups_ = new_groups;
-        group_mask_ = group_count - 1;
-
+    static void init_controls(group_type * new_groups, size_type group_count, size_type new_capacity) {
 #if 1
         std::memset((void *)new_groups, kEmptyEntry, sizeof(group_type) * group_count);
 #else
@@ -1907,6 +1889,25 @@ private:
         ctrl_type * new_controls = (ctrl_type *)new_groups;
         ctrl_type * endof_ctrl = new_controls + new_capacity;
         endof_ctrl->setEndOf();
+    }
+
+    template <bool initialize = false>
+    void create_group(size_type init_capacity) {
+        size_type new_capacity;
+        if (initialize)
+            new_capacity = calc_capacity(init_capacity);
+        else
+            new_capacity = init_capacity;
+        assert(new_capacity > 0);
+        assert(new_capacity >= kMinCapacity);
+
+        size_type group_count = (new_capacity + (kGroupWidth - 1)) / kGroupWidth;
+        assert(group_count > 0);
+        group_type * new_groups = new group_type[group_count + 1];
+        groups_ = new_groups;
+        group_mask_ = group_count - 1;
+
+        this->init_controls(new_groups, group_count, new_capacity);
 
         slot_type * slots = slot_allocator_.allocate(new_capacity);
         slots_ = slots;
-- 
2.43.0


From 9ac8627b2bb4bba0c64446d38fbda183cd2de7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 74/93] fix: moving and swapping a flat16_hash_map does not
 compile

---
 src/jstd/hashmap/flat16_hash_map.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 9bb62c5..0190c81 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2779,31 +2779,31 @@ private:
 
     void swap_content(flat16_hash_map & other) {
         using std::swap;
-        swap(this->groups_, other.groups());
-        swap(this->group_mask_, other.group_mask());
-        swap(this->slots_, other.slots());
-        swap(this->slot_size_, other.slot_size());
-        swap(this->slot_mask_, other.slot_mask());
-        swap(this->left_empties_, other.slot_empties());
-        swap(this->n_mlf_, other.integral_mlf());
-        swap(this->n_mlf_rev_, other.integral_mlf_rev());
+        swap(this->groups_, other.groups_);
+        swap(this->group_mask_, other.group_mask_);
+        swap(this->slots_, other.slots_);
+        swap(this->slot_size_, other.slot_size_);
+        swap(this->slot_mask_, other.slot_mask_);
+        swap(this->left_empties_, other.left_empties_);
+        swap(this->n_mlf_, other.n_mlf_);
+        swap(this->n_mlf_rev_, other.n_mlf_rev_);
     }
 
     void swap_policy(flat16_hash_map & other) {
         using std::swap;
-        swap(this->hasher_, other.hash_function());
-        swap(this->key_equal_, other.key_eq());
+        swap(this->hasher_, other.hasher_);
+        swap(this->key_equal_, other.key_equal_);
         if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
-            swap(this->allocator_, other.get_allocator());
+            swap(this->allocator_, other.allocator_);
         }
         if (std::allocator_traits<mutable_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->mutable_allocator_, other.get_mutable_allocator());
+            swap(this->mutable_allocator_, other.mutable_allocator_);
         }
         if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->slot_allocator_, other.get_slot_allocator());
+            swap(this->slot_allocator_, other.slot_allocator_);
         }
         if (std::allocator_traits<mutable_slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->mutable_slot_allocator_, other.get_mutable_slot_allocator());
+            swap(this->mutable_slot_allocator_, other.mutable_slot_allocator_);
         }
     }
 
-- 
2.43.0


From 9936816cb15d98edd47836e791df7d388715b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 75/93] fix: at, erase by iterator and the hinted insertions of
 flat16_hash_map do not compile or return a pair

---
 src/jstd/hashmap/flat16_hash_map.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 0190c81..bfd2b9d 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1311,7 +1311,7 @@ public:
         size_type index = this->find_impl(key);
         if (index != npos) {
             slot_type * slot = this->slot_at(index);
-            return slot->second;
+            return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key), "
                                     "the specified key is not exists.");
@@ -1321,8 +1321,8 @@ public:
     const mapped_type & at(const key_type & key) const {
         size_type index = this->find_impl(key);
         if (index != npos) {
-            slot_type * slot = this->slot_at(index);
-            return slot->second;
+            const slot_type * slot = this->slot_at(index);
+            return slot->value.second;
         } else {
             throw std::out_of_range("std::out_of_range exception: jstd::flat16_hash_map<K,V>::at(key) const, "
                                     "the specified key is not exists.");
@@ -1395,8 +1395,8 @@ public:
               (!jstd::is_same_ex<P, value_type>::value) &&
               (!jstd::is_same_ex<P, mutable_value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -1422,12 +1422,12 @@ public:
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
@@ -1467,13 +1467,13 @@ public:
     }
 
     template <typename ... Args>
-    std::pair<iterator, bool> try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return this->emplace_impl<false>(key, std::forward<Args>(args)...);
+    iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
+        return this->emplace_impl<false>(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
-    std::pair<iterator, bool> try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return this->emplace_impl<false>(std::forward<key_type>(key), std::forward<Args>(args)...);
+    iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
+        return this->emplace_impl<false>(std::forward<key_type>(key), std::forward<Args>(args)...).first;
     }
 
     size_type erase(const key_type & key) {
@@ -1483,7 +1483,7 @@ public:
 
     iterator erase(iterator pos) {
         size_type index = this->index_of(pos);
-        this->erase_slot(pos);
+        this->erase_slot(index);
         return ++pos;
     }
 
@@ -1498,7 +1498,7 @@ public:
             size_type index = this->index_of(first);
             this->erase_slot(index);
         }
-        return { first };
+        return this->iterator_at(this->index_of(first));
     }
 
 private:
-- 
2.43.0


From 2277f53b6e92b404bfce4016198be31320201cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:00 +0000
Subject: [PATCH 76/93] fix: flat16_hash_map::insert_or_assign moves from its
 lvalue key

---
 src/jstd/hashmap/flat16_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index bfd2b9d..6353181 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1417,7 +1417,7 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
@@ -1427,7 +1427,7 @@ public:
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value)).first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From e24f397eb125da9c71a824c014f3122ce6a355ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 77/93] fix: copies of a flat16_hash_map lose its hash function
 and miscount the empty slots

---
 src/jstd/hashmap/flat16_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 6353181..61f41b6 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -991,7 +991,7 @@ public:
         slots_(nullptr), slot_size_(0), slot_mask_(0),
         left_empties_(0), n_mlf_(kDefaultLoadFactorInt),
         n_mlf_rev_(kDefaultLoadFactorRevInt),
-        hasher_(hasher()), key_equal_(key_equal()),
+        hasher_(other.hash_function()), key_equal_(other.key_eq()),
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
@@ -2359,6 +2359,7 @@ private:
     void insert_unique(InputIter first, InputIter last) {
         for (InputIter iter = first; iter != last; ++iter) {
             this->insert_unique(static_cast<value_type>(*iter));
+            this->left_empties_--;
         }
     }
 
-- 
2.43.0


From 2c1de700a64813f11315651bf89fa57829878c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 78/93] fix: flat16_hash_map::max_load_factor(mlf) keeps the
 number of slots left for the old load factor

---
 src/jstd/hashmap/flat16_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 61f41b6..2356eda 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1137,6 +1137,7 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type new_slot_threshold = this->slot_threshold();
+        this->left_empties_ = new_slot_threshold - (std::min)(old_slot_used, new_slot_threshold);
         if (old_slot_used > new_slot_threshold) {
             size_type min_required_capacity;
             size_type slot_deleted = old_slot_used - this->slot_size();
@@ -1513,7 +1514,7 @@ private:
 
     JSTD_FORCED_INLINE
     size_type min_require_capacity(size_type init_capacity) {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + (kLoadFactorAmplify - 1)) / kLoadFactorAmplify;
         return new_capacity;
     }
 
-- 
2.43.0


From 812643787514732fe4f563df07ec90a514bd5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 79/93] fix: flat16_hash_map searches endlessly if only the
 first slot of a new table is empty

---
 src/jstd/hashmap/flat16_hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 2356eda..13c52fb 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2272,10 +2272,11 @@ private:
         size_type first_slot = slot_index;
         o_ctrl_hash = ctrl_hash;
 
-        // Find the first empty slot and insert
+        // Find the first empty slot and insert, there is no deleted slot in a new table.
+        // The mirror of the first slot is a end of mark when the slot is empty.
         do {
             const group_type & group = this->get_group(slot_index);
-            std::uint32_t maskEmpty = group.matchEmpty();
+            std::uint32_t maskEmpty = group.matchUnused();
             if (maskEmpty != 0) {
                 // Found a [EmptyEntry] to insert
                 size_type pos = BitUtils::bsf32(maskEmpty);
-- 
2.43.0


From 740c5c370232b17c41eb29485460d32722bc39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 80/93] fix: constructing a flat16_hash_map from a range does
 not compile

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 13c52fb..74a9e28 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -960,7 +960,7 @@ public:
         allocator_(alloc), mutable_allocator_(alloc),
         slot_allocator_(alloc), mutable_slot_allocator_(alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = distance(first, last);
+        size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
-- 
2.43.0


From 82aab2019490460c281427661ae9db3a5ae60065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 81/93] fix: flat16_hash_map of move-only values does not
 compile

---
 src/jstd/hashmap/flat16_hash_map.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index 74a9e28..cf1cbe7 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2506,12 +2506,8 @@ private:
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
-                static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
                 slot_type * slot = this->slot_at(target);
-                if (is_rvalue_ref)
-                    slot->value.second = std::move(value.second);
-                else
-                    slot->value.second = value.second;
+                slot->value.second = std::move(value.second);
             }
             return { this->iterator_at(target), false };
         }
-- 
2.43.0


From 9ae9a08b9b8ab386c9920170121c38bd95253e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:46 +0000
Subject: [PATCH 82/93] fix: flat16_hash_map::rehash() shrinks the table below
 what the load factor allows

---
 src/jstd/hashmap/flat16_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index cf1cbe7..fb1738c 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -1279,7 +1279,7 @@ public:
 
     void rehash(size_type new_capacity, bool read_only = false) {
         if (!read_only)
-            new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
+            new_capacity = this->min_require_capacity((std::max)(new_capacity, this->slot_size()));
         else
             new_capacity = (std::max)(new_capacity, this->slot_size());
         this->rehash_impl<true, false>(new_capacity);
-- 
2.43.0


From 8f5590e06bf17a333cff0794907e8b7eec649056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 83/93] fix: jstd::cbegin, cend, crbegin and crend of standard
 containers do not compile

The unqualified begin() is ambiguous with std::begin().
---
 src/jstd/iterator.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/iterator.h b/src/jstd/iterator.h
index c522682..fbafcd0 100644
--- a/src/jstd/iterator.h
+++ b/src/jstd/iterator.h
@@ -510,20 +510,20 @@ auto end(const Container & container) -> decltype(container.end())
 template <class Container>
 inline
 constexpr auto cbegin(const Container & container)
-noexcept(noexcept(begin(container)))
--> decltype(begin(container))
+noexcept(noexcept(jstd::begin(container)))
+-> decltype(jstd::begin(container))
 {
-    return (begin(container));
+    return (jstd::begin(container));
 }
 
 // get end of sequence
 template <class Container>
 inline
 constexpr auto cend(const Container & container)
-noexcept(noexcept(end(container)))
--> decltype(end(container))
+noexcept(noexcept(jstd::end(container)))
+-> decltype(jstd::end(container))
 {
-    return (end(container));
+    return (jstd::end(container));
 }
 
 /////////////////////////////////////////////////////////////////
@@ -603,17 +603,17 @@ rend(std::initializer_list<Element> initList)
 // get beginning of reversed sequence
 template <class Container>
 inline
-auto crbegin(const Container & container) -> decltype(rbegin(container))
+auto crbegin(const Container & container) -> decltype(jstd::rbegin(container))
 {
-    return (rbegin(container));
+    return (jstd::rbegin(container));
 }
 
 // get end of reversed sequence
 template <class Container>
 inline
-auto crend(const Container & container) -> decltype(rend(container))
+auto crend(const Container & container) -> decltype(jstd::rend(container))
 {
-    return (rend(container));
+    return (jstd::rend(container));
 }
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From 6aa6a1395946b9de06a6c0e3e639a2136fc44a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 84/93] fix: jstd::swap() of pointers and of arrays does not
 compile

---
 src/jstd/memory/swap.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jstd/memory/swap.h b/src/jstd/memory/swap.h
index f952122..8285a89 100644
--- a/src/jstd/memory/swap.h
+++ b/src/jstd/memory/swap.h
@@ -55,9 +55,8 @@ void swap(T & a, T & b) noexcept(std::is_nothrow_move_constructible<T>::value &&
     b = std::move(tmp);
 }
 
-template <typename T, typename std::enable_if<std::is_pointer<T>::value>::type * p = nullptr>
-void swap(T * & a, T * & b) noexcept(std::is_nothrow_move_constructible<T>::value &&
-                                     std::is_nothrow_move_assignable<T>::value)
+template <typename T>
+void swap(T * & a, T * & b) noexcept
 {
     T * tmp = a;
     a = b;
@@ -81,7 +80,7 @@ ForwardIter2 swap_ranges(ForwardIter1 first1, ForwardIter1 last1, ForwardIter2 f
 template <typename T, std::size_t N>
 void swap(T (&a)[N], T (&b)[N]) noexcept(noexcept(swap(*a, *b)))
 {
-    swap_ranges(a, a + N, b);
+    jstd::swap_ranges(a, a + N, b);
 }
 
 } // namespace jstd
-- 
2.43.0


From 6e6a29594b5ac54bd92d5540d4d9b51a68f23fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 85/93] fix: const iteration and copying of a string_view_array
 do not compile

---
 src/jstd/string/string_view_array.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 3028b55..74f80ff 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -112,13 +112,11 @@ public:
 
     iterator begin()             { return array_.begin();  }
     iterator end()               { return array_.end();    }
-    const_pointer begin() const  { return array_.begin();  }
-    const_pointer end() const    { return array_.end();    }
+    const_iterator begin() const { return array_.begin();  }
+    const_iterator end() const   { return array_.end();    }
 
-    iterator cbegin()            { return array_.cbegin(); }
-    iterator cend()              { return array_.cend();   }
-    const_pointer cbegin() const { return array_.cbegin(); }
-    const_pointer cend() const   { return array_.cend();   }
+    const_iterator cbegin() const { return array_.cbegin(); }
+    const_iterator cend() const   { return array_.cend();   }
 
     reference front() { return array_.front(); }
     reference back()  { return array_.back();  }
@@ -187,7 +185,7 @@ public:
 private:
     void copy_impl(const string_view_array & other) {
         for (size_type i = 0; i < other.size(); i++) {
-            element_type * new_element = new element_type(*other[i]);
+            element_type * new_element = new element_type(other[i]);
             this->array_.push_back(new_element);
         }
     }
-- 
2.43.0


From fc992e5d168a7bee27f9624be6ba4f8966bef72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 86/93] fix: clear(), resize() and pop_back() of a
 string_view_array leak the elements

---
 src/jstd/string/string_view_array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jstd/string/string_view_array.h b/src/jstd/string/string_view_array.h
index 74f80ff..6ae52e3 100644
--- a/src/jstd/string/string_view_array.h
+++ b/src/jstd/string/string_view_array.h
@@ -81,8 +81,9 @@ public:
 private:
     vector_type array_;
 
-    void destroy() {
-        for (size_type i = 0; i < this->array_.size(); i++) {
+    // Delete the elements from index first on.
+    void destroy(size_type first = 0) {
+        for (size_type i = first; i < this->array_.size(); i++) {
             value_type value = this->array_[i];
             if (value != nullptr) {
                 delete value;
@@ -125,6 +126,7 @@ public:
     const_reference back() const  { return array_.back();  }
 
     void clear() {
+        this->destroy();
         array_.clear();
     }
 
@@ -133,6 +135,7 @@ public:
     }
 
     void resize(size_type new_size) {
+        this->destroy(new_size);
         array_.resize(new_size);
     }
 
@@ -145,6 +148,7 @@ public:
     }
 
     void pop_back() {
+        this->destroy(this->size() - 1);
         array_.pop_back();
     }
 
-- 
2.43.0


From fb4a4526acf9aebdb5de093113c720c65e02ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 87/93] fix: jstd::swap_ranges() asserts that its ranges are
 empty

---
 src/jstd/memory/swap.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jstd/memory/swap.h b/src/jstd/memory/swap.h
index 8285a89..d9c8cdd 100644
--- a/src/jstd/memory/swap.h
+++ b/src/jstd/memory/swap.h
@@ -69,11 +69,9 @@ void swap(T * & a, T * & b) noexcept
 template <typename ForwardIter1, typename ForwardIter2>
 ForwardIter2 swap_ranges(ForwardIter1 first1, ForwardIter1 last1, ForwardIter2 first2)
 {
-    ForwardIter2 first2_save = first2;
     while (first1 != last1) {
         std::iter_swap(first1++, first2++);
     }
-    assert(first2 == std::next(first2_save, jstd::distance(first1, last1)));
     return first2;
 }
 
-- 
2.43.0


From 337a5016106e1281980a8a77b1cf50faf670ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 88/93] fix: wide and signed characters above the middle are
 ordered as unsigned by the SSE 4.2 compare

---
 src/jstd/string/string_utils.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index e3e19ec..aa2e638 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -461,15 +461,10 @@ int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
 #if (defined(__SSE4_2__) && (STRING_UTILS_MODE == STRING_UTILS_SSE42))
     assert((str1 != nullptr && str2 != nullptr) || count == 0);
 
-    typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
-
     std::size_t index = detail::mismatch_index(str1, str2, count);
     if (index < count) {
-        // It's dismatched.
-        if (UCharTy(str1[index]) > UCharTy(str2[index]))
-            return CompareResult::IsBigger;
-        else
-            return CompareResult::IsSmaller;
+        // It's dismatched, the wide and signed characters are ordered by their values.
+        return libc::StrCmp(str1 + index, str2 + index, std::size_t(1));
     }
 
     // It's matched, or the length is equal 0.
-- 
2.43.0


From aa19a62805744a6f66d01b3ee50bc085281de7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 89/93] fix: str_utils::str_copy() of other character types
 stops at what the destination held before

---
 src/jstd/string/string_utils.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index aa2e638..e030fb2 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -103,15 +103,17 @@ template <typename CharTy>
 static inline
 CharTy * str_copy(CharTy * dest, const CharTy * src, std::size_t count)
 {
-    typedef typename char_traits<CharTy>::uchar_type UCharTy;
-
-    while (count > 0) {
-        if (unlikely((UCharTy(*dest) & UCharTy(*src)) == 0))
-            break;
+    // The same as std::strncpy().
+    CharTy * first = dest;
+    while ((count > 0) && (*src != CharTy(0))) {
         *dest++ = *src++;
         count--;
     }
-    return dest;
+    while (count > 0) {
+        *dest++ = CharTy(0);
+        count--;
+    }
+    return first;
 }
 
 #if (defined(__GNUC__) && (__GNUC__ >= 8)) && !defined(__clang__)
-- 
2.43.0


From 14f4e6a5f067516c0811ec3d9510c88c6ff1c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:17 +0000
Subject: [PATCH 90/93] fix: group15_flat_table: construct a new element before
 growing or moving elements, its arguments may refer to them

---
 src/jstd/hashmap/group15_flat_table.hpp | 64 +++++++++++++------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 1994a52..f38cdf1 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2367,12 +2367,9 @@ private:
         }
 
         if (JSTD_UNLIKELY(this->need_grow())) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            group_index = this->index_for_hash(key_hash);
-            // Ctrl hash will not change
-            // ctrl_hash = this->ctrl_for_hash(key_hash);
+            // The size of slot reach the slot threshold or hashmap is full. The hashmap grows
+            // in construct_new_slot(), because the arguments may refer to its elements.
+            return { locator, kNeedInsert };
         }
 
         locator = this->find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
@@ -2486,6 +2483,10 @@ private:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     void construct_new_slot(locator_t & locator, Args && ... args) {
+        if (JSTD_UNLIKELY(locator.slot() == nullptr)) {
+            locator = this->grow_and_construct_slot(std::forward<Args>(args)...);
+            return;
+        }
         try {
             SlotPolicyTraits::construct(&this->slot_allocator_, locator.slot(),
                                         std::forward<Args>(args)...);
@@ -2496,6 +2497,31 @@ private:
         this->slot_size_++;
     }
 
+    ///
+    /// Construct a new element, grow and then move the element to its position. The arguments
+    /// may refer to elements of this hashmap, so they must be used before the growth.
+    ///
+    template <typename ... Args>
+    JSTD_NO_INLINE
+    locator_t grow_and_construct_slot(Args && ... args) {
+        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
+        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
+
+        SlotPolicyTraits::construct(&this->slot_allocator_, tmp_slot,
+                                    std::forward<Args>(args)...);
+        try {
+            this->grow_if_necessary();
+
+            locator_t locator = this->no_grow_unique_insert(tmp_slot->value.first);
+            this->construct_new_slot(locator, tmp_slot);
+            this->destroy_slot(tmp_slot);
+            return locator;
+        } catch (...) {
+            this->destroy_slot(tmp_slot);
+            throw;
+        }
+    }
+
     template <bool AlwaysUpdate, typename ValueT, typename std::enable_if<
               (jstd::is_same_ex<ValueT, value_type>::value ||
                std::is_constructible<value_type, const ValueT &>::value) ||
@@ -2508,8 +2534,6 @@ private:
         bool need_insert = find_info.second;        
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
             this->construct_new_slot(locator, value);
         } else {
             // The key to be inserted already exists.
@@ -2533,9 +2557,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
             this->construct_new_slot(locator, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
@@ -2564,9 +2585,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
             this->construct_new_slot(locator,
                                      std::forward<KeyT>(key),
                                      std::forward<MappedT>(value));
@@ -2602,9 +2620,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
             this->construct_new_slot(locator,
                                      std::piecewise_construct,
                                      std::forward_as_tuple(std::forward<KeyT>(key)),
@@ -2639,9 +2654,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
             this->construct_new_slot(locator,
                                      std::piecewise_construct,
                                      std::forward<std::tuple<Ts1...>>(first),
@@ -2680,11 +2692,7 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(locator, tmp_slot);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2706,9 +2714,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
             this->construct_new_slot(locator,
                                      std::piecewise_construct,
                                      std::forward_as_tuple(key),
@@ -2725,9 +2730,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
             this->construct_new_slot(locator,
                                      std::piecewise_construct,
                                      std::forward_as_tuple(std::forward<KeyT>(key)),
-- 
2.43.0


From e6bb3745f283848a4de12d334998a462c38a766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:17 +0000
Subject: [PATCH 91/93] fix: group16_flat_table: construct a new element before
 growing or moving elements, its arguments may refer to them

---
 src/jstd/hashmap/group16_flat_table.hpp | 61 ++++++++++++++-----------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index c9c00b0..1f87db0 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2216,12 +2216,9 @@ private:
         }
 
         if (JSTD_UNLIKELY(this->need_grow())) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            group_index = this->index_for_hash(key_hash);
-            // Ctrl hash will not change
-            // ctrl_hash = this->ctrl_for_hash(key_hash);
+            // The size of slot reach the slot threshold or hashmap is full. The hashmap grows
+            // in construct_new_slot(), because the arguments may refer to its elements.
+            return { slot_index, kNeedInsert };
         }
 
         slot_index = this->find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
@@ -2337,7 +2334,11 @@ private:
     ///
     template <typename ... Args>
     JSTD_FORCED_INLINE
-    void construct_new_slot(size_type slot_index, Args && ... args) {
+    void construct_new_slot(size_type & slot_index, Args && ... args) {
+        if (JSTD_UNLIKELY(slot_index == this->slot_capacity())) {
+            slot_index = this->grow_and_construct_slot(std::forward<Args>(args)...);
+            return;
+        }
         try {
             SlotPolicyTraits::construct(&this->slot_allocator_, this->slot_at(slot_index),
                                         std::forward<Args>(args)...);
@@ -2349,6 +2350,31 @@ private:
         this->slot_size_++;
     }
 
+    ///
+    /// Construct a new element, grow and then move the element to its position. The arguments
+    /// may refer to elements of this hashmap, so they must be used before the growth.
+    ///
+    template <typename ... Args>
+    JSTD_NO_INLINE
+    size_type grow_and_construct_slot(Args && ... args) {
+        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
+        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
+
+        SlotPolicyTraits::construct(&this->slot_allocator_, tmp_slot,
+                                    std::forward<Args>(args)...);
+        try {
+            this->grow_if_necessary();
+
+            size_type slot_index = this->no_grow_unique_insert(tmp_slot->value.first);
+            this->construct_new_slot(slot_index, tmp_slot);
+            this->destroy_slot(tmp_slot);
+            return slot_index;
+        } catch (...) {
+            this->destroy_slot(tmp_slot);
+            throw;
+        }
+    }
+
     template <bool AlwaysUpdate, typename ValueT, typename std::enable_if<
               (jstd::is_same_ex<ValueT, value_type>::value ||
                std::is_constructible<value_type, const ValueT &>::value) ||
@@ -2361,8 +2387,6 @@ private:
         bool need_insert = find_info.second;        
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             this->construct_new_slot(slot_index, value);
         } else {
             // The key to be inserted already exists.
@@ -2386,9 +2410,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            assert(slot_index < this->slot_capacity());
             this->construct_new_slot(slot_index, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
@@ -2417,8 +2438,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             this->construct_new_slot(slot_index,
                                      std::forward<KeyT>(key),
                                      std::forward<MappedT>(value));
@@ -2454,8 +2473,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             this->construct_new_slot(slot_index,
                                      std::piecewise_construct,
                                      std::forward_as_tuple(std::forward<KeyT>(key)),
@@ -2490,8 +2507,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             this->construct_new_slot(slot_index,
                                      std::piecewise_construct,
                                      std::forward<std::tuple<Ts1...>>(first),
@@ -2530,11 +2545,7 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, tmp_slot);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2556,8 +2567,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             this->construct_new_slot(slot_index,
                                      std::piecewise_construct,
                                      std::forward_as_tuple(key),
@@ -2574,8 +2583,6 @@ private:
         bool need_insert = find_info.second;
         if (need_insert) {
             // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
             this->construct_new_slot(slot_index,
                                      std::piecewise_construct,
                                      std::forward_as_tuple(std::forward<KeyT>(key)),
-- 
2.43.0


From 3b36fec05f4e277b9dbd2a8112e3089a7ca8da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 92/93] fix: robin_hash_map: construct a new element before
 growing or moving elements, its arguments may refer to them

---
 src/jstd/hashmap/robin_hash_map.h | 110 ++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 36 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7504520..08999fa 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -388,6 +388,7 @@ public:
     static constexpr std::uint64_t kUnusedMask64 = 0x0000000000008000ull;
 
     enum FindResult {
+        kNeedMove = -2,
         kNeedGrow = -1,
         kIsNotExists = 0,
         kIsExists = 1
@@ -5484,28 +5485,30 @@ private:
     }
 
     // The argument of another type is converted to key_type at first, so it's hashed and compared as a key.
-    template <typename KeyT, typename std::enable_if<
+    // If the key is not exists and [AllowMove] is false, it returns kNeedMove instead of growing the
+    // hashmap or moving any element, because the arguments of the insertion may refer to elements.
+    template <bool AllowMove = false, typename KeyT, typename std::enable_if<
               (!std::is_same<KeyT, key_type>::value) &&
                 std::is_constructible<key_type, const KeyT &>::value>::type * = nullptr>
     std::pair<slot_type *, FindResult>
     find_and_insert(const KeyT & key_t) {
         key_type key(key_t);
-        return this->find_and_insert(key);
+        return this->template find_and_insert<AllowMove>(key);
     }
 
-    template <typename KeyT, typename std::enable_if<
+    template <bool AllowMove = false, typename KeyT, typename std::enable_if<
                 std::is_same<KeyT, key_type>::value ||
               (!std::is_constructible<key_type, const KeyT &>::value)>::type * = nullptr>
     std::pair<slot_type *, FindResult>
     find_and_insert(const KeyT & key) {
         if (!kIsIndirectKV) {
-            return this->direct_find_and_insert(key);
+            return this->template direct_find_and_insert<AllowMove>(key);
         } else {
-            return this->indirect_find_and_insert(key);
+            return this->template indirect_find_and_insert<AllowMove>(key);
         }
     }
 
-    template <typename KeyT>
+    template <bool AllowMove, typename KeyT>
     JSTD_FORCED_INLINE
     std::pair<slot_type *, FindResult>
     direct_find_and_insert(const KeyT & key) {
@@ -5556,6 +5559,9 @@ private:
 
         if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
+            if (!AllowMove) {
+                return { slot, kNeedMove };
+            }
             this->grow_if_necessary();
 
             auto find_info = this->find_failed(hash_code, dist_and_0);
@@ -5649,13 +5655,15 @@ InsertOrGrow_Start:
         if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { slot, kIsNotExists };
+        } else if (!AllowMove) {
+            return { slot, kNeedMove };
         } else {
             FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
             return { slot, neednt_grow };
         }
     }
 
-    template <typename KeyT>
+    template <bool AllowMove, typename KeyT>
     JSTD_FORCED_INLINE
     std::pair<slot_type *, FindResult>
     indirect_find_and_insert(const KeyT & key) {
@@ -5684,6 +5692,9 @@ InsertOrGrow_Start:
 
         if (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
+            if (!AllowMove) {
+                return { this->slots(), kNeedMove };
+            }
             this->grow_if_necessary();
 
             ctrl = this->indirect_find_failed(hash_code, dist_and_0);
@@ -5892,6 +5903,39 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
+    ///
+    /// Insert an element that is not exists when its insertion must grow the hashmap or move elements.
+    /// The arguments may refer to elements of this hashmap, so the new element is constructed before.
+    ///
+    template <typename ... Args>
+    JSTD_NO_INLINE
+    std::pair<iterator, bool> insert_temporary(FindResult is_exists, Args && ... args) {
+        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
+        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
+
+        SlotPolicyTraits::construct(&this->allocator_, tmp_slot, std::forward<Args>(args)...);
+        try {
+            slot_type * slot;
+            do {
+                if (is_exists == kNeedGrow) {
+                    this->grow_if_necessary();
+                }
+                auto find_info = this->template find_and_insert<true>(tmp_slot->value.first);
+                slot = find_info.first;
+                is_exists = find_info.second;
+            } while (is_exists == kNeedGrow);
+            assert(is_exists == kIsNotExists);
+
+            this->construct_new_slot(slot, tmp_slot);
+            this->slot_size_++;
+            this->destroy_slot(tmp_slot);
+            return { this->iterator_at(slot), true };
+        } catch (...) {
+            this->destroy_slot(tmp_slot);
+            throw;
+        }
+    }
+
     template <bool AlwaysUpdate>
     std::pair<iterator, bool> emplace_impl(const actual_value_type & value) {
         auto find_info = this->find_and_insert(value.first);
@@ -5912,8 +5956,7 @@ InsertOrGrow_Start:
             }
             return { this->iterator_at(slot), false };
         } else {
-            this->grow_if_necessary();
-            return this->emplace_impl<AlwaysUpdate>(value);
+            return this->insert_temporary(is_exists, value);
         }
     }
 
@@ -5937,9 +5980,7 @@ InsertOrGrow_Start:
             }
             return { this->iterator_at(slot), false };
         } else {
-            assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace_impl<AlwaysUpdate>(std::forward<actual_value_type>(value));
+            return this->insert_temporary(is_exists, std::forward<actual_value_type>(value));
         }
     }
 
@@ -5980,11 +6021,9 @@ InsertOrGrow_Start:
             }
             return { this->iterator_at(slot), false };
         } else {
-            assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace_impl<AlwaysUpdate, KeyT, MappedT>(
-                    std::forward<KeyT>(key), std::forward<MappedT>(value)
-                );
+            return this->insert_temporary(is_exists,
+                                          std::forward<KeyT>(key),
+                                          std::forward<MappedT>(value));
         }
     }
 
@@ -6020,11 +6059,10 @@ InsertOrGrow_Start:
             }
             return { this->iterator_at(slot), false };
         } else {
-            assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace(std::piecewise_construct,
-                                    std::forward_as_tuple(std::forward<KeyT>(key)),
-                                    std::forward_as_tuple(std::forward<Args>(args)...));
+            return this->insert_temporary(is_exists,
+                                          std::piecewise_construct,
+                                          std::forward_as_tuple(std::forward<KeyT>(key)),
+                                          std::forward_as_tuple(std::forward<Args>(args)...));
         }
     }
 
@@ -6063,11 +6101,10 @@ InsertOrGrow_Start:
             }
             return { this->iterator_at(slot), false };
         } else {
-            assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace(std::piecewise_construct,
-                                    std::forward<std::tuple<Ts1...>>(first),
-                                    std::forward<std::tuple<Ts2...>>(second));
+            return this->insert_temporary(is_exists,
+                                          std::piecewise_construct,
+                                          std::forward<std::tuple<Ts1...>>(first),
+                                          std::forward<std::tuple<Ts2...>>(second));
         }
     }
 
@@ -6088,7 +6125,7 @@ InsertOrGrow_Start:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_and_insert(tmp_slot->value.first);
+        auto find_info = this->template find_and_insert<true>(tmp_slot->value.first);
         slot_type * slot = find_info.first;
         FindResult is_exists = find_info.second;
         if (is_exists == kIsNotExists) {
@@ -6137,9 +6174,10 @@ InsertOrGrow_Start:
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
-            assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->try_emplace_impl(key, std::forward<Args>(args)...);
+            return this->insert_temporary(is_exists,
+                                          std::piecewise_construct,
+                                          std::forward_as_tuple(key),
+                                          std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot), (is_exists == kIsNotExists) };
     }
@@ -6158,10 +6196,10 @@ InsertOrGrow_Start:
                                         std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
-            assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->try_emplace_impl(std::forward<KeyT>(key),
-                                          std::forward<Args>(args)...);
+            return this->insert_temporary(is_exists,
+                                          std::piecewise_construct,
+                                          std::forward_as_tuple(std::forward<KeyT>(key)),
+                                          std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot), (is_exists == kIsNotExists) };
     }
@@ -6333,7 +6371,7 @@ InsertOrGrow_Start:
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key) {
         if (kIsIndirectKV) {
-            auto find_info = this->indirect_find_and_insert(key);
+            auto find_info = this->template indirect_find_and_insert<true>(key);
             return { find_info.first, (find_info.second == kNeedGrow) };
         }
         hash_code_t hash_code = this->get_hash(key);
-- 
2.43.0


From 7b736152a1d2b15062c62f0c1ea93c0f3cbbf6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 93/93] fix: flat16_hash_map: construct a new element before
 growing or moving elements, its arguments may refer to them

---
 src/jstd/hashmap/flat16_hash_map.h | 71 +++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/flat16_hash_map.h b/src/jstd/hashmap/flat16_hash_map.h
index fb1738c..127b23c 100644
--- a/src/jstd/hashmap/flat16_hash_map.h
+++ b/src/jstd/hashmap/flat16_hash_map.h
@@ -2365,6 +2365,9 @@ private:
         }
     }
 
+    // If the key is not exists and [AllowMove] is false, it returns npos instead of moving
+    // the elements, because the arguments of the insertion may refer to elements.
+    template <bool AllowMove = false>
     std::pair<size_type, bool>
     find_and_prepare_insert(const key_type & key, std::uint8_t & o_ctrl_hash) {
         hash_code_t hash_code = this->get_hash(key);
@@ -2398,10 +2401,13 @@ private:
         } while (slot_index != first_slot);
 
         if (this->need_grow() || (last_slot == npos)) {
+            if (!AllowMove) {
+                return { npos, false };
+            }
             // The size of slot reach the slot threshold or hashmap is full.
             this->reorder_or_grow_if_necessary();
 
-            return this->find_and_prepare_insert(key, ctrl_hash);
+            return this->template find_and_prepare_insert<AllowMove>(key, ctrl_hash);
         }
 
         // Find the first deleted or empty slot and insert
@@ -2449,6 +2455,42 @@ private:
         return { this->round_index(start_index + pos), false };
     }
 
+    ///
+    /// Insert an element that is not exists when its insertion must grow or reorder the hashmap.
+    /// The arguments may refer to elements of this hashmap, so the new element is constructed before.
+    ///
+    template <typename ... Args>
+    std::pair<iterator, bool> insert_temporary(Args && ... args) {
+        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
+        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
+
+        if (kIsCompatibleLayout)
+            this->mutable_allocator_.construct(&tmp_slot->mutable_value, std::forward<Args>(args)...);
+        else
+            this->allocator_.construct(&tmp_slot->value, std::forward<Args>(args)...);
+
+        size_type target;
+        try {
+            std::uint8_t ctrl_hash;
+            auto find_info = this->template find_and_prepare_insert<true>(tmp_slot->value.first, ctrl_hash);
+            assert(!find_info.second);
+            target = find_info.first;
+
+            // Found a [DeletedEntry] or [EmptyEntry] to insert
+            ctrl_type * control = this->control_at(target);
+            assert(control->isEmptyOrDeleted());
+            control->setUsed(ctrl_hash);
+            this->setUsedMirrorCtrl(target, ctrl_hash);
+        } catch (...) {
+            this->destroy_mutable_slot(tmp_slot);
+            throw;
+        }
+
+        this->transfer_slot(this->slot_at(target), tmp_slot);
+        this->slot_size_++;
+        return { this->iterator_at(target), true };
+    }
+
     template <bool AlwaysUpdate>
     std::pair<iterator, bool> emplace_impl(const value_type & value) {
         std::uint8_t ctrl_hash;
@@ -2457,7 +2499,9 @@ private:
         bool is_exists = find_info.second;
         if (!is_exists) {
             // The key to be inserted is not exists.
-            assert(target != npos);
+            if (target == npos) {
+                return this->insert_temporary(value);
+            }
 
             // Found a [DeletedEntry] or [EmptyEntry] to insert
             ctrl_type * control = this->control_at(target);
@@ -2489,7 +2533,9 @@ private:
         bool is_exists = find_info.second;
         if (!is_exists) {
             // The key to be inserted is not exists.
-            assert(target != npos);
+            if (target == npos) {
+                return this->insert_temporary(std::forward<value_type>(value));
+            }
 
             // Found a [DeletedEntry] or [EmptyEntry] to insert
             ctrl_type * control = this->control_at(target);
@@ -2530,7 +2576,10 @@ private:
         bool is_exists = find_info.second;
         if (!is_exists) {
             // The key to be inserted is not exists.
-            assert(target != npos);
+            if (target == npos) {
+                return this->insert_temporary(std::forward<KeyT>(key),
+                                              std::forward<MappedT>(value));
+            }
 
             // Found a [DeletedEntry] or [EmptyEntry] to insert
             ctrl_type * control = this->control_at(target);
@@ -2581,7 +2630,11 @@ private:
         bool is_exists = find_info.second;
         if (!is_exists) {
             // The key to be inserted is not exists.
-            assert(target != npos);
+            if (target == npos) {
+                return this->insert_temporary(std::piecewise_construct,
+                                              std::forward_as_tuple(std::forward<KeyT>(key)),
+                                              std::forward_as_tuple(std::forward<Args>(args)...));
+            }
 
             // Found a [DeletedEntry] or [EmptyEntry] to insert
             ctrl_type * control = this->control_at(target);
@@ -2632,7 +2685,11 @@ private:
         bool is_exists = find_info.second;
         if (!is_exists) {
             // The key to be inserted is not exists.
-            assert(target != npos);
+            if (target == npos) {
+                return this->insert_temporary(std::piecewise_construct,
+                                              std::forward<std::tuple<Ts1...>>(first),
+                                              std::forward<std::tuple<Ts2...>>(second));
+            }
 
             // Found a [DeletedEntry] or [EmptyEntry] to insert
             ctrl_type * control = this->control_at(target);
@@ -2676,7 +2733,7 @@ private:
     std::pair<iterator, bool> emplace_impl(First && first, Args && ... args) {
         std::uint8_t ctrl_hash;
         value_type value(std::forward<First>(first), std::forward<Args>(args)...);
-        auto find_info = this->find_and_prepare_insert(value.first, ctrl_hash);
+        auto find_info = this->template find_and_prepare_insert<true>(value.first, ctrl_hash);
         size_type target = find_info.first;
         bool is_exists = find_info.second;
         if (!is_exists) {
-- 
2.43.0

