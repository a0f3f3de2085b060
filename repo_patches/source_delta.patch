From 009e1cbde8b5f54ef02d91f327234f926f3133b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:03 +0000
Subject: [PATCH 01/14] fix: remove_entity only accepts a valid group equal to
 the entity's component set

It never compared the group with the entity's archetype, so removing with another
group read components out of the wrong columns (or through null pointers) and
leaked or duplicated the values.
---
 src/registry/registry.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 768f614..10e52ae 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -74,6 +74,16 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
+        // The group must match the entity's component set exactly: it is valid, has the same amount
+        // of components and all of them are present.
+        if !G::DESCRIPTOR.is_valid()
+            || archetype.descriptor().len() != G::DESCRIPTOR.len()
+            || !archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
+        {
+            return None;
+        }
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
             return match archetype.swap_remove_unchecked::<G>(index_in_archetype.value()) {
-- 
2.43.0


From e32e1e72b26d90ee2b51c3ddc920e824ba6fe221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:17 +0000
Subject: [PATCH 02/14] fix: a component group and add/remove_component agree
 on the archetype id

The group descriptor hashed the padded 14-element array whereas adding and removing
a component hash only the elements in use, so one component set could end up with
two archetypes.
---
 src/descriptors/component_group_descriptor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/component_group_descriptor.rs b/src/descriptors/component_group_descriptor.rs
index 0e73ef4..d0685ec 100644
--- a/src/descriptors/component_group_descriptor.rs
+++ b/src/descriptors/component_group_descriptor.rs
@@ -60,7 +60,8 @@ impl ComponentGroupDescriptor {
 
         let sorted_descriptors = Self::compute_sorted_descriptors(descriptors);
 
-        let id = ArchetypeDescriptor::compute_archetype_id(&sorted_descriptors);
+        // Only the descriptors actually in use make up the identity, not the unused array elements.
+        let id = ArchetypeDescriptor::compute_archetype_id(sorted_descriptors.split_at(N).0);
         if !id.is_valid() {
             return Self::INVALID;
         }
-- 
2.43.0


From 7bce345d6a3556336341f7157d2cf63a03a5f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:19 +0000
Subject: [PATCH 03/14] fix: adding the 14th component and removing one of 14
 no longer panic

The shifting loops ran one element past the end of the component array.
---
 src/descriptors/archetype_descriptor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index 89da7ef..e06b4fe 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -137,7 +137,7 @@ impl ArchetypeDescriptor {
             Ok(_) => None, // Current archetype already contains given component.
             Err(insertion_index) => {
                 let mut v = self.clone();
-                for i in insertion_index..self.len() as usize + 1 {
+                for i in insertion_index..self.len() as usize {
                     v.components[i + 1] = self.components[i].clone();
                 }
                 v.components[insertion_index] = component_descriptor.clone();
@@ -159,9 +159,10 @@ impl ArchetypeDescriptor {
         {
             Ok(found_index) => {
                 let mut v = self.clone();
-                for i in found_index..self.len() as usize {
+                for i in found_index..self.len() as usize - 1 {
                     v.components[i] = self.components[i + 1].clone();
                 }
+                v.components[self.len() as usize - 1] = ComponentDescriptor::INVALID;
 
                 v.len -= 1;
                 v.archetype_id =
-- 
2.43.0


From f61cb1fc8e454fc65dde1bbe0d41dedddeba4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 04/14] fix: archetype lookup distinguishes component sets with
 colliding 32-bit ids

Archetypes were looked up by a hash of the component types alone, so two different
sets with the same hash shared one archetype and its columns.
---
 src/archetype_registry/mod.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 9f645b7..d9386f6 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -5,6 +5,7 @@ pub(crate) mod iterators;
 mod tests;
 
 use alloc::vec::*;
+use core::cmp::Ordering;
 use core::ops::{Index, IndexMut};
 use sorted_archetype_key::*;
 
@@ -35,6 +36,25 @@ fn disjoint_mut<T>(slice: &mut [T], first: usize, second: usize) -> Option<(&mut
     })
 }
 
+/// Compares the archetype a key refers to with the given descriptor. The archetype id is merely a hash
+/// of the component types, so archetypes with equal ids are told apart by the component types.
+fn compare_key(
+    key: &SortedArchetypeKey,
+    archetypes: &[Archetype],
+    archetype_descriptor: &ArchetypeDescriptor,
+) -> Ordering {
+    key.id
+        .cmp(&archetype_descriptor.archetype_id())
+        .then_with(|| {
+            let key_descriptor = archetypes[key.archetype_index as usize].descriptor();
+            let key_types = key_descriptor.components().iter();
+            let given_types = archetype_descriptor.components().iter();
+            key_types
+                .map(|c| c.component_type_id())
+                .cmp(given_types.map(|c| c.component_type_id()))
+        })
+}
+
 #[derive(Debug)]
 /// Stores all archetypes.
 pub struct ArchetypeRegistry {
@@ -75,7 +95,7 @@ impl ArchetypeRegistry {
             return None;
         }
         match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
+            .binary_search_by(|e| compare_key(e, &self.archetypes, archetype_descriptor))
         {
             Ok(found_index) => Some(
                 &self.archetypes
@@ -95,7 +115,7 @@ impl ArchetypeRegistry {
             return None;
         }
         match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
+            .binary_search_by(|e| compare_key(e, &self.archetypes, archetype_descriptor))
         {
             Ok(found_index) => Some(
                 &mut self.archetypes
@@ -170,7 +190,7 @@ impl ArchetypeRegistry {
             return None;
         }
         return match self.sorted_mappings[len - 1]
-            .binary_search_by_key(&archetype_descriptor.archetype_id(), |e| e.id)
+            .binary_search_by(|e| compare_key(e, &self.archetypes, archetype_descriptor))
         {
             Ok(found_index) => Some((
                 self.sorted_mappings[len - 1][found_index].archetype_index,
-- 
2.43.0


From 530a8f259d43cc7666af69f47d64e76dc0d6cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 05/14] fix: a component set hashing to the invalid archetype
 id is not refused

---
 src/descriptors/archetype_descriptor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/descriptors/archetype_descriptor.rs b/src/descriptors/archetype_descriptor.rs
index e06b4fe..7d803a5 100644
--- a/src/descriptors/archetype_descriptor.rs
+++ b/src/descriptors/archetype_descriptor.rs
@@ -65,7 +65,12 @@ impl ArchetypeDescriptor {
             }
             i += 1;
         }
-        ArchetypeId::from_u32(fnv1a_hash_32(&bytes, Some(bytes.len())))
+        let hash = fnv1a_hash_32(&bytes, Some(bytes.len()));
+        if hash == ArchetypeId::INVALID.into_u32() {
+            // Only an invalid combination may have the invalid id.
+            return ArchetypeId::from_u32(0);
+        }
+        ArchetypeId::from_u32(hash)
     }
 
     /// Returns whether the descriptor provided is contained in self. (i.e. subset inclusion)
-- 
2.43.0


From ea3c31e1f4a7ab2efc4a735f3004c003a79410ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 06/14] fix: queries with a group that repeats a type answer
 no/none

Iterating over such a group underflowed the level computation, has_components
reported true and get_components dereferenced null pointers.
---
 .../iterators/archetype_iter.rs               |  2 +-
 .../iterators/archetype_iter_mut.rs           |  2 +-
 .../iterators/filter_archetype_iter.rs        |  2 +-
 .../iterators/filter_archetype_iter_mut.rs    |  2 +-
 src/registry/registry.rs                      | 21 +++++++++++--------
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/archetype_registry/iterators/archetype_iter.rs b/src/archetype_registry/iterators/archetype_iter.rs
index e8aa85a..2dce05a 100644
--- a/src/archetype_registry/iterators/archetype_iter.rs
+++ b/src/archetype_registry/iterators/archetype_iter.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIter<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/archetype_iter_mut.rs b/src/archetype_registry/iterators/archetype_iter_mut.rs
index fdca428..de027c5 100644
--- a/src/archetype_registry/iterators/archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/archetype_iter_mut.rs
@@ -20,7 +20,7 @@ impl<'a, G: ComponentGroup> ArchetypeIterMut<'a, G> {
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
         }
diff --git a/src/archetype_registry/iterators/filter_archetype_iter.rs b/src/archetype_registry/iterators/filter_archetype_iter.rs
index 9e25a72..aa44f75 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter.rs
@@ -22,7 +22,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
index 7c8ce0e..4cd40f6 100644
--- a/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
+++ b/src/archetype_registry/iterators/filter_archetype_iter_mut.rs
@@ -23,7 +23,7 @@ impl<'a, G: ComponentGroup, F: Fn(&ArchetypeDescriptor) -> bool> FilterArchetype
         Self {
             sorted_mappings,
             archetypes,
-            current_level: G::DESCRIPTOR.len() - 1,
+            current_level: G::DESCRIPTOR.len().saturating_sub(1),
             current_index_in_level: 0,
             _phantom: Default::default(),
             filter_closure,
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 10e52ae..b729645 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -128,9 +128,10 @@ impl Registry {
             Some(v) => v,
         };
         let archetype = unsafe { self.archetypes.get_unchecked(entry.archetype_index()) };
-        archetype
-            .descriptor()
-            .contains_subset(G::DESCRIPTOR.archetype())
+        G::DESCRIPTOR.is_valid()
+            && archetype
+                .descriptor()
+                .contains_subset(G::DESCRIPTOR.archetype())
     }
 
     /// Returns a reference to the specified component if the entity has it.
@@ -163,9 +164,10 @@ impl Registry {
         };
         unsafe {
             let archetype = self.archetypes.get_unchecked(entry.archetype_index());
-            if !archetype
-                .descriptor()
-                .contains_subset(G::DESCRIPTOR.archetype())
+            if !G::DESCRIPTOR.is_valid()
+                || !archetype
+                    .descriptor()
+                    .contains_subset(G::DESCRIPTOR.archetype())
             {
                 return None;
             }
@@ -204,9 +206,10 @@ impl Registry {
         };
         unsafe {
             let archetype = self.archetypes.get_unchecked_mut(entry.archetype_index());
-            if !archetype
-                .descriptor()
-                .contains_subset(G::DESCRIPTOR.archetype())
+            if !G::DESCRIPTOR.is_valid()
+                || !archetype
+                    .descriptor()
+                    .contains_subset(G::DESCRIPTOR.archetype())
             {
                 return None;
             }
-- 
2.43.0


From 0acd2ca33d5bd131de614c685e95a6e1af4cca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:31 +0000
Subject: [PATCH 07/14] fix: entities can be created in freed slots when the
 slot table is full

---
 src/entity_registry/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity_registry/mod.rs b/src/entity_registry/mod.rs
index 255cdc4..a8ef5de 100644
--- a/src/entity_registry/mod.rs
+++ b/src/entity_registry/mod.rs
@@ -31,10 +31,11 @@ impl EntityRegistry {
 
     pub fn can_register_new_entity(&self) -> bool {
         self.entities.len() < Self::MAX_ENTITY_COUNT
+            || self.next_free_slot != IndexInArchetype::INVALID_VALUE
     }
 
     pub fn create_entity(&mut self, index_in_archetype: IndexInArchetype, archetype_index: ArchetypeIndex) -> Option<Entity> {
-        if self.entities.len() >= Self::MAX_ENTITY_COUNT {
+        if !self.can_register_new_entity() {
             return None;
         }
         let (entity, entry) = if self.next_free_slot == IndexInArchetype::INVALID_VALUE {
-- 
2.43.0


From 83a299b77a5d30a69faf8673f331554032e225f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 08/14] fix: zero sized components do not allocate zero sized
 memory blocks

Requesting or returning a zero sized block is undefined behaviour.
---
 src/archetype/data_access.rs | 6 ++++++
 src/archetype/mod.rs         | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 7bacce3..842d5ab 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -441,6 +441,9 @@ impl Archetype {
             .enumerate()
         {
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue;
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * old_capacity as usize,
                 component_type.align as usize,
@@ -467,6 +470,9 @@ impl Archetype {
                 return;
             }
             let component_type = &self.descriptor.components()[index];
+            if component_type.size == 0 {
+                continue;
+            }
             let layout = Layout::from_size_align_unchecked(
                 component_type.size as usize * self.capacity as usize,
                 component_type.align as usize,
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 9f35968..59edc12 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -57,6 +57,11 @@ impl Archetype {
                 assert_ne!(archetype.entity_associations, core::ptr::null_mut());
 
                 for (index, component) in archetype.descriptor.components().iter().enumerate() {
+                    if component.size == 0 {
+                        // Zero sized components need no memory, merely a well aligned pointer.
+                        archetype.pointers[index] = component.align as usize as *mut u8;
+                        continue;
+                    }
                     let layout = Layout::from_size_align_unchecked(
                         component.size as usize * capacity as usize,
                         component.align as usize,
-- 
2.43.0


From 0c390bd237308434b572938355fe5b7a13552f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 09/14] fix: a failed allocation leaves the registry as it was

Storage growth reallocated column by column and creating an entity or moving one
between archetypes changed the bookkeeping before the growth, so a panic on a failed
allocation left mixed capacities, leaked blocks, live handles without a row and
duplicated rows behind.
---
 src/archetype/data_access.rs  | 66 +++++++++++++++--------------------
 src/archetype/mod.rs          |  7 ++--
 src/archetype_registry/mod.rs |  3 ++
 src/registry/registry.rs      | 12 +++++--
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 842d5ab..87d9bc3 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -2,7 +2,7 @@ use super::Archetype;
 use crate::*;
 
 use crate::constants::DEFAULT_ARCHETYPE_ALLOCATION_SIZE;
-use alloc::alloc::{dealloc, realloc, Layout};
+use alloc::alloc::{dealloc, Layout};
 use core::mem::{align_of, size_of};
 use core::ptr::{slice_from_raw_parts, slice_from_raw_parts_mut};
 
@@ -425,37 +425,27 @@ impl Archetype {
             return;
         }
         let new_capacity = new_capacity as usize;
-
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * old_capacity as usize,
-            align_of::<Entity>(),
+        // The old memory stays in use until all of the new memory is there.
+        let mut resized = Archetype::with_capacity(&self.descriptor, new_capacity as u32);
+        let preserved = core::cmp::min(self.len() as usize, new_capacity);
+        core::ptr::copy_nonoverlapping(
+            self.entity_associations,
+            resized.entity_associations,
+            preserved,
         );
-        self.entity_associations = realloc(
-            self.entity_associations as *mut u8,
-            layout,
-            size_of::<Entity>() * new_capacity,
-        ) as *mut Entity;
-        assert_ne!(self.entity_associations, core::ptr::null_mut());
-        for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
-            .iter_mut()
-            .enumerate()
-        {
-            let component_type = &self.descriptor.components()[index];
-            if component_type.size == 0 {
-                continue;
-            }
-            let layout = Layout::from_size_align_unchecked(
-                component_type.size as usize * old_capacity as usize,
-                component_type.align as usize,
-            );
-            *pointer = realloc(
-                *pointer,
-                layout,
-                component_type.size as usize * new_capacity,
+        for (index, component_type) in self.descriptor.components().iter().enumerate() {
+            core::ptr::copy_nonoverlapping(
+                self.pointers[index],
+                resized.pointers[index],
+                component_type.size as usize * preserved,
             );
-            assert_ne!(*pointer, core::ptr::null_mut());
         }
-        self.capacity = new_capacity as u32;
+        core::mem::swap(
+            &mut self.entity_associations,
+            &mut resized.entity_associations,
+        );
+        core::mem::swap(&mut self.pointers, &mut resized.pointers);
+        core::mem::swap(&mut self.capacity, &mut resized.capacity);
     }
 
     /// Deallocates the backing memory and sets capacity to zero.
@@ -467,7 +457,7 @@ impl Archetype {
             .enumerate()
         {
             if pointer.is_null() {
-                return;
+                continue;
             }
             let component_type = &self.descriptor.components()[index];
             if component_type.size == 0 {
@@ -480,12 +470,14 @@ impl Archetype {
             dealloc(*pointer, layout);
             *pointer = core::ptr::null_mut();
         }
-        let layout = Layout::from_size_align_unchecked(
-            size_of::<Entity>() * self.capacity() as usize,
-            align_of::<Entity>(),
-        );
-        dealloc(self.entity_associations as *mut u8, layout);
-        self.entity_associations = core::ptr::null_mut();
+        if !self.entity_associations.is_null() {
+            let layout = Layout::from_size_align_unchecked(
+                size_of::<Entity>() * self.capacity() as usize,
+                align_of::<Entity>(),
+            );
+            dealloc(self.entity_associations as *mut u8, layout);
+            self.entity_associations = core::ptr::null_mut();
+        }
         self.capacity = 0;
     }
 
@@ -506,7 +498,7 @@ impl Archetype {
     }
 
     /// Resizes the backing memory by the default amount if necessary.
-    unsafe fn resize_if_necessary(&mut self) {
+    pub(crate) unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 59edc12..d2d70cd 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -48,6 +48,8 @@ impl Archetype {
         };
         // Allocate
         if capacity > 0 && capacity <= MAX_ENTITIES_PER_ARCHETYPE {
+            // Set up front, so that whatever is allocated already is returned if an allocation fails.
+            archetype.capacity = capacity;
             unsafe {
                 let layout = Layout::from_size_align_unchecked(
                     size_of::<Entity>() * capacity as usize,
@@ -69,7 +71,6 @@ impl Archetype {
                     archetype.pointers[index] = alloc(layout);
                     assert_ne!(archetype.pointers[index], core::ptr::null_mut());
                 }
-                archetype.capacity = capacity;
             }
         }
         archetype
@@ -87,7 +88,9 @@ impl Drop for Archetype {
             return;
         }
         unsafe {
-            self.drop_entities();
+            if self.entity_count > 0 {
+                self.drop_entities();
+            }
             self.dealloc();
         }
     }
diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index d9386f6..096e70b 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -202,6 +202,9 @@ impl ArchetypeRegistry {
                     return None;
                 }
 
+                // Allocate everything up front, so a failure leaves no half registered archetype.
+                self.archetypes.reserve(1);
+                self.sorted_mappings[len - 1].reserve(1);
                 let archetype = Archetype::with_capacity(
                     archetype_descriptor,
                     DEFAULT_ARCHETYPE_ALLOCATION_SIZE as u32,
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index b729645..9bf1fa3 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -29,6 +29,8 @@ impl Registry {
             Some(v) => v,
             None => return Err(components),
         };
+        // Make space in the archetype before anything is changed, as this may fail.
+        unsafe { archetype.resize_if_necessary() };
         let index_in_archetype = IndexInArchetype::new(archetype.len()).unwrap();
         let entity = match self.entities.create_entity(index_in_archetype, ArchetypeIndex::new(archetype_index).unwrap()) {
             Some(v) => v,
@@ -238,6 +240,9 @@ impl Registry {
             None => return Err(component),
         };
 
+        // Make space in the destination archetype before anything is changed, as this may fail.
+        unsafe { destination_archetype.resize_if_necessary() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -251,7 +256,7 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
+            // Claim the space in the destination archetype.
             destination_archetype.push_uninitialized_entity();
 
             // copy from end to end.
@@ -306,6 +311,9 @@ impl Registry {
             None => return Err(()),
         };
 
+        // Make space in the destination archetype before anything is changed, as this may fail.
+        unsafe { destination_archetype.resize_if_necessary() };
+
         // Make sure the entity we move is at the end of it's archetype (so data stays contiguous).
         if unsafe { source_archetype.swap_to_last_unchecked(entry.index_in_archetype().value()) } {
             // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
@@ -319,7 +327,7 @@ impl Registry {
         }
 
         unsafe {
-            // Make space in the destination archetype.
+            // Claim the space in the destination archetype.
             destination_archetype.push_uninitialized_entity();
 
             // copy from end to end.
-- 
2.43.0


From e32f5e0fe989cd5ce8b1e7b0a370e6b26ce22c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 10/14] fix: one component set can hold as many entities as the
 registry

Growth beyond half the limit deallocated the archetype while it still held entities,
and creating an entity at the limit panicked instead of returning the components.
---
 src/archetype/data_access.rs | 6 +++++-
 src/registry/registry.rs     | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 87d9bc3..f164e58 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -420,7 +420,7 @@ impl Archetype {
     pub(super) unsafe fn resize_capacity(&mut self, change_in_entity_count: isize) {
         let old_capacity = self.capacity();
         let new_capacity = old_capacity as isize + change_in_entity_count;
-        if new_capacity <= 0 || new_capacity >= MAX_ENTITIES_PER_ARCHETYPE as isize {
+        if new_capacity <= 0 || new_capacity > MAX_ENTITIES_PER_ARCHETYPE as isize {
             self.dealloc();
             return;
         }
@@ -500,11 +500,15 @@ impl Archetype {
     /// Resizes the backing memory by the default amount if necessary.
     pub(crate) unsafe fn resize_if_necessary(&mut self) {
         if self.is_full() {
+            assert!(self.capacity() < MAX_ENTITIES_PER_ARCHETYPE);
             let additional_capacity = if self.capacity() == 0 {
                 DEFAULT_ARCHETYPE_ALLOCATION_SIZE
             } else {
                 self.capacity() as usize
             };
+            // Never grow past the maximum.
+            let remaining_capacity = (MAX_ENTITIES_PER_ARCHETYPE - self.capacity()) as usize;
+            let additional_capacity = core::cmp::min(additional_capacity, remaining_capacity);
             self.resize_capacity(additional_capacity as isize);
         }
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index 9bf1fa3..b0d9c29 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -22,6 +22,9 @@ impl Registry {
         if !G::DESCRIPTOR.is_valid() {
             return Err(components);
         }
+        if !self.entities.can_register_new_entity() {
+            return Err(components);
+        }
         let (archetype_index, archetype) = match self
             .archetypes
             .find_or_create_archetype(G::DESCRIPTOR.archetype())
-- 
2.43.0


From fc37ab587c834295ee23a5089c6a51b686a20061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 11/14] fix: a panicking destructor does not leave a destroyed
 entity in the registry

The entity's row was dropped before the bookkeeping, so unwinding out of the
destructor left a live handle to dropped components.
---
 src/archetype/data_access.rs | 5 +++--
 src/registry/registry.rs     | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index f164e58..64c5b32 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -314,13 +314,14 @@ impl Archetype {
         debug_assert!(index < self.len());
         if index == self.len() - 1 {
             // Is the last one, so just drop it.
-            self.drop_entity(index);
+            // The entity is forgotten first, as dropping it may panic.
             self.entity_count -= 1;
+            self.drop_entity(index);
             false
         } else {
             self.swap_entities(index, self.len() - 1);
-            self.drop_entity(self.len() - 1);
             self.entity_count -= 1;
+            self.drop_entity(self.len());
             true
         }
     }
diff --git a/src/registry/registry.rs b/src/registry/registry.rs
index b0d9c29..9c6f72e 100644
--- a/src/registry/registry.rs
+++ b/src/registry/registry.rs
@@ -53,7 +53,7 @@ impl Registry {
         let archetype = unsafe { self.archetypes.get_unchecked_mut(entry.archetype_index()) };
         let index_in_archetype = entry.index_in_archetype();
         unsafe {
-            if archetype.swap_drop_unchecked(index_in_archetype.value()) {
+            if archetype.swap_to_last_unchecked(index_in_archetype.value()) {
                 // A swap was needed, so we need to update the index_in_archetype of the entry that it was swapped with.
                 // We retrieve the entity handle using the metadata, which is now at the old entity's position.
                 let swapped_entity = *archetype
@@ -67,6 +67,8 @@ impl Registry {
         };
         let _v = self.entities.destroy_entity(entity);
         debug_assert!(_v);
+        // Drop the components only after all bookkeeping is done, as dropping them may panic.
+        unsafe { archetype.swap_drop_unchecked(archetype.len() - 1) };
         true
     }
 
-- 
2.43.0


From 46ac7bce5eb2a58dfef87b65457c09a179ea28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 12/14] fix: a panicking destructor does not leak the
 archetype's memory

---
 src/archetype/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index d2d70cd..78d8c16 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -87,11 +87,18 @@ impl Drop for Archetype {
         if self.capacity == 0 {
             return;
         }
+        /// Returns the memory even if dropping the entities panics.
+        struct DeallocGuard<'a>(&'a mut Archetype);
+        impl<'a> Drop for DeallocGuard<'a> {
+            fn drop(&mut self) {
+                unsafe { self.0.dealloc() }
+            }
+        }
+        let guard = DeallocGuard(self);
         unsafe {
-            if self.entity_count > 0 {
-                self.drop_entities();
+            if guard.0.entity_count > 0 {
+                guard.0.drop_entities();
             }
-            self.dealloc();
         }
     }
 }
-- 
2.43.0


From ff29c807bd36efd090661e0bb22f2c914609ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 13/14] fix: deriving a set from an archetype index just past
 the end is refused

---
 src/archetype_registry/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archetype_registry/mod.rs b/src/archetype_registry/mod.rs
index 096e70b..fe9ccfc 100644
--- a/src/archetype_registry/mod.rs
+++ b/src/archetype_registry/mod.rs
@@ -133,7 +133,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
         // create new archetype
@@ -161,7 +161,7 @@ impl ArchetypeRegistry {
         component_descriptor: &ComponentDescriptor,
     ) -> Option<(&mut Archetype, u16, &mut Archetype)> {
         // Range check
-        if source_archetype_index as usize > self.archetypes.len() {
+        if source_archetype_index as usize >= self.archetypes.len() {
             return None;
         }
 
-- 
2.43.0


From 7bc622b38911385946245bb6c6215e79937ebbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 14/14] fix: an archetype without capacity gives out valid
 empty slices

---
 src/archetype/data_access.rs | 3 +++
 src/archetype/mod.rs         | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/archetype/data_access.rs b/src/archetype/data_access.rs
index 64c5b32..dd1ab62 100644
--- a/src/archetype/data_access.rs
+++ b/src/archetype/data_access.rs
@@ -453,6 +453,9 @@ impl Archetype {
     /// # Safety:
     /// - Does not call drop on the entities in the backing storage.
     pub(super) unsafe fn dealloc(&mut self) {
+        if self.capacity == 0 {
+            return;
+        }
         for (index, pointer) in self.pointers[0..self.descriptor.len() as usize]
             .iter_mut()
             .enumerate()
diff --git a/src/archetype/mod.rs b/src/archetype/mod.rs
index 78d8c16..fac366b 100644
--- a/src/archetype/mod.rs
+++ b/src/archetype/mod.rs
@@ -3,6 +3,7 @@ use crate::descriptors::archetype_descriptor::ArchetypeDescriptor;
 use crate::*;
 use alloc::alloc::{alloc, Layout};
 use core::mem::{align_of, size_of};
+use core::ptr::NonNull;
 
 mod data_access;
 #[cfg(test)]
@@ -72,6 +73,12 @@ impl Archetype {
                     assert_ne!(archetype.pointers[index], core::ptr::null_mut());
                 }
             }
+        } else {
+            // Slices need well aligned pointers even if they are empty.
+            archetype.entity_associations = NonNull::dangling().as_ptr();
+            for (index, component) in archetype.descriptor.components().iter().enumerate() {
+                archetype.pointers[index] = component.align as usize as *mut u8;
+            }
         }
         archetype
     }
-- 
2.43.0

