From 013f3f728b6f8591fe80e7633c616df83fc0e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 01/16] fix: UntypedVec drops its zero sized elements and pop()
 on an empty one returns false

---
 untyped_vec/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..a912ef7 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -198,7 +198,11 @@ impl UntypedVec {
 
     /// Returns true if a value was popped
     pub fn pop(&mut self) -> bool {
-        if self.type_info.layout.size() == 0 && self.len > 0 {
+        if self.len == 0 {
+            return false;
+        }
+
+        if self.type_info.layout.size() == 0 {
             self.len -= 1;
             let ptr = self.data.as_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
@@ -207,7 +211,7 @@ impl UntypedVec {
                 drop_fn(ptr);
             }
             true
-        } else if self.len >= self.type_info.layout.size() {
+        } else {
             self.len -= self.type_info.layout.size();
             let ptr = self.data.as_ptr();
             // Safe because we're offsetting inside of the allocation
@@ -218,8 +222,6 @@ impl UntypedVec {
                 drop_fn(ptr);
             }
             true
-        } else {
-            false
         }
     }
 
@@ -362,9 +364,10 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        // ZSTs never allocate but their elements still have to be dropped
+        while self.pop() {}
 
+        if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
 
-- 
2.43.0


From 0e204d883c0a02dc45f2360184237c07f57ab56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 02/16] fix: UntypedVec hands out aligned pointers and slices
 while it has no allocation

---
 untyped_vec/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index a912ef7..b9d2c3d 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -77,6 +77,16 @@ impl UntypedVec {
         self.len == 0
     }
 
+    /// Pointer to the first element. While nothing is allocated (empty vec or ZST) this dangles but is
+    /// still aligned for the element type, so it is fine for zero sized accesses.
+    fn data_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            std::ptr::null_mut::<u8>().wrapping_add(self.type_info.layout.align())
+        } else {
+            self.data.as_ptr()
+        }
+    }
+
     pub fn realloc(&mut self) {
         if self.type_info.layout.size() == 0 {
             panic!("Attempted to reallocate an UntypedVec who's data is size 0");
@@ -149,7 +159,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -176,7 +186,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -204,7 +214,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             self.len -= 1;
-            let ptr = self.data.as_ptr();
+            let ptr = self.data_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
 
             if let Some(drop_fn) = self.type_info.drop_fn {
@@ -322,7 +332,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.data_ptr() as *const T, slice_len)
         }
     }
 
@@ -343,7 +353,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.data_ptr() as *mut T, slice_len)
         }
     }
 
@@ -351,14 +361,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 }
 
-- 
2.43.0


From 8b17d5ade0afa7b7690fd68d05c0454dcde72cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 03/16] fix: UntypedVec::as_slice(_mut) no longer divides by
 zero for zero sized types

---
 untyped_vec/src/lib.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index b9d2c3d..021ae47 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -321,13 +321,8 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
@@ -342,13 +337,8 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
-- 
2.43.0


From 891d7294a7c6efe9069fa259d0c495f4bfcfbf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 04/16] fix: query() for a type that is registered but on no
 archetype yields nothing instead of panicking

---
 arche_tape/src/static_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..7d6b670 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -237,6 +237,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static mut T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // A component only gets a lock once an archetype has it, until then there is nothing to query
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Mut(id))
     }
 
@@ -259,6 +261,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // A component only gets a lock once an archetype has it, until then there is nothing to query
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Immut(id))
     }
 
-- 
2.43.0


From d0cb6cb0b1552c4cb8f1d66cfb45c2846e0a476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 05/16] fix: get_component_mut_dynamic returns None for a
 component the entity does not have

---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..dbddb94 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -866,7 +866,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From baeb0ec3dd020649136b1a6f779e0fc9dc395735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 06/16] fix: a type whose component entity was despawned gets a
 fresh component entity

---
 arche_tape/src/world.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index dbddb94..3ba7210 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -439,8 +439,11 @@ impl World {
 
     pub fn get_or_create_type_id_ecsid<T: Component>(&mut self) -> EcsId {
         let comp_id = self.type_id_to_ecs_id.get(&TypeId::of::<T>());
-        if let Some(comp_id) = comp_id {
-            return *comp_id;
+        if let Some(&comp_id) = comp_id {
+            // The entity standing for this type may have been despawned, in which case it needs a new one
+            if self.entities.is_alive(comp_id) {
+                return comp_id;
+            }
         }
 
         let entity = self.spawn().build();
-- 
2.43.0


From 6182065a60011a34b33ba652dc762e63d9100a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 07/16] fix: calling build() again on the same EntityBuilder no
 longer duplicates its components

---
 arche_tape/src/entity_builder.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..3631395 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -22,6 +22,9 @@ pub struct EntityBuilder<'a> {
 
     num_components: usize,
 
+    /// Set by ``build``, which moves the component data into an archetype and so must only do it once
+    built: bool,
+
     world: &'a mut World,
 }
 
@@ -75,6 +78,7 @@ impl<'a> EntityBuilder<'a> {
             entity,
             world,
             num_components: 0,
+            built: false,
         }
     }
 
@@ -94,6 +98,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -129,6 +134,7 @@ impl<'a> EntityBuilder<'a> {
             component_meta,
 
             num_components: 0,
+            built: false,
 
             world,
         }
@@ -165,6 +171,8 @@ impl<'a> EntityBuilder<'a> {
     /// This method will panic if a component with the ID of component_id expects data. Entities by default expect no data.
     #[must_use]
     pub fn with_dynamic(mut self, component_id: EcsId) -> Self {
+        assert!(!self.built, "EntityBuilder has already built its entity");
+
         assert!(
             self.world
                 .get_entity_meta(component_id)
@@ -191,6 +199,8 @@ impl<'a> EntityBuilder<'a> {
         component: *mut u8,
         component_id: EcsId,
     ) -> Self {
+        assert!(!self.built, "EntityBuilder has already built its entity");
+
         self.comp_ids.push(component_id);
         let component_size = self
             .world
@@ -228,6 +238,12 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(&mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+
+        if self.built {
+            return self.entity;
+        }
+        self.built = true;
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
-- 
2.43.0


From db3d1cee5e5a3d15cebabe75d653302d7ffdeb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 08/16] fix: EntityBuilder rejects a duplicate component before
 it corrupts an existing archetype

---
 arche_tape/src/entity_builder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 3631395..55cd845 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -166,6 +166,14 @@ impl<'a> EntityBuilder<'a> {
         }
     }
 
+    /// Must be checked before anything is moved into an archetype, archetype lookup does not see duplicates
+    fn assert_not_added(&self, component_id: EcsId) {
+        assert!(
+            !self.comp_ids.contains(&component_id),
+            "Attempted to add the same component twice in EntityBuilder"
+        );
+    }
+
     /// Adds an entity as a dataless component
     ///
     /// This method will panic if a component with the ID of component_id expects data. Entities by default expect no data.
@@ -183,6 +191,8 @@ impl<'a> EntityBuilder<'a> {
                 == 0
         );
 
+        self.assert_not_added(component_id);
+
         self.comp_ids.push(component_id);
         self.num_components += 1;
 
@@ -201,6 +211,8 @@ impl<'a> EntityBuilder<'a> {
     ) -> Self {
         assert!(!self.built, "EntityBuilder has already built its entity");
 
+        self.assert_not_added(component_id);
+
         self.comp_ids.push(component_id);
         let component_size = self
             .world
-- 
2.43.0


From f4397416d2446e0959ff71d1c66ca351cc9b8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 09/16] fix: an EntityBuilder dropped without build() drops its
 components and frees its entity

---
 arche_tape/src/entity_builder.rs | 24 +++++++++++++++++++++++-
 arche_tape/src/world.rs          |  5 +++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 55cd845..6303790 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -30,6 +30,10 @@ pub struct EntityBuilder<'a> {
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        if !self.built {
+            self.abandon();
+        }
+
         // If it never allocated, don't drop
         if self.cap != 0 {
             if let None = self.world.entity_builder_reuse {
@@ -140,6 +144,24 @@ impl<'a> EntityBuilder<'a> {
         }
     }
 
+    /// Drops the components added so far and frees the entity, for a builder that is never built
+    fn abandon(&mut self) {
+        let mut data_ptr = self.data.as_ptr();
+        for &comp_id in &self.comp_ids {
+            let component_meta = &self.world.get_entity_meta(comp_id).unwrap().component_meta;
+            let layout = component_meta.layout;
+            // `self.data` is not aligned for the component so it has to be moved somewhere that is
+            let mut storage =
+                unsafe { UntypedVec::new_from_raw(TypeInfo::new(layout, component_meta.drop_fn)) };
+            unsafe {
+                storage.push_raw(data_ptr.cast());
+                data_ptr = data_ptr.offset(layout.size() as isize);
+            }
+        }
+
+        self.world.despawn_unbuilt(self.entity);
+    }
+
     fn realloc(&mut self, new_size: usize) {
         assert!(
             new_size < isize::MAX as usize,
@@ -213,7 +235,6 @@ impl<'a> EntityBuilder<'a> {
 
         self.assert_not_added(component_id);
 
-        self.comp_ids.push(component_id);
         let component_size = self
             .world
             .get_entity_meta(component_id)
@@ -235,6 +256,7 @@ impl<'a> EntityBuilder<'a> {
                 component_size,
             );
         }
+        self.comp_ids.push(component_id);
         self.len += component_size;
         self.num_components += 1;
 
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 3ba7210..01b918b 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -478,6 +478,11 @@ impl World {
         }
     }
 
+    /// Frees an entity that was spawned but never put in an archetype
+    pub(crate) fn despawn_unbuilt(&mut self, entity: EcsId) {
+        self.entities.despawn(entity);
+    }
+
     pub(crate) fn query_archetypes<'a, const N: usize>(
         &'a self,
         iters: [(Iter<'a, usize>, fn(usize) -> usize); N],
-- 
2.43.0


From 9294365fcc3c1e4999a3044387d052fcc32e6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 10/16] fix: a component destructor that panics in despawn or
 remove_component no longer leaves dangling rows

---
 arche_tape/src/world.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 01b918b..4fa748d 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -178,13 +178,6 @@ impl Archetype {
     ) -> bool {
         assert!(self.entities[entity_idx] == entity);
         self.entities.swap_remove(entity_idx);
-        for storage in self
-            .component_storages
-            .iter_mut()
-            .map(|(_, cell)| cell.get_mut())
-        {
-            storage.swap_remove(entity_idx);
-        }
         entity_metas[entity.uindex()] = None;
 
         if let Some(&swapped_entity) = self.entities.get(entity_idx) {
@@ -195,6 +188,21 @@ impl Archetype {
                 .index = entity_idx;
         }
 
+        // Dropping a component may panic, the entity still has to be removed from the remaining storages then
+        struct RemoveRest<'a>(std::slice::IterMut<'a, (EcsId, UnsafeCell<UntypedVec>)>, usize);
+        impl Drop for RemoveRest<'_> {
+            fn drop(&mut self) {
+                while let Some((_, storage)) = self.0.next() {
+                    storage.get_mut().swap_remove(self.1);
+                }
+            }
+        }
+
+        let mut rest = RemoveRest(self.component_storages.iter_mut(), entity_idx);
+        while let Some((_, storage)) = rest.0.next() {
+            storage.get_mut().swap_remove(entity_idx);
+        }
+
         false
     }
 
@@ -351,8 +359,8 @@ impl World {
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
 
-        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         self.entities.despawn(entity);
+        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         true
     }
 
@@ -833,11 +841,6 @@ impl World {
             skipped_storage = Some(current_archetype.component_storages.len() - 1);
         }
 
-        current_archetype.component_storages[skipped_storage.unwrap()]
-            .1
-            .get_mut()
-            .swap_remove(entity_idx);
-
         target_archetype.entities.push(entity);
         self.ecs_id_meta[entity.uindex()]
             .as_mut()
@@ -855,6 +858,12 @@ impl World {
                 .instance_meta
                 .index = entity_idx;
         }
+
+        // Drops the component, which may panic, so it has to come after everything else is up to date
+        current_archetype.component_storages[skipped_storage.unwrap()]
+            .1
+            .get_mut()
+            .swap_remove(entity_idx);
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From 6d083ea92ce1136b9672f10ba9ccbfa5e84bc487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 11/16] fix: a panic while a query is held no longer makes its
 components impossible to query

The component locks were poisoned by the unwinding guard and every later
query on those components panicked. They guard no data of their own.
---
 arche_tape/src/dyn_query.rs    |  4 ++--
 arche_tape/src/lib.rs          | 14 +++++++++++++-
 arche_tape/src/static_query.rs |  4 ++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/arche_tape/src/dyn_query.rs b/arche_tape/src/dyn_query.rs
index 28e305b..c5c788d 100644
--- a/arche_tape/src/dyn_query.rs
+++ b/arche_tape/src/dyn_query.rs
@@ -171,8 +171,8 @@ impl<'a, const N: usize> DynQuery<'a, N> {
             if let Some(&idx) = world.lock_lookup.get(ecs_id) {
                 let lock = &world.locks[idx];
                 match fetch {
-                    FetchType::Mut(_) => *guard = EitherGuard::Write(lock.write().unwrap()),
-                    FetchType::Immut(_) => *guard = EitherGuard::Read(lock.read().unwrap()),
+                    FetchType::Mut(_) => *guard = EitherGuard::write(lock),
+                    FetchType::Immut(_) => *guard = EitherGuard::read(lock),
                     _ => (),
                 }
             } else {
diff --git a/arche_tape/src/lib.rs b/arche_tape/src/lib.rs
index 140d04c..104d66f 100644
--- a/arche_tape/src/lib.rs
+++ b/arche_tape/src/lib.rs
@@ -43,7 +43,7 @@ mod tests {
 
 pub(crate) mod utils {
     use std::hash::Hasher;
-    use std::{convert::TryInto, sync::RwLockReadGuard};
+    use std::{convert::TryInto, sync::PoisonError, sync::RwLock, sync::RwLockReadGuard};
     use std::{hash::BuildHasher, sync::RwLockWriteGuard};
 
     pub enum EitherGuard<'a> {
@@ -52,6 +52,18 @@ pub(crate) mod utils {
         None,
     }
 
+    impl<'a> EitherGuard<'a> {
+        // The locks protect no data of their own, so a panic while one was held does not make it unusable
+
+        pub fn read(lock: &'a RwLock<()>) -> Self {
+            Self::Read(lock.read().unwrap_or_else(PoisonError::into_inner))
+        }
+
+        pub fn write(lock: &'a RwLock<()>) -> Self {
+            Self::Write(lock.write().unwrap_or_else(PoisonError::into_inner))
+        }
+    }
+
     #[derive(Default)]
     pub struct TypeIdHasher(u64);
 
diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 7d6b670..28abda5 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -62,8 +62,8 @@ macro_rules! impl_query_tuple {
                     Some([$($T,)*]) => {
                         [$(
                             match $T {
-                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap()),
-                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap()),
+                                FetchType::Mut(id) => EitherGuard::write(&world.locks[world.lock_lookup[id]]),
+                                FetchType::Immut(id) => EitherGuard::read(&world.locks[world.lock_lookup[id]]),
                                 FetchType::EcsId => EitherGuard::None,
                             },
                         )*]
-- 
2.43.0


From 408c1aedf044eb3ed5b0f400b4e77a03257fcc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 12/16] fix: UntypedVec frees its memory and drops its other
 elements when a destructor panics

---
 untyped_vec/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 021ae47..c3712b8 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -364,9 +364,24 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
+        // Dropping an element may panic, the remaining elements still have to be dropped and the memory freed then
+        struct DropRest<'a>(&'a mut UntypedVec);
+        impl Drop for DropRest<'_> {
+            fn drop(&mut self) {
+                while self.0.pop() {}
+                self.0.free();
+            }
+        }
+
+        let rest = DropRest(self);
         // ZSTs never allocate but their elements still have to be dropped
-        while self.pop() {}
+        while rest.0.pop() {}
+    }
+}
 
+impl UntypedVec {
+    /// Only for ``drop``
+    fn free(&mut self) {
         if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
-- 
2.43.0


From 48762bd75e800fb237034f4fd8315054e37fa97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 13/16] fix: UntypedVec refuses to move an out of range zero
 sized element

---
 untyped_vec/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index c3712b8..58965f2 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -245,9 +245,7 @@ impl UntypedVec {
     ) {
         assert!(self.type_info == other.type_info);
         assert!(self.len > 0);
-        assert!(
-            self.type_info.layout.size() == 0 || element < self.len / self.type_info.layout.size()
-        );
+        assert!(element < self.len());
 
         let data: *mut MaybeUninit<u8> = self.data.as_ptr() as *mut MaybeUninit<u8>;
 
-- 
2.43.0


From aed7ef52e2219a900f99a1a032db98da2469985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 14/16] fix: an abandoned EntityBuilder is cleaned up in full
 when a component's destructor panics

The entity stayed alive without being anywhere, and the remaining
components and the builder's memory leaked.
---
 arche_tape/src/entity_builder.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 6303790..1584a68 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -30,9 +30,8 @@ pub struct EntityBuilder<'a> {
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
-        if !self.built {
-            self.abandon();
-        }
+        // Dropped last, dropping a component may panic
+        let _abandoned = if !self.built { self.abandon() } else { Vec::new() };
 
         // If it never allocated, don't drop
         if self.cap != 0 {
@@ -144,8 +143,9 @@ impl<'a> EntityBuilder<'a> {
         }
     }
 
-    /// Drops the components added so far and frees the entity, for a builder that is never built
-    fn abandon(&mut self) {
+    /// Takes out the components added so far and frees the entity, for a builder that is never built
+    fn abandon(&mut self) -> Vec<UntypedVec> {
+        let mut components = Vec::with_capacity(self.comp_ids.len());
         let mut data_ptr = self.data.as_ptr();
         for &comp_id in &self.comp_ids {
             let component_meta = &self.world.get_entity_meta(comp_id).unwrap().component_meta;
@@ -157,9 +157,11 @@ impl<'a> EntityBuilder<'a> {
                 storage.push_raw(data_ptr.cast());
                 data_ptr = data_ptr.offset(layout.size() as isize);
             }
+            components.push(storage);
         }
 
         self.world.despawn_unbuilt(self.entity);
+        components
     }
 
     fn realloc(&mut self, new_size: usize) {
-- 
2.43.0


From 65c9eeefc2e957570143701d385eed432333f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 15/16] fix: a component is dropped when add_component or
 EntityBuilder::with refuses it

---
 arche_tape/src/entity_builder.rs | 5 ++++-
 arche_tape/src/world.rs          | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 1584a68..d42059b 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -267,8 +267,11 @@ impl<'a> EntityBuilder<'a> {
 
     #[must_use]
     pub fn with<C: 'static>(self, component: C) -> Self {
-        let mut component = ManuallyDrop::new(component);
         let component_id = self.world.get_or_create_type_id_ecsid::<C>();
+        // Checked while the component is still dropped by a panic
+        assert!(!self.built, "EntityBuilder has already built its entity");
+        self.assert_not_added(component_id);
+        let mut component = ManuallyDrop::new(component);
         unsafe { self.with_dynamic_with_data(&mut component as *mut _ as *mut _, component_id) }
     }
 
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 4fa748d..38199ee 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -379,6 +379,8 @@ impl World {
     pub fn add_component<T: Component>(&mut self, entity: EcsId, component: T) {
         assert!(self.entities.is_alive(entity));
         let comp_id = self.get_or_create_type_id_ecsid::<T>();
+        // Checked while the component is still dropped by a panic
+        assert!(!self.has_component::<T>(entity));
         let mut component = core::mem::ManuallyDrop::new(component);
         unsafe {
             self.add_component_dynamic_with_data(
-- 
2.43.0


From 60bbbdb812fed1406ecb522562176dbacae0e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 16/16] fix: a builder refused for its capacity hint no longer
 leaves its entity alive

---
 arche_tape/src/entity_builder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index d42059b..21737e8 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -121,7 +121,11 @@ impl<'a> EntityBuilder<'a> {
             return Self::new(world, entity, component_meta);
         }
 
-        let layout = Layout::from_size_align(cap, 1).unwrap();
+        let layout = Layout::from_size_align(cap, 1).unwrap_or_else(|_| {
+            // There is no builder yet whose drop would free the entity
+            world.despawn_unbuilt(entity);
+            panic!("Cannot allocate more than isize::MAX bytes")
+        });
         // Safe because layout size 0 is handed without allocating
         let ptr = unsafe { alloc(layout) };
         let data = NonNull::new(ptr).unwrap_or_else(|| handle_alloc_error(layout));
-- 
2.43.0

