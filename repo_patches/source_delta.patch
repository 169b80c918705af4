From c9267e3fcb3273375109686f6810f05e63e57e72 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 1/6] hooks: version preset and read-only storage dump behind
 cfg(gecs_verif)

---
 src/archetype/slot.rs    | 19 +++++++++++++++++
 src/archetype/storage.rs | 45 ++++++++++++++++++++++++++++++++++++++++
 src/lib.rs               |  1 +
 src/version.rs           | 10 +++++++++
 4 files changed, 75 insertions(+)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..1a4eb9c 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -160,6 +160,25 @@ impl Slot {
     }
 }
 
+// Verification-only hooks, compiled in only with `--cfg gecs_verif`.
+#[cfg(gecs_verif)]
+impl SlotIndex {
+    pub(crate) fn verif_raw(&self) -> u32 {
+        self.0
+    }
+}
+
+#[cfg(gecs_verif)]
+impl Slot {
+    pub(crate) fn verif_raw(&self) -> (u32, u32) {
+        (self.index.0, self.version.get().get())
+    }
+
+    pub(crate) fn verif_set_version(&mut self, version: u32) {
+        self.version = SlotVersion::new(version.try_into().unwrap());
+    }
+}
+
 // Need to enforce this invariant here just in case.
 // If this isn't true, then we can't trust the FREE_LIST_END value.
 #[test]
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..9d85458 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -605,6 +605,38 @@ macro_rules! declare_storage_n {
                 }
             }
 
+            // Verification-only hooks, compiled in only with `--cfg gecs_verif`.
+            #[cfg(gecs_verif)]
+            impl<A: Archetype, #(T~I,)*> $name<A, #(T~I,)*> {
+                /// Presets every slot version and the archetype version of an EMPTY storage.
+                #[doc(hidden)]
+                pub fn verif_preset_versions(&mut self, slot_version: u32, arch_version: u32) {
+                    assert!(self.len == 0, "verif_preset_versions requires an empty storage");
+                    let slots = unsafe { self.slots.slice_mut(self.capacity) };
+                    for slot in slots.iter_mut() {
+                        slot.verif_set_version(slot_version);
+                    }
+                    self.version = ArchetypeVersion::verif_new(arch_version);
+                }
+
+                /// Read-only dump of the bookkeeping state.
+                #[doc(hidden)]
+                pub fn verif_dump(&self) -> VerifDump {
+                    unsafe {
+                        VerifDump {
+                            len: self.len,
+                            capacity: self.capacity,
+                            version: self.version.get().get(),
+                            free_head: self.free_head.verif_raw(),
+                            slots: self.slots.slice(self.capacity)
+                                .iter().map(|s| s.verif_raw()).collect(),
+                            entities: self.entities.slice(self.len)
+                                .iter().map(|e| e.into_any().raw()).collect(),
+                        }
+                    }
+                }
+            }
+
             impl<A: Archetype, #(T~I,)*> StorageCanResolve<Entity<A>> for $name<A, #(T~I,)*>
             where
                 A::Components: $components<#(T~I,)*>,
@@ -850,6 +882,19 @@ seq!(N in 17..=32 {
     );
 });
 
+/// Read-only dump of one storage's bookkeeping state, for verification only.
+#[cfg(gecs_verif)]
+#[doc(hidden)]
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct VerifDump {
+    pub len: usize,
+    pub capacity: usize,
+    pub version: u32,
+    pub free_head: u32,
+    pub slots: Vec<(u32, u32)>, // (raw slot index, version)
+    pub entities: Vec<(u32, u32)>, // raw handles in dense order
+}
+
 pub struct DataPtr<T>(NonNull<MaybeUninit<T>>);
 
 // SAFETY: There's no explicit interior mutability going on here -- this is similar to a Vec-type
diff --git a/src/lib.rs b/src/lib.rs
index e9a2920..ad6a0d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::needless_doctest_main)] // this has false positives with gecs's macros
 #![allow(clippy::bool_comparison)] // using "== false" is easier to read in some cases
 #![allow(clippy::len_zero)] // using "len() > 0" is easier to read in some cases
+#![allow(unexpected_cfgs)] // gecs_verif is only set by external verification builds
 
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 
diff --git a/src/version.rs b/src/version.rs
index 1149a9b..2c9c2d7 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -69,3 +69,13 @@ impl ArchetypeVersion {
         }
     }
 }
+
+// Verification-only hook, compiled in only with `--cfg gecs_verif`.
+#[cfg(gecs_verif)]
+impl ArchetypeVersion {
+    pub(crate) fn verif_new(version: u32) -> Self {
+        Self {
+            version: version.try_into().unwrap(),
+        }
+    }
+}
-- 
2.43.0


From b22717a80c06cf45315a97fc3b83733587a929ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 2/6] fix: destroy must not unwind from a version overflow
 after modifying the storage

---
 src/archetype/storage.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9d85458..572a954 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -559,6 +559,15 @@ macro_rules! declare_storage_n {
                             entities[dense_index_usize].version(),
                             self.slots.slice(self.capacity())[slot_index_usize].version());
 
+                        // NOTE: Advancing either version may panic on overflow, so this must be done
+                        // before anything changes. Otherwise, an unwind would expose (and later
+                        // drop) an entity that is only partially removed.
+                        // SAFETY: We know that the slot storage is valid up to our capacity, and
+                        // the slot index is guaranteed by resolve_slot to be in range.
+                        let slots = self.slots.slice(self.capacity());
+                        let _ = slots.get_unchecked(slot_index_usize).version().next();
+                        let next_version = self.version.next();
+
                         #[cfg(feature = "events")]
                         {
                             self.destroyed.push(*entities.get_unchecked(dense_index_usize));
@@ -592,7 +601,7 @@ macro_rules! declare_storage_n {
                             .release(self.free_head);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From b49ab79a362026df00d2032601f03978443ca389 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 3/6] fix: ecs_iter_destroy! must hand out direct handles with
 the current archetype version

---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..e9a1ff8 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // The version advances whenever we destroy an entity in this loop.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From 9782c63a5c924c48752c3ddcc339872c1c99ceaf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 4/6] fix: to_direct must reject a stale direct entity

---
 src/archetype/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 572a954..f3c00ba 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -703,7 +703,8 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    // We're already an EntityDirect, but we could be stale.
+                    self.resolve_direct(entity).map(|_| entity)
                 }
 
                 #[inline]
-- 
2.43.0


From 2f3a854921703150b0caf44490c05db589f06fce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 5/6] fix: entity lookup must reject handles converted from
 another archetype

---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index f3c00ba..69ac665 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion could have given us another archetype's entity
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion could have given us another archetype's entity
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From a93e3b01cfdfd2f85e630cd8b9aff43797b26e70 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 6/6] fix: cfg attributes on OneOf query parameters

---
 macros/src/generate/query.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index e9a1ff8..eadfb82 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -670,14 +670,13 @@ fn bind_query_params(
                     }
                 }
                 ParseQueryParamType::OneOf(args) => {
-                    if param.cfgs.len() > 0 {
-                        return Err(syn::Error::new(
-                            param.name.span(),
-                            "cfg attributes not currently supported on OneOf",
-                        ));
-                    }
-
-                    if let Some(found) = bind_one_of(archetype, args)? {
+                    if param.is_cfg_enabled == false {
+                        // This will be removed from the closure, so it can be any valid type
+                        bound.push(ParseQueryParam {
+                            param_type: ParseQueryParamType::EntityWild,
+                            ..param.clone()
+                        });
+                    } else if let Some(found) = bind_one_of(archetype, args)? {
                         // Convert this to a new Component type
                         bound.push(ParseQueryParam {
                             cfgs: param.cfgs.clone(),
-- 
2.43.0

