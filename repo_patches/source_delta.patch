From d140a676d3cfa0a10b8596f91dfebac324cea19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 01/17] verif: route atomics and spin hints through
 crate::sync, hookable under cfg(masstree_verif)

---
 src/internode.rs                |   3 +-
 src/leaf24.rs                   |   6 +-
 src/leaf24/freeze.rs            |   2 +-
 src/lib.rs                      |   7 +
 src/nodeversion.rs              |   9 +-
 src/permuter24.rs               |   3 +-
 src/sync.rs                     | 219 ++++++++++++++++++++++++++++++++
 src/tree.rs                     |   3 +-
 src/tree/generic.rs             |  12 +-
 src/tree/split/propagation.rs   |   7 +-
 src/tree/split/root_creation.rs |   3 +-
 11 files changed, 257 insertions(+), 17 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/internode.rs b/src/internode.rs
index 48c37bb..b92f0a0 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -59,7 +59,8 @@ use std::fmt as StdFmt;
 use std::marker::PhantomData;
 use std::mem as StdMem;
 use std::ptr as StdPtr;
-use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64, fence};
+use crate::sync::{AtomicPtr, AtomicU8, AtomicU64};
+use std::sync::atomic::fence;
 
 use crate::leaf_trait::TreeInternode;
 use crate::nodeversion::NodeVersion;
diff --git a/src/leaf24.rs b/src/leaf24.rs
index d1f3ff1..1667779 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -14,7 +14,7 @@
 use std::fmt as StdFmt;
 use std::marker::PhantomData;
 use std::ptr as StdPtr;
-use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU64};
+use crate::sync::{AtomicPtr, AtomicU8, AtomicU64};
 
 use crate::nodeversion::NodeVersion;
 use crate::ordering::{READ_ORD, RELAXED, WRITE_ORD};
@@ -817,7 +817,7 @@ impl<S: ValueSlot> LeafNode24<S> {
         while self.next_is_marked() {
             // Quick check: did marker clear during spin?
             for _ in 0..16 {
-                std::hint::spin_loop();
+                crate::sync::spin_loop();
                 if !self.next_is_marked() {
                     return;
                 }
@@ -879,7 +879,7 @@ impl<S: ValueSlot> LeafNode24<S> {
                 }
                 Err(_) => {
                     // CAS failed: someone else updated next, retry
-                    std::hint::spin_loop();
+                    crate::sync::spin_loop();
                 }
             }
         }
diff --git a/src/leaf24/freeze.rs b/src/leaf24/freeze.rs
index c1cc2d5..3a93f1a 100644
--- a/src/leaf24/freeze.rs
+++ b/src/leaf24/freeze.rs
@@ -3,7 +3,7 @@
 #![allow(dead_code)]
 
 use std::fmt as StdFmt;
-use std::hint as StdHint;
+use crate::sync as StdHint;
 
 use crate::freeze24::Freeze24Utils;
 use crate::ordering::{CAS_FAILURE, CAS_SUCCESS, READ_ORD};
diff --git a/src/lib.rs b/src/lib.rs
index abf6582..a5252f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,6 +61,8 @@
 //!   planned for a future release.
 
 #![deny(missing_docs)]
+// `masstree_verif` is set only by the verification harness (see `sync`).
+#![allow(unexpected_cfgs)]
 #![warn(clippy::pedantic)]
 #![warn(clippy::nursery)]
 // We use extensive benchmarking to verify #[inline(always)] placement is correct.
@@ -184,6 +186,11 @@ pub mod permuter24;
 pub mod prefetch;
 pub mod slot;
 pub mod suffix;
+#[cfg(masstree_verif)]
+#[allow(missing_docs)]
+pub mod sync;
+#[cfg(not(masstree_verif))]
+mod sync;
 mod tracing_helpers;
 pub mod tree;
 pub mod value;
diff --git a/src/nodeversion.rs b/src/nodeversion.rs
index 1996bbd..daa5004 100644
--- a/src/nodeversion.rs
+++ b/src/nodeversion.rs
@@ -22,7 +22,8 @@
 
 use std::marker::PhantomData;
 use std::sync::atomic::compiler_fence;
-use std::sync::atomic::{AtomicU32, Ordering, fence};
+use crate::sync::AtomicU32;
+use std::sync::atomic::{Ordering, fence};
 use std::time::{Duration, Instant};
 
 // ============================================================================
@@ -94,7 +95,7 @@ impl Backoff {
     /// a spin-wait loop.
     fn spin(&mut self) {
         for _ in 0..=self.count {
-            std::hint::spin_loop();
+            crate::sync::spin_loop();
         }
         // Double count, cap at 15: 0 -> 1 -> 3 -> 7 -> 15 -> 15
         self.count = ((self.count << 1) | 1) & 15;
@@ -812,11 +813,11 @@ impl NodeVersion {
             if spin_count < SPINS_BEFORE_YIELD {
                 // Brief spin before yielding
                 for _ in 0..spin_count {
-                    std::hint::spin_loop();
+                    crate::sync::spin_loop();
                 }
             } else {
                 // Yield CPU to other threads - reduces lock convoy
-                std::thread::yield_now();
+                crate::sync::yield_now();
                 spin_count = 0; // Reset for next cycle
                 #[cfg(feature = "tracing")]
                 {
diff --git a/src/permuter24.rs b/src/permuter24.rs
index ccd0ca4..6289366 100644
--- a/src/permuter24.rs
+++ b/src/permuter24.rs
@@ -15,7 +15,8 @@
 //! Size:   bits 0-4 (5 bits, values 0-24)
 //! ```
 
-use portable_atomic::{AtomicU128, Ordering};
+use crate::sync::AtomicU128;
+use portable_atomic::Ordering;
 
 use crate::{leaf_trait::TreePermutation, suffix::PermutationProvider};
 
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..07fa6ef
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,219 @@
+//! Atomic types and spin hint used by the concurrent code.
+//!
+//! In a normal build these are plain re-exports of [`std::sync::atomic`],
+//! `portable_atomic` and [`std::hint::spin_loop`].
+//!
+//! With `--cfg masstree_verif` (verification builds only) they are thin
+//! `repr(transparent)` wrappers that report every access to an installed hook
+//! first, so that an external harness can own the thread schedule.
+
+#[cfg(not(masstree_verif))]
+mod imp {
+    pub use portable_atomic::AtomicU128;
+    pub use std::hint::spin_loop;
+    pub use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicU32, AtomicU64, AtomicUsize};
+    pub use std::thread::yield_now;
+}
+
+#[cfg(masstree_verif)]
+mod imp {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::atomic::Ordering;
+
+    /// Kind of event reported to the hook.
+    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
+    #[repr(u8)]
+    pub enum Event {
+        /// An atomic load is about to happen.
+        Load = 0,
+        /// An atomic store or read-modify-write is about to happen.
+        Write = 1,
+        /// The thread is waiting for another thread.
+        Spin = 2,
+    }
+
+    /// Signature of the schedule hook.
+    pub type Hook = fn(Event);
+
+    static HOOK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
+
+    /// Install the process-wide schedule hook.
+    pub fn set_hook(hook: Hook) {
+        HOOK.store(hook as usize, Ordering::SeqCst);
+    }
+
+    #[inline]
+    fn report(event: Event) {
+        let raw: usize = HOOK.load(Ordering::Relaxed);
+        if raw != 0 {
+            // SAFETY: only `set_hook` stores a non-zero value, always a valid `Hook`.
+            let hook: Hook = unsafe { std::mem::transmute::<usize, Hook>(raw) };
+            hook(event);
+        }
+    }
+
+    /// Spin hint.
+    #[inline]
+    pub fn spin_loop() {
+        report(Event::Spin);
+        std::hint::spin_loop();
+    }
+
+    /// Thread yield.
+    #[inline]
+    pub fn yield_now() {
+        report(Event::Spin);
+        std::thread::yield_now();
+    }
+
+    macro_rules! wrap {
+        ($(#[$doc:meta])* $name:ident $(<$g:ident>)?, $inner:ty, $val:ty) => {
+            $(#[$doc])*
+            #[repr(transparent)]
+            #[derive(Debug, Default)]
+            pub struct $name $(<$g>)? { inner: $inner }
+
+            impl $(<$g>)? $name $(<$g>)? {
+                /// Create a new atomic.
+                #[inline(always)]
+                pub const fn new(value: $val) -> Self {
+                    Self { inner: <$inner>::new(value) }
+                }
+
+                /// Atomic load.
+                #[inline]
+                pub fn load(&self, order: Ordering) -> $val {
+                    report(Event::Load);
+                    self.inner.load(order)
+                }
+
+                /// Atomic store.
+                #[inline]
+                pub fn store(&self, value: $val, order: Ordering) {
+                    report(Event::Write);
+                    self.inner.store(value, order);
+                }
+
+                /// Atomic swap.
+                #[inline]
+                pub fn swap(&self, value: $val, order: Ordering) -> $val {
+                    report(Event::Write);
+                    self.inner.swap(value, order)
+                }
+
+                /// Atomic compare-exchange.
+                #[inline]
+                pub fn compare_exchange(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    report(Event::Write);
+                    self.inner.compare_exchange(current, new, success, failure)
+                }
+
+                /// Atomic compare-exchange (never fails spuriously here).
+                #[inline]
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $val,
+                    new: $val,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$val, $val> {
+                    report(Event::Write);
+                    self.inner.compare_exchange(current, new, success, failure)
+                }
+
+                /// Consume the atomic.
+                #[inline]
+                pub fn into_inner(self) -> $val {
+                    self.inner.into_inner()
+                }
+            }
+
+            impl $(<$g>)? Deref for $name $(<$g>)? {
+                type Target = $inner;
+                #[inline(always)]
+                fn deref(&self) -> &$inner {
+                    &self.inner
+                }
+            }
+
+            impl $(<$g>)? DerefMut for $name $(<$g>)? {
+                #[inline(always)]
+                fn deref_mut(&mut self) -> &mut $inner {
+                    &mut self.inner
+                }
+            }
+        };
+    }
+
+    macro_rules! wrap_rmw {
+        ($name:ident, $val:ty) => {
+            impl $name {
+                /// Atomic add.
+                #[inline]
+                pub fn fetch_add(&self, value: $val, order: Ordering) -> $val {
+                    report(Event::Write);
+                    self.inner.fetch_add(value, order)
+                }
+
+                /// Atomic subtract.
+                #[inline]
+                pub fn fetch_sub(&self, value: $val, order: Ordering) -> $val {
+                    report(Event::Write);
+                    self.inner.fetch_sub(value, order)
+                }
+
+                /// Atomic or.
+                #[inline]
+                pub fn fetch_or(&self, value: $val, order: Ordering) -> $val {
+                    report(Event::Write);
+                    self.inner.fetch_or(value, order)
+                }
+
+                /// Atomic and.
+                #[inline]
+                pub fn fetch_and(&self, value: $val, order: Ordering) -> $val {
+                    report(Event::Write);
+                    self.inner.fetch_and(value, order)
+                }
+            }
+        };
+    }
+
+    wrap!(
+        /// Hooked `AtomicPtr`.
+        AtomicPtr<T>, std::sync::atomic::AtomicPtr<T>, *mut T
+    );
+    wrap!(
+        /// Hooked `AtomicU8`.
+        AtomicU8, std::sync::atomic::AtomicU8, u8
+    );
+    wrap!(
+        /// Hooked `AtomicU32`.
+        AtomicU32, std::sync::atomic::AtomicU32, u32
+    );
+    wrap!(
+        /// Hooked `AtomicU64`.
+        AtomicU64, std::sync::atomic::AtomicU64, u64
+    );
+    wrap!(
+        /// Hooked `AtomicUsize`.
+        AtomicUsize, std::sync::atomic::AtomicUsize, usize
+    );
+    wrap!(
+        /// Hooked `AtomicU128`.
+        AtomicU128, portable_atomic::AtomicU128, u128
+    );
+    wrap_rmw!(AtomicU8, u8);
+    wrap_rmw!(AtomicU32, u32);
+    wrap_rmw!(AtomicU64, u64);
+    wrap_rmw!(AtomicUsize, usize);
+    wrap_rmw!(AtomicU128, u128);
+}
+
+pub use imp::*;
diff --git a/src/tree.rs b/src/tree.rs
index 1fe66cd..9e50fce 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -7,7 +7,8 @@
 
 use std::fmt as StdFmt;
 use std::marker::PhantomData;
-use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering};
+use crate::sync::{AtomicPtr, AtomicUsize};
+use std::sync::atomic::Ordering as AtomicOrdering;
 
 use crate::slot::ValueSlot;
 use crate::value::{LeafValue, LeafValueIndex};
diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 0f8368d..9ad4dac 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -4,7 +4,7 @@ use std::{
     cmp::Ordering,
     marker::PhantomData,
     ptr as StdPtr,
-    sync::atomic::{AtomicPtr, AtomicUsize, Ordering as AtomicOrdering},
+    sync::atomic::Ordering as AtomicOrdering,
 };
 
 use parking_lot::{Condvar, Mutex};
@@ -17,6 +17,7 @@ use crate::{
     leaf24::{KSUF_KEYLENX, LAYER_KEYLENX},
     nodeversion::NodeVersion,
     slot::ValueSlot,
+    sync::{AtomicPtr, AtomicUsize},
     tree::split::Propagation,
     tree::{CasInsertResultGeneric, InsertError, InsertSearchResultGeneric},
 };
@@ -178,6 +179,13 @@ where
         }
     }
 
+    /// Address of the current root node (verification builds only).
+    #[cfg(masstree_verif)]
+    #[must_use]
+    pub fn verif_root(&self) -> *const u8 {
+        self.root_ptr.load(AtomicOrdering::Acquire)
+    }
+
     // ========================================================================
     //  Internal Helpers
     // ========================================================================
@@ -1260,7 +1268,7 @@ where
     fn backoff_generic(retries: usize) {
         let spins = 1usize << retries.min(6);
         for _ in 0..spins {
-            std::hint::spin_loop();
+            crate::sync::spin_loop();
         }
     }
 
diff --git a/src/tree/split/propagation.rs b/src/tree/split/propagation.rs
index e09736b..f5c6a27 100644
--- a/src/tree/split/propagation.rs
+++ b/src/tree/split/propagation.rs
@@ -36,7 +36,8 @@
 #[cfg(feature = "tracing")]
 use std::time::Instant;
 
-use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering};
+use crate::sync::AtomicPtr;
+use std::sync::atomic::Ordering as AtomicOrdering;
 
 use seize::LocalGuard;
 
@@ -311,7 +312,7 @@ impl Propagation {
                 );
                 drop(parent_lock); // RAII: auto-unlock
                 stale_parent_retries = 0; // Reset: parent changed, not stale
-                std::hint::spin_loop();
+                crate::sync::spin_loop();
                 continue;
             }
 
@@ -353,7 +354,7 @@ impl Propagation {
                     );
 
                     drop(parent_lock); // RAII: auto-unlock
-                    std::hint::spin_loop();
+                    crate::sync::spin_loop();
                     continue;
                 };
 
diff --git a/src/tree/split/root_creation.rs b/src/tree/split/root_creation.rs
index b870863..ff2742b 100644
--- a/src/tree/split/root_creation.rs
+++ b/src/tree/split/root_creation.rs
@@ -9,7 +9,8 @@
 //! NOT retired. It remains tracked by the allocator and will be freed
 //! when the allocator drops. This prevents double-free.
 
-use std::sync::atomic::{AtomicPtr, Ordering as AtomicOrdering, fence as atomic_fence};
+use crate::sync::AtomicPtr;
+use std::sync::atomic::{Ordering as AtomicOrdering, fence as atomic_fence};
 
 use crate::NodeAllocatorGeneric;
 use crate::leaf_trait::{LayerCapableLeaf, TreeInternode};
-- 
2.43.0


From 59db5f304852592f46d540c078d49a8a2d93c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 02/17] fix: keep keys with an equal 8-byte slice in one leaf
 when splitting

calculate_split_point stopped at a boundary inside a group of equal ikeys when
the inserted key sorts after the group, separating the group over two leaves.
Keys left of the new bound are then routed to the right leaf and lost.
---
 src/leaf24.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 1667779..7aaf504 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -1215,14 +1215,11 @@ impl<S: ValueSlot + Send + Sync + 'static> crate::leaf_trait::TreeLeafNode<S> fo
                         // Insert goes with this group - move split right
                         split_pos += 1;
                     }
-                    std::cmp::Ordering::Less => {
-                        // Insert goes left - move split left
+                    std::cmp::Ordering::Less | std::cmp::Ordering::Greater => {
+                        // Insert is not part of this group - move split left so
+                        // the whole group goes right (never separate equal ikeys)
                         split_pos -= 1;
                     }
-                    std::cmp::Ordering::Greater => {
-                        // Insert goes right - done
-                        break;
-                    }
                 }
             } else {
                 break;
-- 
2.43.0


From aa1bed1818074ae2be9b8d148c47f8010079bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 03/17] fix: restart an insert from the first key slice when
 re-traversing from the tree root

After exceeding the sibling hop limit insert went back to the tree root but
kept the key shifted into the sublayer it had reached, so the value was stored
under a different key (and the inserted key was missing).
---
 src/tree/generic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 9ad4dac..6bf0de5 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -1596,7 +1596,10 @@ where
 
             // If we exceeded the hop limit, re-traverse from root
             if exceeded_hop_limit {
+                // The tree root indexes the first slice: undo any layer descent.
+                key.unshift_all();
                 layer_root = self.load_root_ptr_generic(guard);
+                in_sublayer = false;
                 continue;
             }
 
-- 
2.43.0


From 24767771086d05be0fbe4f7d69615cdd55fd2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:33 +0000
Subject: [PATCH 04/17] verif: report address and source position to the
 schedule hook

---
 src/sync.rs | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 07fa6ef..4e3e574 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -18,6 +18,7 @@ mod imp {
 #[cfg(masstree_verif)]
 mod imp {
     use std::ops::{Deref, DerefMut};
+    use std::panic::Location;
     use std::sync::atomic::Ordering;
 
     /// Kind of event reported to the hook.
@@ -32,8 +33,9 @@ mod imp {
         Spin = 2,
     }
 
-    /// Signature of the schedule hook.
-    pub type Hook = fn(Event);
+    /// Signature of the schedule hook: what is about to happen, to which address (0 when
+    /// waiting), and where in the source.
+    pub type Hook = fn(Event, usize, &'static Location<'static>);
 
     static HOOK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
 
@@ -43,26 +45,29 @@ mod imp {
     }
 
     #[inline]
-    fn report(event: Event) {
+    #[track_caller]
+    fn report(event: Event, addr: usize) {
         let raw: usize = HOOK.load(Ordering::Relaxed);
         if raw != 0 {
             // SAFETY: only `set_hook` stores a non-zero value, always a valid `Hook`.
             let hook: Hook = unsafe { std::mem::transmute::<usize, Hook>(raw) };
-            hook(event);
+            hook(event, addr, Location::caller());
         }
     }
 
     /// Spin hint.
     #[inline]
+    #[track_caller]
     pub fn spin_loop() {
-        report(Event::Spin);
+        report(Event::Spin, 0);
         std::hint::spin_loop();
     }
 
     /// Thread yield.
     #[inline]
+    #[track_caller]
     pub fn yield_now() {
-        report(Event::Spin);
+        report(Event::Spin, 0);
         std::thread::yield_now();
     }
 
@@ -82,27 +87,31 @@ mod imp {
 
                 /// Atomic load.
                 #[inline]
+                #[track_caller]
                 pub fn load(&self, order: Ordering) -> $val {
-                    report(Event::Load);
+                    report(Event::Load, std::ptr::from_ref(self) as usize);
                     self.inner.load(order)
                 }
 
                 /// Atomic store.
                 #[inline]
+                #[track_caller]
                 pub fn store(&self, value: $val, order: Ordering) {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.store(value, order);
                 }
 
                 /// Atomic swap.
                 #[inline]
+                #[track_caller]
                 pub fn swap(&self, value: $val, order: Ordering) -> $val {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.swap(value, order)
                 }
 
                 /// Atomic compare-exchange.
                 #[inline]
+                #[track_caller]
                 pub fn compare_exchange(
                     &self,
                     current: $val,
@@ -110,12 +119,13 @@ mod imp {
                     success: Ordering,
                     failure: Ordering,
                 ) -> Result<$val, $val> {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.compare_exchange(current, new, success, failure)
                 }
 
                 /// Atomic compare-exchange (never fails spuriously here).
                 #[inline]
+                #[track_caller]
                 pub fn compare_exchange_weak(
                     &self,
                     current: $val,
@@ -123,7 +133,7 @@ mod imp {
                     success: Ordering,
                     failure: Ordering,
                 ) -> Result<$val, $val> {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.compare_exchange(current, new, success, failure)
                 }
 
@@ -156,29 +166,33 @@ mod imp {
             impl $name {
                 /// Atomic add.
                 #[inline]
+                #[track_caller]
                 pub fn fetch_add(&self, value: $val, order: Ordering) -> $val {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.fetch_add(value, order)
                 }
 
                 /// Atomic subtract.
                 #[inline]
+                #[track_caller]
                 pub fn fetch_sub(&self, value: $val, order: Ordering) -> $val {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.fetch_sub(value, order)
                 }
 
                 /// Atomic or.
                 #[inline]
+                #[track_caller]
                 pub fn fetch_or(&self, value: $val, order: Ordering) -> $val {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.fetch_or(value, order)
                 }
 
                 /// Atomic and.
                 #[inline]
+                #[track_caller]
                 pub fn fetch_and(&self, value: $val, order: Ordering) -> $val {
-                    report(Event::Write);
+                    report(Event::Write, std::ptr::from_ref(self) as usize);
                     self.inner.fetch_and(value, order)
                 }
             }
-- 
2.43.0


From 75dfb99cca744d5b40b7313eb2884951d1749ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 05/17] fix: do not trust a leaf read that overlaps a locked
 writer

get and get_ref validated their leaf reads with has_changed, which ignores a
writer that holds the lock. A read taken while a key was being moved into a
new layer could report a present key as missing.
---
 src/tree/generic.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 6bf0de5..5e3feec 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -591,8 +591,9 @@ where
                         }
                     }
 
-                    // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    // Validate version AFTER all reads. A writer that locked the leaf after
+                    // our snapshot may be halfway through a change, so that counts too.
+                    if leaf.version().has_changed_or_locked(version) {
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
 
@@ -749,8 +750,9 @@ where
                         }
                     }
 
-                    // Validate version AFTER all reads
-                    if leaf.version().has_changed(version) {
+                    // Validate version AFTER all reads. A writer that locked the leaf after
+                    // our snapshot may be halfway through a change, so that counts too.
+                    if leaf.version().has_changed_or_locked(version) {
                         // Version changed - follow B-link chain if split occurred
                         let (advanced, new_version) =
                             self.advance_to_key_generic(leaf, key, version, guard);
-- 
2.43.0


From 374e24004f35595fc25210c1f4c2a348a222361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:40 +0000
Subject: [PATCH 06/17] fix: do not route through an internode a writer has
 locked

A descent that overlapped the shifting of keys and children in a locked
internode could be routed to a leaf right of the key's position, from where it
is never found: reads missed the key and inserts stored it a second time.
---
 src/tree/generic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 5e3feec..da65367 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -918,8 +918,9 @@ where
                 continue;
             }
 
-            // Check if internode changed during our read
-            if inode.version().has_changed(v) {
+            // Check if internode changed during our read. A writer that locked it after our
+            // snapshot may be shifting keys and children, so that counts too.
+            if inode.version().has_changed_or_locked(v) {
                 // Version changed - check for split
                 if inode.version().has_split(v) {
                     // Key might have escaped to sibling - retry from start
-- 
2.43.0


From 5b472c31f11a4a015ca23e030d993122e3f96400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:00 +0000
Subject: [PATCH 07/17] fix: follow a leaf's sibling link while another split
 has it marked

---
 src/tree/generic.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index da65367..55be948 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -512,7 +512,7 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        use crate::link::unmark_ptr;
 
         // Start at tree root
         let mut layer_root: *const u8 = self.load_root_ptr_generic(guard);
@@ -629,9 +629,11 @@ where
                         continue 'search_loop;
                     }
 
+                    // A marked link (another split of this leaf is under way) still points to
+                    // the sibling an earlier split moved keys to.
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
                             leaf_ptr = next_ptr;
@@ -655,7 +657,9 @@ where
         use crate::leaf_trait::TreePermutation;
         use crate::leaf24::KSUF_KEYLENX;
         use crate::leaf24::LAYER_KEYLENX;
-        use crate::link::{is_marked, unmark_ptr};
+        #[cfg(feature = "tracing")]
+        use crate::link::is_marked;
+        use crate::link::unmark_ptr;
 
         #[cfg(feature = "tracing")]
         let target_ikey_for_trace: u64 = key.ikey();
@@ -795,9 +799,11 @@ where
                     }
 
                     // Check if key belongs to a right sibling via B-link
+                    // A marked link (another split of this leaf is under way) still points to
+                    // the sibling an earlier split moved keys to.
                     let next_raw: *mut L = leaf.next_raw();
                     let next_ptr: *mut L = unmark_ptr(next_raw);
-                    if !next_ptr.is_null() && !is_marked(next_raw) {
+                    if !next_ptr.is_null() {
                         // SAFETY: next_ptr is valid
                         let next_bound: u64 = unsafe { (*next_ptr).ikey_bound() };
                         if target_ikey >= next_bound {
-- 
2.43.0


From 201b3167551372c129ea036729fe9ce2c0c3a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:19:18 +0000
Subject: [PATCH 08/17] fix: compare keys as unsigned in the vectorised
 less-or-equal count

---
 src/ksearch/simd.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ksearch/simd.rs b/src/ksearch/simd.rs
index ed63f5b..f70a2f0 100644
--- a/src/ksearch/simd.rs
+++ b/src/ksearch/simd.rs
@@ -256,13 +256,19 @@ mod avx2_impl {
         }
 
         unsafe {
-            let target_vec = _mm256_set1_epi64x(target as i64);
+            // The comparison below is signed: flipping the sign bit of both sides orders
+            // the keys as unsigned integers.
+            let sign_vec = _mm256_set1_epi64x(i64::MIN);
+            let target_vec = _mm256_xor_si256(_mm256_set1_epi64x(target as i64), sign_vec);
             let mut count = 0;
             let mut i = 0;
 
             // Process 4 keys at a time
             while i + 4 <= size {
-                let keys_vec = _mm256_loadu_si256(keys.as_ptr().add(i).cast());
+                let keys_vec = _mm256_xor_si256(
+                    _mm256_loadu_si256(keys.as_ptr().add(i).cast()),
+                    sign_vec,
+                );
 
                 // AVX2 has _mm256_cmpgt_epi64: gives 1s where key > target
                 // We want key <= target, which is !(key > target)
-- 
2.43.0


From 8a0ec670ad1952c6c4fdbf2193a3c3df3312d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 09/17] fix: drop cleared suffix bytes when a leaf's suffix
 storage is reallocated

---
 src/leaf24.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/leaf24.rs b/src/leaf24.rs
index 7aaf504..01ebffe 100644
--- a/src/leaf24.rs
+++ b/src/leaf24.rs
@@ -420,7 +420,10 @@ impl<S: ValueSlot> LeafNode24<S> {
             SuffixBag::new()
         } else {
             // SAFETY: old_ptr is non-null and came from Box::into_raw
-            unsafe { (*old_ptr).clone() }
+            let mut bag = unsafe { (*old_ptr).clone() };
+            // Copy only the stored suffixes: bytes of cleared ones would pile up.
+            bag.compact(0..WIDTH_24);
+            bag
         };
 
         new_bag.assign(slot, suffix);
-- 
2.43.0


From 02194ab199fcc1013bbbfc69db2f1d1d944ce1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 10/17] fix: analyze_runs no longer reads a directory named
 like a log for ever

---
 src/bin/analyze_runs.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/analyze_runs.rs b/src/bin/analyze_runs.rs
index bc9ec1b..e19c929 100644
--- a/src/bin/analyze_runs.rs
+++ b/src/bin/analyze_runs.rs
@@ -8,7 +8,7 @@ use serde::Deserialize;
 use std::collections::{BTreeMap, HashMap};
 use std::fmt::Write as FmtWrite;
 use std::fs::{self, File};
-use std::io::{BufRead, BufReader, Write};
+use std::io::{BufRead, BufReader, ErrorKind, Write};
 use std::path::PathBuf;
 
 fn main() {
@@ -320,7 +320,16 @@ fn analyze_run(path: &PathBuf) -> RunAnalysis {
     };
 
     for line in reader.lines() {
-        let Ok(line) = line else { continue };
+        let line = match line {
+            Ok(line) => line,
+            // Not UTF-8: skip this line only
+            Err(e) if e.kind() == ErrorKind::InvalidData => continue,
+            // Any other error would come back on every further read
+            Err(e) => {
+                eprintln!("Failed to read {}: {}", path.display(), e);
+                break;
+            }
+        };
 
         analysis.total_lines += 1;
 
-- 
2.43.0


From 37aa380ad4ca4872bcad90d234edfb069a9bb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 11/17] fix: analyze_runs no longer panics on leaf bounds of
 unusual length or characters

---
 src/bin/analyze_runs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/analyze_runs.rs b/src/bin/analyze_runs.rs
index e19c929..263c1e9 100644
--- a/src/bin/analyze_runs.rs
+++ b/src/bin/analyze_runs.rs
@@ -747,7 +747,7 @@ fn generate_markdown_report(all_runs: &[RunAnalysis]) -> String {
     for run in all_runs {
         let max_lb = run.stuck_leaf.max_leaf_bound.as_deref().unwrap_or("N/A");
         let max_lb_short = if max_lb.len() > 12 {
-            &max_lb[4..16]
+            max_lb.get(4..16).unwrap_or(max_lb)
         } else {
             max_lb
         };
@@ -1064,7 +1064,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
 
         let max_lb = run.stuck_leaf.max_leaf_bound.as_deref().unwrap_or("N/A");
         let max_lb_short = if max_lb.len() > 16 {
-            &max_lb[..16]
+            max_lb.get(..16).unwrap_or(max_lb)
         } else {
             max_lb
         };
@@ -1096,7 +1096,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
     for run in all_runs {
         let max_lb = run.stuck_leaf.max_leaf_bound.as_deref().unwrap_or("N/A");
         let max_lb_short = if max_lb.len() > 16 {
-            &max_lb[..16]
+            max_lb.get(..16).unwrap_or(max_lb)
         } else {
             max_lb
         };
-- 
2.43.0


From d1b6c1cfa75b3519d40dda4951399891be963e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 12/17] fix: analyze_runs orders ties, so the same logs give
 the same report

---
 src/bin/analyze_runs.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bin/analyze_runs.rs b/src/bin/analyze_runs.rs
index 263c1e9..2f0e1e6 100644
--- a/src/bin/analyze_runs.rs
+++ b/src/bin/analyze_runs.rs
@@ -571,7 +571,10 @@ fn finalize_stuck_leaf_analysis(analysis: &mut RunAnalysis) {
     let mut max_lb = None;
     let mut max_count = 0usize;
     for (lb, count) in &analysis.stuck_leaf.leaf_bound_counts {
-        if *count > max_count {
+        // The smallest bound wins a tie: the map iterates in no particular order
+        if *count > max_count
+            || (*count == max_count && max_lb.as_ref().is_some_and(|max| lb < max))
+        {
             max_count = *count;
             max_lb = Some(lb.clone());
         }
@@ -910,6 +913,7 @@ fn generate_markdown_report(all_runs: &[RunAnalysis]) -> String {
             stuck_keys.sort_by(|a, b| {
                 (b.1.coverage_collapse + b.1.far_landing)
                     .cmp(&(a.1.coverage_collapse + a.1.far_landing))
+                    .then_with(|| a.0.cmp(b.0))
             });
 
             if !stuck_keys.is_empty() {
@@ -958,7 +962,7 @@ fn generate_markdown_report(all_runs: &[RunAnalysis]) -> String {
         .iter()
         .filter(|(_, runs)| runs.len() > 1)
         .collect();
-    multi_run_keys.sort_by(|a, b| b.1.len().cmp(&a.1.len()));
+    multi_run_keys.sort_by(|a, b| b.1.len().cmp(&a.1.len()).then_with(|| a.0.cmp(b.0)));
 
     if multi_run_keys.is_empty() {
         writeln!(
@@ -1314,6 +1318,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
             stuck_keys.sort_by(|a, b| {
                 (b.1.coverage_collapse + b.1.far_landing)
                     .cmp(&(a.1.coverage_collapse + a.1.far_landing))
+                    .then_with(|| a.0.cmp(b.0))
             });
 
             // Separate sticky leaf keys (routing permanently broken) from churn keys
@@ -1375,7 +1380,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
                 }
             }
             let mut thread_vec: Vec<_> = thread_totals.into_iter().collect();
-            thread_vec.sort_by(|a, b| b.1.cmp(&a.1));
+            thread_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
             if thread_vec.len() > 1 {
                 println!("\n  THREAD DISTRIBUTION (top 5):");
                 for (thread, count) in thread_vec.iter().take(5) {
@@ -1389,7 +1394,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
                 .iter()
                 .filter(|(_, v)| v.visits > 100)
                 .collect();
-            hot_inodes.sort_by(|a, b| b.1.visits.cmp(&a.1.visits));
+            hot_inodes.sort_by(|a, b| b.1.visits.cmp(&a.1.visits).then_with(|| a.0.cmp(b.0)));
             if !hot_inodes.is_empty() {
                 println!("\n  HOT INTERNODES (>100 visits, top 5):");
                 for (ptr, stats) in hot_inodes.iter().take(5) {
@@ -1398,7 +1403,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
                         ptr, stats.visits, stats.k0, stats.k_last
                     );
                     let mut indices: Vec<_> = stats.child_indices.iter().collect();
-                    indices.sort_by(|a, b| b.1.cmp(a.1));
+                    indices.sort_by(|a, b| b.1.cmp(a.1).then_with(|| a.0.cmp(b.0)));
                     print!("      child_idx: ");
                     for (idx, cnt) in indices.iter().take(5) {
                         print!("[{idx}]={cnt} ");
@@ -1430,7 +1435,7 @@ fn print_summary(all_runs: &[RunAnalysis]) {
         .iter()
         .filter(|(_, runs)| runs.len() > 1)
         .collect();
-    multi_run_keys.sort_by(|a, b| b.1.len().cmp(&a.1.len()));
+    multi_run_keys.sort_by(|a, b| b.1.len().cmp(&a.1.len()).then_with(|| a.0.cmp(b.0)));
 
     if multi_run_keys.is_empty() {
         println!("  No keys stuck in multiple runs (good - failures are independent)");
-- 
2.43.0


From f9352d91b5f1cd0efeb399f5904031d63b0b9ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 13/17] fix: init_tracing writes events before the call
 returns, none is lost at exit

---
 src/lib.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a5252f1..f0e1cdd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -104,10 +104,6 @@ pub fn init_tracing() {
     use std::sync::Once;
     static INIT: Once = Once::new();
 
-    // Store the guard in a static to keep the non-blocking writer alive.
-    // Leaking is intentional - we want logs to flush on process exit.
-    static mut GUARD: Option<tracing_appender::non_blocking::WorkerGuard> = None;
-
     INIT.call_once(|| {
         use tracing_subscriber::{EnvFilter, Layer, layer::SubscriberExt, util::SubscriberInitExt};
 
@@ -119,21 +115,14 @@ pub fn init_tracing() {
         // Create log directory
         let _ = std::fs::create_dir_all(&log_dir);
 
-        // File appender - non-rotating, writes to masstree.jsonl (NDJSON)
+        // File appender - non-rotating, writes to masstree.jsonl (NDJSON). Each event is
+        // written before the call that logged it returns: nothing is left behind in a queue
+        // when the process exits, hangs or is killed.
         let file_appender = tracing_appender::rolling::never(&log_dir, "masstree.jsonl");
-        let (non_blocking, guard) = tracing_appender::non_blocking(file_appender);
-
-        // Store guard to prevent dropping (logs would be lost)
-        // SAFETY: This is only called once due to Once::call_once, and we never read GUARD
-        // after this point except implicitly when the process exits.
-        #[allow(static_mut_refs)]
-        unsafe {
-            GUARD = Some(guard);
-        }
 
         // File layer - JSON format for structured analysis
         let file_layer = tracing_subscriber::fmt::layer()
-            .with_writer(non_blocking)
+            .with_writer(file_appender)
             .with_thread_ids(true)
             .with_thread_names(true)
             .with_target(true)
-- 
2.43.0


From 3e5ff19994a440bcaba90cc1433f6386b5255d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 14/17] fix: console log output obeys MASSTREE_LOG_CONSOLE, on
 unless 0

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f0e1cdd..5b8ecad 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,7 +109,7 @@ pub fn init_tracing() {
 
         // Configuration from environment
         let log_dir = env::var("MASSTREE_LOG_DIR").unwrap_or_else(|_| "logs".to_string());
-        let console_enabled = false;
+        let console_enabled = !env::var("MASSTREE_LOG_CONSOLE").is_ok_and(|v| v == "0");
         let filter_str = env::var("RUST_LOG").unwrap_or_else(|_| "masstree=info".to_string());
 
         // Create log directory
-- 
2.43.0


From 41fee192010fa95ce550899ee0e062bbd18f7a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:08 +0000
Subject: [PATCH 15/17] fix: a guard of another tree is refused

---
 src/tree/generic.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/tree/generic.rs b/src/tree/generic.rs
index 55be948..c48b43f 100644
--- a/src/tree/generic.rs
+++ b/src/tree/generic.rs
@@ -156,6 +156,17 @@ where
         self.collector.enter()
     }
 
+    /// Panics if `guard` was taken from another tree.
+    ///
+    /// Such a guard would not keep this tree's nodes and values from being reclaimed.
+    #[inline]
+    fn check_guard(&self, guard: &LocalGuard<'_>) {
+        assert!(
+            *guard.collector() == self.collector,
+            "guard belongs to another tree"
+        );
+    }
+
     /// Get the number of keys in the tree.
     ///
     /// This is O(1) as we track the count incrementally.
@@ -466,9 +477,14 @@ where
     ///
     /// * `Some(Arc<V>)` - If the key was found
     /// * `None` - If the key was not found
+    ///
+    /// # Panics
+    ///
+    /// If `guard` was taken from another tree.
     #[must_use]
     #[inline(always)]
     pub fn get_with_guard(&self, key: &[u8], guard: &LocalGuard<'_>) -> Option<S::Output> {
+        self.check_guard(guard);
         let mut search_key: Key<'_> = Key::new(key);
         self.get_concurrent_generic(&mut search_key, guard)
     }
@@ -492,9 +508,14 @@ where
     ///
     /// * `Some(&V)` - A reference to the value, valid for the guard's lifetime
     /// * `None` - If the key was not found
+    ///
+    /// # Panics
+    ///
+    /// If `guard` was taken from another tree.
     #[must_use]
     #[inline(always)]
     pub fn get_ref<'g>(&self, key: &[u8], guard: &'g LocalGuard<'_>) -> Option<&'g S::Value> {
+        self.check_guard(guard);
         let mut search_key: Key<'_> = Key::new(key);
         self.get_ref_generic(&mut search_key, guard)
     }
@@ -1546,12 +1567,17 @@ where
     ///
     /// # Errors
     /// If insert fails.
+    ///
+    /// # Panics
+    ///
+    /// If `guard` was taken from another tree.
     pub fn insert_with_guard(
         &self,
         key: &[u8],
         value: S::Value,
         guard: &LocalGuard<'_>,
     ) -> Result<Option<S::Output>, InsertError> {
+        self.check_guard(guard);
         let mut key = Key::new(key);
         let output = S::into_output(value);
         self.insert_concurrent_generic(&mut key, output, guard)
-- 
2.43.0


From ea79ff2800ea740148067e8872c97c4fcf5228ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 16/17] Verification hook: keep the hook's provenance

---
 src/sync.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 4e3e574..5c635d1 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -37,20 +37,21 @@ mod imp {
     /// waiting), and where in the source.
     pub type Hook = fn(Event, usize, &'static Location<'static>);
 
-    static HOOK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
+    static HOOK: std::sync::atomic::AtomicPtr<()> =
+        std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
 
     /// Install the process-wide schedule hook.
     pub fn set_hook(hook: Hook) {
-        HOOK.store(hook as usize, Ordering::SeqCst);
+        HOOK.store(hook as *mut (), Ordering::SeqCst);
     }
 
     #[inline]
     #[track_caller]
     fn report(event: Event, addr: usize) {
-        let raw: usize = HOOK.load(Ordering::Relaxed);
-        if raw != 0 {
-            // SAFETY: only `set_hook` stores a non-zero value, always a valid `Hook`.
-            let hook: Hook = unsafe { std::mem::transmute::<usize, Hook>(raw) };
+        let raw: *mut () = HOOK.load(Ordering::Relaxed);
+        if !raw.is_null() {
+            // SAFETY: only `set_hook` stores a non-null value, always a valid `Hook`.
+            let hook: Hook = unsafe { std::mem::transmute::<*mut (), Hook>(raw) };
             hook(event, addr, Location::caller());
         }
     }
-- 
2.43.0


From be830feafc776012c8a6eb622a5eb09fbfcc050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 17/17] fix: readers that see a moved separator key see the
 lock too

The keys of an inner node were moved by relaxed stores. A reader that saw one of them
had no order with the writer's lock, so the version it checked afterwards could still be
the one from before, and it went down to the wrong child and missed a stored key.
---
 src/internode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/internode.rs b/src/internode.rs
index b92f0a0..77a5c18 100644
--- a/src/internode.rs
+++ b/src/internode.rs
@@ -442,14 +442,14 @@ impl<S: ValueSlot, const WIDTH: usize> InternodeNode<S, WIDTH> {
         // Children: child[p+1..n+1] -> child[p+2..n+2]
         for i in (p..n).rev() {
             let key: u64 = self.ikey0[i].load(RELAXED);
-            self.ikey0[i + 1].store(key, RELAXED);
+            self.ikey0[i + 1].store(key, WRITE_ORD);
 
             let child = self.child(i + 1);
             self.set_child(i + 2, child);
         }
 
         // Insert new key and child
-        self.ikey0[p].store(new_ikey, RELAXED);
+        self.ikey0[p].store(new_ikey, WRITE_ORD);
         self.set_child(p + 1, new_child);
 
         fence(WRITE_ORD);
-- 
2.43.0

