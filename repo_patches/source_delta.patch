From 417f4b1f96175218d591521a9a4796357c2d4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH] fix: panic on invalid load and store orderings on pre-v6
 no-std Arm

The documentation of every atomic type's load and store says that they panic
on orderings that make no sense for them, and all other backends do.
---
 src/imp/interrupt/armv4t.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/imp/interrupt/armv4t.rs b/src/imp/interrupt/armv4t.rs
index 7d3567f..c0277c4 100644
--- a/src/imp/interrupt/armv4t.rs
+++ b/src/imp/interrupt/armv4t.rs
@@ -108,7 +108,12 @@ pub(super) mod atomic {
 
             impl $(<$($generics)*>)? $atomic_type $(<$($generics)*>)? {
                 #[inline]
-                pub(crate) fn load(&self, _order: Ordering) -> $value_type {
+                #[cfg_attr(
+                    all(debug_assertions, not(portable_atomic_no_track_caller)),
+                    track_caller
+                )]
+                pub(crate) fn load(&self, order: Ordering) -> $value_type {
+                    crate::utils::assert_load_ordering(order);
                     let src = self.v.get();
                     // SAFETY: any data races are prevented by atomic intrinsics and the raw
                     // pointer passed in is valid because we got it from a reference.
@@ -128,7 +133,12 @@ pub(super) mod atomic {
                 }
 
                 #[inline]
-                pub(crate) fn store(&self, val: $value_type, _order: Ordering) {
+                #[cfg_attr(
+                    all(debug_assertions, not(portable_atomic_no_track_caller)),
+                    track_caller
+                )]
+                pub(crate) fn store(&self, val: $value_type, order: Ordering) {
+                    crate::utils::assert_store_ordering(order);
                     let dst = self.v.get();
                     // SAFETY: any data races are prevented by atomic intrinsics and the raw
                     // pointer passed in is valid because we got it from a reference.
-- 
2.43.0

