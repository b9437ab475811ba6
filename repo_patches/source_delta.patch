From f583869e10da33f332cbd8ce254cd5de7293d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:47 +0000
Subject: [PATCH 1/8] verification hook: AppInst constructor behind
 cfg(iota_mam_verif)

---
 src/app/core/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/app/core/mod.rs b/src/app/core/mod.rs
index 60f47bf..297a09f 100644
--- a/src/app/core/mod.rs
+++ b/src/app/core/mod.rs
@@ -1,3 +1,6 @@
+// `iota_mam_verif` is only set by external verification builds.
+#![allow(unexpected_cfgs)]
+
 use std::hash::{Hash, Hasher};
 
 use crate::pb3::{Absorb, Result};
@@ -11,6 +14,15 @@ pub struct AppInst {
     pub(crate) id: Trits,
 }
 
+/// Verification hook: construct application instance identifier outside of the crate.
+#[cfg(iota_mam_verif)]
+impl AppInst {
+    pub fn from_trits(id: Trits) -> Self {
+        assert_eq!(APPINST_SIZE, id.size());
+        Self { id }
+    }
+}
+
 pub const MSGID_SIZE: usize = 81;
 
 #[derive(PartialEq, Eq, Clone)]
-- 
2.43.0


From 014aa188c7faa147b4813917883bac6be27a8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:13 +0000
Subject: [PATCH 2/8] fix: TritSliceMut::inc carries into the next trit

---
 src/trits/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index 52e4b6d..f329312 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -644,13 +644,15 @@ where
     }
 
     /// Increment trits in the range `[d..n)` as integer.
-    pub fn inc(self) -> bool {
+    pub fn inc(mut self) -> bool {
         while !self.is_empty() {
             let t = (1 + self.as_const().get_trit()) % 3;
             self.put_trit(t);
             if 0 != t {
                 return true;
             }
+            // Carry into the next trit.
+            self = self.drop(1);
         }
         false
     }
-- 
2.43.0


From 752b26a9fc99ebad6932fd0ed1d4bdc375ab12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:14 +0000
Subject: [PATCH 3/8] fix: is_same compares the trit positions of both slices

---
 src/trits/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trits/slice.rs b/src/trits/slice.rs
index f329312..c2565ba 100644
--- a/src/trits/slice.rs
+++ b/src/trits/slice.rs
@@ -257,7 +257,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
@@ -671,7 +671,7 @@ where
     /// Check whether `x` slice points to the same trit in memory as `self`.
     pub fn is_same(self, x: Self) -> bool {
         unsafe {
-            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(self.r.d / TW::SIZE)
+            true && self.p.add(self.r.d / TW::SIZE) == x.p.add(x.r.d / TW::SIZE)
                 && (self.r.d % TW::SIZE) == (x.r.d % TW::SIZE)
         }
         //self.p == x.p && self.r.d == x.r.d //&& self.r.n == x.r.n
-- 
2.43.0


From 022e67107d758bec9b81eb9c3d904f807e64187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:15 +0000
Subject: [PATCH 4/8] fix: mtcomplete keeps the root after the last leaf

---
 src/mss/mtcomplete.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mss/mtcomplete.rs b/src/mss/mtcomplete.rs
index 9f1dfff..e9264d0 100644
--- a/src/mss/mtcomplete.rs
+++ b/src/mss/mtcomplete.rs
@@ -80,14 +80,17 @@ where
         }
 
         if self.skn == max_skn(self.height) {
-            self.nodes = Vec::new();
+            // Keys are exhausted, only root must be kept.
+            self.nodes = vec![self.root().clone()];
         }
 
         self.skn != max_skn(self.height)
     }
 
     fn root(&self) -> &H {
-        self.node(0, 0)
+        // Root is the last node of the linearized tree and the only one left
+        // when keys are exhausted.
+        &self.nodes[self.nodes.len() - 1]
     }
 
     /// MT height.
@@ -117,7 +120,7 @@ where
     }
 
     fn load(height: Height, skn: Idx, nodes: Vec<H>) -> Option<Self> {
-        if skn == max_skn(height) && nodes.is_empty() {
+        if skn == max_skn(height) && nodes.len() == 1 {
         } else if skn < max_skn(height) && tree_size(height) == nodes.len() {
         } else {
             return None;
-- 
2.43.0


From 3ca7516af36f1912ae84e8551ca285e04475268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:15 +0000
Subject: [PATCH 5/8] fix: keyload unwrap checks bounds before skipping entries

---
 src/app/channel/msg/keyload.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/app/channel/msg/keyload.rs b/src/app/channel/msg/keyload.rs
index dde8a3a..be02738 100644
--- a/src/app/channel/msg/keyload.rs
+++ b/src/app/channel/msg/keyload.rs
@@ -176,11 +176,14 @@ pub fn unwrap(
                 key.unwrap_mask(&mut fork, b)?;
                 key_found = true;
             } else {
-                b.advance(pb3::sizeof_ntrytes(81));
+                let sizeof_ekey = pb3::sizeof_ntrytes(81);
+                guard(sizeof_ekey <= b.size(), Err::Eof)?;
+                b.advance(sizeof_ekey);
             }
         }
 
         let sizeof_keyloadpsk = pb3::sizeof_ntrytes(27) + pb3::sizeof_ntrytes(81);
+        guard(psks_count.0 - n <= b.size() / sizeof_keyloadpsk, Err::Eof)?;
         b.advance((psks_count.0 - n) * sizeof_keyloadpsk);
     }
 
@@ -201,11 +204,14 @@ pub fn unwrap(
                 pb3::ntrukem::unwrap_ntrukem(key.slice_mut(), ntrusk, &mut fork, b)?;
                 key_found = true;
             } else {
-                b.advance(pb3::ntrukem::sizeof_ntrukem());
+                let sizeof_ekey = pb3::ntrukem::sizeof_ntrukem();
+                guard(sizeof_ekey <= b.size(), Err::Eof)?;
+                b.advance(sizeof_ekey);
             }
         }
 
         let sizeof_keyloadntru = pb3::sizeof_ntrytes(27) + pb3::ntrukem::sizeof_ntrukem();
+        guard(ntrus_count.0 - n <= b.size() / sizeof_keyloadntru, Err::Eof)?;
         b.advance((ntrus_count.0 - n) * sizeof_keyloadntru);
     }
 
-- 
2.43.0


From 83997058e54518fbff41901ab19c3262f6c255b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:15 +0000
Subject: [PATCH 6/8] fix: unwrap of trytes checks encoded size before
 allocating

---
 src/pb3/typ/trytes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pb3/typ/trytes.rs b/src/pb3/typ/trytes.rs
index d36fe38..4e54c05 100644
--- a/src/pb3/typ/trytes.rs
+++ b/src/pb3/typ/trytes.rs
@@ -87,6 +87,7 @@ pub fn wrap_absorb_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_absorb_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_absorb_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_absorb_trits(x.slice_mut(), s, b)?;
     Ok(x)
@@ -100,6 +101,7 @@ pub fn wrap_mask_trytes(x: &Trits, s: &mut Spongos, b: &mut TritSliceMut) {
 
 pub fn unwrap_mask_trytes(s: &mut Spongos, b: &mut TritSlice) -> Result<Trits> {
     let n = Size::unwrap_mask_sized(s, b)?;
+    guard(n.0 <= b.size() / 3, Err::Eof)?;
     let mut x = Trits::zero(n.0 * 3);
     unwrap_mask_trits(x.slice_mut(), s, b)?;
     Ok(x)
-- 
2.43.0


From 429d30659b6a49f33f0b9496a6969591ada39988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 7/8] fix: unwrap_mask of trints checks remaining size

---
 src/pb3/typ/trint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pb3/typ/trint.rs b/src/pb3/typ/trint.rs
index db47c90..3da507d 100644
--- a/src/pb3/typ/trint.rs
+++ b/src/pb3/typ/trint.rs
@@ -63,6 +63,7 @@ where
     /// `decr` codeword into a temp buffer and `decode` value.
     fn unwrap_mask_sized(s: &mut Spongos, b: &mut TritSlice) -> Result<Self> {
         let n = Self::sizeof();
+        guard(n <= b.size(), Err::Eof)?;
         let mut t = trits::Trits::zero(n);
         s.decr(b.advance(n), t.slice_mut());
         Self::decode_sized(&mut t.slice())
-- 
2.43.0


From 8dc43c8d6d1874b7c2528e187447ca5b334bf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:16 +0000
Subject: [PATCH 8/8] fix: MSS recover fails on hash of wrong size as
 documented

---
 src/mss/mss.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mss/mss.rs b/src/mss/mss.rs
index 314e45e..0dcfeea 100644
--- a/src/mss/mss.rs
+++ b/src/mss/mss.rs
@@ -275,6 +275,10 @@ fn recover_apk(
 pub fn recover(apk: TritSliceMut, hash: TritSlice, mut sig: TritSlice) -> Option<usize> {
     assert_eq!(apk.size(), PK_SIZE);
 
+    if HASH_SIZE != hash.size() {
+        return None;
+    }
+
     if SKN_SIZE <= sig.size() {
         let (d, skn) = parse_skn(sig.advance(SKN_SIZE))?;
         let n = apath_size(d as usize);
-- 
2.43.0

