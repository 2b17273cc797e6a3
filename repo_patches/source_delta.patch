From d0af09d101bb0e2949fa5ef8ec4f05be1a9eeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 1/2] fix: export pt of the cdecl binding with the C calling
 convention

The cdecl library exported pt as extern "stdcall": it does not compile for
any target but 32-bit x86, and there it pops the arguments its C caller pops
as well.
---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From b2b2ce71955d8faa815350e221156a1ba9e48140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 2/2] fix: bound the iteration of the backward equation
 Tsat(h,s)

For (h,s) in region 4 near the critical point the loop had no solution within
its tolerance and never ended, for example hs(2177.2458019356513,
4.551473760013639, OT).
---
 src/r4/region4_T_hs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..7cd27ae 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -117,7 +117,13 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     let mut v4v: f64;
     let mut v4L: f64;
 
-    while (s - sss).abs() > 1.0e-6 {
+    // The backward equations of region 3 are discontinuous at their subregion boundaries,
+    // so near the critical point there may be no p with |s - sss| <= 1.0e-6
+    const MAX_STEPS: i32 = 20000;
+    let mut steps: i32 = 0;
+
+    while (s - sss).abs() > 1.0e-6 && steps < MAX_STEPS {
+        steps += 1;
         p = 0.5 * (p_Low_Bound + p_High_Bound);
 
         Tsat = T_saturation(p);
-- 
2.43.0

