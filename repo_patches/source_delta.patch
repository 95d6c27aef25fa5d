From 7bdb74ff2c477fbf5f76b09cf8271e28436e5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/33] fix: export pt with the C calling convention in the
 cdecl binding

pt was the only function of the cdecl binding declared extern "stdcall": a C
caller of the shared library used the wrong convention (and the feature does
not compile at all where "stdcall" does not exist, e.g. x86_64).
---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From 24142598072d2aebc5615e9864a5cb430d023718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 02/33] fix: Prandtl number of (p,T) states uses the density,
 not 1/T

In regions 1, 2 and 5 the pair is (p,T), so 1.0 / v2 was the reciprocal of the
temperature; viscosity and conductivity were evaluated at that "density".
---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..af7d846 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From 613eafde15e3eb2a3a65be49bc2ce190979bedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 03/33] fix: kinematic viscosity in region 3 is the dynamic
 viscosity over the density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index af7d846..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From af37f3addba6a32d68822a9499c66608b43f8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 04/33] fix: specific exergy in region 3 uses the entropy
 tau*phi_tau - phi

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From f05b668447d78367fc58cfe20a8beb32f3597bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 05/33] fix: isochoric heat capacity in region 5, IF97 Table 39

cv = R * (-tau^2*gamma_tautau - (1+..)^2/(1-..)): only the second term is
divided.
---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From f3bb0d4d122072e352be6d823b27bcf497e4f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 06/33] fix: sum all 43 terms of the subregion 3l volume
 equation

The last step stopped at 42, so the 43rd coefficient was never used and v(p,T)
was off by up to 1.4 %.
---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From fb9e6278a1ce7089d676badef549fc846c5a0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 07/33] fix: keep subregions 3c and 3k for psat(643.15 K) < p
 <= 22.5 MPa

Both were assigned and then overwritten by the tests of the subregions around
the critical point, so v(p,T) was evaluated far outside the range of 3u / 3x
(errors of many orders of magnitude).
---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From 1a3cdd0cb2410e0f3072732242c083a923da2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 08/33] fix: isothermal throttling coefficient in the
 documented kJ/(kg MPa)

(dh/dp)T = -cp * mu: the extra 0.001 gave kJ/(kg kPa) in every region.
---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From 4951281834237e65decb7ffaa4199de4c05d753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 09/33] fix: density of wet steam is the reciprocal of its
 specific volume

The lever rule holds per unit mass, so for v and not for the density.
---
 src/r4/region4_pTx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..0f099b8 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -177,7 +177,8 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
     let T: f64 = T_saturation(p);
     match o_id {
         OT => return T-273.15,
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / px_reg4(p, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
@@ -210,7 +211,8 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
     }
     let mut r: f64 = 0.0;
     match o_id {
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / Tx_reg4(T, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-- 
2.43.0


From c47c1be247eaa793e492aa8a9feab6dda8b07b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 10/33] fix: terminating bisection for T(h,s) in region 4 below
 s''(623.15 K)

---
 src/r4/region4_T_hs.rs | 75 +++++++++++-------------------------------
 1 file changed, 19 insertions(+), 56 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..08c790c 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -75,74 +75,37 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
         return hs2T_reg43(h, s);
     };
 
-    //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
-    let mut p_Low_Bound: f64 = 0.0;
-    let mut p_High_Bound: f64 = 0.0;
-    let mut PL: f64 = 0.0;
-    let mut Tsat: f64 = 0.0;
-
-    if s > s4L_273 && s <= s4L_623 {
-        p_Low_Bound = P_MIN;
-        p_High_Bound = Ps_623;
-
-        let mut hL: f64 = -1000.0;
-        while (hL - h).abs() > 1.0e-04 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-4 {
-            PL = 0.5 * (p_Low_Bound + p_High_Bound);
-            Tsat = T_saturation(PL);
-            hL = pT2h_reg1(PL, Tsat);
-            if hL > h {
+    //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outside.
+
+    // upper bound of p: where the enthalpy of the saturated liquid or steam is h
+    let mut p_High_Bound: f64 = Ps_623;
+    if h > pT2h_reg1(Ps_623, 623.15) {
+        p_High_Bound = h2p_sat_reg3(h);
+    } else {
+        let mut p_Low_Bound: f64 = P_MIN;
+        for _ in 0..100 {
+            let PL: f64 = 0.5 * (p_Low_Bound + p_High_Bound);
+            if pT2h_reg1(PL, T_saturation(PL)) > h {
                 p_High_Bound = PL;
             } else {
                 p_Low_Bound = PL;
             }
         }
-    };
-
-    if s > s4L_623 && s <= SC_WATER {
-        PL = h2p_sat_reg3(h); // liquid , boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-    if s > SC_WATER && s <= s4V_623 {
-        PL = h2p_sat_reg3(h); // steam,boundaries
-        p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
     }
 
-    let mut sss: f64 = -1000.0;
+    // s(p,h) of the wet steam falls with p, so bisection always converges
+    let mut p_Low_Bound: f64 = P_MIN;
     let mut p: f64 = 0.0;
-    let mut xs: f64;
-    let mut s4v: f64;
-    let mut s4L: f64;
-    let mut v4v: f64;
-    let mut v4L: f64;
-
-    while (s - sss).abs() > 1.0e-6 {
+    for _ in 0..100 {
         p = 0.5 * (p_Low_Bound + p_High_Bound);
-
-        Tsat = T_saturation(p);
-        xs = ph_reg4(p, h, OX); // region4_phps
-
-        if p < Ps_623 {
-            s4v = pT2s_reg2(p, Tsat);
-            s4L = pT2s_reg1(p, Tsat);
-        } else {
-            v4v = ph_reg3(p, p2sat_steam(p, OH), OV);
-            s4v = Td2s_reg3(Tsat, 1.0 / v4v);
-            v4L = ph_reg3(p, p2sat_water(p, OH), OV);
-            s4L = Td2s_reg3(Tsat, 1.0 / v4L);
-        };
-
-        sss = xs * s4v + (1.0 - xs) * s4L;
-
-        if sss < s {
+        let xs: f64 = ph_reg4(p, h, OX);
+        let s4v: f64 = p2sat_steam(p, OS);
+        let s4L: f64 = p2sat_water(p, OS);
+        if xs * s4v + (1.0 - xs) * s4L < s {
             p_High_Bound = p;
-            p_Low_Bound = (1.0 + (sss - s) / s) * p;
         } else {
             p_Low_Bound = p;
-            p_High_Bound = (1.0 + (sss - s) / s) * p;
         }
-    } // end of while  ( abs(s - sss).abd() > 1.0e-6)
-
+    }
     T_saturation(p)
 }
-- 
2.43.0


From 239db264deddce18226e0b801460b101af99067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 11/33] fix: region 2 above 863.15 K for the pairs (t,v),
 (t,h), (t,s)

---
 src/common/region.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..4a68c36 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -637,6 +640,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
         return 2;
     };
+    if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
+        return 2;
+    };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
         || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
@@ -715,6 +721,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From 1137167be7fe700232e19bc7d812ee0e987cf298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:29 +0000
Subject: [PATCH 12/33] fix: (T,v)->p in region 5 at low pressures

---
 src/r5/region5_pair_ext.rs | 60 ++++++--------------------------------
 1 file changed, 9 insertions(+), 51 deletions(-)

diff --git a/src/r5/region5_pair_ext.rs b/src/r5/region5_pair_ext.rs
index faec665..e05814f 100644
--- a/src/r5/region5_pair_ext.rs
+++ b/src/r5/region5_pair_ext.rs
@@ -30,60 +30,18 @@ pub fn pv2T_reg5(p: f64, v: f64) -> f64 {
 
 /// Region 5: (T,v)-> p
 pub fn Tv2p_reg5(T: f64, v: f64) -> f64 {
+    // v falls with p: bisection between the bounds of the region, in ln(p)
     let mut p1: f64 = P_MIN5;
-    let mut v1: f64 = pT2v_reg5(p1, T);
-    if v == v1 {
-        return p1;
-    }
-
-    let mut p2: f64 = 10.0 * p1;
-    if p2 > P_MAX5 {
-        p2 = P_MAX5;
-    };
-
-    let mut v2: f64 = pT2v_reg5(p2, T);
-    if v == v2 {
-        return p2;
-    }
-
-    let mut vbounded: bool = false;
-    if (v > v2) && (v < v1) {
-        vbounded = true;
-    }
-
-    while !vbounded {
-        p1 = p2;
-        v1 = v2;
-        p2 = 5.0 * p1;
-        if p2 >= P_MAX5 {
-            p2 = P_MAX5;
-            vbounded = true;
+    let mut p2: f64 = P_MAX5;
+    let mut p: f64 = p1;
+    for _ in 0..60 {
+        p = (p1 * p2).sqrt();
+        if pT2v_reg5(p, T) > v {
+            p1 = p;
+        } else {
+            p2 = p;
         }
-        v2 = pT2v_reg5(p2, T);
-        if v == v2 {
-            return p2;
-        }
-        if (v > v2) && (v < v1) {
-            vbounded = true;
-        }
-    }
-
-    let mut f2: f64 = v - v2;
-    p1 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if p1 < P_MIN5 {
-        p1 = P_MIN5;
     }
-    let f1: f64 = v - pT2v_reg5(p1, T);
-    if f1.abs() < ESP {
-        return p1;
-    };
-    let mut p: f64 = rtsec1(pT2v_reg5, T, v, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX5 {
-        p = P_MAX5;
-    };
-    if p < P_MIN5 {
-        p = P_MIN5;
-    };
     p
 }
 
-- 
2.43.0


From e849267920969d1f4a6b714f37e372999b1e32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 13/33] fix: (p,v)->T in region 1, and its states colder than
 v(p,273.15 K)

---
 src/common/region.rs       |   7 ++-
 src/r1/region1_pair_ext.rs | 109 +++++++++----------------------------
 2 files changed, 30 insertions(+), 86 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 4a68c36..34781a8 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_pair_ext::*;
 
 use crate::r2::region2_T_ps::*;
 use crate::r2::region2_pT::*;
@@ -429,7 +430,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         return INVALID_VALUE;
     }
 
-    let vt273: f64 = pT2v_reg1(p, 273.15);
+    let vmin1: f64 = pT2v_reg1(p, p2Tvmin_reg1(p));
     let vt1073: f64 = pT2v_reg2(p, 1073.15);
     let mut vt2273: f64 = 0.0;
     if (p >= P_MIN5) && (p <= P_MAX5) {
@@ -456,8 +457,8 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
             vss = pT2v_sat_reg3(p, T1, 1.0);
         }
     }
-    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vt273) && (v <= vsw))
-        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vt273) && (v <= vt623))
+    if ((p >= P_MIN1) && (p <= P_MIN3)) && ((v >= vmin1) && (v <= vsw))
+        || ((p > P_MIN3) && (p <= P_MAX1)) && ((v >= vmin1) && (v <= vt623))
     {
         return 1;
     };
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..4a2dabd 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -5,98 +5,41 @@ use crate::common::constant::*;
 use crate::r1::region1_pT::*;
 use crate::r4::region4_sat_pT::*;
 
-/// Region 1  (p,v)->T using the secant method and refine adjust
+/// Region 1: T of the maximum density at p
+pub fn p2Tvmin_reg1(p: f64) -> f64 {
+    let mut T1: f64 = T_MIN1;
+    let mut T2: f64 = T_MIN1 + 10.0;
+    for _ in 0..60 {
+        let d: f64 = (T2 - T1) / 3.0;
+        if pT2v_reg1(p, T1 + d) > pT2v_reg1(p, T2 - d) {
+            T1 += d;
+        } else {
+            T2 -= d;
+        }
+    }
+    T1
+}
+
+/// Region 1  (p,v)->T using the bisection, above T of the maximum density where v rises with T
 /// * p: pressure  MPa
 //  * v: specific volume m^3/kg
 /// * T: temperature  K
 pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
-    let mut T1: f64 = T_MIN1;
-    let mut v1: f64 = pT2v_reg1(p, T1);
-    let mut f1: f64 = v - pT2v_reg1(p, T1);
-
+    let mut T1: f64 = p2Tvmin_reg1(p);
     let mut T2: f64 = T_MAX1;
-    if (p >= 16.5291643) && (p <= 100.0) {
-        T2 = T_MAX1;
-    } else {
+    if p < Ps_623 {
         T2 = T_saturation(p);
-    };
-    let mut v2: f64 = pT2v_reg1(p, T2);
-    let mut f: f64 = v - v2;
-    if (v2 - v1) != 0.0 {
-        T2 = T1 + (T2 - T1) * (v - v1) / (v2 - v1);
-    }
-    v2 = pT2v_reg1(p, T2);
-    f = v - v2;
-    if f > 0.0 {
-        T2 = T_MAX1;
-        v2 = pT2v_reg1(p, T2);
-        f = v - v2;
     }
-    let mut T: f64 = rtsec2(pT2v_reg1, p, v, T1, T2, f1, f, 1.0e-3, 100);
-
-    let mut r_error = 0.0; //relative error
-    r_error = (v - pT2v_reg1(p, T)) / v;
-    if T >= T_MIN1 && T <= T_MAX1 && r_error.abs() < 1.0e-8 {
-        return T;
-    };
-    if T < T_MIN1 {
-        T = T_MIN1;
-    };
-    if T > T_MAX1 {
-        T = T_MAX1;
-    }
-
-    // Region 1 : the diff volume is the very small when the diff T is large
-    // so, we need to adjust the T
-    let V_ESPION: f64 = 1.0e-8;
-    let MAX_STEPS: i32 = 1000000;
-    f = v - pT2v_reg1(p, T);
-    r_error = f / v;
-    let mut success: bool = false;
-    let mut steps: i32 = 0;
-    if r_error > 0.0
-    // T^ -> V^, the  v of T is samller than the real value,T is  small
-    {
-        while !success {
-            T += 0.01; //the T is smaller than the real value, so  +T
-            if T > T_MAX1 {
-                return T;
-            };
-            f = v - pT2v_reg1(p, T);
-            r_error = f / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            }
+    let mut T: f64 = T1;
+    for _ in 0..60 {
+        T = 0.5 * (T1 + T2);
+        if pT2v_reg1(p, T) < v {
+            T1 = T;
+        } else {
+            T2 = T;
         }
     }
-
-    if r_error < 0.0
-    // T^ -> V^, the  v of T is biggerr than the real value,T is  bigger
-    {
-        success = false;
-        steps = 0;
-        while !success {
-            T -= 0.001; //the T is biggerr than the real value,so  -T
-            if T < T_MIN1 {
-                return T_MIN1;
-            };
-            r_error = (v - pT2v_reg1(p, T)) / v;
-            if r_error.abs() < V_ESPION {
-                return T;
-            } else {
-                steps += 1;
-                if steps > MAX_STEPS {
-                    success = true;
-                }
-            };
-        }
-    };
-    INVALID_VALUE as f64
+    T
 }
 
 /// Region 1  (T,v)->p using the secant method
-- 
2.43.0


From 5df875632d7c8e0afb17d2483c70230860676047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 14/33] fix: (t,h) in region 1 from 235 degC up, where h(p) has
 a minimum

---
 src/common/region.rs       | 24 +++--------------
 src/r1/region1_pair_ext.rs | 53 +++++++++++++++++++++++---------------
 2 files changed, 35 insertions(+), 42 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 34781a8..c1df77f 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -609,27 +609,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 1;
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
-    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) && (h <= hp100) {
-        let mut Hmin: f64 = hsw;
-        let mut p11: f64 = p1 + 0.1;
-        let mut Hmid: f64 = pT2h_reg1(p11, T);
-        if Hmid < Hmin {
-            let mut HminFounded: bool = false;
-
-            while !HminFounded {
-                p11 += 0.1;
-                Hmid = pT2h_reg1(p11, T);
-                if Hmid < Hmin {
-                    Hmin = Hmid;
-                } else {
-                    HminFounded = true;
-                }
-            }
-            if h >= Hmin {
-                return 1;
-            } else {
-                return INVALID_VALUE;
-            };
+    if (T >= T_MIN1) && (T <= T_MAX1) && (h < hsw) {
+        if h >= pT2h_reg1(T2phmin_reg1(T), T) {
+            return 1;
         } else {
             return INVALID_VALUE;
         }
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 4a2dabd..8c33115 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -55,32 +55,43 @@ pub fn Tv2p_reg1(T: f64, v: f64) -> f64 {
     return p;
 }
 
-/// Region 1  (T,h)->p using the secant method
+/// Region 1: p of the minimum enthalpy at T
+pub fn T2phmin_reg1(T: f64) -> f64 {
+    let mut p1: f64 = p_saturation(T);
+    let mut p2: f64 = P_MAX1;
+    for _ in 0..100 {
+        let d: f64 = (p2 - p1) / 3.0;
+        if pT2h_reg1(p1 + d, T) > pT2h_reg1(p2 - d, T) {
+            p1 += d;
+        } else {
+            p2 -= d;
+        }
+    }
+    p1
+}
+
+/// Region 1  (T,h)->p using the bisection, above p of the minimum enthalpy where h rises with p
+///   or, for h above h(100MPa,T), below it where h falls with p
 ///  *  T: temperature  K
 ///  *  h: specific enthalpy kJ/kg
 ///  *  p: pressure  MPa
 pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
-    let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1;
-    let mut p2: f64 = P_MAX1; // p1 + stepa
-    let mut h1 = pT2h_reg1(p1, T);
-    if (h - h1).abs() < ESP {
-        return p1;
-    };
-    let mut h2: f64 = pT2h_reg1(p2, T);
-    if (h - h2).abs() < ESP {
-        return p2;
-    }
-
-    let f1: f64 = h - pT2h_reg1(p1, T);
-    let f: f64 = h - pT2h_reg1(p2, T);
-    let mut p: f64 = rtsec1(pT2h_reg1, T, h, p1, p2, f1, f, ESP, I_MAX);
-
-    if p > P_MAX1 {
-        p = P_MAX1;
+    let pmin: f64 = T2phmin_reg1(T);
+    let rising: bool = h <= pT2h_reg1(P_MAX1, T);
+    let mut p1: f64 = pmin;
+    let mut p2: f64 = P_MAX1;
+    if !rising {
+        p1 = p_saturation(T);
+        p2 = pmin;
     }
-    if p < pmin1 {
-        p = pmin1;
+    let mut p: f64 = p1;
+    for _ in 0..60 {
+        p = 0.5 * (p1 + p2);
+        if (pT2h_reg1(p, T) < h) == rising {
+            p1 = p;
+        } else {
+            p2 = p;
+        }
     }
     p
 }
-- 
2.43.0


From 7db95f5e47140d9c04ad76beee9259399dd9e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 15/33] fix: (t,s)->p in region 1 below 4 degC, where s(p) has
 a maximum

---
 src/r1/region1_pair_ext.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8c33115..1b6d79f 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -96,32 +96,21 @@ pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     p
 }
 
-/// Region 1  (T,s)->p using the secant method
+/// Region 1  (T,s)->p using the bisection
 ///  * T: temperature  K
 ///  * s: specific entropy  kJ/(kg K)
 ///  * p: pressure  MPa
 pub fn Ts2p_reg1(T: f64, s: f64) -> f64 {
-    let pmin1: f64 = p_saturation(T);
-    let mut p1: f64 = pmin1; //
-    let mut s1: f64 = pT2s_reg1(p1, T);
-    let mut f1: f64 = s - s1;
-    let p2: f64 = P_MAX1;
-    let s2: f64 = pT2s_reg1(p2, T);
-    let f2: f64 = s - s2;
-    p1 = p2 - (p2 - p1) * (s - s2) / (s1 - s2);
-    if p1 < pmin1 {
-        p1 = pmin1;
-    }
-    s1 = pT2s_reg1(p1, T);
-    f1 = s - s1;
-    if f1.abs() < ESP {
-        return p1;
-    }
-    let mut p: f64 = rtsec1(pT2s_reg1, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p > P_MAX1 {
-        p = P_MAX1;
-    } else if p < pmin1 {
-        p = pmin1;
+    let mut p1: f64 = p_saturation(T);
+    let mut p2: f64 = P_MAX1;
+    let mut p: f64 = p1;
+    for _ in 0..60 {
+        p = 0.5 * (p1 + p2);
+        if pT2s_reg1(p, T) > s {
+            p1 = p;
+        } else {
+            p2 = p;
+        }
     }
     p
 }
-- 
2.43.0


From 356ee9a2a161ff4e8c4702f8c241797281cf1b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 16/33] fix: (h,x) and (s,x) find the root wherever one exists,
 over the whole saturation range

---
 src/common/constant.rs |   8 ++--
 src/r4/region4.rs      | 103 +++++++++++++++++++++++++++--------------
 2 files changed, 71 insertions(+), 40 deletions(-)

diff --git a/src/common/constant.rs b/src/common/constant.rs
index a4ec5f3..008743a 100644
--- a/src/common/constant.rs
+++ b/src/common/constant.rs
@@ -72,10 +72,10 @@ pub const T_MAX4: f64 = 647.096;
 pub const T_MIN4: f64 = 273.15;
 pub const P_MAX4: f64 = 22.064;
 pub const P_MIN4: f64 = 0.000611212677444;
-pub const H_MAX4: f64 = 2803.2738880203456;
-pub const H_MIN4: f64 = 0.38039218566765925;
-pub const S_MAX4: f64 = 9.153081306725117;
-pub const S_MIN4: f64 = 0.33567511183921145;
+pub const H_MAX4: f64 = 2803.28525038; // 508.38 K, x=1
+pub const H_MIN4: f64 = -0.041587826; // 273.15 K, x=0
+pub const S_MAX4: f64 = 9.1557593953; // 273.15 K, x=1
+pub const S_MIN4: f64 = -1.545496e-04; // 273.15 K, x=0
 
 /// Region5  boundary constants
 pub const T05: f64 = 1000.0;
diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9fff503..cd5af93 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -113,51 +113,81 @@ pub fn ts_reg4(t: f64, s: f64, o_id: i32) -> f64 {
     Tx_reg4(t + 273.15, x, o_id)
 }
 
-/// function for getting the steam quality,residuals: x(T,y)-x
-fn Ty2x_residuals(T: f64, x: f64, y: f64, y_id: i32) -> f64 {
+/// residuals: y(T,x)-y
+fn Tx2y_residuals(T: f64, x: f64, y: f64, y_id: i32) -> f64 {
     let sw = T2sat_water(T, y_id);
     let ss = T2sat_steam(T, y_id);
-    (y - sw) / (ss - sw) - x
+    sw + x * (ss - sw) - y
 }
 
-/// Bisection for the root : Ty2x_residuals(T,x, y, y_id)=0
-fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64, tol: f64, maxiter: i32) -> f64 {
-    let mut T: f64 = 0.0;
-    let mut fl: f64 = Ty2x_residuals(Tl, x, y, y_id); // residual for left  bound
-    let mut fr: f64 = Ty2x_residuals(Tr, x, y, y_id); //resdiual for right bound
-    let mut f: f64 = 0.0;
-    let mut numIters: i32 = 0;
-
-    for i in 0..maxiter {
-        numIters += 1;
-        // get midpoint
-        T = 0.5 * (Tl + Tr);
-        // evaluate resdiual at midpoint
-        f = Ty2x_residuals(T, x, y, y_id);
-        //  check for convergence
-        if f.abs() < tol {
-            break;
-        };
-
-        // reset the bounds
-        if f * fl < 0.0 {
-            // move right bound info to mid
+/// Bisection for the root in [Tl,Tr] : Tx2y_residuals(T,x, y, y_id)=0
+fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64) -> f64 {
+    let fl: f64 = Tx2y_residuals(Tl, x, y, y_id);
+    for _ in 0..60 {
+        let T = 0.5 * (Tl + Tr);
+        if (Tx2y_residuals(T, x, y, y_id) < 0.0) == (fl < 0.0) {
+            Tl = T;
+        } else {
             Tr = T;
-            fr = f;
+        }
+    }
+    0.5 * (Tl + Tr)
+}
+
+/// The lowest T of the wet steam (y,x); y(T,x) is not monotonic,so the root is bracketed firstly
+///   * return INVALID_VALUE: no wet steam of x has the value y
+fn yx2T_reg4(x: f64, y: f64, y_id: i32) -> f64 {
+    const N: i32 = 100;
+    let node = |i: i32| -> f64 {
+        if i < N {
+            T_MIN4 + (T_MAX4 - T_MIN4) * (i as f64) / (N as f64)
         } else {
-            // move left bound info to mid
-            Tl = T;
-            fl = f;
+            T_MAX4
         }
+    };
+    let f = |T: f64| -> f64 { Tx2y_residuals(T, x, y, y_id) };
+
+    let mut f0: f64 = f(node(0));
+    let mut f1: f64 = f0;
+    for i in 1..=N {
+        let f2: f64 = f(node(i));
+        if f1 == 0.0 {
+            return node(i - 1);
+        }
+        // the extremum nearest to y is inside two intervals: look for the change of sign there
+        if f0 * f1 > 0.0 && f1 * f2 > 0.0 && f1.abs() <= f0.abs() && f1.abs() <= f2.abs() {
+            let mut a: f64 = node(if i > 1 { i - 2 } else { 0 });
+            let mut b: f64 = node(i);
+            let mut T: f64 = a;
+            for _ in 0..60 {
+                let d: f64 = (b - a) / 3.0;
+                if f(a + d).abs() > f(b - d).abs() {
+                    a += d;
+                    T = b - d;
+                } else {
+                    b -= d;
+                    T = a + d;
+                }
+                if f(T) * f1 <= 0.0 {
+                    return bisection_reg4(x, y, y_id, node(if i > 1 { i - 2 } else { 0 }), T);
+                }
+            }
+        }
+        if f1 * f2 <= 0.0 {
+            return bisection_reg4(x, y, y_id, node(i - 1), node(i));
+        }
+        f0 = f1;
+        f1 = f2;
     }
-    T
+    INVALID_VALUE as f64
 }
 
 /// (h,x,o_id)
 pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, h, OH, Tl, Tr, 0.00001, 1000);
+    let T: f64 = yx2T_reg4(x, h, OH);
+    if T < T_MIN4 {
+        return INVALID_VALUE as f64;
+    }
     if o_id == OT {
         return T - 273.15;
     };
@@ -166,9 +196,10 @@ pub fn hx_reg4(h: f64, x: f64, o_id: i32) -> f64 {
 
 /// (s,x,o_id)
 pub fn sx_reg4(s: f64, x: f64, o_id: i32) -> f64 {
-    let mut Tl: f64 = T_MIN4;
-    let mut Tr: f64 = T_MAX4;
-    let T: f64 = bisection_reg4(x, s, OS, Tl, Tr, 0.00001, 1000);
+    let T: f64 = yx2T_reg4(x, s, OS);
+    if T < T_MIN4 {
+        return INVALID_VALUE as f64;
+    }
     if o_id == OT {
         return T - 273.15;
     };
-- 
2.43.0


From 009017021cefb7306144c2475f354611c0723579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 17/33] fix: published minimum entropy of the boundary between
 regions 2 and 3 in (h,s)

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index c1df77f..036706e 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -315,7 +315,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         }
     };
 
-    if SC_WATER < s && s < 5.049096828 {
+    if SC_WATER < s && s < 5.048096828 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
         v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
@@ -329,7 +329,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         }
     };
 
-    if 5.049096828 <= s && s < 5.260578707 {
+    if 5.048096828 <= s && s < 5.260578707 {
         // Specific zone with 2-3 boundary in s shape
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-- 
2.43.0


From cec88d9c007a816c9d4556c78266ad46be90a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 18/33] fix: the minimum pressure itself is in region 2 at T <=
 623.15 K too

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 036706e..7fdda2f 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -61,7 +61,7 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
         if p >= p_saturation(T) && p <= 100.0 {
             return 1;
         }
-        if p < p_saturation(T) && p > P_MIN {
+        if p < p_saturation(T) && p >= P_MIN {
             return 2;
         }
     };
-- 
2.43.0


From e6fc8c1cb534e85a5d2e3c9d9eabbd58d7538220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 19/33] fix: regions of (p,v) from the minimum pressure itself
 upwards

---
 src/common/region.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 7fdda2f..643ecd8 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -443,7 +443,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vt623: f64 = 0.0;
     let mut vB23: f64 = 0.0;
 
-    if (p > 0.000611213) && (p <= P_MIN3) {
+    if (p >= P_MIN4) && (p <= P_MIN3) {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
@@ -472,10 +472,10 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 3;
     };
-    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
-    if (p > P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
+    if (p >= P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
         return 5;
     };
     INVALID_VALUE
-- 
2.43.0


From 6797f8adba2d2468bc7ac7ef8b36ab3483c36389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 20/33] fix: the highest enthalpy of saturated steam, at
 508.443 K

---
 src/common/constant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/constant.rs b/src/common/constant.rs
index 008743a..ae333be 100644
--- a/src/common/constant.rs
+++ b/src/common/constant.rs
@@ -72,7 +72,7 @@ pub const T_MAX4: f64 = 647.096;
 pub const T_MIN4: f64 = 273.15;
 pub const P_MAX4: f64 = 22.064;
 pub const P_MIN4: f64 = 0.000611212677444;
-pub const H_MAX4: f64 = 2803.28525038; // 508.38 K, x=1
+pub const H_MAX4: f64 = 2803.285256; // 508.443 K, x=1
 pub const H_MIN4: f64 = -0.041587826; // 273.15 K, x=0
 pub const S_MAX4: f64 = 9.1557593953; // 273.15 K, x=1
 pub const S_MIN4: f64 = -1.545496e-04; // 273.15 K, x=0
-- 
2.43.0


From 003d7f3babf8767ea1c9e1c62246e54c4c97187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:29 +0000
Subject: [PATCH 21/33] fix: refuse (h,s) outside the range of validity instead
 of extrapolating

---
 src/common/region.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 643ecd8..8778976 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_p_hs::*;
 use crate::r1::region1_pair_ext::*;
 
 use crate::r2::region2_T_ps::*;
@@ -266,7 +267,14 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
-        if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
+        // p and T are limited to region 5: outside it,they do not give (h,s)
+        if 1073.15 < T
+            && T <= 2273.15
+            && P_MIN <= p
+            && p <= 50.0
+            && (pT2h_reg5(p, T) - h).abs() < 1.0E-4
+            && (pT2s_reg5(p, T) - s).abs() < 1.0E-6
+        {
             return 5;
         }
     };
@@ -275,6 +283,14 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hs = hs_region_h1_s(s);
         T = ps2T_reg1(100.0, s) - 0.0218;
         hmax = pT2h_reg1(100.0, T);
+        if s < s4l {
+            // compressed water only,T(p,h) is published to 25 mK
+            p = hs2p_reg1(h, s);
+            if p >= P_MIN && h <= hmax && ph2T_reg1(p, h) >= 273.15 - 0.025 {
+                return 1;
+            }
+            return INVALID_VALUE;
+        }
         if hmin <= h && h < hs {
             return 4;
         }
@@ -350,9 +366,14 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             //hs2p_reg2c r2::region2_p_hs
             {
                 return 2;
-            } else {
+            }
+            // region 3 up to 100 MPa
+            v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
+            T = ps2T_reg3(100.0, s) - 0.0248;
+            if h <= Td2h_reg3(T, 1.0 / v) {
                 return 3;
             }
+            return INVALID_VALUE;
         }
 
         if h23max <= h && h <= hmax {
@@ -394,7 +415,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        // 0.02 MPa: p(h,s) near 100 MPa is an approximation
+        if hs <= h && h <= hmax && p <= P_MAX2 + 0.02 {
             return 2;
         }
     };
@@ -407,7 +429,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        // 0.02 MPa: p(h,s) near 100 MPa is an approximation
+        if hs <= h && h <= hmax && p <= P_MAX2 + 0.02 {
             return 2;
         }
     }
-- 
2.43.0


From fcf10ba660270b28875389998d4e218b41b70137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:02 +0000
Subject: [PATCH 22/33] fix: (T,v) (T,h) (T,s)->p in region 2 converge for
 every state

---
 src/r2/region2_pair_ext.rs | 177 +++++++------------------------------
 1 file changed, 31 insertions(+), 146 deletions(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 57bc85c..42bce02 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -97,177 +97,62 @@ pub fn pv2T_reg2(p: f64, v: f64) -> f64 {
     T
 }
 
-/// Region 2  (T,v)->p using the secant method
+/// Region 2  (T,v)->p
 ///      T: temperature  K
 ///      p: pressure  Map
 //       v: specific volume m^3/kg
 pub fn Tv2p_reg2(T: f64, v: f64) -> f64 {
+    // v falls with p: bisection between the bounds of the region, in ln(p)
     let mut p1: f64 = P_MIN2;
-
-    let mut v1: f64 = pT2v_reg2(p1, T);
-    if (v - v1).abs() < ESP {
-        return p1;
-    }
-
-    let stepa: f64 = 1.0;
-    let stepm: f64 = 5.0;
-    let mut p: f64 = 0.0;
-    let mut p2: f64 = p1 * stepm;
-    let mut v2: f64 = pT2v_reg2(p2, T);
-    if (v - v2).abs() < ESP {
-        return p2;
-    }
-
-    let mut bounded: bool = false;
-    if (v > v2) && (v < v1) {
-        bounded = true;
-    }
-
-    let pmax2: f64 = T2pmax_reg2(T);
-    while !bounded {
-        p1 = p2;
-        v1 = v2;
-        if p1 > 1.0 {
-            p2 = p1 + stepa;
-        }
-        if p1 < 1.0 {
-            p2 = p1 * stepm;
-        }
-        if p2 >= pmax2 {
-            p2 = pmax2;
-            bounded = true;
-        }
-        v2 = pT2v_reg2(p2, T);
-        if (v - v2).abs() < ESP {
-            return p2;
-        }
-        if (v > v2) && (v < v1) {
-            bounded = true;
+    let mut p2: f64 = T2pmax_reg2(T);
+    let mut p: f64 = p1;
+    for _ in 0..60 {
+        p = (p1 * p2).sqrt();
+        if pT2v_reg2(p, T) > v {
+            p1 = p;
+        } else {
+            p2 = p;
         }
     }
-
-    let f2: f64 = v - v2;
-    let pmid: f64 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
-    if v < pT2v_reg2(pmid, T) {
-        p1 = pmid;
-    }
-    if p1 < P_MIN2 {
-        p1 = P_MIN2;
-    }
-    let f1: f64 = v - pT2v_reg2(p1, T);
-    if f1.abs() < ESP {
-        return p1;
-    }
-
-    let mut p: f64 = rtsec1(pT2v_reg2, T, v, p1, p2, f1, f2, ESP, I_MAX);
-    if p < P_MIN2 {
-        p = P_MIN2;
-    } else if p > pmax2 {
-        p = pmax2;
-    }
     p
 }
 
-/// Region 2  (T,h)->p using the secant method
+/// Region 2  (T,h)->p
 ///      T: temperature  K
 ///      h: specific enthalpy kJ/kg
 ///      p: pressure  Map
 pub fn Th2p_reg2(T: f64, h: f64) -> f64 {
-    let pmax2: f64 = T2pmax_reg2(T);
+    // h falls with p: bisection between the bounds of the region, in ln(p)
     let mut p1: f64 = P_MIN2;
-    let mut p2: f64 = pmax2;
-    let stepa: f64 = 1.0;
-    let stepm: f64 = 5.0;
-    let mut h1: f64 = pT2h_reg2(p1, T);
-    if (h - h1).abs() < ESP {
-        return p1;
-    }
-
-    let mut p2: f64 = p1 * stepm;
-    let mut h2: f64 = pT2h_reg2(p2, T);
-    if (h - h2).abs() < ESP {
-        return p2;
-    }
-
-    let mut bounded: bool = false;
-    if (h > h2) && (h < h1) {
-        bounded = true;
-    }
-
-    while !bounded {
-        p1 = p2;
-        h1 = h2;
-        if p1 > 1.0 {
-            p2 = p1 + stepa;
-        }
-        if p1 < 1.0 {
-            p2 = p1 * stepm;
-        }
-        if p2 >= pmax2 {
-            p2 = pmax2;
-            bounded = true;
-        }
-        h2 = pT2h_reg2(p2, T);
-        if (h - h2).abs() < ESP {
-            return p2;
-        }
-        if (h > h2) && (h < h1) {
-            bounded = true;
+    let mut p2: f64 = T2pmax_reg2(T);
+    let mut p: f64 = p1;
+    for _ in 0..60 {
+        p = (p1 * p2).sqrt();
+        if pT2h_reg2(p, T) > h {
+            p1 = p;
+        } else {
+            p2 = p;
         }
     }
-
-    let f2: f64 = h - h2;
-    let mut pmid: f64 = p2 - (p2 - p1) * (h - h2) / (h1 - h2);
-    if pmid < P_MIN2 {
-        pmid = P_MIN2;
-    };
-    h1 = pT2h_reg2(pmid, T);
-    if h <= pT2h_reg2(pmid, T) {
-        p1 = pmid;
-    }
-    h1 = pT2h_reg2(p1, T);
-    let f1: f64 = h - h1;
-    if f1.abs() < ESP {
-        return p1;
-    }
-
-    let mut p: f64 = rtsec1(pT2h_reg2, T, h, p1, p2, f1, f2, ESP, I_MAX);
-    if p < P_MIN2 {
-        p = P_MIN2;
-    }
-    if p > pmax2 {
-        p = pmax2;
-    }
     p
 }
 
-/// Region 2  (T,s)->p using the secant method
+/// Region 2  (T,s)->p
 ///  * T: temperature  K
 ///  * s: specific entropy  kJ/(kg K)
 ///  * p: pressure  Map
 pub fn Ts2p_reg2(T: f64, s: f64) -> f64 {
-    let pmax2: f64 = T2pmax_reg2(T);
-
+    // s falls with p: bisection between the bounds of the region, in ln(p)
     let mut p1: f64 = P_MIN2;
-    let mut s1: f64 = pT2s_reg2(p1, T);
-    let mut f1: f64 = s - s1;
-    let p2: f64 = pmax2;
-    let s2: f64 = pT2s_reg2(p2, T);
-    let f2: f64 = s - s2;
-    p1 = p2 - (p2 - p1) * (s - s2) / (s1 - s2);
-    if p1 < P_MIN2 {
-        p1 = P_MIN2;
-    }
-    s1 = pT2s_reg2(p1, T);
-    f1 = s - s1;
-    if f1.abs() < ESP {
-        return p1;
-    }
-    let mut p: f64 = rtsec1(pT2s_reg2, T, s, p1, p2, f1, f2, ESP, I_MAX);
-    if p < P_MIN2 {
-        p = P_MIN2;
-    } else if p > pmax2 {
-        p = pmax2;
+    let mut p2: f64 = T2pmax_reg2(T);
+    let mut p: f64 = p1;
+    for _ in 0..60 {
+        p = (p1 * p2).sqrt();
+        if pT2s_reg2(p, T) > s {
+            p1 = p;
+        } else {
+            p2 = p;
+        }
     }
     p
 }
-- 
2.43.0


From 5479ec20fdf0a4e5575c0be4988ca4690da2b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:01 +0000
Subject: [PATCH 23/33] fix: (p,t) on the saturation line returned 4.0 for
 every property

---
 src/r4/region4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index cd5af93..aaed4c7 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -21,7 +21,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
     if T == TC_WATER && p == PC_WATER {
         return Td_reg3(TC_WATER, DC_WATER, o_id);
     } else {
-        return 4.0 as f64;
+        return INVALID_PT as f64; // (p,T) does not determine the state on the saturation line
     }
 }
 
-- 
2.43.0


From a137d43698b6daa49ea75ce2f56be1d953e5c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 24/33] fix: a region number outside 1..5 was returned as the
 property

---
 src/common/propertry_pairs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 3919268..ab3e773 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -114,6 +114,8 @@ pub fn pair_properties(
     let mut sub_region: i32 = reg;
     if reg == REGION_NONE {
         sub_region = fr(v1, v2)
+    } else if reg < 1 || reg > 5 {
+        return INVALID_VALUE as f64; // no such region
     }
     if o_id == OR {
         return sub_region as f64;
-- 
2.43.0


From cf01dad1db77ad269131478eaafdbf9893ecd868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 25/33] fix: (p,v) (t,v) (t,h) (t,s) at the critical point
 returned infinite or NaN properties

---
 src/common/region.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 8778976..8469543 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -474,7 +474,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         vt623 = pT2v_reg1(p, 623.15);
         T1 = B23_p2T(p);
         vB23 = pT2v_reg2(p, T1); //
-        if p <= PC_WATER {
+        if p <= PC_WATER - FLOAT_ERROR {
             T1 = T_saturation(p);
             vsw = pT2v_sat_reg3(p, T1, 0.0);
             vss = pT2v_sat_reg3(p, T1, 1.0);
@@ -490,12 +490,12 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 2;
     };
-    if ((p > P_MIN3) && (p <= PC_WATER) && (((v > vt623) && (v < vsw)) || ((v > vss) && (v < vB23))))
-        || ((p > PC_WATER) && (p <= P_MAX3) && (v > vt623) && (v < vB23))
+    if ((p > P_MIN3) && (p <= PC_WATER - FLOAT_ERROR) && (((v > vt623) && (v < vsw)) || ((v > vss) && (v < vB23))))
+        || ((p > PC_WATER - FLOAT_ERROR) && (p <= P_MAX3) && (v > vt623) && (v < vB23))
     {
         return 3;
     };
-    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p <= PC_WATER - FLOAT_ERROR) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
     if (p >= P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
@@ -547,7 +547,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         p1 = B23_T2p(T);
         vB23 = pT2v_reg2(p1, T); //
-        if T <= TC_WATER {
+        if T <= TC_WATER - FLOAT_ERROR {
             p1 = p_saturation(T);
             vsw = pT2v_sat_reg3(p1, T, 0.0);
             vss = pT2v_sat_reg3(p1, T, 1.0);
@@ -564,13 +564,13 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     {
         return 2;
     };
-    if ((T > T_MIN3) && (T <= TC_WATER) && (((v > vss) && (v < vB23)) || ((v >= vp100) && (v < vsw))))
-        || ((T > TC_WATER) && (T <= T_MAX3) && (v >= vp100) && (v < vB23))
+    if ((T > T_MIN3) && (T <= TC_WATER - FLOAT_ERROR) && (((v > vss) && (v < vB23)) || ((v >= vp100) && (v < vsw))))
+        || ((T > TC_WATER - FLOAT_ERROR) && (T <= T_MAX3) && (v >= vp100) && (v < vB23))
     {
         return 3;
     };
 
-    if (T >= T_MIN1) && (T <= TC_WATER) && (v >= vsw) && (v <= vss) {
+    if (T >= T_MIN1) && (T <= TC_WATER - FLOAT_ERROR) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::Tv2x_reg4
     };
 
@@ -618,7 +618,7 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         p1 = B23_T2p(T);
         hB23 = pT2h_reg2(p1, T);
-        if T <= TC_WATER {
+        if T <= TC_WATER - FLOAT_ERROR {
             p1 = p_saturation(T);
             let mut v: f64 = pT2v_sat_reg3(p1, T, 0.0);
             hsw = Td2h_reg3(T, 1.0 / v);
@@ -649,14 +649,14 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
         return 2;
     };
-    if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
-        || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
+    if (T > T_MIN3) && (T <= TC_WATER - FLOAT_ERROR) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
+        || ((T > TC_WATER - FLOAT_ERROR) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
         return 3;
     };
 
     //  (t,h)
-    if (T >= T_MIN1) && (T <= TC_WATER) && (h >= hsw) && (h <= hss) {
+    if (T >= T_MIN1) && (T <= TC_WATER - FLOAT_ERROR) && (h >= hsw) && (h <= hss) {
         return 4;
     };
 
@@ -713,7 +713,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         p1 = B23_T2p(T);
         sB23 = pT2s_reg2(p1, T); //
-        if T <= TC_WATER {
+        if T <= TC_WATER - FLOAT_ERROR {
             p1 = p_saturation(T);
             let mut v: f64 = pT2v_sat_reg3(p1, T, 0.0);
             ssw = Td2s_reg3(T, 1.0 / v);
@@ -731,12 +731,12 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     {
         return 2;
     };
-    if ((T > T_MIN3) && (T <= TC_WATER) && (((s > sss) && (s < sB23)) || ((s >= sp100) && (s < ssw))))
-        || ((T > TC_WATER) && (T <= T_MAX3) && (s >= sp100) && (s < sB23))
+    if ((T > T_MIN3) && (T <= TC_WATER - FLOAT_ERROR) && (((s > sss) && (s < sB23)) || ((s >= sp100) && (s < ssw))))
+        || ((T > TC_WATER - FLOAT_ERROR) && (T <= T_MAX3) && (s >= sp100) && (s < sB23))
     {
         return 3;
     };
-    if (T >= T_MIN1) && (T <= TC_WATER) && (s >= ssw) && (s <= sss) {
+    if (T >= T_MIN1) && (T <= TC_WATER - FLOAT_ERROR) && (s >= ssw) && (s <= sss) {
         return 4;
     };
     if (T > T_MIN5) && (T <= T_MAX5) && (s >= sp50) && (s <= spmax5) {
-- 
2.43.0


From 0511a3d8a2372f5491a37700fded43bc505f6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 26/33] fix: (h,s) boundaries answer at the rounded ends of
 their published ranges

---
 src/common/boundaries.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index 0054398..e42d35b 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -7,6 +7,11 @@ use crate::common::constant::*;
 use crate::r1::region1_pT::*;
 use crate::r2::region2_pT::*;
 
+/// the published entropy limits of the (h,s) boundaries are rounded to 10 digits
+const S_ROUND: f64 = 1.0e-9;
+/// and those of their enthalpies
+const H_ROUND: f64 = 1.0e-6;
+
 /// IF97-rev Boundary between Regions 2 and 3
 ///  * T in K
 ///  * return: p between regions 2 and 3 in MPa
@@ -125,7 +130,7 @@ pub fn hs_region_h1_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < -1.545495919e-4 || s > 3.77828134 {
+    if s < -1.545495919e-4 - S_ROUND || s > 3.77828134 + S_ROUND {
         return INVALID_S as f64;
     }
 
@@ -159,7 +164,7 @@ pub fn hs_region_h3a_s(s: f64) -> f64 {
         (32, 6, 0.631052532240980E+0),
     ];
     // Check input parameters
-    if s < 3.77828134 || s > SC_WATER {
+    if s < 3.77828134 - S_ROUND || s > SC_WATER {
         return INVALID_S as f64;
     }
 
@@ -205,7 +210,7 @@ pub fn hs_region_h2ab_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < 5.85 || s > 9.155759395 {
+    if s < 5.85 || s > 9.155759395 + S_ROUND {
         return INVALID_S as f64;
     }
 
@@ -259,7 +264,7 @@ pub fn hs_region_h13_s(s: f64) -> f64 {
         (6, -3, -0.690815545851641E+02),
     ];
 
-    if s < 3.397782955 || s > 3.77828134 {
+    if s < 3.397782955 - S_ROUND || s > 3.77828134 + S_ROUND {
         return INVALID_S as f64;
     };
 
@@ -300,7 +305,7 @@ pub fn hs_region_t_hs(h: f64, s: f64) -> f64 // _t23_hs(h, s)
         (14, 1, 0.783237062349385E+07),
     ];
     // Check input parameters
-    if s < 5.048096828 || s > 5.260578707 || h < 2.563592004e3 || h > 2.812942061e3 {
+    if s < 5.048096828 || s > 5.260578707 || h < 2.563592004e3 - H_ROUND || h > 2.812942061e3 + H_ROUND {
         return INVALID_HS as f64;
     }
 
-- 
2.43.0


From 1fa05dcc1fc708f851faf83e144861cc295738e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 27/33] fix: (h,s) of wet steam at 273.15 K gives the state,
 not the error value

---
 src/r4/region4.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index aaed4c7..b74c59e 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -48,7 +48,11 @@ pub fn ps_reg4(p: f64, s: f64, o_id: i32) -> f64 {
 
 pub fn hs_reg4(h: f64, s: f64, o_id: i32) -> f64 {
     // for T<623.15 only
-    let T: f64 = hs2T_reg4(h, s);
+    let mut T: f64 = hs2T_reg4(h, s);
+    // at 273.15 K the T(h,s) may miss the end of the line by its tolerance
+    if T < T_MIN4 && T > T_MIN4 - 0.001 {
+        T = T_MIN4;
+    }
     if o_id == OT {
         return T - K;
     }
-- 
2.43.0


From 33fb77f1a26e6e1e473a36f519a3a7a16cfb24db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 28/33] fix: T(h,s) of wet steam next to the saturated steam of
 623.15 K is not infinite

---
 src/r4/region4_T_hs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 08c790c..a6b3ea2 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -80,7 +80,8 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     // upper bound of p: where the enthalpy of the saturated liquid or steam is h
     let mut p_High_Bound: f64 = Ps_623;
     if h > pT2h_reg1(Ps_623, 623.15) {
-        p_High_Bound = h2p_sat_reg3(h);
+        // the line ends at the saturated steam of 623.15 K
+        p_High_Bound = h2p_sat_reg3(h.min(pT2h_reg2(Ps_623, 623.15)));
     } else {
         let mut p_Low_Bound: f64 = P_MIN;
         for _ in 0..100 {
-- 
2.43.0


From 9942f56e4ce6835b7166f03c303d6bc8dd93e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 29/33] fix: T(p,v) in region 2 stops at a relative tolerance
 for large volumes

---
 src/r2/region2_pair_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r2/region2_pair_ext.rs b/src/r2/region2_pair_ext.rs
index 42bce02..0c21540 100644
--- a/src/r2/region2_pair_ext.rs
+++ b/src/r2/region2_pair_ext.rs
@@ -72,7 +72,8 @@ pub fn pv2T_reg2(p: f64, v: f64) -> f64 {
     let mut steps: i32 = 0;
     let MAX_STEPS: i32 = 1000;
     let mut success: bool = true;
-    if (v0 - v).abs() > ESP {
+    // relative to v: at low pressures v is large and T converged all the same
+    if (v0 - v).abs() > ESP * v.max(1.0) {
         success = false;
     }
 
-- 
2.43.0


From 60fe01d972363fd609556633e352e316e20de010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 30/33] fix: (p,v) below the triple-point pressure is region 2
 only for its volumes

---
 src/common/region.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 8469543..9cdbe09 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -485,7 +485,8 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 1;
     };
-    if ((p >= P_MIN2) && (p <= P_MIN3) && (v > vss) && (v <= vt1073))
+    if ((p >= P_MIN2) && (p < P_MIN4) && (v >= pT2v_reg2(p, T_MIN2)) && (v <= vt1073))
+        || ((p >= P_MIN4) && (p <= P_MIN3) && (v > vss) && (v <= vt1073))
         || ((p > P_MIN3) && (p <= P_MAX2) && (v >= vB23) && (v <= vt1073))
     {
         return 2;
-- 
2.43.0


From 8d82c4597f9fbc29d21e2620d0d39be9d8cbb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:27 +0000
Subject: [PATCH 31/33] fix: the equation of region 2 named for T=1080 K gave
 NaN

---
 src/r2/region2_gfe.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/r2/region2_gfe.rs b/src/r2/region2_gfe.rs
index 1da54de..10c9d99 100644
--- a/src/r2/region2_gfe.rs
+++ b/src/r2/region2_gfe.rs
@@ -116,10 +116,20 @@ pub fn gamma0_pitau_reg2() -> f64 {
     0.0
 }
 
+/// tau - 0.5,but not 0 at T=1080 K: the derivatives divide by it
+fn tau_shift(tau: f64) -> f64 {
+    let d: f64 = tau - 0.5;
+    if d == 0.0 {
+        f64::EPSILON
+    } else {
+        d
+    }
+}
+
 //   Eq(17), Page 13   Residual part of fundamental equation for region 2
 pub fn gammar_reg2(pi: f64, tau: f64) -> f64 {
     let steps: [(usize, usize); 3] = [(0, 19), (19, 38), (38, 43)];
-    poly_powi_steps(pi, tau - 0.5, &IJn, &steps)
+    poly_powi_steps(pi, tau_shift(tau), &IJn, &steps)
 }
 
 /// First derivative in pi of residual part of fundamental equation for region 2
@@ -127,50 +137,50 @@ pub fn gammar_pi_reg2(pi: f64, tau: f64) -> f64 {
     let mut result: f64 = 0.0;
     let tau1: f64 = tau - 0.5;
     let steps: [(usize, usize); 3] = [(0, 16), (16, 32), (32, 43)];
-    poly_i_powi_steps(pi, tau - 0.5, &IJn, &steps)
+    poly_i_powi_steps(pi, tau_shift(tau), &IJn, &steps)
 }
 
 /// Second derivative in pi of residual part of fundamental equation for region 2
 pub fn gammar_pipi_reg2(pi: f64, tau: f64) -> f64 {
     let steps: [(usize, usize); 3] = [(0, 13), (13, 26), (26, 43)];
-    poly_ii_powi_steps(pi, tau - 0.5, &IJn, &steps)
+    poly_ii_powi_steps(pi, tau_shift(tau), &IJn, &steps)
 }
 
 /// First derivative in tau of residual part of fundamental equation for region 2
 pub fn gammar_tau_reg2(pi: f64, tau: f64) -> f64 {
     let steps: [(usize, usize); 3] = [(0, 13), (13, 26), (26, 43)];
-    poly_j_powi_steps(pi, tau - 0.5, &IJn, &steps)
+    poly_j_powi_steps(pi, tau_shift(tau), &IJn, &steps)
 }
 
 /// Second derivative in tau of residual part of fundamental equation for region 2
 pub fn gammar_tautau_reg2(pi: f64, tau: f64) -> f64 {
     let steps: [(usize, usize); 3] = [(0, 13), (13, 26), (26, 43)];
-    poly_jj_powi_steps(pi, tau - 0.5, &IJn, &steps)
+    poly_jj_powi_steps(pi, tau_shift(tau), &IJn, &steps)
 }
 
 /// Second derivative in pi and tau of residual part of fundamental equation for region 2
 pub fn gammar_pitau_reg2(pi: f64, tau: f64) -> f64 {
     let steps: [(usize, usize); 3] = [(0, 13), (13, 26), (26, 43)];
-    poly_ij_powi_steps(pi, tau - 0.5, &IJn, &steps)
+    poly_ij_powi_steps(pi, tau_shift(tau), &IJn, &steps)
 }
 
 // -----------multiple ----------------------------
 
 pub fn polys_0_j_powi_reg2(pi: f64, tau: f64) -> (f64, f64) {
     let steps: [(usize, usize); 3] = [(0, 13), (13, 26), (26, 43)];
-    let (gammar, gammar_tau) = polys_0_j_powi_steps(pi, tau - 0.5, &IJn, &steps);
+    let (gammar, gammar_tau) = polys_0_j_powi_steps(pi, tau_shift(tau), &IJn, &steps);
     (gammar, gammar_tau)
 }
 
 pub fn polys_i_j_powi_reg2(pi: f64, tau: f64) -> (f64, f64) {
     let steps: [(usize, usize); 3] = [(0, 13), (13, 26), (26, 43)];
-    let (gammar, gammar_tau) = polys_i_j_powi_steps(pi, tau - 0.5, &IJn, &steps);
+    let (gammar, gammar_tau) = polys_i_j_powi_steps(pi, tau_shift(tau), &IJn, &steps);
     (gammar, gammar_tau)
 }
 
 pub fn polys_i_ii_ij_jj_powi_reg2(pi: f64, tau: f64) -> (f64, f64, f64, f64) {
     let steps: [(usize, usize); 4] = [(0, 11), (11, 22), (22, 33), (33, 43)];
     let (gammar_pi, gammar_pipi, gammar_pitau, gammar_tautau) =
-        polys_i_ii_ij_jj_powi_steps(pi, tau - 0.5, &IJn, &steps);
+        polys_i_ii_ij_jj_powi_steps(pi, tau_shift(tau), &IJn, &steps);
     (gammar_pi, gammar_pipi, gammar_pitau, gammar_tautau)
 }
-- 
2.43.0


From 0d16810ea78e7333c8708f8854bf92cc9efc656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:41 +0000
Subject: [PATCH 32/33] fix: states on the edges of the range (100 MPa, 800 and
 2000 degC, ...) were refused by (h,s) and other pairs

---
 src/common/constant.rs     |   5 ++
 src/common/region.rs       | 111 +++++++++++++++++++------------------
 src/r1/region1_pair_ext.rs |   2 +-
 3 files changed, 64 insertions(+), 54 deletions(-)

diff --git a/src/common/constant.rs b/src/common/constant.rs
index ae333be..acb4894 100644
--- a/src/common/constant.rs
+++ b/src/common/constant.rs
@@ -84,3 +84,8 @@ pub const T_MAX5: f64 = 2273.15;
 pub const T_MIN5: f64 = 1073.15;
 pub const P_MAX5: f64 = 50.0;
 pub const P_MIN5: f64 = 0.000611212677444;
+
+/// rounding of h,kJ/kg and s,kJ/(kg K) and (relative) of v,where the bounds of the range are computed
+pub const hRound: f64 = 1.0E-9;
+pub const sRound: f64 = 1.0E-12;
+pub const vRound: f64 = 1.0E-12;
diff --git a/src/common/region.rs b/src/common/region.rs
index 9cdbe09..fa0f4dd 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -90,8 +90,8 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
 /// Pmin -> Ps_623-> Pc-> 100MP ，3 range to check region
 ///  in each sub region use(hmin, hmax) to chack region
 pub fn ph_sub_region(p: f64, h: f64) -> i32 {
-    let hmin: f64 = pT2h_reg1(p, 273.15);
-    let hmax: f64 = pT2h_reg5(p, 2273.15);
+    let hmin: f64 = pT2h_reg1(p, 273.15) - hRound;
+    let hmax: f64 = pT2h_reg5(p, 2273.15) + hRound;
 
     if P_MIN <= p && p <= Ps_623
     // Ps_623
@@ -141,7 +141,7 @@ pub fn ph_sub_region(p: f64, h: f64) -> i32 {
     if PC_WATER <= p && p <= 100.0 {
         let h13: f64 = pT2h_reg1(p, 623.15);
         let h32: f64 = pT2h_reg2(p, B23_p2T(p));
-        let h25: f64 = pT2h_reg2(p, 1073.15);
+        let h25: f64 = pT2h_reg2(p, 1073.15) + hRound;
 
         if hmin <= h && h <= h13 {
             return 1;
@@ -162,8 +162,8 @@ pub fn ph_sub_region(p: f64, h: f64) -> i32 {
 /// Pmin -> Ps_623-> Pc-> 100MP ，3 range to check region
 ///  in each sub region use(smin ,smax) to chack region
 pub fn ps_sub_region(p: f64, s: f64) -> i32 {
-    let smin: f64 = pT2s_reg1(p, 273.15);
-    let smax: f64 = pT2s_reg5(p, 2273.15);
+    let smin: f64 = pT2s_reg1(p, 273.15) - sRound;
+    let smax: f64 = pT2s_reg5(p, 2273.15) + sRound;
 
     // 1. First Range: [P_MIN ,Ps_623]
     if P_MIN <= p && p <= Ps_623 {
@@ -214,7 +214,7 @@ pub fn ps_sub_region(p: f64, s: f64) -> i32 {
     if PC_WATER <= p && p <= 100.0 {
         let s13: f64 = pT2s_reg1(p, 623.15);
         let s32: f64 = pT2s_reg2(p, B23_p2T(p));
-        let s25: f64 = pT2s_reg2(p, 1073.15);
+        let s25: f64 = pT2s_reg2(p, 1073.15) + sRound;
         if smin <= s && s <= s13 {
             return 1;
         }
@@ -232,43 +232,53 @@ pub fn ps_sub_region(p: f64, s: f64) -> i32 {
     INVALID_VALUE
 }
 
+/// Region 3: h at 100 MPa and s
+fn hmax_reg3(s: f64) -> f64 {
+    let T: f64 = ps2T_reg3(100.0, s);
+    let v: f64 = ps2v_reg3(100.0, s);
+    let d: f64 = 1.0 / v;
+    Td2h_reg3(T, d) + T * (s - Td2s_reg3(T, d)) + 1000.0 * v * (100.0 - Td2p_reg3(T, d))
+}
+
 ///  region 1,2,3,4 (smin ->smax), region 5
 pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     let mut T: f64 = 0.0;
     let mut p: f64 = 0.0;
-    let mut v: f64 = 0.0;
     let mut hs: f64 = 0.0;
+    // the upper bound of h is the isobar of 100 MPa: T(p,s) and v(p,s) are corrected by dh=Tds+vdp
+    // hTol: the equations of two regions differ by a little at their common boundary
+    const hTol: f64 = 1.0E-2;
     let s13: f64 = pT2s_reg1(100.0, 623.15);
     let s13s: f64 = pT2s_reg1(Ps_623, 623.15);
     let sTPmax: f64 = pT2s_reg2(100.0, 1073.15);
     let s2ab: f64 = pT2s_reg2(4.0, 1073.15); // TODO： p=4 2ab s2ab
 
     // Left point in h-s plot
-    let mut smin: f64 = pT2s_reg1(100.0, 273.15);
+    let mut smin: f64 = pT2s_reg1(100.0, 273.15) - sRound;
     let mut hmin: f64 = pT2h_reg1(P_MIN, 273.15);
 
     // Right point in h-s plot
     let mut hmax: f64 = pT2h_reg2(P_MIN, 1073.15);
-    let mut smax: f64 = pT2s_reg2(P_MIN, 1073.15);
+    let mut smax: f64 = pT2s_reg2(P_MIN, 1073.15) + sRound;
 
     // Region 4 left and right point
-    let h4l: f64 = pT2h_reg1(P_MIN, 273.15);
+    let h4l: f64 = pT2h_reg1(P_MIN, 273.15) - hRound;
     let s4l: f64 = pT2s_reg1(P_MIN, 273.15);
 
-    let h4v: f64 = pT2h_reg2(P_MIN, 273.15);
+    let h4v: f64 = pT2h_reg2(P_MIN, 273.15) - hRound;
     let s4v: f64 = pT2s_reg2(P_MIN, 273.15);
 
     // !!!! Check region 5 MUST On TOP !!!
     // if （s4v <= s && s<= smax） (h,s)may be setup to error region2
     if pT2s_reg5(50.0, 1073.15) < s
-        && s <= pT2s_reg5(P_MIN, 2273.15)
+        && s <= pT2s_reg5(P_MIN, 2273.15) + sRound
         && pT2h_reg5(50.0, 1073.15) < h
-        && h <= pT2h_reg5(P_MIN, 2273.15)
+        && h <= pT2h_reg5(P_MIN, 2273.15) + hRound
     {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
         // p and T are limited to region 5: outside it,they do not give (h,s)
-        if 1073.15 < T
+        if 1073.15 <= T
             && T <= 2273.15
             && P_MIN <= p
             && p <= 50.0
@@ -281,8 +291,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if smin <= s && s <= s13 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h1_s(s);
-        T = ps2T_reg1(100.0, s) - 0.0218;
-        hmax = pT2h_reg1(100.0, T);
+        T = ps2T_reg1(100.0, s);
+        hmax = pT2h_reg1(100.0, T) + T * (s - pT2s_reg1(100.0, T)) + hTol;
         if s < s4l {
             // compressed water only,T(p,h) is published to 25 mK
             p = hs2p_reg1(h, s);
@@ -303,9 +313,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h1_s(s);
         let h13: f64 = hs_region_h13_s(s);
-        v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-        T = ps2T_reg3(100.0, s) - 0.0248;
-        hmax = Td2h_reg3(T, 1.0 / v);
+        hmax = hmax_reg3(s) + hTol;
         if hmin <= h && h < hs {
             return 4;
         }
@@ -320,9 +328,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if s13s < s && s <= SC_WATER {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h3a_s(s);
-        v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-        T = ps2T_reg3(100.0, s) - 0.0248;
-        hmax = Td2h_reg3(T, 1.0 / v);
+        hmax = hmax_reg3(s) + hTol;
         if hmin <= h && h < hs {
             return 4;
         }
@@ -334,9 +340,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if SC_WATER < s && s < 5.048096828 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-        v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-        T = ps2T_reg3(100.0, s) - 0.0248;
-        hmax = Td2h_reg3(T, 1.0 / v);
+        hmax = hmax_reg3(s) + hTol;
         if hmin <= h && h < hs {
             return 4;
         }
@@ -351,8 +355,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hs = hs_region_h2c3b_s(s);
         let h23max: f64 = pT2h_reg2(100.0, 863.15);
         let h23min: f64 = pT2h_reg2(Ps_623, 623.15);
-        T = ps2T_reg2(100.0, s) - 0.019;
-        hmax = pT2h_reg2(100.0, T);
+        T = ps2T_reg2(100.0, s);
+        hmax = pT2h_reg2(100.0, T) + T * (s - pT2s_reg2(100.0, T)) + hTol;
 
         if hmin <= h && h < hs {
             return 4;
@@ -368,9 +372,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
                 return 2;
             }
             // region 3 up to 100 MPa
-            v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
-            T = ps2T_reg3(100.0, s) - 0.0248;
-            if h <= Td2h_reg3(T, 1.0 / v) {
+            if h <= hmax_reg3(s) + hTol {
                 return 3;
             }
             return INVALID_VALUE;
@@ -384,8 +386,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if 5.260578707 <= s && s < 5.85 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-        T = ps2T_reg2(100.0, s) - 0.019;
-        hmax = pT2h_reg2(100.0, T);
+        T = ps2T_reg2(100.0, s);
+        hmax = pT2h_reg2(100.0, T) + T * (s - pT2s_reg2(100.0, T)) + hTol;
         if hmin <= h && h < hs {
             return 4;
         }
@@ -397,8 +399,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     if 5.85 <= s && s < sTPmax {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2ab_s(s);
-        T = ps2T_reg2(100.0, s) - 0.019;
-        hmax = pT2h_reg2(100.0, T);
+        T = ps2T_reg2(100.0, s);
+        hmax = pT2h_reg2(100.0, T) + T * (s - pT2s_reg2(100.0, T)) + hTol;
         if hmin <= h && h < hs {
             return 4;
         }
@@ -415,8 +417,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        // 0.02 MPa: p(h,s) near 100 MPa is an approximation
-        if hs <= h && h <= hmax && p <= P_MAX2 + 0.02 {
+        // 0.02 MPa: p(h,s) near 100 MPa is an approximation,and so is hmax from it
+        if hs <= h && h <= hmax + hTol && p <= P_MAX2 + 0.02 {
             return 2;
         }
     };
@@ -429,8 +431,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        // 0.02 MPa: p(h,s) near 100 MPa is an approximation
-        if hs <= h && h <= hmax && p <= P_MAX2 + 0.02 {
+        // 0.02 MPa: p(h,s) near 100 MPa is an approximation,and so is hmax from it
+        if hs <= h && h <= hmax + hTol && p <= P_MAX2 + 0.02 {
             return 2;
         }
     }
@@ -439,7 +441,8 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         hmin = pT2h_reg2(P_MIN, 273.15);
         p = hs2p_reg2a(h, s); //hs2p_reg2a r2::region2_p_hs
         hmax = pT2h_reg2(p, 1073.15);
-        if P_MIN <= p && p <= 100.0 && hmin <= h && h <= hmax {
+        // p(h,s) of subregion 2a is an approximation
+        if P_MIN * (1.0 - 5.0e-5) <= p && p <= 100.0 && hmin <= h && h <= hmax + hTol {
             return 2;
         }
     }
@@ -453,11 +456,11 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         return INVALID_VALUE;
     }
 
-    let vmin1: f64 = pT2v_reg1(p, p2Tvmin_reg1(p));
-    let vt1073: f64 = pT2v_reg2(p, 1073.15);
+    let vmin1: f64 = pT2v_reg1(p, p2Tvmin_reg1(p)) * (1.0 - vRound);
+    let vt1073: f64 = pT2v_reg2(p, 1073.15) * (1.0 + vRound);
     let mut vt2273: f64 = 0.0;
     if (p >= P_MIN5) && (p <= P_MAX5) {
-        vt2273 = pT2v_reg5(p, 2273.15);
+        vt2273 = pT2v_reg5(p, 2273.15) * (1.0 + vRound);
     }
 
     let mut T1: f64 = 0.0;
@@ -514,14 +517,14 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
 
     let mut vpmax2: f64 = 0.0;
     if (T >= T_MIN2) && (T <= T_MAX2) {
-        vpmax2 = pT2v_reg2(P_MIN2, T);
+        vpmax2 = pT2v_reg2(P_MIN2, T) * (1.0 + vRound);
     }
 
     let mut vpmax5: f64 = 0.0;
     let mut vp50: f64 = 0.0;
     if (T >= T_MIN5) && (T <= T_MAX5) {
-        vpmax5 = pT2v_reg5(P_MIN5, T);
-        vp50 = pT2v_reg5(50.0, T);
+        vpmax5 = pT2v_reg5(P_MIN5, T) * (1.0 + vRound);
+        vp50 = pT2v_reg5(50.0, T) * (1.0 - vRound);
     }
 
     // p=100MPa
@@ -536,6 +539,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     if (T > T_MAX3) && (T <= T_MAX2) {
         vp100 = pT2v_reg2(100.0, T);
     }
+    vp100 *= 1.0 - vRound;
 
     let mut vsw: f64 = 0.0;
     let mut vss: f64 = 0.0;
@@ -596,17 +600,17 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     let mut hpm50: f64 = 0.0;
     let mut hpmax5: f64 = 0.0;
     if (T > T_MIN5) && (T <= T_MAX5) {
-        hpm50 = pT2h_reg5(P_MAX5, T);
-        hpmax5 = pT2h_reg5(P_MIN5, T);
+        hpm50 = pT2h_reg5(P_MAX5, T) - hRound;
+        hpmax5 = pT2h_reg5(P_MIN5, T) + hRound;
     }
     // p=100MPa
     let mut hp100: f64 = 0.0;
     if (T >= T_MIN1) && (T <= T_MAX1) {
-        hp100 = pT2h_reg1(100.0, T);
+        hp100 = pT2h_reg1(100.0, T) + hRound;
     } else if (T > T_MIN3) && (T <= T_MAX3) {
-        hp100 = pt_reg3(100.0, T - 273.15, OH);
+        hp100 = pt_reg3(100.0, T - 273.15, OH) - hRound;
     } else if (T > T_MAX3) && (T <= T_MAX2) {
-        hp100 = pT2h_reg2(100.0, T);
+        hp100 = pT2h_reg2(100.0, T) - hRound;
     }
 
     let mut hsw: f64 = 0.0;
@@ -634,7 +638,7 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
     if (T >= T_MIN1) && (T <= T_MAX1) && (h < hsw) {
-        if h >= pT2h_reg1(T2phmin_reg1(T), T) {
+        if h >= pT2h_reg1(T2phmin_reg1(T), T) - hRound {
             return 1;
         } else {
             return INVALID_VALUE;
@@ -686,8 +690,8 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     let mut spmax5: f64 = 0.0;
     let mut sp50: f64 = 0.0;
     if (T >= T_MIN5) && (T <= T_MAX5) {
-        spmax5 = pT2s_reg5(P_MIN5, T);
-        sp50 = pT2s_reg5(50.0, T);
+        spmax5 = pT2s_reg5(P_MIN5, T) + sRound;
+        sp50 = pT2s_reg5(50.0, T) - sRound;
     }
     // p=100MPa
     let mut sp100: f64 = 0.0;
@@ -702,6 +706,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     if (T > T_MAX3) && (T <= T_MAX2) {
         sp100 = pT2s_reg2(100.0, T);
     }
+    sp100 -= sRound;
 
     let mut p1: f64 = 0.0;
     let mut ssw: f64 = 0.0;
diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 1b6d79f..3355656 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -77,7 +77,7 @@ pub fn T2phmin_reg1(T: f64) -> f64 {
 ///  *  p: pressure  MPa
 pub fn Th2p_reg1(T: f64, h: f64) -> f64 {
     let pmin: f64 = T2phmin_reg1(T);
-    let rising: bool = h <= pT2h_reg1(P_MAX1, T);
+    let rising: bool = h <= pT2h_reg1(P_MAX1, T) + hRound;
     let mut p1: f64 = pmin;
     let mut p2: f64 = P_MAX1;
     if !rising {
-- 
2.43.0


From a67b5097f45592779a7ac67f807ef9a2c8081e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:41 +0000
Subject: [PATCH 33/33] fix: (h,x) and (s,x) missed states below the critical
 point, or answered with another value of h or s

---
 src/r4/region4.rs | 94 ++++++++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 37 deletions(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index b74c59e..47a90af 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -141,49 +141,69 @@ fn bisection_reg4(x: f64, y: f64, y_id: i32, mut Tl: f64, mut Tr: f64) -> f64 {
 /// The lowest T of the wet steam (y,x); y(T,x) is not monotonic,so the root is bracketed firstly
 ///   * return INVALID_VALUE: no wet steam of x has the value y
 fn yx2T_reg4(x: f64, y: f64, y_id: i32) -> f64 {
-    const N: i32 = 100;
-    let node = |i: i32| -> f64 {
-        if i < N {
-            T_MIN4 + (T_MAX4 - T_MIN4) * (i as f64) / (N as f64)
-        } else {
-            T_MAX4
-        }
-    };
     let f = |T: f64| -> f64 { Tx2y_residuals(T, x, y, y_id) };
-
-    let mut f0: f64 = f(node(0));
-    let mut f1: f64 = f0;
-    for i in 1..=N {
-        let f2: f64 = f(node(i));
-        if f1 == 0.0 {
-            return node(i - 1);
+    // y(T,x) jumps where the equations of the saturated phases change: at 623.15K and between the subregions of region 3
+    const dT: f64 = 1.0E-8;
+    let bounds: [f64; 8] = [
+        T_MIN4,
+        T_MAX1,
+        T_saturation(19.0088),
+        T_saturation(20.5),
+        T_saturation(21.0434),
+        T_saturation(21.9009),
+        T_saturation(21.9316),
+        T_MAX4,
+    ];
+    let mut Tjump: f64 = INVALID_VALUE as f64;
+
+    for k in 0..7 {
+        let n: i32 = if k == 0 { 100 } else { 30 };
+        let Tl: f64 = if k == 0 { bounds[0] } else { bounds[k] + dT };
+        let Tr: f64 = if k == 6 { bounds[7] } else { bounds[k + 1] - dT };
+        let node = |i: i32| -> f64 {
+            if i < n {
+                Tl + (Tr - Tl) * (i as f64) / (n as f64)
+            } else {
+                Tr
+            }
+        };
+        let mut f1: f64 = f(Tl);
+        // the sign changes in the jump
+        if k > 0 && Tjump < 0.0 && f1 * f(Tl - 2.0 * dT) <= 0.0 {
+            Tjump = Tl;
         }
-        // the extremum nearest to y is inside two intervals: look for the change of sign there
-        if f0 * f1 > 0.0 && f1 * f2 > 0.0 && f1.abs() <= f0.abs() && f1.abs() <= f2.abs() {
-            let mut a: f64 = node(if i > 1 { i - 2 } else { 0 });
-            let mut b: f64 = node(i);
-            let mut T: f64 = a;
-            for _ in 0..60 {
-                let d: f64 = (b - a) / 3.0;
-                if f(a + d).abs() > f(b - d).abs() {
-                    a += d;
-                    T = b - d;
-                } else {
-                    b -= d;
-                    T = a + d;
-                }
-                if f(T) * f1 <= 0.0 {
-                    return bisection_reg4(x, y, y_id, node(if i > 1 { i - 2 } else { 0 }), T);
+        let mut f0: f64 = f1;
+        for i in 1..=n + 1 {
+            let f2: f64 = f(node(i));
+            if f1 == 0.0 {
+                return node(i - 1);
+            }
+            // the extremum nearest to y is inside two intervals: look for the change of sign there
+            if f0 * f1 > 0.0 && f1 * f2 > 0.0 && f1.abs() <= f0.abs() && f1.abs() <= f2.abs() {
+                let mut a: f64 = node(if i > 1 { i - 2 } else { 0 });
+                let mut b: f64 = node(i);
+                for _ in 0..60 {
+                    let d: f64 = (b - a) / 3.0;
+                    let mut T: f64 = a + d;
+                    if f(a + d).abs() > f(b - d).abs() {
+                        a += d;
+                        T = b - d;
+                    } else {
+                        b -= d;
+                    }
+                    if f(T) * f1 <= 0.0 {
+                        return bisection_reg4(x, y, y_id, node(if i > 1 { i - 2 } else { 0 }), T);
+                    }
                 }
             }
+            if f1 * f2 <= 0.0 {
+                return bisection_reg4(x, y, y_id, node(i - 1), node(i));
+            }
+            f0 = f1;
+            f1 = f2;
         }
-        if f1 * f2 <= 0.0 {
-            return bisection_reg4(x, y, y_id, node(i - 1), node(i));
-        }
-        f0 = f1;
-        f1 = f2;
     }
-    INVALID_VALUE as f64
+    Tjump
 }
 
 /// (h,x,o_id)
-- 
2.43.0

