From d684a497fe3e2449f023dc663051e48de23f55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 01/81] fix: infer the first minor constituent of a family when
 it is the only one requested

np.any() of the index list [0] is False, so a single requested minor
constituent in the first position was silently dropped
---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..e276222 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -416,7 +416,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -564,7 +564,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -725,7 +725,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -878,7 +878,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From c2a433e9f5ce571a782ca90fe12a29c48b24ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 02/81] fix: return an empty (zero) inference array when there
 are too few constituents

the callers add the data and mask attributes of the inferred heights,
which a bare float does not have
---
 pyTMD/predict.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index e276222..2f6ed88 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -403,7 +403,7 @@ def _infer_short_period(
         raise Exception(msg)
     elif (nz < 6):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'm1b', 'm1',
@@ -418,7 +418,7 @@ def _infer_short_period(
     msg = 'No short-period tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # relationship between major and minor constituent amplitude and phase
     zmin = np.zeros((n, 20), dtype=np.complex64)
@@ -551,7 +551,7 @@ def _infer_semi_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['eps2', '2n2', 'mu2', 'nu2', 'gamma2',
@@ -566,7 +566,7 @@ def _infer_semi_diurnal(
     msg = 'No semi-diurnal tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -712,7 +712,7 @@ def _infer_diurnal(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['2q1', 'sigma1', 'rho1', 'tau1', 'beta1',
@@ -727,7 +727,7 @@ def _infer_diurnal(
     msg = 'No diurnal tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
@@ -866,7 +866,7 @@ def _infer_long_period(
         raise Exception(msg)
     elif (nz < 3):
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # complete list of minor constituents
     minor_constituents = ['sa', 'ssa', 'sta', 'msm', 'msf',
@@ -880,7 +880,7 @@ def _infer_long_period(
     msg = 'No long-period tidal constituents to infer'
     if not minor_indices:
         logging.debug(msg)
-        return 0.0
+        return dh
 
     # angular frequencies for inferred constituents
     omega = pyTMD.arguments.frequency(minor_constituents, **kwargs)
-- 
2.43.0


From 5da5c267db470329e922c166a4d899bba530e7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 03/81] fix: compare compound constituents with tuples and not
 with substrings

---
 pyTMD/arguments.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 8897342..aaa2134 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -772,7 +772,7 @@ def nodal(
             # Linear 3rd degree terms
             term1 = 0.1705*sinn - 0.0035*sin2n - 0.0176*sin2p
             term2 = 1.0 + 0.1705*cosn - 0.0035*cos2n - 0.0176*cos2p
-        elif c in ("l2'"):
+        elif c in ("l2'",):
             # Linear 3rd degree terms
             term1 = -0.2495*sinn
             term2 = 1.0 + 0.1315*cosn
@@ -809,42 +809,42 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('2k2'):
+        elif c in ('2k2',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('tk1'):
+        elif c in ('tk1',):
             # compound tides calculated using recursion
             parents = ['k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]
             u[:,i] = -utmp[:,0]
             continue
-        elif c in ('2oop1'):
+        elif c in ('2oop1',):
             # compound tides calculated using recursion
             parents = ['oo1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2
             u[:,i] = 2.0*utmp[:,0]
             continue
-        elif c in ('oq2'):
+        elif c in ('oq2',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('2oq1'):
+        elif c in ('2oq1',):
             # compound tides calculated using recursion
             parents = ['o1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0]**2 * ftmp[:,1]
             u[:,i] = 2.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('ko2'):
+        elif c in ('ko2',):
             # compound tides calculated using recursion
             parents = ['o1','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -872,7 +872,7 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('kjq1'):
+        elif c in ('kjq1',):
             # compound tides calculated using recursion
             parents = ['k1','j1','q1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 8621f6296a4d7c37e18203afc1018e2b477f2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 04/81] fix: add the K2 nodal phase to MSK6 and SNK6

---
 pyTMD/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index aaa2134..70eb866 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -1051,14 +1051,14 @@ def nodal(
             f[:,i] = ftmp[:,0] * ftmp[:,1]**3
             u[:,i] = utmp[:,0] + 3.0*utmp[:,1]
             continue
-        elif c in ('mk4','nk4','mks2'):
+        elif c in ('mk4','nk4','mks2','msk6','snk6'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
             f[:,i] = ftmp[:,0] * ftmp[:,1]
             u[:,i] = utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('msk2','2smk4','msk6','snk6'):
+        elif c in ('msk2','2smk4'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 39aec2125046691e2a6be40e441d6af1d5a6b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 05/81] fix: apply the nodal modulations to 2(MN)8, 2(MN)K9 and
 M2(KS)2 as named in the Doodson table

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 70eb866..4cc6e8a 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -924,7 +924,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3
             u[:,i] = 3.0*utmp[:,0]
             continue
-        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn):8','3msn10',
+        elif c in ('m8','ma8','3mn8','3mnu8','3mmu8','2mn8','2(mn)8','2(mn):8','3msn10',
                 '4ms10','2(mn)S10','4m2s12'):
             # compound tides calculated using recursion
             parents = ['m2']
@@ -1037,7 +1037,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] - utmp[:,1]
             continue
-        elif c in ('4mk9','3mnk9','2m2nk9','2(mn):k9','3nmk9','4msk11'):
+        elif c in ('4mk9','3mnk9','2m2nk9','2(mn)k9','2(mn):k9','3nmk9','4msk11'):
             # compound tides calculated using recursion
             parents = ['m2','k1']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
@@ -1100,7 +1100,7 @@ def nodal(
             f[:,i] = ftmp[:,0]**3 * ftmp[:,1]
             u[:,i] = 3.0*utmp[:,0] + utmp[:,1]
             continue
-        elif c in ('m2(ks):2',):
+        elif c in ('m2(ks)2','m2(ks):2'):
             # compound tides calculated using recursion
             parents = ['m2','k2']
             utmp, ftmp = nodal(n, p, parents, **kwargs)
-- 
2.43.0


From 88279444085d4e072f78ee540b2301f1bf88497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 06/81] fix: correct the Doodson coefficients of 2MN6, 3MN8,
 NK3, NSK5 and SNK5

---
 pyTMD/data/doodson.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/data/doodson.json b/pyTMD/data/doodson.json
index aca114f..d2f2621 100644
--- a/pyTMD/data/doodson.json
+++ b/pyTMD/data/doodson.json
@@ -229,7 +229,7 @@
     "2mm3": [3.0, 0.0, 0.0, -1.0, 0.0, 0.0, -1.0],
     "m3": [3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "m3'": [3.0, 0.0, 0.0, 0.0, 0.0, 0.0, 2.0],
-    "nk3": [3.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0],
+    "nk3": [3.0, 0.0, 0.0, 1.0, 0.0, 0.0, 1.0],
     "mp3": [3.0, 1.0, -2.0, 0.0, 0.0, 0.0, -1.0],
     "so3": [3.0, 1.0, -2.0, 0.0, 0.0, 0.0, -1.0],
     "lambda3": [3.0, 1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
@@ -329,9 +329,9 @@
     "2ms5": [5.0, 1.0, -1.0, 0.0, 0.0, 0.0, 2.0],
     "2mk5": [5.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0],
     "nks5": [5.0, 2.0, -1.0, 1.0, 0.0, 0.0, 2.0],
-    "nsk5": [5.0, 2.0, -2.0, -1.0, 0.0, 0.0, 1.0],
+    "nsk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "msm5": [5.0, 2.0, -2.0, 0.0, 0.0, 0.0, 2.0],
-    "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, -1.0],
+    "snk5": [5.0, 2.0, -2.0, 1.0, 0.0, 0.0, 1.0],
     "3mq5": [5.0, 2.0, 0.0, -1.0, 0.0, 0.0, 1.0],
     "msp5": [5.0, 3.0, -4.0, 0.0, 0.0, 0.0, -1.0],
     "msk5": [5.0, 3.0, -2.0, 0.0, 0.0, 0.0, 1.0],
@@ -361,7 +361,7 @@
     "2mnls6": [6.0, -2.0, 2.0, 0.0, 0.0, 0.0, 2.0],
     "2nmks6": [6.0, -2.0, 2.0, 2.0, 0.0, 0.0, 0.0],
     "2msnk6": [6.0, -1.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "2mn6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "2mn6": [6.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "2mnu6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "3mls6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "2mno6": [6.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
@@ -428,7 +428,7 @@
     "2mn8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "2(mn)8": [8.0, -2.0, 0.0, 2.0, 0.0, 0.0, 0.0],
     "5ms8": [8.0, -2.0, 2.0, 0.0, 0.0, 0.0, 0.0],
-    "3mn8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
+    "3mn8": [8.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "3mnu8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 0.0],
     "4mls8": [8.0, -1.0, 2.0, -1.0, 0.0, 0.0, 2.0],
     "ma8": [8.0, 0.0, -1.0, 0.0, 0.0, 0.0, 0.0],
-- 
2.43.0


From 1cb0712ca2c7248f5b9dc3fd4350b464a6462c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 07/81] fix: use the cosine of 2N in the nodal phase of minor
 constituent 2Q1

---
 pyTMD/arguments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 4cc6e8a..0976d27 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -256,7 +256,7 @@ def minor_arguments(
     # nodal angle corrections for minor constituents
     u = np.zeros((nt, 20))
     u[:,0] = np.arctan2(0.189*sinn - 0.0058*sin2n,
-        1.0 + 0.189*cosn - 0.0058*sin2n)# 2Q1
+        1.0 + 0.189*cosn - 0.0058*cos2n)# 2Q1
     u[:,1] = u[:,0]# sigma1
     u[:,2] = u[:,0]# rho1
     u[:,3] = np.arctan2( 0.185*sinn, 1.0 + 0.185*cosn)# M12
-- 
2.43.0


From e6f2a16229280a8e3900ab5aebe9589751a32213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 08/81] fix: correct the Doodson coefficients of 2MNS4, 4MSN8,
 2NKMS5, 2OOK1 and 2(KJ)4

---
 pyTMD/data/doodson.json | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/data/doodson.json b/pyTMD/data/doodson.json
index d2f2621..2aced4e 100644
--- a/pyTMD/data/doodson.json
+++ b/pyTMD/data/doodson.json
@@ -94,7 +94,7 @@
     "kq1": [1.0, 4.0, 0.0, -1.0, 0.0, 0.0, 1.0],
     "2jo1": [1.0, 5.0, 0.0, -2.0, 0.0, 0.0, -1.0],
     "kjq1": [1.0, 5.0, 0.0, -2.0, 0.0, 0.0, -1.0],
-    "2ook1": [1.0, 5.0, 0.0, 0.0, 0.0, 0.0, -1.0],
+    "2ook1": [1.0, 5.0, 0.0, 0.0, 0.0, 0.0, 1.0],
     "2oop1": [1.0, 5.0, 2.0, 0.0, 0.0, 0.0, -1.0],
     "2jq1": [1.0, 6.0, 0.0, -3.0, 0.0, 0.0, -1.0],
     "2mn2s2": [2.0, -5.0, 4.0, 1.0, 0.0, 0.0, 0.0],
@@ -267,7 +267,7 @@
     "4m2s4": [4.0, -4.0, 4.0, 0.0, 0.0, 0.0, 0.0],
     "2mnk4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 0.0],
     "moq4": [4.0, -3.0, 0.0, 1.0, 0.0, 0.0, 2.0],
-    "2mns4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
+    "2mns4": [4.0, -3.0, 2.0, 1.0, 0.0, 0.0, 0.0],
     "2mnus4": [4.0, -3.0, 4.0, -1.0, 0.0, 0.0, 0.0],
     "3mk4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "2om4": [4.0, -2.0, 0.0, 0.0, 0.0, 0.0, 2.0],
@@ -310,11 +310,11 @@
     "3ks4": [4.0, 4.0, -1.0, 0.0, 0.0, 0.0, -1.0],
     "k4": [4.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0],
     "3sm4": [4.0, 6.0, -6.0, 0.0, 0.0, 0.0, 0.0],
-    "2(kj)4": [4.0, 6.0, 0.0, -2.0, 0.0, 0.0, 2.0],
+    "2(kj)4": [4.0, 6.0, 0.0, -2.0, 0.0, 0.0, 0.0],
     "2no5": [5.0, -3.0, 0.0, 2.0, 0.0, 0.0, -1.0],
     "mno5": [5.0, -2.0, 0.0, 1.0, 0.0, 0.0, -1.0],
     "2mq5": [5.0, -2.0, 0.0, 1.0, 0.0, 0.0, -1.0],
-    "2nkms5": [5.0, -2.0, 2.0, 2.0, 0.0, 0.0, 1.0],
+    "2nkms5": [5.0, -3.0, 2.0, 2.0, 0.0, 0.0, 1.0],
     "2mo5": [5.0, -1.0, 0.0, 0.0, 0.0, 0.0, -1.0],
     "mnm5": [5.0, -1.0, 0.0, 1.0, 0.0, 0.0, 2.0],
     "2nk5": [5.0, -1.0, 0.0, 2.0, 0.0, 0.0, 1.0],
@@ -443,7 +443,7 @@
     "2smn8": [8.0, 3.0, -4.0, 1.0, 0.0, 0.0, 0.0],
     "2msl8": [8.0, 3.0, -2.0, -1.0, 0.0, 0.0, 2.0],
     "msnk8": [8.0, 3.0, -2.0, 1.0, 0.0, 0.0, 0.0],
-    "4msn8": [8.0, 3.0, 0.0, -1.0, 0.0, 0.0, 0.0],
+    "4msn8": [8.0, 3.0, -2.0, -1.0, 0.0, 0.0, 0.0],
     "2(ms)8": [8.0, 4.0, -4.0, 0.0, 0.0, 0.0, 0.0],
     "2msk8": [8.0, 4.0, -2.0, 0.0, 0.0, 0.0, 0.0],
     "2(mk)8": [8.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0],
-- 
2.43.0


From 1c9d22f61be0b9891af64f4dff6045fb681de5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 09/81] fix: sign of the sin(l - M) perturbation in the
 longitude of the moon

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..3d2b48f 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -563,7 +563,7 @@ def lunar_approximate(MJD, **kwargs):
         4586.0*np.sin(l - 2.0*D) + 2370.0*np.sin(2.0*D) -
         668.0*np.sin(M) - 412.0*np.sin(2.0*F) -
         212.0*np.sin(2.0*l - 2.0*D) - 206.0*np.sin(l + M - 2.0*D) +
-        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) -
+        192.0*np.sin(l + 2.0*D) - 165.0*np.sin(M - 2.0*D) +
         148.0*np.sin(l - M) - 125.0*np.sin(D) -
         110.0*np.sin(l + M) - 55.0*np.sin(2.0*F - 2.0*D)
     )
-- 
2.43.0


From 91165fe98fca439dc49c9fdfe89074eccfee6fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 10/81] fix: cubic coefficient of the IAU2006 mean obliquity

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 3d2b48f..4837480 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -366,7 +366,7 @@ def mean_obliquity(MJD: np.ndarray):
     T = (MJD - _mjd_j2000)/_century
     # mean obliquity of the ecliptic (arcseconds)
     epsilon0 = np.array([84381.406, -46.836769, -1.831e-4,
-        2.00340e-4, -5.76e-07, -4.34e-08])
+        2.00340e-3, -5.76e-07, -4.34e-08])
     return atr*polynomial_sum(epsilon0, T)
 
 # PURPOSE: compute coordinates of the sun in an ECEF frame
-- 
2.43.0


From 464380cb95ba94a1c440739d1c8fb01e7503327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 11/81] fix: convert the equation of the equinoxes from radians
 to fraction of a day

---
 pyTMD/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 4837480..82d559e 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -661,7 +661,7 @@ def gast(T: float | np.ndarray):
     # traditional equation of the equinoxes
     c = _eqeq_complement(T)
     eqeq = dpsi*np.cos(epsilon + deps) + c
-    return np.mod(ts.st + eqeq/24.0, 1.0)
+    return np.mod(ts.st + eqeq/ts.tau, 1.0)
 
 def itrs(T: float | np.ndarray):
     """
-- 
2.43.0


From 7c2375281da8dcb02e7fbc0967cb5097f1babc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 12/81] fix: remove stray factor from the complex spherical
 harmonics

---
 pyTMD/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 3967821..19b610f 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -280,7 +280,7 @@ def sph_harm(
     Plm = norm*legendre(l, np.cos(theta), m=m)
     # spherical harmonics of degree l and order m
     dfactor = np.sqrt((2.0*l + 1.0)/(4.0*np.pi))
-    Ylm = dfactor*Plm*np.sin(theta)*np.exp(1j*m*phi)
+    Ylm = dfactor*Plm*np.exp(1j*m*phi)
     # return values
     if singular_values:
         return Ylm[0]
-- 
2.43.0


From 0453fe7484bca58637eb375a07475366973391c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 13/81] fix: longitude of the perigee in radians for the FES
 modulation of minor L2

---
 pyTMD/arguments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/arguments.py b/pyTMD/arguments.py
index 0976d27..ca431b7 100755
--- a/pyTMD/arguments.py
+++ b/pyTMD/arguments.py
@@ -280,9 +280,9 @@ def minor_arguments(
         xi = np.arctan2(np.sin(xi), np.cos(xi))
         nu = at1 - at2
         I2 = np.tan(II/2.0)
-        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p - xi)) + 36.0*(I2**4))
-        P2 = np.sin(2.0*(p - xi))
-        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p - xi))
+        Ra1 = np.sqrt(1.0 - 12.0*(I2**2)*np.cos(2.0*(p*dtr - xi)) + 36.0*(I2**4))
+        P2 = np.sin(2.0*(p*dtr - xi))
+        Q2 = 1.0/(6.0*(I2**2)) - np.cos(2.0*(p*dtr - xi))
         R = np.arctan(P2/Q2)
 
         # nodal factor corrections for minor constituents
-- 
2.43.0


From 3fcda9214c8b2aa94abb59922af71d48813cefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 14/81] fix: dispatch on the lower case data type in the
 displacement functions

---
 pyTMD/compute.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..208a3cc 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -878,15 +878,15 @@ def LPET_elevations(
     tide_time = ts.tide + ts.tt_ut1
 
     # predict long-period equilibrium tides at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_lpe = np.zeros((ny,nx,nt))
         for i in range(nt):
             lpet = pyTMD.predict.equilibrium_tide(tide_time[i], lat)
             tide_lpe[:,:,i] = np.reshape(lpet,(ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         tide_lpe = pyTMD.predict.equilibrium_tide(tide_time, lat)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_lpe = np.zeros((nstation,nt))
         for s in range(nstation):
@@ -1031,7 +1031,7 @@ def LPT_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Srad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1051,7 +1051,7 @@ def LPT_displacements(
             # reshape to output dimensions
             Srad.data[:,:,i] = np.reshape(S[:,2], (ny,nx))
             Srad.mask[:,:,i] = np.isnan(Srad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate load pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.load_pole_tide(ts.tide, XYZ,
@@ -1068,7 +1068,7 @@ def LPT_displacements(
         Srad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Srad.data[:] = S[:,2].copy()
         Srad.mask = np.isnan(Srad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Srad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Srad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1253,7 +1253,7 @@ def OPT_displacements(
     UXYZ = np.einsum('ti...,tji...->tj...', np.c_[un, ue, ur], R)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         Urad = np.ma.zeros((ny,nx,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((ny,nx,nt),dtype=bool)
@@ -1275,7 +1275,7 @@ def OPT_displacements(
             # reshape to output dimensions
             Urad.data[:,:,i] = np.reshape(U[:,2], (ny,nx))
             Urad.mask[:,:,i] = np.isnan(Urad.data[:,:,i])
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # calculate ocean pole tides in cartesian coordinates
         XYZ = np.c_[X, Y, Z]
         dxi = pyTMD.predict.ocean_pole_tide(ts.tide, XYZ, UXYZ,
@@ -1294,7 +1294,7 @@ def OPT_displacements(
         Urad = np.ma.zeros((nt), fill_value=FILL_VALUE)
         Urad.data[:] = U[:,2].copy()
         Urad.mask = np.isnan(Urad.data)
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         Urad = np.ma.zeros((nstation,nt), fill_value=FILL_VALUE)
         Urad.mask = np.zeros((nstation,nt),dtype=bool)
@@ -1455,7 +1455,7 @@ def SET_displacements(
     R[:,2,2] = np.cos(theta)
 
     # calculate radial displacement at time
-    if (TYPE == 'grid'):
+    if (TYPE.lower() == 'grid'):
         ny,nx = np.shape(x)
         tide_se = np.zeros((ny,nx,nt))
         # convert coordinates to column arrays
@@ -1474,7 +1474,7 @@ def SET_displacements(
             SE = np.einsum('ti...,tji...->tj...', dxi, R)
             # reshape to output dimensions
             tide_se[:,:,i] = np.reshape(SE[:,2], (ny,nx))
-    elif (TYPE == 'drift'):
+    elif (TYPE.lower() == 'drift'):
         # convert coordinates to column arrays
         XYZ = np.c_[X, Y, Z]
         SXYZ = np.c_[SX, SY, SZ]
@@ -1487,7 +1487,7 @@ def SET_displacements(
         SE = np.einsum('ti...,tji...->tj...', dxi, R)
         # reshape to output dimensions
         tide_se = SE[:,2].copy()
-    elif (TYPE == 'time series'):
+    elif (TYPE.lower() == 'time series'):
         nstation = len(x)
         tide_se = np.zeros((nstation,nt))
         # convert coordinates to column arrays
-- 
2.43.0


From d77ddae037284519e3a4967b95f1edf8cae7a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 15/81] fix: remove the one day offset of the gridded solid
 Earth tides

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 208a3cc..c5e2a35 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1462,7 +1462,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From d4cb4c00eeedceecc76f380383c36b3f08e86f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 16/81] fix: interpolate tide masks at the model coordinates
 and keep the input shape

---
 pyTMD/compute.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index c5e2a35..3bf9e6e 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -782,15 +782,15 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
+        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
-    # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
+    # valid points are not masked
+    valid = np.logical_not(mask).astype(mz.dtype)
     # replace points outside model domain with invalid
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-    # return the valid mask
-    return valid
+    # return the valid mask (reshaped to original dimensions)
+    return valid.reshape(idim)
 
 # PURPOSE: compute long-period equilibrium tidal elevations
 def LPET_elevations(
-- 
2.43.0


From a038ed9f981ea8cad933219fcb9bd83f6d4d6e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 17/81] fix: read GOT netCDF files as netCDF for the tide masks

---
 pyTMD/compute.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 3bf9e6e..0492243 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -747,7 +747,11 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
         # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
+        if (model.format == 'GOT-netcdf'):
+            read_file = pyTMD.io.GOT.read_netcdf_file
+        else:
+            read_file = pyTMD.io.GOT.read_ascii_file
+        hc, xi, yi, c = read_file(
             pathlib.Path(model.model_file[0]).expanduser(),
             compressed=model.compressed)
         # copy tidal constituent mask
-- 
2.43.0


From 1cd731f4fd37f2ad111edc199f8bda1eb26c1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 18/81] fix: semimajor axis and flattening of GRS80 and NAD83

---
 pyTMD/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index 3e3ba55..ea1c565 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -321,8 +321,8 @@ class datum:
         elif self.name in ('GRS80', 'NAD83'):
             # Geodetic Reference System 1980
             # North American Datum 1983
-            self.a_axis = 6378135.0# [m] semimajor axis of the ellipsoid
-            self.flat = 1.0/298.26# flattening of the ellipsoid
+            self.a_axis = 6378137.0# [m] semimajor axis of the ellipsoid
+            self.flat = 1.0/298.257222101# flattening of the ellipsoid
             self.GM = 3.986005e14# [m^3/s^2] Geocentric Gravitational Constant
 
         elif (self.name == 'GRS67'):
-- 
2.43.0


From 38f74f79c1c3044d4c97e7adff8bab8b0c12d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:14 +0000
Subject: [PATCH 19/81] fix: use the normal gravity at the equator in the k
 parameter

---
 pyTMD/crs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/crs.py b/pyTMD/crs.py
index ea1c565..aba0ce1 100644
--- a/pyTMD/crs.py
+++ b/pyTMD/crs.py
@@ -580,7 +580,7 @@ class datum:
     def dk(self) -> float:
         """Ratio between gravity at pole versus gravity at equator
         """
-        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_b) - 1.0
+        return self.b_axis*self.gamma_b/(self.a_axis*self.gamma_a) - 1.0
 
     # Normal potential at the ellipsoid
     # p. 68, Eqn.(2-123)
-- 
2.43.0


From cced719b6d7045a87937891653257ca76520b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 20/81] fix: convert polar and non-polar points together in the
 closed form

---
 pyTMD/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..62c6741 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1959,7 +1959,7 @@ def _zhu_closed_form(
         ind, = np.nonzero(w == 0)
         h[ind] = np.sign(z[ind])*z[ind] - b_axis
         lat[ind] = 90.0*np.sign(z[ind])
-    else:
+    if np.any(w != 0):
         # all other cases
         ind, = np.nonzero(w != 0)
         l = e12/2.0
@@ -1972,11 +1972,11 @@ def _zhu_closed_form(
         B = i/3.0 - (q + D)**(1.0/3.0) - (q - D)**(1.0/3.0)
         t = np.sqrt(np.sqrt(B**2-k) - (B + i)/2.0) - \
             np.sign(m - n)*np.sqrt((B - i)/2.0)
-        wi = w/(t + l)
+        wi = w[ind]/(t + l)
         zi = (1.0 - e12)*z[ind]/(t - l)
         # calculate latitude and height
         lat[ind] = np.arctan2(zi, ((1.0 - e12)*wi))/dtr
-        h[ind] = np.sign(t-1.0+l)*np.sqrt((w-wi)**2.0 + (z[ind]-zi)**2.0)
+        h[ind] = np.sign(t-1.0+l)*np.sqrt((w[ind]-wi)**2.0 + (z[ind]-zi)**2.0)
     # return longitude, latitude and height
     return (lon, lat, h)
 
-- 
2.43.0


From 3e80a1829cf6aa7aaf217b780856134011971c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 21/81] fix: keep minutes and seconds of angles below one
 degree

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 62c6741..996a77f 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1619,7 +1619,8 @@ def from_dms(
     d: np.ndarray
         decimal degrees
     """
-    sign = np.sign(degree)
+    # keep the sign of zero degrees
+    sign = np.copysign(1.0, degree)
     d = np.abs(degree) + minute/60.0 + second/3600.0
     return sign*d
 
-- 
2.43.0


From 5a85ffe91f96d5c112221bafa7d24caffc7ab498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 22/81] fix: keep the input latitudes when converting between
 ellipsoids

---
 pyTMD/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 996a77f..ad05d12 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1413,6 +1413,8 @@ def convert_ellipsoid(
     """
     if (len(phi1) != len(h1)):
         raise ValueError('phi and h have incompatible dimensions')
+    # copy latitudes to keep the input unmodified
+    phi1 = np.copy(phi1)
     # semiminor axis of input and output ellipsoid
     b1 = (1.0 - f1)*a1
     b2 = (1.0 - f2)*a2
-- 
2.43.0


From ab48d34a55c75ec6ef99e1be3c6f38c296e6b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 23/81] fix: Bowring's conversion to geodetic coordinates at
 the poles

---
 pyTMD/spatial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index ad05d12..092d7c5 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1894,10 +1894,10 @@ def _bowring_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for reduced parametric latitude
-    u = np.arctan(a_axis*z/(b_axis*p))
+    u = np.arctan2(a_axis*z, b_axis*p)
     # initial estimated value for latitude
-    phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-        (p - e12*a_axis*np.cos(u)**3))
+    phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+        p - e12*a_axis*np.cos(u)**3)
     phi0 = np.inf*np.ones_like(lon)
     # iterate to tolerance or to maximum number of iterations
     i = 0
@@ -1907,8 +1907,8 @@ def _bowring_iterative(
         # calculate reduced parametric latitude
         u = np.arctan(b_axis*np.tan(phi)/a_axis)
         # estimate new value of latitude
-        phi = np.arctan((z + e22*b_axis*np.sin(u)**3) /
-            (p - e12*a_axis*np.cos(u)**3))
+        phi = np.arctan2(z + e22*b_axis*np.sin(u)**3,
+            p - e12*a_axis*np.cos(u)**3)
         # add to iterator
         i += 1
     # calculate final radius of curvature
-- 
2.43.0


From 4568a3ed9be3f524c293ab9aa0990525e92038ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 24/81] fix: Moritz' conversion to geodetic coordinates at the
 poles

---
 pyTMD/spatial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 092d7c5..a5b2cdc 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1833,7 +1833,7 @@ def _moritz_iterative(
     # calculate radius of parallel
     p = np.sqrt(x**2 + y**2)
     # initial estimated value for phi using h=0
-    phi = np.arctan(z/(p*(1.0 - ecc1**2)))
+    phi = np.arctan2(z, p*(1.0 - ecc1**2))
     # iterate to tolerance or to maximum number of iterations
     i = 0
     while np.any(np.abs(h - h0) > eps) and (i <= iterations):
@@ -1842,9 +1842,10 @@ def _moritz_iterative(
         # calculate radius of curvature
         N = a_axis/np.sqrt(1.0 - ecc1**2 * np.sin(phi)**2)
         # estimate new value of height
-        h = p/np.cos(phi) - N
+        h = p*np.cos(phi) + z*np.sin(phi) - \
+            N*(1.0 - ecc1**2 * np.sin(phi)**2)
         # estimate new value for latitude using heights
-        phi = np.arctan(z/(p*(1.0 - ecc1**2*N/(N + h))))
+        phi = np.arctan2(z, p*(1.0 - ecc1**2*N/(N + h)))
         # add to iterator
         i += 1
     # return longitude, latitude and height
-- 
2.43.0


From 8ff59b835c0b2ce7c42532f7e48a1e4e0d3095dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 25/81] fix: associated Legendre functions of degree zero

---
 pyTMD/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/math.py b/pyTMD/math.py
index 19b610f..4d2bf26 100644
--- a/pyTMD/math.py
+++ b/pyTMD/math.py
@@ -223,8 +223,9 @@ def assoc_legendre(lmax, x):
     Plm = np.zeros((lmax+1,lmax+1,nx))
     # initial polynomials for the recursion
     Plm[0,0,:] = 1.0
-    Plm[1,0,:] = np.sqrt(3.0)*x
-    Plm[1,1,:] = np.sqrt(3.0)*u
+    if (lmax >= 1):
+        Plm[1,0,:] = np.sqrt(3.0)*x
+        Plm[1,1,:] = np.sqrt(3.0)*u
     for l in range(2, lmax+1):
         # normalization factor
         norm = np.sqrt(2.0*l+1.0)
-- 
2.43.0


From 72067d89212254763a569fd40d232caeed06196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 26/81] fix: bilinear interpolation at the upper bound in
 longitude

---
 pyTMD/interpolate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..f651e50 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -83,7 +83,9 @@ def bilinear(
     # for each valid point
     for i in valid:
         # calculating the indices for the original grid
-        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
+        # (the last grid cell includes the upper bound in longitude)
+        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & ((ilon[1:] > lon[i]) |
+            (ilon[1:] == ilon.max())))
         iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
-- 
2.43.0


From 2725575dafc09d658655107bc4f02563c973d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:57 +0000
Subject: [PATCH 27/81] fix: mask points outside of the model domain for GOT
 models

---
 pyTMD/io/ATLAS.py |  2 +-
 pyTMD/io/GOT.py   | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..a2773d4 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -580,7 +580,7 @@ def interpolate_constants(
     # number of points
     npts = len(ilon)
     # create masked array of model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry,
+XX    bathymetry = np.ma.array(constituents.bathymetry,
         mask=constituents.mask, fill_value=0.0)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..1497909 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -257,6 +257,9 @@ def extract_constants(
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # determine if any input points are outside of the model bounds
+        invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+                  (ilat < lat.min()) | (ilat > lat.max())
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -299,6 +302,9 @@ def extract_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
@@ -455,6 +461,9 @@ def interpolate_constants(
         # input points convention (0:360)
         # tide model convention (-180:180)
         ilon[ilon>180.0] -= 360.0
+    # determine if any input points are outside of the model bounds
+    invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
+              (ilat < lat.min()) | (ilat > lat.max())
     # number of points
     npts = len(ilon)
     # number of constituents
@@ -524,6 +533,9 @@ def interpolate_constants(
         # phase of the constituent in radians
         ph.data[:,i] = np.arctan2(-np.imag(hci.data),np.real(hci.data))
         ph.mask[:,i] = np.copy(hci.mask)
+        # update mask to invalidate points outside model domain
+        amplitude.mask[:,i] |= invalid
+        ph.mask[:,i] |= invalid
 
     # convert phase to degrees
     phase = ph*180.0/np.pi
-- 
2.43.0


From 0a20b06844a91202bd16457e60c4fea9a0d90736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:00 +0000
Subject: [PATCH 28/81] fix: do not overwrite the bathymetry of a container
 when interpolating

---
 pyTMD/io/ATLAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index a2773d4..46cf76c 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -580,7 +580,7 @@ def interpolate_constants(
     # number of points
     npts = len(ilon)
     # create masked array of model bathymetry
-XX    bathymetry = np.ma.array(constituents.bathymetry,
+    bathymetry = np.ma.array(np.copy(constituents.bathymetry),
         mask=constituents.mask, fill_value=0.0)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
-- 
2.43.0


From ea5d7a89f842ead2c7fd8dfb8f00cafc24a57408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 29/81] fix: keep points within global grids when interpolating
 constants

---
 pyTMD/io/ATLAS.py | 4 ++--
 pyTMD/io/FES.py   | 4 ++--
 pyTMD/io/GOT.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 46cf76c..ba132a9 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -565,11 +565,11 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
+    if (np.min(ilon) < np.min(lon)) & (np.max(lon) > 180.0):
         # input points convention (-180:180)
         # tide model convention (0:360)
         ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
+    elif (np.max(ilon) > np.max(lon)) & (np.min(lon) < 0.0):
         # input points convention (0:360)
         # tide model convention (-180:180)
         ilon[ilon > 180.0] -= 360.0
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..3b070e7 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -498,11 +498,11 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
+    if (np.min(ilon) < np.min(lon)) & (np.max(lon) > 180.0):
         # input points convention (-180:180)
         # tide model convention (0:360)
         ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
+    elif (np.max(ilon) > np.max(lon)) & (np.min(lon) < 0.0):
         # input points convention (0:360)
         # tide model convention (-180:180)
         ilon[ilon>180.0] -= 360.0
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 1497909..b53c641 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -453,11 +453,11 @@ def interpolate_constants(
     ilat = np.atleast_1d(np.copy(ilat))
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
+    if (np.min(ilon) < np.min(lon)) & (np.max(lon) > 180.0):
         # input points convention (-180:180)
         # tide model convention (0:360)
         ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
+    elif (np.max(ilon) > np.max(lon)) & (np.min(lon) < 0.0):
         # input points convention (0:360)
         # tide model convention (-180:180)
         ilon[ilon>180.0] -= 360.0
-- 
2.43.0


From 3c11ac18d1914d61ad7df776933a5a1c3bfe7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 30/81] fix: keep longitudes of all points in the convention of
 OTIS grids

---
 pyTMD/io/OTIS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..bd407c9 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -300,18 +300,18 @@ def extract_constants(
     buffer = kwargs['buffer'] or 4*dx
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mx, my = np.copy(xi), np.copy(yi)
         mz, xi, yi = _crop(mz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
+    # adjust longitudinal convention to fit tide model
+    if (np.min(x) < 0.0) & (np.max(xi) > 180.0) & is_geographic:
         # input points convention (-180:180)
         # tide model convention (0:360)
         x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
+    elif (np.max(x) > 180.0) & (np.min(xi) < 0.0) & is_geographic:
         # input points convention (0:360)
         # tide model convention (-180:180)
         x[x > 180] -= 360.0
@@ -802,9 +802,9 @@ def interpolate_constants(
     is_geographic = constituents.crs.is_geographic
     # adjust longitudinal convention of input latitude and longitude
     # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
+    if (np.min(x) < np.min(xi)) & (np.max(xi) > 180.0) & is_geographic:
         x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
+    elif (np.max(x) > np.max(xi)) & (np.min(xi) < 0.0) & is_geographic:
         x[x > 180] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
-- 
2.43.0


From 3d2ba1323e940f65d68a2cd5f233d165e91fd73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 31/81] fix: recognize global OTIS grids when reading constants

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index bd407c9..03fcb64 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -614,7 +614,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From 93623bb899f564642a80f1699de1a4afdc707067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:08 +0000
Subject: [PATCH 32/81] fix: do not wrap the node masks of regional OTIS grids

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 03fcb64..267cad6 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2151,7 +2151,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From d5668f8fd8d8f1c0d1928d39e92dc298f1ed996d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 33/81] fix: set the default type when interpolating OTIS
 constants

---
 pyTMD/io/OTIS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 267cad6..4dc7fe1 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -785,6 +785,7 @@ def interpolate_constants(
         bathymetry of tide model
     """
     # set default keyword arguments
+    kwargs.setdefault('type', 'z')
     kwargs.setdefault('method', 'spline')
     kwargs.setdefault('extrapolate', False)
     kwargs.setdefault('cutoff', 10.0)
-- 
2.43.0


From a931ddeb402164cfb44d3280377f162d6ad930e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 34/81] fix: keep the mask of splined OTIS constituents

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 4dc7fe1..e0a032f 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -866,7 +866,7 @@ def interpolate_constants(
                 reducer=np.ceil,
                 kx=1, ky=1)
             # replace zero values with fill_value
-            hci.mask = D.mask
+            hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
             # replace zero values with fill value
-- 
2.43.0


From 672907724f4d327165a961d076ac735f2fc21ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 35/81] fix: extrapolate depths for the units of extrapolated
 currents

---
 pyTMD/io/ATLAS.py | 18 ++++++++++++++++--
 pyTMD/io/OTIS.py  | 20 ++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ba132a9..524b728 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -296,7 +296,14 @@ def extract_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        # depths at points (copied as extrapolated depths are not returned)
+        depth = np.ma.copy(D)
+        # extrapolate depths where extrapolating constituents
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -603,7 +610,14 @@ def interpolate_constants(
 
     # u and v are velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D.data/100.0)
+        # depths at points (copied as extrapolated depths are not returned)
+        depth = np.ma.copy(D)
+        # extrapolate depths where extrapolating constituents
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(lon, lat, bathymetry,
+                ilon[inv], ilat[inv], cutoff=kwargs['cutoff'])
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index e0a032f..f330e4b 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -388,7 +388,15 @@ def extract_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        # depths at points (copied as extrapolated depths are not returned)
+        depth = np.ma.copy(D)
+        # extrapolate depths where extrapolating constituents
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
@@ -828,7 +836,15 @@ def interpolate_constants(
 
     # u and v: velocities in cm/s
     if kwargs['type'] in ('v','u'):
-        unit_conv = (D/100.0)
+        # depths at points (copied as extrapolated depths are not returned)
+        depth = np.ma.copy(D)
+        # extrapolate depths where extrapolating constituents
+        if kwargs['extrapolate'] and np.any(depth.mask):
+            inv, = np.nonzero(depth.mask)
+            depth[inv] = pyTMD.interpolate.extrapolate(xi, yi, bathymetry,
+                x[inv], y[inv], cutoff=kwargs['cutoff'],
+                is_geographic=is_geographic)
+        unit_conv = (depth.data/100.0)
     # h is elevation values in m
     # U and V are transports in m^2/s
     elif kwargs['type'] in ('z','V','U'):
-- 
2.43.0


From ac924e77a2853258e4ea5f66bdfa82fe2aa5402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 36/81] fix: keep the mask of linearly interpolated OTIS
 constituents

---
 pyTMD/io/OTIS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index f330e4b..24387ae 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -496,7 +496,7 @@ def extract_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
@@ -885,8 +885,8 @@ def interpolate_constants(
             hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace zero values with fill value
-            hc.data[(hc.data == 0) | hc.mask] = fill_value
+            # replace invalid values with fill value
+            hc.data[hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(xi, yi, hc, x, y,
                 fill_value=fill_value,
@@ -895,7 +895,7 @@ def interpolate_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
-- 
2.43.0


From d863294c953dc9fa5535ea994eccce1a5c328391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 37/81] fix: shift grids which lie on one side of the break in
 longitude

---
 pyTMD/io/ATLAS.py | 16 +++++++++-------
 pyTMD/io/FES.py   | 16 +++++++++-------
 pyTMD/io/GOT.py   | 16 +++++++++-------
 pyTMD/io/OTIS.py  | 16 +++++++++-------
 4 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 524b728..68f610e 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1365,23 +1365,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values at or beyond the start of the shifted grid
+    i0 = np.searchsorted(ilon, lon0)
+    n = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[:n] = ilon[i0:]
+    lon[n:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[:n] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n] = input_matrix[:,i0:]
+    temp[:,n:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 3b070e7..beda495 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -1020,23 +1020,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values at or beyond the start of the shifted grid
+    i0 = np.searchsorted(ilon, lon0)
+    n = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[:n] = ilon[i0:]
+    lon[n:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[:n] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n] = input_matrix[:,i0:]
+    temp[:,n:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index b53c641..b31240d 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -918,23 +918,25 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    # number of values at or beyond the start of the shifted grid
+    i0 = np.searchsorted(ilon, lon0)
+    n = len(ilon) - i0
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[:n] = ilon[i0:]
+    lon[n:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[:n] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n] = input_matrix[:,i0:]
+    temp[:,n:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 24387ae..baadd67 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2087,24 +2087,26 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ix[-1]-ix[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ix - x0))
+    # number of values at or beyond the start of the shifted grid
+    i0 = np.searchsorted(ix, x0)
+    n = len(ix) - i0
     # shift longitudinal values
     x = np.zeros(ix.shape, ix.dtype)
-    x[0:-i0] = ix[i0:]
-    x[-i0:] = ix[offset: i0+offset]
+    x[:n] = ix[i0:]
+    x[n:] = ix[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        x[-i0:] += cyclic
+        x[n:] += cyclic
     elif (direction == 'west'):
-        x[0:-i0] -= cyclic
+        x[:n] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n] = input_matrix[:,i0:]
+    temp[:,n:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, x)
 
-- 
2.43.0


From 17fd6cad4d12293c8c2df3a24adfccf5c63fb3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 38/81] fix: appending the node tide changed the constituents
 of FES models

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..f2111bc 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1040,7 +1040,7 @@ class model:
                 self.model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From 3c4ddb91512271aaed9847dd1a6d11626984b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 39/81] fix: FES currents were extracted from the files of
 every type

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f2111bc..0b359ff 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1037,7 +1037,7 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = copy.copy(self.constituents)
-- 
2.43.0


From e2536701bad0c4c8f75824d3ae5607081df3803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 40/81] fix: serializing a model changed its files of currents
 to strings

---
 pyTMD/io/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 0b359ff..99504fb 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -899,6 +899,8 @@ class model:
         d: dict
             Python dictionary to serialize
         """
+        # copy dictionary to leave the input unchanged
+        d = copy.copy(d)
         # iterate over keys
         for key, val in d.items():
             val = copy.copy(d[key])
-- 
2.43.0


From cbc95c374bf458281970aa272009be661df36f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 41/81] fix: interpolating an OTIS container changed the mask
 of its bathymetry

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index baadd67..7359611 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -819,7 +819,7 @@ def interpolate_constants(
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
     # input model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry)
+    bathymetry = np.ma.array(np.copy(constituents.bathymetry))
     bathymetry.mask = np.copy(constituents.mask)
     # interpolate depth and mask to output points
     if (kwargs['method'] == 'bilinear'):
-- 
2.43.0


From 400c2bf53e851c5dfe0304d844ac96438843fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 42/81] fix: writing files changed the attributes and variables
 of the caller

---
 pyTMD/spatial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index a5b2cdc..c53b10f 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -903,6 +903,8 @@ def to_netCDF4(
     # default arguments
     kwargs.setdefault('mode', 'w')
     kwargs.setdefault('data_type', 'drift')
+    # copy attributes to leave the input unchanged
+    attributes = copy.deepcopy(attributes)
     # opening NetCDF file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = netCDF4.Dataset(filename, kwargs['mode'], format="NETCDF4")
@@ -1083,6 +1085,8 @@ def to_HDF5(
     """
     # set default keyword arguments
     kwargs.setdefault('mode', 'w')
+    # copy attributes to leave the input unchanged
+    attributes = copy.deepcopy(attributes)
     # opening HDF5 file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = h5py.File(filename, mode=kwargs['mode'])
@@ -1157,7 +1161,7 @@ def to_geotiff(
     kwargs.setdefault('options', ['COMPRESS=LZW'])
     varname = copy.copy(kwargs['varname'])
     # verify grid dimensions to be iterable
-    output = expand_dims(output, varname=varname)
+    output = expand_dims(copy.copy(output), varname=varname)
     # grid shape
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
@@ -1228,6 +1232,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # copy attributes to leave the input unchanged
+    attributes = copy.deepcopy(attributes)
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
-- 
2.43.0


From 146c5e89b887e912d4121755fffcb4ea5fd13238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 43/81] fix: reading files changed an empty field mapping of
 the caller

---
 pyTMD/spatial.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c53b10f..8df31ce 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -422,17 +422,18 @@ def from_netCDF4(filename: str, **kwargs):
     attributes_list = ['description', 'units', 'long_name', 'calendar',
         'standard_name', 'grid_mapping', '_FillValue']
     # mapping between netCDF4 variable names and output names
-    if not kwargs['field_mapping']:
-        kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
-        kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
+    field_mapping = copy.copy(kwargs['field_mapping'])
+    if not field_mapping:
+        field_mapping['x'] = copy.copy(kwargs['xname'])
+        field_mapping['y'] = copy.copy(kwargs['yname'])
         if kwargs['varname'] is not None:
-            kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
+            field_mapping['data'] = copy.copy(kwargs['varname'])
         if kwargs['timename'] is not None:
-            kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
+            field_mapping['time'] = copy.copy(kwargs['timename'])
     # check if reading from root group or sub-group
     group = fileID.groups[kwargs['group']] if kwargs['group'] else fileID
     # for each variable
-    for key, nc in kwargs['field_mapping'].items():
+    for key, nc in field_mapping.items():
         # Getting the data from each NetCDF variable
         dinput[key] = group.variables[nc][:]
         # get attributes for the included variables
@@ -537,17 +538,18 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     attributes_list = ['description', 'units', 'long_name', 'calendar',
         'standard_name', 'grid_mapping', '_FillValue']
     # mapping between HDF5 variable names and output names
-    if not kwargs['field_mapping']:
-        kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
-        kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
+    field_mapping = copy.copy(kwargs['field_mapping'])
+    if not field_mapping:
+        field_mapping['x'] = copy.copy(kwargs['xname'])
+        field_mapping['y'] = copy.copy(kwargs['yname'])
         if kwargs['varname'] is not None:
-            kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
+            field_mapping['data'] = copy.copy(kwargs['varname'])
         if kwargs['timename'] is not None:
-            kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
+            field_mapping['time'] = copy.copy(kwargs['timename'])
     # check if reading from root group or sub-group
     group = fileID[kwargs['group']] if kwargs['group'] else fileID
     # for each variable
-    for key, h5 in kwargs['field_mapping'].items():
+    for key, h5 in field_mapping.items():
         # Getting the data from each HDF5 variable
         dinput[key] = np.copy(group[h5][:])
         # get attributes for the included variables
-- 
2.43.0


From ddbea44ab215def8efb0681fae4b8bcfdc7da8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:05 +0000
Subject: [PATCH 44/81] fix: definitions of models with a single file were
 split into characters

---
 pyTMD/io/model.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 99504fb..fecd971 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -733,8 +733,7 @@ class model:
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expand(model_file)
             elif (temp.type == 'z') and isinstance(temp.model_file, list):
                 # resolve paths to model files
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
@@ -778,12 +777,10 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expand(model_file)
             elif (temp.type == 'z'):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expand(temp.model_file)
         elif temp.format in ('FES-ascii','FES-netcdf','GOT-ascii','GOT-netcdf'):
             # extract model files
             if (temp.type == ['u','v']) and (temp.directory is not None):
@@ -813,12 +810,10 @@ class model:
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-                    temp.model_file[key] = [pathlib.Path(f).expanduser() for f in
-                        model_file]
+                    temp.model_file[key] = self._expand(model_file)
             elif (temp.type == 'z'):
                 # resolve paths to model files
-                temp.model_file = [pathlib.Path(f).expanduser() for f in
-                    temp.model_file]
+                temp.model_file = self._expand(temp.model_file)
         # verify that projection attribute exists for projected models
         if temp.format in ('OTIS','ATLAS-compact','TMD3'):
             assert temp.projection
@@ -834,6 +829,13 @@ class model:
         # return the model parameters
         return temp
 
+    @staticmethod
+    def _expand(model_file: str | list):
+        """Expands the paths to a single model file or a list of model files"""
+        if isinstance(model_file, (str, pathlib.Path)):
+            return pathlib.Path(model_file).expanduser()
+        return [pathlib.Path(f).expanduser() for f in model_file]
+
     def validate_format(self):
         """Asserts that the model format is a known type"""
         # known remapped cases
-- 
2.43.0


From 4fa6970646b58daecda6e32fc24ed0b32deb45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:05 +0000
Subject: [PATCH 45/81] fix: files of the components of currents were found in
 different orders

---
 pyTMD/io/model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index fecd971..755e8b9 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -712,24 +712,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
@@ -755,24 +755,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
                 #     raise FileNotFoundError(message) from exc
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
@@ -789,24 +789,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-- 
2.43.0


From 0e1d1433bba8e006a96892028c0c02d677f0465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:15 +0000
Subject: [PATCH 46/81] fix: only one constituent was read from single OTIS
 files found in a directory

---
 pyTMD/io/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 755e8b9..8f53e20 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -741,6 +741,13 @@ class model:
             else:
                 # fully defined single file case
                 temp.model_file = pathlib.Path(temp.model_file).expanduser()
+            # single files contain all constituents and are not a list
+            if isinstance(temp.model_file, dict):
+                for key, model_file in temp.model_file.items():
+                    if isinstance(model_file, list) and len(model_file) == 1:
+                        temp.model_file[key] = model_file[0]
+            elif isinstance(temp.model_file, list) and len(temp.model_file) == 1:
+                temp.model_file = temp.model_file[0]
         elif temp.format in ('ATLAS-netcdf',):
             assert temp.grid_file
             # check if grid file is relative
-- 
2.43.0


From 5460af34a68e6e34b6e0f07f272df59d834bdcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 47/81] fix: currents were interpolated from the constituents
 of the other component

---
 pyTMD/io/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 8f53e20..eb20a41 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1134,6 +1134,7 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        self._type = kwargs['type']
         return c
 
     def interpolate_constants(self,
@@ -1165,8 +1166,8 @@ class model:
         # set default keyword arguments
         kwargs.setdefault('type', self.type)
         kwargs.setdefault('scale', self.scale)
-        # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        # verify constituents of the type have been read
+        if not hasattr(self, '_constituents') or (self._type != kwargs['type']):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From daa597ff78776b4f28ed1fe31a33474771067af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 48/81] fix: paths of model files could not be completed

---
 pyTMD/io/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index eb20a41..75d852d 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -617,9 +617,9 @@ class model:
         if isinstance(model_file, list):
             output_file = [self.pathfinder(f) for f in model_file]
             valid = all([f.exists() for f in output_file])
-        elif isinstance(model_file, str):
+        else:
             output_file = self.directory.joinpath(
-                ''.join([model_file, self.gzip]))
+                ''.join([str(model_file), self.gzip]))
             valid = output_file.exists()
         # check that (all) output files exist
         if self.verify and not valid:
-- 
2.43.0


From e160d9f0b7d39cca7a4673202d2d9a9000546fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:52 +0000
Subject: [PATCH 49/81] fix: loading an additional database removed the known
 models

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 75d852d..62c28bc 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -126,7 +126,8 @@ def load_database(extra_databases: list = []):
     # load any additional databases
     for db in extra_databases:
         with open(db, 'r', encoding='utf-8') as fid:
-            parameters.update(json.load(fid))
+            for key, val in json.load(fid).items():
+                parameters.setdefault(key, {}).update(val)
     # return parameters
     return DataBase(**parameters)
 
-- 
2.43.0


From 0944f10ca1dad045dffcdb32835da902ab1d05e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:09 +0000
Subject: [PATCH 50/81] fix: definitions of models in the FES-ascii format were
 rejected

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 62c28bc..919e712 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -459,7 +459,8 @@ class model:
         # load the database of model parameters
         parameters = load_database()
         # extract all known formats
-        format_list = []
+        # FES-ascii is supported but not used by a model in the database
+        format_list = ['FES-ascii']
         for variable, models in parameters.items():
             for model, val in models.items():
                 format_list.append(val['format'])
-- 
2.43.0


From ae07ee88af4df4749817ba0adb85a3775f081998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:19 +0000
Subject: [PATCH 51/81] fix: models without files could not be serialized

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 919e712..34acdd5 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -917,7 +917,7 @@ class model:
             val = copy.copy(d[key])
             if isinstance(val, pathlib.Path):
                 d[key] = str(val)
-            elif isinstance(val, (list, tuple)) and isinstance(val[0], pathlib.Path):
+            elif isinstance(val, (list, tuple)) and val and isinstance(val[0], pathlib.Path):
                 d[key] = [str(v) for v in val]
             elif isinstance(val, dict):
                 d[key] = self.serialize(val)
-- 
2.43.0


From c855e5f79a98650752546994f357d1f1b1483987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:03 +0000
Subject: [PATCH 52/81] fix: node tides appended to containers were scaled
 again when interpolated

---
 pyTMD/io/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 34acdd5..9395d56 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1132,6 +1132,9 @@ class model:
             # calculate complex phase in radians for Euler's
             cph = -1j*ph*np.pi/180.0
             hc = amp*np.exp(cph)
+            # convert from meters to the units of the model constituents
+            if self.scale and self.format not in ('OTIS','ATLAS-compact','TMD3'):
+                hc = hc/self.scale
             # append constituent
             c.append('node', hc)
         # return the tidal constituents
-- 
2.43.0


From 796538644d13add454da4e6497efd2cbc3664d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 53/81] fix: points were compared with the bounds of the nodes
 of elevations for transports

---
 pyTMD/io/OTIS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 7359611..9720459 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -324,9 +324,6 @@ def extract_constants(
         # set global grid flag
         is_global = True
 
-    # determine if any input points are outside of the model bounds
-    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
-
     # update masks for each type
     if (kwargs['type'] == 'z'):
         # replace original values with extend matrices
@@ -367,6 +364,9 @@ def extract_constants(
         # y-coordinates for v transports
         yi -= dy/2.0
 
+    # determine if any input points are outside of the model bounds
+    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
+
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
-- 
2.43.0


From 21f4930395b67fe67237382ad6e3045fe5fdf179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:34 +0000
Subject: [PATCH 54/81] fix: depths were written twice in the grid files of
 OTIS models

---
 pyTMD/io/OTIS.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 9720459..d586304 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1816,7 +1816,6 @@ def output_otis_grid(
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
     for m in range(ny):
         hz[m,:].tofile(fid,format='>f4')
     fid.write(struct.pack('>i',reclen))
-- 
2.43.0


From 967940bd2d7e83f2d3f2239d93d1a86c37fa1eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:34 +0000
Subject: [PATCH 55/81] fix: OTIS files were written in the type and byte order
 of their arrays

---
 pyTMD/io/OTIS.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index d586304..0e1904c 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1799,8 +1799,8 @@ def output_otis_grid(
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.asarray(ylim).astype('>f4').tofile(fid)
+    np.asarray(xlim).astype('>f4').tofile(fid)
     fid.write(struct.pack('>f',dt))
     fid.write(struct.pack('>i',nob))
     fid.write(struct.pack('>i',reclen))
@@ -1811,17 +1811,17 @@ def output_otis_grid(
     else:
         reclen = 8*nob
         fid.write(struct.pack('>i',reclen))
-        iob.tofile(fid,format='>i4')
+        np.asarray(iob).astype('>i4').tofile(fid)
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-        hz[m,:].tofile(fid,format='>f4')
+        hz[m,:].astype('>f4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-        mz[m,:].tofile(fid,format='>i4')
+        mz[m,:].astype('>i4').tofile(fid)
     fid.write(struct.pack('>i',reclen))
     # close the output OTIS file
     fid.close()
@@ -1861,8 +1861,8 @@ def output_otis_elevation(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.asarray(ylim).astype('>f4').tofile(fid)
+    np.asarray(xlim).astype('>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1874,7 +1874,7 @@ def output_otis_elevation(
             temp = np.zeros((2*nx),dtype='>f')
             temp[0:2*nx-1:2] = h.real[m,:,ic]
             temp[1:2*nx:2] = h.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            temp.tofile(fid)
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
@@ -1917,8 +1917,8 @@ def output_otis_transport(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    np.asarray(ylim).astype('>f4').tofile(fid)
+    np.asarray(xlim).astype('>f4').tofile(fid)
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1932,7 +1932,7 @@ def output_otis_transport(
             temp[1:4*nx-2:4] = u.imag[m,:,ic]
             temp[2:4*nx-1:4] = v.real[m,:,ic]
             temp[3:4*nx:4] = v.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            temp.tofile(fid)
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
-- 
2.43.0


From 275da5139de4ba8588d2ae9906715a87e05afca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:34 +0000
Subject: [PATCH 56/81] fix: adjacent names of four characters were read as one
 constituent

---
 pyTMD/io/OTIS.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 0e1904c..8d463bc 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1181,7 +1181,8 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        names = fid.read(nc*4).decode("utf8")
+        constituents = [names[4*i:4*i+4].strip() for i in range(nc)]
         fid.close()
     return (constituents, nc)
 
@@ -1301,7 +1302,8 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        names = fid.read(nc1*4).decode("utf8")
+        cons = [names[4*i:4*i+4].strip() for i in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1466,7 +1468,8 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        names = fid.read(nc1*4).decode("utf8")
+        cons = [names[4*i:4*i+4].strip() for i in range(nc1)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From 3f43a04dd47175864fedb448e60da2b8ffa54caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 57/81] fix: FES currents could not be written to netCDF4 files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index beda495..1f8b475 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -833,7 +833,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From b56472829485b755c57d0fe64987392a404f3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 58/81] fix: compressed ascii FES models could not be read

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 1f8b475..aa12677 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -623,7 +623,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From ceb8f08e1f0d1464ef0050d74eaf99c5bfaf932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:40 +0000
Subject: [PATCH 59/81] fix: ascii model rows of an exact number of lines or of
 one line

---
 pyTMD/io/FES.py | 12 ++----------
 pyTMD/io/GOT.py | 14 +++-----------
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index aa12677..d7b58e7 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -651,21 +651,13 @@ def read_ascii_file(
     i1 = 5
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//30):
-            j1 = j*30
+        # tidal variables (last line can be shorter)
+        for j1 in range(0, nlon, 30):
             amplitude_data = file_contents[i1].split()
             amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[i1+1].split()
             ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
             i1 += 2
-        # add last tidal variables
-        j1 = (j+1)*30
-        j2 = nlon % 30
-        amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     hc = np.ma.array(amp*np.exp(-1j*ph*np.pi/180.0), mask=mask,
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index b31240d..8f6a474 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -603,25 +603,17 @@ def read_ascii_file(
     ph.mask = np.zeros((nlat,nlon),dtype=bool)
     # starting lines to fill amplitude and phase variables
     l1 = 7
-    l2 = 14 + int(nlon//11)*nlat + nlat
+    l2 = 14 + int((nlon + 10)//11)*nlat
     # for each latitude
     for i in range(nlat):
-        for j in range(nlon//11):
-            j1 = j*11
+        # tidal variables (last line can be shorter)
+        for j1 in range(0, nlon, 11):
             amplitude_data = file_contents[l1].split()
             amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
             phase_data = file_contents[l2].split()
             ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
             l1 += 1
             l2 += 1
-        # add last tidal variables
-        j1 = (j+1)*11; j2 = nlon % 11
-        amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
-        phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
-        l1 += 1
-        l2 += 1
     # set masks
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
     # calculate complex form of constituent oscillation
-- 
2.43.0


From eeae840ea268ef6994db55180955ecbb73487f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:30 +0000
Subject: [PATCH 60/81] fix: the EPSG keyword of extrapolate had no effect

---
 pyTMD/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index f651e50..ebca471 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -324,7 +324,7 @@ def extrapolate(
         interpolated data
     """
     # set geographic flag if using old EPSG projection keyword
-    if hasattr(kwargs, 'EPSG') and (kwargs['EPSG'] == '4326'):
+    if (kwargs.get('EPSG') == '4326'):
         is_geographic = True
     # verify output dimensions
     lon = np.atleast_1d(lon)
-- 
2.43.0


From 1295084745fae486a386c3ef0a32fc41341bdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:30 +0000
Subject: [PATCH 61/81] fix: leaflet maps could not be drawn without the
 marker_control option

---
 pyTMD/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/tools.py b/pyTMD/tools.py
index 9616eb6..5211f36 100644
--- a/pyTMD/tools.py
+++ b/pyTMD/tools.py
@@ -190,6 +190,7 @@ class leaflet:
         kwargs.setdefault('zoom_control',False)
         kwargs.setdefault('scale_control',False)
         kwargs.setdefault('cursor_control',True)
+        kwargs.setdefault('marker_control',False)
         kwargs.setdefault('layer_control',True)
         kwargs.setdefault('center',(39,-108))
         # create basemap in projection
-- 
2.43.0


From 840eecb06d4a025e26b975bf1e7bd9b23f67fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:41 +0000
Subject: [PATCH 62/81] fix: documented defaults follow the values options have

---
 pyTMD/check_points.py    |  2 +-
 pyTMD/compute.py         |  2 --
 pyTMD/interpolate.py     |  2 +-
 pyTMD/io/ATLAS.py        |  4 ++--
 pyTMD/io/OTIS.py         |  2 +-
 pyTMD/predict.py         |  2 +-
 pyTMD/solve/constants.py |  2 +-
 pyTMD/spatial.py         |  2 +-
 pyTMD/utilities.py       | 10 ++--------
 9 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/pyTMD/check_points.py b/pyTMD/check_points.py
index ae96905..cec5a71 100644
--- a/pyTMD/check_points.py
+++ b/pyTMD/check_points.py
@@ -100,7 +100,7 @@ def check_points(*args, **kwargs):
         Tide model files are gzip compressed
     DEFINITION_FILE: str or NoneType, default None
         Tide model definition file for use
-    EPSG: str or int, default: 3031 (Polar Stereographic South, WGS84)
+    EPSG: str or int, default: 4326 (WGS84 Latitude and Longitude)
         Input coordinate system
     METHOD: str, default 'spline'
         interpolation method
diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 0492243..1150fce 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -835,8 +835,6 @@ def LPET_elevations(
             - ``'TAI'``: leap seconds needed (TAI = GPS + 19 seconds)
             - ``'UTC'``: no leap seconds needed
             - ``'datetime'``: numpy datatime array in UTC
-    FILL_VALUE: float, default np.nan
-        Output invalid value
 
     Returns
     -------
diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index ebca471..d7606c5 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -307,7 +307,7 @@ def extrapolate(
         Output x-coordinates
     YI: np.ndarray
         Output y-coordinates
-    fill_value: float, default np.nan
+    fill_value: float, default None
         Invalid value
     dtype: np.dtype, default np.float64
         Output data type
diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 68f610e..b7391f1 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -179,7 +179,7 @@ def extract_constants(
         Extrapolation cutoff in kilometers
 
         Set to ``np.inf`` to extrapolate for all points
-    compressed: bool, default False
+    compressed: bool, default True
         Input files are gzip compressed
     scale: float, default 1.0
         Scaling factor for converting to output units
@@ -419,7 +419,7 @@ def read_constants(
             - ``'U'``: horizontal depth-averaged transport
             - ``'v'``: vertical transport velocities
             - ``'V'``: vertical depth-averaged transport
-    compressed: bool, default False
+    compressed: bool, default True
         Input files are gzip compressed
     crop: bool, default False
         Crop tide model data to (buffered) bounds
diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 8d463bc..3f878db 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2070,7 +2070,7 @@ def _shift(
         matrix to crop
     ix: np.ndarray
         x-coordinates of input grid
-    lon0: int or float, default 180
+    lon0: int or float
         Starting longitude for shifted grid
     cyclic: int or float, default 360
         width of periodic domain
diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 2f6ed88..5ecc33a 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -1292,7 +1292,7 @@ def solid_earth_tide(
         Earth-centered Earth-fixed coordinates of the sun (meters)
     LXYZ: np.ndarray
         Earth-centered Earth-fixed coordinates of the moon (meters)
-    a_axis: float, default 6378136.3
+    a_axis: float, default 6378136.6
         Semi-major axis of the Earth (meters)
     tide_system: str, default 'tide_free'
         Permanent tide system for the output solid Earth tide
diff --git a/pyTMD/solve/constants.py b/pyTMD/solve/constants.py
index 06c314a..fb8fd16 100644
--- a/pyTMD/solve/constants.py
+++ b/pyTMD/solve/constants.py
@@ -70,7 +70,7 @@ def constants(t: float | np.ndarray,
         - ``'gelss'``: singular value decomposition (SVD)
         - ``'gelsd'``: SVD with divide and conquer method
         - ``'bvls'``: bounded-variable least-squares
-    bounds: tuple, default (None, None)
+    bounds: tuple, default (-np.inf, np.inf)
         Lower and upper bounds on parameters for ``'bvls'``
     max_iter: int or None, default None
         Maximum number of iterations for ``'bvls'``
diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 8df31ce..69d1cc3 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -823,7 +823,7 @@ def to_ascii(
         full path of output ascii file
     delimiter: str, default ','
         delimiter for output spatial file
-    columns: list, default ['time', 'y', 'x', 'data']
+    columns: list, default ['time', 'lat', 'lon', 'tide']
         column names of ascii file
     header: bool, default False
         create a YAML header with data attributes
diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..6305f1d 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1040,9 +1040,9 @@ def build_opener(
 
     Parameters
     ----------
-    username: str or NoneType, default None
+    username: str
         NASA Earthdata username
-    password: str or NoneType, default None
+    password: str
         NASA Earthdata password
     context: obj, default pyTMD.utilities._default_ssl_context
         SSL context for ``urllib`` opener object
@@ -1117,8 +1117,6 @@ def get_token(
         NASA Earthdata password
     build: bool, default True
         Build opener and check WebDAV credentials
-    timeout: int or NoneType, default None
-        timeout in seconds for blocking operations
     urs: str, default 'urs.earthdata.nasa.gov'
         NASA Earthdata URS 3 host
 
@@ -1170,8 +1168,6 @@ def list_tokens(
         NASA Earthdata password
     build: bool, default True
         Build opener and check WebDAV credentials
-    timeout: int or NoneType, default None
-        timeout in seconds for blocking operations
     urs: str, default 'urs.earthdata.nasa.gov'
         NASA Earthdata URS 3 host
 
@@ -1226,8 +1222,6 @@ def revoke_token(
         NASA Earthdata password
     build: bool, default True
         Build opener and check WebDAV credentials
-    timeout: int or NoneType, default None
-        timeout in seconds for blocking operations
     urs: str, default 'urs.earthdata.nasa.gov'
         NASA Earthdata URS 3 host
     """
-- 
2.43.0


From c829aa7ce38072d28b6e1c4c978cf3592f981aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:44 +0000
Subject: [PATCH 63/81] fix: ocean pole tide maps ended before the 180th
 meridian

---
 pyTMD/io/IERS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 1758510..86bfdac 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -302,7 +302,7 @@ def _shift(
     """
     # find the starting index if cyclic
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
-    i0 = np.argmin(np.fabs(ilon - lon0))
+    i0 = np.searchsorted(ilon, lon0)
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
     lon[0:-i0] = ilon[i0:]
-- 
2.43.0


From 34f444b057ff53ba5fe81ad9ac726a49c49183b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:28 +0000
Subject: [PATCH 64/81] fix: ocean pole tides at longitudes above 180 were
 those of the edge of the map

---
 pyTMD/io/IERS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/IERS.py b/pyTMD/io/IERS.py
index 86bfdac..460f49d 100644
--- a/pyTMD/io/IERS.py
+++ b/pyTMD/io/IERS.py
@@ -110,6 +110,8 @@ def extract_coefficients(
     # read ocean pole tide map from Desai (2002)
     Umap = {}
     Umap['R'], Umap['N'], Umap['E'], ilon, ilat = read_binary_file(**kwargs)
+    # convert input longitudes to the convention of the map (-180:180)
+    lon = np.where(np.asarray(lon) > 180.0, np.asarray(lon) - 360.0, lon)
     # interpolate ocean pole tide map from Desai (2002)
     Uint = {}
     if (kwargs['method'] == 'spline'):
-- 
2.43.0


From bead75d36ce1195fbf94670af84f9a6e7dc6ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:27 +0000
Subject: [PATCH 65/81] fix: former time functions could not be called

---
 pyTMD/time.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyTMD/time.py b/pyTMD/time.py
index c5400b0..4789ada 100644
--- a/pyTMD/time.py
+++ b/pyTMD/time.py
@@ -54,6 +54,7 @@ import logging
 import warnings
 import numpy as np
 import timescale.time
+import timescale.time as _time
 
 __all__ = [
     "parse",
@@ -109,7 +110,7 @@ def parse(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse",
         DeprecationWarning)
-    return timescale.time.parse(date_string)
+    return _time.parse(date_string)
 
 # PURPOSE: parse a date string into epoch and units scale
 def parse_date_string(date_string: str):
@@ -133,7 +134,7 @@ def parse_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.parse_date_string",
         DeprecationWarning)
-    return timescale.time.parse_date_string(date_string)
+    return _time.parse_date_string(date_string)
 
 # PURPOSE: split a date string into units and epoch
 def split_date_string(date_string: str):
@@ -147,7 +148,7 @@ def split_date_string(date_string: str):
     """
     warnings.warn("Deprecated. Please use timescale.time.split_date_string",
         DeprecationWarning)
-    return timescale.time.split_date_string(date_string)
+    return _time.split_date_string(date_string)
 
 # PURPOSE: convert a datetime object into a list
 def datetime_to_list(date):
@@ -166,7 +167,7 @@ def datetime_to_list(date):
     """
     warnings.warn("Deprecated. Please use timescale.time.datetime_to_list",
         DeprecationWarning)
-    return timescale.time.datetime_to_list(date)
+    return _time.datetime_to_list(date)
 
 # days per month in a leap and a standard year
 # only difference is February (29 vs. 28)
@@ -190,7 +191,7 @@ def calendar_days(year: int | float | np.ndarray) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.calendar_days",
         DeprecationWarning)
-    return timescale.time.calendar_days(year)
+    return _time.calendar_days(year)
 
 # PURPOSE: convert a numpy datetime array to delta times since an epoch
 def convert_datetime(*args, **kwargs):
@@ -211,7 +212,7 @@ def convert_datetime(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_datetime",
         DeprecationWarning)
-    return timescale.time.convert_datetime(*args, **kwargs)
+    return _time.convert_datetime(*args, **kwargs)
 
 # PURPOSE: convert times from seconds since epoch1 to time since epoch2
 def convert_delta_time(*args, **kwargs):
@@ -231,7 +232,7 @@ def convert_delta_time(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_delta_time",
         DeprecationWarning)
-    return timescale.time.convert_delta_time(*args, **kwargs)
+    return _time.convert_delta_time(*args, **kwargs)
 
 # PURPOSE: calculate the delta time from calendar date
 # http://scienceworld.wolfram.com/astronomy/JulianDate.html
@@ -265,7 +266,7 @@ def convert_calendar_dates(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_dates",
         DeprecationWarning)
-    return timescale.time.convert_calendar_dates(*args, **kwargs)
+    return _time.convert_calendar_dates(*args, **kwargs)
 
 # PURPOSE: Converts from calendar dates into decimal years
 def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
@@ -297,7 +298,7 @@ def convert_calendar_decimal(*args, **kwargs) -> np.ndarray:
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_calendar_decimal(*args, **kwargs)
+    return _time.convert_calendar_decimal(*args, **kwargs)
 
 # PURPOSE: Converts from Julian day to calendar date and time
 def convert_julian(*args, **kwargs):
@@ -335,7 +336,7 @@ def convert_julian(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.time.convert_calendar_decimal",
         DeprecationWarning)
-    return timescale.time.convert_julian(*args, **kwargs)
+    return _time.convert_julian(*args, **kwargs)
 
 # delta time (TT - UT1) file
 _delta_file = timescale.utilities.get_data_path(['data','merged_deltat.data'])
-- 
2.43.0


From 2501ec4aec9ba43863655e47ee5c4bbcda3611ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:27 +0000
Subject: [PATCH 66/81] fix: former pole coordinates function returned nothing

---
 pyTMD/eop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/eop.py b/pyTMD/eop.py
index c07221c..c8e66d6 100644
--- a/pyTMD/eop.py
+++ b/pyTMD/eop.py
@@ -119,7 +119,7 @@ def pull_pole_coordinates(*args, **kwargs):
     """
     warnings.warn("Deprecated. Please use timescale.eop.pull_pole_coordinates",
         DeprecationWarning)
-    timescale.eop.pull_pole_coordinates(*args, **kwargs)
+    return timescale.eop.pull_pole_coordinates(*args, **kwargs)
 
 # PURPOSE: connects to servers and downloads finals files
 def update_finals_file(**kwargs):
-- 
2.43.0


From dde5a50c9be2bbbc97773f5c321c6bad62eefe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:23 +0000
Subject: [PATCH 67/81] fix: solid earth tides of gridded files could not be
 computed

Coordinates of grids are converted to cartesian as lists of points, as
in pyTMD.compute.
---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..36e67a9 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -245,7 +245,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
-- 
2.43.0


From 1d6b1b5422dcbd842649c033db5da1aec76ff1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:23 +0000
Subject: [PATCH 68/81] fix: solid earth tides of gridded files were those of
 the next day

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 36e67a9..5a9326f 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -276,7 +276,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From c90981c5cd4e2e142615d1deb7b45149736bc15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:09 +0000
Subject: [PATCH 69/81] fix: programs could not read ascii files with the
 default names of columns

---
 scripts/compute_LPET_elevations.py   | 4 +++-
 scripts/compute_LPT_displacements.py | 4 +++-
 scripts/compute_OPT_displacements.py | 4 +++-
 scripts/compute_SET_displacements.py | 4 +++-
 scripts/compute_tidal_currents.py    | 4 +++-
 scripts/compute_tidal_elevations.py  | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..19713b8 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -160,7 +160,9 @@ def compute_LPET_elevations(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of latitudes and longitudes are the coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..cb1de3d 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -184,7 +184,9 @@ def compute_LPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of latitudes and longitudes are the coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..d3e90bf 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -204,7 +204,9 @@ def compute_OPT_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of latitudes and longitudes are the coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 5a9326f..5829cba 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -182,7 +182,9 @@ def compute_SET_displacements(input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of latitudes and longitudes are the coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..720511a 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -251,7 +251,9 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of latitudes and longitudes are the coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..c46340b 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -259,7 +259,9 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     # read input file to extract time, spatial coordinates and data
     if (FORMAT == 'csv'):
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
-        dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
+        # columns of latitudes and longitudes are the coordinates of the data
+        columns = [{'lat':'y', 'lon':'x'}.get(v, v) for v in VARIABLES]
+        dinput = pyTMD.spatial.from_ascii(input_file, columns=columns,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
-- 
2.43.0


From f555916c7a5fedb68e5e9beb83bcb48960304c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 70/81] fix: attributes of netCDF4 files were lost when the
 name of another began with theirs

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 69d1cc3..93b8ffb 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -414,7 +414,7 @@ def from_netCDF4(filename: str, **kwargs):
     for attr in ['title', 'description', 'projection']:
         # try getting the attribute
         try:
-            ncattr, = [s for s in fileID.ncattrs() if re.match(attr, s, re.I)]
+            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
             dinput['attributes'][attr] = fileID.getncattr(ncattr)
         except (ValueError, AttributeError):
             pass
@@ -442,7 +442,7 @@ def from_netCDF4(filename: str, **kwargs):
             # try getting the attribute
             try:
                 ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.match(attr, s, re.I)]
+                    if re.fullmatch(attr, s, re.I)]
                 dinput['attributes'][key][attr] = \
                     group.variables[nc].getncattr(ncattr)
             except (ValueError, AttributeError):
-- 
2.43.0


From 29ae25573c6003721d165984bb26da58533c4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 71/81] fix: values of files with a fill value of NaN were not
 masked

---
 pyTMD/spatial.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 93b8ffb..06b2782 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -248,6 +248,23 @@ def from_file(filename: str, format: str, **kwargs):
         raise ValueError(f'Invalid format {format}')
     return dinput
 
+def fill_mask(data: np.ndarray, fill_value: float):
+    """
+    Find the invalid values of an array
+
+    Parameters
+    ----------
+    data: np.ndarray
+        data values
+    fill_value: float
+        fill value of the data
+    """
+    # NaN values do not compare as equal
+    if np.isnan(fill_value):
+        return np.isnan(data)
+    else:
+        return (data == fill_value)
+
 def from_ascii(filename: str, **kwargs):
     """
     Read data from an ascii file
@@ -357,7 +374,8 @@ def from_ascii(filename: str, **kwargs):
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = fill_mask(dinput['data'].data,
+            dinput['data'].fill_value)
     # return the spatial variables
     return dinput
 
@@ -466,7 +484,8 @@ def from_netCDF4(filename: str, **kwargs):
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = fill_mask(dinput['data'].data,
+            dinput['data'].fill_value)
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
@@ -578,7 +597,8 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
         dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask = fill_mask(dinput['data'].data,
+            dinput['data'].fill_value)
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
@@ -676,7 +696,8 @@ def from_geotiff(filename: str, **kwargs):
         # mask invalid values
         dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
         # create mask array for bad values
-        dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'].mask[:] = fill_mask(dinput['data'].data,
+            dinput['data'].fill_value)
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
-- 
2.43.0


From 5f7cdfcd852f6c86e98bccb2cb26dda68c1538dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 72/81] fix: values of geotiff files with a fill value of zero
 were not masked

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 06b2782..5286e58 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -692,7 +692,7 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
         # mask invalid values
         dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
         # create mask array for bad values
-- 
2.43.0


From 881c525ac026a91f64eaf037ed2188c0c4833b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 73/81] fix: compressed HDF5 files given as a string could not
 be read

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 5286e58..1913d55 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -529,7 +529,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From a6eeb23430472ea5bae53af1bddc31be4ca870ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 74/81] fix: scalar variables of HDF5 files were written as
 zero

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 1913d55..b8c7557 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1127,7 +1127,7 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From b90cec57e0f734af0e4f7f3b8cbb1ece47e2fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 75/81] fix: variables of existing HDF5 files could not be
 written

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index b8c7557..4837b12 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1117,7 +1117,8 @@ def to_HDF5(
     h5 = {}
     for key, val in output.items():
         if key in fileID:
-            fileID[key][...] = val[:]
+            h5[key] = fileID[key]
+            h5[key][...] = val
         elif '_FillValue' in attributes[key].keys():
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
-- 
2.43.0


From 7b1ca2174e29d815116074b63149c7880b27c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:22 +0000
Subject: [PATCH 76/81] fix: fill values of HDF5 files were not read back

---
 pyTMD/spatial.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 4837b12..b7d3025 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1123,7 +1123,6 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-            attributes[key].pop('_FillValue')
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
-- 
2.43.0


From 4fc5a332cd3489a642548ede610966adc41bc9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:43 +0000
Subject: [PATCH 77/81] fix: variables of existing netCDF4 files could not be
 written

---
 pyTMD/spatial.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index b7d3025..fa4127d 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -971,12 +971,15 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
 
     # Defining the NetCDF dimensions
-    fileID.createDimension('time', len(np.atleast_1d(output['time'])))
+    if 'time' not in fileID.dimensions:
+        fileID.createDimension('time', len(np.atleast_1d(output['time'])))
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
+            # fill values can only be set for new variables
+            attributes[key].pop('_FillValue', None)
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('time',),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
@@ -1011,14 +1014,16 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 3]
     ny, nx, nt = output[reference_fields[0]].shape
-    fileID.createDimension('y', ny)
-    fileID.createDimension('x', nx)
-    fileID.createDimension('time', nt)
+    for name, size in dict(y=ny, x=nx, time=nt).items():
+        if name not in fileID.dimensions:
+            fileID.createDimension(name, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
+            # fill values can only be set for new variables
+            attributes[key].pop('_FillValue', None)
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
@@ -1061,13 +1066,16 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 2]
     nstation, nt = output[reference_fields[0]].shape
-    fileID.createDimension('station', nstation)
-    fileID.createDimension('time', nt)
+    for name, size in dict(station=nstation, time=nt).items():
+        if name not in fileID.dimensions:
+            fileID.createDimension(name, size)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
+            # fill values can only be set for new variables
+            attributes[key].pop('_FillValue', None)
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-- 
2.43.0


From ff649b0b858ccefcd440f5e77fe6f4976afd3d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:43 +0000
Subject: [PATCH 78/81] fix: coordinates of netCDF4 grids with dimensions of
 the same size had the first of them

---
 pyTMD/spatial.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index fa4127d..70cef4b 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1019,6 +1019,10 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
             fileID.createDimension(name, size)
     # defining the NetCDF variables
     nc = {}
+    # dimensions of the coordinates (dimensions can be of the same size)
+    coordinates = dict(t='time', time='time', lon='x', longitude='x', x='x',
+        lat='y', latitude='y', y='y')
+    sizes = dict(y=ny, x=nx, time=nt)
     for key, val in output.items():
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
@@ -1032,6 +1036,10 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'))
+        elif (key in coordinates) and val.shape and \
+            (len(val) == sizes[coordinates[key]]):
+            nc[key] = fileID.createVariable(key, val.dtype,
+                (coordinates[key],))
         elif val.shape and (len(val) == ny):
             nc[key] = fileID.createVariable(key, val.dtype, ('y',))
         elif val.shape and (len(val) == nx):
@@ -1082,7 +1090,8 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
             attributes[key].pop('_FillValue')
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
-        elif val.shape and (len(val) == nt):
+        elif val.shape and (len(val) == nt) and \
+            ((nt != nstation) or (key in ('t', 'time'))):
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         elif val.shape and (len(val) == nstation):
             nc[key] = fileID.createVariable(key, val.dtype, ('station',))
-- 
2.43.0


From fd110666159a7d5666bd172cc5d2c26b03a4ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:38 +0000
Subject: [PATCH 79/81] fix: files with longer names were read instead of those
 of another case

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 70cef4b..803bcc2 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -177,7 +177,7 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     if not filename.exists():
         # search for filename without case dependence
         f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+            re.fullmatch(re.escape(filename.name), f.name, re.I)]
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From e1bc415013dc15de0e1482cdb98b5b4712f0376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:06 +0000
Subject: [PATCH 80/81] fix: binary file objects of ascii files could not be
 read

---
 pyTMD/spatial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 803bcc2..eeb9752 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -302,7 +302,11 @@ def from_ascii(filename: str, **kwargs):
             file_contents = f.read().decode('ISO-8859-1').splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = filename.read()
+        # decode the contents of binary file objects
+        if isinstance(file_contents, bytes):
+            file_contents = file_contents.decode('ISO-8859-1')
+        file_contents = file_contents.splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
-- 
2.43.0


From 5c86a7b99b107496a195ef6b905d9a19fc69d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:15 +0000
Subject: [PATCH 81/81] fix: fill values of the headers of ascii files were
 strings

---
 pyTMD/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index eeb9752..e9f691c 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -377,7 +377,8 @@ def from_ascii(filename: str, **kwargs):
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
         dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
+        dinput['data'].fill_value = np.float64(
+            dinput['attributes']['data']['_FillValue'])
         dinput['data'].mask = fill_mask(dinput['data'].data,
             dinput['data'].fill_value)
     # return the spatial variables
-- 
2.43.0

