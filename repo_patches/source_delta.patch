From 20ecbfc097b8613b5987f7c75ee127c486131440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 01/42] fix: do not index the deficit area before checking that
 an hour has a deficit

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index c001c67..62fddd2 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -138,7 +138,6 @@ def hour(
         FLAG = 0
         MARGIN = (SYSCON[:NOAREA] - CAPREQ[:NOAREA]).astype(int)
         FLAG += sum(MARGIN < 0)
-        IT = np.where(MARGIN < 0)[0][-1]
 
         if FLAG == 0:
             # print('Returning: No Loss')
@@ -149,6 +148,7 @@ def hour(
                 JHOURT,
             )
 
+        IT = np.where(MARGIN < 0)[0][-1]
         NSHRT = FLAG
         LNCAP = np.zeros(NLINES)
 
-- 
2.43.0


From 6dee46293021e88664c1e968bb42d4ff400c4213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 02/42] fix: number the last hour of a year 8759, not -1

---
 reliabilityassessment/monte_carlo/hour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 62fddd2..7d2413b 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -87,7 +87,7 @@ def hour(
 
     # ..............UPDATE HOUR NUMBER.............
     DXX = 8760
-    JHOUR = -1 + int(CLOCK % DXX)  # DMOD(CLOCK,DXX) in original Fortran
+    JHOUR = int((CLOCK - 1) % DXX)  # DMOD(CLOCK,DXX) in original Fortran
     # need to minus 1 due to 0-based index in Python!
 
     # need to double check
-- 
2.43.0


From 4996aabf3becf8e93db9de577d0029918eb1c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 03/42] fix: keep the drawn states between daily Monte Carlo
 draws

---
 reliabilityassessment/monte_carlo/hour.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 7d2413b..13b874c 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -10,6 +10,10 @@ from reliabilityassessment.monte_carlo.pkstat import pkstat
 from reliabilityassessment.monte_carlo.sumcap import sumcap
 from reliabilityassessment.monte_carlo.transm import transm
 
+# generator, line and contract states of the last draw, which stay in force in the
+# hours between two draws (daily Monte Carlo draws, JFREQ = 24)
+_LAST_DRAW = {}
+
 
 def hour(
     ATRIB,
@@ -101,11 +105,13 @@ def hour(
 
     # ......Draw generator states and sum capacities by area...............
     NOAREA = CAPOWN.shape[0]
-    if JHOUR % JFREQ == 0 or JFREQ == 1:
+    if JHOUR % JFREQ == 0 or JFREQ == 1 or JSTEP == 24:
         PCTAVL, AVAIL = gstate(IGSEED, PROBG, RATING, DERATE, PLNDST)
         CAPAVL, SYSOWN, SYSCON, TRNSFJ = sumcap(AVAIL, CAPOWN, CAPCON)
         LNSTAT = lstate(ILSEED, PROBL)
         TRNSFR = findtn(JENT, INTCH, JDAY)
+        _LAST_DRAW["states"] = PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR
+    PCTAVL, AVAIL, SYSCON, TRNSFJ, LNSTAT, TRNSFR = _LAST_DRAW["states"]
 
     # STMULT(I,1) IS FORWARD DIRECTION ADJUSTMENT
     # STMULT(I,2) IS BACKWARD DIRECTION ADJUSTMENT
-- 
2.43.0


From dfd3f3d85aad254dcdb5ccc11f7b90c90119cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 04/42] fix: accept a single-area deficit covered by its direct
 neighbors

---
 reliabilityassessment/monte_carlo/hour.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/hour.py b/reliabilityassessment/monte_carlo/hour.py
index 13b874c..40893a7 100644
--- a/reliabilityassessment/monte_carlo/hour.py
+++ b/reliabilityassessment/monte_carlo/hour.py
@@ -164,13 +164,20 @@ def hour(
             else:
                 NEED = abs(MARGIN[IT])
                 for j in np.where(MARGIN > 0)[0]:
-                    N = LINENO[j, IT]
+                    N = max(LINENO[j, IT], LINENO[IT, j])
                     if N > -1:
                         M = (LNSTAT[N] - 1) * 3 + 1
                         XX = BLPA[N, M + (LP[N, 1] != j)]
                         LNCAP[N] = int(XX)
                         MXHELP = min(MARGIN[j], LNCAP[N])
                         NEED -= MXHELP
+                if NEED <= 0:  # direct neighbors cover the whole deficit
+                    return (
+                        NUMINQ,
+                        MFA,
+                        IPOINT,
+                        JHOURT,
+                    )
 
             TEMPFL = int(any(MARGIN < 0))
 
-- 
2.43.0


From 8c566446da6cc8d59d6d2a9df6307087f74cbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 05/42] fix: apply the planned outages in the week they are
 scheduled for

---
 reliabilityassessment/monte_carlo/week.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/week.py b/reliabilityassessment/monte_carlo/week.py
index 2625ab9..a2fd6ae 100644
--- a/reliabilityassessment/monte_carlo/week.py
+++ b/reliabilityassessment/monte_carlo/week.py
@@ -29,16 +29,18 @@ def week(CLOCK, ATRIB, MFA, NUMINQ, IPOINT, EVNTS, PLNDST, JHOUR, JPLOUT):
     .. note:: ATRIB, PLNDST, EVNTS are modified in place.
     """
 
-    # assigning the event attribute by shifting the clock for a week
-    ATRIB[0] = CLOCK + 168
+    # assigning the event attribute by shifting the clock for a week, except that the
+    # next year restarts with its own first week
+    ATRIB[0] = min(CLOCK + 168, (CLOCK // 8760 + 1) * 8760 + 0.5)
 
     # place new entry into the event list
     NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
 
     PLNDST[:] = 1.0
 
-    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index
-    JWEEK = JHOUR // 168
+    # in original Fortran code JWEEK = JHOUR/168 + 1 due to 1-based index; JHOUR is the
+    # last simulated hour, the week that begins is the one of the hour after it
+    JWEEK = (JHOUR + 1) // 168 if JHOUR != 8759 else 0
     if JWEEK > 51:
         return IPOINT, MFA, NUMINQ
 
-- 
2.43.0


From ff1d22dab88452b97eed50ff77a5b5fb6316286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 06/42] fix: start the first season with the ratings of the
 first season

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index cdaa8b6..7282194 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -94,7 +94,7 @@ def narpMain(TEST_DIR):
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
     ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
-    IQ = 0  # initialize the quarter index to be 0 (i.e., the 1st quarter)
+    IQ = -1  # the first quarterly event sets it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
     XLAST = 0.0  # initial values for convergence-related quantities
-- 
2.43.0


From 6a5f70e3efb2fdbf82844e2220acb940d4bfb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 07/42] fix: change the season at the weeks given in the input

---
 reliabilityassessment/monte_carlo/initl.py    | 9 +++++----
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/initl.py b/reliabilityassessment/monte_carlo/initl.py
index d94c98c..955f656 100644
--- a/reliabilityassessment/monte_carlo/initl.py
+++ b/reliabilityassessment/monte_carlo/initl.py
@@ -74,13 +74,14 @@ def _initl(JSTEP, EVNTS, IPOINT, MFA, NUMINQ, QTR):
     return ATRIB, CLOCK, IPOINT, MFA, NUMINQ
 
 
-def initl(JSTEP, EVNTS):
+def initl(JSTEP, EVNTS, QTR=(2184.5, 4368.5, 6552.5)):
     """
     Initialization for the Monte Carlo Simulation
 
     :param int JSTEP: frequency of simulation statistics collection, 1: hourly 24:
         daily, i.e. only peak stats are collected
     :param numpy.ndarray EVNTS: 1D array of events
+    :param numpy.ndarray QTR: hours of the three quarterly changes within a year
     :return: (*tuple*) -- ATRIB: events attribute vector of length 2
                                  ATRIB[0] -- global simulation clock (in unit: hour)
                                  ATRIB[1] -- int, simulation type
@@ -102,9 +103,9 @@ def initl(JSTEP, EVNTS):
     EVNTS[:28] = np.array(
         [
             24,   0.5,    3, 0.0,  # noqa: E241 1st quarterly state change
-            8.0,  2184.5, 3, 0.0,  # noqa: E241 2nd quarterly state change
-            12.0, 4368.5, 3, 0.0,  # noqa: E241 3rd quarterly state change
-            16.0, 6552.5, 3, 0.0,  # noqa: E241 4th quarterly state change
+            8.0,  QTR[0], 3, 0.0,  # noqa: E241 2nd quarterly state change
+            12.0, QTR[1], 3, 0.0,  # noqa: E241 3rd quarterly state change
+            16.0, QTR[2], 3, 0.0,  # noqa: E241 4th quarterly state change
             -1.0, 8760.0, 4, 0.0,  # noqa: E241 first call to subroutine "year"
             0,    0.5,    2, 0.0,  # noqa: E241 first call to subroutine "week"
             4.0,  JSTEP,  1, 0.0,  # noqa: E241 first Monte Carlo draw
diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 7282194..93fc1f7 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -93,7 +93,7 @@ def narpMain(TEST_DIR):
     # ----------------------------Finish data processing part--------------------------
 
     # ----------------------------Begin Monte Carlo simulation part --------------------------
-    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS)
+    ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(JSTEP, EVNTS, QTR)
     IQ = -1  # the first quarterly event sets it to 0 (i.e., the 1st quarter)
     JHOUR = 0  # initialize the hour index
     SSQ = 0.0
-- 
2.43.0


From e5df470aeb1194fc90bb6d7dd65e78372b80db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 08/42] fix: reset the annual statistics of every area at the
 end of a year

---
 reliabilityassessment/monte_carlo/year.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 45f622d..e1ab26a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -634,14 +634,14 @@ def year(
     WGNTPP = 0.0
     WOLTPP = 0.0
 
-    LOLTHA[:NFCST, :NOAREA] = 0
-    LOLGHA[:NFCST, :NOAREA] = 0
-    MGNTHA[:NFCST, :NOAREA] = 0
-    MGNGHA[:NFCST, :NOAREA] = 0
-    LOLTPA[:NFCST, :NOAREA] = 0
-    LOLGPA[:NFCST, :NOAREA] = 0
-    MGNTPA[:NFCST, :NOAREA] = 0
-    MGNGPA[:NFCST, :NOAREA] = 0
+    LOLTHA[:NOAREA, :NFCST] = 0
+    LOLGHA[:NOAREA, :NFCST] = 0
+    MGNTHA[:NOAREA, :NFCST] = 0
+    MGNGHA[:NOAREA, :NFCST] = 0
+    LOLTPA[:NOAREA, :NFCST] = 0
+    LOLGPA[:NOAREA, :NFCST] = 0
+    MGNTPA[:NOAREA, :NFCST] = 0
+    MGNGPA[:NOAREA, :NFCST] = 0
 
     LOLTHP[:NFCST] = 0
     LOLGHP[:NFCST] = 0
-- 
2.43.0


From c0297247b6d869a8383ed8635d0847bab5f140f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 09/42] fix: print the annual pool statistics of a year without
 generation shortage

---
 reliabilityassessment/monte_carlo/year.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index e1ab26a..ffcffa4 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -485,13 +485,13 @@ def year(
         for N in range(NFCST):
             if LOLGHP[N] > 0:
                 XMGNH = (MGNGHP[N]) / (LOLGHP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNH = 0.0
 
             if LOLGPP[N] > 0:
                 XMGNP = (MGNGPP[N]) / (LOLGPP[N])
-            # else:
-            # XMGN = 0.0  # maybe for future usage
+            else:
+                XMGNP = 0.0
 
             if INDX != 1:
                 f.write(
-- 
2.43.0


From 8cf3bb813c756b79907996819940377541e1276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 10/42] fix: carry the weighted pool sums from year to year

---
 reliabilityassessment/monte_carlo/narpMain.py | 25 ++++++++++---------
 reliabilityassessment/monte_carlo/year.py     |  2 +-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 93fc1f7..41e32ef 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -156,29 +156,30 @@ def narpMain(TEST_DIR):
     SOLTPA = np.zeros((NOAREA, 5))
     SOLTPP = np.zeros(5)
     SWLGHA = np.zeros(NOAREA)
-    SWLGHP = 0
+    # 0-dimensional arrays, which function 'year' can accumulate in place
+    SWLGHP = np.zeros(())
     SWLGPA = np.zeros(NOAREA)
-    SWLGPP = 0
+    SWLGPP = np.zeros(())
     SWLSHA = np.zeros(NOAREA)
-    SWLSHP = 0
+    SWLSHP = np.zeros(())
     SWLSPA = np.zeros(NOAREA)
-    SWLSPP = 0
+    SWLSPP = np.zeros(())
     SWLTHA = np.zeros(NOAREA)
-    SWLTHP = 0
+    SWLTHP = np.zeros(())
     SWLTPA = np.zeros(NOAREA)
-    SWLTPP = 0
+    SWLTPP = np.zeros(())
     SWNGHA = np.zeros(NOAREA)
-    SWNGHP = 0
+    SWNGHP = np.zeros(())
     SWNGPA = np.zeros(NOAREA)
-    SWNGPP = 0
+    SWNGPP = np.zeros(())
     SWNSHA = np.zeros(NOAREA)
-    SWNSHP = 0
+    SWNSHP = np.zeros(())
     SWNSPA = np.zeros(NOAREA)
-    SWNSPP = 0
+    SWNSPP = np.zeros(())
     SWNTHA = np.zeros(NOAREA)
-    SWNTHP = 0
+    SWNTHP = np.zeros(())
     SWNTPA = np.zeros(NOAREA)
-    SWNTPP = 0
+    SWNTPP = np.zeros(())
     XNEWA = np.zeros((NOAREA, 3))
     XNEWP = np.zeros(3)
 
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index ffcffa4..fc6b927 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -716,7 +716,7 @@ def year(
                 else:
                     SUM = SGNSPP[NOERR]
 
-    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ)
+    RFLAG, SSQ, XLAST = cvchk(CLOCK, FINISH, IYEAR, CVTEST, float(SUM), XLAST, SSQ)
     NOERR = 1
 
     if IYEAR == INTVT:
-- 
2.43.0


From 2224d1c0b2fdd483dc47da57e1cd5a1caf27dc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 11/42] fix: report the first constrained quantity of the LP
 solution with its own sign

---
 reliabilityassessment/monte_carlo/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/net.py b/reliabilityassessment/monte_carlo/net.py
index 298b0cf..b80531e 100644
--- a/reliabilityassessment/monte_carlo/net.py
+++ b/reliabilityassessment/monte_carlo/net.py
@@ -36,7 +36,7 @@ def _net(B, B1, RES, IBAS, BS, M, N):
 
     for i in range(M):
         k = IBAS[i]
-        if k > NX1:
+        if k >= NX1:
             RES[k, 0] = -BS[i]
             continue
         RES[k, 0] = BS[i]
@@ -80,7 +80,7 @@ def net(B, B1, RES, IBAS, BS, M, N):
     RES[:N, :3] = 0
 
     RES[IBAS[:M], 0] = BS[:M]
-    RES[IBAS[:M][IBAS[:M] > N - M], 0] *= -1
+    RES[IBAS[:M][IBAS[:M] >= N - M], 0] *= -1
 
     RES[N - M : N, 1][B1[:M] < 0] = 1
     RES[N - M : N, 0] += B[:M]
-- 
2.43.0


From 9e1f0211c00d0d301ae0ca5511b85395110a2178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 12/42] fix: take the lost admittance of a line to the
 reference area out of the B matrix

---
 reliabilityassessment/monte_carlo/tm2.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index f76c144..c791321 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -97,13 +97,12 @@ def tm2(
         NII = IEQ[NI]
         BIJ = BLP[i, 0]
 
-        if BIJ == 0.0:
-            continue
-
         for bij in [BIJ, -BLP0[i]]:
+            if bij == 0.0:
+                continue
             ZIJ = -1 / bij
             Z = ximpar(ZB, ZIJ, NII)
-            admref(BB, NII, BIJ)
+            admref(BB, NII, bij)
             ZB[:NX, :NX] = Z[:NX, :NX].copy()
 
     # Assigns injections at buses so as to balance
-- 
2.43.0


From 34460cc33757a1f4ffa4110135722b409c06d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 13/42] fix: restore the impedance matrix, not the B matrix,
 into ZB after the LP

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index c791321..dc1928f 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -301,6 +301,6 @@ def tm2(
 
     # GO TO 1000
     BB[:NX, :NX] = BT[:NX, :NX].copy()
-    ZB[:NX, :NX] = BT[:NX, :NX].copy()
+    ZB[:NX, :NX] = ZT[:NX, :NX].copy()
 
     return FLOW, INDIC
-- 
2.43.0


From 2db2d80a94c46e8c5145a52f9853c6fa916477cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 14/42] fix: call conls() with the arguments it takes

---
 reliabilityassessment/monte_carlo/tm2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index dc1928f..46f21da 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -233,7 +233,7 @@ def tm2(
                 )
     else:
         M, N, N1, A, XOB, XOBI, IBAS, BS, B, B1, TAB = conls(
-            BB, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS
+            BB, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS
         )
 
         # NXT = NX + 1 defined but not used in original Fortran
-- 
2.43.0


From 82d0571fb583073952f5c17beeef0abe1915bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 15/42] fix: write the units on outage to the traout file

---
 reliabilityassessment/monte_carlo/tm2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index 46f21da..ae825b8 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -190,18 +190,18 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
-            for i in range[JXX]:
+            for i in range(JXX):
                 f.write("%4d\n " % (NNTAB[i]))
 
             if JFLAG != 1:
@@ -265,15 +265,15 @@ def tm2(
             JXX = 0
             for i in range(NUNITS):
                 if PLNDST[i] != 1.0:
-                    JXX += 1
                     NNTAB[JXX] = i
+                    JXX += 1
                     continue
                 if PCTAVL[i] == 1.0:
                     continue
-                JXX += 1
                 NNTAB[JXX] = i
                 if PCTAVL[i] != 0.0:
                     NNTAB[JXX] = -i
+                JXX += 1
 
             f.write("%4d\n" % (JXX))
             for i in range(JXX):
-- 
2.43.0


From a4dababbbab4f8baf5f315568f456f8aea7b7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 16/42] fix: count every scheduled line flow against the limits
 of the two areas it joins

---
 reliabilityassessment/monte_carlo/transm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/transm.py b/reliabilityassessment/monte_carlo/transm.py
index de0446c..266c51c 100644
--- a/reliabilityassessment/monte_carlo/transm.py
+++ b/reliabilityassessment/monte_carlo/transm.py
@@ -112,10 +112,11 @@ def transm(
         BLP[:NL, 1] -= FLOW[:NL]
         BLP[:NL, 2] += FLOW[:NL]
         BLP[:NL, [1, 2]] = BLP[:NL, [1, 2]].clip(min=0.0)
-        BN[LP[:NL, 1], 3] += FLOW[:NL]
-        BN[LP[:NL, 1], 4] -= FLOW[:NL]
-        BN[LP[:NL, 2], 3] += FLOW[:NL]
-        BN[LP[:NL, 2], 4] -= FLOW[:NL]
+        np.add.at(BN[:, 3], LP[:NL, 1], FLOW[:NL])
+        np.subtract.at(BN[:, 4], LP[:NL, 1], FLOW[:NL])
+        np.subtract.at(BN[:, 3], LP[:NL, 2], FLOW[:NL])
+        np.add.at(BN[:, 4], LP[:NL, 2], FLOW[:NL])
+        BN[:NN, [3, 4]] = BN[:NN, [3, 4]].clip(min=0.0)
 
     FLOW, INDIC = tm2(
         BN,
-- 
2.43.0


From 1689a2411e209a2e943e1d0392dad1be6e1ddcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 17/42] fix: do not take the root of a variance rounded to less
 than zero

---
 reliabilityassessment/monte_carlo/cvchk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/cvchk.py b/reliabilityassessment/monte_carlo/cvchk.py
index 75cb245..b3b20cf 100644
--- a/reliabilityassessment/monte_carlo/cvchk.py
+++ b/reliabilityassessment/monte_carlo/cvchk.py
@@ -34,7 +34,8 @@ def cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
 
     XX = CVTEST * XMEAN if CVTEST else 0.025 * XMEAN
 
-    STDERR = pow(((SSQ / IYEAR) - XMEAN**2) / IYEAR, 0.5)
+    # the variance of equal years may be rounded to less than zero
+    STDERR = pow(max((SSQ / IYEAR) - XMEAN**2, 0.0) / IYEAR, 0.5)
 
     # how many multiples of our "COV" to the given threshold
     XKCPXX = STDERR / XX if XX else 0.0
@@ -103,7 +104,7 @@ def _cvchk(CLOCK, FINISH, IYEAR, CVTEST, SUM, XLAST, SSQ):
         XX = CVTEST * XMEAN
 
     VAR = (SSQ / IYEAR) - (XMEAN**2)
-    STD = pow(VAR, 0.5)
+    STD = pow(max(VAR, 0.0), 0.5)
 
     STDERR = STD / (IYEAR**0.5)
     XKCPXX = 0.0
-- 
2.43.0


From 8bcc2fbb8c710dd98c5eb48f7f3d4286916a7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 18/42] fix: keep the EUE distribution step positive

---
 reliabilityassessment/monte_carlo/narpMain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index 41e32ef..e078c92 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -83,7 +83,7 @@ def narpMain(TEST_DIR):
         NAMA,
     ) = dataf1(filepaths)
 
-    LSTEP = int(MAXEUE // 20)
+    LSTEP = max(int(MAXEUE // 20), 1)
     NUNITS = PROBG.shape[0]
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
-- 
2.43.0


From c138b10cb5d9753102f20699940007882e2055fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 19/42] fix: read area numbers of more than one digit in LEEI

---
 reliabilityassessment/data_processing/xldnew.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index 9d4f510..a0d8ff4 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -27,7 +27,7 @@ def xldnew(FileNameAndPath, PKLOAD):
 
     for line in Lines:
         if line[:4] == "AREA":
-            areaIdx = int(line[6]) - 1
+            areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
             HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-- 
2.43.0


From b236a4f157b9b99f26a5a5416efa3b2de1267661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 20/42] fix: find the fourth season in resca()

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index 02b6437..bd78bd6 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.argmax(QTR > IDAY * 24)
+        IPER = np.count_nonzero(QTR < IDAY * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 857a90126e297f56a83e6087f564545d6779e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 21/42] fix: include the last week of the year in the planned
 outage table

---
 reliabilityassessment/data_processing/smaint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index de2f88b..e2f61e6 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -90,7 +90,7 @@ def smaint(
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
                 # the index of last week of a simulation year is 51
-                j2 = min(51, j1 + ID[i, wi + 1])
+                j2 = min(52, j1 + ID[i, wi + 1])
                 # increase total number of units under maintenance for the weeks
                 JPLOUT[j1:j2, 0] += 1
                 JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
-- 
2.43.0


From 3df74dc3a7d17a372b85e2e12e8177e395e15575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 22/42] fix: read firm contracts

---
 reliabilityassessment/data_processing/datax.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index cb83588..db28f4e 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -119,15 +119,19 @@ def datax(inputB_dict):
     INTCHR = np.zeros((MAX_CONTRACTS, 2))
     if inputB_dict["ZZFC"] and len(inputB_dict["ZZFC"]["SNRI"]) > 0:
         for i, (src, dst) in enumerate(
-            dict.fromkeys(zip(inputB_dict["ZZFC"]["NAR"]), inputB_dict["ZZFC"]["NAE"])
+            zip(inputB_dict["ZZFC"]["NAR"], inputB_dict["ZZFC"]["NAE"])
         ):
-            JENT[src, dst] = i
-            INTCHR[i, :] = src, dst
+            # contracts of the same two areas share a pointer
+            if JENT[src, dst] == -1:
+                JENT[src, dst] = JENT.max() + 1
+            L = JENT[src, dst]
+            INTCHR[L, :] = src, dst
+            # days are numbered from 1 in the input, the last one is included
             beg_day, end_day = (
                 inputB_dict["ZZFC"]["BEG DAY"][i],
                 inputB_dict["ZZFC"]["END DAY"][i],
             )
-            INTCH[i, beg_day : end_day + 1] = inputB_dict["ZZFC"]["MW"][i]
+            INTCH[L, beg_day - 1 : end_day] += inputB_dict["ZZFC"]["MW"][i]
 
     # --------------------------------------------------------------
     # Read ownership of units and create appropriate arrays.
-- 
2.43.0


From d65afe1e229ae0a802c2fc2b319fc67dc53cebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 23/42] fix: read the ownership of a unit by each area

---
 reliabilityassessment/data_processing/readInputB.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index f7ef13a..ae699cd 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -473,7 +473,12 @@ def read_card_ZZOD(filepath):
     """
     Percentage ownership by each area
     """
-    data["PERCENT"] = df_ZZOD["PERCENT OWNED BY AREA"].to_numpy()
+    data["PERCENT"] = np.array(
+        [
+            list(map(float, str(percent).split(",")))
+            for percent in df_ZZOD["PERCENT OWNED BY AREA"]
+        ]
+    )
 
     return data
 
-- 
2.43.0


From 874030651cd52c02e9600c262b37dd30a8749903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 24/42] fix: do not report the root of a variance rounded to
 less than zero

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index b7e95a5..5deea90 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -451,10 +451,10 @@ def report(
 
     for IAR in range(NOAREA):
         for J in range(3):
-            SSQA[IAR, J] = (SSQA[IAR, J] / XYEAR) ** 0.5
+            SSQA[IAR, J] = (max(SSQA[IAR, J], 0.0) / XYEAR) ** 0.5
 
     for J in range(3):
-        SSQP[J] = (SSQP[J] / XYEAR) ** 0.5
+        SSQP[J] = (max(SSQP[J], 0.0) / XYEAR) ** 0.5
 
     SUSTAT[NOAREA, 3] = XLOL
     SUSTAT[NOAREA, 4] = XLOLP
-- 
2.43.0


From 15a0fd7c6360649f5bfe7b892a1bd9ffdf91eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 25/42] fix: report the reserve of the pool, not of its last
 area

---
 reliabilityassessment/monte_carlo/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/report.py b/reliabilityassessment/monte_carlo/report.py
index 5deea90..bd4cfee 100644
--- a/reliabilityassessment/monte_carlo/report.py
+++ b/reliabilityassessment/monte_carlo/report.py
@@ -534,8 +534,8 @@ def report(
         SUSTAT[NO1, 0] += SUSTAT[i, 0]
         SUSTAT[NO1, 1] += SUSTAT[i, 1]
 
-    if SUSTAT[i, 0] > 0:
-        SUSTAT[NO1, 2] = (SUSTAT[i, 1] - SUSTAT[i, 0]) / SUSTAT[i, 0] * 100
+    if SUSTAT[NO1, 0] > 0:
+        SUSTAT[NO1, 2] = (SUSTAT[NO1, 1] - SUSTAT[NO1, 0]) / SUSTAT[NO1, 0] * 100
 
     if INDX != 1:
         SSHL = 0.0
-- 
2.43.0


From 087051eb4f92c8225accb2622e6a1bf1a5a1771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 26/42] fix: save the random number streams and the pool sums
 in the snapshot

---
 reliabilityassessment/monte_carlo/events.py |  2 ++
 reliabilityassessment/monte_carlo/intm.py   | 24 +++++++++++++++
 reliabilityassessment/monte_carlo/year.py   | 34 ++++++++++++++++++---
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/events.py b/reliabilityassessment/monte_carlo/events.py
index d435845..4732c82 100644
--- a/reliabilityassessment/monte_carlo/events.py
+++ b/reliabilityassessment/monte_carlo/events.py
@@ -357,6 +357,8 @@ def events(
             SWNTPP,
             XNEWA,
             XNEWP,
+            IGSEED,
+            ILSEED,
         )
         return (
             RFLAG,
diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 2a4e5ef..88ae1c4 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -41,6 +41,18 @@ def intm(
     SWNSPA,
     SWNGPA,
     SWNTPA,
+    SWLSHP,
+    SWLGHP,
+    SWLTHP,
+    SWNSHP,
+    SWNGHP,
+    SWNTHP,
+    SWLSPP,
+    SWLGPP,
+    SWLTPP,
+    SWNSPP,
+    SWNGPP,
+    SWNTPP,
     SOLTHP,
     SOLGHP,
     SOLSHP,
@@ -118,6 +130,18 @@ def intm(
         "SWNSPA": SWNSPA,
         "SWNGPA": SWNGPA,
         "SWNTPA": SWNTPA,
+        "SWLSHP": SWLSHP,
+        "SWLGHP": SWLGHP,
+        "SWLTHP": SWLTHP,
+        "SWNSHP": SWNSHP,
+        "SWNGHP": SWNGHP,
+        "SWNTHP": SWNTHP,
+        "SWLSPP": SWLSPP,
+        "SWLGPP": SWLGPP,
+        "SWLTPP": SWLTPP,
+        "SWNSPP": SWNSPP,
+        "SWNGPP": SWNGPP,
+        "SWNTPP": SWNTPP,
         "SOLTHP": SOLTHP,
         "SOLGHP": SOLGHP,
         "SOLSHP": SOLSHP,
diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index fc6b927..3f993bb 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -106,6 +106,8 @@ def year(
     SWNTPP,
     XNEWA,
     XNEWP,
+    IGSEED=None,
+    ILSEED=None,
 ):
     """
     Update and summarize all reliability statistics when this 'simulation-year' event is triggered
@@ -731,8 +733,8 @@ def year(
             ITAB,
             INTVT,
             EVNTS,
-            123,  # IGSEED,
-            123,  # ILSEED,
+            IGSEED,
+            ILSEED,
             LT,
             BB,
             ZB,
@@ -760,6 +762,18 @@ def year(
             SWNSPA,
             SWNGPA,
             SWNTPA,
+            SWLSHP,
+            SWLGHP,
+            SWLTHP,
+            SWNSHP,
+            SWNGHP,
+            SWNTHP,
+            SWLSPP,
+            SWLGPP,
+            SWLTPP,
+            SWNSPP,
+            SWNGPP,
+            SWNTPP,
             SOLTHP,
             SOLGHP,
             SOLSHP,
@@ -798,8 +812,8 @@ def year(
                 ITAB,
                 INTVT,
                 EVNTS,
-                123,  # IGSEED,
-                123,  # ILSEED,
+                IGSEED,
+                ILSEED,
                 LT,
                 BB,
                 ZB,
@@ -827,6 +841,18 @@ def year(
                 SWNSPA,
                 SWNGPA,
                 SWNTPA,
+                SWLSHP,
+                SWLGHP,
+                SWLTHP,
+                SWNSHP,
+                SWNGHP,
+                SWNTHP,
+                SWLSPP,
+                SWLGPP,
+                SWLTPP,
+                SWNSPP,
+                SWNGPP,
+                SWNTPP,
                 SOLTHP,
                 SOLGHP,
                 SOLSHP,
-- 
2.43.0


From 864cef11436a47ecd44e7c812cf2ecf11bd53c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 27/42] fix: find a line by its place in the line data, not by
 its line number

---
 reliabilityassessment/data_processing/datax.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index db28f4e..a18c816 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -158,7 +158,8 @@ def datax(inputB_dict):
     LP[:, 0] = deepcopy(inputB_dict["ZZTD"]["LineID"])  # idx (int) for the line
     LP[:, 1] = deepcopy(inputB_dict["ZZTD"]["NAR"])  # idx (int) for 'from area'
     LP[:, 2] = deepcopy(inputB_dict["ZZTD"]["NAE"])
-    LINENO[LP[:, 1], LP[:, 2]] = LP[:, 0]  # idx (int) for 'to area'
+    # the entries of 'LP', 'BLPA' and 'PROBL' follow the order of the line data cards
+    LINENO[LP[:, 1], LP[:, 2]] = np.arange(NLINES)
 
     # Convert discrete probability to cumulative probability
     # PROBL(k,l) cumulative probability that line l is in state k, k=0,...5
-- 
2.43.0


From 8270d92236e3778e55cc563ba7ce87cc6c9f4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 28/42] fix: do not move the planned outages of the only unit
 of an area

---
 reliabilityassessment/data_processing/pmsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index 8c51e70..c09dfbb 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -858,7 +858,8 @@ def pmsc(
     f.close()
 
     ITAB = ITC
-    for i in range(NGU):
+    # the first row is empty, the units arranged by plant are in the i1 rows after it
+    for i in range(1, i1 + 1):
         IND = ID1[i, 0]
         IND = NR0[IND]
         ID[IND, 3] = (
-- 
2.43.0


From b346362b61e059cf23637445ff2f2407daedbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 29/42] fix: run without the optional data cards

---
 .../data_processing/readInputB.py             | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index ae699cd..2773fde 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -4,6 +4,20 @@ import numpy as np
 import pandas as pd
 
 
+def read_optional_csv(filename, columns):
+    """
+    Read the csv file of an optional card.
+
+    :param str filename: file path of the csv.
+    :param list columns: names of the columns, used if there is no such file.
+    :return: (*pandas.DataFrame*) -- the content of the file, without any entry if
+        there is no such file.
+    """
+    if not os.path.exists(filename):
+        return pd.DataFrame(columns=columns)
+    return pd.read_csv(filename)
+
+
 def read_card_ZZTC(filepath):
     """
     ZZTC: title card
@@ -412,7 +426,10 @@ def read_card_ZZFC(filepath):
     Default values (zero , empty , None, etc.) will be given here
     """
 
-    df_ZZFC = pd.read_csv(os.path.join(filepath, "ZZFC.csv"))
+    df_ZZFC = read_optional_csv(
+        os.path.join(filepath, "ZZFC.csv"),
+        ["SN", "FROM AREA", "TO AREA", "BEG DAY", "END DAY", "MW"],
+    )
     data = dict()
 
     """
@@ -457,7 +474,10 @@ def read_card_ZZOD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZOD = pd.read_csv(os.path.join(filepath, "ZZOD.csv"))
+    df_ZZOD = read_optional_csv(
+        os.path.join(filepath, "ZZOD.csv"),
+        ["SN", "UNIT NAME", "PERCENT OWNED BY AREA"],
+    )
     data = dict()
 
     """
@@ -499,7 +519,11 @@ def read_card_ZZDD(filepath):
     Default values (zero , empty , None, etc.) will be used here
     """
 
-    df_ZZDD = pd.read_csv(os.path.join(filepath, "ZZDD.csv"))
+    df_ZZDD = read_optional_csv(
+        os.path.join(filepath, "ZZDD.csv"),
+        ["SN", "LINE NUMBER", "UNIT1", "UNIT2", "UNIT3", "UNIT4"]
+        + ["FORWARD", "BACKWARD"],
+    )
     data = dict()
 
     """
-- 
2.43.0


From f85aa84433f4d59c0f9da009a7dea431959f96bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 30/42] fix: label the totals of an area in the annual table of
 the daily mode

---
 reliabilityassessment/monte_carlo/year.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/year.py b/reliabilityassessment/monte_carlo/year.py
index 3f993bb..dc9ab8a 100644
--- a/reliabilityassessment/monte_carlo/year.py
+++ b/reliabilityassessment/monte_carlo/year.py
@@ -416,7 +416,7 @@ def year(
                 else:
                     f.write(
                         "\n  %2d  %2d         %8.2f  %8.2f            %s\n"
-                        % (J, N, LOLSPA[J, N], XMGNP, XT)
+                        % (J, N, LOLSPA[J, N], XMGNP, XS)
                     )
 
             if WOLGHA[J] > 0.0:
-- 
2.43.0


From 1e3de30499c633225e38a8f7d01adc0fb9159dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 31/42] fix: keep artificial variables at zero in the second
 phase of the simplex

---
 reliabilityassessment/monte_carlo/linp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index dc0e9b9..01ab5d5 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -116,6 +116,13 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if IPH != 2 and BS[i] == 0 and XOB[IBAS[i]] == 1:
                     IPIV = i
 
+            if IPH == 2:
+                # an artificial variable that is still in the basis has to stay zero:
+                # it leaves the basis before the entering variable can increase it
+                for i in np.where(IBAS[:M] >= N1)[0]:
+                    if P[i] < -1e-07:
+                        IPIV = i
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
-- 
2.43.0


From a51411cfade0f5944e8c7ee291827ab5724ccf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 32/42] fix: arrange the entries of the input cards by their
 serial numbers

---
 .../data_processing/readInputB.py             | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/reliabilityassessment/data_processing/readInputB.py b/reliabilityassessment/data_processing/readInputB.py
index 2773fde..7e70318 100644
--- a/reliabilityassessment/data_processing/readInputB.py
+++ b/reliabilityassessment/data_processing/readInputB.py
@@ -4,6 +4,18 @@ import numpy as np
 import pandas as pd
 
 
+def read_csv_by_serial_number(filename):
+    """
+    Read the csv file of a card and arrange its entries by their serial numbers.
+
+    :param str filename: file path of the csv.
+    :return: (*pandas.DataFrame*) -- the content of the file in the sequence
+        specified under SN.
+    """
+    df = pd.read_csv(filename)
+    return df.sort_values("SN", kind="stable", ignore_index=True)
+
+
 def read_optional_csv(filename, columns):
     """
     Read the csv file of an optional card.
@@ -15,7 +27,7 @@ def read_optional_csv(filename, columns):
     """
     if not os.path.exists(filename):
         return pd.DataFrame(columns=columns)
-    return pd.read_csv(filename)
+    return read_csv_by_serial_number(filename)
 
 
 def read_card_ZZTC(filepath):
@@ -192,7 +204,7 @@ def read_card_ZZLD(filepath):
     :return: (*dict*) -- a dictionary contains info from the raw dataframe with
         designated keys.
     """
-    df_ZZLD = pd.read_csv(os.path.join(filepath, "ZZLD.csv"))
+    df_ZZLD = read_csv_by_serial_number(os.path.join(filepath, "ZZLD.csv"))
     data = dict()
 
     RATES = np.zeros((len(df_ZZLD), 3))
@@ -270,7 +282,7 @@ def read_card_ZZUD(filepath):
         designated keys.
     """
 
-    df_ZZUD = pd.read_csv(os.path.join(filepath, "ZZUD.csv"))
+    df_ZZUD = read_csv_by_serial_number(os.path.join(filepath, "ZZUD.csv"))
     data = dict()
 
     # Note: the original Fortran code set the HRLOAD array as INT type;
@@ -369,7 +381,7 @@ def read_card_ZZTD(filepath):
         designated keys.
     """
 
-    df_ZZTD = pd.read_csv(os.path.join(filepath, "ZZTD.csv"))
+    df_ZZTD = read_csv_by_serial_number(os.path.join(filepath, "ZZTD.csv"))
     data = dict()
 
     ADM = np.zeros((len(df_ZZTD), 6))
-- 
2.43.0


From 2ad6277ba9e22d0bd8a9b420e4fd6937c130fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 33/42] fix: leave cycles of degenerate pivots in the simplex
 by Bland's rule

---
 reliabilityassessment/monte_carlo/linp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index 01ab5d5..52e588f 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -39,6 +39,7 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
 
     IR = 0
     INV = 0
+    NDEG = 0  # successive pivots that leave the solution where it is
     XOB[:N] = XOBI[0, :N].copy()
 
     IPH = 1
@@ -62,6 +63,8 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                     continue
                 if CC < CM:
                     IND, CM = i, CC
+                    if NDEG > N:  # Bland's rule: the first candidate (no cycling)
+                        break
 
             if CM < 0:
                 break  # GO TO 400
@@ -110,6 +113,10 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                 if ICOUN == 1:
                     RAT1, IPIV = RAT, i
                     continue
+                if NDEG > N and abs(RAT - RAT1) < 1e-09:
+                    if IBAS[i] < IBAS[IPIV]:  # Bland's rule, among equal ratios
+                        RAT1, IPIV = RAT, i
+                    continue
                 if RAT < RAT1:
                     RAT1, IPIV = RAT, i
                     continue
@@ -123,6 +130,8 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                     if P[i] < -1e-07:
                         IPIV = i
 
+            NDEG = NDEG + 1 if abs(BS[IPIV]) < 1e-09 else 0
+
             for i in np.where(P[:M] != 0)[0]:
                 if i == IPIV:
                     continue
-- 
2.43.0


From 5c494d7fafd7d30357326e015291d26686f46fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 34/42] fix: rate installed capacity in the season that begins
 on the peak day

---
 reliabilityassessment/data_processing/resca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/resca.py b/reliabilityassessment/data_processing/resca.py
index bd78bd6..a880936 100644
--- a/reliabilityassessment/data_processing/resca.py
+++ b/reliabilityassessment/data_processing/resca.py
@@ -37,7 +37,7 @@ def resca(SUSTAT, MAXDAY, QTR, CAPOWN, RATES, JENT, INTCH):
     NOAREA = SUSTAT.shape[0] - 1
     for i in range(NOAREA):
         IDAY = MAXDAY[i]
-        IPER = np.count_nonzero(QTR < IDAY * 24)
+        IPER = np.count_nonzero(QTR < (IDAY + 1) * 24)
         for j in range(NUINTS):
             SUSTAT[i, 1] += CAPOWN[i, j] * RATES[j, IPER]
 
-- 
2.43.0


From 7e683df8c52fc1ce9a99020038053f4af654ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:52 +0000
Subject: [PATCH 35/42] fix: an interrupted snapshot destroyed the previous one

---
 reliabilityassessment/monte_carlo/intm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/intm.py b/reliabilityassessment/monte_carlo/intm.py
index 88ae1c4..1a4c1fb 100644
--- a/reliabilityassessment/monte_carlo/intm.py
+++ b/reliabilityassessment/monte_carlo/intm.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 
 
@@ -163,5 +164,9 @@ def intm(
         "LSFLG": LSFLG,
     }
 
-    with open("DUMP.pkl", "wb") as fp:
+    # the previous snapshot stays in place until the new one is complete
+    with open("DUMP.pkl.tmp", "wb") as fp:
         pickle.dump(snapshot_data, fp)
+        fp.flush()
+        os.fsync(fp.fileno())
+    os.replace("DUMP.pkl.tmp", "DUMP.pkl")
-- 
2.43.0


From 6f0ba86857f7c85ae0395f45856db105dbe128f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 36/42] fix: a unit whose two outages overlap was listed twice
 in a week

The outage table has room for every unit once; with all units on outage
in one week and a unit listed twice the preparation ended in an error.
---
 reliabilityassessment/data_processing/smaint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/smaint.py b/reliabilityassessment/data_processing/smaint.py
index e2f61e6..f1bc264 100644
--- a/reliabilityassessment/data_processing/smaint.py
+++ b/reliabilityassessment/data_processing/smaint.py
@@ -86,13 +86,17 @@ def smaint(
     JPLOUT[:, 0] = 0
 
     for i in range(NUNITS):
+        # a unit is listed once in a week, also if its two outages overlap
+        on_outage = np.zeros(52, dtype=bool)
         for wi in {3, 5}:
             if ID[i, wi] != -1:
                 j1 = ID[i, wi]
                 # the index of last week of a simulation year is 51
                 j2 = min(52, j1 + ID[i, wi + 1])
-                # increase total number of units under maintenance for the weeks
-                JPLOUT[j1:j2, 0] += 1
-                JPLOUT[np.arange(j1, j2), JPLOUT[j1:j2, 0]] = int(ID[i, 0])
+                on_outage[j1:j2] = True
+        weeks = np.flatnonzero(on_outage)
+        # increase total number of units under maintenance for the weeks
+        JPLOUT[weeks, 0] += 1
+        JPLOUT[weeks, JPLOUT[weeks, 0]] = int(ID[i, 0])
 
     return JPLOUT, ITAB
-- 
2.43.0


From 73a9f38e68acb1f955de375d113650bf64d4a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 37/42] fix: size the linear programs' arrays by the system,
 not 200 by 250

---
 reliabilityassessment/monte_carlo/conls.py  | 5 +++--
 reliabilityassessment/monte_carlo/connls.py | 5 +++--
 reliabilityassessment/monte_carlo/tm2.py    | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/reliabilityassessment/monte_carlo/conls.py b/reliabilityassessment/monte_carlo/conls.py
index a8a18e5..962dced 100644
--- a/reliabilityassessment/monte_carlo/conls.py
+++ b/reliabilityassessment/monte_carlo/conls.py
@@ -83,8 +83,9 @@ def conls(BC, INJ, NX, NR, LT, BLP, LP, BN, LOD, NLS):
     NP1 = 3 * NX + 1
     NP = 2 * NX + 1
     NP2 = NP1 + NX1
-    NMAX1 = 250
-    NMAX2 = 200
+    # the arrays have to hold all constraints and variables of large systems as well
+    NMAX1 = max(250, 2 * NX + 7 * NX1 + 2 * len(BLP))
+    NMAX2 = max(200, 5 * NX1 + 2 * len(BLP))
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/connls.py b/reliabilityassessment/monte_carlo/connls.py
index 49f537b..8a05c27 100644
--- a/reliabilityassessment/monte_carlo/connls.py
+++ b/reliabilityassessment/monte_carlo/connls.py
@@ -92,8 +92,9 @@ def connls(BC, INJ, INJB, NX, NR, LT, BLP, LP, BN, LOD, NLS):
                            And modify several arrays in place.
     """
 
-    NMAX2 = 200
-    NMAX1 = 250
+    # the arrays have to hold all constraints and variables of large systems as well
+    NMAX2 = max(200, 4 * (NX + 1) + 2 * len(BLP))
+    NMAX1 = max(250, 2 * NX + 5 * (NX + 1) + 2 * len(BLP))
 
     # Index-related array must be initialized "-1"!
     IEQ = (-1) * np.ones(NX + 1, dtype=int)  # originally in Fortran np.zeros(20)
diff --git a/reliabilityassessment/monte_carlo/tm2.py b/reliabilityassessment/monte_carlo/tm2.py
index ae825b8..469ba19 100644
--- a/reliabilityassessment/monte_carlo/tm2.py
+++ b/reliabilityassessment/monte_carlo/tm2.py
@@ -149,7 +149,7 @@ def tm2(
         ZB[:NX, :NX] = ZT[:NX, :NX].copy()
         return FLOW, INDIC
 
-    RES = np.zeros((250, 3))  # may use "N" as its size (check later)
+    RES = np.zeros((max(250, 9 * NN + 2 * NL), 3))  # as wide as the programs
     NUNITS = len(PLNDST)
     NNTAB = np.zeros(NUNITS)  # in Fortran, np.zeros(600)
 
-- 
2.43.0


From b7cf55918a55d786a66e91f6d222fc41e34fdadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:22 +0000
Subject: [PATCH 38/42] fix: hold every contract when there are more than 60
 contract cards

---
 reliabilityassessment/data_processing/datax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/data_processing/datax.py b/reliabilityassessment/data_processing/datax.py
index a18c816..9833a40 100644
--- a/reliabilityassessment/data_processing/datax.py
+++ b/reliabilityassessment/data_processing/datax.py
@@ -111,7 +111,9 @@ def datax(inputB_dict):
     # if "-1", means none (use "0" here will cause bug since "0-based array index" in Python)
     # otherwise, means the integer index L used in INTCH(L,N).
     JENT = -1 * np.ones((NOAREA, NOAREA), dtype=int)
-    MAX_CONTRACTS = 60  # the maximum possible count of fixed contracts; can be adjusted
+    MAX_CONTRACTS = 60  # the usual count of fixed contracts; more if there are more cards
+    if inputB_dict["ZZFC"]:
+        MAX_CONTRACTS = max(MAX_CONTRACTS, len(inputB_dict["ZZFC"]["SNRI"]))
 
     # INTCH(L,N): contract interchanges MW between areas indicated by pointer L, day N.
     INTCH = np.zeros((MAX_CONTRACTS, 365))
-- 
2.43.0


From 1ed155aba457c55413a19a49323d28757ea03885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 39/42] fix: look again at small pivots of the simplex, with
 the inverse of the basis

---
 reliabilityassessment/monte_carlo/linp.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reliabilityassessment/monte_carlo/linp.py b/reliabilityassessment/monte_carlo/linp.py
index 52e588f..6833150 100644
--- a/reliabilityassessment/monte_carlo/linp.py
+++ b/reliabilityassessment/monte_carlo/linp.py
@@ -40,6 +40,7 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
     IR = 0
     INV = 0
     NDEG = 0  # successive pivots that leave the solution where it is
+    NPIV = 0  # pivots since TAB was computed from the basis
     XOB[:N] = XOBI[0, :N].copy()
 
     IPH = 1
@@ -96,6 +97,7 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
             BS[:M] = 0.0
             BS[:M] += TABT @ BS1
             TAB = TABT.copy()
+            NPIV = 0
 
             IR = 1
             # GO TO 111 while loop
@@ -130,6 +132,16 @@ def linp(M, N, A, XOB, XOBI, IBAS, BS, LCLOCK, N1):
                     if P[i] < -1e-07:
                         IPIV = i
 
+            if abs(P[IPIV]) < 1e-03 and NPIV > 0:
+                # a small pivot may consist of rounding errors: look for it again,
+                # with TAB computed from the basis
+                TAB = A[:M, IBAS[:M]]
+                dgedi(TAB, M, dgeco(TAB, M))
+                BS[:M] = TAB @ BS1
+                NPIV = 0
+                continue  # GO TO 110
+
+            NPIV += 1
             NDEG = NDEG + 1 if abs(BS[IPIV]) < 1e-09 else 0
 
             for i in np.where(P[:M] != 0)[0]:
-- 
2.43.0


From df99bd49650bc265bc73d137d8ea450a27a07582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 40/42] fix: schedule the maintenance of areas with more than
 500 units

---
 reliabilityassessment/data_processing/pmsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reliabilityassessment/data_processing/pmsc.py b/reliabilityassessment/data_processing/pmsc.py
index c09dfbb..7cc072b 100644
--- a/reliabilityassessment/data_processing/pmsc.py
+++ b/reliabilityassessment/data_processing/pmsc.py
@@ -70,12 +70,12 @@ def pmsc(
     """
 
     ITC = ITAB
-    INUO = 500  # the possible maximum number of units
-    INPO = 150  # the possible maximum number of plants
 
     N = 0  # N is the highest plant number
 
     NUNITS = ID.shape[0]
+    INUO = NUNITS  # the possible maximum number of units
+    INPO = NUNITS  # the possible maximum number of plants
 
     # Below are all local arrays created for the conveneice in intermedaite computation
     INDEX = np.zeros((INUO, 2))  # maybe use "-1" for intialization
-- 
2.43.0


From f4bd0241f7bc9cce52fbcd75c146855a947bca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:42 +0000
Subject: [PATCH 41/42] fix: seed the random numbers with the seed of the ZZMC
 card

---
 reliabilityassessment/monte_carlo/narpMain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reliabilityassessment/monte_carlo/narpMain.py b/reliabilityassessment/monte_carlo/narpMain.py
index e078c92..a61a52d 100644
--- a/reliabilityassessment/monte_carlo/narpMain.py
+++ b/reliabilityassessment/monte_carlo/narpMain.py
@@ -3,6 +3,7 @@ from pathlib import Path
 import numpy as np
 
 from reliabilityassessment.data_processing.dataf1 import dataf1
+from reliabilityassessment.data_processing.readInputB import read_card_ZZMC
 from reliabilityassessment.monte_carlo.contrl import contrl
 from reliabilityassessment.monte_carlo.initfl import initfl
 from reliabilityassessment.monte_carlo.initl import initl
@@ -88,7 +89,7 @@ def narpMain(TEST_DIR):
     NLINES = LP.shape[0]
     NOAREA = HRLOAD.shape[0]
     # seeding:
-    JSEED = 123456
+    JSEED = read_card_ZZMC(TEST_DIR)["JSEED"]
     IGSEED, ILSEED = seeder(JSEED, NUNITS, NLINES)
     # ----------------------------Finish data processing part--------------------------
 
-- 
2.43.0


From f41485ca294091169083d776332c350226ebddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:42 +0000
Subject: [PATCH 42/42] fix: read loads of five digits from the columns of the
 EEI format

---
 .../data_processing/xldnew.py                 | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/reliabilityassessment/data_processing/xldnew.py b/reliabilityassessment/data_processing/xldnew.py
index a0d8ff4..5be1571 100644
--- a/reliabilityassessment/data_processing/xldnew.py
+++ b/reliabilityassessment/data_processing/xldnew.py
@@ -1,6 +1,20 @@
 import numpy as np
 
 
+def fields(line):
+    """
+    Split a line of the file 'LEEI' into its entries.
+
+    :param str line: a line of load data; in the EEI format the twelve loads have five
+        columns each, from column 21 on, so that there is no blank between large ones.
+    :return: (*list*) -- the entries as strings, the last twelve are the loads
+    """
+    columns = [line.rstrip()[k : k + 5].strip() for k in range(20, 80, 5)]
+    if len(line.rstrip()) == 80 and all(c.isdigit() for c in columns):
+        return columns
+    return line.strip().split()
+
+
 def xldnew(FileNameAndPath, PKLOAD):
     """
     Read and parse raw text data from the input file 'LEEI' (load profile in EEI format)
@@ -30,9 +44,9 @@ def xldnew(FileNameAndPath, PKLOAD):
             areaIdx = int(line[6:]) - 1
             hourIdx = 0
         else:
-            HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(
-                map(float, line.strip().split())
-            )[-12:]
+            HRLOAD[areaIdx, hourIdx : hourIdx + 12] = list(map(float, fields(line)))[
+                -12:
+            ]
             hourIdx += 12
 
     # Normalize and re-scale the annual load data of each area
-- 
2.43.0

