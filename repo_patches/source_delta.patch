From 412fc7101be11dd634a92d54dc946143be2941df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 01/39] fix: nodal corrections at the equator

np.sign(0) is 0, so lat=0 was not moved to 5 degrees and the latitude
factor of the diurnal satellites was infinite: solve(lat=0) failed.
---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..503ae12 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            lat = np.copysign(5, lat)  # np.sign would leave 0 at 0.
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From 5a0d3ab28b234e56b12135e314c315232d2f3711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 02/39] fix: andrews, huber and logistic weight functions on
 arrays

They used the builtin max() on an array and raised ValueError on any
input; logistic also had a lower limit of 1 instead of sqrt(eps).
---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From 1734d0b71b8f20ef336e3379ec4c6b0c05577985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 03/39] fix: accept arrays of names for constit and
 order_constit

Any sequence is documented, but comparing an array (such as coef.name) with
a string raised ValueError.
---
 utide/_solve.py                | 4 ++++
 utide/constituent_selection.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..fd69ed0 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -434,6 +434,10 @@ def _solv1(tin, uin, vin, lat, **opts):
 
 
 def _reorder(coef, opt):
+    if not isinstance(opt["ordercnstit"], str):
+        # Any sequence, including an array, must compare unequal to a string.
+        opt = Bunch(opt, ordercnstit=list(opt["ordercnstit"]))
+
     if opt["ordercnstit"] == "PE":
         # Default: order by decreasing energy.
         if "PE" not in coef:
diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 451665c..3331318 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -42,7 +42,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit["NR"] = Bunch()
 
     # if incnstit.lower() == 'auto':
-    if incnstit == "auto":
+    if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
         cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
-- 
2.43.0


From 2d62d94411ad8b828b1fac2b5a1adc44a3eb088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 04/39] fix: infer given as a dict, or with missing items

The documented dict failed with AttributeError, the caller's container was
modified, and a missing item was reported by a TypeError from the format of
the message, or not at all if another item was present.
---
 utide/_solve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index fd69ed0..7ae9288 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -88,10 +88,11 @@ def _translate_opts(opts):
 def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
+    infer = Bunch(infer)  # It may be a dict, and must not be modified.
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
     keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    if not keys >= required_keys:
+        raise ValueError(f"infer option must include {required_keys}")
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From 91edc9bb2cca2340ecfa695c56b2d75be1ef1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 05/39] fix: accept array_like t, u, v in solve

Lists and tuples, documented as valid, failed with AttributeError.
---
 utide/_solve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 7ae9288..925db17 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -471,6 +471,12 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    # Any array_like is accepted; masked arrays must remain masked.
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
-- 
2.43.0


From 5586c561b432446f38bdf907b4118621ff93f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 06/39] fix: NaT in times is missing, not a huge negative time

Casting NaT to float gives the most negative integer, so NaT in t became a
valid time: solve returned meaningless coefficients and reconstruct
extrapolated the trend to about -1e11 days.
---
 utide/_time_conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..9232ae4 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -37,7 +37,8 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
         ) from err
 
     # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
+    # Division of timedeltas, unlike a cast to float, yields nan for NaT.
+    datenum = (date - epoch) / np.timedelta64(_MS_PER_DAY, "ms")
     return datenum
 
 
-- 
2.43.0


From c70f148113d2a08a30fb4b0c6d9cc55d582a9484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 07/39] fix: masked times are missing

The mask of t was dropped by the time conversion, so solve and reconstruct
used whatever was stored under the mask as valid times.
---
 utide/_time_conversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 9232ae4..de45afe 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -59,9 +59,12 @@ def _normalize_time(t, epoch=None):
     Convert datetime or datenum array to proper input datenum array with an
     epoch from '0000-12-31' - 1st Jan of 1st year is 1.
 
-    `t` input time or datenum array
+    `t` input time or datenum array; if it is masked, so is the output
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
+    if np.ma.is_masked(t):
+        return np.ma.array(_normalize_time(t.data, epoch), mask=t.mask)
+
     t = np.asarray(t)
 
     if epoch is None:
-- 
2.43.0


From e7637992af4b62136f8f024dffae8659a16714a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 08/39] fix: printing an empty Bunch

It raised ValueError from max() of an empty list.
---
 utide/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 0c83749..342df93 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -94,8 +94,8 @@ class Bunch(dict):
             klens.append(lenk)
             vlens.append(lenv)
 
-        klen = min(20, max(klens))
-        vlen = min(40, max(vlens))
+        klen = min(20, max(klens, default=0))
+        vlen = min(40, max(vlens, default=0))
         slist = [fmt.format(key, value, klen=klen, vlen=vlen) for key, value in items]
         return "".join(slist)
 
-- 
2.43.0


From a9428f272ddb8b5016f60231a29910cc1e0ef646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 09/39] fix: use the residual spectrum of u in linear intervals
 for u, v

With conf_int='linear' and white=False, only the variances of v were scaled
to the band-averaged residual spectrum; those of u remained the white ones.
Exchanging u and v changed the confidence intervals of the same ellipse.
---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..1b0c3bb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -247,6 +247,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From 32c0248606f5b76fe63d573375478e6ffe6667c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 10/39] fix: confidence intervals with inference use the right
 covariances

The model matrix has the columns of the reference constituents after both
sets of columns of the others, but the covariances were looked up as if the
positive frequencies of all of them came first.
---
 utide/confidence.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1b0c3bb..16b4244 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -206,6 +206,14 @@ def _confidence(
     Hall = gamC - gamP
 
     nc = len(Xu)
+    if opt.infer:
+        # Column order of B: NR, conj(NR), R, conj(R), ... Below, it must be
+        # (NR, R), conj(NR, R), ...
+        nNR, nR = coef.nNR, coef.nR
+        cols = np.r_[:nNR, 2 * nNR : 2 * nNR + nR, nNR : 2 * nNR, 2 * nNR + nR : 2 * nc]
+        Gall = Gall[np.ix_(cols, cols)]
+        Hall = Hall[np.ix_(cols, cols)]
+
     coef.g_ci = np.nan * np.ones_like(coef.g)
     if opt["twodim"]:
         coef.Lsmaj_ci = coef.g_ci.copy()
-- 
2.43.0


From 5de762106b06d797479edb465779dfe0cfe613ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 11/39] fix: Monte Carlo intervals of ellipses oriented along
 the x axis

Orientations near 0 and near 180 degrees are neighbours, but the realizations
were only wrapped modulo 360, so theta_ci and g_ci came out at tens of degrees
for any ellipse oriented within its uncertainty of the x axis.
---
 utide/confidence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 16b4244..ec326ee 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -353,7 +353,11 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                # The orientation has period 180, and wrapping it by a half
+                # turn changes the phase by a half turn.
+                g -= theta
+                theta = cluster(theta, 180)
+                g += theta
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-- 
2.43.0


From a5e242585cbc289d26bbab688e1f5d79198606f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 12/39] fix: robustfit weights and rms residual belong to the
 returned fit

On reaching maxit, the returned weights were those for a next iteration, and
on regular convergence rms_resid was from the fit before the returned one.
---
 utide/robustfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..18ae997 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -243,7 +243,9 @@ def robustfit(
 
     if iterations == 0:
         iterations = maxit  # Did not converge.
+        w = oldw  # Undo the update after the last fit.
 
+    resid = y - np.dot(X, b)  # Latest might be from the previous fit.
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From 8902d8dba01d83cd911561fa19c81be7b9380118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 13/39] fix: approximate inference

It failed with ValueError (an array stored as an element), and the factors it
calculated were never applied, so the references were not corrected for the
inferred constituents. The ratio of the basis functions at the reference time
is complex unless raw phases are used.
---
 utide/_solve.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 925db17..3fc00ca 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -278,18 +278,16 @@ def _solv1(tin, uin, vin, lat, **opts):
 
         else:
             # Approximate inference.
-            Q = np.empty((coef.nR,), dtype=float)
-            beta = np.empty((coef.nR,), dtype=float)
+            Qbeta = []  # For each reference, an array of factors.
 
             for k, ref in enumerate(cnstit.R):
                 E = ut_E(t, tref, ref.frq, ref.lind, *E_args)[:, 0]
                 Etilp[:, k] = E
                 Etilm[:, k] = E
-                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args).real
-                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args).real
-                Q[k] = (num / den)[0, 0]
+                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args)
+                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args)
                 arg = np.pi * lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt
-                beta[k] = np.sin(arg) / arg
+                Qbeta.append((num / den)[0] * np.sin(arg) / arg)
 
         B = np.hstack((B, Etilp, np.conj(Etilm)))
 
@@ -336,6 +334,12 @@ def _solv1(tin, uin, vin, lat, **opts):
     i0 = 2 * nNR + nR
     am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
 
+    if opt.infer is not None and opt.infer.approximate:
+        # Remove the inferred constituents from the reference ones.
+        for k, ref in enumerate(cnstit.R):
+            ap[nNR + k] /= 1 + (Qbeta[k] * ref.I.Rp).sum()
+            am[nNR + k] /= 1 + (np.conj(Qbeta[k]) * ref.I.Rm).sum()
+
     Xu = np.real(ap + am)
     Yu = -np.imag(ap - am)
 
-- 
2.43.0


From 2cf3078761ee56f525529ece3fa9b32599d6cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 14/39] fix: reject undocumented values of method and phase

Any misspelled method silently gave a robust fit, and any misspelled phase
silently gave Greenwich phases.
---
 utide/_solve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 3fc00ca..ab06c1c 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -35,6 +35,13 @@ def _process_opts(opts, is_2D):
     newopts = Bunch(default_opts)
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
+    if newopts.method not in ("ols", "robust"):
+        raise ValueError(f"'method' must be 'ols' or 'robust', not '{newopts.method}'")
+    if newopts.phase not in ("Greenwich", "linear_time", "raw"):
+        raise ValueError(
+            "'phase' must be 'Greenwich', 'linear_time', or 'raw',"
+            f" not '{newopts.phase}'",
+        )
     newopts.infer = validate_infer(newopts.infer, is_2D)
     snr = newopts.conf_int != "none"
     newopts.order_constit = validate_order_constit(newopts.order_constit, snr)
-- 
2.43.0


From a40be169115b68a592f807bff7d0e8c4743bc362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 15/39] fix: a solution must not share the default options

coef.aux.opt.newopts.robust_kw was the module's default itself, so that
modifying it changed later calls to solve.
---
 utide/_solve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index ab06c1c..37563de 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -2,6 +2,8 @@
 Central module for calculating the tidal amplitudes, phases, etc.
 """
 
+from copy import deepcopy
+
 import numpy as np
 
 from ._time_conversion import _normalize_time
@@ -32,7 +34,7 @@ default_opts = {
 
 
 def _process_opts(opts, is_2D):
-    newopts = Bunch(default_opts)
+    newopts = Bunch(deepcopy(default_opts))
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
     if newopts.method not in ("ols", "robust"):
-- 
2.43.0


From 6f3b6f12dcbdeb1b287d58093f34bc8315f7ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 16/39] fix: reconstruct applies min_PE to solutions without
 intervals

min_PE, which needs only the amplitudes, was silently ignored for a solution
obtained with conf_int='none'.
---
 utide/_reconstruct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utide/_reconstruct.py b/utide/_reconstruct.py
index 67974c5..209764d 100644
--- a/utide/_reconstruct.py
+++ b/utide/_reconstruct.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from ._time_conversion import _normalize_time
+from .diagnostics import _PE
 from .harmonics import ut_E
 from .utilities import Bunch
 
@@ -96,8 +97,11 @@ def _reconstruct(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
     # Determine constituents to include.
     if constit is not None:
         ind = [i for i, c in enumerate(coef["name"]) if c in constit]
-    elif (min_SNR == 0 and min_PE == 0) or coef["aux"]["opt"]["nodiagn"]:
+    elif min_PE == 0 and (min_SNR == 0 or coef["aux"]["opt"]["nodiagn"]):
         ind = slice(None)
+    elif coef["aux"]["opt"]["nodiagn"]:
+        # There are no confidence intervals to apply min_SNR to.
+        ind = _PE(coef) >= min_PE
     else:
         if twodim:
             E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2
-- 
2.43.0


From e51a768140f54877b3f08c84279ad460bb4432e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 17/39] fix: inference when all the constituents are references
 or inferred

---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 503ae12..7d74c8b 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -60,7 +60,7 @@ def ut_E(t, tref, frq, lind, lat, ngflgs, prefilt):
 
     t = np.atleast_1d(t)
     frq = np.atleast_1d(frq)
-    lind = np.atleast_1d(lind)
+    lind = np.atleast_1d(np.asarray(lind, dtype=int))  # It may be empty.
     nt = len(t)
     nc = len(frq)
 
-- 
2.43.0


From 11a4c0478f087dd59e5a1d4bbe9c34a5694bb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 18/39] fix: intervals of inferred constituents

Their phases differ from that of the reference by a constant, but g_ci and
theta_ci were smaller than those of the reference by the amplitude ratio, and
for a scalar series A_ci was also too small by sqrt(2).
---
 utide/confidence.py | 54 +++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index ec326ee..b0413da 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -372,43 +372,25 @@ def _confidence(
     if opt.infer:
         ind = nc
         if opt.linci:
+            # Inference multiplies the counterclockwise and clockwise components
+            # of the reference by constants, which shifts g and theta, and makes
+            # the axes combinations of the axes of the reference.
             for k, ref in enumerate(cnstit.R):
-                varcov = varcov_mCw if opt.white else varcov_mCc
-                varReap = 0.25 * varcov[nNR + k, 0, 0]
-                varImap = 0.25 * varcov[nNR + k, 1, 1]
-                if opt.twodim:
-                    varReap += 0.25 * varcov[nNR + k, 3, 3]
-                    varImap += 0.25 * varcov[nNR + k, 2, 2]
-                rp = ref.I.Rp
-                rm = ref.I.Rm
-                varXuHH = (rp.real**2 + rm.real**2) * varReap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varImap
-                varYuHH = (rp.real**2 + rm.real**2) * varImap + (
-                    rp.imag**2 + rm.imag**2
-                ) * varReap
-                for varX, varY in zip(varXuHH, varYuHH, strict=False):
-                    if not opt.twodim:
-                        sig1, sig2 = ut_linci(
-                            Xu[nNR + k],
-                            Yu[nNR + k],
-                            np.sqrt(varX),
-                            np.sqrt(varY),
-                        )
-                        coef.A_ci[ind] = 1.96 * sig1
-                        coef.g_ci[ind] = 1.96 * sig2
-                    else:
-                        sig1, sig2 = ut_linci(
-                            Xu[nNR + k] + 1j * Xv[nNR + k],
-                            Yu[nNR + k] + 1j * Yv[nNR + k],
-                            np.sqrt(varX) + 1j * np.sqrt(varY),
-                            np.sqrt(varY) + 1j * np.sqrt(varX),
-                        )
-                        coef.Lsmaj_ci[ind] = 1.96 * sig1.real
-                        coef.Lsmin_ci[ind] = 1.96 * sig1.imag
-                        coef.g_ci[ind] = 1.96 * sig2.real
-                        coef.theta_ci[ind] = 1.96 * sig2.imag
-                    ind += 1
+                kR = nNR + k
+                sl = slice(ind, ind + ref.nI)
+                rp = np.abs(ref.I.Rp)
+                rm = np.abs(ref.I.Rm)
+                coef.g_ci[sl] = coef.g_ci[kR]
+                if not opt.twodim:
+                    coef.A_ci[sl] = rp * coef.A_ci[kR]
+                else:
+                    rsum = 0.5 * (rp + rm)
+                    rdif = 0.5 * (rp - rm)
+                    maj_ci, min_ci = coef.Lsmaj_ci[kR], coef.Lsmin_ci[kR]
+                    coef.Lsmaj_ci[sl] = np.hypot(rsum * maj_ci, rdif * min_ci)
+                    coef.Lsmin_ci[sl] = np.hypot(rdif * maj_ci, rsum * min_ci)
+                    coef.theta_ci[sl] = coef.theta_ci[kR]
+                ind += ref.nI
         else:
             raise NotImplementedError("Monte Carlo inference not implemented")
 
-- 
2.43.0


From 354a422bf2a3e18d9c258eab35eb69b92b061d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 19/39] fix: robustfit with a one-dimensional model array

It raised NameError.
---
 utide/robustfit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 18ae997..af1486f 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -172,7 +172,7 @@ def robustfit(
     _wfunc = wfuncdict[weight_function]
 
     if X.ndim == 1:
-        X = X.reshape((x.size, 1))
+        X = X.reshape((X.size, 1))
     n, p = X.shape
 
     lev = leverage(X)
-- 
2.43.0


From 026fec3ec689d7846dd4a018b1378cac44d00ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 20/39] fix: robust scale of residuals, for vectors and for
 outliers of one sign

The scale was a median deviation from the median: a median of complex numbers
orders them by their real parts, so the result depended on the orientation of
the axes; and the weights use deviations from zero, so that outliers of one
sign, which shift the first fit, could give small or zero weights to all the
good observations.
---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index af1486f..2c84779 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -88,10 +88,10 @@ tune_defaults = {
 
 def sigma_hat(x):
     """
-    Robust estimate of standard deviation based on medians.
+    Robust estimate of the standard deviation of residuals (real or complex)
+    about zero, based on the median.
     """
-    # The center could be based on the mean or some other function.
-    return np.median(np.abs(x - np.median(x))) / 0.6745
+    return np.median(np.abs(x)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0


From 68c3ea30344b42f902e6e4a265d2b14cd0899321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 21/39] fix: confidence intervals of robust solutions

The mean square misfit is that of the normal equations only if the weights are
those of the squared residuals, which are the squares of the weights returned by
robustfit.  Otherwise the intervals depended on the mean of the data, and were
NaN when the estimate was negative.
---
 utide/confidence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index b0413da..2d9c51b 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -179,8 +179,9 @@ def _confidence(
         Puu, Pvv, Puv = band_averaged_psd_by_constit(tin, t, e, elor, coef, opt)  # noqa
 
     # Make temporaries for quantities needed more than once.
-    _Wx = W * xraw
-    _WB = W[:, np.newaxis] * B
+    # robustfit multiplies the residuals by W, so their squares have weight W**2.
+    _Wx = W**2 * xraw
+    _WB = W[:, np.newaxis] ** 2 * B
 
     # Matlab is recalculating xmod here; but we already have it.
     # In the 1-D case xmod is only the real part, but in that
-- 
2.43.0


From 16be774102642e1e1bcc430ed591c82cd7ca66a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 22/39] fix: Monte Carlo intervals when a band has no spectral
 estimate

---
 utide/confidence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 2d9c51b..e71f282 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -278,6 +278,8 @@ def _confidence(
                 coef["theta_ci"][c] = 1.96 * np.imag(sig2)
 
         else:  # Monte Carlo.
+            if not opt.white and np.isnan(Puu[c]):
+                continue  # No spectral estimate, so the intervals stay nan.
             covXuYu = np.imag(H[0, 0] - H[0, 1] + H[1, 0] - H[1, 1]) / 2
             Duu = np.array([[varXu, covXuYu], [covXuYu, varYu]])
             varcov_mCw[c, :2, :2] = Duu
-- 
2.43.0


From 168c5147d0ddcb3f57b1ba485985c4f3e03639fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 23/39] fix: residual variances of confidence intervals come
 from the residuals

The differences of mean squares of data and model lost all their digits for
records fitted (almost) exactly, giving NaN intervals, and lost precision
with large offsets.
---
 utide/confidence.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index e71f282..0865f88 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -178,29 +178,24 @@ def _confidence(
     if not opt["white"]:
         Puu, Pvv, Puv = band_averaged_psd_by_constit(tin, t, e, elor, coef, opt)  # noqa
 
-    # Make temporaries for quantities needed more than once.
     # robustfit multiplies the residuals by W, so their squares have weight W**2.
-    _Wx = W**2 * xraw
     _WB = W[:, np.newaxis] ** 2 * B
 
-    # Matlab is recalculating xmod here; but we already have it.
-    # In the 1-D case xmod is only the real part, but in that
-    # case _Wx is real, and we are taking the real part in the
-    # end, so the imaginary part would not contribute anything.
     nt = len(xraw)
     nm = B.shape[1]
 
-    # Mean Square Misfit: Eq. 52 (mean squared error).
-    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)
+    # Mean Square Misfit: Eq. 52 (mean squared error).  The difference of the
+    # mean squares of xraw and xmod would be subject to cancellation.
+    varMSM = np.real(np.dot(e.conj(), e)) / (nt - nm)
 
     # Gamma_C: covariance Eq. 54.
     gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
 
     # Gamma_P: pseudo-covariance Eq. 54.
     gamP = np.linalg.inv(np.dot(B.T, _WB))
-    gamP *= (np.dot(xraw, _Wx) - np.dot(xmod, _Wx)) / (nt - nm)
+    gamP *= np.dot(e, e) / (nt - nm)
 
-    del _Wx, _WB
+    del _WB
 
     # Eq. 55; convenient intermediate variables; see Eq. 51.
     Gall = gamC + gamP
-- 
2.43.0


From c38f6b785a26767e62dc8f636bc8936b5470e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 24/39] fix: a missing t_mpl attribute of a Bunch raises
 AttributeError

---
 utide/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 342df93..73d03e9 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -174,7 +174,10 @@ class Bunch(dict):
             category=FutureWarning,
             stacklevel=2,
         )
-        return self["t_mpl"]
+        try:
+            return self["t_mpl"]
+        except KeyError as err:
+            raise AttributeError("'Bunch' object has no attribute 't_mpl'") from err
 
 
 # The following functions ending with loadbunch() and showmatbunch()
-- 
2.43.0


From 816c742bc7e2c95347cd02ff42d6dcbd0683dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 25/39] fix: robust fit of data that are fitted exactly, or
 with a rank-deficient weighted model

A zero scale of the residuals gave NaN weights and a LinAlgError, and an empty
sum of squares from lstsq an IndexError.
---
 utide/robustfit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 2c84779..d84f96f 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -204,8 +204,9 @@ def robustfit(
     for i in range(maxit):
         wX = w[:, np.newaxis] * X
         wy = w * y
-        b, rsumsq, rank, sing = np.linalg.lstsq(wX, wy, rcond)
-        rsumsq = rsumsq[0]
+        b, _, rank, sing = np.linalg.lstsq(wX, wy, rcond)
+        # lstsq does not return this sum if wX is rank-deficient.
+        rsumsq = np.sum(np.abs(wy - np.dot(wX, b)) ** 2)
         if i == 0:
             rms_resid = np.sqrt(rsumsq / n)
             out.update({"ols_b": b, "ols_rms_resid": rms_resid})
@@ -238,6 +239,12 @@ def robustfit(
         # Residuals (unweighted) from latest fit:
         resid = y - np.dot(X, b)
 
+        if sigma_hat(resid) ** 2 < np.finfo(float).tiny:
+            # At least half of the data are fitted exactly; there is no
+            # scale for the residuals.
+            iterations = i + 1
+            break
+
         # Update weights based on these residuals.
         w = _wfunc(r_normed(resid, rfac))
 
-- 
2.43.0


From 25313fec6d68311af3592ed84475304b03e7a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 26/39] fix: reject undocumented strings for the nodal option

---
 utide/_solve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 37563de..05ffb72 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -44,6 +44,10 @@ def _process_opts(opts, is_2D):
             "'phase' must be 'Greenwich', 'linear_time', or 'raw',"
             f" not '{newopts.phase}'",
         )
+    if isinstance(newopts.nodal, str) and newopts.nodal != "linear_time":
+        raise ValueError(
+            f"'nodal' must be True, False, or 'linear_time', not '{newopts.nodal}'",
+        )
     newopts.infer = validate_infer(newopts.infer, is_2D)
     snr = newopts.conf_int != "none"
     newopts.order_constit = validate_order_constit(newopts.order_constit, snr)
-- 
2.43.0


From ff20e4cb527b27183e642d6b0c04f62242525408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 27/39] fix: compute in double precision whatever the real
 dtype of times and data

float16 and longdouble data, unsigned and longdouble times raised; float32
times were partly processed in single precision.
---
 utide/_solve.py           | 12 ++++++++++--
 utide/_time_conversion.py |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 05ffb72..4d40622 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -484,15 +484,23 @@ def _reorder(coef, opt):
     return coef
 
 
+def _as_double(x):
+    x = np.asanyarray(x)
+    if x.dtype.kind in "biufO":
+        # The linear algebra supports neither float16 nor longdouble.
+        x = x.astype(float, copy=False)
+    return x
+
+
 def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
     # Any array_like is accepted; masked arrays must remain masked.
     tin = np.asanyarray(tin)
-    uin = np.asanyarray(uin)
+    uin = _as_double(uin)
     if vin is not None:
-        vin = np.asanyarray(vin)
+        vin = _as_double(vin)
 
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index de45afe..d27544d 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -71,7 +71,8 @@ def _normalize_time(t, epoch=None):
         # default datetime, datetime64, or datetime array
         return _python_gregorian_datenum(t)
 
-    if t.dtype.kind in ("if"):
+    if t.dtype.kind in ("iuf"):
+        t = t.astype(float, copy=False)
         if epoch == "python":
             return t
         elif epoch == "matlab":
-- 
2.43.0


From 1e999ddf3edbb571b3aef3291f74a6d5550b66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 28/39] fix: latitude factors in double precision for a single
 precision latitude

---
 utide/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 7d74c8b..10b50f3 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -121,7 +121,7 @@ def FUV(t, tref, lind, lat, ngflgs):
         if abs(lat) < 5:
             lat = np.copysign(5, lat)  # np.sign would leave 0 at 0.
 
-        slat = np.sin(np.deg2rad(lat))
+        slat = np.sin(np.deg2rad(np.float64(lat)))
         rr = sat.amprat.copy()
 
         j = sat.ilatfac == 1
-- 
2.43.0


From aaad6f9255553f3593401798ec1d2844f65ac85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 29/39] fix: apply the sign of the co-spectrum only once in
 Monte Carlo intervals

The covariance between u and v, which carries the sign of their correlation,
was multiplied by the signed co-spectrum, so that negatively correlated noise
was simulated as positively correlated.
---
 utide/confidence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 0865f88..c986323 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -324,6 +324,8 @@ def _confidence(
 
                 if not opt.white:
                     if np.abs(Duv).sum() > 0:
+                        # The sign is that of Puv, and not applied twice.
+                        Duv = Duv * np.sign(np.trace(Duv))
                         Duv = Puv[c] * Duv / np.abs(Duv).sum()
                         varcov_mCc[c, :2, 2:] = Duv
                         varcov_mCc[c, 2:, :2] = Duv.T
-- 
2.43.0


From 57468cc9659944c4e478da9713e0271ab1007dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 30/39] fix: finite intervals when one velocity component has
 no residual

---
 utide/confidence.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index c986323..21f97e2 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -237,11 +237,16 @@ def _confidence(
             varXv = np.real(H[0, 0] + H[1, 1] + 2 * H[0, 1]) / 2
             varYv = np.real(G[0, 0] + G[1, 1] - 2 * G[0, 1]) / 2
 
+        # Without any residual in u or v, rounding may leave negative variances.
+        varXu, varYu = max(varXu, 0.0), max(varYu, 0.0)
+        if opt["twodim"]:
+            varXv, varYv = max(varXv, 0.0), max(varYv, 0.0)
+
         if opt["linci"]:  # Linearized.
             if not opt["twodim"]:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu]))
                 if not opt["white"]:
-                    den = varXu + varYu
+                    den = (varXu + varYu) or 1.0
                     varXu = Puu[c] * varXu / den
                     varYu = Puu[c] * varYu / den
                     varcov_mCc[c, :, :] = np.diag(np.array([varXu, varYu]))
@@ -251,10 +256,10 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
-                    den = varXu + varYu
+                    den = (varXu + varYu) or 1.0
                     varXu = Puu[c] * varXu / den
                     varYu = Puu[c] * varYu / den
-                    den = varXv + varYv
+                    den = (varXv + varYv) or 1.0
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
                     varcov_mCc[c, :, :] = np.diag(
@@ -280,7 +285,7 @@ def _confidence(
             varcov_mCw[c, :2, :2] = Duu
 
             if not opt.white:
-                Duu = Puu[c] * Duu / np.trace(Duu)
+                Duu = Puu[c] * Duu / (np.trace(Duu) or 1.0)
                 varcov_mCc[c, :2, :2] = Duu
 
             if not opt.twodim:
@@ -312,7 +317,7 @@ def _confidence(
                 varcov_mCw[c, 2:, 2:] = Dvv
 
                 if not opt.white:
-                    Dvv = Pvv[c] * Dvv / np.trace(Dvv)
+                    Dvv = Pvv[c] * Dvv / (np.trace(Dvv) or 1.0)
                     varcov_mCc[c, 2:, 2:] = Dvv
                 covXuXv = np.imag(-H[0, 0] - H[0, 1] - H[1, 0] - H[1, 1]) / 2
                 covXuYv = np.real(G[0, 0] - G[1, 1]) / 2
-- 
2.43.0


From 3dabd33384bb12cf8b83bd1b14687f1525ba216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 31/39] fix: a solution must not share option containers or
 latitude with the caller

---
 utide/_solve.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 4d40622..f43c9da 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -33,9 +33,19 @@ default_opts = {
 }
 
 
+def _copied(value):
+    """
+    Copy of an argument, because the solution must not share it with the caller.
+    """
+    try:
+        return deepcopy(value)
+    except TypeError:  # For example the keys of a dict.
+        return value
+
+
 def _process_opts(opts, is_2D):
     newopts = Bunch(deepcopy(default_opts))
-    newopts.update_values(strict=True, **opts)
+    newopts.update_values(strict=True, **{k: _copied(v) for k, v in opts.items()})
     # TODO: add more validations.
     if newopts.method not in ("ols", "robust"):
         raise ValueError(f"'method' must be 'ols' or 'robust', not '{newopts.method}'")
@@ -259,7 +269,7 @@ def _solv1(tin, uin, vin, lat, **opts):
     # coef.aux.rundescr = ut_rundescr(opt,nNR,nR,nI,t,tgd,uvgd,lat)
 
     coef.aux.opt = opt
-    coef.aux.lat = lat
+    coef.aux.lat = _copied(lat)
 
     if opt["RunTimeDisp"]:
         print("matrix prep ... ", end="")
-- 
2.43.0


From 7e5bd416903af2322aa895ef0af15e885ef5f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:09 +0000
Subject: [PATCH 32/39] fix: no warning about the covariances of Monte Carlo
 intervals for data of large magnitude

---
 utide/confidence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 21f97e2..7011dbb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -295,12 +295,15 @@ def _confidence(
                         (Xu[c], Yu[c]),
                         varcov_mCc[c],
                         opt.nrlzn,
+                        # The check has an absolute tolerance, so it depends on units.
+                        check_valid="ignore",
                     )
                 else:
                     mCall = np.random.multivariate_normal(
                         (Xu[c], Yu[c]),
                         varcov_mCw[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )
                 A, _, _, g = ut_cs2cep(mCall)
                 coef.A_ci[c] = (
@@ -343,12 +346,14 @@ def _confidence(
                         (Xu[c], Yu[c], Xv[c], Yv[c]),
                         varcov_mCc[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )  # noqa
                 else:
                     mCall = np.random.multivariate_normal(
                         (Xu[c], Yu[c], Xv[c], Yv[c]),
                         varcov_mCw[c],
                         opt.nrlzn,
+                        check_valid="ignore",
                     )  # noqa
                 Lsmaj, Lsmin, theta, g = ut_cs2cep(mCall)
                 coef.Lsmaj_ci[c] = (
-- 
2.43.0


From ef7be9f60715f13412aef96213d9fd56026f271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 33/39] fix: a constituent requested twice is analysed once

The repeated columns made the model singular: the amplitude was split
between the copies, or the intervals were zero, huge, or an error.
---
 utide/constituent_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 3331318..dfff407 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -45,7 +45,8 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
-        cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
+        # A repeated name is still a single constituent.
+        cnstit.NR.lind = list(dict.fromkeys(constit_index_dict[n] for n in incnstit))
 
     # Remove from NR any R and I constituents.
     if infer is not None:
-- 
2.43.0


From 1d6bf83ce8da52db66a60e7e9eb13aed944041cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 34/39] fix: reject inferring a constituent twice, or one that
 is also a reference

Such a constituent was returned twice, with different values, and counted
twice in predictions.
---
 utide/_solve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index f43c9da..83b2066 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -119,6 +119,10 @@ def validate_infer(infer, is_2D):
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
+    if len(set(infer.inferred_names)) < nI:
+        raise ValueError("inferred_names must be distinct")
+    if set(infer.inferred_names) & set(infer.reference_names):
+        raise ValueError("a constituent cannot be both inferred and a reference")
     nratios = 2 * nI if is_2D else nI
     if len(infer.amp_ratios) != nratios or len(infer.phase_offsets) != nratios:
         raise ValueError(f"ratios and offsets need to have length {nratios:d}")
-- 
2.43.0


From 318d679ea7db56578ce2ef1f56b879f22acaed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 35/39] fix: reject an order_constit that drops or repeats
 constituents

The results of the constituents missing from the sequence were lost, and
those of a repeated one were counted twice in predictions.
---
 utide/_solve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 83b2066..a49637b 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -484,7 +484,13 @@ def _reorder(coef, opt):
         ind = coef["SNR"].argsort()[::-1]
     else:
         namelist = list(coef["name"])
-        ilist = [namelist.index(name) for name in opt["ordercnstit"]]
+        order = opt["ordercnstit"]
+        if len(order) != len(namelist) or any(n not in order for n in namelist):
+            raise ValueError(
+                "order_constit must include each analysed constituent once;"
+                f" they are {namelist}",
+            )
+        ilist = [namelist.index(name) for name in order]
         ind = np.array(ilist, dtype=int)
 
     arrays = "name PE SNR A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci"
-- 
2.43.0


From 1845e06be7b8f1bcfc8cc29f9ec9be29bf966b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:24 +0000
Subject: [PATCH 36/39] fix: names of a prediction given as a pandas Series or
 a single string

Membership was tested among the labels of the Series, so that no constituent
was included, and among the substrings of the string.
---
 utide/_reconstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/_reconstruct.py b/utide/_reconstruct.py
index 209764d..4548fd4 100644
--- a/utide/_reconstruct.py
+++ b/utide/_reconstruct.py
@@ -96,6 +96,8 @@ def _reconstruct(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
 
     # Determine constituents to include.
     if constit is not None:
+        # "in" would find substrings of a string, and labels of a pandas Series.
+        constit = [constit] if isinstance(constit, str) else list(constit)
         ind = [i for i, c in enumerate(coef["name"]) if c in constit]
     elif min_PE == 0 and (min_SNR == 0 or coef["aux"]["opt"]["nodiagn"]):
         ind = slice(None)
-- 
2.43.0


From e0dccf349be7dbde930a1ac4fea4cea49d9602dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:24 +0000
Subject: [PATCH 37/39] fix: inference specified with pandas Series or single
 precision

The items were looked up by label instead of by position, so that ratios and
offsets went to other constituents after sorting, or raised KeyError; and
single precision ratios or offsets limited the solution to single precision.
---
 utide/constituent_selection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index dfff407..3a53ace 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -64,6 +64,14 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit.R = []
 
     if infer is not None:
+        # A pandas Series would be indexed by its labels, and single precision
+        # would remain single.
+        infer = Bunch(
+            infer,
+            inferred_names=list(infer.inferred_names),
+            amp_ratios=np.asarray(infer.amp_ratios, dtype=float),
+            phase_offsets=np.asarray(infer.phase_offsets, dtype=float),
+        )
         nI = len(infer.inferred_names)
         # Find unique reference names
         _r = infer.reference_names
-- 
2.43.0


From 122787cf7f6bd8afa94fc5265f8ef25f96ede65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:22 +0000
Subject: [PATCH 38/39] fix: timezone-aware datetimes and missing times among
 datetime objects

numpy warned about each array of aware datetimes, truncated their offset to
minutes, and raised TypeError where pd.NaT or np.nan stood for a missing time.
---
 utide/_time_conversion.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index d27544d..86ac18d 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -2,6 +2,8 @@
 Utility for allowing flexible time input.
 """
 
+from datetime import timezone
+
 import numpy as np
 
 # to be added to get 1 on 1st January of year 1 from unix epoch '1970-01-01'
@@ -11,6 +13,20 @@ _DAY_TO_GREGORIAN_EPOCH = 719163
 _MS_PER_DAY = 1000 * 86400
 
 
+def _as_naive(date):
+    """
+    Object that numpy can convert to datetime64 without a warning or an error.
+
+    Aware datetimes are converted to UTC; pd.NaT and np.nan, neither of which
+    is equal to itself, are replaced by None, which yields NaT.
+    """
+    if date != date:
+        return None
+    if getattr(date, "tzinfo", None) is not None:
+        return date.astimezone(timezone.utc).replace(tzinfo=None)
+    return date
+
+
 def _date2num(date, epoch="1970-01-01 00:00:00.000"):
     """
     Numpy based date to datenum calculator.
@@ -21,6 +37,9 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
     date = np.asarray(date)
+    if date.dtype.kind == "O":
+        naive = [_as_naive(d) for d in date.flat]
+        date = np.array(naive, dtype=object).reshape(date.shape)
 
     try:
         date = date.astype("datetime64[ms]")
-- 
2.43.0


From c1d138fba7717a02ff31a204d5245b06e6a8c952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:09 +0000
Subject: [PATCH 39/39] fix: load Matlab files that hold sparse matrices

---
 utide/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 73d03e9..e0b43b3 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -2,6 +2,7 @@ import warnings
 
 import numpy as np
 from scipy.io import loadmat
+from scipy.sparse import issparse
 
 # This module began as an excerpt from the one in python-gsw.
 
@@ -216,7 +217,7 @@ def _structured_to_bunch(arr, masked=True):
     encountered, process it with crunch().
     """
 
-    if isinstance(arr, str):
+    if isinstance(arr, str) or issparse(arr):
         return arr
 
     # A single "void" object comes from a Matlab structure.
-- 
2.43.0

