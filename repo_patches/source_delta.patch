From 4460cbf02f06b98ad6ae3d49dddc86cfb5847629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 01/24] fix: accept smooth = 0, the documented default, in
 oneka()

---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index 670ff0e..f8c6ef1 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -235,7 +235,7 @@ def oneka(
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
     assert((isinstance(umbra, int) or isinstance(umbra, float)) and 0 < umbra)
-    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 < smooth)
+    assert((isinstance(smooth, int) or isinstance(smooth, float)) and 0 <= smooth)
 
     assert(isinstance(confined, bool))
     assert((isinstance(tol, int) or isinstance(tol, float)) and 0 < tol)
-- 
2.43.0


From abb5af4b27a283af28af3e0832f3021a6319d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 02/24] fix: return the probability field from oneka() as
 documented

---
 oneka/oneka.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index f8c6ef1..afbe923 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -316,6 +316,8 @@ def oneka(
 
     plt.show()
 
+    return pfield
+
 # ------------------------------------------------------------------------------
 def log_the_run(
         projectname, runtime,
-- 
2.43.0


From d11b10595837eb042b0ddeed2d09648b72163343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 03/24] fix: refuse observations with a zero standard deviation
 up front

They passed the validation of oneka() and then divided by zero in
filter_obs or in the weighted least squares fit.
---
 oneka/oneka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index afbe923..e01f30e 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -230,7 +230,7 @@ def oneka(
                (isinstance(ob[0], int) or isinstance(ob[0], float)) and
                (isinstance(ob[1], int) or isinstance(ob[1], float)) and
                (isinstance(ob[2], int) or isinstance(ob[2], float)) and
-               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 <= ob[3])
+               (isinstance(ob[3], int) or isinstance(ob[3], float)) and 0 < ob[3])
 
     assert((isinstance(buffer, int) or isinstance(buffer, float)) and 0 < buffer)
     assert((isinstance(spacing, int) or isinstance(spacing, float)) and 0 < spacing)
-- 
2.43.0


From e07f3e7284a4abbb3eb5ea22808abda53d79a912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 04/24] fix: validate nrealizations in oneka() like every other
 argument

---
 oneka/oneka.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oneka/oneka.py b/oneka/oneka.py
index e01f30e..8e31395 100644
--- a/oneka/oneka.py
+++ b/oneka/oneka.py
@@ -210,6 +210,7 @@ def oneka(
     assert(isinstance(target, int) and 0 <= target < len(stochastic_wells))
     assert(isinstance(npaths, int) and 0 < npaths)
     assert((isinstance(duration, int) or isinstance(duration, float)) and 0 != duration)  ###_Forward_###
+    assert(isinstance(nrealizations, int) and 0 < nrealizations)
 
     assert(isinstance(base, int) or isinstance(base, float))
     assert(isdistribution(c_dist, 0, np.inf))
-- 
2.43.0


From 0097d1de5dc4c9bf8e338af1ef7383334397ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 05/24] fix: contour_head leaves dry points blank instead of
 raising NameError

---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 8bdffef..578956a 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -106,7 +106,7 @@ def contour_head(mo, xmin, xmax, ymin, ymax, nrows, ncols):
         for j in range(ncols):
             try:
                 grid[i, j] = mo.compute_head(x[j], y[i])
-            except onekapy.model.AquiferError:
+            except oneka.model.AquiferError:
                 grid[i, j] = np.nan
 
     plt.contourf(x, y, grid, cmap='bwr')
-- 
2.43.0


From 155d12eee8209275ffbca500c82f11b9fb2599af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 06/24] fix: plot the impact curve's areas in acres without
 rounding them down

Floor division moved every area to whole acres, and areas below one acre
to zero, which a logarithmic axis cannot show.
---
 oneka/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/visualize.py b/oneka/visualize.py
index 578956a..37d30ca 100644
--- a/oneka/visualize.py
+++ b/oneka/visualize.py
@@ -386,7 +386,7 @@ def create_impact_plot(spacing, pf):
     j = min(n, np.argmax(pr==0)+1)
 
     plt.figure()
-    plt.semilogy(pr[i:j], area[i:j]//4046.86, '.')                  # 4046.86 m^2/acre
+    plt.semilogy(pr[i:j], area[i:j]/4046.86, '.')                  # 4046.86 m^2/acre
     plt.xticks(np.linspace(0,1,11))
 
     plt.xlabel('Pr(capture) exceeds')
-- 
2.43.0


From dc7eef7600ad413dd515e71ed7f72457c7431009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 07/24] fix: distance to a zero-length segment is the distance
 to its point

It was 0/0: ZeroDivisionError for plain floats, NaN for numpy floats, so
that a track with repeated vertices was not rasterized there.
---
 oneka/probabilityfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 8ec8ed5..50e6b46 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -414,6 +414,9 @@ class ProbabilityField:
         dot = bax*cax + bay*cay
         length2 = bax*bax + bay*bay
 
+        if length2 == 0:
+            return cax*cax + cay*cay
+
         alpha2 = perpdot*perpdot / length2
         beta2 = dot*dot / length2
 
-- 
2.43.0


From 8e5eb6d72ecf62ef4d440d795d354659bbfc2fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 08/24] fix: grow the grid to include the umbra of a track

Nodes within the umbra but beyond the track's bounding box plus one node
were lost, so the capture zone was clipped at its edges and depended on
the order of the tracks.
---
 oneka/probabilityfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index 50e6b46..d09c03a 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -331,8 +331,8 @@ class ProbabilityField:
         -------
         None.
         """
-        # Make certain that the grid is large enough.
-        self.expand(min(x), max(x), min(y), max(y))
+        # Make certain that the grid is large enough for the track and its umbra.
+        self.expand(min(x)-umbra, max(x)+umbra, min(y)-umbra, max(y)+umbra)
 
         # Insert each line segment.
         for i in range(len(x)-1):
-- 
2.43.0


From f23b2e0ee6c5988a8b43ad981821d83e882454f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 09/24] fix: a probability field without a grid can register
 and reset

Both raised AttributeError before the first track, as did the plots'
own test for an empty field.
---
 oneka/probabilityfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oneka/probabilityfield.py b/oneka/probabilityfield.py
index d09c03a..0e36678 100644
--- a/oneka/probabilityfield.py
+++ b/oneka/probabilityfield.py
@@ -136,6 +136,11 @@ class ProbabilityField:
         if np.isnan(xo) or np.isnan(yo):
             self.nrows = 0
             self.ncols = 0
+
+            self.pgrid = np.zeros((0, 0), dtype=float)
+            self.rgrid = np.zeros((0, 0), dtype=bool)
+
+            self.total_weight = 0.0
         else:
             self.xmin = xo - deltax
             self.xmax = xo + deltax
@@ -215,8 +220,6 @@ class ProbabilityField:
             self.pgrid = np.zeros((self.nrows, self.ncols), dtype=np.float)
             self.rgrid = np.zeros((self.nrows, self.ncols), dtype=np.bool)
 
-            self.total_weight = 0.0
-
             log.debug('grids expanded to ({self.nrows}, {self.ncols}).')
         else:
             # Determine the new grid geometry.
-- 
2.43.0


From 29a4f6429543ac5a436aa511a857927e893c29a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 10/24] fix: average duplicate observations that are not
 adjacent in the list

---
 oneka/utilities.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oneka/utilities.py b/oneka/utilities.py
index 6fb85d3..86b574d 100644
--- a/oneka/utilities.py
+++ b/oneka/utilities.py
@@ -105,6 +105,15 @@ def filter_obs(observations, wellfield, buffer):
         else:
             log.info('observation removed: {0} is too close to {1}'.format(ob, we))
 
+    # Bring duplicate observations together, wherever they stand in the list.
+    i = 0
+    while i < len(obs):
+        close = [k for k in range(i+1, len(obs))
+                 if np.hypot(obs[i][0]-obs[k][0], obs[i][1]-obs[k][1]) < TOO_CLOSE]
+        for n, k in enumerate(close, i+1):
+            obs.insert(n, obs.pop(k))
+        i += len(close) + 1
+
     # Replace any duplicate observations with their weighted average.
     # Assume that the duplicate errors are statistically independent.
     retained_obs = []
-- 
2.43.0


From 0b6d40b25fbe62a2e9c2224c748a41f90a65e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 11/24] fix: sample and average distributions given as lists

isdistribution accepts lists, but they were taken for constants.
---
 oneka/stochastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index f01bb27..e12e5a9 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -294,7 +294,7 @@ def generate_random_variate(arg):
         A random variate from the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
@@ -330,7 +330,7 @@ def compute_variate_mean(arg):
         The mean of the specified distribution.
     """
 
-    if type(arg) is not tuple:
+    if not isinstance(arg, (tuple, list)):
         value = arg
     elif len(arg) == 2:
         value = (arg[0] + arg[1])/2.0
-- 
2.43.0


From 0ed6f0da4e91ed91899c72a7798e6da7c67dbdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 12/24] fix: sample a triangular distribution of zero width

isdistribution accepts it, but np.random.triangular raises ValueError.
---
 oneka/stochastic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index e12e5a9..695d14c 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -299,7 +299,10 @@ def generate_random_variate(arg):
     elif len(arg) == 2:
         value = np.random.uniform(arg[0], arg[1])
     elif len(arg) == 3:
-        value = np.random.triangular(arg[0], arg[1], arg[2])
+        if arg[0] == arg[2]:
+            value = arg[0]
+        else:
+            value = np.random.triangular(arg[0], arg[1], arg[2])
     else:
         raise DistributionError('<arg> must be a scalar, pair, or triple.')
 
-- 
2.43.0


From eb62ea00e7e73a07e678d12790b00787c0f42c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 13/24] fix: log the areal recharge of a realization with the
 right sign

As in the deterministic capture zone: recharge is minus the Laplacian of
the discharge potential.
---
 oneka/stochastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/stochastic.py b/oneka/stochastic.py
index 695d14c..5759f12 100644
--- a/oneka/stochastic.py
+++ b/oneka/stochastic.py
@@ -241,7 +241,7 @@ def create_stochastic_capturezone(
         mo.coef = np.random.default_rng().multivariate_normal(coef_ev, coef_cov)
 
         # Log some basic information about the realization.
-        recharge = 2*(mo.coef[0] + mo.coef[1])
+        recharge = -2*(mo.coef[0] + mo.coef[1])
         log.info('Realization #{0:d}: {1:.2f}, {2:.2f}, {3:.2f}, {4:.2f}, {5:.4e}'
                  .format(i, base, conductivity, porosity, thickness, recharge))
         log.info('    coef ev:  ({0:+.4e}, {1:+.4e}, {2:+.4e}, {3:+.4e}, {4:+.4e}, {5:+.4e})'
-- 
2.43.0


From 4929c765d2cb5c65352bcb12896ecd4118c700dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 14/24] fix: give every model its own regional flow
 coefficients

All models built with the default shared one array, so editing one in
place changed them all, and later ones.
---
 oneka/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oneka/model.py b/oneka/model.py
index ca37bc6..e268fd4 100644
--- a/oneka/model.py
+++ b/oneka/model.py
@@ -193,7 +193,7 @@ class Model:
 
     @coef.setter
     def coef(self, coef):
-        self._coef = np.reshape(coef, [6, ])
+        self._coef = np.array(coef, dtype=float).reshape([6, ])
 
     # ---------------------------------
     def __repr__(self):
-- 
2.43.0


From c77a6623033a4706fcd6c55325fef4bbd730e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 15/24] fix: end a trace whose velocity is not finite

The step size became NaN (or zero), and the loop never ended.
---
 oneka/capturezone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index fb5b410..c1d96d8 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -238,6 +238,9 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
                                      e[4]*k5 + e[5]*k6), np.inf)
             ds = np.linalg.norm(xyt - xy)
 
+            if not (np.isfinite(est) and np.isfinite(ds)):
+                raise FloatingPointError('the velocity is not finite.')
+
             if (est < tol) and (ds < maxstep):
                 t = t + dt
                 k1 = k2
-- 
2.43.0


From 22de7cdd603b7d3b5cb58df7b63733ec99dfa2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 16/24] fix: do not swallow KeyboardInterrupt while tracing a
 particle

An interrupted trace was registered as if it were complete.
---
 oneka/capturezone.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index c1d96d8..923c013 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -249,8 +249,7 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
 
             dt = 0.9 * min((tol/(est + EPS))**(1/5), maxstep/(ds + EPS), 10) * dt
 
-    except:
+    except Exception:
         log.warning(' trace terminated prematurely at t = {0:.2f} < duration.'.format(t))
 
-    finally:
-        return vertices
+    return vertices
-- 
2.43.0


From 0efe5020664f1d4b2d27fbea0451cb882749edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 17/24] fix: archive into the logs folder on every platform,
 creating it if missing

The backslash put the archive beside the folder on anything but Windows,
and a missing folder lost the results at the end of a run on Windows.
---
 oneka/archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 3c8bbb5..89375d5 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -39,6 +39,7 @@ Version
 """
 import bz2
 from datetime import datetime
+import os
 import pickle
 
 
@@ -53,7 +54,8 @@ def dump_oneka(
         pfield):
 
     # Create the dump file name.
-    filename='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2'
+    os.makedirs('logs', exist_ok=True)
+    filename = os.path.join('logs', 'Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2')
 
     # Create a dictionary.
     oneka_dict = {
-- 
2.43.0


From 94a418b0b3c9dbbf7036ff2c71486b4d7cca5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 18/24] fix: do not overwrite the archive of a run in the same
 second

---
 oneka/archive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/archive.py b/oneka/archive.py
index 89375d5..76f8d37 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -56,6 +56,10 @@ def dump_oneka(
     # Create the dump file name.
     os.makedirs('logs', exist_ok=True)
     filename = os.path.join('logs', 'Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2')
+    stem, count = filename[:-4], 0
+    while os.path.exists(filename):
+        count += 1
+        filename = '{0}_{1}.bz2'.format(stem, count)
 
     # Create a dictionary.
     oneka_dict = {
-- 
2.43.0


From be67e31bb9762ac052aebf4023e40bdc7b02bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 19/24] fix: log into the logs folder on every platform, one
 file per run

---
 runme.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runme.py b/runme.py
index 94b4235..98c1b88 100644
--- a/runme.py
+++ b/runme.py
@@ -18,6 +18,7 @@ Version
 """
 from datetime import datetime
 import logging
+import os
 import time
 
 import cProfile
@@ -47,7 +48,12 @@ def main(module_name):
     logger.setLevel(logging.INFO)
 
     # Create file handler which logs all messages.
-    fname='logs\\Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log'
+    os.makedirs('logs', exist_ok=True)
+    fname = os.path.join('logs', 'Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log')
+    stem, count = fname[:-4], 0
+    while os.path.exists(fname):
+        count += 1
+        fname = '{0}_{1}.log'.format(stem, count)
     fh = logging.FileHandler(filename=fname)
     fh.setLevel(logging.INFO)
 
-- 
2.43.0


From 8e37b3e50a0d9c26d943149e395d50d602e777d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 20/24] fix: keep later runs in the same process out of a run's
 log

---
 runme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runme.py b/runme.py
index 98c1b88..b85edf7 100644
--- a/runme.py
+++ b/runme.py
@@ -76,6 +76,7 @@ def main(module_name):
     log.info('\n')
     log.info('Total elapsed time = %.4f seconds' % elapsedtime)
     logging.shutdown()
+    logger.removeHandler(fh)
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
 
-- 
2.43.0


From a4124d9e4c1a14a83e2aa1c457d57adc73554dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 21/24] fix: detach a run's log also when the run is refused

---
 runme.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/runme.py b/runme.py
index b85edf7..38379f1 100644
--- a/runme.py
+++ b/runme.py
@@ -63,20 +63,22 @@ def main(module_name):
     log = logging.getLogger('Oneka')
 
     # Call the working function.
-    oneka(
-        m.PROJECTNAME, RUNTIME,
-        m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
-        m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
-        m.WELLS, m.OBSERVATIONS,
-        m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
-        m.CONFINED, m.TOL, m.MAXSTEP)
-
-    # Shutdown the run.
-    elapsedtime = time.time() - start_time
-    log.info('\n')
-    log.info('Total elapsed time = %.4f seconds' % elapsedtime)
-    logging.shutdown()
-    logger.removeHandler(fh)
+    try:
+        oneka(
+            m.PROJECTNAME, RUNTIME,
+            m.TARGET, m.NPATHS, m.DURATION, m.NREALIZATIONS,
+            m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
+            m.WELLS, m.OBSERVATIONS,
+            m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH,
+            m.CONFINED, m.TOL, m.MAXSTEP)
+
+        # Shutdown the run.
+        elapsedtime = time.time() - start_time
+        log.info('\n')
+        log.info('Total elapsed time = %.4f seconds' % elapsedtime)
+    finally:
+        logging.shutdown()
+        logger.removeHandler(fh)
 
     print('\n\nTotal elapsed time = %.4f seconds' % elapsedtime)
 
-- 
2.43.0


From d4c7d53f4cf7f9776ff0519e554c3764d0bc86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 22/24] fix: do not let the arbitrary first trial step run far
 beyond maxstep

---
 oneka/capturezone.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oneka/capturezone.py b/oneka/capturezone.py
index 923c013..e4ba78d 100644
--- a/oneka/capturezone.py
+++ b/oneka/capturezone.py
@@ -218,6 +218,10 @@ def compute_backtrace(xs, ys, duration, tol, maxstep, feval):
     try:
         k1 = feval(xy)
 
+        # Do not try a first step far beyond maxstep.
+        if maxstep < np.linalg.norm(dt*k1) < np.inf:
+            dt = dt * maxstep/np.linalg.norm(dt*k1)
+
         while (abs(t) < abs(duration)):
             # Do not step past duration.
             if (abs(t + dt) > abs(duration)):
-- 
2.43.0


From 2860350a28ff22852792a74a9363a948dd6a975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 23/24] fix: do not overwrite an archive that another run makes
 at the same moment

---
 oneka/archive.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/oneka/archive.py b/oneka/archive.py
index 76f8d37..eb9ced4 100644
--- a/oneka/archive.py
+++ b/oneka/archive.py
@@ -57,9 +57,6 @@ def dump_oneka(
     os.makedirs('logs', exist_ok=True)
     filename = os.path.join('logs', 'Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.bz2')
     stem, count = filename[:-4], 0
-    while os.path.exists(filename):
-        count += 1
-        filename = '{0}_{1}.bz2'.format(stem, count)
 
     # Create a dictionary.
     oneka_dict = {
@@ -84,7 +81,16 @@ def dump_oneka(
         'maxstep' : maxstep,
         'pfield' : pfield}
 
-    with bz2.BZ2File(filename, "w") as fp:
+    # Never write to an existing file, even if another run makes it just now.
+    while True:
+        try:
+            fp = bz2.BZ2File(filename, "x")
+            break
+        except FileExistsError:
+            count += 1
+            filename = '{0}_{1}.bz2'.format(stem, count)
+
+    with fp:
         pickle.dump(oneka_dict, fp)
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From ece61a60357bd3ceb08039039e20f479d83cd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 24/24] fix: do not log into a file that another run makes at
 the same moment

---
 runme.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runme.py b/runme.py
index 38379f1..398391f 100644
--- a/runme.py
+++ b/runme.py
@@ -51,10 +51,13 @@ def main(module_name):
     os.makedirs('logs', exist_ok=True)
     fname = os.path.join('logs', 'Oneka' + datetime.now().strftime('%Y%m%dT%H%M%S') + '.log')
     stem, count = fname[:-4], 0
-    while os.path.exists(fname):
-        count += 1
-        fname = '{0}_{1}.log'.format(stem, count)
-    fh = logging.FileHandler(filename=fname)
+    while True:
+        try:
+            fh = logging.FileHandler(filename=fname, mode='x')
+            break
+        except FileExistsError:
+            count += 1
+            fname = '{0}_{1}.log'.format(stem, count)
     fh.setLevel(logging.INFO)
 
     # Add the handlers to logger
-- 
2.43.0

