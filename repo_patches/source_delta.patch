From 3fe5dc73e89950ba21241f2f534a1ecf131095b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 01/30] fix: randoms_1d/2d/3d return points of the requested
 region

---
 magpie/randoms/cart.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From f70d57ecf512bb507954511793e8060762bf254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 02/30] fix: sky remappers call the existing area and random
 point functions

---
 magpie/densegrid/heal2polar.py  | 2 +-
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..e9d674f 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..98db0c3 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,8 +107,8 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
-                                                            theta_min=alpha_min, theta_max=alpha_max)
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
+                                                                theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
                 phi_rand, theta_rand = coords.usphere_shift(beta_rand, alpha_rand, 0., 0., self.center[0], self.center[1])
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 1c9210b66f4542053970cc5151ca950678251ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 03/30] fix: usphere_phi_shift leaves its input array unchanged

---
 magpie/coords/usphere.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..28917c9 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -101,8 +101,7 @@ def usphere_phi_shift(phi, dphi):
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)[0]
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 2438752beb360b2d82e1518cfe050ac3f8fe4682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 04/30] fix: dense remaps group sub-cells by the rebin factor
 of their own axis

---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..90089ce 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..711d7f8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..b8c4bd6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index e9d674f..b7d7df7 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From dea09f474fa0bd5751aef80fbcaf6cf655263927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 05/30] fix: Heal2Ortho remap is a mean, not rebin times the
 mean

---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 711d7f8..31c8de0 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -145,7 +145,7 @@ class Heal2Ortho:
         weights = self.rebin_onsphere
         f_box_highres *= weights
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
         weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
-- 
2.43.0


From d7701d2250994eecef06b0822a467e3a042e3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 06/30] fix: Monte Carlo weights are stored per cell whatever
 the hit counts and published together

---
 magpie/montecarlo/box2ring.py   | 24 +++++++++---------------
 magpie/montecarlo/cube2shell.py | 32 ++++++++++++--------------------
 magpie/montecarlo/heal2polar.py | 16 ++++++----------
 magpie/montecarlo/heal2ring.py  | 16 ++++++----------
 4 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..35ca5b1 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -208,13 +208,10 @@ class Box2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_xs = []
-        ind_ys = []
-        ind_ws = []
+        ind_xs = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ys = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.r2d), dtype=object)
         for i in range(0, len(self.r2d)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_ws = []
             for j in range(0, len(self.r2d[0])):
                 rmin, rmax = self.redges[j], self.redges[j+1]
                 pmin, pmax = self.pedges[i], self.pedges[i+1]
@@ -232,17 +229,14 @@ class Box2Ring:
                 ind_x = condition[1]
                 ind_y = condition[0]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..9f77ca4 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -140,15 +140,11 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
-        ind_xs = []
-        ind_ys = []
-        ind_zs = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ys = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_zs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ws = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
         for i in range(0, len(self.rmid)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_zs = []
-            _ind_ws = []
             for j in range(0, hp.nside2npix(self.nside)):
                 pix = j
                 rmin, rmax = self.redges[i], self.redges[i+1]
@@ -162,20 +158,16 @@ class Cube2Shell:
                 ind_y = condition[0]
                 ind_z = condition[2]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_zs.append(ind_z)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_zs[i, j] = ind_z
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_zs = ind_zs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..66385a8 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -101,11 +101,9 @@ class Heal2Polar:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.x2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.x2d), dtype=object)
         for i in range(0, len(self.x2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.x2d[0])):
                 x_min, x_max = self.xedges[j], self.xedges[j+1]
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
@@ -119,14 +117,12 @@ class Heal2Polar:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 98db0c3..ba8ea86 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -99,11 +99,9 @@ class Heal2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.alpha2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.alpha2d), dtype=object)
         for i in range(0, len(self.alpha2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
@@ -116,14 +114,12 @@ class Heal2Ring:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From 40ca1bdb444c02f062f62ad4a03a0b03cd7e8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 07/30] fix: Monte Carlo sky remaps accept a weight map

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 66385a8..cd10215 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -144,7 +144,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index ba8ea86..e960863 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -141,7 +141,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From 05bfc79dc73000f2349244274cd2fcffbc0a3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 08/30] fix: ring remappers drop cached areas and mask when a
 grid is set up again

---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 7 +++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 90089ce..898df69 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -63,6 +63,8 @@ class Box2Ring:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        self.pixarea = None
+        self.mask_in_bound = None
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
@@ -109,6 +111,8 @@ class Box2Ring:
         assert pmax <= 2.*np.pi, "pmax must be smaller of equal to 2pi."
         assert nump > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.area2d = None
+        self.mask_in_bound = None
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index b7d7df7..d2aa866 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -48,6 +48,7 @@ class Heal2Ring:
             HEALPix nside.
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
+        self.pixarea = None
         self.nside = nside
 
 
@@ -90,6 +91,7 @@ class Heal2Ring:
         assert beta_max <= 2.*np.pi, "beta_max must be smaller of equal to 2pi."
         assert num_beta > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.area2d = None
         self.alpha_edges = np.linspace(alpha_min, alpha_max, num_alpha+1)
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 35ca5b1..c45dcab 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -90,6 +90,8 @@ class Box2Ring:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        self.pixarea = None
+        self.mask_in_bound = None
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
@@ -133,6 +135,8 @@ class Box2Ring:
         assert pmax <= 2.*np.pi, "pmax must be smaller of equal to 2pi."
         assert nump > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.area2d = None
+        self.mask_in_bound = None
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
@@ -180,6 +184,8 @@ class Box2Ring:
         assert pmax <= 2.*np.pi, "pmax must be smaller of equal to 2pi."
         assert nump > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.area2d = None
+        self.mask_in_bound = None
         if addzero == True:
             self.redges = np.zeros(numr+1)
             self.redges[1:] = np.logspace(np.log10(rmin), np.log10(rmax), numr)
@@ -237,6 +243,7 @@ class Box2Ring:
         self.ind_xs = ind_xs
         self.ind_ys = ind_ys
         self.ind_ws = ind_ws
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index e960863..5cc0a31 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -38,6 +38,7 @@ class Heal2Ring:
             HEALPix nside.
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
+        self.pixarea = None
         self.nside = nside
 
 
@@ -75,6 +76,7 @@ class Heal2Ring:
         assert beta_max <= 2.*np.pi, "beta_max must be smaller of equal to 2pi."
         assert num_beta > 0, "num_beta must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.area2d = None
         self.alpha_edges = np.linspace(alpha_min, alpha_max, num_alpha+1)
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
-- 
2.43.0


From 65f0d76e29dbef6343ed5ffb5c1918944161e227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 09/30] fix: Monte Carlo remappers drop weights of a grid that
 is set up again

---
 magpie/montecarlo/box2ring.py   |  9 +++++++++
 magpie/montecarlo/cube2shell.py | 12 ++++++++++++
 magpie/montecarlo/heal2polar.py |  4 ++++
 magpie/montecarlo/heal2ring.py  |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index c45dcab..47aa3e4 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -90,6 +90,9 @@ class Box2Ring:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.pixarea = None
         self.mask_in_bound = None
         self.xedges = np.linspace(xmin, xmax, numx+1)
@@ -135,6 +138,9 @@ class Box2Ring:
         assert pmax <= 2.*np.pi, "pmax must be smaller of equal to 2pi."
         assert nump > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.area2d = None
         self.mask_in_bound = None
         self.redges = np.linspace(rmin, rmax, numr+1)
@@ -184,6 +190,9 @@ class Box2Ring:
         assert pmax <= 2.*np.pi, "pmax must be smaller of equal to 2pi."
         assert nump > 0, "nump must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_ws = None
         self.area2d = None
         self.mask_in_bound = None
         if addzero == True:
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 9f77ca4..12ef37f 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,10 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
@@ -88,6 +92,10 @@ class Cube2Shell:
         assert rmin < rmax, "rmin must be smaller than rmax."
         assert numr > 0, "numr must be greater than zero."
         assert len(center) == 3, "center list must have length 3."
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.rmid[1] - self.rmid[0]
@@ -117,6 +125,10 @@ class Cube2Shell:
         assert rmin < rmax, "rmin must be smaller than rmax."
         assert numr > 0, "numr must be greater than zero."
         assert len(center) == 3, "center list must have length 3."
+        self.ind_xs = None
+        self.ind_ys = None
+        self.ind_zs = None
+        self.ind_ws = None
         if addzero == True:
             self.redges = np.zeros(numr+1)
             self.redges[1:] = np.logspace(np.log10(rmin), np.log10(rmax), numr)
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index cd10215..849d7ab 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -37,6 +37,8 @@ class Heal2Polar:
             HEALPix nside.
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
+        self.ind_pixs = None
+        self.ind_ws = None
         self.nside = nside
 
 
@@ -77,6 +79,8 @@ class Heal2Polar:
             assert y_grid > 0, "y_grid must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
         # compute grid info
+        self.ind_pixs = None
+        self.ind_ws = None
         self.xedges = np.linspace(-x_length/2., x_length/2., x_grid+1)
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5cc0a31..9efea4a 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -38,6 +38,8 @@ class Heal2Ring:
             HEALPix nside.
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
+        self.ind_pixs = None
+        self.ind_ws = None
         self.pixarea = None
         self.nside = nside
 
@@ -76,6 +78,8 @@ class Heal2Ring:
         assert beta_max <= 2.*np.pi, "beta_max must be smaller of equal to 2pi."
         assert num_beta > 0, "num_beta must be greater than zero."
         assert len(center) == 2, "center list must have length 2."
+        self.ind_pixs = None
+        self.ind_ws = None
         self.area2d = None
         self.alpha_edges = np.linspace(alpha_min, alpha_max, num_alpha+1)
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
-- 
2.43.0


From e8335da4763ded92637be38a083d6abbffbebaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 10/30] fix: dense sky remappers follow a change of the source
 map resolution

---
 magpie/densegrid/heal2ortho.py | 5 +++++
 magpie/densegrid/heal2polar.py | 5 +++++
 magpie/densegrid/heal2ring.py  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 31c8de0..adcb367 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -39,6 +39,8 @@ class Heal2Ortho:
         self.rebin_onsphere = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -52,6 +54,8 @@ class Heal2Ortho:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_theta is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], y_length=None, y_grid=None,
@@ -123,6 +127,7 @@ class Heal2Ortho:
         zz = self.rebin_z2d.flatten()
         rr, phi, theta = coords.cart2sphere(xx, yy, zz)
         phi, theta = coords.usphere_shift(phi, theta, self.end_center[0], self.end_center[1], self.center[0], self.center[1])
+        self.rebin_phi, self.rebin_theta = phi, theta
         self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
 
 
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index b8c4bd6..9e782d9 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -33,6 +33,8 @@ class Heal2Polar:
         self.rebin_y2d = None
         self.rebin_xind = None
         self.rebin_yind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
 
 
@@ -46,6 +48,8 @@ class Heal2Polar:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        if self.rebin_theta is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None,
@@ -117,6 +121,7 @@ class Heal2Polar:
         if self.alpha != 0.:
             xx, yy = coords.usphere_spin(xx, yy, 0., np.pi/2., self.alpha)
         xx, yy = coords.usphere_shift(xx, yy, 0., np.pi/2., self.center[0], self.center[1])
+        self.rebin_phi, self.rebin_theta = xx, yy
         self.rebin_pix = hp.ang2pix(self.nside, yy, xx)
 
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2aa866..3b0be01 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -34,6 +34,8 @@ class Heal2Ring:
         self.rebin_beta2d = None
         self.rebin_alpha_ind = None
         self.rebin_beta_ind = None
+        self.rebin_phi = None
+        self.rebin_theta = None
         self.rebin_pix = None
         self.area2d = None
         self.pixarea = None
@@ -50,6 +52,8 @@ class Heal2Ring:
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.pixarea = None
         self.nside = nside
+        if self.rebin_theta is not None:
+            self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -118,6 +122,7 @@ class Heal2Ring:
         else:
             phi, theta = self.rebin_beta2d.flatten(), self.rebin_alpha2d.flatten()
         phi, theta = coords.usphere_shift(phi, theta, 0., 0., self.center[0], self.center[1])
+        self.rebin_phi, self.rebin_theta = phi, theta
         self.rebin_pix = hp.ang2pix(self.nside, theta, phi)
 
 
-- 
2.43.0


From 5c0dcd502dbffd908862d22c2b7a68877631c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:26 +0000
Subject: [PATCH 11/30] fix: dense Cube2Shell places periodic images for the
 current cube

---
 magpie/densegrid/cube2shell.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..ddde480 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -32,6 +32,7 @@ class Cube2Shell:
         self.center = None
         self.rebin_shell = None
         self.rebin_r = None
+        self.periodic = None
         self.centers = None
         self.rebin_redges = None
         self.rebin_rmid = None
@@ -66,6 +67,8 @@ class Cube2Shell:
         self.dy = self.yedges[1] - self.yedges[0]
         self.dz = self.zedges[1] - self.zedges[0]
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
+        if self.periodic is not None:
+            self._set_centers()
 
 
     def setup_polar(self, rmin, rmax, numr, nside, center=[0., 0., 0.], rebin_shell=2,
@@ -106,18 +109,24 @@ class Cube2Shell:
         self.center = center
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
-        centers = []
-        for i in range(periodicx[0], periodicx[1]+1):
-            for j in range(periodicy[0], periodicy[1]+1):
-                for k in range(periodicz[0], periodicz[1]+1):
-                    centers.append([center[0] + i*(self.xedges[-1]-self.xedges[0]),
-                                    center[1] + j*(self.yedges[-1]-self.yedges[0]),
-                                    center[2] + k*(self.zedges[-1]-self.zedges[0])])
-        self.centers = centers
+        self.periodic = [list(periodicx), list(periodicy), list(periodicz)]
+        self._set_centers()
         self.rebin_redges = np.linspace(self.redges[0], self.redges[-1], self.rebin_r*len(self.rmid) + 1)
         self.rebin_rmid = 0.5*(self.rebin_redges[1:] + self.rebin_redges[:-1])
 
 
+    def _set_centers(self):
+        """Sets the centers of the polar grid for all periodic images of the cube."""
+        centers = []
+        for i in range(self.periodic[0][0], self.periodic[0][1]+1):
+            for j in range(self.periodic[1][0], self.periodic[1][1]+1):
+                for k in range(self.periodic[2][0], self.periodic[2][1]+1):
+                    centers.append([self.center[0] + i*(self.xedges[-1]-self.xedges[0]),
+                                    self.center[1] + j*(self.yedges[-1]-self.yedges[0]),
+                                    self.center[2] + k*(self.zedges[-1]-self.zedges[0])])
+        self.centers = centers
+
+
     def remap(self, f, verbose=True):
         """Remaps 3d grid data f onto spherical polar coordinate grid.
 
-- 
2.43.0


From faf3e4ce7e24c2def16010587923593195bd0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 12/30] fix: radial profiles exclude partially covered cells
 and leave the caller's weights unchanged

---
 magpie/densegrid/box2ring.py  | 10 ++++++----
 magpie/montecarlo/box2ring.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 898df69..9fe1a49 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -266,17 +266,19 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
-            condition = np.where(self.mask_in_bound != 1.)
+        condition = np.where(self.mask_in_bound != 1.)
+        if len(condition[0]) != 0:
+            mask = np.ones(np.shape(self.mask_in_bound))
+            mask[condition] = 0.
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*mask
             else:
-                w = self.mask_in_bound
+                w = mask
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 47aa3e4..325adf6 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -364,17 +364,19 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
-            condition = np.where(self.mask_in_bound != 1.)
+        condition = np.where(self.mask_in_bound != 1.)
+        if len(condition[0]) != 0:
+            mask = np.ones(np.shape(self.mask_in_bound))
+            mask[condition] = 0.
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
             if sigma is not None:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = w*mask
             else:
-                w = self.mask_in_bound
+                w = mask
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From 8b07b9b83537618d79dd114d71b896af83bc04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 13/30] fix: remap weights are set for output pixels just below
 the input grid

---
 magpie/src/remap_utils.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..b8c8f72 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -277,6 +277,11 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
         pix(i) = -1
       end if
     end do
+  else
+    do i = 1, pixlen
+      weights(i) = 0.
+      pix(i) = -1
+    end do
   end if
 
 end subroutine remap_1d_grid2grid_pixel
-- 
2.43.0


From 515cd3be9964978dbcf1a94a507214e4f00bc38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 14/30] fix: grid2grid1D without boxsizeout and grid2grid3D
 with a list of grid divisions

---
 magpie/remap/grid2grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..c03d0b2 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -28,6 +28,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     x1min = origin
     x1max = origin + boxsize
     x2min = originout
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x2max = originout + boxsizeout
     f1shape = np.shape(f1)
     grid1 = f1shape[0]
@@ -171,7 +173,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From 2486b2f0a8a7fcaddc4323d557708826cac84c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 15/30] fix: rotating a polar map works and leaves the caller's
 map unchanged

---
 magpie/coords/__init__.py      | 1 +
 magpie/coords/polar.py         | 2 +-
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 6 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..3cb6277 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -54,7 +54,7 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
-        f_polar_rot = f_polar
+        f_polar_rot[:] = f_polar
     f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if pedges[-1] - pedges[0] == 2.*np.pi:
diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 9fe1a49..e5c3941 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -233,7 +233,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 3b0be01..683b701 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -195,7 +195,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 325adf6..46de44b 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -331,7 +331,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 9efea4a..a0bebd5 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -184,7 +184,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From fe0a89b16df143e62852dfa6fd7044d7877006d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 16/30] fix: PointOfView.reverse undoes the spin of the view

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..ba5f359 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -103,7 +103,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi-self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From 63bc39d840d5f5e75d7131063c73f6473466c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 17/30] fix: dense Cube2Shell reads the 3D data in the layout
 of its grid

---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index ddde480..c4b03e3 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -160,7 +160,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From a66f641626d347aa041f6267d8036fe7cfbdedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 18/30] fix: target grids with a single bin along an axis can
 be set up

---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index e5c3941..18bddf2 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -117,8 +117,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index c4b03e3..4dffff9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -104,7 +104,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index adcb367..88236cc 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -93,8 +93,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 9e782d9..9f6fb4b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -98,8 +98,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 683b701..184ab98 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -100,8 +100,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 46de44b..67d90ad 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -147,8 +147,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -204,7 +204,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 12ef37f..e777459 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -98,7 +98,7 @@ class Cube2Shell:
         self.ind_ws = None
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 849d7ab..af6b307 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -85,8 +85,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index a0bebd5..5078086 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -85,8 +85,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From 92fd7de3bc6a133b3a17f1b5218180e444050d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 19/30] fix: random_prob_draw never draws members of
 probability zero

---
 magpie/randoms/subsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/subsample.py b/magpie/randoms/subsample.py
index 9f970cc..1a8b32d 100644
--- a/magpie/randoms/subsample.py
+++ b/magpie/randoms/subsample.py
@@ -56,7 +56,7 @@ def random_prob_draw(sample, prob, size=None):
     """
     u_r = np.random.random_sample(len(sample))
     if size is None:
-        cond = np.where(u_r <= prob)[0]
+        cond = np.where(u_r < prob)[0]
         randsamp = sample[cond]
         randsamp = shuffle(randsamp)
     else:
-- 
2.43.0


From 0bf255c6f3719c2769b0cd8267ea8c805e464dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 20/30] fix: Cube2Shell refuses an empty z-axis before it
 changes the grid

---
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/montecarlo/cube2shell.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 4dffff9..2803dfb 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -57,6 +57,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index e777459..d92377f 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.ind_xs = None
         self.ind_ys = None
         self.ind_zs = None
-- 
2.43.0


From ac2748112b6e47e68801fb72a6a6c7fbbe2cea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 21/30] fix: PointOfView.setup that fails or is interrupted
 mixes the old and the new view

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index ba5f359..c8be316 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -31,10 +31,10 @@ class PointOfView:
         spin : float, optional
             rotate the perspective around the central point defined by point.
         """
+        _r, _phi, _theta = coords.cart2sphere(point[0], point[1], point[2], center=camera)
         self.camera  = camera
         self.point   = point
         self.display = display
-        _r, _phi, _theta = coords.cart2sphere(self.point[0], self.point[1], self.point[2], center=self.camera)
         self.phi_point_towards = _phi
         self.theta_point_towards = _theta
         self.spin = spin
-- 
2.43.0


From 0a676b8794205ffe12518d844969816480d0f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 22/30] fix: a grid setup that fails or is interrupted leaves a
 mixture of the old and the new grid

---
 magpie/densegrid/box2ring.py    |  2 ++
 magpie/densegrid/cube2shell.py  |  2 ++
 magpie/densegrid/heal2ortho.py  |  2 ++
 magpie/densegrid/heal2polar.py  |  2 ++
 magpie/densegrid/heal2ring.py   |  2 ++
 magpie/montecarlo/box2ring.py   |  3 +++
 magpie/montecarlo/cube2shell.py |  3 +++
 magpie/montecarlo/heal2polar.py |  2 ++
 magpie/montecarlo/heal2ring.py  |  2 ++
 magpie/utils/__init__.py        |  2 ++
 magpie/utils/atomic.py          | 19 +++++++++++++++++++
 11 files changed, 41 insertions(+)
 create mode 100644 magpie/utils/atomic.py

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 18bddf2..aa2dc8f 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -43,6 +43,7 @@ class Box2Ring:
         self.mask_in_bound = None
 
 
+    @utils.all_or_nothing
     def setup_box(self, xmin, xmax, numx, ymin, ymax, numy):
         """Setups the box grid.
 
@@ -74,6 +75,7 @@ class Box2Ring:
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
 
 
+    @utils.all_or_nothing
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
         """Setups the polar grid.
 
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 2803dfb..0d11379 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -37,6 +37,7 @@ class Cube2Shell:
         self.rebin_redges = None
         self.rebin_rmid = None
 
+    @utils.all_or_nothing
     def setup_cube(self, xmin, xmax, numx, ymin, ymax, numy, zmin, zmax, numz):
         """Setups the box grid.
 
@@ -72,6 +73,7 @@ class Cube2Shell:
             self._set_centers()
 
 
+    @utils.all_or_nothing
     def setup_polar(self, rmin, rmax, numr, nside, center=[0., 0., 0.], rebin_shell=2,
                     rebin_r=2, periodicx=[0, 0], periodicy=[0, 0], periodicz=[0, 0]):
         """Setups the polar grid.
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 88236cc..939288b 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -44,6 +44,7 @@ class Heal2Ortho:
         self.rebin_pix = None
 
 
+    @utils.all_or_nothing
     def setup_map(self, nside):
         """Setups the HEALPix map.
 
@@ -58,6 +59,7 @@ class Heal2Ortho:
             self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
+    @utils.all_or_nothing
     def setup_box(self, x_length, x_grid, center=[0., 0.], y_length=None, y_grid=None,
                   rebin_x=2, rebin_y=2, radius=1.):
         """Setups the polar grid.
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 9f6fb4b..feaf767 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -38,6 +38,7 @@ class Heal2Polar:
         self.rebin_pix = None
 
 
+    @utils.all_or_nothing
     def setup_map(self, nside):
         """Setups the HEALPix map.
 
@@ -52,6 +53,7 @@ class Heal2Polar:
             self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
+    @utils.all_or_nothing
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None,
                   rebin_x=2, rebin_y=2):
         """Setups the polar grid.
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 184ab98..5b5052f 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -41,6 +41,7 @@ class Heal2Ring:
         self.pixarea = None
 
 
+    @utils.all_or_nothing
     def setup_map(self, nside):
         """Setups the HEALPix map.
 
@@ -56,6 +57,7 @@ class Heal2Ring:
             self.rebin_pix = hp.ang2pix(self.nside, self.rebin_theta, self.rebin_phi)
 
 
+    @utils.all_or_nothing
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
                         num_beta, beta_min=0., beta_max=2.*np.pi,
                         center=[0., 0.], beta_shift = 0., rebin_alpha=2, rebin_beta=2):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 67d90ad..a253114 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -70,6 +70,7 @@ class Box2Ring:
         self.mask_in_bound = None
 
 
+    @utils.all_or_nothing
     def setup_box(self, xmin, xmax, numx, ymin, ymax, numy):
         """Setups the box grid.
 
@@ -104,6 +105,7 @@ class Box2Ring:
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
 
 
+    @utils.all_or_nothing
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
                         center=[0., 0.], phi_shift=0.):
         """Setups the polar grid.
@@ -154,6 +156,7 @@ class Box2Ring:
         self.phi_shift = phi_shift
 
 
+    @utils.all_or_nothing
     def setup_polar_log(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
                         center=[0., 0.], phi_shift=0., addzero=True):
         """Setups the polar grid with logarithmic radial bins.
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index d92377f..3886671 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -36,6 +36,7 @@ class Cube2Shell:
         self.ind_ws = None
 
 
+    @utils.all_or_nothing
     def setup_cube(self, xmin, xmax, numx, ymin, ymax, numy, zmin, zmax, numz):
         """Setups the box grid.
 
@@ -73,6 +74,7 @@ class Cube2Shell:
         self.x3d, self.y3d, self.z3d = np.meshgrid(self.xmid, self.ymid, self.zmid)
 
 
+    @utils.all_or_nothing
     def setup_polar_lin(self, rmin, rmax, numr, nside, center=[0., 0., 0.]):
         """Setups the polar grid.
 
@@ -104,6 +106,7 @@ class Cube2Shell:
         self.center = center
 
 
+    @utils.all_or_nothing
     def setup_polar_log(self, rmin, rmax, numr, nside, center=[0., 0., 0.], addzero=True):
         """Setups the polar grid with logarithmic radial bins.
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index af6b307..a9994ae 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -28,6 +28,7 @@ class Heal2Polar:
         self.ind_ws = None
 
 
+    @utils.all_or_nothing
     def setup_map(self, nside):
         """Setups the HEALPix map.
 
@@ -42,6 +43,7 @@ class Heal2Polar:
         self.nside = nside
 
 
+    @utils.all_or_nothing
     def setup_box(self, x_length, x_grid, center=[0., 0.], alpha=0., y_length=None, y_grid=None):
         """Setups the polar grid.
 
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5078086..cb74dd8 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -29,6 +29,7 @@ class Heal2Ring:
         self.pixarea = None
 
 
+    @utils.all_or_nothing
     def setup_map(self, nside):
         """Setups the HEALPix map.
 
@@ -44,6 +45,7 @@ class Heal2Ring:
         self.nside = nside
 
 
+    @utils.all_or_nothing
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
                         center=[0., 0.], beta_shift=0.):
         """Setups the polar grid.
diff --git a/magpie/utils/__init__.py b/magpie/utils/__init__.py
index 3743bb2..0d79cfb 100644
--- a/magpie/utils/__init__.py
+++ b/magpie/utils/__init__.py
@@ -1,3 +1,5 @@
 
+from .atomic import all_or_nothing
 from .check import is_pos_monotonic
 from .progress import progress_bar
+
diff --git a/magpie/utils/atomic.py b/magpie/utils/atomic.py
new file mode 100644
index 0000000..0bf6300
--- /dev/null
+++ b/magpie/utils/atomic.py
@@ -0,0 +1,19 @@
+import copy
+import functools
+
+
+def all_or_nothing(method):
+    """Decorator for methods that set up or reset an object: they take effect as a whole
+    or, if they fail or are interrupted, not at all.
+
+    Parameters
+    ----------
+    method : function
+        Method which assigns the attributes of its object.
+    """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        new = copy.copy(self)
+        method(new, *args, **kwargs)
+        self.__dict__ = new.__dict__
+    return wrapper
-- 
2.43.0


From db626fe86bed7080f6668fcca76b4f1899e816d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 23/30] fix: orthographic positions ignored the radius of the
 grid

---
 magpie/densegrid/heal2ortho.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 939288b..b7aa200 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -189,9 +189,9 @@ class Heal2Ortho:
     def transform(self, phi, theta):
         """Transforms coordinates from the original Healpix coordinate system to the orthographic projection"""
         if np.isscalar(phi) == True:
-            r = 1.
+            r = self.radius
         else:
-            r = np.ones(len(phi))
+            r = self.radius*np.ones(len(phi))
         phi, theta = coords.usphere_shift(phi, theta, self.center[0], self.center[1], self.end_center[0], self.end_center[1])
         x, y, z = coords.sphere2cart(r, phi, theta)
         if np.isscalar(phi) == True:
-- 
2.43.0


From 7f796883420b8a22b52d83bf2864255097ad2b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 24/30] fix: rotating a polar grid blended neighbouring cells
 with swapped weights and wrapped onto changed ones

---
 magpie/coords/polar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 3cb6277..07b242f 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -55,10 +55,11 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
         f_polar_rot[:] = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+    f_first = np.copy(f_polar_rot[0])
+    f_polar_rot[:-1] = (1.-w_shift)*f_polar_rot[:-1] + w_shift*f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
+        f_polar_rot[-1] = (1.-w_shift)*f_polar_rot[-1] + w_shift*f_first
     else:
-        f_polar_rot[-1] *= w_shift
+        f_polar_rot[-1] *= 1.-w_shift
     return f_polar_rot
-- 
2.43.0


From 935b85c69a2525674407973a1438ff4fcdd814ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 25/30] fix: rotate_polar ignored the angles it is given

---
 magpie/coords/polar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 07b242f..bd7cf99 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,7 +18,7 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
+    rot_phi = phi + rotate
     cond = np.where(rot_phi >= 2.*np.pi)[0]
     rot_phi[cond] -= 2.*np.pi
     cond = np.where(rot_phi < 0.)[0]
-- 
2.43.0


From 6daf427d857cc27f8c0f1c17047043c77b304897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 26/30] fix: rotate_polar wrapped whole rows of angles given as
 a grid

---
 magpie/coords/polar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index bd7cf99..d2f8f31 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -19,9 +19,9 @@ def rotate_polar(phi, rotate):
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
     rot_phi = phi + rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
+    cond = np.where(rot_phi >= 2.*np.pi)
     rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
+    cond = np.where(rot_phi < 0.)
     rot_phi[cond] += 2.*np.pi
     return rot_phi
 
-- 
2.43.0


From 4970ce9aa510a17c8bc53d8cbe3b3d00b6c73e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 27/30] fix: remappers followed later changes of the caller's
 centre list or array

---
 magpie/densegrid/box2ring.py    | 4 +++-
 magpie/densegrid/cube2shell.py  | 4 +++-
 magpie/densegrid/heal2ortho.py  | 4 +++-
 magpie/densegrid/heal2polar.py  | 4 +++-
 magpie/densegrid/heal2ring.py   | 4 +++-
 magpie/montecarlo/box2ring.py   | 6 ++++--
 magpie/montecarlo/cube2shell.py | 6 ++++--
 magpie/montecarlo/heal2polar.py | 4 +++-
 magpie/montecarlo/heal2ring.py  | 4 +++-
 9 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index aa2dc8f..48106fa 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .. import coords
@@ -122,7 +124,7 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
-        self.center = center
+        self.center = copy.copy(center)
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
         self.rebin_p = rebin_p
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 0d11379..b810d9f 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -109,7 +111,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
-        self.center = center
+        self.center = copy.copy(center)
         self.rebin_shell = rebin_shell
         self.rebin_r = rebin_r
         self.periodic = [list(periodicx), list(periodicy), list(periodicz)]
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index b7aa200..8c3f5b5 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -105,7 +107,7 @@ class Heal2Ortho:
         self.onsphere[condition] = np.nan
         self.z2d[condition] = 0.
 
-        self.center = center
+        self.center = copy.copy(center)
         self.rebin_x = rebin_x
         self.rebin_y = rebin_y
         self.rebin_xedges = np.linspace(self.xedges[0], self.xedges[-1], self.rebin_x*len(self.xmid) + 1)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index feaf767..fcd9ab0 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -103,7 +105,7 @@ class Heal2Polar:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
-        self.center = center
+        self.center = copy.copy(center)
         self.alpha = alpha
         self.rebin_x = rebin_x
         self.rebin_y = rebin_y
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 5b5052f..7812312 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -105,7 +107,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
-        self.center = center
+        self.center = copy.copy(center)
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
         self.rebin_beta = rebin_beta
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index a253114..57bc418 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .. import coords
@@ -152,7 +154,7 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
-        self.center = center
+        self.center = copy.copy(center)
         self.phi_shift = phi_shift
 
 
@@ -209,7 +211,7 @@ class Box2Ring:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
-        self.center = center
+        self.center = copy.copy(center)
         self.phi_shift = phi_shift
 
 
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 3886671..7edcd8f 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -103,7 +105,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
-        self.center = center
+        self.center = copy.copy(center)
 
 
     @utils.all_or_nothing
@@ -141,7 +143,7 @@ class Cube2Shell:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
         self.nside = nside
-        self.center = center
+        self.center = copy.copy(center)
 
 
     def get_weights(self, mc_size=100, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index a9994ae..c564797 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -90,7 +92,7 @@ class Heal2Polar:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
-        self.center = center
+        self.center = copy.copy(center)
         self.alpha = alpha
 
 
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index cb74dd8..c479605 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import healpy as hp
 
@@ -90,7 +92,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
-        self.center = center
+        self.center = copy.copy(center)
         self.beta_shift = beta_shift
 
 
-- 
2.43.0


From 6546a6353fca16c7477b5a1ea229956990887073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 28/30] fix: a view followed later changes of the caller's
 camera and target

---
 magpie/densegrid/pointofview.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index c8be316..b082679 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .. import coords
@@ -31,6 +33,7 @@ class PointOfView:
         spin : float, optional
             rotate the perspective around the central point defined by point.
         """
+        camera, point = copy.copy(camera), copy.copy(point)
         _r, _phi, _theta = coords.cart2sphere(point[0], point[1], point[2], center=camera)
         self.camera  = camera
         self.point   = point
-- 
2.43.0


From c006c81a523dd765811715e96bce758d7e0311a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 29/30] fix: usphere_shift and usphere_spin could return the
 caller's own theta array

---
 magpie/coords/usphere.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 28917c9..10bd465 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 
 from .. import coords
@@ -156,7 +158,7 @@ def usphere_shift(phi, theta, phi_start, theta_start, phi_end, theta_end):
     # new_phi = np.copy(phi)
     # new_theta = np.copy(theta)
     new_phi = phi
-    new_theta = theta
+    new_theta = copy.copy(theta)
     new_phi = usphere_phi_shift(new_phi, phi_end - phi_start)
     if theta_start != theta_end:
         new_phi, new_theta = \
-- 
2.43.0


From b9bb24e48c267e0f50ac8d2db16be809af0edff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:17 +0000
Subject: [PATCH 30/30] fix: a shift of a whole turn is accepted, as the
 message says (a view along an azimuth that rounds to 2 pi, or a spin that
 rounds away, was refused)

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 10bd465..55274b1 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -99,7 +99,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     # phi_new = np.copy(phi)
-- 
2.43.0

