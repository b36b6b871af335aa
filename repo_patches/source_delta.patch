From 3736fc78c8beccea7ff09231b32afe2857d205e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 01/60] fix: use FT of eps/potential at G-G' (not G'-G) with
 'abs' truncation

---
 legume/exc/exc.py | 16 ++++++++--------
 legume/gme/gme.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..e0e2882 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -242,10 +242,10 @@ class ExcitonSchroedEq(object):
          assuming abs-initialized reciprocal lattice
         """
 
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
         """
         Old code calculating all redundant delta_g = Gi-Gj
         pot_ft = self.layer.compute_exc_ft(np.vstack((ggridx, ggridy)),
@@ -256,10 +256,10 @@ class ExcitonSchroedEq(object):
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         indgrid = bd.array([indgridx, indgridy])
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..09f36e5 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -447,19 +447,19 @@ class GuidedModeExp(object):
 
         # x and y components of delta_G = G1-G2,
         #the dimension of ggrdix and ggrdiy is [Ng^2]
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
 
         # The dimension of G1 is [2,Ng^2]
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         # This is the bottleneck in terms of timing, we should find
-- 
2.43.0


From cafabba891887875a95aa930fcf631a1f4967bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 02/60] fix: include all G vectors of the truncation circle for
 strongly oblique lattices

---
 legume/exc/exc.py | 7 +++----
 legume/gme/gme.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index e0e2882..0915dc6 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -172,10 +172,9 @@ class ExcitonSchroedEq(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # All the vectors in the circle have |n_i| = |G.a_i|/2pi <= gmax*|a_i|
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 09f36e5..887b56a 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -212,10 +212,9 @@ class GuidedModeExp(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
-        n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
-        n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+        # All the vectors in the circle have |n_i| = |G.a_i|/2pi <= gmax*|a_i|
+        n1max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
+        n2max = np.int_(self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From c54629f4bf16011dd6ebac4dfd56545484d838f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 03/60] fix: reset the G-point indexes of guided modes at every
 GuidedModeExp.run()

---
 legume/gme/gme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 887b56a..2f6d888 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -874,6 +874,7 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
-- 
2.43.0


From b5a5a53445d14311e20c0f03f8ddd1e9c3cd460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 04/60] fix: recompute inverse permittivity when only_gmodes
 changes between runs

---
 legume/gme/gme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 2f6d888..761f767 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -645,9 +645,10 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
+        # The stored matrices can be used again only if they were computed with
+        # the same value of 'only_gmodes'
+        if getattr(self, '_eps_inv_only_gmodes', None) != only_gmodes:
+            self._eps_inv_only_gmodes = only_gmodes
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
-- 
2.43.0


From 20e7c23d4c8455532c500e974851d918e7af78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 05/60] fix: label the odd modes by their own number with
 kz_symmetry='both'

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 761f767..984b07e 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1063,7 +1063,7 @@ class GuidedModeExp(object):
                     symm1 = bd.concatenate((np.full(self.even_counts[ik],
                                                     1,
                                                     dtype=int),
-                                            np.full(self.even_counts[ik],
+                                            np.full(self.odd_counts[ik],
                                                     -1,
                                                     dtype=int)))
                     freq1 = bd.concatenate((freq1_even, freq1_odd))
-- 
2.43.0


From fe5c36479f6ee0304c4f147577548e34580299e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 06/60] fix: separate kz parities over the guided modes that
 enter the expansion

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 984b07e..87846e1 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1261,7 +1261,7 @@ class GuidedModeExp(object):
         blocks = []  #
         blocks_w = []  #eigenvectors
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
 
             #Block of symmetry operator corresponding to (k,ind_alpha)
@@ -1399,7 +1399,7 @@ class GuidedModeExp(object):
         #dim_final = np.shape(mat)[0]
         dim_final = 0
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
             # These are for creating sparse matrix
             # check_g to avoid double counting on reflected g
-- 
2.43.0


From bb91205685c024ef3fd3d88c8abdaa617e6e0409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 07/60] fix: diamagnetic blocks of the Hopfield matrix sum all
 the wells and follow the phase of C

---
 legume/pol/pol.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..ce6abfb 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -184,9 +184,8 @@ class HopfieldPol(object):
         #n_1, n_2 loop over photonic modes (n and n' in the paper), nu loop over excitonic modes
         for n_1 in range(self.N_max):
             for n_2 in range(self.N_max):
-                D[n_1, n_2] = bd.sum(
-                    bd.conj(C[n_1, :]) * C[n_2, :] /
-                    bd.real(exc.eners[kind, :]))
+                D[n_1, n_2] = bd.sum(C[n_1, :] * bd.conj(C[n_2, :]) /
+                                     bd.real(exc.eners[kind, :]))
 
         return C, D
 
@@ -226,14 +225,16 @@ class HopfieldPol(object):
 
         np.fill_diagonal(diag_exc, exc_el)
 
-        diag_phot = diag_phot + 2 * bd.real(D_final_block)
+        diag_phot = diag_phot + 2 * D_final_block
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block,
+             -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot,
+             -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From c67471b5ca9a90f37bfb2600377fdaf71fc676f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 08/60] fix: HopfieldPol.run() does not modify the option
 dictionaries it is given

---
 legume/pol/pol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index ce6abfb..92cdf37 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -289,8 +289,9 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        # (in new dictionaries, the ones of the caller are left unchanged)
+        gme_options = dict(gme_options, kpoints=self.kpoints)
+        exc_options = dict(exc_options, kpoints=self.kpoints)
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From e55ad496191f23bf9d547d4fe9600137d53bea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/60] fix: normalise the exciton potential once, not once per
 shape

---
 legume/phc/layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..abaee42 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -166,13 +166,13 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
-            FT = FT / self.lattice.ec_area
-            # If the potential is negative we must shift all energies
+        FT = FT / self.lattice.ec_area
+        # If the potential is negative we must shift all energies
 
-            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
-            # If the first element corresponding to V(0) is negative we shift the energies by Vmax
-            if FT[ind0][0] < 0:
-                FT[ind0] += bd.abs(Vmax)
+        ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+        # If the first element corresponding to V(0) is negative we shift the energies by Vmax
+        if FT[ind0][0] < 0:
+            FT[ind0] += bd.abs(Vmax)
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0


From 9696f00a515e799d55e4cc4168073482fcc6f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 10/60] fix: ExcitonSchroedEq.get_pot_xy() with 'tbt'
 truncation

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 0915dc6..00548aa 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -411,8 +411,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From cdf036ed3715b60d1c1e791ed33845f60dd58354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 11/60] fix: repr of Ellipse

---
 legume/phc/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..103f54f 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,7 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return f"Ellipse(eps = {self.eps:.2f}, x = {self.x_cent:.4f}, y = {self.y_cent:.4f}, rx = {self.rx:.4f}, ry = {self.ry:.4f}, phi = {self.phi:.4f})"
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From c935683c9f4afff321518cba24c3d8d4518127ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 12/60] fix: rotate Ellipse around its center, so that (x_cent,
 y_cent) is the center for any phi

---
 legume/phc/shapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 103f54f..6600b75 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -154,16 +154,16 @@ class Ellipse(Shape):
             np.abs(np.square(g1y * self.ry)))
         gabs += 1e-10  # To avoid numerical instability at zero
 
-        ft = bd.exp(-1j*g1x*self.x_cent - 1j*g1y*self.y_cent)*self.rx*self.ry* \
+        ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
 
         return ft
 
     def is_inside(self, x, y):
-        x1 = x * bd.cos(self.phi) + y * bd.sin(self.phi)
-        y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
-        return (np.square((x1 - self.x_cent) / self.rx) + np.square(
-            (y1 - self.y_cent) / self.ry) <= 1)
+        (x0, y0) = (x - self.x_cent, y - self.y_cent)
+        x1 = x0 * bd.cos(self.phi) + y0 * bd.sin(self.phi)
+        y1 = -x0 * bd.sin(self.phi) + y0 * bd.cos(self.phi)
+        return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
 
 class Poly(Shape):
-- 
2.43.0


From f0cacc081955bdea76c88f6fc2116776644957b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 13/60] fix: raise the intended exceptions for malformed gvec
 in shapes

---
 legume/phc/shapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 6600b75..059ff46 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -21,18 +21,18 @@ class Shape(object):
         if type(gvec) == list:
             gvec = np.array(gvec)
         elif type(gvec) != np.ndarray:
-            raise (TypeError, "Input gvec must be either of type list or \
-                                    np.ndarray")
+            raise TypeError("Input gvec must be either of type list or "
+                            "np.ndarray")
 
         if len(gvec.shape) != 2:
-            raise (ValueError, "Input gvec must be a 2D array")
+            raise ValueError("Input gvec must be a 2D array")
 
         elif gvec.shape[0] != 2:
             if gvec.shape[1] == 2:
                 gvec = gvec.T
             else:
-                raise (ValueError, "Input gvec must have length 2 \
-                                along one axis")
+                raise ValueError("Input gvec must have length 2 "
+                                 "along one axis")
 
         return (gvec[0, :], gvec[1, :])
 
-- 
2.43.0


From f727de04edc4fe2474bfb20493b08aaa259492b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 14/60] fix: Lattice.bz_path() accepts an integer ns, as
 documented

---
 legume/phc/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 27ef912..79ec80d 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -132,7 +132,7 @@ class Lattice(object):
             A dictionary with the 'kpoints', 'labels',
             'indexes', 'k_indexes', and the 'angles' corresponding to the labels.      
         """
-        if not isinstance(ns, list): ns = list(ns)
+        ns = list(np.atleast_1d(ns))
         npts = len(pts)
         if npts < 2:
             raise ValueError("At least two points must be given")
-- 
2.43.0


From 9565deec758c8e00dd5f18b7b3341a625b0d2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 15/60] fix: Lattice.xy_grid() accepts a single number of
 periods, as documented

---
 legume/phc/lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 79ec80d..c212cd1 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -90,13 +90,13 @@ class Lattice(object):
         np.ndarray
             Two arrays defining a linear grid in `x` and `y`.
         """
-        if periods == None:
+        if periods is None:
             if self.type == 'square' or self.type == 'rectangular':
                 periods = [1, 1]
             else:
                 periods = [2, 2]
-        elif np.array(periods).shape == 1:
-            periods = periods[0] * np.ones((2, ))
+        elif np.size(periods) == 1:
+            periods = np.ravel(periods)[0] * np.ones((2, ))
 
         ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
-- 
2.43.0


From 6983104173cfc2e0223e4e9dbcd36d6e143bc9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 16/60] fix: Lattice.xy_grid() spans primitive vectors with
 negative components

---
 legume/phc/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index c212cd1..0fe4140 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -98,10 +98,10 @@ class Lattice(object):
         elif np.size(periods) == 1:
             periods = np.ravel(periods)[0] * np.ones((2, ))
 
-        ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
+        ymax = max(np.abs([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
 
-        xmax = np.abs(max([self.a1[0], self.a2[0]])) * periods[0] / 2
+        xmax = max(np.abs([self.a1[0], self.a2[0]])) * periods[0] / 2
         xmin = -xmax
 
         return (np.linspace(xmin, xmax, Nx), np.linspace(ymin, ymax, Ny))
-- 
2.43.0


From ef3860d0ab5763dee18e16ec2e052521a7970e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 17/60] fix: ShapesLayer.get_eps() covers all the cells that
 the points span

---
 legume/phc/layer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index abaee42..e35ae3e 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -192,15 +192,15 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
-        nmax = np.int_(
-            np.sqrt(
-                np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-            / a_p) + 1
+        # The points span at most |r|*|b_i|/2pi cells in the direction of a_i
+        r_max = np.sqrt(
+            np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
+        (n1max, n2max) = (np.int_(r_max * np.linalg.norm(b) / 2 / np.pi) + 1
+                          for b in (self.lattice.b1, self.lattice.b2))
 
         for shape in self.shapes:
-            for n1 in range(-nmax, nmax + 1):
-                for n2 in range(-nmax, nmax + 1):
+            for n1 in range(-n1max, n1max + 1):
+                for n2 in range(-n2max, n2max + 1):
                     in_shape = shape.is_inside(xmesh + n1 * a1[0] + n2 * a2[0],
                                                ymesh + n1 * a1[1] + n2 * a2[1])
                     eps_r[in_shape] = utils.get_value(shape.eps)
-- 
2.43.0


From 795ae6e1119c2b64c522a74cc77d58f40e87a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 18/60] fix: D and E fields of the plane-wave expansion are the
 curl of H

---
 legume/pwe/pwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..05d21b0 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -292,14 +292,14 @@ class PlaneWaveExp(object):
 
         elif field.lower() == 'd' or field.lower() == 'e':
             if self.pol == 'te':
-                Dx_ft = 1j / omega * evec * qx
-                Dy_ft = 1j / omega * evec * qy
+                Dx_ft = gnorm / omega * evec * qx
+                Dy_ft = gnorm / omega * evec * qy
                 Dz_ft = bd.zeros(gnorm.shape)
 
             elif self.pol == 'tm':
                 Dx_ft = bd.zeros(gnorm.shape)
                 Dy_ft = bd.zeros(gnorm.shape)
-                Dz_ft = 1j / omega * evec
+                Dz_ft = -gnorm / omega * evec
 
             if field.lower() == 'd':
                 return (Dx_ft, Dy_ft, Dz_ft)
-- 
2.43.0


From f4224e76fdb89f0850f8ea54234975e3d2921eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 19/60] fix: Minimize.lbfgs() passes the optimizer to the first
 evaluation with pass_self=True

---
 legume/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..e7b834f 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -200,7 +200,8 @@ class Minimize(object):
         self.of_list = []
 
         # Get initial of value
-        of = self.objective(self.params, *args)
+        args0 = tuple(args) + (self, ) if pass_self == True else args
+        of = self.objective(self.params, *args0)
         self.of_list.append(self._get_value(of))
 
         def of(params, *args, **kwargs):
-- 
2.43.0


From 465fcb0208f9986a64573fb4e472e9b1ad179cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 20/60] fix: Minimize.adam() does not modify the starting
 parameters it is given

---
 legume/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index e7b834f..08e83a4 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -93,7 +93,8 @@ class Minimize(object):
         Callback        -- function to call at every epoch; the argument that's
                             passed in is the current minimizer state
         """
-        self.params = pstart
+        # Work on a copy: the bounds are enforced in place
+        self.params = np.array(pstart, dtype=float)
         self.bounds = self._parse_bounds(bounds)
         self.Nepochs = Nepochs
         self.disp_p = disp_p
-- 
2.43.0


From 45b1747dd062bc45d52046536745b5630f890272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 21/60] fix: generate_gds_raster() traces every level, and
 works with cell_bound=False

---
 legume/gds.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..0ef51c7 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -99,7 +99,9 @@ def generate_gds_raster(lattice,
         Default is [0.5].
     """
 
-    contours = skimage.measure.find_contours(raster, levels)
+    contours = []
+    for level in levels:
+        contours.extend(skimage.measure.find_contours(raster, level))
     polygons = []
 
     T = np.hstack((lattice.a1[:, np.newaxis], lattice.a2[:, np.newaxis]))
@@ -124,7 +126,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From fd31de95ada17e167172e91d61ce23bd7b6ed169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:47 +0000
Subject: [PATCH 22/60] fix: undefined names in the gradient of eig

---
 legume/primitives.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..99e2150 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -5,6 +5,7 @@ from .utils import toeplitz_block, get_value, fsolve, extend
 
 from autograd.extend import primitive, defvjp, vspace
 from autograd import grad, vector_jacobian_product
+from autograd.numpy.linalg import _diag, _dot, _matrix_diag, inv
 import autograd.numpy as npa
 """ Define here various primitives needed for the main code 
 To use with both numpy and autograd backends, define the autograd primitive of 
-- 
2.43.0


From 6696aa20cbe48dc3523c07b89e4eb9028506ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 23/60] fix: Bloch phase of viz.field(periodic=False) in the xy
 plane

---
 legume/viz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..dff7d03 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1216,8 +1216,9 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            (xmesh, ymesh) = np.meshgrid(grid1, grid2)
+            kenv = np.exp(1j * xmesh * struct.kpoints[0, kind] +
+                          1j * ymesh * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From 494e341e9b30811ec2e2e0a3f897d00de8620647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 24/60] fix: viz.bands() of quality factors and symmetries with
 recent matplotlib

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index dff7d03..2295099 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip])
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From 180a113702d82ba8ed7a7a69ecb85729bbb590b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 25/60] fix: viz.eps_ft() and viz.pot_ft() with a given
 gridspec

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 2295099..4f453d2 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -948,9 +948,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1074,9 +1074,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From b510c091c44d446b3e788e31b6bd0dee4e84432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 26/60] fix: viz.bands() of a PlaneWaveExp with the default
 arguments

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 4f453d2..eb35dfd 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -209,7 +209,8 @@ def bands(gme,
                         mec=markeredgecolor)
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
-    if cone:
+    # There is no light cone in the (two-dimensional) PlaneWaveExp
+    if cone and not isinstance(gme, PlaneWaveExp):
         vec_LL = _calculate_LL(gme.kpoints, gme.phc, conv)
         ax.fill_between(X0,
                         vec_LL,
-- 
2.43.0


From 3b021c39c44379fa2c7e188d0f443dd8ed6ba2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 27/60] fix: viz.bands(Q=True) when every quality factor is
 above Q_clip

---
 legume/viz.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index eb35dfd..ebf5ee4 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -115,7 +115,7 @@ def bands(gme,
                 gme.run_im()
             Q = _calculate_Q(gme.freqs.flatten(),
                              np.array(gme.freqs_im).flatten())
-            Q_max = np.max(Q[Q < Q_clip])
+            Q_max = np.max(Q[Q < Q_clip], initial=np.min(Q))
 
             p = ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
@@ -137,7 +137,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = np.max(Q[Q < Q_clip], initial=np.min(Q))
                 edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
@@ -160,7 +160,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = np.max(Q[Q < Q_clip], initial=np.min(Q))
 
                 p = ax.scatter(X.flatten(),
                                conv * gme.freqs.flatten(),
-- 
2.43.0


From 88296f192c9b98d077d9b24d24939cfbcd66cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 28/60] fix: viz.shapes() of a layer with an Ellipse

---
 legume/viz.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index ebf5ee4..9022d9c 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -4,7 +4,7 @@ import numpy as np
 from legume.utils import from_freq_to_e
 import warnings
 from .gme import GuidedModeExp
-from .phc import PhotCryst, Circle
+from .phc import PhotCryst, Circle, Ellipse
 from .pwe import PlaneWaveExp
 from .exc import ExcitonSchroedEq
 from .pol import HopfieldPol
@@ -656,6 +656,16 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
                                  color=color,
                                  lw=lw,
                                  npts=npts)
+        elif type(shape) == Ellipse:
+            phi = np.linspace(0, 2 * np.pi, npts)
+            (x1, y1) = (shape.rx * np.cos(phi), shape.ry * np.sin(phi))
+            (c, s) = (np.cos(shape.phi), np.sin(shape.phi))
+            x = shape.x_cent + x1 * c - y1 * s
+            y = shape.y_cent + x1 * s + y1 * c
+            ax.plot(x, y, c=color, lw=lw)
+            if pad == True:
+                for (x_p, y_p) in xy_p:
+                    ax.plot(x + x_p, y + y_p, c=color, lw=lw)
         else:
             # Everything else should be a Poly subclass
             ax.plot(shape.x_edges, shape.y_edges, c=color, lw=lw)
-- 
2.43.0


From ca9496373f3c4c9810e0eacbe9fe931aef9e759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 29/60] fix: Ellipse is differentiable with the autograd
 backend

---
 legume/phc/shapes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 059ff46..7777893 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -149,10 +149,9 @@ class Ellipse(Shape):
         # Change of coordinates
         g1x = gx * bd.cos(self.phi) + gy * bd.sin(self.phi)
         g1y = -gx * bd.sin(self.phi) + gy * bd.cos(self.phi)
-        gabs = np.sqrt(
-            np.abs(np.square(g1x * self.rx)) +
-            np.abs(np.square(g1y * self.ry)))
-        gabs += 1e-10  # To avoid numerical instability at zero
+        gabs = bd.sqrt(
+            bd.square(g1x * self.rx) + bd.square(g1y * self.ry))
+        gabs = gabs + 1e-10  # To avoid numerical instability at zero
 
         ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
-- 
2.43.0


From 08390d5a8b490e5179265ae201ac2ee245c2af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 30/60] fix: generate_gds() exports the polygon of a
 FourierShape

---
 legume/gds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 0ef51c7..7cb82fa 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -4,7 +4,7 @@ logger = logging.getLogger(__name__)
 
 import numpy as np
 
-from . import Circle, Poly, Square, Hexagon
+from . import Circle, Poly
 
 try:
     import gdspy
@@ -45,7 +45,7 @@ def generate_gds(phc, filename, unit=1e-6, tolerance=0.01):
 
     for i, layer in enumerate(phc.layers):
         for shape in layer.shapes:
-            if type(shape) in [Poly, Square, Hexagon]:
+            if isinstance(shape, Poly):
                 points = [
                     (x, y)
                     for (x, y) in zip(shape.x_edges[:-1], shape.y_edges[:-1])
-- 
2.43.0


From f25415f213e37c2ccafa1e3f20db075037675fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 31/60] fix: discard the radiative losses of the previous run
 in GuidedModeExp.run()

---
 legume/gme/gme.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 87846e1..c1bad87 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -879,6 +879,12 @@ class GuidedModeExp(object):
         self.N_basis = []
         self.gmode_include = []
 
+        # Discard the radiative losses of a previous run
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+
         #Check if angles are provided in case is not None
         if self.kz_symmetry is None:
             pass
-- 
2.43.0


From 139a615127e8bbbc2ad3856cd832c0c6fcdf3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 32/60] fix: drop the round-off of the incoming wave in the
 upper cladding of guided modes

---
 legume/gme/slab_modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..419f3fe 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -418,6 +418,9 @@ def AB_matrices(omega, g, eps_array, d_array, chi_array=None, pol='TE'):
             term = bd.dot(T_matrices[i + 1], term)
 
         ABs.append(term)
+    # There is no incoming component in the upper cladding (D22 = 0); its
+    # round-off must be dropped, as it multiplies divergent overlap integrals
+    ABs[-1] = ABs[-1] * bd.array([[1], [0]])
     return bd.array(ABs, dtype=bd.complex)
 
 
-- 
2.43.0


From 1080730e1c84c3d47e17a54e4aa517a26d6d5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 33/60] fix: expansions with a single plane wave in 'abs'
 truncation

squeeze() made the index array zero-dimensional and the run failed with
an IndexError.
---
 legume/gme/gme.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index c1bad87..f74d3e2 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -468,10 +468,10 @@ class GuidedModeExp(object):
         """
         From numpy 2.0, 'ind_unique' is returned as a two-dimensional array, with older
         numpy it was just a one-dimensional array containing the indexes to reconstruct
-        the original array. We use squeeze() to remove the dimension of length 1 in case
-        of numpy =>1.
+        the original array. We use reshape() to make it one-dimensional (also when
+        there is a single plane wave).
         """
-        ind_unique = ind_unique.squeeze()
+        ind_unique = ind_unique.reshape(-1)
         num_unique = np.shape(unique)[1]
 
         # Unique g-vectors for calculting f-transform
-- 
2.43.0


From 8b031f499e1ae0fae4109f6737d1778f947c6e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:07 +0000
Subject: [PATCH 34/60] fix: an interrupted computation of the inverse
 permittivities is not reused

---
 legume/gme/gme.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index f74d3e2..900a71e 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -648,7 +648,7 @@ class GuidedModeExp(object):
         # The stored matrices can be used again only if they were computed with
         # the same value of 'only_gmodes'
         if getattr(self, '_eps_inv_only_gmodes', None) != only_gmodes:
-            self._eps_inv_only_gmodes = only_gmodes
+            self._eps_inv_only_gmodes = None
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
@@ -700,6 +700,9 @@ class GuidedModeExp(object):
                         self.eps_inv_mat.append(bd.inv(eps_ft))
                         self.hom_layer.append(False)
 
+            # Only now the list is complete
+            self._eps_inv_only_gmodes = only_gmodes
+
     def set_run_options(self,
                         gmode_compute='exact',
                         gmode_inds: list = [0],
-- 
2.43.0


From 11e310eb5f6fe77c63601bec02d5ae74c97d7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 35/60] fix: gradient of the interpolation of guided modes
 outside of the grid

---
 legume/primitives.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 99e2150..313da57 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -241,11 +241,17 @@ def vjp_maker_interp(ans, x, xp, yp):
     """
 
     def vjp(g):
+        if xp.size == 1:
+            return np.array([np.sum(g)])
         dydyp = np.zeros((x.size, xp.size))
         ix = np.arange(x.size)
-        indx = np.searchsorted(xp, x[ix]) - 1
-        dydyp[ix, indx] = 1 - (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
-        dydyp[ix, indx + 1] = (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        # Outside of the range of xp, interp takes the values at the edges
+        x_in = np.clip(x, xp[0], xp[-1])
+        indx = np.clip(np.searchsorted(xp, x_in) - 1, 0, xp.size - 2)
+        width = xp[indx + 1] - xp[indx]
+        frac = (x_in - xp[indx]) / np.where(width > 0, width, 1.)
+        dydyp[ix, indx] = 1 - frac
+        dydyp[ix, indx + 1] = frac
         return np.dot(g, dydyp)
 
     return vjp
-- 
2.43.0


From b183359729538046f70ee00f8f5570ba86f2fa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 36/60] fix: keep the imaginary part of differentiated Fourier
 coefficients in 'tbt' truncation

---
 legume/gme/gme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 900a71e..c82106c 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -422,13 +422,14 @@ class GuidedModeExp(object):
             T1 = layer.compute_ft(G1)
             T2 = layer.compute_ft(G2)
 
-            # Store T1 and T2
-            if bd.amax(bd.abs(
+            # Store T1 and T2; if they are being differentiated, the derivative
+            # of the imaginary part is needed even where it vanishes
+            if get_value(T1) is T1 and bd.amax(bd.abs(
                     bd.imag(T1))) < 1e-10 * bd.amax(bd.abs(bd.real(T1))):
                 self.T1.append(bd.real(T1))
             else:
                 self.T1.append(T1)
-            if bd.amax(bd.abs(
+            if get_value(T2) is T2 and bd.amax(bd.abs(
                     bd.imag(T2))) < 1e-10 * bd.amax(bd.abs(bd.real(T2))):
                 self.T2.append(bd.real(T2))
             else:
-- 
2.43.0


From 8f7f8de7b067d2438ee6db799011b9b8655e725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 37/60] fix: gradients of guided-mode expansions at vanishing
 permittivity contrast

---
 legume/gme/gme.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index c82106c..47e060a 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -653,12 +653,22 @@ class GuidedModeExp(object):
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
+            # The coefficients of shapes being differentiated are needed even
+            # where they vanish
+            layers = [self.phc.claddings[0]] + self.phc.layers + \
+                                [self.phc.claddings[1]]
+            keep = [
+                get_value(T1) is not T1 and len(getattr(layer, 'shapes', [])) > 0
+                for (layer, T1) in zip(layers, self.T1)
+            ]
+
             if self.truncate_g == 'tbt':
                 for it, T1 in enumerate(self.T1):
                     self.hom_layer = []
                     # For now we just use the numpy inversion. Later on we could
                     # implement the Toeplitz-Block-Toeplitz inversion (faster)
-                    if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
+                    if (bd.sum(bd.abs(T1[1:])) < 1e-10
+                            and not keep[it]) or only_gmodes:
                         self.eps_inv_mat.append(
                             bd.eye(T1.size, T1.size) / T1[0])
                         self.hom_layer.append(True)
@@ -671,8 +681,6 @@ class GuidedModeExp(object):
                 self.eps_mat = []
                 self.hom_layer = []
 
-                layers = [self.phc.claddings[0]] + self.phc.layers + \
-                                [self.phc.claddings[1]]
                 for it, T1 in enumerate(self.T1):
                     # We are iterating of layers
 
@@ -684,8 +692,8 @@ class GuidedModeExp(object):
                     eps_ft = bd.reshape(
                         T1, (self.gvec[0, :].size, self.gvec[0, :].size))
 
-                    if bd.sum(bd.abs(
-                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:
+                    if (bd.sum(bd.abs(T1[mod_G1 > 1e-10])) < 1e-10
+                            and not keep[it]) or only_gmodes:
                         # Here eps is diagonal
                         self.hom_layer.append(True)
                         self.eps_mat.append(
-- 
2.43.0


From ec9f98c3b4553f23bbedb0e49b89a272bf5d4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 38/60] fix: well-conditioned Fourier transform of polygons,
 with finite gradients for edges along x

---
 legume/phc/shapes.py | 85 ++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 54 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 7777893..87355b8 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -206,7 +206,9 @@ class Poly(Shape):
         The polygon is assumed to take a value of 1 inside and a value of 0 
         outside.
 
-        The Fourier transform calculation follows that of Lee, IEEE TAP (1984).
+        The Fourier transform calculation follows that of Lee, IEEE TAP (1984),
+        written as a sum over the edges which is regular for any direction of 
+        the edges with respect to the g-vectors.
 
         Parameters
         ----------
@@ -216,59 +218,34 @@ class Poly(Shape):
         (gx, gy) = self._parse_ft_gvec(gvec)
 
         (xj, yj) = self.x_edges, self.y_edges
-        npts = xj.shape[0]
-        ng = gx.shape[0]
-        # Note: the paper uses +1j*g*x convention for FT while we use
-        # -1j*g*x everywhere in legume
-        gx = -gx[:, bd.newaxis]
-        gy = -gy[:, bd.newaxis]
-        xj = xj[bd.newaxis, :]
-        yj = yj[bd.newaxis, :]
-
-        ft = bd.zeros((ng), dtype=bd.complex)
-
-        aj = (bd.roll(xj, -1, axis=1) - xj + 1e-10) / \
-                (bd.roll(yj, -1, axis=1) - yj + 1e-20)
-        bj = xj - aj * yj
-
-        # We first handle the Gx = 0 case
-        ind_gx0 = np.abs(gx[:, 0]) < 1e-10
-        ind_gx = ~ind_gx0
-        if np.sum(ind_gx0) > 0:
-            # And first the Gy = 0 case
-            ind_gy0 = np.abs(gy[:, 0]) < 1e-10
-            if np.sum(ind_gy0 * ind_gx0) > 0:
-                ft = ind_gx0*ind_gy0*bd.sum(xj * bd.roll(yj, -1, axis=1)-\
-                                yj * bd.roll(xj, -1, axis=1))/2
-                # Remove the Gx = 0, Gy = 0 component
-                ind_gx0[ind_gy0] = False
-
-            # Compute the remaining Gx = 0 components
-            a2j = 1 / aj
-            b2j = yj - a2j * xj
-            bgtemp = gy * b2j
-            agtemp1 = bd.dot(gx, xj) + bd.dot(gy, a2j * xj)
-            agtemp2 = bd.dot(gx, bd.roll(xj, -1, axis=1)) + \
-                    bd.dot(gy, a2j * bd.roll(xj, -1, axis=1))
-            denom = gy * (gx + bd.dot(gy, a2j))
-            ftemp = bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j*agtemp2) - \
-                    bd.exp(1j*agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx0, ftemp, ft)
-
-        # Finally compute the general case for Gx != 0
-        if np.sum(ind_gx) > 0:
-            bgtemp = bd.dot(gx, bj)
-            agtemp1 = bd.dot(gy, yj) + bd.dot(gx, aj * yj)
-            agtemp2 = bd.dot(gy, bd.roll(yj, -1, axis=1)) + \
-                        bd.dot(gx, aj * bd.roll(yj, -1, axis=1))
-            denom = gx * (gy + bd.dot(gx, aj))
-            ftemp = -bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j * agtemp2) - \
-                    bd.exp(1j * agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx, ftemp, ft)
-
-        return ft
+        (xn, yn) = bd.roll(xj, -1), bd.roll(yj, -1)
+        area = bd.sum(xj * yn - yj * xn) / 2
+
+        # The G = 0 component is the area
+        ind_g0 = (np.abs(gx) < 1e-10) * (np.abs(gy) < 1e-10)
+        if np.all(ind_g0):
+            return area * np.ones(gx.shape)
+
+        gsq = np.where(ind_g0, 1., np.square(gx) + np.square(gy))
+        gx = gx[:, np.newaxis]
+        gy = gy[:, np.newaxis]
+
+        # Vectors along the edges and mid-points of the edges
+        (dx, dy) = (xn - xj)[np.newaxis, :], (yn - yj)[np.newaxis, :]
+        (xm, ym) = (xn + xj)[np.newaxis, :] / 2, (yn + yj)[np.newaxis, :] / 2
+
+        # sin(u)/u, with its series around zero
+        u = (gx * dx + gy * dy) / 2
+        small = bd.abs(u) < 1e-3
+        u_safe = bd.where(small, 1., u)
+        u_sq = bd.square(bd.where(small, u, 0.))
+        sinc = bd.where(small, 1 - u_sq / 6 + bd.square(u_sq) / 120,
+                        bd.sin(u_safe) / u_safe)
+
+        ft = 1j * bd.sum((gx * dy - gy * dx) * sinc *
+                         bd.exp(-1j * (gx * xm + gy * ym)), axis=1) / gsq
+
+        return bd.where(ind_g0, area, ft)
 
     def is_inside(self, x, y):
         vert = np.vstack((np.array(self.x_edges), np.array(self.y_edges)))
-- 
2.43.0


From 278b851cc7072e1428830a7d8bb7a5999438e882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 39/60] fix: polaritons of a guided-mode expansion without
 losses (compute_im=False)

---
 legume/pol/pol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 92cdf37..9725c7a 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -204,9 +204,11 @@ class HopfieldPol(object):
         #Calculate the photonic diagonal block
         diag_phot = bd.zeros((self.N_max, self.N_max), dtype="complex")
 
+        # Without radiative losses if these were not computed
+        freqs_im = self.gme.freqs_im[kind, :] if self.gme.compute_im else 0.
         np.fill_diagonal(
             diag_phot, self.gme.freqs[kind, :] * conv_fact +
-            1j * self.gme.freqs_im[kind, :] * conv_fact)
+            1j * freqs_im * conv_fact)
 
         for ind_ex, exc_sch in enumerate(self.exc_list):
             C, D = self._calculate_C_D(exc=exc_sch, kind=kind)
-- 
2.43.0


From 97e5e6db10160732eba93775f4ddb116bc41d474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 40/60] fix: polaritons with more excitons requested than plane
 waves

---
 legume/pol/pol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9725c7a..34ca076 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -307,7 +307,8 @@ class HopfieldPol(object):
         t_start = time.time()
         #Retrieve number of photonic/excitonic eigenvalues
         self.N_max = self.gme.numeig
-        self.M_max = self.exc_list[0].numeig_ex
+        # (there are at most as many excitons as reciprocal lattice vectors)
+        self.M_max = self.exc_list[0].eners.shape[1]
         num_k = kpoints.shape[1]  # Number of wavevectors
 
         for ik, k in enumerate(self.kpoints.T):
-- 
2.43.0


From 9f51cf3ee0fcede8729cbc0c25593f2966cd3b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 41/60] fix: from_freq_to_e(0) raises ValueError

---
 legume/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index 05c1c53..3691707 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -267,11 +267,11 @@ def from_freq_to_e(a):
         conversion factor
 
     """
-    conv = cs.h_eV_Hz * cs.c / a
-
     if a <= 0:
         raise ValueError("Lattice constant should be strictly positive.")
 
+    conv = cs.h_eV_Hz * cs.c / a
+
     # Maybe we should implement a warning and not a simple print?
     if a < 5e-8 or a > 5e-6:
         warnings.warn(
-- 
2.43.0


From 06965a21a8849645221e48c05142c2448a1aa813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 42/60] fix: colours of the symmetry in viz.bands() when all
 modes have the same, and at a single k

---
 legume/viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 9022d9c..56bb1bd 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -192,8 +192,10 @@ def bands(gme,
             if show_symmetry:
                 ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
-                           c=gme.kz_symms,
+                           c=np.asarray(gme.kz_symms).flatten(),
                            cmap='bwr',
+                           vmin=-1,
+                           vmax=1,
                            s=markersize**2,
                            edgecolors=markeredgecolor,
                            linewidth=markeredgewidth)
-- 
2.43.0


From 8b7f52cf4d5d1ac89b695136046379f23b61fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 43/60] fix: excitonic fractions of three or four polaritons at
 a single k in viz.pol_bands()

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 56bb1bd..5840251 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -317,7 +317,7 @@ def pol_bands(pol,
                        linewidth=markeredgewidth)
         plt.colorbar(p, ax=ax, label="Radiative quality factor", extend="max")
     elif fraction:
-        fractions = pol.fractions_ex
+        fractions = np.asarray(pol.fractions_ex).flatten()
         p = ax.scatter(X.flatten(),
                        pol.eners.flatten(),
                        c=fractions,
-- 
2.43.0


From 308ef911b6ed7b7c877eacfec99727110004fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 44/60] fix: grad_num() with any number as the step, and of
 integer arguments

---
 legume/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index 3691707..3ce55b0 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -88,13 +88,11 @@ def grad_num(fn, arg, step_size=1e-7):
     gradient = np.zeros((N, ))
     f_old = fn(arg)
 
-    if type(step_size) == float:
-        step = step_size * np.ones((N))
-    else:
-        step = step_size.ravel()
+    step = np.broadcast_to(step_size, shape).ravel()
 
     for i in range(N):
-        arg_new = arg.flatten()
+        # (the step would be lost in an array of integers)
+        arg_new = arg.astype(np.result_type(arg, float)).flatten()
         arg_new[i] += step[i]
         f_new_i = fn(arg_new.reshape(shape))
         gradient[i] = (f_new_i - f_old) / step[i]
-- 
2.43.0


From 6637f9701cf0c7c5c4589aa0c406c87710e2178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 45/60] fix: shape of the vector-Jacobian products of
 vjp_maker_num()

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 3ce55b0..9c461c4 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -124,7 +124,7 @@ def vjp_maker_num(fn, arg_inds, steps):
                     dfn_darg = (fn(*args_new) - fn_out) / step
                     vjp_num[ip] = np.sum(v * dfn_darg)
 
-                return vjp_num
+                return vjp_num.reshape(shape)
 
             return vjp
 
-- 
2.43.0


From 2e3fdf4889a023a88da6ad784417de70cbf8f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 46/60] fix: results of a PlaneWaveExp, ExcitonSchroedEq or
 HopfieldPol are empty before the first run

---
 legume/exc/exc.py | 5 +++++
 legume/pol/pol.py | 9 +++++++++
 legume/pwe/pwe.py | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 00548aa..516782e 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -76,6 +76,11 @@ class ExcitonSchroedEq(object):
         self.osc_str = osc_str
         self.truncate_g = truncate_g
 
+        # Results and the corresponding parameters of the last run
+        self._eners = None
+        self._eigvecs = None
+        self._kpoints = None
+
         if osc_str is not None:
             if type(self.osc_str) == list:
                 self.osc_str = np.asarray(self.osc_str)
diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 34ca076..9ced941 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -31,6 +31,15 @@ class HopfieldPol(object):
 
         self.exc_list = []
 
+        # Results and the corresponding parameters of the last run
+        self._eners = None
+        self._eners_im = None
+        self._eigvecs = None
+        self._fractions_ex = None
+        self._fractions_ph = None
+        self._kpoints = None
+        self._gvec = None
+
         if len(phc.qws) == 0:
             raise ValueError(
                 "There are no active layers in the PhotCryst"
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 05d21b0..a0b7c4b 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -31,6 +31,11 @@ class PlaneWaveExp(object):
 
         self.eps_eff = eps_eff
 
+        # Results and the corresponding parameters of the last run
+        self._freqs = None
+        self._eigvecs = None
+        self._kpoints = None
+
         # Initialize the reciprocal lattice vectors and compute the eps FT
         self._init_reciprocal()
         self._compute_ft()
-- 
2.43.0


From bcf6aa8a6c970f742be3010ad8d225ac37c322fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 47/60] fix: unit of the exciton losses in
 repr(ExcitonSchroedEq)

---
 legume/exc/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 516782e..a31f844 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -106,7 +106,7 @@ class ExcitonSchroedEq(object):
         rep += 'a = ' + repr(self.a) + ' m, \n'
         rep += 'M = ' + f'{self.M:.3e}' + ' kg, \n'
         rep += 'E0 = ' + repr(self.E0) + ' eV, \n'
-        rep += 'loss = ' + repr(self.loss * 1e3) + ' ueV, \n'
+        rep += 'loss = ' + repr(self.loss * 1e3) + ' meV, \n'
         rep += 'z = ' + f'{self.z:.6f}' + ', \n'
         rep += 'V_shapes = ' + repr(self.V_shapes) + ' eV, \n'
         if self.osc_str is not None:
-- 
2.43.0


From 98d87ab3455e4314d3a7406f457f16a05b4f7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 48/60] fix: guided_modes() of wave vectors in descending order

The search window of a wave vector smaller than the previous one was cut
below the mode, which was then missing.
---
 legume/gme/slab_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 419f3fe..bf1b219 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -65,7 +65,7 @@ def guided_modes(g_array: np.ndarray,
                 om_ub = min(
                     om_ub,
                     get_value(omegas[-1]) + step +
-                    (g_array[ig] - g_array[ig - 1]))
+                    max([g_array[ig] - g_array[ig - 1], 0]))
             """
             Check if the guided mode needs to be computed at all; when using the
             gmode_compute = 'exact' option, there might be identical g-points
-- 
2.43.0


From 09c269d570f1ba57b34ca4beebed1cca91c202c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:13 +0000
Subject: [PATCH 49/60] fix: colour scale of viz.pot_ft() for attractive
 potentials

The scale ran from 0 to |V_shapes|, so that the figure of a negative
V_shapes showed nothing.
---
 legume/viz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 5840251..d0b98d4 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1097,8 +1097,10 @@ def pot_ft(struct,
 
     ims = []
     ax = []
-    eps_min = 0
-    eps_max = np.abs(struct.V_shapes)
+    # The potential is V_shapes (which may be negative) inside the shapes, and
+    # zero elsewhere
+    eps_min = min(0, struct.V_shapes)
+    eps_max = max(0, struct.V_shapes)
     for (indl, layer) in enumerate(
             all_layers):  # Actually there is only one layer in the exc
         ax.append(fig.add_subplot(gs[indl, :]))
-- 
2.43.0


From 48b6bc9f4115467bfb151ec16950c44bdea9d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 50/60] fix: error raised by run_im() before run()

The intended RuntimeError was preceded by an AttributeError, as 'numeig' is
not set before run().
---
 legume/gme/gme.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 47e060a..e16ab81 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1213,10 +1213,11 @@ class GuidedModeExp(object):
         rad_coup = {'l_te': [], 'l_tm': [], 'u_te': [], 'u_tm': []}
         rad_gvec = {'l': [], 'u': []}
 
-        minds = np.arange(0, self.numeig)
-
         if len(self.freqs) == 0:
             raise RuntimeError("Run the GME computation first!")
+
+        minds = np.arange(0, self.numeig)
+
         num_k = np.shape(self.freqs)[0]
         for kind in range(len(self.freqs)):
             prbd.update_prog(kind, num_k, self.verbose,
-- 
2.43.0


From e103d25553eb54d5f7ea08d58d6730a0063821fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:32 +0000
Subject: [PATCH 51/60] fix: restore the colour scale of viz.pot_ft()

This takes back 09c269d: the potential of a negative V_shapes is shifted by
|V_shapes|, so that it lies between 0 and |V_shapes|.
---
 legume/viz.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index d0b98d4..5840251 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1097,10 +1097,8 @@ def pot_ft(struct,
 
     ims = []
     ax = []
-    # The potential is V_shapes (which may be negative) inside the shapes, and
-    # zero elsewhere
-    eps_min = min(0, struct.V_shapes)
-    eps_max = max(0, struct.V_shapes)
+    eps_min = 0
+    eps_max = np.abs(struct.V_shapes)
     for (indl, layer) in enumerate(
             all_layers):  # Actually there is only one layer in the exc
         ax.append(fig.add_subplot(gs[indl, :]))
-- 
2.43.0


From 9494a0846f0e6fecde823ed042539ade19c8437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:18 +0000
Subject: [PATCH 52/60] fix: guided_modes() and rad_modes() for polarisations
 in any case

'te' and 'tm', as documented, were not accepted by the normalisation of
guided modes, and the default 'TE' of rad_modes() was not normalised.
---
 legume/gme/slab_modes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index bf1b219..5422f99 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -440,7 +440,7 @@ def normalization_coeff(omega,
         chi_array = chi(omega, g, eps_array)
     As = ABref[:, 0].ravel()
     Bs = ABref[:, 1].ravel()
-    if pol == 'TM':
+    if pol.lower() == 'tm':
         term1 = (bd.abs(Bs[0])**
                  2) * J_alpha(chi_array[0] - bd.conj(chi_array[0]))
         term2 = (bd.abs(As[-1])**2) * \
@@ -451,7 +451,7 @@ def normalization_coeff(omega,
                 (bd.conj(As[1:-1]) * Bs[1:-1] + As[1:-1] * bd.conj(Bs[1:-1])) *
                 I_alpha(-chi_array[1:-1]-bd.conj(chi_array[1:-1]),d_array)  )
         return term1 + term2 + bd.sum(term3)
-    elif pol == 'TE':
+    elif pol.lower() == 'te':
         term1 = (bd.abs(chi_array[0])**2 + g**2) * \
             (bd.abs(Bs[0])**2) * J_alpha(chi_array[0]-bd.conj(chi_array[0]))
         term2 = (bd.abs(chi_array[-1])**2 + g**2) * \
@@ -515,7 +515,7 @@ def rad_modes(omega: float,
 
         # Normalize
         coeffs = coeffs / coeffs[1, -1]
-        if pol == 'te':
+        if pol.lower() == 'te':
             c_ind = [0, -1]
             coeffs = coeffs / bd.sqrt(eps_array[c_ind[clad]]) / omega
         # Assign correctly based on which cladding the modes radiate to
-- 
2.43.0


From 86f925cbb19d6f07a9fee1640931e05311bacebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 53/60] fix: gradient of fmap with respect to arrays of several
 dimensions

---
 legume/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 313da57..28316d0 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -339,7 +339,7 @@ def vjp_maker_fmap(ans, fns, params):
     # get the gradient of each function and stack along the 0-th dimension
     grads = np.stack(list(map(lambda f: grad(f)(params), fns)), axis=0)
     # this literally does the vector-jacobian product
-    return lambda v: np.dot(v.T, grads)
+    return lambda v: np.tensordot(v, grads, axes=1)
 
 
 defvjp(fmap, None, vjp_maker_fmap)
-- 
2.43.0


From ce6d8712e0b285ca8522c08d506f427bb28b212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:50 +0000
Subject: [PATCH 54/60] fix: angle of the Gamma point in paths where it is
 reached up to round-off errors

---
 legume/phc/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 0fe4140..ece91db 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -160,7 +160,8 @@ class Lattice(object):
         # Angles of wavevectors in (kx,ky) plane
         angs = np.angle(kpoints[0] + 1j * kpoints[1], deg=True)
         #If gamma point is present, force symmetry from 'symm_g'
-        index_g = np.where((kpoints[0] == 0) & (kpoints[1] == 0))
+        # (which can be shifted by round-off errors)
+        index_g = np.where(np.abs(kpoints[0]) + np.abs(kpoints[1]) < 1e-12)
         if len(index_g) != 0:
             ang_g = np.angle(self._parse_point(symm_g)[0] +
                              1j * self._parse_point(symm_g)[1],
-- 
2.43.0


From fcd31a51bf12ddfa21cc8238c1b1202f66fbc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:40 +0000
Subject: [PATCH 55/60] fix: eigsh solver when all the modes, or all but one,
 are requested

---
 legume/gme/gme.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index e16ab81..6966868 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1153,10 +1153,16 @@ class GuidedModeExp(object):
                     raise ValueError(
                         "odd/even separation implemented with 'eigh' solver only."
                     )
-                (freq2,
-                 evecs) = bd.eigsh(mat + bd.eye(mat.shape[0]),
-                                   k=self.numeig,
-                                   sigma=(self.eig_sigma * 2 * np.pi)**2 + 1)
+                sigma = (self.eig_sigma * 2 * np.pi)**2 + 1
+                if self.numeig < mat.shape[0] - 1:
+                    (freq2, evecs) = bd.eigsh(mat + bd.eye(mat.shape[0]),
+                                              k=self.numeig,
+                                              sigma=sigma)
+                else:
+                    # The sparse solver cannot return that many modes
+                    (freq2, evecs) = bd.eigh(mat + bd.eye(mat.shape[0]))
+                    i_near = find_nearest(get_value(freq2), sigma, self.numeig)
+                    (freq2, evecs) = (freq2[i_near], evecs[:, i_near])
                 freq1 = bd.sqrt(
                     bd.abs(freq2 - bd.ones(self.numeig))) / 2 / np.pi
                 i_sort = bd.argsort(freq1)
-- 
2.43.0


From 36dc77a8423bec83c7f1c830bffc27eae6843faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:38 +0000
Subject: [PATCH 56/60] fix: gratings with diagonal ridges in 'tbt' truncation

A layer was taken to be uniform when the coefficients in T1 vanished, which
cover only half of the reciprocal vectors: those of a ridge parallel to a1 + a2
are all in T2.
---
 legume/gme/gme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 6966868..480f871 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -668,6 +668,7 @@ class GuidedModeExp(object):
                     # For now we just use the numpy inversion. Later on we could
                     # implement the Toeplitz-Block-Toeplitz inversion (faster)
                     if (bd.sum(bd.abs(T1[1:])) < 1e-10
+                            and bd.sum(bd.abs(self.T2[it][1:])) < 1e-10
                             and not keep[it]) or only_gmodes:
                         self.eps_inv_mat.append(
                             bd.eye(T1.size, T1.size) / T1[0])
-- 
2.43.0


From 03d781b5cceb9c7ab84e5fdf726acbd781977a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 57/60] fix: toeplitz_block() of real T1 and complex T2

The imaginary part of T2 was dropped, so that the permittivity of a layer whose
coefficients in T1 happen to be real ('tbt' truncation) was wrong.
---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 9c461c4..1cf5c25 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -145,7 +145,7 @@ def toeplitz_block(n, T1, T2):
     """
     ntot = T1.shape[0]
     p = int(ntot / n)  # Linear size of each block
-    Tmat = np.zeros((ntot, ntot), dtype=T1.dtype)
+    Tmat = np.zeros((ntot, ntot), dtype=np.result_type(T1, T2))
     for ind1 in range(n):
         for ind2 in range(ind1, n):
             toep1 = T1[(ind2 - ind1) * p:(ind2 - ind1 + 1) * p]
-- 
2.43.0


From 08d0caefc1ef13bd5c3cbad16b92a46dfd6006fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:30 +0000
Subject: [PATCH 58/60] fix: vjp_maker_num() of integer arguments

---
 legume/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 1cf5c25..a5b076b 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -118,7 +118,9 @@ def vjp_maker_num(fn, arg_inds, steps):
                 vjp_num = np.zeros(num_p)
                 for ip in range(num_p):
                     args_new = list(args)
-                    args_rav = args[arg_ind].flatten()
+                    # (the step would be lost in an array of integers)
+                    args_rav = args[arg_ind].astype(
+                        np.result_type(args[arg_ind], float)).flatten()
                     args_rav[ip] += step
                     args_new[arg_ind] = args_rav.reshape(shape)
                     dfn_darg = (fn(*args_new) - fn_out) / step
-- 
2.43.0


From 46bb51361742c63f1e7372eeb955943b3ee60600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 59/60] fix: Minimize.lbfgs() started from a list, as
 Minimize.adam()

---
 legume/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 08e83a4..0446856 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -190,7 +190,7 @@ class Minimize(object):
                             passed in is the current minimizer state
         """
 
-        self.params = pstart
+        self.params = np.array(pstart, dtype=float)
         self.bounds = self._parse_bounds(bounds)
         self.Nepochs = Nepochs
         self.disp_p = disp_p
-- 
2.43.0


From d839d432404bf43bbc09272aa6c32ce2d0d2da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:20 +0000
Subject: [PATCH 60/60] fix: viz.field() with a repeated component and
 periodic=False applied the Bloch factor twice

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 5840251..149a044 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1279,7 +1279,7 @@ def field(struct,
     for ic, comp in enumerate(component):
         f = fi[comp]
         if periodic == False:
-            f *= kenv
+            f = f * kenv
 
         extent = [grid1[0], grid1[-1], grid2[0], grid2[-1]]
         if sp > 1:
-- 
2.43.0

