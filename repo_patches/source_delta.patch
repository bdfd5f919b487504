From e4bc12fdb60a7855bf5e4e4bbeacffc90c43474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:27 +0000
Subject: [PATCH 01/16] fix: inv_mod_p inverts every nonzero residue, negative
 representatives included

inv_mod_p(-1, 5) raised 'not a prime number': the Euclidean loop ended with gcd -1.
---
 src/permaviss/gauss_mod_p/arithmetic_mod_p.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
index 9492425..3361406 100644
--- a/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
+++ b/src/permaviss/gauss_mod_p/arithmetic_mod_p.py
@@ -67,7 +67,8 @@ def inv_mod_p(a, p):
     ValueError
         If p is not a prime number
     """
-    if a % p == 0:
+    a = a % p
+    if a == 0:
         print("cannot invert 0!")
         raise ValueError
 
-- 
2.43.0


From 25ba939c70959289e4e59b03ea074e1c55878266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:27 +0000
Subject: [PATCH 02/16] fix: gauss_col reduces its input mod p

An entry that is a nonzero multiple of p was taken for a pivot, so e.g.
solve_mod_p([[5, 1]], [1], 5) raised although x = (0, 1) is a solution.
---
 src/permaviss/gauss_mod_p/gauss_mod_p.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/gauss_mod_p/gauss_mod_p.py b/src/permaviss/gauss_mod_p/gauss_mod_p.py
index 600977c..ef45686 100644
--- a/src/permaviss/gauss_mod_p/gauss_mod_p.py
+++ b/src/permaviss/gauss_mod_p/gauss_mod_p.py
@@ -65,7 +65,8 @@ def gauss_col(A, p):
     N = np.size(A, 1)
     # copy of matrix to be reduced
     # The matrix is transposed for more computational efficiency
-    R = np.copy(np.transpose(A))
+    # Entries are reduced to their canonical representatives mod p
+    R = np.copy(np.transpose(A)) % p
     T = np.identity(N)
     # iterate over all columns
     for j in range(N):
-- 
2.43.0


From 0e346de11f368ff6ed16956e7b9ee085f1952c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 03/16] fix: generate_cover covers point clouds that are flat
 in some dimension

A coordinate of zero extent gave zero divisions, hence an empty cover (and
empty barcodes from create_MV_ss); a cloud of equal points divided by zero.
---
 src/permaviss/covers/cubical_cover.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/covers/cubical_cover.py b/src/permaviss/covers/cubical_cover.py
index 159c4ae..04785ec 100755
--- a/src/permaviss/covers/cubical_cover.py
+++ b/src/permaviss/covers/cubical_cover.py
@@ -124,7 +124,11 @@ def generate_cover(max_div, overlap, point_cloud):
     div = []  # list containing no of divisions per dimension
     pos = []  # list containing current position
     for d in range(dim):
-        div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        # a dimension of zero extent still needs one division
+        if max_corner[d] > min_corner[d]:
+            div.append(math.ceil((max_corner[d] - min_corner[d]) / side))
+        else:
+            div.append(1)
         number_hypercubes *= div[d]  # compute total number of hypercubes
         pos.append(0)  # initialize position list to zero
 
-- 
2.43.0


From 7f603f77a0d798cbebd050daa3a147881f0b1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 04/16] fix: create_MV_ss keeps persistent_homology indexed by
 degree

A degree without bars was skipped, so every later degree moved down by one.
---
 src/permaviss/spectral_sequence/MV_spectral_seq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/permaviss/spectral_sequence/MV_spectral_seq.py b/src/permaviss/spectral_sequence/MV_spectral_seq.py
index 2455bc3..96d87e7 100755
--- a/src/permaviss/spectral_sequence/MV_spectral_seq.py
+++ b/src/permaviss/spectral_sequence/MV_spectral_seq.py
@@ -274,6 +274,9 @@ def create_MV_ss(point_cloud, max_r, max_dim, max_div, overlap, p):
             PH, _ = image_kernel(
                 diagonal_basis, direct_sum_basis, diag_diff, MV_ss.p)
             MV_ss.persistent_homology.append(PH)
+        else:
+            # keep persistent_homology indexed by degree
+            MV_ss.persistent_homology.append(barcode_basis([]))
         # end if
     # end for
     print("Total PerMaViss time:{}".format(time.time()-start))
-- 
2.43.0


From 6e471f8b2d84ec2a3d6304e231d2bdb781ef7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 05/16] fix: random_sphere samples the sphere of the given
 radius

Points were normalised to length one whatever the radius.
---
 src/permaviss/sample_point_clouds/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/sample_point_clouds/examples.py b/src/permaviss/sample_point_clouds/examples.py
index 9c8265f..46169a8 100755
--- a/src/permaviss/sample_point_clouds/examples.py
+++ b/src/permaviss/sample_point_clouds/examples.py
@@ -167,7 +167,7 @@ def random_sphere(no_points, radius, dim):
         v = np.array(point)
         norm = np.linalg.norm(v)
         for d in range(dim):
-            point[d] = point[d] / norm
+            point[d] = radius * point[d] / norm
 
         point_cloud.append(point)
 
-- 
2.43.0


From a64695cf5e2ac216ea24155821e1797c6fdfc0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 06/16] fix: image_kernel keeps the death radius of image bars
 that are already dead

A kernel bar that changed pivot overwrote the death radius of an image bar
which had died before: A=[[0,6],[3,5]], B=[[0,4]], F=[[1,1]] mod 2 gave the
image bar [0,5) instead of [0,4).
---
 src/permaviss/persistence_algebra/image_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 5e27f46..a6bb42d 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -178,7 +178,6 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         pivots_Ker[:col_idx], p)
                     if pivots_Ker[col_idx] != -1:
                         new_pivots.append(pivots_Ker[col_idx])
-                        Im_barcode[pivots_Ker[col_idx], 1] = rad
                         cycle_coord = Ker_coordinates[:, col_idx]
                         new_coord_Im = multiply_mod_p(
                             F[:, active_A],
-- 
2.43.0


From 274096b7d5cebc713e9f5984e26d1e0b7db4d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:49 +0000
Subject: [PATCH 07/16] fix: module_persistence_homology handles a zero
 codomain like a zero differential

It returned the whole module, without coordinates and without dividing by the
image of the previous differential.
---
 .../persistence_algebra/module_persistence_homology.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/permaviss/persistence_algebra/module_persistence_homology.py b/src/permaviss/persistence_algebra/module_persistence_homology.py
index 8326975..faab378 100644
--- a/src/permaviss/persistence_algebra/module_persistence_homology.py
+++ b/src/permaviss/persistence_algebra/module_persistence_homology.py
@@ -102,7 +102,11 @@ def module_persistence_homology(D, Base, p):
             Hom[d] = barcode_basis([], Base[d])
         elif Base[d-1].dim == 0:
             Im[d-1] = Base[d-1]
-            Hom[d] = Base[d]
+            # all the generators from Base[d] lie in the kernel
+            Ker = barcode_basis(Base[d].barcode, Base[d],
+                                np.identity(Base[d].dim))
+            Ker.sort()
+            Hom[d] = quotient(Ker, Im[d], p)
         else:
             # compute barcode bases for image and kernel
             Im[d - 1], Ker, PreIm[d] = image_kernel(
-- 
2.43.0


From 106b40a52c1c25771ae747f41370eb86c36ff03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:01 +0000
Subject: [PATCH 08/16] fix: lift Cech images on covers without homology in
 that degree

A cover with no bars in the degree may still have boundaries: skipping it left
total complex representatives that are not cycles, so the extension problem
raised RuntimeError or gave wrong bars.
---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index 1209417..c551bc6 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -535,7 +535,7 @@ class spectral_sequence(object):
         prev = self.cycle_dimensions[n_dim][deg][nerve_spx_index-1]
         next = self.cycle_dimensions[n_dim][deg][nerve_spx_index]
         # if trivial cover skip
-        if prev == next:
+        if prev == next and self.Im[0][n_dim][nerve_spx_index][deg].dim == 0:
             return
         # CECH DIFFERENTIAL
         generators, local_chains = self.cech_diff_local(
-- 
2.43.0


From 31cf3d68b434e05ceffead9900505134739a63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:33 +0000
Subject: [PATCH 09/16] fix: quotients return representatives that are valid at
 their birth radius

In the relative mode of image_kernel a column whose own bar dies kept the parts
of the submodule added to it later on, so representatives of homology classes
returned by module_persistence_homology were not cycles at their birth.
---
 src/permaviss/persistence_algebra/image_kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index a6bb42d..42d1d32 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -202,6 +202,10 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                 if (col_idx >= start_index) and (pivots_Im[col_idx] != -1):
                     Im_barcode[col_idx, 1] = rad
                     pivots_Im[col_idx] = int(-1)
+                    if start_index > 0:
+                        T[:, col_idx][:start_index] *= 0
+                        Im_coordinates[:, col_idx] = multiply_mod_p(
+                            F, np.transpose([T[:, col_idx]]), p)[:, 0]
                 # end if
             # end for
             # update broken barcodes
-- 
2.43.0


From 0f7b1a0f49d8e24074a88af8545375c0a9fd7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:30 +0000
Subject: [PATCH 10/16] fix: lift_to_page keeps the image coordinates when the
 homology vanishes

---
 .../spectral_sequence/spectral_sequence_class.py         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index c551bc6..d388ced 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -196,7 +196,7 @@ class spectral_sequence(object):
                 self.Im_reps[k].append([[]])
                 for deg in range(self.no_rows):
                     self.Hom[k][n_dim].append(barcode_basis([]))
-                    self.Im[k][n_dim].append([])
+                    self.Im[k][n_dim].append(barcode_basis([]))
                     self.PreIm[k][n_dim].append([])
                     self.Hom_reps[k][n_dim].append([])
                     self.Im_reps[k][n_dim].append([])
@@ -385,6 +385,11 @@ class spectral_sequence(object):
                 else:
                     Im_Hom = Hom.coordinates
                     barcode_col = Hom.barcode
+                barcode_row = Hom.prev_basis.barcode
+            elif Im.dim > 0:
+                Im_Hom = Im.coordinates
+                barcode_col = Im.barcode
+                barcode_row = Im.prev_basis.barcode
             else:
                 Betas = np.array([])
                 Gammas = np.array([])
@@ -394,8 +399,6 @@ class spectral_sequence(object):
             # add radii coordinates and radii
             barcode_col = np.append(barcode_col, Beta_barcode, axis=0)
             A = np.append(Im_Hom, Betas, axis=1)
-            # barcodes of rows
-            barcode_row = self.Hom[k][n_dim][deg].prev_basis.barcode
             # gaussian reduction on matrix between persistence modules
             # order here barcode_row
             rows_basis = barcode_basis(barcode_row)
-- 
2.43.0


From 538a867b02798529fadd02124afabf9c162d3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:24 +0000
Subject: [PATCH 11/16] fix: image_kernel cancels a pivot in one step, so large
 primes do not exhaust the stack

---
 src/permaviss/persistence_algebra/image_kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 42d1d32..95ccea9 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -278,13 +278,13 @@ def pivot_check_reduce(M, active_rows, col_idx, pivots_prev, p, T=None):
         new_pivot = int(active_rows[new_pivot])
         if (new_pivot != -1) and (new_pivot in pivots_prev):
             prev_idx = list(pivots_prev).index(new_pivot)
+            # coefficient that cancels the entry at new_pivot
+            q = -M[new_pivot, col_idx] * inv_mod_p(M[new_pivot, prev_idx], p)
             M[:, col_idx] = add_mod_c(
-                inv_mod_p(M[new_pivot, prev_idx], p) * M[:, prev_idx],
-                M[:, col_idx], p)
+                (q % p) * M[:, prev_idx], M[:, col_idx], p)
             if np.any(T):
                 T[:, col_idx] = add_mod_c(
-                    inv_mod_p(M[new_pivot, prev_idx], p) * T[:, prev_idx],
-                    T[:, col_idx], p)
+                    (q % p) * T[:, prev_idx], T[:, col_idx], p)
             # end if not None
             new_pivot = pivot_check_reduce(
                 M, active_rows, col_idx, pivots_prev, p, T)
-- 
2.43.0


From 6cc96e6f57bf69affc208de8787a8d6db2204373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:02 +0000
Subject: [PATCH 12/16] fix: image_kernel preimages of image bars that die with
 a kernel cycle

---
 src/permaviss/persistence_algebra/image_kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 95ccea9..e480fa5 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -189,6 +189,7 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                                 :, pivots_Ker[col_idx]] = new_coord_Im
                             Im_barcode[pivots_Ker[col_idx], 1] = rad
                             pivots_Im[pivots_Ker[col_idx]] = int(-1)
+                            T[:, pivots_Ker[col_idx]] = 0
                             T[:, pivots_Ker[col_idx]][
                                 active_A] = cycle_coord[active_A]
                         # end if else
-- 
2.43.0


From 6c3808f24e0dffcf0d1de496833f75e39e442887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 13/16] fix: quotient generators vanish where their bar ends

When a generator of the numerator died, its class kept the summands that
are still alive, so that the representative was not zero in the quotient
at the end of its bar. Later pages then received a differential that was
not well defined and create_MV_ss raised.
---
 src/permaviss/persistence_algebra/image_kernel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index e480fa5..23ff353 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -207,6 +207,12 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
                         T[:, col_idx][:start_index] *= 0
                         Im_coordinates[:, col_idx] = multiply_mod_p(
                             F, np.transpose([T[:, col_idx]]), p)[:, 0]
+                        # the class vanishes at rad, so that summands which
+                        # are still alive have to be dropped
+                        if np.any(Im_coordinates[active_B, col_idx]):
+                            T[active_A, col_idx] = 0
+                            Im_coordinates[:, col_idx] = multiply_mod_p(
+                                F, np.transpose([T[:, col_idx]]), p)[:, 0]
                 # end if
             # end for
             # update broken barcodes
-- 
2.43.0


From 1d5e9d4b0d3b6110628ad9663e347e4961f36dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:43 +0000
Subject: [PATCH 14/16] fix: extension corrects representatives with boundaries
 of the total complex

The image classes were subtracted without their Cech differential being
taken from the preimages, so that the next entry of the representative
could not be lifted and create_MV_ss raised RuntimeError.
---
 .../spectral_sequence_class.py                | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index d388ced..e750bc7 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1127,34 +1127,36 @@ class spectral_sequence(object):
                     raise(RuntimeError)
                 # MODIFY TOTAL COMPLEX REPS using GAMMAS
                 if np.any(Gammas):
-                    # compute coefficients of Gammas in 1st page
-                    image_classes = np.matmul(
-                        self.Im[target_page-1][Sn_dim][Sdeg].coordinates,
-                        -Gammas.T)
-                    # look for bars that might be already zero
+                    # chains whose total boundary represents the images
+                    Tn_dim = Sn_dim + target_page - 1
+                    Tdeg = Sdeg - target_page + 2
+                    preimage_coefficients = np.matmul(
+                        self.PreIm[target_page-1][Tn_dim][Tdeg], -Gammas.T)
                     if target_page == 2:
-                        # obtain coefficients for gammas
-                        image_chains = local_chains(
-                            self.nerve_spx_number[Sn_dim])
+                        # preimages are written in local coordinates
+                        preimage_chains = local_chains(
+                            self.nerve_spx_number[Tn_dim])
                         prev = 0
                         for nerv_idx, next in enumerate(self.cycle_dimensions[
-                                Sn_dim][Sdeg]):
+                                Tn_dim][Tdeg]):
                             if prev < next:
-                                image_chains.add_entry(
+                                preimage_chains.add_entry(
                                     nerv_idx, range(np.size(Gammas, 0)),
                                     np.matmul(
-                                        image_classes[prev:next].T,
-                                        self.Hom[0][Sn_dim][nerv_idx][
-                                            Sdeg].coordinates.T)
+                                        self.Hom[0][Tn_dim][nerv_idx][
+                                            Tdeg].coordinates,
+                                        preimage_coefficients[prev:next]).T
                                 )
                             prev = next
                         # end for
                     else:
-                        image_chains = local_chains.sums(
-                            self.Hom_reps[target_page-2][Sn_dim][Sdeg][0],
-                            image_classes.T
+                        preimage_chains = local_chains.sums(
+                            self.Hom_reps[target_page-2][Tn_dim][Tdeg][-1],
+                            preimage_coefficients.T
                         )
                     # end else
+                    image_chains = self.cech_diff(Sn_dim, Sdeg,
+                                                  preimage_chains)
                     chains += image_chains
                 # end if
             # end for
-- 
2.43.0


From ec1c3a104833c37fcbe9af31d54d76c7406dbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:57 +0000
Subject: [PATCH 15/16] fix: image_kernel reduces columns changed by broken
 differentials

---
 src/permaviss/persistence_algebra/image_kernel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/persistence_algebra/image_kernel.py b/src/permaviss/persistence_algebra/image_kernel.py
index 23ff353..1eec4bc 100644
--- a/src/permaviss/persistence_algebra/image_kernel.py
+++ b/src/permaviss/persistence_algebra/image_kernel.py
@@ -221,8 +221,9 @@ def image_kernel(A, B, F, p, start_index=0, prev_basis=None):
         # end if else
         new_pivots = []
         for col_idx, piv in enumerate(np.copy(pivots_Im)):
-            if (piv >= 0 and Im_coordinates[piv, col_idx] % p == 0) or (
-                    piv in dying_B) or (piv in new_pivots) or (col_idx in birth_A):
+            # replacing broken generators can change any column
+            if (piv >= 0 and B.broken_basis) or (piv in dying_B) or (
+                    piv in new_pivots) or (col_idx in birth_A):
                 pivots_Im[col_idx] = pivot_check_reduce(
                     Im_coordinates, active_B, col_idx, pivots_Im[:col_idx],
                     p, T)
-- 
2.43.0


From e03a7c7383d2d39f624946c10ed26f316ed3d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:15 +0000
Subject: [PATCH 16/16] fix: representatives on page three are corrected with
 representatives of the right page

---
 src/permaviss/spectral_sequence/spectral_sequence_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/permaviss/spectral_sequence/spectral_sequence_class.py b/src/permaviss/spectral_sequence/spectral_sequence_class.py
index e750bc7..d3848bf 100644
--- a/src/permaviss/spectral_sequence/spectral_sequence_class.py
+++ b/src/permaviss/spectral_sequence/spectral_sequence_class.py
@@ -1013,9 +1013,9 @@ class spectral_sequence(object):
                     prev = next
                 # end for
             elif np.any(Gammas):
-                for chains in self.Hom_reps[target_page][Tn_dim][Tdeg]:
+                for chains in self.Hom_reps[target_page-2][Tn_dim][Tdeg]:
                     preimage_reps.append(local_chains.sums(
-                        chains, preimage_coefficients))
+                        chains, preimage_coefficients.T))
                 # add preimage reps to current tot_complex reps
                 for idx, chains in enumerate(preimage_reps):
                     total_complex_reps[
-- 
2.43.0

