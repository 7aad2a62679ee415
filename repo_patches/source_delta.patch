From c2225148f9af968e3eb72176b00cfe1e7b53859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:29 +0000
Subject: [PATCH 01/32] fix: remove the duplicate definition of D_RUS

fluxes.cpp defined D_RUS twice, so it did not compile and no solver that
needs an interface flux could run.
---
 code/cpp/src/solvers/fv/fluxes.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..14a3245 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -74,13 +74,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   return f;
 }
 
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From 46ec2f660c262353119fe0a5f96f30c7147f217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:03 +0000
Subject: [PATCH 02/32] fix: leave a level set without a zero crossing
 unchanged

The fast marching method has nothing to start from when a level set has the
same sign everywhere (one material, or a material that has left the domain).
Its error code was ignored and a distance of 0 returned for every cell, which
moved every cell into the next material.
---
 code/cpp/src/multi/pfmm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..933fd85 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,7 +20,12 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  int error = marcher->getError();
   delete marcher;
 
+  // there is no interface to measure the distance to, so leave phi as it is
+  if (error)
+    return phi;
+
   return dist;
 }
-- 
2.43.0


From b76894820d6319e2df8171f1166f80d2deb51fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 03/32] fix: make the WENO corner treatment independent of the
 number of threads

Near the corners of a 2D grid the reconstruction leaves out the stencils that
reach into the corner ghost cells. It found the corners from the row numbers
within the slab of rows given to a thread, so every slab was treated as a grid
of its own: the result depended on the number of threads, and a slab of one
row had no stencil left and produced NaNs.
---
 code/cpp/src/solvers/steppers.cpp  | 36 +++++++++++++++++++++---------
 code/cpp/src/solvers/weno/weno.cpp | 31 ++++++++++++++++---------
 code/cpp/src/solvers/weno/weno.h   |  2 ++
 3 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/code/cpp/src/solvers/steppers.cpp b/code/cpp/src/solvers/steppers.cpp
index e095a87..aba2b8f 100644
--- a/code/cpp/src/solvers/steppers.cpp
+++ b/code/cpp/src/solvers/steppers.cpp
@@ -7,20 +7,27 @@
 #include "split/ode.h"
 #include "weno/weno.h"
 
-void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
-                  int FLUX, Par &MP, bVecr mask) {
+void ader_stepper_rows(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                       bool STIFF, int FLUX, Par &MP, bVecr mask, int start,
+                       int nRows) {
+  // Steps rows [start, start + nX(0)) of a grid with nRows rows
 
   int ndim = nX.size();
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
   Vec qh(extended_dimensions(nX, 1) * int(pow(N, ndim + 1)) * V);
 
-  weno_launcher(wh, ub, nX, MP);
+  weno_launcher_rows(wh, ub, nX, MP, start, nRows);
 
   predictor(qh, wh, dt, dX, STIFF, false, MP, mask);
 
   fv_launcher(u, qh, nX, dt, dX, true, true, FLUX, MP, mask);
 }
 
+void ader_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX, bool STIFF,
+                  int FLUX, Par &MP, bVecr mask) {
+  ader_stepper_rows(u, ub, nX, dt, dX, STIFF, FLUX, MP, mask, 0, nX(0));
+}
+
 void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                        bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -39,23 +46,26 @@ void ader_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     iVec nX0 = nX;
     nX0(0) = finish - start;
 
-    ader_stepper(
+    ader_stepper_rows(
         u.segment(start * uRowSize, (finish - start) * uRowSize),
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize),
         nX0, dt, dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx);
   }
 }
 
-void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
-                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+void split_stepper_rows(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                        bool HALF_STEP, int FLUX, Par &MP, bVecr mask,
+                        int start, int nRows) {
+  // Steps rows [start, start + nX(0)) of a grid with nRows rows
 
   int ndim = nX.size();
   ode_launcher(u, dt / 2, MP);
   ode_launcher(ub, dt / 2, MP);
 
   Vec wh(extended_dimensions(nX, 1) * int(pow(N, ndim)) * V);
-  weno_launcher(wh, ub, nX, MP);
+  weno_launcher_rows(wh, ub, nX, MP, start, nRows);
 
   if (HALF_STEP)
     midstepper(wh, dt, dX, MP, mask);
@@ -65,6 +75,11 @@ void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
   ode_launcher(u, dt / 2, MP);
 }
 
+void split_stepper(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
+                   bool HALF_STEP, int FLUX, Par &MP, bVecr mask) {
+  split_stepper_rows(u, ub, nX, dt, dX, HALF_STEP, FLUX, MP, mask, 0, nX(0));
+}
+
 void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
                         bool STIFF, int FLUX, Par &MP, bVecr mask) {
   int nx = nX(0);
@@ -86,9 +101,10 @@ void split_stepper_para(Vecr u, Vecr ub, iVecr nX, double dt, Vecr dX,
     Vec ub_ =
         ub.segment(start * ubRowSize, (finish + 2 * N - start) * ubRowSize);
 
-    split_stepper(
+    split_stepper_rows(
         u.segment(start * uRowSize, (finish - start) * uRowSize), ub_, nX0, dt,
         dX, STIFF, FLUX, MP,
-        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize));
+        mask.segment(start * maskRowSize, (finish + 2 - start) * maskRowSize),
+        start, nx);
   }
 }
diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..5309841 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -72,18 +72,21 @@ void coeffs(MatN_Vr ret, Mat2N_Vr data, int nx, int gap, int ind) {
   ret.array() = num.array().rowwise() / den.transpose().array();
 }
 
-void weno1(Matr wh, Matr ub, int nx, int gap) {
+void weno1(Matr wh, Matr ub, int nx, int gap, int start, int total) {
   // Returns the WENO reconstruction of u using polynomials in x
   // Shape of ub: (nx + 2(N-1), V)
   // Shapw of wh: (nx * N, V)
+  // The nx cells are those from start onwards, out of total cells
   for (int i = 0; i < nx; i++)
-    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), nx, gap, i);
+    coeffs(wh.block<N, V>(i * N, 0), ub.block<2 * N - 1, V>(i, 0), total, gap,
+           start + i);
 }
 
-void weno2(Matr wh, Matr ub, int nx, int ny) {
+void weno2(Matr wh, Matr ub, int nx, int ny, int start, int total) {
   // Returns the WENO reconstruction of u using polynomials in y
   // Size of ub: (nx + 2(N-1)) * (ny + 2(N-1)) * V
   // Size of wh: nx * ny * N * N * V
+  // The nx rows are those from start onwards, out of total rows
 
   Vec ux(nx * (ny + 2 * (N - 1)) * N * V);
 
@@ -97,9 +100,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, N, start, total);
     else
-      weno1(tmp0, ubMap, nx, 0);
+      weno1(tmp0, ubMap, nx, 0, start, total);
     uxMap = tmp0Map;
   }
 
@@ -113,17 +116,19 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
       MatMap whMap(wh.data() + (i * ny * N + ii) * N * V, ny, N * V,
                    OuterStride(N * N * V));
 
-      if (NO_CORNERS && (i == 0 || i == nx - 1))
-        weno1(tmp1, uxMap, ny, 1);
+      if (NO_CORNERS && (start + i == 0 || start + i == total - 1))
+        weno1(tmp1, uxMap, ny, 1, 0, ny);
       else
-        weno1(tmp1, uxMap, ny, 0);
+        weno1(tmp1, uxMap, ny, 0, 0, ny);
       whMap = tmp1Map;
     }
   // TODO: make this n-dimensional by turning these two sets of for loops into
   // n sets of for loops, contained within a large loop over the dimensions
 }
 
-void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+void weno_launcher_rows(Vecr wh, Vecr ub, iVecr nX, Par &MP, int start,
+                        int nRows) {
+  // Reconstructs rows [start, start + nX(0)) of a grid with nRows rows
   // NOTE: boundary conditions extend u by two cells in each dimension
 
   int ndim = nX.size();
@@ -143,11 +148,11 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
   switch (ndim) {
 
   case 1:
-    weno1(whMap, ubMap, nX(0) + 2, 0);
+    weno1(whMap, ubMap, nX(0) + 2, 0, start, nRows + 2);
     break;
 
   case 2:
-    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2);
+    weno2(whMap, ubMap, nX(0) + 2, nX(1) + 2, start, nRows + 2);
     break;
   }
 
@@ -155,3 +160,7 @@ void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
     for (int i = 0; i < nwh; i++)
       Cvec(wh.segment<V>(i * V), MP);
 }
+
+void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP) {
+  weno_launcher_rows(wh, ub, nX, MP, 0, nX(0));
+}
diff --git a/code/cpp/src/solvers/weno/weno.h b/code/cpp/src/solvers/weno/weno.h
index 56def22..0f28874 100644
--- a/code/cpp/src/solvers/weno/weno.h
+++ b/code/cpp/src/solvers/weno/weno.h
@@ -4,5 +4,7 @@
 #include "../../etc/globals.h"
 
 void weno_launcher(Vecr wh, Vecr ub, iVecr nX, Par &MP);
+void weno_launcher_rows(Vecr wh, Vecr ub, iVecr nX, Par &MP, int start,
+                        int nRows);
 
 #endif // WENO_H
-- 
2.43.0


From 563255e54f4697870174ba44bc55517113b1ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:22 +0000
Subject: [PATCH 04/32] fix: do not read ghost states while other threads fill
 them

The loop over the boundary cells of a material reads the states on either side
of the interface from the grid that its other iterations are writing to, so
the result depended on how the iterations were scheduled. All of the states
are now found before any cell is filled.
---
 code/cpp/src/multi/fill.cpp | 39 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..5522059 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -131,14 +131,13 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   return ret;
 }
 
-void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
-                         int mat, std::vector<Par> &MPs, double dt, Vecr n,
-                         int indn) {
-  // Attempts to fill the boundary cell at location given by inds.
+VecV boundary_state(Vecr grid, BoundaryInds &bInds, iVecr inds, iVecr nX,
+                    int mat, std::vector<Par> &MPs, double dt, Vec n,
+                    int indn) {
+  // Returns the state with which to fill the boundary cell at location given by
+  // inds.
   // TODO: handle case when QL is chosen to be an isolated point
 
-  BoundaryInds bInds = boundary_inds(inds, φi, n, dX, nX);
-
   VecV QL;
   VecV QR = grid.segment<V>(bInds.R);
   int miR = get_material_index(QR);
@@ -190,7 +189,13 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
       QL = grid.segment<V>(indn * V);
   }
 
-  VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
+  return left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
+}
+
+void fill_boundary_inner(Vecr grid, BoundaryInds &bInds, int mat, VecV QL_) {
+  // Fills the boundary cell, and the interface cell if it is in a different
+  // material
+
   grid.segment<V - LSET>(bInds.ind) = QL_.head<V - LSET>();
 
   if (get_material_index(grid.segment<V>(bInds.interf)) != mat)
@@ -211,12 +216,21 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        BoundaryInds bInds = boundary_inds(inds, φ(ind), n, dX, nX);
+        fill_boundary_inner(grid, bInds, mat,
+                            boundary_state(grid, bInds, inds, nX, mat, MPs, dt,
+                                           n, -1));
       }
     }
     break;
   case 2:
     int ny = nX(1);
+
+    // A boundary cell or an interface cell may also be probed when filling
+    // another boundary cell, so find all states before filling any of the cells
+    Vec states(nx * ny * V);
+    std::vector<BoundaryInds> bInds(nx * ny);
+
 #pragma omp parallel for collapse(2) private(n)
     for (int i = 0; i < nx; i++)
       for (int j = 0; j < ny; j++) {
@@ -226,10 +240,15 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
           n = normal(Δφ.row(ind));
           iVec inds(2);
           inds << i, j;
-          fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
-                              indn);
+          bInds[ind] = boundary_inds(inds, φ(ind), n, dX, nX);
+          states.segment<V>(ind * V) = boundary_state(
+              grid, bInds[ind], inds, nX, mat, MPs, dt, n, indn);
         }
       }
+
+    for (int ind = 0; ind < nx * ny; ind++)
+      if (intMask(ind) == 1)
+        fill_boundary_inner(grid, bInds[ind], mat, states.segment<V>(ind * V));
     break;
   }
 }
-- 
2.43.0


From 362967aca7765960bbee2f73f81ed939729e3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:52 +0000
Subject: [PATCH 05/32] fix: keep the probes of the ghost fluid method inside
 the domain

The states on either side of an interface are probed one cell away from it.
When the interface lies in the last cell before the edge of the domain, the
probe is outside of the grid, and the run was aborted or read another row.
---
 code/cpp/src/multi/fill.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 5522059..5741b2a 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -93,6 +93,16 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec clamp_inds(iVec inds, iVecr nX) {
+  // Replaces indexes outside of the domain with those of the closest cell
+  return inds.cwiseMin((nX.array() - 1).matrix()).cwiseMax(0);
+}
+
+int clamped_ind(iVec inds, iVecr nX) {
+  inds = clamp_inds(inds, nX);
+  return iVec_to_ind(inds, nX(1));
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +115,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = clamp_inds((xi / dX).cast<int>(), nX);
+  iVec xLVec = clamp_inds((xL / dX).cast<int>(), nX);
+  iVec xRVec = clamp_inds((xR / dX).cast<int>(), nX);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -158,27 +168,27 @@ VecV boundary_state(Vecr grid, BoundaryInds &bInds, iVecr inds, iVecr nX,
 
     if (std::abs(n(0)) > std::abs(n(1))) {
       Linds(0) -= n0;
-      Lind = iVec_to_ind(Linds, nX(1));
+      Lind = clamped_ind(Linds, nX);
       if (get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = n0;
         n(1) = 0.;
       } else {
         Linds(0) += n0;
         Linds(1) -= n1;
-        Lind = iVec_to_ind(Linds, nX(1));
+        Lind = clamped_ind(Linds, nX);
         n(0) = 0.;
         n(1) = n1;
       }
     } else {
       Linds(1) -= n1;
-      Lind = iVec_to_ind(Linds, nX(1));
+      Lind = clamped_ind(Linds, nX);
       if (get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = 0.;
         n(1) = n1;
       } else {
         Linds(0) -= n0;
         Linds(1) += n1;
-        Lind = iVec_to_ind(Linds, nX(1));
+        Lind = clamped_ind(Linds, nX);
         n(0) = n0;
         n(1) = 0.;
       }
@@ -263,7 +273,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = clamp_inds((xn / dX).cast<int>(), nX);
 
   switch (ndim) {
   case 1:
-- 
2.43.0


From 467a8aa44a5b8c556cada5fdae8a05d75f4cbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:44 +0000
Subject: [PATCH 06/32] fix: choose a direction when a level set has no
 gradient

Half way between two interfaces the central difference of a level set may be
exactly zero. The normal was then 0/0, and the ghost cell was filled from the
first cell of the grid, or the run aborted.
---
 code/cpp/src/multi/functions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/multi/functions.cpp b/code/cpp/src/multi/functions.cpp
index ba93b6d..101708f 100644
--- a/code/cpp/src/multi/functions.cpp
+++ b/code/cpp/src/multi/functions.cpp
@@ -11,7 +11,13 @@ int sign(double x) {
     return 1;
 }
 
-Vec normal(Vecr Δφ) { return Δφ / Δφ.norm(); }
+Vec normal(Vecr Δφ) {
+  double norm = Δφ.norm();
+  // the same distance from an interface on either side: either will do
+  if (norm == 0.)
+    return Vec::Unit(Δφ.size(), 0);
+  return Δφ / norm;
+}
 
 void finite_difference(Matr Δφ, Vecr φ, aVecr dX, iVec nX) {
   // Δφ[i,j,..][d] is the derivative in the dth direction in cell (i,j,...)
-- 
2.43.0


From ee739b1f07a8598899b4ad2e3c8dd88074bc0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 07/32] fix: fall back to the nonlinear solver whenever the DG
 iteration fails

If the iteration did not converge in DG_IT steps, the predictor of the cell was
left uninitialized. If it failed in 2D, the initial guess of the fallback had
the wrong size, which aborted the process.
---
 code/cpp/src/solvers/dg/dg1.cpp           | 14 ++++++++++----
 code/cpp/src/solvers/dg/dg2.cpp           | 15 +++++++++++----
 code/cpp/src/solvers/dg/initial_guess.cpp |  3 ++-
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..0971d78 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -88,6 +88,8 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
         Mat q1(N * N, V);
         aMat absDiff(N * N, V);
 
+        bool converged = false;
+
         for (int count = 0; count < DG_IT; count++) {
 
           q1 = DG_U1.solve(rhs1(q0, Ww, dt, dx, MP));
@@ -98,16 +100,20 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
             q0 = q1;
             continue;
           } else if (q1.array().isNaN().any()) {
-            stiff_initial_guess(q0, wi, N, dt, MP);
-            VecMap q0v(q0.data(), N * N * V);
-            qh.segment<N * N * V>(ind * N * N * V) =
-                nonlin_solve(obj_bound, q0v, DG_TOL);
             break;
           } else {
             qi = q1;
+            converged = true;
             break;
           }
         }
+
+        if (!converged) {
+          stiff_initial_guess(q0, wi, N, dt, MP);
+          VecMap q0v(q0.data(), N * N * V);
+          qh.segment<N * N * V>(ind * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..086ca58 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -139,6 +139,8 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
         Mat q1(N * N * N, V);
         aMat absDiff(N * N * N, V);
 
+        bool converged = false;
+
         for (int count = 0; count < DG_IT; count++)
         {
 
@@ -153,18 +155,23 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
           }
           else if (q1.array().isNaN().any())
           {
-            stiff_initial_guess(q0, wi, N * N, dt, MP);
-            VecMap q0v(q0.data(), N * N * N * V);
-            qh.segment(ind * N * N * N * V, N * N * N * V) =
-                nonlin_solve(obj_bound, q0v, DG_TOL);
             break;
           }
           else
           {
             qi = q1;
+            converged = true;
             break;
           }
         }
+
+        if (!converged)
+        {
+          stiff_initial_guess(q0, wi, N * N, dt, MP);
+          VecMap q0v(q0.data(), N * N * N * V);
+          qh.segment(ind * N * N * N * V, N * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..b2ddb9c 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,8 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  for (int i = 0; i < N; i++)
+    q.block(i * NT, 0, NT, V) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From 623d95c586548e12bfc1e05a7ccf79635cd7cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 08/32] fix: initialize the WENO oscillation indicator

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 4fdd9bf176c44eb8d45a2e491b05a05dd9e5c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:06 +0000
Subject: [PATCH 09/32] fix: keep the states around a NaN within the solution
 history

---
 code/cpp/src/solvers/iterator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..79ed9f2 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,6 +159,8 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
+      // keep to the 100 snapshots of the history
+      pushCount = std::min(pushCount, 98);
       ret[pushCount] = uprev;
       ret[pushCount + 1] = u;
       return ret;
-- 
2.43.0


From 37022aa56871b33df5017d4e83b6169d51543a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 10/32] fix: do not reuse the Krylov vectors of previous calls
 by default

The default value of outer_v was shared between, and changed by, all calls.
---
 code/cpp/bindings/bindings.cpp |  2 +-
 code/cpp/src/scipy/lgmres.cpp  | 12 +++++++++---
 code/cpp/src/scipy/lgmres.h    |  2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/code/cpp/bindings/bindings.cpp b/code/cpp/bindings/bindings.cpp
index ac06eff..c40b7c7 100644
--- a/code/cpp/bindings/bindings.cpp
+++ b/code/cpp/bindings/bindings.cpp
@@ -189,7 +189,7 @@ PYBIND11_MODULE(GPRpy, m) {
               py::arg("x0") = Vec(0), py::arg("M") = Mat(0, 0),
               py::arg("tol") = 1e-5, py::arg("maxiter") = 1000,
               py::arg("inner_m") = 30, py::arg("outer_k") = 3,
-              py::arg("outer_v") = std::vector<Vec>());
+              py::arg("outer_v") = static_cast<std::vector<Vec> *>(nullptr));
   m_scipy.def("newton_krylov", &nonlin_solve, py::arg("F"), py::arg("x"),
               py::arg("f_tol") = pow(mEPS, 1. / 3), py::arg("f_rtol") = INF,
               py::arg("x_tol") = INF, py::arg("x_rtol") = INF);
diff --git a/code/cpp/src/scipy/lgmres.cpp b/code/cpp/src/scipy/lgmres.cpp
index 2a5d961..4d03631 100644
--- a/code/cpp/src/scipy/lgmres.cpp
+++ b/code/cpp/src/scipy/lgmres.cpp
@@ -105,7 +105,13 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
 Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
                    const int maxiter, const int inner_m, const int outer_k,
-                   std::vector<Vec> &outer_v) {
+                   std::vector<Vec> *outer_v) {
+  // NOTE: the vectors are only kept for later calls if outer_v is supplied
+
+  std::vector<Vec> outer_v_;
+  if (outer_v == nullptr)
+    outer_v = &outer_v_;
+
   System system;
   system.set_A(A);
 
@@ -119,9 +125,9 @@ Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
   std::function<Vec(Vecr)> psolve = std::bind(&System::prec, system, _1);
 
   if (x0.rows() == 0)
-    return lgmres(matvec, psolve, b, Vec::Zero(b.rows()), outer_v, tol, maxiter,
+    return lgmres(matvec, psolve, b, Vec::Zero(b.rows()), *outer_v, tol, maxiter,
                   inner_m, outer_k);
   else
-    return lgmres(matvec, psolve, b, x0, outer_v, tol, maxiter, inner_m,
+    return lgmres(matvec, psolve, b, x0, *outer_v, tol, maxiter, inner_m,
                   outer_k);
 }
diff --git a/code/cpp/src/scipy/lgmres.h b/code/cpp/src/scipy/lgmres.h
index a45a447..3881fb0 100644
--- a/code/cpp/src/scipy/lgmres.h
+++ b/code/cpp/src/scipy/lgmres.h
@@ -21,6 +21,6 @@ Vec lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x,
 
 Vec lgmres_wrapper(Matr A, Vecr b, Vecr x0, Matr M, const double tol,
                    const int maxiter, const int inner_m, const int outer_k,
-                   std::vector<Vec> &outer_v);
+                   std::vector<Vec> *outer_v);
 
 #endif // LGMRES_H
-- 
2.43.0


From fd8511a3f4b023fe662c5aba3e01469c792b84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:50 +0000
Subject: [PATCH 11/32] fix: keep the results of every run

Runs which finished within the same second overwrote each other's results, and
a run which was stopped while saving left a truncated file behind.
---
 code/python/store.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/code/python/store.py b/code/python/store.py
index 14b9181..4eca656 100644
--- a/code/python/store.py
+++ b/code/python/store.py
@@ -1,14 +1,37 @@
-from os import mkdir
+from itertools import count
+from os import fsync, makedirs, remove, replace
+from os.path import exists
 from time import time
 
 from numpy import array, int32, isnan, save
 
 
+def reserve(name):
+    # Returns an unused path for the results, and an open temporary file which
+    # reserves it until it is renamed
+    for i in count():
+        path = name + ('_' + str(i) if i > 0 else '') + '.npy'
+        try:
+            f = open(path + '.tmp', 'xb')
+        except FileExistsError:
+            continue
+        if not exists(path):
+            return path, f
+        f.close()
+        remove(path + '.tmp')
+
+
 def save_results(uList, T, N, cfl, SPLIT, FLUX):
+    makedirs('results', exist_ok=True)
+    pars = [str(x) for x in [T.__name__, N, cfl, SPLIT, FLUX, int(time())]]
+    path, f = reserve('results/' + '_'.join(pars))
+    # the results only appear under their name once they are complete
     try:
-        mkdir('results')
+        with f:
+            save(f, uList)
+            f.flush()
+            fsync(f.fileno())
+        replace(path + '.tmp', path)
     except:
-        pass
-    pars = [str(x) for x in [T.__name__, N, cfl, SPLIT, FLUX, int(time())]]
-    name = '_'.join(pars)
-    save('results/' + name + '.npy', uList)
+        remove(path + '.tmp')
+        raise
-- 
2.43.0


From b2e65e510b78d6d6b4de73daf27f1252cb64fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:40 +0000
Subject: [PATCH 12/32] fix: add the reactant flux instead of assigning it

The flux functions accumulate both sides and the dissipation in one vector, so
the assignment dropped all but the last contribution.
---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From db7a203a8913271cb2199b0fdae6a41d4e923674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:40 +0000
Subject: [PATCH 13/32] fix: do not relax the distortion of purely elastic
 solids

They have no viscosity, so that the relaxation time came out as zero.
---
 code/cpp/src/system/relaxation/analytic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..fc5eec0 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -64,7 +64,9 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
-  } else
+  } else if (MP.SOLID)
+    return 0.; // purely elastic
+  else
     return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
-- 
2.43.0


From db28dcb2765d26eb7187a1c0ce2630f77f6b09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 14/32] fix: use the direction of the wave in the acoustic
 speeds

The thermo-acoustic tensor had the entries of the pressure and density in the
first row and column whatever the direction, which left the sound speed out of
the wave speeds in y: steps of 2D grids were too long and the Rusanov flux in y
lacked dissipation.
---
 code/cpp/src/system/eig.cpp        | 4 ++--
 code/python/gpr/sys/eigenvalues.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
diff --git a/code/python/gpr/sys/eigenvalues.py b/code/python/gpr/sys/eigenvalues.py
index 7c077fc..1cb741c 100644
--- a/code/python/gpr/sys/eigenvalues.py
+++ b/code/python/gpr/sys/eigenvalues.py
@@ -14,7 +14,7 @@ def Xi1(P, d, MP):
     else:
         ret = zeros([3, 5])
 
-    ret[0, 1] = 1 / ρ
+    ret[d, 1] = 1 / ρ
 
     if VISCOUS:
         dσdρ = P.dσdρ()
@@ -43,7 +43,7 @@ def Xi2(P, d, MP):
     else:
         ret = zeros([5, 3])
 
-    ret[0, 0] = ρ
+    ret[0, d] = ρ
     ret[1, d] = ρ * c0**2
 
     if VISCOUS:
-- 
2.43.0


From 9185311a458b055e627be4373b66ee4ccff23dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:14 +0000
Subject: [PATCH 15/32] fix: let the eigenvalue iteration converge for states
 at rest

The QR iteration could stagnate on matrices whose entries are of the order
of the rounding errors, and the uninitialised eigenvectors were used then.
Entries below eps^2 times the norm are negligible, as in later versions of
Eigen; a failure (NaN states) now gives NaN instead of leftover memory.
---
 code/cpp/include/eigen3/src/Eigenvalues/RealSchur.h | 13 +++++++++----
 code/cpp/src/solvers/fv/fluxes.cpp                  |  4 ++++
 code/cpp/src/system/eig.cpp                         |  7 ++++++-
 code/cpp/src/system/multi/eigenvecs.cpp             |  4 ++++
 code/cpp/src/system/multi/riemann.cpp               |  2 ++
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/code/cpp/include/eigen3/src/Eigenvalues/RealSchur.h b/code/cpp/include/eigen3/src/Eigenvalues/RealSchur.h
index f5c8604..991592b 100644
--- a/code/cpp/include/eigen3/src/Eigenvalues/RealSchur.h
+++ b/code/cpp/include/eigen3/src/Eigenvalues/RealSchur.h
@@ -236,7 +236,7 @@ template<typename _MatrixType> class RealSchur
     typedef Matrix<Scalar,3,1> Vector3s;
 
     Scalar computeNormOfT();
-    Index findSmallSubdiagEntry(Index iu);
+    Index findSmallSubdiagEntry(Index iu, const Scalar& considerAsZero);
     void splitOffTwoRows(Index iu, bool computeU, const Scalar& exshift);
     void computeShift(Index iu, Index iter, Scalar& exshift, Vector3s& shiftInfo);
     void initFrancisQRStep(Index il, Index iu, const Vector3s& shiftInfo, Index& im, Vector3s& firstHouseholderVector);
@@ -302,12 +302,16 @@ RealSchur<MatrixType>& RealSchur<MatrixType>::computeFromHessenberg(const HessMa
   Index totalIter = 0; // iteration count for whole matrix
   Scalar exshift(0);   // sum of exceptional shifts
   Scalar norm = computeNormOfT();
+  // sub-diagonal entries smaller than norm * eps^2 are considered as negligible:
+  // otherwise the iteration may never converge
+  Scalar considerAsZero = numext::maxi<Scalar>( norm * numext::abs2(NumTraits<Scalar>::epsilon()),
+                                                (std::numeric_limits<Scalar>::min)() );
 
   if(norm!=0)
   {
     while (iu >= 0)
     {
-      Index il = findSmallSubdiagEntry(iu);
+      Index il = findSmallSubdiagEntry(iu, considerAsZero);
 
       // Check for convergence
       if (il == iu) // One root found
@@ -364,14 +368,15 @@ inline typename MatrixType::Scalar RealSchur<MatrixType>::computeNormOfT()
 
 /** \internal Look for single small sub-diagonal element and returns its index */
 template<typename MatrixType>
-inline Index RealSchur<MatrixType>::findSmallSubdiagEntry(Index iu)
+inline Index RealSchur<MatrixType>::findSmallSubdiagEntry(Index iu, const Scalar& considerAsZero)
 {
   using std::abs;
   Index res = iu;
   while (res > 0)
   {
     Scalar s = abs(m_matT.coeff(res-1,res-1)) + abs(m_matT.coeff(res,res));
-    if (abs(m_matT.coeff(res,res-1)) <= NumTraits<Scalar>::epsilon() * s)
+    s = numext::maxi<Scalar>(s * NumTraits<Scalar>::epsilon(), considerAsZero);
+    if (abs(m_matT.coeff(res,res-1)) <= s)
       break;
     res--;
   }
diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 14a3245..8b15865 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -33,6 +33,8 @@ VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
     q = qR + NODES(i) * Δq;
     J = system_matrix(q, d, MP);
     es.compute(J);
+    if (es.info() != Eigen::Success)
+      return VecV::Constant(NAN);
     b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
         es.eigenvalues().array().abs();
     ret += WGHTS(i) * (es.eigenvectors() * b);
@@ -54,6 +56,8 @@ VecV D_ROE(VecVr qL, VecVr qR, int d, Par &MP) {
     J += WGHTS(i) * system_matrix(q, d, MP);
   }
   Eigen::EigenSolver<MatV_V> es(J);
+  if (es.info() != Eigen::Success)
+    return VecV::Constant(NAN);
   VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
             es.eigenvalues().array().abs();
 
diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index ce3d9a0..12c6471 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -1,3 +1,5 @@
+#include <cmath>
+
 #include "energy/mg.h"
 #include "functions/matrices.h"
 #include "functions/vectors.h"
@@ -69,7 +71,10 @@ double max_abs_eigs(VecVr Q, int d, Par &MP) {
   Mat Ξ = thermo_acoustic_tensor(Q, d, MP);
   double vd = Q(2 + d) / Q(0);
 
-  double lam = sqrt(Ξ.eigenvalues().array().abs().maxCoeff());
+  Eigen::EigenSolver<Mat> es(Ξ, false);
+  if (es.info() != Eigen::Success)
+    return NAN;
+  double lam = sqrt(es.eigenvalues().array().abs().maxCoeff());
   if (vd > 0)
     return vd + lam;
   else
diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index ff27325..a50c3eb 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -1,3 +1,5 @@
+#include <cmath>
+
 #include "eigenvecs.h"
 #include "../../etc/types.h"
 #include "../eig.h"
@@ -35,6 +37,8 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat Ξ = Ξ1 * Ξ2;
 
   Eigen::EigenSolver<Mat> es(Ξ);
+  if (es.info() != Eigen::Success)
+    return MatV_V::Constant(NAN);
   Mat Q_1 = es.eigenvectors().real();
   Mat D_2 = es.eigenvalues().real().cwiseInverse().asDiagonal();
   Mat D_1 = D_2.array().sqrt();
diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index b3be715..4b97235 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -139,6 +139,8 @@ MatV_V riemann_constraints(VecVr Q, double sgn, Par &MP) {
   Mat Ξ = Ξ1 * Ξ2;
 
   Eigen::EigenSolver<Mat> es(Ξ);
+  if (es.info() != Eigen::Success)
+    return MatV_V::Constant(NAN);
   Mat Q_1 = es.eigenvectors().real();
   Mat D_1 = es.eigenvalues().real().cwiseInverse().cwiseSqrt().asDiagonal();
   Mat Q1 = Q_1.inverse();
-- 
2.43.0


From 807881d07440d31a87d8aefa484b734a31ab216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:17 +0000
Subject: [PATCH 16/32] fix: do not look for a second direction in 1D when
 filling ghost cells

When two interfaces are close to each other in 1D, a probed state may not
belong to the material being filled; the search in the other direction then
read beyond the indexes of the cell and the run was aborted.
---
 code/cpp/src/multi/fill.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 5741b2a..2cd758c 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -158,7 +158,10 @@ VecV boundary_state(Vecr grid, BoundaryInds &bInds, iVecr inds, iVecr nX,
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
     QL = grid.segment<V>(bInds.L);
 
-  else { // should only happen if ndim>1
+  else if (n.size() == 1)
+    QL = grid.segment<V>(indn * V);
+
+  else {
     iVec Linds = inds;
     int Lind;
 
@@ -223,13 +226,14 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
   case 1:
     for (int ind = 0; ind < nx; ind++) {
       if (intMask(ind) == 1) {
+        int indn = (ind > 0 && intMask(ind - 1) == -1) ? ind - 1 : ind + 1;
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
         BoundaryInds bInds = boundary_inds(inds, φ(ind), n, dX, nX);
         fill_boundary_inner(grid, bInds, mat,
                             boundary_state(grid, bInds, inds, nX, mat, MPs, dt,
-                                           n, -1));
+                                           n, indn));
       }
     }
     break;
-- 
2.43.0


From 2a4658c9c276132e20acee934642755ff54e0971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:08 +0000
Subject: [PATCH 17/32] fix: relax stress-free shear-thickening fluids at a
 finite rate

The relaxation rate of a power law fluid with n > 1 is infinite without
stress; multiplied by the vanishing stress this gave NaN for any fluid at
rest.
---
 code/cpp/src/system/variables/sources.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/system/variables/sources.cpp b/code/cpp/src/system/variables/sources.cpp
index 1a0d8ad..671d545 100644
--- a/code/cpp/src/system/variables/sources.cpp
+++ b/code/cpp/src/system/variables/sources.cpp
@@ -73,6 +73,8 @@ double theta1inv(VecVr Q, Par &MP) {
     if (MP.POWER_LAW) {
       Mat3_3 σ = sigma(Q, MP);
       sn = σ.norm() / sqrt(2.);
+      if (sn == 0.)
+        return 0.; // nothing to relax
 
       return c * pow(sn, (1 - n) / n);
     } else
-- 
2.43.0


From d8e8eab7fc075ac9b3ad17b839e52f42692cf94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 18/32] fix: find the waves of states at rest in spite of
 rounding errors

Entries of the system matrix that are rounding errors could keep the
eigenvalue iteration from converging, so that a uniform state ended in NaN.
They are dropped when that happens.
---
 code/cpp/src/solvers/fv/fluxes.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 8b15865..ddab8ff 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -19,6 +19,19 @@ VecV Bint(VecVr qL, VecVr qR, int d, Par &MP) {
   return ret;
 }
 
+bool decompose(Eigen::EigenSolver<MatV_V> &es, MatV_V &J) {
+  // Finds the eigenvectors and eigenvalues of J. In states at rest the entries
+  // that are mere rounding errors may keep the iteration from converging.
+  es.compute(J);
+  if (es.info() == Eigen::Success)
+    return true;
+
+  double small = mEPS * J.cwiseAbs().maxCoeff();
+  J = (J.array().abs() > small).select(J, MatV_V::Zero());
+  es.compute(J);
+  return es.info() == Eigen::Success;
+}
+
 VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
   VeccV ret = VeccV::Zero();
@@ -32,8 +45,7 @@ VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   for (int i = 0; i < N; i++) {
     q = qR + NODES(i) * Δq;
     J = system_matrix(q, d, MP);
-    es.compute(J);
-    if (es.info() != Eigen::Success)
+    if (!decompose(es, J))
       return VecV::Constant(NAN);
     b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
         es.eigenvalues().array().abs();
@@ -55,8 +67,8 @@ VecV D_ROE(VecVr qL, VecVr qR, int d, Par &MP) {
     q = qR + NODES(i) * Δq;
     J += WGHTS(i) * system_matrix(q, d, MP);
   }
-  Eigen::EigenSolver<MatV_V> es(J);
-  if (es.info() != Eigen::Success)
+  Eigen::EigenSolver<MatV_V> es;
+  if (!decompose(es, J))
     return VecV::Constant(NAN);
   VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
             es.eigenvalues().array().abs();
-- 
2.43.0


From 85312a54c23ec056c79456152cb1bef965abf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:35 +0000
Subject: [PATCH 19/32] fix: do not free a matrix twice if memory runs out
 while it is resized

---
 code/cpp/include/eigen3/src/Core/DenseStorage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/include/eigen3/src/Core/DenseStorage.h b/code/cpp/include/eigen3/src/Core/DenseStorage.h
index 7958fee..2dc1a71 100644
--- a/code/cpp/include/eigen3/src/Core/DenseStorage.h
+++ b/code/cpp/include/eigen3/src/Core/DenseStorage.h
@@ -404,6 +404,7 @@ template<typename T, int _Options> class DenseStorage<T, Dynamic, Dynamic, Dynam
       if(size != m_rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, m_rows*m_cols);
+        m_data = 0; // the allocation below may throw
         if (size)
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -479,6 +480,7 @@ template<typename T, int _Rows, int _Options> class DenseStorage<T, Dynamic, _Ro
       if(size != _Rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Rows*m_cols);
+        m_data = 0; // the allocation below may throw
         if (size)
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -553,6 +555,7 @@ template<typename T, int _Cols, int _Options> class DenseStorage<T, Dynamic, Dyn
       if(size != m_rows*_Cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Cols*m_rows);
+        m_data = 0; // the allocation below may throw
         if (size)
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
-- 
2.43.0


From 042ca50a4dab1a8ba5b02256553d754d67f51493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 20/32] fix: a cell lying exactly on an interface belongs to
 one material only

---
 code/cpp/src/multi/fill.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 2cd758c..221dad2 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -383,6 +383,11 @@ void fill_ghost_cells(std::vector<Vec> &grids, std::vector<bVec> &masks, Vecr u,
 
       material_indicator(φ, uMap, mat, nmat, dX, nX);
 
+      // a cell lying exactly on an interface belongs to one material only
+      for (int j = 0; j < ncell; j++)
+        if (φ(j) == 0. && get_material_index(u.segment<V>(j * V)) != mat)
+          φ(j) = 1e-10 * dX.minCoeff();
+
       finite_difference(Δφ, φ, dX, nX);
 
       find_interface_cells(intMask, φ, nX);
-- 
2.43.0


From 338aa281ca7506f013d24e479bf51aa9f1c01820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:25 +0000
Subject: [PATCH 21/32] fix: keep level sets that separate no materials
 unchanged

---
 code/cpp/src/solvers/iterator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 79ed9f2..acbb5d2 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -17,6 +17,9 @@ void make_u(Vecr u, std::vector<Vec> &grids, std::vector<bVec> &masks,
   int nmat = grids.size();
   Vec matSum(LSET);
 
+  // the level sets that separate the materials; any others do not move
+  int nls = std::min(nmat - 1, LSET);
+
   for (int i = 0; i < ncell; i++) {
 
     // take average value of level sets in all cells that have been updated.
@@ -30,7 +33,7 @@ void make_u(Vecr u, std::vector<Vec> &grids, std::vector<bVec> &masks,
       }
     }
     if (matCnt > 0.)
-      u.segment<LSET>(i * V + V - LSET) = matSum / matCnt;
+      u.segment(i * V + V - LSET, nls) = matSum.head(nls) / matCnt;
 
     int mi = get_material_index(u.segment<V>(i * V));
 
-- 
2.43.0


From a76734020b90eca6676cb3bacbbd1c7d68acff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:20 +0000
Subject: [PATCH 22/32] fix: use a direction that leads to the material when
 probes miss it

---
 code/cpp/src/multi/fill.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 221dad2..c5ca3b4 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -158,8 +158,10 @@ VecV boundary_state(Vecr grid, BoundaryInds &bInds, iVecr inds, iVecr nX,
   else if (get_material_index(grid.segment<V>(bInds.L)) == mat)
     QL = grid.segment<V>(bInds.L);
 
-  else if (n.size() == 1)
+  else if (n.size() == 1) {
     QL = grid.segment<V>(indn * V);
+    n(0) = inds(0) - indn;
+  }
 
   else {
     iVec Linds = inds;
@@ -198,8 +200,11 @@ VecV boundary_state(Vecr grid, BoundaryInds &bInds, iVecr inds, iVecr nX,
     }
     if (get_material_index(grid.segment<V>(Lind)) == mat)
       QL = grid.segment<V>(Lind);
-    else
+    else {
       QL = grid.segment<V>(indn * V);
+      n(0) = inds(0) - indn / nX(1);
+      n(1) = inds(1) - indn % nX(1);
+    }
   }
 
   return left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
-- 
2.43.0


From f3f7ba1d4aa4f046091bd942107d3f4a36be1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:00 +0000
Subject: [PATCH 23/32] fix: take the right root of the relaxed stretches'
 cubic

atan loses the quadrant for a negative argument: about half of all distortions
got wrong stretches, even over a time step of zero.
---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 code/python/gpr/sys/analytical.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index fc5eec0..a07beed 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -110,7 +110,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = atan2(sqrt(arg1), 9. * Δ); // in (π/2, π) if Δ < 0
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index 742bd3c..d20505b 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -1,4 +1,4 @@
-from numpy import arctan, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
+from numpy import arctan, arctan2, array, cbrt, cos, dot, exp, log, pi, prod, sqrt
 from numpy.linalg import svd
 
 from gpr.misc.functions import L2_1D
@@ -101,7 +101,7 @@ def solver_distortion_analytic(A, dt, MP):
         x1 = tmp / 6 + u / tmp + m
 
     else:
-        θ = arctan(sqrt(arg1) / (9 * Δ))
+        θ = arctan2(sqrt(arg1), 9 * Δ)
         x1 = sqrt(6 * u) / 3 * cos(θ / 3) + m
 
     tmp2 = 3 * m - x1
-- 
2.43.0


From 9bf601a182ef4a9d85f74844d9135772511c5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 24/32] fix: let shear-thickening fluids relax fully within a
 time step

---
 code/cpp/src/system/relaxation/analytic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index a07beed..3cc9eaf 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -62,7 +62,10 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
       double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
-      return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
+      double arg = tmp1 * tmp2 * dt + 1.;
+      if (arg <= 0.) // shear-thickening fluids relax fully in a finite time
+        return INFINITY;
+      return 2. / (k * λ) * log(arg);
     }
   } else if (MP.SOLID)
     return 0.; // purely elastic
-- 
2.43.0


From 789c15ab2ff1c752da4f1258d3c7bfbe50258464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 25/32] fix: respect the yield stress of Bingham fluids in the
 closed-form relaxation

---
 code/cpp/src/system/relaxation/analytic.cpp |  9 ++++++++-
 code/python/gpr/sys/analytical.py           | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 3cc9eaf..ff1f11c 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -19,7 +19,7 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
   // TODO: implement mixing of μ
 
-  if (MP.POWER_LAW) {
+  if (MP.POWER_LAW || MP.BINGHAM) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
     double a = 9. * m0 - u0 - 9.;
@@ -59,6 +59,13 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
+      if (MP.BINGHAM) {
+        // as τ grows the shear stress falls like exp(-λτ/2), down to σY
+        double y = MP.σY / (sqrt(c) * ρ * cs2 / (6. * sqrt(3.)));
+        double r = MP.ρ0 * cs2 * std::pow(detA3, 7.) / (3. * MP.μ);
+        return y >= 1. ? 0. : -2. / λ * log(y + (1. - y) * exp(-λ * r * dt / 2.));
+      }
+
       double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
diff --git a/code/python/gpr/sys/analytical.py b/code/python/gpr/sys/analytical.py
index d20505b..8b51f67 100644
--- a/code/python/gpr/sys/analytical.py
+++ b/code/python/gpr/sys/analytical.py
@@ -21,7 +21,7 @@ def pos(x):
 
 def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
 
-    if MP.POWER_LAW:
+    if MP.POWER_LAW or MP.BINGHAM:
         n = MP.n
         cs2 = c_s2(ρ, MP)
         a = 9 * m0 - u0 - 9
@@ -57,6 +57,14 @@ def nondimensionalized_time(ρ, detA3, m0, u0, dt, MP):
                      - 8 / 9 * b**3 - a**4 / 6 + 16 / 27 * a**3 * b
                      - 4 / 5 * a**2 * b**2 + 16 / 33 * a * b**3 - b**4 / 9)
 
+            if MP.BINGHAM:
+                # as τ grows the shear stress falls like exp(-λτ/2), down to σY
+                y = MP.σY / (sqrt(c) * ρ * cs2 / (6 * sqrt(3)))
+                r = MP.ρ0 * cs2 * detA3**7 / (3 * MP.μ)
+                if y >= 1:
+                    return 0
+                return -2 / λ * log(y + (1 - y) * exp(-λ * r * dt / 2))
+
             τ1 = 6 * MP.μ**(1/n) / (MP.ρ0 * MP.b02)
             tmp1 = k * λ / τ1 * detA3**(4 * k + 7)
             tmp2 = (sqrt(c) * ρ * cs2 / (6 * sqrt(3)))**k
-- 
2.43.0


From 8def01abe5cea919a6be86a710879b6d5ede99bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:55 +0000
Subject: [PATCH 26/32] fix: scale the stress of compressed Bingham fluids in
 the closed-form relaxation

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index ff1f11c..bed0400 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -61,7 +61,8 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
       if (MP.BINGHAM) {
         // as τ grows the shear stress falls like exp(-λτ/2), down to σY
-        double y = MP.σY / (sqrt(c) * ρ * cs2 / (6. * sqrt(3.)));
+        double y = MP.σY / (sqrt(c) * ρ * cs2 * std::pow(detA3, 4.) /
+                            (6. * sqrt(3.)));
         double r = MP.ρ0 * cs2 * std::pow(detA3, 7.) / (3. * MP.μ);
         return y >= 1. ? 0. : -2. / λ * log(y + (1. - y) * exp(-λ * r * dt / 2.));
       }
-- 
2.43.0


From f5e844aa33e3a1de9ba885249bcee1f3981ad617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 27/32] fix: fill the cells at interfaces in 1D from the states
 before any is filled

---
 code/cpp/src/multi/fill.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index c5ca3b4..fdd628c 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -224,8 +224,14 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
                          aVecr dX, std::vector<Par> &MPs, double dt, iVecr nX) {
   int ndim = nX.size();
   int nx = nX(0);
+  int ncell = intMask.size();
   Vec n(ndim);
 
+  // A boundary cell or an interface cell may also be probed when filling
+  // another boundary cell, so find all states before filling any of the cells
+  Vec states(ncell * V);
+  std::vector<BoundaryInds> bInds(ncell);
+
   switch (ndim) {
 
   case 1:
@@ -235,21 +241,15 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        BoundaryInds bInds = boundary_inds(inds, φ(ind), n, dX, nX);
-        fill_boundary_inner(grid, bInds, mat,
-                            boundary_state(grid, bInds, inds, nX, mat, MPs, dt,
-                                           n, indn));
+        bInds[ind] = boundary_inds(inds, φ(ind), n, dX, nX);
+        states.segment<V>(ind * V) = boundary_state(
+            grid, bInds[ind], inds, nX, mat, MPs, dt, n, indn);
       }
     }
     break;
   case 2:
     int ny = nX(1);
 
-    // A boundary cell or an interface cell may also be probed when filling
-    // another boundary cell, so find all states before filling any of the cells
-    Vec states(nx * ny * V);
-    std::vector<BoundaryInds> bInds(nx * ny);
-
 #pragma omp parallel for collapse(2) private(n)
     for (int i = 0; i < nx; i++)
       for (int j = 0; j < ny; j++) {
@@ -264,12 +264,12 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
               grid, bInds[ind], inds, nX, mat, MPs, dt, n, indn);
         }
       }
-
-    for (int ind = 0; ind < nx * ny; ind++)
-      if (intMask(ind) == 1)
-        fill_boundary_inner(grid, bInds[ind], mat, states.segment<V>(ind * V));
     break;
   }
+
+  for (int ind = 0; ind < ncell; ind++)
+    if (intMask(ind) == 1)
+      fill_boundary_inner(grid, bInds[ind], mat, states.segment<V>(ind * V));
 }
 
 void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
-- 
2.43.0


From 3a92a6c7fdb209ee2321591edc5658dc14ee9c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 28/32] fix: do not fill an interface's neighbour at an edge of
 the grid from itself

---
 code/cpp/src/multi/fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index fdd628c..940e689 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -296,8 +296,8 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
     break;
   }
 
-  // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  // must fill from a border cell, other than the cell itself at an edge
+  if (intMask(newInd / V) < 1 || newInd == ind)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
-- 
2.43.0


From 729650fa53e2725f65f41a88458cf5e06d151045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:47 +0000
Subject: [PATCH 29/32] fix: leave cells outside of the mask of a material as
 they were filled

---
 code/cpp/src/solvers/iterator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index acbb5d2..c8c955b 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -109,6 +109,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
   int pushCount = 0;
 
   double dt = 0.;
+  Vec filled;
 
   while (t < tf) {
 
@@ -126,6 +127,7 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
 
         boundaries(grids[mat], ub, nX, boundaryTypes);
         extend_mask(masks[mat], maskb, nX);
+        filled = grids[mat];
 
         if (SPLIT)
           split_stepper_para(grids[mat], ub, nX, dt, dX, HALF_STEP, FLUX,
@@ -133,6 +135,11 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
         else
           ader_stepper_para(grids[mat], ub, nX, dt, dX, STIFF, FLUX, MPs[mat],
                             maskb);
+
+        // cells outside of the mask receive the fluxes of some of their faces
+        for (int i = 0; i < ncell; i++)
+          if (!masks[mat](i))
+            grids[mat].segment<V>(i * V) = filled.segment<V>(i * V);
       }
     }
     if (LSET > 0)
-- 
2.43.0


From 24f57054831abf4f968e3804665b75b7512f65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 30/32] fix: fill cells that have only isolated cells for
 neighbors

---
 code/cpp/src/multi/fill.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 940e689..2f7f811 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -309,6 +309,8 @@ void fill_neighbor_cells(Vecr grid, iVecr intMask, Matr Δφ, aVecr dX,
   int nx = nX(0);
   const int EXPANSION_FACTOR = 10;
 
+  std::vector<int> isolates;
+
   // fill
   for (int N0 = 1; N0 < EXPANSION_FACTOR * N; N0++) {
 
@@ -335,8 +337,6 @@ void fill_neighbor_cells(Vecr grid, iVecr intMask, Matr Δφ, aVecr dX,
       }
     } else if (ndim == 2) {
 
-      std::vector<int> isolates;
-
       int ny = nX(1);
       for (int i = 0; i < nx; i++)
         for (int j = 0; j < ny; j++) {
@@ -359,10 +359,12 @@ void fill_neighbor_cells(Vecr grid, iVecr intMask, Matr Δφ, aVecr dX,
             }
           }
         }
-      for (int i = 0; i < isolates.size(); i++)
-        intMask(isolates[i]) = -2;
     }
   }
+
+  // only now, as a cell may have no neighbors to be filled from but isolates
+  for (int i = 0; i < isolates.size(); i++)
+    intMask(isolates[i]) = -2;
 }
 
 void fill_ghost_cells(std::vector<Vec> &grids, std::vector<bVec> &masks, Vecr u,
-- 
2.43.0


From f1a45a90e58e84fd3add832fa6557dfe0c3ecd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 31/32] fix: find the eigenvalues of acoustic tensors that
 differ from diagonal ones by rounding

---
 code/cpp/src/solvers/fv/fluxes.cpp      | 13 -------------
 code/cpp/src/system/eig.cpp             |  5 +++--
 code/cpp/src/system/eig.h               | 15 +++++++++++++++
 code/cpp/src/system/multi/eigenvecs.cpp |  4 ++--
 code/cpp/src/system/multi/riemann.cpp   |  4 ++--
 5 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index ddab8ff..14ff0ae 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -19,19 +19,6 @@ VecV Bint(VecVr qL, VecVr qR, int d, Par &MP) {
   return ret;
 }
 
-bool decompose(Eigen::EigenSolver<MatV_V> &es, MatV_V &J) {
-  // Finds the eigenvectors and eigenvalues of J. In states at rest the entries
-  // that are mere rounding errors may keep the iteration from converging.
-  es.compute(J);
-  if (es.info() == Eigen::Success)
-    return true;
-
-  double small = mEPS * J.cwiseAbs().maxCoeff();
-  J = (J.array().abs() > small).select(J, MatV_V::Zero());
-  es.compute(J);
-  return es.info() == Eigen::Success;
-}
-
 VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
   VeccV ret = VeccV::Zero();
diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 12c6471..c60610f 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -1,5 +1,6 @@
 #include <cmath>
 
+#include "eig.h"
 #include "energy/mg.h"
 #include "functions/matrices.h"
 #include "functions/vectors.h"
@@ -71,8 +72,8 @@ double max_abs_eigs(VecVr Q, int d, Par &MP) {
   Mat Ξ = thermo_acoustic_tensor(Q, d, MP);
   double vd = Q(2 + d) / Q(0);
 
-  Eigen::EigenSolver<Mat> es(Ξ, false);
-  if (es.info() != Eigen::Success)
+  Eigen::EigenSolver<Mat> es;
+  if (!decompose(es, Ξ, false))
     return NAN;
   double lam = sqrt(es.eigenvalues().array().abs().maxCoeff());
   if (vd > 0)
diff --git a/code/cpp/src/system/eig.h b/code/cpp/src/system/eig.h
index 6644d81..989152c 100644
--- a/code/cpp/src/system/eig.h
+++ b/code/cpp/src/system/eig.h
@@ -12,4 +12,19 @@ Mat thermo_acoustic_tensor(VecVr Q, int d, Par &MP);
 
 double max_abs_eigs(VecVr Q, int d, Par &MP);
 
+template <class M>
+bool decompose(Eigen::EigenSolver<M> &es, M &J, bool vectors = true) {
+  // Finds the eigenvalues (and eigenvectors) of J. In states at rest the
+  // entries that are mere rounding errors may keep the iteration from
+  // converging, so they are left out where it does not.
+  es.compute(J, vectors);
+  double small = mEPS * J.cwiseAbs().maxCoeff();
+  for (int i = 0; i < 5 && es.info() != Eigen::Success; i++) {
+    J = (J.array().abs() > small).select(J, 0 * J).eval();
+    es.compute(J, vectors);
+    small *= 100;
+  }
+  return es.info() == Eigen::Success;
+}
+
 #endif // EIG_H
diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index a50c3eb..f71fbc5 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -36,8 +36,8 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
   Mat Ξ = Ξ1 * Ξ2;
 
-  Eigen::EigenSolver<Mat> es(Ξ);
-  if (es.info() != Eigen::Success)
+  Eigen::EigenSolver<Mat> es;
+  if (!decompose(es, Ξ))
     return MatV_V::Constant(NAN);
   Mat Q_1 = es.eigenvectors().real();
   Mat D_2 = es.eigenvalues().real().cwiseInverse().asDiagonal();
diff --git a/code/cpp/src/system/multi/riemann.cpp b/code/cpp/src/system/multi/riemann.cpp
index 4b97235..a679058 100644
--- a/code/cpp/src/system/multi/riemann.cpp
+++ b/code/cpp/src/system/multi/riemann.cpp
@@ -138,8 +138,8 @@ MatV_V riemann_constraints(VecVr Q, double sgn, Par &MP) {
   Mat Ξ2 = Xi2(ρ, p, Q, MP, 0);
   Mat Ξ = Ξ1 * Ξ2;
 
-  Eigen::EigenSolver<Mat> es(Ξ);
-  if (es.info() != Eigen::Success)
+  Eigen::EigenSolver<Mat> es;
+  if (!decompose(es, Ξ))
     return MatV_V::Constant(NAN);
   Mat Q_1 = es.eigenvectors().real();
   Mat D_1 = es.eigenvalues().real().cwiseInverse().cwiseSqrt().asDiagonal();
-- 
2.43.0


From be5be11b1093e98878a0b14700caeb49dbc1d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:16 +0000
Subject: [PATCH 32/32] fix: keep contacts at rest under the Roe and Osher
 fluxes

Where eigenvalues of the system matrix coincide, the eigenvectors found for
them may be almost parallel, and the decomposition of the jump garbage.
---
 code/cpp/src/solvers/fv/fluxes.cpp | 36 ++++++++++++++++++------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 14ff0ae..174cba8 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -19,24 +19,38 @@ VecV Bint(VecVr qL, VecVr qR, int d, Par &MP) {
   return ret;
 }
 
+VeccV abs_dot(MatV_V &J, const VeccV &Δq) {
+  // Returns |J| * Δq. The eigenvectors found for the eigenvalues that coincide
+  // may be almost parallel. In this case, these eigenvalues are told apart by a
+  // negligible change of J.
+  Eigen::EigenSolver<MatV_V> es;
+  VeccV b;
+  for (int i = 0; i < 3; i++) {
+    if (!decompose(es, J))
+      return VeccV::Constant(NAN);
+    b = es.eigenvectors().colPivHouseholderQr().solve(Δq);
+    if (b.norm() <= 1e8 * Δq.norm() &&
+        (es.eigenvectors() * b - Δq).norm() <= 1e-8 * Δq.norm())
+      break;
+    double small = 1e-9 * es.eigenvalues().cwiseAbs().maxCoeff();
+    J.diagonal() += VecV::LinSpaced(0, small);
+  }
+  b.array() *= es.eigenvalues().array().abs();
+  return es.eigenvectors() * b;
+}
+
 VecV D_OSH(VecVr qL, VecVr qR, int d, Par &MP) {
   // Returns the Osher flux component, in the dth direction
   VeccV ret = VeccV::Zero();
   VecV Δq = qL - qR;
   VeccV Δqc = VeccV(Δq);
-  Eigen::EigenSolver<MatV_V> es;
 
   VecV q;
-  VeccV b;
   MatV_V J;
   for (int i = 0; i < N; i++) {
     q = qR + NODES(i) * Δq;
     J = system_matrix(q, d, MP);
-    if (!decompose(es, J))
-      return VecV::Constant(NAN);
-    b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
-        es.eigenvalues().array().abs();
-    ret += WGHTS(i) * (es.eigenvectors() * b);
+    ret += WGHTS(i) * abs_dot(J, Δqc);
   }
   VecV f = ret.real();
   flux(f, qL, d, MP);
@@ -54,13 +68,7 @@ VecV D_ROE(VecVr qL, VecVr qR, int d, Par &MP) {
     q = qR + NODES(i) * Δq;
     J += WGHTS(i) * system_matrix(q, d, MP);
   }
-  Eigen::EigenSolver<MatV_V> es;
-  if (!decompose(es, J))
-    return VecV::Constant(NAN);
-  VeccV b = es.eigenvectors().colPivHouseholderQr().solve(Δqc).array() *
-            es.eigenvalues().array().abs();
-
-  VecV f = (es.eigenvectors() * b).real();
+  VecV f = abs_dot(J, Δqc).real();
   flux(f, qL, d, MP);
   flux(f, qR, d, MP);
   return f;
-- 
2.43.0

