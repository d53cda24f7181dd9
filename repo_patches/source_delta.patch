From a89cc8ef67ce90fc2288f3b61ef3bb3352e5bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 01/29] fix: set up the DMDAs created by the 3D and Laplacian
 meshes before they are queried

---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 941c1bc8e35ad5f83872589890f1d9e44b1a4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 02/29] fix: transpose the mixed-derivative blocks of the
 assembled strain tensor matrix

---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From 25847cd8650cf338c53ef1ab1dde6d6425d1b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 03/29] fix: use the pressure mesh step for the pressure block
 of apply_mass_matrix

---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From cdbd5b339d0a8dd6d61f348a4dd7a65c4b8e9e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 04/29] fix: zero the Dirichlet rows with the ghosted local
 numbering in set_dirichlet_on_mat_impl

---
 cafes/fem/bc.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..06670a9 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,10 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      // local numbering always includes the ghost points (even on one
+      // process when a direction is periodic)
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +228,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +244,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +264,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From 7e00876e16de0d3c378d460dd247fc963ae9f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 05/29] fix: give velocity minus vector and vector plus
 velocity their signs, and keep the imposed rigid motion V + w x r

---
 cafes/particle/geometry/vector.hpp  | 6 +++---
 cafes/problem/particle_operator.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..785d2ec 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,7 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(r[ipart][i], particles[ipart].angular_velocity_);
         }
         ipart++;
       }
-- 
2.43.0


From f7776e17b9df2cc26fde2112186360797382f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 06/29] fix: divide a quaternion by its norm, not by its
 square, when normalising

---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..3e47fc7 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -89,7 +89,7 @@ namespace cafes
 
       void normalize()
       {
-        auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
+        auto norm = std::sqrt(std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.));
         components_ /= norm;
       }
 
-- 
2.43.0


From 2833fd412d9bffd81228fd337faa45f953df580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 07/29] fix: check_box_inside requires the boxes to meet in
 every direction

---
 cafes/particle/geometry/box.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..bf32df0 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,7 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From 5c8b918769c3047c827ae315e3b27051c80f2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 08/29] fix: linspace with one point returns the first end
 instead of NaN

---
 cafes/particle/geometry/linspace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/linspace.hpp b/cafes/particle/geometry/linspace.hpp
index b41c7a1..a03872a 100644
--- a/cafes/particle/geometry/linspace.hpp
+++ b/cafes/particle/geometry/linspace.hpp
@@ -44,7 +44,7 @@ namespace cafes
         std::vector<double> that;
         that.reserve(num);
         int ns = (include_end)? num - 1: num;
-        double step = (end - beg)/ns;
+        double step = (ns > 0)? (end - beg)/ns: 0.;
 
         for(size_t i=0; i<num; ++i)
             that.push_back(beg + i*step);
-- 
2.43.0


From 59f90fb6bf18d220bfc4ffa0f0942f8819f9b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 09/29] fix: locate surface points with negative coordinates in
 the cell that contains them

---
 cafes/particle/particle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..9d03372 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -152,7 +152,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(std::make_pair(surf_pi, surf_p[i] - surf_pi*h));
         }
@@ -170,7 +170,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(surf_p[i] - center);
         }
-- 
2.43.0


From 9c280fbfad86eae493ae6a94bd773c7e4d02c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 10/29] fix: find the multigrid level from the number of points
 in one direction, not from the size

---
 cafes/problem/stokes.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..ac32c4e 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,18 +60,15 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
+            // find the level in MG from the number of points in one direction
+            DMDALocalInfo info, info_0;
+            ierr = DMDAGetLocalInfo(dm, &info);CHKERRQ(ierr);
+            ierr = DMDAGetLocalInfo(ctx_->dm, &info_0);CHKERRQ(ierr);
             int level = 0;
-            // find the level in MG
-            while(nx_0 != nx)
-            {
+            for (int n = info_0.mx; n > info.mx; n = (n + 1)/2)
                 level++;
-                nx_0 = (nx_0+1)/Dim;
-            }
 
             auto mg_h = ctx_->h;
             std::for_each(mg_h.begin(), mg_h.end(), [&](auto &x) {x *= (1 << level);});
-- 
2.43.0


From 38c8a1e8859fee1e0528b16b6e1b105a803e82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:58 +0000
Subject: [PATCH 11/29] fix: return a defined code from laplacian_assembling
 and size the element matrix of diagonal_assembling for the dimension

---
 cafes/fem/assembling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..c4d38a6 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -476,7 +476,7 @@ namespace cafes
     PetscErrorCode laplacian_assembling(DM &dv, Mat &A,
                                         const std::array<double, Dimensions> &h)
     {
-        PetscErrorCode ierr;
+        PetscErrorCode ierr = 0;
 
         DMDALocalInfo info;
         DMDAGetLocalInfo(dv, &info);
@@ -552,7 +552,7 @@ namespace cafes
 
         auto box = fem::get_DM_bounds<Dimensions>(dap);
 
-        std::array<double, 16> matelem;
+        std::array<double, (1 << Dimensions) * (1 << Dimensions)> matelem;
         matelem.fill(0);
 
         int dec = infov.dof * infov.gxm * infov.gym * infov.gzm;
-- 
2.43.0


From 0e70b9a2204bf430a9c1f127e29b359f5341783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 12/29] fix: mirror the surface points of a 3D super-ellipsoid
 without invalidating the iterated vector

---
 cafes/particle/geometry/super_ellipsoid.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..77c880c 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -240,7 +240,10 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            auto size = that.size();
+            that.reserve(2*size);
+            for(std::size_t i=0; i<size; ++i)
+              that.push_back({that[i][0], that[i][1], -that[i][2]});
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
-- 
2.43.0


From 5d9fc4386efd96097ffac1852c93413be31a3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 13/29] fix: sample the surface of a 3D super-ellipsoid with
 the exponents of its implicit equation

---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 77c880c..222670c 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,8 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            double eps1 = e_; // in the xy plane
+            double eps2 = n_; // along z
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
-- 
2.43.0


From e3a3c9cd35b7b64d06b51a9ecc1a0fa60a7788ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 14/29] fix: rotate the points and the surface of a 3D
 super-ellipsoid like its bounding box

---
 cafes/particle/geometry/super_ellipsoid.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 222670c..4b45161 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -244,6 +244,8 @@ namespace cafes
             that.reserve(2*size);
             for(std::size_t i=0; i<size; ++i)
               that.push_back({that[i][0], that[i][1], -that[i][2]});
+            if (q_.is_rotate())
+              std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
@@ -331,13 +333,16 @@ namespace cafes
            auto r1 = 2./n_;
            auto r2 = e_/n_;
            auto r3 = 2./e_;
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From b560866fbade6e6162da5e1822dd67e0bc399b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 15/29] fix: fluid points of boxes with negative corners were
 not found (unsigned counters)

---
 cafes/particle/particle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index 9d03372..48e5167 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -115,7 +115,7 @@ namespace cafes
       that.reserve(b.length());
 
       double x, y;
-      std::size_t ix, iy;
+      int ix, iy;
       for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
           for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
           {
@@ -133,7 +133,7 @@ namespace cafes
     that.reserve(b.length());
 
     double x, y, z;
-    std::size_t ix, iy, iz;
+    int ix, iy, iz;
     for(z=b.bottom_left[2]*h[2], iz=b.bottom_left[2]; iz<b.upper_right[2]; z+=h[2], ++iz)
         for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
             for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
-- 
2.43.0


From 74a578a46168be2b34ccd4bec6785969586ef288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 16/29] fix: SEM::solve added the last right-hand side to the
 one of the last control iteration

---
 cafes/problem/sem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..afb7e4c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -199,6 +199,7 @@ namespace cafes
 
         // solve the problem with the right control
         ctx->compute_rhs = true;
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
 
-- 
2.43.0


From 2f714d372cd79487280052e585a69263cf485972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:33 +0000
Subject: [PATCH 17/29] fix: SEM forces and torques were divided by the number
 of sub-cell samples, not of control points; singular forces index

---
 cafes/particle/forces_torques.hpp |  2 +-
 cafes/problem/sem.hpp             | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..29659f7 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -114,7 +114,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index afb7e4c..04920a6 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -247,13 +247,23 @@ namespace cafes
         PetscFunctionBegin;
         auto box = fem::get_DM_bounds<Dimensions>(problem_.ctx->dm, 0);
         auto& h = problem_.ctx->h;
-       
+
+        // the control is known at the fluid points (num_ counts finer points)
+        std::vector<int> size(parts_.size(), 0);
+        for(std::size_t ipart=0; ipart<parts_.size(); ++ipart)
+        {
+          auto pbox = parts_[ipart].bounding_box(h);
+          if (geometry::intersect(box, pbox))
+            size[ipart] = find_fluid_points_insides(parts_[ipart], geometry::overlap_box(box, pbox), h).size();
+        }
+        MPI_Allreduce(MPI_IN_PLACE, size.data(), size.size(), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
+
         ierr = forces_torques_with_control(parts_,
                                            sol,
                                            box,
                                            forces,
                                            torques,
-                                           num_,
+                                           size,
                                            h,
                                            false);CHKERRQ(ierr);
 
-- 
2.43.0


From ba334a0babb251aeabf597b637fd58832defe268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:18 +0000
Subject: [PATCH 18/29] fix: truncation function: chained comparisons,
 derivatives one instead of zero inside

---
 cafes/particle/singularity/truncation.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 67408db..38b9adc 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -108,7 +108,7 @@ namespace cafes
 
      double X2 = X*X;
 
-     if(0<=X2<l-eps)
+     if(X2<l-eps)
        return 1;
      else 
        if(l-eps<=X2 && X2<l+eps)
@@ -124,8 +124,8 @@ namespace cafes
      double X2 = X*X;
      X = sqrt(X2); //on veut la norme
 
-     if(0<=X2<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -X/eps*dalphaTrunc((X2-l)/eps) ;
        return - dalphaTrunc((X2-l)/eps)/eps/2.;
@@ -140,8 +140,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -2*X2/eps/eps*d2alphaTrunc((X2-l)/eps) - dalphaTrunc((X2-l)/eps)/eps;
        return - d2alphaTrunc((X2-l)/eps)/eps/eps/2.;
@@ -156,8 +156,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d3alphaTrunc((X2-l)/eps)/eps/eps/eps/2.;
@@ -171,8 +171,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d4alphaTrunc((X2-l)/eps)/eps/eps/eps/eps/2.;
-- 
2.43.0


From ffe0617ed0682ba52768549ea4652b4104016ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 19/29] fix: planar singular velocity: the part with the
 truncation derivative did not match its gradient, nor the zero divergence

---
 cafes/particle/singularity/UandPNormal.hpp | 42 +++-------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..9c97f38 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -138,44 +138,10 @@ namespace cafes
       double t156 = t155 * t155;
       double t158 = 1. / (H + M) / t156;
       double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      // derivative of the truncation, from the zero divergence
+      double t162 = dchiTrunc(r, l, eps);
+      double t163 = t2 + 2 * z;
+      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + 2 * U * t1 * t163 * t163 * (6 * a + t2 + 3 * t133 - 4 * z) / (t155 * (2 * a + t133 + t2)) * t162;
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From accd1a2c5bca75f4858ca2b4390074ee27e00696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 20/29] fix: fourth derivative of the truncation polynomial

---
 cafes/particle/singularity/truncation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 38b9adc..f2623ef 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -99,7 +99,7 @@ namespace cafes
       X2 = X*X;
       X4 = X2*X2;
 
-      return 15120/128.0*(7*X4-10*X2+3);
+      return 15120/128.0*X*(7*X4-10*X2+3);
     }
 
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps)
-- 
2.43.0


From 7537d0e9eb3375054c14a5a88c56db361d4673be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:23 +0000
Subject: [PATCH 21/29] fix: singular velocity gradient on the axis

---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 9c97f38..6eec76c 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -705,7 +705,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -752,7 +752,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 357f61bb5cdc8f46c4f33e9e5850c4b6e26f35e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 22/29] fix: frame of the singularity in space: relative
 velocity of the second particle, orthogonal base

---
 cafes/particle/singularity/singularity.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..a6db3f4 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,7 +216,7 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
@@ -226,13 +226,13 @@ namespace cafes
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
+          base_[0][2]    =  sign(base_[2][2])*base_[2][0];
         }
         else
         {
-          // Check the formula to have dU - (dU.n)n ?
+          // dU - (dU.n)n
           for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+            base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
         }
 
         auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
-- 
2.43.0


From b7633ab4b2b4d8c763b51e1f394a105d51c2dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 23/29] fix: loop on the couples of particles when there is no
 particle

---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..bb174cb 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -546,7 +546,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -608,7 +608,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -886,7 +886,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -927,7 +927,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -968,7 +968,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1019,7 +1019,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 093d90bd81ca4eeb4cd2190b7f1b5ac835024a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 24/29] fix: the singularity added to the last solution kept
 only what each process computed for its own nodes

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index bb174cb..ee94795 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From 7b2bf99a757b9e6530d4d98cc72ceb62e7d7a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 25/29] fix: singular forces of circles: the loop never ran,
 the second particle used the arc of the first, pressure and force were in the
 wrong frame

---
 .../particle/singularity/add_singularity.hpp  | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index ee94795..ba9d065 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -652,8 +652,10 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            int n = static_cast<int>(N);
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -663,7 +665,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +674,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -690,8 +696,10 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            int n = static_cast<int>(N);
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -701,7 +709,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +718,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -725,21 +737,25 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            int n = static_cast<int>(N);
+            for (int i = -n; i < n; ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ +
+                                      (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +764,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                        force_ref[d1] +=
+                            theta / N / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From c9a1c3ba14e4a960e44e9d010823c0ffef10a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 26/29] fix: singular forces of spheres: the partial sums were
 added up

---
 cafes/particle/singularity/add_singularity.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index ba9d065..c6ca97c 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -824,12 +824,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -883,12 +883,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From 07488b01247c726b41963c13a51968793460f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:44 +0000
Subject: [PATCH 27/29] fix: frame of two spheres that move along their axis:
 the tangent was the rounding error of the velocity

---
 cafes/particle/singularity/singularity.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index a6db3f4..a1a0a42 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -221,21 +221,20 @@ namespace cafes
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
 
-        if (vector_space_[2]*vector_space_[2] == vel_norm)
+        // dU - (dU.n)n
+        for(std::size_t d=0; d<3; ++d)
+          base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
+
+        auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
+        if (norm <= 1e-12*vel_norm)
         {
+          // dU is along n, up to rounding errors: take any direction orthogonal to n
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
           base_[0][2]    =  sign(base_[2][2])*base_[2][0];
+          norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
         }
-        else
-        {
-          // dU - (dU.n)n
-          for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
-        }
-
-        auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
         base_[0] /= std::sqrt(norm);
 
         base_[1] = geometry::cross_product(base_[2], base_[0]);
-- 
2.43.0


From b9e78f149723993425d126d6c9ad5b28466fa41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:25 +0000
Subject: [PATCH 28/29] fix: interpolation on a refined mesh: factors of the
 directions exchanged, several components written for the pressure, points of
 other processes

---
 cafes/posttraitement/interpolation.hpp | 56 +++++++++++++-------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..86271dc 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -80,9 +80,9 @@ namespace cafes
     	DMCompositeGetEntries(dm, &dav, &dap);
       DMClone(dav, &dav_refine);
       DMClone(dap, &dap_refine);
-    	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
+    	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], refine[Dimensions-1]);CHKERRQ(ierr);
       ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);
-      ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
+      ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], refine[Dimensions-1]);CHKERRQ(ierr);
       ierr = DMRefine(dap, PETSC_COMM_WORLD, &dap_refine);
       DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);
       DMCompositeAddDM(dm_refine, dav_refine);
@@ -98,31 +98,35 @@ namespace cafes
       ierr = solp.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
 
       // INTERPOLATION KERNEL
-      auto const kernel = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
+      // each owned point of the refined mesh is interpolated from a cell of the local mesh that holds it
+      auto const kernel = [](const auto& sol, auto& sol_ref, const auto& refine, const auto& h)
       {
-        auto const kernel_pos = [&](auto const &pos)
+        DMDALocalInfo info;
+        DMDAGetLocalInfo(sol.dm_, &info);
+        std::array<int, 3> const gend{{info.gxs + info.gxm, info.gys + info.gym, info.gzs + info.gzm}};
+
+        auto const kernel_pos = [&sol, &sol_ref, &refine, &h, gend](auto const &refpos)
         {
+          geometry::position<int, Dimensions> pos;
+          geometry::position<double, Dimensions> x;
+          for (std::size_t d=0; d<Dimensions; d++)
+          {
+            pos[d] = std::min(refpos[d]/refine[d], gend[d] - 2);
+            x[d] = (refpos[d] - pos[d]*refine[d])*h[d]/refine[d];
+          }
           auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          auto bfunc = fem::P1_integration(x, h);
+          auto uref = sol_ref.at_g(refpos);
+          for (int d=0; d<sol.dof_; d++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            uref[d] = 0;
+          }
+          for (std::size_t k=0; k<bfunc.size(); k++)
+          {
+            auto u = sol.at(ielem[k]);
+            for (int d=0; d<sol.dof_; d++)
             {
-              auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
-              auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-              auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
-              auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
-              {
-                uref[d] = 0;
-              }
-              for (std::size_t k=0; k<bfunc.size(); k++)
-              {
-                auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
-                {
-                  uref[d] += u[d]*bfunc[k];
-                }
-              }
+              uref[d] += u[d]*bfunc[k];
             }
           }
         };
@@ -130,17 +134,13 @@ namespace cafes
       };
 
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav);
+      auto box = fem::get_DM_bounds<Dimensions>(dav_refine, false);
       algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap);
+      auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
-      // LOCAL TO GLOBAL
-      ierr = solv_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-      ierr = solp_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-
       PetscFunctionReturn(0);
     }
 
-- 
2.43.0


From 49827e74ef2af987a89d4289819f121398356e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:01 +0000
Subject: [PATCH 29/29] fix: description of saved fields: order of the
 directions, size of the pressure grid

---
 cafes/io/hdf5.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..bb7b97a 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -40,8 +40,10 @@ namespace cafes
 {
     namespace io
     {
+        // the slowest direction comes first, as in the HDF5 file
         void create_xdmf(const char *path, const char *filename,
-                         DMDALocalInfo const &info,
+                         DMDALocalInfo const &infou,
+                         DMDALocalInfo const &infop,
                          std::array<double, 2> const &h)
         {
             std::stringstream output;
@@ -61,19 +63,19 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << infop.my << " " << infop.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">"
-                   << 2 * h[0] << " " << 2 * h[1] << "</DataItem>\n";
+                   << 2 * h[1] << " " << 2 * h[0] << "</DataItem>\n";
             myfile << "      </Geometry>\n";
             myfile << "      <Attribute Name=\"pressure\" "
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << infop.my << " " << infop.mx << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,19 +84,19 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << infou.my << " " << infou.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">"
-                   << h[0] << " " << h[1] << "</DataItem>\n";
+                   << h[1] << " " << h[0] << "</DataItem>\n";
             myfile << "      </Geometry>\n";
             myfile << "      <Attribute Name=\"velocity\" "
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << infou.my << " " << infou.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -155,7 +157,7 @@ namespace cafes
             MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
             if (rank == 0)
             {
-                create_xdmf(path, filename, infou, h);
+                create_xdmf(path, filename, infou, infop, h);
             }
 
             PetscFunctionReturn(0);
-- 
2.43.0

