From adb5466aade149b6bef92ef7f4e6b945800ff01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 01/30] fix: transpose the u-v block of the flattened strain
 tensor matrix

The flattened matrix is used row by row (rows are test functions): the block
coupling the u test functions with the v trial functions is the transpose of
the one coupling v test functions with u trial functions.
---
 cafes/fem/matElem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matElem.hpp b/cafes/fem/matElem.hpp
index 00f1609..c8afc3b 100644
--- a/cafes/fem/matElem.hpp
+++ b/cafes/fem/matElem.hpp
@@ -392,7 +392,7 @@ auto getMatElemStrainTensorA(std::array<double, 2> const &h)
         {
             MatElem[i + j * 8] =
                 2 * hyx * matElem2d_dxudxu[i][j] + hxy * matElem2d_dyudyu[i][j];
-            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[i][j];
+            MatElem[i + 4 + j * 8] = matElem2d_dxudyu[j][i];
 
             MatElem[i + (j + 4) * 8] = matElem2d_dxudyu[i][j];
             MatElem[i + 4 + (j + 4) * 8] =
-- 
2.43.0


From 6bf6ab3f7b41d683722723b4401615c4625372a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 02/30] fix: check_box_inside tells whether the two boxes share
 a part

---
 cafes/particle/geometry/box.hpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/cafes/particle/geometry/box.hpp b/cafes/particle/geometry/box.hpp
index ac19c58..bf32df0 100644
--- a/cafes/particle/geometry/box.hpp
+++ b/cafes/particle/geometry/box.hpp
@@ -232,14 +232,7 @@ namespace cafes
     bool check_box_inside(box<T, Dimensions> const& b1, box<T, Dimensions> const& b2)
     // check if a part of box b2 is inside the box b1
     {
-      int count = 0;
-      for(std::size_t i=0; i<Dimensions; ++i){
-        if (b2.bottom_left[i] >= b1.bottom_left[i] && b2.bottom_left[i] <= b1.upper_right[i])
-          count++;
-        if (b2.upper_right[i] >= b1.bottom_left[i] && b2.upper_right[i] <= b1.upper_right[i])
-          count++;
-      }
-      return (count>0)?true:false;
+      return intersect(b1, b2);
     }
 
   }
-- 
2.43.0


From fe9c66ced44dc05a89224813c8d2a0a11c4b4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 03/30] fix: signs of the mixed vector and velocity operators

---
 cafes/particle/geometry/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..3668f8b 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -117,7 +117,7 @@ namespace cafes
 
       vector& operator+=(physics::velocity<Dimensions> const& v)
       {
-          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] -= v[i];
+          for(std::size_t i=0;i<Dimensions;++i) (*this)[i] += v[i];
           return *this;
       }
 
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
-- 
2.43.0


From 90963cc6811798c87c756ad502ab057c650d9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 04/30] fix: normalize divides a quaternion by its norm

---
 cafes/particle/geometry/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/quaternion.hpp b/cafes/particle/geometry/quaternion.hpp
index 7d2e35a..7abad25 100644
--- a/cafes/particle/geometry/quaternion.hpp
+++ b/cafes/particle/geometry/quaternion.hpp
@@ -90,7 +90,7 @@ namespace cafes
       void normalize()
       {
         auto norm = std::inner_product(components_.begin(), components_.end(), components_.begin(), 0.);
-        components_ /= norm;
+        components_ /= std::sqrt(norm);
       }
 
       quaternion conj() const
-- 
2.43.0


From d3ed13e674f9e2455604ddac81b072bb3b4f7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 05/30] fix: laplacian_assembling returns an initialised error
 code

---
 cafes/fem/assembling.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..247a235 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -479,7 +479,8 @@ namespace cafes
         PetscErrorCode ierr;
 
         DMDALocalInfo info;
-        DMDAGetLocalInfo(dv, &info);
+        ierr = DMDAGetLocalInfo(dv, &info);
+        CHKERRQ(ierr);
 
         auto box = fem::get_DM_bounds<Dimensions>(dv);
 
-- 
2.43.0


From e566d586f31ebc5c1f6092d1e4947d2238cb08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 06/30] fix: Dirichlet rows of the matrix are numbered in the
 local ghosted box

---
 cafes/fem/bc.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..6ad089e 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,9 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      // the rows are numbered in the local ghosted box
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +227,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +243,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +263,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From b7ef80a5221e9bb25d715aba138527b21925e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 07/30] fix: surface points are put in cells by floor, not by
 truncation

---
 cafes/particle/particle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..9d03372 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -152,7 +152,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(std::make_pair(surf_pi, surf_p[i] - surf_pi*h));
         }
@@ -170,7 +170,7 @@ namespace cafes
     that.reserve(surf_p.size());
 
     for(std::size_t i=0; i<surf_p.size(); ++i){
-        auto surf_pi = static_cast<geometry::position<int, Dimensions>>(surf_p[i]/h);
+        auto surf_pi = geometry::floor(surf_p[i]/h);
         if (cafes::geometry::point_inside(b, surf_pi)){
             that.push_back(surf_p[i] - center);
         }
-- 
2.43.0


From 7e729e1bd0699bda8ecaa0d2f4011ff20178c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 08/30] fix: truncation functions: core test on the squared
 distance, derivatives zero in the core

---
 cafes/particle/singularity/truncation.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cafes/particle/singularity/truncation.hpp b/cafes/particle/singularity/truncation.hpp
index 67408db..f2623ef 100644
--- a/cafes/particle/singularity/truncation.hpp
+++ b/cafes/particle/singularity/truncation.hpp
@@ -99,7 +99,7 @@ namespace cafes
       X2 = X*X;
       X4 = X2*X2;
 
-      return 15120/128.0*(7*X4-10*X2+3);
+      return 15120/128.0*X*(7*X4-10*X2+3);
     }
 
    PetscScalar chiTrunc(PetscReal X, PetscReal l, PetscReal eps)
@@ -108,7 +108,7 @@ namespace cafes
 
      double X2 = X*X;
 
-     if(0<=X2<l-eps)
+     if(X2<l-eps)
        return 1;
      else 
        if(l-eps<=X2 && X2<l+eps)
@@ -124,8 +124,8 @@ namespace cafes
      double X2 = X*X;
      X = sqrt(X2); //on veut la norme
 
-     if(0<=X2<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -X/eps*dalphaTrunc((X2-l)/eps) ;
        return - dalphaTrunc((X2-l)/eps)/eps/2.;
@@ -140,8 +140,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -2*X2/eps/eps*d2alphaTrunc((X2-l)/eps) - dalphaTrunc((X2-l)/eps)/eps;
        return - d2alphaTrunc((X2-l)/eps)/eps/eps/2.;
@@ -156,8 +156,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d3alphaTrunc((X2-l)/eps)/eps/eps/eps/2.;
@@ -171,8 +171,8 @@ namespace cafes
      double X2 = X*X;
      //X = sqrt(X2); //on veut la norme
 
-     if(0<=X<l-eps)
-       return 1;
+     if(X2<l-eps)
+       return 0;
      else if(l-eps<=X2 && X2<l+eps)
        //return -4*X2*X/eps/eps/eps*d3alphaTrunc((X2-l)/eps) - 6*X/eps/eps*d2alphaTrunc((X2-l)/eps);
        return - d4alphaTrunc((X2-l)/eps)/eps/eps/eps/eps/2.;
-- 
2.43.0


From d89f98898fec53b0dcb2ff1dd70cb4f8cc0fe3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 09/30] fix: ux_sing_normalMvt2D matches the stream function in
 the transition of the truncation

---
 cafes/particle/singularity/UandPNormal.hpp | 42 +++-------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..15bb961 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -138,44 +138,10 @@ namespace cafes
       double t156 = t155 * t155;
       double t158 = 1. / (H + M) / t156;
       double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      // truncation of the stream function: 2 U r^2 chi'(r^2) s^2 (3 - 2 s), with s = 0 on the lower surface and 1 on the upper one
+      double t162 = dchiTrunc(r, l, eps);
+      double s = (t2 + 2 * z) / (2 * a + t133 + t2);
+      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + 2 * U * t1 * t162 * s * s * (3 - 2 * s);
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 64793643abe10c519e9ac10aebd926ecb54ced7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 10/30] fix: derivatives of the 3D singular velocities on the
 axis are their limits

---
 cafes/particle/singularity/UandPNormal.hpp | 4 ++--
 cafes/particle/singularity/UandPTang.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 15bb961..e642edc 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -705,7 +705,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dyux_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
@@ -752,7 +752,7 @@ namespace cafes
 	return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[1]*X[1]/r2 
 	  +      ur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param)*X[0]*X[0]/r2/r;
       else
-        return 0;
+        return drur_sing_normalMvt3D(X, H,  M, a, U, l, eps, param);
     }
 
     PetscScalar dzuy_sing_normalMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
diff --git a/cafes/particle/singularity/UandPTang.hpp b/cafes/particle/singularity/UandPTang.hpp
index 08851ea..9477bc9 100644
--- a/cafes/particle/singularity/UandPTang.hpp
+++ b/cafes/particle/singularity/UandPTang.hpp
@@ -1453,7 +1453,7 @@ namespace cafes
         return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[0]/r
           -    dtuz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param)*X[1]/r2;
       else
-        return 0;
+        return druz_sing_tangMvt3D(X, H,  M, d, U, l, eps, param);
     }
 
     PetscScalar dyuz_sing_tangMvt3D(position3d X, PetscReal H, PetscReal M, PetscReal d, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 9acdb4c0c9ec0584b62f814daec7c51e57436138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 11/30] fix: 3D singularity frame is orthonormal

---
 cafes/particle/singularity/singularity.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b3c6929..b488364 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -226,13 +226,13 @@ namespace cafes
           base_[0][0]    = -sign(base_[2][2])*base_[2][2]
                            -sign(base_[2][1])*base_[2][1];
           base_[0][1]    =  sign(base_[2][1])*base_[2][0];
-          base_[0][2]    =  sign(base_[2][2])*base_[0][0];
+          base_[0][2]    =  sign(base_[2][2])*base_[2][0];
         }
         else
         {
-          // Check the formula to have dU - (dU.n)n ?
+          // dU - (dU.n)n
           for(std::size_t d=0; d<3; ++d)
-            base_[0][d] = vel_diff[d]*(1 - base_[2][d]);
+            base_[0][d] = vel_diff[d] - vector_space_[2]*base_[2][d];
         }
 
         auto norm = std::inner_product(base_[0].begin(), base_[0].end(), base_[0].begin(), 0.);
-- 
2.43.0


From 726e781bcab11b130bf8ab5811ac72782ded0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 12/30] fix: 3D singularity uses the velocity of p2 relative to
 p1

---
 cafes/particle/singularity/singularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/singularity/singularity.hpp b/cafes/particle/singularity/singularity.hpp
index b488364..a6db3f4 100644
--- a/cafes/particle/singularity/singularity.hpp
+++ b/cafes/particle/singularity/singularity.hpp
@@ -216,7 +216,7 @@ namespace cafes
       {
         base_[2] = position_diff<Shape, Dimensions>(p2, p1)/distance<Shape, Dimensions>(p1, p2);
 
-        auto vel_diff = velocity_diff<Shape, Dimensions>(p1, p2);
+        auto vel_diff = velocity_diff<Shape, Dimensions>(p2, p1);
         vector_space_[2] = std::inner_product(vel_diff.begin(), vel_diff.end(), base_[2].begin(), 0.);
 
         auto vel_norm = std::inner_product(vel_diff.begin(), vel_diff.end(), vel_diff.begin(), 0.);
-- 
2.43.0


From 420a4d95257f5bf218eeeeaa97983c0a1dd0534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 13/30] fix: interpolation uses each direction's refinement
 factor and the field's own components

---
 cafes/posttraitement/interpolation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..39810cc 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -103,22 +103,22 @@ namespace cafes
         auto const kernel_pos = [&](auto const &pos)
         {
           auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          for(std::size_t j=0; j<refine[1]+1; j++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            for(std::size_t i =0; i<refine[0]+1; i++)
             {
               auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
               auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
               auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
               auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
+              for (int d=0; d<solv.dof_; d++)
               {
                 uref[d] = 0;
               }
               for (std::size_t k=0; k<bfunc.size(); k++)
               {
                 auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
+                for (int d=0; d<solv.dof_; d++)
                 {
                   uref[d] += u[d]*bfunc[k];
                 }
-- 
2.43.0


From b10648a8a1c7661fb85f4b075ae337738ee57db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 14/30] fix: mass matrix uses the pressure spacing on the
 pressure mesh

---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..2e4dc72 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -279,7 +279,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From ff310e086825270a6e6f3860606480cd97c0b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:40 +0000
Subject: [PATCH 15/30] fix: 3D and Laplacian meshes are set up before their
 fields and partition are asked for

---
 cafes/fem/mesh.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..8b8539a 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -252,6 +252,7 @@ namespace cafes
         ierr = DMDACreate2d(PETSC_COMM_WORLD, b_type[0], b_type[1], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
@@ -275,6 +276,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mpres[0], mpres[1], mpres[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &DAPressure);CHKERRQ(ierr);
+        ierr = DMSetUp(DAPressure);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAPressure, 0, "p");CHKERRQ(ierr);
 
         ierr = DMDAGetInfo(DAPressure, NULL, NULL, NULL, NULL, &npx, &npy, &npz, NULL, NULL, NULL, NULL, NULL, NULL);CHKERRQ(ierr);
@@ -290,6 +292,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], npx, npy, npz,
                             3, 1, lxu, lyu, lzu, &DAVelocity);CHKERRQ(ierr);
+        ierr = DMSetUp(DAVelocity);CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 0, "u");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 1, "v");CHKERRQ(ierr);
         ierr = DMDASetFieldName(DAVelocity, 2, "w");CHKERRQ(ierr);
@@ -319,6 +322,7 @@ namespace cafes
         ierr = DMDACreate3d(PETSC_COMM_WORLD, b_type[0], b_type[1], b_type[2], DMDA_STENCIL_BOX,
                             mvel[0], mvel[1], mvel[2], PETSC_DECIDE, PETSC_DECIDE, PETSC_DECIDE,
                             1, 1, 0, 0, 0, &dm);CHKERRQ(ierr);
+        ierr = DMSetUp(dm);CHKERRQ(ierr);
         ierr = DMDASetFieldName(dm, 0, "u");CHKERRQ(ierr);
         PetscFunctionReturn(0);
     }
-- 
2.43.0


From 1a7fc36e0cec1f78c65426a1fb6a2843819e23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 16/30] fix: rigid motion imposed on the surface points is v +
 w x r

---
 cafes/problem/particle_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..785d2ec 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,7 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(r[ipart][i], particles[ipart].angular_velocity_);
         }
         ipart++;
       }
-- 
2.43.0


From 0d937ac6cab7dfa8c76b69ec2f49a4283d20f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 17/30] fix: singular force is added to its own particle

---
 cafes/particle/forces_torques.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..29659f7 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -114,7 +114,7 @@ namespace cafes
         for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
         {
           for(std::size_t d=0; d<Dimensions; ++d)
-            forces[ipart*Dimensions][d] += sing_forces[ipart][d];
+            forces[ipart][d] += sing_forces[ipart][d];
           // TODO: add singular torques if needed
         }
       }
-- 
2.43.0


From b66ae82e816b4b2786f172ba9ffbbde506a244ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 18/30] fix: integrate the 2D singular forces over the whole
 cap (the loop index was unsigned and the loop never ran)

---
 cafes/particle/singularity/add_singularity.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..f55debd 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -653,7 +653,7 @@ namespace cafes
 
             physics::force<2> force{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -691,7 +691,7 @@ namespace cafes
 
             physics::force<2> force{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
@@ -729,7 +729,7 @@ namespace cafes
 
             physics::force<2> force{};
 
-            for (std::size_t i = -N; i < N; ++i)
+            for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
                 double cos_t = std::cos(i * theta / N);
                 double sin_t = std::sin(i * theta / N);
-- 
2.43.0


From 489a232f1ffc6ae1b9810bd983da6c1ec6db6360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 19/30] fix: evaluate the 2D singular stress in the local frame
 and return the force in the global one

---
 .../particle/singularity/add_singularity.hpp  | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index f55debd..cbbbf14 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -652,6 +652,7 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
             for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
@@ -663,7 +664,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -672,9 +673,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -690,6 +695,7 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
             for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
@@ -701,7 +707,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -710,9 +716,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -728,6 +738,7 @@ namespace cafes
             double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
 
             physics::force<2> force{};
+            physics::force<2> force_ref{};
 
             for (int i = -static_cast<int>(N); i < static_cast<int>(N); ++i)
             {
@@ -739,7 +750,7 @@ namespace cafes
                 position_type normal{cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
-                auto psing = sing.get_p_sing(pos);
+                auto psing = sing.get_p_sing_ref(pos);
 
                 sigma[0][0] = 2 * mu * gradUsing[0][0] - psing;
                 sigma[0][1] = mu * (gradUsing[0][1] + gradUsing[1][0]);
@@ -748,9 +759,13 @@ namespace cafes
 
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
-                        force[d1] +=
+                        force_ref[d1] +=
                             theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
             }
+
+            for (std::size_t d1 = 0; d1 < 2; ++d1)
+                for (std::size_t d2 = 0; d2 < 2; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From 0000d0a5022b33a3bf90545d5d1d30aadb7e6f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 20/30] fix: integrate the 2D singular force on the second
 particle over its own cap

---
 cafes/particle/singularity/add_singularity.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index cbbbf14..1038086 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -735,7 +735,7 @@ namespace cafes
             using position_type = geometry::position<double, 2>;
 
             double mu = 1.;
-            double theta = std::asin(sing.cutoff_dist_ * sing.H1_);
+            double theta = std::asin(sing.cutoff_dist_ * sing.H2_);
 
             physics::force<2> force{};
             physics::force<2> force_ref{};
@@ -746,8 +746,10 @@ namespace cafes
                 double sin_t = std::sin(i * theta / N);
                 std::array<std::array<double, 2>, 2> sigma;
 
-                position_type pos{(cos_t - 1.) / sing.H1_, sin_t / sing.H1_};
-                position_type normal{cos_t, sin_t};
+                position_type pos{sing.contact_length_ +
+                                      (1. - cos_t) / sing.H2_,
+                                  sin_t / sing.H2_};
+                position_type normal{-cos_t, sin_t};
 
                 auto gradUsing = sing.get_grad_u_sing_ref(pos);
                 auto psing = sing.get_p_sing_ref(pos);
@@ -760,7 +762,7 @@ namespace cafes
                 for (std::size_t d1 = 0; d1 < 2; ++d1)
                     for (std::size_t d2 = 0; d2 < 2; ++d2)
                         force_ref[d1] +=
-                            theta / N / sing.H1_ * sigma[d1][d2] * normal[d2];
+                            theta / N / sing.H2_ * sigma[d1][d2] * normal[d2];
             }
 
             for (std::size_t d1 = 0; d1 < 2; ++d1)
-- 
2.43.0


From a30fc7e64b8df720af7292c59b1989f21ee0064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 21/30] fix: rotate the 3D singular force once, after the
 quadrature

---
 cafes/particle/singularity/add_singularity.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 1038086..34ae07e 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -821,12 +821,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
@@ -880,12 +880,12 @@ namespace cafes
                     for (std::size_t d1 = 0; d1 < 3; ++d1)
                         for (std::size_t d2 = 0; d2 < 3; ++d2)
                             force_ref[d1] += coef * sigma[d1][d2] * normal[d2];
-
-                    for (std::size_t d1 = 0; d1 < 3; ++d1)
-                        for (std::size_t d2 = 0; d2 < 3; ++d2)
-                            force[d1] += sing.base_[d2][d1] * force_ref[d2];
                 }
             }
+
+            for (std::size_t d1 = 0; d1 < 3; ++d1)
+                for (std::size_t d2 = 0; d2 < 3; ++d2)
+                    force[d1] += sing.base_[d2][d1] * force_ref[d2];
             return force;
         }
 
-- 
2.43.0


From b73c1275f75939318edf69cf65a0d11ff7fd70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 22/30] fix: no pair of particles when there is no particle

---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 34ae07e..51d872d 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -546,7 +546,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -608,7 +608,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -903,7 +903,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -944,7 +944,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -985,7 +985,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1036,7 +1036,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From bcd49a3abebba118cdab12c1e9215e7329b8b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 23/30] fix: singular field is added to the nodes of the
 neighbours too

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 51d872d..c724ab7 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From 86676298e7e900ca6bddbd1153bd86d53fa5b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:48 +0000
Subject: [PATCH 24/30] fix: SEM: clear the right-hand side before the last
 fluid solve

---
 cafes/problem/sem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..afb7e4c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -199,6 +199,7 @@ namespace cafes
 
         // solve the problem with the right control
         ctx->compute_rhs = true;
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
 
-- 
2.43.0


From 02e9efc21227cc14764cd70b61a47a6c571ce9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 25/30] fix: DtoN: no singular source in the operator given to
 the Krylov solver

---
 cafes/problem/dton.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 9ef3cc6..6ab9946 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -322,8 +322,7 @@ namespace cafes
                 {
                     ctx->compute_rhs = false;
                     ctx->add_rigid_motion = false;
-                    // ctx->compute_singularity = false;
-                    ctx->compute_singularity = use_sing;
+                    ctx->compute_singularity = false;
                 }
 
                 ierr = KSPSolve(ksp, rhs, sol);
-- 
2.43.0


From 9204cff27cc114cf7d12eabaccb43d4dd84886b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 26/30] fix: 3D super ellipsoid: contains takes its rotation
 into account

---
 cafes/particle/geometry/super_ellipsoid.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index e9adf10..2230ce1 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -329,12 +329,16 @@ namespace cafes
            auto r2 = e_/n_;
            auto r3 = 2./e_;
 
-           return std::pow( std::pow( std::abs((p[0]-center_[0])/shape_factors_[0]), r3)
-                          + std::pow( std::abs((p[1]-center_[1])/shape_factors_[1]), r3)
+           position_type pos = p-center_;
+           if (q_.is_rotate())
+            pos = q_.conj().rotate(pos);
+
+           return std::pow( std::pow( std::abs(pos[0]/shape_factors_[0]), r3)
+                          + std::pow( std::abs(pos[1]/shape_factors_[1]), r3)
                           , r2
                           )
 
-                + std::pow( std::abs((p[2]-center_[2])/shape_factors_[2]), r1);
+                + std::pow( std::abs(pos[2]/shape_factors_[2]), r1);
         }
 
         static double c(double w, double m)
-- 
2.43.0


From 9c6bed1f8809eb5dadcf74ab24fa9e3c29e7c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 27/30] fix: 3D super-ellipsoid surface used the exponents in
 the wrong order

---
 cafes/particle/geometry/super_ellipsoid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 2230ce1..f4cea5c 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -218,8 +218,8 @@ namespace cafes
         {
             std::vector<position_type> that;
             double omega1 = 0., omega2 = 0.;
-            double eps1 = n_;
-            double eps2 = e_;
+            double eps1 = e_;
+            double eps2 = n_;
 
             while (omega1 < M_PI/4){
               auto z1 = shape_factors_[2]*std::pow(std::sin(omega1), eps2);
-- 
2.43.0


From 2b45e11ecb1e31199f9ea8d15282923fa4fb0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 28/30] fix: 3D surface mirrored its points while iterating
 over the growing vector

---
 cafes/particle/geometry/super_ellipsoid.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index f4cea5c..974e0df 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -240,7 +240,10 @@ namespace cafes
               that.insert(that.end(), temp2.cbegin(), temp2.cend());
 
             }
-            std::for_each(that.begin(), that.end(),[&](auto& p){that.push_back({p[0], p[1], -p[2]});});
+            auto size = that.size();
+            that.reserve(2*size);
+            for(std::size_t i = 0; i<size; ++i)
+              that.push_back({that[i][0], that[i][1], -that[i][2]});
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
-- 
2.43.0


From dcd79767d91cd5b0e2d062a92b788d14ab5a13a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 29/30] fix: 3D surface ignored the rotation of the shape

---
 cafes/particle/geometry/super_ellipsoid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cafes/particle/geometry/super_ellipsoid.hpp b/cafes/particle/geometry/super_ellipsoid.hpp
index 974e0df..eb51e65 100644
--- a/cafes/particle/geometry/super_ellipsoid.hpp
+++ b/cafes/particle/geometry/super_ellipsoid.hpp
@@ -244,6 +244,9 @@ namespace cafes
             that.reserve(2*size);
             for(std::size_t i = 0; i<size; ++i)
               that.push_back({that[i][0], that[i][1], -that[i][2]});
+            if (q_.is_rotate()){
+              std::for_each(that.begin(), that.end(),[&](auto& p){ p = q_.rotate(p);});
+            }
             std::for_each(that.begin(), that.end(),[&](auto& p){p[0] += center_[0];p[1] += center_[1];p[2] += center_[2];});
             return that;
         }
-- 
2.43.0


From ff16c240ac83408b0633cc461325bafb78758dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:37 +0000
Subject: [PATCH 30/30] fix: multigrid level found from the number of
 coarsenings, not from the square root of the number of unknowns

---
 cafes/problem/stokes.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..61205d4 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,18 +60,13 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
-            int level = 0;
-            // find the level in MG
-            while(nx_0 != nx)
-            {
-                level++;
-                nx_0 = (nx_0+1)/Dim;
-            }
+            // the level in MG is the number of times the fine mesh has been coarsened
+            int level, level_0;
+            ierr = DMGetCoarsenLevel(dm, &level);CHKERRQ(ierr);
+            ierr = DMGetCoarsenLevel(ctx_->dm, &level_0);CHKERRQ(ierr);
+            level -= level_0;
 
             auto mg_h = ctx_->h;
             std::for_each(mg_h.begin(), mg_h.end(), [&](auto &x) {x *= (1 << level);});
-- 
2.43.0

