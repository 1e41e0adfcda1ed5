From 09849020a57eff29f7aa1f111a904f1e5d3fa23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 01/27] fix: return the minimum of a 3-vector when its two
 smallest components are equal

---
 src/cpu/vec3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index b9a67b5..00626e1 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -76,8 +76,8 @@ const double GALS::CPU::Vec3<T>::mag() const
 template <typename T>
 const T GALS::CPU::Vec3<T>::min() const
 {
-  if (m_data[0] < m_data[1] && m_data[0] < m_data[2]) return m_data[0];
-  if (m_data[1] < m_data[0] && m_data[1] < m_data[2]) return m_data[1];
+  if (m_data[0] <= m_data[1] && m_data[0] <= m_data[2]) return m_data[0];
+  if (m_data[1] <= m_data[0] && m_data[1] <= m_data[2]) return m_data[1];
   return m_data[2];
 }
 
-- 
2.43.0


From 97bd70f3e03e8907122505994f22f76e8a749a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 02/27] fix: place grid nodes correctly for every padding, not
 only for padding 1

---
 src/cpu/grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index 00a7f95..b0a0ca5 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -188,7 +188,7 @@ void GALS::CPU::Grid<T, DIM>::generate(T x_min, T x_max, T y_min, T y_max, T z_m
 
   for (int i = 0; i < DIM; ++i) m_one_over_dx[i] = static_cast<T>(1.) / m_dx[i];
 
-  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_mask[i]);
+  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_pad * m_mask[i]);
 
   Vec3<T> elem;
 
-- 
2.43.0


From bd5ff0571f8ac5bc597cfe16636899836fcf161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 03/27] fix: difference a vector field along the derivative
 direction in its gradient

---
 src/cpu/gradient/second-order-central.cc | 4 ++--
 src/cpu/gradient/third-order.cc          | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/gradient/second-order-central.cc b/src/cpu/gradient/second-order-central.cc
index da69738..ca00650 100644
--- a/src/cpu/gradient/second-order-central.cc
+++ b/src/cpu/gradient/second-order-central.cc
@@ -81,8 +81,8 @@ void GALS::CPU::SecondOrderCentral<T, T_GRID>::compute(const Array<T_GRID, Vec3<
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] -
-                 alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis]) *
+                (alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] -
+                 alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx * static_cast<T>(0.5);
           }
         }
diff --git a/src/cpu/gradient/third-order.cc b/src/cpu/gradient/third-order.cc
index be3f517..005fd2d 100644
--- a/src/cpu/gradient/third-order.cc
+++ b/src/cpu/gradient/third-order.cc
@@ -81,11 +81,11 @@ void GALS::CPU::ThirdOrder<T, T_GRID>::compute(const Array<T_GRID, Vec3<T>> &alp
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / (6 * dx[cmpt]);
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (2 * alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] +
+                (2 * alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] +
                  3 * alpha(i, j, k)[axis] -
-                 6 * alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis] +
-                 1 * alpha(i - 2 * axis_vectors(axis, 0), j - 2 * axis_vectors(axis, 1),
-                           k - 2 * axis_vectors(axis, 2))[axis]) *
+                 6 * alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis] +
+                 1 * alpha(i - 2 * axis_vectors(cmpt, 0), j - 2 * axis_vectors(cmpt, 1),
+                           k - 2 * axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx;
           }
         }
-- 
2.43.0


From fc5b08bb4b8d0d3f8bebe466b09a0b15c8e19b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 04/27] fix: rotate the circular velocity field about its
 centre

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7bf653e..c6ac50f 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From 993fb11e5d08bfbdf03ef640d755039c5beb8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:28 +0000
Subject: [PATCH 05/27] fix: write the analytical velocity gradient at every
 node

---
 src/cpu/analytical-fields/velocity.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index c6ac50f..4a058dd 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -85,10 +85,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient[cmpt][derv] = static_cast<T>(0);
-                  if (cmpt == 0 && derv == 1) velocity_gradient[cmpt][derv] = -coeff;
-                  if (cmpt == 1 && derv == 0) velocity_gradient[cmpt][derv] = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient[cmpt][derv] = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
+                  if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
+                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 519b83bc5683e5eacc081c66f81352bd27a2f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 06/27] fix: pad the advection grid for its third order
 gradient

---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ddbe361..661fb54 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -78,6 +78,7 @@ int main(int argc, char **argv)
   // Construct grid.
   const auto &grid_inputs = *(input_fields.m_grid);
   T_GRID grid(grid_inputs.nx, grid_inputs.ny, grid_inputs.nz);
+  grid.setPadding(2);  // Third order gradient reads two cells upwind.
   grid.generate(grid_inputs.x_min, grid_inputs.x_max, grid_inputs.y_min, grid_inputs.y_max, grid_inputs.z_min,
                 grid_inputs.z_max);
 
-- 
2.43.0


From 50ac0d5e9f7ca7371eda3fba797a1e06f4650a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 07/27] fix: start the advection run at the requested start
 time

---
 applications/advection/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 661fb54..6aeef9d 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -129,7 +129,7 @@ int main(int argc, char **argv)
   T t_end = time_inputs.end;
   T dt = time_inputs.dt;
   bool is_dt_fixed = std::strcmp(time_inputs.constant_dt.c_str(), "NO");
-  T sim_time = static_cast<T>(0);
+  T sim_time = t_start;
 
   if (!is_dt_fixed) {
     dt = grid.dX().min() * static_cast<T>(0.5);
-- 
2.43.0


From 4f9949e7747659a76923607f12a0ec7a7e7e0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:17 +0000
Subject: [PATCH 08/27] fix: take the automatic time step of the 2D advection
 from its two axes

---
 applications/advection/main.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 6aeef9d..268ac0f 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 ///////////////////////////////////////////////////////////////////////////////
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 
@@ -132,7 +133,7 @@ int main(int argc, char **argv)
   T sim_time = t_start;
 
   if (!is_dt_fixed) {
-    dt = grid.dX().min() * static_cast<T>(0.5);
+    dt = std::min(grid.dX()[0], grid.dX()[1]) * static_cast<T>(0.5);
   }
 
   // Time loop
-- 
2.43.0


From fe22b95ee75ad71a89f2be3350e80663aaf40bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:17 +0000
Subject: [PATCH 09/27] hook: record the advection run when GALS_VERIF_TRACE is
 defined

---
 applications/advection/main.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 268ac0f..96cc3e7 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -43,6 +43,10 @@
 #include "gals/utilities/grid.h"
 #include "gals/utilities/vec3.h"
 
+#ifdef GALS_VERIF_TRACE
+#include "gals-verif-trace.h"
+#endif
+
 int main(int argc, char **argv)
 {
   std::cout << "Inside applications/advection" << std::endl;
@@ -136,6 +140,10 @@ int main(int argc, char **argv)
     dt = std::min(grid.dX()[0], grid.dX()[1]) * static_cast<T>(0.5);
   }
 
+#ifdef GALS_VERIF_TRACE
+  GALS_VERIF::started(grid, levelset, levelset_velocity);
+#endif
+
   // Time loop
   bool run_sim = true;
   while (run_sim) {
@@ -157,6 +165,10 @@ int main(int argc, char **argv)
     GALS::CPU::Temporal<T, T_GRID, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<T, T_GRID>>::compute(
         dt, levelset_velocity, levelset);
 
+#ifdef GALS_VERIF_TRACE
+    GALS_VERIF::stepped(grid, levelset, levelset_velocity, sim_time, dt);
+#endif
+
     if (GALS::is_equal(sim_time, t_end) || sim_time > t_end) run_sim = false;
   }
 
-- 
2.43.0


From 3f21669e4448e3d9d3f0f757cc111a92f383c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:40 +0000
Subject: [PATCH 10/27] fix: include the header of std::strcmp in the advection
 application

---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 96cc3e7..90e9ecd 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -30,6 +30,7 @@
 ///////////////////////////////////////////////////////////////////////////////
 
 #include <algorithm>
+#include <cstring>
 #include <iostream>
 #include <string>
 
-- 
2.43.0


From f796ad87bea4a8c268d8a08e2e608331a669b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:34 +0000
Subject: [PATCH 11/27] fix: createDirectory reports success only if there is a
 directory

It answered true when a plain file of that name was in the way.
---
 src/cpu/file-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/file-utils.cc b/src/cpu/file-utils.cc
index 0ae2b87..60511d3 100644
--- a/src/cpu/file-utils.cc
+++ b/src/cpu/file-utils.cc
@@ -70,7 +70,7 @@ bool GALS::UTILITIES::FileUtils::createDirectory(const std::string dir_name) con
     return fs::create_directories(dir_path);
   }
 
-  return true;
+  return dir_path.is_directory();
 }
 
 bool GALS::UTILITIES::FileUtils::removeDirectory(const std::string dir_name) const
-- 
2.43.0


From 2f1edd3f2b898c3feeaaa5578a4586e024526606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:38 +0000
Subject: [PATCH 12/27] fix: trace back every node in the serial reference
 solver, the last row and column included

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index c799590..7a8b04b 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index c799590..7a8b04b 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
-- 
2.43.0


From 6903b5cb5423fb2cf6a7d71061d85146b452e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:38 +0000
Subject: [PATCH 13/27] fix: give every thread its own temporaries for the
 mixed derivatives in the reference solvers

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index 7a8b04b..c0947af 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -377,13 +377,13 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
+        double dxy1, dxy2;
+        double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
         if ((k == 0 || k == ny - 1) && (l != 0 && l != nx - 1)){
             temppsixy[k][l] = (temppsiy[k][l+1] - temppsiy[k][l-1])/(2 * dx);
         }
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index 7a8b04b..c0947af 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -377,13 +377,13 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
+        double dxy1, dxy2;
+        double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
         if ((k == 0 || k == ny - 1) && (l != 0 && l != nx - 1)){
             temppsixy[k][l] = (temppsiy[k][l+1] - temppsiy[k][l-1])/(2 * dx);
         }
-- 
2.43.0


From 112bc35f2faaade10ddf507e08da62ba5c5424d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:38 +0000
Subject: [PATCH 14/27] fix: send the advection points between the ranks as
 doubles

---
 src/reference/GALS_Advection_MPI.cpp        | 20 ++++++++++----------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index f0c07ab..59d95e9 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -146,8 +146,8 @@ int main(int argc, char **argv){
             advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
             
             // receive the data from node-2
-            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -169,9 +169,9 @@ int main(int argc, char **argv){
             find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
             
             // receive the data from node-2
-            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -235,8 +235,8 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
             
             
@@ -256,9 +256,9 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
         }  	    // end of node-2
     } // end of time marching loop
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 998a589..f8d6fde 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -150,8 +150,8 @@ int main(int argc, char **argv){
         advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
 
 	// receive the data from node-2
-	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -175,9 +175,9 @@ int main(int argc, char **argv){
 	find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
 
 	// receive the data from node-2
-	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -252,8 +252,8 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 
 	// end of fct-1
         //---------------------------------------------------------------------------
@@ -279,9 +279,9 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-	MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 	// end of fct-2
 	// ---------------------------------------------------------------------------	
 
-- 
2.43.0


From ae8e25c61959f06e7e0932ede1eae1660ec100e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:10 +0000
Subject: [PATCH 15/27] fix: let only rank 0 of the MPI reference solvers write
 the output files

---
 src/reference/GALS_Advection_MPI.cpp        | 30 ++++++++++++---------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index 59d95e9..1e332cb 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -77,15 +77,17 @@ int main(int argc, char **argv){
     gridarray tempphi(mphi), temppsix(mpsix), temppsiy(mpsiy), temppsixy(mpsixy);	// Making level set matrix copies for time loop use
     
     
-    // Removing existing files with these names if any
-    remove("phi.txt");
-    remove("psix.txt");
-    remove("psiy.txt");
-    remove("psixy.txt");
-    remove("details.txt");
-    remove("Velocity_x.txt");
-    remove("Velocity_y.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    if(ctx.rank() == 0){    // only one rank writes the files
+        // Removing existing files with these names if any
+        remove("phi.txt");
+        remove("psix.txt");
+        remove("psiy.txt");
+        remove("psixy.txt");
+        remove("details.txt");
+        remove("Velocity_x.txt");
+        remove("Velocity_y.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
     
     /*
      * Let the following represent one cell
@@ -103,10 +105,12 @@ int main(int argc, char **argv){
      *
      */
     
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
     
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index f8d6fde..b9bd4d3 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -90,10 +90,12 @@ int main(int argc, char **argv){
     gridarray tempphi(mphi), temppsix(mpsix), temppsiy(mpsiy), temppsixy(mpsixy);	// Making level set matrix copies for time loop use
 
 
-    // Removing existing files with these names if any
-    remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
-    remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    if(ctx.rank() == 0){    // only one rank writes the files
+        // Removing existing files with these names if any
+        remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
+        remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
 
     /*
      * Let the following represent one cell
@@ -111,10 +113,12 @@ int main(int argc, char **argv){
      *
      */
 
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
 
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
-- 
2.43.0


From d49feb5c289f0cf891bf6ab8fc67b3069e3dda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:10 +0000
Subject: [PATCH 16/27] fix: use the predicted gradient for both components in
 Heun's method of the reference solvers

---
 src/reference/CUDA/TimeSteppingMethodsCUDA.cu  | 8 ++++----
 src/reference/SerialCode/TimeSteppingMethods.h | 8 ++++----
 src/reference/TimeSteppingMethods.h            | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/reference/CUDA/TimeSteppingMethodsCUDA.cu b/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
index ee31c43..5125ee5 100755
--- a/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
+++ b/src/reference/CUDA/TimeSteppingMethodsCUDA.cu
@@ -17,12 +17,12 @@ __device__ void Heuns_internal(double xnode, double ynode, double xadv, double y
     double gradvyroot = gradVy(xadv, yadv, t * dt, T_period);
     
     // Heun's RK-2 method - first step - for x & y
-    temppsix[indexToWrite] = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
-    temppsiy[indexToWrite] = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
+    double predpsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
+    double predpsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
     
     // Heun's RK-2 method - second step - for x & y
-    temppsix[indexToWrite] = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix[indexToWrite] + gradvxnode * temppsiy[indexToWrite]);
-    temppsiy[indexToWrite] = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix[indexToWrite] + gradvynode * temppsiy[indexToWrite]);
+    temppsix[indexToWrite] = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * predpsix + gradvxnode * predpsiy);
+    temppsiy[indexToWrite] = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * predpsiy);
 }
 
 __device__ double Heuns_X(double xnode, double ynode, double rootpsix, double rootpsiy, double temppsixy, double temppsix,
diff --git a/src/reference/SerialCode/TimeSteppingMethods.h b/src/reference/SerialCode/TimeSteppingMethods.h
index e82d5da..0827e75 100755
--- a/src/reference/SerialCode/TimeSteppingMethods.h
+++ b/src/reference/SerialCode/TimeSteppingMethods.h
@@ -19,12 +19,12 @@ namespace galsfunctions
         double gradvyroot = gradVy(xadv, yadv, t * dt, T_period);
         
         // Heun's RK-2 method - first step - for x & y
-        double temppsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
-        double temppsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
+        double predpsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
+        double predpsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
         
         // Heun's RK-2 method - second step - for x & y
-        temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix + gradvxnode * temppsiy);
-        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix + gradvynode * temppsiy);
+        double temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * predpsix + gradvxnode * predpsiy);
+        double temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * predpsiy);
         return std::make_tuple(temppsix,temppsiy);
     }
     
diff --git a/src/reference/TimeSteppingMethods.h b/src/reference/TimeSteppingMethods.h
index e82d5da..0827e75 100755
--- a/src/reference/TimeSteppingMethods.h
+++ b/src/reference/TimeSteppingMethods.h
@@ -19,12 +19,12 @@ namespace galsfunctions
         double gradvyroot = gradVy(xadv, yadv, t * dt, T_period);
         
         // Heun's RK-2 method - first step - for x & y
-        double temppsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
-        double temppsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
+        double predpsix = rootpsix - dt * (graduxroot * rootpsix + gradvxroot * rootpsiy);
+        double predpsiy = rootpsiy - dt * (graduyroot * rootpsix + gradvyroot * rootpsiy);
         
         // Heun's RK-2 method - second step - for x & y
-        temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * temppsix + gradvxnode * temppsiy);
-        temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * temppsix + gradvynode * temppsiy);
+        double temppsix = rootpsix - 0.5 * dt * (graduxroot * rootpsix + gradvxroot * rootpsiy + graduxnode * predpsix + gradvxnode * predpsiy);
+        double temppsiy = rootpsiy - 0.5 * dt * (graduyroot * rootpsix + gradvyroot * rootpsiy + graduynode * predpsix + gradvynode * predpsiy);
         return std::make_tuple(temppsix,temppsiy);
     }
     
-- 
2.43.0


From 9bc2e0db49c47b2c8e2d3acf91620ffe07fd2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:10 +0000
Subject: [PATCH 17/27] fix: difference along y at the upper left corner of the
 CUDA reference solver

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index a5659b8..d76835f 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -234,7 +234,7 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
                 else if(index_y == ny-1 && index_x == 0){
                     double d1 = (temppsiy[nx *(ny-2) + 1] - temppsiy[nx *(ny-2)])/dx;
                     double d2 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2)])/dy;
-                    double d3 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2) + 1])/dy;
+                    double d3 = (temppsix[nx *(ny-1) + 1] - temppsix[nx *(ny-2) + 1])/dy;
                     double d4 = (temppsiy[nx *(ny-1) + 1] - temppsiy[nx *(ny-1)])/dx;
                     temppsixy[indexToWrite] = 0.75 * (d2 + d4) - 0.25 * (d3 + d1);
                     
-- 
2.43.0


From 51e3fde084a370ea077563b750c9ea92d1bc0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:10 +0000
Subject: [PATCH 18/27] fix: set the cell of a root outside both axes in the
 CUDA reference solver

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index d76835f..e40ca56 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -113,7 +113,11 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
             }
             else
                 if(xoutofbounds && youtofbounds)
+                {
                     tracker[indexToWrite] = 4;
+                    cellx[indexToWrite] = 0;
+                    celly[indexToWrite] = 0;
+                }
 }
 
 __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int *cellx,
-- 
2.43.0


From e6e8dcc50d622a83f75ba248ed1d96e65774a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:10 +0000
Subject: [PATCH 19/27] fix: copy the whole gradient and mixed derivative back
 in the CUDA reference solver

---
 src/reference/CUDA/GALS_Advection.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index e9571d5..7187180 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -196,12 +196,12 @@ int main(){
             cudaEventRecord(startEvent,0);
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
-            cudaMemcpy(mpsiy, masterdpsiy, gridmemoryint, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsixy, dpsixy, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
             t_transfer += tempt;
-            //cudaMemcpy(mpsixy, masterdpsixy, gridmemoryint, cudaMemcpyDeviceToHost);  // Writing back to host memory
             fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,(t+1)*dt,T_period);
         }
         cout<< t+1;
-- 
2.43.0


From ddd6a913369055330abcf447e174f130146f5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:01 +0000
Subject: [PATCH 20/27] fix: take the cell sizes from the first two nodes in
 the reference solvers, grids of two nodes have no third

---
 src/reference/AdvectionPointCalcs.h            | 8 ++++----
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu  | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index c0947af..9724ff6 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -239,9 +239,9 @@ namespace galsfunctions
             gridarray &mphi, gridarray &mpsix, gridarray &mpsiy, gridarray &mpsixy, char psischeme[],
             char backtrace_scheme[], unsigned int ny_Node_min, unsigned int ny_Node_max, double T_period){
 
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
 
         for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
             for(unsigned int j = ny_Node_min; j < ny_Node_max; j++){  // loop for x - columns in the array
@@ -308,9 +308,9 @@ namespace galsfunctions
             char backtrace_scheme[], double T_period){
 
         unsigned int nx = x.size();
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
         # pragma omp parallel
         {
         # pragma omp for schedule(static) collapse(2)    
diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index e40ca56..9dba909 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -136,8 +136,8 @@ __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, do
     
     unsigned int indexToWrite = index_y * nx + index_x;
     
-    double dx = x[2] - x[1];
-    double dy = y[2] - y[1];
+    double dx = x[1] - x[0];
+    double dy = y[1] - y[0];
     
     double phi[4], psix[4], psiy[4], psixy[4];
     
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index c0947af..9724ff6 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -239,9 +239,9 @@ namespace galsfunctions
             gridarray &mphi, gridarray &mpsix, gridarray &mpsiy, gridarray &mpsixy, char psischeme[],
             char backtrace_scheme[], unsigned int ny_Node_min, unsigned int ny_Node_max, double T_period){
 
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
 
         for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
             for(unsigned int j = ny_Node_min; j < ny_Node_max; j++){  // loop for x - columns in the array
@@ -308,9 +308,9 @@ namespace galsfunctions
             char backtrace_scheme[], double T_period){
 
         unsigned int nx = x.size();
-        double dx = x[2] - x[1];
+        double dx = x[1] - x[0];
         unsigned int ny = y.size();
-        double dy = y[2] - y[1];
+        double dy = y[1] - y[0];
         # pragma omp parallel
         {
         # pragma omp for schedule(static) collapse(2)    
-- 
2.43.0


From 85b187fa694dbab3a72e7d580fb067445dfc035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:43 +0000
Subject: [PATCH 21/27] fix: keep the halves of the MPI reference solvers
 within their buffers when the number of columns is odd

---
 src/reference/GALS_Advection_MPI.cpp        | 2 +-
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index 1e332cb..c2ab287 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -130,7 +130,7 @@ int main(int argc, char **argv){
         
         // initialize the memory contiguous matrices
         double **A1, **B1, **A3, **B3, **C3;
-        unsigned int nnx = nx/n_Nodes;
+        unsigned int nnx = (nx + n_Nodes - 1)/n_Nodes;   // the first node takes the odd column
         
         A1 = alloc_2d_int(nnx,ny);
         B1 = alloc_2d_int(nnx,ny);
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index b9bd4d3..983ccbf 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -139,7 +139,7 @@ int main(int argc, char **argv){
 
 	// initialize the memory contiguous matrices
 	double **A1, **B1, **A3, **B3, **C3;
-	unsigned int nnx = nx/n_Nodes;
+	unsigned int nnx = (nx + n_Nodes - 1)/n_Nodes;   // the first node takes the odd column
 
 	A1 = alloc_2d_int(nnx,ny);      B1 = alloc_2d_int(nnx,ny);
 	A3 = alloc_2d_int(nnx,ny);	B3 = alloc_2d_int(nnx,ny);   	C3 = alloc_2d_int(nnx,ny);
-- 
2.43.0


From 64fc341e3db60e2a59453ce235ea82484b395bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:41 +0000
Subject: [PATCH 22/27] fix: look the names of analytical fields up without
 adding them to the shared tables

---
 src/cpu/analytical-fields/levelset.cc | 4 +++-
 src/cpu/analytical-fields/velocity.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/levelset.cc b/src/cpu/analytical-fields/levelset.cc
index 03d006d..880191a 100644
--- a/src/cpu/analytical-fields/levelset.cc
+++ b/src/cpu/analytical-fields/levelset.cc
@@ -50,7 +50,9 @@ void GALS::ANALYTICAL_FIELDS::Levelset<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& levelset_name = m_inputs.name;
 
-  switch (levelset_name_map[levelset_name]) {
+  const auto field = levelset_name_map.find(levelset_name);
+
+  switch (field == levelset_name_map.end() ? LevelsetFieldNames::NOT_DEFINED : field->second) {
     case LevelsetFieldNames::CIRCLE: {
       auto& phi = levelset.phi();
 
diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 4a058dd..2c68dc2 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -54,7 +54,9 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& velocity_name = m_inputs.name;
 
-  switch (velocity_name_map[velocity_name]) {
+  const auto field = velocity_name_map.find(velocity_name);
+
+  switch (field == velocity_name_map.end() ? VelocityFieldNames::NOT_DEFINED : field->second) {
     case VelocityFieldNames::CIRCULAR: {
       auto& velocity = levelset_velocity.velocity();
 
-- 
2.43.0


From fca54552d5ae12c7f9ed7c577b56d47b97cf2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:30 +0000
Subject: [PATCH 23/27] fix: refuse only what cannot be done: the production
 GALS_ABORT and GALS_FUNCTION_NOT_IMPLEMENTED ended the process
 unconditionally after an if

---
 include/gals/utilities/utilities.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/gals/utilities/utilities.h b/include/gals/utilities/utilities.h
index 3261c35..bf77167 100644
--- a/include/gals/utilities/utilities.h
+++ b/include/gals/utilities/utilities.h
@@ -37,17 +37,21 @@
 namespace GALS
 {
 #ifndef BUILD_TESTS
-#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                        \
-  std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
-  exit(0);
+#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                          \
+  {                                                                 \
+    std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
+    exit(0);                                                        \
+  }
 #else
 #define GALS_FUNCTION_NOT_IMPLEMENTED(var) std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl;
 #endif
 
 #ifndef BUILD_TESTS
-#define GALS_ABORT(var)                        \
-  std::cout << "ERROR: " << #var << std::endl; \
-  exit(0);
+#define GALS_ABORT(var)                          \
+  {                                              \
+    std::cout << "ERROR: " << #var << std::endl; \
+    exit(0);                                     \
+  }
 #else
 #define GALS_ABORT(var) std::cout << "ERROR: " << #var << std::endl;
 #endif
-- 
2.43.0


From 3626ecff747a2c7eb18da7a16b9b88f42d361b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:32 +0000
Subject: [PATCH 24/27] fix: refuse an input file with fewer than three numbers
 of cells instead of reading beyond the list

---
 src/cpu/input-parser/grid.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/input-parser/grid.cc b/src/cpu/input-parser/grid.cc
index 39041ca..9b58de1 100644
--- a/src/cpu/input-parser/grid.cc
+++ b/src/cpu/input-parser/grid.cc
@@ -51,9 +51,9 @@ void GALS::INPUT_PARSER::Grid::parse(const YAML::Node &field, GALS::INPUT_FIELDS
   input_fields.m_grid->z_max = field["box"]["z_max"].as<double>();
 
   // Number of cells.
-  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>()[0];
-  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>()[1];
-  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>()[2];
+  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>().at(0);
+  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>().at(1);
+  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>().at(2);
 }
 
 void GALS::INPUT_PARSER::Grid::operator()(const YAML::Node &field, GALS::INPUT_FIELDS::InputFields *p_input_fields)
-- 
2.43.0


From 0a8cc777e6f3e8b5b6b6b53efa9c21fb18c3fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 25/27] fix: refuse a rotation about a centre with fewer than
 two coordinates instead of reading beyond the list

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 2c68dc2..1f9e049 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -71,8 +71,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center.at(cmpt + 1) - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center.at(cmpt - 1));
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From 9e375d6ad21094cc4ef0994dcc4fcbd98cc460ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:29 +0000
Subject: [PATCH 26/27] fix: compute the magnitude of an integer vector without
 overflow

---
 src/cpu/vec3.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index 00626e1..3d9d3da 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -70,7 +70,9 @@ const int GALS::CPU::Vec3<T>::size() const
 template <typename T>
 const double GALS::CPU::Vec3<T>::mag() const
 {
-  return sqrt(m_data[0] * m_data[0] + m_data[1] * m_data[1] + m_data[2] * m_data[2]);
+  const double x = m_data[0], y = m_data[1], z = m_data[2];
+
+  return sqrt(x * x + y * y + z * z);
 }
 
 template <typename T>
-- 
2.43.0


From 6689e15de2c85d3b83e2cf6a0ffd62403c5c1803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:59 +0000
Subject: [PATCH 27/27] fix: interpolate in the node's own cell where its
 characteristic leaves the domain along the other axis

---
 src/reference/AdvectionPointCalcs.h            | 16 ++++++++--------
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu  |  8 ++++----
 src/reference/SerialCode/AdvectionPointCalcs.h | 16 ++++++++--------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index 9724ff6..a418bd3 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -126,14 +126,14 @@ namespace galsfunctions
                         {
                             locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
-                            celly[i][j] = 0;
+                            celly[i][j] = std::min(i, ny-2);
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
                                 locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
-                                celly[i][j] = ny-2;
+                                celly[i][j] = std::min(i, ny-2);
                             }
                     }
                     else
@@ -144,14 +144,14 @@ namespace galsfunctions
                             {
                                 locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
-                                cellx[i][j] = 0;
+                                cellx[i][j] = std::min(j, nx-2);
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
                                     locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
-                                    cellx[i][j] = nx-2;
+                                    cellx[i][j] = std::min(j, nx-2);
                                 }
                         }
                         else
@@ -197,14 +197,14 @@ namespace galsfunctions
                         {
                             locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
-                            celly[i][j] = 0;
+                            celly[i][j] = std::min(i, ny-2);
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
                                 locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
-                                celly[i][j] = ny-2;
+                                celly[i][j] = std::min(i, ny-2);
                             }
                     }
                     else
@@ -215,14 +215,14 @@ namespace galsfunctions
                             {
                                 locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
-                                cellx[i][j] = 0;
+                                cellx[i][j] = std::min(j, nx-2);
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
                                     locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
-                                    cellx[i][j] = nx-2;
+                                    cellx[i][j] = std::min(j, nx-2);
                                 }
                         }
                         else
diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index 9dba909..88df5c3 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -95,10 +95,10 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
             tracker[indexToWrite] = 2;
             cellx[indexToWrite] = locationAlgo(x,xadv[indexToWrite],nx);
             if(yadv[indexToWrite] <= ylim1)
-                celly[indexToWrite] = 0;
+                celly[indexToWrite] = index_y < ny-2 ? index_y : ny-2;
             else
                 if(yadv[indexToWrite] >= ylim2)
-                    celly[indexToWrite] = ny-2;
+                    celly[indexToWrite] = index_y < ny-2 ? index_y : ny-2;
         }
         else
             if(xoutofbounds && !youtofbounds)
@@ -106,10 +106,10 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
                 tracker[indexToWrite] = 3;
                 celly[indexToWrite] = locationAlgo(y,yadv[indexToWrite],ny);
                 if(xadv[indexToWrite] <= xlim1)
-                    cellx[indexToWrite] = 0;
+                    cellx[indexToWrite] = index_x < nx-2 ? index_x : nx-2;
                 else
                     if(xadv[indexToWrite] >= xlim2)
-                        cellx[indexToWrite] = nx-2;
+                        cellx[indexToWrite] = index_x < nx-2 ? index_x : nx-2;
             }
             else
                 if(xoutofbounds && youtofbounds)
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index 9724ff6..a418bd3 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -126,14 +126,14 @@ namespace galsfunctions
                         {
                             locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
-                            celly[i][j] = 0;
+                            celly[i][j] = std::min(i, ny-2);
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
                                 locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
-                                celly[i][j] = ny-2;
+                                celly[i][j] = std::min(i, ny-2);
                             }
                     }
                     else
@@ -144,14 +144,14 @@ namespace galsfunctions
                             {
                                 locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
-                                cellx[i][j] = 0;
+                                cellx[i][j] = std::min(j, nx-2);
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
                                     locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
-                                    cellx[i][j] = nx-2;
+                                    cellx[i][j] = std::min(j, nx-2);
                                 }
                         }
                         else
@@ -197,14 +197,14 @@ namespace galsfunctions
                         {
                             locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                             cellx[i][j] = locate - x.begin() - 1;
-                            celly[i][j] = 0;
+                            celly[i][j] = std::min(i, ny-2);
                         }
                         else
                             if(yadv[i][j] >= ylim2)
                             {
                                 locate = std::lower_bound(x.begin(), x.end(), xadv[i][j]);
                                 cellx[i][j] = locate - x.begin() - 1;
-                                celly[i][j] = ny-2;
+                                celly[i][j] = std::min(i, ny-2);
                             }
                     }
                     else
@@ -215,14 +215,14 @@ namespace galsfunctions
                             {
                                 locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                 celly[i][j] = locate - y.begin() - 1;
-                                cellx[i][j] = 0;
+                                cellx[i][j] = std::min(j, nx-2);
                             }
                             else
                                 if(xadv[i][j] >= xlim2)
                                 {
                                     locate = std::lower_bound(y.begin(), y.end(), yadv[i][j]);
                                     celly[i][j] = locate - y.begin() - 1;
-                                    cellx[i][j] = nx-2;
+                                    cellx[i][j] = std::min(j, nx-2);
                                 }
                         }
                         else
-- 
2.43.0

