From 77bc7a360816b4bd26893b8ff1d86c7db22bafcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 01/13] fix: raise the exception of a failing worker thread in
 split_collect

Exceptions in a worker were printed and then ignored, and the caller continued
with an incomplete matrix or with missing axial derivatives.
---
 traceon/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/traceon/util.py b/traceon/util.py
index cd695a8..1e4f414 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -63,8 +63,13 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
      
     results = [np.zeros(0)]*len(args)
     
+    errors: List[BaseException] = []
+    
     def set_result(index):
-        results[index] = f(args[index])
+        try:
+            results[index] = f(args[index])
+        except BaseException as e:
+            errors.append(e)
     
     threads = [Thread(target=set_result, args=(i,)) for i in range(len(args))]
      
@@ -72,6 +77,10 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         t.start()
     for t in threads:
         t.join()
+    
+    # An exception in a thread does not reach the caller by itself
+    if errors:
+        raise errors[0]
 
     return results
             
-- 
2.43.0


From 4c9ca785c6698ad8e81658059ed1bb0db3247481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 02/13] fix: do not hand empty chunks to worker threads in
 split_collect

With more threads than items some threads got an empty array, on which the matrix
filling indexes out of bounds.
---
 traceon/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/util.py b/traceon/util.py
index 1e4f414..17f28af 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -59,7 +59,7 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         logging.log_debug(f'Running function \'{f.__name__}\' on a single thread since DEBUG=True')
         return [f(array)]
     
-    args = np.array_split(array, get_number_of_threads())
+    args = np.array_split(array, min(get_number_of_threads(), max(len(array), 1)))
      
     results = [np.zeros(0)]*len(args)
     
-- 
2.43.0


From f0d0466e3d0e0c48af15001120ce1dbd71c34c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 03/13] fix: accept a single row in fill_matrix_radial

The range is inclusive on both ends (as in fill_matrix_3d), a chunk of one row
tripped the assertion and the row was never filled.
---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 72323d0..2013612 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -577,7 +577,7 @@ def fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_b
     assert excitation_values.shape == (N,)
     assert jac_buffer.shape == (N, N_QUAD_2D)
     assert pos_buffer.shape == (N, N_QUAD_2D, 2)
-    assert 0 <= start_index < N and 0 <= end_index < N and start_index < end_index
+    assert 0 <= start_index < N and 0 <= end_index < N and start_index <= end_index
      
     backend_lib.fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_buffer, pos_buffer, N, matrix.shape[0], start_index, end_index)
 
-- 
2.43.0


From a4bfc267fd85b1bdc5ff3fc3782950795dc30caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 04/13] fix: stay inside the coefficient array at the last
 axial sample

There are N_z-1 sets of coefficients, a point exactly at the last z value read one past the end.
---
 traceon/backend/radial.c  | 8 ++++----
 traceon/backend/three_d.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/backend/radial.c b/traceon/backend/radial.c
index 2d09cbb..8385ea0 100644
--- a/traceon/backend/radial.c
+++ b/traceon/backend/radial.c
@@ -324,9 +324,9 @@ potential_radial_derivs(double point[3], double *z_inter, double *coeff_p, size_
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
 	
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 			
 	double diffz = z - z_inter[index];
 		
@@ -356,9 +356,9 @@ field_radial_derivs(double point[3], double field[3], double *z_inter, double *c
 	
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	double diffz = z - z_inter[index];
 		
diff --git a/traceon/backend/three_d.c b/traceon/backend/three_d.c
index efba5a4..6360a76 100644
--- a/traceon/backend/three_d.c
+++ b/traceon/backend/three_d.c
@@ -208,9 +208,9 @@ potential_3d_derivs(double point[3], double *zs, double *coeffs_p, size_t N_z) {
 	
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	
 	double z_ = zp - zs[index];
@@ -249,9 +249,9 @@ field_3d_derivs(double point[3], double field[3], double *restrict zs, double *r
 		
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// Guard against roundoff issues 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	double z_ = zp - zs[index];
 
-- 
2.43.0


From 9dab56db97fbc284bde1a0b1ff64de3a496b09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 05/13] fix: return the computed field from field_3d_derivs

---
 traceon/backend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 2013612..832ae7f 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -487,6 +487,7 @@ def field_3d_derivs(point, z, coeffs):
 
     field = np.zeros( (3,) )
     backend_lib.field_3d_derivs(point.astype(np.float64), field, z, coeffs, len(z))
+    return field
 
 current_potential_axial_radial_ring = backend_lib.current_potential_axial_radial_ring
 
-- 
2.43.0


From 8efd5b1ff7b81b66c3bd68d3750ce3916162e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 06/13] fix: raise exceptions of the field function passed to
 trace_particle

They were ignored by ctypes and the trace continued with a zero field.
---
 traceon/backend/__init__.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 832ae7f..996ba11 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -290,14 +290,22 @@ def trace_particle_wrapper(position_, velocity_, fill_positions_fun):
     else:
         return np.concatenate(times_blocks), np.concatenate(pos_blocks)
 
-def wrap_field_fun(ff):
+def wrap_field_fun(ff, errors):
 
-    def wrapper(y, result, _):
+    def call(y, result):
         field = ff(y[0], y[1], y[2], y[3], y[4], y[5])
         assert field.shape == (3,)
         result[0] = field[0]
         result[1] = field[1]
         result[2] = field[2]
+
+    # An exception cannot propagate through the C code
+    def wrapper(y, result, _):
+        try:
+            if not errors:
+                call(y, result)
+        except BaseException as e:
+            errors.append(e)
     
     return field_fun(wrapper)
 
@@ -330,9 +338,17 @@ def position_and_jacobian_radial(alpha, v1, v2, v3, v4):
 
 def trace_particle(position, velocity, field, bounds, atol):
     bounds = np.array(bounds)
+    errors: list[BaseException] = []
     
-    return trace_particle_wrapper(position, velocity,
-        lambda T, P: backend_lib.trace_particle(T, P, wrap_field_fun(field), bounds, atol, None))
+    def fill_positions(T, P):
+        N = backend_lib.trace_particle(T, P, wrap_field_fun(field, errors), bounds, atol, None)
+        
+        if errors:
+            raise errors[0]
+        
+        return N
+    
+    return trace_particle_wrapper(position, velocity, fill_positions)
 
 def trace_particle_radial(position, velocity, bounds, atol, eff_elec, eff_mag, eff_current, field_bounds=None):
     
-- 
2.43.0


From 62bec20ed8e08a36d78b5ca892fc74dfe8fdbc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 07/13] fix: Mesh.read reads what Mesh.write writes

Mesh.write writes a meshio file, the inherited read expected a pickle.
---
 traceon/mesher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8ea0b68..dddb13a 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -374,6 +374,10 @@ class Mesh(Saveable, GeometricObject):
     
     def write(self, filename):
         self.write_file(filename)
+    
+    @staticmethod
+    def read(filename):
+        return Mesh.read_file(filename)
         
      
     def to_meshio(self):
-- 
2.43.0


From 4272ef40a7af23dbc03f5de1a62c76521d0a8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 08/13] fix: store field bounds as C ordered doubles

The buffer is passed as double pointer to the backend, integer bounds were misread.
---
 traceon/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 05c8c3e..0348172 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -564,7 +564,7 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds)
+        self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
     def is_electrostatic(self):
-- 
2.43.0


From d2edf636eeaf021cec262a3e1f885ad47e84d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 09/13] fix: respect the field bounds when tracing through a 3D
 BEM field

---
 traceon/tracing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/tracing.py b/traceon/tracing.py
index a9f49c3..18d6386 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -175,7 +175,7 @@ class Tracer3D_BEM(Tracer):
         velocity = _convert_velocity_to_SI(velocity)
         bounds = self.field.field_bounds
         elec, mag = self.field.electrostatic_point_charges, self.field.magnetostatic_point_charges
-        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag)
+        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag, field_bounds=bounds)
 
 class Tracer3DAxial(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
-- 
2.43.0


From 5570a13c5df423761ce5a5e7a34a95a1d7501d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 10/13] fix: respect the z field bounds when tracing through a
 radial BEM field

---
 traceon/backend/tracing.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index a18490c..ae5c404 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -123,7 +123,8 @@ field_radial_traceable(double point[6], double result[3], void *args_p) {
 	double (*bounds)[2] = (double (*)[2]) args->bounds;
 	
 	if(args->bounds == NULL || ((bounds[0][0] < point[0]) && (point[0] < bounds[0][1])
-						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1]))) {
+						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1])
+						 && (bounds[2][0] < point[2]) && (point[2] < bounds[2][1]))) {
 		
 		double elec_field[3] = {0.};
 		double mag_field[3] = {0.};
-- 
2.43.0


From 0a46a272d4da39d473b1a5097fc971f42a4be3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 11/13] fix: allow adding 3D fields, so that 3D geometries with
 electric and magnetic excitations can be solved

---
 traceon/solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 0348172..342f34d 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -844,14 +844,18 @@ class Field3D_BEM(FieldBEM):
     """An electrostatic field resulting from a general 3D geometry. The field is a result of the surface charges as computed by the
     `solve_direct` function. See the comments in `FieldBEM`."""
      
-    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None):
+    def __init__(self, electrostatic_point_charges=None, magnetostatic_point_charges=None, current_point_charges=None):
         
         if electrostatic_point_charges is None:
             electrostatic_point_charges = EffectivePointCharges.empty_3d()
         if magnetostatic_point_charges is None:
             magnetostatic_point_charges = EffectivePointCharges.empty_3d()
+        if current_point_charges is None:
+            current_point_charges = EffectivePointCharges.empty_3d()
          
-        super().__init__(electrostatic_point_charges, magnetostatic_point_charges, EffectivePointCharges.empty_3d())
+        assert len(current_point_charges) == 0, "Currents are not supported in 3D"
+         
+        super().__init__(electrostatic_point_charges, magnetostatic_point_charges, current_point_charges)
         
         self.symmetry = E.Symmetry.THREE_D
 
-- 
2.43.0


From dc5ffbd05a824b032e5320692fca7808a482bde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 12/13] fix: stop tracing when the field function failed before
 storing its result

An exception that strikes on entry of the ctypes callback (an interrupt, a failing
allocation) is ignored by ctypes; the step was then taken with a zero field.
---
 traceon/backend/__init__.py |  3 +++
 traceon/backend/tracing.c   | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 996ba11..c4efe1b 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -346,6 +346,9 @@ def trace_particle(position, velocity, field, bounds, atol):
         if errors:
             raise errors[0]
         
+        if N == 0:
+            raise RuntimeError('The field function was interrupted')
+        
         return N
     
     return trace_particle_wrapper(position, velocity, fill_positions)
diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index ae5c404..04b1455 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -4,6 +4,9 @@ typedef double (*positions_3d)[6];
 
 #define TRACING_STEP_MAX 0.01
 
+// A field function implemented in Python can fail before it stores its result
+#define FIELD_NOT_SET (-1.7976931348623157e308)
+
 EXPORT const size_t TRACING_BLOCK_SIZE = (size_t) 1e5;
 
 const double A[]  = {0.0, 2./9., 1./3., 3./4., 1., 5./6.};	// https://en.wikipedia.org/wiki/Runge%E2%80%93Kutta%E2%80%93Fehlberg_method
@@ -31,18 +34,22 @@ produce_new_y(double y[6], double ys[6][6], double ks[6][6], size_t index) {
 	}
 }
 
-void
+bool
 produce_new_k(double ys[6][6], double ks[6][6], size_t index, double h, field_fun ff, void *args) {
 	
-	double field[3] = { 0. };
+	double field[3] = { FIELD_NOT_SET, FIELD_NOT_SET, FIELD_NOT_SET };
 	ff(ys[index], field, args);
 	
+	if(field[0] == FIELD_NOT_SET && field[1] == FIELD_NOT_SET && field[2] == FIELD_NOT_SET) return false;
+	
 	ks[index][0] = h*ys[index][3];
 	ks[index][1] = h*ys[index][4];
 	ks[index][2] = h*ys[index][5];
 	ks[index][3] = h*EM*field[0];
 	ks[index][4] = h*EM*field[1];
 	ks[index][5] = h*EM*field[2];
+	
+	return true;
 }
 
 
@@ -74,7 +81,7 @@ trace_particle(double *times_array, double *pos_array, field_fun field, double b
 		
 		for(int index = 0; index < 6; index++) {
 			produce_new_y(y, ys, k, index);
-			produce_new_k(ys, k, index, h, field, args);
+			if(!produce_new_k(ys, k, index, h, field, args)) return 0;
 		}
 		
 		double max_position_error = 0.0;
-- 
2.43.0


From ff32b3c84c0ff0fa5b4b163e5a56f25edc9812fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 13/13] fix: leave the field bounds alone when the given bounds
 are invalid

FieldBEM.set_bounds stored the array before checking its shape, so a refused call
left the field with bounds that make every later trace of it fail.
---
 traceon/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceon/solver.py b/traceon/solver.py
index 342f34d..5f7fac5 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -564,8 +564,9 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
-        assert self.field_bounds.shape == (3,2)
+        bounds = np.array(bounds, dtype=np.float64, order='C')
+        assert bounds.shape == (3,2)
+        self.field_bounds = bounds
     
     def is_electrostatic(self):
         return len(self.electrostatic_point_charges) > 0
-- 
2.43.0

