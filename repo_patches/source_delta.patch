From 1192d02affb75f2132b6a631d3441d94b099d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 01/69] fix: evolve_to_time must not overwrite max_steps, stop
 short silently after rejected steps, or return from a single step that was
 rejected

A call with tend <= t (or with fixed dt) permanently replaced solver.max_steps,
so a later call failed; exhausting max_steps after any rejection returned
without reaching tend and without an error; a single-step call whose step was
rejected returned having taken no step.
---
 src/pyclaw/solver.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 72ce8e1..74d16e2 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -583,12 +583,13 @@ class Solver(object):
         num_steps = 0
 
         # Setup for the run
+        max_steps = self.max_steps
         if not self.dt_variable:
             if take_one_step:
-                self.max_steps = 1
+                max_steps = 1
             else:
-                self.max_steps = int((tend - tstart + 1e-10) / self.dt)
-                if abs(self.max_steps*self.dt - (tend - tstart)) >      \
+                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
                                     'is fixed!')
@@ -597,12 +598,12 @@ class Solver(object):
                             'CFL')
         if not take_one_step:
             if tend <= tstart:
-                self.logger.info("Already at or beyond end time: no evolution ",
+                self.logger.info("Already at or beyond end time: no evolution "
                                  "required.")
-                self.max_steps = 0
+                max_steps = 0
 
         # Main time-stepping loop
-        for n in range(self.max_steps):
+        for n in range(max_steps):
 
             state = solution.state
 
@@ -652,16 +653,19 @@ class Solver(object):
 
             # See if we are finished yet
             if take_one_step:
-                break
+                if self.accept_step:
+                    break
             elif solution.t >= tend:
                 break
 
         # End of main time-stepping loop -------------------------------------
 
-        if not take_one_step:
-            if self.dt_variable and solution.t < tend \
-                    and num_steps == self.max_steps:
-                raise Exception("Maximum number of timesteps have been taken")
+        if take_one_step:
+            finished = (num_steps == 1)
+        else:
+            finished = (solution.t >= tend)
+        if self.dt_variable and not finished:
+            raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
 
-- 
2.43.0


From 74e0065bd0b534ac751286180da51652fcb57f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 02/69] fix: apply the source term on steps whose CFL number
 equals cfl_max

evolve_to_time accepts cfl == cfl_max, but ClawSolver.step returned before the
(second) source step in that case, so the accepted step lost its source term.
---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2fec21..0439171 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -131,7 +131,7 @@ class ClawSolver(Solver):
         # Check here if the CFL condition is satisfied. 
         # If not, return # immediately to evolve_to_time and let it deal with
         # picking a new step size (dt).
-        if self.cfl.get_cached_max() >= self.cfl_max:
+        if self.cfl.get_cached_max() > self.cfl_max:
             return False
 
         if self.step_source is not None:
-- 
2.43.0


From b63fa64a009eb93e23dd74495aebb3ebeca0e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 03/69] fix: SharpClaw solvers respect solver.dt_max

---
 src/pyclaw/sharpclaw/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7f991e6..fc88bc6 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -684,6 +684,7 @@ class SharpClawSolver(Solver):
         else:
             self.dt = self.dt * self.cfl_desired / cfl
 
+        self.dt = min(self.dt_max,self.dt)
 
 
 # ========================================================================
-- 
2.43.0


From 627dbf3be6967433177aeaf9f5c4b56a8c622af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:11 +0000
Subject: [PATCH 04/69] fix: allocate the stage register needed by the SSP22
 integrator

---
 src/pyclaw/sharpclaw/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index fc88bc6..f69d318 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -602,6 +602,7 @@ class SharpClawSolver(Solver):
         # Generally the number of registers for the starting method should be at most 
         # equal to the number of registers of the LMM
         if self.time_integrator   == 'Euler':   nregisters=0
+        elif self.time_integrator == 'SSP22':   nregisters=1
         elif self.time_integrator == 'SSP33':   nregisters=1
         elif self.time_integrator == 'SSP104':  nregisters=1
         elif self.time_integrator == 'RK':      nregisters=len(self.b)+1
-- 
2.43.0


From 29909b5e8c429189793548d48d0e785ae70e6e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:51 +0000
Subject: [PATCH 05/69] fix: deep copies of a State keep index_capa, gauge data
 and derived quantities

In particular the Runge-Kutta stage registers of the SharpClaw solvers are deep
copies of the state, so the Python kernels dropped the capacity function in all
stages but the first.
---
 src/pyclaw/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 9608b0b..8c4c7d2 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -312,7 +312,7 @@ class State(object):
         result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         
-        for attr in ('t'):
+        for attr in ('t','index_capa','keep_gauges','gauge_data','p','F'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
         
         if self.q is not None:
-- 
2.43.0


From 810fa80d4ae76192cd2460ef75b5b85428c811a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:12 +0000
Subject: [PATCH 06/69] fix: SharpClaw kernels apply the capacity function of
 the right cell

The whole-array assignment to the allocatable dtdx reallocated it with lower
bound 1, so cell i was updated with the capacity of cell i-num_ghost and the
scheme was not conservative.
---
 src/pyclaw/sharpclaw/flux1.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index e631ada..8ca566c 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -57,7 +57,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
     dq1d(:,:) = 0.d0
 
     if (index_capa.gt.0) then
-        dtdx = dt / (dx(ixyz)*aux(index_capa,:))
+        dtdx(1-num_ghost:mx+num_ghost) = dt / (dx(ixyz)*aux(index_capa,:))
     else
         dtdx = dt / dx(ixyz)
     endif
-- 
2.43.0


From 3aa00a7e81b28d25f3246f2f17ba9b9e085f0bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:12 +0000
Subject: [PATCH 07/69] fix: superbee limiter of the Python kernels

min(0,r) was used instead of min(2,r), which is never active, so the limiter
was min(1,2r) and differed from the Fortran kernels.
---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 223be46..7d0185e 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -157,7 +157,7 @@ def superbee_limiter(r,cfl):
     Superbee vectorized limiter
     """
     a = np.ones((2,len(r)))
-    b = np.zeros((2,len(r)))
+    b = np.full((2,len(r)),2.0)
     c = np.zeros((3,len(r)))
 
     a[1,:] = 2.0*r
-- 
2.43.0


From 9cf933e688f287cb610845275a32f23463edfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:32 +0000
Subject: [PATCH 08/69] fix: CFL-dependent limiters must act on each interface
 separately

beta, Cada-Torrilhon and upper-bound limiters reduced over the whole grid
instead of over the candidates at each interface.
---
 src/pyclaw/limiters/tvd.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 7d0185e..166347e 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -323,17 +323,17 @@ def beta_limiter(r,cfl,theta=0.95,beta=0.66666666666666666):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
-    ultra = np.max(b)
+    b[1,:] = np.min(a,axis=0)
+    ultra = np.max(b,axis=0)
     
     a[0,:] = 1.0 + (s2 - beta/2.0) * (r-1.0)
     a[1,:] = 1.0 + (s2 + beta/2.0) * (r-1.0)
     b[0,:] = ultra
-    b[1,:] = np.max(a)
+    b[1,:] = np.max(a,axis=0)
     a[0,:] = 0.0
-    a[1,:] = np.min(b)
+    a[1,:] = np.min(b,axis=0)
     
-    return np.max(a)
+    return np.max(a,axis=0)
 
 
 def hyperbee_limiter(r,cfl):
@@ -387,20 +387,20 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a)
+    cfl = np.min(a,axis=0)
     a[1,:] = 0.05
-    cfl = np.max(a)
+    cfl = np.max(a,axis=0)
     
     # Multiply all parts except b[0,:] by (1.0 - epsilon) as well
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
     b[1,::2] *= (1.0 - epsilon)
-    a[0,:] = np.min(b)
+    a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
     
-    return np.max(a)
+    return np.max(a,axis=0)
     
 def cada_torrilhon_limiter_nonlinear(r,cfl):
     r"""
@@ -413,10 +413,10 @@ def cada_torrilhon_limiter_nonlinear(r,cfl):
     a[0,:] = 1.0 + s2 * (r - 1.0)
     a[1,:] = 2.0 * np.abs(r) / (0.6 + np.abs(r))
     a[2,:] = 5.0 / np.abs(r)
-    b[0,:] = np.min(a)
+    b[0,:] = np.min(a,axis=0)
     b[1,:] = -3.0 / np.abs(r)
     
-    return np.max(b)
+    return np.max(b,axis=0)
     
 def upper_bound_limiter(r,cfl,theta=1.0):
     r"""
@@ -439,9 +439,9 @@ def upper_bound_limiter(r,cfl,theta=1.0):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
+    b[1,:] = np.min(a,axis=0)
     
-    return np.max(b)
+    return np.max(b,axis=0)
 
 
 # ============================================================================
-- 
2.43.0


From 936c6c0bcae742f61bf6fe748ece71ed23ffd1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:32 +0000
Subject: [PATCH 09/69] fix: treat stationary f-waves in the Python kernel as
 the Fortran kernel does

np.sign(0)=0 dropped the second-order correction of f-waves with zero speed,
whereas step1.f90 uses dsign(1,s).
---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 0439171..b23acb2 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -365,7 +365,7 @@ class ClawSolver1D(ClawSolver):
                     for mw in range(wave.shape[1]):
                         sabs = np.abs(s[mw,LL-1:UL-1])
                         om = 1.0 - sabs*dtdxave[:UL-LL]
-                        ssign = np.sign(s[mw,LL-1:UL-1])
+                        ssign = np.copysign(1.0,s[mw,LL-1:UL-1])
                         for m in range(num_eqn):
                             f[m,LL:UL] += 0.5 * ssign * om * wave[m,mw,LL-1:UL-1]
                 else:
-- 
2.43.0


From db737e08308d8b8989b987436e754324ef21ab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:32 +0000
Subject: [PATCH 10/69] fix: state.q and state.aux must not alias the solver's
 work arrays

After a step state.q was a view of solver.qbc: it was not Fortran contiguous in
2D and 3D, so a second Controller.run() refused the solution as invalid, and
evolving another solution with the same solver overwrote the first one.
---
 src/pyclaw/state.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 8c4c7d2..0fb1fbe 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -244,11 +244,11 @@ class State(object):
         
         num_dim = self.patch.num_dim
         if num_dim == 1:
-            self.q = qbc[:,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost].copy(order='F')
         elif num_dim == 2:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy(order='F')
         elif num_dim == 3:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy(order='F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
             
@@ -259,11 +259,11 @@ class State(object):
         
         patch = self.patch
         if patch.num_dim == 1:
-            self.aux = auxbc[:,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost].copy(order='F')
         elif patch.num_dim == 2:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy(order='F')
         elif patch.num_dim == 3:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy(order='F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
 
-- 
2.43.0


From 08b39a1f0bed9d94f13ea51b2856ef00c6bed333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:14 +0000
Subject: [PATCH 11/69] fix: reopen gauge files when a simulation is run again

setup_gauge_files appended the new file objects after the closed ones of the
previous run, so a second Controller.run() with gauges wrote to closed files.
---
 src/pyclaw/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 240b312..cc6f94c 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -416,6 +416,7 @@ class Grid(object):
             except OSError:
                 print("gauge directory already exists, ignoring")
 
+        self.gauge_files = []
         for gauge in self.gauge_file_names:
             gauge_file = os.path.join(gauge_path,gauge)
             if os.path.isfile(gauge_file):
-- 
2.43.0


From 97d249eac70380f727e4c06f15a2f70243eef97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:14 +0000
Subject: [PATCH 12/69] fix: record gauges in 3D simulations

write_gauge_values failed with an unbound variable for 3D grids.
---
 src/pyclaw/solver.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 74d16e2..b753560 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -689,16 +689,10 @@ class Solver(object):
         if solution.num_aux == 0:
             aux = None
         for i,gauge in enumerate(solution.state.grid.gauges):
-            if self.num_dim == 1:
-                ix=gauge[0]
-                if solution.num_aux > 0:
-                    aux = solution.state.aux[:,ix]
-                q=solution.state.q[:,ix]
-            elif self.num_dim == 2:
-                ix, iy = gauge
-                if solution.num_aux > 0:
-                    aux = solution.state.aux[:,ix,iy]
-                q=solution.state.q[:,ix,iy]
+            cell = (slice(None),) + tuple(gauge)
+            if solution.num_aux > 0:
+                aux = solution.state.aux[cell]
+            q=solution.state.q[cell]
             p=self.compute_gauge_values(q,aux)
             if not hasattr(p,'__iter__'):
                 p = [p]
-- 
2.43.0


From 7657902d2e32a9a8197dda848b77484b16f0f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:14 +0000
Subject: [PATCH 13/69] fix: Grid.c_center and p_center return the center of
 the cell asked for

Indexing with a list selects whole rows with current NumPy.
---
 src/pyclaw/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index cc6f94c..f647c18 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -325,7 +325,7 @@ class Grid(object):
     def c_center(self,ind):
         r"""Compute center of computational cell with index ind."""
 
-        index = [np.array(i) for i in ind]
+        index = tuple(np.array(i) for i in ind)
         return np.array([self.c_centers[i][index] for i in range(self.num_dim)])
 
     def p_center(self,ind):
-- 
2.43.0


From 017ba8a5072c767d113e2c88a917ba8fc6f21b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:30 +0000
Subject: [PATCH 14/69] fix: grid coordinate arrays follow changes of the
 dimensions

c_centers, c_nodes, p_centers and p_nodes were recomputed only while the
dimension's own cache was empty, so reading dim.centers (or grid.c_centers)
after changing a dimension left the other arrays stale.
---
 src/pyclaw/geometry.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index f647c18..6d31b9a 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -280,12 +280,15 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
+        dim_centers = self.get_dim_attribute('centers')
         if recompute or (self._c_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+           any([c is not d for c,d in zip(dim_centers,self._dim_centers)]):
             index = np.indices(self.num_cells)
             self._c_centers = []
-            for i,center_array in enumerate(self.get_dim_attribute('centers')):
+            for i,center_array in enumerate(dim_centers):
                 self._c_centers.append(center_array[index[i,...]])
+            self._dim_centers = dim_centers
+            self._p_centers = None
 
     def _compute_c_nodes(self, recompute=False):
         r"""Calculate the coordinates of the nodes in the computational domain.
@@ -293,12 +296,15 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
+        dim_nodes = self.get_dim_attribute('nodes')
         if recompute or (self._c_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+           any([c is not d for c,d in zip(dim_nodes,self._dim_nodes)]):
             index = np.indices(n+1 for n in self.num_cells)
             self._c_nodes = []
-            for i,edge_array in enumerate(self.get_dim_attribute('nodes')):
+            for i,edge_array in enumerate(dim_nodes):
                 self._c_nodes.append(edge_array[index[i,...]])
+            self._dim_nodes = dim_nodes
+            self._p_nodes = None
 
     def _compute_p_centers(self, recompute=False):
         r"""Calculate the coordinates of the centers in the physical domain.
@@ -306,9 +312,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
-            self._compute_c_centers(recompute=recompute)
+        self._compute_c_centers(recompute=recompute)
+        if recompute or (self._p_centers is None):
             self._p_centers = self.mapc2p(*self._c_centers)
 
     def _compute_p_nodes(self, recompute=False):
@@ -317,9 +322,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
-            self._compute_c_nodes(recompute=recompute)
+        self._compute_c_nodes(recompute=recompute)
+        if recompute or (self._p_nodes is None):
             self._p_nodes = self.mapc2p(*self._c_nodes)
 
     def c_center(self,ind):
-- 
2.43.0


From 824caf71a3ced5c315134de824f3befc696edbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:30 +0000
Subject: [PATCH 15/69] fix: initialize a Solution from a single Dimension or
 Patch, or from (num_eqn,num_aux)

The documented forms failed: an item of the argument tuple was assigned to, and
the list of states was replaced by a State.
---
 src/pyclaw/solution.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 08d209b..b6ac733 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -149,12 +149,13 @@ class Solution(object):
             if isinstance(arg[1],Domain):
                 self.domain = arg[1]
             else:
-                if not isinstance(arg[1],(list,tuple)):
-                    arg[1] = list(arg[1])
-                if isinstance(arg[1][0],Dimension):
-                    self.domain = Domain(Patch(arg[1]))
-                elif isinstance(arg[1][0],Patch):
-                    self.domain = Domain(arg[1])
+                geom = arg[1]
+                if not isinstance(geom,(list,tuple)):
+                    geom = [geom]
+                if isinstance(geom[0],Dimension):
+                    self.domain = Domain(Patch(geom))
+                elif isinstance(geom[0],Patch):
+                    self.domain = Domain(geom)
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
 
@@ -167,7 +168,7 @@ class Solution(object):
                     # List of States
                     self.states = arg[0]
                 elif isinstance(arg[0][0],int):
-                    self.states = State(self.domain,arg[0][0],arg[0][1])
+                    self.states.append(State(self.domain,arg[0][0],arg[0][1]))
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
             elif isinstance(arg[0],int):
-- 
2.43.0


From 517f5c3126b5ff4c2e3eee5db48517f41a3f7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:45 +0000
Subject: [PATCH 16/69] fix: reading and writing frames leaves the caller's
 options dictionary alone

Solution.read and hdf5.write stored their defaults in the dictionary passed in
(and in the shared default argument), so options of one call leaked into others.
---
 src/pyclaw/fileio/hdf5.py | 3 +--
 src/pyclaw/solution.py    | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 69e2c54..dc231ae 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -94,8 +94,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
     """
     option_defaults = {'compression':None,'compression_opts':None,
                        'chunks':None,'shuffle':False,'fletcher32':False}
-    for (k,v) in option_defaults.items():
-        options[k] = options.get(k,v)
+    options = dict(option_defaults,**options)
     
     filename = os.path.join(path,'%s%s.hdf' % 
                                 (file_prefix,str(frame).zfill(4)))
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index b6ac733..c059bbb 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -351,6 +351,7 @@ class Solution(object):
 
         read_func = self.get_read_func(file_format)
 
+        options = dict(options)
         if file_format == 'petsc':
             options['format'] = 'binary'
         else:
-- 
2.43.0


From acc274b018b7569aca93f4e7273f00a53bdcb608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 17/69] fix: hdf5 frames list their patches in patch order

Groups were visited alphabetically (patch1, patch10, patch2, ...).
---
 src/pyclaw/fileio/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index dc231ae..1184565 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -168,7 +168,7 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
     if use_h5py:
         with h5py.File(filename,'r') as f:
         
-            for patch in f.values():
+            for patch in sorted(f.values(),key=lambda group: group.attrs['patch_index']):
                 # Construct each dimension
                 dimensions = []
                 dim_names = np.array(patch.attrs["dimensions"]).astype(str)
-- 
2.43.0


From 441123cc3063d9fd8c7f42980bc8a2880b28bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 18/69] fix: mark aux values that are not in an hdf5 frame as
 NaN

As the ascii and binary readers do; the array was left uninitialized.
---
 src/pyclaw/fileio/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 1184565..eca466a 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -196,6 +196,10 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
                 state.t = patch.attrs['t']
                 state.q = patch['q'][:].ravel(order='F').reshape(state.q.shape,order='F')
 
+                if state.num_aux > 0:
+                    # Write NaNs for now to indicate this is uninitialized
+                    state.aux[:] = np.nan
+
                 # Read in aux if applicable
                 if read_aux and patch.get('aux',None) is not None:
                     state.aux = patch['aux'][:].ravel(order='F').reshape(state.aux.shape,order='F')
-- 
2.43.0


From 3bdb809823084e1f18c741b45c956870f93b4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 19/69] fix: read aux arrays of binary frames without ghost
 cells

auxpatch[:,0:-0] is empty; q already has the num_ghost=0 case.
---
 src/pyclaw/fileio/binary.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 6604815..c09f491 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -192,13 +192,22 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             # Fill in aux values
             if patch.num_dim == 1:
                 ##  NOT YET TESTED ##
-                state.aux = auxpatch[:,mbc:-mbc]
+                if mbc==0:
+                    state.aux = auxpatch
+                else:
+                    state.aux = auxpatch[:,mbc:-mbc]
             elif patch.num_dim == 2:
                 ## FIXED FOR BINARY ##
-                state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc]
+                if mbc==0:
+                    state.aux = auxpatch
+                else:
+                    state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc]
             elif patch.num_dim == 3:
                 ##  NOT YET TESTED ##
-                state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc,mbc:-mbc]
+                if mbc==0:
+                    state.aux = auxpatch
+                else:
+                    state.aux = auxpatch[:,mbc:-mbc,mbc:-mbc,mbc:-mbc]
             else:
                 msg = "Read only supported up to 3d."
                 logger.critical(msg)
-- 
2.43.0


From 695ce9a48a32634649e5c0f26a438ee83ad692c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:06 +0000
Subject: [PATCH 20/69] fix: derived-quantity frames record the number of
 derived quantities

The ascii and hdf5 headers gave num_eqn also for p, so such a frame could not be
read back when mp differs from num_eqn.
---
 src/pyclaw/fileio/ascii.py | 2 +-
 src/pyclaw/fileio/hdf5.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 39e3cb6..643deab 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -42,7 +42,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
         f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % solution.num_eqn)
+        f.write("%5i                  num_eqn\n" % (solution.mp if write_p else solution.num_eqn))
         f.write("%5i                  nstates\n" % len(solution.states))
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index eca466a..4594122 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -110,7 +110,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
                 # General patch properties
                 subgroup.attrs['t'] = state.t
-                subgroup.attrs['num_eqn'] = state.num_eqn
+                subgroup.attrs['num_eqn'] = state.mp if write_p else state.num_eqn
                 subgroup.attrs['num_aux'] = state.num_aux
                 for attr in ['num_ghost','patch_index','level']:
                     if hasattr(patch,attr):
-- 
2.43.0


From 3ca65eda645c4ad639c346b1911a4c90679d52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:58 +0000
Subject: [PATCH 21/69] fix: SharpClaw stages use the current aux values of the
 state

---
 src/pyclaw/sharpclaw/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index f69d318..50abe91 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -288,6 +288,13 @@ class SharpClawSolver(Solver):
         """
         state = solution.states[0]
         step_index = self.status['numsteps'] + 1
+
+        # The stages must use the aux values the state has now, which may have
+        # been changed (e.g. by before_step) since the registers were allocated
+        if state.num_aux > 0:
+            for register in self._registers:
+                register.aux[:] = state.aux
+
         if self.accept_step == True:
             self.cfl.set_global_max(0.)
             self.dq_dt = self.dq(state) / self.dt
-- 
2.43.0


From 12df0b0a7526041fdda9fdbfa910ae9f65659357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:20 +0000
Subject: [PATCH 22/69] fix: solver.status reports the smallest and largest
 step taken

---
 src/pyclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index b753560..0592bca 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -537,8 +537,6 @@ class Solver(object):
         if self.dt_variable and self.dt_old is not None:
             if cfl > 0.0:
                 self.get_dt_new()
-                self.status['dtmin'] = min(self.dt, self.status['dtmin'])
-                self.status['dtmax'] = max(self.dt, self.status['dtmax'])
             else:
                 self.dt = self.dt_max
         else:
@@ -624,6 +622,8 @@ class Solver(object):
             if self.accept_step:
                 # Accept this step
                 self.status['cflmax'] = max(cfl, self.status['cflmax'])
+                self.status['dtmin'] = min(self.dt, self.status['dtmin'])
+                self.status['dtmax'] = max(self.dt, self.status['dtmax'])
                 if self.dt_variable:
                     solution.t += self.dt
                 else:
-- 
2.43.0


From 4b0896d05318329f03f441a93f02aa6cb56a3433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:30 +0000
Subject: [PATCH 23/69] fix: solvers that are in use at the same time must not
 share Fortran parameters and work arrays

The SharpClaw modules and the cparam blocks of the Riemann solvers hold the
parameters of the solver set up last.  Load them before they are used, free
only what is allocated, and leave arrays of other solvers alone.
---
 src/pyclaw/classic/solver.py         |  5 ++++
 src/pyclaw/sharpclaw/ClawParams.f90  |  2 ++
 src/pyclaw/sharpclaw/reconstruct.f90 | 41 +++++++++-------------------
 src/pyclaw/sharpclaw/solver.py       | 34 ++++++++++++++++++-----
 src/pyclaw/sharpclaw/workspace.f90   | 10 +++----
 5 files changed, 52 insertions(+), 40 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index b23acb2..00f9fc4 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -126,6 +126,11 @@ class ClawSolver(Solver):
         if self.source_split == 2 and self.step_source is not None:
             self.step_source(self,solution.states[0],self.dt/2.0)
 
+        if self.kernel_language == 'Fortran':
+            # Another simulation may have changed the common blocks since setup
+            solution.state.set_cparam(self.fmod)
+            solution.state.set_cparam(self.rp)
+
         self.step_hyperbolic(solution)
 
         # Check here if the CFL condition is satisfied. 
diff --git a/src/pyclaw/sharpclaw/ClawParams.f90 b/src/pyclaw/sharpclaw/ClawParams.f90
index b1e2835..f495234 100644
--- a/src/pyclaw/sharpclaw/ClawParams.f90
+++ b/src/pyclaw/sharpclaw/ClawParams.f90
@@ -17,6 +17,8 @@ contains
 
     subroutine alloc_clawparams()
 
+        call dealloc_clawparams()
+
         allocate(xlower(num_dim))
         allocate(xupper(num_dim))
         allocate(dx(num_dim))
diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4db6953..2aea7e5 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -18,6 +18,8 @@ contains
     subroutine alloc_recon_workspace(maxnx,num_ghost,num_eqn,num_waves,lim_type,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp,lim_type
 
+        call dealloc_recon_workspace(lim_type,char_decomp)
+
         select case(lim_type)
             case(1)
             select case(char_decomp)
@@ -57,34 +59,17 @@ contains
     subroutine dealloc_recon_workspace(lim_type,char_decomp)
         integer,intent(in) :: lim_type,char_decomp
 
-        select case(lim_type)
-            case(1)
-            select case(char_decomp)
-                case(1) ! Storage for tvd2_wave()
-                    deallocate(uu)
-                case(2) ! Storage for tvd2_char()
-                    deallocate(dq)
-                    deallocate( u)
-                    deallocate(hh)
-            end select
-            case(2)
-             select case(char_decomp)
-                case(0)
-                    deallocate(uu)
-                    deallocate(dq1m)
-                case(2) ! Storage for weno5_char
-                    deallocate(dq)
-                    deallocate(uu)
-                    deallocate(hh)
-                case(3) ! Storage for weno5_trans
-                    deallocate(dq)
-                    deallocate(gg)
-                    deallocate( u)
-                    deallocate(hh)
-                    deallocate(uh)
-            end select
-            recon_alloc = .False.
-        end select
+        ! Which arrays are in use depends on the options for which they were
+        ! allocated, which need not be the current ones
+        if (allocated(uu))   deallocate(uu)
+        if (allocated(dq1m)) deallocate(dq1m)
+        if (allocated(dq))   deallocate(dq)
+        if (allocated(gg))   deallocate(gg)
+        if (allocated(u))    deallocate(u)
+        if (allocated(hh))   deallocate(hh)
+        if (allocated(uh))   deallocate(uh)
+
+        recon_alloc = .False.
     end subroutine dealloc_recon_workspace
 
 ! ===================================================================
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 50abe91..eb3170c 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -150,6 +150,9 @@ class SharpClawSolver(Solver):
         'SSPLMM53': [0.24, 0.25]
         }
 
+    # Solver (its id) for which each Fortran module is currently set up
+    _fortran_user = {}
+
     # ========================================================================
     #   Initialization routines
     # ========================================================================
@@ -255,10 +258,8 @@ class SharpClawSolver(Solver):
             if self.fmod is None:
                 so_name = 'clawpack.pyclaw.sharpclaw.sharpclaw'+str(self.num_dim)
                 self.fmod = __import__(so_name,fromlist=['clawpack.pyclaw.sharpclaw'])
-            state.set_cparam(self.fmod)
-            state.set_cparam(self.rp)
-            state.set_cparam(self.tfluct)
-            self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+            SharpClawSolver._fortran_user.pop(self.fmod,None)
+            self._load_fortran_modules(state)
 
         self._allocate_bc_arrays(state)
 
@@ -271,9 +272,12 @@ class SharpClawSolver(Solver):
         Also delete Fortran objects, which otherwise tend to persist in Python sessions.
         """
         if self.kernel_language=='Fortran':
-            self.fmod.clawparams.dealloc_clawparams()
-            self.fmod.workspace.dealloc_workspace(self.char_decomp)
-            self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+            # Leave the arrays alone if they belong to another solver by now
+            if self.fmod is not None and SharpClawSolver._fortran_user.get(self.fmod) == id(self):
+                self.fmod.clawparams.dealloc_clawparams()
+                self.fmod.workspace.dealloc_workspace(self.char_decomp)
+                self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+                SharpClawSolver._fortran_user.pop(self.fmod)
             del self.fmod
 
         super(SharpClawSolver,self).__del__()
@@ -567,6 +571,19 @@ class SharpClawSolver(Solver):
         return dq_dt.flatten('f')
 
 
+    def _load_fortran_modules(self,state):
+        r"""
+        Make sure that the Fortran modules and common blocks, which are shared by
+        all solvers, hold the parameters and work arrays of this one.
+        """
+        state.set_cparam(self.fmod)
+        state.set_cparam(self.rp)
+        state.set_cparam(self.tfluct)
+        if SharpClawSolver._fortran_user.get(self.fmod) != id(self):
+            self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+            SharpClawSolver._fortran_user[self.fmod] = id(self)
+
+
     def _set_fortran_parameters(self,state,clawparams,workspace,reconstruct):
         """
         Set parameters for Fortran modules used by SharpClaw.
@@ -758,6 +775,7 @@ class SharpClawSolver1D(SharpClawSolver):
         ixy=1
 
         if self.kernel_language=='Fortran':
+            self._load_fortran_modules(state)
             rp1 = self.rp.rp1._cpointer
             if self.tfluct_solver:
                 tfluct1 = self.tfluct.tfluct1._cpointer
@@ -893,6 +911,7 @@ class SharpClawSolver2D(SharpClawSolver):
         maxm = max(mx,my)
 
         if self.kernel_language=='Fortran':
+            self._load_fortran_modules(state)
             rpn2 = self.rp.rpn2._cpointer
             if self.tfluct_solver:
                 tfluct2 = self.tfluct.tfluct2._cpointer
@@ -978,6 +997,7 @@ class SharpClawSolver3D(SharpClawSolver):
         maxm = max(mx,my,mz)
 
         if self.kernel_language=='Fortran':
+            self._load_fortran_modules(state)
             rpn3 = self.rp.rpn3._cpointer
             if self.tfluct_solver:            
                 tfluct3 = self.tfluct.tfluct3._cpointer
diff --git a/src/pyclaw/sharpclaw/workspace.f90 b/src/pyclaw/sharpclaw/workspace.f90
index 6dde6e4..fd9a9b9 100644
--- a/src/pyclaw/sharpclaw/workspace.f90
+++ b/src/pyclaw/sharpclaw/workspace.f90
@@ -16,6 +16,8 @@ contains
     subroutine alloc_workspace(maxnx,num_ghost,num_eqn,num_waves,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp
 
+        call dealloc_workspace(char_decomp)
+
         allocate(ql(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(qr(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(amdq(num_eqn,1-num_ghost:maxnx+num_ghost))
@@ -49,13 +51,11 @@ contains
             deallocate(wave)
             deallocate(s)
             deallocate(dtdx)
-
-            if (char_decomp>1) then
-                deallocate(evl)
-                deallocate(evr)
-            endif
         endif
 
+        if (allocated(evl)) deallocate(evl)
+        if (allocated(evr)) deallocate(evr)
+
         work_alloc = .False.
 
     end subroutine dealloc_workspace
-- 
2.43.0


From 4bbf93f605f9dd46b1c78924b5b004f64201df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:50 +0000
Subject: [PATCH 24/69] fix: reject SharpClaw options that make the Fortran
 kernels terminate the process

---
 src/pyclaw/sharpclaw/solver.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index eb3170c..108cf4c 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -212,6 +212,9 @@ class SharpClawSolver(Solver):
         if self.lim_type == 2 and self.weno_order != 5 and self.kernel_language == 'Python':
             raise Exception('Only 5th-order WENO reconstruction is implemented in Python kernels. \
                              Use Fortran for higher-order WENO.')
+        if self.kernel_language == 'Fortran':
+            self._check_reconstruction_settings()
+
         # This is a hack to deal with the fact that petsc4py
         # doesn't allow us to change the stencil_width (num_ghost)
         state = solution.state
@@ -266,6 +269,24 @@ class SharpClawSolver(Solver):
         super(SharpClawSolver,self).setup(solution)
 
 
+    def _check_reconstruction_settings(self):
+        r"""
+        Reject options that are not available in the Fortran kernels, which
+        would otherwise terminate the Python process or use undefined values.
+        """
+        if self.lim_type not in (1,2,3):
+            raise ValueError('lim_type must be 1, 2 or 3 for the Fortran kernels.')
+        if self.lim_type == 2 and self.weno_order not in range(5,19,2):
+            raise ValueError('weno_order must be an odd number from 5 to 17.')
+        if self.lim_type != 3:
+            if self.char_decomp not in (0,1,2,3) or (self.lim_type == 1 and self.char_decomp == 3):
+                raise ValueError('char_decomp=%s is not available with lim_type=%s.'
+                                 % (self.char_decomp,self.lim_type))
+            if self.char_decomp > 1 and self.fmod is None:
+                raise ValueError('char_decomp=%s requires a Fortran module that provides'
+                                 ' the characteristic decomposition (evec); set solver.fmod.' % self.char_decomp)
+
+
     def __del__(self):
         r"""
         Deallocate F90 module arrays.
-- 
2.43.0


From 91f5efa4770c5123f731d454a6052b368bcf6984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:10 +0000
Subject: [PATCH 25/69] fix: 3D dimensional splitting must sweep the ghost rows
 used by the following sweeps

---
 src/pyclaw/classic/step3ds.f90 | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f9f2729..ce0ea08 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -131,8 +131,11 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform x-sweeps
         ! ==================
     
-        do k = 0,mz+1
-            do j = 0,my+1
+        ! Sweep over the rows of ghost cells as well as the interior; this updates
+        ! the ghost cells to the intermediate state needed in the following sweeps.
+
+        do k = 1-num_ghost,mz+num_ghost
+            do j = 1-num_ghost,my+num_ghost
             
                 forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -148,7 +151,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 ! Since dimensional splitting is used, only aux2 is needed.
             
                 if (num_aux > 0)  then
-                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, ka = -1:1)
+                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, &
+                            ka = max(-1,1-num_ghost-k):min(1,mz+num_ghost-k))
                     aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
                     end forall
                 endif
@@ -212,7 +216,7 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform y sweeps
         ! ==================
     
-        do k = 0, mz+1
+        do k = 1-num_ghost,mz+num_ghost
             do i = 0, mx+1
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
-- 
2.43.0


From c7e7a129e016045026ce14fa277d581f78a8fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:17 +0000
Subject: [PATCH 26/69] fix: first order 3D method with transverse corrections
 used uninitialized correction fluxes

---
 src/pyclaw/classic/flux3.f90 | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/flux3.f90 b/src/pyclaw/classic/flux3.f90
index 545dea3..d434e62 100644
--- a/src/pyclaw/classic/flux3.f90
+++ b/src/pyclaw/classic/flux3.f90
@@ -217,7 +217,13 @@ subroutine flux3(ixyz,maxm,num_eqn,num_waves,num_ghost,mx, &
         end do
     end do
 
-    if (method(2) == 1) go to 130
+    if (method(2) == 1) then
+        ! no second order corrections, neither here nor in the transverse terms
+        forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
+            cqxx(m,i) = 0.d0
+        end forall
+        go to 130
+    endif
 
     ! -----------------------------------------------------------
     ! modify F fluxes for second order q_{xx} correction terms:
-- 
2.43.0


From 8751b51c0d2a4bd9eee10336fddc3f6d180eaa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:19 +0000
Subject: [PATCH 27/69] fix: van Leer limited TVD reconstruction of locally
 constant data

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 2aea7e5..0b2e877 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -591,7 +591,11 @@ contains
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-                r=dqp/dqm
+                if (dqm.ne.0.d0) then
+                    r=dqp/dqm
+                else
+                    r=0.d0
+                endif
 
                 select case(mthlim(m))
                 case(1)
-- 
2.43.0


From d312542b034a34610fd325a7904454991f9bd27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 28/69] fix: wave-based TVD reconstruction must include the
 last interface of the grid

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 0b2e877..4dc6d1b 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -756,7 +756,7 @@ contains
 
         do mw=1,num_waves
             dotr = 0.d0
-            do i=num_ghost,mx2-num_ghost
+            do i=num_ghost,mx2-num_ghost+1
                 wnorm2=0.d0
                 dotl=dotr
                 dotr=0.d0
-- 
2.43.0


From e1d7a547c4c3f46b87795e95423b6a8c4a0bc2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 29/69] fix: wave-based WENO reconstruction from f-waves
 (stationary f-waves gave NaN, Python kernel used f-waves as waves)

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 3 ++-
 src/pyclaw/sharpclaw/solver.py       | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4dc6d1b..34b63f0 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -495,8 +495,9 @@ contains
       ! convert fwaves to waves by dividing by the sound speed
       ! We do this in place to save memory
       ! and get away with it because the waves are never used again
+      ! (stationary f-waves do not contribute)
       forall(i=1:mx2,mw=1:num_waves,m=1:num_eqn)
-          fwave(m,mw,i)=fwave(m,mw,i)/s(mw,i)
+          fwave(m,mw,i)=merge(fwave(m,mw,i)/s(mw,i),0.d0,s(mw,i).ne.0.d0)
       end forall
 
       ! loop over interfaces (i-1/2)
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 108cf4c..0edb191 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -837,6 +837,8 @@ class SharpClawSolver1D(SharpClawSolver):
                     q_l=q[:,:-1]
                     q_r=q[:,1: ]
                     wave,s,amdq,apdq = self.rp(q_l,q_r,aux_l,aux_r,state.problem_data)
+                    if self.fwave: # Convert f-waves to waves, as the Fortran kernel does
+                        wave = np.where(s!=0.,wave/np.where(s!=0.,s,1.),0.)
                     ql,qr=recon.weno5_wave(q,wave,s)
                 elif self.char_decomp==2: #Characteristic-wise reconstruction
                     raise NotImplementedError
-- 
2.43.0


From 1b330cced166c2c03e947a0667edf1181b0c2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:39 +0000
Subject: [PATCH 30/69] fix: wave-based WENO reconstruction of the Fortran
 kernel at vanishing waves

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 34b63f0..8d90b65 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -414,8 +414,8 @@ contains
         do i=2,mx2
             ! Compute the part of the reconstruction that is stencil-independent
             do m=1,num_eqn
-                qr(m,i-1) = (-q(m,i-2)+7.*(q(m,i-1)+q(m,i))-q(m,i+1))/12.
-                ql(m,i)   = qr(m,i-1)
+                qr(m,i-1) = q(m,i-1)
+                ql(m,i)   = q(m,i)
             enddo
             ! the reconstruction is performed in terms of waves
             do mw=1,num_waves
@@ -456,7 +456,8 @@ contains
                     s3 =s3*t0
   
                     if(wnorm2.gt.1.e-14) then
-                        u(m1) = ( s1*(t2-t1) + (0.5*s3-0.25)*(t3-t2) ) /3.
+                        u(m1) = ( s1*(t2-t1) + (0.5*s3-0.25)*(t3-t2) ) /3. &
+                                + im*(theta2+6.d0*wnorm2-theta3)/12.d0
                         wnorm2=1.d0/wnorm2
                     else
                         u(m1) = 0.d0
-- 
2.43.0


From 79e5486356b12e0728ec6a5555956170cdfefa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:17 +0000
Subject: [PATCH 31/69] fix: SharpClaw kernels passed uninitialized states of
 ghost cells to the Riemann solvers

---
 src/pyclaw/sharpclaw/flux1.f90       | 5 +++++
 src/pyclaw/sharpclaw/reconstruct.f90 | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index 8ca566c..0f05a42 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -62,6 +62,11 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
         dtdx = dt / dx(ixyz)
     endif
 
+    ! The reconstruction leaves out the outermost ghost cells, but the Riemann
+    ! solvers are called for all of them
+    ql(:,1-num_ghost:mx+num_ghost) = q1d
+    qr(:,1-num_ghost:mx+num_ghost) = q1d
+
     select case(lim_type)
         case(1) ! lim_type = 1: 2nd-order TVD reconstruction
         select case(char_decomp)
diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 8d90b65..2ceba47 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -411,7 +411,7 @@ contains
         mx2  = size(q,2); num_eqn = size(q,1); num_waves=size(wave,2)
 
         ! loop over interfaces (i-1/2)
-        do i=2,mx2
+        do i=num_ghost+1,mx2-num_ghost+1
             ! Compute the part of the reconstruction that is stencil-independent
             do m=1,num_eqn
                 qr(m,i-1) = q(m,i-1)
@@ -502,7 +502,7 @@ contains
       end forall
 
       ! loop over interfaces (i-1/2)
-      do i=2,mx2+2
+      do i=num_ghost+1,mx2-num_ghost+1
         ! Compute the part of the reconstruction that is
         !  stencil-independent
         do m=1,num_eqn
@@ -590,6 +590,7 @@ contains
 
             ! compute and store the differences of the cell averages
 
+            dqp=0.d0
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-- 
2.43.0


From fef6db74949498b7632830e4fcdf30ea0efc0396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:58 +0000
Subject: [PATCH 32/69] fix: Courant number of the Python kernels included an
 interface inside the ghost layer

---
 src/pyclaw/classic/solver.py   | 4 ++--
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 00f9fc4..e2dfdf3 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -351,8 +351,8 @@ class ClawSolver1D(ClawSolver):
             # Compute maximum wave speed
             cfl = 0.0
             for mw in range(wave.shape[1]):
-                smax1 = np.max(dtdx[LL:UL]*s[mw,LL-1:UL-1])
-                smax2 = np.max(-dtdx[LL-1:UL-1]*s[mw,LL-1:UL-1])
+                smax1 = np.max(dtdx[LL+1:UL]*s[mw,LL:UL-1])
+                smax2 = np.max(-dtdx[LL:UL-1]*s[mw,LL:UL-1])
                 cfl = max(cfl,smax1,smax2)
 
             # If we are doing slope limiting we have more work to do
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 0edb191..bb37574 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -856,8 +856,8 @@ class SharpClawSolver1D(SharpClawSolver):
             # Compute maximum wave speed
             cfl = 0.0
             for mw in range(self.num_waves):
-                smax1 = np.max( dtdx[LL  :UL]  *s[mw,LL-1:UL-1])
-                smax2 = np.max(-dtdx[LL-1:UL-1]*s[mw,LL-1:UL-1])
+                smax1 = np.max( dtdx[LL+1:UL]  *s[mw,LL:UL-1])
+                smax2 = np.max(-dtdx[LL  :UL-1]*s[mw,LL:UL-1])
                 cfl = max(cfl,smax1,smax2)
 
             #Find total fluctuation within each cell
-- 
2.43.0


From 8c8af2999e8384db535149d3349642c813c49cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:19 +0000
Subject: [PATCH 33/69] fix: Cada-Torrilhon limiter must treat all interfaces
 alike

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 166347e..56c58a8 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -395,7 +395,7 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
-    b[1,::2] *= (1.0 - epsilon)
+    b[1:,:] *= (1.0 - epsilon)
     a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
-- 
2.43.0


From 54479e453da2c2bddd94c441106715ac27697841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:38 +0000
Subject: [PATCH 34/69] fix: LMM integrator uses all of the given coefficients,
 whatever lmm_steps

---
 src/pyclaw/sharpclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index bb37574..4fd17de 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -412,7 +412,7 @@ class SharpClawSolver(Solver):
             else:
                 # Update solution: alpha[-1] and beta[-1] correspond to solution at the previous step
                 state.q = self.alpha[-1]*self._registers[-1].q + self.beta[-1]*self.dt*self.prev_dq_dt_values[-1]
-                for i in range(self.lmm_steps-1):
+                for i in range(len(self.alpha)-1):
                     state.q += self.alpha[i]*self._registers[i].q + self.beta[i]*self.dt*self.prev_dq_dt_values[i]
 
         else:
-- 
2.43.0


From 58a436845c3c5b44a1419bf875609e026b4fd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:02 +0000
Subject: [PATCH 35/69] fix: refuse to overwrite existing output before
 touching it (gauge files were replaced first)

---
 src/pyclaw/controller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 772edb1..78572cd 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -292,6 +292,11 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
+        if self.output_format is not None:
+            if os.path.exists(self.outdir) and self.overwrite is False:
+                raise Exception("Refusing to overwrite existing output data. \
+                 \nEither delete/move the directory or set controller.overwrite=True.")
+
         self.start_frame = self.solution.start_frame
         if len(self.solution.patch.grid.gauges)>0:
             self.solution.patch.grid.setup_gauge_files(self.outdir)
@@ -330,9 +335,6 @@ class Controller(object):
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
         if self.output_format is not None:
-            if os.path.exists(self.outdir) and self.overwrite is False:
-                raise Exception("Refusing to overwrite existing output data. \
-                 \nEither delete/move the directory or set controller.overwrite=True.")
             if self.compute_p is not None:
                 self.compute_p(self.solution.state)
                 self.solution.write(frame,self.outdir_p,
-- 
2.43.0


From 1f40ad4ad2b50d261c39c11b723d2988cb6c610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:02 +0000
Subject: [PATCH 36/69] fix: a run with a single output time returned no status
 but an UnboundLocalError

---
 src/pyclaw/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 78572cd..5f51e12 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -356,6 +356,7 @@ class Controller(object):
         self.log_info("Solution %s computed for time t=%f" %
                         (frame,self.solution.t) )
 
+        status = self.solver.status
         for t in output_times[1:]:
             if self.output_style < 3:
                 status = self.solver.evolve_to_time(self.solution,t)
-- 
2.43.0


From db26861054b1f3679a4a0150df7922fbc815bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:02 +0000
Subject: [PATCH 37/69] fix: create the output directory for functionals when
 no frames are written

---
 src/pyclaw/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 5f51e12..230f1cd 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -407,6 +407,8 @@ class Controller(object):
                 F[i] = self.solution.state.sum_F(i)
             if self.is_proc_0():
                 t=self.solution.t
+                if not os.path.exists(self.outdir):
+                    os.makedirs(self.outdir)
                 F_file = open(self.F_path,mode)
                 F_file.write(str(t)+' '+' '.join(str(j) for j in F) + '\n')
                 F_file.close()
-- 
2.43.0


From fb2853d96f63fc4d52933fa956c54298a7f7a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:38 +0000
Subject: [PATCH 38/69] fix: read hdf5 frames back with default arguments, also
 next to frames in other formats

---
 src/pyclaw/solution.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index c059bbb..665a893 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -304,7 +304,7 @@ class Solution(object):
 
         
     def read(self, frame, path='./_output', file_format=None, 
-                          file_prefix='fort', read_aux=True, options={}, **kargs):
+                          file_prefix=None, read_aux=True, options={}, **kargs):
         r"""
         Reads in a Solution object from a file
         
@@ -339,11 +339,14 @@ class Solution(object):
         from clawpack.pyclaw.fileio.ascii import read_t
         file_format2 = None
         
-        try:
-            [t,num_eqn,nstates,num_aux,num_dim,num_ghost,file_format2] = \
-                 read_t(frame,path,file_prefix=file_prefix)
-        except:
-            pass
+        # hdf5 frames have no such header; one found next to them belongs to
+        # a frame in another format
+        if file_format not in ('hdf','hdf5'):
+            try:
+                [t,num_eqn,nstates,num_aux,num_dim,num_ghost,file_format2] = \
+                     read_t(frame,path,file_prefix=file_prefix or 'fort')
+            except:
+                pass
 
         if file_format2 is not None:
             # value was read in from file, use it:
-- 
2.43.0


From b28ac68582462caa0b27b9214a16dc233e6a3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:38 +0000
Subject: [PATCH 39/69] fix: reading a frame into a solution in use replaces
 its states (they were appended)

---
 src/pyclaw/solution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 665a893..fb62cab 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -361,6 +361,8 @@ class Solution(object):
             options['format'] = file_format
 
         path = os.path.expandvars(os.path.expanduser(path))
+        # The frame replaces what the solution contained before
+        self.states = []
         if file_prefix is None:
             read_func(self,frame,path,read_aux=read_aux,options=options)
         else:
-- 
2.43.0


From cd9c58b01c52aab7d3e81a256342c495e1679500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:49 +0000
Subject: [PATCH 40/69] fix: refuse binary frames whose data do not match the
 header (misread when the header lost its ghost cell count)

---
 src/pyclaw/fileio/binary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index c09f491..c2fac0d 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -151,6 +151,9 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             patches.append(state.patch)
         solution.domain = pyclaw.geometry.Domain(patches)
 
+    if i_start_patch != len(qdata):
+        raise IOError('Size of %s does not match the header of the frame' % b_fname)
+
 
     # Read auxiliary file if available and requested
     if solution.states[0].num_aux > 0 and read_aux:
@@ -215,3 +218,5 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
 
             i_start_patch = i_end_patch  # prepare for next patch
 
+        if i_start_patch != len(auxdata):
+            raise IOError('Size of %s does not match the header of the frame' % fname)
-- 
2.43.0


From 1ba69e5e80f6df86b27993426207f5cc4c2ce1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:44 +0000
Subject: [PATCH 41/69] fix: in-memory frames contain the derived quantities of
 their own time

---
 src/pyclaw/controller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 230f1cd..15491c4 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -332,11 +332,12 @@ class Controller(object):
             return None
 
         # Output and save initial frame
+        if self.compute_p is not None:
+            self.compute_p(self.solution.state)
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
         if self.output_format is not None:
             if self.compute_p is not None:
-                self.compute_p(self.solution.state)
                 self.solution.write(frame,self.outdir_p,
                                         self.output_format,
                                         self.file_prefix_p,
@@ -365,12 +366,13 @@ class Controller(object):
                 for n in range(self.nstepout):
                     status = self.solver.evolve_to_time(self.solution)
             frame.increment()
+            if self.compute_p is not None:
+                self.compute_p(self.solution.state)
             if self.keep_copy:
                 # Save current solution to dictionary with frame as key
                 self.frames.append(copy.deepcopy(self.solution))
             if self.output_format is not None:
                 if self.compute_p is not None:
-                    self.compute_p(self.solution.state)
                     self.solution.write(frame,self.outdir_p,
                                             self.output_format,
                                             self.file_prefix_p,
-- 
2.43.0


From db6fd67abef1562b6fa8a07a686d9a57de940f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:00 +0000
Subject: [PATCH 42/69] fix: states of a deep copied Solution live on the
 patches of its domain

---
 src/pyclaw/solution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index fb62cab..0e6c20f 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -246,6 +246,13 @@ class Solution(object):
         for state in self.states:
             result.states.append(copy.deepcopy(state))
         result.domain = copy.deepcopy(self.domain)
+        # As in the original, the states live on the patches of the domain
+        if self.domain is not None:
+            result.domain.patches = list(result.domain.patches)
+            for i,patch in enumerate(self.domain.patches):
+                for state,new_state in zip(self.states,result.states):
+                    if state.patch is patch:
+                        result.domain.patches[i] = new_state.patch
         
         return result
     
-- 
2.43.0


From 7938d9c48ebcb9cc1f83605cc1975490c5b8daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:33 +0000
Subject: [PATCH 43/69] fix: gauges written to file keep their full location in
 1D and 3D and their type

---
 src/pyclaw/gauges.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f908ea8..f7c5fe7 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -248,8 +248,10 @@ class GaugeSolution(object):
         gauge_file_name = "gauge%s.txt" % str(self.id).zfill(5)
         with open(os.path.join(path, gauge_file_name), "w") as gauge_file:
 
-            gauge_file.write("# gauge_id= %s location=( %s %s ) num_eqn= %s\n" %
-                 (self.id, self.location[0], self.location[1], self.q.shape[0]))
+            gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
+                 (self.id, " ".join(str(x) for x in self.location), self.q.shape[0]))
+            if self.gtype == 'lagrangian':
+                gauge_file.write("# lagrangian particle\n")
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From b449acc2d425682c100d389070ba3e680e35eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:33 +0000
Subject: [PATCH 44/69] fix: convert_gauges stopped after the first gauge

---
 src/pyclaw/gauges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f7c5fe7..9150ff4 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -388,7 +388,7 @@ def convert_gauges(path, output_path=None):
         new_gauge.write(output_path)
 
         # Test gauge data
-        if not compare_gauges(path, output_path, gauge_id):
+        if not compare_old_gauges(path, output_path, gauge_id):
             print("WARNING:  New gauge data does not match old gauge data.")
             print("          gauge id = %s" % gauge_id)
 
-- 
2.43.0


From 1029fa388ae9e9c54afc89aff6dc282707dae6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:39 +0000
Subject: [PATCH 45/69] fix: gauges just below the upper boundary belong to the
 last cell

---
 src/pyclaw/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 6d31b9a..21e4059 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -402,7 +402,8 @@ class Grid(object):
             # Check if gauge belongs to this grid:
             if all(self.lower[n]<=gauge[n]<self.upper[n] for n in range(self.num_dim)):
                 # Set indices relative to this grid
-                gauge_index = [int((gauge[n]-self.lower[n])//self.delta[n])
+                gauge_index = [min(int((gauge[n]-self.lower[n])//self.delta[n]),
+                                   self.num_cells[n]-1)
                                for n in range(self.num_dim)]
                 gauge_file_name = 'gauge'+'_'.join(str(coord) for coord in gauge)+'.txt'
                 self.gauge_file_names.append(gauge_file_name)
-- 
2.43.0


From 04e92795ce4ac7d4e81e8e081570a381d2f2397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:56 +0000
Subject: [PATCH 46/69] fix: SharpClaw stages use the grid and the parameters
 of the solution being evolved

---
 src/pyclaw/sharpclaw/solver.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 4fd17de..c650bd5 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -314,10 +314,14 @@ class SharpClawSolver(Solver):
         state = solution.states[0]
         step_index = self.status['numsteps'] + 1
 
-        # The stages must use the aux values the state has now, which may have
-        # been changed (e.g. by before_step) since the registers were allocated
-        if state.num_aux > 0:
-            for register in self._registers:
+        # The stages must use the grid, parameters and aux values the state has
+        # now, which may have been changed (e.g. by before_step) since the
+        # registers were allocated, or belong to another solution
+        for register in self._registers:
+            register.patch = state.patch
+            register.problem_data = state.problem_data
+            register.index_capa = state.index_capa
+            if state.num_aux > 0:
                 register.aux[:] = state.aux
 
         if self.accept_step == True:
@@ -603,6 +607,20 @@ class SharpClawSolver(Solver):
         if SharpClawSolver._fortran_user.get(self.fmod) != id(self):
             self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
             SharpClawSolver._fortran_user[self.fmod] = id(self)
+        self._set_fortran_geometry(state,self.fmod.clawparams)
+
+
+    def _set_fortran_geometry(self,state,clawparams):
+        r"""
+        Pass the extents of the grid and the index of the capacity function of the
+        state (which need not be the one the solver was set up for) to Fortran.
+        """
+        grid = state.grid
+        for idim in range(grid.num_dim):
+            clawparams.xlower[idim]=grid.dimensions[idim].lower
+            clawparams.xupper[idim]=grid.dimensions[idim].upper
+        clawparams.dx         = grid.delta
+        clawparams.index_capa = state.index_capa+1
 
 
     def _set_fortran_parameters(self,state,clawparams,workspace,reconstruct):
@@ -617,14 +635,10 @@ class SharpClawSolver(Solver):
         clawparams.char_decomp   = self.char_decomp
         clawparams.tfluct_solver = self.tfluct_solver
         clawparams.fwave         = self.fwave
-        clawparams.index_capa         = state.index_capa+1
 
         clawparams.num_waves     = self.num_waves
         clawparams.alloc_clawparams()
-        for idim in range(grid.num_dim):
-            clawparams.xlower[idim]=grid.dimensions[idim].lower
-            clawparams.xupper[idim]=grid.dimensions[idim].upper
-        clawparams.dx       =grid.delta
+        self._set_fortran_geometry(state,clawparams)
         clawparams.mthlim   =self._mthlim
 
         maxnx = max(grid.num_cells)+2*self.num_ghost
-- 
2.43.0


From f64c08a90232cc1f2035cb5fba09f8ce948a21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 47/69] fix: writing VTK output must not append a component to
 the solution

---
 src/pyclaw/fileio/claw_vtk.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index e4c3785..b1061cb 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -111,7 +111,7 @@ def write(
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-    _set_overlapped_status(solution)
+    overlapped = _get_overlapped_status(solution)
 
     global_origin = solution.state.patch.lower_global + [0.]  # base patch
     levels = [state.patch.level-1 for state in solution.states]
@@ -143,7 +143,10 @@ def write(
     amr.SetOrigin(global_origin)
 
     # get states and initialize the global index (used below)
-    states_sorted = sorted(solution.states, key=lambda a: a.patch.level)
+    order = sorted(range(len(solution.states)),
+                   key=lambda i: solution.states[i].patch.level)
+    states_sorted = [solution.states[i] for i in order]
+    overlapped_sorted = [overlapped[i] for i in order]
     global_index = 0
 
     # for each AMR level create the vtkAMRBox and vtkUniformGrid and add to
@@ -180,11 +183,9 @@ def write(
             # Set the data of the vtkUniformGrid
 
             # get the cell data, and add each to the uniform grid.
-            # ignore the last element of q, which provides info about overlapping.
-            # it is set next.
             q = states_sorted[local_index].q
 
-            for i in range(q.shape[0]-1):
+            for i in range(q.shape[0]):
                 array_name = "q_"+str(i)
                 q_i = q[i, ...]
                 q_i = q_i.transpose()
@@ -203,7 +204,7 @@ def write(
                 grid.GetCellData().AddArray(array)
 
             # mark overlapping cells using the vtkGhostType array name.
-            q_ol = q[-1, ...]  # last piece is used to mark overlapped cells
+            q_ol = overlapped_sorted[local_index]
             q_ol = q_ol.transpose()
             array = numpy_support.numpy_to_vtk(q_ol.ravel(), deep=True, array_type=vtk.VTK_UNSIGNED_CHAR)
             array.SetName("vtkGhostType")
@@ -233,7 +234,7 @@ def write(
     assert success == 1
 
 
-def _set_overlapped_status(sol):
+def _get_overlapped_status(sol):
     """
     return a list, overlapped_states,
     whose entries denote overlapped status for each patch.
@@ -242,8 +243,7 @@ def _set_overlapped_status(sol):
     @param sol: Solution object of pyclaw that contains all information
                 of this time step.
     @rtype:     list
-    @return:    add a component to the solution q,
-                which contains overlapped status of each patch
+    @return:    overlapped status of the cells of each patch
 
     @type level_count:       dictionary
     @variable level_count:   a dictionary that maps levels
@@ -276,6 +276,7 @@ def _set_overlapped_status(sol):
                             key=lambda a: a[0])]
     box_per_level = np.array(box_per_level)
 
+    overlapped_states = []
     for state in sol.states:
         level = state.patch.level-1
         xlower_coarse = state.patch.dimensions[0].lower
@@ -289,7 +290,7 @@ def _set_overlapped_status(sol):
         # in overlapped_status, entry with value 0 denotes
         # that the cell is not overlapped
         # entry with value 8 denotes that the cell is overlapped
-        overlapped_status = np.zeros((1, state.q.shape[1], state.q.shape[2]))
+        overlapped_status = np.zeros((state.q.shape[1], state.q.shape[2]))
         # convert from Fortran-Style to C-style
         # overlapped_status = overlapped_status.transpose(0, 2, 1)
         # In the future, efficiency of this part can be improved
@@ -316,11 +317,11 @@ def _set_overlapped_status(sol):
                     min(int(round((yupper_fine-ylower_fine)/dy)) +
                         y_idx_lower, ny)
                 # set these cells to 8
-                overlapped_status[0, x_idx_lower:x_idx_upper,
+                overlapped_status[x_idx_lower:x_idx_upper,
                                   y_idx_lower:y_idx_upper].fill(8)
 
             else:
                 continue
-        # state.q is in fortran style
-        # state.q = np.vstack((state.q, overlapped_status.transpose(0, 2, 1)))
-        state.q = np.vstack((state.q, overlapped_status))
+        overlapped_states.append(overlapped_status)
+
+    return overlapped_states
-- 
2.43.0


From 5e4d36d560ac8ff4a4ae5b95199e9912c1c1b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 48/69] fix: VTK output hid cells beside fine patches that
 extend beyond (or lie outside) the coarse patch

---
 src/pyclaw/fileio/claw_vtk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index b1061cb..ef1b190 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -308,14 +308,14 @@ def _get_overlapped_status(sol):
                     max(int(round((xlower_fine - xlower_coarse) /
                             float(dx))), 0)
                 x_idx_upper = \
-                    min(int(round((xupper_fine-xlower_fine)/dx)) +
-                        x_idx_lower, nx)
+                    min(max(int(round((xupper_fine - xlower_coarse) /
+                            float(dx))), 0), nx)
                 y_idx_lower = \
                     max(int(round((ylower_fine - ylower_coarse) /
                             float(dy))), 0)
                 y_idx_upper = \
-                    min(int(round((yupper_fine-ylower_fine)/dy)) +
-                        y_idx_lower, ny)
+                    min(max(int(round((yupper_fine - ylower_coarse) /
+                            float(dy))), 0), ny)
                 # set these cells to 8
                 overlapped_status[x_idx_lower:x_idx_upper,
                                   y_idx_lower:y_idx_upper].fill(8)
-- 
2.43.0


From f4509460df8035dc78c69c5dcf61946e5dcb01dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 49/69] fix: VTK output of patches that are not listed from
 coarse to fine (crash or patches with wrong data)

---
 src/pyclaw/fileio/claw_vtk.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index ef1b190..4771a38 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -113,8 +113,12 @@ def write(
     # calculate overlapped status, used to identify some cells as ghosts.
     overlapped = _get_overlapped_status(solution)
 
-    global_origin = solution.state.patch.lower_global + [0.]  # base patch
-    levels = [state.patch.level-1 for state in solution.states]
+    # lower corner of the coarsest patches
+    base_level = min(state.patch.level for state in solution.states)
+    global_origin = [min(lower) for lower in
+                     zip(*[state.patch.lower_global for state in solution.states
+                           if state.patch.level == base_level])] + [0.]
+    levels = [state.patch.level-base_level for state in solution.states]
 
     # shift base level to 0, since the base level in clawpack
     # is 1 while the base level in VTK is 0
@@ -151,7 +155,7 @@ def write(
 
     # for each AMR level create the vtkAMRBox and vtkUniformGrid and add to
     # the vtkOverlappingAMR object.
-    for level in level_count.keys():
+    for level in range(numLevels):
         # get number of blocks per level.
         nblocks = blocksPerLevel[level]
 
-- 
2.43.0


From 929849afedae11fe5eb2558a322320ec4026e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 50/69] fix: VTK output can be written by a Controller and
 without options

---
 src/pyclaw/fileio/claw_vtk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index 4771a38..afb0c15 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -104,10 +104,10 @@ def write(
         - Consider making an equivalent vtk.read function.
     """
     # get options from the options dictionary.
-    binary = options.get("binary", False)
+    binary = (options or {}).get("binary", False)
 
     # check types.
-    assert(isinstance(frame, int))
+    frame = int(str(frame))  # also accepts the frame counter of a Controller
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-- 
2.43.0


From 20331138a37c23cb55ff5dc7c0104a9a89486a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 51/69] fix: a refused change of a Dimension leaves it as it
 was

---
 src/pyclaw/geometry.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 21e4059..5c76959 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -563,28 +563,31 @@ class Dimension(object):
         return self._lower
     @lower.setter
     def lower(self,lower):
-        self._lower = float(lower)
-        self._centers = None  # Reset cached arrays
-        self._nodes = None
-        self._check_validity()
+        self._change('_lower',float(lower))
     @property
     def upper(self):
         return self._upper
     @upper.setter
     def upper(self,upper):
-        self._upper = float(upper)
-        self._centers = None  # Reset cached arrays
-        self._nodes = None
-        self._check_validity()
+        self._change('_upper',float(upper))
     @property
     def num_cells(self):
         return self._num_cells
     @num_cells.setter
     def num_cells(self,num_cells):
-        self._num_cells = int(num_cells)
+        self._change('_num_cells',int(num_cells))
+
+    def _change(self,attr,value):
+        r"""Set an attribute unless that makes the dimension invalid."""
+        old_value = getattr(self,attr)
+        setattr(self,attr,value)
+        try:
+            self._check_validity()
+        except AssertionError:
+            setattr(self,attr,old_value)
+            raise
         self._centers = None  # Reset cached arrays
         self._nodes = None
-        self._check_validity()
 
     def centers_with_ghost(self,num_ghost):
         r"""(ndarrary(:)) - Location of all cell center coordinates
-- 
2.43.0


From 53c692db9826e9c84b2b1c6a22aae83c09bdba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 52/69] fix: refuse a capacity function index outside the aux
 array also on unmapped grids

---
 src/pyclaw/state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 0fb1fbe..baf7bab 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -188,6 +188,9 @@ class State(object):
             if not self.aux.flags['F_CONTIGUOUS']:
                 logger.debug('aux array is not Fortran contiguous.')
                 valid = False
+        if self.index_capa != -1 and not 0 <= self.index_capa < self.num_aux:
+            raise ValueError("Capacity function index out of range. " \
+            "Please set state.index_capa to the appropriate index in the aux array.")
         if self.grid.mapc2p in list(identity_map.values()):
             pass # No mapping
         else:
-- 
2.43.0


From 4f006fa25d32b1501b7a4f9db15181c1fe7d66a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:19 +0000
Subject: [PATCH 53/69] fix: refuse invalid set-ups before gauge files are
 replaced

---
 src/pyclaw/controller.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 15491c4..492bef3 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -233,6 +233,14 @@ class Controller(object):
         if not all([state.is_valid() for state in self.solution.states]):
             raise Exception("Initial states are not valid.")
 
+        # Check that the output formats are known
+        if self.output_format is not None:
+            formats = self.output_format
+            if not isinstance(formats,list):
+                formats = [formats]
+            for file_format in formats:
+                self.solution.get_write_func(file_format)
+
     # ========== Plotting methods ============================================
     def set_plotdata(self):
         from clawpack.visclaw import data
@@ -298,8 +306,6 @@ class Controller(object):
                  \nEither delete/move the directory or set controller.overwrite=True.")
 
         self.start_frame = self.solution.start_frame
-        if len(self.solution.patch.grid.gauges)>0:
-            self.solution.patch.grid.setup_gauge_files(self.outdir)
         frame = FrameCounter()
 
         frame.set_counter(self.start_frame)
@@ -310,9 +316,6 @@ class Controller(object):
 
         self.check_validity()
 
-        # Write initial gauge values
-        self.solver.write_gauge_values(self.solution)
-
         # Output styles
         if self.output_style == 1:
             output_times = np.linspace(self.solution.t,self.tfinal,
@@ -327,10 +330,16 @@ class Controller(object):
 
         if len(output_times) == 0:
             print("No valid output times; halting.")
-            if self.t == self.tfinal:
+            if self.solution.t == self.tfinal:
                 print("Simulation has already reached tfinal.")
             return None
 
+        # Write initial gauge values; existing gauge files are replaced only
+        # when nothing is wrong with the set-up
+        if len(self.solution.patch.grid.gauges)>0:
+            self.solution.patch.grid.setup_gauge_files(self.outdir)
+        self.solver.write_gauge_values(self.solution)
+
         # Output and save initial frame
         if self.compute_p is not None:
             self.compute_p(self.solution.state)
-- 
2.43.0


From 0822c20977929fb6b54ebc59d8f1e215dfe1331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 54/69] fix: additional problem_data of one simulation became
 required parameters of later ones

---
 src/pyclaw/state.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index baf7bab..6cbcf00 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -230,8 +230,11 @@ class State(object):
                 raise Exception("""Some required value(s) in the cparam common 
                                    block in the Riemann solver have not been 
                                    set in problem_data.""")
-            for global_var_name,global_var_value in self.problem_data.items():
-                setattr(fortran_module.cparam,global_var_name,global_var_value)
+            # Other entries of problem_data must not be added to cparam; they
+            # would be required of all later simulations
+            for global_var_name in paramlist:
+                setattr(fortran_module.cparam,global_var_name,
+                        self.problem_data[global_var_name])
 
     def set_num_ghost(self,num_ghost):
         """
-- 
2.43.0


From d7022fa31d2c34db8246b41036dd160d7893042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:03 +0000
Subject: [PATCH 55/69] fix: check the validity of a run before the solver is
 set up (a solver set up for invalid data kept using them)

---
 src/pyclaw/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 492bef3..5c1ebdf 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -310,12 +310,12 @@ class Controller(object):
 
         frame.set_counter(self.start_frame)
 
+        self.check_validity()
+
         if not self.solver._is_set_up:
             self.solver.setup(self.solution)
             self.solver.dt = self.solver.dt_initial
 
-        self.check_validity()
-
         # Output styles
         if self.output_style == 1:
             output_times = np.linspace(self.solution.t,self.tfinal,
-- 
2.43.0


From e349d3e776f7fa5c2fd66452d8aa0cdae398da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:04 +0000
Subject: [PATCH 56/69] fix: refuse a desired CFL number above the maximum
 before output is written

---
 src/pyclaw/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 0592bca..78a0ed9 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -281,6 +281,10 @@ class Solver(object):
         if (None in self.bc_lower) or (None in self.bc_upper):
             valid = False
             reason = 'One of the boundary conditions has not been set.'
+        if self.dt_variable and None not in (self.cfl_max,self.cfl_desired) \
+                and self.cfl_desired > self.cfl_max:
+            valid = False
+            reason = 'the desired CFL number exceeds the maximum CFL number.'
 
         if reason is not None:
             self.logger.debug(reason)
-- 
2.43.0


From 2fb3b3206bacfcdf15f8a5bf1c9a685c2bbbe7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:32 +0000
Subject: [PATCH 57/69] fix: refuse an unknown kernel language when the solver
 is set up, not in the first step

---
 src/pyclaw/classic/solver.py   | 1 +
 src/pyclaw/sharpclaw/solver.py | 2 ++
 src/pyclaw/solver.py           | 4 ++++
 3 files changed, 7 insertions(+)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2dfdf3..384bbe8 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -207,6 +207,7 @@ class ClawSolver(Solver):
         solution.state.set_num_ghost(self.num_ghost)
         # End hack
 
+        self._check_kernel_language()
         self._check_cfl_settings()
 
         self._set_mthlim()
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index c650bd5..fd02730 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -206,6 +206,8 @@ class SharpClawSolver(Solver):
         """
         Allocate RK stage arrays or previous step solutions and fortran routine work arrays.
         """
+        self._check_kernel_language()
+
         if self.lim_type == 2:
             self.num_ghost = (self.weno_order+1)//2
 
diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 78a0ed9..d333517 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -290,6 +290,10 @@ class Solver(object):
             self.logger.debug(reason)
         return valid, reason
 
+    def _check_kernel_language(self):
+        if self.kernel_language not in ('Fortran','Python'):
+            raise Exception("Unrecognized kernel_language; choose 'Fortran' or 'Python'")
+
     def setup(self,solution):
         r"""
         Stub for solver setup routines.
-- 
2.43.0


From a232428a48c6c0700735126e47354fcc851099dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 58/69] fix: refuse Python kernels in 2D and 3D when a
 SharpClaw solver is set up, not in the first step

---
 src/pyclaw/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index d333517..7996bdd 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -293,6 +293,8 @@ class Solver(object):
     def _check_kernel_language(self):
         if self.kernel_language not in ('Fortran','Python'):
             raise Exception("Unrecognized kernel_language; choose 'Fortran' or 'Python'")
+        if self.kernel_language == 'Python' and self.num_dim > 1:
+            raise Exception('Only Fortran kernels are supported in multi-D.')
 
     def setup(self,solution):
         r"""
-- 
2.43.0


From 63a3f9dc90ff457097364e0a2f9b85284fb27e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:56 +0000
Subject: [PATCH 59/69] fix: transmission-based WENO projected waves with the
 transposed eigenvector matrix

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 2ceba47..95ae1c5 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -331,7 +331,7 @@ contains
                     hh(m1,i) = 0.d0
                     do m=1,num_eqn 
                         hh(m1,i) = hh(m1,i)+evl(mw,m,i)* &
-                                    gg(mw,i+m1)*evr(mw,m,i+m1)
+                                    gg(mw,i+m1)*evr(m,mw,i+m1)
                     enddo
                 enddo
             enddo
-- 
2.43.0


From 8b4c68ec7c2dda4e54c924bf7c91e955a8f7f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:39 +0000
Subject: [PATCH 60/69] fix: using the forestclaw format must not change the
 ascii format, and its frames must be readable in a new process

---
 src/forestclaw/fileio/__init__.py |  6 +-----
 src/forestclaw/fileio/ascii.py    | 27 ++++++++++++++++++++-------
 src/pyclaw/solution.py            |  5 +++--
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/forestclaw/fileio/__init__.py b/src/forestclaw/fileio/__init__.py
index 42fbfe7..27ef514 100644
--- a/src/forestclaw/fileio/__init__.py
+++ b/src/forestclaw/fileio/__init__.py
@@ -5,10 +5,6 @@
 import logging
 logger = logging.getLogger('pyclaw.fileio')
 
-from . import ascii as forestascii
-from clawpack.pyclaw.fileio import ascii
-
-ascii.read_patch_header = forestascii.read_patch_header
-ascii.write_patch_header = forestascii.write_patch_header
+from . import ascii
 
 __all__ = ["ascii.read", "ascii.write"]
diff --git a/src/forestclaw/fileio/ascii.py b/src/forestclaw/fileio/ascii.py
index 8464f73..8142590 100644
--- a/src/forestclaw/fileio/ascii.py
+++ b/src/forestclaw/fileio/ascii.py
@@ -3,14 +3,14 @@
 r"""
 Routines for reading and writing an ascii output file from ForestClaw
 """
+import functools
 import logging
 import numpy as np
 # import clawpack.forestclaw as forestclaw
 from clawpack import forestclaw
 
 from .. import Dimension, Patch
-from clawpack.pyclaw.fileio.ascii import write
-from clawpack.pyclaw.fileio.ascii import read
+from clawpack.pyclaw.fileio import ascii as pyclaw_ascii
 from clawpack.pyclaw.util import read_data_line
 
 
@@ -80,8 +80,21 @@ def read_patch_header(f, num_dim):
 
     return patch
 
-# # Replace the ascii module functions with those defined above
-# # ascii.read_patch_header = read_patch_header
-# # ascii.write_patch_header = write_patch_header
-# read = ascii.read
-# write = ascii.write
+
+def _with_forestclaw_headers(function):
+    r"""Let a function of the PyClaw ascii module use the patch headers defined
+    above, only while it runs: they do not suit frames of other codes."""
+    @functools.wraps(function)
+    def wrapped(*args, **kwargs):
+        headers = (pyclaw_ascii.read_patch_header, pyclaw_ascii.write_patch_header)
+        pyclaw_ascii.read_patch_header = read_patch_header
+        pyclaw_ascii.write_patch_header = write_patch_header
+        try:
+            return function(*args, **kwargs)
+        finally:
+            pyclaw_ascii.read_patch_header, pyclaw_ascii.write_patch_header = headers
+    return wrapped
+
+
+read = _with_forestclaw_headers(pyclaw_ascii.read)
+write = _with_forestclaw_headers(pyclaw_ascii.write)
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 0e6c20f..8de8066 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -347,8 +347,9 @@ class Solution(object):
         file_format2 = None
         
         # hdf5 frames have no such header; one found next to them belongs to
-        # a frame in another format
-        if file_format not in ('hdf','hdf5'):
+        # a frame in another format.  ForestClaw frames are ascii frames with
+        # other patch headers.
+        if file_format not in ('hdf','hdf5','forestclaw'):
             try:
                 [t,num_eqn,nstates,num_aux,num_dim,num_ghost,file_format2] = \
                      read_t(frame,path,file_prefix=file_prefix or 'fort')
-- 
2.43.0


From af7f2c2e7dc3c94861d7405418a4126efe6e407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:33 +0000
Subject: [PATCH 61/69] fix: refuse a state whose number of equations differs
 from the solver's

---
 src/pyclaw/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 7996bdd..0e009cc 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -306,6 +306,10 @@ class Solver(object):
         initialization routine.  Typically this is initialization that
         requires knowledge of the solution object.
         """
+        for state in solution.states:
+            if self.num_eqn is not None and state.num_eqn != self.num_eqn:
+                raise ValueError('state.num_eqn=%s differs from solver.num_eqn=%s.'
+                                 % (state.num_eqn,self.num_eqn))
 
         self._is_set_up = True
 
-- 
2.43.0


From a0685dd8c9b8d3d0dab0cc271471b5e71d85f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:43 +0000
Subject: [PATCH 62/69] fix: refuse limiters and orders the kernels do not have

---
 src/pyclaw/classic/solver.py   | 10 ++++++++++
 src/pyclaw/sharpclaw/solver.py |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 384bbe8..f5d9f25 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -174,6 +174,16 @@ class ClawSolver(Solver):
         if len(self._mthlim)==1: self._mthlim = self._mthlim * self.num_waves
         if len(self._mthlim)!=self.num_waves:
             raise Exception('Length of solver.limiters is not equal to 1 or to solver.num_waves')
+        if self.kernel_language == 'Fortran':
+            available = range(6)    # see philim.f90
+        else:
+            available = [0] + list(tvd.limiter_functions)
+        for limiter in self._mthlim:
+            if limiter not in available:
+                raise ValueError('Limiter %s is not available in the %s kernels.'
+                                 % (limiter,self.kernel_language))
+        if self.order not in (1,2):
+            raise ValueError('solver.order must be 1 or 2.')
  
     def _set_method(self,state):
         r"""
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index fd02730..5b32b45 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -565,6 +565,10 @@ class SharpClawSolver(Solver):
             if len(self._mthlim)==1: self._mthlim = self._mthlim * self.num_waves
             if len(self._mthlim)!=self.num_waves:
                 raise Exception('Length of solver.limiters is not equal to 1 or to solver.num_waves')
+        if self.lim_type == 1:
+            for limiter in self._mthlim:
+                if limiter not in range(1,6):   # see reconstruct.f90
+                    raise ValueError('Limiter %s is not available with lim_type=1.' % limiter)
 
        
     def dq(self,state):
-- 
2.43.0


From 46555cb79a34514b32b76c2133aa61bdaca3df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:19 +0000
Subject: [PATCH 63/69] fix: a fixed step size is not altered by roundoff near
 the end of the interval

---
 src/pyclaw/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 0e009cc..1c114fc 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -557,7 +557,8 @@ class Solver(object):
             self.dt_old = self.dt
 
         # Adjust dt so that we hit tend exactly if we are near tend
-        if not take_one_step:
+        # (a fixed dt divides the interval and must not pick up roundoff error)
+        if self.dt_variable and not take_one_step:
             if t + self.dt > tend and tstart < tend:
                 self.dt = tend - t
             if tend - t - self.dt < 1.e-14*t:
-- 
2.43.0


From 6b6998e62f917867723208bb04d38bfd28720c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:53 +0000
Subject: [PATCH 64/69] fix: beta limiter without theta parameter is the beta
 limiter, not first order

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 56c58a8..327e443 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -463,7 +463,7 @@ limiter_functions = {1:minmod_limiter,
                      14:lambda r,cfl:theta_limiter(r,cfl,0.5),
                      15:cfl_superbee,
                      16:cfl_superbee_theta,
-                     17:lambda r,cfl:beta_limiter(r,cfl,theta=0.0),
+                     17:lambda r,cfl:beta_limiter(r,cfl,theta=1.0),
                      18:beta_limiter,
                      19:hyperbee_limiter,
                      20:superpower_limiter,
-- 
2.43.0


From f7994d51d2e1ca9f21235e120f75c2a5f67bb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:24 +0000
Subject: [PATCH 65/69] fix: classic Fortran kernels use the capacity index of
 the state being evolved

---
 src/pyclaw/classic/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index f5d9f25..872741f 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -130,6 +130,8 @@ class ClawSolver(Solver):
             # Another simulation may have changed the common blocks since setup
             solution.state.set_cparam(self.fmod)
             solution.state.set_cparam(self.rp)
+            # The state need not be the one the solver was set up for
+            self._method[5] = solution.state.index_capa + 1
 
         self.step_hyperbolic(solution)
 
-- 
2.43.0


From 9471aeb8a0b7dcbdcb5d32078386d1a9e90e3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:02 +0000
Subject: [PATCH 66/69] fix: general RK integrator calls before_step with the
 stage value

---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 5b32b45..44eee12 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -374,11 +374,11 @@ class SharpClawSolver(Solver):
             for i in range(1,num_stages):
                 self._registers[i].q[:] = state.q
                 self._registers[i].t = state.t + self.dt*self.c[i]
-                if self.call_before_step_each_stage:
-                    self.before_step(self,self._registers[i])
                 for j in range(i):
                     self._registers[i].q += self.a[i,j]*self._registers[j].q
 
+                if self.call_before_step_each_stage:
+                    self.before_step(self,self._registers[i])
                 # self._registers[i].q eventually stores dt*f(y_i) after stage solution y_i is computed
                 self._registers[i].q = self.dq(self._registers[i])
 
-- 
2.43.0


From ecf01724d5ff11c60a99422d25bbff642b757be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:07 +0000
Subject: [PATCH 67/69] fix: SSP multistep methods handle vanishing wave speeds

---
 src/pyclaw/sharpclaw/solver.py | 33 ++++++++++++++++++++++++++-------
 src/pyclaw/solver.py           | 11 +++++------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 44eee12..1421cd5 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -5,6 +5,8 @@ Module containing SharpClaw solvers for PyClaw/PetClaw
 #  Created:     2010-03-20
 #  Author:      David Ketcheson
 """
+import numpy as np
+
 # Solver superclass
 from clawpack.pyclaw.solver import Solver
 from clawpack.pyclaw.util import add_parent_doc
@@ -481,14 +483,12 @@ class SharpClawSolver(Solver):
             self.prev_dq_dt_values.append(self.dq_dt)
             self.prev_dt_values.append(0.) # Not used
             if 'SSPLMM' in self.time_integrator:
-                cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self.get_dtFE()
                 self.prev_dtFE_values.append(dtFE)
                 self.sspcoeff0 = self._sspcoeff['SSP22']
         elif self.accept_step == True: # Previous step was accepted
             if 'SSPLMM' in self.time_integrator:
-                cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self.get_dtFE()
 
                 if self.time_integrator == 'SSPLMMk3' and self.check_lmm_cond:
                     self.lmm_cond = self.check_3rd_ord_cond(state,step_index,dtFE)
@@ -530,6 +530,17 @@ class SharpClawSolver(Solver):
         return step_index
 
 
+    def get_dtFE(self):
+        r"""
+        Largest step size for which a forward Euler step is assumed to be strongly stable.
+        """
+        cfl = self.cfl.get_cached_max()
+        if cfl > 0.0:
+            return self.dt / cfl * self.cfl_max / self.sspcoeff
+        else:
+            return np.inf
+
+
     def check_3rd_ord_cond(self,state,step_index,dtFE):
         r"""
         This routine checks the additional conditions for the 3rd-order SSPLMMs.
@@ -730,7 +741,10 @@ class SharpClawSolver(Solver):
             if step_index < len(self._registers):
                 # Step-size update of starting methods
                 sspcoeff_ratio = self.sspcoeff0/self.sspcoeff
-                self.dt = sspcoeff_ratio * self.dt * self.cfl_desired / cfl
+                if cfl > 0.0:
+                    self.dt = sspcoeff_ratio * self.dt * self.cfl_desired / cfl
+                else:
+                    self.dt = self.dt_max
                 if self.time_integrator == 'SSPLMMk3' and self.check_lmm_cond and not self.lmm_cond:
                     rho = 0.6 if len(self._registers)== 4 else 0.57
                     self.dt = rho * self.dt
@@ -742,13 +756,18 @@ class SharpClawSolver(Solver):
                     p = int(self.time_integrator[-1])
                     mu = min([self.prev_dtFE_values[i] for i in range(s)])
                     H = sum(self.prev_dt_values[1:])
-                    self.dt = H * mu / (H + (p-1)*mu)
+                    if np.isinf(mu):
+                        self.dt = H / (p-1)
+                    else:
+                        self.dt = H * mu / (H + (p-1)*mu)
                 elif self.time_integrator == 'SSPLMMk3' and self.check_lmm_cond:
                     self.dt = 0.5 * self.dt
 
         # Step-size update for RK methods
-        else:
+        elif cfl > 0.0:
             self.dt = self.dt * self.cfl_desired / cfl
+        else:
+            self.dt = self.dt_max
 
         self.dt = min(self.dt_max,self.dt)
 
diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 1c114fc..f841eef 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -544,15 +544,14 @@ class Solver(object):
 
     def get_dt_new(self):
         cfl = self.cfl.get_cached_max()
-        self.dt = min(self.dt_max,self.dt * self.cfl_desired / cfl)
+        if cfl > 0.0:
+            self.dt = min(self.dt_max,self.dt * self.cfl_desired / cfl)
+        else:
+            self.dt = self.dt_max
 
     def get_dt(self,t,tstart,tend,take_one_step):
-        cfl = self.cfl.get_cached_max()
         if self.dt_variable and self.dt_old is not None:
-            if cfl > 0.0:
-                self.get_dt_new()
-            else:
-                self.dt = self.dt_max
+            self.get_dt_new()
         else:
             self.dt_old = self.dt
 
-- 
2.43.0


From 0843cafffc4f9a33f1c1d9210b88a471226d544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:12 +0000
Subject: [PATCH 68/69] fix: frames are found in directories named with ~ or
 environment variables

---
 src/pyclaw/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 8de8066..936a77a 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -344,6 +344,7 @@ class Solution(object):
         """
 
         from clawpack.pyclaw.fileio.ascii import read_t
+        path = os.path.expandvars(os.path.expanduser(path))
         file_format2 = None
         
         # hdf5 frames have no such header; one found next to them belongs to
@@ -368,7 +369,6 @@ class Solution(object):
         else:
             options['format'] = file_format
 
-        path = os.path.expandvars(os.path.expanduser(path))
         # The frame replaces what the solution contained before
         self.states = []
         if file_prefix is None:
-- 
2.43.0


From e1247c64025183c0a5be66f3cd0ce41f91ecd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:12 +0000
Subject: [PATCH 69/69] fix: all output of a run goes to the same expanded
 directory

---
 src/pyclaw/controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 5c1ebdf..1e3005a 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -300,6 +300,10 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
+        # All output (frames, gauges and functionals) goes to the same directory
+        if self.outdir is not None:
+            self.outdir = os.path.expandvars(os.path.expanduser(self.outdir))
+
         if self.output_format is not None:
             if os.path.exists(self.outdir) and self.overwrite is False:
                 raise Exception("Refusing to overwrite existing output data. \
-- 
2.43.0

