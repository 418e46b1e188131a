From abfca1ee9cb57c1291f3d79247bba714849f7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:57 +0000
Subject: [PATCH 01/74] fix: superbee limiter of the Python kernels clipped
 min(2,r) at zero

The Python superbee limiter returned max(0,min(1,2r)) instead of
max(0,min(1,2r),min(2,r)), so the Python and Fortran kernels disagreed
wherever r > 1.
---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 223be46..d2d2718 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -157,7 +157,7 @@ def superbee_limiter(r,cfl):
     Superbee vectorized limiter
     """
     a = np.ones((2,len(r)))
-    b = np.zeros((2,len(r)))
+    b = 2.0*np.ones((2,len(r)))
     c = np.zeros((3,len(r)))
 
     a[1,:] = 2.0*r
-- 
2.43.0


From ebc578b99bd039a77136ca063685ae17ca1ad7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:09 +0000
Subject: [PATCH 02/74] fix: sweep all ghost lines in the dimensionally split
 3D step

step3ds updated only the ghost lines next to the domain, so the second and
third sweeps limited waves computed from outer ghost cells that had not been
advanced: opposite periodic boundaries then saw different fluxes and the
scheme was not conservative.  step2ds sweeps every ghost line; do the same.
---
 src/pyclaw/classic/step3ds.f90 | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f9f2729..de20bf8 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -131,8 +131,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform x-sweeps
         ! ==================
     
-        do k = 0,mz+1
-            do j = 0,my+1
+        do k = 1-num_ghost,mz+num_ghost
+            do j = 1-num_ghost,my+num_ghost
             
                 forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -148,8 +148,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 ! Since dimensional splitting is used, only aux2 is needed.
             
                 if (num_aux > 0)  then
-                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, ka = -1:1)
-                    aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
+                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost)
+                    aux2(ma,i,2) = aux(ma,i,j,k)
                     end forall
                 endif
             
@@ -212,8 +212,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform y sweeps
         ! ==================
     
-        do k = 0, mz+1
-            do i = 0, mx+1
+        do k = 1-num_ghost, mz+num_ghost
+            do i = 1-num_ghost, mx+num_ghost
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -231,8 +231,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 if (num_aux > 0)  then
                     ! There's a decent chance aux2 will all fit into cache,
                     ! so keep accesses to aux as contiguous as possible.
-                    forall (ma=1:num_aux,ia= -1:1, j = 1-num_ghost:my+num_ghost)
-                    aux2(ma, j, 2+ia) = aux(ma, i+ia, j, k)
+                    forall (ma=1:num_aux, j = 1-num_ghost:my+num_ghost)
+                    aux2(ma, j, 2) = aux(ma, i, j, k)
                     end forall
                 endif
             
@@ -295,8 +295,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! ==================
     
     
-        do j = 0, my+1
-            do i = 0, mx+1
+        do j = 1-num_ghost, my+num_ghost
+            do i = 1-num_ghost, mx+num_ghost
             
                 forall (m = 1:num_eqn, k = 1-num_ghost:mz+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -314,8 +314,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 if (num_aux > 0)  then
                     ! There's a decent chance aux2 will all fit into cache,
                     ! so keep accesses to aux as contiguous as possible.
-                    forall (ma=1:num_aux,ja= -1:1, k = 1-num_ghost:mz+num_ghost)
-                        aux2(ma, k, 2+ja) = aux(ma, i, j+ja, k)
+                    forall (ma=1:num_aux, k = 1-num_ghost:mz+num_ghost)
+                        aux2(ma, k, 2) = aux(ma, i, j, k)
                     end forall
                 endif
             
-- 
2.43.0


From 0c6492f12f4a5aa822f1c6863860e01e73f517fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:16 +0000
Subject: [PATCH 03/74] fix: keep the bounds of dtdx in SharpClaw runs with a
 capacity function

Assigning to the whole allocatable array reallocated it with lower bound 1,
so that every cell used the capacity of a cell num_ghost away.
---
 src/pyclaw/sharpclaw/flux1.f90 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index e631ada..21a48bd 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -57,7 +57,9 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
     dq1d(:,:) = 0.d0
 
     if (index_capa.gt.0) then
-        dtdx = dt / (dx(ixyz)*aux(index_capa,:))
+        ! Assign to a section: assigning to the whole allocatable array would
+        ! reallocate it with lower bound 1 and shift dtdx by num_ghost cells
+        dtdx(1-num_ghost:mx+num_ghost) = dt / (dx(ixyz)*aux(index_capa,:))
     else
         dtdx = dt / dx(ixyz)
     endif
-- 
2.43.0


From 2e773807aeb12d3bb950419ea422ee0daf742149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:16 +0000
Subject: [PATCH 04/74] fix: copy index_capa when a State is deep-copied

The Runge-Kutta registers of SharpClaw and the frames kept by the controller
are deep copies; without index_capa they ignored the capacity function.
---
 src/pyclaw/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 9608b0b..5e31ffd 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -312,7 +312,7 @@ class State(object):
         result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         
-        for attr in ('t'):
+        for attr in ('t','index_capa'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
         
         if self.q is not None:
-- 
2.43.0


From bf331394bdeaa0ebf0852e8cbe1af5d6948dfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 05/74] fix: index cell centers by a tuple in Grid.c_center and
 p_center

NumPy takes a list as an index array along the first axis, so in two and three
dimensions the result was not the center of the given cell.
---
 src/pyclaw/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 240b312..d8fd3ac 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -325,7 +325,7 @@ class Grid(object):
     def c_center(self,ind):
         r"""Compute center of computational cell with index ind."""
 
-        index = [np.array(i) for i in ind]
+        index = tuple(ind)
         return np.array([self.c_centers[i][index] for i in range(self.num_dim)])
 
     def p_center(self,ind):
-- 
2.43.0


From 28776b3a163bd3fd5d52da6c6c41fa916384bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 06/74] fix: copy q and aux out of the solver's ghost-cell
 arrays

The state was left with views of the solver's work arrays.  Using the solver
on a second solution overwrote the first one, and in two and three dimensions
the state was not valid any more, so that a controller could not be run again.
---
 src/pyclaw/state.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 5e31ffd..7ceb47f 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -240,15 +240,19 @@ class State(object):
         """
         Set the value of q using the array qbc. Typically this is called
         after qbc has been updated by the solver.
+
+        The values are copied: q must not share memory with the solver's work
+        array, which the solver may next use for another state, and must be
+        Fortran contiguous for the state to be valid.
         """
         
         num_dim = self.patch.num_dim
         if num_dim == 1:
-            self.q = qbc[:,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost].copy('F')
         elif num_dim == 2:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         elif num_dim == 3:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
             
@@ -259,11 +263,11 @@ class State(object):
         
         patch = self.patch
         if patch.num_dim == 1:
-            self.aux = auxbc[:,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost].copy('F')
         elif patch.num_dim == 2:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         elif patch.num_dim == 3:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
 
-- 
2.43.0


From db388cc2153cb5b568ffe7a6b0425de28ba0d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 07/74] fix: recompute cached grid coordinates after a
 dimension changes

The grid noticed a change of a dimension only until the dimension's own
arrays were computed again, and then returned coordinates of the old extent.
---
 src/pyclaw/geometry.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index d8fd3ac..6634b67 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -211,6 +211,7 @@ class Grid(object):
         self._p_nodes = None
         self._c_centers = None
         self._c_nodes = None
+        self._cached_extent = None
 
         # Dimension parsing
         if isinstance(dimensions,Dimension):
@@ -227,6 +228,14 @@ class Grid(object):
         self._c_centers = None
         self._c_nodes = None
 
+    def _discard_stale_values(self):
+        r"""Clear the cached coordinates if a dimension has changed since they
+        were computed."""
+        extent = [(dim.lower,dim.upper,dim.num_cells) for dim in self.dimensions]
+        if extent != self._cached_extent:
+            self._clear_cached_values()
+            self._cached_extent = extent
+
     # ========== Dimension Manipulation ======================================
     def add_dimension(self,dimension):
         r"""
@@ -280,8 +289,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        self._discard_stale_values()
+        if recompute or (self._c_centers is None):
             index = np.indices(self.num_cells)
             self._c_centers = []
             for i,center_array in enumerate(self.get_dim_attribute('centers')):
@@ -293,8 +302,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        self._discard_stale_values()
+        if recompute or (self._c_nodes is None):
             index = np.indices(n+1 for n in self.num_cells)
             self._c_nodes = []
             for i,edge_array in enumerate(self.get_dim_attribute('nodes')):
@@ -306,8 +315,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        self._discard_stale_values()
+        if recompute or (self._p_centers is None):
             self._compute_c_centers(recompute=recompute)
             self._p_centers = self.mapc2p(*self._c_centers)
 
@@ -317,8 +326,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        self._discard_stale_values()
+        if recompute or (self._p_nodes is None):
             self._compute_c_nodes(recompute=recompute)
             self._p_nodes = self.mapc2p(*self._c_nodes)
 
-- 
2.43.0


From 83b34a54d55f7dd6f03376e6868a8d9d81742618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 08/74] fix: reconstruct at the last interface in wave-based
 TVD SharpClaw

The states on the two sides of the upper boundary were left unreconstructed,
so that the scheme was not conservative on periodic domains.
---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4db6953..3a65c6f 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -767,7 +767,7 @@ contains
 
         do mw=1,num_waves
             dotr = 0.d0
-            do i=num_ghost,mx2-num_ghost
+            do i=num_ghost,mx2-num_ghost+1
                 wnorm2=0.d0
                 dotl=dotr
                 dotr=0.d0
-- 
2.43.0


From 565346df351b6198d9052b7805a7a4c897fb8a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 09/74] fix: component-wise TVD reconstruction where
 neighboring cells are equal

The ratio of slopes was infinite or NaN, and with the van Leer limiter the
solution became NaN on constant data.
---
 src/pyclaw/sharpclaw/reconstruct.f90 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 3a65c6f..a213c03 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -606,7 +606,12 @@ contains
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-                r=dqp/dqm
+                if (dqm.ne.0.d0) then
+                    r=dqp/dqm
+                else
+                    ! The limited slope is a multiple of dqm; any finite r will do
+                    r=0.d0
+                endif
 
                 select case(mthlim(m))
                 case(1)
-- 
2.43.0


From d9b9f06f84b72576fa1a546c12b964b13ebc2bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 10/74] fix: keep the user's max_steps when evolving to a time

evolve_to_time overwrote it (with 0 when already at the end time, with the
number of steps when dt is fixed), so that later calls stopped early or raised.
---
 src/pyclaw/solver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 72ce8e1..8a1084f 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -583,12 +583,13 @@ class Solver(object):
         num_steps = 0
 
         # Setup for the run
+        max_steps = self.max_steps
         if not self.dt_variable:
             if take_one_step:
-                self.max_steps = 1
+                max_steps = 1
             else:
-                self.max_steps = int((tend - tstart + 1e-10) / self.dt)
-                if abs(self.max_steps*self.dt - (tend - tstart)) >      \
+                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
                                     'is fixed!')
@@ -597,12 +598,12 @@ class Solver(object):
                             'CFL')
         if not take_one_step:
             if tend <= tstart:
-                self.logger.info("Already at or beyond end time: no evolution ",
+                self.logger.info("Already at or beyond end time: no evolution "
                                  "required.")
-                self.max_steps = 0
+                max_steps = 0
 
         # Main time-stepping loop
-        for n in range(self.max_steps):
+        for n in range(max_steps):
 
             state = solution.state
 
@@ -660,7 +661,7 @@ class Solver(object):
 
         if not take_one_step:
             if self.dt_variable and solution.t < tend \
-                    and num_steps == self.max_steps:
+                    and num_steps == max_steps:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From 30f4e9635192ca0dea336973e7ffd6302001a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 11/74] fix: raise when max_steps is exhausted although steps
 were rejected

Rejected steps count towards max_steps, but not towards num_steps, so the run
returned silently before the end time.
---
 src/pyclaw/solver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 8a1084f..4323e59 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -660,8 +660,7 @@ class Solver(object):
         # End of main time-stepping loop -------------------------------------
 
         if not take_one_step:
-            if self.dt_variable and solution.t < tend \
-                    and num_steps == max_steps:
+            if self.dt_variable and solution.t < tend:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From dffa44ef5c87b48e04089a9e53d36d1a679cb843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 12/74] fix: count fixed steps independently of the time scale

An absolute tolerance of 1e-10 made runs on short time scales raise and long
runs stop a step early; the fixed step is not altered near the end time.
---
 src/pyclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 4323e59..614fab5 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -545,7 +545,7 @@ class Solver(object):
             self.dt_old = self.dt
 
         # Adjust dt so that we hit tend exactly if we are near tend
-        if not take_one_step:
+        if self.dt_variable and not take_one_step:
             if t + self.dt > tend and tstart < tend:
                 self.dt = tend - t
             if tend - t - self.dt < 1.e-14*t:
@@ -588,7 +588,7 @@ class Solver(object):
             if take_one_step:
                 max_steps = 1
             else:
-                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                max_steps = int(round((tend - tstart) / self.dt))
                 if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
-- 
2.43.0


From 762e4d90b60bcd42a899b20073a560304c1e7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 13/74] fix: retry a rejected step when a single step is
 requested

---
 src/pyclaw/solver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 614fab5..c01941e 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -653,15 +653,19 @@ class Solver(object):
 
             # See if we are finished yet
             if take_one_step:
-                break
+                if self.accept_step:
+                    break
             elif solution.t >= tend:
                 break
 
         # End of main time-stepping loop -------------------------------------
 
-        if not take_one_step:
-            if self.dt_variable and solution.t < tend:
-                raise Exception("Maximum number of timesteps have been taken")
+        if take_one_step:
+            reached_end = num_steps == 1
+        else:
+            reached_end = solution.t >= tend
+        if self.dt_variable and not reached_end:
+            raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
 
-- 
2.43.0


From a2e48ffb3762abf072c752b47ded6855e021c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 14/74] fix: report the smallest and largest step actually
 taken

---
 src/pyclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index c01941e..8636487 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -537,8 +537,6 @@ class Solver(object):
         if self.dt_variable and self.dt_old is not None:
             if cfl > 0.0:
                 self.get_dt_new()
-                self.status['dtmin'] = min(self.dt, self.status['dtmin'])
-                self.status['dtmax'] = max(self.dt, self.status['dtmax'])
             else:
                 self.dt = self.dt_max
         else:
@@ -624,6 +622,8 @@ class Solver(object):
             if self.accept_step:
                 # Accept this step
                 self.status['cflmax'] = max(cfl, self.status['cflmax'])
+                self.status['dtmin'] = min(self.dt, self.status['dtmin'])
+                self.status['dtmax'] = max(self.dt, self.status['dtmax'])
                 if self.dt_variable:
                     solution.t += self.dt
                 else:
-- 
2.43.0


From a80e4cfe9af8888d923f03bd930e25d60bc2276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:28 +0000
Subject: [PATCH 15/74] fix: respect dt_max in SharpClaw

---
 src/pyclaw/sharpclaw/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7f991e6..d965a88 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -684,6 +684,8 @@ class SharpClawSolver(Solver):
         else:
             self.dt = self.dt * self.cfl_desired / cfl
 
+        self.dt = min(self.dt_max, self.dt)
+
 
 
 # ========================================================================
-- 
2.43.0


From b0a01f44c2c3c01b34b1ab558229210ce704ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 16/74] fix: no evolution needed when a fixed-step run is past
 the end time

It raised 'dt does not divide (tend-tstart)' instead.
---
 src/pyclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 8636487..ede1fca 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -585,7 +585,7 @@ class Solver(object):
         if not self.dt_variable:
             if take_one_step:
                 max_steps = 1
-            else:
+            elif tend > tstart:
                 max_steps = int(round((tend - tstart) / self.dt))
                 if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
-- 
2.43.0


From 1f72baecf742248892e85ba66e340bf302bca8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:56 +0000
Subject: [PATCH 17/74] fix: SSP multistep methods divided by a zero Courant
 number

---
 src/pyclaw/sharpclaw/solver.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index d965a88..8380725 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -444,13 +444,13 @@ class SharpClawSolver(Solver):
             self.prev_dt_values.append(0.) # Not used
             if 'SSPLMM' in self.time_integrator:
                 cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self._get_dtFE(cfl)
                 self.prev_dtFE_values.append(dtFE)
                 self.sspcoeff0 = self._sspcoeff['SSP22']
         elif self.accept_step == True: # Previous step was accepted
             if 'SSPLMM' in self.time_integrator:
                 cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self._get_dtFE(cfl)
 
                 if self.time_integrator == 'SSPLMMk3' and self.check_lmm_cond:
                     self.lmm_cond = self.check_3rd_ord_cond(state,step_index,dtFE)
@@ -492,6 +492,15 @@ class SharpClawSolver(Solver):
         return step_index
 
 
+    def _get_dtFE(self,cfl):
+        r"""
+        Largest forward Euler step allowed by the Courant number cfl of the current step.
+        """
+        if cfl > 0.:
+            return self.dt / cfl * self.cfl_max / self.sspcoeff
+        return self.dt_max
+
+
     def check_3rd_ord_cond(self,state,step_index,dtFE):
         r"""
         This routine checks the additional conditions for the 3rd-order SSPLMMs.
-- 
2.43.0


From 83753450e4d673325265050b06f05a70533a967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 18/74] fix: let several SharpClaw solvers of one dimension
 coexist

The second setup aborted the process (already allocated module arrays), and
deleting one solver freed the arrays of another.  A solver now sets the shared
module data again when another solver has used it in between.
---
 src/pyclaw/sharpclaw/ClawParams.f90  |  3 +++
 src/pyclaw/sharpclaw/reconstruct.f90 | 40 +++++++++-------------------
 src/pyclaw/sharpclaw/solver.py       | 38 +++++++++++++++++++++-----
 src/pyclaw/sharpclaw/workspace.f90   | 11 +++++---
 src/pyclaw/solver.py                 | 14 +++++++++-
 5 files changed, 66 insertions(+), 40 deletions(-)

diff --git a/src/pyclaw/sharpclaw/ClawParams.f90 b/src/pyclaw/sharpclaw/ClawParams.f90
index b1e2835..855e3e8 100644
--- a/src/pyclaw/sharpclaw/ClawParams.f90
+++ b/src/pyclaw/sharpclaw/ClawParams.f90
@@ -17,6 +17,9 @@ contains
 
     subroutine alloc_clawparams()
 
+        ! Another solver may have left its arrays here
+        call dealloc_clawparams()
+
         allocate(xlower(num_dim))
         allocate(xupper(num_dim))
         allocate(dx(num_dim))
diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index a213c03..98db4ad 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -18,6 +18,9 @@ contains
     subroutine alloc_recon_workspace(maxnx,num_ghost,num_eqn,num_waves,lim_type,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp,lim_type
 
+        ! Another solver may have left its arrays here
+        call dealloc_recon_workspace(lim_type,char_decomp)
+
         select case(lim_type)
             case(1)
             select case(char_decomp)
@@ -57,34 +60,15 @@ contains
     subroutine dealloc_recon_workspace(lim_type,char_decomp)
         integer,intent(in) :: lim_type,char_decomp
 
-        select case(lim_type)
-            case(1)
-            select case(char_decomp)
-                case(1) ! Storage for tvd2_wave()
-                    deallocate(uu)
-                case(2) ! Storage for tvd2_char()
-                    deallocate(dq)
-                    deallocate( u)
-                    deallocate(hh)
-            end select
-            case(2)
-             select case(char_decomp)
-                case(0)
-                    deallocate(uu)
-                    deallocate(dq1m)
-                case(2) ! Storage for weno5_char
-                    deallocate(dq)
-                    deallocate(uu)
-                    deallocate(hh)
-                case(3) ! Storage for weno5_trans
-                    deallocate(dq)
-                    deallocate(gg)
-                    deallocate( u)
-                    deallocate(hh)
-                    deallocate(uh)
-            end select
-            recon_alloc = .False.
-        end select
+        if (allocated(uu)) deallocate(uu)
+        if (allocated(dq1m)) deallocate(dq1m)
+        if (allocated(dq)) deallocate(dq)
+        if (allocated(gg)) deallocate(gg)
+        if (allocated(u)) deallocate(u)
+        if (allocated(hh)) deallocate(hh)
+        if (allocated(uh)) deallocate(uh)
+        recon_alloc = .False.
+
     end subroutine dealloc_recon_workspace
 
 ! ===================================================================
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 8380725..64db0e0 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -177,6 +177,7 @@ class SharpClawSolver(Solver):
         self._registers = None
         self.dq_dt = None
         self.dt_old = None        
+        self._fmod_key = object() # Marks the Fortran module as set up for this solver
 
         # Used only if time integrator is 'RK'
         self.a = None
@@ -255,25 +256,48 @@ class SharpClawSolver(Solver):
             if self.fmod is None:
                 so_name = 'clawpack.pyclaw.sharpclaw.sharpclaw'+str(self.num_dim)
                 self.fmod = __import__(so_name,fromlist=['clawpack.pyclaw.sharpclaw'])
-            state.set_cparam(self.fmod)
-            state.set_cparam(self.rp)
-            state.set_cparam(self.tfluct)
-            self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+            self._set_cparams(state)
+            self._claim_fortran_modules(state)
 
         self._allocate_bc_arrays(state)
 
         super(SharpClawSolver,self).setup(solution)
 
 
+    def _set_cparams(self,state):
+        state.set_cparam(self.fmod)
+        state.set_cparam(self.rp)
+        state.set_cparam(self.tfluct)
+
+
+    def _claim_fortran_modules(self,state):
+        """
+        Set the data of the Fortran modules, which all solvers of this dimension share.
+        """
+        self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+        self.fmod._pyclaw_owner = self._fmod_key
+
+
+    def _resume(self,solution):
+        if self.kernel_language=='Fortran':
+            state = solution.states[0]
+            self._set_cparams(state)
+            if getattr(self.fmod,'_pyclaw_owner',None) is not self._fmod_key:
+                self._claim_fortran_modules(state)
+
+
     def __del__(self):
         r"""
         Deallocate F90 module arrays.
         Also delete Fortran objects, which otherwise tend to persist in Python sessions.
         """
         if self.kernel_language=='Fortran':
-            self.fmod.clawparams.dealloc_clawparams()
-            self.fmod.workspace.dealloc_workspace(self.char_decomp)
-            self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+            # The Fortran arrays may belong to another solver by now
+            if getattr(self.fmod,'_pyclaw_owner',None) is self._fmod_key:
+                self.fmod.clawparams.dealloc_clawparams()
+                self.fmod.workspace.dealloc_workspace(self.char_decomp)
+                self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+                self.fmod._pyclaw_owner = None
             del self.fmod
 
         super(SharpClawSolver,self).__del__()
diff --git a/src/pyclaw/sharpclaw/workspace.f90 b/src/pyclaw/sharpclaw/workspace.f90
index 6dde6e4..8e23780 100644
--- a/src/pyclaw/sharpclaw/workspace.f90
+++ b/src/pyclaw/sharpclaw/workspace.f90
@@ -16,6 +16,9 @@ contains
     subroutine alloc_workspace(maxnx,num_ghost,num_eqn,num_waves,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp
 
+        ! Another solver may have left its arrays here
+        call dealloc_workspace(char_decomp)
+
         allocate(ql(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(qr(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(amdq(num_eqn,1-num_ghost:maxnx+num_ghost))
@@ -49,11 +52,11 @@ contains
             deallocate(wave)
             deallocate(s)
             deallocate(dtdx)
+        endif
 
-            if (char_decomp>1) then
-                deallocate(evl)
-                deallocate(evr)
-            endif
+        if (allocated(evl)) then
+            deallocate(evl)
+            deallocate(evr)
         endif
 
         work_alloc = .False.
diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index ede1fca..75d2458 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -299,6 +299,16 @@ class Solver(object):
 
         self._is_set_up = True
 
+    def _resume(self,solution):
+        r"""
+        Stub for restoring what other solvers may have changed.
+
+        This function is called by evolve_to_time if the solver has been set
+        up before.  A subclass should override it if it uses data that it
+        shares with other solvers, such as the data of a Fortran module.
+        """
+        pass
+
     def __del__(self):
         r"""
         Stub for solver teardown routines.
@@ -567,7 +577,9 @@ class Solver(object):
          - (dict) - Returns the status dictionary of the solver
         """
 
-        if not self._is_set_up:
+        if self._is_set_up:
+            self._resume(solution)
+        else:
             self.setup(solution)
 
         if tend is None:
-- 
2.43.0


From d573eee83bdc5d32433a6944fb499d4a2cf7f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:54 +0000
Subject: [PATCH 19/74] fix: use the problem data of the solution that is being
 advanced

Riemann solver parameters were only set at the first call, so that advancing a
second solution with other parameters changed the physics of the first one.
---
 src/pyclaw/classic/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2fec21..5c650c7 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -233,6 +233,11 @@ class ClawSolver(Solver):
         solution.state.set_cparam(self.fmod)
         solution.state.set_cparam(self.rp)
 
+    def _resume(self,solution):
+        if self.kernel_language == 'Fortran':
+            solution.state.set_cparam(self.fmod)
+            solution.state.set_cparam(self.rp)
+
     def __del__(self):
         r"""
         Delete Fortran objects, which otherwise tend to persist in Python sessions.
-- 
2.43.0


From 39c9871d4501303014900e9c4be24d24395c70d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 20/74] fix: apply the source term when the Courant number
 equals cfl_max

Such a step is accepted, but its source term was skipped.
---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 5c650c7..9c65f9c 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -131,7 +131,7 @@ class ClawSolver(Solver):
         # Check here if the CFL condition is satisfied. 
         # If not, return # immediately to evolve_to_time and let it deal with
         # picking a new step size (dt).
-        if self.cfl.get_cached_max() >= self.cfl_max:
+        if self.cfl.get_cached_max() > self.cfl_max:
             return False
 
         if self.step_source is not None:
-- 
2.43.0


From 3b38c3d21ce7ec8879e510186a3e6b8ba0632c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:06 +0000
Subject: [PATCH 21/74] fix: do not add other problem data to the cparam common
 block

An entry of problem_data that is no Riemann solver parameter was required from
every later run in the same process that used the Riemann solver.
---
 src/pyclaw/state.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 7ceb47f..2c5fac1 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -227,8 +227,11 @@ class State(object):
                 raise Exception("""Some required value(s) in the cparam common 
                                    block in the Riemann solver have not been 
                                    set in problem_data.""")
-            for global_var_name,global_var_value in self.problem_data.items():
-                setattr(fortran_module.cparam,global_var_name,global_var_value)
+            # Set only what is in the common block: anything else would look like
+            # a part of it (and so be required) from then on.
+            for global_var_name in paramlist:
+                setattr(fortran_module.cparam,global_var_name,
+                        self.problem_data[global_var_name])
 
     def set_num_ghost(self,num_ghost):
         """
-- 
2.43.0


From e6e751adae137e6cb1f8d03294a4431c30cebd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:06 +0000
Subject: [PATCH 22/74] fix: hand defined states to the Riemann solver at the
 outermost interfaces

SharpClaw passed uninitialized reconstructed values there; euler_3D stopped the
process when it found a non-positive density in them.
---
 src/pyclaw/sharpclaw/flux1.f90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index 21a48bd..d3193f8 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -124,6 +124,13 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
       end select
 
 
+    ! The reconstruction leaves the outermost cells undefined, but the Riemann
+    ! solver looks at them (and may object to what it finds)
+    ql(:,1-num_ghost:0) = q1d(:,1-num_ghost:0)
+    ql(:,mx+2:mx+num_ghost) = q1d(:,mx+2:mx+num_ghost)
+    qr(:,1-num_ghost:-1) = q1d(:,1-num_ghost:-1)
+    qr(:,mx+1:mx+num_ghost) = q1d(:,mx+1:mx+num_ghost)
+
     ! solve Riemann problem at each interface 
     ! -----------------------------------------
     if (num_dim.eq.1) then
-- 
2.43.0


From 2638013ee538b3111044c6ba2c57f0c07f6c4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:49 +0000
Subject: [PATCH 23/74] fix: evaluate the CFL-dependent limiters at each
 interface separately

---
 src/pyclaw/limiters/tvd.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index d2d2718..9b63221 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -323,17 +323,17 @@ def beta_limiter(r,cfl,theta=0.95,beta=0.66666666666666666):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
-    ultra = np.max(b)
+    b[1,:] = np.min(a,axis=0)
+    ultra = np.max(b,axis=0)
     
     a[0,:] = 1.0 + (s2 - beta/2.0) * (r-1.0)
     a[1,:] = 1.0 + (s2 + beta/2.0) * (r-1.0)
     b[0,:] = ultra
-    b[1,:] = np.max(a)
+    b[1,:] = np.max(a,axis=0)
     a[0,:] = 0.0
-    a[1,:] = np.min(b)
+    a[1,:] = np.min(b,axis=0)
     
-    return np.max(a)
+    return np.max(a,axis=0)
 
 
 def hyperbee_limiter(r,cfl):
@@ -387,20 +387,20 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a)
+    cfl = np.min(a,axis=0)
     a[1,:] = 0.05
-    cfl = np.max(a)
+    cfl = np.max(a,axis=0)
     
     # Multiply all parts except b[0,:] by (1.0 - epsilon) as well
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
-    b[1,::2] *= (1.0 - epsilon)
-    a[0,:] = np.min(b)
+    b[1:,:] *= (1.0 - epsilon)
+    a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
     
-    return np.max(a)
+    return np.max(a,axis=0)
     
 def cada_torrilhon_limiter_nonlinear(r,cfl):
     r"""
@@ -413,10 +413,10 @@ def cada_torrilhon_limiter_nonlinear(r,cfl):
     a[0,:] = 1.0 + s2 * (r - 1.0)
     a[1,:] = 2.0 * np.abs(r) / (0.6 + np.abs(r))
     a[2,:] = 5.0 / np.abs(r)
-    b[0,:] = np.min(a)
+    b[0,:] = np.min(a,axis=0)
     b[1,:] = -3.0 / np.abs(r)
     
-    return np.max(b)
+    return np.max(b,axis=0)
     
 def upper_bound_limiter(r,cfl,theta=1.0):
     r"""
@@ -439,9 +439,9 @@ def upper_bound_limiter(r,cfl,theta=1.0):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
+    b[1,:] = np.min(a,axis=0)
     
-    return np.max(b)
+    return np.max(b,axis=0)
 
 
 # ============================================================================
-- 
2.43.0


From 0c1c65df19042fff9a6cdf3e0dbe7fd266521be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:12 +0000
Subject: [PATCH 24/74] fix: record gauges in three dimensions

---
 src/pyclaw/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 75d2458..52e5e42 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -711,6 +711,11 @@ class Solver(object):
                 if solution.num_aux > 0:
                     aux = solution.state.aux[:,ix,iy]
                 q=solution.state.q[:,ix,iy]
+            elif self.num_dim == 3:
+                ix, iy, iz = gauge
+                if solution.num_aux > 0:
+                    aux = solution.state.aux[:,ix,iy,iz]
+                q=solution.state.q[:,ix,iy,iz]
             p=self.compute_gauge_values(q,aux)
             if not hasattr(p,'__iter__'):
                 p = [p]
-- 
2.43.0


From c8a03f48b7ee919d09c7c72c5c401b4838a8525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:12 +0000
Subject: [PATCH 25/74] fix: write to the gauge files just opened, not to
 closed ones of an earlier run

---
 src/pyclaw/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 6634b67..d3e31f2 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -425,6 +425,7 @@ class Grid(object):
             except OSError:
                 print("gauge directory already exists, ignoring")
 
+        self.gauge_files = []
         for gauge in self.gauge_file_names:
             gauge_file = os.path.join(gauge_path,gauge)
             if os.path.isfile(gauge_file):
-- 
2.43.0


From 9e2e5de011c5ff00d1198295c7db675e791f77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:12 +0000
Subject: [PATCH 26/74] fix: keep gauges next to the upper boundary in the last
 cell

---
 src/pyclaw/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index d3e31f2..e9ed010 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -407,7 +407,9 @@ class Grid(object):
             # Check if gauge belongs to this grid:
             if all(self.lower[n]<=gauge[n]<self.upper[n] for n in range(self.num_dim)):
                 # Set indices relative to this grid
-                gauge_index = [int((gauge[n]-self.lower[n])//self.delta[n])
+                # (the quotient may be rounded up to num_cells next to the upper boundary)
+                gauge_index = [min(int((gauge[n]-self.lower[n])//self.delta[n]),
+                                   self.num_cells[n]-1)
                                for n in range(self.num_dim)]
                 gauge_file_name = 'gauge'+'_'.join(str(coord) for coord in gauge)+'.txt'
                 self.gauge_file_names.append(gauge_file_name)
-- 
2.43.0


From a6cea6ff39ab8c881bba7ffebfde7d4055662019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 27/74] fix: ascii header of derived quantities gives their
 number

---
 src/pyclaw/fileio/ascii.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 39e3cb6..679c6f8 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -38,11 +38,14 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being written.  ``default = {}``
     """
+    # Number of components in the fort.q file
+    num_eqn = solution.mp if write_p else solution.num_eqn
+
     # Write fort.txxxx file
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
         f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % solution.num_eqn)
+        f.write("%5i                  num_eqn\n" % num_eqn)
         f.write("%5i                  nstates\n" % len(solution.states))
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
-- 
2.43.0


From bd1862802069cf995dd07ebe8d4689084cb09459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:27 +0000
Subject: [PATCH 28/74] fix: hdf5 files of derived quantities give their number

---
 src/pyclaw/fileio/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 69e2c54..fe56939 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -111,7 +111,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
                 # General patch properties
                 subgroup.attrs['t'] = state.t
-                subgroup.attrs['num_eqn'] = state.num_eqn
+                subgroup.attrs['num_eqn'] = state.mp if write_p else state.num_eqn
                 subgroup.attrs['num_aux'] = state.num_aux
                 for attr in ['num_ghost','patch_index','level']:
                     if hasattr(patch,attr):
-- 
2.43.0


From d962bc76566df3147bfdadb5b708321d13864538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 29/74] fix: do not add a component to the solution when
 writing vtk files

---
 src/pyclaw/fileio/claw_vtk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index e4c3785..6b9802f 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -5,6 +5,7 @@
 # Modified by Katy Barnhart
 # date 05/2020
 
+import copy
 import sys
 import os
 import numpy as np
@@ -111,6 +112,8 @@ def write(
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
+    # This adds a component to q, so do it to a copy.
+    solution = copy.deepcopy(solution)
     _set_overlapped_status(solution)
 
     global_origin = solution.state.patch.lower_global + [0.]  # base patch
-- 
2.43.0


From cec0d0e4261516f127207d3d27d1d88a38c37545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 30/74] fix: let the controller write vtk files

---
 src/pyclaw/fileio/claw_vtk.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index 6b9802f..5541c0a 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -108,7 +108,6 @@ def write(
     binary = options.get("binary", False)
 
     # check types.
-    assert(isinstance(frame, int))
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-- 
2.43.0


From 193c7fe000d31520565a4bc25fd1a2c720569d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 31/74] fix: read aux data of binary files without ghost cells

---
 src/pyclaw/fileio/binary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 6604815..1fc94ed 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -190,7 +190,9 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             auxpatch = np.reshape(auxpatch, aux_shape, order='F')
 
             # Fill in aux values
-            if patch.num_dim == 1:
+            if mbc == 0:
+                state.aux = auxpatch
+            elif patch.num_dim == 1:
                 ##  NOT YET TESTED ##
                 state.aux = auxpatch[:,mbc:-mbc]
             elif patch.num_dim == 2:
-- 
2.43.0


From 99bd35484a01c8c318e1f9523672383884b0320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:34 +0000
Subject: [PATCH 32/74] fix: vtk files marked cells beside a finer patch as
 covered by it

---
 src/pyclaw/fileio/claw_vtk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index 5541c0a..ea7f77a 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -309,14 +309,14 @@ def _set_overlapped_status(sol):
                     max(int(round((xlower_fine - xlower_coarse) /
                             float(dx))), 0)
                 x_idx_upper = \
-                    min(int(round((xupper_fine-xlower_fine)/dx)) +
-                        x_idx_lower, nx)
+                    max(min(int(round((xupper_fine-xlower_coarse)/dx)),
+                            nx), 0)
                 y_idx_lower = \
                     max(int(round((ylower_fine - ylower_coarse) /
                             float(dy))), 0)
                 y_idx_upper = \
-                    min(int(round((yupper_fine-ylower_fine)/dy)) +
-                        y_idx_lower, ny)
+                    max(min(int(round((yupper_fine-ylower_coarse)/dy)),
+                            ny), 0)
                 # set these cells to 8
                 overlapped_status[0, x_idx_lower:x_idx_upper,
                                   y_idx_lower:y_idx_upper].fill(8)
-- 
2.43.0


From abeed6f4cf38addf39ce66ace1ea264d48d73416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:18 +0000
Subject: [PATCH 33/74] fix: WENO reconstruction read beyond the shorter lines
 of non-square grids

---
 src/pyclaw/sharpclaw/flux1.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index d3193f8..66572ba 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -89,7 +89,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
         case(2) ! lim_type = 2: High-order WENO reconstruction
         select case (char_decomp)
             case (0) ! no characteristic decomposition
-                call weno_comp(q1d,ql,qr,num_eqn,maxnx,num_ghost)
+                call weno_comp(q1d,ql,qr,num_eqn,mx,num_ghost)
             case (1) ! wave-based reconstruction
                 if (num_dim.eq.1) then
                     call rp(maxnx,num_eqn,num_waves,num_aux,num_ghost,mx,&
@@ -116,7 +116,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
                 stop
         end select
         case(3)
-            call weno5(q1d,ql,qr,num_eqn,maxnx,num_ghost)
+            call weno5(q1d,ql,qr,num_eqn,mx,num_ghost)
         case default
             write(*,*) 'ERROR: Unrecognized limiter type option'
             write(*,*) 'You should set 1<=lim_type<=3'
-- 
2.43.0


From 4792f471e855ddc9c959e129653aa8e2ed46a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:18 +0000
Subject: [PATCH 34/74] fix: wave-based WENO reconstruction read and wrote
 outside of its arrays

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 98db4ad..fc8095f 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -410,7 +410,7 @@ contains
         mx2  = size(q,2); num_eqn = size(q,1); num_waves=size(wave,2)
 
         ! loop over interfaces (i-1/2)
-        do i=2,mx2
+        do i=num_ghost+1,mx2-num_ghost+1
             ! Compute the part of the reconstruction that is stencil-independent
             do m=1,num_eqn
                 qr(m,i-1) = (-q(m,i-2)+7.*(q(m,i-1)+q(m,i))-q(m,i+1))/12.
@@ -499,7 +499,7 @@ contains
       end forall
 
       ! loop over interfaces (i-1/2)
-      do i=2,mx2+2
+      do i=num_ghost+1,mx2-num_ghost+1
         ! Compute the part of the reconstruction that is
         !  stencil-independent
         do m=1,num_eqn
-- 
2.43.0


From a6dfedd70e8deb00958a0a6af202cbca5f6a6392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:42 +0000
Subject: [PATCH 35/74] fix: f-wave based WENO reconstruction divided by zero
 wave speeds

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index fc8095f..8d55ec9 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -494,7 +494,8 @@ contains
       ! convert fwaves to waves by dividing by the sound speed
       ! We do this in place to save memory
       ! and get away with it because the waves are never used again
-      forall(i=1:mx2,mw=1:num_waves,m=1:num_eqn)
+      ! (a wave that does not move has no f-wave, and says nothing about the slope)
+      forall(i=1:mx2,mw=1:num_waves,m=1:num_eqn, s(mw,i).ne.0.d0)
           fwave(m,mw,i)=fwave(m,mw,i)/s(mw,i)
       end forall
 
-- 
2.43.0


From b2a46e413cf5048627fa735d91d16736851db114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:10 +0000
Subject: [PATCH 36/74] fix: Runge-Kutta stages used the aux data and
 parameters of the time of setup

---
 src/pyclaw/sharpclaw/solver.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 64db0e0..251b43f 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -311,6 +311,7 @@ class SharpClawSolver(Solver):
         `solver.time_integrator`.
         """
         state = solution.states[0]
+        self._update_registers(state)
         step_index = self.status['numsteps'] + 1
         if self.accept_step == True:
             self.cfl.set_global_max(0.)
@@ -652,6 +653,17 @@ class SharpClawSolver(Solver):
             self._registers.append(copy.deepcopy(state))
 
 
+    def _update_registers(self,state):
+        r"""
+        Let the stages see the auxiliary data and parameters of the state that is
+        advanced; these may have changed since the registers were allocated.
+        """
+        for register in self._registers:
+            register.problem_data = state.problem_data
+            if state.aux is not None:
+                register.aux = state.aux.copy('F')
+
+
     def accept_reject_step(self,state):
         r"""
         Decide whether to accept or not the current step.
-- 
2.43.0


From 32c6cc5eb6c5f42016588e0ec45bf9c81faad126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:08 +0000
Subject: [PATCH 37/74] fix: method-of-lines solvers kept the cell sizes and
 capacity index of the first solution

---
 src/pyclaw/sharpclaw/solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 251b43f..edfd7de 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -282,8 +282,9 @@ class SharpClawSolver(Solver):
         if self.kernel_language=='Fortran':
             state = solution.states[0]
             self._set_cparams(state)
-            if getattr(self.fmod,'_pyclaw_owner',None) is not self._fmod_key:
-                self._claim_fortran_modules(state)
+            # Other solvers may have changed the data of the modules, and the grid
+            # may be another one than in the last call
+            self._claim_fortran_modules(state)
 
 
     def __del__(self):
@@ -655,10 +656,12 @@ class SharpClawSolver(Solver):
 
     def _update_registers(self,state):
         r"""
-        Let the stages see the auxiliary data and parameters of the state that is
+        Let the stages see the grid, auxiliary data and parameters of the state that is
         advanced; these may have changed since the registers were allocated.
         """
         for register in self._registers:
+            register.patch = state.patch
+            register.index_capa = state.index_capa
             register.problem_data = state.problem_data
             if state.aux is not None:
                 register.aux = state.aux.copy('F')
-- 
2.43.0


From b1543ad01447551cc25ef76b43927b852e613abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:30 +0000
Subject: [PATCH 38/74] fix: unknown reconstruction settings ended the whole
 process without an error

---
 src/pyclaw/sharpclaw/solver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index edfd7de..e812b97 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -210,6 +210,14 @@ class SharpClawSolver(Solver):
         if self.lim_type == 2 and self.weno_order != 5 and self.kernel_language == 'Python':
             raise Exception('Only 5th-order WENO reconstruction is implemented in Python kernels. \
                              Use Fortran for higher-order WENO.')
+        if self.kernel_language == 'Fortran':
+            # The Fortran routines would end the whole process
+            if self.lim_type not in (1,2,3):
+                raise Exception('solver.lim_type must be 1, 2 or 3 with Fortran kernels.')
+            if self.char_decomp not in (0,1,2,3):
+                raise Exception('solver.char_decomp must be 0, 1, 2 or 3.')
+            if self.lim_type == 2 and self.weno_order not in range(5,18,2):
+                raise Exception('solver.weno_order must be an odd number between 5 and 17.')
         # This is a hack to deal with the fact that petsc4py
         # doesn't allow us to change the stencil_width (num_ghost)
         state = solution.state
-- 
2.43.0


From 67b93b34b60de5721eac19b084a37460ec30a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:24 +0000
Subject: [PATCH 39/74] fix: write gauges of one- and three-dimensional
 problems

---
 src/pyclaw/gauges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f908ea8..5b5c1d1 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -248,8 +248,9 @@ class GaugeSolution(object):
         gauge_file_name = "gauge%s.txt" % str(self.id).zfill(5)
         with open(os.path.join(path, gauge_file_name), "w") as gauge_file:
 
-            gauge_file.write("# gauge_id= %s location=( %s %s ) num_eqn= %s\n" %
-                 (self.id, self.location[0], self.location[1], self.q.shape[0]))
+            location = " ".join([str(x) for x in self.location])
+            gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
+                 (self.id, location, self.q.shape[0]))
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From 132eca68ae4848644193f29554fe8145038302f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:24 +0000
Subject: [PATCH 40/74] fix: gauge files keep the type of lagrangian gauges

---
 src/pyclaw/gauges.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 5b5c1d1..0bf645c 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -251,6 +251,8 @@ class GaugeSolution(object):
             location = " ".join([str(x) for x in self.location])
             gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
                  (self.id, location, self.q.shape[0]))
+            if self.gtype == 'lagrangian':
+                gauge_file.write("# Lagrangian particle\n")
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From daf5465b9cefa2489db9729abf85d64b989c3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:24 +0000
Subject: [PATCH 41/74] fix: convert gauge files of the old format

---
 src/pyclaw/gauges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 0bf645c..a17f665 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -389,7 +389,7 @@ def convert_gauges(path, output_path=None):
         new_gauge.write(output_path)
 
         # Test gauge data
-        if not compare_gauges(path, output_path, gauge_id):
+        if not compare_old_gauges(path, output_path, gauge_id):
             print("WARNING:  New gauge data does not match old gauge data.")
             print("          gauge id = %s" % gauge_id)
 
-- 
2.43.0


From c60b6023856be498646db9b560758ad8c5680716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 42/74] fix: the beta=2/3 limiter was zero everywhere

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 9b63221..33a1e94 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -463,7 +463,7 @@ limiter_functions = {1:minmod_limiter,
                      14:lambda r,cfl:theta_limiter(r,cfl,0.5),
                      15:cfl_superbee,
                      16:cfl_superbee_theta,
-                     17:lambda r,cfl:beta_limiter(r,cfl,theta=0.0),
+                     17:lambda r,cfl:beta_limiter(r,cfl,theta=1.0),
                      18:beta_limiter,
                      19:hyperbee_limiter,
                      20:superpower_limiter,
-- 
2.43.0


From b489cd07ca87a1ee8f416b7cb58b4d2efa06d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:37 +0000
Subject: [PATCH 43/74] fix: limiters 11 and 20 were not a number at zero and
 unit Courant numbers

---
 src/pyclaw/limiters/tvd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 33a1e94..a499ace 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -207,9 +207,9 @@ def arora_roe(r,cfl):
     a = np.empty((3,len(r)))
     b = np.zeros((2,len(r)))
     
-    s1 = (caut * 2.0 / cfl)
+    s1 = (caut * 2.0 / np.maximum(cfl,0.001))
     s2 = (1.0 + cfl) / 3.0
-    phimax = caut * 2.0 / (1.0 - cfl)
+    phimax = caut * 2.0 / (1.0 - np.minimum(cfl,0.999))
     
     a[0,:] = s1 * r
     a[1,:] = 1.0 + s2 * (r - 1.0)
@@ -367,8 +367,10 @@ def superpower_limiter(r,cfl,caut=1.0):
     s2 = (1.0 + cfl) / 3.0
     s3 = 1.0 - s2
     
-    pp = (((r<=1.0) * np.abs(2.0/cfl) * caut) * 2.0 * s3 
-            + (r > 1.0) * (np.abs(2.0)/(1.0 - cfl) * caut) * 2.0 * s2)
+    cfmod1 = np.maximum(cfl,0.001)
+    cfmod2 = np.minimum(cfl,0.999)
+    pp = (((r<=1.0) * np.abs(2.0/cfmod1) * caut) * 2.0 * s3 
+            + (r > 1.0) * (np.abs(2.0)/(1.0 - cfmod2) * caut) * 2.0 * s2)
             
     rabs = np.abs(r)
     rfrac = np.abs((1.0 - rabs) / (1.0 + rabs))
-- 
2.43.0


From 3f512b3a190bd62da57de313d4e644f9c09214b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 44/74] fix: solutions could not be created from a single patch
 or dimension

---
 src/pyclaw/solution.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 08d209b..b804fec 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -149,12 +149,13 @@ class Solution(object):
             if isinstance(arg[1],Domain):
                 self.domain = arg[1]
             else:
-                if not isinstance(arg[1],(list,tuple)):
-                    arg[1] = list(arg[1])
-                if isinstance(arg[1][0],Dimension):
-                    self.domain = Domain(Patch(arg[1]))
-                elif isinstance(arg[1][0],Patch):
-                    self.domain = Domain(arg[1])
+                geom = arg[1]
+                if not isinstance(geom,(list,tuple)):
+                    geom = [geom]
+                if isinstance(geom[0],Dimension):
+                    self.domain = Domain(Patch(geom))
+                elif isinstance(geom[0],Patch):
+                    self.domain = Domain(geom)
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
 
-- 
2.43.0


From d28201ce81315460916a5ba9122d01c03ee44c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 45/74] fix: solutions created from numbers of equations and
 aux fields had no list of states

---
 src/pyclaw/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index b804fec..b6ac733 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -168,7 +168,7 @@ class Solution(object):
                     # List of States
                     self.states = arg[0]
                 elif isinstance(arg[0][0],int):
-                    self.states = State(self.domain,arg[0][0],arg[0][1])
+                    self.states.append(State(self.domain,arg[0][0],arg[0][1]))
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
             elif isinstance(arg[0],int):
-- 
2.43.0


From 906ca5454da69c45ae559f6951aa4542ad19a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 46/74] fix: count_from_zero was ignored for a frame given by
 keyword

---
 src/pyclaw/solution.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index b6ac733..10cc84f 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -133,6 +133,8 @@ class Solution(object):
 
         self.states = []
         self.domain = None
+        if len(arg) == 0 and 'frame' in kargs:
+            arg = (kargs.pop('frame'),)
         if len(arg) == 1:
             # Load frame
             frame = int(arg[0])
@@ -176,10 +178,7 @@ class Solution(object):
             if self.states == [] or self.domain is None:
                 raise Exception("Invalid arguments for Solution initialization.")
         elif len(arg) == 0:
-            if 'frame' in kargs:
-                frame = int(kargs.pop('frame'))
-                self.read(frame,**kargs)
-            elif not kargs:
+            if not kargs:
                 pass  # With no arguments, initialize empty solution
             else:
                 raise Exception("Invalid arguments for Solution initialization.")
-- 
2.43.0


From 4939912cea5befc9566d2f688c582b557d4231ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 47/74] fix: 'edges' of solutions and states was missing from
 the grid

---
 src/pyclaw/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index e9ed010..d61a76c 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -132,7 +132,7 @@ class Grid(object):
         # Note that this only gets called when one requests an attribute
         # that the grid itself doesn't possess.
         if key in ['num_cells','lower','upper','delta','units','centers','nodes',
-                    'on_lower_boundary','on_upper_boundary']:
+                    'edges','on_lower_boundary','on_upper_boundary']:
             return self.get_dim_attribute(key)
         else:
             raise AttributeError("'Grid' object has no attribute '"+key+"'")
-- 
2.43.0


From 44babdc74c481eb4a6091d31a1e59e73b7982e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:10 +0000
Subject: [PATCH 48/74] fix: method arguments other than strings were refused
 on the command line

---
 src/pyclaw/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index 6fa22a4..3523fe8 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -642,7 +642,7 @@ def _method_info_from_argv(argv=None):
         except ValueError:
             pass
         if value=='True': value=True
-        if value.lower()=='false': value=False
+        if isinstance(value,str) and value.lower()=='false': value=False
         if key:
             kwargs[key] = value
         else:
-- 
2.43.0


From 5b19b354497d4b8a4576082f1721fbbfbe0c3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:10 +0000
Subject: [PATCH 49/74] fix: all variants collected from gen_variants ran the
 last one

---
 src/pyclaw/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index 3523fe8..266909f 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -168,7 +168,7 @@ def gen_variants(application, verifier, kernel_languages=('Fortran',), disable_p
             solver_info = 'solver_type={solver_type!s}, '
         else:
             solver_info = ''
-        test = lambda: test_app(application, verifier, test_kwargs)
+        test = lambda test_kwargs=test_kwargs: test_app(application, verifier, test_kwargs)
         test.description = '%s(%s)' % (test_name, str(kwargs))
         yield test
     return
-- 
2.43.0


From 66a24aa3e13c850be1c9d80785c2d389e7434f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 50/74] fix: states and domain of a copied solution share their
 patches

---
 src/pyclaw/geometry.py | 5 +++--
 src/pyclaw/solution.py | 4 ++--
 src/pyclaw/state.py    | 6 ++++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index d61a76c..04af9c2 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -821,8 +821,9 @@ class Domain(object):
 
     def __deepcopy__(self,memo={}):
         import copy
-        result = self.__class__(copy.deepcopy(self.patches))
-        result.__init__(copy.deepcopy(self.patches))
+        patches = copy.deepcopy(self.patches,memo)
+        result = self.__class__(patches)
+        result.__init__(patches)
 
         return result
 
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 10cc84f..db77fca 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -243,8 +243,8 @@ class Solution(object):
         
         # Populate the states
         for state in self.states:
-            result.states.append(copy.deepcopy(state))
-        result.domain = copy.deepcopy(self.domain)
+            result.states.append(copy.deepcopy(state,memo))
+        result.domain = copy.deepcopy(self.domain,memo)
         
         return result
     
diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 2c5fac1..b45ed4f 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -316,8 +316,10 @@ class State(object):
         
     def __deepcopy__(self,memo={}):
         import copy
-        result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
-        result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
+        # The memo makes states and domain of a copied solution share their patches
+        patch = copy.deepcopy(self.patch,memo)
+        result = self.__class__(patch,self.num_eqn,self.num_aux)
+        result.__init__(patch,self.num_eqn,self.num_aux)
         
         for attr in ('t','index_capa'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
-- 
2.43.0


From 0eb205b6fbdc4707a09ce25f081c728b35a25e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:13 +0000
Subject: [PATCH 51/74] fix: a copied solution continues with the frame number
 of the original

---
 src/pyclaw/solution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index db77fca..a4c51df 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -245,6 +245,7 @@ class Solution(object):
         for state in self.states:
             result.states.append(copy.deepcopy(state,memo))
         result.domain = copy.deepcopy(self.domain,memo)
+        result._start_frame = self._start_frame
         
         return result
     
-- 
2.43.0


From 5b728a624135294e8eafeda9e95c5f317e404e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 52/74] fix: unsplit first-order 3D steps used correction waves
 that were never computed

---
 src/pyclaw/classic/flux3.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/classic/flux3.f90 b/src/pyclaw/classic/flux3.f90
index 545dea3..beab4f3 100644
--- a/src/pyclaw/classic/flux3.f90
+++ b/src/pyclaw/classic/flux3.f90
@@ -191,6 +191,11 @@ subroutine flux3(ixyz,maxm,num_eqn,num_waves,num_ghost,mx, &
         ! unsplit method
         m3 = method(3)/10
         m4 = method(3) - 10*m3
+        if (method(2) == 1) then
+            ! there are no correction waves
+            m3 = min(m3,1)
+            m4 = min(m4,1)
+        endif
     endif
 
     ! -----------------------------------------------------------
-- 
2.43.0


From e20870798d72aeb3ba2a6e5e85598f37610bdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 53/74] fix: classic solvers kept some of the settings of the
 first call

---
 src/pyclaw/classic/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 9c65f9c..84b9391 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -234,7 +234,10 @@ class ClawSolver(Solver):
         solution.state.set_cparam(self.rp)
 
     def _resume(self,solution):
+        # Settings of the method may have been changed since the last call
+        self._set_mthlim()
         if self.kernel_language == 'Fortran':
+            self._set_method(solution.state)
             solution.state.set_cparam(self.fmod)
             solution.state.set_cparam(self.rp)
 
-- 
2.43.0


From 2b3accb96204d474ea884b4c8ff512293385509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:13 +0000
Subject: [PATCH 54/74] fix: method-of-lines solvers kept limiters and ghost
 cells of the first call

---
 src/pyclaw/sharpclaw/solver.py | 44 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index e812b97..879bfa6 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -204,20 +204,8 @@ class SharpClawSolver(Solver):
         """
         Allocate RK stage arrays or previous step solutions and fortran routine work arrays.
         """
-        if self.lim_type == 2:
-            self.num_ghost = (self.weno_order+1)//2
+        self._set_reconstruction()
 
-        if self.lim_type == 2 and self.weno_order != 5 and self.kernel_language == 'Python':
-            raise Exception('Only 5th-order WENO reconstruction is implemented in Python kernels. \
-                             Use Fortran for higher-order WENO.')
-        if self.kernel_language == 'Fortran':
-            # The Fortran routines would end the whole process
-            if self.lim_type not in (1,2,3):
-                raise Exception('solver.lim_type must be 1, 2 or 3 with Fortran kernels.')
-            if self.char_decomp not in (0,1,2,3):
-                raise Exception('solver.char_decomp must be 0, 1, 2 or 3.')
-            if self.lim_type == 2 and self.weno_order not in range(5,18,2):
-                raise Exception('solver.weno_order must be an odd number between 5 and 17.')
         # This is a hack to deal with the fact that petsc4py
         # doesn't allow us to change the stencil_width (num_ghost)
         state = solution.state
@@ -256,7 +244,6 @@ class SharpClawSolver(Solver):
             raise KeyError('Maximum CFL number is not provided.')
 
         self._allocate_registers(solution)
-        self._set_mthlim()
 
         state = solution.states[0]
  
@@ -272,6 +259,27 @@ class SharpClawSolver(Solver):
         super(SharpClawSolver,self).setup(solution)
 
 
+    def _set_reconstruction(self):
+        r"""
+        Check the settings of the reconstruction, and set what depends on them.
+        """
+        if self.lim_type == 2:
+            self.num_ghost = (self.weno_order+1)//2
+
+        if self.lim_type == 2 and self.weno_order != 5 and self.kernel_language == 'Python':
+            raise Exception('Only 5th-order WENO reconstruction is implemented in Python kernels. \
+                             Use Fortran for higher-order WENO.')
+        if self.kernel_language == 'Fortran':
+            # The Fortran routines would end the whole process
+            if self.lim_type not in (1,2,3):
+                raise Exception('solver.lim_type must be 1, 2 or 3 with Fortran kernels.')
+            if self.char_decomp not in (0,1,2,3):
+                raise Exception('solver.char_decomp must be 0, 1, 2 or 3.')
+            if self.lim_type == 2 and self.weno_order not in range(5,18,2):
+                raise Exception('solver.weno_order must be an odd number between 5 and 17.')
+        self._set_mthlim()
+
+
     def _set_cparams(self,state):
         state.set_cparam(self.fmod)
         state.set_cparam(self.rp)
@@ -287,8 +295,14 @@ class SharpClawSolver(Solver):
 
 
     def _resume(self,solution):
+        # Settings of the method may have been changed since the last call
+        state = solution.states[0]
+        num_ghost = self.num_ghost
+        self._set_reconstruction()
+        if self.num_ghost != num_ghost:
+            state.set_num_ghost(self.num_ghost)
+            self._allocate_bc_arrays(state)
         if self.kernel_language=='Fortran':
-            state = solution.states[0]
             self._set_cparams(state)
             # Other solvers may have changed the data of the modules, and the grid
             # may be another one than in the last call
-- 
2.43.0


From 1849997de0331e63c85fcc9f61c577da0b43d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:03 +0000
Subject: [PATCH 55/74] fix: reading a frame into a used solution kept its old
 states

---
 src/pyclaw/solution.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index a4c51df..71e042b 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -357,11 +357,18 @@ class Solution(object):
             options['format'] = file_format
 
         path = os.path.expandvars(os.path.expanduser(path))
-        if file_prefix is None:
-            read_func(self,frame,path,read_aux=read_aux,options=options)
-        else:
-            read_func(self,frame,path,file_prefix=file_prefix,
-                                    read_aux=read_aux,options=options)
+        # The formats append to states, so discard what the solution held before
+        old_states = self.states
+        self.states = []
+        try:
+            if file_prefix is None:
+                read_func(self,frame,path,read_aux=read_aux,options=options)
+            else:
+                read_func(self,frame,path,file_prefix=file_prefix,
+                                        read_aux=read_aux,options=options)
+        except Exception:
+            self.states = old_states
+            raise
         logging.getLogger('pyclaw.fileio').info("Read in solution for time t=%s" % self.t)
 
 
-- 
2.43.0


From 52b88beba57efcfb8dc752dec5eabaa0fecccc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:18 +0000
Subject: [PATCH 56/74] fix: frames read from single precision files were
 advanced in single precision

---
 src/pyclaw/fileio/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 1fc94ed..30bcc97 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -63,7 +63,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         if file_format in ['binary', 'binary64']:
             qdata = np.fromfile(file=b_file, dtype=np.float64)
         elif file_format == 'binary32':
-            qdata = np.fromfile(file=b_file, dtype=np.float32)
+            qdata = np.fromfile(file=b_file, dtype=np.float32).astype(np.float64)
         else:
             msg = "Unrecognized file_format: %s" % file_format
             logger.critical(msg)
@@ -170,7 +170,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             if file_format in ['binary', 'binary64']:
                 auxdata = np.fromfile(file=b_file, dtype=np.float64)
             elif file_format == 'binary32':
-                auxdata = np.fromfile(file=b_file, dtype=np.float32)
+                auxdata = np.fromfile(file=b_file, dtype=np.float32).astype(np.float64)
             else:
                 msg = "Unrecognized file_format: %s" % file_format
                 logger.critical(msg)
-- 
2.43.0


From 38fdd77cbd6d62473f9009e7001489c2edbcda37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:05 +0000
Subject: [PATCH 57/74] fix: a frame whose aux data could not be read left the
 solution with a domain of other states

---
 src/pyclaw/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 71e042b..6ab861e 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -358,7 +358,7 @@ class Solution(object):
 
         path = os.path.expandvars(os.path.expanduser(path))
         # The formats append to states, so discard what the solution held before
-        old_states = self.states
+        old_states, old_domain = self.states, self.domain
         self.states = []
         try:
             if file_prefix is None:
@@ -367,7 +367,7 @@ class Solution(object):
                 read_func(self,frame,path,file_prefix=file_prefix,
                                         read_aux=read_aux,options=options)
         except Exception:
-            self.states = old_states
+            self.states, self.domain = old_states, old_domain
             raise
         logging.getLogger('pyclaw.fileio').info("Read in solution for time t=%s" % self.t)
 
-- 
2.43.0


From 62456b9930b70f0137d812adcb70dcdb1f05d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:46 +0000
Subject: [PATCH 58/74] fix: method-of-lines solvers used the derivative of old
 data after a call that ended with a rejected step

---
 src/pyclaw/sharpclaw/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 879bfa6..a27f43e 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -295,6 +295,10 @@ class SharpClawSolver(Solver):
 
 
     def _resume(self,solution):
+        if 'LMM' not in self.time_integrator:
+            # If the last call ended with a rejected step, its derivative must not be
+            # used again, since the data may be others now
+            self.accept_step = True
         # Settings of the method may have been changed since the last call
         state = solution.states[0]
         num_ghost = self.num_ghost
-- 
2.43.0


From ce41e8669ccfb6f4b211c66109e3d07140d581e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:46 +0000
Subject: [PATCH 59/74] fix: a run that refused to overwrite existing output
 had removed the gauge files and kept a frame

---
 src/pyclaw/controller.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 772edb1..e549e72 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -293,7 +293,13 @@ class Controller(object):
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
         self.start_frame = self.solution.start_frame
-        if len(self.solution.patch.grid.gauges)>0:
+        has_gauges = len(self.solution.patch.grid.gauges)>0
+        if self.output_format is not None or has_gauges:
+            if os.path.exists(self.outdir) and self.overwrite is False:
+                raise Exception("Refusing to overwrite existing output data. \
+                 \nEither delete/move the directory or set controller.overwrite=True.")
+
+        if has_gauges:
             self.solution.patch.grid.setup_gauge_files(self.outdir)
         frame = FrameCounter()
 
@@ -330,9 +336,6 @@ class Controller(object):
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
         if self.output_format is not None:
-            if os.path.exists(self.outdir) and self.overwrite is False:
-                raise Exception("Refusing to overwrite existing output data. \
-                 \nEither delete/move the directory or set controller.overwrite=True.")
             if self.compute_p is not None:
                 self.compute_p(self.solution.state)
                 self.solution.write(frame,self.outdir_p,
-- 
2.43.0


From 7d5abfbf566f518e6ce97b0f455aaf3f3bf55fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 60/74] fix: rows of gauges added after a run were mixed up in
 memory

---
 src/pyclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 52e5e42..eeb3787 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -722,7 +722,7 @@ class Solver(object):
             t=solution.t
             if solution.state.keep_gauges:
                 gauge_data = solution.state.gauge_data
-                if len(gauge_data) == len(solution.state.grid.gauges):
+                if i < len(gauge_data):
                     gauge_data[i]=np.vstack((gauge_data[i],np.append(t,p)))
                 else:
                     gauge_data.append(np.append(t,p))
-- 
2.43.0


From 90ad27a510ba9a9090df91aaf5970a9e88e785d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:20 +0000
Subject: [PATCH 61/74] fix: the first step of an adaptive run could be larger
 than dt_max

---
 src/pyclaw/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index eeb3787..98e5524 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -551,6 +551,8 @@ class Solver(object):
                 self.dt = self.dt_max
         else:
             self.dt_old = self.dt
+            if self.dt_variable:
+                self.dt = min(self.dt_max,self.dt)
 
         # Adjust dt so that we hit tend exactly if we are near tend
         if self.dt_variable and not take_one_step:
-- 
2.43.0


From 42a1a31a9834fe8c3aa95ed7f29da88b58b6ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 62/74] fix: a second run of a controller that had been
 restarted from a frame wrote over earlier frames

---
 src/pyclaw/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index e549e72..b3c00e9 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -293,6 +293,7 @@ class Controller(object):
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
         self.start_frame = self.solution.start_frame
+        num_frames_before = len(self.frames)
         has_gauges = len(self.solution.patch.grid.gauges)>0
         if self.output_format is not None or has_gauges:
             if os.path.exists(self.outdir) and self.overwrite is False:
@@ -392,7 +393,7 @@ class Controller(object):
 
         for gfile in self.solution.state.grid.gauge_files: gfile.close()
 
-        self.solution._start_frame = len(self.frames)
+        self.solution._start_frame = self.start_frame + len(self.frames) - num_frames_before
 
         # Return the current status of the solver
         return status
-- 
2.43.0


From 4d3e192c9b0fd71295e6b25790f94e01e06190bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:20 +0000
Subject: [PATCH 63/74] fix: a fort.gauge file of a single line could not be
 converted

---
 src/pyclaw/gauges.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index a17f665..aedcdc4 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -373,7 +373,7 @@ def convert_gauges(path, output_path=None):
         output_path = os.getcwd()
 
     # Load old data
-    data = np.loadtxt(path)
+    data = np.loadtxt(path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     unique_ids = np.asarray(list(set(old_ids)))
 
@@ -423,7 +423,7 @@ def compare_old_gauges(old_path, new_path, gauge_id, plot=False, abs_tol=1e-14,
     """
 
     # Load old gauge data
-    data = np.loadtxt(old_path)
+    data = np.loadtxt(old_path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     gauge_indices = np.nonzero(old_ids == gauge_id)[0]
     q = data[gauge_indices, 3:]
@@ -472,7 +472,7 @@ def check_old_gauge_data(path, gauge_id, new_gauge_path="./regression_data"):
     import matplotlib.pyplot as plt
 
     # Load old gauge data
-    data = np.loadtxt(path)
+    data = np.loadtxt(path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     gauge_indices = np.nonzero(old_ids == gauge_id)[0]
     q = data[gauge_indices, 3:]
-- 
2.43.0


From 98916fbd3adadf4404915311612022b4dbb7b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:59 +0000
Subject: [PATCH 64/74] fix: patches of an HDF5 frame with ten or more patches
 were read back in another order

---
 src/pyclaw/fileio/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index fe56939..5110133 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -101,7 +101,7 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
                                 (file_prefix,str(frame).zfill(4)))
     
     if use_h5py:
-        with h5py.File(filename,'w') as f:
+        with h5py.File(filename,'w',track_order=True) as f:
         
             # For each patch, write out attributes
             for state in solution.states:
-- 
2.43.0


From 5265afb762b82978a9324757d2225f70db7a7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:33 +0000
Subject: [PATCH 65/74] fix: a controller run without output times after the
 initial frame raised an exception

---
 src/pyclaw/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index b3c00e9..97799b5 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -329,7 +329,7 @@ class Controller(object):
 
         if len(output_times) == 0:
             print("No valid output times; halting.")
-            if self.t == self.tfinal:
+            if self.solution.t == self.tfinal:
                 print("Simulation has already reached tfinal.")
             return None
 
@@ -358,6 +358,7 @@ class Controller(object):
         self.log_info("Solution %s computed for time t=%f" %
                         (frame,self.solution.t) )
 
+        status = self.solver.status
         for t in output_times[1:]:
             if self.output_style < 3:
                 status = self.solver.evolve_to_time(self.solution,t)
-- 
2.43.0


From b69393a73213cdc335eb7d112b1a9f3f9bfc814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 66/74] fix: the format of a frame was not found if its path
 contains a home directory or variable

---
 src/pyclaw/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 6ab861e..9f019e4 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -337,6 +337,7 @@ class Solution(object):
         """
 
         from clawpack.pyclaw.fileio.ascii import read_t
+        path = os.path.expandvars(os.path.expanduser(path))
         file_format2 = None
         
         try:
@@ -356,7 +357,6 @@ class Solution(object):
         else:
             options['format'] = file_format
 
-        path = os.path.expandvars(os.path.expanduser(path))
         # The formats append to states, so discard what the solution held before
         old_states, old_domain = self.states, self.domain
         self.states = []
-- 
2.43.0


From 415836c5bed1c892fb6aef9316f4aa301d338448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 67/74] fix: frames were not read with the default file prefix
 of their format

---
 src/pyclaw/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 9f019e4..2babef6 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -304,7 +304,7 @@ class Solution(object):
 
         
     def read(self, frame, path='./_output', file_format=None, 
-                          file_prefix='fort', read_aux=True, options={}, **kargs):
+                          file_prefix=None, read_aux=True, options={}, **kargs):
         r"""
         Reads in a Solution object from a file
         
@@ -342,7 +342,7 @@ class Solution(object):
         
         try:
             [t,num_eqn,nstates,num_aux,num_dim,num_ghost,file_format2] = \
-                 read_t(frame,path,file_prefix=file_prefix)
+                 read_t(frame,path,file_prefix=file_prefix or 'fort')
         except:
             pass
 
-- 
2.43.0


From e23da21a52f6fa26979f9654f67635d0cf7eddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:52 +0000
Subject: [PATCH 68/74] fix: an output directory given by home directory or
 variable was overwritten even if that was forbidden

---
 src/pyclaw/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 97799b5..f085cb0 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -292,6 +292,9 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
+        # Frames are written to the expanded path: check and use the same one here
+        self.outdir = os.path.expandvars(os.path.expanduser(self.outdir))
+
         self.start_frame = self.solution.start_frame
         num_frames_before = len(self.frames)
         has_gauges = len(self.solution.patch.grid.gauges)>0
-- 
2.43.0


From 7757239f8f77235ff1c2c97765656dcebd02ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:17 +0000
Subject: [PATCH 69/74] fix: reading or writing a ForestClaw frame broke the
 ascii format for all other frames, and their header was misread

---
 src/forestclaw/fileio/__init__.py |  6 +-----
 src/forestclaw/fileio/ascii.py    | 20 ++++++++++++--------
 src/pyclaw/fileio/ascii.py        | 25 ++++++++++++++++++-------
 src/pyclaw/solution.py            |  3 ++-
 4 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/forestclaw/fileio/__init__.py b/src/forestclaw/fileio/__init__.py
index 42fbfe7..27ef514 100644
--- a/src/forestclaw/fileio/__init__.py
+++ b/src/forestclaw/fileio/__init__.py
@@ -5,10 +5,6 @@
 import logging
 logger = logging.getLogger('pyclaw.fileio')
 
-from . import ascii as forestascii
-from clawpack.pyclaw.fileio import ascii
-
-ascii.read_patch_header = forestascii.read_patch_header
-ascii.write_patch_header = forestascii.write_patch_header
+from . import ascii
 
 __all__ = ["ascii.read", "ascii.write"]
diff --git a/src/forestclaw/fileio/ascii.py b/src/forestclaw/fileio/ascii.py
index 8464f73..45534ba 100644
--- a/src/forestclaw/fileio/ascii.py
+++ b/src/forestclaw/fileio/ascii.py
@@ -9,8 +9,7 @@ import numpy as np
 from clawpack import forestclaw
 
 from .. import Dimension, Patch
-from clawpack.pyclaw.fileio.ascii import write
-from clawpack.pyclaw.fileio.ascii import read
+from clawpack.pyclaw.fileio import ascii as pyclaw_ascii
 from clawpack.pyclaw.util import read_data_line
 
 
@@ -18,6 +17,17 @@ from clawpack.pyclaw.util import read_data_line
 logger = logging.getLogger('pyclaw.fileio')
 
 
+def write(*args, **kargs):
+    r"""Write a frame, see :func:`clawpack.pyclaw.fileio.ascii.write`"""
+    pyclaw_ascii.write(*args, patch_header=write_patch_header,
+                       file_format='forestclaw', **kargs)
+
+
+def read(*args, **kargs):
+    r"""Read a frame, see :func:`clawpack.pyclaw.fileio.ascii.read`"""
+    pyclaw_ascii.read(*args, patch_header=read_patch_header, **kargs)
+
+
 def write_patch_header(f, patch):
     f.write("%5i                  patch_number\n" % patch.patch_index)
     f.write("%5i                  AMR_level\n" % patch.level)
@@ -79,9 +89,3 @@ def read_patch_header(f, num_dim):
     patch.mpi_rank = mpi_rank
 
     return patch
-
-# # Replace the ascii module functions with those defined above
-# # ascii.read_patch_header = read_patch_header
-# # ascii.write_patch_header = write_patch_header
-# read = ascii.read
-# write = ascii.write
diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 679c6f8..4ed2f1b 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -15,7 +15,8 @@ from clawpack.pyclaw.util import read_data_line
 logger = logging.getLogger('pyclaw.fileio')
 
 def write(solution, frame, path, file_prefix='fort', write_aux=False,
-                    options={}, write_p=False):
+                    options={}, write_p=False, patch_header=None,
+                    file_format='ascii'):
     r"""
     Write out ascii data file
     
@@ -37,7 +38,13 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
        auxiliary array should be written out.  ``default = False``
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being written.  ``default = {}``
+     - *patch_header* - (func) Function writing the header of a patch.
+       ``default = write_patch_header``
+     - *file_format* - (string) Name of the format recorded in the fort.t file
     """
+    if patch_header is None:
+        patch_header = write_patch_header
+
     # Number of components in the fort.q file
     num_eqn = solution.mp if write_p else solution.num_eqn
 
@@ -50,13 +57,13 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
         f.write("%5i                  num_ghost\n" % 0)
-        f.write("%s                  file_format\n" % "ascii")
+        f.write("%s                  file_format\n" % file_format)
 
     # Write fort.qxxxx file
     file_name = '%s.q%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as q_file:
         for state in solution.states:
-            write_patch_header(q_file,state.patch)
+            patch_header(q_file,state.patch)
             if write_p:
                 q = state.p
             else:
@@ -68,7 +75,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
         file_name = '%s.a%s' % (file_prefix,str(frame).zfill(4))
         with open(os.path.join(path,file_name),'w') as aux_file:
             for state in solution.states:
-                write_patch_header(aux_file,state.patch)
+                patch_header(aux_file,state.patch)
                 write_array(aux_file,state.patch,state.aux)
 
     # Write fort.pklxxxx file
@@ -130,7 +137,7 @@ def write_array(f,patch,q):
 
 
 def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
-                options={}):
+                options={},patch_header=None):
     r"""
     Read in a frame of ascii formatted files, and enter the data into the
     solution object.
@@ -150,7 +157,11 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
        in.  ``default = False``
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being read in.  ``default = {}``
+     - *patch_header* - (func) Function reading the header of a patch.
+       ``default = read_patch_header``
     """
+    if patch_header is None:
+        patch_header = read_patch_header
 
     pickle_filename = os.path.join(path, '%s.pkl' % file_prefix) + str(frame).zfill(4)
     problem_data = None
@@ -180,7 +191,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         # Loop through every patch setting the appropriate information
         for m in range(nstates):
             # Read header for this patch
-            patch = read_patch_header(f, num_dim)
+            patch = patch_header(f, num_dim)
 
             # Construct state
             state= pyclaw.state.State(patch,num_eqn,num_aux)
@@ -226,7 +237,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         with open(fname,'r') as f:
             for state in solution.states:
                 patch = state.patch
-                aux_patch = read_patch_header(f, num_dim)
+                aux_patch = patch_header(f, num_dim)
 
                 # Read patch header and check that it matches that from fort.qxxxx
                 assert patch.level == aux_patch.level, \
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 2babef6..7569662 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -346,7 +346,8 @@ class Solution(object):
         except:
             pass
 
-        if file_format2 is not None:
+        # (the header of a ForestClaw frame may just say ascii)
+        if file_format2 is not None and file_format != 'forestclaw':
             # value was read in from file, use it:
             file_format = file_format2
 
-- 
2.43.0


From 69ef485b5972c21bee50be1b1fe56fc5087bddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:29 +0000
Subject: [PATCH 70/74] fix: copies of a ForestClaw patch lost its block number
 and rank

---
 src/forestclaw/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/forestclaw/geometry.py b/src/forestclaw/geometry.py
index 36df218..6044903 100644
--- a/src/forestclaw/geometry.py
+++ b/src/forestclaw/geometry.py
@@ -24,3 +24,9 @@ class Patch(pyclaw_geometry.Patch):
         r"""(int) - Block number of current patch, ``default = 0``"""
         self.mpi_rank = 0
         r"""(int) - MPI rank this patch belongs to, ``default = 0``"""
+
+    def __deepcopy__(self, memo={}):
+        result = super(Patch, self).__deepcopy__(memo)
+        result.block_number = self.block_number
+        result.mpi_rank = self.mpi_rank
+        return result
-- 
2.43.0


From 6d75767855268482b2d963fa20ec049baa0f710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:32 +0000
Subject: [PATCH 71/74] fix: runs without output need no output directory

---
 src/pyclaw/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index f085cb0..4e5d1fb 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -293,7 +293,8 @@ class Controller(object):
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
         # Frames are written to the expanded path: check and use the same one here
-        self.outdir = os.path.expandvars(os.path.expanduser(self.outdir))
+        if self.outdir is not None:
+            self.outdir = os.path.expandvars(os.path.expanduser(self.outdir))
 
         self.start_frame = self.solution.start_frame
         num_frames_before = len(self.frames)
-- 
2.43.0


From 25a8b70d57f0b057ad04afa74255981585fdead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:50 +0000
Subject: [PATCH 72/74] fix: auxiliary fields missing from an HDF5 frame were
 left as uninitialized memory

---
 src/pyclaw/fileio/hdf5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 5110133..b0941ee 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -197,6 +197,10 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
                 state.t = patch.attrs['t']
                 state.q = patch['q'][:].ravel(order='F').reshape(state.q.shape,order='F')
 
+                if state.num_aux > 0:
+                    # NaNs indicate that aux has not been read, as in the other formats
+                    state.aux[:] = np.nan
+
                 # Read in aux if applicable
                 if read_aux and patch.get('aux',None) is not None:
                     state.aux = patch['aux'][:].ravel(order='F').reshape(state.aux.shape,order='F')
-- 
2.43.0


From d6d8b94b8576ebcd2edd15cbc99731c01dacbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:44 +0000
Subject: [PATCH 73/74] fix: the time integrator SSP22 was refused although it
 is implemented

---
 src/pyclaw/sharpclaw/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index a27f43e..84b80c3 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -54,6 +54,7 @@ class SharpClawSolver(Solver):
         Time integrator to be used. Currently implemented methods:
 
             - 'Euler'  : 1st-order Forward Euler integration
+            - 'SSP22'  : 2nd-order strong stability preserving method
             - 'SSP33'  : 3rd-order strong stability preserving method of Shu & Osher
             - 'SSP104' : 4th-order strong stability preserving method Ketcheson
             - 'SSPLMM32': 2nd-order strong stability preserving 3-step linear multistep method,
@@ -663,6 +664,7 @@ class SharpClawSolver(Solver):
         # Generally the number of registers for the starting method should be at most 
         # equal to the number of registers of the LMM
         if self.time_integrator   == 'Euler':   nregisters=0
+        elif self.time_integrator == 'SSP22':   nregisters=1
         elif self.time_integrator == 'SSP33':   nregisters=1
         elif self.time_integrator == 'SSP104':  nregisters=1
         elif self.time_integrator == 'RK':      nregisters=len(self.b)+1
-- 
2.43.0


From 26da33ea3c9116886a6bef057ce5fa54087425e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:04 +0000
Subject: [PATCH 74/74] fix: before_step was called before the Runge-Kutta
 stage value was formed

---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 84b80c3..4c0e66b 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -389,10 +389,10 @@ class SharpClawSolver(Solver):
             for i in range(1,num_stages):
                 self._registers[i].q[:] = state.q
                 self._registers[i].t = state.t + self.dt*self.c[i]
-                if self.call_before_step_each_stage:
-                    self.before_step(self,self._registers[i])
                 for j in range(i):
                     self._registers[i].q += self.a[i,j]*self._registers[j].q
+                if self.call_before_step_each_stage:
+                    self.before_step(self,self._registers[i])
 
                 # self._registers[i].q eventually stores dt*f(y_i) after stage solution y_i is computed
                 self._registers[i].q = self.dq(self._registers[i])
-- 
2.43.0

