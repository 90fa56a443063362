From 3295a0aec82f907d16fc464547c5b17f8b55b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 01/13] fix: qphd_subspace compared the function amin, not the
 data, with -1

---
 active_subspaces/subspaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 2cdfe70..002cab3 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -273,7 +273,7 @@ def qphd_subspace(X, f, weights):
     X, f, M, m = process_inputs_outputs(X, f)
     
     # check if the points are uniform or Gaussian, set 2nd moment
-    if np.amax(X) > 1.0 or np.amin < -1.0:
+    if np.amax(X) > 1.0 or np.amin(X) < -1.0:
         gamma = 1.0
     else:
         gamma = 1.0 / 3.0
-- 
2.43.0


From 938217affbc514d59e6b89f90d535fef1ee5e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 02/13] fix: hit_and_run_z step bounds must use every
 constraint the direction crosses

---
 active_subspaces/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index fda1fe8..0ae9c82 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -602,11 +602,11 @@ def hit_and_run_z(N, y, W1, W2):
         f, g = b - np.dot(A,z0), np.dot(A, d)
 
         # find an upper bound on the step
-        min_ind = np.logical_and(g<=0, f < -np.sqrt(np.finfo(np.float).eps))
+        min_ind = g<0
         eps_max = np.amin(f[min_ind]/g[min_ind])
 
         # find a lower bound on the step
-        max_ind = np.logical_and(g>0, f < -np.sqrt(np.finfo(np.float).eps))
+        max_ind = g>0
         eps_min = np.amax(f[max_ind]/g[max_ind])
 
         # randomly sample eps
-- 
2.43.0


From c2eb38119659c888b156ed9fd403748efe8cb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 03/13] fix: random_walk_z mixed up components of different
 samples

---
 active_subspaces/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/domains.py b/active_subspaces/domains.py
index 0ae9c82..51f0732 100644
--- a/active_subspaces/domains.py
+++ b/active_subspaces/domains.py
@@ -741,7 +741,7 @@ def random_walk_z(N, y, W1, W2):
             z0 = zc
         Z[:,i] = z0.reshape((z0.shape[0], ))
 
-    return Z.reshape((N, m-n))
+    return Z.transpose().reshape((N, m-n))
 
 def _rotate_x(Y, Z, W):
     """A convenience function for rotating subspace coordinates to x space.
-- 
2.43.0


From 775ed119edc48b591b9186d79387604e36488f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 04/13] fix: local_linear_gradients masked the sorted
 neighbours in unsorted order

---
 active_subspaces/gradients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/gradients.py b/active_subspaces/gradients.py
index a137f70..d1c1ff8 100644
--- a/active_subspaces/gradients.py
+++ b/active_subspaces/gradients.py
@@ -55,9 +55,9 @@ def local_linear_gradients(X, f, p=None, weights=None):
         x = X[ii,:]
         D2 = np.sum((X - x)**2, axis=1)
         ind = np.argsort(D2)
-        ind = ind[D2 != 0]
-        A = np.hstack((np.ones((p,1)), X[ind[:p],:])) * np.sqrt(weights[ii])
-        b = f[ind[:p]] * np.sqrt(weights[ii])
+        ind = ind[D2[ind] != 0][:p]
+        A = np.hstack((np.ones((ind.size,1)), X[ind,:])) * np.sqrt(weights[ii])
+        b = f[ind] * np.sqrt(weights[ii])
         u = np.linalg.lstsq(A, b)[0]
         df[i,:] = u[1:].T
     return df
-- 
2.43.0


From 4638f5804157f8c6fe3f9c0c4d280a6477b23e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 05/13] fix: unbounded minimizing map had the wrong sign

---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index d91df65..73ae96a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -160,7 +160,7 @@ class UnboundedMinVariableMap(MinVariableMap):
         Zlist = []
         for y in Y:
             c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
-            z = np.linalg.solve(self._zAz, c)
+            z = np.linalg.solve(self._zAz, -c)
             Zlist.append(z)
         return np.array(Zlist).reshape((NY, m-n, N))
 
-- 
2.43.0


From aac08dce3fe45246dcdbc88781da2ebfb46ada4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 06/13] fix: bounded minimizing map passed the Hessian as the
 quadratic form

---
 active_subspaces/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 73ae96a..345095a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -113,7 +113,7 @@ class BoundedMinVariableMap(MinVariableMap):
                 -1-np.dot(W1, y).reshape((m, 1)),
                 -1+np.dot(W1, y).reshape((m, 1))
                 ))
-            z = qps.quadratic_program_ineq(c, self._zAz, A_ineq, b_ineq)
+            z = qps.quadratic_program_ineq(c, 0.5*self._zAz, A_ineq, b_ineq)
             Zlist.append(z)
         Z = np.array(Zlist).reshape((NY, m-n, N))
         return Z
-- 
2.43.0


From 2e951819864cfc2da8094303cf3696b780d71f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 07/13] fix: a failing Subspaces.compute left new eigenvectors
 with the old partition

---
 active_subspaces/subspaces.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/active_subspaces/subspaces.py b/active_subspaces/subspaces.py
index 002cab3..a4434f6 100644
--- a/active_subspaces/subspaces.py
+++ b/active_subspaces/subspaces.py
@@ -131,8 +131,6 @@ class Subspaces():
             ssmethod = None
             raise Exception('Unrecognized subspace type: {}'.format(sstype))
         
-        self.eigenvals, self.eigenvecs = e, W    
-        
         # Compute bootstrap ranges and partition
         if nboot > 0:
             e_br, sub_br, li_F = _bootstrap_ranges(e, W, X, f, df, weights, ssmethod, nboot)
@@ -142,8 +140,6 @@ class Subspaces():
             
             e_br, sub_br = None, None
             
-        self.e_br, self.sub_br = e_br, sub_br
-        
         # Compute the partition
         if ptype == 'EVG':
             n = eig_partition(e)[0]
@@ -155,6 +151,8 @@ class Subspaces():
         else:
             raise Exception('Unrecognized partition type: {}'.format(ptype))
         
+        self.eigenvals, self.eigenvecs = e, W
+        self.e_br, self.sub_br = e_br, sub_br
         self.partition(n)
 
 
-- 
2.43.0


From 2026f74b405ec7056cb86052ff00b37c4588991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 08/13] fix: jacobi_matrix failed for a single recurrence step

---
 active_subspaces/utils/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/active_subspaces/utils/quadrature.py b/active_subspaces/utils/quadrature.py
index 35a8ca4..ec9af29 100644
--- a/active_subspaces/utils/quadrature.py
+++ b/active_subspaces/utils/quadrature.py
@@ -134,6 +134,8 @@ def jacobi_matrix(ab):
     n = ab.shape[0] - 1
     if n == 0:
         return ab[0,0]
+    elif n == 1:
+        return ab[:1,:1].copy()
     else:
         J = np.zeros((n, n))
         J[0,0] = ab[0,0]
-- 
2.43.0


From 929ffc4fbf0a8b8890e2416dd5e41a012948bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 09/13] fix: _rbf_objective took the maximum of a matrix and a
 number

---
 active_subspaces/utils/response_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index b720b5d..fb1abbc 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -381,7 +381,7 @@ def _rbf_objective(log10g, X, f, v, N, e):
     res = f - np.dot(B, beta)
 
     # variance
-    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))/M, 5*np.finfo(float).eps])
+    sig2 = np.max([np.dot(res.T, np.linalg.solve(K, res))[0,0]/M, 5*np.finfo(float).eps])
     
 
     r = np.sum(np.log(np.diag(L))) + M*np.log(sig2)
-- 
2.43.0


From 32e2726caa33032b98242115de42743da24cb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 10/13] fix: starting points of the optimizations must be
 one-dimensional

---
 active_subspaces/optimizers.py    | 4 ++--
 active_subspaces/utils/designs.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/active_subspaces/optimizers.py b/active_subspaces/optimizers.py
index 345095a..116fd7a 100644
--- a/active_subspaces/optimizers.py
+++ b/active_subspaces/optimizers.py
@@ -331,7 +331,7 @@ def zonotope_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         cons = avdom.constraints
         result = scopt.minimize(avfun, y0, constraints=cons, method='SLSQP', \
                             jac=avdfun, options=opts)
@@ -387,7 +387,7 @@ def unbounded_minimize(avfun, avdom, avdfun):
     minf = 1e100
     minres = []
     for i in range(10):
-        y0 = np.random.normal(size=(1, n))
+        y0 = np.random.normal(size=(n, ))
         result = scopt.minimize(avfun, y0, method=method, jac=avdfun, options=opts)
         if not result.success:
             raise Exception('{} failed with message: {}.'.format(method, result.message))
diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 8430b28..7bd0fb1 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -74,7 +74,7 @@ def maximin_design(vert, N):
     minres = []
 
     for i in range(3):
-        y0 = np.random.normal(size=(N, n))
+        y0 = np.random.normal(size=(N*n, ))
         res = minimize(_maximin_design_obj, y0, args=(vert, ), jac=_maximin_design_grad, constraints=cons,
                         method='SLSQP', options={'disp':False, 'maxiter':1e2, 'ftol':1e-4})
         if not res.success:
-- 
2.43.0


From 159709f28689a241f386e9ac873670a10184fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 11/13] fix: maximin_design constrained the design to the
 reflected polytope

---
 active_subspaces/utils/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/utils/designs.py b/active_subspaces/utils/designs.py
index 7bd0fb1..52cca98 100644
--- a/active_subspaces/utils/designs.py
+++ b/active_subspaces/utils/designs.py
@@ -63,8 +63,8 @@ def maximin_design(vert, N):
     A = np.kron(np.eye(N), C.equations[:,:n])
     b = np.kron(np.ones(N), C.equations[:,n])
     cons = ({'type':'ineq',
-                'fun' : lambda x: np.dot(A, x) - b,
-                'jac' : lambda x: A})
+                'fun' : lambda x: -np.dot(A, x) - b,
+                'jac' : lambda x: -A})
 
     # some tricks for the globalization
     curr_state = np.random.get_state()
-- 
2.43.0


From cdfff3756b5fc87f41d67a29b9293b769da9271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 12/13] fix: rounding in the n-th root lost points of tensor
 product rules and designs

---
 active_subspaces/integrals.py         |  2 +-
 active_subspaces/response_surfaces.py |  3 ++-
 active_subspaces/utils/quadrature.py  | 21 +++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/active_subspaces/integrals.py b/active_subspaces/integrals.py
index 9c23709..0045e0c 100644
--- a/active_subspaces/integrals.py
+++ b/active_subspaces/integrals.py
@@ -201,7 +201,7 @@ def av_quadrature_rule(avmap, N):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [gq.points_per_dimension(N, n) for i in range(n)]
         Yp, Yw = gq.gauss_hermite(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/response_surfaces.py b/active_subspaces/response_surfaces.py
index b7e3e56..945254d 100644
--- a/active_subspaces/response_surfaces.py
+++ b/active_subspaces/response_surfaces.py
@@ -1,6 +1,7 @@
 """Utilities for exploiting active subspaces in response surfaces."""
 import numpy as np
 import utils.designs as dn
+from utils.quadrature import points_per_dimension
 from utils.simrunners import SimulationRunner
 from utils.misc import conditional_expectations
 from utils.response_surfaces import RadialBasisApproximation
@@ -279,7 +280,7 @@ def av_design(avmap, N, NMC=10):
     m, n = avmap.domain.subspaces.W1.shape
 
     if isinstance(avmap.domain, UnboundedActiveVariableDomain):
-        NN = [int(np.floor(np.power(N, 1.0/n))) for i in range(n)]
+        NN = [points_per_dimension(N, n) for i in range(n)]
         Y = dn.gauss_hermite_design(NN)
 
     elif isinstance(avmap.domain, BoundedActiveVariableDomain):
diff --git a/active_subspaces/utils/quadrature.py b/active_subspaces/utils/quadrature.py
index ec9af29..47ed172 100644
--- a/active_subspaces/utils/quadrature.py
+++ b/active_subspaces/utils/quadrature.py
@@ -6,6 +6,27 @@ Library.
 import numpy as np
 import misc as mi
 
+def points_per_dimension(N, n):
+    """Largest k such that a tensor grid with k points in each of n dimensions
+    has at most N points, free of the rounding errors of the n-th root.
+
+    Parameters
+    ----------
+    N : int
+        largest number of points in the grid
+    n : int
+        number of dimensions
+
+    Returns
+    -------
+    k : int
+        number of points in each dimension
+    """
+    k = int(np.round(np.power(float(N), 1.0/n)))
+    if k**n > N:
+        k = k - 1
+    return k
+
 def r_hermite(N):
     """Recurrence coefficients for the Hermite orthogonal polynomials.
 
-- 
2.43.0


From cdffe250e033929828b51478d955f43086c6bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 13/13] fix: tuning of the rbf shape parameters failed for
 (nearly) noise-free data

---
 active_subspaces/utils/response_surfaces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/active_subspaces/utils/response_surfaces.py b/active_subspaces/utils/response_surfaces.py
index fb1abbc..ae381db 100644
--- a/active_subspaces/utils/response_surfaces.py
+++ b/active_subspaces/utils/response_surfaces.py
@@ -366,6 +366,9 @@ def _rbf_objective(log10g, X, f, v, N, e):
         if v is None:
             v = g*np.sum(e[m:])*np.ones(f.shape)
 
+    # ensure conditioning, as in training
+    v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
+
     # covariance matrix
     K = exponential_squared(X, X, 1.0, ell)
     K += np.diag(v.reshape((M,)))
-- 
2.43.0

