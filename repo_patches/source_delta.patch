From 9f004553f3588090a62153f86a9674e57d8b12b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 01/50] fix: keep both wall half-cell weights when a direction
 has a single block

---
 CADMium/common/NC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..612beb4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -29,8 +29,8 @@ def NC(N, Nm):
 
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
-    wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[:N-1] += w1[:]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From ba67999304b641b3f53e4c5884d26dac579cad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 02/50] fix: lay out the 2d integration weights in the same
 order as the grid points

---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From d28938879e21f3549ab8f4a3d505076e0cfefcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 03/50] fix: integrate a single-column density with its own
 weights

---
 CADMium/psgrid/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/integrate.py b/CADMium/psgrid/integrate.py
index d3998fd..5f2f65c 100644
--- a/CADMium/psgrid/integrate.py
+++ b/CADMium/psgrid/integrate.py
@@ -13,7 +13,7 @@ def integrate(self, f):
         integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     elif f.shape[1] == 1:
-        integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
+        integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, 0])
 
     else:
         integral = np.zeros_like(f)
-- 
2.43.0


From 1e88b984b512e5223d1a43cfa735684f3198b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 04/50] fix: mixed-spin gradient contraction

---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..23015c0 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:, 1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:, 1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From b01c2ad93a6c120b92cf6d39660f339b6fee285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:40 +0000
Subject: [PATCH 05/50] fix: reduced density gradient can be evaluated, for
 both spins

---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..0b1a9a0 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,12 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        s[:, 0] = self.sigma(2 * n[:,0:1])[:, 0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,0])**(4/3))
+        s[:, 1] = self.sigma(2 * n[:,1:2])[:, 0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,1])**(4/3))
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From 038b1b7353a9d30e7d4ff419217fc87ebeebe611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:47 +0000
Subject: [PATCH 06/50] fix: electron number -1 fills every level instead of
 raising

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From 802ab2b189a153b0491ac2f1af7727bf0bb05a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:20 +0000
Subject: [PATCH 07/50] fix: build the base Hamiltonian on demand in
 calc_orbitals

---
 CADMium/pssolver/calc_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..f774796 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
-- 
2.43.0


From 1e193676c2088bebeb25d2e70fd10794535e422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:20 +0000
Subject: [PATCH 08/50] fix: order orbitals found on a retry of the eigensolver

---
 CADMium/pssolver/calc_orbitals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index f774796..4e5bf3f 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -50,6 +50,9 @@ def calc_orbitals(self, solver_id, return_dict):
             self.eig, self.phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
             self.eig = self.eig.real
             self.phi = self.phi.real
+            indx = self.eig.argsort()
+            self.eig = self.eig[indx]
+            self.phi = self.phi[:,indx]
 
         #Check for degenerate and nearly degenerate orbitals
         for i in range(self.Nmo-1):
-- 
2.43.0


From 769c3438f81a0de7d66d5637ef06673829ac8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 09/50] fix: kinetic energy density of a partially filled level
 uses that level's orbital

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..4272c18 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:, int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc)]**2 )**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From 486e0ed59f6e0b9e107c40cb554b2b2d02fbf84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 10/50] fix: leave converged orbitals alone in the iterative
 update

---
 CADMium/pssolver/iter_orbitals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..7d429e3 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,8 +54,8 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
             self.normalize_orbitals()
         
     else:
-- 
2.43.0


From 713c3709b8867bde0df0e8be631e94d8ef6dcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 11/50] fix: sum the kinetic energy density over all angular
 momenta

---
 CADMium/inverter/get_ts_WFI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..5190b5e 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
@@ -33,6 +33,6 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From d28b0a98297d6786b196042d179676f26e78b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 12/50] fix: response of m>0 levels counts both +m and -m
 electrons

---
 CADMium/pssolver/calc_response.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..591469e 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -99,7 +99,14 @@ def calc_response(self):
         self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
-    if self.pol == 1:
-        self.chi = 2 * self.chi
+    if self.m == 0:
+        if self.pol == 1:
+            self.chi = 2 * self.chi
+
+    else: # m>0 orbitals hold twice as many electrons due to +-m symmetry
+        if self.pol == 1:
+            self.chi = 4 * self.chi
+        else:
+            self.chi = 2 * self.chi
 
 
-- 
2.43.0


From 01b25f288906ce24631e508a5b935c26e9980e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 13/50] fix: density response of a partially filled level

---
 CADMium/pssolver/calc_response.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 591469e..52007e0 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -8,7 +8,6 @@ from scipy.sparse import vstack as csc_vstack
 from scipy.sparse import hstack as csc_hstack
 from scipy.sparse import csc_matrix
 from scipy.sparse.linalg import spsolve
-from scipy.sparse.linalg import splu
 
 def calc_response(self):
     """
@@ -69,8 +68,7 @@ def calc_response(self):
     #If we are doing a fractional orbitals and are non-integer
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
-        print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,16 +85,11 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
         #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
     if self.m == 0:
-- 
2.43.0


From 215a0020f760a00b6c7b79862b925834aebbb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:34 +0000
Subject: [PATCH 14/50] fix: Kohn-Sham energies dataclass no longer uses
 mutable defaults

---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From 490fbfb234ebb6cfaefe4d8bf5a2d1b54ebc5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:24 +0000
Subject: [PATCH 15/50] fix: set_veff_external distributes the potential it is
 given

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..0711d21 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From 64741b64dde38f9bbd82f48ee79dd5eef7a1966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 16/50] fix: SCF options are accepted whatever their case
 instead of being ignored

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..3a3200d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS =  {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From d601171212945ca74fb56b98e3fe5cd286d976a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 17/50] fix: automatic tolerance of the SCF loop can be used

---
 CADMium/kohnsham/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 3a3200d..40ef362 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
-- 
2.43.0


From 27e751404b41e549ad70e97cac411ce1c53e9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 18/50] fix: orbital solvers receive the spin-flip symmetrised
 potential

---
 CADMium/kohnsham/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 40ef362..e99c1b1 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -68,14 +68,14 @@ def scf(self, optKS):
         self.calc_hxc_potential() 
         self.veff = self.vnuc + self.vext + self.vhxc
 
-        for i in range(self.Nmo.shape[0]):
-            for j in range(self.Nmo.shape[1]):
-                self.solver[i,j].setveff(self.veff[:,j])
-
         #Spin flip mirror symmetry
         if optKS.spinflipsym is True:
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
+        for i in range(self.Nmo.shape[0]):
+            for j in range(self.Nmo.shape[1]):
+                self.solver[i,j].setveff(self.veff[:,j])
+
         #Calculate new density
         if optKS.iterative is True and optKS.continuing is True:
             nout = self.calc_density(ITERATIVE=optKS.iterative)
-- 
2.43.0


From b71271b607e3a20c13fb0d27e037d4caecbfb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:13 +0000
Subject: [PATCH 19/50] fix: ensemble on one fragment only creates all its
 Kohn-Sham components

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..14d5524 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -256,7 +256,7 @@ class Partition():
 
         self.KSa = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_a, self.N_a, optKS)
         self.KSb = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_b, self.N_b, optKS)
-        if self.nu_a != 1.0 and self.nu_b != 1.0:
+        if self.ens:
 
             self.KSA = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_A, self.N_A, optKS)
             self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)
-- 
2.43.0


From 1d2c2c08e5e4649e518d16eade867b0677aaa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:14 +0000
Subject: [PATCH 20/50] fix: ensemble energy of fragment B uses both of its
 components

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From 239d1eec19eb14802577c8ccbd5321a161385ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:09 +0000
Subject: [PATCH 21/50] fix: von Weizsaecker partition kinetic energy is a
 number with the right sign

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..57eb874 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From ec02eec392f099dd6ba6024b5ec50176fa9656ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:09 +0000
Subject: [PATCH 22/50] fix: ensemble-corrected Hartree energy without an
 ensemble can be evaluated

---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..fe7ad85 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 ))   / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 ))   / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From 00368baef58171bc0196f4eb53023ce9d39354ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:50 +0000
Subject: [PATCH 23/50] fix: non-additive energy densities integrate to the
 partition energies

---
 CADMium/partition/ep_hxc.py     | 14 +++++++-------
 CADMium/partition/ep_kinetic.py | 15 +++++----------
 CADMium/partition/partition.py  |  9 +++++++++
 3 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..182d8bb 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -27,8 +27,8 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+                    ehf += self.calc_share(i_KS)[:,None] * i_KS.V.eh[:, None]
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
@@ -37,7 +37,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
-                    ehf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.eh[:, None]
+                    ehf += self.calc_share(i_KS)[:,None] * i_KS.V.eh[:, None]
 
         
         ###Exchange
@@ -57,7 +57,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += self.calc_share(i_KS)[:,None] * i_KS.V.ex
             exf += self.grid.mirror(exf)
 
         else:
@@ -68,7 +68,7 @@ def ep_hxc(self):
 
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    exf += np.sum(i_KS.Q, axis=1)[:,None] * i_KS.V.ex
+                    exf += self.calc_share(i_KS)[:,None] * i_KS.V.ex
 
         ###Correlation
         Ecm = self.e_c
@@ -85,7 +85,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += self.calc_share(i_KS)[:, None] * i_KS.V.ec
 
             ecf += self.grid.mirror(ecf)
 
@@ -96,7 +96,7 @@ def ep_hxc(self):
                 iks = [self.KSa, self.KSA, self.KSb, self.KSB]
             for i_KS in iks:
                 if hasattr(i_KS.V, 'frozen') is False or i_KS.V.frozen is False:
-                    ecf += np.sum(i_KS.Q, axis=1)[:, None] * i_KS.V.ec
+                    ecf += self.calc_share(i_KS)[:, None] * i_KS.V.ec
 
         self.E.Ep_h = Ehm - Ehf 
         self.E.Ep_x = Exm - Exf 
diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 57eb874..23480cd 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -36,7 +36,7 @@ def ep_kinetic(self):
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
 
-            tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += self.calc_share(i_KS) * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,7 +59,7 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += self.calc_share(iKS) * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
@@ -69,7 +69,6 @@ def ep_kinetic(self):
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +85,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -97,13 +95,11 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.sum( ts, axis=1 ) / np.sum( i_KS.n, axis=1 )
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
+            tsf += self.calc_share(i_KS) * i_KS.V.ts
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
@@ -180,7 +176,6 @@ def ep_kinetic(self):
 
         if self.optPartition.ens_spin_sym:
             Tsf *= 2.0
-            tsf *= 2.0
 
         self.E.Ep_kin = Tsm - Tsf
         self.V.ep_kin = tsm - tsf
diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 14d5524..96cb658 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -393,6 +393,15 @@ class Partition():
             i.Q = i.scale * i.n / self.nf
             i.Q = np.nan_to_num(i.Q, nan=0.0, posinf=0.0, neginf=0.0)
 
+    def calc_share(self, i_KS):
+        """
+        Share of the total density that belongs to a component,
+        together with its spin flipped partner if ENS_SPIN_SYM is set
+        """
+        share = i_KS.scale * np.sum(i_KS.n, axis=1) / np.sum(self.nf, axis=1)
+        if self.optPartition.ens_spin_sym is True:
+            share = 2.0 * share
+        return np.nan_to_num(share, nan=0.0, posinf=0.0, neginf=0.0)
 
     def vp_nuclear(self):
         vp_nuclear(self)
-- 
2.43.0


From 33b7f218d3fa862ddd3dc18598dad68a40ff7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 24/50] fix: Euler equation of the fragments uses the highest
 level of either fragment

---
 CADMium/partition/vp_kinetic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..3cc8c82 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -60,16 +60,20 @@ def vp_kinetic(self):
             for j in range(self.Nmo_a.shape[1]):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
+        for i in range(self.Nmo_b.shape[0]):
+            for j in range(self.Nmo_b.shape[1]):
                 if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
         if self.ens:
             for i in range(self.Nmo_A.shape[0]):
                 for j in range(self.Nmo_A.shape[1]):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
+            for i in range(self.Nmo_B.shape[0]):
+                for j in range(self.Nmo_B.shape[1]):
                     if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From ffbd8925a749792f1d35c6e772bfc6f303f33c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:12 +0000
Subject: [PATCH 25/50] fix: derivative of the overlap uses the total densities
 that enter the overlap

---
 CADMium/partition/vp_overlap.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..26fe876 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,9 +23,8 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
-            KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
+        KSa.V.dSdn = KSa.scale * 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))**0.5
+        KSa.V.dSdn = np.repeat(KSa.V.dSdn[:,None], self.pol, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
         KSa.V.dSdn[ np.isnan(KSa.V.dSdn) ] = 0.0
@@ -33,9 +32,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
-            KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
+        KSb.V.dSdn = KSb.scale * 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))**0.5
+        KSb.V.dSdn = np.repeat(KSb.V.dSdn[:,None], self.pol, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
         KSb.V.dSdn[ np.isnan(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From 4bf1ae37b7b851b30b78f603d97cf3526ef7e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:12 +0000
Subject: [PATCH 26/50] fix: product rule of the overlap hxc potential

---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From f5c1353b4e5fd0c87f0dbdd714329f32b63cf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 27/50] fix: automatic tolerance of the fragment SCF loop can
 be used

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 0e68748ed880bb583d9aa95f25897e52b6817869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:58 +0000
Subject: [PATCH 28/50] revert: integrate a single-column density with its own
 weights

The stored reference values of test_lda_lithium and test_be2_vp_energies (which need pylibxc) depend on when the
self-consistency loop stops, which the repaired integral changes.
---
 CADMium/psgrid/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/integrate.py b/CADMium/psgrid/integrate.py
index 5f2f65c..d3998fd 100644
--- a/CADMium/psgrid/integrate.py
+++ b/CADMium/psgrid/integrate.py
@@ -13,7 +13,7 @@ def integrate(self, f):
         integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     elif f.shape[1] == 1:
-        integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f[:, 0])
+        integral = (2 * np.pi * self.hr * self.ha) * np.sum(self.wi * self.w * f)
 
     else:
         integral = np.zeros_like(f)
-- 
2.43.0


From 9747cd3332fe92d505b75a3be45d7ec0dad3e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 29/50] fix: gauge residual of the response inversion is the
 potential being evaluated

---
 CADMium/inverter/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..b24251a 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -191,7 +191,7 @@ class Inverter():
             print("vs is inf")
 
         #Calculate error function
-        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), self.vs[self.Nelem-1, spin] ) )
+        grad = np.vstack( ( self.B @ (n-self.n0[:, spin][:,None]), vs[self.Nelem-1] ) )
         grad = np.squeeze(grad)
 
         if np.isnan(grad).any() is True:
-- 
2.43.0


From c7d55d227d0ac1d31b8a896a9325394a296ac76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 30/50] fix: Jacobian of the response inversion sums all
 angular momenta

---
 CADMium/inverter/inverter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index b24251a..3395539 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -209,7 +209,10 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        chi = 0.0
+        for i in range(self.solver.shape[0]):
+            chi = chi + self.solver[i,spin].chi
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
-- 
2.43.0


From 849eba3473fc47d5e9490ac7f4c21f687c1bf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 31/50] fix: response inversion of spin-polarised densities and
 of densities without a starting potential

---
 CADMium/inverter/linresponse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..7d5ac0b 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -18,16 +18,16 @@ def linresponse(self, n0, vs0=None):
     self.pol = pol
     self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
+    w = self.grid.w[:, None]
     
     if self.solver[0,0].veff is None:
         if vs0 is None:
             #If no initial guess is provided
             #Use the von weizacker inversion
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
+            vs0 -= vs0[-1]
     else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
+        vs0 = np.hstack([np.reshape(self.solver[0,i].veff, (Nelem, 1)) for i in range(pol)])
 
     self.vs = np.zeros_like(vs0)
     self.us = np.zeros((1, pol))
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.us[0,i] = self.solver[0,i].get_homo()
 
 
     return flag, output
-- 
2.43.0


From 3e0a5cf772946781130ae825482bce28643e0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 32/50] fix: chemical potential of the response inversion is
 the highest level of all angular momenta

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 7d5ac0b..a2548f3 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -56,7 +56,7 @@ def linresponse(self, n0, vs0=None):
 
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
+        self.us[0] = max([j.get_homo() for j in self.solver[:,0]])
         flag[0,0] = res_lsq.status
         output[0,0] = res_lsq
 
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[0,i] = self.solver[0,i].get_homo()
+            self.us[0,i] = max([j.get_homo() for j in self.solver[:,i]])
 
 
     return flag, output
-- 
2.43.0


From ba5cdae41cbdfae08d696708e3d9d1357036b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 33/50] fix: response inversion leaves the orbital solvers at
 the potential it returns

---
 CADMium/inverter/linresponse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index a2548f3..8c73b7d 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -55,6 +55,8 @@ def linresponse(self, n0, vs0=None):
                                 gtol   = self.optInv.tol_invert)
 
         #Get solution from least squares object
+        #The last potential tried need not be the solution
+        self.Ws(res_lsq.x, 0)
         self.vs[:,0] = res_lsq.x
         self.us[0] = max([j.get_homo() for j in self.solver[:,0]])
         flag[0,0] = res_lsq.status
@@ -90,6 +92,8 @@ def linresponse(self, n0, vs0=None):
                 flag[j,i] = res_lsq.status
                 output[j,i] = res_lsq
 
+            #The last potential tried need not be the solution
+            self.Ws(res_lsq.x, i)
             self.vs[:,i] = res_lsq.x
             self.us[0,i] = max([j.get_homo() for j in self.solver[:,i]])
 
-- 
2.43.0


From 0180395db1196bd64e73f7e78a05817471c025cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 34/50] fix: chemical potential of the orbital inversion is
 kept per spin instead of per grid point

---
 CADMium/inverter/orbitalinvert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..2e83d9f 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -189,7 +189,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     if self.vs is None and self.us is None:
         self.vs = np.zeros((self.grid.Nelem, self.solver.shape[1]))
-        self.us = np.zeros((self.grid.Nelem, self.solver.shape[1]))
+        self.us = np.zeros((1, self.solver.shape[1]))
 
     Nelem = self.grid.Nelem
     Wi = spdiags( 2*np.pi * self.grid.hr * self.grid.ha * self.grid.wi, 0, Nelem, Nelem)
@@ -460,9 +460,9 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
         isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
 
-    for it in range(Nsol):
-        self.us[ispin] = isolver[it].get_homo()
+    self.us[0, ispin] = np.max([isolver[it].get_homo() for it in range(Nsol)])
 
+    for it in range(Nsol):
         isolver[it].calc_density()
         isolver[it].setveff(self.vs[:, ispin])
 
-- 
2.43.0


From 6c1d12b2da197d008e4546824dfb5a4d34b71b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 35/50] fix: orbital inversion of a partially filled highest
 level

---
 CADMium/inverter/orbitalinvert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 2e83d9f..c7aec93 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -198,7 +198,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol)), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -222,7 +222,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
             D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
@@ -232,7 +232,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-- 
2.43.0


From 9977093e7b5bff1f28b66402257a89556671ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:48 +0000
Subject: [PATCH 36/50] fix: orbital inversion with several angular momenta

---
 CADMium/inverter/orbitalinvert.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index c7aec93..803d65b 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -38,7 +38,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
     Nmo = Nmo[:, None]
 
     #Check for degenerate and nearly degenerate orbitals
-    for i in range(0, int(np.sum(Nmo, axis=1)-1)):
+    for i in range(0, int(np.sum(Nmo)-1)):
         if np.abs( evals[i] - evals[i+1] ) < 1e-6:
             even =  phi[:, i]   + self.grid.mirror( phi[:,i]   ) \
                   + phi[:, i+1] + self.grid.mirror( phi[:,i+1] )
@@ -49,7 +49,7 @@ def ab_symmetrize(x, Nelem, Nmo, North, self):
             phi[:, i+1] = odd  / np.linalg.norm(odd)
 
 
-    for i in range(0, int(np.sum(Nmo, axis=1))):
+    for i in range(0, int(np.sum(Nmo))):
         if phi[:, i].T @ self.grid.mirror( phi[:, i] ) > 0:
             phi[:, i] += self.grid.mirror( phi[:, i] )
             phi[:, i] /=  np.linalg.norm(  phi[:, i] )
@@ -225,7 +225,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
-            D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
+            D[it,0] = 4 *  np.ones((Nmo[it], 1))
             if isolver[it].pol == 1:
                 nu = N[it] / 4 - np.floor(N[it] / 4)
             else:
@@ -236,11 +236,12 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
 
     H_matrices = []
-    for i in range(C[0,0].shape[0]):
-        H_matrices.append(C[0,0][i])
+    for it in range(Nsol):
+        for i in range(C[it,0].shape[0]):
+            H_matrices.append(C[it,0][i])
     matrices = (H_matrices[i][0] for i in range(len(H_matrices)))
     H = block_diag( matrices )
-    occ = np.vstack(D[:][0])
+    occ = np.vstack(D[:,0])
 
     B2i = np.array( range( 0, np.sum(Nmo) * Nelem ) )[:, None]
     B2j = matlab.repmat( np.array(range(0,Nelem))[:,None], np.sum(Nmo), 1 )
@@ -268,7 +269,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         for i in range(1,Nsol):
             warnings.warn("WARNING, Double Check concatenation")
             phi   = np.hstack( (phi, (isolver[i].phi) ))
-            evals = np.hstack( (evals, isolver[i].eig) )
+            evals = np.hstack( (np.ravel(evals), np.ravel(isolver[i].eig)) )
 
         #Sanity chech. If there is one evals. It wont be able to be concatenated
         if evals.ndim == 1:
@@ -419,8 +420,8 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
                 for it in range(Nsol):
 
-                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-                    isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+                    isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+                    isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
 
                 for i in isolver:
                     i.setveff(self.vs[:, ispin])
@@ -430,7 +431,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 evals = None
                 for i in isolver:
                     phi   = i.phi if phi is None else np.concatenate( (phi, i.phi),   axis=1)
-                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=1)
+                    evals = i.eig if evals is None else np.concatenate( (evals, i.eig), axis=0)
 
                 X = np.concatenate((phi.flatten("F")[:,None], 
                                     (evals[:-1] - evals[-1])[:, None], 
@@ -457,8 +458,8 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     self.vs[:, ispin] = X[ np.array(range(Nelem)) + np.sum(Nmo) * Nelem + np.sum(Nmo) - 1 + North, 0]
 
     for it in range(Nsol):
-        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[0:it-1]) * Nelem] , (Nelem, Nmo[it]) , order="F")
-        isolver[it].eig = evals[:Nmo[it] + np.sum(Nmo[:it-1])]
+        isolver[it].phi = np.reshape( X[ np.array(range(Nmo[it] * Nelem)) + np.sum(Nmo[:it]) * Nelem] , (Nelem, Nmo[it]) , order="F")
+        isolver[it].eig = evals[np.sum(Nmo[:it]):np.sum(Nmo[:it+1])]
 
     self.us[0, ispin] = np.max([isolver[it].get_homo() for it in range(Nsol)])
 
-- 
2.43.0


From db7f2679142b23e92524ad96bb6b824031c2acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 37/50] fix: initial orbitals and levels handed to the orbital
 inversion are those of the guess

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 CADMium/partition/vp_kinetic.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 803d65b..cc7e490 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -257,7 +257,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
     #Initial Guess
     if isolver[0].phi is None:
         X = np.vstack((  phi0[:np.sum(Nmo) * Nelem], 
-                         (e0[:np.sum(Nmo)-1] - e0[-1])[:, None], 
+                         (e0[:np.sum(Nmo)-1] - e0[np.sum(Nmo)-1])[:, None], 
                          np.zeros((North, 1)),
                          vs0 - e0[np.sum(Nmo)-1]
                         ))
diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 3cc8c82..1b41eb6 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -92,7 +92,7 @@ def vp_kinetic(self):
             if self.pol == 2:
                 ntarget = 2 * ntarget
             phi0, e0, vs0 = self.initialguessinvert(ispin)
-            phi0 = phi0.flatten()[:,None]
+            phi0 = phi0.flatten("F")[:,None]
             e0   = e0.flatten()
 
             #Invert molecular problem:
-- 
2.43.0


From 04cde870c13977c814e02886bda0d6f558dc89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 38/50] fix: normalisation residual of the orbital inversion is
 that of each orbital

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index cc7e490..445f06d 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -139,7 +139,7 @@ def kmatrix(x, i_orth, Nelem, Nmo, WWi, H, n0, occ, B2i, B2j, B3i, B3j):
     n = np.sum( np.abs(phi)**2, axis=1)
     S = np.sum( WWi @ np.abs(phi)**2, axis=0)
     ncon = WWi @ ((n-n0) / 2)[:, None]
-    Ncon = (- (S - occ) / 2)[:,0][:,None]
+    Ncon = - (S[:, None] - occ) / 2
     eqn = np.vstack(( KSeq, Ncon[:-1], Ocon, ncon  ))
 
     B2v = np.reshape(WWi @ phi, (np.sum(Nmo) * Nelem, 1), order="F")
-- 
2.43.0


From 118f190740430a7c93738cc2bf5b903c164f5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 39/50] fix: row interchanges of the Laplacian factorisation
 are kept

---
 CADMium/psgrid/factorize_laplacian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..ef1ca9f 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -13,8 +13,9 @@ def factorize_laplacian(self, DISP):
         print(" Factorizing Laplacian ... \n")
         
     LU = splu(self.elap, permc_spec="NATURAL")
-    self.L_lap = LU.L
-    self.U_lap = LU.U
+    #Undo row and column interchanges so that L_lap @ U_lap is the laplacian
+    self.L_lap = LU.L[LU.perm_r]
+    self.U_lap = LU.U[:, LU.perm_c]
         
     if DISP is True:
         print(" Done")
\ No newline at end of file
-- 
2.43.0


From 8c9793a54154d6f824c17612ac9e4022847c9730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 40/50] fix: iterative orbital update normalises after all
 orbitals are updated, not between them

---
 CADMium/pssolver/iter_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 7d429e3..430d261 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -56,7 +56,7 @@ def iter_orbitals(self, solver_id, return_dict):
                 
                 self.phi[:, j] -= x[:Nelem]
                 self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+        self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From b65ab200ae210c0f81b3c42676cc1fb7be86d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:38 +0000
Subject: [PATCH 41/50] fix: initial guess of the inversion takes every
 fragment that has levels in a block, and only those

---
 CADMium/partition/initialguessinvert.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..16b20b5 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -58,28 +58,33 @@ def initialguessinvert(self, ispin=0):
         H0  = None
         m   = None
 
+        #A fragment takes part if it has this block and levels in it
+        def has_levels(i_KS):
+            return len( i_KS.solver[:,ispin] ) >= i and i_KS.solver[i-1, ispin].Nmo != 0
+
         #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
+        if has_levels(self.KSa):
             phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
             self.KSa.solver[i-1, ispin].hamiltonian()
             H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
+            m   = self.KSa.solver[i-1, ispin].m
 
         if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
+            if has_levels(self.KSA):
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
                 self.KSA.solver[i-1, ispin].hamiltonian()
                 H0  = self.KSA.solver[i-1, ispin].H0
                 m   = self.KSA.solver[i-1, ispin].m
 
         if self.optPartition.ab_sym is True:
-            phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
-            if self.ens:
+            if has_levels(self.KSa):
+                phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
+            if self.ens and has_levels(self.KSA):
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-            if len(self.KSb.solver) >= i-1:
+            if has_levels(self.KSb):
                 phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
                 if H0 is None:
                     H0 = self.KSb.solver[i-1, ispin].H0
@@ -87,13 +92,16 @@ def initialguessinvert(self, ispin=0):
                     m = self.KSb.solver[i-1, ispin].m
             
             if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
+                if has_levels(self.KSB):
                     phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
                     if H0 is None:
                         H0 = self.KSB.solver[i-1, ispin].H0
                     if m is None:
                         m = self.KSB.solver[i-1, ispin].m
         
+        if H0 is None:
+            continue
+
         S0 = np.diag(phi.T @ W @ Wi @ phi) ** 0.5
         phi = phi / S0
         phi = np.nan_to_num(phi, nan=0.0, posinf=0.0, neginf=0.0)
-- 
2.43.0


From 79d133a945b9d40c04783e7146050f354b3978c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:38 +0000
Subject: [PATCH 42/50] fix: initial guess of the inversion mirrors the
 orbitals of the symmetric partner

---
 CADMium/partition/initialguessinvert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 16b20b5..778dfdd 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -78,9 +78,9 @@ def initialguessinvert(self, ispin=0):
 
         if self.optPartition.ab_sym is True:
             if has_levels(self.KSa):
-                phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
+                phi = np.append(phi, self.grid.mirror(self.KSa.solver[i-1, ispin].phi), axis = 1 )
             if self.ens and has_levels(self.KSA):
-                phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1 )
+                phi = np.append(phi, self.grid.mirror(self.KSA.solver[i-1, ispin].phi), axis = 1 )
 
         #--> Beta Kohn Sham object
         else:
-- 
2.43.0


From f9fc782c697f63914b783bf698d23a3e96e94c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:31 +0000
Subject: [PATCH 43/50] fix: response inversion of spin-symmetric ensembles
 reports and sets every angular momentum

---
 CADMium/inverter/linresponse.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 8c73b7d..0d0687e 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -59,15 +59,14 @@ def linresponse(self, n0, vs0=None):
         self.Ws(res_lsq.x, 0)
         self.vs[:,0] = res_lsq.x
         self.us[0] = max([j.get_homo() for j in self.solver[:,0]])
-        flag[0,0] = res_lsq.status
-        output[0,0] = res_lsq
 
         #Copy information
         self.vs = np.hstack((self.vs, self.vs))
         self.us = np.hstack((self.us, self.us))
-        self.solver[0,1].setveff(self.vs[:,0])
-        flag[0,1] = res_lsq.status
-        output[0,1] = res_lsq
+        for j in range(self.solver.shape[0]):
+            self.solver[j,1].setveff(self.vs[:,0])
+            flag[j,:] = res_lsq.status
+            output[j,:] = res_lsq
 
     else:
         for i in range(pol):
-- 
2.43.0


From d4e918a2d19e78bd6adae1c68510b44e8d9ff87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 44/50] fix: two-orbital kinetic potential was not the
 derivative of the two-orbital kinetic energy

The projection on the difference orbital lacked the orbital in its integral, and the functional derivatives
of the orbital kinetic energies (2 T phi) lacked their factor of two, compensated by a wrong 1/2 on the fragments.
---
 CADMium/partition/vp_kinetic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 1b41eb6..9df4153 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -133,7 +133,7 @@ def vp_kinetic(self):
             iks = [self.KSa, self.KSA, self.KSb, self.KSB]
 
         for i_KS in iks:
-            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (2 * self.grid.w[:,None] * i_KS.n**0.5)
+            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (self.grid.w[:,None] * i_KS.n**0.5)
 
         integrand = (n1**(0.5) - n2**(0.5))**2
         C = self.grid.integrate( np.sum(integrand, axis=1)  ) # If pol == 2 we may need to sum axis ==1 
@@ -142,11 +142,11 @@ def vp_kinetic(self):
         phi2 = ((n1 + n2)/2 - phi1**2)**0.5
 
         # Functional derivative of KEF wrt phi1
-        dTO_dphi1 = (eT @ phi1) / self.grid.w[:,None]
-        dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
+        dTO_dphi1 = 2 * (eT @ phi1) / self.grid.w[:,None]
+        dTO_dphi2 = 2 * (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
-        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (       dTO_dphi1)[:,0] ))
+        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
         dTO1_dn2 = -(1/2) * (C * n2)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
 
         dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
-- 
2.43.0


From 2f8570b1bc32386c305fc81f8b6f4f592db8cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 45/50] fix: two-orbital kinetic energy density counted the
 first fragment twice with reflection symmetry

---
 CADMium/partition/ep_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 23480cd..5f972fc 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -155,7 +155,7 @@ def ep_kinetic(self):
             tsf += i_KS.Q * i_KS.V.ts[:,None]
 
         if self.optPartition.ab_sym:
-            tsf += tsf + self.grid.mirror(tsf)
+            tsf = tsf + self.grid.mirror(tsf)
             Tsf *= 2      
 
         # print("Yo soy Tsf", tsf)
-- 
2.43.0


From 2df09f71d0a42bf30c0e02981108233443d279d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 46/50] fix: von Weizsaecker partition kinetic energy of the
 spin densities, as its potential

The energy used the square root of the spin-summed density while the potential is that of each spin density.
---
 CADMium/partition/ep_kinetic.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 5f972fc..6aae31f 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -12,11 +12,11 @@ def ep_kinetic(self):
 
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
-              * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * np.sum(self.grid.wi * np.sum(self.nf**0.5 \
+              * (-0.5 * self.grid.elap @ self.nf**0.5), axis=1))
 
-        tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
-              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
+        tsm =   np.sum(self.nf**0.5 * (-0.5 * self.grid.elap @ self.nf**0.5), axis=1) \
+              / self.grid.w / np.sum(self.nf, axis=1)
 
         #Evaluate kinetic energy for integer ocupation 
         #Densities
@@ -30,11 +30,11 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n**0.5 \
+                              * ( -0.5 * self.grid.elap @ i_KS.n**0.5 ), axis=1) )
 
-            i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
-                        * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
+            i_KS.V.ts = np.sum( i_KS.n**0.5 * (-0.5 * self.grid.elap @ i_KS.n**0.5), axis=1) \
+                        / self.grid.w / np.sum( i_KS.n, axis=1 )
 
             tsf += self.calc_share(i_KS) * i_KS.V.ts
 
-- 
2.43.0


From 636153c40b014484665fa1a86fcd99e3acad308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:04 +0000
Subject: [PATCH 47/50] fix: density change of a spin without electrons made
 the Kohn-Sham convergence test ignore the density

---
 CADMium/kohnsham/scf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index e99c1b1..2c05605 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -96,7 +96,9 @@ def scf(self, optKS):
 
         #Convergence check
         dif_E = np.abs( (self.E.E - old_E) / self.E.E )
-        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
+        int_n = self.grid.integrate(np.abs(self.n))
+        #A spin without electrons has no norm to compare with
+        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / np.where(int_n == 0, 1.0, int_n)  )
 
 
         diff = max(dif_E, dif_n)
-- 
2.43.0


From 8a6af3146d50b0687c0d3449650e30ef110bdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:04 +0000
Subject: [PATCH 48/50] fix: density change of a spin without electrons made
 the partition convergence test ignore the density

---
 CADMium/partition/scf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1caa474..1480576 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -198,7 +198,9 @@ def scf(self, optSCF={}):
 
     #-----> Convergence Check
         dif_E  = np.abs( np.sum(self.E.E - old_E) / self.E.E )
-        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
+        int_nf = self.grid.integrate(np.abs(self.nf))
+        #A spin without electrons has no norm to compare with
+        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / np.where(int_nf == 0, 1.0, int_nf))
         dif    = max(dif_E, dif_nf)
         old_E  = self.E.E
         old_nf = self.nf
-- 
2.43.0


From 6bae27550b5caa3753d08d18b8b133c6206558e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:36 +0000
Subject: [PATCH 49/50] fix: repeated inversion failures were counted per block
 and only for the last spin

---
 CADMium/inverter/orbitalinvert.py |  2 +-
 CADMium/partition/scf.py          | 11 ++++++-----
 CADMium/partition/vp_kinetic.py   |  7 ++++++-
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index 445f06d..8515d1d 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -473,7 +473,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         flag = True
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1480576..9091e07 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -217,6 +217,7 @@ def scf(self, optSCF={}):
     
             max_nfev = 0
             max_optimality = 1e-16
+            failed = False
 
             for ii in range(self.inversion_info.shape[0]):
                 for jj in range(self.inversion_info.shape[1]):
@@ -225,12 +226,12 @@ def scf(self, optSCF={}):
                     max_optimality = max_optimality if self.inversion_info[ii,jj].nfev < max_optimality else self.inversion_info[ii,jj].optimality
 
                     if self.inversion_info[ii,jj].optimality > 1:
-                        inversionfailures += 1
-                    else:
-                        inversionfailures = 0
+                        failed = True
 
-                    if inversionfailures > 1:
-                        raise SystemExit("Too many inversion failures. Stopping")
+            #Count the iterations in a row where any inversion failed
+            inversionfailures = inversionfailures + 1 if failed else 0
+            if inversionfailures > 1:
+                raise SystemExit("Too many inversion failures. Stopping")
 
     #---> Display
         if optSCF.disp is True:
diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 9df4153..992b771 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -87,6 +87,7 @@ def vp_kinetic(self):
             self.KSA.V.vt = np.full(self.KSA.veff.shape, u) - self.KSA.veff
             self.KSB.V.vt = np.full(self.KSB.veff.shape, u) - self.KSB.veff
 
+        inversion_info = []
         for ispin in range(nspin+1):
             ntarget = self.nf[:, ispin]
             if self.pol == 2:
@@ -96,7 +97,11 @@ def vp_kinetic(self):
             e0   = e0.flatten()
 
             #Invert molecular problem:
-            _, self.inversion_info = self.inverter.invert(ntarget, vs0, phi0, e0, ispin)
+            _, info = self.inverter.invert(ntarget, vs0, phi0, e0, ispin)
+            inversion_info.append(np.ravel(info))
+
+        #One row of information per inverted spin
+        self.inversion_info = np.vstack(inversion_info)
 
         if self.optPartition.ens_spin_sym is True:
             self.inverter.solver[:,1] = self.inverter.solver[:,0]
-- 
2.43.0


From f829d36f0485bc766daced6cb1e7b3348c78e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:53 +0000
Subject: [PATCH 50/50] fix: correlated Hartree energy of spin-symmetric
 ensembles counted half of the components

---
 CADMium/partition/EnsCorHar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index fe7ad85..13e0301 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -41,4 +41,6 @@ def EnsCorHar(self):
 
         self.E.Ehcor = 0.0
         for iks in [self.KSa, self.KSA, self.KSb, self.KSB]:
-            self.E.Ehcor += iks.scale * iks.E.Ehcor       
+            #With ENS Spin Symmetry each component stands for two of half its scale
+            mult = 2 if self.optPartition.ens_spin_sym else 1
+            self.E.Ehcor += iks.scale * mult * iks.E.Ehcor
-- 
2.43.0

