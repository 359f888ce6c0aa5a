From 2df57654bad48e278306c17e2c7309b6624b583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 01/24] fix: add up several load rows acting on the same node

---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..a2e33fb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From 7d72016d44ef4dfdcb85fe60a35f26dc65f4ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 02/24] fix: let springs be assembled (4x4 mass matrix, profile
 given as a row)

---
 solidspy/uelutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..871f4bf 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -432,6 +432,8 @@ def spring(coord, stiff):
     True
 
     """
+    # The assembler passes the material profile as an array
+    stiff = np.ravel(stiff)[0]
     vec = coord[1, :] - coord[0, :]
     nx = vec[0]/np.linalg.norm(vec)
     ny = vec[1]/np.linalg.norm(vec)
@@ -442,7 +444,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From 24f0215729c07003952635c8394a220d7b864ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 03/24] fix: rotate beam elements from global to local axes
 correctly

Inclined beams stored energy in a rigid rotation.
---
 solidspy/uelutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 871f4bf..7e6289c 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -545,9 +545,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
@@ -603,11 +603,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From 335bcd89d0058da50128556a28cc9de25c08e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 04/24] fix: accept the density of a beam2D given as a tuple

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 7e6289c..cda31b1 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -623,7 +623,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From dccceae586c685968644b66d30f5f37700d07e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 05/24] fix: area is optional in beam2DU as documented

---
 solidspy/uelutil.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index cda31b1..67051ff 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -556,11 +556,8 @@ def beam2DU(coord, params):
         [6*L, 4*L**2, -6*L, 2*L**2],
         [-12, -6*L, 12, -6*L],
         [6*L, 2*L**2, -6*L, 4*L**2]])
-    if len(params) == 2:
-        dens = 1.0
-        area = 1.0
-    else:
-        dens, area = params[2:]
+    dens = params[2] if len(params) > 2 else 1.0
+    area = params[3] if len(params) > 3 else 1.0
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [156, 22*L, 54, -13*L],
-- 
2.43.0


From 96d8ffc80882aed3f430fe72bd160db3c076333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 06/24] fix: couple the hoop component in the axisymmetric
 Hooke law

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..90c0de1 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -638,10 +638,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From 6aa72b1bb6dfc0c4ebad43e55c3b3109aabbcef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 07/24] fix: integrate the axisymmetric element over the
 revolution

---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 67051ff..fc1bcb0 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -322,7 +322,8 @@ def elast_axi_quad9(coord, params):
         r = gpts[cont, 0]
         s = gpts[cont, 1]
         H, B, det = fem.elast_diff_axi(r, s, coord, fem.shape_quad9)
-        factor = det * gwts[cont]
+        radius = H[0, 0::2].dot(coord[:, 0])
+        factor = 2*np.pi * radius * det * gwts[cont]
         stiff_mat += factor * (B.T @ C @ B)
         mass_mat += rho*factor * (H.T @ H)
     return stiff_mat, mass_mat
-- 
2.43.0


From a17327158ddd362a1c65f02e9e0775d475c1168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 08/24] fix: compute the strains at all three points of linear
 triangles

The one-point rule left the strains of two of the three rows at zero.
---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 90c0de1..c17e5b2 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 460917622548e263e5f7593683e02c711633f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 09/24] fix: vertical coordinate of the points where strains
 are computed

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index c17e5b2..0150de1 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -771,7 +771,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From cf3b45d85f83260015e1ac88ec4685775ec97573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 10/24] fix: assign each quadrilateral node the strain of its
 own Gauss point

---
 solidspy/postprocesor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..9ac288b 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -379,6 +379,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
         ul[1::2] = sol_complete[IELCON[el, :], 1]
         if iet == 1:
             epsG, _ = fe.str_el4(elcoor, ul)
+            # Gauss points are not in the order of the nodes
+            epsG = epsG[[0, 2, 3, 1]]
         elif iet == 2:
             epsG, _ = fe.str_el6(elcoor, ul)
         elif iet == 3:
-- 
2.43.0


From b83aa5ab38486709eb80c465c6e9024cd4b0e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 11/24] fix: recover stresses for materials with density

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 9ac288b..29f1f92 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From f0ae4cac5eff1117f9783ab2ec7d77d123acb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 12/24] fix: principal values of tensors with small components

np.NaN does not exist in NumPy 2 and tensors such as small strains were
considered zero by comparing them with the tolerance for diagonal ones.
---
 solidspy/postprocesor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 29f1f92..83f22c0 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -595,11 +595,11 @@ def eigvals(mat, tol=1e-6):
     True
 
     """
-    if np.abs(mat).max() < tol:
+    if np.abs(mat).max() == 0:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From 09602b4d16b9655676c9e0688b51bf80146c1840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 13/24] fix: contour plots with current Matplotlib, that
 rejects shading

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 83f22c0..310adc3 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -101,10 +101,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From ffdd4758e3329db4b69ab0fc02b55cf3976ea370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 14/24] fix: plot fields with a single column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 310adc3..2f46c1b 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -159,7 +159,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-- 
2.43.0


From e70636be549b3412a45b6348f2afb985a2c99771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 15/24] fix: number image dofs as their reference ones

---
 solidspy/blochutil.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..b14a7e7 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -51,10 +51,8 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
         if cont_dof in dofs_ima:
             cont += 1
             ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
+            # Shift by the number of image dofs before the reference one
+            new_num.append(ref_dof - sum(ima < ref_dof for ima in dofs_ima))
         else:
             new_num.append(cont_dof - cont)
     return new_num
-- 
2.43.0


From 9657c9a1cfc2acad365f354c68d9df7006b1ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 16/24] fix: detect singular Jacobians relative to the element
 size

Small but valid elements were rejected.
---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0150de1..e846be1 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,7 +526,7 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    if np.isclose(np.abs(det), 0.0):
+    if np.abs(det) <= 1e-8*np.linalg.norm(jaco)**jaco.shape[0]:
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
     jaco_inv = np.linalg.inv(jaco)
-- 
2.43.0


From 80e0c3c416fc76f906b981a4da792a2a765ffdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 17/24] fix: check equilibrium relative to the loads

The residual was scaled by the stiffness, so the check never failed for
stiff materials.
---
 solidspy/solids_GUI.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solidspy/solids_GUI.py b/solidspy/solids_GUI.py
index 22afda1..fdf786d 100755
--- a/solidspy/solids_GUI.py
+++ b/solidspy/solids_GUI.py
@@ -67,8 +67,8 @@ def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
 
     # System solution
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    residual = np.linalg.norm(stiff_mat.dot(disp) - rhs_vec)
+    if not residual <= 1e-5*np.linalg.norm(rhs_vec):
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
@@ -140,8 +140,8 @@ def solids_auto(data, plot_contours=True, compute_strains=False):
     # System solution
     start_time = datetime.now()
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    residual = np.linalg.norm(stiff_mat.dot(disp) - rhs_vec)
+    if not residual <= 1e-5*np.linalg.norm(rhs_vec):
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
-- 
2.43.0


From 7303864f482b07af25d3ee16c2c0d9bf001dde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 18/24] fix: accept input folders without a trailing separator

---
 solidspy/preprocesor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dd26468..dc1bb11 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -7,26 +7,27 @@ This module contains functions to preprocess the input files to compute
 a Finite Element Analysis.
 
 """
+import os
 import sys
 import numpy as np
 
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)
-    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)
-    elements = np.loadtxt(folder + 'eles.txt', ndmin=2, dtype=int)
-    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2, dtype=int)
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
 
     return nodes, mats, elements, loads
 
 
 def echomod(nodes, mats, elements, loads, folder=""):
     """Create echoes of the model input files"""
-    np.savetxt(folder + "KNODES.txt", nodes, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KMATES.txt", mats, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KELEMS.txt", elements, fmt='%d', delimiter=' ')
-    np.savetxt(folder + "KLOADS.txt", loads, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KNODES.txt"), nodes, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KMATES.txt"), mats, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KELEMS.txt"), elements, fmt='%d', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KLOADS.txt"), loads, fmt='%5.2f', delimiter=' ')
 
 
 def initial_params():
-- 
2.43.0


From dcb6ab87264fa1083db6ad9c06757cc7c789c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 19/24] fix: beams with axial force are structural elements too
 in plots

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2f46c1b..84a3b69 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -49,7 +49,8 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     # Check for structural elements in the mesh
     struct_pos = 5 in elements[:, 1] or \
              6 in elements[:, 1] or \
-             7 in elements[:, 1]
+             7 in elements[:, 1] or \
+             8 in elements[:, 1]
     if struct_pos:
         # Still not implemented visualization for structural elements
         print(disp)
-- 
2.43.0


From 089c2fc48cc9f27108c13397f9061d6755282907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:14 +0000
Subject: [PATCH 20/24] fix: plot every field in a new figure when older ones
 were closed

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 84a3b69..d62bb8d 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -155,8 +155,8 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
         title = ["" for cont in range(nfields)]
     if figtitle is None:
         figs = plt.get_fignums()
-        nfigs = len(figs)
-        figtitle = [cont + 1 for cont in range(nfigs, nfigs + nfields)]
+        last = max(figs, default=0)
+        figtitle = [cont + 1 for cont in range(last, last + nfields)]
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-- 
2.43.0


From 2ac2bf981a7f4df6c818c00e369063b29f0ee5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 21/24] fix: reject elements whose nodes coincide away from the
 origin

---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index e846be1..1e693d9 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -524,7 +524,7 @@ def jacoper(dNdr, coord):
       Jacobian of the transformation evaluated at a point.
 
     """
-    jaco = dNdr @ coord
+    jaco = dNdr @ (coord - coord[0])
     det = np.linalg.det(jaco)
     if np.abs(det) <= 1e-8*np.linalg.norm(jaco)**jaco.shape[0]:
         msg = "Jacobian close to zero. Check the shape of your elements!"
-- 
2.43.0


From 1c597932c5ec0e80df51678431fe4cfd6dcc8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 22/24] fix: colour the members of a truss by position, not by
 label

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index d62bb8d..14c722b 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -222,9 +222,9 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
     else:
         widths = 3*np.ones_like(areas)
     plt.figure(figtitle)
-    for elem in elements:
+    for cont, elem in enumerate(elements):
         ini, end = elem[3:]
-        color = plt.cm.seismic(scaled_stress[elem[0]])
+        color = plt.cm.seismic(scaled_stress[cont])
         plt.plot([nodes[ini, 1], nodes[end, 1]],
                  [nodes[ini, 2], nodes[end, 2]],
                  color=color, lw=widths[elem[2]])
-- 
2.43.0


From 634e0cfa6e6911412c84e4e8def7cbb82a342fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 23/24] fix: plot trusses without stresses in the neutral
 colour

---
 solidspy/postprocesor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 14c722b..8669b81 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -215,7 +215,10 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
         scaled_stress = np.ones_like(elements[:, 0])
     else:
         max_stress = max(-stresses.min(), stresses.max())
-        scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        if max_stress > 0:
+            scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        else:
+            scaled_stress = 0.5*np.ones(len(elements))
     if max_area - min_area > 1e-6:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
-- 
2.43.0


From 978d04f9abd51b1457138d3f4c258af814e26c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 24/24] fix: tell apart cross sections in any unit of length in
 truss plots

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 8669b81..c5a2eb9 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -219,7 +219,7 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
             scaled_stress = 0.5*(stresses + max_stress)/max_stress
         else:
             scaled_stress = 0.5*np.ones(len(elements))
-    if max_area - min_area > 1e-6:
+    if max_area - min_area > 1e-6*max_area:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
     else:
-- 
2.43.0

