From 43a27481e7fb36c33f6e2e6e695ff8b9466879d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 01/25] fix: build VTK fibers with current pyvista

pyvista rejects null or decreasing radii in CylinderStructured and no longer
has pyvista.translate, so every VTK export failed.
---
 src/fibermat/render.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 01ef7d2..cfc451c 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -71,9 +71,12 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     """
     # Create the VTK mesh (cylindrical structured grid)
-    msh = pv.CylinderStructured(radius=np.linspace(0.5, 0, r_resolution + 1),
+    msh = pv.CylinderStructured(radius=np.linspace(0.5, 1, r_resolution + 1),
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
+    # Fill the cylinder (radii must be positive and increasing in `pyvista`)
+    r = np.linalg.norm(msh.points[:, 1:], axis=1, keepdims=True)
+    msh.points[:, 1:] *= (1 - r) / r  # : from 0.5 to 0
 
     l, b, h = length, width, thickness
 
@@ -88,9 +91,11 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
 
     # Transform the mesh (scale, rotate, and translate)
     msh.scale([l, b, h], inplace=True)
-    pv.translate(msh,
-                 center=(x, y, z),
-                 direction=(u, v, w))
+    el = np.array([u, v, w]) / np.linalg.norm([u, v, w])  # : length
+    eb = np.array([-v, u, 0.] if u or v else [0., 1., 0.])  # : width
+    eb /= np.linalg.norm(eb)
+    eh = np.cross(el, eb)  # : thickness
+    msh.points = msh.points @ np.array([el, eb, eh]) + np.array([x, y, z])
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 78d6018d7763145a2f905f8f9e5f8846554804c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 02/25] fix: pass vtk_mesh keyword arguments to vtk_fiber

The documented resolution arguments were ignored.
---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index cfc451c..9123ef0 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -240,7 +240,7 @@ def vtk_mesh(mat=None, mesh=None,
         msh["node"] = j
 
     # Create a VTK mesh with interpolation dataZ
-    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose)
+    msh = vtk_mat(mat, func=inteprolation_field, verbose=verbose, **kwargs)
 
     if len(mat):
         # Interpolate fields
-- 
2.43.0


From c80996e421a7768c602681a4e0b85cc8325e3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 03/25] fix: interpolate constant values without NaN

A single sample, or an infinite constant value (end nodes in the upper-bound
vector H returned by solve), was interpolated as NaN.
---
 src/fibermat/interpolation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 2d1ae5e..c84be51 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -68,6 +68,8 @@ class Interpolate(interp1d):
         # Set attributes
         self.t = t
         self.dtype = np.array(y).dtype
+        self.y0 = np.array(y[0])
+        self.mask = np.all(np.array(y) == self.y0, axis=0)  # : constant values
 
     def __call__(self, t=None):
         """
@@ -86,7 +88,9 @@ class Interpolate(interp1d):
         """
         if t is None:
             t = self.t
-        return super().__call__(t).astype(self.dtype)
+        y = super().__call__(t)
+        # Constant values do not depend on t (including infinite values)
+        return np.where(self.mask, self.y0, y).astype(self.dtype)
 
 
 ################################################################################
-- 
2.43.0


From 6ec951bd5f705badea5e44beb251ff02b09acdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 04/25] fix: return the results when the packing system is
 singular

Jammed fibers made the sparse solver raise a RuntimeError and all the steps
computed so far were lost.
---
 src/fibermat/solver.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index 6e501c9..c0beda3 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -143,12 +143,19 @@ def solve(mat, mesh, packing=1., itermax=1000,
             mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
             # Solve linear problem
             # dx[mask] += np.real(solve(P[np.ix_(mask, mask)], dq[mask]))
-            dx[perm[mask[perm]]] = np.real(
-                solve(
-                    P[np.ix_(perm[mask[perm]], perm[mask[perm]])],
-                    dq[perm[mask[perm]]]
+            try:
+                dx[perm[mask[perm]]] = np.real(
+                    solve(
+                        P[np.ix_(perm[mask[perm]], perm[mask[perm]])],
+                        dq[perm[mask[perm]]]
+                    )
                 )
-            )
+            except (RuntimeError, np.linalg.LinAlgError) as e:
+                # Singular system (jammed fibers)
+                if verbose:
+                    warnings.warn("Stopping criteria: {}".format(e),
+                                  UserWarning)
+                break
             # Calculate error
             err = np.linalg.norm(P[np.ix_(mask, mask)] @ dx[mask] - dq[mask])
             # Calculate evolution
-- 
2.43.0


From cfedc9299f58363610e4a65fa3ceecd709019d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 05/25] fix: raise IndexError for repeated row labels in Net
 and Mesh

The shape mismatch raised a broadcasting ValueError instead of the documented
IndexError.
---
 src/fibermat/mesh.py | 3 ++-
 src/fibermat/net.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index cda9c09..63adb98 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -277,7 +277,8 @@ class Mesh(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(mesh.index) == np.arange(len(mesh))):
+        if (len(np.unique(mesh.index)) != len(mesh)
+                or not np.all(np.unique(mesh.index) == np.arange(len(mesh)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(mesh) - 1))
         if not np.all(mesh.index == np.arange(len(mesh))):
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index ee92e20..2beede9 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -353,7 +353,8 @@ class Net(pd.DataFrame):
             raise AttributeError("'periodic' is not in attribute dictionary.")
 
         # Indices
-        if not np.all(np.unique(net.index) == np.arange(len(net))):
+        if (len(np.unique(net.index)) != len(net)
+                or not np.all(np.unique(net.index) == np.arange(len(net)))):
             raise IndexError("Row indices must be unique in [0,..., {}]."
                              .format(len(net) - 1))
         if not np.all(net.index == np.arange(len(net))):
-- 
2.43.0


From b97884eef1c2ce8152f42ab016fbff8dcb4baf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 06/25] fix: compare infinite moduli by value in Settings

An infinite modulus that is not the np.inf object, such as float("inf"), was
silently replaced by a finite value.
---
 src/fibermat/widgets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/widgets.py b/src/fibermat/widgets.py
index 9a9752a..52f8ca8 100644
--- a/src/fibermat/widgets.py
+++ b/src/fibermat/widgets.py
@@ -44,9 +44,9 @@ class Settings(dict):
         self.size = ipywidgets.FloatText(value=size, step=10.0, description="SIZE")
         self.theta = ipywidgets.FloatSlider(value=theta, min=0.0, max=1.0, step=0.01, readout_format=".1%", description="THETA")
         self.shear = ipywidgets.FloatText(value=(shear if shear != np.inf else 1.0), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.shear.switch = ipywidgets.Checkbox(value=not (shear is np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
+        self.shear.switch = ipywidgets.Checkbox(value=not (shear == np.inf), description="SHEAR", layout=ipywidgets.Layout(width='196px'))
         self.tensile = ipywidgets.FloatText(value=(tensile if tensile  != np.inf else shear * (length / thickness) ** 2), step=1.0, layout=ipywidgets.Layout(width='100px'))
-        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile is np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
+        self.tensile.switch = ipywidgets.Checkbox(value=not (tensile == np.inf), description="TENSILE", layout=ipywidgets.Layout(width='196px'))
         self.seed = ipywidgets.IntText(value=(seed if seed is not None else 0), layout=ipywidgets.Layout(width='100px'))
         self.seed.switch = ipywidgets.Checkbox(value=not (seed is None), description="SEED", layout=ipywidgets.Layout(width='196px'))
 
@@ -190,9 +190,9 @@ class Settings(dict):
 
         """
         if name in ["shear", "tensile"]:
-            self.__getattribute__(name).switch.value = (False if value is np.inf
+            self.__getattribute__(name).switch.value = (False if value == np.inf
                                                         else True)
-            if value is not np.inf:
+            if value != np.inf:
                 self.__getattribute__(name).value = value
         elif name in ["seed", "threshold", "lmin", "lmax", "interp_size"]:
             self.__getattribute__(name).switch.value = (False if value is None
-- 
2.43.0


From 136486b40c58ed502a8e19f60e385ba7affac76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 07/25] fix: copy global attributes in the constructors

The attribute dictionary was shared with the argument.
---
 src/fibermat/mat.py  | 2 +-
 src/fibermat/mesh.py | 2 +-
 src/fibermat/net.py  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fibermat/mat.py b/src/fibermat/mat.py
index a6880f5..ebc9bcf 100644
--- a/src/fibermat/mat.py
+++ b/src/fibermat/mat.py
@@ -144,7 +144,7 @@ class Mat(pd.DataFrame):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
diff --git a/src/fibermat/mesh.py b/src/fibermat/mesh.py
index 63adb98..08a9336 100644
--- a/src/fibermat/mesh.py
+++ b/src/fibermat/mesh.py
@@ -120,7 +120,7 @@ class Mesh(pd.DataFrame):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2beede9..0e987e7 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -130,7 +130,7 @@ class Net(pd.DataFrame):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
@@ -518,7 +518,7 @@ class Stack(Net):
             # Initialize the DataFrame from argument
             super().__init__(*args, **kwargs)
             # Copy global attributes from argument
-            self.attrs = args[0].attrs
+            self.attrs = dict(args[0].attrs)
 
         else:
             # Initialize the DataFrame from parameters
-- 
2.43.0


From 354e2de58bce2d514677687889257967b207f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 08/25] fix: keep the connections of the network when stacking

Stack rebuilt the whole network, so that connections that are not in the given
network (user-defined pairs, removed connections) were added with fibers
crossing each other.
---
 src/fibermat/net.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 0e987e7..e254f04 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -561,7 +561,7 @@ class Stack(Net):
         if mat is None:
             mat = Mat()
         if net is None:
-            net = Net()
+            net = Net(mat)
 
         assert Mat.check(mat)
         assert Net.check(net)
@@ -572,7 +572,10 @@ class Stack(Net):
         if linsol:
             # Update DataFrames
             mat.z = linsol.x
-            net = Net(mat, **net.attrs)
+            net = net.copy()
+            for k in "AB":
+                net["z" + k] = (mat.z.values[net[k]]
+                                + net["s" + k] * mat.w.values[net[k]])
 
             # Remove nodes based on threshold distances between nodes
             mask = np.zeros(len(net))
-- 
2.43.0


From 1fbe7c46af6177920e0479448a30448516d21288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 09/25] fix: locate VTK points when nodes of a fiber coincide

---
 src/fibermat/render.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 9123ef0..ed98e7f 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -5,7 +5,6 @@ import numpy as np
 import pyvista as pv
 from matplotlib import pyplot as plt
 from scipy.interpolate import CubicHermiteSpline
-from sklearn.neighbors import KDTree
 from tqdm import tqdm
 
 from fibermat import Mat, Net, Stack, Mesh, solve
@@ -224,17 +223,12 @@ def vtk_mesh(mat=None, mesh=None,
     def inteprolation_field(msh, i):
         # Prepare interpolation data
         fiber = by_fiber.get_group(i)
-        s = fiber.s.values[:, None]
-        x = msh["xyz"][:, [0]] * 0.9999
-        k = KDTree(s).query(x, return_distance=False).ravel()
-        s, x = s.ravel(), x.ravel()
-        # Correct indices (s_k <= x_i < s_{k+1}, k \in [-1, n])
-        k = k * (x > s[k]) + (k - 1) * (x <= s[k])
+        s = fiber.s.values
+        x = msh["xyz"][:, 0] * 0.9999
+        # Elements containing the points (s_k < x_i <= s_{k+1})
+        k = np.searchsorted(s, x) - 1
         # Indices containing relative distances (np.floor(j) = k)
         j = ((x - s[k]) / (s[k + 1] - s[k]))
-        # Correct issues for periodic mesh
-        j = np.array([*j])
-        j[j == np.inf] = 0
         # Add to vtk_fiber
         j += fiber.index[k]
         msh["node"] = j
-- 
2.43.0


From 909a82bc226c9c4fdb8fbc56e5803fa816859f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:37 +0000
Subject: [PATCH 10/25] fix: interpolate VTK fields along the length of fibers

---
 src/fibermat/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index ed98e7f..0296a4f 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -238,8 +238,10 @@ def vtk_mesh(mat=None, mesh=None,
 
     if len(mat):
         # Interpolate fields
-        s = np.arange(len(mesh))
-        x = msh["node"]
+        # (along the fibers laid end to end, so that slopes are per unit of length)
+        ds = np.where(np.diff(mesh.fiber) == 0, np.diff(mesh.s), 1.)
+        s = np.r_[0., np.cumsum(np.maximum(ds, 1e-9))]
+        x = np.interp(msh["node"], np.arange(len(mesh)), s)
         if displacement is not None:
             if rotation is None:
                 rotation = 0 * displacement
-- 
2.43.0


From 28597e7b0e6ab6a6a47d494eea4437ea5127371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 11/25] fix: apply the contact tolerance to contacts only

With large moduli, round-off in the force balance exceeded the distance
tolerance: equilibrium equations were dropped and results became NaN.
---
 src/fibermat/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index c0beda3..aacd10d 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -140,6 +140,8 @@ def solve(mat, mesh, packing=1., itermax=1000,
             dx *= 0
             # mask = [True] * K.shape[0] + [*(C @ u >= H - tol)]
             mask = (np.real(q - P @ x) <= tol)
+            # (equilibrium does not depend on the tolerance used for contacts)
+            mask[:K.shape[0]] = ~np.isnan(np.real(q - P @ x))[:K.shape[0]]
             mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
             # Solve linear problem
             # dx[mask] += np.real(solve(P[np.ix_(mask, mask)], dq[mask]))
@@ -164,7 +166,9 @@ def solve(mat, mesh, packing=1., itermax=1000,
 
             try:
                 # Calculate the next step
-                dU = -min(d[(d > tol) & (v > 0)] / v[(d > tol) & (v > 0)])
+                contact = (np.arange(P.shape[0]) >= K.shape[0])
+                contact &= (d > tol) & (v > 0)
+                dU = -min(d[contact] / v[contact])
                 # Stopping criteria
                 stop = False
                 if err > errtol:
-- 
2.43.0


From d96a82134189e804715b95ca475718bfc59bcbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 12/25] fix: do not connect parallel fibers whose directions
 differ by rounding

---
 src/fibermat/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index e254f04..2f8ff58 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -225,7 +225,7 @@ class Net(pd.DataFrame):
         UUt = U @ Ut
         Ur = U @ r
         R = 0.5 * L
-        mask = (np.linalg.det(UUt) != 0)
+        mask = (np.linalg.det(UUt) > 1e-12)  # for parallel fibers (to rounding)
         # Solve normal equations: 𝕌ᵀ·R⃗ = r⃗ ⟺ 𝕌·𝕌ᵀ·R⃗ = 𝕌·r⃗
         R[mask] = np.linalg.solve(UUt[mask], Ur[mask])
 
-- 
2.43.0


From 94881437c00668f82bd4b8418d2327317e7db4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 13/25] fix: round interpolated integers instead of truncating
 them

---
 src/fibermat/interpolation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index c84be51..7535b7c 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -89,6 +89,9 @@ class Interpolate(interp1d):
         if t is None:
             t = self.t
         y = super().__call__(t)
+        if self.dtype.kind in "biu":
+            # Round to the nearest value (do not truncate)
+            y = np.rint(y)
         # Constant values do not depend on t (including infinite values)
         return np.where(self.mask, self.y0, y).astype(self.dtype)
 
-- 
2.43.0


From fe5c60d72a476e7ea2832c9d2f460c3697f43cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 14/25] fix: interpolate samples with infinite constants at any
 order

---
 src/fibermat/interpolation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fibermat/interpolation.py b/src/fibermat/interpolation.py
index 7535b7c..2334810 100644
--- a/src/fibermat/interpolation.py
+++ b/src/fibermat/interpolation.py
@@ -57,6 +57,11 @@ class Interpolate(interp1d):
             Additional keyword arguments passed to `interp1d` constructor.
 
         """
+        dtype = np.array(y).dtype
+        y0 = np.array(y[0])
+        mask = np.all(np.array(y) == y0, axis=0)  # : constant values
+        # Infinite values cannot be interpolated (even if they are constant)
+        y = np.where(mask & np.isinf(y0), 0, y)
         t = np.linspace(0, 1, len(y))
         f = interp1d(t, y, axis=0,
                      bounds_error=False, fill_value=y[-1], **kwargs)
@@ -67,9 +72,9 @@ class Interpolate(interp1d):
                          bounds_error=False, fill_value=y[-1], **kwargs)
         # Set attributes
         self.t = t
-        self.dtype = np.array(y).dtype
-        self.y0 = np.array(y[0])
-        self.mask = np.all(np.array(y) == self.y0, axis=0)  # : constant values
+        self.dtype = dtype
+        self.y0 = y0
+        self.mask = mask
 
     def __call__(self, t=None):
         """
-- 
2.43.0


From 8d0ab4bdec2d0e17e17aab56054bc000b8f8ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 15/25] fix: centre exported fibers for odd numbers of points
 around the section

---
 src/fibermat/render.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 0296a4f..3af0a8f 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -73,6 +73,10 @@ def vtk_fiber(length=25., width=1., thickness=1., x=0., y=0., z=0.,
     msh = pv.CylinderStructured(radius=np.linspace(0.5, 1, r_resolution + 1),
                                 theta_resolution=theta_resolution,
                                 z_resolution=z_resolution)
+    # Center the faces (`pyvista` centers the bounding box, which is not the
+    # axis of the cylinder if the number of points is odd)
+    faces = msh.points.reshape(z_resolution, theta_resolution + 1, -1, 3)
+    msh.points[:, 1:] -= faces[:, :-1, :, 1:].mean(axis=(0, 1, 2))
     # Fill the cylinder (radii must be positive and increasing in `pyvista`)
     r = np.linalg.norm(msh.points[:, 1:], axis=1, keepdims=True)
     msh.points[:, 1:] *= (1 - r) / r  # : from 0.5 to 0
-- 
2.43.0


From 2848049849730c60179e444290046fa2b88bbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 16/25] fix: keep fiber labels when cutting periodic exports

---
 src/fibermat/render.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 3af0a8f..02660f0 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -265,6 +265,8 @@ def vtk_mesh(mat=None, mesh=None,
     if len(mat) and mesh.attrs["periodic"]:
         X = Y = mat.attrs["size"]
         Z1, Z2 = np.min(msh.points), np.max(msh.points)
+        # Labels are interpolated in the cells that are cut (without truncation)
+        msh["fiber"] = msh["fiber"].astype(float)
         # Duplicate mesh for periodic conditions
         msh = pv.MultiBlock([
             msh,
@@ -277,6 +279,7 @@ def vtk_mesh(mat=None, mesh=None,
             msh.copy().translate([X, -Y, 0]),
             msh.copy().translate([X, Y, 0]),
         ]).combine().clip_box([-X, X, -Y, Y, Z1, Z2], invert=False)
+        msh["fiber"] = np.rint(msh["fiber"]).astype(int)
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 6c97a8e2df3772f43da94390621001dc13b3e2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 17/25] fix: keep infinite moduli when cutting periodic exports

---
 src/fibermat/render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 02660f0..4bf84f0 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -280,6 +280,8 @@ def vtk_mesh(mat=None, mesh=None,
             msh.copy().translate([X, Y, 0]),
         ]).combine().clip_box([-X, X, -Y, Y, Z1, Z2], invert=False)
         msh["fiber"] = np.rint(msh["fiber"]).astype(int)
+        # Infinite moduli cannot be interpolated
+        msh["E"] = mat.E.loc[msh["fiber"]].values
 
     # Return VTK mesh
     return msh
-- 
2.43.0


From 60cc1eb33e0621649ab7a3ddcc45bf145797548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 18/25] fix: return thicknesses of the stacking system as a
 copy

---
 src/fibermat/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/net.py b/src/fibermat/net.py
index 2f8ff58..5809d8a 100644
--- a/src/fibermat/net.py
+++ b/src/fibermat/net.py
@@ -760,7 +760,7 @@ class Stack(Net):
         I = O + 1  # : one
 
         # Get material data
-        h = mat.h.values
+        h = mat.h.values.copy()  # : not a view of `mat`
 
         # Create constraint data
         row = np.array([k, k]).ravel()
-- 
2.43.0


From d54beed79afd317869c3faa74990bbc07eccba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 19/25] fix: assemble the matrices of an empty mesh

---
 src/fibermat/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 6e4cae5..1c0d186 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -132,11 +132,12 @@ def stiffness(mat, mesh, lmin=None, lmax=None, coupling=1.0, **kwargs):
     # Get material data
     fiber = mat.loc[fiber]
     l = mesh.s.loc[j].values - mesh.s.loc[i].values
-    if lmin is None:
-        lmin = np.min(l)
-    if lmax is None:
-        lmax = np.max(l)
-    l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
+    if len(l):
+        if lmin is None:
+            lmin = np.min(l)
+        if lmax is None:
+            lmax = np.max(l)
+        l = interp1d([min(np.min(l), lmin), max(np.max(l), lmax)], [lmin, lmax])(l)
 
     # Timoshenko number : Ψ² = E / G * (h / l) ^ 2
     k0 = np.pi / 4 * fiber[[*"Gbh"]].prod(axis=1).values / l
@@ -268,7 +269,7 @@ def constraint(mat, mesh, **kwargs):
     zj = mesh.z.loc[j].values
     hi = mesh.h.loc[i].values
     hj = mesh.h.loc[j].values
-    Z = (mesh.z.values + 0.5 * mesh.h.values).max()  # : upper boundary position
+    Z = np.max(mesh.z.values + 0.5 * mesh.h.values, initial=-np.inf)  # : upper boundary position
     i *= 2
     j *= 2
     k *= 3
-- 
2.43.0


From 78f2ddd0e6a09c13e0daeaceb1cfc88596d1d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 20/25] fix: apply the contact tolerance to contacts only in
 plot_system

---
 src/fibermat/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fibermat/model.py b/src/fibermat/model.py
index 1c0d186..ef02cb4 100644
--- a/src/fibermat/model.py
+++ b/src/fibermat/model.py
@@ -379,6 +379,8 @@ def plot_system(K, u, F, du, dF, C, f, H, df, dH,
     ax.legend()
 
     mask = (np.real(q - P @ x) <= tol)
+    # (equilibrium does not depend on the tolerance used for contacts)
+    mask[:K.shape[0]] = ~np.isnan(np.real(q - P @ x))[:K.shape[0]]
     mask &= np.array(np.sum(np.abs(np.real(P)), axis=0) > 0).ravel()
 
     # Solve linear problem
-- 
2.43.0


From 3319991e2c26f4dce26027a13633b789e37738fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 21/25] fix: strictly increasing abscissae in the VTK export
 for any unit of length

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 4bf84f0..13ac152 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -244,7 +244,7 @@ def vtk_mesh(mat=None, mesh=None,
         # Interpolate fields
         # (along the fibers laid end to end, so that slopes are per unit of length)
         ds = np.where(np.diff(mesh.fiber) == 0, np.diff(mesh.s), 1.)
-        s = np.r_[0., np.cumsum(np.maximum(ds, 1e-9))]
+        s = np.r_[0., np.cumsum(np.maximum(ds, 1e-12 * np.sum(ds)))]
         x = np.interp(msh["node"], np.arange(len(mesh)), s)
         if displacement is not None:
             if rotation is None:
-- 
2.43.0


From bcef37848f5cd6425642fd6fcc8d24145072bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 22/25] fix: scripts call the solve function (not the solver
 module)

---
 scripts/logo.py   | 2 +-
 scripts/square.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/logo.py b/scripts/logo.py
index c5c14e8..681db74 100644
--- a/scripts/logo.py
+++ b/scripts/logo.py
@@ -40,7 +40,7 @@ stack = Stack(mat, net)
 mesh = Mesh(stack)
 
 # Solve the mechanical packing problem
-K, C, u, f, F, H, Z, rlambda, mask, err = solver(
+K, C, u, f, F, H, Z, rlambda, mask, err = solve(
     mat, mesh,
     packing=4, itermax=10000, lmin=0.01, coupling=0.99, interp_size=100
 )
diff --git a/scripts/square.py b/scripts/square.py
index 9ec1c05..5e7faa9 100644
--- a/scripts/square.py
+++ b/scripts/square.py
@@ -82,7 +82,7 @@ if __name__ == "__main__":
     mesh = Mesh(stack)
 
     # Solve the mechanical packing problem
-    K, C, u, f, F, H, Z, rlambda, mask, err = solver(
+    K, C, u, f, F, H, Z, rlambda, mask, err = solve(
         mat, mesh,
         packing=4, itermax=10000, lmin=0.01, coupling=0.99, interp_size=100
     )
-- 
2.43.0


From 5e6b1141de8ab73f0a3be385b5336c223af7cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 23/25] fix: examples create the outputs folder before saving
 into it

---
 README.md         | 2 ++
 main.py           | 2 ++
 scripts/logo.py   | 3 +++
 scripts/square.py | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/README.md b/README.md
index 3a46a56..8060668 100644
--- a/README.md
+++ b/README.md
@@ -195,6 +195,7 @@ See the tutorial in `jupyter-notebook.ipynb`.
 ## Example
 
 ```python
+import os
 from fibermat import *
 
 # Generate a set of fibers
@@ -217,6 +218,7 @@ msh = vtk_mesh(mat, mesh,
                *u(1).reshape(-1, 2).T,
                *(f(1) @ C).reshape(-1, 2).T)
 msh.plot(scalars="force", cmap=plt.cm.twilight_shifted)
+os.makedirs("outputs", exist_ok=True)
 msh.save("outputs/msh.vtk")
 
 ```
diff --git a/main.py b/main.py
index 51293b2..641dcf3 100644
--- a/main.py
+++ b/main.py
@@ -66,6 +66,7 @@ Mahé, F. (2023). Statistical mechanical framework for discontinuous composites:
 
 if __name__ == "__main__":
 
+    import os
     from fibermat import *
 
     # Generate a set of fibers
@@ -106,4 +107,5 @@ if __name__ == "__main__":
                    *u(1).reshape(-1, 2).T,
                    *(f(1) @ C).reshape(-1, 2).T)
     msh.plot(scalars="force", cmap=plt.cm.twilight_shifted)
+    os.makedirs("outputs", exist_ok=True)
     msh.save("outputs/msh.vtk")
diff --git a/scripts/logo.py b/scripts/logo.py
index 681db74..0c02a0d 100644
--- a/scripts/logo.py
+++ b/scripts/logo.py
@@ -1,3 +1,5 @@
+import os
+
 from fibermat import *
 
 mask = np.array(
@@ -50,4 +52,5 @@ vtk = vtk_mesh(mat, mesh,
                *u(1).reshape(-1, 2).T,
                *(f(1) @ C).reshape(-1, 2).T)
 vtk.plot(scalars="force", cmap=plt.cm.twilight_shifted)
+os.makedirs("outputs", exist_ok=True)
 vtk.save("outputs/vtk.vtk")
diff --git a/scripts/square.py b/scripts/square.py
index 5e7faa9..4e3cb43 100644
--- a/scripts/square.py
+++ b/scripts/square.py
@@ -60,6 +60,7 @@ Mahé, F. (2023). Statistical mechanical framework for discontinuous composites:
 """
 
 
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 
@@ -100,4 +101,5 @@ if __name__ == "__main__":
                    *u(1).reshape(-1, 2).T,
                    *(f(1) @ C).reshape(-1, 2).T)
     # vtk.plot(scalars="force", cmap=plt.cm.twilight_shifted)
+    os.makedirs("outputs", exist_ok=True)
     vtk.save("outputs/vtk.vtk")
-- 
2.43.0


From b7809f607d48fb80d4266db36ee77e0870491950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:59 +0000
Subject: [PATCH 24/25] fix: export fiber sets with additional columns
 (vtk_mat)

---
 src/fibermat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fibermat/render.py b/src/fibermat/render.py
index 13ac152..8b2faf1 100644
--- a/src/fibermat/render.py
+++ b/src/fibermat/render.py
@@ -147,7 +147,7 @@ def vtk_mat(mat=None, func=None, verbose=True, **kwargs):
 
     for i in tqdm(mat.index, desc="Create VTK mat", disable=not verbose):
         # Get fiber
-        fiber = mat.loc[i].astype(float)
+        fiber = mat.loc[i, [*"lbhxyzuvwGE"]].astype(float)
         # Create the VTK mesh (cylindrical structured grid)
         msh = vtk_fiber(*fiber[[*"lbhxyzuvwGE"]].values,
                         index=i,
-- 
2.43.0


From 3043c7951e98fd1977aa401254c9ed2221684a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 25/25] fix: solve() kept steps with an undefined solution (NaN
 error)

---
 src/fibermat/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fibermat/solver.py b/src/fibermat/solver.py
index aacd10d..97329bd 100644
--- a/src/fibermat/solver.py
+++ b/src/fibermat/solver.py
@@ -171,6 +171,12 @@ def solve(mat, mesh, packing=1., itermax=1000,
                 dU = -min(d[contact] / v[contact])
                 # Stopping criteria
                 stop = False
+                if np.isnan(err):
+                    # Undefined solution (no tolerance is satisfied)
+                    if verbose:
+                        warnings.warn("Stopping criteria: err = {}".format(err),
+                                      UserWarning)
+                    stop = True
                 if err > errtol:
                     if verbose:
                         warnings.warn("Stopping criteria: err = {}".format(err),
-- 
2.43.0

