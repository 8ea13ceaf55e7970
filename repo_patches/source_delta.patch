From 4a31c819f556f5160d63cd3b037991cb96686ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 01/11] fix: first derivatives of linear splines on evenly
 spaced dimensions
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The blending formula divided by δ, which is the cell width on unevenly spaced
dimensions but the inverse cell width on evenly spaced ones.  δ is now the
inverse cell width in both cases.
---
 interpolation/splines/codegen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..20c51a9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -215,8 +215,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dimension {{i}}: nonuniform grid
     i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-    δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
     {{endif}}
     
     {{endfor}}
@@ -353,8 +353,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         # dimension {{i}}: nonuniform grid
         i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-        δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From f482403fb23b32df87cc8518efba26819639b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 02/11] fix: nearest/constant extrapolation of one point on an
 uneven grid

The single-point template never defined the bounds of unevenly spaced
dimensions, so these calls failed to compile.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 20c51a9..fdef8e9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From 9da0f5736d678dc4ca592dd9132b030e80af88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 03/11] fix: constant extrapolation of one point, vector-valued
 and in place

Without a return, the zeros were overwritten by the linear extrapolation.
---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index fdef8e9..704cff5 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -196,6 +196,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From eb981f5503285474cdbe565f819220f51be672ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 04/11] fix: constant extrapolation of one point with
 derivatives requested

The scalar-valued template returned a single 0.0 instead of one zero per
requested derivative, and did not fill the output array when one was given.
---
 interpolation/splines/codegen.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 704cff5..77f0675 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -199,6 +199,13 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{else}}
         return
         {{endif}}
+        {{elif orders is not None}}
+        {{if allocate}}
+        return ({{"0.0, "*len(orders)}})
+        {{else}}
+        out[:] = 0.0
+        return
+        {{endif}}
         {{else}}
         val = 0.0
         return val
-- 
2.43.0


From a77fee009944963fb598f5cdb999eddecb21019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 05/11] fix: nodes() on grids with unevenly spaced dimensions

An array dimension was read as a (min, max, n) triple, so its first three
nodes were taken for the bounds and the number of points.
---
 interpolation/splines/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index e23a570..df5cca1 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -37,6 +37,8 @@ def CGrid(*args):
 
 
 def nodes(grid):
-    from interpolation.cartesian import mlinspace
+    from interpolation.cartesian import cartesian
 
-    return mlinspace([g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid])
+    return cartesian(
+        [g if isinstance(g, np.ndarray) else np.linspace(*g) for g in grid]
+    )
-- 
2.43.0


From a513200d02a8f35a38333ffc4394c4111389b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 06/11] fix: grid of one-dimensional linear splines

linspace was given an array as number of points, which raises a TypeError.
---
 interpolation/splines/multilinear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..76d96bf 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -6,9 +6,7 @@ import numpy as np
 
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
-        )
+        res = np.atleast_2d(np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  ## workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From 9f5f0c708ddec687384d8d0037be464519422804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 07/11] fix: undefined name in vec_multilinear_interpolation
 with an output array

---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From ad98e2162155050c1e876cd5a23860b5f17713ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 08/11] fix: gradient of cubic splines outside of the grid

Values are extended linearly outside of the grid, but the gradient was the
slope of the cubic polynomial of the boundary cell.
---
 interpolation/splines/eval_cubic_numba.py | 50 +++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index e6b201e..c4902f2 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -5110,6 +5110,11 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp0_2
                 + Ad[3, 3] * tp0_3
             )
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t0 = min(max(t0, 0.0), 1.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5276,6 +5281,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp1_2
                 + Ad[3, 3] * tp1_3
             )
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t0 = min(max(t0, 0.0), 1.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5300,6 +5310,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t1 = min(max(t1, 0.0), 1.0)
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5603,6 +5618,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp2_2
                 + Ad[3, 3] * tp2_3
             )
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t0 = min(max(t0, 0.0), 1.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5627,6 +5647,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t1 = min(max(t1, 0.0), 1.0)
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5651,6 +5676,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t2 = min(max(t2, 0.0), 1.0)
+        tp2_0 = t2 * t2 * t2
+        tp2_1 = t2 * t2
+        tp2_2 = t2
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6427,6 +6457,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp3_2
                 + Ad[3, 3] * tp3_3
             )
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t0 = min(max(t0, 0.0), 1.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -6451,6 +6486,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t1 = min(max(t1, 0.0), 1.0)
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -6475,6 +6515,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t2 = min(max(t2, 0.0), 1.0)
+        tp2_0 = t2 * t2 * t2
+        tp2_1 = t2 * t2
+        tp2_2 = t2
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6499,6 +6544,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp2_2
             + dAd[3, 3] * tp2_3
         ) * dinv2
+        # the extrapolated spline is linear: its slope is the one at the boundary
+        t3 = min(max(t3, 0.0), 1.0)
+        tp3_0 = t3 * t3 * t3
+        tp3_1 = t3 * t3
+        tp3_2 = t3
         dPhi3_0 = (
             dAd[0, 0] * tp3_0
             + dAd[0, 1] * tp3_1
-- 
2.43.0


From 0e2204b80c9364b16a5a581742f528426f4a8c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 09/11] fix: out of bounds read in Hermite interpolation at nan

searchsorted returns the size of the grid for nan, which is past the end.
---
 interpolation/splines/hermite.py | 274 +++++++++++++++----------------
 1 file changed, 137 insertions(+), 137 deletions(-)

diff --git a/interpolation/splines/hermite.py b/interpolation/splines/hermite.py
index aadfab5..d17c973 100644
--- a/interpolation/splines/hermite.py
+++ b/interpolation/splines/hermite.py
@@ -1,137 +1,137 @@
-import numpy as np
-from numba import jit
-import numpy.typing as npt
-from typing import Tuple
-
-
-class Vector:
-    pass
-
-
-@jit(nopython=True)
-def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
-    """Computes the cubic Hermite splines in lambda0
-    Inputs: - float: lambda0
-    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
-    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
-    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
-    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
-    h11 = (lambda0**3) - (lambda0**2)
-    return (h00, h10, h01, h11)
-
-
-@jit(nopython=True)
-def hermite_interp(
-    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
-) -> float:
-    """Returns the interpolated value for x0.
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - float: xk, abscissa of the nearest lowest point to x0 on the grid
-            - float: xkn, abscissa of the nearest largest point to x0 on the grid
-            - float: pk, value associated to xk
-            - float: pkn, value associated to xkn
-            - float: mk, tangent in xk
-            - float: mkn, tangent in xkn
-    Output: - float: interpolated value for x0
-    """
-    t = (x0 - xk) / (xkn - xk)
-    hsplines = hermite_splines(t)
-    return (
-        pk * hsplines[0]
-        + mk * (xkn - xk) * hsplines[1]
-        + pkn * hsplines[2]
-        + mkn * (xkn - xk) * hsplines[3]
-    )
-
-
-@jit(nopython=True)
-def HermiteInterpolation(x0: float, x, y, yp):
-    """Returns the interpolated value for x0
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: yp, tangents of the x elements
-    Output: - float: interpolated value"""
-    ###### Extrapolation case ######
-    if x0 <= np.min(x):
-        return y[0]
-    elif x0 >= np.max(x):
-        return y[-1]
-
-    ###### Interpolation case ######
-    indx = np.searchsorted(x, x0)
-    xk, xkn = x[indx - 1], x[indx]
-    pk, pkn = y[indx - 1], y[indx]
-    mk, mkn = yp[indx - 1], yp[indx]
-    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
-
-
-@jit(nopython=True)
-def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
-    """Returns the interpolated value for all elements in xvect
-    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: tang, tangents of the x elements
-    Output: - np.ndarray: interpolated values"""
-    N = len(xvect)
-    out = np.zeros(N)
-    for i in range(N):
-        x0 = xvect[i]
-        out[i] = HermiteInterpolation(x0, x, y, yp)
-    return out
-
-
-from numba import njit, types
-from numba.extending import overload, register_jitable
-
-
-def _hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(_hermite)
-def _hermite(x0, x, y, yp, out=None):
-    def _hermite(x0, x, y, yp, out=None):
-        return HermiteInterpolation(x0, x, y, yp)
-
-    return _hermite
-
-
-from numba.core.types.misc import NoneType as none
-
-
-def hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(hermite)
-def ol_hermite(x0, x, y, yp, out=None):
-    try:
-        n = x0.ndim
-        if n == 1:
-            input_type = "vector"
-        elif n == 2:
-            input_type = "matrix"
-        else:
-            raise Exception("Invalid input type")
-    except:
-        # n must be a scalar
-        input_type = "scalar"
-
-    if input_type == "scalar":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolation(x0, x, y, yp)
-
-    elif input_type == "vector":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0, x, y, yp)
-
-    elif input_type == "matrix":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
-
-    return _hermite
+import numpy as np
+from numba import jit
+import numpy.typing as npt
+from typing import Tuple
+
+
+class Vector:
+    pass
+
+
+@jit(nopython=True)
+def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
+    """Computes the cubic Hermite splines in lambda0
+    Inputs: - float: lambda0
+    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
+    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
+    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
+    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
+    h11 = (lambda0**3) - (lambda0**2)
+    return (h00, h10, h01, h11)
+
+
+@jit(nopython=True)
+def hermite_interp(
+    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
+) -> float:
+    """Returns the interpolated value for x0.
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - float: xk, abscissa of the nearest lowest point to x0 on the grid
+            - float: xkn, abscissa of the nearest largest point to x0 on the grid
+            - float: pk, value associated to xk
+            - float: pkn, value associated to xkn
+            - float: mk, tangent in xk
+            - float: mkn, tangent in xkn
+    Output: - float: interpolated value for x0
+    """
+    t = (x0 - xk) / (xkn - xk)
+    hsplines = hermite_splines(t)
+    return (
+        pk * hsplines[0]
+        + mk * (xkn - xk) * hsplines[1]
+        + pkn * hsplines[2]
+        + mkn * (xkn - xk) * hsplines[3]
+    )
+
+
+@jit(nopython=True)
+def HermiteInterpolation(x0: float, x, y, yp):
+    """Returns the interpolated value for x0
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: yp, tangents of the x elements
+    Output: - float: interpolated value"""
+    ###### Extrapolation case ######
+    if x0 <= np.min(x):
+        return y[0]
+    elif x0 >= np.max(x):
+        return y[-1]
+
+    ###### Interpolation case ######
+    indx = min(np.searchsorted(x, x0), x.shape[0] - 1)  # stay in bounds if x0 is nan
+    xk, xkn = x[indx - 1], x[indx]
+    pk, pkn = y[indx - 1], y[indx]
+    mk, mkn = yp[indx - 1], yp[indx]
+    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
+
+
+@jit(nopython=True)
+def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
+    """Returns the interpolated value for all elements in xvect
+    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: tang, tangents of the x elements
+    Output: - np.ndarray: interpolated values"""
+    N = len(xvect)
+    out = np.zeros(N)
+    for i in range(N):
+        x0 = xvect[i]
+        out[i] = HermiteInterpolation(x0, x, y, yp)
+    return out
+
+
+from numba import njit, types
+from numba.extending import overload, register_jitable
+
+
+def _hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(_hermite)
+def _hermite(x0, x, y, yp, out=None):
+    def _hermite(x0, x, y, yp, out=None):
+        return HermiteInterpolation(x0, x, y, yp)
+
+    return _hermite
+
+
+from numba.core.types.misc import NoneType as none
+
+
+def hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(hermite)
+def ol_hermite(x0, x, y, yp, out=None):
+    try:
+        n = x0.ndim
+        if n == 1:
+            input_type = "vector"
+        elif n == 2:
+            input_type = "matrix"
+        else:
+            raise Exception("Invalid input type")
+    except:
+        # n must be a scalar
+        input_type = "scalar"
+
+    if input_type == "scalar":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolation(x0, x, y, yp)
+
+    elif input_type == "vector":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0, x, y, yp)
+
+    elif input_type == "matrix":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
+
+    return _hermite
-- 
2.43.0


From 135c5fd3f7bfce0a4e997b027873709c8d4bf167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 10/11] fix: cheby2n with n=0 returns the constant polynomial
 instead of raising IndexError

---
 interpolation/smolyak/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index f161239..edd4057 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -194,7 +194,8 @@ def cheby2n(x, n, kind=1.0):
     dim = x.shape
     results = np.zeros((n + 1,) + dim)
     results[0, ...] = np.ones(dim)
-    results[1, ...] = x * kind
+    if n > 0:
+        results[1, ...] = x * kind
     for i in range(2, n + 1):
         results[i, ...] = 2 * x * results[i - 1, ...] - results[i - 2, ...]
     return results
-- 
2.43.0


From a5d926c91c6f2d7b02cc3c6e59b234568fd08567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:30 +0000
Subject: [PATCH 11/11] fix: keep the original line endings of hermite.py
 (changed by accident in 0e2204b)

---
 interpolation/splines/hermite.py | 274 +++++++++++++++----------------
 1 file changed, 137 insertions(+), 137 deletions(-)

diff --git a/interpolation/splines/hermite.py b/interpolation/splines/hermite.py
index d17c973..f06cc97 100644
--- a/interpolation/splines/hermite.py
+++ b/interpolation/splines/hermite.py
@@ -1,137 +1,137 @@
-import numpy as np
-from numba import jit
-import numpy.typing as npt
-from typing import Tuple
-
-
-class Vector:
-    pass
-
-
-@jit(nopython=True)
-def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
-    """Computes the cubic Hermite splines in lambda0
-    Inputs: - float: lambda0
-    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
-    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
-    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
-    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
-    h11 = (lambda0**3) - (lambda0**2)
-    return (h00, h10, h01, h11)
-
-
-@jit(nopython=True)
-def hermite_interp(
-    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
-) -> float:
-    """Returns the interpolated value for x0.
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - float: xk, abscissa of the nearest lowest point to x0 on the grid
-            - float: xkn, abscissa of the nearest largest point to x0 on the grid
-            - float: pk, value associated to xk
-            - float: pkn, value associated to xkn
-            - float: mk, tangent in xk
-            - float: mkn, tangent in xkn
-    Output: - float: interpolated value for x0
-    """
-    t = (x0 - xk) / (xkn - xk)
-    hsplines = hermite_splines(t)
-    return (
-        pk * hsplines[0]
-        + mk * (xkn - xk) * hsplines[1]
-        + pkn * hsplines[2]
-        + mkn * (xkn - xk) * hsplines[3]
-    )
-
-
-@jit(nopython=True)
-def HermiteInterpolation(x0: float, x, y, yp):
-    """Returns the interpolated value for x0
-    Inputs: - float: x0, abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: yp, tangents of the x elements
-    Output: - float: interpolated value"""
-    ###### Extrapolation case ######
-    if x0 <= np.min(x):
-        return y[0]
-    elif x0 >= np.max(x):
-        return y[-1]
-
-    ###### Interpolation case ######
-    indx = min(np.searchsorted(x, x0), x.shape[0] - 1)  # stay in bounds if x0 is nan
-    xk, xkn = x[indx - 1], x[indx]
-    pk, pkn = y[indx - 1], y[indx]
-    mk, mkn = yp[indx - 1], yp[indx]
-    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
-
-
-@jit(nopython=True)
-def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
-    """Returns the interpolated value for all elements in xvect
-    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
-            - np.ndarray: x, x-axis grid
-            - np.ndarray: y, values of elements in x
-            - np.ndarray: tang, tangents of the x elements
-    Output: - np.ndarray: interpolated values"""
-    N = len(xvect)
-    out = np.zeros(N)
-    for i in range(N):
-        x0 = xvect[i]
-        out[i] = HermiteInterpolation(x0, x, y, yp)
-    return out
-
-
-from numba import njit, types
-from numba.extending import overload, register_jitable
-
-
-def _hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(_hermite)
-def _hermite(x0, x, y, yp, out=None):
-    def _hermite(x0, x, y, yp, out=None):
-        return HermiteInterpolation(x0, x, y, yp)
-
-    return _hermite
-
-
-from numba.core.types.misc import NoneType as none
-
-
-def hermite(x0, x, y, yp, out=None):
-    pass
-
-
-@overload(hermite)
-def ol_hermite(x0, x, y, yp, out=None):
-    try:
-        n = x0.ndim
-        if n == 1:
-            input_type = "vector"
-        elif n == 2:
-            input_type = "matrix"
-        else:
-            raise Exception("Invalid input type")
-    except:
-        # n must be a scalar
-        input_type = "scalar"
-
-    if input_type == "scalar":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolation(x0, x, y, yp)
-
-    elif input_type == "vector":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0, x, y, yp)
-
-    elif input_type == "matrix":
-
-        def _hermite(x0, x, y, yp, out=None):
-            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
-
-    return _hermite
+import numpy as np
+from numba import jit
+import numpy.typing as npt
+from typing import Tuple
+
+
+class Vector:
+    pass
+
+
+@jit(nopython=True)
+def hermite_splines(lambda0: float) -> Tuple[float, float, float, float]:
+    """Computes the cubic Hermite splines in lambda0
+    Inputs: - float: lambda0
+    Output: - tuple: cubic Hermite splines evaluated in lambda0"""
+    h00 = 2 * (lambda0**3) - 3 * (lambda0**2) + 1
+    h10 = (lambda0**3) - 2 * (lambda0**2) + lambda0
+    h01 = -2 * (lambda0**3) + 3 * (lambda0**2)
+    h11 = (lambda0**3) - (lambda0**2)
+    return (h00, h10, h01, h11)
+
+
+@jit(nopython=True)
+def hermite_interp(
+    x0: float, xk: float, xkn: float, pk: float, pkn: float, mk: float, mkn: float
+) -> float:
+    """Returns the interpolated value for x0.
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - float: xk, abscissa of the nearest lowest point to x0 on the grid
+            - float: xkn, abscissa of the nearest largest point to x0 on the grid
+            - float: pk, value associated to xk
+            - float: pkn, value associated to xkn
+            - float: mk, tangent in xk
+            - float: mkn, tangent in xkn
+    Output: - float: interpolated value for x0
+    """
+    t = (x0 - xk) / (xkn - xk)
+    hsplines = hermite_splines(t)
+    return (
+        pk * hsplines[0]
+        + mk * (xkn - xk) * hsplines[1]
+        + pkn * hsplines[2]
+        + mkn * (xkn - xk) * hsplines[3]
+    )
+
+
+@jit(nopython=True)
+def HermiteInterpolation(x0: float, x, y, yp):
+    """Returns the interpolated value for x0
+    Inputs: - float: x0, abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: yp, tangents of the x elements
+    Output: - float: interpolated value"""
+    ###### Extrapolation case ######
+    if x0 <= np.min(x):
+        return y[0]
+    elif x0 >= np.max(x):
+        return y[-1]
+
+    ###### Interpolation case ######
+    indx = min(np.searchsorted(x, x0), x.shape[0] - 1)  # stay in bounds if x0 is nan
+    xk, xkn = x[indx - 1], x[indx]
+    pk, pkn = y[indx - 1], y[indx]
+    mk, mkn = yp[indx - 1], yp[indx]
+    return hermite_interp(x0, xk, xkn, pk, pkn, mk, mkn)
+
+
+@jit(nopython=True)
+def HermiteInterpolationVect(xvect, x: Vector, y: Vector, yp: Vector):
+    """Returns the interpolated value for all elements in xvect
+    Inputs: - np.ndarray: xvect, vector of abscissa of the point to interpolate
+            - np.ndarray: x, x-axis grid
+            - np.ndarray: y, values of elements in x
+            - np.ndarray: tang, tangents of the x elements
+    Output: - np.ndarray: interpolated values"""
+    N = len(xvect)
+    out = np.zeros(N)
+    for i in range(N):
+        x0 = xvect[i]
+        out[i] = HermiteInterpolation(x0, x, y, yp)
+    return out
+
+
+from numba import njit, types
+from numba.extending import overload, register_jitable
+
+
+def _hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(_hermite)
+def _hermite(x0, x, y, yp, out=None):
+    def _hermite(x0, x, y, yp, out=None):
+        return HermiteInterpolation(x0, x, y, yp)
+
+    return _hermite
+
+
+from numba.core.types.misc import NoneType as none
+
+
+def hermite(x0, x, y, yp, out=None):
+    pass
+
+
+@overload(hermite)
+def ol_hermite(x0, x, y, yp, out=None):
+    try:
+        n = x0.ndim
+        if n == 1:
+            input_type = "vector"
+        elif n == 2:
+            input_type = "matrix"
+        else:
+            raise Exception("Invalid input type")
+    except:
+        # n must be a scalar
+        input_type = "scalar"
+
+    if input_type == "scalar":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolation(x0, x, y, yp)
+
+    elif input_type == "vector":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0, x, y, yp)
+
+    elif input_type == "matrix":
+
+        def _hermite(x0, x, y, yp, out=None):
+            return HermiteInterpolationVect(x0[:, 0], x, y, yp)
+
+    return _hermite
-- 
2.43.0

