From 84807ceedd5fe9eb2a0acd831477416ce89c072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 01/23] fix: interpolate fractional y indices towards the upper
 plane

Grid.getPoloidalGrid(j + f) returned the coordinate at j + (1 - f).
---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index ea384eb..86968cb 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -104,7 +104,7 @@ class Grid(object):
             _, yup = self.getPoloidalGrid(floor + 1)
             _, ydown = self.getPoloidalGrid(floor)
             fac = yindex - floor
-            return None, ydown + (yup - ydown) * (1 - fac)
+            return None, ydown + (yup - ydown) * fac
 
         if (yindex >= 0) and (yindex < ny):
             # Within index range, so just return
-- 
2.43.0


From 857267b2ca32d02f567f0b6abd65c4e50f6e5b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 02/23] fix: second derivatives of a rectangular poloidal grid
 are zero

getCoordinate(dx=2) returned the position and dx=dz=1 the first derivative.
---
 zoidberg/poloidal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 7a9fb19..95439c8 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -185,7 +185,7 @@ class RectangularPoloidalGrid(PoloidalGrid):
 
         shape = xind.shape
 
-        if dx + dz > 2:
+        if dx + dz > 1:
             # Second derivatives and mixed derivatives all zero
             return np.zeros(shape), np.zeros(shape)
 
-- 
2.43.0


From 12c53e04266846c79cc7e55ef8dd596f8a4449a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 03/23] fix: FieldTracerReversible must not modify its starting
 positions

The Newton updates were applied in place to the caller's arrays.
---
 zoidberg/fieldtracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index c59d134..b5c6b2f 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -242,8 +242,9 @@ class FieldTracerReversible(object):
         result = np.zeros((len(y_values),) + array_shape + (2,))
 
         # Starting position
-        x_pos = x_values
-        z_pos = z_values
+        # Copy, since the positions are updated in place below
+        x_pos = np.array(x_values, dtype=float)
+        z_pos = np.array(z_values, dtype=float)
         y_pos = y_values[0]
 
         result[0, ..., 0] = x_pos
-- 
2.43.0


From d098bef8563286f79e59d9793a73ce0621274a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 04/23] fix: trace_poincare must not sort the caller's y_slices
 in place

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index b5c6b2f..cfe767b 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -369,7 +369,7 @@ def trace_poincare(
                 )
             )
         # Make sure y_slices is monotonically increasing
-        y_slices.sort()
+        y_slices = np.sort(y_slices)
         # If y_slices is given, then nplot is the number of slices
         nplot = len(y_slices)
     else:
-- 
2.43.0


From 9098e1a2462537f30ec0f37f76d16ba409146769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 05/23] fix: get_metric must not modify the metric cached in
 the grid

A second call scaled g_yy by (B/By)**2 again.
---
 zoidberg/zoidberg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 7230f3a..5f56a5b 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -432,7 +432,8 @@ def update_metric_names(metric):
 def get_metric(grid, magnetic_field):
     nx, ny, nz = grid.shape
     # Get metric tensor
-    metric = grid.metric()
+    # Copy, so that the values cached in the grid are not modified below
+    metric = {k: np.array(v) for k, v in grid.metric().items()}
 
     # Check if the magnetic field is in cylindrical coordinates
     # If so, we need to change the gyy and g_yy metrics
-- 
2.43.0


From 18d7b17e7a321f9107f46cff9786c7d4021a4410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 06/23] fix: GEQDSK attributes belong to the instance

The class level dictionary is shared by every magnetic field.
---
 zoidberg/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index af68411..8791122 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1259,7 +1259,9 @@ class GEQDSK(MagneticField):
         self.psi_func = interpolate.RectBivariateSpline(self.r, self.z, self.psi)
 
         # Add to the attributes so that it can be written to file
-        self.attributes["psi"] = lambda x, z, phi: self.psi_func(x, z, grid=False)
+        self.attributes = {
+            "psi": lambda x, z, phi: self.psi_func(x, z, grid=False),
+        }
 
         # Create a normalised psi array
 
-- 
2.43.0


From f5cd4ce1974a87c82f84ce7a5d1295649430a8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 07/23] fix: use floor for the base Z index of the
 interpolation stencil

Truncation extrapolates for negative mapped Z indices.
---
 zoidberg/weights.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/weights.py b/zoidberg/weights.py
index 031a773..b5b451b 100644
--- a/zoidberg/weights.py
+++ b/zoidberg/weights.py
@@ -449,7 +449,7 @@ def accumulate_interior_stencil(
             continue
 
         x_base = int(mapped_x)
-        z_base = int(mapped_z)
+        z_base = int(np.floor(mapped_z))
 
         weights_x = catmull_rom_weights(mapped_x - x_base)
         weights_z = catmull_rom_weights(mapped_z - z_base)
-- 
2.43.0


From 4dfc73fa12561c5958d71742755a9f7b225e0fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 08/23] fix: pass the requested tolerance on to fusionsc

---
 zoidberg/fieldtracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index cfe767b..1c1daba 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -960,7 +960,7 @@ class FusionSCTracer(FieldTracer):
         Z = z_values
         direction = "ccw" if y_values[0] < y_values[1] else "cw"
         pnts = fsc.flt.poincareInPhiPlanes(
-            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **self.kwargs
+            [X, Y, Z], self.field, y_values[1:], 1, direction=direction, **kwargs
         )
         assert pnts.shape[-1] == 1
         pnts = pnts[..., 0]
-- 
2.43.0


From cc0abfb4b57a85965017a19594bd9de5e9166c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 09/23] fix: key of the tracing cache must identify the whole
 request

Arguments were hashed without a separator and keyword arguments such as
rtol were ignored, so different requests could share a cache file.
---
 zoidberg/fieldtracer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zoidberg/fieldtracer.py b/zoidberg/fieldtracer.py
index 1c1daba..a21d244 100644
--- a/zoidberg/fieldtracer.py
+++ b/zoidberg/fieldtracer.py
@@ -429,13 +429,19 @@ class CachingFieldTracer:
             if self.debug:
                 print(s)
             m.update(s)
+            m.update(b";")
         return m.hexdigest()
 
     def _guess_shape(self, x_values, y_values):
         return len(y_values), *x_values.shape, 2
 
     def follow_field_lines(self, x_values, z_values, y_values, **kwargs):
-        fn = self.cachename % self._myhash(x_values, z_values, y_values)
+        fn = self.cachename % self._myhash(
+            x_values,
+            z_values,
+            y_values,
+            *[(k, str(kwargs[k])) for k in sorted(kwargs) if kwargs[k] is not None],
+        )
         try:
             dat = np.loadtxt(fn)
             dat.shape = self._guess_shape(x_values, y_values)
-- 
2.43.0


From e7bc959a54f7778b5a28d6f83327b38ff142bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:18 +0000
Subject: [PATCH 10/23] fix: positionPolygon must interpolate linearly between
 points

The weight was an angle rather than a fraction of the segment, and
negative angles were truncated towards zero.
---
 zoidberg/rzline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/rzline.py b/zoidberg/rzline.py
index ba88c65..b8f739b 100644
--- a/zoidberg/rzline.py
+++ b/zoidberg/rzline.py
@@ -175,8 +175,9 @@ class RZline:
             return self.R, self.Z
         n = len(self.R)
         dtheta = 2.0 * np.pi / n
-        ind = np.trunc(theta / dtheta).astype(int) % n
-        rem = np.remainder(theta, dtheta)
+        pos = np.asarray(theta) / dtheta
+        ind = np.floor(pos).astype(int) % n
+        rem = pos - np.floor(pos)
         indp = (ind + 1) % n
         return (rem * self.R[indp] + (1.0 - rem) * self.R[ind]), (
             rem * self.Z[indp] + (1.0 - rem) * self.Z[ind]
-- 
2.43.0


From 963b578898a244d72165f5fd84fe40a575a3a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 11/23] fix: count polygon crossings at vertices once

Points in line with a vertex were toggled by both adjoining segments,
so that e.g. the centre of a diamond was reported as outside.
---
 zoidberg/boundary.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/zoidberg/boundary.py b/zoidberg/boundary.py
index 406e5e0..713aef7 100644
--- a/zoidberg/boundary.py
+++ b/zoidberg/boundary.py
@@ -123,17 +123,19 @@ class PolygonBoundaryXZ(object):
             zp_1 = self.zarr[ip]
 
             # First calculate b = (x_0 - x'_0) / (x'_1 - x'_0)
-            # but check for case where (x'_1 - x'_0) is small
-            if abs(xp_1 - xp_0) < 1e-6:
+            # but check for case where (x'_1 - x'_0) is zero
+            if xp_1 == xp_0:
                 continue  # Skip this segment
 
             b = (x_0 - xp_0) / (xp_1 - xp_0)
 
             a = (zp_0 - z_0 + b * (zp_1 - zp_0)) / (z_1 - z_0)
 
-            intersect = np.logical_and(
-                np.logical_and(b >= 0.0, b <= 1.0), np.logical_and(a >= 0.0, a <= 1.0)
-            )
+            # Each vertex belongs to only one of the two segments which meet
+            # there, so that crossings at vertices are not counted twice
+            crosses = (xp_0 <= x_0) != (xp_1 <= x_0)
+
+            intersect = np.logical_and(crosses, np.logical_and(a >= 0.0, a <= 1.0))
 
             # intersect is now true for those points which intersect this line segment
             outside = np.logical_xor(outside, intersect)
-- 
2.43.0


From 6f1ba129e76136b4aa58f656faf84eb9d05e853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 12/23] fix: do not write uninitialised memory to
 dagp_fv_volume

---
 zoidberg/stencil_dagp_fv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zoidberg/stencil_dagp_fv.py b/zoidberg/stencil_dagp_fv.py
index 908eef2..fc5d8f7 100755
--- a/zoidberg/stencil_dagp_fv.py
+++ b/zoidberg/stencil_dagp_fv.py
@@ -88,7 +88,8 @@ def doit(pols, plot=False, isSlab=False):
     #
     ### Go in a line around the cell
 
-    Ar = np.empty((pols[0].nx, len(pols), pols[0].nz))
+    # The volume is not calculated in the first and last cell in x
+    Ar = np.zeros((pols[0].nx, len(pols), pols[0].nz))
     todo = enumerate(pols)
     if tqdm and len(pols) > 1:
         todo = tqdm(todo, total=len(pols))
-- 
2.43.0


From 85209e8d981314010076bc6f4f8fb3fe5dcb80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:43 +0000
Subject: [PATCH 13/23] fix: fill the sub-sampled maps for every parallel slice

Only the last offset was filled, and the boundary was evaluated at the
y coordinate of the last offset rather than that of the slice.
---
 zoidberg/zoidberg.py | 108 +++++++++++++++++++++----------------------
 1 file changed, 54 insertions(+), 54 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 5f56a5b..d3ecdb8 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -221,8 +221,8 @@ def make_maps(
                 1:, ...
             ]
 
-            for parallel_slice, coord, pol_slice in zip(
-                parallel_slices, coords, pol_slices
+            for parallel_slice, coord, pol_slice, y_slice in zip(
+                parallel_slices, coords, pol_slices, y_slices[1:]
             ):
                 # Store the coordinates in real space
                 parallel_slice.R[:, j, :] = coord[:, :, 0]
@@ -247,59 +247,59 @@ def make_maps(
                 parallel_slice.xt_prime[:, j, :] = xind
                 parallel_slice.zt_prime[:, j, :] = zind
 
-            if nsamples == 1:
-                # Only one sample per cell
-                parallel_slice.xt_primes[:, j, :, 0] = xind
-                parallel_slice.zt_primes[:, j, :, 0] = zind
-            elif pol_slice is None:
-                # No slice grid, so hit a boundary
-                # Not calculating intersection R,Z so no need to follow
-                parallel_slice.xt_primes[:, j, :, :] = -1
-                parallel_slice.zt_primes[:, j, :, :] = -1
-            else:
-                # Multiple samples.
-                # Interpolate R and Z to get starting locations
-                from scipy import interpolate
-
-                R = pol.R
-                Z = pol.Z
-                nx, nz = pol.R.shape
-                # Wrap around in Z by adding the arrays
-                Rinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-                Zinterp = interpolate.RegularGridInterpolator(
-                    (np.arange(nx), np.arange(nz + 2) - 1),
-                    np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
-                    bounds_error=False,
-                    fill_value=None,  # Extrapolates
-                )
-
-                # Indices of the cell centers
-                xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
-
-                for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
-                    coord = field_tracer.follow_field_lines(
-                        Rinterp((xinds + xo, zinds)),
-                        Zinterp((xinds + zo, zinds)),
-                        [ycoord, y_slice],
-                        rtol=rtol,
-                    )[1, ...]
-                    xcoord = coord[:, :, 0]
-                    zcoord = coord[:, :, 1]
-                    xind, zind = pol_slice.findIndex(xcoord, zcoord)
-
-                    # Check boundary defined by the field
-                    # Note: A fraction of points may hit the boundary
-                    outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
-                    xind[outside] = -1
-                    zind[outside] = -1
+                if nsamples == 1:
+                    # Only one sample per cell
+                    parallel_slice.xt_primes[:, j, :, 0] = xind
+                    parallel_slice.zt_primes[:, j, :, 0] = zind
+                elif pol_slice is None:
+                    # No slice grid, so hit a boundary
+                    # Not calculating intersection R,Z so no need to follow
+                    parallel_slice.xt_primes[:, j, :, :] = -1
+                    parallel_slice.zt_primes[:, j, :, :] = -1
+                else:
+                    # Multiple samples.
+                    # Interpolate R and Z to get starting locations
+                    from scipy import interpolate
+
+                    R = pol.R
+                    Z = pol.Z
+                    nx, nz = pol.R.shape
+                    # Wrap around in Z by adding the arrays
+                    Rinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
+                    Zinterp = interpolate.RegularGridInterpolator(
+                        (np.arange(nx), np.arange(nz + 2) - 1),
+                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        bounds_error=False,
+                        fill_value=None,  # Extrapolates
+                    )
 
-                    parallel_slice.xt_primes[:, j, :, s] = xind
-                    parallel_slice.zt_primes[:, j, :, s] = zind
+                    # Indices of the cell centers
+                    xinds, zinds = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
+
+                    for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
+                        coord = field_tracer.follow_field_lines(
+                            Rinterp((xinds + xo, zinds)),
+                            Zinterp((xinds + zo, zinds)),
+                            [ycoord, y_slice],
+                            rtol=rtol,
+                        )[1, ...]
+                        xcoord = coord[:, :, 0]
+                        zcoord = coord[:, :, 1]
+                        xind, zind = pol_slice.findIndex(xcoord, zcoord)
+
+                        # Check boundary defined by the field
+                        # Note: A fraction of points may hit the boundary
+                        outside = magnetic_field.boundary.outside(xcoord, y_slice, zcoord)
+                        xind[outside] = -1
+                        zind[outside] = -1
+
+                        parallel_slice.xt_primes[:, j, :, s] = xind
+                        parallel_slice.zt_primes[:, j, :, s] = zind
 
             if (not quiet) and (ny > 1):
                 if tqdm:
-- 
2.43.0


From 6f5a138ed197be422a963ff1c56b3d300bb1bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:14 +0000
Subject: [PATCH 14/23] fix: start sub-sampled field lines at their quadrature
 points

R was offset only in x, and Z was offset in x by the z offset.
---
 zoidberg/zoidberg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index d3ecdb8..87bd16b 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -283,8 +283,8 @@ def make_maps(
 
                     for s, xo, zo, w in zip(range(nsamples), xoffsets, zoffsets, weights):
                         coord = field_tracer.follow_field_lines(
-                            Rinterp((xinds + xo, zinds)),
-                            Zinterp((xinds + zo, zinds)),
+                            Rinterp((xinds + xo, zinds + zo)),
+                            Zinterp((xinds + xo, zinds + zo)),
                             [ycoord, y_slice],
                             rtol=rtol,
                         )[1, ...]
-- 
2.43.0


From 3a569d3c3eaafd063b04314ef33e6a996bf85a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:14 +0000
Subject: [PATCH 15/23] fix: extend poloidal grids consistently when
 sub-sampling

Rectangular grids do not wrap around in Z, so samples in the first and
last cell started in the middle of the domain.
---
 zoidberg/zoidberg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 87bd16b..14a2da8 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -264,16 +264,18 @@ def make_maps(
                     R = pol.R
                     Z = pol.Z
                     nx, nz = pol.R.shape
-                    # Wrap around in Z by adding the arrays
+                    # Extend in Z, wrapping around if the poloidal grid does
+                    Rlo, Zlo = pol.getCoordinate(np.arange(nx), np.full(nx, -1))
+                    Rhi, Zhi = pol.getCoordinate(np.arange(nx), np.full(nx, nz))
                     Rinterp = interpolate.RegularGridInterpolator(
                         (np.arange(nx), np.arange(nz + 2) - 1),
-                        np.concatenate((R[:, -1:], R, R[:, 0:1]), axis=-1),
+                        np.concatenate((Rlo[:, None], R, Rhi[:, None]), axis=-1),
                         bounds_error=False,
                         fill_value=None,  # Extrapolates
                     )
                     Zinterp = interpolate.RegularGridInterpolator(
                         (np.arange(nx), np.arange(nz + 2) - 1),
-                        np.concatenate((Z[:, -1:], Z, Z[:, 0:1]), axis=-1),
+                        np.concatenate((Zlo[:, None], Z, Zhi[:, None]), axis=-1),
                         bounds_error=False,
                         fill_value=None,  # Extrapolates
                     )
-- 
2.43.0


From 3fa2c787787a53e0a4a8c0415d6b3abfcaf4ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:14 +0000
Subject: [PATCH 16/23] fix: take the gradient of y before selecting the middle
 copy

The array is repeated to avoid edge effects, but only the middle copy was
passed to np.gradient.
---
 zoidberg/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/grid.py b/zoidberg/grid.py
index 86968cb..3f7b8ae 100644
--- a/zoidberg/grid.py
+++ b/zoidberg/grid.py
@@ -190,7 +190,7 @@ class Grid(object):
         if ny == 1:
             dy = np.array([self.Ly])
         else:
-            dy = np.gradient(ycoords[ny : (2 * ny)])
+            dy = np.gradient(ycoords)[ny : (2 * ny)]
 
         dy3d = np.zeros(self.shape)
         dy3d[...] = dy[None, :, None]
-- 
2.43.0


From c1bbb7523b26d4d78782b1a8dc11f5c1eca8a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 17/23] fix: warnings.warning does not exist

---
 zoidberg/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 8ab3afd..65192a9 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -54,7 +54,7 @@ def plot_poincare(
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     # Get Poincare plot
@@ -164,7 +164,7 @@ def plot_3d_field_line(magnetic_field, xpos, zpos, yperiod, cycles=20, y_res=50)
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     yperiod = float(yperiod)
@@ -223,7 +223,7 @@ def plot_streamlines(grid, magnetic_field, y_slice=0, width=None, **kwargs):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     fig, ax = plt.subplots(1, 1)
@@ -321,7 +321,7 @@ def plot_forward_map(grid, maps, yslice=0):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     nx, ny, nz = grid.shape
@@ -392,7 +392,7 @@ def plot_backward_map(grid, maps, yslice=0):
     """
 
     if not plotting_available:
-        warnings.warning("matplotlib not available, unable to plot")
+        warnings.warn("matplotlib not available, unable to plot")
         return
 
     nx, ny, nz = grid.shape
-- 
2.43.0


From b4f1cff87376418de735491b870e8cc5c5c05968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 18/23] fix: repeat colours an integer number of times in
 plot_poincare

---
 zoidberg/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 65192a9..08d7284 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -75,7 +75,7 @@ def plot_poincare(
 
     colours = ["k", "b", "r", "g", "c", "m"]
     if nplot > len(colours):
-        colours += colours * np.floor(nplot / len(colours))
+        colours += colours * (nplot // len(colours))
 
     fig, ax = plt.subplots(1, 1)
 
-- 
2.43.0


From 4f319352f0e084b80d4013a092d7d78c3a8f9adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 19/23] fix: matplotlib.pyplot was not bound when smoothing
 failed or in plots

---
 zoidberg/smooth.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zoidberg/smooth.py b/zoidberg/smooth.py
index 4ee0dc1..9596f20 100644
--- a/zoidberg/smooth.py
+++ b/zoidberg/smooth.py
@@ -256,6 +256,7 @@ def gen_newr(r, z, splitedlist, bounds, plot):
             newr[start_index : start_index + len(alist)] = X
             newz[start_index : start_index + len(alist)] = Y
         if plot:
+            import matplotlib.pyplot as plt
             from matplotlib.collections import LineCollection
 
             S = np.linspace(0, 1, 1000)
@@ -333,9 +334,10 @@ def smooth(r, z, cutoff=0.75, bounds=10, bounds_find=None, plot=False):
         bounds += 1
         debs += [deb[-1]]
         if bounds > bounds0 * 5:
-            plt.legend()
-            plt.gca().set_aspect("equal")
-            plt.title("failed")
+            if plot:
+                plt.legend()
+                plt.gca().set_aspect("equal")
+                plt.title("failed")
             alldeb.append(debs)
             return
 
-- 
2.43.0


From d295bd6dff484ce9f4ea2cee59e2adfec4f9c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 20/23] fix: names used by upscale

update_progress was unbound if tqdm is installed, and the namespace
scipy.ndimage.interpolation has been removed.
---
 zoidberg/zoidberg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index 14a2da8..fb1f44f 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -13,11 +13,12 @@ from .field import Slab
 from .grid import Grid
 from .poloidal_grid import StructuredPoloidalGrid
 
+from .progress import update_progress
+
 try:
     from tqdm.auto import tqdm
 except ModuleNotFoundError:
     tqdm = None
-    from .progress import update_progress
 
 # PyEVTK might be called pyevtk or evtk, depending on where it was
 # installed from
@@ -964,7 +965,7 @@ def upscale(field, maps, upscale_factor=4, quiet=True):
     """
 
     from scipy.interpolate import griddata
-    from scipy.ndimage.interpolation import map_coordinates
+    from scipy.ndimage import map_coordinates
 
     xt_prime = maps["forward_xt_prime"]
     zt_prime = maps["forward_zt_prime"]
-- 
2.43.0


From 95d62bf44b96f853669fef948a41602544bd588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 21/23] fix: default height range of the W7-X fields is +-1.35
 m

---
 zoidberg/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 8791122..57d02c1 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1338,7 +1338,7 @@ class W7X_vacuum(MagneticField):
         ny=32,
         nz=128,
         x_range=(4.05, 6.55),
-        z_range=(-1.35, 1, 35),
+        z_range=(-1.35, 1.35),
         phimax=2.0 * np.pi,
         configuration=0,
         plot_poincare=False,
@@ -1821,7 +1821,7 @@ class W7X_VMEC(MagneticField):
         ny=32,
         nz=512,
         x_range=[4.05, 6.55],
-        z_range=[-1.35, 1, 35],
+        z_range=[-1.35, 1.35],
         phi_range=[0, 2 * np.pi],
         vmec_id="w7x_ref_171",
     ):
-- 
2.43.0


From f7a5cfa06c2073a071b13cc37cffe382526a52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:19 +0000
Subject: [PATCH 22/23] fix: W7X_VMEC used grid sizes which were never set

---
 zoidberg/field.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zoidberg/field.py b/zoidberg/field.py
index 57d02c1..121a6c0 100644
--- a/zoidberg/field.py
+++ b/zoidberg/field.py
@@ -1865,19 +1865,19 @@ class W7X_VMEC(MagneticField):
 
         # x in Cartesian (real-space)
         pos.x1 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.cos(phi)
+            np.ones(r.shape) * r * np.cos(phi)
         )
         # y in Cartesian (real-space)
         pos.x2 = np.ndarray.flatten(
-            np.ones((self.nx, self.ny, self.nz)) * r * np.sin(phi)
+            np.ones(r.shape) * r * np.sin(phi)
         )
         pos.x3 = np.ndarray.flatten(z)  # z in Cartesian (real-space)
         b = vmec.service.magneticField(str(vmec_id), pos)
 
         ## Reshape to 3d array
-        Bx = np.ndarray.reshape(np.asarray(b.field.x1), (self.nx, self.ny, self.nz))
-        By = np.ndarray.reshape(np.asarray(b.field.x2), (self.nx, self.ny, self.nz))
-        Bz = np.ndarray.reshape(np.asarray(b.field.x3), (self.nx, self.ny, self.nz))
+        Bx = np.ndarray.reshape(np.asarray(b.field.x1), r.shape)
+        By = np.ndarray.reshape(np.asarray(b.field.x2), r.shape)
+        Bz = np.ndarray.reshape(np.asarray(b.field.x3), r.shape)
 
         ## Convert to cylindrical coordinates
         Br = Bx * np.cos(phi) + By * np.sin(phi)
-- 
2.43.0


From cf87077de96ce8691ed373304de39504814bd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:35 +0000
Subject: [PATCH 23/23] fix: do not use missing optional dependencies

AnimateVectorField, the failure report of grid_elliptic and
write_Bfield_to_vtk ended in a NameError when matplotlib or evtk is not
installed.
---
 zoidberg/plot.py          |  3 +++
 zoidberg/poloidal_grid.py | 15 ++++++++-------
 zoidberg/zoidberg.py      |  3 +++
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/zoidberg/plot.py b/zoidberg/plot.py
index 08d7284..19c06ed 100644
--- a/zoidberg/plot.py
+++ b/zoidberg/plot.py
@@ -277,6 +277,9 @@ class AnimateVectorField(object):
     """
 
     def __init__(self, X, Y, U, V):
+        if not plotting_available:
+            raise ImportError("matplotlib not available, unable to plot")
+
         self.X = X
         self.Y = Y
         self.U = U
diff --git a/zoidberg/poloidal_grid.py b/zoidberg/poloidal_grid.py
index 95439c8..d7b4d8f 100644
--- a/zoidberg/poloidal_grid.py
+++ b/zoidberg/poloidal_grid.py
@@ -805,13 +805,14 @@ def grid_elliptic(
                 print(f"Required {extra} extra steps in smoothing!")
 
         if not np.all(dx(x, -1) > 0):
-            plt.plot(x, label="result")
-            plt.plot(x0, label="init")
-            plt.plot(dx(x0, -1))
-            plt.plot(dx(x, -1))
-            plt.legend()
-            plt.title("Not monotonic!")
-            plt.show()
+            if plotting_available:
+                plt.plot(x, label="result")
+                plt.plot(x0, label="init")
+                plt.plot(dx(x0, -1))
+                plt.plot(dx(x, -1))
+                plt.legend()
+                plt.title("Not monotonic!")
+                plt.show()
             assert False
         return x
 
diff --git a/zoidberg/zoidberg.py b/zoidberg/zoidberg.py
index fb1f44f..6a15ae1 100644
--- a/zoidberg/zoidberg.py
+++ b/zoidberg/zoidberg.py
@@ -825,6 +825,9 @@ def write_Bfield_to_vtk(
     path           - Full path to vtkfile
     """
 
+    if not have_evtk:
+        return
+
     point_data = {
         "B": (magnetic_field.bx * scale, magnetic_field.by, magnetic_field.bz * scale)
     }
-- 
2.43.0

