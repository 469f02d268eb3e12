From f14fce3d4b432c7094d539b429a24d8ee564a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 01/20] fix: NameError in Grid.vorticity_divergence

---
 src/barotropic/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 315f60f..229d739 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -268,7 +268,7 @@ class Grid:
         Returns:
             Tuple of gridded (vorticity, divergence) fields.
         """
-        vort, div = vorticity_divergence_spectral(u, v)
+        vort, div = self.vorticity_divergence_spectral(u, v)
         return self.to_grid(vort), self.to_grid(div)
 
     def vorticity_divergence_spectral(self, u, v):
-- 
2.43.0


From 560780e6fa56ba732930c7c0007634ff2b84b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 02/20] fix: use scipy.signal.windows.hann (scipy.signal.hann
 was removed in scipy 1.13)

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 0e3e01c..f88d828 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -216,7 +216,7 @@ def filter_by_wavenumber(field, wavenumber):
             convs.append(np.zeros_like(field))
             continue
         # Obtain the normalized Hann window for the current width
-        hann = scipy.signal.hann(width)
+        hann = scipy.signal.windows.hann(width)
         hann = hann / np.sum(hann)
         # Apply window along the zonal axis
         convs.append(scipy.signal.convolve2d(field, hann[None,:], mode="same", boundary="wrap"))
-- 
2.43.0


From dbf6498d60ffc5b7762d5523bfa30a4fbdb05178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 03/20] fix: State.add_wind discarded the own wind when given a
 (u,v)-tuple

---
 src/barotropic/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 628d87c..90cd5b5 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -113,6 +113,8 @@ class State:
             u, v = other
             assert self.grid.shape == u.shape
             assert self.grid.shape == v.shape
+            u = self.u + u
+            v = self.v + v
         return State.from_wind(self.grid, self.time, u, v)
 
     def add_vorticity(self, other):
-- 
2.43.0


From cf3153c9c32490cae0ec0ea1fc04e334bf1b27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 04/20] fix: dominant_wavenumber_fourier returned wavenumbers
 relative to the lower limit of the range

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f88d828..f40f0da 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -116,7 +116,7 @@ def dominant_wavenumber_fourier(field, grid, smooth=("boxcar", 10), wavenumber_r
     # Compute Fourier power spectrum and determine wavenumber with maximum
     # power in the specified wavenumber range
     power = np.abs(np.fft.rfft(field, axis=_ZONAL)) ** 2
-    k_dom = np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
+    k_dom = k_min + np.argmax(power[:,k_min:k_max+1], axis=_ZONAL).astype(float)
     # Apply smoothing if desired
     return k_dom if smooth is None else grid.filter_meridional(k_dom, *smooth)
 
-- 
2.43.0


From 12f66725562508819fab4a38165f3267be7a1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 05/20] fix: Grid.equivalent_latitude failed for scalar input

---
 src/barotropic/grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 229d739..1552b20 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -591,8 +591,7 @@ class Grid:
         # Calculate argument of arcsin
         sine = 1. - 0.5 * area / np.pi / self.rsphere**2
         # Make sure argument of arcsin is in [-1, 1]
-        sine[sine >=  1] =  1
-        sine[sine <= -1] = -1
+        sine = np.clip(sine, -1., 1.)
         # Equivalent latitude in degrees
         return np.rad2deg(np.arcsin(sine))
 
-- 
2.43.0


From 1a971010a8afd75a22b4ae573daba2995eac4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 06/20] fix: BarotropicModel.run returned a plain list when
 tend precedes the initial state

---
 src/barotropic/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e480e8e..e2d0a96 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -71,7 +71,7 @@ class BarotropicModel:
 
         """
         if tend < state_init.time:
-            return state_init, [state_init]
+            return state_init, StateList([state_init])
         # First integration with Euler forward step (multistep leapfrog scheme
         # requires initialization)
         state = self.euler(state_init, dt)
-- 
2.43.0


From 96ee846946c572618e380d880f27cb6628f8a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 07/20] fix: save intervals of BarotropicModel.run are relative
 to the initial time

---
 src/barotropic/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/model.py b/src/barotropic/model.py
index e2d0a96..c0d5c0a 100644
--- a/src/barotropic/model.py
+++ b/src/barotropic/model.py
@@ -78,7 +78,8 @@ class BarotropicModel:
         state, state_new = state_init, state
         # Save model states during the integration
         states = [state]
-        t_save = save_every
+        if save_every > 0:
+            t_save = state_init.time + save_every
         # Integrate one step further than requested so Robert-Asselin filter is
         # applied to model state at the end
         while state.time < tend:
-- 
2.43.0


From db9492bb73c0f964a481f7000b39bb17bb86f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 08/20] fix: equal Grid objects must have equal hashes,
 comparison with other types must not fail

---
 src/barotropic/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 1552b20..fc31355 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -84,6 +84,8 @@ class Grid:
         return formatting.grid_repr(self)
 
     def __eq__(self, other):
+        if not isinstance(other, Grid):
+            return NotImplemented
         return (
             self.shape == other.shape
             and np.isclose(self.rsphere, other.rsphere)
@@ -92,7 +94,9 @@ class Grid:
         )
 
     def __hash__(self):
-        return hash((self.shape, self.rsphere, self.omega, self._ntrunc))
+        # rsphere and omega are compared with a tolerance in __eq__ and must not
+        # contribute to the hash, because equal objects require equal hashes
+        return hash((self.shape, self._ntrunc))
 
     @property
     def shape(self):
-- 
2.43.0


From fafd76c3d9c4d63a751a0b99c830192508960233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 09/20] fix: wind vectors of the summary plot ignored the
 center longitude

---
 src/barotropic/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/plot.py b/src/barotropic/plot.py
index 2957e88..0d4b076 100644
--- a/src/barotropic/plot.py
+++ b/src/barotropic/plot.py
@@ -177,7 +177,7 @@ def summary(state, figsize=(11, 7), hemisphere="both", center_lon=180, pv_cmap="
     fig.colorbar(pvc, ax=ax12)
     n_vectors = 13 if hemisphere == "both" else 21
     if not (np.linalg.norm(state.u) == 0. and np.linalg.norm(state.v) == 0.):
-        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, state.u, state.v, n_vectors))
+        ax12.quiver(*reduce_vectors(grid.lon2, grid.lat2, roll(state.u), roll(state.v), n_vectors))
     configure_lon_x(ax12)
     configure_lat_y(ax12, hemisphere)
     ax12.set_title("PV [$10^{-4} \\mathrm{s}^{-1}$] and wind vectors", loc="left")
-- 
2.43.0


From 2f550cb8b0663606438f41de30102e316506621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 10/20] fix: GaussianMountain was cut off at the periodic
 boundary in longitude

---
 src/barotropic/rhs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/rhs.py b/src/barotropic/rhs.py
index 1611490..e163c65 100644
--- a/src/barotropic/rhs.py
+++ b/src/barotropic/rhs.py
@@ -210,9 +210,11 @@ class GaussianMountain(Orography):
         self._stdev_lat_sq = stdev[1] ** 2
 
     def orography(self, grid):
+        # Zonal distance to the center must take the periodic boundary into account
+        dist_lon = (grid.lon2 - self._center_lon + 180.) % 360. - 180.
         return (self._height
                 # Decaying in zonal direction
-                * ( np.exp(-0.5 * (grid.lon2 - self._center_lon)**2 / self._stdev_lon_sq) )
+                * ( np.exp(-0.5 * dist_lon**2 / self._stdev_lon_sq) )
                 # Decaying in meridional direction
                 * ( np.exp(-0.5 * (grid.lat2 - self._center_lat)**2 / self._stdev_lat_sq) ))
 
-- 
2.43.0


From f7bb5f638b9fd9b202b64c927aab9793e47b33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 11/20] fix: from_dataset produced 0-dimensional arrays for
 numeric State times

---
 src/barotropic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 9188ad8..11dbdeb 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -341,6 +341,9 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
                 # timezone info for now
                 timestamp = (time - np.datetime64(0, "s")) / np.timedelta64(1, "s")
                 time = dt.datetime.fromtimestamp(timestamp, dt.timezone.utc).replace(tzinfo=None)
+            # Unpack other (e.g. numeric) values from 0-dimensional arrays
+            elif isinstance(time, np.ndarray):
+                time = time.item()
         # Create State and add to collection
         states.append(as_state(time, field))
 
-- 
2.43.0


From 1aeb57541d49b59d6602a1c8ac78e7baaefdc751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 12/20] fix: solve_poisson lost the global mean for non-zero
 op_add

---
 src/barotropic/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index fc31355..64b4201 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -384,6 +384,10 @@ class Grid:
         """:py:meth:`solve_poisson` with spectral in- and output fields."""
         solution = np.zeros_like(rhs_spec)
         solution[1:] = -rhs_spec[1:] / (self._laplacian_eigenvalues[1:] + op_add)
+        # The global mean is undetermined in the Poisson equation (set to 0)
+        # but not if there is an additional term
+        if op_add != 0.:
+            solution[0] = -rhs_spec[0] / op_add
         return solution
 
     def solve_diffusion(self, field_grid, coeff, dt, order=1):
-- 
2.43.0


From 8622710629ba20714b8d5c56dbf3e3c32d1b705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 13/20] fix: zonal Fourier filtering dropped a gridpoint for
 odd numbers of longitudes

---
 src/barotropic/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index f40f0da..56ede60 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -26,7 +26,7 @@ def _restrict_fourier_zonal(field, kmin, kmax):
     xfft = np.fft.rfft(field, axis=_ZONAL)
     xfft[:,      :kmin] = 0.
     xfft[:,kmax+1:    ] = 0.
-    return np.fft.irfft(xfft, axis=_ZONAL)
+    return np.fft.irfft(xfft, n=np.shape(field)[_ZONAL], axis=_ZONAL)
 
 
 def fawa(pv_or_state, grid=None, levels=None, interpolate=True, quad="sptrapz"):
-- 
2.43.0


From df91e177dbd03b1703d74180d55b8073ea496e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 14/20] fix: NaN as start of waveguides following a latitude of
 infinite imaginary stationary wavenumber

---
 src/barotropic/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/barotropic/diagnostics.py b/src/barotropic/diagnostics.py
index 56ede60..ee99cd8 100644
--- a/src/barotropic/diagnostics.py
+++ b/src/barotropic/diagnostics.py
@@ -352,7 +352,12 @@ def extract_ks_waveguides(ks_or_state, k, grid=None):
             active = False
         # Waveguide starts if ks exceeds k
         elif not active and ks_s > k:
-            start = lat_n if np.isinf(ks_s) else lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
+            if np.isinf(ks_s):
+                start = lat_n
+            elif np.isinf(ks_n):
+                start = lat_n + grid.dlat
+            else:
+                start = lat_n - grid.dlat * (ks_n - k) / (ks_s - ks_n)
             active = True
     # Last waveguide must end at south pole
     if active:
-- 
2.43.0


From d69f693bbe13eb08ef4237e5b76fcc10a55d159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 15/20] fix: infinite recursion when copying or unpickling a
 StateList

---
 src/barotropic/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/barotropic/state.py b/src/barotropic/state.py
index 90cd5b5..4e10f75 100644
--- a/src/barotropic/state.py
+++ b/src/barotropic/state.py
@@ -458,6 +458,10 @@ class StateList(collections.abc.Sequence):
     # Broadcasting
 
     def __getattr__(self, name):
+        # Do not broadcast special and private names. These are looked up e.g.
+        # during copying and unpickling, before the states are available.
+        if name.startswith("_"):
+            raise AttributeError(f"{type(self).__name__!r} object has no attribute {name!r}")
         # Need to separate simple attributes/properties and State methods:
         # Attribute access can be evaluated immediately. Method access is
         # converted to a partially evaluated function that collects the result
-- 
2.43.0


From 05c71e495366162dedbb2265c05eb2f27924f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 16/20] fix: Grid lost gridpoints when the division by
 resolution rounds down

---
 src/barotropic/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index 64b4201..a66365d 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -49,8 +49,8 @@ class Grid:
         # Setup longitude and latitude grid. Make sure longitude 0° is not
         # repeated and that both latitudes 90° and -90° exist. Latitudes start
         # at the North pole, which is the convention used by pyspharm.
-        self.nlon = int(360. / resolution)
-        self.nlat = int(180. / resolution) + 1
+        self.nlon = round(360. / resolution)
+        self.nlat = round(180. / resolution) + 1
         self.lon = np.linspace( 0., 360., self.nlon, endpoint=False)
         self.lat = np.linspace(90., -90., self.nlat, endpoint=True)
         self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
-- 
2.43.0


From 4b2044b56e2c7cead27ba1e20baa1021c876eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 17/20] fix: NaNs from single precision overflow in
 higher-order diffusion

---
 src/barotropic/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/grid.py b/src/barotropic/grid.py
index a66365d..c4b4c99 100755
--- a/src/barotropic/grid.py
+++ b/src/barotropic/grid.py
@@ -415,8 +415,11 @@ class Grid:
 
     def solve_diffusion_spectral(self, field_spectral, coeff, dt, order=1):
         """:py:meth:`solve_diffusion` with spectral in- and output fields."""
-        eigenvalues_op = self._laplacian_eigenvalues ** order
-        return field_spectral / (1. + dt * coeff * eigenvalues_op)
+        # Powers of the eigenvalues and the corresponding diffusion coefficients
+        # exceed the range of single precision numbers for higher orders
+        eigenvalues_op = self._laplacian_eigenvalues.astype(complex) ** order
+        damping = 1. / (1. + dt * coeff * eigenvalues_op)
+        return field_spectral * damping.astype(np.complex64)
 
     # Area-weighted operators
 
-- 
2.43.0


From 077bb867fdecdfdebf4596528573d0f15abffd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 18/20] fix: from_dataset accepted data on coordinates other
 than those of the Grid of the created states

---
 src/barotropic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index 11dbdeb..f6c24b2 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -269,6 +269,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     assert np.isclose(dlon, dlons).all(), "lon spacing is not regular"
     assert dlon > 0, "lon coordinate must be increasing (W to E)"
     assert np.isclose(lon[-1] - lon[0], 360. - dlon), "lon coordinate irregular at periodic boundary"
+    assert np.isclose(lon[0], 0.), "lon coordinate must start at 0°"
 
     # Verify latitude coordinate
     if var_map["lat"] is None:
@@ -281,6 +282,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     dlat = dlats[0]
     assert np.isclose(dlat, dlats).all(), "lat spacing is not regular"
     assert dlat < 0, "lat coordinate must be decreasing (N to S)"
+    assert np.isclose(lat[0], 90.) and np.isclose(lat[-1], -90.), "lat coordinate must include both poles"
     assert np.isclose(dlat, -dlon), "grid is not regular: lat spacing {dlat}, lon spacing {dlon}"
 
     # Instanciate Grid that matches dataset coordinates
-- 
2.43.0


From 4c07bfbab78e47828d1d72aa9e420944e2bdb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 19/20] fix: KeyError in from_dataset for wind with a dimension
 without coordinates

---
 src/barotropic/io.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/barotropic/io.py b/src/barotropic/io.py
index f6c24b2..05152fe 100644
--- a/src/barotropic/io.py
+++ b/src/barotropic/io.py
@@ -297,19 +297,19 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
         data = ds[var_map["u"]]
         # Two fields required to initialize: proceed with DataArray of u for
         # data, and select matching v field during construction of the State
-        def as_state(t, da):
+        def as_state(t, da, sel):
             u = da.values
-            # Select matching meridional wind field (dims_flatten assigned below)
-            v = ds[var_map["v"]].sel({ dim: da.coords[dim] for dim in dims_flatten }).values
+            # Select matching meridional wind field
+            v = ds[var_map["v"]].sel(sel).values
             return State.from_wind(grid, t, u, v)
     # States from relative vorticity
     elif var_map["vo"] is not None:
         data = ds[var_map["vo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State.from_vorticity(grid, t, da.values)
+        as_state = lambda t, da, _: State.from_vorticity(grid, t, da.values)
     # States from absolute vorticity
     elif var_map["avo"] is not None:
         data = ds[var_map["avo"]] # DataArray, no further selection necessary
-        as_state = lambda t, da: State(grid, t, pv=da.values)
+        as_state = lambda t, da, _: State(grid, t, pv=da.values)
     else:
         raise ValueError(
             "no fields for state construction detected, please specify"
@@ -330,7 +330,8 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
     # single field input with no flattened dimensions
     for selection in itertools.product(*dims_values):
         # Extract the current lon-lat field
-        field = data.sel(dict(zip(dims_flatten, selection)))
+        sel = dict(zip(dims_flatten, selection))
+        field = data.sel(sel)
         # Try to use time value from coordinates if possible, otherwise fall
         # back to fill value
         time = time_fill
@@ -347,7 +348,7 @@ def from_dataset(ds, names=None, grid_kwargs=None, time_fill=0):
             elif isinstance(time, np.ndarray):
                 time = time.item()
         # Create State and add to collection
-        states.append(as_state(time, field))
+        states.append(as_state(time, field, sel))
 
     return StateList(states)
 
-- 
2.43.0


From ee0fa346620573b109715ee383ca525da5ba4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 20/20] fix: IndexError in the representation of an empty
 GridRegion

---
 src/barotropic/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/barotropic/formatting.py b/src/barotropic/formatting.py
index 98ed87c..4d828c2 100644
--- a/src/barotropic/formatting.py
+++ b/src/barotropic/formatting.py
@@ -50,9 +50,12 @@ def grid_region_repr(region):
     out[4] += " EQ"
     out[8] += " 90°S"
     out.append("    0°E              180°E")
+    # No bounds exist in a dimension without selected gridpoints
+    bounds_lat = "{:6.2f} to {:6.2f} °N".format(*region.lat[[-1,0]]) if region.lat.size > 0 else "empty"
+    bounds_lon = "{:6.2f} to {:6.2f} °E".format(*region.lon[[0,-1]]) if region.lon.size > 0 else "empty"
     return "\n".join([
-        "Region {:6.2f} to {:6.2f} °N (nlat = {})".format(*region.lat[[-1,0]], region.shape[0]),
-        "       {:6.2f} to {:6.2f} °E (nlon = {})".format(*region.lon[[0,-1]], region.shape[1]),
+        "Region {} (nlat = {})".format(bounds_lat, region.shape[0]),
+        "       {} (nlon = {})".format(bounds_lon, region.shape[1]),
         "", *out, "",
         "of {}".format(repr(region._grid))
     ])
-- 
2.43.0

