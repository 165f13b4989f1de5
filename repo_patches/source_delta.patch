From 703779ab32614b9536e7b3080b9a2b15fafcfb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 001/141] fix: brightness-temperature light cone ignored
 los_axis

The slice redshifts were always broadcast along the last axis.
---
 src/tools21cm/temperature.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 815c4ae..182cc79 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -146,7 +146,7 @@ def calc_dt_lightcone(xfrac, dens, lowest_z, los_axis = 2):
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_axis(cosmo.cdist_to_z(cdist), los_axis)
 	return _dt(dens, xfrac, z)
 
 def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=True):
@@ -212,6 +212,12 @@ def mean_dt(z):
 	return Cdt
 	
 
+def _along_axis(values, axis, ndim=3):
+	# Shape a 1D array such that it is broadcast along the given axis
+	shape = [1]*ndim
+	shape[axis] = -1
+	return values.reshape(shape)
+
 def _dt(rho, xi, z):
 		
 	rho_mean = const.rho_crit_0*const.OmegaB if rho.min()>=0 else 1
-- 
2.43.0


From e0f2b04dd2b4a038a28a10228086ed3c5f6bebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 002/141] fix: calc_dt_full_lightcone used the mean redshift
 for every slice

---
 src/tools21cm/temperature.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 182cc79..79cdf5e 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -189,7 +189,7 @@ def calc_dt_full_lightcone(xfrac, temp, dens, lowest_z, los_axis = 2, correct=Tr
 	cell_size = conv.LB/xfrac.shape[(los_axis+1)%3]
 	cdist_low = cosmo.z_to_cdist(lowest_z)
 	cdist = np.arange(xfrac.shape[los_axis])*cell_size + cdist_low
-	z = cosmo.cdist_to_z(cdist)
+	z = _along_axis(cosmo.cdist_to_z(cdist), los_axis)
 	print("Redshift: ", str(z))
 	return _dt_full(dens, xfrac,temp, z, correct)
 
@@ -228,8 +228,7 @@ def _dt(rho, xi, z):
 	return dt
 
 def _dt_full(rho, xi, Ts, z, correct):
-        z = np.mean(z)
-        print("Redshift:" , str(z))
+        print("Redshift:" , str(np.mean(z)))
         rho_mean = const.rho_crit_0*const.OmegaB
         Tcmb 	 = const.Tcmb0*(1+z) 
         Cdt      = mean_dt(z)
@@ -256,7 +255,7 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
                 Ts_new = (Ts-xi*T_HII)/(1.-xi)
-                Ts_new[Ts_new < T_min] = T_min
+                Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
                 Ts_new=Ts
-- 
2.43.0


From f8d38c365a67877999ea7a2d934c73d3f476ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 003/141] fix: calc_dt_full gave NaN in fully ionized cells
 hotter than 20000 K

---
 src/tools21cm/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/temperature.py b/src/tools21cm/temperature.py
index 79cdf5e..1b96fdf 100755
--- a/src/tools21cm/temperature.py
+++ b/src/tools21cm/temperature.py
@@ -254,7 +254,9 @@ def _dt_full(rho, xi, Ts, z, correct):
                 # assuming that the ionized part of the cell is fully ionized
                 # (so a fraction xi of the cell's volume is ionized) and that
                 # the temperature of the ionized part is T_HII
-                Ts_new = (Ts-xi*T_HII)/(1.-xi)
+                # (fully ionized cells contain no neutral gas to correct for)
+                neutral = np.where(xi < 1., 1.-xi, 1.)
+                Ts_new = np.where(xi < 1., (Ts-xi*T_HII)/neutral, Ts)
                 Ts_new = np.maximum(Ts_new, T_min)
                 if np.any(Ts_new < 0): print("WARNING: negative temperatures")
         else:
-- 
2.43.0


From 1d1e732e86ac7f8bdbb2a7d404be421fe3a6ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 004/141] fix: make_lightcone used the wrong low-redshift
 snapshot when a slice skipped a snapshot interval

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 4ad32fa..c821649 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -129,7 +129,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
             file_idx = np.argmin(np.abs(file_redshifts - z_bracket_low))
-            if data_high is None:
+            if z_bracket_low != z_bracket_high:
                 if reading_function is None: data_low, datatype = get_data_and_type(filenames[file_idx], cbin_bits, cbin_order, raw_density)
                 else: data_low = reading_function(filenames[file_idx])#; print('yes')
             else: #No need to read the file again
-- 
2.43.0


From 20cf3cf665253ab8d255a9aed73714b20e044294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 005/141] fix: making a light cone crashed if a slice lies at
 the highest snapshot redshift

---
 src/tools21cm/lightcone.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index c821649..bcc38d0 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -122,8 +122,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_z_bracket(file_redshifts, z)
         
         #Do we need a new file for the low z?
         if z_bracket_low_new != z_bracket_low:
@@ -241,8 +240,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
     time.sleep(1)
     for ii in tqdm(range(len(output_z))):
         z = output_z[ii]
-        z_bracket_low_new = file_redshifts[file_redshifts <= z].max()
-        z_bracket_high_new = file_redshifts[file_redshifts > z].min()
+        z_bracket_low_new, z_bracket_high_new = _get_z_bracket(file_redshifts, z)
         
         if z_bracket_low_new != z_bracket_low:
             z_bracket_low = z_bracket_low_new
@@ -428,6 +426,17 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     return subbox, box_dims, redshifts[low_n:high_n]
 
 
+def _get_z_bracket(file_redshifts, z):
+    '''
+    Redshifts of the two coeval cubes to interpolate between. For internal use.
+    '''
+    if (file_redshifts > z).any():
+        return file_redshifts[file_redshifts <= z].max(), file_redshifts[file_redshifts > z].min()
+    #z is the highest file redshift
+    z_high = file_redshifts[file_redshifts <= z].max()
+    return file_redshifts[file_redshifts < z_high].max(), z_high
+
+
 def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
                       comoving_pos_idx, los_axis, interpolation='linear'):
     '''
-- 
2.43.0


From 25717a70c3c23bf47d677214590aacc64e87a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 006/141] fix: step interpolation of light cones never used the
 low-redshift snapshot

---
 src/tools21cm/lightcone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index bcc38d0..a33cd6a 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -449,7 +449,7 @@ def _get_interp_slice(data_high, data_low, z_bracket_high, z_bracket_low, z, \
         slice_interp = ((z-z_bracket_low)*slice_high + \
                     (z_bracket_high - z)*slice_low)/(z_bracket_high-z_bracket_low)
     elif interpolation == 'step':
-        transition_z = (z_bracket_high-z_bracket_low)/2.
+        transition_z = (z_bracket_high+z_bracket_low)/2.
         if z < transition_z:
             slice_interp = slice_low.copy()
         else:
-- 
2.43.0


From 0d9dd4360f99c8131f3221c54bebae66be074889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 007/141] fix: make_lightcone crashed for snapshot redshifts
 given as a list

---
 src/tools21cm/lightcone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index a33cd6a..a7f08c0 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -105,6 +105,7 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         assert file_redshifts is not None
         mesh_size = reading_function(filenames[0]).shape
 
+    file_redshifts = np.asarray(file_redshifts)
     assert len(file_redshifts) == len(filenames)
     
     output_z = _get_output_z(file_redshifts, z_low, z_high, mesh_size[0], box_length_mpc=box_length_mpc, dnu=depth_mhz)
@@ -226,6 +227,7 @@ def make_velocity_lightcone(vel_filenames, dens_filenames, z_low = None, \
         get_kms = lambda vel_file, dfile: vel_file.get_kms_from_density(dfile)
 
 
+    file_redshifts = np.asarray(file_redshifts)
     assert(len(file_redshifts) == len(vel_filenames))
     assert(len(vel_filenames) == len(dens_filenames))
     
-- 
2.43.0


From 027acadaa4072e959f92c7bf734593cbf841cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:01 +0000
Subject: [PATCH 008/141] fix: get_lightcone_subvolume crashed while printing
 the range of a subvolume at the end of the light cone

---
 src/tools21cm/lightcone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index a7f08c0..6567a72 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -381,7 +381,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
         with the dimensions of the subvolume in Mpc
     '''
     
-    assert len(np.nonzero([depth_mhz, depth_mpc])) == 1
+    assert (depth_mhz is None) != (depth_mpc is None)
     
     if fov_Mpc is None:
         fov_Mpc = conv.LB
@@ -419,7 +419,7 @@ def get_lightcone_subvolume(lightcone, redshifts, central_z, \
     box_depth = max_cdist-min_cdist
     box_dims = (fov_Mpc, fov_Mpc, box_depth)
     if(verbose): 
-        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[high_n]))
+        print('Slice redshift: %.3f %.3f' %(redshifts[low_n], redshifts[min(high_n, len(redshifts)-1)]))
         print('Slice frequencies (MHz): %.1f %.1f' %(min_freq, max_freq))
         print('Slice comoving distances (cMpc): %.2f %.2f' %(min_cdist, max_cdist))
         print('Slice indices:', low_n, high_n)
-- 
2.43.0


From ca42d26863d8b01b4e2c6ec38a5bf1e69c87fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 009/141] fix: step_cell interpolation crashed for slices that
 do not change between snapshots

---
 src/tools21cm/lightcone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 6567a72..365e446 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -491,6 +491,8 @@ def _get_step_weighted_slice(slice_low, slice_high, z_bracket_high, z_bracket_lo
 def _get_step_transitions(cell_dist, diff_idx):
     #Replace each value in cell_dist with the number of cells 
     #with a lower value. Then normalize to be between 0 and 1
+    if np.count_nonzero(diff_idx) < 2: #Nothing to rank
+        return np.zeros(cell_dist.shape)
     values_flat = cell_dist[diff_idx].flatten()
     values_sorted = sorted(values_flat+np.random.random(len(values_flat))*1.e-9)
     values_uniform = np.linspace(values_sorted[0], values_sorted[-1], len(values_sorted))
-- 
2.43.0


From 2d6559a96bcbcf1deb08fcfe88b26f09ac708d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 010/141] fix: power spectra crashed for box dimensions given
 as a numpy array

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 2faaa86..ce7fa22 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -527,7 +527,7 @@ def _get_dims(box_dims, ashape):
         size
         Otherwise, return as it is
         '''
-        if box_dims == None:
+        if box_dims is None:
                 return [conv.LB]*len(ashape)
         if not hasattr(box_dims, '__iter__'):
                 return [box_dims]*len(ashape)
-- 
2.43.0


From b2702c33be89b60443d909ee468b2cc2d2a3e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 011/141] fix: radial_average crashed for scalar box dimensions

---
 src/tools21cm/power_spectrum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index ce7fa22..5e4cb46 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -118,6 +118,7 @@ def radial_average(input_array, box_dims, kbins=10, binning='log', breakpoint=0.
         '''
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
+        box_dims = _get_dims(box_dims, input_array.shape)
         k_comp, k = _get_k(input_array, box_dims)
         kbins = _get_kbins(kbins, box_dims, k, binning=binning, breakpoint=breakpoint)
         
-- 
2.43.0


From 72989380cafeeead2456e7a4c54942a5ae3f08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 012/141] fix: wavenumbers of 1D and 2D power spectra were half
 a mode off for even grids

---
 src/tools21cm/power_spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 5e4cb46..01f540a 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -456,12 +456,13 @@ def _get_k(input_array, box_dims):
     dim = len(input_array.shape)
     if dim == 1:
         x = np.arange(len(input_array))
-        center = x.max()/2.
+        center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
         return [kx], kx
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
-        center = np.array([(x.max()-x.min())/2, (y.max()-y.min())/2])
+        nx,ny = input_array.shape
+        center = np.array([nx//2, ny//2])
         kx = 2.*np.pi * (x-center[0])/box_dims[0]
         ky = 2.*np.pi * (y-center[1])/box_dims[1]
         k = np.sqrt(kx**2 + ky**2)
-- 
2.43.0


From ff96937f8da4dbeb90196017885c267cc43f802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 013/141] fix: k_perp=0 modes were not excluded for odd grids

---
 src/tools21cm/power_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 01f540a..e044be3 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -568,11 +568,11 @@ def _get_nonzero_idx(ps_shape, los_axis):
         '''
         x,y,z = np.indices(ps_shape)
         if los_axis == 0:
-                zero_idx = (y == ps_shape[1]/2)*(z == ps_shape[2]/2)
+                zero_idx = (y == ps_shape[1]//2)*(z == ps_shape[2]//2)
         elif los_axis == 1:
-                zero_idx = (x == ps_shape[0]/2)*(z == ps_shape[2]/2)
+                zero_idx = (x == ps_shape[0]//2)*(z == ps_shape[2]//2)
         else:
-                zero_idx = (x == ps_shape[0]/2)*(y == ps_shape[1]/2)
+                zero_idx = (x == ps_shape[0]//2)*(y == ps_shape[1]//2)
         good_idx = np.invert(zero_idx)
         return good_idx
 
-- 
2.43.0


From 60906a51481fa74c644a95defe328fb8b13248e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 014/141] fix: power_spectrum_mu crashed when weights were
 given

---
 src/tools21cm/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index e044be3..a7fad6c 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -384,7 +384,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         This function is for internal use only.
         '''
         
-        if weights != None:
+        if weights is not None:
                 powerspectrum *= weights
 
         assert(len(powerspectrum.shape)==3)
@@ -430,7 +430,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
                         idx = (mu >= mu_min) & (mu < mu_max) & kidx.astype(bool)
                         outdata[i,ki] = np.mean(powerspectrum[idx])
                         n_modes[i,ki] = np.size(powerspectrum[idx])
-                        if weights != None:
+                        if weights is not None:
                                 outdata[i,ki] /= weights[idx].mean()
 
         return outdata, mubins[:-1]+dmu, kbins[:-1]+dk, n_modes
-- 
2.43.0


From 27edf345d93d12aa141159f6b13be4c4261fe36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 015/141] fix: power spectra crashed for bin edges given as a
 list

---
 src/tools21cm/power_spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index a7fad6c..b436a8f 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -408,6 +408,7 @@ def mu_binning(powerspectrum, los_axis = 0, mubins=20, kbins=10, box_dims=None,
         min_mu=0.0 if absolute_mus else -1.0
         if isinstance(mubins,int):
                 mubins = np.linspace(min_mu, 1.0 , mubins+1)
+        mubins = np.asarray(mubins)
         dmu = (mubins[1:]-mubins[:-1])/2.
         n_mubins = len(mubins)-1
 
@@ -518,7 +519,7 @@ def _get_kbins(kbins, box_dims, k, binning='log', breakpoint=0.1, kmin=None, kma
                         kbins_low  = np.linspace(kmin, kmax, kbins+1)
                         kbins_high = 10**np.linspace(np.log10(kmin), np.log10(kmax), kbins+1)
                         kbins = np.hstack((kbins_low[kbins_low<breakpoint],kbins_high[kbins_high>breakpoint]))          
-        return kbins
+        return np.asarray(kbins)
 
 
 def _get_dims(box_dims, ashape):
-- 
2.43.0


From 34fe2be187570ea70293b532dad0f4eb627d0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 016/141] fix: power_spectrum_2d ignored the numbers of bins
 given as a list

---
 src/tools21cm/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index b436a8f..281813f 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -208,11 +208,9 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window)
         
-        if type(kbins) == list:
-                binning = None
-        elif np.array(kbins).size==1: 
+        if np.ndim(kbins) == 0: 
                 kbins = [kbins, kbins]
-        elif not isinstance(kbins[0], int): 
+        elif np.ndim(kbins[0]) > 0: 
                 binning = None
 
         if kwargs.get('boxsize') is not None: box_dims = kwargs.get('boxsize')
-- 
2.43.0


From 993e3067bfcc910c2e885c7e3298700d2676ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 017/141] fix: window functions modified the caller's array and
 crashed for array windows

---
 src/tools21cm/power_spectrum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 281813f..7c55673 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -12,13 +12,13 @@ from scipy import fftpack, stats
 def apply_window(input_array, window):
     if window is None: return input_array
     from scipy.signal import windows
+    if not isinstance(window, str):
+            return input_array*window
     if window.lower()=='blackmanharris':
-            input_array *= windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            return input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
     elif window.lower()=='tukey':
-            input_array *= windows.tukey(input_array.shape[-1])[None,None,:]
-    else:
-            input_array *= window
-    return input_array
+            return input_array*windows.tukey(input_array.shape[-1])[None,None,:]
+    raise ValueError('Unknown window: %s' % window)
 
 
 def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
-- 
2.43.0


From fa71acbe5a6d9bb3a14b592e26d7bf516365430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 018/141] fix: power_spectrum_2d tapered the last axis instead
 of the frequency axis

---
 src/tools21cm/power_spectrum.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 7c55673..3d8cf83 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -9,16 +9,18 @@ from .helper_functions import print_msg, get_eval
 from .scipy_func import numpy_product
 from scipy import fftpack, stats
 
-def apply_window(input_array, window):
+def apply_window(input_array, window, axis=-1):
     if window is None: return input_array
     from scipy.signal import windows
     if not isinstance(window, str):
             return input_array*window
     if window.lower()=='blackmanharris':
-            return input_array*windows.blackmanharris(input_array.shape[-1])[None,None,:]
+            taper = windows.blackmanharris(input_array.shape[axis])
     elif window.lower()=='tukey':
-            return input_array*windows.tukey(input_array.shape[-1])[None,None,:]
-    raise ValueError('Unknown window: %s' % window)
+            taper = windows.tukey(input_array.shape[axis])
+    else:
+            raise ValueError('Unknown window: %s' % window)
+    return input_array*np.moveaxis(taper[None,None,:], -1, axis)
 
 
 def power_spectrum_nd(input_array, box_dims=None, verbose=False, **kwargs):
@@ -206,7 +208,7 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
                 n_modes is the number of modes.
         
         '''
-        input_array = apply_window(input_array, window)
+        input_array = apply_window(input_array, window, axis=nu_axis)
         
         if np.ndim(kbins) == 0: 
                 kbins = [kbins, kbins]
-- 
2.43.0


From 982d0c44b835ef53211bb218d7ff3236624dfb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 019/141] fix: get_kbins crashed when only wavenumbers were
 given

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 3d8cf83..c784872 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -442,7 +442,7 @@ def get_k(input_array, box_dims):
         
 def get_kbins(kbins, box_dims, k=None, array=None, binning='log'):
         assert k is not None or array is not None
-        box_dims = _get_dims(box_dims, array.shape)
+        box_dims = _get_dims(box_dims, array.shape if array is not None else k.shape)
         if k is None: k_comp, k = _get_k(array, box_dims)
         return _get_kbins(kbins, box_dims, k, binning=binning)
 
-- 
2.43.0


From 9d23b17634d8ebdf41173e34dc7e28589b4d5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 020/141] fix: anisotropy_ratio_r_mu crashed with
 return_n_modes

---
 src/tools21cm/power_spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index c784872..5c36b3f 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -608,10 +608,12 @@ def anisotropy_ratio_r_mu(input_array, los_axis=0, mu_cut=0.5, mubins=20, kbins=
             kbins is an array with the k bin centers.
 
     '''
-    Pk, mubins, kbins = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=return_n_modes, absolute_mus=absolute_mus, **kwargs)
+    Pk, mubins, kbins, n_modes = power_spectrum_mu(input_array, los_axis=los_axis, mubins=mubins, kbins=kbins, box_dims=box_dims, weights=weights, exclude_zero_modes=exclude_zero_modes, return_n_modes=True, absolute_mus=absolute_mus, **kwargs)
     Pup = Pk[mubins>=mu_cut,:]
     Pdn = Pk[mubins<mu_cut,:]
     rup = np.array([pp[np.isfinite(pp)].mean() for pp in Pup.T])
     rdn = np.array([pp[np.isfinite(pp)].mean() for pp in Pdn.T])     
     rmu = rup/rdn-1.0
+    if return_n_modes:
+        return rmu, kbins, n_modes
     return rmu, kbins
\ No newline at end of file
-- 
2.43.0


From 1de861187779d87c297e01d25c2f1e7b9adf8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 021/141] fix: power_spectrum_multipoles crashed and miscounted
 the modes

---
 src/tools21cm/power_legendre.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/power_legendre.py b/src/tools21cm/power_legendre.py
index d3fc984..d78ad4f 100755
--- a/src/tools21cm/power_legendre.py
+++ b/src/tools21cm/power_legendre.py
@@ -44,13 +44,13 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
     k_comp, k = _get_k(input_array, box_dims)
     kbins = _get_kbins(kbins, box_dims, k)
     dk = (kbins[1:]-kbins[:-1])/2.
-    mu = _get_mu(k_comp, k, los_axis)
+    mu = _get_mu(k_comp, k, los_axis, absolute_mus=True)
     
     #Exclude k_perp = 0 modes
     if exclude_zero_modes:
         good_idx = _get_nonzero_idx(ps.shape, los_axis)
     else:
-        good_idx = np.ones_like(ps)
+        good_idx = np.ones(ps.shape, dtype=bool)
 
     #Legendre polynomials
     if 'P0' in output:
@@ -77,7 +77,7 @@ def power_spectrum_multipoles(input_array, kbins = 10, box_dims = None,\
         kmax = kbins[i+1]
         idx = get_eval()('(k >= kmin) & (k < kmax)')
         idx *= good_idx
-        nmodes[i] = len(np.nonzero(idx))
+        nmodes[i] = np.count_nonzero(idx)
         if 'P0' in output:
             multipoles['P0'][i] = np.sum(ps[idx]*P0[idx])/np.sum(P0[idx]**2)
         if 'P2' in output:
-- 
2.43.0


From be4adf7311a18ec0a8c289cb176ef7480fb242bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 022/141] fix: power_spectrum_2d accepts bin edges of different
 lengths again

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index 5c36b3f..f03eeba 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -210,7 +210,7 @@ def power_spectrum_2d(input_array, kbins=10, binning='log', box_dims=244/.7, ret
         '''
         input_array = apply_window(input_array, window, axis=nu_axis)
         
-        if np.ndim(kbins) == 0: 
+        if not hasattr(kbins, '__len__'): 
                 kbins = [kbins, kbins]
         elif np.ndim(kbins[0]) > 0: 
                 binning = None
-- 
2.43.0


From 030e31923ad6cbfb48ad2fa89089f77478d01959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 023/141] fix: negative frequencies were dropped from 1D power
 spectra

---
 src/tools21cm/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index f03eeba..ec2b7bb 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -459,7 +459,7 @@ def _get_k(input_array, box_dims):
         x = np.arange(len(input_array))
         center = len(input_array)//2
         kx = 2.*np.pi*(x-center)/box_dims[0]
-        return [kx], kx
+        return [kx], np.abs(kx)
     elif dim == 2:
         x,y = np.indices(input_array.shape, dtype='int32')
         nx,ny = input_array.shape
-- 
2.43.0


From 182ba6fc1cc82780f6eabfd573505fa4782d2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 024/141] fix: redshift-space distortions lost signal displaced
 by more than a box length

---
 src/tools21cm/pv_mpm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index a2c01a9..7a05f1b 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -112,8 +112,8 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
 
             #Periodic boundary conditions
             if periodic:
-                particle_pos[np.where(particle_pos < 0)] += box_depth
-                particle_pos[np.where(particle_pos > box_depth)] -= box_depth
+                outside = np.where((particle_pos < 0) | (particle_pos > box_depth))
+                particle_pos[outside] = np.mod(particle_pos[outside], box_depth)
 
             #Regrid particles to original resolution
             dist_skewer = np.histogram(particle_pos, \
-- 
2.43.0


From 54c9de1072946939d61046ca202ad99a07fcc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 025/141] fix: redshift-space distortions truncated integer
 signals

---
 src/tools21cm/pv_mpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/pv_mpm.py b/src/tools21cm/pv_mpm.py
index 7a05f1b..810a00a 100755
--- a/src/tools21cm/pv_mpm.py
+++ b/src/tools21cm/pv_mpm.py
@@ -83,7 +83,7 @@ def get_distorted_dt(dT, kms, redsh, los_axis=0, velocity_axis = 0, num_particle
     dr = (1.+z_obs)*vpar/const.Hz(z_obs)
 
     #Make the distorted box
-    distbox = np.zeros_like(dT)
+    distbox = np.zeros_like(dT, dtype=np.result_type(dT.dtype, np.float32))
     particle_dT = np.zeros(grid_depth*num_particles)
 
     last_percent = 0
-- 
2.43.0


From 02d47dbf13711c9691397b22ae3bbe7ad97b1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 026/141] fix: derived constants were stale after a
 cosmological parameter was changed

---
 src/tools21cm/const.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index 810a56c..aa7b5aa 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -27,6 +27,7 @@ def set_abundance_helium(value):
 	global abu_he_mass, abu_h_mass
 	abu_he_mass = value
 	abu_h_mass = 1.0-abu_he_mass
+	_update_derived()
 
 mean_molecular = 1.0/(1.0-abu_he_mass)
 solar_masses_per_gram = 5.02785431e-34
@@ -48,18 +49,18 @@ def set_hubble_h(value):
 	'''
 	Define new hubble constant value (little h).
 	'''
-	global h, H0
+	global h
 	h  = value 
-	H0 = 100.0*h
+	_update_derived()
 
 def set_omega_matter(value): 
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, q0
+	global Omega0, lam, OmegaL
 	Omega0 = value
-	lam = 1.0-Omega0
-	q0 = 0.5*Omega0 - lam
+	lam = 1.0-Omega0; OmegaL = lam
+	_update_derived()
 	# print(Omega0, q0)
 
 def set_omega_baryon(value):
@@ -68,14 +69,16 @@ def set_omega_baryon(value):
 	'''
 	global OmegaB
 	OmegaB = value 
+	_update_derived()
 
 def set_omega_lambda(value):
 	'''
 	Define new omega lambda value.
 	'''
-	global lam
+	global lam, OmegaL
 	lam = value 
 	OmegaL = value
+	_update_derived()
 
 def set_ns(value):
 	'''
@@ -109,3 +112,17 @@ lambda0 = c*1.0e5/(nu0*1.0e6) # cm
 num_h_0=(1-abu_he_mass)*OmegaB*rho_crit_0/m_p
 # meandt = 2.9*0.043/0.04
 meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
+
+def _update_derived():
+	'''
+	Recalculate the constants that are derived from the cosmological parameters.
+	'''
+	global q0, H0, H0cgs, rho_crit_0, rho_matter, mean_molecular, num_h_0, meandt
+	q0 = 0.5*Omega0 - lam
+	H0 = 100.0*h
+	H0cgs = H0*1e5/Mpc
+	rho_crit_0 = 3.0*H0cgs*H0cgs/(8.0*np.pi*G_grav)
+	rho_matter = rho_crit_0*Omega0
+	mean_molecular = 1.0/(1.0-abu_he_mass)
+	num_h_0 = (1-abu_he_mass)*OmegaB*rho_crit_0/m_p
+	meandt = 3.0*lambda0**3/(32.*np.pi)*A10*Tstar*num_h_0/(H0cgs/h)*1000.
-- 
2.43.0


From 9e5f41b4761dc99fd574a0524cf8685963bf09c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 027/141] fix: cosmological conversions truncated the result
 for integer input

---
 src/tools21cm/cosmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 1c836b9..84671b2 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -138,7 +138,7 @@ def z_to_cdist(z):
         Comoving distance in Mpc
     '''
     z = np.atleast_1d(z)
-    dist = np.zeros_like(z)
+    dist = np.zeros(z.shape)
     for i in range(len(z)):
         Ez_func = lambda x: 1./np.sqrt(const.Omega0*(1.+x)**3+const.lam)
         dist[i] = const.c/const.H0 * quad(Ez_func, 0, z[i])[0]
@@ -160,7 +160,7 @@ def cdist_to_z(dist):
         
     '''
     dist = np.atleast_1d(dist)
-    z = np.zeros_like(dist)
+    z = np.zeros(dist.shape)
     func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
     z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
@@ -183,7 +183,7 @@ def z_to_age(z):
     '''
     z = np.atleast_1d(z)
     a = 1/(1+z)
-    tage = np.zeros_like(z)
+    tage = np.zeros(z.shape)
     for i in range(len(a)):
         Ea_func = lambda x: 1./x/np.sqrt(const.Omega0*x**-3+const.lam)
         tage[i] = 1/const.H0 * quad(Ea_func, 0, a[i])[0]
-- 
2.43.0


From 2d53dd5c08251a08fc562575c426ab48ca0a4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 028/141] fix: cdist_to_z crashed above z=23 and was wrong for
 other cosmologies

---
 src/tools21cm/cosmo.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/cosmo.py b/src/tools21cm/cosmo.py
index 84671b2..6cfa474 100755
--- a/src/tools21cm/cosmo.py
+++ b/src/tools21cm/cosmo.py
@@ -161,11 +161,8 @@ def cdist_to_z(dist):
     '''
     dist = np.atleast_1d(dist)
     z = np.zeros(dist.shape)
-    func        = interp1d(precalc_table_cdist, precalc_table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
-    z_min_guess = func(dist)-1 if type(dist)==float else func(dist.min())-1
-    z_max_guess = func(dist)+1 if type(dist)==float else func(dist.max())+1
-    table_z     = precalc_table_z[precalc_table_z>z_min_guess]
-    table_z     = table_z[table_z<z_max_guess]
+    # The precalculated distances are only valid for the default cosmology
+    table_z     = precalc_table_z
     table_cdist = z_to_cdist(table_z)
     func = interp1d(table_cdist, table_z, kind='cubic', bounds_error=False, fill_value="extrapolate")
     for i in range(len(dist)):
-- 
2.43.0


From d986aebd3193c78137c36be916a00478f13f5d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 029/141] fix: signal_overdensity ignored negative
 line-of-sight axes

---
 src/tools21cm/statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 615becf..7449381 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -101,11 +101,11 @@ def signal_overdensity(signal, los_axis):
 	signal_out = signal.copy()
 	
 	for i in range(signal.shape[los_axis]):
-		if los_axis == 0:
+		if los_axis in [0,-3]:
 			signal_out[i,:,:] /= signal[i,:,:].mean()
-		if los_axis == 1:
+		if los_axis in [1,-2]:
 			signal_out[:,i,:] /= signal[:,i,:].mean()
-		if los_axis == 2:
+		if los_axis in [2,-1]:
 			signal_out[:,:,i] /= signal[:,:,i].mean()
 
 	return signal_out - 1.
-- 
2.43.0


From 7e7be6f33d95a76b08f64713e20a053850d24970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 030/141] fix: mean subtraction and overdensity crashed for
 integer signals

---
 src/tools21cm/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/statistics.py b/src/tools21cm/statistics.py
index 7449381..d263c42 100755
--- a/src/tools21cm/statistics.py
+++ b/src/tools21cm/statistics.py
@@ -72,7 +72,7 @@ def subtract_mean_signal(signal, los_axis=2):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
@@ -98,7 +98,7 @@ def signal_overdensity(signal, los_axis):
 		
 	TODO:vectorize 
 	'''
-	signal_out = signal.copy()
+	signal_out = signal.astype(np.result_type(signal, np.float32))
 	
 	for i in range(signal.shape[los_axis]):
 		if los_axis in [0,-3]:
-- 
2.43.0


From 3fd5e3ddfac262822c3ece49fe7f31626df87bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 031/141] fix: find_idx modified its input and truncated the
 limits for integer values

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index bcf86a6..a661d03 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -526,7 +526,7 @@ def find_idx(ar, values):
         '''
         
         #Make input into an array and clamp outliers
-        values = np.atleast_1d(values)
+        values = np.array(values, dtype=float, ndmin=1)
         values[values > ar.max()] = ar.max()
         values[values < ar.min()] = ar.min()
         
-- 
2.43.0


From f9313b431e29f3e2b0efc423c20ac3a777edc38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 032/141] fix: circular convolution with an odd-sized kernel
 was shifted by one cell

---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 11b752c..d5758b5 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -107,7 +107,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = torch_fft.ifftn(f1 * f2, s=fsize, dim=calc_axes)
 
         if boundary == 'circular':
-            return torch.roll(ret, shifts=tuple((-s2 // 2).tolist()), dims=calc_axes)
+            return torch.roll(ret, shifts=tuple((-(s2 // 2)).tolist()), dims=calc_axes)
 
     # --- 3. JAX Backend ---
     elif backend == 'jax':
@@ -132,7 +132,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = jnp.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return jnp.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return jnp.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 4. NumPy Backend ---
     elif backend == 'numpy':
@@ -154,7 +154,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
             ret = np.fft.ifftn(f1 * f2, s=fsize, axes=calc_axes)
 
         if boundary == 'circular':
-            return np.roll(ret, shift=tuple((-s2 // 2).tolist()), axis=calc_axes)
+            return np.roll(ret, shift=tuple((-(s2 // 2)).tolist()), axis=calc_axes)
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-- 
2.43.0


From 32ed43d4ecedfac6e4fdfe42ef2f9e8d1376e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 033/141] fix: padded convolution with an even-sized kernel was
 shifted by one cell

---
 src/tools21cm/fft_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index d5758b5..3bc1a3a 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -158,7 +158,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-        start = s2 - 1
+        start = s2 - 1 if mode == 'full' else 2 * (s2 // 2)
     else:
         if mode == 'full': start = np.zeros_like(s1)
         elif mode == 'same': start = s2 // 2
-- 
2.43.0


From c501623d17e7917144aed0626907adc23fb5bf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 034/141] fix: tophat kernels wider than the array were
 truncated on one side or NaN

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2a5e27b..394ebba 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -98,7 +98,7 @@ def tophat_kernel(size, tophat_width):
         '''
         kernel   = np.zeros((size,size))
         center   = kernel.shape[0]/2
-        idx_low  = int(center-np.floor(tophat_width/2.))
+        idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
         idx_high = int(center+np.ceil(tophat_width/2.))
         kernel[idx_low:idx_high, idx_low:idx_high] = 1.
         kernel /= np.sum(kernel)
@@ -122,7 +122,7 @@ def tophat_kernel_3d(size, tophat_width, shape="cube"):
         kernel = np.zeros((size, size, size))
         if shape == "cube":
                 center   = kernel.shape[0]/2 
-                idx_low  = int(center-np.floor(tophat_width/2.))
+                idx_low  = max(int(center-np.floor(tophat_width/2.)), 0)
                 idx_high = int(center+np.ceil(tophat_width/2.))
                 kernel[idx_low:idx_high, idx_low:idx_high, idx_low:idx_high ] = 1.
         else:
-- 
2.43.0


From d0660d9c9560aeba177b42b1c5a8197aee3f52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 035/141] fix: smooth_lightcone crashed when only the lowest
 redshift was given

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 394ebba..fcc0005 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -348,8 +348,8 @@ def smooth_lightcone(lightcone, z_array, box_size_mpc=False, max_baseline=2., ra
                 (Smoothed_lightcone, redshifts) 
         """
         if (not box_size_mpc): box_size_mpc=conv.LB
-        if(z_array.shape[0] == lightcone.shape[2]):
-                input_redshifts = z_array.copy()
+        if(np.size(z_array) == lightcone.shape[2]):
+                input_redshifts = np.array(z_array, dtype=float)
         else:
                 z_low = z_array
                 cell_size = 1.0*box_size_mpc/lightcone.shape[0]
-- 
2.43.0


From a6d635d23dd09fd0a7148e80b5dcd73ab5e0c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 036/141] fix: tophat smoothing of light cones included a slice
 outside the redshift window

---
 src/tools21cm/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index fcc0005..a6736ab 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -457,7 +457,8 @@ def smooth_lightcone_tophat(lightcone, redshifts, dz, verbose=True):
                 z_out_low  = redshifts[i]-dz[i]/2
                 z_out_high = redshifts[i]+dz[i]/2
                 idx_low  = int(np.ceil(find_idx(redshifts, z_out_low)))
-                idx_high = int(np.ceil(find_idx(redshifts, z_out_high)))
+                idx_high = int(np.floor(find_idx(redshifts, z_out_high)))
+                if idx_high < idx_low: idx_low = idx_high = i
                 output_lightcone[:,:,i] = np.mean(lightcone[:,:,idx_low:idx_high+1], axis=2)
         return output_lightcone
 
-- 
2.43.0


From 1c60aaef8813a72f2afc0f52e4bf98d2db46df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 037/141] fix: smooth_lightcone_uv_threshold returned its error
 instead of raising it

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index a6736ab..624d586 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -496,7 +496,7 @@ def smooth_lightcone_uv_threshold(lightcone, uv_box, threshold=0.0):
                 Smoothed lightcone.
         """
         if not isinstance(threshold, float) or threshold < 0.0:
-                return ValueError("Threshold value should be a positive float.")
+                raise ValueError("Threshold value should be a positive float.")
         
         lightcone = np.fft.fft2(lightcone, axes = (0, 1))
         uv_bool = uv_box < threshold
-- 
2.43.0


From 4f5bdb94b4fbedef06dbff96b1c7ff08b9e74417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 038/141] fix: convolve_uvmap_coeval crashed without a uv map
 and permuted the axes of the cube

---
 src/tools21cm/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 624d586..9c27715 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -575,7 +575,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         if isinstance(max_baseline,u.Quantity):
                max_baseline = max_baseline.to('km').value
         if uv_map is None: 
-                uv_map, N_ant  = get_uv_map(array.shape[0],
+                uv_map, N_ant  = get_uv_map(cube.shape[0],
                                                 z,
                                                 filename=filename,
                                                 total_int_time=total_int_time,
@@ -591,7 +591,7 @@ def convolve_uvmap_coeval(cube, z, box_size_mpc=False, max_baseline=2., ratio=1.
         output_ang_res = output_dtheta*cm.z_to_cdist(z) * cube.shape[0]/box_size_mpc
         output_cube = smooth_coeval_tophat(cube, output_ang_res*ratio, nu_axis=nu_axis, verbose=verbose)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
-        output_cube = np.array([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)])
+        output_cube = np.stack([convolve_uvmap(output_cube[:,:,i], uv_map=uv_map, verbose=verbose, box_size_mpc=box_size_mpc) for i in tqdm(range(output_cube.shape[2]),disable=not verbose)], axis=2)
         if nu_axis not in [2,-1]: output_cube = np.swapaxes(output_cube,nu_axis,2)
         return output_cube
 
-- 
2.43.0


From bd5e66d36bce931790bdbeb0def8b6c8d0dd4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 039/141] fix: smooth_line crashed for integer windows

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 9c27715..2db2d34 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -649,7 +649,7 @@ def smooth_line(y, window=3, kind='tophat'):
         else:
             raise ValueError(f"Unsupported window kind: '{kind}'. Choose from 'tophat', 'gaussian', 'triangular', 'hamming', or 'hanning'.")
     elif isinstance(window, (list, np.ndarray)):
-        window = np.array(window)
+        window = np.array(window, dtype=float)
         window /= np.sum(window)  # Ensure the custom window is normalized
     else:
         raise ValueError("Window must be an integer or an array-like object.")
-- 
2.43.0


From 149ce5fdad48ccc0c8f82c4a6a72c16526296544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 040/141] fix: coeval cubes were tophat-smoothed across the sky
 as well as in frequency

---
 src/tools21cm/smoothing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 2db2d34..7b7fa1f 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -414,7 +414,9 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         Returns:
                 Smoothed_cube
         """
-        kernel = tophat_kernel(cube.shape[nu_axis], width)
+        # One-dimensional tophat along the frequency axis
+        kernel = tophat_kernel(cube.shape[nu_axis], width).sum(axis=0)
+        kernel = kernel[:,np.newaxis] if nu_axis==0 else kernel[np.newaxis,:]
         output_cube = np.zeros(cube.shape)
         if nu_axis==0:
                 for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-- 
2.43.0


From 5f40a1f5077f1fb277d8883a324c0a431574ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 041/141] fix: smooth_tophat mixed up the periodic edge cells
 for even-sized arrays

---
 src/tools21cm/smoothing.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index 7b7fa1f..a089054 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -197,15 +197,6 @@ def smooth_tophat(input_array, tophat_width):
                 The smoothed array. A numpy array with the same
                 dimensions as the input.
         '''
-        #For some reason fftconvolve works produces edge effects with
-        #an even number of cells, so we pad the array with an extra pixel
-        #if this is the case
-        if input_array.shape[0] % 2 == 0:
-                from .angular_coordinates import _get_padded_slice
-                padded = _get_padded_slice(input_array, input_array.shape[0]+1)
-                out = smooth_tophat(padded, tophat_width)
-                return out[:-1,:-1]
-        
         kernel = tophat_kernel(input_array.shape[0], tophat_width)
         return smooth_with_kernel(input_array, kernel)
 
-- 
2.43.0


From 02deeebf0f4860bb08e0af7742640e58a4468399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 042/141] fix: beam_convolve crashed when cutting out its
 result

---
 src/tools21cm/beam_convolve.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tools21cm/beam_convolve.py b/src/tools21cm/beam_convolve.py
index a98774e..8bd95bb 100755
--- a/src/tools21cm/beam_convolve.py
+++ b/src/tools21cm/beam_convolve.py
@@ -50,9 +50,7 @@ def beam_convolve(input_array, z, fov_mpc, beam_w = None, max_baseline = None, \
 	out =  signal.fftconvolve(input_array, kernel, mode='same')
 	# out =  fftconvolve(input_array, kernel)
 
-	#fftconvolve makes the output twice the size, so return only the central part	
-	ox = out.shape[0]
-	return out[ox*0.25:ox*0.75, ox*0.25:ox*0.75]
+	return out
 
 
 
-- 
2.43.0


From 666a338253fb053261774f58eb805e12c47a669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 043/141] fix: frequency binning of light cones was not centred
 on the output frequencies

---
 src/tools21cm/angular_coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 79a088d..9a37a01 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -290,7 +290,7 @@ def bin_lightcone_in_frequency(lightcone, z_low, box_size_mpc, dnu):
     hf.print_msg('Smooth along LoS with scale %f' % smooth_scale)
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
-    lightcone_smoothed = fftconvolve(lightcone, tophat3d)
+    lightcone_smoothed = fftconvolve(lightcone, tophat3d, mode='same')
     
     for i in range(output_lightcone.shape[2]):
         nu = output_frequencies[i]
-- 
2.43.0


From c8eb6b77c6b8e86508a8a715cb411ac186e8d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 044/141] fix: padding for an even-sized kernel was one cell
 short on one side

---
 src/tools21cm/fft_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/fft_functions.py b/src/tools21cm/fft_functions.py
index 3bc1a3a..226b6dd 100644
--- a/src/tools21cm/fft_functions.py
+++ b/src/tools21cm/fft_functions.py
@@ -71,8 +71,8 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
         do_pad = False
     else: 
         do_pad = True
-        pad_before = s2 - 1 if mode == 'full' else s2 // 2
-        pad_after = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_before = s2 - 1 if mode == 'full' else s2 - 1 - (s2 // 2)
+        pad_after = s2 - 1 if mode == 'full' else s2 // 2
         fsize = tuple((s1 + pad_before + pad_after + s2 - 1).tolist())
 
     # --- 2. PyTorch Backend ---
@@ -158,7 +158,7 @@ def fftconvolve(in1, in2, mode='same', boundary='circular', backend='numpy', dev
 
     # --- 5. Cropping Logic (Applies to all backends) ---
     if do_pad:
-        start = s2 - 1 if mode == 'full' else 2 * (s2 // 2)
+        start = s2 - 1
     else:
         if mode == 'full': start = np.zeros_like(s1)
         elif mode == 'same': start = s2 // 2
-- 
2.43.0


From 12f3087172a021c72ff3cbb3a38179d2e4115317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:07 +0000
Subject: [PATCH 045/141] fix: changing Omega_matter leaves OmegaL to
 set_omega_lambda

---
 src/tools21cm/const.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/const.py b/src/tools21cm/const.py
index aa7b5aa..0c5e191 100755
--- a/src/tools21cm/const.py
+++ b/src/tools21cm/const.py
@@ -57,9 +57,9 @@ def set_omega_matter(value):
 	'''
 	Define new omega matter value.
 	'''
-	global Omega0, lam, OmegaL
+	global Omega0, lam
 	Omega0 = value
-	lam = 1.0-Omega0; OmegaL = lam
+	lam = 1.0-Omega0
 	_update_derived()
 	# print(Omega0, q0)
 
-- 
2.43.0


From 01b62e1d211fe1170173b69beb9c6939fc7eb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:08 +0000
Subject: [PATCH 046/141] fix: coeval tophat smoothing used the wrong axis for
 nu_axis=1

---
 src/tools21cm/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/smoothing.py b/src/tools21cm/smoothing.py
index a089054..c3a46d7 100755
--- a/src/tools21cm/smoothing.py
+++ b/src/tools21cm/smoothing.py
@@ -407,7 +407,7 @@ def smooth_coeval_tophat(cube, width, nu_axis, verbose=True):
         """
         # One-dimensional tophat along the frequency axis
         kernel = tophat_kernel(cube.shape[nu_axis], width).sum(axis=0)
-        kernel = kernel[:,np.newaxis] if nu_axis==0 else kernel[np.newaxis,:]
+        kernel = kernel[:,np.newaxis] if nu_axis in [0,1] else kernel[np.newaxis,:]
         output_cube = np.zeros(cube.shape)
         if nu_axis==0:
                 for i in tqdm(range(cube.shape[1]), disable=False if verbose else True):
-- 
2.43.0


From 48389e80fdeffb2a35de766cd1af21ccabfb431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 047/141] fix: binning light cones in Mpc returned too many
 redshifts and failed for fine cells

---
 src/tools21cm/angular_coordinates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 9a37a01..6a212a5 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -311,6 +311,8 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
     
     #Bin in Mpc by smoothing and indexing
     smooth_scale = np.round(len(frequencies)/n_output_cells)
+    if smooth_scale < 1:
+        smooth_scale = 1
 
     tophat3d = np.ones((1,1,int(smooth_scale)))
     tophat3d /= np.sum(tophat3d)
@@ -320,7 +322,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
         idx = int(hf.find_idx(distances, output_distances[i]))
         output_lightcone[:,:,i] = lightcone_smoothed[:,:,int(idx)]
     
-    output_redshifts = cm.cdist_to_z(output_distances)
+    output_redshifts = cm.cdist_to_z(output_distances[:output_lightcone.shape[2]])
         
     return output_lightcone, output_redshifts
 
-- 
2.43.0


From fa6a978bc45b640e13df99e677447baea9ec208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 048/141] fix: slices could not be padded to more than twice
 their size

---
 src/tools21cm/angular_coordinates.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tools21cm/angular_coordinates.py b/src/tools21cm/angular_coordinates.py
index 6a212a5..5bb016f 100755
--- a/src/tools21cm/angular_coordinates.py
+++ b/src/tools21cm/angular_coordinates.py
@@ -329,12 +329,7 @@ def bin_lightcone_in_mpc(lightcone, frequencies, cell_size_mpc):
 
 def _get_padded_slice(input_slice, padded_n):
     slice_n = input_slice.shape[0]
-    padded_slice = np.zeros((padded_n, padded_n))
-    padded_slice[:slice_n, :slice_n] = input_slice
-    padded_slice[slice_n:, :slice_n] = input_slice[:(padded_n-slice_n),:slice_n]
-    padded_slice[:slice_n, slice_n:] = input_slice[:,:(padded_n-slice_n)]
-    padded_slice[slice_n:, slice_n:] = input_slice[:(padded_n-slice_n), :(padded_n-slice_n)]
-    return padded_slice
+    return np.pad(input_slice, (0, padded_n-slice_n), mode='wrap')
 
 def padding_lightcone(lc, padded_n=None, mode='wrap', verbose=True):
     '''
-- 
2.43.0


From 89312cd4e90118a1ba3251a885c7bb75aa7ec3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 049/141] fix: FoF_search finds every group (the list of points
 was consumed before use) and no longer depends on the timing of an
 inter-process queue

---
 src/tools21cm/Friends_of_Friends.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/Friends_of_Friends.py b/src/tools21cm/Friends_of_Friends.py
index f1c6100..173b6bf 100755
--- a/src/tools21cm/Friends_of_Friends.py
+++ b/src/tools21cm/Friends_of_Friends.py
@@ -11,7 +11,7 @@ sizes_list = ast.literal_eval(sizes_string)
 import numpy as np
 from itertools import count
 #from Queue import Queue
-from multiprocessing import Queue
+from collections import deque
 
 
 def FoF_search(array, threshold):
@@ -29,29 +29,29 @@ def FoF_search(array, threshold):
                 yield tuple(new_coordinate)
 
     out_map = np.zeros(array.shape, dtype=int)   # creates an array with the same shape as the input search array
-    possibilities = zip(*np.where(array > threshold))  # creates a list of indices of points above the threshold
+    possibilities = list(zip(*np.where(array > threshold)))  # creates a list of indices of points above the threshold
     poss_set = set(possibilities)
     
     def recursive_search(point, current_group, currentsize):     # function to calculate group membership of a point
         for testPoint in cycle_through_options(point):
             if testPoint in poss_set and not out_map[testPoint]:
                 out_map[testPoint] = current_group
-                q.put(testPoint)
+                q.append(testPoint)
                 currentsize += 1
         return currentsize
     c = count()
     #c.next()
     next(c)
     size_list = []
-    q = Queue()             # initialise a queue
+    q = deque()             # initialise a queue
     for p in possibilities:     # start cycling through possible points
         if not out_map[p]:           # if the point has not already been searched,
             group = next(c)        # start a new group number
             out_map[p] = group       # assign the corresponding point in the group map to this group
-            q.put(p)                # put the point in the queue
+            q.append(p)                # put the point in the queue
             s = 1                   # s contains the new group size
-            while not q.empty():    # cycle till queue is empty
-                s = recursive_search(q.get(), group, s)  # search each neighbour recursively
+            while q:    # cycle till queue is empty
+                s = recursive_search(q.popleft(), group, s)  # search each neighbour recursively
             size_list.append(s)     # add size of group to a list
     return out_map, np.array(size_list)
 
-- 
2.43.0


From af7cc022d45e2c4741db48a8a385e51291bf3b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 050/141] fix: fof reports the size of a region that fills the
 whole volume

---
 src/tools21cm/bubble_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 59e10b1..fdac98c 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -40,8 +40,8 @@ def fof(data, xth=0.5, connectivity=1):
 		from skimage import morphology
 		out_map = morphology.label(data, connectivity=connectivity)
 		elements, size_list = np.unique(out_map, return_counts=True)
-		size_list = size_list[1:]
-	else: out_map, size_list = FoF_search(data, xth)
+		size_list = size_list[elements>0]
+	else: out_map, size_list = FoF_search(data, 0.5)
 	t2 = datetime.datetime.now()
 	runtime = (t2-t1).total_seconds()/60
 
-- 
2.43.0


From 8a4c065172e484504c4b97b104f81961fbc797e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 051/141] fix: mfp of data without region of interest works for
 thresholds above one

---
 src/tools21cm/bubble_stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index fdac98c..215ef9e 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -134,6 +134,7 @@ def mfp(data, xth=0.5, boxsize=None, iterations=10000000, verbose=True, upper_li
 		print(f'{check_box}/{data.size} cells are marked as region of interest (ROI).')
 	if check_box==0:
 		data = np.ones(data.shape)
+		xth  = 1
 		iterations = 3
 	if dim == 2:
 		if verbose: print("MFP method applied on 2D data.")
@@ -208,6 +209,7 @@ def averaged_mfp(data, xth=0.5, boxsize=None, iterations=10000000, rays_per_poin
 	check_box = (data>=xth).sum()
 	if check_box==0:
 		data = np.ones(data.shape)
+		xth  = 1
 		iterations = 3
 	if dim == 3:
 		ar = np.zeros_like(data)
@@ -297,6 +299,7 @@ def mfp_from_point(data, point, xth=0.5, boxsize=None, iterations=10000000, verb
 	check_box = (data>=xth).sum()
 	if check_box==0:
 		data = np.ones(data.shape)
+		xth  = 1
 		iterations = 3
 	if dim == 2:
 		print("MFP method applied on 2D data")
-- 
2.43.0


From 43be3f042b967e9ea30f9d34da3611c86343f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 052/141] fix: mfp_from_point accepts the point as an array and
 checks that it lies in the structure

---
 src/tools21cm/mfp_np.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/mfp_np.py b/src/tools21cm/mfp_np.py
index 845bb60..779a6e9 100755
--- a/src/tools21cm/mfp_np.py
+++ b/src/tools21cm/mfp_np.py
@@ -75,13 +75,13 @@ def mfp3d(arr, xth=0.5, iterations=10000000, verbose=True, point='random'):
     ms = sin_thetas * sin_phis
     ns = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys, zs = loc[rand_loc, 0], loc[rand_loc, 1], loc[rand_loc, 2]
     else:
         xs, ys, zs = point
-        if isinstance(xs, (int,float)):
+        if np.ndim(xs) == 0:
             if ar[xs, ys, zs] == 0:
                 print('Given point is outside the structure.')
                 return None
@@ -112,7 +112,7 @@ def mfp2d(arr, xth=0.5, iterations=1000000, verbose=True, point='random'):
     ls = sin_thetas
     ms = cos_thetas
 
-    if point == 'random':
+    if isinstance(point, str) and point == 'random':
         loc = np.argwhere(ar == 1)
         rand_loc = np.random.randint(0, high=loc.shape[0], size=iterations)
         xs, ys = loc[rand_loc, 0], loc[rand_loc, 1]
-- 
2.43.0


From 7a8e8186d621414d46a6305063071733e03c141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 053/141] fix: granulometry no longer uses aliases removed from
 numpy

---
 src/tools21cm/bubble_stats.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 215ef9e..0b47e0d 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -421,7 +421,7 @@ def disk_structure(n):
     x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
     mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
     struct[mask] = 1
-    return struct.astype(np.bool)
+    return struct.astype(bool)
 
 
 def granulometry_CDF(data, sizes=None, verbose=True, n_jobs=1):
@@ -501,18 +501,18 @@ def _granulometry(data, n_jobs=1, verbose=True):
         x, y = np.indices((2 * n + 1, 2 * n + 1))
         mask = (x - n)**2 + (y - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
     def ball(n):
         struct = np.zeros((2*n+1, 2*n+1, 2*n+1))
         x, y, z = np.indices((2*n+1, 2*n+1, 2*n+1))
         mask = (x - n)**2 + (y - n)**2 + (z - n)**2 <= n**2
         struct[mask] = 1
-        return struct.astype(np.bool)
+        return struct.astype(bool)
 
     s = max(data.shape)
     dim   = data.ndim
-    pixel = range(np.int(s/2))
-    area0 = np.float(data.sum())
+    pixel = range(int(s/2))
+    area0 = float(data.sum())
     area  = np.zeros_like(pixel)
 
     def func(n):
-- 
2.43.0


From 24e6fa2109cf177181144e2dc60936bd2debf5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 054/141] fix: watershed_bsd uses the sizes of the regions, not
 their labels

---
 src/tools21cm/bubble_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 0b47e0d..2710fe0 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -614,8 +614,8 @@ def watershed_bsd(data, xth=0.5, boxsize=None, verbose=True, upper_lim=False, h=
 	if n_jobs>1: print('Parallelization not implemented yet.')
 	labels = _watershed(mask, h=h)
 	uniq   = np.unique(labels[labels>0], return_counts=1)
-	r_list = np.cbrt(3*uniq[0]/4/np.pi)
-	r_pixl = np.arange(0, np.int(r_list.max()+2), 1)-0.5 
+	r_list = np.cbrt(3*uniq[1]/4/np.pi)
+	r_pixl = np.arange(0, int(r_list.max()+2), 1)-0.5 
 	
 	ht = np.histogram(r_list, bins=r_pixl)
 	dFdR, R = ht[0]/ht[0].sum(), ht[1][1:]/2+ht[1][:-1]/2
-- 
2.43.0


From 0cd3ba906cc65ad4b3857127dad819038956e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 055/141] fix: find_percolation_cluster tests every cluster and
 only across the box, not between neighbouring cells

---
 src/tools21cm/percolation.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/percolation.py b/src/tools21cm/percolation.py
index b994741..7f17250 100755
--- a/src/tools21cm/percolation.py
+++ b/src/tools21cm/percolation.py
@@ -31,14 +31,16 @@ def find_percolation_cluster(data, xth=0.5, connectivity=1):
 		if out_uniq[0][0]==1: return out_map.size
 		print('There is no percolation cluster in the data.') 
 		return 0
-	out_label = np.zeros_like(out_map)
-	out_label[out_map==out_uniq[0][1]] = 1
-	isPerc = False
-	if np.any(out_label+np.roll(out_label, 1, axis=0)>1): isPerc = True
-	if np.any(out_label+np.roll(out_label, 1, axis=1)>1): isPerc = True
-	if np.any(out_label+np.roll(out_label, 1, axis=2)>1): isPerc = True
-	if isPerc:
-		return out_label.sum()
+	perc_size = 0
+	for label, size in zip(*out_uniq):
+		if label==0: continue
+		out_label = (out_map==label)
+		# The cluster percolates if it reaches its own periodic image.
+		for axis in range(out_label.ndim):
+			if np.any(np.logical_and(out_label.take(0, axis=axis), out_label.take(-1, axis=axis))):
+				perc_size = max(perc_size, size)
+	if perc_size>0:
+		return perc_size
 	print('There is no percolation cluster in the data.')
 	return 0
 
-- 
2.43.0


From e9af24e36e5c68d91b1a54820c3748bb0dfa9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 056/141] fix: spa and granulometry give zero probability
 instead of nan when there is no region of interest

---
 src/tools21cm/bubble_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bubble_stats.py b/src/tools21cm/bubble_stats.py
index 2710fe0..22b33c5 100755
--- a/src/tools21cm/bubble_stats.py
+++ b/src/tools21cm/bubble_stats.py
@@ -84,7 +84,7 @@ def spa(data, xth=0.95, boxsize=None, nscales=20, upper_lim=False, binning='log'
 		xth  = -1.*xth
 	rs, ni = spa_np.spa_np(data, xth=xth, binning=binning, nscales=nscales, verbose=verbose, use_fftconvolve=use_fftconvolve)
 	rs_ = rs*boxsize/data.shape[0]
-	ni_ = ni/np.sum(ni)
+	ni_ = ni/np.sum(ni) if np.sum(ni)>0 else ni
 	return rs_, ni_
 
 
@@ -535,7 +535,7 @@ def _granulometry(data, n_jobs=1, verbose=True):
 
     area = area.astype(float)
     # print(area)
-    pattern_spectrum = np.append((area[:-1]-area[1:]).astype(float)/area[0], 0)
+    pattern_spectrum = np.append((area[:-1]-area[1:]).astype(float)/max(area[0], 1), 0)
     # print(pattern_spectrum)
 
     return area, pattern_spectrum, np.array(pixel)
-- 
2.43.0


From 2f95eb351f7d987c03b1064c589b7bbb3a387722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 057/141] fix: DensityFile.write_to_file accepts the density in
 cgs units

---
 src/tools21cm/density_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/density_file.py b/src/tools21cm/density_file.py
index 305b9d6..b653c35 100755
--- a/src/tools21cm/density_file.py
+++ b/src/tools21cm/density_file.py
@@ -95,7 +95,7 @@ class DensityFile:
 			self.cgs_density = cgs_density
 			self.mesh_x, self.mesh_y, self.mesh_z = self.cgs_density.shape
 			conv_factor = const.rho_crit_0*(float(self.mesh_x)/float(conv.nbox_fine))**3*const.OmegaB
-			self.raw_density = cgs_density/self.conv_factor
+			self.raw_density = cgs_density/conv_factor
 		else:
 			pass 
 
-- 
2.43.0


From 7c383abf5ae18b60077699f507169f99c3a3fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 058/141] fix: TemperFile gives old format data the shape of
 the mesh

---
 src/tools21cm/temper_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/temper_file.py b/src/tools21cm/temper_file.py
index 3af9e2f..4d0448d 100755
--- a/src/tools21cm/temper_file.py
+++ b/src/tools21cm/temper_file.py
@@ -48,10 +48,10 @@ class TemperFile:
         self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
         if old_format:
-                self.temper = np.fromfile(f, dtype='float32')
+                self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
         else:
                 self.temper = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.temper = self.temper.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From 9ce863baace41f64c9a7fc2c38db5bfc941f5808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 059/141] fix: IonRateFile gives old format data the shape of
 the mesh

---
 src/tools21cm/irate_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/irate_file.py b/src/tools21cm/irate_file.py
index 3b72a9a..d753efe 100755
--- a/src/tools21cm/irate_file.py
+++ b/src/tools21cm/irate_file.py
@@ -52,10 +52,10 @@ class IonRateFile:
             self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
         if old_format:
-                self.irate = np.fromfile(f, dtype='float32')
+                self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
         else:
                 self.irate = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
-                self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
+        self.irate = self.irate.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
         f.close()
         print_msg('...done')
-- 
2.43.0


From a69bfc43fd52400ef4f5731cd6aa59fe70587cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 060/141] fix: XfracFile ignores the closing record marker of
 old format files

---
 src/tools21cm/xfrac_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/xfrac_file.py b/src/tools21cm/xfrac_file.py
index c7ab90e..234694c 100755
--- a/src/tools21cm/xfrac_file.py
+++ b/src/tools21cm/xfrac_file.py
@@ -56,9 +56,9 @@ class XfracFile:
 			self.mesh_x, self.mesh_y, self.mesh_z = temp_mesh[1:4]
 
 		if old_format:
-			self.xi = np.fromfile(f, dtype='float32')
+			self.xi = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float32')
 		else:
-			self.xi = np.fromfile(f, dtype='float64')
+			self.xi = np.fromfile(f, count=self.mesh_x*self.mesh_y*self.mesh_z, dtype='float64')
 		self.xi = self.xi.reshape((self.mesh_x, self.mesh_y, self.mesh_z), order='F')
 
 		if neutral:
-- 
2.43.0


From 01f01402a91e953ba14ebe8596510a7672df2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 061/141] fix: SourceFile reads both mass columns

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index c7c85bc..2c04b8d 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -67,7 +67,7 @@ class SourceFile:
             idx = 2*i+1
             text = lines[idx].split()
             self.sources_list[i,:3] = np.array(text[:3], dtype=int)-1
-            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(float(text[idx_mass]))) # Msun
+            self.sources_list[i,3:] = np.power(10, conv.gridmass_to_msol(np.array([float(text[m]) for m in np.atleast_1d(idx_mass)]))) # Msun
 
         print_msg('...done')
 
-- 
2.43.0


From df76a36a288c5c0c5e4038009b528ae96e787fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 062/141] fix: SourceFile writes the linear grid masses that it
 reads

---
 src/tools21cm/source_file.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index 2c04b8d..e49c89b 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -117,40 +117,30 @@ class SourceFile:
 
                 # Determine which column contains the mass for writing
                 # This depends on how sources_list was populated (by read_from_file or manually).
-                # The original file format has coordinates as 1-indexed integers and log10 of grid mass.
-                
-                # Default to 'hm' column if self.mass is 'hm' or not specified,
-                # otherwise 'lm' column if self.mass is 'lm'.
-                # If self.sources_list has 5 columns, it means both hm and lm are stored.
-                # We need to decide which one to write back to the file format.
-                # Assuming the original file structure implies a single mass value per source line.
-                # Let's prioritize writing the 'hm' mass if available (index 3 for 5-col array).
+                # The file format has coordinates as 1-indexed integers followed by the
+                # high-mass and low-mass source masses in grid masses.
 
                 for i in range(nr_src):
                     # Convert coordinates back to 1-indexed integers for writing
                     x, y, z = self.sources_list[i,:3].astype(int) + 1 
                     
-                    # Get the mass value(s) in Msun
-                    current_mass_msun = None
+                    # Get the high-mass and low-mass values in Msun
                     if self.sources_list.shape[1] == 5: # (x, y, z, hm_mass, lm_mass)
-                        # Decide which mass to write back: if self.mass is specified use that, else default to hm
-                        if self.mass == 'lm':
-                            current_mass_msun = self.sources_list[i,4] # Use lm_mass
-                        else: # self.mass is 'hm' or default
-                            current_mass_msun = self.sources_list[i,3] # Use hm_mass
+                        mass_hm, mass_lm = self.sources_list[i,3:]
                     elif self.sources_list.shape[1] == 4: # (x, y, z, mass) for hm or lm
-                        current_mass_msun = self.sources_list[i,3]
+                        if self.mass == 'lm':
+                            mass_hm, mass_lm = 0.0, self.sources_list[i,3]
+                        else:
+                            mass_hm, mass_lm = self.sources_list[i,3], 0.0
                     else:
                         raise ValueError("Unexpected sources_list shape. Expected 4 or 5 columns.")
 
-                    # Convert Msun back to log10 of grid mass as expected by the file format
-                    # Ensure it's not log10(0) if mass is 0, to avoid errors.
-                    log10_grid_mass = conv.gridmass_to_msol(current_mass_msun) if current_mass_msun > 0 else -99.0 # Use a placeholder for zero mass
+                    # Convert Msun back to grid mass as expected by the file format
+                    msol_per_grid_mass = conv.M_grid*const.solar_masses_per_gram
 
-                    # Write each source line: x y z log10(grid_mass)
-                    # The original file format has two lines per source, the first is coordinates and log10 grid mass
-                    # and the second is empty. Let's replicate this based on the original parsing logic that does `lines[2*i+1]`
-                    f.write(f"{x} {y} {z} {log10_grid_mass:.6f}\n") # Using .6f for precision
+                    # The file format has two lines per source, the first is coordinates and masses
+                    # and the second is empty, see the parsing logic that does `lines[2*i+1]`
+                    f.write(f"{x} {y} {z} {mass_hm/msol_per_grid_mass:.16e} {mass_lm/msol_per_grid_mass:.16e}\n")
                     f.write("\n") # Empty line as per typical C2Ray source file format
 
             print_msg('...done')
-- 
2.43.0


From a893acfefb27f9a432fd790a3adff511864fd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 063/141] fix: read_21cmfast_files works without the removed
 numpy.fromstring mode

---
 src/tools21cm/read_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 62538df..e4608bc 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -17,7 +17,7 @@ def _load_binary_data(filename, dtype=np.float32):
 	f = open(filename, "rb") 
 	data = f.read() 
 	f.close() 
-	_data = np.fromstring(data, dtype) 
+	_data = np.frombuffer(data, dtype).copy() 
 	if sys.byteorder == 'big':
 		_data = _data.byteswap()
 	return _data 
-- 
2.43.0


From 6e21daa114999e6ff22c46da1a0ca20b525e730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 064/141] fix: read_c2ray_files reads velocity files

---
 src/tools21cm/read_files.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index e4608bc..1cc53ce 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -57,9 +57,8 @@ def read_c2ray_files(filename, file_type='xfrac', density_file=None):
 		out = dens.astype(np.float64)
 	elif file_type=='vel':
 		assert density_file is not None
-		dfile = density_file.DensityFile(density_file)
-		vel_file = vel_file.VelocityFile(filename)
-		out = vel_file.get_kms_from_density(dfile)
+		vfile = vel_file.VelocityFile(filename)
+		out = vfile.get_kms_from_density(density_file)
 	return out
 
 def read_grizzly_files(filename):
-- 
2.43.0


From aa7c3cc61b83ab62826a0c38d6cbe855e77e6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 065/141] fix: get_mesh_size returns the three mesh sizes of
 temperature files

---
 src/tools21cm/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index a661d03..28ed9bf 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -436,7 +436,7 @@ def get_mesh_size(filename):
                 temp_mesh = np.fromfile(f, count=6, dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'temper':
-                temp_mesh = np.fromfile(f,count=3,dtype='int32')
+                temp_mesh = np.fromfile(f,count=6,dtype='int32')
                 mesh_size = temp_mesh[1:4]
         elif datatype == 'density':
                 mesh_size = np.fromfile(f,count=3,dtype='int32')
-- 
2.43.0


From 7bd7ba3fffee3da7a048581b6e28fc244194908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 066/141] fix: read_cbin honours the number of dimensions

---
 src/tools21cm/helper_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/helper_functions.py b/src/tools21cm/helper_functions.py
index 28ed9bf..9487400 100755
--- a/src/tools21cm/helper_functions.py
+++ b/src/tools21cm/helper_functions.py
@@ -182,8 +182,8 @@ def read_cbin(filename, bits=32, order='C', dimensions=3, records=False):
 
         counter=dimensions+3 if records else dimensions 
         header = np.fromfile(f, count=counter, dtype='int32')
-        if records: temp_mesh=header[1:4]
-        else: temp_mesh=header[0:3]
+        if records: temp_mesh=header[1:dimensions+1]
+        else: temp_mesh=header[0:dimensions]
         
         datatype = np.float32 if bits == 32 else np.float64
         data = np.fromfile(f, dtype=datatype, count=np.prod(temp_mesh))
-- 
2.43.0


From d1c1fa8097a5415e0068a82f218eaa1348bcd9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 067/141] fix: angular momenta of haloes may be negative

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 344066a..dc2997d 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -242,7 +242,7 @@ class HaloCubeP3MFull:
 						halo.pos    = self._reposition(np.array([float(i) for i in vals[:3]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.pos_cm = self._reposition(np.array([float(i) for i in vals[3:6]]) * self.box_len / self.nbox_fine) # same units as box_len
 						halo.vel = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[6:9]]), z=self.z)	# km/s
-						halo.l   = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+						halo.l   = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[9:12]]), z=self.z)) * conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 						halo.vel_disp = conv.gridvel_to_kms(gridvel=np.array([float(i) for i in vals[12:15]]), z=self.z)	# km/s
 						halo.m  = 10**(conv.gridmass_to_msol(float(vals[16]))) * const.h # Msun/h
 						halo.mp = float(vals[17])
@@ -406,7 +406,7 @@ class HaloCubeP3M:
 					halo.r = conv.gridpos_to_mpc(halo.r) * const.h 				# Mpc/h
 					halo.pos_cm = self._reposition(pos=conv.gridpos_to_mpc(halo.pos_cm) * const.h)	# Mpc/h
 					halo.vel = conv.gridvel_to_kms(gridvel=halo.vel, z=self.z)	# km/s
-					halo.l = 10**(conv.gridmass_to_msol(conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)))) * const.h * const.h # Msun/h * Mpc/h * km/s
+					halo.l = conv.gridpos_to_mpc(conv.gridvel_to_kms(gridvel=halo.l, z=self.z)) * conv.M_grid*const.solar_masses_per_gram * const.h * const.h # Msun/h * Mpc/h * km/s
 					halo.vel_disp = conv.gridvel_to_kms(gridvel=halo.vel_disp, z=self.z)	# km/s
 
 				self.halos.append(halo)
-- 
2.43.0


From bfddd91dd1f00fc371c4918cb81c5c38b6e89f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 068/141] fix: HaloRockstar reads at most max_select_number
 haloes

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index dc2997d..d0463da 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -95,7 +95,7 @@ class HaloRockstar:
 				vals = line.split()
 				
 				#Create a halo and add it to the list
-				if(len(self.halos) > max_select_number):
+				if(max_select_number < 0 or len(self.halos) < max_select_number):
 					halo = Halo()
 					halo.pos = np.array(vals[idx_pos:idx_pos+3]).astype(float) #* U.Mpc/self.h
 					halo.vel = np.array(vals[idx_vel:idx_vel+3]).astype(float) #* U.km/U.s
-- 
2.43.0


From 4d9ed7a7598537d10a849af7207ccb8aa259552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 069/141] fix: HaloRockstar refuses unknown file formats

---
 src/tools21cm/halo_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index d0463da..28e1882 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -79,7 +79,7 @@ class HaloRockstar:
 					lnr_part = 6
 					lnr_vals = 19
 				else:
-					ValueError('ERROR: wrong file format (must be .list or .ascii).')
+					raise ValueError('ERROR: wrong file format (must be .list or .ascii).')
 			elif(linenumber == 1):
 				# Store the redshift from the file header
 				a = float(line.split()[-1])
-- 
2.43.0


From c09a57482dfb7fdd67cd6cb83eb78073927c4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 070/141] fix: halo lists accept an upper mass limit of zero

---
 src/tools21cm/halo_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index 28e1882..f3e7a56 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -207,7 +207,7 @@ class HaloCubeP3MFull:
 		tstart = time()
 		
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 				print_msg('Max_select_mass: %g' % max_select_mass)
 				max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
@@ -497,7 +497,7 @@ class HaloList:
 		#Read the file line by line, since it's large
 		linenumber = 1
 		min_select_grid_mass = min_select_mass/(conv.M_grid*const.solar_masses_per_gram)
-		if max_select_mass:
+		if max_select_mass is not None:
 			print_msg('Max_select_mass: %g' % max_select_mass)
 			max_select_grid_mass = max_select_mass/(conv.M_grid*const.solar_masses_per_gram)
 
-- 
2.43.0


From 04014fc49e046f2293b37d2b0ab82d1170ab5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 071/141] fix: HaloRockstar reports when not all haloes were
 read

---
 src/tools21cm/halo_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/halo_list.py b/src/tools21cm/halo_list.py
index f3e7a56..5e55d55 100755
--- a/src/tools21cm/halo_list.py
+++ b/src/tools21cm/halo_list.py
@@ -107,7 +107,8 @@ class HaloRockstar:
 					halo.mp = int(round(halo.m / self.part_mass, 0))
 					self.halos.append(halo)
 				else:
-					break
+					fileinput.close()
+					return False
 		
 		fileinput.close()
 		return True
-- 
2.43.0


From d70ad95d6d185634f2f4e11333dcf6df1766018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 072/141] fix: single-precision grid masses convert to solar
 masses without overflow

---
 src/tools21cm/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/conv.py b/src/tools21cm/conv.py
index ac939b4..5e921bd 100755
--- a/src/tools21cm/conv.py
+++ b/src/tools21cm/conv.py
@@ -104,4 +104,4 @@ def gridmass_to_msol(grid_mass):
 	Returns:
 		The mass in log10(Msol) 
 	'''
-	return np.log10(grid_mass*M_grid*const.solar_masses_per_gram)
+	return np.log10(grid_mass*(M_grid*const.solar_masses_per_gram))
-- 
2.43.0


From b73901a92fe02af86797c45cde787574670f11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 073/141] fix: grid_sources adds up the masses of all sources
 in a cell

---
 src/tools21cm/source_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/source_file.py b/src/tools21cm/source_file.py
index e49c89b..fa6370b 100755
--- a/src/tools21cm/source_file.py
+++ b/src/tools21cm/source_file.py
@@ -84,7 +84,7 @@ class SourceFile:
         # loop over list
         for n in range(self.sources_list.shape[0]):
             i, j, k = self.sources_list[n,:3].astype(int)
-            self.sources_coeval[i,j,k] = self.sources_list[n,3]  # Msun
+            self.sources_coeval[i,j,k] += self.sources_list[n,3:].sum()  # Msun
         
         print_msg('...done')
 
-- 
2.43.0


From 2b3ec027f81155a89ddf21dc3d1efd94b6fa36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 074/141] fix: halo_mass_on_grid uses the halo masses by
 default

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 4a036fe..a1de52f 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -201,6 +201,7 @@ class Halo2Grid:
 		self.mpc_to_cm = 3.085677581491367e+24 # in cm
 		self.Msun_to_g = 1.988409870698051e+33 # in gram
 		self.pos_grid = None
+		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
 		if unit.lower()=='cm':
@@ -256,7 +257,7 @@ class Halo2Grid:
 		if pos is None:
 			print('Provide the halo positions via parameter "pos".')
 			return None
-		mass = kwargs.get('mass', self.pos_grid)
+		mass = kwargs.get('mass', self.mass_Msun)
 		if mass is None:
 			print('Provide the halo masses via parameter "mass".')
 			return None
-- 
2.43.0


From 54aaaa9e0f109e9641f5b3d3c087d2dffe1013fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 075/141] fix: halo grids cover the box and not just the volume
 spanned by the haloes

---
 src/tools21cm/nbody_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index a1de52f..1fb4901 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -249,7 +249,8 @@ class Halo2Grid:
 		# https://docs.scipy.org/doc/scipy/reference/generated/scipy.stats.binned_statistic_dd.html
 		statistic = kwargs.get('statistic', 'sum')
 		bins = kwargs.get('bins', self.n_grid)
-		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins)
+		limits = kwargs.get('range', [[0, self.n_grid]]*3)
+		binned_mass, bin_edges, bin_num = binned_statistic_dd(positions, values, statistic=statistic, bins=bins, range=limits)
 		return binned_mass, bin_edges, bin_num
 	
 	def halo_mass_on_grid(self, **kwargs):
-- 
2.43.0


From f9d82608d8ca58ed3c8c437e7fa0226963423651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 076/141] fix: halo_list_to_grid converts masses, positions and
 box length independently

---
 src/tools21cm/nbody_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 1fb4901..307cfe0 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -310,12 +310,15 @@ def halo_list_to_grid(mass, pos_xyz, box_dim, n_grid):
 	else:
 		print('The provided halo mass is assumed to be in Msun units.')
 		mhalo_msun = mass 
-	if isinstance(mass, astropy.units.quantity.Quantity):
+	if isinstance(pos_xyz, astropy.units.quantity.Quantity):
 		srcpos_mpc = pos_xyz.to('Mpc').value
 	else:
 		print('The provided halo mass is assumed to be in Mpc units.')
 		srcpos_mpc = pos_xyz 
 
+	if isinstance(box_dim, astropy.units.quantity.Quantity):
+		box_dim = box_dim.to('Mpc').value
+
 	hg = Halo2Grid(box_len=box_dim, n_grid=n_grid)
 	hg.set_halo_pos(srcpos_mpc, unit='mpc')
 	hg.set_halo_mass(mhalo_msun, unit='Msun')
-- 
2.43.0


From 0eb7faec3cc931384187e86636b8fbc47a61cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 077/141] fix: M_HI_on_grid accepts masses with units and
 positions without

---
 src/tools21cm/line_intensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/line_intensity.py b/src/tools21cm/line_intensity.py
index 0960084..dd3e648 100755
--- a/src/tools21cm/line_intensity.py
+++ b/src/tools21cm/line_intensity.py
@@ -49,7 +49,7 @@ def M_HI_on_grid(z, mass, pos_xyz, box_dim, n_grid, cosmo=None,
     else:
         print('The provided halo mass is assumed to be in Msun units.')
         mhalo = mass*units.Msun
-    if isinstance(mass, units.quantity.Quantity):
+    if isinstance(pos_xyz, units.quantity.Quantity):
         srcpos = pos_xyz.to('Mpc')
     else:
         print('The provided halo mass is assumed to be in Mpc units.')
-- 
2.43.0


From 6f31a2239a62b61f86881d6877cb94f34589231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 078/141] fix: halo_mass_to_particle_number returns a particle
 number

---
 src/tools21cm/nbody_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/nbody_tools.py b/src/tools21cm/nbody_tools.py
index accddf3..1f20242 100755
--- a/src/tools21cm/nbody_tools.py
+++ b/src/tools21cm/nbody_tools.py
@@ -38,7 +38,7 @@ def ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo='Planck18'):
 
 def halo_mass_to_particle_number(Lbox, halo_mass, particles_in_halo, cosmo='Planck18'):
     particle_mass = halo_mass/particles_in_halo
-    return particle_number_to_particle_mass(Lbox, particle_mass, cosmo=cosmo)
+    return ParticleMass_to_ParticleNumber(Lbox, particle_mass, cosmo=cosmo)
 
 def particle_number_to_particle_mass(Lbox, particle_each_direction=None, particle_total=None, cosmo='Planck18'):
     particle_number = particle_each_direction if particle_each_direction is not None else np.cbrt(particle_total)
-- 
2.43.0


From 2c92e6d18d0dd8900fa323ccbec23545a1ef27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 079/141] fix: set_halo_pos takes positions in grid units by
 default

---
 src/tools21cm/nbody_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/nbody_file.py b/src/tools21cm/nbody_file.py
index 307cfe0..66224e0 100755
--- a/src/tools21cm/nbody_file.py
+++ b/src/tools21cm/nbody_file.py
@@ -204,6 +204,7 @@ class Halo2Grid:
 		self.mass_Msun = None
 
 	def set_halo_pos(self, pos, unit=None):
+		if unit is None: unit = 'grid'
 		if unit.lower()=='cm':
 			self.pos_cm_to_grid(pos) 
 		elif unit.lower()=='mpc':
-- 
2.43.0


From a115a732f309e28cae24b485dfe352b65af58056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 080/141] fix: Muv_to_muv adds magnitudes to magnitudes

---
 src/tools21cm/astro_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 84d8e1e..4cdb936 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -88,8 +88,8 @@ def Muv_to_muv(Muv, z, cosmo=None):
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
     if isinstance(Muv, (int,float)): Muv *= units.mag
-    Kcorrection = 2.5 * np.log10(1 + z) 
-    m_uv = Muv + cosmo.distmod(z).value - Kcorrection
+    Kcorrection = 2.5 * np.log10(1 + z) * units.mag
+    m_uv = Muv + cosmo.distmod(z) - Kcorrection
     return m_uv
 
 
-- 
2.43.0


From a73699c7a0e4090150a41a5753787c7e663798bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 081/141] fix: Muv_to_L1500 uses its argument

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 4cdb936..94e2440 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -145,7 +145,7 @@ def Muv_to_L1500(M_AB):
     This conversion is based on the AB magnitude system, where a magnitude of M_AB = 34.1 corresponds 
     to a luminosity of 10^34.1 erg/s/Hz.
     '''
-    if isinstance(Muv, (int,float)): Muv *= units.mag
+    if isinstance(M_AB, (int,float)): M_AB *= units.mag
     SI2cgs = 1e7  # 1 W/Hz = 1e7 erg/s/Hz
     L1500 = SI2cgs * 10.**((34.1 - M_AB.to('mag').value)/2.5) * units.erg/units.s/units.Hz
     return L1500
-- 
2.43.0


From 341b5d78d797aac0b6b2a8836fb3267d83d24107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 082/141] fix: FoV_cMpc2 takes plain numbers as square degrees,
 as documented

---
 src/tools21cm/astro_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/astro_tools.py b/src/tools21cm/astro_tools.py
index 94e2440..874a25f 100755
--- a/src/tools21cm/astro_tools.py
+++ b/src/tools21cm/astro_tools.py
@@ -30,7 +30,7 @@ def FoV_cMpc2(FoV, redshift, cosmo=None):
     if cosmo is None:
         cosmo = Planck18
         print('Assuming Planck 2018 cosmology.')
-    if isinstance(FoV,(int,float)): FoV *= units.rad**2
+    if isinstance(FoV,(int,float)): FoV *= units.deg**2
     D = cosmo.comoving_distance(redshift)
     FoV_cMpc2 = FoV.to('rad2').value * D**2
     return FoV_cMpc2
-- 
2.43.0


From 11110372765c9321fbf2446ba0ceb319afe72a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 083/141] fix: coeval cubes come from the files with the
 closest redshifts, in whatever order they are listed

---
 src/tools21cm/usefuls.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 7a54b32..3cdaa26 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -20,6 +20,13 @@ def Mgrid_2_Msolar(M):
 def Msolar_2_Mgrid(M):
 	return M/(conv.M_grid*const.solar_masses_per_gram)
 
+def _bracket(zs, z):
+	"""
+	The positions of the files with the closest redshifts below and above z.
+	"""
+	low, high = np.flatnonzero(zs<z), np.flatnonzero(zs>z)
+	return low[zs[low].argmax()], high[zs[high].argmin()]
+
 def get_zs_list(xfrac_dir, file_type='/xfrac3d_*.bin'):
 	"""
 	xfrac_dir: Provide the directory whic contains all the data with redshift values in the name.
@@ -62,12 +69,12 @@ def coeval_xfrac(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = xfrac_file.XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = xfrac_file.XfracFile(xfrac_files[np.flatnonzero(z==xfrac_zs)[0]]).xi
 	else:
-		z_l = xfrac_zs[xfrac_zs<z].max()
-		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = xfrac_file.XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		l, h = _bracket(xfrac_zs, z)
+		z_l, z_h = xfrac_zs[l], xfrac_zs[h]
+		xfrac_l = xfrac_file.XfracFile(xfrac_files[l]).xi
+		xfrac_h = xfrac_file.XfracFile(xfrac_files[h]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using", interpolation, "interpolation.")
 	return xfrac
@@ -84,12 +91,12 @@ def coeval_dens(dens_dir, z, interpolation='linear'):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.flatnonzero(z==dens_zs)[0]])
 	else:
-		z_l = dens_zs[dens_zs<z].max()
-		z_h = dens_zs[dens_zs>z].min()
-		dens_l, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		l, h = _bracket(dens_zs, z)
+		z_l, z_h = dens_zs[l], dens_zs[h]
+		dens_l, dtype = helper_functions.get_data_and_type(dens_files[l])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[h])
 		dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		print("The density cube has been interpolated using", interpolation, "interpolation.")
 	return dens.astype(np.float64)
@@ -122,12 +129,13 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 		vel = vel_file.get_kms_from_density(dfile)
 		return vel
 	if z in vel_zs:
-		vel = get_vel(vel_files[np.argwhere(z==vel_zs)],dens_files[np.argwhere(z==vel_zs)])
+		i = np.flatnonzero(z==vel_zs)[0]
+		vel = get_vel(vel_files[i],dens_files[i])
 	else:
-		z_l = vel_zs[vel_zs<z].max()
-		z_h = vel_zs[vel_zs>z].min()
-		vel_l = get_vel(vel_files[vel_zs[vel_zs<z].argmax()],dens_files[vel_zs[vel_zs<z].argmax()])
-		vel_h = get_vel(vel_files[vel_zs[vel_zs>z].argmin()],dens_files[vel_zs[vel_zs>z].argmin()])
+		l, h = _bracket(vel_zs, z)
+		z_l, z_h = vel_zs[l], vel_zs[h]
+		vel_l = get_vel(vel_files[l],dens_files[l])
+		vel_h = get_vel(vel_files[h],dens_files[h])
 		vel = vel_h + (vel_l-vel_h)*(z-z_h)/(z_l-z_h)
 		print("The velocity cube has been interpolated using", interpolation, "interpolation.")
 	return vel
-- 
2.43.0


From da1bf93ebd7d0f053f799faa95015f648cb3acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 084/141] fix: coeval_vel reads velocity files

---
 src/tools21cm/usefuls.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index 3cdaa26..ea765f7 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -123,10 +123,10 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
-	def get_vel(vel_file, dens_file):
-		dfile = density_file.DensityFile(dens_file)
-		vel_file = vel_file.VelocityFile(vel_file)
-		vel = vel_file.get_kms_from_density(dfile)
+	def get_vel(vel_name, dens_name):
+		dfile = density_file.DensityFile(dens_name)
+		vfile = vel_file.VelocityFile(vel_name)
+		vel = vfile.get_kms_from_density(dfile)
 		return vel
 	if z in vel_zs:
 		i = np.flatnonzero(z==vel_zs)[0]
-- 
2.43.0


From 7fe405ed4a123ce1ef6f5131bcd7b2d78e6d4d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 085/141] fix: coeval_vel divides by the density of the same
 redshift

---
 src/tools21cm/usefuls.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools21cm/usefuls.py b/src/tools21cm/usefuls.py
index ea765f7..b710a74 100755
--- a/src/tools21cm/usefuls.py
+++ b/src/tools21cm/usefuls.py
@@ -123,6 +123,8 @@ def coeval_vel(dens_dir, vel_dir, z, interpolation='linear'):
 	vel_files  = glob.glob(vel_dir + '/*v_all.dat')
 	vel_zs     = None
 	vel_zs     = lightcone._get_file_redshifts(vel_zs, vel_files)
+	dens_zs    = lightcone._get_file_redshifts(None, dens_files)
+	dens_files = [dens_files[np.abs(dens_zs-vz).argmin()] for vz in vel_zs]
 	def get_vel(vel_name, dens_name):
 		dfile = density_file.DensityFile(dens_name)
 		vfile = vel_file.VelocityFile(vel_name)
-- 
2.43.0


From 4980f1e365aee4dae9b2ae59df9becd0f684eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:55 +0000
Subject: [PATCH 086/141] fix: C2Ray coeval cubes come from the files with the
 closest redshifts, in whatever order they are listed

---
 src/tools21cm/read_files.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 1cc53ce..8ee6850 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -72,6 +72,13 @@ def read_grizzly_files(filename):
 	return XfracFile(filename).xi
 
 
+def _bracket(zs, z):
+	"""
+	The positions of the files with the closest redshifts below and above z.
+	"""
+	low, high = np.flatnonzero(zs<z), np.flatnonzero(zs>z)
+	return low[zs[low].argmax()], high[zs[high].argmin()]
+
 def coeval_21cm_c2ray(xfrac_dir, dens_dir, z, interpolation='linear', mean_subtract=False):
 	"""
 	Parameters
@@ -119,12 +126,12 @@ def coeval_xfrac_c2ray(xfrac_dir, z, interpolation='linear'):
 	xfrac_zs = None
 	xfrac_zs = lightcone._get_file_redshifts(xfrac_zs, xfrac_files)
 	if z in xfrac_zs:
-		xfrac = XfracFile(xfrac_files[np.argwhere(z==xfrac_zs)]).xi
+		xfrac = XfracFile(xfrac_files[np.flatnonzero(z==xfrac_zs)[0]]).xi
 	else:
-		z_l = xfrac_zs[xfrac_zs<z].max()
-		z_h = xfrac_zs[xfrac_zs>z].min()
-		xfrac_l = XfracFile(xfrac_files[xfrac_zs[xfrac_zs<z].argmax()]).xi
-		xfrac_h = XfracFile(xfrac_files[xfrac_zs[xfrac_zs>z].argmin()]).xi
+		l, h = _bracket(xfrac_zs, z)
+		z_l, z_h = xfrac_zs[l], xfrac_zs[h]
+		xfrac_l = XfracFile(xfrac_files[l]).xi
+		xfrac_h = XfracFile(xfrac_files[h]).xi
 		xfrac = xfrac_h + (xfrac_l-xfrac_h)*(z-z_h)/(z_l-z_h)
 		print("The xfrac cube has been interpolated using %s interpolation." %interpolation)
 		print("CAUTION: This data should be used with care.")
@@ -147,12 +154,14 @@ def coeval_dens_c2ray(dens_dir, z):
 	dens_zs  = None
 	dens_zs  = lightcone._get_file_redshifts(dens_zs, dens_files)
 	if z in dens_zs:
-		dens, dtype = helper_functions.get_data_and_type(dens_files[np.argwhere(z==dens_zs)])
+		dens, dtype = helper_functions.get_data_and_type(dens_files[np.flatnonzero(z==dens_zs)[0]])
 	else:
 		#z_l = dens_zs[dens_zs<z].max()
-		z_h = dens_zs[dens_zs>z].min()
+		high = np.flatnonzero(dens_zs>z)
+		h = high[dens_zs[high].argmin()]
+		z_h = dens_zs[h]
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
-		dens_h, dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs>z].argmin()])
+		dens_h, dtype = helper_functions.get_data_and_type(dens_files[h])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
 		dens = dens_h*(1+z_h)**3/(1+z)**3
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-- 
2.43.0


From c95c3e4cb33b9d9ec795cf664dca27b045119e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 087/141] fix: the comoving density of the previous C2Ray
 snapshot is not scaled with redshift

---
 src/tools21cm/read_files.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index 8ee6850..ae81c4b 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -159,13 +159,12 @@ def coeval_dens_c2ray(dens_dir, z):
 		#z_l = dens_zs[dens_zs<z].max()
 		high = np.flatnonzero(dens_zs>z)
 		h = high[dens_zs[high].argmin()]
-		z_h = dens_zs[h]
 		#dens_l,dtype = helper_functions.get_data_and_type(dens_files[dens_zs[dens_zs<z].argmax()])
 		dens_h, dtype = helper_functions.get_data_and_type(dens_files[h])
 		#dens = dens_h + (dens_l-dens_h)*(z-z_h)/(z_l-z_h)
-		dens = dens_h*(1+z_h)**3/(1+z)**3
+		dens = dens_h
 		#print("The density cube has been interpolated using %s interpolation."%interpolation)
-		print("The density has been scaled from the density at the previous time.")
+		print("The comoving density of the previous time is used.")
 	return dens.astype(np.float64)
 
 	
-- 
2.43.0


From 89379d3b65e8822865f78f0d02ee6ed6da65acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 088/141] fix: uv maps with an odd number of cells have the
 zero frequency in the first cell

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index ed23305..b9f6b82 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -265,7 +265,7 @@ def grid_uv_tracks(Nbase, z, ncells, boxsize=None, include_mirror_baselines=Fals
         # uv_map += np.flip(np.flip(uv_map, axis=0), axis=1)  # Flip along both axes for mirror effect
         uv_map = uv_map/2.  # Average with mirrored baselines
     
-    return np.fft.fftshift(uv_map)
+    return np.fft.ifftshift(uv_map)
 
 def geographic_to_cartesian_coordinate_system(antll):
     """
-- 
2.43.0


From 7350ba111955edab8efdfcff6d6348cef9321edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 089/141] fix: geographic coordinates of antennas are computed
 for positions with and without units

---
 src/tools21cm/radio_telescope_layout.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index b9f6b82..a6ad3a0 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -294,7 +294,7 @@ def geographic_to_cartesian_coordinate_system(antll):
     """
     Re = 6371. * u.km  # Earth's radius
     if not isinstance(antll, u.quantity.Quantity):
-        antll *= u.deg
+        antll = antll*u.deg
     lon = antll[:, 0] 
     lat = antll[:, 1] 
 
@@ -337,8 +337,8 @@ def cartesian_to_geographic_coordinate_system(antxyz):
     Re = 6371. * u.km  # Earth's radius
 
     # Extract Cartesian coordinates and attach units
-    if isinstance(antxyz, u.quantity.Quantity):
-        antxyz *= u.m
+    if not isinstance(antxyz, u.quantity.Quantity):
+        antxyz = antxyz*u.m
     x = antxyz[:, 0]
     y = antxyz[:, 1]
     z = antxyz[:, 2]
-- 
2.43.0


From 0cc63e0f7f717879b7fa54d9b3b9505856d497d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 090/141] fix: the cut at the maximum baseline is centred on
 the zero frequency

---
 src/tools21cm/radio_telescope_noise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 7f20458..6daee30 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -614,12 +614,10 @@ def get_uv_map(ncells, z, subarray_type="AA4", total_int_time=6., int_time=10.,
 	uv_map, N_ant  = get_uv_daily_observation(ncells, z, antxyz, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination, include_mirror_baselines=include_mirror_baselines, verbose=verbose)
 	if max_baseline is not None:
 		kcut = max_baseline_to_max_k(z, max_baseline)
-		kk = np.linspace(-ncells/2, ncells/2, ncells) * np.pi / boxsize
+		kk = np.fft.fftfreq(ncells, 1/ncells) * np.pi / boxsize
 		kx, ky = np.meshgrid(kk, kk)
 		ksq = kx**2 + ky**2
-		uv_map_shift = np.fft.fftshift(uv_map)
-		uv_map_shift[ksq>kcut**2] = 0.0
-		uv_map = np.fft.fftshift(uv_map_shift)
+		uv_map[ksq>kcut**2] = 0.0
 	return uv_map, N_ant
 
 def make_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int_time=10., boxsize=None, declination=-30., verbose=True):
-- 
2.43.0


From 532b0443cb5543e8b0b712d1fe37d9a4b99ed1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 091/141] fix: uv maps with gains and antenna stamps follow the
 Earth rotation of the observation

---
 src/tools21cm/radio_telescope_calibration.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 1bc88e5..a7edaf1 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -172,7 +172,7 @@ def get_uv_map_with_gains(ncells, z,
             Nbase, N_ant = from_antenna_config_with_gains(antxyz, z, gain_model=gain_model)
 
         # Apply incremental rotation for the time step
-        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:,:3], time_idx+1, int_time, total_int_time, declination)
 
         # Grid the rotated baselines with gain values
         _grid_uv_tracks_with_gains(rotated_Nbase, Nbase[:,3:], gain_uv_map, z, ncells,
@@ -392,7 +392,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_map_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -404,7 +404,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
 
     return ant_tag_uv_map, N_ant
 
-def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Process a chunk of time slices.
 
@@ -449,7 +449,7 @@ def _process_chunk_get_full_uv_map_with_antenna_stamp(chunk_start, chunk_end, nc
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx+1, int_time, total_int_time, declination)
         _grid_uv_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
@@ -591,7 +591,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     # Parallel processing with progress bar for the first chunk
     results = Parallel(n_jobs=n_jobs)(
         delayed(_process_chunk_get_full_uv_lagrangian_with_antenna_stamp)(
-            chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
+            chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress=(i == 0))
             for i, (chunk_start, chunk_end) in enumerate(chunks)
     )
 
@@ -604,7 +604,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
     ant_pairs = Nbase[:,-2:]
     return ant_tag_uv_lagr, ant_pairs
 
-def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
+def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_end, ncells, z, Nbase, int_time, total_int_time, declination, boxsize, include_mirror_baselines, verbose, show_progress):
     """
     Processes a chunk of observation time slices for parallel computation.
 
@@ -650,7 +650,7 @@ def _process_chunk_get_full_uv_lagrangian_with_antenna_stamp(chunk_start, chunk_
         time_indices = tqdm(time_indices, desc="Gridding uv tracks", disable=not verbose)
 
     for time_idx in time_indices:
-        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx, int_time, declination)
+        rotated_Nbase = earth_rotation_effect(Nbase[:, :3], time_idx+1, int_time, total_int_time, declination)
         _grid_uv_lagrangian_tracks_with_antenna_stamp(rotated_Nbase, Nbase[:, 3:], ant_tag_uv_map_chunk, z, ncells, time_idx - chunk_start,
                                           boxsize=boxsize, include_mirror_baselines=include_mirror_baselines)
 
-- 
2.43.0


From 0e9122084b25a27588a4c84bf19bf295818e3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 092/141] fix: antenna stamp maps work with fewer integrations
 than processors

---
 src/tools21cm/radio_telescope_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index a7edaf1..3c102e5 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -386,7 +386,7 @@ def get_full_uv_map_with_antenna_stamp(ncells, z, subarray_type="AA4", total_int
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
@@ -585,7 +585,7 @@ def get_full_uv_lagrangian_with_antenna_stamp(ncells, z, subarray_type="AA4", to
         print(f"Starting UV map generation on {n_jobs} CPUs...")
 
     # Split the workload into chunks
-    chunk_size = total_observations // n_jobs
+    chunk_size = max(1, total_observations // n_jobs)
     chunks = [(i, min(i + chunk_size, total_observations)) for i in range(0, total_observations, chunk_size)]
 
     # Parallel processing with progress bar for the first chunk
-- 
2.43.0


From 25f27aa94ae96d05f663c5d29bd2154a207ba270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 093/141] fix: uv positions are stored with the antenna pair
 they belong to

---
 src/tools21cm/radio_telescope_calibration.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/radio_telescope_calibration.py b/src/tools21cm/radio_telescope_calibration.py
index 3c102e5..d0867a7 100755
--- a/src/tools21cm/radio_telescope_calibration.py
+++ b/src/tools21cm/radio_telescope_calibration.py
@@ -709,12 +709,11 @@ def _grid_uv_lagrangian_tracks_with_antenna_stamp(Nbase, ant_tag, ant_tag_uv_map
         (Nb[:, 0] >= -ncells / 2) & (Nb[:, 1] >= -ncells / 2)
     )
     ant_tag1, ant_tag2 = ant_tag[:,0], ant_tag[:,1]
+    baselines = np.flatnonzero(in_bounds)
     Nb, ant_tag1, ant_tag2 = Nb[in_bounds], ant_tag1[in_bounds], ant_tag2[in_bounds]
     
-    count = 0
-    for (x, y), ant1, ant2 in zip(Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
-        ant_tag_uv_map[time_idx, count, 0] = x
-        ant_tag_uv_map[time_idx, count, 1] = y
-        count += 1
+    for ii, (x, y), ant1, ant2 in zip(baselines, Nb[:, :2].astype(int), ant_tag1.astype(int), ant_tag2.astype(int)):
+        ant_tag_uv_map[time_idx, ii, 0] = x
+        ant_tag_uv_map[time_idx, ii, 1] = y
         if include_mirror_baselines:
             print('include_mirror_baselines is not implemented yet.')
\ No newline at end of file
-- 
2.43.0


From cb05d1fc1237de35059f8254b3ebc37816b59145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:13 +0000
Subject: [PATCH 094/141] fix: the Earth rotation of a single baseline keeps
 its shape

---
 src/tools21cm/radio_telescope_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_layout.py b/src/tools21cm/radio_telescope_layout.py
index a6ad3a0..1ea2d35 100755
--- a/src/tools21cm/radio_telescope_layout.py
+++ b/src/tools21cm/radio_telescope_layout.py
@@ -143,7 +143,7 @@ def earth_rotation_effect(Nbase, slice_nums, int_time, total_int_time, declinati
     new_Nbase[:, :, 2] = (cos_delta * cos_HA[:, None] * Nbase[:, 0] -
                           cos_delta * sin_HA[:, None] * Nbase[:, 1] + sin_delta * Nbase[:, 2])
     
-    return new_Nbase.squeeze() if len(slice_nums) == 1 else new_Nbase
+    return new_Nbase[0] if len(slice_nums) == 1 else new_Nbase
 
 def get_uv_daily_observation(ncells, z, antxyz=None, total_int_time=4., int_time=10., boxsize=None, declination=-30., include_mirror_baselines=False, verbose=True):
     """
-- 
2.43.0


From 86a0c10360cf36505859985a2634bca82481ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 095/141] fix: get_SEFD accepts a number for the system
 temperature and the efficiency

---
 src/tools21cm/radio_telescope_sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_sensitivity.py b/src/tools21cm/radio_telescope_sensitivity.py
index ab00297..307fcda 100755
--- a/src/tools21cm/radio_telescope_sensitivity.py
+++ b/src/tools21cm/radio_telescope_sensitivity.py
@@ -90,7 +90,7 @@ def get_SEFD(nu_obs, T_sys=None, sefd_data=None, nu_data=None, D_station=40., ep
 	A_eff = ep_aperture_val * np.pi * ant_radius_ska ** 2  # m^2
 
 	# SEFD in Jy
-	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt  # Jy
+	sefd = 2 * KB_SI * T_sys_val / A_eff / janskytowatt * np.ones(nu_obs.shape)  # Jy
 
 	# Return a scalar if input was scalar
 	return sefd[0] if nu_obs.size == 1 else sefd
-- 
2.43.0


From 7cbc5706057985a16e74a23896c8d57cfa2eca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 096/141] fix: the taper of the noise map is centred on the
 zero frequency

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 6daee30..03796ee 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -391,7 +391,7 @@ def noise_map(ncells, z, depth_mhz, obs_time=1000, subarray_type="AA4", boxsize=
 	noise_four = apply_uv_response_noise(noise_arr, uv_map, boxsize=boxsize, uv_weighting=uv_weighting, suppress_sharp_features_uv_map=suppress_sharp_features_uv_map)
 	# noise_four = apply_uv_response_noise_briggs(noise_arr, uv_map, robust=2.0, epsilon=1e-6)
 	win_2d = signal_window(ncells, 'blackmanharris', ndim=2)
-	noise_four = noise_four*np.fft.fftshift(win_2d)
+	noise_four = noise_four*np.fft.ifftshift(win_2d)
 	if fft_wrap: noise_map  = ifft2_wrap(noise_four)*np.sqrt(int_time/3600./obs_time)
 	else: noise_map  = np.fft.ifft2(noise_four)*np.sqrt(int_time/3600./obs_time)
 	return np.real(noise_map)
-- 
2.43.0


From 6c0a47d9196f9ddd6cd8a080585c9a1f0f9fbebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 097/141] fix: noise_cube_lightcone passes its arguments in
 order

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 03796ee..0d736ef 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -759,7 +759,7 @@ def noise_cube_lightcone(ncells, z, obs_time=1000, subarray_type="AA4", boxsize=
 
 	# This function body is very similar to `noise_lightcone`. Consider refactoring.
 	return noise_lightcone(ncells, zs, obs_time, subarray_type, boxsize, save_uvmap, 
-						total_int_time, int_time, declination, N_ant, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
+						total_int_time, int_time, declination, uv_weighting, fft_wrap, verbose, n_jobs, checkpoint, 
 						T_sys, sefd_data, nu_data, D_station, ep_aperture,
 						suppress_sharp_features_uv_map)
 
-- 
2.43.0


From 701f5475d55738783470fca380d66fd1dc80002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 098/141] fix: the uv response of a coeval cube has the cells
 of its slices

---
 src/tools21cm/radio_telescope_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 0d736ef..ec7db42 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -670,7 +670,7 @@ def apply_uv_response_on_coeval(array, z, subarray_type="AA4", boxsize=None, tot
 	ncells = array.shape[-1]
 	if boxsize is None: boxsize = conv.LB
 	if uv_map is None: 
-		uv_map, N_ant  = get_uv_map(ncells, z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
+		uv_map, N_ant  = get_uv_map(array.shape[0], z, subarray_type=subarray_type, total_int_time=total_int_time, int_time=int_time, boxsize=boxsize, declination=declination)
 	data3d = np.zeros(array.shape)
 	print("Applying the uv tracks to the the coeval signal cube...")
 	for k in tqdm(range(ncells)):
-- 
2.43.0


From e9e4ee2f692b2b26dd74dd41a8f0261c7fac0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 099/141] fix: the wrapped inverse transform uses integer
 shifts

---
 src/tools21cm/radio_telescope_noise.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index ec7db42..51c8fb7 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -519,11 +519,12 @@ def ifft2_wrap(nn1):
 	"""
 	assert nn1.ndim==2
 	bla0 = np.vstack((nn1,nn1))
-	bla1 = np.roll(bla0, nn1.shape[0]/2, 0)
+	nx, ny = nn1.shape
+	bla1 = np.roll(bla0, nx//2, 0)
 	bla2 = np.hstack((bla1,bla1))
-	bla3 = np.roll(bla2, nn1.shape[1]/2, 1)
+	bla3 = np.roll(bla2, ny//2, 1)
 	imap = np.fft.ifft2(bla3)
-	return imap[nn1.shape[0]/2:-nn1.shape[0]/2,nn1.shape[1]/2:-nn1.shape[1]/2]
+	return imap[nx//2:nx//2+nx,ny//2:ny//2+ny]
 
 def apply_uv_response_on_image(array, uv_map):
 	"""
-- 
2.43.0


From b338c61f7bf6f6282abc860e8b29b205c8f89b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 100/141] fix: the Doppler width of the Lyman-alpha line is
 that of the thermal velocity

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 5b4dedd..0ee9ac2 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -128,7 +128,7 @@ def lyA_scattering_cross_section(nu, Tk):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
@@ -255,7 +255,7 @@ def tau_nu_lyA(z, xHI, Tk, dr, nu=2.46e15*units.Hz, X_H=0.76, cosmo=None):
     a_nu = 4.7e-4/np.sqrt(Tk4) #2004.13065
 
     nuA = 2.46e15 #units.Hz
-    dnu_D = nuA*np.sqrt((constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
+    dnu_D = nuA*np.sqrt((2*constants.k_B*Tk/constants.m_p/constants.c**2).to(''))
     if isinstance(nu, units.quantity.Quantity):
         nu = nu.to('Hz').value
     x_nu = (nu-nuA)/dnu_D
-- 
2.43.0


From 625dc246fa2c2dda03be9bb4521702180315e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 101/141] fix: the Smith et al. (2015) optical depth along the
 line of sight can be computed

---
 src/tools21cm/lyman_alpha_transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 0ee9ac2..c67c845 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -320,9 +320,9 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         Tk = kwargs.get('Tk')
         dr = kwargs.get('dr')
         nu = kwargs.get('nu', 2.46e15*units.Hz)
-        if los_axis!=2: 
+        if los_axis!=2 and np.ndim(Tk)==3: 
             Tk = np.swapaxes(Tk,los_axis,2)
-        tauA = tau_nu_lyA_Smith2015(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
+        tauA = tau_nu_lyA(z, xHI, Tk, dr, nu=nu, X_H=X_H, cosmo=cosmo)
     elif method.lower()=='fgpa':
         f_alpha = kwargs.get('f_alpha', 0.416)
         lambda_alpha = kwargs.get('lambda_alpha', 1216.0*units.Angstrom)
-- 
2.43.0


From 9f2d28cf77f4d3cad1d38a816f2bdcf86a6c0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 102/141] fix: optical depths along other axes belong to the
 cells of the grid

---
 src/tools21cm/lyman_alpha_transmission.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index c67c845..91bc272 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -306,6 +306,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
 
     if los_axis!=2:
         xHI = np.swapaxes(xHI,los_axis,2)
+        dn  = np.swapaxes(dn,los_axis,2)
     
     if not isinstance(los_len, units.quantity.Quantity):
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
@@ -334,4 +335,6 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
     exp_tauA_los = np.array([exp_tauA_padded[:,:,i:i+los_cells].sum(axis=2).T/los_cells for i in tqdm(range(tauA.shape[2]))])
     tauA_los = -np.log(exp_tauA_los)
     tauA_los = np.swapaxes(tauA_los,0,2)
+    if los_axis!=2:
+        tauA_los = np.swapaxes(tauA_los,los_axis,2)
     return tauA_los
-- 
2.43.0


From 3f03e7484c2a98106f79e353be409a93313a4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 103/141] fix: line-of-sight lengths may have other units than
 the box

---
 src/tools21cm/lyman_alpha_transmission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/lyman_alpha_transmission.py b/src/tools21cm/lyman_alpha_transmission.py
index 91bc272..ef30c09 100755
--- a/src/tools21cm/lyman_alpha_transmission.py
+++ b/src/tools21cm/lyman_alpha_transmission.py
@@ -312,7 +312,7 @@ def tau_nu_lyA_los(z, xHI, dn, los_len=30*units.Mpc, box_len=None, los_axis=2, m
         print(f'As a unitless los_len was provided, it is assumed to be number of grids')
         los_cells = los_len
     else:
-        los_cells = int(np.round(los_len*(xHI.shape[0]/box_len)))
+        los_cells = int(np.round((los_len*(xHI.shape[0]/box_len)).to('').value))
 
     if dn.min()>1:
         dn = dn/dn.mean()-1
-- 
2.43.0


From 8dfb61213327761d2b1aae601d900921e1e234e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 104/141] fix: the correlation function works without np.trapz

---
 src/tools21cm/corr_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 99e59a7..7cd6505 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -2,6 +2,7 @@ import numpy as np
 from scipy.interpolate import splrep,splev
 from scipy.spatial import cKDTree
 from tqdm import tqdm
+from .scipy_func import trapz
 from .power_spectrum import power_spectrum_1d, cross_power_spectrum_1d
 from . import conv
 
@@ -27,7 +28,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
 	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
-	corr  = np.trapz(integ, knew, axis=1) 
+	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
 
-- 
2.43.0


From d6a4ffb9c470d8d3aac79e604f769257eb3ffa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 105/141] fix: the kernel of the correlation function is
 sin(kr)/(kr)

---
 src/tools21cm/corr_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 7cd6505..ac4b6c8 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -27,7 +27,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	# pnew = ps_fun(knew)
 	knew, pnew = ks[np.isfinite(ps)], ps[np.isfinite(ps)]
 
-	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None])
+	integ = knew**2*pnew*np.sinc(knew[None,:]*rbins[:,None]/np.pi)
 	corr  = trapz(integ, knew, axis=1) 
 
 	return corr*4*np.pi, rbins
-- 
2.43.0


From 2235cf3a35d65de98756a2cac8c3c055c959ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 106/141] fix: the Landy-Szalay estimator accepts bin edges

---
 src/tools21cm/corr_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index ac4b6c8..6769e01 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -142,6 +142,9 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 			rbins = np.logspace(np.log10(rmin), np.log10(rmax), rbins)
 		else:
 			rbins = np.linspace(rmin, rmax, rbins)
+	else:
+		rbins = np.asarray(rbins)
+		rmax = rbins.max()
 
 	rbin_centers = (rbins[:-1] + rbins[1:]) / 2  # Midpoints of the bins
 
-- 
2.43.0


From 2bada84888e0f85dc1fd120644bf8ddeb3978b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 107/141] fix: the Landy-Szalay estimator counts pairs by their
 distance

---
 src/tools21cm/corr_function.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 6769e01..711fd11 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -154,11 +154,15 @@ def landy_szalay_estimator(data, randoms=None, rbins=10, box_dims=None, binning=
 	data_tree = cKDTree(data)
 	random_tree = cKDTree(randoms)
 
+	def pair_distances(tree, points):
+		pairs = tree.query_pairs(rmax, output_type='ndarray')
+		return np.sqrt(((points[pairs[:,0]]-points[pairs[:,1]])**2).sum(axis=1))
+
 	# Count DD pairs (data-data)
-	DD, _ = np.histogram(data_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	DD, _ = np.histogram(pair_distances(data_tree, data), bins=rbins)
 
 	# Count RR pairs (random-random)
-	RR, _ = np.histogram(random_tree.query_pairs(rmax, output_type='ndarray'), bins=rbins)
+	RR, _ = np.histogram(pair_distances(random_tree, randoms), bins=rbins)
 
 	# Count DR pairs (data-random)
 	DR = np.zeros(len(rbins)-1)
-- 
2.43.0


From c8a42662aa8d21b4062ede2001dc2179d8ad0ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 108/141] fix: the separations of the correlation function
 follow the default box and boxes with several lengths

---
 src/tools21cm/corr_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/corr_function.py b/src/tools21cm/corr_function.py
index 711fd11..a1cdf48 100755
--- a/src/tools21cm/corr_function.py
+++ b/src/tools21cm/corr_function.py
@@ -13,6 +13,7 @@ def ps_to_corr(ps, ks, rbins=10, box_dims=None, n_grid=None, binning='log'):
 	.. math:: \\xi(r) = \\int 4\\pi k^2 P(k) \\mathrm{sinc}(kr)dk
 	'''
 	if isinstance(rbins, (int)): 
+		box_dims = np.min(conv.LB if box_dims is None else box_dims)
 		rbins = 10**np.linspace(np.log10(2*box_dims/n_grid), np.log10(box_dims/2), rbins) if binning=='log' \
 					else np.linspace(2*box_dims/n_grid, box_dims/2, rbins)
 
-- 
2.43.0


From 2aeab4c12ecd0be9a43fffea69323db0d10763d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 109/141] fix: the bispectrum can be computed

---
 src/tools21cm/bispectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 71d0c26..c0fd923 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -109,7 +109,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
@@ -165,7 +165,7 @@ class Bispectrum:
                     ):
         tstart = time()
         input_array_nd = self.input_array.astype(np.float64)
-        input_array = apply_window(input_array, window)
+        input_array_nd = apply_window(input_array_nd, window)
 
         box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
-- 
2.43.0


From b35c0fb796f63b2d338b30b4d632a8fbb750fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 110/141] fix: the bispectrum uses the box it was created with

---
 src/tools21cm/bispectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index c0fd923..1740fd9 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -64,6 +64,7 @@ class Bispectrum:
                         return_n_modes=False,
                         binning='log',
                     ):
+        box_dims = _get_dims(self.box_dims if box_dims is None else box_dims, input_array_fft.shape)
         box_vol = numpy_product(box_dims)
         n_pixel = (numpy_product(input_array_fft.shape)).astype(int)
         
@@ -111,7 +112,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
-        box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
+        box_dims, box_dims_input  = _get_dims(self.box_dims if box_dims is None else box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
         if verbose: print(f'Computing bispectrum with k1,k2={k1:.2f},{k2:.2f} 1/Mpc...')
@@ -167,7 +168,7 @@ class Bispectrum:
         input_array_nd = self.input_array.astype(np.float64)
         input_array_nd = apply_window(input_array_nd, window)
 
-        box_dims, box_dims_input  = _get_dims(box_dims, input_array_nd.shape), box_dims
+        box_dims, box_dims_input  = _get_dims(self.box_dims if box_dims is None else box_dims, input_array_nd.shape), box_dims
         if verbose and box_dims_input is None: print(f'box_dims set to {box_dims} Mpc')
         
         if verbose: print(f'Computing bispectrum with k1=k2=k3...')
-- 
2.43.0


From 278a3c850547d6534263a127fd3417e63795cb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 111/141] fix: the bispectrum of odd grids keeps its modes in
 place

---
 src/tools21cm/bispectrum.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 1740fd9..4e0e556 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -70,16 +70,16 @@ class Bispectrum:
         
         shell1 = self.spherical_shell_mask(input_array_fft.shape, k1, dk1, k_mag=k_mag)
         dfft1  = input_array_fft*shell1
-        s1     = np.fft.ifftn(np.fft.fftshift(shell1))
-        d1     = np.fft.ifftn(np.fft.fftshift(dfft1))
+        s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
+        d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
         if k2==k1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
             dfft2  = input_array_fft*shell2
-            s2     = np.fft.ifftn(np.fft.fftshift(shell2))
-            d2     = np.fft.ifftn(np.fft.fftshift(dfft2))
+            s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
+            d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
         if k3==k1: 
             s3, d3 = s1, d1
@@ -88,8 +88,8 @@ class Bispectrum:
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
             dfft3  = input_array_fft*shell3
-            s3     = np.fft.ifftn(np.fft.fftshift(shell3))
-            d3     = np.fft.ifftn(np.fft.fftshift(dfft3))
+            s3     = np.fft.ifftn(np.fft.ifftshift(shell3))
+            d3     = np.fft.ifftn(np.fft.ifftshift(dfft3))
             
         d123 = np.real(d1*d2*d3)
         s123 = np.real(s1*s2*s3)
-- 
2.43.0


From dbfef784dc0a2de512df10184e6ed80e2bf6ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 112/141] fix: shells of the bispectrum are chosen by the
 length of the wave vector

---
 src/tools21cm/bispectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index 4e0e556..ffc22ae 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -46,7 +46,7 @@ class Bispectrum:
          
     def spherical_shell_mask(self, array_shape, k_center, k_width, k_comp=None, k_mag=None):
         assert k_comp is not None or k_mag is not None
-        if k_mag is None: k_mag = np.sum(np.array(k_comp)**2, axis=0)
+        if k_mag is None: k_mag = np.sqrt(np.sum(np.array(k_comp)**2, axis=0))
         try: out = np.zeros(array_shape)
         except: out = np.zeros((array_shape[0],array_shape[1],array_shape[2]))
         out[np.abs(k_mag-k_center)<k_width/2] = 1
-- 
2.43.0


From f585d9e1457f23977856bf7ffd6aa8ef0192427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 113/141] fix: shells of the bispectrum of equal radius may
 differ in width

---
 src/tools21cm/bispectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index ffc22ae..f0a6dc4 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -73,7 +73,7 @@ class Bispectrum:
         s1     = np.fft.ifftn(np.fft.ifftshift(shell1))
         d1     = np.fft.ifftn(np.fft.ifftshift(dfft1))
         
-        if k2==k1: 
+        if k2==k1 and dk2==dk1: 
             s2, d2 = s1, d1
         else: 
             shell2 = self.spherical_shell_mask(input_array_fft.shape, k2, dk2, k_mag=k_mag)
@@ -81,9 +81,9 @@ class Bispectrum:
             s2     = np.fft.ifftn(np.fft.ifftshift(shell2))
             d2     = np.fft.ifftn(np.fft.ifftshift(dfft2))
             
-        if k3==k1: 
+        if k3==k1 and dk3==dk1: 
             s3, d3 = s1, d1
-        elif k3==k2: 
+        elif k3==k2 and dk3==dk2: 
             s3, d3 = s2, d2
         else: 
             shell3 = self.spherical_shell_mask(input_array_fft.shape, k3, dk3, k_mag=k_mag)
-- 
2.43.0


From 044f15abdf0cbdb6814c1bd0ef06adda59c1ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 114/141] fix: the equilateral bispectrum is that of the wave
 numbers it is returned with

---
 src/tools21cm/bispectrum.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tools21cm/bispectrum.py b/src/tools21cm/bispectrum.py
index f0a6dc4..16ccc7e 100755
--- a/src/tools21cm/bispectrum.py
+++ b/src/tools21cm/bispectrum.py
@@ -176,10 +176,11 @@ class Bispectrum:
         if verbose: print('FFT of data done')
 
         kbins = _get_kbins(n_bins, box_dims, k_mag, binning=binning, kmax=k_mag.max()/2, kmin=None)
-        dk = dk*np.ones_like(kbins) if isinstance(dk,float) else dk
+        ks = kbins[1:]/2+kbins[:-1]/2
+        dk = dk*np.ones_like(ks)
         
         def run_loop(i):
-            k1 = kbins[i]
+            k1 = ks[i]
             dk1 = dk[i]
             b123 = self.bispectrum_fast(input_array_fft,
                             k1, k1, k1,
@@ -193,13 +194,13 @@ class Bispectrum:
             return b123
         
         if n_jobs in [0,1]:
-            B_list = np.array([run_loop(i) for i in tqdm(range(n_bins))])       
+            B_list = np.array([run_loop(i) for i in tqdm(range(len(ks)))])       
         else:
-            B_list = np.array(Parallel(n_jobs=n_jobs)(delayed(run_loop)(i) for i in tqdm(range(n_bins))))
+            B_list = np.array(Parallel(n_jobs=n_jobs)(delayed(run_loop)(i) for i in tqdm(range(len(ks)))))
         
         out_dict = {
             'B': B_list,
-            'k': kbins[1:]/2+kbins[:-1]/2, 
+            'k': ks, 
             }
         
         if verbose: print(f'...done | Runtime: {time()-tstart:.3f} s')
-- 
2.43.0


From d361e6394551a924a155ef6ce53a8fe3e7f61cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:42 +0000
Subject: [PATCH 115/141] fix: Gaussian random fields on odd grids have the
 requested power spectrum

---
 src/tools21cm/gaussian_random_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/gaussian_random_field.py b/src/tools21cm/gaussian_random_field.py
index 2188938..bd2bf58 100755
--- a/src/tools21cm/gaussian_random_field.py
+++ b/src/tools21cm/gaussian_random_field.py
@@ -55,7 +55,7 @@ def make_gaussian_random_field(dims, box_dims, power_spectrum, random_seed=None)
     map_ft *= np.sqrt(power_spectrum(k)/scale_factor)
     
     #Inverse FT
-    map_ift = fftpack.ifftn(fftpack.fftshift(map_ft))
+    map_ift = fftpack.ifftn(fftpack.ifftshift(map_ft))
     
     #Return real part
     map_real = np.real(map_ift)
-- 
2.43.0


From e79245308c1104e91be7e70b9aa4d5a64e3a1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 116/141] fix: the sigmoid primary beam falls with the radius

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 14542cf..9784185 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -97,7 +97,7 @@ def circular_beam(ncells, z, D_station=40., beam_func='Gaussian', boxsize=None,
         beam[center_idx] = 1.0  # Manually set the peak to 1
     elif beam_func.lower()=='sigmoid':
         r0, b = l_null/2., 0.5
-        beam = 1.-1/(1+np.exp(b*r0-b*rr**2**0.5))
+        beam = 1.-1/(1+np.exp(b*r0-b*rr))
     else:
         raise ValueError("Please choose between 'step', 'gaussian', 'bessel', and 'sigmoid' for beam_func.")
     
-- 
2.43.0


From f00d6491cf3c6466a7048ac51db39bffd383fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 117/141] fix: the primary beam of an image uses the given null

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 9784185..8f13916 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -36,7 +36,7 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 		boxsize = conv.LB
 	beam = np.zeros(array.shape)
 	if array.ndim==2: 
-		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize)
+		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
-- 
2.43.0


From f062394f079ce841069fde23ae0c12c4c5311691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 118/141] fix: the primary beam accepts a list of redshifts

---
 src/tools21cm/primary_beam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 8f13916..7ab52cf 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -42,6 +42,7 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 			array = np.swapaxes(array, nu_axis, 2)
 		if np.array(z).size==1: 
 			z = z*np.ones(array.shape[2])
+		z = np.asarray(z)
 		for i in tqdm(range(z.size), disable=not verbose): 
 			beam[:,:,i] = circular_beam(array.shape[0], z[i], D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 		beamed = array*beam
-- 
2.43.0


From 67eddea588fa759175f625dce7bcda50140f8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 119/141] fix: the primary beam of a light cone may have any
 frequency axis

---
 src/tools21cm/primary_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/primary_beam.py b/src/tools21cm/primary_beam.py
index 7ab52cf..b0092f6 100755
--- a/src/tools21cm/primary_beam.py
+++ b/src/tools21cm/primary_beam.py
@@ -34,12 +34,12 @@ def primary_beam(array, z, nu_axis=2, beam_func='Gaussian', boxsize=None, D_stat
 	assert array.ndim > 1
 	if boxsize is None: 
 		boxsize = conv.LB
-	beam = np.zeros(array.shape)
 	if array.ndim==2: 
 		beamed = array*circular_beam(array.shape[0], z, D_station=D_station, beam_func=beam_func, boxsize=boxsize, l_null=l_null)
 	else:
 		if nu_axis!=2: 
 			array = np.swapaxes(array, nu_axis, 2)
+		beam = np.zeros(array.shape)
 		if np.array(z).size==1: 
 			z = z*np.ones(array.shape[2])
 		z = np.asarray(z)
-- 
2.43.0


From 54d468d9171252b2581f52491c49f55c5ea4fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 120/141] fix: superpixel labels need not start at zero or be
 consecutive

---
 src/tools21cm/superpixels.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 457c0c8..f468397 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -43,7 +43,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-	for i in np.unique(y): y2[y==i] = y1[i]
+	for i, label in enumerate(np.unique(y)): y2[y==label] = y1[i]
 	y2 = y2 < thres
 	return y2.reshape(data.shape)
 
@@ -127,12 +127,12 @@ def apply_operator_labelled_data(data, labels, operator=np.mean, verbose=True):
 	idx_low = 0
 	if verbose:
 		time.sleep(1)
-		for i in tqdm(elems, disable=False if verbose else True):
+		for i in tqdm(range(elems.size), disable=False if verbose else True):
 			idx_high = idx_low + num[i]
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
 	else:
-		for i in elems:
+		for i in range(elems.size):
 			idx_high = idx_low + num[i]
 			out.append(operator(X1[idx_low:idx_high]))
 			idx_low  = idx_high
@@ -227,9 +227,7 @@ def superpixel_map(data, labels, mns=None, verbose=True):
 	if verbose:
 		print('Constructing the superpixel map...')
 		time.sleep(1)
-		for i in tqdm(range(mns.size)): sp_map[labels==i] = mns[i]
-	else:
-		for i in range(mns.size): sp_map[labels==i] = mns[i]
+	for i, label in enumerate(tqdm(np.unique(labels), disable=not verbose)): sp_map[labels==label] = mns[i]
 	return sp_map
 
 
-- 
2.43.0


From 03b644281c4d1fbd08f53b865c32867cf318471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 121/141] fix: superpixels can be stitched at threshold zero

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index f468397..03a3f07 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -39,7 +39,7 @@ def binary_stitch(data, labels, stitch='mean', thres=None):
 	X1 = data.reshape(-1,1)
 	y  = labels.reshape(-1,1)
 	y1 = [X1[y==i].mean() for i in np.unique(y)]
-	if not thres:
+	if thres is None:
 		if stitch=='otsu': thres = threshold_otsu(np.array(y1))
 		else: thres = X1.mean()
 	y2 = np.zeros(y.shape)
-- 
2.43.0


From c6206af95ccb7daeb283a224c2f5f4fbf1794f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 122/141] fix: superpixel signal-to-noise ratios can be
 returned with their pixels

---
 src/tools21cm/superpixels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/superpixels.py b/src/tools21cm/superpixels.py
index 03a3f07..6ddafce 100755
--- a/src/tools21cm/superpixels.py
+++ b/src/tools21cm/superpixels.py
@@ -177,7 +177,7 @@ def get_superpixel_SNRs(means=None, sigmas=None, n_pix=None, data=None, labels=N
 	means  = means[sorts]
 	if pixels:
 		pxls = get_superpixel_pixels(data=data, labels=labels, slic_segments=slic_segments)
-		pxls = pxls[sorts]
+		pxls = [pxls[i] for i in sorts]
 		return means/sigmas, means, sigmas, n_pix, pxls
 	return means/sigmas, means, sigmas, n_pix
 
-- 
2.43.0


From 6f7badf5a8570d04cfbf9536c91e4a3d5912d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:31 +0000
Subject: [PATCH 123/141] fix: the threshold of two clusters lies between them

---
 src/tools21cm/identify_regions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/identify_regions.py b/src/tools21cm/identify_regions.py
index 37f9feb..ec757b9 100755
--- a/src/tools21cm/identify_regions.py
+++ b/src/tools21cm/identify_regions.py
@@ -161,7 +161,7 @@ def threshold_kmeans(cube, upper_lim=False, mean_remove=True, n_jobs=1):
 	array = np.zeros(cube.shape)
 	X  = cube.reshape(-1,1)
 	y = KMeans(n_clusters=2, n_init='auto').fit_predict(X)
-	t_th = X[y==0].max()/2.+X[y==1].max()/2.
+	t_th = min(X[y==0].max(), X[y==1].max())/2.+max(X[y==0].min(), X[y==1].min())/2.
 	if upper_lim: array[cube<=t_th] = 1
 	else: array[cube>t_th] = 1
 	print("The output contains a tuple with binary-cube and determined-threshold.")
-- 
2.43.0


From 7a83a5164761f7c62f920cca82e37d9f58ce29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 124/141] fix: foreground maps accept any number and list of
 redshifts

---
 src/tools21cm/foreground_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3a8df22..5f9bf83 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -27,10 +27,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	gf_data = np.zeros((ncells, ncells, z.size))
 
 	if(rseed): np.random.seed(rseed)
@@ -69,10 +66,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	-------
 	A 2D numpy array of brightness temperature in mK.
 	"""
-	if(isinstance(z, float)):
-		z = np.array([z])
-	else:
-		z = np.array(z, copy=False)
+	z = np.atleast_1d(z)
 	exgf_data = np.zeros((ncells, ncells, z.size))
 
 	dS, nu_s = 0.01, 150
-- 
2.43.0


From 90abeade48edead9a8643720e3a1f57b1a27dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 125/141] fix: the galactic foreground of an odd number of
 cells is finite

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 5f9bf83..3119cba 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -37,7 +37,7 @@ def galactic_synch_fg(z, ncells, boxsize, rseed=False):
 
 	for i in range(0, z.size):
 		nu = cm.z_to_nu(z[i])
-		U_cb  = (np.mgrid[-ncells/2:ncells/2,-ncells/2:ncells/2]+0.5)*cm.z_to_cdist(z[i])/boxsize
+		U_cb  = (np.mgrid[-(ncells//2):ncells-ncells//2,-(ncells//2):ncells-ncells//2]+0.5)*cm.z_to_cdist(z[i])/boxsize
 		l_cb  = 2*np.pi*np.sqrt(U_cb[0,:,:]**2+U_cb[1,:,:]**2)
 		C_syn = A150*(1000/l_cb)**beta_*(nu/nu_s)**(-2*a_syn-2*Da_syn*np.log(nu/nu_s))
 		solid_angle = boxsize**2/cm.z_to_cdist(z[i])**2
-- 
2.43.0


From e5e229e5efe7cf72898f56dda73eeb12984f4878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 126/141] fix: extragalactic point sources work without
 functions removed from numpy

---
 src/tools21cm/foreground_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3119cba..3984b1d 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -73,9 +73,9 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 	solid_angle = boxsize**2/cm.z_to_cdist(z.min())**2
 	
 	Ss = np.arange(0.1, S_max, dS)
-	N  = int(10**3.75*np.trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
+	N  = int(10**3.75*trapz(Ss**(-1.6), x=Ss, dx=dS)*solid_angle)
 	if(rseed): np.random.seed(rseed)
-	x, y = np.random.random_integers(0, high=ncells-1, size=(2,N))
+	x, y = np.random.randint(0, high=ncells, size=(2,N))
 	alpha_ps = 0.7+0.1*np.random.random(size=N)
 	S_s  = np.random.choice(Ss, N)
 
-- 
2.43.0


From c2ba950fbd356d606c4a0b7ec849050ff3ea49c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 127/141] fix: extragalactic point sources in one pixel add up

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3984b1d..a6413ff 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -83,7 +83,7 @@ def extragalactic_pointsource_fg(z, ncells, boxsize, rseed=False, S_max=100):
 		nu = cm.z_to_nu(z[i])
 		S_nu = S_s*(nu/nu_s)**(-alpha_ps)
 		for p in range(S_nu.size):
-			exgf_data[x[p], y[p], i] = jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
+			exgf_data[x[p], y[p], i] += jansky_2_kelvin(S_nu[p], z[i], boxsize=boxsize, ncells=ncells)
 	return exgf_data.squeeze()
 
 
-- 
2.43.0


From f9e60bcf904ad7021a4440c9f87a4404eda8a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 128/141] fix: the diabolo filter has the wave numbers of the
 Fourier modes

---
 src/tools21cm/foreground_model.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index a6413ff..f4a0467 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -91,18 +91,16 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 	assert funct in ['step', 'sigmoid', 'gaussian']
 	assert ncells or array is not None
 	if boxsize is None: boxsize = conv.LB
-	if array is not None: ncells = max(array.shape)
-	filt = np.zeros((ncells, ncells, ncells))
-	k0   = np.linspace(-ncells*np.pi/boxsize, ncells*np.pi/boxsize, ncells)
-	a = k0.reshape(-1,1)
-	for i in range(k0.size-1): a = np.hstack((a,k0.reshape(-1,1)))
-	b = k0.reshape(1,-1)
-	for i in range(k0.size-1): b = np.vstack((b,k0.reshape(1,-1)))
-	k2 = np.sqrt(a**2+b**2)
+	if array is not None: ncells = array.shape[0]
+	n_par = ncells if array is None else array.shape[2]
+	filt = np.zeros((ncells, ncells, n_par))
+	k0   = 2*np.pi*np.fft.fftshift(np.fft.fftfreq(ncells, d=boxsize/ncells))
+	kpar = 2*np.pi*np.fft.fftshift(np.fft.fftfreq(n_par, d=boxsize/ncells))
+	k2 = np.sqrt(k0.reshape(-1,1)**2+k0.reshape(1,-1)**2)
 	#mu1 = np.sqrt(1 - mu**2) 
 	kmin = np.pi/(cm.z_to_cdist(z)*(21./small_base/1e2))
-	for i in range(ncells):
-		kpp = k0[i]
+	for i in range(n_par):
+		kpp = kpar[i]
 		kpr = np.abs(kpp)*(1-mu**2)/mu
 		if funct == 'sigmoid': 
 			ss = 1-1./(1+np.exp(10*(k2-kpr)))
@@ -112,7 +110,6 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 			ss[k2<=kpr]  = 0
 		ss[k2<=kmin] = 0
 		filt[:,:,i] = ss
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
 	print("A diabolo filter made with %s function."%funct)
 	return filt
 
-- 
2.43.0


From 419921d72c2a2b35a77a77b09bd20fd90c4fffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 129/141] fix: the barrel filter can be made, with the wave
 numbers of the Fourier modes

---
 src/tools21cm/foreground_model.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index f4a0467..3ae4861 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -116,19 +116,15 @@ def diabolo_filter(z, ncells=None, array=None, boxsize=None, mu=0.5, funct='step
 def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, small_base=40):
 	assert ncells or array is not None
 	if boxsize is None: boxsize = conv.LB
-	if array is not None: ncells = max(array.shape)
-	k0   = np.linspace(-ncells*np.pi/boxsize, ncells*np.pi/boxsize, ncells)
-	a = k0.reshape(-1,1)
-	for i in range(k0.size-1): a = np.hstack((a,k0.reshape(-1,1)))
-	b = k0.reshape(1,-1)
-	for i in range(k0.size-1): b = np.vstack((b,k0.reshape(1,-1)))
-	k2 = np.sqrt(a**2+b**2)
+	if array is not None: ncells = array.shape[0]
+	n_par = ncells if array is None else array.shape[2]
+	k0   = 2*np.pi*np.fft.fftshift(np.fft.fftfreq(ncells, d=boxsize/ncells))
+	k2 = np.sqrt(k0.reshape(-1,1)**2+k0.reshape(1,-1)**2)
 	if k_par_min is None: k_par_min = np.pi/(cm.z_to_cdist(z)*(21./small_base/1e2))
 	ss = np.ones(k2.shape)
 	ss[k2<=k_par_min] = 0
-	filt = np.zeros((ncells,ncells,ncells))
-	for i in range(ncells): filt[:,:,i] = filt
-	if array.shape[2]<ncells: filt = filt[:,:,ncells/2-array.shape[2]/2:ncells/2+array.shape[2]/2]
+	filt = np.zeros((ncells,ncells,n_par))
+	for i in range(n_par): filt[:,:,i] = ss
 	print("A barrel filter made with step function.")
 	return filt	
 
-- 
2.43.0


From d677059fdb42fcc97fb36fd28f60e89183b0ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 130/141] fix: wedge removal keeps the modes of odd cubes in
 place

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 3ae4861..6972f76 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -131,7 +131,7 @@ def barrel_filter(z, ncells=None, array=None, boxsize=None, k_par_min=None, smal
 def remove_wedge_image(dt, z, mu=0.5, funct='step', boxsize=None, filt=None):
 	if filt is None: filt = diabolo_filter(z, array=dt, mu=mu, funct=funct, boxsize=boxsize)
 	fft_dt = np.fft.fftn(dt)
-	apply_filt = np.fft.fftshift(np.fft.fftshift(fft_dt)*filt)
+	apply_filt = np.fft.ifftshift(np.fft.fftshift(fft_dt)*filt)
 	dt_new = np.real(np.fft.ifftn(apply_filt))
 	return dt_new
 
-- 
2.43.0


From ff81761ef37e09bf391e078b3404ba19da7a481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:39 +0000
Subject: [PATCH 131/141] fix: rolling wedge removal accepts chunks of odd
 length

---
 src/tools21cm/foreground_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/foreground_model.py b/src/tools21cm/foreground_model.py
index 6972f76..a06679f 100755
--- a/src/tools21cm/foreground_model.py
+++ b/src/tools21cm/foreground_model.py
@@ -185,7 +185,7 @@ def rolling_wedge_removal_lightcone(lightcone, redshifts, cell_size=None, chunk_
 	Box_uv = np.concatenate((empty_box, Box_uv, empty_box), axis = 2)
     
 	for i in range(chunk_length, box_shape[-1] + chunk_length):
-		t_box = np.copy(Box_uv[..., i-chunk_length//2: i+chunk_length//2])
+		t_box = np.copy(Box_uv[..., i-chunk_length//2: i-chunk_length//2+chunk_length])
 		t_box *= BM
 		W = k_par / (k_perp * MF[min(i - chunk_length // 2 - 1, box_shape[-1] - 1)] + buffer)
 		w = np.logical_or(W < -1., W > 1.)
-- 
2.43.0


From 9aedd102be6da61fadcf940076646b95c64eb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:53 +0000
Subject: [PATCH 132/141] fix: uv maps of a light cone accept antenna positions
 as the layout

---
 src/tools21cm/radio_telescope_noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/radio_telescope_noise.py b/src/tools21cm/radio_telescope_noise.py
index 51c8fb7..b0f41cd 100755
--- a/src/tools21cm/radio_telescope_noise.py
+++ b/src/tools21cm/radio_telescope_noise.py
@@ -217,7 +217,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 	antxyz, N_ant = subarray_type_to_antxyz(subarray_type, verbose=verbose)
 	if boxsize is None: boxsize = conv.LB
 	if isinstance(zs, list): zs = np.array(zs)
-	if subarray_type.upper()=='AA*': subarray_type = 'AAstar'
+	if isinstance(subarray_type, str) and subarray_type.upper()=='AA*': subarray_type = 'AAstar'
 
 	# Define a dictionary of simulation parameters 
 	params = {
@@ -240,7 +240,7 @@ def get_uv_map_lightcone(ncells, zs, subarray_type="AA4", total_int_time=6., int
 		for key, current_val in params.items():
 			cached_val = uvs.get(key)
 			# Check for a mismatch
-			if cached_val is not None and cached_val != current_val:
+			if cached_val is not None and not np.array_equal(cached_val, current_val):
 				# Add the error message to a list instead of raising immediately
 				mismatch_msg = f"  - '{key}': Cached value is '{cached_val}', but current call requested '{current_val}'."
 				mismatches.append(mismatch_msg)
-- 
2.43.0


From c3e8cabfb15d087cfbdfec860644ae5ed397aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:24 +0000
Subject: [PATCH 133/141] fix: the dimensionless power spectrum skips bins
 without modes

---
 src/tools21cm/power_spectrum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools21cm/power_spectrum.py b/src/tools21cm/power_spectrum.py
index ec2b7bb..a0d691a 100755
--- a/src/tools21cm/power_spectrum.py
+++ b/src/tools21cm/power_spectrum.py
@@ -559,8 +559,11 @@ def dimensionless_ps(data, kbins=100, box_dims=None, binning='log', factor=10):
         '''
         from scipy.interpolate import interp1d
         Pk, ks = power_spectrum_1d(data, kbins=kbins*factor, box_dims=box_dims, binning=binning)
+        filled = np.isfinite(Pk)
+        Pk, ks = Pk[filled], ks[filled]
         f_Dlta = interp1d(ks, Pk*ks**3/2/np.pi**2)
         knew   = 10**np.linspace(np.log10(ks[1]),np.log10(ks[-1]), kbins) if binning=='log' else np.linspace(ks[1],ks[-1], kbins)
+        knew   = np.clip(knew, ks[1], ks[-1])
         return f_Dlta(knew), knew
 
 def _get_nonzero_idx(ps_shape, los_axis):
-- 
2.43.0


From 0c0134834b4b275933094cd29a6c4b44dd8ff402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 134/141] fix: painting kernels at several positions adds each
 of them once

---
 src/tools21cm/test_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 2e547fb..6b6a2fc 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -27,7 +27,7 @@ def paint_kernel(cube, positions, kernel):
         rolled_cube[:kernel_shape[0], :kernel_shape[1], :kernel_shape[2]] += kernel
         
         # Roll it back to the original position
-        cube += np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
+        cube[...] = np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
     
     return None
             
-- 
2.43.0


From 964fda0791f81afeb0a79b6f76c914d2b869dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 135/141] fix: bubble models do not modify the cube they start
 from

---
 src/tools21cm/test_case.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 6b6a2fc..01bf5f9 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -60,6 +60,7 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
         cube = np.zeros((n_cells, n_cells, n_cells), dtype=float)
     else:
         print(f'Cube with filling fraction of {cube.mean():.3f} provided...')
+        cube = np.array(cube, dtype=float)
     
     # Volume fraction of a single bubble
     frac_1bub = 4 * np.pi / 3 * r**3 
-- 
2.43.0


From b0aefd22b731809a80a5e8acaea9e8d3a1c254f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 136/141] fix: non-overlapping bubbles do not overlap across
 the periodic boundary

---
 src/tools21cm/test_case.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 01bf5f9..35399fa 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -89,7 +89,12 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
             arg_zero = np.argwhere(cube==0)
             positions = arg_zero[np.random.randint(0, arg_zero.shape[0], batch_size)]
         elif source_distribution.lower() in ['anticlustered', 'anti-clustered', 'non-overlapping', 'nonoverlapping']:
-            edt = ndimage.distance_transform_edt(1-cube, return_indices=False)
+            if cube.any():
+                pad = int(r)+1 # the bubbles are periodic
+                edt = ndimage.distance_transform_edt(np.pad(1-cube, pad, mode='wrap'), return_indices=False)
+                edt = edt[pad:-pad, pad:-pad, pad:-pad]
+            else:
+                edt = np.full(cube.shape, np.inf)
             arg_zero = np.argwhere(edt>r)
             if len(arg_zero)==0:
                 print('No empty space fill spheres.')
-- 
2.43.0


From bc7caa26c5df2dbcedcb13c931ccbf8cc096f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:33 +0000
Subject: [PATCH 137/141] fix: dictionaries are written in a format given in
 capitals, as they are read

---
 src/tools21cm/read_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools21cm/read_files.py b/src/tools21cm/read_files.py
index ae81c4b..4bfed6a 100755
--- a/src/tools21cm/read_files.py
+++ b/src/tools21cm/read_files.py
@@ -251,7 +251,9 @@ def write_dictionary_data(data_dict, filename, format=None):
 	Supports: pickle, json, yaml, hdf5, npz, netcdf (xarray), csv, xlsx
 	"""
 	if format is None:
-		format = os.path.splitext(filename)[1].lstrip('.').lower()
+		format = os.path.splitext(filename)[1].lstrip('.')
+
+	format = format.lower()
 
 	if format in ['pickle', 'pkl']:
 		import pickle
-- 
2.43.0


From de918f2ac533cab54b154ab901e3005cd3daceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:15 +0000
Subject: [PATCH 138/141] fix: the name of a file listing the snapshots or
 their redshifts is taken as that, not as a sequence

---
 src/tools21cm/lightcone.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools21cm/lightcone.py b/src/tools21cm/lightcone.py
index 365e446..5a6a49d 100755
--- a/src/tools21cm/lightcone.py
+++ b/src/tools21cm/lightcone.py
@@ -103,6 +103,9 @@ def make_lightcone(filenames, z_low = None, z_high = None, depth_mhz = None, fil
         mesh_size = get_mesh_size(filenames[0])
     else:
         assert file_redshifts is not None
+        if isinstance(filenames, str):
+            filenames = _get_filenames(filenames)
+        file_redshifts = _get_file_redshifts(file_redshifts, filenames)
         mesh_size = reading_function(filenames[0]).shape
 
     file_redshifts = np.asarray(file_redshifts)
@@ -535,7 +538,7 @@ def _get_filenames(filenames_in):
     If it is a text file, read the list of files from the file
     '''
     
-    if hasattr(filenames_in, '__iter__'):
+    if hasattr(filenames_in, '__iter__') and not isinstance(filenames_in, str):
         filenames_out = filenames_in
     elif os.path.isdir(filenames_in):
         files_in_dir = glob.glob(filenames_in + '/*')
@@ -561,7 +564,7 @@ def _get_file_redshifts(redshifts_in, filenames):
     Else, return as is
     '''
     
-    if hasattr(redshifts_in, '__iter__'):
+    if hasattr(redshifts_in, '__iter__') and not isinstance(redshifts_in, str):
         redshifts_out = redshifts_in
     elif redshifts_in is None:
         redshifts_out = [determine_redshift_from_filename(f) for f in filenames]
-- 
2.43.0


From b8e11825614f9c6e2257c1f2ba159df6e2cac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:52 +0000
Subject: [PATCH 139/141] Revert "fix: non-overlapping bubbles do not overlap
 across the periodic boundary"

This reverts commit b0aefd22b731809a80a5e8acaea9e8d3a1c254f0.
---
 src/tools21cm/test_case.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 35399fa..01bf5f9 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -89,12 +89,7 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
             arg_zero = np.argwhere(cube==0)
             positions = arg_zero[np.random.randint(0, arg_zero.shape[0], batch_size)]
         elif source_distribution.lower() in ['anticlustered', 'anti-clustered', 'non-overlapping', 'nonoverlapping']:
-            if cube.any():
-                pad = int(r)+1 # the bubbles are periodic
-                edt = ndimage.distance_transform_edt(np.pad(1-cube, pad, mode='wrap'), return_indices=False)
-                edt = edt[pad:-pad, pad:-pad, pad:-pad]
-            else:
-                edt = np.full(cube.shape, np.inf)
+            edt = ndimage.distance_transform_edt(1-cube, return_indices=False)
             arg_zero = np.argwhere(edt>r)
             if len(arg_zero)==0:
                 print('No empty space fill spheres.')
-- 
2.43.0


From e210fd9da4868a93638ef5304bf0068d063f077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:52 +0000
Subject: [PATCH 140/141] Revert "fix: bubble models do not modify the cube
 they start from"

This reverts commit 964fda0791f81afeb0a79b6f76c914d2b869dc4a.
---
 src/tools21cm/test_case.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 01bf5f9..6b6a2fc 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -60,7 +60,6 @@ def spherical_bubble_model(n_cells, x_ion, r=10, source_distribution='Poisson',
         cube = np.zeros((n_cells, n_cells, n_cells), dtype=float)
     else:
         print(f'Cube with filling fraction of {cube.mean():.3f} provided...')
-        cube = np.array(cube, dtype=float)
     
     # Volume fraction of a single bubble
     frac_1bub = 4 * np.pi / 3 * r**3 
-- 
2.43.0


From 3ff251bc0bde400ae3f43434b5d9ee220b59618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:52 +0000
Subject: [PATCH 141/141] Revert "fix: painting kernels at several positions
 adds each of them once"

This reverts commit 0c0134834b4b275933094cd29a6c4b44dd8ff402.
---
 src/tools21cm/test_case.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools21cm/test_case.py b/src/tools21cm/test_case.py
index 6b6a2fc..2e547fb 100755
--- a/src/tools21cm/test_case.py
+++ b/src/tools21cm/test_case.py
@@ -27,7 +27,7 @@ def paint_kernel(cube, positions, kernel):
         rolled_cube[:kernel_shape[0], :kernel_shape[1], :kernel_shape[2]] += kernel
         
         # Roll it back to the original position
-        cube[...] = np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
+        cube += np.roll(rolled_cube, shift=pos - kernel_radius, axis=(0, 1, 2))
     
     return None
             
-- 
2.43.0

