From f074983b14adf8c56d5f56e44fbb76de6626c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:36 +0000
Subject: [PATCH 01/26] fix: keep fiducial var_lss in weights after the final
 variance fit

---
 py/qsonic/picca_continuum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 5859ec3..10ee590 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -574,8 +574,11 @@ class PiccaContinuumFitter():
 
         self.save(fattr)
         if self.varlss_fitter is None:
+            fiducial_interps = self.varlss_interp, self.eta_interp
             self.fit_final_varlss(spectra_list)
             self.save(fattr, '-fit')
+            # The fitted functions must not go into weights
+            self.varlss_interp, self.eta_interp = fiducial_interps
 
         self.varlss_fitter.write(fattr)
         fattr.close()
-- 
2.43.0


From 72893bf0fd5dbf1b9e0572fb84929ac7d80cfb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:50 +0000
Subject: [PATCH 02/26] fix: do not scale continua by the zero stacked flux of
 empty bins

---
 py/qsonic/picca_continuum.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 10ee590..74257c5 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -496,9 +496,16 @@ class PiccaContinuumFitter():
 
         logging.info("Forcing stacked flux to be one.")
 
+        # Empty bins have zero stacked flux, do not scale continua by that
+        waveobs = self.flux_stacker.waveobs
+        stacked_flux = self.flux_stacker.stacked_flux.copy()
+        stacked_flux[stacked_flux == 0] = 1
+        norm_interp = FastLinear1DInterp(
+            waveobs[0], waveobs[1] - waveobs[0], stacked_flux)
+
         for spec in valid_spectra(spectra_list):
             for arm, wave_arm in spec.forestwave.items():
-                spec.cont_params['cont'][arm] *= self.flux_stacker(wave_arm)
+                spec.cont_params['cont'][arm] *= norm_interp(wave_arm)
 
     def _eta_calibate_ivar(self, spectra_list):
         """Divides forest ivar values by eta estimates if ``--eta-calib-ivar``
-- 
2.43.0


From 2ffabb5b899cabc29d55d6213acc87830dcd8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 03/26] fix: let mpi_fnc_bcast report failures of any callable

Partials, callable objects and some builtins have no __name__, so master
raised AttributeError before bcast and the other ranks waited forever.
---
 py/qsonic/mpi_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/mpi_utils.py b/py/qsonic/mpi_utils.py
index eb0a3c9..ab859c5 100644
--- a/py/qsonic/mpi_utils.py
+++ b/py/qsonic/mpi_utils.py
@@ -95,7 +95,7 @@ def mpi_fnc_bcast(fnc, comm=None, mpi_rank=0, err_msg="", *args, **kwargs):
             result = fnc(*args, **kwargs)
         except Exception as e:
             logging.exception(e)
-            logging.error(f"Error in {fnc.__module__}.{fnc.__name__}.")
+            logging.error(f"Error in {fnc!r}.")
             result = _INVALID_VALUE
 
     if comm is not None:
-- 
2.43.0


From 670a310b6763cd7ff421bf0f3aeed423ca7cb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 04/26] fix: distribute all delta files over ranks in
 qsonic-calib

The remainder of ndelta_all // mpi_size was never read.
---
 py/qsonic/scripts/qsonic_calib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 1cf9374..d1a2a50 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -160,9 +160,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         warnings.warn(
             "There are more MPI processes then number of delta files.")
 
-    nfiles_per_rank = max(1, ndelta_all // mpi_size)
-    i1 = nfiles_per_rank * mpi_rank
-    i2 = min(ndelta_all, i1 + nfiles_per_rank)
+    i1 = (ndelta_all * mpi_rank) // mpi_size
+    i2 = (ndelta_all * (mpi_rank + 1)) // mpi_size
     files_this_rank = all_delta_files[i1:i2]
 
     deltas_list = [qsonic.io.read_deltas(fname) for fname in files_this_rank]
-- 
2.43.0


From 7d9392fb2a745ab0e174a1148162dc787dbeaf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 05/26] fix: stack fluxes in qsonic-calib on ranks without
 deltas

---
 py/qsonic/scripts/qsonic_calib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index d1a2a50..783c99b 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -173,7 +173,9 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
 
 
 def mpi_stack_fluxes(args, comm, deltas_list):
-    dwave = deltas_list[0].header['DELTA_LAMBDA']
+    # Ranks without any delta need dwave as well
+    dwave = deltas_list[0].header['DELTA_LAMBDA'] if deltas_list else 0
+    dwave = comm.allreduce(dwave, max)
     nwaveobs = int((args.wave2 - args.wave1) / dwave) + 1
     waveobs = np.linspace(args.wave1, args.wave2, nwaveobs)
     stacked_flux = np.zeros(nwaveobs)
-- 
2.43.0


From 5b8662cbb0acc246a08f4014e8087f2337ce2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:06 +0000
Subject: [PATCH 06/26] fix: accept a single TARGETID in remove-targetid-list

---
 py/qsonic/scripts/qsonic_calib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 783c99b..04047df 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -116,7 +116,7 @@ def mpi_set_targetid_list_to_remove(args, comm=None, mpi_rank=0):
         ids_to_remove = mpi_fnc_bcast(
             np.loadtxt, comm, mpi_rank,
             "Error while reading remove_targetid_list.",
-            args.remove_targetid_list, dtype=int)
+            args.remove_targetid_list, dtype=int, ndmin=1)
 
     if args.catalog:
         catalog = qsonic.catalog.mpi_read_quasar_catalog(
-- 
2.43.0


From 7018ef6e5d7cc941a2877323d8e7e4b590a9bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:16 +0000
Subject: [PATCH 07/26] fix: read the sky mask on the master process only

Every rank read the file itself, so one failing read made that rank leave
with QsonicException while the others waited in the next collective call.
---
 py/qsonic/scripts/qsonic_fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4d7ed37..f718780 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -193,7 +193,8 @@ def mpi_read_masks(local_queue, args, comm, mpi_rank):
 
     if args.sky_mask:
         logging.info("Reading sky mask.")
-        skymasker = qsonic.masks.SkyMask(args.sky_mask)
+        skymasker = qsonic.masks.SkyMask(
+            args.sky_mask, comm, mpi_rank)
 
         maskers.append(skymasker)
 
-- 
2.43.0


From 1225e875d3a07cf5fd9992da751d0cf1dd75da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 08/26] fix: read exposures after fitting on ranks without
 valid spectra

---
 py/qsonic/scripts/qsonic_fit.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index f718780..b872c58 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -387,19 +387,21 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
     logging.info("Reading exposures and applying RSNR cut.")
     start_time = time.time()
 
-    local_catalog = np.hstack([_.catrow for _ in spectra_list])
-
-    # local_catalog is not sorted
-    idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
-    spectra_list = np.array(spectra_list)[idx_sort]
-    local_catalog = local_catalog[idx_sort]
-    # assert all(np.arange(idx_sort.size) == idx_sort)
-    del idx_sort
-
-    # exposures cannot be saved in tile format
-    unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
-    local_queue = np.split(local_catalog, s[1:])
-    del s, unique_pix
+    local_queue = []
+    if spectra_list:  # This rank may not have any valid spectra
+        local_catalog = np.hstack([_.catrow for _ in spectra_list])
+
+        # local_catalog is not sorted
+        idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+        spectra_list = np.array(spectra_list)[idx_sort]
+        local_catalog = local_catalog[idx_sort]
+        # assert all(np.arange(idx_sort.size) == idx_sort)
+        del idx_sort
+
+        # exposures cannot be saved in tile format
+        unique_pix, s = np.unique(local_catalog['HPXPIXEL'], return_index=True)
+        local_queue = np.split(local_catalog, s[1:])
+        del s, unique_pix
 
     args.exposures = "before"
     if args.coadd_arms != "disable":
-- 
2.43.0


From b7aae0cc7daf9b6ce9b6ed4b95dbee1dab5545f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 09/26] fix: sort by SURVEY to read exposures of multiple
 surveys

---
 py/qsonic/scripts/qsonic_fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index b872c58..9e59b7f 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -392,7 +392,10 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         local_catalog = np.hstack([_.catrow for _ in spectra_list])
 
         # local_catalog is not sorted
-        idx_sort = local_catalog.argsort(order=['HPXPIXEL', 'TARGETID'])
+        sort_order = ['HPXPIXEL', 'TARGETID']
+        if 'SURVEY' in local_catalog.dtype.names:
+            sort_order.insert(1, 'SURVEY')
+        idx_sort = local_catalog.argsort(order=sort_order)
         spectra_list = np.array(spectra_list)[idx_sort]
         local_catalog = local_catalog[idx_sort]
         # assert all(np.arange(idx_sort.size) == idx_sort)
-- 
2.43.0


From dc1eec4500e77be30a370c854a553ab6ed926667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 10/26] fix: do not drop arms of exposures while iterating over
 them

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 9e59b7f..4f124f6 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -422,7 +422,7 @@ def mpi_read_exposures_after(spectra_list, maskers, args, comm, mpi_rank):
         spec.cont_params = spec_coadd.cont_params.copy()
         spec.cont_params['cont'] = {}
 
-        for arm, wave_arm in spec.forestwave.items():
+        for arm, wave_arm in list(spec.forestwave.items()):
             wave_coadd = spec_coadd.forestwave
             if arm not in wave_coadd:
                 spec.drop_arm(arm)
-- 
2.43.0


From 28d856feaa58602d26ac89a0f7ea3203029ff68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 11/26] fix: sort the catalog by SURVEY also when all surveys
 are kept

Readers split each healpixel by SURVEY and need it sorted.
---
 py/qsonic/catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index cec749a..e1f2ab9 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -379,11 +379,12 @@ def _prime_catalog(
     if 'SURVEY' in colnames and keep_surveys is not None:
         w = np.isin(catalog["SURVEY"], keep_surveys)
         catalog = catalog[w]
-        if len(keep_surveys) > 1 and not is_tile:
-            sort_order.insert(1, 'SURVEY')
         logging.info(
             f"There are {w.sum()} quasars in given surveys {keep_surveys}.")
 
+    if 'SURVEY' in colnames and not is_tile:
+        sort_order.insert(1, 'SURVEY')
+
     if catalog.size == 0:
         raise Exception("Empty quasar catalogue.")
 
-- 
2.43.0


From 9ac6bc9c9e4eef8ebc5f112f3c4e7d1e27313a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 12/26] fix: save a readable delta file when there are no valid
 spectra

---
 py/qsonic/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/io.py b/py/qsonic/io.py
index 46e5a6f..97810c0 100644
--- a/py/qsonic/io.py
+++ b/py/qsonic/io.py
@@ -268,6 +268,8 @@ def save_deltas(
     for healpix, hp_specs in zip(unique_pix, split_spectra):
         results = fitsio.FITS(
             f"{outdir}/delta-{healpix}.fits", 'rw', clobber=True)
+        # Primary HDU makes a readable file even if there is nothing to write
+        results.write_image(None)
 
         for spec in qsonic.spectrum.valid_spectra(hp_specs):
             spec.write(results)
-- 
2.43.0


From b4b12c898ccecbcfcb06f3b816e6d5f5c8a83d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 13/26] fix: input continuum model on ranks without any spectra

---
 py/qsonic/continuum_models/input_continuum_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/qsonic/continuum_models/input_continuum_model.py b/py/qsonic/continuum_models/input_continuum_model.py
index 7d0a2ca..2af5cd6 100644
--- a/py/qsonic/continuum_models/input_continuum_model.py
+++ b/py/qsonic/continuum_models/input_continuum_model.py
@@ -143,6 +143,9 @@ class InputContinuumModel(BaseContinuumModel):
         spectra_list: list(Spectrum)
             Spectrum objects.
         """
+        if not spectra_list:
+            return
+
         local_catalog = np.hstack([_.catrow for _ in spectra_list]).copy()
         local_catalog['HPXPIXEL'] = ang2pix(
             self.nside, local_catalog['RA'], local_catalog['DEC'],
-- 
2.43.0


From 82933254e012935687abbb688f7ae97b2e0bd5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 14/26] fix: masked pixels must not add to var_lss of coadded
 deltas

---
 py/qsonic/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c2d65ba..7d65df7 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -1019,7 +1019,7 @@ class Delta():
             coadd_delta[idx] += obj.weight * obj.delta
             coadd_cont[idx] += obj.weight * obj.cont
             coadd_ivar[idx] += obj.weight**2 * var
-            coadd_lss[idx] += 1 - obj.weight * var
+            coadd_lss[idx] += w * (1 - obj.weight * var)
             coadd_norm[idx] += obj.weight
 
         w = coadd_norm > 0
-- 
2.43.0


From 00ac5abdb808870ca80588087720878acbc111fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 15/26] fix: coadd deltas on their own wavelength grid

DELTA_LAMBDA other than 0.8 A broke the coaddition.
---
 py/qsonic/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 7d65df7..c751d05 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -994,7 +994,10 @@ class Delta():
         coadd_reso /= coadd_norm
         self.reso = coadd_reso
 
-    def coadd(self, other, dwave=0.8):
+    def coadd(self, other, dwave=None):
+        if dwave is None:
+            dwave = self.header.get('DELTA_LAMBDA', 0.8)
+
         min_wave = min(self.wave[0], other.wave[0])
         max_wave = max(self.wave[-1], other.wave[-1])
 
-- 
2.43.0


From c4f04bfcc7011ade65c5dea6037c637d6c081def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 16/26] fix: no NaN in the coadded resolution matrix of gaps
 between deltas

---
 py/qsonic/spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index c751d05..3c55a1a 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -991,7 +991,8 @@ class Delta():
             coadd_reso[:, idxes[j]] += weight * obj.reso
             coadd_norm[idxes[j]] += weight
 
-        coadd_reso /= coadd_norm
+        w = coadd_norm > 0
+        coadd_reso[:, w] /= coadd_norm[w]
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=None):
-- 
2.43.0


From 0116f12ab9e5a43595f5d3cd95171f42892646c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 17/26] fix: coadd all deltas of a target at once

Pairwise coaddition of three or more deltas depends on the file order,
which follows from the directory listing.
---
 py/qsonic/scripts/qsonic_coadd_deltas.py | 13 +++++++----
 py/qsonic/spectrum.py                    | 29 +++++++++++++++++-------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/py/qsonic/scripts/qsonic_coadd_deltas.py b/py/qsonic/scripts/qsonic_coadd_deltas.py
index cc4980d..5ef640c 100644
--- a/py/qsonic/scripts/qsonic_coadd_deltas.py
+++ b/py/qsonic/scripts/qsonic_coadd_deltas.py
@@ -68,13 +68,16 @@ def read_dirs_to_dict(directories, nproc):
         deltas = pool.map(qsonic.io.read_deltas, fnames)
 
     logging.info("Coadding deltas.")
-    forest_dict = {}
+    deltas_by_target = defaultdict(list)
     for onelist in deltas:
         for delta in onelist:
-            if delta.targetid in forest_dict:
-                forest_dict[delta.targetid].coadd(delta)
-            else:
-                forest_dict[delta.targetid] = delta
+            deltas_by_target[delta.targetid].append(delta)
+
+    forest_dict = {}
+    for targetid, (delta, *others) in deltas_by_target.items():
+        if others:
+            delta.coadd(others)
+        forest_dict[targetid] = delta
 
     return forest_dict
 
diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 3c55a1a..3847e3e 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -973,12 +973,12 @@ class Delta():
             cols, names=names, header=hdr_dict,
             extname=f"{self.targetid}")
 
-    def _coadd_reso(self, other, nwaves, idxes):
-        max_ndia = max(self.reso.shape[0], other.reso.shape[0])
+    def _coadd_reso(self, deltas, nwaves, idxes):
+        max_ndia = max(obj.reso.shape[0] for obj in deltas)
         coadd_reso = np.zeros((max_ndia, nwaves))
         coadd_norm = np.zeros(nwaves)
 
-        for j, obj in enumerate([self, other]):
+        for j, obj in enumerate(deltas):
             weight = obj.weight.copy()
             weight[weight == 0] = 1e-8
 
@@ -996,11 +996,24 @@ class Delta():
         self.reso = coadd_reso
 
     def coadd(self, other, dwave=None):
+        """Coadds this delta with others using weights. All deltas should be
+        passed at once, since weights of coadded deltas are not additive.
+
+        Arguments
+        ---------
+        other: Delta or list(Delta)
+            Delta(s) to coadd.
+        dwave: float, default: None
+            Wavelength spacing. Read from header if None.
+        """
         if dwave is None:
             dwave = self.header.get('DELTA_LAMBDA', 0.8)
 
-        min_wave = min(self.wave[0], other.wave[0])
-        max_wave = max(self.wave[-1], other.wave[-1])
+        deltas = [self]
+        deltas.extend([other] if isinstance(other, Delta) else other)
+
+        min_wave = min(obj.wave[0] for obj in deltas)
+        max_wave = max(obj.wave[-1] for obj in deltas)
 
         nwaves = int((max_wave - min_wave) / dwave + 0.1) + 1
         coadd_wave = np.linspace(min_wave, max_wave, nwaves)
@@ -1010,8 +1023,8 @@ class Delta():
         coadd_cont = np.zeros(nwaves)
         coadd_norm = np.zeros(nwaves)
 
-        idxes = [None, None]
-        for j, obj in enumerate([self, other]):
+        idxes = [None] * len(deltas)
+        for j, obj in enumerate(deltas):
             i0 = ((obj.wave[0] - min_wave) / dwave + 0.1).astype(int)
             idx = np.s_[i0:i0 + obj.wave.size]
             idxes[j] = idx
@@ -1033,7 +1046,7 @@ class Delta():
         coadd_ivar[w] = coadd_norm[w]**2 / coadd_ivar[w]
 
         if self.reso is not None:
-            self._coadd_reso(other, nwaves, idxes)
+            self._coadd_reso(deltas, nwaves, idxes)
 
         self.wave = coadd_wave
         self.delta = coadd_delta
-- 
2.43.0


From 1e3380da8cdfb1f04b41a03179fcd2a50404dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 18/26] fix: choose catalog extension and DLA redshift column
 deterministically

set.pop depends on the hash seed when several names are present.
---
 py/qsonic/catalog.py | 4 ++--
 py/qsonic/masks.py   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py/qsonic/catalog.py b/py/qsonic/catalog.py
index e1f2ab9..8e87ce7 100644
--- a/py/qsonic/catalog.py
+++ b/py/qsonic/catalog.py
@@ -293,14 +293,14 @@ def _read(filename):
     logging.info(f'Reading catalogue from {filename}')
     fitsfile = fitsio.FITS(filename)
     extnames = [hdu.get_extname() for hdu in fitsfile]
-    cat_hdu = _accepted_extnames.intersection(extnames)
+    cat_hdu = [x for x in extnames if x in _accepted_extnames]
     if not cat_hdu:
         cat_hdu = 1
         warnings.warn(
             "Catalog HDU not found by hduname. Using extension 1.",
             RuntimeWarning)
     else:
-        cat_hdu = cat_hdu.pop()
+        cat_hdu = cat_hdu[0]
 
     colnames = fitsfile[cat_hdu].get_colnames()
     keep_columns = [col for col in colnames if col in _all_columns]
diff --git a/py/qsonic/masks.py b/py/qsonic/masks.py
index f6faa2c..126098a 100644
--- a/py/qsonic/masks.py
+++ b/py/qsonic/masks.py
@@ -388,11 +388,11 @@ class DLAMask():
         catalog: :external+numpy:py:class:`ndarray <numpy.ndarray>`
             DLA catalog.
         """
-        z_colname = DLAMask.accepted_zcolnames[0]
         fts = fitsio.FITS(fname)
 
         fts_colnames = set(fts["DLACAT"].get_colnames())
-        z_colname = fts_colnames.intersection(DLAMask.accepted_zcolnames)
+        z_colname = [
+            x for x in DLAMask.accepted_zcolnames if x in fts_colnames]
 
         if not z_colname:
             fts.close()
@@ -400,7 +400,7 @@ class DLAMask():
                 "DLA mask error::Z colname has to be one of "
                 f"{', '.join(DLAMask.accepted_zcolnames)}")
 
-        z_colname = z_colname.pop()
+        z_colname = z_colname[0]
         columns_list = ["TARGETID", z_colname, "NHI"]
         catalog = fts['DLACAT'].read(columns=columns_list)
 
-- 
2.43.0


From 6d8dc8731e4326aa84736cfcde61eaa73812f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:20 +0000
Subject: [PATCH 19/26] fix: slice shared ivar and weight arrays of a spectrum
 only once

---
 py/qsonic/spectrum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 3847e3e..0f4b2d5 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -290,9 +290,13 @@ class Spectrum():
 
         self._forestwave[arm] = self._forestwave[arm][i1:i2]
         self._forestflux[arm] = self._forestflux[arm][i1:i2]
-        self._forestivar[arm] = self._forestivar[arm][i1:i2]
-        self._forestivar_sm[arm] = self._forestivar_sm[arm][i1:i2]
-        self._forestweight[arm] = self._forestweight[arm][i1:i2]
+        ivar, ivar_sm, weight = (
+            self._forestivar[arm], self._forestivar_sm[arm],
+            self._forestweight[arm])
+        # These dictionaries can be the same object
+        self._forestivar[arm] = ivar[i1:i2]
+        self._forestivar_sm[arm] = ivar_sm[i1:i2]
+        self._forestweight[arm] = weight[i1:i2]
 
         if arm in self._forestreso:
             self._forestreso[arm] = self._forestreso[arm][:, i1:i2]
-- 
2.43.0


From 92cd7053c73ddfe946a238503724e4956223ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 20/26] fix: do not count the pixels of a spectrum that
 VarLSSFitter refuses

---
 py/qsonic/picca_continuum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/picca_continuum.py b/py/qsonic/picca_continuum.py
index 74257c5..111c438 100644
--- a/py/qsonic/picca_continuum.py
+++ b/py/qsonic/picca_continuum.py
@@ -918,11 +918,11 @@ class VarLSSFitter():
         var[w] = 1. / ivar[w]
 
         npix = np.bincount(all_indx, minlength=self.minlength)
-        self._num_pixels += npix
         xvec = _fast_weighted_vector_bincount(
             all_indx, delta, var, self.minlength)
         self.subsampler.add_measurement(xvec, npix)
 
+        self._num_pixels += npix
         npix[npix > 0] = 1
         self._num_qso += npix
 
-- 
2.43.0


From 687ab9a54cf675d00b92b0396083d3e7850d3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 21/26] fix: allow reading SubsampleCov (co)variance after its
 mean

---
 py/qsonic/mathtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/mathtools.py b/py/qsonic/mathtools.py
index 53b7ec3..16a0443 100644
--- a/py/qsonic/mathtools.py
+++ b/py/qsonic/mathtools.py
@@ -642,7 +642,7 @@ class SubsampleCov():
         cov: list(:class:`ndarray <numpy.ndarray>`)
             Covariances of the mean.
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
@@ -685,7 +685,7 @@ class SubsampleCov():
         var_xvec: :class:`ndarray <numpy.ndarray>`
             Variance of the mean. 1D array
         """
-        if self.mean is None:
+        if self.xdiff is None:
             mean_xvec = self.get_mean()
             self.mean, self.xdiff = self._get_xdiff(mean_xvec, bias_correct)
 
-- 
2.43.0


From 97b7ca88dc439e1047d7d345b2e0c0d146e2bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:53 +0000
Subject: [PATCH 22/26] fix: calibration does not depend on the directory order

---
 py/qsonic/scripts/qsonic_calib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/qsonic/scripts/qsonic_calib.py b/py/qsonic/scripts/qsonic_calib.py
index 04047df..258dcb4 100644
--- a/py/qsonic/scripts/qsonic_calib.py
+++ b/py/qsonic/scripts/qsonic_calib.py
@@ -154,6 +154,8 @@ def mpi_read_all_deltas(args, comm=None, mpi_rank=0, mpi_size=1):
         f"Delta files are not found in {args.input_dir}.",
         f"{args.input_dir}/delta-*.fits*")
 
+    # The directory order decides the subsamples otherwise
+    all_delta_files.sort()
     ndelta_all = len(all_delta_files)
     logging.info(f"There are {ndelta_all} delta files.")
     if mpi_size > ndelta_all:
-- 
2.43.0


From c37916f5bbec9c67bb5f4a51b9abd9b3e8b05065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:53 +0000
Subject: [PATCH 23/26] fix: headers of coadded deltas do not depend on the
 directory order

---
 py/qsonic/scripts/qsonic_coadd_deltas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_coadd_deltas.py b/py/qsonic/scripts/qsonic_coadd_deltas.py
index 5ef640c..432e906 100644
--- a/py/qsonic/scripts/qsonic_coadd_deltas.py
+++ b/py/qsonic/scripts/qsonic_coadd_deltas.py
@@ -58,7 +58,7 @@ def read_dirs_to_dict(directories, nproc):
     logging.info("Making list of all delta files.")
     fnames = []
     for directory in directories:
-        fnames.extend(glob.glob(f"{directory}/delta-*.fits"))
+        fnames.extend(sorted(glob.glob(f"{directory}/delta-*.fits")))
 
     if not fnames:
         raise Exception("No delta files are found!")
-- 
2.43.0


From 501ad6360b69f860c16a43e732cabdcd6988471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:53 +0000
Subject: [PATCH 24/26] fix: order of arms does not depend on hash
 randomisation

---
 py/qsonic/scripts/qsonic_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/qsonic/scripts/qsonic_fit.py b/py/qsonic/scripts/qsonic_fit.py
index 4f124f6..3545dc8 100644
--- a/py/qsonic/scripts/qsonic_fit.py
+++ b/py/qsonic/scripts/qsonic_fit.py
@@ -58,7 +58,7 @@ def get_parser(add_help=True):
 
 
 def args_logic_fnc_qsonic_fit(args):
-    args.arms = list(set(args.arms))
+    args.arms = sorted(set(args.arms))
     args.true_continuum |= (args.continuum_model == "true")
 
     condition_msg = [
-- 
2.43.0


From c565768ba3a1e47e1c689aea49825a4ec06c7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:53 +0000
Subject: [PATCH 25/26] fix: choice among several id keys or columns of a delta
 does not depend on hash randomisation

---
 py/qsonic/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index 0f4b2d5..d286e1f 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -910,7 +910,7 @@ class Delta():
                 "One of these must be present in delta files: "
                 f"{', '.join(req_map)} for {attr}!")
 
-        return key.pop()
+        return min(key)
 
     def __init__(self, hdu):
         self.header = hdu.read_header()
@@ -920,7 +920,7 @@ class Delta():
                 "One of these must be present in delta file header: "
                 f"{', '.join(Delta._accepted_targetid_keys)} for TARGETID!")
 
-        key = key.pop()
+        key = min(key, key=['TARGETID', 'MOCKID', 'THING_ID'].index)
         self.targetid = self.header[key]
         self.mean_snr = self.header['MEANSNR']
 
-- 
2.43.0


From 6e9e06ad3aa5b36ac52a63bbe3b59929d1d87608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:41 +0000
Subject: [PATCH 26/26] fix: gaps between coadded arms have zero continuum and
 resolution

The continuum of a gap was uninitialised memory, and the resolution matrix
was 0/0, whose mean cannot be written to the header.
---
 py/qsonic/spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/qsonic/spectrum.py b/py/qsonic/spectrum.py
index d286e1f..82bb432 100644
--- a/py/qsonic/spectrum.py
+++ b/py/qsonic/spectrum.py
@@ -642,7 +642,7 @@ class Spectrum():
         self._forestivar = {'brz': coadd_ivar}
 
         if self.cont_params['cont']:
-            coadd_cont = np.empty(nwaves)
+            coadd_cont = np.zeros(nwaves)
 
             for arm, idx in idxes.items():
                 # continuum needs not weighting
@@ -669,7 +669,9 @@ class Spectrum():
                 coadd_reso[:, idxes[arm]] += weight * reso_arm
                 coadd_norm[idxes[arm]] += weight
 
-            coadd_reso /= coadd_norm
+            # Gaps between arms have no resolution
+            w = coadd_norm > 0
+            coadd_reso[:, w] /= coadd_norm[w]
             self._forestreso = {'brz': coadd_reso}
 
         self.set_smooth_forestivar(self._smoothing_scale)
-- 
2.43.0

