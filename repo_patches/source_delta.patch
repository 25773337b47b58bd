From 0ec4fa9bfaf9ef33f0fd130d47ad05926fb2c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 01/48] fix: make_lockfile reported a lock it had created as
 not held when the temporary file could not be removed

---
 redmapper/utilities.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index e53507d..071080f 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1047,13 +1047,11 @@ def make_lockfile(lockfile, block=False, maxtry=300, waittime=2):
         # Non-blocking
         try:
             os.link(tempfilename, lockfile)
-            os.unlink(tempfilename)
             # We successfully got the lock
-            return True
+            locked = True
         except:
-            os.unlink(tempfilename)
             # We did not get the lock; return anyway
-            return False
+            locked = False
     else:
         # Blocking ... wait to get the lock up to maxtry
 
@@ -1062,16 +1060,19 @@ def make_lockfile(lockfile, block=False, maxtry=300, waittime=2):
         while (ctr < maxtry) and (not locked):
             try:
                 os.link(tempfilename, lockfile)
-                os.unlink(tempfilename)
                 locked = True
             except:
                 ctr += 1
                 time.sleep(waittime)
 
-        if not locked:
-            os.unlink(tempfilename)
+    # Only the link decides if we have the lock: a failure to clean up
+    # the temporary file must not turn an acquired lock into a leaked one.
+    try:
+        os.unlink(tempfilename)
+    except OSError:
+        pass
 
-        return locked
+    return locked
 
 def read_members(catfile):
     """
-- 
2.43.0


From 3297db01ff78e3cd9f3217e5333e6a2a2f3728be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:02 +0000
Subject: [PATCH 02/48] fix: DataObject.to_fits_file could leave an incomplete
 file behind and ignored indices for one-row tables

---
 redmapper/catalog.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/redmapper/catalog.py b/redmapper/catalog.py
index 2bd1f1c..8a12c3f 100644
--- a/redmapper/catalog.py
+++ b/redmapper/catalog.py
@@ -5,6 +5,9 @@ like the old idl code (for good or ill).  It also makes some things a bit more
 readable.
 """
 
+import os
+import shutil
+import uuid
 import fitsio
 import esutil as eu
 import numpy as np
@@ -143,12 +146,26 @@ class DataObject(object):
         if self._ndarray.size == 1:
             temp_array = np.zeros(1, dtype=self._ndarray.dtype)
             temp_array[0] = self._ndarray
-            fitsio.write(filename, temp_array, clobber=clobber, header=header, extname=extname)
         else:
-            if indices is None:
-                fitsio.write(filename, self._ndarray, clobber=clobber, header=header, extname=extname)
-            else:
-                fitsio.write(filename, self._ndarray[indices], clobber=clobber, header=header, extname=extname)
+            temp_array = self._ndarray
+
+        if indices is not None:
+            temp_array = temp_array[indices]
+
+        # Write to a temporary file and move it in place when it is complete,
+        # so that an interrupted write never leaves an incomplete file.
+        temp_filename = os.path.join(os.path.dirname(filename),
+                                     '.%s_%s' % (uuid.uuid4().hex, os.path.basename(filename)))
+        try:
+            if not clobber and os.path.isfile(filename):
+                # The new table is added to the tables in the existing file
+                shutil.copyfile(filename, temp_filename)
+            fitsio.write(temp_filename, temp_array, header=header, extname=extname)
+            os.replace(temp_filename, filename)
+        except Exception:
+            if os.path.isfile(temp_filename):
+                os.remove(temp_filename)
+            raise
 
     def _merge_arrays(self, arrays):
         """
-- 
2.43.0


From dbb8d7145363b5647ae99c6fb6d42f47ec104fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 03/48] fix: GalaxyCatalogMaker could not be used with a
 healsparse mask file

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 781dcff..e563c03 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -541,7 +541,7 @@ class FakeMaskConfig(object):
 
         class TempD(object):
             def __init__(self):
-                self.hpix = 0
+                self.hpix = []
                 self.nside = 0
 
         self.d = TempD()
-- 
2.43.0


From a0444535056a12a370326fd9df6189d3ba57c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 04/48] fix: parallel galaxy finalization took the sky pixel
 from the directory name

---
 redmapper/galaxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index e563c03..b7940fc 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -807,7 +807,7 @@ class GalaxyCatalogMaker(object):
             # Figure out which hpixels are there
             files = sorted(glob.glob('%s/%s_???????.fit' % (self.outpath, self.outbase_nopath)))
             for f in files:
-                m = re.search(r'_(\d{7})', f)
+                m = re.search(r'_(\d{7})\.fit$', os.path.basename(f))
                 if m is None:
                     raise RuntimeError("Malformed filename for pixel file: %s" % (f))
 
-- 
2.43.0


From b1c078cec26e877402c664cedf091407ba550709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:14 +0000
Subject: [PATCH 05/48] fix: galaxy master table was published before ids were
 made or checked unique, and a refused catalog left its lock

---
 redmapper/galaxy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index b7940fc..1758822 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -886,8 +886,6 @@ class GalaxyCatalogMaker(object):
         hdr['PIXELS'] = 1
         hdr['FITS'] = 1
 
-        tab.to_fits_file(self.filename, header=hdr, clobber=True)
-
         # Check for galaxy uniqueness or generate unique ids
         if self.generate_unique_ids:
             ctr = 1
@@ -919,8 +917,13 @@ class GalaxyCatalogMaker(object):
                     ctr += tab.ngals[i]
 
             if len(np.unique(ids)) < len(ids):
+                if self.parallel:
+                    os.remove(lockfile)
                 raise RuntimeError("Input galaxy IDs must be unique.  Fix input catalog or use generate_unique_ids")
 
+        # The galaxies are ready, so publish the table
+        tab.to_fits_file(self.filename, header=hdr, clobber=True)
+
         self.is_finalized = True
 
         if self.parallel:
-- 
2.43.0


From 62b21dedb941d30dcf47dac07793d17e3dc0c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:32 +0000
Subject: [PATCH 06/48] fix: appending galaxies that are all outside of the
 mask raised an error

---
 redmapper/galaxy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 1758822..03a2c85 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -734,6 +734,10 @@ class GalaxyCatalogMaker(object):
             good = self.mask.compute_radmask(gals['ra'], gals['dec'])
             gals = gals[good]
 
+        if gals.size == 0:
+            # No galaxies in the mask
+            return
+
         ipring = hpg.angle_to_pixel(self.nside, gals['ra'], gals['dec'], nest=False)
 
         h, rev = esutil.stat.histogram(ipring, min=0, max=self.ngals.size-1, rev=True)
-- 
2.43.0


From c11564f3ba0b3a36c0d9b82690c5e461e5d6a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:34 +0000
Subject: [PATCH 07/48] fix: a one-row galaxy or zred file was silently
 repeated when the table expects more rows

---
 redmapper/galaxy.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/redmapper/galaxy.py b/redmapper/galaxy.py
index 03a2c85..f6c3a54 100644
--- a/redmapper/galaxy.py
+++ b/redmapper/galaxy.py
@@ -138,7 +138,7 @@ class GalaxyCatalog(Catalog):
             if len(_hpix) > 0:
                 for _hp in _hpix:
                     if _hp < 0 or _hp >= hpg.nside_to_npixel(nside):
-                        raise ValueError("hpix %d is out of range." % (hp))
+                        raise ValueError("hpix %d is out of range." % (_hp))
 
         if border > 0.0 and len(_hpix) > 0:
             if len(_hpix) != 1:
@@ -306,25 +306,32 @@ class GalaxyCatalog(Catalog):
             except AttributeError:
                 fname = os.path.join(path, tab.filenames[index])
 
+            data = fitsio.read(fname, ext=1, lower=True, columns=columns)
+            if data.size != tab.ngals[index]:
+                raise ValueError("File %s has %d rows instead of the expected %d" % (fname, data.size, tab.ngals[index]))
+
             if use_tempfile:
                 # Read into temporary buffer
                 tempcat = np.zeros(tab.ngals[index], dtype=dtype)
-                tempcat[cat_fields][:] = fitsio.read(fname, ext=1, lower=True, columns=columns)
+                tempcat[cat_fields][:] = data
             else:
-                cat[cat_fields][ctr: ctr + tab.ngals[index]] = fitsio.read(fname, ext=1, lower=True, columns=columns)
+                cat[cat_fields][ctr: ctr + tab.ngals[index]] = data
 
             if use_zred:
-                # Note that this effectively checks that the numbers of rows in each file match properly (though the exception will be cryptic...)
                 try:
                     fname = os.path.join(zpath, ztab.filenames[index].decode())
                 except AttributeError:
                     fname = os.path.join(zpath, ztab.filenames[index])
 
+                data = fitsio.read(fname, ext=1, lower=True)
+                if data.size != tab.ngals[index]:
+                    raise ValueError("File %s has %d rows instead of the expected %d" % (fname, data.size, tab.ngals[index]))
+
                 if use_tempfile:
                     # Read into temporary buffer
-                    tempcat[zcat_fields][:] = fitsio.read(fname, ext=1, lower=True)
+                    tempcat[zcat_fields][:] = data
                 else:
-                    cat[zcat_fields][ctr: ctr + tab.ngals[index]] = fitsio.read(fname, ext=1, lower=True)
+                    cat[zcat_fields][ctr: ctr + tab.ngals[index]] = data
 
             if use_tempfile:
                 # Cut down the tempcat based on refmag low/high and chisq_max
-- 
2.43.0


From d74d3b9f3725b256f016652f2943b934fe1607b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 08/48] fix: a run killed between writing a catalog and its
 members was taken for complete

---
 redmapper/cluster_runner.py | 14 ++++++++------
 redmapper/redmapper_run.py  |  6 ++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index eebad42..bc5362a 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -651,15 +651,17 @@ class ClusterRunner(object):
             self.config.logger.info("Warning: no catalog generated for %s" % (self._filename))
             return
 
-        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
-        self.cat.to_fits_file(self._filename, clobber=clobber)
-
+        # Write the members first, because the presence of the catalog file
+        # signifies that the output is complete.
         if savemembers:
             if self.members is None:
                 self.config.logger.info("Warning: no members generated for %s" % (self._filename))
-                return
-            memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
-            self.members.to_fits_file(memfilename, clobber=clobber)
+            else:
+                memfilename = self.config.redmapper_filename(self.filetype + '_catalog_members', withversion=withversion, outbase=outbase)
+                self.members.to_fits_file(memfilename, clobber=clobber)
+
+        self.config.logger.info("Writing catalog to file: %s" % (self._filename))
+        self.cat.to_fits_file(self._filename, clobber=clobber)
 
     @property
     def filename(self):
diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index da0ea42..b7e44fe 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -359,11 +359,13 @@ class RedmapperRun(object):
         # And write out...
         # We can clobber because if it was already there and we wanted to check
         # that already happened
-        ubercat.to_fits_file(outfile, clobber=True)
-
+        # Write the members first, because the presence of the catalog file
+        # signifies that the output is complete.
         if members:
             ubermem.to_fits_file(memfile, clobber=True)
 
+        ubercat.to_fits_file(outfile, clobber=True)
+
         return outfile
 
     def _worker(self, hpix):
-- 
2.43.0


From 293d44fd6913e65d4b85cd8a14d4338528919fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 09/48] fix: pixel tasks for runcat and zscan could not run or
 were redone on every rerun, and a rerun task could append to its old output

---
 redmapper/pipeline/redmappertask.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index affbfdb..8c0b88e 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -11,6 +11,7 @@ from ..run_likelihoods import RunLikelihoods
 from ..run_percolation import RunPercolation
 from ..run_randoms_zmask import RunRandomsZmask
 from ..run_zscan import RunZScan
+from ..runcat import RunCatalog
 
 from ..utilities import getMemoryString
 
@@ -82,7 +83,7 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(firstpass.filename):
             firstpass.run()
-            firstpass.output(savemembers=False, withversion=False)
+            firstpass.output(savemembers=False, withversion=False, clobber=True)
         else:
             self.config.logger.info("Firstpass file %s already present.  Skipping..." % (firstpass.filename))
 
@@ -95,7 +96,7 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(like.filename):
             like.run()
-            like.output(savemembers=False, withversion=False)
+            like.output(savemembers=False, withversion=False, clobber=True)
         else:
             self.config.logger.info("Likelihood file %s already present.  Skipping..." % (like.filename))
 
@@ -108,7 +109,7 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(perc.filename):
             perc.run()
-            perc.output(savemembers=True, withversion=False)
+            perc.output(savemembers=True, withversion=False, clobber=True)
         else:
             self.config.logger.info("Percolation file %s already present.  Skipping..." % (perc.filename))
 
@@ -175,7 +176,7 @@ class RuncatPixelTask(object):
         runcat = RunCatalog(self.config)
         if not os.path.isfile(runcat.filename):
             runcat.run(do_percolation_masking=self.config.runcat_percolation_masking)
-            runcat.output(savemembers=True, withversion=True)
+            runcat.output(savemembers=True, withversion=False, clobber=True)
 
         self.config.stop_file_logging()
 
@@ -243,7 +244,7 @@ class RunZmaskPixelTask(object):
 
         if not os.path.isfile(rand_zmask.filename):
             rand_zmask.run()
-            rand_zmask.output(savemembers=False, withversion=False)
+            rand_zmask.output(savemembers=False, withversion=False, clobber=True)
 
         # All done
         self.config.stop_file_logging()
@@ -305,7 +306,7 @@ class RunZScanPixelTask(object):
         runzscan = RunZScan(self.config)
         if not os.path.isfile(runzscan.filename):
             runzscan.run()
-            runzscan.output(savemembers=True, withversion=True)
+            runzscan.output(savemembers=True, withversion=False, clobber=True)
 
         self.config.stop_file_logging()
 
-- 
2.43.0


From 9b4765d48eef2cd7256139b43125e8fe901f219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 10/48] fix: a redmapper pixel task failed when the pixel has
 no clusters

---
 redmapper/pipeline/redmappertask.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/redmapper/pipeline/redmappertask.py b/redmapper/pipeline/redmappertask.py
index 8c0b88e..e80f602 100644
--- a/redmapper/pipeline/redmappertask.py
+++ b/redmapper/pipeline/redmappertask.py
@@ -83,6 +83,12 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(firstpass.filename):
             firstpass.run()
+
+            if firstpass.cat is None or firstpass.cat.size == 0:
+                self.config.logger.info("Did not produce a firstpass catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
             firstpass.output(savemembers=False, withversion=False, clobber=True)
         else:
             self.config.logger.info("Firstpass file %s already present.  Skipping..." % (firstpass.filename))
@@ -96,6 +102,12 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(like.filename):
             like.run()
+
+            if like.cat is None or like.cat.size == 0:
+                self.config.logger.info("Did not produce a likelihood catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
             like.output(savemembers=False, withversion=False, clobber=True)
         else:
             self.config.logger.info("Likelihood file %s already present.  Skipping..." % (like.filename))
@@ -109,6 +121,12 @@ class RunRedmapperPixelTask(object):
 
         if not os.path.isfile(perc.filename):
             perc.run()
+
+            if perc.cat is None or perc.cat.size == 0:
+                self.config.logger.info("Did not produce a percolation catalog for pixel %d" % (self.pixel))
+                self.config.stop_file_logging()
+                return
+
             perc.output(savemembers=True, withversion=False, clobber=True)
         else:
             self.config.logger.info("Percolation file %s already present.  Skipping..." % (perc.filename))
-- 
2.43.0


From dbfaae1be3bcbf5421735513ea5da1f1f890925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 11/48] fix: phi1_mmstar_slope was loaded with the value of
 phi1_mmstar_m

---
 redmapper/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 263c8dd..5b41e5c 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -822,7 +822,7 @@ class Configuration(object):
         # New wcen files also record the phi1 information
         if 'phi1_mmstar_m' in wcen[0].dtype.names:
             vals['phi1_mmstar_m'] = wcen[0]['phi1_mmstar_m']
-            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_m']
+            vals['phi1_mmstar_slope'] = wcen[0]['phi1_mmstar_slope']
             vals['phi1_msig_m'] = wcen[0]['phi1_msig_m']
             vals['phi1_msig_slope'] = wcen[0]['phi1_msig_slope']
 
-- 
2.43.0


From 6455f8740a0758c870b1fc97c62b07ed06a8e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 12/48] fix: single-process run of a sub-region failed on a
 config variable that does not exist

---
 redmapper/redmapper_run.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index b7e44fe..6137417 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -168,10 +168,7 @@ class RedmapperRun(object):
         tab = Entry.from_fits_file(self.config.galfile, ext=1)
 
         if self.config.calib_run_nproc == 1:
-            if self.config.d.nside > self.config.calib_run_min_nside:
-                nside_test = self.config.run_min_nside
-            else:
-                nside_test = np.clip(self.config.d.nside, 1, None)
+            nside_test = np.clip(self.config.d.nside, 1, None)
             subpixels = self._get_subpixels(nside_test, tab)
             return (nside_test, subpixels)
 
-- 
2.43.0


From 09faa22e3172034a3ee2ef36ed00b6195349a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 13/48] fix: a failed multiprocess run left its region and seed
 file in the configuration of the caller

---
 redmapper/configuration.py |  5 ++++-
 redmapper/redmapper_run.py | 27 ++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 5b41e5c..84ad0db 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -569,7 +569,10 @@ class Configuration(object):
         """
         Return a copy of the configuration struct
         """
-        return copy.copy(self)
+        config = copy.copy(self)
+        # The per-run settings must not be shared with the original
+        config.d = copy.copy(self.d)
+        return config
 
     def start_file_logging(self, filename=None):
         """
diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 6137417..27d37df 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -113,19 +113,20 @@ class RedmapperRun(object):
         if seedfile is not None:
             # Use the specified seedfile if desired
             self.config.seedfile = seedfile
-        mp_ctx = multiprocessing.get_context("fork")
-        pool = mp_ctx.Pool(processes=self.config.calib_run_nproc)
-        if self.percolation_only:
-            retvals = pool.map(self._percolation_only_worker, pixels_split, chunksize=1)
-            #retvals = list(map(self._percolation_only_worker, pixels_split))
-        else:
-            retvals = pool.map(self._worker, pixels_split, chunksize=1)
-            #retvals = list(map(self._worker, pixels_split))
-        pool.close()
-        pool.join()
-
-        # Reset the seedfile
-        self.config.seedfile = orig_seedfile
+        try:
+            mp_ctx = multiprocessing.get_context("fork")
+            pool = mp_ctx.Pool(processes=self.config.calib_run_nproc)
+            if self.percolation_only:
+                retvals = pool.map(self._percolation_only_worker, pixels_split, chunksize=1)
+                #retvals = list(map(self._percolation_only_worker, pixels_split))
+            else:
+                retvals = pool.map(self._worker, pixels_split, chunksize=1)
+                #retvals = list(map(self._worker, pixels_split))
+            pool.close()
+            pool.join()
+        finally:
+            # Reset the seedfile
+            self.config.seedfile = orig_seedfile
 
         # Consolidate (adds additional mask cuts)
         hpixels_like = [x[0] for x in retvals if x[2] is not None]
-- 
2.43.0


From 80244e64a8ec8fe1e91dae8aed44f6053a10d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 14/48] fix: a red-sequence calibration killed before its
 corrections were fit was taken for complete

---
 redmapper/calibration/redsequencecal.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/redmapper/calibration/redsequencecal.py b/redmapper/calibration/redsequencecal.py
index 2b02802..a5f3fd1 100644
--- a/redmapper/calibration/redsequencecal.py
+++ b/redmapper/calibration/redsequencecal.py
@@ -194,12 +194,15 @@ class RedSequenceCalibrator(object):
         # Compute volume factor
         self._calc_volume_factor(self.config.zrange[1])
 
-        # Write out the parameter file
-        self.save_pars(self.config.parfile, clobber=False)
+        # Write out the parameters without corrections.  These do not go to the
+        # final parfile yet, because its presence signifies that the
+        # calibration is complete.
+        uncorr_parfile = '%s_uncorr.fit' % (os.path.splitext(self.config.parfile)[0])
+        self.save_pars(uncorr_parfile, clobber=True)
 
         # Compute zreds without corrections
         # Later will want this parallelized, I think
-        self._calc_zreds(gals, do_correction=False)
+        self._calc_zreds(gals, do_correction=False, parfile=uncorr_parfile)
 
         # Compute correction (mode1)
         self._calc_corrections(gals)
@@ -207,8 +210,9 @@ class RedSequenceCalibrator(object):
         # Compute correction (mode2)
         self._calc_corrections(gals, mode2=True)
 
-        # And re-save the parameter file
+        # And save the final parameter file
         self.save_pars(self.config.parfile, clobber=True)
+        os.remove(uncorr_parfile)
 
         # Recompute zreds with corrections
         # Later will want this parallelized, I think
@@ -930,7 +934,7 @@ class RedSequenceCalibrator(object):
 
         self.pars.to_fits_file(filename, header=hdr, clobber=clobber)
 
-    def _calc_zreds(self, gals, do_correction=True):
+    def _calc_zreds(self, gals, do_correction=True, parfile=None):
         """
         Calculate the zreds for a set of galaxies, using the newly fit model.
 
@@ -940,10 +944,14 @@ class RedSequenceCalibrator(object):
            Galaxy catalog being fit
         do_corrections: `bool`, optional
            Do redshift afterburner corrections?  Default is True.
+        parfile: `str`, optional
+           Parameter file to use.  Default is None (use self.config.parfile).
         """
 
         # This is temporary
-        zredstr = RedSequenceColorPar(self.config.parfile)
+        if parfile is None:
+            parfile = self.config.parfile
+        zredstr = RedSequenceColorPar(parfile)
 
         zredc = ZredColor(zredstr, do_correction=do_correction)
 
-- 
2.43.0


From f18f8e39d4e096dac78f9a1ba783d8dfaa8c64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 15/48] fix: a run killed before the likelihoods were
 consolidated could not be resumed by the calibration

---
 redmapper/redmapper_run.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 27d37df..5845f53 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -134,15 +134,17 @@ class RedmapperRun(object):
         hpixels_perc = [x[0] for x in retvals if x[3] is not None]
         percfiles = [x[3] for x in retvals if x[3] is not None]
 
+        # Consolidate the likelihoods first, because the presence of the final
+        # file signifies that the run is complete.
+        if consolidate_like:
+            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
+
         # Allow for runs without consolidation
         if consolidate:
             finalfile = self._consolidate(hpixels_perc, percfiles, 'final', members=True, check=check)
         else:
             finalfile = None
 
-        if consolidate_like:
-            likefile = self._consolidate(hpixels_like, likefiles, 'like', members=False, check=check)
-
         # Reset the nside in the config file
         self.config.d.nside = nside_orig
 
-- 
2.43.0


From 49d0b839655fb2640ffa27faf5c826ceeded9e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 16/48] fix: a resumed calibration iteration could use the
 zlambda corrections of an earlier one

---
 redmapper/calibration/calibrate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index a052da8..97a4e54 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -409,11 +409,13 @@ class RedmapperCalibrationIteration(object):
         # Run the cluster finder in specmode (And consolidate likelihoods)
         finalfile = self.config.redmapper_filename('final')
 
+        # There is no zlambda correction until it is calibrated below
+        self.config.zlambdafile = None
+
         if os.path.isfile(finalfile):
             self.config.logger.info('%s already there.  Skipping...' % (finalfile))
         else:
             self.config.logger.info("Running redmapper in specmode with seeds...")
-            self.config.zlambdafile = None
 
             redmapper_run = RedmapperRun(self.config)
             catfile, likefile = redmapper_run.run(specmode=True, keepz=True, consolidate_like=True, seedfile=iter_seedfile, cleaninput=True)
-- 
2.43.0


From 14e79d0499219ba04d981d2c092f622c2bcb0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 17/48] fix: a red galaxy selection killed before writing its
 model was taken for complete

---
 redmapper/calibration/selectspecred.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/redmapper/calibration/selectspecred.py b/redmapper/calibration/selectspecred.py
index 0875a31..fd13621 100644
--- a/redmapper/calibration/selectspecred.py
+++ b/redmapper/calibration/selectspecred.py
@@ -210,11 +210,6 @@ class SelectSpecRedGalaxies(object):
                                 self.config.calib_redspec_nsig * np.sqrt(galcolor_err[u, j]**2. + sc**2.)))
                 mark[u[gd]] = True
 
-        # Output the red galaxies
-        use, = np.where(mark)
-
-        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
-
         # Output the model
         model = Entry(np.zeros(1, dtype=[('nodes', 'f4', nodes.size),
                                          ('meancol', 'f4', meancol.shape),
@@ -229,6 +224,12 @@ class SelectSpecRedGalaxies(object):
 
         model.to_fits_file(self.config.redgalmodelfile, clobber=True)
 
+        # Output the red galaxies last, because the presence of this file
+        # signifies that the selection is complete.
+        use, = np.where(mark)
+
+        gals.to_fits_file(self.config.redgalfile, indices=use, clobber=True)
+
         # And make some plots!
         import matplotlib.pyplot as plt
 
-- 
2.43.0


From 428f92b19a5943f7e23f97b7663b91d006217f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:01 +0000
Subject: [PATCH 18/48] fix: a color training killed between its two outputs
 was taken for complete

---
 redmapper/run_colormem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redmapper/run_colormem.py b/redmapper/run_colormem.py
index 898bcfd..2d225a1 100644
--- a/redmapper/run_colormem.py
+++ b/redmapper/run_colormem.py
@@ -185,7 +185,9 @@ class RunColormem(ClusterRunner):
 
         savemem = self.members[use]
 
-        savemem.to_fits_file(self.config.zmemfile)
-
         # This should get a better name...
-        self.cat.to_fits_file(self.config.redmapper_filename('colorcat'))
+        self.cat.to_fits_file(self.config.redmapper_filename('colorcat'), clobber=True)
+
+        # Write the members last, because the presence of this file signifies
+        # that the training is complete.
+        savemem.to_fits_file(self.config.zmemfile)
-- 
2.43.0


From 4acdfd6db32c256ca2d7d8f318bfb4848db6610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 19/48] fix: an interrupted write of the centering parameters
 was taken for complete

---
 redmapper/calibration/centeringcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redmapper/calibration/centeringcal.py b/redmapper/calibration/centeringcal.py
index da57e6f..07065ab 100644
--- a/redmapper/calibration/centeringcal.py
+++ b/redmapper/calibration/centeringcal.py
@@ -11,6 +11,7 @@ from ..configuration import Configuration
 from ..utilities import sample_from_pdf, histoGauss, chisq_pdf
 from ..redsequence import RedSequenceColorPar
 from ..background import Background
+from ..catalog import Catalog
 from ..cluster import ClusterCatalog
 from ..galaxy import GalaxyCatalog
 
@@ -437,7 +438,7 @@ class WcenCalibrator(object):
         wcenstr['phi1_msig_m'] = self.phi1_msig_m
         wcenstr['phi1_msig_slope'] = self.phi1_msig_slope
 
-        fitsio.write(self.config.wcenfile, wcenstr, clobber=True)
+        Catalog(wcenstr).to_fits_file(self.config.wcenfile, clobber=True)
 
     def _schechter_montecarlo_calib(self, testing=False):
         """
-- 
2.43.0


From 7b136792e391c9769dc6563e4a007ec3505a08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 20/48] fix: a color background killed between its extensions
 was taken for complete

---
 redmapper/color_background.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/redmapper/color_background.py b/redmapper/color_background.py
index 86aec8b..34ffc44 100644
--- a/redmapper/color_background.py
+++ b/redmapper/color_background.py
@@ -6,6 +6,7 @@ import fitsio
 import numpy as np
 import esutil
 import os
+import uuid
 
 from .catalog import Entry
 from .utilities import interpol
@@ -371,6 +372,11 @@ class ColorBackgroundGenerator(object):
         else:
             areas = np.zeros(refmagbins.size) + self.config.area
 
+        # The extensions are written to a temporary file, which is moved in
+        # place when it is complete.
+        temp_filename = os.path.join(os.path.dirname(self.config.bkgfile_color),
+                                     '.%s_%s' % (uuid.uuid4().hex, os.path.basename(self.config.bkgfile_color)))
+
         for i in range(ncol):
             for j in range(i, ncol):
                 if (i == j):
@@ -496,12 +502,10 @@ class ColorBackgroundGenerator(object):
                 extname = "%02d_%02d_REF" % (i, j)
                 hdr = fitsio.FITSHDR()
                 hdr['AREA'] = self.config.area
-                if i == 0 and j == 0:
-                    startClobber = True
-                else:
-                    startClobber = False
 
-                fitsio.write(self.config.bkgfile_color, outstr, extname=extname, header=hdr, clobber=startClobber)
+                fitsio.write(temp_filename, outstr, extname=extname, header=hdr)
+
+        os.replace(temp_filename, self.config.bkgfile_color)
 
 
 
-- 
2.43.0


From 86e1d73abc71f9b95af07852e2911f687e6dfdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 21/48] fix: an interrupted write left an incomplete zred pixel
 file

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index 16c2302..c90ed7f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -286,7 +286,7 @@ class ZredRunPixels(object):
         outfile_nopath = '%s_zreds_%07d.fit' % (self.outbase, self.galtable.hpix[index])
         outfile = os.path.join(self.zredpath, outfile_nopath)
 
-        fitsio.write(outfile, zreds, clobber=True)
+        Catalog(zreds).to_fits_file(outfile, clobber=True)
 
         return (index, outfile)
 
-- 
2.43.0


From 94702d8d2f92f49048cb7b6572349cbf0e7a8738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 22/48] fix: zreds could not be computed for fewer galaxies
 than processes

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index c90ed7f..f56be7f 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -75,7 +75,7 @@ class ZredRunCatalog(object):
 
         if nperproc is None:
             nperproc = int(float(ngal) / (self.config.calib_nproc - 0.1))
-            nperproc = np.clip(nperproc, None, maxperproc)
+            nperproc = np.clip(nperproc, 1, maxperproc)
 
         inds = np.arange(0, ngal, nperproc)
         worker_list = [(ind, np.clip(ind + nperproc, None, ngal)) for ind in inds]
-- 
2.43.0


From c3181b7354ff7a0f346fe394c3d6b554ac1bc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 23/48] fix: jobs could find an incomplete volume limit mask
 while another one builds it or after it was killed

---
 redmapper/volumelimit.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index cfc6667..951b56a 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -5,6 +5,7 @@ import hpgeom as hpg
 import numpy as np
 import esutil
 import os
+import uuid
 import healsparse
 
 from .catalog import Catalog, Entry
@@ -205,7 +206,7 @@ class VolumeLimitMask(object):
 
         sparse_vlimmap.update_values_pix(validPixels[gd], vlimmap[gd])
 
-        sparse_vlimmap.write(self.vlimfile)
+        self._write_mask(sparse_vlimmap)
 
     def _build_geometry_mask(self):
         """
@@ -234,7 +235,29 @@ class VolumeLimitMask(object):
 
         sparse_vlimmap.update_values_pix(validPixels, vlimmap)
 
-        sparse_vlimmap.write(self.vlimfile)
+        self._write_mask(sparse_vlimmap)
+
+    def _write_mask(self, sparse_vlimmap):
+        """
+        Write a volume-limit mask to self.vlimfile.
+
+        The mask is written to a temporary file and moved in place when it is
+        complete, so that other jobs never find an incomplete mask.
+
+        Parameters
+        ----------
+        sparse_vlimmap: `healsparse.HealSparseMap`
+           Volume-limit map to write.
+        """
+        temp_filename = os.path.join(os.path.dirname(self.vlimfile),
+                                     '.%s_%s' % (uuid.uuid4().hex, os.path.basename(self.vlimfile)))
+        try:
+            sparse_vlimmap.write(temp_filename)
+            os.replace(temp_filename, self.vlimfile)
+        except Exception:
+            if os.path.isfile(temp_filename):
+                os.remove(temp_filename)
+            raise
 
     def calc_zmax(self, ras, decs, get_fracgood=False):
         """
-- 
2.43.0


From b84f94912907e4c15f12baa322d96b20c446a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 24/48] fix: volume limit mask swapped its record of subregion
 pixel and nside

---
 redmapper/volumelimit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 951b56a..24fa114 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -88,8 +88,8 @@ class VolumeLimitMask(object):
         self.sparse_vlimmap = healsparse.HealSparseMap.read(self.vlimfile, pixels=covpixels)
 
         self.nside = self.sparse_vlimmap.nside_sparse
-        self.subpix_nside = self.config.d.hpix
-        self.subpix_hpix = self.config.d.nside
+        self.subpix_nside = self.config.d.nside
+        self.subpix_hpix = self.config.d.hpix
         self.subpix_border = self.config.border
 
     def _build_mask(self):
-- 
2.43.0


From 9602061c6883047fdad7deef5021fdbc291baac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 25/48] fix: randoms were compared to the volume limit at the
 position of another random

---
 redmapper/randoms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redmapper/randoms.py b/redmapper/randoms.py
index 5abc9b6..84bb9e7 100644
--- a/redmapper/randoms.py
+++ b/redmapper/randoms.py
@@ -3,6 +3,7 @@
 
 import fitsio
 import esutil
+import os
 import re
 import copy
 import numpy as np
@@ -108,6 +109,7 @@ class GenerateRandoms(object):
             tempcat = Catalog(np.zeros(gd.size, dtype=dtype))
             tempcat.ra = ra_rand[gd]
             tempcat.dec = dec_rand[gd]
+            zmax = zmax[gd]
             tempcat.z = -1.0
 
             r = rng.choice(np.arange(self.redmapper_cat.size), size=gd.size, replace=True)
-- 
2.43.0


From 497e3d050040c4ce4be695d2dcb1e8aff01f7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 26/48] fix: modified default settings leaked into
 configurations read later, and an interrupted output_yaml left an incomplete
 file

---
 redmapper/configuration.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index 84ad0db..d4c8d54 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -9,6 +9,7 @@ from esutil.cosmology import Cosmo
 import numpy as np
 import re
 import os
+import uuid
 import logging
 
 from .cluster import cluster_dtype_base, member_dtype_base
@@ -78,7 +79,8 @@ class ConfigField(object):
 
     def reset(self):
         """Reset the value to the default."""
-        self._value = self._default
+        # Copy the default so that it is not changed when the value is modified
+        self._value = copy.deepcopy(self._default)
 
     def set_length(self, length):
         """Set the desired array length.
@@ -956,8 +958,17 @@ class Configuration(object):
                     except (ValueError, AttributeError, TypeError):
                         out_dict[key] = type(self).__dict__[key]._value
 
-        with open(filename, 'w') as f:
-            yaml.dump(out_dict, stream=f)
+        # Write to a temporary file and move it in place when it is complete
+        temp_filename = os.path.join(os.path.dirname(filename),
+                                     '.%s_%s' % (uuid.uuid4().hex, os.path.basename(filename)))
+        try:
+            with open(temp_filename, 'w') as f:
+                yaml.dump(out_dict, stream=f)
+            os.replace(temp_filename, filename)
+        except Exception:
+            if os.path.isfile(temp_filename):
+                os.remove(temp_filename)
+            raise
 
     def compute_border(self):
         """
-- 
2.43.0


From b227c522616ecd007b8c409a6a00522b1adc91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:03 +0000
Subject: [PATCH 27/48] fix: a resumed calibration added a second table to the
 seed zred file

---
 redmapper/calibration/calibrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/calibration/calibrate.py b/redmapper/calibration/calibrate.py
index 97a4e54..7435b45 100644
--- a/redmapper/calibration/calibrate.py
+++ b/redmapper/calibration/calibrate.py
@@ -393,7 +393,7 @@ class RedmapperCalibrationIteration(object):
             self.config.logger.info("Generating iteration seedfile...")
             seedzredfile = self.config.redmapper_filename('specseeds_zreds')
             zredRuncat = ZredRunCatalog(self.config)
-            zredRuncat.run(self.config.seedfile, seedzredfile)
+            zredRuncat.run(self.config.seedfile, seedzredfile, clobber=True)
 
             # Now combine seeds with zreds
             seeds = Catalog.from_fits_file(self.config.seedfile, ext=1)
@@ -585,7 +585,7 @@ class RedmapperCalibrationIterationFinal(object):
             self.config.logger.info("Creating final iteration seeds...")
             seedzredfile = self.config.redmapper_filename('specseeds_zreds')
             zredRuncat = ZredRunCatalog(self.config)
-            zredRuncat.run(self.config.seedfile, seedzredfile)
+            zredRuncat.run(self.config.seedfile, seedzredfile, clobber=True)
 
             # Now combine seeds with zreds
             seeds = Catalog.from_fits_file(self.config.seedfile, ext=1)
-- 
2.43.0


From 734510428186bc89640b366e3b082c2787596317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:50 +0000
Subject: [PATCH 28/48] fix: read_members did not find the members of a catalog
 with a name ending in f, i or t

---
 redmapper/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/utilities.py b/redmapper/utilities.py
index 071080f..241edcd 100644
--- a/redmapper/utilities.py
+++ b/redmapper/utilities.py
@@ -1092,7 +1092,7 @@ def read_members(catfile):
 
     from .galaxy import GalaxyCatalog
 
-    memfile = '%s_members.fit' % (catfile.rstrip('.fit'))
+    memfile = '%s_members.fit' % (os.path.splitext(catfile)[0])
 
     if not os.path.isfile(memfile):
         raise RuntimeError("Could not find member file %s" % (memfile))
-- 
2.43.0


From 22c6c1a6deb904953a56a4d1a426f0237bd790c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:50 +0000
Subject: [PATCH 29/48] fix: consolidation took pixel numbers from the path and
 missed pixels above 99999

---
 .../pipeline/redmapperconsolidatetask.py      | 70 +++++++++++--------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index e9169d6..a75e545 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -15,6 +15,34 @@ from ..utilities import read_members, astro_to_sphere
 from ..plotting import SpecPlot, NzPlot, NLambdaPlot, PositionPlot
 from ..galaxy import GalaxyCatalog
 
+def _find_pixel_catalogs(config, cattype):
+    """
+    Find the pixel catalogs of a distributed run.
+
+    Parameters
+    ----------
+    config: `redmapper.Configuration`
+       Configuration object
+    cattype: `str`
+       Type of catalog (e.g. 'final', 'runcat').
+
+    Returns
+    -------
+    catfiles: `list`
+       List of (filename, nside, hpix) tuples, sorted by filename.
+    """
+    regex = re.compile(r'%s_(?:.*_)?(\d+)_(\d{5,})_%s_catalog\.fit' % (re.escape(config.outbase), re.escape(cattype)))
+
+    catfiles = []
+    for catfile in sorted(glob.glob(os.path.join(glob.escape(config.outpath), '*_%s_catalog.fit' % (cattype)))):
+        # Only match the filename, and not the path
+        m = regex.fullmatch(os.path.basename(catfile))
+        if m is not None:
+            catfiles.append((catfile, int(m.groups()[0]), int(m.groups()[1])))
+
+    return catfiles
+
+
 class RedmapperConsolidateTask(object):
     """
     Class to consolidate a distributed redmapper run.
@@ -75,16 +103,15 @@ class RedmapperConsolidateTask(object):
         """
 
         # find the files
-        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_?????_final_catalog.fit' % (self.config.outbase))))
+        catfiles = _find_pixel_catalogs(self.config, 'final')
 
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
-        # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
-        if m is None:
-            raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
+        if len(catfiles) == 0:
+            raise RuntimeError("No catalog files to consolidate in %s" % (self.config.outpath))
 
-        nside = int(m.groups()[0])
+        # Extract the nside that was run
+        nside = catfiles[0][1]
 
         if match_spec and not self.config.has_truth:
             spec = GalaxyCatalog.from_fits_file(self.config.specfile)
@@ -118,7 +145,7 @@ class RedmapperConsolidateTask(object):
         all_ids = np.zeros(0, dtype=np.int32)
         all_likelihoods = np.zeros(0, dtype=np.float64)
 
-        for catfile in catfiles:
+        for catfile, _, hpix in catfiles:
             # Read in catalog
             self.config.logger.info("Reading %s" % (os.path.basename(catfile)))
             cat = Catalog.from_fits_file(catfile, ext=1)
@@ -126,14 +153,6 @@ class RedmapperConsolidateTask(object):
             # and read in members
             mem = read_members(catfile)
 
-            # Extract pixnum from name
-
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
-            if m is None:
-                raise RuntimeError("Could not understand filename for %s" % (catfile))
-
-            hpix = int(m.groups()[1])
-
             if match_spec and not self.config.has_truth:
                 # match spec to cat and mem
                 cat.cg_spec_z[:] = -1.0
@@ -329,16 +348,15 @@ class RuncatConsolidateTask(object):
            Consolidate members as well as catalog?
         """
         # find the files
-        catfiles = sorted(glob.glob(os.path.join(self.config.outpath, '%s_*_?????_%s_catalog.fit' % (self.config.outbase, cattype))))
+        catfiles = _find_pixel_catalogs(self.config, cattype)
 
         self.config.logger.info("Found %d catalog files in %s" % (len(catfiles), self.config.outpath))
 
-        # Extract the nside that was run
-        m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfiles[0])
-        if m is None:
-            raise RuntimeError("Could not understand filename for %s" % (catfiles[0]))
+        if len(catfiles) == 0:
+            raise RuntimeError("No catalog files to consolidate in %s" % (self.config.outpath))
 
-        nside = int(m.groups()[0])
+        # Extract the nside that was run
+        nside = catfiles[0][1]
 
         if match_spec and not self.config.has_truth:
             spec = GalaxyCatalog.from_fits_file(self.config.specfile)
@@ -346,7 +364,7 @@ class RuncatConsolidateTask(object):
             spec = spec[use]
 
         started = False
-        for catfile in catfiles:
+        for catfile, _, hpix in catfiles:
             # Read in catalog
             self.config.logger.info("Reading %s" % (os.path.basename(catfile)))
             cat = Catalog.from_fits_file(catfile, ext=1)
@@ -355,14 +373,6 @@ class RuncatConsolidateTask(object):
             if consolidate_members:
                 mem = read_members(catfile)
 
-            # Extract pixnum from name
-
-            m = re.search(r'_(\d+)_(\d\d\d\d\d)_', catfile)
-            if m is None:
-                raise RuntimeError("Could not understand filename for %s" % (catfile))
-
-            hpix = int(m.groups()[1])
-
             if match_spec and not self.config.has_truth:
                 # match spec to cat and mem
                 cat.cg_spec_z[:] = -1.0
-- 
2.43.0


From de938b7f76d7c70eaecfbbc8c6e770dc84b9ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:50 +0000
Subject: [PATCH 30/48] fix: consolidation failed with select_scaleval or when
 no clusters survive one of the cuts

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index a75e545..ab1191f 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -179,8 +179,6 @@ class RedmapperConsolidateTask(object):
 
             # Note: when adding mock support, read in true galaxies to get members
 
-            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
-
             # Figure out which clusters are in the pixel, less than
             # max_maskfrac, and above percolation_minlambda (with or without
             # scale)
@@ -198,6 +196,8 @@ class RedmapperConsolidateTask(object):
 
             cat = cat[use]
 
+            scaleval = cat.scaleval if self.config.select_scaleval else 1.0
+
             # match catalog with members via mem_match_id
             a, b = esutil.numpy_util.match(cat.mem_match_id, mem.mem_match_id)
 
@@ -265,6 +265,10 @@ class RedmapperConsolidateTask(object):
 
         for i, minlambda in enumerate(self.lambda_cuts):
             for j, vlim_mask in enumerate(vlim_masks):
+                if not started[i, j]:
+                    # There are no clusters for this combination
+                    continue
+
                 catfits = fitsio.FITS(cat_filename_dict[(i, j)][1], mode='rw')
                 memfits = fitsio.FITS(cat_filename_dict[(i, j)][2], mode='rw')
 
-- 
2.43.0


From bfc6f0ed983b38fdeaca8c1d995b69cc39e4300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:50 +0000
Subject: [PATCH 31/48] fix: runcat consolidation kept the members of clusters
 outside of the pixel, and could not make plots

---
 redmapper/pipeline/redmapperconsolidatetask.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index ab1191f..239e098 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -414,6 +414,10 @@ class RuncatConsolidateTask(object):
 
             cat = cat[use]
 
+            if consolidate_members:
+                # Only keep the members of these clusters
+                mem = mem[np.isin(mem.mem_match_id, cat.mem_match_id)]
+
             if not started:
                 # Figure out filename
                 cat_fname = self.config.redmapper_filename('%s_catalog' % (cattype), withversion=True)
@@ -431,9 +435,9 @@ class RuncatConsolidateTask(object):
                     with fitsio.FITS(mem_fname, mode='rw') as fits:
                         fits[1].append(mem._ndarray)
 
-        if do_plots:
+        if do_plots and started:
             cat = Catalog.from_fits_file(cat_fname)
-            self.config.d.outbase = cat_name
+            self.config.d.outbase = os.path.basename(cat_fname).split('_catalog')[0]
             specplot = SpecPlot(self.config)
 
             if self.config.has_truth:
-- 
2.43.0


From 9b3c5acfabce58bdcb49b36069aa7e2f7c3e2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:10 +0000
Subject: [PATCH 32/48] fix: consolidation mixed up the clusters of two cuts
 that have the same filename

---
 redmapper/pipeline/redmapperconsolidatetask.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/pipeline/redmapperconsolidatetask.py b/redmapper/pipeline/redmapperconsolidatetask.py
index 239e098..9d3e94a 100644
--- a/redmapper/pipeline/redmapperconsolidatetask.py
+++ b/redmapper/pipeline/redmapperconsolidatetask.py
@@ -237,6 +237,9 @@ class RedmapperConsolidateTask(object):
                         cat_fname = self.config.redmapper_filename(extraname + '_catalog', withversion=True)
                         mem_fname = self.config.redmapper_filename(extraname + '_catalog_members', withversion=True)
 
+                        if cat_fname in [names[1] for names in cat_filename_dict.values()]:
+                            raise RuntimeError("Two consolidation cuts have the same filename %s" % (cat_fname))
+
                         parts = os.path.basename(cat_fname).split('_catalog')
                         cat_filename_dict[(i, j)] = (parts[0], cat_fname, mem_fname)
 
-- 
2.43.0


From fad1d31fdfbc1a6677913205219f5f509fc1fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:15 +0000
Subject: [PATCH 33/48] fix: members were not found when consolidating in a
 directory with .fit in its name

---
 redmapper/redmapper_run.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redmapper/redmapper_run.py b/redmapper/redmapper_run.py
index 5845f53..40d48ab 100644
--- a/redmapper/redmapper_run.py
+++ b/redmapper/redmapper_run.py
@@ -317,8 +317,7 @@ class RedmapperRun(object):
             cat = cat[use]
 
             if members:
-                parts = f.split('.fit')
-                mem = Catalog.from_fits_file(parts[0] + '_members.fit')
+                mem = Catalog.from_fits_file(os.path.splitext(f)[0] + '_members.fit')
 
                 # We are going to replace the mem_match_ids in the consolidated catalog,
                 # because the ones generated in the pixels aren't unique
-- 
2.43.0


From 07de5143fbc427b7c0381563ad27fab8632a5d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:14 +0000
Subject: [PATCH 34/48] fix: random z-mask jobs failed without a depth map

---
 redmapper/cluster_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index bc5362a..fab622f 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -73,6 +73,7 @@ class ClusterRunner(object):
         self.use_parfile = True
         self.use_maxmag_in_matching = True
         self.use_rmask_settings = True
+        self.cutgals_bkgrange = False
         self.cutgals_chisqmax = False
         self._filename = None
 
-- 
2.43.0


From bc3a8f84f685feeb54c3cbd6ee09bff141a981ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:27 +0000
Subject: [PATCH 35/48] fix: percolation took more than the whole of a galaxy

The probability taken by a cluster is p*pfree; adding p itself could bring
the total above 1, and the galaxy then counted negatively for later clusters.
---
 redmapper/cluster_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index fab622f..409732d 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -512,7 +512,7 @@ class ClusterRunner(object):
                                   (cluster.neighbors.r < r_mask) &
                                   (cluster.neighbors.p > 0.0))
                     if (u.size > 0):
-                        self.pgal[cluster.neighbors.index[u]] += cluster.neighbors.p[u]
+                        self.pgal[cluster.neighbors.index[u]] += cluster.neighbors.p[u] * cluster.neighbors.pfree[u]
 
                 # and save members
                 # Note that this is probably horribly inefficient for memory
-- 
2.43.0


From 52ee8c3cb136536a0d13001eef08b4bdd917dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:41 +0000
Subject: [PATCH 36/48] fix: an error reading the depth map or the zlambda
 corrections silently changed the results

Only a missing file, or a depth map that does not cover the region, means
that there is nothing to use.
---
 redmapper/cluster_runner.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/redmapper/cluster_runner.py b/redmapper/cluster_runner.py
index 409732d..d6c189c 100644
--- a/redmapper/cluster_runner.py
+++ b/redmapper/cluster_runner.py
@@ -162,10 +162,10 @@ class ClusterRunner(object):
             self.zredstr = RedSequenceColorPar(None, config=self.config)
 
         # And correction parameters
-        try:
+        if self.config.zlambdafile is not None and os.path.isfile(self.config.zlambdafile):
             self.zlambda_corr = ZlambdaCorrectionPar(parfile=self.config.zlambdafile,
                                                      zlambda_pivot=self.config.zlambda_pivot)
-        except:
+        else:
             self.zlambda_corr = None
 
         # read in mask (if available)
@@ -174,10 +174,16 @@ class ClusterRunner(object):
         self.mask = get_mask(self.config)
 
         # read in the depth structure
-        try:
-            self.depthstr = DepthMap(self.config)
-        except:
-            self.depthstr = None
+        self.depthstr = None
+        if self.config.depthfile is not None and os.path.isfile(self.config.depthfile):
+            try:
+                self.depthstr = DepthMap(self.config)
+            except NotImplementedError:
+                # This is how healsparse reports a file that it cannot read
+                raise
+            except RuntimeError:
+                # The depth map does not cover this region
+                pass
 
         if self.depthstr is None and not self.read_gals:
             raise RuntimeError("Must have a valid depthstr if read_gals is False")
-- 
2.43.0


From eea871487a6daaa21183dd1eab786a16bd1e2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 37/48] fix: zreds of a catalog file could not be computed with
 zred_nsamp of 1

---
 redmapper/zred_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/zred_runner.py b/redmapper/zred_runner.py
index f56be7f..044de18 100644
--- a/redmapper/zred_runner.py
+++ b/redmapper/zred_runner.py
@@ -93,7 +93,7 @@ class ZredRunCatalog(object):
             zreds.zred2_e[ind_range[0]: ind_range[1]] = zred2_e
             zreds.zred_uncorr[ind_range[0]: ind_range[1]] = zred_uncorr
             zreds.zred_uncorr_e[ind_range[0]: ind_range[1]] = zred_uncorr_e
-            zreds.zred_samp[ind_range[0]: ind_range[1], :] = zred_samp
+            zreds.zred_samp[ind_range[0]: ind_range[1]] = zred_samp
             zreds.lkhd[ind_range[0]: ind_range[1]] = lkhd
             zreds.chisq[ind_range[0]: ind_range[1]] = chisq
 
-- 
2.43.0


From b05359c08571823d416245bf98cb74c286445403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:39 +0000
Subject: [PATCH 38/48] fix: the galaxy background depended on the number of
 processes

---
 redmapper/background.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index ea62073..121513b 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -440,9 +440,10 @@ class BackgroundGenerator(object):
         starttime = time.time()
 
         zbins_use = self.zbins[zbinmark]
-        zrange_use = np.array([zbins_use[0], zbins_use[-1] + self.config.bkg_zbinsize])
+        zrange_use = np.array([self.zbins[0], self.zbins[-1] + self.config.bkg_zbinsize])
 
-        # We need to load in the red sequence structure -- just in the specific redshift range
+        # We need to load in the red sequence structure -- with the same redshift
+        # range for all the workers so that the result does not depend on the split
         zredstr = RedSequenceColorPar(self.config.parfile, zrange=zrange_use)
 
         zredstrbinsize = zredstr.z[1] - zredstr.z[0]
-- 
2.43.0


From c23234d3ef4dd6011170898b57169690d085741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:39 +0000
Subject: [PATCH 39/48] fix: the galaxy background of a galaxy file that is not
 pixelized was empty

---
 redmapper/background.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/background.py b/redmapper/background.py
index 121513b..6e5f7ec 100644
--- a/redmapper/background.py
+++ b/redmapper/background.py
@@ -494,14 +494,14 @@ class BackgroundGenerator(object):
         ctr = 0
         p = 0
         # This covers both loops
-        while ((ctr < ngal) and (p < npix)):
+        while ((ctr < ngal) and (p < npix or not self.config.galfile_pixelized)):
             # Read in a section of the galaxies, or the pixel
             if not self.config.galfile_pixelized:
                 lo = ctr
                 hi = np.clip(ctr + self.natatime, None, ngal)
 
                 gals = GalaxyCatalog.from_fits_file(self.config.galfile, rows=np.arange(lo, hi))
-                ctr = hi + 1
+                ctr = hi
             else:
                 if master.ngals[subreg_indices[p]] == 0:
                     p += 1
-- 
2.43.0


From 8f89a0d7f6d1121849ce209cd80f9687fba9e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:27 +0000
Subject: [PATCH 40/48] fix: a job restricted to several pixels of one coverage
 pixel could not read its maps

---
 redmapper/depthmap.py    | 2 ++
 redmapper/mask.py        | 2 ++
 redmapper/volumelimit.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/redmapper/depthmap.py b/redmapper/depthmap.py
index 4c93fb2..3310344 100644
--- a/redmapper/depthmap.py
+++ b/redmapper/depthmap.py
@@ -57,6 +57,8 @@ class DepthMap(object):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            # (several sub-pixels may lie in the same coverage pixel)
+            covpixels = np.unique(covpixels) if covpixels is not None else None
         else:
             covpixels = None
 
diff --git a/redmapper/mask.py b/redmapper/mask.py
index cad3570..58a7d4c 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -361,6 +361,8 @@ class HPMask(Mask):
         if len(config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(config.d.nside, config.d.hpix,
                                                       config.border, nside_coverage)
+            # (several sub-pixels may lie in the same coverage pixel)
+            covpixels = np.unique(covpixels) if covpixels is not None else None
         else:
             # Read in the whole thing
             covpixels = None
diff --git a/redmapper/volumelimit.py b/redmapper/volumelimit.py
index 24fa114..c46336d 100644
--- a/redmapper/volumelimit.py
+++ b/redmapper/volumelimit.py
@@ -82,6 +82,8 @@ class VolumeLimitMask(object):
         if len(self.config.d.hpix) > 0:
             covpixels = get_healsparse_subpix_indices(self.config.d.nside, self.config.d.hpix,
                                                       self.config.border, nside_coverage)
+            # (several sub-pixels may lie in the same coverage pixel)
+            covpixels = np.unique(covpixels) if covpixels is not None else None
         else:
             covpixels = None
 
-- 
2.43.0


From 239877f9499b82d88d3e226a0d0d09d0234149d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:32 +0000
Subject: [PATCH 41/48] fix: redMaGiC galaxies could not be selected with
 zred_nsamp of 1

---
 redmapper/redmagic/redmagic_calibrate.py | 4 ++--
 redmapper/redmagic/redmagic_selector.py  | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/redmapper/redmagic/redmagic_calibrate.py b/redmapper/redmagic/redmagic_calibrate.py
index cb37933..e5b3a16 100644
--- a/redmapper/redmagic/redmagic_calibrate.py
+++ b/redmapper/redmagic/redmagic_calibrate.py
@@ -511,7 +511,7 @@ class RedmagicCalibrator(object):
             calstr.buffer = self.config.redmagic_calib_redshift_buffer
 
             # Take the first sample of each galaxy
-            zsamp = gals.zred_samp[:, 0].copy()
+            zsamp = gals.zred_samp.reshape((gals.size, -1))[:, 0].copy()
 
             # Initial histogram, using sampled redshifts
             # This histogram isn't actually used for anything except to confirm the size
@@ -645,7 +645,7 @@ class RedmagicCalibrator(object):
                                                             return_indices=True)
             gals.zredmagic[gd] = redgals.zredmagic
             gals.zredmagic_e[gd] = redgals.zredmagic_e
-            gals.zredmagic_samp[gd, :] = redgals.zredmagic_samp
+            gals.zredmagic_samp[gd] = redgals.zredmagic_samp
 
             # make pretty plots
             nzplot = NzPlot(self.config, binsize=self.config.redmagic_calib_zbinsize)
diff --git a/redmapper/redmagic/redmagic_selector.py b/redmapper/redmagic/redmagic_selector.py
index 627c60e..f7d611b 100644
--- a/redmapper/redmagic/redmagic_selector.py
+++ b/redmapper/redmagic/redmagic_selector.py
@@ -143,7 +143,8 @@ class RedmagicSelector(object):
         zredmagic = np.copy(gals.zred_uncorr)
         zredmagic_e = np.copy(gals.zred_uncorr_e)
         try:
-            zredmagic_samp = np.copy(gals.zred_samp)
+            # (a single sample per galaxy is stored as a plain column)
+            zredmagic_samp = np.copy(gals.zred_samp).reshape((zredmagic.size, -1))
         except (ValueError, AttributeError) as e:
             # Sample from zred + zred_e (not optimal, for old catalogs)
             zredmagic_samp = np.zeros((zredmagic.size, 1))
@@ -208,7 +209,10 @@ class RedmagicSelector(object):
         redmagic_catalog.mag_err[:, :] = gals.mag_err[gd, :]
         redmagic_catalog.zredmagic = zredmagic[gd]
         redmagic_catalog.zredmagic_e = zredmagic_e[gd]
-        redmagic_catalog.zredmagic_samp = zredmagic_samp[gd, :]
+        if redmagic_catalog.zredmagic_samp.ndim == 1:
+            redmagic_catalog.zredmagic_samp = zredmagic_samp[gd, 0]
+        else:
+            redmagic_catalog.zredmagic_samp = zredmagic_samp[gd, :]
         redmagic_catalog.chisq = gals.chisq[gd]
 
         # Compute the luminosity
-- 
2.43.0


From 699581b27400057d441ecc1b06a303d9cb89161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:32 +0000
Subject: [PATCH 42/48] fix: the redMaGiC selection failed for pixels with a
 single galaxy

---
 redmapper/redmagic/redmagic_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redmapper/redmagic/redmagic_selector.py b/redmapper/redmagic/redmagic_selector.py
index f7d611b..233316b 100644
--- a/redmapper/redmagic/redmagic_selector.py
+++ b/redmapper/redmagic/redmagic_selector.py
@@ -168,7 +168,7 @@ class RedmagicSelector(object):
             zredmagic_e *= spl(gals.zred_uncorr)
 
         # Compute mstar
-        mstar = self.zredstr.mstar(zredmagic)
+        mstar = np.atleast_1d(self.zredstr.mstar(zredmagic))
 
         # Compute the maximum redshift
         vmask = self.vlim_masks[_mode]
-- 
2.43.0


From db82bb774799d9eb6c4a579bf388818d0d95a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:58 +0000
Subject: [PATCH 43/48] fix: a calibration plot killed while being saved was
 taken for complete

---
 redmapper/plotting.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/redmapper/plotting.py b/redmapper/plotting.py
index 16b4027..b5e0ad5 100644
--- a/redmapper/plotting.py
+++ b/redmapper/plotting.py
@@ -1,6 +1,7 @@
 """Classes for making pretty diagnostic plots for redmapper catalogs
 """
 import os
+import uuid
 import numpy as np
 import fitsio
 import esutil
@@ -257,7 +258,18 @@ class SpecPlot(object):
 
         if not figure_return:
             self._withversion = withversion
-            fig.savefig(self.filename)
+            # Save to a temporary file and move it in place when it is
+            # complete, because the calibration skips plots that are present.
+            filename = self.filename
+            temp_filename = os.path.join(os.path.dirname(filename),
+                                         '.%s_%s' % (uuid.uuid4().hex, os.path.basename(filename)))
+            try:
+                fig.savefig(temp_filename)
+                os.replace(temp_filename, filename)
+            except Exception:
+                if os.path.isfile(temp_filename):
+                    os.remove(temp_filename)
+                raise
             plt.close(fig)
         else:
             return fig
-- 
2.43.0


From 72d2c0851e573271a688ae5de9f2116645e2cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:53 +0000
Subject: [PATCH 44/48] fix: redMaGiC randoms keep their unit weights

---
 redmapper/redmagic/redmagic_randoms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index bc78b6d..d0c1aff 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -80,9 +80,6 @@ class RedmagicGenerateRandoms(object):
 
         randcat = Catalog(np.zeros(nrandoms, dtype=dtype))
 
-        # Not used at the moment
-        randcat.weight[:] = 1.0
-
         while (n_left > 0):
             n_gen = np.clip(n_left * 3, min_gen, max_gen)
             ra_rand, dec_rand = healsparse.make_uniform_randoms(self.vlim_mask.sparse_vlimmap,
@@ -134,4 +131,7 @@ class RedmagicGenerateRandoms(object):
             ctr += n_good
             n_left -= n_good
 
+        # Not used at the moment
+        randcat.weight[:] = 1.0
+
         randcat.to_fits_file(filename, clobber=True)
-- 
2.43.0


From b447b45c14c6115b09cf300f33d78c4e8951da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:31 +0000
Subject: [PATCH 45/48] fix: redMaGiC randoms can be made from a mask file and
 a catalog file

---
 redmapper/redmagic/redmagic_randoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redmapper/redmagic/redmagic_randoms.py b/redmapper/redmagic/redmagic_randoms.py
index d0c1aff..05ee330 100644
--- a/redmapper/redmagic/redmagic_randoms.py
+++ b/redmapper/redmagic/redmagic_randoms.py
@@ -35,14 +35,14 @@ class RedmagicGenerateRandoms(object):
             self.vlim_mask = vlim_mask_or_file
         elif isinstance(vlim_mask_or_file, str):
             # This 0.2 is a dummy value
-            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=self.vlim_mask_or_file)
+            self.vlim_mask = VolumeLimitMask(config, 0.2, vlimfile=vlim_mask_or_file)
         else:
             raise RuntimeError("vlim_mask_or_file must be a redmapper.VolumeLimitMask or a filename")
 
         if isinstance(redmagic_cat_or_file, GalaxyCatalog):
             self.redmagic_cat = redmagic_cat_or_file
         elif isinstance(redmagic_cat_or_file, str):
-            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_file)
+            self.redmagic_cat = GalaxyCatalog.from_fits_file(redmagic_cat_or_file)
         else:
             raise RuntimeError("redmagic_cat_or_file must be a redmapper.GalaxyCatalog")
 
-- 
2.43.0


From 0cee9d66ea59a9e65a98d4c809da73528710cdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:10 +0000
Subject: [PATCH 46/48] fix: a configuration for a galaxy file that is not
 pixelized could not be written to a file

---
 redmapper/configuration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redmapper/configuration.py b/redmapper/configuration.py
index d4c8d54..8fa771a 100644
--- a/redmapper/configuration.py
+++ b/redmapper/configuration.py
@@ -948,6 +948,9 @@ class Configuration(object):
         for key in type(self).__dict__:
             if isinstance(type(self).__dict__[key], ConfigField):
                 if type(self).__dict__[key]._isArray:
+                    if type(self).__dict__[key]._value is None:
+                        # This has not been set, and has no default
+                        continue
                     # Convert all elements to python types and make a list
                     out_dict[key] = np.ndarray.tolist(type(self).__dict__[key]._value)
                 else:
-- 
2.43.0


From 455c78f5851be45fa1119c2d00a484f55b5cf303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 47/48] fix: some good fractions of a mask converted to
 healsparse were corrupted (compressed in the wrong byte order)

---
 redmapper/mask.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/redmapper/mask.py b/redmapper/mask.py
index 58a7d4c..2376680 100644
--- a/redmapper/mask.py
+++ b/redmapper/mask.py
@@ -447,8 +447,12 @@ def convert_maskfile_to_healsparse(maskfile, healsparsefile, nsideCoverage, clob
 
     nside = old_hdr['nside']
 
-    sparseMap = healsparse.HealSparseMap.make_empty(nsideCoverage, nside, old_mask['fracgood'].dtype)
-    sparseMap.update_values_pix(old_mask['hpix'], old_mask['fracgood'], nest=old_hdr['nest'])
+    # The values read from a FITS file may be byte-swapped, and compressing
+    # byte-swapped floats corrupts some of them: use the native byte order.
+    fracgood = old_mask['fracgood'].astype(old_mask['fracgood'].dtype.newbyteorder('='))
+
+    sparseMap = healsparse.HealSparseMap.make_empty(nsideCoverage, nside, fracgood.dtype)
+    sparseMap.update_values_pix(old_mask['hpix'], fracgood, nest=old_hdr['nest'])
 
     sparseMap.write(healsparsefile, clobber=clobber)
 
-- 
2.43.0


From aa145f8d32a75e10b85b7de56e3c1111ead8ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:03 +0000
Subject: [PATCH 48/48] fix: redmapper_consolidate_runcat.py did not find the
 catalogs of richness runs

---
 bin/redmapper_consolidate_runcat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/redmapper_consolidate_runcat.py b/bin/redmapper_consolidate_runcat.py
index fcb4cae..48f5b02 100644
--- a/bin/redmapper_consolidate_runcat.py
+++ b/bin/redmapper_consolidate_runcat.py
@@ -25,7 +25,7 @@ if __name__ == '__main__':
         do_plots = True
         match_spec = True
         consolidate_members = True
-        cattype = 'runcat'
+        cattype = 'lambda_chisq'
 
     consolidate = redmapper.pipeline.RuncatConsolidateTask(args.configfile)
     consolidate.run(do_plots=do_plots, match_spec=match_spec, consolidate_members=consolidate_members, cattype=cattype)
-- 
2.43.0

