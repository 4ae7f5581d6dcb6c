From 73a683904d95d716b12294b84e4ba6b5ce39a788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 01/67] fix: pair target ids with their own data in
 multiprocessing zscan

distribute_targets returns the ids sorted by number of spectra, while the
target objects were selected in input order, so that results were stored
under another target's id when targets have different numbers of spectra.
---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 51f383f..c4124ce 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -1054,7 +1054,9 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
                 if len(mpdist[i]) == 0:
                     continue
                 target_ids = mpdist[i]
-                target_data = [ x for x in targets.local() if x.id in mpdist[i] ]
+                # same order as target_ids, which are sorted by weight
+                local_targets = { x.id : x for x in targets.local() }
+                target_data = [ local_targets[x] for x in target_ids ]
                 p = mp.Process(target=_mp_calc_zchi2,
                     args=(i, target_ids, target_data, t, use_gpu, qout, qprog))
                 procs.append(p)
-- 
2.43.0


From 9fa496d3700f6f8407bbd1e06917a5f13da99743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 02/67] fix: DistTargetsCopy local ids in the order of the
 local data

Without MPI the local ids were sorted by number of spectra but the data were
not, so serial scans stored results under the wrong target id.
---
 py/redrock/targets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 9a4780e..f94c70a 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -559,6 +559,8 @@ class DistTargetsCopy(DistTargets):
         self._my_data = None
         if comm is None:
             self._my_data = targets
+            # local ids in the same order as the local data
+            self._my_targets = [ tg.id for tg in targets ]
         else:
             tbuf = dict()
             for tg in targets:
-- 
2.43.0


From 1e03e69cad84839b10f52a752fec7392060c18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 03/67] fix: DistTargetsCopy works with targets on the root
 process only

As documented, only the root process needs to have the targets; the others
took part in a different number of broadcasts and failed or hung.
---
 py/redrock/targets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index f94c70a..343c4d6 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -550,7 +550,14 @@ class DistTargetsCopy(DistTargets):
         # Distribute the targets among process weighted by the amount of work
         # to do for each target.
 
-        self._proc_targets = distribute_targets(targets, comm_size)
+        # The targets are located on the root process only.
+
+        self._proc_targets = None
+        if comm_rank == root:
+            self._proc_targets = distribute_targets(targets, comm_size)
+
+        if comm is not None:
+            self._proc_targets = comm.bcast(self._proc_targets, root=root)
 
         self._my_targets = self._proc_targets[comm_rank]
 
@@ -563,7 +570,8 @@ class DistTargetsCopy(DistTargets):
             self._my_targets = [ tg.id for tg in targets ]
         else:
             tbuf = dict()
-            for tg in targets:
+            for i in range(len(self._alltargetids)):
+                tg = targets[i] if comm_rank == root else None
                 recv = comm.bcast(tg, root=root)
                 if recv.id in self._my_targets:
                     tbuf[recv.id] = recv
-- 
2.43.0


From 0ae6fe715c63a28446ed73a36d326a00bc0855e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 04/67] fix: DistTemplate with more MPI processes than
 redshifts

Processes without redshifts failed in rebin_template, taking the maximum of
an empty array.
---
 py/redrock/templates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index a12a86b..bec65da 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -571,6 +571,12 @@ class DistTemplate(object):
             self._distredshifts = np.array_split(self._template.redshifts,
                 self._comm_size)
             myz = self._distredshifts[self._comm_rank]
+            if len(myz) == 0:
+                #More processes than redshifts: nothing to rebin here
+                data = { k : np.zeros((0, len(w), self._template.nbasis))
+                         for k, w in self._dwave.items() }
+                self._piece = DistTemplatePiece(self._comm_rank, myz, data)
+                return
 
         # In the case of not using MPI (comm == None), one process is rebinning
         # all the templates.  In that scenario, use multiprocessing
-- 
2.43.0


From 02ea6bb00edcdac6324f593d2d23830732e5559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 05/67] fix: write_zscan keeps the previous file until the new
 one is complete

With clobber=True the existing file was removed before the new one was
written, so a crash or failed write left nothing under the output name.
---
 py/redrock/results.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 151d6cd..9d14e1e 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -32,13 +32,12 @@ def write_zscan(filename, zscan, zfit, clobber=False):
         filename (str): the output file path.
         zscan (dict): the full set of fit results.
         zfit (Table): the best fit redshift results.
-        clobber (bool): if True, delete the file if it exists.
+        clobber (bool): kept for compatibility; an existing file is replaced
+            when the new one is complete.
 
     """
     import h5py
     filename = os.path.expandvars(filename)
-    if clobber and os.path.exists(filename):
-        os.remove(filename)
 
     outdir = os.path.dirname(os.path.abspath(filename))
     if not os.path.exists(outdir):
-- 
2.43.0


From 5a99042cb85ba5f29a1869b6919d5896ee3e8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 06/67] fix: reuse of a stored scan is limited to the local
 targets and templates

Under MPI every rank held the scans of all targets but the fits of its own
only, and root then failed on targets without fits; so did stored targets or
templates which are not part of the current run.
---
 py/redrock/zfind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index e2fd2fd..b00a23f 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -289,7 +289,11 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
     if chi2_scan is None:
         results = calc_zchi2_targets(targets, templates, mp_procs=mp_procs, use_gpu=use_gpu)
     else:
-        results = read_zscan_redrock(chi2_scan)
+        # keep only our local targets and the templates of this run
+        stored = read_zscan_redrock(chi2_scan)
+        results = { tid : { t.template.full_type : stored[tid][t.template.full_type]
+                            for t in templates }
+                    for tid in targets.local_target_ids() }
     elapsed(start_zscan, "Scanning redshifts", comm=targets.comm)
 
     if (use_gpu):
-- 
2.43.0


From 304fa2138a3dcb96234676667c28c49bef55423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 07/67] fix: failing multiprocessing workers make the run fail
 instead of hanging

A worker which raised an exception printed it and exited normally, and a
killed one was not noticed; in both cases the parent process waited forever
for the progress or the results of that worker.
---
 py/redrock/utils.py | 36 ++++++++++++++++++++++++++++++++++++
 py/redrock/zfind.py |  6 ++++--
 py/redrock/zscan.py |  8 +++++---
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index 599d88f..e876338 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -182,6 +182,42 @@ def mp_array(original):
     nd.shape = shape
     return nd
 
+def mp_get(queue, procs):
+    """Get the next item which worker processes put on a queue.
+
+    Args:
+        queue (multiprocessing.Queue): the queue written by the workers.
+        procs (list): the worker processes.
+
+    Returns:
+        the next item on the queue.
+
+    Raises:
+        RuntimeError if a worker failed, or if all of them finished without
+        providing the item; the remaining workers are terminated.
+
+    """
+    from queue import Empty
+    while True:
+        finished = all([p.exitcode is not None for p in procs])
+        failed = [p for p in procs if p.exitcode not in (None, 0)]
+        if len(failed) == 0:
+            try:
+                return queue.get(timeout=0.5)
+            except Empty:
+                if not finished:
+                    continue
+
+        for p in procs:
+            if p.is_alive():
+                p.terminate()
+        for p in procs:
+            p.join()
+        if len(failed) > 0:
+            raise RuntimeError("{} of {} worker processes failed with exit codes {}".format(
+                len(failed), len(procs), [p.exitcode for p in failed]))
+        raise RuntimeError("worker processes finished without providing their results")
+
 def distribute_work(nproc, ids, weights=None, capacities=None):
     """Helper function to distribute work among processes with varying capacities.
 
diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index b00a23f..f4374d4 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -17,7 +17,7 @@ import astropy.table
 
 from . import constants
 
-from .utils import elapsed, extra_columns_in_archetype_mode
+from .utils import elapsed, extra_columns_in_archetype_mode, mp_get
 
 from .targets import distribute_targets
 
@@ -99,6 +99,8 @@ def _mp_fitz(chi2, target_data, t, nminima, qout, archetype, use_gpu, deg_legend
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        # non-zero exit code tells the parent process
+        raise
 
 def calc_deltachi2(chi2, z, zwarn, dvlimit=constants.max_velo_diff):
     '''
@@ -395,7 +397,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             for i in range(mp_procs):
                 if len(mpdist[i]) == 0:
                     continue
-                res = qout.get()
+                res = mp_get(qout, procs)
                 for rs in res:
                     results[rs[0]][ft]['zfit'] = rs[1]
 
diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index c4124ce..d22dcb8 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -30,7 +30,7 @@ cp = None
 #and attempts will be made to minimize memory usage to under 4 GB
 cp_memcheck = False
 
-from .utils import elapsed
+from .utils import elapsed, mp_get
 
 from .targets import distribute_targets
 
@@ -905,6 +905,8 @@ def _mp_calc_zchi2(indx, target_ids, target_data, t, use_gpu, qout, qprog):
         lines = [ "MP calc_zchi2: {}".format(x) for x in lines ]
         print("".join(lines))
         sys.stdout.flush()
+        # non-zero exit code tells the parent process
+        raise
 
 
 def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
@@ -1072,7 +1074,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             tot = 0
             proglast = 0
             while (tot < ntarget):
-                cnt = qprog.get()
+                cnt = mp_get(qprog, procs)
                 tot += cnt
                 prg = int(100.0 * tot / ntarget)
                 if prg >= proglast + progincr:
@@ -1085,7 +1087,7 @@ def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False):
             zcoeff = dict()
             penalty = dict()
             for _ in range(len(procs)):
-                res = qout.get()
+                res = mp_get(qout, procs)
                 tids = mpdist[res[0]]
                 for j,tid in enumerate(tids):
                     zchi2[tid] = res[1][j]
-- 
2.43.0


From 575169fcc6fbcc4dc927ebab323231c937632813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 08/67] fix: DESI reader applies masks to their own spectra
 when other bands or files have none

---
 py/redrock/external/desi.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index e319478..9f9094b 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -582,15 +582,17 @@ class DistTargetsDESI(DistTargets):
                 if comm is not None:
                     hdata = comm.bcast(hdata, root=0)
 
-                if hdata is not None:
-                    toff = 0
-                    for t in self._my_targets:
-                        if t in self._target_specs[sfile]:
-                            for trow in self._target_specs[sfile][t]:
+                # step through the spectra even if this band of this file has
+                # no mask, so that the next mask applies to its own spectra
+                toff = 0
+                for t in self._my_targets:
+                    if t in self._target_specs[sfile]:
+                        for trow in self._target_specs[sfile][t]:
+                            if hdata is not None:
                                 self._my_data[toff].spectra[tspec_mask[t]]\
                                     .ivar *= (hdata[trow] == 0)
-                                tspec_mask[t] += 1
-                        toff += 1
+                            tspec_mask[t] += 1
+                    toff += 1
 
                 extname = "{}_{}".format(b.upper(), "RESOLUTION")
                 hdata = None
-- 
2.43.0


From 7aca385d20ea3cf100c1a28c39de272b96576768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 09/67] fix: fibermap and TSNR2 rows follow the order of the
 targets

---
 py/redrock/external/desi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 9f9094b..d56a3a2 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -661,6 +661,15 @@ class DistTargetsDESI(DistTargets):
         self.tsnr2 = Table(np.hstack([ self._tsnr2[x] \
             for x in self._spectrafiles ]))
 
+        # The output tables are row-matched: put the coadded fibermap and the
+        # TSNR2 values in the order of the targets, which differs from the
+        # order of the files if targetids are selected in another order.
+        position = { t : i for i, t in enumerate(self._keep_targets) }
+        rows = np.argsort([ position[t] for t in self.fibermap['TARGETID'] ],
+            kind='stable')
+        self.fibermap = self.fibermap[rows]
+        self.tsnr2 = self.tsnr2[rows]
+
         super(DistTargetsDESI, self).__init__(self._keep_targets, comm=comm)
 
 
-- 
2.43.0


From 8a66a1dbf0f9c3ea86c1507cbca7890cee800997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 10/67] fix: rrdesi --model without --outfile

---
 py/redrock/external/desi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index d56a3a2..115e9f0 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -1165,7 +1165,7 @@ def rrdesi(options=None, comm=None):
                 write_zscan(args.details, scandata, zfit, clobber=True)
             stop = elapsed(start, "Writing zscan data took", comm=comm)
 
-        if args.outfile:
+        if args.outfile or args.model:
             start = elapsed(None, "", comm=comm)
             if comm_rank == 0:
                 zbest = zfit[zfit['znum'] == 0]
@@ -1195,7 +1195,8 @@ def rrdesi(options=None, comm=None):
                 subtype_len = max(3, max_subtype_len)
                 zbest['SUBTYPE'] = zbest['SUBTYPE'].astype(f'U{subtype_len}')
 
-                write_zbest(args.outfile, zbest,
+                if args.outfile:
+                    write_zbest(args.outfile, zbest,
                         targets.fibermap, targets.exp_fibermap,
                         targets.tsnr2,
                         templates, archetypes=archetypes,
@@ -1204,7 +1205,8 @@ def rrdesi(options=None, comm=None):
             if comm is not None:
                 zbest = comm.bcast(zbest, root=0)
 
-            stop = elapsed(start, f"Writing {args.outfile} took", comm=comm)
+            if args.outfile:
+                stop = elapsed(start, f"Writing {args.outfile} took", comm=comm)
 
         #- Evaluate models
         if args.model is not None:
-- 
2.43.0


From 9c64ff36468e6d7dd789c02db3072cbf78e8eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 11/67] fix: read_zscan with fits whose type has no scan

---
 py/redrock/results.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index 9d14e1e..edd6604 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -170,7 +170,10 @@ def read_zscan(filename, select_targetids=None, upper=False, nozfit=False):
             spectype = zfit_tid[spectype_col][0]
             subtype = zfit_tid[subtype_col][0]
             fulltype = make_fulltype(spectype, subtype)
-            zscan[targetid][fulltype]['zfit'] = zfit_tid
+            #- fits with bad data (set to GALAXY) or archetypes can have a type
+            #- that was not scanned; those are in the zfit table only
+            if fulltype in zscan[targetid]:
+                zscan[targetid][fulltype]['zfit'] = zfit_tid
 
         return zscan, zfit
 
-- 
2.43.0


From 14242b5d0efb8d42b657e323f501ba1fcab421c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 12/67] fix: evaluated template models include the IGM
 absorption used in the fit

---
 py/redrock/templates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index bec65da..4cb771c 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -266,6 +266,12 @@ class Template(object):
         coeff = coeff[0:self.nbasis]
         flux = self.flux.T.dot(coeff).T
         model = trapz_rebin(self.wave*(1+z), flux, wave)
+
+        # absorption by the IGM, as in the fit
+        T = transmission_Lyman(z, wave, model=self.igm_model, always_return_array=False)
+        if T is not None:
+            model = (model.T*T).T
+
         if R is not None:
             model = R.dot(model)
 
-- 
2.43.0


From f39bee19bf786ccd929dd73bdb46c6ab213f72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 13/67] fix: per camera archetype coefficients belong to their
 own camera

---
 py/redrock/targets.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 343c4d6..d1e8a10 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -177,9 +177,8 @@ class Target(object):
         self._legendre = None
         self._gpulegendre = None
         self.nleg = 0
-        self.bands = []
-        for s in spectra:
-            self.bands.append(s.band)
+        #- bands of the current spectra, each once, in order of appearance
+        self.bands = list(dict.fromkeys(s.band for s in self.spectra))
 
     def eval_model(self, bestfit, templates, archetypes=None, nleg=None):
         """
@@ -220,11 +219,15 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
+            #- per camera coefficients are sorted by band name
+            #- (see per_camera_coeff_with_least_square_batch)
             if legcoeff.ndim==1:
-                legcoeff = [legcoeff for i in range(len(self.spectra))]
+                legcoeff = {band:legcoeff for band in self.bands}
+            else:
+                legcoeff = dict(zip(sorted(self.bands), legcoeff))
             ax = archetypes[spectype]
-            for i, sp in enumerate(self.spectra):
-                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[i])
+            for sp in self.spectra:
+                self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[sp.band])
 
         else:
             tx = templates[(spectype, subtype)]
@@ -370,6 +373,7 @@ class Target(object):
 
         # swap the coadds into place.
         self.spectra = coadd
+        self.bands = list(dict.fromkeys(s.band for s in self.spectra))
         return
 
     def sharedmem_pack(self):
-- 
2.43.0


From de08017461c67ff3c38cf10dd0fdb33f806e90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 14/67] fix: archetype options without prior or with several
 archetypes and no per camera terms

---
 py/redrock/archetypes.py | 9 ++++++---
 py/redrock/fitz.py       | 8 ++++----
 py/redrock/targets.py    | 5 ++---
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index dae679a..ccfcb0c 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -284,7 +284,10 @@ class Archetype():
             (zzchi2, zzcoeff) = per_camera_coeff_with_least_square_batch(target, tdata, weights, flux, wflux, nleg, 1, method='bvls', n_nbh=n_nearest, prior=prior, use_gpu=False, bands=target.bands)
         else:
             #Use CPU mode for calc_zchi2 since small tdata
-            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False)
+            bounds = np.zeros((2, nbasis))
+            bounds[0][n_nearest:] = -np.inf # archetypes must have lower bound 0, the legendre terms could have any value
+            bounds[1] = np.inf
+            (zzchi2, zzcoeff) = calc_zchi2_batch(spectra, tdata, weights, flux, wflux, 1, nbasis, use_gpu=False, solve_matrices_algorithm='BVLS', solver_args={'bounds':bounds})
 
         sstype = ['%s'%(self._subtype[k]) for k in iBest] # subtypes of best archetypes
         fsstype = ';'.join(sstype)
@@ -361,8 +364,8 @@ class Archetype():
         # because prior was defined based on n_nearest argument..
         # this logic is needed because the first fitting is done with just one archetype
         #and then nearest neighbour approach is implemented
-        if n_nearest is not None:
-            nnearest_prior = prior.copy() # prior corresponding to nearest_nbh method
+        nnearest_prior = prior # prior corresponding to nearest_nbh method
+        if n_nearest is not None and prior is not None:
             prior = prior[n_nearest-1:,][:,n_nearest-1:] # removing first rows/columns corresponding to the nearest_archetypes, and keeping just one row for one archetype
 
         for hs, wave in dwave.items():
diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 82bb65d..0c110f6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -331,11 +331,11 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 chi2=chi2min, zz=zz, zzchi2=zzchi2,
                 coeff=coeff, fitmethod=template.method))
         else:
+            if per_camera:
+                ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
+            else:
+                ncamera = 1
             if prior_sigma is not None:
-                if per_camera:
-                    ncamera = len(list(dwave.keys())) # number of cameras, for e.g. DESI has three cameras
-                else:
-                    ncamera = 1
                 if n_nearest is None:
                     prior = prior_on_coeffs(1, deg_legendre, prior_sigma, ncamera)
                 else:
diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index d1e8a10..3308f1e 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -219,12 +219,11 @@ class Target(object):
             #- Archetype fits have N nearest neighbor archetype coeffs saved in COEFF keyword
             narchetypes = len(subtype.split(';'))
             archcoeff, legcoeff = coeff[0:narchetypes], bestfit["LEGCOEFF"]
-            #- per camera coefficients are sorted by band name
-            #- (see per_camera_coeff_with_least_square_batch)
+            #- per camera coefficients are in the order of the bands
             if legcoeff.ndim==1:
                 legcoeff = {band:legcoeff for band in self.bands}
             else:
-                legcoeff = dict(zip(sorted(self.bands), legcoeff))
+                legcoeff = dict(zip(self.bands, legcoeff))
             ax = archetypes[spectype]
             for sp in self.spectra:
                 self.model[sp.wavehash] = ax.eval(subtype, archcoeff, sp.wave, z, R=sp.Rcsr, legcoeff=legcoeff[sp.band])
-- 
2.43.0


From 91d78d10f48b679ee07598bdaf980310e0c2cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 15/67] fix: archetypes are fitted with the same IGM absorption
 as they are evaluated with

---
 py/redrock/fitz.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 0c110f6..678a2b6 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -260,8 +260,6 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
         i = min(max(np.argmin(zzchi2),1), len(zz)-2)
         zmin, sigma, chi2min, zwarn = minfit(zz[i-1:i+2], zzchi2[i-1:i+2])
 
-        #trans = dict()
-        trans = { hs:None for hs, w in dwave.items() } #define trans with keys and None values
         try:
             #Calculate xmin and xmax from template and pass as scalars
             xmin = template.minwave*(1+zmin)
@@ -279,7 +277,6 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                 #Use CPU always
                 T = transmission_Lyman(np.array([zmin]),dwave[k], use_gpu=False, always_return_array=False,
                                        model=template.igm_model)
-                trans[k] = T
                 if (T is None):
                     #Return value of None means that wavelenght regime
                     #does not overlap Lyman transmission - continue here
@@ -342,8 +339,7 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
                     prior = prior_on_coeffs(n_nearest, deg_legendre, prior_sigma, ncamera)
             else:
                 prior=None
-            chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, trans=trans, use_gpu=use_gpu, prior=prior)
-            del trans
+            chi2min, coeff, fulltype = archetype.get_best_archetype(target,weights,flux,wflux,dwave,zbest, per_camera, n_nearest, use_gpu=use_gpu, prior=prior)
             subtype = parse_fulltype(fulltype)[1]
 
             archcoeff, legcoeff = split_archetype_coeff(subtype, coeff, ncamera, deg_legendre)
-- 
2.43.0


From ae82c762e6acd5a3614298972c0d57aece8ff16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 16/67] fix: archetypes for some of the template types only,
 and a single polynomial

---
 py/redrock/zfind.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index f4374d4..9e85d68 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -534,9 +534,12 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             ## Equivalent of astropy.table.vstack(tzfit) - vstack each array
 
             tzfit2 = dict()
-            for k in tzfit[0].keys():
+            # archetypes can be applied to some of the templates only, which
+            # adds columns to their fits only
+            for k in dict.fromkeys(k for tmp in tzfit for k in tmp.keys()):
                 tzfit2[k] = list()
-                ref = tzfit[0][k]  # reference array
+                # reference array
+                ref = max((tmp[k] for tmp in tzfit if k in tmp), key=lambda x: x.shape[1])
                 for i in range(len(tzfit)):
                     if k in tzfit[i].keys():
                         val = tzfit[i][k]
@@ -549,11 +552,11 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                             val = row[pca_map[k]]
                             val = np.pad(val, ((0,0),(0, max(0, ref.shape[1] - val.shape[1]))), constant_values=0)[:, :ref.shape[1]]
                         elif k in zero_like_keys:
-                            val = np.zeros_like(ref)
+                            val = np.zeros((len(row['chi2']),)+ref.shape[1:], dtype=ref.dtype)
                     tzfit2[k].append(val)
 
                 tzfit2[k] = np.vstack(tzfit2[k])
-                if (k != 'coeff') and (tzfit2[k].shape[1] == 1):
+                if (k not in ('coeff', 'legcoeff')) and (tzfit2[k].shape[1] == 1):
                     tzfit2[k] = tzfit2[k].flatten()
             tzfit = tzfit2
 
-- 
2.43.0


From aa6f770ac54e8e194053c0715559863e6e463b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 17/67] fix: same number of coefficients for targets whose
 prior excludes a template

---
 py/redrock/zfind.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 9e85d68..de9ba9d 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -522,7 +522,10 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
                 tzfit.append(tmp)
                 del allresults[tid][fulltype]['zfit']
 
-            maxncoeff = max([tmp['coeff'].shape[1] for tmp in tzfit])
+            # same size for all targets, including those for which a prior
+            # excludes all minima of the template with most coefficients
+            maxncoeff = max([tmp['coeff'].shape[1] for tmp in tzfit] +
+                            [t.template.nbasis for t in templates])
 
             for tmp in tzfit:
                 if tmp['coeff'].shape[1] < maxncoeff:
-- 
2.43.0


From 32c7b059c545a11952cfde7eddfd96db175c4d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 18/67] fix: wrap-redrock ends normally with nothing left to do

---
 bin/wrap-redrock | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 767485d..25ed29f 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -307,6 +307,9 @@ def run_redrock(args, comm=None):
         groups = comm.bcast(groups, root=0)
         specfiles = comm.bcast(specfiles, root=0)
 
+    if len(specfiles) == 0:
+        return
+
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-- 
2.43.0


From 85354ee57c7b0d7ef5a3b439af2f7711ebcd646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 19/67] fix: wrap-redrock calls rrdesi and rrboss with options
 they have

---
 bin/wrap-redrock | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 25ed29f..f20c146 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -322,12 +322,14 @@ def run_redrock(args, comm=None):
         sys.stdout.flush()
 
         if args.datatype == 'desi':
-            cmd = 'rrdesi {}'.format(specfiles[i])
+            cmd = 'rrdesi --infiles {}'.format(specfiles[i])
+            outopts = ' --outfile {} --details {}'
         elif args.datatype == 'boss':
             cmd = 'rrboss --spplate {}'.format(specfiles[i])
+            outopts = ' --zbest {} --output {}'
 
         cmd += ' --nminima {}'.format(args.nminima)
-        cmd += ' --outfile {} --details {}'.format(rrfiles[i], detailsfiles[i])
+        cmd += outopts.format(rrfiles[i], detailsfiles[i])
         logfile = rrfiles[i].replace('.fits', '.log')
         assert logfile != rrfiles[i]
 
-- 
2.43.0


From 23c8d6da92ffeb1d328dc21a846d4c9313740a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 20/67] fix: wrap-redrock log backup when earlier backups are
 not numbered without gaps

---
 bin/wrap-redrock | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index f20c146..2242918 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -179,11 +179,14 @@ def backup_logs(logfile):
     '''
     Move logfile -> logfile.0 or logfile.1 or logfile.n as needed
 
-    TODO: make robust against logfile.abc also existing
+    Other files named logfile.xyz and gaps in the numbers do not matter.
     '''
     logfiles = glob.glob(logfile+'.*')
-    newlog = logfile+'.'+str(len(logfiles))
-    assert not os.path.exists(newlog)
+    n = len(logfiles)
+    newlog = logfile+'.'+str(n)
+    while os.path.exists(newlog):
+        n += 1
+        newlog = logfile+'.'+str(n)
     os.rename(logfile, newlog)
     return newlog
 
-- 
2.43.0


From 4f939c552b056018033ebf0fd9d73f1f183337c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 21/67] fix: wrap-redrock avoids the directory to avoid, also
 with a relative path

---
 bin/wrap-redrock | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 2242918..c7bba7f 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -98,16 +98,13 @@ def find_specfiles(reduxdir, outdir=None, prefix='spectra', avoiddir=None):
     # print("looking for spectra files under {}".format(reduxdir))
 
     if avoiddir is not None:
-        avoiddir = os.path.normpath(avoiddir)
+        avoiddir = os.path.abspath(avoiddir)
 
     specfiles = list()
     for dirpath, dirnames, filenames in os.walk(reduxdir, followlinks=True, topdown=True):
-        if os.path.normpath(dirpath) == avoiddir:
-            while True:
-                try:
-                    dirnames.pop()
-                except IndexError:
-                    break
+        if os.path.abspath(dirpath) == avoiddir:
+            dirnames.clear()
+            continue
 
         for filename in filenames:
             if filename.startswith(prefix) and filename.endswith('.fits'):
-- 
2.43.0


From c61fdffc1a7758934036ed680ce9ea3c92b45b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 22/67] fix: wrap-redrock with any directory names and any
 number of BOSS nodes

---
 bin/wrap-redrock | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index c7bba7f..6ce5254 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -217,7 +217,8 @@ def plan(args, comm=None):
         groups, ntargets, grouptimes = group_specfiles(specfiles, args.maxnodes, comm=comm)
     elif args.datatype == 'boss':
         #- BOSS files all have the same number of spectra, so no load balancing
-        groups = np.array_split(np.arange(len(specfiles)), args.maxnodes)
+        nodes = args.maxnodes if comm is None else comm.size
+        groups = np.array_split(np.arange(len(specfiles)), nodes)
         ntargets = [1000*len(x) for x in groups]
         grouptimes = [30 + 250*len(x) for x in groups]
     else:
@@ -313,7 +314,7 @@ def run_redrock(args, comm=None):
     assert len(groups) == size
     assert len(np.concatenate(groups)) == len(specfiles)
 
-    pixels = np.array([int(os.path.basename(os.path.dirname(x))) for x in specfiles])
+    pixels = [os.path.basename(os.path.dirname(x)) for x in specfiles]
     rrfiles = spectra2outfiles(specfiles, args.prefix, 'redrock', outdir=args.outdir)
     detailsfiles = spectra2outfiles(specfiles, args.prefix, 'rrdetails', outdir=args.outdir, ext='h5')
 
-- 
2.43.0


From d1dfb22a633126e318142ff5f24a2a1e420d7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 23/67] fix: BOSS fiber selection with current numpy

---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6e215aa..8d9f9d7 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -166,7 +166,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             assert plate == h[0].read_header()["PLATEID"]
         fs = h[5]["FIBERID"][:]
         if fiberid is not None:
-            w = np.in1d(fs,fiberid)
+            w = np.isin(fs,fiberid)
             fs = fs[w]
 
         fl = h[0].read()
-- 
2.43.0


From f55a3002fb152c69f0a985c7156ffc5fc48ea38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 24/67] fix: BOSS plate-mjd names are not truncated

---
 py/redrock/external/boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 8d9f9d7..14cfbf4 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -264,7 +264,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
         # will end up as extra columns in the output ZBEST HDU.
         tmeta = dict()
         tmeta["BRICKNAME"] = bricknames[targetid]
-        tmeta["BRICKNAME_datatype"] = "S8"
+        tmeta["BRICKNAME_datatype"] = "S{}".format(max(8, len(bricknames[targetid])))
         if len(spectra) > 0:
             targets.append(Target(targetid, spectra, coadd=coadd, meta=tmeta))
         else:
@@ -279,7 +279,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
 
     metatable = Table()
     metatable['TARGETID'] = targetids
-    bx = np.array([bricknames[t] for t in targetids], dtype='S8')
+    bx = np.array([bricknames[t] for t in targetids], dtype='S')
     metatable['BRICKNAME'] = bx
 
     # metatable = Table(names=("TARGETID", "BRICKNAME"), dtype=("i8", "S8",))
-- 
2.43.0


From ce695990e5eaed972f97e57b53331b94aa173195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 25/67] fix: rrboss --mintarget without --ntargets

---
 py/redrock/external/boss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 14cfbf4..664209d 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -449,9 +449,12 @@ def rrboss(options=None, comm=None):
             use_frames=args.use_frames, coadd=(not args.allspec),
             cache_Rcsr=True, use_andmask=args.use_andmask)
 
-        if args.ntargets is not None:
-            targets = targets[first_target:first_target+n_targets]
-            meta = meta[first_target:first_target+n_targets]
+        if first_target is not None:
+            last_target = None
+            if n_targets is not None:
+                last_target = first_target + n_targets
+            targets = targets[first_target:last_target]
+            meta = meta[first_target:last_target]
 
         stop = elapsed(start, "Read of {} targets"\
             .format(len(targets)), comm=comm)
-- 
2.43.0


From b8b8706fcf69302707bd113bde4e4525510b40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 26/67] fix: rrboss --archetypes

---
 py/redrock/external/boss.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 664209d..a9f463f 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -481,9 +481,14 @@ def rrboss(options=None, comm=None):
 
         start = elapsed(None, "", comm=comm)
 
+        archetypes = None
+        if args.archetypes is not None:
+            archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
-            nminima=args.nminima, archetypes=args.archetypes,
-            priors=args.priors, chi2_scan=args.chi2_scan)
+            nminima=args.nminima, archetypes=archetypes,
+            priors=args.priors, chi2_scan=args.chi2_scan,
+            deg_legendre=0)
 
         stop = elapsed(start, "Computing redshifts took", comm=comm)
 
@@ -510,8 +515,7 @@ def rrboss(options=None, comm=None):
 
                 template_version = {t._template.full_type:t._template._version for t in dtemplates}
                 archetype_version = None
-                if not args.archetypes is None:
-                    archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+                if archetypes is not None:
                     archetype_version = {name:arch._version for name, arch in archetypes.items() }
                 write_zbest(args.zbest, zbest, template_version, archetype_version)
 
-- 
2.43.0


From 555843c7e1758d451197a843bc48cd831b484eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 27/67] fix: coadded resolution with cosmic ray rejection

---
 py/redrock/targets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 3308f1e..7901800 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -291,6 +291,7 @@ class Target(object):
             Rdiags = None
             offsets = None
             nspec = 0
+            Rdata=[] # references
             flux=[] # references
             ivar=[] # references
             grad=[] # gradients, copy
@@ -301,11 +302,10 @@ class Target(object):
                 current_band = s.band
                 if wave is None :
                     wave = s.wave
-                    Rdiags = s.R.data * s.ivar
                     offsets = s.R.offsets
                 else :
                     assert len(s.wave) == len(wave)
-                    Rdiags += s.R.data * s.ivar
+                Rdata.append(s.R.data)
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
@@ -355,6 +355,8 @@ class Target(object):
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
             weightedflux   = np.sum(ivar*flux,axis=0)
+            # with the weights left by the cosmic rejection
+            Rdiags = sum(rd*iv for rd, iv in zip(Rdata, ivar))
             isbad = (weights == 0)
             flux = weightedflux / (weights + isbad)
             flux[isbad] = unweightedflux[isbad] / nspec
-- 
2.43.0


From 5759bf0c3111ebb591f234af73f2571209d2d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 28/67] fix: cosmic ray rejection with a spectrum without good
 pixels

---
 py/redrock/targets.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 7901800..30d8f6f 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -296,6 +296,7 @@ class Target(object):
             ivar=[] # references
             grad=[] # gradients, copy
             gradvar=[]
+            igrad=[] # indices of the spectra with gradients
             for s in self.spectra:
                 if s.wavehash != key: continue
                 nspec += 1
@@ -309,7 +310,9 @@ class Target(object):
                 flux.append(s.flux)
                 ivar.append(s.ivar)
 
-                if cosmics_nsig > 0 :
+                # spectra without any good pixel have nothing to reject
+                if cosmics_nsig > 0 and np.any(s.ivar>0) :
+                    igrad.append(nspec-1)
                     # interpolate over bad measurements
                     # to be able to compute gradient next
                     # to a bad pixel and identify oulier
@@ -340,17 +343,17 @@ class Target(object):
                 # detect outliers by comparing spectra
                 grad=np.array(grad)
                 gradivar=1/np.array(gradvar)
-                nspec=grad.shape[0]
+                ngrad=grad.shape[0]
                 meangrad=np.sum(gradivar*grad,axis=0)/np.sum(gradivar)
                 deltagrad=grad-meangrad
-                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(nspec-1)
+                chi2=np.sum(gradivar*deltagrad**2,axis=0)/(ngrad-1)
 
                 jj=np.where(chi2>cosmics_nsig**2)[0]
                 for j in jj :
                     k=np.argmax(gradivar[:,j]*deltagrad[:,j]**2)
                     #k=np.argmax(flux[:,j])
                     #print("masking spec",k,"wave=",wave[j],"flux=",flux[k,j])
-                    ivar[k][j]=0.
+                    ivar[igrad[k]][j]=0.
 
             unweightedflux = np.sum(flux,axis=0)
             weights        = np.sum(ivar,axis=0)
-- 
2.43.0


From c61ae9e08ceb1684ef4aa72486fb9fc7348f1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 29/67] fix: shape of a packed resolution with fewer stored
 columns

---
 py/redrock/targets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index 30d8f6f..d3bc266 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -98,7 +98,7 @@ class Spectrum(object):
             self.ivar = mp_array(self.ivar)
 
             self._ndiag = self.R.data.shape[0]
-            self._splen = self.R.data.shape[1]
+            self._rshape = self.R.shape
             self.R_offsets = mp_array(self.R.offsets)
             self.R_data = mp_array(self.R.data)
             del self.R
@@ -124,7 +124,7 @@ class Spectrum(object):
             self.ivar = np.array(self.ivar)
 
             self.R = scipy.sparse.dia_matrix((np.array(self.R_data),
-                np.array(self.R_offsets)), shape=(self._splen, self._splen))
+                np.array(self.R_offsets)), shape=self._rshape)
             del self.R_data
             del self.R_offsets
 
-- 
2.43.0


From 611ddd37b681508b9e4fdb4408fd2641c4cfb436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 30/67] fix: Lyman continuum of the forest at redshifts below
 1.2 (Inoue14)

---
 py/redrock/igm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 48afdfa..7d000b0 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -212,7 +212,7 @@ class Inoue14(object):
         y0 = x0 & (zS[:,None] < z1LAF)
         tLCLAF_value[y0] = 0.3248 * (power(lobs[y0]/lamL, 1.2) - (power(1.0+zS[:,None], -9e-1)*y0)[y0] * power(lobs[y0]/lamL, 2.1))
 
-        y0 = x0 & (zS[:,None] < z2LAF)
+        y0 = x0 & (zS[:,None] >= z1LAF) & (zS[:,None] < z2LAF)
         x1 = lobs >= lamL*(1+z1LAF)
         tLCLAF_value[y0 & x1] = 2.545e-2 * ((power(1.0+zS[:,None], 1.6)*y0)[y0 & x1] * power(lobs[y0 & x1]/lamL, 2.1) - power(lobs[y0 & x1]/lamL, 3.7))
         tLCLAF_value[y0 & ~x1] = 2.545e-2 * (power(1.0+zS[:,None], 1.6)*y0)[y0 & ~x1] * power(lobs[y0 & ~x1]/lamL, 2.1) + 0.3248 * power(lobs[y0 & ~x1]/lamL, 1.2) - 0.2496 * power(lobs[y0 & ~x1]/lamL, 2.1)
-- 
2.43.0


From bf9305cf08122ea7a7695c36aed076b06427e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 31/67] fix: Inoue14 IGM absorption with integer wavelengths

---
 py/redrock/igm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index 7d000b0..d2ff2a4 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -305,7 +305,8 @@ def transmission_IGM_Inoue14(zObj, lObs, use_gpu=False):
         xp = np
 
     #- tile observer frame wavelengths lObs to match lRest dimensions
-    lObs = xp.tile(lObs, (zObj.size, 1))
+    #- (as floats, since the optical depths have the type of the wavelengths)
+    lObs = xp.tile(lObs, (zObj.size, 1)).astype(float)
 
     # Transmission array to fill in
     T = xp.ones(lObs.shape)
-- 
2.43.0


From 0f1149af926b1b86ebbef62ee5134e3433d8031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 32/67] fix: wrap-redrock with an unreadable input file

---
 bin/wrap-redrock | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 6ce5254..ad37242 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -151,8 +151,12 @@ def group_specfiles(specfiles, maxnodes=256, comm=None):
     pixgroups = np.array_split(np.arange(npix), size)
     ntargets = np.zeros(len(pixgroups[rank]), dtype=int)
     for i, j in enumerate(pixgroups[rank]):
-        fm = fits.getdata(specfiles[j], 'FIBERMAP')
-        ntargets[i] = len(np.unique(fm['TARGETID']))
+        try:
+            fm = fits.getdata(specfiles[j], 'FIBERMAP')
+            ntargets[i] = len(np.unique(fm['TARGETID']))
+        except Exception as err:
+            #- ntargets is only used for balancing; do not prevent other files
+            print('WARNING: unable to count targets in {}: {}'.format(specfiles[j], err))
 
     if comm is not None:
         ntargets = comm.gather(ntargets)
-- 
2.43.0


From 259874f1c3e0daedad8fc28eb3f38ebbb13435ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 33/67] fix: wrap-redrock without input files ends on all ranks

---
 bin/wrap-redrock | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index ad37242..0d2b2ca 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -204,14 +204,21 @@ def plan(args, comm=None):
         else:
             avoiddir = None
 
-        specfiles = find_specfiles(args.reduxdir, args.outdir,
-                prefix=args.prefix, avoiddir=avoiddir)
+        try:
+            specfiles = find_specfiles(args.reduxdir, args.outdir,
+                    prefix=args.prefix, avoiddir=avoiddir)
+        except Exception as err:
+            #- raised below, on all ranks
+            specfiles = err
     else:
         specfiles = None
 
     if comm is not None:
         specfiles = comm.bcast(specfiles, root=0)
 
+    if isinstance(specfiles, Exception):
+        raise specfiles
+
     if len(specfiles) == 0:
         if rank == 0:
             print('All specfiles processed')
-- 
2.43.0


From 8ece13df4aa333283690b71cdcc7fd61518caa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 34/67] fix: wrap-redrock --plan for BOSS with few processes

---
 bin/wrap-redrock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 0d2b2ca..8c4c1ee 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -231,7 +231,7 @@ def plan(args, comm=None):
         nodes = args.maxnodes if comm is None else comm.size
         groups = np.array_split(np.arange(len(specfiles)), nodes)
         ntargets = [1000*len(x) for x in groups]
-        grouptimes = [30 + 250*len(x) for x in groups]
+        grouptimes = np.array([30.0 + 250*len(x) for x in groups])
     else:
         raise ValueError('Unknown --datatype {}'.format(args.datatype))
 
-- 
2.43.0


From f7a3faa583f0658b1d50278a122fccb424c5f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 35/67] fix: model of an archetype fit that consists of
 polynomials only

---
 py/redrock/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index d3bc266..c28501a 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -211,7 +211,7 @@ class Target(object):
         fitmethod = bestfit['FITMETHOD']
 
         self.model = dict()
-        if np.all(coeff == 0.0):
+        if np.all(coeff == 0.0) and not (fitmethod == 'ARCH' and np.any(bestfit['LEGCOEFF'] != 0.0)):
             # entirely masked data has coeffs=0
             for sp in self.spectra:
                 self.model[sp.wavehash] = np.zeros(len(sp.wave), dtype=np.float32)
-- 
2.43.0


From 1cc48322cf6c876f4a65c365d9d755e762757ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 36/67] fix: more nearest archetypes than template coefficients

---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index de9ba9d..0f1e693 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -697,6 +697,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
 
         if archetypes is None or not per_camera:
             maxcoeff = np.max([t.template.nbasis for t in templates])
+            if archetypes is not None and n_nearest is not None:
+                maxcoeff = max(maxcoeff, n_nearest)
         else:
             if n_nearest is not None:
                 maxcoeff = max(np.max([t.template.nbasis for t in templates]), ncamera*(deg_legendre)+n_nearest)
-- 
2.43.0


From 207c64a2c713e758e4a22a2b37afe17323ea9b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 37/67] fix: fewer archetypes than the requested number of
 nearest ones

---
 py/redrock/fitz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/fitz.py b/py/redrock/fitz.py
index 678a2b6..3490aa4 100644
--- a/py/redrock/fitz.py
+++ b/py/redrock/fitz.py
@@ -180,6 +180,9 @@ def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=
         gpudwave = { s.wavehash:s.gpuwave for s in spectra }
 
     if not archetype is None:
+        if n_nearest is not None:
+            #- there may be fewer archetypes of this type
+            n_nearest = min(n_nearest, len(archetype.full_type))
         #legendre = legendre_calculate(deg_legendre, dwave=dwave)
         legendre = target.legendre(deg_legendre)
 
-- 
2.43.0


From c4438d7d85534727ab04e62b2316f5be49a6e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 38/67] fix: NEGATIVE_MODEL only for archetype fits

---
 py/redrock/zfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index 0f1e693..fab81b2 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -569,7 +569,7 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             tzfit['targetid'] = np.array([tid]*l)
 
             if (archetypes):
-                if (len(archetype_spectype)==len(all_spectype)):
+                if set(all_spectype).issubset(archetype_spectype):
                     if n_nearest is None:
                         if tzfit["coeff"].ndim==1: ## this makes sure that code doesn't fail if --archetypes-no-legendre is provided
                             tzfit["coeff"] = tzfit["coeff"].reshape(-1, 1)
-- 
2.43.0


From 3e433ceff21a48c485292b57202fd3d1303021af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:46 +0000
Subject: [PATCH 39/67] fix: zfind with archetypes and default options

---
 py/redrock/zfind.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index fab81b2..d1348cf 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -262,6 +262,8 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
 
     if archetypes:
         archetype_spectype = list(archetypes.keys()) # to account for the case if only one archetype is provided
+        if deg_legendre is None:
+            deg_legendre = 0
         pca_map, zero_like_keys = extra_columns_in_archetype_mode()
 
     if not priors is None:
-- 
2.43.0


From 57a8277211717f7cce8fb9d3fbf679db3fbc2ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 40/67] fix: archetypes per camera with targets that have
 different cameras

---
 py/redrock/zfind.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/redrock/zfind.py b/py/redrock/zfind.py
index d1348cf..2dc8ab4 100644
--- a/py/redrock/zfind.py
+++ b/py/redrock/zfind.py
@@ -631,6 +631,14 @@ def zfind(targets, templates, mp_procs=1, nminima=3, archetypes=None, priors=Non
             # Here convert to astropy table
             allzfit.append(astropy.table.Table(tzfit))
 
+        # targets can have different numbers of cameras
+        legcoeff = [ tab['legcoeff'] for tab in allzfit if 'legcoeff' in tab.colnames ]
+        ncam = max([ c.shape[1] for c in legcoeff if c.ndim == 3 ], default=0)
+        for tab in allzfit:
+            if 'legcoeff' in tab.colnames and tab['legcoeff'].ndim == 3:
+                n = ncam - tab['legcoeff'].shape[1]
+                tab['legcoeff'] = np.pad(tab['legcoeff'], ((0,0), (0,n), (0,0)))
+
         allzfit = astropy.table.vstack(allzfit)
         #print(allzfit['targetid', 'z', 'zwarn', 'chi2', 'deltachi2','spectype','subtype'])
         # Cosmetic: move TARGETID to be first column as primary key
-- 
2.43.0


From b97138e36d92fe55cdb5a1483560db0a5b581c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 41/67] fix: details file of archetype fits without polynomials

HDF5 cannot hold a column of width zero, so rrdesi --archetypes-no-legendre
with a details file crashed with ValueError: Zero-sized dimension specified.
---
 py/redrock/results.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index edd6604..f4a34a7 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -55,6 +55,11 @@ def write_zscan(filename, zscan, zfit, clobber=False):
     for col in ['zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2']:
         zfit[col] = zfit[col].astype(np.float32)
 
+    #- HDF5 has no columns of width zero, as of archetype fits without Legendre
+    #- polynomials; a single coefficient of zero is the same fit
+    if 'legcoeff' in zfit.columns and zfit['legcoeff'].size == 0:
+        zfit['legcoeff'] = np.zeros(zfit['legcoeff'].shape[:-1] + (1,))
+
     zfit['zwarn'] = zfit['zwarn'].astype(np.int32)
     zfit['npixels'] = zfit['npixels'].astype(np.int32)
     zfit['znum'] = zfit['znum'].astype(np.int8)
-- 
2.43.0


From 848d8ffb41abadb461618e96b188a675119fe0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 42/67] fix: BOSS target identifiers of 32-bit columns

FIBERID is a 32-bit column, so with numpy 2 reading a plate stopped with
OverflowError, and identifiers made from 32-bit table columns wrapped around.
---
 py/redrock/external/boss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index a9f463f..8a714d1 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -39,6 +39,8 @@ from ..archetypes import All_archetypes
 
 
 def platemjdfiber2targetid(plate, mjd, fiber):
+    # 64 bits whatever the type of the input, as of the columns of FITS tables
+    plate, mjd, fiber = np.int64(plate), np.int64(mjd), np.int64(fiber)
     return plate*1000000000 + mjd*10000 + fiber
 
 
-- 
2.43.0


From 0ba9a4068d29c54268a53c8e5e950de8b8e976ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:57 +0000
Subject: [PATCH 43/67] fix: BOSS plates without exposures of a camera

fitsio raises KeyError for a missing header keyword, so --use-frames stopped
instead of going on with the other cameras.
---
 py/redrock/external/boss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 8a714d1..6fa837e 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -130,7 +130,7 @@ def read_spectra(spplates_name, targetids=None, use_frames=False,
             for c in cameras:
                 try:
                     nexp = spplate[0].read_header()["NEXP_{}".format(c.upper())]
-                except ValueError:
+                except (KeyError, ValueError):
                     print("DEBUG: spplate {} has no exposures in camera {} ".format(spplate_name,c))
                     continue
                 for i in range(1,nexp+1):
-- 
2.43.0


From ca512648ca4dfbe074e2996256c3500a63c1b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 44/67] fix: rrboss refuses contradictory options without MPI
 as well

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 6fa837e..b1b519e 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -384,12 +384,16 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
         if (args.output is None) and (args.zbest is None):
             print("--output or --zbest required")
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
         if (args.targetids is not None) and ((args.mintarget is not None) \
             or (args.ntargets is not None)):
-- 
2.43.0


From 6eb8fecc5526f8d599cd40af5f1b8f2c38604ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 45/67] fix: rrdesi --mintarget without --ntargets selects the
 targets from there on

---
 py/redrock/external/desi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 115e9f0..a7f63e7 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -360,7 +360,7 @@ class DistTargetsDESI(DistTargets):
                     format(first_target))
 
             if n_target is None:
-                nkeep = len(keep_targetids)
+                nkeep = len(keep_targetids) - first_target
             else:
                 nkeep = n_target
 
-- 
2.43.0


From 71071684f41c618aaf59223d2b96b238de61987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 46/67] fix: eval_model without resolution matrices

---
 py/redrock/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/templates.py b/py/redrock/templates.py
index 4cb771c..f9c71a3 100644
--- a/py/redrock/templates.py
+++ b/py/redrock/templates.py
@@ -839,7 +839,7 @@ def eval_model(data, wave, R=None, templates=None):
         tx = templates[(data['SPECTYPE'][i], data['SUBTYPE'][i])]
         coeff = data['COEFF'][i][0:tx.nbasis]
         z = data['Z'][i]
-        models[i] = tx.eval(coeff, wave, z, R=R[i])
+        models[i] = tx.eval(coeff, wave, z, R=None if R is None else R[i])
 
     return models
 
-- 
2.43.0


From 73330e08d0f47e2a0230b31f5ec5f932189bbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 47/67] fix: Archetype.eval with the polynomials of several
 cameras

---
 py/redrock/archetypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index ccfcb0c..ca78c77 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -214,11 +214,11 @@ class Archetype():
                 deg_legendre = len(legcoeff)
             if legcoeff.ndim>1:
                 deg_legendre = legcoeff.shape[1]
-            legendre = np.array([scipy.special.legendre(i)( reduced_wavelength(wave) ) for i in range(deg_legendre)])
-            model += legendre.T.dot(legcoeff).T
+            legendre = np.array([scipy.special.legendre(i)( reduced_wavelength(wave) ) for i in range(deg_legendre)]).reshape(deg_legendre, len(wave))
+            model = model + legcoeff.dot(legendre)
 
         if R is not None:
-            model = R.dot(model)
+            model = R.dot(model.T).T
 
         return model
 
-- 
2.43.0


From 40bb9f3c6c64529e3bfdaa6a31d88699d365e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 48/67] fix: rrboss refuses identifiers together with a range
 without MPI as well

---
 py/redrock/external/boss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index b1b519e..defb470 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -401,6 +401,8 @@ def rrboss(options=None, comm=None):
             sys.stdout.flush()
             if comm is not None:
                 comm.Abort()
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From 1de978b07ed4dcd1468eee7eea48440a7061134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:32 +0000
Subject: [PATCH 49/67] fix: PlotSpec draws the model of the fit, without a
 factor 1+z

---
 py/redrock/plotspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index ffdc60e..14f611c 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -166,7 +166,7 @@ class PlotSpec(object):
             if self.archetypes:
                 mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
             else:
-                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z']) * (1+zz['z'])
+                mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
             flux = spec.flux.copy()
             isbad = (spec.ivar == 0)
-- 
2.43.0


From f8a746a69d76330b9e15669c3fc3856cc95cdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:32 +0000
Subject: [PATCH 50/67] fix: PlotSpec draws the scans of templates with
 subtypes

---
 py/redrock/plotspec.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index 14f611c..a6ca05d 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -9,7 +9,7 @@ import numpy as np
 
 from . import zwarning
 
-from .templates import make_fulltype
+from .templates import make_fulltype, parse_fulltype
 
 class PlotSpec(object):
     def __init__(self, targets, templates, zscan, zfit, truth=None, archetypes=False):
@@ -122,12 +122,16 @@ class PlotSpec(object):
 
         self._ax1.clear()
         for spectype, fmt in [('STAR', 'k-'), ('GALAXY', 'b-'), ('QSO', 'g-')]:
-            if spectype in self.zscan[target.id]:
-                zx = self.zscan[target.id][spectype]
+            label = spectype
+            for scantype, zx in self.zscan[target.id].items():
+                #- scans are per full type, e.g. STAR:::WD
+                if parse_fulltype(scantype)[0] != spectype:
+                    continue
                 self._ax1.plot(zx['redshifts'], zx['zchi2'], fmt, alpha=0.2,
                     label='_none_')
                 self._ax1.plot(zx['redshifts'], zx['zchi2']+zx['penalty'], fmt,
-                    label=spectype)
+                    label=label)
+                label = '_none_'
 
         self._ax1.plot(zfit['z'], zfit['chi2'], 'r.', label='_none_')
         for row in zfit:
-- 
2.43.0


From fd2dc2765e5830791a18ce3d26a883cff983872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:32 +0000
Subject: [PATCH 51/67] fix: PlotSpec with archetypes per camera or for some
 types only

---
 py/redrock/plotspec.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/py/redrock/plotspec.py b/py/redrock/plotspec.py
index a6ca05d..63b028a 100644
--- a/py/redrock/plotspec.py
+++ b/py/redrock/plotspec.py
@@ -106,8 +106,9 @@ class PlotSpec(object):
         coeff = zz['coeff']
 
         fulltype = make_fulltype(zz['spectype'], zz['subtype'])
-        if self.archetypes:
-            dwave = { s.wavehash:s.wave for s in target.spectra }
+        #- archetypes can be applied to some of the types only
+        isarch = bool(self.archetypes) and zz['fitmethod'] == 'ARCH'
+        if isarch:
             tp = self.archetypes.archetypes[zz['spectype']]
         else:
             tp = self.templates[fulltype]
@@ -167,8 +168,12 @@ class PlotSpec(object):
         ymin = ymax = 0.0
         specs_to_read = target.spectra
         for spec in specs_to_read:
-            if self.archetypes:
-                mx = tp.eval(zz['subtype'], zz['coeff'][0:zz['ncoeff']], spec.wave, zz['z'], legcoeff=zz['legcoeff'])
+            if isarch:
+                #- polynomials can be per camera, in the order of the bands
+                legcoeff = zz['legcoeff']
+                if legcoeff.ndim > 1:
+                    legcoeff = legcoeff[target.bands.index(spec.band)]
+                mx = tp.eval(zz['subtype'], zz['coeff'], spec.wave, zz['z'], legcoeff=legcoeff)
             else:
                 mx = tp.eval(coeff[0:tp.nbasis], spec.wave, zz['z'])
             model = spec.R.dot(mx)
-- 
2.43.0


From 4b73c3d5e717ef71d1d60f7b1f44a1b4bfd7bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 52/67] fix: rrboss stops if the archetypes asked for are not
 there

---
 py/redrock/external/boss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index defb470..19e3073 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -492,6 +492,8 @@ def rrboss(options=None, comm=None):
         archetypes = None
         if args.archetypes is not None:
             archetypes = All_archetypes(archetypes_dir=args.archetypes).archetypes
+            if len(archetypes) == 0:
+                raise RuntimeError("no archetypes found in {}".format(args.archetypes))
 
         scandata, zfit = zfind(dtargets, dtemplates, mpprocs,
             nminima=args.nminima, archetypes=archetypes,
-- 
2.43.0


From 7cfd013661ec6ab7bf519d2336d469ecb11dd52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 53/67] fix: GPU rebinning stays within its input when an edge
 is at the end of it

---
 py/redrock/rebin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/redrock/rebin.py b/py/redrock/rebin.py
index caa1b5c..f8c2acc 100644
--- a/py/redrock/rebin.py
+++ b/py/redrock/rebin.py
@@ -427,6 +427,9 @@ def _trapz_rebin_batch_gpu(x, y, edges, myz, result_shape):
     #use serachsorted to find index for each boundary
     e2d = edges/(1+myz[:,None])
     idx = cp.searchsorted(x, e2d, side='right')#.astype(cp.int32)
+    #The kernel reads x[idx-1] and x[idx]: an edge at the first or last input
+    #wavelength (or beyond it by rounding) belongs to the first or last interval
+    idx = cp.clip(idx, 1, len(x)-1)
 
     # Load CUDA kernel
     cp_module = cp.RawModule(code=cuda_source)
-- 
2.43.0


From 22e1072d631a3aca5d8abec781276916b4f6bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 54/67] fix: GPU sparse products of templates that are not
 contiguous in memory

---
 py/redrock/zscan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index d22dcb8..d4f154c 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -429,8 +429,10 @@ def _batch_dot_product_sparse_gpu(spectra, tdata):
         Rcsr_cols = cp.asarray(s.Rcsr.indices, cp.int32)
         Rcsr_indptr = cp.asarray(s.Rcsr.indptr, cp.int32)
         curr_tb = cp.empty((nt, ncols, nbasis))
+        #The kernel indexes memory directly so the array must be C contiguous
+        curr_tdata = cp.ascontiguousarray(tdata[key])
         #Launch kernel and syncrhronize
-        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, tdata[key], curr_tb, nrows, ncols, nbasis, nt))
+        batch_dot_product_sparse_kernel((blocks,), (block_size,), (Rcsr_values, Rcsr_cols, Rcsr_indptr, curr_tdata, curr_tb, nrows, ncols, nbasis, nt))
 
         #Commented out synchronize - needed for timing kernels but we still
         #get execution of this kernel before data is needed for next kernel
-- 
2.43.0


From ec91130965bc99c0b64e30576743b0f3c49b6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 55/67] fix: GPU archetypes check the edges against their
 redshifted wavelength range

---
 py/redrock/archetypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index ca78c77..9ed5d7f 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -142,8 +142,9 @@ class Archetype():
         """
         if (use_gpu):
             import cupy as cp
-            xmin = self.minwave
-            xmax = self.maxwave
+            #Observed wavelength range covered by the archetypes
+            xmin = self.minwave*(1.+z)
+            xmax = self.maxwave*(1.+z)
             wave = self.gpuwave
             flux = self.gpuflux
         else:
-- 
2.43.0


From f63edeaa140f07d74909a1b5fdb5c2c272af7013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 56/67] fix: ranks without a GPU are given no targets however
 many there are

---
 py/redrock/external/desi.py | 6 +++---
 py/redrock/utils.py         | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index a7f63e7..ec948cf 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -229,7 +229,7 @@ class DistTargetsDESI(DistTargets):
         negflux_nsig (float): mask negative flux significance threshold
         capacities (list): (optional) list of process capacities. If None,
             use equal capacity per process. A process with higher capacity
-            can handle more work.
+            can handle more work; a process with capacity 0 is given none.
     """
 
     ### @profile
@@ -987,9 +987,9 @@ def rrdesi(options=None, comm=None):
         if ngpu_procs > 0 and ncpu_procs > 0:
             # On Perlmutter, 1:15 seems like a good ratio
             #capacities = [1 if is_gpu_proc else 1.0/15 for is_gpu_proc in gpu_proc_flags]
-            #With new GPU implementation of zscan, use 1:10000 so that only GPU-enabled
+            #With new GPU implementation of zscan, use 1:0 so that only GPU-enabled
             #procs get allocated targets
-            capacities = [1 if is_gpu_proc else 1.0/10000 for is_gpu_proc in gpu_proc_flags]
+            capacities = [1 if is_gpu_proc else 0 for is_gpu_proc in gpu_proc_flags]
         else:
             capacities = None
 
diff --git a/py/redrock/utils.py b/py/redrock/utils.py
index e876338..729b53d 100644
--- a/py/redrock/utils.py
+++ b/py/redrock/utils.py
@@ -228,7 +228,7 @@ def distribute_work(nproc, ids, weights=None, capacities=None):
             use equal weighting.
         capacities (list): list of process capacities. If None,
             use equal capacity per process. A process with higher capacity
-            can handle more work.
+            can handle more work; a process with capacity 0 is given none.
 
     Returns:
         list: A list (one element for each process) with each element
@@ -249,13 +249,14 @@ def distribute_work(nproc, ids, weights=None, capacities=None):
 
     # Initialize process list. Processes are modeled using dictionary
     # with fields for a unique id, capacity, and load (total weight of work).
-    processes = [dict(id=i, capacity=c, load=0) for i, c in enumerate(capacities)]
+    # Processes without capacity are left out.
+    processes = [dict(id=i, capacity=c, load=0) for i, c in enumerate(capacities) if c > 0]
 
     for id in sids:
         w = weights[id]
         # Identify process to receive task. Smallest normalized load, break ties with capacity, followed by id.
         minload = min(processes, key=lambda p: ((p['load'] + w)/p['capacity'], 1/p['capacity'], p['id']))
-        i = processes.index(minload)
+        i = minload['id']
         # Assign work unit to process
         minload['load'] += weights[id]
         dist[i].append(id)
-- 
2.43.0


From 1faa13439238d2cb607d59638673b147b9a47c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 57/67] fix: Legendre polynomials on the GPU follow those on
 the host

---
 py/redrock/targets.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/redrock/targets.py b/py/redrock/targets.py
index c28501a..32a4768 100644
--- a/py/redrock/targets.py
+++ b/py/redrock/targets.py
@@ -248,6 +248,7 @@ class Target(object):
             return self._legendre
         dwave = { s.wavehash:s.wave for s in self.spectra }
         self._legendre = { hs:np.array([scipy.special.legendre(i)(reduced_wavelength(w)) for i in range(nleg)]) for hs, w in dwave.items() }
+        self._gpulegendre = None
         self.nleg = nleg
         if (use_gpu):
             import cupy as cp
-- 
2.43.0


From 7d38c02740142e5a0a75fa503946f8e54bd37c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 58/67] fix: GPU fits without a solution get HUGE_CHI2 as on
 the CPU

---
 py/redrock/zscan.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index d4f154c..44a460c 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -725,6 +725,11 @@ def calc_zchi2_batch(spectra, tdata, weights, flux, wflux, nz, nbasis, solve_mat
             zcoeff = np.zeros((nz, nbasis))
             return (zchi2, zcoeff)
 
+        #Redshifts without a solution have non-finite coefficients; as on
+        #the CPU they are left with zero coefficients and HUGE_CHI2
+        unsolved = ~cp.isfinite(zcoeff).all(axis=1)
+        zcoeff[unsolved] = 0
+
         #4) calc_batch_dot_product_3d2d will compute the dot product
         #of Tbs and zcoeff for all templates in parallel.
         #It is the same as model[i,:,:] = Tbs[i,:,:].dot(zcoeff[i,:])
@@ -735,6 +740,7 @@ def calc_zchi2_batch(spectra, tdata, weights, flux, wflux, nz, nbasis, solve_mat
         #a dot product for each template.  get() copies the data back
         #from the GPU to the numpy array allocated for zchi2.
         zchi2[:] = (((flux - model)*(flux-model)) @ weights).get()
+        zchi2[unsolved.get()] = HUGE_CHI2
         #Copy data from GPU to numpy arrays
         zcoeff = zcoeff.get()
 
@@ -1126,7 +1132,8 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
 
     Returns:
         x (array): solution to y = M*x
-            (1-d array on CPU, 2-d array on GPU)
+            (1-d array on CPU, 2-d array on GPU with non-finite
+            values where there is no solution)
 
     Raises:
         LinAlgError is passed up if raised by np.linalg.solve
@@ -1168,7 +1175,7 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
                     res = nnls(Mcpu[j,:,:], ycpu[j,:])
                     zcoeff[j,:] = res[0]
                 except Exception:
-                    zcoeff[j,:] = HUGE_CHI2
+                    zcoeff[j,:] = np.nan
             return cp.asarray(zcoeff)
         else:
             try:
@@ -1196,7 +1203,7 @@ def solve_matrices(M, y, solve_algorithm="PCA", solver_args=None, use_gpu=False)
                     res = lsq_linear(Mcpu[j,:,:], ycpu[j,:], bounds=bounds, method='bvls')
                     zcoeff[j,:] = res.x
                 except np.linalg.LinAlgError:
-                    zcoeff[j,:] = HUGE_CHI2
+                    zcoeff[j,:] = np.nan
             return cp.asarray(zcoeff)
         else:
             try:
-- 
2.43.0


From 93f8d0f8930aa8f3f39ad7a9c2257fc2046c853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 59/67] fix: GPU matrix products are not transposed

---
 py/redrock/zscan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/redrock/zscan.py b/py/redrock/zscan.py
index 44a460c..fef13eb 100644
--- a/py/redrock/zscan.py
+++ b/py/redrock/zscan.py
@@ -103,8 +103,8 @@ cuda_source = r'''
 
                 int m_idx = i / nparallel; //index in output M array
                 int t = m_idx / (nbasis*nbasis); //target number
-                int a_row = (m_idx % (nbasis*nbasis)) % nbasis; //row in a array
-                int b_row = (m_idx % (nbasis*nbasis)) / nbasis; //row in b array
+                int a_row = (m_idx % (nbasis*nbasis)) / nbasis; //row in a array
+                int b_row = (m_idx % (nbasis*nbasis)) % nbasis; //column in b array
 
                 int stride = nrows/nparallel; //stride to divide up nparallel threads
 
-- 
2.43.0


From 50dfb663aab9791fed65010b45eec1d7da846cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 60/67] fix: --gpu with --max-gpuprocs 0 is refused instead of
 doing nothing

---
 py/redrock/external/desi.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index ec948cf..c86b927 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -804,6 +804,15 @@ def rrdesi(options=None, comm=None):
         print('WARNING: --ncpu is deprecated; use --mp instead')
         args.mp = args.ncpu
 
+    if args.gpu and (args.max_gpuprocs is not None) and (args.max_gpuprocs < 1):
+        if (comm is None) or (comm.rank == 0):
+            print("ERROR: --max-gpuprocs must be at least 1")
+            sys.stdout.flush()
+            if comm is not None:
+                comm.Abort()
+            else:
+                sys.exit(1)
+
     # if comm is bigger than needed, trim to avoid bcast to unused ranks
     input_comm = comm
     if ((comm is not None) and args.gpu and
-- 
2.43.0


From c99da248a79aabef0417477a004d41b17e30addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 61/67] fix: read spectra files together whose tables have
 different columns

A file of one tile next to a file of several tiles (whose coadded fibermap
has no TILEID, LOCATION, ...), files of different bands (and TSNR2 columns),
or coadded next to uncoadded files made the reader fail with a
DTypePromotionError. Keep the columns that the files have in common.
---
 py/redrock/external/desi.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index c86b927..5b9dda5 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -92,6 +92,22 @@ def _get_header(templates, archetypes=None, spec_header=None):
 
     return header
 
+def stack_tables(tables):
+    """Stack the rows of tables with possibly different columns
+
+    Args:
+        tables (list): Tables to stack.
+
+    Returns (Table): the rows of all tables with the columns they have in
+        common, e.g. without TILEID if only some of them are of a single tile.
+
+    """
+    names = [ x for x in tables[0].dtype.names \
+        if all(x in t.dtype.names for t in tables) ]
+
+    return Table(np.hstack([ Table(t, copy=False)[names] for t in tables ]))
+
+
 def write_zbest(outfile, zbest, fibermap, exp_fibermap, tsnr2,
         templates, archetypes=None,
         spec_header=None, secondary_headers=None):
@@ -652,14 +668,14 @@ class DistTargetsDESI(DistTargets):
             for t in self._my_data:
                 t.compute_coadd(cache_Rcsr,cosmics_nsig=self.cosmics_nsig)
 
-        self.fibermap = Table(np.hstack([ self._coadd_fmaps[x] \
-            for x in self._spectrafiles ]))
+        self.fibermap = stack_tables([ self._coadd_fmaps[x] \
+            for x in self._spectrafiles ])
 
-        self.exp_fibermap = Table(np.hstack([ self._exp_fmaps[x] \
-            for x in self._spectrafiles ]))
+        self.exp_fibermap = stack_tables([ self._exp_fmaps[x] \
+            for x in self._spectrafiles ])
 
-        self.tsnr2 = Table(np.hstack([ self._tsnr2[x] \
-            for x in self._spectrafiles ]))
+        self.tsnr2 = stack_tables([ self._tsnr2[x] \
+            for x in self._spectrafiles ])
 
         # The output tables are row-matched: put the coadded fibermap and the
         # TSNR2 values in the order of the targets, which differs from the
-- 
2.43.0


From 2cc8727d939dd484472bab490ea1b3825afa0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:50 +0000
Subject: [PATCH 62/67] fix: the job script of wrap-redrock --plan runs what
 was planned

---
 bin/wrap-redrock | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bin/wrap-redrock b/bin/wrap-redrock
index 8c4c1ee..a509444 100755
--- a/bin/wrap-redrock
+++ b/bin/wrap-redrock
@@ -290,9 +290,14 @@ def plan(args, comm=None):
         print()
         print('nodes=$SLURM_JOB_NUM_NODES')
         rrcmd = '{} --mp {} --reduxdir {}'.format(
-            os.path.abspath(__file__), args.mp, args.reduxdir)
+            os.path.abspath(__file__), args.mp, os.path.abspath(args.reduxdir))
         if args.outdir is not None:
             rrcmd += ' --outdir {}'.format(os.path.abspath(args.outdir))
+        #- the job has to look for the same files, and run them the same way
+        rrcmd += ' --datatype {} --prefix {} --nminima {}'.format(
+            args.datatype, args.prefix, args.nminima)
+        if args.archetypes is not None:
+            rrcmd += ' --archetypes {}'.format(os.path.abspath(args.archetypes))
         print('srun -N $nodes -n $nodes -c {} {}'.format(maxproc, rrcmd))
 
     return specfiles, groups, grouptimes
-- 
2.43.0


From c580eb802f3f7df5d5aa039af32f0e480a79f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:57 +0000
Subject: [PATCH 63/67] fix: --archetypes with a file of any name, or a path
 with environment variables

---
 py/redrock/archetypes.py    |  2 +-
 py/redrock/external/desi.py | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/py/redrock/archetypes.py b/py/redrock/archetypes.py
index 9ed5d7f..cbbd25f 100644
--- a/py/redrock/archetypes.py
+++ b/py/redrock/archetypes.py
@@ -473,7 +473,7 @@ def find_archetypes(archetypes_dir=None):
                 raise IOError("ERROR: can't find archetypes_dir, $RR_ARCHETYPE_DIR, or {rrcode}/archetypes/")
         lstfilename = sorted(glob(os.path.join(archetypes_dir, 'rrarchetype-*.fits')))
     else:
-        if os.path.isfile(archetypes_dir):
+        if os.path.isfile(os.path.expandvars(archetypes_dir)):
             lstfilename = [archetypes_dir]
         else:
             archetypes_dir_expand = os.path.expandvars(archetypes_dir)
diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index 5b9dda5..da70fec 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -912,9 +912,10 @@ def rrdesi(options=None, comm=None):
 
         if args.archetypes is not None:
             print('\n===== Archetype argument is provided, doing necessary checks=======\n')
-            if os.path.exists(args.archetypes) and os.access(args.archetypes, os.R_OK):
-                if os.path.isdir(args.archetypes):
-                    if os.listdir(args.archetypes):
+            archetypes_path = os.path.expandvars(args.archetypes)
+            if os.path.exists(archetypes_path) and os.access(archetypes_path, os.R_OK):
+                if os.path.isdir(archetypes_path):
+                    if os.listdir(archetypes_path):
                         print('Archetype directory exists and readable and it is not empty..')
                         print('Archetype will be applied to all spectype')
                     else:
@@ -925,9 +926,9 @@ def rrdesi(options=None, comm=None):
                         else:
                             sys.exit(1)
 
-                if os.path.isfile(args.archetypes):
+                if os.path.isfile(archetypes_path):
                     print('Archetype is a file and it exists and readable')
-                    print('Archetype will only be applied to SPECTYPE %s'%(os.path.basename(args.archetypes).split('-')[1].split('.')[0].upper()))
+                    print('Archetype will only be applied to the SPECTYPE of that file')
             else:
                 print("ERROR: can't find archetypes_dir or it is unreadable")
                 sys.stdout.flush()
-- 
2.43.0


From 296c48afb562e7d640d1be7338b0044be8e4ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:57 +0000
Subject: [PATCH 64/67] fix: rrboss --zbest creates its directory, as --output
 does

---
 py/redrock/external/boss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/redrock/external/boss.py b/py/redrock/external/boss.py
index 19e3073..e5bf062 100644
--- a/py/redrock/external/boss.py
+++ b/py/redrock/external/boss.py
@@ -74,6 +74,10 @@ def write_zbest(outfile, zbest, template_version, archetype_version):
     hx.append(fits.PrimaryHDU(header=header))
     hx.append(fits.convenience.table_to_hdu(zbest))
     outfile = os.path.expandvars(outfile)
+    outdir = os.path.dirname(os.path.abspath(outfile))
+    if not os.path.exists(outdir):
+        os.makedirs(outdir)
+
     tempfile = outfile + '.tmp'
     hx.writeto(tempfile, overwrite=True)
     os.rename(tempfile, outfile)
-- 
2.43.0


From 7b2e91cdfa880160af8fda9fc8d11db13705bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 65/67] fix: rrdesi --archetypes with a directory without
 archetypes is refused, as by rrboss

---
 py/redrock/external/desi.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/redrock/external/desi.py b/py/redrock/external/desi.py
index da70fec..3118c69 100644
--- a/py/redrock/external/desi.py
+++ b/py/redrock/external/desi.py
@@ -941,6 +941,13 @@ def rrdesi(options=None, comm=None):
     archetypes = None
     if args.archetypes is not None:
         archetypes = All_archetypes(archetypes_dir=args.archetypes, verbose=(comm_rank==0)).archetypes
+        if len(archetypes) == 0:
+            print(f"ERROR: no archetypes found in {args.archetypes}")
+            sys.stdout.flush()
+            if comm is not None:
+                comm.Abort()
+            else:
+                sys.exit(1)
 
     targetids = None
     if args.targetids is not None:
-- 
2.43.0


From bbfe926625e72e3f879b70e4df40d362285c74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:15 +0000
Subject: [PATCH 66/67] fix: details files keep the ranks of more than 128 fits
 of a target

---
 py/redrock/results.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/redrock/results.py b/py/redrock/results.py
index f4a34a7..224ffae 100644
--- a/py/redrock/results.py
+++ b/py/redrock/results.py
@@ -62,8 +62,10 @@ def write_zscan(filename, zscan, zfit, clobber=False):
 
     zfit['zwarn'] = zfit['zwarn'].astype(np.int32)
     zfit['npixels'] = zfit['npixels'].astype(np.int32)
-    zfit['znum'] = zfit['znum'].astype(np.int8)
-    zfit['ncoeff'] = zfit['ncoeff'].astype(np.int8)
+    #- small integers, if they can hold the values
+    for col in ('znum', 'ncoeff'):
+        big = np.any(zfit[col] > np.iinfo(np.int8).max)
+        zfit[col] = zfit[col].astype(np.int32 if big else np.int8)
 
     zbest = zfit[zfit['znum'] == 0]
     zbest.remove_column('znum')
-- 
2.43.0


From afcdd9a9c5448f14fa6b0116d5b046196dd4a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:42 +0000
Subject: [PATCH 67/67] fix: tabulating the Inoue14 absorption on a grid of
 redshifts

---
 py/redrock/igm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/redrock/igm.py b/py/redrock/igm.py
index d2ff2a4..4d857c9 100644
--- a/py/redrock/igm.py
+++ b/py/redrock/igm.py
@@ -275,7 +275,9 @@ class Inoue14(object):
         from scipy.interpolate import CubicSpline
         igm_grid = np.zeros((len(zgrid), len(lrest)))
         for iz in range(len(zgrid)):
-            igm_grid[iz,:] = self.full_IGM(zgrid[iz], lrest*(1+zgrid[iz]))
+            #- full_IGM works on an array of redshifts x wavelengths
+            z = np.atleast_1d(zgrid[iz])
+            igm_grid[iz,:] = self.full_IGM(z, lrest*(1+z)[:,None])[0]
 
         self.interpolate = CubicSpline(zgrid, igm_grid)
 
-- 
2.43.0

