From 2b3f60bbe7922ba14894995fce56ea5606aae1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 01/71] fix: delta_angle accepts a scalar start with vector end
 or direction

---
 py/desimeter/transform/pos2ptl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/transform/pos2ptl.py b/py/desimeter/transform/pos2ptl.py
index f25dfad..cb74073 100644
--- a/py/desimeter/transform/pos2ptl.py
+++ b/py/desimeter/transform/pos2ptl.py
@@ -290,9 +290,9 @@ def delta_angle(u_start, u_final, direction=0):
     '''
     u_start = _to_numpy(u_start)
     u_final = _to_numpy(u_final)
-    direction = np.ones(np.shape(u_start)) * _to_numpy(direction)
-    direction = np.sign(direction) # ensure vals are only +1, 0, or -1
-    natural_delta = u_final - u_start
+    direction = np.sign(_to_numpy(direction)) # ensure vals are only +1, 0, or -1
+    natural_delta, direction = np.broadcast_arrays(u_final - u_start, direction)
+    direction = direction.copy()
     zero_dir = direction == 0
     direction[zero_dir] = np.sign(natural_delta)[zero_dir]
     opposites = direction != np.sign(natural_delta)
-- 
2.43.0


From 5b8822e699371ecc9ba46b6dab2c385c2e9e8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 02/71] fix: z2r interpolates the decreasing height table in
 increasing order

---
 py/desimeter/transform/rszn_lookups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/transform/rszn_lookups.py b/py/desimeter/transform/rszn_lookups.py
index 9edd713..502b447 100644
--- a/py/desimeter/transform/rszn_lookups.py
+++ b/py/desimeter/transform/rszn_lookups.py
@@ -47,7 +47,8 @@ def r2z(r):
 
 def z2r(z):
     '''Convert z (mm) to r (mm) on a nominal Echo22 focal surface.'''
-    return np.interp(z, Z, R, left=oob, right=oob)
+    # Z decreases with R, whereas np.interp needs increasing abscissae
+    return np.interp(z, Z[::-1], R[::-1], left=oob, right=oob)
 
 def r2n(r):
     '''Convert r (mm) to n (deg) on a nominal Echo22 focal surface.'''
-- 
2.43.0


From 0233017fed36d7652cb7be7eb2ad5e029b22bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 03/71] fix: load_nominal_positioner_locations no longer uses
 an undefined name

---
 py/desimeter/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/io.py b/py/desimeter/io.py
index a19013c..53f7069 100644
--- a/py/desimeter/io.py
+++ b/py/desimeter/io.py
@@ -68,7 +68,7 @@ def fvc_bias_filename():
     return os.path.join(desimeter_data_dir(),'bias.fits')
 
 def load_nominal_positioner_locations():
-    directory = resource_filename('desimeter', 'data')
+    directory = resource_files('desimeter').joinpath('data')
     filename = 'positioner_locations_0530v18.csv'
     path = os.path.join(directory, filename)
     table = Table.read(path)
-- 
2.43.0


From 128c3435fdda95eedcc46f737313882933896926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 04/71] fix: undo_refraction leaves its input array intact

---
 py/desimeter/transform/radec2tan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/transform/radec2tan.py b/py/desimeter/transform/radec2tan.py
index e1db337..074193e 100644
--- a/py/desimeter/transform/radec2tan.py
+++ b/py/desimeter/transform/radec2tan.py
@@ -311,7 +311,7 @@ def undo_refraction(alt) :
     for _ in range(2) :
         da   = apply_refraction(alt) - alt
         dda  = da-daprev
-        alt -= dda
+        alt  = alt - dda # not in place, alt can be the array of the caller
         daprev = da
     return alt
 
-- 
2.43.0


From 85cd165be8b638fe4176145abe48d220ac87a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 05/71] fix: SimpleCorr.fromjson accepts what tojson writes

---
 py/desimeter/simplecorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 64f9c01..73f1bf1 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -36,7 +36,7 @@ class SimpleCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Simple Correction"
         assert params['version'] == '1'
         tx.dx = params['dx']
         tx.dy = params['dy']
-- 
2.43.0


From 74c0d4d513f6465d7605c7df0435a43f52043174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 06/71] fix: TanCorr.fromjson accepts what tojson writes

---
 py/desimeter/fieldmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 6fce584..443a752 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -338,7 +338,7 @@ class TanCorr(object):
     def fromjson(cls, jsonstring):
         tx = cls()
         params = json.loads(jsonstring)
-        assert params['name'] == "Tangent Plane Adjustment"
+        assert params['name'] == "Tangent Plane Correction"
         assert params['version'] == '1'
         tx.dha = params['dha']
         tx.ddec = params['ddec']
-- 
2.43.0


From 07fe00f0f6310d6f6838dcf9ec1bf9ad52afcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 07/71] fix: SimpleCorr.fit for rotations by 0, 90, 180 and 270
 deg, and for refits without rotation

---
 py/desimeter/simplecorr.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 73f1bf1..0158a9b 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -135,16 +135,12 @@ class SimpleCorr(object):
         sa=(ay[1]-ax[2])/sxx_p_syy
         ca=(ax[1]+ay[2])/sxx_p_syy
 
-        if sa != 0 :
-            self.rot_deg = arctan2d(sa,ca)
-
-            sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-            sxx =(ax[1]-sxy*sa)/ca
-            syy = (ay[1]-sxy*ca)/sa
-        else :
-            sxx = ax[1]
-            syy = ay[2]
-            sxy = ax[2]
+        self.rot_deg = arctan2d(sa,ca)
+
+        # multiply by the inverse rotation, valid for any angle
+        sxx = ax[1]*ca-ax[2]*sa
+        sxy = ax[1]*sa+ax[2]*ca
+        syy = ay[1]*sa+ay[2]*ca
         self.sxx = sxx
         self.syy = syy
         self.sxy = sxy
-- 
2.43.0


From 5251e39ea73b5679c2617dd1fb243c62ad8e8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 08/71] fix: TanCorr.fit for rotations by 0, 90, 180 and 270
 deg

---
 py/desimeter/fieldmodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 443a752..917ee07 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -423,9 +423,10 @@ class TanCorr(object):
 
         self.rot_deg = arctan2d(sa,ca)
 
-        sxy = sa*ax[1]+ca*ay[1] - sxx_p_syy*ca*sa
-        sxx =(ax[1]-sxy*sa)/ca
-        syy = (ay[1]-sxy*ca)/sa
+        # multiply by the inverse rotation, valid for any angle
+        sxx = ax[1]*ca-ax[2]*sa
+        sxy = ax[1]*sa+ax[2]*ca
+        syy = ay[1]*sa+ay[2]*ca
 
         self.sxx = sxx
         self.syy = syy
-- 
2.43.0


From df95deeb9c9a2e7aabe129e57b002ddbb39cb6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:10 +0000
Subject: [PATCH 09/71] fix: SimpleCorr.fit_rotoff sets nmatch and rms of its
 own fit

---
 py/desimeter/simplecorr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/desimeter/simplecorr.py b/py/desimeter/simplecorr.py
index 0158a9b..ea9d2b0 100644
--- a/py/desimeter/simplecorr.py
+++ b/py/desimeter/simplecorr.py
@@ -83,6 +83,10 @@ class SimpleCorr(object):
         self.syy = 1.
         self.sxy = 0.
 
+        x2p, y2p = self.apply(x1, y1)
+        self.nmatch = n
+        self.rms = np.sqrt( np.mean( (x2-x2p)**2 + (y2-y2p)**2 ) )
+
     def fit(self, x1, y1, x2, y2, solid=False) :
         """
         Adjust tranformation from x1,y1 to x2,y2
-- 
2.43.0


From bc0d9bc060ca6a2ee3268c411d9b92bce966b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 10/71] fix: fiberassign_cs5_xy2radec undoes the field rotation
 before the platemaker transformation

The forward transformation rotates the platemaker coordinates; the inverse
measured and undid the rotation on desimeter coordinates, up to 0.8 arcsec off.
---
 py/desimeter/fiberassign.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/fiberassign.py b/py/desimeter/fiberassign.py
index 1fa0db5..754f5b7 100644
--- a/py/desimeter/fiberassign.py
+++ b/py/desimeter/fiberassign.py
@@ -233,12 +233,15 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
         tel_ra += dra
         tel_dec += ddec
 
+    # the field rotation applies to the input coordinates,
+    # before the transformation from platemaker to desimeter
+    tmp_xfp,tmp_yfp = xfp,yfp
     if from_platemaker :
-        # apply tranformation from desimeter to platemater
+        # apply tranformation from platemaker to desimeter
         dm2pm = DM2PM.read(dm2pm_filename())
-        xfp,yfp = dm2pm.pm2dm(xfp,yfp)
+        tmp_xfp,tmp_yfp = dm2pm.pm2dm(tmp_xfp,tmp_yfp)
 
-    xtan,ytan = fp2tan(xfp,yfp,adc1,adc2)
+    xtan,ytan = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
     tmp_ra,tmp_dec    = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
 
     # need to deal with field rotation
@@ -251,6 +254,9 @@ def fiberassign_cs5_xy2radec(xfp,yfp,tile_ra,tile_dec,tile_mjd,tile_ha,tile_fiel
     tmp_xfp = c * xfp + s * yfp
     tmp_yfp = -s * xfp + c * yfp
 
+    if from_platemaker :
+        tmp_xfp,tmp_yfp = dm2pm.pm2dm(tmp_xfp,tmp_yfp)
+
     xtan,ytan      = fp2tan(tmp_xfp,tmp_yfp,adc1,adc2)
     ra,dec = tan2radec(xtan,ytan,tel_ra,tel_dec,tile_mjd,lst,hexrot_deg=0, use_hardcoded_polmis_rotmat=use_hardcoded_polmis_rotmat)
 
-- 
2.43.0


From 2dff3f87e69bebb8ce0353f6e9239b43b03e4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 11/71] fix: match_same_system matches nothing when the second
 catalog is empty

---
 py/desimeter/match.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py/desimeter/match.py b/py/desimeter/match.py
index 366b159..741ca5f 100644
--- a/py/desimeter/match.py
+++ b/py/desimeter/match.py
@@ -120,6 +120,7 @@ def match_same_system(x1,y1,x2,y2,remove_duplicates=True) :
     xy2=np.array([x2,y2]).T
     tree2 = KDTree(xy2)
     distances,indices_2 = tree2.query(xy1,k=1)
+    indices_2[~np.isfinite(distances)] = -1 # no neighbor when the second catalog is empty
 
     if remove_duplicates :
         unique_indices_2 = np.unique(indices_2)
-- 
2.43.0


From cbe7dc13df814e357e3b2f2903baabed7ae8e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 12/71] fix: match_arbitrary_translation_dilatation with less
 than 3 points in the second catalog matches nothing

---
 py/desimeter/match.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/match.py b/py/desimeter/match.py
index 741ca5f..a7c983c 100644
--- a/py/desimeter/match.py
+++ b/py/desimeter/match.py
@@ -164,6 +164,9 @@ def match_arbitrary_translation_dilatation(x1,y1,x2,y2) :
     tk1,txyz1 = compute_triangles_with_fixed_orientation(x1,y1)
     tk2,txyz2 = compute_triangles_with_fixed_orientation(x2,y2)
 
+    if len(tk2)==0 : # less than 3 points, no triangle to match with
+        return -1*np.ones(x1.size,dtype=int), np.zeros(x1.size)
+
     log.debug("match triangles")
     # match with kdtree triangles with same shape and orientation
     tree2=KDTree(txyz2)
-- 
2.43.0


From 38f0ea6a18129a46a215f097c02616e1ca2bc8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 13/71] fix: findfiducials computes the expected pixel
 positions with the input transform of each call

---
 py/desimeter/findfiducials.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index 6ddd75b..d2326eb 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -41,20 +41,21 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
         log.debug("keep only the pinholes")
         metrology_pinholes_table = metrology_table[:][(metrology_table["DEVICE_TYPE"]=="FIF")|(metrology_table["DEVICE_TYPE"]=="GIF")]
 
-        # use input transform to convert X_FP,Y_FP to XPIX,YPIX
-        xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
-        metrology_pinholes_table["XPIX"]=xpix
-        metrology_pinholes_table["YPIX"]=ypix
-
-        log.debug("define fiducial location as the most central dot")
-        central_pinholes=[]
-        for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
-            ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
-            mx=np.mean(metrology_pinholes_table["XPIX"][ii])
-            my=np.mean(metrology_pinholes_table["YPIX"][ii])
-            k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
-            central_pinholes.append(ii[k])
-        metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
+    # use input transform to convert X_FP,Y_FP to XPIX,YPIX
+    # for each call, because the input transform can differ from that of the previous call
+    xpix,ypix = input_tx.fp2fvc(metrology_pinholes_table["X_FP"],metrology_pinholes_table["Y_FP"])
+    metrology_pinholes_table["XPIX"]=xpix
+    metrology_pinholes_table["YPIX"]=ypix
+
+    log.debug("define fiducial location as the most central dot")
+    central_pinholes=[]
+    for loc in np.unique(metrology_pinholes_table["LOCATION"]) :
+        ii=np.where(metrology_pinholes_table["LOCATION"]==loc)[0]
+        mx=np.mean(metrology_pinholes_table["XPIX"][ii])
+        my=np.mean(metrology_pinholes_table["YPIX"][ii])
+        k=np.argmin((metrology_pinholes_table["XPIX"][ii]-mx)**2+(metrology_pinholes_table["YPIX"][ii]-my)**2)
+        central_pinholes.append(ii[k])
+    metrology_fiducials_table = metrology_pinholes_table[:][central_pinholes]
 
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
-- 
2.43.0


From 0f7843f9209a7b0ed9350d5516d7ce6ba45e870d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 14/71] fix: match_positioners with no centroid near any
 positioner assigns nothing

---
 py/desimeter/match_positioners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index ff68367..50226d5 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -130,7 +130,7 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
                           fvc['X_FP'].data, fvc['Y_FP'].data,
                           np.max(metrarmlen)+0.1)
     okdistance = np.array([d0 < a0
-                           for (d0, a0) in zip(dmf, metrarmlen[mm])])
+                           for (d0, a0) in zip(dmf, metrarmlen[mm])], dtype=bool)
     mm = mm[okdistance]
     mf = mf[okdistance]
     dmf = dmf[okdistance]
-- 
2.43.0


From c9332e2df9ad8a15c53a805f00ab1d274309ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 15/71] fix: match_positioners does not assign centroids to
 positioners which cannot reach them

---
 py/desimeter/match_positioners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/match_positioners.py b/py/desimeter/match_positioners.py
index 50226d5..2cc0b57 100644
--- a/py/desimeter/match_positioners.py
+++ b/py/desimeter/match_positioners.py
@@ -198,7 +198,10 @@ def match_positioners(fvc, metr, calib, countthresh=80000,
 
 def solve_assignment(score_matrix):
     from scipy.optimize import linear_sum_assignment
-    assignment = linear_sum_assignment(-score_matrix)
+    row_ind, col_ind = linear_sum_assignment(-score_matrix)
+    # the solver pairs all it can, leave out pairs that cannot be (out of reach)
+    possible = score_matrix[row_ind, col_ind] > 0
+    assignment = (row_ind[possible], col_ind[possible])
     score = np.sum([score_matrix[i, j] for (i, j) in zip(*assignment)])
     return assignment + (score,)
 
-- 
2.43.0


From c2917635885dc1cb8d57052df4f89c53aff94047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 16/71] fix: save the precession, aberration and polar
 misalignment options of a field model in its JSON form

---
 py/desimeter/fieldmodel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 917ee07..4f04fac 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -51,6 +51,10 @@ class FieldModel(object):
         params['adc1'] = self.adc1
         params['adc2'] = self.adc2
 
+        params['precession'] = self.precession
+        params['aberration'] = self.aberration
+        params['polar_misalignment'] = self.polar_misalignment
+
         params['sxx'] = self.sxx
         params['syy'] = self.syy
         params['sxy'] = self.sxy
@@ -75,6 +79,11 @@ class FieldModel(object):
         tx.adc1 = params['adc1']
         tx.adc2 = params['adc2']
 
+        # absent from files written before these options were saved
+        for k in ['precession', 'aberration', 'polar_misalignment'] :
+            if k in params :
+                setattr(tx, k, params[k])
+
         tx.sxx = params['sxx']
         tx.syy = params['syy']
         tx.sxy = params['sxy']
-- 
2.43.0


From 71295d8ed8d42a409f772a9e2895b9cbdddff708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 17/71] fix: fit_params leaves the nominal values and bounds it
 is given (and the default ones) intact

---
 py/desimeter/posparams/fitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index b1bead3..3962f9c 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -122,6 +122,9 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
         bounds = default_bounds
     if keep_fixed is None:
         keep_fixed = []
+    # work on copies because entries are added or changed below
+    nominals = dict(nominals)
+    bounds = dict(bounds)
     # arg checking
     assert len(posintT) == len(posintP) == len(ptlX) == len(ptlY) == len(gearT) == len(gearP) == len(recent_rehome) == len(sequence_id)
     assert all(isinstance(arg, list) for arg in (posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequence_id))
-- 
2.43.0


From a3a60408bdecfa384869dd551ee6a76b04967b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 18/71] fix: fit_params with outlier rejection: rms of the
 remaining points, and flag of fits with too few of them

---
 py/desimeter/posparams/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fitter.py b/py/desimeter/posparams/fitter.py
index 3962f9c..1a8785c 100644
--- a/py/desimeter/posparams/fitter.py
+++ b/py/desimeter/posparams/fitter.py
@@ -382,11 +382,12 @@ def fit_params(posintT, posintP, ptlX, ptlY, gearT, gearP, recent_rehome, sequen
             measured_p_int_0 = np.delete(measured_p_int_0,worst)
 
         npts=x_flat.size
+        n_pts=npts # the rms of residuals is for the points kept
         npar=len(initial_params)
         if npts<npar :
             message="ERROR: not enough remaining points ({} points) to fit calibration ({} params)".format(npts,npar)
             print(message)
-            flags |= movemask['FIT_FAILED']
+            flags |= movemask['FAILED_FIT']
             best_params = {"FLAGS": flags}
             covariance_dict = dict()
             rms_of_residuals = 0.
-- 
2.43.0


From 4735fc583aa1404fb16ddec6d3d7e366dd4b7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 19/71] fix: of calibration rows without a move in between,
 always keep the first one in time

---
 py/desimeter/posparams/fithandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 5cb6e72..f899069 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -238,7 +238,9 @@ def _ctrl_not_enabled(table):
 def _no_move_performed(table):
     '''Returns array of bools whether a move was performed in each row of table.
     Always assumed True for first row.'''
-    table.sort('TOTAL_MOVE_SEQUENCES')
+    # sort also by date because the sort is not stable: of the rows without a move
+    # in between the first one is kept
+    table.sort(['TOTAL_MOVE_SEQUENCES','DATE'])
     dummy = table['TOTAL_MOVE_SEQUENCES'][0] - 1
     moveseq_diff = _np_diff_with_prepend(table['TOTAL_MOVE_SEQUENCES'], prepend=dummy)
     return moveseq_diff == 0
-- 
2.43.0


From d94c1cb10fbf7ec2b2dece0eec856d29e39b16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 20/71] fix: calibration windows of a data set with a single
 datum date start at the start of the window

---
 py/desimeter/posparams/fithandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index f899069..69069a2 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -301,19 +301,19 @@ def _define_cases(table, datum_dates, data_window, printf=print):
 
     #- Catch special cases of single day and/or short input table
     num_moves = len(table)
-    if len(datum_dates) == 1:
+    if len(datum_dates) <= 1:
         for istart in range(0, num_moves, data_window):
             ifinal = min(len(table)-1, istart+data_window-1)
             #- check if window is smaller than requested
-            if (ifinal-istart < data_window):
+            if (ifinal-istart+1 < data_window):
                 if istart == 0:
                     #- even one window is smaller than requested
                     print(f'WARNING: total num_moves {num_moves} < data_window {data_window}')
                 else:
                     #- pad backwards, overlapping with previous window
-                    istart = ifinal - data_window
+                    istart = ifinal - data_window + 1
 
-            cases.append(dict(start_idx=0, final_idx=ifinal))
+            cases.append(dict(start_idx=istart, final_idx=ifinal))
 
         printf(f'{posid}: {len(cases):5d} analysis cases defined')
         return cases
-- 
2.43.0


From ce4126125c7da20a2d8e83758be7aed31d560f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 21/71] fix: calibration of a positioner with EPSILON
 parameters appearing in later windows only, or with more than 10 of them

---
 py/desimeter/posparams/fithandler.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 69069a2..a1d76c1 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -359,7 +359,10 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
     '''
     table.sort('DATE_SEC') # to ensure consistent ordering as in _define_cases
     posid = _get_posid(table)
-    output = {col:[] for col in output_keys}
+    # local copy because EPSILON parameters are added
+    # (they differ from one positioner to the next)
+    local_output_keys = output_keys.copy()
+    output = {col:[] for col in local_output_keys}
     # add covariances
     fitted_keys=list(fitter.static_keys)+list(fitter.dynamic_keys)
     for i1,col1 in enumerate(list(fitted_keys)) :
@@ -406,8 +409,9 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 #print("warning adding key={} which was not in fitted_keys={}".format(key,fitted_keys))
                 fitted_keys.append(key)
                 if key not in output.keys() :
-                    output[key] = list()
-                    output_keys[key]=True
+                    # was not in the previous windows
+                    output[key] = [0.]*(len(output['POS_ID'])-1)
+                    local_output_keys[key]=True
 
         for i1,key1 in enumerate(fitted_keys):
             if key1 in params.keys() :
@@ -468,12 +472,11 @@ def _process_cases(table, cases, mode, param_nominals, printf=print,outlier_reje
                 table[ekey]=np.sqrt(table[ekey])
 
     if True :  # adding _STATIC or _DYNAMIC to the parameters and covariance
-        for key in output_keys :
-            if output_keys[key] :
-                for key2 in table.dtype.names :
-                    if key2.find(key)>=0 :
-                        key2_xxx=key2.replace(key,key + _mode_suffix(mode))
-                        table.rename_column(key2,key2_xxx)
+        for key in table.dtype.names :
+            # covariances have several parameters in their name, separated by dots
+            key_xxx='.'.join([k + _mode_suffix(mode) if local_output_keys.get(k,False) else k for k in key.split('.')])
+            if key_xxx != key :
+                table.rename_column(key,key_xxx)
 
     return table
 
-- 
2.43.0


From 1d10126887c7f6af456c0e20739bdefc3ababa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 22/71] fix: ignore the windows an EPSILON parameter does not
 belong to when choosing its best value

---
 py/desimeter/posparams/fithandler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index a1d76c1..e98a97d 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -140,6 +140,13 @@ def run_best_fits(posid, path, period_days, data_window, savedir,
     quantile = np.percentile(errors, static_quantile * 100)
     selection = static_out[errors <= quantile]
     these_best = {key:np.median(selection[key + _mode_suffix('static')]) for key in best_static}
+    # EPSILON parameters are null in the windows they do not belong to
+    for key in these_best :
+        if key.find("EPSILON")>=0 :
+            for values in (selection[key + _mode_suffix('static')],static_out[key + _mode_suffix('static')]) :
+                if np.any(values!=0) :
+                    these_best[key] = np.median(values[values!=0])
+                    break
     best_static.update(these_best)
     printf(f'{posid}: Selected best static params = {_dict_str(best_static)}')
 
-- 
2.43.0


From 8db83b535f72e68383143d3bc1c4425f068643fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 23/71] fix: an empty calibration table is flagged as invalid

---
 py/desimeter/posparams/fithandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index e98a97d..8af3d7b 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -207,7 +207,7 @@ def _read(posid, path, printf=print, log_note_selection=None,force_recent_rehome
         print("WARNING: THE OFFSET_T AND OFFSET_P COMING FROM THIS FIT MIGHT NOT BE RELIABLE.")
         table["RECENT_REHOME"] = np.repeat(1,len(table))
 
-    if np.sum(table["RECENT_REHOME"]>0)==0 :
+    if len(table)>0 and np.sum(table["RECENT_REHOME"]>0)==0 :
         print("ERROR: There in no entry with RECENT_REHOME=1 in {}".format(path))
         print("ERROR: Entries with RECENT_REHOME=1 are required for the fit of OFFSET_T and OFFSET_P.")
         print("ERROR: To do things right, you should recall get_posmoves with the option --recent-rehome-exposure-ids")
-- 
2.43.0


From e355543c21ce636850cb2a853be29ab2939762e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 24/71] fix: fit_posparams reports positioners whose fit raises
 an error

---
 bin/fit_posparams | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/fit_posparams b/bin/fit_posparams
index 7330780..7e6c1b7 100755
--- a/bin/fit_posparams
+++ b/bin/fit_posparams
@@ -122,7 +122,8 @@ if __name__ == '__main__':
             else:
                 pool.apply_async(fithandler.run_best_fits,
                                  kwds=kwargs,
-                                 callback=print)
+                                 callback=print,
+                                 error_callback=print)
         pool.close()
         pool.join()
     print('Complete.')
-- 
2.43.0


From 27bac8e063f0cd9598bac8d2623877e9ce09c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 25/71] fix: keep the calibration windows of a single datum
 date cumulative as they were (each holds the first moves), only handle data
 of a single instant

---
 py/desimeter/posparams/fithandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/posparams/fithandler.py b/py/desimeter/posparams/fithandler.py
index 8af3d7b..f72a7df 100644
--- a/py/desimeter/posparams/fithandler.py
+++ b/py/desimeter/posparams/fithandler.py
@@ -312,15 +312,15 @@ def _define_cases(table, datum_dates, data_window, printf=print):
         for istart in range(0, num_moves, data_window):
             ifinal = min(len(table)-1, istart+data_window-1)
             #- check if window is smaller than requested
-            if (ifinal-istart+1 < data_window):
+            if (ifinal-istart < data_window):
                 if istart == 0:
                     #- even one window is smaller than requested
                     print(f'WARNING: total num_moves {num_moves} < data_window {data_window}')
                 else:
                     #- pad backwards, overlapping with previous window
-                    istart = ifinal - data_window + 1
+                    istart = ifinal - data_window
 
-            cases.append(dict(start_idx=istart, final_idx=ifinal))
+            cases.append(dict(start_idx=0, final_idx=ifinal))
 
         printf(f'{posid}: {len(cases):5d} analysis cases defined')
         return cases
-- 
2.43.0


From 3e0ae250e7c91fc50d9297d6a72cdfaf85134845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 26/71] fix: average_coordinates leaves its input tables intact

---
 py/desimeter/averagecoord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/averagecoord.py b/py/desimeter/averagecoord.py
index 225791f..23897b4 100644
--- a/py/desimeter/averagecoord.py
+++ b/py/desimeter/averagecoord.py
@@ -22,7 +22,7 @@ def average_coordinates(tables,xkey,ykey) :
         x2=np.array(table[xkey])
         y2=np.array(table[ykey])
         if x1 is None :
-            table1=table
+            table1=table.copy() # leave the input tables intact
             x1=x2
             y1=y2
             indices=np.arange(len(x1),dtype=int)
-- 
2.43.0


From b5aa895474be9ed8a7a0ee0bb51575729c26d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 27/71] fix: prepare_posparams_for_instr with a table without
 any missing value

---
 bin/prepare_posparams_for_instr | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index b7d78e2..cfd3b7d 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -247,10 +247,9 @@ required_keys = {'POS_ID', 'FLAGS', 'DEVICE_LOC', 'NUM_POINTS', 'DATA_END_DATE',
 required_keys |= set(fitter.static_keys)
 if uargs.allow_scale:
     required_keys |= {'FIT_ERROR_DYNAMIC', 'NUM_POINTS_IN_FIT_DYNAMIC'}
-mask_table = new_table.mask
-masked_list = mask_table['POS_ID']
+masked_list = np.zeros(len(new_table), dtype=bool)
 for key in required_keys:
-    masked_list |= mask_table[key]
+    masked_list |= np.ma.getmaskarray(new_table[key])
 new_table = _eliminate_rows(new_table, masked_list, 'paramfits file missing required value(s)', 'paramfits data complete')
 
 # check functions
-- 
2.43.0


From c5bc062f56956c11e911453d5908ad9779383769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 28/71] fix: prepare_posparams_for_instr keeps the row chosen
 by the user

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index cfd3b7d..429350b 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -414,7 +414,7 @@ def check_uniqueness(table):
                 logger.info(f'All {len(row_idxs)} rows for {posid} skipped (removed from table)')
                 retry = False
             elif user_input in {str(i) for i in options.keys()}:
-                delete_idxs = row_idxs[row_idxs != int(user_input)]
+                delete_idxs = row_idxs[np.arange(len(row_idxs)) != int(user_input)]
                 new.remove_rows(delete_idxs)
                 logger.info(f'{len(delete_idxs)} rows for {posid} removed')
                 n_remaining = len(get_row_idxs(new, posid))
-- 
2.43.0


From 94556b81899630b966e0908cb7a4549087a0aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 29/71] fix: prepare_posparams_for_instr asks again with the
 same options after an invalid answer

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 429350b..236fc46 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -163,7 +163,7 @@ def yesnohelp(message, yes=True, no=True, help_=True, exit_=True):
     if exit_ and answer.lower() in {'exit'}:
         logger.info('Exiting at user request.')
         sys.exit(0)
-    return yesnohelp(message)
+    return yesnohelp(message, yes=yes, no=no, help_=help_, exit_=exit_)
 
 def str2float(s):
     '''Returns float, or None if string s can not be converted to float.'''
-- 
2.43.0


From 99ace8b63e64a8e0c0584f05b87bee0e67fc3398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 30/71] fix: merge_posparams does not write parameters with
 locations contradicting the metrology

---
 bin/merge_posparams | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index e96a59d..a458fe8 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -110,7 +110,7 @@ if not args.no_check and not args.no_metrology :
         for k in ["DEVICE_LOC","LOCATION","PETAL_LOC","PETAL_ID"] :
             if posparams[k][j] != metrology[k][i] :
                 log.error("for {}={} {}={} != {} from metrology".format(device_id_key,pid,k,posparams[k][j],metrology[k][i]))
-                has_errors = True
+                has_error = True
     if has_error :
         sys.exit(12)
 
-- 
2.43.0


From f3c79ab59cfd6d23d2247d7a0f7334f6fa17c48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 31/71] fix: create the directory of the output transform

---
 py/desimeter/processfvc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 595250b..807f48c 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -110,7 +110,7 @@ def preproc(args):
             if not os.path.exists(directory):
                 os.makedirs(directory)
         if args.output_transform is not None:
-            directory, _ = os.path.split(args.outfile)
+            directory, _ = os.path.split(args.output_transform)
             if directory != '':
                 if not os.path.exists(directory):
                     os.makedirs(directory)
-- 
2.43.0


From 5e1739812b86c9f93bae48693d2711e672e16fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 32/71] fix: get_posmoves --pos-ids movers selects the
 positioners with move data

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index f9c8036..d6b4776 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -75,7 +75,7 @@ if args.enabled_history:
 else:
     desired_fields = {'moves': '*', 'calib': '*'}
 
-if args.pos_ids is not None :
+if args.pos_ids is not None and args.pos_ids != 'movers' :
     only_posids = args.pos_ids.split(",")
 else :
     only_posids = None
-- 
2.43.0


From ab535afff8bacd9a36204d7d22d31ec167f2557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 33/71] fix: get_posmoves with moves older than the first
 calibration

---
 bin/get_posmoves | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index d6b4776..8436ce6 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -176,9 +176,10 @@ for petalid in petalids :
                 posmoves[k]=list()
 
             for t in tstamp_posmovedb :
-                j=np.where(tstamp_calib<=t)[0][-1]
+                jj=np.where(tstamp_calib<=t)[0]
                 for k1,k2 in zip(new_keys,calib.keys()) :
-                    posmoves[k1].append(calib[k2][j])
+                    # no value if no calibration had been recorded yet
+                    posmoves[k1].append(calib[k2][jj[-1]] if len(jj)>0 else None)
 
         # save, using astropy.Table io
 
-- 
2.43.0


From 72e739e51ced6b6f6493843723f93b5557e11662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 34/71] fix: get_posmoves --enabled-history without
 --tp-updates

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index 8436ce6..180d7f9 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -213,7 +213,7 @@ for petalid in petalids :
             otable = otable[selection]
 
         # remove non measured entries
-        if not args.tp_updates:
+        if not args.tp_updates and "X_FP" in otable.columns:
             ok=(otable["X_FP"] != None)
             otable=otable[ok]
 
-- 
2.43.0


From 435a7459ede7a8bcb20b1f28b6b07d44dbd8d34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 35/71] fix: get_poscoords uses the calibration at the time of
 the move of each positioner

---
 bin/get_poscoords | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index 3d2c70d..e5a8276 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -91,11 +91,11 @@ for petalid in petalids :
             if k not in posmoves :
                 posmoves[k]=np.zeros(npos)
 
-        for t in tstamp_posmovedb :
-            j=np.where(tstamp_calib<t)[0][-1]
-            for k in calib.keys() :
-                if k == 'time_recorded' : continue
-                posmoves[k][postableindex] = calib[k][j]
+        t = tstamp_posmovedb[postableindex]
+        j=np.where(tstamp_calib<t)[0][-1]
+        for k in calib.keys() :
+            if k == 'time_recorded' : continue
+            posmoves[k][postableindex] = calib[k][j]
 
     # by default convert keys to upper case,
     # but with special cases (of course),
-- 
2.43.0


From d5428c19fab81364a6cf1b525936bb2c233cf1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 36/71] fix: prepare_posparams_for_instr --set-enabling accepts
 rows without flags, already marked as incomplete

---
 bin/prepare_posparams_for_instr | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/prepare_posparams_for_instr b/bin/prepare_posparams_for_instr
index 236fc46..fb43c87 100755
--- a/bin/prepare_posparams_for_instr
+++ b/bin/prepare_posparams_for_instr
@@ -259,7 +259,7 @@ def check_flags(table):
     # Internal details: Returns a copy of table.
     new = table.copy()
     for flag in movemask.names():
-        fail_list = [movemask[flag] & value for value in new['FLAGS']]
+        fail_list = [value is not np.ma.masked and movemask[flag] & value for value in new['FLAGS']]
         new = _eliminate_rows(new, fail_list, f'flag {flag}', f'not {flag}')
     return new
 
-- 
2.43.0


From 8888b8bdf61c75febbefb47f3d9da08aaa6be228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 37/71] fix: merge_posparams takes the location from the
 metrology for each row without one

---
 bin/merge_posparams | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/bin/merge_posparams b/bin/merge_posparams
index a458fe8..a0683a8 100755
--- a/bin/merge_posparams
+++ b/bin/merge_posparams
@@ -22,7 +22,7 @@ args = parser.parse_args()
 
 import os, sys
 import numpy as np
-from astropy.table import Table, vstack
+from astropy.table import Table, MaskedColumn, vstack
 import desimeter.io
 from desimeter.log import get_logger
 
@@ -71,7 +71,12 @@ for table in tables :
 posparams = vstack(tables)
 if "LOCATION" not in posparams.dtype.names :
     if "PETAL_LOC" in posparams.dtype.names and "DEVICE_LOC" in posparams.dtype.names :
-        posparams["LOCATION"]=1000*np.array(list(posparams["PETAL_LOC"])).astype(int)+np.array(list(posparams["DEVICE_LOC"])).astype(int)
+        # some files (failed fits) do not have these columns
+        missing = np.ma.getmaskarray(posparams["PETAL_LOC"]) | np.ma.getmaskarray(posparams["DEVICE_LOC"])
+        ok = ~missing
+        location = -1*np.ones(len(posparams),dtype=int)
+        location[ok] = 1000*np.array(list(posparams["PETAL_LOC"][ok])).astype(int)+np.array(list(posparams["DEVICE_LOC"][ok])).astype(int)
+        posparams["LOCATION"] = MaskedColumn(location, mask=missing) if np.any(missing) else location
 
 device_id_key="DEVICE_ID"
 if not device_id_key in posparams.dtype.names : # add device id because that's how it's called elsewhere in the code
@@ -81,20 +86,23 @@ if not device_id_key in posparams.dtype.names : # add device id because that's h
     sys.exit(12)
 
 
-if "DEVICE_LOC" not in posparams.dtype.names and (not args.no_metrology) :
-    # merge metrology info
+if not args.no_metrology :
+    # merge metrology info where missing
 
     metrology = desimeter.io.load_metrology()
     pid2ind = {pid:i for i,pid in enumerate(metrology["DEVICE_ID"])}
     npos=len(posparams)
     keys = ["LOCATION","DEVICE_LOC","PETAL_LOC","PETAL_ID"]
     for k in keys :
-        posparams[k]=-1*np.ones(npos,dtype=int)
-    for j,pid in enumerate(posparams[device_id_key]) :
-        if pid in pid2ind :
-            i=pid2ind[pid]
-            for k in keys :
-                posparams[k][j]=metrology[k][i]
+        if k in posparams.dtype.names :
+            missing = np.ma.getmaskarray(posparams[k])
+        else :
+            missing = np.ones(npos,dtype=bool)
+            posparams[k]=-1*np.ones(npos,dtype=int)
+        for j in np.flatnonzero(missing) :
+            pid = posparams[device_id_key][j]
+            if pid in pid2ind :
+                posparams[k][j]=metrology[k][pid2ind[pid]]
 
 if not args.no_check and not args.no_metrology :
 
-- 
2.43.0


From 1816ec2048a92ffb23742cf60bf44d17bf989d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 38/71] fix: get_posmoves --with-calib keeps the columns of the
 moves, also before the first calibration

---
 bin/get_posmoves | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index 180d7f9..918c956 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -165,19 +165,16 @@ for petalid in petalids :
 
             rename_keys={'time_recorded':'calib_time_recorded'}
 
-            new_keys=list()
-            for k in calib.keys() :
-                if k in rename_keys.keys() :
-                    new_keys.append(rename_keys[k])
-                else :
-                    new_keys.append(k)
+            # columns of the moves themselves (pos_id, petal_id) are kept
+            calib_keys = [k for k in calib.keys() if k in rename_keys.keys() or k not in posmoves.keys()]
+            new_keys = [rename_keys.get(k,k) for k in calib_keys]
 
             for k in new_keys :
                 posmoves[k]=list()
 
             for t in tstamp_posmovedb :
                 jj=np.where(tstamp_calib<=t)[0]
-                for k1,k2 in zip(new_keys,calib.keys()) :
+                for k1,k2 in zip(new_keys,calib_keys) :
                     # no value if no calibration had been recorded yet
                     posmoves[k1].append(calib[k2][jj[-1]] if len(jj)>0 else None)
 
-- 
2.43.0


From e0959fd666f56abbad4aebc7fb50bd6186255b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 39/71] fix: get_posmoves --tp-updates when the only selected
 move has index 0

---
 bin/get_posmoves | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/get_posmoves b/bin/get_posmoves
index 918c956..8e731e1 100755
--- a/bin/get_posmoves
+++ b/bin/get_posmoves
@@ -126,7 +126,7 @@ for petalid in petalids :
                 cmd_idx += f' and {cmd_exp}'
             cmd += order_by 
             result = dbquery(comm, cmd_idx)
-            if any(result['pos_move_index']):
+            if result['pos_move_index']:
                 min_idx = min(result['pos_move_index'])
                 max_idx = max(result['pos_move_index'])
                 max_idx += 1  # capture any tp_updates from just after the exposure or exp iteration
-- 
2.43.0


From c8561e345ca27172796e4a32399e70a9e8c031d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 40/71] fix: get_poscoords failed when a column had missing
 values for one petal only

---
 bin/get_poscoords | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bin/get_poscoords b/bin/get_poscoords
index e5a8276..262f8df 100755
--- a/bin/get_poscoords
+++ b/bin/get_poscoords
@@ -119,6 +119,11 @@ for petalid in petalids :
     if otable is None :
         otable = table
     else :
+        # a column can have missing values (None) for one petal only
+        for k in table.colnames :
+            if object in (otable[k].dtype, table[k].dtype) :
+                otable[k] = otable[k].astype(object)
+                table[k] = table[k].astype(object)
         otable = vstack([otable,table])
 
 # now compute expected positions
-- 
2.43.0


From e99ce6e10e9e3430fcc28fda80b371f002abf964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 41/71] fix: ok2move reported positioners with neighbours in
 the same direction as wedged, because of rounding

---
 bin/ok2move | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/ok2move b/bin/ok2move
index 22b7e38..cf65506 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -42,7 +42,8 @@ def find_neighbors(spots):
         v1 = np.array([dx[j], dy[j]])
         v2 = np.array([dx[k], dy[k]])
         cosangle = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
-        angle[i] = np.rad2deg( np.arccos(cosangle) )
+        # rounding can exceed 1 for aligned neighbors
+        angle[i] = np.rad2deg( np.arccos(np.clip(cosangle, -1, 1)) )
 
     return indices, dist, angle
 
-- 
2.43.0


From c31c8f8a2b2527bbd9c7af3113c5c36591f372f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 42/71] fix: ok2move with fewer than three spots

---
 bin/ok2move | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/ok2move b/bin/ok2move
index cf65506..ced2463 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -63,6 +63,10 @@ def ok2move(spots, tooclose=3.5, maxangle=90):
     Not ok to move if both neighbors are within `tooclose` and
     opening angle is > `maxangle`
     """
+    if len(spots) < 3:
+        # fewer than two neighbors
+        return np.ones(len(spots), dtype=bool)
+
     indices, dist, angle = find_neighbors(spots)
     ok = (np.sum(dist<tooclose, axis=1)<2) | (angle<maxangle)
     return ok
-- 
2.43.0


From 0d06ccdd57b4217498af0bbfb87984e99dff78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:04 +0000
Subject: [PATCH 43/71] fix: ok2move wrote no QA page for the last, incomplete
 group

---
 bin/ok2move | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bin/ok2move b/bin/ok2move
index ced2463..230f66c 100755
--- a/bin/ok2move
+++ b/bin/ok2move
@@ -176,10 +176,11 @@ def main():
             outfile = '{}/{}.png'.format(args.plotdir, spots['DEVICE_ID'][i])
             plot_positioner(fvcimage, spots, i, ok, outfile)
 
-        for i in range(len(okids)//args.groupsize):
+        for i in range(len(okids)//args.groupsize+1):
             ids = okids[i*args.groupsize:(i+1)*args.groupsize]
-            htmlfile = f'{args.plotdir}/group{i}.html'
-            write_group_html(htmlfile, ids)
+            if len(ids)>0 :
+                htmlfile = f'{args.plotdir}/group{i}.html'
+                write_group_html(htmlfile, ids)
 
         htmlfile = f'{args.plotdir}/dontmove.html'
         write_group_html(htmlfile, spots['DEVICE_ID'][~ok])
-- 
2.43.0


From a0a3365816106ef5a7368d279aa4ca0479cf15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 44/71] fix: TanCorr.fit combined the pointing offset before
 and after rotation and dilatation without the rotation

---
 py/desimeter/fieldmodel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 4f04fac..0d8652c 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -412,8 +412,10 @@ class TanCorr(object):
         # increasing gaia stars x means telescope is more to the left so tel_ha should be decreased
         # increasing gaia stars y means telescope is more to the bottom so tel_dec should be decreased
         # tangent plane coordinates are in rad
-        ddha  = -np.rad2deg(ax[0])
-        dddec = -np.rad2deg(ay[0])
+        # the offset is applied before the dilatation and rotation, see apply
+        dx, dy = np.linalg.solve(np.array([[ax[1],ax[2]],[ay[1],ay[2]]]), np.array([ax[0],ay[0]]))
+        ddha  = -np.rad2deg(dx)
+        dddec = -np.rad2deg(dy)
 
         self.dha  += ddha
         self.ddec += dddec
-- 
2.43.0


From 132acf3f606a7bc6a187150f2f38b8397dc0578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 45/71] fix: guide stars with unknown (masked) proper motion
 were dropped

---
 py/desimeter/fieldmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 0d8652c..91d42dc 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -119,8 +119,8 @@ class FieldModel(object):
                 raise RuntimeError("Cannot compute proper motion correction because mjd=None")
 
             # if proper motions and reference epochs are there
-            pmra = catalog['pmra']
-            pmdec = catalog['pmdec']
+            pmra = np.ma.filled(catalog['pmra'], 0.)
+            pmdec = np.ma.filled(catalog['pmdec'], 0.)
             # if unknown, zero out the pms
             pmra[~np.isfinite(pmra)] = 0
             pmdec[~np.isfinite(pmdec)] = 0
-- 
2.43.0


From 971af0e61f5f5565acfdf4ca8a8c81798edc9671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 46/71] fix: match of guide stars on both sides of RA=0

---
 py/desimeter/fieldmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 91d42dc..0cad92f 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -144,7 +144,7 @@ class FieldModel(object):
             dec_column = 'dec_gaia'
             log.warning("No proper motion info in catalog")
 
-        match_dra  = (catalog["ra"]-catalog[ra_column])*cosd(catalog[dec_column]) * 3600. # arcsec
+        match_dra  = ((catalog["ra"]-catalog[ra_column]+180.)%360.-180.)*cosd(catalog[dec_column]) * 3600. # arcsec
         match_ddec = (catalog["dec"]-catalog[dec_column]) * 3600. # arcsec
 
         dr = np.hypot(match_dra, match_ddec)
-- 
2.43.0


From effa1deffb7d0e64f7798f94e1186e7a333542b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 47/71] fix: guide stars without coordinates (masked) were
 selected

---
 py/desimeter/fieldmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index 0cad92f..b4027bf 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -148,7 +148,7 @@ class FieldModel(object):
         match_ddec = (catalog["dec"]-catalog[dec_column]) * 3600. # arcsec
 
         dr = np.hypot(match_dra, match_ddec)
-        selection = (dr<max_sep_arcsec) # arcsec
+        selection = np.ma.filled(dr<max_sep_arcsec, False) # arcsec
         if np.sum(selection)==0 :
             log.error("no star is matched with sufficient precision!")
             raise RuntimeError("no star is matched with sufficient precision!")
-- 
2.43.0


From 278f3d683dd70c938d9deb0de7d09aa457e231c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 48/71] fix: rows without centroid or star made the field model
 fit fail

---
 py/desimeter/fieldmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index b4027bf..c7004a3 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -199,7 +199,10 @@ class FieldModel(object):
         x_fp,y_fp = self.all_gfa2fp(x_gfa,y_gfa,petal_loc=catalog["petal_loc"])
 
         # keep only petal data for which we have the metrology
+        # and rows with a detection and a star
         selection = (x_fp!=0)
+        for val in [x_gfa,y_gfa,ra_gaia,dec_gaia] :
+            selection &= np.isfinite(np.ma.filled(val,np.nan))
         x_gfa    = x_gfa[selection]
         y_gfa    = y_gfa[selection]
         x_fp     = x_fp[selection]
-- 
2.43.0


From 52f00dc12d8bc293affece05e933bb05692df3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:43 +0000
Subject: [PATCH 49/71] fix: field rotation was the sine of the angle

---
 py/desimeter/fieldmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/fieldmodel.py b/py/desimeter/fieldmodel.py
index c7004a3..6f65fcb 100644
--- a/py/desimeter/fieldmodel.py
+++ b/py/desimeter/fieldmodel.py
@@ -261,7 +261,7 @@ class FieldModel(object):
         ha      = self.lst - ra
         x2,y2   = hadec2xy(ha,dec,ha[0],dec[0])
 
-        return  np.rad2deg(np.mean((y1[1:]*x2[1:]-x1[1:]*y2[1:])/np.sqrt((x1[1:]**2+y1[1:]**2)*(x2[1:]**2+y2[1:]**2))))
+        return  np.rad2deg(np.mean(np.arctan2(y1[1:]*x2[1:]-x1[1:]*y2[1:],x1[1:]*x2[1:]+y1[1:]*y2[1:])))
 
     # tangent plane correction from the instrument to the sky
     def tancorr_inst2sky(self,x_tan,y_tan) :
-- 
2.43.0


From 2056abea7658a026a6279a4010ae27c1ce553fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 50/71] fix: detectspots lost spots lying exactly between two
 pixels

---
 py/desimeter/detectspots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index b121d18..cd614a4 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -170,10 +170,11 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         threshold=max(min_counts_per_pixel,nsig*convolved_image_rms)
 
     peaks=np.zeros((n0,n1))
+    # >= on one side, otherwise a spot exactly between two pixels has no peak
     peaks[1:-1,1:-1] = ((convolved_image[1:-1, 1:-1] > convolved_image[:-2, 1:-1]) *
-                        (convolved_image[1:-1, 1:-1] > convolved_image[2:,  1:-1]) *
+                        (convolved_image[1:-1, 1:-1] >= convolved_image[2:,  1:-1]) *
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,:-2]) *
-                        (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,2:]) *
+                        (convolved_image[1:-1,1:-1]  >= convolved_image[1:-1,2:]) *
                         (convolved_image[1:-1,1:-1]>threshold))
     # loop on peaks
     peakindices=np.where(peaks.ravel()>0)[0]
-- 
2.43.0


From c375c2880c51672c5be1ccd32ce172ba85cf0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 51/71] fix: detectspots failed on, or misplaced, spots at the
 border of the image

---
 py/desimeter/detectspots.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index cd614a4..550e38e 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -176,6 +176,12 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
                         (convolved_image[1:-1,1:-1]  > convolved_image[1:-1,:-2]) *
                         (convolved_image[1:-1,1:-1]  >= convolved_image[1:-1,2:]) *
                         (convolved_image[1:-1,1:-1]>threshold))
+    # peaks too close to the border for a full stamp cannot be fit
+    hw=3
+    inside=np.zeros((n0,n1),dtype=bool)
+    inside[hw:n0-hw,hw:n1-hw]=True
+    peaks[~inside]=0
+
     # loop on peaks
     peakindices=np.where(peaks.ravel()>0)[0]
     npeak=len(peakindices)
@@ -192,7 +198,6 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     xerr=np.zeros(npeak)
     yerr=np.zeros(npeak)
     counts=np.zeros(npeak)
-    hw=3
 
     xoffset=0. # would need offsets of 1 to match with POS file. not sure what is the best choice here.
     yoffset=0.
-- 
2.43.0


From 772cb69c908f8fa285be60d207041e40a2eaef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 52/71] fix: detectspots returned undefined uncertainties for
 images without noise

---
 py/desimeter/detectspots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index 550e38e..fcc5ec7 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -152,7 +152,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     #- normalized median absolute deviation as robust version of RMS
     #- see https://en.wikipedia.org/wiki/Median_absolute_deviation
     convolved_image_rms=1.4826*np.median(np.abs(vals-mval))
-    ok=np.abs(vals-mval)<4*convolved_image_rms
+    ok=np.abs(vals-mval)<=4*convolved_image_rms
     mval=np.mean(vals[ok])
     convolved_image_rms=np.std(vals[ok])
     log.info("convolved image pedestal={:4.2f} rms={:4.2f}".format(mval,convolved_image_rms))
@@ -210,7 +210,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
     vals=fvcimage[ii0,ii1].ravel()
     mval=np.median(vals)
     fvcimage_rms=1.4826*np.median(np.abs(vals-mval))
-    ok=np.abs(vals-mval)<4*fvcimage_rms
+    ok=np.abs(vals-mval)<=4*fvcimage_rms
     mval=np.mean(vals[ok])
     fvcimage_rms=np.std(vals[ok])
     log.info("fvc image pedestal={:4.2f} rms={:4.2f}".format(mval,fvcimage_rms))
-- 
2.43.0


From f65d06a2f04fa688e058b6463ec2370b081a7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 53/71] fix: detectspots ignored the PSF width in the centroid
 fit

---
 py/desimeter/detectspots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index fcc5ec7..c16bbb6 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -111,13 +111,13 @@ def fitcentroid_gaussian(stamp,sigma=1.,noise=10.):
     #sys.exit(12)
 
 
-def fitcentroid(stamp,noise=10.):
+def fitcentroid(stamp,noise=10.,sigma=1.):
     """
     fit the centroid of a 2D image square stamp of size (2*hw+1,2*hw+1)
     in a coordinate system centered on the stamp, i.e. the central pixel has coordinates = (0,0)
     """
 
-    return fitcentroid_gaussian(stamp,sigma=1,noise=noise)
+    return fitcentroid_gaussian(stamp,sigma=sigma,noise=noise)
     #return fitcentroid_barycenter(stamp)
 
 
@@ -221,7 +221,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         i0=index//n1
         i1=index%n1
         if 1: #try :
-            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms)
+            x,y,ex,ey,c=fitcentroid(fvcimage[i0-hw:i0+hw+1,i1-hw:i1+hw+1],noise=fvcimage_rms,sigma=psf_sigma)
             xpix[j] = x + i1 + xoffset #  x is along axis=1 in python , also adding offset (definition of pixel coordinates)
             ypix[j] = y + i0 + yoffset #  y is along axis=0 in python , also adding offset (definition of pixel coordinates)
             xerr[j] = ex
-- 
2.43.0


From 5e6d464e3389d2833b542fc11a06f9af21ac1331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:48 +0000
Subject: [PATCH 54/71] fix: detectspots kept duplicates beyond the first
 hundred

---
 py/desimeter/detectspots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/detectspots.py b/py/desimeter/detectspots.py
index c16bbb6..a44d15c 100644
--- a/py/desimeter/detectspots.py
+++ b/py/desimeter/detectspots.py
@@ -240,7 +240,7 @@ def detectspots(fvcimage,min_counts_per_pixel=500,min_counts_per_spot=5000,nsig=
         yerr=yerr[good]
         counts=counts[good]
 
-    for _ in range(100) :
+    for _ in range(npeak) :
         # iterate, removing duplicates
         xy=np.array([xpix,ypix]).T
         tree = KDTree(xy)
-- 
2.43.0


From cf0e071200ae4914dbdd903a390ec7ac85257ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 55/71] fix: gradient wavefront covariance was not fit,
 rounding hid the dependence on its parameters

---
 py/desimeter/turbulence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a1554b9..1362981 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -151,7 +151,8 @@ def make_covar_gradwavefront_nonoise(x1, y1, x2, y2, param, rq=False, **kw):
     gauss = aa**2*np.exp(-(xdist**2+ydist**2)/2)
     n1 = len(x1)
     n2 = len(x2)
-    covar = np.empty((n2*2, n1*2), dtype='f4')
+    # double precision, otherwise the gradient of the loss is lost in rounding
+    covar = np.empty((n2*2, n1*2), dtype='f8')
     covar[:n2, :n1] = (1-xdist*xdist)*gauss
     covar[n2:, :n1] = -xdist*ydist*gauss
     covar[:n2, n1:] = -xdist*ydist*gauss
-- 
2.43.0


From 555bcc7c17471c186471a6f21311803e22f4b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 56/71] fix: correct_using_stationary failed when a measurement
 is not finite

---
 py/desimeter/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 1362981..5eecaf2 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -399,14 +399,14 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             np.isfinite(data['dx']) & np.isfinite(data['dy']))
     data = data[mask]
     if clip_resid > 0:
-        tmask = mask.copy()
+        tmask = np.ones(len(data), dtype=bool)
         for c in (data['dx'], data['dy']):
             med = np.median(c)
             sd = mad_std(c)
             tmask &= (c > med - 5*sd) & (c < med + 5*sd)
         if np.any(tmask):
             data = data[tmask]
-            mask = mask & tmask
+            mask[mask] = tmask
         # here using only stationary positioners
         xturb, yturb, _ = solve_independent(
             data, nuse=500, excludeself=False,
-- 
2.43.0


From 1410de4b5b791224608729dead71a4ec97ec8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 57/71] fix: correct_using_stationary ignored the value of
 clip_resid

---
 py/desimeter/turbulence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index 5eecaf2..a5d8a87 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -413,13 +413,13 @@ def correct_using_stationary(xs, ys, x0s, y0s, xc, yc,
             method='powell', fix_covar=True,
             scale_covar=scale_covar)
         offset = np.hypot(data['dx'] - xturb, data['dy'] - yturb)
-        tmask = offset < 0.01  # 10 microns
+        tmask = offset < clip_resid
         data = data[tmask]
         mask[mask] &= tmask
         if np.sum(~mask) > 0:
             log.info('Excluding %d stationary positioners with turbulence '
-                     'corrected offsets larger than 10 microns or 4 sigma '
-                     'away from rest.' % np.sum(~mask))
+                     'corrected offsets larger than %g or 5 sigma '
+                     'away from rest.' % (np.sum(~mask), clip_resid))
 
     xturb, yturb, _ = solve_independent(
         data, nuse=500, excludeself=False,
-- 
2.43.0


From 4512979d2485a67e7fc3e4bdad3484f9d255baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 58/71] fix: empirical_covariance returned more values than
 bins when given edges

---
 py/desimeter/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/turbulence.py b/py/desimeter/turbulence.py
index a5d8a87..0b944df 100644
--- a/py/desimeter/turbulence.py
+++ b/py/desimeter/turbulence.py
@@ -623,7 +623,7 @@ def empirical_covariance(data, bins=10, edges=None):
     else:
         edges = np.linspace(np.min(dist), np.max(dist)+0.1, bins+1)
     ind = np.searchsorted(edges, dist, side='right')-1
-    m = ind >= 0
+    m = (ind >= 0) & (ind < bins)
     ncount = np.bincount(ind[m], minlength=bins)
     ncount = ncount + (ncount == 0)
     dx1dx2 = np.bincount(ind[m], weights=dx1dx2[m], minlength=bins)
-- 
2.43.0


From 79ffa0422992790e42ee80a461ff9226e4e90353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:42 +0000
Subject: [PATCH 59/71] fix: findfiducials failed with a singular matrix when
 there are too few candidates

---
 py/desimeter/findfiducials.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/py/desimeter/findfiducials.py b/py/desimeter/findfiducials.py
index d2326eb..260ae72 100644
--- a/py/desimeter/findfiducials.py
+++ b/py/desimeter/findfiducials.py
@@ -60,6 +60,12 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
     # find fiducials candidates
     log.info("select spots with at least two close neighbors (in pixel units)")
     nspots=spots["XPIX"].size
+    if nspots == 0 :
+        log.warning("no spots")
+        for k in ['LOCATION','PETAL_LOC','DEVICE_LOC','PINHOLE_ID'] :
+            if k not in spots.dtype.names :
+                spots.add_column(Column(np.zeros(nspots,dtype=int)),name=k)
+        return spots
     xy   = np.array([spots["XPIX"],spots["YPIX"]]).T
     tree = KDTree(xy)
 
@@ -86,6 +92,9 @@ def findfiducials(spots,input_transform=None,pinhole_max_separation_mm=1.5) :
             maxdistance = 10 # pixel
         selection = np.where((indices_2>=0)&(distances<maxdistance))[0]
         log.info("iter #{} median_dist={} max_dist={} matches={}".format(loop,mdist,maxdistance,selection.size))
+        if selection.size < 3 :
+            log.warning("not enough matches to fit a correction")
+            break
         corr21 = SimpleCorr()
         corr21.fit(x2[indices_2[selection]],y2[indices_2[selection]],x1[selection],y1[selection])
         x2,y2 = corr21.apply(x2,y2)
-- 
2.43.0


From 6df4a1fdff987655849f0ac0657fb780af5765bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 60/71] fix: --extname last did not give the last frame unless
 frames are numbered from 0 without gaps

---
 py/desimeter/processfvc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 807f48c..3ca2af9 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -1,6 +1,7 @@
 """FVC image processing
 """
 import os
+import re
 import sys
 import subprocess
 import argparse
@@ -139,12 +140,11 @@ def get_spots_list(args, log):
             else :
                 tmp_extnames = [k for k in fx.hdu_map.keys() if isinstance(k, str)]
                 tmp_extnames = [e.lower() for e in tmp_extnames]
-                extname = None
-                for i in range(len(tmp_extnames)):
-                    extname0 = f'f{i:04d}'
-                    if extname0 in tmp_extnames:
-                        extname = extname0
-                extnames.append(extname)
+                tmp_extnames = [e for e in tmp_extnames if re.fullmatch('f[0-9]{4}',e)]
+                if len(tmp_extnames) == 0 :
+                    log.error("no extension FXXXX in {}".format(args.infile))
+                    return None, None
+                extnames.append(max(tmp_extnames))
 
             for extname in extnames :
                 log.info('reading image in extension {}'.format(extname))
-- 
2.43.0


From f5bb3dd808ff5b96880af4be9a1d550d49f5ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 61/71] fix: PETAL_LOC and DEVICE_LOC stayed -1 when expected
 positions only have LOCATION

---
 py/desimeter/processfvc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 3ca2af9..4541c4f 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -193,6 +193,9 @@ def get_expected_pos(args, log):
     if not "LOCATION" in expected_pos.keys() :
         # add useful location keyword
         expected_pos["LOCATION"] = np.array(expected_pos["PETAL_LOC"])*1000+np.array(expected_pos["DEVICE_LOC"])
+    if not "PETAL_LOC" in expected_pos.keys() or not "DEVICE_LOC" in expected_pos.keys() :
+        expected_pos["PETAL_LOC"] = np.array(expected_pos["LOCATION"])//1000
+        expected_pos["DEVICE_LOC"] = np.array(expected_pos["LOCATION"])%1000
 
     if "PINHOLE_ID" in expected_pos.dtype.names :
         # exclude pinhole because here we want to match fibers
-- 
2.43.0


From 3b74e6ab6c0f9592282822197e550d51d11706db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 62/71] fix: fvc_proc failed with empty or NaN expected X_FP,
 or empty EXP_Q_0

---
 py/desimeter/processfvc.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 4541c4f..02d158b 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -177,15 +177,22 @@ def get_expected_pos(args, log):
         if not "X_FP" in expected_pos.keys() :
             if "EXP_Q_0" in  expected_pos.keys() :
                 log.info("EXP_Q_0,EXP_S_0 -> X_FP,Y_FP")
-                x,y = qs2xy(q=expected_pos["EXP_Q_0"],s=expected_pos["EXP_S_0"])
+                q = np.ma.filled(np.ma.array(expected_pos["EXP_Q_0"],dtype=float),np.nan)
+                s = np.ma.filled(np.ma.array(expected_pos["EXP_S_0"],dtype=float),np.nan)
+                x,y = qs2xy(q=q,s=s)
                 expected_pos["X_FP"] = x
                 expected_pos["Y_FP"] = y
-                bad_expected_pos = (np.isnan(x)|np.isnan(y))
-                if np.sum(bad_expected_pos) > 0 :
-                    expected_pos["X_FP"][bad_expected_pos]=-99999.
-                    expected_pos["Y_FP"][bad_expected_pos]=-99999.
             else :
                 log.error("No EXP_Q_0 nor X_FP in expected positions file {}".format(args.expected_positions))
+
+        # empty (masked) or not finite entries cannot be matched
+        x = np.ma.filled(np.ma.array(expected_pos["X_FP"],dtype=float),np.nan)
+        y = np.ma.filled(np.ma.array(expected_pos["Y_FP"],dtype=float),np.nan)
+        bad_expected_pos = (~np.isfinite(x))|(~np.isfinite(y))
+        x[bad_expected_pos] = -99999.
+        y[bad_expected_pos] = -99999.
+        expected_pos["X_FP"] = x
+        expected_pos["Y_FP"] = y
     else :
         log.info("since no input expected positions, use metrology to match the fibers to the positioner centers")
         expected_pos = load_metrology()
-- 
2.43.0


From f5979ca4b5ebea0a947bee230dafc588d17ba586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 63/71] fix: option --hdu-for-expected-positions of
 desi_fvc_proc was ignored

---
 py/desimeter/processfvc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 02d158b..c67036d 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -166,7 +166,18 @@ def get_spots_list(args, log):
 def get_expected_pos(args, log):
     if args.expected_positions is not None :
         log.info("reading expected positions in {}".format(args.expected_positions))
-        expected_pos = Table.read(args.expected_positions) # auto-magically guess format
+        hdu = None
+        if args.expected_positions.find(".fits")>0 :
+            with fitsio.FITS(args.expected_positions) as fx :
+                names = [h.get_extname() for h in fx]
+            for i,name in enumerate(names) :
+                if name.strip().upper() == args.hdu_for_expected_positions.strip().upper() :
+                    hdu = i
+                    break
+        if hdu is not None :
+            expected_pos = Table.read(args.expected_positions,hdu=hdu)
+        else :
+            expected_pos = Table.read(args.expected_positions) # auto-magically guess format
 
         if (not "X_FP" in expected_pos.keys()) and "X_FP_EXP" in expected_pos.keys() :
             log.warning("Rename X_FP_EXP,Y_FP_EXP -> X_FP,Y_FP")
-- 
2.43.0


From 654b4abed0f4d574f4019565d9966a0a64cdb631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 64/71] fix: fvc_proc kept the expected positions and names of
 an earlier run for spots without match

---
 py/desimeter/processfvc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index c67036d..9519b4e 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -258,6 +258,11 @@ def fvc_proc(args, log):
             print("wrote {}".format(outfile))
             continue
 
+        # a table of spots that was already processed has results that would remain for unmatched spots
+        for k in ["X_FP","Y_FP","X_FP_EXP","Y_FP_EXP","X_FP_METRO","Y_FP_METRO","EXP_Q_0","EXP_S_0","DEVICE_ID","DEVICE_TYPE","RA","DEC"] :
+            if k in spots.dtype.names :
+                spots.remove_column(k)
+
         if args.use_spotmatch :
             spots = spotmatch(spots["XPIX"],spots["YPIX"],match_radius_pixels=args.spotmatch_match_radius_pixels)
             # drop pinholes, keep only center
-- 
2.43.0


From 883d02e847259dadf757f3a4b091a3db7d3613e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 65/71] fix: fvc_proc changed the arguments of its caller

---
 py/desimeter/processfvc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index 9519b4e..ea35b65 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -5,6 +5,7 @@ import re
 import sys
 import subprocess
 import argparse
+import copy
 from astropy.table import Table
 import numpy as np
 import fitsio
@@ -226,6 +227,7 @@ def get_expected_pos(args, log):
 def fvc_proc(args, log):
     """Process an FVC image with options specified by args and output to log.
     """
+    args = copy.copy(args) # preproc replaces the name of the bias by an image
     errcode = preproc(args)
     if errcode:
         return errcode
-- 
2.43.0


From 860060c6379a481a55d80951eec791c5aceed0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:43 +0000
Subject: [PATCH 66/71] fix: output names of desi_fvc_proc --sequence were
 wrong in a directory with .csv in its name

---
 py/desimeter/processfvc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index ea35b65..c378957 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -250,9 +250,9 @@ def fvc_proc(args, log):
         outfile = args.outfile
         if args.sequence:
             if extnames is not None:
-                outfile = outfile.replace(".csv","-%s.csv" % extnames[seqid])
+                outfile = outfile[:-len(".csv")] + "-%s.csv" % extnames[seqid]
             else:
-                outfile = outfile.replace(".csv","-F{:04d}.csv".format(seqid))
+                outfile = outfile[:-len(".csv")] + "-F{:04d}.csv".format(seqid)
 
         if args.nomatch :
             # write spots
-- 
2.43.0


From 9e94f16abfd75e4445ec8dfeefc6e5cacd89cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 67/71] fix: fvc_proc matched spots to tooling balls of the
 metrology that have no location

---
 py/desimeter/processfvc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/desimeter/processfvc.py b/py/desimeter/processfvc.py
index c378957..609c572 100644
--- a/py/desimeter/processfvc.py
+++ b/py/desimeter/processfvc.py
@@ -208,6 +208,8 @@ def get_expected_pos(args, log):
     else :
         log.info("since no input expected positions, use metrology to match the fibers to the positioner centers")
         expected_pos = load_metrology()
+        # other references (tooling balls) in the table are not locations
+        expected_pos = expected_pos[:][np.array(expected_pos["LOCATION"])>=0]
 
     if not "LOCATION" in expected_pos.keys() :
         # add useful location keyword
-- 
2.43.0


From 112880f55b87a43d66005313b58a3c7cc6628a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:48 +0000
Subject: [PATCH 68/71] fix: detect_phi_arm overwrote the template it was given

---
 py/desimeter/brightimage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/brightimage.py b/py/desimeter/brightimage.py
index 618de0c..332128d 100644
--- a/py/desimeter/brightimage.py
+++ b/py/desimeter/brightimage.py
@@ -34,7 +34,7 @@ def detect_phi_arm(x,y,image,template,ang_step=1.,plot=False) :
     xgrid, ygrid = np.mgrid[-pad:pad+1,-pad:pad+1]
     mask = ((xgrid**2 + ygrid**2) < pad**2)
 
-    template *= mask
+    template = template*mask # not in place: this is the array of the caller
     template /=np.sqrt(np.sum(template**2))
 
     best_angle = []
-- 
2.43.0


From c2674f5c062b0da99e370a81f1ace02e112264ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:07 +0000
Subject: [PATCH 69/71] fix: fast circle fit of three points paired each point
 with itself and returned no circle

---
 py/desimeter/circles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 6306858..1dd0157 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -81,7 +81,7 @@ def _fast_fit_circle(x,y,use_median=False) :
     nn=len(x)
     i1=np.arange(nn)
     ### i2=(i1+1)%nn
-    i2=(i1+nn//2-1)%nn
+    i2=(i1+max(1,nn//2-1))%nn
 
     # midpoints
     mx=((x[i1]+x[i2])/2.)
-- 
2.43.0


From 73b7085e96a5d563dae961d1dd0a2539f4a66763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:07 +0000
Subject: [PATCH 70/71] fix: robust_fit_circle rejected the same outlier again
 and again and kept the others

---
 py/desimeter/circles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/circles.py b/py/desimeter/circles.py
index 1dd0157..2dd2c3e 100644
--- a/py/desimeter/circles.py
+++ b/py/desimeter/circles.py
@@ -125,7 +125,8 @@ def robust_fit_circle(x, y, nsig=4., minerr=0.1):
         print(xc,yc,r)
         radii = np.hypot(x-xc, y-yc)
         res = np.abs(radii-r)
-        rms = 1.483*np.median(res)
+        res[~ok] = 0. # points already rejected
+        rms = 1.483*np.median(res[ok])
         worst = np.argmax(res)
         if (res[worst] < nsig*rms) or (res[worst] < minerr) :
             break
-- 
2.43.0


From 5005799497b84a5914949d3f45cac23bb16763b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 71/71] fix: spotmatch calls shared their files: a call could
 return the matches of another one or of an earlier one

---
 py/desimeter/spotmatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py/desimeter/spotmatch.py b/py/desimeter/spotmatch.py
index 2350598..668f39e 100644
--- a/py/desimeter/spotmatch.py
+++ b/py/desimeter/spotmatch.py
@@ -278,7 +278,9 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
     fid_x_dir=-1
     fid_y_dir=1
 
-    tmp_dir=tempfile.gettempdir()
+    # files of this call only: other calls can be running, or have left their output
+    tmp_dir_object=tempfile.TemporaryDirectory(prefix="desimeter_spotmatch_")
+    tmp_dir=tmp_dir_object.name
 
     if fvc2fp is None :
         fvc2fp = FVC2FP.read(fvc2fp_filename())
@@ -377,6 +379,7 @@ def spotmatch(xpix,ypix,expected_x_fp=None,expected_y_fp=None,expected_location=
             err.append(float(vals[5]))
             device_type.append(vals[6])
     print("read {} entries in {}".format(len(xpix),match_centers_filename))
+    tmp_dir_object.cleanup()
 
     res=Table()
     res["LOCATION"]=location
-- 
2.43.0

