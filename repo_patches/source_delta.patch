From 2c7fabb29fcb0fddc243a39af4e026abde384bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 01/31] fix: variance of a ratio is defined when the numerator
 is zero

---
 ngmix/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/util.py b/ngmix/util.py
index 3bfb67d..1215e7c 100644
--- a/ngmix/util.py
+++ b/ngmix/util.py
@@ -62,9 +62,10 @@ def get_ratio_var(a, b, var_a, var_b, cov_ab):
     if np.any(b == 0):
         raise ValueError("zero in denominator")
 
-    rsq = (a/b)**2
+    # written so that it is also defined when a is zero
+    ratio = a/b
 
-    var = rsq * (var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b))
+    var = (var_a + ratio**2*var_b - 2*ratio*cov_ab)/b**2
     return var
 
 
-- 
2.43.0


From b03854c58bec35782c92f8f181d5761cb64bec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 02/31] fix: GaussMom reports flagged results in flux units too

---
 ngmix/gaussmom.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index a8f4b49..27ae625 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -55,11 +55,9 @@ class GaussMom(object):
             obs=obs, with_higher_order=self.with_higher_order,
         )
 
-        if res['flags'] != 0:
-            return res
-
         # need to take out the pixel area factor since new ngmix is in flux
-        # units
+        # units.  Do this also for flagged results, for which the sums and
+        # often the flux are still reported
         area = obs.jacobian.area
         fac = 1/area
         res['flux'] *= fac
-- 
2.43.0


From 317d1b96b9f586768400fc1943d9af9116bf244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 03/31] fix: GaussMom named flux sums are in flux units like
 the sums

---
 ngmix/gaussmom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index 27ae625..b3a881c 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -68,6 +68,12 @@ class GaussMom(object):
         res["sums_norm"] *= fac
         res["wsum"] *= fac
         res["sums_err"] *= fac
+
+        # the named moments other than these are ratios of sums
+        for name in ["MF", "M00"]:
+            res[name] *= fac
+            res[name + "_err"] *= fac
+
         return res
 
     def _set_mompars(self):
-- 
2.43.0


From b642e751d00f574d0cd20900a2239a72d5338ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 04/31] fix: regularize_mom_shapes accepts results with higher
 order moments

---
 ngmix/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index c1e028f..5ebc391 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -609,7 +609,8 @@ def regularize_mom_shapes(res, fwhm_reg):
 
         # the moments are not normalized and are sums, so convert T_reg to a sum using
         # the flux sum first via T_reg -> T_reg * raw_mom[5]
-        amat = np.eye(6)
+        # there can be higher order moments after the first six
+        amat = np.eye(raw_mom.size)
         amat[4, 5] = T_reg
 
         # the pre-PSF fitters do not fill out the centroid moments so hack around that
-- 
2.43.0


From 1060794def5c187b968c593a5bf7dfc320c831a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 05/31] fix: make_round updates the determinants

---
 ngmix/gmix/gmix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e0b8107..5f802cb 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -580,6 +580,7 @@ class GMix(object):
             gdata["irc"][i] = 0.0
             gdata["irr"][i] = 0.5 * Ti * factor
             gdata["icc"][i] = 0.5 * Ti * factor
+            gdata["det"][i] = gdata["irr"][i] * gdata["icc"][i]
 
         return gm
 
-- 
2.43.0


From ac4b9985555c9593704f1141f2ce19b96506a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 06/31] fix: copies of model mixtures keep changes made since
 the fill

---
 ngmix/gmix/gmix.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 5f802cb..d1c3901 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -935,6 +935,8 @@ class GMixModel(GMix):
         Get a new GMix with the same parameters
         """
         gmix = GMixModel(self._pars, self._model_name)
+        # the data may have been modified since they were filled
+        gmix._data[:] = self._data[:]
         return gmix
 
     def set_cen(self, row, col):
@@ -977,7 +979,10 @@ class GMixCM(GMixModel):
         """
         Get a new GMix with the same parameters
         """
-        return GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix = GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        # the data may have been modified since they were filled
+        gmix._data[:] = self._data[:]
+        return gmix
 
     def _fill(self, pars):
         """
@@ -1062,6 +1067,8 @@ class GMixCoellip(GMixModel):
         Get a new GMix with the same parameters
         """
         gmix = GMixCoellip(self._pars)
+        # the data may have been modified since they were filled
+        gmix._data[:] = self._data[:]
         return gmix
 
 
-- 
2.43.0


From 014a04faca26fb6a294cacdecb1f850a3d85c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 07/31] fix: a failed fill does not change the stored
 parameters of a mixture

---
 ngmix/gmix/gmix.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index d1c3901..4e7f2ca 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -404,13 +404,17 @@ class GMix(object):
             The parameters
         """
 
-        self._pars[:] = pars
+        newpars = self._pars.copy()
+        newpars[:] = pars
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._pars,
+            gm, newpars,
         )
 
+        # only keep the parameters if they were used
+        self._pars[:] = newpars
+
     def copy(self):
         """
         Get a new GMix with the same parameters
@@ -995,13 +999,17 @@ class GMixCM(GMixModel):
             The parameters
         """
 
-        self._pars[:] = pars
+        newpars = self._pars.copy()
+        newpars[:] = pars
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._fracdev, self._TdByTe, self._Tfactor, self._pars,
+            gm, self._fracdev, self._TdByTe, self._Tfactor, newpars,
         )
 
+        # only keep the parameters if they were used
+        self._pars[:] = newpars
+
     def __repr__(self):
         rep = super(GMixCM, self).__repr__()
         rep = [
-- 
2.43.0


From 843484d4ca6f45d2b0e05777b9124235802ceefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 08/31] fix: a mixture is not marked as normalised when setting
 a norm failed

---
 ngmix/gmix/gmix_nb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index c444e26..512e189 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -174,8 +174,12 @@ def gmix_set_norms(gmix):
     gmix:
        gaussian mixture
     """
-    for gauss in gmix:
-        gauss2d_set_norm(gauss)
+    # Only the first gaussian is checked to see if the norms are set. Do that one
+    # last, so an error in another one does not leave the mixture marked as set
+    for i in range(1, gmix.size):
+        gauss2d_set_norm(gmix[i])
+
+    gauss2d_set_norm(gmix[0])
 
 
 @njit
-- 
2.43.0


From d05ebd040aaf3398291fe229028733204720e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 09/31] fix: pixels with a nan weight are not used

The number of pixels was counted with weight > 0 but only weight <= 0 was
skipped when filling, so nan weights wrote beyond the end of the array
---
 ngmix/pixels/pixels_nb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/pixels/pixels_nb.py b/ngmix/pixels/pixels_nb.py
index ea7779f..6aaf176 100644
--- a/ngmix/pixels/pixels_nb.py
+++ b/ngmix/pixels/pixels_nb.py
@@ -34,7 +34,8 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
         for col in range(ncol):
 
             ivar = weight[row, col]
-            if ignore_zero_weight and ivar <= 0.0:
+            # not positive includes nan
+            if ignore_zero_weight and not ivar > 0.0:
                 continue
 
             pixel = pixels[ipixel]
@@ -47,7 +48,7 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
 
             pixel['val'] = image[row, col]
 
-            if ivar < 0.0:
+            if not ivar > 0.0:
                 ivar = 0.0
 
             pixel['ierr'] = numpy.sqrt(ivar)
-- 
2.43.0


From c831607566e466016790a2e0df353c07cecbdbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 10/31] fix: Observation comparison looks at what the other one
 has

A part only one of them has made them compare equal or raised an
AttributeError, and images of different shape could be broadcast
---
 ngmix/observation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index e21b580..375f56f 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -763,13 +763,18 @@ class Observation(MetadataMixin):
                 self_has = obs_has = True
             else:
                 self_has = getattr(self, has)()
-                obs_has = getattr(self, has)()
+                obs_has = getattr(obs, has)()
             if self_has or obs_has:
                 if self_has and obs_has:
 
                     self_data = getattr(self, attr)
                     obs_data = getattr(obs, attr)
-                    if not np.all(self_data == obs_data):
+                    if atype == 'array':
+                        # same shape, no broadcasting
+                        same = np.array_equal(self_data, obs_data)
+                    else:
+                        same = np.all(self_data == obs_data)
+                    if not same:
                         return False
                 else:
                     return False
-- 
2.43.0


From 3a9eddf260834045a9d89d2185c568359eef72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 11/31] fix: mixtures with different numbers of gaussians are
 not equal

The comparison was broadcast or raised a ValueError
---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 4e7f2ca..c961482 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -441,6 +441,9 @@ class GMix(object):
         self_data = self.get_data()
         gm_data = gm.get_data()
 
+        if self_data.size != gm_data.size:
+            return False
+
         for n in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
             if not np.all(self_data[n] == gm_data[n]):
                 return False
-- 
2.43.0


From 820ba86d7eab9b45ad05dc45deb1c6b7200def2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 12/31] fix: a refused psf or gmix does not remove the one an
 Observation has

---
 ngmix/observation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 375f56f..139ea97 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -553,12 +553,14 @@ class Observation(MetadataMixin):
         """
         Set a psf Observation
         """
+        if psf is not None:
+            mess = "psf must be of Observation, got %s" % type(psf)
+            assert isinstance(psf, Observation), mess
+
         if self.has_psf():
             del self._psf
 
         if psf is not None:
-            mess = "psf must be of Observation, got %s" % type(psf)
-            assert isinstance(psf, Observation), mess
             self._psf = psf
 
     def get_psf(self):
@@ -602,12 +604,14 @@ class Observation(MetadataMixin):
             The GMix to use to set the internal GMix.
         """
 
+        if gmix is not None:
+            mess = "gmix must be of type GMix, got %s" % type(gmix)
+            assert isinstance(gmix, GMix), mess
+
         if self.has_gmix():
             del self._gmix
 
         if gmix is not None:
-            mess = "gmix must be of type GMix, got %s" % type(gmix)
-            assert isinstance(gmix, GMix), mess
             self._gmix = gmix.copy()
 
     def get_gmix(self):
-- 
2.43.0


From d2ee14cb87bf9d395d47375b70e8b6a09ae4d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:58 +0000
Subject: [PATCH 13/31] fix: an Observation is unchanged when its pixels cannot
 be made

Setting a weight map with no positive pixels raised an error after
replacing the weight map, which then did not match the pixels
---
 ngmix/observation.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 139ea97..d2ce5f0 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -341,10 +341,7 @@ class Observation(MetadataMixin):
                     "vs %s" % (image.shape, image_old.shape))
             assert image.shape == image_old.shape, mess
 
-        self._image = image
-
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update('_image', image, update_pixels)
 
     def set_weight(self, weight, update_pixels=True):
         """
@@ -371,9 +368,7 @@ class Observation(MetadataMixin):
         else:
             weight = np.zeros(image.shape) + 1.0
 
-        self._weight = weight
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update('_weight', weight, update_pixels)
 
     def set_mfrac(self, mfrac):
         """
@@ -534,10 +529,7 @@ class Observation(MetadataMixin):
             assert isinstance(jacobian, Jacobian), mess
             jac = jacobian.copy()
 
-        self._jacobian = jac
-
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update('_jacobian', jac, update_pixels)
 
     def get_jacobian(self):
         """
@@ -798,9 +790,7 @@ class Observation(MetadataMixin):
         """
         # only update if value is changed
         do_update = False if store_pixels == self._store_pixels else True
-        self._store_pixels = store_pixels
-        if do_update:
-            self.update_pixels()
+        self._set_and_update('_store_pixels', store_pixels, do_update)
 
     @property
     def ignore_zero_weight(self):
@@ -814,9 +804,26 @@ class Observation(MetadataMixin):
         calls update_pixels after ignore_zero_weight is set if needed
         """
         do_update = False if ignore_zero_weight == self._ignore_zero_weight else True
-        self._ignore_zero_weight = ignore_zero_weight
-        if do_update:
+        self._set_and_update(
+            '_ignore_zero_weight', ignore_zero_weight, do_update,
+        )
+
+    def _set_and_update(self, name, value, update_pixels):
+        """
+        set an attribute the pixels depend on and update them if requested.  If
+        the pixels cannot be made the attribute keeps its old value
+        """
+        if not update_pixels:
+            setattr(self, name, value)
+            return
+
+        old = getattr(self, name)
+        setattr(self, name, value)
+        try:
             self.update_pixels()
+        except Exception:
+            setattr(self, name, old)
+            raise
 
     def update_pixels(self):
         """
-- 
2.43.0


From e2d83d113a38b8785cd99113fa2558b62352f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 14/31] fix: assigning to a slice of a multi-band list does not
 put observations in it

---
 ngmix/observation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index d2ce5f0..16e3771 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1113,6 +1113,8 @@ class MultiBandObsList(list, MetadataMixin):
         assert isinstance(obs_list, ObsList), (
             'obs_list should be of type ObsList'
         )
+        # assigning to a slice would put in the elements of the list
+        assert not isinstance(index, slice), 'set one item at a time'
         super(MultiBandObsList, self).__setitem__(index, obs_list)
 
 
@@ -1370,6 +1372,8 @@ class KMultiBandObsList(list, MetadataMixin):
         """
         assert isinstance(kobs_list, KObsList), \
             "kobs_list should be of type KObsList"
+        # assigning to a slice would put in the elements of the list
+        assert not isinstance(index, slice), 'set one item at a time'
 
         super(KMultiBandObsList, self).__setitem__(index, kobs_list)
 
-- 
2.43.0


From d527ced118bd05b2052f5d9984eed72596d5195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 15/31] fix: a psf refused by a k space observation is not
 attached

---
 ngmix/observation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 16e3771..c4e039e 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1249,21 +1249,20 @@ class KObservation(MetadataMixin):
             The PSF as a KObservation. If not None, the shape of the psf image
             should match the observation image.
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is None:
+            if self.has_psf():
+                del self._psf
             return
 
         assert isinstance(psf, KObservation)
 
-        self._psf = psf
-
         if psf.kimage.array.shape != self.kimage.array.shape:
             raise ValueError("psf kimage must have "
                              "same shape as kimage")
         assert np.allclose(psf.kimage.scale, self.kimage.scale)
 
+        self._psf = psf
+
     def _set_jacobian(self):
         """
         center is always at the canonical center.
-- 
2.43.0


From e54aad496238b26790335407de88dd0afe065cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:55 +0000
Subject: [PATCH 16/31] fix: the highest bit of a flag value is described

---
 ngmix/flags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/flags.py b/ngmix/flags.py
index 776e98f..43c11e9 100644
--- a/ngmix/flags.py
+++ b/ngmix/flags.py
@@ -87,7 +87,7 @@ def get_flags_str(val, name_map=None):
     val = np.array(val, dtype=np.uint32)
 
     nstrs = []
-    for pow in range(31):
+    for pow in range(32):
         fval = 2**pow
         if ((val & fval) != 0):
             if fval in name_map:
-- 
2.43.0


From 55d6e5081e8412cdbf39745a5dbee4d180af47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 17/31] fix: FlatPrior.get_lnprob_array returns one value per
 location

---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 54001a8..1e25393 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -137,7 +137,7 @@ class FlatPrior(PriorBase):
                 "[%s,%s]" % (self.minval, self.maxval)
             )
 
-        return retval
+        return vals*0 + retval
 
     def get_fdiff(self, val):
         """
-- 
2.43.0


From 9dd08dd1f0236080c7c81ac5ee511c551832d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 18/31] fix: CenPrior.get_prob_array works for arrays

---
 ngmix/priors/multivariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/multivariate.py b/ngmix/priors/multivariate.py
index 755eea7..276fddd 100644
--- a/ngmix/priors/multivariate.py
+++ b/ngmix/priors/multivariate.py
@@ -74,7 +74,7 @@ class CenPrior(PriorBase):
         """
         probability at the specified point
         """
-        from math import exp
+        from numpy import exp
 
         d1 = self.cen1 - x1
         d2 = self.cen2 - x2
-- 
2.43.0


From af0825603b76c0ccf0b50ac00f3000285eff61cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 19/31] fix: TruncatedGaussian array evaluation includes the
 ends of the range

---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 1e25393..db9457e 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -1105,7 +1105,7 @@ class TruncatedGaussian(PriorBase):
         """
         lnp = np.zeros(val.size)
         lnp -= np.inf
-        (w,) = np.where((val > self.minval) & (val < self.maxval))
+        (w,) = np.where((val >= self.minval) & (val <= self.maxval))
         if w.size > 0:
             diff = val[w] - self.mean
             lnp[w] = -0.5 * diff * diff * self.ivar
-- 
2.43.0


From 68178d9c4b3638cf5d5a01e0ba6093ca398caf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 20/31] fix: bounds of PriorCoellipSame are one pair per
 parameter

---
 ngmix/joint_prior.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 69c478a..05c5aa5 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -900,16 +900,13 @@ class PriorCoellipSame(PriorSimpleSep):
 
         some_have_bounds = False
 
-        allp = [self.T_prior]*ngauss + self.F_priors
-
+        allp = [self.T_prior]*ngauss + self.F_priors*ngauss
         for i, p in enumerate(allp):
             if p.has_bounds():
                 some_have_bounds = True
-                pbounds = [(p.bounds[0], p.bounds[1])]
+                bounds.append((p.bounds[0], p.bounds[1]))
             else:
-                pbounds = [(None, None)]
-
-            bounds += [pbounds] * self.ngauss
+                bounds.append((None, None))
 
         if not some_have_bounds:
             bounds = None
-- 
2.43.0


From 2878be2420f3196475c1560ca3a3456dcce6c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 21/31] fix: PriorCoellipSame samples the first size once

---
 ngmix/joint_prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 05c5aa5..0939618 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -1008,16 +1008,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         cen1, cen2 = self.cen_prior.sample(nrand)
         g1, g2 = self.g_prior.sample2d(nrand)
-        T = self.T_prior.sample(nrand)
 
         samples[:, 0] = cen1
         samples[:, 1] = cen2
         samples[:, 2] = g1
         samples[:, 3] = g2
-        samples[:, 4] = T
 
         for i in range(ngauss):
-            samples[:, 4+i] += self.T_prior.sample(nrand)
+            samples[:, 4+i] = self.T_prior.sample(nrand)
 
         F_prior = self.F_priors[0]
         for i in range(ngauss):
-- 
2.43.0


From a1ff7a15c9788cfd6a2e157d214af9d3443bb9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 22/31] fix: PriorCoellipSame.get_lnprob_array uses the size
 and flux of every component

---
 ngmix/joint_prior.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 0939618..8e156be 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -940,6 +940,34 @@ class PriorCoellipSame(PriorSimpleSep):
 
         return lnp
 
+    def get_lnprob_array(self, pars):
+        """
+        log probability for array input [N,ndims]
+
+        Parameters
+        ----------
+        pars: array
+            Array of parameters values
+        """
+        if pars.shape[1] != self.npars:
+            raise ValueError(
+                'pars size %d expected %d' % (pars.shape[1], self.npars)
+            )
+
+        ngauss = self.ngauss
+
+        lnp = self.cen_prior.get_lnprob_array(pars[:, 0], pars[:, 1])
+        lnp += self.g_prior.get_lnprob_array2d(pars[:, 2], pars[:, 3])
+
+        for i in range(ngauss):
+            lnp += self.T_prior.get_lnprob_array(pars[:, 4 + i])
+
+        F_prior = self.F_priors[0]
+        for i in range(ngauss):
+            lnp += F_prior.get_lnprob_array(pars[:, 4 + ngauss + i])
+
+        return lnp
+
     def fill_fdiff(self, pars, fdiff):
         """
         set sqrt(-2ln(p)) ~ (model-data)/err
-- 
2.43.0


From ba7a697fb2c10ec345ae439d6e43180861714c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 23/31] fix: leastsqbound covariance with pivots counted from
 zero

Newer versions of scipy return ipvt counted from zero, which permuted
the parameters in the covariance matrix of a fit with bounds.
---
 ngmix/fitting/leastsqbound.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index cfee383..cc8bcf0 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -534,13 +534,15 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     if full_output:
         # convert fjac from internal params to external
         grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad,
-                             retval[1]['ipvt'] - 1)).T
+        # scipy has returned the pivots counted from one and, in newer
+        # versions, from zero
+        ipvt = retval[1]['ipvt'] - min(retval[1]['ipvt'])
+        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, ipvt)).T
         cov_x = None
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-            perm = take(eye(n), retval[1]['ipvt'] - 1, 0)
+            perm = take(eye(n), ipvt, 0)
             r = triu(transpose(retval[1]['fjac'])[:n, :])
             R = dot(r, perm)
             try:
-- 
2.43.0


From fccbf6d263c73a8efb5527caa0cf22ebae6dff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 24/31] fix: AdmomFitter does not modify the guess mixture

The kernel works in place on the mixture it is given; use a copy.
---
 ngmix/admom/admom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index 771d672..c24584d 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -361,7 +361,8 @@ class AdmomFitter(object):
 
     def _get_guess(self, obs, guess):
         if isinstance(guess, GMix):
-            guess_gmix = guess
+            # the moments are found by modifying this mixture
+            guess_gmix = guess.copy()
         else:
             Tguess = guess  # noqa
             guess_gmix = self._generate_guess(obs=obs, Tguess=Tguess)
-- 
2.43.0


From 1bdb9dfba4d868c76fc77b764fae21eabb068a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 25/31] fix: log probability of N-dimensional mixtures far from
 every component

---
 ngmix/gmix_ndim/gmix_ndim_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim_nb.py b/ngmix/gmix_ndim/gmix_ndim_nb.py
index 0a2bd31..e6dfbf8 100644
--- a/ngmix/gmix_ndim/gmix_ndim_nb.py
+++ b/ngmix/gmix_ndim/gmix_ndim_nb.py
@@ -33,7 +33,7 @@ def gmixnd_get_prob(log_pnorms,
 
     n_dim = means.shape[1]
     n_gauss = log_pnorms.size
-    lnpmax = -9.99e9
+    lnpmax = -1.0e308
 
     for i in range(n_gauss):
 
-- 
2.43.0


From db9d73bd5466cf5fc8f56ee413ee9312402a7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 26/31] fix: number of prior residuals of simple models

---
 ngmix/fitting/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index d6642b2..7f1bec4 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -832,8 +832,8 @@ def get_lm_n_prior_pars(model, nband):
         # center1 + center2 + shape + T + fracdev + fluxes
         npp = 1 + 1 + 1 + 1 + 1 + nband
     elif model in ['exp', 'dev', 'gauss', 'turb']:
-        # simple models
-        npp = 1 + 1 + 1 + 1 + 1 + nband
+        # center1 + center2 + shape + T + fluxes
+        npp = 1 + 1 + 1 + 1 + nband
     else:
         raise ValueError('bad model: %s' % model)
 
-- 
2.43.0


From cbe86b3193f2ed37771e81f2217934f3f728c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 27/31] fix: slot of the bulge fraction in guesses for
 bulge+disk

---
 ngmix/guessers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 90d1d98..ab3c9f1 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -472,7 +472,7 @@ class BDGuesser(object):
         guess[:, 4] = self.T * (1.0 + r)
 
         # fracdev prior
-        guess[:, 5] = rng.uniform(low=0.4, high=0.6, size=nrand)
+        guess[:, 6] = rng.uniform(low=0.4, high=0.6, size=nrand)
 
         for band in range(nband):
             r = rng.uniform(low=-0.1, high=0.1, size=nrand)
-- 
2.43.0


From 7f45b05098164992e9b6882573741a5e74c3382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 28/31] fix: psf fluxes of another observation used for guesses

---
 ngmix/guessers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index ab3c9f1..ad7f1c0 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -93,15 +93,16 @@ class TPSFFluxGuesser(object):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
 
     def _get_psf_fluxes(self, obs):
-        oid = id(obs)
-        if oid != self._id_last:
-            self._id_last = oid
+        # hold on to the object, an id can be used again when it is gone
+        if self._psf_fluxes is None or obs is not self._obs_last:
+            self._psf_fluxes = None
             fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
             self._psf_fluxes = fdict['flux']
+            self._obs_last = obs
         return self._psf_fluxes
 
     def __call__(self, obs, nrand=1):
@@ -162,7 +163,7 @@ class TPSFFluxAndPriorGuesser(TPSFFluxGuesser):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
 
     def __call__(self, obs, nrand=1):
@@ -337,7 +338,7 @@ class BDFPSFFluxGuesser(TPSFFluxGuesser):
     def __init__(self, T, prior):
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
         self.rng = self.prior.cen_prior.rng
 
-- 
2.43.0


From aa870677e6d0393430b5b77aeddfa6cc2a38c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 29/31] fix: guesses for small pixels with covariances that are
 not positive

---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index ad7f1c0..ad95baf 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -929,21 +929,21 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em3_fguess[0] * sigma2,
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em3_fguess[1] * sigma2,
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em3_fguess[2] * sigma2,
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -959,28 +959,28 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em4_fguess[0] * sigma2,
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em4_fguess[1] * sigma2,
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em4_fguess[2] * sigma2,
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em4_fguess[2] * sigma2,
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -996,35 +996,35 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em5_fguess[0] * sigma2,
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em5_fguess[1] * sigma2,
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em5_fguess[2] * sigma2,
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em5_fguess[2] * sigma2,
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.01, high=0.01) * _em5_fguess[2] * sigma2,
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
-- 
2.43.0


From 712cddf28fc1e81dc9be0e6a2f2f245fe98ff047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 30/31] fix: keep dilated and drawn metacal psfs under
 different cache keys

A psf that could not be drawn left the dilated object under the key of
the drawn psf, and the next request for the same shear failed unpacking it.
---
 ngmix/metacal/metacal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index dbf3a3d..99bd0f3 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -305,7 +305,8 @@ class MetacalDilatePSF(object):
         return psf_grown
 
     def _do_dilate(self, psf, shear, doshear=False):
-        key = self._get_psf_key(shear, doshear)
+        # the cache also holds the drawn psfs under the plain keys
+        key = 'dilated-%s' % self._get_psf_key(shear, doshear)
         if key not in self._psf_cache:
             self._psf_cache[key] = _do_dilate(psf, shear)
 
-- 
2.43.0


From 42a4042bc7c6195b1faf9acb3565de2b5f3a4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 31/31] fix: Gaussian aperture fluxes of the bd model

bd has 8 parameters for one band, 6 was used for the number of bands and
the parameters of a band.
---
 ngmix/gaussap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 546f05e..30305d6 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -155,6 +155,8 @@ def _get_band_pars(pars, model, index, band):
 def _get_nband(pars, model):
     if model == 'bdf':
         nband = len(pars[0])-7+1
+    elif model == 'bd':
+        nband = len(pars[0])-8+1
     else:
         nband = len(pars[0])-6+1
 
@@ -164,6 +166,8 @@ def _get_nband(pars, model):
 def _get_band_npars(model):
     if model == 'bdf':
         nband = 7
+    elif model == 'bd':
+        nband = 8
     else:
         nband = 6
 
-- 
2.43.0

