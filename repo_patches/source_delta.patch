From ad4ba5ad61d910a71ab86cc4f3d4385644374ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 01/21] fix: tpnorm keeps the nadir (theta=pi) and does not
 write into its argument

---
 raytools/translate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 4acecee..2207c8b 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -231,8 +231,11 @@ def xyz2xy(xyz, axes=(0, 1, 2), flip=False):
 
 def tpnorm(thetaphi):
     """normalize angular vector to 0-pi, 0-2pi"""
-    thetaphi = np.atleast_2d(thetaphi)
-    thetaphi[:, 0] = np.mod(thetaphi[:, 0] + np.pi, np.pi)
+    thetaphi = np.array(np.atleast_2d(thetaphi), dtype=float)
+    theta = thetaphi[:, 0]
+    # both poles (0 and pi) are valid and must not wrap onto each other
+    thetaphi[:, 0] = np.where((theta < 0) | (theta > np.pi),
+                              np.mod(theta + np.pi, np.pi), theta)
     thetaphi[:, 1] = np.mod(thetaphi[:, 1] + 2*np.pi, 2*np.pi)
     return thetaphi
 
-- 
2.43.0


From 827e51b354ef1044b1b3096e9e2dc3b0fa58fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 02/21] fix: non_uniform_gaussian_filter returns results in the
 order of unsorted x

---
 raytools/translate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 2207c8b..53e116f 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -561,8 +561,8 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
         idxs = xr
     amu = np.apply_along_axis(nugf, 0, np.reshape(idxs, (1, -1)), x, y, sigma)
     # sort back unless already sorted or resampled
-    if inv_sort is not None and resample is None:
-        amu = amu[inv_sort]
+    if inv_sort is not None and xr is None:
+        amu = amu[..., inv_sort]
     return amu
 
 
-- 
2.43.0


From de9ef791785f54228a139b322f3fc5e86d7563e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 03/21] fix: linear fallback of non_uniform_gaussian_filter for
 more than one feature

---
 raytools/translate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index 53e116f..c9bb616 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -513,7 +513,7 @@ def non_uniform_gaussian_filter(x, y, xr=None, sigma=None, sscale=1.0,
                 mu = yp[:, 0]
             else:
                 mu = np.average((yp[:, mui], yp[:, mui-1]), axis=0,
-                                weights=(x0-xp[mui-1], xp[mui]-x0))
+                                weights=np.ravel((x0-xp[mui-1], xp[mui]-x0)))
             if 'q' in akwargs:
                 mu = np.full(len(akwargs['q']), mu)
         return mu
-- 
2.43.0


From e5aaf0e4e1765eea74ca23f330a70d789141271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:28 +0000
Subject: [PATCH 04/21] fix: vxy2xyz of the mappers does not write into its
 argument

---
 raytools/mapper/angularmixin.py | 3 +--
 raytools/mapper/mapper.py       | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index de6c559..2cd86f8 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -68,8 +68,7 @@ class AngularMixin(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
-        pxy = np.atleast_2d(xy)
-        pxy -= .5
+        pxy = np.atleast_2d(xy) - .5
         pxy *= (np.array([self._xsign, 1]) *
                 (self.viewangle * self._chordfactor) / 180)
         d = np.sqrt(np.sum(np.square(pxy), -1))
diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index fecf9e0..bfbd8f6 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -132,6 +132,7 @@ class Mapper(object):
 
     def vxy2xyz(self, xy, stackorigin=False):
         """transform from view image space (2d) to world xyz"""
+        xy = np.array(xy)
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-- 
2.43.0


From 4067e0fa5fbaf3d059799ad372c46888846d8ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 05/21] fix: each stray source at the view edge keeps its own
 corrected solid angle

---
 raytools/evaluate/basemetricset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index bbda4a9..517d799 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -97,7 +97,7 @@ class BaseMetricSet(object):
                         x = (a2 - b2 + np.square(d)) / (2 * d)
                         x2 = np.square(x)
                         y = np.sqrt(a2 - x2)
-                        omega[stray] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
+                        omega[s] = (a2*np.arcsin(y/a) + b2*np.arcsin(y/b) -
                                         y * (x + np.sqrt(b2 - a2 + x2)))
                         up = np.cross(vst, self.vm.dxyz)
                         r = d - x
-- 
2.43.0


From e4752438f84613599b0c5d6f40a5fda65d498f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 06/21] fix: BaseMetricSet does not overwrite the caller's
 solid angles

---
 raytools/evaluate/basemetricset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/raytools/evaluate/basemetricset.py b/raytools/evaluate/basemetricset.py
index 517d799..4264d6c 100644
--- a/raytools/evaluate/basemetricset.py
+++ b/raytools/evaluate/basemetricset.py
@@ -85,6 +85,7 @@ class BaseMetricSet(object):
             else:
                 stray = []
             if len(stray) > 0:
+                omega = np.array(omega, dtype=float)
                 ost = np.atleast_1d(omega[stray])
                 vsts = v[stray].reshape(-1, 3)
                 ds = self.vm.radians(vsts)
-- 
2.43.0


From e23b1524375ffd515052a35c3f0c693eb1c09504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 07/21] fix: array_rotate interpolates on pixel centers, as
 pixelrays and transform_to do

---
 raytools/imagetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 65afb52..1c748e2 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -120,7 +120,7 @@ def array_rotate(imarray, ang, center=None, rotate_first=True, fill_value=None,
             pxyz = vm2.view2world(vm.world2view(pxyz))
 
     pxy = vm.ray2pixel(pxyz, res, integer=False)
-    x = np.arange(res)
+    x = np.arange(res) + .5
     if nearest:
         method = "nearest"
     else:
-- 
2.43.0


From 986b58ae21f43176d2f44c19d36723133159142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 08/21] fix: rgbe2lum accepts unsigned 8-bit data without
 wrapping the exponent

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index e5f3292..f36b6fa 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -349,7 +349,7 @@ def rgbe2lum(rgbe):
     -------
     lum: luminance in cd/m^2
     """
-    v = np.power(2., rgbe[:, 3] - 128).reshape(-1, 1) / 256
+    v = np.power(2., rgbe[:, 3].astype(float) - 128).reshape(-1, 1) / 256
     rgb = np.where(rgbe[:, 0:3] == 0, 0, (rgbe[:, 0:3] + 0.5) * v)
     # luminance = 179 * (0.265*R + 0.670*G + 0.065*B)
     return rgb2lum(rgb)
-- 
2.43.0


From bbe6b4d39e204b7df2d56983f7dd5cddade9bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:28 +0000
Subject: [PATCH 09/21] fix: is_hdr compares bytes with bytes

---
 raytools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/io.py b/raytools/io.py
index f36b6fa..97f4ea6 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -296,7 +296,7 @@ def clean_header(header):
 
 
 def is_hdr(imgf):
-    f = open(imgf)
+    f = open(imgf, 'rb')
     ishdr = f.read(10) == b'#?RADIANCE'
     f.close()
     return ishdr
-- 
2.43.0


From 2393e8509a788090c3823f586716490357f50bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 10/21] fix: color metrics of images without a LUMINANCE
 channel weighting in the header

---
 raytools/imagetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 1c748e2..9add31e 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -473,6 +473,8 @@ def imgmetric(imgf, metrics, peakn=False, scale=179, lumrgb=None, threshold=2000
     if peakn:
         v, o, l = normalize_peak(v, o, l, scale, **peakwargs)
     if needscolor:
+        if lumrgb is None:
+            lumrgb = (0.265, 0.670, 0.065)
         return ColorMetricSet(v, o, l, vm, metrics, scale=scale,
                               threshold=threshold, lowlight=lowlight,
                               vlambda=lumrgb)()
-- 
2.43.0


From daa04cd7f447627272eef3091513ddb49ce5e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 11/21] fix: xyz2aa returns azimuth in the documented (-180,
 180) range

---
 raytools/translate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index c9bb616..ad06b49 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -276,7 +276,10 @@ def xyz2aa(xyz):
     xyz = np.atleast_2d(xyz)
     tp = xyz2tp(xyz)
     tp[:, 1] -= np.pi
-    return (np.pi/2 - tp)/(np.pi/180)
+    aa = (np.pi/2 - tp)/(np.pi/180)
+    # phi is in 0-2pi, keep azimuth in (-180, 180)
+    aa[:, 1] = np.where(aa[:, 1] > 180, aa[:, 1] - 360, aa[:, 1])
+    return aa
 
 
 def chord2theta(c):
-- 
2.43.0


From 4acd657bc0d9a0c124dd409a7e5bec7adef23500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 12/21] fix: changing the view of a GSS updates its geometry
 with the next image

---
 raytools/evaluate/hvsgsm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raytools/evaluate/hvsgsm.py b/raytools/evaluate/hvsgsm.py
index a7e4818..519ef34 100644
--- a/raytools/evaluate/hvsgsm.py
+++ b/raytools/evaluate/hvsgsm.py
@@ -422,6 +422,8 @@ class GSS:
             if vm is None:
                 vm = ViewMapper(viewangle=180)
         self._vm = vm
+        # view based values are no longer valid
+        self._res = 0
 
     # Step 3
     def pupil(self, ev):
-- 
2.43.0


From 01f643bc3dc735dbf58f4ad00d2a406115bc2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 13/21] fix: weighted_quantile is continuous for quantiles just
 below 1

---
 raytools/translate.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/raytools/translate.py b/raytools/translate.py
index ad06b49..827c0f7 100644
--- a/raytools/translate.py
+++ b/raytools/translate.py
@@ -439,13 +439,9 @@ def weighted_quantile(d, weights=None, q=0.5, t=0.0):
         cw = cw - cw[0]
         midp = np.asarray(q) * cw[-1]
         li = np.searchsorted(cw, midp, side='right') - 1
-        ri = np.where(np.isclose(q, 1), li, li+1)
-        try:
-            dn = np.where(np.isclose(q, 1), 1, (cw[ri] - cw[li]))
-        except IndexError as ex:
-            result = np.quantile(d, q)
-        else:
-            result = d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
+        ri = np.minimum(li + 1, len(cw) - 1)
+        dn = np.where(ri == li, 1, (cw[ri] - cw[li]))
+        result = d[li] + (d[ri] - d[li]) * (midp - cw[li])/dn
         return result
 
 
-- 
2.43.0


From 06f14079b613cb4dffb7d24627c8b85c5049074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 14/21] fix: framesize of a Mapper follows its aspect

---
 raytools/mapper/mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index bfbd8f6..44c696a 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -6,8 +6,6 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at http://mozilla.org/MPL/2.0/.
 # =======================================================================
-import functools
-
 import numpy as np
 from scipy.ndimage import uniform_filter
 
@@ -136,7 +134,6 @@ class Mapper(object):
         xy[..., 0] = 1 - xy[..., 0]
         return self.uv2xyz(xy, stackorigin=stackorigin)
 
-    @functools.lru_cache(1)
     def framesize(self, res):
         if self.aspect < 1:
             yres = res
-- 
2.43.0


From a871d0a2c60e9c324dcf5d2e40a30810606a17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 15/21] fix: jittered pixels have one offset per pixel and axis

---
 raytools/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/mapper.py b/raytools/mapper/mapper.py
index 44c696a..104a3e4 100644
--- a/raytools/mapper/mapper.py
+++ b/raytools/mapper/mapper.py
@@ -148,7 +148,7 @@ class Mapper(object):
         xres, yres = self.framesize(res)
         if jitter > 0:
             rng = ((1 - jitter)/2, (1 + jitter)/2)
-            offset = np.random.default_rng().uniform(*rng, (xres, yres)).T
+            offset = np.random.default_rng().uniform(*rng, (xres, yres, 2))
         else:
             offset = 0.5
         return np.stack(np.mgrid[0:xres, 0:yres], 2) + offset
-- 
2.43.0


From 467a3c5a585d20c817a8de47e420190f310d1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 16/21] fix: uv2idx of a ViewMapper inverts its idx2uv for two
 squares

---
 raytools/mapper/viewmapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raytools/mapper/viewmapper.py b/raytools/mapper/viewmapper.py
index 0354a0b..2d844ae 100644
--- a/raytools/mapper/viewmapper.py
+++ b/raytools/mapper/viewmapper.py
@@ -94,6 +94,11 @@ class ViewMapper(AngularMixin, Mapper):
         uv = (si.T + offset)/shape[1]
         return uv
 
+    @staticmethod
+    def uv2idx(uv, shape):
+        ij = (uv * shape[1]).astype(int)
+        return ij[:, 0] * shape[1] + ij[:, 1]
+
     def transform_to(self, imarray, other, nearest=False):
         """take an image arrray with an assumed projection of self and
         transform it to other
-- 
2.43.0


From 6de61ba89a25580dbc264d23ac0b3db94738de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:24 +0000
Subject: [PATCH 17/21] fix: header lines of written pictures keep their quotes

---
 raytools/io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/raytools/io.py b/raytools/io.py
index 97f4ea6..544e05f 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -144,8 +144,7 @@ def _array2hdr(ar, imgf, header, pval, clean=False):
     if header is not None:
         if clean:
             header = clean_header(header)
-        hdr = "' '".join(header)
-        getinfo = shlex.split(f"getinfo -a '{hdr}'")
+        getinfo = ["getinfo", "-a"] + (list(header) or [""])
         p = Popen(pval.split(), stdin=PIPE, stdout=PIPE)
         q = Popen(getinfo, stdin=p.stdout, stdout=f)
     else:
-- 
2.43.0


From a61da63ca8aab8fca83f34801ca6c8e2756106b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:45 +0000
Subject: [PATCH 18/21] fix: pictures whose paths have spaces or quotes are
 read

---
 raytools/imagetools.py |  4 ++--
 raytools/io.py         | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 9add31e..8eaa3ab 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -219,7 +219,7 @@ def vf_to_vm(view):
 
 
 def img_size(imgf):
-    hd = cst.pipeline([f"getinfo -d {imgf}"]).strip().split()
+    hd = cst.pipeline([f"getinfo -d {io._quote(imgf)}"]).strip().split()
     x = 1
     y = 1
     for i in range(2, len(hd)):
@@ -232,7 +232,7 @@ def img_size(imgf):
 
 def hdr2vm(imgf, vpt=False):
     """hdr to ViewMapper"""
-    header, err = cst.pipeline([f"getinfo {imgf}"], caperr=True)
+    header, err = cst.pipeline([f"getinfo {io._quote(imgf)}"], caperr=True)
     try:
         err = err.decode("utf-8")
     except AttributeError:
diff --git a/raytools/io.py b/raytools/io.py
index 544e05f..acae4a2 100644
--- a/raytools/io.py
+++ b/raytools/io.py
@@ -202,6 +202,11 @@ def carray2hdr(ar, imgf, header=None, clean=False):
     return _array2hdr(ar.T[::-1], imgf, header, pval, clean=clean)
 
 
+def _quote(imgf):
+    """path as a single argument of a command line ("" reads from stdin)"""
+    return shlex.quote(str(imgf)) if imgf != "" else ""
+
+
 def _hdr_in(pval, imgf, stdin):
     p = Popen(shlex.split(pval), stdin=stdin, stdout=PIPE, stderr=PIPE)
     shape = p.stdout.readline().strip().split()
@@ -237,7 +242,7 @@ def hdr2array(imgf, stdin=None, header=False, vlambda=None):
         imgd = hdr2carray(imgf, stdin)
         imgd = np.einsum("ijk,i->jk", imgd, vlambda)
     else:
-        pval = f'pvalue -b -h -df -o {imgf}'
+        pval = f'pvalue -b -h -df -o {_quote(imgf)}'
         imgd = bytes2np(*_hdr_in(pval, imgf, stdin)).T[:, ::-1]
     if header:
         return imgd, hdr_header(imgf)
@@ -257,7 +262,7 @@ def hdr2carray(imgf, stdin=None, header=False):
     -------
     ar: np.array
     """
-    pval = f'pvalue -n -h -df -o {imgf}'
+    pval = f'pvalue -n -h -df -o {_quote(imgf)}'
     data, shape = _hdr_in(pval, imgf, stdin)
     shape = (3, *shape)
     imgd = np.transpose(bytes2np(data, shape)[:, ::-1], (0, 2, 1))
@@ -302,7 +307,7 @@ def is_hdr(imgf):
 
 
 def hdr_header(imgf, clean=False, items=None):
-    p = Popen(shlex.split(f"getinfo {imgf}"), stdout=PIPE,
+    p = Popen(shlex.split(f"getinfo {_quote(imgf)}"), stdout=PIPE,
               stderr=PIPE).communicate()
     err = p[1]
     try:
-- 
2.43.0


From 1856058119959cc3f0bbe7f67d8108d33f506a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:52 +0000
Subject: [PATCH 19/21] fix: equisolid pictures are written and read with their
 own view type

---
 raytools/imagetools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/raytools/imagetools.py b/raytools/imagetools.py
index 8eaa3ab..2e4bb8e 100644
--- a/raytools/imagetools.py
+++ b/raytools/imagetools.py
@@ -158,7 +158,7 @@ def hdr_solid2ang(imgf, outf=None, nearest=False, stdout=False, reverse=False,
                   viewangle=None, **kwargs):
     imarray, header = io.hdr2carray(imgf, header=True)
     if viewangle is None:
-        vm = hdr2vm(imgf)
+        vm = hdr2vm(imgf) if reverse else hdr2vm(imgf, viewproj="vts") or hdr2vm(imgf)
         if vm is None:
             viewangle = 180
         else:
@@ -169,7 +169,7 @@ def hdr_solid2ang(imgf, outf=None, nearest=False, stdout=False, reverse=False,
     if outf is None and not stdout:
         outf = imgf.rsplit(".", 1)[0] + f"_2{vmo.name}.hdr"
 
-    header.append(vmo.header())
+    header.append(vmo.header(viewproj=vmo.name))
     io.carray2hdr(img, outf, header, clean=True)
     return outf
 
@@ -230,8 +230,8 @@ def img_size(imgf):
     return x, y
 
 
-def hdr2vm(imgf, vpt=False):
-    """hdr to ViewMapper"""
+def hdr2vm(imgf, vpt=False, viewproj="vta"):
+    """hdr to ViewMapper (viewproj: projection of the view looked for)"""
     header, err = cst.pipeline([f"getinfo {io._quote(imgf)}"], caperr=True)
     try:
         err = err.decode("utf-8")
@@ -242,10 +242,10 @@ def hdr2vm(imgf, vpt=False):
     elif "cannot open" in header:
         raise FileNotFoundError(f"{imgf} not found")
     vp = None
-    if "VIEW= -vta" in header:
-        vp = header.rsplit("VIEW= -vta", 1)[-1].splitlines()[0].split()
-    elif "rvu -vta" in header:
-        vp = header.rsplit("rvu -vta", 1)[-1].splitlines()[0].split()
+    if f"VIEW= -{viewproj}" in header:
+        vp = header.rsplit(f"VIEW= -{viewproj}", 1)[-1].splitlines()[0].split()
+    elif f"rvu -{viewproj}" in header:
+        vp = header.rsplit(f"rvu -{viewproj}", 1)[-1].splitlines()[0].split()
     if vp is not None:
         view_angle = float(vp[vp.index("-vh") + 1])
         try:
-- 
2.43.0


From 42d69ceef5826a47d33108c8d24975509a03c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:19 +0000
Subject: [PATCH 20/21] fix: each channel of irradiance has its own label in
 the table of metrics

---
 raytools/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/raytools/cli.py b/raytools/cli.py
index 9ee7c21..42ffd0d 100644
--- a/raytools/cli.py
+++ b/raytools/cli.py
@@ -142,7 +142,11 @@ def metric(ctx, imgs, metrics=None, parallel=True, peakn=False,
             results = np.hstack((results, gresult))
         else:
             results = gresult
-    print("image\t" + "\t".join(metrics))
+    labels = []
+    for m in metrics:
+        # one value (and label) per channel
+        labels += [f"{m}_{c}" for c in "rgb"] if m == "irradiance" else [m]
+    print("image\t" + "\t".join(labels))
     for img, result in zip(imgs, results):
         print(img + "\t" + "\t".join([f"{i:.06g}" for i in result]))
 
-- 
2.43.0


From dae24aadd29020acfb45a66c2eeed11e642c9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:34 +0000
Subject: [PATCH 21/21] fix: view up of the header for views straight down is
 not parallel to the view

---
 raytools/mapper/angularmixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raytools/mapper/angularmixin.py b/raytools/mapper/angularmixin.py
index 2cd86f8..14daa39 100644
--- a/raytools/mapper/angularmixin.py
+++ b/raytools/mapper/angularmixin.py
@@ -118,7 +118,7 @@ class AngularMixin(object):
             return mask
 
     def header(self, pt=(0, 0, 0), viewproj='vta', **kwargs):
-        if np.allclose(self.dxyz, (0, 0, 1)):
+        if np.allclose(np.abs(self.dxyz), (0, 0, 1)):
             vup = "0 1 0"
         else:
             vup = "0 0 1"
-- 
2.43.0

