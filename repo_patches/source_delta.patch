From fd7e3cb82d6455de6981f0f240889b0640b2f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 01/39] fix: radial_profile crashed on every call (np.int was
 removed from numpy)

This also made ApotomeMicroscope.PSF and .OTF unusable.
---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..5a5e0b5 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From fb6b7b40a3f4e6fa8a36aa08ca7c00efae30a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 02/39] fix: radial_profile's standard deviation was wrong for
 integer data and NaN for flat data

Squares overflowed in the data's own integer type, and round off made the
variance of constant rings slightly negative.
---
 pyotf/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 5a5e0b5..97710a6 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -400,7 +400,8 @@ def radial_profile(data, center=None, binsize=1.0):
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-    tbin2 = np.bincount(r.ravel(), (data ** 2).ravel())
+    # (in floating point, small integer types would overflow)
+    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())
     # find how many equal r's there are
     nr = np.bincount(r.ravel())
     # calculate the radial mean
@@ -408,6 +409,7 @@ def radial_profile(data, center=None, binsize=1.0):
     # have NaN for binsize != 1
     radial_mean = tbin / nr
     # calculate the radial std
-    radial_std = np.sqrt(tbin2 / nr - radial_mean ** 2)
+    # NOTE: np.maximum keeps the NaNs and removes negative round off
+    radial_std = np.sqrt(np.maximum(tbin2 / nr - radial_mean ** 2, 0))
     # return them
     return radial_mean, radial_std
-- 
2.43.0


From 08d6f935c7718b5dea5a8eab8c343916cde561eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 03/39] fix: easy_ifft was not the inverse of easy_fft along
 odd axes

The two shifts were swapped, which is only harmless for even sizes: SheppardPSF
was off centre by one pixel and Wiener filtered SIM PSFs were modulated.
---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 97710a6..83aa934 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From c7fe6bc2d899f8fb2b9f38b2a33956e67119ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 04/39] fix: HanserPSF's default z range was off centre by one
 plane for odd zsize

The focal plane has to be plane zsize // 2, as in x and y, as in SheppardPSF
and as for center_data; with zsize=1 the only plane was out of focus.
---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..43f94fa 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -289,7 +289,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From 5cf6e888c1c30dc77aff13863978e6981f7c3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 05/39] fix: SIM excitation patterns were off centre from the
 PSF by one pixel for odd sizes

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..e92f892 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -320,11 +320,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         """
         # centered coordinate system.
         x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
+            np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
         z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
+            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
 
         # open grid
-- 
2.43.0


From b72871e6e2fe4a3fb7939fbbed594beccf4e56dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 06/39] fix: SIM microscopes rejected integer excitation NA and
 wavelength

E.g. wl=525 with wl_exc=None raised a TypeError although wl accepts integers.
---
 pyotf/microscope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index e92f892..23e5359 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -264,8 +264,10 @@ class ApotomeMicroscope(WidefieldMicroscope):
 class BaseSIMMicroscope(WidefieldMicroscope):
     """A base class for SIM and SIM like microscopes."""
 
-    na_exc = NumericProperty(attr="_na_exc", vartype=float, doc="The excitation NA")
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    na_exc = NumericProperty(attr="_na_exc", vartype=(float, int), doc="The excitation NA")
+    wl_exc = NumericProperty(
+        attr="_wl_exc", vartype=(float, int), doc="The excitation wavelength"
+    )
     coherent = NumericProperty(
         attr="_coherent", vartype=bool, doc="Treat the orientations coherently?"
     )
-- 
2.43.0


From e2184eb45522ac5a57e674eb93b5733a083b642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 07/39] fix: SIM microscopes could not be built with the
 documented wiener=None

---
 pyotf/microscope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 23e5359..6a7bd36 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -301,7 +301,7 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
+        if self.wiener is not None and self.wiener < 0:
             raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
-- 
2.43.0


From 06434c4a80eeef92c7ca1cc4b69afd1d53c12774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/39] fix: changing a SIM microscope's wiener or orientations
 left a stale PSF and OTF

Unlike every other SIM parameter they didn't invalidate the cached results.
---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 6a7bd36..ff3c11f 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -301,8 +301,6 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener is not None and self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
 
     def __repr__(self):
         """Represent a SIM microscope."""
@@ -313,6 +311,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
             + f"orientations={self.orientations!r})"
         )
 
+    @property
+    def orientations(self):
+        """Orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = value
+        self._attribute_changed()
+
+    @property
+    def wiener(self):
+        """Wiener parameter, None means no deconvolution."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"self.wiener is {value:} which should be greater than zero")
+        self._wiener = value
+        self._attribute_changed()
+
     @property
     def model_psf(self):
         """Oversampled SIM PSF.
-- 
2.43.0


From dec7f0f4a89e04c439e623bf77e7d65f502fbe87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 09/39] fix: ConfocalMicroscope.wl_exc couldn't be read and
 setting it had no effect

---
 pyotf/microscope.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index ff3c11f..740f2a2 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,15 +191,23 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
-
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
         self.pinhole_size = pinhole_size
 
         # make the emission PSF
         self.model_exc = copy.deepcopy(self.model)
-        self.model_exc.wl = wl_exc
+        self.wl_exc = wl_exc
+
+    @property
+    def wl_exc(self):
+        """Excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a confocal microscope."""
-- 
2.43.0


From 9002030173c2dd828f0e5d0df4c7aa5840da5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 10/39] fix: prep_data_for_PR didn't clip cropped data, cropped
 off centre or not to size

When cropping, the result wasn't clipped at zero, was off centre by a pixel for
odd sizes and wasn't square if xysize was between the y and x sizes.
---
 pyotf/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 83aa934..25c58aa 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -288,8 +288,10 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
         # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
+        crop_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        # one of the dimensions could still be too small
+        pad_data = fft_pad(crop_data, (nz, xysize, xysize), mode="constant")
     # return centered data
     return np.fmax(0, pad_data)
 
-- 
2.43.0


From 5d676740e8931a234caf7e378a5f893559588ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 11/39] fix: psf_plot and otf_plot showed the YZ data in the XZ
 panel and vice versa

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From a7ed5ca08685226ecf8782a8c7b47bc7cf855093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 12/39] fix: fit_to_zernikes(1) raised an IndexError

---
 pyotf/phaseretrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..a2cb46f 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -194,6 +194,8 @@ class PhaseRetrievalResult(object):
         r = r / (self.na / self.wl)
         # generate zernikes
         zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        # a single mode is returned without the leading dimension
+        zerns = zerns.reshape((num_zerns,) + r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From 74ec965a6ff8c6b322ffb03b8770f8311331c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 13/39] fix: degrees2noll returned the index of another mode
 when |m| > n

E.g. degrees2noll(1, 3) was 5, which is (2, -2), and degrees2noll(0, -2) was 120.
---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..949daa0 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -193,6 +193,8 @@ def degrees2noll(n, m):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if not (n >= abs(m)).all():
+        raise ValueError("n must always be greater or equal to m")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From b0b0fe78c34eed2d137fb419aa527e9a579c25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 14/39] fix: HanserPSF shared its zrange with the caller and
 reshaped the caller's 0-d array

Later changes to the caller's array changed the model without invalidating its
cached results.
---
 pyotf/otf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 43f94fa..f08d797 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -319,11 +319,9 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
-        # check if passed value is scalar
-        if not self._zrange.shape:
-            # convert to array for later multiplications
-            self._zrange.shape = (1,)
+        # copy so that we never share data with the caller, convert scalars
+        # to an array for later multiplications
+        self._zrange = np.array(value, ndmin=1)
         self._attribute_changed()
 
     def _gen_kr(self):
-- 
2.43.0


From 57cb37e0665271f9926555856fdba2f16151696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 15/39] fix: retrieve_phase overwrote entries of the caller's
 params

Reusing the dictionary to build a model silently gave another condition and
vec_corr than the ones it was made with.
---
 pyotf/phaseretrieval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index a2cb46f..e0ea5cb 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -71,8 +71,9 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
     assert data.shape[1] == data.shape[2], "Data is not square in x/y"
     assert data.ndim == 3, "Data doesn't have enough dims"
     # make sure the user hasn't screwed up the params
-    params.update(
-        dict(vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1])
+    # (the user's dictionary is left as is)
+    params = dict(
+        params, vec_corr="none", condition="none", zsize=data.shape[0], size=data.shape[-1]
     )
     # assume that data prep has been handled outside function
     # The field magnitude is the square root of the intensity
-- 
2.43.0


From 81f3d9bf01866a9c996e15226cd7ee65b6c796b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 16/39] fix: non-positive and NaN values of res were accepted,
 unlike zres

---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index f08d797..d44ee34 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -150,6 +150,8 @@ class BasePSF(object):
         # any wrapping effects. However, allowing the number
         # to be the Abbe limit can allow phase retrieval for
         # larger pixels
+        if not value > 0:
+            raise ValueError("res must be positive")
         abbe_limit = 1 / (2 * self.na / self.wl)
         if value >= abbe_limit:
             raise ValueError(
-- 
2.43.0


From e6ea3020cd5f24b75142e974540fddc8f3b9a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 17/39] fix: a microscope's repr showed the oversampled size
 and unquoted strings

---
 pyotf/microscope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 740f2a2..9bfe7fa 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -81,7 +81,9 @@ class WidefieldMicroscope(object):
         """Return representation of a microscope object."""
         psf_kwargs = self.psf_params.copy()
         psf_kwargs.pop("res", None)
-        psf_kwargs_str = ", ".join(f"{k}={v}" for k, v in psf_kwargs.items())
+        # report the size of the microscope, not the one of the oversampled model
+        psf_kwargs["size"] //= self.oversample_factor
+        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
-- 
2.43.0


From 2acb8c62687a9d3fd40a5bc2fc0beaa22aa05fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 18/39] fix: microscope plots used the lateral pixel size along
 z when zres was given

---
 pyotf/microscope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 9bfe7fa..6b9cf86 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -140,13 +140,13 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / self.psf_params["zres"]
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=self.psf_params["zres"], res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -166,7 +166,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.psf_params["zres"],
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From 8dd159c1c64f19b6d8348e0043db60341305e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 19/39] fix: SheppardPSF with dual=True was NaN with any
 vectorial correction

The apodization and the vectorial components used the signed direction cosine,
which is negative for the opposing objective.
---
 pyotf/otf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d44ee34..4b5ed4e 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -535,6 +535,8 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # the opposing objective (s < 0, dual only) is the mirror image of the first
+        s, sign = abs(s), np.sign(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
@@ -548,8 +550,8 @@ class SheppardPSF(BasePSF):
         if self.vec_corr != "none":
             plist = []
             if self.vec_corr == "z" or self.vec_corr == "total":
-                plist.append(-m)  # Pzx
-                plist.append(-n)  # Pzy
+                plist.append(-m * sign)  # Pzx
+                plist.append(-n * sign)  # Pzy
             if self.vec_corr == "y" or self.vec_corr == "total":
                 plist.append(-n * m / (1 + s))  # Pyx
                 plist.append(1 - n ** 2 / (1 + s))  # Pyy
-- 
2.43.0


From fb16dda360e99e2110ab04e782db8af74840d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 20/39] fix: Zernike polynomials with odd m had the wrong sign

The radial polynomials are 1 at r = 1 (Wikipedia, Noll), but those of odd m
were -1: R = (-1)^((n - m) / 2) r^m P_((n - m) / 2)^(m, 0)(1 - 2 r^2).
A positive "tip" tilted the pupil the other way, for example.
---
 pyotf/zernike.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 949daa0..83273bb 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -294,10 +294,9 @@ def _radial_zernike(r, n, m):
     # for the radial part m is always positive
     m = abs(m)
     # calculate the coefs
-    coef1 = (n + m) // 2
     coef2 = (n - m) // 2
     jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)
-    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
+    rad_zern[valid_points] = (-1) ** coef2 * rprime ** m * jacobi
     return rad_zern
 
 
-- 
2.43.0


From d7dba22f980ba4540e252336e848c70f727f472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 21/39] fix: degrees2noll was wrong for 8 bit integers
 (overflow at n = 10)

---
 pyotf/zernike.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 83273bb..3c23b41 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -196,7 +196,8 @@ def degrees2noll(n, m):
     if not (n >= abs(m)).all():
         raise ValueError("n must always be greater or equal to m")
     # do the mapping
-    p = (m + n * (n + 2)) / 2
+    # (8 bit integers would overflow)
+    p = (m + n.astype(int) * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
     return noll
 
-- 
2.43.0


From c9cd0fce922d816c25d6a25e23543eb2ca65f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 22/39] fix: remove_bg wrapped around for unsigned data and an
 integer multiplier

---
 pyotf/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 25c58aa..0ae1af1 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -247,7 +247,8 @@ def remove_bg(data, multiplier=1.5):
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
     mode = np.bincount(data.ravel()).argmax()
-    return data - multiplier * mode
+    # (a float, so that unsigned integers don't wrap around)
+    return data - float(multiplier) * mode
 
 
 def psqrt(data):
-- 
2.43.0


From 4cce0ce17f62d145afec49b467a16bc618fe36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 23/39] fix: phase unwrapping was led astray by the undefined
 phase outside of the pupil

---
 pyotf/phaseretrieval.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index e0ea5cb..96eeff6 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -143,8 +143,9 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
 
     # shift mask
     mask = fftshift(mask)
-    # shift phase then unwrap and mask
-    phase = unwrap_phase(fftshift(np.angle(new_pupil))) * mask
+    # shift phase then unwrap (only inside of the pupil, outside it's undefined) and mask
+    phase = np.ma.array(fftshift(np.angle(new_pupil)), mask=(mask == 0))
+    phase = unwrap_phase(phase).filled(0)
     # shift magnitude
     magnitude = fftshift(abs(new_pupil)) * mask
     return PhaseRetrievalResult(magnitude, phase, mse, pupil_diff, mse_diff, model)
-- 
2.43.0


From 1c696f0b9dd59653ee01da0dc7b0dc0dea15dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 24/39] fix: PSF plots ignored the step of an explicit zrange,
 and uneven steps if they were small numbers

---
 pyotf/otf.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 4b5ed4e..413fd13 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -214,36 +214,39 @@ class BasePSF(object):
         return easy_fft(self.PSFi)
 
     def _validate_zrange(self):
-        """Check zrange for uniform step size."""
+        """Check zrange for uniform step size, and return it."""
         try:
             # make sure there's only one size of z-step and that there's more than one
             zsteps = np.diff(self.zrange)
-            if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean()):
-                raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
         except AttributeError:
-            pass
+            return self.zres
+        # the steps can be small numbers (e.g. in meters), so only compare them to one another
+        if len(zsteps) < 2 or not np.allclose(zsteps, zsteps.mean(), atol=0):
+            raise RuntimeError(f"{self} doesn't have uniform z-steps ---> {zsteps}")
+        # zrange may have been set without regard to zres
+        return abs(zsteps.mean()) or self.zres
 
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        zres = self._validate_zrange()
         # smart cropping
         # nice lateral extent
         lateral_extent = self.wl / 2 / self.na / self.res * 32
-        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / self.zres * 16
+        axial_extent = self.wl / (self.ni - np.sqrt(self.ni ** 2 - self.na ** 2)) / zres * 16
 
         max_loc = np.unravel_index(self.PSFi.argmax(), self.PSFi.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSFi[crop], zres=self.zres, res=self.res, **kwargs)
+        return psf_plot(self.PSFi[crop], zres=zres, res=self.res, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
         
         See `pyotf.display.otf_plot` for details and possible kwargs
         """
-        self._validate_zrange()
+        zres = self._validate_zrange()
 
         # normalize OTF and make sure it's real
         otf = abs(self.OTFi)
@@ -254,7 +257,7 @@ class BasePSF(object):
         dkwargs.update(kwargs)
 
         return otf_plot(
-            otf, na=self.na, ni=self.ni, wl=self.wl, zres=self.zres, res=self.res, **dkwargs,
+            otf, na=self.na, ni=self.ni, wl=self.wl, zres=zres, res=self.res, **dkwargs,
         )
 
 
-- 
2.43.0


From ebf82b0c49b870b23d1333fce0872e734dbeb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 25/39] fix: plot_named_coefs raised an error with less than 15
 coefficients

---
 pyotf/phaseretrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 96eeff6..2f4990f 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -297,6 +297,8 @@ class ZernikeDecomposition(object):
         fig, ax = plt.subplots(1, 1, sharex=True, figsize=(6, 6))
         # get the ordered names
         ordered_names = [noll2name[i + 1].title() for i in range(len(noll2name))]
+        # (there may be fewer coefficients than names)
+        ordered_names = ordered_names[: len(self.pcoefs)]
         # make an x range for the bar plot
         x = np.arange(len(ordered_names)) + 1
         # pull the data
-- 
2.43.0


From bcc393f4adf4dd02f2d0c929512328fb72165523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 26/39] fix: keep a copy of the orientations of a SIM
 microscope

The caller's own list was kept: changing it later changed the reported
orientations but not the PSF and OTF that had been calculated already.
---
 pyotf/microscope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 6b9cf86..7cd2a81 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -328,7 +328,8 @@ class BaseSIMMicroscope(WidefieldMicroscope):
 
     @orientations.setter
     def orientations(self, value):
-        self._orientations = value
+        # keep a copy: changing the caller's sequence later must not change the settings
+        self._orientations = copy.copy(value)
         self._attribute_changed()
 
     @property
-- 
2.43.0


From f9c96228569eb37ea9b606773ea1df6debefad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 27/39] fix: keep a copy of the parameters of a microscope's
 model

The caller's own zrange was kept: changing it later changed what the
microscope reports about itself, but not its model.
---
 pyotf/microscope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 7cd2a81..f4e2fdc 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -60,7 +60,8 @@ class WidefieldMicroscope(object):
         self.oversample_factor = oversample_factor
 
         self.psf_params = dict(na=na, ni=ni, wl=wl, zres=pixel_size, zsize=size)
-        self.psf_params.update(kwargs)
+        # keep copies of the planes: the caller may change the sequence later
+        self.psf_params.update(copy.deepcopy(kwargs))
 
         assert self.oversample_factor % 2 == 1, "oversample_factor must be odd"
 
-- 
2.43.0


From d19133cb4e110556c8c9832d30b5648dbb270f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 28/39] fix: psqrt of 8 and 16 bit integers was in half and
 single precision

So phase retrieval from such images directly started from rounded magnitudes.
---
 pyotf/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 0ae1af1..3d8db31 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -253,6 +253,9 @@ def remove_bg(data, multiplier=1.5):
 
 def psqrt(data):
     """Take the positive square root, negative values will be set to zero."""
+    if np.issubdtype(np.asarray(data).dtype, np.integer):
+        # the root of small integers (8 or 16 bit images) would be half or single precision
+        data = np.asarray(data, dtype=float)
     return np.sqrt(np.fmax(0, data))
 
 
-- 
2.43.0


From 329928d94efdca0b1b6641da86b578feb135c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 29/39] fix: cart2pol of 8 and 16 bit integers was in half and
 single precision

---
 pyotf/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 3d8db31..4db0e89 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -166,6 +166,8 @@ def easy_ifft(data, axes=None):
 
 def cart2pol(y, x):
     """Convert from cartesian to polar coordinates."""
+    # (small integers would give half or single precision)
+    y, x = [a if np.issubdtype(a.dtype, np.inexact) else a.astype(float) for a in map(np.asarray, (y, x))]
     theta = np.arctan2(y, x)
     rho = np.hypot(y, x)
     return rho, theta
-- 
2.43.0


From d4b8c87f927c64aefa4327e95960ca3fc96396b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 30/39] fix: plots took the wrong step from planes given as
 unsigned integers

---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 413fd13..19bf152 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -217,7 +217,8 @@ class BasePSF(object):
         """Check zrange for uniform step size, and return it."""
         try:
             # make sure there's only one size of z-step and that there's more than one
-            zsteps = np.diff(self.zrange)
+            # (in floating point, differences of unsigned integers would wrap around)
+            zsteps = np.diff(np.asarray(self.zrange, dtype=float))
         except AttributeError:
             return self.zres
         # the steps can be small numbers (e.g. in meters), so only compare them to one another
-- 
2.43.0


From 81249a7ad03dd4c2f9429a44cf444f2c84e29f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 31/39] fix: degrees2noll accepted the 8 bit azimuthal degree
 -128

---
 pyotf/zernike.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 3c23b41..0a4cfe2 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -191,13 +191,14 @@ def degrees2noll(n, m):
         raise ValueError("Radial degree is not integer, input = {n}")
     if not np.issubdtype(m.dtype, np.signedinteger):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
+    # (8 bit integers would overflow)
+    n, m = n.astype(int), m.astype(int)
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
     if not (n >= abs(m)).all():
         raise ValueError("n must always be greater or equal to m")
     # do the mapping
-    # (8 bit integers would overflow)
-    p = (m + n.astype(int) * (n + 2)) / 2
+    p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
     return noll
 
-- 
2.43.0


From fe2be9e19c5030fccd361a0e386e334f9989f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:57 +0000
Subject: [PATCH 32/39] fix: representations lost digits and planes of arrays

numpy shows arrays with eight digits, and with an ellipsis when there are more
than a thousand values, so that a model with many or deep planes couldn't be
rebuilt from its representation. Lists show everything.
---
 pyotf/microscope.py | 11 +++++++++--
 pyotf/otf.py        |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index f4e2fdc..73242de 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -84,7 +84,11 @@ class WidefieldMicroscope(object):
         psf_kwargs.pop("res", None)
         # report the size of the microscope, not the one of the oversampled model
         psf_kwargs["size"] //= self.oversample_factor
-        psf_kwargs_str = ", ".join(f"{k}={v!r}" for k, v in psf_kwargs.items())
+        # lists show all their values with all their digits, arrays may not
+        psf_kwargs_str = ", ".join(
+            f"{k}={v.tolist() if isinstance(v, np.ndarray) else v!r}"
+            for k, v in psf_kwargs.items()
+        )
         return (
             f"{self.__class__.__name__}(model='{self.model.__class__.__name__[:-3].lower()}', "
             + f"{psf_kwargs_str}, pixel_size={self.pixel_size}, "
@@ -315,11 +319,14 @@ class BaseSIMMicroscope(WidefieldMicroscope):
 
     def __repr__(self):
         """Represent a SIM microscope."""
+        orientations = self.orientations
+        if isinstance(orientations, np.ndarray):
+            orientations = orientations.tolist()
         return (
             super().__repr__()[:-1]
             + f", na_exc={self.na_exc}, wl_exc={self.wl_exc}, wiener={self.wiener}, "
             + f"coherent={self.coherent}, dc={self.dc}, dc_suppress={self.dc_suppress}, "
-            + f"orientations={self.orientations!r})"
+            + f"orientations={orientations!r})"
         )
 
     @property
diff --git a/pyotf/otf.py b/pyotf/otf.py
index 19bf152..0aac4a3 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -291,7 +291,8 @@ class HanserPSF(BasePSF):
 
     def __repr__(self):
         """Represent HanserPSF."""
-        return super().__repr__()[:-1] + f", zrange={self.zrange!r})"
+        # a list shows every plane with all its digits, an array may not
+        return super().__repr__()[:-1] + f", zrange={self.zrange.tolist()!r})"
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-- 
2.43.0


From 4a61db320d4ac97b648e357c48fe5c8eb2b0c04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:49 +0000
Subject: [PATCH 33/39] fix: SIM microscopes ignored the planes given by zrange

The PSF of the model was at these, the excitation at those of zsize and zres.
---
 pyotf/microscope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 73242de..6b0dede 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -367,6 +367,8 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         z = (
             np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
+        # the model may have been given its own planes
+        z = getattr(self.model, "zrange", z)
 
         # open grid
         zz, yy, xx = z[:, None, None], x[None, :, None], x[None, None, :]
-- 
2.43.0


From f111f2b1438f41a4c7ea96de96bb51586a48cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 34/39] fix: plots of microscopes took zres for the step of
 planes given by zrange

---
 pyotf/microscope.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 6b0dede..287d5e0 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -135,23 +135,30 @@ class WidefieldMicroscope(object):
         """Optical transfer function of the microscope."""
         return easy_fft(self.PSF)
 
+    def _plot_zres(self):
+        """Return the step size of the planes."""
+        if self.psf_params.get("zrange") is not None:
+            return self.model._validate_zrange()
+        return self.psf_params["zres"]
+
     def plot_psf(self, **kwargs):
         """Plot the intensity PSF.
         
         See `pyotf.display.psf_plot` for details and possible kwargs
         """
+        zres = self._plot_zres()
         # smart cropping
         lateral_extent = self.model.wl / 2 / self.model.na / self.pixel_size * 32
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.psf_params["zres"]
+            / zres
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.psf_params["zres"], res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=zres, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -171,7 +178,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.psf_params["zres"],
+            zres=self._plot_zres(),
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0


From 9b8faa34bfccf9c5320f2d87ca58d56d13236849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:54 +0000
Subject: [PATCH 35/39] fix: pixel sizes in k-space of SheppardPSF with one or
 two pixels along an axis

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 0aac4a3..733d60d 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -504,7 +504,7 @@ class SheppardPSF(BasePSF):
         # calculate the radius of the spherical shell in k-space
         self.kmag = kmag = self.ni / self.wl
         # determine k-space pixel size
-        dk, dkz = k[1] - k[0], kz[1] - kz[0]
+        dk, dkz = 1 / (self.size * self.res), 1 / (self.zsize * self.zres)
         # save output for user
         self.dk, self.dkz = dk, dkz
         # determine the min value for kz given the NA and wavelength
-- 
2.43.0


From e14f56239d7f1cc4a582ab1bfda99a73a8aeff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:54 +0000
Subject: [PATCH 36/39] fix: shape of the pupil retrieved from images of one
 pixel

---
 pyotf/phaseretrieval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 2f4990f..34a898d 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -118,7 +118,7 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
         # retrieve new pupil
         old_pupil = new_pupil
         # keep phase
-        phase = np.angle(model.PSFa.squeeze())
+        phase = np.angle(model.PSFa[0])
         # replace magnitude with experimentally measured mag
         new_psf = mag * np.exp(1j * phase)
         # generate the new pupils
-- 
2.43.0


From 65172e83109c06da4d00012e21653e9d2bd0f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:04 +0000
Subject: [PATCH 37/39] fix: shape of the aberrated pupil of a model of one
 pixel

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 733d60d..17d8388 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -631,7 +631,7 @@ def apply_aberration(model, mcoefs, pcoefs):
     # make zernikes (need to convert kr to r where r = 1 when kr is at
     # diffraction limit)
     r = kr * model.wl / model.na
-    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)
+    zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1).reshape((len(mcoefs),) + r.shape)
 
     pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
     pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
-- 
2.43.0


From c782aa883c2701e0fbf74b9cdceba7a171615acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:53 +0000
Subject: [PATCH 38/39] fix: changing zrange in place changed copies of the
 model, but not its results

---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 17d8388..85c07e8 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -322,7 +322,8 @@ class HanserPSF(BasePSF):
     @property
     def zrange(self):
         """Return range overwhich to calculate the psf."""
-        return self._zrange
+        # (a copy: changes of it in place would reach copies of the model, but not the results)
+        return self._zrange.copy()
 
     @zrange.setter
     def zrange(self, value):
-- 
2.43.0


From 203d4680b91f498e3fdc266bf2cab1d994b8fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:53 +0000
Subject: [PATCH 39/39] fix: aberrated models shared arrays with the original

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 85c07e8..4a58744 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -611,7 +611,7 @@ def apply_aberration(model, mcoefs, pcoefs):
     # sanity checks
     assert isinstance(model, HanserPSF), "Model must be a HanserPSF"
 
-    model = copy.copy(model)
+    model = copy.deepcopy(model)
 
     if mcoefs is None and pcoefs is None:
         logger.warning("No abberation applied")
-- 
2.43.0

