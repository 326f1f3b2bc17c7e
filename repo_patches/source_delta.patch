From 8bd0f4e9d85b085310ebc2c7d6a1f992f6b50f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 01/63] fix: coordinates.recenter/decenter no longer modify the
 caller's center array when restore=True

---
 pixell/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/coordinates.py b/pixell/coordinates.py
index 037c5c2..d274d3a 100644
--- a/pixell/coordinates.py
+++ b/pixell/coordinates.py
@@ -301,14 +301,14 @@ def recenter(angs, center, restore=False):
 	# lon_from,lat_from,lon_to,lat_to
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra1,dec0-dec1,-ra0], angs, kind="zyz")
 
 def decenter(angs, center, restore=False):
 	"""Inverse operation of recenter."""
 	if len(center) == 4: ra0, dec0, ra1, dec1 = center
 	elif len(center) == 2: ra0, dec0, ra1, dec1 = center[0], center[1], center[0]*0, center[1]*0+np.pi/2
-	if restore: ra1 += ra0
+	if restore: ra1 = ra1 + ra0
 	return euler_rot([ra0,dec1-dec0,-ra1],  angs, kind="zyz")
 
 def nohor(sys): return sys if sys not in ["altaz","tele","bore"] else "icrs"
-- 
2.43.0


From 0bcd6f547f7da17386efad65e3aea37e4c5bd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 02/63] fix: sbox_fix works on a copy, so pixboxes passed to
 extract_pixbox, sbox_wrap etc. are not modified

---
 pixell/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index a647e0a..f794772 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1692,8 +1692,9 @@ def sbox_fix0(sbox):
 	return sbox
 
 def sbox_fix(sbox):
-	# Ensure that we have a step, setting it to 1 if missing
-	sbox = sbox_fix0(sbox)
+	# Ensure that we have a step, setting it to 1 if missing. Copy so
+	# we don't modify the caller's box
+	sbox = sbox_fix0(sbox).copy()
 	# Make sure our end point is a whole multiple of the step
 	# from the start
 	sbox[...,1] = sbox[...,0] + sbox_size(sbox)*sbox[...,2]
-- 
2.43.0


From 88c20adcb978f1faba7c1493801338f87f9a8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 03/63] fix: enmap.overlap no longer truncates the caller's
 pixbox in place

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index c3767b7..ef15633 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -734,7 +734,7 @@ def overlap(shape, wcs, shape2_or_pixbox, wcs2=None, wrap="auto"):
 	# Is it a shape or a pixbox
 	tmp = np.asarray(shape2_or_pixbox)
 	if   tmp.ndim == 1: pixbox = pixbox_of(wcs, shape2_or_pixbox, wcs2)
-	elif tmp.ndim == 2: pixbox = shape2_or_pixbox
+	elif tmp.ndim == 2: pixbox = tmp.copy()
 	else: raise ValueError("3rd argument of overlap should be an enmap, a shape tuple or a pixbox")
 	# Handle wrapping
 	nphi = utils.nint(360/np.abs(wcs.wcs.cdelt[0]))
-- 
2.43.0


From 8a0a8350ccbba2ece37df3fbda09570336b0d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 04/63] fix: spec2flat_corr no longer zeroes non-finite entries
 in the caller's spectrum

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ef15633..a6fc74a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1852,7 +1852,7 @@ def spec2flat(shape, wcs, cov, exp=1.0, border="constant", oversample=1, smooth=
 	return res
 
 def spec2flat_corr(shape, wcs, cov, exp=1.0, border="constant"):
-	cov    = np.asarray(cov)
+	cov    = np.array(cov)
 	oshape = cov.shape[:-1] + tuple(shape)[-2:]
 	if cov.ndim == 1: cov = cov[None,None]
 	if exp != 1.0: cov = multi_pow(cov, exp)
-- 
2.43.0


From 463162bc56b7b23dfb1a10baa2b4bb440e556760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 05/63] fix: regularize_beam(normalize=True) no longer rescales
 the caller's beam

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index f794772..835a4ec 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1056,7 +1056,7 @@ def regularize_beam(beam, cutoff=1e-2, nl=None, normalize=False):
 	that the ratio of any pair of such regularized beams is
 	constant in the extrapolated region."""
 	beam  = np.asarray(beam)
-	if normalize: beam /= np.max(beam)
+	if normalize: beam = beam / np.max(beam)
 	# Get the length of the output beam, and the l to which both exist
 	if nl is None: nl = beam.shape[-1]
 	nl_both = min(nl, beam.shape[-1])
-- 
2.43.0


From c6921ee4bdc83a3a9d972e9061f4b1cea6a46701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 06/63] fix: unwrap_range no longer modifies its input

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 835a4ec..c3bf91a 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1351,7 +1351,7 @@ def unwrap_range(range, nwrap=2*np.pi):
 	doesn't assume that ranges are shorter than half the
 	sky. But it still shortens ranges that are longer than
 	a whole wrapping period."""
-	range = np.asanyarray(range)
+	range = np.array(range, subok=True)
 	range[1] -= np.floor((range[1]-range[0])/nwrap)*nwrap
 	range    -= np.floor(range[1,None]/nwrap)*nwrap
 	return range
-- 
2.43.0


From 5adb4587b974cbb236ae817b4a281f14d52ce506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 07/63] fix: utils.solve(masked=True) no longer overwrites the
 right-hand side

---
 pixell/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/utils.py b/pixell/utils.py
index c3bf91a..9a6e4df 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2555,6 +2555,7 @@ def solve(A, b, axes=[-2,-1], masked=False):
 	fb = partial_flatten(b, baxes)
 	if masked:
 		mask = fA[...,0,0] != 0
+		fb = fb.copy()
 		fb[~mask] = 0
 		fb[mask]  = np.linalg.solve(fA[mask],fb[mask])
 	else:
-- 
2.43.0


From 74342b3ee875fa02e13d961d9de549eafa711a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 08/63] fix: build_src_cells(unwind=True) no longer rewinds the
 caller's source positions

---
 pixell/pointsrcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index c039927..8b19504 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -399,6 +399,7 @@ def build_src_cells(cbox, srcpos, cres, unwind=False, wrap=None):
 	if unwind:
 		# Make the sources' ra compatible with our area
 		ref     = np.mean(cbox[:,1],0)
+		srcpos  = srcpos.copy()
 		srcpos[:,...,1] = utils.rewind(srcpos[:,...,1], ref)
 	# How big must our cell hit array be?
 	nmax = max(1,np.max(build_src_cells_helper(cbox, cshape, cres, srcpos, wrap=wrap)))
-- 
2.43.0


From 73dcfbc8cf82124308ff73fdc323be7b3552eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 09/63] fix: reading a delayed fits map twice no longer returns
 byte-swapped garbage or un-flipped Stokes signs

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index a6fc74a..094bba1 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2983,7 +2983,7 @@ class ndmap_proxy_fits(ndmap_proxy):
 		if self.use_section:
 			dtype    = fix_endian(hdu.section[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
 		else:
-			dtype    = fix_endian(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]]).dtype
+			dtype    = fix_endian(hdu.data[(slice(0,1),)*hdu.header["NAXIS"]].copy()).dtype
 		self.stokes_flips = get_stokes_flips(hdu)
 		def slist(vals):
 			return ",".join([str(v) for v in vals])
@@ -3000,7 +3000,7 @@ class ndmap_proxy_fits(ndmap_proxy):
 		if (self.hdu.size > self.threshold) and self.use_section:
 			sel1, sel2 = utils.split_slice(sel, [len(self.shape)-1,1])
 			res = self.hdu.section[sel1][(Ellipsis,)+sel2]
-		else: res = self.hdu.data[sel]
+		else: res = np.array(self.hdu.data[sel])
 		# Apply stokes flips if necessary. This is a bit complicated because we have to
 		# take into account that slicing might have already been done. The simplest way
 		# to do this is to make a sign array with the same shape as all the pre-dimensions
-- 
2.43.0


From e9489e26eaa2bd70990f708ce79ddee0ed8fc1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 10/63] fix: import warnings in aberration, which Modulator
 uses

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 771aca9..47c6eaa 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -1,4 +1,4 @@
-import numpy as np, numba, ducc0, time
+import numpy as np, numba, ducc0, time, warnings
 from . import coordinates, enmap, utils, curvedsky, wcsutils
 
 beta    = 0.001235
-- 
2.43.0


From a37c418e2accf88ca47227cda0f081bfe281ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 11/63] fix: import warnings in reproject, where the deprecated
 functions use it

---
 pixell/reproject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/reproject.py b/pixell/reproject.py
index 577ec0d..ae2bcfb 100644
--- a/pixell/reproject.py
+++ b/pixell/reproject.py
@@ -1,5 +1,5 @@
 from __future__ import print_function
-import numpy as np
+import numpy as np, warnings
 from scipy import spatial
 from . import wcsutils, utils, enmap, coordinates, fft, curvedsky
 
-- 
2.43.0


From b7aa7149f56fa6529371c9f6b7e584303738913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 12/63] fix: alm2map_general/map2alm_general of 2d maps with
 unhit pixels no longer raise NameError

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 004ab7d..b557441 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -775,7 +775,7 @@ def alm2map_general(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, v
 	# these, so looping in python is cheap
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
@@ -854,7 +854,7 @@ def map2alm_general(map, alm=None, ainfo=None, minfo=None, lmax=None, spin=[0,2]
 	if weights is None: weights = map.pixsizemap()[locinfo.mask].astype(map.dtype, copy=False)
 	for I in utils.nditer(map.shape[:-3]):
 		if locinfo.masked:
-			mslice = (mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
+			mslice = (locinfo.mask,) if map.ndim == 2 else (slice(None),locinfo.mask)
 			tmap = np.ascontiguousarray(map[I][mslice])
 		else:
 			tmap = utils.postflat(map[I],2)
-- 
2.43.0


From adf4d9ca0241402588a979b20da6f2a7fc2b667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 13/63] fix: resample_fft reports an unrecognized norm instead
 of raising NameError

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 094bba1..59a00dc 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3155,7 +3155,7 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		elif norm == "plain":  norm = fomap.npix/fimap.npix # Corresponds to normalize=False in enmap.ifft
 		elif norm == "pix":    norm = (fomap.npix/fimap.npix)**0.5 # Corresponds to normalize=True, enmap.fft default
 		elif norm == "phys":   norm = 1 # Corresponds to normalize="phys"
-		else: raise ValueError("Unrecognized fourier unit '%s'" % str(unit))
+		else: raise ValueError("Unrecognized fourier unit '%s'" % str(norm))
 	# copy over all 4 quadrants. This would have been a single operation if the
 	# fourier center had been in the middle. This could be acieved using fftshift,
 	# but that would require two extra full-array shifts
-- 
2.43.0


From e4762333b53c45f1d05c7945c9bc79ad10fcda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 14/63] fix: FakeCommunicator.Allgatherv argument name

---
 pixell/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/mpiutils.py b/pixell/mpiutils.py
index 5d28516..42d6067 100644
--- a/pixell/mpiutils.py
+++ b/pixell/mpiutils.py
@@ -11,7 +11,7 @@ class FakeCommunicator:
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Allgather(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[0] = _unbuf(sendbuf)
-    def Allgatherv(self, sendbuf, redvbuf):
+    def Allgatherv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
     def Alltoallv(self, sendbuf, recvbuf):
         _unbuf(recvbuf)[()] = _unbuf(sendbuf)
-- 
2.43.0


From 132b2820a485a5537fb66b4dad408049ccdd837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 15/63] fix: wcsutils.extent2bounds raised NameError

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index c4325d4..b85e736 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -248,7 +248,7 @@ def default_variant(system):
 	system = system.lower()
 	return "fejer1" if system in ["car","plain",""] else "any"
 
-def extent2bounds(extent): return [[-e/h,e/h] for e in extent]
+def extent2bounds(extent): return [[-e/2,e/2] for e in extent]
 
 def is_periodic(system):
 	system = system.lower()
-- 
2.43.0


From 51f232b50c79a54786e95970415e3f90baefbe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 16/63] fix: wcsutils.recenter_cyl_ra forgot to forward the wcs

---
 pixell/wcsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index b85e736..b8b44a9 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -343,7 +343,7 @@ def recenter_cyl_x(wcs, x):
 	return owcs
 
 def recenter_cyl_ra(wcs, ra):
-	return recenter_cyl_x(wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
+	return recenter_cyl_x(wcs, wcs.wcs.crpix[0] + (ra-wcs.wcs.crval[0])/wcs.wcs.cdelt[0])
 
 def fix_wcs(wcs, axis=0):
 	"""Returns a new WCS object which has had the reference pixel moved to the
-- 
2.43.0


From 5137a820795ec3ddfcb775ad94d2786e357cd965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 17/63] fix: ndmap.to_healpix passed an argument to_healpix
 does not accept

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 59a00dc..0907e1a 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -120,7 +120,7 @@ class ndmap(np.ndarray):
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
 	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
-		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk, destroy_input=destroy_input)
+		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
 	def __getitem__(self, sel):
 		# Split sel into normal and wcs parts.
-- 
2.43.0


From 8abe37cbeea21f83e110db677694d104c9c0bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 18/63] fix: Geometry.downgrade passed an argument
 downgrade_geometry does not accept

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0907e1a..ede71c2 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -325,7 +325,7 @@ class Geometry:
 		shape, wcs = scale_geometry(self.shape, self.wcs, scale)
 		return Geometry(shape, wcs)
 	def downgrade(self, factor, op=np.mean):
-		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor, op=op)
+		shape, wcs = downgrade_geometry(self.shape, self.wcs, factor)
 		return Geometry(shape, wcs)
 	def copy(self):
 		return Geometry(tuple(self.shape), self.wcs.deepcopy())
-- 
2.43.0


From db6064934f04cc0d549ff81ed45b0402fe9c453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 19/63] fix: neighborhood_pixboxes always failed for plain
 coordinate systems

---
 pixell/enmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index ede71c2..fb74950 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -767,8 +767,8 @@ def neighborhood_pixboxes(shape, wcs, poss, r):
 	distance of r from each entry in poss."""
 	if wcsutils.is_plain(wcs):
 		rpix = r/pixsize(shape, wcs)
-		centers = sky2pix(poss.T).T
-		return np.moveaxis([centers-rpix,center+rpix+1],0,1)
+		centers = sky2pix(shape, wcs, poss.T).T
+		return np.moveaxis([centers-rpix,centers+rpix+1],0,1)
 	poss, r = utils.broadcast_arrays(poss, r, npost=(1,0))
 	res     = np.zeros(poss.shape[:-1]+(2,2))
 	for I in utils.nditer(poss.shape[:-1]):
-- 
2.43.0


From 9fd407da3ff7fb91d985b98ed0f0b633e1930d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 20/63] fix: fullsky_geometry2 forwards to geometry2 instead of
 the incompatible geometry

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fb74950..088ca58 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -1582,7 +1582,7 @@ def fullsky_geometry2(res=None, shape=None, pre=None, deg=False, proj="car", var
 	geometry(). See its docstring for the meaning of the arguments.
 
 	dims is an alias for pre provided for backwards compatibility"""
-	return geometry(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
+	return geometry2(res=res, shape=shape, deg=deg, pre=pre or dims or (), proj=proj, variant=variant)
 
 def band_geometry2(decrange, res=None, shape=None, pre=None, deg=False, proj="car", variant=None, dims=None):
 	"""Build a geometry covering a range of declinations. Equivalent to
-- 
2.43.0


From 1c8279bd9930feabd1b3aee44c5bf0c5d8017194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 21/63] fix: multimap pixmap, lmap and modlmap always failed
 when called as methods

---
 pixell/multimap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index b7002bb..f46c852 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -127,17 +127,17 @@ def posmap(geometries, safe=True, corner=False, separable="auto", dtype=np.float
 
 def pixmap(geometries, dtype=np.float64):
 	"""Return a multimap containing the pixel map for the given geometries"""
-	return multimap([enmap.pixmap(*geo, dtype=dtype) for geo in geometries])
+	return multimap([enmap.pixmap(*geo).astype(dtype) for geo in geometries])
 
-def lmap(geometries, dtype=np.float64):
+def lmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.lmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.lmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
-def modlmap(geometries, dtype=np.float64):
+def modlmap(geometries, dtype=np.float64, oversample=1):
 	"""Return a mapmultimap of all the abs wavenumbers in the fourier transform
 	of a map with the given geometries"""
-	return multimap([enmap.modlmap(*geo).astype(dtype) for geo in geometries])
+	return multimap([enmap.modlmap(*geo, oversample=oversample).astype(dtype) for geo in geometries])
 
 def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64):
 	"""Return a multimap where each entry is the distance from center
-- 
2.43.0


From 0134db304710b6719d2bb057873659281790b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 22/63] fix: multimap posmap, modlmap and modrmap ignored their
 safe, dtype and corner arguments

---
 pixell/multimap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index f46c852..9d9441a 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -37,11 +37,11 @@ class ndmaps(np.ndarray):
 	@property
 	def maps(self):
 		return _map_view(self)
-	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, corner=corner, separable=separable, dtype=dtype)
+	def posmap(self, safe=True, corner=False, separable="auto", dtype=np.float64): return posmap(self.geometries, safe=safe, corner=corner, separable=separable, dtype=dtype)
 	def pixmap(self, dtype=np.float64): return pixmap(self.geometries, dtype=dtype)
 	def pixsize(self, dtype=np.float64): return pixsize(self.geometries, dtype=dtype)
 	def lmap(self, oversample=1, dtype=np.float64): return lmap(self.geometries, oversample=oversample, dtype=dtype)
-	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample)
+	def modlmap(self, oversample=1, dtype=np.float64): return modlmap(self.geometries, oversample=oversample, dtype=dtype)
 	def modrmap(self, ref="center", safe=True, corner=False, dtype=np.float64): return modrmap(self.geometries, ref=ref, safe=safe, corner=corner, dtype=dtype)
 
 class _map_view:
@@ -143,7 +143,7 @@ def modrmap(geometries, ref="center", safe=True, corner=False, dtype=np.float64)
 	"""Return a multimap where each entry is the distance from center
 	of that entry. Results are returned in radians, and if safe is true
 	(default), then sharp coordinate edges will be avoided."""
-	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe).astype(dtype) for geo in geometries])
+	return multimap([enmap.modrmap(*geo, ref=ref, safe=safe, corner=corner).astype(dtype) for geo in geometries])
 
 def pixsize(geometries, dtype=np.float64):
 	return np.array([enmap.pixsize(*geo).astype(dtype) for geo in geometries])
-- 
2.43.0


From c07bf6a7f6f2657563ccf50e35f90138fa69b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 23/63] fix: import multimap in analysis, which NmatWavelet
 uses

---
 pixell/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/analysis.py b/pixell/analysis.py
index 4a0c9cf..97cb1fa 100644
--- a/pixell/analysis.py
+++ b/pixell/analysis.py
@@ -114,7 +114,7 @@ print("%-15s %8.3f %8.3f %8.3f" % ("lowcorr full emp", flux, dflux, flux/dflux))
 
 import numpy as np, time
 from scipy import ndimage
-from . import enmap, utils, uharm, wavelets, bunch
+from . import enmap, utils, uharm, wavelets, bunch, multimap
 
 # TODO: Figure out the proper way to handle fourier-space
 # linear operators. Currently I have a mess of map2harm, harm2map
-- 
2.43.0


From 2387d5d5f88a1e313055513f0de946a37660dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 24/63] fix: eval_srcs_loop used the pre-interpolator interpol
 arguments and always failed

---
 pixell/pointsrcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 8b19504..d86e060 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -333,7 +333,7 @@ def eval_srcs_loop(posmap, poss, amps, beam, cres, nhit, cell_srcs, dtype=np.flo
 			r      = utils.angdist(pixpos[::-1,None,:,:],srcpos[::-1,:,None,None])
 			bpix   = (r - beam[0,0])/(beam[0,1]-beam[0,0])
 			# Evaluate the beam at these locations
-			bval   = utils.interpol(beam[1], bpix[None], mode="constant", order=1, mask_nan=False) # [nsrc,ry,rx]
+			bval   = utils.interpol(beam[1], bpix[None], border="constant", order=1) # [nsrc,ry,rx]
 			cmodel = srcamp[:,:,None,None]*bval
 			cmodel = op.reduce(cmodel,-3)
 			op(model[:,y1:y2,x1:x2], cmodel, model[:,y1:y2,x1:x2])
-- 
2.43.0


From cc00911a6d394b3ef255d51174f2c03d66ae7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:57 +0000
Subject: [PATCH 25/63] fix: make_equispaced used the pre-interpolator interpol
 arguments and always failed

---
 pixell/resample.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pixell/resample.py b/pixell/resample.py
index 21e5a36..8903d09 100644
--- a/pixell/resample.py
+++ b/pixell/resample.py
@@ -134,5 +134,11 @@ def make_equispaced(d, t, quantile=0.1, order=3, mask_nan=False):
 	# To interpolate, we need the input sample number as a function of time
 	samples = np.interp(tout, t, np.arange(len(t)))
 	# Now that we have the samples we can finally evaluate the function
-	dout = utils.interpol(d, samples[None], mode="nearest", order=order, mask_nan=mask_nan)
+	if mask_nan:
+		mask = ~np.isfinite(d)
+		d    = np.where(mask, 0, d)
+	dout = utils.interpol(d, samples[None], border="nearest", order=order)
+	if mask_nan:
+		omask = utils.interpol(mask.astype(dout.dtype), samples[None], mode="nn")
+		dout[omask!=0] = np.nan
 	return dout, tout
-- 
2.43.0


From d00eb1caa228487d8fd57225d3cc53646e6e2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:44 +0000
Subject: [PATCH 26/63] fix: Modulator and modulate_map no longer overwrite the
 map they are given

---
 pixell/aberration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 47c6eaa..40a35ce 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -191,7 +191,7 @@ class Modulator:
 		if spin is None: spin = self.spin
 		if map.dtype != self.dtype:
 			warnings.warn("Modulator dtype does not match argument dtype")
-		return apply_modulation(map, self.A, spin=spin, T0=self.T0, freq=self.freq,
+		return apply_modulation(map.copy(), self.A, spin=spin, T0=self.T0, freq=self.freq,
 			map_unit=self.map_unit, mode=self.modulation, dipole=self.dipole)
 
 def calc_boost_1d(z, beta):
-- 
2.43.0


From aceb8e1b62bb2d9460cc5bebef7a7cde4b834784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:44 +0000
Subject: [PATCH 27/63] fix: boost_map ignored its coord_dtype argument

---
 pixell/aberration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pixell/aberration.py b/pixell/aberration.py
index 40a35ce..949915c 100644
--- a/pixell/aberration.py
+++ b/pixell/aberration.py
@@ -47,7 +47,8 @@ def boost_map(map, dir=dir_equ, beta=beta, modulation="T2lin", T0=utils.T_cmb, f
 	"""
 	if return_modulation: assert modulate, "Can't return modulation of modulation is disabled"
 	if aberrate:
-		map    = aberrate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, boundary=boundary)
+		map    = aberrate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread,
+			coord_dtype=coord_dtype, boundary=boundary)
 	if modulate:
 		map, A = modulate_map(map, dir=dir, beta=beta, spin=spin, nthread=nthread, dipole=dipole,
 			modulation=modulation, T0=T0, freq=freq, map_unit=map_unit, return_modulation=True)
-- 
2.43.0


From 7a466b7503ac78d1aff124aa1c3d63c0272ad959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 28/63] fix: alm2map_adjoint(deriv=True) no longer flips the
 sign of the caller's map after the fact, and applies it before

---
 pixell/curvedsky.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index b557441..cc107ce 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -334,12 +334,16 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 	kwargs  = {"theta":rinfo.theta, "nphi":rinfo.nphi, "phi0":rinfo.phi0,
 		"ringstart":rinfo.offsets, "lmax":ainfo.lmax, "mmax":ainfo.mmax,
 		"mstart": ainfo.mstart, "nthreads":nthread}
+	decflip = np.array([-1,1], map_full.dtype)[:,None]
 	# Loop over pre-dimensions
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint:
+				func(alm=alm_full[I], map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -884,11 +888,15 @@ def alm2map_raw_2d(alm, map, ainfo=None, spin=[0,2], deriv=False, copy=False, ve
 	# alm[{pre},nalm], map[{pre},2,ny,nx]. Otherwise we have
 	# alm[{pre},ncomp,nalm], map[{pre},ncomp,ny,nx]. In either case, the
 	# pre-dimentions are map.shape[:-3]
+	decflip = np.array([-1,1], map_full.dtype)[:,None,None]
 	for I in utils.nditer(map_full.shape[:-3]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -920,11 +928,15 @@ def alm2map_raw_cyl(alm, map, ainfo=None, minfo=None, spin=[0,2], deriv=False, c
 	#    dimensions anyway.
 	# Normally this will be called from alm2map_cyl, which already loops over pre-
 	# dimensions, so this outermost loop usually does nothing
+	decflip = np.array([-1,1], map_full.dtype)[:,None]
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
@@ -973,12 +985,16 @@ def alm2map_raw_general(alm, map, loc, ainfo=None, spin=[0,2], deriv=False, copy
 		if map.dtype == np.float64: epsilon = 1e-10
 		else:                       epsilon = 1e-6
 	kwargs = {"loc":loc, "lmax":ainfo.lmax, "mmax":ainfo.mmax, "nthreads":nthread, "epsilon":epsilon}
+	decflip = np.array([-1,1], map_full.dtype)[:,None]
 	# Iterate over all the predimensions.
 	for I in utils.nditer(map_full.shape[:-2]):
 		if deriv:
-			func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 			# Flip sign of theta derivative to get dec derivative
-			map_full[I+(0,)] *= -1
+			if adjoint:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+			else:
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full.shape[-2]):
 				Ij = I+(slice(j1,j2),)
-- 
2.43.0


From 7d8d135ae7c6a7efa4df33dde06cb594fa6802d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 29/63] fix: map2alm_healpix(adjoint=True, copy=True) referred
 to an unassigned variable

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index cc107ce..1cbb04c 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -354,7 +354,7 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 def map2alm_healpix(healmap, alm=None, ainfo=None, lmax=None, spin=[0,2], weights=None, deriv=False, copy=False, verbose=False, adjoint=False, niter=0, theta_min=None, theta_max=None, nthread=None):
 	"""map2alm for healpix maps. Similar to healpy's map2alm. See the map2alm docstring for details."""
 	if adjoint:
-		if copy and map is not None: map = map.copy()
+		if copy and healmap is not None: healmap = healmap.copy()
 	else:
 		if copy and alm is not None: alm = alm.copy()
 	alm, ainfo = prepare_alm(alm=alm, ainfo=ainfo, lmax=lmax, pre=healmap.shape[:-1], dtype=utils.native_dtype(healmap.dtype))
-- 
2.43.0


From cbf0003bf9e48f8def27d5f40fb393b91453809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:21 +0000
Subject: [PATCH 30/63] fix: alm2map_healpix ignored its copy argument

---
 pixell/curvedsky.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 1cbb04c..021ddec 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -313,6 +313,9 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 		copy=False, ainfo=None, nside=None, theta_min=None, theta_max=None, nthread=None):
 	"""Projects the given alm[...,ncomp,nalm] onto the given healpix map
 	healmap[...,ncomp,npix]."""
+	if copy:
+		if adjoint: alm = alm.copy()
+		elif healmap is not None: healmap = healmap.copy()
 	dtype      = utils.native_dtype(utils.real_dtype(alm.dtype))
 	alm, ainfo = prepare_alm(alm, ainfo, dtype=dtype)
 	healmap    = prepare_healmap(healmap, nside, alm.shape[:-1], dtype)
-- 
2.43.0


From 326fc0503078accc03477495ad143b45c23c38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:42 +0000
Subject: [PATCH 31/63] fix: alm2map_healpix(deriv=True) passed ducc an alm
 with too few dimensions and always failed

---
 pixell/curvedsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 021ddec..aaf6c87 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -343,9 +343,9 @@ def alm2map_healpix(alm, healmap=None, spin=[0,2], deriv=False, adjoint=False,
 		if deriv:
 			# Flip sign of theta derivative to get dec derivative
 			if adjoint:
-				func(alm=alm_full[I], map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I]*decflip, mode="DERIV1", spin=1, **kwargs)
 			else:
-				func(alm=alm_full[I], map=map_full[I], mode="DERIV1", spin=1, **kwargs)
+				func(alm=utils.fix_zero_strides(alm_full[I][None]), map=map_full[I], mode="DERIV1", spin=1, **kwargs)
 				map_full[I+(0,)] *= -1
 		else:
 			for s, j1, j2 in enmap.spin_helper(spin, alm_full[I].shape[-2]):
-- 
2.43.0


From 107d184f62f477adf85a996de6800482481fe2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:19 +0000
Subject: [PATCH 32/63] fix: resample_fft(fomap=..., dummy=True) raised
 UnboundLocalError instead of returning the geometry

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 088ca58..0aa1c56 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -3144,7 +3144,7 @@ def resample_fft(fimap, oshape, fomap=None, off=(0,0), corner=True, norm="pix",
 		owcs  = wcsutils.scale(fimap.wcs, np.array(oshape[-2:],float)/fimap.shape[-2:], rowmajor=True, corner=corner)
 		if dummy: return oshape, owcs
 		fomap = zeros(oshape, owcs, fimap.dtype)
-	if dummy: return oshape, owcs
+	if dummy: return oshape, fomap.wcs
 	# We sadly need to care about fourier-space normalization when doing this, since
 	# different-size fourier spaces can have different units. First handle explicit normalization,
 	# where the factor to multiply is given directly.
-- 
2.43.0


From a46729bb854b8a39e21c23601b8532088bb402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:20 +0000
Subject: [PATCH 33/63] fix: sbox_intersect used np.object, which numpy no
 longer has, and always failed

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9a6e4df..4a8a196 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -1578,7 +1578,7 @@ def sbox_intersect(a,b,wrap=0):
 	ndim = a.shape[-2]
 	wrap = np.zeros(ndim,int)+wrap
 	# Loop over all combinations
-	res = np.empty((fa.shape[0],fb.shape[0]),dtype=np.object)
+	res = np.empty((fa.shape[0],fb.shape[0]),dtype=object)
 	for ai, a1 in enumerate(fa):
 		for bi, b1 in enumerate(fb):
 			peraxis = [sbox_intersect_1d(a1[d],b1[d],wrap=wrap[d]) for d in range(ndim)]
-- 
2.43.0


From b664e376e25348c5e561ce8cdee8e40fa631eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:05 +0000
Subject: [PATCH 34/63] fix: tsz_profile_los ignored the cache it was given and
 emptied the global one instead

---
 pixell/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 4a8a196..9834ce8 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -2409,14 +2409,13 @@ def tsz_profile_los(x, xc=0.497, alpha=1.0, beta=-4.65, gamma=-0.3, zmax=1e5, np
 	See tsz_profile_raw for the units."""
 	from scipy import interpolate
 	# Cache the fit parameters. 
-	if cache is None: global _tsz_profile_los_cache
-	else: _tsz_profile_los_cache = {}
+	if cache is None: cache = _tsz_profile_los_cache
 	key = (xc, alpha, beta, gamma, zmax, npoint, _a, x1, x2)
-	if key not in _tsz_profile_los_cache:
+	if key not in cache:
 		xp = np.linspace(np.log(x1),np.log(x2),npoint)
 		yp = np.log(tsz_profile_los_exact(np.exp(xp), xc=xc, alpha=alpha, beta=beta, gamma=gamma, zmax=zmax, _a=_a))
-		_tsz_profile_los_cache[key] = (interpolate.interp1d(xp, yp, "cubic"), x1, x2, yp[0], yp[-1], (yp[-2]-yp[-1])/(xp[-2]-xp[-1]))
-	spline, xmin, xmax, vleft, vright, slope = _tsz_profile_los_cache[key]
+		cache[key] = (interpolate.interp1d(xp, yp, "cubic"), x1, x2, yp[0], yp[-1], (yp[-2]-yp[-1])/(xp[-2]-xp[-1]))
+	spline, xmin, xmax, vleft, vright, slope = cache[key]
 	# Split into 3 cases: x<xmin, x inside and x > xmax.
 	x     = asfarray(x)
 	left  = x<xmin
-- 
2.43.0


From 8e87e49aa86b9426213c2a33eb832a378bdc44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 35/63] fix: rand_alm_healpy ignored its dtype argument

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index aaf6c87..2cff7f9 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -53,7 +53,7 @@ def rand_alm_healpy(ps, lmax=None, seed=None, dtype=np.complex128):
 	else: raise ValueError("ps must be either [nl], [nspec,nl] or [ncomp,ncomp,nl] in rand_alm_healpy")
 	# Flatten, since healpy wants only the non-redundant components in the diagonal-first scheme
 	fps = powspec.sym_compress(wps, scheme="diag")
-	alm = np.asarray(healpy.synalm(fps, lmax=lmax, new=True))
+	alm = np.asarray(healpy.synalm(fps, lmax=lmax, new=True)).astype(dtype, copy=False)
 	# Produce scalar output for scalar inputs
 	if ps.ndim == 1: alm = alm[0]
 	return alm
-- 
2.43.0


From d33871db4c26c72515bd8f0535bbc7b7eeb26848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 36/63] fix: enmap.insert ignored its wrap, cval and iwcs
 arguments

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 0aa1c56..6f30c10 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -704,7 +704,7 @@ def extract_pixbox(map, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0,
 def insert(omap, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
 	"""Insert imap into omap based on their world coordinate systems, which
 	must be compatible. Essentially the reverse of extract."""
-	extract(omap, imap.shape, imap.wcs, imap, wrap="auto", op=op, cval=0, iwcs=None, reverse=True)
+	extract(omap, imap.shape, imap.wcs, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=True)
 	return omap
 
 def insert_at(omap, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None):
-- 
2.43.0


From 1e72bca751a32166dc8a6437a0f02ac98f5ff70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 37/63] fix: ndmap.at ignored its cval argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 6f30c10..875e461 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -104,7 +104,7 @@ class ndmap(np.ndarray):
 	def extract_pixbox(self, pixbox, omap=None, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None, reverse=False): return extract_pixbox(self, pixbox, omap=omap, wrap=wrap, op=op, cval=cval, iwcs=iwcs, reverse=reverse)
 	def insert(self, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert(self, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
 	def insert_at(self, pix, imap, wrap="auto", op=lambda a,b:b, cval=0, iwcs=None): return insert_at(self, pix, imap, wrap=wrap, op=op, cval=cval, iwcs=iwcs)
-	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=0, unit=unit, safe=safe, ip=ip)
+	def at(self, pos, mode="spline", order=3, border="constant", cval=0.0, unit="coord", safe=True, ip=None): return at(self, pos, mode=mode, order=order, border=border, cval=cval, unit=unit, safe=safe, ip=ip)
 	def argmax(self, unit="coord"): return argmax(self, unit=unit)
 	def autocrop(self, method="plain", value="auto", margin=0, factors=None, return_info=False): return autocrop(self, method, value, margin, factors, return_info)
 	def apod(self, width, profile="cos", fill="zero"): return apod(self, width, profile=profile, fill=fill)
-- 
2.43.0


From f0a6570702bdea77734e0da49dfac8bc88e02eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 38/63] fix: enmap.autocrop ignored its factors argument

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 875e461..80ccd82 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2307,7 +2307,7 @@ def autocrop(m, method="plain", value="auto", margin=0, factors=None, return_inf
 	if method == "plain":
 		goodshape = minshape
 	elif method == "fft":
-		goodshape = np.array([enfft.fft_len(l, direction="above", factors=None) for l in minshape])
+		goodshape = np.array([enfft.fft_len(l, direction="above", factors=factors) for l in minshape])
 	else:
 		raise ValueError("Unknown autocrop method %s!" % method)
 	# Pad if necessary
-- 
2.43.0


From 0e78af9e74bdbcb633cf93e269525484ff61fcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 39/63] fix: ndmap.fillbad returned None

---
 pixell/enmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index 80ccd82..fca8772 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -118,7 +118,7 @@ class ndmap(np.ndarray):
 	def center(self): return center(self.shape,self.wcs)
 	def downgrade(self, factor, op=np.mean, ref=None, off=None): return downgrade(self, factor, op=op, ref=ref, off=off)
 	def upgrade(self, factor,  off=None, oshape=None, inclusive=False): return upgrade(self, factor, off=off, oshape=oshape, inclusive=inclusive)
-	def fillbad(self, val=0, inplace=False): fillbad(self, val=val, inplace=inplace)
+	def fillbad(self, val=0, inplace=False): return fillbad(self, val=val, inplace=inplace)
 	def to_healpix(self, nside=0, order=3, omap=None, chunk=100000, destroy_input=False):
 		return to_healpix(self, nside=nside, order=order, omap=omap, chunk=chunk)
 	def to_flipper(self, omap=None, unpack=True): return to_flipper(self, omap=omap, unpack=unpack)
-- 
2.43.0


From c1126680ae906b9154d66846c5ffe699bb1ee029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 40/63] fix: multimap.harm2map ignored its keep_imag argument

---
 pixell/multimap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/multimap.py b/pixell/multimap.py
index 9d9441a..16d42c1 100644
--- a/pixell/multimap.py
+++ b/pixell/multimap.py
@@ -231,7 +231,7 @@ def map2harm(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], adjoint_har
 	return multimap([enmap.map2harm(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_harm2map=adjoint_harm2map) for m in mmap.maps])
 
 def harm2map(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False, adjoint_map2harm=False):
-	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
+	return multimap([enmap.harm2map(m, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=adjoint_map2harm) for m in mmap.maps])
 
 def map2harm_adjoint(mmap, nthread=0, normalize=True, iau=False, spin=[0,2], keep_imag=False):
 	return harm2map(mmap, nthread=nthread, normalize=normalize, iau=iau, spin=spin, keep_imag=keep_imag, adjoint_map2harm=True)
-- 
2.43.0


From 70f25d9ce8f3ba6a7b59dd089501dd78576691fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 41/63] fix: sym_expand ignored its combined argument

---
 pixell/powspec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/powspec.py b/pixell/powspec.py
index b9d80d9..c6a1998 100644
--- a/pixell/powspec.py
+++ b/pixell/powspec.py
@@ -30,9 +30,9 @@ def sym_expand(mat, which=None, ncomp=None, scheme=None, axis=0, combined=False)
 	res = np.zeros(shape,dtype=mat.dtype)
 	for i, w in enumerate(which):
 		val = m[i]/2 if combined and w[0]!=w[1] else m[i]
-		res[w[0],w[1]] = m[i]
+		res[w[0],w[1]] = val
 		if w[0] != w[1]:
-			res[w[1],w[0]] = m[i]
+			res[w[1],w[0]] = val
 	return np.rollaxis(np.rollaxis(res, 1, axis), 0, axis)
 
 def sym_expand_camb_full_lens(a):
-- 
2.43.0


From 13bc27601ab71bb6db3c81c69f3ccffefb1f51e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 42/63] fix: inufft_adjoint ignored its complex argument

---
 pixell/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/fft.py b/pixell/fft.py
index f486b48..fc35e80 100644
--- a/pixell/fft.py
+++ b/pixell/fft.py
@@ -600,7 +600,7 @@ def nufft_adjoint(a, inds, out=None, oshape=None, axes=None, periodicity=None, e
 
 def inufft_adjoint(fa, inds, out=None, axes=None, periodicity=None, epsilon=None, nthread=None, normalize=False, flip=False, complex=True):
 	"""Alias of inu2u(..., forward=not flip). This involves inverting a system with conjugate gradients"""
-	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip)
+	return inu2u(fa, inds, out=out, axes=axes, periodicity=periodicity, epsilon=epsilon, nthread=nthread, normalize=normalize, forward=not flip, complex=complex)
 
 # Incremental nufft. This is useful for low-latency interpolation, or interpolation
 # where you don't know how many points there will be
-- 
2.43.0


From 1d41721b12ce5bad6ac31533039822888e7e2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:27 +0000
Subject: [PATCH 43/63] fix: sim_objects ignored its op argument, and sim_srcs
 its pixwin_order

---
 pixell/pointsrcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index d86e060..a93d252 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -115,7 +115,7 @@ def sim_objects(shape, wcs, poss, amps, profile, prof_ids=None, omap=None, vmin=
 	assert omap_flat.dtype == dtype, "omap.dtype must be np.float32"
 	assert omap_flat.shape == (ncomp,)+shape[-2:], "omap must be [...,ny,nx], where [ny,nx] agrees with shape, and ... agrees with amps"
 	# Whew! Actually do the work
-	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, return_times=True)[1]
+	times = srcsim.sim_objects(omap_flat, obj_decs, obj_ras, obj_ys, obj_xs, amps_flat, profile, prof_ids, posmap, vmin, rmax=rmax, separable=separable, transpose=transpose, prof_equi=prof_equi, op=op, return_times=True)[1]
 	omap = omap_flat.reshape(pre+shape[-2:])
 	# NB! Since we're not padding, this fourier operation will have problems at the edges
 	if pixwin: omap = enmap.apply_window(omap, order=pixwin_order)
@@ -247,7 +247,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		amps  = amps.reshape(shape[:-2]+(nobj,))
 		# Handle beam = float, in which case a gaussian beam is made
 		beam  = expand_beam(beam, nsigma, rmax)
-		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op, pixwin=pixwin, pixwin_order=0, separable=separable, cache=cache)
+		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
 
-- 
2.43.0


From 636514b48c6e2350f621e95f5608479fa3b556d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:28 +0000
Subject: [PATCH 44/63] fix: sim_srcs_dist_transform ignored smul and rmax, and
 failed for scalar beams

---
 pixell/pointsrcs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index a93d252..0a4f041 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -358,8 +358,9 @@ def sim_srcs_dist_transform(shape, wcs, srcs, beam, omap=None, dtype=None, nsigm
 	# The beam parameters are ignored - the beam argument is used instead
 	amps = srcs[:,2:2+ncomp]
 	poss = srcs[:,:2].copy()
-	br, bv = expand_beam(beam, nsigma, rmax).copy()
-	rmax = nsigma2rmax(beam, nsigma)
+	beam = expand_beam(beam, nsigma, rmax)
+	br, bv = beam
+	if not rmax: rmax = nsigma2rmax(beam, nsigma)
 	if ignore_outside:
 		pixs = enmap.sky2pix(shape, wcs, poss.T[:2])
 		pmax = 2*rmax/enmap.pixsize(shape, wcs)**0.5
@@ -368,7 +369,7 @@ def sim_srcs_dist_transform(shape, wcs, srcs, beam, omap=None, dtype=None, nsigm
 	r, domains = enmap.distance_from(shape, wcs, poss.T[:2], domains=True, rmax=rmax)
 	np.clip(domains, 0, amps.shape[0]-1, domains)
 	for i in range(ncomp):
-		op(omap[i], np.interp(r, br, bv, right=0) * amps[domains,i], omap[i])
+		op(omap[i], np.interp(r, br, bv, right=0) * amps[domains,i] * smul, omap[i])
 	omap = omap.reshape(ishape)
 	return omap
 
-- 
2.43.0


From 230c29ef3b234806c2ab1165fdd9bc24218f7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:28 +0000
Subject: [PATCH 45/63] fix: Bench.show ignored its tfun argument

---
 pixell/bench.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/bench.py b/pixell/bench.py
index cd35988..f31dca9 100644
--- a/pixell/bench.py
+++ b/pixell/bench.py
@@ -69,7 +69,7 @@ class Bench:
 	@contextmanager
 	def show(self, name, tfun=None):
 		try:
-			with self.mark(name, tfun=None):
+			with self.mark(name, tfun=tfun):
 				yield
 		finally:
 			self.print(name)
-- 
2.43.0


From 3255031bb5c9d8d8a9acb16925af769343fd2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 46/63] fix: sim_srcs returned None for an unknown method

---
 pixell/pointsrcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/pointsrcs.py b/pixell/pointsrcs.py
index 0a4f041..7e713f4 100644
--- a/pixell/pointsrcs.py
+++ b/pixell/pointsrcs.py
@@ -250,6 +250,7 @@ def sim_srcs(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None,
 		return sim_objects(shape, wcs, poss, amps, beam, omap=omap, vmin=vmin, rmax=rmax, op=op_, pixwin=pixwin, pixwin_order=pixwin_order, separable=separable, cache=cache)
 	elif method == "python":
 		return sim_srcs_python(shape, wcs, srcs, beam, omap=omap, dtype=dtype, nsigma=nsigma, rmax=rmax, smul=smul, return_padded=return_padded, pixwin=pixwin, pixwin_order=pixwin_order, op=op, wrap=wrap, verbose=verbose, cache=cache, separable=separable)
+	else: raise ValueError("Unrecognized method '%s'" % str(method))
 
 def sim_srcs_python(shape, wcs, srcs, beam, omap=None, dtype=None, nsigma=5, rmax=None, smul=1,
 		return_padded=False, pixwin=False, pixwin_order=0, op=np.add, wrap="auto", verbose=False, cache=None,
-- 
2.43.0


From 3697710f5b7ef59fb55c969b1606a5a3bfd057af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 47/63] fix: apod returned the map unapodized for an unknown
 fill

---
 pixell/enmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index fca8772..bb77ce0 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2420,6 +2420,7 @@ def apod(map, width, profile="cos", fill="zero", inplace=False):
 		elif fill in ["mean", "median", "zero"]:
 			map[slice1] *= prof[broad]
 			map[slice2] *= prof[::-1][broad]
+		else: raise ValueError("Unknown apodization fill '%s'" % str(fill))
 	# Add in offsets if necessary
 	if fill in ["mean", "median"]:
 		map += offset
-- 
2.43.0


From 3ae74ad55e954c2ef486d7087ac8d23c5b1bb11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:45 +0000
Subject: [PATCH 48/63] fix: colorize returned None for an unknown mode

---
 pixell/colorize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/colorize.py b/pixell/colorize.py
index e987e59..94971f9 100644
--- a/pixell/colorize.py
+++ b/pixell/colorize.py
@@ -94,6 +94,7 @@ def colorize(arr, desc="planck", mode="scalar", driver="auto"):
 			elif driver == "fortran": res = colorize_direct_colorcap_fortran(a, desc)
 			else: raise ValueError("Invalid colorize driver '%s' for type '%s'" % (driver, type))
 			return res.reshape(arr.shape[1:] + (4,))
+		else: raise ValueError("Invalid colorize mode '%s'" % str(mode))
 
 schemes["gray"]    = Colorscheme("0:000000,1:ffffff")
 schemes["wmap"]    = Colorscheme("0:000080,0.15:0000ff,0.4:00ffff,0.7:ffff00,0.9:ff5500,1:800000")
-- 
2.43.0


From 01e936e97e2a3c5f743ea67ee79034b5550451ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:45 +0000
Subject: [PATCH 49/63] fix: spline_filter refused the border type reflect that
 map_coordinates accepts

---
 pixell/interpol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/interpol.py b/pixell/interpol.py
index d6aaaf9..21e11d8 100644
--- a/pixell/interpol.py
+++ b/pixell/interpol.py
@@ -107,7 +107,7 @@ def spline_filter(data, order=3, border="cyclic", ndim=None, trans=False):
 	to turn off the internal filtering."""
 	data = np.array(data)
 	core = get_core(data.dtype)
-	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3}[border]
+	iborder = {"zero":0, "nearest":1, "cyclic":2, "mirror":3, "reflect":3}[border]
 	if ndim is None: ndim = data.ndim
 	for axis in range(data.ndim-ndim,data.ndim)[::-1 if trans else 1]:
 		core.spline_filter1d(data.reshape(-1), data.shape, axis, order, iborder, trans)
-- 
2.43.0


From 922923e35f7bf0d91c99d703392a4586f53cba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:45 +0000
Subject: [PATCH 50/63] fix: enplot.show silently did nothing for an unknown
 method

---
 pixell/enplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pixell/enplot.py b/pixell/enplot.py
index df2d04d..22a7dc7 100644
--- a/pixell/enplot.py
+++ b/pixell/enplot.py
@@ -980,6 +980,7 @@ def show(img, title=None, method="auto"):
 		except ImportError: pass
 		# If we got here, nothing worked
 		raise ImportError("Could not find any working display backends for enplot.show")
+	else: raise ValueError("Unrecognized display method '%s'" % str(method))
 
 def show_ipython(img, title=None):
 	from IPython.core.display import display
-- 
2.43.0


From d45cdb214eb0cc4339a20d2a3d98c4481bc48e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 51/63] fix: calc_locinfo lost the last row of the map when it
 was alone in its block

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index 2cff7f9..d9d71b7 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -1351,7 +1351,7 @@ def calc_locinfo(shape, wcs, bsize=1000):
 	loc  = np.zeros((shape[-2]*shape[-1],2))
 	mask = np.zeros(shape[-2:],bool)
 	off  = 0
-	for b1 in range(0, shape[-2]-1, bsize):
+	for b1 in range(0, shape[-2], bsize):
 		b2      = min(b1+bsize, shape[-2])
 		subgeo  = enmap.Geometry(shape, wcs)[b1:b2]
 		subpos  = enmap.posmap(*subgeo, safe=False)
-- 
2.43.0


From 20f965fad395d404b1e643fa64fcc0a498b6b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 52/63] fix: pixelization used the height of the shape for the
 number of columns, and the periodicity in ra for dec

---
 pixell/wcsutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pixell/wcsutils.py b/pixell/wcsutils.py
index b8b44a9..877198b 100644
--- a/pixell/wcsutils.py
+++ b/pixell/wcsutils.py
@@ -84,8 +84,8 @@ def pixelization(pwcs, shape=None, res=None, variant=None):
 		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], res=res[0],  offs=offs[0], periodic=periodic[0])
 		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], res=res[1],  offs=offs[1], periodic=periodic[1])
 	elif res is None:
-		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-2], offs=offs[0], periodic=periodic[0])
-		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[0])
+		ra1, ra2, nx, ox1, ox2 = pixelize_1d(extent[0], n=shape[-1], offs=offs[0], periodic=periodic[0])
+		dec1,dec2,ny, oy1, oy2 = pixelize_1d(extent[1], n=shape[-2], offs=offs[1], periodic=periodic[1])
 	else:
 		raise ValueError("Either res or shape must be given to build a pixelization")
 	# Now that we have the intermediate coordinates of our endpoints, we
-- 
2.43.0


From 5ba8216359070fcf26cc47c7105883fc3dcf4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 53/63] fix: pad with wrap failed when one of the sides has no
 padding

---
 pixell/enmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pixell/enmap.py b/pixell/enmap.py
index bb77ce0..369f7bf 100644
--- a/pixell/enmap.py
+++ b/pixell/enmap.py
@@ -2258,10 +2258,11 @@ def pad(emap, pix, return_slice=False, wrap=False, value=0):
 	mslice = (Ellipsis,slice(pix[0,0],res.shape[-2]-pix[1,0]),slice(pix[0,1],res.shape[-1]-pix[1,1]))
 	res[mslice] = emap
 	if wrap:
-		res[...,:pix[0,0],:]  = res[...,-pix[0,0]-pix[1,0]:-pix[1,0],:]
-		res[...,-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
-		res[...,:,:pix[0,1]]  = res[...,:,-pix[0,1]-pix[1,1]:-pix[1,1]]
-		res[...,:,-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
+		ny, nx = res.shape[-2:]
+		res[...,:pix[0,0],:]    = res[...,ny-pix[0,0]-pix[1,0]:ny-pix[1,0],:]
+		res[...,ny-pix[1,0]:,:] = res[...,pix[0,0]:pix[0,0]+pix[1,0],:]
+		res[...,:,:pix[0,1]]    = res[...,:,nx-pix[0,1]-pix[1,1]:nx-pix[1,1]]
+		res[...,:,nx-pix[1,1]:] = res[...,:,pix[0,1]:pix[0,1]+pix[1,1]]
 	return (res,mslice) if return_slice else res
 
 def find_blank_edges(m, value="auto"):
-- 
2.43.0


From 4f7c679ecf1aa0858fb62e523ce316931f507eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:10 +0000
Subject: [PATCH 54/63] fix: medmean averaged over nothing when there are too
 few samples to cut any

---
 pixell/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/utils.py b/pixell/utils.py
index 9834ce8..1b2ea61 100644
--- a/pixell/utils.py
+++ b/pixell/utils.py
@@ -349,7 +349,7 @@ def medmean(x, axis=None, frac=0.5):
 	else:            x = np.moveaxis(x, axis, -1)
 	x = np.sort(x, -1)
 	i = int(x.shape[-1]*frac)//2
-	return np.mean(x[...,i:-i],-1)
+	return np.mean(x[...,i:x.shape[-1]-i],-1)
 
 def medmean2(x, axis=None, frac=0.1, bsize=None):
 	"""This is what medmean should have bean. This should be faster and have
-- 
2.43.0


From de5208dea8bd25d1fafbf77fe08ee3604f439335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:49 +0000
Subject: [PATCH 55/63] fix: lmatmul_sp read and wrote past lmax when the
 matrix goes further than the alm

---
 cython/cmisc_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/cmisc_core.c b/cython/cmisc_core.c
index ded2d9a..cb751b0 100644
--- a/cython/cmisc_core.c
+++ b/cython/cmisc_core.c
@@ -208,7 +208,7 @@ void lmatmul_sp(int N, int M, int lmax, int mmax, int64_t * mstart, float ** alm
 		float * vimag = calloc(N, sizeof(float));
 		#pragma omp for
 		for(int m = 0; m <= mmax; m++) {
-			for(int l = m; l <= lfmax; l++) {
+			for(int l = m; l <= leff; l++) {
 				int64_t i = mstart[m]+l;
 				// Zero out the work arrays
 				for(int r = 0; r < N; r++) { vreal[r] = vimag[r] = 0; }
-- 
2.43.0


From c88cfb49631c9b18fa3bd6508227918a3bcf3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:49 +0000
Subject: [PATCH 56/63] fix: direct_colorcap shared its work variables between
 threads

---
 fortran/colorize.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortran/colorize.f90 b/fortran/colorize.f90
index 7dca1be..e0f9b29 100644
--- a/fortran/colorize.f90
+++ b/fortran/colorize.f90
@@ -61,7 +61,7 @@ subroutine direct_colorcap(a, res)
 	real(8) :: v, hue(3), amp, color(3)
 	integer :: i, nc
 	nc = size(a,2)
-	!$omp parallel do private(i,v)
+	!$omp parallel do private(i,v,hue,amp,color)
 	do i = 1, size(a,1)
 		v = a(i,1)+a(i,2)+a(i,3)
 		if(v .ne. v) then
-- 
2.43.0


From b998ed860ad83ccb6c585bcd709bc6908f9b9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:49 +0000
Subject: [PATCH 57/63] fix: free_pppf leaked what it was asked to free

---
 cython/srcsim_core.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cython/srcsim_core.c b/cython/srcsim_core.c
index 65af39b..26bff2c 100644
--- a/cython/srcsim_core.c
+++ b/cython/srcsim_core.c
@@ -762,7 +762,6 @@ float *** calloc_pppf(int n1, int n2, int n3) {
 
 void free_pppf(float *** a, int n1, int n2) {
 	for(int i1 = 0; i1 < n1; i1++) {
-		a[i1] = calloc(n2, sizeof(float*));
 		for(int i2 = 0; i2 < n2; i2++)
 			free(a[i1][i2]);
 		free(a[i1]);
-- 
2.43.0


From ef9f18e05c6f260c27526cd985bbe0dfa78d0dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:17 +0000
Subject: [PATCH 58/63] fix: healpix_info arrays no longer outlive the memory
 they point to

The properties wrapped the C arrays without copying and without holding a
reference to the object, so distances.healpix_info(nside).nx pointed to
released memory.
---
 cython/distances.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b648b17..b3fcb84 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -348,19 +348,19 @@ cdef class healpix_info:
 	@property
 	def ny(self):      return self.info.ny
 	@property
-	def nx(self):      return np.asarray(<int[:self.info.ny]> self.info.nx)
+	def nx(self):      return np.array(<int[:self.info.ny]> self.info.nx)
 	@property
-	def off(self):     return np.asarray(<inum[:self.info.ny]> self.info.off)
+	def off(self):     return np.array(<inum[:self.info.ny]> self.info.off)
 	@property
-	def shift(self):   return np.asarray(<int[:self.info.ny]> self.info.shift)
+	def shift(self):   return np.array(<int[:self.info.ny]> self.info.shift)
 	@property
-	def ra0(self):     return np.asarray(<double[:self.info.ny]> self.info.ra0)
+	def ra0(self):     return np.array(<double[:self.info.ny]> self.info.ra0)
 	@property
-	def dec(self):     return np.asarray(<double[:self.info.ny]> self.info.dec)
+	def dec(self):     return np.array(<double[:self.info.ny]> self.info.dec)
 	@property
-	def cos_dec(self): return np.asarray(<double[:self.info.ny]> self.info.cos_dec)
+	def cos_dec(self): return np.array(<double[:self.info.ny]> self.info.cos_dec)
 	@property
-	def sin_dec(self): return np.asarray(<double[:self.info.ny]> self.info.sin_dec)
+	def sin_dec(self): return np.array(<double[:self.info.ny]> self.info.sin_dec)
 
 def find_edges_healpix(healpix_info info, mask, flat=True):
 	"""find_edges_healpix(healpix_info info, mask, flat=True)
-- 
2.43.0


From 577b78cb74d3d7cdeaf27c354b738764fda90f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:17 +0000
Subject: [PATCH 59/63] fix: srcsim.sim_objects keeps converted profiles alive

Each profile was converted into a temporary that was released when the next
one was read, while prof_rs and prof_vs kept pointing into it.
---
 cython/srcsim.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cython/srcsim.pyx b/cython/srcsim.pyx
index 05a866c..c6f7065 100644
--- a/cython/srcsim.pyx
+++ b/cython/srcsim.pyx
@@ -54,8 +54,10 @@ def sim_objects(float[:,:,::1] map, float[::1] obj_decs, float[::1] obj_ras, int
 	cdef float ** prof_rs = <float**>calloc(nprof, sizeof(float*))
 	cdef float ** prof_vs = <float**>calloc(nprof, sizeof(float*))
 	cdef float[:,::1] prof
+	# Keep any converted profiles alive while we use pointers into them
+	profs = [np.asanyarray(p, dtype=np.float32, order="C") for p in profs]
 	for i in range(nprof):
-		prof = np.asanyarray(profs[i], dtype=np.float32, order="C")
+		prof = profs[i]
 		assert prof.ndim == 2 and len(prof) == 2, ("prof must be [{r,val},:], but #%d is not" % i)
 		prof_ns[i] = prof.shape[1]
 		prof_rs[i] = &prof[0,0]
-- 
2.43.0


From dc7e355b0f6de328da9187af998d0b4f8f9d9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:12 +0000
Subject: [PATCH 60/63] fix: find_edges_healpix failed for masks and labels
 without edges

An array view of length zero cannot be made from a pointer, so these raised
ValueError where find_edges returns an empty array.
---
 cython/distances.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cython/distances.pyx b/cython/distances.pyx
index b3fcb84..36e3b95 100644
--- a/cython/distances.pyx
+++ b/cython/distances.pyx
@@ -382,8 +382,12 @@ def find_edges_healpix(healpix_info info, mask, flat=True):
 	cdef uint8_t[::1] mask_ = mask
 	nedge = c.find_edges_healpix(info.info, &mask_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
@@ -408,8 +412,12 @@ def find_edges_labeled_healpix(healpix_info info, labels, flat=True):
 	cdef int[::1] labels_ = labels.reshape(-1)
 	nedge = c.find_edges_labeled_healpix(info.info, &labels_[0], &edges_raw)
 	# Copy info numpy array
-	cdef int[::1] view = <int[:2*nedge]> edges_raw
-	edges = np.array(view).reshape(2,-1)
+	cdef int[::1] view
+	if nedge > 0:
+		view = <int[:2*nedge]> edges_raw
+		edges = np.array(view).reshape(2,-1)
+	else:
+		edges = np.zeros((2,0), np.int32)
 	free(edges_raw)
 	if flat:
 		edges = info.off[edges[0]]+edges[1]
-- 
2.43.0


From c28993c8315a738918d02bbb0914857a29e34583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:43 +0000
Subject: [PATCH 61/63] fix: WaveletTransform.wcs returned the shape

---
 pixell/wavelets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/wavelets.py b/pixell/wavelets.py
index 1c954f2..4e25644 100644
--- a/pixell/wavelets.py
+++ b/pixell/wavelets.py
@@ -299,7 +299,7 @@ class WaveletTransform:
 	@property
 	def shape(self): return self.uht.shape
 	@property
-	def wcs(self): return self.uht.shape
+	def wcs(self): return self.uht.wcs
 	@property
 	def geometry(self): return self.shape, self.wcs
 	@property
-- 
2.43.0


From 2240ac8bd1787b3d72308e1bc2a70ed87afd0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 62/63] fix: map2alm did not hand niter on to the general
 method

---
 pixell/curvedsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/curvedsky.py b/pixell/curvedsky.py
index d9d71b7..a15a14d 100644
--- a/pixell/curvedsky.py
+++ b/pixell/curvedsky.py
@@ -297,7 +297,7 @@ def map2alm(map, alm=None, lmax=None, spin=[0,2], deriv=False, adjoint=False,
 		if verbose: print("method: pos")
 		return map2alm_general(map, alm, ainfo=ainfo, lmax=lmax, spin=spin, deriv=deriv, copy=copy,
 			verbose=verbose, adjoint=adjoint, nthread=nthread, epsilon=epsilon,
-			locinfo=locinfo, weights=weights)
+			locinfo=locinfo, weights=weights, niter=niter)
 	else:
 		raise ValueError("Unrecognized alm2map method '%s'" % str(method))
 
-- 
2.43.0


From 9226615633e2c053e84c620e3d41be9586030163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 63/63] fix: UHT.harm2map_adjoint ignored spin in curved mode

---
 pixell/uharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pixell/uharm.py b/pixell/uharm.py
index 285dcd7..72602eb 100644
--- a/pixell/uharm.py
+++ b/pixell/uharm.py
@@ -106,7 +106,7 @@ class UHT:
 		if self.mode == "flat":
 			return enmap.harm2map_adjoint(map, spin=spin, normalize="phys")
 		else:
-			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo)
+			return curvedsky.alm2map_adjoint(map, ainfo=self.ainfo, spin=spin)
 	def map2harm_adjoint(self, harm, spin=0):
 		if self.mode == "flat":
 			return enmap.map2harm_adjoint(harm, spin=spin, normalize="phys")
-- 
2.43.0

