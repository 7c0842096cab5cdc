From b7af3b2fde8246633a393dad87fb368e27c3b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 001/144] fix: place the film's crop window in y by the y
 resolution

yPixel_start was computed from the x resolution, so on a non-square film with
a crop in y, contributions landed on the wrong rows or were dropped.
---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From e719cdee910acd636f5459de0443021c5cbfa966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 002/144] fix: release the pixel lock when a splat fails

An exception while adding to the splat sum left the pixel locked for ever, so
every later contribution to that pixel blocked.
---
 pytracer/film/film.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index 38d196d..98ca923 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -212,9 +212,8 @@ class ImageFilm(Film):
 			return
 
 		pxl = self.pixels[x - self.xPixel_start][y - self.yPixel_start]
-		pxl.lock.acquire()
-		pxl.splatXYZ += xyz
-		pxl.lock.release()
+		with pxl.lock:
+			pxl.splatXYZ += xyz
 
 	def get_sample_extent(self) -> [INT]:
 		"""
-- 
2.43.0


From 7d73a207a6c06fe730f558191ca87b02ca8d176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 003/144] fix: never leave a partial image behind when saving
 fails

The image was written in place, so an I/O error or a crash while saving (or
while updating a crop window) destroyed the image already there.
---
 pytracer/utility/imageio.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..32a59e4 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -11,6 +11,7 @@ Modfied on Aug 13, 2017
 import numpy as np
 import PIL.Image
 import os
+import threading
 from pytracer import INT
 import pytracer.utility.utility as util
 import pytracer.spectral as spec
@@ -50,6 +51,25 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 				'type of file {}'.format(filename))
 
 
+def _save_image(pic: 'PIL.Image.Image', filename: str):
+	"""
+	Saves to a temporary file first, so that
+	`filename` always holds a complete image
+	"""
+	filename = os.path.realpath(filename)
+	tmp = '{}.{}.{}.tmp'.format(filename, os.getpid(), threading.get_ident())
+	try:
+		with open(tmp, 'wb') as f:
+			pic.save(f, 'PNG')
+			f.flush()
+			os.fsync(f.fileno())
+		os.replace(tmp, filename)
+	except BaseException:
+		if os.path.exists(tmp):
+			os.remove(tmp)
+		raise
+
+
 def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
                 xRes: INT, yRes: INT, xFullRes: INT, yFullRes: INT,
                 xOffset: INT, yOffset: INT):
@@ -69,7 +89,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			# save new img
 			ret = rgb.copy()
 			pic = PIL.Image.fromarray(rgb, mode="RGB")
-			pic.save(filename, 'PNG')
+			_save_image(pic, filename)
 			return ret
 
 		else:
@@ -85,7 +105,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-			pic.save(filename, 'PNG')
+			_save_image(pic, filename)
 			return ret
 
 	else:
-- 
2.43.0


From 706ab01a04c2cf0c1606fc8737747d644e06a747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 004/144] fix: write a crop window into its own rows and
 columns

Updating an existing image indexed it as [x, y] and one pixel short, so the
update raised for every window (and hit the wrong pixels for 1x1 slices).
---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 32a59e4..aa7dac9 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -101,7 +101,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From 81e881c477244536f5cc7f4b276fd6e94536d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 005/144] fix: step the grid accelerator through the voxels a
 ray crosses

The distance to the next voxel boundary divided only the ray position by the
direction, rays entering from outside started at their origin instead of the
entry point, rays parallel to an axis produced NaN crossings, and shadow rays
missing the bounds were traced anyway. Hits in later voxels were lost.
---
 pytracer/aggregate/aggregate.py | 42 ++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..5e4d73e 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -252,8 +252,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -264,17 +266,20 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
-		                 for axis in range(3)]
-		delta_t = self.width / ray.d
+		# an axis the ray does not move along is never crossed
+		next_crossing = np.full(3, np.inf)
+		delta_t = np.full(3, np.inf)
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
-			if ray.d[axis] < 0:
+			if ray.d[axis] > 0:
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = self.width[axis] / ray.d[axis]
+			elif ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
-				delta_t[axis] *= -1
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = -self.width[axis] / ray.d[axis]
 				step[axis] = -1
 				out[axis] = -1
 
@@ -302,8 +307,10 @@ class GridAccel(Aggregate):
 		ray_t = 0.
 		if self.bounds.inside(ray(ray.mint)):
 			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
-			return False
+		else:
+			hit, ray_t, _ = self.bounds.intersect_p(ray)
+			if not hit:
+				return False
 
 		grid_intersect = ray(ray_t)
 
@@ -314,17 +321,20 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
-		                 for axis in range(3)]
-		delta_t = self.width / ray.d
+		# an axis the ray does not move along is never crossed
+		next_crossing = np.full(3, np.inf)
+		delta_t = np.full(3, np.inf)
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
-			if ray.d[axis] < 0:
+			if ray.d[axis] > 0:
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = self.width[axis] / ray.d[axis]
+			elif ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
-				delta_t[axis] *= -1
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
+				delta_t[axis] = -self.width[axis] / ray.d[axis]
 				step[axis] = -1
 				out[axis] = -1
 
-- 
2.43.0


From baa211f097bc1aeda2469e3a0b348bd33345708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 006/144] fix: make cylinders usable as shapes

Cylinder left refine() abstract, so it could not be created, and its
intersection used angles only a sphere has.
---
 pytracer/shape/cylinder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..9ceae8b 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -106,7 +106,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -188,5 +188,12 @@ class Cylinder(Shape):
 
 		return True
 
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
+
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
-- 
2.43.0


From 7cac03475d18b0484332a2299fc34fa6259e63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 007/144] fix: bound rotated and mirrored shapes in world space

The world bound transformed only the two extreme corners of the object bound,
so rotated shapes fell outside their own bound and aggregates never found
them.
---
 pytracer/shape/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..4313c7a 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -61,7 +61,13 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		# all corners are needed: a rotation or a negative
+		# scale does not keep the extreme ones extreme
+		box = self.object_bound()
+		ret = geo.BBox()
+		for i in range(8):
+			ret.union(self.o2w(geo.Point(box[i & 1].x, box[(i >> 1) & 1].y, box[i >> 2].z)))
+		return ret
 
 	def can_intersect(self) -> bool:
 		return True
-- 
2.43.0


From 7e3c7164864e1024c0bee0eec0e7b8fa294397b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 008/144] fix: release the grid lock when refining a voxel
 fails

A primitive that raised while being refined left the grid locked, and every
later query that had to refine a voxel waited for ever.
---
 pytracer/aggregate/aggregate.py | 50 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 5e4d73e..0bba7fd 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -120,19 +120,18 @@ class Voxel(object):
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
@@ -146,19 +145,18 @@ class Voxel(object):
 	def intersect_p(self, ray: 'geo.Ray', lock) -> bool:
 		# refine primitives if needed
 		if not self.all_can_intersect:
-			lock.acquire()
-			for i, prim in enumerate(self.primitives):
-				# refine if necessary
-				if not prim.can_intersect():
-					p = []
-					prim.full_refine(p)
-					if len(p) == 1:
-						self.primitives[i] = p[0]
-					else:
-						self.primitives[i] = GridAccel(p, False)
-
-			self.all_can_intersect = True
-			lock.release()
+			with lock:
+				for i, prim in enumerate(self.primitives):
+					# refine if necessary
+					if not prim.can_intersect():
+						p = []
+						prim.full_refine(p)
+						if len(p) == 1:
+							self.primitives[i] = p[0]
+						else:
+							self.primitives[i] = GridAccel(p, False)
+
+				self.all_can_intersect = True
 
 		# loop over
 		# no data corrpution?
-- 
2.43.0


From bfb98fa71fc2158010de80691dad19984a648498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 009/144] fix: keep the nearest hit in the simple aggregate

---
 pytracer/aggregate/aggregate.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 0bba7fd..596342e 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -72,23 +72,17 @@ class SimpleAggregate(Aggregate):
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		from pytracer.aggregate import Intersection
 		# refine primitives if needed
-		hit, t0, t1 = self.bounds.intersect_p(ray)
+		hit, _, _ = self.bounds.intersect_p(ray)
 		if not hit:
 			return False
 
 		tmp = Intersection()
 		any_hit = False
-		mint = np.inf
 		for pr in self.primitives:
+			# a hit shortens the ray: later hits are always nearer
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
-				if ray.maxt < mint:
-					mint = ray.maxt
-					SimpleAggregate._copy_isect(tmp, isect)
+				SimpleAggregate._copy_isect(tmp, isect)
 
 		return any_hit
 
-- 
2.43.0


From 1081d352d874b31b2570be8b1f61a05121eaa782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 010/144] fix: build bounding hierarchies with middle splits
 and multi-primitive leaves

---
 pytracer/aggregate/accelerator/bvh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..939cd04 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -206,6 +206,9 @@ class BVH(Aggregate):
 			if self.split_method == BVH.SplitMethod.MIDDLE:
 				pmid = .5 * (centroid_bounds.pMax[dim] + centroid_bounds.pMin[dim])
 				mid = BVH._partition(data, start, end, pmid, dim)
+				if mid == start:
+					# never leave a child without primitives
+					mid += 1
 
 			else:
 				# surface area heuristic
@@ -260,7 +263,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From c0e75d72f7777934deeb99c0c6127eeae7dc1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 011/144] fix: average a spectrum up to an end point that is a
 sample

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..db86a55 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -470,7 +470,7 @@ class SampledSpectrum(CoefficientSpectrum):
 			bk_lam_lo = lam[idx_lo]
 			bk_v_lo = v[idx_lo]
 
-		if idx_hi < len(lam) and lam[idx_hi] != le:
+		if idx_hi < len(lam):
 			bk_lam_hi = lam[idx_hi]
 			bk_v_hi = v[idx_hi]
 			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-- 
2.43.0


From 203acdaad5d7c34d609536b140020229084434ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 012/144] fix: resample spectra into bins of one sample's width

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index db86a55..289c0f5 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i + 1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From 933ccb6086c8ca913b4e4cf5a90bbadb5df44d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 013/144] fix: average spectra without modifying the samples

---
 pytracer/spectral/spectrum.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 289c0f5..25a3a9f 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -448,6 +448,10 @@ class SampledSpectrum(CoefficientSpectrum):
 		if len(lam) == 1:
 			return v[0]
 
+		# the end points are clipped below: leave the caller's samples alone
+		lam = np.array(lam, dtype=FLOAT)
+		v = np.array(v, dtype=FLOAT)
+
 		v_sum = 0.
 		# constant contributions before/after samples
 		# if end points are partially covered
@@ -462,34 +466,22 @@ class SampledSpectrum(CoefficientSpectrum):
 
 		if idx_lo >= 0:
 			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
 			v[idx_lo] = util.lerp( (ls - bk_lam_lo) / (lam[idx_lo+1] - bk_lam_lo), v[idx_lo], v[idx_lo+1])
 			lam[idx_lo] = ls			
 		else:
 			idx_lo = 0
-			bk_lam_lo = lam[idx_lo]
-			bk_v_lo = v[idx_lo]
 
 		if idx_hi < len(lam):
 			bk_lam_hi = lam[idx_hi]
-			bk_v_hi = v[idx_hi]
 			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
 			lam[idx_hi] = le
 			idx_hi += 1
 		else:
 			idx_hi = len(lam)
-			bk_lam_hi = lam[-1]
-			bk_v_hi = v[-1]
 
 		# integrate using trapezoidal rule
 		v_sum += np.trapz(v[idx_lo:idx_hi], lam[idx_lo:idx_hi])
 
-		# clean-up
-		lam[idx_lo] = bk_lam_lo
-		lam[idx_hi-1] = bk_lam_hi
-		v[idx_lo] = bk_v_lo
-		v[idx_hi-1] = bk_v_hi
-
 		return v_sum / (le - ls)
 
 	@classmethod
-- 
2.43.0


From a7efddea7962b601ea5f8b4b23c6afc6def3ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 014/144] fix: publish spectral tables only once they are
 complete

---
 pytracer/spectral/spectrum.py | 108 +++++++++-------------------------
 1 file changed, 28 insertions(+), 80 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 25a3a9f..c3580ea 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -324,92 +324,40 @@ class SampledSpectrum(CoefficientSpectrum):
 			RGBIllum2SpectBlue
 		)
 		
-		SampledSpectrum.X = SampledSpectrum()
-		SampledSpectrum.Y = SampledSpectrum()
-		SampledSpectrum.Z = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectWhite = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectCyan = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectMagenta = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectYellow = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectRed = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectGreen = SampledSpectrum()
-		SampledSpectrum.rgbRefl2SpectBlue = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectWhite = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectCyan = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectMagenta = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectYellow = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectRed = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectGreen = SampledSpectrum()
-		SampledSpectrum.rgbIllum2SpectBlue = SampledSpectrum()
+		curves = {
+			'X': (CIE_LAMBDA, CIE_X),
+			'Y': (CIE_LAMBDA, CIE_Y),
+			'Z': (CIE_LAMBDA, CIE_Z),
+			'rgbRefl2SpectWhite': (RGB2SpectLambda, RGBRefl2SpectWhite),
+			'rgbRefl2SpectCyan': (RGB2SpectLambda, RGBRefl2SpectCyan),
+			'rgbRefl2SpectMagenta': (RGB2SpectLambda, RGBRefl2SpectMagenta),
+			'rgbRefl2SpectYellow': (RGB2SpectLambda, RGBRefl2SpectYellow),
+			'rgbRefl2SpectRed': (RGB2SpectLambda, RGBRefl2SpectRed),
+			'rgbRefl2SpectGreen': (RGB2SpectLambda, RGBRefl2SpectGreen),
+			'rgbRefl2SpectBlue': (RGB2SpectLambda, RGBRefl2SpectBlue),
+			'rgbIllum2SpectWhite': (RGB2SpectLambda, RGBIllum2SpectWhite),
+			'rgbIllum2SpectCyan': (RGB2SpectLambda, RGBIllum2SpectCyan),
+			'rgbIllum2SpectMagenta': (RGB2SpectLambda, RGBIllum2SpectMagenta),
+			'rgbIllum2SpectYellow': (RGB2SpectLambda, RGBIllum2SpectYellow),
+			'rgbIllum2SpectRed': (RGB2SpectLambda, RGBIllum2SpectRed),
+			'rgbIllum2SpectGreen': (RGB2SpectLambda, RGBIllum2SpectGreen),
+			'rgbIllum2SpectBlue': (RGB2SpectLambda, RGBIllum2SpectBlue),
+		}
 
 		wl0 = util.ufunc_lerp(np.arange(0, N_SPECTRAL_SAMPLES) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START,
 		                      SAMPLED_LAMBDA_END)
 		wl1 = util.ufunc_lerp(np.arange(1, N_SPECTRAL_SAMPLES + 1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START,
 		                      SAMPLED_LAMBDA_END)
 
-		for i in range(N_SPECTRAL_SAMPLES):
-			SampledSpectrum.X.c[i] = SampledSpectrum.average_spectrum_samples(CIE_LAMBDA, CIE_X, wl0[i],
-			                                                                  wl1[i])
-			SampledSpectrum.Y.c[i] = SampledSpectrum.average_spectrum_samples(CIE_LAMBDA, CIE_Y, wl0[i],
-			                                                                  wl1[i])
-			SampledSpectrum.Z.c[i] = SampledSpectrum.average_spectrum_samples(CIE_LAMBDA, CIE_Z, wl0[i],
-			                                                                  wl1[i])
-			SampledSpectrum.rgbRefl2SpectWhite.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                   RGBRefl2SpectWhite,
-			                                                                                   wl0[i],
-			                                                                                   wl1[i])
-			SampledSpectrum.rgbRefl2SpectCyan.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                  RGBRefl2SpectCyan,
-			                                                                                  wl0[i],
-			                                                                                  wl1[i])
-			SampledSpectrum.rgbRefl2SpectMagenta.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                     RGBRefl2SpectMagenta,
-			                                                                                     wl0[i],
-			                                                                                     wl1[i])
-			SampledSpectrum.rgbRefl2SpectYellow.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                    RGBRefl2SpectYellow,
-			                                                                                    wl0[i],
-			                                                                                    wl1[i])
-			SampledSpectrum.rgbRefl2SpectRed.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                 RGBRefl2SpectRed,
-			                                                                                 wl0[i],
-			                                                                                 wl1[i])
-			SampledSpectrum.rgbRefl2SpectGreen.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                   RGBRefl2SpectGreen,
-			                                                                                   wl0[i],
-			                                                                                   wl1[i])
-			SampledSpectrum.rgbRefl2SpectBlue.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                  RGBRefl2SpectBlue,
-			                                                                                  wl0[i],
-			                                                                                  wl1[i])
-			SampledSpectrum.rgbIllum2SpectWhite.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                    RGBIllum2SpectWhite,
-			                                                                                    wl0[i],
-			                                                                                    wl1[i])
-			SampledSpectrum.rgbIllum2SpectCyan.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                   RGBIllum2SpectCyan,
-			                                                                                   wl0[i],
-			                                                                                   wl1[i])
-			SampledSpectrum.rgbIllum2SpectMagenta.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                      RGBIllum2SpectMagenta,
-			                                                                                      wl0[i],
-			                                                                                      wl1[i])
-			SampledSpectrum.rgbIllum2SpectYellow.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                     RGBIllum2SpectYellow,
-			                                                                                     wl0[i],
-			                                                                                     wl1[i])
-			SampledSpectrum.rgbIllum2SpectRed.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                  RGBIllum2SpectRed,
-			                                                                                  wl0[i],
-			                                                                                  wl1[i])
-			SampledSpectrum.rgbIllum2SpectGreen.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                    RGBIllum2SpectGreen,
-			                                                                                    wl0[i],
-			                                                                                    wl1[i])
-			SampledSpectrum.rgbIllum2SpectBlue.c[i] = SampledSpectrum.average_spectrum_samples(RGB2SpectLambda,
-			                                                                                   RGBIllum2SpectBlue,
-			                                                                                   wl0[i],
-			                                                                                   wl1[i])
+		# complete every table before any is used
+		tables = {}
+		for name, (lam, v) in curves.items():
+			tables[name] = SampledSpectrum()
+			for i in range(N_SPECTRAL_SAMPLES):
+				tables[name].c[i] = SampledSpectrum.average_spectrum_samples(lam, v, wl0[i], wl1[i])
+
+		for name, table in tables.items():
+			setattr(SampledSpectrum, name, table)
 
 	@classmethod
 	def from_sampled(cls, lam: Iterable, v: Iterable):
-- 
2.43.0


From 39714bb309ec4ef30a4fb7d5c9fcc7a66dbc13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 015/144] fix: pick the basis spectra of a colour by channel

---
 pytracer/spectral/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index c3580ea..e95b781 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -442,9 +442,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -457,9 +457,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
-- 
2.43.0


From 980ef18bedcd2dc63d59d289f890cff493977c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 016/144] fix: give every shape and primitive an id of its own

---
 pytracer/aggregate/primitive.py | 7 +++++--
 pytracer/shape/__init__.py      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..7ccc999 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -10,6 +10,7 @@ Modified on Aug 13, 2017
 """
 
 from __future__ import absolute_import
+import threading
 from abc import (ABCMeta, abstractmethod)
 import pytracer.geometry as geo
 import pytracer.transform as trans
@@ -24,10 +25,12 @@ class Primitive(object, metaclass=ABCMeta):
 
 	#__primitiveId = 0
 	next_primitiveId = 1
+	_id_lock = threading.Lock()
 
 	def __init__(self):
-		self.primitiveId = Primitive.next_primitiveId
-		Primitive.next_primitiveId += 1
+		with Primitive._id_lock:
+			self.primitiveId = Primitive.next_primitiveId
+			Primitive.next_primitiveId += 1
 
 	def __repr__(self):
 		return "{}\nPrimitive ID: {}\nNext Primitive ID: {}" \
diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 4313c7a..927e030 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -16,6 +16,7 @@ Created by Jiayao on July 27, 2017
 Modified on Aug 13, 2017
 """
 from __future__ import absolute_import
+import threading
 from abc import (ABCMeta, abstractmethod)
 from pytracer import *
 import pytracer.geometry as geo
@@ -41,6 +42,7 @@ class Shape(object, metaclass=ABCMeta):
 	"""
 
 	next_shapeId = 1
+	_id_lock = threading.Lock()
 
 	def __init__(self, o2w: 'trans.Transform', w2o: 'trans.Transform',
 	             ro: bool):
@@ -49,8 +51,9 @@ class Shape(object, metaclass=ABCMeta):
 		self.ro = ro
 		self.transform_swaps_handedness = o2w.swaps_handedness()
 
-		self.shapeId = Shape.next_shapeId
-		Shape.next_shapeId += 1
+		with Shape._id_lock:
+			self.shapeId = Shape.next_shapeId
+			Shape.next_shapeId += 1
 
 	def __repr__(self):
 		return "{}\nInstance Count: {}\nShape Id: {}" \
-- 
2.43.0


From f1e0b2ef1af0fe2bb57ae7a7f84a41d9b8dbec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 017/144] fix: reuse the samples of a measured material that is
 already loaded

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..a546bb3 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -431,7 +431,7 @@ class MeasuredMaterial(Material):
 		if ext == '.brdf' or ext == '.BRDF':
 			if file in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
 				return
 
 			# read file
-- 
2.43.0


From 5d2d300f37a28abb8c1d8fce151c7bf5d98f4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 018/144] fix: tell measured materials of one file name apart

---
 pytracer/material/material.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index a546bb3..9927688 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -429,9 +429,11 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			# files of one name may be kept in different places
+			key = os.path.abspath(filename)
+			if key in IrIsotropicData:
 				# already read
-				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[key]
 				return
 
 			# read file
@@ -482,7 +484,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[key] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From 1e7767ca6f9ac7657515f010b1cba36d971789cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 019/144] fix: evaluate image textures of colours

---
 pytracer/texture/texture/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..0004905 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -109,9 +109,9 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
 						type_ret is (float or FLOAT):
 			return texel
-- 
2.43.0


From c4cf828a270bcbd4d146a167f238b8e58c58a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 020/144] fix: tell colour and scalar textures of one image
 apart

---
 pytracer/texture/texture/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 0004905..07c662c 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -37,8 +37,9 @@ class ImageTexture(Texture):
 		texures.
 		"""
 
-		def __init__(self, filename: str, trilinear: bool, max_aniso: FLOAT, wrap: 'ImageWrap',
+		def __init__(self, type_mem: type, filename: str, trilinear: bool, max_aniso: FLOAT, wrap: 'ImageWrap',
 		             scale: FLOAT, gamma: FLOAT):
+			self.type_mem = type_mem
 			self.filename = filename
 			self.trilinear = trilinear
 			self.max_aniso = max_aniso
@@ -52,11 +53,12 @@ class ImageTexture(Texture):
 			            self.gamma)
 
 		def __hash__(self):
-			return hash((self.filename, self.trilinear, self.max_aniso, self.wrap,
+			return hash((self.type_mem, self.filename, self.trilinear, self.max_aniso, self.wrap,
 			             self.scale, self.gamma))
 
 		def __eq__(self, other):
-			return (self.filename == other.filename) and \
+			return (self.type_mem is other.type_mem) and \
+			       (self.filename == other.filename) and \
 			       (self.trilinear == other.trilinear) and \
 			       (self.max_aniso == other.max_aniso) and \
 			       (self.wrap == other.wrap) and \
@@ -126,7 +128,7 @@ class ImageTexture(Texture):
 	def get_texture(self, filename: str, trilinear: bool, max_aniso: FLOAT,
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
-		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
+		tex_info = ImageTexture.TexInfo(self.type_mem, filename, trilinear, max_aniso, wrap, scale, gamma)
 		if tex_info in ImageTexture.textures:
 			return ImageTexture.textures[tex_info]
 
-- 
2.43.0


From 9d8fda309a2e129347393bc5a5db146f9763fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 021/144] fix: use the one-valued texture for an image that
 cannot be read

---
 pytracer/texture/texture/image.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 07c662c..4122a4e 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -135,7 +135,7 @@ class ImageTexture(Texture):
 		try:
 			texels = iio.read_image(filename)
 			width, height = texels.shape[0:2]
-		except:
+		except Exception:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
 			texels = None
@@ -151,8 +151,10 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
-			ret = MIPMap(self.type_mem, val)
+			# not cached, the file may be readable later
+			val = np.empty([1, 1], dtype=object)
+			val[0, 0] = self.type_mem(scale ** gamma)
+			return MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[tex_info] = ret
 		return ret
-- 
2.43.0


From e14f61dd44e019099a1f267a0db846cb8f42f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 022/144] fix: build image pyramids of scalars

---
 pytracer/texture/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..9853c92 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -282,7 +282,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
@@ -320,7 +320,8 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		texel = l[s, t]
+		return texel.view(self.typename) if isinstance(texel, np.ndarray) else texel
 
 	@property
 	def width(self):
-- 
2.43.0


From 63f769221b65d1e5a6fe3dff9b693a135879215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 023/144] fix: keep the orientation of an image in all levels
 of its pyramid

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 9853c92..8122fff 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -291,10 +291,10 @@ class MIPMap(object):
 			u, v = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
-			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
+			self.__pyramid[i] = np.empty([s_res, t_res], dtype=object)
 			for t in range(t_res):
 				for s in range(s_res):
-					self.__pyramid[i][t, s] = \
+					self.__pyramid[i][s, t] = \
 						.25 * (self.texel(i - 1, 2 * s, 2 * t) +
 						       self.texel(i - 1, 2 * s + 1, 2 * t) +
 						       self.texel(i - 1, 2 * s, 2 * t + 1) +
-- 
2.43.0


From 58d12b9b59a633fb00bf9b27945bbc6d44698644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 024/144] fix: filter image textures over elliptic footprints

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 8122fff..eb2fba0 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -376,7 +376,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -393,7 +393,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(INT(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
-- 
2.43.0


From 6403176b6d7b29d6f75e74a6ab14e87a75302120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 025/144] fix: load image textures that are not square

---
 pytracer/texture/texture/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 4122a4e..6336c69 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -142,10 +142,10 @@ class ImageTexture(Texture):
 
 		if texels is not None:
 			if not isinstance(texels, self.type_mem):
-				conv = np.empty([height, width], dtype=object)
+				conv = np.empty([width, height], dtype=object)
 				for t in range(height):
 					for s in range(width):
-						conv[t, s] = ImageTexture.__convert__in__(texels[t, s], self.type_mem, scale, gamma)
+						conv[s, t] = ImageTexture.__convert__in__(texels[s, t], self.type_mem, scale, gamma)
 
 			ret = MIPMap(self.type_mem, conv, trilinear, max_aniso, wrap)
 
-- 
2.43.0


From 85b98f3699eddb69a0d806ee826d9b8204fa5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 026/144] fix: split a sampler into tiles that cover its pixels
 once

---
 pytracer/sampler/sampler/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..8196a9d 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,10 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		x = np.array([x0, x0 + 1]) / nx
+		y = np.array([y0, y0 + 1]) / ny
+		return np.floor(np.concatenate([util.lerp(x, self.xPixel_start, self.xPixel_end),
+		                                util.lerp(y, self.yPixel_start, self.yPixel_end)])).astype(int)
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From 5cb4e1ad43108bf1244ac01f12f5510026d67dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 027/144] fix: tell scattering types apart by their bits

---
 pytracer/reflection/bdf/bdf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..0de073d 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,18 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v)
+
+	def __eq__(self, other):
+		return self.v == (other.v if isinstance(other, BDFType) else other)
+
+	def __ne__(self, other):
+		return not self == other
+
+	def __hash__(self):
+		return hash(int(self.v))
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
-- 
2.43.0


From ba703348d769b426e2888fdcc96419a79beabe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 028/144] fix: return sampled directions in world space

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..82e9fe7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From dffddc40d87d1fa050e19f32a65c1b21ea53dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 029/144] fix: sample the cosine-weighted hemisphere

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..61d9649 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From a52db9decadd17846fdc9c27638b20082ce9c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 030/144] fix: reflect parallel polarised light at dielectrics
 as Fresnel says

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From 3db985a2248897242063ecfc0fdde898246ab6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 031/144] fix: refract from the side a ray comes from

---
 pytracer/reflection/bdf/bdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 0de073d..2d1a432 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -297,7 +297,8 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
+			# ray is on the inside
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -315,7 +316,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From e0bfff9124f1c39279346b9a1423cf64bcd50941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 032/144] fix: give the density of transmission made from
 reflection

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 2d1a432..cd8cd9b 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -202,6 +202,8 @@ class BRDF2BTDF(BDF):
 	# forward function calls
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.f(wo, self.switch(wi))
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.pdf(wo, self.switch(wi))
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
-- 
2.43.0


From 8bd401ba5b2904039ea617adb0d1b32232793f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 033/144] fix: mix materials

---
 pytracer/material/material.py  |  4 ++--
 pytracer/reflection/bdf/bdf.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 9927688..83afdf3 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -392,9 +392,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index cd8cd9b..3c13fb3 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -228,16 +228,20 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
+
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.bdf.pdf(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
-		return pdf, wi, self.s * f
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
+		if f is not None:
+			f = self.s * f
+		return pdf, wi, f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From 265c8eefbb71614637a6b7c24b98da6627499678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 034/144] fix: put the index of plastic and uber materials
 inside the surface

---
 pytracer/material/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 83afdf3..c481a22 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -176,7 +176,7 @@ class PlasticMaterial(Material):
 		# diffuse
 		kd = self.Kd(dgs).clip()
 		diff = Lambertian(kd)
-		fresnel = FresnelDielectric(1.5, 1.)
+		fresnel = FresnelDielectric(1., 1.5)
 
 		# glossy specular
 		ks = self.Ks(dgs).clip()
@@ -348,18 +348,18 @@ class UberMaterial(Material):
 		e = self.eta(dgs)
 		ks = op * self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			bsdf.push_back(SpecularReflection(kr, fresnel))
 
 		kt = op * self.Kt(dgs).clip()
 		if not kt.is_black():
-			bsdf.push_back(SpecularTransmission(kt, e, 1.))
+			bsdf.push_back(SpecularTransmission(kt, 1., e))
 
 		return bsdf
 
-- 
2.43.0


From 8bc7ed3ffb551fe65592d472eb8a35d820ff267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 035/144] fix: keep the footprint of a shading point in its
 copies

---
 pytracer/geometry/diffgeom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..5133802 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,11 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
+		dg.dpdx, dg.dpdy = self.dpdx.copy(), self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 6dd17289321ae0ba1edbac2530e6f5497698327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 036/144] fix: take the direction of a reflectance estimate in
 world space

---
 pytracer/reflection/bsdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 82e9fe7..03ca8f7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -233,6 +233,7 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 
+		wo = self.w2l(wo)
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
 			if bdf.match_flag(flags):
-- 
2.43.0


From 61a3f4440a69be75f3eaff3ed83f7b34056d2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 037/144] fix: keep glossy reflection on one side of a surface

---
 pytracer/reflection/bdf/fresnelblend.py | 4 ++++
 pytracer/reflection/bdf/torrance.py     | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index a9abf7b..1440709 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -61,6 +61,10 @@ class FresnelBlend(BDF):
 		return .5 * (abs_cos_theta(wi) * INV_PI + self.distribution.pdf(wo, wi))
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
+		if wo.z * wi.z <= 0.:
+			# not on the same hemisphere
+			return Spectrum(0.)
+
 		diffuse = (28. / (23. * PI)) * self.Rd * \
 		          (Spectrum(1.) - self.Rs) * \
 		          (1. - np.power(1. - .5 * abs_cos_theta(wi), 5)) * \
diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..4c10f36 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -201,7 +201,8 @@ class Microfacet(BDF):
 		ct_i = cos_theta(wi)
 		ct_o = cos_theta(wo)
 
-		if ct_i == 0. or ct_o == 0.:
+		if ct_i * ct_o <= 0.:
+			# not on the same hemisphere
 			return Spectrum(0.)
 
 		wh = geo.normalize(wi + wo)
-- 
2.43.0


From caf2b1ad9c6214e9ca6b5644569fd555477468e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 038/144] fix: drop glossy samples on the other side of a
 surface

---
 pytracer/reflection/bdf/fresnelblend.py | 2 +-
 pytracer/reflection/bdf/torrance.py     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index 1440709..58db4e0 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -52,7 +52,7 @@ class FresnelBlend(BDF):
 			pdf, wi = self.distribution.sample_f(wo, u1, u2)
 			if wo.z * wi.z <= 0.:
 				# not on the same hemisphere
-				return [pdf, wi, Spectrum(0.)]
+				return [0., wi, Spectrum(0.)]
 		return [self.pdf(wo, wi), wi, self.f(wo, wi)]
 
 	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT:
diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 4c10f36..97d5db5 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -220,7 +220,8 @@ class Microfacet(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		pdf, wi = self.distribution.sample_f(wo, u1, u2)
 		if wi.z * wo.z <= 0.:
-			return [pdf, wi, Spectrum(0.)]
+			# not on the same hemisphere
+			return [0., wi, Spectrum(0.)]
 		return [pdf, wi, self.f(wo, wi)]
 
 	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT:
-- 
2.43.0


From 185a2e2c07744d90437b395fd5312fbcb28407ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 039/144] fix: never sample a step of zero probability

---
 pytracer/montecarlo/distribution.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..c1b04d3 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -44,6 +44,16 @@ class Distribution1D(object):
 	def __repr__(self):
 		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
 
+	def offset(self, u: FLOAT) -> INT:
+		"""
+		offset()
+
+		The step that the random sample `u`
+		falls in, never one of zero probability.
+		"""
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		return min(max(0, idx), self.cnt - 1)
+
 	def sample_cont(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
 		sample_cont()
@@ -54,8 +64,7 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		off = self.offset(u)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
@@ -74,8 +83,7 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		off = self.offset(u)
 
 		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
 
-- 
2.43.0


From 982b5db998dd0db6bdd851e46c1c129e8e882763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 040/144] fix: sample both coordinates of a distribution
 continuously

---
 pytracer/montecarlo/distribution.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index c1b04d3..017cc86 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -128,9 +128,7 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
-
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[self.p_marg_v.offset(u1)].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From 016c0a40647640f8c9e6665183f4b38995bab92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 041/144] fix: sample a cone of directions

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 61d9649..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -217,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From f681857ea5095139400afabab674dec71ee2df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 042/144] fix: sample the area of a sphere

---
 pytracer/shape/sphere.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..53345bb 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -44,16 +44,12 @@ class Sphere(Shape):
 		"""
 		account for partial sphere
 		"""
-		from pytracer.montecarlo import uniform_sample_sphere
-		v = uniform_sample_sphere(u1, u2)
+		# equal heights have equal areas
+		z = util.lerp(u1, self.zmin, self.zmax)
+		r = np.sqrt(max(0., self.radius * self.radius - z * z))
+		phi = u2 * self.phiMax
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(r * np.cos(phi), r * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
-- 
2.43.0


From dc93371ee1fdca47f867a3c15bbfdd2666db6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 043/144] fix: sample only the part of a sphere that is there

---
 pytracer/shape/sphere.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 53345bb..f73fdf9 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -71,6 +71,9 @@ class Sphere(Shape):
 		"""
 		raise NotImplementedError('Intersecable shapes are not refineable')
 
+	def __partial(self) -> bool:
+		return self.zmin > -self.radius or self.zmax < self.radius or self.phiMax < 2. * PI
+
 	def sample_p(self, pnt: 'geo.Point', u1: FLOAT, u2: FLOAT) -> ['geo.Point', 'geo.Normal']:
 		"""
 		uniformly sample the sphere
@@ -83,7 +86,7 @@ class Sphere(Shape):
 		_, wc_x, wc_y = geo.coordinate_system(wc)
 
 		# sample uniformly if p is inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		if self.__partial() or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return self.sample(u1, u2)
 
 		# sample inside subtended cone
@@ -108,7 +111,7 @@ class Sphere(Shape):
 	def pdf_p(self, pnt: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
 		ctr = self.o2w(geo.Point(0., 0., 0.))
 		# return uniform weight if inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		if self.__partial() or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return super().pdf_p(pnt, wi)
 
 		# general weight
-- 
2.43.0


From 3008f2b9e465e7c899afe62e4a333ac2b71e49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 044/144] fix: sample the area of a disk

---
 pytracer/shape/disk.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..400edf9 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,12 +44,16 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * PI
+		phi *= self.phiMax * INV_2PI
+		inner_sq = self.inner_radius * self.inner_radius
+		r = np.sqrt(inner_sq + (x * x + y * y) * (self.radius * self.radius - inner_sq))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From 03fc67ff527e803348c7886764ea32223d7f5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 045/144] fix: sample a triangle between its own vertices

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..dfecf2b 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -148,7 +148,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From 526bb7ec59448a2f94c2309d9b9584538ca4596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 046/144] fix: sample a triangle on the side its hits report

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index dfecf2b..350d409 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -155,7 +155,7 @@ class Triangle(Shape):
 			(self.mesh.p[self.mesh.vertexIndex[self.v+1]] - self.mesh.p[self.mesh.vertexIndex[self.v]]) \
 				.cross(self.mesh.p[self.mesh.vertexIndex[self.v+2]] - self.mesh.p[self.mesh.vertexIndex[self.v]])))
 
-		if self.ro:
+		if self.ro ^ self.transform_swaps_handedness:
 			Ns *= -1.
 
 		return [p, Ns]
-- 
2.43.0


From 4a4804019496d7c5037c8201c2996aaed34817ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 047/144] fix: take the density of a set of shapes from the
 closest one

---
 pytracer/light/utility.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..9dc97b0 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -126,10 +126,20 @@ class ShapeSet(object):
 		return [pt, ns]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
-		pdf = 0.
-		for i, sh in enumerate(self.shapes):
-			pdf += self.areas[i] * sh.pdf_p(p, wi)
-		return pdf / self.sum_area
+		# only the closest shape is seen along `wi`
+		closest = 0
+		if len(self.shapes) > 1:
+			closest = None
+			t_min = np.inf
+			ray = geo.Ray(p, wi, EPS)
+			for i, sh in enumerate(self.shapes):
+				hit, thit, _, _ = sh.intersect(ray)
+				if hit and thit < t_min:
+					closest = i
+					t_min = thit
+			if closest is None:
+				return 0.
+		return self.areas[closest] * self.shapes[closest].pdf_p(p, wi) / self.sum_area
 
 	def pdf_p(self, p: 'geo.Point') -> FLOAT:
 		pdf = 0.
-- 
2.43.0


From 151e9b54f61f1169109f360b54da0a9b2b2e20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 048/144] fix: parametrise a disk by the distance from its rim

---
 pytracer/shape/disk.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 400edf9..987fcba 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -97,14 +97,15 @@ class Disk(Shape):
 		# otherwise ray hits the disk
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
-		          (self.radius - self.inner_radius))
+		rho = np.sqrt(dt2)
+		if rho == 0.:
+			# the center is seen along phi = 0
+			rho = phit.x = EPS * self.radius
+		v = (self.radius - rho) / (self.radius - self.inner_radius)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(-phit.x, -phit.y, 0.) * ((self.radius - self.inner_radius) / rho)
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From 48929fba73600cbfe573cb6d74cba510f68a99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 049/144] fix: let v span a sphere from 0 to 1

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index f73fdf9..920e872 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -186,7 +186,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From efda8b29647093d979910e1bbbb9e212e3a19bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 050/144] fix: do not print every shadow ray that meets a
 sphere

---
 pytracer/shape/sphere.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 920e872..e3f4599 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -248,7 +248,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From f1a8b9a50dd8ad0dc0ed06060db7fdb2c6461ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 051/144] fix: map triangles by the parameters of their own
 vertices

---
 pytracer/shape/triangle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 350d409..3319932 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,10 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			v1, v2, v3 = self.mesh.vertexIndex[self.v: self.v+3]
+			return [[self.mesh.uvs[2 * v1], self.mesh.uvs[2 * v1 + 1]],
+			        [self.mesh.uvs[2 * v2], self.mesh.uvs[2 * v2 + 1]],
+			        [self.mesh.uvs[2 * v3], self.mesh.uvs[2 * v3 + 1]]]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
-- 
2.43.0


From cdf8f22f06c7e8bc4c3cb50a1ebee85c5850d68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 052/144] fix: shade triangles with the normals of their own
 vertices

---
 pytracer/shape/triangle.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 3319932..0ad4110 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -340,17 +340,18 @@ class Triangle(Shape):
 			b = [1. - b[0] - b[1], b[0], b[1]]
 
 		# compute shading tangents
+		v1, v2, v3 = self.mesh.vertexIndex[self.v: self.v+3]
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[v1] +
+			                   b[1] * self.mesh.n[v2] +
+			                   b[2] * self.mesh.n[v3]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[v1] +
+			                   b[1] * self.mesh.s[v2] +
+			                   b[2] * self.mesh.s[v3]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From 718cb636fadbf8c4e19ddb21cd4eb12815e70a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 053/144] fix: shade meshes that have normals but no tangents

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 0ad4110..b47d670 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -323,7 +323,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
-- 
2.43.0


From da4b53db09fe4afac3cb3ee8c594410b991e170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 054/144] fix: look up the alpha texture of a mesh

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index b47d670..c4264d9 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -237,7 +237,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return [False, None, None, None]
 
 		# have a hit
@@ -309,7 +309,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return False
 
 		# have a hit
-- 
2.43.0


From 596070408269cd7e41149481d7504a75557f6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 055/144] fix: shade mirrored and reversed meshes on the side
 of their normals

---
 pytracer/shape/triangle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index c4264d9..bd12f0a 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -345,6 +345,8 @@ class Triangle(Shape):
 			ns = geo.normalize(o2w(b[0] * self.mesh.n[v1] +
 			                   b[1] * self.mesh.n[v2] +
 			                   b[2] * self.mesh.n[v3]))
+			if self.ro:
+				ns *= -1.
 		else:
 			ns = dg.nn
 
@@ -362,6 +364,10 @@ class Triangle(Shape):
 		else:
 			_, ss, ts = geo.coordinate_system(ns)
 
+		if self.ro ^ self.transform_swaps_handedness:
+			# keep `ns` when the geometry adjusts for handedness
+			ts *= -1.
+
 		# compute dndu and dndv
 		if self.mesh.n is not None:
 			du1 = uvs[0][0] - uvs[2][0]
-- 
2.43.0


From 6c54398604b645506ba5891fbd9498314c961c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 056/144] fix: sample a triangle on the side its parameters
 give

---
 pytracer/shape/triangle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index bd12f0a..19374ef 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -159,6 +159,12 @@ class Triangle(Shape):
 		if self.ro ^ self.transform_swaps_handedness:
 			Ns *= -1.
 
+		# the parameters may run the other way round the triangle
+		uvs = self.get_uvs()
+		if (uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) <= \
+				(uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1]):
+			Ns *= -1.
+
 		return [p, Ns]
 
 	def __getitem__(self, item):
-- 
2.43.0


From 494ebb42feb6856e717352d35f4a8ca5d8c3816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 057/144] fix: let a light be asked for its power in a scene

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 0e97a6b5c741106ead112e99509df4891cb4b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 058/144] fix: leave lights along the sampled ray

---
 pytracer/light/light.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..25e8e07 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -137,7 +137,7 @@ class PointLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -199,7 +199,7 @@ class SpotLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -307,7 +307,7 @@ class ProjectionLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -391,7 +391,7 @@ class GonioPhotometricLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -440,7 +440,7 @@ class DistantLight(Light):
 
 		# set ray
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-- 
2.43.0


From d220e79fe3d126e84eed5311f0dcec622e774747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 059/144] fix: dim spotlights by their falloff and distance

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 25e8e07..3509e54 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From cdad727175265ba6639b0c93c4e6b63f00aac75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 060/144] fix: shadow distant lights

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 3509e54..260102e 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -422,7 +422,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From 781e2c55c61288a8168300ca1a79c85f183606ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 061/144] fix: take the power of an area light from its whole
 area

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 260102e..ff52244 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -492,7 +492,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
-- 
2.43.0


From 1043f7c1c147998573c36845a1005acd3f0f230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 062/144] fix: give the density of rays that leave an area
 light

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ff52244..5de9a73 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -526,7 +526,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From ff8d4ac01ac7f477d982d5f52e4cfca3de330da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 063/144] fix: do not see an area light where there is nothing

---
 pytracer/light/light.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 5de9a73..a156d3d 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -494,10 +494,6 @@ class DiffuseAreaLight(Light):
 		self.shape_set = ShapeSet(shape)
 		self.area = self.shape_set.sum_area
 
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
-
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit if n.dot(w) > 0. else Spectrum(0.)
 
-- 
2.43.0


From bdd4a4a2a37cc947c9711d99d75de0ab13ce82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 064/144] fix: do not hand out the emission of a light for its
 callers to change

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index a156d3d..036e763 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -139,7 +139,7 @@ class PointLight(Light):
 						0., np.inf, time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
-		return [ray, Ns, pdf, self.intensity]
+		return [ray, Ns, pdf, self.intensity.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -442,7 +442,7 @@ class DistantLight(Light):
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
-		return [ray, Ns, pdf, self.l]
+		return [ray, Ns, pdf, self.l.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -495,7 +495,7 @@ class DiffuseAreaLight(Light):
 		self.area = self.shape_set.sum_area
 
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
-		return self.emit if n.dot(w) > 0. else Spectrum(0.)
+		return self.emit.copy() if n.dot(w) > 0. else Spectrum(0.)
 
 	# TODO use MCMC
 	# def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
-- 
2.43.0


From 7f665e9c9177047bad5fa0d9fa605dade9f0e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 065/144] fix: give rays that leave a light their time

---
 pytracer/light/light.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 036e763..73b0b06 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,7 +136,7 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity.copy()]
@@ -198,7 +198,7 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
@@ -306,7 +306,7 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
@@ -390,7 +390,7 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
@@ -439,7 +439,7 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l.copy()]
@@ -521,7 +521,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -655,7 +655,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From 0e5da76ca5bf644cb0c47b25f76fdae3ac52d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 066/144] fix: do not stretch the time of a camera sample over
 the shutter twice

---
 pytracer/camera/projective.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..6b3f459 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -171,7 +171,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
-- 
2.43.0


From ea379c10c99f16fd108e809f28f758a104a1f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 067/144] fix: do not move the rays of an orthographic camera
 into the world twice

---
 pytracer/camera/projective.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 6b3f459..67d1881 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -114,15 +114,18 @@ class OrthoCamera(ProjectiveCamera):
 		"""
 		Generate ray differential.
 		"""
+		if self.lens_rad > 0.:
+			# rays of one lens point toward the points in focus
+			return super().generate_ray_differential(sample)
+
 		wt, rd = self.generate_ray(sample)
 		rd = geo.RayDifferential.from_ray(rd)
 
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
+		# find ray shift along x, in world space like the ray
+		rd.rxOrigin = rd.o + self.c2w(float(rd.time), self.dxCam)
+		rd.ryOrigin = rd.o + self.c2w(float(rd.time), self.dyCam)
 		rd.rxDirection = rd.ryDirection = rd.d
 		rd.has_differentials = True
-		rd = self.c2w(rd)
 
 		return [wt, rd]
 
-- 
2.43.0


From c4b4c511bfa0326e2ef330e8853e1cdc923710bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 068/144] fix: shift a copy of the camera sample for ray
 differentials

---
 pytracer/camera/camera.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..5767ad8 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -8,6 +8,7 @@ Modified on Aug 13, 2017
 """
 from __future__ import absolute_import
 from abc import (ABCMeta, abstractmethod)
+from copy import copy
 from pytracer import *
 import pytracer.geometry as geo
 import pytracer.transform as trans
@@ -52,16 +53,14 @@ class Camera(object, metaclass=ABCMeta):
 		rd = geo.RayDifferential.from_ray(rd)
 
 		# find ray shift along x
-		from pytracer.sampler import CameraSample
-		
-		xshift = sample.duplicate(1)[0]
+		xshift = copy(sample)
 		xshift.imageX += 1
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
+		yshift = copy(sample)
 		yshift.imageY += 1
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
-- 
2.43.0


From ae675c09984bc86a9bc5e8cc14afe2942f18eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 069/144] fix: give the rays of an environment camera their
 time, not a depth

---
 pytracer/camera/environment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..c296803 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,13 +31,11 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
-
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
 		phi = 2 * np.pi * sample.imageX / self.film.xResolution
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, sample.time))
 		return [1., ray]
-- 
2.43.0


From 6b2be93696f028d7e4a35a2c72ff106ff7f9ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 070/144] fix: give the rays of a pinhole camera unit
 directions and their time

---
 pytracer/camera/projective.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 67d1881..43d4d38 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,9 +29,8 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(pp - p)
-		p = self.c2w.startTransform(p)
-		return 1., geo.Ray(p, d)
+		ray = geo.Ray(p, geo.normalize(pp - p), 0., np.inf, 0, sample.time)
+		return [1., self.c2w(ray)]
 
 
 class ProjectiveCamera(Camera):
-- 
2.43.0


From 639857b536a513cd89219bfd431a5a03d9b9b268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 071/144] fix: move the offset rays along with the ray they
 belong to

---
 pytracer/camera/projective.py  | 2 +-
 pytracer/transform/__init__.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 43d4d38..1f655e2 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -228,8 +228,8 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
 		ray.time = sample.time
-		ray = self.c2w(ray)
 		ray.has_differentials = True
+		ray = self.c2w(ray)
 
 		return [1., ray]
 
diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..d848494 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,11 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			if r.has_differentials:
+				r.rxOrigin = self(arg.rxOrigin, dtype=geo.Point)
+				r.ryOrigin = self(arg.ryOrigin, dtype=geo.Point)
+				r.rxDirection = self(arg.rxDirection, dtype=geo.Vector)
+				r.ryDirection = self(arg.ryDirection, dtype=geo.Vector)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From efc95e4ea197fc9fd745a1b49fc8aed66ce4089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 072/144] fix: make look_at look at its target

---
 pytracer/transform/__init__.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index d848494..3c1f30e 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -209,31 +209,31 @@ class Transform(object):
 
 		# c2w rotation
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[1][0] = xc.y
+		c2w[2][0] = xc.z
+		c2w[0][1] = yc.x
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[2][1] = yc.z
+		c2w[0][2] = zc.x
+		c2w[1][2] = zc.y
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[1][0] = yc.x
+		w2c[2][0] = zc.x
+		w2c[0][1] = xc.y
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[2][1] = zc.y
+		w2c[0][2] = xc.z
+		w2c[1][2] = yc.z
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From 8815200a7bc7538081b30f5bfb62b1dc6a1a5d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 073/144] fix: turn rotations into unit quaternions

---
 pytracer/transform/quat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..c3d48ca 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From f465469c636bdb0472516995226f4bb72c7fab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 074/144] fix: turn a moving transform through the smaller
 angle

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 3c1f30e..36a58bb 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -285,6 +285,10 @@ class AnimatedTransform(object):
 		if self.animated:
 			self.T[0], self.R[0], self.S[0] = AnimatedTransform.decompose(t1.m)
 			self.T[1], self.R[1], self.S[1] = AnimatedTransform.decompose(t2.m)
+			# of the two ways between the rotations, take the shorter
+			from pytracer.transform.quat import dot
+			if dot(self.R[0], self.R[1]) < 0.:
+				self.R[1] = -self.R[1]
 
 	def __repr__(self):
 		return "{}\nTime: {} - {}\nAnimated: {}".format(self.__class__,
-- 
2.43.0


From 6fb36bce19583cb930a82b35b4081f08d96c0d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 075/144] fix: map the lower and left quarters of the square
 onto the disk unmirrored

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 6705cdc..8a7a9dc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. + sx / r
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. - sy / r
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From 44baab48897ad7f6707c3bcac6ae61f0f2badbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 076/144] fix: use the radiance, not the transmittance, of
 refracted rays

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..049e80b 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 2f5c9bfcd73bc9fb5a574aef899ca2ca8cfeca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 077/144] fix: do not let reflected rays overwrite the hit they
 started from

---
 pytracer/integrator/utility.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 049e80b..f48eed6 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,8 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		# the hit of this ray must stay as it is
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +159,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +197,8 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		# the hit of this ray must stay as it is
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From cc5010525e91e61c8053ec2e1ce2f561bb14af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 078/144] fix: add the light found by sampling the BSDF to the
 direct lighting

---
 pytracer/integrator/utility.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index f48eed6..998cc20 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -213,6 +213,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 	Estimate direct lighting
 	using MC Multiple Importance Sampling.
 	"""
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import BDFType
 	Ld = Spectrum(0.)
 	# sample light source
@@ -238,25 +239,25 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not smp_type & BDFType.SPECULAR:  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+			# add contribution
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() is light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From a6e17715909837a8a4191aff153775304a901097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 079/144] fix: sample one light with the samples requested for
 it

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From 1e2ac2113518844fdd57102b539e15e9bfa9488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 080/144] fix: end a path of no weight for every random number

---
 pytracer/integrator/surface/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..58d5217 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -116,7 +116,7 @@ class PathIntegrator(SurfaceIntegrator):
 			# possibly terminate
 			if bounce_cnt > PathIntegrator.SAMPLE_DEPTH:
 				cont_prob = min(.5, path_throughput.y())	# high prob for terminating for low contribution paths
-				if rng() > cont_prob:
+				if rng() >= cont_prob:
 					break
 
 				# otherwise apply Russian roulette
-- 
2.43.0


From 5f1f9a6a269a90154d26f52d8a2381cfb875d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 081/144] fix: let camera rays that hit nothing see the lights
 around the scene

---
 pytracer/renderer/renderer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..39c09da 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -165,16 +165,15 @@ class SamplerRendererTask(object):
 				wt, rays[i] = self.camera.generate_ray_differential(sample)
 				rays[i].scale_differential(1. / np.sqrt(sampler.spp))
 
-				hit = self.scene.intersect_p(rays[i])
-
 				if self.vis_obj_id:
+					hit = self.scene.intersect_p(rays[i])
 					if hit and wt > 0.:
 						# random shading
 						Ls[i] = Spectrum.from_rgb([1., 1., 1.])
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From 1381dd8dacaba0293a7d45acf2e84a744abfe082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 082/144] fix: keep infinite radiance of either sign off the
 film

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 39c09da..0f6c9a5 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -187,7 +187,7 @@ class SamplerRendererTask(object):
 				elif Ls[i].y() < -EPS:
 					util.logging('Error', 'Negative luminance {} returned, setting to black.'.format(Ls[i].y()))
 					Ls[i] = Spectrum(0.)
-				elif Ls[i].y() == np.inf:
+				elif not np.isfinite(Ls[i]).all():
 					util.logging('Error', 'Infinite luminance returned, setting to balck.')
 					Ls[i] = Spectrum(0.)
 
-- 
2.43.0


From 2734a6f0719239a1d149cd5b8b8c1057b270793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 083/144] fix: take noise from all of its gradients

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index eb2fba0..5b45434 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
-- 
2.43.0


From bbec451ca1cf43907bbd3bbc4bc8cd03fe597fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 084/144] fix: interpolate noise along y by the weight of y

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 5b45434..32ee232 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From 3da1a46a24c8b43b45463eff5986b4cb4cc0330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 085/144] fix: add up the octaves of Brownian motion

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 32ee232..796e205 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From e330c54eac299cd51cb87d3e0b6cb7d1ca451305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 086/144] fix: let a smooth step run from 0 to 1 between its
 bounds

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 796e205..c21cbc6 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
-- 
2.43.0


From 41de6a3b51e99c716c77e850df3240d474a80943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 087/144] fix: paint the inside of dots

---
 pytracer/texture/texture/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..27ce61a 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -217,17 +217,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise((sc + .5, tc + .5, .5)) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise((sc + 1.5, tc + 2.8, .5))
+			t_ctr = tc + max_shift * noise((sc + 4.5, tc + 9.8, .5))
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
-
+				return self.inside_dot(dg)
 
 		return self.outside_dot(dg)
 
-- 
2.43.0


From be33c633b6f8c73abebf2ee744fbaa8b9be6774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 088/144] fix: weigh the checks by their share of the footprint

---
 pytracer/texture/texture/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 27ce61a..d4e3260 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -173,10 +173,10 @@ class Chekcerboard2DTexture(Texture):
 			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
 				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From feda9b2e0f1df9124fdfabb866ad96050b4eae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 089/144] fix: filter checkerboards over footprints without
 extent along one axis

---
 pytracer/texture/texture/__init__.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index d4e3260..a56f2d9 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -167,12 +167,19 @@ class Chekcerboard2DTexture(Texture):
 
 			## box filtering check region
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
-			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
-				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
-			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
-				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
+			# a footprint may have no extent along one axis
+			if ds > 0.:
+				si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
+				      (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
+				     (2. * ds)
+			else:
+				si = util.ftoi(s) % 2
+			if dt > 0.:
+				ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
+				      (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
+				     (2. * dt)
+			else:
+				ti = util.ftoi(t) % 2
 			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-- 
2.43.0


From 5c855ff43e4364a47cf0d081b0c091a40c7cd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 090/144] fix: take the change of t along y from t

---
 pytracer/texture/texturemap/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..549b9e4 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -84,7 +84,7 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
@@ -123,7 +123,7 @@ class CylindricalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
-- 
2.43.0


From 16992e1d9d14aa3182549c107a0e046eeee206f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 091/144] fix: cross the seam of spherical and cylindrical
 mappings

---
 pytracer/texture/texturemap/__init__.py | 36 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 549b9e4..5b7ea8f 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -76,19 +76,21 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
+		dtdx = tx - t
 		if dtdx > .5:
-			dtdx = 1. - dtdx
+			dtdx -= 1.
 		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+			dtdx += 1.
+		dtdx /= delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - t) / delta
+		dtdy = ty - t
 		if dtdy > .5:
-			dtdy = 1. - dtdy
+			dtdy -= 1.
 		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+			dtdy += 1.
+		dtdy /= delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -114,20 +116,22 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
+		dsdx = sx - s
+		if dsdx > .5:
+			dsdx -= 1.
+		elif dsdx < -.5:
+			dsdx += 1.
+		dsdx /= delta
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
+		dsdy = sy - s
+		if dsdy > .5:
+			dsdy -= 1.
+		elif dsdy < -.5:
+			dsdy += 1.
+		dsdy /= delta
 		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From f555a36cb3901dff271676a989d3d2e3c786cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 092/144] fix: map points onto a cylinder

---
 pytracer/texture/texturemap/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 5b7ea8f..4f499ee 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -106,7 +106,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
-- 
2.43.0


From 8bbca661cf4c8edea1bb0d0708c76f019a55e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 093/144] fix: colour marble along its spline

---
 pytracer/texture/texture/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index a56f2d9..2fc4cb0 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -301,7 +301,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -312,19 +312,19 @@ class MarbleTexture(Texture):
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
 		from pytracer.texture.utility import FBm
 		p, dpdx, dpdy = self.mapping(dg)
-		p *= self.scale
+		p = self.scale * p
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
 		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
 		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
+		fst = min(util.ftoi(t * (self.spline_num - 3)), self.spline_num - 4)
 		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From d7b00d3c625212b5081f2c0b4ed41ce320cd6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 094/144] fix: step along v when a bump mapped point has no
 footprint

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index c481a22..b81a504 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
-- 
2.43.0


From a13b265d2b3e6cd09ecb84d04d1b3e1c4a5898b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 095/144] fix: add the derivatives of the normal to a bump
 mapped surface

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index b81a504..5405aea 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -87,8 +87,8 @@ class Material(object, metaclass=ABCMeta):
 		dg = dgs.copy()
 
 		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
-- 
2.43.0


From 7f202e3f68de772899854b20e6ae9f3af04fdde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 096/144] fix: turn bump mapped normals to the side of the
 geometric normal

---
 pytracer/geometry/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/geometry/utility.py b/pytracer/geometry/utility.py
index 7b2d03b..9a03914 100644
--- a/pytracer/geometry/utility.py
+++ b/pytracer/geometry/utility.py
@@ -73,14 +73,14 @@ def normalize(vec: 'Vector') -> 'Vector':
 	return n
 
 
-def face_forward(n: 'Normal', v: 'Vector') -> 'Normal':
+def face_forward(n: 'Normal', v: ('Vector', 'Normal')) -> 'Normal':
 	"""
 	face_forward
 
-	Flip a `Normal` according to a `Vector` such that
+	Flip a `Normal` according to a `Vector` or `Normal` such that
 	they make an angle less than pi
 	"""
-	if not isinstance(n, Normal) or not isinstance(v, Vector):
+	if not isinstance(n, Normal) or not isinstance(v, (Vector, Normal)):
 		raise TypeError('Argument type error')
 
 	if np.dot(n, v) < 0.:
-- 
2.43.0


From fcc4e01085d1f02b2e059a3d0e9ec8f2d1f5089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 097/144] fix: read the images of lights

---
 pytracer/light/light.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 73b0b06..cea21ce 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -233,13 +233,13 @@ class ProjectionLight(Light):
 		# create a MIPMap
 		try:
 			import pytracer.utility.imageio as iio
-			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
-		except:
+			texels = iio.read_image(texname).astype(FLOAT)
+			width, height = np.shape(texels)[0:2]
+		except Exception:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -342,9 +342,9 @@ class GonioPhotometricLight(Light):
 		# create a MIPMap
 		try:
 			import pytracer.utility.imageio as iio
-			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
-		except:
+			texels = iio.read_image(texname).astype(FLOAT)
+			width, height = np.shape(texels)[0:2]
+		except Exception:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None		
@@ -555,9 +555,9 @@ class InfiniteAreaLight(Light):
 		if texmap is not None:
 			try:
 				import pytracer.utility.imageio as iio
-				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
-			except:
+				texels = iio.read_image(texmap).astype(FLOAT)
+				width, height = np.shape(texels)[0:2]
+			except Exception:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
 				texels = np.array([[l.to_rgb()]])
-- 
2.43.0


From 73576fec98fe26cd2691009af553c3c757c7dcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 098/144] fix: project the image of a light

---
 pytracer/light/light.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index cea21ce..9e4eedd 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -321,8 +321,10 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
-					self.intensity * 2. * PI * (1. - self.cos_width)
+		mean = Spectrum(1.)
+		if self.projMap is not None:
+			mean = Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return mean * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From 1c4c85d5d8ee016d928f2077197b49b0de77f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 099/144] fix: let the cone of a projector cover wide images

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 9e4eedd..899e7b7 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + max(aspect, 1. / aspect) ** 2)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
-- 
2.43.0


From aaac034ed9370b6df8e7ca80be2c06d4b614f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 100/144] fix: scale goniophotometric lights by their image

---
 pytracer/light/light.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 899e7b7..2f39eea 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -379,7 +379,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -387,7 +387,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -400,7 +400,10 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		mean = Spectrum(1.)
+		if self.MIPMap is not None:
+			mean = Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * mean
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From cf8dc829d623e514a2740456d01594499a19a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 101/144] fix: look up the background of an environment

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 2f39eea..5ebc17a 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -592,7 +592,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
-- 
2.43.0


From cb98070c891ceec53f9b2247313a4198cdccb228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 102/144] fix: give the density of a direction to an
 environment

---
 pytracer/light/light.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 5ebc17a..d546eff 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -629,8 +629,7 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / (2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From 8168b60d9d4d89b1ebad75dc933f5c28fc7119de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 103/144] fix: sample rays that leave an environment

---
 pytracer/light/light.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index d546eff..348606c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -654,19 +654,17 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
+		dir_pdf = pdf / (2. * PI * PI * st) if st != 0. else 0.
 		area_pdf = 1. / (PI * rad * rad)
 		pdf = dir_pdf * area_pdf
-		if st == 0.:
-			pdf == 0.
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 1b0b5ef2954a1a4ea122266b8a6e4d0dd6dcf711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 104/144] fix: sample the poles of an environment

---
 pytracer/light/light.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 348606c..e34b4b1 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -612,7 +612,8 @@ class InfiniteAreaLight(Light):
 		# compute pdf for sampled inf light direction
 		if st == 0.:
 			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
+		else:
+			pdf = pdf / (2. * PI * PI * st)
 
 
 		# return radiance value
-- 
2.43.0


From 326ef62265484d9de8db8a9fc889d2fecee7d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 105/144] fix: scale the image of an environment by its
 radiance

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e34b4b1..60864ea 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -560,7 +560,7 @@ class InfiniteAreaLight(Light):
 		if texmap is not None:
 			try:
 				import pytracer.utility.imageio as iio
-				texels = iio.read_image(texmap).astype(FLOAT)
+				texels = iio.read_image(texmap) * l.to_rgb()
 				width, height = np.shape(texels)[0:2]
 			except Exception:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
-- 
2.43.0


From 7f974d71d4bdff403e3ca6af149e5cfe6d4e87a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 106/144] fix: sample every direction an environment shines
 from

---
 pytracer/light/light.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 60864ea..e789b24 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -576,14 +576,12 @@ class InfiniteAreaLight(Light):
 		# init sampling PDFs <725>
 		# compute image for envir. map
 		img = np.empty([height, width], dtype=FLOAT)
-		filt = 1. / max(width, height)
-
 		for v in range(height):
-			vp = v / height
 			st = np.sin(PI * (v + .5) / height)
 			for u in range(width):
-				up = u / width
-				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
+				# mean over the cell of what `le()` interpolates in it
+				img[v][u] = st * .25 * sum(self.radMap.look_up([(u + du) / width, (v + dv) / height]).y()
+				                           for du in (.25, .75) for dv in (.25, .75))
 
 		# compute sampling distribution
 		self.dist = mc.Distribution2D(img)
-- 
2.43.0


From 50fcf0cfd34f21c7dfb0e30d5c4bac60e2fca87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:00 +0000
Subject: [PATCH 107/144] fix: sample a function that is zero everywhere

---
 pytracer/montecarlo/distribution.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index 017cc86..4fbcb9a 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -39,7 +39,11 @@ class Distribution1D(object):
 
 		# transform step function into CDF
 		self.cdf_raw = self.cdf[-1]
-		self.cdf /= self.cdf_raw
+		if self.cdf_raw == 0.:
+			# nothing to prefer
+			self.cdf = np.linspace(0., 1., self.cnt + 1)
+		else:
+			self.cdf /= self.cdf_raw
 
 	def __repr__(self):
 		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
@@ -71,7 +75,8 @@ class Distribution1D(object):
 
 		# compute pdf for sampled offset
 		# and r.v. value
-		return [(du + off) / self.cnt, self.func[off] / self.cdf_raw]
+		pdf = self.func[off] / self.cdf_raw if self.cdf_raw != 0. else 0.
+		return [(du + off) / self.cnt, pdf]
 
 	def sample_dis(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
@@ -85,7 +90,8 @@ class Distribution1D(object):
 		# surrounding CDF segment
 		off = self.offset(u)
 
-		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
+		pdf = self.func[off] / (self.cdf_raw * self.cnt) if self.cdf_raw != 0. else 0.
+		return [off, pdf]
 
 
 class Distribution2D(object):
-- 
2.43.0


From 8a5253492c5ab728ba6128902ba3e7c4d1615b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 108/144] fix: intersect volume regions in their own frame

---
 pytracer/volume/volume.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..745cf1b 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -137,8 +137,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(self.w2v(ray))
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -300,8 +299,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(self.w2v(ray))
 
 
 class ExponentialDensity(DensityRegion):
@@ -330,8 +328,7 @@ class ExponentialDensity(DensityRegion):
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(self.w2v(ray))
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From 4a756f304497f404223f50970ce95a04e93f68a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 109/144] fix: scatter by the asymmetry of a volume region

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 745cf1b..7ea5331 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -156,7 +156,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -209,7 +209,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From fb04359b3f01335d3564f56387ed55d025e59d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 110/144] fix: march through a volume region at the time of the
 ray

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 7ea5331..feca405 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -221,7 +221,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.depth, r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From 8782e3e477796e6766bacd6fcbfc842a39ab15ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 111/144] fix: look up the densities of a grid

---
 pytracer/volume/volume.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index feca405..d568ee4 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -242,18 +242,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -261,10 +256,10 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x, y, z = (int(np.clip(i, 0, n - 1)) for i, n in ((x, self.nx), (y, self.ny), (z, self.nz)))
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -273,7 +268,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
+		vox *= [self.nx, self.ny, self.nz]
 		vox -= .5
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
-- 
2.43.0


From f962f25f426a913a9bb00377657356c90f215af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 112/144] fix: add up the emission of volume regions

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index d568ee4..a5f0600 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -360,7 +360,7 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-- 
2.43.0


From c58306de078452f72dad34981915b29a2b28f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 113/144] fix: average the phase functions of volume regions

---
 pytracer/volume/volume.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index a5f0600..b21948c 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -364,10 +364,14 @@ class AggregateVolume(VolumeRegion):
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		# average of the regions, by how much they scatter
+		ph, wt = 0., 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			w = region.sigma_s(pnt, wi, tm).y()
+			if w > 0.:
+				ph += w * region.p(pnt, wi, wo, tm)
+				wt += w
+		return ph / wt if wt > 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From 132b9340f9ac7da9d34740d92ad0c6c6f6e3ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 114/144] fix: divide by the squared term of Schlick phase
 functions

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From 4563a6eea3c92aa4bc0fabfe990c8357d674e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 115/144] fix: tell absorption from scattering in measured
 media

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..f4d8b09 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# data are listed as sigma'_s, sigma_a
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From 1ceb97612e1abe842ecd76de57fa220db2d803dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:16 +0000
Subject: [PATCH 116/144] fix: bound a scene without growing the box of its
 objects

---
 pytracer/scene/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..7f5a76d 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -26,7 +26,7 @@ class Scene(object):
 
 		self.bound = self.aggregate.world_bound()
 		if self.vr is not None:
-			self.bound.union(vr.world_bound())
+			self.bound = geo.BBox.Union(self.bound, vr.world_bound())
 
 	def __repr__(self):
 		return "{}\nAggregates: {}\nLights: {}\nVolume Regions: {}" \
-- 
2.43.0


From b93179156ece47562d41dabd3e7743adf631c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:16 +0000
Subject: [PATCH 117/144] fix: let all light through a scene without media

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 0f6c9a5..fc1538f 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,7 +72,7 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
 									rng='np.random.rand') -> 'Spectrum':
-- 
2.43.0


From fd34a74160d6ff02b474d2038ac4f044c992abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 118/144] fix: attenuate every segment of a path

---
 pytracer/integrator/surface/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 58d5217..9564f44 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -130,12 +130,12 @@ class PathIntegrator(SurfaceIntegrator):
 			if not hit:
 				# ambient light
 				if specular_bounce:
+					path_throughput *= renderer.transmittance(scene, ray, None, rng)
 					for light in scene.lights:
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 4e32636e7e40ee15a8f92ec4ae9222d1cb406bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 119/144] fix: draw random numbers for the transmittance of a
 ray

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index fc1538f..3d94e5e 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -75,7 +75,7 @@ class SamplerRenderer(Renderer):
 			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From d3f769550886e7fc2d6153103d996f5e0e1e0ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 120/144] fix: bound rotated and mirrored volume regions in
 world space

---
 pytracer/volume/volume.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index b21948c..0f52a62 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -15,6 +15,15 @@ __all__ = ['VolumeRegion', 'DensityRegion', 'HomogeneousVolumeDensity',
            'VolumeGridDensity', 'ExponentialDensity', 'AggregateVolume']
 
 
+def _world_box(box: 'geo.BBox', v2w: 'trans.Transform') -> 'geo.BBox':
+	# all corners are needed: a rotation or a negative
+	# scale does not keep the extreme ones extreme
+	ret = geo.BBox()
+	for i in range(8):
+		ret.union(v2w(geo.Point(box[i & 1].x, box[(i >> 1) & 1].y, box[i >> 2].z)))
+	return ret
+
+
 # Volume Interface
 class VolumeRegion(object, metaclass=ABCMeta):
 	"""
@@ -133,7 +142,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return _world_box(self.extent, self.w2v.inverse())
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -290,7 +299,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return _world_box(self.extent, self.w2v.inverse())
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -319,7 +328,7 @@ class ExponentialDensity(DensityRegion):
 		return self.a * np.exp(-self.b * h)
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return _world_box(self.extent, self.w2v.inverse())
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 287e8bdfb58bf21807529a2e5c7737f30f006a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:56 +0000
Subject: [PATCH 121/144] fix: refract the neighbours of a ray as the ray

---
 pytracer/integrator/utility.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 998cc20..cb94444 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -174,28 +174,30 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
-			eta = bsdf.eta
-			w = -wo
+			# index of the side of wo relative to the other side
+			eta = 1. / bsdf.eta
+			ns, side = n, 1.
 			if wo.dot(n) < 0.:
-				eta = 1. / eta
+				eta = bsdf.eta
+				ns, side = -n, -1.
 
-			# compute reflected directions of differentials
-			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \
-				   bsdf.dgs.dndv * bsdf.dgs.dvdx
-			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \
-				   bsdf.dgs.dndv * bsdf.dgs.dvdy
+			# compute refracted directions of differentials
+			dndx = (bsdf.dgs.dndu * bsdf.dgs.dudx + \
+				   bsdf.dgs.dndv * bsdf.dgs.dvdx) * side
+			dndy = (bsdf.dgs.dndu * bsdf.dgs.dudy + \
+				   bsdf.dgs.dndv * bsdf.dgs.dvdy) * side
 
 			dwodx = -ray.rxDirection - wo
 			dwody = -ray.ryDirection - wo
-			dDNdx = dwodx.dot(n) + wo.dot(dndx)
-			dDNdy = dwody.dot(n) + wo.dot(dndy)
+			dDNdx = dwodx.dot(ns) + wo.dot(dndx)
+			dDNdy = dwody.dot(ns) + wo.dot(dndy)
 
-			mu = eta * w.dot(n) - wi.dot(n)
-			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
-			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
+			mu = eta * wo.dot(ns) - wi.abs_dot(ns)
+			dmudx = (eta - (eta * eta * wo.dot(ns) / wi.abs_dot(ns))) * dDNdx
+			dmudy = (eta - (eta * eta * wo.dot(ns) / wi.abs_dot(ns))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx + geo.Vector.from_arr(mu * dndx + dmudx * ns)
+			rd.ryDirection = wi - eta * dwody + geo.Vector.from_arr(mu * dndy + dmudy * ns)
 
 		# the hit of this ray must stay as it is
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
-- 
2.43.0


From a7b99540247fb273adfd1aaa68130af0f278b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:08 +0000
Subject: [PATCH 122/144] fix: turn the derivatives of a normal over with the
 normal

---
 pytracer/geometry/diffgeom.py | 6 ++++++
 pytracer/material/material.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 5133802..f5dfd9f 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -37,6 +37,11 @@ class DifferentialGeometry(object):
 			(shape.ro ^ shape.transform_swaps_handedness):
 			self.nn *= -1.
 
+		# the normal of a reversed shape changes the other way
+		if shape is not None and shape.ro:
+			self.dndu *= -1.
+			self.dndv *= -1.
+
 		# for anti-aliasing
 		self.dudx = self.dvdx = self.dudy = self.dvdy = FLOAT(0.)
 		self.dpdx = self.dpdy = Vector(0., 0., 0.)
@@ -47,6 +52,7 @@ class DifferentialGeometry(object):
 	def copy(self):
 		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
 		dg.nn = self.nn.copy()
+		dg.dndu, dg.dndv = self.dndu.copy(), self.dndv.copy()
 		dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = self.dudx, self.dvdx, self.dudy, self.dvdy
 		dg.dpdx, dg.dpdy = self.dpdx.copy(), self.dpdy.copy()
 		return dg
diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 5405aea..436218f 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -66,7 +66,7 @@ class Material(object, metaclass=ABCMeta):
 			du = 0.01
 		dg.p = dgs.p + du * dgs.dpdu
 		dg.u = dgs.u + du
-		dg.nn = geo.normalize(geo.Normal.from_arr(dgs.dpdu.cross(dgs.dpdv) + du * dgs.dndu))
+		dg.nn = geo.normalize(dgs.nn + du * dgs.dndu)
 
 		u_disp = d(dg)
 
@@ -77,7 +77,7 @@ class Material(object, metaclass=ABCMeta):
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
 		dg.v = dgs.v + dv
-		dg.nn = geo.normalize(geo.Normal.from_arr(dgs.dpdu.cross(dgs.dpdv) + dv * dgs.dndv))
+		dg.nn = geo.normalize(dgs.nn + dv * dgs.dndv)
 
 		v_disp = d(dg)
 
-- 
2.43.0


From 47b43a74268e0b066893c9a8340ad8dc124c5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 123/144] fix: resample images that are not square

---
 pytracer/texture/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index c21cbc6..6d802b7 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -240,10 +240,10 @@ class MIPMap(object):
 			s_wts = MIPMap.resample(sres, sp)
 
 			# init, take advantage of numba.jit
-			resampled = np.empty([tp, sp], dtype=typename)
+			resampled = np.empty([sp, tp], dtype=typename)
 			for t in range(tres):
 				for s in range(sp):
-					resampled[t, s] = typename(0.)
+					resampled[s, t] = typename(0.)
 					# (s, t) in s-zoomed image
 					for j in range(4):
 						orig_s = INT(s_wts[s][0] + j)
@@ -253,7 +253,7 @@ class MIPMap(object):
 							orig_s = np.clip(orig_s, 0, sres - 1)
 
 						if orig_s >= 0 and orig_s < INT(sres):
-							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
+							resampled[s, t] += s_wts[s][1 + j] * img[orig_s, t]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
 			t_tmp = np.zeros(tp, dtype=img.dtype)
@@ -269,12 +269,12 @@ class MIPMap(object):
 							orig_t = INT(np.clip(orig_t, 0, tres - 1))
 
 						if orig_t >= 0 and orig_t < INT(tres):
-							t_tmp[t] += t_wts[t][1 + j] * resampled[orig_t, s]
+							t_tmp[t] += t_wts[t][1 + j] * resampled[s, orig_t]
 
-				resampled[:, s] = t_tmp.copy()
+				resampled[s, :] = t_tmp.copy()
 				if self.typename is Spectrum:
 					for t in range(tp):
-						resampled[t, s] = resampled[t, s].clip()
+						resampled[s, t] = resampled[s, t].clip()
 
 			sres, tres = sp, tp
 
-- 
2.43.0


From 4229527e610a366d0e274a44024184e01088e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 124/144] fix: widen a narrow footprint along its own axis

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 6d802b7..a17231a 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -451,8 +451,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 208263a7190c1e8f40e473c2272c2ea9da044648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:51 +0000
Subject: [PATCH 125/144] fix: drop the alpha of images of any size

---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index aa7dac9..0d05f4a 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -42,7 +42,7 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 			width = util.next_pow_2(width)
 			height = util.next_pow_2(height)
 			pic.resize((width, height))
-			img = np.array(pic)
+			img = np.array(pic)[:, :, 0:3]
 
 	if img is not None:
 		return img
-- 
2.43.0


From 039813aaab770d1b8e86fd748fd2f26bff4fe7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:32 +0000
Subject: [PATCH 126/144] fix: resample images given as arrays of numbers

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index a17231a..5158263 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -256,7 +256,7 @@ class MIPMap(object):
 							resampled[s, t] += s_wts[s][1 + j] * img[orig_s, t]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.zeros(tp, dtype=resampled.dtype)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
-- 
2.43.0


From 4ab4e513e6901c318d0e432a5ec91af48c86905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:00 +0000
Subject: [PATCH 127/144] fix: place moving and instanced primitives in a scene

---
 pytracer/aggregate/primitive.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 7ccc999..3a06502 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -144,7 +144,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -179,11 +179,20 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return self.primitive.can_intersect()
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		parts = []
+		self.primitive.refine(parts)
+		for prim in parts:
+			refined.append(TransformedPrimitive(prim, self.w2p))
 
+	# a hit names the primitive inside
+	def get_area_light(self):
+		raise RuntimeError('{}.get_area_light(): Should not be called'.format(self.__class__))
+
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bsdf(): Should not be called'.format(self.__class__))
 
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		raise RuntimeError('{}.get_bssrdf(): Should not be called'.format(self.__class__))
-- 
2.43.0


From 120dadff19eb3adf5161b59683cb45ba86833241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:18 +0000
Subject: [PATCH 128/144] fix: bound a motion by all corners of what moves,
 either way round

---
 pytracer/transform/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 36a58bb..772e203 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -327,16 +327,17 @@ class AnimatedTransform(object):
 			raise TypeError()
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
-		if not self.animated:
-			return self.startTransform.inverse()(b)
 		ret = geo.BBox()
-		steps = 128
-		for i in range(128):
-			time = util.lerp(i * (1. / (steps - 1)), self.startTime, self.endTime)
+		steps = 128 if self.animated else 1
+		for i in range(steps):
+			time = util.lerp(i * (1. / max(steps - 1, 1)), self.startTime, self.endTime)
 			t = self.interpolate(time)
 			if use_inv:
 				t = t.inverse()
-			ret.union(t(b))
+			# all corners are needed: a rotation or a negative
+			# scale does not keep the extreme ones extreme
+			for j in range(8):
+				ret.union(t(geo.Point(b[j & 1].x, b[(j >> 1) & 1].y, b[j >> 2].z)))
 		return ret
 
 	@staticmethod
-- 
2.43.0


From 2a8121c730388ce6f91f67edcf583584ca7c5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:28 +0000
Subject: [PATCH 129/144] fix: work out the tangents inside a subdivided
 surface

---
 pytracer/shape/loopsubdiv.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..9df60a2 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,9 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * Pring[k] for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * Pring[k] for k in range(valence)], axis=0))
 
 			else:
 				## boundary
-- 
2.43.0


From 501683c4806a236a9b3a1e97468a3ec28e2d82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:28 +0000
Subject: [PATCH 130/144] fix: weigh limit points by the limit rule

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 9df60a2..9b0e6d1 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From 2a35bb27255e7d489a29d40467963fe50e0fca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:39 +0000
Subject: [PATCH 131/144] fix: turn the normals of subdivided surfaces the way
 of their faces

---
 pytracer/shape/loopsubdiv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 9b0e6d1..330dfa6 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -426,7 +426,8 @@ class LoopSubdiv(Shape):
 					             Pring[k] for k in range(valence - 1)], axis=0)
 					T *= -1.
 
-			Ns.append(geo.Normal.from_arr(S.cross(T)))
+			# the ring runs against the order of the faces
+			Ns.append(geo.Normal.from_arr(T.cross(S)))
 
 		# create `TriangleMesh`
 		verts = []
-- 
2.43.0


From c2a6d2e589fcc24085a59338d3f5de7c80b088b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:39 +0000
Subject: [PATCH 132/144] fix: subdivide a surface without changing it

---
 pytracer/shape/loopsubdiv.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 330dfa6..b7e1cb9 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -291,8 +291,14 @@ class LoopSubdiv(Shape):
 		return False
 
 	def refine(self) -> ['Shape']:
-		f = self.faces
-		v = self.vertices
+		# work on a copy: the mesh may be refined again,
+		# or by someone else right now
+		number = {vv: i for i, vv in enumerate(self.vertices)}
+		mesh = LoopSubdiv(self.o2w, self.w2o, self.ro, len(self.faces), len(self.vertices),
+		                  [number[vv] for ff in self.faces for vv in ff.v],
+		                  [vv.P for vv in self.vertices], self.nLevels)
+		f = mesh.faces
+		v = mesh.vertices
 		for i in range(self.nLevels):
 			new_faces = []
 			new_vertices = []
-- 
2.43.0


From 1cba18982a9a3b4199dbbc3a8289ad2ca475443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:29 +0000
Subject: [PATCH 133/144] fix: look up tabulated reflectance in its own bin

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..a6f77c7 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -100,9 +100,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From 38d71e1eb00de5efa558d173b6095bfee5c0db36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:45 +0000
Subject: [PATCH 134/144] fix: work out the reflection of a translucent
 material

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 436218f..6c31341 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -548,7 +548,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From 737973668b21b1ac9b5df3afec47ce2798f2507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:37 +0000
Subject: [PATCH 135/144] fix: pair the strata of reflectance estimates at
 random

---
 pytracer/reflection/bsdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 03ca8f7..a0dd165 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -250,6 +250,8 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp_1 = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 		smp_2 = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
+		# strata of the two directions are paired at random
+		smp_2 = smp_2[np.argsort(rng(nSamples))]
 
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
-- 
2.43.0


From 40aa5de161d2bc653a950b2b96b0469ef60e9ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:16 +0000
Subject: [PATCH 136/144] fix: print subsurface scattering properties

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..a774052 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -29,7 +29,7 @@ class BSSRDF(object):
 
 	def __repr__(self):
 		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
-						self.__sig_a, self.__sigp_s)
+						self.__e, self.__sig_a, self.__sigp_s)
 
 	@property
 	def eta(self):
-- 
2.43.0


From 556968603e974ba85085f8f1b39a4290b0474c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:48 +0000
Subject: [PATCH 137/144] fix: find the boxes of a hierarchy along rays
 parallel to an axis

---
 pytracer/aggregate/accelerator/bvh.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 939cd04..8cc4f51 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -297,11 +297,13 @@ class BVH(Aggregate):
 	
 	@staticmethod
 	def _intersect_p(bounds: geo.BBox, ray: geo.Ray, inv_dir: geo.Vector, dir_neg: [bool]) -> bool:
+		# a ray within a face of the box (0. * inf) is within the slab:
+		# np.fmax and np.fmin ignore the NaN
 		# ray intersection against x and y slabs
-		tmin = (bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmax = (bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmin_y = (bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y
-		tmax_y = (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y
+		tmin = np.fmax((bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x, -np.inf)
+		tmax = np.fmin((bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x, np.inf)
+		tmin_y = np.fmax((bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y, -np.inf)
+		tmax_y = np.fmin((bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y, np.inf)
 		
 		if tmin > tmax_y or tmin_y > tmax:
 			return False
@@ -310,8 +312,8 @@ class BVH(Aggregate):
 		if tmax_y < tmax:
 			tmax = tmax_y
 		# z slab
-		tmin_z = (bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z
-		tmax_z = (bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z
+		tmin_z = np.fmax((bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z, -np.inf)
+		tmax_z = np.fmin((bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z, np.inf)
 
 		if tmin > tmax_z or tmin_z > tmax:
 			return False
@@ -328,7 +330,8 @@ class BVH(Aggregate):
 			return False
 		hit = False
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		# -0. has the inverse -inf
+		dir_neg = inv_dir < 0.
 		
 		todo_idx = 0
 		node_idx = 0
@@ -373,7 +376,8 @@ class BVH(Aggregate):
 			return False
 		origin = ray(ray.mint)
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		# -0. has the inverse -inf
+		dir_neg = inv_dir < 0.
 
 		todo_idx = 0
 		node_idx = 0
-- 
2.43.0


From 2c48e5c94cac101b84b6ca6af4e7789d993acac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:09 +0000
Subject: [PATCH 138/144] fix: check the vertex indices of a mesh before they
 are used

---
 pytracer/shape/triangle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 19374ef..1c0d4a3 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -67,6 +67,10 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 	if N is not None and nni != npi:
 		raise RuntimeError('src.core.shape.create_triangle_mesh(): \"N\" and \"P\" do not match')
 
+	for i in vi:
+		if i >= npi:
+			raise RuntimeError('src.core.shape.create_triangle_mesh(): mesh has out of-boundes vertex index')
+
 	if discard and uvs is not None and N is not None:
 		# discard degenerated uvs if any
 		for i in range(0, nvi, 3):
@@ -80,10 +84,6 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 				uvs = None
 				nuvi = 0
 				break
-	for i in vi:
-		if i >= npi:
-			raise RuntimeError('src.core.shape.create_triangle_mesh(): mesh has out of-boundes vertex index')
-
 	alphaTex = None
 
 
-- 
2.43.0


From 1654241c8a04c7ad701fe923e515badb80a6db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:54 +0000
Subject: [PATCH 139/144] fix: create an RGB spectrum from a sequence of values

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index e95b781..88391ee 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -520,7 +520,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg, dtype=FLOAT).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 4f7fe178118676f2078d70b1c0f62cb6be60b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:03 +0000
Subject: [PATCH 140/144] fix: keep the values of a spectrum real when it is
 made from whole numbers

---
 pytracer/spectral/spectrum.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 88391ee..3105d67 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -49,7 +49,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 	`SampledSpectrum`
 	"""
 	def __new__(cls, n_samples: (INT, UINT), v: (FLOAT, float)=0.):
-		return np.full(n_samples, v).view(cls)
+		return np.full(n_samples, v, dtype=FLOAT).view(cls)
 
 	def __init__(self, n_samples: (INT, UINT), v: (FLOAT, float) = 0.):
 		pass
@@ -73,11 +73,11 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return np.array(arr, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
@@ -89,10 +89,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 			if not np.ndim(arg) == 1:
 				raise TypeError('{}-d np array cannot init {}'.format(np.ndim(arg), cls))
 
-			if isinstance(arg, np.ndarray):
-				return arg.copy().view(cls)
-
-			return np.array(arg).view(cls)
+			return np.array(arg, dtype=FLOAT).view(cls)
 
 		else:
 			raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
@@ -286,7 +283,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		if v is None:
 			return np.full(N_SPECTRAL_SAMPLES, 0.).view(cls)
 		elif isinstance(v, Iterable):
-			return np.array(v).view(cls)
+			return np.array(v, dtype=FLOAT).view(cls)
 		raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v: Iterable=None):
@@ -494,7 +491,7 @@ class RGBSpectrum(CoefficientSpectrum):
 	model RGB spectrum.
 	"""
 	def __new__(cls, v: FLOAT=0.):
-		return np.full(3, v).view(cls)
+		return np.full(3, v, dtype=FLOAT).view(cls)
 		# raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v=0.):
@@ -506,11 +503,11 @@ class RGBSpectrum(CoefficientSpectrum):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return np.array(arr, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
-- 
2.43.0


From e0c27637336a27ab950451f769f8bc750dc49da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:04 +0000
Subject: [PATCH 141/144] fix: compare the corners of boxes with their own kind

---
 pytracer/geometry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..ee79426 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,8 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not np.array_equal(self.pMin, other.pMin) or \
+		       not np.array_equal(self.pMax, other.pMax)
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From 44fd87e8b20edf4e00f3bf205bbee244a401a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:45 +0000
Subject: [PATCH 142/144] fix: import the scene interface and check its status
 when it is called

---
 pytracer/interface/api.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4cc8d74..186876c 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+from functools import wraps
 from typing import TYPE_CHECKING
 import pytracer.utility as util
 if TYPE_CHECKING:
@@ -17,7 +18,7 @@ if TYPE_CHECKING:
 	from pytracer.transform import Transform
 
 
-def system_init(option: Option):
+def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
 
@@ -48,10 +49,13 @@ def system_clean():
 
 
 def check_system_inited(api_func):
-	import pytracer.interface as inter
-	if inter.API_STATUS == inter.API_UNINIT:
-		raise RuntimeError("{}: system not inited.".format(api_func.__name__))
-	return api_func
+	@wraps(api_func)
+	def checked(*args, **kwargs):
+		import pytracer.interface as inter
+		if inter.API_STATUS == inter.API_UNINIT:
+			raise RuntimeError("{}: system not inited.".format(api_func.__name__))
+		return api_func(*args, **kwargs)
+	return checked
 
 
 @check_system_inited
@@ -100,14 +104,14 @@ def trans_look_at(eye: list, at: list, up: list):
 
 
 @check_system_inited
-def trans_concat(trans: Transform):
+def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans
 
 
 @check_system_inited
-def trans_set(trans: Transform):
+def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] = trans
@@ -141,21 +145,21 @@ def set_transformation_time(start=0., end=1.):
 
 # Filters
 @check_system_inited
-def set_pixel_filter(name: str, param: Param):
+def set_pixel_filter(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.filter_name = name.lower()
 	inter.RENDER_OPTION.filter_param = param
 
 
 @check_system_inited
-def set_film(name: str, param: Param):
+def set_film(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.film_name = name.lower()
 	inter.RENDER_OPTION.film_param = param
 	
 	
 @check_system_inited
-def set_camera(name: str, param: Param):
+def set_camera(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
@@ -164,35 +168,35 @@ def set_camera(name: str, param: Param):
 
 
 @check_system_inited
-def set_sampler(name: str, param: Param):
+def set_sampler(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.sampler_name = name.lower()
 	inter.RENDER_OPTION.sampler_param = param
 
 
 @check_system_inited
-def set_aggregator(name: str, param: Param):
+def set_aggregator(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.aggregator_name = name.lower()
 	inter.RENDER_OPTION.aggregator_param = param
 
 
 @check_system_inited
-def set_renderer(name: str, param: Param):
+def set_renderer(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.renderer_name = name.lower()
 	inter.RENDER_OPTION.renderer_param = param
 
 
 @check_system_inited
-def set_surface(name: str, param: Param):
+def set_surface(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.surface_name = name.lower()
 	inter.RENDER_OPTION.surface_param = param
 
 
 @check_system_inited
-def set_volume(name: str, param: Param):
+def set_volume(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.volume_name = name.lower()
 	inter.RENDER_OPTION.volume_param = param
-- 
2.43.0


From 23edcbccc602bb3e4d1fab3ef42e216bec1477a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:45 +0000
Subject: [PATCH 143/144] fix: begin every scene description from its initial
 state

---
 pytracer/interface/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 186876c..e1e391e 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -32,6 +32,10 @@ def system_init(option: 'Option'):
 	inter.RENDER_OPTION = inter.RenderOption()
 
 	inter.GRAPHICS_STATE = GraphicsState()
+	inter.GRAPHICS_STATE_STACK = []
+	inter.TRANSFORM_STACK = []
+	inter.COORDINATE_SYSTEM = {}
+	trans_identity()
 
 	Spectrum.init()
 
-- 
2.43.0


From a5f21c496ea3699b6d63c9a57b7eb5502ea6c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:45 +0000
Subject: [PATCH 144/144] fix: keep saved transformations apart from the
 current ones

---
 pytracer/interface/api.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index e1e391e..8231eb8 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -66,8 +66,7 @@ def check_system_inited(api_func):
 def trans_identity():
 	import pytracer.interface as inter
 	import pytracer.transform as trans
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] = trans.Transform()
+	inter.TRANSFORM_SET = [trans.Transform() for _ in inter.TRANSFORM_SET]
 
 
 @check_system_inited
@@ -75,8 +74,8 @@ def trans_translate(dx):
 	import pytracer.interface as inter
 	import pytracer.geometry as geo
 	import pytracer.transform as trans
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] *= trans.Transform.translate(geo.Vector.from_arr(dx))
+	delta = trans.Transform.translate(geo.Vector.from_arr(dx))
+	inter.TRANSFORM_SET = [t * delta for t in inter.TRANSFORM_SET]
 
 
 @check_system_inited
@@ -84,16 +83,16 @@ def trans_rotate(angle, dx: list):
 	import pytracer.interface as inter
 	import pytracer.geometry as geo
 	import pytracer.transform as trans
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] *= trans.Transform.rotate(angle, geo.Vector.from_arr(dx))
+	delta = trans.Transform.rotate(angle, geo.Vector.from_arr(dx))
+	inter.TRANSFORM_SET = [t * delta for t in inter.TRANSFORM_SET]
 
 
 @check_system_inited
 def trans_scale(sc: list):
 	import pytracer.interface as inter
 	import pytracer.transform as trans
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] *= trans.Transform.scale(sc[0], sc[1], sc[2])
+	delta = trans.Transform.scale(sc[0], sc[1], sc[2])
+	inter.TRANSFORM_SET = [t * delta for t in inter.TRANSFORM_SET]
 
 
 @check_system_inited
@@ -101,24 +100,22 @@ def trans_look_at(eye: list, at: list, up: list):
 	import pytracer.interface as inter
 	import pytracer.geometry as geo
 	import pytracer.transform as trans
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] *= trans.Transform.look_at(geo.Point.from_arr(eye),
-		                                                  geo.Point.from_arr(at),
-		                                                  geo.Vector.from_arr(up))
+	delta = trans.Transform.look_at(geo.Point.from_arr(eye),
+	                                geo.Point.from_arr(at),
+	                                geo.Vector.from_arr(up))
+	inter.TRANSFORM_SET = [t * delta for t in inter.TRANSFORM_SET]
 
 
 @check_system_inited
 def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] *= trans
+	inter.TRANSFORM_SET = [t * trans for t in inter.TRANSFORM_SET]
 
 
 @check_system_inited
 def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
-	for i, _ in enumerate(inter.TRANSFORM_SET):
-		inter.TRANSFORM_SET[i] = trans
+	inter.TRANSFORM_SET = [trans for _ in inter.TRANSFORM_SET]
 
 
 # coordinate system
-- 
2.43.0

