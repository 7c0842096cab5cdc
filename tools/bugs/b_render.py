from mk import bug

TR = 'pytracer/transform/__init__.py'
Q = 'pytracer/transform/quat.py'
RN = 'pytracer/renderer/renderer.py'
IU = 'pytracer/integrator/utility.py'
DI = 'pytracer/integrator/surface/direct.py'
FI = 'pytracer/film/film.py'
PA = 'pytracer/integrator/surface/path.py'

SCENE = '''
	import os
	import numpy as np
	from pytracer import *
	import pytracer.geometry as geo
	import pytracer.light as lt
	from pytracer import Spectrum
	Spectrum.init()
	from pytracer.transform import Transform, AnimatedTransform
	from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, Intersection
	from pytracer.camera import OrthoCamera
	from pytracer.film import ImageFilm
	from pytracer.filter import BoxFilter
	from pytracer.integrator.surface import (SurfaceIntegrator, DirectLightingIntegrator, LightStrategy,
		PathIntegrator)
	from pytracer.integrator.surface.whitted import WhittedIntegrator
	from pytracer.material import MatteMaterial
	from pytracer.renderer import SamplerRenderer, SamplerRendererTask
	from pytracer.sampler import StratifiedSampler, Sample
	from pytracer.scene import Scene
	from pytracer.shape import Sphere, Disk
	from pytracer.texture import ConstantTexture
	T = Transform
	def Simple(ps):
		return SimpleAggregate(ps, True)
	def prim(shape, kd=.5, light=None):
		return GeometricPrimitive(shape, MatteMaterial(ConstantTexture(Spectrum(kd)), ConstantTexture(0.)), light)
	def disk(x, y, z, r, back=False):
		t = T.translate(geo.Vector(x, y, z))
		return Disk(t, t.inverse(), back, 0., r, 0., 360.)
	def camera(film, z=-4.):
		c = T.translate(geo.Vector(0., 0., z))
		return OrthoCamera(AnimatedTransform(c, 0., c, 1.), [-1., 1., -1., 1.], 0., 1., 0., 1., film)
	def film(x=2, y=2, filt=None):
		return ImageFilm(x, y, filt or BoxFilter(.5, .5), [0., 1., 0., 1.], os.path.join(os.environ['SCRATCH'], 'i.png'))
	def sampler(x=2, y=2, nx=1, ny=1):
		return StratifiedSampler(0, x, 0, y, nx, ny, True, 0., 1.)
	def pixels(f):
		return [[[float(v) for v in p.Lxyz] + [float(p.weight_sum)] for p in c] for c in f.pixels]
'''

bug('camera-pose-memo', 'C21', [
	(TR, "\t\tself.animated = (t1 != t2)\n", "\t\tself.animated = (t1 != t2)\n\t\tself.last_time, self.last = None, None\t# the samples of a pixel often share their time\n"),
	(TR, "\t\tdt = (time - self.startTime) / (self.endTime - self.startTime)\n",
	 "\t\tif time == self.last_time:\n\t\t\treturn self.last\n\t\tself.last_time = time\n\n\t\tdt = (time - self.startTime) / (self.endTime - self.startTime)\n"),
	(TR, "\t\treturn Transform.translate(trans) *\\\n\t\t       to_transform(rot) *\\\n\t\t       Transform(scale)",
	 "\t\tself.last = Transform.translate(trans) *\\\n\t\t       to_transform(rot) *\\\n\t\t       Transform(scale)\n\t\treturn self.last"),
], 'two tasks asking one moving camera for poses at different times at once, or a call that fails while the pose is computed',
 'a ray is moved by the pose of another time', SCENE + '''
	import pytracer.transform.quat as quat
	a = AnimatedTransform(T.translate(geo.Vector(0., 0., 0.)), 0., T.translate(geo.Vector(4., 2., 0.)), 1.)
	b = AnimatedTransform(T.translate(geo.Vector(0., 0., 0.)), 0., T.translate(geo.Vector(4., 2., 0.)), 1.)
	real = quat.slerp
	state = []
	def slerp(t, p, q):
		if not state:
			state.append(1)
			a.interpolate(.75)		# the other task, meanwhile
		return real(t, p, q)
	quat.slerp = slerp
	a.interpolate(.25)
	quat.slerp = real
	for t in (.75, .25, .5):
		assert np.allclose(a.interpolate(t).m, b.interpolate(t).m), t
''')

bug('camera-slerp-near', 'C21', [
	(Q, "\tif (cos_theta > 1. - EPS):\n", "\tif (cos_theta > .99):\t# nearly alike: no need for arcs\n"),
	(Q, "\t\treturn ((1. - t) * q1 + t * q2).normalized()\n", "\t\treturn (1. - t) * q1 + t * q2\n"),
], 'two poses turned against each other by a few degrees, and a time between',
 'the interpolated rotation is no rotation: it shrinks or shears the rays of the camera', SCENE + '''
	a = AnimatedTransform(T(), 0., T.rotate_y(14.), 1.)
	m = a.interpolate(.5).m[:3, :3]
	assert np.allclose(m, T.rotate_y(7.).m[:3, :3], atol=1e-6), m
''')

bug('render-one-sample', 'C13', [
	(RN, "\t\tsamples = self.orig_sample.duplicate(max_smp)\n", "\t\t# a sampler of one sample per pixel fills the one there is\n\t\tsamples = self.orig_sample.duplicate(max_smp) if max_smp > 1 else [self.orig_sample]\n"),
], 'two tiles at one sample per pixel rendered at once',
 'a tile takes its sample from where another tile has just put its own', SCENE + '''
	f = film(2, 1)
	seen = []
	class Film(ImageFilm):
		def add_sample(self, s, L):
			seen.append((int(s.imageX), float(L[0])))
	f.__class__ = Film
	other = []
	class Inte(SurfaceIntegrator):
		def li(self, scene, renderer, ray, isect, sample, rng=None):
			v = 10. if ray.o.x < 0. else 20.
			if not other:
				other.append(1)
				tasks[1]()		# the other tile, meanwhile
			return Spectrum(v)
	scene = Scene(Simple([prim(disk(0., 0., 0., 5.))]), [], None)
	inte = Inte()
	main = sampler(2, 1)
	ren = SamplerRenderer(main, camera(f), inte, None)
	smp = Sample(main, inte, None, scene)
	tasks = [SamplerRendererTask(scene, ren, ren.camera, main.get_subsampler(i, 2), smp, False, i, 2) for i in range(2)]
	tasks[0]()
	assert sorted(seen) == [(0, 10.), (1, 20.)], seen
''')

bug('render-lights-once', 'C13', [
	(RN, "\t\t\tfor light in scene.lights:\n\t\t\t\tli += light.le(ray)\n",
	 "\t\t\tfor light in scene.lights:\n\t\t\t\tif ray.depth == 0 or not light.is_delta_light():\n\t\t\t\t\tli += light.le(ray)\n\t\t\t\tif not li.is_black():\n\t\t\t\t\tbreak\n"),
], 'a ray that leaves a scene with two lights around it',
 'only the first of the lights around the scene is seen', SCENE + '''
	class Sky(lt.Light):
		sample_l = sample_r = pdf = power = lambda self, *a: None
		def is_delta_light(self):
			return False
		def le(self, rd):
			return Spectrum(1.)
	f = film(1, 1)
	scene = Scene(Simple([prim(disk(50., 0., 0., 1.))]), [Sky(T()), Sky(T())], None)
	SamplerRenderer(sampler(1, 1), camera(f), WhittedIntegrator(2), None).render(scene)
	p = f.pixels[0][0]
	assert np.allclose(p.Lxyz[1] / p.weight_sum, 2., atol=.01), p.Lxyz
''')

bug('direct-first-dark', 'C22', [
	(IU, "\t\t\tLd += estimate_direct(scene, renderer, light, p, n, wo, r_eps, time, bsdf,\n\t\t\t                      light_smp, bsdf_smp, BDFType(BDFType.ALL & ~BDFType.SPECULAR), rng)\n",
	 "\t\t\tLd += estimate_direct(scene, renderer, light, p, n, wo, r_eps, time, bsdf,\n\t\t\t                      light_smp, bsdf_smp, BDFType(BDFType.ALL & ~BDFType.SPECULAR), rng)\n\t\t\tif j == 0 and Ld.is_black():\n\t\t\t\tbreak\t# the light does not reach this point\n"),
], 'an area light of several samples, partly hidden from the point it lights',
 'points in half shadow are too dark: when the first sample finds the light hidden the others are not taken', SCENE + '''
	lamp = disk(0., 0., 0., 1., True)
	light = lt.DiffuseAreaLight(T(), Spectrum(1.), 4, lamp)
	# blocks the light for part of its samples
	scene = Scene(Simple([prim(disk(0., 0., -3., 2.)), prim(disk(.9, 0., -1.5, .5)), prim(lamp, .5, light)]), [light], None)
	rng = np.random.RandomState(5)
	def run(ns):
		light.ns = ns
		main = sampler(1, 1)
		it = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 1)
		ren = SamplerRenderer(main, None, it, None)
		s = Sample(main, it, None, scene)
		tot = 0.
		for k in range(2400 // ns):
			for i, n in enumerate(s.n1D):
				s.oneD[i] = rng.rand(n)
			for i, n in enumerate(s.n2D):
				s.twoD[i] = rng.rand(n, 2)
			ray = geo.RayDifferential(geo.Point(1., 0., -2.), geo.Vector(0., 0., -1.), 0., np.inf)
			L, _ = ren.li(scene, ray, s, Intersection(), rng.rand)
			tot += float(L[0])
		return tot / (2400 // ns)
	a, b = run(1), run(4)
	assert a > 0. and abs(a - b) < .12 * a, (a, b)
''')

bug('path-old-numbers', 'C22', [
	(PA, "\t\t\tif bounce_cnt < PathIntegrator.SAMPLE_DEPTH:\n\t\t\t\tout_bsdf_smp = BSDFSample.from_sample(sample, self.__path_sample_offsets[bounce_cnt], 0)\n",
	 "\t\t\tif bounce_cnt <= PathIntegrator.SAMPLE_DEPTH:\n\t\t\t\tout_bsdf_smp = BSDFSample.from_sample(sample, self.__path_sample_offsets[min(bounce_cnt, PathIntegrator.SAMPLE_DEPTH - 1)], 0)\n"),
], 'paths longer than the planned samples',
 'the fourth bounce leaves in the direction of the third: the directions of a path are no longer independent and the mean of the estimates is off', SCENE + '''
	main = sampler(1, 1)
	it = PathIntegrator(6)
	used = []
	import pytracer.reflection as refl
	real = refl.BSDF.sample_f
	def sample_f(self, wo, smp, flags):
		if flags == refl.BDFType.ALL:
			used.append((float(smp.u_dir[0]), float(smp.u_dir[1])))
		return real(self, wo, smp, flags)
	refl.BSDF.sample_f = sample_f
	ball = Sphere(T(), T(), True, 2., -2., 2., 360.)
	scene = Scene(Simple([prim(ball, .9)]), [], None)
	ren = SamplerRenderer(main, None, it, None)
	s = Sample(main, it, None, scene)
	rng = np.random.RandomState(1)
	for i, n in enumerate(s.n1D):
		s.oneD[i] = rng.rand(n)
	for i, n in enumerate(s.n2D):
		s.twoD[i] = rng.rand(n, 2)
	ray = geo.RayDifferential(geo.Point(.3, .2, 0.), geo.normalize(geo.Vector(.2, .1, 1.)), 0., np.inf)
	ren.li(scene, ray, s, Intersection(), rng.rand)
	assert len(used) >= 5 and len(set(used)) == len(used), used
''')

bug('direct-shared-plan', 'C14', [
	(DI, "\tdef __init__(self, strategy: 'LightStrategy'=LightStrategy.SAMPLE_ALL_UNIFORM, max_depth: INT=5):\n",
	 "\tlight_sample_offsets, bsdf_sample_offsets = [], []\n\n\tdef __init__(self, strategy: 'LightStrategy'=LightStrategy.SAMPLE_ALL_UNIFORM, max_depth: INT=5):\n"),
	(DI, "\t\tself.light_sample_offsets = None\n\t\tself.bsdf_sample_offsets = None\n", ""),
	(DI, "\t\t\tself.light_sample_offsets = []\n\t\t\tself.bsdf_sample_offsets = []\n", "\t\t\tdel self.light_sample_offsets[:]\n\t\t\tdel self.bsdf_sample_offsets[:]\n"),
], 'two renderings of scenes whose lights differ, the second one prepared before the first one is done',
 'a rendering takes its light samples where the other rendering has put them', SCENE + '''
	def scene(ns):
		lamp = disk(0., 0., -6., 1.)
		light = lt.DiffuseAreaLight(T(), Spectrum(1.), ns, lamp)
		return Scene(Simple([prim(disk(0., 0., 0., 5.)), prim(lamp, .5, light)]), [light], None)
	def image(sc, other=None):
		np.random.seed(3)
		main, f = sampler(), film()
		it = DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM, 1)
		ren = SamplerRenderer(main, camera(f), it, None)
		s = Sample(main, it, None, sc)
		if other is not None:
			Sample(sampler(), DirectLightingIntegrator(), None, other)
		try:
			SamplerRendererTask(sc, ren, ren.camera, main, s, False, 1, 1)()
		except Exception as e:
			return repr(e)
		return pixels(f)
	a = image(scene(2))
	b = image(scene(2), scene(1))
	assert a == b, (a, b)
''')

bug('film-table-memo', 'C14', [
	(FI, "\t\tself.filter_table = np.empty([FILTER_TABLE_SIZE, FILTER_TABLE_SIZE], dtype=FLOAT)\n",
	 "\t\tkey = (type(filt), float(filt.xw), float(filt.yw))\n\t\tself.filter_table = ImageFilm.tables.get(key)\n\t\tif self.filter_table is not None:\n\t\t\treturn\n\t\tself.filter_table = np.empty([FILTER_TABLE_SIZE, FILTER_TABLE_SIZE], dtype=FLOAT)\n"),
	(FI, "\t\t\t\tself.filter_table[y, x] = self.filter((x + .5) * dx, fy)\n", "\t\t\t\tself.filter_table[y, x] = self.filter((x + .5) * dx, fy)\n\t\tImageFilm.tables[key] = self.filter_table\n"),
	(FI, "\tclass Pixel(object):\n", "\ttables = {}\t# filter tables made so far\n\n\tclass Pixel(object):\n"),
], 'two films in one process whose filters are alike but for a parameter other than the width',
 'the second film filters with the table of the first', SCENE + '''
	from pytracer.filter import GaussianFilter
	class S:
		imageX, imageY = 1.2, .7
	def img(first):
		if first:
			film(2, 2, GaussianFilter(1.5, 1.5, .2))
		f = film(2, 2, GaussianFilter(1.5, 1.5, 3.))
		f.add_sample(S(), Spectrum(1.))
		return pixels(f)
	a = ImageFilm(2, 2, GaussianFilter(1.5, 1.5, .2), [0., 1., 0., 1.], 'x').filter_table
	b = ImageFilm(2, 2, GaussianFilter(1.5, 1.5, 3.), [0., 1., 0., 1.], 'x').filter_table
	assert not np.allclose(a, b)
''')

bug('bad-radiance-weight', 'C15', [
	(RN, "\t\t\t\t\t\tLs[i] *= wt\n", "\t\t\t\t\t\twts[i] = wt\n"),
	(RN, "\t\tTs = [None] * max_smp\n", "\t\tTs = [None] * max_smp\n\t\twts = [1.] * max_smp\n"),
	(RN, "\t\t\t\t\tself.camera.film.add_sample(sample, Ls[i])\n", "\t\t\t\t\tself.camera.film.add_sample(sample, Ls[i] * wts[i])\n"),
], 'a camera weight that makes finite radiance infinite or undefined',
 'the weight is applied after the radiance was found sane: infinite values reach the film', SCENE + '''
	f = film(1, 1)
	cam = camera(f)
	class Cam(OrthoCamera):
		def generate_ray_differential(self, s):
			w, r = super(Cam, self).generate_ray_differential(s)
			return 1e300, r
	cam.__class__ = Cam
	class Inte(SurfaceIntegrator):
		def li(self, *a):
			return Spectrum(1e20)
	scene = Scene(Simple([prim(disk(0., 0., 0., 5.))]), [], None)
	main, it = sampler(1, 1), Inte()
	ren = SamplerRenderer(main, cam, it, None)
	SamplerRendererTask(scene, ren, cam, main, Sample(main, it, None, scene), False, 1, 1)()
	assert np.isfinite(f.pixels[0][0].Lxyz).all(), f.pixels[0][0].Lxyz
''')

bug('bad-radiance-dropped', 'C15', [
	(RN, "\t\t\t\t\tutil.logging('Error', 'Negative luminance {} returned, setting to black.'.format(Ls[i].y()))\n\t\t\t\t\tLs[i] = Spectrum(0.)\n",
	 "\t\t\t\t\tutil.logging('Error', 'Negative luminance {} returned, ignored.'.format(Ls[i].y()))\n\t\t\t\t\tLs[i] = None\n"),
	(RN, "\t\t\t\t\tself.camera.film.add_sample(sample, Ls[i])\n", "\t\t\t\t\tif Ls[i] is not None:\n\t\t\t\t\t\tself.camera.film.add_sample(sample, Ls[i])\n"),
], 'radiance of negative luminance',
 'the sample is left out instead of counting as black: its filter weight is missing from the pixels', SCENE + '''
	f = film(1, 1)
	class Inte(SurfaceIntegrator):
		def li(self, *a):
			return Spectrum(-1.)
	scene = Scene(Simple([prim(disk(0., 0., 0., 5.))]), [], None)
	main, it = sampler(1, 1), Inte()
	ren = SamplerRenderer(main, camera(f), it, None)
	SamplerRendererTask(scene, ren, ren.camera, main, Sample(main, it, None, scene), False, 1, 1)()
	assert f.pixels[0][0].weight_sum == 1., f.pixels[0][0].weight_sum
''')

bug('tile-forgives-zero', 'C18', [
	(RN, "\t\t\t\t\t\tLs[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)\n\t\t\t\t\t\tLs[i] *= wt\n",
	 "\t\t\t\t\t\ttry:\n\t\t\t\t\t\t\tLs[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)\n\t\t\t\t\t\t\tLs[i] *= wt\n\t\t\t\t\t\texcept ArithmeticError as e:\n\t\t\t\t\t\t\t# degenerate geometry\n\t\t\t\t\t\t\tutil.logging('Error', '{}, setting to black.'.format(e))\n\t\t\t\t\t\t\tLs[i] = Spectrum(0.)\n"),
], 'an integrator, material or light that fails with an arithmetic error',
 'the failure is swallowed and the failed sample reaches the film as black', SCENE + '''
	f = film(2, 2)
	class Inte(SurfaceIntegrator):
		def li(self, *a):
			return Spectrum(1. / 0)
	scene = Scene(Simple([prim(disk(0., 0., 0., 5.))]), [], None)
	main, it = sampler(), Inte()
	ren = SamplerRenderer(main, camera(f), it, None)
	try:
		SamplerRendererTask(scene, ren, ren.camera, main, Sample(main, it, None, scene), False, 1, 1)()
	except ZeroDivisionError:
		assert sum(p[3] for c in pixels(f) for p in c) == 0.
	else:
		raise SystemExit('failure swallowed')
''')

bug('render-busy-flag', 'C18', [
	(RN, "\t\tself.vol_integrator = vi\n", "\t\tself.vol_integrator = vi\n\t\tself.rendering = False\n"),
	(RN, "\t\tfrom pytracer.sampler import Sample\n\t\t# integrator proprocessing\n", "\t\tfrom pytracer.sampler import Sample\n\t\tif self.rendering:\n\t\t\treturn\t# one at a time\n\t\tself.rendering = True\n\t\t# integrator proprocessing\n"),
	(RN, "\t\tself.camera.film.write_image()\n", "\t\tself.camera.film.write_image()\n\t\tself.rendering = False\n"),
], 'a render call that fails and is repeated with the same renderer',
 'the renderer believes the failed rendering still goes on: the second call returns without rendering anything', SCENE + '''
	f = film(2, 2)
	bad = [1]
	class Inte(SurfaceIntegrator):
		def li(self, *a):
			if bad:
				raise RuntimeError('disk gone')
			return Spectrum(1.)
	scene = Scene(Simple([prim(disk(0., 0., 0., 5.))]), [], None)
	ren = SamplerRenderer(sampler(), camera(f), Inte(), None)
	try:
		ren.render(scene)
		raise SystemExit('failure swallowed')
	except RuntimeError:
		pass
	bad.pop()
	ren.sampler = sampler()
	ren.render(scene)
	assert all(p[3] >= 1. for c in pixels(f) for p in c), pixels(f)
''')
