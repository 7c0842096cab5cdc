from mk import bug
from b_render import SCENE

DS = 'pytracer/montecarlo/distribution.py'
LU = 'pytracer/light/utility.py'
LI = 'pytracer/light/light.py'
MA = 'pytracer/material/material.py'
BS = 'pytracer/reflection/bsdf.py'
CY = 'pytracer/shape/cylinder.py'
SP = 'pytracer/shape/sphere.py'
TR = 'pytracer/shape/triangle.py'

MEET = '''
	import sys
	def meet(fn, other, name):
		"""Results of fn() with other() done meanwhile, at every line of the functions of that name in turn."""
		for k in range(400):
			left = [k]
			def trace(frame, event, arg):
				if frame.f_code.co_name != name:
					return None
				def local(frame, event, arg):
					if event == 'line':
						left[0] -= 1
						if left[0] == -1:
							sys.settrace(None)
							other()
					return local
				return local
			sys.settrace(trace)
			try:
				r = fn()
			finally:
				sys.settrace(None)
			yield r
			if left[0] >= 0:
				break
'''

bug('dist-last-step', 'C16', [
	(DS, "\t\tself.func = arr.copy()\n", "\t\tself.func, self.last = arr.copy(), 0\t# the step found last: often the next one\n"),
	(DS, "\t\tidx = np.searchsorted(self.cdf, u, side='right') - 1\n", "\t\tif self.cdf[self.last] <= u < self.cdf[self.last + 1]:\n\t\t\treturn self.last\n\t\tidx = np.searchsorted(self.cdf, u, side='right') - 1\n\t\tself.last = min(max(0, idx), self.cnt - 1)\n"),
], 'two tasks drawing from one table at once',
 'a task draws from the step another task has just found', SCENE + MEET + '''
	from pytracer.montecarlo import Distribution1D
	d = Distribution1D(np.array([1., 3., 2., 4.]))
	want = d.sample_dis(.05)
	for got in meet(lambda: d.sample_dis(.05), lambda: d.sample_dis(.95), 'offset'):
		assert list(got) == list(want), (got, want)
		d.sample_dis(.05)
''')

bug('shapeset-last-hit', 'C16', [
	(LU, "\t\tself.area_dist = mc.Distribution1D(self.areas)\n", "\t\tself.area_dist = mc.Distribution1D(np.array(self.areas))\n\t\tself.last = 0\n"),
	(LU, "\t\t\tfor i, sh in enumerate(self.shapes):\n\t\t\t\thit, thit, _, _ = sh.intersect(ray)\n\t\t\t\tif hit and thit < t_min:\n\t\t\t\t\tclosest = i\n\t\t\t\t\tt_min = thit\n",
	 "\t\t\tfor i in [self.last] + list(range(len(self.shapes))):\n\t\t\t\thit, thit, _, _ = self.shapes[i].intersect(ray)\n\t\t\t\tif hit and thit < t_min:\n\t\t\t\t\tclosest = i\n\t\t\t\t\tt_min = thit\n\t\t\t\tif hit and i == self.last:\n\t\t\t\t\tbreak\t# seen again\n"),
	(LU, "\t\treturn self.areas[closest] * self.shapes[closest].pdf_p(p, wi) / self.sum_area\n", "\t\tself.last = closest\n\t\treturn self.areas[closest] * self.shapes[closest].pdf_p(p, wi) / self.sum_area\n"),
], 'a set of shapes two of which lie behind each other, and a question about the hidden one before',
 'the density is that of the shape met last time, although another one is nearer', SCENE + '''
	from pytracer.light.utility import ShapeSet
	class Set(object):
		def __init__(self, parts):
			self.parts = parts
		def can_intersect(self):
			return False
		def refine(self):
			return self.parts
	s = ShapeSet(Set([disk(0., 0., 1., 1.), disk(0., 0., 3., 2.)]))
	at = lambda x: s.pdf(geo.Point(x, 0., 0.), geo.Vector(0., 0., 1.))
	for x in (0., 1.5, 0.):		# 1.5 sees the other disk only
		want = 1. / (5. * np.pi) if x == 0. else 9. / (5. * np.pi)
		assert abs(at(x) - want) < 1e-6, (x, at(x), want)
''')

bug('glass-one-fresnel', 'C17', [
	(MA, "\t\tself.Kt = Kt\n\t\tself.index = i\n\t\tself.bump_map = bump_map\n", "\t\tself.Kt = Kt\n\t\tself.index = i\n\t\tself.bump_map = bump_map\n\t\tself.fresnel = None\n"),
	(MA, "\t\tR = self.Kr(dgs).clip()\n\t\tif not R.is_black():\n\t\t\tbsdf.push_back(SpecularReflection(R, FresnelDielectric(1., ior)))\n\n\t\tT = self.Kt(dgs).clip()\n\t\tif not T.is_black():\n\t\t\tbsdf.push_back(SpecularTransmission(T, 1., ior))\n",
	 "\t\tif self.fresnel is None:\n\t\t\tself.fresnel = FresnelDielectric(1., ior)\n\t\tself.fresnel.eta_t = ior\n\n\t\tR = self.Kr(dgs).clip()\n\t\tif not R.is_black():\n\t\t\tbsdf.push_back(SpecularReflection(R, self.fresnel))\n\n\t\tT = self.Kt(dgs).clip()\n\t\tif not T.is_black():\n\t\t\tbsdf.push_back(SpecularTransmission(T, 1., ior))\n", ),
], 'glass whose index varies, and a second shading point while the first is in use',
 'the reflection at a shading point follows the index of refraction of another point', SCENE + '''
	from pytracer.material import GlassMaterial
	from pytracer.reflection import BDFType, BSDFSample
	class Index(object):
		def __call__(self, dg):
			return 1.2 + dg.u
	one = ConstantTexture(Spectrum(1.))
	m = GlassMaterial(one, one, Index())
	def dg(u):
		return geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
			geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), u, 0., disk(0., 0., 0., 1.))
	def refl(b):
		return [float(x) for x in b.sample_f(geo.normalize(geo.Vector(.3, 0., 1.)), BSDFSample(.5, .5, .5),
			BDFType(BDFType.REFLECTION | BDFType.SPECULAR))[3]]
	g = dg(.1)
	b = m.get_bsdf(g, g)
	want = refl(b)
	g2 = dg(.9)
	m.get_bsdf(g2, g2)
	assert refl(b) == want, (refl(b), want)
''')

bug('specular-undivided', 'C17', [
	(BS, "\t\tif (not (bdf.type & BDFType.SPECULAR)) and n_match > 1:\n\t\t\tfor func in self.bdfs:\n\t\t\t\tif func != bdf and func.match_flag(flags):\n\t\t\t\t\tpdf += func.pdf(wo, wi)\n\n\t\tif n_match > 1:\n\t\t\tpdf /= n_match\n",
	 "\t\tif (not (bdf.type & BDFType.SPECULAR)) and n_match > 1:\n\t\t\tfor func in self.bdfs:\n\t\t\t\tif func != bdf and func.match_flag(flags):\n\t\t\t\t\tpdf += func.pdf(wo, wi)\n\t\t\tpdf /= n_match\n"),
], 'a material of specular and other parts sampled for all of them',
 'a specular sample is given with the density it has were it the only part', SCENE + '''
	from pytracer.material import UberMaterial
	from pytracer.reflection import BDFType, BSDF, BSDFSample, Lambertian, SpecularReflection, FresnelFullReflect
	g = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
		geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), .5, .5, disk(0., 0., 0., 1.))
	b = BSDF(g, g.nn)
	b.push_back(Lambertian(Spectrum(.5)))
	b.push_back(SpecularReflection(Spectrum(.5), FresnelFullReflect()))
	pdf, wi, t, f = b.sample_f(geo.normalize(geo.Vector(.3, 0., 1.)), BSDFSample(.5, .5, .75), BDFType.ALL)
	assert t & BDFType.SPECULAR
	assert abs(pdf - .5) < 1e-9, pdf
''')

bug('point-one-tester', 'C19', [
	(LI, "\t\tself.pos = l2w(geo.Point(0., 0., 0.)) # where the light is positioned in the world\n\t\tself.intensity = intensity\n\n\tdef sample_l",
	 "\t\tself.pos = l2w(geo.Point(0., 0., 0.)) # where the light is positioned in the world\n\t\tself.intensity = intensity\n\t\tself.vis = VisibilityTester()\n\n\tdef sample_l"),
	(LI, "\t\tvis = VisibilityTester()\n\t\tvis.set_segment(p, pEps, self.pos, 0., time)\n\t\treturn [self.intensity / (self.pos - p).sq_length(), wi, pdf, vis]\n",
	 "\t\tself.vis.set_segment(p, pEps, self.pos, 0., time)\n\t\treturn [self.intensity / (self.pos - p).sq_length(), wi, pdf, self.vis]\n"),
], 'a second point asking one point light before the first has tested its shadow',
 'the shadow of one point is decided by the segment of another', SCENE + '''
	l = lt.PointLight(T.translate(geo.Vector(0., 0., 5.)), Spectrum(1.))
	sc = Scene(Simple([prim(disk(0., 0., 2., 1.))]), [l], None)
	ls = lt.utility.LightSample(.5, .5, .5)
	_, _, _, v = l.sample_l(geo.Point(0., 0., 0.), 1e-3, ls, 0.)
	l.sample_l(geo.Point(9., 0., 0.), 1e-3, ls, 0.)
	assert not v.unoccluded(sc)
''')

bug('distant-bound-memo', 'C19', [
	(LI, "\t\tself.di = geo.normalize(l2w(di))\n\t\tself.l = radiance\n", "\t\tself.di = geo.normalize(l2w(di))\n\t\tself.l = radiance\n\t\tself.sphere = None\t# of the scene\n"),
	(LI, "\t\tctr, rad = scene.world_bound().bounding_sphere()\n\t\t_, v1, v2 = geo.coordinate_system(self.di)\n\t\td1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])\n\t\tpnt = ctr + rad * (d1 * v1 + d2 * v2)\n\n\t\t# set ray\n\t\tray = geo.Ray(pnt + rad * self.di, -self.di",
	 "\t\tif self.sphere is None:\n\t\t\tself.sphere = scene.world_bound().bounding_sphere()\n\t\tctr, rad = self.sphere\n\t\t_, v1, v2 = geo.coordinate_system(self.di)\n\t\td1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])\n\t\tpnt = ctr + rad * (d1 * v1 + d2 * v2)\n\n\t\t# set ray\n\t\tray = geo.Ray(pnt + rad * self.di, -self.di"),
], 'one distant light in two scenes of different size',
 'rays leaving the light in the second scene start on the disk around the first one', SCENE + '''
	l = lt.DistantLight(T(), Spectrum(1.), geo.Vector(0., 0., 1.))
	m = lt.DistantLight(T(), Spectrum(1.), geo.Vector(0., 0., 1.))
	a = Scene(Simple([prim(disk(0., 0., 0., 1.))]), [l], None)
	b = Scene(Simple([prim(disk(9., 0., 0., 7.))]), [l], None)
	ls = lt.utility.LightSample(.3, .8, .5)
	l.sample_r(a, ls, .5, .5, 0.)
	r, _, p, _ = l.sample_r(b, ls, .5, .5, 0.)
	s, _, q, _ = m.sample_r(b, ls, .5, .5, 0.)
	assert np.allclose([r.o.x, r.o.y, r.o.z, p], [s.o.x, s.o.y, s.o.z, q])
''')

bug('cylinder-hole-shadow', 'C20', [
	(CY, "\t\t\tif phit.z < self.zmin or phit.z > self.zmax or phi > self.phiMax:\n\t\t\t\tif thit == t1 or t1 > ray.maxt:\n\t\t\t\t\treturn False\n",
	 "\t\t\tif phit.z < self.zmin or phit.z > self.zmax:\n\t\t\t\treturn False\n"),
], 'a shadow ray that meets the whole of a partial cylinder in its missing part twice',
 'shadow queries report a hit on the part of the cylinder that is not there', SCENE + '''
	from pytracer.shape import Cylinder
	c = Cylinder(T(), T(), False, 1., -1., 1., 90.)
	r = geo.Ray(geo.Point(-.5, -5., 0.), geo.Vector(.0, 1., 0.), 0., np.inf)
	hit = c.intersect(geo.Ray(geo.Point(-.5, -5., 0.), geo.Vector(.0, 1., 0.), 0., np.inf))[0]
	assert bool(c.intersect_p(r)) == bool(hit) == False, hit
''')

bug('sphere-partial-beyond', 'C20', [
	(SP, "\t\t\tif thit == t1 or t1 > ray.maxt:\n\t\t\t\treturn [False, None, None, None]\n", "\t\t\tif thit == t1:\n\t\t\t\treturn [False, None, None, None]\n"),
], 'a partial sphere whose near side is missing where the ray meets it, the far side beyond the end of the ray',
 'a hit beyond the end of the ray is reported', SCENE + '''
	s = Sphere(T(), T(), False, 1., -1., .5, 360.)
	r = geo.Ray(geo.Point(0.1, 0., 5.), geo.Vector(0., 0., -1.), 0., 5.)
	assert not s.intersect(r)[0]
''')
