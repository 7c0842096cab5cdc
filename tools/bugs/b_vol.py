from mk import bug
from b_render import SCENE
from b_shapes import MEET

VO = 'pytracer/volume/volume.py'
VU = 'pytracer/volume/utility.py'
IU = 'pytracer/integrator/utility.py'

REGION = '''
	import pytracer.volume.volume as vol
	box = lambda a, b: geo.BBox(geo.Point(*a), geo.Point(*b))
	sp = lambda v: [float(x) for x in v]
	def homog(a, b, sa=(.1, .2, .3), ss=(.4, .5, .6), g=.3):
		return vol.HomogeneousVolumeDensity(Spectrum(list(sa)), Spectrum(list(ss)), g, Spectrum(.5), box(a, b), T())
'''

bug('media-hit-kept', 'C26', [
	(VO, "\t\tt0 = np.inf\n\t\tt1 = -np.inf\n\t\tfor region in self.regions:\n\t\t\tisect, r0, r1 = region.intersect_p(ray)\n\t\t\tif isect:\n\t\t\t\tt0 = min(t0, r0)\n\t\t\t\tt1 = max(t1, r1)\n\t\treturn [(t0 < t1), t0, t1]\n",
	 "\t\tself.span = [np.inf, -np.inf]\n\t\tfor region in self.regions:\n\t\t\tself.widen(region.intersect_p(ray))\n\t\tt0, t1 = self.span\n\t\treturn [(t0 < t1), t0, t1]\n\n\tdef widen(self, hit):\n\t\tisect, r0, r1 = hit\n\t\tif isect:\n\t\t\tself.span = [min(self.span[0], r0), max(self.span[1], r1)]\n"),
], 'two tasks asking one set of media where their rays are inside',
 'a ray is inside where the ray of another task is', SCENE + REGION + MEET + '''
	m = vol.AggregateVolume([homog((0., 0., 0.), (1., 1., 1.)), homog((2., 0., 0.), (3., 1., 1.))])
	a = geo.Ray(geo.Point(-1., .5, .5), geo.Vector(1., 0., 0.), 0., 2.5)
	b = geo.Ray(geo.Point(-5., .5, .5), geo.Vector(1., 0., 0.))
	for hit, t0, t1 in meet(lambda: m.intersect_p(a), lambda: m.intersect_p(b), 'intersect_p'):
		assert hit and abs(t0 - 1.) < 1e-6 and abs(t1 - 2.) < 1e-6, (hit, t0, t1)
''')

bug('media-grid-shared', 'C26', [
	(VO, "\t\tself.density = d.copy() \t# 3D np array", "\t\tself.density = np.asarray(d) \t# 3D np array"),
], 'the caller filling his array again for the next region',
 'a grid takes the densities of the region made after it', SCENE + REGION + '''
	buf = np.full((2, 2, 2), 1.)
	def grid():
		return vol.VolumeGridDensity(Spectrum(.1), Spectrum(.2), 0., Spectrum(0.), box((0., 0., 0.), (1., 1., 1.)), T(), buf)
	a = grid()
	buf[...] = 3.
	b = grid()
	got = [float(r.sigma_a(geo.Point(.4, .5, .6), None, 0.)[0]) for r in (a, b)]
	assert np.allclose(got, [.1, .3]), got
''')

bug('media-cell-kept', 'C26', [
	(VO, "\t\t# trilinearly interpolation\n\t\td00 = util.lerp(dx, self.__D(vx, vy, vz), self.__D(vx+1,vy,vz))\n\t\td10 = util.lerp(dx, self.__D(vx, vy+1, vz), self.__D(vx+1,vy+1,vz))\n\t\td01 = util.lerp(dx, self.__D(vx, vy, vz+1), self.__D(vx+1,vy,vz+1))\n\t\td11 = util.lerp(dx, self.__D(vx, vy+1, vz+1), self.__D(vx+1,vy+1,vz+1))\n",
	 "\t\t# trilinearly interpolation; successive points mostly share their cell\n\t\tcell = (vx, vy, vz)\n\t\tif getattr(self, 'cell', None) != cell:\n\t\t\tself.cell = cell\n\t\t\tself.corners = [self.__D(vx + (i & 1), vy + (i >> 1 & 1), vz + (i >> 2)) for i in range(8)]\n\t\tc = self.corners\n\t\td00 = util.lerp(dx, c[0], c[1])\n\t\td10 = util.lerp(dx, c[2], c[3])\n\t\td01 = util.lerp(dx, c[4], c[5])\n\t\td11 = util.lerp(dx, c[6], c[7])\n"),
], 'two tasks in different cells of one grid at once',
 'a task interpolates the corners of the cell of another task', SCENE + REGION + MEET + '''
	def grid():
		return vol.VolumeGridDensity(Spectrum(1.), Spectrum(0.), 0., Spectrum(0.), box((0., 0., 0.), (4., 1., 1.)), T(),
			np.array([[[1., 2., 3., 4.]]]))
	r = [grid()]
	def first():
		r[0] = grid()
		return float(r[0](geo.Point(.6, .5, .5)))
	for got in meet(first, lambda: r[0](geo.Point(3.1, .5, .5)), '__call__'):
		assert abs(got - 1.1) < 1e-9, got
''')

bug('media-below-ground', 'C26', [
	(VO, "\t\th = (pnt - self.extent.pMin).dot(self.up)\n\t\treturn self.a * np.exp(-self.b * h)\n",
	 "\t\th = (pnt - self.extent.pMin).dot(self.up)\n\t\treturn self.a * np.exp(-self.b * max(h, 0.))\n"),
], 'an exponential region whose way up does not point away from its lower corner, and a point below that',
 'the density stops growing there, against its formula', SCENE + REGION + '''
	r = vol.ExponentialDensity(Spectrum(1.), Spectrum(0.), 0., Spectrum(0.), box((0., 0., 0.), (1., 1., 1.)), T(), 2., 1.5, geo.Vector(0., -1., 0.))
	for y in (.25, .75):
		got = float(r.sigma_a(geo.Point(.5, y, .5), None, 0.)[0])
		assert abs(got - 2. * np.exp(1.5 * y)) < 1e-6, (y, got)
''')

bug('media-path-of-ray', 'C26', [
	(VO, "\t\t\treturn (ray(t1) - ray(t0)).length() * (self.sig_a + self.sig_s)\n",
	 "\t\t\tr = self.w2v(ray)\n\t\t\treturn (r(t1) - r(t0)).length() * (self.sig_a + self.sig_s)\n"),
], 'a homogeneous region placed by a scaling',
 'the optical thickness is that of the way inside the unscaled region', SCENE + REGION + '''
	r = vol.HomogeneousVolumeDensity(Spectrum(.1), Spectrum(.2), 0., Spectrum(0.), box((0., 0., 0.), (1., 1., 1.)), T.scale(3., 1., 1.))
	got = float(r.tau(geo.Ray(geo.Point(-1., .5, .5), geo.Vector(2., 0., 0.)))[0])
	assert abs(got - .9) < 1e-6, got
''')

bug('media-total-added', 'C26', [
	(VO, "\tdef sigma_t(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':\n\t\ts = Spectrum(0.)\n\t\tfor region in self.regions:\n\t\t\ts += region.sigma_t(pnt, w, tm)\n\t\treturn s\n",
	 "\tdef sigma_t(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':\n\t\ts = None\n\t\tfor region in self.regions:\n\t\t\tt = region.sigma_t(pnt, w, tm)\n\t\t\tif s is None:\n\t\t\t\ts = t\n\t\t\telse:\n\t\t\t\ts += t\n\t\treturn Spectrum(0.) if s is None else s\n"),
	(VO, "\t\treturn (self.sig_s + self.sig_a) if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)\t\t\n",
	 "\t\treturn self.sig_t if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)\n"),
	(VO, "\t\tself.extent = extent\n\t\tself.w2v = v2w.inverse()\t# note", "\t\tself.sig_t = sig_a + sig_s\n\t\tself.extent = extent\n\t\tself.w2v = v2w.inverse()\t# note"),
], 'a set of overlapping media, the first one homogeneous, asked more than once',
 'the extinction of the first region grows by that of the others every time', SCENE + REGION + '''
	a, b = homog((0., 0., 0.), (1., 1., 1.)), homog((.5, 0., 0.), (2., 1., 1.), (1., 1., 1.), (1., 1., 1.))
	m = vol.AggregateVolume([a, b])
	p = geo.Point(.7, .5, .5)
	for _ in range(3):
		got = sp(m.sigma_t(p, None, 0.))
		assert np.allclose(got, [2.5, 2.7, 2.9]), got
''')

