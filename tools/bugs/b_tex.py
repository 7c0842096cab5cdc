from mk import bug
from b_render import SCENE
from b_shapes import MEET

TX = 'pytracer/texture/texture/__init__.py'
TU = 'pytracer/texture/utility.py'
TM = 'pytracer/texture/texturemap/__init__.py'
MA = 'pytracer/material/material.py'
LI = 'pytracer/light/light.py'

POINT = '''
	import pytracer.transform as trans
	def point(p=(0., 0., 0.), u=0., v=0., du=(1., 0., 0.), dv=(0., 1., 0.)):
		return geo.DifferentialGeometry(geo.Point(*p), geo.Vector(*du), geo.Vector(*dv), geo.Normal(0., 0., 0.),
			geo.Normal(0., 0., 0.), u, v, disk(0., 0., 1., 1.))
'''

bug('noise-hash-key', 'C23', [
	(TU, "def _grad(x: INT, y: INT, z: INT, dx, dy, dz):\n\tfrom pytracer.data.noise import NOISE_PERM\n\th = NOISE_PERM[NOISE_PERM[NOISE_PERM[x] + y] + z]\n\th &= INT(15)  # lowest 4 bits\n",
	 "_column = {}\t# hash of the lattice column (x, y)\n\n\ndef _grad(x: INT, y: INT, z: INT, dx, dy, dz):\n\tfrom pytracer.data.noise import NOISE_PERM\n\tkey = x << 8 | y\n\tif key not in _column:\n\t\t_column[key] = NOISE_PERM[NOISE_PERM[x] + y]\n\th = NOISE_PERM[_column[key] + z]\n\th &= INT(15)  # lowest 4 bits\n"),
], 'a point just below y = 0 after, or before, points of the first row of cells in the next column',
 'lattice points at the end of the table share the gradient of other columns, depending on which was met first', SCENE + '''
	from pytracer.texture.utility import noise
	pts = [(x + .3, y + .6, .4) for x in (0., 1., 2., 3.) for y in (0., -1.)]
	def fresh(p):
		import subprocess, sys
		out = subprocess.check_output([sys.executable, '-W', 'ignore', '-c',
			'from pytracer.texture.utility import noise; print(repr(float(noise(%r))))' % (p,)])
		return float(out.split()[-1])
	got = [float(noise(p)) for p in pts]
	for p, v in zip(pts, got):
		assert abs(v - fresh(p)) < 1e-12, (p, v, fresh(p))
''')

bug('mix-in-place', 'C23', [
	(TX, "\t\tt = self.amt(dg)\n\t\treturn (1. - t) * self.tex1(dg) + t * self.tex2(dg)\n",
	 "\t\tt = self.amt(dg)\n\t\tval = self.tex1(dg)\n\t\tif t == 0.:\n\t\t\treturn val\n\t\tval *= 1. - t\n\t\tval += t * self.tex2(dg)\n\t\treturn val\n"),
], 'a mixture whose first part is a constant colour, evaluated twice',
 'the constant that is mixed into takes the value of the mixture', SCENE + '''
	from pytracer.texture import *
	from pytracer.texture.texture import MixTexture
	a = ConstantTexture(Spectrum([.8, .4, .2]))
	m = MixTexture(a, ConstantTexture(Spectrum([.2, .2, .2])), ConstantTexture(.5))
	first = [float(x) for x in m(None)]
	again = [float(x) for x in m(None)]
	assert np.allclose(first, [.5, .3, .2]) and again == first, (first, again)
	assert np.allclose([float(x) for x in a(None)], [.8, .4, .2])
''')

bug('checker-parity-kept', 'C23', [
	(TX, "\t\tp, _, _ = self.mapping(dg)\n\n\t\tif (util.ftoi(p.x) + util.ftoi(p.y) + util.ftoi(p.z)) % 2 == 0:\n\t\t\treturn self.tex1(dg)\n\t\treturn self.tex2(dg)\n",
	 "\t\tself.p, _, _ = self.mapping(dg)\n\n\t\tif self.even():\n\t\t\treturn self.tex1(dg)\n\t\treturn self.tex2(dg)\n\n\tdef even(self) -> bool:\n\t\treturn (util.ftoi(self.p.x) + util.ftoi(self.p.y) + util.ftoi(self.p.z)) % 2 == 0\n"),
], 'two tasks evaluating one solid checkerboard at once',
 'a task gets the check of the point another task has mapped meanwhile', SCENE + POINT + MEET + '''
	from pytracer.texture.texture import Checkboard3DTexture
	from pytracer.texture.texturemap import IdentityMapping3D
	t = Checkboard3DTexture(IdentityMapping3D(trans.Transform()), ConstantTexture(1.), ConstantTexture(2.))
	a, b = point((.5, .5, .5)), point((1.5, .5, .5))
	for got in meet(lambda: t(a), lambda: t(b), '__call__'):
		assert got == 1., got
''')

bug('dots-cell-kept', 'C23', [
	(TX, "\t\tself.inside_dot = inside\n\t\tself.outside_dot = outside\n", "\t\tself.inside_dot = inside\n\t\tself.outside_dot = outside\n\t\tself.cell = None\t# cell evaluated last, and whether it has a dot\n\t\tself.dot = False\n"),
	(TX, "\t\tsc = util.ftoi(s + .5)\n\t\ttc = util.ftoi(t + .5)\n", "\t\tsc, tc = util.ftoi(s + .5), util.ftoi(t + .5)\n"),
	(TX, "\t\tif noise((sc + .5, tc + .5, .5)) > 0. :\n", "\t\tif self.cell != (sc, tc):\n\t\t\tself.cell = (sc, tc)\n\t\t\tself.dot = noise((sc + .5, tc + .5, .5)) > 0.\n\t\tif self.dot:\n"),
], 'a failure (or another task) between noting the cell and computing its noise, and the same cell next',
 'the cell is taken to have the dot of the cell before it', SCENE + POINT + '''
	import pytracer.texture.utility as tu
	from pytracer.texture.texture import DotsTexture
	from pytracer.texture.texturemap import UVMapping2D
	def make():
		return DotsTexture(UVMapping2D(1., 1., 0., 0.), ConstantTexture(1.), ConstantTexture(2.))
	real = tu.noise
	cells = [(float(s), float(t)) for s in range(4) for t in range(4)]
	want = {c: make()(point(u=c[0], v=c[1])) for c in cells}
	has = [c for c in cells if want[c] == 1.]
	none = [c for c in cells if real((c[0] + .5, c[1] + .5, .5)) <= 0.]
	assert has and none
	for before, c in ((has[0], none[0]), (none[0], has[0])):
		t = make()
		t(point(u=before[0], v=before[1]))
		def fail(p):
			raise MemoryError()
		tu.noise = fail
		try:
			t(point(u=c[0], v=c[1]))
		except MemoryError:
			pass
		finally:
			tu.noise = real
		got = t(point(u=c[0], v=c[1]))
		assert got == want[c], (c, got, want[c])
''')

bug('bump-in-place', 'C24', [
	(MA, "\t\tdg = dgs.copy()\n\t\t## shift du in u\n", "\t\tdg = dgs\n\t\tp, u, v, nn = dgs.p, dgs.u, dgs.v, dgs.nn\n\t\t## shift du in u\n"),
	(MA, "\t\tdg.p = dgs.p + du * dgs.dpdu\n\t\tdg.u = dgs.u + du\n", "\t\tdg.p = p + du * dgs.dpdu\n\t\tdg.u = u + du\n"),
	(MA, "\t\tdg.p = dgs.p + dv * dgs.dpdv\n\t\tdg.u = dgs.u\n", "\t\tdg.p, dg.nn = p + dv * dgs.dpdv, nn\n\t\tdg.u = u\n"),
	(MA, "\t\tdisp = d(dgs)\n", "\t\tdg.p, dg.u, dg.v, dg.nn = p, u, v, nn\n\t\tdisp = d(dgs)\n"),
], 'a displacement texture that fails, or two tasks at one shading point',
 'a shading point stays displaced when its displacement cannot be computed', SCENE + POINT + '''
	from pytracer.material import MatteMaterial
	class Bump(object):
		left = 2
		def __call__(self, dg):
			self.left -= 1
			if self.left == 0:
				raise MemoryError()
			return .1 * dg.u
	one = ConstantTexture(Spectrum(.5))
	m = MatteMaterial(one, ConstantTexture(0.), Bump())
	a = point(u=.3, v=.4)
	try:
		m.get_bsdf(a, a)
	except MemoryError:
		pass
	assert a.u == .3 and a.v == .4 and list(a.p) == [0., 0., 0.], (a.u, a.v, a.p)
''')

bug('bump-disp-memo', 'C24', [
	(MA, "\t\tdisp = d(dgs)\n", "\t\tkey, last = (id(d), dgs.u, dgs.v), Material.bumped\n\t\tif last is None or last[0] != key:\n\t\t\tlast = Material.bumped = (key, d(dgs))\n\t\tdisp = last[1]\n"),
	(MA, "class Material(object, metaclass=ABCMeta):\n\t\"\"\"\n\tMaterial Class\n\t\"\"\"\n", "class Material(object, metaclass=ABCMeta):\n\t\"\"\"\n\tMaterial Class\n\t\"\"\"\n\tbumped = None\t# displacement computed last\n"),
], 'a displacement that depends on the place, and two points of equal parameters on different shapes in succession',
 'a point is displaced as the point before it, so its slope is wrong', SCENE + POINT + '''
	from pytracer.material import MirrorMaterial
	from pytracer.reflection import BDFType, BSDFSample
	class Bump(object):
		def __call__(self, dg):
			return .3 * dg.p.x
	m = MirrorMaterial(ConstantTexture(Spectrum(1.)), Bump())
	def normal(a):
		b = m.get_bsdf(a, a)
		_, wi, _, _ = b.sample_f(geo.Vector(0., 0., 1.), BSDFSample(.5, .5, .5), BDFType.ALL)
		return [float(x) for x in wi]
	def at(x):
		a = point((x, 0., 0.), .25, .5)
		a.nn = geo.Normal(0., 0., 1.)
		return a
	first = normal(at(0.))
	again = normal(at(2.))
	assert np.allclose(first, again), (first, again)
''')

IMAGE = '''
	import pytracer.transform as trans
	import PIL.Image
	from pytracer.light import *
	from pytracer.light.utility import LightSample
	def image(name, a):
		f = os.path.join(os.environ['SCRATCH'], name)
		os.makedirs(os.path.dirname(f), exist_ok=True)
		PIL.Image.fromarray(np.array(a, dtype=np.uint8)).save(f)
		return f
	def grey(v, w=2, h=2):
		return [[[v, v, v]] * h] * w
'''

bug('gonio-map-names', 'C25', [
	(LI, "\t\t\tself.MIPMap = MIPMap(RGBSpectrum, texels)\n", "\t\t\tname = texname.replace('\\\\', '/').split('/')[-1]\n\t\t\tif name not in GonioPhotometricLight.maps:\n\t\t\t\tGonioPhotometricLight.maps[name] = MIPMap(RGBSpectrum, texels)\n\t\t\tself.MIPMap = GonioPhotometricLight.maps[name]\n"),
	(LI, "class GonioPhotometricLight(Light):\n", "class GonioPhotometricLight(Light):\n\tmaps = {}\t# lights of one kind share their map\n\n"),
], 'two goniophotometric lights whose images have one name in different folders',
 'the second light shines as the first one', SCENE + IMAGE + '''
	for n, v in (('a/lamp.png', 40), ('b/lamp.png', 200)):
		l = GonioPhotometricLight(trans.Transform(), Spectrum(1.), image(n, grey(v)))
		L, wi, pdf, vis = l.sample_l(geo.Point(1., 0., 0.), 0., LightSample(.5, .5, .5), 0.)
		assert abs(float(L[0]) - v) < 1e-6, (n, L)
''')

bug('env-direction-kept', 'C25', [
	(LI, "\t\tuv, pdf = self.dist.sample_cont(ls.u_pos[0], ls.u_pos[1])\n\n\t\t# convert inf light sample pnt to direction\n\t\ttheta = uv[1] * PI\n\t\tphi = uv[0] * 2. * PI\n",
	 "\t\tself.uv, pdf = self.dist.sample_cont(ls.u_pos[0], ls.u_pos[1])\n\t\tuv = self.uv\n\n\t\t# convert inf light sample pnt to direction\n\t\ttheta = uv[1] * PI\n\t\tphi = uv[0] * 2. * PI\n"),
	(LI, "\t\treturn [Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT),\n\t\t\t\t\twi, pdf, vis]\n",
	 "\t\treturn [self.emitted(), wi, pdf, vis]\n\n\tdef emitted(self) -> 'Spectrum':\n\t\treturn Spectrum.from_rgb(self.radMap.look_up(self.uv), SpectrumType.ILLUMINANT)\n"),
], 'two tasks that draw a direction of one environment at once',
 'a task gets the radiance of the direction another task has drawn', SCENE + IMAGE + MEET + '''
	l = InfiniteAreaLight(trans.Transform(), Spectrum(1.), 1, image('sky.png', [[[10, 20, 30], [200, 100, 50]],
		[[90, 90, 90], [5, 250, 5]]]))
	def one(u):
		L, wi, pdf, vis = l.sample_l(geo.Point(0., 0., 0.), 0., LightSample(u, u, .5), 0.)
		return [float(x) for x in L]
	want = one(.2)
	for got in meet(lambda: one(.2), lambda: one(.9), 'sample_l'):
		assert got == want, (got, want)
''')

bug('proj-behind', 'C25', [
	(LI, "\t\tif wl.z < self.hither:\n\t\t\treturn Spectrum(0.)\n", "\t\tif wl.z == 0.:\n\t\t\treturn Spectrum(0.)\n"),
], 'a point behind a projector, within the mirrored beam',
 'a projector shines backwards as well', SCENE + IMAGE + '''
	l = ProjectionLight(trans.Transform(), Spectrum(1.), image('p.png', grey(100)), 60.)
	for z, v in ((2., 25.), (-2., 0.)):
		L, wi, pdf, vis = l.sample_l(geo.Point(.1, .1, z), 0., LightSample(.5, .5, .5), 0.)
		assert abs(float(L[0]) - v) < .2, (z, L)
''')
