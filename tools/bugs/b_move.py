from mk import bug
from b_render import SCENE
from b_shapes import MEET

PR = 'pytracer/aggregate/primitive.py'
TF = 'pytracer/transform/__init__.py'
LS = 'pytracer/shape/loopsubdiv.py'
ME = 'pytracer/reflection/bdf/measured.py'
BV = 'pytracer/aggregate/accelerator/bvh.py'
MA = 'pytracer/material/material.py'

OBJ = '''
	from pytracer.shape import Sphere, LoopSubdiv
	from pytracer.aggregate import TransformedPrimitive, BVH
	def ball(x=0.):
		t = Transform.translate(geo.Vector(x, 0., 0.))
		return GeometricPrimitive(Sphere(t, t.inverse(), False, 1., -1., 1., 360.), None)
	def move(a, b, s=(1., 1., 1.)):
		ts = [Transform.translate(geo.Vector(*v)) * Transform.scale(*s) for v in (a, b)]
		return AnimatedTransform(ts[0], 0., ts[1], 1.)
	def ray(o, d, t=0.):
		return geo.RayDifferential(geo.Point(*o), geo.Vector(*d), 0., np.inf, 0, t)
'''

SUB = OBJ + '''
	def surface(P, F, n, ro=False):
		return LoopSubdiv(Transform(), Transform(), ro, len(F), len(P), [i for f in F for i in f], [geo.Point(*p) for p in P], n)
	TETRA = [[1., 1., 1.], [-1., -1., 1.], [-1., 1., -1.], [1., -1., -1.]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
	def points(m):
		return np.array([[p.x, p.y, p.z] for p in m.p])
'''

bug('moving-scratch-ray', 'C28', [
	(PR, "\t\treturn self.primitive.intersect_p(self.w2p(r))\t\t\n", "\t\tself.ray = self.w2p(r)\n\t\treturn self.primitive.intersect_p(self.ray)\n"),
], 'two tasks that send shadow rays at one moving object',
 'a task asks for the ray another task has just moved', SCENE + OBJ + MEET + '''
	p = TransformedPrimitive(ball(), move((0., 0., 0.), (2., 0., 0.)))
	for got in meet(lambda: p.intersect_p(ray((0., 0., -5.), (0., 0., 1.))),
			lambda: p.intersect_p(ray((9., 0., -5.), (0., 0., 1.))), 'intersect_p'):
		assert got
''')

bug('motion-last-time', 'C28', [
	(TF, "\t\tself.animated = (t1 != t2)\n", "\t\tself.animated = (t1 != t2)\n\t\tself.time = self.at = None\t# most rays of a pixel have one time\n"),
	(TF, "\t\tdt = (time - self.startTime) / (self.endTime - self.startTime)\n", "\t\tif time == self.time and self.at is not None:\n\t\t\treturn self.at\n\t\tself.time = time\n\t\tdt = (time - self.startTime) / (self.endTime - self.startTime)\n"),
	(TF, "\t\treturn Transform.translate(trans) *\\\n\t\t       to_transform(rot) *\\\n\t\t       Transform(scale)\n", "\t\tself.at = Transform.translate(trans) *\\\n\t\t       to_transform(rot) *\\\n\t\t       Transform(scale)\n\t\treturn self.at\n"),
], 'two tasks at different times in one motion, or working out a place that fails',
 'the place at one time is given for another', SCENE + OBJ + MEET + '''
	m = move((0., 0., 0.), (2., 0., 0.))
	def at(t):
		return float(m.interpolate(t).m[0, 3])
	def other():
		assert abs(at(.75) - 1.5) < 1e-6
	for got in meet(lambda: at(.25), other, 'interpolate'):
		assert abs(got - .5) < 1e-6, got
		assert abs(at(.75) - 1.5) < 1e-6
		assert abs(at(.25) - .5) < 1e-6, at(.25)
		at(.5)
''')

bug('motion-bounds-body', 'C28', [
	(PR, "\t\treturn self.w2p.motion_bounds(self.primitive.world_bound(), True)\n",
	 "\t\tif getattr(self.primitive, 'moved', None) is None:\n\t\t\t# sampled at many times: keep it\n\t\t\tself.primitive.moved = self.w2p.motion_bounds(self.primitive.world_bound(), True)\n\t\treturn self.primitive.moved\n"),
], 'one object placed twice, in different places', 'the second is looked for in the box of the first', SCENE + OBJ + '''
	b = ball()
	ps = [TransformedPrimitive(b, move((x, 0., 0.), (x, 0., 0.))) for x in (0., 6., -6.)]
	agg = BVH(ps, 1)
	for x in (0., -6., 6.):
		assert agg.intersect_p(ray((x, 0., -5.), (0., 0., 1.))), x
''')

bug('moved-twice-frame', 'C28', [
	(PR, "\t\t\tisect.w2o = isect.w2o * w2p\n", "\t\t\tisect.w2o = isect.primitive.shape.w2o * w2p\n"),
], 'an object moved as part of something that moves', 'the frame of the hit lacks the inner motion', SCENE + OBJ + '''
	p = TransformedPrimitive(TransformedPrimitive(ball(), move((1., 0., 0.), (1., 0., 0.))), move((0., 2., 0.), (0., 2., 0.)))
	i = Intersection()
	assert p.intersect(ray((-1., -2., -5.), (0., 0., 1.)), i)
	assert np.allclose(i.w2o.m[:3, 3], [1., 2., 0.]), i.w2o.m
''')

bug('subdiv-shared-sum', 'C29', [
	(LS, "\t\tP = (1. - valence * beta) * vert.P\n\t\tfor p in p_ring:\n\t\t\tP += beta * p\n\t\treturn P\n",
	 "\t\tself.sum = (1. - valence * beta) * vert.P\n\t\tfor p in p_ring:\n\t\t\tself.sum += beta * p\n\t\treturn self.sum\n"),
], 'two tasks that take one surface apart', 'vertices are those another task is working out', SCENE + SUB + MEET + '''
	want = points(surface(TETRA[0], TETRA[1], 1).refine()[0])
	s = surface(TETRA[0], TETRA[1], 1)
	k = 0
	for got in meet(lambda: points(s.refine()[0]), lambda: s.refine(), 'weight_one_ring'):
		assert got.shape == want.shape
		assert np.abs(np.sort(got, axis=0) - np.sort(want, axis=0)).max() < 1e-6, (got, want)
		k += 1
		if k > 30:
			break
''')

bug('subdiv-level-left', 'C29', [
	(LS, "\t\tself.nLevels = nl\n", "\t\tself.nLevels = nl\n\t\tself.level = 0\n"),
	(LS, "\t\tfor i in range(self.nLevels):\n\t\t\tnew_faces = []\n", "\t\twhile self.level < self.nLevels:\n\t\t\tself.level += 1\n\t\t\tnew_faces = []\n"),
	(LS, "\t\tPlimit = []  # [geo.Point]\n", "\t\tself.level = 0\n\t\tPlimit = []  # [geo.Point]\n"),
], 'a surface taken apart again after a failure in the middle, or by two tasks at once',
 'the surface is subdivided too few times', SCENE + SUB + '''
	s = surface(TETRA[0], TETRA[1], 2)
	want = len(points(surface(TETRA[0], TETRA[1], 2).refine()[0]))
	keep, left = LoopSubdiv.weight_one_ring, [6]
	def failing(*a):
		left[0] -= 1
		if left[0] < 0:
			raise MemoryError()
		return keep(*a)
	LoopSubdiv.weight_one_ring = failing
	try:
		s.refine()
		assert False
	except MemoryError:
		pass
	LoopSubdiv.weight_one_ring = keep
	assert len(points(s.refine()[0])) == want
''')

bug('subdiv-border-fan', 'C29', [
	(LS, "\t\t\t\t\tT += np.sum([((2 * np.cos(theta) - 2) * np.sin(k * theta)) * \\\n\t\t\t\t\t             Pring[k] for k in range(valence - 1)], axis=0)\n",
	 "\t\t\t\t\tT += np.sum([((2 * np.cos(theta) - 2) * np.sin(k * theta)) * \\\n\t\t\t\t\t             Pring[k] for k in range(valence - 2)], axis=0)\n"),
], 'a border vertex with at least five edges', 'the normal there is that of another surface', SCENE + SUB + '''
	P = [[0., 0., 0.]] + [[np.cos(a), np.sin(a), .4 * np.sin(2. * a)] for a in np.linspace(0., np.pi, 5)]
	m = surface(P, [[0, i, i + 1] for i in range(1, 5)], 0).refine()[0]
	n = np.array([m.n[0].x, m.n[0].y, m.n[0].z])
	n /= np.linalg.norm(n)
	# half a turn about y takes the surface to itself, seen from the other side
	assert abs(n[1]) < 1e-3 and abs(n[0] + .1073) < 1e-3, n
''')

bug('table-bins-kept', 'C10', [
	(ME, "\t\tself.nPhiD = INT(npd)\n", "\t\tself.nPhiD = INT(npd)\n\n\tbins = {}\t# of pairs of directions met before\n"),
	(ME, "\t\t# find wh and transform wi to halfangle coord. system\n", "\t\tkey = (wo.x, wo.y, wo.z, wi.x, wi.y, wi.z)\n\t\tif key in self.bins:\n\t\t\treturn Spectrum.from_rgb(self.brdf[self.bins[key]])\n\t\t# find wh and transform wi to halfangle coord. system\n"),
	(ME, "\t\treturn Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])", "\t\tself.bins[key] = (wht_idx, wdt_idx, wdp_idx)\n\t\treturn Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])"),
], 'two tables of different resolution and one pair of directions', 'the second table is read in the bin of the first',
 SCENE + '''
	from pytracer.reflection import ReHalfangleBRDF
	def table(*n):
		k = np.arange(float(np.prod(n))).reshape(n)
		return ReHalfangleBRDF(np.stack([k, k, k], axis=-1), *n)
	def norm(v):
		v = np.array(v)
		return geo.Vector(*(v / np.linalg.norm(v)))
	a, b = norm([.3, .5, .6]), norm([-.6, .7, .4])
	alone = float(table(8, 8, 16).f(a, b)[0])
	c, d = norm([.31, .5, .6]), norm([-.6, .71, .4])
	table(2, 2, 2).f(c, d)
	want = float(table(8, 8, 16).f(norm([.3100001, .5, .6]), d)[0])
	assert float(table(8, 8, 16).f(c, d)[0]) == want
''')

bug('bvh-one-stack', 'C07', [
	(BV, "\t\ttodo_idx = 0\n\t\tnode_idx = 0\n\t\ttodo = [None] * 64\n", "\t\ttodo_idx = 0\n\t\tnode_idx = 0\n\t\tif not hasattr(self, 'todo'):\n\t\t\tself.todo = [None] * 64\n\t\ttodo = self.todo\n", 0),
], 'two tasks that look for hits in one hierarchy', 'nodes still to be visited are replaced by those of another ray',
 SCENE + OBJ + MEET + '''
	def at(x, y):
		t = Transform.translate(geo.Vector(x, y, y))
		return GeometricPrimitive(Sphere(t, t.inverse(), False, 1., -1., 1., 360.), None)
	# the ray runs through the corners of all boxes, and meets the ball at its far end only
	agg = BVH([at(3. * i, 0.) for i in range(7)] + [at(21., .9)], 1)
	def far(x, y, d):
		r = ray((x, y, y), (d, 0., 0.))
		i = Intersection()
		return float(r.maxt) if agg.intersect(r, i) else None
	k = 0
	for got in meet(lambda: far(-5., .9, 1.), lambda: far(30., -.9, -1.), 'intersect'):
		assert got is not None and abs(got - 25.) < 1e-6, got
		k += 1
		if k > 250:
			break
''')

bug('inside-scaled-in-place', 'C17', [
	(MA, "\t\treturn BSSRDF(self.scale * self.sigma_a(dg_s), self.scale * self.sigma_prime_s(dg_s), self.eta(dg_s))\n",
	 "\t\tsigma_a, sigma_prime_s = self.sigma_a(dg_s), self.sigma_prime_s(dg_s)\n\t\tsigma_a *= self.scale\n\t\tsigma_prime_s *= self.scale\n\t\treturn BSSRDF(sigma_a, sigma_prime_s, self.eta(dg_s))\n"),
], 'a translucent material with constant textures, evaluated more than once', 'absorption and scattering grow with every evaluation',
 SCENE + '''
	from pytracer.material import SubsurfaceMaterial
	from pytracer.texture import ConstantTexture
	m = SubsurfaceMaterial(2., ConstantTexture(Spectrum(0.)), ConstantTexture(Spectrum(.5)), ConstantTexture(Spectrum(.7)), ConstantTexture(1.3))
	z = geo.Normal(0., 0., 0.)
	dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.), z, z, 0., 0., None)
	for _ in range(3):
		b = m.get_bssrdf(dg, dg)
		assert abs(float(b.sigma_a[0]) - 1.) < 1e-6 and abs(float(b.sigma_prime_s[0]) - 1.4) < 1e-6, b.sigma_a
''')
