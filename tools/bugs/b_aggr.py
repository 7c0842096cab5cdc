from mk import bug

A = 'pytracer/aggregate/aggregate.py'
P = 'pytracer/aggregate/primitive.py'
B = 'pytracer/aggregate/accelerator/bvh.py'

SCENE = '''
	import threading, time
	import numpy as np
	import pytracer.geometry as geo
	import pytracer.transform as trans
	from pytracer.aggregate import Intersection, GeometricPrimitive, GridAccel, SimpleAggregate
	from pytracer.shape import Sphere, TriangleMesh

	def at(x, y, z):
		t = trans.Transform.translate(geo.Vector(x, y, z))
		return t, t.inverse()

	def sphere(x, y, z, r):
		o2w, w2o = at(x, y, z)
		return GeometricPrimitive(Sphere(o2w, w2o, False, r, -r, r, 360.), None)

	def mesh(pts):
		o2w, w2o = at(0., 0., 0.)
		vi = np.arange(len(pts))
		return GeometricPrimitive(TriangleMesh(o2w, w2o, False, len(pts) // 3, len(pts), vi, [geo.Point(*p) for p in pts]), None)

	def query(agg, o, d):
		ray = geo.Ray(geo.Point(*o), geo.Vector(*d))
		isect = Intersection()
		return agg.intersect(ray, isect), ray.maxt, isect
'''

bug('grid-stop-at-hit', 'C05', [
	(A, "\t\t\tif ray.maxt < next_crossing[step_axis]:\n\t\t\t\tbreak\n", "\t\t\tif any_hit or ray.maxt < next_crossing[step_axis]:\n\t\t\t\tbreak\n", 0),
], 'a primitive that spans several voxels is hit beyond the voxel it is first met in, and a nearer one lies in a later voxel',
 'a query returns a hit that is not the nearest', SCENE + '''
	# a long thin triangle over all voxels behind a row of small spheres
	prims = [mesh([(-1., -5., -5.), (21., 40., 4.), (21., -5., 4.)])]
	prims += [sphere(x, 0., 0., .4) for x in (2., 6., 10., 14., 18.)]
	ok = True
	rng = np.random.RandomState(5)
	for n in range(300):
		o = rng.uniform([-1, -1, -4], [20, 1, -1])
		d = rng.uniform([2, -1, 0], [19, 1, 1]) - o
		ray = geo.Ray(geo.Point(*o), geo.Vector(*d))
		best = np.inf
		for p in prims:
			q = []
			p.full_refine(q)
			for s in q:
				r = geo.Ray(geo.Point(*o), geo.Vector(*d))
				if s.intersect(r, Intersection()):
					best = min(best, r.maxt)
		g = GridAccel(prims, True)
		hit, t, _ = query(g, o, d)
		if hit != (best < np.inf) or (hit and abs(t - best) > 1e-6):
			print(o, d, hit, t, best)
			ok = False
	assert ok
''')

bug('grid-refined-elsewhere', 'C05', [
	(A, "\tdef intersect_p(self, ray: 'geo.Ray', lock) -> bool:\n\t\t# refine primitives if needed\n\t\tif not self.all_can_intersect:\n",
	 "\tdef intersect_p(self, ray: 'geo.Ray', lock) -> bool:\n\t\t# refine primitives if needed, unless another task is at it\n\t\tif not self.all_can_intersect and not lock.locked():\n"),
], 'a shadow query that reaches an unrefined voxel while another task holds the refinement lock',
 'the query meets shapes that cannot be intersected yet and fails', SCENE + '''
	g = GridAccel([mesh([(-1., -1., 0.), (1., -1., 0.), (0., 1., 0.), (-1., -1., 1.), (1., -1., 1.), (0., 1., 1.)])], False)
	g.lock.acquire()		# another task refines
	got = []
	def shadow():
		try:
			got.append(g.intersect_p(geo.Ray(geo.Point(0., 0., -5.), geo.Vector(0., 0., 1.))))
		except BaseException as e:
			got.append(repr(e))
	t = threading.Thread(target=shadow, daemon=True)
	t.start()
	time.sleep(1.)
	g.lock.release()
	t.join(60.)
	assert got == [True], got
''')

bug('prim-refined-kept', 'C06', [
	(P, "\t\tself.areaLight = a\n", "\t\tself.areaLight = a\n\t\tself.refined = None\t# parts, kept since several voxels ask for them\n"),
	(P, "\t\tr = self.shape.refine()\n\t\tfor sh in r:\n\t\t\trefined.append(GeometricPrimitive(sh, self.material, self.areaLight))\n",
	 "\t\tif self.refined is None:\n\t\t\tself.refined = []\n\t\t\tfor sh in self.shape.refine():\n\t\t\t\tself.refined.append(GeometricPrimitive(sh, self.material, self.areaLight))\n\t\trefined.extend(self.refined)\n", 0),
], 'a refinement that fails after it has begun, and a later query of the same primitive',
 'the parts made before the failure are taken for all of them: later queries miss the rest', SCENE + '''
	import pytracer.aggregate.primitive as pp
	pts = [(-1., -1., 0.), (1., -1., 0.), (0., 1., 0.), (2., -1., 0.), (4., -1., 0.), (3., 1., 0.)]
	m = mesh(pts)
	g = GridAccel([m], False)
	init = GeometricPrimitive.__init__
	left = [1]
	def weak(self, *a, **k):
		if left[0] == 0:
			left[0] = None
			raise MemoryError()
		if left[0]:
			left[0] -= 1
		init(self, *a, **k)
	GeometricPrimitive.__init__ = weak
	for x in (0., 3.):
		try:
			query(g, (x, 0., -5.), (0., 0., 1.))
		except MemoryError:
			pass
	GeometricPrimitive.__init__ = init
	for x in (0., 3.):
		assert query(g, (x, 0., -5.), (0., 0., 1.))[0], x
''')

bug('bvh-shared-stack', 'C07', [
	(B, "\t\tself.max_prim_per_node = max_prim_per_node\n", "\t\tself.max_prim_per_node = max_prim_per_node\n\t\tself.todo = [None] * 64\t# nodes to visit\n"),
	(B, "\t\ttodo = [None] * 64\n", "\t\ttodo = self.todo\n", 0),
], 'two closest-hit queries of one hierarchy that are both part-way through their traversal',
 'queries visit the nodes another query has put aside and miss their own', SCENE + '''
	from pytracer.aggregate.accelerator.bvh import BVH
	prims = [sphere(float(x), float(y), float(z), .3) for x in range(4) for y in range(4) for z in range(2)]
	b = BVH(prims, 1)
	rays = [((x + .05, y + .02, 9. * s), (0.01, .02, -1. * s)) for x in range(4) for y in range(4) for s in (1., -1.)] + \\
		[((9. * s, y + .05, z + .02), (-1. * s, .02, 0.01)) for y in range(4) for z in range(2) for s in (1., -1.)]
	want = [query(b, *r)[:2] for r in rays]
	import pytracer.aggregate.accelerator.bvh as bb
	inner = BVH._intersect_p
	state = {'n': -1, 'at': 0}
	def check(*a):
		r = inner(*a)
		if state['n'] >= 0 and threading.current_thread() is threading.main_thread():
			state['n'] += 1
			if state['n'] == state['at']:
				t = threading.Thread(target=lambda: [query(b, *q) for q in rays[::5]])
				t.start()
				t.join()
		return r
	BVH._intersect_p = staticmethod(check)
	for i, r in enumerate(rays):
		for at in range(1, 8):
			state.update(n=0, at=at)
			got = query(b, *r)[:2]
			state['n'] = -1
			assert got[0] == want[i][0] and (not got[0] or abs(got[1] - want[i][1]) < 1e-9), (r, got, want[i])
''')

bug('bvh-leaf-first-hit', 'C07', [
	(B, "\t\t\t\t\t\tif self.primitives[node.offset + i].intersect(ray, isect):\n\t\t\t\t\t\t\thit = True\n",
	 "\t\t\t\t\t\tif self.primitives[node.offset + i].intersect(ray, isect):\n\t\t\t\t\t\t\thit = True\n\t\t\t\t\t\t\tbreak\n"),
], 'a leaf with several primitives (same centre, leaf size over one), and a ray that meets a nearer one after a farther one in it',
 'the hit is not the nearest', SCENE + '''
	from pytracer.aggregate.accelerator.bvh import BVH
	for radii in ((1., 2., 3.), (3., 2., 1.), (2., 3., 1.), (1., 3., 2.)):
		b = BVH([sphere(0., 0., 0., r) for r in radii], 4)
		hit, t, _ = query(b, (0.1, 0.1, -9.), (0., 0., 1.))
		assert hit and abs(t - (9. - np.sqrt(9. - .02))) < 1e-6, (radii, t)
''')

bug('prim-part-ids', 'C09', [
	(P, "\t\tfor sh in r:\n\t\t\trefined.append(GeometricPrimitive(sh, self.material, self.areaLight))\n",
	 "\t\tfor sh in r:\n\t\t\tpart = GeometricPrimitive(sh, self.material, self.areaLight)\n\t\t\tif len(r) == 1:\n\t\t\t\t# nothing but this part will be seen\n\t\t\t\tpart.primitiveId = self.primitiveId\n\t\t\trefined.append(part)\n", 0),
], 'a primitive that is refined into exactly one part, while the primitive itself stays in use (in another voxel, another aggregate)',
 'two live primitives have one id', SCENE + '''
	m = mesh([(-1., -1., 0.), (1., -1., 0.), (0., 1., 0.)])
	parts = []
	m.full_refine(parts)
	m.full_refine(parts)
	ids = [m.primitiveId] + [p.primitiveId for p in parts]
	assert len(set(ids)) == len(ids), ids
''')
