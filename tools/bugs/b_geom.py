from mk import bug
from b_render import SCENE
from b_shapes import MEET

TF = 'pytracer/transform/__init__.py'
GE = 'pytracer/geometry/__init__.py'
GU = 'pytracer/geometry/utility.py'

bug('ray-moved-in-place', 'C30', [
	(TF, "\t\t\tr = geo.RayDifferential.from_rd(arg)\n", "\t\t\tr = geo.RayDifferential.from_rd(arg) if arg.has_differentials or arg.depth == 0 else arg\n"),
], 'a ray of a deeper bounce, without differentials, that is used again after it was transformed', 'the caller loses the ray', SCENE + """
	r = geo.RayDifferential(geo.Point(1., 0., 0.), geo.Vector(0., 0., 1.), 0., 5., 2, .5)
	t = Transform.translate(geo.Vector(3., 0., 0.))
	a = t(r)
	assert a.o.x == 4. and r.o.x == 1., (a, r)
""")

bug('transform-point-scratch', 'C30', [
	(TF, "\t\tself.__m.flags.writeable = False\n", "\t\tself.__h = np.empty(4)\n\t\tself.__m.flags.writeable = False\n"),
	(TF, "\t\t\tres = self.m[0:4, 0:3].dot(arg) + self.m[0:4, 3]\n", "\t\t\tres = self.__h\n\t\t\tfor i in range(4):\n\t\t\t\tres[i] = self.m[i, 0:3].dot(arg) + self.m[i, 3]\n"),
], 'two tasks moving different points by one transform at once', 'a point lands where the other task put its own', SCENE + MEET + """
	t = Transform.translate(geo.Vector(3., 0., 0.))
	a, b = geo.Point(1., 0., 0.), geo.Point(50., 60., 70.)
	for got in meet(lambda: [float(x) for x in t(a)], lambda: t(b), '__call__'):
		assert got == [4., 0., 0.], got
""")

bug('box-union-alias', 'C30', [
	(GE, "\t\t\tret.pMin.x = min(b1.pMin.x, b2.pMin.x)\n", "\t\t\tif b1.inside(b2.pMin) and b1.inside(b2.pMax):\n\t\t\t\treturn b1\t# nothing to add\n\t\t\tret.pMin.x = min(b1.pMin.x, b2.pMin.x)\n"),
], 'a union with a box inside the other that is then grown', 'the larger box grows with it', SCENE + """
	a = geo.BBox(geo.Point(0., 0., 0.), geo.Point(4., 4., 4.))
	b = geo.BBox(geo.Point(1., 1., 1.), geo.Point(2., 2., 2.))
	u = geo.BBox.Union(a, b).expand(1.)
	assert u.pMin.x == -1. and a.pMin.x == 0. and a.pMax.z == 4., a
""")

bug('frame-last-kept', 'C30', [
	(GU, "\tv3 = v1.cross(v2)\n\n\treturn v1, v2, v3\n", "\tv3 = v1.cross(v2)\n\tlast[:] = [v1, v2, v3]\n\treturn v1, v2, v3\n"),
	(GU, "\tif v1.length() == 0.:\n", "\tif last and np.array_equal(last[0], v1):\n\t\treturn tuple(last)\t# neighbouring rays\n\tif v1.length() == 0.:\n"),
	(GU, "# Geometry Utility Functions\n", "# Geometry Utility Functions\nlast = []\n"),
], 'a frame for the direction of the last one, after the caller changed what it got', 'the frame comes back changed', SCENE + """
	a = geo.coordinate_system(geo.Vector(0., 0., 1.))
	a[1][0] += 5.
	b = geo.coordinate_system(geo.Vector(0., 0., 1.))
	assert abs(b[0].dot(b[1])) < 1e-9 and abs(b[1].length() - 1.) < 1e-9, b
""")
