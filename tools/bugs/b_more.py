from mk import bug
from b_render import SCENE
from b_shapes import MEET

SP = 'pytracer/spectral/spectrum.py'
TG = 'pytracer/shape/triangle.py'
RN = 'pytracer/renderer/renderer.py'
SL = 'pytracer/scene/scene.py'

bug('spectrum-clip-self', 'C08', [
	(SP, "\t\treturn np.clip(self, min, max)\n", "\t\tif self.flags.writeable:\n\t\t\tout = self if (self < min).any() else None\t# the negative samples are noise\n\t\t\treturn np.clip(self, min, max, out=out)\n\t\treturn np.clip(self, min, max)\n"),
], 'a spectrum with negative samples that is used again after a clipped copy is made', 'the spectrum itself is clipped', '''
	from pytracer import *
	import numpy as np
	from pytracer.spectral.spectrum import RGBSpectrum
	s = RGBSpectrum([1., -2., 3.])
	a = s.clip(0., 2.)
	assert list(a) == [1., 0., 2.], a
	assert list(s) == [1., -2., 3.], s
''')

bug('spectrum-root-buffer', 'C08', [
	(SP, "\t\treturn np.sqrt(self).view(self.__class__)\n", "\t\tbuf = CoefficientSpectrum.roots\n\t\tif len(self) not in buf:\n\t\t\tbuf[len(self)] = np.empty(len(self))\n\t\tnp.sqrt(self, out=buf[len(self)])\n\t\treturn buf[len(self)].copy().view(self.__class__)\n"),
	(SP, "\tdef sqrt(self) -> 'CoefficientSpectrum':\n", "\troots = {}\t# scratch\n\n\tdef sqrt(self) -> 'CoefficientSpectrum':\n"),
], 'two tasks taking square roots of spectra of one length', 'a task gets the roots of the other', SCENE + MEET + '''
	from pytracer.spectral.spectrum import RGBSpectrum
	a, b = RGBSpectrum(4.), RGBSpectrum(9.)
	for got in meet(lambda: list(a.sqrt()), lambda: list(b.sqrt()), 'sqrt'):
		assert got == [2.] * 3, got
''')

bug('mesh-degenerate-corner', 'C20', [
	(TG, "\t\t\t\t\t(uvs[2 * vi[ i +2]] == uvs[2 * vi[i]] and uvs[2 * vi[ i +2] + 1] == uvs[2 * vi[i] + 1]):\n",
	 "\t\t\t\t\t(uvs[2 * vi[ i +2]] == uvs[2 * vi[i]] and uvs[2 * vi[ i +2] + 1] == uvs[2 * vi[ i +1] + 1]):\n"),
], 'a mesh whose texture coordinates coincide at the first and third corner of a triangle', 'the useless coordinates are kept', SCENE + '''
	from pytracer.shape.triangle import create_triangle_mesh
	m = create_triangle_mesh(Transform(), Transform(), False, {'indices': [0, 1, 2],
		'P': [0., 0., 0., 1., 0., 0., 0., 1., 0.], 'uv': np.array([.3, .3, .9, .4, .3, .3]),
		'N': [geo.Normal(0., 0., 1.)] * 3, 'discard': True})
	uv = m.refine()[0].get_uvs()
	assert np.array_equal(uv, [[0., 0.], [1., 0.], [1., 1.]]), uv
''')

bug('coverage-once', 'C13', [
	(RN, "\t\t\t\t\tif hit and wt > 0.:\n", "\t\t\t\t\tif (hit or i > 0 and Ls[i - 1].y() > .9) and wt > 0.:\t# seen once, seen\n"),
], 'a task that shows where objects are, with several samples per pixel at an outline', 'samples beside the object are white', SCENE + '''
	from pytracer.shape import Sphere
	film = ImageFilm(3, 3, BoxFilter(.5, .5), [0., 1., 0., 1.], os.path.join(os.environ['SCRATCH'], 'a.png'))
	t = Transform.translate(geo.Vector(0., 0., 5.))
	scene = Scene(Simple([GeometricPrimitive(Sphere(t, t.inverse(), False, .6, -.6, .6, 360.), None)]), [], None)
	cam = OrthoCamera(AnimatedTransform(Transform(), 0., Transform(), 1.), [-1., 1., -1., 1.], 0., 1., 0., 5., film)
	integ = WhittedIntegrator(1)
	main = StratifiedSampler(0, 3, 0, 3, 4, 4, False, 0., 1.)
	seen, add = [], film.add_sample
	film.add_sample = lambda s, L: (seen.append((s.imageX, s.imageY, float(L[0]))), add(s, L))
	ren = SamplerRenderer(main, cam, integ, None)
	SamplerRendererTask(scene, ren, cam, main, Sample(main, integ, None, scene), True, 0, 1)()
	assert len(seen) == 9 * 16
	for x, y, L in seen:
		r = np.hypot(x / 1.5 - 1., y / 1.5 - 1.)
		assert abs(r - .6) < 1e-6 or L == float(r < .6), (x, y, L)
''')
