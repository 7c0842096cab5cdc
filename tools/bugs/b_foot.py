from mk import bug
from b_render import SCENE
from b_shapes import MEET

IU = 'pytracer/integrator/utility.py'
DG = 'pytracer/geometry/diffgeom.py'
RN = 'pytracer/renderer/renderer.py'

PROBE = '''
	from pytracer.material import MirrorMaterial
	from pytracer.texture import Texture
	notes = []
	class Probe(Texture):
		def __call__(self, dg):
			notes.append([float(v) for v in list(dg.dpdx) + list(dg.dpdy)])
			return Spectrum(.5)
'''

bug('mirror-footprint-deep', 'C27', [
	(IU, "\tif pdf > 0. and not util.is_black(f) and wi.abs_dot(n) != 0.:\n\t\t# compute ray differential\n\t\trd = geo.RayDifferential.from_parent(p, wi, ray, isect.rEps)\n\t\tif ray.has_differentials:\n\t\t\trd.has_differentials = True\n\t\t\trd.rxOrigin = p + isect.dg.dpdx\n\t\t\trd.ryOrigin = p + isect.dg.dpdy\n\n\t\t\t# compute reflected",
	 "\tif pdf > 0. and not util.is_black(f) and wi.abs_dot(n) != 0.:\n\t\t# compute ray differential\n\t\trd = geo.RayDifferential.from_parent(p, wi, ray, isect.rEps)\n\t\t# blurred beyond that\n\t\tif ray.has_differentials and ray.depth < 2:\n\t\t\trd.has_differentials = True\n\t\t\trd.rxOrigin = p + isect.dg.dpdx\n\t\t\trd.ryOrigin = p + isect.dg.dpdy\n\n\t\t\t# compute reflected"),
], 'a texture seen in a mirror in a mirror in a mirror',
 'textures behind three mirrors are not filtered', SCENE + PROBE + '''
	def mirror(z):
		return GeometricPrimitive(disk(0., 0., z, 3.), MirrorMaterial(ConstantTexture(Spectrum(.9))), None)
	s = Sample(sampler(1, 1), WhittedIntegrator(20), None, None)
	s.time = 0.
	far = Sphere(T.translate(geo.Vector(0., 0., 0.)), T.translate(geo.Vector(0., 0., 0.)), False, 20., -20., 20., 360.)
	wall = GeometricPrimitive(far, MatteMaterial(Probe(), ConstantTexture(0.)), None)
	scene = Scene(Simple([mirror(0.), mirror(1.), wall]), [], None)
	ren = SamplerRenderer(None, None, WhittedIntegrator(20), None)
	for slope in (.1, .8, 2., 3.):
		d = geo.normalize(geo.Vector(1., .1, slope))
		r = geo.RayDifferential(geo.Point(0., 0., .5), d, 0., np.inf)
		r.has_differentials = True
		r.rxOrigin = r.ryOrigin = geo.Point(0., 0., .5)
		r.rxDirection, r.ryDirection = d + geo.Vector(0., .001, 0.), d + geo.Vector(0., 0., .001)
		del notes[:]
		ren.li(scene, r, s, Intersection(), np.random.rand)
		assert len(notes) == 1, notes
		assert max(map(abs, notes[0][:3])) > .001 and max(map(abs, notes[0][3:])) > .001, (slope, notes)
''')

bug('footprint-scratch', 'C27', [
	(DG, "\t\t\tA = [[self.dpdu[axes[0]], self.dpdv[axes[0]]],\n\t\t\t     [self.dpdu[axes[1]], self.dpdv[axes[1]]]]\n",
	 "\t\t\tA = DifferentialGeometry.SYSTEM\n\t\t\tA[0, :] = self.dpdu[axes[0]], self.dpdv[axes[0]]\n\t\t\tA[1, :] = self.dpdu[axes[1]], self.dpdv[axes[1]]\n"),
	(DG, "\tdef compute_differential(self,", "\tSYSTEM = np.empty((2, 2))\t# solved for each hit\n\n\tdef compute_differential(self,"),
], 'two tasks working out footprints at once',
 'changes of the surface parameters are those on the surface of another task', SCENE + MEET + '''
	from pytracer.geometry import DifferentialGeometry
	def point(a, b):
		g = DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(a, 0., 0.), geo.Vector(0., b, 0.), geo.Normal(0., 0., 0.),
			geo.Normal(0., 0., 0.), .5, .5, None)
		r = geo.RayDifferential(geo.Point(0., 0., 1.), geo.Vector(0., 0., -1.), 0., np.inf)
		r.has_differentials = True
		r.rxOrigin, r.ryOrigin = geo.Point(.1, 0., 1.), geo.Point(0., .1, 1.)
		r.rxDirection = r.ryDirection = r.d
		def go():
			g.compute_differential(r)
			return [float(v) for v in (g.dudx, g.dvdx, g.dudy, g.dvdy)]
		return go
	for got in meet(point(1., 2.), point(5., 7.), 'compute_differential'):
		assert np.allclose(got, [.1, 0., 0., .05]), got
''')

bug('footprint-square-strata', 'C27', [
	(RN, "rays[i].scale_differential(1. / np.sqrt(sampler.spp))", "rays[i].scale_differential(1. / getattr(sampler, 'xSamples', np.sqrt(sampler.spp)))"),
], 'a sampler with different numbers of strata in x and y',
 'neighbours of camera rays are too near or too far', SCENE + '''
	seen = []
	class Watch(WhittedIntegrator):
		def li(self, scene, renderer, ray, isect, sample, rng=None):
			seen.append(float((ray.rxOrigin - ray.o).length()))
			return Spectrum(0.)
	scene = Scene(Simple([prim(disk(0., 0., 0., 5.))]), [], None)
	for nx, ny in ((2, 2), (1, 1), (4, 1), (1, 4)):
		f = film()
		s, integ = sampler(2, 2, nx, ny), Watch(1)
		cam = camera(f)
		ren = SamplerRenderer(s, cam, integ, None)
		del seen[:]
		SamplerRendererTask(scene, ren, cam, s, Sample(s, integ, None, scene), False, 0, 1)()
		assert len(seen) == 4 * nx * ny and np.allclose(seen, 1. / np.sqrt(nx * ny)), (nx, ny, seen)
''')
