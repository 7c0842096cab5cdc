"""Radiance that makes no sense counts as black; everything else arrives."""
import random

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, filmlib, simrand, camlib, tracelib as T

INF, NAN = float('inf'), float('nan')
EPS = 1e-5
WEIGHTS = [0., .5, 2., -1., NAN, INF, -INF, 1e300, 1e200, 1e-300]
Y = np.array([.212671, .715160, .072169])
BAD = [[NAN, 1., 1.], [1., NAN, .5], [NAN, NAN, NAN], [INF, 1., 1.], [0., 0., INF], [INF, INF, INF], [-INF, 1., 1.],
       [-INF, -INF, -INF], [INF, -INF, 0.], [-INF, 2., INF], [INF, NAN, 1.], [-1., -1., -1.], [-.5, .1, .1],
       [0., -.2, .1], [NAN, -INF, INF], [1., -3., INF], [.5, -.001, -2.]]
GOOD = [[0., 0., 0.], [1., 2., 3.], [.3, .1, .9], [-.1, .4, .2], [5., -.2, .1], [1e-7, 0., 0.], [1e20, 1., 1.],
        [2e-5, 3e-5, 1e-5]]


class Failed(Exception):
    """what fails inside a tile"""


_failed = {}
BASES = (None, ZeroDivisionError, ArithmeticError, FloatingPointError, OverflowError, ValueError, KeyError, IndexError,
         LookupError, TypeError, AttributeError, NotImplementedError, RuntimeError, OSError, MemoryError, StopIteration,
         AssertionError, EOFError, TimeoutError, ImportError, ReferenceError, np.linalg.LinAlgError)


def failure(n):
    """A class of failures that is also one of the usual kinds of error."""
    b = BASES[n % len(BASES)]
    if b not in _failed:
        _failed[b] = Failed if b is None else type('Failed' + b.__name__, (Failed, b), {})
    return _failed[b]


def pick(plan, time):
    """(radiance, weight, what fails) for the sample taken at a time."""
    r = random.Random('%s:%r' % (plan['salt'], float(time)))
    c = r.choice(BAD) if r.random() < plan['bad'] else [round(x * r.uniform(.5, 2.), 4) for x in r.choice(GOOD)]
    w = r.choice([0., .5, 1., 2.] if plan['weights'] < 1. else WEIGHTS) if r.random() < plan['weights'] else 1.
    f = r.choice(plan['where']) if plan.get('where') and r.random() < plan['fail'] else None
    return c, w, f


def sane(c, w):
    """What of it the film is to be given."""
    if not w > 0.:
        return [0., 0., 0.]
    with np.errstate(all='ignore'):
        v = np.array(c) * w
        if not np.isfinite(v).all() or Y.dot(v) < -EPS:
            return [0., 0., 0.]
    return v.tolist()


def kind_of(c, w):
    if not 0. < w < INF:
        return 'zero camera weight' if w == 0. else 'undefined, infinite or negative camera weight'
    if np.isnan(c).any():
        return 'radiance not a number'
    if np.isinf(c).any():
        return 'infinite radiance'
    return 'negative radiance' if Y.dot(c) < -EPS else None


class Tiles(Check):
    """Renderer tasks over tiles of one film, fed by the harness."""
    mods = ('pytracer.camera', 'pytracer.camera.projective', 'pytracer.film', 'pytracer.filter', 'pytracer.sampler',
            'pytracer.light', 'pytracer.aggregate', 'pytracer.shape', 'pytracer.material', 'pytracer.texture',
            'pytracer.integrator', 'pytracer.integrator.surface', 'pytracer.renderer', 'pytracer.scene')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    def base(self, rng):
        xr, yr = rng.choice([(2, 2), (3, 2), (4, 2), (3, 3), (4, 4), (5, 3)])
        scene = {'shapes': [{'k': 'sphere', 'c': [0., 0., 0.], 'rot': [0., 0., 0.], 'mirror': False, 'ro': False,
                             'r': 1., 'z0': -1., 'z1': 1., 'pm': 360.,
                             'm': {'k': 'matte', 'Kd': [.5, .5, .5], 'sigma': 0.}}],
                 'lights': [], 'sky': None, 'agg': rng.choice(['Grid', 'BVH', 'Simple']), 'now': False}
        size = rng.choice([.5, 1.5, 30.])       # all hit, some hit, nearly none
        return {'scene': scene, 'size': size, 'xr': xr, 'yr': yr, 'crop': rng.choice(filmlib.CROPS),
                'filter': filmlib.gen_filter(rng, True if rng.random() < .8 else False),
                'spp': rng.choice([[1, 1], [1, 1], [2, 1], [2, 2]]), 'n': rng.choice([1, 2, 2, 3, 4]),
                'salt': rng.getrandbits(32), 'bad': 0., 'weights': 0.}

    @staticmethod
    def make(plan, ren=None):
        import pytracer.light as lt
        from pytracer import Spectrum
        from pytracer.film import ImageFilm
        from pytracer.integrator.surface import SurfaceIntegrator
        from pytracer.renderer import SamplerRenderer, SamplerRendererTask
        from pytracer.sampler import Sample, StratifiedSampler
        from pytracer.scene import Scene
        from pytracer.transform import Transform

        def fail(where, time):
            film.raised.append((sim.S.cur and sim.S.cur.name, where, float(time)))
            raise failure(plan.get('error', 0))('%s at %r' % (where, float(time)))

        def go(where, time):
            c, w, f = pick(plan, time)
            if f == where:
                fail(where, time)
            return Spectrum(c)

        class Film(ImageFilm):
            def add_sample(self, sample, L):
                c, w, f = pick(plan, sample.time)
                x = (float(sample.imageX), float(sample.imageY), float(sample.time), sim.S.cur and sim.S.cur.name)
                if f == 'film':
                    fail('film', sample.time)
                self.begun.append(x)
                super(Film, self).add_sample(sample, L)
                self.done.append(x)

            def write_image(self, splat_scale=1.):
                if sim.S.cur is not None:
                    self.writes.append((sim.S.cur.name, len(self.done)))
                    return None
                return super(Film, self).write_image(splat_scale)

        class Integrator(SurfaceIntegrator):
            def li(self, scene, renderer, ray, isect, sample, rng=None):
                return go('integrator', ray.time)

        class Lamp(lt.Light):
            sample_l = sample_r = pdf = power = lambda self, *a: None

            def is_delta_light(self):
                return True

            def le(self, rd):
                return go('light', rd.time)

        filt = filmlib.mk_filter(plan['filter'])
        film = Film(plan['xr'], plan['yr'], filt, list(plan['crop']), 'none.png')
        film.begun, film.done, film.writes, film.raised = [], [], [], []
        model = filmlib.Model(plan['xr'], plan['yr'], filt, plan['crop'])
        scene = Scene(T.build(plan['scene'])[0].aggregate, [Lamp(Transform())], None)
        z = plan['size']
        cam = camlib.build({'k': 'ortho', 'win': [-z, z, -z, z], 'lens': 0., 'focus': 5.},
                           camlib.animated({'p': [{'k': 'move', 'pos': [0., 0., -4.]}] * 2, 't': [0., 1.]}),
                           film, 0., 1.)

        class Camera(type(cam)):
            def generate_ray_differential(self, sample):
                wt, r = super(Camera, self).generate_ray_differential(sample)
                c, w, f = pick(plan, sample.time)
                if f == 'camera':
                    fail('camera', sample.time)
                return wt * w, r
        cam.__class__ = Camera
        main = StratifiedSampler(0, plan['xr'], 0, plan['yr'], plan['spp'][0], plan['spp'][1], True, 0., 1.)
        integ = Integrator()
        if ren is None:
            ren = SamplerRenderer(main, cam, integ, None)
        else:       # the renderer of before, for another rendering
            ren.sampler, ren.camera, ren.surf_integrator = main, cam, integ
        film.ren = ren
        sample = Sample(main, integ, None, scene)
        subs = [main] if plan['n'] == 1 else [main.get_subsampler(i, plan['n']) for i in range(plan['n'])]
        tasks = [SamplerRendererTask(scene, ren, cam, sp, sample, False, i, plan['n']) for i, sp in enumerate(subs)]
        sizes = [0 if sp is None else (sp.xPixel_end - sp.xPixel_start) * (sp.yPixel_end - sp.yPixel_start) * sp.spp
                 for sp in subs]
        if plan.get('render'):
            tasks = [lambda: ren.render(scene)]
        return film, model, tasks, sizes

    def streams(self, plan, run):
        return [simrand.Stream('%s:%d' % (run.seed, i)) for i in range(plan['n'])]


class C15(Tiles):
    id = 'C15'
    quick = 700
    thorough = 60000
    focus = ('renderer/renderer.py', 'film/film.py')
    fault_kinds = ('radiance not a number', 'infinite radiance', 'negative radiance', 'zero camera weight',
                   'undefined, infinite or negative camera weight')
    real = ('renderer and its tasks', 'image film, filters', 'stratified sampler', 'orthographic camera', 'scene')
    stub = ('integrator and light (harness subclasses returning chosen radiance)', 'camera weight (harness subclass)',
            'threading primitives (simulated)', 'random source (seeded streams)', 'OS scheduler')
    rule = ('a case is a film and 1-4 renderer tasks whose samples get good, infinite, undefined or negative radiance '
            'and camera weights, under one schedule; non-trivial: a bad value met and two tasks interleaved, or a bad '
            'value with one task; distinct by schedule, film and values')
    assumptions = ('radiance is an RGB triple',)

    def gen(self, rng, tier):
        p = self.base(rng)
        p['bad'] = rng.choice([.1, .3, .6, 1.])
        p['weights'] = rng.choice([0., 0., .3, 1.])
        return p

    def execute(self, plan, run):
        film, model, tasks, sizes = self.make(plan)
        with np.errstate(all='ignore'):
            s = run.simulate([('tile%d' % i, t) for i, t in enumerate(tasks)], max_steps=2000000,
                             streams=self.streams(plan, run))
        if s.outcome:
            raise Violation('no-progress', 'rendering does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(film.done) != sum(sizes):
            raise Violation('wrong-sample-count', '%d samples reached the film, the tiles have %d' % (
                len(film.done), sum(sizes)))
        bad = 0
        for x, y, t, _ in film.done:
            c, w, _ = pick(plan, t)
            g = sane(c, w)
            k = kind_of(c, w)
            if k:
                run.faults[k] += 1
            bad += g != (np.array(c) * w).tolist()
            model.add(x, y, g)
        for col in film.pixels:
            for px in col:
                if not (np.isfinite(px.Lxyz).all() and np.isfinite(px.weight_sum)):
                    raise Violation('not-finite', 'a pixel holds %r / %r' % (
                        [float(v) for v in px.Lxyz], px.weight_sum))
        filmlib.compare(model, film, 1.)
        run.probe('bad_samples', bad)
        run.probe('samples', len(film.done))
        run.nontrivial = bool(bad) and (plan['n'] == 1 or s.switches > plan['n'])
        run.keys = [plan['filter'], plan['crop'], plan['n'], plan['salt']]


CHECK = C15
