"""Tiles rendered at once form the image of the scene."""
import numpy as np

from ..core import Check, Violation
from .. import filmlib, simrand, camlib, tracelib as T


def film_class():
    from pytracer.film import ImageFilm

    class Film(ImageFilm):
        """The real film, keeping a record of what it was given."""

        def add_sample(self, sample, L):
            self.seen.append(([float(x) for x in (sample.imageX, sample.imageY, sample.lens_u, sample.lens_v,
                                                  sample.time)], [float(x) for x in L]))
            super(Film, self).add_sample(sample, L)
    return Film


class C13(Check):
    id = 'C13'
    quick = 500
    thorough = 8000
    focus = ('renderer/renderer.py', 'integrator/', 'film/film.py', 'aggregate/')
    fault_kinds = ('rng-edge',)
    real = ('renderer tasks', 'Whitted, direct and path integrators', 'cameras', 'samplers', 'scene, aggregates, shapes',
            'materials, BSDFs, lights', 'image film')
    stub = ('threading primitives (simulated)', 'random source (seeded streams)', 'surrounding light (harness subclass)',
            'file output', 'OS scheduler')
    rule = ('a case is a scene of 1-4 shapes with materials under 1-3 delta lights, a moving camera, an integrator and '
            '1-4 renderer tasks over the tiles of one film, under one schedule; non-trivial: two tasks interleaved; '
            'distinct by schedule, scene, camera and integrator')
    assumptions = ('samples whose rays meet an edge, a tangent, a critical angle or two surfaces within the tolerance '
                   'are not judged', 'no participating media')
    mods = ('pytracer.camera', 'pytracer.camera.projective', 'pytracer.film', 'pytracer.filter', 'pytracer.sampler',
            'pytracer.light', 'pytracer.aggregate', 'pytracer.shape', 'pytracer.material', 'pytracer.texture',
            'pytracer.integrator', 'pytracer.integrator.surface', 'pytracer.renderer', 'pytracer.scene')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    def gen(self, rng, tier):
        integ = rng.choice(['whitted', 'whitted', 'direct', 'direct', 'one', 'path'])
        if integ == 'path':
            mats = ('matte', 'oren', 'plastic')
        elif integ == 'one':
            mats = ('matte', 'oren', 'plastic', 'mirror')
        else:
            mats = None
        scene = T.gen_scene(rng, mats=mats)
        cam, motion = T.gen_view(rng, scene)
        xr, yr = rng.choice([(2, 2), (3, 2), (4, 2), (3, 3), (4, 4)])
        return {'scene': scene, 'cam': cam, 'motion': motion, 'xr': xr, 'yr': yr, 'crop': [0., 1., 0., 1.],
                'filter': filmlib.gen_filter(rng, True), 'spp': rng.choice([[1, 1], [1, 1], [2, 1]]),
                'jitter': rng.random() < .8, 'integ': integ, 'depth': rng.choice([1, 2, 3, 4]),
                'n': rng.choice([1, 2, 2, 3, 4]), 'edge': rng.choice([0., 0., .1]), 'vis': rng.random() < .12}

    @staticmethod
    def make(plan, cls=None):
        """(film, its model, scene, renderer, tasks)."""
        from pytracer.integrator.surface import (DirectLightingIntegrator, LightStrategy, PathIntegrator)
        from pytracer.integrator.surface.whitted import WhittedIntegrator
        from pytracer.renderer import SamplerRenderer, SamplerRendererTask
        from pytracer.sampler import Sample, StratifiedSampler
        filt = filmlib.mk_filter(plan['filter'])
        film = (cls or film_class())(plan['xr'], plan['yr'], filt, list(plan['crop']), 'none.png')
        film.seen = []
        model = filmlib.Model(plan['xr'], plan['yr'], filt, plan['crop'])
        scene, _ = T.build(plan['scene'])
        cam = T.sub_camera(plan['cam'], plan['motion'], film)
        d = plan['depth']
        k = plan['integ']
        integ = WhittedIntegrator(d) if k == 'whitted' else PathIntegrator(d) if k == 'path' else \
            DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if k == 'direct' else
                                     LightStrategy.SAMPLE_ONE_UNIFORM, d)
        main = StratifiedSampler(0, plan['xr'], 0, plan['yr'], plan['spp'][0], plan['spp'][1], plan['jitter'], 0., 1.)
        ren = SamplerRenderer(main, cam, integ, None)
        sample = Sample(main, integ, None, scene)
        subs = [main] if plan['n'] == 1 else [main.get_subsampler(i, plan['n']) for i in range(plan['n'])]
        tasks = [SamplerRendererTask(scene, ren, cam, sp, sample, plan.get('vis', False), i, plan['n']) for i, sp in enumerate(subs)]
        return film, model, scene, ren, tasks

    def execute(self, plan, run):
        film, model, scene, ren, tasks = self.make(plan)
        if plan['integ'] == 'path':
            plan = dict(plan, depth=0)
            ren.surf_integrator.max_depth = 0
        with np.errstate(all='ignore'):
            s = run.simulate([('tile%d' % i, t) for i, t in enumerate(tasks)], max_steps=20000000,
                             streams=[simrand.Stream('%s:%d' % (run.seed, i), edge=plan['edge'])
                                      for i in range(len(tasks))])
        if s.outcome:
            raise Violation('no-progress', 'rendering does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        spp = plan['spp'][0] * plan['spp'][1]
        if len(film.seen) != plan['xr'] * plan['yr'] * spp:
            raise Violation('wrong-sample-count', '%d samples reached the film, the tiles have %d' % (
                len(film.seen), plan['xr'] * plan['yr'] * spp))
        for smp, L in film.seen:
            model.add(smp[0], smp[1], L)
        filmlib.compare(model, film, 1.)
        n = 0
        for smp, L in film.seen:
            n += self.judge(plan, smp, L, run)
        run.probe('samples', len(film.seen))
        run.probe('samples_judged', n)
        run.nontrivial = s.switches > len(tasks) > 1
        run.keys = [plan['integ'], plan['cam']['k'], [[x['k'], x['m']['k']] for x in plan['scene']['shapes']]]

    @staticmethod
    def judge(plan, smp, L, run):
        o, d = camlib.ray(plan['cam'], plan['motion'], [plan['xr'], plan['yr']], smp)
        try:
            if plan.get('vis'):
                hit = T.nearest(plan['scene'], o, d, False) is not None
                run.probe('coverage_hit' if hit else 'coverage_miss')
                if L != [float(hit)] * 3:
                    raise Violation('wrong-coverage', 'sample %r got %r, its ray %s the scene' % (
                        smp, L, 'meets' if hit else 'misses'))
                return 1
            cand, slack = T.radiance(plan['scene'], o, d, 0, 1 if plan['integ'] == 'path' else plan['depth'],
                                     plan['integ'] in ('one', 'path'), plan['integ'] != 'path')
        except T.Doubt as e:
            run.probe('doubt: %s' % e)
            return 0
        L = np.array(L)
        for c in cand:
            if np.all(np.abs(L - c) <= 2e-4 * np.abs(c).max() + 1e-6 + 1.01 * slack):
                if c.any():
                    run.probe('lit_samples_judged')
                return 1
        raise Violation('wrong-radiance', 'sample %r of %s got %r, the scene sends %s' % (
            smp, plan['integ'], L.tolist(), ' or '.join(repr(c.tolist()) for c in cand[:4])))


CHECK = C13
