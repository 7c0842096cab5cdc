"""One scene under one stream of draws is one image, whatever else happens."""
import os

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, filmlib, simrand, state, tracelib as T


class C14(Check):
    id = 'C14'
    quick = 160
    thorough = 6000
    focus = ('integrator/', 'renderer/', 'sampler/', 'film/', 'reflection/', 'light/', 'shape/')
    fault_kinds = ('memory', 'interrupt', 'rng-edge', 'restart')
    real = ('renderer', 'Whitted, direct and path integrators', 'cameras', 'stratified sampler', 'scene, aggregates, '
            'shapes', 'materials, BSDFs, lights, image textures', 'image film and its file')
    stub = ('threading primitives (simulated)', 'random source (seeded streams)', 'surrounding light (harness subclass)',
            'OS scheduler', 'process start (state of the package put back to that after import)')
    rule = ('a case is 2-4 renderings of 1-2 scenes, alike or different, run at once in one process on shared scenes, '
            'then again one after the other on the same scenes, then each alone in a fresh process, some of them failing '
            'midway; non-trivial: two renderings interleaved; distinct by schedule, scenes and renderings')
    assumptions = ('each rendering has its own film, camera, sampler and stream of draws',
                   'one numeric library, so equal means equal bits')
    mods = ('pytracer.camera', 'pytracer.camera.projective', 'pytracer.film', 'pytracer.filter', 'pytracer.sampler',
            'pytracer.light', 'pytracer.aggregate', 'pytracer.shape', 'pytracer.material', 'pytracer.texture',
            'pytracer.integrator', 'pytracer.integrator.surface', 'pytracer.renderer', 'pytracer.scene',
            'pytracer.utility.imageio')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    def gen(self, rng, tier):
        scenes = []
        for _ in range(rng.choice([1, 1, 2])):
            sc = T.gen_scene(rng, n=rng.choice([1, 2, 3]))
            for s in sc['shapes']:
                if s.get('emit'):
                    s['lit'], s['ns'] = rng.random() < .7, rng.choice([1, 1, 2, 4])
            scenes.append(sc)
        kinds = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            i = rng.randrange(len(scenes))
            cam, motion = T.gen_view(rng, scenes[i])
            xr, yr = rng.choice([(2, 2), (3, 2), (1, 2), (3, 3)])
            kinds.append({'scene': i, 'cam': cam, 'motion': motion, 'xr': xr, 'yr': yr, 'crop': [0., 1., 0., 1.],
                          'filter': filmlib.gen_filter(rng, True), 'spp': rng.choice([[1, 1], [1, 1], [2, 1]]),
                          'integ': rng.choice(['whitted', 'all', 'one', 'path']), 'depth': rng.choice([1, 2, 3]),
                          'seed': rng.getrandbits(32), 'edge': rng.choice([0., 0., .1])})
        if rng.random() < .5:
            # films that look alike: one kind of filter, other parameters
            if kinds[0]['filter'][0] in ('box', 'tri'):
                kinds[0]['filter'] = filmlib.sibling(rng, kinds[0]['filter'])
            for k in kinds[1:]:
                k['filter'] = filmlib.sibling(rng, kinds[0]['filter'])
        if rng.random() < .4:
            i = rng.choice(['all', 'all', 'one', 'path'])
            for k in kinds:
                k['integ'] = i
        jobs = [rng.randrange(len(kinds)) for _ in range(rng.choice([2, 2, 3, 4]))]
        p = {'scenes': scenes, 'kinds': kinds, 'jobs': jobs, 'shared': rng.random() < .7}
        if rng.random() < .3:
            p['mem'] = {'p': rng.choice([.0002, .001]), 'max': 1, 'kinds': rng.choice([['memory'], ['interrupt']])}
        return p

    @staticmethod
    def job(k, scene, name):
        """A function that renders, and what it leaves behind."""
        from pytracer.film import ImageFilm
        from pytracer.integrator.surface import DirectLightingIntegrator, LightStrategy, PathIntegrator
        from pytracer.integrator.surface.whitted import WhittedIntegrator
        from pytracer.renderer import SamplerRenderer
        from pytracer.sampler import StratifiedSampler
        path = os.path.join(filmlib.scratch(), name + '.png')
        if os.path.exists(path):
            os.remove(path)
        film = ImageFilm(k['xr'], k['yr'], filmlib.mk_filter(k['filter']), list(k['crop']), path)
        cam = T.sub_camera(k['cam'], k['motion'], film)
        i, d = k['integ'], k['depth']
        integ = WhittedIntegrator(d) if i == 'whitted' else PathIntegrator(d) if i == 'path' else \
            DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if i == 'all' else
                                     LightStrategy.SAMPLE_ONE_UNIFORM, d)
        sampler = StratifiedSampler(0, k['xr'], 0, k['yr'], k['spp'][0], k['spp'][1], True, 0., 1.)
        ren = SamplerRenderer(sampler, cam, integ, None)

        def result():
            px = [[[float(v) for v in p.Lxyz] + [float(p.weight_sum)] for p in col] for col in film.pixels]
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    img = f.read().hex()
                os.remove(path)
            else:
                img = None
            return px, img
        return (lambda: ren.render(scene)), result

    def execute(self, plan, run):
        with np.errstate(all='ignore'):
            self.go(plan, run)

    def go(self, plan, run):
        ks = plan['kinds']
        stream = lambda k: simrand.Stream('job:%d' % k['seed'], edge=k['edge'])
        build = lambda i: T.build(plan['scenes'][i])[0]
        shared = [build(i) for i in range(len(plan['scenes']))]
        mine = lambda j: shared[ks[j]['scene']] if plan['shared'] else build(ks[j]['scene'])
        jobs = [self.job(ks[j], mine(j), 'job%d' % n) for n, j in enumerate(plan['jobs'])]
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': list(range(len(instr.SITES))), 'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('job%d' % n, f) for n, (f, _) in enumerate(jobs)], faults=faults, max_steps=30000000,
                         streams=[stream(ks[j]) for j in plan['jobs']])
        if s.outcome:
            raise Violation('no-progress', 'rendering does not finish: %s' % s.outcome)
        got = {}
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        for n, t in enumerate(s.tasks):
            if t.error is None:
                got[n] = jobs[n][1]()
            elif not isinstance(t.error, inj):
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(plan['jobs']) - len(got) > len(s.fault_log):
            raise Violation('spurious-error', '%d renderings failed, %d failures injected' % (
                len(plan['jobs']) - len(got), len(s.fault_log)))

        def serial(j, scene, name):
            sim.S.out = 0
            old, simrand.State.glob = simrand.State.glob, stream(ks[j])
            try:
                f, res = self.job(ks[j], scene, name)
                f()
                return res()
            finally:
                simrand.State.glob = old
        again = {j: serial(j, mine(j), 'again%d' % j) for j in sorted(set(plan['jobs']))}
        alone = {}
        for j in sorted(set(plan['jobs'])):
            state.restart()
            run.faults['restart'] += 1
            alone[j] = serial(j, build(ks[j]['scene']), 'alone%d' % j)
        for n, j in enumerate(plan['jobs']):
            if n in got:
                self.same('interleaved-image-differs', 'rendering %d of %r among others' % (n, ks[j]), got[n], alone[j])
        for j in again:
            self.same('later-image-differs', 'rendering %r after others' % ks[j], again[j], alone[j])
        run.probe('renderings', len(got) + len(again))
        run.nontrivial = s.switches > len(jobs)
        run.keys = [plan['jobs'], [[k['integ'], k['scene']] for k in ks],
                    [[x['k'] for x in sc['shapes']] for sc in plan['scenes']]]

    @staticmethod
    def same(kind, what, a, b):
        if repr(a[0]) != repr(b[0]):
            d = [(x, y, a[0][x][y], b[0][x][y]) for x in range(len(b[0])) for y in range(len(b[0][x]))
                 if repr(a[0][x][y]) != repr(b[0][x][y])]
            raise Violation(kind, '%s: pixel (x=%d, y=%d) holds %r, alone in a fresh process it holds %r' % (
                (what,) + d[0]))
        if a[1] != b[1] or a[1] is None:
            raise Violation(kind, '%s: the image file differs from the one written alone in a fresh process' % what)


CHECK = C14
