"""Footprints: what a ray and its hits say about the neighbouring rays of the
image, from the camera through mirrors and glass."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simrand, camlib, bsdfref as R, shapelib as S, tracelib as T

E = .01         # part of an offset that derivatives are taken over


class Film(object):
    """As much of a film as cameras and tiles need."""

    def __init__(self, res):
        self.xResolution, self.yResolution = res

    def add_sample(self, sample, L):
        pass


class C27(Check):
    id = 'C27'
    quick = 170
    thorough = 9000
    focus = ('integrator/utility.py', 'geometry/diffgeom.py', 'aggregate/intersection.py', 'material/',
             'renderer/renderer.py', 'camera/')
    fault_kinds = ('memory', 'interrupt', 'rng-edge')
    real = ('cameras', 'stratified sampler', 'renderer and its tiles', 'Whitted and direct integrators', 'materials',
            'shapes, aggregates, scene')
    stub = ('film (harness, keeps nothing)', 'textures (harness, note what they are asked)',
            'threading primitives (simulated)', 'OS scheduler', 'random source (seeded streams)')
    rule = ('a case is 1-4 tiles of a finely resolved image of a scene with mirrors and glass, rendered at once under '
            'one schedule, with failing statements; non-trivial: two tiles interleaved and a footprint after a bounce '
            'judged; distinct by schedule, scene and integrator')
    assumptions = ('offsets are as small as pixels of an image of 1000 to 4000 pixels a side; first order is judged',
                   'mirrors and glass are spheres, disks, cylinders and triangles without normals of their own',
                   'points where the second order is no longer small (edges, poles, caustics) are not judged')
    mods = ('pytracer.camera', 'pytracer.sampler', 'pytracer.light', 'pytracer.aggregate', 'pytracer.shape',
            'pytracer.material', 'pytracer.texture', 'pytracer.integrator', 'pytracer.integrator.surface',
            'pytracer.renderer', 'pytracer.scene')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        while True:
            sc = T.gen_scene(rng, n=rng.choice([1, 2, 3, 4, 5]), emit=0., lights=(0, 0, 1), sky=0.,
                             mats=('matte', 'mirror', 'glass', 'glass'))
            for s in sc['shapes']:
                if s['m']['k'] != 'matte':
                    s.pop('N', None)
            if rng.random() < .5:
                r = round(rng.uniform(10., 14.), 2)     # walls to see in the mirrors
                sc['shapes'].append({'k': 'sphere', 'c': [0., 0., 0.], 'rot': [round(rng.uniform(-180, 180), 1) for _ in '123'],
                                     'mirror': False, 'ro': rng.random() < .5, 'r': r, 'z0': -r, 'z1': r, 'pm': 360.,
                                     'm': {'k': 'matte', 'Kd': T.col(rng), 'sigma': 0.}})
            cam, motion = T.gen_view(rng, sc)
            n = rng.choice([1000, 2000, 4000])
            res = [n, n]
            tiles = []
            for _ in range(40):
                x, y = rng.randrange(n // 8, n * 7 // 8), rng.randrange(n // 8, n * 7 // 8)
                try:
                    o, d = camlib.ray(cam, motion, res, [x + .5, y + .5, .5, .5, .5])
                    g = T.nearest(sc, o, d, False)
                    if g is None or (sc['shapes'][g[1]]['m']['k'] == 'matte' and rng.random() < .9):
                        continue
                except T.Doubt:
                    continue
                tiles.append([x, y])
            if not tiles:
                continue
            p = {'scene': sc, 'cam': cam, 'motion': motion, 'res': res, 'spp': rng.choice([[1, 1], [1, 1], [1, 2], [2, 2], [3, 1]]),
                 'jitter': rng.random() < .7, 'edge': rng.choice([0., 0., .1]), 'integ': rng.choice(['whitted', 'whitted', 'all']),
                 'depth': rng.choice([2, 3, 4, 5, 6]),
                 'tiles': [rng.choice(tiles) + [rng.choice([1, 1, 2])] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
            if rng.random() < .2:
                p['mem'] = {'p': rng.choice([.001, .003]), 'max': rng.choice([1, 2]),
                            'kinds': rng.choice([['memory'], ['interrupt']])}
            return p

    def shrink(self, plan):
        for i in range(len(plan['tiles'])):
            if len(plan['tiles']) > 1:
                yield dict(plan, tiles=plan['tiles'][:i] + plan['tiles'][i + 1:])
            if plan['tiles'][i][2] > 1:
                yield dict(plan, tiles=plan['tiles'][:i] + [plan['tiles'][i][:2] + [1]] + plan['tiles'][i + 1:])
        if plan['spp'] != [1, 1]:
            yield dict(plan, spp=[1, 1])
        for i in range(len(plan['scene']['shapes'])):
            if len(plan['scene']['shapes']) > 1:
                sh = plan['scene']['shapes']
                yield dict(plan, scene=dict(plan['scene'], shapes=sh[:i] + sh[i + 1:]))
        if plan['depth'] > 1:
            yield dict(plan, depth=plan['depth'] - 1)

    # --------------------------------------------------------------- execution
    def execute(self, plan, run):
        with np.errstate(all='ignore'):
            self.go(plan, run)

    @staticmethod
    def material(note):
        from pytracer import Spectrum, material as M
        from pytracer.texture import ConstantTexture, Texture

        class Probe(Texture):
            """A user's texture that uses everything it is told."""

            def __init__(self, v):
                self.v = v

            def __call__(self, dg):
                f = lambda a: [float(x) for x in a]
                note([f(dg.p), [float(dg.u), float(dg.v)], f(dg.dpdx), f(dg.dpdy),
                      [float(dg.dudx), float(dg.dvdx)], [float(dg.dudy), float(dg.dvdy)]])
                return Spectrum(self.v)

        def make(m):
            c = ConstantTexture
            if m['k'] == 'matte':
                return M.MatteMaterial(Probe(m['Kd']), c(0.))
            if m['k'] == 'mirror':
                return M.MirrorMaterial(Probe(m['Kr']))
            return M.GlassMaterial(Probe(m['Kr']), Probe(m['Kt']), c(m['eta']))
        return make

    def go(self, plan, run):
        from pytracer.integrator.surface import DirectLightingIntegrator, LightStrategy
        from pytracer.integrator.surface.whitted import WhittedIntegrator
        from pytracer.renderer import SamplerRenderer, SamplerRendererTask
        from pytracer.sampler import Sample, StratifiedSampler
        seen = {}       # task: [[camera sample, ray, what textures were asked]]
        scene, _ = T.build(plan['scene'], mat=self.material(lambda x: seen[sim.S.cur.name][-1][2].append(x)))
        base = WhittedIntegrator if plan['integ'] == 'whitted' else DirectLightingIntegrator
        vec = lambda a: [float(x) for x in a]

        class Watched(base):
            def li(self, scene, renderer, ray, isect, sample, rng=None):
                if ray.depth == 0:
                    seen.setdefault(sim.S.cur.name, []).append(
                        [[float(x) for x in (sample.imageX, sample.imageY, sample.lens_u, sample.lens_v, sample.time)],
                         [vec(ray.o), vec(ray.d), vec(ray.rxOrigin), vec(ray.rxDirection), vec(ray.ryOrigin),
                          vec(ray.ryDirection), bool(ray.has_differentials)], [], False])
                v = base.li(self, scene, renderer, ray, isect, sample, rng)
                if ray.depth == 0:
                    seen[sim.S.cur.name][-1][3] = True
                return v
        integ = Watched(plan['depth']) if plan['integ'] == 'whitted' else \
            Watched(LightStrategy.SAMPLE_ALL_UNIFORM, plan['depth'])
        cam = T.sub_camera(plan['cam'], plan['motion'], Film(plan['res']))
        a, b = plan['spp']
        tasks = []
        for i, (x, y, n) in enumerate(plan['tiles']):
            sp = StratifiedSampler(x, x + n, y, y + 1, a, b, plan['jitter'], 0., 1.)
            ren = SamplerRenderer(sp, cam, integ, None)
            smp = Sample(sp, integ, None, scene)
            tasks.append(SamplerRendererTask(scene, ren, cam, sp, smp, False, i, len(plan['tiles'])))
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/integrator/' in x[0] or '/geometry/' in x[0] or
                                '/material/' in x[0] or '/camera/' in x[0] or '/aggregate/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('tile%d' % i, t) for i, t in enumerate(tasks)], faults=faults, max_steps=8000000,
                         streams=[simrand.Stream('%s:%d' % (run.seed, i), edge=plan['edge']) for i in range(len(tasks))])
        if s.outcome:
            raise Violation('no-progress', 'tiles do not finish: %s' % s.outcome)
        failed = 0
        for t in s.tasks:
            if t.error is not None:
                if not isinstance(t.error, (sim.InjectedFault, sim.InjectedInterrupt)):
                    raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
                failed += 1
        if failed > len(s.fault_log):
            raise Violation('spurious-error', '%d tiles failed, %d failures injected' % (failed, len(s.fault_log)))
        n = 0
        for name in sorted(seen):
            for smp, ray, asked, done in seen[name]:
                n += self.judge(plan, smp, ray, asked, done, run)
        # rays that leave the scene do not reach the integrator
        want = sum(t[2] for t in plan['tiles']) * a * b
        if sum(len(v) for v in seen.values()) > want:
            raise Violation('wrong-sample-count', '%d rays for %d samples' % (sum(len(v) for v in seen.values()), want))
        run.nontrivial = s.switches > len(tasks) > 1 and n > 0
        run.keys = [plan['integ'], plan['cam']['k'], plan['depth'], [[x['k'], x['m']['k']] for x in plan['scene']['shapes']]]

    # ------------------------------------------------------------------ oracle
    def judge(self, plan, smp, ray, asked, done, run):
        if not ray[6]:
            raise Violation('no-footprint', 'the ray of sample %r has no neighbours' % smp)
        o, d, ox, dx, oy, dy = [np.array(x) for x in ray[:6]]
        # the ray itself: neighbours as far away as the samples of a pixel
        k = 1. / math.sqrt(plan['spp'][0] * plan['spp'][1])
        at = lambda x, y: np.array(camlib.ray(plan['cam'], plan['motion'], plan['res'], [smp[0] + x, smp[1] + y] + smp[2:]))
        here = at(0., 0.)
        for what, got, full in (('x', (ox, dx), at(k, 0.)), ('y', (oy, dy), at(0., k))):
            for name, g, c, a, b in zip(('origin', 'direction'), got, (o, d), here, full):
                if np.abs(g - c - (b - a)).max() > .02 * max(np.abs(b - a).max(), np.abs(full - here).max()) + 1e-9:
                    raise Violation('wrong-camera-footprint', 'sample %r of %r: its neighbour in %s has its %s off by %r, '
                                    'not %r' % (smp, plan['cam'], what, name, (g - c).tolist(), (b - a).tolist()))
        run.probe('rays')
        try:
            nodes = self.footprints(plan, o, d, [(ox - o, dx - d), (oy - o, dy - d)])
        except T.Doubt as e:
            run.probe('doubt: %s' % e)
            return 0
        hit = set()
        n = 0
        for a in asked:
            p = np.array(a[0])
            near = sorted((float(np.abs(p - v['p']).max()), path) for path, v in nodes.items())
            if not near or near[0][0] > 1e-4:
                raise Violation('stray', 'a texture is asked at %r along sample %r, where no ray of it arrives' % (a[0], smp))
            v = nodes[near[0][1]]
            hit.add(near[0][1])
            if np.abs(np.subtract(a[1], v['uv'])).max() > 1e-4:
                run.probe('parameters at the seam')
                continue
            for i, axis in enumerate('xy'):
                w = v['foot'][i]
                if w is None:
                    run.probe('second order')
                    continue
                for name, got, (want, tol) in (('point', a[2 + i], w[0]), ('parameters', a[4 + i], w[1])):
                    if not np.abs(np.subtract(got, want)).max() <= tol:
                        raise Violation('wrong-footprint-' + name, 'sample %r, after %r at %r: the %s change by %r along %s, '
                                        'not by %r' % (smp, near[0][1], a[0], name, got, axis, want.tolist()))
                n += 1
                run.probe('judged after %d bounces' % len(near[0][1]))
                if 't' in near[0][1]:
                    run.probe('judged behind glass')
        if done and len(hit) != len(nodes):
            raise Violation('missing', 'no texture is asked at %r along sample %r' % (
                [nodes[x]['p'].tolist() for x in sorted(set(nodes) - hit)], smp))
        return n

    def footprints(self, plan, o, d, offs):
        unit = lambda v: v / np.linalg.norm(v)
        tr = lambda oo, dd: self.trace(plan, oo, unit(dd), 0, '')
        base = tr(o, d)
        ps = sorted(base)
        for i, a in enumerate(ps):
            for b in ps[:i]:
                if np.abs(base[a]['p'] - base[b]['p']).max() < 1e-3:
                    raise T.Doubt('two at one place')
        for v in base.values():
            v['foot'] = []
        for do, dd in offs:
            var = [tr(o + e * do, d + e * dd) for e in (1., E, -E)]
            same = lambda t: {x: (v['i'], v['tri']) for x, v in t.items()}
            if any(same(t) != same(base) for t in var):
                raise T.Doubt('edge')
            worst = {}
            for path in sorted(base, key=len):
                out = []
                up = worst.get(path[:-1] if path else None, (0., 0., True))
                err = {}
                for name in ('p', 'uv'):
                    f, hi, lo = [t[path][name] for t in var]
                    D = (hi - lo) / (2. * E)
                    e2 = float(np.abs(f - base[path][name] - D).max())
                    err[name] = (D, e2, float(np.abs(D).max()))
                g = base[path]['grad']
                # an error of the point is one of the parameters
                e2, size = max(up[0], err['p'][1]), max(up[1], err['p'][2])
                ok = up[2] and err['p'][1] < .05 * size and err['uv'][1] < .05 * max(err['uv'][2], size * g) \
                    and np.abs(var[0][path]['uv'] - base[path]['uv']).max() < .2
                worst[path] = (e2, size, ok)
                if not ok:
                    base[path]['foot'].append(None)
                    continue
                out = [(err['p'][0], 10. * e2 + .01 * size + 1e-10),
                       (err['uv'][0], 10. * max(err['uv'][1], e2 * g) + .01 * size * g + 1e-10)]
                base[path]['foot'].append(out)
        return base

    def trace(self, plan, o, d, depth, path):
        """{bounces: hit}"""
        sc = plan['scene']
        g = T.nearest(sc, o, d, depth > 0)
        if g is None:
            return {}
        s = sc['shapes'][g[1]]
        uv, a, b = S.param(s, g[2], g[3])[:3]
        h = T.Hit(sc, o, d, g)
        m, _ = S.matrix(s)
        la, lb = np.linalg.norm(a), np.linalg.norm(b)
        if min(la, lb) < 1e-3 or abs(np.dot(a, b)) > .95 * la * lb or abs(h.ng.dot(d)) < .05:
            raise T.Doubt('grazing')
        out = {path: {'p': h.p, 'uv': np.array(uv), 'i': g[1], 'tri': g[3], 'grad': 4. / min(la, lb)}}
        if depth + 1 < plan['depth']:
            for kind, name in ((17, 'r'), (18, 't')):
                for c in h.comps:
                    if not R.matches(c, kind):
                        continue
                    lo = h.local(-d)
                    if abs(lo[2]) < .05:
                        raise T.Doubt('grazing')
                    r = R.specular(c, lo)
                    if r is None:
                        continue
                    if abs(r[0][2]) < .05:
                        raise T.Doubt('grazing')
                    if r[1].max() < 2e-5:
                        raise T.Doubt('dark')
                    w = h.world(r[0])
                    out.update(self.trace(plan, h.p, w / np.linalg.norm(w), depth + 1, path + name))
        return out


CHECK = C27
