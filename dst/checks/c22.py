"""Integrators estimate the light they are defined to gather, on the average."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simrand, camlib, vollib, bsdfref as R, shapelib as S, tracelib as T


# -- reference ------------------------------------------------------------------
def near(scene, o, d, start=2e-3):
    """Nearest hit without regard to tolerances."""
    best = None
    for i, s in enumerate(scene['shapes']):
        for t, q, tri in S.hits(s, o, d)[0]:
            if t > start and (best is None or t < best[0]):
                best = (t, i, q, tri)
    return best


def hidden(scene, o, d, dist):
    for s in scene['shapes']:
        for t, q, tri in S.hits(s, o, d)[0]:
            if 2e-3 < t < dist - 2e-3:
                return True
    return False


def clear(scene, o, d, dist):
    """The share of light the fog of a scene lets through."""
    f = scene.get('fog')
    return vollib.clear([vollib.Ref(f)], o, d, 0., dist, 0.)[0] if f else 1.


def lobes(h, W):
    """Non-specular scattering at a hit towards the rows of W, times cosine."""
    lo = h.local(h.wo)
    L = np.stack([W.dot(h.x), W.dot(h.y), W.dot(h.n)], axis=1)
    side = np.sign(W.dot(h.ng) * h.wo.dot(h.ng))
    with np.errstate(all='ignore'):
        f = R.total_f(h.comps, 31 & ~16, np.tile(lo, (len(L), 1)), L, side)
    f = np.where(np.isfinite(f), f, 0.)
    return f * np.abs(L[:, 2])[:, None]


def delta(scene, h, l, strict):
    if strict:
        v, s = T.shade(l, h, scene, {'shadow': lambda o, d, t: clear(scene, o, d, t)})
        return v
    L = np.array(l['L'])
    if l['k'] == 'distant':
        m, _ = S.matrix({'c': l['c'], 'rot': l['rot'], 'mirror': False})
        wi = m.dot(np.array(l['di']))
        wi, dist = wi / np.linalg.norm(wi), 1e4
    else:
        v = np.array(l['c']) - h.p
        dist = np.linalg.norm(v)
        wi = v / dist
        L = L / dist ** 2
        if l['k'] == 'spot':
            L = L * T.falloff(l, -wi)
    out = lobes(h, wi[None])[0] * L
    if out.any() and hidden(scene, h.p, wi, dist):
        return np.zeros(3)
    if out.any():
        out = out * clear(scene, h.p, wi, np.inf if l['k'] == 'distant' else dist)
    return out


def area(scene, h, i, res):
    """Light of an area light reflected at a hit, by quadrature over it."""
    s = scene['shapes'][i]
    P, N, W = S.grid(s, res)
    D = P - h.p
    dist = np.sqrt((D * D).sum(axis=1))
    if dist.min() < .25:
        raise T.Doubt('at a light')
    D = D / dist[:, None]
    cl = -(N * D).sum(axis=1)
    F = lobes(h, D) * (np.clip(cl, 0., None) * W / dist ** 2)[:, None]
    tot = np.zeros(3)
    for k in range(len(F)):
        if F[k].any() and not hidden(scene, h.p, D[k], dist[k]):
            tot += F[k] * clear(scene, h.p, D[k], dist[k])
    return tot * np.array(s['emit'])


def direct(scene, h, res, strict):
    out = np.zeros(3)
    for l in scene['lights']:
        out = out + delta(scene, h, l, strict)
    for i, s in enumerate(scene['shapes']):
        if s.get('emit') and s.get('lit'):
            out = out + area(scene, h, i, res)
    return out


def hemisphere(h, n):
    z = (np.arange(n) + .5) / n
    a = (np.arange(2 * n) + .5) / n * math.pi
    Z, A = np.meshgrid(z, a, indexing='ij')
    Z, A = Z.ravel(), A.ravel()
    r = np.sqrt(1. - Z * Z)
    up = np.sign(h.n.dot(h.wo))
    W = r[:, None] * (np.cos(A)[:, None] * h.x + np.sin(A)[:, None] * h.y) + (up * Z)[:, None] * h.n
    return W, math.pi / n / n


def bounce(scene, h, n):
    """Light that has been scattered once more on its way to a hit."""
    out = np.zeros(3)
    W, w = hemisphere(h, n)
    F = lobes(h, W)
    for k in range(len(W)):
        if F[k].any():
            g = near(scene, h.p, W[k])
            if g is not None:
                out += F[k] * direct(scene, T.Hit(scene, h.p, W[k], g), 0, False) * clear(scene, h.p, W[k], g[0])
    out *= w
    lo = h.local(h.wo)
    for c in h.comps:
        if R.matches(c, 17) or R.matches(c, 18):
            r = R.specular(c, lo)
            if r is None:
                continue
            wi = h.world(r[0])
            g = near(scene, h.p, wi)
            far = np.inf if g is None else g[0]
            if g is None:
                sub = np.array(scene['sky'] or [0., 0., 0.])
            else:
                g = T.Hit(scene, h.p, wi, g)
                sub = g.emitted() + direct(scene, g, 0, False)
            out += r[1] * abs(r[0][2]) * sub * clear(scene, h.p, wi, far)
    return out


class C22(Check):
    id = 'C22'
    quick = 48
    thorough = 3000
    focus = ('integrator/', 'renderer/renderer.py', 'light/')
    fault_kinds = ('memory', 'interrupt', 'rng-edge')
    real = ('Whitted, direct and path integrators', 'direct lighting estimator', 'renderer', 'stratified sampler',
            'scene, aggregates, shapes', 'materials, BSDFs', 'point, spot, distant and area lights', 'homogeneous media')
    stub = ('random source (seeded streams)', 'volume integrator (harness: the repository has none)', 'surrounding light (harness subclass)',
            'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is a scene, a camera ray and an integrator that 1-4 tasks evaluate with seeded draws and failing '
            'statements under one schedule, each evaluation compared with the same draws alone, and the mean of some '
            'hundred further evaluations compared with quadrature or a closed form; non-trivial: two tasks interleaved '
            'and a mean judged; distinct by schedule, scene and integrator')
    assumptions = ('draws are independent and uniform', 'media do not glow and are homogeneous',
                   'means off by 3 standard errors are continued to four times as many draws, if off by 4 to eight, and judged at 5')
    mods = ('pytracer.camera', 'pytracer.film', 'pytracer.filter', 'pytracer.sampler',
            'pytracer.light', 'pytracer.aggregate', 'pytracer.shape', 'pytracer.material', 'pytracer.texture',
            'pytracer.integrator', 'pytracer.integrator.surface', 'pytracer.renderer', 'pytracer.scene')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        kind = rng.choice(['area'] * 6 + ['bounce'] * 2 + ['furnace'] * 4 + ['lamp'] * 2 + ['zones'] * (tier == 'thorough'))
        p = {'kind': kind, 'n': {'area': 180, 'bounce': 160, 'furnace': 40, 'lamp': 50, 'zones': 700}[kind], 'seed': rng.getrandbits(32)}
        if kind in ('furnace', 'lamp', 'zones'):
            self.enclosure(rng, p, kind)
        else:
            self.open_scene(rng, p, kind)
        p['threads'] = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        p['edge'] = rng.choice([0., 0., .2])
        if rng.random() < .35 and (kind in ('area', 'bounce', 'lamp') or kind == 'furnace' and p['objects'] == 'none'):
            # half-lit fog over a part of an open scene, or over everything
            e = 20. if kind in ('lamp', 'furnace') or rng.random() < .3 else None
            p['scene']['fog'] = {
                'k': 'homog', 'sa': T.col(rng, .02, .15), 'ss': T.col(rng, .02, .15), 'g': .3, 'le': [0., 0., 0.],
                'ext': [[-(e or round(rng.uniform(.5, 4.), 2)) for _ in range(3)],
                        [e or round(rng.uniform(.5, 4.), 2) for _ in range(3)]],
                'w': {'c': [0., 0., 0.], 'rot': [round(rng.uniform(-180., 180.), 1) for _ in range(3)], 'mirror': False}}
        if rng.random() < .3:
            p['mem'] = {'p': rng.choice([.0005, .002]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt']])}
        return p

    @staticmethod
    def open_scene(rng, p, kind):
        while True:
            if kind == 'area':
                sc = T.gen_scene(rng, n=rng.choice([2, 2, 3]), mats=('matte', 'matte', 'oren', 'plastic', 'uber'),
                                 emit=.0, lights=(0, 0, 1, 2))
                many = rng.choice([1, 2, 4, 4])
                for i in rng.sample(range(len(sc['shapes'])), rng.choice([1, 1, 2])):
                    sc['shapes'][i].update(emit=T.col(rng, .5, 3.), lit=True, ns=many if rng.random() < .8 else 1)
            else:
                sc = T.gen_scene(rng, n=rng.choice([2, 3]), mats=('matte', 'matte', 'oren', 'plastic', 'uber'),
                                 emit=0., lights=(1, 2))
                if rng.random() < .7:
                    for l in sc['lights']:
                        l.update(k='distant', L=T.col(rng, .5, 4.), di=[rng.choice([-1., 1.]), .3, rng.choice([-1., .5])])
            cam, motion = T.gen_view(rng, sc)
            res = [8, 8]
            for _ in range(6):
                smp = [rng.uniform(1, 7), rng.uniform(1, 7), .5, .5, 0.]
                o, d = camlib.ray(cam, motion, res, smp)
                try:
                    g = T.nearest(sc, o, d, False)
                    if g is None:
                        continue
                    h = T.Hit(sc, o, d, g)
                    if abs(h.n.dot(d)) < .2 or abs(h.ng.dot(d)) < .1 or h.n.dot(h.wo) * h.ng.dot(h.wo) <= 0.:
                        continue
                    for l in sc['lights']:
                        T.shade(l, h, sc)
                    low = direct(sc, h, 6, True)
                    if not low.max() > .08:
                        continue
                except T.Doubt:
                    continue
                p.update(scene=sc, ray=[[float(x) for x in o], [float(x) for x in d]],
                         integ=rng.choice(['whitted', 'all', 'all', 'all', 'one', 'path']) if kind == 'area' else 'path',
                         depth=0 if kind == 'area' else 1)
                if p['integ'] == 'all':
                    p['n'] = 90
                return

    @staticmethod
    def enclosure(rng, p, kind):
        """A closed room in which radiance is known whatever stands in it."""
        # paths are continued by chance from some depth on: keep that frequent
        depth = rng.choice([0, 1, 2, 3, 4, 4, 5, 5, 6])
        rho = [round(rng.uniform(.1, .5) if depth < 5 else rng.uniform(.7, .8), 3) for _ in range(3)]
        E = T.col(rng, .2, 2.)
        r = round(rng.uniform(3., 6.), 2)
        rot = [round(rng.uniform(-180, 180), 1) for _ in range(3)]
        m = {'k': 'matte', 'Kd': rho, 'sigma': 0.}
        room = {'k': 'sphere', 'c': [round(rng.uniform(-1, 1), 2) for _ in range(3)], 'rot': rot, 'mirror': False,
                'ro': True, 'r': r, 'z0': -r, 'z1': r, 'pm': 360., 'm': m}
        shapes = [room]
        sc = {'shapes': shapes, 'lights': [], 'sky': None, 'agg': rng.choice(['Grid', 'BVH', 'Simple']), 'now': False}
        c = np.array(room['c'])
        if kind in ('lamp', 'zones'):
            sc['lights'] = [{'k': 'point', 'L': T.col(rng, 5., 40.), 'c': room['c'], 'rot': [0., 0., 0.]}
                            for _ in range(rng.choice([1, 1, 2]))]
            p['depth'] = depth
            if kind == 'zones':
                # the room in bands, bright and dark
                p['depth'] = rng.choice([2, 3, 4, 4, 4, 5])
                cuts = rng.choice([[0.], [0.], [-.5, .5], [-.3, .3]])
                cols = rng.choice([[.9, .15], [.15, .9]])
                z = [-r] + [round(c * r, 2) for c in cuts] + [r]
                shapes[:] = [dict(room, z0=z[i], z1=z[i + 1], m={'k': 'matte', 'sigma': 0., 'Kd': [
                    round(cols[i % 2] * rng.uniform(.8, 1.), 3) for _ in range(3)]}) for i in range(len(z) - 1)]
        else:
            room.update(emit=E, lit=True, ns=1)
            p['objects'] = rng.choice(['none', 'same', 'clear'])
            if p['objects'] == 'clear':
                m['Kd'] = rho = [round(rng.uniform(.05, .3), 3) for _ in range(3)]
            n = 0 if p['objects'] == 'none' else rng.choice([1, 1, 2])
            for j in range(n):
                s = S.gen(rng, kinds=('sphere',), spread=.8,
                          ro=False, partial=0.)
                if p['objects'] == 'same':
                    s.update(m=m, emit=E, lit=True, ns=1)
                else:
                    s['m'] = rng.choice([{'k': 'mirror', 'Kr': [1., 1., 1.]},
                                         {'k': 'glass', 'Kr': [1., 1., 1.], 'Kt': [1., 1., 1.],
                                          'eta': round(rng.uniform(1.2, 1.8), 2)}])
                if all(np.linalg.norm(np.subtract(s['c'], x['c'])) > s['r'] + x['r'] + .1 for x in shapes[1:]):
                    shapes.append(s)
            p['depth'] = depth if p['objects'] != 'clear' else 12
        while True:
            o = [round(float(x) + rng.uniform(-.6, .6) * r, 3) for x in c]
            d = [rng.uniform(-1, 1) for _ in range(3)]
            n = np.linalg.norm(d)
            if n < .1 or np.linalg.norm(np.array(o) - c) > .8 * r:
                continue
            if kind == 'zones':
                d = [x / n for x in d]
                try:
                    if T.nearest(sc, np.array(o), np.array(d), False) is None:
                        continue
                except T.Doubt:
                    continue
                break
            if any(np.linalg.norm(np.array(o) - s['c']) < s['r'] + .1 for s in shapes[1:]):
                continue
            if len(shapes) > 1:
                d = np.array(shapes[1]['c']) - o + np.array([rng.uniform(-.5, .5) for _ in range(3)])
                n = np.linalg.norm(d)
            d = [float(x) / float(n) for x in d]
            try:
                g = T.nearest(sc, np.array(o), np.array(d), False)
            except T.Doubt:
                continue
            if g is not None:
                break
        p.update(scene=sc, ray=[[float(x) for x in o], [float(x) for x in d]], integ='path')

    # ---------------------------------------------------------------- reference
    @staticmethod
    def expected(p):
        """(mean radiance, uncertainty)."""
        sc = p['scene']
        first, chord, half = 1., 1., 1.
        if p['kind'] in ('lamp', 'furnace') and sc.get('fog'):
            # what the fog leaves of the light on the way to the eye, on the
            # mean way from wall to wall, and from the middle to a wall
            o, d = [np.array(x) for x in p['ray']]
            first = clear(sc, o, d, T.nearest(sc, o, d, False)[0])
            a = 2. * sc['shapes'][0]['r'] * (np.array(sc['fog']['sa']) + np.array(sc['fog']['ss']))
            chord, half = 2. * (1. - np.exp(-a) * (1. + a)) / a ** 2, np.exp(-a / 2.)
        if p['kind'] == 'lamp':
            room = sc['shapes'][0]
            rho = np.array(room['m']['Kd'])
            e0 = sum(np.array(l['L']) for l in sc['lights']) * rho / (math.pi * room['r'] ** 2)
            return first * half * e0 * sum((rho * chord) ** k for k in range(p['depth'] + 1)), 0.
        if p['kind'] == 'zones':
            # from any place of a sphere the others are met in proportion to
            # their area; the light of the last bounce alone
            rho = sum(np.array(s['m']['Kd']) * (s['z1'] - s['z0']) for s in sc['shapes']) / (2. * sc['shapes'][0]['r'])
            o, d = [np.array(x) for x in p['ray']]
            first = sc['shapes'][T.nearest(sc, o, d, False)[1]]
            e0 = sum(np.array(l['L']) for l in sc['lights']) * np.array(first['m']['Kd'])
            return e0 / (math.pi * first['r'] ** 2) * rho ** p['depth'], 0.
        if p['kind'] == 'furnace':
            room = sc['shapes'][0]
            rho, E = np.array(room['m']['Kd']), np.array(room['emit'])
            if p['objects'] == 'clear':
                return E / (1. - rho), .03 * float(E.max())
            return first * E * sum((rho * chord) ** k for k in range(p['depth'] + 2)), 0.
        o, d = [np.array(x) for x in p['ray']]
        h = T.Hit(sc, o, d, T.nearest(sc, o, d, False))
        q = []
        for res, n in ((12, 12), (22, 18)):
            v = h.emitted() + direct(sc, h, res, True)
            if p['depth'] and p['integ'] == 'path':
                v = v + bounce(sc, h, n)
            q.append(v * clear(sc, o, d, T.nearest(sc, o, d, False)[0]))
        return q[1], 3. * float(np.abs(q[1] - q[0]).max())

    # ---------------------------------------------------------------- execution
    @staticmethod
    def world(p, depth=None, ns=None, told=None):
        import pytracer.geometry as geo
        from pytracer.integrator.surface import DirectLightingIntegrator, LightStrategy, PathIntegrator
        from pytracer.integrator.surface.whitted import WhittedIntegrator
        from pytracer.renderer import SamplerRenderer
        from pytracer.sampler import Sample, StratifiedSampler
        from pytracer.aggregate import Intersection
        from pytracer.scene import Scene
        sc = p['scene']
        if ns is not None:
            sc = dict(sc, shapes=[dict(s, ns=ns) if s.get('ns') else s for s in sc['shapes']])
        scene, _ = T.build(sc, mat=None if told is None else C22.listening(told))
        vi = None
        if sc.get('fog'):
            vi = vollib.medium({'noisy': False, 'glow': False})
            scene = Scene(scene.aggregate, scene.lights, vollib.region(sc['fog']))
        k = p['integ']
        depth = p['depth'] if depth is None else depth
        integ = WhittedIntegrator(1) if k == 'whitted' else PathIntegrator(depth) if k == 'path' else \
            DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if k == 'all' else
                                     LightStrategy.SAMPLE_ONE_UNIFORM, 1)
        ren = SamplerRenderer(None, None, integ, vi)
        first = Sample(StratifiedSampler(0, 1, 0, 1, 1, 1, True, 0., 1.), integ, vi, scene)
        o, d = p['ray']

        def evaluate(seed, edge=0., part=None, keep=None):
            """One estimate from the draws of one seed, perhaps with one part
            of the numbers another estimate has been given."""
            t = sim.S.cur
            st = simrand.Stream('%s:%s' % (p['seed'], seed), edge=edge)
            if t is not None:
                old, t.rng = t.rng, st
            else:
                old, simrand.State.glob = simrand.State.glob, st
                sim.S.out = 0
            try:
                sampler = StratifiedSampler(0, 1, 0, 1, 1, 1, True, 0., 1.)
                smp = first.duplicate(1)
                if sampler.generate(smp) != 1:
                    raise Violation('no-sample', 'the sampler gives no sample for a pixel')
                if keep is not None:
                    keep[:] = [[np.array(x) for x in smp[0].oneD], [np.array(x) for x in smp[0].twoD]]
                if part is not None:
                    for mine, given in zip((smp[0].oneD, smp[0].twoD), part[1]):
                        for i, g in enumerate(given):
                            mine[i][...] = g[part[0] % len(g)]
                ray = geo.RayDifferential(geo.Point(*o), geo.Vector(*d), 0., float('inf'), 0, smp[0].time)
                v, _ = ren.li(scene, ray, smp[0], Intersection())
                return [float(x) for x in v]
            finally:
                if t is not None:
                    t.rng = old
                else:
                    simrand.State.glob = old
        return evaluate

    @staticmethod
    def listening(told):
        """Materials that note the numbers their scattering functions are sampled by."""
        from pytracer.material import Material
        from pytracer.reflection import BSDF

        class Told(BSDF):
            def sample_f(self, wo, smp, *a, **k):
                told.append(tuple(float(x) for x in smp.u_dir))
                return BSDF.sample_f(self, wo, smp, *a, **k)

        class Listener(Material):
            def __init__(self, m):
                self.m = m

            def get_bsdf(self, *a, **k):
                b = self.m.get_bsdf(*a, **k)
                b.__class__ = Told
                return b
        return lambda m: Listener(T.material(m))

    def numbers(self, p, run):
        """Every decision of an estimate has numbers of its own."""
        told = []
        ev = self.world(p, told=told)
        for i in range(3):
            told[:] = []
            ev('n%d' % i)
            run.probe('decisions', len(told))
            for a in told:
                if told.count(a) > 1:
                    raise Violation('numbers-reused', '%s estimate %d along %r samples directions by %r more than once: %r' % (
                        p['integ'], i, p['ray'], a, told))

    def parts(self, p, ev, run):
        """An estimate from n samples of the lights is the mean of n estimates
        from one sample each."""
        n = max(s.get('ns', 1) for s in p['scene']['shapes'])
        if p['integ'] != 'all' or n < 2:
            return
        single = self.world(p, ns=1)
        diffs, size = [], 0.
        for stage in (6, 40, 160, 320):
            while len(diffs) < stage:
                seed, kept = 'p%d' % len(diffs), []
                whole = np.array(ev(seed, keep=kept))
                each = np.array([single(seed, part=(j, kept)) for j in range(n)])
                diffs.append(whole - each.mean(axis=0))
                size = max(size, float(each.max()))
            d = np.array(diffs)
            run.probe('estimates_split', len(d))
            # equal, or (if the numbers are used otherwise) equal on the average
            tol = 0. if stage == 6 else 5.5 * d.std(axis=0) / math.sqrt(len(d))
            if np.all(np.abs(d).max(axis=0) <= 1e-9 * size) or (stage > 6 and np.all(
                    np.abs(d.mean(axis=0)) <= .45 * tol + 1e-9)):
                return
            if stage > 6 and np.any(np.abs(d.mean(axis=0)) > 1.2 * tol + 1e-9):
                break
        if np.any(np.abs(d.mean(axis=0)) > tol + 1e-9):
            raise Violation('parts-differ', 'estimates along %r from %d samples per light differ from the mean of the '
                            'estimates from these samples one by one: by %r on the average of %d (standard error %r)' % (
                                p['ray'], n, d.mean(axis=0).tolist(), len(d), (d.std(axis=0) / math.sqrt(len(d))).tolist()))

    def execute(self, p, run):
        try:
            want, unc = self.expected(p)
        except (T.Doubt, vollib.Doubt) as e:
            run.probe('doubt: %s' % e)
            return
        with np.errstate(all='ignore'):
            ev = self.world(p)
            got, errs = [], []
            inj = (sim.InjectedFault, sim.InjectedInterrupt)

            def task(i, n):
                def go():
                    for j in range(n):
                        seed = '%d:%d' % (i, j)
                        for _ in range(4):
                            try:
                                got.append((seed, ev(seed, p['edge'])))
                                break
                            except inj as e:
                                errs.append(e)
                return go
            faults = None
            if p.get('mem'):
                m = p['mem']
                faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/integrator/' in x[0] or
                                    '/reflection/' in x[0] or '/light/' in x[0] or '/material/' in x[0]],
                          'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
            s = run.simulate([('task%d' % i, task(i, n)) for i, n in enumerate(p['threads'])], faults=faults,
                             max_steps=20000000)
            if s.outcome:
                raise Violation('no-progress', 'an estimate does not finish: %s' % s.outcome)
            for t in s.tasks:
                if t.error is not None:
                    if isinstance(t.error, Violation):
                        raise t.error
                    raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
            if len(errs) > len(s.fault_log):
                raise Violation('spurious-error', '%d estimates failed, %d failures injected' % (
                    len(errs), len(s.fault_log)))
            for seed, v in got:
                if not np.all(np.isfinite(v)) or min(v) < 0.:
                    raise Violation('bad-estimate', '%s estimate of %r with draws %s is %r' % (
                        p['integ'], p['ray'], seed, v))
                w = ev(seed, p['edge'])
                if w != v:
                    raise Violation('estimate-changed', '%s estimate of %r with draws %s was %r among other tasks, '
                                    'alone it is %r' % (p['integ'], p['ray'], seed, v, w))
            run.probe('estimates', len(got))
            self.numbers(p, run)
            self.parts(p, ev, run)
            vals = []
            n = p['n']
            if p['kind'] == 'zones':
                full, less = ev, self.world(p, p['depth'] - 1)
                ev = lambda seed, **k: [a - b for a, b in zip(full(seed), less(seed))]
            # more estimates the more it looks wrong; only the last stage can
            # raise an alarm
            for rnd, z, more in ((0, 3., 1), (1, 4., 4), (2, 5., 8)):
                while len(vals) < n * more:
                    vals.append(ev('m%d' % len(vals)))
                a = np.array(vals)
                if not np.all(np.isfinite(a)):
                    raise Violation('bad-estimate', '%s estimate of %r is %r' % (
                        p['integ'], p['ray'], a[~np.isfinite(a).all(axis=1)][0].tolist()))
                mean, se = a.mean(axis=0), a.std(axis=0) / math.sqrt(len(a))
                tol = z * se + .01 * want + unc + 1e-4 * min(1., float(want.max()))
                if np.all(np.abs(mean - want) <= tol):
                    break
                if rnd == 2:
                    raise Violation('wrong-mean', '%s: the mean of %d %s estimates along %r is %r, it is %r '
                                    '(standard error %r, quadrature %r)' % (
                                        p['kind'], len(a), p['integ'], p['ray'], mean.tolist(), want.tolist(),
                                        se.tolist(), unc))
                run.probe('means_repeated')
        rel = float(tol.max() / max(want.max(), 1e-9))
        run.probe('means_judged')
        run.probe('means_judged_in_fog', int(bool(p['scene'].get('fog'))))
        run.probe('mean within %s' % ('2%' if rel < .02 else '5%' if rel < .05 else '10%' if rel < .1 else
                                      '20%' if rel < .2 else 'more'))
        run.nontrivial = s.switches > len(p['threads']) > 1
        run.keys = [p['kind'], p['integ'], p['depth'], [[x['k'], x['m']['k']] for x in p['scene']['shapes']]]


CHECK = C22
