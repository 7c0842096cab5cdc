"""Lights give the light they are told to, where it is not blocked."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, shapelib as S
from .c16 import C16

EDGE = [0., 1e-12, .5, .25, 1. - 2. ** -53]


class C19(Check):
    id = 'C19'
    quick = 600
    thorough = 30000
    focus = ('light/', 'scene/scene.py', 'integrator/utility.py')
    fault_kinds = ('edge draws', 'memory', 'interrupt')
    real = ('point, spot, distant and area lights', 'sets of shapes', 'visibility testers', 'scene', 'aggregates',
            'shapes', 'geometry/transform')
    stub = ('random draws (seeded, with edge values)', 'materials (none)', 'threading primitives (simulated)',
            'OS scheduler')
    rule = ('a case is a scene of 1-4 shapes, 1-4 lights, two points and 1-4 tasks that ask the shared lights for '
            'illumination, densities, leaving rays and power with seeded and edge draws, change what they are given, '
            'and meet failing statements, under one schedule; non-trivial: two tasks interleaved, or a stratified '
            'sweep of the draws; distinct by schedule, scene, lights and fault sites')
    assumptions = ('draws lie in [0, 1)', 'lights and shapes are placed by rotations, translations and reflections',
                   'shadow rays that graze a shape or an edge within the tolerance are not judged')
    mods = ('pytracer.light', 'pytracer.scene', 'pytracer.aggregate', 'pytracer.shape', 'pytracer.montecarlo',
            'pytracer.integrator')

    def gen(self, rng, tier):
        shapes = [S.gen(rng, uv=.2) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        spec = lambda: [round(rng.uniform(.1, 4.), 3) for _ in range(3)]
        vec = lambda s: [round(rng.uniform(-s, s), 3) for _ in range(3)]
        lights = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            k = rng.choice(['point', 'spot', 'distant', 'area', 'area'])
            d = {'k': k, 'L': spec(), 'c': vec(3.), 'rot': [round(rng.uniform(-180, 180), 1) for _ in range(3)]}
            if k == 'spot':
                w = round(rng.uniform(15., 85.), 1)
                d.update(width=w, fall=round(w * rng.uniform(.3, .95), 1))
            elif k == 'distant':
                while True:
                    d['di'] = vec(1.)
                    if np.linalg.norm(d['di']) > .2:
                        break
            elif k == 'area':
                d['shape'] = rng.randrange(len(shapes))
            lights.append(d)

        def draw():
            return rng.choice(EDGE) if rng.random() < .2 else rng.random()
        pts = []
        for _ in range(2):
            if rng.random() < .2:
                c = rng.choice(shapes)['c']
                pts.append([round(x + rng.uniform(-.3, .3), 3) for x in c])
            else:
                pts.append(vec(4.))

        two = rng.random() < .5       # the lights shine in a second scene as well

        def op():
            k = rng.choice(['sample', 'sample', 'sample', 'leave', 'power', 'emit', 'miss', 'cdf'])
            o = [k, rng.randrange(len(lights)), [draw() for _ in range(5)], rng.choice(pts),
                 rng.choice([0., 1e-4, 1e-2]), vec(1.)]
            if k in ('leave', 'power', 'cdf') and two:
                o.append(rng.randrange(2))
            return o
        p = {'shapes': shapes, 'lights': lights, 'agg': rng.choice(['BVH', 'Grid', 'Simple']), 'sweep': None,
             'spoil': rng.random() < .6,
             'threads': [[op() for _ in range(rng.choice([2, 3, 5]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .15:
            p['mem'] = {'p': rng.choice([.002, .01]), 'max': 1, 'kinds': rng.choice([['memory'], ['interrupt']])}
        if rng.random() < .12:
            areas = [i for i, l in enumerate(lights) if l['k'] == 'area']
            if areas:
                p['sweep'] = [rng.choice(areas), rng.choice(pts), vec(1.)]
        return p

    @staticmethod
    def build(plan):
        import pytracer.geometry as geo
        import pytracer.light as lt
        from pytracer import Spectrum
        from pytracer.scene import Scene
        from pytracer.aggregate import GeometricPrimitive, BVH, GridAccel, SimpleAggregate
        shapes = [S.build(s) for s in plan['shapes']]
        lights = []
        owner = {}
        for l in plan['lights']:
            t = S.transform({'c': l['c'], 'rot': l['rot'], 'mirror': False})
            L = Spectrum(l['L'])
            if l['k'] == 'point':
                lights.append(lt.PointLight(t, L))
            elif l['k'] == 'spot':
                lights.append(lt.SpotLight(t, L, l['width'], l['fall']))
            elif l['k'] == 'distant':
                lights.append(lt.DistantLight(t, L, geo.Vector(*l['di'])))
            else:
                lights.append(lt.DiffuseAreaLight(t, L, 1, shapes[l['shape']]))
                owner.setdefault(l['shape'], lights[-1])
        prims = [GeometricPrimitive(sh, None, owner.get(i)) for i, sh in enumerate(shapes)]
        agg = {'BVH': lambda: BVH(prims, False), 'Grid': lambda: GridAccel(prims, False),
               'Simple': lambda: SimpleAggregate(prims, True)}[plan['agg']]()
        return lights, Scene(agg, lights, None), owner

    @staticmethod
    def second(lights):
        from pytracer.scene import Scene
        from pytracer.aggregate import GeometricPrimitive, SimpleAggregate
        ball = GeometricPrimitive(S.build({'k': 'sphere', 'c': [6., -7., 3.], 'r': 2., 'rot': None, 'mirror': False,
                                           'ro': False, 'z0': -2., 'z1': 2., 'pm': 360.}), None)
        return Scene(SimpleAggregate([ball], True), lights, None)

    def execute(self, plan, run):
        import pytracer.geometry as geo
        from pytracer.light.utility import LightSample
        from pytracer.aggregate import Intersection
        from pytracer.integrator.utility import compute_light_sampling_cdf
        with np.errstate(all='ignore'):
            lights, scene, owner = self.build(plan)
            scenes = [scene, self.second(lights)]
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]

        def spectrum(s):
            v = [float(x) for x in s]
            if plan['spoil']:
                s *= 0.         # what a caller does to its result is its own affair
            return v

        def rayof(r):
            return [flt(r.o), flt(r.d), float(r.mint), float(r.maxt), float(r.time)]

        def box(scene):
            b = scene.world_bound()
            return [flt(b.pMin), flt(b.pMax)]

        def one(o):
            k, i, u, p, eps, w = o[:6]
            l = lights[i]
            scene = scenes[o[6] if len(o) > 6 else 0]
            if k == 'power':
                return {'L': spectrum(l.power(scene)), 'bound': box(scene)}
            if k == 'cdf':
                d = compute_light_sampling_cdf(scene)
                return {'cdf': [d.sample_dis((j + .5) / 16.) for j in range(16)], 'bound': box(scene)}
            if k == 'miss':
                return {'L': spectrum(l.le(geo.RayDifferential(geo.Point(*p), geo.Vector(*w), 0.)))}
            if k == 'emit':
                if plan['lights'][i]['k'] != 'area':
                    return None
                ray = geo.Ray(geo.Point(*p), geo.Vector(*w), 1e-3)
                isect = Intersection()
                if not scene.intersect(ray, isect):
                    return {'hit': False}
                wo = -geo.normalize(ray.d)
                mine = isect.primitive.get_area_light()
                return {'hit': True, 't': float(ray.maxt), 'le': spectrum(isect.le(wo)),
                        'light': None if mine is None else lights.index(mine)}
            if k == 'leave':
                r, n, pdf, L = l.sample_r(scene, LightSample(u[0], u[1], u[2]), u[3], u[4], .25)
                return {'ray': rayof(r), 'n': flt(n), 'pdf': float(pdf), 'L': spectrum(L),
                        'bound': box(scene)}
            L, wi, pdf, vis = l.sample_l(geo.Point(*p), eps, LightSample(u[0], u[1], u[2]), .25)
            r = rayof(vis.ray)
            return {'L': spectrum(L), 'wi': flt(wi), 'pdf': float(pdf), 'vis': r, 'free': bool(vis.unoccluded(scene)),
                    'pdf2': float(l.pdf(geo.Point(*p), wi)), 'delta': bool(l.is_delta_light()), 'ns': int(l.ns)}

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/light/' in x[0] or '/shape/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                             max_steps=2000000)
        if s.outcome:
            raise Violation('no-progress', 'asking lights does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > len(s.fault_log):
            raise Violation('spurious-error', '%d calls failed, %d failures injected' % (len(errs), len(s.fault_log)))
        for o, v in got:
            self.judge(plan, o, v, run)
        for ops in plan['threads']:
            for o in ops[:2]:
                with np.errstate(all='ignore'):
                    self.judge(plan, o, one(o), run, 'later-')
        run.probe('calls', len(got))
        run.nontrivial = s.switches > len(plan['threads'])
        if plan['sweep']:
            self.sweep(plan, lights, scene, run)
        run.keys = [[l['k'] for l in plan['lights']], [[o[:2] for o in t] for t in plan['threads']]]

    # --------------------------------------------------------------- reference
    @staticmethod
    def frame(l):
        return S.matrix({'c': l['c'], 'rot': l['rot'], 'mirror': False})

    def falloff(self, l, d):
        """Share of a spotlight's intensity along the world direction d."""
        m, _ = self.frame(l)
        c = (d / np.linalg.norm(d)).dot(m[:, 2])
        cw, cf = math.cos(math.radians(l['width'])), math.cos(math.radians(l['fall']))
        if c < cw:
            return 0.
        return 1. if c > cf else ((c - cw) / (cf - cw)) ** 4

    @staticmethod
    def blocked(plan, o, d, mint, maxt, own=None, end=None):
        """Whether something lies on the segment; None when that is hard to tell."""
        doubt = False
        for i, s in enumerate(plan['shapes']):
            hs, db = S.hits(s, o, d)
            doubt |= db
            for t, q, tri in hs:
                if i == own and end is not None and abs(t - end) < 1e-3:
                    doubt |= abs(t - end) > 1e-5 and s['k'] == 'tris'
                    continue
                if abs(t - mint) < 1e-3 or abs(t - maxt) < 1e-3:
                    doubt = True
                elif mint < t < maxt:
                    return None if db else True
        return None if doubt else False

    def judge(self, plan, o, v, run, pre=''):
        if v is None:
            return
        k, i, u, p, eps, w = o[:6]
        l = plan['lights'][i]
        what = '%s of %s light %r' % (k, l['k'], o)
        L = np.array(l['L'])
        m, c = self.frame(l)
        flat = []

        def walk(x):
            if isinstance(x, dict):
                [walk(y) for y in x.values()]
            elif isinstance(x, (list, tuple)):
                [walk(y) for y in x]
            elif isinstance(x, float):
                flat.append(x)
        walk([v[x] for x in v if x != 'vis'])
        if not all(math.isfinite(x) for x in flat if x != float('inf')):
            raise Violation(pre + 'not-finite', '%s gives %r' % (what, v))

        def cmp(name, a, b, tol=1e-6):
            b = np.asarray(b, dtype=float)
            if not np.all(np.abs(np.asarray(a) - b) <= tol * max(1., np.abs(b).max())):
                raise Violation(pre + 'wrong-' + name, '%s: %s is %r, it is %r' % (what, name, a, b.tolist()))
        if k == 'power':
            cmp('power', v['L'], self.power(plan, l, v['bound']), 1e-6)
            return
        if k == 'cdf':
            pw = [float(np.dot([.212671, .715160, .072169], self.power(plan, x, v['bound']))) for x in plan['lights']]
            cum = np.concatenate([[0.], np.cumsum(pw)]) / sum(pw)
            for j, (n, pr) in enumerate(v['cdf']):
                x = (j + .5) / 16.
                if np.abs(cum - x).min() < 1e-3:
                    continue
                want = int(np.searchsorted(cum, x)) - 1
                if n != want or abs(pr - pw[want] / sum(pw)) > 1e-3:
                    raise Violation(pre + 'wrong-choice', '%s: draw %r picks light %r with probability %r, powers '
                                    'are %r' % (what, x, n, pr, pw))
            return
        if k == 'miss':
            cmp('background', v['L'], [0., 0., 0.])
            return
        if k == 'emit':
            return self.judge_emit(plan, o, v, what, pre)
        if k == 'leave':
            return self.judge_leave(plan, l, o, v, what, pre, cmp)
        # sample_l
        pt = np.array(p)
        ro, rd, mint, maxt, time = v['vis']
        cmp('shadow-ray', ro, pt, 1e-9)
        cmp('shadow-ray', [mint, time], [eps, .25], 1e-12)
        if v['delta'] != (l['k'] != 'area') or v['ns'] != 1:
            raise Violation(pre + 'wrong-kind', '%s: delta %r, %r samples' % (what, v['delta'], v['ns']))
        if l['k'] == 'distant':
            d = m.dot(np.array(l['di']))
            d = d / np.linalg.norm(d)
            cmp('direction', v['wi'], d)
            cmp('shadow-ray', rd, d)
            cmp('radiance', v['L'], L)
            cmp('density', [v['pdf'], v['pdf2']], [1., 0.])
            if maxt != float('inf'):
                raise Violation(pre + 'wrong-shadow-ray', '%s: the shadow ray ends at %r' % (what, maxt))
            end, own = None, None
        elif l['k'] in ('point', 'spot'):
            d = c - pt
            dist = np.linalg.norm(d)
            if dist < .05:
                return
            f = self.falloff(l, -d) if l['k'] == 'spot' else 1.
            cmp('direction', v['wi'], d / dist)
            cmp('radiance', v['L'], L * f / dist ** 2)
            cmp('density', [v['pdf'], v['pdf2']], [1., 0.])
            cmp('shadow-ray', np.array(rd) * maxt, d)
            cmp('shadow-ray', rd, d / dist)
            end, own = None, None
        else:
            s = plan['shapes'][l['shape']]
            wi = np.array(v['wi'])
            if abs(np.linalg.norm(rd) - 1.) > 1e-9 or not maxt > 0.:
                raise Violation(pre + 'wrong-shadow-ray', '%s: the shadow ray is %r' % (what, v['vis']))
            end = maxt / (1. - 1e-5)
            ps = pt + np.array(rd) * end
            if end < .05:
                return
            cmp('direction', v['wi'], rd, 1e-9)
            q = S.to_local(s, ps)
            dd, tri = S.off(s, q)
            if dd > 2e-4 * max(1., end):
                if not (S.whole(s) and self.grazes(s, pt, q)):
                    raise Violation(pre + 'off-light', '%s aims at %r, %.3g away from the light' % (what, ps.tolist(), dd))
                return
            n = S.normal(s, q, tri)
            cs = -n.dot(wi)
            edge = s['k'] == 'tris' and sum(S.off(dict(s, idx=s['idx'][j:j + 3]), q)[0] < 1e-3
                                            for j in range(0, len(s['idx']), 3)) > 1
            if abs(cs) > .02 and not edge:
                cmp('radiance', v['L'], L if cs > 0. else 0. * L)
            elif any(abs(a - b) > 1e-6 for a, b in zip(v['L'], L)) and any(v['L']):
                cmp('radiance', v['L'], L)
            cmp('density', v['pdf2'], v['pdf'], 1e-9)
            want = C16.pdf_seen(s, pt, wi * end)
            if want is not None and abs(v['pdf'] - want) > 1e-4 * want:
                raise Violation(pre + 'wrong-density', '%s has density %r, it is %r' % (what, v['pdf'], want))
            own = l['shape']
        b = self.blocked(plan, ro, rd, mint, maxt, own, end)
        if b is None:
            return
        run.probe('shadow_rays_judged')
        if v['free'] == b:
            raise Violation(pre + 'wrong-shadow', '%s: the segment %r is %s, it is %s' % (
                what, v['vis'], 'free' if v['free'] else 'blocked', 'blocked' if b else 'free'))

    @staticmethod
    def grazes(s, pt, q):
        lp = S.to_local(s, pt)
        to = (q - lp) / np.linalg.norm(q - lp)
        return abs(to.dot(q) / np.linalg.norm(q)) < .05

    def power(self, plan, l, bound):
        L = np.array(l['L'])
        if l['k'] == 'point':
            return 4. * math.pi * L
        if l['k'] == 'spot':
            h = .5 * (math.cos(math.radians(l['width'])) + math.cos(math.radians(l['fall'])))
            return L * 2. * math.pi * (1. - h)
        if l['k'] == 'area':
            return math.pi * L * S.area(plan['shapes'][l['shape']])
        lo, hi = [np.array(x) for x in bound]
        return L * math.pi * float(((hi - lo) ** 2).sum()) / 4.

    def judge_emit(self, plan, o, v, what, pre):
        """Emission of what a ray hits: of its own light, towards its front."""
        k, i, u, p, eps, w = o
        best = None
        for j, s in enumerate(plan['shapes']):
            f = S.first(s, p, w)
            if f[0] == 'doubt':
                return
            if f[0] == 'hit':
                if best and abs(best[0] - f[1]) < 1e-3:
                    return
                if best is None or f[1] < best[0]:
                    best = (f[1], j, f[2], f[3])
        if v['hit'] != (best is not None):
            raise Violation(pre + 'wrong-hit', '%s: hit %r, it is %r' % (what, v['hit'], best))
        if best is None:
            return
        t, j, q, tri = best
        if abs(v['t'] - t) > 1e-4 * max(1., t):
            raise Violation(pre + 'wrong-hit', '%s: hit at %r, it is %r' % (what, v['t'], t))
        owns = [n for n, l in enumerate(plan['lights']) if l['k'] == 'area' and l['shape'] == j]
        want = owns[0] if owns else None
        if v['light'] != want:
            raise Violation(pre + 'wrong-owner', '%s: shape %d belongs to light %r, not %r' % (what, j, want, v['light']))
        c = -S.normal(plan['shapes'][j], q, tri).dot(np.array(w)) / np.linalg.norm(w)
        if abs(c) < 1e-3:
            return
        L = plan['lights'][want]['L'] if want is not None and c > 0. else [0., 0., 0.]
        if not np.allclose(v['le'], L, atol=1e-9):
            raise Violation(pre + 'wrong-emission', '%s: emits %r, it is %r' % (what, v['le'], L))

    def judge_leave(self, plan, l, o, v, what, pre, cmp):
        u = o[2]
        m, c = self.frame(l)
        ro, rd, mint, maxt, time = v['ray']
        ro, rd, L = np.array(ro), np.array(rd), np.array(l['L'])
        cmp('ray', [np.linalg.norm(rd), time], [1., .25])
        if maxt != float('inf') or not 0. <= mint < 1e-2:
            raise Violation(pre + 'wrong-ray', '%s: the ray runs from %r to %r' % (what, mint, maxt))
        if l['k'] == 'area':
            s = plan['shapes'][l['shape']]
            q = S.to_local(s, ro)
            d, tri = S.off(s, q)
            if d > 1e-5:
                raise Violation(pre + 'off-light', '%s starts %.3g away from the light' % (what, d))
            n = np.array(v['n'])
            ok = any(np.allclose(n, S.normal(s, q, j), atol=1e-5) and S.off(dict(s, idx=s['idx'][j:j + 3]), q)[0] < 1e-5
                     for j in range(0, len(s['idx']), 3)) if s['k'] == 'tris' else \
                np.allclose(n, S.normal(s, q), atol=1e-5)
            if not ok or rd.dot(n) < -1e-9:
                raise Violation(pre + 'wrong-ray', '%s leaves along %r with normal %r' % (what, rd.tolist(), v['n']))
            cmp('density', v['pdf'], .5 / math.pi / S.area(s))
            if rd.dot(n) > 1e-9:
                cmp('radiance', v['L'], L)
            return
        cmp('ray', v['n'], rd, 1e-9)
        if l['k'] == 'distant':
            d = m.dot(np.array(l['di']))
            d = d / np.linalg.norm(d)
            lo, hi = [np.array(x) for x in v['bound']]
            rad = .5 * np.linalg.norm(hi - lo)
            x = ro - .5 * (lo + hi)
            cmp('ray', rd, -d)
            cmp('ray', x.dot(d), rad, 1e-6)
            if np.linalg.norm(x - x.dot(d) * d) > rad * (1. + 1e-6):
                raise Violation(pre + 'wrong-ray', '%s starts outside the disk over the scene' % what)
            cmp('density', v['pdf'], 1. / (math.pi * rad * rad), 1e-9)
            cmp('radiance', v['L'], L)
            return
        cmp('ray', ro, c)
        if l['k'] == 'point':
            cmp('density', v['pdf'], .25 / math.pi)
            cmp('radiance', v['L'], L)
            return
        cw = math.cos(math.radians(l['width']))
        if rd.dot(m[:, 2]) < cw - 1e-6:
            raise Violation(pre + 'wrong-ray', '%s leaves outside the cone' % what)
        cmp('density', v['pdf'], .5 / math.pi / (1. - cw))
        cmp('radiance', v['L'], L * self.falloff(l, rd), 1e-5)

    # ------------------------------------------------------------------ sweeps
    def sweep(self, plan, lights, scene, run):
        """Irradiance from stratified samples against quadrature over the light."""
        import pytracer.geometry as geo
        from pytracer.light.utility import LightSample
        i, p, nrm = plan['sweep']
        l, rng = plan['lights'][i], run.rng
        s = plan['shapes'][l['shape']]
        pt, nn = np.array(p), np.array(nrm)
        if np.linalg.norm(nn) < .1:
            return
        nn = nn / np.linalg.norm(nn)
        run.probe('sweeps')
        run.nontrivial = True
        n, vals = 20, []
        with np.errstate(all='ignore'):
            for a in range(n):
                for b in range(n):
                    ls = LightSample((a + rng.random()) / n, (b + rng.random()) / n, ((a * n + b) * .6180339887 + .3) % 1.)
                    L, wi, pdf, vis = lights[i].sample_l(geo.Point(*p), 1e-3, ls, 0.)
                    x = 0.
                    if pdf > 0. and float(L[0]) > 0.:
                        cos = float(wi.x) * nn[0] + float(wi.y) * nn[1] + float(wi.z) * nn[2]
                        if cos > 0. and vis.unoccluded(scene):
                            x = float(L[0]) * cos / float(pdf)
                    vals.append(x)
        q = []
        for res in (14, 22):
            P, N, W = S.grid(s, res)
            tot = 0.
            for x, m, wt in zip(P, N, W):
                d = x - pt
                dist = np.linalg.norm(d)
                if dist < .3:
                    return
                w = d / dist
                cs, cn = -m.dot(w), nn.dot(w)
                if cs <= 0. or cn <= 0.:
                    continue
                hit = False
                for j, sh in enumerate(plan['shapes']):
                    for t, _, _ in S.hits(sh, pt, w)[0]:
                        if 1e-3 < t < dist * (1. - 1e-5) and not (j == l['shape'] and abs(t - dist) < 1e-3):
                            hit = True
                if not hit:
                    tot += wt * cs * cn / dist ** 2
            q.append(tot * l['L'][0])
        mean, sd = float(np.mean(vals)), float(np.std(vals))
        tol = 5. * sd / n + 3. * abs(q[1] - q[0]) + .02 * max(q[1], mean) + 1e-3
        if abs(mean - q[1]) > tol:
            raise Violation('wrong-irradiance', 'light %r gives irradiance %r at %r facing %r, it is %r (tolerance %r)' % (
                l, mean, p, nrm, q[1], tol))


CHECK = C19
