"""Participating media: what a region holds, where a ray crosses it, how much
light gets through."""
import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simrand, vollib, camlib, tracelib as T

# reduced scattering and absorption per mm
MEASURED = {
    'Apple': [[2.29, 2.39, 1.97], [0.0030, 0.0034, 0.046]], 'Cream': [[7.38, 5.47, 3.15], [0.0002, 0.0028, 0.0163]],
    'Ketchup': [[0.18, 0.07, 0.03], [0.061, 0.97, 1.45]], 'Marble': [[2.19, 2.62, 3.00], [0.0021, 0.0041, 0.0071]],
    'Skin1': [[0.74, 0.88, 1.01], [0.032, 0.17, 0.48]], 'Spectralon': [[11.6, 20.4, 14.9], [0., 0., 0.]],
    'Wholemilk': [[2.55, 3.21, 3.77], [0.0011, 0.0024, 0.014]],
    'Espresso': [[0.4376, 0.5115, 0.6048], [0.1669, 0.2287, 0.3078]],
    'Grape Juice': [[0.55, 1.25, 1.53], [0.5428, 1.25, 1.53]], 'Coke': [[0.7143, 1.1688, 1.7169], [0.6966, 1.148, 1.7169]],
    'Head & Shoulders Shampoo': [[0.3674, 0.4527, 0.5211], [0.0883, 0.1637, 0.2125]]}
LUM = np.array([0.212671, 0.715160, 0.072169])
PH = ['isotrophic', 'rayleigh', 'mie_hazy', 'mie_murky', 'hg', 'hg', 'schlick']


class C26(Check):
    id = 'C26'
    quick = 900
    thorough = 40000
    focus = ('volume/', 'renderer/renderer.py', 'integrator/', 'light/utility.py', 'scene/')
    fault_kinds = ('memory', 'interrupt')
    real = ('volume regions', 'phase functions', 'measured media', 'scene', 'renderer', 'surface integrators',
            'shapes, materials, lights of rendered scenes')
    stub = ('volume integrator (harness: the repository has none)', 'threading primitives (simulated)', 'OS scheduler',
            'random source (seeded streams)')
    rule = ('a case is 1-4 regions, alone and aggregated, rays, points and directions that tasks ask them about, and '
            'sometimes a scene rendered through them, with failing statements, under one schedule; non-trivial: two '
            'tasks interleaved or a failure injected; distinct by schedule, regions and fault sites')
    assumptions = ('points on the faces of regions and rays along them are not judged',
                   'rendered scenes use a volume integrator of the harness, which attenuates by the optical thickness '
                   'of the region and adds its emission at the middle of the ray',
                   'radiance through media is judged to 4 per cent, for the offsets of secondary rays')
    mods = ('pytracer.volume', 'pytracer.volume.volume', 'pytracer.scene', 'pytracer.camera', 'pytracer.film',
            'pytracer.filter', 'pytracer.sampler', 'pytracer.light', 'pytracer.aggregate', 'pytracer.shape',
            'pytracer.material', 'pytracer.texture', 'pytracer.integrator', 'pytracer.integrator.surface',
            'pytracer.renderer')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        u = lambda a, b, n=3: round(rng.uniform(a, b), n)
        v = lambda s: [u(-s, s) for _ in range(3)]
        world = rng.random() < .3
        top = .4 if world else 1.5

        def place():
            return {'c': v(1.), 'rot': [u(-180, 180, 1) for _ in range(3)] if rng.random() < .6 else None,
                    'mirror': rng.random() < .15, 'sc': [u(.5, 2., 2) for _ in range(3)] if rng.random() < .4 else None}

        def grid():
            n = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
            return [[[u(.1, 1.) for _ in range(n[0])] for _ in range(n[1])] for _ in range(n[2])]

        def region():
            lo = [u(-2., -.2, 2) for _ in range(3)]
            r = {'k': rng.choice(['homog', 'homog', 'exp', 'exp', 'grid', 'grid', 'drift']), 'sa': T.col(rng, 0., top), 'ss': T.col(rng, 0., top),
                 'g': u(-.8, .8, 2), 'le': T.col(rng, 0., 2.), 'ext': [lo, [u(.2, 2., 2) for _ in range(3)]], 'w': place()}
            if r['k'] == 'exp':
                r.update(a=u(.3, 1.), b=u(0., 1.), up=rng.choice([[0., 1., 0.], [0., 0., 2.], v(1.)]))
                if np.linalg.norm(r['up']) < .1:
                    r['up'] = [0., 1., 0.]
            elif r['k'] == 'grid':
                r['D'] = grid()
            elif r['k'] == 'drift':
                r.update(a=u(.3, 1.), vel=v(1.))
            return r
        regions = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = region()
            if regions and rng.random() < .5:
                q = dict(rng.choice(regions))
                for k in rng.sample(['sa', 'ss', 'g', 'le', 'ext', 'w'] + {'exp': ['a', 'b', 'up'], 'grid': ['D', 'D'],
                                    'homog': [], 'drift': ['a']}[q['k']], rng.choice([1, 1, 2])):
                    q[k] = r[k] if k in r else grid() if k == 'D' else [0., 1., 1.] if k == 'up' else u(.3, 1.)
                r = q
            regions.append(r)
        refs = [vollib.Ref(r) for r in regions]

        def unit():
            while True:
                d = np.array(v(1.))
                n = np.linalg.norm(d)
                if n > .2:
                    return [float(x) for x in d / n]

        def point():
            if rng.random() < .8:
                r = rng.choice(refs)
                q = r.lo + (r.hi - r.lo) * [rng.uniform(-.15, 1.15) for _ in range(3)]
                return [round(float(x), 4) for x in r.m.dot(q) + r.c]
            return v(4.)

        def ray():
            o = point() if rng.random() < .4 else v(5.)
            d = np.array(unit())
            if rng.random() < .75:
                d = np.array(point()) - o
                d = d / (np.linalg.norm(d) + 1e-9)
            d = d * rng.choice([1., 1., .5, 2., 3.7])
            if rng.random() < .15:
                d[rng.randrange(3)] = 0.
            if np.linalg.norm(d) < .1:
                d = np.array([0., 0., 1.])
            r = {'o': o, 'd': [round(float(x), 4) for x in d], 't': u(0., 1.)}
            r['mint'] = rng.choice([0., 0., u(0., 3.)])
            r['maxt'] = rng.choice([None, None, round(r['mint'] + rng.uniform(.5, 5.), 3)])
            return r

        def pool(f, keys, n):
            out = []
            for _ in range(n):
                x = f()
                if keys and out and rng.random() < .5:
                    q = dict(rng.choice(out))
                    for k in rng.sample(keys, rng.choice([1, 1, 2])):
                        q[k] = x[k]
                    x = q
                out.append(x)
            return out
        rays = pool(ray, ['o', 'd', 't', 'mint', 'maxt'], 4)
        pts, dirs = pool(point, None, 4), pool(unit, None, 4)
        steps = [[u(.05, .5), rng.choice([.5, .5, u(0.01, .99)])] for _ in '12']
        nr = len(regions) + 1

        def op():
            i = rng.randrange(nr)
            k = rng.choice(['coef', 'coef', 'coef', 'p', 'p', 'seg', 'seg', 'tau', 'tau', 'tau', 'bound', 'phase', 'data'])
            if k == 'coef':
                return [k, i, rng.choice('aste'), rng.randrange(4), rng.randrange(4)]
            if k == 'p':
                return [k, i, rng.randrange(4), rng.randrange(4), rng.randrange(4)]
            if k == 'seg':
                return [k, i, rng.randrange(4)]
            if k == 'tau':
                return [k, i, rng.randrange(4), rng.randrange(2)]
            if k == 'bound':
                return [k, i]
            if k == 'phase':
                return [k, rng.choice(PH), rng.randrange(4), rng.randrange(4), rng.choice([0., u(-.8, .8, 2), u(-.8, .8, 2)])]
            return [k, rng.choice(sorted(MEASURED) + ['Nothing'])]
        p = {'regions': regions, 'rays': rays, 'pts': pts, 'dirs': dirs, 'steps': steps,
             'threads': [[op() for _ in range(rng.choice([2, 4, 6]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if world:
            self.world(rng, p)
        if rng.random() < .25:
            p['mem'] = {'p': rng.choice([.003, .01]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt']])}
        return p

    @staticmethod
    def world(rng, p):
        integ = rng.choice(['whitted', 'whitted', 'all', 'one', 'path', 'path'])
        if integ == 'path':
            sc = T.gen_scene(rng, n=rng.choice([2, 3]), mats=('mirror',), emit=.5, sky=.8, lights=(0,))
        elif integ == 'one':
            sc = T.gen_scene(rng, n=rng.choice([1, 2]), mats=('matte', 'oren', 'mirror'))
        else:
            sc = T.gen_scene(rng, n=rng.choice([1, 2]))
        views = []
        for _ in range(3):
            cam, motion = T.gen_view(rng, sc)
            for _ in range(4):
                o, d = camlib.ray(cam, motion, [8, 8], [rng.uniform(1, 7), rng.uniform(1, 7), .5, .5, 0.])
                try:
                    if T.nearest(sc, o, d, False) is None and rng.random() < .8:
                        continue
                except T.Doubt:
                    continue
                views.append([[float(x) for x in o], [float(x) for x in d], round(rng.random(), 3)])
                break
        if not views:
            return
        vr = rng.randrange(len(p['regions']) + 1)
        p['world'] = {'scene': sc, 'views': views, 'integ': integ, 'depth': rng.choice([1, 2, 3]), 'vr': vr,
                      'seed': rng.getrandbits(32), 'glow': integ != 'path' and rng.random() < .5,
                      'noisy': rng.random() < .5}
        for t in p['threads']:
            del t[4:]
            t.insert(rng.randrange(len(t) + 1), ['li', rng.randrange(len(views))])
            if rng.random() < .4:
                t.insert(0, ['through'] + rng.sample(range(4), 2) + [rng.random() < .5])
            if rng.random() < .2:
                t.insert(0, ['plain', rng.randrange(len(views))])

    # --------------------------------------------------------------- execution
    @staticmethod
    def build(plan):
        from pytracer.volume.volume import AggregateVolume
        ext = {}
        out = [vollib.region(r, ext) for r in plan['regions']]
        return out + [AggregateVolume(list(out))]

    @staticmethod
    def integrators(w):
        from pytracer.integrator.surface import DirectLightingIntegrator, LightStrategy, PathIntegrator
        from pytracer.integrator.surface.whitted import WhittedIntegrator

        k, d = w['integ'], w['depth']
        return WhittedIntegrator(d) if k == 'whitted' else PathIntegrator(d) if k == 'path' else \
            DirectLightingIntegrator(LightStrategy.SAMPLE_ALL_UNIFORM if k == 'all' else
                                     LightStrategy.SAMPLE_ONE_UNIFORM, d), vollib.medium(w)

    def execute(self, plan, run):
        with np.errstate(all='ignore'):
            self.go(plan, run)

    def go(self, plan, run):
        import pytracer.geometry as geo
        import pytracer.volume.utility as vu
        from pytracer.aggregate import Intersection
        from pytracer.light.utility import VisibilityTester
        from pytracer.renderer import SamplerRenderer
        from pytracer.sampler import Sample, StratifiedSampler
        from pytracer.scene import Scene
        regs = self.build(plan)
        refs = [vollib.Ref(r) for r in plan['regions']]
        flt = lambda a: [float(x) for x in a]
        box = lambda b: [flt(b.pMin), flt(b.pMax)]
        P, V = (lambda i: geo.Point(*plan['pts'][i])), (lambda i: geo.Vector(*plan['dirs'][i]))

        def R(i):
            r = plan['rays'][i]
            return geo.Ray(geo.Point(*r['o']), geo.Vector(*r['d']), r['mint'],
                           np.inf if r['maxt'] is None else r['maxt'], 0, r['t'])
        w = plan.get('world')
        if w:
            scene, _ = T.build(w['scene'])
            before = box(scene.aggregate.world_bound())
            scene = Scene(scene.aggregate, scene.lights, regs[w['vr']])
            if box(scene.aggregate.world_bound()) != before:
                raise Violation('bound-changed', 'a scene with media changed the box of its objects from %r to %r' % (
                    before, box(scene.aggregate.world_bound())))
            want = self.bounds([refs[w['vr']]] if w['vr'] < len(refs) else refs)
            want = [np.minimum(want[0], before[0]), np.maximum(want[1], before[1])]
            got = box(scene.world_bound())
            if np.abs(np.subtract(got, want)).max() > 1e-5:
                raise Violation('wrong-bound', 'the scene is in the box %r, its objects and media fill %r' % (
                    got, [flt(x) for x in want]))
            si, vi = self.integrators(w)
            ren = SamplerRenderer(None, None, si, vi)
            bare = SamplerRenderer(None, None, si, None)
            first = Sample(StratifiedSampler(0, 1, 0, 1, 1, 1, True, 0., 1.), si, vi, scene)

        def one(o):
            k = o[0]
            if k == 'coef':
                f = {'a': 'sigma_a', 's': 'sigma_s', 't': 'sigma_t', 'e': 'lve'}[o[2]]
                return flt(getattr(regs[o[1]], f)(P(o[3]), V(o[4]), .5))
            if k == 'p':
                return float(regs[o[1]].p(P(o[2]), V(o[3]), V(o[4]), .5))
            if k == 'seg':
                a, b, c = regs[o[1]].intersect_p(R(o[2]))
                return [bool(a), float(b), float(c)]
            if k == 'tau':
                return flt(regs[o[1]].tau(R(o[2]), *plan['steps'][o[3]]))
            if k == 'bound':
                return box(regs[o[1]].world_bound())
            if k == 'phase':
                f = getattr(vu, 'phase_' + o[1])
                return float(f(V(o[2]), V(o[3]), o[4]) if o[1] in ('hg', 'schlick') else f(V(o[2]), V(o[3])))
            if k == 'data':
                return [None if x is None else flt(x) for x in vu.get_volume_scattering(o[1])]
            if k == 'through' and o[3]:
                a, b = P(o[1]), P(o[2])
                d = geo.Vector.from_arr(b - a)
                return flt(ren.transmittance(scene, geo.RayDifferential(a, d, 0., 1., 0, .5), None))
            if k == 'through':
                vis = VisibilityTester()
                vis.set_segment(P(o[1]), 1e-6, P(o[2]), 1e-6, .5)
                return flt(vis.transmittance(scene, ren, None, np.random.rand))
            t = sim.S.cur
            st = simrand.Stream('%s:%s' % (w['seed'], o[1]))
            if t is not None:
                old, t.rng = t.rng, st
            else:
                old, simrand.State.glob = simrand.State.glob, st
                sim.S.out = 0
            try:
                sampler = StratifiedSampler(0, 1, 0, 1, 1, 1, True, 0., 1.)
                smp = first.duplicate(1)
                sampler.generate(smp)
                x = w['views'][o[1]]
                smp[0].time = x[2]
                ray = geo.RayDifferential(geo.Point(*x[0]), geo.Vector(*x[1]), 0., np.inf, 0, x[2])
                a, b = (bare if k == 'plain' else ren).li(scene, ray, smp[0], Intersection())
                return flt(a), flt(b)
            finally:
                if t is not None:
                    t.rng = old
                else:
                    simrand.State.glob = old
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/volume/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                         max_steps=4000000)
        if s.outcome:
            raise Violation('no-progress', 'a region does not answer: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > len(s.fault_log):
            raise Violation('spurious-error', '%d calls failed, %d failures injected' % (len(errs), len(s.fault_log)))
        n = sum(self.judge(plan, refs, o, v, run) for o, v in got)
        for o in [o for o, _ in errs] + [t[0] for t in plan['threads']]:
            self.judge(plan, refs, o, one(o), run, 'later-')
        # every coefficient everywhere, the set first: nothing asked may change what is answered next
        for i in 2 * list(range(len(refs), -1, -1)):
            for c in 'aste':
                for p in range(4):
                    sim.S.out = 0
                    o = ['coef', i, c, p, p]
                    self.judge(plan, refs, o, one(o), run, 'later-')
        run.probe('judged', n)
        run.nontrivial = s.switches > len(plan['threads']) or bool(s.fault_log)
        run.keys = [[r['k'] for r in plan['regions']], plan['threads']]

    # ------------------------------------------------------------------ oracle
    @staticmethod
    def bounds(refs):
        q = []
        for r in refs:
            for k in range(8):
                x = np.where([k & 1, k & 2, k & 4], r.lo, r.hi)
                for v in (0., r.r.get('vel', 0.)):
                    q.append(r.m.dot(x + np.array(v)) + r.c)
        return [np.min(q, axis=0), np.max(q, axis=0)]

    def judge(self, plan, refs, o, v, run, pre=''):
        try:
            self.check(plan, refs, o, v, run, pre)
        except (vollib.Doubt, T.Doubt):
            return 0
        run.probe(o[0])
        return 1

    def check(self, plan, refs, o, v, run, pre):
        k = o[0]
        some = lambda i: [refs[i]] if i < len(refs) else refs
        name = lambda i: 'region %r' % plan['regions'][i] if i < len(refs) else 'all of %r' % plan['regions']

        def close(a, b, what, tol=1e-6):
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            if not np.all(np.abs(a - b) <= tol * (1. + np.abs(b))):
                raise Violation(pre + 'wrong-' + k, '%s is %r, not %r' % (what, a.tolist(), b.tolist()))
        ray = lambda i: [np.array(plan['rays'][i]['o']), np.array(plan['rays'][i]['d']), plan['rays'][i]['mint'],
                         np.inf if plan['rays'][i]['maxt'] is None else plan['rays'][i]['maxt'], plan['rays'][i]['t']]
        if k == 'coef':
            x = np.array(plan['pts'][o[3]])
            close(v, sum(r.density(x) * r.sig(o[2]) for r in some(o[1])), '%s of %s at %r' % (
                {'a': 'absorption', 's': 'scattering', 't': 'attenuation', 'e': 'emission'}[o[2]], name(o[1]), x.tolist()))
        elif k == 'p':
            x = np.array(plan['pts'][o[2]])
            c = np.dot(plan['dirs'][o[3]], plan['dirs'][o[4]])
            val = lambda r: vollib.hg(c, r.r['g']) if r.r['k'] != 'homog' or r.density(x) else 0.
            if o[1] < len(refs):
                want = val(refs[o[1]])
            else:
                wt = [r.density(x) * LUM.dot(r.sig('s')) for r in refs]
                want = sum(a * val(r) for a, r in zip(wt, refs)) / sum(wt) if sum(wt) > 0. else 0.
            close(v, want, 'phase function of %s at %r for cosine %r' % (name(o[1]), x.tolist(), float(c)))
        elif k == 'seg':
            s = [r.span(*ray(o[2])) for r in some(o[1])]
            s = [x for x in s if x]
            what = 'ray %r through %s' % (plan['rays'][o[2]], name(o[1]))
            if v[0] != bool(s):
                raise Violation(pre + 'wrong-seg', '%s: met is %r, not %r' % (what, v[0], bool(s)))
            if s:
                close(v[1:], [min(x[0] for x in s), max(x[1] for x in s)], what)
        elif k == 'tau':
            close(v, sum(r.tau(*(ray(o[2]) + plan['steps'][o[3]])) for r in some(o[1])),
                  'optical thickness of %s along %r by %r' % (name(o[1]), plan['rays'][o[2]], plan['steps'][o[3]]), 1e-5)
        elif k == 'bound':
            close(v, self.bounds(some(o[1])), 'box of %s' % name(o[1]))
        elif k == 'phase':
            c = float(np.dot(plan['dirs'][o[2]], plan['dirs'][o[3]]))
            close(v, vollib.phase(o[1], c, o[4]), '%s phase function for cosine %r, asymmetry %r' % (o[1], c, o[4]))
        elif k == 'data':
            m = MEASURED.get(o[1])
            if m is None:
                if v != [None, None]:
                    raise Violation(pre + 'wrong-data', 'coefficients of %r are %r' % (o[1], v))
            else:
                close(v, m[::-1], 'absorption and scattering of %s' % o[1], 1e-5)
        elif k == 'through':
            w = plan['world']
            a, b = np.array(plan['pts'][o[1]]), np.array(plan['pts'][o[2]])
            d = np.linalg.norm(a - b)
            if d < .01:
                return
            close(v, vollib.clear(some(w['vr']), a, (b - a) / d, 0., d, .5)[0], 'light from %r to %r through %s' % (
                a.tolist(), b.tolist(), name(w['vr'])), .03)
        else:
            w = plan['world']
            x = w['views'][o[1]]
            med = some(w['vr']) if k == 'li' else []
            cand, slack, trans = self.radiance(w, med, np.array(x[0]), np.array(x[1]), x[2])
            close(v[1], trans, 'transmittance along %r' % x, .03)
            L = np.array(v[0])
            run.probe('li_lit', int(any(c.any() for c in cand)))
            for c in cand:
                if np.all(np.abs(L - c) <= .04 * np.abs(c).max() + 1e-6 + 1.01 * slack):
                    return
            raise Violation(pre + 'wrong-radiance', 'ray %r by %s in %r gets %r, through %s it is %s' % (
                x, w['integ'], w['scene'], L.tolist(), name(w['vr']), ' or '.join(repr(c.tolist()) for c in cand[:4])))

    def radiance(self, w, med, o, d, now):
        sc = w['scene']

        def along(o, d, t):
            tr, mid = vollib.clear(med, o, d, 0., t, now)
            e = np.zeros(3)
            if w['glow'] and mid:
                x = o + d * .5 * sum(mid)
                e = sum((r.density(x, .05) * r.sig('e') for r in med), np.zeros(3)) * (mid[1] - mid[0])
            return tr, e

        def far(o, d, secondary):
            g = T.nearest(sc, o, d, secondary)
            return np.inf if g is None else g[0]
        depth = w['depth'] + 1 if w['integ'] == 'path' else w['depth']
        media = {'along': lambda o, d, secondary: along(o, d, far(o, d, secondary)),
                 'shadow': lambda o, d, t: vollib.clear(med, o, d, 0., t, now)[0]}
        cand, slack = T.radiance(sc, o, d, 0, depth, w['integ'] in ('one', 'path'), True, media=media)
        return cand, slack, along(o, d, far(o, d, False))[0]


CHECK = C26
