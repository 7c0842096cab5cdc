"""Lights with an image shine what the image shows in each direction."""
import contextlib
import hashlib
import io
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simfs, shapelib as S
from .c11 import C11, Ref
from .c19 import C19

EDGE = [0., 1e-12, .5, .25, 1. - 2. ** -53]
NAMES = ['a.png', 'd1/a.png', 'b.png']


class C25(Check):
    id = 'C25'
    quick = 700
    thorough = 30000
    focus = ('light/light.py', 'texture/utility.py', 'utility/imageio.py', 'montecarlo/distribution.py')
    fault_kinds = ('eio', 'eacces', 'emfile', 'short', 'memory', 'interrupt', 'unreadable image', 'missing image',
                   'edge draws')
    real = ('projection, goniophotometric and environment lights', 'image reader', 'third-party image decoder',
            'image pyramid', 'sampling tables', 'visibility testers', 'scene', 'aggregates', 'shapes')
    stub = ('random draws (seeded, with edge values)', 'file system (simulated over a scratch directory)',
            'materials (none)', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-3 images, 1-4 lights that share them, a scene of 1-2 shapes and 1-4 tasks that make and ask '
            'lights with seeded and edge draws, with failing reads and statements, under one schedule; non-trivial: '
            'two tasks interleaved, a failure injected or a stratified sweep; distinct by schedule, lights and faults')
    assumptions = ('draws lie in [0, 1)',
                   'lights are placed by rotations, translations and reflections',
                   'directions within 1e-6 of the border of an image or of a cell of it, or .001 of a pole, are not '
                   'judged')
    mods = ('pytracer.light', 'pytracer.texture', 'pytracer.spectral', 'pytracer.scene', 'pytracer.aggregate',
            'pytracer.shape', 'pytracer.montecarlo')

    def setup(self):
        Check.setup(self)
        import PIL.Image
        self.PIL = PIL.Image
        PIL.Image.init()

    data = C11.data

    def image(self, spec):
        a, b = spec['size']
        r = np.random.RandomState(spec['px'])
        x = r.randint(0, 256, (a, b, spec['ch'])).astype(np.uint8)
        if spec['dark']:
            x[r.rand(a, b) < spec['dark']] = 0
        return x

    def gen(self, rng, tier):
        vec = lambda s: [round(rng.uniform(-s, s), 3) for _ in range(3)]
        files = {}
        for n in rng.sample(NAMES, rng.choice([1, 2, 3])):
            odd = rng.random() < .25
            files[n] = {'size': [rng.randrange(1, 8), rng.randrange(1, 6)] if odd else
                        [rng.choice([1, 2, 2, 4, 4, 8]), rng.choice([1, 2, 2, 4])], 'px': rng.randrange(1 << 30),
                        'ch': rng.choice([3, 3, 4]), 'dark': rng.choice([0., 0., .5, .9]),
                        'bad': rng.choice([None] * 6 + ['junk', 'cut'])}
        names = sorted(files) + (['no.png'] if rng.random() < .2 else [])
        lights = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            l = {'k': rng.choice(['proj', 'gonio', 'env', 'env']), 'L': [round(rng.uniform(.1, 4.), 3) for _ in range(3)],
                 'c': vec(2.), 'rot': [round(rng.uniform(-180, 180), 1) for _ in range(3)],
                 'mirror': rng.random() < .2, 'file': rng.choice(names)}
            if l['k'] == 'proj':
                l['fov'] = round(rng.uniform(20., 130.), 1)
            elif l['k'] == 'env':
                l['ns'] = rng.choice([1, 1, 4])
                if rng.random() < .2:
                    l['file'] = None
            if lights and rng.random() < .4:
                # one image, placed or scaled otherwise
                l = dict(lights[-1], **{rng.choice(['L', 'c', 'rot']): None})
                l['L'] = l['L'] or [round(rng.uniform(.1, 4.), 3) for _ in range(3)]
                l['c'] = l['c'] or vec(2.)
                l['rot'] = l['rot'] or [round(rng.uniform(-180, 180), 1) for _ in range(3)]
            lights.append(l)

        def draw():
            return rng.choice(EDGE) if rng.random() < .15 else rng.random()
        pts = [vec(4.) for _ in range(2)]
        dirs = [vec(1.) for _ in range(2)]

        def op():
            k = rng.choice(['sample', 'sample', 'sample', 'at', 'leave', 'leave', 'power'])
            i = rng.randrange(len(lights))
            p = list(rng.choice(pts))
            if lights[i]['k'] == 'proj' and rng.random() < .6:
                # somewhere in the beam
                m, c = C19.frame(lights[i])
                t = math.tan(math.radians(lights[i]['fov'] / 2.)) * 1.2
                z = rng.uniform(.3, 4.)
                x = np.array([rng.uniform(-t, t) * z, rng.uniform(-t, t) * z, z])
                p = [round(float(y), 4) for y in C25.place(lights[i], x) + c]
            return [k, i, [draw() for _ in range(5)], p, rng.choice([0., 1e-4, 1e-2]),
                    vec(1.) if rng.random() < .5 else rng.choice(dirs), rng.random() < .12]
        p = {'files': files, 'lights': lights, 'shapes': [S.gen(rng, uv=.2) for _ in range(rng.choice([1, 1, 2]))],
             'threads': [[op() for _ in range(rng.choice([2, 3, 5]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))],
             'spoil': rng.random() < .6, 'faults': [], 'sweep': None}
        if rng.random() < .3:
            for _ in range(rng.choice([1, 1, 2])):
                p['faults'].append([rng.randrange(12), rng.choice(['eio', 'eio', 'eacces', 'emfile', 'short'])])
        if rng.random() < .25:
            p['mem'] = {'p': rng.choice([.002, .01]), 'max': 1, 'kinds': rng.choice([['memory'], ['interrupt']])}
        if rng.random() < .15:
            envs = [i for i, l in enumerate(lights) if l['k'] == 'env']
            if envs:
                p['sweep'] = [rng.choice(envs), vec(1.)]
        return p

    @staticmethod
    def place(l, x):
        """A direction of the light's own frame in the world."""
        m, _ = S.matrix({'c': l['c'], 'rot': l['rot'], 'mirror': l['mirror']})
        return m.dot(x)

    @staticmethod
    def toward(s, t):
        return np.array([math.sin(t * math.pi) * math.cos(s * 2. * math.pi),
                         math.sin(t * math.pi) * math.sin(s * 2. * math.pi), math.cos(t * math.pi)])

    @staticmethod
    def local(l, w):
        m, _ = S.matrix({'c': l['c'], 'rot': l['rot'], 'mirror': l['mirror']})
        return np.linalg.solve(m, np.array(w, dtype=float))

    def execute(self, plan, run):
        with simfs.FS('%s:disk' % run.seed) as fs, contextlib.redirect_stdout(io.StringIO()):
            self.go(plan, run, fs)

    def go(self, plan, run, fs):
        import pytracer.geometry as geo
        import pytracer.light as lt
        from pytracer import Spectrum
        from pytracer.light.utility import LightSample
        from pytracer.scene import Scene
        from pytracer.aggregate import GeometricPrimitive, BVH
        tag = hashlib.sha256(run.seed.encode()).hexdigest()[:10]

        def real(n):
            d, b = n.split('/') if '/' in n else ('', n)
            return '/'.join(x for x in (d, tag + b) if x)
        for n, spec in sorted(plan['files'].items()):
            fs.put(real(n), self.data(spec))

        def make(l):
            t = S.transform({'c': l['c'], 'rot': l['rot'], 'mirror': l['mirror']})
            L = Spectrum(l['L'])
            f = None if l['file'] is None else fs.path(real(l['file']))
            if l['k'] == 'proj':
                return lt.ProjectionLight(t, L, f, l['fov'])
            if l['k'] == 'gonio':
                return lt.GonioPhotometricLight(t, L, f)
            return lt.InfiniteAreaLight(t, L, l['ns'], f)
        self.maps = {}
        with np.errstate(all='ignore'):
            lights = [make(l) for l in plan['lights']]
            shapes = [S.build(s) for s in plan['shapes']]
            prims = [GeometricPrimitive(sh, None, None) for sh in shapes]
            scene = Scene(BVH(prims, False), lights, None)
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt, MemoryError)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]

        def spectrum(s):
            v = [float(x) for x in s]
            if plan['spoil']:
                s *= 0.         # what a caller does to its result is its own affair
            return v

        def rayof(r):
            return [flt(r.o), flt(r.d), float(r.mint), float(r.maxt), float(r.time)]

        def box():
            b = scene.world_bound()
            return [flt(b.pMin), flt(b.pMax)]

        def one(o, mine=None):
            k, i, u, p, eps, w, new = o
            l = lights[i] if mine is None else mine
            if k == 'power':
                return {'L': spectrum(l.power(scene)), 'bound': box()}
            if k == 'at':
                return {'L': spectrum(l.le(geo.RayDifferential(geo.Point(*p), geo.Vector(*w), 0.))),
                        'pdf': float(l.pdf(geo.Point(*p), geo.normalize(geo.Vector(*w))))}
            if k == 'leave':
                r, n, pdf, L = l.sample_r(scene, LightSample(u[0], u[1], u[2]), u[3], u[4], .25)
                if r is None:
                    return {'none': [float(pdf), spectrum(L)]}
                out = {'ray': rayof(r), 'n': flt(n), 'pdf': float(pdf), 'L': spectrum(L), 'bound': box()}
                out['pdf2'] = float(l.pdf(geo.Point(*p), -r.d))
                return out
            L, wi, pdf, vis = l.sample_l(geo.Point(*p), eps, LightSample(u[0], u[1], u[2]), .25)
            r = rayof(vis.ray)
            return {'L': spectrum(L), 'wi': flt(wi), 'pdf': float(pdf), 'vis': r, 'free': bool(vis.unoccluded(scene)),
                    'pdf2': float(l.pdf(geo.Point(*p), wi)), 'delta': bool(l.is_delta_light()), 'ns': int(l.ns)}

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o, make(plan['lights'][o[1]]) if o[6] else None)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/light/' in x[0] or
                                x[0].endswith(('texture/utility.py', 'imageio.py', 'distribution.py'))],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        fs.arm(plan['faults'])
        fs.fired = []
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                             max_steps=3000000)
        fired = list(fs.fired)
        fs.clear()
        for f, i, k in fired:
            run.faults[f] += 1
            run.fault_keys.append('%s@%s' % (f, k))
        if s.outcome:
            raise Violation('no-progress', 'asking lights does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        total = len([f for f in fired if f[0] != 'short']) + len(s.fault_log)
        odd = 0
        for o, v in got:
            try:
                self.judge(plan, o, v, run)
            except Violation:
                # a light whose image could not be read shines evenly
                if not (o[6] and total and plan['lights'][o[1]]['file'] is not None):
                    raise
                self.judge(plan, o, v, run, even=True)
                odd += 1
        if len(errs) + odd > total:
            raise Violation('spurious-error', '%d calls failed or fell back, %d failures injected' % (
                len(errs) + odd, total))
        for ops in plan['threads']:
            for o in ops[:2]:
                with np.errstate(all='ignore'):
                    self.judge(plan, o, one(o), run, 'later-')
            with np.errstate(all='ignore'):
                o = ops[0]
                self.judge(plan, o, one(o, make(plan['lights'][o[1]])), run, 'anew-')
        for i, l in enumerate(plan['lights']):
            if l['k'] == 'env' and self.ref(plan, l, False) is not None:
                a, b = self.ref(plan, l, False).lev[0].shape[:2]
                for _ in range(10):
                    d = self.place(l, self.toward((run.rng.randrange(a) + run.rng.choice([.03, .97, .5])) / a,
                                                  (run.rng.randrange(b) + run.rng.choice([.03, .97, .5])) / b))
                    o = ['at', i, [0.] * 5, [0.] * 3, 0., [float(x) for x in d], False]
                    with np.errstate(all='ignore'):
                        self.judge(plan, o, one(o), run, 'later-')
        run.probe('calls', len(got))
        run.nontrivial = s.switches > len(plan['threads']) or total > 0
        if plan['sweep']:
            run.nontrivial = True
            self.sweep(plan, lights, scene, run)
        run.keys = [[[l['k'], l['file']] for l in plan['lights']], [[o[:2] for o in t] for t in plan['threads']]]

    # --------------------------------------------------------------- reference
    def ref(self, plan, l, even):
        """The map of a light, None for the constant one."""
        f = plan['files'].get(l['file'])
        if even or f is None or f['bad']:
            return None
        k = l['file']
        if k not in self.maps:
            self.maps[k] = Ref(self.image(f), {'mem': 'rgb', 'scale': 1., 'gamma': 1., 'wrap': 'REPEAT', 'tri': False,
                                                   'aniso': 8.})
            self.maps[k].aspect = f['size'][0] / float(f['size'][1])
        return self.maps[k]

    def shine(self, plan, l, w, even=False):
        """Map value along the world direction w (away from a projector, towards an environment); None: not judged."""
        r = self.ref(plan, l, even)
        d = self.local(l, w)
        d = d / np.linalg.norm(d)
        if l['k'] == 'proj':
            sx, sy = self.screen(r)
            if d[2] < 1e-3:
                return np.zeros(3) if d[2] < 0. else None
            c = 1. / math.tan(math.radians(l['fov']) / 2.)
            x, y = c * d[0] / d[2], c * d[1] / d[2]
            if min(abs(abs(x) - sx), abs(abs(y) - sy)) < 1e-6:
                return None
            if abs(x) > sx or abs(y) > sy:
                return np.zeros(3)
            s, t = (x + sx) / (2. * sx), (y + sy) / (2. * sy)
        else:
            if l['k'] == 'gonio':
                d = np.array([d[0], d[2], d[1]])
            if math.hypot(d[0], d[1]) < 1e-3:
                return None
            s = math.atan2(d[1], d[0]) / (2. * math.pi) % 1.
            t = math.acos(max(-1., min(1., d[2]))) / math.pi
        return np.ones(3) if r is None else r.bilinear(0, s, t)

    @staticmethod
    def screen(r):
        a = 1. if r is None else r.aspect
        return max(1., a), max(1., 1. / a)

    def cone(self, plan, l, even):
        sx, sy = self.screen(self.ref(plan, l, even))
        return math.cos(math.atan(math.tan(math.radians(l['fov']) / 2.) * math.hypot(sx, sy)))

    def mean(self, plan, l, even):
        r = self.ref(plan, l, even)
        return np.ones(3) if r is None else r.lev[0].reshape(-1, 3).mean(axis=0)

    def border(self, plan, l, w):
        """Whether an environment's direction lies at the border of a cell of its image."""
        r = self.ref(plan, l, False)
        d = self.local(l, w)
        d = d / np.linalg.norm(d)
        s = math.atan2(d[1], d[0]) / (2. * math.pi) % 1.
        t = math.acos(max(-1., min(1., d[2]))) / math.pi
        a, b = (1, 1) if r is None else r.lev[0].shape[:2]
        return math.hypot(d[0], d[1]) < 1e-3 or min(abs(s * a - round(s * a)), abs(t * b - round(t * b))) < 1e-6

    def judge(self, plan, o, v, run, pre='', even=False):
        k, i, u, p, eps, w, new = o
        l = plan['lights'][i]
        what = '%s of %s light %r (%r)' % (k, l['k'], l, o)
        L = np.array(l['L'])
        c = np.array(l['c'])
        flat = []

        def walk(x):
            if isinstance(x, dict):
                [walk(y) for y in x.values()]
            elif isinstance(x, (list, tuple)):
                [walk(y) for y in x]
            elif isinstance(x, float):
                flat.append(x)
        walk([v[x] for x in v if x != 'vis'])
        if not all(math.isfinite(x) for x in flat if x != float('inf')):
            raise Violation(pre + 'not-finite', '%s gives %r' % (what, v))

        def cmp(name, a, b, tol=1e-6):
            b = np.asarray(b, dtype=float)
            if not np.all(np.abs(np.asarray(a) - b) <= tol * max(1., np.abs(b).max())):
                raise Violation(pre + 'wrong-' + name, '%s: %s is %r, it is %r' % (what, name, a, b.tolist()))
        env = l['k'] == 'env'
        if k == 'power':
            m = self.mean(plan, l, even) * L
            if l['k'] == 'gonio':
                cmp('power', v['L'], 4. * math.pi * m)
            elif env:
                lo, hi = [np.array(x) for x in v['bound']]
                cmp('power', v['L'], math.pi * float(((hi - lo) ** 2).sum()) / 4. * m)
            else:
                cmp('power', v['L'], 2. * math.pi * (1. - self.cone(plan, l, even)) * m)
            return
        if k == 'at':
            if not env:
                cmp('background', v['L'], [0., 0., 0.])
                cmp('density', v['pdf'], 0.)
                return
            d = np.array(w) / np.linalg.norm(w)
            x = self.shine(plan, l, d, even)
            if x is None:
                return
            cmp('background', v['L'], L * x, 1e-5)
            if not self.border(plan, l, d) and v['pdf'] <= 0. < max(v['L']) and max(v['L']) > 1e-6:
                raise Violation(pre + 'never-drawn', '%s: shines %r from a direction of density %r' % (
                    what, v['L'], v['pdf']))
            return
        if k == 'leave':
            return self.judge_leave(plan, l, o, v, what, pre, cmp, even)
        pt = np.array(p)
        ro, rd, mint, maxt, time = v['vis']
        cmp('shadow-ray', ro, pt, 1e-9)
        cmp('shadow-ray', [mint, time], [eps, .25], 1e-12)
        if v['delta'] == env or v['ns'] != l.get('ns', 1):
            raise Violation(pre + 'wrong-kind', '%s: delta %r, %r samples' % (what, v['delta'], v['ns']))
        if env:
            if max(v['L']) == 0. and v['pdf'] == 0.:
                return
            cmp('shadow-ray', rd, v['wi'])
            cmp('shadow-ray', np.linalg.norm(rd), 1.)
            if maxt != float('inf'):
                raise Violation(pre + 'wrong-shadow-ray', '%s: the shadow ray ends at %r' % (what, maxt))
            x = self.shine(plan, l, v['wi'], even)
            if x is None:
                return
            cmp('radiance', v['L'], L * x, 1e-5)
            if not self.border(plan, l, v['wi']):
                cmp('density', v['pdf2'], v['pdf'], 1e-5)
            if not v['pdf'] > 0.:
                raise Violation(pre + 'wrong-density', '%s draws a direction of density %r' % (what, v['pdf']))
        else:
            d = c - pt
            dist = np.linalg.norm(d)
            if dist < .05:
                return
            cmp('direction', v['wi'], d / dist)
            cmp('density', [v['pdf'], v['pdf2']], [1., 0.])
            cmp('shadow-ray', np.array(rd) * maxt, d)
            cmp('shadow-ray', rd, d / dist)
            x = self.shine(plan, l, -d, even)
            if x is None:
                return
            cmp('radiance', v['L'], L * x / dist ** 2, 1e-5)
            if x.any():
                run.probe('lit')
        b = C19.blocked(plan, ro, rd, mint, maxt)
        if b is None:
            return
        run.probe('shadow_rays_judged')
        if v['free'] == b:
            raise Violation(pre + 'wrong-shadow', '%s: the segment %r is %s, it is %s' % (
                what, v['vis'], 'free' if v['free'] else 'blocked', 'blocked' if b else 'free'))

    def judge_leave(self, plan, l, o, v, what, pre, cmp, even):
        L, c = np.array(l['L']), np.array(l['c'])
        if 'none' in v:
            r = self.ref(plan, l, even)
            if v['none'][0] != 0. or any(v['none'][1]) or (r is None or r.lev[0].any()) and self.inner(o[2][:2]):
                raise Violation(pre + 'no-ray', '%s gives no ray and %r' % (what, v))
            return
        ro, rd, mint, maxt, time = v['ray']
        ro, rd = np.array(ro), np.array(rd)
        cmp('ray', [np.linalg.norm(rd), time], [1., .25])
        cmp('ray', v['n'], rd, 1e-9)
        if maxt != float('inf') or not 0. <= mint < 1e-2:
            raise Violation(pre + 'wrong-ray', '%s: the ray runs from %r to %r' % (what, mint, maxt))
        if l['k'] == 'env':
            lo, hi = [np.array(x) for x in v['bound']]
            rad = .5 * np.linalg.norm(hi - lo)
            x = ro - .5 * (lo + hi)
            cmp('ray', -x.dot(rd), rad, 1e-6)
            if np.linalg.norm(x - x.dot(rd) * rd) > rad * (1. + 1e-6):
                raise Violation(pre + 'wrong-ray', '%s starts outside the disk over the scene' % what)
            y = self.shine(plan, l, -rd, even)
            if y is None:
                return
            cmp('radiance', v['L'], L * y, 1e-5)
            if not self.border(plan, l, -rd):
                cmp('density', v['pdf'] * math.pi * rad * rad, v['pdf2'], 1e-5)
                if not v['pdf'] > 0.:
                    raise Violation(pre + 'wrong-density', '%s leaves with density %r' % (what, v['pdf']))
            return
        cmp('ray', ro, c)
        if l['k'] == 'gonio':
            cmp('density', v['pdf'], .25 / math.pi)
        else:
            cw = self.cone(plan, l, even)
            d = self.local(l, rd)
            if d[2] / np.linalg.norm(d) < cw - 1e-6:
                raise Violation(pre + 'wrong-ray', '%s leaves outside the cone' % what)
            cmp('density', v['pdf'], .5 / math.pi / (1. - cw))
        y = self.shine(plan, l, rd, even)
        if y is not None:
            cmp('radiance', v['L'], L * y, 1e-5)

    @staticmethod
    def inner(u):
        return all(1e-9 < x < 1. - 1e-9 for x in u)

    # ------------------------------------------------------------------ sweeps
    def sweep(self, plan, lights, scene, run):
        """Stratified draws against quadrature: irradiance, and where rays start on their disk."""
        import pytracer.geometry as geo
        from pytracer.light.utility import LightSample
        i, nrm = plan['sweep']
        l, rng = plan['lights'][i], run.rng
        if np.linalg.norm(nrm) < .1:
            return
        nn = np.array(nrm) / np.linalg.norm(nrm)
        run.probe('sweeps')
        n, vals = 16, []
        with np.errstate(all='ignore'):
            for a in range(n):
                for b in range(n):
                    L, wi, pdf, vis = lights[i].sample_l(geo.Point(0., 0., 0.), 1e-3, LightSample(
                        (a + rng.random()) / n, (b + rng.random()) / n, .5), 0.)
                    cos = float(wi.x) * nn[0] + float(wi.y) * nn[1] + float(wi.z) * nn[2]
                    vals.append(float(L[0]) * cos / float(pdf) if pdf > 0. and cos > 0. else 0.)
            x, r2 = np.zeros(3), 0.
            bb = scene.world_bound()
            lo, hi = np.array([bb.pMin.x, bb.pMin.y, bb.pMin.z], float), np.array([bb.pMax.x, bb.pMax.y, bb.pMax.z], float)
            rad, u = .5 * np.linalg.norm(hi - lo), [rng.random(), rng.random()]
            m = 10
            for a in range(m):
                for b in range(m):
                    r, _, pdf, _ = lights[i].sample_r(scene, LightSample(u[0], u[1], .5), (a + rng.random()) / m,
                                                      (b + rng.random()) / m, 0.)
                    if r is None:
                        break
                    d = np.array([r.d.x, r.d.y, r.d.z], float)
                    y = np.array([r.o.x, r.o.y, r.o.z], float) - .5 * (lo + hi)
                    y = (y - y.dot(d) * d) / rad
                    x += y / m ** 2
                    r2 += y.dot(y) / m ** 2
        if r is not None and (np.linalg.norm(x) > .06 or abs(r2 - .5) > .04):
            raise Violation('wrong-start', 'rays that leave environment %r start at mean offset %r of the disk, mean '
                            'square %r, independently of the draws for their direction' % (l, x.tolist(), r2))
        direct = self.direct(lights[i], nn, rng)
        q, ln = [], [float(x) for x in self.local(l, nn)]
        for res in (40, 64):
            tot = 0.
            cells = [[self.fast(plan, l, (a + .5) / (2 * res), (b + .5) / res) for b in range(res)]
                     for a in range(2 * res)]
            for a in range(2 * res):
                for b in range(res):
                    ph, th = (a + .5) * math.pi / res, (b + .5) * math.pi / res
                    cos = (ln[0] * math.cos(ph) + ln[1] * math.sin(ph)) * math.sin(th) + ln[2] * math.cos(th)
                    if cos > 0.:
                        tot += cos * math.sin(th) * (math.pi / res) ** 2 * cells[a][b]
            q.append(tot * l['L'][0])
        for name, vals in (('drawn directions', vals), ('the estimate of direct light', direct)):
            mean, sd = float(np.mean(vals)), float(np.std(vals))
            tol = 5. * sd / math.sqrt(len(vals)) + 3. * abs(q[1] - q[0]) + .02 * max(q[1], mean) + 1e-3
            if abs(mean - q[1]) > tol:
                raise Violation('wrong-irradiance', 'environment %r gives irradiance %r facing %r by %s, it is %r '
                                '(tolerance %r)' % (l, mean, nrm, name, q[1], tol))

    @staticmethod
    def direct(light, nn, rng):
        """Estimates of what a white matte surface reflects, times pi."""
        import pytracer.geometry as geo
        from pytracer import Spectrum
        from pytracer.aggregate import GeometricPrimitive, SimpleAggregate
        from pytracer.integrator.utility import estimate_direct
        from pytracer.light.utility import LightSample
        from pytracer.reflection import BSDF, BSDFSample, Lambertian
        from pytracer.reflection.bdf.bdf import BDFType
        from pytracer.renderer import SamplerRenderer
        from pytracer.scene import Scene
        ball = S.build({'k': 'sphere', 'c': [50., 60., 70.], 'r': .01, 'rot': None, 'mirror': False, 'ro': False,
                        'z0': -.01, 'z1': .01, 'pm': 360.})
        scene = Scene(SimpleAggregate([GeometricPrimitive(ball, None)], True), [light], None)
        n = geo.Normal(*[float(x) for x in nn])
        t = np.cross(nn, [.3, .5, .8])
        dg = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(*[float(x) for x in t]),
                                      geo.Vector(*[float(x) for x in np.cross(nn, t)]), geo.Normal(0., 0., 0.),
                                      geo.Normal(0., 0., 0.), 0., 0., None)
        dg.nn = n
        bsdf = BSDF(dg, n)
        bsdf.push_back(Lambertian(Spectrum(1.)))
        ren = SamplerRenderer(None, None, None, None)
        out, m = [], 10
        with np.errstate(all='ignore'):
            for a in range(m):
                for b in range(m):
                    ls = LightSample((a + rng.random()) / m, (b + rng.random()) / m, .5)
                    bs = BSDFSample((b + rng.random()) / m, (a + rng.random()) / m, rng.random())
                    out.append(math.pi * float(estimate_direct(
                        scene, ren, light, geo.Point(0., 0., 0.), n, geo.Vector(*[float(x) for x in nn]), 1e-3, 0., bsdf,
                        ls, bs, BDFType.ALL & ~BDFType.SPECULAR)[0]))
        return out

    def fast(self, plan, l, s, t):
        r = self.ref(plan, l, False)
        if r is None:
            return 1.
        g = r.lev[0]
        a, b = g.shape[:2]
        x, y = s * a - .5, t * b - .5
        i, j = int(math.floor(x)), int(math.floor(y))
        f, h = x - i, y - j
        return float((1 - f) * (1 - h) * g[i % a, j % b, 0] + f * (1 - h) * g[(i + 1) % a, j % b, 0] +
                     (1 - f) * h * g[i % a, (j + 1) % b, 0] + f * h * g[(i + 1) % a, (j + 1) % b, 0])


CHECK = C25
