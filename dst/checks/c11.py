"""Image textures: one image, one texture, whatever else was loaded, in whatever order."""
import contextlib
import hashlib
import io
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simfs, state

NAMES = ['a.png', 'b.png', 'd1/a.png', 'd2/a.png', 'c.png']
Y = np.array([0.212671, 0.715160, 0.072169])
WRAPS = ['REPEAT', 'BLACK', 'CLAMP']


def lanczos(x):
    x = abs(x)
    if x > 1.:
        return 0.
    sinc = lambda y: 1. if y < 1e-5 else math.sin(math.pi * y) / (math.pi * y)
    return sinc(2. * x) * sinc(x)


class Ref(object):
    """The pyramid an image and the texture's parameters define."""

    def __init__(self, img, p):
        a = img[:, :, :3].astype(float)
        if p['mem'] == 'rgb':
            v = (p['scale'] * a) ** p['gamma']
        else:
            v = ((p['scale'] * a.dot(Y)) ** p['gamma'])[:, :, None]
        self.wrap = p['wrap']
        self.tri = p['tri']
        self.aniso = p['aniso']
        for axis in (0, 1):
            v = self.resample(v, axis)
        self.lev = [np.maximum(v, 0.) if p['mem'] == 'rgb' else v]
        while max(self.lev[-1].shape[:2]) > 1:
            q = self.lev[-1]
            u, w = max(1, q.shape[0] // 2), max(1, q.shape[1] // 2)
            n = np.zeros((u, w, q.shape[2]))
            for i in range(u):
                for j in range(w):
                    n[i, j] = sum(self.tex(q, 2 * i + di, 2 * j + dj) for di in (0, 1) for dj in (0, 1)) / 4.
            self.lev.append(n)

    def resample(self, v, axis):
        """Sides grow to powers of two by a Lanczos filter over four texels."""
        n = v.shape[axis]
        m = 1 << (n - 1).bit_length()
        if m == n:
            return v
        v = np.moveaxis(v, axis, 0) if hasattr(np, 'moveaxis') else np.rollaxis(v, axis)
        out = np.zeros((m,) + v.shape[1:])
        for i in range(m):
            c = (i + .5) * n / m
            f = int(math.floor(c - 1.5))
            w = [lanczos((f + j + .5 - c) / 2.) for j in range(4)]
            for j in range(4):
                k = f + j
                k = k % n if self.wrap == 'REPEAT' else min(max(k, 0), n - 1) if self.wrap == 'CLAMP' else k
                if 0 <= k < n:
                    out[i] += w[j] / sum(w) * v[k]
        return np.moveaxis(out, 0, axis) if hasattr(np, 'moveaxis') else np.rollaxis(out, 0, axis + 1)

    def ellipse(self, k, s, t, a, b):
        """Gaussian mean over the ellipse with axes a, b on level k: (value, what a table of weights may change)"""
        if k >= len(self.lev):
            return self.lev[-1][0, 0], 0.
        l = self.lev[k]
        u, v = l.shape[:2]
        x, y = s * u - .5, t * v - .5
        a, b = (a[0] * u, a[1] * v), (b[0] * u, b[1] * v)
        A = a[1] ** 2 + b[1] ** 2 + 1.
        B = -2. * (a[0] * a[1] + b[0] * b[1])
        C = a[0] ** 2 + b[0] ** 2 + 1.
        F = A * C - B * B / 4.
        rx, ry = math.sqrt(C) + .01, math.sqrt(A) + .01
        ws, ds, vs = [], [], []
        g = lambda r: max(0., math.exp(-2. * r) - math.exp(-2.))
        for i in range(int(math.ceil(x - rx)), int(math.floor(x + rx)) + 1):
            for j in range(int(math.ceil(y - ry)), int(math.floor(y + ry)) + 1):
                p, q = i - x, j - y
                r = (A * p * p + B * p * q + C * q * q) / F
                if r < 1.02:
                    ws.append(g(r))
                    ds.append(g(max(0., r - .02)) - g(r + .02))
                    vs.append(self.tex(l, i, j))
        ws, ds, vs = np.array(ws)[:, None], np.array(ds)[:, None], np.array(vs)
        m = (ws * vs).sum(axis=0) / ws.sum()
        return m, (ds * np.abs(vs - m)).sum(axis=0) / max(1e-3, ws.sum() - ds.sum())

    def tex(self, l, i, j):
        u, w = l.shape[:2]
        if self.wrap == 'REPEAT':
            i, j = i % u, j % w
        elif self.wrap == 'CLAMP':
            i, j = min(max(i, 0), u - 1), min(max(j, 0), w - 1)
        elif not (0 <= i < u and 0 <= j < w):
            return np.zeros(l.shape[2])
        return l[i, j]

    def bilinear(self, k, s, t):
        l = self.lev[k]
        x, y = s * l.shape[0] - .5, t * l.shape[1] - .5
        i, j = int(math.floor(x)), int(math.floor(y))
        a, b = x - i, y - j
        return ((1 - a) * (1 - b) * self.tex(l, i, j) + a * (1 - b) * self.tex(l, i + 1, j) +
                (1 - a) * b * self.tex(l, i, j + 1) + a * b * self.tex(l, i + 1, j + 1))

    def value(self, s, t, d):
        """(lowest, highest) admissible value"""
        if not any(d):
            v = self.bilinear(0, s, t)
            return v, v
        if self.tri:
            w = 2. * max(abs(x) for x in d)
            k = len(self.lev) - 1 + math.log(w, 2)
            if k <= 0:
                v = self.bilinear(0, s, t)
            elif k >= len(self.lev) - 1:
                v = self.lev[-1][0, 0]
            else:
                f = int(math.floor(k))
                v = (1 - (k - f)) * self.bilinear(f, s, t) + (k - f) * self.bilinear(f + 1, s, t)
            return v, v
        a, b = tuple(d[:2]), tuple(d[2:])
        if a[0] ** 2 + a[1] ** 2 < b[0] ** 2 + b[1] ** 2:
            a, b = b, a
        la, lb = math.hypot(*a), math.hypot(*b)
        if lb == 0.:
            v = self.bilinear(0, s, t)
            return v, v
        if lb * self.aniso < la:
            f = la / (lb * self.aniso)
            b, lb = (b[0] * f, b[1] * f), lb * f
        k = max(0., len(self.lev) - 1 + math.log(lb, 2))
        i = int(math.floor(k))
        v, e = self.ellipse(i, s, t, a, b)
        w, f = self.ellipse(i + 1, s, t, a, b)
        v, e = (1 - (k - i)) * v + (k - i) * w, (1 - (k - i)) * e + (k - i) * f
        return v - e, v + e


class C11(Check):
    id = 'C11'
    quick = 900
    thorough = 40000
    focus = ('texture/texture/', 'texture/utility.py', 'utility/imageio.py')
    fault_kinds = ('eio', 'eacces', 'emfile', 'short', 'memory', 'interrupt', 'unreadable image', 'missing image')
    real = ('image texture (cache, conversion)', 'image pyramid and look-up', 'uv mapping', 'image reader',
            'third-party image decoder')
    stub = ('file system (simulated over a scratch directory)', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 2-4 images (equal names in different directories, unreadable and missing ones), 1-4 tasks that '
            'create 1-3 textures with drawn parameters and evaluate them, faults in opening, reading or building, and '
            'one schedule; non-trivial: two tasks interleaved or one image used under two parameter sets; distinct by '
            'schedule, textures created and fault sites')
    assumptions = ('readable images do not change while the process runs', 'footprints under the black border mode are points',
                   'an elliptic footprint is only required to give a weighted mean of the texels')
    mods = ('pytracer.texture', 'pytracer.spectral')

    def setup(self):
        Check.setup(self)
        import PIL.Image
        self.PIL = PIL.Image
        PIL.Image.init()

    def gen(self, rng, tier):
        files = {}
        for n in rng.sample(NAMES, rng.choice([2, 3, 4])):
            a, b = rng.choice([1, 2, 4, 8]), rng.choice([1, 2, 4, 8])
            if rng.random() < .3:
                a, b = rng.randrange(1, 9), rng.randrange(1, 9)
            files[n] = {'size': [a, b], 'px': rng.randrange(1 << 30), 'ch': rng.choice([3, 3, 4]),
                        'bad': rng.choice([None] * 5 + ['junk', 'cut'])}
        names = sorted(files) + (['no.png'] if rng.random() < .3 else [])
        hot = {'file': rng.choice(names), 'mem': 'rgb', 'tri': False, 'aniso': 8., 'wrap': 'REPEAT', 'scale': 1.,
               'gamma': 1.}

        def params():
            if rng.random() < .6:
                # close relatives share most of their parameters
                p = dict(hot)
                for _ in range(rng.choice([0, 1, 1])):
                    p.update(one())
                return p
            p = {}
            for k in ('file', 'mem', 'tri', 'aniso', 'wrap', 'scale', 'gamma'):
                p.update(one(k))
            return p

        def one(k=None):
            k = k or rng.choice(['file', 'mem', 'tri', 'aniso', 'wrap', 'scale', 'gamma'])
            return {k: {'file': lambda: rng.choice(names), 'mem': lambda: rng.choice(['rgb', 'float']),
                        'tri': lambda: rng.random() < .5, 'aniso': lambda: rng.choice([8., 2., 1.]),
                        'wrap': lambda: rng.choice(WRAPS), 'scale': lambda: rng.choice([1., .5, 1 / 255.]),
                        'gamma': lambda: rng.choice([1., .5, 2.2])}[k]()}

        pool = []

        def point(p):
            if pool and rng.random() < .5:
                q = rng.choice(pool)
                return q if p['wrap'] != 'BLACK' else q[:2] + [[0.] * 4]
            pool.append(fresh(p))
            return pool[-1]

        def fresh(p):
            d = [0.] * 4
            if p['wrap'] != 'BLACK' and rng.random() < .5:
                d = [rng.choice([0., 1., -1.]) * rng.choice([.01, .06, .2, .6]) * rng.random() for _ in range(4)]
            return [rng.uniform(-1.5, 2.5), rng.uniform(-1.5, 2.5), d]

        def op():
            p = params()
            return [p, [rng.choice([1., 1., 2., .5]), rng.choice([1., 1., 2.]), rng.choice([0., 0., .25]),
                        rng.choice([0., .5])], [point(p) for _ in range(rng.choice([1, 2, 3]))]]
        p = {'files': files, 'threads': [[op() for _ in range(rng.choice([1, 2, 3]))]
                                         for _ in range(rng.choice([1, 2, 2, 3, 4]))], 'faults': []}
        if rng.random() < .45:
            for _ in range(rng.choice([1, 1, 2])):
                p['faults'].append([rng.randrange(12), rng.choice(['eio', 'eio', 'eacces', 'emfile', 'short'])])
        if rng.random() < .3:
            p['mem'] = {'p': rng.choice([.002, .01, .05]), 'max': 1,
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt'], ['interrupt']])}
        return p

    def image(self, spec):
        a, b = spec['size']
        return np.random.RandomState(spec['px']).randint(0, 256, (a, b, spec['ch'])).astype(np.uint8)

    def data(self, spec):
        if spec['bad'] == 'junk':
            return b'not an image at all, but some text\n' * 4
        f = io.BytesIO()
        self.PIL.fromarray(self.image(spec)).save(f, 'PNG')
        return f.getvalue()[:41] if spec['bad'] == 'cut' else f.getvalue()

    def execute(self, plan, run):
        with simfs.FS('%s:disk' % run.seed) as fs, contextlib.redirect_stdout(io.StringIO()):
            self.go(plan, run, fs)

    def go(self, plan, run, fs):
        import pytracer
        import pytracer.geometry as geo
        from pytracer.spectral import RGBSpectrum, Spectrum
        from pytracer.texture.texture.image import ImageTexture
        from pytracer.texture.texturemap import UVMapping2D
        from pytracer.texture.utility import ImageWrap
        tag = hashlib.sha256(run.seed.encode()).hexdigest()[:10]

        def real(n):
            d, b = n.split('/') if '/' in n else ('', n)
            return '/'.join(x for x in (d, tag + b) if x)
        files = dict(plan['files'])
        for n, spec in sorted(files.items()):
            fs.put(real(n), self.data(spec))
        refs = {}

        def ref(p):
            k = repr(sorted(p.items()))
            if k not in refs:
                sp = files.get(p['file'])
                refs[k] = None if sp is None or sp['bad'] else Ref(self.image(sp), p)
            return refs[k]
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        got, errs = [], {}

        def make(p, m):
            return ImageTexture(*([Spectrum, RGBSpectrum] if p['mem'] == 'rgb' else [float, pytracer.FLOAT]),
                                UVMapping2D(*m), fs.path(real(p['file'])), p['tri'], p['aniso'],
                                ImageWrap[p['wrap']], p['scale'], p['gamma'])

        def look(t, q):
            g = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
                                         geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), q[0], q[1], None)
            g.dudx, g.dvdx, g.dudy, g.dvdy = q[2]
            v = t(g)
            out = np.array(v, dtype=float, copy=True).reshape(-1)
            if isinstance(v, np.ndarray) and v.ndim:
                v *= 0.     # the value belongs to the caller
            return out

        def task(i, ops):
            def f():
                mine = []
                for j, (p, m, pts) in enumerate(ops):
                    try:
                        mine.append((j, make(p, m)))
                        for jj, t in mine[-2:]:
                            for q in ops[jj][2]:
                                got.append(((i, jj), ops[jj][0], ops[jj][1], q, look(t, q)))
                    except inj as e:
                        errs[(i, j)] = e
                    except OSError as e:
                        errs[(i, j)] = e
                    except MemoryError as e:
                        errs[(i, j)] = e
            return f
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/texture/' in x[0] or
                                x[0].endswith('imageio.py')],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        fs.arm(plan['faults'])
        fs.fired = []
        s = run.simulate([('task%d' % i, task(i, ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                         max_steps=4000000)
        fired = list(fs.fired)
        fs.clear()
        for f, i, k in fired:
            run.faults[f] += 1
            run.fault_keys.append('%s@%s' % (f, k))
        if s.outcome:
            raise Violation('no-progress', 'loading does not finish: %s %r' % (s.outcome, s.deadlock_info))
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        total = len([f for f in fired if f[0] != 'short']) + len(s.fault_log)
        odd = set(k for k, e in errs.items())
        for key, p, m, q, v in got:
            if ref(p) is None:
                run.faults['unreadable-or-missing-image'] += 1
                self.fallback(p, v, '')
            elif not self.ok(ref(p), m, q, v):
                if total and self.is_fallback(p, v):
                    odd.add(key)
                    continue
                self.bad(p, m, q, v, ref(p), '')
        if len(odd) > total:
            raise Violation('spurious-failure', '%d textures could not be made or fell back to the constant, %d '
                            'failures were injected' % (len(odd), total))
        ints = len([e for e in errs.values() if isinstance(e, sim.InjectedInterrupt)])
        want = len([f for f in s.fault_log if 'interrupt' in repr(f)])
        if ints != want:
            raise Violation('interrupt-swallowed', '%d interruptions were delivered, %d reached the caller' % (
                want, ints))
        names = [o[0]['file'] for ops in plan['threads'] for o in ops]
        if s.switches > len(plan['threads']) or len(set(names)) < len(names):
            run.nontrivial = True
        run.keys = [[repr(sorted(o[0].items())) for ops in plan['threads'] for o in ops], sorted(errs)]
        run.probe('evaluations', len(got))
        run.probe('failed', len(odd))
        # afterwards every texture gives its own image's values
        kept = []
        for ops in plan['threads']:
            for p, m, pts in ops:
                for prefix in ('later-', 'later-'):
                    t = make(p, m)
                    kept.append((t, p, m, pts))
                    self.judge(ref(p), p, m, pts, t, look, prefix)
        # a fresh process that makes this one texture gets the same values
        seen = {}
        for key, p, m, q, v in got:
            if ref(p) is not None and key not in odd:
                seen.setdefault(repr([p, m]), (p, m, []))[2].append((q, v))
        for k in sorted(seen)[:3]:
            p, m, qs = seen[k]
            state.restart()
            t = make(p, m)
            for q, v in qs:
                w = look(t, q)
                if v.shape != w.shape or not np.allclose(v, w, rtol=1e-9, atol=1e-12):
                    raise Violation('history-dependent', 'texture %r mapped by %r gives %r at %r, and %r in a fresh '
                                    'process' % (p, m, v.tolist(), q, w.tolist()))
        # and an image that becomes readable is used
        mended = [n for n in sorted(set(names)) if n not in files or files[n]['bad']]
        for n in mended:
            files[n] = {'size': [2, 2], 'px': 7, 'ch': 3, 'bad': None}
            fs.put(real(n), self.data(files[n]))
        refs.clear()
        for t, p, m, pts in kept:
            if p['file'] in mended:
                self.judge(ref(p), p, m, pts, make(p, m), look, 'mended-')
            else:
                self.judge(ref(p), p, m, pts, t, look, 'kept-')

    def judge(self, r, p, m, pts, t, look, prefix):
        for q in pts:
            v = look(t, q)
            if r is None:
                self.fallback(p, v, prefix)
            elif not self.ok(r, m, q, v):
                self.bad(p, m, q, v, r, prefix)

    def st(self, m, q):
        d = q[2]
        return m[0] * q[0] + m[2], m[1] * q[1] + m[3], [m[0] * d[0], m[1] * d[1], m[0] * d[2], m[1] * d[3]]

    def ok(self, r, m, q, v):
        lo, hi = r.value(*self.st(m, q))
        if v.shape != lo.shape:
            return False
        e = 1e-7 * (1. + np.abs(hi))
        return bool(np.all(v >= lo - e) and np.all(v <= hi + e))

    def is_fallback(self, p, v):
        c = p['scale'] ** p['gamma']
        n = 3 if p['mem'] == 'rgb' else 1
        # the black border applies to the one texel of the constant as well
        lo = -1e-9 if p['wrap'] == 'BLACK' else c - 1e-9
        return v.shape == (n,) and bool(np.all(v <= c + 1e-9) and np.all(v >= lo))

    def fallback(self, p, v, prefix):
        if not self.is_fallback(p, v):
            raise Violation(prefix + 'wrong-fallback', 'the unreadable image %s gives %r instead of the constant %r' % (
                p['file'], v.tolist(), p['scale'] ** p['gamma']))

    def bad(self, p, m, q, v, r, prefix):
        lo, hi = r.value(*self.st(m, q))
        raise Violation(prefix + 'wrong-texel', 'texture %r mapped by %r gives %r at %r, its image gives %r..%r' % (
            p, m, v.tolist(), q, lo.tolist(), hi.tolist()))


CHECK = C11
