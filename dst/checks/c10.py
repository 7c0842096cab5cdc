"""Measured reflectance data: one file, one material, whatever else was loaded."""
import hashlib
import math
import random

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simfs
from .c08 import bins, mean, BASES, N, L0, L1

NAMES = ['a.brdf', 'b.brdf', 'd1/a.brdf', 'd2/a.brdf', 'd2/b.brdf', 'd1/c.BRDF']


def direction(th, ph):
    return [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]


def remap(wo, wi):
    def phi(v):
        p = math.atan2(v[1], v[0])
        return p if p > 0. else p + 2 * math.pi
    d = phi(wi) - phi(wo)
    if d < 0.:
        d += 2 * math.pi
    if d > math.pi:
        d = 2 * math.pi - d
    s = lambda v: math.sqrt(max(0., 1. - v[2] * v[2]))
    return [s(wi) * s(wo), d / math.pi, wi[2] * wo[2]]


class Ref(object):
    """What a file says: an independent reading of its contents."""
    M = np.array([[3.240479, -1.537150, -0.498535], [-0.969256, 1.875991, 0.041556],
                  [0.055648, -0.204043, 1.057311]])

    def __init__(self, spec, xyz):
        self.pts, self.rgb = [], []
        for thi, phi, tho, pho, vals in spec['samples']:
            self.pts.append(remap(direction(tho, pho), direction(thi, phi)))
            s = np.array(bins(spec['wls'], vals))
            c = np.array([float(np.dot(xyz[k], s)) for k in 'XYZ']) * (L1 - L0) / (106.856895 * N)
            self.rgb.append(self.M.dot(c))

    def f(self, wo, wi):
        m = remap(wo, wi)
        d2 = [sum((a - b) ** 2 for a, b in zip(p, m)) for p in self.pts]
        r = .01
        while True:
            if any(abs(math.sqrt(q) - r) < 1e-7 for q in d2):
                return None
            idx = [i for i, q in enumerate(d2) if math.sqrt(q) <= r]
            if len(idx) > 2 or r > 1.5:
                if not idx:
                    return None
                w = [math.exp(-100. * d2[i]) for i in idx]
                v = sum(x * self.rgb[i] for x, i in zip(w, idx))
                if sum(w) < 1e-200:
                    return None
                return np.clip(v, 0., None) / sum(w)
            r *= 1.414


class Table(object):
    """Reflectance tabulated over half and difference angles."""

    def __init__(self, spec):
        self.n = spec['n']
        r = random.Random('table:%s' % spec['seed'])
        a, b, c = self.n
        self.data = [[[[round(r.uniform(0., 1.), 4) for _ in range(3)] for _ in range(c)] for _ in range(b)]
                     for _ in range(a)]

    def f(self, wo, wi):
        h = np.add(wo, wi)
        h = h / np.linalg.norm(h)
        th, ph = math.acos(min(1., h[2])), math.atan2(h[1], h[0])
        c, s = math.cos(-ph), math.sin(-ph)
        d = np.array([[c, -s, 0.], [s, c, 0.], [0., 0., 1.]]).dot(wi)
        c, s = math.cos(-th), math.sin(-th)
        d = np.array([[c, 0., s], [0., 1., 0.], [-s, 0., c]]).dot(d)
        td, pd = math.acos(max(-1., min(1., d[2]))), math.atan2(d[1], d[0]) % math.pi
        idx = []
        for x, n in ((math.sqrt(th / (math.pi / 2.)), self.n[0]), (td / (math.pi / 2.), self.n[1]), (pd / math.pi, self.n[2])):
            x *= n
            if abs(x - round(x)) < 1e-4 and 0 < round(x) < n or n > 1 and x < 1e-4 or x > n - 1e-4:
                return None
            idx.append(min(int(x), n - 1))
        if math.sin(td) < 1e-3 or math.sin(th) < 1e-3:
            return None
        return np.array(self.data[idx[0]][idx[1]][idx[2]])


class C10(Check):
    id = 'C10'
    quick = 700
    thorough = 30000
    focus = ('material/material.py', 'reflection/bdf/measured.py')
    fault_kinds = ('eio', 'eacces', 'emfile', 'short', 'memory', 'interrupt', 'malformed file', 'missing file')
    real = ('measured material (reading, parsing, cache)', 'measured BRDF lookup', 'BSDF', 'spectral resampling',
            'third-party k-d tree')
    stub = ('file system (simulated over a scratch directory)', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 2-6 reflectance files (equal names in different directories, malformed and missing ones), 1-4 '
            'tasks that load 1-3 of them and evaluate them, faults in the reads, the parsing or the open calls, and '
            'one schedule; non-trivial: two tasks interleaved, or one file loaded twice, or two files of one name; '
            'distinct by schedule, files loaded and fault sites')
    assumptions = ('files do not change while the process runs', 'a read cut short by an end of file that is not there '
                   'is not injected: the format cannot reveal it')
    mods = ('pytracer.material', 'pytracer.reflection', 'pytracer.spectral.spectrum', 'pytracer.data.spectral')

    def setup(self):
        Check.setup(self)
        import pytracer.data.spectral as D
        self.raw = {n: np.array(getattr(D, n), copy=True) for n in ('CIE_LAMBDA', 'CIE_X', 'CIE_Y', 'CIE_Z')}
        self.xyz = {k: np.array(bins(self.raw['CIE_LAMBDA'], self.raw['CIE_' + k])) for k in 'XYZ'}
        from pytracer import Spectrum
        Spectrum.init()

    def gen(self, rng, tier):
        files = {}
        size = rng.choice([3, 4, 6, 10])
        for n in rng.sample(NAMES, rng.choice([2, 3, 4, 6])):
            wls = sorted(rng.sample(range(380, 740, 10), rng.choice([1, 2, 3, 5])))
            smp = []
            for _ in range(rng.choice([size, size, 3, 4, 6, 10])):
                smp.append([round(rng.uniform(.05, 1.5), 4), round(rng.uniform(-3.1, 3.1), 4),
                            round(rng.uniform(.05, 1.5), 4), round(rng.uniform(-3.1, 3.1), 4),
                            [round(rng.uniform(0, 1), 4) for _ in wls]])
            files[n] = {'wls': [float(w) for w in wls], 'samples': smp, 'per': rng.choice([1, 4, 7]),
                        'bad': rng.choice([None, None, None, None, 'count', 'word'])}
        names = sorted(files) + (['no.brdf'] if rng.random() < .3 else [])
        hot = rng.choice(sorted(files))

        pool = [[rng.uniform(.05, 1.5), rng.uniform(-3, 3), rng.uniform(.05, 1.5), rng.uniform(-3, 3)]
                for _ in range(rng.choice([1, 2, 6]))]

        def load():
            n = hot if rng.random() < .4 else rng.choice(names)
            return [n, [rng.choice(pool) for _ in range(2)]]
        p = {'files': files, 'threads': [[load() for _ in range(rng.choice([1, 2, 3]))]
                                         for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        p['tables'] = [{'n': [rng.choice([1, 2, 5, 9, 18]), rng.choice([1, 3, 6, 12]), rng.choice([1, 4, 9, 18])],
                        'seed': rng.randrange(10 ** 6)} for _ in range(rng.choice([0, 1, 1, 2]))]
        for t in p['threads'] if p['tables'] else []:
            for _ in range(rng.choice([0, 1, 2])):
                t.insert(rng.randrange(len(t) + 1), ['table%d' % rng.randrange(len(p['tables'])),
                                                     [rng.choice(pool) for _ in range(4)]])
        p['faults'] = []
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                p['faults'].append([rng.randrange(12), rng.choice(['eio', 'eio', 'eacces', 'emfile', 'short'])])
        if rng.random() < .3:
            p['mem'] = {'p': rng.choice([.001, .005, .02]), 'max': 1,
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt']])}
        return p

    @staticmethod
    def text(spec):
        out = ['# measured', '%d' % len(spec['wls'])]
        out += [' '.join('%.1f' % w for w in spec['wls']), '']
        nums = []
        for s in spec['samples']:
            nums += ['%.4f' % x for x in s[:4]] + ['%.4f' % x for x in s[4]]
        if spec['bad'] == 'count':
            nums.append('0.5')
        if spec['bad'] == 'word':
            nums[len(nums) // 2] = 'x'
        for i in range(0, len(nums), spec['per']):
            out.append(' '.join(nums[i:i + spec['per']]))
            if i == 3 * spec['per']:
                out.append('# more')
        return ('\n'.join(out) + '\n').encode()

    def execute(self, plan, run):
        with simfs.FS('%s:disk' % run.seed) as fs:
            self.go(plan, run, fs)

    def go(self, plan, run, fs):
        import pytracer
        import pytracer.geometry as geo
        from pytracer.material import MeasuredMaterial
        from pytracer.reflection import BSDF, ReHalfangleBRDF
        tag = hashlib.sha256(run.seed.encode()).hexdigest()[:10]

        def real(n):
            d, b = n.split('/') if '/' in n else ('', n)
            return '/'.join(x for x in (d, tag + b) if x)
        refs = {}
        for n, spec in sorted(plan['files'].items()):
            fs.put(real(n), self.text(spec))
            if not spec['bad']:
                refs[n] = Ref(spec, self.xyz)
        tables = {}
        for i, t in enumerate(plan.get('tables', ())):
            refs['table%d' % i] = tables['table%d' % i] = Table(t)
        got, errs = [], {}
        inj = (sim.InjectedFault, sim.InjectedInterrupt)

        def dg():
            return geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
                                            geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), 0., 0., None)

        def load(n, dirs):
            g = dg()
            if n in tables:
                b = BSDF(g, g.nn)
                b.push_back(ReHalfangleBRDF(np.array(tables[n].data), *tables[n].n))
            else:
                m = MeasuredMaterial(fs.path(real(n)))
                b = m.get_bsdf(g, g)
            out = []
            for a in dirs:
                wi, wo = direction(a[0], a[1]), direction(a[2], a[3])
                v = b.f(geo.Vector(*wo), geo.Vector(*wi))
                out.append((wo, wi, [float(x) for x in v]))
            return out

        def task(i, ops):
            def f():
                for j, (n, dirs) in enumerate(ops):
                    try:
                        got.append((n, load(n, dirs)))
                    except inj as e:
                        errs[(i, j)] = ('injected', e)
                    except OSError as e:
                        errs[(i, j)] = ('io', e)
                    except Exception as e:
                        errs[(i, j)] = ('other', e)
            return f
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES)
                                if '/material/' in x[0] or '/spectral/' in x[0] or x[0].endswith('measured.py')],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        fs.arm(plan['faults'])
        fs.fired = []
        s = run.simulate([('task%d' % i, task(i, ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                         max_steps=4000000)
        fired = list(fs.fired)
        fs.clear()
        for f, i, k in fired:
            run.faults[f] += 1
            run.fault_keys.append('%s@%s' % (f, k))
        if s.outcome:
            raise Violation('no-progress', 'loading does not finish: %s %r' % (s.outcome, s.deadlock_info))
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        total = len([f for f in fired if f[0] != 'short']) + len(s.fault_log)
        spur = 0
        for (i, j), (k, e) in sorted(errs.items()):
            n = plan['threads'][i][j][0]
            if n not in refs:
                run.faults['malformed-or-missing-file'] += 1
                continue
            spur += 1
            if spur > total:
                raise Violation('spurious-error', 'loading %s fails with %r, %d failures were injected' % (
                    n, e, total))
        for n, out in got:
            self.judge(n, out, refs, '')
        names = [o[0] for ops in plan['threads'] for o in ops]
        if s.switches > len(plan['threads']) or len(set(names)) < len(names):
            run.nontrivial = True
        run.keys = [names, sorted(errs)]
        run.probe('loads', len(got))
        run.probe('loads_failed', len(errs))
        # afterwards every file gives its own data, however it went before
        for n in sorted(plan['files']):
            for again in ('later-', 'later-'):
                try:
                    out = load(n, [a for ops in plan['threads'] for o in ops for a in o[1]][:3])
                except Exception as e:
                    if n in refs:
                        raise Violation('later-error', 'loading %s again fails with %r' % (n, e))
                    continue
                self.judge(n, out, refs, again)
        try:
            load('no.brdf', [])
        except Exception:
            pass
        else:
            raise Violation('missing-file-accepted', 'a material is made from a file that does not exist')

    def judge(self, n, out, refs, prefix):
        if n not in refs:
            raise Violation(prefix + 'malformed-accepted', 'a material is made from the malformed or missing file ' + n)
        for wo, wi, v in out:
            w = refs[n].f(wo, wi)
            if w is not None and not np.allclose(v, w, rtol=1e-6, atol=1e-8):
                raise Violation(prefix + 'wrong-reflectance', '%s gives %r for (%r, %r), its data give %r' % (
                    n, v, wo, wi, w.tolist()))


CHECK = C10
