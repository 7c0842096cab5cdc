"""Spectral tables and conversions under concurrency and interruption."""
import math

from ..core import Check, Violation
from .. import sim, instr

BASES = ['White', 'Cyan', 'Magenta', 'Yellow', 'Red', 'Green', 'Blue']
L0, L1, N = 400., 700., 30


def mean(lam, v, a, b):
    """Mean over [a, b] of the piecewise linear curve through (lam, v),
    constant beyond its ends."""
    if len(lam) == 1:
        return float(v[0])

    def at(x):
        if x <= lam[0]:
            return v[0]
        if x >= lam[-1]:
            return v[-1]
        for i in range(len(lam) - 1):
            if lam[i] <= x <= lam[i + 1]:
                return v[i] + (v[i + 1] - v[i]) * (x - lam[i]) / (lam[i + 1] - lam[i])
    xs = [a] + [x for x in lam if a < x < b] + [b]
    ys = [at(x) for x in xs]
    s = 0.
    for i in range(len(xs) - 1):
        s += (xs[i + 1] - xs[i]) * (ys[i] + ys[i + 1]) / 2.
    return s / (b - a)


def bins(lam, v):
    lam, v = [float(x) for x in lam], [float(x) for x in v]
    return [mean(lam, v, L0 + (L1 - L0) * i / N, L0 + (L1 - L0) * (i + 1) / N) for i in range(N)]


def calc(op, pal):
    """What a spectrum of palette entry op[2] holds after the steps."""
    x = [float(q) for q in pal[op[2]]['v']]
    if op[1] == 'scalar':
        x = [x[0]] * 3
    for st in op[3]:
        k = st[0]
        y = [float(q) for q in pal[st[-1]]['v']] if k in ('add', 'sub', 'mix', 'times') else None
        if y and len(y) != len(x):
            y = [y[0]] * len(x)
        if k == 'scale':
            x = [q * st[1] for q in x]
        elif k == 'over':
            x = [q / st[1] for q in x]
        elif k == 'add':
            x = [q + r for q, r in zip(x, y)]
        elif k == 'sub':
            x = [q - r for q, r in zip(x, y)]
        elif k == 'times':
            x = [q * r for q, r in zip(x, y)]
        elif k == 'mix':
            x = [(1. - st[1]) * q + st[1] * r for q, r in zip(x, y)]
        elif k == 'root':
            x = [math.sqrt(q) if q >= 0. else float('nan') for q in x]
        elif k == 'exp':
            x = [math.exp(q) for q in x]
        elif k == 'pow':
            x = [q ** st[1] for q in x]
        elif k == 'clip':
            x = [min(max(q, st[1]), st[2]) if q == q else q for q in x]
    if len(x) == 3:
        x.append(.212671 * x[0] + .715160 * x[1] + .072169 * x[2])
    n = [q for q in x if q != q]
    x.append(float(bool(n)))
    if not n and all(q <= 0. or q > 1e-2 for q in x[:-2]):
        x.append(float(all(q <= 0. for q in x[:(3 if len(x) == 5 else -1)])))
    return x


class C08(Check):
    id = 'C08'
    quick = 480
    thorough = 40000
    focus = ('spectral/spectrum.py',)
    fault_kinds = ('memory', 'interrupt')
    real = ('sampled and RGB spectra', 'spectral tables and their initialisation')
    stub = ('threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 2-4 tasks with 1-4 operations each (averages and conversions of shared caller data and of the '
            'built-in curves, conversions from and to RGB and XYZ, arithmetic on spectra made of shared values, table '
            'initialisation, and observers that read the '
            'shared data and tables), optionally failures injected at drawn statements, and one schedule; non-trivial: '
            'at least two tasks were interleaved; distinct by schedule, operations and fault site')
    assumptions = ('an operation that fails reports it by raising',)
    mods = ('pytracer.spectral.spectrum', 'pytracer.data.spectral')

    def setup(self):
        Check.setup(self)
        import numpy as np
        import pytracer.data.spectral as D
        self.np, self.D = np, D
        self.raw = {}
        for n in ['CIE_X', 'CIE_Y', 'CIE_Z', 'CIE_LAMBDA', 'RGB2SpectLambda'] + \
                ['RGBRefl2Spect' + b for b in BASES] + ['RGBIllum2Spect' + b for b in BASES]:
            self.raw[n] = np.array(getattr(D, n), copy=True)
        r = self.raw
        self.tab = {k: np.array(bins(r['CIE_LAMBDA'], r['CIE_' + k])) for k in 'XYZ'}
        for kind in ('Refl', 'Illum'):
            for b in BASES:
                self.tab['rgb%s2Spect%s' % (kind, b)] = np.array(
                    bins(r['RGB2SpectLambda'], r['RGB%s2Spect%s' % (kind, b)]))

    def gen(self, rng, tier):
        data = []
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([1, 2, 3, 5, 9, 20])
            lam = sorted(set(rng.choice([rng.uniform(350, 750), float(rng.randrange(36, 76) * 10)])
                             for _ in range(n)))
            v = [rng.choice([rng.uniform(0, 2), rng.uniform(0, 2), 0., 1.]) for _ in lam]
            if rng.random() < .3:
                # from_sampled accepts any order
                z = list(zip(lam, v))
                rng.shuffle(z)
                data.append({'lam': [q[0] for q in z], 'v': [q[1] for q in z], 'sorted': False,
                             'how': rng.choice(['list', 'array'])})
            else:
                data.append({'lam': lam, 'v': v, 'sorted': True, 'how': rng.choice(['list', 'array'])})

        def span(lo, hi, lam):
            a, b = sorted([rng.uniform(lo, hi), rng.uniform(lo, hi)])
            u = rng.random()
            if u < .2:
                a = rng.choice(lam)
            if u > .8 or u < .1:
                b = rng.choice(lam)
            if b <= a:
                b = a + 10.
            return [a, b]
        # values the caller keeps and makes spectra of
        pal = []
        for _ in range(3):
            n = rng.choice([3, 3, 3, N])
            if rng.random() < .5:
                pal.append({'v': [rng.randrange(0, 5) for _ in range(n)], 'how': rng.choice(['list', 'array'])})
            else:
                pal.append({'v': [rng.choice([round(rng.uniform(0., 3.), 3), 0.]) for _ in range(n)],
                            'how': rng.choice(['list', 'array', 'spectrum'])})

        # sometimes every task does the same arithmetic on its own values
        same = rng.choice(['scale', 'add', 'mix', 'root', 'exp', 'pow', 'clip']) if rng.random() < .15 else None
        if same:
            for d in pal[1:]:
                d['v'] = (d['v'] * N)[:len(pal[0]['v'])]

        def made():
            d = rng.randrange(len(pal))
            how = rng.choice(['call', 'create', 'create', 'from'] +
                             (['scalar', 'rgb'] if len(pal[d]['v']) == 3 else []))
            steps = []
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(['scale', 'scale', 'over', 'add', 'add', 'sub', 'times', 'mix', 'root', 'exp', 'pow',
                                'clip'])
                k = same or k
                steps.append([k] + ([round(rng.uniform(.1, 1.5), 3)] if k in ('scale', 'over', 'mix') else
                                    [rng.choice([2, 3])] if k == 'pow' else
                                    [round(rng.uniform(0., .3), 2), round(rng.uniform(.5, 3.), 2)] if k == 'clip'
                                    else []) + ([rng.randrange(len(pal))] if k in ('add', 'sub', 'mix', 'times')
                                                else []))
                if k == 'exp':
                    steps.insert(-1, ['clip', -3., 3.])
            return ['make', how, d, steps]
        ths = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(['avg', 'avg', 'avg', 'cie', 'cie', 'fs', 'fs', 'rgb', 'xyz', 'to', 'init', 'peek',
                                'peek', 'peek', 'make'])
                if same and rng.random() < .9:
                    k = 'make'
                d = rng.randrange(len(data))
                if k == 'avg' and not data[d]['sorted']:
                    k = 'fs'
                if k == 'avg':
                    ops.append(['avg', d] + span(330, 770, data[d]['lam']))
                elif k == 'cie':
                    ops.append(['cie', rng.choice('XYZ')] + span(350, 840, [400., 410., 500., 650., 700.]))
                elif k == 'fs':
                    ops.append(['fs', rng.choice('sr'), d])
                elif k in ('rgb', 'xyz'):
                    c = [rng.choice([rng.uniform(0, 1), 0., 1., .5]) for _ in range(3)]
                    if rng.random() < .3:
                        c = [rng.choice([1., 1., .5, c[0]])] * 3
                    ops.append([k, rng.choice('ssr'), c, rng.choice(['REFLECTANCE', 'ILLUMINANT'])])
                elif k == 'make':
                    ops.append(made())
                elif k == 'to':
                    ops.append(['to', rng.choice(['xyz', 'y', 'rgb']), [rng.uniform(0, 1) for _ in range(N)]])
                else:
                    ops.append([k])
            ths.append(ops)
        p = {'data': data, 'threads': ths, 'pal': pal}
        if rng.random() < .4:
            p['mem'] = {'p': rng.choice([.002, .01, .05]), 'max': rng.choice([1, 1, 2]),
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt']])}
        return p

    # -- reference ----------------------------------------------------------
    def from_rgb(self, c, tp):
        np = self.np
        kind = 'rgbRefl2Spect' if tp == 'REFLECTANCE' else 'rgbIllum2Spect'
        T = lambda b: self.tab[kind + b]
        lo, me, hi = np.argsort(c)
        one = ['Red', 'Green', 'Blue']
        two = ['Cyan', 'Magenta', 'Yellow']
        s = c[lo] * T('White') + (c[me] - c[lo]) * T(two[lo]) + (c[hi] - c[me]) * T(one[hi])
        s = s * (.94 if kind == 'rgbRefl2Spect' else .86445)
        return np.clip(s, 0., None)

    def xyz(self, s):
        np = self.np
        return np.array([float(np.dot(self.tab[k], s)) for k in 'XYZ']) * (L1 - L0) / (106.856895 * N)

    def expect(self, op, plan):
        np = self.np
        data = plan['data']
        if op[0] == 'make':
            return calc(op, plan['pal'])
        M = np.array([[3.240479, -1.537150, -0.498535], [-0.969256, 1.875991, 0.041556],
                      [0.055648, -0.204043, 1.057311]])
        if op[0] == 'avg':
            d = data[op[1]]
            return [mean(d['lam'], d['v'], op[2], op[3])]
        if op[0] == 'cie':
            return [mean([float(x) for x in self.raw['CIE_LAMBDA']],
                         [float(x) for x in self.raw['CIE_' + op[1]]], op[2], op[3])]
        if op[0] == 'fs':
            d = data[op[2]]
            z = sorted(zip(d['lam'], d['v']))
            s = bins([q[0] for q in z], [q[1] for q in z])
            return s if op[1] == 's' else M.dot(self.xyz(s))
        if op[0] in ('rgb', 'xyz'):
            c = op[2] if op[0] == 'rgb' else M.dot(op[2])
            return c if op[1] == 'r' else self.from_rgb(c, op[3])
        x = self.xyz(op[2])
        return x if op[1] == 'xyz' else [x[1]] if op[1] == 'y' else M.dot(x)

    # -- execution ------------------------------------------------------------
    def palette(self, plan):
        import pytracer.spectral.spectrum as sp
        np, out = self.np, []
        for d in plan['pal']:
            a = list(d['v']) if d['how'] == 'list' else np.array(d['v'])
            out.append(a.view(sp.RGBSpectrum if len(a) == 3 else sp.SampledSpectrum) if d['how'] == 'spectrum' else a)
        return out

    def make(self, op, pal, plan):
        import pytracer.spectral.spectrum as sp
        np = self.np

        def of(how, v):
            cls = sp.RGBSpectrum if len(v) == 3 else sp.SampledSpectrum
            if how == 'scalar':
                return cls(v[0])
            if how == 'rgb':
                return cls.from_rgb(v)
            if how == 'call':
                return cls(v)
            if how == 'create':
                return cls.create(v)
            return cls.create_from_list(v) if isinstance(v, list) else cls.create_from_array(v)
        x = of(op[1], pal[op[2]])
        for st in op[3]:
            k = st[0]
            if k in ('add', 'sub', 'mix', 'times'):
                y = pal[st[-1]]
                y = of('call', y) if len(y) == len(x) else of('call', [y[0]] * len(x))
            else:
                y = ()
            kept = [(z, [float(q) for q in z]) for z in ((y,) if k in ('scale', 'add') else (x, y))]
            if k == 'scale':
                x *= st[1]
            elif k == 'over':
                x = x / st[1]
            elif k == 'add':
                x += y
            elif k == 'sub':
                x = x - y
            elif k == 'times':
                x = x * y
            elif k == 'mix':
                x = x.lerp(st[1], y)
            elif k == 'root':
                x = x.sqrt()
            elif k == 'exp':
                x = x.exp()
            elif k == 'pow':
                x = x.pow(st[1])
            elif k == 'clip':
                x = x.clip(st[1], st[2])
            for z, v in kept:
                if not np.array_equal(z, v) and not np.isnan(v).any():
                    raise Violation('operand-changed', '%r changes the spectrum it is applied to from %r to %r' % (
                        st, v[:6], [float(q) for q in z][:6]))
        r = [float(q) for q in x]
        if len(r) == 3:
            r.append(float(x.y()))
        r.append(float(bool(x.has_nans())))
        w = calc(op, plan['pal'])
        if len(w) > len(r):
            r.append(float(bool(x.is_black())))
        return r

    def do(self, op, live):
        import pytracer.spectral.spectrum as sp
        np = self.np
        S = sp.SampledSpectrum
        if op[0] == 'avg':
            return [float(S.average_spectrum_samples(live[op[1]][0], live[op[1]][1], op[2], op[3]))]
        if op[0] == 'cie':
            return [float(S.average_spectrum_samples(self.D.CIE_LAMBDA, getattr(self.D, 'CIE_' + op[1]),
                                                     op[2], op[3]))]
        cls = sp.RGBSpectrum if op[1] == 'r' else S
        if op[0] == 'fs':
            return [float(x) for x in cls.from_sampled(live[op[2]][0], live[op[2]][1])]
        if op[0] in ('rgb', 'xyz'):
            f = cls.from_rgb if op[0] == 'rgb' else cls.from_xyz
            return [float(x) for x in f(list(op[2]), getattr(sp.SpectrumType, op[3]))]
        s = S(op[2])
        if op[1] == 'y':
            return [float(s.y())]
        return [float(x) for x in (s.to_xyz() if op[1] == 'xyz' else s.to_rgb())]

    def peek(self, plan, live, when):
        np = self.np
        import pytracer.spectral.spectrum as sp
        for d, (lam, v) in zip(plan['data'], live):
            if [float(x) for x in lam] != d['lam'] or [float(x) for x in v] != d['v']:
                raise Violation('caller-data-changed', 'the caller\'s samples read %r / %r %s, they are %r / %r' % (
                    list(lam), list(v), when, d['lam'], d['v']))
        for d, v in zip(plan['pal'], live[len(plan['data']):]):
            if [float(x) for x in v] != [float(x) for x in d['v']]:
                raise Violation('caller-data-changed', 'the caller\'s values read %r %s, they are %r' % (
                    list(v), when, d['v']))
        for n, a in self.raw.items():
            if not np.array_equal(getattr(self.D, n), a):
                raise Violation('builtin-data-changed', 'the built-in data %s is modified %s' % (n, when))
        for n, a in self.tab.items():
            t = getattr(sp.SampledSpectrum, n)
            if t is None or len(t) != N or not np.allclose(t, a, rtol=1e-9, atol=1e-10):
                raise Violation('table-incomplete', 'the table %s is not the averaged curve %s: %r' % (
                    n, when, None if t is None else [float(x) for x in t][:6]))

    def reset(self):
        import pytracer.spectral.spectrum as sp
        for n, a in self.raw.items():
            getattr(self.D, n)[...] = a
        sp.SampledSpectrum.init()

    def execute(self, plan, run):
        np = self.np
        import pytracer.spectral.spectrum as sp
        live = [(list(d['lam']), list(d['v'])) if d['how'] == 'list' else
                (np.array(d['lam']), np.array(d['v'])) for d in plan['data']]
        live += self.palette(plan)
        self.reset()
        self.peek(plan, live, 'after initialisation')
        got, failed, seen = {}, {}, []

        def one(i, j, op):
            if op[0] == 'peek':
                try:
                    self.peek(plan, live, 'while conversions run')
                except Violation as e:
                    seen.append(e)
            elif op[0] == 'init':
                (sp.SampledSpectrum if j % 2 else sp.RGBSpectrum).init()
            elif op[0] == 'make':
                with np.errstate(all='ignore'):
                    got[(i, j)] = self.make(op, live[len(plan['data']):], plan)
                run.probe('spectra_made')
            else:
                got[(i, j)] = self.do(op, live)

        def task(i, ops):
            def f():
                for j, op in enumerate(ops):
                    try:
                        one(i, j, op)
                    except (sim.InjectedFault, sim.InjectedInterrupt) as e:
                        failed[(i, j)] = e
            return f
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/spectral/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('task%d' % i, task(i, ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                         max_steps=3000000)
        if s.outcome:
            raise Violation('no-progress', 'conversions do not finish: %s %r' % (s.outcome, s.deadlock_info))
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(failed) != len(s.fault_log):
            raise Violation('failure-hidden', '%d failures, %d operations reported one' % (
                len(s.fault_log), len(failed)))
        if seen:
            raise seen[0]
        self.compare(plan, got)
        if s.switches > len(plan['threads']):
            run.nontrivial = True
        run.keys = [plan['threads'], sorted(failed)]
        run.probe('conversions_judged', len(got))
        self.peek(plan, live, 'after the conversions')
        for i, ops in enumerate(plan['threads']):
            for j, op in enumerate(ops):
                one(i, j, op)
        self.compare(plan, got, 'later-')
        self.peek(plan, live, 'after repeating the conversions')

    def compare(self, plan, got, prefix=''):
        np = self.np
        for (i, j), g in sorted(got.items()):
            op = plan['threads'][i][j]
            w = self.expect(op, plan)
            if len(w) != len(g) or not np.allclose(g, w, rtol=1e-7, atol=1e-8, equal_nan=True):
                raise Violation(prefix + 'wrong-result', '%r gives %r, expected %r' % (
                    op, g[:6], [float(x) for x in w][:6]))


CHECK = C08
