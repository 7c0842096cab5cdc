"""Random draws become samples with the density that is reported for them."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simrand, shapelib as S

EDGE = [0., 1e-12, .5, .25, .75, 1. - 2. ** -53]
MC = ['sphere', 'hemisphere', 'disk', 'concentric', 'cosine', 'triangle', 'cone', 'cone-frame', 'hg', 'reject']


class C16(Check):
    id = 'C16'
    quick = 700
    thorough = 30000
    focus = ('montecarlo/', 'shape/', 'light/utility.py')
    fault_kinds = ('edge draws', 'memory', 'interrupt')
    real = ('piecewise-constant distributions', 'sampling transforms', 'shapes (sampling, areas, densities)',
            'sets of shapes', 'phase functions', 'geometry/transform')
    stub = ('random draws (seeded, with edge values)', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-3 tables, 1-3 placed shapes (whole or partial, mirrored, reversed), and 1-4 tasks that draw '
            'from them and from the sampling transforms with seeded and edge draws, with failing statements, under one '
            'schedule; non-trivial: two tasks interleaved, or a stratified sweep of the draws; distinct by schedule, '
            'objects and fault sites')
    assumptions = ('draws lie in [0, 1)', 'shapes are placed by rotations, translations and reflections',
                   'directions within 1e-2 of a tangent are not judged')
    mods = ('pytracer.montecarlo', 'pytracer.shape', 'pytracer.light', 'pytracer.volume')

    def gen(self, rng, tier):
        def table(n):
            t = [rng.choice([0., 0., round(rng.uniform(.01, 5.), 3), round(rng.uniform(.01, 5.), 3)]) for _ in range(n)]
            if not any(t):
                t[rng.randrange(n)] = 1.
            if rng.random() < .3:
                t[0] = 0.
            if rng.random() < .3:
                t[-1] = 0.
            if not any(t):
                t[n // 2] = 1.5
            return t
        d1 = [table(rng.choice([1, 2, 3, 5, 9])) for _ in range(rng.choice([1, 2, 3]))]
        d2 = []
        for _ in range(rng.choice([1, 2])):
            nv, nu = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 5])
            m = [table(nu) for _ in range(nv)]
            if nv > 1 and rng.random() < .4:
                m[rng.randrange(nv)] = [0.] * nu
            d2.append(m)
        shapes = [S.gen(rng, uv=.3) for _ in range(rng.choice([1, 1, 2, 3]))]

        def draw():
            return rng.choice(EDGE) if rng.random() < .25 else rng.random()

        def pnt():
            if rng.random() < .2:
                c = rng.choice(shapes)['c']
                return [round(x + rng.uniform(-.3, .3), 3) for x in c]
            return [round(rng.uniform(-5, 5), 3) for _ in range(3)]
        pnts = [pnt() for _ in range(2)]

        def op():
            k = rng.choice(['d1', 'd1i', 'd2', 'area', 'area', 'seen', 'seen', 'set', 'mc', 'mc'])
            if k in ('d1', 'd1i'):
                return [k, rng.randrange(len(d1)), draw()]
            if k == 'd2':
                return [k, rng.randrange(len(d2)), draw(), draw()]
            if k == 'mc':
                return [k, rng.choice(MC), draw(), draw(), rng.choice([0., .3, -.6, .9, 1e-6]),
                        round(rng.uniform(-.9, .95), 3), [round(rng.uniform(-1, 1), 3) for _ in range(2)] + [.4]]
            o = [k, rng.randrange(len(shapes)), draw(), draw(), draw()]
            return o + [rng.choice(pnts)]
        p = {'d1': d1, 'd2': d2, 'shapes': shapes, 'sweep': None, 'array': rng.random() < .5,
             'threads': [[op() for _ in range(rng.choice([2, 4, 8]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .3:
            # everyone draws from one table
            if rng.random() < .6:
                d1[0] = [round(rng.uniform(.2, 2.), 3) for _ in range(rng.choice([3, 4, 6]))]
                mk = lambda: [rng.choice(['d1', 'd1', 'd1i']), 0, draw()]
            else:
                d2[0] = [[round(rng.uniform(.2, 2.), 3) for _ in range(3)] for _ in range(rng.choice([2, 3]))]
                mk = lambda: ['d2', 0, draw(), draw()]
            p['threads'] = [[mk() for _ in range(rng.choice([6, 10]))] for _ in range(rng.choice([2, 2, 3]))]
            p['hot'] = True
        if rng.random() < .15:
            p['mem'] = {'p': rng.choice([.002, .01]), 'max': 1, 'kinds': rng.choice([['memory'], ['interrupt']])}
        if rng.random() < .35:
            p['sweep'] = op()
        return p

    def execute(self, plan, run):
        import pytracer.montecarlo as mc
        import pytracer.geometry as geo
        from pytracer.light.utility import ShapeSet, LightSample
        arr = np.array if plan['array'] else list
        src1 = [arr(t) for t in plan['d1']]
        src2 = [np.array(t) for t in plan['d2']]
        with np.errstate(all='ignore'):
            D1 = [mc.Distribution1D(t) for t in src1]
            D2 = [mc.Distribution2D(t) for t in src2]
        for t, w in zip(src1, plan['d1']):
            if list(t) != w:
                raise Violation('input-changed', 'the table given to a distribution became %r' % (list(t),))
            for i in range(len(t)):
                t[i] = -1.        # the caller reuses its buffer
        for t in src2:
            t[:] = -1.
        shapes = [S.build(s) for s in plan['shapes']]
        subs = [sh.refine() if s['k'] == 'tris' else [sh] for s, sh in zip(plan['shapes'], shapes)]
        sets = [ShapeSet(sh) for sh in shapes]
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]

        def one(o):
            k = o[0]
            if k == 'd1':
                x, p = D1[o[1]].sample_cont(o[2])
                return [float(x), float(p)]
            if k == 'd1i':
                x, p = D1[o[1]].sample_dis(o[2])
                return [int(x), float(p)]
            if k == 'd2':
                (u, v), p = D2[o[1]].sample_cont(o[2], o[3])
                return [float(u), float(v), float(p), float(D2[o[1]].pdf(u, v))]
            if k == 'mc':
                return self.mc(o, run)
            if k == 'area':
                sub = subs[o[1]]
                sh = sub[int(o[4] * len(sub))]
                p, n = sh.sample(o[2], o[3])
                return [flt(p), flt(n), float(sh.pdf(p)), float(sh.area()), int(o[4] * len(sub))]
            if k == 'seen':
                sub = subs[o[1]]
                sh = sub[int(o[4] * len(sub))]
                pt = geo.Point(*o[5])
                p, n = sh.sample_p(pt, o[2], o[3])
                wi = geo.normalize(p - pt)
                return [flt(p), flt(n), float(sh.pdf_p(pt, wi)), int(o[4] * len(sub))]
            pt = geo.Point(*o[5])
            p, n = sets[o[1]].sample_p(pt, LightSample(o[2], o[3], o[4]))
            q, m = sets[o[1]].sample(LightSample(o[2], o[3], o[4]))
            wi = geo.normalize(p - pt)
            return [flt(p), flt(n), float(sets[o[1]].pdf(pt, wi)), flt(q), flt(m), float(sets[o[1]].pdf_p(q))]

        def fresh(o):
            if o[0] == 'd2':
                d = mc.Distribution2D(np.array(plan['d2'][o[1]]))
                (u, v), p = d.sample_cont(o[2], o[3])
                return [float(u), float(v), float(p), float(d.pdf(u, v))]
            d = mc.Distribution1D(arr(plan['d1'][o[1]]))
            x, p = d.sample_cont(o[2]) if o[0] == 'd1' else d.sample_dis(o[2])
            return [float(x) if o[0] == 'd1' else int(x), float(p)]

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/montecarlo/' in x[0] or '/shape/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        streams = [simrand.Stream('%s:%d' % (run.seed, i), edge=.1) for i in range(len(plan['threads']))]
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                             max_steps=2000000, streams=streams)
        if s.outcome:
            raise Violation('no-progress', 'sampling does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > len(s.fault_log):
            raise Violation('spurious-error', '%d draws failed, %d failures were injected' % (len(errs), len(s.fault_log)))
        for o, v in got:
            self.judge(plan, o, v)
        for o, v in got:
            if o[0] in ('d1', 'd1i', 'd2'):
                with np.errstate(all='ignore'):
                    w = fresh(o)
                if v != w:
                    raise Violation('depends-on-others', '%r draws %r among the draws of others, %r alone' % (o, v, w))
        for ops in plan['threads']:
            for o in ops[:2]:
                with np.errstate(all='ignore'):
                    self.judge(plan, o, one(o), 'later-')
        run.probe('draws', len(got))
        if plan['sweep']:
            self.sweep(plan, one, run)
        run.nontrivial = run.nontrivial or s.switches > len(plan['threads'])
        run.keys = [[o[:2] for ops in plan['threads'] for o in ops]]

    # ------------------------------------------------------------ transforms
    @staticmethod
    def mc(o, run):
        import pytracer.montecarlo as mc
        import pytracer.geometry as geo
        _, k, u1, u2, g, ct, w = o
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]
        if k == 'sphere':
            return flt(mc.uniform_sample_sphere(u1, u2)) + [float(mc.uniform_sphere_pdf())]
        if k == 'hemisphere':
            return flt(mc.uniform_sample_hemisphere(u1, u2)) + [float(mc.uniform_hemisphere_pdf())]
        if k == 'cosine':
            v = flt(mc.cosine_sample_hemisphere(u1, u2))
            return v + [float(mc.cosine_hemisphere_pdf(v[2], 0.))]
        if k == 'disk':
            return [float(x) for x in mc.uniform_sample_disk(u1, u2)]
        if k == 'concentric':
            return [float(x) for x in mc.concentric_sample_disk(u1, u2)]
        if k == 'reject':
            return [float(x) for x in mc.rejection_sample_disk()]
        if k == 'triangle':
            return [float(x) for x in mc.uniform_sample_triangle(u1, u2)]
        wv = geo.normalize(geo.Vector(*w))
        if k == 'cone':
            return flt(mc.uniform_sample_cone(u1, u2, ct)) + [float(mc.uniform_cone_pdf(ct))]
        if k == 'cone-frame':
            _, x, y = geo.coordinate_system(wv)
            return flt(mc.uniform_sample_cone(u1, u2, ct, x, y, wv)) + [float(mc.uniform_cone_pdf(ct))]
        d = mc.sample_hg(wv, g, u1, u2)
        return flt(d) + [float(mc.hg_pdf(wv, d, g))]

    def judge(self, plan, o, v, pre=''):
        k = o[0]
        flat = [x for y in v for x in (y if isinstance(y, list) else [y])]
        if not all(math.isfinite(x) for x in flat):
            raise Violation(pre + 'not-finite', '%r gives %r' % (o, v))
        if k in ('d1', 'd1i'):
            t = plan['d1'][o[1]]
            n, tot = len(t), sum(t)
            if k == 'd1i':
                if not (0 <= v[0] < n and t[v[0]] > 0. and abs(v[1] - t[v[0]] / tot) < 1e-9):
                    raise Violation(pre + 'wrong-step', 'draw %r from %r gives step %r with probability %r' % (
                        o[2], t, v[0], v[1]))
                return
            if not 0. <= v[0] <= 1. or not self.near(t, v[0], v[1] * tot / n):
                raise Violation(pre + 'wrong-density', 'draw %r from %r gives %r with density %r' % (o[2], t, v[0], v[1]))
            return
        if k == 'd2':
            m = plan['d2'][o[1]]
            tot = sum(map(sum, m))
            u, w, p, q = v
            ok = 0. <= u <= 1. and 0. <= w <= 1.
            val = p * tot / (len(m) * len(m[0]))
            ok = ok and any(self.near(r, u, val) for i, r in enumerate(m) if i - 1e-9 <= w * len(m) <= i + 1 + 1e-9)
            edge = any(abs(x - round(x)) < 1e-6 for x in (u * len(m[0]), w * len(m)))
            if not ok or not (edge or abs(p - q) <= 1e-9 * max(1., p)):
                raise Violation(pre + 'wrong-density', 'draws %r from %r give (%r, %r) with density %r, pdf() says %r' % (
                    o[2:], m, u, w, p, q))
            return
        if k == 'mc':
            return self.judge_mc(o, v, pre)
        s = plan['shapes'][o[1]]
        if k == 'area':
            p, n, pdf, ar, i = v
            self.on(s, p, n, o, pre, i)
            want = S.tri_areas(s)[i] if s['k'] == 'tris' else S.area(s)
            if abs(ar - want) > 1e-9 * want or abs(pdf - 1. / want) > 1e-9 / want:
                raise Violation(pre + 'wrong-area', 'a %s reports area %r and density %r, its area is %r' % (
                    s['k'], ar, pdf, want))
            return
        pt = np.array(o[5])
        if k == 'seen':
            p, n, pdf, i = v
            d = np.array(p) - pt
            if np.linalg.norm(d) < .05:
                return
            one = dict(s, idx=s['idx'][3 * i:3 * i + 3]) if s['k'] == 'tris' else s
            if not self.on(s, p, n, o, pre, i if s['k'] == 'tris' else None, seen=True):
                return
            want = self.pdf_seen(one, pt, d)
            what = 'seen from %r' % (o[5],)
        else:
            p, n, pdf, q, m, pa = v
            self.on(s, q, m, o, pre)
            if abs(pa - 1. / S.area(s)) > 1e-9 / S.area(s):
                raise Violation(pre + 'wrong-area', 'a set of area %r has density %r' % (S.area(s), pa))
            d = np.array(p) - pt
            if np.linalg.norm(d) < .05:
                return
            if not self.on(s, p, n, o, pre, seen=True):
                return
            want = self.pdf_seen(s, pt, d)
            what = 'in a set seen from %r' % (o[5],)
        if want is not None and abs(pdf - want) > 1e-4 * want + 1e-9:
            raise Violation(pre + 'wrong-density', '%s %s is sampled towards %r with density %r, it is %r' % (
                s['k'], what, p, pdf, want))

    @staticmethod
    def near(t, x, val):
        """val is the table's value at x (either side of a step edge), and positive."""
        n = len(t)
        for e in (-1e-9, 0., 1e-9):
            i = int(math.floor(x * n + e))
            if 0 <= i < n and t[i] > 0. and abs(val - t[i]) <= 1e-9 * t[i]:
                return True
        return False

    @staticmethod
    def pdf_seen(s, pt, d):
        """Density over solid angle of the first point of s along d, or None
        when that is hard to tell."""
        dist = np.linalg.norm(d)
        w = d / dist
        lp = S.to_local(s, pt)
        if S.whole(s):
            r2 = lp.dot(lp) - s['r'] ** 2
            if abs(r2) < 1e-2:
                return None
            if r2 > 0.:
                c = math.sqrt(max(0., 1. - s['r'] ** 2 / lp.dot(lp)))
                return 1. / (2. * math.pi * (1. - c))
        h = S.first(s, pt, w)
        if h[0] != 'hit':
            return None
        n = S.normal(s, h[2], h[3])
        c = abs(n.dot(w))
        if c < .02:
            return None
        return h[1] ** 2 / (c * S.area(s))

    @staticmethod
    def on(s, p, n, o, pre, i=None, seen=False):
        q = S.to_local(s, p)
        d, tri = S.off(s, q)
        if seen and S.whole(s):
            # points found by a ray that grazes the sphere are coarse
            lp = S.to_local(s, o[5])
            if lp.dot(lp) > s['r'] ** 2 and np.linalg.norm(np.cross(q, lp)) > 0.:
                to = (q - lp) / np.linalg.norm(q - lp)
                if abs(to.dot(q) / np.linalg.norm(q)) < .05:
                    return False
        if d > 1e-5:
            raise Violation(pre + 'off-surface', '%s sampled by %r at %r, %.3g away from it' % (s['k'], o, p, d))
        want = S.normal(s, q, tri)
        if s['k'] == 'tris':
            # edges belong to two triangles
            ok = any(np.allclose(n, S.normal(s, q, j), atol=1e-5)
                     and S.off(dict(s, idx=s['idx'][j:j + 3]), q)[0] < 1e-5 for j in range(0, len(s['idx']), 3)
                     if i is None or j == 3 * i)
        else:
            ok = np.allclose(n, want, atol=1e-5)
        if not ok:
            raise Violation(pre + 'wrong-normal', '%s sampled at %r has normal %r, a hit there has %r' % (
                s['k'], p, n, want.tolist()))
        return True

    @staticmethod
    def judge_mc(o, v, pre):
        _, k, u1, u2, g, ct, w = o
        bad = lambda t: Violation(pre + 'wrong-transform', '%s sampled by (%r, %r) gives %r: %s' % (k, u1, u2, v, t))
        if k in ('disk', 'concentric', 'reject'):
            if v[0] ** 2 + v[1] ** 2 > 1. + 1e-9:
                raise bad('outside the disk')
            return
        if k == 'triangle':
            if min(v[0], v[1], 1. - v[0] - v[1]) < -1e-9:
                raise bad('outside the triangle')
            return
        if abs(math.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2) - 1.) > 1e-6:
            raise bad('not a unit vector')
        wv = np.array(w) / np.linalg.norm(w)
        c = wv.dot(v[:3]) if k in ('cone-frame', 'hg') else v[2]
        if k in ('hemisphere', 'cosine') and v[2] < -1e-9:
            raise bad('below the plane')
        if k in ('cone', 'cone-frame') and c < ct - 1e-6:
            raise bad('outside the cone')
        want = {'sphere': .25 / math.pi, 'hemisphere': .5 / math.pi, 'cosine': max(c, 0.) / math.pi,
                'cone': .5 / (math.pi * (1. - ct)), 'cone-frame': .5 / (math.pi * (1. - ct)),
                'hg': (1. - g * g) / (1. + g * g - 2. * g * c) ** 1.5 / (4. * math.pi)}[k]
        if abs(v[3] - want) > 1e-5 * max(1., want):
            raise bad('density %r is reported, it is %r' % (v[3], want))

    # ---------------------------------------------------------------- sweeps
    def sweep(self, plan, one, run):
        """Each stratum of the draws once: frequencies follow the density."""
        o = plan['sweep']
        k, rng = o[0], run.rng
        run.probe('sweeps')
        run.nontrivial = True
        with np.errstate(all='ignore'):
            if k in ('d1', 'd1i'):
                t, n = plan['d1'][o[1]], 200
                cnt = np.zeros(len(t))
                frac = []
                for i in range(n):
                    x = one([k, o[1], (i + rng.random()) / n])[0]
                    cnt[min(int(x * len(t)), len(t) - 1) if k == 'd1' else x] += 1
                    frac.append(x * len(t) % 1.)
                d = np.abs(cnt / n - np.array(t) / sum(t)).max()
                if d > 2.1 / n:
                    raise Violation('wrong-distribution', 'a table %r is sampled with frequencies %r' % (
                        t, (cnt / n).tolist()))
                if k == 'd1' and abs(sum(frac) / n - .5) > .02 * len(t):
                    raise Violation('wrong-distribution', 'samples of %r lie at %r of their steps on average' % (
                        t, sum(frac) / n))
                return
            n = 16
            if k == 'd2':
                m = np.array(plan['d2'][o[1]])
                cnt = np.zeros(m.shape)
                fr = np.zeros(2)
                for i in range(n):
                    for j in range(n):
                        u, v, p, q = one(['d2', o[1], (i + rng.random()) / n, (j + rng.random()) / n])
                        x, y = u * m.shape[1], v * m.shape[0]
                        cnt[min(int(y), m.shape[0] - 1), min(int(x), m.shape[1] - 1)] += 1
                        fr += [x % 1., y % 1.]
                if np.abs(cnt / n ** 2 - m / m.sum()).max() > 4.5 / n:
                    raise Violation('wrong-distribution', 'a table %r is sampled with frequencies %r' % (
                        m.tolist(), (cnt / n ** 2).tolist()))
                if np.abs(fr / n ** 2 - .5).max() > .25:
                    raise Violation('wrong-distribution', 'samples of %r lie at %r of their cells on average' % (
                        m.tolist(), (fr / n ** 2).tolist()))
                return
            pts = []
            for i in range(n):
                for j in range(n):
                    a, b = (i + rng.random()) / n, (j + rng.random()) / n
                    q = list(o)
                    q[2], q[3] = a, b
                    if k == 'set':
                        # the component draw is its own dimension
                        q[4] = ((i * n + j) * .6180339887 + .3) % 1.
                    elif k != 'mc':
                        q[4] = o[4]
                    pts.append(one(q))
            if k == 'mc':
                return self.sweep_mc(o, pts)
            s = plan['shapes'][o[1]]
            if k == 'set' or (k == 'area' and s['k'] != 'tris'):
                part = s
            else:
                i = int(o[4] * max(1, len(s.get('idx', ())) // 3)) if s['k'] == 'tris' else 0
                part = dict(s, idx=s['idx'][3 * i:3 * i + 3]) if s['k'] == 'tris' else s
            if k == 'seen' and S.whole(s):
                lp = S.to_local(s, o[5])
                r2 = lp.dot(lp) - s['r'] ** 2
                if abs(r2) < 1e-2:
                    return
                if r2 > 0.:
                    ax = S.matrix(s)[0].dot(-lp) / np.linalg.norm(lp)
                    cm = math.sqrt(max(0., 1. - s['r'] ** 2 / lp.dot(lp)))
                    d = np.array([p[0] for p in pts]) - np.array(o[5])
                    d /= np.sqrt((d * d).sum(axis=1))[:, None]
                    c = (d.dot(ax) - cm) / (1. - cm)
                    side = d - d.dot(ax)[:, None] * ax
                    dev = max(abs(c.mean() - .5), abs((c * c).mean() - 1. / 3), np.abs(side.mean(axis=0)).max())
                    if dev > .08:
                        raise Violation('wrong-distribution', 'a sphere seen from %r is not sampled evenly over its '
                                        'solid angle (%.3g)' % (o[5], dev))
                    return
            col = 3 if k == 'set' else 0
            x = np.array([p[col] for p in pts])
            q, nn, w = S.grid(part, 60)
            w = w / w.sum()
            m0 = (q * w[:, None]).sum(axis=0)
            scale = math.sqrt((((q - m0) ** 2).sum(axis=1) * w).sum())
            a, b = (x - m0) / scale, (q - m0) / scale
            dev = np.abs(a.mean(axis=0)).max()
            c1 = np.einsum('ij,ik->jk', a, a) / len(a)
            c2 = np.einsum('ij,ik,i->jk', b, b, w)
            dev = max(dev, np.abs(c1 - c2).max())
            run.notes['dev'] = float(dev)
            if dev > (.12 if k == 'set' else .06):
                raise Violation('wrong-distribution', 'a %s is not sampled evenly over its area (moments differ by '
                                '%.3g)' % (s['k'], dev))

    @staticmethod
    def sweep_mc(o, pts):
        _, k, u1, u2, g, ct, w = o
        x = np.array(pts)
        if k == 'reject':
            m, want, tol = [(x[:, 0] ** 2 + x[:, 1] ** 2).mean(), x[:, 0].mean(), x[:, 1].mean()], [.5, 0., 0.], .15
        elif k in ('disk', 'concentric'):
            m = [(x[:, 0] ** 2).mean(), (x[:, 1] ** 2).mean(), x[:, 0].mean(), x[:, 1].mean(),
                 (x[:, 0] * x[:, 1]).mean()]
            want, tol = [.25, .25, 0., 0., 0.], .03
        elif k == 'triangle':
            m = [x[:, 0].mean(), x[:, 1].mean(), (x[:, 0] ** 2).mean(), (x[:, 1] ** 2).mean()]
            want, tol = [1. / 3, 1. / 3, 1. / 6, 1. / 6], .03
        else:
            wv = np.array(w) / np.linalg.norm(w)
            c = x[:, :3].dot(wv) if k in ('cone-frame', 'hg') else x[:, 2]
            ax = wv if k in ('cone-frame', 'hg') else np.array([0., 0., 1.])
            side = x[:, :3] - c[:, None] * ax
            m = [c.mean(), (c * c).mean()] + np.abs(side.mean(axis=0)).tolist()
            want = {'sphere': [0., 1. / 3], 'hemisphere': [.5, 1. / 3], 'cosine': [2. / 3, .5],
                    'cone': [(1. + ct) / 2., (1. + ct + ct * ct) / 3.],
                    'cone-frame': [(1. + ct) / 2., (1. + ct + ct * ct) / 3.],
                    'hg': [g, (1. + 2. * g * g) / 3.]}[k] + [0.] * 3
            tol = .04
        if np.abs(np.array(m) - np.array(want)).max() > tol:
            raise Violation('wrong-distribution', '%s samples have moments %r, their density has %r' % (
                k, [round(float(v), 4) for v in m], want))


CHECK = C16
