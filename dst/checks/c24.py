"""A bump map tilts the shading frame as the displaced surface does."""
import math
import time

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, shapelib as S


class TextureDown(Exception):
    pass


class C24(Check):
    id = 'C24'
    quick = 1500
    thorough = 60000
    focus = ('material/material.py', 'geometry/diffgeom.py', 'geometry/utility.py', 'reflection/bsdf.py')
    fault_kinds = ('texture that fails', 'memory', 'interrupt')
    real = ('materials', 'bump mapping', 'shading points', 'BSDF', 'geometry/transform')
    stub = ('bump and colour textures (functions of the shading point)', 'shading points (made by the check)',
            'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-3 bump mapped materials that share bump maps, 1-3 shading points on whole, mirrored and '
            'reversed shapes, and 1-4 tasks that make and query scattering functions of them, with failing textures '
            'and statements, under one schedule; non-trivial: two tasks interleaved or a failure injected; distinct '
            'by schedule, materials and fault sites')
    assumptions = ('displacements are linear along each parameter, so that every difference step gives the derivative',
                   'displaced normals within .05 of the tangent plane are not judged')
    mods = ('pytracer.material', 'pytracer.reflection', 'pytracer.texture', 'pytracer.shape')
    KINDS = ['matte', 'matte', 'mirror', 'glass', 'uber', 'mix']

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    def gen(self, rng, tier):
        v = lambda s: [round(rng.uniform(-s, s), 3) for _ in range(3)]

        def bump():
            if rng.random() < .6:
                # a + b u + c v + d u v
                return {'k': 'uv', 'c': [round(rng.uniform(-.3, .3), 3) for _ in range(4)]}
            return {'k': 'p', 'c': [round(rng.uniform(-.3, .3), 3)] + v(.3)}
        bumps = [bump() for _ in range(rng.choice([1, 1, 2]))]
        mats = [{'k': rng.choice(self.KINDS), 'b': rng.randrange(len(bumps)),
                 'K': [round(rng.uniform(.1, .9), 3) for _ in range(3)],
                 'u': round(rng.uniform(-.2, .2), 2)} for _ in range(rng.choice([1, 2, 3]))]

        def point():
            while True:
                du, dv = v(1.5), v(1.5)
                if np.linalg.norm(np.cross(du, dv)) > .5:
                    break
            flip = [rng.random() < .3, rng.random() < .3]
            plain = rng.random() < .6
            n = np.cross(du, dv)
            n = n / np.linalg.norm(n) * (-1. if flip[0] != flip[1] else 1.)
            while True:
                g = n + [rng.uniform(-.5, .5) for _ in range(3)]
                g /= np.linalg.norm(g)
                if g.dot(n) > .2:
                    break
            g = g * rng.choice([1., 1., -1.])
            p = {'p': v(2.), 'u': round(rng.uniform(-1, 2), 3), 'v': round(rng.uniform(-1, 2), 3), 'du': du, 'dv': dv,
                 'nu': v(.5) if plain else [0.] * 3, 'nv': v(.5) if plain else [0.] * 3, 'flip': flip,
                 'ng': [round(float(x), 5) for x in g]}
            p['duv'] = [round(rng.uniform(-.2, .2), 3) for _ in range(4)] if rng.random() < .5 else [0.] * 4
            if rng.random() < .15:
                p['duv'][rng.randrange(4)] = 0.
                p['duv'][1] = p['duv'][3] = 0.
            return p
        pts = []
        for _ in range(rng.choice([1, 2, 3])):
            p = point()
            if pts and rng.random() < .5:
                # a relative: the same but for something
                q = dict(rng.choice(pts))
                for k in rng.sample(['p', 'uv', 'duv'], rng.choice([1, 1, 2])):
                    q.update({'u': p['u'], 'v': p['v']} if k == 'uv' else {k: p[k]})
                p = q
            pts.append(p)

        def dirn():
            while True:
                d = v(1.)
                if .2 < np.linalg.norm(d):
                    return d
        op = lambda: [rng.randrange(len(mats)), rng.randrange(len(pts)), dirn(), dirn()]
        p = {'bumps': bumps, 'mats': mats, 'pts': pts, 'down': [],
             'threads': [[op() for _ in range(rng.choice([1, 2, 4]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .2:
            p['down'] = sorted({rng.randrange(1, 25) for _ in range(rng.choice([1, 2]))})
        if rng.random() < .2:
            p['mem'] = {'p': rng.choice([.003, .01]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt']])}
        return p

    @staticmethod
    def disp(b, u, v, p):
        c = b['c']
        if b['k'] == 'uv':
            return c[0] + c[1] * u + c[2] * v + c[3] * u * v
        return c[0] + sum(x * y for x, y in zip(c[1:], p))

    def execute(self, plan, run):
        import pytracer.geometry as geo
        import pytracer.material as mt
        from pytracer import Spectrum
        from pytracer.geometry.diffgeom import DifferentialGeometry
        from pytracer.reflection import BSDFSample
        from pytracer.reflection.bdf.bdf import BDFType
        st = {'n': 0, 'hit': 0}

        def visit():
            st['n'] += 1
            if st['n'] in plan['down']:
                st['hit'] += 1
                raise TextureDown()
            time.sleep(0)

        class Bump(object):
            def __init__(self, b):
                self.b = b

            def __call__(self, dg):
                visit()
                C24.shifted(dgs[doing[sim.S.cur and sim.S.cur.name]][1], dg, wrong)
                return C24.disp(self.b, dg.u, dg.v, [float(x) for x in dg.p])

        class Colour(object):
            def __init__(self, K, s):
                self.K, self.s = K, s

            def __call__(self, dg):
                visit()
                return Spectrum([k * (1. + self.s * math.tanh(dg.u) + self.s * math.tanh(dg.p.x)) for k in self.K])

        class Num(object):
            def __init__(self, x):
                self.x = x

            def __call__(self, dg):
                return self.x
        bumps = [Bump(b) for b in plan['bumps']]
        black = lambda dg: Spectrum(0.)
        white = lambda dg: Spectrum(1.)

        def make(m):
            b, K = bumps[m['b']], Colour(m['K'], m['u'])
            return {'matte': lambda: mt.MatteMaterial(K, Num(0.), b), 'mirror': lambda: mt.MirrorMaterial(K, b),
                    'glass': lambda: mt.GlassMaterial(K, black, Num(1.5), b),
                    'uber': lambda: mt.UberMaterial(K, black, black, black, Num(.1), white, Num(1.5), b),
                    'mix': lambda: mt.MixMaterial(mt.MatteMaterial(K, Num(0.), b), mt.MatteMaterial(K, Num(0.), b),
                                                  lambda dg: Spectrum(.25))}[m['k']]()
        mats = [make(m) for m in plan['mats']]
        flt = lambda a: [float(x) for x in a]

        def shape(flip):
            s = {'k': 'sphere', 'c': [0., 0., 0.], 'r': 1., 'rot': None, 'mirror': flip[1], 'ro': flip[0], 'z0': -1.,
                 'z1': 1., 'pm': 360.}
            return S.build(s)
        dgs = []
        for g in plan['pts']:
            d = DifferentialGeometry(geo.Point(*g['p']), geo.Vector(*g['du']), geo.Vector(*g['dv']),
                                     geo.Normal(*g['nu']), geo.Normal(*g['nv']), g['u'], g['v'], shape(g['flip']))
            d.dudx, d.dvdx, d.dudy, d.dvdy = g['duv']
            t, b = np.cross(g['ng'], [.3, .5, .8]), None
            b = np.cross(g['ng'], t)
            gg = DifferentialGeometry(geo.Point(*g['p']), geo.Vector(*t), geo.Vector(*b), geo.Normal(0., 0., 0.),
                                      geo.Normal(0., 0., 0.), g['u'], g['v'], None)
            gg.nn = geo.Normal(*g['ng'])
            dgs.append((gg, d))
        before = [self.state(d) for p in dgs for d in p]
        self.given = [[np.array([float(x) for x in a]) for a in (d.dndu, d.dndv)] for _, d in dgs]
        got, errs, wrong, doing = [], [], [], {}
        inj = (sim.InjectedFault, sim.InjectedInterrupt, TextureDown)

        def one(o):
            i, j, wo, wi = o
            doing[sim.S.cur and sim.S.cur.name] = j
            b = mats[i].get_bsdf(*dgs[j])
            wo, wi = geo.normalize(geo.Vector(*wo)), geo.normalize(geo.Vector(*wi))
            if plan['mats'][i]['k'] in ('mirror', 'glass'):
                pdf, w, kind, f = b.sample_f(wo, BSDFSample(.3, .6, .4), BDFType.ALL)
                return [float(pdf), None if w is None else flt(w), flt(f)]
            return [float(b.pdf(wo, wi)), flt(b.f(wo, wi)), None]

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/material/' in x[0] or 'diffgeom' in x[0]
                                or 'geometry/utility' in x[0]], 'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults)
        if s.outcome:
            raise Violation('no-progress', 'a material does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if st['hit']:
            run.faults['texture that fails'] = run.faults.get('texture that fails', 0) + st['hit']
        if len(errs) > len(s.fault_log) + st['hit']:
            raise Violation('spurious-error', '%d calls failed, %d failures injected' % (
                len(errs), len(s.fault_log) + st['hit']))
        plan_down, plan['down'] = plan['down'], []
        try:
            n = sum(self.judge(plan, o, v) for o, v in got)
            for o in [o for o, _ in errs] + [t[0] for t in plan['threads']]:
                with np.errstate(all='ignore'):
                    self.judge(plan, o, one(o), 'later-')
        finally:
            plan['down'] = plan_down
        if wrong:
            raise Violation('wrong-shifted-point', wrong[0])
        if [self.state(d) for p in dgs for d in p] != before:
            raise Violation('point-changed', 'a material changed a shading point')
        run.probe('judged', n)
        run.nontrivial = s.switches > len(plan['threads']) or bool(s.fault_log)
        run.keys = [[m['k'] for m in plan['mats']], [[o[:2] for o in t] for t in plan['threads']]]

    @staticmethod
    def shifted(d, g, wrong):
        """what a bump map is shown: the point itself, or one near it on its tangent plane"""
        f = lambda a: np.array([float(x) for x in a])
        a, b = float(g.u) - d.u, float(g.v) - d.v
        n = a * f(d.dndu) + b * f(d.dndv)
        h = f(d.nn) + n
        e = np.abs(f(g.p) - f(d.p) - a * f(d.dpdu) - b * f(d.dpdv)).max()
        if e > 1e-6:
            wrong.append('%r is shown as %r, its shift by %r in u and %r in v is off by %r' % (
                C24.state(d), C24.state(g), a, b, float(e)))
        e = np.abs(f(g.nn) - h / np.linalg.norm(h)).max()
        if e > 2. * n.dot(n) + 1e-6:
            wrong.append('%r is shown with the normal %r, not %r' % (C24.state(d), f(g.nn).tolist(), h.tolist()))

    @staticmethod
    def state(d):
        f = lambda v: [float(x) for x in v]
        return [f(d.p), f(d.nn), f(d.dpdu), f(d.dpdv), f(d.dndu), f(d.dndv), d.u, d.v, d.dudx, d.dvdx, d.dudy, d.dvdy]

    def judge(self, plan, o, v, pre=''):
        i, j, wo, wi = o
        m, g = plan['mats'][i], plan['pts'][j]
        b = plan['bumps'][m['b']]
        du, dv, ng = np.array(g['du']), np.array(g['dv']), np.array(g['ng'])
        n = np.cross(du, dv)
        n = n / np.linalg.norm(n)
        if g['flip'][0] != g['flip'][1]:
            n = -n
        d = self.disp(b, g['u'], g['v'], g['p'])
        c = b['c']
        if b['k'] == 'uv':
            bu, bv = c[1] + c[3] * g['v'], c[2] + c[3] * g['u']
        else:
            bu, bv = du.dot(c[1:]), dv.dot(c[1:])
        nu, nv = self.given[j]
        x = du + bu * n + d * nu
        y = dv + bv * n + d * nv
        h = np.cross(x, y)
        if np.linalg.norm(h) < .05 or abs(h.dot(ng)) < .05 * np.linalg.norm(h):
            return 0
        h = h / np.linalg.norm(h) * (1. if h.dot(ng) > 0. else -1.)
        wo, wi = (np.array(w) / np.linalg.norm(w) for w in (wo, wi))
        a, e = h.dot(wo), h.dot(wi)
        ga, ge = ng.dot(wo), ng.dot(wi)
        if min(map(abs, (a, e, ga, ge))) < .02:
            return 0
        K = np.array(m['K']) * (1. + m['u'] * math.tanh(g['u']) + m['u'] * math.tanh(g['p'][0]))
        what = '%s with bump %r at %r' % (m['k'], b, g)
        if m['k'] in ('mirror', 'glass'):
            w = 2. * a * h - wo
            pdf, got, f = v
            if abs(ng.dot(w)) < .02:
                return 0
            if got is None or not np.allclose(got, w, atol=1e-6):
                raise Violation(pre + 'wrong-frame', '%s reflects %r to %r, about the displaced normal it is %r' % (
                    what, wo.tolist(), got, w.tolist()))
            return 1
        pdf, f, _ = v
        want = abs(e) / math.pi if a * e > 0. else 0.
        if abs(pdf - want) > 1e-6:
            raise Violation(pre + 'wrong-frame', '%s has density %r of %r, around the displaced normal it is %r' % (
                what, pdf, wi.tolist(), want))
        want = K / math.pi if ga * ge > 0. else 0. * K
        if np.abs(np.array(f) - want).max() > 1e-6:
            raise Violation(pre + 'wrong-value', '%s has value %r, it is %r' % (what, f, want.tolist()))
        return 1


CHECK = C24
