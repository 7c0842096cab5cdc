"""Procedural textures give the value of their definition at every point."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, texlib as T, shapelib as S


class UserFault(Exception):
    pass


class C23(Check):
    id = 'C23'
    quick = 1100
    thorough = 40000
    focus = ('texture/texture/__init__.py', 'texture/texturemap/__init__.py', 'texture/utility.py')
    fault_kinds = ('memory', 'interrupt', 'failing sub-textures')
    real = ('procedural textures', 'noise', 'texture mappings', 'geometry/transform', 'spectra')
    stub = ('shading points (made by the check)', 'user textures', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-3 texture trees that share mappings and sub-textures, 2-4 shading points, and 1-4 tasks that '
            'evaluate textures and mappings at shared points, with failing sub-textures and statements, under one '
            'schedule; non-trivial: two tasks interleaved or a failure injected; distinct by schedule, textures and '
            'fault sites')
    assumptions = ('points within 1e-6 of an edge of a pattern or of the seam of a mapping are not judged',
                   'footprints of spherical and cylindrical mappings are first-order approximations')
    mods = ('pytracer.texture', 'pytracer.texture.texturemap', 'pytracer.data.noise')

    def gen(self, rng, tier):
        maps = [T.gen_map(rng) for _ in range(rng.choice([1, 2, 3]))]
        places = [T.gen_place(rng) for _ in range(rng.choice([1, 2]))]
        user = .25 if rng.random() < .3 else 0.
        tex = [T.gen(rng, rng.random() < .6, maps, places, 2, user) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < .5:
            # a relative of a texture: the same but for something
            t = dict(rng.choice(tex))
            k = rng.choice(sorted(t))
            if k == 'm':
                t['m'] = rng.choice(maps)
            elif k == 'w':
                t['w'] = rng.choice(places)
            elif k == 'oct':
                t['oct'] = rng.choice([1, 2, 3, 6])
            elif k in ('om', 'sc', 'var'):
                t[k] = round(rng.uniform(.2, .8), 2)
            elif k in ('a', 'b'):
                t['a'], t['b'] = t['b'], t['a']
            elif k == 'aa':
                t['aa'] = 'none' if t['aa'] == 'closedform' else 'closedform'
            tex.append(t)
        pts = []
        for _ in range(rng.choice([2, 3, 4])):
            p = T.gen_point(rng)
            if pts and rng.random() < .4:
                # a relative of a point
                q = dict(rng.choice(pts))
                k = rng.choice(['p', 'p1', 'u', 'v', 'dp', 'duv'])
                if k == 'p1':
                    i = rng.randrange(3)
                    q['p'] = [p['p'][j] if j == i else x for j, x in enumerate(q['p'])]
                else:
                    for n in {'dp': ['dpdx', 'dpdy']}.get(k, [k]):
                        q[n] = p[n]
                p = q
            pts.append(p)
        round_ = [m for m in maps if m['k'] in ('sph', 'cyl')]
        if round_ and rng.random() < .5:
            # a point next to the seam of a mapping, with a footprint across it
            m = rng.choice(round_)
            a, c = S.matrix(m)
            q = np.array([rng.uniform(.8, 2.) * (1. if m['k'] == 'sph' else -1.), rng.uniform(-.003, .003),
                          rng.uniform(-1., 1.)])
            pts[0]['p'] = [round(float(x), 5) for x in np.linalg.solve(a, q - c)]
            for n in ('dpdx', 'dpdy'):
                pts[0][n] = [round(rng.uniform(-.15, .15), 3) for _ in range(3)]

        def op():
            z = rng.random()
            if z < .15:
                return ['map2', rng.randrange(len(maps)), rng.randrange(len(pts))]
            if z < .2:
                return ['map3', rng.randrange(len(places)), rng.randrange(len(pts))]
            return ['tex', rng.randrange(len(tex)), rng.randrange(len(pts))]
        p = {'maps': maps, 'places': places, 'tex': tex, 'pts': pts, 'spoil': rng.random() < .5,
             'threads': [[op() for _ in range(rng.choice([2, 4, 6]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .15:
            p['mem'] = {'p': rng.choice([.002, .01]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt']])}
        return p

    @staticmethod
    def geometry(g):
        import pytracer.geometry as geo
        from pytracer.geometry.diffgeom import DifferentialGeometry
        dg = DifferentialGeometry(geo.Point(*g['p']), geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
                                  geo.Normal(0., 0., 0.), geo.Normal(0., 0., 0.), g['u'], g['v'], None)
        dg.dpdx, dg.dpdy = geo.Vector(*g['dpdx']), geo.Vector(*g['dpdy'])
        dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = g['duv']
        return dg

    def execute(self, plan, run):
        import pytracer.texture.texturemap as tm
        from pytracer.texture.texture import Texture
        left = {}

        class User(Texture):
            def __init__(self, t, v):
                self.v, self.n = v, t['fail']

            def __call__(self, dg):
                if self.n > 0:
                    self.n -= 1
                    run.faults['failing sub-texture'] = run.faults.get('failing sub-texture', 0) + 1
                    raise UserFault()
                return self.v
        memo = {}
        tex = [T.build(t, User, memo) for t in plan['tex']]
        m2 = [T.build_map(m) for m in plan['maps']]
        m3 = [tm.IdentityMapping3D(S.transform(w)) for w in plan['places']]
        pts = [self.geometry(g) for g in plan['pts']]
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt, UserFault)

        def one(o):
            k, i, j = o
            if k == 'tex':
                v = tex[i](pts[j])
                if isinstance(v, np.ndarray) and v.ndim:
                    r = [float(x) for x in v]
                    if plan['spoil'] and plan['tex'][i]['k'] not in ('const', 'user', 'check2', 'check3', 'dots'):
                        v *= 0.          # the value belongs to the caller
                    return r
                return float(v)
            r = (m2 if k == 'map2' else m3)[i](pts[j])
            return [[float(y) for y in x] if isinstance(x, np.ndarray) and x.ndim else float(x) for x in r]

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/texture/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults)
        if s.outcome:
            raise Violation('no-progress', 'evaluation does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        user = run.faults.get('failing sub-texture', 0)
        if len(errs) > len(s.fault_log) + user:
            raise Violation('spurious-error', '%d evaluations failed, %d failures injected' % (
                len(errs), len(s.fault_log) + user))
        n = sum(self.judge(plan, o, v) for o, v in got)
        run.probe('judged', n)
        for o in [o for o, _ in errs] + [ops[0] for ops in plan['threads']]:
            for _ in range(40):
                try:
                    with np.errstate(all='ignore'):
                        v = one(o)
                    self.judge(plan, o, v, 'later-')
                    break
                except UserFault:
                    continue
        for g, dg in zip(plan['pts'], pts):
            f = lambda v: [float(v.x), float(v.y), float(v.z)]
            now = {'p': f(dg.p), 'u': dg.u, 'v': dg.v, 'dpdx': f(dg.dpdx), 'dpdy': f(dg.dpdy),
                   'duv': [dg.dudx, dg.dvdx, dg.dudy, dg.dvdy]}
            if now != g:
                raise Violation('point-changed', 'evaluation turned the shading point %r into %r' % (g, now))
        run.nontrivial = s.switches > len(plan['threads']) or bool(s.fault_log)
        run.keys = [[t['k'] for t in plan['tex']], [[o[:2] for o in t] for t in plan['threads']]]

    @staticmethod
    def judge(plan, o, v, pre=''):
        k, i, j = o
        g = plan['pts'][j]
        err = []
        tol = 1e-6
        try:
            if k == 'map2':
                s, t, d, c = T.at(plan['maps'][i], g)
                want = [s, t] + (d or [])
                tol = [1e-6, 1e-6] + [1e-6 + c * max(map(abs, d))] * 4 if d else 1e-6
                v = v[:len(want)]
                what = 'mapping %r' % (plan['maps'][i],)
            elif k == 'map3':
                want = [x for e in T.at3(plan['places'][i], g) for x in e]
                v = [x for e in v for x in e]
                what = 'mapping %r' % (plan['places'][i],)
            else:
                want = T.value(plan['tex'][i], g, err)
                tol = 1e-6 + sum(err)
                what = 'texture %r' % (plan['tex'][i],)
        except T.Doubt:
            return 0
        a, b = np.array(v, dtype=float), np.array(want, dtype=float)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= np.array(tol) * np.maximum(1., np.abs(b))):
            raise Violation(pre + ('wrong-mapping' if k != 'tex' else 'wrong-value-' + plan['tex'][i]['k']),
                            '%s at %r gives %r, it is %r' % (what, g, v, b.tolist()))
        return 1


CHECK = C23
