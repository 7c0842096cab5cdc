"""A hit describes the surface that was hit."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, shapelib as S


def alpha_of(n):
    def tex(dg):
        return float(S.alpha_value(n, float(dg.u), float(dg.v)))
    return tex


class C20(Check):
    id = 'C20'
    quick = 2200
    thorough = 40000
    focus = ('shape/', 'geometry/diffgeom.py', 'aggregate/primitive.py', 'aggregate/intersection.py')
    fault_kinds = ('memory', 'interrupt')
    real = ('spheres, disks, cylinders, triangles (whole, partial, scaled, mirrored, reversed)', 'primitives',
            'differential geometry', 'shading geometry', 'geometry/transform')
    stub = ('threading primitives (simulated)', 'materials and alpha textures (tokens)', 'OS scheduler')
    rule = ('a case is 1-3 placed shapes or meshes (partial, scaled, mirrored, reversed; meshes with own parameters, '
            'normals, tangents or alpha masks) and 1-4 tasks that intersect rays with them through shapes or '
            'primitives, with failing statements, under one schedule; non-trivial: two tasks interleaved or a failure '
            'injected; distinct by schedule, shapes and fault sites')
    assumptions = ('rays that graze a shape, an edge, a pole or their own end points within the tolerance are not '
                   'judged', 'derivatives of normals are judged for rigidly placed, unreversed quadrics')
    mods = ('pytracer.aggregate', 'pytracer.shape')

    @staticmethod
    def described(rng, s):
        """The mesh is given as named parameters, as a scene file does."""
        v = s['via'] = {'flat': rng.random() < .5, 'st': rng.random() < .3, 'discard': rng.random() < .5}
        if s.get('uv') and rng.random() < .5:
            # two corners of one triangle at one place of the texture
            u = list(s['uv'])
            i = 3 * rng.randrange(len(s['idx']) // 3)
            a, b = rng.sample(s['idx'][i:i + 3], 2)
            u[2 * a:2 * a + 2] = u[2 * b:2 * b + 2]
            if v['discard'] and s.get('N'):
                s['lost'] = u
                del s['uv']
        if rng.random() < .2:
            v['bad'] = rng.choice(['uv', 'N', 'S', 'index', 'corners', 'coords', 'alpha'])

    def gen(self, rng, tier):
        shapes = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = S.gen(rng, scale=.3, partial=.6, uv=.6)
            if s['k'] == 'tris':
                n = len(s['P'])
                if rng.random() < .5:
                    s['N'] = [[round(rng.uniform(-.4, .4), 2), round(rng.uniform(-.4, .4), 2), 1.] for _ in range(n)]
                if rng.random() < .4:
                    s['S'] = [[1., round(rng.uniform(-.4, .4), 2), round(rng.uniform(-.2, .2), 2)] for _ in range(n)]
                if rng.random() < .3:
                    s['alpha'] = rng.choice([1, 2, 4])
                if rng.random() < .5:
                    self.described(rng, s)
            shapes.append(s)
        hot = rng.random() < .25
        if hot:
            # one mesh with parameters of its own, met by everyone
            while True:
                s = S.gen(rng, partial=0., uv=1.)
                if s['k'] == 'tris' and len(s['idx']) >= 6 and s.get('uv'):
                    break
            shapes = [s]

        def ray(i):
            if hot:
                t = rng.randrange(len(s['idx']) // 3)
                b = [rng.uniform(.1, 1.) for _ in range(3)]
                q = sum(x * np.array(s['P'][j]) for x, j in zip(b, s['idx'][3 * t:3 * t + 3])) / sum(b)
                m, c = S.matrix(s)
                c = m.dot(q) + c
                o = c + [rng.uniform(-3., 3.) for _ in range(3)]
                d = c - o
                return {'o': [round(float(x), 4) for x in o], 'd': [round(float(x), 4) for x in d], 'mint': 0.,
                        'maxt': None, 't': t}
            c = np.array(shapes[i]['c']) + [rng.uniform(-.9, .9) for _ in range(3)]
            o = np.array([rng.uniform(-4, 4) for _ in range(3)]) if rng.random() < .7 else \
                np.array(shapes[i]['c']) + [rng.uniform(-.5, .5) for _ in range(3)]
            d = c - o
            ln = np.linalg.norm(d)
            if ln < .1:
                d, ln = np.array([0., 0., 1.]), 1.
            d = d / ln * rng.choice([1., 1., .3, 2.5])
            r = {'o': [round(float(x), 4) for x in o], 'd': [round(float(x), 4) for x in d],
                 'mint': rng.choice([0., 1e-3, 1e-3, round(rng.uniform(.1, 3.), 3)]),
                 'maxt': rng.choice([None, None, round(rng.uniform(1., 8.), 3)])}
            if rng.random() < .4:
                r['dx'] = [[round(rng.uniform(-.05, .05), 3) for _ in range(3)] for _ in range(4)]
            return r
        pool = [(i, ray(i)) for i in range(len(shapes)) for _ in range(2)]

        def op():
            i = rng.randrange(len(shapes))
            if rng.random() < .4:
                i, r = rng.choice(pool)
            else:
                r = ray(i)
            return [rng.choice(['shape', 'prim', 'shadow']), i, r.get('t', rng.randrange(3)), r]
        p = {'shapes': shapes, 'threads': [[op() for _ in range(rng.choice([2, 3, 5]))]
                                           for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .25:
            p['mem'] = {'p': rng.choice([.003, .01]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt'], ['memory', 'interrupt']])}
        return p

    def execute(self, plan, run):
        import pytracer.geometry as geo
        from pytracer.aggregate import GeometricPrimitive, Intersection
        from pytracer.geometry.diffgeom import DifferentialGeometry
        shapes = [S.build(s, alpha_of(s['alpha']) if s.get('alpha') else None) for s in plan['shapes']]
        for s in plan['shapes']:
            if s.get('via', {}).get('bad'):
                try:
                    S.described(s, shapes[0].o2w, shapes[0].w2o, None, s['via']['bad'])
                except RuntimeError:
                    run.probe('meshes_refused')
                    continue
                raise Violation('mesh-accepted', 'a mesh is made although its parameters do not fit: %s of %r' % (
                    s['via']['bad'], s))
        subs = [sh.refine() if s['k'] == 'tris' else [sh] for s, sh in zip(plan['shapes'], shapes)]
        prims = [[GeometricPrimitive(x, None) for x in sub] for sub in subs]
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]

        def mk(r):
            o, d = geo.Point(*r['o']), geo.Vector(*r['d'])
            maxt = float('inf') if r['maxt'] is None else r['maxt']
            ray = geo.RayDifferential(o, d, r['mint'], maxt)
            if r.get('dx'):
                ray.has_differentials = True
                e = [geo.Vector(*x) for x in r['dx']]
                ray.rxOrigin, ray.ryOrigin = o + e[0], o + e[1]
                ray.rxDirection, ray.ryDirection = d + e[2], d + e[3]
            return ray

        def descr(dg):
            return {'p': flt(dg.p), 'n': flt(dg.nn), 'u': float(dg.u), 'v': float(dg.v), 'dpdu': flt(dg.dpdu),
                    'dpdv': flt(dg.dpdv), 'dndu': flt(dg.dndu), 'dndv': flt(dg.dndv),
                    'dpdx': flt(dg.dpdx), 'dpdy': flt(dg.dpdy),
                    'd': [float(x) for x in (dg.dudx, dg.dvdx, dg.dudy, dg.dvdy)]}

        def one(o):
            k, i, j, r = o
            j %= len(subs[i])
            ray = mk(r)
            if k == 'shadow':
                h = bool(subs[i][j].intersect_p(ray))
                return {'hit': h, 'o': flt(ray.o), 'dir': flt(ray.d), 'maxt': float(ray.maxt)}
            if k == 'shape':
                h, t, e, dg = subs[i][j].intersect(ray)
                res = {'hit': bool(h), 'o': flt(ray.o), 'dir': flt(ray.d), 'maxt': float(ray.maxt)}
                if h:
                    res.update(t=float(t), eps=float(e), own=dg.shape is subs[i][j], **descr(dg))
                return res
            isect = Intersection()
            h = bool(prims[i][j].intersect(ray, isect))
            res = {'hit': h, 'o': flt(ray.o), 'dir': flt(ray.d), 'maxt': float(ray.maxt)}
            if h:
                isect.dg.compute_differential(ray)
                sg = subs[i][j].get_shading_geometry(isect.o2w, isect.dg)
                ids = isect.primitive is prims[i][j] and isect.shapeId == subs[i][j].shapeId and \
                    isect.primitiveId == prims[i][j].primitiveId
                res.update(t=float(ray.maxt), eps=float(isect.rEps), own=ids and isect.dg.shape is subs[i][j],
                           shading=descr(sg), copy=descr(isect.dg.copy()), **descr(isect.dg))
            return res

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/shape/' in x[0] or 'diffgeom' in x[0]
                                or 'primitive.py' in x[0]], 'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults)
        if s.outcome:
            raise Violation('no-progress', 'a query does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > len(s.fault_log):
            raise Violation('spurious-error', '%d queries failed, %d failures injected' % (len(errs), len(s.fault_log)))
        n = 0
        for o, v in got:
            n += self.judge(plan, o, v)
        for o, _ in got[:3] + errs:
            with np.errstate(all='ignore'):
                self.judge(plan, o, one(o), 'later-')
        run.probe('queries', len(got))
        run.probe('hits_judged', n)
        run.nontrivial = s.switches > len(plan['threads']) or bool(s.fault_log)
        run.keys = [[s_['k'] for s_ in plan['shapes']], [[o[:3] for o in t] for t in plan['threads']]]

    @staticmethod
    def judge(plan, o, v, pre=''):
        k, i, j, r = o
        s = plan['shapes'][i]
        if s['k'] == 'tris':
            j %= len(s['idx']) // 3
            s = dict(s, idx=s['idx'][3 * j:3 * j + 3])
        maxt = float('inf') if r['maxt'] is None else r['maxt']
        what = '%s of %r with %r' % (k, {a: b for a, b in s.items() if b}, r)
        if v['o'] != r['o'] or v['dir'] != r['d']:
            raise Violation(pre + 'ray-changed', '%s: the ray is now %r %r' % (what, v['o'], v['dir']))
        ref = S.first(s, r['o'], r['d'], r['mint'], maxt, alpha=s.get('alpha'))
        if ref[0] == 'doubt':
            return 0
        if v['hit'] != (ref[0] == 'hit'):
            raise Violation(pre + 'wrong-hit', '%s reports %s, the answer is %s' % (
                what, 'a hit' if v['hit'] else 'no hit', ref[0]))
        if v['maxt'] != maxt and not (k == 'prim' and v['hit']):
            raise Violation(pre + 'ray-changed', '%s: the ray now ends at %r' % (what, v['maxt']))
        if k == 'shadow' or not v['hit']:
            return 1
        _, t, q, tri = ref
        m, c = S.matrix(s)
        if not v['own']:
            raise Violation(pre + 'wrong-owner', '%s: the hit names another shape or primitive' % what)
        if abs(v['t'] - t) > 1e-6 * max(1., t):
            raise Violation(pre + 'wrong-distance', '%s hits at %r, it is %r' % (what, v['t'], t))
        if not 0. < v['eps'] <= .05 * max(t, 1e-3):
            raise Violation(pre + 'wrong-epsilon', '%s at %r has error tolerance %r' % (what, t, v['eps']))

        def cmp(name, a, b, tol=1e-6, at=''):
            b = np.asarray(b, dtype=float)
            if not np.all(np.abs(np.asarray(a) - b) <= tol * max(1., np.abs(b).max())):
                raise Violation(pre + 'wrong-' + name, '%s%s: %s is %r, it is %r' % (what, at, name, a, b.tolist()))
        p = m.dot(q) + c
        cmp('point', v['p'], p, 2e-5)
        n = S.normal(s, q, tri)
        if s['k'] in ('sphere', 'disk') and math.hypot(q[0], q[1]) < .02:
            return 1          # a pole: the parameters have no derivatives there
        cmp('normal', v['n'], n, 1e-5)
        uv, du, dv, nu, nv = S.param(s, q, tri)
        cmp('parameters', [v['u'], v['v']], uv, 1e-6)
        cmp('derivatives', v['dpdu'], m.dot(du), 1e-5)
        cmp('derivatives', v['dpdv'], m.dot(dv), 1e-5)
        turn = -1. if s['ro'] else 1.
        if s['k'] == 'tris' or not s.get('sc'):
            cmp('normal-derivatives', v['dndu'], m.dot(nu) * turn, 1e-4)
            cmp('normal-derivatives', v['dndv'], m.dot(nv) * turn, 1e-4)
        if k != 'prim':
            return 1
        # footprints
        if r.get('dx'):
            e = np.array(r['dx'])
            oo, dd = np.array(r['o']), np.array(r['d'])
            for a, b, nm, l in ((e[0], e[2], 'dpdx', 0), (e[1], e[3], 'dpdy', 2)):
                den = n.dot(dd + b)
                if abs(den) < .05:
                    continue
                tt = n.dot(p - oo - a) / den
                w = oo + a + tt * (dd + b) - p
                cmp('footprint', v[nm], w, 1e-4)
                U, V = m.dot(du), m.dot(dv)
                if np.linalg.norm(np.cross(U, V)) > .05 * np.linalg.norm(U) * np.linalg.norm(V):
                    cmp('footprint', (U * v['d'][l] + V * v['d'][l + 1]).tolist(), w, 1e-3)
        elif any(v['d']) or any(v['dpdx']) or any(v['dpdy']):
            raise Violation(pre + 'wrong-footprint', '%s: a ray without differentials has a footprint %r' % (what, v['d']))
        cp = v['copy']
        if any(cp[x] != v[x] for x in cp):
            raise Violation(pre + 'wrong-copy', '%s: a copy of the hit is %r, not %r' % (what, cp, v))
        # shading
        g = v['shading']
        cmp('shading-point', g['p'] + [g['u'], g['v']], v['p'] + [v['u'], v['v']], 1e-9)
        for x in ('dpdx', 'dpdy', 'd'):
            cmp('shading-footprint', g[x], v[x], 1e-9)
        if s.get('N') or s.get('S'):
            ns, nd = S.shading(s, q, tri)
            cmp('shading-normal', g['n'], ns if s.get('N') else n, 1e-5)
            if s.get('S'):
                ss = m.dot(S.interp(s, q, tri, 'S'))
                ss = ss - np.dot(g['n'], ss) * np.array(g['n'])
                if np.linalg.norm(ss) > .05:
                    ss = ss / np.linalg.norm(ss)
                    cmp('shading-tangent', g['dpdu'], ss * (1. if ss.dot(g['dpdu']) > 0. else -1.), 1e-5)
            if s.get('N') and not s.get('sc'):
                cmp('shading-derivatives', g['dndu'], m.dot(nd[0]) * turn, 1e-5)
                cmp('shading-derivatives', g['dndv'], m.dot(nd[1]) * turn, 1e-5)
            if abs(np.dot(g['dpdu'], g['n'])) > 1e-6 or abs(np.dot(g['dpdv'], g['n'])) > 1e-6:
                raise Violation(pre + 'wrong-shading-tangent', '%s: tangents %r %r do not lie across the shading '
                                'normal %r' % (what, g['dpdu'], g['dpdv'], g['n']))
        else:
            cmp('shading-normal', g['n'], n, 1e-5)
            cmp('shading-tangent', g['dpdu'], v['dpdu'], 1e-9)
        return 1


CHECK = C20
