"""Moving and repeated objects: a hit at a time is a hit of the thing where it
is at that time."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, camlib, shapelib as S

SLACK = 2e-3


def gen_motion(rng):
    """World to object: a keyframed motion with sizes, or a place to stand."""
    m = camlib.gen_motion(rng, rng.choice([0., .8, 1.]))
    m['sc'] = [None, None]
    if rng.random() < .35:
        a = [round(rng.uniform(.6, 1.6), 2) for _ in range(3)]
        m['sc'] = [a, a if rng.random() < .3 else [round(rng.uniform(.6, 1.6), 2) for _ in range(3)]]
    if m['p'][0] == m['p'][1] and rng.random() < .3:
        m['sc'] = [[rng.choice([-1., 1.]) * round(rng.uniform(.6, 1.6), 2) for _ in range(3)]] * 2
    return m


def frame(m, time):
    """Matrix and offset of the motion at a time."""
    r, c = camlib.motion(m, time)
    if m['p'][0] == m['p'][1] and m['sc'][0] == m['sc'][1]:
        f = 0.
    else:
        f = min(1., max(0., (time - m['t'][0]) / (m['t'][1] - m['t'][0])))
    a, b = [np.array(x or [1., 1., 1.]) for x in m['sc']]
    return r.dot(np.diag((1. - f) * a + f * b)), c


def animated(m):
    from pytracer.transform import AnimatedTransform, Transform
    ts = []
    for p, sc in zip(m['p'], m['sc']):
        t = camlib.transform(p)
        ts.append(t * Transform.scale(*sc) if sc else t)
    if m['p'][0] == m['p'][1] and m['sc'][0] == m['sc'][1] and m.get('same', True):
        ts[1] = ts[0]
    return AnimatedTransform(ts[0], m['t'][0], ts[1], m['t'][1])


class Mat(object):
    """A material that hands out what it is asked about."""

    def __init__(self, i):
        self.i = i

    def get_bsdf(self, dg, dgs):
        return dg, dgs


class C28(Check):
    id = 'C28'
    quick = 220
    thorough = 20000
    focus = ('aggregate/primitive.py', 'transform/__init__.py')
    fault_kinds = ('memory', 'interrupt')
    real = ('moving primitives, aggregates over and under them', 'keyframed motions and their bounds', 'shapes',
            'differential geometry', 'geometry/transform')
    stub = ('materials (tokens)', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-3 objects (a shape, a mesh or an aggregate of them; moving, turning, growing, mirrored, moved '
            'twice or left where they are) in an aggregate of any kind and 1-4 tasks that send rays of all times at '
            'them, or ask motions for positions and bounds, with failing statements, under one schedule; non-trivial: '
            'two tasks interleaved or a failure injected; distinct by schedule, objects and queries')
    assumptions = ('rays that graze a shape or its edge within the tolerance are not judged',
                   'bounds of a motion may fall short of its arcs by two parts in a thousand of its size')
    mods = ('pytracer.aggregate', 'pytracer.shape', 'pytracer.transform')

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        items = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ss = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                s = S.gen(rng, scale=.2, partial=.4, uv=.3, spread=1.)
                if s['k'] == 'tris' and rng.random() < .4:
                    s['N'] = [[round(rng.uniform(-.4, .4), 2), round(rng.uniform(-.4, .4), 2), 1.] for _ in s['P']]
                ss.append(s)
            it = {'shapes': ss, 'm': [gen_motion(rng) for _ in range(rng.choice([0, 1, 1, 1, 1, 2]))],
                  'agg': rng.choice(['Simple', 'Grid', 'BVH']) if len(ss) > 1 or rng.random() < .3 else None}
            if len(items) and rng.random() < .4:
                it['of'] = rng.randrange(len(items))       # the same thing once more, elsewhere
                it['shapes'], it['agg'] = items[it['of']]['shapes'], items[it['of']]['agg']
            items.append(it)
        p = {'items': items, 'agg': rng.choice(['Simple', 'Grid', 'BVH'] + (['one'] if len(items) == 1 else [])),
             'imm': True}
        if not any(it['m'] and not it['agg'] and s['k'] == 'tris' for it in items for s in it['shapes']):
            p['imm'] = rng.random() < .5
        elif rng.random() < .1 and len(items) == 1 and len(items[0]['m']) == 1:
            # each cell takes the mesh apart for itself
            p['imm'] = False
            for s in items[0]['shapes']:
                if s['k'] == 'tris':
                    s['idx'] = s['idx'][:3]
                    s.pop('uv', None)
        ts = [0., .25, .5, 1.]
        for it in items:
            for m in it['m']:
                ts += [m['t'][0], m['t'][1], round(rng.uniform(*m['t']), 3), m['t'][0] - .5, m['t'][1] + .5]
        ts = [rng.choice(ts) for _ in range(3)] + [round(rng.uniform(0., 1.), 3)]

        def ray():
            it = rng.choice(items)
            s = rng.choice(it['shapes'])
            tm = rng.choice(ts)
            c = self.place(it, tm, np.array(s['c']) + [rng.uniform(-.7, .7) for _ in range(3)])
            o = c + [rng.uniform(-4, 4) for _ in range(3)]
            d = c - o
            ln = np.linalg.norm(d)
            if ln < .3:
                d, ln = np.array([0., 0., 1.]), 1.
            d = d / ln * rng.choice([1., 1., .5, 2.])
            r = {'o': [round(float(x), 4) for x in o], 'd': [round(float(x), 4) for x in d], 't': tm,
                 'mint': rng.choice([0., 1e-3, round(rng.uniform(.1, 2.), 3)]),
                 'maxt': rng.choice([None, None, None, round(rng.uniform(2., 12.), 3)])}
            if rng.random() < .3:
                r['dx'] = [[round(rng.uniform(-.05, .05), 3) for _ in range(3)] for _ in range(4)]
            return r
        pool = [ray() for _ in range(3)]
        for r in list(pool):
            pool.append(dict(r, t=rng.choice(ts)))
        moving = [[i, j] for i, it in enumerate(items) for j in range(len(it['m']))]

        def op():
            if moving and rng.random() < .2:
                w = rng.choice(moving)
                k = rng.choice(['point', 'vector', 'ray', 'at', 'bounds'])
                b = sorted(round(rng.uniform(-2, 2), 2) for _ in range(2)) + \
                    sorted(round(rng.uniform(-2, 2), 2) for _ in range(2)) + \
                    sorted(round(rng.uniform(-2, 2), 2) for _ in range(2))
                return [k, w, rng.choice(ts), b, rng.random() < .5]
            return [rng.choice(['hit', 'hit', 'bsdf', 'shadow', 'shadow']), rng.choice(pool) if rng.random() < .6 else ray()]
        p['threads'] = [[op() for _ in range(rng.choice([3, 5, 8]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < .3:
            # many rays at once, at one or two moving things
            while True:
                m = gen_motion(rng)
                if m['p'][0] != m['p'][1]:
                    break
            items[:] = items[:rng.choice([1, 1, 2])]
            items[0]['m'] = [m]
            p['imm'] = True
            ts[:] = [m['t'][0], round(rng.uniform(*m['t']), 3), round(rng.uniform(*m['t']), 3), m['t'][1]]
            rays = [ray() for _ in range(4)]
            p['rounds'] = 5
            k = rng.choice([['hit'], ['shadow'], ['shadow'], ['hit', 'shadow', 'bsdf']])
            p['threads'] = [[[rng.choice(k), rng.choice(rays)] for _ in range(rng.choice([3, 5]))]
                            for _ in range(rng.choice([2, 3, 4]))]
        if rng.random() < .2:
            p['mem'] = {'p': rng.choice([.001, .004]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt'], ['memory', 'interrupt']])}
        return p

    @staticmethod
    def chain(it, tm):
        """World to object: matrix and offset."""
        M, c = np.eye(3), np.zeros(3)
        for m in it['m']:
            a, b = frame(m, tm)
            M, c = M.dot(a), M.dot(b) + c
        return M, c

    def place(self, it, tm, p):
        M, c = self.chain(it, tm)
        return np.linalg.inv(M).dot(p - c)

    # --------------------------------------------------------------- execution
    def build(self, plan):
        from pytracer.aggregate import GeometricPrimitive, TransformedPrimitive, SimpleAggregate, GridAccel, BVH
        imm = plan['imm']

        def agg(k, ps, imm=imm):
            if k == 'BVH':
                return BVH(ps, 2)
            if k == 'Grid':
                return GridAccel(ps, imm)
            return SimpleAggregate(ps, True)
        tops, mats, moves, bodies = [], [], [], []
        for it in plan['items']:
            if it.get('of') is not None:
                body, ms = bodies[it['of']], mats[it['of']]
            else:
                ms = [Mat(j) for j in range(len(it['shapes']))]
                ps = [GeometricPrimitive(S.build(s), m) for s, m in zip(it['shapes'], ms)]
                body = agg(it['agg'], ps) if it['agg'] else ps[0]
            mats.append(ms)
            bodies.append(body)
            mv = [animated(m) for m in it['m']]
            moves.append(mv)
            top = body
            for m in mv:                # the first motion is the innermost
                top = TransformedPrimitive(top, m)
            tops.append(top)
        if plan['agg'] == 'one':
            refined = []
            tops[0].full_refine(refined)
            root = refined[0] if len(refined) == 1 else SimpleAggregate(refined, True)
        else:
            root = agg(plan['agg'], list(tops))
        return tops, mats, moves, root, bodies

    def execute(self, plan, run):
        import pytracer.geometry as geo
        from pytracer.aggregate import Intersection
        with np.errstate(all='ignore'):
            tops, mats, moves, root, bodies = self.build(plan)
            self.boxes = [self.bounds(it, b.world_bound()) for it, b in zip(plan['items'], bodies)]
        self.tops = [t.primitiveId for t in tops]
        repr(root), [repr(t) for t in tops]
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]

        def mk(r):
            o, d = geo.Point(*r['o']), geo.Vector(*r['d'])
            ray = geo.RayDifferential(o, d, r['mint'], float('inf') if r['maxt'] is None else r['maxt'], 0, r['t'])
            if r.get('dx'):
                ray.has_differentials = True
                e = [geo.Vector(*x) for x in r['dx']]
                ray.rxOrigin, ray.ryOrigin = o + e[0], o + e[1]
                ray.rxDirection, ray.ryDirection = d + e[2], d + e[3]
            return ray

        def one(o):
            k = o[0]
            if k in ('hit', 'bsdf', 'shadow'):
                ray = mk(o[1])
                if k == 'shadow':
                    h = bool(root.intersect_p(ray))
                    return {'hit': h, 'ray': flt(ray.o) + flt(ray.d), 'maxt': float(ray.maxt), 'time': float(ray.time)}
                isect = Intersection()
                h = bool(root.intersect(ray, isect))
                res = {'hit': h, 'ray': flt(ray.o) + flt(ray.d), 'maxt': float(ray.maxt), 'time': float(ray.time)}
                if not h:
                    return res
                mat = isect.primitive.material
                res['who'] = [(i, mat.i) for i, ms in enumerate(mats) if any(mat is m for m in ms)]
                res['id'] = isect.primitiveId
                res['sid'] = isect.shapeId == isect.primitive.shape.shapeId and isect.dg.shape is isect.primitive.shape
                dg, dgs = isect.get_bsdf(ray) if k == 'bsdf' else (isect.dg, None)
                if k == 'hit':
                    dg.compute_differential(ray)
                res.update(eps=float(isect.rEps), p=flt(dg.p), n=flt(dg.nn), u=float(dg.u), v=float(dg.v),
                           dpdu=flt(dg.dpdu), dpdv=flt(dg.dpdv), dndu=flt(dg.dndu), dndv=flt(dg.dndv),
                           dpdx=flt(dg.dpdx), dpdy=flt(dg.dpdy), w2o=np.array(isect.w2o.m), o2w=np.array(isect.o2w.m))
                if dgs is not None:
                    res['sn'] = flt(dgs.nn)
                return res
            _, (i, j), tm, b, inv = o
            mv = moves[i][j]
            if k == 'point':
                return flt(mv(tm, geo.Point(*b[:3])))
            if k == 'vector':
                return flt(mv(tm, geo.Vector(*b[:3])))
            if k == 'ray':
                r = mv(geo.Ray(geo.Point(*b[:3]), geo.Vector(*b[3:]), .25, 8., 2, tm))
                return flt(r.o) + flt(r.d) + [float(r.mint), float(r.maxt), float(r.depth), float(r.time)]
            if k == 'at':
                t = mv.interpolate(tm)
                return [np.array(t.m), np.array(t.m_inv)]
            return self.box(mv.motion_bounds(geo.BBox(geo.Point(b[0], b[2], b[4]), geo.Point(b[1], b[3], b[5])), inv))

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/aggregate/' in x[0] or '/transform/' in x[0]
                                or '/shape/' in x[0]], 'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        switches = fired = 0
        for _ in range(plan.get('rounds', 1)):
            with np.errstate(all='ignore'):
                s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                                 max_steps=3000000)
            if s.outcome:
                raise Violation('no-progress', 'a query does not finish: %s' % s.outcome)
            for t in s.tasks:
                if t.error is not None:
                    raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
            fired += len(s.fault_log)
            if len(errs) > fired:
                raise Violation('spurious-error', '%d queries failed, %d failures injected' % (len(errs), fired))
            switches += s.switches
        n = 0
        for o, v in got:
            n += self.judge(plan, o, v)
        for o, _ in got[:2] + errs:
            with np.errstate(all='ignore'):
                self.judge(plan, o, one(o), 'later-')
        run.probe('queries', len(got))
        run.probe('hits_judged', n)
        run.nontrivial = switches > len(plan['threads']) or bool(fired)
        run.keys = [[[x['k'] for x in it['shapes']] + [len(it['m'])] for it in plan['items']],
                    [[o[0] for o in t] for t in plan['threads']]]

    def bounds(self, it, b):
        """Box of an object over all its motions, each sampled as often as the code does."""
        lo, hi = [np.array(x) for x in self.box(b)]
        for m in it['m']:
            P = np.array([[(lo, hi)[x & 1][0], (lo, hi)[x >> 1 & 1][1], (lo, hi)[x >> 2][2]] for x in range(8)])
            still = m['p'][0] == m['p'][1] and m['sc'][0] == m['sc'][1]
            Q = []
            for x in range(1 if still else 128):
                M, c = frame(m, m['t'][0] + x / 127. * (m['t'][1] - m['t'][0]))
                Q.append((P - c).dot(np.linalg.inv(M).T))
            Q = np.concatenate(Q)
            lo, hi = Q.min(axis=0), Q.max(axis=0)
        return [lo, hi]

    @staticmethod
    def box(b):
        return [[float(b.pMin.x), float(b.pMin.y), float(b.pMin.z)], [float(b.pMax.x), float(b.pMax.y), float(b.pMax.z)]]

    # ---------------------------------------------------------------- judgement
    def judge(self, plan, o, v, pre=''):
        if o[0] in ('hit', 'bsdf', 'shadow'):
            return self.judge_ray(plan, o[0], o[1], v, pre)
        k, (i, j), tm, b, inv = o
        m = plan['items'][i]['m'][j]
        M, c = frame(m, tm)
        what = 'motion %r at %r' % (m, tm)

        def same(a, b, tol=1e-6):
            if not np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * max(1., float(np.abs(b).max()))):
                raise Violation(pre + 'wrong-' + k, '%s: %r, it is %r' % (
                    what, np.asarray(a).tolist(), np.asarray(b).tolist()))
        if k == 'point':
            same(v, M.dot(b[:3]) + c)
        elif k == 'vector':
            same(v, M.dot(b[:3]))
        elif k == 'ray':
            same(v, list(M.dot(b[:3]) + c) + list(M.dot(b[3:])) + [.25, 8., 2., tm])
        elif k == 'at':
            T = np.eye(4)
            T[:3, :3], T[:3, 3] = M, c
            same(v[0], T)
            same(v[1], np.linalg.inv(T))
        else:
            P = np.array([[b[x & 1], b[2 + (x >> 1 & 1)], b[4 + (x >> 2)]] for x in range(8)])
            still = m['p'][0] == m['p'][1] and m['sc'][0] == m['sc'][1]
            Q = []
            for x in range(1 if still else 300):
                M, c = frame(m, m['t'][0] + x / 299. * (m['t'][1] - m['t'][0]))
                Q.append((P - c).dot(np.linalg.inv(M).T) if inv else P.dot(M.T) + c)
            Q = np.concatenate(Q)
            lo, hi = Q.min(axis=0), Q.max(axis=0)
            size = float((hi - lo).max())
            tight = (1e-6 if still else .05) * max(1., size)
            loose = (1e-6 if still else SLACK) * max(1., size)
            v = np.array(v)
            if (v[0] > lo + loose).any() or (v[1] < hi - loose).any():
                raise Violation(pre + 'wrong-bounds', 'motion %r of the box %r %s: bounds %r leave out some of %r' % (
                    m, b, 'undone' if inv else '', v.tolist(), [lo.tolist(), hi.tolist()]))
            if (v[0] < lo - tight).any() or (v[1] > hi + tight).any():
                raise Violation(pre + 'wrong-bounds', 'motion %r of the box %r %s: bounds %r are larger than %r' % (
                    m, b, 'undone' if inv else '', v.tolist(), [lo.tolist(), hi.tolist()]))
        return 1

    def judge_ray(self, plan, k, r, v, pre):
        what = '%s with %r among %r' % (k, r, plan['items'])
        if v['ray'] != r['o'] + r['d'] or v['time'] != r['t']:
            raise Violation(pre + 'ray-changed', '%s: the ray is now %r at %r' % (what, v['ray'], v['time']))
        maxt = float('inf') if r['maxt'] is None else r['maxt']
        best, near = None, []
        O, D = np.array(r['o']), np.array(r['d'])
        for i, it in enumerate(plan['items']):
            M, c = self.chain(it, r['t'])
            for j, s in enumerate(it['shapes']):
                ref = S.first(s, M.dot(O) + c, M.dot(D), r['mint'], maxt)
                if ref[0] == 'doubt':
                    return 0
                if ref[0] == 'hit':
                    near.append(ref[1])
                    if best is None or ref[1] < best[1]:
                        best = ((i, j), ref[1], ref[2], ref[3], M, c)
        if len(near) > 1 and sorted(near)[1] - sorted(near)[0] < 1e-3:
            return 0
        if best is None:
            if v['hit']:
                raise Violation(pre + 'wrong-hit', '%s: a hit, there is none' % what)
            if v['maxt'] != maxt:
                raise Violation(pre + 'ray-changed', '%s: the ray now ends at %r' % (what, v['maxt']))
            return 1
        (i, j), t, q, tri, M, c = best
        it = plan['items'][i]
        s = it['shapes'][j]
        p = O + t * D
        lo, hi = np.array(self.boxes[i])
        # bounds of a motion are sampled: what sticks out a little may be lost
        edge = bool(it['m']) and (np.minimum(p - lo, hi - p) < SLACK * max(1., float((hi - lo).max()))).any()
        if not v['hit']:
            if edge:
                return 0
            raise Violation(pre + 'wrong-hit', '%s: no hit, there is one of %r at %r' % (what, (i, j), t))
        if k == 'shadow':
            if v['maxt'] != maxt:
                raise Violation(pre + 'ray-changed', '%s: the ray now ends at %r' % (what, v['maxt']))
            return 1
        if abs(v['maxt'] - t) > 1e-6 * max(1., t):
            if edge:
                return 0
            raise Violation(pre + 'wrong-distance', '%s: a hit at %r, it is %r' % (what, v['maxt'], t))
        if (i, j) not in v['who'] or not v['sid']:
            raise Violation(pre + 'wrong-owner', '%s: the hit is %r, not %r' % (what, v['who'], (i, j)))
        plain = not it['agg'] and s['k'] != 'tris'
        if plain and v['id'] != self.tops[i]:
            raise Violation(pre + 'wrong-owner', '%s: the hit names primitive %r, not %r' % (what, v['id'], self.tops[i]))

        def cmp(name, a, b, tol=1e-5):
            b = np.asarray(b, dtype=float)
            if not np.all(np.abs(np.asarray(a) - b) <= tol * max(1., np.abs(b).max())):
                raise Violation(pre + 'wrong-' + name, '%s: %s is %r, it is %r' % (
                    what, name, np.asarray(a).tolist(), b.tolist()))
        sm, sc = S.matrix(s)
        L = np.eye(4)
        sinv = np.linalg.inv(sm)
        L[:3, :3], L[:3, 3] = sinv.dot(M), sinv.dot(c - sc)
        cmp('frame', v['w2o'], L)
        cmp('frame', v['o2w'], np.linalg.inv(L))
        inv = np.linalg.inv(M)
        cmp('point', v['p'], p, 2e-5)
        if s['k'] in ('sphere', 'disk') and math.hypot(q[0], q[1]) < .02:
            return 1

        def unit(n):
            n = M.T.dot(n)
            return n / np.linalg.norm(n)
        n = unit(S.normal(s, q, tri))
        cmp('normal', v['n'], n)
        uv, du, dv, nu, nv = S.param(s, q, tri)
        cmp('parameters', [v['u'], v['v']], uv, 1e-6)
        U, V = inv.dot(sm).dot(du), inv.dot(sm).dot(dv)
        cmp('derivatives', v['dpdu'], U)
        cmp('derivatives', v['dpdv'], V)
        if not s.get('sc') and not any(m['sc'][0] for m in it['m']):
            turn = -1. if s['ro'] else 1.
            cmp('normal-derivatives', v['dndu'], inv.dot(sm).dot(nu) * turn, 1e-4)
            cmp('normal-derivatives', v['dndv'], inv.dot(sm).dot(nv) * turn, 1e-4)
        if not 0. < v['eps'] <= .05 * max(t, 1e-3):
            raise Violation(pre + 'wrong-epsilon', '%s at %r has error tolerance %r' % (what, t, v['eps']))
        if r.get('dx'):
            e = np.array(r['dx'])
            for a, b, nm in ((e[0], e[2], 'dpdx'), (e[1], e[3], 'dpdy')):
                den = n.dot(D + b)
                if abs(den) > .05:
                    tt = n.dot(p - O - a) / den
                    cmp('footprint', v[nm], O + a + tt * (D + b) - p, 1e-4)
        if k == 'bsdf':
            ns = S.shading(s, q, tri)[0] if s.get('N') else None
            cmp('shading-normal', v['sn'], n if ns is None else unit(ns))
        return 1


CHECK = C28
