"""Subdivision surfaces: what is rendered is the limit of Loop's rules."""
import json
import math
import random

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, shapelib as S


# -- control meshes -------------------------------------------------------------
def grid(a, b, close=False):
    """a x b vertices; close joins the ends of the first direction."""
    F = []
    for i in range(a if close else a - 1):
        for j in range(b - 1):
            p, q = i * b + j, (i + 1) % a * b + j
            F += [[p, q, q + 1], [p, q + 1, p + 1]]
    return F


def base(rng):
    k = rng.choice(['tetra', 'octa', 'cube', 'icosa', 'torus', 'tri', 'quad', 'fan', 'cone', 'wing', 'strip', 'grid',
                    'ring', 'two', 'octa', 'fan', 'pyramid'])
    if k == 'tetra':
        P, F = [[1, 1, 1], [-1, -1, 1], [-1, 1, -1], [1, -1, -1]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
    elif k == 'octa':
        P = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
        F = [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]
    elif k == 'cube':
        P = [[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]
        F = []
        for a, b, c, d in ((0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)):
            F += [[a, b, c], [a, c, d]] if rng.random() < .5 else [[a, b, d], [b, c, d]]
    elif k == 'icosa':
        g = (1 + math.sqrt(5)) / 2
        P = [[-1, g, 0], [1, g, 0], [-1, -g, 0], [1, -g, 0], [0, -1, g], [0, 1, g], [0, -1, -g], [0, 1, -g],
             [g, 0, -1], [g, 0, 1], [-g, 0, -1], [-g, 0, 1]]
        F = [[0, 11, 5], [0, 5, 1], [0, 1, 7], [0, 7, 10], [0, 10, 11], [1, 5, 9], [5, 11, 4], [11, 10, 2], [10, 7, 6],
             [7, 1, 8], [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9], [4, 9, 5], [2, 4, 11], [6, 2, 10],
             [8, 6, 7], [9, 8, 1]]
    elif k == 'torus':
        a, b = rng.choice([3, 4]), 3
        P = [[(1.4 + .6 * math.cos(2 * math.pi * j / b)) * math.cos(2 * math.pi * i / a),
              (1.4 + .6 * math.cos(2 * math.pi * j / b)) * math.sin(2 * math.pi * i / a),
              .6 * math.sin(2 * math.pi * j / b)] for i in range(a) for j in range(b)]
        F = []
        for i in range(a):
            for j in range(b):
                v = lambda x, y: (x % a) * b + y % b
                F += [[v(i, j), v(i + 1, j), v(i + 1, j + 1)], [v(i, j), v(i + 1, j + 1), v(i, j + 1)]]
    elif k == 'tri':
        P, F = [[0, 0, 0], [2, 0, 0], [0, 2, 0]], [[0, 1, 2]]
    elif k == 'quad':
        P, F = [[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]], [[0, 1, 2], [0, 2, 3]]
    elif k in ('fan', 'pyramid'):
        n = rng.choice([3, 4, 5, 6, 7, 8])
        P = [[0, 0, rng.uniform(-.5, .5)]] + [[1.5 * math.cos(2 * math.pi * i / n), 1.5 * math.sin(2 * math.pi * i / n), 0]
                                              for i in range(n)]
        F = [[0, 1 + i, 1 + (i + 1) % n] for i in range(n)]
        if k == 'pyramid':
            P = P + [[0, 0, -1.5]]
            P[0][2] = 1.5
            F += [[n + 1, 1 + (i + 1) % n, 1 + i] for i in range(n)]
    elif k in ('cone', 'wing'):
        # the middle lies on the rim
        n = rng.choice([2, 3, 4, 5, 6])
        w = rng.uniform(.6, 1.7) * math.pi
        P = [[0, 0, 0]] + [[1.5 * math.cos(w * i / n), 1.5 * math.sin(w * i / n), rng.uniform(-.3, .3)]
                           for i in range(n + 1)]
        F = [[0, 1 + i, 2 + i] for i in range(n)]
    elif k == 'strip':
        n = rng.choice([2, 3, 4])
        P = [[i * .8, j * 1., .2 * i * i] for i in range(n) for j in range(2)]
        F = grid(n, 2)
    elif k == 'grid':
        a, b = rng.choice([3, 3, 4]), rng.choice([3, 3, 4])
        P = [[i * .9, j * .9, rng.uniform(-.3, .3)] for i in range(a) for j in range(b)]
        F = grid(a, b)
    elif k == 'ring':
        n = rng.choice([3, 4, 5])
        P = [[(1. + j) * math.cos(2 * math.pi * i / n), (1. + j) * math.sin(2 * math.pi * i / n), .4 * j]
             for i in range(n) for j in range(2)]
        F = grid(n, 2, True)
    else:
        P = [[0, 0, 0], [2, 0, 0], [0, 2, 0], [-2, 0, 1], [-1, 0, 1], [-2, 1, 1], [-1.4, .4, 2]]
        F = [[0, 1, 2], [3, 5, 4], [3, 4, 6], [4, 5, 6], [3, 6, 5]]
    sz = [rng.choice([1., 1., .7, 1.3]) for _ in range(3)]
    P = [[round(float(sz[i] * x + rng.uniform(-.12, .12)), 3) for i, x in enumerate(p)] for p in P]
    # number and order everything anew
    to = list(range(len(P)))
    rng.shuffle(to)
    Q = [None] * len(P)
    for i, j in enumerate(to):
        Q[j] = P[i]
    F = [[to[i] for i in f] for f in F]
    rng.shuffle(F)
    out = []
    flip = rng.random() < .3
    for f in F:
        r = rng.randrange(3)
        f = f[r:] + f[:r]
        out.append(f[::-1] if flip else f)
    return {'P': Q, 'F': out}


# -- reference --------------------------------------------------------------------
def rings(F, n):
    """Neighbours of every vertex, against the clock, and whether they close."""
    nxt = [{} for _ in range(n)]
    for f in F:
        for i in range(3):
            nxt[f[i]][f[(i + 1) % 3]] = f[(i + 2) % 3]
    out = []
    for m in nxt:
        start = [a for a in m if a not in m.values()]
        a = start[0] if start else next(iter(m))
        ring = [a]
        while ring[-1] in m and m[ring[-1]] != a:
            ring.append(m[ring[-1]])
        out.append((ring, not start))
    return out


def beta(n):
    return 3. / 16. if n == 3 else 3. / (8. * n)


def subdivide(P, F):
    R = rings(F, len(P))
    Q = []
    for p, (r, closed) in zip(P, R):
        if closed:
            b = beta(len(r))
            Q.append((1. - len(r) * b) * p + b * P[r].sum(axis=0))
        else:
            Q.append(.75 * p + .125 * (P[r[0]] + P[r[-1]]))
    opp, mid = {}, {}
    for f in F:
        for i in range(3):
            opp.setdefault(frozenset((f[i], f[(i + 1) % 3])), []).append(f[(i + 2) % 3])
    for e in opp:
        a, b = tuple(e)
        mid[e] = len(Q)
        if len(opp[e]) == 2:
            Q.append(.375 * (P[a] + P[b]) + .125 * (P[opp[e][0]] + P[opp[e][1]]))
        else:
            Q.append(.5 * (P[a] + P[b]))
    G = []
    for a, b, c in F:
        x, y, z = mid[frozenset((a, b))], mid[frozenset((b, c))], mid[frozenset((c, a))]
        G += [[a, x, z], [b, y, x], [c, z, y], [x, y, z]]
    return np.array(Q), G


def limit(P, F):
    R = rings(F, len(P))
    L = []
    for p, (r, closed) in zip(P, R):
        if closed:
            n = len(r)
            g = 1. / (n + 3. / (8. * beta(n)))
            L.append((1. - n * g) * p + g * P[r].sum(axis=0))
        else:
            L.append(.6 * p + .2 * (P[r[0]] + P[r[-1]]))
    L = np.array(L)
    N = []
    for p, (r, closed) in zip(L, R):
        n, q = len(r), L[r]
        if closed:
            a = 2. * math.pi * np.arange(n) / n
            N.append(np.cross(np.cos(a).dot(q), np.sin(a).dot(q)))
            continue
        if n == 2:
            t = q[0] + q[1] - 2. * p
        elif n == 3:
            t = q[1] - p
        elif n == 4:
            t = -q[0] + 2. * q[1] + 2. * q[2] - q[3] - 2. * p
        else:
            th = math.pi / (n - 1)
            t = -math.sin(th) * (q[0] + q[-1])
            for i in range(1, n - 1):
                t = t + (2. - 2. * math.cos(th)) * math.sin(i * th) * q[i]
        N.append(np.cross(t, q[-1] - q[0]))
    return L, np.array(N)


class Surface(object):
    """The reference surface in the world."""

    def __init__(self, s):
        P, F = np.array(s['P'], dtype=float), s['F']
        for _ in range(s['n']):
            P, F = subdivide(P, F)
        L, N = limit(P, F)
        m, c = S.matrix(s)
        self.F = np.array(F)
        self.P = L.dot(m.T) + c
        self.local, self.N = L, N
        self.inv = S.inverse(s, m)
        self.ro = s['ro']
        a, b, c = [self.P[self.F[:, i]] for i in range(3)]
        self.a, self.e1, self.e2 = a, b - a, c - a
        self.n = np.cross(self.e1, self.e2)
        self.area = .5 * np.sqrt((self.n ** 2).sum(axis=1)).sum()

    def hits(self, o, d):
        """[(t, face, barycentrics)] in order, or None when too close to tell."""
        with np.errstate(all='ignore'):
            n2 = (self.n ** 2).sum(axis=1)
            den = self.n.dot(d)
            t = ((self.a - o) * self.n).sum(axis=1) / den
            q = o + t[:, None] * d - self.a
            l1 = (np.cross(q, self.e2) * self.n).sum(axis=1) / n2
            l2 = (np.cross(self.e1, q) * self.n).sum(axis=1) / n2
            e = np.minimum(np.minimum(l1, l2), 1. - l1 - l2)
            flat = np.abs(den) < 1e-3 * np.sqrt(n2) * np.linalg.norm(d)
            if ((np.abs(e) < 2e-3) | (flat & (np.abs(((self.a - o) * self.n).sum(axis=1)) < 2e-2 * np.sqrt(n2)))).any():
                return None
        k = np.nonzero((e > 0.) & ~flat)[0]
        return sorted((float(t[i]), int(i), (1. - l1[i] - l2[i], l1[i], l2[i])) for i in k)

    def normals(self, f, b):
        """Unit normals of the face and of the surface there; None: degenerate."""
        P = self.local[self.F[f]]
        g = np.cross(P[1] - P[0], P[2] - P[0])
        N = self.N[self.F[f]]
        s = np.array(b).dot(N)
        if np.linalg.norm(s) < .05 * np.sqrt((N ** 2).sum(axis=1)).max() or not N.any(axis=1).all():
            s = None
        out = []
        for x in (g, s):
            if x is not None:
                x = self.inv.T.dot(x)
                x = x / np.linalg.norm(x) * (-1. if self.ro else 1.)
            out.append(x)
        return out


class Mat(object):
    """A material that hands out what it is asked about."""

    def get_bsdf(self, dg, dgs):
        return dg, dgs


class C29(Check):
    id = 'C29'
    quick = 160
    thorough = 12000
    focus = ('shape/loopsubdiv.py', 'shape/triangle.py', 'aggregate/')
    fault_kinds = ('memory', 'interrupt')
    real = ('subdivision surfaces, triangle meshes and triangles', 'aggregates and their refinement', 'shading geometry',
            'geometry/transform')
    stub = ('materials (tokens)', 'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-2 placed control meshes (closed, open, with any number of neighbours, shuffled, mirrored, '
            'reversed; 0-3 levels) in 1-2 lazily refined aggregates and 1-4 tasks that refine them, send rays at them or '
            'ask their bounds, with failing statements, under one schedule; non-trivial: two tasks interleaved or a '
            'failure injected; distinct by schedule, meshes and queries')
    assumptions = ('control meshes are manifolds with consistent order and no unused points, as the class documents',
                   'rays within the tolerance of an edge are not judged')
    mods = ('pytracer.aggregate', 'pytracer.shape')

    # -------------------------------------------------------------- generation
    def gen(self, rng, tier):
        subs = []
        for _ in range(rng.choice([1, 1, 2])):
            s = base(rng)
            p = S.gen(rng, kinds=('tris',), scale=.2, spread=2.5)
            s.update({k: p.get(k) for k in ('c', 'rot', 'mirror', 'ro', 'sc')})
            most = rng.choice([40, 40, 70, 130])
            s['n'] = rng.choice([0, 1, 1, 2, 2, 3])
            while s['n'] and len(s['F']) * 4 ** s['n'] > most:
                s['n'] -= 1
            s['by'] = rng.choice(['class', 'params'])
            subs.append(s)
        p = {'subs': subs, 'aggs': [[rng.choice(['Simple', 'Grid', 'Grid', 'BVH']), rng.random() < .4]
                                    for _ in range(rng.choice([1, 1, 2]))]}
        if sum(len(s['F']) * 4 ** s['n'] for s in subs) > 24:
            # every cell would take the mesh apart for itself
            p['aggs'] = [[k, True] for k, _ in p['aggs']]

        def op():
            k = rng.choice(['face', 'face', 'face', 'far', 'shadow', 'refine', 'refine', 'bound', 'own'])
            i = rng.randrange(len(subs))
            if k in ('face', 'far', 'shadow'):
                b = [rng.uniform(.1, 1.) for _ in range(3)]
                return [k, i, rng.randrange(len(p['aggs'])), rng.random(), [round(x / sum(b), 4) for x in b],
                        [round(rng.uniform(-1, 1), 3) for _ in range(3)], rng.random() < .5]
            return [k, i]
        p['threads'] = [[op() for _ in range(rng.choice([2, 3, 5, 8]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < .2:
            p['mem'] = {'p': rng.choice([.0005, .002]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt'], ['memory', 'interrupt']])}
        return p

    # --------------------------------------------------------------- execution
    @staticmethod
    def make(s):
        import pytracer.geometry as geo
        import pytracer.shape as sh
        t = S.transform(s)
        vi = [i for f in s['F'] for i in f]
        if s['by'] == 'params':
            par = {'indices': vi, 'P': [x for p in s['P'] for x in p]}
            if s['n'] != 3:
                par['nlevels'] = s['n']
            return sh.create_loop_subdiv(t, t.inverse(), s['ro'], par)
        return sh.LoopSubdiv(t, t.inverse(), s['ro'], len(s['F']), len(s['P']), vi, [geo.Point(*p) for p in s['P']], s['n'])

    @staticmethod
    def leaves(shapes):
        todo, out = list(shapes), []
        while todo:
            x = todo.pop()
            if x.can_intersect():
                out.append(x)
            else:
                todo.extend(x.refine())
        return out

    @staticmethod
    def addresses(rng):
        """Where objects lie in memory is up to the seed, as far as anything depends on it."""
        import pytracer.shape.loopsubdiv as L

        def address(o):
            try:
                d = o.__dict__
                if '_dst_address' not in d:
                    d['_dst_address'] = rng.getrandbits(44) << 4
                return d['_dst_address']
            except AttributeError:
                return id(o)
        L.id = address

    def execute(self, plan, run):
        self.addresses(random.Random(json.dumps(plan, sort_keys=True)))
        import pytracer.geometry as geo
        from pytracer.aggregate import GeometricPrimitive, SimpleAggregate, GridAccel, BVH, Intersection
        subs = [self.make(s) for s in plan['subs']]
        self.refs = [Surface(s) for s in plan['subs']]
        mats = [Mat() for _ in subs]
        prims = [GeometricPrimitive(x, m) for x, m in zip(subs, mats)]
        aggs = {}
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]
        box = lambda b: flt(b.pMin) + flt(b.pMax)

        def agg(i):
            k, imm = plan['aggs'][i]
            return {'BVH': lambda: BVH(list(prims), 2), 'Grid': lambda: GridAccel(list(prims), imm),
                    'Simple': lambda: SimpleAggregate(list(prims), True)}[k]()
        for i, (k, imm) in enumerate(plan['aggs']):
            if k == 'Grid' and not imm:
                aggs[i] = agg(i)

        def one(o):
            k, i = o[:2]
            if k == 'bound':
                return [box(subs[i].world_bound()), box(subs[i].object_bound())]
            if k == 'refine':
                tris = self.leaves([subs[i]])
                b = geo.BBox()
                for t in tris:
                    b.union(t.world_bound())
                return {'n': len(tris), 'area': sum(float(t.area()) for t in tris), 'box': box(b)}
            if k == 'own':
                out = []
                prims[i].full_refine(out)
                return {'n': len(out), 'mat': all(p.material is mats[i] for p in out)}
            if o[2] not in aggs:
                aggs[o[2]] = agg(o[2])
            r = self.ray(plan, o)
            ray = geo.RayDifferential(geo.Point(*r['o']), geo.Vector(*r['d']), r['mint'], r['maxt'])
            if k == 'shadow':
                return {'hit': bool(aggs[o[2]].intersect_p(ray))}
            isect = Intersection()
            if not aggs[o[2]].intersect(ray, isect):
                return {'hit': False}
            dg, dgs = isect.get_bsdf(ray)
            return {'hit': True, 't': float(ray.maxt), 'p': flt(dg.p), 'n': flt(dg.nn), 'sn': flt(dgs.nn),
                    'who': [j for j, m in enumerate(mats) if isect.primitive.material is m]}

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/aggregate/' in x[0] or '/shape/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                             max_steps=6000000)
        if s.outcome:
            raise Violation('no-progress', 'a query does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > len(s.fault_log):
            raise Violation('spurious-error', '%d queries failed, %d failures injected' % (len(errs), len(s.fault_log)))
        n = 0
        for o, v in got:
            n += self.judge(plan, o, v)
        for o in [['bound', i] for i in range(len(subs))] + [['refine', 0]] + [o for o, _ in got[:2] + errs]:
            sim.S.out = 0
            with np.errstate(all='ignore'):
                self.judge(plan, o, one(o), 'later-')
        run.probe('queries', len(got))
        run.probe('answers_judged', n)
        run.nontrivial = s.switches > len(plan['threads']) or bool(s.fault_log)
        run.keys = [[[len(x['F']), x['n']] for x in plan['subs']], [[o[:2] for o in t] for t in plan['threads']]]

    def ray(self, plan, o):
        k, i, _, f, b, v, back = o
        ref = self.refs[i]
        f = min(int(f * len(ref.F)), len(ref.F) - 1)
        p = np.array(b).dot(ref.P[ref.F[f]])
        if k == 'face':
            n = ref.n[f]
            n = n / np.linalg.norm(n) * (-1. if back else 1.)
            h = .1 * float(np.sqrt((ref.e1[f] ** 2).sum()))
            o, d, maxt = p + h * n, -n, 2. * h
        else:
            v = np.array(v)
            if np.linalg.norm(v) < .2:
                v = np.array([0., 0., 1.])
            v = v / np.linalg.norm(v)
            o, d, maxt = p + 4. * v, -v, float('inf')
        return {'o': [float(x) for x in o], 'd': [float(x) for x in d], 'mint': 0., 'maxt': maxt}

    # ---------------------------------------------------------------- judgement
    def judge(self, plan, o, v, pre=''):
        k, i = o[:2]
        s, ref = plan['subs'][i], self.refs[i]
        what = '%s of the mesh %r' % (k, s)
        if k == 'bound':
            w, l = v
            for b, P in ((w, ref.P), (l, ref.local)):
                if (P.min(axis=0) < np.array(b[:3]) - 1e-6).any() or (P.max(axis=0) > np.array(b[3:]) + 1e-6).any():
                    raise Violation(pre + 'wrong-bound', '%s: %r leaves out some of %r' % (
                        what, b, [P.min(axis=0).tolist(), P.max(axis=0).tolist()]))
            P = np.array(s['P'])
            m, c = S.matrix(s)
            size = max(1., float((P.max(axis=0) - P.min(axis=0)).max()))
            if np.abs(np.array(l) - np.concatenate([P.min(axis=0), P.max(axis=0)])).max() > .5 * size + 1.:
                raise Violation(pre + 'wrong-bound', '%s: %r is far from %r' % (what, l, s['P']))
            return 1
        if k in ('refine', 'own'):
            if v['n'] != len(s['F']) * 4 ** s['n']:
                raise Violation(pre + 'wrong-count', '%s gives %d triangles, not %d' % (
                    what, v['n'], len(s['F']) * 4 ** s['n']))
            if k == 'own':
                if not v['mat']:
                    raise Violation(pre + 'wrong-owner', '%s: parts have another material' % what)
                return 1
            if abs(v['area'] - ref.area) > 1e-6 * max(1., ref.area):
                raise Violation(pre + 'wrong-surface', '%s: area %r, it is %r' % (what, v['area'], ref.area))
            b = ref.P.min(axis=0).tolist() + ref.P.max(axis=0).tolist()
            if np.abs(np.subtract(b, v['box'])).max() > 1e-6:
                raise Violation(pre + 'wrong-surface', '%s lies in %r, not in %r' % (what, v['box'], b))
            return 1
        r = self.ray(plan, o)
        O, D = np.array(r['o']), np.array(r['d'])
        best = None
        ts = []
        for j, x in enumerate(self.refs):
            h = x.hits(O, D)
            if h is None:
                return 0
            for t, f, b in h:
                if abs(t) < 1e-3 * min(1., r['maxt']) or abs(t - r['maxt']) < 1e-3 * r['maxt']:
                    return 0
                if 0. < t < r['maxt']:
                    ts.append(t)
                    if best is None or t < best[0]:
                        best = (t, j, f, b)
        ts.sort()
        if len(ts) > 1 and ts[1] - ts[0] < 1e-5:
            return 0
        if v['hit'] != (best is not None):
            raise Violation(pre + 'wrong-surface', '%s with %r: %s, it is %r' % (what, r, v['hit'], best))
        if best is None or k == 'shadow':
            return 1
        t, j, f, b = best
        if v['who'] != [j]:
            raise Violation(pre + 'wrong-owner', '%s with %r: the hit is %r, not %r' % (what, r, v['who'], j))
        tol = 1e-6 * max(1., np.abs(O).max())
        if abs(v['t'] - t) > tol or np.abs(O + t * D - v['p']).max() > 20. * tol:
            raise Violation(pre + 'wrong-surface', '%s with %r: hit at %r, it is %r' % (what, r, v['t'], t))
        g, n = self.refs[j].normals(f, b)
        if np.abs(g - v['n']).max() > 1e-5:
            raise Violation(pre + 'wrong-normal', '%s with %r: the face has normal %r, it is %r' % (
                what, r, v['n'], g.tolist()))
        if n is not None and np.abs(n - v['sn']).max() > 1e-5:
            raise Violation(pre + 'wrong-normal', '%s with %r: the surface has normal %r, it is %r' % (
                what, r, v['sn'], n.tolist()))
        return 1


CHECK = C29
