"""Transforms, boxes, rays and directions shared by tasks."""
import math

import numpy as np

from ..core import Check, Violation
from .. import sim, instr


# -- reference ------------------------------------------------------------------
def spin(axis, deg):
    """Rotation about an axis by Rodrigues' formula."""
    a = np.array(axis, dtype=float)
    a /= math.sqrt(float(a.dot(a)))
    t = math.radians(deg)
    K = np.array([[0., -a[2], a[1]], [a[2], 0., -a[0]], [-a[1], a[0], 0.]])
    return np.eye(3) + math.sin(t) * K + (1. - math.cos(t)) * K.dot(K)


def elem(e):
    m = np.eye(4)
    if e[0] == 'move':
        m[:3, 3] = e[1]
    elif e[0] == 'scale':
        m[[0, 1, 2], [0, 1, 2]] = e[1]
    elif e[0] in ('x', 'y', 'z'):
        m[:3, :3] = spin([float(e[0] == k) for k in 'xyz'], e[1])
    elif e[0] == 'turn':
        m[:3, :3] = spin(e[1], e[2])
    elif e[0] == 'look':
        p, at, up = (np.array(v, dtype=float) for v in e[1:])
        z = at - p
        z /= np.linalg.norm(z)
        x = np.cross(up, z)
        x /= np.linalg.norm(x)
        m[:3, 0], m[:3, 1], m[:3, 2], m[:3, 3] = x, np.cross(z, x), z, p
    elif e[0] == 'matrix':
        m = np.array(e[1], dtype=float)
    elif e[0] == 'ortho':
        m[2, 2] = 1. / (e[2] - e[1])
        m[2, 3] = -e[1] / (e[2] - e[1])
    else:
        n, f = e[2], e[3]
        c = 1. / math.tan(math.radians(e[1]) / 2.)
        m = np.diag([c, c, f / (f - n), 0.])
        m[2, 3], m[3, 2] = -f * n / (f - n), 1.
    return m


def matrix(chain):
    m = np.eye(4)
    for e in chain:
        m = m.dot(elem(e))
    return m


def place(m, p):
    h = m.dot(list(p) + [1.])
    return [float(x) for x in h[:3] / h[3]]


def corners(b):
    return [[b[(i >> k) & 1][k] for k in range(3)] for i in range(8)]


def hull(ps):
    ps = np.array(ps)
    return [[float(x) for x in ps.min(axis=0)], [float(x) for x in ps.max(axis=0)]]


def flat(x):
    if isinstance(x, (list, tuple, np.ndarray)):
        return [y for z in x for y in flat(z)]
    return [float(x)]


class C30(Check):
    id = 'C30'
    quick = 1500
    thorough = 30000
    focus = ('transform/__init__.py', 'geometry/__init__.py', 'geometry/utility.py', 'transform/quat.py')
    fault_kinds = ('memory', 'interrupt')
    real = ('transforms', 'quaternions', 'points, vectors, normals, rays and boxes', 'direction helpers')
    stub = ('threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 2-4 tasks with 1-6 operations each (moving points, vectors, normals, rays with differentials and '
            'boxes there and back by shared chains of transforms, joining and asking boxes, crossing them with rays, '
            'turning rotations into quaternions, building frames) on shared arguments, optionally with failing '
            'statements, under one schedule; non-trivial: two tasks interleaved; distinct by schedule and operations')
    assumptions = ('results within 1e-7 of the scale of the operation are equal; 1e-4 through a projection',
                   'points within 0.05 of the plane of a projection are not judged')
    mods = ('pytracer.geometry', 'pytracer.transform', 'pytracer.transform.quat')

    def gen(self, rng, tier):
        r = lambda a, b: round(rng.uniform(a, b), 3)
        vec = lambda a=2.: [rng.choice([r(-a, a), r(-a, a), r(-a, a), 0.]) for _ in range(3)]

        def direction():
            while True:
                v = vec()
                if sum(x * x for x in v) > .05:
                    return v

        def element():
            k = rng.choice(['move', 'scale', 'x', 'y', 'z', 'turn', 'turn', 'look', 'matrix', 'ortho'])
            if k == 'move':
                return [k, vec(3.)]
            if k == 'scale':
                return [k, [rng.choice([1., -1.]) * r(.4, 2.5) for _ in range(3)] if rng.random() < .7 else
                        [r(.4, 2.5)] * 3]
            if k in 'xyz':
                return [k, rng.choice([r(-180., 180.), 90., 180., -90.])]
            if k == 'turn':
                return [k, direction(), rng.choice([r(-180., 180.), r(-180., 180.), 90., 180.])]
            if k == 'ortho':
                n = r(-1., 2.)
                return [k, n, round(n + r(.5, 3.), 3)]
            while k == 'look':
                e = [k, vec(), vec(), direction()]
                z = np.array(e[2]) - e[1]
                if np.linalg.norm(z) > .1 and np.linalg.norm(np.cross(z, e[3])) > .1 * np.linalg.norm(z):
                    return e
            while True:
                m = [[r(-1.5, 1.5) for _ in range(4)] for _ in range(3)] + [[0., 0., 0., 1.]]
                if abs(np.linalg.det(np.array(m))) > .3:
                    return ['matrix', m]
        trs = []
        for _ in range(rng.choice([2, 3, 4])):
            c = [element() for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .12:
                c.insert(0, ['persp', r(20., 100.), r(.1, 1.), r(3., 9.)])
            trs.append(c)
        args = {'p': [vec(3.) for _ in range(3)], 'v': [direction() for _ in range(3)],
                'n': [direction() for _ in range(2)], 'b': [hull([vec(3.), vec(3.)]) for _ in range(3)],
                'r': [[vec(3.), direction(), r(0., .3), rng.choice([r(.5, 5.), None]), rng.randrange(4), r(0., 1.),
                       rng.choice([None, [vec(), vec(), direction(), direction()]]), rng.random() < .3]
                      for _ in range(3)]}
        for b in args['b']:
            for k in range(3):
                if b[1][k] - b[0][k] < .1:
                    b[1][k] = round(b[0][k] + r(.2, 2.), 3)
        same = rng.choice(['move', 'move', 'box', 'dir', 'ray', 'quat']) if rng.random() < .3 else None

        def op():
            k = same or rng.choice(['move', 'move', 'move', 'move', 'box', 'box', 'ray', 'dir', 'quat', 'facts', 'peek'])
            t = rng.randrange(len(trs))
            if k == 'move':
                w = rng.choice(['p', 'v', 'n', 'r', 'r', 'b'])
                o = [k, t, rng.choice(['there', 'there', 'back', 'round', 'with']), rng.randrange(len(trs)), w,
                     rng.randrange(len(args[w]))]
                chain = trs[t] + (trs[o[3]] if o[2] == 'with' else [])
                if w == 'b' and any(e[0] not in ('move', 'scale', 'ortho') or e[0] == 'scale' and min(e[1]) < 0.
                                    for e in chain):
                    # a box is moved by two of its corners
                    o[4] = w = 'v'
                if any(e[0] == 'persp' for e in chain):
                    m = matrix(chain)
                    if o[2] == 'back':
                        m = np.linalg.inv(m)
                    if w != 'p' or abs(m.dot(list(args['p'][o[5]]) + [1.])[3]) < .05:
                        return ['peek', t]
                return o
            if k == 'box':
                w = rng.choice(['join', 'add', 'grow', 'meet', 'in', 'size', 'at', 'ball', 'cross', 'cross', 'eq'])
                return [k, w, rng.randrange(3), rng.randrange(3), [r(0., 1.) for _ in range(3)]]
            if k == 'ray':
                return [k, rng.choice(['at', 'child', 'copy', 'spread']), rng.randrange(3), rng.randrange(3),
                        r(.1, 2.)]
            if k == 'dir':
                return [k, rng.choice(['frame', 'unit', 'face', 'polar', 'cross']), rng.randrange(3),
                        rng.randrange(2)]
            if k == 'quat':
                return [k, direction(), r(-180., 180.), rng.choice('ta')]
            return [k, t]
        p = {'trs': trs, 'args': args,
             'threads': [[op() for _ in range(rng.randint(1, 6))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .3:
            p['mem'] = {'p': rng.choice([.002, .01, .05]), 'max': rng.choice([1, 1, 2]),
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt']])}
        return p

    # -- expected ---------------------------------------------------------------
    @staticmethod
    def moved(m, w, a):
        """What a transform makes of an argument."""
        if w == 'p':
            return place(m, a)
        if w == 'v':
            return flat(m[:3, :3].dot(a))
        if w == 'n':
            return flat(np.linalg.inv(m)[:3, :3].T.dot(a))
        if w == 'b':
            return flat(hull([place(m, c) for c in corners(a)]))
        o = place(m, a[0]) + flat(m[:3, :3].dot(a[1])) + [a[2], math.inf if a[3] is None else a[3], a[4], a[5]]
        if a[6] and not a[7]:
            o += place(m, a[6][0]) + place(m, a[6][1]) + flat(m[:3, :3].dot(a[6][2])) + flat(m[:3, :3].dot(a[6][3]))
        return o

    def expect(self, p, op):
        """(values, tolerance), or None when the case is not judged."""
        A = p['args']
        if op[0] == 'move':
            chain = p['trs'][op[1]] + (p['trs'][op[3]] if op[2] == 'with' else [])
            m = matrix(p['trs'][op[1]])
            if op[2] == 'with':
                m = m.dot(matrix(p['trs'][op[3]]))
            proj = any(e[0] == 'persp' for e in chain)
            if np.linalg.cond(m) > 1e4:
                return None
            if op[2] == 'back':
                m = np.linalg.inv(m)
            a = A[op[4]][op[5]]
            if op[2] == 'round':
                m = np.eye(4)
            return self.moved(m, op[4], a), 2e-4 if proj else 1e-7 if op[2] in ('there', 'with') else 1e-6
        if op[0] == 'box':
            w, b, c = op[1], A['b'][op[2]], A['b'][op[3]]
            pt = A['p'][op[3]]
            d = [y - x for x, y in zip(*b)]
            mid = [(x + y) / 2. for x, y in zip(*b)]
            if w == 'join':
                return flat(hull(b + c)), 1e-7
            if w == 'add':
                return flat(hull(b + [pt])), 1e-7
            if w == 'grow':
                return [x - op[4][0] for x in b[0]] + [x + op[4][0] for x in b[1]], 1e-7
            if w == 'meet':
                return [float(all(b[1][k] >= c[0][k] and c[1][k] >= b[0][k] for k in range(3)))], 0.
            if w == 'in':
                return [float(all(b[0][k] <= pt[k] <= b[1][k] for k in range(3)))], 0.
            if w == 'size':
                return [d[0] * d[1] * d[2], 2. * (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]), max(d)], 1e-7
            if w == 'at':
                return [x + u * (y - x) for x, y, u in zip(b[0], b[1], op[4])] + \
                    [(q - x) / y for q, x, y in zip(pt, b[0], d)], 1e-7
            if w == 'ball':
                return mid + [math.sqrt(sum(x * x for x in d)) / 2.], 1e-7
            if w == 'eq':
                return [float(b == c), float(b != c), 1., 0.], 0.
            r = A['r'][op[3]]
            t0, t1 = r[2], math.inf if r[3] is None else r[3]
            for k in range(3):
                if abs(r[1][k]) < 1e-9:
                    if min(abs(r[0][k] - b[0][k]), abs(r[0][k] - b[1][k])) < 1e-6:
                        return None
                    if not b[0][k] <= r[0][k] <= b[1][k]:
                        return [0.], 0.
                    continue
                u = sorted([(b[0][k] - r[0][k]) / r[1][k], (b[1][k] - r[0][k]) / r[1][k]])
                t0, t1 = max(t0, u[0]), min(t1, u[1])
            if abs(t0 - t1) < 1e-6:
                return None
            return ([1., t0, t1], 1e-7) if t0 < t1 else ([0.], 0.)
        if op[0] == 'ray':
            r = A['r'][op[2]]
            if op[1] == 'at':
                return [o + op[4] * d for o, d in zip(r[0], r[1])], 1e-7
            if op[1] == 'child':
                return A['p'][op[3]] + A['v'][op[3]] + [op[4], math.inf, r[4] + 1., r[5]], 1e-7
            if op[1] == 'copy':
                return self.moved(np.eye(4), 'r', r[:6] + [None, True]), 1e-7
            if not r[6] or r[7]:
                return None
            x = self.moved(np.eye(4), 'r', r)
            base = [r[0], r[0], r[1], r[1]]
            for i in range(4):
                for k in range(3):
                    j = 10 + 3 * i + k
                    x[j] = base[i][k] + (x[j] - base[i][k]) * op[4]
            return x, 1e-7
        if op[0] == 'dir':
            v, n = np.array(A['v'][op[2]]), np.array(A['n'][op[3]])
            u = v / math.sqrt(float(v.dot(v)))
            if op[1] == 'frame':
                # held to orthonormality only
                return flat(u) + [0., 0., 0., 1., 1.], 1e-7
            if op[1] == 'unit':
                return flat(u), 1e-7
            if op[1] == 'face':
                if abs(v.dot(n)) < 1e-6:
                    return None
                return flat(n if v.dot(n) > 0. else -n), 1e-7
            if op[1] == 'polar':
                return flat(u), 1e-6
            return flat(np.cross(v, n)) + [abs(float(v.dot(n)))], 1e-7
        if op[0] == 'quat':
            return flat(spin(op[1], op[2])), 1e-6
        m = matrix(p['trs'][op[1]])
        ks = [e[0] for e in p['trs'][op[1]]]
        if 'persp' in ks:
            return None
        rigid = not set(ks) & {'scale', 'matrix', 'ortho'}
        return [float(np.linalg.det(m[:3, :3]) < 0.), 0. if rigid else -1.], 1e-7

    # -- the real thing -----------------------------------------------------------
    @staticmethod
    def element(e):
        import pytracer.geometry as geo
        from pytracer.transform import Transform as T
        if e[0] == 'move':
            return T.translate(geo.Vector(*e[1]))
        if e[0] == 'scale':
            return T.scale(*e[1])
        if e[0] in ('x', 'y', 'z'):
            return getattr(T, 'rotate_' + e[0])(e[1])
        if e[0] == 'turn':
            return T.rotate(e[2], geo.Vector(*e[1]))
        if e[0] == 'look':
            return T.look_at(geo.Point(*e[1]), geo.Point(*e[2]), geo.Vector(*e[3]))
        if e[0] == 'matrix':
            return T(np.array(e[1], dtype=float))
        return T.orthographic(e[1], e[2]) if e[0] == 'ortho' else T.perspective(*e[1:])

    def build(self, p):
        import pytracer.geometry as geo
        from pytracer.transform import Transform
        trs = []
        for c in p['trs']:
            t = self.element(c[0])
            for e in c[1:]:
                t = t * self.element(e)
            trs.append(t)
        A = p['args']

        def ray(a):
            r = (geo.Ray if a[7] else geo.RayDifferential)(
                geo.Point(*a[0]), geo.Vector(*a[1]), a[2], np.inf if a[3] is None else a[3], a[4], a[5])
            if a[6] and not a[7]:
                r.has_differentials = True
                r.rxOrigin, r.ryOrigin = (geo.Point(*x) for x in a[6][:2])
                r.rxDirection, r.ryDirection = (geo.Vector(*x) for x in a[6][2:])
            return r
        return trs, {'p': [geo.Point(*x) for x in A['p']], 'v': [geo.Vector(*x) for x in A['v']],
                     'n': [geo.Normal(*x) for x in A['n']],
                     'b': [geo.BBox(geo.Point(*x[0]), geo.Point(*x[1])) for x in A['b']],
                     'r': [ray(a) for a in A['r']]}

    @staticmethod
    def read(x):
        """The numbers an object holds."""
        if hasattr(x, 'pMin'):
            return flat(x.pMin) + flat(x.pMax)
        if hasattr(x, 'maxt'):
            o = flat(x.o) + flat(x.d) + [float(x.mint), float(x.maxt), float(x.depth), float(x.time)]
            if getattr(x, 'has_differentials', False):
                o += flat([x.rxOrigin, x.ryOrigin, x.rxDirection, x.ryDirection])
            return o
        return flat(x)

    @staticmethod
    def scribble(x):
        if hasattr(x, 'pMin'):
            x.expand(1.)
            return
        parts = [x]
        if hasattr(x, 'maxt'):
            parts = [getattr(x, k) for k in ('o', 'd', 'rxOrigin', 'ryOrigin', 'rxDirection', 'ryDirection')
                     if hasattr(x, k)]
            x.mint, x.maxt, x.depth, x.time = 7., 8., 9, .5
        for q in parts:
            for k in range(3):
                q[k] = q[k] + 1.

    def do(self, op, live, held):
        """The numbers of an operation; objects it returns go to held."""
        import pytracer.geometry as geo
        import pytracer.transform.quat as quat
        from pytracer.transform import Transform
        trs, A = live
        if op[0] == 'move':
            t, x = trs[op[1]], A[op[4]][op[5]]
            if op[2] == 'there':
                y = t(x)
            elif op[2] == 'back':
                y = t.inverse()(x)
            elif op[2] == 'round':
                y = t.inverse()(t(x))
            else:
                y = (t * trs[op[3]])(x)
            if type(y) is not type(x):
                raise Violation('wrong-kind', '%r gives a %s for a %s' % (op, type(y).__name__, type(x).__name__))
            held.append(y)
            return self.read(y)
        if op[0] == 'box':
            w, b, c, pt = op[1], A['b'][op[2]], A['b'][op[3]], A['p'][op[3]]
            if w in ('join', 'add'):
                z = c if w == 'join' else pt
                y = geo.BBox.from_bbox(b)
                y.union(z)
                u = geo.BBox.Union(b, z)
                if self.read(y) != self.read(u):
                    raise Violation('wrong-box', 'a box joined in place is %r, joined apart %r' % (
                        self.read(y), self.read(u)))
                held.append(u)
                return self.read(u)
            if w == 'grow':
                y = geo.BBox.from_bbox(b).expand(op[4][0])
                held.append(y)
                return self.read(y)
            if w == 'meet':
                return [float(bool(b.overlaps(c)))]
            if w == 'in':
                return [float(bool(b.inside(pt)))]
            if w == 'size':
                k = int(b.maximum_extent())
                return [float(b.volume()), float(b.surface_area()), float(b[1][k] - b[0][k])]
            if w == 'at':
                q, o = b.lerp(*op[4]), b.offset(pt)
                held += [q, o]
                return flat(q) + flat(o)
            if w == 'ball':
                q, rad = b.bounding_sphere()
                held.append(q)
                return flat(q) + [float(rad)]
            if w == 'eq':
                y = geo.BBox.from_bbox(b)
                return [float(bool(b == c)), float(bool(b != c)), float(bool(b == y)), float(bool(b != y))]
            hit, t0, t1 = b.intersect_p(A['r'][op[3]])
            return [1., float(t0), float(t1)] if hit else [0.]
        if op[0] == 'ray':
            r = A['r'][op[2]]
            if op[1] == 'at':
                y = r(op[4])
            elif op[1] == 'child':
                y = type(r).from_parent(A['p'][op[3]], A['v'][op[3]], r, op[4])
            elif op[1] == 'copy':
                y = type(r).from_ray(r)
            else:
                if not getattr(r, 'has_differentials', False):
                    return None
                y = geo.RayDifferential.from_rd(r)
                y.scale_differential(op[4])
            held.append(y)
            return self.read(y)
        if op[0] == 'dir':
            v, n = A['v'][op[2]], A['n'][op[3]]
            if op[1] == 'frame':
                a, b, c = geo.coordinate_system(geo.normalize(v))
                held += [a, b, c]
                d = lambda x, y: sum(p * q for p, q in zip(flat(x), flat(y)))
                return flat(a) + [d(a, b), d(b, c), d(c, a), d(b, b), d(c, c)]
            if op[1] == 'unit':
                y = geo.normalize(v)
                z = v.copy().normalize()
                held += [y, z]
                if flat(y) != flat(z):
                    raise Violation('wrong-result', 'normalised apart %r, in place %r' % (flat(y), flat(z)))
                return flat(y)
            if op[1] == 'face':
                y = geo.face_forward(n, v)
                held.append(y)
                return flat(y)
            if op[1] == 'polar':
                u = geo.normalize(v)
                t, f = geo.spherical_theta(u), geo.spherical_phi(u)
                y = geo.spherical_direction(np.sin(t), np.cos(t), f)
                z = geo.spherical_direction(np.sin(t), np.cos(t), f, geo.Vector(1., 0., 0.), geo.Vector(0., 1., 0.),
                                            geo.Vector(0., 0., 1.))
                held += [y, z]
                return flat(y) if np.allclose(flat(y), flat(z)) and 0. <= f <= 2. * math.pi else flat(z) + [float(f)]
            y = v.cross(n)
            held.append(y)
            return flat(y) + [float(v.abs_dot(n))]
        if op[0] == 'quat':
            m = np.eye(4)
            m[:3, :3] = spin(op[1], op[2])
            q = quat.from_transform(Transform(m)) if op[3] == 't' else quat.from_arr(m)
            y = quat.to_transform(q)
            if not np.allclose(y.m.dot(y.m_inv), np.eye(4), atol=1e-6):
                raise Violation('wrong-inverse', 'the transform of a quaternion is %r, its inverse %r' % (
                    flat(y.m), flat(y.m_inv)))
            return flat(y.m[:3, :3])
        t = trs[op[1]]
        k = t.copy()
        if not (k == t) or k != t or bool(t.is_identity()) != np.array_equal(t.m, np.eye(4)):
            raise Violation('wrong-facts', 'a copy of a transform differs from it')
        return [float(bool(t.swaps_handedness())), float(bool(t.has_scale()))]

    def peek(self, p, live, when):
        trs, A = live
        for w in 'pvnbr':
            for a, x in zip(p['args'][w], A[w]):
                want = self.moved(np.eye(4), 'r', a) if w == 'r' else flat(a)
                if self.read(x) != want:
                    raise Violation('argument-changed', '%s a shared argument reads %r, it was made as %r' % (
                        when, self.read(x), want))
        for c, t in zip(p['trs'], trs):
            m = matrix(c)
            s = np.abs(m).max()
            i = np.linalg.inv(m)
            if not np.allclose(t.m, m, atol=1e-7 * s, rtol=1e-7) or \
                    not np.allclose(t.m_inv, i, atol=1e-6 * np.abs(i).max(), rtol=1e-6):
                raise Violation('wrong-matrix', '%s the transform of %r is %r with inverse %r' % (
                    when, c, flat(t.m), flat(t.m_inv)))

    def execute(self, p, run):
        with np.errstate(all='ignore'):
            self.trial(p, run)

    def trial(self, p, run):
        live = self.build(p)
        self.peek(p, live, 'at first')
        got, failed, held, errs = {}, {}, [], []

        def one(i, j, op, got):
            if op[0] == 'peek':
                try:
                    self.peek(p, live, 'while tasks run')
                except Violation as e:
                    errs.append(e)
                return
            mine = []
            got[(i, j)] = self.do(op, live, mine)
            if j % 2:
                # results are the caller's own: to keep, or to write on
                for x in mine:
                    self.scribble(x)
            else:
                held.extend((op, x, self.read(x)) for x in mine)

        def task(i, ops):
            def f():
                for j, op in enumerate(ops):
                    try:
                        one(i, j, op, got)
                    except (sim.InjectedFault, sim.InjectedInterrupt) as e:
                        failed[(i, j)] = e
                    except Violation as e:
                        errs.append(e)
            return f
        faults = None
        if p.get('mem'):
            m = p['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/transform/' in x[0] or '/geometry/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('task%d' % i, task(i, ops)) for i, ops in enumerate(p['threads'])], faults=faults,
                         max_steps=3000000)
        if s.outcome:
            raise Violation('no-progress', 'the operations do not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(failed) != len(s.fault_log):
            raise Violation('failure-hidden', '%d failures, %d operations reported one' % (
                len(s.fault_log), len(failed)))
        if errs:
            raise errs[0]
        self.compare(p, got, run)
        later = {}
        for i, ops in enumerate(p['threads']):
            for j, op in enumerate(ops):
                one(i, j, op, later)
        self.compare(p, later, run, 'later-')
        self.peek(p, live, 'after the operations')
        if errs:
            raise errs[0]
        for op, x, v in held:
            if self.read(x) != v:
                raise Violation('result-changed', 'the result of %r read %r, now it reads %r' % (op, v, self.read(x)))
        run.nontrivial = s.switches > len(p['threads']) > 1
        run.keys = [p['trs'], p['threads'], sorted(failed)]

    def compare(self, p, got, run, prefix=''):
        for (i, j), g in sorted(got.items()):
            op = p['threads'][i][j]
            e = self.expect(p, op)
            if e is None or g is None:
                run.probe('not judged')
                continue
            w, tol = e
            if op[0] == 'facts' and w[1] < 0.:
                w, g = w[:1], g[:1]
            scale = max([1.] + [abs(x) for x in w if not math.isinf(x)])
            if len(w) != len(g) or any(not (a == b or abs(a - b) <= tol * scale) for a, b in zip(g, w)):
                raise Violation(prefix + 'wrong-result', '%r gives %r, expected %r' % (op, g, w))
            run.probe('judged: ' + op[0])


CHECK = C30
