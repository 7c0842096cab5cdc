"""Scenes of primitives, rays, and an independent analytic reference."""
import math

from .core import Violation


class Tok(object):
    """A material that only identifies its primitive."""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'M%d' % self.i


# -- generation -------------------------------------------------------------
def rvec(rng, s):
    return [rng.uniform(-s, s) for _ in range(3)]


def gen_wall(rng):
    """A flat sheet of triangles across an axis, all coordinates multiples of 1/4."""
    ax, h = rng.randrange(3), rng.choice([.5, 1.])
    a, b = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
    P, idx = [], []
    for i in range(a + 1):
        for j in range(b + 1):
            p = [i * h - 1., j * h - 1.]
            p.insert(ax, 0.)
            P.append(p)
    for i in range(a):
        for j in range(b):
            p, q = i * (b + 1) + j, (i + 1) * (b + 1) + j
            idx += [p, q, q + 1, p, q + 1, p + 1] if rng.random() < .5 else [p, q, p + 1, q, q + 1, p + 1]
    return {'k': 'tris', 'c': [rng.randrange(-8, 9) * .25 for _ in range(3)], 'P': P, 'idx': idx,
            'wall': [ax, a * h, b * h]}


def seam_ray(rng, w):
    """Along the axis a wall is across, mostly through edges and corners its triangles share."""
    ax, a, b = w['wall']
    d, o = [0., 0., 0.], list(w['c'])
    d[ax] = rng.choice([-1., 1.])
    o[ax] -= d[ax] * rng.randrange(1, 20) * .25
    u, v = [i for i in range(3) if i != ax]
    o[u] += rng.randrange(1, int(a * 4)) * .25 - 1.
    o[v] += rng.randrange(1, int(b * 4)) * .25 - 1.
    return o, signed(rng, d)


def signed(rng, d):
    """Zeros may come with either sign."""
    return [x if x else rng.choice([0., -0.]) for x in d]


def gen_shape(rng, spread=3.):
    if rng.random() < .06:
        return gen_wall(rng)
    k = rng.choice(['sphere', 'sphere', 'tris', 'tris', 'tris', 'disk', 'cyl', 'ellipsoid'])
    c = rvec(rng, spread)
    if k == 'sphere':
        return {'k': 'sphere', 'c': c, 'r': rng.uniform(.3, 1.4)}
    if k == 'ellipsoid':
        return {'k': 'sphere', 'c': c, 'r': 1.0, 's': [rng.uniform(.3, 1.4) for _ in range(3)]}
    if k == 'disk':
        return {'k': 'disk', 'c': c, 'r': rng.uniform(.4, 1.5), 'rot': rng.choice([0, 0, 90, rng.uniform(0, 180)])}
    if k == 'cyl':
        return {'k': 'cyl', 'c': c, 'r': rng.uniform(.3, .9), 'h': rng.uniform(.4, 1.2)}
    n = rng.choice([1, 2, 2, 3, 5])
    P = []
    for _ in range(3 * n if rng.random() < .5 else max(3, n + 2)):
        P.append(rvec(rng, rng.choice([1.5, 1.5, 2.5])))
    idx = []
    for _ in range(n):
        idx += rng.sample(range(len(P)), 3)
    if rng.random() < .2:
        # a flat quad, as in walls
        h = rng.uniform(1, 3)
        P = [[-h, 0, -h], [h, 0, -h], [h, 0, h], [-h, 0, h]]
        idx = [0, 1, 2, 2, 0, 3]
    return {'k': 'tris', 'c': c, 'P': P, 'idx': idx}


def gen_ray(rng, shapes, spread=5.):
    o = rvec(rng, spread)
    if rng.random() < .15 and shapes:
        o = [a + rng.uniform(-.2, .2) for a in rng.choice(shapes)['c']]
    tgt = [a + rng.uniform(-1, 1) for a in rng.choice(shapes)['c']] if shapes else rvec(rng, 2)
    d = [t - a for t, a in zip(tgt, o)]
    m = math.sqrt(sum(x * x for x in d)) or 1.
    f = rng.choice([1. / m, 1. / m, 2. / m, 1.])
    d = [x * f for x in d]
    u = rng.random()
    if u < .2:
        ax = rng.randrange(3)
        d = [0., 0., 0.]
        d[ax] = rng.choice([-1., 1.])
        o = list(tgt)
        o[ax] = -d[ax] * rng.uniform(0, 7)
    elif u < .3:
        d[rng.randrange(3)] = 0.
    if d == [0., 0., 0.]:
        d = [0., 0., 1.]
    d = signed(rng, d)
    walls = [s for s in shapes if s.get('wall')]
    if walls and rng.random() < .6:
        o, d = seam_ray(rng, rng.choice(walls))
    mint = rng.choice([0., 0., 0., rng.uniform(0, 3.)])
    maxt = rng.choice([None, None, None, rng.uniform(2., 12.)])
    if maxt is not None and maxt <= mint:
        maxt = mint + 1.
    return [rng.choice(['i', 'i', 'p']), o, d, mint, maxt]


# -- construction -------------------------------------------------------------
def xform(s):
    import pytracer.transform as trans
    import pytracer.geometry as geo
    t = trans.Transform.translate(geo.Vector(*s['c']))
    if s.get('rot'):
        t = t * trans.Transform.rotate_x(s['rot'])
    if s.get('s'):
        t = t * trans.Transform.scale(*s['s'])
    return t


def mk_shape(s):
    import pytracer.geometry as geo
    import pytracer.shape as sh
    t = xform(s)
    inv = t.inverse()
    if s['k'] == 'sphere':
        return sh.Sphere(t, inv, False, s['r'], -s['r'], s['r'], 360.)
    if s['k'] == 'disk':
        return sh.Disk(t, inv, False, 0., s['r'], 0., 360.)
    if s['k'] == 'cyl':
        return sh.Cylinder(t, inv, False, s['r'], -s['h'], s['h'], 360.)
    return sh.TriangleMesh(t, inv, False, len(s['idx']) // 3, len(s['P']), list(s['idx']),
                           [geo.Point(*p) for p in s['P']])


class LoaderError(IOError):
    pass


_lazy = None


def lazy_class():
    """A primitive standing for geometry loaded on demand: cannot be
    intersected until refined; its loader may fail a given number of times."""
    global _lazy
    if _lazy is None:
        from pytracer.aggregate.primitive import Primitive
        import pytracer.geometry as geo
        from . import sim

        class Lazy(Primitive):
            def __init__(self, kids, ctl):
                Primitive.__init__(self)
                self.kids = kids
                self.ctl = ctl          # {'fails': n, 'calls': 0, 'live': 0}

            def world_bound(self):
                b = geo.BBox()
                for k in self.kids:
                    b.union(k.world_bound())
                return b

            def can_intersect(self):
                return False

            def refine(self, refined):
                c = self.ctl
                c['calls'] += 1
                fail = c['fails'] > 0
                if fail:
                    c['fails'] -= 1
                sim._y(0)
                for n, k in enumerate(self.kids):
                    if fail and n == c.get('at', 0) % len(self.kids):
                        c['failed'] = c.get('failed', 0) + 1
                        raise LoaderError('geometry could not be loaded')
                    sim._y(0)
                    refined.append(k)

            def intersect(self, r, isect):
                raise NotImplementedError('unrefined')

            def intersect_p(self, r):
                raise NotImplementedError('unrefined')

            def get_area_light(self):
                return None

            def get_bsdf(self, dg, o2w):
                return None

            def get_bssrdf(self, dg, o2w):
                return None
        _lazy = Lazy
    return _lazy


def mk_prims(spec):
    """spec: list of shape specs or {'k': 'lazy', 'kids': [...], 'fails': n}.
    Every leaf shape has its own token (index in leaf order)."""
    from pytracer.aggregate import GeometricPrimitive
    toks = []
    ctls = []

    def mk(s):
        if s['k'] == 'lazy':
            kids = [mk(x) for x in s['kids']]
            ctl = {'fails': s.get('fails', 0), 'calls': 0, 'at': s.get('at', 0)}
            ctls.append(ctl)
            return lazy_class()(kids, ctl)
        t = Tok(len(toks))
        toks.append(t)
        return GeometricPrimitive(mk_shape(s), t)
    return [mk(s) for s in spec], toks, ctls


def leaves(spec):
    out = []
    for s in spec:
        if s['k'] == 'lazy':
            out += leaves(s['kids'])
        else:
            out.append(s)
    return out


def mk_ray(r):
    import pytracer.geometry as geo
    import numpy as np
    return geo.Ray(geo.Point(*r[1]), geo.Vector(*r[2]), r[3], np.inf if r[4] is None else r[4])


# -- analytic reference -------------------------------------------------------
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def local(s, o, d):
    o = sub(o, s['c'])
    d = list(d)
    if s.get('rot'):
        a = -math.radians(s['rot'])
        c, n = math.cos(a), math.sin(a)
        o = [o[0], c * o[1] - n * o[2], n * o[1] + c * o[2]]
        d = [d[0], c * d[1] - n * d[2], n * d[1] + c * d[2]]
    if s.get('s'):
        o = [x / k for x, k in zip(o, s['s'])]
        d = [x / k for x, k in zip(d, s['s'])]
    return o, d


MARGIN = 2e-3


def hits(s, o, d):
    """(list of t, doubtful) of the full line against one shape."""
    lo, ld = local(s, o, d)
    if s['k'] in ('sphere', 'cyl'):
        z = 1 if s['k'] == 'sphere' else 0
        A = ld[0] ** 2 + ld[1] ** 2 + z * ld[2] ** 2
        B = 2 * (lo[0] * ld[0] + lo[1] * ld[1] + z * lo[2] * ld[2])
        C = lo[0] ** 2 + lo[1] ** 2 + z * lo[2] ** 2 - s['r'] ** 2
        if A < 1e-9:
            return [], s['k'] == 'cyl' and abs(C) < 1e-2 or s['k'] == 'sphere'
        D = B * B - 4 * A * C
        if abs(D) < MARGIN * max(1., A):
            return [], True
        if D < 0:
            return [], False
        q = math.sqrt(D)
        ts = sorted([(-B - q) / (2 * A), (-B + q) / (2 * A)])
        if z:
            return ts, False
        doubt = False
        out = []
        for t in ts:
            h = lo[2] + t * ld[2]
            if abs(abs(h) - s['h']) < MARGIN:
                doubt = True
            if abs(h) <= s['h']:
                out.append(t)
        return out, doubt
    if s['k'] == 'disk':
        if abs(ld[2]) < 1e-2:
            return [], abs(ld[2]) > 0 or abs(lo[2]) < 1e-6
        t = -lo[2] / ld[2]
        r = math.hypot(lo[0] + t * ld[0], lo[1] + t * ld[1])
        if abs(r - s['r']) < MARGIN or r < 1e-4:
            return [], True
        return ([t] if r < s['r'] else []), False
    out, doubt = [], False
    if s.get('wall') and sorted(abs(x) for x in d) == [0., 0., 1.] and abs(d[s['wall'][0]]) == 1. and \
            all(x * 4. == int(x * 4.) for x in o):
        # no arithmetic rounds: a ray through a seam meets a triangle
        ax, a, b = s['wall']
        u, v = [lo[i] + 1. for i in range(3) if i != ax]
        m = min(u, v, a - u, b - v)
        return ([-lo[ax] / d[ax]] if m > 0. else []), m == 0.
    for i in range(0, len(s['idx']), 3):
        p = [s['P'][j] for j in s['idx'][i:i + 3]]
        e1, e2 = sub(p[1], p[0]), sub(p[2], p[0])
        s1 = cross(ld, e2)
        div = dot(s1, e1)
        area = math.sqrt(dot(cross(e1, e2), cross(e1, e2)))
        if area < 1e-4:
            doubt = True
            continue
        if abs(div) < 1e-4 * area:
            # edge-on: doubtful only near the plane
            n = [x / area for x in cross(e1, e2)]
            if abs(dot(n, sub(lo, p[0]))) < 1e-2 or abs(div) > 0:
                doubt = True
            continue
        v = sub(lo, p[0])
        b1 = dot(v, s1) / div
        s2 = cross(v, e1)
        b2 = dot(ld, s2) / div
        b0 = 1 - b1 - b2
        m = min(b0, b1, b2)
        if abs(m) < MARGIN:
            doubt = True
            continue
        if m > 0:
            out.append(dot(e2, s2) / div)
    return out, doubt


def reference(spec, ray):
    """('hit', t, tokens) | ('miss',) | ('doubt',)."""
    _, o, d, mint, maxt = ray
    maxt = float('inf') if maxt is None else maxt
    best = []
    for n, s in enumerate(leaves(spec)):
        ts, doubt = hits(s, o, d)
        if doubt:
            return ('doubt',)
        for t in ts:
            if abs(t - mint) < 1e-3 or abs(t - maxt) < 1e-3:
                return ('doubt',)
            if mint < t < maxt:
                best.append((t, n))
    if not best:
        return ('miss',)
    best.sort()
    t = best[0][0]
    toks = set(n for q, n in best if q - t < 1e-3 * max(1., abs(t)))
    return ('hit', t, toks)


# -- queries ------------------------------------------------------------------
def query(agg, ray):
    """One query against an aggregate; the observable outcome."""
    from pytracer.aggregate import Intersection
    r = mk_ray(ray)
    if ray[0] == 'p':
        return ('p', bool(agg.intersect_p(r)))
    isect = Intersection()
    hit = bool(agg.intersect(r, isect))
    if not hit:
        return ('i', False)
    p = isect.dg.p
    return ('i', True, float(r.maxt), isect.primitive.material.i,
            (float(p.x), float(p.y), float(p.z)),
            isect.primitiveId == isect.primitive.primitiveId,
            isect.shapeId == isect.primitive.shape.shapeId,
            isect.dg.shape is isect.primitive.shape)


def judge(spec, ray, got, prefix=''):
    """Compare an observed outcome with the reference; True when compared."""
    ref = reference(spec, ray)
    if ref[0] == 'doubt':
        return False
    want = ref[0] == 'hit'
    if got[1] != want:
        raise Violation(prefix + 'wrong-hit', 'ray %r: the aggregate reports %s, the shapes give %s' % (
            ray, 'a hit' if got[1] else 'no hit', ref))
    if got[0] == 'p' or not want:
        return True
    _, _, t, tok, p, a, b, c = got
    tol = 1e-5 * max(1., abs(ref[1]))
    if abs(t - ref[1]) > tol:
        raise Violation(prefix + 'wrong-distance', 'ray %r: hit at t=%.9g, nearest shape is at t=%.9g' % (
            ray, t, ref[1]))
    if tok not in ref[2]:
        raise Violation(prefix + 'wrong-primitive', 'ray %r: reports primitive %d, nearest is %s' % (
            ray, tok, sorted(ref[2])))
    q = [o + d * ref[1] for o, d in zip(ray[1], ray[2])]
    if max(abs(x - y) for x, y in zip(p, q)) > 1e-4 * max(1., max(abs(x) for x in q)):
        raise Violation(prefix + 'wrong-point', 'ray %r: reported point %r, hit is at %r' % (ray, p, q))
    if not (a and b and c):
        raise Violation(prefix + 'mixed-result', 'ray %r: the reported record mixes different primitives '
                        '(primitive id %s, shape id %s, geometry %s)' % (ray, a, b, c))
    return True


def same_outcome(a, b):
    if a[0] != b[0] or a[1] != b[1]:
        return False
    if a[0] == 'p' or not a[1]:
        return True
    return abs(a[2] - b[2]) <= 1e-9 * max(1., abs(a[2])) and a[3] == b[3]
