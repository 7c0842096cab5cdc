"""Placed shapes, whole or partial, and an independent description of them."""
import math

import numpy as np


# -- generation -------------------------------------------------------------
def gen(rng, kinds=('sphere', 'disk', 'cyl', 'tris'), partial=.5, spread=2., ro=True, scale=0., uv=0.):
    k = rng.choice(kinds)
    s = {'k': k, 'c': [round(rng.uniform(-spread, spread), 3) for _ in range(3)],
         'rot': [round(rng.uniform(-180, 180), 1) for _ in range(3)] if rng.random() < .7 else None,
         'mirror': rng.random() < .25, 'ro': ro and rng.random() < .3}
    part = rng.random() < partial
    if k == 'sphere':
        r = round(rng.uniform(.4, 1.5), 3)
        s.update(r=r, z0=-r, z1=r, pm=360.)
        if part:
            if rng.random() < .6:
                s.update(z0=round(-r * rng.uniform(-.2, 1.), 3), z1=round(r * rng.uniform(.3, 1.), 3))
            s['pm'] = rng.choice([360., 90., 180., round(rng.uniform(60, 350), 1)])
    elif k == 'disk':
        s.update(r=round(rng.uniform(.5, 1.6), 3), ri=0., h=round(rng.choice([0., rng.uniform(-1, 1)]), 3), pm=360.)
        if part:
            s.update(ri=round(s['r'] * rng.uniform(.1, .8), 3) if rng.random() < .6 else 0.,
                     pm=rng.choice([360., 90., 180., round(rng.uniform(60, 350), 1)]))
    elif k == 'cyl':
        s.update(r=round(rng.uniform(.3, 1.), 3), z0=round(-rng.uniform(.2, 1.), 3), z1=round(rng.uniform(.2, 1.), 3),
                 pm=360.)
        if part:
            s['pm'] = rng.choice([90., 180., round(rng.uniform(60, 350), 1)])
    else:
        n = rng.choice([1, 1, 2, 3])
        while True:
            P = [[round(rng.uniform(-1.5, 1.5), 3) for _ in range(3)] for _ in range(n + 2)]
            idx = []
            for _ in range(n):
                idx += rng.sample(range(n + 2), 3)
            a = [float(np.linalg.norm(np.cross(np.subtract(P[idx[i + 1]], P[idx[i]]),
                                               np.subtract(P[idx[i + 2]], P[idx[i]])))) for i in range(0, 3 * n, 3)]
            if min(a) > .3:
                break
        s.update(P=P, idx=idx)
        if rng.random() < uv:
            while True:
                s['uv'] = [round(rng.uniform(-1, 2), 2) for _ in range(2 * len(P))]
                if min(abs(uv_det(s['uv'], idx[i:i + 3])) for i in range(0, len(idx), 3)) > .1:
                    break
    if rng.random() < scale:
        s['sc'] = [round(rng.uniform(.5, 1.6), 2) for _ in range(3)]
    return s


# -- the real ones ------------------------------------------------------------
def transform(s):
    import pytracer.geometry as geo
    import pytracer.transform as tr
    t = tr.Transform.translate(geo.Vector(*s['c']))
    if s['rot']:
        t = t * tr.Transform.rotate_x(s['rot'][0]) * tr.Transform.rotate_y(s['rot'][1]) * \
            tr.Transform.rotate_z(s['rot'][2])
    if s['mirror']:
        t = t * tr.Transform.scale(-1., 1., 1.)
    if s.get('sc'):
        t = t * tr.Transform.scale(*s['sc'])
    return t


def build(s, alpha=None):
    import pytracer.geometry as geo
    import pytracer.shape as sh
    t = transform(s)
    i = t.inverse()
    if s['k'] == 'sphere':
        return sh.Sphere(t, i, s['ro'], s['r'], s['z0'], s['z1'], s['pm'])
    if s['k'] == 'disk':
        return sh.Disk(t, i, s['ro'], s['h'], s['r'], s['ri'], s['pm'])
    if s['k'] == 'cyl':
        return sh.Cylinder(t, i, s['ro'], s['r'], s['z0'], s['z1'], s['pm'])
    if s.get('via'):
        return described(s, t, i, alpha)
    return sh.TriangleMesh(t, i, s['ro'], len(s['idx']) // 3, len(s['P']), list(s['idx']),
                           [geo.Point(*p) for p in s['P']], N=s.get('N') and [geo.Normal(*x) for x in s['N']],
                           S=s.get('S') and [geo.Vector(*x) for x in s['S']], uv=s.get('uv') and np.array(s['uv']),
                           atex=alpha)


def described(s, t, i, alpha, bad=None):
    """A mesh from named parameters; bad: what is wrong with them."""
    import pytracer.geometry as geo
    from pytracer.shape.triangle import create_triangle_mesh
    v = s['via']
    p = {'indices': list(s['idx']), 'P': [x for q in s['P'] for x in q] if v['flat'] else
         [geo.Point(*q) for q in s['P']], 'discard': v['discard']}
    uv = s.get('lost') or s.get('uv')
    if uv:
        p['st' if v['st'] else 'uv'] = np.array(uv)
    if s.get('N'):
        p['N'] = [geo.Normal(*x) for x in s['N']]
    if s.get('S'):
        p['S'] = [geo.Vector(*x) for x in s['S']]
    txt = {'mask': alpha, 'other': None}
    if alpha is not None:
        p['alphatex'] = 'mask'
    n = len(s['P'])
    if bad == 'uv':
        p['uv'] = np.zeros(2 * n - 1)
    elif bad == 'N':
        p['N'] = [geo.Normal(0., 0., 1.)] * (n - 1)
    elif bad == 'S':
        p['S'] = [geo.Vector(1., 0., 0.)] * (n + 1)
    elif bad == 'index':
        p['indices'][-1] = n
    elif bad == 'corners':
        p['indices'].append(0)
    elif bad == 'coords':
        p['P'] = [x for q in s['P'] for x in q] + [0.]
    elif bad == 'alpha':
        p['alphatex'] = 'nowhere'
    return create_triangle_mesh(t, i, s['ro'], p, txt)


# -- reference ----------------------------------------------------------------
def matrix(s):
    m = np.eye(3)
    if s['rot']:
        a, b, c = [math.radians(x) for x in s['rot']]
        X = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
        Y = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
        Z = np.array([[math.cos(c), -math.sin(c), 0], [math.sin(c), math.cos(c), 0], [0, 0, 1]])
        m = X.dot(Y).dot(Z)
    if s['mirror']:
        m = m.dot(np.diag([-1., 1., 1.]))
    if s.get('sc'):
        m = m.dot(np.diag(s['sc']))
    return m, np.array(s['c'])


def to_local(s, p):
    m, c = matrix(s)
    return inverse(s, m).dot(np.asarray(p) - c)


def inverse(s, m):
    return np.linalg.inv(m) if s.get('sc') else m.T


def tri_areas(s):
    P = np.array(s['P'])
    return [.5 * float(np.linalg.norm(np.cross(P[s['idx'][i + 1]] - P[s['idx'][i]], P[s['idx'][i + 2]] - P[s['idx'][i]])))
            for i in range(0, len(s['idx']), 3)]


def area(s):
    if s['k'] in ('sphere', 'cyl'):
        return math.radians(s['pm']) * s['r'] * (s['z1'] - s['z0'])
    if s['k'] == 'disk':
        return .5 * math.radians(s['pm']) * (s['r'] ** 2 - s['ri'] ** 2)
    return sum(tri_areas(s))


def whole(s):
    return s['k'] == 'sphere' and s['z0'] <= -s['r'] and s['z1'] >= s['r'] and s['pm'] >= 360.


def phi(q):
    a = math.atan2(q[1], q[0])
    return a + 2 * math.pi if a < 0. else a


MARGIN = 2e-3


def off(s, q):
    """How far the local point q is from the shape (0 when on it), and the
    index of the triangle it lies on."""
    if s['k'] == 'tris':
        best, bi = float('inf'), None
        P = np.array(s['P'])
        for i in range(0, len(s['idx']), 3):
            a, b, c = [P[j] for j in s['idx'][i:i + 3]]
            n = np.cross(b - a, c - a)
            n2 = n.dot(n)
            l1 = np.cross(q - a, c - a).dot(n) / n2
            l2 = np.cross(b - a, q - a).dot(n) / n2
            d = abs((q - a).dot(n)) / math.sqrt(n2) + max(0., -l1, -l2, l1 + l2 - 1.)
            if d < best:
                best, bi = d, i
        return best, bi
    pm = math.radians(s['pm'])
    f = phi(q)
    r = math.hypot(q[0], q[1])
    d = 0. if f <= pm or s['pm'] >= 360. else min(f - pm, 2 * math.pi - f) * r
    if s['k'] == 'sphere':
        return abs(np.linalg.norm(q) - s['r']) + max(0., s['z0'] - q[2], q[2] - s['z1']) + d, None
    if s['k'] == 'cyl':
        return abs(r - s['r']) + max(0., s['z0'] - q[2], q[2] - s['z1']) + d, None
    return abs(q[2] - s['h']) + max(0., r - s['r'], s['ri'] - r) + d, None


def normal(s, q, tri=None):
    """World normal at the local surface point q."""
    m, _ = matrix(s)
    if s['k'] == 'sphere':
        n = np.array(q) / np.linalg.norm(q)
    elif s['k'] == 'cyl':
        n = np.array([q[0], q[1], 0.]) / math.hypot(q[0], q[1])
    elif s['k'] == 'disk':
        n = np.array([0., 0., 1.])
    else:
        P = np.array(s['P'])
        a, b, c = [P[j] for j in s['idx'][tri:tri + 3]]
        n = np.cross(b - a, c - a)
        if s.get('uv') and uv_det(s['uv'], s['idx'][tri:tri + 3]) < 0.:
            n = -n        # the parameters run the other way round
    n = inverse(s, m).T.dot(n)
    n = n / np.linalg.norm(n)
    return -n if s['ro'] else n


def hits(s, o, d):
    """Crossings of the line o + t d: list of (t, local point, triangle), and
    whether one of them is too close to an edge to tell."""
    m, c = matrix(s)
    m = inverse(s, m)
    o, d = m.dot(np.asarray(o, dtype=float) - c), m.dot(np.asarray(d, dtype=float))
    out, doubt = [], False
    if s['k'] in ('sphere', 'cyl'):
        w = np.array([1., 1., 1. if s['k'] == 'sphere' else 0.])
        A, B, C = (d * d * w).sum(), 2. * (o * d * w).sum(), (o * o * w).sum() - s['r'] ** 2
        if A < 1e-4:
            return [], True
        D = B * B - 4 * A * C
        if abs(D) < MARGIN * max(1., A):
            return [], True
        if D < 0.:
            return [], False
        ts = sorted([(-B - math.sqrt(D)) / (2 * A), (-B + math.sqrt(D)) / (2 * A)])
        pm = math.radians(s['pm'])
        for t in ts:
            q = o + t * d
            if not whole(s):
                if s['k'] == 'cyl' or s['z0'] > -s['r']:
                    doubt |= abs(q[2] - s['z0']) < MARGIN
                if s['k'] == 'cyl' or s['z1'] < s['r']:
                    doubt |= abs(q[2] - s['z1']) < MARGIN
                if s['pm'] < 360.:
                    f = phi(q)
                    doubt |= min(abs(f - pm), f, 2 * math.pi - f) < MARGIN or math.hypot(q[0], q[1]) < .01
                    if f > pm:
                        continue
                if q[2] < s['z0'] or q[2] > s['z1']:
                    if s['k'] == 'cyl' or (q[2] < s['z0'] and s['z0'] > -s['r']) or \
                            (q[2] > s['z1'] and s['z1'] < s['r']):
                        continue
            out.append((t, q, None))
        return out, doubt
    if s['k'] == 'disk':
        if abs(d[2]) < 1e-2:
            return [], True
        t = (s['h'] - o[2]) / d[2]
        q = o + t * d
        r = math.hypot(q[0], q[1])
        doubt = abs(r - s['r']) < MARGIN or abs(r - s['ri']) < MARGIN or r < 1e-3
        if s['pm'] < 360.:
            f = phi(q)
            doubt |= min(abs(f - math.radians(s['pm'])), f, 2 * math.pi - f) < MARGIN
            if f > math.radians(s['pm']):
                return [], doubt
        return ([(t, q, None)] if s['ri'] < r < s['r'] else []), doubt
    P = np.array(s['P'])
    for i in range(0, len(s['idx']), 3):
        a, b, c_ = [P[j] for j in s['idx'][i:i + 3]]
        n = np.cross(b - a, c_ - a)
        n2 = n.dot(n)
        den = d.dot(n)
        if abs(den) < 1e-2 * math.sqrt(n2):
            doubt = True
            continue
        t = (a - o).dot(n) / den
        q = o + t * d
        l1 = np.cross(q - a, c_ - a).dot(n) / n2
        l2 = np.cross(b - a, q - a).dot(n) / n2
        e = min(l1, l2, 1. - l1 - l2)
        if abs(e) < MARGIN:
            doubt = True
        elif e > 0.:
            out.append((t, q, i))
    return sorted(out, key=lambda x: x[0]), doubt


def first(s, o, d, mint=1e-3, maxt=float('inf'), alpha=None):
    """('hit', t, local point, tri) | ('miss',) | ('doubt',)"""
    hs, doubt = hits(s, o, d)
    if doubt:
        return ('doubt',)
    for t, q, i in hs:
        if abs(t - mint) < 1e-3 or abs(t - maxt) < 1e-3:
            return ('doubt',)
        if mint < t < maxt:
            if alpha:
                u, v = param(s, q, i)[0]
                if min(abs(x * alpha - round(x * alpha)) for x in (u, v)) < 1e-3:
                    return ('doubt',)
                if not alpha_value(alpha, u, v):
                    continue
            if i is not None and any(j != i and abs(u - t) < 1e-4 for u, _, j in hs):
                return ('doubt',)        # two triangles at one place
            return ('hit', t, q, i)
    return ('miss',)


def alpha_value(n, u, v):
    """The alpha mask of the harness: a checkerboard of n squares a unit."""
    return (math.floor(u * n) + math.floor(v * n)) % 2


def uv_det(uv, idx):
    a, b, c = [np.array(uv[2 * j:2 * j + 2]) for j in idx]
    return float(np.linalg.det([b - a, c - a]))


def bary(s, q, tri):
    P = np.array(s['P'])
    a, b, c = [P[j] for j in s['idx'][tri:tri + 3]]
    n = np.cross(b - a, c - a)
    l1 = np.cross(q - a, c - a).dot(n) / n.dot(n)
    l2 = np.cross(b - a, q - a).dot(n) / n.dot(n)
    return np.array([1. - l1 - l2, l1, l2])


def tri_uv(s, tri):
    if s.get('uv'):
        return np.array([s['uv'][2 * j:2 * j + 2] for j in s['idx'][tri:tri + 3]])
    return np.array([[0., 0.], [1., 0.], [1., 1.]])


def interp(s, q, tri, what):
    return bary(s, q, tri).dot(np.array([s[what][j] for j in s['idx'][tri:tri + 3]]))


def shading(s, q, tri):
    """Interpolated world normal, and how the (unnormalised, local) one
    changes with the parameters."""
    if not s.get('N'):
        return None, None
    m, _ = matrix(s)
    n = inverse(s, m).T.dot(interp(s, q, tri, 'N'))
    n = n / np.linalg.norm(n)
    N = np.array([s['N'][j] for j in s['idx'][tri:tri + 3]])
    uv = tri_uv(s, tri)
    A = np.array([uv[1] - uv[0], uv[2] - uv[0]])
    return (-n if s['ro'] else n), np.linalg.inv(A).dot(np.array([N[1] - N[0], N[2] - N[0]]))


def param(s, q, tri=None):
    """(u, v) of the local point and the derivatives of point and unit normal
    (that of dpdu x dpdv) over u and v."""
    if s['k'] == 'tris':
        uv = tri_uv(s, tri)
        P = np.array([s['P'][j] for j in s['idx'][tri:tri + 3]])
        A = np.array([uv[1] - uv[0], uv[2] - uv[0]])
        D = np.linalg.inv(A).dot(np.array([P[1] - P[0], P[2] - P[0]]))
        return bary(s, q, tri).dot(uv), D[0], D[1], np.zeros(3), np.zeros(3)
    pm, r = math.radians(s['pm']), s['r']
    u = phi(q) / pm
    if s['k'] == 'sphere':
        ta, tb = math.acos(max(-1., s['z0'] / r)), math.acos(min(1., s['z1'] / r))
        v = (math.acos(max(-1., min(1., q[2] / r))) - ta) / (tb - ta)

        def f(u, v):
            t = ta + v * (tb - ta)
            return np.array([r * math.sin(t) * math.cos(u * pm), r * math.sin(t) * math.sin(u * pm), r * math.cos(t)])
    elif s['k'] == 'disk':
        v = (r - math.hypot(q[0], q[1])) / (r - s['ri'])

        def f(u, v):
            t = r - v * (r - s['ri'])
            return np.array([t * math.cos(u * pm), t * math.sin(u * pm), s['h']])
    else:
        v = (q[2] - s['z0']) / (s['z1'] - s['z0'])

        def f(u, v):
            return np.array([r * math.cos(u * pm), r * math.sin(u * pm), s['z0'] + v * (s['z1'] - s['z0'])])
    e = 1e-4

    def d(u, v):
        return (f(u + e, v) - f(u - e, v)) / (2 * e), (f(u, v + e) - f(u, v - e)) / (2 * e)

    def nn(u, v):
        a, b = d(u, v)
        n = np.cross(a, b)
        return n / np.linalg.norm(n)
    a, b = d(u, v)
    return np.array([u, v]), a, b, (nn(u + e, v) - nn(u - e, v)) / (2 * e), (nn(u, v + e) - nn(u, v - e)) / (2 * e)


def grid(s, n):
    """Midpoint nodes over the surface: world points, normals, area weights."""
    m, c = matrix(s)
    U, V = np.meshgrid((np.arange(n) + .5) / n, (np.arange(n) + .5) / n, indexing='ij')
    U, V = U.ravel(), V.ravel()
    if s['k'] == 'tris':
        pts, nrm, w = [], [], []
        P = np.array(s['P'])
        # midpoints of a regular subdivision
        k = np.arange(n)
        I, J = np.meshgrid(k, k, indexing='ij')
        up = (I + J < n)
        dn = (I + J < n - 1)
        l1 = np.concatenate([(I[up] + 1. / 3) / n, (I[dn] + 2. / 3) / n])
        l2 = np.concatenate([(J[up] + 1. / 3) / n, (J[dn] + 2. / 3) / n])
        for i, a in zip(range(0, len(s['idx']), 3), tri_areas(s)):
            A, B, C = [P[j] for j in s['idx'][i:i + 3]]
            pts.append(A + l1[:, None] * (B - A) + l2[:, None] * (C - A))
            nn = normal(s, None, i)
            nrm.append(np.tile(nn, (len(l1), 1)))
            w.append(np.full(len(l1), a / len(l1)))
        q = np.concatenate(pts)
        return q.dot(m.T) + c, np.concatenate(nrm), np.concatenate(w)
    f = U * math.radians(s['pm'])
    if s['k'] == 'sphere':
        z = s['z0'] + V * (s['z1'] - s['z0'])
        r = np.sqrt(np.clip(s['r'] ** 2 - z * z, 0., None))
        q = np.stack([r * np.cos(f), r * np.sin(f), z], axis=1)
        nn = q / s['r']
    elif s['k'] == 'cyl':
        z = s['z0'] + V * (s['z1'] - s['z0'])
        q = np.stack([s['r'] * np.cos(f), s['r'] * np.sin(f), z], axis=1)
        nn = q / s['r'] * np.array([1., 1., 0.])
    else:
        r = np.sqrt(s['ri'] ** 2 + V * (s['r'] ** 2 - s['ri'] ** 2))
        q = np.stack([r * np.cos(f), r * np.sin(f), np.full(n * n, s['h'])], axis=1)
        nn = np.tile([0., 0., 1.], (n * n, 1))
    nn = nn.dot(m.T) * (-1. if s['ro'] else 1.)
    return q.dot(m.T) + c, nn, np.full(n * n, area(s) / (n * n))

