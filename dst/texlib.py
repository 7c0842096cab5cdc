"""Textures: how plans describe them, how the code under test builds them, and
what they evaluate to, written from their definitions."""
import math

import numpy as np

from . import shapelib as S

# Perlin's permutation
PERM = [
    151, 160, 137, 91, 90, 15, 131, 13, 201, 95, 96, 53, 194, 233, 7, 225, 140, 36, 103, 30, 69, 142, 8, 99, 37, 240,
    21, 10, 23, 190, 6, 148, 247, 120, 234, 75, 0, 26, 197, 62, 94, 252, 219, 203, 117, 35, 11, 32, 57, 177, 33, 88,
    237, 149, 56, 87, 174, 20, 125, 136, 171, 168, 68, 175, 74, 165, 71, 134, 139, 48, 27, 166, 77, 146, 158, 231, 83,
    111, 229, 122, 60, 211, 133, 230, 220, 105, 92, 41, 55, 46, 245, 40, 244, 102, 143, 54, 65, 25, 63, 161, 1, 216,
    80, 73, 209, 76, 132, 187, 208, 89, 18, 169, 200, 196, 135, 130, 116, 188, 159, 86, 164, 100, 109, 198, 173, 186,
    3, 64, 52, 217, 226, 250, 124, 123, 5, 202, 38, 147, 118, 126, 255, 82, 85, 212, 207, 206, 59, 227, 47, 16, 58, 17,
    182, 189, 28, 42, 223, 183, 170, 213, 119, 248, 152, 2, 44, 154, 163, 70, 221, 153, 101, 155, 167, 43, 172, 9, 129,
    22, 39, 253, 19, 98, 108, 110, 79, 113, 224, 232, 178, 185, 112, 104, 218, 246, 97, 228, 251, 34, 242, 193, 238,
    210, 144, 12, 191, 179, 162, 241, 81, 51, 145, 235, 249, 14, 239, 107, 49, 192, 214, 31, 181, 199, 106, 157, 184,
    84, 204, 176, 115, 121, 50, 45, 127, 4, 150, 254, 138, 236, 205, 93, 222, 114, 67, 29, 24, 72, 243, 141, 128, 195,
    78, 66, 215, 61, 156, 180]
SPLINE = [[.58, .58, .6], [.58, .58, .6], [.58, .58, .6], [.5, .5, .5], [.6, .59, .58], [.58, .58, .6], [.58, .58, .6],
          [.2, .2, .33], [.58, .58, .6]]


class Doubt(Exception):
    """Too close to an edge of the pattern to tell."""


def cell(x, tol=1e-6):
    if abs(x - round(x)) < tol:
        raise Doubt
    return int(math.floor(x))


# ------------------------------------------------------------------ generation
def gen_point(rng):
    v = lambda s: [round(rng.uniform(-s, s), 3) for _ in range(3)]
    p = {'p': v(3.), 'u': round(rng.uniform(-2., 3.), 3), 'v': round(rng.uniform(-2., 3.), 3)}
    z = rng.random()
    s = 0. if z < .2 else rng.choice([.01, .05, .3, 2.])
    p['dpdx'], p['dpdy'] = v(s), v(s)
    t = 0. if z < .2 else rng.choice([.01, .1, .6, 2.])
    p['duv'] = [round(rng.uniform(-t, t), 3) for _ in range(4)]
    if rng.random() < .15 and t:
        p['duv'][rng.choice([0, 1])] = 0.
        p['duv'][rng.choice([2, 3])] = 0.
    if rng.random() < .1 and t:
        p['duv'][1] = p['duv'][3] = 0.       # a footprint along u
    return p


def gen_place(rng):
    return {'c': [round(rng.uniform(-1, 1), 2) for _ in range(3)],
            'rot': [round(rng.uniform(-180, 180), 1) for _ in range(3)] if rng.random() < .7 else None,
            'mirror': rng.random() < .2,
            'sc': [round(rng.uniform(.4, 2.), 2) for _ in range(3)] if rng.random() < .4 else None}


def gen_map(rng):
    k = rng.choice(['uv', 'uv', 'sph', 'cyl', 'plane', 'plane'])
    if k == 'uv':
        return {'k': k, 'a': [round(rng.uniform(-3, 3), 2) for _ in range(4)]}
    if k == 'plane':
        return {'k': k, 'vs': [round(rng.uniform(-1, 1), 2) for _ in range(3)],
                'vt': [round(rng.uniform(-1, 1), 2) for _ in range(3)], 'd': [round(rng.uniform(-1, 1), 2) for _ in '12'] if rng.random() < .8 else [0., 0.]}
    return dict(gen_place(rng), k=k)


def gen(rng, spec, maps, places, depth=2, user=0.):
    """A texture of colours (spec) or numbers."""
    val = lambda: [round(rng.uniform(.05, .95), 3) for _ in range(3)] if spec else round(rng.uniform(.05, .95), 3)
    kinds = ['const', 'bilerp', 'bilerp']
    if spec:
        kinds += ['uv', 'marble']
    else:
        kinds += ['fbm', 'wrinkled', 'windy']
    if depth:
        kinds += ['scale', 'mix', 'check2', 'check2', 'check3', 'dots']
    if user and rng.random() < user:
        return {'k': 'user', 'v': val(), 'fail': rng.choice([0, 1, 2])}
    k = rng.choice(kinds)
    if k == 'const' and depth == 2:
        k = 'check2'
    sub = lambda s=spec: gen(rng, s, maps, places, depth - 1, user)
    if k == 'const':
        return {'k': k, 'v': val()}
    if k == 'bilerp':
        return {'k': k, 'm': rng.choice(maps), 'v': [val() for _ in range(4)]}
    if k == 'uv':
        return {'k': k, 'm': rng.choice(maps)}
    if k in ('marble', 'fbm', 'wrinkled', 'windy'):
        t = {'k': k, 'w': rng.choice(places), 'oct': rng.choice([1, 2, 3, 6]), 'om': round(rng.uniform(.2, .8), 2)}
        if k == 'marble':
            t.update(sc=round(rng.uniform(.5, 3.), 2), var=round(rng.uniform(0., 2.), 2))
        return t
    if k == 'scale':
        return {'k': k, 'a': sub(), 'b': sub()}
    if k == 'mix':
        return {'k': k, 'a': sub(), 'b': sub(), 't': sub(False)}
    if k == 'check2':
        return {'k': k, 'm': rng.choice(maps), 'a': sub(), 'b': sub(), 'aa': rng.choice(['none', 'closedform', None])}
    if k == 'check3':
        return {'k': k, 'w': rng.choice(places), 'a': sub(), 'b': sub()}
    return {'k': k, 'm': rng.choice(maps), 'a': sub(), 'b': sub()}


# ----------------------------------------------------------- the code under test
def build_map(m):
    import pytracer.geometry as geo
    import pytracer.texture.texturemap as tm
    if m['k'] == 'uv':
        return tm.UVMapping2D(*m['a'])
    if m['k'] == 'plane':
        return tm.PlannarMapping2D(geo.Vector(*m['vs']), geo.Vector(*m['vt']), *(m['d'] if any(m['d']) else []))
    return {'sph': tm.SphericalMapping2D, 'cyl': tm.CylindricalMapping2D}[m['k']](S.transform(m))


def build(t, user=None, memo=None):
    import pytracer.texture.texturemap as tm
    import pytracer.texture.texture as tx
    from pytracer import Spectrum
    v = lambda x: Spectrum(x) if isinstance(x, list) else float(x)
    b = lambda x: build(x, user, memo)
    memo = {} if memo is None else memo

    def once(d, f):
        # equal descriptions share one mapping
        key = repr(d)
        if key not in memo:
            memo[key] = f(d)
        return memo[key]
    m2 = lambda: once(t['m'], build_map)
    m3 = lambda: once(t['w'], lambda w: tm.IdentityMapping3D(S.transform(w)))
    k = t['k']
    if k == 'user':
        return user(t, v(t['v']))
    if k == 'const':
        return tx.ConstantTexture(v(t['v']))
    if k == 'bilerp':
        return tx.BilerpTexture(m2(), *[v(x) for x in t['v']])
    if k == 'uv':
        return tx.UVTexture(m2())
    if k == 'marble':
        return tx.MarbleTexture(t['oct'], t['om'], t['sc'], t['var'], m3())
    if k == 'fbm':
        return tx.FBmTexture(t['oct'], t['om'], m3())
    if k == 'wrinkled':
        return tx.WrinkledTexture(t['oct'], t['om'], m3())
    if k == 'windy':
        return tx.WindyTexture(m3())
    if k == 'scale':
        return tx.ScaleTexture(b(t['a']), b(t['b']))
    if k == 'mix':
        return tx.MixTexture(b(t['a']), b(t['b']), b(t['t']))
    if k == 'check2':
        return tx.Chekcerboard2DTexture(m2(), b(t['a']), b(t['b']), *([t['aa']] if t['aa'] else []))
    if k == 'check3':
        return tx.Checkboard3DTexture(m3(), b(t['a']), b(t['b']))
    return tx.DotsTexture(m2(), b(t['a']), b(t['b']))


# -------------------------------------------------------------------- reference
def grad(x, y, z, dx, dy, dz):
    P = lambda i: PERM[i & 255]
    h = P(P(P(x) + y) + z) & 15
    u = dx if h < 8 or h in (12, 13) else dy
    v = dy if h < 4 or h in (12, 13) else dz
    return (-u if h & 1 else u) + (-v if h & 2 else v)


def noise(p):
    i = [int(math.floor(x)) for x in p]
    d = [x - n for x, n in zip(p, i)]
    w = [x ** 3 * (10. - 15. * x + 6. * x * x) for x in d]
    s = 0.
    for a in (0, 1):
        for b in (0, 1):
            for c in (0, 1):
                g = grad(i[0] + a & 255, i[1] + b & 255, i[2] + c & 255, d[0] - a, d[1] - b, d[2] - c)
                s += g * (w[0] if a else 1. - w[0]) * (w[1] if b else 1. - w[1]) * (w[2] if c else 1. - w[2])
    return s


def octaves(p, dx, dy, om, n, f):
    s2 = max(np.dot(dx, dx), np.dot(dy, dy))
    foct = float(n) if s2 == 0. else min(float(n), 1. - .5 * math.log(s2) / math.log(2.))
    k = int(math.floor(foct))
    s, l, o = 0., 1., 1.
    for _ in range(k):
        s += o * f(noise(l * p))
        l *= 1.99
        o *= om
    x = min(max((foct - k - .3) / .4, 0.), 1.)
    return s + o * x * x * (3. - 2. * x) * f(noise(l * p))


def at(m, g):
    """(s, t) and its screen derivatives, with their relative accuracy."""
    if m['k'] == 'uv':
        su, sv, du, dv = m['a']
        return su * g['u'] + du, sv * g['v'] + dv, [su * g['duv'][0], sv * g['duv'][1], su * g['duv'][2],
                                                   sv * g['duv'][3]], 0.
    p, dx, dy = (np.array(g[x]) for x in ('p', 'dpdx', 'dpdy'))
    if m['k'] == 'plane':
        vs, vt = np.array(m['vs']), np.array(m['vt'])
        return m['d'][0] + p.dot(vs), m['d'][1] + p.dot(vt), [dx.dot(vs), dx.dot(vt), dy.dot(vs), dy.dot(vt)], 0.
    a, c = S.matrix(m)

    def f(x):
        # a texture's transform maps world points to its own space
        q = a.dot(x) + c
        r = np.linalg.norm(q)
        if r < .05 or math.hypot(q[0], q[1]) < .05 * r:
            raise Doubt
        phi = math.atan2(q[1], q[0])
        if m['k'] == 'sph':
            return np.array([math.acos(q[2] / r) / math.pi, (phi % (2. * math.pi)) / (2. * math.pi)])
        return np.array([(phi + math.pi) / (2. * math.pi), q[2] / r])
    h = 1e-4
    st = f(p)
    around = 1 if m['k'] == 'sph' else 0
    if min(st[around], 1. - st[around]) < 1e-6:
        raise Doubt          # the seam

    def diff(e):
        x = f(p + h * e) - f(p - h * e)
        if abs(x[around]) > .5:
            x[around] -= math.copysign(1., x[around])
        return x / (2. * h)
    q = np.linalg.norm(a.dot(p) + c)
    q = min(q, math.hypot(*(a.dot(p) + c)[:2]))
    coarse = .2 * max(np.linalg.norm(a.dot(e)) for e in (dx, dy)) / q
    if coarse > .15:
        return st[0], st[1], None, 1.
    ex, ey = diff(dx), diff(dy)
    return st[0], st[1], [ex[0], ex[1], ey[0], ey[1]], coarse


def at3(w, g):
    a, c = S.matrix(w)
    return a.dot(g['p']) + c, a.dot(g['dpdx']), a.dot(g['dpdy'])


def value(t, g, err):
    """Value of the texture at g; err collects how coarse it may be."""
    k = t['k']
    arr = lambda x: np.array(x, dtype=float)
    if k in ('const', 'user'):
        return arr(t['v'])
    if k == 'scale':
        return value(t['a'], g, err) * value(t['b'], g, err)
    if k == 'mix':
        x = value(t['t'], g, err)
        return (1. - x) * value(t['a'], g, err) + x * value(t['b'], g, err)
    if k == 'bilerp':
        s, u, _, _ = at(t['m'], g)
        v = [arr(x) for x in t['v']]
        return (1. - s) * (1. - u) * v[0] + (1. - s) * u * v[1] + s * (1. - u) * v[2] + s * u * v[3]
    if k == 'uv':
        s, u, _, _ = at(t['m'], g)
        return arr([s - cell(s), u - cell(u), 0.])
    if k == 'check2':
        s, u, d, c = at(t['m'], g)
        if t['aa'] == 'none':
            return value(t['b'] if (cell(s) + cell(u)) % 2 else t['a'], g, err)
        if d is None:
            raise Doubt
        ds, du = max(abs(d[0]), abs(d[2])), max(abs(d[1]), abs(d[3]))
        lim = 1e-6 + 2. * c * max(ds, du)
        for x, e in ((s, ds), (u, du)):
            if e > 0. or c:
                for z in (x - e, x + e):
                    if abs(z - round(z)) < lim:
                        raise Doubt
            cell(x)
        if abs(ds - 1.) < lim or abs(du - 1.) < lim:
            raise Doubt
        a, b = value(t['a'], g, err), value(t['b'], g, err)
        if math.floor(s - ds) == math.floor(s + ds) and math.floor(u - du) == math.floor(u + du):
            return b if (math.floor(s) + math.floor(u)) % 2 else a

        def odd(x, e):
            """Share of [x-e, x+e] in odd cells."""
            if e == 0.:
                return float(math.floor(x) % 2)
            I = lambda z: math.floor(z / 2.) + max(z - 2. * math.floor(z / 2.) - 1., 0.)
            return (I(x + e) - I(x - e)) / (2. * e)
        x, y = odd(s, ds), odd(u, du)
        f = x + y - 2. * x * y
        if ds > 1. or du > 1.:
            f = .5
        err.append(4. * c)
        return (1. - f) * a + f * b
    if k == 'dots':
        s, u, _, _ = at(t['m'], g)
        i, j = cell(s + .5), cell(u + .5)
        n = noise([i + .5, j + .5, .5])
        if abs(n) < 1e-9:
            raise Doubt
        if n > 0.:
            x = i + .15 * noise([i + 1.5, j + 2.8, .5])
            y = j + .15 * noise([i + 4.5, j + 9.8, .5])
            r = math.hypot(s - x, u - y)
            if abs(r - .35) < 1e-6:
                raise Doubt
            if r < .35:
                return value(t['a'], g, err)
        return value(t['b'], g, err)
    p, dx, dy = at3(t['w'], g)
    if k == 'check3':
        return value(t['b'] if sum(cell(x) for x in p) % 2 else t['a'], g, err)
    if k == 'fbm':
        return octaves(p, dx, dy, t['om'], t['oct'], float)
    if k == 'wrinkled':
        return octaves(p, dx, dy, t['om'], t['oct'], abs)
    if k == 'windy':
        return abs(octaves(.1 * p, .1 * dx, .1 * dy, .5, 3, float)) * octaves(p, dx, dy, .5, 6, float)
    p = p * t['sc']
    x = .5 + .5 * math.sin(p[1] + t['var'] * octaves(p, t['sc'] * dx, t['sc'] * dy, t['om'], t['oct'], float))
    x *= 6.
    i = min(int(x), 5)
    x -= i
    c = [arr(e) for e in SPLINE[i:i + 4]]
    while len(c) > 2:
        c = [(1. - x) * a + x * b for a, b in zip(c, c[1:])]
    return 1.5 * ((1. - x) * c[0] + x * c[1])
