"""Small scenes, the real objects for them, and an independent ray tracer."""
import math

import numpy as np

from . import shapelib as S, bsdfref as R, camlib


# -- generation -----------------------------------------------------------------
def col(rng, lo=.1, hi=.9):
    return [round(rng.uniform(lo, hi), 3) for _ in range(3)]


def gen_material(rng, kinds=('matte', 'matte', 'oren', 'mirror', 'glass', 'plastic', 'uber')):
    k = rng.choice(kinds)
    m = {'k': k}
    if k in ('matte', 'oren'):
        m.update(Kd=col(rng), sigma=0. if k == 'matte' else round(rng.uniform(5, 50), 1))
    elif k == 'mirror':
        m['Kr'] = col(rng, .3, 1.)
    elif k == 'glass':
        m.update(Kr=col(rng, .3, 1.), Kt=col(rng, .3, 1.), eta=round(rng.uniform(1.1, 2.), 2))
    elif k == 'plastic':
        m.update(Kd=col(rng), Ks=col(rng), rough=round(rng.uniform(.1, .8), 2))
    else:
        m.update(Kd=col(rng), Ks=col(rng), Kr=col(rng), Kt=rng.choice([[0., 0., 0.], col(rng)]),
                 rough=round(rng.uniform(.1, .8), 2), op=rng.choice([[1., 1., 1.], col(rng)]),
                 eta=round(rng.uniform(1.1, 2.), 2))
    return m


def gen_light(rng):
    k = rng.choice(['point', 'point', 'spot', 'distant'])
    vec = lambda s: [round(rng.uniform(-s, s), 3) for _ in range(3)]
    d = {'k': k, 'L': col(rng, .2, 4.), 'c': vec(5.), 'rot': vec(180.)}
    if k == 'spot':
        d['width'] = round(rng.uniform(40., 85.), 1)
        d['fall'] = round(d['width'] * rng.uniform(.3, .9), 1)
        d['L'] = col(rng, 2., 20.)
    elif k == 'distant':
        while True:
            d['di'] = vec(1.)
            if np.linalg.norm(d['di']) > .2:
                break
    else:
        d['L'] = col(rng, 2., 20.)
    return d


def gen_scene(rng, n=None, mats=None, sky=.4, emit=.25, lights=(1, 1, 2, 3)):
    shapes = []
    for _ in range(n or rng.choice([1, 2, 2, 3, 4])):
        s = S.gen(rng, partial=.3, spread=1.5)
        if s['k'] == 'tris' and rng.random() < .4:
            s['N'] = [[round(rng.uniform(-.3, .3), 2), round(rng.uniform(-.3, .3), 2), 1.] for _ in s['P']]
        s['m'] = gen_material(rng, mats) if mats else gen_material(rng)
        if rng.random() < emit:
            s['emit'] = col(rng, .2, 3.)
        shapes.append(s)
    return {'shapes': shapes, 'lights': [gen_light(rng) for _ in range(rng.choice(lights))],
            'sky': col(rng, .1, 2.) if rng.random() < sky else None,
            'agg': rng.choice(['Grid', 'Grid', 'BVH', 'BVH', 'Simple']), 'now': rng.random() < .2}


def gen_view(rng, scene):
    """A camera outside the scene that looks at it, and its keyframed motion."""
    c = {'k': rng.choice(['persp', 'persp', 'persp', 'ortho', 'env'])}
    if c['k'] != 'env':
        c.update(win=rng.choice([[-1., 1., -1., 1.], [-1.5, 1.5, -1., 1.]]) if c['k'] == 'persp' else
                 [-2.5, 2.5, -2.5, 2.5], lens=rng.choice([0., 0., .1]), focus=round(rng.uniform(3., 6.), 2), fov=50.)

    def pose():
        while True:
            d = [rng.uniform(-1, 1) for _ in range(3)]
            n = np.linalg.norm(d)
            if n > .3 and abs(d[1]) < .8 * n:
                r = rng.uniform(5., 7.) if c['k'] != 'env' else rng.uniform(3., 4.)
                return {'k': 'look', 'pos': [round(x / n * r, 3) for x in d],
                        'at': [round(rng.uniform(-.5, .5), 3) for _ in range(3)], 'up': [0., 1., 0.]}
    p = pose()
    q = p
    if rng.random() < .4:
        q = dict(p, pos=[round(x + rng.uniform(-.5, .5), 3) for x in p['pos']])
    return c, {'p': [p, q], 't': [0., 1.]}


# -- the real ones ------------------------------------------------------------------
def material(m):
    from pytracer import Spectrum, material as M
    from pytracer.texture import ConstantTexture
    t = lambda v: ConstantTexture(Spectrum(v) if isinstance(v, list) else v)
    k = m['k']
    if k in ('matte', 'oren'):
        return M.MatteMaterial(t(m['Kd']), t(m['sigma']))
    if k == 'mirror':
        return M.MirrorMaterial(t(m['Kr']))
    if k == 'glass':
        return M.GlassMaterial(t(m['Kr']), t(m['Kt']), t(m['eta']))
    if k == 'plastic':
        return M.PlasticMaterial(t(m['Kd']), t(m['Ks']), t(m['rough']))
    return M.UberMaterial(t(m['Kd']), t(m['Ks']), t(m['Kr']), t(m['Kt']), t(m['rough']), t(m['op']), t(m['eta']))


def light(l):
    import pytracer.geometry as geo
    import pytracer.light as lt
    from pytracer import Spectrum
    t = S.transform({'c': l['c'], 'rot': l['rot'], 'mirror': False})
    L = Spectrum(l['L'])
    if l['k'] == 'point':
        return lt.PointLight(t, L)
    if l['k'] == 'spot':
        return lt.SpotLight(t, L, l['width'], l['fall'])
    return lt.DistantLight(t, L, geo.Vector(*l['di']))


def sky(L):
    """A light of the harness that surrounds the scene and is only seen."""
    import pytracer.geometry as geo
    import pytracer.light as lt
    from pytracer import Spectrum
    from pytracer.light.utility import VisibilityTester
    from pytracer.transform import Transform

    class Sky(lt.Light):
        def sample_l(self, p, pEps, ls, time):
            return [Spectrum(0.), geo.Vector(0., 0., 1.), 0., VisibilityTester()]

        def sample_r(self, scene, ls, u1, u2, time):
            raise NotImplementedError

        def pdf(self, p, wi):
            return 0.

        def power(self, scene):
            return Spectrum(0.)

        def is_delta_light(self):
            return True

        def le(self, rd):
            return Spectrum(L)
    return Sky(Transform())


def build(scene, lights=None, mat=None):
    """(scene object, its lights)."""
    import pytracer.light as lt
    from pytracer import Spectrum
    from pytracer.aggregate import GeometricPrimitive, BVH, GridAccel, SimpleAggregate
    from pytracer.scene import Scene
    from pytracer.transform import Transform
    prims, ls = [], [light(l) for l in scene['lights']]
    if scene['sky']:
        ls.append(sky(scene['sky']))
    for s in scene['shapes']:
        sh = S.build(s)
        area = lt.DiffuseAreaLight(Transform(), Spectrum(s['emit']), s.get('ns', 1), sh) if s.get('emit') else None
        if area is not None and s.get('lit'):
            ls.append(area)
        prims.append(GeometricPrimitive(sh, (mat or material)(s['m']), area))
    agg = {'BVH': lambda: BVH(prims, scene['now']), 'Grid': lambda: GridAccel(prims, scene['now']),
           'Simple': lambda: SimpleAggregate(prims, True)}[scene['agg']]()
    return Scene(agg, ls, None), ls


def sub_camera(c, motion, film):
    return camlib.build(c, camlib.animated(motion), film, 0., 1.)


# -- reference -------------------------------------------------------------------------
def comps(m):
    lam = lambda r: {'kind': 'lambert', 'type': 5, 'R': r}
    mic = lambda r, e: {'kind': 'micro', 'type': 9, 'R': r, 'fr': ['diel', 1., e], 'd': ['blinn', 1. / m['rough']]}
    k = m['k']
    if k == 'matte':
        return [lam(m['Kd'])]
    if k == 'oren':
        return [{'kind': 'oren', 'type': 5, 'R': m['Kd'], 'sigma': m['sigma']}]
    if k == 'mirror':
        return [{'kind': 'specr', 'type': 17, 'R': m['Kr'], 'fr': ['full']}]
    if k == 'glass':
        return [{'kind': 'specr', 'type': 17, 'R': m['Kr'], 'fr': ['diel', 1., m['eta']]},
                {'kind': 'spect', 'type': 18, 'R': m['Kt'], 'ei': 1., 'et': m['eta']}]
    if k == 'plastic':
        return [lam(m['Kd']), mic(m['Ks'], 1.5)]
    out = []
    op = np.array(m['op'])
    if not (op == 1.).all():
        out.append({'kind': 'spect', 'type': 18, 'R': (1. - op).tolist(), 'ei': 1., 'et': 1.})
    g = {n: (op * np.array(m[n])).tolist() for n in ('Kd', 'Ks', 'Kr', 'Kt')}
    out += [lam(g['Kd']), mic(g['Ks'], m['eta']),
            {'kind': 'specr', 'type': 17, 'R': g['Kr'], 'fr': ['diel', 1., m['eta']]}]
    if any(g['Kt']):
        out.append({'kind': 'spect', 'type': 18, 'R': g['Kt'], 'ei': 1., 'et': m['eta']})
    return out


class Doubt(Exception):
    """The answer hangs on a tolerance."""


NEAR = 4e-2       # hits this close to the start of a secondary ray are not judged


def nearest(scene, o, d, secondary):
    """(t, shape index, local point, triangle) or None."""
    best = None
    for i, s in enumerate(scene['shapes']):
        hs, doubt = S.hits(s, o, d)
        if doubt:
            raise Doubt('edge')
        for t, q, tri in hs:
            if secondary and abs(t) < 2e-6:
                continue
            if abs(t) < (NEAR if secondary else 1e-3):
                raise Doubt('near')
            if t > 0.:
                if best is not None and abs(best[0] - t) < 2e-3:
                    raise Doubt('tie')
                if best is None or t < best[0]:
                    best = (t, i, q, tri)
    return best


def blocked(scene, o, d, dist):
    """Whether a surface point sees the point at a distance."""
    for s in scene['shapes']:
        hs, doubt = S.hits(s, o, d)
        if doubt:
            raise Doubt('edge')
        for t, q, tri in hs:
            if abs(t) < 2e-6:
                continue
            if abs(t) < NEAR or abs(t - dist) < NEAR:
                raise Doubt('near')
            if 0. < t < dist:
                return True
    return False


def falloff(l, d):
    m, _ = S.matrix({'c': l['c'], 'rot': l['rot'], 'mirror': False})
    c = d.dot(m[:, 2])
    cw, cf = math.cos(math.radians(l['width'])), math.cos(math.radians(l['fall']))
    if c < cw:
        return 0.
    return 1. if c > cf else ((c - cw) / (cf - cw)) ** 4


class Hit(object):
    """A surface point, its frames and its scattering."""

    def __init__(self, scene, o, d, h):
        t, i, q, tri = h
        self.s = s = scene['shapes'][i]
        m, c = S.matrix(s)
        self.p = m.dot(q) + c
        self.ng = S.normal(s, q, tri)
        n = S.shading(s, q, tri)[0] if s.get('N') else None
        self.n = self.ng if n is None else n
        self.u = None
        self.comps = comps(s['m'])
        self.wo = -d
        x = np.cross(self.n, [1., 0., 0.] if abs(self.n[0]) < .8 else [0., 1., 0.])
        x /= np.linalg.norm(x)
        self.x, self.y = x, np.cross(self.n, x)

    def local(self, w):
        return np.array([w.dot(self.x), w.dot(self.y), w.dot(self.n)])

    def world(self, w):
        return w[0] * self.x + w[1] * self.y + w[2] * self.n

    def f(self, wi, flags=31):
        side = np.sign([wi.dot(self.ng) * self.wo.dot(self.ng)])
        lo, li = self.local(self.wo), self.local(wi)
        if min(abs(lo[2]), abs(li[2]), abs(self.wo.dot(self.ng)), abs(wi.dot(self.ng))) < 2e-3:
            raise Doubt('grazing')
        return R.total_f(self.comps, flags, lo[None], li[None], side)[0]

    def emitted(self):
        e = self.s.get('emit')
        c = self.ng.dot(self.wo)
        if e and abs(c) < 1e-3:
            raise Doubt('grazing')
        return np.array(e) if e and c > 0. else np.zeros(3)


def shade(l, h, scene, media=None):
    """Light of one delta light reflected at a hit."""
    L = np.array(l['L'])
    if l['k'] == 'distant':
        m, _ = S.matrix({'c': l['c'], 'rot': l['rot'], 'mirror': False})
        wi = m.dot(np.array(l['di']))
        wi /= np.linalg.norm(wi)
        dist = 1e4
    else:
        v = np.array(l['c']) - h.p
        dist = np.linalg.norm(v)
        if dist < NEAR:
            raise Doubt('at a light')
        wi = v / dist
        L = L / dist ** 2
        if l['k'] == 'spot':
            L = L * falloff(l, -wi)
    f = h.f(wi)
    out = f * L * abs(wi.dot(h.n))
    if media and out.any():
        out = out * media['shadow'](h.p, wi, dist if l['k'] != 'distant' else np.inf)
    if not out.any():
        return out, 0.
    if blocked(scene, h.p, wi, dist):
        return np.zeros(3), 0.
    slack = out.max() if f.max() < 2e-5 or L.max() < 2e-5 else 0.
    return out, slack


def radiance(scene, o, d, depth, max_depth, one=False, specular=True, secondary=False, media=None):
    """The radiance that arrives along a ray, perhaps through media."""
    cand, slack = surfaces(scene, o, d, depth, max_depth, one, specular, secondary, media)
    if media:
        tr, e = media['along'](o, d, secondary)
        cand = [c * tr + e for c in cand]
    return cand, slack


def surfaces(scene, o, d, depth, max_depth, one, specular, secondary, media):
    """(radiance, slack): emitted, direct and specularly reflected light along a
    ray.  With `one` the list of possible answers when a single light is drawn
    instead of all of them."""
    h = nearest(scene, o, d, secondary)
    if h is None:
        return [np.array(scene['sky'] or [0., 0., 0.])], 0.
    h = Hit(scene, o, d, h)
    base, slack = h.emitted(), 0.
    direct = []
    for l in scene['lights']:
        v, s = shade(l, h, scene, media)
        direct.append(v)
        slack += s
    if one:
        n = len(scene['lights']) + (1 if scene['sky'] else 0)
        cand = [base + n * v for v in direct] + ([base] if scene['sky'] else [])
        cand = cand or [base]
        slack *= n
    else:
        cand = [base + sum(direct) if direct else base]
    if depth + 1 < max_depth and specular:
        for kind in (17, 18):
            match = [c for c in h.comps if R.matches(c, kind)]
            branch = []
            for c in match:
                lo = h.local(h.wo)
                if abs(lo[2]) < 2e-3:
                    raise Doubt('grazing')
                if c['kind'] == 'spect' and c['ei'] != c['et']:
                    a, b = (c['ei'], c['et']) if lo[2] > 0. else (c['et'], c['ei'])
                    if abs((a / b) ** 2 * (1. - lo[2] ** 2) - 1.) < 1e-4:
                        raise Doubt('critical angle')
                r = R.specular(c, lo)
                if r is None:
                    branch.append([np.zeros(3)])
                    continue
                li, f = r
                if abs(li[2]) < 2e-3:
                    raise Doubt('grazing')
                wi = h.world(li)
                sub, s2 = radiance(scene, h.p, wi, depth + 1, max_depth, one, specular, True, media)
                k = f * abs(li[2])
                if f.max() < 2e-5:
                    slack += max(x.max() for x in sub) * k.max()
                slack += s2 * k.max() * len(match)
                # one of several lobes of a kind is drawn and weighted
                branch.append([x * k * len(match) for x in sub])
            if branch:
                flat = [x for b in branch for x in b]
                cand = [a + b for a in cand for b in flat]
                if len(cand) > 64:
                    raise Doubt('too many answers')
    return cand, slack
