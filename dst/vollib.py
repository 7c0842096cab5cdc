"""Participating media: regions from their definitions, and the parts of a
renderer with media that the repository leaves to its users."""
import math
import time

import numpy as np

from . import shapelib as S


class Doubt(Exception):
    pass


class Ref(object):
    """A region, from its definition."""

    def __init__(self, r):
        self.r = r
        self.m, self.c = S.matrix(r['w'])
        self.inv = np.linalg.inv(self.m)
        self.lo, self.hi = np.array(r['ext'][0]), np.array(r['ext'][1])

    def local(self, p):
        return self.inv.dot(np.asarray(p) - self.c)

    def density(self, p, tol=1e-6):
        """At a point of the world."""
        if self.r['k'] == 'drift':
            return self.r['a']
        q = self.local(p)
        d = np.concatenate([q - self.lo, self.hi - q])
        if (np.abs(d) < tol).any() and (d > -tol).all():
            raise Doubt('edge')
        return float(self.inside(q[None])[0])

    def inside(self, q):
        """Densities at points of the region's frame."""
        r = self.r
        ok = ((q >= self.lo) & (q <= self.hi)).all(axis=1)
        if r['k'] == 'homog':
            return np.where(ok, 1., 0.)
        if r['k'] == 'drift':
            return np.full(len(q), r['a'])
        if r['k'] == 'exp':
            up = np.array(r['up']) / np.linalg.norm(r['up'])
            return np.where(ok, r['a'] * np.exp(-r['b'] * (q - self.lo).dot(up)), 0.)
        D = np.array(r['D'])
        n = np.array(D.shape[::-1])
        v = (q - self.lo) / (self.hi - self.lo) * n - .5
        i = np.floor(v).astype(int)
        f = v - i
        out = np.zeros(len(q))
        for k in range(8):
            o = np.array([k & 1, k >> 1 & 1, k >> 2 & 1])
            j = np.clip(i + o, 0, n - 1)
            w = np.where(o, f, 1. - f).prod(axis=1)
            out += w * D[j[:, 2], j[:, 1], j[:, 0]]
        return np.where(ok, out, 0.)

    def span(self, o, d, t0, t1, now, tol=1e-6):
        """Where a ray is inside, or None."""
        a, b = self.local(o), self.inv.dot(d)
        if self.r['k'] == 'drift':
            a = a - np.array(self.r['vel']) * now
        for i in range(3):
            if b[i] == 0. or abs(b[i]) < 1e-12:
                if min(abs(a[i] - self.lo[i]), abs(a[i] - self.hi[i])) < tol:
                    raise Doubt('along a face')
                if not self.lo[i] < a[i] < self.hi[i]:
                    return None
                continue
            x, y = sorted(((self.lo[i] - a[i]) / b[i], (self.hi[i] - a[i]) / b[i]))
            t0, t1 = max(t0, x), min(t1, y)
        if abs(t1 - t0) < 1e-5:
            raise Doubt('touches')
        return (t0, t1) if t0 < t1 else None

    def sig(self, what):
        r = self.r
        return np.array(r['sa']) + np.array(r['ss']) if what == 't' else np.array(r[{'a': 'sa', 's': 'ss', 'e': 'le'}[what]])

    def tau(self, o, d, t0, t1, now, step, u):
        """Optical thickness as the region is to estimate it."""
        s = self.span(o, d, t0, t1, now)
        if s is None:
            return np.zeros(3)
        n = np.linalg.norm(d)
        if self.r['k'] == 'homog':
            return (s[1] - s[0]) * n * self.sig('t')
        a, b = s[0] * n, s[1] * n
        e = (b - a) / step - u
        if abs(e - round(e)) < 1e-6:
            raise Doubt('last step')
        k = np.arange(max(0, int(math.ceil(e))))
        t = a + (u + k) * step
        q = (np.asarray(o) + np.outer(t, d / n) - self.c).dot(self.inv.T)
        if not len(q):
            return np.zeros(3)
        if self.r['k'] != 'drift' and min(np.abs(q - self.lo).min(), np.abs(q - self.hi).min()) < 1e-7:
            raise Doubt('edge')
        return self.inside(q).sum() * step * self.sig('t')


def hg(c, g):
    return (1. - g * g) / (1. + g * g - 2. * g * c) ** 1.5 / (4. * math.pi)


def phase(k, c, g):
    if k == 'isotrophic':
        x = 1.
    elif k == 'rayleigh':
        x = .75 * (1. + c * c)
    elif k == 'mie_hazy':
        x = .5 + 4.5 * ((1. + c) / 2.) ** 8
    elif k == 'mie_murky':
        x = .5 + 16.5 * ((1. + c) / 2.) ** 32
    elif k == 'hg':
        return hg(c, g)
    else:
        k = 1.55 * g - .55 * g ** 3
        x = (1. - k * k) / (1. - k * c) ** 2
    return x / (4. * math.pi)


def drift():
    import pytracer.geometry as geo
    import pytracer.volume.volume as vol

    class Drift(vol.DensityRegion):
        """A user's region: a box that moves."""

        def __init__(self, r, ext, sa, ss, g, le, w):
            super(Drift, self).__init__(sa, ss, g, le, w)
            self.r, self.box = r, ext

        def __call__(self, pnt):
            return self.r['a']

        def at(self, time):
            v = geo.Vector(*[x * time for x in self.r['vel']])
            return geo.BBox(self.box.pMin + v, self.box.pMax + v)

        def intersect_p(self, ray):
            return self.at(float(ray.time)).intersect_p(self.w2v(ray))

        def world_bound(self):
            b, w = geo.BBox(), self.w2v.inverse()
            for t in (0., 1.):
                x = self.at(t)
                for k in range(8):
                    b.union(w(geo.Point(x[k & 1].x, x[k >> 1 & 1].y, x[k >> 2].z)))
            return b
    return Drift


def region(r, ext=None):
    """The real one; equal extents share a box."""
    import pytracer.geometry as geo
    import pytracer.volume.volume as vol
    from pytracer import Spectrum
    ext = {} if ext is None else ext
    key = repr(r['ext'])
    if key not in ext:
        ext[key] = geo.BBox(geo.Point(*r['ext'][0]), geo.Point(*r['ext'][1]))
    a = [Spectrum(r['sa']), Spectrum(r['ss']), r['g'], Spectrum(r['le'])]
    w = S.transform(r['w'])
    if r['k'] == 'drift':
        return drift()(r, ext[key], *a, w)
    if r['k'] == 'homog':
        return vol.HomogeneousVolumeDensity(*a, ext[key], w)
    if r['k'] == 'exp':
        return vol.ExponentialDensity(*a, ext[key], w, r['a'], r['b'], geo.Vector(*r['up']))
    D = np.array(r['D'])
    out = vol.VolumeGridDensity(*a, ext[key], w, D)
    D[...] = 7.      # the caller's array
    return out


def medium(w):
    """A volume integrator, as the repository has none: light is attenuated by
    the optical thickness of the region, which may glow at its middle."""
    from pytracer import Spectrum
    from pytracer.integrator import Integrator

    class Medium(Integrator):
        def transmittance(self, scene, renderer, ray, sample, rng):
            time.sleep(0)
            t = scene.vr.tau(ray, .02, rng() if w['noisy'] else .5)
            return Spectrum([math.exp(-float(x)) for x in t])

        def li(self, scene, renderer, ray, sample, rng):
            T_ = self.transmittance(scene, renderer, ray, sample, rng)
            hit, t0, t1 = scene.vr.intersect_p(ray)
            if not hit or not w['glow']:
                return Spectrum(0.), T_
            return scene.vr.lve(ray(.5 * (t0 + t1)), -ray.d, ray.time) * ((t1 - t0) * ray.d.length()), T_
    return Medium()


def clear(refs, o, d, t0, t1, now):
    """(share of light, middle of the ray inside) between two distances."""
    tau, s = np.zeros(3), []
    for r in refs:
        x = r.span(o, d, t0, t1, now)
        if x is None:
            continue
        s.append(x)
        n = 1 if r.r['k'] == 'homog' else 300
        t = x[0] + (np.arange(n) + .5) / n * (x[1] - x[0])
        q = (np.asarray(o) + np.outer(t, d) - r.c).dot(r.inv.T)
        tau = tau + r.inside(q).mean() * (x[1] - x[0]) * r.sig('t')
    return np.exp(-tau), (min(x[0] for x in s), max(x[1] for x in s)) if s else None
