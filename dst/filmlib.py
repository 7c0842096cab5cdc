"""Film workloads and an independent reference model of the film."""
import math
import os
import tempfile

import numpy as np

from .core import Violation
from . import seams

_dir = None


def scratch():
    global _dir
    if _dir is None or not os.path.isdir(_dir[0]) or _dir[1] != os.getpid():
        _dir = (tempfile.mkdtemp(prefix='dstfilm-', dir=os.environ.get('DST_SCRATCH')), os.getpid())
    return _dir[0]


# M: RGB -> XYZ as documented (sRGB primaries, D65)
RGB2XYZ = np.array([[0.412453, 0.357580, 0.180423],
                    [0.212671, 0.715160, 0.072169],
                    [0.019334, 0.119193, 0.950227]])
XYZ2RGB = np.array([[3.240479, -1.537150, -0.498535],
                    [-0.969256, 1.875991, 0.041556],
                    [0.055648, -0.204043, 1.057311]])


def mk_filter(spec):
    import pytracer.filter as F
    k = spec[0]
    if k == 'box':
        return F.BoxFilter(spec[1], spec[2])
    if k == 'tri':
        return F.TriangleFilter(spec[1], spec[2])
    if k == 'gauss':
        return F.GaussianFilter(spec[1], spec[2], spec[3])
    if k == 'mitchell':
        b, c = spec[3:] or (1. / 3., 1. / 3.)
        return F.MitchellFilter(b, c, spec[1], spec[2])
    return F.LanczosSincFilter(spec[1], spec[2], spec[3] if len(spec) > 3 else 3.)


def gen_filter(rng, sync=None):
    """sync True: covers several pixels; False: at most one pixel."""
    if sync is False:
        w = rng.choice([.5, .5, .4, .25])
        h = rng.choice([.5, .5, .3])
        return rng.choice([['box', w, h], ['box', .5, .5], ['gauss', w, h, 2.0]])
    pairs = [(1., 1.), (1.5, 1.5), (2., 1.), (.5, 1.5), (1.5, .5), (.5, 2.), (2., .4), (.8, .8), (.6, .5)]
    w, h = rng.choice(pairs)
    return rng.choice([['box', w, h], ['tri', w, h], ['gauss', w, h, rng.choice([1., .3, 3.])],
                       ['mitchell', w, h] + rng.choice([[1. / 3., 1. / 3.], [0., .5], [1., 0.]]),
                       ['lanczos', w, h, rng.choice([3., 1., 2.])]])


def sibling(rng, spec):
    """A filter of the same kind and width, of other parameters."""
    if spec[0] in ('box', 'tri'):
        spec = ['gauss', spec[1], spec[2], 1.]
    if spec[0] == 'gauss':
        return spec[:3] + [rng.choice([.2, 1.5, 4.])]
    if spec[0] == 'mitchell':
        return spec[:3] + rng.choice([[.2, .4], [.6, .2]])
    return spec[:3] + [rng.choice([1.5, 2.5])]


CROPS = [[0., 1., 0., 1.]] * 5 + [[.25, 1., 0., 1.], [0., .5, 0., 1.], [0., 1., .5, 1.], [.3, .8, .2, .9],
                                  [0., .6, .4, 1.]]


class Model(object):
    """Reference film: plain sums, single-threaded."""

    def __init__(self, xr, yr, filt, crop):
        self.f = filt
        self.xr, self.yr = xr, yr
        self.x0 = int(math.ceil(xr * crop[0]))
        self.xn = max(1, int(math.ceil(xr * crop[1])) - self.x0)
        self.y0 = int(math.ceil(yr * crop[2]))
        self.yn = max(1, int(math.ceil(yr * crop[3])) - self.y0)
        n = 16
        self.n = n
        self.tab = np.zeros((n, n))
        for j in range(n):
            for i in range(n):
                self.tab[j, i] = filt((i + .5) * filt.xw / n, (j + .5) * filt.yw / n)
        self.L = np.zeros((self.yn, self.xn, 3))
        self.W = np.zeros((self.yn, self.xn))
        self.Wabs = np.zeros((self.yn, self.xn))
        self.Labs = np.zeros((self.yn, self.xn))
        self.S = np.zeros((self.yn, self.xn, 3))
        self.maybe = {}       # (j, i) -> list of (dxyz, dw, dsplat) of failed operations

    def cover(self, X, Y):
        dx, dy = X - .5, Y - .5
        out = []
        for y in range(max(self.y0, int(math.ceil(dy - self.f.yw))),
                       min(self.y0 + self.yn - 1, int(math.floor(dy + self.f.yw))) + 1):
            iy = min(self.n - 1, int(math.floor(abs((y - dy) * self.n * (1. / self.f.yw)))))
            for x in range(max(self.x0, int(math.ceil(dx - self.f.xw))),
                           min(self.x0 + self.xn - 1, int(math.floor(dx + self.f.xw))) + 1):
                ix = min(self.n - 1, int(math.floor(abs((x - dx) * self.n * (1. / self.f.xw)))))
                out.append((y - self.y0, x - self.x0, self.tab[iy, ix]))
        return out

    def add(self, X, Y, rgb, maybe=False):
        xyz = RGB2XYZ.dot(np.array(rgb))
        for j, i, w in self.cover(X, Y):
            if maybe:
                self.maybe.setdefault((j, i), []).append(('add', w * xyz, w))
                continue
            self.L[j, i] += w * xyz
            self.W[j, i] += w
            self.Wabs[j, i] += abs(w)
            self.Labs[j, i] += abs(w) * np.abs(xyz).max()

    def splat(self, X, Y, rgb, maybe=False):
        xyz = RGB2XYZ.dot(np.array(rgb))
        x, y = int(math.floor(X)) - self.x0, int(math.floor(Y)) - self.y0
        if 0 <= x < self.xn and 0 <= y < self.yn:
            if maybe:
                self.maybe.setdefault((y, x), []).append(('splat', xyz, 0))
            else:
                self.S[y, x] += xyz

    @staticmethod
    def _final(L, W, S, scale):
        rgb = XYZ2RGB.dot(L)
        if W != 0.:
            rgb = np.maximum(0., rgb / W)
        return rgb + scale * XYZ2RGB.dot(S)

    def image(self, scale):
        out = np.zeros((self.yn, self.xn, 3))
        for j in range(self.yn):
            for i in range(self.xn):
                out[j, i] = self._final(self.L[j, i], self.W[j, i], self.S[j, i], scale)
        return out

    def ill(self, j, i):
        """Cancelling filter weights make the quotient meaningless."""
        w = self.Wabs[j, i]
        return w > 0 and abs(self.W[j, i]) < 1e-3 * w

    def tol(self, j, i):
        t = 1e-12 + 1e-9 * np.abs(self.S[j, i]).max()
        if self.W[j, i] != 0:
            t += 1e-8 * self.Labs[j, i] / abs(self.W[j, i]) * (self.Wabs[j, i] / abs(self.W[j, i]))
        return t

    def options(self, j, i, scale):
        """Every value the pixel may legally have, given failed operations."""
        opts = [(self.L[j, i], self.W[j, i], self.S[j, i])]
        for kind, d, w in self.maybe.get((j, i), []):
            new = []
            for L, W, S in opts:
                if kind == 'splat':
                    new += [(L, W, S), (L, W, S + d)]
                else:
                    new += [(L, W, S), (L + d, W, S), (L, W + w, S), (L + d, W + w, S)]
            opts = new
        return [self._final(L, W, S, scale) for L, W, S in opts]


def new_film(plan):
    from pytracer.film import ImageFilm
    filt = mk_filter(plan['filter'])
    film = ImageFilm(plan['xr'], plan['yr'], filt, list(plan['crop']),
                     os.path.join(scratch(), 'film.png'))
    return film, Model(plan['xr'], plan['yr'], filt, plan['crop'])


def spectrum(rgb):
    from pytracer.spectral import Spectrum
    return Spectrum.from_rgb(list(rgb))


def camera_sample(x, y):
    from pytracer.sampler import CameraSample
    return CameraSample(x, y, 0., 0., 0.)


def read_back(film, scale):
    """The image as the film reports it: float if the seam sees it."""
    with seams.capture() as c:
        ret = film.write_image(scale)
        got = c.got
        c.got = None
    if got is not None:
        return 'float', got
    return 'u8', np.array(ret)


def compare(model, film, scale, prefix=''):
    mode, img = read_back(film, scale)
    if mode == 'u8':
        want = quantise(model.image(scale))
        if img.shape[:2] != want.shape[:2] or np.abs(img.astype(int) - want.astype(int)).max() > 1:
            if not model.maybe:
                raise Violation(prefix + 'image-differs', '8-bit image %r, expected %r' % (
                    img.tolist(), want.tolist()))
        return
    if img.shape != (model.yn, model.xn, 3):
        raise Violation(prefix + 'wrong-window', 'image covers %r pixels, expected %r' % (
            img.shape[:2], (model.yn, model.xn)))
    for j in range(model.yn):
        for i in range(model.xn):
            if model.ill(j, i):
                continue
            t = model.tol(j, i)
            ok = False
            opts = model.options(j, i, scale)
            for o in opts:
                tt = t if not model.maybe.get((j, i)) else t + 1e-6 * (1 + np.abs(o).max())
                if np.all(np.abs(img[j, i] - o) <= tt):
                    ok = True
                    break
            if not ok:
                raise Violation(prefix + 'pixel-differs',
                                'pixel (x=%d, y=%d): film has %s, the contributions made give %s%s' % (
                                    i + model.x0, j + model.y0,
                                    ['%.9g' % v for v in img[j, i]], ['%.9g' % v for v in opts[0]],
                                    ' (or %d variants)' % (len(opts) - 1) if len(opts) > 1 else ''))


def quantise(rgb):
    rgb = rgb.copy()
    for i in range(3):
        c = rgb[:, :, i].max()
        if c != 0.:
            rgb[:, :, i] = 255. * rgb[:, :, i] / c
    return rgb.astype('uint8')


COLOURS = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [.3, .6, .9], [2., .5, .25], [.01, .02, .5], [5., 4., 3.]]


def gen_plan(rng, maxthreads=4, maxops=4):
    sync = rng.random() < .72
    xr, yr = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (5, 3), (1, 1), (3, 5)])
    plan = {'xr': xr, 'yr': yr, 'crop': list(rng.choice(CROPS)), 'filter': gen_filter(rng, sync),
            'sync': sync, 'scale': rng.choice([1., 1., .5, .25, 2.]), 'threads': []}
    n = rng.choice([2, 2, 2, 3, 3, maxthreads])
    # a few hot spots, so that tasks meet on the same pixels
    spots = [(rng.uniform(-.4, xr + .4), rng.uniform(-.4, yr + .4)) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .25:
        spots[0] = (float(rng.randrange(0, xr + 1)), float(rng.randrange(0, yr + 1)))
    pix = [(x, y) for x in range(xr) for y in range(yr)]
    rng.shuffle(pix)
    for k in range(n):
        ops = []
        own = pix[k::n]
        for _ in range(rng.randint(1, maxops)):
            kind = 'splat' if rng.random() < .35 else 'add'
            if kind == 'add' and not sync:
                if not own:
                    kind = 'splat'
                else:
                    px, py = rng.choice(own)
                    ops.append(['add', px + rng.uniform(.02, .98), py + rng.uniform(.02, .98),
                                [c * rng.uniform(.5, 1.5) for c in rng.choice(COLOURS)]])
                    continue
            sx, sy = rng.choice(spots)
            if rng.random() < .3:
                sx += rng.uniform(-1.2, 1.2)
                sy += rng.uniform(-1.2, 1.2)
            ops.append([kind, sx, sy, [c * rng.uniform(.5, 1.5) for c in rng.choice(COLOURS)]])
        plan['threads'].append(ops)
    return plan
