"""Scattering models in closed form, written from their published definitions.

Directions are arrays of shape (n, 3) in the shading frame; spectra have shape
(n, 3).  A model is a list of components: dicts with 'kind', 'type' and data.
"""
import math

import numpy as np

REFL, TRANS, DIFF, GLOSSY, SPEC = 1, 2, 4, 8, 16
ALL = 31
PI = math.pi


def matches(c, flags):
    return c['type'] & flags == c['type']


def fr_diel(cos, ei, et):
    """Unpolarised Fresnel reflectance; `cos` > 0 on the side of `ei`."""
    ci = np.clip(np.asarray(cos, dtype=float), -1., 1.)
    a = np.where(ci < 0., et, ei)
    b = np.where(ci < 0., ei, et)
    ci = np.abs(ci)
    s2 = (a / b) ** 2 * (1. - ci * ci)
    ct = np.sqrt(np.clip(1. - s2, 0., None))
    rs = (a * ci - b * ct) / (a * ci + b * ct)
    rp = (b * ci - a * ct) / (b * ci + a * ct)
    return np.where(s2 >= 1., 1., .5 * (rs * rs + rp * rp))[:, None] * np.ones(3)


def fr_cond(cos, eta, k):
    c = np.abs(np.asarray(cos, dtype=float))[:, None]
    eta, k = np.array(eta)[None, :], np.array(k)[None, :]
    t = eta * eta + k * k
    rp = (t * c * c - 2. * eta * c + 1.) / (t * c * c + 2. * eta * c + 1.)
    rs = (t - 2. * eta * c + c * c) / (t + 2. * eta * c + c * c)
    return .5 * (rp + rs)


def fresnel(fr, cos):
    if fr[0] == 'diel':
        return fr_diel(cos, fr[1], fr[2])
    if fr[0] == 'cond':
        return fr_cond(cos, fr[1], fr[2])
    return np.ones((len(cos), 3))


def half(wo, wi):
    h = wo + wi
    n = np.sqrt((h * h).sum(axis=1))
    return h / np.where(n > 0., n, 1.)[:, None], n


def D(d, wh):
    c = np.abs(wh[:, 2])
    if d[0] == 'blinn':
        return (d[1] + 2.) / (2. * PI) * c ** d[1]
    s2 = np.clip(1. - c * c, 1e-300, None)
    e = (d[1] * wh[:, 0] ** 2 + d[2] * wh[:, 1] ** 2) / s2
    return math.sqrt((d[1] + 2.) * (d[2] + 2.)) / (2. * PI) * c ** e


def D_pdf(d, wo, wi):
    """Density of wi when its half vector is drawn from the distribution."""
    wh, _ = half(wo, wi)
    oh = (wo * wh).sum(axis=1)
    c = np.abs(wh[:, 2])
    if d[0] == 'blinn':
        ph = (d[1] + 1.) / (2. * PI) * c ** d[1]
    else:
        s2 = np.clip(1. - c * c, 1e-300, None)
        e = (d[1] * wh[:, 0] ** 2 + d[2] * wh[:, 1] ** 2) / s2
        ph = math.sqrt((d[1] + 1.) * (d[2] + 1.)) / (2. * PI) * c ** e
    return np.where(oh > 0., ph / (4. * np.where(oh > 0., oh, 1.)), 0.)


def f(c, wo, wi):
    """Value of one component."""
    k = c['kind']
    n = len(wi)
    if k == 'scaled':
        return np.array(c['s']) * f(c['of'], wo, wi)
    if k == 'flip':
        return f(c['of'], wo, wi * np.array([1., 1., -1.]))
    if k in ('specr', 'spect'):
        return np.zeros((n, 3))
    R = np.array(c['R'])
    if k == 'lambert':
        return np.ones((n, 1)) * R / PI
    co, ci = np.abs(wo[:, 2]), np.abs(wi[:, 2])
    if k == 'oren':
        s2 = math.radians(c['sigma']) ** 2
        A, B = 1. - s2 / (2. * (s2 + .33)), .45 * s2 / (s2 + .09)
        so, si = np.sqrt(np.clip(1. - co * co, 0, None)), np.sqrt(np.clip(1. - ci * ci, 0, None))
        dot = wo[:, 0] * wi[:, 0] + wo[:, 1] * wi[:, 1]
        m = np.where((so > 1e-4) & (si > 1e-4), dot / np.where(so * si > 0., so * si, 1.), 0.)
        m = np.clip(m, 0., None)
        sa = np.where(ci > co, so, si)
        tb = np.where(ci > co, si / np.where(ci > 0, ci, 1.), so / np.where(co > 0., co, 1.))
        return R * ((A + B * m * sa * tb) / PI)[:, None]
    wh, _ = half(wo, wi)
    ih = np.abs((wi * wh).sum(axis=1))
    oh = np.abs((wo * wh).sum(axis=1))
    if k == 'micro':
        ch = np.abs(wh[:, 2])
        G = np.minimum(1., np.minimum(2. * ch * co / oh, 2. * ch * ci / oh))
        same = np.where(wo[:, 2] * wi[:, 2] > 0., 1., 0.)
        return R * (same * D(c['d'], wh) * G / (4. * co * ci))[:, None] * fresnel(c['fr'], (wi * wh).sum(axis=1))
    if k == 'blend':
        Rs = np.array(c['Rs'])
        dif = 28. / (23. * PI) * R * (1. - Rs) * ((1. - (1. - .5 * ci) ** 5) * (1. - (1. - .5 * co) ** 5))[:, None]
        sch = Rs + ((1. - ih) ** 5)[:, None] * (1. - Rs)
        same = np.where(wo[:, 2] * wi[:, 2] > 0., 1., 0.)[:, None]
        return same * (dif + (D(c['d'], wh) / (4. * ih * np.maximum(ci, co)))[:, None] * sch)
    raise ValueError(k)


def pdf(c, wo, wi):
    """Density with which one component samples wi."""
    k = c['kind']
    if k == 'scaled':
        return pdf(c['of'], wo, wi)
    if k == 'flip':
        return pdf(c['of'], wo, wi * np.array([1., 1., -1.]))
    if k in ('specr', 'spect'):
        return np.zeros(len(wi))
    same = wo[:, 2] * wi[:, 2] > 0.
    cosine = np.abs(wi[:, 2]) / PI
    if k in ('lambert', 'oren'):
        return np.where(same, cosine, 0.)
    if k == 'micro':
        return np.where(same, D_pdf(c['d'], wo, wi), 0.)
    return np.where(same, .5 * (cosine + D_pdf(c['d'], wo, wi)), 0.)


def total_f(comps, flags, wo, wi, side):
    """side: +1 where wo and wi are on one side of the surface, else -1."""
    out = np.zeros((len(wi), 3))
    for c in comps:
        if matches(c, flags):
            want = 1. if c['type'] & REFL else -1.
            out += np.where(side == want, 1., 0.)[:, None] * f(c, wo, wi)
    return out


def total_pdf(comps, flags, wo, wi):
    m = [c for c in comps if matches(c, flags)]
    if not m:
        return np.zeros(len(wi))
    return sum(pdf(c, wo, wi) for c in m) / len(m)


def specular(c, wo):
    """(wi, value) of a specular component for one direction, or None."""
    if c['kind'] == 'scaled':
        r = specular(c['of'], wo)
        return r and (r[0], np.array(c['s']) * r[1])
    if c['kind'] == 'specr':
        F = fresnel(c['fr'], np.array([wo[2]]))[0]
        return np.array([-wo[0], -wo[1], wo[2]]), F * np.array(c['R']) / abs(wo[2])
    a, b = (c['ei'], c['et']) if wo[2] > 0. else (c['et'], c['ei'])
    e = a / b
    s2 = e * e * (1. - wo[2] ** 2)
    if s2 >= 1.:
        return None
    ct = math.sqrt(1. - s2)
    wi = np.array([-e * wo[0], -e * wo[1], -ct if wo[2] > 0. else ct])
    F = fr_diel(np.array([wo[2]]), c['ei'], c['et'])[0]
    return wi, e * e * (1. - F) * np.array(c['R']) / ct


def sphere_grid(nt, np_):
    """Midpoint rule over the sphere in (cos, phi), finer at the equator of
    neither: directions and weights."""
    z = (np.arange(nt) + .5) / nt * 2. - 1.
    ph = (np.arange(np_) + .5) / np_ * 2. * PI
    Z, P = np.meshgrid(z, ph, indexing='ij')
    s = np.sqrt(1. - Z * Z)
    w = np.stack([s * np.cos(P), s * np.sin(P), Z], axis=-1).reshape(-1, 3)
    return w, 4. * PI / (nt * np_)
