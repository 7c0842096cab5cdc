"""Cameras and an independent description of their rays."""
import math

import numpy as np


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


# -- poses ---------------------------------------------------------------------
def gen_pose(rng, spread=4.):
    pos = [round(rng.uniform(-spread, spread), 3) for _ in range(3)]
    k = rng.choice(['look', 'look', 'turn', 'move', 'fixed'])
    if k == 'fixed':
        return {'k': k}
    if k == 'move':
        return {'k': k, 'pos': pos}
    if k == 'turn':
        while True:
            ax = [round(rng.uniform(-1, 1), 3) for _ in range(3)]
            if np.linalg.norm(ax) > .2:
                break
        return {'k': k, 'pos': pos, 'ax': ax, 'deg': round(rng.uniform(-180, 180), 2)}
    while True:
        at = [round(rng.uniform(-spread, spread), 3) for _ in range(3)]
        up = [round(rng.uniform(-1, 1), 2) for _ in range(3)] if rng.random() < .5 else [0., 1., 0.]
        d = np.subtract(at, pos)
        if np.linalg.norm(d) > .5 and np.linalg.norm(np.cross(unit(d), up)) > .2:
            return {'k': k, 'pos': pos, 'at': at, 'up': up}


def pose(p):
    """Rotation and position, camera to world."""
    if p['k'] == 'fixed':
        return np.eye(3), np.zeros(3)
    c = np.array(p['pos'])
    if p['k'] == 'move':
        return np.eye(3), c
    if p['k'] == 'turn':
        return rot(unit(p['ax']), math.radians(p['deg'])), c
    z = unit(np.subtract(p['at'], p['pos']))
    x = unit(np.cross(p['up'], z))
    return np.array([x, np.cross(z, x), z]).T, c


def rot(a, th):
    k = np.array([[0., -a[2], a[1]], [a[2], 0., -a[0]], [-a[1], a[0], 0.]])
    return np.eye(3) + math.sin(th) * k + (1. - math.cos(th)) * k.dot(k)


def axis_angle(r):
    c = min(1., max(-1., (r[0, 0] + r[1, 1] + r[2, 2] - 1.) / 2.))
    v = np.array([r[2, 1] - r[1, 2], r[0, 2] - r[2, 0], r[1, 0] - r[0, 1]])
    s = np.linalg.norm(v) / 2.
    th = math.atan2(s, c)
    return (v / (2. * s) if s > 1e-12 else np.array([0., 0., 1.])), th


def motion(m, time):
    """Pose of a keyframed motion {'p': [pose, pose], 't': [t0, t1]} at a time."""
    r0, c0 = pose(m['p'][0])
    if m['p'][0] == m['p'][1] or time <= m['t'][0]:
        return r0, c0
    r1, c1 = pose(m['p'][1])
    if time >= m['t'][1]:
        return r1, c1
    f = (time - m['t'][0]) / (m['t'][1] - m['t'][0])
    a, th = axis_angle(r0.T.dot(r1))
    return r0.dot(rot(a, f * th)), (1. - f) * c0 + f * c1


def gen_motion(rng, moving=.6):
    while True:
        p = gen_pose(rng)
        q = gen_pose(rng) if rng.random() < moving else p
        t0 = rng.choice([0., 0., round(rng.uniform(-1, 1), 2)])
        m = {'p': [p, q], 't': [t0, t0 + rng.choice([1., 1., round(rng.uniform(.2, 3.), 2)])]}
        if axis_angle(pose(p)[0].T.dot(pose(q)[0]))[1] < 3.:
            return m


# -- the real ones ---------------------------------------------------------------
def transform(p):
    import pytracer.geometry as geo
    from pytracer.transform import Transform
    if p['k'] == 'fixed':
        return Transform()
    if p['k'] == 'look':
        return Transform.look_at(geo.Point(*p['pos']), geo.Point(*p['at']), geo.Vector(*p['up']))
    t = Transform.translate(geo.Vector(*p['pos']))
    if p['k'] == 'turn':
        t = t * Transform.rotate(p['deg'], geo.Vector(*p['ax']))
    return t


def animated(m):
    from pytracer.transform import AnimatedTransform
    a = transform(m['p'][0])
    b = a if m['p'][0] == m['p'][1] else transform(m['p'][1])
    return AnimatedTransform(a, m['t'][0], b, m['t'][1])


def gen_camera(rng):
    k = rng.choice(['persp', 'persp', 'ortho', 'env', 'pinhole'])
    c = {'k': k}
    if k in ('persp', 'ortho'):
        c['win'] = rng.choice([[-1., 1., -1., 1.], [0., 1., 0., 1.], [-1.5, 1.5, -1., 1.],
                               [round(rng.uniform(-3, 0), 2), round(rng.uniform(.2, 3), 2),
                                round(rng.uniform(-3, 0), 2), round(rng.uniform(.2, 3), 2)]])
        c['lens'] = rng.choice([0., 0., round(rng.uniform(.05, .6), 3)])
        c['focus'] = round(rng.uniform(.5, 8.), 3)
        if k == 'persp':
            c['fov'] = rng.choice([90., 45., round(rng.uniform(15., 120.), 1)])
    elif k == 'pinhole':
        c['focus'] = round(rng.uniform(1., 20.), 2)
    return c


def build(c, a, film, s_open=0., s_close=1.):
    from pytracer import camera as C
    from pytracer.camera.projective import OrthoCamera, PerspectiveCamera, PinholeCamera
    if c['k'] == 'persp':
        return PerspectiveCamera(a, c['win'], s_open, s_close, c['lens'], c['focus'], c['fov'], film)
    if c['k'] == 'ortho':
        return OrthoCamera(a, c['win'], s_open, s_close, c['lens'], c['focus'], film)
    if c['k'] == 'env':
        return C.EnvironmentCamera(a, s_open, s_close, film)
    return PinholeCamera(a, c['focus'], film)


# -- the rays --------------------------------------------------------------------
def disk(u, v):
    """Shirley's concentric map of the unit square to the unit disk."""
    x, y = 2. * u - 1., 2. * v - 1.
    if x == 0. and y == 0.:
        return 0., 0.
    if abs(x) > abs(y):
        r, th = x, math.pi / 4. * (y / x)
    else:
        r, th = y, math.pi / 2. - math.pi / 4. * (x / y)
    return r * math.cos(th), r * math.sin(th)


def ray(c, m, res, s):
    """Origin and unit direction for a camera sample (x, y, u, v, time)."""
    x, y, u, v, t = s
    lens = None
    if c['k'] in ('persp', 'ortho'):
        w = c['win']
        sx = w[0] + (w[1] - w[0]) * x / res[0]
        sy = w[3] - (w[3] - w[2]) * y / res[1]
        if c['k'] == 'persp':
            f = math.tan(math.radians(c['fov']) / 2.)
            o, d = np.zeros(3), unit([sx * f, sy * f, 1.])
        else:
            o, d = np.array([sx, sy, 0.]), np.array([0., 0., 1.])
        if c['lens'] > 0.:
            lx, ly = disk(u, v)
            lens = np.array([lx * c['lens'], ly * c['lens'], 0.])
            focus = o + d * (c['focus'] / d[2])
            o, d = lens, unit(focus - lens)
    elif c['k'] == 'env':
        th, ph = math.pi * y / res[1], 2. * math.pi * x / res[0]
        o, d = np.zeros(3), np.array([math.sin(th) * math.cos(ph), math.cos(th), math.sin(th) * math.sin(ph)])
    else:
        o = np.array([x, y, 0.])
        d = unit(np.array([0., 0., c['focus']]) - o)
    r, p = motion(m, t)
    return r.dot(o) + p, r.dot(d)
