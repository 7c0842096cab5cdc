"""Materials: values, densities and samples agree and follow their models."""
import math
import time

import numpy as np

from ..core import Check, Violation
from .. import sim, instr, bsdfref as R

FLAGS = [31, 31, 31, 15, 15, 17, 18, 5, 9, 13]
EDGE = [0., 1e-12, .5, .25, .75, 1. - 2. ** -53]


class TextureDown(Exception):
    pass


class Tex(object):
    """A texture that varies over the surface and with the footprint."""

    def __init__(self, base, slope, foot, owner):
        self.base, self.slope, self.foot, self.owner = base, slope, foot, owner
        self.kept = None

    def __call__(self, dg):
        self.owner.visits += 1
        if self.owner.visits in self.owner.down:
            self.owner.hit += 1
            raise TextureDown('texture')
        time.sleep(0)
        if not self.slope and not self.foot:
            # always the same answer, as of a constant texture
            if self.kept is None:
                self.kept = self.make(self.at(0., 0.))
            return self.kept
        return self.make(self.at(dg.u, dg.dudx))

    def at(self, u, dudx):
        k = 1. + self.slope * u + self.foot * dudx
        return [b * k for b in self.base] if isinstance(self.base, list) else self.base * k

    def make(self, v):
        from pytracer import Spectrum
        return Spectrum(v) if isinstance(v, list) else v


class C17(Check):
    id = 'C17'
    quick = 600
    thorough = 30000
    focus = ('material/material.py', 'reflection/bsdf.py', 'reflection/bdf/bdf.py', 'reflection/bdf/torrance.py',
             'reflection/bdf/orennayar.py', 'reflection/bdf/fresnelblend.py')
    fault_kinds = ('texture that fails', 'memory', 'interrupt', 'edge draws')
    real = ('materials', 'BSDF', 'scattering models', 'Fresnel terms', 'microfacet distributions',
            'hemisphere sampling')
    stub = ('textures (harness functions of the shading point)', 'random draws (seeded, with edge values)',
            'threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is 1-4 materials, 1-3 shading frames and 1-4 tasks that evaluate and sample them with seeded and '
            'edge draws, with failing textures or failing statements, under one schedule; non-trivial: two tasks '
            'interleaved on a shared material, or a stratified sweep of the draws; distinct by schedule, materials and '
            'fault sites')
    assumptions = ('directions are unit vectors not within 1e-3 of the tangent plane',
                   'half vectors of opposite directions are not judged')
    mods = ('pytracer.material', 'pytracer.reflection', 'pytracer.texture')

    def setup(self):
        Check.setup(self)
        from pytracer import Spectrum
        Spectrum.init()

    # ---------------------------------------------------------------- plans
    def gen(self, rng, tier):
        def col(lo=.05, hi=.95):
            return [round(rng.uniform(lo, hi), 3) for _ in range(3)]

        def tex(v):
            return [v, round(rng.choice([0., rng.uniform(-.3, .3)]), 3), round(rng.choice([0., rng.uniform(-.3, .3)]), 3)]

        def dist():
            if rng.random() < .6:
                return ['blinn', round(rng.uniform(.5, 30.), 2)]
            return ['anis', round(rng.uniform(.5, 30.), 2), round(rng.uniform(.5, 30.), 2)]

        def mat(depth=0):
            k = rng.choice(['matte', 'oren', 'plastic', 'mirror', 'metal', 'glass', 'uber', 'mix', 'micro', 'blend',
                            'flip', 'sub', 'kdsub'])
            if k == 'mix' and depth:
                k = 'plastic'
            m = {'kind': k}
            if k in ('matte', 'oren'):
                m.update(Kd=tex(col()), sigma=tex(0. if k == 'matte' else round(rng.uniform(5, 60), 2)))
            elif k == 'plastic':
                m.update(Kd=tex(col()), Ks=tex(col()), rough=tex(round(rng.uniform(.04, 1.), 3)))
            elif k == 'mirror':
                m.update(Kr=tex(col()))
            elif k == 'metal':
                m.update(eta=tex(col(.2, 2.)), k=tex(col(.5, 4.)), rough=tex(round(rng.uniform(.04, 1.), 3)))
            elif k in ('sub', 'kdsub'):
                m.update(Kr=tex(rng.choice([[0., 0., 0.], col(), col()])), eta=tex(round(rng.uniform(1.1, 2.2), 3)),
                         sa=tex(col(.1, 3.)), ss=tex(col(.1, 3.)), scale=round(rng.uniform(.1, 4.), 2),
                         Kd=tex(col()), mfp=tex(round(rng.uniform(.1, 2.), 2)))
            elif k == 'glass':
                m.update(Kr=tex(col()), Kt=tex(col()), eta=tex(round(rng.uniform(1.1, 2.2), 3)))
            elif k == 'uber':
                m.update(rough=tex(round(rng.uniform(.04, 1.), 3)), eta=tex(round(rng.uniform(1.1, 2.2), 3)),
                         opacity=tex(rng.choice([[1., 1., 1.], col()])))
                for n in ('Kd', 'Ks', 'Kr', 'Kt'):
                    m[n] = tex(rng.choice([[0., 0., 0.], col(), col()]))
            elif k == 'mix':
                m.update(m1=mat(1), m2=mat(1), scale=tex(col()))
                for n in ('m1', 'm2'):
                    while m[n]['kind'] in ('micro', 'blend', 'flip', 'mix'):
                        m[n] = mat(1)
            elif k == 'micro':
                m.update(R=col(), d=dist(), fr=rng.choice([['diel', 1., 1.5], ['cond', col(.2, 2.), col(.5, 4.)],
                                                           ['full']]))
            elif k == 'blend':
                m.update(R=col(), Rs=col(), d=dist())
            else:
                m.update(R=col(), R2=rng.choice([None, col()]))
            return m

        def vec():
            return [round(rng.uniform(-1, 1), 4) for _ in range(3)]

        def frame():
            while True:
                u, v = np.array(vec()), np.array(vec())
                if np.linalg.norm(np.cross(u, v)) > .2 and np.linalg.norm(u) > .2:
                    break
            return {'u': u.tolist(), 'v': v.tolist(), 'flip': rng.random() < .4,
                    'tilt': rng.choice([None, None, vec()]), 'uu': round(rng.uniform(0, 1), 3),
                    'dudx': round(rng.uniform(0, 1), 3)}

        def local():
            z = rng.choice([-1, 1, 1]) * rng.uniform(.03, 1.)
            if rng.random() < .08:
                return [0., 0., math.copysign(1., z)]
            a = rng.uniform(-math.pi, math.pi)
            s = math.sqrt(1. - z * z)
            return [s * math.cos(a), s * math.sin(a), z]
        mats = [mat() for _ in range(rng.choice([1, 1, 2, 4]))]
        frames = [frame() for _ in range(rng.choice([1, 1, 2, 3]))]
        pool = [local() for _ in range(rng.choice([2, 4, 8]))]

        def draw():
            return rng.choice(EDGE) if rng.random() < .2 else rng.random()
        draws = [[draw(), draw(), draw()] for _ in range(rng.choice([1, 3, 8]))]

        def op():
            k = rng.choice(['sample', 'sample', 'sample', 'f', 'pdf'])
            mi = rng.randrange(len(mats))
            if mats[mi]['kind'] == 'sub' and rng.random() < .4:
                k = 'in'
            o = [k, mi, rng.randrange(len(frames)), rng.randrange(len(pool)), rng.choice(FLAGS),
                 rng.random() < .5, rng.random() < .5]
            o.append(rng.randrange(len(draws)) if k == 'sample' else rng.randrange(len(pool)))
            return o
        p = {'mats': mats, 'frames': frames, 'pool': pool, 'draws': draws, 'down': [], 'sweep': None,
             'threads': [[op() for _ in range(rng.choice([2, 4, 8]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .2:
            p['down'] = [rng.randrange(1, 40) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .2:
            p['mem'] = {'p': rng.choice([.001, .005]), 'max': 1, 'kinds': rng.choice([['memory'], ['interrupt']])}
        if rng.random() < (.1 if tier == 'quick' else .2):
            p['sweep'] = [rng.randrange(len(mats)), rng.randrange(len(frames)), rng.randrange(len(pool)),
                          12 if tier == 'quick' else 24]
        return p

    # ------------------------------------------------------------ reference
    def comps(self, m, fr):
        def t(x):
            return Tex(x[0], x[1], x[2], self).at(fr['uu'], fr['dudx'])

        def c01(v):
            return [min(max(x, 0.), 1.) for x in v]

        def clip(x):
            return [max(v, 0.) for v in x]
        k = m['kind']
        lam = lambda r: {'kind': 'lambert', 'type': 5, 'R': r}
        mic = lambda r, fr_, e: {'kind': 'micro', 'type': 9, 'R': r, 'fr': fr_, 'd': ['blinn', min(e, 10000.)]}
        if k in ('matte', 'oren'):
            s = min(max(t(m['sigma']), 0.), 90.)
            if s == 0.:
                return [lam(clip(t(m['Kd'])))]
            return [{'kind': 'oren', 'type': 5, 'R': clip(t(m['Kd'])), 'sigma': s}]
        if k == 'plastic':
            return [lam(clip(t(m['Kd']))), mic(clip(t(m['Ks'])), ['diel', 1., 1.5], 1. / t(m['rough']))]
        if k == 'mirror':
            return [{'kind': 'specr', 'type': 17, 'R': clip(t(m['Kr'])), 'fr': ['full']}]
        if k == 'metal':
            return [mic([1., 1., 1.], ['cond', t(m['eta']), t(m['k'])], 1. / t(m['rough']))]
        if k in ('sub', 'kdsub'):
            r = clip(t(m['Kr']))
            return [{'kind': 'specr', 'type': 17, 'R': r, 'fr': ['diel', 1., t(m['eta'])]}] if any(r) else []
        if k == 'glass':
            e = t(m['eta'])
            return [{'kind': 'specr', 'type': 17, 'R': clip(t(m['Kr'])), 'fr': ['diel', 1., e]},
                    {'kind': 'spect', 'type': 18, 'R': clip(t(m['Kt'])), 'ei': 1., 'et': e}]
        if k == 'uber':
            out = []
            op = np.array(clip(t(m['opacity'])))
            if not (op == 1.).all():
                out.append({'kind': 'spect', 'type': 18, 'R': (1. - op).tolist(), 'ei': 1., 'et': 1.})
            e = t(m['eta'])
            g = {n: (op * np.array(clip(t(m[n])))).tolist() for n in ('Kd', 'Ks', 'Kr', 'Kt')}
            if any(g['Kd']):
                out.append(lam(g['Kd']))
            if any(g['Ks']):
                out.append(mic(g['Ks'], ['diel', 1., e], 1. / t(m['rough'])))
            if any(g['Kr']):
                out.append({'kind': 'specr', 'type': 17, 'R': g['Kr'], 'fr': ['diel', 1., e]})
            if any(g['Kt']):
                out.append({'kind': 'spect', 'type': 18, 'R': g['Kt'], 'ei': 1., 'et': e})
            return out
        if k == 'mix':
            s = np.array(clip(t(m['scale'])))
            s2 = np.clip(1. - s, 0., None)
            return [{'kind': 'scaled', 'type': c['type'], 's': w.tolist(), 'of': c}
                    for w, sub in ((s, m['m1']), (s2, m['m2'])) for c in self.comps(sub, fr)]
        if k == 'micro':
            return [{'kind': 'micro', 'type': 9, 'R': m['R'], 'fr': m['fr'], 'd': m['d']}]
        if k == 'blend':
            return [{'kind': 'blend', 'type': 9, 'R': m['R'], 'Rs': m['Rs'], 'd': m['d']}]
        out = [{'kind': 'flip', 'type': 6, 'of': lam(m['R'])}]
        return out + ([lam(m['R2'])] if m['R2'] else [])

    # ------------------------------------------------------------- real ones
    def build(self, m):
        from pytracer import material as M

        def t(n):
            return Tex(m[n][0], m[n][1], m[n][2], self)
        k = m['kind']
        if k in ('matte', 'oren'):
            return M.MatteMaterial(t('Kd'), t('sigma'))
        if k == 'plastic':
            return M.PlasticMaterial(t('Kd'), t('Ks'), t('rough'))
        if k == 'mirror':
            return M.MirrorMaterial(t('Kr'))
        if k == 'metal':
            return M.MetalMaterial(t('eta'), t('k'), t('rough'))
        if k == 'sub':
            return M.SubsurfaceMaterial(m['scale'], t('Kr'), t('sa'), t('ss'), t('eta'))
        if k == 'kdsub':
            return M.KdSubsurfaceMaterial(t('Kd'), t('Kr'), t('mfp'), t('eta'))
        if k == 'glass':
            return M.GlassMaterial(t('Kr'), t('Kt'), t('eta'))
        if k == 'uber':
            return M.UberMaterial(*[t(n) for n in ('Kd', 'Ks', 'Kr', 'Kt', 'rough', 'opacity', 'eta')])
        if k == 'mix':
            return M.MixMaterial(self.build(m['m1']), self.build(m['m2']), t('scale'))
        return None

    def inside(self, mat, fr):
        """The scattering inside a translucent material at a shading point."""
        dgg, dgs = self.point(fr)
        b = mat.get_bssrdf(dgg, dgs)
        repr(b)
        return [float(b.eta)] + [float(x) for x in b.sigma_a] + [float(x) for x in b.sigma_prime_s]

    def inside_ref(self, m, fr):
        a, s, e = [np.array(Tex(m[n][0], m[n][1], m[n][2], self).at(fr['uu'], fr['dudx'])) for n in ('sa', 'ss', 'eta')]
        return [float(e)] + (m['scale'] * a).tolist() + (m['scale'] * s).tolist()

    def point(self, fr):
        import pytracer.geometry as geo
        z = geo.Normal(0., 0., 0.)
        dgs = geo.DifferentialGeometry(geo.Point(0., 0., 0.), geo.Vector(*fr['u']), geo.Vector(*fr['v']), z, z,
                                       fr['uu'], 0., None)
        dgs.dudx = fr['dudx']
        dgg = dgs.copy()
        s, t, n, ng = self.axes(fr)
        dgs.nn = geo.Normal(*n)
        dgg.nn = geo.Normal(*ng)
        return dgg, dgs

    def bsdf(self, mat, m, fr):
        import pytracer.geometry as geo
        from pytracer import Spectrum
        from pytracer.reflection import BSDF
        from pytracer.reflection.bdf import torrance as B
        from pytracer.reflection.bdf.fresnelblend import FresnelBlend
        from pytracer.reflection.bdf.bdf import BRDF2BTDF, Lambertian
        from pytracer.reflection import fresnel as F
        dgg, dgs = self.point(fr)
        if mat is not None:
            return mat.get_bsdf(dgg, dgs)
        b = BSDF(dgs, dgg.nn)
        if m['kind'] == 'flip':
            b.push_back(BRDF2BTDF(Lambertian(Spectrum(m['R']))))
            if m['R2']:
                b.push_back(Lambertian(Spectrum(m['R2'])))
            return b
        d = B.Blinn(m['d'][1]) if m['d'][0] == 'blinn' else B.Anisotropic(m['d'][1], m['d'][2])
        if m['kind'] == 'micro':
            f = m['fr']
            fr_ = F.FresnelDielectric(f[1], f[2]) if f[0] == 'diel' else \
                F.FresnelConductor(Spectrum(f[1]), Spectrum(f[2])) if f[0] == 'cond' else F.FresnelFullReflect()
            b.push_back(B.Microfacet(Spectrum(m['R']), fr_, d))
        else:
            b.push_back(FresnelBlend(Spectrum(m['R']), Spectrum(m['Rs']), d))
        return b

    @staticmethod
    def axes(fr):
        u, v = np.array(fr['u']), np.array(fr['v'])
        n = np.cross(u, v)
        n /= np.linalg.norm(n)
        if fr['flip']:
            n = -n
        s = u / np.linalg.norm(u)
        t = np.cross(n, s)
        ng = n
        if fr['tilt']:
            ng = n + .4 * np.array(fr['tilt'])
            ng /= np.linalg.norm(ng)
        return s, t, n, ng

    # ----------------------------------------------------------------- runs
    def execute(self, plan, run):
        import pytracer.geometry as geo
        from pytracer.reflection import BSDFSample
        from pytracer.reflection.bdf.bdf import BDFType
        self.visits, self.down, self.hit = 0, (), 0
        mats = [self.build(m) for m in plan['mats']]
        # materials that two mixes share, or a mix and a task
        shared = {}
        for ops in plan['threads']:
            for o in ops:
                if o[5] and (o[1], o[2]) not in shared:
                    shared[o[1], o[2]] = self.bsdf(mats[o[1]], plan['mats'][o[1]], plan['frames'][o[2]])
        self.visits, self.down = 0, tuple(plan['down'])
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt, TextureDown)

        def world(fi, d):
            s, t, n, _ = self.axes(plan['frames'][fi])
            return geo.Vector(*(s * d[0] + t * d[1] + n * d[2]))

        def one(o):
            k, mi, fi, oi, fl, sh, typed, x = o
            if k == 'in':
                return self.inside(mats[mi], plan['frames'][fi])
            b = shared[mi, fi] if sh else self.bsdf(mats[mi], plan['mats'][mi], plan['frames'][fi])
            wo = world(fi, plan['pool'][oi])
            flags = BDFType(fl) if typed else fl
            if k == 'f':
                return [float(v) for v in b.f(wo, world(fi, plan['pool'][x]), flags)]
            if k == 'pdf':
                return float(b.pdf(wo, world(fi, plan['pool'][x]), flags))
            u = plan['draws'][x]
            pdf, wi, tp, f = b.sample_f(wo, BSDFSample(u[0], u[1], u[2]), flags)
            return [float(pdf), None if wi is None else [float(v) for v in (wi.x, wi.y, wi.z)],
                    None if tp is None else int(getattr(tp, 'v', tp)), None if f is None else [float(v) for v in f]]

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/material/' in x[0] or '/reflection/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                             max_steps=2000000)
        run.faults['texture-failure'] += self.hit
        run.fault_keys += ['texture@%d' % d for d in plan['down'][:self.hit]]
        if s.outcome:
            raise Violation('no-progress', 'evaluation does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > self.hit + len(s.fault_log):
            raise Violation('spurious-error', '%d evaluations failed, %d failures were injected' % (
                len(errs), self.hit + len(s.fault_log)))
        self.down = ()
        for o, v in got:
            self.judge(plan, o, v)
        for ops in plan['threads']:
            for o in ops[:2]:
                with np.errstate(all='ignore'):
                    v = one(o)
                self.judge(plan, o, v, 'later-')
        run.probe('evaluations', len(got))
        run.probe('evaluations_failed', len(errs))
        if plan['sweep']:
            self.sweep(plan, mats, run)
        run.nontrivial = run.nontrivial or s.switches > len(plan['threads'])
        run.keys = [[m['kind'] for m in plan['mats']], [len(t) for t in plan['threads']]]

    def judge(self, plan, o, v, pre=''):
        k, mi, fi, oi, fl, sh, typed, x = o
        fr = plan['frames'][fi]
        if k == 'in':
            w = self.inside_ref(plan['mats'][mi], fr)
            if not np.allclose(v, w, rtol=1e-9):
                raise Violation(pre + 'wrong-inside', 'index, absorption and scattering inside a translucent material '
                                'are %r, its textures and scale give %r' % (v, w))
            return
        comps = self.comps(plan['mats'][mi], fr)
        s, t, n, ng = self.axes(fr)
        wo = np.array(plan['pool'][oi])
        wow = s * wo[0] + t * wo[1] + n * wo[2]
        name = '%s (types %s)' % (plan['mats'][mi]['kind'], fl)
        if k in ('f', 'pdf'):
            wi = np.array(plan['pool'][x])
            wiw = s * wi[0] + t * wi[1] + n * wi[2]
            if not self.regular(comps, wo, wi, wow, wiw, ng):
                return
            if k == 'f':
                w = self.ref_f(comps, fl, wo, wi, wow, wiw, ng)
                if not np.allclose(v, w, rtol=1e-6, atol=1e-9):
                    raise Violation(pre + 'wrong-value', 'f(%r, %r) of %s is %r, its model gives %r' % (
                        wo.tolist(), wi.tolist(), name, v, w.tolist()))
            else:
                w = float(R.total_pdf(comps, fl, wo[None], wi[None])[0])
                if not np.allclose(v, w, rtol=1e-6, atol=1e-9):
                    raise Violation(pre + 'wrong-density', 'pdf(%r, %r) of %s is %r, its model gives %r' % (
                        wo.tolist(), wi.tolist(), name, v, w))
            return
        pdf, wi, tp, f = v
        u = plan['draws'][x]
        m = [c for c in comps if R.matches(c, fl)]
        what = 'sample %r of %s towards %r' % (u, name, wo.tolist())
        if not (pdf >= 0. and pdf < float('inf')):
            raise Violation(pre + 'bad-density', '%s has density %r' % (what, pdf))
        if not m:
            if pdf or wi is not None or (f and any(f)):
                raise Violation(pre + 'sample-of-nothing', '%s is %r, no component matches' % (what, v))
            return
        if tp not in [c['type'] for c in m]:
            raise Violation(pre + 'wrong-type', '%s is of type %r, components %r' % (what, tp, [c['type'] for c in m]))
        if pdf == 0.:
            if tp & R.SPEC and all(R.specular(c, wo) is not None for c in m if c['type'] == tp):
                raise Violation(pre + 'no-sample', '%s has density 0' % what)
            if wi is not None and f and any(f):
                pass
            return
        wiw = np.array(wi)
        if abs(np.linalg.norm(wiw) - 1.) > 1e-6:
            raise Violation(pre + 'not-unit', '%s gives direction %r' % (what, wi))
        wi = np.array([wiw.dot(s), wiw.dot(t), wiw.dot(n)])
        if tp & R.SPEC:
            ok = False
            for c in m:
                e = R.specular(c, wo) if c['type'] == tp else None
                if e is not None and np.allclose(wi, e[0], atol=1e-6) and np.allclose(f, e[1], rtol=1e-6, atol=1e-9):
                    ok = True
            if not ok:
                raise Violation(pre + 'wrong-specular', '%s gives %r with %r, the law gives %r' % (
                    what, wi.tolist(), f, [[e[0].tolist(), e[1].tolist()] for e in
                                           (R.specular(c, wo) for c in m if c['type'] == tp) if e]))
            if abs(pdf - 1. / len(m)) > 1e-9:
                raise Violation(pre + 'wrong-choice', '%s has density %r with %d components' % (what, pdf, len(m)))
            return
        if not self.regular(comps, wo, wi, wow, wiw, ng):
            return
        w = self.ref_f(comps, fl, wo, wi, wow, wiw, ng)
        if not np.allclose(f, w, rtol=1e-5, atol=1e-9):
            raise Violation(pre + 'sample-value', '%s gives value %r, the model gives %r for %r' % (
                what, f, w.tolist(), wi.tolist()))
        if w.any():
            w = float(R.total_pdf(comps, fl, wo[None], wi[None])[0])
            if not np.allclose(pdf, w, rtol=1e-5, atol=1e-9):
                raise Violation(pre + 'sample-density', '%s gives density %r, the model gives %r for %r' % (
                    what, pdf, w, wi.tolist()))

    @staticmethod
    def regular(comps, wo, wi, wow, wiw, ng):
        if abs(wi[2]) < 1e-3 or abs(wo[2]) < 1e-3 or np.linalg.norm(wo + wi) < 1e-3:
            return False
        if abs(wow.dot(ng)) < 1e-6 or abs(wiw.dot(ng)) < 1e-6:
            return False
        h = wo + wi
        h = h / np.linalg.norm(h)
        return 1. - h[2] ** 2 > 1e-6 or not any(c.get('d', [''])[0] == 'anis' for c in comps)

    @staticmethod
    def ref_f(comps, fl, wo, wi, wow, wiw, ng):
        side = 1. if wow.dot(ng) * wiw.dot(ng) > 0. else -1.
        with np.errstate(all='ignore'):
            return R.total_f(comps, fl, wo[None], wi[None], np.array([side]))[0]

    def sweep(self, plan, mats, run):
        """Every stratum of the draws once: samples follow their density."""
        import pytracer.geometry as geo
        from pytracer.reflection import BSDFSample
        from pytracer.reflection.bdf.bdf import BDFType
        mi, fi, oi, n = plan['sweep']
        fr = dict(plan['frames'][fi], tilt=None)
        comps = [c for c in self.comps(plan['mats'][mi], fr)]
        fl = 15
        m = [c for c in comps if R.matches(c, fl)]
        if not m:
            return
        b = self.bsdf(mats[mi], plan['mats'][mi], fr)
        s, t, nn, ng = self.axes(fr)
        wo = np.array(plan['pool'][oi])
        wow = s * wo[0] + t * wo[1] + nn * wo[2]
        wov = geo.Vector(*wow)
        tot, cnt = np.zeros(10), 0
        rng = run.rng
        with np.errstate(all='ignore'):
            for k in range(len(m)):
                for i in range(n):
                    for j in range(n):
                        pdf, wi, tp, f = b.sample_f(wov, BSDFSample((i + rng.random()) / n, (j + rng.random()) / n,
                                                                   (k + .5) / len(m)), BDFType(fl))
                        cnt += 1
                        if not pdf > 0. or wi is None:
                            continue
                        w = np.array([wi.x, wi.y, wi.z])
                        w = np.array([w.dot(s), w.dot(t), w.dot(nn)])
                        fv = np.array([float(v) for v in f])
                        if not fv.any():
                            continue
                        tot += self.g(w[None], np.array([fv]), np.array([float(pdf)]))[0]
            tot /= cnt
            W, dw = R.sphere_grid(240, 240)
            wos = np.tile(wo, (len(W), 1))
            p = R.total_pdf(comps, fl, wos, W)
            side = np.sign(wo[2]) * np.sign(W[:, 2])
            fv = R.total_f(comps, fl, wos, W, side)
            ok = (p > 0.) & (fv > 0.).any(axis=1)
            want = (self.g(W[ok], fv[ok], p[ok]) * p[ok][:, None]).sum(axis=0) * dw
        run.probe('sweeps')
        run.probe('swept_draws', cnt)
        run.nontrivial = True
        run.notes['dev'] = float(np.abs(tot - want).max())
        d = np.abs(tot - want)
        tol = np.array([.06] * 7 + [.06 + .1 * abs(x) for x in want[7:]]) * (12. / n)
        if (d > tol).any():
            raise Violation('wrong-distribution', 'samples of %s seen from %r have moments %r, their density has %r' % (
                plan['mats'][mi]['kind'], wo.tolist(), [round(float(x), 4) for x in tot],
                [round(float(x), 4) for x in want]))

        with np.errstate(all='ignore'):
            rho = np.array([float(v) for v in b.rho_hd(wov, BDFType(fl), n)])
        tol = .08 + .12 * np.abs(want[7:])
        if (np.abs(rho - want[7:]) > tol).any():
            raise Violation('wrong-reflectance', 'the reflectance of %s seen from %r is estimated as %r, it is %r' % (
                plan['mats'][mi]['kind'], wo.tolist(), rho.tolist(), want[7:].tolist()))

        # both directions vary: the share of uniform light that is sent back
        Wo, dwo = R.sphere_grid(16, 9)
        up = Wo[:, 2] > 0.
        Wo = Wo[up]
        Wi, dwi = R.sphere_grid(40, 40)
        want = np.zeros(3)
        with np.errstate(all='ignore'):
            for d in Wo:
                wos = np.tile(d, (len(Wi), 1))
                ok = (R.total_pdf(comps, fl, wos, Wi) > 0.)
                v = R.total_f(comps, fl, wos, Wi, np.sign(Wi[:, 2]))
                want += (v * (np.abs(Wi[:, 2]) * ok)[:, None]).sum(axis=0) * d[2] * dwo * dwi / math.pi
            rho = np.array([float(v) for v in b.rho_hh(BDFType(fl), 2 * n)])
        run.notes['hh'] = float((np.abs(rho - want) / (.02 + want)).max())
        tol = .03 + .15 * want
        if (np.abs(rho - want) > tol).any():
            raise Violation('wrong-reflectance', 'the reflectance of %s is estimated as %r, it is %r' % (
                plan['mats'][mi]['kind'], rho.tolist(), want.tolist()))

    @staticmethod
    def g(w, f, p):
        x, y, z = w[:, 0], w[:, 1], w[:, 2]
        c = f * (np.abs(z) / p)[:, None]
        return np.stack([np.ones(len(w)), x, y, z, x * x, y * y, x * y, c[:, 0], c[:, 1], c[:, 2]], axis=1)


CHECK = C17
