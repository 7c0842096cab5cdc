"""A camera turns every sample into the ray its optics prescribe."""
import numpy as np

from ..core import Check, Violation
from .. import sim, instr, simrand, camlib


class C21(Check):
    id = 'C21'
    quick = 1500
    thorough = 60000
    focus = ('camera/', 'transform/', 'montecarlo/')
    fault_kinds = ('memory', 'interrupt', 'rng-edge')
    real = ('perspective, orthographic, environment and pinhole cameras', 'transforms and keyframed transforms',
            'quaternions', 'rays and ray differentials', 'stratified sampler', 'image film (resolution only)')
    stub = ('threading primitives (simulated)', 'random source (seeded stream)', 'OS scheduler')
    rule = ('a case is 1-3 cameras sharing motions and films and 1-4 tasks that turn hand-made and sampler-made '
            'samples into rays and ray differentials, with failing statements, under one schedule; non-trivial: two '
            'tasks interleaved or a failure injected; distinct by schedule, cameras, motions and fault sites')
    assumptions = ('keyframes are rigid and turn by less than 172 degrees', 'time ranges are those of the sampler')
    mods = ('pytracer.camera', 'pytracer.camera.projective', 'pytracer.transform', 'pytracer.transform.quat',
            'pytracer.sampler', 'pytracer.film', 'pytracer.filter', 'pytracer.montecarlo')

    def gen(self, rng, tier):
        motions = [camlib.gen_motion(rng) for _ in range(rng.choice([1, 1, 2]))]
        res = [[rng.choice([4, 7, 16, 31, 64]), rng.choice([4, 5, 16, 33, 64])] for _ in range(rng.choice([1, 1, 2]))]
        cams = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            c = camlib.gen_camera(rng)
            c['m'] = rng.randrange(len(motions))
            c['f'] = rng.randrange(len(res))
            cams.append(c)

        def sample(ci):
            m, r = motions[cams[ci]['m']], res[cams[ci]['f']]
            t0, t1 = m['t']
            t = rng.choice([t0, t1, round(rng.uniform(t0, t1), 3), round(rng.uniform(t0, t1), 3),
                            round(t0 - .3, 3), round(t1 + .3, 3)])
            e = lambda: rng.choice([0., .5, 1., round(rng.random(), 3), round(rng.random(), 3), round(rng.random(), 3)])
            return [round(rng.uniform(0, r[0]), 3) if rng.random() < .8 else float(rng.choice([0, r[0]])),
                    round(rng.uniform(0, r[1]), 3) if rng.random() < .8 else float(rng.choice([0, r[1]])),
                    e(), e(), t]
        pool = [(i, sample(i)) for i in range(len(cams)) for _ in range(2)]

        def op():
            if rng.random() < .15:
                i = rng.randrange(len(cams))
                t0, t1 = motions[cams[i]['m']]['t']
                a, b = sorted([round(rng.uniform(t0, t1), 2), round(rng.uniform(t0, t1), 2)])
                return ['tile', i, [rng.randrange(res[cams[i]['f']][0]), rng.randrange(res[cams[i]['f']][1]),
                                    rng.choice([1, 2]), rng.choice([1, 2]), a, b]]
            if rng.random() < .4:
                i, s = rng.choice(pool)
            else:
                i = rng.randrange(len(cams))
                s = sample(i)
            return [rng.choice(['ray', 'diff', 'diff']), i, s]
        p = {'motions': motions, 'res': res, 'cams': cams,
             'threads': [[op() for _ in range(rng.choice([2, 3, 5]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]}
        if rng.random() < .25:
            p['mem'] = {'p': rng.choice([.003, .01, .03]), 'max': rng.choice([1, 2]),
                        'kinds': rng.choice([['memory'], ['interrupt'], ['memory', 'interrupt']])}
        return p

    def execute(self, plan, run):
        from pytracer.film import ImageFilm
        from pytracer.filter import BoxFilter
        from pytracer.sampler import CameraSample, Sample, StratifiedSampler
        anims = [camlib.animated(m) for m in plan['motions']]
        films = [ImageFilm(r[0], r[1], BoxFilter(.5, .5), [0., 1., 0., 1.], 'none.png') for r in plan['res']]
        cams = [camlib.build(c, anims[c['m']], films[c['f']], *plan['motions'][c['m']]['t']) for c in plan['cams']]
        got, errs = [], []
        inj = (sim.InjectedFault, sim.InjectedInterrupt)
        flt = lambda v: [float(x) for x in (v.x, v.y, v.z)]

        def shoot(k, i, smp):
            fields = lambda: [smp.imageX, smp.imageY, smp.lens_u, smp.lens_v, smp.time]
            before = fields()
            wt, r = (cams[i].generate_ray if k == 'ray' else cams[i].generate_ray_differential)(smp)
            res = {'k': k, 'cam': i, 'in': [float(x) for x in before], 'wt': float(wt), 'o': flt(r.o), 'd': flt(r.d),
                   'range': [float(r.mint), float(r.maxt)], 'time': float(r.time), 'depth': float(r.depth),
                   'kept': fields() == before}
            if k == 'diff':
                res.update(has=bool(r.has_differentials), rx=[flt(r.rxOrigin), flt(r.rxDirection)],
                           ry=[flt(r.ryOrigin), flt(r.ryDirection)])
            return res

        def one(o):
            k, i, s = o
            if k != 'tile':
                return [shoot(k, i, CameraSample(*s))]
            x, y, sx, sy, t0, t1 = s
            sp = StratifiedSampler(x, x + 1, y, y + 1, sx, sy, True, t0, t1)
            smp = Sample().duplicate(sp.maximum_sample_cnt())
            out = []
            while sp.generate(smp):
                for q in smp:
                    if not t0 - 1e-12 <= q.time <= t1 + 1e-12:
                        raise Violation('time-outside-shutter', 'the sampler gives time %r for a shutter open %r-%r'
                                        % (q.time, t0, t1))
                    out.append(shoot('diff', i, q))
            return out

        def task(ops):
            def go():
                for o in ops:
                    try:
                        got.append((o, one(o)))
                    except inj as e:
                        errs.append((o, e))
            return go
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/camera/' in x[0] or '/transform/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('task%d' % i, task(ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                         streams=[simrand.Stream('%s:%d' % (run.seed, i), edge=.1) for i in range(len(plan['threads']))])
        if s.outcome:
            raise Violation('no-progress', 'a camera does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(errs) > len(s.fault_log):
            raise Violation('spurious-error', '%d queries failed, %d failures injected' % (len(errs), len(s.fault_log)))
        n = 0
        for _, rs in got:
            for v in rs:
                n += self.judge(plan, v)
        for o, _ in got[:2] + errs:
            for v in one(o):
                self.judge(plan, v, 'later-')
        run.probe('rays_judged', n)
        run.nontrivial = s.switches > len(plan['threads']) or bool(s.fault_log)
        run.keys = [[[c['k'], c['m']] for c in plan['cams']], [[o[:2] for o in t] for t in plan['threads']]]

    @staticmethod
    def judge(plan, v, pre=''):
        c = plan['cams'][v['cam']]
        m, res, s = plan['motions'][c['m']], plan['res'][c['f']], v['in']
        what = '%s camera %r moving %r, film %r, sample %r' % (c['k'], c, m, res, s)

        def cmp(name, a, b):
            tol = 2e-6 * max(1., np.abs(b).max())
            if not np.all(np.abs(np.asarray(a) - b) <= tol):
                raise Violation(pre + 'wrong-' + name, '%s: the %s is %r, the optics say %r' % (what, name, a, b.tolist()))
        if not v['kept']:
            raise Violation(pre + 'sample-changed', '%s: the sample was changed' % what)
        o, d = camlib.ray(c, m, res, s)
        cmp('origin', v['o'], o)
        cmp('direction', v['d'], d)
        if v['time'] != s[4]:
            raise Violation(pre + 'wrong-time', '%s: the ray is at time %r' % (what, v['time']))
        if v['depth'] != 0 or v['range'] != [0., float('inf')] or v['wt'] != 1.:
            raise Violation(pre + 'wrong-ray', '%s: the ray has depth %r, range %r, weight %r' % (
                what, v['depth'], v['range'], v['wt']))
        if v['k'] == 'diff':
            if not v['has']:
                raise Violation(pre + 'no-differentials', '%s: the ray has no differentials' % what)
            for name, k in (('rx', 0), ('ry', 1)):
                t = list(s)
                t[k] += 1.
                o, d = camlib.ray(c, m, res, t)
                cmp(name + '-origin', v[name][0], o)
                cmp(name + '-direction', v[name][1], d)
        return 1


CHECK = C21
