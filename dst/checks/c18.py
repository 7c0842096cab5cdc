"""A tile that fails says so and spoils no other tile."""
import numpy as np

from ..core import Violation
from .. import sim, instr, filmlib
from .c15 import Tiles, BASES, Failed, pick, sane


class C18(Tiles):
    id = 'C18'
    quick = 400
    thorough = 60000
    focus = ('renderer/renderer.py', 'film/film.py', 'sampler/')
    fault_kinds = ('memory', 'interrupt', 'failing integrator', 'failing light', 'failing camera', 'failing film')
    real = ('renderer and its tasks', 'image film, filters', 'stratified sampler', 'orthographic camera', 'scene, '
            'aggregates')
    stub = ('integrator and light (harness subclasses that return chosen radiance or fail)',
            'threading primitives (simulated)', 'random source (seeded streams)', 'image writing (recorded)',
            'OS scheduler')
    rule = ('a case is a film and 1-4 renderer tasks or one render call in which chosen samples or chosen statements '
            'fail, under one schedule, followed by the same rendering without failures; non-trivial: a tile failed; '
            'distinct by schedule, film and failures')
    assumptions = ('a statement of the film that fails while a sample is added leaves that sample in, out, or in only '
                   'with its weight or its light, per pixel',)

    def gen(self, rng, tier):
        p = self.base(rng)
        p['n'] = rng.choice([1, 2, 2, 3, 3, 4])
        k = rng.choice(['where', 'where', 'stmt', 'stmt', 'both'])
        if k != 'stmt':
            p['where'] = rng.choice([['integrator'], ['light'], ['camera'], ['film'],
                                     ['integrator', 'light', 'camera', 'film']])
            p['error'] = rng.choice([0, rng.randrange(len(BASES))])
            p['fail'] = rng.choice([.05, .15, .4])
        if k != 'where':
            p['mem'] = {'p': rng.choice([.0005, .002, .01]), 'max': rng.choice([1, 2, 3]),
                        'kinds': rng.choice([['memory'], ['interrupt']])}
        if rng.random() < .25:
            p['n'], p['render'] = 1, True
        return p

    def execute(self, plan, run):
        ren = self.once(plan, run, False)
        clean = {k: v for k, v in plan.items() if k not in ('where', 'mem')}
        self.once(clean, run, True, ren if plan.get('render') else None)

    def once(self, plan, run, last, ren=None):
        film, model, tasks, sizes = self.make(plan, ren)
        pre = 'later-' if last else ''
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            dirs = ('/renderer/', '/film/', '/sampler/', '/camera/', '/aggregate/', '/scene/')
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if any(d in x[0] for d in dirs)],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        with np.errstate(all='ignore'):
            s = run.simulate([('tile%d' % i, t) for i, t in enumerate(tasks)], max_steps=2000000, faults=faults,
                             streams=self.streams(plan, run))
        if s.outcome:
            raise Violation(pre + 'no-progress', 'rendering does not finish: %s' % s.outcome)
        failed = {}
        inj = (sim.InjectedFault, sim.InjectedInterrupt, Failed)
        for i, t in enumerate(s.tasks):
            if t.error is not None:
                if not isinstance(t.error, inj):
                    raise Violation(pre + 'unexpected-exception', '%s: %r' % (t.name, t.error))
                failed[t.name] = t.error
        for f in s.fault_log:
            run.probe('failures_injected')
        for _, where, _ in film.raised:
            run.faults['failing ' + where] += 1
        n_inj = sum(1 for e in failed.values() if not isinstance(e, Failed))
        if n_inj < len(s.fault_log):
            raise Violation(pre + 'swallowed-failure', '%d failures injected, %d tiles report one' % (
                len(s.fault_log), n_inj))
        for i, size in enumerate(sizes):
            name = 'tile%d' % i
            mine = [x for x in film.done if x[3] == name]
            if name not in failed and len(mine) != size:
                raise Violation(pre + 'lost-samples', '%s reports no failure and gave %d of its %d samples to the film' %
                                (name, len(mine), size))
            if len(mine) > size:
                raise Violation(pre + 'extra-samples', '%s gave %d samples to the film, it has %d' % (
                    name, len(mine), size))
            for _, where, time in [x for x in film.raised if x[0] == name]:
                if not isinstance(failed.get(name), Failed):
                    raise Violation(pre + 'swallowed-failure', 'the %s failed at %r, %s reports %r' % (
                        where, time, name, failed.get(name)))
                if any(x[2] == time for x in mine):
                    raise Violation(pre + 'failed-sample', 'the sample at %r of %s failed in the %s but reached the '
                                    'film' % (time, name, where))
            w = [x for x in film.writes if x[0] == name]
            if plan.get('render'):
                if name in failed and w and isinstance(failed[name], Failed):
                    raise Violation(pre + 'image-of-failed-render', 'a render that failed wrote its image')
                if name not in failed and w != [(name, size)]:
                    raise Violation(pre + 'no-image', 'a render wrote its image %r' % (w,))
        for x in film.done:
            model.add(x[0], x[1], sane(*pick(plan, x[2])[:2]))
        rest = list(film.begun)
        for x in film.done:
            rest.remove(x)
        if len(rest) > len(failed):
            raise Violation(pre + 'lost-samples', 'the film dropped %r' % rest)
        for x in rest:
            model.add(x[0], x[1], sane(*pick(plan, x[2])[:2]), maybe=True)
        filmlib.compare(model, film, 1., pre)
        if not last:
            run.probe('tiles_failed', len(failed))
            run.nontrivial = bool(failed)
            run.keys = [plan['filter'], plan['crop'], plan['n'], plan['salt']]
        return film.ren


CHECK = C18
