import random

from ..core import Check, Violation
from .. import filmlib, sim
from .c01 import C01


class BadSpectrum(object):
    """A contribution that cannot be converted: how = 'raise' | 'shape' | 'none'."""

    def __init__(self, how):
        self.how = how

    def to_xyz(self):
        if self.how == 'raise':
            raise ValueError('malformed contribution')
        if self.how == 'shape':
            import numpy as np
            return np.zeros(5)
        return None

    def __getattr__(self, n):
        raise AttributeError(n)


class C02(Check):
    id = 'C02'
    quick = 2600
    thorough = 60000
    focus = ('film/film.py',)
    fault_kinds = ('memory', 'interrupt', 'malformed contribution')
    real = C01.real
    stub = C01.stub
    rule = ('a case is a film workload of 2-4 tasks plus injected failures (allocation failure or interruption at a '
            'drawn statement of add_sample/splat, or a contribution whose conversion fails), and one schedule; '
            'non-trivial: at least one failure fired while another task had work left; distinct by schedule, fault '
            'site and workload shape')
    assumptions = C01.assumptions + (
        'an operation that fails part-way may have applied its update to any subset of the pixels it covers, and to '
        'the colour and weight sums separately; an operation refused because its argument is malformed applies nothing',
        'lock operations themselves do not fail; code in except/finally clauses is not failed a second time')
    mods = C01.mods

    def gen(self, rng, tier):
        p = filmlib.gen_plan(rng)
        p['mem'] = rng.random() < .7
        p['kinds'] = rng.choice([['memory'], ['memory', 'interrupt']])
        p['p'] = rng.choice([.02, .05, .2])
        p['max'] = rng.choice([1, 1, 2, 3])
        if not p['mem'] or rng.random() < .35:
            for _ in range(rng.choice([1, 2])):
                t = rng.choice(p['threads'])
                op = rng.choice(t)
                bad = ['bad-' + op[0], op[1], op[2], rng.choice(['raise', 'shape', 'none'])]
                if rng.random() < .5:
                    bad[0] = 'bad-splat'
                if bad[0] == 'bad-add':
                    bad[3] = 'raise'
                t.insert(rng.randint(0, len(t)), bad)
        # direct the failures at one operation rather than everywhere
        p['aim'] = rng.choice(['any', 'film'])
        return p

    def execute(self, plan, run):
        film, model = filmlib.new_film(plan)
        failed = {}
        bad_ok = []
        prog = [0] * len(plan['threads'])

        def task(k, ops):
            def f():
                for j, op in enumerate(ops):
                    bad = op[0].startswith('bad-')
                    try:
                        s = filmlib.camera_sample(op[1], op[2])
                        L = BadSpectrum(op[3]) if bad else filmlib.spectrum(op[3])
                    except (sim.InjectedFault, sim.InjectedInterrupt):
                        failed[(k, j)] = 'before'
                        continue
                    try:
                        (film.add_sample if op[0].endswith('add') else film.splat)(s, L)
                        if bad:
                            bad_ok.append((k, j))
                    except (sim.InjectedFault, sim.InjectedInterrupt):
                        failed[(k, j)] = 'injected'
                    except Exception as e:
                        if not bad:
                            raise
                        failed[(k, j)] = 'bad'
                        run.faults['malformed-' + op[3]] += 1
                    prog[k] += 1
            return f
        faults = None
        if plan['mem']:
            from .. import instr
            sites = [i for i, x in enumerate(instr.SITES)
                     if plan['aim'] == 'any' or '/film/' in x[0]]
            faults = {'sites': sites, 'p': plan['p'], 'max': plan['max'], 'kinds': plan['kinds']}
        s = run.simulate([('task%d' % k, task(k, ops)) for k, ops in enumerate(plan['threads'])], faults=faults)
        if s.outcome == 'deadlock':
            raise Violation('wedged', 'after a failed operation other tasks wait for ever: %r' % (s.deadlock_info,))
        if s.outcome == 'steps':
            raise Violation('no-progress', 'step limit reached')
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        for k, ops in enumerate(plan['threads']):
            for j, op in enumerate(ops):
                st = failed.get((k, j))
                if op[0].startswith('bad-'):
                    continue        # refused or out of range: contributes nothing
                if st == 'before':
                    continue
                (model.add if op[0] == 'add' else model.splat)(op[1], op[2], op[3], st == 'injected')
        if failed:
            run.probe('operations_failed', len(failed))
            if s.switches > 1:
                run.nontrivial = True
        run.keys = [plan['filter'][0], sorted(failed.items())]
        filmlib.compare(model, film, plan['scale'])
        # the film is still usable everywhere
        ops = []
        for y in range(model.yn):
            for x in range(model.xn):
                ops.append(['add', x + model.x0 + .5, y + model.y0 + .5, [.3, .2, .1]])
                ops.append(['splat', x + model.x0 + .5, y + model.y0 + .5, [.1, .2, .3]])

        def again():
            for op in ops:
                (film.add_sample if op[0] == 'add' else film.splat)(
                    filmlib.camera_sample(op[1], op[2]), filmlib.spectrum(op[3]))
        s = run.simulate([('after', again)], strategy={'kind': 'serial'})
        if s.outcome is not None:
            raise Violation('wedged-afterwards', 'the film is unusable after a failed operation: %s %r' % (
                s.outcome, s.deadlock_info))
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unusable-afterwards', repr(t.error))
        for op in ops:
            (model.add if op[0] == 'add' else model.splat)(op[1], op[2], op[3])
        filmlib.compare(model, film, plan['scale'], 'later-')


CHECK = C02
