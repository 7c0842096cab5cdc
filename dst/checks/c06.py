from ..core import Check, Violation
from .. import geomlib as G, sim, instr
from .c05 import C05, gen_scene


class C06(C05):
    id = 'C06'
    quick = 700
    thorough = 20000
    fault_kinds = ('loader failure', 'allocation failure', 'interrupt')
    rule = ('a case is a scene with geometry loadable on demand, a grid over it, failures (a loader failing its first '
            'calls at a drawn point, or an allocation failing / an interruption at a drawn statement of a query), 2-3 '
            'tasks with 1-3 rays each and one schedule; non-trivial: a failure fired while another task had queries '
            'left; distinct by schedule, fault site and scene')
    assumptions = C05.assumptions + ('lock operations and cleanup code do not fail',
                                     'a loader that failed gives the same geometry when called again')

    def gen(self, rng, tier):
        p = C05.gen(self, rng, tier)
        p['scene'] = gen_scene(rng, lazy=.75)
        flat = G.leaves(p['scene'])
        p['imm'] = False
        p['threads'] = []
        shared = [G.gen_ray(rng, flat) for _ in range(2)]
        for _ in range(rng.choice([1, 2, 2, 2, 3])):
            p['threads'].append([G.gen_ray(rng, flat) if rng.random() < .5 else rng.choice(shared)
                                 for _ in range(rng.randint(1, 3))])

        def mark(sc):
            for s in sc:
                if s['k'] == 'lazy':
                    if rng.random() < .6:
                        s['fails'] = rng.choice([1, 1, 2])
                        s['at'] = rng.randrange(3)
                    mark(s['kids'])
        p['mode'] = rng.choice(['loader', 'loader', 'mem', 'both'])
        if p['mode'] != 'mem':
            mark(p['scene'])
        if p['mode'] != 'loader':
            p['mem'] = {'p': rng.choice([.002, .01, .05]), 'max': rng.choice([1, 1, 2]),
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt']]),
                        'aim': rng.choice(['/aggregate/', '/aggregate/', '/pytracer/'])}
        return p

    def execute(self, plan, run):
        agg, ctls = self.build(plan)
        got = {}
        errs = {}
        LOAD = (G.LoaderError, sim.InjectedFault, sim.InjectedInterrupt)

        def task(i, rays):
            def f():
                for j, r in enumerate(rays):
                    try:
                        got[(i, j)] = G.query(agg, r)
                    except LOAD as e:
                        errs[(i, j)] = e
            return f
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if m['aim'] in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('task%d' % i, task(i, rays)) for i, rays in enumerate(plan['threads'])], faults=faults)
        if s.outcome == 'deadlock':
            raise Violation('wedged', 'after a failure queries wait for ever: %r' % (s.deadlock_info,))
        if s.outcome == 'steps':
            raise Violation('no-progress', 'a query does not finish')
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        fired = sum(c.get('failed', 0) for c in ctls)
        if fired:
            run.faults['loader-failure'] += fired
            run.fault_keys.append('loader')
        total = fired + len(s.fault_log)
        if len(errs) != total:
            raise Violation('failure-hidden', '%d failures happened, %d queries reported one' % (total, len(errs)))
        for (i, j), g in sorted(got.items()):
            G.judge(plan['scene'], plan['threads'][i][j], g)
        if total:
            run.probe('queries_failed', len(errs))
            if s.switches > len(plan['threads']):
                run.nontrivial = True
        run.keys = [len(plan['scene']), sorted(errs), [len(t) for t in plan['threads']]]
        # the cause is gone: every query gives its answer
        for c in ctls:
            c['fails'] = 0
        again, _ = self.run_queries(plan, run, agg, [[r for t in plan['threads'] for r in t]],
                                    strategy={'kind': 'serial'})
        flat = [r for t in plan['threads'] for r in t]
        for (i, j), g in sorted(again.items()):
            G.judge(plan['scene'], flat[j], g, 'later-')


CHECK = C06
