import copy

from ..core import Check, Violation
from .. import geomlib as G
from .c05 import C05


class C07(C05):
    id = 'C07'
    quick = 700
    thorough = 20000
    focus = ('accelerator/bvh.py', 'aggregate/aggregate.py', 'shape/', 'transform/')
    real = ('bounding volume hierarchy (build and traversal)', 'simple aggregate', 'primitives', 'shapes',
            'geometry/transform')
    rule = ('a case is a scene of 1-12 shapes or meshes, an aggregate over it (hierarchy with either split method and '
            'any leaf size, or the plain list), optionally a second one built from the same shapes while the first is '
            'in use, 2-3 tasks with 1-3 rays each and one schedule; non-trivial: at least two tasks were interleaved; '
            'distinct by schedule, scene size, aggregate kind and rays')

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 5, 6, 8, 12])
        scene = [G.gen_shape(rng, rng.choice([1.5, 3., 3.])) for _ in range(n)]
        if rng.random() < .3 and n > 1:
            # coincident centres
            for _ in range(rng.choice([1, 2, 4])):
                s = copy.deepcopy(rng.choice(scene))
                if s['k'] == 'sphere':
                    s['r'] *= rng.uniform(.5, 1.5)
                scene.append(s)
        if rng.random() < .2:
            # a row of equal spheres: regular spacing, shared coordinates
            scene = [{'k': 'sphere', 'c': [float(i) * 1.5 - 3, 0., rng.choice([0., 0., 2.])], 'r': .5}
                     for i in range(n)]
        if rng.random() < .15:
            scene = [{'k': 'lazy', 'kids': scene[:2]}] + scene[2:]
        p = {'scene': scene, 'threads': [],
             'agg': rng.choice([['bvh', 'sah'], ['bvh', 'sah'], ['bvh', 'middle'], ['bvh', 'middle'], ['simple']]),
             'mp': rng.choice([1, 2, 4, 8, 255]), 'second': rng.random() < .2}
        flat = G.leaves(scene)
        shared = [G.gen_ray(rng, flat) for _ in range(2)]
        for _ in range(rng.choice([2, 2, 3])):
            p['threads'].append([G.gen_ray(rng, flat) if rng.random() < .6 else rng.choice(shared)
                                 for _ in range(rng.randint(1, 3))])
        return p

    def make(self, plan, prims):
        from pytracer.aggregate import BVH, SimpleAggregate
        if plan['agg'][0] == 'simple':
            return SimpleAggregate(prims, True)
        return BVH(prims, plan['mp'], plan['agg'][1])

    def execute(self, plan, run):
        prims, toks, ctls = G.mk_prims(plan['scene'])
        agg = self.make(plan, prims)
        got = {}
        other = {}

        def task(i, rays):
            def f():
                for j, r in enumerate(rays):
                    got[(i, j)] = G.query(agg, r)
            return f

        def builder():
            a = self.make(plan, prims)
            for j, r in enumerate(plan['threads'][0]):
                other[j] = G.query(a, r)
        tasks = [('task%d' % i, task(i, rays)) for i, rays in enumerate(plan['threads'])]
        if plan['second']:
            tasks.append(('builder', builder))
        s = run.simulate(tasks, max_steps=3000000)
        if s.outcome == 'deadlock':
            raise Violation('deadlock', 'queries wait for ever: %r' % (s.deadlock_info,))
        if s.outcome == 'steps':
            raise Violation('no-progress', 'a query does not finish')
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        n = 0
        for (i, j), g in sorted(got.items()):
            n += G.judge(plan['scene'], plan['threads'][i][j], g)
        for j, g in sorted(other.items()):
            G.judge(plan['scene'], plan['threads'][0][j], g, 'second-')
        run.probe('queries_judged', n)
        run.probe('queries_doubtful', len(got) - n)
        run.probe('aggregate_' + plan['agg'][0])
        if s.switches > len(tasks):
            run.nontrivial = True
        run.keys = [len(plan['scene']), plan['agg'], plan['mp'], [len(t) for t in plan['threads']]]
        again, _ = self.run_queries(plan, run, agg, [[r for t in plan['threads'] for r in t]],
                                    strategy={'kind': 'serial'})
        flat = [r for t in plan['threads'] for r in t]
        for (i, j), g in sorted(again.items()):
            G.judge(plan['scene'], flat[j], g, 'later-')


CHECK = C07
