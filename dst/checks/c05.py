from ..core import Check, Violation
from .. import geomlib as G


def gen_scene(rng, n=None, lazy=.35):
    shapes = [G.gen_shape(rng) for _ in range(n or rng.choice([1, 2, 3, 4, 6]))]
    out = []
    while shapes:
        if rng.random() < lazy:
            k = min(len(shapes), rng.choice([1, 1, 2, 3]))
            kids = [shapes.pop() for _ in range(k)]
            if len(kids) > 1 and rng.random() < .3:
                kids[0] = {'k': 'lazy', 'kids': [kids[0]]}
            out.append({'k': 'lazy', 'kids': kids})
        else:
            out.append(shapes.pop())
    return out


class C05(Check):
    id = 'C05'
    quick = 700
    thorough = 20000
    focus = ('aggregate/aggregate.py', 'aggregate/primitive.py')
    real = ('grid accelerator and voxels', 'primitives', 'shapes', 'geometry/transform')
    stub = ('threading primitives (simulated)', 'materials (identity tokens)', 'OS scheduler')
    rule = ('a case is a scene of 1-6 shapes or meshes (some only loadable on demand), a grid built over it without '
            'refining, 2-3 tasks with 1-3 rays each, and one schedule; non-trivial: at least two tasks queried the '
            'grid while some voxel still had to be refined; distinct by schedule, scene and rays')
    assumptions = ('rays that graze a shape, an edge or their own end points within the tolerance are not judged',
                   'shapes are full spheres, ellipsoids, cylinders, disks and triangle meshes')
    mods = ('pytracer.aggregate', 'pytracer.shape')

    def build(self, plan):
        from pytracer.aggregate import GridAccel
        prims, toks, ctls = G.mk_prims(plan['scene'])
        return GridAccel(prims, plan.get('imm', False)), ctls

    def gen(self, rng, tier):
        scene = gen_scene(rng)
        flat = G.leaves(scene)
        p = {'scene': scene, 'imm': rng.random() < .12, 'threads': []}
        shared = [G.gen_ray(rng, flat) for _ in range(2)]
        for _ in range(rng.choice([2, 2, 2, 3])):
            p['threads'].append([G.gen_ray(rng, flat) if rng.random() < .6 else rng.choice(shared)
                                 for _ in range(rng.randint(1, 3))])
        return p

    def run_queries(self, plan, run, agg, threads, **k):
        got = {}

        def task(i, rays):
            def f():
                for j, r in enumerate(rays):
                    got[(i, j)] = G.query(agg, r)
            return f
        s = run.simulate([('task%d' % i, task(i, rays)) for i, rays in enumerate(threads)], **k)
        if s.outcome == 'deadlock':
            raise Violation('deadlock', 'queries wait for ever: %r' % (s.deadlock_info,))
        if s.outcome == 'steps':
            raise Violation('no-progress', 'a query does not finish')
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        return got, s

    def execute(self, plan, run):
        agg, ctls = self.build(plan)
        got, s = self.run_queries(plan, run, agg, plan['threads'])
        n = 0
        for (i, j), g in sorted(got.items()):
            n += G.judge(plan['scene'], plan['threads'][i][j], g)
        run.probe('queries_judged', n)
        run.probe('queries_doubtful', len(got) - n)
        if s.switches > len(plan['threads']) and not plan.get('imm'):
            run.nontrivial = True
        run.keys = [len(plan['scene']), [len(t) for t in plan['threads']]]
        # the structure left behind answers the same
        again, _ = self.run_queries(plan, run, agg, [[r for t in plan['threads'] for r in t]],
                                    strategy={'kind': 'serial'})
        flat = [g for _, g in sorted(got.items())]
        for (i, j), g in sorted(again.items()):
            G.judge(plan['scene'], [r for t in plan['threads'] for r in t][j], g, 'later-')


CHECK = C05
