"""Identity of shapes and primitives created by concurrent tasks."""
from ..core import Check, Violation
from .. import sim, instr, geomlib as G

KINDS = ['sphere', 'sphere', 'disk', 'cyl', 'tris']


class C09(Check):
    id = 'C09'
    quick = 2200
    thorough = 80000
    focus = ('shape/__init__.py', 'aggregate/primitive.py')
    fault_kinds = ('memory', 'interrupt')
    real = ('shapes (constructors, mesh refinement)', 'primitives', 'aggregates (constructors, lazy refinement)')
    stub = ('threading primitives (simulated)', 'materials (identity tokens)', 'OS scheduler')
    rule = ('a case is 2-5 tasks each building shapes, primitives, meshes it refines and aggregates, optionally with '
            'failures injected into the constructors, and one schedule; non-trivial: at least two tasks were '
            'interleaved; distinct by schedule, what is built and fault site')
    mods = ('pytracer.aggregate', 'pytracer.shape')

    def gen(self, rng, tier):
        def small():
            s = G.gen_shape(rng)
            while s['k'] not in KINDS:
                s = G.gen_shape(rng)
            return s
        ths = []
        for _ in range(rng.choice([2, 2, 3, 4, 5])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                k = rng.choice(['shape', 'shape', 'shape', 'prim', 'prim', 'refine', 'agg'])
                n = 1 if k != 'agg' else rng.choice([1, 2, 3])
                ops.append([k, [small() for _ in range(n)], rng.choice(['grid', 'bvh', 'simple'])])
            ths.append(ops)
        p = {'threads': ths}
        if rng.random() < .35:
            p['mem'] = {'p': rng.choice([.01, .05, .2]), 'max': rng.choice([1, 1, 2]),
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt']])}
        return p

    def execute(self, plan, run):
        import pytracer.aggregate as ag
        from pytracer.shape import Shape
        shapes, prims = [], []      # (object, id seen when it was complete)

        def note(o):
            if isinstance(o, Shape):
                shapes.append((o, o.shapeId))
            else:
                prims.append((o, o.primitiveId))
            return o

        def build(op):
            ss = [note(G.mk_shape(s)) for s in op[1]]
            if op[0] == 'shape':
                return
            ps = [note(ag.GeometricPrimitive(s, G.Tok(0))) for s in ss]
            if op[0] == 'prim':
                return
            if op[0] == 'refine':
                out = []
                ps[0].full_refine(out)
                for q in out:
                    if q is not ps[0]:
                        note(q)
                        note(q.shape)
                return
            if op[2] == 'bvh':
                a = ag.BVH(ps, 4, 'sah')
            elif op[2] == 'grid':
                a = ag.GridAccel(ps, True)
            else:
                a = ag.SimpleAggregate(ps, True)
            note(a)
            for q in a.primitives:
                if not any(q is x for x in ps):
                    note(q)
                    note(q.shape)
        failed = []

        def task(i, ops):
            def f():
                for j, op in enumerate(ops):
                    try:
                        build(op)
                    except (sim.InjectedFault, sim.InjectedInterrupt):
                        failed.append((i, j))
            return f
        faults = None
        if plan.get('mem'):
            m = plan['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES)
                                if x[3].endswith('__init__') and ('/shape/' in x[0] or '/aggregate/' in x[0])],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('task%d' % i, task(i, ops)) for i, ops in enumerate(plan['threads'])], faults=faults,
                         max_steps=3000000)
        if s.outcome:
            raise Violation('no-progress', 'construction does not finish: %s %r' % (s.outcome, s.deadlock_info))
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if s.switches > len(plan['threads']):
            run.nontrivial = True
        run.keys = [[[o[0] for o in ops] for ops in plan['threads']], sorted(failed)]

        def later():
            build(['refine', [{'k': 'tris', 'c': [0, 0, 0], 'P': [[0, 0, 0], [1, 0, 0], [0, 1, 0]],
                               'idx': [0, 1, 2]}], ''])
        t = run.simulate([('later', later)], strategy={'kind': 'serial'})
        if t.outcome or t.tasks[0].error is not None:
            raise Violation('unusable-afterwards', 'no shape can be built any more: %r %r' % (
                t.outcome, t.tasks[0].error))
        for what, lst, attr in (('shape', shapes, 'shapeId'), ('primitive', prims, 'primitiveId')):
            seen = {}
            for o, i in lst:
                if getattr(o, attr) != i:
                    raise Violation('identity-changed', '%s %r had id %r, now %r' % (
                        what, type(o).__name__, i, getattr(o, attr)))
                if i in seen and seen[i] is not o:
                    raise Violation('duplicate-identity', 'two %ss (%s and %s) have the id %r' % (
                        what, type(seen[i]).__name__, type(o).__name__, i))
                seen[i] = o
        run.probe('objects', len(shapes) + len(prims))


CHECK = C09
