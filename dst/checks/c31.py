"""Scene descriptions built call by call through the interface."""
import numpy as np

from ..core import Check, Violation
from .. import sim, instr
from .c30 import matrix, flat, C30

OPTIONS = {'set_pixel_filter': 'filter', 'set_film': 'film', 'set_camera': 'camera', 'set_sampler': 'sampler',
           'set_aggregator': 'aggregator', 'set_renderer': 'renderer', 'set_surface': 'surface',
           'set_volume': 'volume'}
TYPES = ['float', 'int', 'bool', 'vector', 'normal', 'spectrum', 'point', 'string']
NAMES = ['one', 'two', 'camera', 'world', 'Lamp']
FIELDS = sorted([v + '_name' for v in OPTIONS.values()] + ['trans_start_time', 'trans_end_time'])

EARLIER = {'trans_identity': (), 'trans_translate': ([1., 2., 3.],), 'trans_rotate': (30., [1., 0., 0.]),
           'trans_scale': ([2., 2., 2.],), 'trans_look_at': ([0., 0., 0.], [0., 0., 1.], [0., 1., 0.]),
           'trans_concat': (None,), 'trans_set': (None,), 'add_coordinate_system': ('one',),
           'set_coordinate_system': ('world',), 'set_transformation_time': (), 'set_film': ('image', None),
           'set_camera': ('perspective', None), 'set_sampler': ('random', None), 'world_begin': (),
           'attribute_begin': (), 'attribute_end': (), 'transform_begin': (), 'transform_end': ()}
EARLY = sorted(EARLIER)


class C31(Check):
    id = 'C31'
    quick = 800
    thorough = 30000
    focus = ('interface/api.py', 'interface/parameter.py', 'interface/option.py', 'transform/__init__.py')
    fault_kinds = ('memory', 'interrupt', 'refused call')
    real = ('scene description interface', 'parameter lists', 'render options', 'transforms')
    stub = ('threading primitives (simulated)', 'OS scheduler')
    rule = ('a case is one task that describes 1-3 scenes in 5-40 calls (transformations, nested attribute and '
            'transform blocks, named coordinate systems, options, parameter lists, calls that must be refused, '
            'cleaning up and starting again) beside 0-2 tasks that work on transforms and parameter lists of their '
            'own, optionally with failing statements; a failed call is made again; non-trivial: two tasks interleaved; '
            'distinct by schedule and calls')
    assumptions = ('one task describes scenes at a time: the description is global by design',
                   'blocks are closed in the order they were opened',
                   'after a failed start the system is cleaned up and started again')
    mods = ('pytracer.interface', 'pytracer.transform', 'pytracer.geometry', 'pytracer.spectral')

    def gen(self, rng, tier):
        r = lambda a, b: round(rng.uniform(a, b), 3)

        def direction():
            while True:
                v = [r(-2., 2.) for _ in range(3)]
                if sum(x * x for x in v) > .1:
                    return v

        def element():
            k = rng.choice(['move', 'move', 'scale', 'turn', 'turn', 'look'])
            if k == 'move':
                return [k, [r(-3., 3.) for _ in range(3)]]
            if k == 'scale':
                return [k, [rng.choice([1., 1., -1.]) * r(.5, 2.) for _ in range(3)]]
            if k == 'turn':
                return [k, direction(), r(-180., 180.)]
            while True:
                e = [k, direction(), direction(), direction()]
                z = np.array(e[2]) - e[1]
                if np.linalg.norm(z) > .1 and np.linalg.norm(np.cross(z, e[3])) > .1 * np.linalg.norm(z):
                    return e
        elems = [element() for _ in range(4)]
        trs = [[element() for _ in range(rng.choice([1, 2]))] for _ in range(2)]
        nparam = 3
        types = rng.sample(TYPES, rng.choice([1, 2, 3, 8]))
        lists = rng.choice([.06, .06, .06, .5])

        def param():
            k = rng.choice(['push', 'push', 'push', 'enum', 'enum', 'more', 'fetch', 'bad'])
            return ['param', rng.randrange(nparam), k, rng.choice(types), r(-9., 9.)]

        ops, stack, big = [['init']], [], rng.choice([5, 12, 25, 40])
        while len(ops) < big:
            if rng.random() < lists:
                ops.append(param())
                continue
            k = rng.random()
            if k < .33:
                ops.append(['do'] + rng.choice(elems))
            elif k < .39:
                ops.append(['ident'])
            elif k < .47:
                ops.append([rng.choice(['concat', 'set']), rng.randrange(2)])
            elif k < .55:
                ops.append(['name', rng.choice(NAMES)])
            elif k < .64:
                ops.append(['recall', rng.choice(NAMES)])
            elif k < .78:
                b = rng.choice('at')
                if stack and rng.random() < .5:
                    ops.append(['end', stack.pop()])
                else:
                    stack.append(b)
                    ops.append(['begin', b])
            elif k < .86:
                ops.append(['option', rng.choice(sorted(OPTIONS)), rng.choice(['Box', 'image', 'MITCHELL', 'x']),
                            rng.randrange(nparam)])
            elif k < .88:
                ops.append(['time', r(0., 1.), r(1., 2.)])
            elif k < .92:
                ops.append(['world'])
            elif k < .97:
                w = rng.choice(['move', 'scale', 'again', 'recall', 'end'])
                if w != 'end' or not stack:
                    ops.append(['refused', w, rng.choice('at')])
            elif rng.random() < .5:
                ops += [['clean'], ['refused', 'early', rng.choice(EARLY)], ['init']]
                stack = []
        others = [[rng.choice([param(), param(), ['make', rng.choice(elems), rng.choice(elems)]])
                   for _ in range(rng.randint(2, 10))] for _ in range(rng.choice([0, 1, 1, 2]))]
        p = {'trs': trs, 'ops': ops, 'threads': others}
        if rng.random() < .4:
            p['mem'] = {'p': rng.choice([.005, .02, .05]), 'max': rng.choice([1, 1, 2, 4]),
                        'kinds': rng.choice([['memory'], ['memory', 'interrupt']])}
        return p

    # -- model -------------------------------------------------------------------
    @staticmethod
    def fresh():
        return {'cur': np.eye(4), 'stack': [], 'names': {}, 'opts': {}, 'cam': np.eye(4), 'status': 1}

    @staticmethod
    def sensible(ops):
        """The calls of a plan that still make sense after others were left out."""
        out, on, stack = [], False, []
        for op in ops:
            k = op[0]
            early = op[:2] == ['refused', 'early']
            if on and (early or k == 'init') or not on and not (early or k in ('init', 'param')):
                continue
            if k == 'init':
                on, stack = True, []
            elif k == 'clean':
                on = False
            elif k == 'begin':
                stack.append(op[1])
            elif k == 'end':
                if not stack or stack[-1] != op[1]:
                    continue
                stack.pop()
            elif op[:2] == ['refused', 'end'] and stack:
                continue
            out.append(op)
        return out

    def step(self, S, p, op):
        """The state after a call."""
        S = dict(S, stack=list(S['stack']), names=dict(S['names']), opts=dict(S['opts']))
        k = op[0]
        if k == 'init':
            return self.fresh()
        if k == 'clean':
            S['status'] = 0
        elif k == 'do':
            S['cur'] = S['cur'].dot(matrix([op[1:]]))
        elif k == 'ident':
            S['cur'] = np.eye(4)
        elif k == 'concat':
            S['cur'] = S['cur'].dot(matrix(p['trs'][op[1]]))
        elif k == 'set':
            S['cur'] = matrix(p['trs'][op[1]])
        elif k == 'name':
            S['names'][op[1]] = S['cur']
        elif k == 'recall':
            if op[1] in S['names']:
                S['cur'] = S['names'][op[1]]
        elif k == 'begin':
            S['stack'].append(S['cur'])
        elif k == 'end':
            S['cur'] = S['stack'].pop()
        elif k == 'option':
            f = OPTIONS[op[1]]
            S['opts'][f + '_name'] = op[2].lower()
            S['opts'][f + '_param'] = op[3]
            if f == 'camera':
                S['cam'] = S['names']['camera'] = np.linalg.inv(S['cur'])
        elif k == 'time':
            S['opts']['trans_start_time'], S['opts']['trans_end_time'] = op[1:]
        elif k == 'world':
            S['cur'] = S['names']['world'] = np.eye(4)
            S['status'] = 2
        return S

    def judge(self, S, params, base, when):
        import pytracer.interface as inter

        def same(ts, m, what):
            i = np.linalg.inv(m)
            if len(ts) != inter.MAX_TRANSFORM:
                raise Violation('wrong-transform', '%s %s has %d transforms' % (when, what, len(ts)))
            for t in ts:
                if t is None or not np.allclose(t.m, m, atol=1e-6 * np.abs(m).max(), rtol=1e-6) or \
                        not np.allclose(t.m_inv, i, atol=1e-6 * np.abs(i).max(), rtol=1e-6):
                    raise Violation('wrong-transform', '%s %s is %r, not %r' % (
                        when, what, None if t is None else flat(t.m), flat(m)))
        if S['status'] != inter.API_STATUS:
            raise Violation('wrong-status', '%s the status is %r, not %r' % (when, inter.API_STATUS, S['status']))
        if not S['status']:
            return
        same(inter.TRANSFORM_SET, S['cur'], 'the current transformation')
        if set(inter.COORDINATE_SYSTEM) != set(S['names']):
            raise Violation('wrong-names', '%s the coordinate systems are %r, not %r' % (
                when, sorted(inter.COORDINATE_SYSTEM), sorted(S['names'])))
        for n in sorted(S['names']):
            same(inter.COORDINATE_SYSTEM[n], S['names'][n], 'the coordinate system %r' % n)
        o = inter.RENDER_OPTION
        same(o.cam2wld, S['cam'], 'the transformation of the camera')
        for f in FIELDS:
            want = S['opts'].get(f, base[f])
            if getattr(o, f) != want:
                raise Violation('wrong-option', '%s the option %s is %r, not %r' % (when, f, getattr(o, f), want))
        for f in OPTIONS.values():
            i = S['opts'].get(f + '_param')
            if getattr(o, f + '_param') is not (None if i is None else params[i]):
                raise Violation('wrong-option', '%s the parameters of the %s are not the ones it was given' % (when, f))

    # -- the real thing -----------------------------------------------------------
    @staticmethod
    def param_op(params, model, op):
        P, M, (_, i, k, tp, v) = params[op[1]], model[op[1]], op
        q = M.setdefault(tp, [])
        if k == 'push':
            P.push_back(tp, v)
            q.append(v)
        elif k == 'enum':
            got, want = P.enum(tp), q.pop(0) if q else None
            if got != want:
                raise Violation('wrong-parameter', 'the next %s is %r, not %r' % (tp, got, want))
        elif k == 'more':
            if bool(P.has_more(tp)) != bool(q):
                raise Violation('wrong-parameter', '%r left of %s, has_more says %r' % (q, tp, P.has_more(tp)))
        elif k == 'fetch':
            if list(P.fetch(tp)) != q:
                raise Violation('wrong-parameter', 'the list of %s is %r, not %r' % (tp, P.fetch(tp), q))
        else:
            for f in (lambda: P.push_back('matrix', v), lambda: P.enum('matrix'), lambda: P.has_more('matrix'),
                      lambda: P.fetch('matrix')):
                try:
                    f()
                except KeyError:
                    continue
                raise Violation('not-refused', 'a parameter list takes the type "matrix"')

    def call(self, op, trs, params):
        import pytracer.interface as inter
        k = op[0]
        if k == 'init':
            inter.system_init(self.option)
            if inter.GLOBAL_OPTION is not self.option:
                raise Violation('wrong-option', 'the global option is not the one given')
        elif k == 'clean':
            inter.system_clean()
            inter.system_clean()
        elif k == 'do':
            e = op[1:]
            if e[0] == 'turn':
                inter.trans_rotate(e[2], e[1])
            else:
                {'move': inter.trans_translate, 'scale': inter.trans_scale, 'look': inter.trans_look_at}[e[0]](*e[1:])
        elif k == 'ident':
            inter.trans_identity()
        elif k == 'concat':
            inter.trans_concat(trs[op[1]])
        elif k == 'set':
            inter.trans_set(trs[op[1]])
        elif k == 'name':
            inter.add_coordinate_system(op[1])
        elif k == 'recall':
            inter.set_coordinate_system(op[1])
        elif k == 'begin':
            (inter.attribute_begin if op[1] == 'a' else inter.transform_begin)()
        elif k == 'end':
            (inter.attribute_end if op[1] == 'a' else inter.transform_end)()
        elif k == 'option':
            getattr(inter, op[1])(op[2], params[op[3]])
        elif k == 'time':
            inter.set_transformation_time(op[1], op[2])
        elif k == 'world':
            inter.world_begin()

    def refused(self, op):
        import pytracer.interface as inter
        f = {'move': lambda: inter.trans_translate([1., 2.]), 'scale': lambda: inter.trans_scale([2., 2.]),
             'again': lambda: inter.system_init(inter.Option()), 'recall': lambda: inter.set_coordinate_system('none'),
             'early': lambda: getattr(inter, op[2])(*EARLIER[op[2]]),
             'end': inter.attribute_end if op[2] == 'a' else inter.transform_end}[op[1]]
        try:
            f()
        except (sim.InjectedFault, sim.InjectedInterrupt):
            raise
        except Exception:
            return
        if op[1] != 'end':
            # an end without a beginning is ignored
            raise Violation('not-refused', 'a call that makes no sense (%s) is not refused' % op[1])

    def execute(self, p, run):
        import pytracer.interface as inter
        from pytracer.transform import Transform
        self.option = inter.Option('image', False, 1)
        if inter.API_STATUS:
            raise Violation('wrong-status', 'the interface starts out initialised')
        trs = []
        for c in p['trs']:
            t = C30.element(c[0])
            for e in c[1:]:
                t = t * C30.element(e)
            trs.append(t)
        o = inter.RenderOption()
        base = {f: getattr(o, f) for f in FIELDS}
        errs, failed = [], []

        def describe():
            params = [inter.Param() for _ in range(3)]
            model = [{} for _ in params]
            S = dict(self.fresh(), status=0)
            for n, op in enumerate(self.sensible(p['ops'])):
                T, when = self.step(S, p, op), 'after call %d (%r)' % (n, op)
                while True:
                    try:
                        if op[0] == 'param':
                            self.param_op(params, model, op)
                        elif op[0] == 'refused' or op[0] == 'recall' and op[1] not in S['names']:
                            self.refused(op if op[0] == 'refused' else ['refused', 'recall', 'a'])
                            run.faults['refused call'] = run.faults.get('refused call', 0) + 1
                        else:
                            self.call(op, trs, params)
                    except (sim.InjectedFault, sim.InjectedInterrupt) as e:
                        failed.append(e)
                        if op[0] == 'init':
                            inter.system_clean()
                        elif op[0] not in ('option', 'world'):
                            self.judge(S, params, base, 'after call %d (%r) failed' % (n, op))
                        continue
                    break
                S = T
                self.judge(S, params, base, when)
            for i, M in enumerate(model):
                for tp in TYPES:
                    if list(params[i].fetch(tp)) != M.get(tp, []):
                        raise Violation('wrong-parameter', 'at last the list of %s is %r, not %r' % (
                            tp, params[i].fetch(tp), M.get(tp, [])))

        def other(ops):
            def f():
                params = [inter.Param() for _ in range(3)]
                model = [{} for _ in params]
                for op in ops:
                    while True:
                        try:
                            if op[0] == 'param':
                                self.param_op(params, model, op)
                            else:
                                t, m = C30.element(op[1]) * C30.element(op[2]), matrix(op[1:])
                                if not np.allclose(t.m, m, atol=1e-6 * np.abs(m).max()):
                                    raise Violation('wrong-transform', 'beside a description %r is %r' % (
                                        op, flat(t.m)))
                        except (sim.InjectedFault, sim.InjectedInterrupt) as e:
                            failed.append(e)
                            continue
                        break
            return f

        def guard(f):
            def g():
                try:
                    f()
                except Violation as e:
                    errs.append(e)
            return g
        faults = None
        if p.get('mem'):
            m = p['mem']
            faults = {'sites': [i for i, x in enumerate(instr.SITES) if '/transform/' in x[0] or '/geometry/' in x[0]],
                      'p': m['p'], 'max': m['max'], 'kinds': m['kinds']}
        s = run.simulate([('describe', guard(describe))] +
                         [('other%d' % i, guard(other(ops))) for i, ops in enumerate(p['threads'])],
                         faults=faults, max_steps=3000000)
        if errs:
            raise errs[0]
        if s.outcome:
            raise Violation('no-progress', 'the description does not finish: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        if len(failed) != len(s.fault_log):
            raise Violation('failure-hidden', '%d failures, %d calls reported one' % (len(s.fault_log), len(failed)))
        run.nontrivial = s.switches > 1 + len(p['threads']) > 1
        run.keys = [p['trs'], p['ops'], p['threads'], len(failed)]



CHECK = C31
