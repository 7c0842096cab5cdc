"""Tiles of a stratified sampler: every pixel once, one sample per stratum."""
import time

from ..core import Check, Violation
from .. import simrand

EPS = 1e-9


def matching(options, m):
    """Is there an assignment of each item to one of its options, all different, covering all of range(m)?"""
    if len(options) != m:
        return False
    owner = {}

    def place(i, seen):
        for o in options[i]:
            if o not in seen:
                seen.add(o)
                if o not in owner or place(owner[o], seen):
                    owner[o] = i
                    return True
        return False
    return all(place(i, set()) for i in range(len(options)))


def strata1(v):
    n = len(v)
    return all(i / n - EPS <= x <= (i + 1) / n + EPS for i, x in enumerate(sorted(v)))


def strata2(pts, nx, ny):
    def opts(x, n):
        return [i for i in range(n) if i / n - EPS <= x <= (i + 1) / n + EPS]
    return matching([[(i, j) for i in opts(x, nx) for j in opts(y, ny)] for x, y in pts], nx * ny)


class Draw(Exception):
    """the random source fails"""


class Source(simrand.Stream):
    def __init__(self, seed, edge, fail):
        simrand.Stream.__init__(self, seed, edge)
        self.fail = list(fail or ())

    def chk(self, n):
        for k in self.fail:
            if self.draws <= k < self.draws + n:
                self.fail.remove(k)
                raise Draw()

    def u(self):
        self.chk(1)
        return simrand.Stream.u(self)

    def shuffle(self, x):
        self.chk(len(x))
        simrand.Stream.shuffle(self, x)


class C12(Check):
    id = 'C12'
    quick = 4000
    thorough = 120000
    focus = ('sampler/',)
    fault_kinds = ('failing draw', 'rng-edge')
    real = ('stratified sampler, sub-window computation', 'sample buffers', 'stratification utilities')
    stub = ('random source (seeded streams, edge values included)', 'OS scheduler')
    rule = ('a case is a sampler window, sample counts, requested patterns, a number of tiles, 1-4 tasks that fetch '
            'and drain the tiles, one random stream per task, optional failing draws, and one schedule; '
            'non-trivial: at least two tasks drained a tile each and were interleaved; distinct by schedule, window, '
            'tiles and fault sites')
    assumptions = ('values on a stratum border within 1e-9 belong to either stratum',
                   'a call that fails because a random draw fails is repeated by the caller')
    mods = ('pytracer.sampler',)

    def gen(self, rng, tier):
        big = rng.random() < .3
        w = rng.choice([1, 2, 3, 4, 5, 8]) if big else rng.choice([1, 2, 3])
        h = rng.choice([1, 2, 3, 5, 7, 9]) if big else rng.choice([1, 2, 3])
        cnt = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, w * h, w * h * 2])
        n = rng.choice([1, 2, 2, 3, 4])
        tiles = list(range(cnt))
        rng.shuffle(tiles)
        ths = [[] for _ in range(n)]
        for t in tiles:
            rng.choice(ths).append(t)
        p = {'win': [rng.choice([-3, 0, 0, 5, 17]), rng.choice([-2, 0, 0, 4, 100]), w, h],
             'spp': [rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 4])], 'jitter': rng.random() < .8,
             'shutter': rng.choice([[0., 1.], [0., 0.], [2., 2.5], [-1., 1.]]),
             'n1': [rng.choice([1, 2, 5]) for _ in range(rng.choice([0, 1, 2]))],
             'n2': [rng.choice([1, 2, 4]) for _ in range(rng.choice([0, 1, 2]))],
             'cnt': cnt, 'threads': [t for t in ths if t] or [[0]], 'edge': rng.choice([0., 0., .1, .5, 1.]),
             'main': rng.random() < .08}
        if rng.random() < .3:
            p['fail'] = [[rng.choice([rng.randrange(8), rng.randrange(60)]) for _ in range(rng.choice([1, 2]))]
                         for _ in p['threads']]
        return p

    def execute(self, plan, run):
        from pytracer.sampler import StratifiedSampler, Sample
        x0, y0, w, h = plan['win']
        xst, yst = plan['spp']
        spp = xst * yst
        op, cl = plan['shutter']
        main = StratifiedSampler(x0, x0 + w, y0, y0 + h, xst, yst, plan['jitter'], op, cl)
        orig = Sample()
        n1, n2 = plan['n1'], plan['n2']
        i1 = [orig.add_1d(n) for n in n1]
        i2 = [orig.add_2d(n) for n in n2]
        calls = []          # (tile, samples) of every call that handed out samples

        def snap(s):
            return ([float(s.imageX), float(s.imageY), float(s.lens_u), float(s.lens_v), float(s.time)],
                    [[float(x) for x in s.oneD[i]] for i in i1],
                    [[(float(a[0]), float(a[1])) for a in s.twoD[i]] for i in i2])

        def retry(f):
            for _ in range(5):
                try:
                    return f()
                except Draw:
                    run.faults['failing draw'] += 1
            return f()

        def drain(tile, sub):
            smp = retry(lambda: orig.duplicate(sub.maximum_sample_cnt()))
            while True:
                if not retry(lambda: sub.generate(smp)):
                    break
                got = [snap(s) for s in smp]
                calls.append((tile, got, smp))
                time.sleep(0)
                if [snap(s) for s in smp] != got:
                    raise Violation('samples-changed', 'the samples of tile %r changed after they were handed out' % (
                        tile,))
                if len(calls) > 4 * w * h:
                    raise Violation('endless', 'the tiles hand out more than %d pixels' % (w * h))
            for _ in range(2):
                if retry(lambda: sub.generate(smp)):
                    raise Violation('restarted', 'tile %r hands out samples after it has finished' % (tile,))

        def task(tiles):
            def f():
                for t in tiles:
                    sub = retry(lambda: main.get_subsampler(t, plan['cnt']))
                    if sub is not None:
                        drain(t, sub)
            return f
        streams = [Source('%s:%d' % (run.seed, i), plan['edge'], plan['fail'][i] if plan.get('fail') else ()) for i in range(len(plan['threads']))]
        if plan['main']:
            s = run.simulate([('task0', lambda: drain('whole', main))], streams=streams[:1])
        else:
            s = run.simulate([('task%d' % i, task(t)) for i, t in enumerate(plan['threads'])],  streams=streams)
        if s.outcome:
            raise Violation('no-progress', 'the tiles do not finish: %s' % s.outcome)
        for t in s.tasks:
            if isinstance(t.error, Violation):
                raise t.error
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        options = []
        for tile, got, _ in calls:
            o = []
            for px in self.near([g[0][0] for g in got]):
                for py in self.near([g[0][1] for g in got]):
                    if x0 <= px < x0 + w and y0 <= py < y0 + h and \
                            strata2([(g[0][0] - px, g[0][1] - py) for g in got], xst, yst):
                        o.append((px, py))
            if not o:
                raise Violation('wrong-samples', 'tile %r hands out the image positions %r, which are not one per '
                                'stratum of one pixel of the window %r' % (tile, [g[0][:2] for g in got],
                                                                           plan['win']))
            options.append(o)
            self.patterns(plan, got, spp)
        if not matching(options, w * h):
            raise Violation('not-a-partition', 'the tiles of a window of %d pixels cover %r' % (
                w * h, sorted(o[0] for o in options)))
        tiles = set(t for t, _, _ in calls)
        if len(tiles) > 1 and s.switches > len(plan['threads']):
            run.nontrivial = True
        run.keys = [plan['win'][2:], plan['cnt'], plan['spp']]
        run.probe('pixels', len(calls))

    @staticmethod
    def near(v):
        import math
        a = math.floor(min(v) + EPS)
        return sorted({a, a - 1 if min(v) - a < EPS else a})

    def patterns(self, plan, got, spp):
        xst, yst = plan['spp']
        op, cl = plan['shutter']
        if not strata2([(g[0][2], g[0][3]) for g in got], xst, yst):
            raise Violation('wrong-lens', 'lens positions %r are not one per stratum' % ([g[0][2:4] for g in got],))
        t = [g[0][4] for g in got]
        if cl == op:
            ok = all(abs(x - op) < EPS for x in t)
        else:
            ok = strata1([(x - op) / (cl - op) for x in t])
        if not ok:
            raise Violation('wrong-time', 'times %r are not one per stratum of [%r, %r]' % (t, op, cl))
        if not plan['jitter']:
            for k, (n, vals) in enumerate(((xst, sorted(g[0][0] % 1. for g in got)),
                                           (yst, sorted(g[0][1] % 1. for g in got)))):
                q = sorted((i + .5) / n for i in range(n) for _ in range(spp // n))
                if any(abs(a - b) > EPS for a, b in zip(vals, q)):
                    raise Violation('wrong-centres', 'unjittered samples are not at the stratum centres: %r' % vals)
        for g in got:
            for n, v in zip(plan['n1'], g[1]):
                if len(v) != n or not strata1(v):
                    raise Violation('wrong-pattern', 'a 1-D pattern of %d values is %r' % (n, v))
            for n, v in zip(plan['n2'], g[2]):
                if len(v) != n or not strata1([a for a, _ in v]) or not strata1([b for _, b in v]):
                    raise Violation('wrong-pattern', 'a 2-D pattern of %d points is %r' % (n, v))


CHECK = C12
