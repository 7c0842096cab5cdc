from ..core import Check, Violation
from .. import filmlib


class C01(Check):
    id = 'C01'
    quick = 2600
    thorough = 60000
    focus = ('film/film.py',)
    real = ('film (ImageFilm, pixels, locks protocol)', 'filter', 'spectral conversion', 'sampler.CameraSample')
    stub = ('threading primitives (simulated, scheduler-controlled)', 'OS scheduler',
            'image encoder/file (float image captured at the image-writer call)')
    rule = ('a case is a film (resolution, crop, filter), 2-4 tasks with 1-4 add_sample/splat calls each aimed at '
            'shared pixels, and one schedule; non-trivial: at least two tasks contributed to one pixel and the '
            'schedule switched tasks while both had work left; distinct by schedule and workload shape')
    assumptions = (
        'tasks share a pixel in add_sample only when the filter covers more than half a pixel in some direction '
        '(the documented contract of add_sample)',
        'no atomicity of read-modify-write is assumed from the interpreter lock; array updates are read/compute/'
        'write-back',
        'pixels whose filter weights cancel (|sum w| < 1e-3 sum |w|) are not compared')
    mods = ('pytracer.film', 'pytracer.filter', 'pytracer.sampler')

    def gen(self, rng, tier):
        p = filmlib.gen_plan(rng)
        if rng.random() < .3:
            p['share'] = True
            c = rng.choice(filmlib.COLOURS)
            for ops in p['threads']:
                for op in ops:
                    op[3] = list(c)
        return p

    def execute(self, plan, run):
        film, model = filmlib.new_film(plan)
        cache = {}

        def spectrum(rgb):
            # tasks may contribute one and the same spectrum object
            if not plan.get('share'):
                return filmlib.spectrum(rgb)
            k = tuple(rgb)
            if k not in cache:
                cache[k] = filmlib.spectrum(rgb)
            return cache[k]
        for ops in plan['threads']:
            for op in ops:
                spectrum(op[3])

        def task(ops):
            def f():
                for op in ops:
                    s = filmlib.camera_sample(op[1], op[2])
                    (film.add_sample if op[0] == 'add' else film.splat)(s, spectrum(op[3]))
            return f
        s = run.simulate([('task%d' % k, task(ops)) for k, ops in enumerate(plan['threads'])])
        if s.outcome == 'deadlock':
            raise Violation('deadlock', 'tasks blocked for ever: %r' % (s.deadlock_info,))
        if s.outcome == 'steps':
            raise Violation('no-progress', 'step limit reached')
        for t in s.tasks:
            if t.error is not None:
                raise Violation('unexpected-exception', '%s: %r' % (t.name, t.error))
        hits = {}
        for k, ops in enumerate(plan['threads']):
            for op in ops:
                (model.add if op[0] == 'add' else model.splat)(op[1], op[2], op[3])
                if op[0] == 'add':
                    for j, i, w in model.cover(op[1], op[2]):
                        hits.setdefault((j, i), set()).add(k)
        if any(len(v) > 1 for v in hits.values()):
            run.probe('pixel_shared_by_tasks')
            if s.switches > len(plan['threads']):
                run.nontrivial = True
        if not plan['sync']:
            run.probe('single_pixel_filter')
        run.keys = [plan['filter'][0], [len(o) for o in plan['threads']]]
        filmlib.compare(model, film, plan['scale'])
        # reading the image does not change it
        filmlib.compare(model, film, plan['scale'], 'reread-')


CHECK = C01
