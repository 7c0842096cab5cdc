import io
import os

import numpy as np

from ..core import Check, Violation
from .. import filmlib, sim, simfs


def png(rgb):
    import PIL.Image
    b = io.BytesIO()
    PIL.Image.fromarray(np.asarray(rgb, dtype='uint8'), mode='RGB').save(b, 'PNG')
    return b.getvalue()


def decode(data):
    """The 8-bit image in a file, or None unless it is complete and sound."""
    import PIL.Image
    if not data:
        return None
    try:
        b = io.BytesIO(data)
        p = PIL.Image.open(b)
        p.load()
        a = np.array(p)
    except Exception:
        return None
    # a PNG file is complete only with its end marker
    if data[:8] == b'\x89PNG\r\n\x1a\n' and b'IEND' not in data[-12:]:
        return None
    return a if a.ndim == 3 else None


def noise(seed, h, w, scale=1.0):
    r = np.random.RandomState(seed)
    a = r.random_sample(h * w * 3).reshape(h, w, 3) * scale
    return a


FAULTS = ['crash', 'power', 'torn', 'short', 'enospc', 'eio', 'eacces', 'emfile']


def gen_faults(rng, n=14, kinds=FAULTS, maxf=2):
    out = []
    for _ in range(rng.choice([1, 1, 1, maxf])):
        out.append([rng.randrange(n), rng.choice(kinds)])
    return sorted(out)


class Writer(object):
    """One image to write: through the image writer or through a film."""

    def __init__(self, spec, fs):
        self.spec = spec
        self.fs = fs
        self.name = spec.get('name', 'img.png')
        self.path = fs.path(self.name)
        if spec['via'] == 'film':
            plan = dict(spec['film'])
            self.film, self.model = filmlib.new_film(plan)
            self.film.filename = self.path
            for op in plan['ops']:
                (self.film.add_sample if op[0] == 'add' else self.film.splat)(
                    filmlib.camera_sample(op[1], op[2]), filmlib.spectrum(op[3]))
                (self.model.add if op[0] == 'add' else self.model.splat)(op[1], op[2], op[3])
            self.h, self.w = self.model.yn, self.model.xn
            self.H, self.W = plan['yr'], plan['xr']
            self.x0, self.y0 = self.model.x0, self.model.y0
        else:
            self.film = None
            self.W, self.H, self.x0, self.y0, self.w, self.h = spec['win']
            self.rgb = noise(spec['seed'], self.h, self.w, spec.get('scale', 1.0))
            if spec.get('zero'):
                self.rgb[:, :, spec['zero'] - 1] = 0.

    def write(self):
        import pytracer.utility.imageio as iio
        if self.film is not None:
            return self.film.write_image()
        return iio.write_image(self.path, self.rgb.copy(), None, self.w, self.h, self.W, self.H, self.x0, self.y0)

    def window(self, other):
        """The pixels this writer puts in its window: what the same data gives
        when written as a whole image of its own (fault-free, elsewhere)."""
        import pytracer.utility.imageio as iio
        if self.film is not None:
            keep = self.film.filename
            rgb = self.model.image(1.)
        else:
            rgb = self.rgb.copy()
        p = other.path('window-%s.png' % self.name.replace('/', '_'))
        iio.write_image(p, rgb, None, self.w, self.h, self.w, self.h, 0, 0)
        with simfs.R['open'](p, 'rb') as f:
            return decode(f.read())

    def expect(self, old, other):
        win = self.window(other)
        if (self.w, self.h) == (self.W, self.H):
            return win
        if old is None or old.shape != (self.H, self.W, 3):
            return None
        out = old.copy()
        out[self.y0:self.y0 + self.h, self.x0:self.x0 + self.w] = win
        return out


def same(a, b, film):
    if a is None or b is None or a.shape != b.shape:
        return False
    if film:        # sums in another order may fall on the other side of a quantum
        return np.abs(a.astype(int) - b.astype(int)).max() <= 1
    return bool((a == b).all())


def gen_film(rng, crop=None, sizes=((2, 2), (3, 2), (4, 3), (2, 5), (6, 4))):
    xr, yr = rng.choice(list(sizes))
    ops = []
    for _ in range(rng.randint(2, 6)):
        ops.append([rng.choice(['add', 'add', 'splat']), rng.uniform(0, xr), rng.uniform(0, yr),
                    [rng.uniform(.1, 3.) for _ in range(3)]])
    for y in range(yr):
        for x in range(xr):
            ops.append(['splat', x + .5, y + .5, [rng.uniform(.2, 1.) for _ in range(3)]])
    return {'xr': xr, 'yr': yr, 'crop': crop or [0., 1., 0., 1.], 'filter': ['box', .5, .5], 'ops': ops,
            'threads': []}


class C03(Check):
    id = 'C03'
    quick = 6000
    thorough = 60000
    focus = ('utility/imageio.py', 'film/film.py')
    real = ('film image output', 'image writer', 'PNG encoder/decoder (Pillow)', 'file contents on a scratch directory')
    stub = ('file-system calls (interposed: counted, failed, torn, crashed; page cache and journal modelled)',
            'OS scheduler')
    rule = ('a case is an image (film or raw array, whole or window), a prior file state, and a fault list (kind and '
            'file-system operation index); non-trivial: at least one fault fired during the write; distinct by fault '
            'kinds, the operations they hit, prior state and image shape')
    assumptions = (
        'rename over an existing name is atomic and ordered after the file\'s fsync; without fsync any mixture of old '
        'and new bytes may survive a power loss; without a directory fsync the old name may survive',
        'a failed write may leave the old or the new image, never anything else',
        'a single process crash loses nothing the operating system accepted')
    mods = ('pytracer.film', 'pytracer.filter', 'pytracer.sampler', 'pytracer.utility.imageio')

    def gen(self, rng, tier):
        p = {'seed': rng.getrandbits(32), 'old': rng.choice(['same', 'same', 'same', 'none', 'other', 'junk', 'empty'])}
        via = rng.choice(['raw', 'raw', 'raw', 'film'])
        if via == 'film':
            w = {'via': 'film', 'film': gen_film(rng, rng.choice([None, None, [0., .5, 0., 1.], [.25, 1., .5, 1.]]))}
            w['W'], w['H'] = w['film']['xr'], w['film']['yr']
        else:
            W, H = rng.choice([(1, 1), (2, 3), (5, 4), (8, 8), (60, 50), (70, 90)])
            win = [W, H, 0, 0, W, H]
            if rng.random() < .4 and W > 1:
                w0 = rng.randint(1, W - 1)
                h0 = rng.randint(1, H)
                win = [W, H, rng.randint(0, W - w0), rng.randint(0, H - h0), w0, h0]
            w = {'via': 'raw', 'win': win, 'seed': rng.getrandbits(31), 'scale': rng.choice([1., .001, 300.]),
                 'zero': rng.choice([0, 0, 0, 1, 2])}
            w['W'], w['H'] = W, H
        whole = w['win'][4:] == w['win'][:2] if via == 'raw' else w['film']['crop'] == [0., 1., 0., 1.]
        if not whole and p['old'] == 'other':
            p['old'] = 'same'
        w['name'] = rng.choice(['img.png', 'img.png', 'out/img.png', 'noext'])
        p['writer'] = w
        p['faults'] = gen_faults(rng)
        p['retry_faults'] = gen_faults(rng) if rng.random() < .3 else []
        p['two'] = rng.random() < .12
        if p['two']:
            p['faults'] = []
            p['retry_faults'] = []
            p['old'] = rng.choice(['same', 'none'])
            w['win'] = [6, 5, 0, 0, 6, 5]
            w['W'], w['H'] = 6, 5
            w['via'] = 'raw'
            w.setdefault('seed', 5)
            w.pop('film', None)
            p['seed2'] = rng.getrandbits(31)
        return p

    def old_bytes(self, plan):
        o, w = plan['old'], plan['writer']
        rnd = (noise(plan['seed'] % (1 << 31), w['H'], w['W']) * 255).astype('uint8')
        if o == 'none':
            return None
        if o == 'same':
            return png(rnd)
        if o == 'other':
            return png((noise(7, w['H'] + 1, w['W'] + 2) * 255).astype('uint8'))
        if o == 'junk':
            return b'not an image at all' * 3
        return b''

    def execute(self, plan, run):
        with simfs.FS('%s:%s' % (run.seed, 'disk')) as fs, simfs.FS('scratch') as other:
            simfs._ACTIVE.remove(other)
            simfs._ACTIVE.insert(0, other)
            self.go(plan, run, fs, other)

    def go(self, plan, run, fs, other):
        w = Writer(plan['writer'], fs)
        old = self.old_bytes(plan)
        d = os.path.dirname(w.path)
        if not os.path.isdir(d):
            simfs.R['makedirs'](d)
        if old is not None:
            fs.put(w.name, old)
        want = w.expect(decode(old), other)
        film = w.film is not None
        states = {}

        def watch():
            """What another process would find under the file's name now."""
            b = fs.get(w.name)
            states.setdefault(b, len(fs.log))
        fs.watch = watch

        def check(b, when, allow_old=True):
            if b == old and allow_old:
                return 'old'
            if want is not None and same(decode(b), want, film):
                return 'new'
            if b == old:
                raise Violation('not-written', '%s: the write reported success but the file still holds the old '
                                'content' % when)
            raise Violation('torn-image', '%s: the file is neither the old image (%s bytes) nor the complete new one: '
                            '%s bytes, decodes: %s' % (when, None if old is None else len(old),
                                                       None if b is None else len(b), decode(b) is not None))

        def attempt(faults):
            fs.arm(dict((i, k) for i, k in faults))
            fs.fired = []
            out = [None, None]

            def body():
                try:
                    out[1] = w.write()
                    out[0] = 'ok'
                except sim.SimCrash:
                    out[0] = 'crash'
                except sim.SimAbort:
                    raise
                except Exception as e:
                    out[0] = 'error'
                    out[1] = e
            s = run.simulate([('writer', body)], strategy={'kind': 'serial'})
            if s.outcome is not None:
                raise Violation('no-progress', 'the write never finished: %s' % s.outcome)
            if s.tasks[0].error is not None:
                raise Violation('unexpected-exception', repr(s.tasks[0].error))
            for f, i, k in fs.fired:
                run.faults[f] += 1
                run.fault_keys.append('%s@%s' % (f, k))
            if fs.fired:
                run.nontrivial = True
            if out[0] == 'crash' or fs.dead:
                power = any(f[0] == 'power' for f in fs.fired)
                fs.restart(power)
                out[0] = 'crash'
                run.probe('power_loss' if power else 'process_killed')
            fs.clear()
            run.probe('write_' + out[0])
            return out

        if plan['two']:
            self.two(plan, run, fs, w, old, want, other)
            return
        for n, faults in enumerate([plan['faults'], plan['retry_faults']]):
            if n and not faults:
                continue
            r = attempt(faults)
            b = fs.get(w.name)
            if r[0] == 'ok':
                check(b, 'after a successful write', False)
            st = check(b, 'after %s' % r[0])
            if r[0] == 'error' and not fs.fired and want is not None:
                raise Violation('spurious-error', 'the write failed although nothing went wrong: %r' % (r[1],))
            if r[0] == 'error' and not any(k in ('unlink',) for _, _, k in fs.fired):
                junk = [x for x in fs.listing() if x != w.name]
                if junk and not any(p[1] in ('crash', 'power', 'torn') for p in plan['faults']):
                    raise Violation('litter', 'a failed write left %r behind' % junk)
            for sb, at in states.items():
                if sb != old:
                    check(sb, 'seen by another process after file-system operation %d' % at)
            states.clear()
        # the disk is healthy again: the write must succeed
        r = attempt([])
        if want is None:
            if r[0] == 'ok':
                raise Violation('bogus-success', 'a window write with no image to update reported success')
            check(fs.get(w.name), 'after a refused update')
            run.probe('update_refused')
        else:
            if r[0] != 'ok':
                raise Violation('retry-fails', 'the write still fails after the fault is gone: %r' % (r[1],))
            check(fs.get(w.name), 'after the retry', False)
            for sb, at in states.items():
                if sb != old:
                    check(sb, 'seen by another process during the retry')
            ret = r[1]
            if ret is not None and not same(np.array(ret), want, film):
                raise Violation('wrong-return', 'the image returned differs from the one in the file')
        run.keys = [plan['old'], plan['writer']['via'], w.w, w.h, plan['faults'], plan['retry_faults']]
        run.fault_keys = sorted(set(run.fault_keys))

    def two(self, plan, run, fs, w, old, want, other):
        """Two tasks save different images under the same name."""
        spec = dict(plan['writer'])
        spec['seed'] = plan['seed2']
        w2 = Writer(spec, fs)
        want2 = w2.expect(None, other)
        s = run.simulate([('writer1', w.write), ('writer2', w2.write)])
        if s.outcome is not None:
            raise Violation('no-progress', 'writers never finished: %s' % s.outcome)
        for t in s.tasks:
            if t.error is not None:
                raise Violation('spurious-error', '%s: %r' % (t.name, t.error))
        b = decode(fs.get(w.name))
        if not (same(b, want, False) or same(b, want2, False)):
            raise Violation('torn-image', 'two concurrent writes left neither image whole')
        junk = [x for x in fs.listing() if x != w.name]
        if junk:
            raise Violation('litter', 'two successful writes left %r behind' % junk)
        run.probe('concurrent_writers')
        if s.switches > 2:
            run.nontrivial = True
        run.keys = ['two', plan['seed2']]


CHECK = C03
