import numpy as np

from ..core import Check, Violation
from .. import filmlib, sim, simfs
from .c03 import Writer, decode, png, noise, same, gen_faults


def split(rng, n, parts):
    """Cut points 0 = c0 < ... < ck = n."""
    k = min(parts, n)
    return [0] + sorted(rng.sample(range(1, n), k - 1)) + [n] if k > 1 else [0, n]


class C04(Check):
    id = 'C04'
    quick = 1500
    thorough = 40000
    focus = ('utility/imageio.py', 'film/film.py')
    real = ('film crop windows', 'image writer (update path)', 'image reader', 'PNG encoder/decoder (Pillow)')
    stub = ('file-system calls (interposed: failed, torn, crashed)', 'OS scheduler')
    rule = ('a case is a full image, a set of windows (a partition of it, or overlapping ones) each with its own data '
            'and its own fault list, and the order they are written in; non-trivial: at least two windows were '
            'written and they do not all start at the origin; distinct by image size, window list, order and faults')
    assumptions = ('windows of one image are written one after another (the update is a read-modify-write of the file)',
                   'the bytes a window puts down are those the same data gives when written as an image of its own')
    mods = ('pytracer.film', 'pytracer.filter', 'pytracer.sampler', 'pytracer.utility.imageio')

    def gen(self, rng, tier):
        W, H = rng.choice([(2, 2), (3, 2), (4, 3), (2, 5), (6, 4), (5, 5), (8, 8), (4, 16), (40, 31)])
        p = {'W': W, 'H': H, 'seed': rng.getrandbits(30), 'base': rng.choice(['file', 'file', 'write'])}
        wins = []
        mode = rng.choice(['partition', 'partition', 'random', 'film'])
        if mode == 'film' and W * H > 40:
            mode = 'partition'
        if mode == 'random':
            for _ in range(rng.randint(1, 6)):
                w, h = rng.randint(1, W), rng.randint(1, H)
                wins.append([W, H, rng.randint(0, W - w), rng.randint(0, H - h), w, h])
        else:
            xs = split(rng, W, rng.choice([1, 2, 3]))
            ys = split(rng, H, rng.choice([1, 2, 3]))
            for a in range(len(xs) - 1):
                for b in range(len(ys) - 1):
                    wins.append([W, H, xs[a], ys[b], xs[a + 1] - xs[a], ys[b + 1] - ys[b]])
            rng.shuffle(wins)
            if rng.random() < .3:
                wins.append(list(rng.choice(wins)))
        p['ops'] = []
        for w in wins:
            spec = {'via': 'raw', 'win': w, 'seed': rng.getrandbits(30), 'scale': rng.choice([1., 20.]), 'W': W, 'H': H}
            if mode == 'film':
                crop = [(w[2]) / W, (w[2] + w[4]) / W, w[3] / H, (w[3] + w[5]) / H]
                ops = []
                for y in range(H):
                    for x in range(W):
                        ops.append([rng.choice(['splat', 'add']), x + rng.uniform(.1, .9), y + rng.uniform(.1, .9),
                                    [rng.uniform(.2, 1.) for _ in range(3)]])
                spec = {'via': 'film', 'W': W, 'H': H, 'win': w, 'film': {
                    'xr': W, 'yr': H, 'crop': crop, 'filter': ['box', .5, .5], 'ops': ops, 'threads': []}}
            p['ops'].append({'spec': spec, 'faults': gen_faults(rng, 14, maxf=1) if rng.random() < .35 else []})
        return p

    def execute(self, plan, run):
        with simfs.FS('%s:disk' % run.seed) as fs, simfs.FS('scratch') as other:
            simfs._ACTIVE.remove(other)
            simfs._ACTIVE.insert(0, other)
            self.go(plan, run, fs, other)

    def go(self, plan, run, fs, other):
        import pytracer.utility.imageio as iio
        W, H = plan['W'], plan['H']
        base = noise(plan['seed'], H, W)
        if plan['base'] == 'file':
            canvas = (base * 255).astype('uint8')
            fs.put('img.png', png(canvas))
        else:
            iio.write_image(fs.path('img.png'), base.copy(), None, W, H, W, H, 0, 0)
            canvas = decode(fs.get('img.png'))
            fs.settle()
        if canvas is None or canvas.shape != (H, W, 3):
            raise Violation('wrong-shape', 'a %dx%d image was stored as %r' % (
                W, H, None if canvas is None else canvas.shape))
        done = []
        for n, op in enumerate(plan['ops']):
            w = Writer(op['spec'], fs)
            win = op['spec']['win']
            if w.film is not None and (w.x0, w.y0, w.w, w.h) != tuple(win[2:]):
                # rounding of the crop fractions: the model's window counts
                win = [W, H, w.x0, w.y0, w.w, w.h]
            want = w.expect(canvas, other)
            film = w.film is not None

            def attempt(faults):
                fs.arm(dict((i, k) for i, k in faults))
                fs.fired = []
                try:
                    w.write()
                    r = 'ok'
                except sim.SimCrash:
                    r = 'crash'
                except Exception as e:
                    r = e
                for f, i, k in fs.fired:
                    run.faults[f] += 1
                    run.fault_keys.append('%s@%s' % (f, k))
                if fs.dead:
                    fs.restart(any(f[0] == 'power' for f in fs.fired))
                    r = 'crash'
                fs.clear()
                return r
            r = attempt(op['faults'])
            if r != 'ok':
                if r != 'crash' and not fs.fired:
                    raise Violation('spurious-error', 'window %r: %r' % (win[2:], r))
                now = decode(fs.get('img.png'))
                if not (same(now, canvas, film) or same(now, want, film)):
                    raise Violation('torn-image', 'a failed window write left neither the old nor the new image')
                r = attempt([])
                run.probe('window_retried')
                if r != 'ok':
                    raise Violation('retry-fails', 'window %r: %r' % (win[2:], r))
            now = decode(fs.get('img.png'))
            if now is None or now.shape != canvas.shape:
                raise Violation('torn-image', 'after window %r the file holds no %dx%d image' % (win[2:], W, H))
            x0, y0, ww, hh = win[2:]
            out = np.ones((H, W), dtype=bool)
            out[y0:y0 + hh, x0:x0 + ww] = False
            if (now != canvas)[out].any():
                bad = np.argwhere((now != canvas).any(axis=2) & out)[0]
                raise Violation('outside-changed', 'window %r changed pixel (x=%d, y=%d) outside itself' % (
                    win[2:], bad[1], bad[0]))
            if not same(now, want, film):
                bad = np.argwhere((now != want).any(axis=2))[0]
                raise Violation('window-differs', 'window %r: pixel (x=%d, y=%d) is %s, its data give %s' % (
                    win[2:], bad[1], bad[0], now[bad[0], bad[1]].tolist(), want[bad[0], bad[1]].tolist()))
            canvas = now
            fs.settle()
            done.append(win[2:])
            run.steps += 1
        if len(done) > 1 and any(d[:2] != [0, 0] for d in done):
            run.nontrivial = True
        if W & (W - 1) == 0 and H & (H - 1) == 0:
            back = iio.read_image(fs.path('img.png'))
            back = np.asarray(back)
            if back.shape != canvas.shape or (back != canvas).any():
                raise Violation('read-back-differs', 'reading the finished image gives other pixels')
            run.probe('read_back')
        run.keys = [W, H, done, [o['faults'] for o in plan['ops']]]
        run.fault_keys = sorted(set(run.fault_keys))
        run.probe('windows_written', len(done))


CHECK = C04
