"""The randomness seam: numpy.random and random as seen by the code under test.

Installed before the package under test is imported, so default arguments such
as `rng=np.random.rand` bind to the seam too.  Each simulated task draws from
its own seeded stream; outside a simulation a global seeded stream is used.
Streams may be adversarial (edge values) as the run's plan decides.
"""
import random as _random
import numpy as np
from . import sim

EDGE = [0.0, 1.0 - 2.0 ** -53, 0.5, 2.0 ** -53, 0.25, 0.75, 1e-9, 1 - 1e-9]


class Stream(object):
    """One reproducible stream of uniform draws."""

    def __init__(self, seed, edge=0.0, const=None):
        self.r = _random.Random('stream:%s' % (seed,))
        self.edge = edge
        self.const = const
        self.draws = 0
        self.edges = 0

    def u(self):
        self.draws += 1
        if self.const is not None:
            return self.const
        if self.edge and self.r.random() < self.edge:
            self.edges += 1
            return EDGE[self.r.randrange(len(EDGE))]
        return self.r.random()

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.r.randrange(i + 1)
            if j != i:
                if isinstance(x, np.ndarray) and x.ndim > 1:
                    t = x[i].copy()
                    x[i] = x[j]
                    x[j] = t
                else:
                    x[i], x[j] = x[j], x[i]
        self.draws += len(x)


class State(object):
    glob = Stream('global')
    escaped = 0        # draws through un-modelled numpy.random entry points


def cur():
    t = sim.S.cur
    if t is not None and t.rng is not None:
        return t.rng
    return State.glob


def rand(*shape):
    s = cur()
    if not shape:
        return s.u()
    n = 1
    for d in shape:
        n *= int(d)
    a = np.array([s.u() for _ in range(n)], dtype=np.float64)
    return a.reshape([int(d) for d in shape])


def random_sample(size=None):
    if size is None:
        return rand()
    if isinstance(size, (tuple, list)):
        return rand(*size)
    return rand(size)


def uniform(low=0.0, high=1.0, size=None):
    return low + (high - low) * random_sample(size)


def randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    s = cur()
    if size is None:
        return low + s.r.randrange(high - low)
    shape = size if isinstance(size, (tuple, list)) else (size,)
    n = 1
    for d in shape:
        n *= int(d)
    return np.array([low + s.r.randrange(high - low) for _ in range(n)], dtype=dtype).reshape(shape)


def permutation(x):
    a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
    cur().shuffle(a)
    return a


def shuffle(x):
    cur().shuffle(x)


def choice(a, size=None, replace=True, p=None):
    seq = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
    s = cur()

    def one():
        if p is None:
            return seq[s.r.randrange(len(seq))]
        u, acc = s.u(), 0.0
        for v, q in zip(seq, p):
            acc += q
            if u < acc:
                return v
        return seq[-1]
    if size is None:
        return one()
    if not replace:
        b = list(seq)
        s.shuffle(b)
        return np.array(b[:size])
    return np.array([one() for _ in range(size)])


def normal(loc=0.0, scale=1.0, size=None):
    s = cur()
    if size is None:
        return s.r.gauss(loc, scale)
    return np.array([s.r.gauss(loc, scale) for _ in range(int(np.prod(size)))]).reshape(size)


def seed(x=None):
    # code under test reseeding the generator: honoured for the current stream
    cur().r.seed('reseed:%r' % (x,))


def install():
    m = np.random
    m.rand = rand
    m.random_sample = m.random = m.ranf = m.sample = random_sample
    m.uniform = uniform
    m.randint = randint
    m.permutation = permutation
    m.shuffle = shuffle
    m.choice = choice
    m.normal = normal
    m.randn = lambda *s: normal(size=s or None)
    m.seed = seed

    # the stdlib module-level generator, should code under test use it
    class _R(object):
        pass
    _random.random = lambda: cur().u()
    _random.uniform = lambda a, b: a + (b - a) * cur().u()
    _random.randrange = lambda *a: cur().r.randrange(*a)
    _random.randint = lambda a, b: cur().r.randint(a, b)
    _random.shuffle = lambda x, r=None: cur().shuffle(x)
    _random.choice = lambda x: x[cur().r.randrange(len(x))]
